// P20: Integer arithmetic is exact or refuses.
#include "drv.hh"
#include <gcs/innards/power.hh>
#include <gcs/integer.hh>
#include <algorithm>
#include <climits>
#include <format>
#include <functional>
#include <optional>
#include <sstream>
#include <unordered_set>
using namespace gcs;
using namespace gcs::innards;
using std::optional;
using std::string;
using std::to_string;
using std::vector;
using wide = __int128;


namespace
{
    auto in_ll(wide w) -> bool { return w >= LLONG_MIN && w <= LLONG_MAX; }

    // Every value with something special about it: near zero, powers of two and
    // their neighbours, square and cube roots of the limits, the limits.
    auto values(int near, bool dense) -> vector<long long>
    {
        vector<long long> v;
        auto add = [&](wide w) { if (in_ll(w)) v.push_back(static_cast<long long>(w)); };
        for (int i = -near; i <= near; ++i) {
            add(i);
            add(wide(LLONG_MAX) + i);
            add(wide(LLONG_MIN) + i);
        }
        for (int k = 1; k <= 63; ++k)
            for (int d = dense ? -2 : -1; d <= (dense ? 2 : 1); ++d) {
                add((wide(1) << k) + d);
                add(-(wide(1) << k) + d);
            }
        for (long long r : {3037000499ll, 3037000500ll, 2097151ll, 2097152ll, 55108ll, 55109ll, 1000000007ll, 10000000000ll})
            for (int d = -1; d <= 1; ++d) {
                add(r + d);
                add(-r + d);
            }
        for (int k = 2; k < 20; ++k)
            for (int d = -1; d <= 1; ++d) {
                add(wide(LLONG_MAX) / k + d);
                add(wide(LLONG_MIN) / k + d);
            }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    }

    template <typename F_>
    auto attempt(F_ f) -> optional<long long>
    {
        try {
            return f().raw_value;
        }
        catch (const IntegerOverflow &) {
            return std::nullopt;
        }
    }

    auto show(optional<long long> o) -> string { return o ? to_string(*o) : string("overflow"); }

    auto big_power(wide base, long long exp) -> optional<long long>
    {
        // for exp >= 0
        if (base == 0 || base == 1)
            return exp == 0 ? 1 : static_cast<long long>(base);
        if (base == -1)
            return exp % 2 == 0 ? 1 : -1;
        wide r = 1;
        for (long long i = 0; i < exp; ++i) {
            r *= base;
            if (! in_ll(r))
                return std::nullopt;
        }
        return static_cast<long long>(r);
    }

    template <typename T_>
    auto predicates(drv::Ctx & ctx, const char * name, const vector<T_> & vs) -> void
    {
        constexpr wide lo = std::numeric_limits<T_>::min(), hi = std::numeric_limits<T_>::max();
        if (! ctx.begin(string("predicate/") + name))
            return;
        for (auto a : vs) {
            for (auto b : vs)
                for (int op = 0; op < 3; ++op) {
                    wide exact = op == 0 ? wide(a) + b : op == 1 ? wide(a) - b : 0;
                    bool over;
                    if (op < 2)
                        over = exact < lo || exact > hi;
                    else {
                        // 64-bit products fit in 128 bits either way
                        exact = wide(a) * wide(b);
                        over = sizeof(T_) == 8 && lo == 0 ? (b != 0 && static_cast<unsigned __int128>(a) * static_cast<unsigned __int128>(b) > static_cast<unsigned __int128>(hi)) : exact < lo || exact > hi;
                    }
                    T_ out{};
                    bool said = op == 0 ? add_overflows(a, b, &out) : op == 1 ? sub_overflows(a, b, &out) : mul_overflows(a, b, &out);
                    ctx.count("predicate_evaluations");
                    if (said != over || (! over && out != static_cast<T_>(exact)))
                        ctx.fail(string("predicate/") + name, string(1, "+-*"[op]) + " on " + to_string(a) + ", " + to_string(b) + ": said overflow " + to_string(said) + " result " + to_string(out));
                }
        }
        ctx.sample(string("predicate/") + name + " over " + to_string(vs.size()) + "^2 pairs");
    }

    template <typename T_>
    auto all_of() -> vector<T_>
    {
        vector<T_> v;
        for (long i = std::numeric_limits<T_>::min(); i <= long(std::numeric_limits<T_>::max()); ++i)
            v.push_back(static_cast<T_>(i));
        return v;
    }
    template <typename T_>
    auto edges(int near) -> vector<T_>
    {
        vector<T_> v;
        auto add = [&](wide w) {
            if (w >= wide(std::numeric_limits<T_>::min()) && w <= wide(std::numeric_limits<T_>::max()))
                v.push_back(static_cast<T_>(w));
        };
        for (int i = -near; i <= near; ++i) {
            add(i);
            add(wide(std::numeric_limits<T_>::max()) + i);
            add(wide(std::numeric_limits<T_>::min()) + i);
        }
        for (int k = 1; k <= 64; ++k)
            for (int d = -1; d <= 1; ++d) {
                add((wide(1) << k) + d);
                add(-(wide(1) << k) + d);
            }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    }

    constexpr auto compile_time() -> bool
    {
        Integer a{7};
        ++a;
        a += 3_i;
        a -= 20_i;
        return a == -9_i && a * a == 81_i && a / 2_i == -4_i && a % 2_i == -1_i && -a == 9_i && a < 0_i && a-- == -9_i && a == -10_i && a++ == -10_i;
    }
    static_assert(compile_time());
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    auto vs = values(ctx.thorough ? 200 : 40, ctx.thorough);
    auto check = [&](const string & id, const string & what, optional<long long> got, optional<wide> want) {
        ctx.count("operations");
        if (want && ! in_ll(*want))
            want = std::nullopt;
        if (want ? ! got || *got != static_cast<long long>(*want) : got.has_value())
            ctx.fail(id, what + " gives " + show(got) + ", not " + (want ? to_string(static_cast<long long>(*want)) : string("overflow")));
    };

    for (auto x : vs) {
        auto id = "ops/" + to_string(x);
        if (! ctx.begin(id))
            continue;
        ctx.count("operands");
        auto X = to_string(x);
        check(id, "-(" + X + ")", attempt([&] { return -Integer{x}; }), -wide(x));
        check(id, "abs(" + X + ")", attempt([&] { return abs(Integer{x}); }), x < 0 ? -wide(x) : wide(x));
        // In-place operators: value, returned value, and nothing changed on refusal.
        auto in_place = [&](const string & what, auto f, wide want, wide want_returned) {
            Integer a{x};
            optional<long long> ret;
            try {
                ret = f(a).raw_value;
            }
            catch (const IntegerOverflow &) {
            }
            ctx.count("operations");
            bool fits = in_ll(want);
            if (fits != ret.has_value())
                ctx.fail(id, what + " on " + X + (fits ? " refuses" : " does not refuse"));
            else if (fits && (a.raw_value != static_cast<long long>(want) || *ret != static_cast<long long>(want_returned)))
                ctx.fail(id, what + " on " + X + " leaves " + to_string(a.raw_value) + " and returns " + to_string(*ret));
            else if (! fits && a.raw_value != x)
                ctx.fail(id, what + " refuses but changes " + X + " to " + to_string(a.raw_value));
        };
        in_place("++a", [](Integer & a) { return ++a; }, wide(x) + 1, wide(x) + 1);
        in_place("--a", [](Integer & a) { return --a; }, wide(x) - 1, wide(x) - 1);
        in_place("a++", [](Integer & a) { return a++; }, wide(x) + 1, x);
        in_place("a--", [](Integer & a) { return a--; }, wide(x) - 1, x);
        {
            // two in a row: the reference returned is to the operand itself
            Integer a{x};
            if (x < LLONG_MAX - 3 && x > LLONG_MIN + 3) {
                ++(++a);
                --(--(--a));
                (a += 5_i) -= 3_i;
                if (a.raw_value != x + 1)
                    ctx.fail(id, "chained in-place operators on " + X + " leave " + to_string(a.raw_value));
            }
        }
        // text and hashing
        std::ostringstream os;
        os << Integer{x};
        if (Integer{x}.to_string() != X || os.str() != X || std::format("{}", Integer{x}) != X || std::format("{:>25}", Integer{x}) != std::format("{:>25}", x) || format_as(Integer{x}) != x)
            ctx.fail(id, "text of " + X + " is " + Integer{x}.to_string());
        if (x >= 0 && Integer{x}.as_index() != static_cast<std::size_t>(x))
            ctx.fail(id, "as_index");
        if (x >= 0 && operator""_i(static_cast<unsigned long long>(x)).raw_value != x)
            ctx.fail(id, "literal");
        if (std::hash<Integer>{}(Integer{x}) != std::hash<Integer>{}(Integer{x}))
            ctx.fail(id, "hash");
        for (auto y : vs) {
            auto Y = to_string(y);
            check(id, X + " + " + Y, attempt([&] { return Integer{x} + Integer{y}; }), wide(x) + y);
            check(id, X + " - " + Y, attempt([&] { return Integer{x} - Integer{y}; }), wide(x) - y);
            check(id, X + " * " + Y, attempt([&] { return Integer{x} * Integer{y}; }), wide(x) * y);
            check(id, X + " / " + Y, attempt([&] { return Integer{x} / Integer{y}; }), y == 0 ? optional<wide>{} : wide(x) / y);
            // The remainder of the least value by -1 is 0, which may be refused
            // together with the quotient it belongs to.
            if (y != -1 || x != LLONG_MIN)
                check(id, X + " % " + Y, attempt([&] { return Integer{x} % Integer{y}; }), y == 0 ? optional<wide>{} : wide(x) % y);
            else if (auto r = attempt([&] { return Integer{x} % Integer{y}; }); r && *r != 0)
                ctx.fail(id, X + " % " + Y + " gives " + show(r));
            in_place("a += " + Y, [&](Integer & a) { return a += Integer{y}; }, wide(x) + y, wide(x) + y);
            in_place("a -= " + Y, [&](Integer & a) { return a -= Integer{y}; }, wide(x) - y, wide(x) - y);
            Integer a{x}, b{y};
            if ((a == b) != (x == y) || (a != b) != (x != y) || (a < b) != (x < y) || (a <= b) != (x <= y) || (a > b) != (x > y) || (a >= b) != (x >= y))
                ctx.fail(id, "comparison of " + X + " and " + Y);
        }
        ctx.sample(id + " against " + to_string(vs.size()) + " operands");
    }
    // aliased operands
    if (ctx.begin("alias"))
        for (auto x : vs) {
            Integer a{x};
            auto r = attempt([&] { return a += a; });
            check("alias", to_string(x) + " += itself", r, wide(x) * 2);
            if (! r && a.raw_value != x)
                ctx.fail("alias", to_string(x) + " += itself refuses but changes it");
            Integer b{x};
            check("alias", to_string(x) + " -= itself", attempt([&] { return b -= b; }), wide(0));
        }
    // powers
    auto es = values(ctx.thorough ? 300 : 130, false);
    for (auto b : values(ctx.thorough ? 300 : 60, true)) {
        auto id = "power/" + to_string(b);
        if (! ctx.begin(id))
            continue;
        for (auto e : es) {
            optional<long long> want;
            if (e >= 0)
                want = big_power(b, e);
            else if (b == 1)
                want = 1;
            else if (b == -1)
                want = e % 2 == 0 ? 1 : -1;
            else if (b != 0)
                want = 0;
            auto got = checked_integer_power(Integer{b}, Integer{e});
            ctx.count("operations");
            if (got.has_value() != want.has_value() || (got && got->raw_value != *want))
                ctx.fail(id, to_string(b) + " ^ " + to_string(e) + " gives " + (got ? to_string(got->raw_value) : string("none")) + ", not " + show(want));
        }
        ctx.sample(id + " to " + to_string(es.size()) + " exponents");
    }
    if (ctx.begin("power2"))
        for (auto e : vs) {
            optional<long long> got;
            try {
                got = power2(Integer{e}).raw_value;
            }
            catch (const UnimplementedException &) {
            }
            optional<long long> want;
            if (e >= 0 && e <= 62)
                want = 1ll << e;
            ctx.count("operations");
            if (got != want)
                ctx.fail("power2", "power2(" + to_string(e) + ") gives " + show(got));
        }
    if (Integer::min_value().raw_value != LLONG_MIN || Integer::max_value().raw_value != LLONG_MAX)
        ctx.fail("limits", "min_value or max_value");
    predicates<signed char>(ctx, "signed char", all_of<signed char>());
    predicates<unsigned char>(ctx, "unsigned char", all_of<unsigned char>());
    predicates<short>(ctx, "short", edges<short>(150));
    predicates<unsigned short>(ctx, "unsigned short", edges<unsigned short>(150));
    predicates<int>(ctx, "int", edges<int>(100));
    predicates<unsigned>(ctx, "unsigned", edges<unsigned>(100));
    predicates<long>(ctx, "long", edges<long>(100));
    predicates<long long>(ctx, "long long", vs);
    predicates<unsigned long long>(ctx, "unsigned long long", edges<unsigned long long>(100));
    ctx.finish();
}
