// P26: product, square, quotient and root bounds.
#include "drv.hh"
#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/constraints/innards/product_bounds.hh>
#include <algorithm>
#include <climits>
#include <optional>
using namespace gcs;
using namespace gcs::innards;
using std::optional;
using std::pair;
using std::string;
using std::to_string;
using std::vector;
using wide = __int128;

namespace
{
    auto str(wide w) -> string
    {
        if (w < 0)
            return "-" + str(-w);
        return w < 10 ? string(1, char('0' + int(w))) : str(w / 10) + string(1, char('0' + int(w % 10)));
    }
    auto floor_div(wide a, wide b) -> wide
    {
        wide q = a / b;
        return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
    }
    auto ceil_div(wide a, wide b) -> wide { return -floor_div(-a, b); }
    auto fits(wide w) -> bool { return w >= LLONG_MIN && w <= LLONG_MAX; }
    auto root(wide n) -> wide
    {
        wide lo = 0, hi = wide(1) << 33;
        while (lo < hi) {
            wide mid = (lo + hi + 1) / 2;
            (mid * mid <= n ? lo : hi) = mid * mid <= n ? mid : mid - 1;
        }
        return lo;
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    // Where an intermediate of the formula itself cannot be represented, the
    // helper may refuse (throw) but must not answer wrongly.
    auto scalar = [&](const string & id, const string & what, auto f, optional<wide> want, bool may_refuse) {
        ctx.count("scalar_cases");
        try {
            auto got = f().raw_value;
            if (! want || wide(got) != *want)
                ctx.fail(id, what + " gives " + to_string(got) + ", not " + (want ? str(*want) : string("a refusal")));
        }
        catch (const MessageException & e) {
            if (want && fits(*want) && ! may_refuse)
                ctx.fail(id, what + " is refused: " + e.what());
        }
    };
    vector<long long> big;
    for (int i = -12; i <= 12; ++i)
        big.push_back(i);
    for (int k = 3; k <= 62; k += ctx.thorough ? 1 : 3)
        for (int d = -1; d <= 1; ++d) {
            big.push_back((1ll << k) + d);
            big.push_back(-(1ll << k) + d);
        }
    for (int d = 0; d < 3; ++d) {
        big.push_back(LLONG_MAX - d);
        big.push_back(LLONG_MIN + d);
    }
    std::sort(big.begin(), big.end());
    big.erase(std::unique(big.begin(), big.end()), big.end());

    for (auto a : big)
        if (ctx.begin("div/" + to_string(a)))
            for (auto b : big) {
                auto id = "div/" + to_string(a);
                auto ab = to_string(a) + ", " + to_string(b);
                bool edge = a == LLONG_MIN || b == LLONG_MIN;
                scalar(id, "div_floor(" + ab + ")", [&] { return div_floor(Integer{a}, Integer{b}); }, b ? optional<wide>{floor_div(a, b)} : std::nullopt, edge);
                scalar(id, "div_ceil(" + ab + ")", [&] { return div_ceil(Integer{a}, Integer{b}); }, b ? optional<wide>{ceil_div(a, b)} : std::nullopt, edge);
                auto p = product_if_representable(Integer{a}, Integer{b});
                if (p.has_value() != fits(wide(a) * b) || (p && wide(p->raw_value) != wide(a) * b))
                    ctx.fail(id, "product_if_representable(" + ab + ")");
            }
    int dn = ctx.thorough ? 400 : 150;
    if (ctx.begin("div/small"))
        for (int a = -dn; a <= dn; ++a)
            for (int b = -dn; b <= dn; ++b)
                if (b) {
                    scalar("div/small", "div_floor(" + to_string(a) + ", " + to_string(b) + ")", [&] { return div_floor(Integer{a}, Integer{b}); }, floor_div(a, b), false);
                    scalar("div/small", "div_ceil(" + to_string(a) + ", " + to_string(b) + ")", [&] { return div_ceil(Integer{a}, Integer{b}); }, ceil_div(a, b), false);
                }
    auto roots = [&](const string & id, long long n) {
        auto r = n < 0 ? optional<wide>{} : optional<wide>{root(n)};
        scalar(id, "isqrt(" + to_string(n) + ")", [&] { return isqrt(Integer{n}); }, r, false);
        scalar(id, "ceil_isqrt(" + to_string(n) + ")", [&] { return ceil_isqrt(Integer{n}); }, r ? optional<wide>{*r * *r == n ? *r : *r + 1} : r, false);
    };
    for (int block = 0; block < 16; ++block)
        if (ctx.begin("root/" + to_string(block))) {
            auto id = "root/" + to_string(block);
            long long step = ctx.thorough ? 200000 : 20000;
            for (long long n = block * step - 5; n < (block + 1) * step; ++n)
                roots(id, n);
            for (long long r = 1 + block; r <= 3037000499ll; r += r / 50 + 1)
                for (int d = -2; d <= 2; ++d)
                    roots(id, r * r + d);
        }
    if (ctx.begin("root/big"))
        for (auto n : big)
            roots("root/big", n);

    // Boxes, by brute force.
    int R = ctx.thorough ? 8 : 6;
    vector<pair<int, int>> box, zs;
    for (int l = -R; l <= R; ++l)
        for (int u = l; u <= R; ++u)
            box.emplace_back(l, u);
    int Z = R * R + 4;
    for (int l = -Z; l <= Z; l += 1)
        for (int u = l; u <= Z; u += (u - l < 6 ? 1 : 5))
            zs.emplace_back(l, u);
    for (auto [xl, xu] : box) {
        auto id = "box/" + to_string(xl) + "," + to_string(xu);
        if (! ctx.begin(id))
            continue;
        for (auto [yl, yu] : box) {
            int lo = INT_MAX, hi = INT_MIN;
            for (int x = xl; x <= xu; ++x)
                for (int y = yl; y <= yu; ++y) {
                    lo = std::min(lo, x * y);
                    hi = std::max(hi, x * y);
                }
            auto [l, u] = product_bounds(Integer{xl}, Integer{xu}, Integer{yl}, Integer{yu});
            ctx.count("boxes");
            if (l != Integer{lo} || u != Integer{hi})
                ctx.fail(id, "product_bounds with " + to_string(yl) + "," + to_string(yu));
        }
        int lo = INT_MAX, hi = INT_MIN;
        for (int x = xl; x <= xu; ++x) {
            lo = std::min(lo, x * x);
            hi = std::max(hi, x * x);
        }
        auto [l, u] = square_bounds(Integer{xl}, Integer{xu});
        ctx.count("boxes");
        if (l != Integer{lo} || u != Integer{hi})
            ctx.fail(id, "square_bounds");
        for (auto [zl, zu] : zs) {
            int a = INT_MAX, b = INT_MIN;
            for (int x = xl; x <= xu; ++x)
                if (x * x >= zl && x * x <= zu) {
                    a = std::min(a, x);
                    b = std::max(b, x);
                }
            auto [fl, fu] = square_filter(Integer{xl}, Integer{xu}, Integer{zl}, Integer{zu});
            ctx.count("boxes");
            if (a > b ? fl <= fu : fl != Integer{a} || fu != Integer{b})
                ctx.fail(id, "square_filter with z in " + to_string(zl) + "," + to_string(zu) + " gives " + fl.to_string() + "," + fu.to_string());
            // The same bounds now play the part of y in x * y = z.
            auto q = quotient_filter(Integer{xl}, Integer{xu}, Integer{zl}, Integer{zu});
            auto what = "quotient_filter with y in " + to_string(xl) + "," + to_string(xu) + " and z in " + to_string(zl) + "," + to_string(zu);
            using Kind = QuotientFilter::Kind;
            bool y0 = xl <= 0 && xu >= 0, z0 = zl <= 0 && zu >= 0;
            Kind want = y0 && z0 ? Kind::NoFilter : xl == 0 && xu == 0 ? Kind::EmptyBecauseYZero : Kind::Bounds;
            ctx.count("boxes");
            if (q.kind != want) {
                ctx.fail(id, what + ": wrong kind");
                continue;
            }
            if (want != Kind::Bounds)
                continue;
            // Sound: no supported x is outside.  As tight as documented: nothing
            // outside the exact (rational) hull, or the magnitude bound if y spans zero.
            for (int y = xl; y <= xu; ++y)
                for (int z = zl; z <= zu; ++z)
                    if (y && z % y == 0 && (Integer{z / y} < q.lo || Integer{z / y} > q.hi)) {
                        ctx.fail(id, what + ": loses " + to_string(z / y));
                        y = xu;
                        break;
                    }
            if (xl < 0 && xu > 0) {
                auto m = std::max(std::abs(zl), std::abs(zu));
                if (q.lo != Integer{-m} || q.hi != Integer{m})
                    ctx.fail(id, what + ": not the magnitude bound");
            }
            else {
                wide l = LLONG_MAX, u = LLONG_MIN;
                for (int y : {xl == 0 ? 1 : xl, xu == 0 ? -1 : xu})
                    for (int z : {zl, zu}) {
                        l = std::min(l, ceil_div(z, y));
                        u = std::max(u, floor_div(z, y));
                    }
                if (wide(q.lo.raw_value) != l || wide(q.hi.raw_value) != u)
                    ctx.fail(id, what + ": not the corner quotients");
            }
        }
        ctx.sample(id);
    }
    // Large magnitudes: exact, or refused because a corner does not fit.
    vector<pair<long long, long long>> wide_box;
    for (size_t i = 0; i < big.size(); i += 3)
        for (size_t j = i; j < big.size(); j += 5)
            wide_box.emplace_back(big[i], big[j]);
    for (auto [xl, xu] : wide_box) {
        auto id = "wide box/" + to_string(xl) + "," + to_string(xu);
        if (! ctx.begin(id))
            continue;
        for (auto [yl, yu] : wide_box) {
            vector<wide> c{wide(xl) * yl, wide(xl) * yu, wide(xu) * yl, wide(xu) * yu};
            auto lo = *std::min_element(c.begin(), c.end()), hi = *std::max_element(c.begin(), c.end());
            ctx.count("boxes");
            try {
                auto [l, u] = product_bounds(Integer{xl}, Integer{xu}, Integer{yl}, Integer{yu});
                if (wide(l.raw_value) != lo || wide(u.raw_value) != hi)
                    ctx.fail(id, "product_bounds with " + to_string(yl) + "," + to_string(yu));
            }
            catch (const IntegerOverflow &) {
                if (fits(lo) && fits(hi))
                    ctx.fail(id, "product_bounds with " + to_string(yl) + "," + to_string(yu) + " is refused");
            }
            try {
                auto q = quotient_filter(Integer{xl}, Integer{xu}, Integer{yl}, Integer{yu});
                if (q.kind == QuotientFilter::Kind::Bounds && ! (xl < 0 && xu > 0)) {
                    wide l = LLONG_MAX, u = LLONG_MIN;
                    for (long long y : {xl == 0 ? 1 : xl, xu == 0 ? -1 : xu})
                        for (long long z : {yl, yu}) {
                            l = std::min(l, ceil_div(z, y));
                            u = std::max(u, floor_div(z, y));
                        }
                    if (wide(q.lo.raw_value) != l || wide(q.hi.raw_value) != u)
                        ctx.fail(id, "quotient_filter with z in " + to_string(yl) + "," + to_string(yu));
                }
            }
            catch (const IntegerOverflow &) {
                if (xl != LLONG_MIN && xu != LLONG_MIN && yl != LLONG_MIN && yu != LLONG_MIN)
                    ctx.fail(id, "quotient_filter with z in " + to_string(yl) + "," + to_string(yu) + " is refused");
            }
        }
        wide a = wide(xl) * xl, b = wide(xu) * xu;
        try {
            auto [l, u] = square_bounds(Integer{xl}, Integer{xu});
            if (wide(u.raw_value) != std::max(a, b) || wide(l.raw_value) != (xl <= 0 && xu >= 0 ? 0 : std::min(a, b)))
                ctx.fail(id, "square_bounds");
        }
        catch (const IntegerOverflow &) {
            if (fits(a) && fits(b))
                ctx.fail(id, "square_bounds is refused");
        }
        // square_filter with a big z: compare with roots
        for (auto [zl, zu] : wide_box) {
            if (xl == LLONG_MIN || zl == LLONG_MIN)
                continue;
            ctx.count("boxes");
            auto [fl, fu] = square_filter(Integer{xl}, Integer{xu}, Integer{zl}, Integer{zu});
            wide l = 1, u = 0;
            if (zu >= 0) {
                wide up = root(zu), m = zl > 0 ? root(zl) : 0;
                if (m * m < zl)
                    ++m;
                // hull of [xl,xu] with [-up,-m] and [m,up]
                wide nl = std::max(wide(xl), -up), nu = std::min(wide(xu), -m), pl = std::max(wide(xl), m), pu = std::min(wide(xu), up);
                bool has_n = nl <= nu, has_p = pl <= pu;
                if (has_n || has_p) {
                    l = has_n ? nl : pl;
                    u = has_p ? pu : nu;
                }
            }
            if (l > u ? fl <= fu : wide(fl.raw_value) != l || wide(fu.raw_value) != u)
                ctx.fail(id, "square_filter with z in " + to_string(zl) + "," + to_string(zu) + " gives " + fl.to_string() + "," + fu.to_string());
        }
    }
    ctx.finish();
}
