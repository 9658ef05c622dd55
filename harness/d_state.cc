// P11: the domain store.
//   reach     every domain over a universe, reached by operations; from each, every
//             operation through every kind of handle, and every query
//   pairs     every pair of domains: the two-variable query
//   history   every sequence of inferences, guesses, epochs, backtracks, constraint-state
//             writes and clones to a depth, against a stack of plain sets
//   wide      domains of few far-apart intervals at extreme values
#include "drv.hh"
#include <gcs/innards/state.hh>
#include <gcs/innards/inference_tracker.hh>
#include <algorithm>
#include <functional>
#include <optional>
using namespace gcs;
using namespace gcs::innards;
using std::optional;
using std::set;
using std::string;
using std::to_string;
using std::vector;
using ll = long long;

namespace
{
    drv::Ctx ctx;
    using Dom = set<ll>;
    auto show(const Dom & d) -> string
    {
        string s = "{";
        for (auto v : d)
            s += (s.size() > 1 ? "," : "") + to_string(v);
        return s + "}";
    }
    auto name(Inference i) -> const char *
    {
        switch (i) {
        case Inference::NoChange: return "no change";
        case Inference::InteriorValuesChanged: return "interior values changed";
        case Inference::BoundsChanged: return "bounds changed";
        case Inference::Instantiated: return "instantiated";
        case Inference::Contradiction: return "contradiction";
        }
        return "?";
    }
    // A condition on a value.
    struct Op
    {
        int kind; // 0 == 1 != 2 < 3 >= 4 in range 5 not in range
        ll a, b;
        auto holds(ll v) const -> bool
        {
            switch (kind) {
            case 0: return v == a;
            case 1: return v != a;
            case 2: return v < a;
            case 3: return v >= a;
            case 4: return a <= v && v <= b;
            default: return ! (a <= v && v <= b);
            }
        }
        auto text() const -> string
        {
            static const char * n[] = {"==", "!=", "<", ">=", "in", "not in"};
            return string(n[kind]) + " " + to_string(a) + (kind >= 4 ? ".." + to_string(b) : "");
        }
    };
    // A handle on a variable: 0 the variable, 1 the variable as a general id, 2 a view
    // (as a view), 3 a view as a general id; value = sign * underlying + add.
    struct Handle
    {
        int kind;
        bool neg;
        ll add;
        auto out(ll v) const -> ll { return (neg ? -v : v) + add; }
        auto text() const -> string { return string("handle ") + to_string(kind) + (neg ? " negated" : "") + " + " + to_string(add); }
    };
    auto filtered(const Dom & d, const Handle & h, const Op & op) -> Dom
    {
        Dom r;
        for (auto v : d)
            if (op.holds(h.out(v)))
                r.insert(v);
        return r;
    }
    auto classify(const Dom & before, const Dom & after) -> Inference
    {
        if (after.empty())
            return Inference::Contradiction;
        if (before == after)
            return Inference::NoChange;
        if (after.size() == 1)
            return Inference::Instantiated;
        return *before.begin() != *after.begin() || *before.rbegin() != *after.rbegin() ? Inference::BoundsChanged : Inference::InteriorValuesChanged;
    }
    template <typename V_>
    auto condition(const V_ & v, const Op & op) -> VariableConditionFrom<V_>
    {
        Integer a{op.a}, b{op.b};
        switch (op.kind) {
        case 0: return v == a;
        case 1: return v != a;
        case 2: return v < a;
        case 3: return v >= a;
        case 4: return VariableConditionFrom<V_>{v, VariableConditionOperator::InRange, a, b};
        default: return VariableConditionFrom<V_>{v, VariableConditionOperator::NotInRange, a, b};
        }
    }
    template <typename V_>
    auto as_condition(const V_ & v, const Op & op) -> IntegerVariableCondition
    {
        return condition(IntegerVariableID{v}, op);
    }
    // route: 0 the direct call, 1 through a condition, 2 through a literal
    template <typename V_>
    auto infer(State & s, const V_ & v, const Op & op, int route) -> Inference
    {
        Integer a{op.a}, b{op.b};
        if (route == 1)
            return s.infer(condition(v, op));
        if (route == 2)
            return s.infer(Literal{as_condition(v, op)});
        switch (op.kind) {
        case 0: return s.infer_equal(v, a);
        case 1: return s.infer_not_equal(v, a);
        case 2: return s.infer_less_than(v, a);
        case 3: return s.infer_greater_than_or_equal(v, a);
        case 4: return s.infer_in_range(v, a, b);
        default: return s.infer_not_in_range(v, a, b);
        }
    }
    template <typename F_>
    auto with(const SimpleIntegerVariableID & v, const Handle & h, F_ f)
    {
        ViewOfIntegerVariableID view{v, h.neg, Integer{h.add}};
        switch (h.kind) {
        case 0: return f(v);
        case 1: return f(IntegerVariableID{v});
        case 2: return f(view);
        default: return f(IntegerVariableID{view});
        }
    }

    template <typename V_>
    auto queries(State & s, const V_ & v, const Dom & d, ll lo, ll hi, const string & what, bool deep) -> void
    {
        auto bad = [&](const string & why) { ctx.fail(what + " " + show(d), why); };
        IntegerVariableID g{v};
        auto cur = s.current();
        ll mn = *d.begin(), mx = *d.rbegin();
        auto [blo, bhi] = s.bounds(v);
        if (blo.raw_value != mn || bhi.raw_value != mx)
            bad("bounds " + to_string(blo.raw_value) + " " + to_string(bhi.raw_value));
        if (s.lower_bound(g).raw_value != mn || cur.lower_bound(g).raw_value != mn)
            bad("lower bound");
        if (s.upper_bound(g).raw_value != mx || cur.upper_bound(g).raw_value != mx)
            bad("upper bound");
        if (s.domain_size(g).raw_value != ll(d.size()) || cur.domain_size(g).raw_value != ll(d.size()))
            bad("size");
        if (s.has_single_value(g) != (d.size() == 1) || cur.has_single_value(g) != (d.size() == 1))
            bad("has_single_value");
        auto sv = s.optional_single_value(v);
        if (sv.has_value() != (d.size() == 1) || (sv && sv->raw_value != mn))
            bad("optional_single_value");
        try {
            auto x = s(g), y = cur(g);
            if (d.size() != 1 || x.raw_value != mn || y.raw_value != mn)
                bad("value " + to_string(x.raw_value));
        }
        catch (const VariableDoesNotHaveUniqueValue &) {
            if (d.size() == 1)
                bad("no unique value");
        }
        if (! s.domain_has_holes(g) && mx - mn + 1 != ll(d.size()))
            bad("holes denied");
        for (ll x = lo - 1; x <= hi + 1; ++x) {
            ctx.count("queries");
            if (s.in_domain(v, Integer{x}) != (d.contains(x)) || cur.in_domain(g, Integer{x}) != d.contains(x))
                bad("membership of " + to_string(x));
        }
        // Iteration.
        vector<ll> want(d.begin(), d.end()), got;
        auto same = [&](const char * how, bool ordered) {
            auto g2 = got;
            if (! ordered && g2.size() > 1 && g2.front() > g2.back())
                std::reverse(g2.begin(), g2.end());
            if (g2 != want)
                bad(string(how) + " iteration");
            got.clear();
        };
        bool plain = std::is_same_v<V_, SimpleIntegerVariableID>;
        {
            auto gen = s.each_value_immutable(v);
            for (auto x : gen)
                got.push_back(x.raw_value);
        }
        same("immutable", plain);
        {
            auto gen = s.each_value_mutable(v);
            for (auto x : gen)
                got.push_back(x.raw_value);
        }
        same("mutable", plain);
        s.for_each_value_immutable(v, [&](Integer x) { got.push_back(x.raw_value); });
        same("for_each immutable", plain);
        s.for_each_value_mutable(v, [&](Integer x) { got.push_back(x.raw_value); });
        same("for_each mutable", plain);
        {
            auto gen = cur.each_value(g);
            for (auto x : gen)
                got.push_back(x.raw_value);
        }
        same("current", plain);
        {
            auto gen = cur.each_value_reversed(g);
            for (auto x : gen)
                got.push_back(x.raw_value);
        }
        std::reverse(got.begin(), got.end());
        same("reversed", true);
        for (auto & copy : {s.copy_of_values(v), cur.copy_of_values(g)}) {
            for (auto x : copy.each())
                got.push_back(x.raw_value);
            same("copied", true);
        }
        if (d.size() > 1)
            for (size_t stop = 1; stop <= d.size(); ++stop) {
                size_t seen = 0;
                s.for_each_value_immutable(v, [&](Integer) -> bool { return ++seen < stop; });
                if (seen != stop)
                    bad("early stop");
                seen = 0;
                s.for_each_value_mutable(v, [&](Integer) -> bool { return ++seen < stop; });
                if (seen != stop)
                    bad("early stop of a mutable iteration");
            }
        // What each condition is known to be.
        for (int kind = 0; kind < 6; ++kind)
            for (ll a = lo - 1; a <= hi + 1; ++a)
                for (ll b = kind < 4 ? 0 : a; b <= (kind < 4 ? 0 : hi + 1); ++b) {
                    Op op{kind, a, b};
                    bool some = false, all = true;
                    for (auto x : d)
                        (op.holds(x) ? some : all) = op.holds(x);
                    auto want_is = all ? LiteralIs::DefinitelyTrue : some ? LiteralIs::Undecided : LiteralIs::DefinitelyFalse;
                    auto c = as_condition(v, op);
                    ctx.count("queries");
                    if (s.test_literal(c) != want_is || s.test_literal(Literal{c}) != want_is)
                        bad("test of " + op.text());
                    // The negated condition is known to be the opposite.
                    auto opposite = all ? LiteralIs::DefinitelyFalse : some ? LiteralIs::Undecided : LiteralIs::DefinitelyTrue;
                    if (s.test_literal(! Literal{c}) != opposite)
                        bad("test of the negation of " + op.text());
                }
        if (deep)
            for (unsigned m = 0; m < (1u << (hi - lo + 1)); ++m) {
                IntervalSet<Integer> is;
                bool hit = false;
                for (ll x = lo; x <= hi; ++x)
                    if (m >> (x - lo) & 1) {
                        is.insert_at_end(Integer{x});
                        hit = hit || d.contains(x);
                    }
                ctx.count("queries");
                if (s.domain_intersects_with(v, is) != hit)
                    bad("intersection with mask " + to_string(m));
            }
    }

    // A state holding variable v with domain d (values base .. base + w - 1), built in one of several ways.
    auto build(State & s, ll base, int w, unsigned m, int way) -> SimpleIntegerVariableID
    {
        auto v = s.allocate_integer_variable_with_state(Integer{base}, Integer{base + w - 1});
        auto gone = [&](int i) { return ! (m >> i & 1); };
        auto out = [&](Inference i) {
            if (i == Inference::Contradiction)
                ctx.fail("build", "removing values from a domain that keeps others is a contradiction");
        };
        if (way == 0) {
            for (int i = 0; i < w; ++i)
                if (gone(i))
                    out(s.infer_not_equal(v, Integer{base + i}));
        }
        else if (way == 1) {
            for (int i = w; i-- > 0;)
                if (gone(i))
                    out(s.infer_not_equal(v, Integer{base + i}));
        }
        else if (way == 2) {
            for (int i = 0; i < w;) {
                int j = i;
                while (j < w && gone(j))
                    ++j;
                if (j > i)
                    out(s.infer_not_in_range(v, Integer{base + i}, Integer{base + j - 1}));
                i = j + 1;
            }
        }
        else { // bounds first, then middle-out
            int a = 0, b = w - 1;
            while (gone(a)) ++a;
            while (gone(b)) --b;
            out(s.infer_greater_than_or_equal(v, Integer{base + a}));
            out(s.infer_less_than(v, Integer{base + b + 1}));
            vector<int> mid;
            for (int i = 0; i < w; ++i)
                mid.push_back(i % 2 ? w / 2 + (i + 1) / 2 : w / 2 - i / 2);
            for (auto i : mid)
                if (i > a && i < b && i < w && i >= 0 && gone(i))
                    out(s.infer_not_equal(v, Integer{base + i}));
        }
        return v;
    }
    auto domain(ll base, int w, unsigned m) -> Dom
    {
        Dom d;
        for (int i = 0; i < w; ++i)
            if (m >> i & 1)
                d.insert(base + i);
        return d;
    }

    auto reach() -> void
    {
        vector<ll> bases{-2, 0, 5, -1000000};
        int top = ctx.thorough ? 9 : 7;
        for (auto base : bases)
            for (int w = 1; w <= (base == 5 || base < -2 ? 4 : top); ++w)
                for (unsigned m = 1; m < (1u << w); ++m) {
                    auto id = "reach/" + to_string(base) + "/" + to_string(w) + "/" + to_string(m);
                    if (! ctx.begin(id))
                        continue;
                    auto d = domain(base, w, m);
                    vector<Handle> hs{{0, false, 0}, {1, false, 0}};
                    for (bool neg : {false, true})
                        for (ll add : {ll(0), ll(1), ll(-3), 2 * base + w})
                            for (int k : {2, 3})
                                hs.push_back({k, neg, add});
                    for (int way = 0; way < 4; ++way)
                        for (auto & h : hs) {
                            ctx.count("states");
                            Dom view;
                            for (auto v : d)
                                view.insert(h.out(v));
                            ll lo = std::min(h.out(base), h.out(base + w - 1)), hi = std::max(h.out(base), h.out(base + w - 1));
                            {
                                State s;
                                auto v = build(s, base, w, m, way);
                                with(v, h, [&](const auto & x) { queries(s, x, view, lo, hi, id + " " + h.text(), way == 0); });
                            }
                            for (int kind = 0; kind < 6; ++kind)
                                for (ll a = lo - 2; a <= hi + 2; ++a)
                                    for (ll b = kind < 4 ? 0 : lo - 2; b <= (kind < 4 ? 0 : hi + 2); ++b)
                                        for (int route = 0; route < (way ? 1 : 3); ++route) {
                                            if (kind >= 4 && a > b + 1)
                                                continue;
                                            Op op{kind, a, b};
                                            State s;
                                            (void)s.allocate_integer_variable_with_state(Integer{-9}, Integer{9});
                                            auto v = build(s, base, w, m, way);
                                            auto z = s.allocate_integer_variable_with_state(Integer{-7}, Integer{7});
                                            auto after = filtered(d, h, op);
                                            auto got = with(v, h, [&](const auto & x) { return infer(s, x, op, route); });
                                            ctx.count("transitions");
                                            auto want = classify(d, after);
                                            if (got != want)
                                                ctx.fail(id, h.text() + " on " + show(d) + " way " + to_string(way) + " route " + to_string(route) + ": " + op.text() + " is reported as " + name(got) + ", not " + name(want));
                                            if (want == Inference::Contradiction)
                                                continue;
                                            Dom now;
                                            for (auto set = s.copy_of_values(v); auto x : set.each())
                                                now.insert(x.raw_value);
                                            if (now != after || s.domain_size(IntegerVariableID{v}).raw_value != ll(after.size()) ||
                                                s.lower_bound(v).raw_value != *after.begin() || s.upper_bound(v).raw_value != *after.rbegin())
                                                ctx.fail(id, h.text() + " on " + show(d) + ": after " + op.text() + " the domain is " + show(now));
                                            if (s.bounds(z) != std::pair{Integer{-7}, Integer{7}})
                                                ctx.fail(id, "another variable changed");
                                        }
                            // Changing the domain while iterating over a snapshot of it.
                            for (auto drop : d) {
                                if (d.size() == 1)
                                    break;
                                State s;
                                auto v = build(s, base, w, m, way);
                                Dom seen;
                                bool first = true;
                                with(v, h, [&](const auto & x) {
                                    s.for_each_value_mutable(x, [&](Integer i) {
                                        if (first)
                                            (void)s.infer_not_equal(v, Integer{drop});
                                        first = false;
                                        seen.insert(i.raw_value);
                                    });
                                });
                                if (seen != view)
                                    ctx.fail(id, "iteration over a snapshot saw " + show(seen));
                                State t;
                                auto u = build(t, base, w, m, way);
                                seen.clear();
                                first = true;
                                with(u, h, [&](const auto & x) {
                                    auto gen = t.each_value_mutable(x);
                                    for (auto i : gen) {
                                        if (first)
                                            (void)t.infer_not_equal(u, Integer{drop});
                                        first = false;
                                        seen.insert(i.raw_value);
                                    }
                                });
                                if (seen != view)
                                    ctx.fail(id, "generator over a snapshot saw " + show(seen));
                            }
                        }
                }
        // Constants.
        for (ll c = -3; c <= 3; ++c) {
            auto id = "constant/" + to_string(c);
            if (! ctx.begin(id))
                continue;
            State s;
            ConstantIntegerVariableID k{Integer{c}};
            queries(s, k, Dom{c}, -5, 5, id, true);
            queries(s, IntegerVariableID{k}, Dom{c}, -5, 5, id + " general", true);
            for (int kind = 0; kind < 6; ++kind)
                for (ll a = -5; a <= 5; ++a)
                    for (ll b = kind < 4 ? 0 : -5; b <= (kind < 4 ? 0 : 5); ++b)
                        for (int route = 0; route < 3; ++route) {
                            Op op{kind, a, b};
                            ctx.count("transitions");
                            auto want = op.holds(c) ? Inference::NoChange : Inference::Contradiction;
                            if (infer(s, k, op, route) != want || infer(s, IntegerVariableID{k}, op, route) != want)
                                ctx.fail(id, op.text());
                        }
            if (s.infer(Literal{TrueLiteral{}}) != Inference::NoChange || s.infer(Literal{FalseLiteral{}}) != Inference::Contradiction)
                ctx.fail(id, "literals");
            if (s.test_literal(Literal{TrueLiteral{}}) != LiteralIs::DefinitelyTrue || s.test_literal(Literal{FalseLiteral{}}) != LiteralIs::DefinitelyFalse ||
                s.test_literal(TrueLiteral{}) != LiteralIs::DefinitelyTrue || s.test_literal(FalseLiteral{}) != LiteralIs::DefinitelyFalse)
                ctx.fail(id, "literal tests");
        }
        if (ctx.begin("allocate")) {
            for (ll a = -3; a <= 3; ++a)
                for (ll b = -3; b <= 3; ++b) {
                    State s;
                    auto first = s.allocate_integer_variable_with_state(Integer{0}, Integer{1});
                    auto next = s.what_variable_id_will_be_created_next();
                    try {
                        auto v = s.allocate_integer_variable_with_state(Integer{a}, Integer{b});
                        if (a > b)
                            ctx.fail("allocate", "an empty domain is accepted");
                        else if (s.bounds(v) != std::pair{Integer{a}, Integer{b}} || s.domain_size(IntegerVariableID{v}).raw_value != b - a + 1 || v == first || ! (v == next))
                            ctx.fail("allocate", "wrong domain or identity");
                    }
                    catch (const InvalidProblemDefinitionException &) {
                        if (a <= b)
                            ctx.fail("allocate", "refused");
                    }
                }
        }
    }

    auto pairs() -> void
    {
        int w = ctx.thorough ? 5 : 4;
        vector<Handle> hs;
        for (bool neg : {false, true})
            for (ll add = -2; add <= 2; ++add)
                hs.push_back({neg || add ? 3 : 1, neg, add});
        for (unsigned m = 1; m < (1u << w); ++m)
            for (unsigned n = 1; n < (1u << w); ++n) {
                auto id = "pairs/" + to_string(m) + "/" + to_string(n);
                if (! ctx.begin(id))
                    continue;
                State s;
                auto x = build(s, -1, w, m, 0), y = build(s, 0, w, n, 2);
                auto dx = domain(-1, w, m), dy = domain(0, w, n);
                auto judge = [&](const IntegerVariableID & a, const Dom & da, const IntegerVariableID & b, const Dom & db, const string & what) {
                    ctx.count("queries");
                    bool want = false;
                    for (auto v : da)
                        want = want || db.contains(v);
                    if (s.domains_intersect(a, b) != want || s.domains_intersect(b, a) != want || s.domain_intersects_with(a, s.copy_of_values(b)) != want ||
                        s.domain_intersects_with(b, s.copy_of_values(a)) != want)
                        ctx.fail(id, what + ": " + show(da) + " and " + show(db));
                };
                auto image = [](const Dom & d, const Handle & h) {
                    Dom r;
                    for (auto v : d)
                        r.insert(h.out(v));
                    return r;
                };
                for (auto & h : hs) {
                    auto a = with(x, h, [](const auto & v) { return IntegerVariableID{v}; });
                    auto da = image(dx, h);
                    for (auto & k : hs) {
                        auto b = with(y, k, [](const auto & v) { return IntegerVariableID{v}; });
                        judge(a, da, b, image(dy, k), h.text() + " with " + k.text());
                        auto c = with(x, k, [](const auto & v) { return IntegerVariableID{v}; });
                        if (n == 1)
                            judge(a, da, c, image(dx, k), h.text() + " with itself " + k.text());
                    }
                    for (ll c = -8; c <= 8; ++c)
                        if (n == 1)
                            judge(a, da, IntegerVariableID{ConstantIntegerVariableID{Integer{c}}}, Dom{c}, h.text() + " with constant");
                }
            }
    }

    // ---- histories ----
    struct Level
    {
        Dom d[2];
        vector<ll> cs;
        vector<int> callbacks; // registered in this epoch
        size_t guesses = 0, extras = 0;
        bool sub = false;
    };
    struct Model
    {
        vector<Level> stack{1};
        vector<string> guesses, extras;
        vector<int> fired;
    };
    auto history() -> void
    {
        // The operations: a variable, a handle, and a condition; or a structural one.
        struct Step
        {
            int what; // 0 infer 1 guess 2 new epoch 3 new subsearch epoch 4 backtrack 5 write state 6 on_backtrack 7 extra condition 8 clone and change the clone 9 add a value to the state in place
            int var;
            Handle h;
            Op op;
        };
        vector<Step> steps;
        auto add = [&](int what, int var, Handle h, Op op) { steps.push_back({what, var, h, op}); };
        Handle plain{0, false, 0}, gen{1, false, 0}, neg{3, true, 2}, off{2, false, 1};
        add(0, 0, plain, {1, 1, 0});
        add(0, 0, neg, {2, 1, 0});       // 2 - x < 1, so x >= 2
        add(0, 0, off, {5, 1, 2});       // x + 1 not in 1..2, so x not in 0..1
        add(0, 1, gen, {0, 1, 0});
        add(0, 1, plain, {3, 1, 0});
        add(0, 1, neg, {1, 2, 0});       // 2 - y != 2, so y != 0
        add(1, 0, gen, {0, 1, 0});
        add(1, 0, neg, {3, 1, 0});       // 2 - x >= 1, so x <= 1
        add(1, 1, gen, {1, 2, 0});
        add(1, 1, gen, {4, 0, 1});
        for (int what = 2; what <= 9; ++what)
            add(what, 0, gen, {0, 0, 0});
        size_t n = steps.size();
        int depth = ctx.thorough ? 7 : 6;
        // Each history is run afresh from the start; prefixes that cannot continue are cut.
        std::function<bool(const vector<int> &, const string &)> run = [&](const vector<int> & h, const string & id) -> bool {
            State s;
            Model m;
            Dom full{0, 1, 2};
            m.stack[0].d[0] = m.stack[0].d[1] = full;
            SimpleIntegerVariableID v[2] = {s.allocate_integer_variable_with_state(Integer{0}, Integer{2}), s.allocate_integer_variable_with_state(Integer{0}, Integer{2})};
            auto cs = s.add_constraint_state(ll{0});
            auto cs2 = s.add_constraint_state(vector<ll>{});
            m.stack[0].cs = {0};
            vector<ll> list; // contents of cs2, in the current level
            vector<vector<ll>> lists{{}};
            vector<Timestamp> stamps;
            vector<int> fired;
            int serial = 0;
            auto text = [&] {
                string t;
                for (auto i : h)
                    t += to_string(i) + " ";
                return t;
            };
            for (size_t at = 0; at < h.size(); ++at) {
                auto & st = steps[h[at]];
                auto & L = m.stack.back();
                ctx.count("transitions");
                bool last = at + 1 == h.size();
                switch (st.what) {
                case 0:
                case 1: {
                    auto after = filtered(L.d[st.var], st.h, st.op);
                    auto want = classify(L.d[st.var], after);
                    if (st.what == 0) {
                        if (want == Inference::Contradiction && ! last)
                            return false;
                        auto got = with(v[st.var], st.h, [&](const auto & x) { return infer(s, x, st.op, 0); });
                        if (got != want)
                            ctx.fail(id, "history " + text() + ": step " + to_string(at) + " reported as " + name(got) + ", not " + name(want));
                        if (want == Inference::Contradiction) {
                            // Only backtracking is allowed from here.
                            if (stamps.empty())
                                return false;
                            s.backtrack(stamps.back());
                            stamps.pop_back();
                            for (auto c : L.callbacks)
                                m.fired.push_back(c);
                            m.guesses.resize(L.guesses);
                            if (L.sub)
                                m.extras.resize(L.extras);
                            m.stack.pop_back();
                            lists.pop_back();
                            break;
                        }
                        L.d[st.var] = after;
                    }
                    else {
                        auto lit = with(v[st.var], st.h, [&](const auto & x) { return Literal{as_condition(x, st.op)}; });
                        if (want == Inference::Contradiction) {
                            if (! last)
                                return false;
                            try {
                                s.guess(lit);
                                ctx.fail(id, "history " + text() + ": an impossible guess is accepted");
                            }
                            catch (const UnexpectedException &) {
                            }
                            return false;
                        }
                        s.guess(lit);
                        L.d[st.var] = after;
                        m.guesses.push_back(to_string(h[at]));
                    }
                    break;
                }
                case 2:
                case 3: {
                    stamps.push_back(s.new_epoch(st.what == 3));
                    auto c = L;
                    c.callbacks.clear();
                    c.guesses = m.guesses.size();
                    c.extras = m.extras.size();
                    c.sub = st.what == 3;
                    m.stack.push_back(c);
                    lists.push_back(lists.back());
                    break;
                }
                case 4: {
                    if (stamps.empty())
                        return false;
                    s.backtrack(stamps.back());
                    stamps.pop_back();
                    for (auto c : L.callbacks)
                        m.fired.push_back(c);
                    m.guesses.resize(L.guesses);
                    if (L.sub)
                        m.extras.resize(L.extras);
                    m.stack.pop_back();
                    lists.pop_back();
                    break;
                }
                case 5:
                    s.get_constraint_state(cs) = ConstraintState{ll(at + 1)};
                    L.cs[0] = at + 1;
                    break;
                case 6:
                    s.on_backtrack([&fired, serial] { fired.push_back(serial); });
                    L.callbacks.push_back(serial++);
                    break;
                case 7:
                    s.add_extra_proof_condition(Literal{IntegerVariableID{v[0]} != Integer{ll(100 + at)}});
                    m.extras.push_back(to_string(100 + at));
                    break;
                case 8: {
                    if (! last)
                        return false;
                    // A copy sees the same domains and is independent in both directions.
                    auto cur = s.current();
                    auto c1 = cur.clone();
                    auto copy = s.clone();
                    auto z = copy.allocate_integer_variable_with_state(Integer{5}, Integer{6});
                    (void)z;
                    for (int i = 0; i < 2; ++i) {
                        auto & d = L.d[i];
                        if (d.size() > 1)
                            (void)copy.infer_not_equal(v[i], Integer{*d.begin()});
                    }
                    copy.get_constraint_state(cs) = ConstraintState{ll(77)};
                    for (int i = 0; i < 2; ++i) {
                        auto & d = L.d[i];
                        if (d.size() > 1)
                            (void)s.infer_not_equal(v[i], Integer{*d.rbegin()});
                        Dom a, b, c;
                        for (auto set = s.copy_of_values(v[i]); auto x : set.each())
                            a.insert(x.raw_value);
                        for (auto set = copy.copy_of_values(v[i]); auto x : set.each())
                            b.insert(x.raw_value);
                        for (auto set = c1.copy_of_values(v[i]); auto x : set.each())
                            c.insert(x.raw_value);
                        auto wa = d, wb = d;
                        if (d.size() > 1) {
                            wa.erase(*d.rbegin());
                            wb.erase(*d.begin());
                        }
                        if (a != wa || b != wb || c != d)
                            ctx.fail(id, "history " + text() + ": a clone is not independent: " + show(a) + show(b) + show(c));
                    }
                    if (std::any_cast<ll>(s.get_constraint_state(cs)) != L.cs[0])
                        ctx.fail(id, "history " + text() + ": a clone shares constraint state");
                    return false;
                }
                case 9:
                    std::any_cast<vector<ll> &>(s.get_constraint_state(cs2)).push_back(at);
                    lists.back().push_back(at);
                    break;
                }
                if (! last)
                    continue;
                // Judge the state reached.
                ctx.count("states");
                auto & N = m.stack.back();
                for (int i = 0; i < 2; ++i) {
                    Dom now;
                    for (auto set = s.copy_of_values(v[i]); auto x : set.each())
                        now.insert(x.raw_value);
                    if (now != N.d[i])
                        ctx.fail(id, "history " + text() + ": variable " + to_string(i) + " is " + show(now) + ", not " + show(N.d[i]));
                }
                if (std::any_cast<ll>(s.get_constraint_state(cs)) != N.cs[0])
                    ctx.fail(id, "history " + text() + ": constraint state not restored");
                if (std::any_cast<vector<ll> &>(s.get_constraint_state(cs2)) != lists.back())
                    ctx.fail(id, "history " + text() + ": structured constraint state not restored");
                auto a = fired, b = m.fired;
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                if (a != b)
                    ctx.fail(id, "history " + text() + ": backtrack callbacks ran " + to_string(a.size()) + " times, not " + to_string(b.size()));
                vector<string> gs;
                {
                    auto g = s.guesses();
                    for (auto l : g) {
                        auto * c = std::get_if<IntegerVariableCondition>(&l);
                        if (c && c->value.raw_value >= 100) {
                            gs.push_back(to_string(c->value.raw_value));
                            continue;
                        }
                        string found = "?";
                        for (size_t k = 0; k < n; ++k)
                            if (steps[k].what == 1 &&
                                with(v[steps[k].var], steps[k].h, [&](const auto & x) { return Literal{as_condition(x, steps[k].op)}; }) == l)
                                found = to_string(k);
                        gs.push_back(found);
                    }
                }
                auto want = m.extras;
                want.insert(want.end(), m.guesses.begin(), m.guesses.end());
                if (gs != want)
                    ctx.fail(id, "history " + text() + ": guesses");
            }
            return true;
        };
        std::function<void(vector<int> &, const string &)> go = [&](vector<int> & h, const string & id) {
            if (! run(h, id))
                return;
            if (int(h.size()) < depth)
                for (size_t k = 0; k < n; ++k) {
                    h.push_back(k);
                    go(h, id);
                    h.pop_back();
                }
        };
        for (size_t a = 0; a < n; ++a)
            for (size_t b = 0; b < n; ++b) {
                auto id = "history/" + to_string(a) + "." + to_string(b);
                if (! ctx.begin(id))
                    continue;
                ctx.count("trees");
                vector<int> one{int(a)}, two{int(a), int(b)};
                if (b == 0)
                    run(one, id);
                if (run(one, id))
                    go(two, id);
            }
    }

    // ---- far-apart intervals, as pairs of ends ----
    using Ivs = vector<std::pair<ll, ll>>;
    auto keep(const Ivs & d, const Handle & h, const Op & op) -> Ivs
    {
        // The allowed underlying values, as intervals.
        auto lo = ll(-4e18), hi = ll(4e18);
        Ivs ok;
        auto in = [&](__int128 v) -> ll { // view value to underlying
            auto u = h.neg ? h.add - v : v - h.add;
            return ll(std::clamp<__int128>(u, lo, hi));
        };
        auto push = [&](__int128 a, __int128 b) {
            if (a > b)
                return;
            ll x = in(a), y = in(b);
            ok.emplace_back(std::min(x, y), std::max(x, y));
        };
        __int128 inf = __int128(8e18);
        switch (op.kind) {
        case 0: push(op.a, op.a); break;
        case 1: push(-inf, __int128(op.a) - 1), push(__int128(op.a) + 1, inf); break;
        case 2: push(-inf, __int128(op.a) - 1); break;
        case 3: push(op.a, inf); break;
        case 4: push(op.a, op.b); break;
        default:
            if (op.a > op.b)
                push(-inf, inf);
            else
                push(-inf, __int128(op.a) - 1), push(__int128(op.b) + 1, inf);
        }
        Ivs r;
        for (auto & [a, b] : d)
            for (auto & [x, y] : ok)
                if (std::max(a, x) <= std::min(b, y))
                    r.emplace_back(std::max(a, x), std::min(b, y));
        std::sort(r.begin(), r.end());
        return r;
    }
    auto wide() -> void
    {
        ll big = 4611686018427387904ll / 4;
        vector<Ivs> start{{{-big, big}}, {{0, 2000000000}}, {{-5, 100000000000}}};
        for (size_t k = 0; k < start.size(); ++k) {
            ll lo = start[k][0].first, hi = start[k][0].second;
            vector<ll> pts{lo, lo + 1, -1, 0, 1, 2, hi / 2, hi / 2 + 1, hi - 1, hi};
            vector<Op> ops;
            for (auto p : pts)
                for (int kind = 0; kind < 4; ++kind)
                    ops.push_back({kind, p, 0});
            for (size_t i = 0; i < pts.size(); i += 2)
                for (size_t j = i; j < pts.size(); j += 3)
                    for (int kind = 4; kind < 6; ++kind)
                        ops.push_back({kind, pts[i], pts[j]});
            vector<Handle> hs{{0, false, 0}, {1, false, 0}, {3, true, 0}, {2, true, 1}, {3, false, -1}};
            for (size_t a = 0; a < ops.size(); ++a)
                for (auto & h : hs) {
                    auto id = "wide/" + to_string(k) + "/" + to_string(a) + "/" + h.text();
                    if (! ctx.begin(id))
                        continue;
                    for (size_t b = 0; b < ops.size(); ++b)
                        for (size_t c = 0; c < (ctx.thorough ? ops.size() : ops.size()); ++c) {
                            if (! ctx.thorough && (a + b + c) % 3)
                                continue;
                            State s;
                            auto v = s.allocate_integer_variable_with_state(Integer{lo}, Integer{hi});
                            Ivs d = start[k];
                            Handle route[3] = {h, hs[(a + b) % hs.size()], hs[(b + c) % hs.size()]};
                            const Op * o[3] = {&ops[a], &ops[b], &ops[c]};
                            for (int i = 0; i < 3; ++i) {
                                auto after = keep(d, route[i], *o[i]);
                                auto size = [](const Ivs & x) {
                                    ll t = 0;
                                    for (auto & [p, q] : x)
                                        t += q - p + 1;
                                    return t;
                                };
                                Inference want;
                                if (after.empty())
                                    want = Inference::Contradiction;
                                else if (size(after) == size(d))
                                    want = Inference::NoChange;
                                else if (size(after) == 1)
                                    want = Inference::Instantiated;
                                else
                                    want = after.front().first != d.front().first || after.back().second != d.back().second ? Inference::BoundsChanged : Inference::InteriorValuesChanged;
                                auto got = with(v, route[i], [&](const auto & x) { return infer(s, x, *o[i], i); });
                                ctx.count("transitions");
                                if (got != want) {
                                    ctx.fail(id, "step " + to_string(i) + " " + o[i]->text() + " through " + route[i].text() + ": " + name(got) + ", not " + name(want));
                                    break;
                                }
                                if (want == Inference::Contradiction)
                                    break;
                                d = after;
                                ctx.count("states");
                                if (s.lower_bound(v).raw_value != d.front().first || s.upper_bound(v).raw_value != d.back().second ||
                                    s.domain_size(IntegerVariableID{v}).raw_value != size(d)) {
                                    ctx.fail(id, "after " + o[i]->text() + " the bounds or size are wrong");
                                    break;
                                }
                                for (auto p : pts) {
                                    bool in = false;
                                    for (auto & [x, y] : d)
                                        in = in || (x <= p && p <= y);
                                    if (s.in_domain(v, Integer{p}) != in)
                                        ctx.fail(id, "membership of " + to_string(p));
                                }
                                // The pieces partition as they should.
                                Ivs got_d;
                                for (auto set = s.copy_of_values(v); auto [x, y] : set.each_interval()) {
                                    if (! got_d.empty() && got_d.back().second + 1 == x.raw_value)
                                        got_d.back().second = y.raw_value;
                                    else
                                        got_d.emplace_back(x.raw_value, y.raw_value);
                                }
                                Ivs norm;
                                for (auto & p : d)
                                    if (! norm.empty() && norm.back().second + 1 == p.first)
                                        norm.back().second = p.second;
                                    else
                                        norm.push_back(p);
                                if (got_d != norm)
                                    ctx.fail(id, "intervals after " + o[i]->text());
                            }
                        }
                }
        }
    }
}

int main(int argc, char ** argv)
{
    ctx = drv::start(argc, argv);
    ctx.limit_s = std::max(ctx.limit_s, 120);
    auto m = ctx.mode;
    if (m.empty() || m == "reach")
        reach();
    if (m.empty() || m == "pairs")
        pairs();
    if (m.empty() || m == "history")
        history();
    if (m.empty() || m == "wide")
        wide();
    ctx.finish();
}
