// Every named branching strategy, and user-supplied generators driven by a script.
#ifndef VERIF_STRAT_HH
#define VERIF_STRAT_HH
#include "core.hh"
#include <algorithm>
#include <gcs/search_heuristics.hh>
#include <memory>

namespace vc
{
    using namespace gcs;
    struct VarOrder
    {
        std::string name;
        std::function<BranchVariableHeuristic(const Problem &, const Vars &)> make;
    };
    struct ValOrder
    {
        std::string name;
        std::function<BranchValueGenerator()> make;
    };
    inline auto var_orders() -> const std::vector<VarOrder> &
    {
        namespace vo = variable_order;
        auto rev = [](Vars v) {
            std::reverse(v.begin(), v.end());
            return v;
        };
        auto viewed = [](Vars v) {
            for (size_t i = 0; i < v.size(); ++i)
                v[i] = i % 2 ? v[i] + Integer{3} : -v[i];
            return v;
        };
        static const std::vector<VarOrder> r = [=] {
            std::vector<VarOrder> o = {
                {"order", [](const Problem &, const Vars & x) { return vo::in_order(x); }},
                {"rev", [=](const Problem &, const Vars & x) { return vo::in_order(rev(x)); }},
                {"views", [=](const Problem &, const Vars & x) { return vo::in_order(viewed(x)); }},
                {"dom", [](const Problem & p, const Vars &) { return vo::dom(p); }},
                {"domv", [=](const Problem &, const Vars & x) { return vo::dom(viewed(x)); }},
                {"deg", [](const Problem & p, const Vars &) { return vo::dom_then_deg(p); }},
                {"degv", [=](const Problem &, const Vars & x) { return vo::dom_then_deg(viewed(rev(x))); }},
                {"small", [](const Problem & p, const Vars &) { return vo::with_smallest_value(p); }},
                {"large", [](const Problem & p, const Vars &) { return vo::with_largest_value(p); }},
                {"largev", [=](const Problem &, const Vars & x) { return vo::with_largest_value(viewed(x)); }},
                {"cmp", [](const Problem & p, const Vars &) {
                     return vo::in_order_of(p, [](const CurrentState & s, const innards::Propagators &, const IntegerVariableID & a, const IntegerVariableID & b) {
                         return s.upper_bound(a) - s.lower_bound(a) > s.upper_bound(b) - s.lower_bound(b);
                     });
                 }},
            };
            for (unsigned seed = 0; seed < 4; ++seed)
                o.push_back({"rand" + std::to_string(seed), [=](const Problem & p, const Vars &) { return vo::random(p, seed); }});
            using enum WeightingScheme;
            int i = 0;
            for (auto w : {Classic, InitialArity, CurrentArity, InitialDomain, CurrentDomain, CurrentArityCurrentDomain, ConflictHistorySearch}) {
                o.push_back({"wdeg" + std::to_string(i), [=](const Problem & p, const Vars &) { return vo::dom_wdeg(p, w); }});
                o.push_back({"wdegv" + std::to_string(i++), [=](const Problem &, const Vars & x) { return vo::dom_wdeg(viewed(x), w); }});
            }
            return o;
        }();
        return r;
    }
    inline auto val_orders() -> const std::vector<ValOrder> &
    {
        namespace vo = value_order;
        static const std::vector<ValOrder> r = [] {
            std::vector<ValOrder> o = {
                {"sin", [] { return vo::smallest_in(); }},
                {"sout", [] { return vo::smallest_out(); }},
                {"sfirst", [] { return vo::smallest_first(); }},
                {"lin", [] { return vo::largest_in(); }},
                {"lout", [] { return vo::largest_out(); }},
                {"lfirst", [] { return vo::largest_first(); }},
                {"ssmall", [] { return vo::split_smallest_first(); }},
                {"slarge", [] { return vo::split_largest_first(); }},
                {"median", [] { return vo::median(); }},
            };
            for (unsigned seed = 0; seed < 2; ++seed) {
                o.push_back({"srand" + std::to_string(seed), [=] { return vo::split_random(seed); }});
                o.push_back({"vrand" + std::to_string(seed), [=] { return vo::random(seed); }});
                o.push_back({"orand" + std::to_string(seed), [=] { return vo::random_out(seed); }});
                o.push_back({"irand" + std::to_string(seed), [=] { return vo::reject_random_interval(seed); }});
            }
            return o;
        }();
        return r;
    }
    inline auto strategy_count() -> size_t { return 1 + var_orders().size() * val_orders().size() + 4; }
    inline auto strategy_name(size_t k) -> std::string
    {
        auto n = var_orders().size() * val_orders().size();
        if (k == 0)
            return "default";
        if (k <= n)
            return var_orders()[(k - 1) / val_orders().size()].name + "." + val_orders()[(k - 1) % val_orders().size()].name;
        return "seq" + std::to_string(k - n - 1);
    }
    inline auto strategy(size_t k, const Problem & p, const Vars & x) -> BranchHeuristic
    {
        auto nv = val_orders().size(), n = var_orders().size() * nv;
        if (k == 0)
            return BranchHeuristic{};
        if (k <= n)
            return branch_with(var_orders()[(k - 1) / nv].make(p, x), val_orders()[(k - 1) % nv].make());
        Vars a, b;
        for (size_t i = 0; i < x.size(); ++i)
            (i % 2 ? a : b).push_back(x[i]);
        switch (k - n - 1) {
        case 0: return branch_sequence(branch_with(variable_order::in_order(a), value_order::smallest_in()), branch_with(variable_order::dom(b), value_order::largest_first()));
        case 1: return branch_sequence(branch_with(variable_order::dom_wdeg(b), value_order::split_smallest_first()), branch_with(variable_order::random(p, 7), value_order::median()));
        case 2: return branch_sequence(branch_sequence(branch_with(variable_order::in_order(Vars{}), value_order::median()), branch_with(variable_order::in_order(a), value_order::reject_random_interval(3))), branch_with(variable_order::in_order(b), value_order::smallest_out()));
        default: return branch_sequence(branch_with(variable_order::dom_wdeg(a, WeightingScheme::Classic), value_order::largest_in()), branch_with(variable_order::dom_wdeg(b, WeightingScheme::CurrentArity), value_order::split_largest_first()));
        }
    }

    // A user-supplied brancher: the i-th time it is asked, it follows the i-th
    // entry of the script (cyclically): which unfixed variable, and how to split it.
    constexpr size_t script_ops = 9;
    inline auto scripted(const Vars & x, std::vector<size_t> script) -> BranchHeuristic
    {
        return [=](const Problem &, innards::State &, innards::Propagators &) -> BranchCallback {
            auto asked = std::make_shared<size_t>(0);
            return [=](const CurrentState & s, const innards::Propagators &) -> std::generator<IntegerVariableCondition> {
                return [](const CurrentState & s, Vars x, std::vector<size_t> script, std::shared_ptr<size_t> asked) -> std::generator<IntegerVariableCondition> {
                    Vars free;
                    for (auto & v : x)
                        if (! s.has_single_value(v))
                            free.push_back(v);
                    if (free.empty())
                        co_return;
                    auto step = script[(*asked)++ % script.size()];
                    auto v = free[(step / script_ops) % free.size()];
                    std::vector<Integer> vals;
                    for (auto a : s.each_value(v))
                        vals.push_back(a);
                    auto n = vals.size();
                    auto mid = vals[n / 2];
                    switch (step % script_ops) {
                    case 0: // value by value, middle outwards
                        for (size_t i = 0; i < n; ++i)
                            co_yield v == vals[(i + n / 2) % n];
                        break;
                    case 1:
                        co_yield v >= mid;
                        co_yield v < mid;
                        break;
                    case 2:
                        co_yield v < vals[1];
                        co_yield v >= vals[1];
                        break;
                    case 3:
                        co_yield v != vals.back();
                        co_yield v == vals.back();
                        break;
                    case 4:
                        if (n >= 3) {
                            co_yield not_in_range(v, vals[1], vals[n - 2]);
                            co_yield in_range(v, vals[1], vals[n - 2]);
                        }
                        else {
                            co_yield v == vals[1];
                            co_yield v != vals[1];
                        }
                        break;
                    case 5: // three ways
                        if (n >= 3) // (a guess must be possible)
                            co_yield v > mid;
                        co_yield v == mid;
                        co_yield v < mid;
                        break;
                    case 6:
                        co_yield in_range(v, vals[0], vals[(n - 1) / 2]);
                        co_yield not_in_range(v, vals[0], vals[(n - 1) / 2]);
                        break;
                    case 7: // through a view of it
                    {
                        IntegerVariableID w = -v + Integer{5};
                        co_yield w < Integer{5} - vals[0];
                        co_yield w >= Integer{5} - vals[0];
                        break;
                    }
                    default:
                        co_yield v != mid;
                        co_yield v == mid;
                    }
                }(s, x, script, asked);
            };
        };
    }
}
#endif
