// Drives the real search through every history of decisions up to a depth, by
// way of a user-supplied branching generator, and looks at every variable's
// domain at every node: after propagation, after failure, after backtracking.
#ifndef VERIF_WALK_HH
#define VERIF_WALK_HH
#include "core.hh"
#include <algorithm>
#include <memory>

namespace vc
{
    struct Decision
    {
        size_t var;
        int op; // 0 ==, 1 !=, 2 <, 3 >=, 4 in [a,b], 5 not in [a,b]
        Val a, b = 0;
        auto allows(Val x) const -> bool
        {
            switch (op) {
            case 0: return x == a;
            case 1: return x != a;
            case 2: return x < a;
            case 3: return x >= a;
            case 4: return x >= a && x <= b;
            default: return x < a || x > b;
            }
        }
        auto name() const -> std::string
        {
            static const char * ops[] = {"=", "!=", "<", ">=", " in ", " out "};
            return "v" + std::to_string(var) + ops[op] + std::to_string(a) + (op >= 4 ? ".." + std::to_string(b) : "");
        }
        auto condition(const Vars & x) const -> gcs::IntegerVariableCondition
        {
            auto v = x[var];
            switch (op) {
            case 0: return v == I(a);
            case 1: return v != I(a);
            case 2: return v < I(a);
            case 3: return v >= I(a);
            case 4: return in_range(v, I(a), I(b));
            default: return not_in_range(v, I(a), I(b));
            }
        }
    };
    using Doms = std::vector<Vals>;

    // Every decision that is possible and not already settled.
    inline auto decisions(const Doms & d, bool ranges) -> std::vector<Decision>
    {
        std::vector<Decision> r;
        for (size_t v = 0; v < d.size(); ++v) {
            auto & s = d[v];
            if (s.size() < 2)
                continue;
            for (auto x : s) {
                r.push_back({v, 0, x});
                r.push_back({v, 1, x});
                if (x != s.front()) {
                    r.push_back({v, 2, x});
                    r.push_back({v, 3, x});
                }
            }
            if (ranges && s.size() > 3) {
                r.push_back({v, 4, s[1], s[s.size() - 2]});
                r.push_back({v, 5, s[1], s[s.size() - 2]});
            }
        }
        return r;
    }

    // The domain of a variable by one of the several ways of asking; any
    // disagreement among them is reported through `bad`.
    template <typename S_>
    auto read_domain(const S_ & s, const IntegerVariableID & v, Val lo, Val hi, bool thoroughly, std::string & bad) -> Vals
    {
        Vals r;
        for (auto x : s.each_value(v))
            r.push_back(x.raw_value);
        std::sort(r.begin(), r.end());
        if (thoroughly) {
            Vals member;
            for (Val x = lo - 1; x <= hi + 1; ++x)
                if (s.in_domain(v, I(x)))
                    member.push_back(x);
            Vals copy;
            auto set = s.copy_of_values(v);
            for (auto x : set.each())
                copy.push_back(x.raw_value);
            Vals rev;
            for (auto x : s.each_value_reversed(v))
                rev.push_back(x.raw_value);
            std::sort(rev.begin(), rev.end());
            if (member != r || copy != r || rev != r || r.empty() || s.lower_bound(v) != I(r.front()) || s.upper_bound(v) != I(r.back()) ||
                s.domain_size(v) != I(static_cast<Val>(r.size())) || s.has_single_value(v) != (r.size() == 1))
                bad = "domain queries disagree: iterated " + str(r) + " members " + str(member) + " copied " + str(copy);
        }
        return r;
    }

    struct Node
    {
        const std::vector<Decision> & history;
        const Doms & doms;
        const Doms * parent; // before the last decision
    };
    struct WalkPlan
    {
        size_t depth = 2;
        bool ranges = false;
        // Called at every node reached; says whether to go deeper.
        std::function<bool(const Node &)> node;
        // Called when propagation failed after these decisions.
        std::function<void(const std::vector<Decision> &, const Doms & before)> failed;
        // Which decisions to take from here; default all.
        std::function<std::vector<Decision>(const Node &)> choose;
        std::function<void(const std::string & what)> bad;
    };
    struct WalkTotals
    {
        long long nodes = 0, failures = 0, restorations = 0;
    };

    // The root may fail; then `failed` is called with an empty history.
    inline auto walk(Problem & p, const Vars & x, const std::vector<Vals> & initial, const WalkPlan & plan, WalkTotals & t) -> gcs::Stats
    {
        using namespace gcs;
        struct Shared
        {
            std::vector<Decision> history;
            std::vector<Doms> path;
            bool reached = false;
            size_t asked = 0;
        };
        auto sh = std::make_shared<Shared>();
        SolveCallbacks cb;
        auto hull = [&initial](size_t i) { return std::pair{initial[i].front(), initial[i].back()}; };
        auto read = [&x, hull, &plan](const CurrentState & s, bool thoroughly, const std::vector<Decision> & h) {
            Doms d;
            for (size_t i = 0; i < x.size(); ++i) {
                std::string bad;
                auto [lo, hi] = hull(i);
                d.push_back(read_domain(s, x[i], lo, hi, thoroughly, bad));
                if (! bad.empty()) {
                    std::string w;
                    for (auto & e : h)
                        w += e.name() + " ";
                    plan.bad("after " + w + "v" + std::to_string(i) + ": " + bad);
                }
            }
            return d;
        };
        struct Gen
        {
            static auto go(const CurrentState & s, std::shared_ptr<Shared> sh, const Vars * x, const WalkPlan * plan, WalkTotals * t,
                std::function<Doms(const CurrentState &, bool, const std::vector<Decision> &)> read) -> std::generator<IntegerVariableCondition>
            {
                sh->reached = true;
                auto history = sh->history;
                auto here = read(s, sh->asked++ % 4 == 0, history);
                ++t->nodes;
                bool deeper = plan->node(Node{history, here, sh->path.empty() ? nullptr : &sh->path.back()});
                if (! deeper || history.size() >= plan->depth)
                    co_return;
                auto ds = plan->choose ? plan->choose(Node{history, here, nullptr}) : decisions(here, plan->ranges);
                sh->path.push_back(here);
                for (auto & d : ds) {
                    sh->history = history;
                    sh->history.push_back(d);
                    sh->reached = false;
                    co_yield d.condition(*x);
                    if (! sh->reached) {
                        ++t->failures;
                        sh->history = history;
                        sh->history.push_back(d);
                        plan->failed(sh->history, here);
                    }
                    ++t->restorations;
                    auto again = read(s, false, history);
                    if (again != here) {
                        std::string w;
                        for (auto & e : history)
                            w += e.name() + " ";
                        plan->bad("undoing " + d.name() + " after " + w + "left " + str(again) + " instead of " + str(here));
                    }
                    // what follows must see the children of this node again
                    sh->reached = true;
                }
                sh->path.pop_back();
            }
        };
        cb.branch = [&](const Problem &, innards::State &, innards::Propagators &) -> BranchCallback {
            return [&, sh](const CurrentState & s, const innards::Propagators &) -> std::generator<IntegerVariableCondition> {
                return Gen::go(s, sh, &x, &plan, &t, read);
            };
        };
        auto st = solve_with(p, cb);
        if (! sh->asked)
            plan.failed({}, initial);
        return st;
    }
    inline auto words(const std::vector<Decision> & h) -> std::string
    {
        std::string w;
        for (auto & e : h)
            w += (w.empty() ? "" : " ") + e.name();
        return w.empty() ? "root" : w;
    }
}
#endif
