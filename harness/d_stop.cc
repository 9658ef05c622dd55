// P09: stopping a search at every possible point, by every means.
#include "drv.hh"
#include "prob.hh"
#include "strat.hh"
#include <gcs/innards/propagators.hh>
#include <gcs/innards/s_expr.hh>
#include <gcs/innards/state.hh>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

namespace
{
    // Runs a hook on each wake of its propagator; constrains nothing.
    class Hook : public Constraint
    {
        Vars _x;
        std::function<void()> _f;

    public:
        Hook(Vars x, std::function<void()> f) : _x(std::move(x)), _f(std::move(f)) {}
        auto constraint_type() const -> string override { return "hook"; }
        auto clone() const -> std::unique_ptr<Constraint> override { return std::make_unique<Hook>(_x, _f); }
        auto s_expr(const innards::ProofModel * const) const -> innards::SExpr override { return innards::SExpr::atom("hook"); }
        auto install_propagators(innards::Propagators & ps) -> void override
        {
            innards::Triggers t;
            t.on_change = {_x.begin(), _x.end()};
            ps.install(constraint_id(), [f = _f](const innards::State &, auto &, innards::ProofLogger * const) -> innards::PropagatorState {
                f();
                return innards::PropagatorState::Enable;
            }, t);
        }
    };
    enum How { SolutionFalse, TraceFalse, AbortInSolution, AbortInTrace, AbortInBranch, AbortInPropagation, AbortBefore, n_how };
    const char * how_name[] = {"solution-false", "trace-false", "abort-in-solution", "abort-in-trace", "abort-in-branch", "abort-in-propagation", "abort-before"};
    struct Run
    {
        vector<Vals> got;
        long long events = 0, traces = 0, completed = 0;
        bool late = false;
        Stats st;
        long long hook = 0, branches = 0;
    };
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    // stop_at < 0: run to the end, counting the events of that kind.
    auto go = [&](const Case & c, How how, long long stop_at, size_t strat, bool minimise, int restarts) {
        Run r;
        std::atomic<bool> flag{how == AbortBefore && stop_at >= 0};
        bool told = flag;
        auto event = [&](How h) { return h == how && ++r.events == stop_at + 1 && stop_at >= 0; };
        Problem p;
        auto x = c.build(p);
        p.post(Hook{x, [&] {
                        ++r.hook;
                        if (event(AbortInPropagation))
                            told = flag = true;
                    }});
        if (minimise)
            p.minimise(x[0]);
        SolveCallbacks cb;
        auto inner = strategy(strat, p, x);
        if (! inner)
            inner = branch_with(variable_order::in_order(x), value_order::smallest_first());
        cb.branch = [&](const Problem & pp, innards::State & s, innards::Propagators & ps) -> BranchCallback {
            auto b = inner(pp, s, ps);
            return [&, b](const CurrentState & s, const innards::Propagators & ps) -> std::generator<IntegerVariableCondition> {
                ++r.branches;
                if (told && ! r.late && how != AbortInPropagation)
                    r.late = true;
                if (event(AbortInBranch))
                    told = flag = true;
                return b(s, ps);
            };
        };
        cb.solution = [&](const CurrentState & s) {
            if (told && how != AbortInBranch)
                r.late = true;
            r.got.push_back(read(s, x));
            if (event(SolutionFalse)) {
                told = true;
                return false;
            }
            if (event(AbortInSolution))
                told = flag = true;
            return true;
        };
        cb.trace = [&](const CurrentState &) {
            if (told && how != AbortInBranch)
                r.late = true;
            ++r.traces;
            if (event(TraceFalse)) {
                told = true;
                return false;
            }
            if (event(AbortInTrace))
                told = flag = true;
            return true;
        };
        cb.completed = [&] { ++r.completed; };
        if (restarts)
            cb.restarts = RestartSchedule::luby(restarts);
        r.st = solve_with(p, cb, std::nullopt, &flag);
        return r;
    };
    auto explore = [&](const Case & c, size_t strat, bool minimise, int restarts) {
        auto base_id = c.id() + "@" + strategy_name(strat) + (minimise ? "/min" : "") + (restarts ? "/r" + to_string(restarts) : "");
        bool any = ctx.only.empty() ? ctx.counter++ % ctx.shards == ctx.shard : ctx.only.starts_with(base_id + "#");
        if (! any || ctx.enough())
            return;
        auto want = c.solutions();
        for (int h = 0; h < n_how; ++h) {
            auto how = How(h);
            auto full_id = base_id + "#" + how_name[h];
            ctx.set_current(full_id);
            Run full;
            try {
                full = go(c, how, -1, strat, minimise, restarts);
            }
            catch (const std::exception & e) {
                ctx.fail(full_id, string("exception: ") + e.what());
                return;
            }
            auto points = how == AbortBefore ? 1 : full.events;
            auto stats_ok = [&](const Run & r) -> string {
                if (r.st.solutions != r.got.size())
                    return "statistics count " + to_string(r.st.solutions) + " solutions, " + to_string(r.got.size()) + " reported";
                if (r.st.recursions < r.got.size() + r.traces)
                    return "fewer search nodes than callbacks";
                if (r.st.recursions > 0 && r.st.failures >= r.st.recursions)
                    return "more failures than search nodes";
                if (r.st.n_propagators == 0 || r.st.propagations < (unsigned long long) r.hook)
                    return "fewer propagations counted than made";
                if (r.st.effectful_propagations + r.st.contradicting_propagations > r.st.propagations)
                    return "more effectful and contradicting propagations than propagations";
                return "";
            };
            string bad;
            if (full.completed != 1)
                bad = "complete search: completed called " + to_string(full.completed) + " times";
            if (bad.empty())
                bad = stats_ok(full);
            if (bad.empty() && ! minimise)
                bad = compare(want, full.got);
            // In a complete search every node is a branch, a solution or a dead end, and
            // every node but the root whose subtree has no solution is a failure.
            if (! bad.empty()) {
                ctx.fail(full_id, bad);
                return;
            }
            for (long long at = 0; at < points; ++at) {
                auto id = full_id + "." + to_string(at);
                if (! ctx.only.empty() && ctx.only != id && ctx.only != full_id)
                    continue;
                ctx.set_current(id);
                Run r;
                try {
                    r = go(c, how, at, strat, minimise, restarts);
                }
                catch (const std::exception & e) {
                    ctx.fail(id, string("exception: ") + e.what());
                    continue;
                }
                ctx.count("stop_points");
                ctx.count(string("stop_points:") + how_name[h]);
                ctx.count("search_nodes", r.st.recursions);
                string bad = stats_ok(r);
                // An abort flag raised during the last dead end, or after the last
                // solution, may legitimately find the search already exhausted.
                if (r.late)
                    bad = "called back after being told to stop";
                else if (r.got.size() > full.got.size() || ! std::equal(r.got.begin(), r.got.end(), full.got.begin()))
                    bad = "solutions before the stop are not a prefix of those of the whole search";
                else if (how == SolutionFalse && (r.got.size() != size_t(at) + 1 || r.completed))
                    bad = "stopped at solution " + to_string(at + 1) + ": " + to_string(r.got.size()) + " reported, completed " + to_string(r.completed);
                else if (how == TraceFalse && (r.traces != at + 1 || r.completed))
                    bad = "stopped at trace " + to_string(at + 1) + ": " + to_string(r.traces) + " traces, completed " + to_string(r.completed);
                else if (how == AbortInTrace && r.completed)
                    bad = "aborted while branching, yet reported complete";
                else if (r.completed > 1)
                    bad = "completed called more than once";
                else if (r.completed && r.got.size() != full.got.size())
                    bad = "reported complete with " + to_string(r.got.size()) + " of " + to_string(full.got.size()) + " solutions";
                else if (how == AbortBefore && ! r.got.empty())
                    bad = "solution reported though aborted before the start";
                if (! bad.empty())
                    ctx.fail(id, bad);
                else if (at == 1)
                    ctx.sample(id);
            }
        }
        ctx.count("searches");
    };
    auto ns = strategy_count();
    size_t at = 0;
    each_subset(1, [&](const Case & c) {
        for (int k = 0; k < (ctx.thorough ? 12 : 2); ++k) {
            ++at;
            explore(c, k == 0 ? 0 : (at * 41) % ns, false, 0);
            explore(c, (at * 43) % ns, true, at % 3);
        }
    });
    each_subset(2, [&](const Case & c) {
        ++at;
        for (int k = 0; k < (ctx.thorough ? 4 : 1); ++k)
            explore(c, (at * 29 + k * 13) % ns, (at + k) % 2, 0);
    });
    if (ctx.thorough)
        each_subset(3, [&](const Case & c) {
            ++at;
            explore(c, (at * 29) % ns, at % 3 == 0, 0);
        });
    ctx.finish();
}
