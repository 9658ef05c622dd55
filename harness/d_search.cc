// P08: no branching strategy changes the set of solutions.
#include "drv.hh"
#include "prob.hh"
#include "strat.hh"
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    const auto & c_all = truths();
    (void) c_all;
    auto run_with = [&](const Case & c, const vector<Vals> & want, const string & name, const std::function<BranchHeuristic(const Problem &, const Vars &)> & h, std::optional<unsigned long long> restart_first) {
        auto id = c.id() + "@" + name;
        if (ctx.enough() || ! ctx.begin(id))
            return;
        string bad;
        vector<Vals> got;
        int completed = 0;
        try {
            Problem p;
            auto x = c.build(p);
            SolveCallbacks cb;
            cb.branch = h(p, x);
            cb.solution = [&](const CurrentState & s) {
                got.push_back(read(s, x));
                return ! restart_first;
            };
            cb.completed = [&] { ++completed; };
            if (restart_first)
                cb.restarts = RestartSchedule::luby(*restart_first);
            auto st = solve_with(p, cb);
            ctx.count("search_nodes", st.recursions);
            ctx.count("restarts", st.restarts);
            ctx.count("learned_nogoods", st.learned_nogoods);
            if (restart_first) {
                if (want.empty() ? ! got.empty() || completed != 1 : got.size() != 1 || completed != 0)
                    bad = "first-solution search with restarts: " + to_string(got.size()) + " solutions, completed " + to_string(completed);
                else if (! got.empty() && std::find(want.begin(), want.end(), got[0]) == want.end())
                    bad = "first-solution search with restarts: non-solution " + str(got[0]);
            }
            else {
                bad = compare(want, got);
                if (bad.empty() && completed != 1)
                    bad = "completed called " + to_string(completed) + " times";
            }
        }
        catch (const std::exception & e) {
            bad = string("exception: ") + e.what();
        }
        ctx.count("searches");
        ctx.count("solutions", got.size());
        if (! bad.empty())
            ctx.fail(id, bad);
        else if (want.size() > 2)
            ctx.sample(id);
    };
    auto named = [&](const Case & c, const vector<Vals> & want, size_t k) {
        run_with(c, want, strategy_name(k), [k](const Problem & p, const Vars & x) { return strategy(k, p, x); }, std::nullopt);
    };
    auto restarted = [&](const Case & c, const vector<Vals> & want, size_t k, unsigned long long scale) {
        run_with(c, want, strategy_name(k) + "/r" + to_string(scale), [k](const Problem & p, const Vars & x) { return strategy(k, p, x); }, scale);
    };
    auto script = [&](const Case & c, const vector<Vals> & want, const vector<size_t> & s) {
        string n = "script";
        for (auto i : s)
            n += "." + to_string(i);
        run_with(c, want, n, [s](const Problem &, const Vars & x) { return scripted(x, s); }, std::nullopt);
    };

    auto ns = strategy_count();
    // Every strategy, and every two-step script, on every single constraint.
    size_t at = 0;
    each_subset(1, [&](Case c) {
        auto want = c.solutions();
        for (size_t k = 0; k < ns; ++k)
            named(c, want, k);
        for (size_t k = 0; k < ns; k += ctx.thorough ? 1 : 7)
            for (auto scale : {1, 2})
                restarted(c, want, (k + at) % ns, scale);
        for (size_t i = 0; i < 4 * script_ops; ++i)
            for (size_t j = 0; j < 4 * script_ops; ++j)
                if (ctx.thorough || (i + j + at) % 8 == 0)
                    script(c, want, {i, j});
        ++at;
    });
    // Every pair, with the strategies rotating so that each pair of constraints
    // meets every variable order and every value order.
    each_subset(2, [&](Case c) {
        auto want = c.solutions();
        ++at;
        size_t stride = ctx.thorough ? 3 : 19;
        for (size_t k = at % stride; k < ns; k += stride)
            named(c, want, k);
        for (size_t k = at % 41; k < ns; k += ctx.thorough ? 41 : 160)
            restarted(c, want, k, 1 + at % 3);
        for (size_t i = 0; i < script_ops * 4; ++i)
            if (ctx.thorough || (i + at) % 3 == 0)
                script(c, want, {i, (i * 7 + at) % 36, (i * 5 + 2 * at) % 36});
    });
    each_subset(3, [&](Case c) {
        auto want = c.solutions();
        ++at;
        for (size_t j = 0; j < (ctx.thorough ? 8 : 1); ++j) {
            named(c, want, (at * 37 + j * 53) % ns);
            restarted(c, want, (at * 29 + j * 31) % ns, 1 + (at + j) % 2);
            script(c, want, {(at + j) % 36, (at / 36 + 5 * j) % 36, (at / 7 + j) % 36});
        }
    });
    ctx.finish();
}
