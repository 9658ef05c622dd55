// P07: optimisation improves strictly and ends at the optimum, whatever the strategy.
#include "drv.hh"
#include "objs.hh"
#include "prob.hh"
#include "strat.hh"
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    auto objs = objectives();
    auto run = [&](const Case & c, const vector<Vals> & want, size_t o, bool maximise, size_t k, int restarts) {
        auto & obj = objs[o];
        auto id = c.id() + (maximise ? ">max " : ">min ") + obj.name + "@" + strategy_name(k) + (restarts ? "/r" + to_string(restarts) : "");
        if (ctx.enough() || ! ctx.begin(id))
            return;
        string bad;
        vector<Vals> got;
        int completed = 0;
        try {
            Problem p;
            auto x = c.build(p);
            auto z = obj.make(p, x);
            if (maximise)
                p.maximise(z);
            else
                p.minimise(z);
            SolveCallbacks cb;
            cb.branch = strategy(k, p, p.all_normal_variables());
            cb.solution = [&](const CurrentState & s) {
                got.push_back(read(s, x));
                if (s(z).raw_value != obj.value(got.back()))
                    bad = "objective reads " + to_string(s(z).raw_value) + " at " + str(got.back());
                return true;
            };
            cb.completed = [&] { ++completed; };
            if (restarts)
                cb.restarts = RestartSchedule::luby(restarts);
            auto st = solve_with(p, cb);
            ctx.count("search_nodes", st.recursions);
            ctx.count("restarts", st.restarts);
            if (st.solutions != got.size())
                bad = "statistics count " + to_string(st.solutions) + " solutions, " + to_string(got.size()) + " reported";
            if (completed != 1)
                bad = "completed called " + to_string(completed) + " times";
        }
        catch (const std::exception & e) {
            bad = string("exception: ") + e.what();
        }
        if (bad.empty()) {
            std::optional<Val> best;
            for (auto & w : want) {
                auto v = obj.value(w);
                if (! best || (maximise ? v > *best : v < *best))
                    best = v;
            }
            for (size_t i = 0; i < got.size() && bad.empty(); ++i) {
                if (std::find(want.begin(), want.end(), got[i]) == want.end())
                    bad = "reported non-solution " + str(got[i]);
                else if (i > 0 && (maximise ? obj.value(got[i]) <= obj.value(got[i - 1]) : obj.value(got[i]) >= obj.value(got[i - 1])))
                    bad = "no strict improvement: " + str(got[i - 1]) + " then " + str(got[i]);
            }
            if (bad.empty() && got.empty() != want.empty())
                bad = got.empty() ? "no solution reported" : "solution of an infeasible problem";
            if (bad.empty() && best && obj.value(got.back()) != *best)
                bad = "ended at " + to_string(obj.value(got.back())) + ", optimum " + to_string(*best);
        }
        ctx.count("optimisations");
        ctx.count("improving_solutions", got.size());
        ctx.count("infeasible", want.empty());
        if (! bad.empty())
            ctx.fail(id, bad);
        else if (got.size() > 2)
            ctx.sample(id + " in " + to_string(got.size()) + " improvements");
    };
    auto ns = strategy_count();
    size_t at = 0;
    each_subset(1, [&](Case c) {
        auto want = c.solutions();
        for (size_t o = 0; o < objs.size(); ++o)
            for (bool mx : {false, true})
                for (int r = 0; r < 3; ++r) {
                    ++at;
                    for (size_t j = 0; j < (ctx.thorough ? 40 : 8); ++j)
                        run(c, want, o, mx, j == 0 ? 0 : (at * 31 + j * 47) % ns, r);
                }
    });
    each_subset(2, [&](Case c) {
        auto want = c.solutions();
        for (size_t o = 0; o < objs.size(); ++o)
            for (bool mx : {false, true}) {
                ++at;
                if (! ctx.thorough && at % 2)
                    continue;
                run(c, want, o, mx, at % 3 == 0 ? 0 : (at * 17) % ns, at % 4);
                if (ctx.thorough)
                    for (size_t j = 1; j < 6; ++j)
                        run(c, want, o, mx, (at * 17 + j * 67) % ns, (at + j) % 4);
            }
    });
    each_subset(3, [&](Case c) {
        auto want = c.solutions();
        ++at;
        for (size_t j = 0; j < (ctx.thorough ? 12 : 1); ++j)
            run(c, want, (at + j) % objs.size(), (at / 15 + j / 15) % 2, (at * 17 + j) % ns, (at + j) % 3);
    });
    ctx.finish();
}
