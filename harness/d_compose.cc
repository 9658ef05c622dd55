// P06: several constraints over shared variables give the intersection.
#include "drv.hh"
#include "prob.hh"
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    auto run = [&](const Case & c) {
        auto id = c.id();
        if (ctx.enough() || ! ctx.begin(id))
            return;
        auto want = c.solutions();
        string bad;
        vector<Vals> got;
        try {
            Problem p;
            auto x = c.build(p);
            auto st = solve(p, [&](const CurrentState & s) {
                got.push_back(read(s, x));
                return true;
            });
            ctx.count("search_nodes", st.recursions);
            if (st.solutions != got.size())
                bad = "statistics count " + to_string(st.solutions) + " solutions, " + to_string(got.size()) + " reported";
            auto cmp = compare(want, got);
            if (! cmp.empty())
                bad = cmp;
        }
        catch (const std::exception & e) {
            bad = string("exception: ") + e.what();
        }
        ctx.count("problems");
        ctx.count("problems_of_" + to_string(c.es.size()) + "_constraints");
        ctx.count("unsatisfiable", want.empty());
        ctx.count("assignments_judged", c.t->points.size());
        ctx.count("solutions", got.size());
        if (! bad.empty())
            ctx.fail(id, bad);
        else if (want.size() > 1)
            ctx.sample(id + " -> " + to_string(want.size()));
    };
    each_subset(1, run);
    each_subset(1, [&](Case c) {
        c.es.push_back(c.es[0]);
        run(c);
    });
    each_subset(2, [&](Case c) {
        run(c);
        std::swap(c.es[0], c.es[1]);
        run(c);
        c.es.push_back(c.es[0]);
        run(c);
    });
    each_subset(3, [&](Case c) {
        if (ctx.thorough) {
            std::sort(c.es.begin(), c.es.end());
            do
                run(c);
            while (std::next_permutation(c.es.begin(), c.es.end()));
        }
        else
            run(c);
    });
    if (ctx.thorough)
        each_subset(4, run);
    ctx.finish();
}
