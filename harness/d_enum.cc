// P01-P05: for every instance of the group's families, the assignments that
// solve() reports are exactly the satisfying ones, once each.
#include "core.hh"
#include "drv.hh"
#include <chrono>
#include <iostream>
using namespace vc;
using namespace gcs;
using std::set; using std::string; using std::to_string;

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    for (auto & f : families()) {
        if (f.group != ctx.mode)
            continue;
        auto run = [&](Inst && i) {
            if (ctx.enough() || ! ctx.begin(i.id))
                return;
            set<Vals> ref;
            long long points = 0;
            product(i.doms, [&](const Vals & v) {
                ++points;
                if (i.ok(v))
                    ref.insert(v);
            });
            set<Vals> got;
            string bad;
            bool rejected = false;
            Stats stats;
            try {
                Problem p;
                auto xs = make_vars(p, i.doms);
                i.post(p, xs);
                stats = solve(p, [&](const CurrentState & s) {
                    Vals r;
                    for (auto & x : xs)
                        r.push_back(s(x).raw_value);
                    if (! got.insert(r).second && bad.empty())
                        bad = "reported twice: " + str(r);
                    return true;
                });
            }
            catch (const InvalidProblemDefinitionException & e) {
                rejected = true;
                if (! (i.flags & MayReject))
                    bad = string("rejected: ") + e.what();
            }
            catch (const UnimplementedException & e) {
                rejected = true;
                if (! (i.flags & MayReject))
                    bad = string("unimplemented: ") + e.what();
            }
            catch (const std::exception & e) {
                rejected = true;
                bad = string("exception: ") + e.what();
            }
            if (bad.empty() && ! rejected) {
                for (auto & r : ref)
                    if (! got.count(r)) {
                        bad = "missed solution " + str(r);
                        break;
                    }
                for (auto & g : got)
                    if (! ref.count(g)) {
                        bad = "reported non-solution " + str(g);
                        break;
                    }
            }
            ctx.count("instances");
            ctx.count("instances:" + f.name);
            ctx.count("rejected", rejected);
            ctx.count("assignments_judged", points);
            ctx.count("solutions", got.size());
            ctx.count("search_nodes", stats.recursions);
            ctx.count("propagations", stats.propagations);
            if (! bad.empty())
                ctx.fail(i.id, bad + " (" + to_string(ref.size()) + " satisfying, " + to_string(got.size()) + " reported)");
            else if (! rejected && ref.size() > 1)
                ctx.sample(i.id + " -> " + to_string(ref.size()) + " solutions", 4);
        };
        f.gen(run, ctx.thorough ? 2 : 1);
    }
    ctx.finish();
}
