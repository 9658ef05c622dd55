// P10: propagation over every history of decisions: sound, as consistent as
// documented, never accepting a wrong assignment, exactly undone.
#include "drv.hh"
#include "prob.hh"
#include "walk.hh"
using namespace vc;
using namespace gcs;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    enum class Level
    {
        Sound,
        Bounds,
        Domain
    };
    // What a family documents, beyond what its instances are flagged with: the
    // domain consistency of a single constraint over distinct plain variables,
    // or the bounds consistency asked for by name.
    auto level_of(const string & fam, const Inst & i) -> Level
    {
        static const std::set<string> domain = {"abs", "among", "at_most_one", "in", "increasing", "inverse", "knapsack", "lex", "logical", "min_max", "parity", "reified_relations"};
        if (i.flags & Gac)
            return Level::Domain;
        auto shape = i.id.substr(0, i.id.find('['));
        if (shape.empty() || shape.back() != '/')
            return Level::Sound;
        if (domain.contains(fam) && shape.find("smart") == string::npos && ! (fam == "lex" && shape.find("if") != string::npos))
            return Level::Domain;
        if ((fam == "all_different" || fam == "global_cardinality" || fam == "sort") && (fam == "sort" || shape.find("/bc") != string::npos))
            return Level::Bounds;
        return Level::Sound;
    }

    // One exploration: the real solver against the solution list of the problem.
    auto explore(drv::Ctx & ctx, const string & id, const vector<Vals> & doms, const vector<Vals> & sols, const std::function<Vars(Problem &)> & make, size_t depth,
        Level level, const OkFn & ok, bool may_reject, bool ranges) -> void
    {
        if (ctx.enough() || ! ctx.begin(id))
            return;
        auto gac = level == Level::Domain;
        std::set<Doms> bounds_seen;
        string bad;
        auto say = [&](const string & s) {
            if (bad.empty())
                bad = s;
        };
        WalkTotals t;
        WalkPlan plan;
        plan.depth = depth;
        plan.ranges = ranges;
        plan.bad = say;
        auto consistent = [&](const vector<Decision> & h, const Vals & s) {
            for (auto & d : h)
                if (! d.allows(s[d.var]))
                    return false;
            return true;
        };
        long long supports = 0;
        plan.node = [&](const Node & n) {
            vector<std::set<Val>> supp(doms.size());
            bool any = false;
            for (auto & s : sols)
                if (consistent(n.history, s)) {
                    any = true;
                    for (size_t i = 0; i < s.size(); ++i)
                        supp[i].insert(s[i]);
                }
            bool complete = true;
            for (size_t i = 0; i < doms.size(); ++i) {
                auto & d = n.doms[i];
                for (auto v : supp[i]) {
                    ++supports;
                    if (! std::binary_search(d.begin(), d.end(), v))
                        say("after " + words(n.history) + ", v" + to_string(i) + " lost " + to_string(v) + ", which is in a solution; left " + str(n.doms));
                }
                complete = complete && d.size() == 1;
                for (auto v : d) {
                    if (! std::binary_search(doms[i].begin(), doms[i].end(), v))
                        say("after " + words(n.history) + ", v" + to_string(i) + " gained " + to_string(v));
                    for (auto & h : n.history)
                        if (h.var == i && ! h.allows(v))
                            say("after " + words(n.history) + ", v" + to_string(i) + " still has " + to_string(v));
                    if (gac && any && ! supp[i].contains(v))
                        say("after " + words(n.history) + ", v" + to_string(i) + " still has unsupported " + to_string(v) + "; left " + str(n.doms));
                }
                if (n.parent && ! std::includes((*n.parent)[i].begin(), (*n.parent)[i].end(), d.begin(), d.end()))
                    say("after " + words(n.history) + ", v" + to_string(i) + " grew from " + str((*n.parent)[i]) + " to " + str(d));
            }
            if (gac && ! any)
                say("after " + words(n.history) + ", no solution remains but propagation did not fail; left " + str(n.doms));
            if (level == Level::Bounds && ! complete && bounds_seen.insert(n.doms).second) {
                // Each end of each domain extends to an assignment within the hulls.
                Doms hull;
                for (auto & d : n.doms)
                    hull.push_back(range(d.front(), d.back()));
                vector<unsigned> ends(doms.size(), 0);
                product(hull, [&](const Vals & v) {
                    if (ok(v))
                        for (size_t i = 0; i < v.size(); ++i)
                            ends[i] |= (v[i] == hull[i].front() ? 1 : 0) | (v[i] == hull[i].back() ? 2 : 0);
                });
                for (size_t i = 0; i < doms.size(); ++i)
                    if (ends[i] != 3)
                        say("after " + words(n.history) + ", a bound of v" + to_string(i) + " is unsupported within the hulls; left " + str(n.doms));
            }
            if (complete) {
                Vals v;
                for (auto & d : n.doms)
                    v.push_back(d[0]);
                if (! any || ! std::binary_search(sols.begin(), sols.end(), v))
                    say("after " + words(n.history) + ", accepted " + str(v) + ", which is not a solution");
            }
            return bad.empty() && ! complete;
        };
        plan.failed = [&](const vector<Decision> & h, const Doms &) {
            for (auto & s : sols)
                if (consistent(h, s)) {
                    say("after " + words(h) + ", failed although " + str(s) + " is a solution");
                    return;
                }
        };
        try {
            Problem p;
            auto x = make(p);
            walk(p, x, doms, plan, t);
        }
        catch (const InvalidProblemDefinitionException & e) {
            if (! may_reject)
                say(string("exception: ") + e.what());
            ctx.count("rejected_instances");
        }
        catch (const UnimplementedException & e) {
            if (! may_reject)
                say(string("unimplemented: ") + e.what());
            ctx.count("rejected_instances");
        }
        catch (const std::exception & e) {
            say(string("exception: ") + e.what());
        }
        ctx.count("instances");
        ctx.count("nodes", t.nodes);
        ctx.count("decisions", t.nodes + t.failures - 1);
        ctx.count("failures", t.failures);
        ctx.count("restorations", t.restorations);
        ctx.count("supports_checked", supports);
        if (level != Level::Sound)
            ctx.count("consistency_instances");
        if (! bad.empty())
            ctx.fail(id, bad);
        else if (t.nodes > 100)
            ctx.sample(id + ": " + to_string(t.nodes) + " nodes");
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    ctx.limit_s = 120;
    // deep: small instances, long histories. wide: larger instances, short
    // histories. claims: with the library's own re-run of every propagator that
    // claims to be idempotent. multi: palette problems.
    if (ctx.mode == "claims")
        setenv("GCS_CHECK_IDEMPOTENT_CLAIMS", "1", 1);
    if (ctx.mode != "multi")
        for (auto & f : families()) {
            size_t at = 0;
            f.gen(
                [&](Inst && i) {
                    ++at;
                    // quick: only the instances without views, constants or aliases
                    if (ctx.mode == "wide" && ! ctx.thorough && i.id.find("/[") == string::npos)
                        return;
                    size_t width = 0;
                    for (auto & d : i.doms)
                        width += d.size();
                    size_t depth = 1;
                    if (ctx.mode == "deep")
                        depth = i.flags & Heavy ? 1 : width <= 6 ? 4 : width <= 9 ? 3 : 2;
                    if (ctx.mode == "wide")
                        depth = i.flags & Heavy ? 1 : width <= 9 ? 2 : 1;
                    if (ctx.thorough)
                        ++depth;
                    vector<Vals> sols;
                    product(i.doms, [&](const Vals & v) {
                        if (i.ok(v))
                            sols.push_back(v);
                    });
                    std::sort(sols.begin(), sols.end());
                    explore(ctx, f.name + "/" + i.id, i.doms, sols, [&](Problem & p) {
                        auto x = make_vars(p, i.doms);
                        i.post(p, x);
                        return x; }, depth, level_of(f.name, i), i.ok, i.flags & MayReject, at % 2);
                },
                ctx.mode == "wide" ? 1 : 0);
        }
    if (ctx.mode == "multi" || ctx.mode == "claims")
        for (size_t n = 1; n <= 3; ++n)
            each_subset(n, [&](Case c) {
                size_t depth = ctx.mode == "claims" ? 1 : n == 1 ? 3 : n == 2 ? 2 : 1;
                if (ctx.thorough)
                    ++depth;
                auto sols = c.solutions();
                std::sort(sols.begin(), sols.end());
                explore(ctx, "multi/" + c.id(), c.t->pal->doms, sols, [&](Problem & p) { return c.build(p); }, depth, Level::Sound, {}, false, n == 2);
            });
    ctx.finish();
}
