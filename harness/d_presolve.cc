// P14: presolvers change how a problem is solved, not what its solutions,
// optimum and satisfiability are, and what they derive is proved.
#include "drv.hh"
#include "logged.hh"
#include "objs.hh"
#include "prob.hh"
#include "strat.hh"
#include <gcs/presolvers/auto_table.hh>
#include <gcs/presolvers/cumulative_strengthening.hh>
#include <gcs/presolvers/difference_logic.hh>
#include <gcs/presolvers/inferred_cumulative.hh>
#include <gcs/presolvers/inferred_disjunctive.hh>
#include <gcs/constraints/cumulative.hh>
#include <unistd.h>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

#include <csetjmp>
#include <csignal>
namespace
{
    sigjmp_buf on_abort;
    struct Presolve
    {
        string name;
        std::function<void(Problem &, const Vars &)> add;
    };

    // ---- a family of scheduling problems: tasks on resources, and perhaps a makespan
    struct Sched
    {
        vector<std::pair<Val, Val>> windows; // of starts
        vector<Val> len;
        struct Res
        {
            vector<size_t> who;
            vector<Val> need;
            Val cap;
        };
        vector<Res> res;
        int makespan = 0;        // 0 none, 1 linear rows, 2 comparisons
        size_t variable = 0;     // 1: first length varies, 2: first height of the first resource varies, 3: its capacity varies, 4: optional first task
        vector<std::pair<size_t, size_t>> prec;
        auto doms() const -> vector<Vals>
        {
            vector<Vals> r;
            for (auto & [a, b] : windows) {
                r.emplace_back();
                for (Val v = a; v <= b; ++v)
                    r.back().push_back(v);
            }
            if (makespan)
                r.push_back({1, 2, 3, 4, 5, 6, 7});
            if (variable == 4)
                r.push_back({0, 1});
            else if (variable)
                r.push_back({1, 2});
            return r;
        }
        auto ok(const Vals & v) const -> bool
        {
            auto n = len.size();
            auto at = n;
            Val end = makespan ? v[at++] : 0;
            Val extra = variable ? v[at] : 0;
            auto length = [&](size_t i) { return variable == 1 && i == 0 ? extra : len[i]; };
            auto absent = [&](size_t i) { return variable == 4 && i == 0 && extra == 0; };
            if (makespan)
                for (size_t i = 0; i < n; ++i)
                    if (v[i] + len[i] > end)
                        return false;
            for (auto & [a, b] : prec)
                if (v[a] + len[a] > v[b])
                    return false;
            for (size_t r = 0; r < res.size(); ++r)
                for (Val t = 0; t < 12; ++t) {
                    Val use = 0;
                    for (size_t k = 0; k < res[r].who.size(); ++k) {
                        auto i = res[r].who[k];
                        if (! absent(i) && v[i] <= t && t < v[i] + length(i))
                            use += variable == 2 && r == 0 && k == 0 ? extra : res[r].need[k];
                    }
                    if (use > (variable == 3 && r == 0 ? res[r].cap + extra - 1 : res[r].cap))
                        return false;
                }
            return true;
        }
        auto build(Problem & p) const -> Vars
        {
            auto x = make_vars(p, doms());
            auto n = len.size();
            auto at = n;
            auto end = makespan ? std::optional<IntegerVariableID>{x[at++]} : std::nullopt;
            auto extra = variable ? x[at] : IntegerVariableID{ConstantIntegerVariableID{I(0)}};
            auto con = [](Val c) -> IntegerVariableID { return ConstantIntegerVariableID{I(c)}; };
            for (size_t r = 0; r < res.size(); ++r) {
                Vars s, l, h;
                vector<Integer> li, hi;
                vector<IntegerVariableCondition> conds;
                for (size_t k = 0; k < res[r].who.size(); ++k) {
                    auto i = res[r].who[k];
                    s.push_back(x[i]);
                    l.push_back(variable == 1 && i == 0 ? extra : con(len[i]));
                    h.push_back(variable == 2 && r == 0 && k == 0 ? extra : con(res[r].need[k]));
                    li.push_back(I(len[i]));
                    hi.push_back(I(res[r].need[k]));
                }
                auto c = variable == 3 && r == 0 ? extra + I(res[r].cap - 1) : con(res[r].cap);
                if (variable == 0)
                    p.post(Cumulative{s, li, hi, I(res[r].cap)});
                else if (variable == 4) {
                    vector<IntegerVariableID> pres;
                    for (auto i : res[r].who)
                        pres.push_back(i == 0 ? extra : con(1));
                    p.post(Cumulative{s, l, h, pres, c});
                }
                else
                    p.post(Cumulative{s, l, h, c});
            }
            if (end)
                for (size_t i = 0; i < n; ++i) {
                    if (makespan == 1)
                        p.post(WeightedSum{} + I(1) * x[i] + I(-1) * *end <= I(-len[i]));
                    else
                        p.post(LessThanEqual{x[i] + I(len[i]), *end});
                }
            for (auto & [a, b] : prec)
                p.post(WeightedSum{} + I(1) * x[a] + I(-1) * x[b] <= I(-len[a]));
            return x;
        }
        auto id() const -> string
        {
            string r = "sched/";
            for (size_t i = 0; i < len.size(); ++i)
                r += (i ? "," : "") + to_string(windows[i].first) + ".." + to_string(windows[i].second) + "+" + to_string(len[i]);
            for (auto & q : res) {
                r += " [";
                for (size_t k = 0; k < q.who.size(); ++k)
                    r += (k ? " " : "") + to_string(q.who[k]) + ":" + to_string(q.need[k]);
                r += "]<=" + to_string(q.cap);
            }
            r += " m" + to_string(makespan) + " v" + to_string(variable);
            for (auto & [a, b] : prec)
                r += " " + to_string(a) + "<" + to_string(b);
            return r;
        }
    };
    auto rules(int k) -> CumulativeRules
    {
        CumulativeRules r;
        if (k == 1)
            r.edge_finding = r.energetic_edge_finding = r.time_table_edge_finding = r.elastic_overload = r.knapsack_overload = r.not_first_not_last = true;
        else if (k == 2)
            r.overload = r.profile_overload = false;
        else if (k == 3)
            r.edge_finding = true;
        return r;
    }
    // Presolvers over the posted Cumulatives.
    auto cumulative_presolvers(std::optional<size_t> end) -> vector<Presolve>
    {
        vector<Presolve> r;
        r.push_back({"strengthen", [](Problem & p, const Vars &) { p.add_presolver(CumulativeStrengthening{}); }});
        r.push_back({"strengthen,all", [](Problem & p, const Vars &) { p.add_presolver(CumulativeStrengthening{}.with_rules(rules(1))); }});
        r.push_back({"strengthen,ef", [](Problem & p, const Vars &) { p.add_presolver(CumulativeStrengthening{}.with_rules(rules(3)).with_dynamic_programming_budget(40)); }});
        r.push_back({"strengthen,raise0", [](Problem & p, const Vars &) { p.add_presolver(CumulativeStrengthening{}.with_rules(rules(1)).with_raise_budget(0)); }});
        r.push_back({"disjunctive", [](Problem & p, const Vars &) { p.add_presolver(InferredDisjunctive{}); }});
        r.push_back({"disjunctive2,all", [](Problem & p, const Vars &) { p.add_presolver(InferredDisjunctive{}.with_minimum_clique_size(2).with_rules(rules(1))); }});
        r.push_back({"disjunctive,few", [](Problem & p, const Vars &) { p.add_presolver(InferredDisjunctive{}.with_budgets(2, 1).with_rules(rules(3))); }});
        r.push_back({"cumulative", [](Problem & p, const Vars &) { p.add_presolver(InferredCumulative{}); }});
        r.push_back({"cumulative,all", [](Problem & p, const Vars &) { p.add_presolver(InferredCumulative{}.with_rules(rules(1))); }});
        r.push_back({"cumulative,cap1", [](Problem & p, const Vars &) { p.add_presolver(InferredCumulative{}.with_maximum_capacity(1).with_budgets(3, 2).with_rules(rules(3))); }});
        r.push_back({"cumulative,lift2", [](Problem & p, const Vars &) { p.add_presolver(InferredCumulative{}.with_lifting_call_budget(2).with_programme_state_budget(12)); }});
        if (end) {
            auto e = *end;
            r.push_back({"disjunctive,makespan", [e](Problem & p, const Vars & x) { p.add_presolver(InferredDisjunctive{}.with_makespan(x[e]).with_minimum_clique_size(2)); }});
            r.push_back({"cumulative,makespan", [e](Problem & p, const Vars & x) { p.add_presolver(InferredCumulative{}.with_makespan(x[e])); }});
            r.push_back({"cumulative,notmakespan", [](Problem & p, const Vars & x) { p.add_presolver(InferredCumulative{}.with_makespan(x[0])); }});
            r.push_back({"disjunctive,makespan,all", [e](Problem & p, const Vars & x) { p.add_presolver(InferredDisjunctive{}.with_makespan(x[e]).with_rules(rules(1))); }});
        }
        return r;
    }
    auto difference_presolvers() -> vector<Presolve>
    {
        vector<Presolve> r;
        for (int k = 0; k < 8; ++k)
            r.push_back({string("difference") + (k & 1 ? ",retire" : "") + (k & 2 ? ",plain" : "") + (k & 4 ? ",scratch" : ""), [k](Problem & p, const Vars &) {
                             p.add_presolver(DifferenceLogic{}.disabling_lifted_donors(k & 1).simplifying_at_root(! (k & 2)).incrementally(! (k & 4)));
                         }});
        r.push_back({"difference,audit", [](Problem & p, const Vars &) { p.add_presolver(DifferenceLogic{}.auditing_incremental_propagation()); }});
        return r;
    }
    auto table_presolvers(size_t n) -> vector<Presolve>
    {
        vector<Presolve> r;
        for (size_t m = 1; m < (size_t{1} << n); ++m) {
            string name = "table";
            for (size_t i = 0; i < n; ++i)
                if (m >> i & 1)
                    name += to_string(i);
            r.push_back({name, [m, n](Problem & p, const Vars & x) {
                             Vars v;
                             for (size_t i = 0; i < n; ++i)
                                 if (m >> i & 1)
                                     v.push_back(x[i]);
                             p.add_presolver(AutoTable{v});
                         }});
        }
        r.push_back({"table,reversed", [](Problem & p, const Vars & x) { p.add_presolver(AutoTable{Vars(x.rbegin(), x.rend())}); }});
        r.push_back({"table,twice", [](Problem & p, const Vars & x) { p.add_presolver(AutoTable{{x[0], x[1]}}); p.add_presolver(AutoTable{{x[1], x[0]}}); }});
        r.push_back({"table,views", [](Problem & p, const Vars & x) { p.add_presolver(AutoTable{{-x[0], x[1] + I(2)}}); }});
        r.push_back({"table,repeat", [](Problem & p, const Vars & x) { p.add_presolver(AutoTable{{x[0], x[1], x[0]}}); }});
        r.push_back({"table,constant", [](Problem & p, const Vars & x) { p.add_presolver(AutoTable{{x[0], ConstantIntegerVariableID{I(3)}}}); }});
        return r;
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    string base = (ctx.scratch.empty() ? string("/tmp") : ctx.scratch) + "/presolve" + to_string(getpid());
    bool survive = getenv("SURVIVE");
    if (survive)
        signal(SIGABRT, [](int) { siglongjmp(on_abort, 1); });
    if (ctx.limit_s < 60)
        ctx.limit_s = 60;
    auto fam = getenv("FAM");
    string keep = getenv("KEEP") ? getenv("KEEP") : "";

    // kind: 0 enumerate, 1 first solution only, 2 minimise, 3 maximise
    struct Job
    {
        string id;
        std::function<Vars(Problem &)> build;
        std::function<vector<Vals>()> want;
        vector<Presolve> presolvers;
        int kind = 0;
        std::function<IntegerVariableID(Problem &, const Vars &)> objective;
        std::function<Val(const Vals &)> value;
        size_t strat = 0;
        int restarts = 0;
        bool proof = false;
        size_t option = 0;
    };
    auto run = [&](Job j) {
        for (auto & p : j.presolvers)
            j.id += "|" + p.name;
        j.id += string(j.kind == 0 ? "" : j.kind == 1 ? ";first" : j.kind == 2 ? ";min" : ";max") + "@" + strategy_name(j.strat) + (j.restarts ? "/r" + to_string(j.restarts) : "") +
            (j.proof ? ";proof" + to_string(j.option) : "");
        if (ctx.enough() || (fam && j.id.find(fam) == string::npos) || ! ctx.begin(j.id))
            return;
        if (survive && sigsetjmp(on_abort, 1)) {
            ctx.fail(j.id, "aborted");
            return;
        }
        string bad;
        vector<Vals> got;
        bool refused = false;
        auto want = j.want();
        std::sort(want.begin(), want.end());
        std::optional<Val> best;
        if (j.kind >= 2)
            for (auto & w : want) {
                auto v = j.value(w) * (j.kind == 3 ? -1 : 1);
                if (! best || v < *best)
                    best = v;
            }
        try {
            Problem p;
            auto x = j.build(p);
            for (auto & q : j.presolvers)
                q.add(p, x);
            SolveCallbacks cb;
            if (j.kind >= 2) {
                auto z = j.objective(p, x);
                j.kind == 2 ? p.minimise(z) : p.maximise(z);
            }
            cb.stats_report = [](const StatsNote &) {};
            cb.solution = [&](const CurrentState & s) {
                got.push_back(read(s, x));
                return j.kind != 1;
            };
            cb.branch = strategy(j.strat, p, x);
            if (j.restarts)
                cb.restarts = RestartSchedule::luby(j.restarts);
            Stats stats;
            if (j.proof) {
                ProofOptions o{base};
                if (j.option == 1)
                    o.set_compact_boolean_encoding();
                else if (j.option == 2)
                    o.enable_full_encoding();
                else if (j.option == 3)
                    o.set_verbose_names(false);
                stats = solve_with(p, cb, o);
            }
            else
                stats = solve_with(p, cb);
            ctx.count("search_nodes", static_cast<long long>(stats.recursions));
            for (auto & c : stats.components())
                for (auto & e : c->entries()) {
                    auto n = c->component_name() + "." + e.name;
                    if (n.ends_with("edges_lifted") || n.ends_with("tuples") || n.ends_with("cliques_posted") || n.ends_with("cuts_posted") || n.ends_with("certified_makespan_bound") ||
                        n.find("strengthen") != string::npos || n.ends_with("restricted_rows_rebuilt"))
                        ctx.count("did:" + n, e.value);
                }
        }
        catch (const UnimplementedException & e) {
            refused = true;
            ctx.count("unimplemented");
        }
        catch (const std::exception & e) {
            refused = true;
            bad = string("exception: ") + e.what();
        }
        ctx.count(j.proof ? "logged_runs" : "runs");
        if (! refused) {
            for (auto & g : got)
                if (bad.empty() && ! std::binary_search(want.begin(), want.end(), g))
                    bad = "reported non-solution " + str(g);
            if (bad.empty() && j.kind == 0) {
                auto s = got;
                std::sort(s.begin(), s.end());
                if (s != want)
                    bad = to_string(s.size()) + " solutions, where there are " + to_string(want.size());
            }
            else if (bad.empty() && j.kind == 1) {
                if (got.size() != (want.empty() ? 0 : 1))
                    bad = to_string(got.size()) + " solutions reported";
            }
            else if (bad.empty()) {
                if (want.empty() != got.empty())
                    bad = "feasibility is wrong";
                else if (! got.empty() && j.value(got.back()) * (j.kind == 3 ? -1 : 1) != *best)
                    bad = "the last solution has value " + to_string(j.value(got.back())) + ", and the best is " + to_string(*best * (j.kind == 3 ? -1 : 1));
            }
            ctx.count("solutions", static_cast<long long>(got.size()));
        }
        if (bad.empty() && ! refused && j.proof)
            try {
                pb::Checker k;
                k.read_model(slurp(base + ".opb"));
                pb::Outcome out;
                try {
                    out = k.check_proof(slurp(base + ".pbp"));
                }
                catch (const std::exception & e) {
                    bad = string("proof not accepted: ") + e.what();
                }
                if (bad.empty()) {
                    auto expect = j.kind == 0 ? (want.empty() ? string("UNSAT") : "ENUMERATION_COMPLETE " + to_string(want.size()))
                        : j.kind == 1         ? string(want.empty() ? "UNSAT" : "SAT")
                        : want.empty()        ? string("BOUNDS INF INF")
                                              : "BOUNDS " + to_string(*best) + " " + to_string(*best);
                    if (auto c = out.conclusion.find(" :"); c != string::npos)
                        out.conclusion.resize(c);
                    if (out.conclusion != expect)
                        bad = "the proof concludes `" + out.conclusion + "', expected `" + expect + "'";
                    else if ((long long)(got.size()) != (j.kind >= 2 ? out.soli : out.solx))
                        bad = "the proof logs " + to_string(j.kind >= 2 ? out.soli : out.solx) + " solutions, " + to_string(got.size()) + " reported";
                }
                ctx.count("proofs");
                ctx.count("steps", out.steps);
                if (bad.empty() && out.steps > 100)
                    ctx.sample(j.id + " -> " + out.conclusion + ", " + to_string(out.steps) + " proof steps");
            }
            catch (const std::exception & e) {
                bad = string("exception: ") + e.what();
            }
        if (! bad.empty()) {
            ctx.fail(j.id, bad);
            if (! keep.empty() && j.proof)
                for (string s : {".opb", ".pbp", ".scp"})
                    std::ofstream(keep + s) << slurp(base + s);
        }
        if (j.proof)
            for (string s : {".opb", ".pbp", ".varmap", ".scp"})
                unlink((base + s).c_str());
    };
    auto ns = strategy_count();
    auto objs = objectives();
    size_t at = 0;
    // The variants of one problem: how it is asked, searched, and whether it is logged.
    auto vary = [&](Job j, size_t k, bool four) {
        j.strat = k % 3 == 0 ? (k * 7) % ns : 0;
        auto kind = int(k % 5);
        if (four && kind >= 3) {
            j.kind = kind == 3 ? 2 : 3;
            auto o = (k / 5) % objs.size();
            j.objective = objs[o].make;
            j.value = objs[o].value;
            j.id += ">" + objs[o].name;
        }
        else if (kind == 2)
            j.kind = 1;
        if (j.kind && k % 4 == 1)
            j.restarts = 1 + int(k % 3);
        run(j);
        if (k % (ctx.thorough ? 1 : 2) == 0) {
            j.proof = true;
            j.option = (k / 2) % 5 > 3 ? 0 : (k / 2) % 5;
            run(j);
        }
    };
    auto palette = [&](const Case & c) {
        auto cp = std::make_shared<Case>(c);
        Job j;
        j.id = c.id();
        j.build = [cp](Problem & p) { return cp->build(p); };
        j.want = [cp] { return cp->solutions(); };
        return j;
    };
    if (ctx.mode == "table") {
        auto ts = table_presolvers(4);
        for (size_t n : {1, 2})
            each_subset(n, [&](const Case & c) {
                for (size_t t = 0; t < ts.size(); ++t) {
                    ++at;
                    if (n == 2 && at % (ctx.thorough ? 1 : 5) != 0)
                        continue;
                    auto j = palette(c);
                    j.presolvers = {ts[t]};
                    vary(j, at / (n == 2 ? 3 : 1), true);
                }
            });
    }
    else if (ctx.mode == "mixed") {
        // several presolvers one after another, over the palettes, in either order
        vector<Presolve> ps = difference_presolvers();
        ps.resize(ctx.thorough ? ps.size() : 4);
        auto ts = table_presolvers(4);
        for (size_t i : {2u, 6u, 14u, 17u})
            ps.push_back(ts[i]);
        for (auto & c : cumulative_presolvers(3))
            ps.push_back(c);
        each_subset(1, [&](const Case & c) {
            for (size_t a = 0; a < ps.size(); ++a)
                for (size_t b = 0; b < ps.size(); ++b) {
                    ++at;
                    if (at % (ctx.thorough ? 1 : 3) != 0)
                        continue;
                    auto j = palette(c);
                    j.presolvers = a == b ? vector{ps[a]} : vector{ps[a], ps[b]};
                    vary(j, at / 13, true);
                }
        });
        each_subset(2, [&](const Case & c) {
            if (c.t->pal->name != "sched")
                return;
            for (size_t a = 0; a < ps.size(); ++a)
                for (size_t b = 0; b < ps.size(); ++b) {
                    ++at;
                    if (at % (ctx.thorough ? 1 : 3) != 0)
                        continue;
                    auto j = palette(c);
                    j.presolvers = a == b ? vector{ps[a]} : vector{ps[a], ps[b]};
                    vary(j, at / 11, true);
                }
        });
    }
    else if (ctx.mode == "diff") {
        // Systems of difference constraints over three variables, every spelling the presolver reads.
        auto ps = difference_presolvers();
        struct Edge
        {
            size_t a, b;
            Val d;
            int how;
        };
        auto post = [](Problem & p, const Vars & x, const Edge & e) {
            auto cond = x[3] >= I(1);
            switch (e.how) {
            case 0: p.post(WeightedSum{} + I(1) * x[e.a] + I(-1) * x[e.b] <= I(e.d)); break;
            case 1: p.post(LessThanEqual{x[e.a], x[e.b] + I(e.d)}); break;
            case 2: p.post(GreaterThan{x[e.b] + I(e.d + 1), x[e.a]}); break;
            case 3: p.post(LinearLessThanEqualIf{WeightedSum{} + I(1) * x[e.a] + I(-1) * x[e.b], I(e.d), cond}); break;
            case 4: p.post(LessThanIf{x[e.a] + I(-e.d), x[e.b] + I(1), cond}); break;
            case 5: p.post(LinearLessThanEqualIff{WeightedSum{} + I(1) * x[e.a] + I(-1) * x[e.b], I(e.d), cond}); break;
            case 6: p.post(LessThanEqual{-x[e.b], -x[e.a] + I(e.d)}); break;
            case 7: p.post(WeightedSum{} + I(2) * x[e.a] + I(-2) * x[e.b] <= I(2 * e.d)); break;
            case 8: p.post(GreaterThanEqualIf{x[e.b] + I(e.d), x[e.a], x[3] == I(0)}); break;
            case 9: p.post(WeightedSum{} + I(1) * (x[e.a] + I(2)) + I(-1) * (x[e.b] + I(-1)) <= I(e.d + 3)); break;
            case 10: p.post(LinearGreaterThanEqual{WeightedSum{} + I(1) * x[e.b] + I(-1) * x[e.a], I(-e.d)}); break;
            default: p.post(LinearLessThanEqual{WeightedSum{} + I(1) * x[e.a] + I(-1) * -x[e.b] + I(-2) * x[e.b], I(e.d)}); break;
            }
        };
        auto holds = [](const Vals & v, const Edge & e) {
            bool h = v[e.a] - v[e.b] <= e.d;
            if (e.how == 3 || e.how == 4)
                return v[3] == 0 || h;
            if (e.how == 5)
                return (v[3] == 1) == h;
            if (e.how == 8)
                return v[3] != 0 || h;
            return h;
        };
        vector<std::pair<size_t, size_t>> ends{{0, 1}, {1, 2}, {2, 0}, {1, 0}, {0, 2}, {2, 1}, {0, 0}};
        const vector<vector<Vals>> shapes{{{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1}}, {{-2, -1, 0, 1}, {-1, 1, 2}, {-3, -2, 0}, {0, 1}}, {{0, 1, 2}, {2}, {1, 3}, {1}}};
        vector<Edge> es;
        auto go = [&](auto & self, size_t depth) -> void {
            if (! es.empty())
                for (size_t q = 0; q < ps.size(); ++q) {
                    ++at;
                    if (at % (ctx.thorough ? 2 : 17) != 0 && es.size() > 1)
                        continue;
                    auto & sh = shapes[at % shapes.size()];
                    auto mine = es;
                    for (size_t i = 0; i < mine.size(); ++i)
                        if (mine[i].how < 0)
                            mine[i].how = int((at / 7 + i * 5 + at / 31) % 12);
                    // a strict comparison of a variable with itself is refused by contract (P18)
                    for (auto & e : mine)
                        if (e.a == e.b && (e.how == 2 || e.how == 4))
                            e.how = 0;
                    string id = "diff/" + to_string(at % shapes.size()) + " ";
                    for (auto & e : mine)
                        id += "(" + to_string(e.a) + to_string(e.b) + " " + to_string(e.d) + "/" + to_string(e.how) + ")";
                    Job j;
                    j.id = id;
                    j.build = [=](Problem & p) {
                        auto x = make_vars(p, sh);
                        for (auto & e : mine)
                            post(p, x, e);
                        return x;
                    };
                    j.want = [=] {
                        vector<Vals> r;
                        product(sh, [&](const Vals & v) {
                            for (auto & e : mine)
                                if (! holds(v, e))
                                    return;
                            r.push_back(v);
                        });
                        return r;
                    };
                    j.presolvers = {ps[q]};
                    vary(j, at / 5, true);
                }
            if (depth == 4)
                return;
            for (auto & [a, b] : ends)
                for (Val d : {-2, -1, 0, 1}) {
                    if (es.empty())
                        for (int how = 0; how < 12; ++how) {
                            es.push_back({a, b, d, how});
                            self(self, depth + 3); // singles in every spelling
                            es.pop_back();
                        }
                    if (depth < 3) {
                        es.push_back({a, b, d, -1});
                        self(self, depth + 1);
                        es.pop_back();
                    }
                }
        };
        go(go, 1);
    }
    else if (ctx.mode == "sched") {
        size_t n_sched = 0;
        auto all = [&](const Sched & s) {
            auto end = s.makespan ? std::optional<size_t>{s.len.size()} : std::nullopt;
            auto ps = cumulative_presolvers(end);
            for (size_t a = 0; a < ps.size(); ++a) {
                ++at;
                if (at % (ctx.thorough ? 1 : 2) != 0)
                    continue;
                auto sp = std::make_shared<Sched>(s);
                Job j;
                j.id = s.id();
                j.build = [sp](Problem & p) { return sp->build(p); };
                j.want = [sp] {
                    vector<Vals> r;
                    product(sp->doms(), [&](const Vals & v) {
                        if (sp->ok(v))
                            r.push_back(v);
                    });
                    return r;
                };
                j.presolvers = {ps[a]};
                auto k = at / 5;
                if (k % 4 == 3) {
                    auto b = (k / 4) % ps.size();
                    if (b != a)
                        j.presolvers.push_back(ps[b]);
                }
                if (s.makespan && k % 3 == 0) {
                    auto e = *end;
                    j.kind = 2;
                    j.objective = [e](Problem &, const Vars & x) { return x[e]; };
                    j.value = [e](const Vals & v) { return v[e]; };
                    j.restarts = k % 2 ? 2 : 0;
                    j.strat = k % 5 == 0 ? (k * 7) % ns : 0;
                    run(j);
                    if (k % 2 == 0) {
                        j.proof = true;
                        j.option = k / 2 % 4;
                        run(j);
                    }
                }
                else
                    vary(j, k % 5 >= 3 ? k + 2 : k, false);
            }
        };
        // three and four tasks, one or two resources
        vector<vector<Val>> needs3, needs4;
        for (Val a = 1; a <= 4; ++a)
            for (Val b = a; b <= 4; ++b)
                for (Val c = b; c <= 4; ++c) {
                    needs3.push_back({a, b, c});
                    for (Val d = c; d <= 4; ++d)
                        needs4.push_back({a, b, c, d});
                }
        const vector<vector<std::pair<Val, Val>>> win3{{{0, 3}, {0, 3}, {0, 3}}, {{0, 2}, {1, 3}, {2, 4}}, {{0, 1}, {0, 4}, {2, 3}}, {{1, 1}, {0, 3}, {0, 3}}};
        const vector<vector<Val>> len3{{1, 1, 1}, {2, 1, 2}, {1, 2, 3}, {2, 2, 2}, {0, 2, 1}};
        size_t count = 0;
        for (auto & w : win3)
            for (auto & l : len3)
                for (auto & h : needs3)
                    for (Val cap = 2; cap <= 7; ++cap)
                        for (size_t v = 0; v <= 4; ++v)
                            for (int m = 0; m < 3; ++m) {
                                ++count;
                                if (count % (ctx.thorough ? 2 : 11) != 0)
                                    continue;
                                Sched s;
                                s.windows = w;
                                s.len = l;
                                s.variable = v;
                                s.makespan = m;
                                s.res.push_back({{0, 1, 2}, h, cap});
                                if (count % 3 == 1)
                                    s.res.push_back({{1, 2}, {h[1], h[2]}, 1 + Val(count / 3 % 5)});
                                else if (count % 3 == 2)
                                    s.res.push_back({{2, 0, 1}, {1, 2, 3}, 2 + Val(count / 3 % 4)});
                                if (count % 5 == 2)
                                    s.prec.push_back({0, 1});
                                if (count % 7 == 3)
                                    s.prec.push_back({2, 0});
                                ++n_sched;
                                all(s);
                            }
        const vector<vector<std::pair<Val, Val>>> win4{{{0, 3}, {0, 3}, {0, 3}, {0, 3}}, {{0, 2}, {1, 3}, {2, 4}, {0, 4}}, {{0, 1}, {0, 1}, {0, 2}, {1, 2}}};
        const vector<vector<Val>> len4{{1, 1, 1, 1}, {2, 1, 2, 1}, {2, 2, 2, 2}, {1, 3, 2, 1}};
        for (auto & w : win4)
            for (auto & l : len4)
                for (auto & h : needs4)
                    for (Val cap = 2; cap <= 8; ++cap)
                        for (int m = 0; m < 3; ++m) {
                            ++count;
                            if (count % (ctx.thorough ? 2 : 11) != 0)
                                continue;
                            Sched s;
                            s.windows = w;
                            s.len = l;
                            s.makespan = m;
                            s.res.push_back({{0, 1, 2, 3}, h, cap});
                            if (count % 3 == 1)
                                s.res.push_back({{3, 1, 0}, {1, 1, 1}, 1 + Val(count / 3 % 2)});
                            else if (count % 3 == 2)
                                s.res.push_back({{0, 2, 3}, {3, 2, 2}, 3 + Val(count / 3 % 3)});
                            if (count % 5 == 2)
                                s.prec.push_back({0, 3});
                            ++n_sched;
                            all(s);
                        }
        ctx.count("schedules", static_cast<long long>(n_sched) / static_cast<long long>(ctx.shards));
    }
    ctx.finish();
}
