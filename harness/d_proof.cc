// P12: every proof written is accepted, step by step, by the checker in pb.cc,
// and says what the solver reported, which is what is true.
#include "drv.hh"
#include "logged.hh"
#include "objs.hh"
#include "prob.hh"
#include "strat.hh"
#include <unistd.h>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

#include <csetjmp>
#include <csignal>
namespace
{
    // The instances of the listed findings, which are always run plainly.
    auto known() -> const std::set<string> &
    {
        static const std::set<string> r = {"table/w(1,0)(*,0)(1,1)/[{0,1} {0,1}]", "regular_regex/(2){0,2}/[{0,1,2}]",
            "cumulative/r20({2}{1})({2}{1}){1}/[{0,1,2} {0,1,2}]", "global_cardinality_repeat/bc/[{0,1} {0,1} {0,1,2} {0,1,2}]",
            "global_cardinality_repeat/gac/[{0,1} {0,1} {0,1,2} {0,1,2}]"};
        return r;
    }
    // Two encodings leave auxiliary variables open at some solutions, which is
    // a listed finding at one instance of each; elsewhere in the same class an
    // extension is searched for instead.
    auto overlapping_rows(const string & id) -> bool
    {
        if (! id.starts_with("table/w(") && ! id.starts_with("table/sw("))
            return false;
        vector<vector<string>> rows;
        for (auto i = id.find('('); i < id.size() && id[i] == '(';) {
            auto e = id.find(')', i);
            vector<string> row{""};
            for (auto c : id.substr(i + 1, e - i - 1))
                if (c == ',')
                    row.emplace_back();
                else
                    row.back() += c;
            rows.push_back(row);
            i = e + 1;
        }
        for (size_t a = 0; a < rows.size(); ++a)
            for (size_t b = 0; b < a; ++b) {
                bool meet = rows[a].size() == rows[b].size();
                for (size_t k = 0; meet && k < rows[a].size(); ++k)
                    meet = rows[a][k] == rows[b][k] || rows[a][k] == "*" || rows[b][k] == "*";
                if (meet)
                    return true;
            }
        return false;
    }
    auto may_extend(const string & id) -> bool
    {
        return ! known().contains(id) && (overlapping_rows(id) || id.starts_with("regular_regex/"));
    }
    sigjmp_buf on_abort;
    struct Options
    {
        string name;
        std::function<void(ProofOptions &)> set;
    };
    auto options() -> const vector<Options> &
    {
        static const vector<Options> r = {
            {"", [](ProofOptions &) {}},
            {"compact", [](ProofOptions & o) { o.set_compact_boolean_encoding(); }},
            {"full", [](ProofOptions & o) { o.enable_full_encoding(); }},
            {"terse", [](ProofOptions & o) { o.set_verbose_names(false); }},
            {"terse,full,compact", [](ProofOptions & o) { o.set_verbose_names(false).enable_full_encoding().set_compact_boolean_encoding(); }},
        };
        return r;
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    string base = (ctx.scratch.empty() ? string("/tmp") : ctx.scratch) + "/proof" + to_string(getpid());
    bool survive = getenv("SURVIVE");
    if (survive)
        signal(SIGABRT, [](int) { siglongjmp(on_abort, 1); });
    if (ctx.limit_s < 60)
        ctx.limit_s = 60;
    auto fam = getenv("FAM");
    string keep = getenv("KEEP") ? getenv("KEEP") : "";

    // post: fills in the problem and returns the variables whose values are the solution.
    // kind: 0 enumerate, 1 first solution only, 2 minimise, 3 maximise
    struct Job
    {
        string id;
        std::function<Vars(Problem &)> build;
        std::function<vector<Vals>()> want;
        bool may_reject = false;
        int kind = 0;
        std::function<IntegerVariableID(Problem &, const Vars &)> objective;
        std::function<Val(const Vals &)> value;
        std::function<void(Problem &, SolveCallbacks &)> tune;
        size_t opt = 0;
    };
    auto run = [&](const Job & j) {
        if (ctx.enough() || (fam && j.id.find(fam) == string::npos) || ! ctx.begin(j.id))
            return;
        string bad;
        vector<Vals> got;
        bool rejected = false, stopped = false;
        Stats stats;
        vector<string> names;
        if (survive && sigsetjmp(on_abort, 1)) {
            ctx.fail(j.id, "aborted");
            return;
        }
        try {
            Problem p;
            auto x = j.build(p);
            SolveCallbacks cb;
            IntegerVariableID z = ConstantIntegerVariableID{Integer{0}};
            if (j.kind >= 2) {
                z = j.objective(p, x);
                j.kind == 2 ? p.minimise(z) : p.maximise(z);
            }
            cb.solution = [&](const CurrentState & s) {
                got.push_back(read(s, x));
                if (j.kind == 1)
                    stopped = true;
                return j.kind != 1;
            };
            if (j.tune)
                j.tune(p, cb);
            ProofOptions o{base};
            options()[j.opt].set(o);
            stats = solve_with(p, cb, o);
        }
        catch (const InvalidProblemDefinitionException & e) {
            rejected = true;
            if (! j.may_reject)
                bad = string("rejected: ") + e.what();
        }
        catch (const UnimplementedException &) {
            // An honest refusal: no proof is claimed.
            rejected = true;
            ctx.count("unimplemented");
            ctx.count("unimplemented:" + j.id.substr(0, j.id.find('/')));
        }
        catch (const std::exception & e) {
            rejected = true;
            bad = string("exception: ") + e.what();
        }
        if (! rejected)
            try {
                auto want = j.want();
                std::sort(want.begin(), want.end());
                pb::Checker k;
                auto opb = slurp(base + ".opb");
                k.read_model(opb);
                k.extend_solutions = may_extend(j.id);
                pb::Outcome out;
                try {
                    out = k.check_proof(slurp(base + ".pbp"));
                }
                catch (const pb::Error & e) {
                    bad = string("proof not accepted: ") + e.what();
                }
                catch (const std::exception & e) {
                    bad = string("proof not accepted: ") + e.what();
                }
                if (bad.empty()) {
                    string expect;
                    for (auto & g : got)
                        if (! std::binary_search(want.begin(), want.end(), g))
                            bad = "reported non-solution " + str(g);
                    if (j.kind == 0) {
                        if (want.empty())
                            expect = "UNSAT";
                        else
                            expect = "ENUMERATION_COMPLETE " + to_string(want.size());
                    }
                    else if (j.kind == 1)
                        expect = want.empty() ? "UNSAT" : "SAT";
                    else if (want.empty())
                        expect = "BOUNDS INF INF";
                    else {
                        Val best = 0;
                        bool first = true;
                        for (auto & w : want) {
                            auto v = j.value(w) * (j.kind == 3 ? -1 : 1);
                            if (first || v < best)
                                best = v;
                            first = false;
                        }
                        expect = "BOUNDS " + to_string(best) + " " + to_string(best);
                    }
                    if (auto c = out.conclusion.find(" :"); c != string::npos)
                        out.conclusion.resize(c);
                    if (bad.empty() && out.conclusion != expect)
                        bad = "concludes `" + out.conclusion + "', expected `" + expect + "'";
                    if (bad.empty() && (long long)(got.size()) != (j.kind >= 2 ? out.soli : out.solx))
                        bad = "logs " + to_string(j.kind >= 2 ? out.soli : out.solx) + " solutions, " + to_string(got.size()) + " reported";
                }
                ctx.count("proofs");
                ctx.count("solutions_completed_by_search", out.extended);
                if (out.extended && getenv("SHOWEXT"))
                    fprintf(stdout, "EXT %s\n", j.id.c_str());
                ctx.count("restarts", stats.restarts);
                ctx.count("model_constraints", k.n_model);
                ctx.count("steps", out.steps);
                ctx.count("rup", out.rups);
                ctx.count("pol", out.pols);
                ctx.count("red", out.reds);
                ctx.count("subproofs", out.subproofs);
                ctx.count("goals", out.goals);
                ctx.count("propagations", out.propagations);
                ctx.count("solutions", got.size());
                if (bad.empty() && out.steps > 60)
                    ctx.sample(j.id + " -> " + out.conclusion + ", " + to_string(out.steps) + " steps");
            }
            catch (const std::exception & e) {
                bad = string("exception: ") + e.what();
            }
        ctx.count("rejected", rejected);
        if (! bad.empty()) {
            ctx.fail(j.id, bad);
            if (! keep.empty())
                for (string s : {".opb", ".pbp", ".scp"})
                    std::ofstream(keep + s) << slurp(base + s);
        }
        for (string s : {".opb", ".pbp", ".varmap", ".scp"})
            unlink((base + s).c_str());
    };

    // Sizes: everything small in full; the larger instances in full when
    // thorough, and otherwise every strideth.
    auto tune_with = [&](Job & j, const std::shared_ptr<Vars> & xs, size_t k, int restarts) {
        j.id += "@" + strategy_name(k) + (restarts ? "/r" + to_string(restarts) : "");
        j.tune = [k, restarts, xs](Problem & p, SolveCallbacks & cb) {
            cb.branch = strategy(k, p, *xs);
            if (restarts)
                cb.restarts = RestartSchedule::luby(restarts);
        };
    };
    auto ns = strategy_count();
    if (ctx.mode == "single") {
        for (int size : {0, 1}) {
            size_t at = 0;
            auto stride = getenv("STRIDE") ? size_t(atoi(getenv("STRIDE"))) : 16;
            for (auto & f : families()) {
                auto job = [&](Inst && i) {
                    ++at;
                    bool plain = known().contains(i.id);
                    if (plain ? size == 0 : size == 1 && ! ctx.thorough && at % stride != 5)
                        return;
                    // A table over a huge range makes the logger write out the range.
                    if (f.name.ends_with("table"))
                        for (auto & d : i.doms)
                            if (! d.empty() && d.back() - d.front() > 5000)
                                return;
                    auto ip = std::make_shared<Inst>(std::move(i));
                    auto xs = std::make_shared<Vars>();
                    Job j;
                    j.id = ip->id;
                    j.build = [ip, xs](Problem & p) {
                        *xs = make_vars(p, ip->doms);
                        ip->post(p, *xs);
                        return *xs;
                    };
                    j.want = [ip] {
                        auto s = all_solutions(*ip);
                        return vector<Vals>(s.begin(), s.end());
                    };
                    j.may_reject = ip->flags & MayReject;
                    j.opt = ! plain && at % 3 == 0 ? (at / 3) % options().size() : 0;
                    if (j.opt)
                        j.id += ";" + options()[j.opt].name;
                    if (! plain && at % 7 == 3) {
                        j.kind = 1;
                        j.id += ";first";
                    }
                    if (! plain && at % 4 == 1 && ! ip->doms.empty())
                        tune_with(j, xs, (at / 4 * 29) % ns, 0);
                    run(j);
                };
                f.gen(job, size);
            }
        }
    }
    else if (ctx.mode == "compose" || ctx.mode == "opt") {
        bool opt = ctx.mode == "opt";
        auto objs = objectives();
        size_t at = 0;
        auto with = [&](const Case & c, size_t o, bool mx, size_t k, int restarts, size_t options_ix, bool first) {
            auto cp = std::make_shared<Case>(c);
            auto xs = std::make_shared<Vars>();
            Job j;
            j.id = c.id();
            j.build = [cp, xs](Problem & p) { return *xs = cp->build(p); };
            j.want = [cp] { return cp->solutions(); };
            if (opt) {
                j.id += (mx ? ">max " : ">min ") + objs[o].name;
                j.kind = mx ? 3 : 2;
                j.objective = objs[o].make;
                j.value = objs[o].value;
            }
            else if (first) {
                j.id += ";first";
                j.kind = 1;
            }
            tune_with(j, xs, k, opt || first ? restarts : 0);
            j.opt = options_ix;
            if (j.opt)
                j.id += ";" + options()[j.opt].name;
            run(j);
        };
        each_subset(1, [&](Case c) {
            for (size_t o = 0; o < (opt ? objs.size() : 4); ++o)
                for (bool mx : {false, true})
                    for (int r = 0; r < 3; ++r) {
                        ++at;
                        for (size_t j = 0; j < (ctx.thorough ? 5 : 1); ++j)
                            with(c, o, mx, j == 0 && at % 3 ? 0 : (at * 31 + j * 47) % ns, r, at % 5, at % 2);
                    }
        });
        each_subset(2, [&](Case c) {
            for (size_t o = 0; o < (opt ? objs.size() : 2); ++o)
                for (bool mx : {false, true}) {
                    ++at;
                    if (! ctx.thorough && opt && at % 9 != 4)
                        continue;
                    with(c, o, mx, at % 3 == 0 ? 0 : (at * 17) % ns, int(at % 4), at % 7 < 5 ? at % 7 : 0, at % 5 == 1);
                }
        });
        each_subset(3, [&](Case c) {
            ++at;
            if (ctx.thorough ? at % 3 != 1 : at % 11 != 3)
                return;
            with(c, at % objs.size(), (at / 15) % 2, (at * 17) % ns, int(at % 3), 0, at % 5 == 1);
        });
    }
    ctx.finish();
}
