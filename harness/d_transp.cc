// P16: solving is repeatable, and neither proof logging nor observers change it.
#include "drv.hh"
#include "logged.hh"
#include "objs.hh"
#include "prob.hh"
#include "strat.hh"
#include <unistd.h>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

#include <csetjmp>
#include <csignal>
namespace
{
    sigjmp_buf on_abort;
    struct Run
    {
        string log; // what was reported, in order
        string refused;
        string solutions; // only the solutions
        string files;
        size_t n = 0;
    };
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    string base = (ctx.scratch.empty() ? string("/tmp") : ctx.scratch) + "/transp" + to_string(getpid());
    bool survive = getenv("SURVIVE");
    if (survive)
        signal(SIGABRT, [](int) { siglongjmp(on_abort, 1); });
    if (ctx.limit_s < 60)
        ctx.limit_s = 60;
    auto fam = getenv("FAM");
    struct Job
    {
        string id;
        std::function<Vars(Problem &)> build;
        std::function<void(Problem &, const Vars &)> objective;
        size_t strat = 0;
        int restarts = 0;
        bool first = false;
    };
    auto stats_text = [](const Stats & s) {
        string r = "rec " + to_string(s.recursions) + " fail " + to_string(s.failures) + " prop " + to_string(s.propagations) + " eff " + to_string(s.effectful_propagations) +
            " contra " + to_string(s.contradicting_propagations) + " sol " + to_string(s.solutions) + " depth " + to_string(s.max_depth) + " rest " + to_string(s.restarts) +
            " nog " + to_string(s.learned_nogoods) + " n " + to_string(s.n_propagators) + " idem " + to_string(s.idempotence_downgrades);
        for (auto & c : s.components())
            for (auto & e : c->entries())
                r += " " + c->component_name() + "." + e.name + "=" + to_string(e.value);
        return r;
    };
    auto go = [&](const Job & j, bool proof, bool watch, const std::function<void(ProofOptions &)> & set) {
        Run r;
        std::optional<ProofOptions> o;
        if (proof) {
            o.emplace(base);
            if (set)
                set(*o);
        }
        string traced;
        try {
            Problem p;
            auto x = j.build(p);
            if (j.objective)
                j.objective(p, x);
            SolveCallbacks cb;
            cb.branch = strategy(j.strat, p, x);
            if (j.restarts)
                cb.restarts = RestartSchedule::luby(j.restarts);
            cb.solution = [&](const CurrentState & s) {
                r.log += str(read(s, x));
                ++r.n;
                return ! j.first;
            };
            if (watch) {
                cb.trace = [&](const CurrentState & s) {
                    for (auto & v : x)
                        traced += to_string(s.domain_size(v).raw_value) + " ";
                    return true;
                };
                cb.after_proof_started = [&](const CurrentState & s) {
                    for (auto & v : x)
                        traced += to_string(s.lower_bound(v).raw_value) + " ";
                };
                cb.completed = [&] { traced += "done"; };
            }
            cb.stats_report = [](const StatsNote &) {};
            auto st = solve_with(p, cb, o);
            r.solutions = r.log;
            r.log += " | " + stats_text(st);
            ctx.count("search_nodes", st.recursions);
        }
        catch (const InvalidProblemDefinitionException & e) {
            r.log = r.solutions = "rejected";
        }
        catch (const UnimplementedException & e) {
            r.refused = "unimplemented";
        }
        catch (const std::exception & e) {
            r.log = r.solutions = string("exception ") + e.what();
        }
        ctx.count("runs");
        if (proof) {
            if (r.refused.empty() && r.log != "rejected")
                for (string s : {".opb", ".pbp", ".scp", ".varmap"})
                    if (access((base + s).c_str(), R_OK) == 0)
                        r.files += s + "\n" + slurp(base + s);
            ctx.count("proof_bytes", r.files.size());
            for (string s : {".opb", ".pbp", ".varmap", ".scp"})
                unlink((base + s).c_str());
        }
        if (watch)
            r.files += traced;
        return r;
    };
    vector<std::unique_ptr<char[]>> junk;
    size_t n_run = 0;
    auto differ = [](const string & a, const string & b) {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            ++i;
        auto from = i > 60 ? i - 60 : 0;
        return "`" + a.substr(from, 160) + "' and `" + b.substr(from, 160) + "'";
    };
    auto run = [&](const Job & j) {
        if (ctx.enough() || (fam && j.id.find(fam) == string::npos) || ! ctx.begin(j.id))
            return;
        if (survive && sigsetjmp(on_abort, 1)) {
            ctx.fail(j.id, "aborted");
            return;
        }
        ++n_run;
        string bad;
        try {
            auto a = go(j, false, false, {});
            // Move the heap about, so that nothing can depend on addresses.
            for (size_t i = 0; i < 40; ++i)
                junk.push_back(std::make_unique<char[]>(16 + (n_run * 37 + i * 53) % 400));
            for (size_t i = n_run % 3; i < junk.size(); i += 3)
                junk[i].reset();
            auto b = go(j, false, n_run % 2, {});
            if (a.log != b.log)
                bad = string("two runs differ") + (n_run % 2 ? " (the second with observers)" : "") + ": " + differ(a.log, b.log);
            if (bad.empty()) {
                auto c = go(j, true, n_run % 3 == 0, {});
                if (c.refused.empty() && a.refused.empty() && a.log != c.log)
                    bad = "logging changes the search: " + differ(a.log, c.log);
                if (bad.empty() && c.refused.empty()) {
                    if (n_run % 2)
                        junk.clear();
                    auto d = go(j, true, n_run % 3 == 0, {});
                    if (c.log != d.log)
                        bad = "two logged runs differ: " + differ(c.log, d.log);
                    else if (c.files != d.files)
                        bad = "two runs write different files: " + differ(c.files, d.files);
                    auto e = go(j, true, false, [&](ProofOptions & o) {
                        if (n_run % 4 < 2)
                            o.set_verbose_names(false);
                        if (n_run % 4 > 0)
                            o.enable_full_encoding();
                        if (n_run % 3)
                            o.set_compact_boolean_encoding();
                    });
                    if (bad.empty() && e.log != c.log)
                        bad = "the logging options change the search: " + differ(c.log, e.log);
                    auto f = go(j, true, false, [&](ProofOptions & o) { o.set_assertion_level(AssertionLevel(1 + n_run % 4)); });
                    if (bad.empty() && f.log != c.log)
                        bad = "the assertion level changes the search: " + differ(c.log, f.log);
                    if (bad.empty() && a.n > 3)
                        ctx.sample(j.id + " -> " + a.log.substr(a.log.find('|')));
                }
                else
                    ctx.count("proof_refused");
            }
            if (junk.size() > 4000)
                junk.clear();
        }
        catch (const std::exception & e) {
            bad = string("exception: ") + e.what();
        }
        ctx.count("cases");
        if (! bad.empty())
            ctx.fail(j.id, bad);
    };
    auto ns = strategy_count();
    auto name = [&](Job & j) {
        j.id += "@" + strategy_name(j.strat) + (j.restarts ? "/r" + to_string(j.restarts) : "") + (j.first ? ";first" : "");
    };
    if (ctx.mode == "single") {
        for (int size : {0, 1}) {
            size_t at = 0;
            auto stride = getenv("STRIDE") ? size_t(atoi(getenv("STRIDE"))) : size == 0 ? 1 : 97;
            for (auto & f : families())
                f.gen(
                    [&](Inst && i) {
                        ++at;
                        if (at % (ctx.thorough ? (size ? 16 : 1) : stride) != 0)
                            return;
                        if (f.name.ends_with("table"))
                            for (auto & d : i.doms)
                                if (! d.empty() && d.back() - d.front() > 5000)
                                    return;
                        auto ip = std::make_shared<Inst>(std::move(i));
                        Job j;
                        j.id = ip->id;
                        j.build = [ip](Problem & p) {
                            auto x = make_vars(p, ip->doms);
                            ip->post(p, x);
                            return x;
                        };
                        j.strat = at / stride % 3 == 1 || ip->doms.empty() ? 0 : (at * 29) % ns;
                        name(j);
                        run(j);
                    },
                    size);
        }
    }
    else if (ctx.mode == "compose" || ctx.mode == "opt") {
        bool opt = ctx.mode == "opt";
        auto objs = objectives();
        size_t at = 0;
        auto with = [&](const Case & c, size_t o, bool mx, size_t k, int restarts) {
            auto cp = std::make_shared<Case>(c);
            Job j;
            j.id = c.id();
            j.build = [cp](Problem & p) { return cp->build(p); };
            if (opt) {
                j.id += (mx ? ">max " : ">min ") + objs[o].name;
                j.objective = [o, mx, &objs](Problem & p, const Vars & x) {
                    auto z = objs[o].make(p, x);
                    mx ? p.maximise(z) : p.minimise(z);
                };
            }
            else if (restarts || mx)
                j.first = true;
            j.restarts = restarts;
            j.strat = k;
            name(j);
            run(j);
        };
        each_subset(1, [&](Case c) {
            for (size_t o = 0; o < (opt ? objs.size() : 4); ++o)
                for (bool mx : {false, true})
                    for (int r = 0; r < 2; ++r) {
                        ++at;
                        with(c, o, mx, at % 3 ? (at * 31) % ns : 0, r * 2);
                    }
        });
        each_subset(2, [&](Case c) {
            for (size_t o = 0; o < (opt ? objs.size() : 2); ++o)
                for (bool mx : {false, true}) {
                    ++at;
                    if (! ctx.thorough && at % (opt ? 19 : 4) != 1)
                        continue;
                    with(c, o, mx, at % 3 == 0 ? 0 : (at * 17) % ns, int(at % 4));
                }
        });
        each_subset(3, [&](Case c) {
            ++at;
            if (at % (ctx.thorough ? 5 : 31) == 3)
                with(c, at % objs.size(), (at / 15) % 2, (at * 17) % ns, int(at % 3));
        });
    }
    ctx.finish();
}
