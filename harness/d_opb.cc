// P13: the pseudo-Boolean model says what the problem says: an assignment to the
// bits of the problem's variables, in the domains or not, can be extended to the
// whole model exactly when it is a solution; the atoms of a variable mean what
// they are named for; the objective line has the objective's value; and the text
// does not depend on how the constraints are to be propagated.
#include "drv.hh"
#include "logged.hh"
#include "objs.hh"
#include "prob.hh"
#include <atomic>
#include <regex>
#include <unistd.h>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

#include <csetjmp>
#include <csignal>
namespace
{
    sigjmp_buf on_abort;
    struct Options
    {
        string name;
        std::function<void(ProofOptions &)> set;
    };
    auto options() -> const vector<Options> &
    {
        static const vector<Options> r = {
            {"", [](ProofOptions &) {}},
            {"compact", [](ProofOptions & o) { o.set_compact_boolean_encoding(); }},
            {"full", [](ProofOptions & o) { o.enable_full_encoding(); }},
            {"full,compact", [](ProofOptions & o) { o.enable_full_encoding().set_compact_boolean_encoding(); }},
        };
        return r;
    }
    // The identity of an instance with its consistency level, rules or proof strategy left out.
    auto neutral(const string & id) -> string
    {
        static const std::regex r("^((?:all_different|element|element_constant|global_cardinality|circuit|divide|modulus|multiply|plus|minus|power)/|element_2d/[kv])"
                                  "(bc|def|gac|vc|tab|bare|dom|prevent)");
        static const std::regex r2("^((?:cumulative|disjunctive)/r|bin_packing/m|knapsack/p)[0-9]+");
        auto s = std::regex_replace(id, r, "$1*");
        s = std::regex_replace(s, r2, "$1*");
        if (s.starts_with("linear/gac"))
            s = "linear/eq" + s.substr(10);
        return s;
    }
    auto stable_text(const string & opb) -> string
    {
        string r;
        size_t i = 0;
        while (i < opb.size()) {
            auto e = opb.find('\n', i);
            if (e == string::npos)
                e = opb.size();
            if (opb[i] != '*')
                r.append(opb, i, e - i + 1);
            i = e + 1;
        }
        return r;
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    string base = (ctx.scratch.empty() ? string("/tmp") : ctx.scratch) + "/opb" + to_string(getpid());
    bool survive = getenv("SURVIVE");
    if (survive)
        signal(SIGABRT, [](int) { siglongjmp(on_abort, 1); });
    if (ctx.limit_s < 60)
        ctx.limit_s = 60;
    auto fam = getenv("FAM");
    string keep = getenv("KEEP") ? getenv("KEEP") : "";
    auto clean = [&](const string & b) {
        for (string s : {".opb", ".pbp", ".varmap", ".scp"})
            unlink((b + s).c_str());
    };
    enum class Wrote
    {
        Yes,
        Rejected,
        Refused
    };
    // Writes a model, and returns its text.
    auto write = [&](const std::function<void(Problem &)> & build, const std::function<void(ProofOptions &)> & set, string & text) -> Wrote {
        Wrote r = Wrote::Yes;
        try {
            Problem p;
            build(p);
            ProofOptions o{base};
            set(o);
            std::atomic<bool> stop{true};
            solve_with(p, SolveCallbacks{}, o, &stop);
        }
        catch (const InvalidProblemDefinitionException &) {
            r = Wrote::Rejected;
        }
        catch (const UnimplementedException &) {
            r = Wrote::Refused;
        }
        if (r == Wrote::Yes)
            text = slurp(base + ".opb");
        if (r == Wrote::Yes && ! keep.empty())
            std::ofstream(keep + ".opb") << text;
        clean(base);
        return r;
    };

    struct Job
    {
        string id;
        std::function<void(Problem &)> build;
        vector<Vals> doms; // of v0, v1, ...
        std::function<bool(const Vals &)> ok;
        bool may_reject = false;
        size_t opt = 0;
        bool objective = false, maximise = false;
        std::function<Val(const Vals &)> value;
        bool count_terse = false;
    };
    auto examine = [&](const Job & j) -> string {
        string text;
        auto w = write(j.build, options()[j.opt].set, text);
        if (w == Wrote::Rejected) {
            ctx.count("rejected");
            return j.may_reject ? "" : "rejected";
        }
        if (w == Wrote::Refused) {
            ctx.count("refused");
            return "";
        }
        pb::Checker k;
        k.read_model(text);
        ctx.count("models");
        ctx.count("model_constraints", k.n_model);
        if (j.objective != k.has_objective)
            return j.objective ? "no objective line" : "unexpected objective line";
        if (! k.has_preserved)
            return "no preserved line";
        std::set<int> preserved(k.preserved.begin(), k.preserved.end());
        if (preserved.size() != k.preserved.size())
            return "a variable is preserved twice";
        vector<Bits> bits;
        vector<Vals> candidates;
        size_t total = 1, wide = 1;
        auto n = j.doms.size();
        size_t n_bits = 0;
        for (size_t i = 0; i < n; ++i) {
            bits.push_back(bits_of(k, "v" + to_string(i)));
            n_bits += bits[i].bits.size();
            for (auto & [_, v] : bits[i].bits)
                if (! preserved.contains(v))
                    return "bit " + k.names[v] + " is not preserved";
            for (auto d : j.doms[i])
                if (d < bits[i].lo() || d > bits[i].hi())
                    return "the bits of v" + to_string(i) + " cannot hold " + to_string(d);
        }
        auto sizes = [&](Val limit) {
            candidates.assign(n, {});
            wide = 1;
            for (size_t i = 0; i < n; ++i) {
                auto lo = bits[i].lo(), hi = bits[i].hi();
                if (hi - lo < limit)
                    for (auto v = lo; v <= hi; ++v)
                        candidates[i].push_back(v);
                else {
                    std::set<Val> c{lo, hi};
                    for (auto d : j.doms[i])
                        for (auto v : {d - 1, d, d + 1})
                            if (v >= lo && v <= hi)
                                c.insert(v);
                    candidates[i].assign(c.begin(), c.end());
                }
                wide *= candidates[i].size();
            }
            return wide;
        };
        bool whole = sizes(4096) <= 8192;
        if (! whole) {
            ctx.count("narrowed");
            if (sizes(1) > 100000) {
                ctx.count("too_wide");
                return "";
            }
        }
        total = wide;
        ctx.count("patterns", total);
        // the atoms of each variable
        struct Atom
        {
            int var;
            size_t of;
            bool ge;
            Val v;
        };
        vector<Atom> atoms;
        for (size_t a = 0; a < k.names.size(); ++a) {
            size_t i;
            char kind[3] = "";
            long long v;
            int used = 0;
            if (sscanf(k.names[a].c_str(), "i[v%zu][%2[a-z]%lld]%n", &i, kind, &v, &used) == 3 && size_t(used) == k.names[a].size() && i < n &&
                (string(kind) == "ge" || string(kind) == "eq"))
                atoms.push_back({int(a), i, kind[0] == 'g', v});
        }
        string bad;
        long long nodes = 0, found = 0;
        vector<size_t> ix(n, 0);
        Vals p(n);
        while (bad.empty()) {
            vector<int> lits;
            bool want = true;
            for (size_t i = 0; i < n; ++i) {
                p[i] = candidates[i][ix[i]];
                auto l = bits[i].literals(p[i]);
                lits.insert(lits.end(), l.begin(), l.end());
                want = want && std::binary_search(j.doms[i].begin(), j.doms[i].end(), p[i]);
            }
            want = want && j.ok(p);
            bool sat = k.satisfiable(lits, nodes);
            if (sat != want) {
                bad = string(sat ? "the model allows " : "the model excludes ") + str(p);
                break;
            }
            if (sat) {
                ++found;
                if (j.objective) {
                    pb::I v = 0;
                    for (auto & t : k.objective) {
                        auto b = k.found(t.lit);
                        if (b == -1)
                            bad = "the objective is left open at " + str(p);
                        v += b == 1 ? t.c : 0;
                    }
                    auto f = j.value(p) * (j.maximise ? -1 : 1);
                    if (bad.empty() && v != f)
                        bad = "the objective line gives " + to_string((long long)(v)) + " rather than " + to_string(f) + " at " + str(p);
                    for (auto & t : k.objective)
                        if (bad.empty()) {
                            auto more = lits;
                            more.push_back(t.lit ^ (k.found(t.lit) == 1 ? 1 : 0));
                            // the loop variable's last model is overwritten only when satisfiable
                            if (k.satisfiable(more, nodes))
                                bad = "the objective is not determined at " + str(p);
                            ctx.count("objective_tests");
                        }
                }
                for (auto & a : atoms)
                    if (bad.empty()) {
                        bool holds = a.ge ? p[a.of] >= a.v : p[a.of] == a.v;
                        auto more = lits;
                        more.push_back(2 * a.var + (holds ? 1 : 0));
                        ctx.count("atom_tests");
                        if (k.satisfiable(more, nodes))
                            bad = "atom " + k.names[a.var] + " may be " + (holds ? "false" : "true") + " at " + str(p);
                    }
            }
            size_t i = 0;
            for (; i < n && ++ix[i] == candidates[i].size(); ++i)
                ix[i] = 0;
            if (i == n)
                break;
        }
        ctx.count("nodes", nodes);
        ctx.count("solutions", found);
        if (bad.empty() && found && k.n_model > 20)
            ctx.sample(j.id + ": " + to_string(total) + " patterns, " + to_string(found) + " solutions, " + to_string(k.n_model) + " model constraints");
        // The same model with terse names: the same number of projected solutions.
        if (bad.empty() && j.count_terse && whole && n_bits == preserved.size() && n_bits <= 10) {
            string t2;
            if (write(j.build, [&](ProofOptions & o) { options()[j.opt].set(o); o.set_verbose_names(false); }, t2) != Wrote::Yes)
                return "terse names change what is accepted";
            pb::Checker q;
            q.read_model(t2);
            if (q.preserved.size() != n_bits)
                return "terse names change the preserved variables";
            long long f2 = 0;
            for (unsigned m = 0; m < (1u << n_bits); ++m) {
                vector<int> lits;
                for (size_t b = 0; b < n_bits; ++b)
                    lits.push_back(2 * q.preserved[b] + ((m >> b) & 1 ? 0 : 1));
                f2 += q.satisfiable(lits, nodes);
            }
            ctx.count("terse_models");
            ctx.count("patterns", 1ll << n_bits);
            if (f2 != found)
                bad = "with terse names the model has " + to_string(f2) + " projected solutions rather than " + to_string(found);
        }
        return bad;
    };
    auto run = [&](Job & j) {
        if (ctx.enough() || (fam && j.id.find(fam) == string::npos) || ! ctx.begin(j.id))
            return;
        string bad;
        if (survive && sigsetjmp(on_abort, 1)) {
            ctx.fail(j.id, "aborted");
            return;
        }
        for (auto & d : j.doms)
            std::sort(d.begin(), d.end());
        try {
            bad = examine(j);
        }
        catch (const std::exception & e) {
            bad = string("exception: ") + e.what();
        }
        if (! bad.empty())
            ctx.fail(j.id, bad);
    };
    auto huge = [](const Inst & i) {
        // A table over a huge range makes the logger write out the range.
        if (i.fam.ends_with("table"))
            for (auto & d : i.doms)
                if (! d.empty() && d.back() - d.front() > 5000)
                    return true;
        return false;
    };

    if (ctx.mode == "single") {
        for (int size : {0, 1}) {
            size_t at = 0;
            auto stride = getenv("STRIDE") ? size_t(atoi(getenv("STRIDE"))) : 24;
            for (auto & f : families())
                f.gen(
                    [&](Inst && i) {
                        ++at;
                        if ((size == 1 && ! ctx.thorough && at % stride != 7) || huge(i))
                            return;
                        auto ip = std::make_shared<Inst>(std::move(i));
                        Job j;
                        j.id = ip->id;
                        j.build = [ip](Problem & p) {
                            auto x = make_vars(p, ip->doms);
                            ip->post(p, x);
                        };
                        j.doms = ip->doms;
                        j.ok = ip->ok;
                        j.may_reject = ip->flags & MayReject;
                        j.opt = at % 3 == 0 ? at / 3 % options().size() : 0;
                        j.count_terse = at % 5 == 2;
                        if (j.opt)
                            j.id += ";" + options()[j.opt].name;
                        run(j);
                    },
                    size);
        }
    }
    else if (ctx.mode == "opt") {
        auto objs = objectives();
        size_t at = 0;
        auto with = [&](const Case & c) {
            for (auto & o : objs)
                for (bool mx : {false, true}) {
                    ++at;
                    auto cp = std::make_shared<Case>(c);
                    Job j;
                    j.id = c.id() + (mx ? ">max " : ">min ") + o.name;
                    j.build = [cp, &o, mx](Problem & p) {
                        auto x = cp->build(p);
                        auto z = o.make(p, x);
                        mx ? p.maximise(z) : p.minimise(z);
                    };
                    j.doms = c.t->pal->doms;
                    auto t = c.t;
                    auto es = c.es;
                    j.ok = [t, es](const Vals & v) {
                        for (auto e : es)
                            if (! t->pal->entries[e].ok(v))
                                return false;
                        return true;
                    };
                    j.value = o.value;
                    j.objective = true;
                    j.maximise = mx;
                    j.opt = at % 3 == 0 ? at / 3 % options().size() : 0;
                    if (j.opt)
                        j.id += ";" + options()[j.opt].name;
                    run(j);
                }
        };
        each_subset(0, with);
        each_subset(1, with);
        each_subset(2, [&](const Case & c) {
            if (ctx.thorough || (c.es[0] * 7 + c.es[1]) % 11 == 3)
                with(c);
        });
    }
    else if (ctx.mode == "rules") {
        auto at_rules = [&](const string & key, const vector<Inst> & v) {
            if (v.size() < 2 || ctx.enough() || (fam && key.find(fam) == string::npos) || ! ctx.begin("rules:" + key))
                return;
            string first, first_id, bad;
            size_t n = 0;
            for (auto & i : v) {
                string text;
                Wrote w = Wrote::Refused;
                try {
                    w = write([&](Problem & p) {
                        auto x = make_vars(p, i.doms);
                        i.post(p, x);
                    }, options()[0].set, text);
                }
                catch (const std::exception & e) {
                    bad = i.id + ": exception: " + e.what();
                    break;
                }
                if (w != Wrote::Yes)
                    continue;
                ++n;
                text = stable_text(text);
                if (first_id.empty()) {
                    first = text;
                    first_id = i.id;
                }
                else if (text != first) {
                    bad = "the models of " + first_id + " and " + i.id + " differ";
                    break;
                }
            }
            ctx.count("rule_sets");
            ctx.count("models_compared", n);
            if (! bad.empty())
                ctx.fail("rules:" + key, bad);
        };
        for (int size : {0, 1})
            for (auto & f : families()) {
                std::map<string, vector<Inst>> groups;
                f.gen(
                    [&](Inst && i) {
                        auto key = neutral(i.id);
                        if ((key == i.id && ! i.id.starts_with("linear/eq")) || (size == 1 && ! ctx.thorough && std::hash<string>{}(key) % 24 != 5))
                            return;
                        if (! ctx.only.empty() && "rules:" + key != ctx.only)
                            return;
                        groups[key].push_back(std::move(i));
                    },
                    size);
                for (auto & [key, v] : groups)
                    at_rules(key, v);
            }
    }
    ctx.finish();
}
