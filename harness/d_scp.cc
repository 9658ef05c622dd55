// P15: the written problem file reads back as the same problem, and text that is
// not a problem file is rejected rather than misread.
#include "drv.hh"
#include "logged.hh"
#include "objs.hh"
#include "prob.hh"
#include <atomic>
#include <gcs/innards/proofs/proof_model.hh>
#include <gcs/innards/proofs/scp_writer.hh>
#include <gcs/innards/s_expr.hh>
#include <gcs/innards/state.hh>
#include <gcs/scp_reader.hh>
#include <regex>
#include <unistd.h>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

#include <csetjmp>
#include <csignal>
namespace
{
    sigjmp_buf on_abort;
    // What the documentation says cannot be read back: views as operands, and
    // automata that are not deterministic.
    auto documented_refusal(const string & fam, const string & text, const string & why) -> bool
    {
        static const std::regex view(R"(\((-v[0-9]+|v[0-9]+ \+ -?[0-9]+|-v[0-9]+ \+ -?[0-9]+)\))");
        if (std::regex_search(text, view))
            return true;
        (void) fam;
        return why.find("deterministic") != string::npos;
    }
    auto tokens(const string & s) -> vector<string>
    {
        vector<string> r;
        string w;
        for (char c : s + " ")
            if (c == '(' || c == ')' || isspace((unsigned char) c)) {
                if (! w.empty())
                    r.push_back(w);
                w.clear();
                if (c == '(' || c == ')')
                    r.push_back(string(1, c));
            }
            else
                w += c;
        return r;
    }
    struct Tree
    {
        string atom;
        vector<Tree> kids;
        bool list = false;
        auto operator==(const Tree &) const -> bool = default;
    };
    auto tree(const vector<string> & t, size_t & i) -> Tree
    {
        Tree r;
        if (t.at(i) != "(") {
            r.atom = t[i++];
            return r;
        }
        r.list = true;
        for (++i; t.at(i) != ")";)
            r.kids.push_back(tree(t, i));
        ++i;
        return r;
    }
    auto show(const Tree & t) -> string
    {
        if (! t.list)
            return t.atom;
        string r = "(";
        for (auto & k : t.kids)
            r += (r.size() > 1 ? " " : "") + show(k);
        return r + ")";
    }
    auto number(const Tree & t) -> std::optional<long long>
    {
        static const std::regex digits("-?[0-9]{1,19}");
        if (t.list || ! std::regex_match(t.atom, digits))
            return std::nullopt;
        try {
            return std::stoll(t.atom);
        }
        catch (const std::out_of_range &) {
            return std::nullopt;
        }
    }
    auto leaf(const string & s) -> Tree { return Tree{s, {}, false}; }
    auto list(vector<Tree> k) -> Tree { return Tree{"", std::move(k), true}; }
    // A literal over constants is its truth value.
    auto literal(Tree & t) -> void
    {
        std::optional<bool> truth;
        if (auto n = number(t); n && (*n == 0 || *n == 1))
            truth = *n;
        else if (t.list && t.kids.size() == 3 && ! t.kids[1].list)
            if (auto a = number(t.kids[0]), b = number(t.kids[2]); a && b) {
                auto & op = t.kids[1].atom;
                if (op == "=")
                    truth = *a == *b;
                else if (op == "!=")
                    truth = *a != *b;
                else if (op == "<")
                    truth = *a < *b;
                else if (op == ">=")
                    truth = *a >= *b;
                else if (op == ">")
                    truth = *a > *b;
                else if (op == "<=")
                    truth = *a <= *b;
            }
        if (truth)
            t = list({leaf(*truth ? "1" : "0"), leaf(">="), leaf("1")});
    }
    auto by_number(Tree & t, size_t key) -> void
    {
        std::stable_sort(t.kids.begin(), t.kids.end(), [&](const Tree & a, const Tree & b) {
            auto x = key ? number(a.kids.at(key - 1)) : number(a), y = key ? number(b.kids.at(key - 1)) : number(b);
            return x.value_or(0) < y.value_or(0);
        });
    }
    auto edges_sorted(Tree & node, bool drop) -> void
    {
        for (auto & e : node.kids)
            if (e.kids.size() != 2)
                return;
        if (drop)
            std::erase_if(node.kids, [](const Tree & e) { return number(e.kids[1]) == -1; });
        by_number(node, 1);
    }
    // The ways in which the same constraint can be spelled: the order of what is
    // a set, and constants in place of literals and operands.
    auto normalised(Tree c) -> Tree
    {
        auto & k = c.kids;
        if (k.size() < 3 || k[1].list)
            return c;
        auto & op = k[1].atom;
        if (op == "regular" && k.size() == 6)
            for (auto & node : k[4].kids)
                edges_sorted(node, true);
        else if (op == "mdd" && k.size() == 6)
            for (auto & layer : k[4].kids)
                for (auto & node : layer.kids)
                    edges_sorted(node, false);
        else if (op == "among" && k.size() >= 4 && k[3].list) {
            by_number(k[3], 0);
            k[3].kids.erase(std::unique(k[3].kids.begin(), k[3].kids.end()), k[3].kids.end());
        }
        else if (op.find("globalcardinality") != string::npos && k.size() >= 5 && k[3].list && k[4].list && k[3].kids.size() == k[4].kids.size()) {
            vector<Tree> pairs;
            for (size_t i = 0; i < k[3].kids.size(); ++i)
                pairs.push_back(list({k[3].kids[i], k[4].kids[i]}));
            auto all = list(pairs);
            by_number(all, 1);
            for (size_t i = 0; i < pairs.size(); ++i) {
                k[3].kids[i] = all.kids[i].kids[0];
                k[4].kids[i] = all.kids[i].kids[1];
            }
        }
        else if ((op.starts_with("and") || op.starts_with("or") || op.starts_with("parity"))) {
            for (size_t i = 2; i < k.size(); ++i)
                if (i == 2)
                    for (auto & l : k[i].kids)
                        literal(l);
                else
                    literal(k[i]);
        }
        else if (op == "multiply" && k.size() == 5 && bool(number(k[2])) != bool(number(k[3]))) {
            auto coeff = k[2], var = k[3];
            if (! number(coeff))
                std::swap(coeff, var);
            return list({k[0], leaf("lin_equals"), list({coeff, var, leaf("-1"), k[4]}), leaf("0")});
        }
        return c;
    }
    auto normalised_file(const string & text) -> string
    {
        auto t = tokens(text);
        size_t i = 0;
        auto f = tree(t, i);
        for (auto & part : f.kids) {
            if (part.kids.empty())
                continue;
            if (part.kids[0].atom == "constraints")
                for (size_t c = 1; c < part.kids.size(); ++c)
                    part.kids[c] = normalised(part.kids[c]);
            else if (part.kids[0].atom == "prob_type" && part.kids.size() == 2) {
                auto & g = part.kids[1];
                if (g.atom == "decide")
                    g.atom = "enumerate";
                else if (g.kids.size() == 2 && g.kids[0].atom == "maximize")
                    if (auto n = number(g.kids[1]); n && *n != std::numeric_limits<long long>::min())
                        g = list({leaf("minimize"), leaf(to_string(-*n))});
            }
        }
        return show(f);
    }
    auto join(const vector<string> & t) -> string
    {
        string r;
        for (auto & x : t)
            r += (r.empty() ? "" : " ") + x;
        return r;
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    string base = (ctx.scratch.empty() ? string("/tmp") : ctx.scratch) + "/scp" + to_string(getpid());
    bool survive = getenv("SURVIVE");
    if (survive)
        signal(SIGABRT, [](int) { siglongjmp(on_abort, 1); });
    auto fam = getenv("FAM");
    auto write = [&](Problem & p) {
        ProofOptions o{base};
        std::atomic<bool> stop{true};
        string text;
        try {
            solve_with(p, SolveCallbacks{}, o, &stop);
            text = slurp(base + ".scp");
        }
        catch (...) {
            for (string s : {".opb", ".pbp", ".varmap", ".scp"})
                unlink((base + s).c_str());
            throw;
        }
        for (string s : {".opb", ".pbp", ".varmap", ".scp"})
            unlink((base + s).c_str());
        return text;
    };
    // Only the problem file, without starting a solve.
    auto write_only = [&](Problem & p) {
        ProofOptions o{base};
        o.proof_file_names.variables_map_file.reset();
        string text;
        {
            Proof proof{o};
            auto state = p.create_state_for_new_search(proof.model());
            try {
                innards::write_scp(base + ".scp", p, proof.model());
            }
            catch (...) {
                proof.model()->finalise();
                throw;
            }
            proof.model()->finalise();
            text = slurp(base + ".scp");
        }
        for (string s : {".opb", ".pbp", ".varmap", ".scp"})
            unlink((base + s).c_str());
        return text;
    };
    struct Job
    {
        string id, fam;
        std::function<Vars(Problem &)> build;
        vector<Vals> doms;
        std::function<vector<Vals>()> want;
        bool may_reject = false;
        int kind = 0; // 0 enumerate, 2 minimise, 3 maximise
        std::function<IntegerVariableID(Problem &, const Vars &)> objective;
        std::function<Val(const Vals &)> value;
    };
    auto examine = [&](const Job & j) -> string {
        string text;
        try {
            Problem p;
            auto x = j.build(p);
            if (j.kind) {
                auto z = j.objective(p, x);
                j.kind == 2 ? p.minimise(z) : p.maximise(z);
            }
            text = write(p);
        }
        catch (const InvalidProblemDefinitionException &) {
            ctx.count("rejected");
            return j.may_reject ? "" : "rejected";
        }
        catch (const UnimplementedException &) {
            ctx.count("refused");
            return "";
        }
        ctx.count("files");
        if (getenv("SHOW"))
            fputs(text.c_str(), stdout);
        Problem q;
        ScpModel m;
        try {
            m = read_scp(q, text);
        }
        catch (const ScpUnsupportedConstraintError & e) {
            return string("keyword written but not read: ") + e.what();
        }
        catch (const ScpReadError & e) {
            if (documented_refusal(j.fam, text, e.what())) {
                ctx.count("documented_refusals");
                ctx.count("documented_refusals:" + j.fam);
                return "";
            }
            return string("not read back: ") + e.what();
        }
        catch (const std::exception & e) {
            if (documented_refusal(j.fam, text, e.what())) {
                ctx.count("documented_refusals");
                return "";
            }
            return string("not read back: ") + e.what();
        }
        ctx.count("read_back");
        if (bool(m.minimise_variable) != (j.kind != 0))
            return j.kind ? "the objective is lost" : "an objective appears";
        Vars x;
        for (size_t i = 0; i < j.doms.size(); ++i) {
            auto it = m.variables.find("v" + to_string(i));
            if (it == m.variables.end())
                return "variable v" + to_string(i) + " is lost";
            x.push_back(it->second);
        }
        // the same text again
        {
            Problem q2;
            auto m2 = read_scp(q2, text);
            if (m2.minimise_variable)
                q2.minimise(*m2.minimise_variable);
            auto again = write(q2);
            if (again != text)
                return "written again, the text differs:\n" + again + "rather than\n" + text;
        }
        // and the same problem
        auto want = j.want();
        vector<Vals> got;
        if (m.minimise_variable)
            q.minimise(*m.minimise_variable);
        SolveCallbacks cb;
        cb.solution = [&](const CurrentState & s) {
            got.push_back(read(s, x));
            return true;
        };
        cb.stats_report = [](const StatsNote &) {};
        auto st = solve_with(q, cb);
        ctx.count("search_nodes", st.recursions);
        ctx.count("solutions", got.size());
        if (! j.kind) {
            std::sort(got.begin(), got.end());
            got.erase(std::unique(got.begin(), got.end()), got.end());
            auto bad = compare(want, got);
            if (bad.empty() && want.size() > 2)
                ctx.sample(j.id);
            return bad;
        }
        if (want.empty())
            return got.empty() ? "" : "the problem read back has a solution";
        if (got.empty())
            return "the problem read back has no solution";
        Val best = 0;
        bool first = true;
        for (auto & w : want) {
            auto v = j.value(w) * (j.kind == 3 ? -1 : 1);
            if (first || v < best)
                best = v;
            first = false;
        }
        if (std::find(want.begin(), want.end(), got.back()) == want.end())
            return "the problem read back has solution " + str(got.back());
        if (j.value(got.back()) * (j.kind == 3 ? -1 : 1) != best)
            return "the problem read back has optimum " + str(got.back());
        return "";
    };
    auto run = [&](const Job & j) {
        if (ctx.enough() || (fam && j.id.find(fam) == string::npos) || ! ctx.begin(j.id))
            return;
        string bad;
        if (survive && sigsetjmp(on_abort, 1)) {
            ctx.fail(j.id, "aborted");
            return;
        }
        try {
            bad = examine(j);
        }
        catch (const std::exception & e) {
            bad = string("exception: ") + e.what();
        }
        if (! bad.empty())
            ctx.fail(j.id, bad);
    };
    auto huge = [](const Inst & i) {
        if (i.fam.ends_with("table"))
            for (auto & d : i.doms)
                if (! d.empty() && d.back() - d.front() > 5000)
                    return true;
        return false;
    };
    auto job_of = [&](Inst && i) {
        auto ip = std::make_shared<Inst>(std::move(i));
        Job j;
        j.id = ip->id;
        j.fam = ip->fam;
        j.doms = ip->doms;
        j.build = [ip](Problem & p) {
            auto x = make_vars(p, ip->doms);
            ip->post(p, x);
            return x;
        };
        j.want = [ip] {
            auto s = all_solutions(*ip);
            return vector<Vals>(s.begin(), s.end());
        };
        j.may_reject = ip->flags & MayReject;
        return j;
    };
    if (ctx.mode == "single") {
        for (int size : {0, 1}) {
            size_t at = 0;
            auto stride = getenv("STRIDE") ? size_t(atoi(getenv("STRIDE"))) : 40;
            for (auto & f : families())
                f.gen(
                    [&](Inst && i) {
                        ++at;
                        if ((size == 1 && ! ctx.thorough && at % stride != 11) || huge(i))
                            return;
                        run(job_of(std::move(i)));
                    },
                    size);
        }
    }
    else if (ctx.mode == "opt") {
        auto objs = objectives();
        auto with = [&](const Case & c) {
            for (size_t o = 0; o < objs.size() + 1; ++o)
                for (int kind : {2, 3}) {
                    if (o == objs.size() && kind == 3)
                        continue;
                    auto cp = std::make_shared<Case>(c);
                    Job j;
                    j.id = c.id();
                    j.doms = c.t->pal->doms;
                    j.build = [cp](Problem & p) { return cp->build(p); };
                    j.want = [cp] { return cp->solutions(); };
                    if (o < objs.size()) {
                        j.id += (kind == 3 ? ">max " : ">min ") + objs[o].name;
                        j.kind = kind;
                        j.objective = objs[o].make;
                        j.value = objs[o].value;
                    }
                    run(j);
                }
        };
        each_subset(0, with);
        each_subset(1, with);
        each_subset(2, [&](const Case & c) {
            if (ctx.thorough || (c.es[0] * 5 + c.es[1]) % 7 == 3)
                with(c);
        });
    }
    else if (ctx.mode == "mutate") {
        // One file per shape of constraint: every deletion, duplication, swap
        // and replacement of a token.
        std::set<string> shapes;
        size_t n_shape = 0;
        auto mutate = [&](const string & name, const string & text) {
            auto ts = tokens(text);
            static const vector<string> with = {"(", ")", "v0", "v9", "0", "-1", "7", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1.5", "0x1", "", "all_different", "not",
                "=", "if", "true", "variables", "()", "( 1 2 )", "( v0 )", "-", "+1", "_1", "_7", "1a", "v0,v1", "\"v0\""};
            auto one = [&](const string & id, const vector<string> & t) {
                if (ctx.enough() || ! ctx.begin(id))
                    return;
                if (survive && sigsetjmp(on_abort, 1)) {
                    ctx.fail(id, "aborted");
                    return;
                }
                auto s = join(t);
                ctx.count("mutants");
                string canon, bad;
                try {
                    canon = std::format("{}", innards::parse_s_expr(s));
                }
                catch (const std::exception &) {
                    canon = "";
                }
                Problem p;
                bool taken = false;
                try {
                    auto m = read_scp(p, s);
                    taken = true;
                    if (m.minimise_variable)
                        p.minimise(*m.minimise_variable);
                }
                catch (const std::logic_error & e) {
                    bad = string("a logic error escapes: ") + e.what();
                }
                catch (const std::bad_alloc & e) {
                    bad = "runs out of memory";
                }
                catch (const std::exception &) {
                    ctx.count("mutants_rejected");
                }
                if (taken) {
                    ctx.count("mutants_accepted");
                    if (canon.empty())
                        bad = "accepted, though it is not an s-expression";
                    else {
                        try {
                            auto again = std::format("{}", innards::parse_s_expr(write_only(p)));
                            if (again == canon)
                                ctx.count("mutants_same_text");
                            else if (normalised_file(again) != normalised_file(canon))
                                bad = "misread: " + canon + " as " + again;
                        }
                        catch (const std::exception & e) {
                            // Refused when solved, with an error: not misread.
                            ctx.count("mutants_refused_later");
                        }
                    }
                }
                if (! bad.empty())
                    ctx.fail(id, bad);
            };
            for (size_t i = 0; i < ts.size(); ++i) {
                auto id = name + "#" + to_string(i);
                auto t = ts;
                t.erase(t.begin() + long(i));
                one(id + "del", t);
                t = ts;
                t.insert(t.begin() + long(i), ts[i]);
                one(id + "dup", t);
                if (i + 1 < ts.size() && ts[i] != ts[i + 1]) {
                    t = ts;
                    std::swap(t[i], t[i + 1]);
                    one(id + "swap", t);
                }
                for (size_t w = 0; w < with.size(); ++w) {
                    if (with[w] == ts[i])
                        continue;
                    t = ts;
                    t[i] = with[w];
                    one(id + "w" + to_string(w), t);
                }
                // whole sub-expressions
                if (ts[i] == "(") {
                    size_t e = i, depth = 0;
                    do {
                        depth += ts[e] == "(";
                        depth -= ts[e] == ")";
                        ++e;
                    } while (depth && e < ts.size());
                    t = ts;
                    t.erase(t.begin() + long(i), t.begin() + long(e));
                    one(id + "drop", t);
                    t = ts;
                    t.insert(t.begin() + long(e), ts.begin() + long(i), ts.begin() + long(e));
                    one(id + "twice", t);
                    t = ts;
                    t[i] = "0";
                    t.erase(t.begin() + long(i) + 1, t.begin() + long(e));
                    one(id + "flat", t);
                }
                t.assign(ts.begin(), ts.begin() + long(i));
                one(id + "cut", t);
            }
        };
        auto per_shape = ctx.thorough ? 3 : 1;
        std::map<string, int> seen;
        for (int size : {0, 1})
            for (auto & f : families())
                f.gen(
                    [&](Inst && i) {
                        // One or a few of each keyword and outline, told by the written text.
                        if (i.doms.size() > 5 || (size == 1 && std::hash<string>{}(i.id) % 64) || huge(i))
                            return;
                        string text;
                        try {
                            Problem p;
                            auto x = make_vars(p, i.doms);
                            auto outline = i.id.substr(0, i.id.find_first_of("0123456789{[("));
                            if (seen[outline] >= per_shape)
                                return;
                            i.post(p, x);
                            text = write(p);
                            Problem q;
                            read_scp(q, text);
                            if (tokens(text).size() > (ctx.thorough ? 160 : 90))
                                return;
                            ++seen[outline];
                        }
                        catch (const std::exception &) {
                            return;
                        }
                        ++n_shape;
                        mutate(i.id, text);
                    },
                    size);
        for (auto & o : {"(minimize v0)", "(maximize v1)", "enumerate", "decide", "(minimize 3)"})
            mutate(string("objective/") + o, string("((version 1)(variables (v0 0 2)(v1 -1 3))(constraints (_1 all_different (v0 v1))(n not_equals v0 v1))(prob_type ") + o + "))");
        ctx.count("files_mutated", ctx.shard == 0 ? n_shape : 0);
    }
    ctx.finish();
}
