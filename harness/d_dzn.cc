// P30: the example programs' data readers and schedule checkers.
//   values   every short text as the value of a statement, for each kind of read
//   files    every short file over the significant characters
//   numbers  boundary numbers at every position of small arrays
//   rcpsp    every small project: bounds, checker and heuristic against enumeration
//   gen      every generator option in a grid: what it promises
//   formats  written .sch/.dzn/p-dispersion files and every one-token change of them
#include "drv.hh"
#include <examples/dzn.hh>
#include <examples/p_dispersion/p_dispersion_instance.hh>
#include <examples/rcpsp/rcpsp_instance.hh>
#include <examples/table_layout/table_layout_instance.hh>
#include <functional>
#include <optional>
using gcs::Integer;
using std::optional;
using std::string;
using std::to_string;
using std::vector;
using ll = long long;

namespace
{
    drv::Ctx ctx;
    using Ints = vector<ll>;
    using Rows = vector<Ints>;
    auto is_space(char c) -> bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

    // One integer written in decimal, or nothing.
    auto number(const string & t) -> optional<ll>
    {
        size_t i = 0;
        bool neg = false;
        if (i < t.size() && (t[i] == '-' || t[i] == '+'))
            neg = t[i++] == '-';
        if (i == t.size())
            return {};
        unsigned __int128 v = 0;
        for (; i < t.size(); ++i) {
            if (t[i] < '0' || t[i] > '9')
                return {};
            v = v * 10 + unsigned(t[i] - '0');
            if (v > (unsigned __int128)(1) << 64)
                v = (unsigned __int128)(1) << 64;
        }
        auto lim = (unsigned __int128)(1) << 63;
        if (neg ? v > lim : v >= lim)
            return {};
        return neg ? ll(-(__int128)(v)) : ll(v);
    }

    // What a read may do: give one particular answer, refuse, or either.
    struct Want
    {
        bool may_refuse = false, may_answer = false;
        Rows rows;
    };
    auto refuse() -> Want { return {true, false, {}}; }

    // The entries of a list; odd: something a stricter reader could refuse.
    auto entries(const string & s, bool bars, bool & odd, Ints & out) -> bool
    {
        string tok;
        bool comma = true; // a comma here would separate nothing
        auto flush = [&] {
            if (tok.empty())
                return true;
            auto n = number(tok);
            if (! n)
                return false;
            if (tok[0] == '+')
                odd = true;
            out.push_back(*n);
            tok.clear();
            comma = false;
            return true;
        };
        for (char c : s) {
            if (c == ',' || is_space(c) || (bars && c == '|')) {
                if (! flush())
                    return false;
                if (c == ',') {
                    if (comma)
                        odd = true;
                    comma = true;
                }
            }
            else
                tok += c;
        }
        return flush();
    }

    // Text around the brackets other than white space is a wrapper, which may be accepted or refused.
    auto bracketed(const string & t, string & body, bool & odd) -> bool
    {
        size_t a = t.find('['), b = t.rfind(']');
        if (a == string::npos || b == string::npos || b < a)
            return false;
        for (size_t i = 0; i < t.size(); ++i)
            if ((i < a || i > b) && ! is_space(t[i]))
                odd = true;
        body = t.substr(a + 1, b - a - 1);
        return true;
    }

    auto want_integer(const string & t) -> Want
    {
        size_t a = 0, b = t.size();
        while (a < b && is_space(t[a])) ++a;
        while (b > a && is_space(t[b - 1])) --b;
        auto n = number(t.substr(a, b - a));
        if (! n)
            return refuse();
        return {t[a] == '+', true, {{*n}}};
    }
    auto want_integers(const string & t) -> Want
    {
        string body;
        bool odd = false;
        Want w{false, true, {{}}};
        if (! bracketed(t, body, odd) || ! entries(body, true, odd, w.rows[0]))
            return refuse();
        if (body.find('|') != string::npos && body[body.find_first_not_of(" \n\t\r")] != '|')
            odd = true;
        w.may_refuse = odd;
        return w;
    }
    auto want_bools(const string & t) -> Want
    {
        string body, tok;
        bool odd = false, comma = true;
        Want w{false, true, {{}}};
        if (! bracketed(t, body, odd))
            return refuse();
        body += ' ';
        for (char c : body) {
            if (c == ',' || is_space(c)) {
                if (! tok.empty()) {
                    if (tok == "true" || tok == "1")
                        w.rows[0].push_back(1);
                    else if (tok == "false" || tok == "0")
                        w.rows[0].push_back(0);
                    else
                        return refuse();
                    tok.clear();
                    comma = false;
                }
                if (c == ',') {
                    odd = odd || comma;
                    comma = true;
                }
            }
            else
                tok += c;
        }
        w.may_refuse = odd;
        return w;
    }
    auto want_matrix(const string & t) -> Want
    {
        string body;
        bool odd = false;
        Want w{false, true, {}};
        if (! bracketed(t, body, odd))
            return refuse();
        auto first = body.find_first_not_of(" \n\t\r");
        if (first == string::npos || body[first] != '|')
            return refuse();
        auto last = body.find_last_not_of(" \n\t\r");
        if (body[last] != '|')
            odd = true; // not closed
        vector<string> pieces{""};
        for (char c : body)
            if (c == '|')
                pieces.emplace_back();
            else
                pieces.back() += c;
        for (size_t i = 0; i < pieces.size(); ++i) {
            if (pieces[i].find_first_not_of(" \n\t\r") == string::npos) {
                if (i != 0 && i + 1 != pieces.size())
                    odd = true; // an empty row
                continue;
            }
            Ints row;
            if (! entries(pieces[i], false, odd, row))
                return refuse();
            if (row.empty())
                odd = true;
            w.rows.push_back(row);
        }
        for (auto & r : w.rows)
            if (r.size() != w.rows[0].size())
                return refuse();
        w.may_refuse = odd;
        return w;
    }
    auto want_sets(const string & t) -> Want
    {
        string body;
        bool odd = false, open = false, comma = true;
        Want w{false, true, {}};
        if (! bracketed(t, body, odd))
            return refuse();
        string inside;
        for (char c : body) {
            if (open) {
                if (c == '}') {
                    w.rows.emplace_back();
                    if (! entries(inside, false, odd, w.rows.back()))
                        return refuse();
                    open = false;
                }
                else
                    inside += c;
            }
            else if (c == '{') {
                if (! comma)
                    odd = true;
                comma = false;
                open = true;
                inside.clear();
            }
            else if (c == ',') {
                odd = odd || comma;
                comma = true;
            }
            else if (! is_space(c))
                return refuse();
        }
        if (open)
            return refuse();
        w.may_refuse = odd;
        return w;
    }

    auto show(const Rows & r) -> string
    {
        string s;
        for (auto & x : r) {
            s += "[";
            for (auto v : x)
                s += to_string(v) + " ";
            s += "]";
        }
        return s;
    }

    template <typename F_>
    auto attempt(F_ f) -> optional<Rows>
    {
        try {
            return f();
        }
        catch (const std::runtime_error &) {
            return {};
        }
    }
    auto read_value(int kind, const dzn::Data & d) -> optional<Rows>
    {
        return attempt([&]() -> Rows {
            switch (kind) {
            case 0: return {{d.integer("v")}};
            case 1: return {d.integers("v")};
            case 2: {
                auto b = d.bools("v");
                return {Ints(b.begin(), b.end())};
            }
            case 3: return d.matrix("v");
            default: return d.sets("v");
            }
        });
    }
    const char * kind_name[] = {"integer", "integers", "bools", "matrix", "sets"};
    auto want_value(int kind, const string & t) -> Want
    {
        switch (kind) {
        case 0: return want_integer(t);
        case 1: return want_integers(t);
        case 2: return want_bools(t);
        case 3: return want_matrix(t);
        default: return want_sets(t);
        }
    }
    auto judge_value(int kind, const string & text) -> void
    {
        dzn::Data d{"file", {{"v", text}}};
        auto got = read_value(kind, d);
        auto want = want_value(kind, text);
        ctx.count("texts");
        if (got)
            ctx.count("accepted");
        if (got ? (! want.may_answer || *got != want.rows) : ! want.may_refuse)
            ctx.fail(string(kind_name[kind]) + " '" + text + "'",
                (got ? "read as " + show(*got) : string("refused")) + (want.may_answer ? ", should be " + show(want.rows) : ", should be refused"));
    }

    auto words(const vector<string> & alphabet, int len, const std::function<void(const string &)> & f, const string & sofar = "") -> void
    {
        f(sofar);
        if (len > 0)
            for (auto & a : alphabet)
                words(alphabet, len - 1, f, sofar + a);
    }

    auto values() -> void
    {
        vector<string> chars{"1", "20", "-", "+", ",", "|", "[", "]", "{", "}", " ", "x", "."};
        vector<string> boolish{"true", "false", "1", "0", ",", " ", "\n", "|", "x", "[", "]", "-"};
        for (int kind = 0; kind < 5; ++kind)
            for (int wrapped = 0; wrapped < 3; ++wrapped) {
                auto & al = kind == 2 ? boolish : chars;
                for (auto & a : al)
                    for (auto & b : al) {
                        auto id = string("values/") + kind_name[kind] + "/" + to_string(wrapped) + "/" + a + b;
                        if (! ctx.begin(id))
                            continue;
                        int len = (wrapped == 0 ? 4 : wrapped == 1 ? 4 : 2) + (ctx.thorough ? 1 : 0) - 1;
                        words(al, len, [&](const string & s) {
                            if (wrapped == 0)
                                judge_value(kind, a + b + s);
                            else if (wrapped == 1)
                                judge_value(kind, (kind == 3 ? "[|" : "[") + a + b + s + (kind == 3 ? "|]" : "]"));
                            else {
                                judge_value(kind, "array1d(1..4, [" + a + b + s + "])");
                                judge_value(kind, " [\n" + a + b + s + "\t]");
                            }
                        });
                    }
            }
        // The empty value and the shortest ones.
        if (ctx.begin("values/short"))
            for (int kind = 0; kind < 5; ++kind)
                words(kind == 2 ? boolish : chars, 1, [&](const string & s) {
                    judge_value(kind, s);
                    judge_value(kind, "[" + s + "]");
                    judge_value(kind, "[|" + s + "|]");
                });
    }

    auto numbers() -> void
    {
        vector<string> odd{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616",
            "99999999999999999999999", "007", "-0", "+3", "-", "+", "--1", "1-2", "1+2", "0x1F", "1e3", "1.0", "1.", ".5", "1..3", "1_000", "1'0", "nan",
            "inf", "true", "1a", "a1", "\"1\"", "4294967297", "4 5", ""};
        for (auto & o : odd) {
            if (! ctx.begin("numbers/" + o))
                continue;
            for (int n = 1; n <= 4; ++n)
                for (int at = 0; at < n; ++at)
                    for (const char * sep : {",", ", ", " ", " , ", "\n"})
                        for (const char * end : {"", " ", ",", "\n"}) {
                            string s, m = "| ", t;
                            for (int i = 0; i < n; ++i) {
                                auto e = i == at ? o : to_string(i - 1);
                                s += (i ? sep : "") + e;
                                m += e + (i % 2 ? "| " : i + 1 < n ? ", " : "|");
                                t += (i ? "," : "") + string("{") + e + end + "}";
                            }
                            judge_value(1, "[" + s + end + "]");
                            judge_value(2, "[" + s + end + "]");
                            judge_value(3, "[" + m + "]");
                            judge_value(3, "[|" + s + end + "|]");
                            judge_value(4, "[" + t + "]");
                            judge_value(4, "[{" + s + end + "}]");
                            if (n == 1)
                                judge_value(0, s + end);
                        }
        }
    }

    // Statements by a scan of the characters, in one pass.
    struct File
    {
        std::map<string, string> values;
        bool refuse = false;
    };
    auto scan(const string & text) -> File
    {
        File f;
        string st;
        bool comment = false;
        auto trim = [](string s) {
            while (! s.empty() && is_space(s.back())) s.pop_back();
            while (! s.empty() && is_space(s.front())) s.erase(s.begin());
            return s;
        };
        auto flush = [&] {
            auto eq = st.find('=');
            if (eq != string::npos) {
                auto n = trim(st.substr(0, eq));
                if (! n.empty() && ! f.values.emplace(n, trim(st.substr(eq + 1))).second)
                    f.refuse = true;
            }
            st.clear();
        };
        for (char c : text) {
            if (c == '\n')
                comment = false;
            else if (c == '%')
                comment = true;
            if (comment)
                continue;
            if (c == ';')
                flush();
            else
                st += c;
        }
        flush();
        return f;
    }
    auto spit(const string & path, const string & text) -> void
    {
        FILE * f = fopen(path.c_str(), "w");
        if (! f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) {
            fprintf(stderr, "cannot write %s\n", path.c_str());
            exit(3);
        }
    }
    auto judge_file(const string & text) -> void
    {
        auto path = ctx.scratch + "/f.dzn";
        spit(path, text);
        auto want = scan(text);
        ctx.count("files");
        try {
            auto d = dzn::read(path);
            if (want.refuse)
                return ctx.fail("file '" + text + "'", "a name is defined twice and the file is accepted");
            for (auto * n : {"a", "b", "ab", "ba", "aa", "bb", "c", "1", ""})
                if (d.contains(n) != (want.values.contains(n) > 0))
                    ctx.fail("file '" + text + "'", string("definition of '") + n + "' " + (d.contains(n) ? "invented" : "lost"));
            for (auto & [n, v] : want.values) {
                if (! d.contains(n)) {
                    ctx.fail("file '" + text + "'", "definition of '" + n + "' lost");
                    continue;
                }
                auto name = n;
                auto got = attempt([&]() -> Rows { return {{d.integer(name)}}; });
                auto w = want_integer(v);
                if (got ? (! w.may_answer || *got != w.rows) : ! w.may_refuse)
                    ctx.fail("file '" + text + "'", "'" + n + "' " + (got ? "read as " + show(*got) : "refused") + " from '" + v + "'");
            }
        }
        catch (const std::runtime_error & e) {
            if (! want.refuse)
                ctx.fail("file '" + text + "'", string("refused: ") + e.what());
        }
    }
    auto files() -> void
    {
        vector<string> al{"a", "b", "=", ";", "%", "\n", " ", "1", "2"};
        for (auto & x : al)
            for (auto & y : al) {
                if (! ctx.begin("files/" + x + y))
                    continue;
                words(al, ctx.thorough ? 5 : 4, [&](const string & s) { judge_file(x + y + s); });
            }
        vector<string> parts{"a = 1", "b = 2", "a=3", ";", "\n", "% b = 4\n", "%", "output ;", "b = 1 2", "\r\n"};
        for (auto & x : parts)
            for (auto & y : parts) {
                if (! ctx.begin("files/parts/" + x + y))
                    continue;
                words(parts, ctx.thorough ? 4 : 3, [&](const string & s) { judge_file(x + y + s); });
            }
        if (ctx.begin("files/missing")) {
            try {
                (void)dzn::read(ctx.scratch + "/does-not-exist.dzn");
                ctx.fail("missing", "a missing file is read");
            }
            catch (const std::runtime_error &) {
            }
        }
    }

    // ---- projects ----
    using rcpsp::Instance;
    auto feasible(const Instance & I, const Ints & s) -> bool
    {
        if (int(s.size()) != I.n_tasks)
            return false;
        auto d = [&](int i) { return I.durations[i].raw_value; };
        for (auto v : s)
            if (v < 0)
                return false;
        for (auto & [i, j] : I.precedences)
            if (s[j] < s[i] + d(i))
                return false;
        for (auto & l : I.lags)
            if (s[l.to] < s[l.from] + l.d.raw_value)
                return false;
        if (I.source_task && s[*I.source_task] != 0)
            return false;
        // Demand is only ever exceeded where some task starts.
        for (size_t r = 0; r < I.capacities.size(); ++r)
            for (int at = 0; at < I.n_tasks; ++at) {
                if (d(at) == 0)
                    continue;
                ll sum = 0;
                for (int i = 0; i < I.n_tasks; ++i)
                    if (s[i] <= s[at] && s[at] < s[i] + d(i))
                        sum += I.demands[r][i].raw_value;
                if (sum > I.capacities[r].raw_value)
                    return false;
            }
        for (size_t a = 0; a < I.machine_tasks.size(); ++a)
            for (size_t b = a + 1; b < I.machine_tasks.size(); ++b) {
                int i = I.machine_tasks[a], j = I.machine_tasks[b];
                if (d(i) && d(j) && s[i] < s[j] + d(j) && s[j] < s[i] + d(i))
                    return false;
            }
        return true;
    }
    // Longest chain from i to j over the precedences, by depth-first search.
    auto chain(const Instance & I, int i, int j) -> optional<ll>
    {
        if (i == j)
            return 0;
        optional<ll> best;
        for (auto & [a, b] : I.precedences)
            if (a == i) {
                auto c = chain(I, b, j);
                if (c && (! best || I.durations[i].raw_value + *c > *best))
                    best = I.durations[i].raw_value + *c;
            }
        return best;
    }
    auto judge_project(const Instance & I, const string & id, int span, bool schedules) -> void
    {
        int n = I.n_tasks;
        ctx.count("projects");
        auto est = rcpsp::earliest_starts(I), tl = rcpsp::tails(I);
        auto lp = rcpsp::detail::longest_paths(I);
        ll cp = 0;
        for (int i = 0; i < n; ++i) {
            ll e = 0, t = 0;
            for (int j = 0; j < n; ++j) {
                auto to = chain(I, j, i), from = chain(I, i, j);
                if (to)
                    e = std::max(e, *to);
                if (from && i != j)
                    t = std::max(t, *from - I.durations[i].raw_value + I.durations[j].raw_value);
                if (lp[i][j] != (from ? *from : rcpsp::detail::unreachable))
                    ctx.fail(id, "longest path " + to_string(i) + " to " + to_string(j));
            }
            if (est[i] != e)
                ctx.fail(id, "earliest start of " + to_string(i) + " is " + to_string(est[i]) + " not " + to_string(e));
            if (tl[i] != t)
                ctx.fail(id, "tail of " + to_string(i) + " is " + to_string(tl[i]) + " not " + to_string(t));
            cp = std::max(cp, e + I.durations[i].raw_value);
        }
        if (rcpsp::critical_path_length(I) != cp)
            ctx.fail(id, "critical path");
        bool maxlag = false;
        ll horizon = 0;
        for (int i = 0; i < n; ++i) {
            ll h = I.durations[i].raw_value;
            for (auto & l : I.lags) {
                if (l.from == i)
                    h = std::max(h, l.d.raw_value);
                maxlag = maxlag || l.d.raw_value < 0;
            }
            horizon += h;
        }
        if (rcpsp::default_horizon(I) != horizon)
            ctx.fail(id, "default horizon");
        if (rcpsp::has_maximum_lags(I) != maxlag)
            ctx.fail(id, "has_maximum_lags");
        bool fits = true;
        for (size_t r = 0; r < I.capacities.size(); ++r)
            for (auto & q : I.demands[r])
                fits = fits && q <= I.capacities[r];
        if (fits) {
            // A schedule that the plain part of the instance allows, so a safe horizon.
            auto plain = I;
            plain.lags.clear();
            plain.source_task.reset();
            auto s = rcpsp::serial_schedule(I);
            if (! feasible(plain, s))
                ctx.fail(id, "the serial schedule is not feasible");
            ll m = 0;
            for (int i = 0; i < n; ++i)
                m = std::max(m, s[i] + I.durations[i].raw_value);
            if (rcpsp::makespan_of(I, s) != m)
                ctx.fail(id, "makespan");
            ll sum = 0;
            for (auto & d : I.durations)
                sum += d.raw_value;
            if (m > sum || m < cp)
                ctx.fail(id, "serial makespan out of range");
        }
        if (schedules) {
            Ints s(n, -1);
            while (true) {
                ctx.count("schedules");
                bool got = rcpsp::is_feasible(I, s), want = feasible(I, s);
                if (got != want)
                    ctx.fail(id, string("schedule ") + show({s}) + (got ? " wrongly accepted" : " wrongly refused"));
                int k = 0;
                while (k < n && ++s[k] > span)
                    s[k++] = -1;
                if (k == n)
                    break;
            }
            for (auto sz : {n - 1, n + 1})
                if (rcpsp::is_feasible(I, Ints(sz, 0)))
                    ctx.fail(id, "a schedule of the wrong length is accepted");
        }
    }
    auto projects() -> void
    {
        for (int n = 1; n <= 3; ++n) {
            vector<std::pair<int, int>> pairs;
            for (int i = 0; i < n; ++i)
                for (int j = i + 1; j < n; ++j)
                    pairs.emplace_back(i, j);
            for (int prec = 0; prec < (1 << pairs.size()); ++prec)
                for (int dur = 0; dur < (1 << n); ++dur)
                    for (int mach = 0; mach < (1 << n); ++mach)
                        for (int res = 0; res < 4; ++res) {
                            auto id = "project/" + to_string(n) + "/" + to_string(prec) + "/" + to_string(dur) + "/" + to_string(mach) + "/" + to_string(res);
                            if (! ctx.begin(id))
                                continue;
                            Instance I;
                            I.n_tasks = n;
                            for (size_t p = 0; p < pairs.size(); ++p)
                                if (prec >> p & 1)
                                    I.precedences.push_back(pairs[p]);
                            for (int i = 0; i < n; ++i) {
                                I.durations.push_back(Integer{1 + (dur >> i & 1) * (i == 1 ? 2 : 1)});
                                if (mach >> i & 1)
                                    I.machine_tasks.push_back(i);
                            }
                            // No resource; one of capacity 2; two, of capacities 2 and 1.
                            int nr = res == 0 ? 0 : res == 3 ? 2 : 1;
                            int dn = 1;
                            for (int i = 0; i < n * nr; ++i)
                                dn *= 3;
                            for (int dc = 0; dc < dn; dc += (nr == 2 && ! ctx.thorough) ? 7 : 1) {
                                auto J = I;
                                for (int r = 0, x = dc; r < nr; ++r) {
                                    J.capacities.push_back(Integer{res == 2 ? 1 : 2 - r});
                                    J.demands.emplace_back();
                                    for (int i = 0; i < n; ++i, x /= 3)
                                        J.demands[r].push_back(Integer{x % 3});
                                }
                                auto jd = id + " demands " + to_string(dc);
                                judge_project(J, jd, 4, n < 3 || dc % 5 == 0 || ctx.thorough);
                                // With lags: every ordered pair, several lengths, and pairs of lags.
                                if (n == 1)
                                    continue;
                                for (int a = 0; a < n; ++a)
                                    for (int b = 0; b < n; ++b)
                                        for (int d = -3; d <= 3; ++d) {
                                            if ((a * 31 + b * 17 + d + dc) % 6)
                                                continue;
                                            auto K = J;
                                            K.lags.push_back({a, b, Integer{d}});
                                            if (dc % 2)
                                                K.lags.push_back({b, (a + 1) % n, Integer{1 - d}});
                                            if (dc % 3 == 1)
                                                K.source_task = a;
                                            judge_project(K, jd + " lag " + to_string(a) + "," + to_string(b) + "," + to_string(d), 3,
                                                n < 3 || (dc % 9 == 0));
                                        }
                            }
                        }
        }
        // Longer chains for the path computations: every precedence set on five tasks.
        vector<std::pair<int, int>> pairs;
        for (int i = 0; i < 5; ++i)
            for (int j = i + 1; j < 5; ++j)
                pairs.emplace_back(i, j);
        for (int prec = 0; prec < (1 << pairs.size()); ++prec) {
            auto id = "project/5/" + to_string(prec);
            if (! ctx.begin(id))
                continue;
            for (int rev = 0; rev < 2; ++rev)
                for (int ds = 0; ds < 3; ++ds) {
                    Instance I;
                    I.n_tasks = 5;
                    for (size_t p = 0; p < pairs.size(); ++p)
                        if (prec >> p & 1)
                            I.precedences.push_back(pairs[p]);
                    if (rev)
                        std::reverse(I.precedences.begin(), I.precedences.end());
                    for (int i = 0; i < 5; ++i)
                        I.durations.push_back(Integer{ds == 0 ? 1 : ds == 1 ? i + 1 : 1 + (i * 3) % 5});
                    I.capacities = {Integer{2}};
                    I.demands = {{Integer{1}, Integer{2}, Integer{1}, Integer{0}, Integer{2}}};
                    I.machine_tasks = {0, 3};
                    judge_project(I, id, 0, false);
                }
        }
    }

    auto generators() -> void
    {
        for (int n = 1; n <= 9; n += 2)
            for (int seed = 0; seed < (ctx.thorough ? 60 : 15); ++seed)
                for (int res = 0; res <= 2; ++res)
                    for (double density : {0.0, 0.3, 1.0})
                        for (int window : {0, 1, 4})
                            for (double mf : {0.0, 0.5, 1.0}) {
                                auto id = "generate/" + to_string(n) + "/" + to_string(seed) + "/" + to_string(res) + "/" + to_string(int(density * 10)) + "/" +
                                    to_string(window) + "/" + to_string(int(mf * 10));
                                if (! ctx.begin(id))
                                    continue;
                                rcpsp::GeneratorOptions o;
                                o.n_tasks = n;
                                o.seed = seed;
                                o.n_resources = res;
                                o.precedence_density = density;
                                o.precedence_window = window;
                                o.machine_fraction = mf;
                                auto I = rcpsp::generate(o);
                                judge_project(I, id, 0, false);
                                if (I.n_tasks != n || int(I.durations.size()) != n || int(I.capacities.size()) != res || int(I.demands.size()) != res || ! I.lags.empty() ||
                                    I.source_task)
                                    ctx.fail(id, "shape");
                                for (auto & d : I.durations)
                                    if (d < Integer{1} || d > Integer{o.max_duration})
                                        ctx.fail(id, "duration");
                                for (int r = 0; r < res; ++r) {
                                    if (I.capacities[r] != Integer{o.capacity} || int(I.demands[r].size()) != n)
                                        ctx.fail(id, "capacity");
                                    for (auto & q : I.demands[r])
                                        if (q < Integer{0} || q > Integer{o.max_demand})
                                            ctx.fail(id, "demand");
                                }
                                std::set<std::pair<int, int>> ps(I.precedences.begin(), I.precedences.end());
                                if (ps.size() != I.precedences.size())
                                    ctx.fail(id, "repeated precedence");
                                for (auto & [i, j] : ps)
                                    if (i < 0 || i >= j || j >= n || j - i > window)
                                        ctx.fail(id, "precedence");
                                size_t all = 0;
                                for (int j = 0; j < n; ++j)
                                    all += std::min(j, window);
                                if ((density == 0.0 && ! ps.empty()) || (density == 1.0 && ps.size() != all))
                                    ctx.fail(id, "precedence density");
                                for (size_t m = 0; m < I.machine_tasks.size(); ++m)
                                    if (I.machine_tasks[m] < 0 || I.machine_tasks[m] >= n || (m && I.machine_tasks[m] <= I.machine_tasks[m - 1]))
                                        ctx.fail(id, "machine tasks");
                                if ((mf == 0.0 && ! I.machine_tasks.empty()) || (mf == 1.0 && int(I.machine_tasks.size()) != n))
                                    ctx.fail(id, "machine fraction");
                                for (double lagd : {0.0, 0.5, 1.0})
                                    for (int slack : {0, 2})
                                        for (int span : {1, 6})
                                            for (bool bad : {false, true}) {
                                                auto p = o;
                                                p.max_lag_density = lagd;
                                                p.max_lag_slack = slack;
                                                p.max_lag_span = span;
                                                p.infeasible = bad;
                                                ctx.count("generated");
                                                optional<Instance> J;
                                                try {
                                                    J = rcpsp::generate(p);
                                                }
                                                catch (const std::runtime_error &) {
                                                }
                                                int cand = 0;
                                                for (int i = 0; i < n; ++i)
                                                    for (int j = i + 1; j < n && j <= i + span; ++j)
                                                        if (chain(I, i, j))
                                                            ++cand;
                                                if (! J) {
                                                    if (! (bad && cand == 0))
                                                        ctx.fail(id, "refused to generate");
                                                    continue;
                                                }
                                                if (bad && cand == 0)
                                                    ctx.fail(id, "an infeasible instance without any candidate pair");
                                                if (J->durations != I.durations || J->demands != I.demands || J->precedences != I.precedences || J->machine_tasks != I.machine_tasks ||
                                                    J->capacities != I.capacities)
                                                    ctx.fail(id, "asking for lags changed the rest of the instance");
                                                if (lagd == 1.0 && int(J->lags.size()) != cand)
                                                    ctx.fail(id, "lag density");
                                                if (lagd == 0.0 && J->lags.size() != (bad ? 1 : 0))
                                                    ctx.fail(id, "lags nobody asked for");
                                                int neg = 0;
                                                for (auto & l : J->lags) {
                                                    auto c = l.from > l.to && l.from - l.to <= span ? chain(I, l.to, l.from) : optional<ll>{};
                                                    if (! c)
                                                        ctx.fail(id, "a lag between unrelated tasks");
                                                    else if (-l.d.raw_value - *c == -1 && bad)
                                                        ++neg;
                                                    else if (-l.d.raw_value - *c != slack)
                                                        ctx.fail(id, "the slack of a lag");
                                                }
                                                if (neg != (bad ? 1 : 0))
                                                    ctx.fail(id, "infeasible lags: " + to_string(neg));
                                            }
                            }
        if (ctx.begin("generate/refused")) {
            auto bad = [&](auto f, const char * what) {
                rcpsp::GeneratorOptions o;
                f(o);
                try {
                    (void)rcpsp::generate(o);
                    ctx.fail("generate", what);
                }
                catch (const std::runtime_error &) {
                }
            };
            bad([](auto & o) { o.n_tasks = 0; }, "no tasks");
            bad([](auto & o) { o.n_resources = -1; }, "negative resources");
            bad([](auto & o) { o.max_duration = 0; }, "no duration");
            bad([](auto & o) { o.max_demand = -1; }, "negative demand");
            bad([](auto & o) { o.max_demand = o.capacity + 1; }, "demand over capacity");
        }
        // Grids and random sites.
        for (int w = 1; w <= 6; ++w)
            for (int h = 1; h <= 6; ++h) {
                auto id = "grid/" + to_string(w) + "x" + to_string(h);
                if (! ctx.begin(id))
                    continue;
                auto G = p_dispersion::make_grid(w, h);
                std::set<std::pair<long, long>> pts(G.coords.begin(), G.coords.end());
                if (G.n != w * h || int(pts.size()) != G.n || int(G.distance.size()) != G.n)
                    ctx.fail(id, "points");
                ll best = 0;
                for (int a = 0; a < G.n; ++a)
                    for (int b = 0; b < G.n; ++b) {
                        ll dx = G.coords[a].first - G.coords[b].first, dy = G.coords[a].second - G.coords[b].second;
                        if (dx >= w || dy >= h)
                            ctx.fail(id, "coordinates");
                        // d is the nearest integer to sqrt(s): (2d-1)^2 <= 4s <= (2d+1)^2.
                        ll s = dx * dx + dy * dy, d = G.distance[a][b].raw_value;
                        if (d < 0 || (d > 0 && (2 * d - 1) * (2 * d - 1) > 4 * s) || (2 * d + 1) * (2 * d + 1) < 4 * s)
                            ctx.fail(id, "distance");
                        best = std::max(best, d);
                    }
                if (p_dispersion::max_distance(G) != Integer{best})
                    ctx.fail(id, "largest distance");
            }
        for (int n = 1; n <= 7; ++n)
            for (int seed = 0; seed < 20; ++seed)
                for (long span : {0l, 1l, 10l, 1000l, 100000l}) {
                    auto id = "euclidean/" + to_string(n) + "/" + to_string(seed) + "/" + to_string(span);
                    if (! ctx.begin(id))
                        continue;
                    auto G = p_dispersion::make_random_euclidean(n, seed, span);
                    auto H = p_dispersion::make_random_euclidean(n, seed, span);
                    if (G.n != n || G.distance != H.distance || G.coords != H.coords)
                        ctx.fail(id, "not reproducible");
                    for (int a = 0; a < n; ++a)
                        for (int b = 0; b < n; ++b) {
                            ll dx = G.coords[a].first - G.coords[b].first, dy = G.coords[a].second - G.coords[b].second;
                            ll s = dx * dx + dy * dy, d = G.distance[a][b].raw_value;
                            if (d < 0 || (d > 0 && (2 * d - 1) * (2 * d - 1) > 4 * s) || (2 * d + 1) * (2 * d + 1) < 4 * s || dx > span || dy > span)
                                ctx.fail(id, "distance");
                        }
                }
        for (int rows = 1; rows <= 3; ++rows)
            for (int cols = 1; cols <= 3; ++cols)
                for (int mc = 1; mc <= 4; ++mc)
                    for (long pw : {0l, 7l})
                        for (int seed = 0; seed < 12; ++seed) {
                            auto id = "layout/" + to_string(rows) + "/" + to_string(cols) + "/" + to_string(mc) + "/" + to_string(pw) + "/" + to_string(seed);
                            if (! ctx.begin(id))
                                continue;
                            auto L = table_layout::make_random(rows, cols, mc, pw, 5, seed);
                            if (L.rows != rows || L.cols != cols || L.maxconfig != mc || L.pixelwidth != (pw ? pw : cols * 5))
                                ctx.fail(id, "shape");
                            auto e = table_layout::extents(L);
                            long a = 99, b = 0, c = 99, d = 0;
                            for (int r = 0; r < rows; ++r)
                                for (int k = 0; k < cols; ++k) {
                                    vector<std::tuple<long, long, long>> legal;
                                    for (int l = 0; l < mc; ++l)
                                        if (L.width[r][k][l] >= 0 && L.height[r][k][l] >= 0) {
                                            legal.emplace_back(l + 1, L.width[r][k][l], L.height[r][k][l]);
                                            a = std::min(a, L.width[r][k][l]);
                                            b = std::max(b, L.width[r][k][l]);
                                            c = std::min(c, L.height[r][k][l]);
                                            d = std::max(d, L.height[r][k][l]);
                                        }
                                    if (legal.empty() || table_layout::legal_configurations(L, r, k) != legal)
                                        ctx.fail(id, "legal configurations");
                                }
                            if (e.min_width != a || e.max_width != b || e.min_height != c || e.max_height != d || a < 1 || c < 1 || b > 5 || d > 5)
                                ctx.fail(id, "extents");
                        }
    }

    // ---- written files and their one-token changes ----
    // Every file is a list of tokens; joining them gives the text. A change
    // deletes, repeats, or replaces one token.
    using Toks = vector<string>;
    auto changes(const Toks & t, const std::function<void(const Toks &, const string &)> & f) -> void
    {
        f(t, "as written");
        static const vector<string> repl{"0", "1", "2", "3", "-1", "7", "x", "-", "99999999999999999999", "4294967297", "4294967296", "1x", "2.5"};
        for (size_t i = 0; i < t.size(); ++i) {
            auto u = t;
            u.erase(u.begin() + i);
            f(u, "without token " + to_string(i));
            u = t;
            u.insert(u.begin() + i, t[i]);
            f(u, "token " + to_string(i) + " twice");
            for (auto & r : repl)
                if (r != t[i] && t[i] != "\n") {
                    u = t;
                    u[i] = r;
                    f(u, "token " + to_string(i) + " replaced by " + r);
                }
        }
    }
    auto join(const Toks & t, const string & sep) -> string
    {
        string s;
        for (auto & x : t)
            s += x + (x == "\n" ? "" : sep);
        return s;
    }

    // .sch: independent reading of the token list. The layout after the first line is free.
    struct Sch
    {
        bool ok = false, odd = false;
        ll n = 0, g = 0;
        vector<std::tuple<ll, ll, ll>> lags;
        Ints dur, cap;
        Rows dem;
    };
    auto read_sch(const Toks & t) -> Sch
    {
        Sch s;
        size_t at = 0;
        while (at < t.size() && t[at] == "\n")
            ++at;
        Ints head;
        for (; at < t.size() && t[at] != "\n"; ++at) {
            auto v = number(t[at]);
            if (! v) {
                s.odd = true; // junk on the header line
                while (at < t.size() && t[at] != "\n")
                    ++at;
                break;
            }
            head.push_back(*v);
        }
        if (head.size() < 2 || head.size() > 4 || head[0] <= 0 || head[1] < 0 || head[0] > 1000000 || head[1] > 1000000)
            return s;
        for (size_t i = 2; i < head.size(); ++i)
            if (head[i])
                return s;
        if (head.size() != 4)
            s.odd = true;
        s.n = head[0] + 2;
        s.g = head[1];
        bool bad = false;
        auto next = [&]() -> ll {
            while (at < t.size() && (t[at] == "\n" || t[at] == "[" || t[at] == "]"))
                ++at;
            if (bad || at == t.size()) {
                bad = true;
                return 0;
            }
            auto v = number(t[at++]);
            if (! v)
                bad = true;
            return v.value_or(0);
        };
        for (ll i = 0; i < s.n && ! bad; ++i) {
            if (next() != i || next() != 1)
                return s;
            ll k = next();
            if (k < 0 || k > s.n)
                return s;
            Ints to;
            for (ll j = 0; j < k && ! bad; ++j)
                to.push_back(next());
            for (ll j = 0; j < k && ! bad; ++j) {
                s.lags.emplace_back(i, to[j], next());
                if (to[j] < 0 || to[j] >= s.n)
                    bad = true;
            }
        }
        s.dem.assign(s.g, {});
        for (ll i = 0; i < s.n && ! bad; ++i) {
            if (next() != i || next() != 1)
                return s;
            s.dur.push_back(next());
            if (s.dur.back() < 0)
                bad = true;
            for (ll k = 0; k < s.g; ++k) {
                s.dem[k].push_back(next());
                if (s.dem[k].back() < 0)
                    s.odd = true;
            }
        }
        for (ll k = 0; k < s.g && ! bad; ++k) {
            s.cap.push_back(next());
            if (s.cap.back() < 0)
                bad = true;
        }
        if (bad)
            return s;
        while (at < t.size())
            if (t[at++] != "\n")
                s.odd = true; // something after the end
        s.ok = true;
        return s;
    }
    auto judge_sch(const Toks & t, const string & how, const string & sep) -> void
    {
        auto want = read_sch(t);
        auto text = join(t, sep);
        std::istringstream in{text};
        ctx.count("formats");
        try {
            auto I = rcpsp::read_sch_stream(in, "x");
            ctx.count("accepted");
            bool same = want.ok && I.n_tasks == want.n && ll(I.capacities.size()) == want.g && I.source_task == 0 && I.precedences.empty() && I.machine_tasks.empty() &&
                I.lags.size() == want.lags.size() && ll(I.demands.size()) == want.g && I.durations.size() == want.dur.size();
            for (size_t i = 0; same && i < want.lags.size(); ++i)
                same = std::tuple<ll, ll, ll>(I.lags[i].from, I.lags[i].to, I.lags[i].d.raw_value) == want.lags[i];
            for (size_t i = 0; same && i < want.dur.size(); ++i)
                same = I.durations[i].raw_value == want.dur[i];
            for (size_t k = 0; same && k < I.demands.size(); ++k) {
                same = I.capacities[k].raw_value == want.cap[k] && I.demands[k].size() == want.dem[k].size();
                for (size_t i = 0; same && i < want.dem[k].size(); ++i)
                    same = I.demands[k][i].raw_value == want.dem[k][i];
            }
            if (! same)
                ctx.fail("sch " + how + " '" + text + "'", want.ok ? "misread" : "accepted, should be refused");
        }
        catch (const std::runtime_error & e) {
            if (want.ok && ! want.odd)
                ctx.fail("sch " + how + " '" + text + "'", string("refused: ") + e.what());
        }
    }

    auto sch_files() -> void
    {
        for (int n = 1; n <= 2; ++n)
            for (int g = 0; g <= 2; ++g)
                for (int shape = 0; shape < 6; ++shape) {
                    auto id = "sch/" + to_string(n) + "/" + to_string(g) + "/" + to_string(shape);
                    if (! ctx.begin(id))
                        continue;
                    Toks t{to_string(n), to_string(g), "0", "0", "\n"};
                    for (int i = 0; i < n + 2; ++i) {
                        Ints to;
                        for (int j = 0; j < n + 2; ++j)
                            if (j != i && (shape == 0 ? j == i + 1 : shape == 1 ? j > i : (i * 3 + j * 5 + shape) % 3 == 0))
                                to.push_back(j);
                        for (auto & x : {to_string(i), string("1"), to_string(to.size())})
                            t.push_back(x);
                        for (auto j : to)
                            t.push_back(to_string(j));
                        for (auto j : to)
                            for (auto & x : {string("["), to_string((j + i * 2 + shape) % 5 - 2), string("]")})
                                t.push_back(x);
                        t.push_back("\n");
                    }
                    for (int i = 0; i < n + 2; ++i) {
                        t.push_back(to_string(i));
                        t.push_back("1");
                        t.push_back(to_string(i == 0 || i == n + 1 ? 0 : i + shape % 3));
                        for (int k = 0; k < g; ++k)
                            t.push_back(to_string((i + k + shape) % 3));
                        t.push_back("\n");
                    }
                    for (int k = 0; k < g; ++k)
                        t.push_back(to_string(2 + k));
                    t.push_back("\n");
                    changes(t, [&](const Toks & u, const string & how) {
                        for (auto * sep : {" ", "\t"})
                            judge_sch(u, how, sep);
                    });
                    // Two changes: every pair of deletions.
                    if (n == 1 && shape < 3)
                        for (size_t i = 0; i < t.size(); ++i) {
                            auto u = t;
                            u.erase(u.begin() + i);
                            changes(u, [&](const Toks & v, const string & how) { judge_sch(v, how + " without " + to_string(i), " "); });
                        }
                }
    }

    // Statements of a written .dzn instance.
    struct Sheet
    {
        vector<std::pair<string, string>> st;
        auto text(int layout) const -> string
        {
            string s = layout == 1 ? "% instance = 3;\n" : "";
            auto order = st;
            if (layout == 2)
                std::reverse(order.begin(), order.end());
            for (size_t i = 0; i < order.size(); ++i) {
                auto v = order[i].second;
                if (layout == 1)
                    for (size_t p = 0; p < v.size(); ++p)
                        if (v[p] == ',')
                            v.insert(p + 1, " % x, 1 ] ;\n"), p += 5;
                s += order[i].first + (layout == 2 ? "=" : " = ") + v + (layout == 2 && i + 1 == order.size() ? "\n" : layout == 3 ? " ; " : ";\n");
            }
            return s;
        }
    };
    auto judge_rcpsp_dzn(const Sheet & sheet, const string & how) -> void
    {
        auto get = [&](const char * n) -> optional<string> {
            optional<string> r;
            for (auto & [a, b] : sheet.st)
                if (a == n) {
                    if (r)
                        return {};
                    r = b;
                }
            return r;
        };
        auto path = ctx.scratch + "/r.dzn";
        bool ok = true, odd = false;
        Rows v[6];
        const char * names[] = {"n_tasks", "n_res", "rc", "d", "rr", "suc"};
        int kinds[] = {0, 0, 1, 1, 3, 4};
        for (int i = 0; i < 6; ++i) {
            auto t = get(names[i]);
            auto w = t ? want_value(kinds[i], *t) : refuse();
            if (! w.may_answer)
                ok = false;
            odd = odd || (w.may_answer && w.may_refuse);
            v[i] = w.rows;
        }
        std::map<string, int> count;
        for (auto & [a, b] : sheet.st)
            if (count[a]++)
                ok = false;
        ll n = 0, m = 0;
        if (ok) {
            n = v[0][0][0];
            m = v[1][0][0];
            ok = n >= 1 && m >= 0 && ll(v[2][0].size()) == m && ll(v[3][0].size()) == n && ll(v[4].size()) == m && ll(v[5].size()) == n;
            if (ok) {
                for (auto x : v[3][0])
                    ok = ok && x >= 1;
                for (auto & r : v[4]) {
                    ok = ok && ll(r.size()) == n;
                    for (auto x : r)
                        ok = ok && x >= 0;
                }
                for (ll i = 0; i < n; ++i)
                    for (auto j : v[5][i])
                        ok = ok && j > i + 1 && j <= n;
                for (auto c : v[2][0])
                    if (c < 0)
                        odd = true;
            }
        }
        for (int layout = 0; layout < 4; ++layout) {
            spit(path, sheet.text(layout));
            ctx.count("formats");
            try {
                auto I = rcpsp::read_dzn_file(path);
                ctx.count("accepted");
                bool same = ok && I.n_tasks == n && ll(I.capacities.size()) == m && ll(I.durations.size()) == n && I.lags.empty() && ! I.source_task && I.machine_tasks.empty();
                for (ll i = 0; same && i < n; ++i)
                    same = I.durations[i].raw_value == v[3][0][i];
                for (ll r = 0; same && r < m; ++r) {
                    same = I.capacities[r].raw_value == v[2][0][r];
                    for (ll i = 0; same && i < n; ++i)
                        same = I.demands[r][i].raw_value == v[4][r][i];
                }
                if (same) {
                    std::multiset<std::pair<ll, ll>> a, b;
                    for (auto & [i, j] : I.precedences)
                        a.emplace(i, j);
                    for (ll i = 0; i < n; ++i)
                        for (auto j : v[5][i])
                            b.emplace(i, j - 1);
                    same = a == b;
                }
                if (! same)
                    ctx.fail("rcpsp dzn " + how + " '" + sheet.text(layout) + "'", ok ? "misread" : "accepted, should be refused");
            }
            catch (const std::runtime_error & e) {
                if (ok && ! odd)
                    ctx.fail("rcpsp dzn " + how + " '" + sheet.text(layout) + "'", string("refused: ") + e.what());
            }
        }
    }
    // One-token changes inside a statement's value: tokens are numbers and punctuation.
    auto tokens(const string & s) -> Toks
    {
        Toks t;
        for (size_t i = 0; i < s.size();) {
            size_t j = i + 1;
            if (isalnum(s[i]) || s[i] == '-')
                while (j < s.size() && isalnum(s[j]))
                    ++j;
            if (s[i] != ' ')
                t.push_back(s.substr(i, j - i));
            i = j;
        }
        return t;
    }
    auto sheet_changes(const Sheet & s, const std::function<void(const Sheet &, const string &)> & f) -> void
    {
        f(s, "as written");
        for (size_t i = 0; i < s.st.size(); ++i) {
            auto u = s;
            u.st.erase(u.st.begin() + i);
            f(u, "without " + s.st[i].first);
            u = s;
            u.st.push_back(s.st[i]);
            f(u, s.st[i].first + " twice");
            bool first = true;
            changes(tokens(s.st[i].second), [&](const Toks & t, const string & how) {
                if (first) {
                    first = false;
                    return;
                }
                auto w = s;
                w.st[i].second = join(t, " ");
                f(w, s.st[i].first + " " + how);
            });
        }
    }
    auto dzn_files() -> void
    {
        vector<Sheet> rs{
            {{{"n_tasks", "1"}, {"n_res", "1"}, {"rc", "[2]"}, {"d", "[3]"}, {"rr", "[| 1 |]"}, {"suc", "[{}]"}}},
            {{{"n_tasks", "2"}, {"n_res", "1"}, {"rc", "[ 2 ]"}, {"d", "[3, 1]"}, {"rr", "[| 1, 2 |]"}, {"suc", "[{2}, {}]"}}},
            {{{"n_tasks", "3"}, {"n_res", "2"}, {"rc", "[4,2]"}, {"d", "[3, 1, 2]"}, {"rr", "[| 1, 0, 2 | 2, 1, 0 |]"}, {"suc", "[{2, 3}, {3}, {}]"}}},
            {{{"n_tasks", "3"}, {"n_res", "2"}, {"rc", "array1d(1..2, [4,2])"}, {"d", "array1d(1..3,[1,1,1])"}, {"rr", "[| 1, 0, 2 | 2, 1, 0 |]"}, {"suc", "[{}, {3}, {}]"}}}};
        for (size_t k = 0; k < rs.size(); ++k)
            sheet_changes(rs[k], [&](const Sheet & s, const string & how) {
                if (ctx.begin("rcpsp_dzn/" + to_string(k) + "/" + how))
                    judge_rcpsp_dzn(s, how);
            });
        vector<Sheet> ls{
            {{{"pixelwidth", "10"}, {"maxconfig", "1"}, {"rows", "1"}, {"cols", "1"}, {"width", "[3]"}, {"height", "[4]"}}},
            {{{"pixelwidth", "10"}, {"maxconfig", "2"}, {"rows", "1"}, {"cols", "2"}, {"width", "array3d(ROWS, COLS, CONFIGS, [3, -1, 2, 5])"},
                {"height", "array3d(ROWS, COLS, CONFIGS, [4, -1, 1, 1])"}}},
            {{{"pixelwidth", "7"}, {"maxconfig", "1"}, {"rows", "2"}, {"cols", "3"}, {"width", "[| 1,2,3 | 4,5,6 |]"}, {"height", "[6,5,4,3,2,1]"}}}};
        for (size_t k = 0; k < ls.size(); ++k)
            sheet_changes(ls[k], [&](const Sheet & s, const string & how) {
                if (! ctx.begin("layout_dzn/" + to_string(k) + "/" + how))
                    return;
                std::map<string, Want> w;
                bool ok = true, odd = false;
                std::map<string, int> times;
                for (auto & [a, b] : s.st) {
                    if (times[a]++)
                        ok = false;
                    w[a] = want_value(a == "width" || a == "height", b);
                }
                for (auto * a : {"pixelwidth", "maxconfig", "rows", "cols", "width", "height"}) {
                    if (! w.contains(a) || ! w[a].may_answer)
                        ok = false;
                    else
                        odd = odd || w[a].may_refuse;
                }
                ll R = 0, C = 0, M = 0;
                if (ok) {
                    R = w["rows"].rows[0][0];
                    C = w["cols"].rows[0][0];
                    M = w["maxconfig"].rows[0][0];
                    ok = R >= 1 && C >= 1 && M >= 1 && __int128(R) * C * M == __int128(w["width"].rows[0].size()) && w["height"].rows[0].size() == w["width"].rows[0].size();
                }
                for (int layout = 0; layout < 4; ++layout) {
                    spit(ctx.scratch + "/l.dzn", s.text(layout));
                    ctx.count("formats");
                    try {
                        auto I = table_layout::read_dzn(ctx.scratch + "/l.dzn");
                        ctx.count("accepted");
                        bool same = ok && I.rows == R && I.cols == C && I.maxconfig == M && I.pixelwidth == w["pixelwidth"].rows[0][0];
                        for (ll r = 0, at = 0; same && r < R; ++r)
                            for (ll c = 0; same && c < C; ++c)
                                for (ll l = 0; same && l < M; ++l, ++at)
                                    same = I.width[r][c][l] == w["width"].rows[0][at] && I.height[r][c][l] == w["height"].rows[0][at];
                        if (! same)
                            ctx.fail("layout " + how + " '" + s.text(layout) + "'", ok ? "misread" : "accepted, should be refused");
                    }
                    catch (const std::runtime_error & e) {
                        if (ok && ! odd)
                            ctx.fail("layout " + how + " '" + s.text(layout) + "'", string("refused: ") + e.what());
                    }
                }
            });
        // Padding: every combination of signs on a one-row layout.
        if (ctx.begin("layout_extents"))
            for (int code = 0; code < 6 * 6 * 6 * 6; ++code) {
                table_layout::Instance L;
                L.rows = 1;
                L.cols = 2;
                L.maxconfig = 2;
                int x = code;
                int kind[2][2];
                L.width.assign(1, vector<vector<long>>(2, vector<long>(2)));
                L.height = L.width;
                for (int c = 0; c < 2; ++c)
                    for (int l = 0; l < 2; ++l, x /= 6) {
                        kind[c][l] = x % 6;
                        long w[] = {-1, 0, 3, 5, -1, 2}, h[] = {-1, 4, 0, 2, 3, -1};
                        L.width[0][c][l] = w[x % 6];
                        L.height[0][c][l] = h[x % 6];
                    }
                ctx.count("formats");
                bool every = true;
                long a = 99, b = -1, c0 = 99, d = -1;
                for (int c = 0; c < 2; ++c) {
                    bool any = false;
                    for (int l = 0; l < 2; ++l)
                        if (kind[c][l] >= 1 && kind[c][l] <= 3) {
                            any = true;
                            a = std::min(a, L.width[0][c][l]);
                            b = std::max(b, L.width[0][c][l]);
                            c0 = std::min(c0, L.height[0][c][l]);
                            d = std::max(d, L.height[0][c][l]);
                        }
                    every = every && any;
                }
                try {
                    auto e = table_layout::extents(L);
                    if (! every)
                        ctx.fail("extents " + to_string(code), "a cell without configurations is accepted");
                    else if (e.min_width != a || e.max_width != b || e.min_height != c0 || e.max_height != d)
                        ctx.fail("extents " + to_string(code), "wrong extents");
                }
                catch (const std::runtime_error &) {
                    if (every)
                        ctx.fail("extents " + to_string(code), "refused");
                }
            }
    }

    auto real(const string & t) -> optional<double>
    {
        char * e = nullptr;
        if (t.empty() || ! (isdigit(t[0]) || t[0] == '-' || t[0] == '+' || t[0] == '.'))
            return {};
        double d = strtod(t.c_str(), &e);
        if (*e)
            return {};
        return d;
    }
    auto judge_disp(const Toks & t, const string & how, const string & sep) -> void
    {
        auto text = join(t, sep);
        // An independent reading.
        bool ok = true, odd = false;
        size_t at = 0;
        while (at < t.size() && t[at] == "\n")
            ++at;
        vector<string> head;
        for (; at < t.size() && t[at] != "\n"; ++at)
            head.push_back(t[at]);
        auto n = head.empty() ? optional<ll>{} : number(head[0]);
        optional<ll> p = head.size() > 1 ? number(head[1]) : optional<ll>{-1};
        if (! n || *n <= 0)
            ok = false;
        if (! p || head.size() > 2)
            odd = true;
        vector<double> v;
        for (; at < t.size(); ++at)
            if (t[at] != "\n") {
                auto d = real(t[at]);
                if (! d) {
                    ok = false;
                    break;
                }
                v.push_back(*d);
            }
        Rows D, Q;
        optional<int> gotp;
        if (ok && *n > 1000) {
            ok = false;
        }
        if (ok) {
            size_t np = *n * (*n - 1) / 2;
            if (v.size() < 3 * np)
                ok = false;
            else {
                auto whole = [&](double d) {
                    if (d != ll(d))
                        odd = true;
                    return ll(std::llround(d));
                };
                std::set<ll> ids;
                for (size_t k = 0; k < np; ++k) {
                    ids.insert(whole(v[3 * k]));
                    ids.insert(whole(v[3 * k + 1]));
                }
                if (ll(ids.size()) != *n)
                    ok = false;
                else {
                    Ints sorted(ids.begin(), ids.end());
                    auto pos = [&](double d) { return std::find(sorted.begin(), sorted.end(), std::llround(d)) - sorted.begin(); };
                    D.assign(*n, Ints(*n, -12345));
                    for (ll i = 0; i < *n; ++i)
                        D[i][i] = 0;
                    for (size_t k = 0; k < np; ++k) {
                        auto a = pos(v[3 * k]), b = pos(v[3 * k + 1]);
                        if (a == b || D[a][b] != -12345)
                            ok = false;
                        double d = v[3 * k + 2];
                        if (d < 0)
                            odd = true;
                        D[a][b] = D[b][a] = ll(d < 0 ? -ll(0.5 - d) : ll(d + 0.5));
                    }
                }
                size_t rest = v.size() - 3 * np;
                if (p && *p >= 2 && *p < 1000 && rest == size_t(*p * (*p - 1) / 2) * 3) {
                    gotp = *p;
                    Q.assign(*p, Ints(*p, -1));
                    vector<Ints> seen(*p, Ints(*p, 0));
                    for (size_t k = 0; k < rest / 3; ++k) {
                        auto i = whole(v[3 * np + 3 * k]), j = whole(v[3 * np + 3 * k + 1]), r = whole(v[3 * np + 3 * k + 2]);
                        if (i < 0 || j < 0 || i >= *p || j >= *p) {
                            ok = false;
                            break;
                        }
                        if (i == j || seen[i][j]++)
                            ok = false;
                        seen[j][i]++;
                        if (i != j)
                            seen[i][j] = 1, seen[j][i] = 1;
                        Q[i][j] = Q[j][i] = r;
                    }
                }
                else if (rest)
                    odd = true; // trailing data of another kind
            }
        }
        std::istringstream in{text};
        ctx.count("formats");
        try {
            auto I = p_dispersion::read_instance_stream(in, "x");
            ctx.count("accepted");
            bool same = ok && I.n == *n && ll(I.distance.size()) == *n && I.p == gotp && I.reqs.size() == Q.size();
            for (size_t a = 0; same && a < D.size(); ++a)
                for (size_t b = 0; same && b < D.size(); ++b)
                    same = I.distance[a][b].raw_value == D[a][b];
            for (size_t a = 0; same && a < Q.size(); ++a)
                for (size_t b = 0; same && b < Q.size(); ++b)
                    same = a == b || I.reqs[a][b] == Q[a][b];
            if (! same)
                ctx.fail("p-dispersion " + how + " '" + text + "'", ok ? "misread" : "accepted, should be refused");
        }
        catch (const std::runtime_error & e) {
            if (ok && ! odd)
                ctx.fail("p-dispersion " + how + " '" + text + "'", string("refused: ") + e.what());
        }
    }
    auto disp_files() -> void
    {
        for (int n = 1; n <= 4; ++n)
            for (int p = -1; p <= 3; ++p)
                for (int ids = 0; ids < 3; ++ids)
                    for (int order = 0; order < 2; ++order)
                        for (int extra = 0; extra < 3; ++extra) {
                            auto id = "p_dispersion/" + to_string(n) + "/" + to_string(p) + "/" + to_string(ids) + "/" + to_string(order) + "/" + to_string(extra);
                            if (! ctx.begin(id))
                                continue;
                            ll site[3][4] = {{0, 1, 2, 3}, {1, 2, 3, 4}, {7, 90, 12, 1}};
                            const char * dist[] = {"5", "3.25", "2.5", "0", "7.5", "10", "1.75"};
                            Toks t{to_string(n)};
                            if (p >= 0)
                                t.push_back(to_string(p));
                            t.push_back("\n");
                            int k = 0;
                            for (int i = 0; i < n; ++i)
                                for (int j = i + 1; j < n; ++j) {
                                    t.push_back(to_string(site[ids][order ? j : i]));
                                    t.push_back(to_string(site[ids][order ? i : j]));
                                    t.push_back(dist[(k++ + ids * 2) % 7]);
                                    t.push_back("\n");
                                }
                            if (extra == 1)
                                for (int i = 0; i < p; ++i)
                                    for (int j = i + 1; j < p; ++j) {
                                        t.push_back(to_string(order ? j : i));
                                        t.push_back(to_string(order ? i : j));
                                        t.push_back(to_string(k++ % 5));
                                        t.push_back("\n");
                                    }
                            if (extra == 2)
                                for (int i = 0; i < n; ++i) {
                                    t.push_back("1.5");
                                    t.push_back("2");
                                    t.push_back("\n");
                                }
                            changes(t, [&](const Toks & u, const string & how) {
                                for (auto * sep : {" ", "\t"})
                                    judge_disp(u, how, sep);
                            });
                        }
    }
}

int main(int argc, char ** argv)
{
    ctx = drv::start(argc, argv);
    ctx.limit_s = std::max(ctx.limit_s, 60);
    if (ctx.scratch.empty())
        ctx.scratch = "/tmp";
    auto m = ctx.mode;
    if (m.empty() || m == "values") {
        values();
        numbers();
    }
    if (m.empty() || m == "files")
        files();
    if (m.empty() || m == "rcpsp")
        projects();
    if (m.empty() || m == "gen")
        generators();
    if (m.empty() || m == "formats") {
        sch_files();
        dzn_files();
        disp_files();
    }
    ctx.finish();
}
