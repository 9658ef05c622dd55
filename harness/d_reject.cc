// P18: malformed problem definitions are rejected with a definition error, and
// well-formed ones are accepted and mean what they say.
//   contracts  every constraint over every small combination of array lengths
//              and parameter values, in and out of its contract
//   names      every short name, and every short history of definition operations
#include "drv.hh"
#include "logged.hh"
#include "prob.hh"
#include <gcs/constraints/knapsack.hh>
#include <gcs/exception.hh>
#include <gcs/innards/proofs/proof_model.hh>
#include <gcs/innards/state.hh>
#include <unistd.h>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

namespace
{
    struct Case18
    {
        string id;
        bool bad;
        vector<Vals> doms;
        PostFn post;
        OkFn ok;
    };
    // Every vector over the alphabet with length in [lo, hi].
    template <typename T_, typename F_>
    auto each_list(const vector<T_> & alphabet, size_t lo, size_t hi, F_ f) -> void
    {
        vector<T_> cur;
        auto go = [&](auto & self) -> void {
            if (cur.size() >= lo)
                f(vector<T_>(cur));
            if (cur.size() < hi)
                for (auto & a : alphabet) {
                    cur.push_back(a);
                    self(self);
                    cur.pop_back();
                }
        };
        go(go);
    }
    auto rows(const vector<Vals> & m) -> string
    {
        string r;
        for (auto & x : m)
            r += str(x);
        return r.empty() ? "none" : r;
    }
    auto numbered(const string & s) -> bool
    {
        return s.size() > 1 && s[0] == '_' && s.find_first_not_of("0123456789", 1) == string::npos;
    }
    // The naming rule, written as a scan.
    auto name_allowed(const string & s) -> bool
    {
        size_t i = 0;
        while (i < s.size() && s[i] == '_')
            ++i;
        auto alpha = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
        if (i == s.size() || ! alpha(s[i]))
            return false;
        string open;
        for (; i < s.size(); ++i) {
            char c = s[i];
            if (alpha(c) || (c >= '0' && c <= '9') || c == '_' || c == '-')
                continue;
            if (c == '[' || c == '{')
                open += c;
            else if (c == ']' || c == '}') {
                if (open.empty() || open.back() != (c == ']' ? '[' : '{'))
                    return false;
                open.pop_back();
            }
            else
                return false;
        }
        return open.empty();
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    string base = (ctx.scratch.empty() ? string("/tmp") : ctx.scratch) + "/rej" + to_string(getpid());
    auto clean = [&] {
        for (string s : {".opb", ".pbp", ".varmap", ".scp"})
            unlink((base + s).c_str());
    };

    // ---- contracts
    auto judge = [&](const Case18 & c) -> string {
        for (bool proof : {false, true}) {
            bool rejected = false;
            string why;
            vector<Vals> got;
            try {
                Problem p;
                auto x = make_vars(p, c.doms);
                c.post(p, x);
                SolveCallbacks cb;
                cb.solution = [&](const CurrentState & s) {
                    got.push_back(read(s, x));
                    return true;
                };
                cb.stats_report = [](const StatsNote &) {};
                auto st = solve_with(p, cb, proof ? std::make_optional(ProofOptions{base}) : std::nullopt);
                ctx.count("search_nodes", st.recursions);
            }
            catch (const InvalidProblemDefinitionException & e) {
                rejected = true;
                why = e.what();
            }
            catch (const UnimplementedException &) {
                ctx.count("unimplemented");
                if (c.bad)
                    return "not rejected as a malformed definition, but as unimplemented";
                continue;
            }
            if (proof)
                clean();
            ctx.count(rejected ? "rejected" : "accepted");
            if (rejected && why.empty())
                return "rejected without saying why";
            if (c.bad != rejected)
                return rejected ? "well formed, but rejected: " + why : string("malformed, but accepted") + (proof ? " when logging a proof" : "");
            if (rejected || ! c.ok)
                continue;
            vector<Vals> want;
            Vals v;
            auto go = [&](auto & self) -> void {
                if (v.size() == c.doms.size()) {
                    ctx.count("assignments_judged");
                    if (c.ok(v))
                        want.push_back(v);
                    return;
                }
                for (auto d : c.doms[v.size()]) {
                    v.push_back(d);
                    self(self);
                    v.pop_back();
                }
            };
            go(go);
            std::sort(want.begin(), want.end());
            std::sort(got.begin(), got.end());
            if (got != want)
                return "accepted, but with " + to_string(got.size()) + " solutions rather than " + to_string(want.size()) +
                    (got.empty() ? "" : ", one being " + str(got.front()));
        }
        return "";
    };
    auto emit = [&](string id, bool bad, vector<Vals> doms, PostFn post, OkFn ok = {}) {
        if (ctx.enough() || ! ctx.begin(id))
            return;
        Case18 c{id, bad, std::move(doms), std::move(post), std::move(ok)};
        ctx.count("definitions");
        ctx.count(bad ? "malformed" : "well_formed");
        string w;
        try {
            w = judge(c);
        }
        catch (const std::exception & e) {
            w = string("unexpected exception: ") + e.what();
        }
        if (! w.empty())
            ctx.fail(id, w);
        else
            ctx.sample(id);
    };

    auto contracts = [&] {
        const Vals b01{0, 1}, d012{0, 1, 2};
        auto doms_of = [](std::initializer_list<std::pair<size_t, Vals>> l) {
            vector<Vals> r;
            for (auto & [n, d] : l)
                for (size_t i = 0; i < n; ++i)
                    r.push_back(d);
            return r;
        };

        // global cardinality
        for (size_t nv = 0; nv <= 2; ++nv)
            for (size_t k = 0; k <= 3; ++k)
                for (size_t nc = 0; nc <= 3; ++nc)
                    for (int level = 0; level < 2; ++level)
                        for (bool closed : {false, true})
                            emit("gcc/" + to_string(nv) + "/" + to_string(k) + "/" + to_string(nc) + (level ? "g" : "b") + (closed ? "c" : "o"), k != nc,
                                doms_of({{nv, d012}, {nc, d012}}),
                                [=](Problem & p, const Vars & x) {
                                    vector<Integer> vals;
                                    for (size_t i = 0; i < k; ++i)
                                        vals.push_back(I(Val(i)));
                                    GlobalCardinality g{sub(x, 0, nv), vals, sub(x, nv, nc)};
                                    g.with_closed(closed);
                                    if (level)
                                        g.with_consistency(consistency::GAC{});
                                    p.post(g);
                                },
                                [=](const Vals & v) {
                                    for (size_t i = 0; i < nv; ++i)
                                        if (closed && v[i] >= Val(k))
                                            return false;
                                    for (size_t j = 0; j < k; ++j)
                                        if (std::count(v.begin(), v.begin() + nv, Val(j)) != v[nv + j])
                                            return false;
                                    return true;
                                });

        // inverse, with slots naming variables 0..3 (two per array) or constants
        each_list(Vals{0, 1, 9}, 0, 3, [&](const Vals & xs) {
            each_list(Vals{1, 2, 9}, 0, 3, [&](const Vals & ys) {
                for (Val start : {0, 1}) {
                    auto dup = [](const Vals & l) {
                        for (size_t i = 0; i < l.size(); ++i)
                            for (size_t j = 0; j < i; ++j)
                                if (l[i] == l[j] && l[i] != 9)
                                    return true;
                        return false;
                    };
                    emit("inverse/" + str(xs) + str(ys) + to_string(start), xs.size() != ys.size() || dup(xs) || dup(ys), doms_of({{3, Vals{0, 1, 2, 3}}}),
                        [=](Problem & p, const Vars & x) {
                            auto slot = [&](const Vals & l) {
                                Vars r;
                                for (auto s : l)
                                    r.push_back(s == 9 ? IntegerVariableID{constant_variable(1_i)} : x[size_t(s)]);
                                return r;
                            };
                            p.post(Inverse{slot(xs), slot(ys), I(start), 0_i});
                        },
                        [=](const Vals & v) {
                            Vals x, y;
                            for (auto s : xs)
                                x.push_back(s == 9 ? 1 : v[size_t(s)]);
                            for (auto s : ys)
                                y.push_back(s == 9 ? 1 : v[size_t(s)]);
                            auto n = Val(x.size());
                            for (Val i = 0; i < n; ++i)
                                if (x[i] < 0 || x[i] >= n || y[i] < start || y[i] >= start + n)
                                    return false;
                            for (Val i = 0; i < n; ++i)
                                for (Val j = 0; j < n; ++j)
                                    if ((x[i] == j) != (y[j] == i + start))
                                        return false;
                            return true;
                        });
                }
            });
        });

        // two-dimensional element: every raggedness
        each_list(Vals{0, 1, 2, 3}, 0, 3, [&](const Vals & lens) {
            bool ragged = false;
            for (auto l : lens)
                ragged = ragged || l != lens[0];
            for (bool consts : {true, false})
                emit("element2d/" + str(lens) + (consts ? "c" : "v"), ragged, doms_of({{2, Vals{-1, 0, 1, 2, 3}}, {1, Vals{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}}}),
                    [=](Problem & p, const Vars & x) {
                        if (consts) {
                            vector<vector<Integer>> a;
                            Val at = 0;
                            for (auto l : lens) {
                                a.emplace_back();
                                for (Val i = 0; i < l; ++i)
                                    a.back().push_back(I(at++));
                            }
                            p.post(Element2DConstantArray{x[2], x[0], x[1], a});
                        }
                        else {
                            vector<Vars> a;
                            Val at = 0;
                            for (auto l : lens) {
                                a.emplace_back();
                                for (Val i = 0; i < l; ++i)
                                    a.back().push_back(constant_variable(I(at++)));
                            }
                            p.post(Element2D{x[2], x[0], x[1], a});
                        }
                    },
                    [=](const Vals & v) {
                        return v[0] >= 0 && v[0] < Val(lens.size()) && v[1] >= 0 && v[1] < lens[0] && v[2] == v[0] * lens[0] + v[1];
                    });
        });

        // difference constraints over views
        {
            auto operand = [](const Vars & x, int which, size_t v) -> IntegerVariableID {
                switch (which) {
                case 0: return x[v];
                case 1: return x[v] + 2_i;
                case 2: return -x[v];
                case 3: return -x[v] + 1_i;
                default: return constant_variable(1_i);
                }
            };
            auto value = [](const Vals & x, int which, size_t v) -> Val {
                return which == 0 ? x[v] : which == 1 ? x[v] + 2 : which == 2 ? -x[v] : which == 3 ? 1 - x[v] : 1;
            };
            for (int a = 0; a < 5; ++a)
                for (int b = 0; b < 5; ++b)
                    for (int later = 0; later < 2; ++later)
                        emit("difference/" + to_string(a) + to_string(b) + to_string(later), a == 2 || a == 3 || b == 2 || b == 3, doms_of({{2, d012}}),
                            [=](Problem & p, const Vars & x) {
                                vector<DifferenceEdge> es;
                                if (later)
                                    es.push_back(DifferenceEdge{x[0], x[1], 3_i});
                                es.push_back(DifferenceEdge{operand(x, a, 0), operand(x, b, 1), 0_i});
                                p.post(DifferenceConstraints{es});
                            },
                            [=](const Vals & v) { return value(v, a, 0) - value(v, b, 1) <= 0; });
        }

        // min distance: every matrix over {-1,0,1} up to two rows of up to two, and requirements
        {
            vector<Vals> row_choices;
            each_list(Vals{-1, 0, 1}, 0, 2, [&](const Vals & r) { row_choices.push_back(r); });
            auto check = [&](const vector<Vals> & D, const std::optional<vector<Vals>> & R, size_t n_pts) {
                bool bad = n_pts < 2 || D.empty();
                for (auto & r : D)
                    bad = bad || r.size() != D.size();
                if (! bad)
                    for (size_t i = 0; i < D.size(); ++i)
                        for (size_t j = 0; j < D.size(); ++j)
                            bad = bad || D[i][j] < 0 || D[i][j] != D[j][i] || (i == j && D[i][j]);
                if (R) {
                    bad = bad || R->size() != n_pts;
                    for (auto & r : *R)
                        bad = bad || r.size() != n_pts;
                    if (! bad)
                        for (size_t i = 0; i < n_pts; ++i)
                            for (size_t j = i + 1; j < n_pts; ++j)
                                bad = bad || (*R)[i][j] < 0;
                }
                emit("min_distance/" + rows(D) + "R" + (R ? rows(*R) : "-") + "p" + to_string(n_pts), bad, doms_of({{n_pts, Vals{-1, 0, 1, 2}}, {1, d012}}),
                    [=](Problem & p, const Vars & x) {
                        MinDistance::Matrix m, r;
                        for (auto & row : D)
                            m.push_back(Is(row));
                        std::optional<ArrayParam<MinDistance::Matrix>> req;
                        if (R) {
                            for (auto & row : *R)
                                r.push_back(Is(row));
                            req = ArrayParam<MinDistance::Matrix>{r};
                        }
                        p.post(MinDistance{sub(x, 0, n_pts), x[n_pts], m, req});
                    },
                    [=](const Vals & v) {
                        Val best = 1000;
                        for (size_t i = 0; i < n_pts; ++i)
                            if (v[i] < 0 || v[i] >= Val(D.size()))
                                return false;
                        for (size_t i = 0; i < n_pts; ++i)
                            for (size_t j = i + 1; j < n_pts; ++j) {
                                best = std::min(best, D[v[i]][v[j]]);
                                if (R && D[v[i]][v[j]] < (*R)[i][j])
                                    return false;
                            }
                        return best == v[n_pts];
                    });
            };
            each_list(row_choices, 0, 2, [&](const vector<Vals> & D) {
                for (size_t n = 0; n <= 3; ++n)
                    check(D, std::nullopt, n);
            });
            each_list(row_choices, 0, 2, [&](const vector<Vals> & R) { check({{0, 1}, {1, 0}}, R, 2); });
            for (Val a : {0, 1})
                for (Val b : {0, 1})
                    for (Val c : {0, 1})
                        for (Val e : {0, 1})
                            check({{0, a, b}, {a, 0, c}, {b, c + e, 0}}, std::nullopt, 2);
        }

        // sorting
        for (size_t n = 0; n <= 3; ++n)
            for (size_t m = 0; m <= 3; ++m) {
                emit("sort/" + to_string(n) + to_string(m), n != m, doms_of({{n, b01}, {m, b01}}),
                    [=](Problem & p, const Vars & x) { p.post(Sort{sub(x, 0, n), sub(x, n, m)}); },
                    [=](const Vals & v) {
                        auto a = sub(v, 0, n), b = sub(v, n, m);
                        std::sort(a.begin(), a.end());
                        return a == b;
                    });
                for (Val off : {0, 1})
                    emit("arg_sort/" + to_string(n) + to_string(m) + to_string(off), n != m, doms_of({{n, b01}, {m, Vals{-1, 0, 1, 2, 3}}}),
                        [=](Problem & p, const Vars & x) { p.post(ArgSort{sub(x, 0, n), sub(x, n, m), I(off)}); },
                        [=](const Vals & v) {
                            vector<Val> idx(n);
                            for (size_t i = 0; i < n; ++i)
                                idx[i] = Val(i);
                            std::stable_sort(idx.begin(), idx.end(), [&](Val a, Val b) { return v[a] < v[b]; });
                            for (size_t i = 0; i < n; ++i)
                                if (v[n + i] != idx[i] + off)
                                    return false;
                            return true;
                        });
            }

        // the same handle on both sides of a strict comparison
        {
            auto operand = [](const Vars & x, int which) -> IntegerVariableID {
                switch (which) {
                case 0: return x[0];
                case 1: return x[0] + 1_i;
                case 2: return -x[0];
                case 3: return constant_variable(1_i);
                case 4: return x[1];
                default: return -x[0] + 1_i;
                }
            };
            auto value = [](const Vals & v, int which) -> Val {
                return which == 0 ? v[0] : which == 1 ? v[0] + 1 : which == 2 ? -v[0] : which == 3 ? 1 : which == 4 ? v[1] : 1 - v[0];
            };
            for (int a = 0; a < 6; ++a)
                for (int b = 0; b < 6; ++b)
                    for (int op = 0; op < 6; ++op)
                        emit("operands/" + to_string(op) + to_string(a) + to_string(b), a == b && a != 3 && op < 3, doms_of({{2, Vals{-1, 0, 1, 2}}}),
                            [=](Problem & p, const Vars & x) {
                                auto l = operand(x, a), r = operand(x, b);
                                switch (op) {
                                case 0: p.post(LessThan{l, r}); break;
                                case 1: p.post(GreaterThan{l, r}); break;
                                case 2: p.post(NotEquals{l, r}); break;
                                case 3: p.post(LessThanEqual{l, r}); break;
                                case 4: p.post(GreaterThanEqual{l, r}); break;
                                default: p.post(Equals{l, r});
                                }
                            },
                            [=](const Vals & v) {
                                auto l = value(v, a), r = value(v, b);
                                return op == 0 ? l < r : op == 1 ? l > r : op == 2 ? l != r : op == 3 ? l <= r : op == 4 ? l >= r : l == r;
                            });
        }

        // circuit with slots that repeat
        each_list(Vals{0, 1, 2, 9}, 0, 4, [&](const Vals & slots) {
            bool dup = false;
            for (size_t i = 0; i < slots.size(); ++i)
                for (size_t j = 0; j < i; ++j)
                    dup = dup || (slots[i] == slots[j] && slots[i] != 9);
            emit("circuit/" + str(slots), dup, doms_of({{3, Vals{0, 1, 2, 3}}}),
                [=](Problem & p, const Vars & x) {
                    Vars s;
                    for (auto k : slots)
                        s.push_back(k == 9 ? IntegerVariableID{constant_variable(0_i)} : x[size_t(k)]);
                    p.post(Circuit{s});
                },
                [=](const Vals & v) {
                    auto n = slots.size();
                    vector<size_t> succ;
                    for (auto k : slots) {
                        auto s = k == 9 ? 0 : v[size_t(k)];
                        if (s < 0 || s >= Val(n))
                            return false;
                        succ.push_back(size_t(s));
                    }
                    size_t at = 0, seen = 0;
                    do {
                        if (seen == n)
                            return n == 0;
                        if (n)
                            at = succ[at];
                        ++seen;
                    } while (n && at != 0);
                    return n == 0 || seen == n;
                });
        });

        // scheduling. A duration, demand or capacity is a constant, or a variable
        // with the given lower bound (upper bound one more).
        struct Arg
        {
            bool var;
            Val v;
        };
        vector<Arg> args{{false, -1}, {false, 0}, {false, 1}, {true, -1}, {true, 0}};
        auto astr = [](const vector<Arg> & l) {
            string r;
            for (auto & a : l)
                r += (a.var ? "v" : "c") + to_string(a.v);
            return r.empty() ? string("none") : r;
        };
        auto neg = [](const vector<Arg> & l) {
            for (auto & a : l)
                if (a.v < 0)
                    return true;
            return false;
        };
        // Appends the domains needed, and gives readers of the operand and its value.
        using Op = std::function<IntegerVariableID(const Vars &)>;
        using Get = std::function<Val(const Vals &)>;
        auto bind = [](const vector<Arg> & l, vector<Vals> & doms, vector<Op> & ops, vector<Get> & gets) {
            for (auto & a : l)
                if (a.var) {
                    auto at = doms.size();
                    doms.push_back({a.v, a.v + 1});
                    ops.push_back([at](const Vars & x) { return x[at]; });
                    gets.push_back([at](const Vals & v) { return v[at]; });
                }
                else {
                    auto c = a.v;
                    ops.push_back([c](const Vars &) { return IntegerVariableID{constant_variable(I(c))}; });
                    gets.push_back([c](const Vals &) { return c; });
                }
        };
        auto apply = [](const vector<Op> & ops, const Vars & x) {
            Vars r;
            for (auto & o : ops)
                r.push_back(o(x));
            return r;
        };
        auto all_const = [](const vector<Arg> & l) {
            for (auto & a : l)
                if (a.var)
                    return false;
            return true;
        };
        auto ints = [](const vector<Arg> & l) {
            vector<Integer> r;
            for (auto & a : l)
                r.push_back(I(a.v));
            return r;
        };
        vector<Arg> pres{{false, -1}, {false, 0}, {false, 1}, {false, 2}, {true, 0}, {true, -1}, {true, 1}};
        auto pres_bad = [](const vector<Arg> & l) {
            for (auto & a : l)
                if (a.v < 0 || a.v > 1 || (a.var && a.v != 0))
                    return true;
            return false;
        };
        auto disjunctive = [&](size_t n, const vector<Arg> & lens, const std::optional<vector<Arg>> & ps, bool strict) {
            auto doms = doms_of({{n, d012}});
            vector<Op> lo, po;
            vector<Get> lg, pg;
            bind(lens, doms, lo, lg);
            if (ps)
                bind(*ps, doms, po, pg);
            bool bad = n != lens.size() || neg(lens) || (ps && (ps->size() != n || pres_bad(*ps)));
            // The three-array form with no arrays at all is the two-array form.
            for (bool integers : {false, true}) {
                if (integers && (ps || ! all_const(lens)))
                    continue;
                emit("disjunctive/" + to_string(n) + "/" + astr(lens) + (ps ? "/p" + astr(*ps) : "") + (strict ? "s" : "n") + (integers ? "i" : ""), bad, doms,
                    [=](Problem & p, const Vars & x) {
                        auto starts = sub(x, 0, n);
                        if (integers)
                            p.post(Disjunctive{starts, ints(lens)}.with_strict(strict));
                        else if (ps)
                            p.post(Disjunctive{starts, apply(lo, x), apply(po, x)}.with_strict(strict));
                        else
                            p.post(Disjunctive{starts, apply(lo, x)}.with_strict(strict));
                    },
                    [=](const Vals & v) {
                        for (size_t i = 0; i < n; ++i)
                            for (size_t j = 0; j < i; ++j) {
                                if (ps && (! pg[i](v) || ! pg[j](v)))
                                    continue;
                                auto a = lg[i](v), b = lg[j](v);
                                if (! strict && (a == 0 || b == 0))
                                    continue;
                                if (v[i] + a > v[j] && v[j] + b > v[i])
                                    return false;
                            }
                        return true;
                    });
            }
        };
        for (size_t n = 0; n <= 2; ++n)
            each_list(args, 0, 2, [&](const vector<Arg> & lens) {
                for (bool strict : {false, true}) {
                    disjunctive(n, lens, std::nullopt, strict);
                    if (! neg(lens) && (all_const(lens) || lens.size() < 2))
                        each_list(pres, 0, 2, [&](const vector<Arg> & ps) { disjunctive(n, lens, ps, strict); });
                }
            });

        // rectangles
        auto rect = [&](size_t n, size_t m, const vector<Arg> & w, const vector<Arg> & h, bool strict) {
            auto doms = doms_of({{n, b01}, {m, b01}});
            vector<Op> wo, ho;
            vector<Get> wg, hg;
            bind(w, doms, wo, wg);
            bind(h, doms, ho, hg);
            bool bad = n != m || n != w.size() || n != h.size() || neg(w) || neg(h);
            for (bool integers : {false, true}) {
                if (integers && ! (all_const(w) && all_const(h)))
                    continue;
                emit("disjunctive_2d/" + to_string(n) + to_string(m) + "/" + astr(w) + "/" + astr(h) + (strict ? "s" : "n") + (integers ? "i" : ""), bad, doms,
                    [=](Problem & p, const Vars & x) {
                        if (integers)
                            p.post(Disjunctive2D{sub(x, 0, n), sub(x, n, m), ints(w), ints(h)}.with_strict(strict));
                        else
                            p.post(Disjunctive2D{sub(x, 0, n), sub(x, n, m), apply(wo, x), apply(ho, x)}.with_strict(strict));
                    },
                    [=](const Vals & v) {
                        for (size_t i = 0; i < n; ++i)
                            for (size_t j = 0; j < i; ++j) {
                                auto a = wg[i](v), b = wg[j](v), c = hg[i](v), d = hg[j](v);
                                if (! strict && (! a || ! b || ! c || ! d))
                                    continue;
                                bool apart = v[i] + a <= v[j] || v[j] + b <= v[i] || v[n + i] + c <= v[n + j] || v[n + j] + d <= v[n + i];
                                if (! apart)
                                    return false;
                            }
                        return true;
                    });
            }
        };
        for (size_t n = 0; n <= 2; ++n)
            for (size_t m = 0; m <= 2; ++m)
                each_list(args, 0, 2, [&](const vector<Arg> & w) {
                    each_list(args, 0, 2, [&](const vector<Arg> & h) {
                        if (n == m && w.size() == n && h.size() == n && n == 2 && ! ctx.thorough && ! neg(w) && ! neg(h) && ! (all_const(w) || all_const(h)))
                            return;
                        rect(n, m, w, h, (n + w.size() + h.size()) % 2);
                    });
                });

        // cumulative
        auto cumulative = [&](size_t n, const vector<Arg> & lens, const vector<Arg> & hs, const Arg & cap, const std::optional<vector<Arg>> & ps) {
            auto doms = doms_of({{n, b01}});
            vector<Op> lo, ho, co, po;
            vector<Get> lg, hg, cg, pg;
            bind(lens, doms, lo, lg);
            bind(hs, doms, ho, hg);
            bind({cap}, doms, co, cg);
            if (ps)
                bind(*ps, doms, po, pg);
            bool bad = n != lens.size() || n != hs.size() || neg(lens) || neg(hs) || cap.v < 0 || (ps && (ps->size() != n || pres_bad(*ps)));
            for (bool integers : {false, true}) {
                if (integers && (ps || ! all_const(lens) || ! all_const(hs) || cap.var))
                    continue;
                emit("cumulative/" + to_string(n) + "/" + astr(lens) + "/" + astr(hs) + "/" + astr({cap}) + (ps ? "/p" + astr(*ps) : "") + (integers ? "i" : ""), bad, doms,
                    [=](Problem & p, const Vars & x) {
                        auto starts = sub(x, 0, n);
                        if (integers)
                            p.post(Cumulative{starts, ints(lens), ints(hs), I(cap.v)});
                        else if (ps)
                            p.post(Cumulative{starts, apply(lo, x), apply(ho, x), apply(po, x), co[0](x)});
                        else
                            p.post(Cumulative{starts, apply(lo, x), apply(ho, x), co[0](x)});
                    },
                    [=](const Vals & v) {
                        for (Val t = -1; t < 5; ++t) {
                            Val use = 0;
                            for (size_t i = 0; i < n; ++i)
                                if ((! ps || pg[i](v)) && v[i] <= t && t < v[i] + lg[i](v))
                                    use += hg[i](v);
                            if (use > cg[0](v))
                                return false;
                        }
                        return true;
                    });
            }
        };
        for (size_t n = 0; n <= 2; ++n)
            each_list(args, 0, 2, [&](const vector<Arg> & lens) {
                each_list(args, 0, 2, [&](const vector<Arg> & hs) {
                    if (lens.size() == 2 && hs.size() == 2 && ! ctx.thorough && ! (all_const(lens) || all_const(hs)))
                        return;
                    for (auto & cap : args)
                        cumulative(n, lens, hs, cap, std::nullopt);
                });
                if (all_const(lens) && ! neg(lens))
                    each_list(pres, 0, 2, [&](const vector<Arg> & ps) {
                        cumulative(n, lens, vector<Arg>(n, Arg{false, 1}), Arg{false, 1}, ps);
                    });
            });

        // bin packing: item domains, sizes, and loads or capacities
        {
            vector<Vals> item_doms{{0}, {0, 1}, {-1, 0}, {1, 2}, {0, 2}};
            for (bool bounds_only : {false, true})
                each_list(item_doms, 0, 2, [&](const vector<Vals> & items) {
                    each_list(Vals{-1, 0, 2}, 0, 2, [&](const Vals & sizes) {
                        auto post_bits = [=](auto && b) {
                            if (bounds_only)
                                b.with_consistency(consistency::BC{});
                            return b;
                        };
                        bool bad_items = items.size() != sizes.size() || std::ranges::any_of(sizes, [](Val s) { return s < 0; });
                        auto outside = [=](size_t bins) {
                            for (auto & d : items)
                                if (d.front() < 0 || d.back() >= Val(bins))
                                    return true;
                            return false;
                        };
                        auto load = [=](const Vals & v, size_t b) {
                            Val l = 0;
                            for (size_t i = 0; i < items.size(); ++i)
                                if (v[i] == Val(b))
                                    l += sizes[i];
                            return l;
                        };
                        each_list(Vals{-1, 0, 2}, 0, 2, [&](const Vals & caps) {
                            emit("bin_packing/" + rows(items) + "/" + str(sizes) + "/c" + str(caps) + (bounds_only ? "b" : ""),
                                bad_items || caps.empty() || outside(caps.size()) || std::ranges::any_of(caps, [](Val c) { return c < 0; }), items,
                                [=](Problem & p, const Vars & x) { p.post(post_bits(BinPacking{x, Is(sizes), Is(caps)})); },
                                [=](const Vals & v) {
                                    for (size_t b = 0; b < caps.size(); ++b)
                                        if (load(v, b) > caps[b])
                                            return false;
                                    return true;
                                });
                        });
                        each_list(vector<Vals>{{-1, 0}, {0, 1, 2}, {2, 4}}, 0, 2, [&](const vector<Vals> & loads) {
                            auto doms = items;
                            for (auto & l : loads)
                                doms.push_back(l);
                            emit("bin_packing/" + rows(items) + "/" + str(sizes) + "/l" + rows(loads) + (bounds_only ? "b" : ""),
                                bad_items || loads.empty() || outside(loads.size()) || std::ranges::any_of(loads, [](const Vals & l) { return l.front() < 0; }), doms,
                                [=](Problem & p, const Vars & x) { p.post(post_bits(BinPacking{sub(x, 0, items.size()), Is(sizes), sub(x, items.size(), loads.size())})); },
                                [=](const Vals & v) {
                                    for (size_t b = 0; b < loads.size(); ++b)
                                        if (load(v, b) != v[items.size() + b])
                                            return false;
                                    return true;
                                });
                        });
                    });
                });
        }

        // minimum and maximum of nothing
        for (size_t n = 0; n <= 2; ++n)
            for (bool max : {false, true})
                emit(string(max ? "array_max/" : "array_min/") + to_string(n), n == 0, doms_of({{n + 1, d012}}),
                    [=](Problem & p, const Vars & x) {
                        if (max)
                            p.post(ArrayMax{sub(x, 0, n), x[n]});
                        else
                            p.post(ArrayMin{sub(x, 0, n), x[n]});
                    },
                    [=](const Vals & v) {
                        return v[n] == (max ? *std::max_element(v.begin(), v.begin() + n) : *std::min_element(v.begin(), v.begin() + n));
                    });

        // tables: rows of any length
        {
            vector<Vals> row_choices;
            each_list(Vals{0, 1}, 0, 3, [&](const Vals & r) { row_choices.push_back(r); });
            for (size_t n = 0; n <= 2; ++n)
                each_list(row_choices, 0, 2, [&](const vector<Vals> & tuples) {
                    for (int kind = 0; kind < 4; ++kind) {
                        bool bad = false;
                        for (auto & t : tuples)
                            bad = bad || t.size() != n;
                        bool negative = kind & 1, wild = kind & 2;
                        emit(string(negative ? "negative_table/" : "table/") + to_string(n) + rows(tuples) + (wild ? "w" : "s"), bad, doms_of({{n, d012}}),
                            [=](Problem & p, const Vars & x) {
                                SimpleTuples s;
                                WildcardTuples w;
                                for (auto & t : tuples) {
                                    s.push_back(Is(t));
                                    w.emplace_back();
                                    for (auto v : t)
                                        w.back().push_back(v ? IntegerOrWildcard{Wildcard{}} : IntegerOrWildcard{I(v)});
                                }
                                if (negative)
                                    wild ? p.post(NegativeTable{x, w}) : p.post(NegativeTable{x, s});
                                else
                                    wild ? p.post(Table{x, w}) : p.post(Table{x, s});
                            },
                            [=](const Vals & v) {
                                bool in = false;
                                for (auto & t : tuples) {
                                    bool eq = true;
                                    for (size_t i = 0; i < n; ++i)
                                        eq = eq && ((wild && t[i]) || t[i] == v[i]);
                                    in = in || eq;
                                }
                                return in != negative;
                            });
                    }
                });
        }

        // knapsack
        {
            vector<Vals> row_choices;
            each_list(Vals{-1, 0, 2}, 0, 2, [&](const Vals & r) { row_choices.push_back(r); });
            for (bool upfront : {false, true})
                for (size_t nv = 0; nv <= 2; ++nv)
                    for (size_t nt = 0; nt <= 2; ++nt)
                        for (int low = 0; low < 3; ++low) // who has a negative value
                            each_list(row_choices, 0, 2, [&](const vector<Vals> & coeffs) {
                                bool bad = coeffs.size() != nt || coeffs.empty();
                                for (auto & r : coeffs) {
                                    bad = bad || r.size() != nv;
                                    for (auto c : r)
                                        bad = bad || c < 0;
                                }
                                bad = bad || (low == 1 && nv) || (low == 2 && nt);
                                if (! bad && nv == 0 && nt == 0)
                                    return;
                                emit("knapsack/" + to_string(nv) + to_string(nt) + to_string(low) + rows(coeffs) + (upfront ? "u" : "p"), bad,
                                    doms_of({{nv, low == 1 ? Vals{-1, 0, 1} : b01}, {nt, low == 2 ? Vals{-1, 0, 1, 2} : Vals{0, 1, 2, 4}}}),
                                    [=](Problem & p, const Vars & x) {
                                        vector<vector<Integer>> c;
                                        for (auto & r : coeffs)
                                            c.push_back(Is(r));
                                        Knapsack k{c, sub(x, 0, nv), sub(x, nv, nt)};
                                        if (upfront)
                                            k.with_proof_strategy(proof_strategy::Upfront{});
                                        else
                                            k.with_proof_strategy(proof_strategy::PerCall{});
                                        p.post(k);
                                    },
                                    [=](const Vals & v) {
                                        for (size_t e = 0; e < coeffs.size(); ++e) {
                                            Val t = 0;
                                            for (size_t i = 0; i < nv; ++i)
                                                t += coeffs[e][i] * v[i];
                                            if (t != v[nv + e])
                                                return false;
                                        }
                                        return true;
                                    });
                            });
            for (bool upfront : {false, true})
                each_list(Vals{-1, 1}, 0, 3, [&](const Vals & w) {
                    each_list(Vals{-1, 2}, 0, 3, [&](const Vals & pr) {
                        for (size_t nv = 0; nv <= 2; ++nv)
                            emit("knapsack2/" + str(w) + str(pr) + to_string(nv) + (upfront ? "u" : "p"),
                                w.size() != nv || pr.size() != nv || std::ranges::any_of(w, [](Val x) { return x < 0; }) || std::ranges::any_of(pr, [](Val x) { return x < 0; }),
                                doms_of({{nv, b01}, {2, Vals{0, 1, 2, 4}}}),
                                [=](Problem & p, const Vars & x) {
                                    Knapsack k{Is(w), Is(pr), sub(x, 0, nv), x[nv], x[nv + 1]};
                                    if (upfront)
                                        k.with_proof_strategy(proof_strategy::Upfront{});
                                    else
                                        k.with_proof_strategy(proof_strategy::PerCall{});
                                    p.post(k);
                                },
                                [=](const Vals & v) {
                                    Val a = 0, b = 0;
                                    for (size_t i = 0; i < nv; ++i) {
                                        a += w[i] * v[i];
                                        b += pr[i] * v[i];
                                    }
                                    return a == v[nv] && b == v[nv + 1];
                                });
                    });
                });
        }

        // smart tables whose comparison relates a variable to itself
        for (int a = 0; a < 3; ++a)
            for (int b = 0; b < 3; ++b)
                for (int op = 0; op < 6; ++op)
                    for (bool later : {false, true})
                        emit("smart_table/" + to_string(a) + to_string(b) + to_string(op) + (later ? "l" : ""), a == b, doms_of({{3, d012}}),
                            [=](Problem & p, const Vars & x) {
                                auto e = [&]() -> SmartEntry {
                                    switch (op) {
                                    case 0: return SmartTable::less_than(x[a], x[b]);
                                    case 1: return SmartTable::less_than_equal(x[a], x[b]);
                                    case 2: return SmartTable::equals(x[a], x[b]);
                                    case 3: return SmartTable::not_equals(x[a], x[b]);
                                    case 4: return SmartTable::greater_than(x[a], x[b]);
                                    default: return SmartTable::greater_than_equal(x[a], x[b]);
                                    }
                                }();
                                SmartTuples t;
                                if (later)
                                    t.push_back({SmartTable::equals(x[0], 2_i)});
                                t.push_back({e});
                                p.post(SmartTable{x, t});
                            },
                            [=](const Vals & v) {
                                auto l = v[a], r = v[b];
                                return (later && v[0] == 2) || (op == 0 ? l < r : op == 1 ? l <= r : op == 2 ? l == r : op == 3 ? l != r : op == 4 ? l > r : l >= r);
                            });

        // decision diagrams: layer sizes, rows, targets and terminals
        for (size_t nv = 0; nv <= 2; ++nv)
            each_list(Vals{-1, 0, 1, 2}, 0, 3, [&](const Vals & npl) {
                each_list(Vals{0, 1, 2}, 0, 2, [&](const Vals & row_counts) {
                    for (Val target : {-2, -1, 0, 1, 2})
                        each_list(Vals{-1, 0, 1, 2}, 0, 1, [&](const Vals & acc) {
                            // Only the well-sized diagrams are worth every target and terminal.
                            bool sized = npl.size() == nv + 1 && row_counts.size() == nv && ! npl.empty() && npl[0] == 1;
                            if (! sized && (target != 0 || acc.size() != 1 || acc[0] != 0))
                                return;
                            bool bad = ! sized;
                            if (sized) {
                                for (size_t i = 0; i < nv; ++i)
                                    bad = bad || row_counts[i] != npl[i] || (row_counts[i] && (target < -1 || target >= npl[i + 1]));
                                bad = bad || npl.back() < 0;
                                for (auto a : acc)
                                    bad = bad || a < 0 || a >= npl.back();
                            }
                            emit("mdd/" + to_string(nv) + str(npl) + str(row_counts) + to_string(target) + str(acc), bad, doms_of({{nv, b01}}),
                                [=](Problem & p, const Vars & x) {
                                    vector<vector<std::unordered_map<Integer, long>>> t;
                                    for (auto r : row_counts)
                                        t.emplace_back(size_t(r), std::unordered_map<Integer, long>{{0_i, target}});
                                    p.post(MDD{x, t, vector<long>(npl.begin(), npl.end()), vector<long>(acc.begin(), acc.end())});
                                },
                                [=](const Vals & v) {
                                    Val at = 0;
                                    for (size_t i = 0; i < nv; ++i) {
                                        if (v[i] != 0 || target < 0)
                                            return false;
                                        at = target;
                                    }
                                    return std::ranges::find(acc, at) != acc.end();
                                });
                        });
                });
            });

        // automata
        for (size_t nv = 0; nv <= 2; ++nv)
            for (Val n = -1; n <= 2; ++n)
                for (Val rows_ = 0; rows_ <= 3; ++rows_)
                    for (Val target : {-2, -1, 0, 1, 2})
                        for (int kind = 0; kind < 6; ++kind)
                            each_list(Vals{-1, 0, 1, 2}, 0, 1, [&](const Vals & fin) {
                                bool bad = n < 1 || rows_ != n || target < -1 || target >= n;
                                for (auto f : fin)
                                    bad = bad || f < 0 || f >= n;
                                emit("regular/" + to_string(nv) + "/" + to_string(n) + "/" + to_string(rows_) + "/" + to_string(target) + str(fin) + to_string(kind), bad,
                                    doms_of({{nv, b01}}),
                                    [=](Problem & p, const Vars & x) {
                                        auto post = [&](Regular && r) {
                                            if (kind % 3 == 1)
                                                r.with_proof_strategy(proof_strategy::PerCall{});
                                            else if (kind % 3 == 2)
                                                r.with_proof_strategy(proof_strategy::Bacchus{});
                                            p.post(r);
                                        };
                                        vector<long> f(fin.begin(), fin.end());
                                        if (kind < 3)
                                            post(Regular{x, long(n), vector<std::unordered_map<Integer, long>>(size_t(rows_), {{0_i, long(target)}}), f});
                                        else
                                            post(Regular{x, long(n), vector<vector<long>>(size_t(rows_), {long(target)}), f});
                                    },
                                    [=](const Vals & v) {
                                        Val at = 0;
                                        for (auto s : v) {
                                            if (s != 0 || target < 0)
                                                return false;
                                            at = target;
                                        }
                                        return std::ranges::find(fin, at) != fin.end();
                                    });
                            });

        // range conditions
        for (Val lo = -2; lo <= 3; ++lo)
            for (Val hi = -2; hi <= 3; ++hi)
                for (int kind = 0; kind < 4; ++kind)
                    emit("range/" + to_string(lo) + "," + to_string(hi) + (kind & 1 ? "not" : "in") + (kind & 2 ? "v" : ""), lo > hi, doms_of({{2, d012}}),
                        [=](Problem & p, const Vars & x) {
                            auto v = kind & 2 ? -x[0] + 1_i : x[0];
                            p.post(EqualsIff{x[1], constant_variable(1_i), kind & 1 ? not_in_range(v, I(lo), I(hi)) : in_range(v, I(lo), I(hi))});
                        },
                        [=](const Vals & w) {
                            auto v = kind & 2 ? 1 - w[0] : w[0];
                            return (w[1] == 1) == ((lo <= v && v <= hi) != bool(kind & 1));
                        });

        // domains
        for (Val lo = -3; lo <= 3; ++lo)
            for (Val hi = -3; hi <= 3; ++hi)
                for (bool vec : {false, true})
                    emit("domain/" + to_string(lo) + "," + to_string(hi) + (vec ? "v" : ""), lo > hi, {},
                        [=](Problem & p, const Vars &) {
                            if (vec)
                                (void) p.create_integer_variable_vector(2, I(lo), I(hi));
                            else
                                (void) p.create_integer_variable(I(lo), I(hi));
                        });
        each_list(Vals{-1, 0, 0, 3}, 0, 3, [&](const Vals & vs) {
            emit("values/" + str(vs), vs.empty(), {{-1, 0, 1, 2, 3}},
                [=](Problem & p, const Vars & x) {
                    auto v = p.create_integer_variable(Is(vs));
                    p.post(Equals{v, x[0]});
                },
                [=](const Vals & v) { return std::ranges::find(vs, v[0]) != vs.end(); });
        });
    };

    // ---- names
    auto names = [&] {
        // Every short string.
        const string alphabet = ctx.thorough ? "_aZ09[]{}- .(/" : "_aZ0[]{}- (";
        string s;
        Problem shared;
        auto go = [&](auto & self) -> void {
            if (ctx.enough())
                return;
            if (ctx.begin("name/" + s)) {
                ctx.count("names");
                bool allowed = name_allowed(s);
                for (int what = 0; what < 4; ++what) {
                    // A fresh problem for the short ones, and otherwise one that goes on being used.
                    Problem fresh;
                    auto & p = s.size() <= 3 ? fresh : shared;
                    bool taken = true;
                    auto name = s.size() <= 3 ? s : s + (allowed ? string(size_t(what), 'q') : "");
                    if (s.size() > 3 && ! allowed && what > 1)
                        break;
                    if (&p == &shared && allowed && ! name_allowed(name))
                        continue;
                    auto before = p.all_normal_variables().size();
                    try {
                        if (what == 0)
                            (void) p.create_integer_variable(0_i, 1_i, name);
                        else if (what == 1)
                            (void) p.create_integer_variable(vector{0_i, 2_i}, name);
                        else if (what == 2)
                            p.post_named(In{constant_variable(0_i), vector{0_i}}, name);
                        else
                            p.post_named(WeightedSum{} + 1_i * constant_variable(0_i) <= 0_i, name);
                    }
                    catch (const NamingError & e) {
                        taken = false;
                        if (string(e.what()).find(name) == string::npos)
                            ctx.fail("name/" + s, "the error does not say which name");
                    }
                    catch (const std::exception & e) {
                        ctx.fail("name/" + s, string("unexpected exception: ") + e.what());
                        continue;
                    }
                    ctx.count(taken ? "names_taken" : "names_refused");
                    if (taken != allowed)
                        ctx.fail("name/" + s, taken ? "an unusable name is accepted" : "a usable name is refused");
                    auto after = p.all_normal_variables().size();
                    if (after != before + (taken && what < 2))
                        ctx.fail("name/" + s, "the number of variables goes from " + to_string(before) + " to " + to_string(after));
                }
            }
            if (s.size() < (ctx.thorough ? 6 : 5))
                for (char c : alphabet) {
                    s.push_back(c);
                    self(self);
                    s.pop_back();
                }
        };
        go(go);
    };

    // ---- histories
    auto histories = [&] {
        struct Op
        {
            string id;
            int kind; // 0 var, 1 bad var, 2 values, 3 no values, 4 vector, 5 named, 6 numbered, 7 plain, 8 named expression, 9 array
            string name;
            unsigned long long number = 0;
        };
        vector<Op> ops;
        for (string n : {"", "a", "b", "_1", "a[0]", "a[1]"}) {
            ops.push_back({"var(" + n + ")", 0, n});
            if (n == "" || n == "a" || n == "_1")
                ops.push_back({"bad(" + n + ")", 1, n});
            if (n == "" || n == "a")
                ops.push_back({"values(" + n + ")", 2, n});
        }
        ops.push_back({"none(a)", 3, "a"});
        ops.push_back({"vector(a)", 4, "a"});
        ops.push_back({"vector()", 4, ""});
        ops.push_back({"array(a)", 9, "a"});
        for (string n : {"a", "b", "_1", "_2", "a[0]"})
            ops.push_back({"named(" + n + ")", 5, n});
        ops.push_back({"expr(b)", 8, "b"});
        for (unsigned long long n : {0, 1, 2, 3})
            ops.push_back({"numbered(" + to_string(n) + ")", 6, "", n});
        ops.push_back({"post", 7, ""});
        size_t depth = ctx.thorough ? 5 : 4;
        vector<size_t> path;
        auto run = [&](const string & id) -> string {
            Problem p;
            std::set<string> used;
            vector<string> var_names, con_names;
            vector<Vals> doms;
            vector<IntegerVariableID> handles;
            unsigned long long anon = 0, number = 0;
            // Expected and actual failure of the last operation.
            for (auto k : path) {
                auto & o = ops[k];
                ctx.count("operations");
                string want = "", got = "";
                auto names_needed = vector<string>{};
                bool usable = true;
                auto name = o.name.empty() ? std::optional<string>{} : std::optional<string>{o.name};
                auto nvars = o.kind <= 3 ? 1u : o.kind == 4 || o.kind == 9 ? 2u : 0u;
                if (nvars == 2 && name)
                    names_needed = {o.name + "[0]", o.name + "[1]"};
                else if (name)
                    names_needed = {o.name};
                for (auto & n : names_needed)
                    usable = usable && name_allowed(n) && ! used.contains(n);
                if (o.kind == 1 || o.kind == 3)
                    want = "definition";
                else if (! usable)
                    want = "naming";
                else if (o.kind == 6 && o.number != number + 1)
                    want = "naming";
                try {
                    auto one = In{constant_variable(0_i), vector{0_i}};
                    if (o.kind == 0)
                        handles.push_back(p.create_integer_variable(0_i, 1_i, name));
                    else if (o.kind == 1)
                        handles.push_back(p.create_integer_variable(1_i, 0_i, name));
                    else if (o.kind == 2)
                        handles.push_back(p.create_integer_variable(vector{3_i, 5_i}, name));
                    else if (o.kind == 3)
                        handles.push_back(p.create_integer_variable(vector<Integer>{}, name));
                    else if (o.kind == 4)
                        for (auto & v : p.create_integer_variable_vector(2, 0_i, 1_i, name))
                            handles.push_back(v);
                    else if (o.kind == 9)
                        for (auto & v : p.create_n_integer_variables<2>(0_i, 1_i, name))
                            handles.push_back(v);
                    else if (o.kind == 5)
                        p.post_named(one, o.name);
                    else if (o.kind == 8)
                        p.post_named(WeightedSum{} + 1_i * constant_variable(0_i) <= 0_i, o.name);
                    else if (o.kind == 6)
                        p.post_autonumbered(one, o.number);
                    else
                        p.post(one);
                }
                catch (const NamingError &) {
                    got = "naming";
                }
                catch (const InvalidProblemDefinitionException &) {
                    got = "definition";
                }
                if (want != got)
                    return o.id + " gives " + (got.empty() ? "no" : got) + " error, where " + (want.empty() ? "none" : want) + " is expected";
                if (! got.empty()) {
                    if (nvars == 2)
                        return ""; // how much of an array is left behind is not promised
                    continue;
                }
                for (auto & n : names_needed)
                    used.insert(n);
                for (size_t i = 0; i < nvars; ++i) {
                    var_names.push_back(name ? names_needed[i] : "_" + to_string(++anon));
                    doms.push_back(o.kind == 2 ? Vals{3, 5} : Vals{0, 1});
                }
                if (o.kind == 2 || o.kind == 6 || o.kind == 7)
                    con_names.push_back("_" + to_string(++number));
                else if (o.kind == 5 || o.kind == 8)
                    con_names.push_back(o.name);
            }
            ctx.count("histories");
            // What the problem says of itself.
            if (p.all_normal_variables().size() != doms.size() || handles.size() != doms.size())
                return "has " + to_string(p.all_normal_variables().size()) + " variables rather than " + to_string(doms.size());
            for (size_t i = 0; i < handles.size(); ++i) {
                if (p.all_normal_variables()[i] != handles[i])
                    return "variable " + to_string(i) + " is not the one handed out";
                for (size_t j = 0; j < i; ++j)
                    if (handles[i] == handles[j])
                        return "two variables share a handle";
            }
            size_t at = 0;
            for (auto [v, lo, hi, n] : p.each_variable_with_bounds_and_name()) {
                if (at >= doms.size() || v != handles[at] || n != var_names[at] || lo != I(doms[at].front()) || hi != I(doms[at].back()))
                    return "variable " + to_string(at) + " is reported as " + n;
                ++at;
            }
            if (at != doms.size())
                return "not every variable is reported";
            at = 0;
            for (auto & c : p.each_constraint()) {
                auto n = as_string(c.constraint_id());
                if (at >= con_names.size() || n != con_names[at])
                    return "constraint " + to_string(at) + " is called " + n;
                ++at;
            }
            if (at != con_names.size())
                return "has " + to_string(at) + " constraints rather than " + to_string(con_names.size());
            // And what it means.
            std::set<Vals> got;
            size_t reports = 0;
            SolveCallbacks cb;
            cb.solution = [&](const CurrentState & s) {
                Vals v;
                for (auto & h : handles)
                    v.push_back(s(h).raw_value);
                for (size_t i = 0; i < v.size(); ++i)
                    if (std::ranges::find(doms[i], v[i]) == doms[i].end())
                        v[i] = -99;
                got.insert(v);
                ++reports;
                return true;
            };
            cb.stats_report = [](const StatsNote &) {};
            auto logged = path.size() <= 2 || ctx.thorough;
            solve_with(p, cb, logged ? std::make_optional(ProofOptions{base}) : std::nullopt);
            if (reports != (size_t(1) << doms.size()) || got.size() != reports)
                return "has " + to_string(reports) + " solutions rather than " + to_string(size_t(1) << doms.size());
            for (auto & v : got)
                if (std::ranges::find(v, -99) != v.end())
                    return "has a solution outside a domain";
            if (logged) {
                auto scp = slurp(base + ".scp");
                clean();
                for (auto & n : var_names)
                    if (scp.find("(" + n + " ") == string::npos)
                        return "variable " + n + " is not in the written problem";
                for (auto & n : con_names)
                    if (scp.find("(" + n + " ") == string::npos)
                        return "constraint " + n + " is not in the written problem";
            }
            return "";
        };
        auto go = [&](auto & self) -> void {
            if (ctx.enough())
                return;
            string id = "history";
            for (auto k : path)
                id += "/" + ops[k].id;
            if (ctx.begin(id)) {
                string w;
                try {
                    w = run(id);
                }
                catch (const std::exception & e) {
                    w = string("unexpected exception: ") + e.what();
                }
                if (! w.empty())
                    ctx.fail(id, w);
            }
            if (path.size() < depth)
                for (size_t k = 0; k < ops.size(); ++k) {
                    path.push_back(k);
                    self(self);
                    path.pop_back();
                }
        };
        go(go);
    };

    if (ctx.mode == "contracts")
        contracts();
    else if (ctx.mode == "names")
        names();
    else
        histories();
    ctx.finish();
}
