// P22: the difference-logic engine against shortest paths computed from scratch.
//  simplify: one round of root simplification on every small weighted digraph.
//  engine:   every history of activations, bound changes and undos of the
//            incremental algorithms, with the potential never undone.
//  whole:    the posted constraint under every history of decisions, its domains
//            at each node against an independent bounds fixpoint.
#include "drv.hh"
#include "walk.hh"
#include <gcs/constraints/difference/difference_constraints.hh>
#include <gcs/constraints/difference/difference_incremental.hh>
#include <gcs/constraints/difference/difference_simplify.hh>
using namespace vc;
using namespace gcs;
using namespace gcs::innards;
using std::optional;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    constexpr long long inf = 1ll << 40;
    struct E
    {
        size_t f, t;
        long long d;
        int role = 0; // 0 base, 1 candidate, 2 ignored
    };
    auto show(const vector<E> & es) -> string
    {
        string r;
        for (auto & e : es)
            r += (r.empty() ? "" : " ") + to_string(e.f) + ">" + to_string(e.t) + ":" + to_string(e.d) + "bci"[e.role];
        return r;
    }
    // All-pairs distances; empty if there is a negative cycle.
    auto floyd(size_t n, const vector<E> & es, const std::function<bool(size_t)> & in) -> vector<vector<long long>>
    {
        vector<vector<long long>> d(n, vector<long long>(n, inf));
        for (size_t i = 0; i < n; ++i)
            d[i][i] = 0;
        for (size_t i = 0; i < es.size(); ++i)
            if (in(i))
                d[es[i].f][es[i].t] = std::min(d[es[i].f][es[i].t], es[i].d);
        for (size_t k = 0; k < n; ++k)
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (d[i][k] < inf && d[k][j] < inf)
                        d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
        for (size_t i = 0; i < n; ++i)
            if (d[i][i] < 0)
                return {};
        return d;
    }

    auto judge_simplify(drv::Ctx & ctx, size_t n, const vector<E> & es) -> void
    {
        vector<DifferenceSimplifyEdge> g;
        vector<DifferenceSimplifyRole> roles;
        for (auto & e : es) {
            g.push_back({e.f, e.t, Integer{e.d}});
            roles.push_back(e.role == 0 ? DifferenceSimplifyRole::Base : e.role == 1 ? DifferenceSimplifyRole::Candidate : DifferenceSimplifyRole::Ignored);
        }
        ctx.count("graphs");
        auto fail = [&](const string & s) { ctx.fail("simplify " + show(es), s); };
        DifferenceSimplifyOutcome o;
        try {
            o = simplify_difference_graph(n, g, roles);
        }
        catch (const std::exception & e) {
            return fail(string("exception: ") + e.what());
        }
        auto d = floyd(n, es, [&](size_t i) { return es[i].role == 0; });
        if (o.base_negative_cycle != d.empty())
            return fail(d.empty() ? "negative cycle not reported" : "negative cycle reported where there is none");
        if (d.empty())
            return;
        ctx.count("consistent_graphs");
        if (o.remove.size() != es.size())
            return fail("removal list has the wrong length");
        auto kept = floyd(n, es, [&](size_t i) { return es[i].role == 0 && ! o.remove[i]; });
        if (kept != d)
            return fail("removing redundant edges changed the distances");
        std::set<std::pair<size_t, size_t>> pairs;
        for (size_t i = 0; i < es.size(); ++i) {
            auto & e = es[i];
            auto dist = d[e.f][e.t];
            if (e.role == 2 && o.remove[i])
                return fail("removed an ignored edge");
            if (e.role == 0 && ! o.remove[i] && (e.d > dist || ! pairs.emplace(e.f, e.t).second))
                return fail("kept redundant edge " + to_string(i));
            if (e.role == 1 && o.remove[i] != (dist < inf && e.d >= dist))
                return fail(o.remove[i] ? "removed a conditional edge that is not implied" : "kept an implied conditional edge");
        }
        std::set<size_t> fixed;
        for (auto & [c, path] : o.fix) {
            if (c >= es.size() || es[c].role != 1 || o.remove[c] || ! fixed.insert(c).second)
                return fail("fixed something other than a remaining conditional edge, or twice");
            auto at = es[c].t;
            auto w = es[c].d;
            for (auto p : path) {
                if (p >= es.size() || es[p].role != 0 || es[p].f != at)
                    return fail("the witness is not a path of base edges");
                at = es[p].t;
                w += es[p].d;
            }
            if (at != es[c].f || w >= 0)
                return fail("the witness is not a negative cycle");
        }
        for (size_t i = 0; i < es.size(); ++i)
            if (es[i].role == 1 && ! o.remove[i] && d[es[i].t][es[i].f] < inf && es[i].d + d[es[i].t][es[i].f] < 0 && ! fixed.contains(i))
                return fail("did not fix conditional edge " + to_string(i));
        // Zero-weight cycles: classes of nodes at distance zero both ways.
        size_t classes = 0, on = 0;
        vector<char> seen(n, 0);
        for (size_t i = 0; i < n; ++i) {
            if (seen[i])
                continue;
            size_t size = 0;
            for (size_t j = 0; j < n; ++j)
                if (d[i][j] < inf && d[j][i] < inf && d[i][j] + d[j][i] == 0) {
                    seen[j] = 1;
                    ++size;
                }
            if (size > 1) {
                ++classes;
                on += size;
            }
        }
        if (o.zero_weight_cycles != classes || o.nodes_on_zero_weight_cycles != on)
            return fail("counted " + to_string(o.zero_weight_cycles) + " zero-weight cycles, not " + to_string(classes));
    }

    auto simplify_all(drv::Ctx & ctx, size_t n, size_t m, const vector<long long> & weights, int roles, const string & tag) -> void
    {
        vector<E> pool;
        for (size_t f = 0; f < n; ++f)
            for (size_t t = 0; t < n; ++t)
                if (f != t)
                    for (auto w : weights)
                        for (int r = 0; r < roles; ++r)
                            pool.push_back({f, t, w, r});
        for (size_t a = 0; a < pool.size(); ++a)
            for (size_t b = 0; b < pool.size(); ++b) {
                if (ctx.enough() || ! ctx.begin("simplify/" + tag + "/" + to_string(a) + "/" + to_string(b)))
                    continue;
                vector<E> es = {pool[a], pool[b]};
                auto go = [&](auto & self) -> void {
                    if (es.size() == m) {
                        judge_simplify(ctx, n, es);
                        return;
                    }
                    for (auto & e : pool) {
                        es.push_back(e);
                        self(self);
                        es.pop_back();
                    }
                };
                judge_simplify(ctx, n, es);
                go(go);
                ctx.sample("every list of " + to_string(m) + " edges over " + to_string(n) + " nodes from " + show({pool[a], pool[b]}));
            }
    }

    // ---- the incremental engine ----
    struct Engine
    {
        drv::Ctx & ctx;
        size_t n;
        vector<E> es;
        vector<DifferenceArc> arcs;
        DifferenceAdjacency tail, head;
        // Never undone.
        vector<Integer> pot;
        DifferencePotentialWorkspace pw;
        DifferenceBoundsWorkspace bw;
        string history;
        bool ok = true;

        struct St
        {
            vector<char> active;
            vector<Integer> lb, nub, glb, gnub; // bounds and gates, upper ones negated
        } st;

        auto fail(const string & s) -> void
        {
            ok = false;
            ctx.fail("engine " + show(es) + " " + history, s);
        }
        // The least solution above the given lower bounds, in one direction.
        auto fixpoint(vector<Integer> b, bool by_tail) const -> vector<Integer>
        {
            for (bool changed = true; changed;) {
                changed = false;
                for (size_t i = 0; i < es.size(); ++i)
                    if (st.active[i]) {
                        auto s = by_tail ? es[i].f : es[i].t, t = by_tail ? es[i].t : es[i].f;
                        if (b[s] - Integer{es[i].d} > b[t]) {
                            b[t] = b[s] - Integer{es[i].d};
                            changed = true;
                        }
                    }
            }
            return b;
        }
        auto one_way(bool by_tail, const vector<char> & forced) -> void
        {
            auto & b = by_tail ? st.lb : st.nub;
            auto & g = by_tail ? st.glb : st.gnub;
            auto p = pot;
            if (! by_tail)
                for (auto & x : p)
                    x = -x;
            auto want = fixpoint(b, by_tail);
            try {
                difference_incremental_bounds(n, arcs, by_tail ? tail : head, by_tail, st.active, p, b, g, forced, bw);
            }
            catch (const std::exception & e) {
                return fail(string("exception: ") + e.what());
            }
            ctx.count("propagations");
            auto nb = b;
            vector<char> settled(n, 0);
            for (auto v : bw.settle_order) {
                if (v >= n || settled[v])
                    return fail("a node was settled twice");
                settled[v] = 1;
                if (bw.has_predecessor[v] && bw.settled_bound[v] > b[v]) {
                    auto e = bw.predecessor[v];
                    auto s = by_tail ? es[e].f : es[e].t, t = by_tail ? es[e].t : es[e].f;
                    if (! st.active[e] || t != v)
                        return fail("a bound is explained by an arc that is inactive or elsewhere");
                    if (! settled[s])
                        return fail("a bound was settled before the one it follows from");
                    if (bw.settled_bound[s] - Integer{es[e].d} != bw.settled_bound[v])
                        return fail("a bound does not follow along the arc given for it");
                    if (nb[s] < bw.settled_bound[s])
                        return fail("a bound follows from one that was never established");
                }
                if (bw.settled_bound[v] > nb[v]) {
                    if (! bw.has_predecessor[v])
                        return fail("a bound moved without an explanation");
                    nb[v] = bw.settled_bound[v];
                }
                if (bw.settled_bound[v] > g[v])
                    g[v] = bw.settled_bound[v];
            }
            if (nb != want) {
                string a, c;
                for (size_t v = 0; v < n; ++v) {
                    a += " " + nb[v].to_string();
                    c += " " + want[v].to_string();
                }
                return fail(string(by_tail ? "lower" : "negated upper") + " bounds" + a + " instead of" + c);
            }
            b = nb;
        }
        auto invariant() -> bool
        {
            auto bad = difference_invalid_potential_arc(arcs, st.active, pot);
            bool mine = true;
            for (size_t i = 0; i < es.size(); ++i)
                if (st.active[i] && pot[es[i].f] + Integer{es[i].d} - pot[es[i].t] < 0_i)
                    mine = false;
            if (mine == bad.has_value()) {
                fail("difference_invalid_potential_arc is wrong");
                return false;
            }
            return mine;
        }
        // Activates one arc; false if that makes a negative cycle.
        auto activate(size_t e) -> bool
        {
            st.active[e] = 1;
            auto consistent = ! floyd(n, es, [&](size_t i) { return st.active[i]; }).empty();
            auto before = pot;
            auto r = difference_repair_potential(n, arcs, tail, st.active, pot, e, pw);
            ctx.count("activations");
            if (r != consistent)
                fail(r ? "missed a negative cycle" : "found a negative cycle that is not there");
            else if (! r && pot != before)
                fail("a refused arc changed the potential");
            else if (r && ! invariant())
                fail("the repaired potential is invalid");
            return r;
        }
        auto propagate(const vector<size_t> & added) -> void
        {
            vector<char> ft(n, 0), fh(n, 0);
            for (auto e : added) {
                ft[es[e].f] = 1;
                fh[es[e].t] = 1;
            }
            one_way(true, ft);
            if (ok)
                one_way(false, fh);
        }
        auto explore(size_t depth) -> void
        {
            ctx.count("states");
            if (! depth || ! ok || ctx.enough())
                return;
            auto saved = st;
            auto saved_history = history;
            auto step = [&](const string & name, auto && f) {
                history = saved_history + "; " + name;
                ctx.count("transitions");
                if (f() && ok)
                    explore(depth - 1);
                st = saved; // undone; the potential is not
                history = saved_history;
            };
            for (size_t mask = 1; mask < size_t(1) << es.size(); ++mask) {
                bool any = false;
                for (size_t e = 0; e < es.size(); ++e)
                    any = any || ((mask >> e & 1) && st.active[e]);
                if (any)
                    continue;
                step("activate " + to_string(mask), [&] {
                    vector<size_t> added;
                    for (size_t e = 0; e < es.size(); ++e)
                        if (mask >> e & 1) {
                            if (! activate(e))
                                return false;
                            added.push_back(e);
                        }
                    if (ok)
                        propagate(added);
                    return true;
                });
            }
            for (size_t v = 0; v < n; ++v)
                for (long long by : {1, 3}) {
                    step("raise " + to_string(v) + " by " + to_string(by), [&] {
                        st.lb[v] += Integer{by};
                        propagate({});
                        return true;
                    });
                    step("drop " + to_string(v) + " by " + to_string(by), [&] {
                        st.nub[v] += Integer{by};
                        st.lb[(v + 1) % n] += Integer{by - 1};
                        propagate({});
                        return true;
                    });
                }
            // An activation and a bound change noticed together.
            for (size_t e = 0; e < es.size(); ++e)
                if (! st.active[e])
                    for (size_t v = 0; v < n; ++v)
                        step("activate arc " + to_string(e) + " and raise " + to_string(v), [&] {
                            st.lb[v] += 2_i;
                            st.nub[v] += 1_i;
                            if (! activate(e))
                                return false;
                            if (ok)
                                propagate({e});
                            return true;
                        });
        }
        auto run(unsigned initially, size_t depth) -> void
        {
            for (auto & e : es)
                arcs.push_back({e.f, e.t, Integer{e.d}, arcs.size()});
            tail = build_difference_adjacency(n, arcs, true);
            head = build_difference_adjacency(n, arcs, false);
            st.active.resize(es.size());
            for (size_t e = 0; e < es.size(); ++e)
                st.active[e] = initially >> e & 1;
            history = "initially " + to_string(initially);
            auto consistent = ! floyd(n, es, [&](size_t i) { return st.active[i]; }).empty();
            auto p = difference_initial_potential(n, arcs, st.active);
            ctx.count("systems");
            if (p.has_value() != consistent)
                return fail(consistent ? "no initial potential although there is no negative cycle" : "an initial potential despite a negative cycle");
            if (! p)
                return;
            pot = *p;
            if (! invariant())
                return fail("the initial potential is invalid");
            for (size_t v = 0; v < n; ++v) {
                st.lb.push_back(Integer{static_cast<long long>(v % 2)});
                st.nub.push_back(Integer{-static_cast<long long>(10 + v)});
            }
            st.glb = st.lb;
            st.gnub = st.nub;
            vector<char> all(n, 1);
            one_way(true, all);
            if (ok)
                one_way(false, all);
            explore(depth);
        }
    };
    auto engine_all(drv::Ctx & ctx, size_t n, size_t m, const vector<long long> & weights, size_t depth, const vector<unsigned> & initial, const string & tag) -> void
    {
        vector<E> pool;
        for (size_t f = 0; f < n; ++f)
            for (size_t t = 0; t < n; ++t)
                if (f != t)
                    for (auto w : weights)
                        pool.push_back({f, t, w, 0});
        vector<E> es;
        auto go = [&](auto & self, size_t from) -> void {
            if (es.size() == m) {
                if (ctx.enough() || ! ctx.begin("engine/" + tag + "/" + show(es)))
                    return;
                for (auto i : initial) {
                    Engine e{ctx, n, es, {}, {}, {}, {}, {}, {}, {}, true, {}};
                    e.run(i, depth);
                }
                ctx.sample("engine " + show(es) + " to depth " + to_string(depth));
                return;
            }
            for (size_t i = from; i < pool.size(); ++i) {
                es.push_back(pool[i]);
                self(self, i);
                es.pop_back();
            }
        };
        go(go, 0);
    }

    // ---- the posted constraint ----
    struct Posted
    {
        size_t x, y;
        Val d;
        int cond; // 0 none, else see below
        Val ox = 0, oy = 0;
    };
    constexpr int conds = 6;
    auto cond_name(int c) -> string
    {
        static const char * n[] = {"", "?b=1", "?b!=1", "?c<1", "?v2>=2", "?v0!=1"};
        return n[c];
    }
    // Variables: v0 v1 v2 b c.
    auto cond_of(int c, const Vars & v) -> optional<IntegerVariableCondition>
    {
        switch (c) {
        case 1: return v[3] == 1_i;
        case 2: return v[3] != 1_i;
        case 3: return v[4] < 1_i;
        case 4: return v[2] >= 2_i;
        case 5: return v[0] != 1_i;
        default: return std::nullopt;
        }
    }
    // 1 definitely true, -1 definitely false, 0 undecided
    auto cond_is(int c, const Doms & d) -> int
    {
        if (! c)
            return 1;
        auto over = [&](const Vals & s, auto && f) {
            bool any = false, all = true;
            for (auto x : s) {
                any = any || f(x);
                all = all && f(x);
            }
            return all ? 1 : any ? 0 : -1;
        };
        switch (c) {
        case 1: return over(d[3], [](Val x) { return x == 1; });
        case 2: return over(d[3], [](Val x) { return x != 1; });
        case 3: return over(d[4], [](Val x) { return x < 1; });
        case 4: return over(d[2], [](Val x) { return x >= 2; });
        default: return over(d[0], [](Val x) { return x != 1; });
        }
    }
    // The bounds fixpoint of the edges whose condition holds; false if it fails.
    auto close(const vector<Posted> & ps, Doms & d) -> bool
    {
        for (bool changed = true; changed;) {
            changed = false;
            for (auto & p : ps) {
                if (p.x == p.y && p.ox == p.oy) {
                    if (p.d < 0) {
                        auto c = cond_is(p.cond, d);
                        if (c == 1)
                            return false;
                    }
                    continue;
                }
                if (cond_is(p.cond, d) != 1)
                    continue;
                auto lx = d[p.x].front() + p.ox, uy = d[p.y].back() + p.oy;
                auto n1 = std::erase_if(d[p.y], [&](Val v) { return v + p.oy < lx - p.d; });
                auto n2 = std::erase_if(d[p.x], [&](Val v) { return v + p.ox > uy + p.d; });
                if (d[p.x].empty() || d[p.y].empty())
                    return false;
                changed = changed || n1 || n2;
            }
        }
        return true;
    }
    auto whole(drv::Ctx & ctx, const vector<Posted> & ps, const Doms & doms, size_t depth) -> void
    {
        string id = "whole/";
        for (auto & p : ps)
            id += to_string(p.x) + (p.ox ? "+" + to_string(p.ox) : "") + "-" + to_string(p.y) + (p.oy ? "+" + to_string(p.oy) : "") + "<=" + to_string(p.d) + cond_name(p.cond) + " ";
        id += str(doms[0]) + str(doms[1]) + str(doms[2]);
        if (ctx.enough() || ! ctx.begin(id))
            return;
        auto ok = [&](const Vals & v) {
            Doms d;
            for (auto x : v)
                d.push_back({x});
            for (auto & p : ps)
                if (cond_is(p.cond, d) == 1 && v[p.x] + p.ox - v[p.y] - p.oy > p.d)
                    return false;
            return true;
        };
        vector<Vals> sols;
        product(doms, [&](const Vals & v) {
            if (ok(v))
                sols.push_back(v);
        });
        for (int opt = 0; opt < 4; ++opt) {
            bool simplify = opt & 1, incremental = ! (opt & 2);
            string bad;
            auto say = [&](const string & s) {
                if (bad.empty())
                    bad = s + (simplify ? " (simplified" : " (plain") + (incremental ? ", incremental)" : ", from scratch)");
            };
            WalkTotals t;
            WalkPlan plan;
            plan.depth = depth;
            plan.bad = say;
            // The domains at the root, from which everything else follows.
            optional<Doms> root;
            auto agree = [&](const vector<Decision> & h) {
                vector<Vals> r;
                for (auto & s : sols) {
                    bool in = true;
                    for (auto & d : h)
                        in = in && d.allows(s[d.var]);
                    if (in)
                        r.push_back(s);
                }
                return r;
            };
            plan.node = [&](const Node & n) {
                for (auto & s : agree(n.history))
                    for (size_t i = 0; i < s.size(); ++i)
                        if (! std::binary_search(n.doms[i].begin(), n.doms[i].end(), s[i]))
                            say("after " + words(n.history) + ", lost solution " + str(s) + "; left " + str(n.doms));
                // Decisions taken from the parent's domains, then closed.
                Doms d = n.parent ? *n.parent : doms;
                bool fine = true;
                if (n.parent) {
                    auto & h = n.history.back();
                    std::erase_if(d[h.var], [&](Val v) { return ! h.allows(v); });
                }
                fine = close(ps, d);
                if (! fine)
                    say("after " + words(n.history) + ", did not fail; left " + str(n.doms));
                else if (n.parent || ! simplify) {
                    // The disallowed conditions of degenerate edges are root facts.
                    if (! n.parent)
                        for (auto & p : ps)
                            if (p.x == p.y && p.ox - p.oy > p.d && p.cond) {
                                auto only_false = [&](size_t v) {
                                    std::erase_if(d[v], [&](Val x) {
                                        Doms one = doms;
                                        one[v] = {x};
                                        return cond_is(p.cond, one) == 1;
                                    });
                                };
                                only_false(p.cond <= 2 ? 3 : p.cond == 3 ? 4 : p.cond == 4 ? 2 : 0);
                            }
                    if (! close(ps, d))
                        say("after " + words(n.history) + ", did not fail; left " + str(n.doms));
                    else if (d != n.doms)
                        say("after " + words(n.history) + ", left " + str(n.doms) + " but the bounds fixpoint is " + str(d));
                }
                return bad.empty();
            };
            plan.failed = [&](const vector<Decision> & h, const Doms &) {
                auto r = agree(h);
                if (! r.empty())
                    say("after " + words(h) + ", failed although " + str(r[0]) + " is a solution");
            };
            try {
                Problem p;
                auto v = make_vars(p, doms);
                vector<DifferenceEdge> es;
                for (auto & q : ps) {
                    auto at = [&](size_t i, Val o) -> IntegerVariableID { return o ? IntegerVariableID{v[i] + I(o)} : v[i]; };
                    es.push_back({at(q.x, q.ox), at(q.y, q.oy), I(q.d), cond_of(q.cond, v)});
                }
                p.post(DifferenceConstraints{es}.simplifying_at_root(simplify).incrementally(incremental).auditing_incremental_propagation(incremental));
                walk(p, v, doms, plan, t);
            }
            catch (const std::exception & e) {
                say(string("exception: ") + e.what());
            }
            ctx.count("posted_systems");
            ctx.count("nodes", t.nodes);
            ctx.count("decisions", t.nodes + t.failures);
            if (! bad.empty()) {
                ctx.fail(id, bad);
                return;
            }
        }
        ctx.sample(id, 2);
    }
    auto whole_all(drv::Ctx & ctx) -> void
    {
        vector<Doms> dd = {
            {{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1}, {0, 1}},
            {{0, 2, 3, 5}, {1, 2, 4, 5}, {0, 1, 3, 5}, {0, 1}, {0, 1, 2}},
        };
        vector<Posted> pool;
        for (size_t x = 0; x < 3; ++x)
            for (size_t y = 0; y < 3; ++y)
                if (x != y)
                    for (Val d : {-2, -1, 0, 1})
                        for (int c = 0; c < conds; ++c)
                            if (ctx.thorough || (x + 2 * y + d + 8 + c) % 2 == 0 || c == 1)
                                pool.push_back({x, y, d, c, c == 2 ? 1 : 0, c == 3 ? -1 : 0});
        pool.push_back({0, 0, -1, 1});
        pool.push_back({1, 1, 0, 2});
        size_t at = 0;
        for (size_t a = 0; a < pool.size(); ++a) {
            for (auto & d : dd)
                whole(ctx, {pool[a]}, d, ctx.thorough ? 3 : 2);
            for (size_t b = 0; b < pool.size(); ++b) {
                whole(ctx, {pool[a], pool[b]}, dd[++at % 2], ctx.thorough ? 2 : 1);
                for (size_t c = 0; c < pool.size(); ++c)
                    if (ctx.thorough ? a <= b && b <= c : (a < b && b < c && (a + 5 * b + 11 * c) % 7 == 0))
                        whole(ctx, {pool[a], pool[b], pool[c]}, dd[++at % 2], 1);
            }
        }
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    ctx.limit_s = 300;
    if (ctx.mode == "simplify") {
        simplify_all(ctx, 3, 3, {-2, -1, 0, 1, 2}, 3, "3n3m");
        simplify_all(ctx, 3, 4, {-1, 0, 1}, 2, "3n4m");
        simplify_all(ctx, 4, 4, {-1, 0, 2}, ctx.thorough ? 2 : 1, "4n4m");
        if (ctx.thorough)
            simplify_all(ctx, 4, 5, {-1, 1}, 1, "4n5m");
    }
    if (ctx.mode == "engine") {
        vector<unsigned> subsets3 = {0, 1, 2, 3, 4, 5, 6, 7};
        engine_all(ctx, 3, 3, {-2, 0, 1}, ctx.thorough ? 4 : 3, subsets3, "3n3m");
        engine_all(ctx, 4, 4, {-1, 2}, 2, {0, 3, 15}, "4n4m");
        engine_all(ctx, 3, 4, {-1, 1}, ctx.thorough ? 3 : 2, {0, 1, 6, 15}, "3n4m");
    }
    if (ctx.mode == "whole")
        whole_all(ctx);
    ctx.finish();
}
