// P21: interval sets and interval trees equal the sets they stand for.
// Explicit-state search: from every set reached, every operation is applied.
#include "drv.hh"
#include <gcs/integer.hh>
#include <gcs/innards/interval_tree.hh>
#include <gcs/interval_set.hh>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
using gcs::Integer;
using gcs::IntervalSet;
using std::pair;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    using Mask = unsigned; // bit i: base + i is in the set
    auto s(long long v) -> string { return to_string(v); }
    auto raw(Integer i) -> long long { return i.raw_value; }
    auto raw(int i) -> long long { return i; }
    auto raw(long long i) -> long long { return i; }

    template <typename I_>
    struct World
    {
        drv::Ctx & ctx;
        string name;
        int n;
        long long base;
        std::map<Mask, string> reached;

        auto I(long long i) const -> I_ { return I_(static_cast<decltype(raw(I_(0)))>(base + i)); }
        auto show(Mask m) const -> string
        {
            string r = "{";
            for (int i = 0; i < n; ++i)
                if (m >> i & 1)
                    r += s(i) + " ";
            return r + "}";
        }
        auto runs(Mask m) const -> vector<pair<int, int>>
        {
            vector<pair<int, int>> r;
            for (int i = 0; i < n; ++i)
                if (m >> i & 1) {
                    if (! r.empty() && r.back().second == i - 1)
                        r.back().second = i;
                    else
                        r.emplace_back(i, i);
                }
            return r;
        }
        // The only way a set is built here from scratch: the public constructor and insert_at_end.
        auto make(Mask m) const -> IntervalSet<I_>
        {
            IntervalSet<I_> r;
            for (auto [l, u] : runs(m))
                r.insert_at_end(I(l), I(u));
            return r;
        }
        auto fail(const string & how, const string & what) -> void { ctx.fail(name + "/" + how, what); }

        // Everything that can be asked of one set.
        auto queries(const IntervalSet<I_> & t, Mask m, const string & how) -> void
        {
            ctx.count("states_checked");
            auto want = runs(m);
            vector<pair<int, int>> got;
            for (auto [l, u] : t.each_interval())
                got.emplace_back(raw(l) - base, raw(u) - base);
            if (got != want) {
                fail(how, "intervals are wrong or not normalised, expected " + show(m));
                return;
            }
            vector<int> up, down, each, each_rev, fe, gaps, want_gaps;
            for (int i = 0; i < n; ++i)
                if (m >> i & 1)
                    up.push_back(i);
            down.assign(up.rbegin(), up.rend());
            for (auto v : t.each())
                each.push_back(raw(v) - base);
            for (auto v : t.each_reversed())
                each_rev.push_back(raw(v) - base);
            t.for_each([&](I_ v) { fe.push_back(raw(v) - base); });
            if (each != up || each_rev != down || fe != up)
                fail(how, "iteration over " + show(m));
            for (size_t stop = 0; stop <= up.size(); ++stop) {
                vector<int> part;
                t.for_each([&](I_ v) -> bool {
                    part.push_back(raw(v) - base);
                    return part.size() <= stop;
                });
                if (part != vector<int>(up.begin(), up.begin() + std::min(stop + 1, up.size())))
                    fail(how, "stopped iteration over " + show(m));
            }
            if (t.empty() != (m == 0) || raw(t.size()) != static_cast<long long>(up.size()) || t.has_holes() != (want.size() > 1))
                fail(how, "empty, size or has_holes of " + show(m));
            if (m && (raw(t.lower()) - base != up.front() || raw(t.upper()) - base != up.back()))
                fail(how, "bounds of " + show(m));
            for (int i = -2; i < n + 2; ++i)
                if (t.contains(I(i)) != (i >= 0 && i < n && (m >> i & 1)))
                    fail(how, "contains " + s(i) + " of " + show(m));
            for (auto v : t.each_gap())
                gaps.push_back(raw(v) - base);
            vector<pair<int, int>> gi, want_gi;
            for (auto [l, u] : t.each_gap_interval())
                gi.emplace_back(raw(l) - base, raw(u) - base);
            for (size_t i = 0; i + 1 < want.size(); ++i) {
                want_gi.emplace_back(want[i].second + 1, want[i + 1].first);
                for (int v = want[i].second + 1; v < want[i + 1].first; ++v)
                    want_gaps.push_back(v);
            }
            if (gaps != want_gaps || gi != want_gi)
                fail(how, "gaps of " + show(m));
        }

        auto binary(const IntervalSet<I_> & a, Mask ma, const IntervalSet<I_> & b, Mask mb, const string & how) -> void
        {
            ctx.count("pairs_checked");
            if (a.contains_any_of(b) != ((ma & mb) != 0))
                fail(how, "contains_any_of " + show(mb));
            vector<pair<int, int>> got;
            for (auto [l, u] : a.each_interval_minus(b))
                got.emplace_back(raw(l) - base, raw(u) - base);
            if (got != runs(ma & ~mb))
                fail(how, "each_interval_minus " + show(mb));
        }

        // Breadth-first over all sets within [0, n): every operation from every set.
        auto explore() -> void
        {
            std::deque<pair<Mask, IntervalSet<I_>>> queue;
            Mask all = (Mask(1) << n) - 1;
            auto visit = [&](Mask m, const IntervalSet<I_> & t, const string & how) {
                ctx.count("transitions");
                if (reached.contains(m)) {
                    // Same set by another route: must be the same object state.
                    vector<pair<int, int>> got;
                    for (auto [l, u] : t.each_interval())
                        got.emplace_back(raw(l) - base, raw(u) - base);
                    if (got != runs(m) || t.empty() != (m == 0))
                        fail(how, "does not give " + show(m));
                    return;
                }
                reached[m] = how;
                ctx.count("states");
                queries(t, m, how);
                queue.emplace_back(m, t);
            };
            visit(0, IntervalSet<I_>{}, "empty");
            for (int l = 0; l < n; ++l)
                for (int u = l; u < n; ++u)
                    visit(((Mask(2) << u) - 1) & ~((Mask(1) << l) - 1), IntervalSet<I_>{I(l), I(u)}, "range " + s(l) + " " + s(u));
            while (! queue.empty()) {
                auto [m, t] = queue.front();
                queue.pop_front();
                auto on = [&](const string & op) { return show(m) + op; };
                auto up_to = [&](int i) -> Mask { return i < 0 ? 0 : i >= n ? all : (Mask(2) << i) - 1; }; // bits 0..i
                for (int i = -1; i <= n; ++i) {
                    auto e = t;
                    e.erase(I(i));
                    visit(m & ~(i >= 0 && i < n ? Mask(1) << i : 0), e, on(" erase " + s(i)));
                    auto l = t;
                    l.erase_less_than(I(i));
                    visit(m & ~up_to(i - 1), l, on(" erase_less_than " + s(i)));
                    auto g = t;
                    g.erase_greater_than(I(i));
                    visit(m & up_to(i), g, on(" erase_greater_than " + s(i)));
                    for (int j = -1; j <= n; ++j) {
                        auto r = t;
                        r.erase_range(I(i), I(j));
                        visit(i > j ? m : m & ~(up_to(j) & ~up_to(i - 1)), r, on(" erase_range " + s(i) + " " + s(j)));
                    }
                }
                int top = -1;
                for (int i = 0; i < n; ++i)
                    if (m >> i & 1)
                        top = i;
                for (int i = std::max(top, 0); i < n; ++i) {
                    auto a = t;
                    a.insert_at_end(I(i));
                    visit(m | Mask(1) << i, a, on(" insert_at_end " + s(i)));
                    for (int j = i; j < n; ++j) {
                        auto b = t;
                        b.insert_at_end(I(i), I(j));
                        visit(m | (up_to(j) & ~up_to(i - 1)), b, on(" insert_at_end " + s(i) + " " + s(j)));
                    }
                }
                auto c = t;
                c.clear();
                visit(0, c, on(" clear"));
                // copies are independent, moves carry the value
                auto d = t;
                auto e = std::move(d);
                d = t;
                IntervalSet<I_> f;
                f = e;
                if (m) {
                    e.erase(I(top));
                    auto & alias = f;
                    f = alias;
                }
                visit(m, f, on(" copy"));
                visit(m, d, on(" reassign"));
                visit(m, t, on(" untouched"));
            }
        }
        auto pairs() -> void
        {
            Mask all = (Mask(1) << n) - 1;
            vector<IntervalSet<I_>> sets;
            for (Mask m = 0; m <= all; ++m)
                sets.push_back(make(m));
            for (Mask a = 0; a <= all; ++a)
                for (Mask b = 0; b <= all; ++b) {
                    auto how = show(a) + show(b);
                    binary(sets[a], a, sets[b], b, how);
                    auto t = sets[a];
                    t.intersect_with(sets[b]);
                    ctx.count("transitions");
                    vector<pair<int, int>> got;
                    for (auto [l, u] : t.each_interval())
                        got.emplace_back(raw(l) - base, raw(u) - base);
                    if (got != runs(a & b))
                        fail(how, "intersect_with");
                }
            auto self = sets[all];
            self.intersect_with(self);
            queries(self, all, "intersected with itself");
        }
    };

    template <typename I_>
    auto interval_sets(drv::Ctx & ctx, const string & name, int n, int n_pairs, long long base) -> void
    {
        if (ctx.begin("set " + name)) {
            World<I_> w{ctx, "set " + name, n, base, {}};
            w.explore();
            if (w.reached.size() != size_t(1) << n)
                ctx.fail("set " + name, "only " + to_string(w.reached.size()) + " sets reached");
            ctx.sample("set " + name + ": " + to_string(w.reached.size()) + " sets reached");
        }
        if (ctx.begin("pairs " + name)) {
            World<I_> w{ctx, "pairs " + name, n_pairs, base, {}};
            w.pairs();
        }
    }

    auto interval_trees(drv::Ctx & ctx, int width, int depth, long long base) -> void
    {
        vector<pair<int, int>> ivs;
        for (int l = 0; l < width; ++l)
            for (int u = l; u < width; ++u)
                ivs.emplace_back(l, u);
        vector<int> seq;
        auto I = [&](int i) { return Integer{base + i}; };
        auto name = "tree w" + to_string(width) + (base ? "@" + to_string(base) : "");
        auto check = [&](const gcs::innards::IntervalTree & t, const string & id) {
            std::set<pair<int, int>> in;
            for (auto k : seq)
                in.insert(ivs[k]);
            ctx.count("tree_states");
            for (int lo = -1; lo <= width; ++lo)
                for (int hi = lo; hi <= width; ++hi) {
                    vector<pair<int, int>> c, d, wc, wd;
                    t.for_each_containing(I(lo), I(hi), [&](Integer a, Integer b) { c.emplace_back(raw(a) - base, raw(b) - base); });
                    t.for_each_contained_in(I(lo), I(hi), [&](Integer a, Integer b) { d.emplace_back(raw(a) - base, raw(b) - base); });
                    for (auto & p : in) {
                        if (p.first <= lo && hi <= p.second)
                            wc.push_back(p);
                        if (lo <= p.first && p.second <= hi)
                            wd.push_back(p);
                    }
                    ctx.count("tree_queries", 2);
                    if (c != wc)
                        ctx.fail(id, "containing " + s(lo) + " " + s(hi) + ": " + to_string(c.size()) + " intervals, not " + to_string(wc.size()));
                    if (d != wd)
                        ctx.fail(id, "contained in " + s(lo) + " " + s(hi) + ": " + to_string(d.size()) + " intervals, not " + to_string(wd.size()));
                }
        };
        auto rec = [&](auto & self) -> void {
            if (! seq.empty()) {
                string id = name;
                for (auto k : seq)
                    id += "/" + s(ivs[k].first) + "-" + s(ivs[k].second);
                // (cases are sharded on their first two insertions)
                gcs::innards::IntervalTree t;
                for (auto k : seq)
                    t.insert(I(ivs[k].first), I(ivs[k].second));
                check(t, id);
            }
            if (int(seq.size()) == depth)
                return;
            for (size_t k = 0; k < ivs.size(); ++k) {
                seq.push_back(k);
                self(self);
                seq.pop_back();
            }
        };
        for (size_t a = 0; a < ivs.size(); ++a)
            for (size_t b = 0; b < ivs.size(); ++b)
                if (ctx.begin(name + " from " + to_string(a) + "," + to_string(b))) {
                    seq = {int(a), int(b)};
                    rec(rec);
                    ctx.sample(name + " from " + to_string(a) + "," + to_string(b));
                }
    }
    // Long insertion orders, so that every rotation shape of the treap occurs.
    auto long_trees(drv::Ctx & ctx, int width) -> void
    {
        vector<pair<int, int>> ivs;
        for (int l = 0; l < width; ++l)
            for (int u = l; u < width; ++u)
                ivs.emplace_back(l, u);
        size_t n = ivs.size();
        for (size_t stride = 1; stride < n; ++stride) {
            if (std::__gcd(stride, n) != 1)
                continue;
            for (size_t start = 0; start < n; ++start) {
                auto id = "long tree w" + to_string(width) + "/" + to_string(stride) + "/" + to_string(start);
                if (! ctx.begin(id))
                    continue;
                gcs::innards::IntervalTree t;
                std::set<pair<int, int>> in;
                for (size_t i = 0; i < n; ++i) {
                    auto p = ivs[(start + i * stride) % n];
                    t.insert(Integer{p.first}, Integer{p.second});
                    in.insert(p);
                    if (i % 3 == 0)
                        t.insert(Integer{p.first}, Integer{p.second});
                    ctx.count("tree_states");
                    for (int lo = 0; lo < width; ++lo)
                        for (int hi = lo; hi < width; ++hi) {
                            vector<pair<int, int>> c, d, wc, wd;
                            t.for_each_containing(Integer{lo}, Integer{hi}, [&](Integer a, Integer b) { c.emplace_back(raw(a), raw(b)); });
                            t.for_each_contained_in(Integer{lo}, Integer{hi}, [&](Integer a, Integer b) { d.emplace_back(raw(a), raw(b)); });
                            for (auto & q : in) {
                                if (q.first <= lo && hi <= q.second)
                                    wc.push_back(q);
                                if (lo <= q.first && q.second <= hi)
                                    wd.push_back(q);
                            }
                            ctx.count("tree_queries", 2);
                            if (c != wc || d != wd)
                                ctx.fail(id, "after " + to_string(i + 1) + " insertions, query " + s(lo) + " " + s(hi));
                        }
                }
            }
        }
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    ctx.limit_s = 600;
    int n = ctx.thorough ? 13 : 11, np = ctx.thorough ? 11 : 9;
    interval_sets<Integer>(ctx, "Integer@0", n, np, 0);
    interval_sets<Integer>(ctx, "Integer@-5", n, np, -5);
    interval_sets<Integer>(ctx, "Integer@2^62", 8, 7, (1ll << 62));
    interval_sets<Integer>(ctx, "Integer@-2^62", 8, 7, -(1ll << 62) - 3);
    interval_sets<Integer>(ctx, "Integer@2^31", 8, 7, (1ll << 31) - 4);
    interval_sets<int>(ctx, "int@-3", 9, 8, -3);
    interval_sets<long long>(ctx, "long long@7", 9, 8, 7);
    interval_trees(ctx, 3, ctx.thorough ? 8 : 6, 0);
    interval_trees(ctx, 4, ctx.thorough ? 6 : 5, -2);
    interval_trees(ctx, 3, 5, -(1ll << 62));
    long_trees(ctx, 6);
    long_trees(ctx, ctx.thorough ? 9 : 7);
    ctx.finish();
}
