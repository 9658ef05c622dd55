// Problems made of several palette constraints.
#ifndef VERIF_PROB_HH
#define VERIF_PROB_HH
#include "core.hh"
#include <algorithm>

namespace vc
{
    struct PalTruth
    {
        const Palette * pal;
        std::vector<Vals> points;
        std::vector<std::vector<bool>> holds; // entry, point
    };
    inline auto truths() -> const std::vector<PalTruth> &
    {
        static const std::vector<PalTruth> r = [] {
            std::vector<PalTruth> t;
            for (auto & p : palettes()) {
                PalTruth x{&p, {}, {}};
                product(p.doms, [&](const Vals & v) { x.points.push_back(v); });
                for (auto & e : p.entries) {
                    x.holds.emplace_back();
                    for (auto & pt : x.points)
                        x.holds.back().push_back(e.ok(pt));
                }
                t.push_back(std::move(x));
            }
            return t;
        }();
        return r;
    }
    struct Case
    {
        const PalTruth * t;
        std::vector<size_t> es;
        auto id() const -> std::string
        {
            std::string r = t->pal->name + "/";
            for (size_t i = 0; i < es.size(); ++i)
                r += (i ? "+" : "") + t->pal->entries[es[i]].name;
            return r;
        }
        auto solutions() const -> std::vector<Vals>
        {
            std::vector<Vals> r;
            for (size_t i = 0; i < t->points.size(); ++i) {
                bool ok = true;
                for (auto e : es)
                    ok = ok && t->holds[e][i];
                if (ok)
                    r.push_back(t->points[i]);
            }
            return r;
        }
        auto build(Problem & p, const std::string & prefix = "v") const -> Vars
        {
            auto x = make_vars(p, t->pal->doms, prefix);
            for (auto e : es)
                t->pal->entries[e].post(p, x);
            return x;
        }
    };
    // Every set of n distinct entries of each palette, in index order.
    template <typename F_>
    auto each_subset(size_t n, F_ && f) -> void
    {
        for (auto & t : truths()) {
            auto k = t.pal->entries.size();
            std::vector<size_t> ix;
            auto go = [&](auto & self, size_t from) -> void {
                if (ix.size() == n) {
                    f(Case{&t, ix});
                    return;
                }
                for (size_t i = from; i < k; ++i) {
                    ix.push_back(i);
                    self(self, i + 1);
                    ix.pop_back();
                }
            };
            go(go, 0);
        }
    }
    template <typename S_>
    auto read(const S_ & s, const Vars & x) -> Vals
    {
        Vals r;
        for (auto & v : x)
            r.push_back(s(v).raw_value);
        return r;
    }
    // The first disagreement between a sorted list of expected solutions and what was reported, or nothing.
    inline auto compare(const std::vector<Vals> & want, std::vector<Vals> got) -> std::string
    {
        std::sort(got.begin(), got.end());
        for (size_t i = 1; i < got.size(); ++i)
            if (got[i] == got[i - 1])
                return "reported twice: " + str(got[i]);
        auto w = want;
        std::sort(w.begin(), w.end());
        for (auto & g : got)
            if (! std::binary_search(w.begin(), w.end(), g))
                return "reported non-solution " + str(g);
        for (auto & g : w)
            if (! std::binary_search(got.begin(), got.end(), g))
                return "missed solution " + str(g);
        return "";
    }
}
#endif
