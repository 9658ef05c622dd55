// Shared vocabulary of the bounded-exhaustive drivers: an Inst is one small
// problem together with an independent definition of its meaning.
#ifndef VERIF_CORE_HH
#define VERIF_CORE_HH
#include <gcs/gcs.hh>

#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace vc
{
    using gcs::Integer;
    using gcs::IntegerVariableID;
    using gcs::Problem;
    using Val = long long;
    using Vals = std::vector<Val>;
    using Vars = std::vector<IntegerVariableID>;
    using PostFn = std::function<void(Problem &, const Vars &)>;
    using OkFn = std::function<bool(const Vals &)>;

    inline auto I(Val v) -> Integer { return Integer{v}; }
    inline auto Is(const Vals & v) -> std::vector<Integer>
    {
        std::vector<Integer> r;
        for (auto x : v)
            r.push_back(Integer{x});
        return r;
    }
    inline auto sub(const Vars & v, size_t from, size_t n) -> Vars { return Vars(v.begin() + from, v.begin() + from + n); }
    inline auto sub(const Vals & v, size_t from, size_t n) -> Vals { return Vals(v.begin() + from, v.begin() + from + n); }

    enum Flag : unsigned
    {
        None = 0,
        Gac = 1,           // documented domain consistency, as a single constraint over distinct plain variables
        MayReject = 2,     // the shape may be outside the constraint's contract: an InvalidProblemDefinition is acceptable
        Heavy = 4          // expensive; kept out of the per-history explorations
    };

    struct Inst
    {
        std::string fam;  // family name
        std::string id;   // unique, human readable
        std::vector<Vals> doms;
        PostFn post;
        OkFn ok;
        unsigned flags = 0;
    };
    using Sink = std::function<void(Inst &&)>;

    // A constraint over argument slots, before deciding what goes in each slot.
    struct Base
    {
        std::string fam;
        std::string id;
        std::vector<Vals> args;
        PostFn post;
        OkFn ok;
        unsigned flags = 0;
    };

    enum Shape : unsigned
    {
        Plain = 1,
        NegView = 2,   // one slot at a time is -x + 1
        PosView = 4,   // one slot at a time is x - 2
        Const = 8,     // one slot at a time is a constant (each value of its domain)
        Alias = 16,    // two slots share a variable
        NegAlias = 32, // one slot is the negation of another's variable
        AllView = 64,  // every slot a view, alternating sign
        ConstPair = 128, // two slots constant
        Std = Plain | NegView | PosView | Const | AllView,
        Full = Std | Alias | NegAlias | ConstPair
    };

    auto shapes(const Sink & sink, const Base & b, unsigned which, unsigned alias_flags = 0) -> void;

    auto str(const Vals & v) -> std::string;
    auto str(const std::vector<Vals> & v) -> std::string;

    // Every non-empty subset of [lo, hi].
    auto subsets(Val lo, Val hi) -> std::vector<Vals>;
    // Every non-empty interval of [lo, hi].
    auto intervals(Val lo, Val hi) -> std::vector<Vals>;
    auto range(Val lo, Val hi) -> Vals;
    // Every n-tuple over a list.
    template <typename T_, typename F_>
    auto tuples(const std::vector<T_> & from, size_t n, F_ && f) -> void
    {
        std::vector<size_t> ix(n, 0);
        if (from.empty() && n > 0)
            return;
        std::vector<T_> cur(n, n > 0 ? from[0] : T_{});
        while (true) {
            for (size_t i = 0; i < n; ++i)
                cur[i] = from[ix[i]];
            f(static_cast<const std::vector<T_> &>(cur));
            size_t i = 0;
            while (i < n && ++ix[i] == from.size())
                ix[i++] = 0;
            if (i == n)
                return;
        }
    }
    // Every element of a cartesian product.
    template <typename F_>
    auto product(const std::vector<Vals> & doms, F_ && f) -> void
    {
        Vals cur(doms.size());
        std::vector<size_t> ix(doms.size(), 0);
        for (auto & d : doms)
            if (d.empty())
                return;
        while (true) {
            for (size_t i = 0; i < doms.size(); ++i)
                cur[i] = doms[i][ix[i]];
            f(static_cast<const Vals &>(cur));
            size_t i = 0;
            while (i < doms.size() && ++ix[i] == doms[i].size())
                ix[i++] = 0;
            if (i == doms.size())
                return;
        }
    }

    auto all_solutions(const Inst &) -> std::set<Vals>;
    auto make_vars(Problem &, const std::vector<Vals> & doms, const std::string & prefix = "v") -> Vars;

    // size: 0 tiny (proof and history explorations), 1 quick, 2 thorough.
    struct Family
    {
        std::string group; // arith, comp, count, table, sched
        std::string name;
        std::function<void(const Sink &, int size)> gen;
    };
    auto families() -> const std::vector<Family> &;
    auto add_arith(std::vector<Family> &) -> void;
    auto add_comp(std::vector<Family> &) -> void;
    auto add_count(std::vector<Family> &) -> void;
    auto add_table(std::vector<Family> &) -> void;
    auto add_sched(std::vector<Family> &) -> void;

    // A palette of constraints over three or four shared variables, for the
    // properties about whole problems.
    struct PalEntry
    {
        std::string name;
        PostFn post; // over all palette variables
        OkFn ok;
    };
    struct Palette
    {
        std::string name;
        std::vector<Vals> doms;
        std::vector<PalEntry> entries;
    };
    auto palettes() -> const std::vector<Palette> &;
}
#endif
