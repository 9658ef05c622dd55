// Palettes: constraints of every kind over the same four variables, with their
// meanings, for the properties about problems holding several constraints.
#include "core.hh"

#include <gcs/constraints/at_most_one.hh>

#include <algorithm>
#include <set>
#include <unordered_map>
using namespace vc;
using namespace gcs;
using std::function; using std::string; using std::to_string; using std::vector;

namespace
{
    struct Builder
    {
        Palette p;
        auto add(const string & name, PostFn post, OkFn ok) -> void { p.entries.push_back({name, std::move(post), std::move(ok)}); }
    };

    auto distinct(const Vals & v) -> bool
    {
        for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = i + 1; j < v.size(); ++j)
                if (v[i] == v[j])
                    return false;
        return true;
    }
    auto tour(const Vals & v) -> bool
    {
        Val at = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[at] < 0 || v[at] >= Val(v.size()))
                return false;
            at = v[at];
            if (at == 0)
                return i + 1 == v.size();
        }
        return false;
    }

#define POST(...) [](Problem & p, const Vars & x) { (void) x; p.post(__VA_ARGS__); }
#define DO(...) [](Problem & p, const Vars & x) { (void) x; __VA_ARGS__; }
#define WHEN(...) [](const Vals & v) -> bool { (void) v; return __VA_ARGS__; }

    // Three integers (one with a hole) and a Boolean.
    auto mixed() -> Palette
    {
        Builder b;
        b.p.name = "mixed";
        b.p.doms = {range(0, 3), range(0, 3), {0, 2, 3}, {0, 1}};
        b.add("lineq", POST(WeightedSum{} + 2_i * x[0] + 1_i * x[1] + -1_i * x[2] == 3_i), WHEN(2 * v[0] + v[1] - v[2] == 3));
        b.add("linle", POST(WeightedSum{} + 1_i * x[0] + 2_i * x[1] + 3_i * x[2] <= 8_i), WHEN(v[0] + 2 * v[1] + 3 * v[2] <= 8));
        b.add("linge", POST(WeightedSum{} + 1_i * x[0] + -2_i * x[1] + 1_i * x[3] >= -2_i), WHEN(v[0] - 2 * v[1] + v[3] >= -2));
        b.add("linne", POST((LinearNotEquals{WeightedSum{} + 1_i * x[0] + 1_i * x[1] + 1_i * x[2], 4_i})), WHEN(v[0] + v[1] + v[2] != 4));
        b.add("lineqif", POST((LinearEqualityIf{WeightedSum{} + 1_i * x[0] + 1_i * x[1], 3_i, x[3] == 1_i})), WHEN(v[3] != 1 || v[0] + v[1] == 3));
        b.add("linleiff", POST((LinearLessThanEqualIff{WeightedSum{} + 1_i * x[0] + -1_i * x[1] + 1_i * x[2], 1_i, x[3] == 1_i})), WHEN((v[3] == 1) == (v[0] - v[1] + v[2] <= 1)));
        b.add("lineqtab", DO({ LinearEquality e(WeightedSum{} + 1_i * x[0] + 3_i * x[1] + 1_i * x[2], 6_i); e.with_consistency(consistency::Tabulated{}); p.post(e); }), WHEN(v[0] + 3 * v[1] + v[2] == 6));
        b.add("plus", POST((Plus{x[0], x[1], x[2]})), WHEN(v[0] + v[1] == v[2]));
        b.add("minus", POST((Minus{x[0], x[2], x[3]})), WHEN(v[0] - v[2] == v[3]));
        b.add("mult", POST((Multiply{x[0], x[1], x[2]})), WHEN(v[0] * v[1] == v[2]));
        b.add("square", POST((Multiply{x[0], x[0], x[1]})), WHEN(v[0] * v[0] == v[1]));
        b.add("multb", POST((Multiply{x[0], x[3], x[2]})), WHEN(v[0] * v[3] == v[2]));
        b.add("div", POST((Divide{x[0], x[1], x[2]})), WHEN(v[1] != 0 && v[0] / v[1] == v[2]));
        b.add("mod", POST((Modulus{x[0], x[1], x[2]})), WHEN(v[1] != 0 && v[0] % v[1] == v[2]));
        b.add("pow", POST((Power{x[0], x[3], x[1]})), WHEN((v[3] ? v[0] : 1) == v[1]));
        b.add("abs", POST((Abs{x[0] - 2_i, x[2]})), WHEN(std::abs(v[0] - 2) == v[2]));
        b.add("min", POST((ArrayMin{{x[0], x[1], x[2]}, x[3]})), WHEN(std::min({v[0], v[1], v[2]}) == v[3]));
        b.add("max", POST((ArrayMax{{x[0], x[1]}, x[2]})), WHEN(std::max(v[0], v[1]) == v[2]));
        b.add("eq", POST((Equals{x[0], x[1]})), WHEN(v[0] == v[1]));
        b.add("ne", POST((NotEquals{x[0], x[2]})), WHEN(v[0] != v[2]));
        b.add("eqiff", POST((EqualsIff{x[0], x[2], x[3] == 1_i})), WHEN((v[3] == 1) == (v[0] == v[2])));
        b.add("neif", POST((NotEqualsIf{x[1], x[2], x[3] == 0_i})), WHEN(v[3] != 0 || v[1] != v[2]));
        b.add("lt", POST((LessThan{x[0], x[1]})), WHEN(v[0] < v[1]));
        b.add("geiff", POST((GreaterThanEqualIff{x[1], x[2], x[3] == 1_i})), WHEN((v[3] == 1) == (v[1] >= v[2])));
        b.add("ltif", POST((LessThanIf{x[0], x[1], x[2] >= 2_i})), WHEN(v[2] < 2 || v[0] < v[1]));
        b.add("alldiff", POST((AllDifferent{{x[0], x[1], x[2]}})), WHEN(distinct({v[0], v[1], v[2]})));
        b.add("alldiffvc", DO({ AllDifferent c({x[0], x[1], x[2], x[3]}); c.with_consistency(consistency::VC{}); p.post(c); }), WHEN(distinct(v)));
        b.add("alldiffex", POST((AllDifferentExcept{{x[0], x[1], x[2], x[3]}, {0_i, 3_i}})), WHEN([&] { for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) if (v[i] == v[j] && v[i] != 0 && v[i] != 3) return false; return true; }()));
        b.add("count", POST((Count{{x[0], x[1], x[2]}, 2_c, x[3]})), WHEN((v[0] == 2) + (v[1] == 2) + (v[2] == 2) == v[3]));
        b.add("countv", POST((Count{{x[0], x[1]}, x[2], x[3]})), WHEN((v[0] == v[2]) + (v[1] == v[2]) == v[3]));
        b.add("among", POST((Among{{x[0], x[1], x[2]}, {0_i, 2_i}, x[3]})), WHEN((v[0] % 2 == 0) + (v[1] % 2 == 0) + (v[2] % 2 == 0) == v[3]));
        b.add("atmost", POST((AtMostOne{{x[0], x[1], x[2]}, x[3]})), WHEN((v[0] == v[3]) + (v[1] == v[3]) + (v[2] == v[3]) <= 1));
        b.add("nvalue", POST((NValue{x[2], {x[0], x[1], x[3]}})), WHEN(Val(std::set<Val>{v[0], v[1], v[3]}.size()) == v[2]));
        b.add("gcc", POST((GlobalCardinality{{x[0], x[1]}, {1_i, 2_i}, {x[3], x[2]}})), WHEN((v[0] == 1) + (v[1] == 1) == v[3] && (v[0] == 2) + (v[1] == 2) == v[2]));
        b.add("gccgac", DO({ GlobalCardinality c({x[0], x[1], x[2]}, {2_i, 0_i}, {x[3], 1_c}); c.with_consistency(consistency::GAC{}); p.post(c); }), WHEN((v[0] == 2) + (v[1] == 2) + (v[2] == 2) == v[3] && (v[0] == 0) + (v[1] == 0) + (v[2] == 0) == 1));
        b.add("table", POST((Table{{x[0], x[1], x[3]}, SimpleTuples{Is({0, 1, 1}), Is({1, 3, 0}), Is({3, 0, 1}), Is({2, 2, 0}), Is({3, 3, 1})}})), WHEN((std::set<Vals>{{0, 1, 1}, {1, 3, 0}, {3, 0, 1}, {2, 2, 0}, {3, 3, 1}}.count({v[0], v[1], v[3]}))));
        b.add("wild", POST((Table{{x[0], x[1], x[2]}, WildcardTuples{{1_i, Wildcard{}, 2_i}, {Wildcard{}, 3_i, 3_i}, {0_i, 0_i, Wildcard{}}}})), WHEN((v[0] == 1 && v[2] == 2) || (v[1] == 3 && v[2] == 3) || (v[0] == 0 && v[1] == 0)));
        b.add("negtable", POST((NegativeTable{{x[1], x[2]}, SimpleTuples{Is({0, 0}), Is({1, 2}), Is({3, 3}), Is({2, 3})}})), WHEN((! std::set<Vals>{{0, 0}, {1, 2}, {3, 3}, {2, 3}}.count({v[1], v[2]}))));
        b.add("smart", DO({ SmartTuples st; st.push_back({SmartTable::less_than(x[0], x[1]), SmartTable::equals(x[2], 2_i)}); st.push_back({SmartTable::equals(x[0], x[2]), SmartTable::greater_than(x[1], 1_i)}); p.post(SmartTable({x[0], x[1], x[2]}, st)); }), WHEN((v[0] < v[1] && v[2] == 2) || (v[0] == v[2] && v[1] > 1)));
        b.add("element", POST((Element{x[3], x[0], {x[1], x[2], x[3]}})), WHEN(v[0] <= 2 && (v[0] == 0 ? v[1] : v[0] == 1 ? v[2] : v[3]) == v[3]));
        b.add("elemconst", POST((ElementConstantArray{x[2], x[0], Is({3, 2, 0, 1})})), WHEN((Vals{3, 2, 0, 1})[v[0]] == v[2]));
        b.add("elem2d", POST((Element2DConstantArray{x[2], x[0], x[3], vector<vector<Integer>>{Is({0, 1}), Is({2, 3}), Is({3, 0}), Is({2, 2})}})), WHEN((vector<Vals>{{0, 1}, {2, 3}, {3, 0}, {2, 2}})[v[0]][v[3]] == v[2]));
        b.add("regex", POST((Regular{{x[0], x[1], x[2]}, string("0* (1|2)+ 3?")})), WHEN([&] {
            int q = 0;
            for (int i = 0; i < 3; ++i) {
                auto c = v[i];
                if (q == 0) q = c == 0 ? 0 : c == 1 || c == 2 ? 1 : -1;
                else if (q == 1) q = c == 1 || c == 2 ? 1 : c == 3 ? 2 : -1;
                else q = -1;
                if (q < 0) return false;
            }
            return q > 0; }()));
        b.add("precede", POST((ValuePrecede{{0_i, 2_i, 3_i}, {x[0], x[1], x[2]}})), WHEN([&] { bool s0 = false, s2 = false; for (int i = 0; i < 3; ++i) { if (v[i] == 2 && ! s0) return false; if (v[i] == 3 && ! s2) return false; s0 |= v[i] == 0; s2 |= v[i] == 2; } return true; }()));
        b.add("seqprec", POST((SeqPrecedeChain{{x[0], x[1], x[2]}})), WHEN([&] { Val m = 0; for (int i = 0; i < 3; ++i) { if (v[i] > m + 1) return false; m = std::max(m, v[i]); } return true; }()));
        b.add("lex", POST((LexLessThan{{x[0], x[1]}, {x[2], x[3]}})), WHEN((Vals{v[0], v[1]} < Vals{v[2], v[3]})));
        b.add("lexiff", POST((LexGreaterEqualIff{{x[0], x[2]}, {x[1], x[0]}, x[3] == 1_i})), WHEN((v[3] == 1) == (Vals{v[0], v[2]} >= Vals{v[1], v[0]})));
        b.add("incr", POST((Increasing{{x[0], x[1], x[2]}})), WHEN(v[0] <= v[1] && v[1] <= v[2]));
        b.add("decr", POST((StrictlyDecreasing{{x[2], x[1], x[3]}})), WHEN(v[2] > v[1] && v[1] > v[3]));
        b.add("alleq", POST((AllEqual{{x[0], x[1], x[2]}})), WHEN(v[0] == v[1] && v[1] == v[2]));
        b.add("in", POST((In{x[0], {x[1], x[2]}, {3_i}})), WHEN(v[0] == v[1] || v[0] == v[2] || v[0] == 3));
        b.add("or", POST((Or{{x[0] >= 2_i, x[1] == 0_i, x[2] < 2_i}, x[3] == 1_i})), WHEN((v[3] == 1) == (v[0] >= 2 || v[1] == 0 || v[2] < 2)));
        b.add("and", POST((And{{x[0] != 2_i, x[1] < 3_i}, x[3] == 1_i})), WHEN((v[3] == 1) == (v[0] != 2 && v[1] < 3)));
        b.add("orc", POST((Or{{x[0] >= 2_i, x[1] == 0_i, x[3] == 1_i}, gcs::innards::TrueLiteral{}})), WHEN(v[0] >= 2 || v[1] == 0 || v[3] == 1));
        b.add("parity", POST((ParityOdd{gcs::innards::Literals{x[0] >= 1_i, x[1] >= 2_i, x[3] == 1_i}})), WHEN(((v[0] >= 1) + (v[1] >= 2) + (v[3] == 1)) % 2 == 1));
        b.add("nogoods", POST((Nogoods{{Nogood{x[0] >= 2_i, x[1] < 2_i}, Nogood{x[2] == 3_i, x[3] == 0_i, x[0] < 3_i}}, false})), WHEN(! (v[0] >= 2 && v[1] < 2) && ! (v[2] == 3 && v[3] == 0 && v[0] < 3)));
        b.add("knap", POST((Knapsack{Is({1, 2}), Is({2, 1}), {x[0], x[3]}, x[1], x[2]})), WHEN(v[0] + 2 * v[3] == v[1] && 2 * v[0] + v[3] == v[2]));
        b.add("diff", DO({ vector<DifferenceEdge> e; e.push_back({x[0], x[1], 1_i}); e.push_back({x[1], x[2], 0_i}); DifferenceEdge c{x[2], x[0], -1_i}; c.cond = x[3] == 1_i; e.push_back(c); p.post(DifferenceConstraints{e}); }), WHEN(v[0] - v[1] <= 1 && v[1] - v[2] <= 0 && (v[3] != 1 || v[2] - v[0] <= -1)));
        return b.p;
    }

    // Four variables with the same domain, for the permutation and graph constraints.
    auto perm() -> Palette
    {
        Builder b;
        b.p.name = "perm";
        b.p.doms = {range(0, 3), range(0, 3), range(0, 3), range(0, 3)};
        b.add("circuit", POST((Circuit{x})), WHEN(tour(v)));
        b.add("circuitp", DO({ Circuit c(x); c.with_algorithm(circuit::Prevent{}); p.post(c); }), WHEN(tour(v)));
        b.add("circuitg", DO({ Circuit c(x); c.with_gac_all_different(true); p.post(c); }), WHEN(tour(v)));
        b.add("alldiff", POST((AllDifferent{x})), WHEN(distinct(v)));
        b.add("alldiffvc", DO({ AllDifferent c(x); c.with_consistency(consistency::VC{}); p.post(c); }), WHEN(distinct(v)));
        b.add("symalldiff", POST((SymmetricAllDifferent{x, 0_i})), WHEN(distinct(v) && v[v[0]] == 0 && v[v[1]] == 1 && v[v[2]] == 2 && v[v[3]] == 3));
        b.add("inverse", POST((Inverse{{x[0], x[1]}, {x[2], x[3]}})), WHEN(v[0] < 2 && v[1] < 2 && v[2] < 2 && v[3] < 2 && v[2 + v[0]] == 0 && v[2 + v[1]] == 1 && v[v[2]] == 0 && v[v[3]] == 1));
        b.add("sort", POST((Sort{{x[0], x[1]}, {x[2], x[3]}})), WHEN(v[2] == std::min(v[0], v[1]) && v[3] == std::max(v[0], v[1])));
        b.add("argsort", POST((ArgSort{{x[0], x[1]}, {x[2], x[3]}, 1_i})), WHEN(v[0] <= v[1] ? v[2] == 1 && v[3] == 2 : v[2] == 2 && v[3] == 1));
        b.add("gcc", DO({ GlobalCardinality c(x, {0_i, 1_i, 3_i}, {1_c, x[3], 1_c}); p.post(c); }), WHEN(std::count(v.begin(), v.end(), 0) == 1 && std::count(v.begin(), v.end(), 1) == v[3] && std::count(v.begin(), v.end(), 3) == 1));
        b.add("gccg", DO({ GlobalCardinality c({x[0], x[1], x[2]}, {0_i, 1_i, 2_i}, {x[3], 1_c, x[3] - 1_i}); c.with_consistency(consistency::GAC{}); p.post(c); }), WHEN(std::count(v.begin(), v.begin() + 3, 0) == v[3] && std::count(v.begin(), v.begin() + 3, 1) == 1 && std::count(v.begin(), v.begin() + 3, 2) == v[3] - 1));
        b.add("nvalue", POST((NValue{x[3], {x[0], x[1], x[2]}})), WHEN(Val(std::set<Val>(v.begin(), v.begin() + 3).size()) == v[3]));
        b.add("count", POST((Count{{x[0], x[1], x[2]}, x[3], 1_c})), WHEN(std::count(v.begin(), v.begin() + 3, v[3]) == 1));
        b.add("among", POST((Among{{x[0], x[1], x[2]}, {1_i, 3_i}, x[3]})), WHEN(std::count_if(v.begin(), v.begin() + 3, [](Val a) { return a % 2; }) == v[3]));
        b.add("lexle", POST((LexLessThanEqual{{x[0], x[1]}, {x[2], x[3]}})), WHEN((Vals{v[0], v[1]} <= Vals{v[2], v[3]})));
        b.add("lexcross", POST((LexLessThan{{x[0], x[1], x[2], x[3]}, {x[3], x[2], x[1], x[0]}})), WHEN((Vals{v[0], v[1], v[2], v[3]} < Vals{v[3], v[2], v[1], v[0]})));
        b.add("sincr", POST((StrictlyIncreasing{{x[0], x[2], x[3]}})), WHEN(v[0] < v[2] && v[2] < v[3]));
        b.add("sum", POST(WeightedSum{} + 1_i * x[0] + 1_i * x[1] + 1_i * x[2] + 1_i * x[3] == 6_i), WHEN(v[0] + v[1] + v[2] + v[3] == 6));
        b.add("sumle", POST(WeightedSum{} + 3_i * x[0] + -2_i * x[1] + 1_i * x[2] + 1_i * x[3] <= 3_i), WHEN(3 * v[0] - 2 * v[1] + v[2] + v[3] <= 3));
        b.add("bins", DO({ BinPacking c(x, Is({1, 2, 2, 3}), Is({3, 3, 2, 1})); p.post(c); }), WHEN([&] { Vals s{1, 2, 2, 3}, c{3, 3, 2, 1}; for (int i = 0; i < 4; ++i) c[v[i]] -= s[i]; return *std::min_element(c.begin(), c.end()) >= 0; }()));
        b.add("binload", DO({ BinPacking c({x[0], x[1], x[2]}, Is({1, 1, 2}), {x[3], 1_c, -x[3] + 3_i, 0_c}); c.with_consistency(consistency::BC{}); p.post(c); }), WHEN([&] { Vals s{1, 1, 2}, l(4, 0); for (int i = 0; i < 3; ++i) l[v[i]] += s[i]; return l[3] == 0 && l[0] == v[3] && l[1] == 1 && l[2] == 3 - v[3]; }()));
        b.add("mindist", POST((MinDistance{{x[0], x[1], x[2]}, x[3], vector<vector<Integer>>{Is({0, 2, 3, 1}), Is({2, 0, 1, 2}), Is({3, 1, 0, 2}), Is({1, 2, 2, 0})}})), WHEN([&] { vector<Vals> d{{0, 2, 3, 1}, {2, 0, 1, 2}, {3, 1, 0, 2}, {1, 2, 2, 0}}; return std::min({d[v[0]][v[1]], d[v[0]][v[2]], d[v[1]][v[2]]}) == v[3]; }()));
        b.add("mdd", DO({
            vector<vector<std::unordered_map<Integer, long>>> t(3);
            t[0] = {{{0_i, 0}, {1_i, 1}, {2_i, 0}}};
            t[1] = {{{1_i, 0}, {3_i, 1}}, {{0_i, 1}, {2_i, 0}}};
            t[2] = {{{0_i, 0}, {3_i, 1}}, {{1_i, 0}, {2_i, 1}}};
            p.post(MDD({x[0], x[1], x[2]}, t, {1, 2, 2, 2}, {0})); }), WHEN([&] { int q = v[0] == 0 || v[0] == 2 ? 0 : v[0] == 1 ? 1 : -1; if (q < 0) return false;
                q = q == 0 ? (v[1] == 1 ? 0 : v[1] == 3 ? 1 : -1) : (v[1] == 0 ? 1 : v[1] == 2 ? 0 : -1); if (q < 0) return false;
                return q == 0 ? v[2] == 0 : v[2] == 1; }()));
        b.add("elem", POST((Element{x[3], x[2], {x[0], x[1], x[3], x[2]}})), WHEN((Vals{v[0], v[1], v[3], v[2]})[v[2]] == v[3]));
        b.add("elem2d", DO({ vector<vector<IntegerVariableID>> m{{x[0], x[1]}, {2_c, x[2]}}; p.post(Element2D(x[3], x[0], x[1], m)); }), WHEN(v[0] < 2 && v[1] < 2 && (v[0] == 0 ? (v[1] == 0 ? v[0] : v[1]) : (v[1] == 0 ? 2 : v[2])) == v[3]));
        b.add("times", POST((Multiply{x[0], x[1], x[2] + 2_i})), WHEN(v[0] * v[1] == v[2] + 2));
        b.add("nots", POST((NotEquals{x[0], x[3]})), WHEN(v[0] != v[3]));
        b.add("modp", POST((Modulus{x[3] + 4_i, x[0] + 1_i, x[1]})), WHEN((v[3] + 4) % (v[0] + 1) == v[1]));
        b.add("divp", POST((Divide{x[3] + 4_i, x[0] + 1_i, x[1]})), WHEN((v[3] + 4) / (v[0] + 1) == v[1]));
        b.add("cmp", POST((LessThanEqual{x[1], x[2]})), WHEN(v[1] <= v[2]));
        b.add("regul", POST((Regular{{x[0], x[1], x[2], x[3]}, 2, vector<std::unordered_map<Integer, long>>{{{0_i, 0}, {1_i, 1}, {2_i, 1}}, {{3_i, 0}, {0_i, 1}, {2_i, 1}}}, {1}})), WHEN([&] { int q = 0; for (auto c : v) { if (q == 0) q = c == 0 ? 0 : c == 1 || c == 2 ? 1 : -1; else q = c == 3 ? 0 : c == 0 || c == 2 ? 1 : -1; if (q < 0) return false; } return q == 1; }()));
        return b.p;
    }

    auto cumul_ok(const Vals & s, const Vals & l, const Vals & h, Val cap) -> bool
    {
        for (Val t = -2; t < 12; ++t) {
            Val u = 0;
            for (size_t i = 0; i < s.size(); ++i)
                if (s[i] <= t && t < s[i] + l[i])
                    u += h[i];
            if (u > cap)
                return false;
        }
        return true;
    }

    // Three starts and a makespan.
    auto sched() -> Palette
    {
        Builder b;
        b.p.name = "sched";
        b.p.doms = {range(0, 3), range(0, 3), range(0, 3), range(2, 5)};
        b.add("cumul", POST((Cumulative{{x[0], x[1], x[2]}, Is({2, 1, 2}), Is({1, 2, 1}), 2_i})), WHEN(cumul_ok({v[0], v[1], v[2]}, {2, 1, 2}, {1, 2, 1}, 2)));
        b.add("cumulall", DO({ CumulativeRules r; r.edge_finding = r.energetic_edge_finding = r.elastic_overload = r.knapsack_overload = r.not_first_not_last = true; p.post(Cumulative({x[0], x[1], x[2]}, Is({2, 2, 1}), Is({2, 1, 1}), 2_i).with_rules(r)); }), WHEN(cumul_ok({v[0], v[1], v[2]}, {2, 2, 1}, {2, 1, 1}, 2)));
        b.add("cumulv", POST((Cumulative{{x[0], x[1], x[2]}, vector<IntegerVariableID>{x[3] - 2_i, 2_c, 1_c}, vector<IntegerVariableID>{1_c, 1_c, 2_c}, 2_c})), WHEN(cumul_ok({v[0], v[1], v[2]}, {v[3] - 2, 2, 1}, {1, 1, 2}, 2)));
        b.add("cumulcap", POST((Cumulative{{x[0], x[1]}, vector<IntegerVariableID>{2_c, 2_c}, vector<IntegerVariableID>{2_c, 2_c}, x[3]})), WHEN(cumul_ok({v[0], v[1]}, {2, 2}, {2, 2}, v[3])));
        b.add("disj", POST((Disjunctive{{x[0], x[1], x[2]}, Is({1, 2, 1})})), WHEN(cumul_ok({v[0], v[1], v[2]}, {1, 2, 1}, {1, 1, 1}, 1)));
        b.add("disjall", DO({ DisjunctiveRules r; r.detectable_precedences_set = r.overload = r.edge_finding = r.not_first_not_last = true; p.post(Disjunctive({x[0], x[1], x[2]}, Is({1, 1, 2})).with_rules(r)); }), WHEN(cumul_ok({v[0], v[1], v[2]}, {1, 1, 2}, {1, 1, 1}, 1)));
        b.add("disj2d", POST((Disjunctive2D{{x[0], x[1]}, {x[2], 1_c}, Is({2, 1}), Is({1, 2})})), WHEN(v[0] + 2 <= v[1] || v[1] + 1 <= v[0] || v[2] + 1 <= 1 || 1 + 2 <= v[2]));
        b.add("end0", POST(WeightedSum{} + 1_i * x[0] + -1_i * x[3] <= -2_i), WHEN(v[0] + 2 <= v[3]));
        b.add("end1", POST((LessThanEqual{x[1] + 1_i, x[3]})), WHEN(v[1] + 1 <= v[3]));
        b.add("prec", POST(WeightedSum{} + 1_i * x[0] + -1_i * x[2] <= -1_i), WHEN(v[0] + 1 <= v[2]));
        b.add("precle", POST((LessThan{x[1], x[2]})), WHEN(v[1] < v[2]));
        b.add("endall", DO({ p.post(WeightedSum{} + 1_i * x[0] + -1_i * x[3] <= -1_i); p.post(WeightedSum{} + 1_i * x[1] + -1_i * x[3] <= -1_i); p.post(WeightedSum{} + 1_i * x[2] + -1_i * x[3] <= -2_i); }), WHEN(v[0] + 1 <= v[3] && v[1] + 1 <= v[3] && v[2] + 2 <= v[3]));
        b.add("disjlin", DO({ p.post(LinearLessThanEqualIf(WeightedSum{} + 1_i * x[0] + -1_i * x[1], -2_i, x[3] >= 4_i)); p.post(LinearLessThanEqualIff(WeightedSum{} + 1_i * x[1] + -1_i * x[2], 0_i, x[3] == 3_i)); }), WHEN((v[3] < 4 || v[0] + 2 <= v[1]) && ((v[3] == 3) == (v[1] <= v[2]))));
        b.add("alldiff", POST((AllDifferent{{x[0], x[1], x[2]}})), WHEN(distinct({v[0], v[1], v[2]})));
        b.add("sumstart", POST(WeightedSum{} + 1_i * x[0] + 1_i * x[1] + 1_i * x[2] + -1_i * x[3] == 0_i), WHEN(v[0] + v[1] + v[2] == v[3]));
        return b.p;
    }

    // Negative and holed domains, through views.
    auto signedp() -> Palette
    {
        Builder b;
        b.p.name = "signed";
        b.p.doms = {range(-2, 2), range(-2, 2), {-3, -1, 0, 4}, {0, 1}};
        b.add("mult", POST((Multiply{x[0], x[1], x[2]})), WHEN(v[0] * v[1] == v[2]));
        b.add("multn", POST((Multiply{-x[0], x[2], x[1] + 2_i})), WHEN(-v[0] * v[2] == v[1] + 2));
        b.add("div", POST((Divide{x[2], x[0], x[1]})), WHEN(v[0] != 0 && v[2] / v[0] == v[1]));
        b.add("mod", POST((Modulus{x[2], x[0], x[1]})), WHEN(v[0] != 0 && v[2] % v[0] == v[1]));
        b.add("abs", POST((Abs{x[0], x[1]})), WHEN(std::abs(v[0]) == v[1]));
        b.add("absn", POST((Abs{x[2], -x[0] + 2_i})), WHEN(std::abs(v[2]) == -v[0] + 2));
        b.add("plus", POST((Plus{-x[0], x[1], x[2] + 1_i})), WHEN(-v[0] + v[1] == v[2] + 1));
        b.add("lineq", POST(WeightedSum{} + -2_i * x[0] + 3_i * x[1] + 1_i * x[2] == 0_i), WHEN(-2 * v[0] + 3 * v[1] + v[2] == 0));
        b.add("linle", POST(WeightedSum{} + -2_i * -x[0] + -1_i * (x[1] + 3_i) + 1_i * x[2] <= -2_i), WHEN(2 * v[0] - (v[1] + 3) + v[2] <= -2));
        b.add("linneiff", POST((LinearNotEqualsIff{WeightedSum{} + 1_i * x[0] + 1_i * x[1], 0_i, x[3] == 1_i})), WHEN((v[3] == 1) == (v[0] + v[1] != 0)));
        b.add("min", POST((ArrayMin{{x[0], -x[1], x[2]}, -x[3]})), WHEN(std::min({v[0], -v[1], v[2]}) == -v[3]));
        b.add("max", POST((Max{x[0], -x[2], x[1] + 1_i})), WHEN(std::max(v[0], -v[2]) == v[1] + 1));
        b.add("eqv", POST((Equals{x[0], -x[1]})), WHEN(v[0] == -v[1]));
        b.add("nev", POST((NotEquals{x[0] + 1_i, x[1]})), WHEN(v[0] + 1 != v[1]));
        b.add("ltv", POST((LessThan{-x[0], x[1] + 1_i})), WHEN(-v[0] < v[1] + 1));
        b.add("adv", POST((AllDifferent{{x[0], -x[1], x[2] + 1_i}})), WHEN(distinct({v[0], -v[1], v[2] + 1})));
        b.add("countv", POST((Count{{x[0], -x[1], x[2]}, -x[0], x[3] + 1_i})), WHEN((v[0] == -v[0]) + (-v[1] == -v[0]) + (v[2] == -v[0]) == v[3] + 1));
        b.add("tabv", POST((Table{{x[0], -x[1]}, SimpleTuples{Is({-2, -2}), Is({-1, 2}), Is({0, 1}), Is({2, 0}), Is({2, 2})}})), WHEN((std::set<Vals>{{-2, -2}, {-1, 2}, {0, 1}, {2, 0}, {2, 2}}.count({v[0], -v[1]}))));
        b.add("elemv", POST((ElementConstantArray{x[2], std::pair{IntegerVariableID{-x[0]}, -2_i}, Is({-3, 0, 4, -1, 4})})), WHEN((Vals{-3, 0, 4, -1, 4})[-v[0] + 2] == v[2]));
        b.add("powv", POST((Power{x[0], x[3] + 1_i, x[2]})), WHEN((v[3] ? v[0] * v[0] : v[0]) == v[2]));
        b.add("orv", POST((Or{{-x[0] >= 1_i, x[1] + 2_i == 0_i}, x[3] == 1_i})), WHEN((v[3] == 1) == (-v[0] >= 1 || v[1] + 2 == 0)));
        b.add("lexv", POST((LexLessThanEqual{{x[0], -x[2]}, {-x[1], x[0]}})), WHEN((Vals{v[0], -v[2]} <= Vals{-v[1], v[0]})));
        return b.p;
    }
}

auto vc::palettes() -> const vector<Palette> &
{
    static const vector<Palette> r = {mixed(), perm(), sched(), signedp()};
    return r;
}
