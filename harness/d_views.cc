// P27: views, conditions and expressions mean what their operators say.
#include "drv.hh"
#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/constraints/linear/utils.hh>
#include <gcs/expression.hh>
#include <gcs/innards/variable_id_utils.hh>
#include <gcs/variable_condition.hh>
#include <gcs/variable_id.hh>
#include <climits>
#include <optional>
#include <unordered_set>
using namespace gcs;
using namespace gcs::innards;
using std::optional;
using std::string;
using std::to_string;
using std::vector;
using wide = __int128;

namespace
{
    // The meaning of a variable handle under an assignment, read off its fields.
    auto eval(const IntegerVariableID & v, const vector<long long> & val) -> wide
    {
        if (auto * s = std::get_if<SimpleIntegerVariableID>(&v))
            return val.at(s->index);
        if (auto * w = std::get_if<ViewOfIntegerVariableID>(&v))
            return (w->negate_first ? -wide(val.at(w->actual_variable.index)) : wide(val.at(w->actual_variable.index))) + w->then_add.raw_value;
        return std::get<ConstantIntegerVariableID>(v).const_value.raw_value;
    }
    template <typename V_>
    auto holds(const VariableConditionFrom<V_> & c, wide v) -> bool
    {
        using enum VariableConditionOperator;
        switch (c.op) {
        case Equal: return v == c.value.raw_value;
        case NotEqual: return v != c.value.raw_value;
        case GreaterEqual: return v >= c.value.raw_value;
        case Less: return v < c.value.raw_value;
        case InRange: return v >= c.value.raw_value && v <= c.upper_value.raw_value;
        case NotInRange: return v < c.value.raw_value || v > c.upper_value.raw_value;
        }
        return false;
    }
    auto fits(wide w) -> bool { return w >= LLONG_MIN && w <= LLONG_MAX; }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    const vector<long long> vals{-5, -3, -1, 0, 1, 2, 4, 7};

    // Chains of + c, - c and unary minus over a variable and a constant.
    {
        vector<long long> cs{-2, -1, 0, 1, 3};
        int n_ops = 1 + 2 * cs.size();
        int depth = ctx.thorough ? 6 : 5;
        for (int base = 0; base < 3; ++base)
            for (int op1 = 0; op1 < n_ops; ++op1) {
                auto id = "chain/" + to_string(base) + "/" + to_string(op1);
                if (! ctx.begin(id))
                    continue;
                auto go = [&](auto & self, IntegerVariableID v, int sign, long long add, int d, const string & how) -> void {
                    ctx.count("states");
                    for (auto x : vals) {
                        wide want = sign * (base == 1 ? 6 : wide(x)) + add;
                        if (eval(v, {x, -100, x + 1 - 1}) != want) {
                            ctx.fail(id, how + " at " + to_string(x));
                            break;
                        }
                        // affine_of agrees
                        auto a = affine_of(v);
                        wide g = (a.var ? wide(a.coeff.raw_value) * x : wide(0)) + a.offset.raw_value;
                        if (g != want || (a.var && (base == 1 || a.var->index != (base == 0 ? 0u : 2u)))) {
                            ctx.fail(id, how + ": affine_of");
                            break;
                        }
                        ctx.count("evaluations");
                    }
                    if (is_constant_variable(v) != (base == 1) || (base == 1 && constant_value_of(v).raw_value != sign * 6 + add))
                        ctx.fail(id, how + ": constant");
                    if (d == depth)
                        return;
                    for (int op = 0; op < n_ops; ++op) {
                        if (d == 0 && op != op1)
                            continue;
                        ctx.count("transitions");
                        if (op == 0)
                            self(self, -v, -sign, -add, d + 1, how + " neg");
                        else if (op % 2)
                            self(self, v + Integer{cs[op / 2]}, sign, add + cs[op / 2], d + 1, how + " + " + to_string(cs[op / 2]));
                        else
                            self(self, v - Integer{cs[op / 2 - 1]}, sign, add - cs[op / 2 - 1], d + 1, how + " - " + to_string(cs[op / 2 - 1]));
                    }
                };
                IntegerVariableID b = base == 0 ? IntegerVariableID{SimpleIntegerVariableID{0}} : base == 1 ? constant_variable(6_i) : IntegerVariableID{SimpleIntegerVariableID{2}};
                go(go, b, 1, 0, 0, base == 0 ? "x0" : base == 1 ? "6" : "x2");
                ctx.sample(id);
            }
    }
    // Extreme offsets: exact or refused.
    if (ctx.begin("extreme offsets")) {
        vector<long long> ex{LLONG_MIN, LLONG_MIN + 1, -(1ll << 62), -1, 0, 1, 1ll << 62, LLONG_MAX - 1, LLONG_MAX};
        for (auto a : ex)
            for (auto b : ex)
                for (int neg = 0; neg < 2; ++neg)
                    for (int k = 0; k < 3; ++k) {
                        IntegerVariableID v = k == 0 ? IntegerVariableID{ViewOfIntegerVariableID{SimpleIntegerVariableID{0}, neg == 1, Integer{a}}} : k == 1 ? constant_variable(Integer{a}) : IntegerVariableID{SimpleIntegerVariableID{0}};
                        for (int op = 0; op < 3; ++op) {
                            ctx.count("transitions");
                            wide off = k == 2 ? 0 : wide(a);
                            wide want = op == 0 ? off + b : op == 1 ? off - b : -off;
                            try {
                                auto r = op == 0 ? v + Integer{b} : op == 1 ? v - Integer{b} : -v;
                                for (long long x : {-3ll, 0ll, 5ll}) {
                                    wide base = k == 1 ? 0 : k == 0 && neg ? -x : x;
                                    if (eval(r, {x}) != (op == 2 ? -base : base) + want)
                                        ctx.fail("extreme offsets", "wrong result from offset " + to_string(a) + " op " + to_string(op) + " " + to_string(b));
                                }
                            }
                            catch (const IntegerOverflow &) {
                                // subtraction may be carried out as adding the negation
                                if (fits(want) && ! (op == 1 && b == LLONG_MIN))
                                    ctx.fail("extreme offsets", "refused offset " + to_string(a) + " op " + to_string(op) + " " + to_string(b));
                            }
                        }
                    }
    }
    // Conditions over every kind of handle.
    auto conditions = [&]<typename V_>(const string & name, const vector<V_> & vars, auto value_of) {
        using C = VariableConditionFrom<V_>;
        for (size_t vi = 0; vi < vars.size(); ++vi) {
            auto id = "condition/" + name + "/" + to_string(vi);
            if (! ctx.begin(id))
                continue;
            auto v = vars[vi];
            vector<std::pair<C, std::function<bool(wide)>>> all;
            for (int k = -3; k <= 3; ++k) {
                Integer K{k};
                all.emplace_back(v == K, [k](wide x) { return x == k; });
                all.emplace_back(v != K, [k](wide x) { return x != k; });
                all.emplace_back(v < K, [k](wide x) { return x < k; });
                all.emplace_back(v <= K, [k](wide x) { return x <= k; });
                all.emplace_back(v > K, [k](wide x) { return x > k; });
                all.emplace_back(v >= K, [k](wide x) { return x >= k; });
                for (int l = -3; l <= 3; ++l) {
                    if (k <= l) {
                        all.emplace_back(in_range(v, K, Integer{l}), [k, l](wide x) { return k <= x && x <= l; });
                        all.emplace_back(not_in_range(v, K, Integer{l}), [k, l](wide x) { return ! (k <= x && x <= l); });
                    }
                    else
                        for (int neg = 0; neg < 2; ++neg)
                            try {
                                (void) (neg ? not_in_range(v, K, Integer{l}) : in_range(v, K, Integer{l}));
                                ctx.fail(id, "empty range accepted");
                            }
                            catch (const InvalidProblemDefinitionException &) {
                            }
                }
            }
            for (auto & [c, f] : all) {
                if (! (c.var == v))
                    ctx.fail(id, "condition on another variable");
                auto n = ! c;
                auto nn = ! n;
                for (wide x = -6; x <= 6; ++x) {
                    ctx.count("evaluations");
                    if (holds(c, x) != f(x))
                        ctx.fail(id, "condition with value " + c.value.to_string());
                    if (holds(n, x) == f(x) || ! (n.var == v))
                        ctx.fail(id, "negated condition with value " + c.value.to_string());
                }
                if (! (nn == c) || (nn <=> c) != 0)
                    ctx.fail(id, "double negation with value " + c.value.to_string());
                // widening to the general handle keeps everything
                if constexpr (std::is_constructible_v<IntegerVariableID, V_>) {
                    IntegerVariableCondition g = c;
                    if (g.op != c.op || g.value != c.value || g.upper_value != c.upper_value || ! (g.var == IntegerVariableID{v}))
                        ctx.fail(id, "widened condition");
                }
            }
            // Equal exactly when they say the same thing; and a strict order.
            for (auto & [a, fa] : all)
                for (auto & [b, fb] : all) {
                    bool same = true;
                    for (wide x = -6; x <= 6; ++x)
                        same = same && fa(x) == fb(x);
                    // (x in a..a is x == a, and the like, are the same condition)
                    ctx.count("pairs");
                    if ((a == b) != same || (a == b) != ((a <=> b) == 0) || ((a < b) + (b < a) + (a == b)) != 1)
                        ctx.fail(id, "comparison of conditions");
                }
            (void) value_of;
        }
    };
    conditions("simple", vector<SimpleIntegerVariableID>{SimpleIntegerVariableID{0}, SimpleIntegerVariableID{3}}, 0);
    conditions("constant", vector<ConstantIntegerVariableID>{2_c, -3_c}, 0);
    conditions("view", vector<ViewOfIntegerVariableID>{ViewOfIntegerVariableID{SimpleIntegerVariableID{0}, true, 3_i}, ViewOfIntegerVariableID{SimpleIntegerVariableID{0}, false, 3_i}}, 0);
    conditions("any", vector<IntegerVariableID>{SimpleIntegerVariableID{1}, constant_variable(1_i), ViewOfIntegerVariableID{SimpleIntegerVariableID{1}, true, 0_i}}, 0);

    // Handles: ordering, equality, hashing, text.
    if (ctx.begin("handles")) {
        vector<IntegerVariableID> hs;
        for (unsigned i = 0; i < 4; ++i) {
            hs.emplace_back(SimpleIntegerVariableID{i});
            for (long long o : {-2, -1, 0, 1, 2})
                for (bool n : {false, true})
                    hs.emplace_back(ViewOfIntegerVariableID{SimpleIntegerVariableID{i}, n, Integer{o}});
        }
        for (long long c : {-2, -1, 0, 1, 2, 3})
            hs.emplace_back(constant_variable(Integer{c}));
        std::set<IntegerVariableID> ordered;
        std::unordered_set<IntegerVariableID> hashed;
        std::set<string> texts;
        for (size_t i = 0; i < hs.size(); ++i) {
            ordered.insert(hs[i]);
            hashed.insert(hs[i]);
            texts.insert(debug_string(hs[i]));
            for (size_t j = 0; j < hs.size(); ++j) {
                ctx.count("pairs");
                auto a = hs[i], b = hs[j];
                if ((a == b) != (i == j) || (a < b) + (b < a) + (a == b) != 1 || (a == b && std::hash<IntegerVariableID>{}(a) != std::hash<IntegerVariableID>{}(b)))
                    ctx.fail("handles", debug_string(a) + " against " + debug_string(b));
                for (size_t k = 0; k < hs.size(); ++k)
                    if (a < b && b < hs[k] && ! (a < hs[k]))
                        ctx.fail("handles", "order is not transitive");
            }
        }
        if (ordered.size() != hs.size() || hashed.size() != hs.size() || texts.size() != hs.size())
            ctx.fail("handles", "distinct handles are merged");
        auto cv = as_constant_variables({3_i, -1_i, 3_i});
        if (cv.size() != 3 || constant_value_of(cv[0]) != 3_i || constant_value_of(cv[1]) != -1_i || constant_value_of(cv[2]) != 3_i)
            ctx.fail("handles", "as_constant_variables");
        // as_homogeneous keeps the sequence whatever the mixture
        for (size_t i = 0; i < hs.size(); i += 3)
            for (size_t j = 0; j < hs.size(); j += 5)
                for (size_t k = 0; k < hs.size(); k += 7) {
                    vector<IntegerVariableID> in{hs[i], hs[j], hs[k]};
                    for (size_t len = 0; len <= 3; ++len) {
                        vector<IntegerVariableID> part(in.begin(), in.begin() + len);
                        auto out = as_homogeneous(part);
                        ctx.count("transitions");
                        vector<IntegerVariableID> back;
                        std::visit([&](auto & o) { for (auto & v : o) back.emplace_back(v); }, out);
                        bool same_kind = true;
                        for (auto & p : part)
                            same_kind = same_kind && p.index() == part[0].index();
                        if (back != part)
                            ctx.fail("handles", "as_homogeneous changes its variables");
                        if (len && (out.index() == 3) == same_kind)
                            ctx.fail("handles", "as_homogeneous classification");
                    }
                }
    }
    // Weighted sums and the linear statements made from them.
    {
        vector<IntegerVariableID> terms{SimpleIntegerVariableID{0}, SimpleIntegerVariableID{1}, -IntegerVariableID{SimpleIntegerVariableID{0}}, IntegerVariableID{SimpleIntegerVariableID{1}} + 2_i, -IntegerVariableID{SimpleIntegerVariableID{1}} - 1_i, constant_variable(3_i), IntegerVariableID{SimpleIntegerVariableID{2}} - 1_i};
        vector<long long> coeffs{-2, -1, 0, 1, 2, 5};
        int max_len = ctx.thorough ? 4 : 3;
        vector<std::pair<int, int>> choice;
        vector<vector<long long>> points;
        for (long long a : {-2, 0, 3})
            for (long long b : {-1, 0, 2})
                for (long long c : {1, -4})
                    points.push_back({a, b, c});
        auto check = [&](const string & id) {
            WeightedSum sum;
            for (auto [c, t] : choice)
                sum += Integer{coeffs[c]} * terms[t];
            WeightedSum sum2;
            for (auto [c, t] : choice)
                sum2 = sum2 + Integer{coeffs[c]} * terms[t];
            ctx.count("states");
            auto value = [&](const auto & s, const vector<long long> & p) {
                wide r = 0;
                for (auto & w : s.terms)
                    r += wide(w.coefficient.raw_value) * eval(w.variable, p);
                return r;
            };
            string what = "sum";
            for (auto [c, t] : choice)
                what += " " + to_string(coeffs[c]) + "*t" + to_string(t);
            auto [tidy, modifier] = tidy_up_linear(sum);
            bool one = true, pm = true;
            std::set<SimpleIntegerVariableID> seen;
            bool dup = false, zero = false;
            auto tidy_value = [&](const vector<long long> & p) {
                return std::visit(
                    [&](auto & s) {
                        wide r = 0;
                        for (auto & t : s.terms)
                            r += wide(get_coeff(t).raw_value) * p[get_var(t).index];
                        return r;
                    },
                    tidy);
            };
            std::visit(
                [&](auto & s) {
                    for (auto & t : s.terms) {
                        dup = dup || ! seen.insert(get_var(t)).second;
                        auto c = get_coeff(t).raw_value;
                        zero = zero || c == 0;
                        one = one && c == 1;
                        pm = pm && (c == 1 || c == -1);
                    }
                },
                tidy);
            if (dup || zero || tidy.index() != (one ? 0u : pm ? 1u : 2u))
                ctx.fail(id, what + ": tidied into the wrong class, or with repeated or zero terms");
            for (auto & p : points) {
                ctx.count("evaluations");
                wide want = 0;
                for (auto [c, t] : choice)
                    want += wide(coeffs[c]) * eval(terms[t], p);
                if (value(sum, p) != want || value(sum2, p) != want)
                    ctx.fail(id, what + ": value of the sum");
                // sum (op) k means tidied (op) k + modifier
                if (tidy_value(p) != want + modifier.raw_value)
                    ctx.fail(id, what + ": value of the tidied sum");
                for (long long k : {-3, 0, 4}) {
                    Integer K{k};
                    auto le = sum <= K;
                    auto ge = sum >= K;
                    auto eq = sum == K;
                    auto ok = [&](const auto & i) { return value(i.lhs, p) <= i.rhs.raw_value; };
                    if (ok(le) != (want <= k) || ok(ge) != (want >= k) || (value(eq.lhs, p) == eq.rhs.raw_value) != (want == k))
                        ctx.fail(id, what + ": linear statement with " + to_string(k));
                    if (ok(negate_inequality(le)) != (want > k) || ok(negate_inequality(ge)) != (want < k) || ok(negate_inequality(negate_inequality(le))) != (want <= k))
                        ctx.fail(id, what + ": negated linear statement with " + to_string(k));
                    auto rv = eval(terms[3], p) * k;
                    auto r = K * terms[3];
                    if (ok(sum <= r) != (want <= rv) || ok(sum >= r) != (want >= rv) || (value((sum == r).lhs, p) == (sum == r).rhs.raw_value) != (want == rv))
                        ctx.fail(id, what + ": linear statement with a variable on the right");
                }
            }
        };
        for (size_t c = 0; c < coeffs.size(); ++c)
            for (size_t t = 0; t < terms.size(); ++t) {
                auto id = "sum/" + to_string(c) + "/" + to_string(t);
                if (! ctx.begin(id))
                    continue;
                auto rec = [&](auto & self) -> void {
                    check(id);
                    if (int(choice.size()) == max_len)
                        return;
                    for (size_t c2 = 0; c2 < coeffs.size(); ++c2)
                        for (size_t t2 = 0; t2 < terms.size(); ++t2) {
                            choice.emplace_back(c2, t2);
                            self(self);
                            choice.pop_back();
                        }
                };
                choice = {{int(c), int(t)}};
                rec(rec);
            }
        choice.clear();
        if (ctx.begin("sum/empty"))
            check("sum/empty");
    }
    ctx.finish();
}
