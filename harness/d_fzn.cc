// P19: the FlatZinc front end gives every constraint it accepts its FlatZinc
// meaning, and its output says what the search established.
#include "drv.hh"
#include "logged.hh"
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#define main fzn_main
#include <minizinc/fzn_glasgow.cc>
#undef main
#include <algorithm>
#include <numeric>
#include <set>
#include <sstream>
#include <streambuf>
using J = nlohmann::ordered_json;
using Val = long long;
using Vals = std::vector<Val>;
using std::string; using std::vector; using std::to_string; using std::size_t;

namespace
{
    sigjmp_buf on_abort;
    // Every sequence of choices, in order.
    struct Choices
    {
        vector<std::pair<size_t, size_t>> st;
        size_t at = 0;
        auto pick(size_t n) -> size_t
        {
            if (at == st.size())
                st.emplace_back(0, n);
            return st[at++].first % n;
        }
        auto next() -> bool
        {
            while (! st.empty() && st.back().first + 1 >= st.back().second)
                st.pop_back();
            at = 0;
            if (st.empty())
                return false;
            ++st.back().first;
            return true;
        }
        auto str() const -> string
        {
            string r;
            for (auto & [a, b] : st)
                if (b > 1)
                    r += (r.empty() ? "" : ".") + to_string(a);
            return r;
        }
    };
    struct T
    {
        int var = -1;
        Val c = 0;
        bool boolean = false;
        auto operator()(const Vals & v) const -> Val { return var < 0 ? c : v[size_t(var)]; }
    };
    using Ts = vector<T>;
    struct Var
    {
        string name;
        bool boolean;
        Vals dom;
        bool defined = false;
        bool unbounded = false; // written without its domain
        J rhs;
    };
    const vector<Vals> menu{{0, 1, 2}, {-1, 0, 1}, {1, 2, 3}, {-2, 0, 1}, {2}, {1, 3}, {0, 1}, {-3, -1, 2, 3}};
    struct Model
    {
        vector<Var> vars;
        J constraints = J::array(), arrays = J::object();
        vector<string> array_out;
        vector<std::pair<Ts, bool>> array_terms;
        vector<std::function<bool(const Vals &)>> preds;
        bool refused = false; // outside a documented contract, so to be refused
        auto solutions() const -> vector<Vals>
        {
            vector<Vals> r;
            Vals v(vars.size());
            auto go = [&](auto & self, size_t i) -> void {
                if (i == vars.size()) {
                    for (auto & p : preds)
                        if (! p(v))
                            return;
                    r.push_back(v);
                    return;
                }
                for (auto x : vars[i].dom) {
                    v[i] = x;
                    self(self, i + 1);
                }
            };
            go(go, 0);
            return r;
        }
    };
    struct B
    {
        Choices & ch;
        Model & m;
        size_t shape;
        bool shared; // variables come from a pool made beforehand
        size_t rot = 0;
        auto fresh(bool boolean, const Vals & d) -> T
        {
            Var v{(boolean ? "b" : "x") + to_string(m.vars.size()), boolean, d};
            v.defined = (m.vars.size() + shape) % 3 == 2;
            m.vars.push_back(v);
            return T{int(m.vars.size()) - 1, 0, boolean};
        }
        auto from_pool(bool boolean) -> T
        {
            for (size_t k = 0; k < m.vars.size(); ++k) {
                auto i = (rot + shape + k) % m.vars.size();
                if (m.vars[i].boolean == boolean) {
                    rot = i + 1;
                    return T{int(i), 0, boolean};
                }
            }
            return fresh(boolean, boolean ? Vals{0, 1} : menu[shape % menu.size()]);
        }
        auto last(bool boolean) -> int
        {
            for (size_t i = m.vars.size(); i > 0; --i)
                if (m.vars[i - 1].boolean == boolean)
                    return int(i) - 1;
            return -1;
        }
        // an integer: a variable over the given domain (or one off the menu), a constant, or the last one again
        auto iv(const Vals & d = {}, const Vals & consts = {1}) -> T
        {
            if (shared && d.empty())
                return from_pool(false);
            auto l = last(false);
            auto n = 1 + consts.size() + (l >= 0 ? 1 : 0);
            auto k = ch.pick(n);
            if (k == 0)
                return fresh(false, d.empty() ? menu[(shape + 3 * m.vars.size()) % menu.size()] : d);
            if (k <= consts.size())
                return T{-1, consts[k - 1]};
            return T{l, 0};
        }
        auto bv() -> T
        {
            if (shared)
                return from_pool(true);
            auto l = last(true);
            auto k = ch.pick(l >= 0 ? 4 : 3);
            if (k == 0)
                return fresh(true, {0, 1});
            if (k == 1 || k == 2)
                return T{-1, Val(k - 1), true};
            return T{l, 0, true};
        }
        auto ivs(size_t n, const Vals & d = {}, const Vals & consts = {1}) -> Ts
        {
            Ts r;
            for (size_t i = 0; i < n; ++i)
                r.push_back(iv(d, consts));
            return r;
        }
        auto bvs(size_t n) -> Ts
        {
            Ts r;
            for (size_t i = 0; i < n; ++i)
                r.push_back(bv());
            return r;
        }
        // values a constraint insists on having in its definition
        auto within(const Ts & ts, Val lo, Val hi) -> void
        {
            for (auto & t : ts)
                if (t.var < 0 ? t.c < lo || t.c > hi : m.vars[size_t(t.var)].dom.front() < lo || m.vars[size_t(t.var)].dom.back() > hi)
                    m.refused = true;
        }
        auto json(const T & t) -> J
        {
            if (t.var >= 0)
                return m.vars[size_t(t.var)].name;
            return t.boolean ? J(t.c != 0) : J(t.c);
        }
        auto json(const Ts & ts, bool constant = false) -> J
        {
            J a = J::array();
            bool boolean = ! ts.empty();
            for (auto & t : ts) {
                a.push_back(json(t));
                boolean = boolean && t.boolean;
            }
            // by name or written out
            if ((m.arrays.size() + m.constraints.size() + ts.size() + shape) % 2) {
                auto name = "a" + to_string(m.arrays.size());
                m.arrays[name] = J{{"a", a}};
                if (! constant || ! ts.empty()) {
                    m.array_out.push_back(name);
                    m.array_terms.emplace_back(ts, boolean);
                }
                return name;
            }
            return a;
        }
        auto consts(const Vals & v, bool boolean = false) -> J
        {
            Ts ts;
            for (auto c : v)
                ts.push_back(T{-1, c, boolean});
            return json(ts, true);
        }
        static auto set(const Vals & v) -> J
        {
            J r = J::array();
            for (size_t i = 0; i < v.size();) {
                size_t k = i;
                while (k + 1 < v.size() && v[k + 1] == v[k] + 1)
                    ++k;
                r.push_back(J::array({v[i], v[k]}));
                i = k + 1;
            }
            return J{{"set", r}};
        }
        auto post(const string & id, J args, std::function<bool(const Vals &)> p) -> void
        {
            m.constraints.push_back(J{{"id", id}, {"args", std::move(args)}});
            m.preds.push_back(std::move(p));
        }
    };
    auto all(const Ts & ts, const Vals & v) -> Vals
    {
        Vals r;
        for (auto & t : ts)
            r.push_back(t(v));
        return r;
    }
    struct Template
    {
        string name;
        std::function<void(B &)> make;
    };
    auto ipow(Val b, Val e) -> std::optional<Val>
    {
        if (e < 0) {
            if (b == 0)
                return std::nullopt;
            return b == 1 ? 1 : b == -1 ? (e % 2 ? -1 : 1) : 0;
        }
        Val r = 1;
        while (e-- > 0)
            r *= b;
        return r;
    }
    // no two of the intervals of tasks overlap; zero-length ones matter only if strict
    auto disjoint(const Vals & s, const Vals & d, const Vals & on, bool strict) -> bool
    {
        for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = 0; j < i; ++j)
                if (on[i] && on[j] && (strict || (d[i] && d[j])) && s[i] + d[i] > s[j] && s[j] + d[j] > s[i])
                    return false;
        return true;
    }
    auto cumulative(const Vals & s, const Vals & d, const Vals & r, const Vals & on, Val c) -> bool
    {
        for (Val t = -6; t < 16; ++t) {
            Val u = 0;
            for (size_t i = 0; i < s.size(); ++i)
                if (on[i] && s[i] <= t && t < s[i] + d[i])
                    u += r[i];
            if (u > c && u > 0)
                return false;
        }
        return true;
    }
    auto templates() -> vector<Template>
    {
        vector<Template> r;
        auto cmp = [](const string & op) -> std::function<bool(Val, Val)> {
            if (op == "eq")
                return [](Val a, Val b) { return a == b; };
            if (op == "ne")
                return [](Val a, Val b) { return a != b; };
            if (op == "le")
                return [](Val a, Val b) { return a <= b; };
            return [](Val a, Val b) { return a < b; };
        };
        // comparisons. Two uses of one variable in a strict comparison are refused by contract (P18).
        for (string ty : {"int", "bool"})
            for (string op : {"eq", "ne", "le", "lt"})
                for (bool reif : {false, true}) {
                    auto id = ty + "_" + op + (reif ? "_reif" : "");
                    if (id == "bool_ne" || id == "bool_ne_reif")
                        continue;
                    auto f = cmp(op);
                    r.push_back({id, [=](B & b) {
                                     auto x = ty == "int" ? b.iv() : b.bv(), y = ty == "int" ? b.iv() : b.bv();
                                     if ((op == "ne" || op == "lt") && x.var >= 0 && x.var == y.var)
                                         y = T{-1, 1, ty == "bool"};
                                     J a = J::array({b.json(x), b.json(y)});
                                     if (! reif)
                                         b.post(id, a, [=](const Vals & v) { return f(x(v), y(v)); });
                                     else {
                                         auto z = b.bv();
                                         a.push_back(b.json(z));
                                         b.post(id, a, [=](const Vals & v) { return f(x(v), y(v)) == (z(v) != 0); });
                                     }
                                 }});
                }
        // linear
        for (string op : {"eq", "ne", "le"})
            for (int how = 0; how < 2; ++how) {
                auto id = "int_lin_" + op + (how ? "_reif" : "");
                auto f = cmp(op);
                r.push_back({id, [=](B & b) {
                                 auto n = b.ch.pick(4);
                                 auto xs = b.ivs(n);
                                 static const vector<Vals> cs{{1, 1, 1}, {2, -1, 3}, {-1, 1, -2}, {1, 0, -1}};
                                 auto c = cs[b.ch.pick(cs.size())];
                                 c.resize(n);
                                 Val rhs = Val(b.ch.pick(3)) - 1;
                                 J a = J::array({b.consts(c), b.json(xs), rhs});
                                 auto sum = [=](const Vals & v) {
                                     Val s = 0;
                                     for (size_t i = 0; i < n; ++i)
                                         s += c[i] * xs[i](v);
                                     return s;
                                 };
                                 if (! how)
                                     b.post(id, a, [=](const Vals & v) { return f(sum(v), rhs); });
                                 else {
                                     auto z = b.bv();
                                     a.push_back(b.json(z));
                                     b.post(id, a, [=](const Vals & v) { return f(sum(v), rhs) == (z(v) != 0); });
                                 }
                             }});
            }
        for (string op : {"eq", "le"})
            r.push_back({"bool_lin_" + op, [=](B & b) {
                             auto n = b.ch.pick(4);
                             auto xs = b.bvs(n);
                             static const vector<Vals> cs{{1, 1, 1}, {2, -1, 3}, {-1, 2, 1}};
                             auto c = cs[b.ch.pick(cs.size())];
                             c.resize(n);
                             auto k = b.ch.pick(2);
                             auto rhs = k ? b.iv({0, 1, 2, 3}, {2}) : T{-1, 1};
                             J a = J::array({b.consts(c), b.json(xs), b.json(rhs)});
                             auto f = cmp(op);
                             b.post("bool_lin_" + op, a, [=](const Vals & v) {
                                 Val s = 0;
                                 for (size_t i = 0; i < n; ++i)
                                     s += c[i] * xs[i](v);
                                 return f(s, rhs(v));
                             });
                         }});
        // arithmetic
        struct A3
        {
            string id;
            std::function<std::optional<Val>(Val, Val)> f;
        };
        for (auto & a3 : vector<A3>{{"int_plus", [](Val a, Val b) { return a + b; }}, {"int_times", [](Val a, Val b) { return a * b; }},
                 {"int_max", [](Val a, Val b) { return std::max(a, b); }}, {"int_min", [](Val a, Val b) { return std::min(a, b); }},
                 {"int_div", [](Val a, Val b) -> std::optional<Val> { return b ? std::optional<Val>{a / b} : std::nullopt; }},
                 {"int_mod", [](Val a, Val b) -> std::optional<Val> { return b ? std::optional<Val>{a % b} : std::nullopt; }},
                 {"int_pow", [](Val a, Val b) { return ipow(a, b); }}})
            r.push_back({a3.id, [=](B & b) {
                             auto x = b.iv(b.shared ? Vals{} : b.shape % 2 ? Vals{-3, -2, 0, 3} : Vals{-1, 1, 2}, {2}), y = b.iv({}, {0, -2}), z = b.iv({}, {1});
                             b.post(a3.id, J::array({b.json(x), b.json(y), b.json(z)}), [=, f = a3.f](const Vals & v) {
                                 auto q = f(x(v), y(v));
                                 return q && *q == z(v);
                             });
                         }});
        r.push_back({"int_abs", [](B & b) {
                         auto x = b.iv({}, {-2}), y = b.iv();
                         b.post("int_abs", J::array({b.json(x), b.json(y)}), [=](const Vals & v) { return std::abs(x(v)) == y(v); });
                     }});
        for (bool mx : {false, true})
            r.push_back({mx ? "array_int_maximum" : "array_int_minimum", [=](B & b) {
                             auto z = b.iv();
                             auto xs = b.ivs(1 + b.ch.pick(3));
                             b.post(mx ? "array_int_maximum" : "array_int_minimum", J::array({b.json(z), b.json(xs)}), [=](const Vals & v) {
                                 auto w = all(xs, v);
                                 return z(v) == (mx ? *std::max_element(w.begin(), w.end()) : *std::min_element(w.begin(), w.end()));
                             });
                         }});
        // element: indices from one, and out of range is false
        for (int k = 0; k < 4; ++k)
            r.push_back({vector<string>{"array_int_element", "array_bool_element", "array_var_int_element", "array_var_bool_element"}[size_t(k)], [=](B & b) {
                             auto n = 1 + b.ch.pick(3);
                             auto i = b.iv(b.shared ? Vals{} : b.shape % 2 ? Vals{0, 1, 2, 4} : Vals{1, 2, 3}, {1, 3});
                             Ts xs;
                             J a;
                             if (k == 0) {
                                 Vals c{2, -1, 2};
                                 c.resize(n);
                                 for (auto x : c)
                                     xs.push_back({-1, x});
                                 a = b.consts(c);
                             }
                             else if (k == 1) {
                                 Vals c{0, 1, 1};
                                 c.resize(n);
                                 for (auto x : c)
                                     xs.push_back({-1, x, true});
                                 a = b.consts(c, true);
                             }
                             else {
                                 xs = k == 2 ? b.ivs(n) : b.bvs(n);
                                 a = b.json(xs);
                             }
                             auto z = k % 2 ? b.bv() : b.iv();
                             auto ids = vector<string>{"array_int_element", "array_bool_element", "array_var_int_element", "array_var_bool_element"};
                             b.post(ids[size_t(k)], J::array({b.json(i), a, b.json(z)}), [=](const Vals & v) {
                                 auto q = i(v);
                                 return q >= 1 && q <= Val(n) && xs[size_t(q - 1)](v) == z(v);
                             });
                         }});
        // Booleans
        r.push_back({"bool2int", [](B & b) {
                         auto x = b.bv();
                         auto y = b.iv();
                         b.post("bool2int", J::array({b.json(x), b.json(y)}), [=](const Vals & v) { return x(v) == y(v); });
                     }});
        r.push_back({"bool_not", [](B & b) {
                         auto x = b.bv(), y = b.bv();
                         if (x.var >= 0 && x.var == y.var)
                             y = {-1, 1, true};
                         b.post("bool_not", J::array({b.json(x), b.json(y)}), [=](const Vals & v) { return x(v) != y(v); });
                     }});
        for (string id : {"bool_and", "bool_or", "bool_xor"})
            r.push_back({id, [=](B & b) {
                             auto x = b.bv(), y = b.bv(), z = b.bv();
                             b.post(id, J::array({b.json(x), b.json(y), b.json(z)}), [=](const Vals & v) {
                                 auto a = x(v), c = y(v);
                                 return (id == "bool_and" ? (a && c) : id == "bool_or" ? (a || c) : (a != c)) == (z(v) != 0);
                             });
                         }});
        r.push_back({"bool_xor2", [](B & b) {
                         auto x = b.bv(), y = b.bv();
                         if (x.var >= 0 && x.var == y.var)
                             y = {-1, 0, true};
                         b.post("bool_xor", J::array({b.json(x), b.json(y)}), [=](const Vals & v) { return x(v) != y(v); });
                     }});
        r.push_back({"array_bool_and", [](B & b) {
                         auto xs = b.bvs(b.ch.pick(4));
                         auto z = b.bv();
                         b.post("array_bool_and", J::array({b.json(xs), b.json(z)}), [=](const Vals & v) {
                             auto w = all(xs, v);
                             return std::all_of(w.begin(), w.end(), [](Val x) { return x; }) == (z(v) != 0);
                         });
                     }});
        r.push_back({"array_bool_xor", [](B & b) {
                         auto xs = b.bvs(b.ch.pick(4));
                         b.post("array_bool_xor", J::array({b.json(xs)}), [=](const Vals & v) {
                             auto w = all(xs, v);
                             return std::accumulate(w.begin(), w.end(), Val{0}) % 2 == 1;
                         });
                     }});
        for (bool reif : {false, true})
            r.push_back({reif ? "bool_clause_reif" : "bool_clause", [=](B & b) {
                             auto p = b.bvs(b.ch.pick(3)), n = b.bvs(b.ch.pick(3));
                             J a = J::array({b.json(p), b.json(n)});
                             auto f = [=](const Vals & v) {
                                 for (auto & x : p)
                                     if (x(v))
                                         return true;
                                 for (auto & x : n)
                                     if (! x(v))
                                         return true;
                                 return false;
                             };
                             if (! reif)
                                 b.post("bool_clause", a, f);
                             else {
                                 auto z = b.bv();
                                 a.push_back(b.json(z));
                                 b.post("bool_clause_reif", a, [=](const Vals & v) { return f(v) == (z(v) != 0); });
                             }
                         }});
        // sets
        static const vector<Vals> sets{{}, {1}, {0, 1}, {-1, 1, 2}, {0, 2}, {-3, -2, 1, 3, 4}, {-1, 0, 1, 2, 3}};
        for (bool reif : {false, true})
            r.push_back({reif ? "set_in_reif" : "set_in", [=](B & b) {
                             auto x = b.iv({}, {0, 2});
                             auto s = sets[b.ch.pick(sets.size())];
                             J a = J::array({b.json(x), B::set(s)});
                             auto f = [=](const Vals & v) { return std::find(s.begin(), s.end(), x(v)) != s.end(); };
                             if (! reif)
                                 b.post("set_in", a, f);
                             else {
                                 auto z = b.bv();
                                 a.push_back(b.json(z));
                                 b.post("set_in_reif", a, [=](const Vals & v) { return f(v) == (z(v) != 0); });
                             }
                         }});
        // globals
        r.push_back({"alldifferent", [](B & b) {
                         auto xs = b.ivs(b.ch.pick(4));
                         b.post("glasgow_alldifferent", J::array({b.json(xs)}), [=](const Vals & v) {
                             auto w = all(xs, v);
                             return std::set<Val>(w.begin(), w.end()).size() == w.size();
                         });
                     }});
        r.push_back({"all_different_except", [](B & b) {
                         auto xs = b.ivs(b.ch.pick(4));
                         auto s = sets[b.ch.pick(sets.size())];
                         b.post("glasgow_all_different_except_int", J::array({b.json(xs), B::set(s)}), [=](const Vals & v) {
                             std::set<Val> seen;
                             for (auto x : all(xs, v))
                                 if (std::find(s.begin(), s.end(), x) == s.end() && ! seen.insert(x).second)
                                     return false;
                             return true;
                         });
                     }});
        r.push_back({"all_equal", [](B & b) {
                         auto xs = b.ivs(b.ch.pick(4));
                         b.post("glasgow_all_equal_int", J::array({b.json(xs)}), [=](const Vals & v) {
                             auto w = all(xs, v);
                             return std::set<Val>(w.begin(), w.end()).size() <= 1;
                         });
                     }});
        r.push_back({"among", [](B & b) {
                         auto n = b.iv();
                         auto xs = b.ivs(b.ch.pick(4));
                         auto s = sets[b.ch.pick(sets.size())];
                         b.post("glasgow_among", J::array({b.json(n), b.json(xs), B::set(s)}), [=](const Vals & v) {
                             Val c = 0;
                             for (auto x : all(xs, v))
                                 c += std::find(s.begin(), s.end(), x) != s.end();
                             return c == n(v);
                         });
                     }});
        r.push_back({"arg_sort", [](B & b) {
                         auto n = 1 + b.ch.pick(3);
                         auto xs = b.ivs(n), ps = b.ivs(n, {}, {2});
                         b.post("glasgow_arg_sort_int", J::array({b.json(xs), b.json(ps)}), [=](const Vals & v) {
                             auto x = all(xs, v), p = all(ps, v);
                             vector<Val> want(n);
                             std::iota(want.begin(), want.end(), 1);
                             std::stable_sort(want.begin(), want.end(), [&](Val a, Val c) { return x[size_t(a - 1)] < x[size_t(c - 1)]; });
                             return p == want;
                         });
                     }});
        r.push_back({"bin_packing_capa", [](B & b) {
                         auto n = 1 + b.ch.pick(3);
                         auto xs = b.shape % 4 == 3 ? b.ivs(n) : b.ivs(n, b.shape % 4 ? Vals{0, 1} : Vals{1});
                         Vals w{2, 1, 3}, c = b.ch.pick(2) ? Vals{3, 2} : Vals{2, 0, 4};
                         w.resize(n);
                         b.within(xs, 0, Val(c.size()) - 1);
                         b.post("glasgow_bin_packing_capa", J::array({b.consts(c), b.json(xs), b.consts(w)}), [=](const Vals & v) {
                             Vals load(c.size());
                             for (size_t i = 0; i < n; ++i) {
                                 auto x = xs[i](v);
                                 if (x < 0 || x >= Val(c.size()))
                                     return false;
                                 load[size_t(x)] += w[i];
                             }
                             for (size_t k = 0; k < c.size(); ++k)
                                 if (load[k] > c[k])
                                     return false;
                             return true;
                         });
                     }});
        r.push_back({"bin_packing_load", [](B & b) {
                         auto n = 1 + b.ch.pick(2);
                         auto xs = b.shape % 4 == 3 ? b.ivs(n) : b.ivs(n, b.shape % 4 ? Vals{0, 1} : Vals{1});
                         auto ls = b.ivs(2 + b.ch.pick(2), {0, 1, 2, 3}, {2});
                         b.within(xs, 0, Val(ls.size()) - 1);
                         b.within(ls, 0, 1000);
                         Vals w{2, 1};
                         w.resize(n);
                         b.post("glasgow_bin_packing_load", J::array({b.json(ls), b.json(xs), b.consts(w)}), [=](const Vals & v) {
                             Vals load(ls.size());
                             for (size_t i = 0; i < n; ++i) {
                                 auto x = xs[i](v);
                                 if (x < 0 || x >= Val(ls.size()))
                                     return false;
                                 load[size_t(x)] += w[i];
                             }
                             return load == all(ls, v);
                         });
                     }});
        auto distinct_ivs = [](B & b, size_t n) {
            // contracts refuse one variable in two places of a successor array
            Ts xs;
            for (size_t i = 0; i < n; ++i) {
                auto t = b.iv();
                for (auto & o : xs)
                    if (t.var >= 0 && o.var == t.var)
                        t = T{-1, Val(i)};
                xs.push_back(t);
            }
            return xs;
        };
        r.push_back({"circuit", [=](B & b) {
                         auto n = 1 + b.ch.pick(3);
                         auto xs = distinct_ivs(b, n);
                         b.post("glasgow_circuit", J::array({b.json(xs)}), [=](const Vals & v) {
                             Val at = 0;
                             vector<char> seen(n);
                             for (size_t k = 0; k < n; ++k) {
                                 auto x = xs[size_t(at)](v);
                                 if (x < 0 || x >= Val(n) || seen[size_t(x)])
                                     return false;
                                 seen[size_t(x)] = 1;
                                 at = x;
                             }
                             return at == 0;
                         });
                     }});
        r.push_back({"count_eq", [](B & b) {
                         auto xs = b.ivs(b.ch.pick(4));
                         auto y = b.iv(), c = b.iv();
                         b.post("glasgow_count_eq", J::array({b.json(xs), b.json(y), b.json(c)}), [=](const Vals & v) {
                             auto w = all(xs, v);
                             return std::count(w.begin(), w.end(), y(v)) == c(v);
                         });
                     }});
        for (bool opt : {false, true})
            r.push_back({opt ? "cumulative_opt" : "cumulative", [=](B & b) {
                             auto n = 1 + b.ch.pick(2) + (b.shared ? 1 : 0);
                             auto s = b.ivs(n);
                             auto d = b.ch.pick(2) ? b.ivs(n, {0, 2}, {2}) : Ts(n, T{-1, 2}), h = b.ch.pick(2) ? b.ivs(n, {1, 2}, {1}) : Ts(n, T{-1, 1});
                             auto on = opt ? b.bvs(n) : Ts(n, T{-1, 1, true});
                             auto c = b.iv({1, 2}, {2});
                             b.within(d, 0, 1000);
                             b.within(h, 0, 1000);
                             b.within({c}, 0, 1000);
                             J a = J::array({b.json(s), b.json(d), b.json(h)});
                             if (opt)
                                 a.push_back(b.json(on));
                             a.push_back(b.json(c));
                             b.post(opt ? "glasgow_cumulative_opt" : "glasgow_cumulative", a, [=](const Vals & v) { return cumulative(all(s, v), all(d, v), all(h, v), all(on, v), c(v)); });
                         }});
        for (bool opt : {false, true})
            for (bool strict : {false, true})
                r.push_back({string("disjunctive") + (strict ? "_strict" : "") + (opt ? "_opt" : ""), [=](B & b) {
                                 auto n = 2 + b.ch.pick(2);
                                 auto s = b.ivs(n);
                                 auto d = b.ch.pick(2) ? b.ivs(n, {0, 2}, {0}) : Ts(n, T{-1, 2});
                                 auto on = opt ? b.bvs(n) : Ts(n, T{-1, 1, true});
                                 b.within(d, 0, 1000);
                                 J a = J::array({b.json(s), b.json(d)});
                                 if (opt)
                                     a.push_back(b.json(on));
                                 b.post(string("glasgow_disjunctive") + (strict ? "_strict" : "") + (opt ? "_opt" : ""), a,
                                     [=](const Vals & v) { return disjoint(all(s, v), all(d, v), all(on, v), strict); });
                             }});
        for (bool strict : {false, true})
            r.push_back({strict ? "diffn" : "diffn_nonstrict", [=](B & b) {
                             size_t n = 2 + (b.shared ? 1 : 0);
                             auto x = b.ivs(n), y = b.ivs(n);
                             auto w = b.ch.pick(2) ? b.ivs(n, {0, 2}, {0}) : Ts(n, T{-1, 2}), h = b.ch.pick(2) ? Ts(n, T{-1, 0}) : Ts(n, T{-1, 1});
                             b.within(w, 0, 1000);
                             b.post(strict ? "glasgow_diffn" : "glasgow_diffn_nonstrict", J::array({b.json(x), b.json(y), b.json(w), b.json(h)}), [=](const Vals & v) {
                                 auto X = all(x, v), Y = all(y, v), W = all(w, v), H = all(h, v);
                                 for (size_t i = 0; i < n; ++i)
                                     for (size_t j = 0; j < i; ++j) {
                                         if (! strict && (W[i] == 0 || H[i] == 0 || W[j] == 0 || H[j] == 0))
                                             continue;
                                         if (X[i] + W[i] > X[j] && X[j] + W[j] > X[i] && Y[i] + H[i] > Y[j] && Y[j] + H[j] > Y[i])
                                             return false;
                                     }
                                 return true;
                             });
                         }});
        for (bool closed : {false, true})
            r.push_back({closed ? "global_cardinality_closed" : "global_cardinality", [=](B & b) {
                             auto xs = b.ivs(b.ch.pick(4));
                             Vals cover = b.ch.pick(2) ? Vals{1, 2} : Vals{0, 3, -1};
                             auto cs = b.ivs(cover.size(), {0, 1, 2}, {1});
                             b.post(closed ? "glasgow_global_cardinality_closed" : "glasgow_global_cardinality", J::array({b.json(xs), b.consts(cover), b.json(cs)}), [=](const Vals & v) {
                                 auto w = all(xs, v);
                                 for (size_t i = 0; i < cover.size(); ++i)
                                     if (std::count(w.begin(), w.end(), cover[i]) != cs[i](v))
                                         return false;
                                 if (closed)
                                     for (auto x : w)
                                         if (std::find(cover.begin(), cover.end(), x) == cover.end())
                                             return false;
                                 return true;
                             });
                         }});
        for (int k = 0; k < 3; ++k)
            r.push_back({vector<string>{"increasing_int", "increasing_bool", "strictly_increasing_int"}[size_t(k)], [=](B & b) {
                             auto n = b.ch.pick(4);
                             auto xs = k == 1 ? b.bvs(n) : b.ivs(n);
                             b.post("glasgow_" + vector<string>{"increasing_int", "increasing_bool", "strictly_increasing_int"}[size_t(k)], J::array({b.json(xs)}), [=](const Vals & v) {
                                 auto w = all(xs, v);
                                 for (size_t i = 1; i < w.size(); ++i)
                                     if (k == 2 ? w[i - 1] >= w[i] : w[i - 1] > w[i])
                                         return false;
                                 return true;
                             });
                         }});
        r.push_back({"inverse", [=](B & b) {
                         auto n = 1 + b.ch.pick(3);
                         auto xs = distinct_ivs(b, n), ys = distinct_ivs(b, n);
                         b.post("glasgow_inverse", J::array({b.json(xs), b.json(ys)}), [=](const Vals & v) {
                             for (size_t i = 0; i < n; ++i) {
                                 auto x = xs[i](v), y = ys[i](v);
                                 if (x < 1 || x > Val(n) || y < 1 || y > Val(n))
                                     return false;
                                 if (ys[size_t(x - 1)](v) != Val(i) + 1 || xs[size_t(y - 1)](v) != Val(i) + 1)
                                     return false;
                             }
                             return true;
                         });
                     }});
        r.push_back({"knapsack", [](B & b) {
                         auto n = 1 + b.ch.pick(2);
                         auto xs = b.ivs(n, b.shape % 2 ? Vals{0, 1} : Vals{0, 1, 2}, {1});
                         auto W = b.iv({0, 1, 2, 3, 4, 5}, {3}), P = b.iv({0, 1, 2, 3, 4, 6}, {2});
                         b.within(xs, 0, 1000);
                         b.within({W, P}, 0, 1000);
                         Vals w{2, 1}, p{1, 3};
                         w.resize(n);
                         p.resize(n);
                         b.post("glasgow_knapsack", J::array({b.consts(w), b.consts(p), b.json(xs), b.json(W), b.json(P)}), [=](const Vals & v) {
                             Val a = 0, c = 0;
                             for (size_t i = 0; i < n; ++i) {
                                 a += w[i] * xs[i](v);
                                 c += p[i] * xs[i](v);
                             }
                             return a == W(v) && c == P(v);
                         });
                     }});
        for (string ty : {"int", "bool"})
            for (bool eq : {false, true})
                for (bool reif : {false, true})
                    r.push_back({string("lex_") + (eq ? "lesseq_" : "less_") + ty + (reif ? "_reif" : ""), [=](B & b) {
                                     auto n = b.ch.pick(3), k = b.ch.pick(3);
                                     auto xs = ty == "int" ? b.ivs(n) : b.bvs(n), ys = ty == "int" ? b.ivs(k) : b.bvs(k);
                                     J a = J::array({b.json(xs), b.json(ys)});
                                     auto f = [=](const Vals & v) { return eq ? all(xs, v) <= all(ys, v) : all(xs, v) < all(ys, v); };
                                     auto id = string("glasgow_lex_") + (eq ? "lesseq_" : "less_") + ty + (reif ? "_reif" : "");
                                     if (! reif)
                                         b.post(id, a, f);
                                     else {
                                         auto z = b.bv();
                                         a.push_back(b.json(z));
                                         b.post(id, a, [=](const Vals & v) { return f(v) == (z(v) != 0); });
                                     }
                                 }});
        // a decision diagram: one edge in three left out at each choice, nodes listed in any order
        r.push_back({"mdd", [](B & b) {
                         auto n = 1 + b.ch.pick(3);
                         auto xs = b.ivs(n);
                         // nodes 1 (root), then one or two a layer
                         vector<Val> level{1};
                         vector<Vals> layer{{1}};
                         for (size_t l = 1; l < n; ++l) {
                             layer.emplace_back();
                             for (size_t k = 0; k < 1 + (b.shape + l) % 2; ++k) {
                                 level.push_back(Val(l) + 1);
                                 layer[l].push_back(Val(level.size()));
                             }
                         }
                         // perhaps another node in the last layer, which is no terminal
                         bool dud = b.ch.pick(2);
                         if (dud)
                             level.push_back(Val(n) + 1);
                         auto order = b.ch.pick(2);
                         vector<Val> name(level.size() + 1);
                         std::iota(name.begin(), name.end(), 0);
                         if (order && level.size() > 2)
                             std::reverse(name.begin() + 2, name.end());
                         Vals lv(level.size());
                         for (size_t i = 0; i < level.size(); ++i)
                             lv[size_t(name[i + 1]) - 1] = level[i];
                         struct Edge
                         {
                             Val from, to;
                             Vals on;
                         };
                         vector<Edge> es;
                         auto drop = b.ch.pick(4);
                         for (size_t l = 0; l < n; ++l)
                             for (auto u : layer[l]) {
                                 size_t k = 0;
                                 auto to = l + 1 < n ? layer[l + 1] : Vals{0};
                                 if (l + 1 == n && dud)
                                     to.push_back(Val(level.size()));
                                 static const vector<Vals> labels{{0, 1}, {2}, {-1, 3}};
                                 for (size_t q = 0; q < labels.size(); ++q) {
                                     if (es.size() % 4 == drop && q)
                                         continue;
                                     es.push_back({u, to[(k++ + size_t(u)) % to.size()], labels[q]});
                                 }
                             }
                         Vals from, to;
                         J label = J::array();
                         for (auto & e : es) {
                             from.push_back(name[size_t(e.from)]);
                             to.push_back(e.to == 0 ? 0 : name[size_t(e.to)]);
                             label.push_back(B::set(e.on));
                         }
                         J lab = label;
                         if (b.shape % 3 == 0 && ! label.empty()) {
                             auto nm = "a" + to_string(b.m.arrays.size());
                             b.m.arrays[nm] = J{{"a", label}};
                             lab = nm;
                         }
                         b.post("glasgow_mdd", J::array({b.json(xs), Val(level.size()), b.consts(lv), Val(es.size()), b.consts(from), lab, b.consts(to)}), [=](const Vals & v) {
                             Val at = 1;
                             for (size_t i = 0; i < n; ++i) {
                                 bool moved = false;
                                 for (auto & e : es)
                                     if (e.from == at && std::find(e.on.begin(), e.on.end(), xs[i](v)) != e.on.end()) {
                                         at = e.to;
                                         moved = true;
                                         break;
                                     }
                                 if (! moved)
                                     return false;
                             }
                             return at == 0;
                         });
                     }});
        for (bool boolean : {false, true})
            r.push_back({boolean ? "member_bool" : "member_int", [=](B & b) {
                             auto n = b.ch.pick(4);
                             auto xs = boolean ? b.bvs(n) : b.ivs(n);
                             auto y = boolean ? b.bv() : b.iv();
                             b.post(boolean ? "glasgow_member_bool" : "glasgow_member_int", J::array({b.json(xs), b.json(y)}), [=](const Vals & v) {
                                 auto w = all(xs, v);
                                 return std::find(w.begin(), w.end(), y(v)) != w.end();
                             });
                         }});
        r.push_back({"nvalue", [](B & b) {
                         auto y = b.iv();
                         auto xs = b.ivs(b.ch.pick(4));
                         b.post("glasgow_nvalue", J::array({b.json(y), b.json(xs)}), [=](const Vals & v) {
                             auto w = all(xs, v);
                             return Val(std::set<Val>(w.begin(), w.end()).size()) == y(v);
                         });
                     }});
        // automata: every start state, symbols from zero once redefined by the library
        r.push_back({"regular", [](B & b) {
                         auto n = b.ch.pick(4);
                         auto xs = b.ivs(n);
                         size_t Q = 1 + b.ch.pick(3), S = 2 + b.ch.pick(2);
                         auto q0 = 1 + b.ch.pick(Q);
                         auto F = b.ch.pick(size_t{1} << Q);
                         auto seed = b.ch.pick(3);
                         Vals d;
                         for (size_t i = 0; i < Q * S; ++i)
                             d.push_back(Val((i * (2 + seed) + seed * i * i + i / S) % (Q + 1)));
                         Vals fin;
                         for (size_t q = 0; q < Q; ++q)
                             if (F >> q & 1)
                                 fin.push_back(Val(q) + 1);
                         b.post("glasgow_regular", J::array({b.json(xs), Q, S, b.consts(d), q0, B::set(fin)}), [=](const Vals & v) {
                             Val at = Val(q0);
                             for (auto x : all(xs, v)) {
                                 if (x < 0 || x >= Val(S))
                                     return false;
                                 at = d[size_t(at - 1) * S + size_t(x)];
                                 if (at == 0)
                                     return false;
                             }
                             return std::find(fin.begin(), fin.end(), at) != fin.end();
                         });
                     }});
        r.push_back({"seq_precede_chain", [](B & b) {
                         auto xs = b.ivs(b.ch.pick(4));
                         b.post("glasgow_seq_precede_chain_int", J::array({b.json(xs)}), [=](const Vals & v) {
                             Val m = 0;
                             for (auto x : all(xs, v)) {
                                 if (x > m + 1)
                                     return false;
                                 m = std::max(m, x);
                             }
                             return true;
                         });
                     }});
        r.push_back({"sort", [](B & b) {
                         auto n = b.ch.pick(4);
                         auto xs = b.ivs(n), ys = b.ivs(n);
                         b.post("glasgow_sort", J::array({b.json(xs), b.json(ys)}), [=](const Vals & v) {
                             auto w = all(xs, v);
                             std::sort(w.begin(), w.end());
                             return w == all(ys, v);
                         });
                     }});
        r.push_back({"symmetric_all_different", [=](B & b) {
                         auto n = 1 + b.ch.pick(3);
                         auto xs = distinct_ivs(b, n);
                         b.post("glasgow_symmetric_all_different", J::array({b.json(xs)}), [=](const Vals & v) {
                             for (size_t i = 0; i < n; ++i) {
                                 auto x = xs[i](v);
                                 if (x < 1 || x > Val(n) || xs[size_t(x - 1)](v) != Val(i) + 1)
                                     return false;
                             }
                             return true;
                         });
                     }});
        for (bool boolean : {false, true})
            r.push_back({boolean ? "table_bool" : "table_int", [=](B & b) {
                             auto n = 1 + b.ch.pick(3);
                             auto xs = boolean ? b.bvs(n) : b.ivs(n);
                             auto rows = b.ch.pick(4);
                             Vals t;
                             vector<Vals> ts;
                             for (size_t i = 0; i < rows; ++i) {
                                 Vals row;
                                 for (size_t j = 0; j < n; ++j)
                                     row.push_back(boolean ? Val((i * 5 + j * 3 + i * j + b.shape) % 2) : Val((i * 3 + j * 5 + i * j + b.shape) % 5) - 1);
                                 // a row given twice leaves which one is meant undetermined in a proof (DESIGN.md)
                                 if (std::find(ts.begin(), ts.end(), row) != ts.end())
                                     continue;
                                 ts.push_back(row);
                                 t.insert(t.end(), row.begin(), row.end());
                             }
                             b.post(boolean ? "glasgow_table_bool" : "glasgow_table_int", J::array({b.json(xs), b.consts(t, boolean)}),
                                 [=](const Vals & v) { return std::find(ts.begin(), ts.end(), all(xs, v)) != ts.end(); });
                         }});
        auto precede = [](const Vals & chain, const Vals & w) {
            for (size_t k = 0; k + 1 < chain.size(); ++k)
                for (auto x : w) {
                    if (x == chain[k])
                        break;
                    if (x == chain[k + 1])
                        return false;
                }
            return true;
        };
        r.push_back({"value_precede", [=](B & b) {
                         Val s = Val(b.ch.pick(3)), t = Val(b.ch.pick(3)) - 1;
                         if (s == t)
                             t = 3;
                         auto xs = b.ivs(b.ch.pick(4));
                         b.post("glasgow_value_precede_int", J::array({s, t, b.json(xs)}), [=](const Vals & v) { return precede({s, t}, all(xs, v)); });
                     }});
        r.push_back({"value_precede_chain", [=](B & b) {
                         static const vector<Vals> chains{{}, {1}, {1, 2}, {2, 0, 1}, {3, 1, 2, 0}};
                         auto c = chains[b.ch.pick(chains.size())];
                         auto xs = b.ivs(b.ch.pick(4));
                         b.post("glasgow_value_precede_chain_int", J::array({b.consts(c), b.json(xs)}), [=](const Vals & v) { return precede(c, all(xs, v)); });
                     }});
        return r;
    }

    // What the program wrote, with a signal raised at the end of the nth solution if asked
    struct Capture : std::streambuf
    {
        string text;
        long long solutions = 0, signal_at = 0;
        auto overflow(int c) -> int override
        {
            if (c != EOF)
                text += char(c);
            return c;
        }
        auto xsputn(const char * s, std::streamsize n) -> std::streamsize override
        {
            text.append(s, size_t(n));
            return n;
        }
        auto sync() -> int override
        {
            if (signal_at && text.ends_with("----------\n") && ++solutions == signal_at)
                raise(SIGTERM);
            return 0;
        }
    };
    struct Ran
    {
        int rc;
        string out, err;
    };
    auto run_fzn(const vector<string> & args, long long signal_at = 0) -> Ran
    {
        Capture o, e;
        o.signal_at = signal_at;
        auto co = cout.rdbuf(&o);
        auto ce = cerr.rdbuf(&e);
        abort_flag.store(false);
        vector<string> a{"fzn-glasgow"};
        a.insert(a.end(), args.begin(), args.end());
        vector<char *> argv;
        for (auto & s : a)
            argv.push_back(s.data());
        argv.push_back(nullptr);
        int rc = fzn_main(int(a.size()), argv.data());
        cout.rdbuf(co);
        cerr.rdbuf(ce);
        return {rc, o.text, e.text};
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    string base = (ctx.scratch.empty() ? string("/tmp") : ctx.scratch) + "/fzn" + to_string(getpid());
    bool survive = getenv("SURVIVE");
    auto fam = getenv("FAM");
    string keep = getenv("KEEP") ? getenv("KEEP") : "";
    if (survive)
        signal(SIGABRT, [](int) { siglongjmp(on_abort, 1); });
    if (ctx.limit_s < 60)
        ctx.limit_s = 60;
    const size_t n_asks = 20;
    const vector<string> var_hs{"first_fail", "input_order", "dom_w_deg", "smallest", "most_constrained"},
        val_hs{"indomain", "indomain_min", "indomain_max", "indomain_median", "outdomain_max", "outdomain_min", "indomain_split", "indomain_split_random", "indomain_random", "indomain_interval"};

    auto file_of = [&](const Model & m, const J & solve, const vector<string> & outs) {
        J vars = J::object();
        for (auto & v : m.vars) {
            J d{{"type", v.boolean ? "bool" : "int"}};
            if (! v.boolean && ! v.unbounded)
                d["domain"] = B::set(v.dom)["set"];
            if (v.defined)
                d["defined"] = true;
            if (! v.rhs.is_null())
                d["rhs"] = v.rhs;
            vars[v.name] = d;
        }
        return J{{"variables", vars}, {"arrays", m.arrays}, {"constraints", m.constraints}, {"output", outs}, {"solve", solve}, {"version", "1.0"}};
    };

    auto check = [&](string id, const Model & m, size_t ask, size_t k) {
        id += ";ask" + to_string(ask);
        if (ctx.enough() || (fam && id.find(fam) == string::npos) || ! ctx.begin(id))
            return;
        if (survive && sigsetjmp(on_abort, 1)) {
            ctx.fail(id, "aborted");
            return;
        }
        auto want = m.solutions();
        // objective: an integer variable, or a Boolean
        auto obj = m.vars.empty() ? 0 : k % m.vars.size();
        bool minimise = (ask == 6 || ask == 8 || ask == 12 || ask == 19), maximise = (ask == 7 || ask == 17 || ask == 16);
        if (m.vars.empty())
            minimise = maximise = false;
        bool optimise = minimise || maximise;
        J solve{{"method", minimise ? "minimize" : maximise ? "maximize" : "satisfy"}};
        if (optimise)
            solve["objective"] = m.vars[obj].name;
        vector<string> args{base + ".fzn"};
        auto add = [&](std::initializer_list<const char *> l) { args.insert(args.end(), l.begin(), l.end()); };
        auto search = [&](size_t q) {
            J vs = J::array();
            for (size_t i = 0; i < m.vars.size(); ++i)
                if ((i + q) % 3 != 2)
                    vs.push_back(m.vars[i].name);
            if (q % 4 == 1)
                vs.push_back(3);
            return J{{"id", q % 2 ? "int_search" : "bool_search"}, {"args", J::array({vs, var_hs[q % var_hs.size()], val_hs[(q / var_hs.size()) % val_hs.size()], q % 7 == 6 ? "lds" : "complete"})}};
        };
        bool everything = false;
        long long limit = 0, signal_at = 0;
        bool stats = false, prove = false;
        switch (ask) {
        case 0: everything = true; add({"-a"}); break;
        case 1: break;
        case 2: limit = 1; add({"-n", "1"}); break;
        case 3: limit = 3; add({"-n", "3"}); break;
        case 4: everything = stats = true; add({"-a", "-s", "-f"}); solve["ann"] = J::array({search(k)}); break;
        case 5:
        case 7:
        case 14:
        case 18:
            if (ask == 5 || ask == 14)
                everything = true, add({"-a"});
            if (ask == 14)
                add({"-p", "2", "-r", "7", "-v"});
            solve["ann"] = J::array({search(k)});
            if (k % 3 == 0)
                solve["ann"].push_back(J{{"id", "unknown_annotation"}, {"args", J::array({1})}});
            break;
        case 6: break;
        case 8: add({"--restarts", "2"}); break;
        case 9: add({"--restarts", "1"}); break;
        case 10: everything = stats = true; add({"-a", "--difference-logic", "-s"}); break;
        case 11: everything = prove = true; add({"-a", "--prove"}); break;
        case 12: prove = stats = true; add({"--prove", "-s"}); break;
        case 13: everything = true; add({"-a", "-t", "100000"}); break;
        case 15: everything = true; add({"-a", "-i", "--difference-logic", "--difference-logic-simplify", "off"}); break;
        case 16:
            if (k % 2)
                everything = true, add({"-a"});
            solve["ann"] = J::array({J{{"id", "seq_search"}, {"args", J::array({J::array({search(k), search(k + 3), J{{"id", "seq_search"}, {"args", J::array({J::array({search(k / 3)})})}}})})}}});
            break;
        case 17: limit = 2; add({"-n", "2"}); break;
        case 19: prove = true; add({"--prove", "--difference-logic", "--restarts", "3"}); break;
        }
        if (k % 5 == 4 && everything && ! prove && ! want.empty()) {
            signal_at = 1 + Val(k / 5 % std::min<size_t>(want.size(), 6));
            everything = false;
        }
        args.push_back("--proof-files-basename");
        args.push_back(base);
        vector<string> outs;
        for (auto & v : m.vars)
            outs.push_back(v.name);
        outs.insert(outs.end(), m.array_out.begin(), m.array_out.end());
        auto text = file_of(m, solve, outs).dump(1);
        {
            std::ofstream f{base + ".fzn"};
            f << text;
        }
        string bad;
        Ran ran;
        try {
            ran = run_fzn(args, signal_at);
        }
        catch (const std::exception & e) {
            bad = string("exception escaped: ") + e.what();
        }
        ctx.count("runs");
        bool unbounded = std::any_of(m.vars.begin(), m.vars.end(), [](auto & v) { return v.unbounded; });
        // refusals that are documented: values outside a contract (unless another
        // constraint has removed them first), and certificates not yet written
        if (bad.empty() && ran.rc != 0 && ran.out.find("=====") == string::npos)
            if (bool contract = m.refused && ran.err.find("invalid problem definition: ") != string::npos && ran.out.find("----------") == string::npos; contract || (prove && (ran.err.find("unimplemented at") != string::npos || (unbounded && ran.err.find("Integer overflow") != string::npos)))) {
                ctx.count(contract ? "refused" : "unimplemented");
                for (string s : {".fzn", ".opb", ".pbp", ".varmap", ".scp"})
                    unlink((base + s).c_str());
                return;
            }
        if (bad.empty() && ran.rc != 0)
            bad = "failed: " + ran.err;
        // read the output back
        vector<Vals> got;
        string verdict;
        long long n_stats = 0;
        if (bad.empty()) {
            std::istringstream in{ran.out};
            string l;
            Vals cur;
            size_t at = 0;
            bool cut = false;
            while (bad.empty() && getline(in, l)) {
                if (l.starts_with("%%%mzn-stat")) {
                    if (! stats)
                        bad = "statistics, which were not asked for";
                    ++n_stats;
                    continue;
                }
                if (l == "==========" || (l.starts_with("=====") && l.ends_with("====="))) {
                    if (! verdict.empty() || at != 0)
                        bad = "stray `" + l + "'";
                    verdict = l;
                    continue;
                }
                if (! verdict.empty()) {
                    bad = "`" + l + "' after the verdict";
                    break;
                }
                if (l == "----------") {
                    if (at != outs.size())
                        bad = "a solution without all of the output";
                    got.push_back(cur);
                    cur.clear();
                    at = 0;
                    continue;
                }
                if (at >= outs.size()) {
                    bad = "unexpected line `" + l + "'";
                    break;
                }
                auto head = outs[at] + " = ";
                if (! l.starts_with(head) || ! l.ends_with(";")) {
                    bad = "expected " + outs[at] + " but got `" + l + "'";
                    break;
                }
                auto value = l.substr(head.size(), l.size() - head.size() - 1);
                if (at < m.vars.size()) {
                    if (m.vars[at].boolean) {
                        if (value != "true" && value != "false")
                            bad = "a bool written as `" + value + "'";
                        cur.push_back(value == "true");
                    }
                    else {
                        char * end;
                        cur.push_back(strtoll(value.c_str(), &end, 10));
                        if (*end || value.empty())
                            bad = "an int written as `" + value + "'";
                    }
                }
                else {
                    auto & [ts, boolean] = m.array_terms[at - m.vars.size()];
                    string expect = "[";
                    for (size_t i = 0; i < ts.size(); ++i) {
                        auto x = ts[i](cur);
                        expect += (i ? ", " : "") + (boolean ? string(x ? "true" : "false") : to_string(x));
                    }
                    if (value != expect + "]")
                        bad = "the array " + outs[at] + " written as " + value + ", which is " + expect + "]";
                }
                ++at;
            }
            (void)cut;
            if (bad.empty() && at != 0)
                bad = "an unfinished solution";
        }
        auto show = [](const Vals & v) {
            string s = "(";
            for (auto x : v)
                s += (s.size() > 1 ? "," : "") + to_string(x);
            return s + ")";
        };
        if (bad.empty()) {
            std::sort(want.begin(), want.end());
            auto sorted = got;
            std::sort(sorted.begin(), sorted.end());
            for (auto & g : got)
                if (bad.empty() && ! std::binary_search(want.begin(), want.end(), g))
                    bad = "printed " + show(g) + ", which is not a solution";
            if (bad.empty() && std::adjacent_find(sorted.begin(), sorted.end()) != sorted.end())
                bad = "printed a solution twice";
            bool complete = verdict == "==========";
            if (bad.empty() && verdict == "=====UNSATISFIABLE=====" && ! want.empty())
                bad = "unsatisfiable, but there are solutions";
            else if (bad.empty() && verdict == "=====UNKNOWN=====")
                bad = "unknown";
            else if (bad.empty() && want.empty() && verdict != "=====UNSATISFIABLE=====")
                bad = "unsatisfiable, but the verdict is `" + verdict + "'";
            else if (bad.empty() && ! want.empty() && got.empty())
                bad = "no solution printed";
            else if (bad.empty() && ! verdict.empty() && ! complete && ! want.empty())
                bad = "verdict `" + verdict + "'";
            if (bad.empty() && ! want.empty()) {
                if (optimise) {
                    auto val = [&](const Vals & v) { return minimise ? v[obj] : -v[obj]; };
                    auto best = val(want[0]);
                    for (auto & w : want)
                        best = std::min(best, val(w));
                    for (size_t i = 1; i < got.size(); ++i)
                        if (val(got[i]) >= val(got[i - 1]))
                            bad = "a solution no better than the one before";
                    if (complete && val(got.back()) != best)
                        bad = "finished, but the best value is " + to_string(best) + " or its negation";
                    if (limit && Val(got.size()) > limit)
                        bad = "too many solutions";
                    if (! signal_at && ! complete && ! (limit && Val(got.size()) == limit))
                        bad = "did not finish";
                }
                else {
                    if (complete && sorted != want)
                        bad = "finished with " + to_string(got.size()) + " solutions, of " + to_string(want.size());
                    if (everything && ! complete)
                        bad = "did not finish";
                    if (limit && Val(got.size()) != std::min<Val>(limit, Val(want.size())))
                        bad = to_string(got.size()) + " solutions for a limit of " + to_string(limit);
                    if (limit && Val(want.size()) < limit && ! complete)
                        bad = "ran out of solutions without saying so";
                    if (! everything && ! limit && ! signal_at && got.size() != 1)
                        bad = to_string(got.size()) + " solutions, not one";
                    if (signal_at && Val(got.size()) < signal_at)
                        bad = "stopped before the signal";
                }
            }
            if (bad.empty() && stats && n_stats < 8)
                bad = "statistics missing";
            ctx.count("solutions", Val(got.size()));
            if (signal_at)
                ctx.count("interrupted");
        }
        if (bad.empty() && prove)
            try {
                pb::Checker c;
                c.read_model(vc::slurp(base + ".opb"));
                auto out = c.check_proof(vc::slurp(base + ".pbp"));
                if (auto q = out.conclusion.find(" :"); q != string::npos)
                    out.conclusion.resize(q);
                string expect;
                if (optimise) {
                    Val best = want.empty() ? 0 : want[0][obj];
                    for (auto & w : want)
                        best = minimise ? std::min(best, w[obj]) : std::max(best, w[obj]);
                    if (maximise)
                        best = -best;
                    expect = want.empty() ? "BOUNDS INF INF" : "BOUNDS " + to_string(best) + " " + to_string(best);
                }
                else
                    expect = want.empty() ? "UNSAT" : everything ? "ENUMERATION_COMPLETE " + to_string(want.size()) : "SAT";
                if (out.conclusion != expect)
                    bad = "the proof concludes `" + out.conclusion + "', expected `" + expect + "'";
                ctx.count("proofs");
                ctx.count("steps", out.steps);
            }
            catch (const std::exception & e) {
                bad = string("proof: ") + e.what();
            }
        if (! bad.empty()) {
            ctx.fail(id, bad);
            if (! keep.empty()) {
                std::ofstream(keep + ".fzn") << text;
                std::ofstream(keep + ".out") << ran.out << ran.err;
            }
        }
        else if (want.size() > 3 && ask % 5 == 0)
            ctx.sample(id + " -> " + to_string(got.size()) + " solutions " + verdict);
        for (string s : {".fzn", ".opb", ".pbp", ".varmap", ".scp"})
            unlink((base + s).c_str());
    };

    // another name for a variable or for a constant, before or after it in the file
    auto alias = [&](Model & m, size_t k) {
        if (k % 4 != 1 || m.vars.size() > 8)
            return;
        k /= 4;
        Var v{k % 2 ? "aa" : "zz", false, {2}};
        auto at = int(m.vars.size());
        if (k % 5 == 4 || m.vars.empty()) {
            v.boolean = k % 3 == 0;
            v.dom = {v.boolean ? 1 : 2};
            v.rhs = v.boolean ? J(true) : J(2);
            v.unbounded = true;
            if (v.boolean)
                v.dom = {1};
        }
        else {
            auto of = int(k % m.vars.size());
            v.boolean = m.vars[size_t(of)].boolean;
            v.dom = m.vars[size_t(of)].dom;
            v.rhs = m.vars[size_t(of)].name;
            v.unbounded = k % 3 == 0;
            m.preds.push_back([at, of](const Vals & w) { return w[size_t(at)] == w[size_t(of)]; });
        }
        m.vars.push_back(v);
    };

    auto ts = templates();
    size_t at = 0;
    if (ctx.mode == "single") {
        // every constraint, every way of giving its arguments; how it is asked rotates
        for (auto & t : ts) {
            // the number of models this template has decides how many are taken
            size_t total = 0;
            {
                Choices ch;
                do {
                    Model m;
                    B b{ch, m, 0, false};
                    t.make(b);
                    ++total;
                } while (ch.next() && total < 60000);
            }
            size_t cap = ctx.thorough ? 60000 : 20000;
            size_t stride = std::max<size_t>(1, total / cap);
            while (stride > 1 && (stride % 2 == 0 || stride % 3 == 0 || stride % 5 == 0))
                ++stride;
            size_t repeat = ctx.thorough ? 8 : std::max<size_t>(1, std::min<size_t>(8, 3000 / total));
            ctx.count("models_possible", Val(total) / Val(ctx.shards));
            Choices ch;
            size_t k = 0;
            do {
                if (k++ % stride != 0) {
                    Model m;
                    B b{ch, m, 0, false};
                    t.make(b);
                    continue;
                }
                for (size_t s = 0; s < repeat; ++s) {
                    ++at;
                    ch.at = 0;
                    Model m;
                    B b{ch, m, s + (repeat == 1 ? k / stride : 0), false};
                    t.make(b);
                    alias(m, at / 2);
                    if (m.vars.size() > 9)
                        continue;
                    auto ask = (at * 7 + s) % n_asks;
                    check("single/" + t.name + "/" + ch.str() + "/s" + to_string(b.shape), m, ask, at / 3);
                    // and all of its solutions
                    if (ask != 0 && at % 3 == 0)
                        check("single/" + t.name + "/" + ch.str() + "/s" + to_string(b.shape), m, 0, 0);
                }
            } while (ch.next() && k < 60000);
        }
    }
    else if (ctx.mode == "pairs") {
        // two constraints over shared variables
        for (size_t i = 0; i < ts.size(); ++i)
            for (size_t j = 0; j < ts.size(); ++j)
                for (size_t s = 0; s < (ctx.thorough ? 60 : 14); ++s) {
                    ++at;
                    Model m;
                    // the choices are not enumerated here: one sequence for each (i, j, s)
                    Choices ch;
                    for (size_t d = 0; d < 64; ++d) {
                        ch.st.emplace_back(0, 1);
                        ch.st.back().first = 0;
                    }
                    B b{ch, m, s + i * 3 + j, true};
                    b.fresh(false, menu[(i + j + s) % menu.size()]);
                    b.fresh(true, {0, 1});
                    b.fresh(false, menu[(i + 2 * j + s + 1) % menu.size()]);
                    b.fresh(true, {0, 1});
                    b.fresh(false, menu[(3 * i + j + s + 2) % menu.size()]);
                    // how long the arrays are and which constants: all ones, or zeroes, or twos
                    for (size_t d = 0; d < 64; ++d)
                        ch.st[d].first = (s + d + at) % 2 + ((s + d) % 5 == 0);
                    try {
                        ts[i].make(b);
                        ts[j].make(b);
                    }
                    catch (const std::out_of_range &) {
                        continue;
                    }
                    alias(m, at / 5);
                    if (m.vars.size() > 9)
                        continue;
                    check("pairs/" + ts[i].name + "+" + ts[j].name + "/" + to_string(s), m, (at * 7) % n_asks, at / 2);
                    if (at % 4 == 0)
                        check("pairs/" + ts[i].name + "+" + ts[j].name + "/" + to_string(s), m, 0, 0);
                }
    }
    else if (ctx.mode == "reject") {
        // files and command lines that mean nothing: a message and a failure, never a verdict or a solution
        const J good{{"variables", {{"x", {{"type", "int"}, {"domain", {{0, 2}}}}}, {"y", {{"type", "int"}, {"domain", {{0, 1}, {3, 3}}}}}, {"b", {{"type", "bool"}}}}},
            {"arrays", {{"xy", {{"a", {"x", "y"}}}}, {"c", {{"a", {1, 2, 3}}}}}}, {"constraints", J::array({J{{"id", "int_le"}, {"args", {"x", "y"}}}})},
            {"output", {"x", "y", "xy"}}, {"solve", {{"method", "satisfy"}}}, {"version", "1.0"}};
        auto run = [&](const string & id, const string & text, bool ok, vector<string> more = {}) {
            if (ctx.enough() || (fam && id.find(fam) == string::npos) || ! ctx.begin(id))
                return;
            if (survive && sigsetjmp(on_abort, 1)) {
                ctx.fail(id, "aborted");
                return;
            }
            {
                std::ofstream f{base + ".fzn"};
                f << text;
            }
            vector<string> args{base + ".fzn", "--proof-files-basename", base};
            args.insert(args.end(), more.begin(), more.end());
            if (id.ends_with("missing file"))
                args[0] = base + ".none";
            string bad;
            try {
                auto ran = run_fzn(args);
                auto says = ran.out.find("----------") != string::npos || ran.out.find("=====") != string::npos;
                if (! ok && (ran.rc == 0 || says))
                    bad = says ? "answered: " + ran.out : "not reported as a failure";
                else if (! ok && ran.err.empty())
                    bad = "failed without a message";
                else if (ok && (ran.rc != 0 || ! says))
                    bad = "failed: " + ran.err;
            }
            catch (const std::exception & e) {
                bad = string("exception escaped: ") + e.what();
            }
            ctx.count("runs");
            ctx.count(ok ? "accepted" : "rejected");
            if (! bad.empty())
                ctx.fail(id, bad);
            for (string s : {".fzn", ".opb", ".pbp", ".varmap", ".scp"})
                unlink((base + s).c_str());
        };
        auto text = good.dump();
        run("reject/good", text, true);
        for (auto & more : vector<vector<string>>{{}, {"-a"}, {"--prove"}}) {
            auto pre = "reject/" + (more.empty() ? string{} : more[0] + "/");
            run(pre + "missing file", text, false, more);
            // every proper prefix of the file
            for (size_t n = 0; n < text.size(); ++n)
                run(pre + "prefix " + to_string(n), text.substr(0, n), false, more);
            auto edit = [&](const string & what, std::function<void(J &)> f, bool ok = false) {
                J j = good;
                f(j);
                run(pre + what, j.dump(), ok, more);
            };
            for (string v : {"", "1", "1.1", "2.0"})
                edit("version " + v, [&](J & j) { j["version"] = v; });
            edit("no version", [](J & j) { j.erase("version"); });
            for (string v : {"float", "set of int", "", "Int"})
                edit("type " + v, [&](J & j) { j["variables"]["x"]["type"] = v; });
            edit("no type", [](J & j) { j["variables"]["x"].erase("type"); });
            edit("empty domain", [](J & j) { j["variables"]["x"]["domain"] = J::array(); });
            edit("backwards domain", [](J & j) { j["variables"]["x"]["domain"] = {{2, 1}}; });
            edit("unknown right hand side", [](J & j) { j["variables"]["x"]["rhs"] = "nowhere"; });
            for (string v : {"", "optimise", "minimise", "maximise"})
                edit("method " + v, [&](J & j) { j["solve"]["method"] = v; });
            edit("no method", [](J & j) { j["solve"].erase("method"); });
            for (string v : {"minimize", "maximize"}) {
                edit(v + " nothing", [&](J & j) { j["solve"]["method"] = v; });
                for (string o : {"nowhere", "xy", ""})
                    edit(v + " " + o, [&](J & j) { j["solve"] = {{"method", v}, {"objective", o}}; });
            }
            for (string o : {"nowhere", "", "z"})
                edit("output " + o, [&](J & j) {
                    j["output"] = {o};
                    j["solve"]["method"] = "satisfy";
                });
            edit("array of unknown", [](J & j) { j["arrays"]["xy"]["a"] = {"x", "nowhere"}; });
            for (string s : {"first_fail", "input_order"})
                edit("search on unknown " + s, [&](J & j) { j["solve"]["ann"] = J::array({J{{"id", "int_search"}, {"args", J::array({J::array({"nowhere"}), s, "indomain", "complete"})}}}); });
            // every constraint with an argument that does not exist, or one too few
            for (auto & t : ts) {
                Choices ch;
                Model m;
                B b{ch, m, 1, false};
                t.make(b);
                if (m.constraints.empty())
                    continue;
                auto solve = J{{"method", "satisfy"}};
                vector<string> outs;
                for (auto & v : m.vars)
                    outs.push_back(v.name);
                auto whole = file_of(m, solve, outs);
                auto cs = whole["constraints"].size() - 1;
                auto args = whole["constraints"][cs]["args"];
                if (t.name != "bool_xor")
                    for (size_t i = 0; i < args.size(); ++i) {
                        auto j = whole;
                        j["constraints"][cs]["args"].erase(i);
                        // what is left may still mean something if the arguments after it have the same shape, but the last is then missing
                        run(pre + t.name + "/without " + to_string(i), j.dump(), false, more);
                        j = whole;
                        j["constraints"][cs]["args"][i] = "nowhere";
                        run(pre + t.name + "/nowhere " + to_string(i), j.dump(), false, more);
                        j["constraints"][cs]["args"][i] = nullptr;
                        run(pre + t.name + "/null " + to_string(i), j.dump(), false, more);
                    }
                auto j = whole;
                string name = j["constraints"][cs]["id"];
                for (string n : {name + "_", "x" + name, string{}, name.substr(0, name.size() - 1)}) {
                    j["constraints"][cs]["id"] = n;
                    run(pre + t.name + "/called " + n, j.dump(), false, more);
                }
            }
            auto post = [&](const string & what, const string & id, J args, bool ok = false) {
                edit(what, [&](J & j) { j["constraints"].push_back(J{{"id", id}, {"args", args}}); }, ok);
            };
            for (string id : {"int_lin_eq", "int_lin_le", "int_lin_ne", "int_lin_eq_reif", "int_lin_le_reif", "int_lin_ne_reif"})
                for (size_t n = 0; n < 4; ++n)
                    for (size_t k = 0; k < 4; ++k) {
                        J a = J::array({J::array(), J::array(), 2});
                        for (size_t i = 0; i < n; ++i)
                            a[0].push_back(1);
                        for (size_t i = 0; i < k; ++i)
                            a[1].push_back(i % 2 ? "y" : "x");
                        if (id.ends_with("_reif"))
                            a.push_back("b");
                        if (n != k)
                            post(id + " of " + to_string(n) + " and " + to_string(k), id, a);
                    }
            // tables that do not divide into rows
            for (size_t n = 0; n < 3; ++n)
                for (size_t k = 0; k < 7; ++k) {
                    J a = J::array({J::array(), J::array()});
                    for (size_t i = 0; i < n; ++i)
                        a[0].push_back(i % 2 ? "y" : "x");
                    for (size_t i = 0; i < k; ++i)
                        a[1].push_back(Val(i % 2));
                    if (n == 0 || k % n != 0)
                        post("table of " + to_string(n) + " and " + to_string(k), "glasgow_table_int", a);
                }
            // automata whose table is too short, or whose start or targets do not exist
            for (Val q : {1, 2})
                for (Val s : {2, 3})
                    for (Val start : {-1, 0, 1, 2, 3})
                        for (Val over : {0, 1, 2})
                            for (Val cut : {0, 1}) {
                                J d = J::array();
                                for (Val i = 0; i < q * s - cut; ++i)
                                    d.push_back(over == 1 && i == 0 ? q + 1 : over == 2 && i == 0 ? -1 : i % (q + 1));
                                if (start < 1 || start > q || over == 1 || over == 2 || cut)
                                    if (over != 2 || cut || start < 1 || start > q)
                                        post("automaton " + to_string(q) + "." + to_string(s) + "." + to_string(start) + "." + to_string(over) + "." + to_string(cut), "glasgow_regular",
                                            J::array({J::array({"x", "y"}), q, s, d, start, B::set({1})}));
                            }
            // diagrams whose numbers of nodes or edges are not those of the arrays, with wrong levels, or with edges to nowhere
            {
                J xs = J::array({"x", "y"}), level = J::array({1, 2}), from = J::array({1, 2}), lab = J::array({B::set({0, 1}), B::set({1})}), to = J::array({2, 0});
                auto mdd = [&](const string & what, auto f, bool ok = false) {
                    J a = J::array({xs, 2, level, 2, from, lab, to});
                    f(a);
                    post("mdd " + what, "glasgow_mdd", a, ok);
                };
                mdd("good", [](J &) {}, true);
                for (Val n : {-1, 0, 1, 3, 100})
                    mdd("nodes " + to_string(n), [&](J & a) { a[1] = n; });
                for (Val n : {-1, 0, 1, 3, 100})
                    mdd("edges " + to_string(n), [&](J & a) { a[3] = n; });
                for (size_t i : {2, 4, 5, 6})
                    mdd("short " + to_string(i), [&](J & a) { a[i].erase(a[i].size() - 1); });
                for (Val l : {-1, 0, 2, 3, 4})
                    mdd("root level " + to_string(l), [&](J & a) { a[2][0] = l; });
                for (Val l : {-1, 0, 1, 4})
                    mdd("level " + to_string(l), [&](J & a) { a[2][1] = l; });
                for (Val u : {-1, 0, 2, 3, 4})
                    mdd("from " + to_string(u), [&](J & a) { a[4][0] = u; });
                for (Val u : {-1, 0, 1, 3, 4})
                    mdd("to " + to_string(u), [&](J & a) { a[6][0] = u; });
                mdd("two ways", [&](J & a) {
                    a[3] = 3;
                    a[4].push_back(2);
                    a[5].push_back(B::set({1}));
                    a[6].push_back(0);
                });
            }
            for (string id : {"glasgow_inverse", "glasgow_sort", "glasgow_arg_sort_int", "glasgow_disjunctive", "glasgow_cumulative", "glasgow_diffn", "glasgow_global_cardinality", "glasgow_bin_packing_load", "glasgow_bin_packing_capa", "glasgow_knapsack"}) {
                J a2 = J::array({"x", "y"}), a1 = J::array({"x"}), c2 = J::array({1, 1}), c1 = J::array({1});
                vector<J> wrong;
                if (id == "glasgow_inverse" || id == "glasgow_sort" || id == "glasgow_arg_sort_int" || id == "glasgow_disjunctive")
                    wrong = {J::array({a2, a1}), J::array({a1, a2})};
                else if (id == "glasgow_cumulative")
                    wrong = {J::array({a2, c1, c2, 2}), J::array({a2, c2, c1, 2}), J::array({a1, c2, c2, 2})};
                else if (id == "glasgow_diffn")
                    wrong = {J::array({a2, a2, c2, c1}), J::array({a2, a2, c1, c2}), J::array({a2, a1, c2, c2}), J::array({a1, a2, c2, c2})};
                else if (id == "glasgow_global_cardinality")
                    wrong = {J::array({a2, c2, a1}), J::array({a2, c1, a2})};
                else if (id == "glasgow_bin_packing_load")
                    wrong = {J::array({J::array({2, 2}), J::array({"b", "b"}), c1}), J::array({J::array({2, 2}), J::array({"b"}), c2})};
                else if (id == "glasgow_bin_packing_capa")
                    wrong = {J::array({c2, J::array({"b", "b"}), c1}), J::array({c2, J::array({"b"}), c2})};
                else
                    wrong = {J::array({c2, c1, a2, "x", "y"}), J::array({c1, c2, a2, "x", "y"}), J::array({c1, c1, a2, "x", "y"}), J::array({c2, c2, a1, "x", "y"})};
                for (size_t i = 0; i < wrong.size(); ++i)
                    post(id + " wrong " + to_string(i), id, wrong[i]);
            }
        }
        // command lines
        for (auto & more : vector<vector<string>>{{"--nonsense"}, {"-n", "many"}, {"-n"}, {"-t", "soon"}, {"--restarts", "often"}, {"-r", "x"}, {"--difference-logic", "--difference-logic-simplify", "maybe"}, {"-p"}, {"-n", "-1"}})
            run("reject/option " + more.back() + " " + more.front(), text, false, more);
        // accepted for compatibility
        for (auto & more : vector<vector<string>>{{"-v"}, {"-p", "3"}, {"-f"}, {"-i"}, {"-s"}, {"-n", "0"}, {"--restarts", "0"}, {"--difference-logic", "--difference-logic-simplify", "off"}})
            run("reject/accepted " + more.back() + " " + more.front(), text, true, more);
    }
    ctx.finish();
}
