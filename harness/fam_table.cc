// Table, automaton, element and precedence constraints.
#include "core.hh"

#include <algorithm>
#include <memory>
#include <set>
#include <unordered_map>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

namespace
{
    constexpr Val star = 1000;
    using Tups = vector<Vals>;

    auto simple(const Tups & t) -> SimpleTuples
    {
        SimpleTuples r;
        for (auto & x : t)
            r.push_back(Is(x));
        return r;
    }
    auto wild(const Tups & t) -> WildcardTuples
    {
        WildcardTuples r;
        for (auto & x : t) {
            vector<IntegerOrWildcard> row;
            for (auto v : x)
                if (v == star)
                    row.push_back(Wildcard{});
                else
                    row.push_back(I(v));
            r.push_back(row);
        }
        return r;
    }
    auto matches(const Tups & t, const Vals & v) -> bool
    {
        for (auto & x : t) {
            bool all = true;
            for (size_t i = 0; i < x.size(); ++i)
                if (x[i] != star && x[i] != v[i])
                    all = false;
            if (all)
                return true;
        }
        return false;
    }
    auto tstr(const Tups & t) -> string
    {
        string r;
        for (auto & x : t) {
            r += "(";
            for (size_t i = 0; i < x.size(); ++i)
                r += (i ? "," : "") + (x[i] == star ? string("*") : to_string(x[i]));
            r += ")";
        }
        return r;
    }
    auto all_tuples(const Vals & alphabet, size_t n) -> Tups
    {
        Tups r;
        tuples(alphabet, n, [&](const Vals & v) { r.push_back(v); });
        return r;
    }
    auto choose(const Tups & from, unsigned long mask) -> Tups
    {
        Tups r;
        for (size_t i = 0; i < from.size(); ++i)
            if (mask >> i & 1)
                r.push_back(from[i]);
        return r;
    }
    // kind 0 table, 1 negative table; rep 0 simple, 1 wildcard, 2 shared simple, 3 shared wildcard
    auto emit_table(const Sink & s, int kind, int rep, const Tups & t, const vector<Vals> & d, unsigned shape) -> void
    {
        string fam = kind ? "negative_table" : "table";
        shapes(s, Base{fam, string(rep == 0 ? "s" : rep == 1 ? "w" : rep == 2 ? "ss" : "sw") + tstr(t), d,
                      [kind, rep, t](Problem & p, const Vars & a) {
                          auto go = [&](ExtensionalTuples x) {
                              if (kind) p.post(NegativeTable{a, std::move(x)});
                              else p.post(Table{a, std::move(x)});
                          };
                          if (rep == 0) go(simple(t));
                          else if (rep == 1) go(wild(t));
                          else if (rep == 2) go(std::make_shared<const SimpleTuples>(simple(t)));
                          else go(std::make_shared<const WildcardTuples>(wild(t)));
                      },
                      [kind, t](const Vals & v) { return matches(t, v) != (kind == 1); }, kind == 0 ? unsigned(Gac) : 0u},
            shape);
    }

    struct DFA
    {
        long states;
        vector<vector<long>> t; // [state][symbol], -1 none
        vector<long> finals;
    };
    auto dfa_ok(const DFA & d, const Vals & v) -> bool
    {
        long q = 0;
        for (auto x : v) {
            if (x < 0 || x >= Val(d.t[q].size()) || d.t[q][x] < 0)
                return false;
            q = d.t[q][x];
        }
        return std::ranges::find(d.finals, q) != d.finals.end();
    }
    auto dfa_str(const DFA & d) -> string
    {
        string r;
        for (auto & row : d.t) {
            for (auto x : row)
                r += x < 0 ? "-" : to_string(x);
            r += "/";
        }
        r += "F";
        for (auto f : d.finals)
            r += to_string(f);
        return r;
    }
}

auto vc::add_table(vector<Family> & fs) -> void
{
    for (int kind : {0, 1})
        fs.push_back({"table", kind ? "negative_table" : "table", [kind](const Sink & s, int size) {
                          if (size == 0) {
                              auto two = all_tuples({0, 1, 2}, 2);
                              for (unsigned long m : {0b000000000ul, 0b100010001ul, 0b011101010ul, 0b000000011ul})
                                  emit_table(s, kind, 0, choose(two, m), {{0, 1, 2}, {0, 1, 2}}, Plain | NegView | Alias);
                              emit_table(s, kind, 1, {{0, star, 1}, {star, 1, 2}, {2, 2, star}}, {{0, 1, 2}, {0, 1}, {0, 1, 2}}, Plain | PosView);
                              emit_table(s, kind, 0, {{0, 1, 1}, {1, 1, 0}, {2, 0, 1}, {0, 1, 1}}, {{0, 1, 2}, {0, 1}, {0, 1}}, Plain);
                              return;
                          }
                          for (unsigned long m = 0; m < 8; ++m)
                              for (auto & d : subsets(-1, 2))
                                  emit_table(s, kind, 0, choose({{0}, {1}, {2}}, m), {d}, Std);
                          // every set of pairs over {0,1,2}
                          auto two = all_tuples({0, 1, 2}, 2);
                          for (unsigned long m = 0; m < 512; ++m) {
                              auto t = choose(two, m);
                              emit_table(s, kind, 0, t, {{0, 1, 2}, {0, 1, 2}}, m % 8 == 3 || size == 2 ? unsigned(Full) : Plain | Alias);
                              emit_table(s, kind, m % 2 ? 0 : 2, t, {{0, 2}, {0, 1, 2, 3}}, Plain);
                          }
                          // every set of triples over {0,1}
                          auto three = all_tuples({0, 1}, 3);
                          for (unsigned long m = 0; m < 256; ++m) {
                              auto t = choose(three, m);
                              emit_table(s, kind, 0, t, {{0, 1}, {0, 1}, {0, 1}}, m % 16 == 5 || size == 2 ? unsigned(Full) : Plain | NegView);
                              emit_table(s, kind, 0, t, {{1}, {0, 1, 2}, {-1, 0, 1}}, Plain);
                          }
                          // wildcards: every set of pairs over {0,1,*}, every one or two triples over {0,1,*}
                          auto w2 = all_tuples({0, 1, star}, 2);
                          for (unsigned long m = 0; m < 512; ++m)
                              for (auto & d : vector<vector<Vals>>{{{0, 1}, {0, 1}}, {{0, 1, 2}, {-1, 1}}})
                                  emit_table(s, kind, m % 3 == 0 ? 3 : 1, choose(w2, m), d, m % 8 == 6 ? unsigned(Full) : Plain | AllView);
                          auto w3 = all_tuples({0, 1, star}, 3);
                          for (size_t i = 0; i < w3.size(); ++i)
                              for (size_t j = i; j < w3.size(); ++j) {
                                  auto t = i == j ? Tups{w3[i]} : Tups{w3[i], w3[j]};
                                  emit_table(s, kind, 1, t, {{0, 1}, {0, 1}, {0, 1}}, Plain | NegView);
                                  emit_table(s, kind, 1, t, {{0, 1, 2}, {1}, {0, 1, 2}}, Plain | Alias);
                              }
                          // repeated and out-of-domain tuples, zero arity, larger values
                          for (auto & t : vector<Tups>{{{0, 1}, {0, 1}}, {{5, 5}, {0, 0}}, {{5, 5}}, {{-3, 1}, {0, 1}, {0, 2}, {-3, 1}}})
                              emit_table(s, kind, 0, t, {{0, 1, 2}, {0, 1, 2}}, Full);
                          emit_table(s, kind, 0, {{100, -100}, {1000000, 5}}, {{100, 1000000}, {-100, 5}}, Full);
                      }});

    fs.push_back({"table", "smart_table", [](const Sink & s, int size) {
                      // An entry is {kind, var, arg}: kind 0..5 binary ops with var arg,
                      // 6..11 unary ops with value arg, 12 in {0,2}, 13 not in {0,2}.
                      struct E { int op; int a, b; };
                      auto holds = [](const E & e, const Vals & v) {
                          auto cmp = [](int op, Val x, Val y) {
                              switch (op) {
                              case 0: return x < y;
                              case 1: return x <= y;
                              case 2: return x == y;
                              case 3: return x != y;
                              case 4: return x > y;
                              default: return x >= y;
                              }
                          };
                          if (e.op < 6) return cmp(e.op, v[e.a], v[e.b]);
                          if (e.op < 12) return cmp(e.op - 6, v[e.a], e.b);
                          bool in = v[e.a] == 0 || v[e.a] == 2;
                          return e.op == 12 ? in : ! in;
                      };
                      auto entry = [](const E & e, const Vars & a) -> SmartEntry {
                          auto x = a[e.a];
                          switch (e.op) {
                          case 0: return SmartTable::less_than(x, a[e.b]);
                          case 1: return SmartTable::less_than_equal(x, a[e.b]);
                          case 2: return SmartTable::equals(x, a[e.b]);
                          case 3: return SmartTable::not_equals(x, a[e.b]);
                          case 4: return SmartTable::greater_than(x, a[e.b]);
                          case 5: return SmartTable::greater_than_equal(x, a[e.b]);
                          case 6: return SmartTable::less_than(x, I(e.b));
                          case 7: return SmartTable::less_than_equal(x, I(e.b));
                          case 8: return SmartTable::equals(x, I(e.b));
                          case 9: return SmartTable::not_equals(x, I(e.b));
                          case 10: return SmartTable::greater_than(x, I(e.b));
                          case 11: return SmartTable::greater_than_equal(x, I(e.b));
                          case 12: return SmartTable::in_set(x, {0_i, 2_i});
                          default: return SmartTable::not_in_set(x, {0_i, 2_i});
                          }
                      };
                      auto emit = [&](const vector<vector<E>> & t, const vector<Vals> & d, bool short_reasons) {
                          string id = short_reasons ? "" : "long";
                          for (auto & row : t) {
                              id += "(";
                              for (auto & e : row)
                                  id += to_string(e.op) + "." + to_string(e.a) + "." + to_string(e.b) + ";";
                              id += ")";
                          }
                          shapes(s, Base{"smart_table", id, d,
                                        [t, entry, short_reasons](Problem & p, const Vars & a) {
                                            SmartTuples st;
                                            for (auto & row : t) {
                                                vector<SmartEntry> r;
                                                for (auto & e : row)
                                                    r.push_back(entry(e, a));
                                                st.push_back(r);
                                            }
                                            p.post(SmartTable{a, st}.with_short_reasons(short_reasons));
                                        },
                                        [t, holds](const Vals & v) {
                                            return std::ranges::any_of(t, [&](auto & row) { return std::ranges::all_of(row, [&](auto & e) { return holds(e, v); }); });
                                        }}, Plain);
                      };
                      vector<E> two; // every entry over variables 0, 1
                      for (int op = 0; op < 6; ++op)
                          two.push_back({op, 0, 1});
                      for (int op = 6; op < 12; ++op)
                          for (int v : {0, 1})
                              two.push_back({op, v, 1});
                      for (int op : {12, 13})
                          for (int v : {0, 1})
                              two.push_back({op, v, 0});
                      auto acyclic = [](const vector<E> & row) { return std::ranges::count_if(row, [](auto & e) { return e.op < 6; }) <= 1; };
                      vector<vector<Vals>> d2 = {{{0, 1, 2}, {0, 1, 2}}, {{0, 2}, {-1, 1, 2}}};
                      if (size == 0) {
                          emit({{{0, 0, 1}, {12, 0, 0}}, {{2, 0, 1}, {9, 1, 1}}}, d2[0], true);
                          emit({{{4, 0, 1}}, {{8, 0, 1}, {8, 1, 1}}}, d2[0], false);
                          emit({{{3, 0, 1}, {5, 1, 2}}, {{2, 0, 2}, {13, 1, 0}}}, {{0, 1, 2}, {0, 1, 2}, {0, 1}}, true);
                          return;
                      }
                      emit({}, d2[0], true);
                      emit({{}}, d2[0], true);
                      for (auto & d : d2)
                          for (auto & e : two) {
                              emit({{e}}, d, true);
                              for (auto & f : two) {
                                  if (acyclic({e, f}))
                                      emit({{e, f}}, d, true);
                                  emit({{e}, {f}}, d, false);
                                  if (size == 2)
                                      for (auto & g : two) {
                                          if (acyclic({e, f}))
                                              emit({{e, f}, {g}}, d, true);
                                          if (acyclic({e, f, g}))
                                              emit({{e, f, g}}, d, true);
                                      }
                              }
                          }
                      // two binary entries in a chain or star over three variables, with an optional second row
                      for (auto & d : vector<vector<Vals>>{{{0, 1, 2}, {0, 1, 2}, {0, 1, 2}}, {{0, 2}, {0, 1, 2}, {-1, 1}}})
                          for (int o1 = 0; o1 < 6; ++o1)
                              for (int o2 = 0; o2 < 6; ++o2)
                                  for (auto & [x, y, z] : vector<std::tuple<int, int, int>>{{0, 1, 2}, {1, 0, 2}, {2, 1, 0}}) {
                                      emit({{{o1, x, y}, {o2, y, z}}}, d, true);
                                      emit({{{o1, x, y}, {o2, x, z}}, {{o2, z, y}, {8, x, 1}}}, d, true);
                                      emit({{{o1, x, y}, {12, y, 0}, {o2, y, z}, {10, z, 0}}}, d, false);
                                  }
                  }});

    fs.push_back({"table", "element", [](const Sink & s, int size) {
                      for (int cons : {0, 1, 2})
                          for (Val start : {0, 1, -1})
                              for (size_t n = 1; n <= 3; ++n) {
                                  if (size == 0 && (start == -1 || n == 1 || (cons == 0)))
                                      continue;
                                  auto ds = n == 1 ? subsets(0, 2) : n == 2 ? vector<Vals>{{0, 1}, {2}, {-1, 1}, {0, 1, 2}} : vector<Vals>{{0, 1}, {2}, {-1, 2}};
                                  if (size == 0) ds = vector<Vals>{{0, 1}, {1, 2}};
                                  auto idxs = n == 1 ? vector<Vals>{range(start - 1, start + 1), {start}} : n == 2 ? vector<Vals>{range(start - 1, start + 2), {start, start + 1}, {start + 1}} : vector<Vals>{range(start, start + 2), {start, start + 2}, range(start - 2, start + 1)};
                                  auto ress = vector<Vals>{{0, 1, 2}, {-1, 2}, {1}, range(-2, 3)};
                                  if (size == 0) ress = {{0, 1, 2}}, idxs.resize(1);
                                  tuples(ds, n, [&](const vector<Vals> & d) {
                                      for (auto & ix : idxs)
                                          for (auto & r : ress) {
                                              auto dd = d;
                                              dd.push_back(ix);
                                              dd.push_back(r);
                                              shapes(s, Base{"element", string(cons == 0 ? "def" : cons == 1 ? "gac" : "bc") + to_string(start), dd,
                                                            [n, start, cons](Problem & p, const Vars & a) {
                                                                auto post = [&](Element e) {
                                                                    if (cons == 1) e.with_consistency(consistency::GAC{});
                                                                    if (cons == 2) e.with_consistency(consistency::BC{});
                                                                    p.post(e);
                                                                };
                                                                if (start == 0) post(Element{a[n + 1], a[n], sub(a, 0, n)});
                                                                else post(Element{a[n + 1], std::pair{a[n], I(start)}, sub(a, 0, n)});
                                                            },
                                                            [n, start](const Vals & v) {
                                                                auto i = v[n] - start;
                                                                return i >= 0 && i < Val(n) && v[i] == v[n + 1];
                                                            },
                                                            cons < 2 ? unsigned(Gac) : 0u},
                                                  size == 0 ? Plain | NegView | Alias : n == 2 || (n == 3 && size == 2) ? unsigned(Full) : Plain | AllView | Alias);
                                          }
                                  });
                              }
                  }});
    fs.push_back({"table", "element_constant", [](const Sink & s, int size) {
                      for (int cons : {0, 1, 2})
                          for (Val start : {0, 2, -1})
                              for (size_t n = 1; n <= 4; ++n) {
                                  if (size == 0 && (start == -1 || n < 3 || cons == 0))
                                      continue;
                                  tuples(n <= 3 ? Vals{-1, 0, 2, 5} : Vals{0, 3}, n, [&](const Vals & arr) {
                                      if (size == 0 && (arr[0] == 2 || arr[1] == -1 || arr[2] == 5))
                                          return;
                                      for (auto & ix : size == 0 ? vector<Vals>{range(start, start + n - 1)} : vector<Vals>{range(start, start + n - 1), range(start - 1, start + n), {start, start + Val(n) - 1}})
                                          for (auto & r : size == 0 ? vector<Vals>{range(-1, 5)} : vector<Vals>{range(-2, 6), {0, 5}, {2, 3}}) {
                                              if (ix.size() == 2 && ix[0] == ix[1])
                                                  continue;
                                              shapes(s, Base{"element_constant", string(cons == 0 ? "def" : cons == 1 ? "gac" : "bc") + to_string(start) + str(arr), {ix, r},
                                                            [arr, start, cons](Problem & p, const Vars & a) {
                                                                auto e = start == 0 ? ElementConstantArray{a[1], a[0], Is(arr)} : ElementConstantArray{a[1], std::pair{a[0], I(start)}, Is(arr)};
                                                                if (cons == 1) e.with_consistency(consistency::GAC{});
                                                                if (cons == 2) e.with_consistency(consistency::BC{});
                                                                p.post(e);
                                                            },
                                                            [arr, start](const Vals & v) {
                                                                auto i = v[0] - start;
                                                                return i >= 0 && i < Val(arr.size()) && arr[i] == v[1];
                                                            },
                                                            cons == 1 ? unsigned(Gac) : 0u},
                                                  size == 0 ? unsigned(Plain) : n == 2 || size == 2 ? unsigned(Full) : Plain | AllView | Alias);
                                          }
                                  });
                              }
                  }});
    fs.push_back({"table", "element_2d", [](const Sink & s, int size) {
                      for (int constant : {0, 1})
                          for (int cons : {0, 1, 2})
                              for (auto & [rows, cols] : vector<std::pair<size_t, size_t>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}})
                                  for (auto & st : vector<Vals>{{0, 0}, {1, 1}, {-1, 2}}) {
                                      if (size == 0 && (cons == 0 || rows * cols != 4 || st[0] == -1))
                                          continue;
                                      auto cells = rows * cols;
                                      vector<vector<Vals>> arrs;
                                      if (constant)
                                          tuples(vector<Vals>{{0}, {1}, {3}}, cells, [&](const vector<Vals> & d) { if (cells < 6 || d[0][0] == 0) arrs.push_back(d); });
                                      else
                                          tuples(cells <= 2 ? vector<Vals>{{0, 1}, {1}, {0, 3}} : cells == 4 ? vector<Vals>{{0, 1}, {3}} : vector<Vals>{{0, 1}, {1}}, cells, [&](const vector<Vals> & d) { arrs.push_back(d); });
                                      if (size == 0) arrs = {arrs[1], arrs[arrs.size() / 2]};
                                      for (auto & d : arrs)
                                          for (int wide : {0, 1}) {
                                              auto dd = constant ? vector<Vals>{} : d;
                                              auto n = dd.size();
                                              dd.push_back(range(st[0] - wide, st[0] + rows - 1 + wide));
                                              dd.push_back(range(st[1] - wide, st[1] + cols - 1));
                                              dd.push_back(range(0, 3));
                                              shapes(s, Base{"element_2d", string(constant ? "k" : "v") + (cons == 0 ? "def" : cons == 1 ? "gac" : "bc") + to_string(rows) + "x" + to_string(cols) + str(st) + (constant ? str(d) : ""), dd,
                                                            [=, rows = rows, cols = cols](Problem & p, const Vars & a) {
                                                                auto level = [&](auto e) {
                                                                    if (cons == 1) e.with_consistency(consistency::GAC{});
                                                                    if (cons == 2) e.with_consistency(consistency::BC{});
                                                                    p.post(e);
                                                                };
                                                                auto i1 = std::pair{a[n], I(st[0])}, i2 = std::pair{a[n + 1], I(st[1])};
                                                                bool zero = st[0] == 0 && st[1] == 0;
                                                                if (constant) {
                                                                    vector<vector<Integer>> m;
                                                                    for (size_t r = 0; r < rows; ++r) {
                                                                        m.emplace_back();
                                                                        for (size_t c = 0; c < cols; ++c)
                                                                            m.back().push_back(I(d[r * cols + c][0]));
                                                                    }
                                                                    if (zero) level(Element2DConstantArray{a[n + 2], a[n], a[n + 1], m});
                                                                    else level(Element2DConstantArray{a[n + 2], i1, i2, m});
                                                                }
                                                                else {
                                                                    vector<Vars> m;
                                                                    for (size_t r = 0; r < rows; ++r)
                                                                        m.push_back(sub(a, r * cols, cols));
                                                                    if (zero) level(Element2D{a[n + 2], a[n], a[n + 1], m});
                                                                    else level(Element2D{a[n + 2], i1, i2, m});
                                                                }
                                                            },
                                                            [=, rows = rows, cols = cols](const Vals & v) {
                                                                auto i = v[n] - st[0], j = v[n + 1] - st[1];
                                                                if (i < 0 || i >= Val(rows) || j < 0 || j >= Val(cols))
                                                                    return false;
                                                                auto c = constant ? d[i * cols + j][0] : v[i * cols + j];
                                                                return c == v[n + 2];
                                                            },
                                                            cons == 1 || (cons == 0 && ! constant) ? unsigned(Gac) : 0u},
                                                  size == 0 ? Plain | Alias : cells == 2 ? unsigned(Full) : cells == 4 && wide == 0 ? Plain | Alias | AllView : unsigned(Plain));
                                          }
                                  }
                  }});

    fs.push_back({"table", "regular", [](const Sink & s, int size) {
                      // strategy 0 default, 1 upfront, 2 per call, 3 bacchus; form 0 maps, 1 dense rows
                      auto emit = [&](const DFA & d, const vector<Vals> & doms, int strat, int form, bool short_reasons, unsigned shape) {
                          shapes(s, Base{"regular", dfa_str(d) + "s" + to_string(strat) + "f" + to_string(form) + (short_reasons ? "" : "l"), doms,
                                        [=](Problem & p, const Vars & a) {
                                            auto post = [&](Regular r) {
                                                if (strat == 1) r.with_proof_strategy(proof_strategy::Upfront{});
                                                if (strat == 2) r.with_proof_strategy(proof_strategy::PerCall{});
                                                if (strat == 3) r.with_proof_strategy(proof_strategy::Bacchus{});
                                                if (! short_reasons) r.with_short_reasons(false);
                                                p.post(r);
                                            };
                                            if (form == 1)
                                                post(Regular{a, d.states, d.t, d.finals});
                                            else {
                                                vector<std::unordered_map<Integer, long>> m;
                                                for (auto & row : d.t) {
                                                    m.emplace_back();
                                                    for (size_t x = 0; x < row.size(); ++x)
                                                        if (row[x] >= 0)
                                                            m.back().emplace(I(x), row[x]);
                                                }
                                                post(Regular{a, d.states, m, d.finals});
                                            }
                                        },
                                        [d](const Vals & v) { return dfa_ok(d, v); }, Gac},
                              shape);
                      };
                      // every two-state automaton over {0,1}, with every set of final states
                      int k = 0;
                      tuples(vector<long>{-1, 0, 1}, 4, [&](const vector<long> & t) {
                          for (int f = 0; f < 4; ++f) {
                              DFA d{2, {{t[0], t[1]}, {t[2], t[3]}}, {}};
                              for (int q : {0, 1})
                                  if (f >> q & 1)
                                      d.finals.push_back(q);
                              ++k;
                              if (size == 0) {
                                  if (k % 54 == 7)
                                      for (int strat : {1, 2, 3})
                                          emit(d, {{0, 1}, {0, 1}, {0, 1}}, strat, 0, strat != 2, Plain);
                                  continue;
                              }
                              emit(d, {{0, 1}, {0, 1}, {0, 1}}, k % 4, k % 2, k % 3 != 0, k % 12 == 0 || size == 2 ? unsigned(Full) : Plain | Alias);
                              emit(d, {{-1, 0, 1}, {1}, {0, 1, 2}, {0, 1}}, (k + 1) % 4, 0, true, k % 12 == 0 ? unsigned(Std) : unsigned(Plain));
                              emit(d, {{0, 1}, {0, 1}}, 0, 0, true, Plain | NegView);
                              if (k % 6 == 0) {
                                  for (int strat : {0, 1, 2, 3}) emit(d, {}, strat, 0, true, Plain);
                                  emit(d, {{0, 1}}, 0, 0, true, Full & ~(Alias | NegAlias | ConstPair));
                              }
                          }
                      });
                      // three states over {0,1,2}: structured automata
                      vector<DFA> ds = {{3, {{0, 1, -1}, {2, -1, 1}, {-1, 0, 2}}, {2}}, {3, {{1, 2, 0}, {0, 1, 2}, {2, 0, 1}}, {0, 1}}, {3, {{1, 1, 1}, {2, -1, -1}, {2, 2, -1}}, {1, 2}}, {3, {{0, 0, 1}, {-1, -1, -1}, {0, 1, 2}}, {1}}};
                      for (auto & d : ds)
                          for (int strat : {0, 2, 3}) {
                              if (size == 0) {
                                  if (strat == 0) emit(d, {{0, 1, 2}, {0, 1, 2}, {0, 1}}, 0, 0, true, Plain | NegView);
                                  continue;
                              }
                              for (auto & x : vector<Vals>{{0, 1, 2}, {0, 2}, {1}, {-1, 1, 3}})
                                  for (auto & y : vector<Vals>{{0, 1, 2}, {1, 2}})
                                      for (auto & z : vector<Vals>{{0, 1, 2}, {0, 2}, {2}})
                                          emit(d, {x, y, z, {0, 1, 2}}, strat, strat == 2, strat != 3, x.size() == 3 && y.size() == 3 ? unsigned(Full) : unsigned(Plain));
                          }
                  }});
    fs.push_back({"table", "regular_regex", [](const Sink & s, int size) {
                      using Match = std::function<bool(const Vals &, size_t, const std::function<bool(size_t)> &)>;
                      struct R { string text; Match m; };
                      // A small algebra: text and continuation matcher built side by side.
                      auto lit = [](Val x) { return R{to_string(x), [x](const Vals & v, size_t i, auto & k) { return i < v.size() && v[i] == x && k(i + 1); }}; };
                      auto cls = [](const string & t, std::set<Val> in) { return R{t, [in](const Vals & v, size_t i, auto & k) { return i < v.size() && in.contains(v[i]) && k(i + 1); }}; };
                      auto alt = [](const R & a, const R & b) { return R{"(" + a.text + "|" + b.text + ")", [a = a.m, b = b.m](const Vals & v, size_t i, auto & k) { return a(v, i, k) || b(v, i, k); }}; };
                      auto cat = [](const R & a, const R & b) { return R{a.text + " " + b.text, [a = a.m, b = b.m](const Vals & v, size_t i, auto & k) { return a(v, i, [&](size_t j) { return b(v, j, k); }); }}; };
                      auto rep = [](const R & a, const string & suffix, int lo, int hi) {
                          auto rec = std::make_shared<std::function<bool(const Vals &, size_t, int, const std::function<bool(size_t)> &)>>();
                          *rec = [a = a.m, lo, hi, w = rec.get()](const Vals & v, size_t i, int n, const std::function<bool(size_t)> & k) {
                              if (n >= lo && k(i))
                                  return true;
                              if (n == hi || n > lo + int(v.size()) + 1)
                                  return false;
                              return a(v, i, [&](size_t j) { return (*w)(v, j, n + 1, k); });
                          };
                          return R{"(" + a.text + ")" + suffix, [rec](const Vals & v, size_t i, auto & k) { return (*rec)(v, i, 0, k); }};
                      };
                      vector<R> atoms = {lit(0), lit(1), lit(2), cls(".", {0, 1, 2}), cls("[0 2]", {0, 2}), cls("[^1]", {0, 2}), cls("[1-2]", {1, 2})};
                      vector<R> l1 = atoms;
                      for (auto & a : atoms)
                          for (auto & [t, lo, hi] : vector<std::tuple<string, int, int>>{{"*", 0, 99}, {"+", 1, 99}, {"?", 0, 1}, {"{2}", 2, 2}, {"{1,}", 1, 99}, {"{0,2}", 0, 2}, {"{1,2}", 1, 2}})
                              l1.push_back(rep(a, t, lo, hi));
                      auto emit = [&](const R & r, const vector<Vals> & doms, unsigned shape) {
                          shapes(s, Base{"regular_regex", r.text, doms, [t = r.text](Problem & p, const Vars & a) { p.post(Regular{a, t}); },
                                        [m = r.m](const Vals & v) { return m(v, 0, [&](size_t j) { return j == v.size(); }); }, Gac}, shape);
                      };
                      vector<Vals> d3 = {{0, 1, 2}, {0, 1, 2}, {0, 1, 2}};
                      if (size == 0) {
                          emit(cat(rep(lit(0), "*", 0, 99), lit(1)), d3, Plain);
                          emit(rep(alt(cat(lit(0), lit(1)), lit(2)), "+", 1, 99), d3, Plain);
                          emit(cat(rep(cls("[^1]", {0, 2}), "?", 0, 1), rep(lit(1), "{1,2}", 1, 2)), d3, Plain);
                          return;
                      }
                      for (auto & r : l1) {
                          emit(r, {{0, 1, 2}}, Plain);
                          emit(r, {{0, 1, 2}, {0, 2}}, Plain | Alias);
                      }
                      for (size_t i = 0; i < l1.size(); ++i)
                          for (size_t j = 0; j < l1.size(); ++j) {
                              if (size < 2 && (i * 31 + j * 17) % 4)
                                  continue;
                              emit(cat(l1[i], l1[j]), d3, Plain);
                              emit(rep(alt(l1[i], l1[j]), "{2,3}", 2, 3), d3, Plain);
                              if (size == 2) {
                                  emit(rep(cat(l1[i], l1[j]), "*", 0, 99), d3, Plain);
                                  emit(rep(alt(l1[i], l1[j]), "+", 1, 99), {{0, 2}, {0, 1, 2}, {1, 2}, {0, 1, 2}}, Plain);
                              }
                          }
                  }});
    fs.push_back({"table", "mdd", [](const Sink & s, int size) {
                      auto emit = [&](const vector<vector<vector<long>>> & t, const Vals & nodes, const Vals & acc, const vector<Vals> & doms, unsigned shape) {
                          string id;
                          for (auto & layer : t) {
                              for (auto & row : layer) {
                                  for (auto x : row)
                                      id += x < 0 ? "-" : to_string(x);
                                  id += ".";
                              }
                              id += "/";
                          }
                          shapes(s, Base{"mdd", id + str(nodes) + "A" + str(acc), doms,
                                        [=](Problem & p, const Vars & a) {
                                            vector<vector<std::unordered_map<Integer, long>>> lt;
                                            for (auto & layer : t) {
                                                lt.emplace_back();
                                                for (auto & row : layer) {
                                                    lt.back().emplace_back();
                                                    for (size_t x = 0; x < row.size(); ++x)
                                                        if (row[x] >= 0)
                                                            lt.back().back().emplace(I(x), row[x]);
                                                }
                                            }
                                            p.post(MDD{a, lt, vector<long>(nodes.begin(), nodes.end()), vector<long>(acc.begin(), acc.end())});
                                        },
                                        [=](const Vals & v) {
                                            long q = 0;
                                            for (size_t i = 0; i < v.size(); ++i) {
                                                if (v[i] < 0 || v[i] >= Val(t[i][q].size()) || t[i][q][v[i]] < 0)
                                                    return false;
                                                q = t[i][q][v[i]];
                                            }
                                            return std::ranges::find(acc, q) != acc.end();
                                        },
                                        Gac},
                              shape);
                      };
                      int k = 0;
                      // every two-variable diagram with two nodes in the inner and last layers
                      tuples(vector<long>{-1, 0, 1}, 6, [&](const vector<long> & t) {
                          for (int f = 0; f < 4; ++f) {
                              Vals acc;
                              for (int q : {0, 1})
                                  if (f >> q & 1)
                                      acc.push_back(q);
                              ++k;
                              if (size == 0) {
                                  if (k % 500 == 203)
                                      emit({{{t[0], t[1]}}, {{t[2], t[3]}, {t[4], t[5]}}}, {1, 2, 2}, acc, {{0, 1}, {0, 1}}, Plain | NegView);
                                  continue;
                              }
                              emit({{{t[0], t[1]}}, {{t[2], t[3]}, {t[4], t[5]}}}, {1, 2, 2}, acc, k % 5 ? vector<Vals>{{0, 1}, {0, 1}} : vector<Vals>{{-1, 0, 1}, {0, 1, 2}}, k % 40 == 0 ? unsigned(Full) : k % 4 == 0 ? Plain | Alias : unsigned(Plain));
                          }
                      });
                      vector<vector<vector<vector<long>>>> ts = {
                          {{{0, 1, 1}}, {{0, 1, -1}, {2, -1, 0}}, {{0, -1, 1}, {-1, 0, 0}, {1, 1, -1}}},
                          {{{0, 1, 2}}, {{0, 0, 1}, {1, -1, -1}, {-1, -1, 2}}, {{-1, 0, -1}, {0, 1, 0}, {-1, -1, -1}}}};
                      for (auto & t : ts)
                          for (auto & acc : vector<Vals>{{0}, {1}, {0, 1}, {}}) {
                              Vals nodes = {1, Val(t[1].size()), Val(t[2].size()), 2};
                              if (size == 0) {
                                  if (acc.size() == 1) emit(t, nodes, acc, {{0, 1, 2}, {0, 1, 2}, {0, 1, 2}}, Plain);
                                  continue;
                              }
                              tuples(vector<Vals>{{0, 1, 2}, {0, 2}, {1, 2}, {1}}, 3, [&](const vector<Vals> & d) { emit(t, nodes, acc, d, d[0].size() == 3 && d[1].size() == 3 ? unsigned(Full) : unsigned(Plain)); });
                          }
                      if (size > 0)
                          for (auto & acc : vector<Vals>{{0}, {}})
                              emit({}, {1}, acc, {}, Plain);
                  }});
    fs.push_back({"table", "value_precede", [](const Sink & s, int size) {
                      auto ok = [](const Vals & chain, const Vals & v) {
                          for (size_t c = 1; c < chain.size(); ++c)
                              for (size_t i = 0; i < v.size(); ++i)
                                  if (v[i] == chain[c]) {
                                      bool seen = false;
                                      for (size_t j = 0; j < i; ++j)
                                          if (v[j] == chain[c - 1])
                                              seen = true;
                                      if (! seen)
                                          return false;
                                  }
                          return true;
                      };
                      vector<Vals> chains = {{}, {1}};
                      for (Val a : {0, 1, 2})
                          for (Val b : {0, 1, 2}) {
                              chains.push_back({a, b});
                              for (Val c : {0, 1, 2})
                                  if (size == 2 || a != c)
                                      chains.push_back({a, b, c});
                          }
                      chains.push_back({1, 2, 1});
                      chains.push_back({-1, 5, 1});
                      chains.push_back({2, 1, 0, 3});
                      for (auto & ch : chains)
                          for (size_t n = 0; n <= 4; ++n) {
                              auto ds = n <= 2 ? vector<Vals>{{0, 1}, {1}, {2}, {0, 1, 2}, {-1, 1, 2}, {1, 2}} : n == 3 ? vector<Vals>{{0, 1, 2}, {1, 2}, {0, 2}, {2}} : vector<Vals>{{0, 1, 2}, {1, 2}};
                              if (size == 0) {
                                  if (n < 3 || ch.size() < 2 || ch[0] == ch[1] || ch[0] == 2) continue;
                                  ds = n == 3 ? vector<Vals>{{0, 1, 2}, {0, 1}} : vector<Vals>{{0, 1, 2}};
                              }
                              tuples(ds, n, [&](const vector<Vals> & d) {
                                  shapes(s, Base{"value_precede", str(ch), d, [ch](Problem & p, const Vars & a) { p.post(ValuePrecede{Is(ch), a}); },
                                                [ch, ok](const Vals & v) { return ok(ch, v); }},
                                      size == 0 ? Plain | NegView : n == 2 ? unsigned(Full) : n == 3 ? Plain | Alias | AllView : unsigned(Plain));
                                  if (ch.size() == 2 && n == 2 && size > 0)
                                      shapes(s, Base{"value_precede", "st" + str(ch), d, [ch](Problem & p, const Vars & a) { p.post(ValuePrecede{I(ch[0]), I(ch[1]), a}); },
                                                    [ch, ok](const Vals & v) { return ok(ch, v); }}, Plain);
                              });
                          }
                  }});
    fs.push_back({"table", "seq_precede_chain", [](const Sink & s, int size) {
                      for (size_t n = 0; n <= 5; ++n) {
                          auto ds = n <= 2 ? subsets(-1, 3) : n == 3 ? vector<Vals>{{0, 1}, {1, 2, 3}, {-1, 1, 2}, {2, 3}, {1}, {1, 4}} : n == 4 ? vector<Vals>{{0, 1, 2}, {1, 2, 3, 4}, {1, 3}} : vector<Vals>{{1, 2, 3}, {0, 1, 5}};
                          if (size == 0) {
                              if (n < 3 || n == 5) continue;
                              ds = vector<Vals>{{0, 1, 2}, {1, 2, 3}};
                          }
                          tuples(ds, n, [&](const vector<Vals> & d) {
                              shapes(s, Base{"seq_precede_chain", to_string(n), d, [](Problem & p, const Vars & a) { p.post(SeqPrecedeChain{a}); },
                                            [](const Vals & v) {
                                                for (size_t i = 0; i < v.size(); ++i)
                                                    if (v[i] > 1) {
                                                        bool seen = false;
                                                        for (size_t j = 0; j < i; ++j)
                                                            if (v[j] == v[i] - 1)
                                                                seen = true;
                                                        if (! seen)
                                                            return false;
                                                    }
                                                return true;
                                            }},
                                  size == 0 ? unsigned(Plain) : n == 2 || n == 3 ? unsigned(Full) : n == 4 ? Plain | AllView : unsigned(Plain));
                          });
                      }
                  }});
}
