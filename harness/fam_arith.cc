#include "core.hh"
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector; using std::optional;

namespace
{
    auto doms(int size) -> vector<Vals>
    {
        if (size == 0)
            return {{0, 1}, {-1, 0, 2}, {-2, 1, 2, 3}};
        if (size == 1)
            return {{0}, {-1, 1}, {0, 1}, {-2, 0, 3}, {1, 2, 3}, {-3, -2, -1, 0}, {-1, 0, 1, 2}};
        auto r = subsets(-2, 2);
        r.push_back({-5, -4, 3, 7});
        return r;
    }

    // A ternary functional constraint z = f(x, y), with a consistency variant.
    template <typename C_, typename Cons_>
    auto ternary(const Sink & sink, const string & name, const vector<std::pair<string, optional<Cons_>>> & levels, const vector<Vals> & xs,
        const vector<Vals> & ys, const vector<Vals> & zs, OkFn ok, unsigned which) -> void
    {
        for (auto & [ln, l] : levels)
            for (auto & x : xs)
                for (auto & y : ys)
                    for (auto & z : zs)
                        shapes(sink,
                            Base{name, ln, {x, y, z},
                                [l = l](Problem & p, const Vars & a) {
                                    C_ c{a[0], a[1], a[2]};
                                    if (l)
                                        c.with_consistency(*l);
                                    p.post(c);
                                },
                                ok, ln == "tab" ? unsigned(Gac) : 0u},
                            which);
    }

    template <typename Cons_>
    auto abt() -> vector<std::pair<string, optional<Cons_>>>
    {
        return {{"def", std::nullopt}, {"bc", Cons_{consistency::BC{}}}, {"tab", Cons_{consistency::Tabulated{}}}};
    }
    auto ipow(Val b, Val e) -> optional<Val>
    {
        if (e == 0)
            return 1;
        if (e < 0) {
            if (b == 0)
                return std::nullopt;
            if (b == 1)
                return 1;
            if (b == -1)
                return e % 2 ? -1 : 1;
            return 0;
        }
        __int128 r = 1;
        for (Val i = 0; i < e; ++i) {
            r *= b;
            if (r > INT64_MAX || r < INT64_MIN)
                return std::nullopt;
        }
        return Val(r);
    }
}

auto vc::add_arith(vector<Family> & fs) -> void
{
    auto zs_for = [](int size) -> vector<Vals> {
        if (size == 0)
            return {{-2, -1, 0, 1, 2}, {0, 3}, range(-4, 6)};
        return {range(-6, 6), {0}, {1, 2}, {-4, -2, 0, 3, 4}, {-1, 5, 6}};
    };
    auto w = [](int size) -> unsigned { return size == 0 ? Plain | NegView | Alias | AllView | NegAlias : Full; };

    fs.push_back({"arith", "plus", [=](const Sink & s, int size) {
                      ternary<Plus, PlusConsistency>(s, "plus", abt<PlusConsistency>(), doms(size), doms(size), zs_for(size),
                          [](const Vals & v) { return v[0] + v[1] == v[2]; }, w(size));
                  }});
    fs.push_back({"arith", "minus", [=](const Sink & s, int size) {
                      ternary<Minus, MinusConsistency>(s, "minus", abt<MinusConsistency>(), doms(size), doms(size), zs_for(size),
                          [](const Vals & v) { return v[0] - v[1] == v[2]; }, w(size));
                  }});
    fs.push_back({"arith", "multiply", [=](const Sink & s, int size) {
                      ternary<Multiply, MultiplyConsistency>(s, "multiply", abt<MultiplyConsistency>(), doms(size), doms(size), zs_for(size),
                          [](const Vals & v) { return v[0] * v[1] == v[2]; }, w(size));
                      if (size > 0)
                          ternary<Multiply, MultiplyConsistency>(s, "multiply", {{"wide", MultiplyConsistency{consistency::BC{}}}}, intervals(-4, 3),
                              intervals(-3, 4), {range(-12, 12), range(1, 7), range(-9, -2), {-6, 0, 5}}, [](const Vals & v) { return v[0] * v[1] == v[2]; },
                              Plain);
                  }});
    fs.push_back({"arith", "divide", [=](const Sink & s, int size) {
                      ternary<Divide, DivideConsistency>(s, "divide", abt<DivideConsistency>(), size ? vector<Vals>{range(-5, 5), {-4, -3, 0, 7}, {0}, {2, 3}, {-1, 6}} : vector<Vals>{range(-3, 4), {-4, 0, 5}},
                          doms(std::min(size, 1)), zs_for(std::min(size, 1)), [](const Vals & v) { return v[1] != 0 && v[0] / v[1] == v[2]; }, w(size));
                  }});
    fs.push_back({"arith", "modulus", [=](const Sink & s, int size) {
                      ternary<Modulus, ModulusConsistency>(s, "modulus", abt<ModulusConsistency>(), size ? vector<Vals>{range(-5, 5), {-4, -3, 0, 7}, {0}, {2, 3}, {-1, 6}} : vector<Vals>{range(-3, 4), {-4, 0, 5}},
                          doms(std::min(size, 1)), zs_for(std::min(size, 1)), [](const Vals & v) { return v[1] != 0 && v[0] % v[1] == v[2]; }, w(size));
                  }});
    fs.push_back({"arith", "power", [=](const Sink & s, int size) {
                      auto exps = size ? vector<Vals>{{0}, {1}, {2}, {3}, {-1}, {-2}, {0, 1, 2, 3}, {-2, -1, 0, 1}, {2, 3}, {1, 4}} : vector<Vals>{{2}, {-1, 0, 1, 2}, {3}};
                      auto bases = size ? vector<Vals>{range(-3, 3), {0}, {-1, 1}, {-2, 0, 2}, {0, 1, 3}} : vector<Vals>{range(-2, 2), {0, 3}};
                      auto res = size ? vector<Vals>{range(-9, 9), {0, 1}, {-8, 4, 27}, range(1, 8)} : vector<Vals>{range(-4, 4), {0, 1, 8}};
                      ternary<Power, PowerConsistency>(s, "power", abt<PowerConsistency>(), bases, exps, res,
                          [](const Vals & v) { auto r = ipow(v[0], v[1]); return r && *r == v[2]; }, (size ? Full : Plain | Const | NegView) & ~(size ? 0u : unsigned(ConstPair)));
                  }});
    fs.push_back({"arith", "abs", [=](const Sink & s, int size) {
                      auto ds = size ? subsets(-3, size == 1 ? 2 : 3) : vector<Vals>{range(-3, 3), {-2, 0, 1}, {1, 2}, {-3, -1}};
                      for (auto & x : ds)
                          for (auto & y : ds)
                              shapes(s, Base{"abs", "", {x, y}, [](Problem & p, const Vars & a) { p.post(Abs{a[0], a[1]}); },
                                            [](const Vals & v) { return std::abs(v[0]) == v[1]; }},
                                  size == 1 ? Full & ~ConstPair : Full);
                  }});
    fs.push_back({"arith", "min_max", [=](const Sink & s, int size) {
                      for (int mx = 0; mx < 2; ++mx)
                          for (size_t n = 1; n <= 3; ++n) {
                              auto ds = n == 3 ? (size ? vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 2, 3}} : vector<Vals>{{0, 1}, {-1, 2}}) : doms(std::min(size, int(n == 1 ? 2 : 1)));
                              tuples(ds, n + 1, [&](const vector<Vals> & d) {
                                  auto ok = [mx, n](const Vals & v) {
                                      return (mx ? *std::max_element(v.begin(), v.begin() + n) : *std::min_element(v.begin(), v.begin() + n)) == v[n];
                                  };
                                  shapes(s, Base{"min_max", string(mx ? "max" : "min"), d,
                                                [mx, n](Problem & p, const Vars & a) {
                                                    auto v = sub(a, 0, n);
                                                    if (mx)
                                                        p.post(ArrayMax{v, a[n]});
                                                    else
                                                        p.post(ArrayMin{v, a[n]});
                                                },
                                                ok},
                                      n == 3 && size == 1 ? Std | Alias : Full);
                                  if (n == 2)
                                      shapes(s, Base{"min_max", string(mx ? "max2" : "min2"), d,
                                                    [mx](Problem & p, const Vars & a) {
                                                        if (mx)
                                                            p.post(Max{a[0], a[1], a[2]});
                                                        else
                                                            p.post(Min{a[0], a[1], a[2]});
                                                    },
                                                    ok},
                                          Std);
                              });
                          }
                  }});
    // Linear: all coefficient vectors, relations, reifications.
    fs.push_back({"arith", "linear", [=](const Sink & s, int size) {
                      vector<Val> coeffs = size == 0 ? vector<Val>{1, -2} : size == 1 ? vector<Val>{-2, -1, 0, 1, 3} : vector<Val>{-3, -2, -1, 0, 1, 2, 3};
                      vector<string> rels = {"eq", "ne", "le", "ge", "gac"};
                      for (size_t n = 1; n <= 3; ++n) {
                          if (n == 3 && size == 1)
                              coeffs = {-2, -1, 1, 3};
                          auto ds = n == 1 ? doms(2) : n == 2 ? (size ? vector<Vals>{{0, 1}, {-1, 2}, range(-2, 2), {1}, {-3, 0, 3}} : vector<Vals>{{0, 1}, {-1, 0, 2}})
                                                              : (size ? vector<Vals>{{0, 1}, {-1, 0, 2}, {-2, 1, 2}} : vector<Vals>{{0, 1}, {-1, 0, 2}});
                          tuples(coeffs, n, [&](const Vals & cs) {
                              tuples(ds, n, [&](const vector<Vals> & d) {
                                  for (auto & rel : rels)
                                      for (Val rhs : size == 0 ? vector<Val>{0, 1} : size == 1 ? vector<Val>{-1, 0, 2} : vector<Val>{-4, -1, 0, 1, 2, 5})
                                          for (int re = 0; re < 3; ++re) {
                                              if (re && n == 3 && size < 2 && (rhs != 0 || d[0] == d[1]))
                                                  continue;
                                              auto args = d;
                                              if (re)
                                                  args.push_back({0, 1, 2});
                                              auto post = [=](Problem & p, const Vars & a) {
                                                  WeightedSum sum;
                                                  for (size_t i = 0; i < n; ++i)
                                                      sum += I(cs[i]) * a[i];
                                                  auto c = [&] { return a[n] == 1_i; };
                                                  auto go = [&](auto con) { p.post(con); };
                                                  if (rel == "eq")
                                                      re == 0 ? go(LinearEquality{sum, I(rhs)}) : re == 1 ? go(LinearEqualityIf{sum, I(rhs), c()}) : go(LinearEqualityIff{sum, I(rhs), c()});
                                                  else if (rel == "gac") {
                                                      if (re == 0) { LinearEquality e{sum, I(rhs)}; e.with_consistency(consistency::Tabulated{}); p.post(e); }
                                                      else if (re == 1) { LinearEqualityIf e{sum, I(rhs), c()}; e.with_consistency(consistency::Tabulated{}); p.post(e); }
                                                      else { LinearEqualityIff e{sum, I(rhs), c()}; e.with_consistency(consistency::Tabulated{}); p.post(e); }
                                                  }
                                                  else if (rel == "ne")
                                                      re == 0 ? go(LinearNotEquals{sum, I(rhs)}) : re == 1 ? go(LinearNotEqualsIf{sum, I(rhs), c()}) : go(LinearNotEqualsIff{sum, I(rhs), c()});
                                                  else if (rel == "le")
                                                      re == 0 ? go(LinearLessThanEqual{sum, I(rhs)}) : re == 1 ? go(LinearLessThanEqualIf{sum, I(rhs), c()}) : go(LinearLessThanEqualIff{sum, I(rhs), c()});
                                                  else
                                                      re == 0 ? go(LinearGreaterThanEqual{sum, I(rhs)}) : re == 1 ? go(LinearGreaterThanEqualIf{sum, I(rhs), c()}) : go(LinearGreaterThanEqualIff{sum, I(rhs), c()});
                                              };
                                              auto ok = [=](const Vals & v) {
                                                  Val t = 0;
                                                  for (size_t i = 0; i < n; ++i)
                                                      t += cs[i] * v[i];
                                                  bool h = (rel == "eq" || rel == "gac") ? t == rhs : rel == "ne" ? t != rhs : rel == "le" ? t <= rhs : t >= rhs;
                                                  if (re == 0)
                                                      return h;
                                                  bool cond = v[n] == 1;
                                                  return re == 1 ? (! cond || h) : cond == h;
                                              };
                                              unsigned which = re ? (size == 2 ? Plain | AllView | Alias | Const : n == 1 ? Full : Plain | AllView)
                                                                  : (n == 3 ? (size == 2 ? Full : Plain | AllView | Alias) : n == 2 && size == 1 ? Plain | NegView | Alias | NegAlias | Const : Full);
                                              if (size == 0)
                                                  which = Plain | (n < 3 ? AllView | Alias : 0u);
                                              shapes(s, Base{"linear", rel + str(cs) + "?" + to_string(rhs) + "/r" + to_string(re), args, post, ok, (rel == "gac" && re == 0) ? unsigned(Gac) : 0u}, which);
                                          }
                              });
                          });
                      }
                  }});
    // Long sums, on both sides of the incremental threshold.
    fs.push_back({"arith", "linear_long", [=](const Sink & s, int size) {
                      for (size_t n : size == 2 ? vector<size_t>{4, 5, 6} : vector<size_t>{4, 5})
                          for (auto thr : vector<size_t>{0, 3, 100})
                              for (int pat = 0; pat < (size == 0 ? 2 : 6); ++pat)
                                  for (Val rhs = -2; rhs <= (size == 0 ? 1 : 4); ++rhs)
                                      for (int rel = 0; rel < 3; ++rel)
                                          for (auto & d : size == 0 ? vector<Vals>{{0, 1}} : vector<Vals>{{0, 1}, {-1, 1}, {0, 1, 2}}) {
                                              Vals cs;
                                              for (size_t i = 0; i < n; ++i)
                                                  cs.push_back(pat == 0 ? 1 : pat == 1 ? Val(i) - 2 : pat == 2 ? (i % 2 ? -1 : 1) : pat == 3 ? (i % 2 ? -3 : 2) : pat == 4 ? Val(i + 1) : -Val(i % 3 + 1));
                                              shapes(s, Base{"linear_long", "t" + to_string(thr) + "/r" + to_string(rel) + str(cs) + to_string(rhs), vector<Vals>(n, d),
                                                            [=](Problem & p, const Vars & a) {
                                                                WeightedSum sum;
                                                                for (size_t i = 0; i < n; ++i)
                                                                    sum += I(cs[i]) * a[i];
                                                                if (rel == 0) {
                                                                    LinearEquality e{sum, I(rhs)};
                                                                    e.with_incremental_threshold(thr);
                                                                    p.post(e);
                                                                }
                                                                else if (rel == 1)
                                                                    p.post(LinearLessThanEqual{sum, I(rhs), thr});
                                                                else
                                                                    p.post(LinearGreaterThanEqual{sum, I(rhs), thr});
                                                            },
                                                            [=](const Vals & v) {
                                                                Val t = 0;
                                                                for (size_t i = 0; i < n; ++i)
                                                                    t += cs[i] * v[i];
                                                                return rel == 0 ? t == rhs : rel == 1 ? t <= rhs : t >= rhs;
                                                            }},
                                                  size == 0 ? unsigned(Plain) : Plain | AllView);
                                          }
                  }});
    // The operator syntax for linear constraints.
    fs.push_back({"arith", "linear_ops", [=](const Sink & s, int) {
                      for (int form = 0; form < 6; ++form)
                          for (auto & d : vector<Vals>{{0, 1, 2}, {-2, 0, 1}})
                              shapes(s, Base{"linear_ops", to_string(form), {d, {-1, 0, 1, 2}},
                                            [=](Problem & p, const Vars & a) {
                                                switch (form) {
                                                case 0: p.post(WeightedSum{} + 2_i * a[0] + 3_i * a[1] <= 3_i); break;
                                                case 1: p.post(WeightedSum{} + 2_i * a[0] + -1_i * a[1] >= 1_i); break;
                                                case 2: p.post(WeightedSum{} + 2_i * a[0] + -1_i * a[1] == 1_i); break;
                                                case 3: p.post(LinearNotEquals{WeightedSum{} + 1_i * a[0] + 1_i * a[1], 1_i}); break;
                                                case 4: p.post(WeightedSum{} + 1_i * a[0] + 1_i * a[0] + 1_i * a[1] == 2_i); break;
                                                default: p.post(WeightedSum{} + 1_i * a[0] + -1_i * a[0] + 1_i * a[1] <= 0_i);
                                                }
                                            },
                                            [=](const Vals & v) {
                                                switch (form) {
                                                case 0: return 2 * v[0] + 3 * v[1] <= 3;
                                                case 1: return 2 * v[0] - v[1] >= 1;
                                                case 2: return 2 * v[0] - v[1] == 1;
                                                case 3: return v[0] + v[1] != 1;
                                                case 4: return 2 * v[0] + v[1] == 2;
                                                default: return v[1] <= 0;
                                                }
                                            }},
                                  Full);
                  }});
    // Difference systems: every small weighted digraph, with and without conditions.
    fs.push_back({"arith", "difference", [=](const Sink & s, int size) {
                      vector<Val> ws = size == 0 ? vector<Val>{-1, 0} : vector<Val>{-2, -1, 0, 1};
                      struct E
                      {
                          int x, y;
                      };
                      vector<E> arcs = {{0, 1}, {1, 2}, {2, 0}, {1, 0}, {2, 1}, {0, 2}};
                      auto run = [&](const vector<E> & es, const Vals & w, unsigned condmask, int opts, const vector<Vals> & d) {
                          auto args = d;
                          if (condmask) // two condition variables
                              args.insert(args.end(), {{0, 1}, {0, 1}});
                          shapes(s, Base{"difference", "o" + to_string(opts) + "c" + to_string(condmask) + str(w) + [&] { string r; for (auto & e : es) r += to_string(e.x) + to_string(e.y) + "."; return r; }(), args,
                                        [=](Problem & p, const Vars & a) {
                                            vector<DifferenceEdge> v;
                                            for (size_t i = 0; i < es.size(); ++i) {
                                                DifferenceEdge e{a[es[i].x], a[es[i].y], I(w[i])};
                                                if (condmask & (1u << i))
                                                    e.cond = (a[3 + i % 2] == 1_i);
                                                v.push_back(e);
                                            }
                                            DifferenceConstraints c{v};
                                            c.simplifying_at_root(opts & 1);
                                            c.incrementally(opts & 2);
                                            c.auditing_incremental_propagation(opts & 4);
                                            p.post(c);
                                        },
                                        [=](const Vals & v) {
                                            for (size_t i = 0; i < es.size(); ++i)
                                                if (! (condmask & (1u << i)) || v[3 + i % 2] == 1)
                                                    if (! (v[es[i].x] - v[es[i].y] <= w[i]))
                                                        return false;
                                            return true;
                                        }},
                              size == 0 ? unsigned(Plain) : Plain | PosView | Const);
                      };
                      for (unsigned m = 1; m < 64; ++m) {
                          vector<E> es;
                          for (int i = 0; i < 6; ++i)
                              if (m & (1u << i))
                                  es.push_back(arcs[i]);
                          if (es.size() > (size == 2 ? 4u : 3u))
                              continue;
                          tuples(ws, es.size(), [&](const Vals & w) {
                              for (unsigned cm = 0; cm < (1u << es.size()); ++cm) {
                                  if (size == 0 && cm != 0 && cm != (1u << es.size()) - 1 && cm != 1)
                                      continue;
                                  for (int o : size == 0 ? vector<int>{3, 0} : size == 1 ? vector<int>{3, 0, 7} : vector<int>{0, 1, 2, 3, 7}) {
                                      if (size == 1 && o != 3 && es.size() == 3 && (cm & 1))
                                          continue;
                                      run(es, w, cm, o, {{0, 1, 2}, {0, 1, 2, 3}, {-1, 1, 2}});
                                  }
                              }
                          });
                      }
                  }});
    fs.push_back({"arith", "knapsack", [=](const Sink & s, int size) {
                      vector<Vals> ws = size == 0 ? vector<Vals>{{1, 2, 3}, {2, 0, 1}} : vector<Vals>{{1, 2, 3}, {2, 0, 1}, {0, 0, 0}, {1, 1, 1}, {3, 5, 2}, {4, 4, 1}};
                      vector<vector<Vals>> items = {{{0, 1}, {0, 1}, {0, 1}}, {{0, 1, 2}, {0, 2}, {1}}, {{0, 3}, {0, 1}, {1, 2}}};
                      for (int st = 0; st < 2; ++st)
                          for (auto & it : items)
                              for (auto & w : ws)
                                  for (auto & pr : ws)
                                      for (auto & t1 : size == 0 ? vector<Vals>{range(0, 6)} : vector<Vals>{range(0, 6), {3}, {2, 5}, range(4, 12)})
                                          for (auto & t2 : size == 0 ? vector<Vals>{{1, 2, 5}} : vector<Vals>{range(0, 15), range(3, 5), {1, 4}}) {
                                              auto args = it;
                                              args.push_back(t1);
                                              args.push_back(t2);
                                              shapes(s, Base{"knapsack", to_string(st) + str(w) + str(pr), args,
                                                            [=](Problem & p, const Vars & a) {
                                                                Knapsack k{Is(w), Is(pr), sub(a, 0, 3), a[3], a[4]};
                                                                if (st)
                                                                    k.with_proof_strategy(proof_strategy::Upfront{});
                                                                p.post(k);
                                                            },
                                                            [=](const Vals & v) {
                                                                return w[0] * v[0] + w[1] * v[1] + w[2] * v[2] == v[3] && pr[0] * v[0] + pr[1] * v[1] + pr[2] * v[2] == v[4];
                                                            }, Heavy},
                                                  size == 0 ? unsigned(Plain) : Plain | Const | NegView);
                                          }
                      // three totals
                      for (auto & t : vector<Vals>{range(0, 5), {1, 3}})
                          shapes(s, Base{"knapsack", "3", {{0, 1}, {0, 1, 2}, {0, 1}, t, {0, 1, 2, 3}, range(0, 9)},
                                        [=](Problem & p, const Vars & a) {
                                            p.post(Knapsack{vector<vector<Integer>>{Is({1, 2, 1}), Is({1, 1, 0}), Is({2, 3, 1})}, sub(a, 0, 3), sub(a, 3, 3)});
                                        },
                                        [=](const Vals & v) { return v[0] + 2 * v[1] + v[2] == v[3] && v[0] + v[1] == v[4] && 2 * v[0] + 3 * v[1] + v[2] == v[5]; }, Heavy},
                              Plain);
                  }});
}
