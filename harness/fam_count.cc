// Counting, matching and graph constraints.
#include "core.hh"

#include <gcs/constraints/at_most_one.hh>

#include <algorithm>
#include <set>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

namespace
{
    auto distinct(const Vals & v) -> bool { return std::set<Val>(v.begin(), v.end()).size() == v.size(); }
    auto is_tour(const Vals & v) -> bool
    {
        Val at = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            if (at < 0 || at >= Val(v.size()))
                return false;
            at = v[at];
            if (at == 0)
                return i + 1 == v.size();
        }
        return false;
    }
}

auto vc::add_count(vector<Family> & fs) -> void
{
    fs.push_back({"count", "all_different", [](const Sink & s, int size) {
                      for (int cons = 0; cons < 3; ++cons)
                          for (size_t n = 0; n <= 4; ++n) {
                              auto ds = n <= 2 ? subsets(0, 3) : n == 3 ? (size == 2 ? subsets(0, 3) : vector<Vals>{{0, 1}, {1, 2, 3}, {0, 2}, {-1, 1, 3}, {1}, {0, 3}}) : vector<Vals>{{0, 1, 2}, {1, 3}, {0, 3}, {0, 1, 2, 3}, {-2, 2}};
                              if (size == 0) {
                                  if (n < 2)
                                      continue;
                                  ds = n == 4 ? vector<Vals>{{0, 1, 2}, {0, 1}, {1, 2, 3}} : vector<Vals>{{0, 1}, {0, 1, 2}};
                              }
                              tuples(ds, n, [&](const vector<Vals> & d) {
                                  shapes(s, Base{"all_different", (cons == 0 ? "def" : cons == 1 ? "gac" : "vc") + to_string(n), d,
                                                [cons](Problem & p, const Vars & a) {
                                                    AllDifferent c{a};
                                                    if (cons == 1) c.with_consistency(consistency::GAC{});
                                                    if (cons == 2) c.with_consistency(consistency::VC{});
                                                    p.post(c);
                                                },
                                                distinct, cons < 2 ? unsigned(Gac) : 0u},
                                      size == 0 ? Plain | NegView : n == 4 ? Plain | NegView | PosView | Alias | AllView : unsigned(Full));
                              });
                          }
                  }});
    fs.push_back({"count", "all_different_except", [](const Sink & s, int size) {
                      for (auto & ex : vector<Vals>{{0}, {}, {1, 3}, {-5}})
                          for (size_t n = 1; n <= 4; ++n) {
                              auto ds = n <= 2 ? subsets(0, 3) : n == 3 ? vector<Vals>{{0, 1}, {1, 2, 3}, {0, 2}, {1}, {0, 3}} : vector<Vals>{{0, 1, 2}, {1, 3}, {1, 2}};
                              if (size == 0) {
                                  if (n != 3 || ex.size() == 2)
                                      continue;
                                  ds = vector<Vals>{{0, 1}, {0, 1, 2}, {1, 2}};
                              }
                              tuples(ds, n, [&](const vector<Vals> & d) {
                                  auto ok = [ex](const Vals & v) {
                                      for (size_t i = 0; i < v.size(); ++i)
                                          for (size_t j = i + 1; j < v.size(); ++j)
                                              if (v[i] == v[j] && std::ranges::find(ex, v[i]) == ex.end())
                                                  return false;
                                      return true;
                                  };
                                  shapes(s, Base{"all_different_except", str(ex), d,
                                                [ex](Problem & p, const Vars & a) { p.post(AllDifferentExcept{a, Is(ex)}); }, ok, Gac},
                                      size == 0 ? Plain | NegView : n == 4 ? Plain | AllView | Alias : Full & ~ConstPair);
                                  if (ex == Vals{0})
                                      shapes(s, Base{"all_different_except", "zero", d,
                                                    [](Problem & p, const Vars & a) { p.post(AllDifferentExceptZero{a}); }, ok, Gac}, Plain);
                              });
                          }
                  }});
    fs.push_back({"count", "symmetric_all_different", [](const Sink & s, int size) {
                      for (Val start : {0, 1, -1})
                          for (size_t n = 1; n <= (size == 2 ? 5u : 4u); ++n) {
                              vector<Vals> ds;
                              auto b = start;
                              if (n <= 2) ds = subsets(b - 1, b + 2);
                              else if (n == 3) ds = size == 0 ? vector<Vals>{range(b, b + 2), {b, b + 2}} : vector<Vals>{range(b, b + 2), {b, b + 2}, {b + 1, b + 2}, {b}, range(b - 1, b + 4)};
                              else if (n == 4) ds = vector<Vals>{range(b, b + 3), {b, b + 1}, {b + 2, b + 3}, {b + 1, b + 2, b + 3}};
                              else ds = vector<Vals>{range(b, b + 4), {b, b + 1, b + 3}, {b + 2, b + 4}};
                              if (size == 0 && (n == 1 || n == 4 || start == -1))
                                  continue;
                              if (size == 0 && n == 2) ds = {{b, b + 1}, {b - 1, b, b + 1}};
                              tuples(ds, n, [&](const vector<Vals> & d) {
                                  shapes(s, Base{"symmetric_all_different", to_string(start) + "/" + to_string(n), d,
                                                [start](Problem & p, const Vars & a) { p.post(SymmetricAllDifferent{a, I(start)}); },
                                                [start](const Vals & v) {
                                                    for (size_t i = 0; i < v.size(); ++i) {
                                                        auto t = v[i] - start;
                                                        if (t < 0 || t >= Val(v.size()) || v[t] != Val(i) + start)
                                                            return false;
                                                    }
                                                    return true;
                                                }},
                                      size == 0 ? unsigned(Plain) : n <= 3 ? unsigned(Full) : Plain | AllView, MayReject);
                              });
                          }
                  }});
    fs.push_back({"count", "count", [](const Sink & s, int size) {
                      for (size_t n = 0; n <= 3; ++n) {
                          auto ds = n <= 1 ? vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 1, 2}, {0, 2}} : vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 1, 2}};
                          if (n == 3) ds = {{0, 1}, {1}, {0, 1, 2}};
                          if (size == 0) {
                              if (n != 2 && n != 3) continue;
                              ds = {{0, 1}, {0, 1, 2}};
                          }
                          tuples(ds, n, [&](const vector<Vals> & d) {
                              for (auto & val : size == 0 ? vector<Vals>{{1}, {0, 1}} : vector<Vals>{{0}, {0, 1}, {1, 2, 3}, {-7, 1}, {-2}})
                                  for (auto & how : size == 0 ? vector<Vals>{{0, 1, 2}} : vector<Vals>{range(-1, 4), {0}, {1, 2}, {0, 3}}) {
                                      auto dd = d;
                                      dd.push_back(val);
                                      dd.push_back(how);
                                      shapes(s, Base{"count", to_string(n), dd,
                                                    [n](Problem & p, const Vars & a) { p.post(Count{sub(a, 0, n), a[n], a[n + 1]}); },
                                                    [n](const Vals & v) { return std::count(v.begin(), v.begin() + n, v[n]) == v[n + 1]; }},
                                          size == 0 ? Plain | Alias : n <= 2 ? unsigned(Full) : Plain | Alias | AllView);
                                  }
                          });
                      }
                  }});
    fs.push_back({"count", "among", [](const Sink & s, int size) {
                      for (size_t n = 0; n <= 4; ++n) {
                          auto ds = vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 1, 2}};
                          if (n == 4) ds = {{0, 1}, {1, 2}};
                          if (size == 0) {
                              if (n != 2 && n != 3) continue;
                              ds = {{0, 1}, {0, 1, 2}};
                          }
                          tuples(ds, n, [&](const vector<Vals> & d) {
                              for (auto & vals : size == 0 ? vector<Vals>{{1}, {0, 2}} : vector<Vals>{{}, {1}, {0, 2}, {1, 1, 2}, {-4, -1, 0, 1, 2}})
                                  for (auto & how : size == 0 ? vector<Vals>{{0, 1, 2}} : vector<Vals>{range(-1, 5), {0}, {1, 2}, {0, 3}}) {
                                      auto dd = d;
                                      dd.push_back(how);
                                      shapes(s, Base{"among", str(vals) + to_string(n), dd,
                                                    [n, vals](Problem & p, const Vars & a) { p.post(Among{sub(a, 0, n), Is(vals), a[n]}); },
                                                    [n, vals](const Vals & v) {
                                                        return std::count_if(v.begin(), v.begin() + n, [&](Val x) { return std::ranges::find(vals, x) != vals.end(); }) == v[n];
                                                    }},
                                          size == 0 ? Plain | Alias : n <= 2 ? unsigned(Full) : Plain | Alias | AllView);
                                  }
                          });
                      }
                  }});
    fs.push_back({"count", "at_most_one", [](const Sink & s, int size) {
                      for (int smart = 0; smart < 2; ++smart)
                          for (size_t n = 0; n <= 4; ++n) {
                              auto ds = vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 1, 2}};
                              if (n == 4) ds = {{0, 1}, {1, 2}, {1}};
                              if (size == 0) {
                                  if (n != 3) continue;
                                  ds = {{0, 1}, {1, 2}};
                              }
                              tuples(ds, n, [&](const vector<Vals> & d) {
                                  for (auto & val : size == 0 ? vector<Vals>{{0, 1}} : vector<Vals>{{1}, {0, 1}, {1, 2, 3}, {-7, 2}}) {
                                      auto dd = d;
                                      dd.push_back(val);
                                      shapes(s, Base{"at_most_one", (smart ? "smart" : "") + to_string(n), dd,
                                                    [n, smart](Problem & p, const Vars & a) {
                                                        if (smart) p.post(AtMostOneSmartTable{sub(a, 0, n), a[n]});
                                                        else p.post(AtMostOne{sub(a, 0, n), a[n]});
                                                    },
                                                    [n](const Vals & v) { return std::count(v.begin(), v.begin() + n, v[n]) <= 1; }},
                                          size == 0 || smart ? unsigned(Plain) : n <= 2 ? unsigned(Full) : Plain | Alias | AllView);
                                  }
                              });
                          }
                  }});
    fs.push_back({"count", "n_value", [](const Sink & s, int size) {
                      for (size_t n = 0; n <= 4; ++n) {
                          auto ds = vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 1, 2}, {0, 2}};
                          if (n == 4) ds = {{0, 1}, {1, 2}, {0, 3}};
                          if (size == 0) {
                              if (n != 2 && n != 3) continue;
                              ds = {{0, 1}, {1, 2}};
                          }
                          tuples(ds, n, [&](const vector<Vals> & d) {
                              for (auto & how : size == 0 ? vector<Vals>{{1, 2}} : vector<Vals>{range(-1, 5), {0}, {1}, {2, 3}, {1, 3}}) {
                                  auto dd = d;
                                  dd.push_back(how);
                                  shapes(s, Base{"n_value", to_string(n), dd,
                                                [n](Problem & p, const Vars & a) { p.post(NValue{a[n], sub(a, 0, n)}); },
                                                [n](const Vals & v) { return Val(std::set<Val>(v.begin(), v.begin() + n).size()) == v[n]; }},
                                      size == 0 ? Plain | Alias : n <= 2 ? unsigned(Full) : Plain | Alias | AllView);
                              }
                          });
                      }
                  }});
    fs.push_back({"count", "global_cardinality", [](const Sink & s, int size) {
                      for (int cons = 0; cons < 3; ++cons)
                          for (int closed = 0; closed < 2; ++closed)
                              for (size_t n = 0; n <= 4; ++n) {
                                  auto ds = vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 1, 2}};
                                  if (n == 3) ds = {{0, 1}, {1, 2}, {0, 1, 2}};
                                  if (n == 4) ds = {{0, 1}, {1, 2}};
                                  if (size == 0) {
                                      if (n != 3) continue;
                                      ds = {{0, 1}, {1, 2}};
                                  }
                                  tuples(ds, n, [&](const vector<Vals> & d) {
                                      for (auto & vals : size == 0 ? vector<Vals>{{0, 1}} : vector<Vals>{{}, {1}, {0, 2}, {2, 1, 0}, {5, 1}})
                                          for (auto & how : size == 0 ? vector<vector<Vals>>{{{0, 1, 2}}} : vector<vector<Vals>>{{range(-1, 4)}, {{0}, {1, 2}}, {{1, 2}, {0, 3}}, {{2}, {0, 1}}}) {
                                              if (n == 4 && size == 1 && vals.size() == 3) continue;
                                              auto dd = d;
                                              for (size_t i = 0; i < vals.size(); ++i)
                                                  dd.push_back(how[i % how.size()]);
                                              shapes(s, Base{"global_cardinality", (cons == 0 ? "def" : cons == 1 ? "gac" : "bc") + string(closed ? "c" : "o") + str(vals) + to_string(n), dd,
                                                            [n, vals, cons, closed](Problem & p, const Vars & a) {
                                                                GlobalCardinality c{sub(a, 0, n), Is(vals), sub(a, n, a.size() - n)};
                                                                if (cons == 1) c.with_consistency(consistency::GAC{});
                                                                if (cons == 2) c.with_consistency(consistency::BC{});
                                                                if (closed) c.with_closed();
                                                                p.post(c);
                                                            },
                                                            [n, vals, closed](const Vals & v) {
                                                                for (size_t i = 0; i < vals.size(); ++i)
                                                                    if (std::count(v.begin(), v.begin() + n, vals[i]) != v[n + i])
                                                                        return false;
                                                                if (closed)
                                                                    for (size_t i = 0; i < n; ++i)
                                                                        if (std::ranges::find(vals, v[i]) == vals.end())
                                                                            return false;
                                                                return true;
                                                            }},
                                                  size == 0 ? unsigned(Plain) : n <= 2 ? (Plain | Alias | AllView | Const | NegView) : n == 3 ? Plain | Alias | AllView : unsigned(Plain));
                                          }
                                  });
                              }
                  }});
    // A repeated cover value: each of its counts is the number of occurrences.
    fs.push_back({"count", "global_cardinality_repeat", [](const Sink & s, int size) {
                      if (size == 0) return;
                      for (int cons = 0; cons < 2; ++cons)
                          shapes(s, Base{"global_cardinality_repeat", cons ? "gac" : "bc", {{0, 1}, {0, 1}, {0, 1, 2}, {0, 1, 2}},
                                        [cons](Problem & p, const Vars & a) {
                                            GlobalCardinality c{sub(a, 0, 2), Is({1, 1}), sub(a, 2, 2)};
                                            if (cons) c.with_consistency(consistency::GAC{});
                                            p.post(c);
                                        },
                                        [](const Vals & v) { auto n = std::count(v.begin(), v.begin() + 2, 1); return v[2] == n && v[3] == n; }, MayReject}, Plain);
                  }});
    fs.push_back({"count", "inverse", [](const Sink & s, int size) {
                      for (auto [xs, ys] : vector<std::pair<Val, Val>>{{0, 0}, {1, 1}, {0, 2}, {-1, 1}})
                          for (size_t n = 1; n <= 3; ++n) {
                              auto b = ys;
                              auto dx = n == 1 ? subsets(b - 1, b + 1) : n == 2 ? vector<Vals>{{b, b + 1}, {b}, {b + 1}, {b - 1, b, b + 2}, range(b - 1, b + 2)} : vector<Vals>{range(b, b + 2), {b, b + 2}, {b + 1, b + 2, b + 3}};
                              b = xs;
                              auto dy = n == 1 ? subsets(b - 1, b + 1) : n == 2 ? vector<Vals>{{b, b + 1}, {b}, {b + 1}, {b - 1, b, b + 2}, range(b - 1, b + 2)} : vector<Vals>{range(b, b + 2), {b, b + 2}, {b, b + 1, b + 3}};
                              if (size == 0) {
                                  if (n != 2 && n != 3) continue;
                                  if (ys == 2 || xs == -1) continue;
                                  dx.resize(n == 3 ? 2 : 1);
                                  dy.resize(1);
                              }
                              tuples(dx, n, [&](const vector<Vals> & d1) {
                                  tuples(dy, n, [&](const vector<Vals> & d2) {
                                      auto dd = d1;
                                      dd.insert(dd.end(), d2.begin(), d2.end());
                                      shapes(s, Base{"inverse", to_string(xs) + "," + to_string(ys) + "/" + to_string(n), dd,
                                                    [n, xs, ys](Problem & p, const Vars & a) { p.post(Inverse{sub(a, 0, n), sub(a, n, n), I(xs), I(ys)}); },
                                                    [n, xs, ys](const Vals & v) {
                                                        // every x[i] is some index of y and every y[j] some index of x, each other's inverse
                                                        for (size_t i = 0; i < n; ++i) {
                                                            auto j = v[i] - ys;
                                                            if (j < 0 || j >= Val(n) || v[n + j] != Val(i) + xs)
                                                                return false;
                                                            auto k = v[n + i] - xs;
                                                            if (k < 0 || k >= Val(n) || v[k] != Val(i) + ys)
                                                                return false;
                                                        }
                                                        return true;
                                                    }},
                                          size == 0 ? unsigned(Plain) : n <= 2 ? Plain | NegView | AllView | Const | Alias : Plain | AllView | Alias, MayReject);
                                  });
                              });
                          }
                  }});
    fs.push_back({"count", "sort", [](const Sink & s, int size) {
                      for (size_t n = 0; n <= 3; ++n) {
                          auto ds = n <= 2 ? vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 1, 2}, {0, 2}} : vector<Vals>{{0, 1}, {0, 1, 2}, {1, 3}};
                          if (size == 0) {
                              if (n < 2) continue;
                              ds = n == 2 ? vector<Vals>{{0, 1}, {0, 1, 2}} : vector<Vals>{{0, 1, 2}};
                          }
                          tuples(ds, 2 * n, [&](const vector<Vals> & d) {
                              shapes(s, Base{"sort", to_string(n), d, [n](Problem & p, const Vars & a) { p.post(Sort{sub(a, 0, n), sub(a, n, n)}); },
                                            [n](const Vals & v) {
                                                auto x = sub(v, 0, n);
                                                std::sort(x.begin(), x.end());
                                                return x == sub(v, n, n);
                                            }},
                                  size == 0 ? unsigned(Plain) : n <= 2 ? unsigned(Full) : Plain | Alias | AllView);
                          });
                      }
                  }});
    fs.push_back({"count", "arg_sort", [](const Sink & s, int size) {
                      for (Val off : {0, 1, -1})
                          for (size_t n = 0; n <= 3; ++n) {
                              auto ds = n <= 2 ? vector<Vals>{{0, 1}, {-1, 2}, {1}, {0, 1, 2}, {0, 2}} : vector<Vals>{{0, 1}, {0, 1, 2}, {1, 3}};
                              auto dp = n <= 2 ? vector<Vals>{range(off - 1, off + 2), {off}, {off + 1}, {off, off + 1}} : vector<Vals>{range(off, off + 2), {off, off + 2}, range(off - 1, off + 3)};
                              if (size == 0) {
                                  if (n < 2 || off == -1) continue;
                                  ds = {{0, 1}};
                                  dp = {range(off, off + Val(n) - 1)};
                              }
                              tuples(ds, n, [&](const vector<Vals> & d1) {
                                  tuples(dp, n, [&](const vector<Vals> & d2) {
                                      auto dd = d1;
                                      dd.insert(dd.end(), d2.begin(), d2.end());
                                      shapes(s, Base{"arg_sort", to_string(off) + "/" + to_string(n), dd,
                                                    [n, off](Problem & p, const Vars & a) { p.post(ArgSort{sub(a, 0, n), sub(a, n, n), I(off)}); },
                                                    [n, off](const Vals & v) {
                                                        std::vector<size_t> ix(n);
                                                        for (size_t i = 0; i < n; ++i) ix[i] = i;
                                                        std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return v[a] < v[b]; });
                                                        for (size_t i = 0; i < n; ++i)
                                                            if (v[n + i] != Val(ix[i]) + off) return false;
                                                        return true;
                                                    }},
                                          size == 0 ? unsigned(Plain) : n <= 2 ? Full & ~ConstPair : Plain | Alias | AllView);
                                  });
                              });
                          }
                  }});
    fs.push_back({"count", "circuit", [](const Sink & s, int size) {
                      for (size_t n = 1; n <= 4; ++n) {
                          auto N = Val(n);
                          vector<Vals> ds = n <= 2 ? subsets(-1, 2) : n == 3 ? subsets(0, 3) : vector<Vals>{range(0, 3), {0, 1}, {2, 3}, {1, 2, 3}, {0, 2}, {1, 3}};
                          if (size == 0) {
                              if (n < 3) continue;
                              ds = n == 3 ? vector<Vals>{{0, 1, 2}, {0, 2}} : vector<Vals>{range(0, 3), {0, 2, 3}};
                          }
                          (void) N;
                          tuples(ds, n, [&](const vector<Vals> & d) {
                              for (int alg = 0; alg < 5; ++alg) {
                                  if (n == 4 && size == 1 && alg == 4) continue;
                                  shapes(s, Base{"circuit", (alg == 0 ? "def" : alg == 1 ? "prevent" : alg == 2 ? "gac" : alg == 3 ? "bare" : "dom") + to_string(n), d,
                                                [alg](Problem & p, const Vars & a) {
                                                    Circuit c{a};
                                                    switch (alg) {
                                                    case 1: c.with_algorithm(circuit::Prevent{}); break;
                                                    case 2: c.with_gac_all_different(true); break;
                                                    case 3: c.with_prune_root(false).with_prune_skip(false).with_fix_req(false).with_prune_within(false).with_short_reasons(true); break;
                                                    case 4: c.with_prove_using_dominance(true).with_enable_comments(true).with_prove_am1_by_contradiction(true).with_gac_all_different(true); break;
                                                    default: break;
                                                    }
                                                    p.post(c);
                                                },
                                                is_tour},
                                      size == 0 ? unsigned(Plain) : n <= 3 && alg < 2 ? Plain | NegView | PosView | AllView | Const | Alias : Plain | (n == 4 ? 0u : unsigned(AllView)), MayReject);
                              }
                          });
                      }
                      // Larger graphs, so that the component and skip rules have something to find.
                      if (size >= 1) {
                          vector<Vals> rows = {{1, 2}, {0, 2, 3}, {0, 1, 3, 4}, {1, 2, 4}, {0, 2, 3}};
                          vector<Vals> alt = {{1, 2, 3, 4}, {2, 4}, {0, 3}, {0, 1, 4}, {1, 3}};
                          for (int m = 0; m < 32; ++m)
                              for (int alg = 0; alg < 2; ++alg) {
                                  vector<Vals> d;
                                  for (int i = 0; i < 5; ++i)
                                      d.push_back((m >> i) & 1 ? rows[i] : alt[i]);
                                  shapes(s, Base{"circuit", string(alg ? "prevent" : "def") + "5", d,
                                                [alg](Problem & p, const Vars & a) {
                                                    Circuit c{a};
                                                    if (alg) c.with_algorithm(circuit::Prevent{});
                                                    p.post(c);
                                                },
                                                is_tour, Heavy}, Plain | AllView | NegView);
                              }
                          // every 6-node graph obtained by removing up to two arcs from the complete one
                          vector<std::pair<int, int>> arcs;
                          for (int i = 0; i < 6; ++i)
                              for (int j = 0; j < 6; ++j)
                                  if (i != j) arcs.push_back({i, j});
                          // and every 5-node digraph with out-degree two (6^5 of them)
                          vector<vector<Vals>> outs(5);
                          for (int i = 0; i < 5; ++i)
                              for (int a = 0; a < 5; ++a)
                                  for (int b = a + 1; b < 5; ++b)
                                      if (a != i && b != i) outs[i].push_back({a, b});
                          std::vector<size_t> ix(5, 0);
                          long k = 0;
                          while (true) {
                              if (size == 2 || k++ % 4 == 0) {
                                  vector<Vals> d;
                                  for (int i = 0; i < 5; ++i) d.push_back(outs[i][ix[i]]);
                                  shapes(s, Base{"circuit", "def5", d, [](Problem & p, const Vars & a) { p.post(Circuit{a}); }, is_tour, Heavy}, Plain);
                              }
                              size_t i = 0;
                              while (i < 5 && ++ix[i] == outs[i].size()) ix[i++] = 0;
                              if (i == 5) break;
                          }
                      }
                  }});
}
