// Scheduling and packing constraints.
#include "core.hh"

#include <algorithm>
#include <set>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

namespace
{
    auto cumul_rules(int k) -> CumulativeRules
    {
        CumulativeRules r;
        switch (k) {
        case 0: break;
        case 1: r.overload = r.profile_overload = false; break;
        case 2: r.profile_overload = false; break;
        case 3: r.overload = r.profile_overload = false; r.edge_finding = true; break;
        case 4: r.elastic_overload = true; break;
        case 5: r.elastic_overload = r.knapsack_overload = true; break;
        case 6: r.edge_finding = true; break;
        case 7: r.edge_finding = r.time_table_edge_finding = true; break;
        case 8: r.edge_finding = r.energetic_edge_finding = true; break;
        case 9: r.not_first_not_last = true; break;
        case 10: r.not_first_not_last_published = true; break;
        case 11: r.elastic_overload = r.knapsack_overload = r.edge_finding = r.time_table_edge_finding = r.energetic_edge_finding = r.not_first_not_last = true; break;
        case 12: r.edge_finding = r.not_first_not_last_published = true; break;
        case 13: r.profile_overload = false; r.elastic_overload = r.knapsack_overload = true; break;
        // selections without time-tabling, which upstream documents as harmless but are not: see known_findings.txt
        case 20: r.time_table = r.overload = r.profile_overload = false; break;
        case 21: r.time_table = r.profile_overload = false; break;
        case 22: r.time_table = false; break;
        case 23: r.time_table = false; r.edge_finding = r.not_first_not_last_published = true; break;
        }
        return r;
    }
    constexpr int n_cumul_rules = 14;
    auto disj_rules(int k) -> DisjunctiveRules
    {
        DisjunctiveRules r;
        switch (k) {
        case 0: break;
        case 1: r.time_table = r.detectable_precedences = false; break;
        case 2: r.time_table = false; break;
        case 3: r.detectable_precedences = false; break;
        case 4: r.detectable_precedences_set = true; break;
        case 5: r.overload = true; break;
        case 6: r.overload = r.edge_finding = true; break;
        case 7: r.edge_finding = true; r.edge_finding_ub = false; break;
        case 8: r.not_first_not_last = true; break;
        case 9: r.not_first_not_last = true; r.not_last = false; break;
        case 10: r.not_first_not_last_published = true; break;
        case 11: r.detectable_precedences_set = r.overload = r.edge_finding = r.not_first_not_last = true; break;
        case 12: r.time_table = r.detectable_precedences = false; r.detectable_precedences_set = r.overload = r.edge_finding = r.not_first_not_last_published = true; r.overload_certificate = DisjunctiveOverloadCertificate::SortingNetwork; break;
        case 13: r.overload = true; r.overload_certificate = DisjunctiveOverloadCertificate::SortingNetwork; r.overload_vocabulary_at = innards::ProofLevel::Temporary; r.overload_cache_bridge = false; break;
        case 14: r.overload = true; r.overload_certificate = DisjunctiveOverloadCertificate::TimeIndexed; r.overload_max_window = 3; break;
        case 15: r.edge_finding = true; r.edge_finding_lb = false; r.not_first_not_last = true; r.not_first = false; break;
        }
        return r;
    }
    constexpr int n_disj_rules = 16;

    // Arguments: starts, lengths, heights, presences (if optional), capacity.
    auto cumul_ok(const Vals & v, size_t n, bool optional) -> bool
    {
        auto cap = v[3 * n + (optional ? n : 0)];
        Val lo = 1000, hi = -1000;
        for (size_t i = 0; i < n; ++i)
            lo = std::min(lo, v[i]), hi = std::max(hi, v[i] + v[n + i]);
        for (Val t = lo; t < hi; ++t) {
            Val load = 0;
            for (size_t i = 0; i < n; ++i)
                if ((! optional || v[3 * n + i] == 1) && v[i] <= t && t < v[i] + v[n + i])
                    load += v[2 * n + i];
            if (load > cap)
                return false;
        }
        return true;
    }
    struct Task
    {
        Vals s, l, h;
        Vals p = {1};
    };
    auto all_const(const vector<Task> & ts) -> bool
    {
        return std::ranges::all_of(ts, [](auto & t) { return t.l.size() == 1 && t.h.size() == 1; });
    }
    // Slots with a single value become constants unless keep_vars.
    auto emit_cumul(const Sink & s, const vector<Task> & ts, const Vals & cap, int rules, bool optional, bool keep_vars, unsigned shape, unsigned flags = 0) -> void
    {
        auto n = ts.size();
        vector<Vals> all;
        for (auto & t : ts) all.push_back(t.s);
        for (auto & t : ts) all.push_back(t.l);
        for (auto & t : ts) all.push_back(t.h);
        if (optional)
            for (auto & t : ts) all.push_back(t.p);
        all.push_back(cap);
        vector<Vals> args;
        vector<int> slot(all.size(), -1);
        for (size_t i = 0; i < all.size(); ++i)
            if (i < n || all[i].size() > 1 || keep_vars) {
                slot[i] = args.size();
                args.push_back(all[i]);
            }
        bool ctor = ! optional && all_const(ts) && cap.size() == 1 && ! keep_vars;
        string id = "r" + to_string(rules) + (optional ? "o" : "") + (keep_vars ? "v" : "");
        for (auto & t : ts)
            id += "(" + str(t.l) + str(t.h) + (optional ? str(t.p) : "") + ")";
        id += str(cap);
        shapes(s, Base{"cumulative", id, args,
                      [=](Problem & p, const Vars & a) {
                          auto get = [&](size_t i) -> IntegerVariableID { return slot[i] >= 0 ? a[slot[i]] : IntegerVariableID{ConstantIntegerVariableID{I(all[i][0])}}; };
                          Vars st, ln, ht, pr;
                          for (size_t i = 0; i < n; ++i) {
                              st.push_back(get(i));
                              ln.push_back(get(n + i));
                              ht.push_back(get(2 * n + i));
                              if (optional) pr.push_back(get(3 * n + i));
                          }
                          auto c = get(all.size() - 1);
                          if (ctor) {
                              vector<Integer> l, h;
                              for (size_t i = 0; i < n; ++i)
                                  l.push_back(I(all[n + i][0])), h.push_back(I(all[2 * n + i][0]));
                              p.post(Cumulative{st, l, h, I(all.back()[0])}.with_rules(cumul_rules(rules)));
                          }
                          else if (optional)
                              p.post(Cumulative{st, ln, ht, pr, c}.with_rules(cumul_rules(rules)));
                          else
                              p.post(Cumulative{st, ln, ht, c}.with_rules(cumul_rules(rules)));
                      },
                      [=](const Vals & v) {
                          Vals x;
                          for (size_t i = 0; i < all.size(); ++i)
                              x.push_back(slot[i] >= 0 ? v[slot[i]] : all[i][0]);
                          return cumul_ok(x, n, optional);
                      },
                      flags},
            shape, MayReject);
    }
    auto disj_ok(const Vals & v, size_t n, bool optional, bool strict) -> bool
    {
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j) {
                if (optional && (v[2 * n + i] == 0 || v[2 * n + j] == 0))
                    continue;
                if (! strict && (v[n + i] == 0 || v[n + j] == 0))
                    continue;
                if (v[i] + v[n + i] > v[j] && v[j] + v[n + j] > v[i])
                    return false;
            }
        return true;
    }
    auto emit_disj(const Sink & s, const vector<Task> & ts, int rules, bool strict, bool optional, bool keep_vars, unsigned shape, unsigned flags = 0) -> void
    {
        auto n = ts.size();
        vector<Vals> all;
        for (auto & t : ts) all.push_back(t.s);
        for (auto & t : ts) all.push_back(t.l);
        if (optional)
            for (auto & t : ts) all.push_back(t.p);
        vector<Vals> args;
        vector<int> slot(all.size(), -1);
        for (size_t i = 0; i < all.size(); ++i)
            if (i < n || all[i].size() > 1 || keep_vars) {
                slot[i] = args.size();
                args.push_back(all[i]);
            }
        string id = "r" + to_string(rules) + (strict ? "s" : "n") + (optional ? "o" : "") + (keep_vars ? "v" : "");
        for (auto & t : ts)
            id += "(" + str(t.l) + (optional ? str(t.p) : "") + ")";
        shapes(s, Base{"disjunctive", id, args,
                      [=](Problem & p, const Vars & a) {
                          auto get = [&](size_t i) -> IntegerVariableID { return slot[i] >= 0 ? a[slot[i]] : IntegerVariableID{ConstantIntegerVariableID{I(all[i][0])}}; };
                          Vars st, ln, pr;
                          for (size_t i = 0; i < n; ++i) {
                              st.push_back(get(i));
                              ln.push_back(get(n + i));
                              if (optional) pr.push_back(get(2 * n + i));
                          }
                          if (optional) p.post(Disjunctive{st, ln, pr}.with_strict(strict).with_rules(disj_rules(rules)));
                          else p.post(Disjunctive{st, ln}.with_strict(strict).with_rules(disj_rules(rules)));
                      },
                      [=](const Vals & v) {
                          Vals x;
                          for (size_t i = 0; i < all.size(); ++i)
                              x.push_back(slot[i] >= 0 ? v[slot[i]] : all[i][0]);
                          return disj_ok(x, n, optional, strict);
                      },
                      flags},
            shape, MayReject);
    }
    // Every multiset of n indices below k.
    template <typename F_>
    auto multisets(size_t k, size_t n, F_ && f) -> void
    {
        vector<size_t> ix(n, 0);
        std::function<void(size_t, size_t)> go = [&](size_t at, size_t from) {
            if (at == n) {
                f(static_cast<const vector<size_t> &>(ix));
                return;
            }
            for (size_t x = from; x < k; ++x) {
                ix[at] = x;
                go(at + 1, x);
            }
        };
        go(0, 0);
    }
}

auto vc::add_sched(vector<Family> & fs) -> void
{
    fs.push_back({"sched", "cumulative", [](const Sink & s, int size) {
                      if (size == 0) {
                          for (int r = 0; r < n_cumul_rules; ++r) {
                              emit_cumul(s, {{range(0, 2), {2}, {1}}, {range(0, 3), {1}, {2}}, {range(1, 3), {2}, {1}}}, {2}, r, false, false, Plain);
                              emit_cumul(s, {{range(0, 2), {2}, {2}}, {range(0, 2), {2}, {2}}, {range(0, 3), {1}, {1}}}, {3}, r, false, false, Plain);
                          }
                          for (int r : {0, 5, 11}) {
                              emit_cumul(s, {{range(0, 2), {1, 2}, {1}}, {range(0, 2), {2}, {1, 2}}}, {1, 2}, r, false, false, Plain);
                              emit_cumul(s, {{range(0, 1), {2}, {2}, {0, 1}}, {range(0, 2), {2}, {1}, {0, 1}}, {range(0, 1), {1}, {1}}}, {2}, r, true, false, Plain);
                          }
                          return;
                      }
                      // every pair of tasks over a palette of durations, demands, capacities
                      vector<Task> pal;
                      for (auto & st : vector<Vals>{range(0, 2), {0, 2, 3}, {1}, range(-1, 1)})
                          for (auto & l : vector<Vals>{{0}, {1}, {2}, {1, 2}, {0, 3}})
                              for (auto & h : vector<Vals>{{0}, {1}, {2}, {1, 2}})
                                  pal.push_back({st, l, h});
                      int k = 0;
                      multisets(pal.size(), 2, [&](auto & ix) {
                          for (auto & cap : vector<Vals>{{0}, {1}, {2}, {1, 2}, {0, 3}}) {
                              ++k;
                              auto shape = k % 11 == 0 ? unsigned(Std) : k % 7 == 0 ? Plain | Alias : unsigned(Plain);
                              emit_cumul(s, {pal[ix[0]], pal[ix[1]]}, cap, size == 2 ? k % n_cumul_rules : (k % 5 == 0 ? 11 : k % 5 == 1 ? 5 : 0), false, k % 4 == 0, shape);
                          }
                      });
                      // every multiset of three or four constant tasks, under every rule selection
                      vector<Task> con;
                      for (auto & st : vector<Vals>{range(0, 3), range(0, 1), range(2, 4)})
                          for (Val l : {1, 2, 3})
                              for (Val h : {1, 2})
                                  con.push_back({st, {l}, {h}});
                      k = 0;
                      multisets(con.size(), 3, [&](auto & ix) {
                          for (Val cap : {1, 2, 3})
                              for (int r = 0; r < n_cumul_rules; ++r) {
                                  ++k;
                                  if (size < 2 && (cap == 1 ? r % 3 != k / 14 % 3 : r >= 4 && (k / 14 + r) % 3))
                                      continue;
                                  emit_cumul(s, {con[ix[0]], con[ix[1]], con[ix[2]]}, {cap}, r, false, false, k % 97 == 0 ? Plain | AllView | NegView : unsigned(Plain));
                              }
                      });
                      vector<Task> con4;
                      for (auto & st : vector<Vals>{range(0, 4), range(1, 3), {0, 2}})
                          for (auto & [l, h] : vector<std::pair<Val, Val>>{{1, 2}, {2, 1}, {3, 1}, {2, 2}, {1, 3}})
                              con4.push_back({st, {l}, {h}});
                      k = 0;
                      multisets(con4.size(), 4, [&](auto & ix) {
                          for (Val cap : {2, 3, 4}) {
                              ++k;
                              if (size < 2 && k % 3)
                                  continue;
                              int r = k / 3 % n_cumul_rules;
                              emit_cumul(s, {con4[ix[0]], con4[ix[1]], con4[ix[2]], con4[ix[3]]}, {cap}, r, false, false, Plain, Heavy);
                          }
                      });
                      // optional tasks
                      vector<Task> opt;
                      for (auto & st : vector<Vals>{range(0, 2), {1}, {0, 2}})
                          for (auto & [l, h] : vector<std::pair<Vals, Vals>>{{{1}, {1}}, {{2}, {1}}, {{2}, {2}}, {{1, 2}, {1}}, {{2}, {0, 2}}})
                              for (auto & p : vector<Vals>{{0, 1}, {1}, {0}})
                                  if (p.size() == 2 || st.size() == 3)
                                      opt.push_back({st, l, h, p});
                      k = 0;
                      for (size_t n : {2, 3})
                          multisets(opt.size(), n, [&](auto & ix) {
                              if (n == 3 && size < 2 && (ix[0] * 7 + ix[1] * 3 + ix[2]) % 9)
                                  return;
                              for (auto & cap : vector<Vals>{{1}, {2}, {1, 3}}) {
                                  ++k;
                                  vector<Task> ts;
                                  for (auto i : ix) ts.push_back(opt[i]);
                                  emit_cumul(s, ts, cap, k % n_cumul_rules, true, k % 3 == 0, k % 13 == 0 && n == 2 ? unsigned(Std | Alias) : unsigned(Plain));
                              }
                          });
                      // variable lengths/heights/capacity across three tasks, every rule selection
                      vector<Task> var = {{range(0, 2), {1, 2}, {1}}, {range(0, 2), {2}, {1, 2}}, {{1, 3}, {1, 2}, {0, 1}}, {range(1, 2), {2}, {2}}};
                      multisets(var.size(), 3, [&](auto & ix) {
                          for (auto & cap : vector<Vals>{{2}, {1, 2}, {2, 3}})
                              for (int r = 0; r < n_cumul_rules; ++r)
                                  emit_cumul(s, {var[ix[0]], var[ix[1]], var[ix[2]]}, cap, r, false, false, Plain);
                      });
                  }});

    fs.push_back({"sched", "cumulative_no_time_table", [](const Sink & s, int size) {
                      if (size == 0)
                          return;
                      for (int r = 20; r < 24; ++r)
                          emit_cumul(s, {{range(0, 2), {2}, {1}}, {range(0, 2), {2}, {1}}}, {1}, r, false, false, Plain);
                  }});

    fs.push_back({"sched", "disjunctive", [](const Sink & s, int size) {
                      if (size == 0) {
                          for (int r = 0; r < n_disj_rules; ++r) {
                              emit_disj(s, {{range(0, 3), {2}, {}}, {range(0, 3), {1}, {}}, {range(1, 4), {2}, {}}}, r, true, false, false, Plain);
                              emit_disj(s, {{range(0, 2), {2}, {}}, {range(0, 2), {2}, {}}, {range(0, 3), {1}, {}}}, r, false, false, false, Plain);
                          }
                          for (int r : {0, 11, 12}) {
                              emit_disj(s, {{range(0, 2), {1, 2}, {}}, {range(0, 2), {0, 2}, {}}}, r, true, false, false, Plain);
                              emit_disj(s, {{range(0, 1), {2}, {}, {0, 1}}, {range(0, 2), {2}, {}, {0, 1}}, {range(0, 1), {1}, {}}}, r, true, true, false, Plain);
                          }
                          return;
                      }
                      vector<Task> pal;
                      for (auto & st : vector<Vals>{range(0, 2), {0, 2, 3}, {1}, range(-2, 1)})
                          for (auto & l : vector<Vals>{{0}, {1}, {2}, {1, 2}, {0, 3}, {0, 1, 2}})
                              pal.push_back({st, l, {}});
                      int k = 0;
                      multisets(pal.size(), 2, [&](auto & ix) {
                          for (bool strict : {true, false})
                              for (int r = 0; r < n_disj_rules; ++r) {
                                  ++k;
                                  emit_disj(s, {pal[ix[0]], pal[ix[1]]}, r, strict, false, k % 4 == 0, k % 9 == 0 ? Full & ~ConstPair : unsigned(Plain));
                              }
                      });
                      vector<Task> con;
                      for (auto & st : vector<Vals>{range(0, 4), range(0, 1), range(2, 4), {1, 4}})
                          for (Val l : {0, 1, 2, 3})
                              con.push_back({st, {l}, {}});
                      k = 0;
                      multisets(con.size(), 3, [&](auto & ix) {
                          for (int r = 0; r < n_disj_rules; ++r) {
                              ++k;
                              emit_disj(s, {con[ix[0]], con[ix[1]], con[ix[2]]}, r, k % 3 != 0, false, false, k % 29 == 0 ? Plain | AllView | NegView : unsigned(Plain));
                          }
                      });
                      vector<Task> con4;
                      for (auto & st : vector<Vals>{range(0, 6), range(1, 4), {0, 3, 5}, range(3, 5)})
                          for (Val l : {1, 2, 3})
                              con4.push_back({st, {l}, {}});
                      k = 0;
                      multisets(con4.size(), 4, [&](auto & ix) {
                          for (int r = 0; r < n_disj_rules; ++r) {
                              ++k;
                              if (size < 2 && (k + k / n_disj_rules) % 4)
                                  continue;
                              emit_disj(s, {con4[ix[0]], con4[ix[1]], con4[ix[2]], con4[ix[3]]}, r, true, false, false, Plain, Heavy);
                          }
                      });
                      vector<Task> opt;
                      for (auto & st : vector<Vals>{range(0, 2), {1}, {0, 2}})
                          for (auto & l : vector<Vals>{{1}, {2}, {0}, {1, 2}})
                              for (auto & p : vector<Vals>{{0, 1}, {1}, {0}})
                                  if (p.size() == 2 || st.size() == 3)
                                      opt.push_back({st, l, {}, p});
                      k = 0;
                      for (size_t n : {2, 3})
                          multisets(opt.size(), n, [&](auto & ix) {
                              for (bool strict : {true, false}) {
                                  ++k;
                                  vector<Task> ts;
                                  for (auto i : ix) ts.push_back(opt[i]);
                                  emit_disj(s, ts, (k + k / 16) % n_disj_rules, strict, true, k % 3 == 0, k % 13 == 0 && n == 2 ? unsigned(Std | Alias) : unsigned(Plain));
                              }
                          });
                      vector<Task> var = {{range(0, 2), {1, 2}, {}}, {range(0, 3), {0, 2}, {}}, {{1, 3}, {1, 2}, {}}, {range(1, 2), {2}, {}}};
                      multisets(var.size(), 3, [&](auto & ix) {
                          for (bool strict : {true, false})
                              for (int r = 0; r < n_disj_rules; ++r)
                                  emit_disj(s, {var[ix[0]], var[ix[1]], var[ix[2]]}, r, strict, false, false, Plain);
                      });
                  }});

    fs.push_back({"sched", "disjunctive_2d", [](const Sink & s, int size) {
                      struct Rect { Vals x, y, w, h; };
                      auto emit = [&](const vector<Rect> & rs, bool strict, bool keep_vars, unsigned shape) {
                          auto n = rs.size();
                          vector<Vals> all;
                          for (auto & r : rs) all.push_back(r.x);
                          for (auto & r : rs) all.push_back(r.y);
                          for (auto & r : rs) all.push_back(r.w);
                          for (auto & r : rs) all.push_back(r.h);
                          vector<Vals> args;
                          vector<int> slot(all.size(), -1);
                          bool constant = true;
                          for (size_t i = 0; i < all.size(); ++i)
                              if (i < 2 * n || all[i].size() > 1 || keep_vars) {
                                  slot[i] = args.size();
                                  args.push_back(all[i]);
                                  if (i >= 2 * n) constant = false;
                              }
                          string id = strict ? "s" : "n";
                          for (auto & r : rs) id += str(r.w) + str(r.h);
                          shapes(s, Base{"disjunctive_2d", id, args,
                                        [=](Problem & p, const Vars & a) {
                                            auto get = [&](size_t i) -> IntegerVariableID { return slot[i] >= 0 ? a[slot[i]] : IntegerVariableID{ConstantIntegerVariableID{I(all[i][0])}}; };
                                            vector<Vars> g(4);
                                            for (size_t q = 0; q < 4; ++q)
                                                for (size_t i = 0; i < n; ++i)
                                                    g[q].push_back(get(q * n + i));
                                            if (constant) {
                                                vector<Integer> w, h;
                                                for (size_t i = 0; i < n; ++i)
                                                    w.push_back(I(all[2 * n + i][0])), h.push_back(I(all[3 * n + i][0]));
                                                p.post(Disjunctive2D{g[0], g[1], w, h}.with_strict(strict));
                                            }
                                            else p.post(Disjunctive2D{g[0], g[1], g[2], g[3]}.with_strict(strict));
                                        },
                                        [=](const Vals & v) {
                                            auto at = [&](size_t q, size_t i) { return slot[q * n + i] >= 0 ? v[slot[q * n + i]] : all[q * n + i][0]; };
                                            for (size_t i = 0; i < n; ++i)
                                                for (size_t j = i + 1; j < n; ++j) {
                                                    if (! strict && (at(2, i) == 0 || at(3, i) == 0 || at(2, j) == 0 || at(3, j) == 0))
                                                        continue;
                                                    if (! (at(0, i) + at(2, i) <= at(0, j) || at(0, j) + at(2, j) <= at(0, i) || at(1, i) + at(3, i) <= at(1, j) || at(1, j) + at(3, j) <= at(1, i)))
                                                        return false;
                                                }
                                            return true;
                                        }},
                              shape, MayReject);
                      };
                      if (size == 0) {
                          emit({{{0, 1, 2}, {0, 1}, {2}, {1}}, {{0, 1}, {0, 1, 2}, {1}, {2}}}, true, false, Plain | NegView);
                          emit({{{0, 1}, {0, 1}, {0, 2}, {1}}, {{0, 1}, {0, 1}, {1}, {0, 1}}}, false, false, Plain);
                          emit({{{0, 1}, {0, 1}, {1}, {1}}, {{0, 1}, {0, 1}, {1}, {1}}, {{0, 1}, {0}, {1}, {2}}}, true, false, Plain);
                          return;
                      }
                      vector<Rect> pal;
                      for (auto & pos : vector<std::pair<Vals, Vals>>{{{0, 1, 2}, {0, 1, 2}}, {{0, 2}, {1}}, {{-1, 0, 1}, {0, 1}}})
                          for (auto & w : vector<Vals>{{0}, {1}, {2}, {0, 2}, {1, 2}})
                              for (auto & h : vector<Vals>{{0}, {1}, {2}, {0, 1}})
                                  pal.push_back({pos.first, pos.second, w, h});
                      int k = 0;
                      multisets(pal.size(), 2, [&](auto & ix) {
                          for (bool strict : {true, false}) {
                              ++k;
                              emit({pal[ix[0]], pal[ix[1]]}, strict, k % 5 == 0, k % 17 == 0 ? unsigned(Std) : k % 7 == 0 ? Plain | Alias : unsigned(Plain));
                          }
                      });
                      vector<Rect> pal3;
                      for (auto & pos : vector<std::pair<Vals, Vals>>{{{0, 1, 2}, {0, 1}}, {{0, 1}, {1}}, {{1}, {0, 2}}})
                          for (auto & [w, h] : vector<std::pair<Vals, Vals>>{{{1}, {1}}, {{2}, {1}}, {{1}, {2}}, {{0}, {1}}, {{1, 2}, {1}}})
                              pal3.push_back({pos.first, pos.second, w, h});
                      multisets(pal3.size(), 3, [&](auto & ix) {
                          for (bool strict : {true, false})
                              emit({pal3[ix[0]], pal3[ix[1]], pal3[ix[2]]}, strict, false, Plain);
                      });
                  }});

    fs.push_back({"sched", "bin_packing", [](const Sink & s, int size) {
                      // mode bit 0: BC, bit 1: upfront proofs
                      auto emit = [&](const Vals & sizes, const vector<Vals> & items, const vector<Vals> & loads, const Vals & caps, int mode, unsigned shape) {
                          auto n = items.size();
                          auto args = items;
                          args.insert(args.end(), loads.begin(), loads.end());
                          shapes(s, Base{"bin_packing", "m" + to_string(mode) + str(sizes) + (loads.empty() ? "cap" + str(caps) : "load"), args,
                                        [=](Problem & p, const Vars & a) {
                                            auto go = [&](BinPacking b) {
                                                if (mode & 1) b.with_consistency(consistency::BC{});
                                                if (mode & 2) b.with_proof_strategy(proof_strategy::Upfront{});
                                                p.post(b);
                                            };
                                            if (loads.empty()) go(BinPacking{a, Is(sizes), Is(caps)});
                                            else go(BinPacking{sub(a, 0, n), Is(sizes), sub(a, n, a.size() - n)});
                                        },
                                        [=](const Vals & v) {
                                            auto bins = loads.empty() ? caps.size() : loads.size();
                                            Vals t(bins, 0);
                                            for (size_t i = 0; i < n; ++i) {
                                                if (v[i] < 0 || v[i] >= Val(bins))
                                                    return false;
                                                t[v[i]] += sizes[i];
                                            }
                                            for (size_t b = 0; b < bins; ++b)
                                                if (loads.empty() ? t[b] > caps[b] : t[b] != v[n + b])
                                                    return false;
                                            return true;
                                        }},
                              shape, MayReject);
                      };
                      if (size == 0) {
                          for (int mode = 0; mode < 4; ++mode) {
                              emit({2, 1, 2}, {{0, 1}, {0, 1}, {0, 1}}, {{1, 2, 3}, {0, 2, 4}}, {}, mode, Plain);
                              emit({2, 1, 2}, {{0, 1}, {0, 1}, {0, 1}}, {}, {3, 2}, mode, Plain);
                              emit({1, 3}, {{0, 1, 2}, {0, 2}}, {{0, 1, 3}, {0, 1}, {3, 4}}, {}, mode, Plain);
                          }
                          return;
                      }
                      int k = 0;
                      for (size_t n = 1; n <= 3; ++n)
                          tuples(Vals{0, 1, 2, 3}, n, [&](const Vals & sizes) {
                              tuples(n == 3 ? vector<Vals>{{0, 1}, {1}} : vector<Vals>{{0, 1}, {1}, {0}}, n, [&](const vector<Vals> & items) {
                                  tuples(vector<Vals>{range(0, 4), {2}, {0, 3}, {1, 2, 5}}, 2, [&](const vector<Vals> & loads) {
                                      ++k;
                                      emit(sizes, items, loads, {}, k % 4, n == 2 && k % 8 == 0 ? unsigned(Full) : k % 5 == 0 ? Plain | Alias | NegView : unsigned(Plain));
                                  });
                                  tuples(Vals{0, 2, 4}, 2, [&](const Vals & caps) {
                                      ++k;
                                      emit(sizes, items, {}, caps, k % 4, n == 2 ? unsigned(Full) : Plain | AllView);
                                  });
                              });
                          });
                      // three bins
                      for (auto & sizes : vector<Vals>{{1, 2, 3}, {2, 2, 1}, {0, 1, 1}, {3, 3, 2}})
                          tuples(vector<Vals>{{0, 1, 2}, {0, 2}, {1}}, 3, [&](const vector<Vals> & items) {
                              for (int mode = 0; mode < 4; ++mode) {
                                  tuples(vector<Vals>{range(0, 4), {1, 3}}, 3, [&](const vector<Vals> & loads) { emit(sizes, items, loads, {}, mode, Plain); });
                                  tuples(Vals{1, 3}, 3, [&](const Vals & caps) { emit(sizes, items, {}, caps, mode, Plain); });
                              }
                          });
                      // four and five items
                      for (auto & sizes : vector<Vals>{{1, 2, 3, 4}, {2, 2, 3, 1}, {1, 1, 2, 3, 2}})
                          for (int mode = 0; mode < 4; ++mode) {
                              vector<Vals> items(sizes.size(), Vals{0, 1});
                              emit(sizes, items, {range(3, 5), range(0, 9)}, {}, mode, Plain | AllView);
                              emit(sizes, items, {{0, 4, 7}, {2, 4, 5}}, {}, mode, Plain);
                              emit(sizes, items, {}, {5, 5}, mode, Plain);
                              items[0] = {0, 1, 2};
                              items[2] = {1, 2};
                              emit(sizes, items, {{2, 3}, {0, 3, 4}, range(0, 6)}, {}, mode, Plain);
                              emit(sizes, items, {}, {3, 4, 3}, mode, Plain);
                          }
                  }});

    fs.push_back({"count", "min_distance", [](const Sink & s, int size) {
                      auto emit = [&](const vector<Vals> & D, const vector<Vals> & xs, const Vals & z, const std::optional<vector<Vals>> & R, int prop, unsigned shape) {
                          auto n = xs.size();
                          auto args = xs;
                          args.push_back(z);
                          shapes(s, Base{"min_distance", "p" + to_string(prop) + str(D) + (R ? "R" + str(*R) : ""), args,
                                        [=](Problem & p, const Vars & a) {
                                            MinDistance::Matrix m, r;
                                            for (auto & row : D) m.push_back(Is(row));
                                            std::optional<ArrayParam<MinDistance::Matrix>> req;
                                            if (R) {
                                                for (auto & row : *R) r.push_back(Is(row));
                                                req = ArrayParam<MinDistance::Matrix>{r};
                                            }
                                            p.post(MinDistance{sub(a, 0, n), a[n], m, req, static_cast<MinDistancePropagation>(prop)});
                                        },
                                        [=](const Vals & v) {
                                            Val best = 1000000;
                                            for (size_t i = 0; i < n; ++i)
                                                for (size_t j = i + 1; j < n; ++j) {
                                                    auto d = D[v[i]][v[j]];
                                                    best = std::min(best, d);
                                                    if (R && d < (*R)[i][j])
                                                        return false;
                                                }
                                            return best == v[n];
                                        }},
                              shape);
                      };
                      auto mat3 = [](Val a, Val b, Val c) { return vector<Vals>{{0, a, b}, {a, 0, c}, {b, c, 0}}; };
                      vector<Vals> four = {{0, 2, 3, 1}, {2, 0, 1, 4}, {3, 1, 0, 2}, {1, 4, 2, 0}};
                      if (size == 0) {
                          for (int prop = 0; prop < 5; ++prop) {
                              emit(mat3(1, 2, 3), {{0, 1, 2}, {0, 1, 2}}, range(0, 3), std::nullopt, prop, Plain);
                              emit(mat3(2, 2, 1), {{0, 1, 2}, {0, 2}, {1, 2}}, range(0, 2), std::nullopt, prop, Plain);
                              emit(four, {range(0, 3), range(0, 3)}, range(1, 4), vector<Vals>{{0, 2}, {0, 0}}, prop, Plain);
                          }
                          return;
                      }
                      int k = 0;
                      for (int prop = 0; prop < 5; ++prop)
                          tuples(Vals{0, 1, 3}, 3, [&](const Vals & m) {
                              auto D = mat3(m[0], m[1], m[2]);
                              for (auto & z : vector<Vals>{range(0, 3), {1, 2}, {0, 3}, range(-1, 5), {3}}) {
                                  tuples(vector<Vals>{{0, 1, 2}, {0, 2}, {1}, {1, 2}}, 2, [&](const vector<Vals> & x) {
                                      ++k;
                                      emit(D, x, z, std::nullopt, prop, k % 6 == 0 ? unsigned(Std | Alias) : Plain | AllView);
                                      emit(D, x, z, vector<Vals>{{0, Val(k % 4)}, {0, 0}}, prop, Plain);
                                  });
                                  tuples(vector<Vals>{{0, 1, 2}, {0, 2}, {1}}, 3, [&](const vector<Vals> & x) {
                                      ++k;
                                      emit(D, x, z, std::nullopt, prop, Plain);
                                      if (k % 3 == 0)
                                          emit(D, x, z, vector<Vals>{{0, 1, 0}, {0, 0, Val(k / 3 % 3)}, {0, 0, 0}}, prop, Plain);
                                  });
                              }
                          });
                      for (int prop = 0; prop < 5; ++prop)
                          for (size_t n : {2, 3, 4})
                              tuples(n == 4 ? vector<Vals>{range(0, 3), {1, 2, 3}} : vector<Vals>{range(0, 3), {1, 3}, {0, 2, 3}}, n, [&](const vector<Vals> & x) {
                                  for (auto & z : vector<Vals>{range(0, 4), {1, 2}, {2, 3, 4}})
                                      emit(four, x, z, std::nullopt, prop, n == 2 ? Plain | NegView : unsigned(Plain));
                              });
                  }});
}
