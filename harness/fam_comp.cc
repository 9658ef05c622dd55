// Comparison, equality, logical, reified, lexicographic and ordering constraints.
#include "core.hh"

#include <gcs/constraints/lex/lex_smart_table.hh>

#include <algorithm>
#include <set>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

namespace
{
    struct Cond
    {
        const char * name;
        IntegerVariableCondition (*make)(IntegerVariableID);
        bool (*holds)(Val);
    };
    const Cond conds[] = {
        {"z=1", [](IntegerVariableID z) { return z == 1_i; }, [](Val z) { return z == 1; }},
        {"z!=0", [](IntegerVariableID z) { return z != 0_i; }, [](Val z) { return z != 0; }},
        {"z>=1", [](IntegerVariableID z) { return z >= 1_i; }, [](Val z) { return z >= 1; }},
        {"z<1", [](IntegerVariableID z) { return z < 1_i; }, [](Val z) { return z < 1; }},
        {"z!=1", [](IntegerVariableID z) { return z != 1_i; }, [](Val z) { return z != 1; }},
        {"z>2", [](IntegerVariableID z) { return z > 2_i; }, [](Val z) { return z > 2; }},
    };
    const char * rel_names[] = {"lt", "le", "gt", "ge", "eq", "ne"};
    auto rel(int k, Val a, Val b) -> bool
    {
        switch (k) {
        case 0: return a < b;
        case 1: return a <= b;
        case 2: return a > b;
        case 3: return a >= b;
        case 4: return a == b;
        default: return a != b;
        }
    }
    auto post_rel(Problem & p, int k, int reif, IntegerVariableID a, IntegerVariableID b, const IntegerVariableCondition & c) -> void
    {
#define POSTREL(N) (reif == 0 ? p.post(N{a, b}) : reif == 1 ? p.post(N##If{a, b, c}) : p.post(N##Iff{a, b, c}))
        switch (k) {
        case 0: POSTREL(LessThan); break;
        case 1: POSTREL(LessThanEqual); break;
        case 2: POSTREL(GreaterThan); break;
        case 3: POSTREL(GreaterThanEqual); break;
        case 4: POSTREL(Equals); break;
        default: POSTREL(NotEquals); break;
        }
#undef POSTREL
    }
    auto lex_cmp(const Vals & a, const Vals & b) -> int { return a < b ? -1 : a == b ? 0 : 1; }
    auto post_lex(Problem & p, int k, int reif, const Vars & a, const Vars & b, const IntegerVariableCondition & c) -> void
    {
#define POSTLEX(N) (reif == 0 ? p.post(N{a, b}) : reif == 1 ? p.post(N##If{a, b, c}) : p.post(N##Iff{a, b, c}))
        switch (k) {
        case 0: POSTLEX(LexLessThan); break;
        case 1: POSTLEX(LexLessThanEqual); break;
        case 2: POSTLEX(LexGreaterThan); break;
        default: POSTLEX(LexGreaterEqual); break;
        }
#undef POSTLEX
    }
    auto reified(int reif, bool c, bool r) -> bool { return reif == 0 ? r : reif == 1 ? (! c || r) : c == r; }
}

auto vc::add_comp(vector<Family> & fs) -> void
{
    fs.push_back({"comp", "relations", [](const Sink & s, int size) {
                      auto ds = size == 0 ? vector<Vals>{{0, 1, 2}, {-1, 1, 3}, {0, 2}} : size == 1 ? subsets(-1, 2) : subsets(-2, 2);
                      for (int k = 0; k < 6; ++k)
                          for (auto & x : ds)
                              for (auto & y : ds)
                                  shapes(s, Base{"relations", rel_names[k], {x, y},
                                                [k](Problem & p, const Vars & a) { post_rel(p, k, 0, a[0], a[1], a[0] == 0_i); },
                                                [k](const Vals & v) { return rel(k, v[0], v[1]); }, Gac}, size ? Full : Plain | NegView | NegAlias, MayReject);
                  }});
    fs.push_back({"comp", "reified_relations", [](const Sink & s, int size) {
                      auto ds = size == 0 ? vector<Vals>{{0, 1, 2}, {-1, 1, 3}}
                          : size == 1   ? vector<Vals>{{1}, {0, 1}, {-1, 1}, {0, 1, 2}, {-1, 0, 2}, {2, 3}}
                                        : subsets(-1, 2);
                      auto cs = size == 0 ? vector<Vals>{{0, 1}, {-1, 0, 1, 2}} : vector<Vals>{{0, 1}, {0}, {1}, {-1, 0, 2}, {1, 3}, {0, 1, 2, 3}};
                      for (int k = 0; k < 6; ++k)
                          for (int reif = 1; reif < 3; ++reif)
                              for (auto & c : conds)
                                  for (auto & x : ds)
                                      for (auto & y : ds)
                                          for (auto & z : cs)
                                              shapes(s, Base{"reified_relations", string(rel_names[k]) + (reif == 1 ? "if" : "iff") + c.name, {x, y, z},
                                                            [k, reif, c](Problem & p, const Vars & a) { post_rel(p, k, reif, a[0], a[1], c.make(a[2])); },
                                                            [k, reif, c](const Vals & v) { return reified(reif, c.holds(v[2]), rel(k, v[0], v[1])); }},
                                                  size == 0 ? unsigned(Plain) : size == 1 ? Plain | Alias | AllView | NegAlias : Full);
                      if (size == 1)
                          for (int k = 0; k < 6; ++k)
                              for (int reif = 1; reif < 3; ++reif)
                                  for (auto & c : conds)
                                      for (auto & z : cs)
                                          shapes(s, Base{"reified_relations", string("w") + rel_names[k] + (reif == 1 ? "if" : "iff") + c.name, {{0, 1, 2}, {-1, 0, 2}, z},
                                                            [k, reif, c](Problem & p, const Vars & a) { post_rel(p, k, reif, a[0], a[1], c.make(a[2])); },
                                                            [k, reif, c](const Vals & v) { return reified(reif, c.holds(v[2]), rel(k, v[0], v[1])); }},
                                              Full);
                  }});
    fs.push_back({"comp", "lex", [](const Sink & s, int size) {
                      auto ds = size == 0 ? vector<Vals>{{0, 1}} : size == 1 ? vector<Vals>{{0, 1}, {1, 2}, {0, 2}} : vector<Vals>{{0, 1}, {1, 2}, {0, 2}, {1}, {0, 1, 2}};
                      const char * names[] = {"lt", "le", "gt", "ge"};
                      for (size_t n = 0; n <= 3; ++n)
                          for (size_t m = 0; m <= 3; ++m) {
                              if (n + m == 0 || n + m > (size == 2 ? 6u : size == 1 ? 5u : 4u))
                                  continue;
                              if (size == 0 && n != m)
                                  continue;
                              auto use = n + m >= 5 ? vector<Vals>{{0, 1}, {0, 2}} : ds;
                              if (n + m == 6)
                                  use = {{0, 1}};
                              tuples(use, n + m, [&](const vector<Vals> & d) {
                                  for (int k = 0; k < 4; ++k) {
                                      auto holds = [n, m, k](const Vals & v) {
                                          auto c = lex_cmp(sub(v, 0, n), sub(v, n, m));
                                          return k == 0 ? c < 0 : k == 1 ? c <= 0 : k == 2 ? c > 0 : c >= 0;
                                      };
                                      shapes(s, Base{"lex", string(names[k]) + to_string(n) + "/" + to_string(m), d,
                                                    [n, m, k](Problem & p, const Vars & a) {
                                                        post_lex(p, k, 0, sub(a, 0, n), sub(a, n, m), a[0] == 0_i);
                                                    },
                                                    holds}, size == 0 ? unsigned(Plain) : n + m <= 4 ? (size == 1 ? Plain | Alias | AllView | Const : unsigned(Full)) : Plain | Alias);
                                      if (n + m > (size == 2 ? 5u : 4u))
                                          continue;
                                      for (int reif = 1; reif < 3; ++reif)
                                          for (int ci : {0, 1, 3}) {
                                              if (size == 0 && ci)
                                                  continue;
                                              auto & c = conds[ci];
                                              for (auto & z : size == 2 ? vector<Vals>{{0, 1}, {0}, {1}, {-1, 0, 2}} : vector<Vals>{{0, 1}, {-1, 0, 2}}) {
                                                  auto dd = d;
                                                  dd.push_back(z);
                                                  shapes(s, Base{"lex", string(names[k]) + (reif == 1 ? "if" : "iff") + to_string(n) + "/" + to_string(m) + c.name, dd,
                                                                [n, m, k, reif, c](Problem & p, const Vars & a) {
                                                                    post_lex(p, k, reif, sub(a, 0, n), sub(a, n, m), c.make(a[n + m]));
                                                                },
                                                                [n, m, reif, c, holds](const Vals & v) { return reified(reif, c.holds(v[n + m]), holds(v)); }},
                                                      size == 0 || n + m > 2 ? unsigned(Plain) : Plain | Alias | AllView | Const);
                                              }
                                          }
                                  }
                                  if (n == m)
                                      shapes(s, Base{"lex", "smart" + to_string(n), d,
                                                    [n](Problem & p, const Vars & a) { p.post(LexSmartTable{sub(a, 0, n), sub(a, n, n)}); },
                                                    [n](const Vals & v) { return lex_cmp(sub(v, 0, n), sub(v, n, n)) > 0; }},
                                          Plain);
                              });
                          }
                  }});
    fs.push_back({"comp", "all_equal", [](const Sink & s, int size) {
                      for (size_t n = 1; n <= 4; ++n) {
                          auto ds = n <= 2 ? subsets(-1, 2) : n == 3 ? vector<Vals>{{0, 1}, {1, 2, 3}, {0, 2}, {-1, 1, 3}, {1}} : vector<Vals>{{0, 1, 2}, {1, 2, 3}, {0, 2, 3}};
                          if (size == 0) {
                              if (n != 2 && n != 3)
                                  continue;
                              ds = {{0, 1, 2}, {1, 2, 4}};
                          }
                          tuples(ds, n, [&](const vector<Vals> & d) {
                              shapes(s, Base{"all_equal", to_string(n), d, [](Problem & p, const Vars & a) { p.post(AllEqual{a}); },
                                            [](const Vals & v) { return std::ranges::all_of(v, [&](Val x) { return x == v[0]; }); }, Gac},
                                  size ? Full : Plain | NegView);
                          });
                      }
                  }});
    fs.push_back({"comp", "increasing", [](const Sink & s, int size) {
                      for (int kind = 0; kind < 4; ++kind)
                          for (size_t n = 1; n <= (size == 2 ? 4 : 4); ++n) {
                              auto ds = n <= 2 ? subsets(0, 3) : n == 3 ? vector<Vals>{{0, 1}, {1, 2, 3}, {0, 2}, {-1, 1, 3}, {1}} : vector<Vals>{{0, 1, 2}, {1, 3}, {0, 2, 4}};
                              if (size == 0) {
                                  if (n != 3)
                                      continue;
                                  ds = {{0, 1, 2}, {1, 3}};
                              }
                              tuples(ds, n, [&](const vector<Vals> & d) {
                                  shapes(s, Base{"increasing", string(kind & 1 ? "s" : "") + (kind & 2 ? "dec" : "inc") + to_string(n), d,
                                                [kind](Problem & p, const Vars & a) {
                                                    switch (kind) {
                                                    case 0: p.post(Increasing{a}); break;
                                                    case 1: p.post(StrictlyIncreasing{a}); break;
                                                    case 2: p.post(Decreasing{a}); break;
                                                    default: p.post(StrictlyDecreasing{a}); break;
                                                    }
                                                },
                                                [kind](const Vals & v) {
                                                    for (size_t i = 0; i + 1 < v.size(); ++i)
                                                        if (! rel(kind == 0 ? 1 : kind == 1 ? 0 : kind == 2 ? 3 : 2, v[i], v[i + 1]))
                                                            return false;
                                                    return true;
                                                }},
                                      size ? Full : Plain | NegView);
                              });
                          }
                  }});
    fs.push_back({"comp", "in", [](const Sink & s, int size) {
                      auto ds = size == 0 ? vector<Vals>{{0, 1, 2}, {-1, 2}} : size == 1 ? vector<Vals>{{0, 1, 2}, {-1, 2}, {1}, {0, 3}} : subsets(0, 2);
                      for (auto & x : ds)
                          for (auto & consts : vector<Vals>{{}, {1}, {0, 3}, {2, 2, -1}, {-7, 5}}) {
                              if (! consts.empty())
                                  shapes(s, Base{"in", "c" + str(consts), {x}, [consts](Problem & p, const Vars & a) { p.post(In{a[0], Is(consts)}); },
                                                [consts](const Vals & v) { return std::ranges::find(consts, v[0]) != consts.end(); }, Gac},
                                      size ? Full : unsigned(Plain));
                              for (size_t n = 1; n <= 3; ++n)
                                  tuples(ds, n, [&](const vector<Vals> & d) {
                                      if (n == 3 && size == 0)
                                          return;
                                      auto dd = d;
                                      dd.insert(dd.begin(), x);
                                      shapes(s, Base{"in", "v" + str(consts) + to_string(n), dd,
                                                    [consts](Problem & p, const Vars & a) {
                                                        auto rest = sub(a, 1, a.size() - 1);
                                                        if (consts.empty())
                                                            p.post(In{a[0], rest});
                                                        else
                                                            p.post(In{a[0], rest, Is(consts)});
                                                    },
                                                    [consts](const Vals & v) {
                                                        return std::ranges::find(consts, v[0]) != consts.end() || std::find(v.begin() + 1, v.end(), v[0]) != v.end();
                                                    }},
                                          size == 0 ? unsigned(Plain) : n <= 2 ? unsigned(Full) : Plain | Alias);
                                  });
                          }
                  }});
    fs.push_back({"comp", "logical", [](const Sink & s, int size) {
                      auto ds = size == 0 ? vector<Vals>{{0, 1}} : vector<Vals>{{0, 1}, {0}, {1}, {-1, 0, 2}, {2, 3}};
                      for (int conj = 0; conj < 2; ++conj)
                          for (size_t n = 0; n <= 3; ++n)
                              for (int reif = 0; reif < 2; ++reif) {
                                  if (n + reif == 0)
                                      continue;
                                  tuples(n >= 3 && size == 1 ? vector<Vals>{{0, 1}, {-1, 0, 2}, {1}} : ds, n + reif, [&](const vector<Vals> & d) {
                                      shapes(s, Base{"logical", string(conj ? "and" : "or") + to_string(n) + (reif ? "r" : ""), d,
                                                    [conj, n, reif](Problem & p, const Vars & a) {
                                                        auto v = sub(a, 0, n);
                                                        if (conj) {
                                                            if (reif) p.post(And{v, a[n]}); else p.post(And{v});
                                                        }
                                                        else {
                                                            if (reif) p.post(Or{v, a[n]}); else p.post(Or{v});
                                                        }
                                                    },
                                                    [conj, n, reif](const Vals & v) {
                                                        bool r = conj;
                                                        for (size_t i = 0; i < n; ++i)
                                                            r = conj ? (r && v[i] != 0) : (r || v[i] != 0);
                                                        return reif ? r == (v[n] != 0) : r;
                                                    }},
                                          size ? (n <= 2 ? Full : Plain | Alias | AllView) : Plain | Alias);
                                  });
                              }
                      // Over conditions, with a condition as the reification
                      for (int conj = 0; conj < 2; ++conj)
                          for (int c1 = 0; c1 < 6; ++c1)
                              for (int c2 = 0; c2 < 6; ++c2)
                                  for (int c3 = 0; c3 < 6; ++c3) {
                                      if (size == 0 && (c1 + c2 + c3) % 5)
                                          continue;
                                      shapes(s, Base{"logical", string(conj ? "andl" : "orl") + conds[c1].name + conds[c2].name + conds[c3].name, {{0, 1, 2}, {-1, 1, 3}, {0, 1, 3}},
                                                    [=](Problem & p, const Vars & a) {
                                                        innards::Literals ls{conds[c1].make(a[0]), conds[c2].make(a[1])};
                                                        innards::Literal r = conds[c3].make(a[2]);
                                                        if (conj) p.post(And{ls, r}); else p.post(Or{ls, r});
                                                    },
                                                    [=](const Vals & v) {
                                                        bool x = conds[c1].holds(v[0]), y = conds[c2].holds(v[1]);
                                                        return (conj ? x && y : x || y) == conds[c3].holds(v[2]);
                                                    }},
                                          size ? Plain | Alias | AllView : unsigned(Plain));
                                  }
                  }});
    fs.push_back({"comp", "parity", [](const Sink & s, int size) {
                      for (size_t n = 1; n <= 4; ++n) {
                          auto ds = n == 4 ? vector<Vals>{{0, 1}, {-1, 0, 2}} : vector<Vals>{{0, 1}, {0}, {1}, {-1, 0, 2}, {2, 3}};
                          if (size == 0) {
                              if (n > 3)
                                  continue;
                              ds = {{0, 1}};
                          }
                          tuples(ds, n, [&](const vector<Vals> & d) {
                              shapes(s, Base{"parity", to_string(n), d, [](Problem & p, const Vars & a) { p.post(ParityOdd{a}); },
                                            [](const Vals & v) { return std::ranges::count_if(v, [](Val x) { return x != 0; }) % 2 == 1; }},
                                  size ? Full : unsigned(Plain));
                              shapes(s, Base{"parity", "lit" + to_string(n), d,
                                            [](Problem & p, const Vars & a) {
                                                innards::Literals ls;
                                                for (size_t i = 0; i < a.size(); ++i)
                                                    ls.push_back(conds[(i + 1) % 4].make(a[i]));
                                                p.post(ParityOdd{ls});
                                            },
                                            [](const Vals & v) {
                                                int k = 0;
                                                for (size_t i = 0; i < v.size(); ++i)
                                                    k += conds[(i + 1) % 4].holds(v[i]);
                                                return k % 2 == 1;
                                            }},
                                  size ? Plain | Alias : unsigned(Plain));
                          });
                      }
                  }});
    fs.push_back({"comp", "nogoods", [](const Sink & s, int size) {
                      // every pair of nogoods over three variables drawn from a small pool of literals
                      auto dom = Vals{0, 1, 2};
                      for (int refined = 0; refined < 2; ++refined)
                          for (int c1 = 0; c1 < 6; ++c1)
                              for (int c2 = 0; c2 < 6; ++c2)
                                  for (int c3 = 0; c3 < 6; ++c3)
                                      for (int len = 1; len <= 3; ++len) {
                                          if (size == 0 && (c1 + c2 + c3) % 4)
                                              continue;
                                          shapes(s, Base{"nogoods", string(refined ? "r" : "") + to_string(len) + conds[c1].name + conds[c2].name + conds[c3].name, {dom, {0, 1, 3}, dom},
                                                        [=](Problem & p, const Vars & a) {
                                                            Nogood n1, n2;
                                                            n1.push_back(conds[c1].make(a[0]));
                                                            if (len > 1) n1.push_back(conds[c2].make(a[1]));
                                                            if (len > 2) n1.push_back(conds[c3].make(a[2]));
                                                            n2.push_back(conds[c3].make(a[1]));
                                                            n2.push_back(conds[c1].make(a[2]));
                                                            p.post(Nogoods{{n1, n2}, bool(refined)});
                                                        },
                                                        [=](const Vals & v) {
                                                            bool b1 = conds[c1].holds(v[0]) && (len < 2 || conds[c2].holds(v[1])) && (len < 3 || conds[c3].holds(v[2]));
                                                            bool b2 = conds[c3].holds(v[1]) && conds[c1].holds(v[2]);
                                                            return ! b1 && ! b2;
                                                        }},
                                              size ? Plain | Alias | AllView : unsigned(Plain));
                                      }
                  }});
}
