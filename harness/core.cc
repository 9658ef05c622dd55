#include "core.hh"
using namespace vc;
using namespace gcs;
using std::set; using std::string; using std::to_string; using std::vector;

auto vc::str(const Vals & v) -> string
{
    string r = "{";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + to_string(v[i]);
    return r + "}";
}
auto vc::str(const vector<Vals> & v) -> string
{
    string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? " " : "") + str(v[i]);
    return r + "]";
}
auto vc::range(Val lo, Val hi) -> Vals
{
    Vals r;
    for (Val v = lo; v <= hi; ++v)
        r.push_back(v);
    return r;
}
auto vc::subsets(Val lo, Val hi) -> vector<Vals>
{
    vector<Vals> r;
    int n = hi - lo + 1;
    for (int m = 1; m < (1 << n); ++m) {
        Vals d;
        for (int i = 0; i < n; ++i)
            if (m & (1 << i))
                d.push_back(lo + i);
        r.push_back(d);
    }
    return r;
}
auto vc::intervals(Val lo, Val hi) -> vector<Vals>
{
    vector<Vals> r;
    for (Val l = lo; l <= hi; ++l)
        for (Val h = l; h <= hi; ++h)
            r.push_back(range(l, h));
    return r;
}
auto vc::all_solutions(const Inst & i) -> set<Vals>
{
    set<Vals> r;
    product(i.doms, [&](const Vals & v) {
        if (i.ok(v))
            r.insert(v);
    });
    return r;
}
auto vc::make_vars(Problem & p, const vector<Vals> & doms, const string & prefix) -> Vars
{
    Vars r;
    for (size_t i = 0; i < doms.size(); ++i) {
        auto & d = doms[i];
        if (d.back() - d.front() + 1 == Val(d.size()))
            r.push_back(p.create_integer_variable(I(d.front()), I(d.back()), prefix + to_string(i)));
        else
            r.push_back(p.create_integer_variable(Is(d), prefix + to_string(i)));
    }
    return r;
}

namespace
{
    struct Slot
    {
        bool is_const = false;
        size_t var = 0;
        Val sign = 1, add = 0; // value = sign * x + add, or add if constant
    };
    auto emit(const Sink & sink, const Base & b, const string & tag, const vector<Slot> & slots, vector<Vals> doms, unsigned flags) -> void
    {
        Inst r;
        r.fam = b.fam;
        r.id = b.fam + "/" + b.id + "/" + tag + str(doms);
        r.doms = std::move(doms);
        r.flags = flags;
        r.post = [slots, post = b.post](Problem & p, const Vars & x) {
            Vars a;
            for (auto & s : slots)
                if (s.is_const)
                    a.push_back(ConstantIntegerVariableID{I(s.add)});
                else if (s.sign == 1 && s.add == 0)
                    a.push_back(x[s.var]);
                else if (s.sign == 1)
                    a.push_back(x[s.var] + I(s.add));
                else
                    a.push_back(-x[s.var] + I(s.add));
            post(p, a);
        };
        r.ok = [slots, ok = b.ok](const Vals & v) {
            Vals a;
            for (auto & s : slots)
                a.push_back(s.is_const ? s.add : s.sign * v[s.var] + s.add);
            return ok(a);
        };
        sink(std::move(r));
    }
    auto view_dom(const Vals & d, Val sign, Val add) -> Vals
    {
        Vals r;
        for (auto v : d)
            r.push_back(sign * (v - add));
        std::sort(r.begin(), r.end());
        return r;
    }
}

auto vc::shapes(const Sink & sink, const Base & b, unsigned which, unsigned alias_flags) -> void
{
    size_t n = b.args.size();
    vector<Slot> plain(n);
    for (size_t i = 0; i < n; ++i)
        plain[i].var = i;
    if (which & Plain)
        emit(sink, b, "", plain, b.args, b.flags);
    auto one_view = [&](const string & tag, Val sign, Val add) {
        for (size_t i = 0; i < n; ++i) {
            auto s = plain;
            auto d = b.args;
            s[i].sign = sign;
            s[i].add = add;
            d[i] = view_dom(d[i], sign, add);
            emit(sink, b, tag + to_string(i), s, d, b.flags);
        }
    };
    if (which & NegView)
        one_view("n", -1, 1);
    if (which & PosView)
        one_view("p", 1, -2);
    if (which & AllView) {
        auto s = plain;
        auto d = b.args;
        for (size_t i = 0; i < n; ++i) {
            s[i].sign = i % 2 ? 1 : -1;
            s[i].add = i % 2 ? 3 : 0;
            d[i] = view_dom(d[i], s[i].sign, s[i].add);
        }
        emit(sink, b, "av", s, d, b.flags);
    }
    auto drop = [&](vector<Slot> s, vector<Vals> d, size_t gone) {
        d.erase(d.begin() + gone);
        for (auto & x : s)
            if (! x.is_const && x.var > gone)
                --x.var;
        return std::pair{s, d};
    };
    if (which & Const)
        for (size_t i = 0; i < n; ++i)
            for (auto v : b.args[i]) {
                auto s = plain;
                s[i].is_const = true;
                s[i].add = v;
                auto [s2, d2] = drop(s, b.args, i);
                emit(sink, b, "k" + to_string(i) + "=" + to_string(v), s2, d2, b.flags);
            }
    if (which & ConstPair)
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j)
                for (auto v : {b.args[i].front(), b.args[i].back()})
                    for (auto w : {b.args[j].front(), b.args[j].back()}) {
                        auto s = plain;
                        s[i].is_const = s[j].is_const = true;
                        s[i].add = v;
                        s[j].add = w;
                        auto [s2, d2] = drop(s, b.args, j);
                        auto [s3, d3] = drop(s2, d2, i);
                        emit(sink, b, "K" + to_string(i) + "=" + to_string(v) + "," + to_string(j) + "=" + to_string(w), s3, d3, b.flags);
                    }
    auto alias = [&](const string & tag, Val sign, Val add) {
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (sign == 1 ? i < j : i != j) {
                    auto s = plain;
                    s[j].var = i;
                    s[j].sign = sign;
                    s[j].add = add;
                    auto d = b.args;
                    d.erase(d.begin() + j);
                    for (auto & x : s)
                        if (x.var > j)
                            --x.var;
                    emit(sink, b, tag + to_string(i) + to_string(j), s, d, (b.flags & ~unsigned(Gac)) | alias_flags);
                }
    };
    if (which & Alias)
        alias("a", 1, 0);
    if (which & NegAlias)
        alias("m", -1, 0);
}

auto vc::families() -> const vector<Family> &
{
    static const vector<Family> f = [] {
        vector<Family> r;
        add_arith(r);
        add_comp(r);
        add_count(r);
        add_table(r);
        add_sched(r);
        return r;
    }();
    return f;
}
