#include "pb.hh"

#include <algorithm>
#include <cctype>

using namespace pb;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    auto str(I v) -> string
    {
        if (v < 0)
            return "-" + str(-v);
        string r;
        do {
            r += char('0' + int(v % 10));
            v /= 10;
        } while (v);
        return {r.rbegin(), r.rend()};
    }
    auto add(I a, I b) -> I
    {
        I r;
        if (__builtin_add_overflow(a, b, &r))
            throw Error("arithmetic overflow in the checker");
        return r;
    }
    auto mul(I a, I b) -> I
    {
        I r;
        if (__builtin_mul_overflow(a, b, &r))
            throw Error("arithmetic overflow in the checker");
        return r;
    }
    auto ceil_div(I a, I b) -> I { return a <= 0 ? -((-a) / b) : (a + b - 1) / b; }
    auto measure(Con & c) -> void
    {
        c.sum = 0;
        c.maxc = 0;
        for (auto & t : c.t) {
            c.sum = add(c.sum, t.c);
            c.maxc = std::max(c.maxc, t.c);
        }
    }
    auto saturate(Con & c) -> void
    {
        if (c.rhs <= 0) {
            c.t.clear();
            c.rhs = 0;
        }
        for (auto & t : c.t)
            t.c = std::min(t.c, c.rhs);
        measure(c);
    }
    // a + b, with opposite literals cancelling.
    auto plus(const Con & a, const Con & b) -> Con
    {
        Con r;
        r.rhs = add(a.rhs, b.rhs);
        size_t i = 0, j = 0;
        while (i < a.t.size() || j < b.t.size()) {
            if (j == b.t.size() || (i < a.t.size() && a.t[i].lit / 2 < b.t[j].lit / 2))
                r.t.push_back(a.t[i++]);
            else if (i == a.t.size() || b.t[j].lit / 2 < a.t[i].lit / 2)
                r.t.push_back(b.t[j++]);
            else {
                auto & x = a.t[i++];
                auto & y = b.t[j++];
                if (x.lit == y.lit)
                    r.t.push_back({add(x.c, y.c), x.lit});
                else {
                    auto m = std::min(x.c, y.c);
                    r.rhs -= m;
                    if (x.c > m)
                        r.t.push_back({x.c - m, x.lit});
                    else if (y.c > m)
                        r.t.push_back({y.c - m, y.lit});
                }
            }
        }
        measure(r);
        return r;
    }
}

auto Checker::bad(const string & what) const -> void
{
    throw Error("line " + to_string(line) + ": " + what);
}

auto Checker::space() -> void
{
    while (p < e && (*p == ' ' || *p == '\t' || *p == '\r'))
        ++p;
}

auto Checker::to_eol() -> string
{
    auto b = p;
    while (p < e && *p != '\n')
        ++p;
    string r(b, p);
    if (p < e) {
        ++p;
        ++line;
    }
    return r;
}

auto Checker::word() -> string
{
    space();
    auto b = p;
    while (p < e && *p != ' ' && *p != '\t' && *p != '\n' && *p != ';' && *p != '\r')
        ++p;
    return {b, p};
}

auto Checker::at_number() -> bool
{
    space();
    return p < e && (isdigit((unsigned char)*p) || *p == '+' || *p == '-') && p + 1 <= e;
}

auto Checker::number() -> I
{
    space();
    bool neg = false;
    if (p < e && (*p == '-' || *p == '+'))
        neg = *p++ == '-';
    if (p == e || ! isdigit((unsigned char)*p))
        bad("expected a number");
    I r = 0;
    while (p < e && isdigit((unsigned char)*p))
        r = add(mul(r, 10), *p++ - '0');
    return neg ? -r : r;
}

auto Checker::expect(const string & what) -> void
{
    space();
    if (size_t(e - p) < what.size() || string(p, p + what.size()) != what)
        bad("expected `" + what + "'");
    p += what.size();
}

auto Checker::var(const string & name) -> int
{
    auto [i, fresh] = ids.try_emplace(name, int(names.size()));
    if (fresh) {
        names.push_back(name);
        occ.resize(2 * names.size());
        value.resize(2 * names.size(), -1);
    }
    return i->second;
}

auto Checker::literal(const string & w) -> int
{
    auto n = w.starts_with("~") ? w.substr(1) : w;
    if (n.size() < 2 || ! (isalpha((unsigned char)n[0]) || n[0] == '_'))
        bad("bad literal `" + w + "'");
    for (unsigned char c : n)
        if (c <= 32 || c == ';' || c == '~' || c == '"')
            bad("bad literal `" + w + "'");
    return 2 * var(n) + (w[0] == '~');
}

auto Checker::normalise(vector<Term> && raw, I rhs) -> Con
{
    // coefficient on the positive literal
    std::map<int, I> cs;
    for (auto & t : raw) {
        if (t.lit & 1) {
            cs[t.lit / 2] = add(cs[t.lit / 2], -t.c);
            rhs = add(rhs, -t.c);
        }
        else
            cs[t.lit / 2] = add(cs[t.lit / 2], t.c);
    }
    Con r;
    for (auto & [v, c] : cs)
        if (c > 0)
            r.t.push_back({c, 2 * v});
        else if (c < 0) {
            r.t.push_back({-c, 2 * v + 1});
            rhs = add(rhs, -c);
        }
    r.rhs = rhs;
    measure(r);
    return r;
}

auto Checker::negate(const Con & c) const -> Con
{
    // sum >= rhs  becomes  sum of negations >= total - rhs + 1
    Con r = c;
    for (auto & t : r.t)
        t.lit ^= 1;
    r.rhs = c.sum - c.rhs + 1;
    return r;
}

auto Checker::constraint(bool) -> Con
{
    vector<Term> raw;
    while (true) {
        space();
        if (p + 1 < e && p[0] == '>' && p[1] == '=') {
            p += 2;
            break;
        }
        auto c = number();
        auto w = word();
        raw.push_back({c, literal(w)});
    }
    auto rhs = number();
    return normalise(std::move(raw), rhs);
}

auto Checker::add_slot(Con && c, bool core) -> int
{
    int s;
    if (! free_slots.empty()) {
        s = free_slots.back();
        free_slots.pop_back();
    }
    else {
        s = int(slots.size());
        slots.emplace_back();
    }
    auto & x = slots[s];
    x.c = std::move(c);
    x.alive = true;
    x.core = core;
    x.allowed = 0;
    x.slack = x.c.sum - x.c.rhs;
    for (auto & t : x.c.t)
        occ[t.lit].emplace_back(s, t.c);
    if (x.slack < x.c.maxc || x.slack < 0)
        eager.push_back(s);
    return s;
}

auto Checker::kill_slot(int s) -> void
{
    auto & x = slots[s];
    for (auto & t : x.c.t) {
        auto & o = occ[t.lit];
        for (size_t i = o.size(); i-- > 0;)
            if (o[i].first == s) {
                o[i] = o.back();
                o.pop_back();
                break;
            }
    }
    if (x.slack < x.c.maxc || x.slack < 0) {
        for (size_t i = eager.size(); i-- > 0;)
            if (eager[i] == s) {
                eager[i] = eager.back();
                eager.pop_back();
                break;
            }
    }
    x.alive = false;
    free_slots.push_back(s);
}

auto Checker::add_id(Con && c, bool core) -> long long
{
    auto s = add_slot(std::move(c), core);
    by_id.emplace(++counter, s);
    if (in_subproof)
        subproof_ids.push_back(counter);
    if (pending_label) {
        labels[*pending_label] = counter;
        pending_label.reset();
    }
    return counter;
}

auto Checker::del_id(long long id, bool must) -> void
{
    auto i = by_id.find(id);
    if (i == by_id.end()) {
        if (must)
            bad("deletion of constraint " + to_string(id) + ", which is not there");
        return;
    }
    if (slots[i->second].core)
        bad("deletion of core constraint " + to_string(id));
    kill_slot(i->second);
    by_id.erase(i);
    ++out.dels;
}

auto Checker::reference(const string & w, long long base) const -> long long
{
    if (w.empty())
        bad("expected a constraint reference");
    if (w[0] == '@') {
        auto i = labels.find(w.substr(1));
        if (i == labels.end())
            bad("unknown label `" + w + "'");
        return i->second;
    }
    char * end = nullptr;
    auto v = strtoll(w.c_str(), &end, 10);
    if (*end || v == 0)
        bad("bad constraint reference `" + w + "'");
    return v < 0 ? base + 1 + v : v;
}

auto Checker::slot_of(long long id) const -> int
{
    auto i = by_id.find(id);
    if (i == by_id.end())
        bad("reference to constraint " + to_string(id) + ", which is not there");
    return i->second;
}

auto Checker::read_model(const string & text) -> void
{
    p = text.data();
    e = p + text.size();
    line = 1;
    bool seen_constraint = false;
    while (p < e) {
        space();
        if (p == e)
            break;
        if (*p == '\n') {
            to_eol();
            continue;
        }
        if (*p == '*') {
            to_eol();
            continue;
        }
        if (text.compare(p - text.data(), 4, "min:") == 0) {
            if (has_objective || seen_constraint)
                bad("misplaced objective");
            p += 4;
            has_objective = true;
            while (true) {
                space();
                if (p < e && *p == ';')
                    break;
                auto c = number();
                objective.push_back({c, literal(word())});
            }
            expect(";");
            to_eol();
            continue;
        }
        if (text.compare(p - text.data(), 10, "preserved:") == 0) {
            if (has_preserved || seen_constraint)
                bad("misplaced preserved set");
            p += 10;
            has_preserved = true;
            while (true) {
                space();
                if (p < e && *p == ';')
                    break;
                preserved.push_back(literal(word()) / 2);
            }
            expect(";");
            to_eol();
            continue;
        }
        seen_constraint = true;
        if (*p == '@') {
            ++p;
            auto l = word();
            if (labels.contains(l))
                bad("label `" + l + "' is used twice");
            pending_label = l;
        }
        auto c = constraint(true);
        expect(";");
        space();
        if (p < e && *p != '\n')
            bad("trailing text");
        add_id(std::move(c), true);
    }
    n_model = counter;
}

// Propagation

auto Checker::enqueue(int lit) -> bool
{
    if (value[lit] == 1)
        return true;
    if (value[lit] == 0)
        return false;
    value[lit] = 1;
    value[lit ^ 1] = 0;
    trail.push_back(lit);
    ++out.propagations;
    return true;
}

auto Checker::settle(int s, bool & conflict) -> void
{
    auto & x = slots[s];
    if (x.slack < 0) {
        conflict = true;
        return;
    }
    if (x.slack >= x.c.maxc)
        return;
    for (auto & t : x.c.t)
        if (t.c > x.slack && value[t.lit] == -1)
            enqueue(t.lit);
}

auto Checker::start_all() -> bool
{
    bool conflict = false;
    for (auto s : eager)
        if (! hinted || slots[s].allowed == stamp) {
            settle(s, conflict);
            if (conflict)
                return true;
        }
    return false;
}

auto Checker::propagate() -> bool
{
    bool conflict = false;
    static thread_local vector<int> touched;
    while (qhead < trail.size()) {
        auto falsified = trail[qhead++] ^ 1;
        auto & o = occ[falsified];
        for (auto & [s, c] : o)
            slots[s].slack -= c;
        for (auto & [s, c] : o) {
            if (hinted && slots[s].allowed != stamp)
                continue;
            if (slots[s].slack < slots[s].c.maxc || slots[s].slack < 0)
                settle(s, conflict);
            if (conflict)
                return true;
        }
    }
    return false;
}

auto Checker::undo(size_t to) -> void
{
    while (trail.size() > to) {
        auto l = trail.back();
        if (qhead == trail.size()) {
            for (auto & [s, c] : occ[l ^ 1])
                slots[s].slack += c;
            --qhead;
        }
        value[l] = value[l ^ 1] = -1;
        trail.pop_back();
    }
}

auto Checker::contradiction() -> bool
{
    auto r = start_all() || propagate();
    undo(0);
    return r;
}

auto Checker::rup(const Con & c, const vector<long long> * hints) -> bool
{
    ++out.rups;
    if (c.rhs <= 0)
        return true;
    if (hints) {
        ++stamp;
        for (auto h : *hints)
            slots[slot_of(h)].allowed = stamp;
    }
    auto n = add_slot(negate(c), false);
    if (hints) {
        slots[n].allowed = stamp;
        hinted = true;
    }
    auto r = start_all() || propagate();
    undo(0);
    hinted = false;
    kill_slot(n);
    return r;
}

auto Checker::implies(const Con & a, const Con & b) const -> bool
{
    if (b.rhs <= 0)
        return true;
    auto test = [&](bool sat) {
        auto cap = [&](I c) { return sat ? std::min(c, a.rhs) : c; };
        I rhs = a.rhs;
        if (rhs <= 0)
            return false;
        size_t j = 0;
        for (auto & t : a.t) {
            while (j < b.t.size() && b.t[j].lit / 2 < t.lit / 2)
                ++j;
            I have = 0;
            if (j < b.t.size() && b.t[j].lit == t.lit)
                have = std::min(b.t[j].c, b.rhs);
            auto c = cap(t.c);
            // anything beyond what b offers has to be weakened away
            if (j < b.t.size() && b.t[j].lit == t.lit && b.t[j].c >= b.rhs)
                continue; // b is satisfied by this literal alone
            if (c > have)
                rhs -= c - have;
            if (rhs <= 0)
                return false;
        }
        return rhs >= b.rhs;
    };
    return test(false) || test(true);
}

auto Checker::implied_by_any(const Con & b) const -> bool
{
    if (b.rhs <= 0)
        return true;
    for (auto & s : slots)
        if (s.alive && implies(s.c, b))
            return true;
    return false;
}

auto Checker::dpll(long long & nodes) -> bool
{
    ++nodes;
    if (nodes > 2000000)
        throw Error("the checker gave up on a satisfiability test");
    int pick = -1;
    for (auto & s : slots) {
        if (! s.alive || s.c.rhs <= 0)
            continue;
        // satisfied already?
        I have = 0;
        int un = -1;
        for (auto & t : s.c.t)
            if (value[t.lit] == 1)
                have += t.c;
            else if (value[t.lit] == -1 && un == -1)
                un = t.lit;
        if (have >= s.c.rhs)
            continue;
        if (un == -1)
            return false;
        pick = un;
        break;
    }
    if (pick == -1)
        return true;
    auto mark = trail.size();
    for (auto l : {pick, pick ^ 1}) {
        if (enqueue(l) && ! propagate() && dpll(nodes))
            return true;
        undo(mark);
    }
    return false;
}

auto Checker::satisfiable(const vector<int> & lits, long long & nodes) -> bool
{
    bool ok = ! start_all();
    for (auto l : lits)
        ok = ok && enqueue(l);
    ok = ok && ! propagate();
    ok = ok && dpll(nodes);
    if (ok)
        last = value;
    undo(0);
    return ok;
}

auto Checker::propagates_to_solution(const vector<int> & lits) -> bool
{
    undo(0);
    bool ok = ! start_all();
    for (auto l : lits)
        ok = ok && enqueue(l);
    ok = ok && ! propagate();
    return ok;
}

// Proof rules

auto Checker::pol(const string & text) -> Con
{
    vector<Con> stack;
    vector<std::optional<I>> numbers; // a bare number may be a constraint or an operand
    size_t i = 0;
    auto pop = [&]() -> Con {
        if (stack.empty())
            bad("pol: stack underflow");
        auto r = std::move(stack.back());
        stack.pop_back();
        return r;
    };
    vector<string> toks;
    while (i < text.size()) {
        while (i < text.size() && isspace((unsigned char)text[i]))
            ++i;
        auto b = i;
        while (i < text.size() && ! isspace((unsigned char)text[i]))
            ++i;
        if (i > b)
            toks.push_back(text.substr(b, i - b));
    }
    auto is_number = [](const string & s) {
        size_t k = s[0] == '-' || s[0] == '+';
        return k < s.size() && std::all_of(s.begin() + k, s.end(), [](unsigned char c) { return isdigit(c); });
    };
    for (size_t k = 0; k < toks.size(); ++k) {
        auto & t = toks[k];
        if (k + 1 < toks.size() && is_number(t) && (toks[k + 1] == "*" || toks[k + 1] == "d")) {
            I n = 0;
            if (t[0] == '-' || t[0] == '+')
                bad("pol: bad operand");
            for (auto c : t)
                n = add(mul(n, 10), c - '0');
            if (n <= 0)
                bad("pol: operand must be positive");
            auto c = pop();
            if (toks[k + 1] == "*") {
                for (auto & x : c.t)
                    x.c = mul(x.c, n);
                c.rhs = mul(c.rhs, n);
            }
            else {
                for (auto & x : c.t)
                    x.c = ceil_div(x.c, n);
                c.rhs = ceil_div(c.rhs, n);
            }
            measure(c);
            stack.push_back(std::move(c));
            ++k;
        }
        else if (t == "+") {
            auto b = pop(), a = pop();
            stack.push_back(plus(a, b));
        }
        else if (t == "s") {
            auto c = pop();
            saturate(c);
            stack.push_back(std::move(c));
        }
        else if (k + 1 < toks.size() && toks[k + 1] == "w") {
            auto v = literal(t) / 2;
            auto c = pop();
            for (size_t j = 0; j < c.t.size(); ++j)
                if (c.t[j].lit / 2 == v) {
                    c.rhs -= c.t[j].c;
                    c.t.erase(c.t.begin() + j);
                    break;
                }
            measure(c);
            stack.push_back(std::move(c));
            ++k;
        }
        else if (t[0] == '@' || is_number(t))
            stack.push_back(slots[slot_of(reference(t, counter))].c);
        else {
            Con c;
            c.t.push_back({1, literal(t)});
            c.rhs = 0;
            measure(c);
            stack.push_back(std::move(c));
        }
    }
    if (stack.size() != 1)
        bad("pol: " + to_string(stack.size()) + " constraints left on the stack");
    return stack[0];
}

auto Checker::substitute(const Con & c, const std::map<int, int> & w, bool & touched) -> Con
{
    // witness values: literal, or -1 for true and -2 for false of the variable
    touched = false;
    for (auto & t : c.t)
        if (w.contains(t.lit / 2)) {
            touched = true;
            break;
        }
    if (! touched)
        return c;
    vector<Term> raw;
    I rhs = c.rhs;
    for (auto & t : c.t) {
        auto i = w.find(t.lit / 2);
        if (i == w.end())
            raw.push_back(t);
        else if (i->second < 0) {
            bool is_true = (i->second == -1) != (t.lit & 1);
            if (is_true)
                rhs -= t.c;
        }
        else
            raw.push_back({t.c, i->second ^ (t.lit & 1)});
    }
    return normalise(std::move(raw), rhs);
}

auto Checker::redundancy(long depth) -> Con
{
    ++out.reds;
    auto c = constraint(true);
    expect(":");
    std::map<int, int> w;
    bool sub = false;
    while (true) {
        space();
        if (p < e && *p == ';') {
            ++p;
            break;
        }
        if (p < e && *p == ':') {
            ++p;
            space();
            expect("subproof");
            to_eol();
            sub = true;
            break;
        }
        auto x = literal(word());
        if (x & 1)
            bad("red: witness on a negated literal");
        expect("->");
        auto to = word();
        int v;
        if (to == "0")
            v = -2;
        else if (to == "1")
            v = -1;
        else
            v = literal(to);
        if (! w.emplace(x / 2, v).second)
            bad("red: variable mapped twice");
    }
    if (has_preserved)
        for (auto v : preserved)
            if (w.contains(v))
                bad("red: the witness changes preserved variable " + names[v]);

    // the obligations: the constraint itself, the objective, and everything the witness changes
    struct Goal
    {
        Con c;
        string what;
        bool done = false;
    };
    std::map<long long, Goal> db; // by id
    Goal self;
    bool t;
    self.c = substitute(c, w, t);
    self.what = "the new constraint";
    std::optional<Goal> obj;
    if (has_objective) {
        bool hit = false;
        vector<Term> raw;
        I rhs = 0;
        for (auto & o : objective) {
            auto i = w.find(o.lit / 2);
            if (i == w.end())
                continue;
            hit = true;
            // f - f|w >= 0
            raw.push_back(o);
            if (i->second < 0) {
                bool is_true = (i->second == -1) != (o.lit & 1);
                if (is_true)
                    rhs += o.c;
            }
            else
                raw.push_back({-o.c, i->second ^ (o.lit & 1)});
        }
        if (hit) {
            obj.emplace();
            obj->c = normalise(std::move(raw), rhs);
            obj->what = "the objective";
        }
    }
    {
        std::vector<char> seen_slot(slots.size(), 0);
        std::vector<int> todo;
        for (auto & [v, to] : w)
            for (auto l : {2 * v, 2 * v + 1})
                for (auto & [s, k] : occ[l])
                    if (! seen_slot[s]) {
                        seen_slot[s] = 1;
                        todo.push_back(s);
                    }
        if (! todo.empty())
            for (auto & [id, s] : by_id)
                if (seen_slot[s]) {
                    Goal g;
                    g.c = substitute(slots[s].c, w, t);
                    g.what = "constraint " + to_string(id);
                    db.emplace(id, std::move(g));
                }
    }

    auto neg = negate(c);
    vector<int> mine;
    if (sub) {
        ++out.subproofs;
        if (in_subproof)
            bad("nested subproof");
        in_subproof = true;
        subproof_ids.clear();
        // The `: subproof' line itself takes an id for the negated constraint.
        pending_label.reset();
        auto neg_id = add_id(Con(neg), false);
        int number_of_goals = 1;
        while (true) {
            space();
            if (p < e && *p == '\n') {
                to_eol();
                continue;
            }
            if (p < e && *p == '%') {
                to_eol();
                continue;
            }
            auto rule = word();
            if (rule == "qed") {
                expect(";");
                to_eol();
                break;
            }
            if (rule != "proofgoal")
                bad("expected a proofgoal, not `" + rule + "'");
            auto which = word();
            Goal * g = nullptr;
            if (which == "#1")
                g = &self;
            else if (which == "#2" && obj)
                g = &*obj;
            else if (which.starts_with("#"))
                bad("no goal `" + which + "'");
            else {
                auto id = reference(which, counter);
                auto i = db.find(id);
                if (i == db.end())
                    bad("constraint " + to_string(id) + " is not a goal");
                g = &i->second;
            }
            to_eol();
            (void)number_of_goals;
            auto first = counter + 1;
            add_id(negate(g->c), false);
            bool qed = false;
            while (! qed) {
                if (p >= e)
                    bad("unfinished proofgoal");
                step(int(depth) + 1, qed);
            }
            if (! contradiction())
                bad("proofgoal " + which + " does not reach a contradiction");
            ++out.goals;
            g->done = true;
            for (auto id = counter; id >= first; --id)
                if (by_id.contains(id)) {
                    kill_slot(by_id[id]);
                    by_id.erase(id);
                }
        }
        kill_slot(by_id[neg_id]);
        by_id.erase(neg_id);
        in_subproof = false;
        subproof_ids.clear();
    }

    auto n = add_slot(std::move(neg), false);
    auto discharge = [&](Goal & g) {
        if (g.done || g.c.rhs <= 0)
            return;
        ++out.goals;
        if (g.c.sum < g.c.rhs ? false : implied_by_any(g.c))
            return;
        if (rup(g.c, nullptr))
            return;
        bad("red: the obligation for " + g.what + " does not follow");
    };
    discharge(self);
    if (obj)
        discharge(*obj);
    for (auto & [id, g] : db)
        discharge(g);
    kill_slot(n);
    return c;
}

auto Checker::step(int depth, bool & qed) -> void
{
    space();
    if (p >= e)
        return;
    if (*p == '\n' || *p == '%') {
        to_eol();
        return;
    }
    if (ended)
        bad("text after the end of the proof");
    ++out.steps;
    pending_label.reset();
    if (*p == '@') {
        ++p;
        auto l = word();
        pending_label = l;
    }
    auto rule = word();
    auto references = [&](long long base) {
        // a list of references up to the `;'
        vector<long long> r;
        while (true) {
            space();
            if (p < e && *p == ';')
                break;
            r.push_back(reference(word(), base));
        }
        return r;
    };
    if (concluded && rule != "end")
        bad("a rule after the conclusion");
    if (rule == "rup") {
        auto c = constraint(true);
        space();
        std::optional<vector<long long>> hints;
        if (p < e && *p == ':') {
            ++p;
            hints = references(counter);
        }
        expect(";");
        if (! rup(c, hints && strict_hints ? &*hints : nullptr))
            bad("rup: the constraint does not follow by propagation");
        add_id(std::move(c), false);
    }
    else if (rule == "pol" || rule == "p") {
        ++out.pols;
        auto b = p;
        while (p < e && *p != ';' && *p != '\n')
            ++p;
        string text(b, p);
        expect(";");
        auto l = pending_label;
        auto c = pol(text);
        pending_label = l;
        add_id(std::move(c), false);
    }
    else if (rule == "red") {
        auto l = pending_label;
        auto c = redundancy(depth);
        pending_label = l;
        add_id(std::move(c), false);
    }
    else if (rule == "ia") {
        ++out.ias;
        auto c = constraint(true);
        space();
        if (p < e && *p == ':') {
            ++p;
            auto h = references(counter);
            if (h.size() != 1)
                bad("ia: expected one reference");
            if (! implies(slots[slot_of(h[0])].c, c))
                bad("ia: the constraint is not implied by constraint " + to_string(h[0]));
        }
        else if (! implied_by_any(c))
            bad("ia: the constraint is not implied by any constraint");
        expect(";");
        add_id(std::move(c), false);
    }
    else if (rule == "e") {
        auto c = constraint(true);
        expect(":");
        auto h = references(counter);
        expect(";");
        if (h.size() != 1)
            bad("e: expected one reference");
        auto & d = slots[slot_of(h[0])].c;
        bool same = d.rhs == c.rhs && d.t.size() == c.t.size();
        for (size_t i = 0; same && i < c.t.size(); ++i)
            same = c.t[i].lit == d.t[i].lit && c.t[i].c == d.t[i].c;
        if (! same)
            bad("e: constraint " + to_string(h[0]) + " is not the one given");
    }
    else if (rule == "a") {
        ++out.assertions;
        if (! allow_assertions)
            bad("an unjustified assertion");
        auto c = constraint(true);
        while (p < e && *p != ';' && *p != '\n')
            ++p;
        expect(";");
        add_id(std::move(c), false);
    }
    else if (rule == "del") {
        auto kind = word();
        if (kind == "id") {
            auto ids = references(counter);
            for (auto id : ids)
                del_id(id, true);
        }
        else if (kind == "range") {
            auto r = references(counter);
            if (r.size() != 2)
                bad("del range: expected two references");
            if (r[0] > r[1])
                bad("del range: backwards");
            for (auto id = r[0]; id < r[1]; ++id)
                del_id(id, false);
        }
        else
            bad("del: unknown kind `" + kind + "'");
        expect(";");
    }
    else if (rule == "solx" || rule == "soli") {
        if (depth)
            bad("a solution inside a subproof");
        vector<int> lits;
        while (true) {
            space();
            if (p < e && *p == ';')
                break;
            auto w = word();
            auto n = w.starts_with("~") ? w.substr(1) : w;
            if (! ids.contains(n))
                bad("solution mentions unknown variable " + n);
            lits.push_back(literal(w));
        }
        expect(";");
        if (! propagates_to_solution(lits)) {
            undo(0);
            bad("the solution logged is contradicted by the constraints");
        }
        // every model constraint must be satisfied by what is now assigned, or failing that be satisfiable
        bool all = true;
        for (auto & s : slots) {
            if (! s.alive || ! s.core)
                continue;
            I have = 0;
            for (auto & t : s.c.t)
                if (value[t.lit] == 1)
                    have += t.c;
            if (have < s.c.rhs) {
                all = false;
                break;
            }
        }
        if (! all) {
            // The documented contract is that propagation alone completes it; failing that, search.
            long long nodes = 0;
            if (! extend_solutions || ! dpll(nodes)) {
                undo(0);
                bad("the solution logged does not propagate to one satisfying every model constraint");
            }
            ++out.extended;
        }
        if (rule == "soli") {
            if (! has_objective)
                bad("soli without an objective");
            I v = 0;
            vector<Term> raw;
            for (auto & o : objective) {
                if (value[o.lit] == -1) {
                    undo(0);
                    bad("the solution logged leaves the objective open");
                }
                if (value[o.lit] == 1)
                    v = add(v, o.c);
                raw.push_back({-o.c, o.lit});
            }
            undo(0);
            if (! out.best || v < *out.best)
                out.best = v;
            ++out.soli;
            add_id(normalise(std::move(raw), -(v - 1)), true);
        }
        else {
            vector<Term> raw;
            vector<int> sol;
            if (! has_preserved && preserved.empty())
                for (size_t v = 0; v < names.size(); ++v)
                    preserved.push_back(int(v));
            for (auto v : preserved) {
                if (value[2 * v] == -1) {
                    undo(0);
                    bad("the solution logged leaves " + names[v] + " open");
                }
                raw.push_back({1, value[2 * v] == 1 ? 2 * v + 1 : 2 * v});
                sol.push_back(value[2 * v] == 1);
            }
            undo(0);
            ++out.solx;
            out.solutions.push_back(std::move(sol));
            add_id(normalise(std::move(raw), 1), true);
        }
    }
    else if (rule == "qed") {
        if (! depth)
            bad("qed outside a subproof");
        expect(";");
        qed = true;
    }
    else if (rule == "output") {
        if (word() != "NONE")
            bad("unknown output");
        expect(";");
    }
    else if (rule == "conclusion") {
        space();
        auto b = p;
        while (p < e && *p != ';' && *p != '\n')
            ++p;
        out.conclusion = string(b, p);
        expect(";");
        while (! out.conclusion.empty() && out.conclusion.back() == ' ')
            out.conclusion.pop_back();
        concluded = true;
        auto save = p;
        auto save_e = e;
        p = out.conclusion.data();
        e = p + out.conclusion.size();
        auto kind = word();
        auto is_contradiction = [&](long long id) {
            auto & c = slots[slot_of(id)].c;
            return c.sum < c.rhs;
        };
        if (kind == "UNSAT" || kind == "ENUMERATION_COMPLETE") {
            if (kind == "ENUMERATION_COMPLETE") {
                auto n = number();
                if (n != out.solx)
                    bad("concluded " + str(n) + " solutions, having logged " + to_string(out.solx));
            }
            else if (out.solx || out.soli)
                bad("concluded UNSAT after logging a solution");
            expect(":");
            if (! is_contradiction(reference(word(), counter)))
                bad("the constraint the conclusion cites is not a contradiction");
        }
        else if (kind == "SAT") {
            if (! out.solx && ! out.soli)
                bad("concluded SAT without a solution");
        }
        else if (kind == "BOUNDS") {
            auto lo = word(), hi = word();
            if (! has_objective)
                bad("BOUNDS without an objective");
            if (lo == "INF") {
                if (! contradiction() || out.soli)
                    bad("concluded BOUNDS INF without infeasibility");
            }
            else {
                vector<Term> raw(objective.begin(), objective.end());
                auto v = I(strtoll(lo.c_str(), nullptr, 10));
                if (! rup(normalise(std::move(raw), v), nullptr))
                    bad("the concluded lower bound " + lo + " does not follow");
            }
            if (hi != "INF") {
                auto v = I(strtoll(hi.c_str(), nullptr, 10));
                if (! out.best || *out.best > v)
                    bad("the concluded upper bound " + hi + " was not reached");
            }
        }
        else if (kind != "NONE")
            bad("unknown conclusion `" + kind + "'");
        p = save;
        e = save_e;
    }
    else if (rule == "end") {
        expect("pseudo-Boolean proof");
        expect(";");
        if (! concluded)
            bad("no conclusion");
        ended = true;
    }
    else
        bad("unknown rule `" + rule + "'");
    space();
    if (rule == "red" && (p == e || *p != '\n'))
        return; // the subproof form has consumed its line
    if (p < e && *p != '\n')
        bad("trailing text after " + rule);
    to_eol();
}

auto Checker::check_proof(const string & text) -> Outcome
{
    out = Outcome{};
    p = text.data();
    e = p + text.size();
    line = 1;
    auto head = to_eol();
    if (head != "pseudo-Boolean proof version 3.0")
        bad("bad header");
    bool qed = false;
    while (p < e)
        step(0, qed);
    if (! ended)
        bad("the proof is not finished");
    return out;
}
