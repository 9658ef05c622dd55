// P23: regular expressions denote their language.
#include "drv.hh"
#include <gcs/constraints/regular/regex.hh>
#include <gcs/exception.hh>
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
using gcs::Integer;
using gcs::innards::RegexNfa;
using std::optional;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    using Word = vector<int>;
    // A language cut off at a length: the set of its words up to that length.
    struct Lang
    {
        std::set<Word> words;
    };
    size_t max_len = 4;

    auto concat(const Lang & a, const Lang & b) -> Lang
    {
        Lang r;
        for (auto & x : a.words)
            for (auto & y : b.words)
                if (x.size() + y.size() <= max_len) {
                    auto w = x;
                    w.insert(w.end(), y.begin(), y.end());
                    r.words.insert(w);
                }
        return r;
    }
    auto unite(Lang a, const Lang & b) -> Lang
    {
        a.words.insert(b.words.begin(), b.words.end());
        return a;
    }
    auto empty_word() -> Lang { return Lang{{{}}}; }
    auto star(const Lang & a) -> Lang
    {
        Lang r = empty_word();
        while (true) {
            auto n = unite(r, concat(r, a));
            if (n.words.size() == r.words.size())
                return r;
            r = n;
        }
    }
    auto power(const Lang & a, long long n) -> Lang
    {
        Lang r = empty_word();
        for (long long i = 0; i < n; ++i)
            r = concat(r, a);
        return r;
    }
    auto symbols(const std::set<int> & s) -> Lang
    {
        Lang r;
        for (auto v : s)
            r.words.insert({v});
        return r;
    }

    // An independent reading of the documented grammar, straight from the text
    // to the (cut off) language; nullopt if the text is not in the syntax.
    struct Reader
    {
        const string & t;
        const std::set<int> & alphabet;
        size_t p = 0;
        bool bad = false;
        auto skip() -> void
        {
            while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n'))
                ++p;
        }
        auto peek() -> char
        {
            skip();
            return p < t.size() ? t[p] : '\0';
        }
        auto number() -> int
        {
            skip();
            if (p >= t.size() || ! isdigit(t[p])) {
                bad = true;
                return 0;
            }
            long long v = 0;
            while (p < t.size() && isdigit(t[p]))
                v = std::min(1000000ll, v * 10 + (t[p++] - '0'));
            return int(v);
        }
        auto expression() -> Lang
        {
            auto r = term();
            while (! bad && peek() == '|') {
                ++p;
                r = unite(r, term());
            }
            return r;
        }
        auto starts() -> bool
        {
            auto c = peek();
            return isdigit(c) || c == '.' || c == '[' || c == '(';
        }
        auto term() -> Lang
        {
            auto r = factor();
            while (! bad && starts())
                r = concat(r, factor());
            return r;
        }
        auto factor() -> Lang
        {
            auto a = atom();
            if (bad)
                return a;
            switch (peek()) {
            case '*': ++p; return star(a);
            case '+': ++p; return concat(a, star(a));
            case '?': ++p; return unite(a, empty_word());
            case '{': {
                ++p;
                auto n = number();
                if (bad)
                    return a;
                if (peek() == '}') {
                    ++p;
                    return power(a, n);
                }
                if (peek() != ',') {
                    bad = true;
                    return a;
                }
                ++p;
                if (peek() == '}') {
                    ++p;
                    return concat(power(a, n), star(a));
                }
                auto m = number();
                if (bad || peek() != '}' || m < n) {
                    bad = true;
                    return a;
                }
                ++p;
                Lang r;
                for (int i = n; i <= m; ++i)
                    r = unite(r, power(a, i));
                return r;
            }
            default: return a;
            }
        }
        auto atom() -> Lang
        {
            auto c = peek();
            if (isdigit(c))
                return symbols({number()});
            if (c == '.') {
                ++p;
                return symbols(alphabet);
            }
            if (c == '(') {
                ++p;
                auto r = expression();
                if (bad || peek() != ')') {
                    bad = true;
                    return r;
                }
                ++p;
                return r;
            }
            if (c == '[') {
                ++p;
                bool neg = false;
                if (peek() == '^') {
                    ++p;
                    neg = true;
                }
                std::set<int> s;
                if (! isdigit(peek())) {
                    bad = true;
                    return {};
                }
                while (! bad && isdigit(peek())) {
                    auto a = number();
                    if (peek() == '-') {
                        ++p;
                        auto b = number();
                        if (bad)
                            return {};
                        for (int v = std::min(a, b); v <= std::max(a, b); ++v)
                            s.insert(v);
                    }
                    else
                        s.insert(a);
                }
                if (bad || peek() != ']') {
                    bad = true;
                    return {};
                }
                ++p;
                if (! neg)
                    return symbols(s);
                std::set<int> c2;
                for (auto v : alphabet)
                    if (! s.contains(v))
                        c2.insert(v);
                return symbols(c2);
            }
            bad = true;
            return {};
        }
    };
    auto reference(const string & t, const std::set<int> & alphabet) -> optional<Lang>
    {
        for (unsigned char c : t)
            if (! isdigit(c) && (c == 0 || ! strchr(" \t\n|+*()?{},.[]-^", c)))
                return std::nullopt;
        Reader r{t, alphabet};
        auto l = r.expression();
        if (r.bad || r.peek() != '\0' || r.p < t.size())
            return std::nullopt;
        return l;
    }
    auto accepts(const RegexNfa & n, const Word & w) -> bool
    {
        std::set<long> now{0};
        for (auto v : w) {
            std::set<long> next;
            for (auto q : now)
                if (auto it = n.transitions[q].find(Integer{v}); it != n.transitions[q].end())
                    next.insert(it->second.begin(), it->second.end());
            now = next;
        }
        for (auto q : now)
            if (std::find(n.final_states.begin(), n.final_states.end(), q) != n.final_states.end())
                return true;
        return false;
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    // All words over the interesting symbols up to the length.
    auto words = [&](const vector<int> & syms, size_t len) {
        vector<Word> r{{}};
        size_t from = 0;
        for (size_t l = 0; l < len; ++l) {
            auto to = r.size();
            for (size_t i = from; i < to; ++i)
                for (auto s : syms) {
                    auto w = r[i];
                    w.push_back(s);
                    r.push_back(w);
                }
            from = to;
        }
        return r;
    };
    struct Setup
    {
        std::set<int> alphabet;
        vector<Word> ws;
        size_t len;
    };
    auto setup = [&](std::set<int> a, vector<int> syms, size_t len) { return Setup{a, words(syms, len), len}; };
    auto judge = [&](const string & id, const string & t, const Setup & su) {
        ctx.count("expressions");
        max_len = su.len;
        auto want = reference(t, su.alphabet);
        optional<RegexNfa> got;
        vector<Integer> alphabet;
        for (auto a : su.alphabet)
            alphabet.emplace_back(a);
        try {
            got = gcs::innards::regex_to_nfa(t, alphabet);
        }
        catch (const gcs::InvalidProblemDefinitionException &) {
        }
        if (want.has_value() != got.has_value())
            return ctx.fail(id, "'" + t + "'" + (want ? " is rejected" : " is accepted"));
        if (! got)
            return;
        ctx.count("accepted_expressions");
        ctx.count("automaton_states", got->num_states);
        if (got->num_states < 1 || got->transitions.size() != size_t(got->num_states))
            return ctx.fail(id, "'" + t + "': malformed automaton");
        for (auto & m : got->transitions)
            for (auto & [_, s] : m)
                for (auto q : s)
                    if (q < 0 || q >= got->num_states)
                        return ctx.fail(id, "'" + t + "': transition out of range");
        for (auto & w : su.ws) {
            bool expect = want->words.contains(w);
            ctx.count("words_judged");
            auto show = [&] {
                string r;
                for (auto v : w)
                    r += to_string(v) + " ";
                return r;
            };
            if (accepts(*got, w) != expect)
                return ctx.fail(id, "'" + t + "'" + (expect ? " does not accept " : " accepts ") + show());
        }
    };
    auto judge_matcher = [&](const string & id, const string & t, const Setup & su) {
        max_len = su.len;
        auto want = reference(t, su.alphabet);
        if (! want)
            return;
        vector<Integer> alphabet;
        for (auto a : su.alphabet)
            alphabet.emplace_back(a);
        for (auto & w : su.ws) {
            vector<Integer> seq;
            for (auto v : w)
                seq.emplace_back(v);
            if (gcs::innards::regex_reference_accepts(t, alphabet, seq) != want->words.contains(w))
                return ctx.fail(id, "'" + t + "': the direct matcher disagrees");
        }
    };

    // 1. Every string over the syntax's characters up to a length.
    auto strings = [&](const string & name, const string & chars, size_t len, const Setup & su) {
        for (char a : chars)
            for (char b : chars) {
                auto id = name + "/" + string{a, b};
                if (! ctx.begin(id))
                    continue;
                string t{a, b};
                auto rec = [&](auto & self) -> void {
                    judge(id, t, su);
                    if (t.size() == len)
                        return;
                    for (char c : chars) {
                        t += c;
                        self(self);
                        t.pop_back();
                    }
                };
                rec(rec);
            }
        if (ctx.begin(name + "/short")) {
            judge(name + "/short", "", su);
            for (char a : chars)
                judge(name + "/short", string{a}, su);
        }
    };
    auto s3 = setup({1, 2, 3}, {1, 2, 3, 12, 0}, 3);
    bool th = ctx.thorough;
    strings("all characters", "12|+*()?{},.[]-^ ", th ? 6 : 5, s3);
    strings("operators", "1.|*+?()", th ? 7 : 6, s3);
    strings("classes", "13[]-^ *", th ? 7 : 6, s3);
    strings("counts", "10{},", th ? 9 : 8, setup({0, 1}, {0, 1, 10, 11}, 3));
    // 2. Every expression tree up to a size, printed into text.
    {
        auto su = setup({0, 1, 2}, {0, 1, 2, 3, 12}, 4);
        const vector<string> leaf{"0", "1", "12", ".", "[0-1]", "[^1]", "[2 0]", "[^0-2]"};
        vector<vector<std::pair<string, int>>> by(6); // text and precedence: 0 union, 1 concat, 2 factor, 3 atom
        for (auto & l : leaf)
            by[1].emplace_back(l, 3);
        auto wrap = [](const std::pair<string, int> & e, int need) { return e.second >= need ? e.first : "(" + e.first + ")"; };
        size_t max = th ? 4 : 3;
        for (size_t n = 2; n <= max; ++n) {
            for (auto & e : by[n - 1])
                for (string op : {"*", "+", "?", "{2}", "{0}", "{1,}", "{0,2}", "{2,3}", "{1,1}", " { 1 , 2 } "})
                    by[n].emplace_back(wrap(e, 3) + op, 2);
            for (size_t a = 1; a + 1 < n; ++a)
                for (auto & x : by[a])
                    for (auto & y : by[n - 1 - a]) {
                        by[n].emplace_back(wrap(x, 1) + " " + wrap(y, 1), 1);
                        by[n].emplace_back(wrap(x, 0) + "|" + wrap(y, 0), 0);
                    }
        }
        for (size_t n = 1; n <= max; ++n)
            for (size_t block = 0; block * 200 < by[n].size(); ++block) {
                auto id = "trees/" + to_string(n) + "/" + to_string(block);
                if (! ctx.begin(id))
                    continue;
                for (size_t i = block * 200; i < std::min(by[n].size(), block * 200 + 200); ++i) {
                    judge(id, by[n][i].first, su);
                    judge_matcher(id, by[n][i].first, su);
                }
                ctx.sample(id + ": " + by[n][block * 200].first);
            }
        // pairs of factors under one operator, where quantifiers meet
        vector<string> factors;
        for (auto & l : leaf)
            for (string op : {"", "*", "+", "?", "{2}", "{0,1}", "{1,}"})
                factors.push_back(l + op);
        for (size_t i = 0; i < factors.size(); ++i) {
            auto id = "factor pairs/" + to_string(i);
            if (! ctx.begin(id))
                continue;
            for (size_t j = 0; j < factors.size(); ++j)
                for (string t : {factors[i] + " " + factors[j], factors[i] + "|" + factors[j], "(" + factors[i] + " " + factors[j] + ")*", "(" + factors[i] + "|" + factors[j] + "){2}", "(" + factors[i] + "|" + factors[j] + ")+ 1", factors[i] + "|" + factors[j] + " 0|2", "(" + factors[i] + ")? " + factors[j]})
                    judge(id, t, su);
        }
    }
    // 3. Counted repetition, through every pair of small counts, and counts of
    //    counts, judged on longer words.
    {
        int top = th ? 7 : 6;
        auto su = setup({0, 1}, {0, 1}, th ? 9 : 8);
        for (string atom : {"1", ".", "[0-1]", "[^0]", "(0 1)", "(0|1 1)", "(1?)", "(0*1)"})
            for (int lo = 0; lo <= top; ++lo) {
                auto id = "repeat/" + atom + "/" + to_string(lo);
                if (! ctx.begin(id))
                    continue;
                vector<string> counts{"{" + to_string(lo) + "}", "{" + to_string(lo) + ",}"};
                for (int hi = lo; hi <= top; ++hi)
                    counts.push_back("{" + to_string(lo) + "," + to_string(hi) + "}");
                for (auto & c : counts)
                    for (string after : {"", " 0", " 1", "|0 0", " 1*"})
                        judge(id, atom + c + after, su);
            }
        vector<string> small{"{0}", "{1}", "{2}", "{3}", "{0,}", "{1,}", "{2,}", "{0,1}", "{0,2}", "{0,3}", "{1,2}", "{1,3}", "{2,3}", "{2,4}", "*", "+", "?"};
        for (auto & a : small) {
            auto id = "repeat twice/" + a;
            if (! ctx.begin(id))
                continue;
            for (auto & b : small)
                for (string t : {"(1" + a + ")" + b, "(0 1" + a + ")" + b, "(0|1" + a + ")" + b, "1" + a + " 0" + b, "1" + a + " 1" + b})
                    judge(id, t, su);
        }
        // Classes whose members run past one digit.
        auto wide = setup({8, 9, 10, 11, 12}, {7, 8, 9, 10, 11, 12, 13}, 2);
        for (int lo = 7; lo <= 13; ++lo) {
            auto id = "wide classes/" + to_string(lo);
            if (! ctx.begin(id))
                continue;
            for (int hi = lo; hi <= 13; ++hi)
                for (string extra : {"", " 8", " 12 9", " 10-11"})
                    for (string neg : {"", "^"}) {
                        auto c = "[" + neg + to_string(lo) + "-" + to_string(hi) + extra + "]";
                        judge(id, c, wide);
                        judge(id, c + " " + c + "?", wide);
                    }
        }
    }
    // 4. Alphabets with negative values and gaps; every byte; long numbers.
    if (ctx.begin("alphabets"))
        for (auto & a : vector<std::set<int>>{{}, {-1, 0}, {-3, -2, 5}, {7}})
            for (string t : {".", "[^0]", ".*", "[^5]+", ". .", "(.|9)*", "[^1-9]", "[5-0]", "0|."})
                judge("alphabets", t, setup(a, {-3, -2, -1, 0, 5, 7, 9}, 2));
    if (ctx.begin("bytes"))
        for (int c = 0; c < 256; ++c)
            for (string t : {string(1, char(c)), "1" + string(1, char(c)), "1" + string(1, char(c)) + "1", "[1" + string(1, char(c)) + "3]", "(1" + string(1, char(c)) + ")"})
                judge("bytes", t, s3);
    if (ctx.begin("numbers")) {
        auto number = [&](const string & t, optional<long long> want) {
            ctx.count("expressions");
            optional<RegexNfa> got;
            try {
                got = gcs::innards::regex_to_nfa(t, {});
            }
            catch (const gcs::InvalidProblemDefinitionException &) {
            }
            if (got.has_value() != want.has_value())
                ctx.fail("numbers", t + (want ? " is rejected" : " is accepted"));
            else if (got) {
                bool ok = got->transitions[0].size() == 1 && got->transitions[0].contains(Integer{*want});
                if (! ok)
                    ctx.fail("numbers", t + " denotes another symbol");
            }
        };
        for (long long v : {0ll, 7ll, 10ll, 99ll, 100ll, 2147483647ll, 2147483648ll, 4294967296ll, 9223372036854775806ll, 9223372036854775807ll}) {
            number(to_string(v), v);
            number("000" + to_string(v), v);
        }
        for (string t : {"9223372036854775808", "18446744073709551616", "99999999999999999999", "18446744073709551617", "922337203685477580700"})
            number(t, std::nullopt);
    }
    ctx.finish();
}
