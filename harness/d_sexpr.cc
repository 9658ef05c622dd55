// P24: S-expression text and trees are inverse.
#include "drv.hh"
#include <gcs/innards/s_expr.hh>
#include <format>
#include <functional>
#include <optional>
using namespace gcs::innards;
using std::optional;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    // Independent reading of the documented grammar, by a pushdown over
    // characters, giving the canonical text of each top-level term.
    auto reference(const string & t) -> optional<vector<string>>
    {
        vector<string> top;
        string cur, atom;
        int depth = 0;
        auto flush = [&] {
            if (! atom.empty()) {
                if (! cur.empty() && cur.back() != '(')
                    cur += ' ';
                cur += atom;
                atom.clear();
                if (depth == 0) {
                    top.push_back(cur);
                    cur.clear();
                }
            }
        };
        for (char c : t) {
            if (c == '(') {
                flush();
                if (! cur.empty() && cur.back() != '(')
                    cur += ' ';
                cur += '(';
                ++depth;
            }
            else if (c == ')') {
                flush();
                if (depth-- == 0)
                    return std::nullopt;
                cur += ')';
                if (depth == 0) {
                    top.push_back(cur);
                    cur.clear();
                }
            }
            else if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v')
                flush();
            else
                atom += c;
        }
        flush();
        if (depth != 0)
            return std::nullopt;
        return top;
    }
    auto printed(const SExpr & e) -> string
    {
        if (e.is_atom())
            return e.as_atom();
        string r = "(";
        for (auto & c : e.as_list())
            r += (r.size() > 1 ? " " : "") + printed(c);
        return r + ")";
    }
    auto quote(const string & t) -> string
    {
        string r;
        for (char c : t)
            r += c == '\n' ? string("\\n") : c == '\t' ? string("\\t") : c == '\r' ? string("\\r") : c == '\f' ? string("\\f") : c == '\v' ? string("\\v") : string(1, c);
        return r;
    }
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    auto text = [&](const string & id, const string & t) {
        ctx.count("texts");
        auto want = reference(t);
        optional<vector<SExpr>> got;
        try {
            got = parse_s_expr_seq(t);
        }
        catch (const SExprParseError &) {
        }
        if (want.has_value() != got.has_value())
            return ctx.fail(id, quote(t) + (want ? " is rejected" : " is accepted"));
        optional<SExpr> single;
        try {
            single = parse_s_expr(t);
        }
        catch (const SExprParseError &) {
        }
        if (single.has_value() != (want && want->size() == 1))
            return ctx.fail(id, quote(t) + (single ? " is accepted" : " is rejected") + " as a single term");
        if (! got)
            return;
        ctx.count("accepted");
        if (got->size() != want->size())
            return ctx.fail(id, quote(t) + " has " + to_string(got->size()) + " terms, not " + to_string(want->size()));
        for (size_t i = 0; i < got->size(); ++i) {
            auto & g = (*got)[i];
            auto f = std::format("{}", g);
            if (f != (*want)[i] || printed(g) != f)
                return ctx.fail(id, quote(t) + " reads as " + f);
            if (! (parse_s_expr(f) == g))
                return ctx.fail(id, f + " does not read back as the tree it was printed from");
            auto bare = std::format("{:#}", g);
            if (bare != (g.is_list() ? f.substr(1, f.size() - 2) : f))
                return ctx.fail(id, f + " prints bare as " + bare);
        }
        if (single && ! (*single == (*got)[0]))
            ctx.fail(id, quote(t) + " reads differently as a single term");
    };
    // Every text up to a length over an alphabet with each kind of character.
    auto texts = [&](const string & name, const string & alphabet, size_t len) {
        for (char a : alphabet)
            for (char b : alphabet) {
                auto id = name + "/" + quote(string{a, b});
                if (! ctx.begin(id))
                    continue;
                string t{a, b};
                auto rec = [&](auto & self) -> void {
                    text(id, t);
                    if (t.size() == len)
                        return;
                    for (char c : alphabet) {
                        t += c;
                        self(self);
                        t.pop_back();
                    }
                };
                rec(rec);
                ctx.sample(id + " and every extension to length " + to_string(len));
            }
        if (ctx.begin(name + "/short")) {
            text(name + "/short", "");
            for (char a : alphabet)
                text(name + "/short", string{a});
        }
    };
    texts("plain", "( )a", ctx.thorough ? 11 : 9);
    texts("mixed", "()ab \n", ctx.thorough ? 8 : 7);
    texts("space", "() \t\n\r\f\vx", ctx.thorough ? 6 : 5);
    texts("symbols", "(),;+-=\"'\\#|_9 ", ctx.thorough ? 5 : 4);
    if (ctx.begin("bytes"))
        for (int c = 0; c < 256; ++c)
            for (auto t : {string(1, char(c)), string("a") + char(c) + "b", string("(a") + char(c) + ")", string("(") + char(c) + ")"})
                text("bytes", t);
    // Every tree up to a size, printed and read back.
    {
        const vector<string> atoms{"a", "-1", "_1", "=>"};
        size_t max = ctx.thorough ? 7 : 6;
        vector<vector<SExpr>> by_size(max + 1);
        vector<vector<vector<SExpr>>> lists(max + 1); // sequences with total size n
        lists[0] = {{}};
        for (size_t n = 1; n <= max; ++n) {
            if (n == 1)
                for (auto & a : atoms)
                    by_size[1].push_back(SExpr::atom(a));
            // a list of total child size n - 1
            for (auto & l : lists[n - 1])
                by_size[n].push_back(SExpr::list(l));
            for (size_t first = 1; first <= n; ++first)
                for (auto & f : by_size[first])
                    for (auto & rest : lists[n - first]) {
                        vector<SExpr> l{f};
                        l.insert(l.end(), rest.begin(), rest.end());
                        lists[n].push_back(std::move(l));
                    }
        }
        size_t k = 0;
        for (size_t n = 1; n <= max; ++n)
            for (size_t block = 0; block * 500 < by_size[n].size(); ++block) {
                auto id = "trees/" + to_string(n) + "/" + to_string(block);
                if (! ctx.begin(id))
                    continue;
                for (size_t i = block * 500; i < std::min(by_size[n].size(), block * 500 + 500); ++i) {
                    auto & e = by_size[n][i];
                    ctx.count("trees");
                    ++k;
                    auto f = std::format("{}", e);
                    try {
                        if (f != printed(e) || ! (parse_s_expr(f) == e) || parse_s_expr_seq(f + " " + f) != vector<SExpr>{e, e})
                            ctx.fail(id, f + " does not read back");
                        if (e.is_list() && parse_s_expr_seq(std::format("{:#}", e)) != e.as_list())
                            ctx.fail(id, f + " printed bare does not read back");
                    }
                    catch (const std::exception & x) {
                        ctx.fail(id, f + ": " + x.what());
                    }
                    // kind queries
                    bool threw = false;
                    try {
                        if (e.is_atom())
                            (void) e.as_list();
                        else
                            (void) e.as_atom();
                    }
                    catch (const SExprParseError &) {
                        threw = true;
                    }
                    if (! threw || e.is_atom() == e.is_list())
                        ctx.fail(id, f + ": kind");
                    auto copy = e;
                    auto moved = std::move(copy);
                    if (! (moved == e))
                        ctx.fail(id, f + ": copy");
                }
                if (n < 5)
                    for (size_t i = block * 500; i < std::min(by_size[n].size(), block * 500 + 500); ++i)
                        for (size_t m = 1; m < 4; ++m)
                            for (size_t j = 0; j < by_size[m].size(); ++j) {
                                bool same = n == m && i == j;
                                ctx.count("tree_pairs");
                                if ((by_size[n][i] == by_size[m][j]) != same || (printed(by_size[n][i]) == printed(by_size[m][j])) != same)
                                    ctx.fail(id, "equality of trees");
                            }
            }
        // nesting
        if (ctx.begin("deep"))
            for (size_t d : {10, 100, 1000}) {
                text("deep", string(d, '(') + string(d, ')'));
                text("deep", string(d, '(') + "a" + string(d - 1, ')'));
                text("deep", string(d, '(') + "a b" + string(d + 1, ')'));
            }
    }
    ctx.finish();
}
