// P29: array parameters keep their data alive under any ownership history.
#include "drv.hh"
#include <gcs/array_param.hh>
#include <initializer_list>
#include <memory>
#include <optional>
#include <unordered_set>
using gcs::ArrayParam;
using std::optional;
using std::shared_ptr;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    // A container that knows where every live instance is.
    struct Ledger
    {
        std::unordered_set<const void *> live;
        long copies = 0, bad = 0;
    } ledger;

    struct Tracked
    {
        using value_type = int;
        vector<int> data;
        auto born() -> void { if (! ledger.live.insert(this).second) ++ledger.bad; }
        Tracked(vector<int> d) : data(std::move(d)) { born(); }
        Tracked(std::initializer_list<int> d) : data(d) { born(); }
        Tracked(const Tracked & o) : data(o.data) { ++ledger.copies; if (! ledger.live.contains(&o)) ++ledger.bad; born(); }
        Tracked(Tracked && o) : data(std::move(o.data)) { if (! ledger.live.contains(&o)) ++ledger.bad; born(); }
        auto operator=(const Tracked &) -> Tracked & = delete;
        ~Tracked() { if (! ledger.live.erase(this)) ++ledger.bad; }
    };
    using Param = ArrayParam<Tracked>;

    // A handle slot as the reference model sees it.
    struct Model
    {
        bool present = false, moved = false;
        int object = -1; // which object it refers to
    };
    struct Object
    {
        vector<int> contents;
        int kind; // 0 owned, 1 shared, 2 borrowed
        const void * where = nullptr;
    };
    constexpr int slots = 2;
    enum Op { Move, Init, Share, Borrow, Copy, CopyConstruct, MoveTo, Drop, SelfAssign, Swap, ReleaseSource, n_kinds };
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    // operations with their slot
    vector<std::pair<int, int>> alphabet;
    for (int k = 0; k < n_kinds; ++k)
        for (int s = 0; s < slots; ++s)
            if (! ((k == Swap || k == ReleaseSource) && s == 1))
                alphabet.emplace_back(k, s);
    int depth = ctx.thorough ? 6 : 5;

    auto play = [&](const vector<int> & ops) -> string {
        string bad;
        ledger = Ledger{};
        {
            Tracked local{vector<int>{7, 8, 9}};
            auto source = std::make_shared<const Tracked>(vector<int>{4, 5});
            const void * source_at = source.get();
            optional<Param> h[slots];
            Model m[slots];
            vector<Object> objects;
            int counter = 0;
            bool released = false;
            auto alive_expected = [&] {
                // local, the source while anyone holds it, and each owned object with a handle
                std::set<const void *> s{&local};
                bool shared_held = ! released;
                for (auto & x : m)
                    if (x.present && ! x.moved && objects[x.object].kind == 1)
                        shared_held = true;
                if (shared_held)
                    s.insert(source_at);
                for (auto & x : m)
                    if (x.present && ! x.moved && objects[x.object].kind == 0)
                        s.insert(objects[x.object].where);
                return s;
            };
            for (size_t i = 0; i < ops.size() && bad.empty(); ++i) {
                auto [k, s] = alphabet[ops[i]];
                auto o = 1 - s;
                auto copies_before = ledger.copies;
                bool may_copy = false;
                auto fresh = [&](vector<int> c, int kind) {
                    objects.push_back(Object{std::move(c), kind});
                    m[s] = Model{true, false, int(objects.size()) - 1};
                };
                switch (k) {
                case Move: {
                    vector<int> d{++counter, 1};
                    h[s].reset();
                    h[s].emplace(Tracked{d});
                    fresh(d, 0);
                    objects.back().where = &**h[s];
                    break;
                }
                case Init:
                    h[s].reset();
                    h[s].emplace(std::initializer_list<int>{3, 1, 2});
                    fresh({3, 1, 2}, 0);
                    objects.back().where = &**h[s];
                    may_copy = false;
                    break;
                case Share:
                    if (! source)
                        continue;
                    h[s].reset();
                    h[s].emplace(source);
                    fresh({4, 5}, 1);
                    objects.back().where = source_at;
                    break;
                case Borrow:
                    h[s].reset();
                    h[s].emplace(&local);
                    fresh({7, 8, 9}, 2);
                    objects.back().where = &local;
                    break;
                case Copy:
                    if (! m[s].present || ! m[o].present)
                        continue;
                    *h[s] = *h[o];
                    m[s] = m[o];
                    break;
                case CopyConstruct:
                    if (! m[o].present)
                        continue;
                    {
                        const Param & c = *h[o];
                        Param tmp{c};
                        h[s].emplace(tmp);
                    }
                    m[s] = m[o];
                    break;
                case MoveTo:
                    if (! m[o].present || m[o].moved)
                        continue;
                    if (m[s].present)
                        *h[s] = std::move(*h[o]);
                    else
                        h[s].emplace(std::move(*h[o]));
                    m[s] = m[o];
                    h[o].reset();
                    m[o] = Model{};
                    break;
                case Drop:
                    h[s].reset();
                    m[s] = Model{};
                    break;
                case SelfAssign:
                    if (! m[s].present)
                        continue;
                    {
                        auto & alias = *h[s];
                        *h[s] = alias;
                    }
                    break;
                case Swap:
                    if (! m[0].present || ! m[1].present)
                        continue;
                    std::swap(*h[0], *h[1]);
                    std::swap(m[0], m[1]);
                    break;
                case ReleaseSource:
                    source.reset();
                    released = true;
                    break;
                }
                ctx.count("transitions");
                if (ledger.copies != copies_before && ! may_copy)
                    bad = "step " + to_string(i) + " copied the data";
                for (int j = 0; j < slots && bad.empty(); ++j)
                    if (m[j].present && ! m[j].moved) {
                        auto & ob = objects[m[j].object];
                        const Tracked & t = **h[j];
                        if (! ledger.live.contains(&t))
                            bad = "step " + to_string(i) + ": slot " + to_string(j) + " refers to a dead object";
                        else if (&t != ob.where)
                            bad = "step " + to_string(i) + ": slot " + to_string(j) + " refers to another object than it was built from";
                        else if (t.data != ob.contents || (*h[j])->data != ob.contents || &**h[j] != h[j]->operator->())
                            bad = "step " + to_string(i) + ": slot " + to_string(j) + " has other contents";
                    }
                auto want = alive_expected();
                if (bad.empty() && std::set<const void *>(ledger.live.begin(), ledger.live.end()) != want)
                    bad = "step " + to_string(i) + ": " + to_string(ledger.live.size()) + " objects alive, not " + to_string(want.size());
                if (bad.empty() && source) {
                    long n = 1;
                    for (auto & x : m)
                        n += x.present && ! x.moved && objects[x.object].kind == 1;
                    if (source.use_count() != n)
                        bad = "step " + to_string(i) + ": shared use count " + to_string(source.use_count()) + ", not " + to_string(n);
                }
                if (bad.empty() && (local.data != vector<int>{7, 8, 9} || (source && source->data != vector<int>{4, 5})))
                    bad = "step " + to_string(i) + " changed the caller's data";
            }
            ctx.count("histories");
        }
        if (bad.empty() && (ledger.bad || ! ledger.live.empty()))
            bad = to_string(ledger.live.size()) + " objects left, " + to_string(ledger.bad) + " bad constructions or destructions";
        return bad;
    };
    auto name = [&](const vector<int> & ops) {
        static const char * names[] = {"own", "init", "share", "borrow", "copy", "copyctor", "moveto", "drop", "self", "swap", "release"};
        string r = "history";
        for (auto o : ops)
            r += string("/") + names[alphabet[o].first] + to_string(alphabet[o].second);
        return r;
    };
    auto n = alphabet.size();
    // every history of the full depth (its prefixes are checked on the way)
    for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < n; ++b) {
            auto id = name({int(a), int(b)});
            if (! ctx.begin(id))
                continue;
            vector<int> ops(depth, 0);
            ops[0] = a;
            ops[1] = b;
            while (true) {
                auto bad = play(ops);
                if (! bad.empty()) {
                    ctx.fail(id, name(ops) + ": " + bad);
                    break;
                }
                int i = depth - 1;
                while (i >= 2 && ++ops[i] == int(n))
                    ops[i--] = 0;
                if (i < 2)
                    break;
            }
            ctx.sample(id + " and every continuation to depth " + to_string(depth));
        }
    // The vector form, as the constraints use it.
    if (ctx.begin("vector")) {
        gcs::VectorArrayParam<int> a{1, 2, 3};
        vector<int> v{1, 2, 3};
        gcs::VectorArrayParam<int> b{v}, c{&v}, d{std::make_shared<const vector<int>>(v)}, e{vector<int>{}};
        v.push_back(4);
        if (*a != vector<int>{1, 2, 3} || *b != vector<int>{1, 2, 3} || *c != v || d->size() != 3 || ! e->empty())
            ctx.fail("vector", "contents");
        ctx.count("histories");
    }
    ctx.finish();
}
