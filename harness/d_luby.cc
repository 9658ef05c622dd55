// P28: the restart schedule.
#include "drv.hh"
#include <gcs/restarts.hh>
#include <memory>
using gcs::RestartSchedule;
using std::string;
using std::to_string;
using std::vector;
using ull = unsigned long long;

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    // The sequence by its defining recursion on whole blocks:
    // S(1) = 1, S(k+1) = S(k) S(k) 2^k.
    vector<ull> luby{1};
    int levels = ctx.thorough ? 22 : 18;
    for (int k = 1; k < levels; ++k) {
        auto n = luby.size();
        luby.reserve(2 * n + 1);
        for (size_t i = 0; i < n; ++i)
            luby.push_back(luby[i]);
        luby.push_back(1ull << k);
    }
    vector<ull> scales;
    for (ull s = 1; s <= 40; ++s)
        scales.push_back(s);
    for (ull s : {99, 100, 101, 250, 1000, 65537, 1000003})
        scales.push_back(s);
    scales.push_back(1ull << 31);
    scales.push_back((1ull << 40) + 1);
    for (auto s : scales) {
        auto id = "scale/" + to_string(s);
        if (! ctx.begin(id))
            continue;
        auto r = RestartSchedule::luby(s);
        for (size_t i = 0; i < luby.size(); ++i) {
            ctx.count("terms");
            if (r.current_cutoff() != luby[i] * s || (i % 7 == 0 && r.current_cutoff() != luby[i] * s)) {
                ctx.fail(id, "cutoff " + to_string(i + 1) + " is " + to_string(r.current_cutoff()) + ", not " + to_string(luby[i] * s));
                break;
            }
            r.advance();
        }
        ctx.sample(id + ": " + to_string(luby.size()) + " terms");
    }
    if (ctx.begin("default")) {
        auto r = RestartSchedule::luby();
        for (size_t i = 0; i < 1000; ++i, r.advance())
            if (r.current_cutoff() != 100 * luby[i])
                ctx.fail("default", "cutoff " + to_string(i + 1));
    }
    // Every history of reads, advances, copies, moves and assignments over two
    // handles, against a pair of plain counters.
    int depth = ctx.thorough ? 9 : 8;
    constexpr int n_ops = 9;
    for (int first = 0; first < n_ops; ++first)
        for (int second = 0; second < n_ops; ++second) {
            auto name = "history/" + to_string(first) + to_string(second);
            if (! ctx.begin(name))
                continue;
            vector<int> ops{first, second};
            auto run = [&](auto & self, RestartSchedule a, RestartSchedule b, size_t ia, size_t ib, ull sa, ull sb, size_t at) -> void {
                auto step = [&](int op) {
                    RestartSchedule x = a, y = b;
                    size_t jx = ia, jy = ib;
                    ull tx = sa, ty = sb;
                    switch (op) {
                    case 0: x.advance(); ++jx; break;
                    case 1: y.advance(); ++jy; break;
                    case 2: (void) x.current_cutoff(); break;
                    case 3: (void) y.current_cutoff(); break;
                    case 4: x = y; jx = jy; tx = ty; break;
                    case 5: y = x; jy = jx; ty = tx; break;
                    case 6: std::swap(x, y); std::swap(jx, jy); std::swap(tx, ty); break;
                    case 7: { auto z = std::make_unique<RestartSchedule>(std::move(x)); z->advance(); x = RestartSchedule::luby(2); jx = 0; tx = 2; y = *z; jy = ia + 1; ty = sa; break; }
                    default: { const auto c = x; y.advance(); ++jy; x = c; }
                    }
                    ctx.count("histories");
                    if (x.current_cutoff() != luby[jx] * tx || y.current_cutoff() != luby[jy] * ty) {
                        string h;
                        for (size_t i = 0; i <= at && i < ops.size(); ++i)
                            h += to_string(ops[i]);
                        ctx.fail(name, "after " + h + ": " + to_string(x.current_cutoff()) + "," + to_string(y.current_cutoff()));
                    }
                    self(self, x, y, jx, jy, tx, ty, at + 1);
                };
                if (at >= size_t(depth) - 3 + 0 && at >= 2 && at == size_t(depth) - 2)
                    return;
                if (at < 2)
                    step(ops[at]);
                else
                    for (int op = 0; op < n_ops; ++op) {
                        ops.resize(at);
                        ops.push_back(op);
                        step(op);
                    }
            };
            run(run, RestartSchedule::luby(1), RestartSchedule::luby(3), 0, 0, 1, 3, 0);
        }
    ctx.finish();
}
