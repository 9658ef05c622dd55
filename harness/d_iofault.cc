// P17: when the model or the proof cannot be written completely, solving says so.
//
// The calls that hand bytes to the kernel are replaced here: a plan names one
// output file, the number of bytes the device takes for it, and what happens
// after that. Every offset of every output file is a plan.
#include "drv.hh"
#include "logged.hh"
#include "objs.hh"
#include "prob.hh"
#include "strat.hh"
#include <cerrno>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace vc;
using namespace gcs;
using std::string; using std::to_string; using std::vector;

namespace
{
    struct Plan
    {
        bool on = false;
        dev_t dev = 0;
        ino_t ino = 0;
        string path;
        long long budget = 0; // bytes taken in all
        int err = ENOSPC;
        bool once = false;       // the device recovers after refusing once
        bool trickle = false;    // never more than three bytes a call, but no failure
        bool interrupts = false; // every other call is interrupted first
        bool record = false;
        vector<size_t> calls; // sizes seen
        long long taken = 0;
        long long refused = 0;
        bool flip = false;
    } plan;

    auto is_target(int fd) -> bool
    {
        if (! plan.on)
            return false;
        struct stat a, b;
        if (fstat(fd, &a) != 0 || ! S_ISREG(a.st_mode) || stat(plan.path.c_str(), &b) != 0)
            return false;
        return a.st_dev == b.st_dev && a.st_ino == b.st_ino;
    }
    // How many of n bytes go through, or -1 with errno set.
    auto allow(size_t n) -> long long
    {
        if (plan.record) {
            plan.calls.push_back(n);
            return static_cast<long long>(n);
        }
        if (plan.interrupts) {
            plan.flip = ! plan.flip;
            if (plan.flip) {
                errno = EINTR;
                return -1;
            }
        }
        if (plan.trickle)
            return static_cast<long long>(std::min<size_t>(n, 3));
        auto room = plan.budget - plan.taken;
        if (room <= 0 && n > 0) {
            if (plan.once && plan.refused)
                return static_cast<long long>(n);
            ++plan.refused;
            errno = plan.err;
            return -1;
        }
        return std::min<long long>(room, static_cast<long long>(n));
    }
}

extern "C" auto write(int fd, const void * p, size_t n) -> ssize_t
{
    if (! is_target(fd))
        return syscall(SYS_write, fd, p, n);
    auto k = allow(n);
    if (k < 0)
        return -1;
    auto r = syscall(SYS_write, fd, p, static_cast<size_t>(k));
    if (r > 0)
        plan.taken += r;
    return r;
}

extern "C" auto writev(int fd, const iovec * v, int c) -> ssize_t
{
    if (! is_target(fd))
        return syscall(SYS_writev, fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; ++i)
        n += v[i].iov_len;
    auto k = allow(n);
    if (k < 0)
        return -1;
    ssize_t done = 0;
    for (int i = 0; i < c && k > 0; ++i) {
        auto m = std::min<size_t>(v[i].iov_len, static_cast<size_t>(k));
        auto r = syscall(SYS_write, fd, v[i].iov_base, m);
        if (r < 0)
            return done ? done : -1;
        done += r;
        k -= r;
    }
    plan.taken += done;
    return done;
}

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    if (ctx.limit_s < 120)
        ctx.limit_s = 120;
    string dir = (ctx.scratch.empty() ? string("/tmp") : ctx.scratch) + "/iof" + to_string(getpid());
    mkdir(dir.c_str(), 0700);
    string base = dir + "/p";
    auto fam = getenv("FAM");
    const vector<string> suffixes{".opb", ".pbp", ".varmap", ".scp"};

    struct Job
    {
        string id;
        std::function<Vars(Problem &)> build;
        std::function<void(Problem &, const Vars &)> objective;
        size_t strat = 0;
        int restarts = 0;
        size_t stop_after = 0; // 0: never
        bool abort_at_once = false;
        std::function<void(ProofOptions &)> set = {};
    };
    struct Run
    {
        bool returned = false;
        bool refused = false;
        string error;
        string solutions;
    };
    auto solve = [&](const Job & j, const std::function<void(ProofFileNames &)> & names) {
        Run r;
        ProofFileNames fn{base};
        if (names)
            names(fn);
        ProofOptions o{fn};
        if (j.set)
            j.set(o);
        try {
            Problem p;
            auto x = j.build(p);
            if (j.objective)
                j.objective(p, x);
            SolveCallbacks cb;
            cb.branch = strategy(j.strat, p, x);
            if (j.restarts)
                cb.restarts = RestartSchedule::luby(j.restarts);
            size_t n = 0;
            cb.solution = [&](const CurrentState & s) {
                r.solutions += str(read(s, x));
                return ! (j.stop_after && ++n >= j.stop_after);
            };
            std::atomic<bool> abort_flag{j.abort_at_once};
            auto st = solve_with(p, cb, o, &abort_flag);
            ctx.count("search_nodes", static_cast<long long>(st.recursions));
            r.returned = true;
        }
        catch (const InvalidProblemDefinitionException & e) {
            r.refused = true;
            r.error = e.what();
        }
        catch (const UnimplementedException & e) {
            r.refused = true;
            r.error = e.what();
        }
        catch (const std::exception & e) {
            r.error = string("raised ") + e.what();
        }
        catch (...) {
            r.error = "raised something unknown";
        }
        plan.on = false;
        return r;
    };
    auto clear = [&] {
        for (auto & s : suffixes)
            unlink((base + s).c_str());
    };
    // One job, one output file, one kind of fault: all of its offsets.
    auto sweep = [&](const Job & j, bool every_byte) {
        string ref[4];
        vector<size_t> calls[4];
        bool have_ref = false;
        Run good;
        // The sweep over every byte is dealt out in parts, so that the shards share it.
        vector<string> kinds{"full", "once", "io", "slow", "open"};
        if (every_byte)
            kinds = {"once", "io", "slow", "open", "full0", "full1", "full2", "full3", "full4", "full5", "full6"};
        for (size_t f = 0; f < suffixes.size(); ++f)
            for (string kind : kinds) {
                if (ctx.enough())
                    return;
                auto id = j.id + ">" + suffixes[f].substr(1) + ":" + kind;
                if (! ctx.begin(id))
                    continue;
                if (! have_ref) {
                    clear();
                    for (size_t g = 0; g < suffixes.size(); ++g) {
                        plan = Plan{};
                        plan.on = plan.record = true;
                        plan.path = base + suffixes[g];
                        good = solve(j, {});
                        calls[g] = plan.calls;
                        if (! good.returned)
                            break;
                    }
                    if (good.refused) {
                        ctx.count("refused");
                        clear();
                        return;
                    }
                    if (! good.returned) {
                        ctx.fail(id, "without any fault: " + good.error);
                        clear();
                        return;
                    }
                    for (size_t g = 0; g < suffixes.size(); ++g)
                        ref[g] = slurp(base + suffixes[g]);
                    have_ref = true;
                }
                if (kind == "open") {
                    // The file cannot be created at all: no such directory, a directory is in the way.
                    for (string where : {dir + "/nowhere/p" + suffixes[f], dir}) {
                        clear();
                        plan = Plan{};
                        auto r = solve(j, [&](ProofFileNames & n) {
                            (f == 0 ? n.opb_file : f == 1 ? n.proof_file : f == 2 ? *n.variables_map_file : *n.s_expr_file) = where;
                        });
                        ctx.count("faults");
                        ctx.count("uncreatable");
                        if (r.returned)
                            ctx.fail(id, "the file cannot be created, and solving returns normally");
                    }
                    clear();
                    continue;
                }
                if (kind == "slow") {
                    // Partial writes and interruptions are not faults.
                    for (int way = 0; way < 2; ++way) {
                        if (ref[f].size() > 200000)
                            break;
                        clear();
                        plan = Plan{};
                        plan.on = true;
                        plan.path = base + suffixes[f];
                        plan.trickle = true;
                        plan.interrupts = way;
                        auto r = solve(j, {});
                        ctx.count("harmless");
                        if (! r.returned)
                            ctx.fail(id, "the device takes a few bytes at a time, and solving " + r.error);
                        else if (slurp(base + suffixes[f]) != ref[f])
                            ctx.fail(id, "the device takes a few bytes at a time, and the file is different");
                    }
                    clear();
                    continue;
                }
                // offsets
                std::set<long long> at;
                auto size = static_cast<long long>(ref[f].size());
                if (every_byte && kind.starts_with("full"))
                    for (long long k = kind[4] - '0'; k <= size; k += 7)
                        at.insert(k);
                else {
                    long long from = 0;
                    for (auto c : calls[f]) {
                        for (long long d : {0ll, 1ll, static_cast<long long>(c / 2), static_cast<long long>(c) - 1})
                            at.insert(from + d);
                        from += static_cast<long long>(c);
                    }
                    at.insert(size);
                    if (from != size) {
                        ctx.fail(id, "the file has " + to_string(size) + " bytes, of which " + to_string(from) + " were written");
                        continue;
                    }
                }
                for (auto k : at) {
                    if (k < 0 || k > size)
                        continue;
                    if (k % 256 == 0)
                        ctx.arm();
                    clear();
                    plan = Plan{};
                    plan.on = true;
                    plan.path = base + suffixes[f];
                    plan.budget = k;
                    plan.err = kind == "io" ? EIO : ENOSPC;
                    plan.once = kind == "once";
                    auto r = solve(j, {});
                    ctx.count("faults");
                    auto where = "the device takes " + to_string(k) + " of the " + to_string(size) + " bytes of the " + suffixes[f] + " file, and ";
                    if (k == size) {
                        if (! r.returned)
                            ctx.fail(id, where + "solving " + r.error);
                        else if (plan.refused)
                            ctx.fail(id, where + "more is written");
                        else if (r.solutions != good.solutions)
                            ctx.fail(id, where + "the solutions differ");
                        else
                            for (size_t g = 0; g < suffixes.size(); ++g)
                                if (slurp(base + suffixes[g]) != ref[g])
                                    ctx.fail(id, where + "the " + suffixes[g] + " file differs");
                        ctx.count("complete");
                        continue;
                    }
                    if (r.returned) {
                        ctx.fail(id, where + "solving returns normally");
                        continue;
                    }
                    ctx.count("reported");
                    if (! good.solutions.starts_with(r.solutions))
                        ctx.fail(id, where + "other solutions are reported before the error");
                    if (kind != "once") {
                        auto got = access((base + suffixes[f]).c_str(), R_OK) == 0 ? slurp(base + suffixes[f]) : string{};
                        if (! ref[f].starts_with(got))
                            ctx.fail(id, where + "what is left is not the beginning of the file");
                    }
                }
                if (size > 3000)
                    ctx.sample(id + ": " + to_string(size) + " bytes in " + to_string(calls[f].size()) + " writes");
                clear();
            }
        if (have_ref)
            ctx.count("problems");
        clear();
    };

    auto ns = strategy_count();
    auto objs = objectives();
    auto compose = [&](const Case & c, size_t variant) {
        auto cp = std::make_shared<Case>(c);
        Job j;
        j.id = c.id() + "@" + to_string(variant);
        j.build = [cp](Problem & p) { return cp->build(p); };
        j.strat = variant % 4 == 0 ? 0 : (variant * 7) % ns;
        if (variant % 3 == 1) {
            auto o = variant % objs.size();
            bool mx = variant % 2;
            j.objective = [o, mx, &objs](Problem & p, const Vars & x) {
                auto z = objs[o].make(p, x);
                mx ? p.maximise(z) : p.minimise(z);
            };
        }
        else if (variant % 3 == 2) {
            j.stop_after = 1 + variant % 2;
            j.restarts = variant % 2 ? 1 : 0;
        }
        j.abort_at_once = variant % 11 == 10;
        if (variant % 5 == 1)
            j.set = [](ProofOptions & o) { o.enable_full_encoding(); };
        else if (variant % 5 == 2)
            j.set = [](ProofOptions & o) { o.set_verbose_names(false); };
        else if (variant % 5 == 3)
            j.set = [](ProofOptions & o) { o.set_compact_boolean_encoding(); };
        else if (variant % 5 == 4)
            j.set = [variant](ProofOptions & o) { o.set_assertion_level(AssertionLevel(1 + variant % 4)); };
        return j;
    };
    if (ctx.mode == "bytes") {
        // every byte offset, for one problem per variant of the options
        size_t at = 0;
        each_subset(1, [&](const Case & c) {
            ++at;
            if (at % (ctx.thorough ? 4 : 23) != 1)
                return;
            auto j = compose(c, at / (ctx.thorough ? 4 : 23));
            if (fam && j.id.find(fam) == string::npos)
                return;
            sweep(j, true);
        });
    }
    else if (ctx.mode == "calls") {
        // every write the solver makes, for every family and for compositions
        for (auto & f : families()) {
            size_t at = 0, n = 0;
            f.gen(
                [&](Inst && i) {
                    ++at;
                    if ((at & (at - 1)) != 0 || n > (ctx.thorough ? 24u : 7u))
                        return;
                    for (auto & d : i.doms)
                        if (! d.empty() && d.back() - d.front() > 5000)
                            return;
                    if (i.id.find(fam ? fam : "") == string::npos)
                        return;
                    ++n;
                    auto ip = std::make_shared<Inst>(std::move(i));
                    Job j;
                    j.id = ip->id;
                    j.build = [ip](Problem & p) {
                        auto x = make_vars(p, ip->doms);
                        ip->post(p, x);
                        return x;
                    };
                    sweep(j, false);
                },
                0);
        }
        size_t at = 0;
        each_subset(1, [&](const Case & c) {
            ++at;
            auto j = compose(c, at);
            if (fam && j.id.find(fam) == string::npos)
                return;
            sweep(j, false);
        });
    }
    else if (ctx.mode == "long") {
        // proofs larger than the buffers they go through, so that faults come in mid search
        for (int n = 5; n <= (ctx.thorough ? 9 : 8); ++n)
            for (int kind = 0; kind < 6; ++kind) {
                Job j;
                j.id = "pigeons/" + to_string(n) + "/" + to_string(kind);
                if (fam && j.id.find(fam) == string::npos)
                    continue;
                j.build = [n, kind](Problem & p) {
                    auto x = p.create_integer_variable_vector(size_t(n), 0_i, Integer(n - 2 + (kind == 1 || kind == 4 ? 1 : 0)), "v");
                    for (int a = 0; a < n; ++a)
                        for (int b = a + 1; b < n; ++b)
                            p.post(NotEquals{x[size_t(a)], x[size_t(b)]});
                    return x;
                };
                if (kind == 1 || kind == 4)
                    j.objective = [](Problem & p, const Vars & x) { p.minimise(x[0]); };
                if (kind == 2)
                    j.restarts = 10;
                if (kind == 3)
                    j.set = [](ProofOptions & o) { o.set_verbose_names(false).enable_full_encoding(); };
                if (kind == 5)
                    j.set = [](ProofOptions & o) { o.set_assertion_level(AssertionLevel::Inferences); };
                j.strat = size_t(kind) * 5 % ns;
                sweep(j, false);
            }
    }
    rmdir(dir.c_str());
    ctx.finish();
}
