// Driver framework: sharding, the record of the case being run (so that a crash
// or a hang can be attributed to it), violation reports and measured counters.
// Independent of the library, so that the unit drivers can use it too.
#ifndef VERIF_DRV_HH
#define VERIF_DRV_HH
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace drv
{
    inline auto json(const std::string & s) -> std::string
    {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += char(c);
            }
            else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else
                r += char(c);
        }
        return r + "\"";
    }

    struct Ctx
    {
        std::string mode;
        bool thorough = false;
        unsigned long seed = 1;
        size_t shard = 0, shards = 1;
        std::string only, out, cur_path, scratch;
        char * cur = nullptr;
        std::string begun;
        size_t counter = 0;
        int limit_s = 30;
        std::map<std::string, long long> counts;
        std::vector<std::string> samples;
        std::vector<std::pair<std::string, std::string>> violations;
        std::map<std::string, int> per_group;
        FILE * outf = nullptr;

        // True if this shard should run the case; records it as the current one.
        auto begin(const std::string & id) -> bool
        {
            if (! only.empty()) {
                if (id != only)
                    return false;
            }
            else if (counter++ % shards != shard)
                return false;
            begun = id;
            set_current(id);
            return true;
        }
        // The same, but every shard sees every case (for cases that are cheap to make).
        auto set_current(const std::string & id) -> void
        {
            if (cur) {
                strncpy(cur, id.c_str(), 4000);
                cur[4000] = 0;
            }
            arm();
        }
        auto arm() -> void
        {
            itimerval t{};
            t.it_value.tv_sec = limit_s;
            setitimer(ITIMER_REAL, &t, nullptr);
        }
        auto count(const std::string & what, long long n = 1) -> void { counts[what] += n; }
        auto sample(const std::string & s, size_t cap = 3) -> void
        {
            if (samples.size() < cap)
                samples.push_back(s);
        }
        // A violation is reported under the name of the case that was begun, so that it can be run again.
        auto fail(const std::string & what, const std::string & why) -> void
        {
            counts["violating_cases"]++;
            auto & id = begun.empty() ? what : begun;
            auto detail = id == what ? why : what + ": " + why;
            auto g = id.substr(0, id.find('/'));
            if (per_group[g]++ < 4 && violations.size() < 40) {
                violations.emplace_back(id, detail);
                fprintf(outf, "{\"violation\":%s,\"detail\":%s}\n", json(id).c_str(), json(detail).c_str());
                fflush(outf);
            }
        }
        auto enough() const -> bool { return violations.size() >= 40; }
        auto finish() -> void
        {
            itimerval t{};
            setitimer(ITIMER_REAL, &t, nullptr);
            std::string s = "{\"done\":true,\"counts\":{";
            bool first = true;
            for (auto & [k, v] : counts) {
                s += (first ? "" : ",") + json(k) + ":" + std::to_string(v);
                first = false;
            }
            s += "},\"samples\":[";
            first = true;
            for (auto & x : samples) {
                s += (first ? "" : ",") + json(x);
                first = false;
            }
            s += "]}\n";
            fputs(s.c_str(), outf);
            fflush(outf);
        }
    };

    inline auto start(int argc, char ** argv) -> Ctx
    {
        Ctx c;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--mode") c.mode = next();
            else if (a == "--tier") c.thorough = next() == "thorough";
            else if (a == "--seed") c.seed = std::stoul(next());
            else if (a == "--shard") {
                auto s = next();
                c.shard = std::stoul(s);
                c.shards = std::stoul(s.substr(s.find('/') + 1));
            }
            else if (a == "--only") c.only = next();
            else if (a == "--out") c.out = next();
            else if (a == "--cur") c.cur_path = next();
            else if (a == "--scratch") c.scratch = next();
            else if (a == "--limit") c.limit_s = std::stoi(next());
        }
        c.outf = c.out.empty() ? stdout : fopen(c.out.c_str(), "w");
        if (! c.cur_path.empty()) {
            int fd = open(c.cur_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) {
                void * m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED)
                    c.cur = static_cast<char *>(m);
            }
            close(fd);
        }
        rlimit r{6ull << 30, 6ull << 30};
        setrlimit(RLIMIT_AS, &r);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        return c;
    }
}
#endif
