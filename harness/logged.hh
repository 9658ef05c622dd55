// One solve with proof logging, and what the files it wrote say.
#ifndef VERIF_LOGGED_HH
#define VERIF_LOGGED_HH
#include "core.hh"
#include "pb.hh"
#include <algorithm>
#include <fstream>
#include <sstream>

namespace vc
{
    using namespace gcs;
    inline auto slurp(const std::string & f) -> std::string
    {
        std::ifstream s(f, std::ios::binary);
        if (! s)
            throw std::runtime_error("cannot read " + f);
        std::stringstream b;
        b << s.rdbuf();
        return b.str();
    }
    // The bits of a named variable: weight and PB variable.
    struct Bits
    {
        std::vector<std::pair<Val, int>> bits;
        auto lo() const -> Val
        {
            Val r = 0;
            for (auto & [w, v] : bits)
                r += std::min(w, Val{0});
            return r;
        }
        auto hi() const -> Val
        {
            Val r = 0;
            for (auto & [w, v] : bits)
                r += std::max(w, Val{0});
            return r;
        }
        // literals making the sum v
        auto literals(Val v) const -> std::vector<int>
        {
            std::vector<int> r;
            unsigned long long u = static_cast<unsigned long long>(v);
            for (auto & [w, x] : bits) {
                bool on = w < 0 ? v < 0 : (u & static_cast<unsigned long long>(w)) != 0;
                r.push_back(2 * x + (on ? 0 : 1));
            }
            return r;
        }
        template <typename F_>
        auto value(F_ && is_true) const -> Val
        {
            Val r = 0;
            for (auto & [w, x] : bits)
                if (is_true(x))
                    r += w;
            return r;
        }
    };
    inline auto bits_of(const pb::Checker & k, const std::string & name) -> Bits
    {
        Bits r;
        Val w = 1;
        for (int i = 0; i < 62; ++i, w *= 2) {
            auto v = k.find("i[" + name + "][b" + std::to_string(i) + "]");
            if (v < 0)
                break;
            r.bits.emplace_back(w, v);
        }
        if (auto s = k.find("i[" + name + "][sign]"); s >= 0)
            r.bits.emplace_back(-w, s);
        return r;
    }
}
#endif
