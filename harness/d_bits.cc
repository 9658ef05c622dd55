// P25: bit encodings represent exactly what a domain needs.
#include "drv.hh"
#include <gcs/exception.hh>
#include <gcs/innards/proofs/bits_encoding.hh>
#include <algorithm>
#include <climits>
#include <optional>
using namespace gcs;
using namespace gcs::innards;
using std::string;
using std::to_string;
using std::vector;
using wide = __int128;

int main(int argc, char ** argv)
{
    auto ctx = drv::start(argc, argv);
    auto one = [&](const string & id, long long lo, long long hi) {
        // The least number of magnitude bits that covers the domain.
        int k = 0;
        while ((lo < 0 && -(wide(1) << k) > lo) || hi > (wide(1) << k) - 1)
            ++k;
        bool want_fits = (lo < 0 ? k : k - 1) <= 62;
        ctx.count("bound_pairs");
        auto what = "[" + to_string(lo) + "," + to_string(hi) + "]";
        if (bits_encoding_fits(Integer{lo}, Integer{hi}) != want_fits)
            ctx.fail(id, what + (want_fits ? " is declared unrepresentable" : " is declared representable"));
        std::optional<std::tuple<Integer, Integer, Integer>> e;
        try {
            e = get_bits_encoding_coeffs(Integer{lo}, Integer{hi});
        }
        catch (const MessageException &) {
        }
        if (e.has_value() != want_fits) {
            ctx.fail(id, what + (want_fits ? " is refused an encoding" : " is given an encoding that cannot exist"));
            return;
        }
        if (! e)
            return;
        auto [shift, top, neg] = *e;
        if (shift.raw_value != k - 1 || wide(top.raw_value) != (k ? wide(1) << (k - 1) : 0) || wide(neg.raw_value) != (lo < 0 ? -(wide(1) << k) : 0))
            ctx.fail(id, what + " is encoded with shift " + shift.to_string() + ", top " + top.to_string() + ", sign " + neg.to_string() + "; it needs " + to_string(k) + " magnitude bits");
        // Small ones: run through every setting of the bits.
        if (k <= 8) {
            std::map<long long, int> ways;
            auto n = shift.raw_value + 1;
            for (long long bits = 0; bits < (1ll << n); ++bits)
                for (int sign = 0; sign <= (neg.raw_value ? 1 : 0); ++sign) {
                    long long v = sign ? neg.raw_value : 0;
                    for (long long i = 0; i < n; ++i)
                        if (bits >> i & 1)
                            v += i == n - 1 ? top.raw_value : 1ll << i;
                    ++ways[v];
                    ctx.count("bit_patterns");
                }
            for (auto & [v, w] : ways)
                if (w != 1)
                    ctx.fail(id, what + ": " + to_string(v) + " has " + to_string(w) + " encodings");
            for (long long v = lo; v <= hi; ++v)
                if (! ways.contains(v))
                    ctx.fail(id, what + ": " + to_string(v) + " has no encoding");
        }
    };
    int n = ctx.thorough ? 300 : 140;
    for (int lo = -n; lo <= n; ++lo)
        if (ctx.begin("small/" + to_string(lo))) {
            for (int hi = lo; hi <= n; ++hi)
                one("small/" + to_string(lo), lo, hi);
            ctx.sample("small/" + to_string(lo) + ".." + to_string(n));
        }
    vector<long long> vs{0};
    for (int k = 0; k < 63; ++k)
        for (int d = -2; d <= 2; ++d) {
            vs.push_back((1ll << k) + d);
            vs.push_back(-(1ll << k) + d);
        }
    for (int d = 0; d < 4; ++d) {
        vs.push_back(LLONG_MAX - d);
        vs.push_back(LLONG_MIN + d);
    }
    std::sort(vs.begin(), vs.end());
    vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    for (auto lo : vs)
        if (ctx.begin("wide/" + to_string(lo)))
            for (auto hi : vs)
                if (lo <= hi)
                    one("wide/" + to_string(lo), lo, hi);
    ctx.finish();
}
