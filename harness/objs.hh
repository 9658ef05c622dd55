// Objectives over the palette variables: plain, viewed, constant, derived.
#ifndef VERIF_OBJS_HH
#define VERIF_OBJS_HH
#include "core.hh"

namespace vc
{
    using namespace gcs;
    struct Objective
    {
        std::string name;
        std::function<IntegerVariableID(Problem &, const Vars &)> make;
        std::function<Val(const Vals &)> value;
    };
    // A derived objective is an extra variable tied by a linear equation.
    inline auto derived(Problem & p, const Vars & x, const Vals & w, Val lo, Val hi) -> IntegerVariableID
    {
        auto z = p.create_integer_variable(Integer{lo}, Integer{hi}, "obj");
        WeightedSum s;
        for (size_t i = 0; i < x.size(); ++i)
            s += Integer{w[i]} * x[i];
        s += Integer{-1} * z;
        p.post(s == Integer{0});
        return z;
    }
    inline auto objectives() -> std::vector<Objective>
    {
        std::vector<Objective> r;
        for (size_t i = 0; i < 4; ++i) {
            r.push_back({"x" + std::to_string(i), [i](Problem &, const Vars & x) { return x[i]; }, [i](const Vals & v) { return v[i]; }});
            r.push_back({"-x" + std::to_string(i) + "+2", [i](Problem &, const Vars & x) { return -x[i] + Integer{2}; }, [i](const Vals & v) { return 2 - v[i]; }});
            r.push_back({"x" + std::to_string(i) + "-3", [i](Problem &, const Vars & x) { return x[i] - Integer{3}; }, [i](const Vals & v) { return v[i] - 3; }});
        }
        r.push_back({"const", [](Problem &, const Vars &) -> IntegerVariableID { return ConstantIntegerVariableID{Integer{4}}; }, [](const Vals &) { return 4; }});
        r.push_back({"sum", [](Problem & p, const Vars & x) { return derived(p, x, {1, 2, -1, 3}, -40, 60); }, [](const Vals & v) { return v[0] + 2 * v[1] - v[2] + 3 * v[3]; }});
        r.push_back({"-sum", [](Problem & p, const Vars & x) { return -derived(p, x, {3, -1, 1, 1}, -40, 60); }, [](const Vals & v) { return -(3 * v[0] - v[1] + v[2] + v[3]); }});
        return r;
    }
}
#endif
