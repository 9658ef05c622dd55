// Stand-in for gharveymn/small_vector (not available offline): same container
// interface as far as the solver uses it, backed by std::vector.
#ifndef VERIF_SHIM_GCH_SMALL_VECTOR_HPP
#define VERIF_SHIM_GCH_SMALL_VECTOR_HPP
#include <cstddef>
#include <vector>
namespace gch
{
    template <typename T_, unsigned N_ = 4>
    class small_vector : public std::vector<T_>
    {
    public:
        using std::vector<T_>::vector;
        small_vector() = default;
        small_vector(const small_vector &) = default;
        small_vector(small_vector &&) = default;
        auto operator=(const small_vector &) -> small_vector & = default;
        auto operator=(small_vector &&) -> small_vector & = default;
        ~small_vector() = default;
    };
}
#endif
