// Replaces the vector width detection of the library (its symbol is weakened in the linked archive):
// each process explores one width, given by MC_SIMD.
#pragma once
#include <cstddef>
#include <cstdlib>
namespace unicode::detail
{
std::size_t max_simd_size()
{
    char const* w = getenv("MC_SIMD");
    return w ? std::size_t(atoi(w)) : 128;
}
} // namespace unicode::detail
namespace mc
{
inline bool simdUsable()
{
    __builtin_cpu_init();
    auto w = unicode::detail::max_simd_size();
    if (w == 512)
        return __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw");
    if (w == 256)
        return __builtin_cpu_supports("avx2");
    return true;
}
} // namespace mc
