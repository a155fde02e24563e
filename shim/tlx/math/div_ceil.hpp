#pragma once
#include <type_traits>
namespace tlx {
template <typename N, typename K>
static inline constexpr auto div_ceil(const N& n, const K& k)->decltype(n + k) {
    return (n + k - 1) / k;
}
}  // namespace tlx
