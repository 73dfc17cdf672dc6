#pragma once
// Stub: boost's parallel sort (threads) replaced by std::sort.
#include <algorithm>
namespace boost { namespace sort {
template<class I, class C> void block_indirect_sort(I a, I b, C c) { std::sort(a, b, c); }
template<class I> void block_indirect_sort(I a, I b) { std::sort(a, b); }
}}
