// The library draws field elements through NTL::RandomBnd(long).  Harnesses that include this header
// own that function, so that random draws become choices of the explorer: while `script` is non-empty
// its values are served in order (reduced modulo the bound), afterwards a fixed deterministic stream.
#ifndef RND_H
#define RND_H
#include "ref.h"
namespace rnd {
inline std::vector<long>& script() { static std::vector<long> v; return v; }
inline size_t& at() { static size_t k = 0; return k; }
inline uint64_t& stream() { static uint64_t s = 1; return s; }
inline long& served() { static long k = 0; return k; }
inline void reset(const std::vector<long>& v = std::vector<long>(), uint64_t s = 1) { script() = v; at() = 0; stream() = s * 0x9e3779b97f4a7c15ULL + 1; served() = 0; }
}
namespace NTL {
long RandomBnd(long bnd)
{
    rnd::served()++;
    if (bnd <= 1) return 0;
    if (rnd::at() < rnd::script().size()) return rnd::script()[rnd::at()++] % bnd;
    rnd::stream() = mc::mix(rnd::stream(), 0x51);
    return (long) (rnd::stream() % (uint64_t) bnd);
}
}
#endif
