// alloc.h - injected allocation failures: the library's own allocator call and non-throwing new ask here first
#pragma once
#include "nntl_port.h"
namespace al {
inline bool on = false, persist = false, thr = false; inline long cnt = 0, at = 0, fired = 0, live = 0;
inline bool fail() { if (!on) return false; ++cnt; if (at > 0 && (cnt == at || (persist && cnt > at))) { ++fired; return true; } return false; }
inline void* get(size_t n, size_t a) { if (fail()) return nullptr; void* p = _mm_malloc(n, a); if (p) ++live; return p; }
inline void* mget(size_t n) { return fail() ? nullptr : malloc(n); }
inline void put(void* p) { if (p) { --live; _mm_free(p); } }
// run F with the k-th allocation (and all later ones when all is set) failing; k = 0: count only. t: throwing operator new takes part too
template<class F> static long run(long k, bool all, F&& f, bool t = false) { on = true; persist = all; thr = t; cnt = fired = 0; at = k; struct Off { ~Off() { on = thr = false; } } o; f(); return cnt; }
}
namespace al { struct Pause { bool o = thr; Pause() { thr = false; } ~Pause() { thr = o; } }; } // the harness's thread pool
#define VP_HARNESS_ALLOC ::al::Pause vp_pause_
#undef _aligned_malloc
#undef _aligned_free
#define _aligned_malloc ::al::get
#define _aligned_free ::al::put
