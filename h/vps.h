// vps.h - controlled scheduling: drop-in stand-ins for the std threading primitives used by nntl/interface/threads.
// Exactly one registered thread runs at a time; at every primitive operation the generator picks who goes on, so an
// interleaving is an ordinary generated (and shrinkable, replayable) input. Deadlocks and starvation are detected.
#pragma once
#include <thread>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <atomic>
#include <chrono>
#include <vector>
#include <functional>
#include <algorithm>
#include "vp.h"
extern int vp_hwc;
namespace vps {
struct Th { int id; int st = 0; /*0 runnable 1 blocked 2 finished*/ std::function<bool()> ready; bool timed = false, timedout = false; const char* what = ""; int prio = 0; };
struct Sched {
	std::mutex m; std::condition_variable cv; std::vector<Th*> ts; int cur = -1; bool on = false; vp::Gen* g = nullptr; long steps = 0, limit = 60000, switches = 0; int strat = 0; long vtime = 0; std::vector<long> chg; int lowprio = 0; bool timeouts_only_when_idle = false;
	void die(const std::string& s) { if (g && g->slot) { snprintf(g->slot->msg, vp::MSGLEN, "%s", s.c_str()); } fprintf(stderr, "ERROR: %s\n", s.c_str()); fflush(stderr); _exit(77); }
};
inline Sched& S() { static Sched s; return s; }
inline Th*& self() { static thread_local Th* t = nullptr; return t; }
inline bool active() { return S().on && self() != nullptr; }
inline std::string dump() { std::string o; for (auto* t : S().ts) o += " [thread " + std::to_string(t->id) + (t->st == 2 ? " finished" : t->st == 1 ? std::string(" blocked in ") + t->what : std::string(" runnable")) + "]"; return o; }
// pick and hand over the token; the caller must already have updated its own state
inline void pick(bool voluntary) {
	auto& s = S(); Th* me = self();
	if (++s.steps > s.limit) s.die("no progress within " + std::to_string(s.limit) + " scheduling steps:" + dump());
	std::vector<Th*> r, timed;
	for (auto* t : s.ts) { if (t->st == 2) continue; if (t->st == 1) { if (t->ready && t->ready()) { r.push_back(t); continue; } if (t->timed) timed.push_back(t); continue; } r.push_back(t); }
	Th* nx = nullptr;
	auto take_timed = [&] { nx = timed[s.g->raw(timed.size())]; nx->timedout = true; s.vtime += 1 + (long)s.g->raw(3); };
	if (r.empty()) { if (timed.empty()) s.die("deadlock: no thread can run:" + dump()); take_timed(); s.vtime += 20; }
	else if (!timed.empty() && s.g->raw(8) == 7) { take_timed(); s.vtime += (long)s.g->raw(20); }
	else {
		auto it = std::find(r.begin(), r.end(), me); bool mine = it != r.end(); if (mine) std::iter_swap(r.begin(), it);
		size_t k = 0;
		if (r.size() > 1) {
			if (s.strat == 2) { for (long c : s.chg) if (c == s.steps && me) me->prio = --s.lowprio; k = 0; for (size_t i = 1; i < r.size(); i++) if (r[i]->prio > r[k]->prio) k = i; }
			else if (s.strat == 1 && mine && voluntary) k = s.g->raw(8) >= 7 ? 1 + s.g->raw(r.size() - 1) : 0;
			else k = s.g->raw(r.size());
		}
		nx = r[k];
	}
	if (nx != me) s.switches++;
	nx->st = 0; nx->ready = nullptr;
	std::unique_lock<std::mutex> lk(s.m); s.cur = nx->id; s.cv.notify_all();
	if (me && me->st != 2) s.cv.wait(lk, [&] { return s.cur == me->id; });
}
inline void yield() { if (active()) pick(true); }
// block until pred holds (evaluated by whoever schedules); returns false on a simulated timeout
inline bool block(std::function<bool()> pred, const char* what, bool timed = false) {
	Th* me = self(); me->st = 1; me->ready = std::move(pred); me->timed = timed; me->timedout = false; me->what = what; pick(false); me->timed = false; return !me->timedout;
}
struct Session { // registers the calling thread as the first one
	Th t; Session(vp::Gen& g, int strat, long limit) { auto& s = S(); s.ts.clear(); t.id = 0; s.ts.push_back(&t); s.cur = 0; s.g = &g; s.steps = s.switches = 0; s.limit = limit; s.strat = strat; s.vtime = 0; s.lowprio = 0; s.chg.clear(); if (strat == 2) { t.prio = (int)g.raw(100); for (int i = 0; i < 4; i++) s.chg.push_back((long)g.raw(300)); } self() = &t; s.on = true; }
	~Session() { S().on = false; self() = nullptr; } };
struct thread {
	std::thread t; Th* h = nullptr; typedef std::thread::native_handle_type native_handle_type; typedef std::thread::id id;
	thread() noexcept {} thread(thread&& o) noexcept : t(std::move(o.t)), h(o.h) { o.h = nullptr; } thread& operator=(thread&& o) noexcept { t = std::move(o.t); h = o.h; o.h = nullptr; return *this; }
	template<class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, thread>::value>> explicit thread(F&& f, A&&... a) {
		auto& s = S(); h = new Th; h->id = (int)s.ts.size(); if (s.strat == 2) h->prio = (int)s.g->raw(100); s.ts.push_back(h);
		auto fn = std::bind(std::forward<F>(f), std::forward<A>(a)...); Th* hh = h;
		t = std::thread([hh, fn]() mutable { auto& s = S(); { std::unique_lock<std::mutex> lk(s.m); s.cv.wait(lk, [&] { return s.cur == hh->id; }); } self() = hh; fn(); hh->st = 2; pick(false); });
		yield();
	}
	bool joinable() const noexcept { return t.joinable(); }
	void join() { Th* hh = h; if (active() && hh) { yield(); if (hh->st != 2) block([hh] { return hh->st == 2; }, "join"); } t.join(); }
	void detach() { t.detach(); }
	native_handle_type native_handle() { return t.native_handle(); }
	static unsigned hardware_concurrency() noexcept { return (unsigned)vp_hwc; }
};
struct shared_mutex {
	int owner = -1, readers = 0; 
	void lock() { if (!active()) return; yield(); if (owner >= 0 || readers) block([this] { return owner < 0 && readers == 0; }, "lock"); owner = self()->id; }
	bool try_lock() { if (!active()) return true; yield(); if (owner >= 0 || readers) return false; owner = self()->id; return true; }
	void unlock() { if (!active()) return; if (owner != self()->id) S().die("unlock of a mutex that is not held"); owner = -1; yield(); }
	void lock_shared() { if (!active()) return; yield(); if (owner >= 0) block([this] { return owner < 0; }, "lock_shared"); readers++; }
	bool try_lock_shared() { if (!active()) return true; yield(); if (owner >= 0) return false; readers++; return true; }
	void unlock_shared() { if (!active()) return; if (readers <= 0) S().die("unlock_shared of a mutex that is not held"); readers--; yield(); }
};
struct mutex { shared_mutex m; void lock() { m.lock(); } bool try_lock() { return m.try_lock(); } void unlock() { m.unlock(); } };
struct recursive_mutex { shared_mutex m; int n = 0; void lock() { if (active() && m.owner == self()->id) { n++; return; } m.lock(); n = 1; } void unlock() { if (--n == 0) m.unlock(); } };
struct cv_any {
	struct W { bool sig = false; }; std::vector<W*> q;
	// release the lock and start waiting atomically, as the standard requires; rare spurious wakeups are part of the model
	static void quiet(mutex& m, bool) { m.m.owner = -1; } static void quiet(shared_mutex& m, bool sh) { if (sh) m.readers--; else m.owner = -1; }
	template<class M> bool waitu(std::unique_lock<M>& l, bool timed) { M* m = l.mutex(); W w; q.push_back(&w); quiet(*m, false); bool sp = S().g->raw(64) == 63; bool ok = block([&w, sp] { return w.sig || sp; }, timed ? "wait_for" : "wait", timed); q.erase(std::remove(q.begin(), q.end(), &w), q.end()); m->lock(); return ok; }
	template<class M> bool waits(std::shared_lock<M>& l, bool timed) { M* m = l.mutex(); W w; q.push_back(&w); quiet(*m, true); bool sp = S().g->raw(64) == 63; bool ok = block([&w, sp] { return w.sig || sp; }, timed ? "wait_for" : "wait", timed); q.erase(std::remove(q.begin(), q.end(), &w), q.end()); m->lock_shared(); return ok; }
	template<class M> void wait(std::unique_lock<M>& l) { if (!active()) return; yield(); waitu(l, false); }
	template<class M> void wait(std::shared_lock<M>& l) { if (!active()) return; yield(); waits(l, false); }
	template<class M, class P> void wait(std::unique_lock<M>& l, P p) { if (!active()) return; while (!p()) { yield(); waitu(l, false); } }
	template<class M, class P> void wait(std::shared_lock<M>& l, P p) { if (!active()) return; while (!p()) { yield(); waits(l, false); } }
	template<class M, class D, class P> bool wait_for(std::unique_lock<M>& l, const D&, P p) { if (!active()) return p(); while (!p()) { yield(); if (!waitu(l, true)) return p(); } return true; }
	template<class M, class D, class P> bool wait_for(std::shared_lock<M>& l, const D&, P p) { if (!active()) return p(); while (!p()) { yield(); if (!waits(l, true)) return p(); } return true; }
	void notify_one() noexcept { if (!active()) return; yield(); std::vector<W*> w; for (auto* x : q) if (!x->sig) w.push_back(x); if (!w.empty()) w[S().g->raw(w.size())]->sig = true; }
	void notify_all() noexcept { if (!active()) return; yield(); for (auto* x : q) x->sig = true; }
};
typedef cv_any condition_variable; typedef cv_any condition_variable_any;
template<class T> struct atomic { T v; atomic() noexcept : v() {} atomic(T x) noexcept : v(x) {} atomic(const atomic&) = delete; atomic& operator=(const atomic&) = delete;
	T load(std::memory_order = std::memory_order_seq_cst) const noexcept { yield(); return v; } void store(T x, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); v = x; }
	operator T() const noexcept { return load(); } T operator=(T x) noexcept { store(x); return x; }
	T exchange(T x, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); T o = v; v = x; return o; }
	T fetch_add(T x, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); T o = v; v += x; return o; } T fetch_sub(T x, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); T o = v; v -= x; return o; }
	T operator++() noexcept { return fetch_add(1) + 1; } T operator--() noexcept { return fetch_sub(1) - 1; } T operator++(int) noexcept { return fetch_add(1); } T operator--(int) noexcept { return fetch_sub(1); } T operator+=(T x) noexcept { return fetch_add(x) + x; } T operator-=(T x) noexcept { return fetch_sub(x) - x; }
	bool compare_exchange_strong(T& e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); if (v == e) { v = x; return true; } e = v; return false; } bool compare_exchange_weak(T& e, T x, std::memory_order a = std::memory_order_seq_cst, std::memory_order b = std::memory_order_seq_cst) noexcept { return compare_exchange_strong(e, x); } };
typedef atomic<ptrdiff_t> atomic_ptrdiff_t; typedef atomic<bool> atomic_bool; typedef atomic<int> atomic_int; typedef atomic<unsigned> atomic_uint; typedef atomic<size_t> atomic_size_t; typedef atomic<long> atomic_long;
struct steady_clock { typedef std::chrono::steady_clock::duration duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<steady_clock> time_point; static constexpr bool is_steady = true;
	static time_point now() noexcept { return time_point(std::chrono::milliseconds(S().vtime)); } };
namespace this_thread { inline void yield() noexcept { vps::yield(); } template<class D> inline void sleep_for(const D&) { vps::yield(); } }
}
