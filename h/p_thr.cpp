// P07: thread pools. Same histories under a controlled scheduler (VP_SCHED=1, see vps.h) and with real threads (VP_SCHED=0).
#include "vps.h"
#if VP_SCHED
#define nntl nntl_sch
#endif
#include "nntl_port.h"
#include <iostream>
#include <memory>
#include <cassert>
#define STDCOUT(args) ::std::cout << args
#define STDCOUTL(args) STDCOUT(args) << ::std::endl
#include "nntl/math.h"
#include "nntl/interface/threads/workers.h"
#include "nntl/interface/threads/bgworkers.h"
#if VP_SCHED
#define SUF ".sched"
#define PT vps::yield()
#else
#define SUF ".real"
#define PT do { if (spin_) for (volatile int z_ = 0; z_ < spin_; z_++); } while (0)
#endif
static int spin_ = 0;
#define TT(name, w, mn) static void VP_CAT(vpt_,name)(::vp::Gen&); static ::vp::Reg VP_CAT(vpr_,name)(#name SUF, w, mn, VP_CAT(vpt_,name), 30, !VP_SCHED); static void VP_CAT(vpt_,name)(::vp::Gen& g)
namespace {
namespace thr = ::nntl::threads;
typedef thr::Workers<double, long long> Wk;
typedef Wk::par_range_t PR; typedef Wk::reduce_data_t RD; typedef Wk::range_t rng_t;
struct Log { std::atomic<int> err{ 0 }; std::string msg; void fail(const std::string& s) { int z = 0; if (err.compare_exchange_strong(z, 1)) msg = s; } void chk() { if (err) vp::fail(msg); } };
struct Fn { // a copyable functor with state; counts per element, per thread id
	std::vector<std::atomic<int>>* hit; std::vector<std::atomic<int>>* tid; std::atomic<int>* calls; std::atomic<int>* live; Log* log; rng_t cnt; int mode;
	void body(const PR& r) const { if (!*live) log->fail("function called outside of its run()"); calls->fetch_add(1); if ((size_t)r.tid() >= tid->size()) { log->fail("thread id " + std::to_string(r.tid()) + " out of range"); return; } if ((*tid)[(size_t)r.tid()].fetch_add(1)) log->fail("thread id used twice in one call");
		rng_t o = r.offset(), n = r.cnt(); if (n < 0 || o < 0 || o + n > cnt) { log->fail("range out of bounds: " + std::to_string(o) + "+" + std::to_string(n) + " of " + std::to_string(cnt)); return; }
		PT; for (rng_t i = o; i < o + n; i++) { (*hit)[(size_t)i].fetch_add(1); if ((i & 3) == 0) PT; } PT; if (r.offset() != o || r.cnt() != n) log->fail("the range changed while it was being processed"); if (!*live) log->fail("run() returned before a chunk was done"); }
	void operator()(const PR& r) const { body(r); }
};
}
static void exercise(vp::Gen& g, Wk& w, int n, int nops, Log& log) {
	for (int k = 0; k < nops; k++) {
		int op = (int)g.raw(6); if (op == 5 && !g.b(1, 3)) op = (int)g.raw(5); rng_t cnt = (rng_t)g.sz(op == 4 ? 1 : 0, 24); int useN = g.b(1, 3) ? (int)g.z(1, n + 2) : 0;
		std::vector<std::atomic<int>> hit((size_t)cnt + 1), tid((size_t)n + 1); std::atomic<int> calls{ 0 }, live{ 1 }; Fn f{ &hit, &tid, &calls, &live, &log, cnt, 0 };
		if (op <= 2) {
			nntl::thread_id_t used = -1; long long big[6] = { 1, 2, 3, 4, 5, 6 };
			if (op == 0) { g.label("run functor"); w.run(f, cnt, useN, &used); }
			else if (op == 1) { g.label("run lambda"); w.run([&f, big](const PR& r) { if (big[5] != 6) f.log->fail("captured state damaged"); f.body(r); }, cnt, useN, &used); }
			else { g.label("run const functor"); const Fn& cf = f; w.run(cf, cnt, useN, &used); }
			live = 0; log.chk();
			for (rng_t i = 0; i < cnt; i++) VP_REQ(hit[(size_t)i] == 1, "element ", i, " of ", cnt, " processed ", (int)hit[(size_t)i], " times, op ", op, " threads ", n, " useN ", useN, " call ", k);
			VP_REQ(used == calls, "reported ", used, " threads used, the function was called ", (int)calls, " times"); VP_REQ(calls >= 1 && calls <= n, "calls ", (int)calls); if (cnt > 1) VP_REQ(tid[0] == 1, "the calling thread did not take part");
			if (useN >= 2 && useN <= n) VP_REQ(calls <= useN, "asked for ", useN, " threads, used ", (int)calls); if (cnt >= n && useN == 0 && cnt > 1) VP_REQ(calls == n, "all threads were asked for: ", (int)calls, " of ", n);
		} else if (op == 3) { g.label("reduce");
			std::vector<double> v((size_t)cnt); double exp = 0; for (auto& x : v) { x = (double)g.raw(100) - 50; exp += x; } std::atomic<int> fin{ 0 };
			double r = w.reduce([&](const PR& q) { f.body(q); double s = 0; for (rng_t i = q.offset(); i < q.end(); i++) s += v[(size_t)i]; PT; return Wk::converter_reduce_data_t<double>::to(s); },
				[&](const RD* p, const rng_t c) { fin++; if (c != calls) log.fail("final reduction got " + std::to_string(c) + " partial results of " + std::to_string((int)calls)); double s = 0; for (rng_t i = 0; i < c; i++) s += Wk::converter_reduce_data_t<double>::from(p[i]); return s; }, cnt, useN);
			live = 0; log.chk(); VP_REQ(r == exp, "reduction of ", cnt, " elements is ", r, " expected ", exp, " threads ", n, " useN ", useN); for (rng_t i = 0; i < cnt; i++) VP_REQ(hit[(size_t)i] == 1, "reduce: element ", i, " processed ", (int)hit[(size_t)i], " times"); VP_REQ(fin <= 1, "final reduction called ", (int)fin, " times"); if (calls > 1) VP_REQ(fin == 1, "final reduction not called");
		} else if (op == 5) { g.label("huge range"); // ranges beyond 2^31 elements, only recorded
			cnt = (rng_t)1 << (int)g.z(30, 45); cnt += g.i(-3, 3); bool red = g.b(); std::vector<rng_t> ro((size_t)n + 1, -1), rc((size_t)n + 1, -1); 
			auto rec = [&](const PR& q) { f.calls->fetch_add(1); if ((size_t)q.tid() > (size_t)n) { log.fail("thread id out of range"); return; } if (rc[(size_t)q.tid()] >= 0) log.fail("thread id used twice in one call"); ro[(size_t)q.tid()] = q.offset(); rc[(size_t)q.tid()] = q.cnt(); if (q.end() != q.offset() + q.cnt()) log.fail("end of a range"); PT; };
			if (!red) { nntl::thread_id_t used = -1; w.run(rec, cnt, useN, &used); VP_REQ(used == calls, "reported ", used, " threads used, the function was called ", (int)calls, " times"); }
			else { long long r = w.reduce([&](const PR& q) { rec(q); return Wk::converter_reduce_data_t<long long>::to(q.cnt()); }, [&](const RD* p, const rng_t c) { long long s = 0; for (rng_t i = 0; i < c; i++) s += Wk::converter_reduce_data_t<long long>::from(p[i]); return s; }, cnt, useN); VP_REQ(r == cnt, "reduction over ", cnt, " elements counts ", r); }
			live = 0; log.chk(); std::vector<std::pair<rng_t, rng_t>> v; for (int i = 0; i <= n; i++) if (rc[(size_t)i] > 0) v.push_back({ ro[(size_t)i], rc[(size_t)i] }); std::sort(v.begin(), v.end()); rng_t pos = 0; for (auto& x : v) { VP_REQ(x.first == pos, "range of ", cnt, " elements: a chunk starts at ", x.first, " instead of ", pos); pos += x.second; } VP_REQ(pos == cnt, "chunks cover ", pos, " of ", cnt, " elements");
		} else { g.label("ordered partials"); // partial results are indexed by thread id
			std::vector<long long> own((size_t)n + 1, -1); 
			long long r = w.reduce([&](const PR& q) { f.body(q); own[(size_t)q.tid()] = q.offset() * 1000 + q.cnt(); return Wk::converter_reduce_data_t<long long>::to(q.offset() * 1000 + q.cnt()); },
				[&](const RD* p, const rng_t c) { for (rng_t i = 0; i < c; i++) if (Wk::converter_reduce_data_t<long long>::from(p[i]) != own[(size_t)i]) log.fail("partial result " + std::to_string(i) + " is not the one of that thread"); return (long long)c; }, cnt, useN); (void)r; live = 0; log.chk(); }
	}
}
TT(workers, 6, 300) {
	int n = (int)g.z(2, 5); vp_hwc = n; int pools = 1 + (int)g.raw(2), nops = (int)g.z(0, 5); Log log; 
#if VP_SCHED
	int strat = (int)g.raw(3); g.label(strat == 0 ? "uniform" : strat == 1 ? "sticky" : "priorities"); vps::Session ses(g, strat, 60000);
#else
	spin_ = (int)g.pick({ 0, 50, 2000 }); nops *= 4;
#endif
	g.say("threads", n, "pools", pools, "ops", nops);
	for (int p = 0; p < pools; p++) { auto w = std::make_unique<Wk>(); VP_REQ(w->cur_workers_count() == n && Wk::workers_count() == n, "workers count"); exercise(g, *w, n, nops, log); if (nops == 0) g.label("construct-destroy"); PT; w.reset(); log.chk(); }
#if VP_SCHED
	g.nontrivial(vps::S().switches > n); g.labelif(vps::S().switches > 40, "40+ switches");
#else
	g.nontrivial(nops > 0);
#endif
}
namespace {
struct Task { Log* log; std::atomic<int>* allowed; std::atomic<int> runs{ 0 }, in{ 0 }; int prio = 0, more = 0; std::atomic<int> left{ 0 }; std::vector<int>* last; std::vector<Task*>* all; std::vector<std::vector<char>>* done; int idx = 0; int n = 0; 
	bool operator()(const nntl::thread_id_t t) { in++; if (!*allowed) log->fail("background task runs after delete_tasks()/destruction"); if (t < 0 || t >= n) log->fail("bad thread id"); runs++; PT; PT; if (!*allowed) log->fail("delete_tasks() returned while a task was running");
		// all tasks of a higher priority must have been polled by this thread after its previous pass
		bool r = left.fetch_sub(1) > 0; auto& seq = (*done)[(size_t)t]; seq.push_back((char)idx); in--; return r; } };
}
TT(bgworkers, 4, 150) {
	int n = (int)g.z(1, 4); vp_hwc = n + 1; Log log; int nops = (int)g.z(0, 6); g.say("bg threads", n, "ops", nops);
#if VP_SCHED
	int strat = (int)g.raw(2); vps::Session ses(g, strat, 200000);
#else
	spin_ = (int)g.pick({ 0, 50, 2000 });
#endif
	std::atomic<int> allowed{ 0 }; std::vector<std::unique_ptr<Task>> tasks; std::vector<Task*> all; std::vector<std::vector<char>> seq((size_t)n); int ntask = 0;
	{
	auto w = g.b() ? std::make_unique<thr::BgWorkers<>>((nntl::thread_id_t)n, thr::PriorityClass::threads_priority_no_change) : std::make_unique<thr::BgWorkers<>>(thr::PriorityClass::threads_priority_no_change);
	VP_REQ(w->workers_count() == n, "background workers ", w->workers_count()); w->set_task_wait_timeout(std::chrono::milliseconds(1));
	for (int k = 0; k < nops; k++) { int op = (int)g.raw(4);
		if (op == 0) { g.label("add_task"); allowed = 1; tasks.push_back(std::make_unique<Task>()); auto& t = *tasks.back(); t.log = &log; t.allowed = &allowed; t.prio = (int)g.raw(3); t.left = (int)g.raw(6); t.done = &seq; t.idx = (int)tasks.size() - 1; t.n = n; w->add_task(t, t.prio); ntask++; VP_REQ((int)w->tasks_count() == ntask, "tasks_count ", w->tasks_count(), " expected ", ntask); }
		else if (op == 1) { g.label("delete_tasks"); w->delete_tasks(); allowed = 0; for (auto& t : tasks) VP_REQ(t->in == 0, "a task is still running after delete_tasks()"); for (auto& q : seq) q.clear(); ntask = 0; VP_REQ(w->tasks_count() == 0, "tasks left"); PT; PT; }
		else if (op == 2) { g.label("exec"); std::vector<std::atomic<int>> h((size_t)n); std::atomic<int> live{ 1 }; auto f = [&](const nntl::thread_id_t t) { if (t < 0 || t >= n) { log.fail("exec: bad thread id"); return; } PT; if (!live) log.fail("exec() returned before the function was done"); h[(size_t)t]++; }; w->exec(f); live = 0; for (int i = 0; i < n; i++) VP_REQ(h[(size_t)i] == 1, "exec: thread ", i, " ran the function ", (int)h[(size_t)i], " times"); }
		else { g.label("wait"); // every registered task must be polled eventually
			if (ntask) { Task* t = tasks.back().get(); int r0 = t->runs; double t0 = vp::now_s(); while (t->runs == r0) {
#if VP_SCHED
				vps::S().vtime += 5; vps::yield();
#else
				std::this_thread::yield(); VP_REQ(vp::now_s() - t0 < 15, "a background task is never polled");
#endif
			} } }
		log.chk(); }
	w.reset(); }
	allowed = 0; log.chk(); for (auto& t : tasks) VP_REQ(t->in == 0, "a task still runs after destruction");
#if VP_SCHED
	g.nontrivial(vps::S().switches > n);
#else
	g.nontrivial(nops > 1);
#endif
}
TT(priorities, 2, 80) { // in every pass a thread polls the tasks in the order of descending priority, repeating a task while it asks for it
	int n = (int)g.z(1, 3); vp_hwc = n + 1; Log log; int k = (int)g.z(2, 5); std::vector<int> pr; for (int i = 0; i < k; i++) pr.push_back((int)g.raw(4) - 1); g.nontrivial(); g.say("threads", n, "tasks", k);
#if VP_SCHED
	vps::Session ses(g, (int)g.raw(2), 200000);
#endif
	struct T { std::vector<std::vector<int>>* seq; std::vector<std::atomic<int>>* cnt; int idx; std::atomic<int> rep{ 0 }; bool operator()(const nntl::thread_id_t t) { auto& s = (*seq)[(size_t)t]; if (s.size() < 400) s.push_back(idx); (*cnt)[(size_t)t]++; PT; return rep.fetch_sub(1) > 0; } };
	std::vector<std::vector<int>> seq((size_t)n); std::vector<std::atomic<int>> cnt((size_t)n); std::vector<std::unique_ptr<T>> ts;
	{ thr::BgWorkers<> w((nntl::thread_id_t)n, thr::PriorityClass::threads_priority_no_change); w.set_task_wait_timeout(std::chrono::milliseconds(1)); 
		for (int i = 0; i < k; i++) { ts.push_back(std::make_unique<T>()); ts.back()->seq = &seq; ts.back()->cnt = &cnt; ts.back()->idx = i; ts.back()->rep = (int)g.raw(3); w.add_task(*ts.back(), pr[(size_t)i]); }
		std::vector<std::atomic<int>> hh((size_t)n); w.exec([&](const nntl::thread_id_t t) { seq[(size_t)t].clear(); }); // all tasks known from here on
		double t0 = vp::now_s(); for (;;) { int tot = 0; for (auto& c : cnt) tot += c; if (tot >= 3 * k + 6) break;
#if VP_SCHED
			vps::S().vtime += 5; vps::yield();
#else
			std::this_thread::yield(); VP_REQ(vp::now_s() - t0 < 15, "background tasks are not polled");
#endif
		}
		w.delete_tasks(); }
	for (auto& s : seq) { size_t i = 0; while (i < s.size()) { // a pass: priorities never increase; a pass ends only after the lowest priority task or by an interruption at the end
			size_t j = i; std::set<int> seen; seen.insert(s[i]); while (j + 1 < s.size() && (pr[(size_t)s[j + 1]] < pr[(size_t)s[j]] || (pr[(size_t)s[j + 1]] == pr[(size_t)s[j]] && (s[j + 1] == s[j] || !seen.count(s[j + 1]))))) { j++; seen.insert(s[j]); }
			if (j + 1 < s.size()) { std::string q; for (int x : s) q += std::to_string(x) + "(" + std::to_string(pr[(size_t)x]) + ") "; VP_REQ((int)seen.size() == k, "thread polled only ", seen.size(), " of ", k, " tasks, or in a wrong order, in a pass: ", q.substr(0, 300)); }
			i = j + 1; } }
}
