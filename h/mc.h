// mc.h - common part of the math harnesses: run-time thresholds, a deterministic scheduler for the parallel sections,
// matrix generators and tolerant comparison.
#pragma once
#ifndef VP_HARNESS_ALLOC
#define VP_HARNESS_ALLOC do {} while (0) /* alloc.h: the harness's own allocations never fail */
#endif
#include "nn.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/interface/math/mathn.h"
#include "vp_thr.h"
#include <thread>
#ifndef VP_REAL
#define VP_REAL double
#endif
#ifndef VP_THR
#define VP_THR 0	// 0: deterministic sequential scheduler with generated chunk order, 1: real worker threads
#endif
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#if VP_THR
#define VP_SUF "." VP_STR(VP_REAL) ".threads"
#else
#define VP_SUF "." VP_STR(VP_REAL)
#endif
#define VP_TESTM_T(name, weight, mn, timeout, nondet) static void VP_CAT(vpt_,name)(::vp::Gen&); static ::vp::Reg VP_CAT(vpr_,name)(#name VP_SUF, weight, mn, VP_CAT(vpt_,name), timeout, nondet); static void VP_CAT(vpt_,name)(::vp::Gen& g)
#define VP_TESTM(name, weight, mn) VP_TESTM_T(name, weight, mn, 20, VP_THR)

extern int vp_hwc;
namespace {
using namespace nntl;
typedef VP_REAL R;
typedef math::smatrix<R> M;
typedef math::smatrix_deform<R> MD;
typedef std::vector<double> V;
typedef std::vector<R> VR;

// Scheduler that keeps the contract of the thread pool (cnt split into contiguous ranges, tid 0 is the caller, tids 1..n workers)
// but runs the ranges one after another in a generated order.
static int g_nthr = 3; static uint64_t g_order = 0; static bool g_uneven = false; static long g_parallel = 0;
template <typename RealT, typename RangeT>
class SeqThreads : public threads::_i_threads<RealT, RangeT> {
	typedef threads::_i_threads<RealT, RangeT> B;
public:
	typedef typename B::range_t range_t; typedef typename B::par_range_t par_range_t; typedef typename B::reduce_data_t reduce_data_t;
	typedef std::vector<std::thread> threads_cont_t; typedef threads_cont_t::iterator ThreadObjIterator_t;
	static thread_id_t workers_count()noexcept { return (thread_id_t)g_nthr; }
	thread_id_t cur_workers_count()const noexcept { return (thread_id_t)g_nthr; }
	threads_cont_t none_;
	ThreadObjIterator_t get_worker_threads(thread_id_t& n)noexcept { n = 0; return none_.begin(); }
	bool denormalsOnInAnyThread()noexcept { return isDenormalsOn(); }
	struct Part { range_t o, n; thread_id_t tid; };
	static std::vector<Part> split(range_t cnt, thread_id_t useN) {
		VP_HARNESS_ALLOC;
		thread_id_t mx = (thread_id_t)g_nthr; if (useN > 1 && useN <= mx) mx = useN;
		range_t n = std::min<range_t>(mx, cnt); if (n < 1) n = 1;
		std::vector<range_t> c(n, cnt / n); for (range_t i = 0; i < cnt % n; i++) c[i]++;
		std::vector<Part> p; range_t o = 0;
		for (range_t i = 0; i < n; i++) { p.push_back({ o, c[i], (thread_id_t)(i + 1 == n ? 0 : i + 1) }); o += c[i]; }
		vp::Rnd r(g_order++); for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
		return p;
	}
	template<typename Func> void run(Func&& F, const range_t cnt, const thread_id_t useN = 0, thread_id_t* pUsed = nullptr) noexcept {
		if (cnt <= 1) { if (pUsed) *pUsed = 1; F(par_range_t(cnt)); return; }
		auto p = split(cnt, useN); if (pUsed) *pUsed = (thread_id_t)p.size(); g_parallel++;
		for (auto& q : p) F(par_range_t(q.o, q.n, q.tid));
	}
	template<typename Func, typename FRFt> auto reduce(Func&& F, FRFt&& FRF, const range_t cnt, const thread_id_t useN = 0) noexcept
		-> decltype(std::forward<FRFt>(FRF)(static_cast<const reduce_data_t*>(nullptr), range_t(0))) {
		typedef decltype(std::forward<FRFt>(FRF)(static_cast<const reduce_data_t*>(nullptr), range_t(0))) type_t;
		if (cnt <= 1 || useN == 1) return B::template converter_reduce_data_t<type_t>::from(F(par_range_t(cnt)));
		VP_HARNESS_ALLOC; auto p = split(cnt, useN); g_parallel++; std::vector<reduce_data_t> c(p.size());
		for (auto& q : p) c[(size_t)q.tid] = F(par_range_t(q.o, q.n, q.tid));
		return FRF(c.data(), (range_t)c.size());
	}
};
typedef vpthr::VThr<R> Thr;
#if VP_THR
typedef threads::Workers<R, numel_cnt_t> Thd;
#else
typedef SeqThreads<R, numel_cnt_t> Thd;
#endif
typedef math::MathN<R, Thd, imem::imemmgr, Thr> Math;

static const numel_cnt_t TEMPMEM = 1 << 16;
// one long-lived math object per thread count and process; the history of earlier calls is part of what is explored
static Math& math_for(int n) {
	static std::map<int, Math*> c; static int owner = 0;
	if (owner != (int)getpid()) { c.clear(); owner = (int)getpid(); }
	auto& p = c[n]; if (!p) { g_nthr = vp_hwc = n; p = new Math(); p->preinit(TEMPMEM); p->init(); }
	return *p;
}
static bool g_alwaysSt = false;
// generate the configuration: number of threads, scheduling order, thresholds
static Math& gen_math(vp::Gen& g) {
	global_denormalized_floats_mode();
	int n = g.pick({ 2, 3, 4, 5, 7 }); g_nthr = vp_hwc = n; g_order = g.raw(1 << 20); g_parallel = 0;
	int mode = (int)g.raw(4); uint64_t ts = g.raw(1 << 20);
	vp::Rnd r(ts);
	Thr::set_all([&](const char* nm, long long def) -> long long {
		bool cpt = strstr(nm, "olsPerThread") != nullptr;
		if (cpt) return mode == 0 ? def : 3 + (long long)r.below(3);
		switch (mode) { case 0: return def; case 1: return 2; case 2: return 1 + (long long)r.below(60); default: return r.below(2) ? 2 : 100000; }
	});
	g.say("thr", n, "mode", mode);
	return math_for(n);
}
struct RndFill { vp::Rnd r; double lo, hi; int kind; 
	double operator()() { double u = lo + (hi - lo) * r.unit(); switch (kind) { case 1: { if (r.below(4) == 0) return 0; return u; } case 2: { double q = double((long long)r.below(9)) - 4; q *= .25; return std::min(hi, std::max(lo, q)); } default: return u; } } };
static RndFill gen_fill(vp::Gen& g, double lo, double hi, int kind = -1) { return RndFill{ vp::Rnd(g.seed()), lo, hi, kind >= 0 ? kind : (int)g.raw(3) }; }
static void gen_dims(vp::Gen& g, vec_len_t& r, vec_len_t& c, int mxr = 40, int mxc = 24) { r = (vec_len_t)g.sz(1, (size_t)mxr * g.scale); c = (vec_len_t)g.sz(1, (size_t)mxc * g.scale); uint64_t big = g.raw(24); if (big == 23) r = (vec_len_t)g.sz(40, 600); else if (big == 22) c = (vec_len_t)g.sz(20, 150); }
static R rv(RndFill& f) { return R(f()); }
// M with biases set to 1 when asked for
static M mk(vec_len_t r, vec_len_t c, bool bias = false, bool bir = false) { return M(r, c, bias, bir); }
static void fill(M& m, RndFill& f) { // fills non-bias elements; bias ones are (re)set by the library constructor
	if (m.emulatesBiases()) {
		if (m.bBatchInColumn()) { const auto n = m.numel_no_bias(); for (numel_cnt_t i = 0; i < n; i++) m.data()[i] = rv(f); }
		else for (vec_len_t c = 0; c < m.cols(); c++) for (vec_len_t r = 0; r + 1 < m.rows(); r++) m.data()[(size_t)c * m.rows() + r] = rv(f);
	} else for (numel_cnt_t i = 0; i < m.numel(); i++) m.data()[i] = rv(f);
}
static VR snap(const M& m) { return VR(m.data(), m.data() + m.numel()); }
static void same_bits(const VR& a, const M& m, const char* what) { for (numel_cnt_t i = 0; i < m.numel(); i++) if (!(a[i] == m.data()[i])) vp::fail(what, ": element ", i, " is ", m.data()[i], " was/expected ", a[i]); }
static const double EPS = std::numeric_limits<R>::epsilon();
static bool close_(double a, double b, double mag, double k = 16) {
	if (a == b) return true; if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	return std::fabs(a - b) <= k * EPS * (std::fabs(mag) + std::fabs(b)) + 1e-37;
}
#define CLOSE(a, b, mag, k, ...) do { double a_ = (a), b_ = (b); if (!close_(a_, b_, (mag), (k))) ::vp::fail("line ", __LINE__, ": got ", a_, " expected ", b_, " | ", __VA_ARGS__); } while (0)
// expected element-wise image
template<class F> static void check_ew(const M& got, const VR& before, F f, const char* what, double k = 16, double mag = 0) {
	const vec_len_t rows = got.rows();
	for (numel_cnt_t i = 0; i < got.numel(); i++) { double e = f(i, double(before[i])); CLOSE(double(got.data()[i]), e, mag, k, what, " elem ", i, " in ", double(before[i]), " size ", rows, "x", got.cols()); }
}
static bool is_bias(const M& m, numel_cnt_t i) { if (!m.emulatesBiases()) return false; return m.bBatchInColumn() ? i >= m.numel_no_bias() : (i % m.rows()) == m.rows() - 1; }
// call an optional variant of a kernel when it exists (kernels may be renamed or removed without changing behaviour)
template<class F, class... A> static auto try_call_(int, F&& f, A&&... a) -> decltype(f(std::forward<A>(a)...), true) { f(std::forward<A>(a)...); return true; }
template<class F, class... A> static bool try_call_(long, F&&, A&&...) { return false; }
#define OPTIONAL(mm, call) try_call_(0, [&](auto& x_) -> decltype(x_.call, void()) { x_.call; }, mm)
}
