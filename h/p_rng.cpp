// P08: random number generation: ranges, completeness, reproducibility by seed, independence of the per-thread streams, distribution
// parameters, and the buffer through which the asynchronous generator hands its numbers over.
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/interface/rng/afrand.h"
#include "nntl/interface/rng/cstd.h"
#include "nntl/interface/rng/afrand_mt.h"
#include "nntl/interface/rng/afrand_as.h"
#include "nntl/interface/rng/distr_normal_naive.h"
#include "nntl/utils/data_buffer.h"
#include <atomic>
#include <mutex>
namespace {
// base generator whose n-th value overall is distinct from all others (a permutation of a counter); draws are logged with the
// instance and the thread that made them
struct Draw { double u; const void* inst; std::thread::id th; };
static std::mutex g_lm; static std::vector<Draw> g_log; static std::atomic<uint32_t> g_cnt{ 0 }; static bool g_logon = false;
static const uint32_t UB = 22;
static uint32_t uniq() { uint32_t c = g_cnt++; return (c * 2654435769u + 12345u) & ((1u << UB) - 1); }
struct UniqRng {
	int sd = 0; explicit UniqRng(int s) : sd(s) {} void RandomInit(int s) { sd = s; } void RandomInitByArray(int const s[], int n) { sd = n ? s[0] * 31 + s[n - 1] : 0; }
	uint32_t BRandom() { return (uint32_t)vp::mix(uniq() + 1); }
	double Random() { double u = double(uniq()) / double(1u << UB); if (g_logon) { std::lock_guard<std::mutex> l(g_lm); g_log.push_back({ u, this, std::this_thread::get_id() }); } return u; }
	template<typename T> double FPRandom() { return Random(); }
	int IRandomX(int mn, int mx) { return mn + (int)(Random() * (double(mx) - mn + 1)); } int IRandom(int a, int b) { return IRandomX(a, b); }
};
struct UniqRngA : UniqRng { using UniqRng::UniqRng; };	// same, for the asynchronous generator (needs compile-time thresholds)
// a repeatable seeded stream
struct SeedRng {
	std::mt19937_64 e; explicit SeedRng(int s) : e((uint32_t)s) {} void RandomInit(int s) { e.seed((uint32_t)s); } void RandomInitByArray(int const s[], int n) { std::seed_seq q(s, s + n); e.seed(q); }
	uint32_t BRandom() { return (uint32_t)e(); } double Random() { return double(e() >> 11) / 9007199254740992.0; } template<typename T> double FPRandom() { return Random(); }
	int IRandomX(int mn, int mx) { return mx <= mn ? mn : mn + (int)(Random() * (double(mx) - mn + 1)); } int IRandom(int a, int b) { return IRandomX(a, b); }
};
struct SeedRngA : SeedRng { using SeedRng::SeedRng; };
template<class B> struct Thr_ { static inline size_t bnd_gen_vector = 100, bnd_gen_vector_gtz = 100, bnd_gen_vector_norm = 100, bnd_bernoulli_vector = 100, bnd_normal_vector = 100; };
template<class B> struct ThrC_ { static constexpr size_t bnd_gen_vector = 40, bnd_gen_vector_gtz = 40, bnd_gen_vector_norm = 3, bnd_bernoulli_vector = 40, bnd_normal_vector = 2; };
}
namespace nntl { namespace rng { namespace _impl {
	template<> struct AFRAND_MT_THR<UniqRng, R> : public Thr_<UniqRng> {}; template<> struct AFRAND_MT_THR<SeedRng, R> : public Thr_<SeedRng> {};
	template<> struct AFRAND_MT_THR<UniqRngA, R> : public ThrC_<UniqRngA> {}; template<> struct AFRAND_MT_THR<SeedRngA, R> : public ThrC_<SeedRngA> {};
}}}
namespace {
template<class B> static void set_thr(vp::Gen& g) { typedef rng::_impl::AFRAND_MT_THR<B, R> T; auto f = [&]() -> size_t { return g.pick({ 1, 2, 7, 30, 100000 }); }; T::bnd_gen_vector = f(); T::bnd_gen_vector_gtz = f(); T::bnd_gen_vector_norm = f(); T::bnd_bernoulli_vector = f(); T::bnd_normal_vector = f(); }
typedef int seedt_; static const R SENT = R(-12345.5);
static int gen_n(vp::Gen& g) { return (int)g.sz(1, 300); }
// one uniform-family operation; expect(u) is what the element made out of the base value u has to be
struct Op { int kind; R a, b; numel_cnt_t n; const char* nm; };
static Op gen_op(vp::Gen& g, int kinds) {
	Op o; o.kind = (int)g.raw(kinds); static const char* nm[] = { "gen_vector(a)", "gen_vector(neg,pos)", "gen_vector_norm", "gen_vector_gtz", "bernoulli_vector", "binary_vector", "gen_vector_gtz<int>" }; o.nm = nm[o.kind];
	o.a = R(g.pick({ 1., .5, 2., .25, 3.25, 1e-3, 100. })); o.b = R(g.pick({ 0., 1., -2., .125 })); o.n = gen_n(g);
	if (o.kind == 4 || o.kind == 5) o.a = R(g.pick({ .5, .1, .9, .25, .01 }));
	g.say(o.nm, "n", o.n, "a", o.a, "b", o.b); return o;
}
template<class Rng> static void do_op(Rng& r, const Op& o, R* p, int* pi) {
	switch (o.kind) {
	case 0: r.gen_vector(p, o.n, o.a); break; case 1: r.gen_vector(p, o.n, o.b, R(o.b + o.a)); break; case 2: r.gen_vector_norm(p, o.n); break; case 3: r.gen_vector_gtz(p, o.n, o.a); break;
	case 4: r.bernoulli_vector(p, o.n, o.a, R(o.b + 3), o.b); break; case 5: r.binary_vector(p, o.n, o.a); break; case 6: r.gen_vector_gtz(pi, o.n, (int)(o.a * 8) + 1); break; }
}
static double img(const Op& o, double u) { switch (o.kind) { case 0: return 2 * double(o.a) * u - double(o.a); case 1: return double(o.a) * u + double(o.b); case 2: return u; case 3: return double(o.a) * u; case 4: return u < double(o.a) ? double(o.b) + 3 : double(o.b); case 5: return u < double(o.a) ? 1 : 0; default: return std::floor(u * ((int)(o.a * 8) + 1)); } }
static void range_of(const Op& o, double& lo, double& hi) { double e = 4 * EPS * (std::fabs(o.a) + std::fabs(o.b)); lo = o.kind == 0 ? -double(o.a) - e : o.kind == 1 ? double(o.b) - e : o.kind == 4 ? double(o.b) : 0; hi = o.kind == 0 ? double(o.a) + e : o.kind == 1 ? double(o.b) + o.a + e : o.kind == 2 ? 1 : o.kind == 3 ? double(o.a) + e : o.kind == 4 ? double(o.b) + 3 : o.kind == 5 ? 1 : (int)(o.a * 8) + 1; }
// elements in v must be images of the logged draws, every draw used at most once
static void check_images(vp::Gen& g, const Op& o, const std::vector<double>& v) {
	double lo, hi; range_of(o, lo, hi);
	for (size_t i = 0; i < v.size(); i++) VP_REQ(v[i] >= lo && v[i] <= hi, o.nm, " element ", i, " of ", v.size(), " is ", v[i], " outside [", lo, ",", hi, "]");
	std::set<double> us; for (auto& d : g_log) us.insert(d.u);
	VP_REQ(us.size() == g_log.size(), "harness: draws not unique");
	std::map<const void*, std::set<std::thread::id>> by; for (auto& d : g_log) by[d.inst].insert(d.th);
	for (auto& q : by) VP_REQ(q.second.size() == 1, o.nm, ": one base generator was used by ", q.second.size(), " threads during a single call");
	if (g_log.size() != v.size()) { g.label("other-draw-count"); return; }
	std::vector<double> e; for (auto& d : g_log) e.push_back(img(o, d.u)); std::vector<double> s = v; std::sort(e.begin(), e.end()); std::sort(s.begin(), s.end());
	for (size_t i = 0; i < s.size(); i++) CLOSE(s[i], e[i], std::fabs(double(o.a)) + std::fabs(double(o.b)), 8, o.nm, ": the ", i, "-th smallest of ", s.size(), " values is not the image of the corresponding base value (a value repeated, skipped or mapped wrongly)");
}
template<class Rng> static void uni_case(vp::Gen& g, Rng& r, bool mt) {
	Op o = gen_op(g, 7); VR buf(o.n + 2, SENT); std::vector<int> bi(o.n + 2, -777); g_log.clear(); g_logon = true; do_op(r, o, buf.data() + 1, bi.data() + 1); g_logon = false;
	g.label(o.nm); g.nontrivial(o.n > 1);
	std::vector<double> v; for (numel_cnt_t i = 0; i < o.n; i++) v.push_back(o.kind == 6 ? double(bi[i + 1]) : double(buf[i + 1]));
	VP_REQ(buf[0] == SENT && buf[o.n + 1] == SENT && bi[0] == -777 && bi[o.n + 1] == -777, o.nm, " wrote outside the vector");
	check_images(g, o, v);
}
VP_TESTM(uniform, 4, 200) {
	Math& m = gen_math(g); g_cnt = (uint32_t)g.raw(1 << 16);
	if (g.b()) { set_thr<UniqRng>(g); rng::AFRand_mt<R, UniqRng, Thd> r(m.ithreads(), (seedt_)g.raw(1000)); if (g.b()) r.seed(5); g_parallel = 0; uni_case(g, r, true); g.labelif(g_parallel > 0, "parallel"); }
	else { rng::AFRand<R, UniqRng> r((int)g.raw(1000)); uni_case(g, r, false); }
}
// matrices: biases survive, all the other elements are generated
template<class Rng> static void mtx_case(vp::Gen& g, Rng& r) {
	vec_len_t rr, cc; gen_dims(g, rr, cc, 20, 12); int op = (int)g.raw(9); static const char* nm[] = { "gen_matrix", "gen_matrix_no_bias", "gen_matrixAny", "gen_matrix_norm", "gen_matrix_no_bias_norm", "gen_matrix_gtz", "gen_matrix_no_bias_gtz", "bernoulli_matrix", "normal_matrix" };
	bool bias = (op == 1 || op == 2 || op == 4 || op == 6) && g.b(), bir = op == 2 && g.b(); R a = R(g.pick({ 1., .5, 2., 3.25 }));
	M x(rr, cc, bias, bir); for (numel_cnt_t i = 0; i < x.numel(); i++) if (!is_bias(x, i)) x.data()[i] = SENT;
	g.say(nm[op], rr, cc, "bias", bias, "bir", bir, "a", a); g.label(nm[op]); g.nontrivial(x.numel() > 1);
	g_log.clear(); g_logon = true;
	switch (op) { case 0: r.gen_matrix(x, a); break; case 1: r.gen_matrix_no_bias(x, a); break; case 2: r.gen_matrixAny(x, a); break; case 3: r.gen_matrix_norm(x); break; case 4: r.gen_matrix_no_bias_norm(x); break; case 5: r.gen_matrix_gtz(x, a); break; case 6: r.gen_matrix_no_bias_gtz(x, a); break; case 7: r.bernoulli_matrix(x, R(.5), R(7), R(4)); break; default: r.normal_matrix(x, R(10), R(.125)); }
	g_logon = false;
	double lo = op < 3 ? -double(a) : op == 7 ? 4 : op == 8 ? 8.5 : 0, hi = op == 3 || op == 4 ? 1 : op == 7 ? 7 : op == 8 ? 11.5 : double(a); std::set<R> seen;
	for (numel_cnt_t i = 0; i < x.numel(); i++) {
		R v = x.data()[i];
		if (is_bias(x, i)) { VP_REQ(v == R(1), nm[op], " changed the bias element ", i, " to ", v); continue; }
		VP_REQ(v >= lo - 1e-6 && v <= hi + 1e-6, nm[op], " element ", i, " is ", v, " outside [", lo, ",", hi, "]");
		if (op == 7) VP_REQ(v == 7 || v == 4, "bernoulli value ", v); else if (op != 8 && a >= 1) VP_REQ(seen.insert(v).second, nm[op], ": value ", v, " repeated at ", i, " although all base values are distinct");
	}
}
VP_TESTM(matrices, 2, 150) {
	Math& m = gen_math(g); g_cnt = (uint32_t)g.raw(1 << 16);
	if (g.b()) { set_thr<UniqRng>(g); rng::AFRand_mt<R, UniqRng, Thd> r(m.ithreads(), (seedt_)g.raw(1000)); mtx_case(g, r); } else { rng::AFRand<R, UniqRng> r((int)g.raw(1000)); mtx_case(g, r); }
}
// reproducibility: the same seed and call history give the same values, another seed gives others, threads have different streams
template<class Rng> static VR history(Rng& r, const std::vector<Op>& h) {
	VR out; for (auto& o : h) { VR b(o.n); std::vector<int> bi(o.n); if (o.kind == 7) r.normal_vector(b.data(), o.n, o.b, o.a); else do_op(r, o, b.data(), bi.data()); if (o.kind == 6) for (int q : bi) out.push_back(R(q)); else out.insert(out.end(), b.begin(), b.end()); out.push_back(R(r.gen_i(1000))); out.push_back(R(r.gen_f(R(3)))); } return out;
}
template<class Rng> static void seed_case(vp::Gen& g, Rng& r1, Rng& r2, bool reseedable) {
	uint64_t s = g.b() ? g.raw(1000) : g.seed() * 4294967291ull + g.seed(); std::vector<Op> h; int k = (int)g.z(1, 4); for (int i = 0; i < k; i++) { h.push_back(gen_op(g, 7)); if (g.raw(4) == 0) h.back().kind = 7; }
	uint64_t s2 = s ^ (1ull << g.raw(31)); g.say("seed", s);
	auto sd = [&](Rng& r, uint64_t v) { if (v >> 32) r.seed64(v); else r.seed((seedt_)v); };
	{ VR junk(20); r2.gen_vector_norm(junk.data(), 20); } sd(r1, s); sd(r2, s); VR a = history(r1, h), b = history(r2, h); g.nontrivial(a.size() > 4);
	for (size_t i = 0; i < a.size(); i++) VP_REQ(a[i] == b[i], "two generators seeded with ", s, " differ at value ", i, " of the same call history: ", a[i], " vs ", b[i]);
	sd(r1, s); b = history(r1, h); VP_REQ(a == b, "re-seeding with ", s, " does not restart the sequence");
	sd(r1, s2); Op o{ 2, 1, 0, 64, "" }; VR c(64), d(64); r1.gen_vector_norm(c.data(), 64); sd(r1, s); r1.gen_vector_norm(d.data(), 64); int eq = 0; for (int i = 0; i < 64; i++) eq += c[i] == d[i]; VP_REQ(eq < 8, "seeds ", s, " and ", s2, " give the same values (", eq, " of 64 equal)");
}
VP_TESTM(seeding, 2, 150) {
	Math& m = gen_math(g); seedt_ s1 = (seedt_)g.raw(1000);
	if (g.b()) {
		set_thr<SeedRng>(g); typedef rng::AFRand_mt<R, SeedRng, Thd> Rg; Rg r1(m.ithreads(), s1), r2(m.ithreads(), s1 + 1); seed_case(g, r1, r2, true);
		// construction with a seed is repeatable too, and threads must not share a stream
		Rg r3(m.ithreads(), s1), r4(m.ithreads(), s1); int n = (int)g.z(8, 200); VR a(n), b(n);
		for (int q = 0; q < 2; q++) { r3.gen_vector_norm_mt(a.data(), n); r4.gen_vector_norm_mt(b.data(), n); VP_REQ(a == b, "two generators constructed with seed ", s1, " differ"); std::set<R> us(a.begin(), a.end()); VP_REQ((int)us.size() >= n - (EPS > 1e-10 ? 2 : 0), q ? "seed()" : "construction", " gave several threads the same stream: ", n - (int)us.size(), " of ", n, " values repeat"); r3.seed(s1); r4.seed(s1); }
		r3.seed(s1); r3.gen_vector_norm_mt(a.data(), n); r3.reseed(); r3.gen_vector_norm_mt(b.data(), n); VP_REQ(a == b, "reseed() does not restart the sequence of the last seed");
	} else { typedef rng::AFRand<R, SeedRng> Rg; Rg r1(s1), r2(s1 + 1); seed_case(g, r1, r2, true); }
}
// distribution parameters (a wrong parameter shows at 7 standard errors; false alarms have probability below 1e-11 per case)
template<class V> static void moments(const V& v, double mean, double sd, const char* what) {
	size_t n = v.size(); double s = 0, q = 0; int in1 = 0, pos = 0; for (auto x : v) { s += x; } s /= n; for (auto x : v) { q += (x - mean) * (x - mean); in1 += std::fabs(x - mean) <= sd; pos += x > mean; } q = std::sqrt(q / n);
	VP_REQ(std::fabs(s - mean) <= 7 * sd / std::sqrt(double(n)) + 1e-6, what, ": sample mean ", s, " for N(", mean, ",", sd, ") n=", n);
	VP_REQ(std::fabs(q - sd) <= 7 * sd / std::sqrt(2. * n), what, ": sample stddev ", q, " for N(", mean, ",", sd, ") n=", n);
	VP_REQ(std::fabs(in1 / double(n) - .6827) <= 7 * std::sqrt(.2166 / n), what, ": share within one sigma is ", in1 / double(n));
	VP_REQ(std::fabs(pos / double(n) - .5) <= 7 * .5 / std::sqrt(double(n)), what, ": share above the mean is ", pos / double(n));
}
VP_TESTM(normal, 2, 60) {
	Math& m = gen_math(g); double mean = double(R(g.pick({ 0., 1., -3., .25 }))), sd = double(R(g.pick({ 1., .5, 2., .01 }))); int n = (int)g.z(600, 1500), kind = (int)g.raw(4); seedt_ s = (seedt_)g.seed(); VR v(n);
	g.say("kind", kind, "n", n, "N", mean, sd); g.nontrivial(); int parts = g.pick({ 1, 1, 5 }), per = n / parts; n = per * parts; v.resize(n);
	switch (kind) {
	case 0: { set_thr<SeedRng>(g); rng::AFRand_mt<R, SeedRng, Thd> r(m.ithreads(), s); for (int i = 0; i < parts; i++) r.normal_vector(v.data() + i * per, per, R(mean), R(sd)); break; }
	case 1: { rng::AFRand<R, SeedRng> r(s); for (int i = 0; i < parts; i++) r.normal_vector(v.data() + i * per, per, R(mean), R(sd)); break; }
	case 2: { rng::AFRand<R, SeedRng> r(s); M x(n, 1); r.normal_matrix(x, R(mean), R(sd)); v = snap(x); break; }
	default: { rng::AFRand<R, SeedRng> r(s); rng::distr_normal_naive<rng::AFRand<R, SeedRng>> d(r, R(mean), R(sd)); M x(n - 1, 1, true); if (g.b()) { M y(n, 1); d.gen_matrix(y); v = snap(y); } else { d.gen_matrix_no_bias(x); v = snap(x); VP_REQ(v.back() == 1 && x.test_biases_strict(), "distr_normal_naive changed the biases"); v.resize(n - 1); } } }
	moments(v, mean, sd, kind == 0 ? "AFRand_mt::normal_vector" : kind == 1 ? "AFRand::normal_vector" : kind == 2 ? "AFRand::normal_matrix" : "distr_normal_naive");
}
VP_TESTM(integers, 1, 60) {
	Math& m = gen_math(g); int k = (int)g.z(1, 9), which = (int)g.raw(3); seedt_ s = (seedt_)g.seed(); std::vector<int> cnt(k, 0); const int N = 600; g.say("which", which, "k", k); g.nontrivial(k > 1);
	auto go = [&](auto& r) {
		for (int i = 0; i < N; i++) { auto v = r.gen_i(k); VP_REQ(v >= 0 && v < k, "gen_i(", k, ") returned ", v); cnt[v]++; auto w = r(k); VP_REQ(w >= 0 && w < k, "operator()(", k, ") returned ", w); }
		for (int i = 0; i < k; i++) VP_REQ(std::fabs(cnt[i] - double(N) / k) <= 7 * std::sqrt(N / double(k)) + 1, "gen_i(", k, "): value ", i, " came ", cnt[i], " times out of ", N);
		std::vector<ptrdiff_t> big; ptrdiff_t L = g.pick({ ptrdiff_t(1) << 20, ptrdiff_t(1000003), ptrdiff_t(INT32_MAX) }); for (int i = 0; i < 50; i++) { auto v = r.gen_i(L); VP_REQ(v >= 0 && v < L, "gen_i(", L, ") returned ", v); }
		for (int i = 0; i < 50; i++) { R a = R(2.5); R v = r.gen_f(a); VP_REQ(v >= 0 && v <= a, "gen_f returned ", v); double w = r.template gen_f_norm<R>(); VP_REQ(w >= 0 && w <= 1, "gen_f_norm returned ", w); } };
	if (which == 0) { rng::AFRand<R, SeedRng> r(s); go(r); } else if (which == 1) { rng::AFRand_mt<R, SeedRng, Thd> r(m.ithreads(), s); go(r); } else { rng::CStd<R> r(s); go(r); VR v(50); r.gen_vector(v.data(), 50, R(2)); for (R x : v) VP_REQ(x >= -2 && x <= 2, "CStd::gen_vector"); r.gen_vector_norm(v.data(), 50); for (R x : v) VP_REQ(x >= 0 && x <= 1, "CStd::gen_vector_norm"); r.gen_vector_gtz(v.data(), 50, R(3)); for (R x : v) VP_REQ(x >= 0 && x <= 3, "CStd::gen_vector_gtz");
		r.seed(s); r.gen_vector_norm(v.data(), 50); VR w(50); r.seed(s); r.gen_vector_norm(w.data(), 50); VP_REQ(v == w, "CStd: seed does not repeat"); int pos = 0; VR q(800); r.bernoulli_vector(q.data(), 800, R(.25), R(2), R(1)); for (R x : q) { VP_REQ(x == 1 || x == 2, "CStd bernoulli value"); pos += x == 2; } VP_REQ(std::abs(pos - 200) <= 7 * 13, "CStd bernoulli share ", pos, "/800"); }
}
// the asynchronous generator: whatever mixture of buffered and immediate values the timing gives, every value comes from the base
// generators, and no base value is handed out twice
VP_TESTM_T(asynchronous, 2, 40, 30, true) {
	Math& m = gen_math(g); int kind = g.b() ? 1 : 0; g_cnt = (uint32_t)g.raw(1 << 16); g.say("kind", kind); g.nontrivial();
	if (kind == 0) {
		rng::AFRand_as<R, UniqRngA, Thd> r(m.ithreads(), 7); std::map<uint32_t, int> seen; int inits = (int)g.z(1, 2);
		for (int q = 0; q < inits; q++) {
			if (g.b(3, 4)) { r.preinit_additive_norm((numel_cnt_t)g.z(1, 60)); if (g.b()) r.preinit_additive_norm((numel_cnt_t)g.z(1, 60)); } if (g.b()) r.preinit_additive_normal_distr((numel_cnt_t)g.z(1, 60));
			VP_REQ(r.init_rng(), "init_rng failed"); int calls = (int)g.z(1, 12);
			for (int c = 0; c < calls; c++) {
				Op o = gen_op(g, 3); if (o.kind != 2) { o.a = R(g.pick({ 1., .5, 2. })); o.b = R(g.pick({ 0., 1., -2. })); } o.n = (numel_cnt_t)g.z(1, 50); VR b(o.n + 2, SENT); do_op(r, o, b.data() + 1, nullptr);
				VP_REQ(b[0] == SENT && b[o.n + 1] == SENT, o.nm, " wrote outside the vector");
				for (int i = 1; i <= o.n; i++) {
					double u = o.kind == 0 ? (double(b[i]) + o.a) / (2 * double(o.a)) : o.kind == 1 ? (double(b[i]) - o.b) / o.a : double(b[i]); double f = u * (1u << UB); VP_REQ(f > -.6 && f < (1u << UB) - .4, o.nm, " element ", i - 1, " is ", b[i], ", not made of a base value");
					if (EPS < 1e-10) { uint32_t k = (uint32_t)std::llround(f); VP_REQ(std::fabs(f - k) < 1e-3, o.nm, ": ", b[i], " is not made of a base value"); VP_REQ(!seen[k]++, o.nm, " handed out the same base value twice (element ", i - 1, " of ", o.n, ", call ", c, ")"); }
				}
				if (g.raw(3) == 0) usleep(50 * (unsigned)g.raw(6)); if (g.raw(12) == 0) r.seed(3);
			}
			r.deinit_rng();
		}
	} else {
		rng::AFRand_as<R, SeedRngA, Thd> r(m.ithreads(), (seedt_)g.raw(1000) + 1); if (g.b(3, 4)) r.preinit_additive_normal_distr((numel_cnt_t)g.z(1, 60)); if (g.b()) r.preinit_additive_norm((numel_cnt_t)g.z(1, 60)); VP_REQ(r.init_rng(), "init_rng failed");
		double mean = double(R(g.pick({ 0., 1., -3. }))), sd = double(R(g.pick({ 1., .5, 2. }))); std::vector<double> v; while (v.size() < 700) { int n = (int)g.z(1, 60); VR b(n); r.normal_vector(b.data(), n, R(mean), R(sd)); for (R x : b) v.push_back(x); } r.deinit_rng();
		moments(v, mean, sd, "AFRand_as::normal_vector"); std::set<double> us(v.begin(), v.end()); VP_REQ(us.size() + (EPS > 1e-10 ? 20 : 0) >= v.size(), "AFRand_as::normal_vector repeats values: ", v.size() - us.size(), " of ", v.size());
	}
}
// the circular buffer between the background producers and the consumer
VP_TESTM(databuffer, 4, 300) {
	size_t total = g.sz(1, 40); int prod = (int)g.z(1, 3), steps = (int)g.z(3, 60); VR mem(total + 2, SENT); typedef utils::DataBuffer<R, void> DB; DB db(mem.data() + 1, total);
	struct Pr { size_t n = 0; }; std::vector<Pr> P(prod); std::deque<long> model; size_t claimed = 0; long id = 1; typename DB::BufferRange_t br; bool held = false; VR heldv; std::vector<long> heldm; bool lossy = false;
	g.say("total", total, "producers", prod, "steps", steps); g.nontrivial(total > 1 && steps > 6); g.label(prod == 1 ? "one producer" : "several producers");
	auto vals = [&](const typename DB::BufferRange_t& b) { VR v(b.ptr1, b.ptr1 + b.n1); if (b.isTwoArrays()) v.insert(v.end(), b.ptr2, b.ptr2 + b.n2); return v; };
	for (int s = 0; s < steps; s++) {
		int what = (int)g.raw(4);
		if (what < 2) {
			Pr& p = P[g.raw(prod)];
			if (!p.n) {
				size_t want = g.sz(1, total + 3), got = db._as_should_work(want); size_t fr = total - model.size() - claimed;
				g.say("claim", want); VP_REQ(got <= want && got <= total, "granted ", got, " of ", want); VP_REQ(got <= fr, "step ", s, ": granted a claim of ", got, " while only ", fr, " of ", total, " cells are neither filled nor claimed"); VP_REQ(got || !fr, "step ", s, ": ", fr, " free cells but no work granted");
				p.n = got; claimed += got;
			} else { VR d; for (size_t i = 0; i < p.n; i++) { d.push_back(R(id)); model.push_back(id); id++; } g.say("done", p.n); db._as_done(d.data(), p.n); claimed -= p.n; p.n = 0; }
		} else if (!held) {
			size_t n = g.sz(1, total); br = db.acquire_data(n); g.say("acquire", n); bool can = n <= model.size();
			VP_REQ(br.acquired() == can, "step ", s, ": acquire_data(", n, ") ", br.acquired() ? "succeeded" : "failed", " with ", model.size(), " values ready");
			if (br.acquired()) { held = true; heldv = vals(br); VP_REQ(heldv.size() == n, "acquired ", heldv.size(), " values instead of ", n); for (size_t i = 0; i < n; i++) VP_REQ(heldv[i] == R(model[i]), "step ", s, ": value ", i, " handed out is ", heldv[i], ", produced in that position ", model[i]);
				if (g.raw(4) == 0) { utils::CircBufferFeeder<R, 0> f(br); size_t k = g.z(1, n); for (size_t i = 0; i < k; i++) { R v = f.next(0); VP_REQ(v == heldv[i], "feeder value ", i, " is ", v, " not ", heldv[i]); } if (k < n) { f.shrink(); db.release_data(f); model.erase(model.begin(), model.begin() + k); held = false; g.say("feeder", k); } } }
		} else { VP_REQ(vals(br) == heldv, "step ", s, ": values changed between acquire_data and release_data"); db.release_data(br); model.erase(model.begin(), model.begin() + heldv.size()); held = false; g.say("release"); }
		VP_REQ(mem[0] == SENT && mem[total + 1] == SENT, "written outside the buffer");
	}
}
}
