// P17: weights initialisation: every scheme produces the distribution/structure it names for every matrix size and generator state;
// the network asks each layer's scheme exactly once, with the layer's own geometry, keeps weights it already has, refuses foreign
// ones and reports failing schemes.
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/layer/extensions.h"
#include "nntl/interface/rng/afrand.h"
#include "nntl/interface/rng/afrand_mt.h"
#include "nntl/interface/rng/cstd.h"
#include "nntl/weights_init/static.h"
#include "nntl/interface/inspectors/dummy.h"
namespace {
static int gsz(vp::Gen& g, int lo, int hi) { return (int)g.z((size_t)lo, (size_t)hi); }
typedef rng::AFRand_mt<R, AFog::CRandomSFMT0, Thd> RngM; typedef rng::AFRand<R, AFog::CRandomSFMT0> RngS;
static const R SENT = R(-98765.25);
struct Rngs { Thd thr; RngS s; RngM m; Rngs() : s(1), m(thr) {} };
// W in a guarded position: exact-size allocation, ASan watches the surroundings
template<class S, class Rn> static bool mk(M& W, Rn& r, Math& iM) { std::fill(W.data(), W.data() + W.numel(), SENT); return S::make_weights(W, r, iM); }
static void no_sentinel(const M& W, vec_len_t cols, const char* what) { for (vec_len_t c = 0; c < cols; c++) for (vec_len_t r = 0; r < W.rows(); r++) VP_REQ(W.get(r, c) != SENT && std::isfinite(double(W.get(r, c))), what, ": weight (", r, ",", c, ") of ", W.rows(), "x", W.cols(), " was not initialised"); }
// moments of the elements of the first cols columns
struct Mom { double n = 0, m = 0, v = 0, k = 0, mx = 0; };
static Mom moments(const M& W, vec_len_t c0, vec_len_t c1) { Mom o; for (vec_len_t c = c0; c < c1; c++) for (vec_len_t r = 0; r < W.rows(); r++) { double x = W.get(r, c); o.n++; o.m += x; o.v += x * x; o.k += x * x * x * x; o.mx = std::max(o.mx, std::fabs(x)); } o.m /= o.n; o.v /= o.n; o.k /= o.n; return o; }
static void uniform_ok(const Mom& o, double s, const char* what) {
	VP_REQ(o.mx <= s * (1 + 8 * EPS), what, ": a weight of magnitude ", o.mx, " exceeds the scale ", s);
	double sd = s / std::sqrt(3.0); VP_REQ(std::fabs(o.m) <= 7.5 * sd / std::sqrt(o.n), what, ": mean ", o.m, " over ", o.n, " weights, scale ", s);
	double vv = s * s / 3, svv = s * s * std::sqrt(4.0 / 45 / o.n); VP_REQ(std::fabs(o.v - vv) <= 7.5 * svv + 1e-12 * vv, what, ": mean square ", o.v, " expected ", vv, " +-", svv, " over ", o.n, " weights");
	if (o.n >= 3000) VP_REQ(o.mx > .98 * s, what, ": ", o.n, " weights never exceed ", o.mx, " of ", s);
}
static void normal_ok(const Mom& o, double sd, const char* what) {
	VP_REQ(std::fabs(o.m) <= 7.5 * sd / std::sqrt(o.n), what, ": mean ", o.m, " over ", o.n, " weights, expected deviation ", sd);
	if (o.n >= 200) VP_REQ(std::fabs(o.v / sd / sd - 1) <= 9 * std::sqrt(2 / o.n), what, ": mean square ", o.v, " expected ", sd * sd, " over ", o.n, " weights");
	if (o.n >= 4000) { double k = o.k / (o.v * o.v); VP_REQ(std::fabs(k - 3) <= 12 * std::sqrt(24 / o.n) + .05, what, ": not normally distributed, kurtosis ", k); }
	VP_REQ(o.mx <= sd * 12, what, ": a weight of ", o.mx / sd, " deviations");
}
static void sizes(vp::Gen& g, int& r, int& c, bool big) { if (big) { r = gsz(g, 40, 90); c = gsz(g, 90, 140); if (g.b()) std::swap(r, c); } else { r = gsz(g, 1, 40); c = gsz(g, 1, 40); } g.say("neurons", r, "incoming", c); }
template<class F> static void with_rng(vp::Gen& g, Rngs& q, F&& f) { int64_t sd = (int64_t)g.seed(); if (g.b()) { q.s.seed64(sd); g.label("single-threaded generator"); f(q.s); } else { q.m.init_rng(); q.m.seed64(sd); g.label("multi-threaded generator"); f(q.m); } }
template<unsigned C> static void t_xavier(vp::Gen& g, Rngs& q, Math& iM) { int r, c; bool big = g.b(); sizes(g, r, c, big); M W((vec_len_t)r, (vec_len_t)(c + 1)); double s = C / 1e6 * std::sqrt(6.0 / (r + c + 1));
	with_rng(g, q, [&](auto& rn) { VP_REQ((mk<weights_init::Xavier<C>>(W, rn, iM)), "Xavier refused"); }); no_sentinel(W, W.cols(), "Xavier"); uniform_ok(moments(W, 0, W.cols()), s, "Xavier"); if (big) { for (vec_len_t k : { vec_len_t(0), W.cols() - 1 }) uniform_ok(moments(W, k, k + 1), s, "Xavier column"); } g.nontrivial(r * c > 20); }
template<class S> static void t_he(vp::Gen& g, Rngs& q, Math& iM, double coef2) { int r, c; bool big = g.b(); sizes(g, r, c, big); M W((vec_len_t)r, (vec_len_t)(c + 1)); double sd = std::sqrt(coef2 / c);
	with_rng(g, q, [&](auto& rn) { VP_REQ(mk<S>(W, rn, iM), "He/SNN refused"); }); no_sentinel(W, W.cols(), "He/SNN"); normal_ok(moments(W, 0, c), sd, "He/SNN"); if (big) { normal_ok(moments(W, 0, 1), sd, "He/SNN first column"); normal_ok(moments(W, c - 1, c), sd, "He/SNN last column"); }
	for (int i = 0; i < r; i++) VP_REQ(W.get(i, c) == R(0), "He/SNN: bias weight of neuron ", i, " is ", W.get(i, c)); g.nontrivial(r * c > 20); }
template<int B, unsigned S, unsigned K> static void t_mart(vp::Gen& g, Rngs& q, Math& iM) { int r, c; bool big = g.b(); sizes(g, r, c, big); c += K - 1; M W((vec_len_t)r, (vec_len_t)(c + 1)); int reps = big ? 1 : gsz(g, 1, 4); std::vector<double> cc(c), fr(c); double n = 0, sm = 0, sv = 0;
	with_rng(g, q, [&](auto& rn) { for (int p = 0; p < reps; p++) { VP_REQ((mk<weights_init::Martens_SI<B, S, K>>(W, rn, iM)), "Martens refused"); no_sentinel(W, W.cols(), "Martens");
		for (int i = 0; i < r; i++) { unsigned nz = 0; for (int j = 0; j < c; j++) if (W.get(i, j) != R(0)) { nz++; cc[j]++; double x = W.get(i, j); n++; sm += x; sv += x * x; } VP_REQ(nz == K, "Martens: neuron ", i, " of ", r, " has ", nz, " incoming connections out of ", c, " instead of ", K); VP_REQ(W.get(i, c) == R(B) / R(1000000), "Martens: bias weight ", W.get(i, c)); } } });
	double sd = S / 1e6; VP_REQ(std::fabs(sm / n) <= 7.5 * sd / std::sqrt(n), "Martens: mean ", sm / n); if (n >= 200) VP_REQ(std::fabs(sv / n / sd / sd - 1) <= 9 * std::sqrt(2 / n), "Martens: mean square ", sv / n, " expected ", sd * sd, " over ", n);
	double N = double(r) * reps, p = double(K) / c; for (int j = 0; j < c; j++) VP_REQ(std::fabs(cc[j] - N * p) <= 7.5 * std::sqrt(N * p * (1 - p)) + 8, "Martens: incoming neuron ", j, " of ", c, " was connected ", cc[j], " times of ", N, ", expected ", N * p);
	g.nontrivial(r > 2); }
template<unsigned Gn> static void t_orth(vp::Gen& g, Rngs& q, Math& iM) { int r, c; sizes(g, r, c, g.b(1, 6)); M W((vec_len_t)r, (vec_len_t)(c + 1)); with_rng(g, q, [&](auto& rn) { VP_REQ((mk<weights_init::OrthoInit<Gn>>(W, rn, iM)), "OrthoInit failed"); }); no_sentinel(W, W.cols(), "OrthoInit"); int C = c + 1; double gn = Gn / 1e6, tol = 60 * EPS * std::max(r, C) + 1e-14;
	bool tall = r >= C; int k = tall ? C : r; for (int a = 0; a < k; a++) for (int b = a; b < k; b++) { double s = 0; for (int t = 0; t < (tall ? r : C); t++) s += tall ? double(W.get(t, a)) * W.get(t, b) : double(W.get(a, t)) * W.get(b, t); VP_REQ(std::fabs(s / gn / gn - (a == b)) <= tol, "OrthoInit: ", tall ? "columns " : "rows ", a, ",", b, " of ", r, "x", C, " have product ", s, " (gain ", gn, ")"); } g.nontrivial(k > 1); }
VP_TESTM(schemes, 3, 60) { gen_math(g); Rngs q; Math iM; 
	switch (gsz(g, 0, 12)) {
	case 0: t_xavier<1000000>(g, q, iM); break; case 1: t_xavier<4000000>(g, q, iM); break; case 2: t_xavier<250000>(g, q, iM); break;
	case 3: t_he<weights_init::He_Zhang<>>(g, q, iM, 2); break; case 4: t_he<weights_init::He_Zhang<500000>>(g, q, iM, .5); break; case 5: t_he<weights_init::He_Zhang2<>>(g, q, iM, 2); break; case 6: t_he<weights_init::He_Zhang2<3500000>>(g, q, iM, 3.5); break; case 7: t_he<weights_init::SNNInit>(g, q, iM, 1); break;
	case 8: t_mart<0, 1000000, 15>(g, q, iM); break; case 9: t_mart<500000, 250000, 3>(g, q, iM); break; case 10: t_mart<-250000, 2000000, 1>(g, q, iM); break;
	case 11: t_orth<1000000>(g, q, iM); break; default: t_orth<1400000>(g, q, iM); break; } g.label("scheme"); }
// the same seed gives the same weights, another seed or another call gives other ones
template<class S> static void t_seed(vp::Gen& g, Math& iM, const char* nm) { int r = gsz(g, 2, 30), c = gsz(g, 16, 40); int64_t s1 = (int64_t)g.seed(); M A((vec_len_t)r, (vec_len_t)c), B((vec_len_t)r, (vec_len_t)c), C((vec_len_t)r, (vec_len_t)c), D((vec_len_t)r, (vec_len_t)c); Rngs q, p; g.say(nm, r, c); bool mt = g.b();
	auto go = [&](Rngs& z, int64_t sd, M& w, bool seed) { if (mt) { if (seed) { z.m.init_rng(); z.m.seed64(sd); } VP_REQ(mk<S>(w, z.m, iM), nm); } else { if (seed) z.s.seed64(sd); VP_REQ(mk<S>(w, z.s, iM), nm); } };
	go(q, s1, A, true); go(q, s1, C, false); go(p, s1, B, true); go(p, s1 + 1, D, true); VP_REQ(snap(A) == snap(B), nm, ": the same seed gave different weights"); VP_REQ(snap(A) != snap(C), nm, ": two initialisations in a row gave the same weights"); VP_REQ(snap(A) != snap(D), nm, ": another seed gave the same weights"); g.nontrivial(true); }
VP_TESTM(seeds, 1, 30) { gen_math(g); Math iM; switch (gsz(g, 0, 4)) { case 0: t_seed<weights_init::XavierFour>(g, iM, "Xavier"); break; case 1: t_seed<weights_init::He_Zhang<>>(g, iM, "He_Zhang"); break; case 2: t_seed<weights_init::SNNInit>(g, iM, "SNNInit"); break; case 3: t_seed<weights_init::Martens_SI_sigm<>>(g, iM, "Martens"); break; default: t_seed<weights_init::OrthoInit_u>(g, iM, "OrthoInit"); } }

// ---------------- layers ----------------
struct Call { vec_len_t rows, cols; bool bias; const void* p; }; static std::vector<Call> g_calls; static int g_failat = -1; static long g_fill = 0;
struct RecWI { template <typename iRng_t, typename iMath_t> static bool make_weights(typename iRng_t::realmtx_t& W, iRng_t& iR, iMath_t& iM)noexcept { (void)iR; (void)iM; g_calls.push_back({ W.rows(), W.cols(), W.emulatesBiases() || W.bBatchInRow(), W.data() }); bool ok = (int)g_calls.size() - 1 != g_failat; g_fill++; for (numel_cnt_t i = 0; i < W.numel(); i++) W.data()[i] = R(g_fill * 1000 + (i % 997)); return ok; } };
struct NI : public d_int_nI<R> { typedef inspector::dummy<R> iInspect_t; typedef Math iMath_t; typedef typename iMath_t::iThreads_t iThreads_t; typedef rng::AFRand_mt<R, AFog::CRandomSFMT0, iThreads_t> iRng_t; };
typedef grad_works<NI> NGW; typedef activation::softsign<R, 1000000, 1000000, RecWI> ARec; typedef LFC<ARec, NGW> L; typedef layer_output<activation::sigm_xentropy_loss<R, RecWI>, NGW> O;
struct W_ { std::string nm; int top; vec_len_t rows, cols; std::function<M&()> w; std::function<bool(const M&)> set; std::function<bool(M&&)> mov; std::function<void()> drop; std::function<bool()> re; std::function<bool(const M&)> fits; bool preset; };
template<class Ly> static W_ wrap(Ly& l, const char* nm, int top, int in) { Ly* p = &l; return { nm, top, (vec_len_t)l.get_neurons_cnt(), (vec_len_t)(in + 1), [p]() -> M& { return p->get_weights(); }, [p](const M& m) { return p->set_weights(m); }, [p](M&& m) { return p->set_weights(std::move(m)); }, [p]() { p->drop_weights(); }, [p]() { return p->reinit_weights(); }, [p](const M& m) { return p->isWeightsSuitable(m); }, false }; }
}
VP_TESTM(layers_protocol, 2, 40) {
	gen_math(g); g_calls.clear(); g_failat = -1; g_fill = 0;
	int n = gsz(g, 2, 6), no = gsz(g, 1, 3), k = gsz(g, 1, 3);
	layer_input<NI> inp(n); L a(gsz(g, 1, 5)), b(gsz(g, 1, 5)), c(gsz(g, 1, 5)), d(k * gsz(g, 1, 3)), e(gsz(g, 1, 4)), t(gsz(g, 1, 4)); O o(no);
	int s = gsz(g, 1, n), u = gsz(g, 0, s); if (u == n) u = n - 1; auto v = make_layer_pack_vertical(b, c);
	LPH<PHL<L>, PHL<decltype(v)>> ph(make_PHL(a, 0, s), make_PHL(v, u, n - u)); LPT<L> pt(t, k); auto lp = make_layers(inp, ph, d, pt, e, o); auto nn = make_nnet(lp);
	std::vector<W_> Ls = { wrap(a, "first layer of the pack", 1, s), wrap(b, "vertical pack, lower", 1, n - u), wrap(c, "vertical pack, upper", 1, (int)b.get_neurons_cnt()), wrap(d, "layer over the pack", (int)d.get_layer_idx(), (int)a.get_neurons_cnt() + (int)c.get_neurons_cnt()), wrap(t, "tiled layer", (int)pt.get_layer_idx(), (int)d.get_neurons_cnt() / k), wrap(e, "layer over the tiles", (int)e.get_layer_idx(), (int)t.get_neurons_cnt() * k), wrap(o, "output layer", (int)o.get_layer_idx(), (int)e.get_neurons_cnt()) };
	Ls[0].top = Ls[1].top = Ls[2].top = (int)ph.get_layer_idx();
	bool init = false; std::vector<VR> cur(Ls.size()); std::vector<bool> has(Ls.size(), false); int judged = 0;
	g.say("in", n, "ranges", s, u, "tiles", k);
	auto rndM = [&](M& m, vec_len_t r, vec_len_t cc) { (void)m.resize(r, cc); vp::Rnd q(g.seed()); for (numel_cnt_t i = 0; i < m.numel(); i++) m.data()[i] = R(q.unit()); };
	auto check = [&](const char* when) { for (size_t i = 0; i < Ls.size(); i++) if (has[i]) { M& w = Ls[i].w(); VP_REQ(w.rows() == Ls[i].rows && w.cols() == Ls[i].cols, when, ": ", Ls[i].nm, " has ", w.rows(), "x", w.cols(), " weights, expected ", Ls[i].rows, "x", Ls[i].cols); VP_REQ(snap(w) == cur[i], when, ": weights of ", Ls[i].nm, " changed"); judged++; } };
	for (int step = 0, steps = gsz(g, 3, 10); step < steps; step++) {
		int op = gsz(g, 0, 7); int i = gsz(g, 0, (int)Ls.size() - 1); W_& l = Ls[i];
		if (op <= 2) { // initialise (maybe with a failing scheme)
			if (init) { nn.deinit(); init = false; check("deinit"); }
			std::vector<int> need; for (size_t j = 0; j < Ls.size(); j++) if (!has[j]) need.push_back((int)j);
			g_calls.clear(); long f0 = g_fill; g_failat = op == 2 && !need.empty() ? gsz(g, 0, (int)need.size() - 1) : -1;
			int bs = gsz(g, 1, 5), mf = bs + gsz(g, 0, 3); auto ec = nn.___init((vec_len_t)mf, (vec_len_t)(g.b(3, 4) ? bs : 0), false);
			size_t want = g_failat < 0 ? need.size() : (size_t)g_failat + 1; VP_REQ(g_calls.size() == want, "initialisation asked for weights ", g_calls.size(), " times, ", need.size(), " layers had none", g_failat < 0 ? "" : " and one refused");
			for (size_t j = 0; j < g_calls.size(); j++) { W_& q = Ls[need[j]]; VP_REQ(g_calls[j].rows == q.rows && g_calls[j].cols == q.cols && !g_calls[j].bias, "the scheme of ", q.nm, " was given a ", g_calls[j].rows, "x", g_calls[j].cols, " matrix, expected ", q.rows, "x", q.cols); }
			if (g_failat >= 0) { VP_REQ(ec == (decltype(ec))decltype(nn)::ErrorCode::CantInitializeWeights, "a scheme that failed gave: ", nn.get_last_error_string(), " code ", (int)ec);
				std::string es = nn.get_last_error_string(), w2 = "(layer#" + std::to_string(Ls[need[g_failat]].top) + ")"; VP_REQ(es.find(w2) != std::string::npos, "failure inside ", w2, " was reported as: ", es);
				for (int j = 0; j < g_failat; j++) { has[need[j]] = true; VR x(Ls[need[j]].rows * Ls[need[j]].cols); for (size_t p = 0; p < x.size(); p++) x[p] = R((f0 + 1 + j) * 1000 + (long)(p % 997)); cur[need[j]] = x; }
				g.label("failing scheme"); check("failed initialisation"); g_failat = -1; judged++; }
			else { VP_REQ((int)ec == 0, nn.get_last_error_string()); init = true; for (size_t j = 0; j < need.size(); j++) { has[need[j]] = true; VR x(Ls[need[j]].rows * Ls[need[j]].cols); for (size_t p = 0; p < x.size(); p++) x[p] = R((f0 + 1 + (long)j) * 1000 + (long)(p % 997)); cur[need[j]] = x; } check("initialisation"); g.label(need.empty() ? "init, all preset" : "init"); } }
		else if (op == 3) { if (init) { nn.deinit(); init = false; } check("deinit"); g.label("deinit"); }
		else if (op == 4) { if (init) { nn.deinit(); init = false; } if (has[i]) { l.drop(); has[i] = false; g.label("drop_weights"); } check("drop_weights of another layer"); }
		else if (op == 5) { if (init && has[i]) { g_calls.clear(); long f0 = g_fill; VP_REQ(l.re(), "reinit_weights failed"); VP_REQ(g_calls.size() == 1 && g_calls[0].rows == l.rows && g_calls[0].cols == l.cols, "reinit_weights of ", l.nm, " asked ", g_calls.size(), " schemes"); for (size_t p = 0; p < cur[i].size(); p++) cur[i][p] = R((f0 + 1) * 1000 + (long)(p % 997)); check("reinit_weights"); g.label("reinit_weights"); } }
		else if (op == 6) { M m; m.dont_emulate_biases(); rndM(m, l.rows, l.cols); VR x = snap(m); VP_REQ(l.fits(m), "a matrix of the right size is reported unsuitable for ", l.nm); if (g.b()) { VP_REQ(l.set(m), "set_weights refused a matrix of the right size"); VP_REQ(snap(m) == x, "set_weights changed its argument"); } else VP_REQ(l.mov(std::move(m)), "set_weights refused a matrix of the right size"); has[i] = true; cur[i] = x; check("set_weights"); g.label("set_weights"); }
		else { M m; m.dont_emulate_biases(); int how = gsz(g, 0, 5); vec_len_t r = l.rows, cc = l.cols; if (how == 0) r++; else if (how == 1) cc++; else if (how == 2) { if (r < 2) r += 2; else r--; } else if (how == 3) { if (cc < 2) cc += 3; else cc--; } else if (how == 4) { if (r == cc) { r++; cc--; } else std::swap(r, cc); if (cc < 1) cc = 5; } else m.will_emulate_biases();
			if (how == 5) { if (cc < 2) continue; M e2(r, cc - 1, true); VP_REQ(!l.fits(e2), "a matrix emulating biases is reported suitable"); bool okk = g.b() ? l.set(e2) : l.mov(std::move(e2)); VP_REQ(!okk, "set_weights of ", l.nm, " accepted a matrix with an emulated bias column"); }
			else { rndM(m, r, cc); VP_REQ(!l.fits(m), "a ", r, "x", cc, " matrix is reported suitable for ", l.nm, " which needs ", l.rows, "x", l.cols); bool okk = g.b() ? l.set(m) : l.mov(std::move(m)); VP_REQ(!okk, "set_weights of ", l.nm, " accepted a ", r, "x", cc, " matrix instead of ", l.rows, "x", l.cols); }
			check("refused set_weights"); judged++; g.label("foreign weights refused"); }
	}
	g.nontrivial(judged > 6);
}
// schemes inside a network use the layer's own geometry and the network's own generator
VP_TESTM(layers_schemes, 1, 30) {
	gen_math(g); typedef LFC<activation::sigm<R, weights_init::XavierFour>, NGW> La; typedef LFC<activation::relu<R, weights_init::He_Zhang<>>, NGW> Lb; typedef LFC<activation::softsign<R, 1000000, 1000000, weights_init::Martens_SI<100000, 500000, 4>>, NGW> Lc; typedef LFC<activation::identity<R, weights_init::OrthoInit<2000000>>, NGW> Ld; typedef layer_output<activation::sigm_xentropy_loss<R, weights_init::Xavier<>>, NGW> Lo;
	int n = gsz(g, 4, 30); layer_input<NI> inp(n); La a(gsz(g, 4, 60)); Lb b(gsz(g, 4, 60)); Lc c(gsz(g, 1, 30)); Ld d(gsz(g, 1, 30)); Lo o(gsz(g, 1, 20)); auto lp = make_layers(inp, a, b, c, d, o); auto nn = make_nnet(lp); int64_t sd = (int64_t)g.seed(); g.say(n, a.get_neurons_cnt(), b.get_neurons_cnt(), c.get_neurons_cnt(), d.get_neurons_cnt(), o.get_neurons_cnt());
	auto all = [&]() { std::vector<VR> v = { snap(a.get_weights()), snap(b.get_weights()), snap(c.get_weights()), snap(d.get_weights()), snap(o.get_weights()) }; return v; };
	auto go = [&](int64_t s) { nn.get_iRng().init_rng(); nn.get_iRng().seed64(s); VP_REQ((int)nn.___init(4, (vec_len_t)(g.b() ? 3 : 0), false) == 0, nn.get_last_error_string()); };
	go(sd); auto w1 = all();
	uniform_ok(moments(a.get_weights(), 0, n + 1), 4 * std::sqrt(6.0 / ((int)a.get_neurons_cnt() + n + 1)), "XavierFour layer");
	int na = (int)a.get_neurons_cnt(), nb = (int)b.get_neurons_cnt(), nc = (int)c.get_neurons_cnt(), nd = (int)d.get_neurons_cnt(); normal_ok(moments(b.get_weights(), 0, na), std::sqrt(2.0 / na), "He_Zhang layer"); for (int i = 0; i < nb; i++) VP_REQ(b.get_weights().get(i, na) == R(0), "He_Zhang layer: nonzero bias");
	for (int i = 0; i < nc; i++) { int nz = 0; for (int j = 0; j < nb; j++) nz += c.get_weights().get(i, j) != R(0); VP_REQ(nz == 4, "Martens layer: neuron with ", nz, " connections"); VP_REQ(c.get_weights().get(i, nb) == R(100000) / R(1000000), "Martens layer: bias ", c.get_weights().get(i, nb)); }
	{ const M& W = d.get_weights(); bool tall = W.rows() >= W.cols(); int kk = std::min<int>(W.rows(), W.cols()); for (int p = 0; p < kk; p++) { double q = 0; for (int t2 = 0; t2 < (tall ? (int)W.rows() : (int)W.cols()); t2++) { double x = tall ? W.get(t2, p) : W.get(p, t2); q += x * x; } VP_REQ(std::fabs(q / 4 - 1) < 100 * EPS * std::max<int>(W.rows(), W.cols()) + 1e-14, "OrthoInit layer: norm^2 ", q, " with gain 2"); } }
	uniform_ok(moments(o.get_weights(), 0, nd + 1), std::sqrt(6.0 / ((int)o.get_neurons_cnt() + nd + 1)), "Xavier output layer");
	nn.deinit(); auto w2 = all(); VP_REQ(w1 == w2, "deinit() changed the weights"); a.drop_weights(); b.drop_weights(); c.drop_weights(); d.drop_weights(); o.drop_weights(); go(sd); VP_REQ(all() == w1, "the same seed gave different initial weights"); nn.deinit(); a.drop_weights(); b.drop_weights(); c.drop_weights(); d.drop_weights(); o.drop_weights(); go(sd + 7); auto w3 = all(); VP_REQ(w3[0] != w1[0] && w3[1] != w1[1] && w3[2] != w1[2] && w3[4] != w1[4], "another seed gave the same initial weights"); g.nontrivial(true);
}
