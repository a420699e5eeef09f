// net.h - whole networks for the network-level properties: a menu of architectures (selected by VP_ARCH) with generated sizes,
// wiring and hyper-parameters, each with an independent long double reference of its forward pass.
#pragma once
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/layer/extensions.h"
#include "nntl/interface/rng/afrand_mt.h"
#include "nntl/interface/inspectors/dummy.h"
#ifndef VP_ARCH
#define VP_ARCH 1
#endif
namespace {
typedef long double LD;
struct Mx { int n = 0, c = 0; std::vector<LD> v, e; /* values and rounding-error bounds */ Mx() {} Mx(int n_, int c_) : n(n_), c(c_), v((size_t)n_ * c_), e((size_t)n_ * c_) {} LD& er(int i, int j) { return e[(size_t)j * n + i]; } LD er(int i, int j) const { return e[(size_t)j * n + i]; } LD& at(int i, int j) { return v[(size_t)j * n + i]; } LD at(int i, int j) const { return v[(size_t)j * n + i]; } };
static bool g_ambig = false; /* a gate value is too close to its threshold to decide */
typedef std::function<Mx(const Mx&)> RF; typedef std::function<LD(LD)> AF;
template<class X> static Mx to_mx(const math::smatrix<X>& m) { Mx r((int)m.batch_size(), (int)m.sample_size()); if (m.bBatchInColumn()) for (int j = 0; j < r.c; j++) for (int i = 0; i < r.n; i++) r.at(i, j) = m.get(i, j); else for (int j = 0; j < r.c; j++) for (int i = 0; i < r.n; i++) r.at(i, j) = m.get(j, i); return r; }
static Mx to_mx_nb(const MD& X, int nin) { Mx r((int)X.rows(), nin); for (int j = 0; j < nin; j++) for (int i = 0; i < r.n; i++) r.at(i, j) = X.get(i, j); return r; }
static AF a_sigm() { return [](LD z) { return 1 / (1 + expl(-z)); }; }
static AF a_id() { return [](LD z) { return z; }; }
static AF a_relu() { return [](LD z) { return z > 0 ? z : 0.0L; }; }
static AF a_leaky(LD k) { return [=](LD z) { return z > 0 ? z : k * z; }; }
static AF a_elu(LD a) { return [=](LD z) { return z < 0 ? a * expm1l(z) : z; }; }
static AF a_selu() { return [](LD z) { LD a = 1.6732632423543772848170429916717L, l = 1.0507009873554804934193349852946L; return z < 0 ? l * a * expm1l(z) : l * z; }; }
static AF a_softsign(LD a = 1, LD c = 1) { return [=](LD z) { return c * z / (a + fabsl(z)); }; }
static AF a_softsigm(LD a) { return [=](LD z) { return .5L + .5L * z / (a + fabsl(z)); }; }
static AF a_loglogu() { return [](LD z) { return z < 0 ? -log1pl(-z) / logl(3) : log1pl(z) / logl(2); }; }
template<class L> static RF r_fc(L& l, AF a) { L* p = &l; return [p, a](const Mx& x) { const auto& W = p->get_weights(); int no = (int)W.rows(); Mx r(x.n, no);
	if ((int)W.cols() != x.c + 1) vp::fail("layer ", p->get_layer_name_str(), " has weights for ", W.cols() - 1, " inputs but receives ", x.c);
	for (int i = 0; i < x.n; i++) for (int o = 0; o < no; o++) { LD s = W.get(o, x.c), m = fabsl(s), es = 0; for (int k = 0; k < x.c; k++) { LD w = W.get(o, k), t = w * x.at(i, k); s += t; m += fabsl(t); es += fabsl(w) * x.er(i, k); } es += (x.c + 3) * EPS * m; LD q = a(s); r.at(i, o) = q; r.er(i, o) = std::max(fabsl(a(s + es) - q), fabsl(a(s - es) - q)) + 24 * EPS * (fabsl(q) + .25L); } return r; }; }
static RF r_seq(std::vector<RF> l) { return [l](const Mx& x) { Mx r = x; for (auto& f : l) r = f(r); return r; }; }
struct RP { RF f; int o, n; };
static Mx sub(const Mx& x, int o, int n) { Mx r(x.n, n); for (int j = 0; j < n; j++) for (int i = 0; i < x.n; i++) { r.at(i, j) = x.at(i, o + j); r.er(i, j) = x.er(i, o + j); } return r; }
static Mx hcat(const std::vector<Mx>& p) { int c = 0; for (auto& q : p) c += q.c; Mx r(p[0].n, c); c = 0; for (auto& q : p) for (int j = 0; j < q.c; j++, c++) for (int i = 0; i < r.n; i++) { r.at(i, c) = q.at(i, j); r.er(i, c) = q.er(i, j); } return r; }
static RF r_ph(std::vector<RP> l) { return [l](const Mx& x) { std::vector<Mx> o; for (auto& p : l) o.push_back(p.f(sub(x, p.o, p.n))); return hcat(o); }; }
static RF r_id() { return [](const Mx& x) { return x; }; }
static RF r_bin(LD t) { return [t](const Mx& x) { Mx r = x; for (size_t i = 0; i < r.v.size(); i++) { if (fabsl(r.v[i] - t) <= r.e[i]) g_ambig = true; r.v[i] = r.v[i] > t ? 1 : 0; r.e[i] = 0; } return r; }; }
static RF r_tile(RF f, int k) { return [f, k](const Mx& x) { int w = x.c / k; std::vector<Mx> o; for (int t = 0; t < k; t++) o.push_back(f(sub(x, t * w, w))); return hcat(o); }; }
// gate first, one gate column per following layer
static RF r_gated(bool feature, RP gate, std::vector<RP> l) { return [=](const Mx& x) { Mx G = gate.f(sub(x, gate.o, gate.n)); std::vector<Mx> o; o.push_back(G); if (feature) { Mx c = G; for (auto& v : c.v) v = 1 - v; o.push_back(c); }
	for (size_t k = 0; k < l.size(); k++) { Mx y = l[k].f(sub(x, l[k].o, l[k].n)); for (int i = 0; i < y.n; i++) if (G.at(i, (int)k) == 0) for (int j = 0; j < y.c; j++) y.at(i, j) = y.er(i, j) = 0; o.push_back(y); } return hcat(o); }; }

template<typename Insp> struct NIb : public d_int_nI<R> { typedef Insp iInspect_t; typedef Math iMath_t; typedef typename iMath_t::iThreads_t iThreads_t; typedef rng::AFRand_mt<R, AFog::CRandomSFMT0, iThreads_t> iRng_t; };
#ifndef VP_INSPECTOR
#define VP_INSPECTOR inspector::dummy<R>
#endif
typedef NIb<VP_INSPECTOR> NI;
typedef grad_works<NI> NGW;
typedef weights_init::XavierFour WIn;
struct Arch { int nin = 0, nout = 0; int tgt = 0; /*0 real, 1 binary, 2 in (0,1), 3 distribution*/ std::vector<int> gates; int tag = 0; bool stoch = false; RF ref; std::string name; bool wpen = false, hidelate = false; std::function<LD()> actpen; std::function<VR()> frozen; std::function<LD(LD, LD)> loss; };
static LD l_quad(LD a, LD y) { return (a - y) * (a - y) / 2; }
static LD l_xent(LD a, LD y) { LD lz = math::real_t_limits<R>::log_almost_zero; if (y > 0) return -(a == 0 ? lz : logl(a)); return -(a == 1 ? lz : log1pl(-a)); }
typedef activation::softsign<R, 1000000, 1000000, WIn> ASoft; typedef activation::elu<R, 1700, WIn> AElu; typedef activation::selu<R, 0, 0, 0, 1000000, WIn> ASelu; typedef activation::sigm<R, WIn> ASigm; typedef activation::leaky_relu_100<R, WIn> ALeaky; typedef activation::identity<R, WIn> AId; typedef activation::softsigm<R, 1500, WIn> ASSigm; typedef activation::loglogu<R, 3000, 2000, WIn> ALog;
typedef layer_input<NI> LIn;
typedef layer_output<activation::sigm_xentropy_loss<R, WIn>, NGW> OSigmX; typedef layer_output<activation::sigm_quad_loss<R, WIn>, NGW> OSigmQ; typedef layer_output<activation::identity_quad_loss<R, WIn>, NGW> OIdQ; typedef layer_output<activation::softsigm_xentropy_loss<R, 1500, WIn>, NGW> OSSX;
static int gsz(vp::Gen& g, int lo, int hi) { return (int)g.z((size_t)lo, (size_t)hi); }
static R glr(vp::Gen& g) { return R(g.pick({ .1, .5, 1., .01 })); }
template<class F> static void arch_body(vp::Gen& g, F&& f);

#if VP_ARCH == 1	// plain deep network with weight penalties, several activations
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nin = gsz(g, 1, 7); A.nout = gsz(g, 1, 4); A.tgt = 1; A.name = "deep"; A.wpen = true; A.loss = l_xent;
	LIn inp(A.nin); LFC<ASoft, NGW> a(gsz(g, 1, 6), glr(g)); LFC<AElu, NGW> b(gsz(g, 1, 6), glr(g)); LFC<ASelu, NGW> c(gsz(g, 1, 6), glr(g)); LFC<ALog, NGW> d(gsz(g, 1, 5), glr(g)); OSigmX o(A.nout, glr(g));
	auto pen = [&](auto& l) { if (g.b()) l.get_gradWorks().L2(R(g.pick({ .1, .01 })), g.b(2, 3)); if (g.b(1, 3)) l.get_gradWorks().L1(R(g.pick({ .05, .01 })), g.b(2, 3)); };
	pen(a); pen(b); pen(c); pen(d); pen(o);
	A.ref = r_seq({ r_fc(a, a_softsign()), r_fc(b, a_elu(R(1700) / R(1000))), r_fc(c, a_selu()), r_fc(d, a_loglogu()), r_fc(o, a_sigm()) });
	auto lp = make_layers(inp, a, b, c, d, o); f(lp, A);
}
#elif VP_ARCH == 2	// horizontal packs with overlapping receptive fields, identity sublayer, stacked packs
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nin = gsz(g, 2, 8); A.nout = gsz(g, 1, 3); A.tgt = 0; A.name = "horizontal packs"; A.loss = l_quad;
	LIn inp(A.nin); LFC<ASoft, NGW> a(gsz(g, 1, 4), glr(g)), c(gsz(g, 1, 4), glr(g)); LFC<ASigm, NGW> b(gsz(g, 1, 4), glr(g)), d(gsz(g, 1, 4), glr(g)); LFC<AElu, NGW> e(gsz(g, 1, 4), glr(g)); LI<NI> id; OIdQ o(A.nout, glr(g));
	int n = A.nin, s1 = gsz(g, 1, n), o2 = gsz(g, 0, s1), oi = gsz(g, 0, n - 1), ni = gsz(g, 1, n - oi);
	if (o2 == n) o2 = n - 1;	// b covers [o2,n)
	LPH<PHL<LFC<ASoft, NGW>>, PHL<LFC<ASigm, NGW>>, PHL<LI<NI>>> p1(make_PHL(a, 0, s1), make_PHL(b, o2, n - o2), make_PHL(id, oi, ni));
	int w = (int)a.get_neurons_cnt() + (int)b.get_neurons_cnt() + ni, q = gsz(g, 1, w - 1), q2 = gsz(g, 0, q);
	int e0 = gsz(g, 0, w - 1), e1 = gsz(g, 1, w - e0);
	LPH<PHL<LFC<ASoft, NGW>>, PHL<LFC<AElu, NGW>>, PHL<LFC<ASigm, NGW>>> p2(make_PHL(c, 0, q), make_PHL(e, e0, e1), make_PHL(d, q2, w - q2));
	A.ref = r_seq({ r_ph({ { r_fc(a, a_softsign()), 0, s1 }, { r_fc(b, a_sigm()), o2, n - o2 }, { r_id(), oi, ni } }), r_ph({ { r_fc(c, a_softsign()), 0, q }, { r_fc(e, a_elu(R(1700) / R(1000))), e0, e1 }, { r_fc(d, a_sigm()), q2, w - q2 } }), r_fc(o, a_id()) });
	g.say("ranges", s1, o2, oi, ni, "|", q, e0, e1, q2);
	auto lp = make_layers(inp, p1, p2, o); f(lp, A);
}
#elif VP_ARCH == 3	// vertical packs inside horizontal ones and the other way round
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nin = gsz(g, 2, 7); A.nout = gsz(g, 1, 3); A.tgt = 2; A.name = "nested packs"; A.loss = l_quad; A.wpen = true;
	typedef LFC<ASoft, NGW> L; typedef LFC<ASelu, NGW> L2;
	LIn inp(A.nin); L u(gsz(g, 2, 5), glr(g)), a(gsz(g, 1, 4), glr(g)), b(gsz(g, 1, 4), glr(g)), d(gsz(g, 1, 4), glr(g)); L2 c(gsz(g, 1, 4), glr(g)), e(gsz(g, 1, 4), glr(g)), k(gsz(g, 1, 4), glr(g)); OSigmQ o(A.nout, glr(g));
	auto pen = [&](auto& l) { if (g.b(1, 3)) l.get_gradWorks().L2(R(g.pick({ .1, .01 }))); }; pen(a); pen(c); pen(k); pen(u);
	auto v = make_layer_pack_vertical(a, c);	// inside p1
	int n = (int)u.get_neurons_cnt(), s = gsz(g, 1, n), t = gsz(g, 0, s); if (t == n) t = n - 1;
	LPH<PHL<decltype(v)>, PHL<L>> p1(make_PHL(v, 0, s), make_PHL(b, t, n - t));
	// vertical pack: horizontal pack + layer
	int w = (int)c.get_neurons_cnt() + (int)b.get_neurons_cnt(), q = gsz(g, 1, w - 1), q2 = gsz(g, 0, q);
	LPH<PHL<L>, PHL<L2>> pin(make_PHL(d, 0, q), make_PHL(e, q2, w - q2));
	L2 hh(w, glr(g)); auto vv2 = make_layer_pack_vertical(hh, pin, k);
	auto lp = make_layers(inp, u, p1, vv2, o);
	A.ref = r_seq({ r_fc(u, a_softsign()), r_ph({ { r_seq({ r_fc(a, a_softsign()), r_fc(c, a_selu()) }), 0, s }, { r_fc(b, a_softsign()), t, n - t } }), r_fc(hh, a_selu()), r_ph({ { r_fc(d, a_softsign()), 0, q }, { r_fc(e, a_selu()), q2, w - q2 } }), r_fc(k, a_selu()), r_fc(o, a_sigm()) });
	g.say("ranges", s, t, q, q2);
	f(lp, A);
}
#elif VP_ARCH == 4	// tiled layers (over the input, over hidden layers, a tiled vertical pack)
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	int k1 = gsz(g, 1, 4), k2 = gsz(g, 1, 3), k3 = gsz(g, 1, 3); Arch A; A.nin = k1 * gsz(g, 1, 3); A.nout = gsz(g, 1, 3); A.tgt = 1; A.name = "tiled"; A.loss = l_xent; A.wpen = true;
	typedef LFC<ASoft, NGW> L; typedef LFC<ASigm, NGW> LS; LIn inp(A.nin); L a(gsz(g, 1, 3), glr(g)); LPT<L> t1(a, k1); LS m(k2 * gsz(g, 1, 3), glr(g)); L b(gsz(g, 1, 4), glr(g)), c(k3 * gsz(g, 1, 2), glr(g)); auto v = make_layer_pack_vertical(b, c); LPT<decltype(v)> t2(v, k2); LS d(gsz(g, 1, 3), glr(g)); LPT<LS> t3(d, k3); OSSX o(A.nout, glr(g));
	if (g.b(1, 3)) { a.get_gradWorks().L2(R(.1)); c.get_gradWorks().L1(R(.01)); }
	A.ref = r_seq({ r_tile(r_fc(a, a_softsign()), k1), r_fc(m, a_sigm()), r_tile(r_seq({ r_fc(b, a_softsign()), r_fc(c, a_softsign()) }), k2), r_tile(r_fc(d, a_sigm()), k3), r_fc(o, a_softsigm(R(1500) / R(1000))) });
	g.say("tiles", k1, k2, k3);
	auto lp = make_layers(inp, t1, m, t2, t3, o); f(lp, A);
}
#elif VP_ARCH == 5	// optional (gated) pack directly over the data, "data not present" feature on, three gated layers
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nout = gsz(g, 1, 3); A.tgt = 0; A.name = "gated pack over data, with absence feature"; A.loss = l_quad; typedef LFC<ASoft, NGW> L; typedef LFC<AElu, NGW> L2;
	int n1 = gsz(g, 1, 3), n2 = gsz(g, 1, 3), n3 = gsz(g, 1, 3); A.nin = 3 + n1 + n2 + n3; bool gfirst = g.b(); int go = gfirst ? 0 : n1 + n2 + n3, base = gfirst ? 3 : 0; for (int i = 0; i < 3; i++) A.gates.push_back(go + i);
	LIn inp(A.nin); LIGf<500000, false, NI> gate; L a(gsz(g, 1, 4), glr(g)), d(gsz(g, 1, 4), glr(g)); L2 b(gsz(g, 1, 4), glr(g)), c(gsz(g, 1, 4), glr(g)), e(gsz(g, 1, 4), glr(g)); auto v = make_layer_pack_vertical(c, d);
	LPHO<true, PHL<LIGf<500000, false, NI>>, PHL<L>, PHL<L2>, PHL<decltype(v)>> p(make_PHL(gate, go, 3), make_PHL(a, base, n1), make_PHL(b, base + n1, n2), make_PHL(v, base + n1 + n2, n3)); OIdQ o(A.nout, glr(g));
	A.ref = r_seq({ r_gated(true, { r_id(), go, 3 }, { { r_fc(a, a_softsign()), base, n1 }, { r_fc(b, a_elu(R(1700) / R(1000))), base + n1, n2 }, { r_seq({ r_fc(c, a_elu(R(1700) / R(1000))), r_fc(d, a_softsign()) }), base + n1 + n2, n3 } }), r_fc(e, a_elu(R(1700) / R(1000))), r_fc(o, a_id()) });
	g.say("gate at", go, "fields", n1, n2, n3);
	auto lp = make_layers(inp, p, e, o); f(lp, A);
}
#elif VP_ARCH == 6	// gated pack over a hidden layer, binarising gate, no feature, inside a vertical pack / next to other layers
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nin = gsz(g, 2, 5); A.nout = gsz(g, 1, 3); A.tgt = 1; A.name = "gated pack over hidden layers"; A.loss = l_xent; typedef LFC<ASoft, NGW> L; typedef LFC<ASigm, NGW> LS; typedef LFC<ASelu, NGW> L2;
	int n1 = gsz(g, 1, 3), n2 = gsz(g, 1, 3), w = 2 + n1 + n2; LIn inp(A.nin); LS u(w, glr(g)); LIGf<500000, true, NI> gate; L a(gsz(g, 1, 4), glr(g)); L2 b(gsz(g, 1, 4), glr(g)); L x(gsz(g, 1, 3), glr(g)); OSigmX o(A.nout, glr(g));
	typedef LPHO<false, PHL<LIGf<500000, true, NI>>, PHL<L>, PHL<L2>> Op; Op p(make_PHL(gate, 0, 2), make_PHL(a, 2, n1), make_PHL(b, 2 + n1, n2));
	int xo = gsz(g, 0, w - 1), xn = gsz(g, 1, w - xo);
	LPH<PHL<Op>, PHL<L>> hp(make_PHL(p, 0, w), make_PHL(x, xo, xn));
	A.ref = r_seq({ r_fc(u, a_sigm()), r_ph({ { r_gated(false, { r_bin(.5L), 0, 2 }, { { r_fc(a, a_softsign()), 2, n1 }, { r_fc(b, a_selu()), 2 + n1, n2 } }), 0, w }, { r_fc(x, a_softsign()), xo, xn } }), r_fc(o, a_sigm()) });
	g.say("fields", n1, n2, "side layer", xo, xn);
	auto lp = make_layers(inp, u, hp, o); f(lp, A);
}
#elif VP_ARCH == 7	// dropout: plain layers, alpha dropout, dropout over a pack, dropout inside a pack and a tile
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nin = gsz(g, 1, 6); A.nout = gsz(g, 1, 3); A.tgt = 1; A.name = "dropout"; A.loss = l_xent; A.stoch = true; typedef LFC_DO<ASoft, NGW> LD_; typedef LFC_DO<ASelu, NGW> LAl; typedef LFC<ASoft, NGW> L;
	LIn inp(A.nin); LD_ a(gsz(g, 1, 6), glr(g)); LAl b(gsz(g, 1, 6), glr(g)); L c(gsz(g, 1, 4), glr(g)), d(gsz(g, 1, 4), glr(g)); int n = (int)b.get_neurons_cnt(), s = gsz(g, 1, n), t = gsz(g, 0, s); if (t == n) t = n - 1;
	LD_ e(gsz(g, 1, 4), glr(g));
	LPH_DO<Dropout<R>, PHL<L>, PHL<LD_>> p(nullptr, std::make_tuple(make_PHL(c, 0, s), make_PHL(e, t, n - t)));
	LD_ q(gsz(g, 1, 3), glr(g)); int k = gsz(g, 1, 3); L m(k * gsz(g, 1, 2), glr(g)); LPT<LD_> tl(q, k); OSigmX o(A.nout, glr(g));
	auto dp = [&](auto& l) { l.dropoutPercentActive(R(g.pick({ .5, .8, .3, 1. }))); }; dp(a); dp(b); dp(e); if (e.bDropout()) { if (g.b()) { dp(p); } } else dp(p); dp(q);
	A.ref = r_seq({ r_fc(a, a_softsign()), r_fc(b, a_selu()), r_ph({ { r_fc(c, a_softsign()), 0, s }, { r_fc(e, a_softsign()), t, n - t } }), r_fc(m, a_softsign()), r_tile(r_fc(q, a_softsign()), k), r_fc(o, a_sigm()) }); (void)d;
	g.say("p", double(a.dropoutPercentActive()), b.bDropout(), double(p.dropoutPercentActive()), double(e.dropoutPercentActive()), double(q.dropoutPercentActive()));
	auto lp = make_layers(inp, a, b, p, m, tl, o); f(lp, A);
}
#elif VP_ARCH == 8	// activation penalties (L1, L2, DeCov; evaluated on fprop or on bprop), on layers and packs
static LD pen_l1(const Mx& x) { LD s = 0; for (auto v : x.v) s += fabsl(v); return s; }
static LD pen_l2(const Mx& x) { LD s = 0; for (auto v : x.v) s += v * v; return s / 2; }
static LD pen_decov(const Mx& x) { std::vector<LD> mu(x.c); for (int j = 0; j < x.c; j++) { for (int i = 0; i < x.n; i++) mu[j] += x.at(i, j); mu[j] /= x.n; } LD s = 0; for (int a = 0; a < x.c; a++) for (int b = 0; b < x.c; b++) if (a != b) { LD c = 0; for (int i = 0; i < x.n; i++) c += (x.at(i, a) - mu[a]) * (x.at(i, b) - mu[b]); c /= x.n; s += c * c; } return s / 2 / (x.c - 1); }
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nin = gsz(g, 1, 6); A.nout = gsz(g, 1, 3); A.tgt = 0; A.name = "activation penalties"; A.loss = l_quad; A.wpen = true;
	typedef loss_addendum::L2<R> P2; typedef loss_addendum::L1<R> P1; typedef loss_addendum::L2<R, true> P2f; typedef loss_addendum::DeCov<R> PD; typedef loss_addendum::DeCov<R, true, true, true> PDf;
	typedef LFC_PA<std::tuple<P2>, ASoft, NGW> La; typedef LFC_PA<std::tuple<P1, PD>, ASigm, NGW> Lb; typedef LFC_PA<std::tuple<P2f, PDf>, ASelu, NGW> Lc; typedef LFC<ASoft, NGW> L;
	LIn inp(A.nin); La a(gsz(g, 1, 5), glr(g)); Lb b(gsz(g, 2, 5), glr(g)); Lc c(gsz(g, 2, 4), glr(g)); L d(gsz(g, 1, 4), glr(g)), e(gsz(g, 1, 4), glr(g)); OIdQ o(A.nout, glr(g));
	int n = (int)b.get_neurons_cnt(), s = gsz(g, 1, n), t = gsz(g, 0, s); if (t == n) t = n - 1;
	LPH_PA<std::tuple<P2>, PHL<Lc>, PHL<L>> p(nullptr, std::make_tuple(make_PHL(c, 0, s), make_PHL(d, t, n - t)));
	auto sc = [&] { return R(g.pick({ .5, .1, 0., 2. })); }; R s0 = sc(), s1 = sc(), s2 = sc(), s3 = sc(), s4 = sc(), s5 = sc();
	a.template addendum<0>().scale(s0); b.template addendum<0>().scale(s1); b.template addendum<1>().scale(s2); c.template addendum<0>().scale(s3); c.template addendum<1>().scale(s4); p.template addendum<0>().scale(s5);
	if (g.b(1, 3)) { a.get_gradWorks().L2(R(.1)); d.get_gradWorks().L1(R(.01)); }
	A.actpen = [&, s0, s1, s2, s3, s4, s5] { Mx ma = to_mx(a.get_activations()), mb = to_mx(b.get_activations()), mp = to_mx(p.get_activations()); Mx mc = sub(mp, 0, (int)c.get_neurons_cnt()); return s0 * pen_l2(ma) + s1 * pen_l1(mb) + s2 * pen_decov(mb) + s3 * pen_l2(mc) + s4 * pen_decov(mc) + s5 * pen_l2(mp); };
	A.ref = r_seq({ r_fc(a, a_softsign()), r_fc(b, a_sigm()), r_ph({ { r_fc(c, a_selu()), 0, s }, { r_fc(d, a_softsign()), t, n - t } }), r_fc(e, a_softsign()), r_fc(o, a_id()) });
	g.say("scales", double(s0), double(s1), double(s2), double(s3), double(s4), double(s5));
	auto lp = make_layers(inp, a, b, p, e, o); f(lp, A);
}
#elif VP_ARCH == 9	// frozen feature layers, a tiled horizontal pack, a layer with zero learning rate that still propagates
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	int k = gsz(g, 1, 3), m = gsz(g, 2, 4); Arch A; A.nin = gsz(g, 1, 6); A.nout = gsz(g, 1, 3); A.tgt = 2; A.name = "frozen layers and tiled packs"; A.loss = l_quad; A.wpen = true;
	typedef LFC_FProp<NI, ASoft> LF; typedef LFC<ASoft, NGW> L; typedef LFC<AElu, NGW> L2; typedef LFC<ASelu, NGW> L3;
	LIn inp(A.nin); LF z(gsz(g, 1, 5)), zz(gsz(g, 1, 3)), u(gsz(g, 1, 4)); L h(k * m, glr(g)), a(gsz(g, 1, 3), glr(g)); L2 b(gsz(g, 1, 3), glr(g)), c(gsz(g, 1, 4), R(0)), d(gsz(g, 1, 4), g.b(1, 3) ? R(0) : glr(g)); OSigmQ o(A.nout, glr(g)); L3 e(gsz(g, 1, 3), glr(g));
	int n = A.nin, s = gsz(g, 1, n), t = gsz(g, 0, s); if (t == n) t = n - 1;
	auto zv = make_layer_pack_vertical(z, zz); // only frozen layers may share a pack
	LPH<PHL<decltype(zv)>, PHL<LF>> p0(make_PHL(zv, 0, s), make_PHL(u, t, n - t));
	int q = gsz(g, 1, m), r = gsz(g, 0, q); if (r == m) r = m - 1;
	typedef LPH<PHL<L>, PHL<L2>> TP; TP tp(make_PHL(a, 0, q), make_PHL(b, r, m - r)); LPT<TP> tl(tp, k); 
	if (g.b(1, 3)) { a.get_gradWorks().L2(R(.1)); c.get_gradWorks().L2(R(.1)); d.get_gradWorks().L1(R(.01)); }
	A.frozen = [&] { VR v = snap(z.get_weights()), w = snap(zz.get_weights()), x = snap(u.get_weights()); v.insert(v.end(), w.begin(), w.end()); v.insert(v.end(), x.begin(), x.end()); return v; };
	A.ref = r_seq({ r_ph({ { r_seq({ r_fc(z, a_softsign()), r_fc(zz, a_softsign()) }), 0, s }, { r_fc(u, a_softsign()), t, n - t } }), r_fc(h, a_softsign()), r_tile(r_ph({ { r_fc(a, a_softsign()), 0, q }, { r_fc(b, a_elu(R(1700) / R(1000))), r, m - r } }), k), r_fc(c, a_elu(R(1700) / R(1000))), r_fc(e, a_selu()), r_fc(d, a_elu(R(1700) / R(1000))), r_fc(o, a_sigm()) });
	g.say("ranges", s, t, "|", q, r, "tiles", k);
	auto lp = make_layers(inp, p0, h, tl, c, e, d, o); f(lp, A);
}
#elif VP_ARCH == 10	// gated pack with penalties and dropout around it, a gated pack inside a gated pack, penalised layers with dropout
static LD pen_l1(const Mx& x) { LD s = 0; for (auto v : x.v) s += fabsl(v); return s; }
static LD pen_l2(const Mx& x) { LD s = 0; for (auto v : x.v) s += v * v; return s / 2; }
static LD pen_decov(const Mx& x) { std::vector<LD> mu(x.c); for (int j = 0; j < x.c; j++) { for (int i = 0; i < x.n; i++) mu[j] += x.at(i, j); mu[j] /= x.n; } LD s = 0; for (int a = 0; a < x.c; a++) for (int b = 0; b < x.c; b++) if (a != b) { LD c = 0; for (int i = 0; i < x.n; i++) c += (x.at(i, a) - mu[a]) * (x.at(i, b) - mu[b]); c /= x.n; s += c * c; } return s / 2 / (x.c - 1); }
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nout = gsz(g, 1, 3); A.tgt = 0; A.name = "penalised gated packs with dropout"; A.loss = l_quad; A.stoch = true; A.wpen = true;
	typedef LFC<ASoft, NGW> L; typedef LFC<AElu, NGW> L2; typedef loss_addendum::L2<R> P2; typedef loss_addendum::L1<R, true> P1f; typedef loss_addendum::DeCov<R> PD; typedef loss_addendum::L2<R, true> P2f;
	int n1 = gsz(g, 1, 3), n2 = gsz(g, 1, 3), n3 = gsz(g, 1, 3); A.nin = 4 + n1 + n2 + n3; // [g g][n1][ (g g)[n2][n3] ]
	A.gates = { 0, 1, 2 + n1, 3 + n1 };
	typedef LIGf<500000, false, NI> Gt; LIn inp(A.nin); Gt g1, g2; L a(gsz(g, 1, 3), glr(g)), b(gsz(g, 1, 3), glr(g)); L2 c(gsz(g, 1, 3), glr(g)); 
	typedef LPHO<true, PHL<Gt>, PHL<L>, PHL<L2>> In_; In_ in_(make_PHL(g2, 0, 2), make_PHL(b, 2, n2), make_PHL(c, 2 + n2, n3));
	typedef LPHO_PA_DO<std::tuple<P2, PD>, Dropout<R>, false, PHL<Gt>, PHL<L>, PHL<In_>> Po; Po p(nullptr, std::make_tuple(make_PHL(g1, 0, 2), make_PHL(a, 2, n1), make_PHL(in_, 2 + n1, 2 + n2 + n3)));
	typedef LFC_PA_DO<std::tuple<P1f, P2>, ASoft, NGW> Ld; typedef LFC_PA_DO<std::tuple<P2f>, ASelu, NGW> Ls; Ld d(gsz(g, 1, 4), glr(g)); Ls e(gsz(g, 1, 4), glr(g)); OIdQ o(A.nout, glr(g));
	auto dp = [&](auto& l) { l.dropoutPercentActive(R(g.pick({ 1., .5, .8, .3 }))); }; dp(p); dp(d); dp(e);
	auto sc = [&] { return R(g.pick({ .5, .1, 0., 2. })); }; R s0 = sc(), s1 = sc(), s2 = sc(), s3 = sc(), s4 = sc();
	p.template addendum<0>().scale(s0); p.template addendum<1>().scale(s1); d.template addendum<0>().scale(s2); d.template addendum<1>().scale(s3); e.template addendum<0>().scale(s4);
	RF fi = r_gated(true, { r_id(), 0, 2 }, { { r_fc(b, a_softsign()), 2, n2 }, { r_fc(c, a_elu(R(1700) / R(1000))), 2 + n2, n3 } }), fp = r_gated(false, { r_id(), 0, 2 }, { { r_fc(a, a_softsign()), 2, n1 }, { fi, 2 + n1, 2 + n2 + n3 } }), fd = r_fc(d, a_softsign()), fe = r_fc(e, a_selu());
	// the penalties see the activations before dropout, and a gated pack without its gate
	A.actpen = [&, s0, s1, s2, s3, s4] { Mx mp = fp(to_mx(inp.get_activations())), md = fd(to_mx(p.get_activations())), me = fe(to_mx(d.get_activations())); Mx mq = sub(mp, 2, mp.c - 2); return s0 * pen_l2(mq) + s1 * pen_decov(mq) + s2 * pen_l1(md) + s3 * pen_l2(md) + s4 * pen_l2(me); };
	A.ref = r_seq({ fp, fd, fe, r_fc(o, a_id()) });
	g.say("fields", n1, n2, n3, "keep", double(p.dropoutPercentActive()), double(d.dropoutPercentActive()), e.bDropout(), "scales", double(s0), double(s1), double(s2), double(s3), double(s4));
	auto lp = make_layers(inp, p, d, e, o); f(lp, A);
}
#elif VP_ARCH == 11	// a tiled gated pack over the data, gated packs with vertical/tiled content over hidden layers
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	int k = gsz(g, 1, 3), n1 = gsz(g, 1, 2), n2 = gsz(g, 1, 2), w = 2 + n1 + n2; Arch A; A.nin = k * w; A.nout = gsz(g, 1, 3); A.tgt = 1; A.name = "tiled gated packs"; A.loss = l_xent;
	bool gf = g.b(); int go = gf ? 0 : n1 + n2, b0 = gf ? 2 : 0; for (int t = 0; t < k; t++) { A.gates.push_back(t * w + go); A.gates.push_back(t * w + go + 1); }
	typedef LIGf<500000, false, NI> Gt; typedef LIGf<300000, true, NI> Gb; typedef LFC<ASoft, NGW> L; typedef LFC<ASigm, NGW> LS; typedef LFC<ASelu, NGW> L2;
	LIn inp(A.nin); Gt g1; L a(gsz(g, 1, 3), glr(g)); L2 b(gsz(g, 1, 3), glr(g)); typedef LPHO<true, PHL<Gt>, PHL<L>, PHL<L2>> Op; Op p(make_PHL(g1, go, 2), make_PHL(a, b0, n1), make_PHL(b, b0 + n1, n2)); LPT<Op> tl(p, k);
	int k2 = gsz(g, 1, 2), n3 = k2 * gsz(g, 1, 2), n4 = gsz(g, 1, 2); LS h(2 + n3 + n4, glr(g)); Gb g2; L c(gsz(g, 1, 3), glr(g)), d(gsz(g, 1, 3), glr(g)); L2 e(gsz(g, 1, 3), glr(g)); LPT<L> tc(c, k2); auto v = make_layer_pack_vertical(d, e);
	LPHO<false, PHL<Gb>, PHL<LPT<L>>, PHL<decltype(v)>> p2(make_PHL(g2, n3, 2), make_PHL(tc, 0, n3), make_PHL(v, n3 + 2, n4)); OSigmX o(A.nout, glr(g));
	A.ref = r_seq({ r_tile(r_gated(true, { r_id(), go, 2 }, { { r_fc(a, a_softsign()), b0, n1 }, { r_fc(b, a_selu()), b0 + n1, n2 } }), k), r_fc(h, a_sigm()), r_gated(false, { r_bin(LD(R(300000) / R(1e6))), n3, 2 }, { { r_tile(r_fc(c, a_softsign()), k2), 0, n3 }, { r_seq({ r_fc(d, a_softsign()), r_fc(e, a_selu()) }), n3 + 2, n4 } }), r_fc(o, a_sigm()) });
	g.say("tiles", k, k2, "gate at", go, "fields", n1, n2, n3, n4);
	auto lp = make_layers(inp, tl, h, p2, o); f(lp, A);
}
#elif VP_ARCH == 12	// penalised layers inside gated, vertical, horizontal and tiled packs; a penalised horizontal pack with dropout
static LD pen_l1(const Mx& x) { LD s = 0; for (auto v : x.v) s += fabsl(v); return s; }
static LD pen_l2(const Mx& x) { LD s = 0; for (auto v : x.v) s += v * v; return s / 2; }
static LD pen_decov(const Mx& x) { if (!x.n) return 0; std::vector<LD> mu(x.c); for (int j = 0; j < x.c; j++) { for (int i = 0; i < x.n; i++) mu[j] += x.at(i, j); mu[j] /= x.n; } LD s = 0; for (int a = 0; a < x.c; a++) for (int b = 0; b < x.c; b++) if (a != b) { LD c = 0; for (int i = 0; i < x.n; i++) c += (x.at(i, a) - mu[a]) * (x.at(i, b) - mu[b]); c /= x.n; s += c * c; } return s / 2 / (x.c - 1); }
static Mx open_rows(const Mx& x, const Mx& gate, int col) { std::vector<int> k; for (int i = 0; i < x.n; i++) if (gate.at(i, col) != 0) k.push_back(i); Mx r((int)k.size(), x.c); for (int j = 0; j < x.c; j++) for (int i = 0; i < r.n; i++) r.at(i, j) = x.at(k[i], j); return r; }
static Mx stack_tiles(const Mx& x, int k) { int w = x.c / k; Mx r(x.n * k, w); for (int t = 0; t < k; t++) for (int j = 0; j < w; j++) for (int i = 0; i < x.n; i++) r.at(t * x.n + i, j) = x.at(i, t * w + j); return r; }
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	Arch A; A.nout = gsz(g, 1, 3); A.tgt = 0; A.name = "penalised layers in packs"; A.loss = l_quad; A.stoch = true; A.wpen = true;
	typedef loss_addendum::L2<R> P2; typedef loss_addendum::L1<R, true> P1f; typedef loss_addendum::DeCov<R> PD; typedef loss_addendum::L2<R, true> P2f; typedef loss_addendum::DeCov<R, true, true, true> PDf;
	typedef LFC_PA<std::tuple<P2, PDf>, ASoft, NGW> La; typedef LFC_PA<std::tuple<PD, P1f>, AElu, NGW> Lb; typedef LFC<ASoft, NGW> L; typedef LIGf<500000, false, NI> Gt; typedef LFC_PA_DO<std::tuple<P2f>, ASoft, NGW> Ld; typedef LFC_PA<std::tuple<P2f, PD>, ASelu, NGW> Lt;
	int n1 = gsz(g, 1, 3), n2 = gsz(g, 1, 3); A.nin = 2 + n1 + n2; A.gates = { 0, 1 };
	LIn inp(A.nin); Gt g1; La a(gsz(g, 2, 3), glr(g)); Lb b(gsz(g, 2, 3), glr(g)); L c(gsz(g, 1, 3), glr(g)); auto v = make_layer_pack_vertical(b, c);
	typedef LPHO<true, PHL<Gt>, PHL<La>, PHL<decltype(v)>> Po; Po p(make_PHL(g1, 0, 2), make_PHL(a, 2, n1), make_PHL(v, 2 + n1, n2));
	int w = 4 + (int)a.get_neurons_cnt() + (int)c.get_neurons_cnt(), k = gsz(g, 1, 3), m = gsz(g, 1, 2), s = gsz(g, 1, w), t0 = gsz(g, 0, s); if (t0 == w) t0 = w - 1;
	L h(k * m, glr(g)); Lt tt(gsz(g, 2, 3), glr(g)); LPT<Lt> tl(tt, k); auto v2 = make_layer_pack_vertical(h, tl); Ld d(gsz(g, 1, 3), glr(g)); OIdQ o(A.nout, glr(g));
	LPHt_PA_DO<std::tuple<P1f>, Dropout<R>, std::tuple<PHL<decltype(v2)>, PHL<Ld>>> q(nullptr, std::make_tuple(make_PHL(v2, 0, s), make_PHL(d, t0, w - t0)));
	d.dropoutPercentActive(R(g.pick({ 1., .5, .8 }))); const bool ddo = d.bDropout(); if (!ddo) q.dropoutPercentActive(R(g.pick({ 1., .5, .8 })));
	auto sc = [&] { return R(g.pick({ .5, .1, 0., 2. })); }; R s0 = sc(), s1 = sc(), s2 = sc(), s3 = sc(), s4 = sc(), s5 = sc(), s6 = sc(), s7 = sc();
	a.template addendum<0>().scale(s0); a.template addendum<1>().scale(s1); b.template addendum<0>().scale(s2); b.template addendum<1>().scale(s3); tt.template addendum<0>().scale(s4); tt.template addendum<1>().scale(s5); if (ddo) s7 = 0; if (q.bDropout()) s6 = 0; /* pack and layer share activations: the training mode loss of the one would see the dropout of the other */ d.template addendum<0>().scale(s6); q.template addendum<0>().scale(s7);
	if (g.b(1, 3)) { h.get_gradWorks().L2(R(.1)); tt.get_gradWorks().L1(R(.01)); }
	RF fa = r_fc(a, a_softsign()), fb = r_fc(b, a_elu(R(1700) / R(1000))), fc = r_fc(c, a_softsign()), fh = r_fc(h, a_softsign()), ft = r_tile(r_fc(tt, a_selu()), k), fd = r_fc(d, a_softsign());
	RF fq = r_ph({ { r_seq({ fh, ft }), 0, s }, { fd, t0, w - t0 } }), fp = r_gated(true, { r_id(), 0, 2 }, { { fa, 2, n1 }, { r_seq({ fb, fc }), 2 + n1, n2 } });
	A.actpen = [&, s0, s1, s2, s3, s4, s5, s6, s7, n1, n2, k, s, t0, w, fa, fb, fh, ft, fd, fq] { Mx x = to_mx(inp.get_activations()), ma = open_rows(fa(sub(x, 2, n1)), x, 0), mb = open_rows(fb(sub(x, 2 + n1, n2)), x, 1), y = to_mx(p.get_activations()), mt = stack_tiles(ft(fh(sub(y, 0, s))), k), md = fd(sub(y, t0, w - t0));
		return s0 * pen_l2(ma) + s1 * pen_decov(ma) + s2 * pen_decov(mb) + s3 * pen_l1(mb) + s4 * pen_l2(mt) + s5 * pen_decov(mt) + s6 * pen_l2(md) + s7 * pen_l1(fq(y)); };
	A.ref = r_seq({ fp, fq, r_fc(o, a_id()) });
	g.say("fields", n1, n2, "tiles", k, "x", m, "ranges", s, t0, "keep", double(d.dropoutPercentActive()), double(q.dropoutPercentActive()), "scales", double(s0), double(s1), double(s2), double(s3), double(s4), double(s5), double(s6), double(s7));
	auto lp = make_layers(inp, p, q, o); f(lp, A);
}
#elif VP_ARCH == 13	// softmax output, rectifiers, layers told not to update their weights
static RF r_soft() { return [](const Mx& x) { Mx r = x; for (int i = 0; i < x.n; i++) { LD m = -1e300L, me = 0, s = 0; for (int j = 0; j < x.c; j++) { m = std::max(m, x.at(i, j)); me = std::max(me, x.er(i, j)); } for (int j = 0; j < x.c; j++) s += expl(x.at(i, j) - m); LD rel = expm1l(2 * me) + 24 * EPS; for (int j = 0; j < x.c; j++) { LD q = expl(x.at(i, j) - m) / s; r.at(i, j) = q; r.er(i, j) = q * (rel + 2 * EPS * fabsl(x.at(i, j) - m)) + 4 * (LD)std::numeric_limits<R>::min(); } } return r; }; }
static LD l_soft(LD a, LD y) { return y == 0 ? 0.0L : -y * (a > 0 ? logl(a) : (LD)math::real_t_limits<R>::log_almost_zero); }
template<class F> static void arch_body(vp::Gen& g, F&& f) {
	typedef activation::relu<R, WIn> ARelu; typedef layer_output<activation::softmax_xentropy_loss<R, WIn>, NGW> OSoftm; typedef LFC<ARelu, NGW> LR; typedef LFC<ALeaky, NGW> LL; typedef LFC<AId, NGW> LId; typedef LFC<ASSigm, NGW> L;
	Arch A; A.nin = gsz(g, 2, 7); A.nout = gsz(g, g.b(1, 12) ? 1 : 2, 5); A.tgt = 3; A.name = "softmax"; A.wpen = true; A.loss = l_soft;
	LIn inp(A.nin); LR a(gsz(g, 1, 6), glr(g)); LL b(gsz(g, 1, 5), glr(g)), e(gsz(g, 1, 5), glr(g)); L c(gsz(g, 1, 4), glr(g)); LId d(gsz(g, 1, 4), glr(g)); OSoftm o(A.nout, glr(g));
	int n = (int)a.get_neurons_cnt(), s = gsz(g, 1, n), t = gsz(g, 0, s); if (t == n) t = n - 1;
	auto v = make_layer_pack_vertical(b, c); LPH<PHL<decltype(v)>, PHL<LId>> p(make_PHL(v, 0, s), make_PHL(d, t, n - t));
	auto pen = [&](auto& l) { if (g.b(1, 4)) l.get_gradWorks().L2(R(g.pick({ .1, .01 })), g.b(2, 3)); }; pen(a); pen(b); pen(c); pen(o);
	int mask = g.b() ? 0 : (int)g.raw(63); auto nu = [&](auto& l, int k) { if (mask >> k & 1) l._setUpdateWeights(false); }; nu(a, 0); nu(b, 1); nu(c, 2); nu(d, 3); nu(e, 4); nu(o, 5); g.labelif(mask != 0, "layers that don't update");
	A.ref = r_seq({ r_fc(a, a_relu()), r_ph({ { r_seq({ r_fc(b, a_leaky(LD(R(1) / R(100)))), r_fc(c, a_softsigm(R(1500) / R(1000))) }), 0, s }, { r_fc(d, a_id()), t, n - t } }), r_fc(e, a_leaky(LD(R(1) / R(100)))), r_fc(o, a_id()), r_soft() });
	g.say("ranges", s, t, "not updating", mask);
	auto lp = make_layers(inp, a, p, e, o); f(lp, A);
}
#endif

// ---- helpers over the learnable layers of a pack -----------------------------------------------------------------------------
struct LRef { R* w; numel_cnt_t n; bool upd; vec_len_t rows, cols; std::function<double()> lr; std::function<int()> bs; std::function<void(double)> setlr; std::function<LD(std::vector<LD>*)> pen; std::string name; };
struct Collect { std::vector<LRef>& v;
	template<class L> std::enable_if_t<nntl::layer_has_gradworks<L>::value> operator()(L& l) const { typedef std::decay_t<L> T; T* p = const_cast<T*>(&l); auto& W = p->get_weights(); LRef r; r.w = const_cast<R*>(W.data()); r.n = W.numel(); r.upd = p->bUpdateWeights(); r.rows = W.rows(); r.cols = W.cols(); r.name = p->get_layer_name_str();
		r.lr = [p] { return p->bUpdateWeights() ? double(p->get_gradWorks().learning_rate()) : 0.; }; r.setlr = [p](double x) { p->get_gradWorks().learning_rate(R(x)); }; r.bs = [p] { return (int)p->get_activations().batch_size(); };
		r.pen = [p](std::vector<LD>* d) { auto& gw = p->get_gradWorks(); auto& W = p->get_weights(); LD l1 = gw.template addendum<0>().scale(), l2 = gw.template addendum<1>().scale(); bool i1 = gw.addendumIgnoresBias(0), i2 = gw.addendumIgnoresBias(1); LD s = 0; numel_cnt_t nb = W.numel() - W.rows(); if (d) d->assign((size_t)W.numel(), 0);
			for (numel_cnt_t i = 0; i < W.numel(); i++) { LD w = W.data()[i]; if (l1 != 0 && !(i1 && i >= nb)) { s += l1 * fabsl(w); if (d) (*d)[i] += l1 * (w > 0 ? 1 : w < 0 ? -1 : 0); } if (l2 != 0 && !(i2 && i >= nb)) { s += l2 * w * w / 2; if (d) (*d)[i] += l2 * w; } } return s; };
		v.push_back(r); }
	template<class L> std::enable_if_t<!nntl::layer_has_gradworks<L>::value> operator()(L&) const {} };
template<class LP> static std::vector<LRef> learnables(LP& lp) { std::vector<LRef> v; lp.for_each_layer_exc_input(Collect{ v }); return v; }
static void rnd_weights(std::vector<LRef>& L, uint64_t seed, double s) { vp::Rnd r(seed); for (auto& l : L) for (numel_cnt_t i = 0; i < l.n; i++) l.w[i] = R((2 * r.unit() - 1) * s); }
static std::vector<VR> save_w(const std::vector<LRef>& L) { std::vector<VR> v; for (auto& l : L) v.push_back(VR(l.w, l.w + l.n)); return v; }
static void load_w(std::vector<LRef>& L, const std::vector<VR>& v) { for (size_t i = 0; i < L.size(); i++) std::copy(v[i].begin(), v[i].end(), L[i].w); }
// data: X with biases (samples in rows), Y
static void gen_xy(const Arch& A, MD& X, MD& Y, uint64_t seed, double s = 2) { vp::Rnd r(seed);
	for (vec_len_t i = 0; i < X.rows(); i++) for (int j = 0; j < A.nin; j++) { bool gt = std::find(A.gates.begin(), A.gates.end(), j) != A.gates.end(); X.set(i, j, gt ? R(r.below(3) ? 1 : 0) : R((2 * r.unit() - 1) * s)); }
	if (A.tgt == 3) { for (vec_len_t i = 0; i < Y.rows(); i++) { bool hot = r.below(3) != 0; uint64_t h = r.below((uint64_t)A.nout); double q = hot ? 0 : r.unit(); for (int j = 0; j < A.nout; j++) Y.set(i, j, R(A.nout == 1 ? 1 : (j == (int)h ? 1 - q : 0) + (j == (int)((h + 1) % A.nout) ? q : 0))); } return; }
	for (vec_len_t i = 0; i < Y.rows(); i++) for (int j = 0; j < A.nout; j++) Y.set(i, j, A.tgt == 1 ? R(r.below(2)) : A.tgt == 2 ? R(r.unit()) : R(2 * r.unit() - 1)); }
}
