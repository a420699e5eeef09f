// P05: activation functions, their derivatives, losses and loss derivatives vs. mathematical definitions in terms of the pre-activation
#include "mc.h"
#include "nntl/nntl.h"
namespace {
typedef long double LD;
namespace vpact = nntl::activation; typedef nntl::weights_init::XavierFour WI;
struct Spec { const char* name; std::function<LD(LD)> f, df; int at0; /* derivative convention at 0: 0: skip, 1: left, 2: right */ bool steep; };
template<class Act> struct Tag { typedef Act type; };
static LD lnb(LD b) { return logl(b); }
// reference definitions -------------------------------------------------------
static Spec S_id() { return { "identity", [](LD z) { return z; }, [](LD) { return 1.0L; }, 2, false }; }
static Spec S_sigm() { return { "sigm", [](LD z) { return 1 / (1 + expl(-z)); }, [](LD z) { LD s = 1 / (1 + expl(-z)); return s * (1 - s); }, 2, false }; }
static Spec S_relu() { return { "relu", [](LD z) { return z > 0 ? z : 0.0L; }, [](LD z) { return z > 0 ? 1.0L : 0.0L; }, 1, false }; }
static Spec S_leaky(LD k) { return { "leaky_relu", [=](LD z) { return z > 0 ? z : k * z; }, [=](LD z) { return z > 0 ? 1.0L : k; }, 1, false }; }
static Spec S_elu(LD a) { return { "elu", [=](LD z) { return z < 0 ? a * expm1l(z) : z; }, [=](LD z) { return z < 0 ? a * expl(z) : 1.0L; }, 0, false }; }
static Spec S_selu() { LD a = 1.6732632423543772848170429916717L, l = 1.0507009873554804934193349852946L; return { "selu", [=](LD z) { return z < 0 ? l * a * expm1l(z) : l * z; }, [=](LD z) { return z < 0 ? l * a * expl(z) : l; }, 0, false }; }
static Spec S_selu2(LD a, LD l) { return { "selu_custom", [=](LD z) { return z < 0 ? l * a * expm1l(z) : l * z; }, [=](LD z) { return z < 0 ? l * a * expl(z) : l; }, 0, false }; }
// bases: 2718 (per mille) stands for e
static LD base(int b1e3) { return b1e3 == 2718 ? expl(1.0L) : LD(R(b1e3) / R(1000)); }
static Spec S_elogu(LD a, int b) { LD l = lnb(base(b)); return { "elogu", [=](LD z) { return z < 0 ? a * expm1l(z) : log1pl(z) / l; }, [=](LD z) { return z < 0 ? a * expl(z) : 1 / ((1 + z) * l); }, 0, true }; }
static Spec S_logu(int b) { LD l = lnb(base(b)); return { "logu", [=](LD z) { return z <= 0 ? 0.0L : log1pl(z) / l; }, [=](LD z) { return z <= 0 ? 0.0L : 1 / ((1 + z) * l); }, 0, true }; }
static Spec S_loglogu(int bn, int bp) { LD ln = lnb(base(bn)), lp = lnb(base(bp)); return { "loglogu", [=](LD z) { return z < 0 ? -log1pl(-z) / ln : log1pl(z) / lp; }, [=](LD z) { return z < 0 ? 1 / ((1 - z) * ln) : 1 / ((1 + z) * lp); }, 0, true }; }
static Spec S_softsign(LD a, LD c) { return { "softsign", [=](LD z) { return c * z / (a + fabsl(z)); }, [=](LD z) { LD d = a + fabsl(z); return c * a / (d * d); }, 2, false }; }
static Spec S_softsigm(LD a) { return { "softsigm", [=](LD z) { return .5L + .5L * z / (a + fabsl(z)); }, [=](LD z) { LD d = a + fabsl(z); return .5L * a / (d * d); }, 2, false }; }
static Spec S_step() { return { "step", [](LD z) { return z < 0 ? 0.0L : 1.0L; }, [](LD) { return 0.0L; }, 2, false }; }

static void gen_z(vp::Gen& g, M& Z, double lo, double hi) { RndFill f = gen_fill(g, lo, hi); fill(Z, f); }
template<class Act> static void run_act(vp::Gen& g, const Spec& s) {
	Math& m = gen_math(g); vec_len_t r, c; gen_dims(g, r, c); bool bias = g.b(), bir = g.b(1, 4); int rng = (int)g.raw(4); double lim = rng == 0 ? 1 : rng == 1 ? 4 : rng == 2 ? 0.01 : 12;
	M Z = bias ? (bir ? M(c, r, true, true) : M(r, c, true)) : M(r, c, false, bir); 
	if (bias && bir) Z.set_biases();
	if (bias && bir && !strcmp(s.name, "softmax")) return;
	gen_z(g, Z, -lim, lim); VR z = snap(Z); g.say(s.name, r, "x", c, bias, bir, "lim", lim); g.label(s.name); g.nontrivial(r * c > 1);
	// activations are only applied to matrices that keep samples in rows of a matrix or have no biases
	if (bir && bias) { bir = false; Z = M(r, c, true); gen_z(g, Z, -lim, lim); z = snap(Z); }
	Act::f(Z, m);
	for (numel_cnt_t i = 0; i < Z.numel(); i++) { if (is_bias(Z, i)) { VP_REQ(Z.data()[i] == z[i], s.name, " changed bias element ", i); continue; } LD e = s.f(z[i]); CLOSE(double(Z.data()[i]), double(e), 1, 12, s.name, " of ", double(z[i])); if (z[i] == 0) VP_REQ(double(Z.data()[i]) == double(s.f(0)), s.name, " of zero is ", Z.data()[i]); }
	M D(r, c); for (numel_cnt_t i = 0; i < D.numel(); i++) D.data()[i] = Z.data()[i]; VR a = snap(D);
	Act::df(D, m);
	for (numel_cnt_t i = 0; i < D.numel(); i++) { if (z[i] == 0 && s.at0 == 0) continue; LD e = s.df(z[i]); double got = D.data()[i];
		// an activation rounded to the other branch's value (underflow to +-0) has a one-sided derivative
		if (a[i] == 0 && z[i] != 0) continue;
		CLOSE(got, double(e), 2, s.steep ? 48 : 24, s.name, "' at ", double(z[i]), " activation ", double(a[i])); }
	VP_REQ(Act::act_scaling_coeff() > 0, "scaling coefficient");
}
#define ACT(nm, w, spec, ...) VP_TESTM(nm, w, 60) { run_act<__VA_ARGS__>(g, spec); }
ACT(identity, 1, S_id(), vpact::identity<R, WI>)
ACT(sigm, 2, S_sigm(), vpact::sigm<R, WI>)
ACT(relu, 2, S_relu(), vpact::relu<R, WI>)
ACT(leaky100, 1, S_leaky(R(100) / R(10000)), vpact::leaky_relu_100<R, WI>)
ACT(leaky1000, 1, S_leaky(R(100) / R(100000)), vpact::leaky_relu_1000<R, WI>)
ACT(leaky5p5, 1, S_leaky(R(100) / R(550)), vpact::very_leaky_relu_5p5<R, WI>)
ACT(elu1, 2, S_elu(1), vpact::elu_ua<R, WI>)
ACT(elu_a, 2, S_elu(R(1700) / R(1000)), vpact::elu<R, 1700, WI>)
ACT(selu, 2, S_selu(), vpact::selu<R, 0, 0, 0, 1000000, WI>)
ACT(selu_c, 1, S_selu2(1.5L, 1.25L), vpact::selu<R, 1500000000, 1250000000, 0, 1000000, WI>)
ACT(elogu, 1, S_elogu(R(1300) / R(1000), 2000), vpact::elogu<R, 1300, 2000, WI>)
ACT(elogu_ua, 1, S_elogu(1, 3000), vpact::elogu_ua<R, 3000, WI>)
ACT(elogu_nb, 1, S_elogu(R(700) / R(1000), 2718), vpact::elogu_nb<R, 700, WI>)
ACT(elogu_ua_nb, 1, S_elogu(1, 2718), vpact::elogu_ua_nb<R, WI>)
ACT(logu, 1, S_logu(2000), vpact::logu<R, 2000, WI>)
ACT(logu_nb, 1, S_logu(2718), vpact::logu_nb<R, WI>)
ACT(loglogu, 1, S_loglogu(3000, 2000), vpact::loglogu<R, 3000, 2000, WI>)
ACT(loglogu_nbn, 1, S_loglogu(2718, 2500), vpact::loglogu_nbn<R, 2500, WI>)
ACT(loglogu_nbp, 1, S_loglogu(2500, 2718), vpact::loglogu_nbp<R, 2500, WI>)
ACT(loglogu_n, 1, S_loglogu(2718, 2718), vpact::loglogu_nbn_nbp<R, WI>)
ACT(softsign11, 1, S_softsign(1, 1), vpact::softsign_uc_ua<R, WI>)
ACT(softsign_a, 1, S_softsign(R(2500000) / R(1e6), 1), vpact::softsign<R, 2500000, 1000000, WI>)
ACT(softsign_ac, 1, S_softsign(R(1500000) / R(1e6), R(2000000) / R(1e6)), vpact::softsign<R, 1500000, 2000000, WI>)
ACT(softsign_c, 1, S_softsign(1, R(700000) / R(1e6)), vpact::softsign<R, 1000000, 700000, WI>)
ACT(softsigm, 1, S_softsigm(R(1500) / R(1000)), vpact::softsigm<R, 1500, WI>)
ACT(softsigm_ua, 1, S_softsigm(1), vpact::softsigm_ua<R, WI>)
ACT(step, 1, S_step(), vpact::step<R, WI>)

// losses ------------------------------------------------------------------------
struct LSpec { const char* name; const Spec act; std::function<LD(LD, LD)> loss, dLdA; int ykind; /* 0 any real, 1 {0,1}, 2 [0,1] */ bool clamp; };
static LD q_loss(LD a, LD y) { return (a - y) * (a - y) / 2; } static LD q_d(LD a, LD y) { return a - y; }
static LD x_loss(LD a, LD y) { LD lz = math::real_t_limits<R>::log_almost_zero; if (y > 0) return -(a == 0 ? lz : logl(a)); return -(a == 1 ? lz : log1pl(-a)); }
static LD x_d(LD a, LD y) { return (a - y) / (a * (1 - a)); }
template<class Act> static void run_loss(vp::Gen& g, const LSpec& s) {
	Math& m = gen_math(g); vec_len_t r, c; gen_dims(g, r, c); double lim = g.pick({ 1.0, 3.0, 0.05 }); M Z(r, c), Y(r, c); gen_z(g, Z, -lim, lim); VR z = snap(Z); vp::Rnd q(g.seed());
	for (numel_cnt_t i = 0; i < Y.numel(); i++) Y.data()[i] = s.ykind == 1 ? R(q.below(2)) : s.ykind == 2 ? R(q.unit()) : R(q.unit() * 4 - 2);
	if (s.ykind == 0 && g.b()) for (numel_cnt_t i = 0; i < Y.numel(); i++) if (q.below(3) == 0) { const R sp[5] = { R(0), R(500000) / R(1e6), R(300000) / R(1e6), R(1), z[i] }; Y.data()[i] = sp[q.below(5)]; }
	VR y = snap(Y); g.say(s.name, r, "x", c, lim); g.label(s.name); g.nontrivial(r * c > 1);
	Act::f(Z, m); if (s.ykind == 1 && g.b(1, 4)) { g.label("saturated"); for (numel_cnt_t i = 0; i < Z.numel(); i++) if (q.below(5) == 0) Z.data()[i] = R(q.below(2)); 
		LD e = 0, mg = 0; for (numel_cnt_t i = 0; i < Z.numel(); i++) { LD v = s.loss(Z.data()[i], y[i]); e += v; mg += fabsl(v) + 1; } VR a0 = snap(Z); double got = Act::loss(Z, Y, m); VP_REQ(std::isfinite(got), s.name, " loss is not finite for saturated activations"); CLOSE(got, double(e), double(mg), 20 + double(Z.numel()), s.name, " loss (saturated)"); same_bits(a0, Z, "activations"); return; }
	VR a = snap(Z); LD e = 0, mg = 0; for (numel_cnt_t i = 0; i < Z.numel(); i++) { LD v = s.loss(a[i], y[i]); e += v; mg += fabsl(v) + 1; }
	double got = Act::loss(Z, Y, m); CLOSE(got, double(e), double(mg), 20 + double(Z.numel()), s.name, " loss"); same_bits(a, Z, "activations"); same_bits(y, Y, "targets");
	bool idn = g.b(1, 3); if (idn) Act::dLdZIdentity(Y, Z, m); else Act::dLdZ(Y, Z, m); g.labelif(idn, "dLdZIdentity"); same_bits(y, Y, "targets");
	for (numel_cnt_t i = 0; i < Z.numel(); i++) { LD da = s.dLdA(a[i], y[i]); LD d = idn ? 1.0L : s.act.df(z[i]); double sl = s.ykind == 1 ? 1 / double(LD(a[i]) * (1 - LD(a[i]))) : 1; CLOSE(double(Z.data()[i]), double(da * d), 1 + sl, 64, s.name, idn ? " dL/dA" : " dL/dZ", " elem ", i, " a ", double(a[i]), " y ", double(y[i])); }
}
#define LOSS(nm, w, sname, act, l, d, yk, ...) VP_TESTM(nm, w, 60) { run_loss<__VA_ARGS__>(g, LSpec{ sname, act, l, d, yk, false }); }
LOSS(l_id_quad, 2, "identity+quadratic", S_id(), q_loss, q_d, 0, vpact::identity_quad_loss<R, WI>)
LOSS(l_id_quad_ns, 1, "identity+quadratic ns", S_id(), q_loss, q_d, 0, vpact::identity_quad_loss<R, WI, true>)
LOSS(l_sigm_quad, 2, "sigm+quadratic", S_sigm(), q_loss, q_d, 2, vpact::sigm_quad_loss<R, WI>)
LOSS(l_sigm_quad_ns, 1, "sigm+quadratic ns", S_sigm(), q_loss, q_d, 2, vpact::sigm_quad_loss<R, WI, true>)
LOSS(l_sigm_xe, 2, "sigm+xentropy", S_sigm(), x_loss, x_d, 1, vpact::sigm_xentropy_loss<R, WI>)
LOSS(l_sigm_xe_ns, 1, "sigm+xentropy ns", S_sigm(), x_loss, x_d, 1, vpact::sigm_xentropy_loss<R, WI, true>)
LOSS(l_ss_quad, 2, "softsigm+quadratic", S_softsigm(R(1500) / R(1000)), q_loss, q_d, 2, vpact::softsigm_quad_loss<R, 1500, WI>)
LOSS(l_ss_quad_ns, 1, "softsigm+quadratic ns", S_softsigm(R(700) / R(1000)), q_loss, q_d, 2, vpact::softsigm_quad_loss<R, 700, WI, true>)
LOSS(l_ss_xe, 2, "softsigm+xentropy", S_softsigm(R(1500) / R(1000)), x_loss, x_d, 1, vpact::softsigm_xentropy_loss<R, 1500, WI>)
LOSS(l_ss_xe_ns, 1, "softsigm+xentropy ns", S_softsigm(1), x_loss, x_d, 1, vpact::softsigm_xentropy_loss<R, 1000, WI, true>)
// weighted quadratic losses of a linear output
template<unsigned W, unsigned B> static LD w1(LD a, LD y) { LD k = LD(W) / 1e6L, b = LD(R(B) / R(1e6)); LD e = (y < b && a > y) ? k * (a - y) : a - y; return e * e / 2; }
template<unsigned W, unsigned B> static LD d1(LD a, LD y) { LD k = LD(W) / 1e6L, b = LD(R(B) / R(1e6)); return (y < b && a > y) ? k * k * (a - y) : a - y; }
template<unsigned W, unsigned O, unsigned B> static LD w2(LD a, LD y) { LD k = LD(W) / 1e6L, o = LD(O) / 1e6L, b = LD(R(B) / R(1e6)); LD e = (a - y) * ((y < b && a > y) ? k : o); return e * e / 2; }
template<unsigned W, unsigned O, unsigned B> static LD d2(LD a, LD y) { LD k = LD(W) / 1e6L, o = LD(O) / 1e6L, b = LD(R(B) / R(1e6)); LD q = (y < b && a > y) ? k : o; return q * q * (a - y); }
template<unsigned W, unsigned B> static LD w3(LD a, LD y) { LD k = LD(W) / 1e6L, b = LD(R(B) / R(1e6)); LD e = (y < b && a > y) ? k * a + b * (1 - k) - y : a - y; return e * e / 2; }
template<unsigned W, unsigned B> static LD d3(LD a, LD y) { LD k = LD(W) / 1e6L, b = LD(R(B) / R(1e6)); return (y < b && a > y) ? k * (k * a + b * (1 - k) - y) : a - y; }
LOSS(l_w1, 1, "weighted FP", S_id(), (w1<1414214, 0>), (d1<1414214, 0>), 0, vpact::identity_custom_loss<vpact::Linear_Loss_quadWeighted_FP<R>, WI>)
LOSS(l_w1b, 1, "weighted FP, boundary", S_id(), (w1<2000000, 500000>), (d1<2000000, 500000>), 0, vpact::identity_custom_loss<vpact::Linear_Loss_quadWeighted_FP<R, 2000000, 500000>, WI>)
LOSS(l_w2, 1, "weighted2 FP", S_id(), (w2<1500000, 400000, 300000>), (d2<1500000, 400000, 300000>), 0, vpact::identity_custom_loss<vpact::Linear_Loss_quadWeighted2_FP<R, 1500000, 400000, 300000>, WI>)
LOSS(l_w3, 1, "weighted residual FP", S_id(), (w3<1500000, 300000>), (d3<1500000, 300000>), 0, vpact::identity_custom_loss<vpact::Linear_Loss_quadWeighted_res_FP<R, 1500000, 300000>, WI>)
VP_TESTM(l_softmax, 3, 150) { typedef vpact::softmax_xentropy_loss<R, WI> Act;
	Math& m = gen_math(g); vec_len_t r, c; gen_dims(g, r, c, 30, 12); double lim = g.pick({ 1.0, 4.0, 30.0, 90.0 }); bool soft = g.b(1, 3); MD Z(r, c); M Y(r, c); gen_z(g, Z, -lim, lim); VR z = snap(Z); vp::Rnd q(g.seed()); Y.zeros();
	for (vec_len_t i = 0; i < r; i++) { if (soft) { double s = 0; std::vector<double> w(c); for (auto& v : w) s += v = q.unit() + .01; for (vec_len_t j = 0; j < c; j++) Y.data()[size_t(j) * r + i] = R(w[j] / s); } else Y.data()[size_t(q.below(c)) * r + i] = R(1); }
	VR y = snap(Y); g.say(r, "x", c, lim, soft); g.nontrivial(r * c > 1); Act::f(Z, m); VR a = snap(Z); LD L = 0, mg = 0;
	for (vec_len_t i = 0; i < r; i++) { LD mx = -1e9, s = 0; for (vec_len_t j = 0; j < c; j++) mx = std::max(mx, (LD)z[size_t(j) * r + i]); for (vec_len_t j = 0; j < c; j++) s += expl(z[size_t(j) * r + i] - mx);
		for (vec_len_t j = 0; j < c; j++) { size_t k = size_t(j) * r + i; CLOSE(double(a[k]), double(expl(z[k] - mx) / s), 1e-3, 64 + c + 4 * lim, "softmax row ", i, " col ", j); LD v = -LD(y[k]) * (a[k] > 0 ? logl(a[k]) : (LD)math::real_t_limits<R>::log_almost_zero); L += v; mg += fabsl(v) + 1; } }
	double got = Act::loss(Z, Y, m); CLOSE(got, double(L), double(mg), 20 + double(Z.numel()), "softmax cross entropy"); same_bits(a, Z, "activations");
	if (g.b(2, 3)) { Act::dLdZ(Y, Z, m); for (numel_cnt_t i = 0; i < Z.numel(); i++) CLOSE(double(Z.data()[i]), double(LD(a[i]) - LD(y[i])), 1, 4, "softmax dL/dZ"); same_bits(y, Y, "targets"); }
}
}
