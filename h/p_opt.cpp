// P06: optimizers, momentum, individual learning rates, regularisers, max-norm: kernels and grad_works histories against a
// long double reference of the documented update rules.
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/interface/inspectors/gradcheck.h"
typedef long double LD;
typedef std::vector<LD> VL;
static double rnd_beta(vp::Gen& g) { return double(R(g.pick({ .9, .999, .5, .95, .99, .1 }))); }
static double rnd_ns(vp::Gen& g) { return double(R(g.pick({ 1e-8, 1e-3, 1e-2, 1e-5, .1 }))); }
static bool near_(double a, LD b, LD tolabs) { if (std::isnan(a)) return false; return fabsl(LD(a) - b) <= tolabs; }
#define NEAR(a, b, tol, ...) do { double a_ = (a); LD b_ = (b), t_ = (tol); if (!near_(a_, b_, t_)) ::vp::fail("line ", __LINE__, ": got ", a_, " expected ", double(b_), " tolerance ", double(t_), " | ", __VA_ARGS__); } while (0)
static LD sgn(LD v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }

// ---- optimizer kernels over several steps; the state matrices are observable, so each step is checked from the actual previous state
VP_TESTM(kernels, 4, 300) {
	Math& m = gen_math(g); vec_len_t r, c; gen_dims(g, r, c, 24, 16); int op = (int)g.raw(7); int steps = (int)g.z(1, 5);
	double b1 = rnd_beta(g), b2 = rnd_beta(g), ns = op == 1 ? double(R(g.pick({ 1e-2, .1 }))) : rnd_ns(g), lr = double(R(g.pick({ .01, .5, 1e-3, .9 }))), gam = g.b() ? 0 : double(R(g.pick({ .05, .5 })));
	double sc = g.pick({ 1., .1, 1e-3, 30. });
	static const char* nm[] = { "RMSProp_Hinton", "RMSProp_Graves", "RProp", "ModProp", "Adam", "AdaMax", "RNadam" }; g.label(nm[op]); g.say(nm[op], r, "x", c, "steps", steps, "b1", b1, "b2", b2, "ns", ns, "lr", lr, "gamma", gam);
	M W(r, c), F(r, c), G(r, c); auto f = gen_fill(g, -sc, sc), fs = gen_fill(g, 0, sc, 0);
	if (op >= 4 || g.b()) { F.zeros(); G.zeros(); } else { fill(F, fs); if (op == 1) { for (numel_cnt_t i = 0; i < F.numel(); i++) { G.data()[i] = R(fs() - sc / 2); F.data()[i] = G.data()[i] * G.data()[i] + R(fs()); } } else G.zeros(); }
	R bt1 = 1, bt2 = 1; LD e0 = std::numeric_limits<R>::epsilon();
	g.nontrivial(r * c > 1);
	for (int s = 0; s < steps; s++) {
		fill(W, f); VR w = snap(W), pf = snap(F), pg = snap(G); R o1 = bt1, o2 = bt2;
		switch (op) {
		case 0: m.RMSProp_Hinton(W, F, R(lr), R(b1), R(ns)); break;
		case 1: m.RMSProp_Graves(W, F, G, R(lr), R(b1), R(ns)); break;
		case 2: m.RProp(W, R(lr)); break;
		case 3: m.ModProp(W, F, R(lr), R(b1), R(ns)); break;
		case 4: m.Adam(W, F, G, bt1, bt2, R(lr), R(b1), R(b2), R(ns)); break;
		case 5: m.AdaMax(W, F, G, bt1, R(lr), R(b1), R(b2), R(ns)); break;
		case 6: m.RNadam(W, F, G, bt1, bt2, R(lr), R(b1), R(b2), R(gam), R(ns)); break;
		}
		if (op >= 4) NEAR(bt1, LD(o1) * b1, e0 * LD(o1) * b1 * 4, nm[op], ": beta1^t after step ", s);
		if (op == 4 || op == 6) NEAR(bt2, LD(o2) * b2, e0 * LD(o2) * b2 * 4, nm[op], ": beta2^t after step ", s); else VP_REQ(bt2 == 1, "beta2t touched");
		LD t1 = bt1, t2 = bt2;
		for (numel_cnt_t i = 0; i < W.numel(); i++) {
			LD x = w[i], a = pf[i], b = pg[i], out, na = a, nb = b, tol, ta = 8 * e0, tb = 8 * e0;
			switch (op) {
			case 0: na = b1 * a + (1 - LD(b1)) * x * x; out = lr * x / (sqrtl(na) + ns); ta *= na / (1 - b1); tol = fabsl(out) * e0 * 32 / (1 - b1); break;
			case 1: { na = b1 * a + (1 - LD(b1)) * x * x; nb = b1 * b + (1 - LD(b1)) * x; LD den = na - nb * nb + ns; out = lr * x / sqrtl(den); ta *= (a + x * x); tb *= fabsl(b) + fabsl(x); tol = fabsl(out) * e0 * (32 + 32 * (a + x * x + b * b) / den); if (den < ns / 2) continue; break; }
			case 2: out = lr * sgn(x); tol = 0; break;
			case 3: na = b1 * a + (1 - LD(b1)) * fabsl(x); out = lr * x / (na + ns); ta *= na / (1 - b1); tol = fabsl(out) * e0 * 32 / (1 - b1); break;
			case 4: na = b1 * a + (1 - LD(b1)) * x; nb = b2 * b + (1 - LD(b2)) * x * x; out = lr * sqrtl(1 - t2) / (1 - t1) * na / (sqrtl(nb) + ns); ta *= fabsl(a) + fabsl(x); tb *= (b + x * x);
				tol = lr * sqrtl(1 - t2) / (1 - t1) / (sqrtl(nb) + ns) * e0 * (32 * (fabsl(a) + fabsl(x)) + fabsl(na) * (16 / (1 - b2) + 16 / (1 - b1))); break;
			case 5: na = b1 * a + (1 - LD(b1)) * x; nb = std::max<LD>(fabsl(x), b2 * b); out = lr / (1 - t1) * na / (nb + ns); ta *= fabsl(a) + fabsl(x); tb *= nb;
				tol = lr / (1 - t1) / (nb + ns) * e0 * (32 * (fabsl(a) + fabsl(x)) + fabsl(na) * (16 / (1 - b1))); break;
			default: { LD mu = (b1 - t1) / (1 - t1), eta = (b2 - t2) / (1 - t2); LD cm = gam == 0 ? b1 * (1 - t1) / (1 - b1 * t1) : 1 - LD(gam), cg = gam == 0 ? 1 - mu : LD(gam);
				LD k1 = 1 / (1 - LD(b1)), k2 = 1 / (1 - LD(b2)); nb = b * eta + x * x * (1 - eta); na = a * mu + x * (1 - mu); LD mh = cm * na + cg * x; out = lr * mh / (sqrtl(nb) + ns); ta *= (fabsl(a) + fabsl(x)) * (1 + k1); tb *= (b + x * x) * (1 + k2);
				tol = lr / (sqrtl(nb) + ns) * e0 * (32 * (fabsl(a) + fabsl(x)) * (1 + k1) + 16 * fabsl(mh) * (1 + (b + x * x) * k2 / (nb + LD(ns) * ns + 1e-30L))); }
			}
			tol += 1e-36L; ta += 1e-36L; tb += 1e-36L;
			NEAR(W.data()[i], out, tol, nm[op], " update, step ", s, " elem ", i, " grad ", double(x), " state ", double(a), ",", double(b));
			if (op != 2) NEAR(F.data()[i], na, ta, nm[op], " first state, step ", s, " elem ", i, " grad ", double(x));
			if (op == 1 || op >= 4) NEAR(G.data()[i], nb, tb, nm[op], " second state, step ", s, " elem ", i, " grad ", double(x)); else VP_REQ(G.data()[i] == pg[i], "unused state touched");
		}
		g.labelif(g_parallel > 0, "parallel");
	}
}

// ---- grad_works
namespace {
struct VInt { typedef R real_t; typedef Thd iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef Math iMath_t; typedef rng::AFRand_mt<R, AFog::CRandomSFMT0, Thd> iRng_t; typedef inspector::dummy<R> iInspect_t; };
struct VIntG : public VInt { typedef inspector::GradCheck<R> iInspect_t; };
typedef grad_works<VInt> GWt; typedef grad_works<VIntG> GWg;
template<class I> struct Env { typename I::iRng_t rng; typename I::iInspect_t insp; bool blocked = false; ::nntl::_impl::common_nn_data<I> cd; Env(Math& m) : cd(m, rng, insp, blocked) { rng.init_ithreads(m.ithreads(), 123); cd.init(100, 100); } };
struct Ref {
	int type = 0; LD lr, mom = 0, b1 = R(.9), b2 = R(.999), gam = R(.05), ns, L1 = 0, L2 = 0, mx2 = 0, dec = 0, inc = 0, lo = 0, hi = 0, p = 1; bool nest = true, ib1 = true, ib2 = true, nb = false, ilr = false, ilrm = false;
	bool first = true; VL F, G, V, gain, prev; std::vector<char> mv; LD t1 = 1, t2 = 1; size_t n = 0, rows = 0;
	void init(size_t n_, size_t rows_) { n = n_; rows = rows_; F.assign(n, 0); G.assign(n, 0); V.assign(n, 0); gain.assign(n, 1); mv.assign(n, 0); prev.assign(n, 0); first = true; }
	bool usemom() const { return mom > 0; }
	LD addend(LD w, size_t i) const { bool bias = i >= n - rows; LD r = 0; if (L1 != 0 && !(ib1 && bias)) r += L1 * sgn(w); if (L2 != 0 && !(ib2 && bias)) r += L2 * w; return r; }
	void maxnorm(VL& w, bool& amb, LD te) const { if (!(mx2 > 0)) return; size_t cols = n / rows; for (size_t r = 0; r < rows; r++) { LD s = 0; for (size_t c = 0; c + (nb ? 0 : 1) < cols; c++) s += w[c * rows + r] * w[c * rows + r]; if (fabsl(s - mx2) < te * 1000 * (mx2 + s)) amb = true; if (s > mx2) { LD q = sqrtl(mx2 / s); for (size_t c = 0; c < cols; c++) w[c * rows + r] *= q; } } }
	// weights after an update u some elements of which were dropped and the norms of the rows restricted: there must be a choice of the elements that explains each row
	void masked(const VL& w, const VL& u, const VL& got, LD te, LD tol0, const char* what) const { size_t cols = n / rows; for (size_t r = 0; r < rows; r++) { bool found = false;
		for (unsigned m = 0; m < (1u << cols) && !found; m++) { VL x(cols); LD s = 0, mg = 0; for (size_t c = 0; c < cols; c++) { x[c] = w[c * rows + r] - ((m >> c) & 1 ? u[c * rows + r] : 0); if (c + (nb ? 0 : 1) < cols) s += x[c] * x[c]; mg = std::max(mg, fabsl(w[c * rows + r]) + 4 * fabsl(u[c * rows + r])); }
			for (int k = 0; k < 2 && !found; k++) { bool close = fabsl(s - mx2) < te * 10000 * (mx2 + s + mg * mg); if (k ? !(s > mx2 || close) : !(s <= mx2 || close)) continue; LD f = k ? sqrtl(mx2 / s) : 1; bool ok = true; for (size_t c = 0; c < cols && ok; c++) ok = fabsl(got[c * rows + r] - f * x[c]) <= 4 * tol0 * (1 + mg); found = ok; } }
		if (!found) { LD s = 0; for (size_t c = 0; c + (nb ? 0 : 1) < cols; c++) s += got[c * rows + r] * got[c * rows + r]; vp::fail(what, ": no choice of dropped elements explains row ", r, ": first weight ", double(w[r]), " -> ", double(got[r]), " update ", double(u[r]), " squared norm ", double(s), " allowed ", double(mx2)); } } }
	// update direction (before LR dropout) ; te: relative rounding unit, used to detect decisions that rounding may flip
	VL step(const VL& w, const VL& grad, bool& amb, LD te, VL& addedGrad, LD& cond) {
		VL d(n); addedGrad.resize(n); LD gm = 0; for (size_t i = 0; i < n; i++) gm = std::max(gm, fabsl(grad[i]));
		for (size_t i = 0; i < n; i++) { LD a = addend(w[i], i); d[i] = grad[i] + a; addedGrad[i] = d[i]; if (!(grad[i] == 0 && a == 0) && fabsl(d[i]) < te * 1e4 * (fabsl(grad[i]) + fabsl(a))) amb = true; }
		bool fr = first; first = false; cond = 1;
		switch (type) {
		case 0: for (auto& x : d) x *= lr; break;
		case 1: for (size_t i = 0; i < n; i++) { LD x = d[i]; if (fr) { F[i] = x * x; d[i] = lr * x; } else { F[i] = b1 * F[i] + (1 - b1) * x * x; d[i] = lr * x / (sqrtl(F[i]) + ns); } } break;
		case 2: for (size_t i = 0; i < n; i++) { LD x = d[i]; if (fr) { F[i] = x * x; G[i] = x; d[i] = lr * x; } else { F[i] = b1 * F[i] + (1 - b1) * x * x; G[i] = b1 * G[i] + (1 - b1) * x; d[i] = lr * x / sqrtl(F[i] - G[i] * G[i] + ns); } } break;
		case 3: for (auto& x : d) x = lr * sgn(x); break;
		case 4: for (size_t i = 0; i < n; i++) { LD x = d[i]; if (fr) { F[i] = fabsl(x); d[i] = lr * x; } else { F[i] = b1 * F[i] + (1 - b1) * fabsl(x); d[i] = lr * x / (F[i] + ns); } } break;
		case 5: case 6: if (fr) { t1 = t2 = 1; std::fill(F.begin(), F.end(), 0); std::fill(G.begin(), G.end(), 0); } t1 *= b1; t2 *= b2;
			for (size_t i = 0; i < n; i++) { LD x = d[i]; F[i] = b1 * F[i] + (1 - b1) * x; if (type == 5) { G[i] = b2 * G[i] + (1 - b2) * x * x; d[i] = lr * sqrtl(1 - t2) / (1 - t1) * F[i] / (sqrtl(G[i]) + ns); } else { G[i] = std::max(fabsl(x), b2 * G[i]); d[i] = lr / (1 - t1) * F[i] / (G[i] + ns); } } break;
		default: { if (fr) { t1 = t2 = 1; std::fill(F.begin(), F.end(), 0); std::fill(G.begin(), G.end(), 0); if (type == 7) gam = 0; } t1 *= b1; t2 *= b2; LD mu = (b1 - t1) / (1 - t1), eta = (b2 - t2) / (1 - t2); LD cm = gam == 0 ? b1 * (1 - t1) / (1 - b1 * t1) : 1 - gam, cg = gam == 0 ? 1 - mu : gam;
			for (size_t i = 0; i < n; i++) { LD x = d[i]; G[i] = eta * G[i] + (1 - eta) * x * x; F[i] = mu * F[i] + (1 - mu) * x; d[i] = lr * (cm * F[i] + cg * x) / (sqrtl(G[i]) + ns); } }
		}
		if (ilr) { bool vel = usemom() && ilrm; if (!fr) for (size_t i = 0; i < n; i++) { LD pv = vel ? V[i] : prev[i], pr = d[i] * pv; if (vel && d[i] != 0 && mv[i] && fabsl(pv) < 1e4 * te) amb = true; /* the velocity cancelled out, up to rounding */ if (pr != 0 && (fabsl(pr) < 1e-30L || (vel && fabsl(pv) < 1e4 * te) || fabsl(d[i]) < 1e4 * te * lr)) amb = true;
				if (fabsl(gain[i] - hi) < 1e3 * te * hi || fabsl(gain[i] - lo) < 1e3 * te * lo) amb = true;
				if (pr > 0 && gain[i] < hi) gain[i] *= inc; else if (pr < 0 && gain[i] > lo) gain[i] *= dec; d[i] *= gain[i]; }
			if (!vel) prev = d; }
		if (usemom()) { for (size_t i = 0; i < n; i++) if (d[i] != 0) mv[i] = 1; if (nest) { for (size_t i = 0; i < n; i++) V[i] += d[i]; } else { for (size_t i = 0; i < n; i++) { V[i] = mom * V[i] + d[i]; d[i] = V[i]; } } }
		return d;
	}
};
}
static VL ld(const M& m) { return VL(m.data(), m.data() + m.numel()); }
static const char* tnm[] = { "ClassicalConstant", "RMSProp_Hinton", "RMSProp_Graves", "RProp", "ModProp", "Adam", "AdaMax", "Nadam", "Radam" };
VP_TESTM(grad_works_history, 6, 400) {
	Math& m = gen_math(g); Env<VInt> E(m); vec_len_t rows = (vec_len_t)g.sz(1, 8), cols = (vec_len_t)g.sz(2, 8); double lr = double(R(g.pick({ .01, .1, .5 })));
	GWt gw{ R(lr) }; Ref q; q.lr = R(lr); q.ns = R(g.pick({ 1e-2, .05, .2 })); gw.numeric_stabilizer(R(q.ns));
	q.type = (int)g.raw(9); gw.set_type((GWt::GradType)q.type); g.label(tnm[q.type]);
	if (g.b()) { q.b1 = R(g.pick({ .5, .9, .8 })); q.b2 = R(g.pick({ .9, .5, .95 })); q.gam = R(g.pick({ .1, .4 })); gw.beta1(R(q.b1)).beta2(R(q.b2)).gamma(R(q.gam)); }
	auto setmom = [&] { q.mom = R(g.pick({ .5, .9, .25 })); q.nest = g.b(); if (q.nest) gw.nesterov_momentum(R(q.mom)); else gw.momentum(R(q.mom)); g.label(q.nest ? "nesterov" : "momentum"); };
	if (g.b()) setmom();
	if (g.b(1, 3)) { q.ilr = true; q.dec = R(g.pick({ .5, .9, .2 })); q.inc = R(g.pick({ 1.25, 1.05, 2.5 })); q.lo = R(g.pick({ .2, .01 })); q.hi = R(g.pick({ 2.2, 1000. })); gw.set_ILR(R(q.dec), R(q.inc), R(q.lo), R(q.hi)); q.ilrm = g.b(); gw.applyILRToMomentum(q.ilrm); g.label("ilr"); }
	auto setreg = [&] { if (g.b()) { q.L1 = R(g.pick({ .1, .01 })); q.ib1 = g.b(2, 3); gw.L1(R(q.L1), q.ib1); g.label("L1"); } if (g.b()) { q.L2 = R(g.pick({ .1, .02 })); q.ib2 = g.b(2, 3); gw.L2(R(q.L2), q.ib2); g.label("L2"); } };
	if (g.b()) setreg();
	auto setnorm = [&] { LD nrm = R(g.pick({ .5, 1.2, 2.5 })); q.nb = g.b(); q.mx2 = R(R(nrm) * R(nrm)); gw.max_norm(R(nrm), q.nb); g.label("maxnorm"); };
	if (g.b(1, 3)) setnorm();
	if (g.b(1, 5)) { q.p = R(g.pick({ .5, .8 })); gw.LRDropoutPercentActive(R(q.p)); g.label("lr-dropout"); }
	bool vdo = true; if (q.p < 1 && g.b()) { vdo = false; gw.setApplyLRDropoutToNesterovMomentum(false); }
	MD W(rows, cols), D(rows, cols); auto fw = gen_fill(g, -1, 1), fg = gen_fill(g, -1, 1, g.b() ? 0 : 1); fill(W, fw);
	VP_REQ(gw.gw_init(E.cd, W), "gw_init"); q.init(W.numel(), rows);
	int steps = (int)g.z(1, 8); g.say(tnm[q.type], rows, "x", cols, "steps", steps, "mom", double(q.mom), q.nest, "ilr", q.ilr, q.ilrm, "L1", double(q.L1), "L2", double(q.L2), "maxnorm2", double(q.mx2), q.nb, "lrdo", double(q.p));
	g.nontrivial(steps > 1); const LD te = std::numeric_limits<R>::epsilon(); const LD tol0 = te * 4000; bool amb = false;
	for (int s = 0; s < steps; s++) {
		if (s && g.b(1, 6)) { int k = (int)g.raw(5); if (k == 0) { q.lr = R(g.pick({ .02, .2 })); gw.learning_rate(R(q.lr)); g.label("lr change"); } else if (k == 1) setreg(); else if (k == 2 && q.mom > 0) { bool on = q.nest; q.mom = R(g.pick({ .6, .95 })); if (on) gw.nesterov_momentum(R(q.mom)); else gw.momentum(R(q.mom)); } else if (k == 3) setnorm();
			else { gw.gw_deinit(); VP_REQ(gw.gw_init(E.cd, W), "gw_init again"); q.init(W.numel(), rows); g.label("reinit"); } }
		VP_REQ(gw.isFirstRun() == q.first, "first run flag, step ", s);
		// before the forward pass
		if (g.b(5, 6)) { VR w0 = snap(W); gw.pre_training_fprop(W); VL w(w0.begin(), w0.end());
			if (q.usemom() && q.nest) { for (auto& v : q.V) v *= q.mom; bool dr = q.p < 1 && vdo; VL wn(w); for (size_t i = 0; i < w.size(); i++) wn[i] = w[i] - q.V[i];
				if (dr) { if (q.mx2 > 0) { q.masked(w, q.V, VL(W.data(), W.data() + W.numel()), te, tol0, "nesterov look-ahead with LR dropout and max norm"); g.label("lr-dropout with maxnorm"); goto resync; } for (size_t i = 0; i < w.size(); i++) { LD got = W.data()[i]; LD t = tol0 * (1 + fabsl(w[i]) + fabsl(q.V[i])); if (!(fabsl(got - w[i]) <= t || fabsl(got - wn[i]) <= t)) vp::fail("nesterov look-ahead with LR dropout: weight ", i, " ", double(w[i]), " -> ", double(got), " velocity ", double(q.V[i]), " step ", s); } goto resync; }
				q.maxnorm(wn, amb, te * 10); if (amb) { g.label("ambiguous"); return; }
				for (size_t i = 0; i < w.size(); i++) NEAR(W.data()[i], wn[i], tol0 * (1 + fabsl(w[i]) + fabsl(q.V[i])), "nesterov look-ahead, weight ", i, " from ", double(w[i]), " velocity ", double(q.V[i]), " step ", s, " ", tnm[q.type]);
			} else same_bits(w0, W, "weights changed before fprop without Nesterov momentum"); }
	resync:
		fill(D, fg); VR w0 = snap(W), g0 = snap(D); VL w(w0.begin(), w0.end()), gr(g0.begin(), g0.end()), ag; LD cond; 
		{ LD e = 0, mg = 0; for (size_t i = 0; i < w.size(); i++) { bool bias = i >= w.size() - rows; if (q.L1 != 0 && !(q.ib1 && bias)) e += q.L1 * fabsl(w[i]); if (q.L2 != 0 && !(q.ib2 && bias)) e += q.L2 * w[i] * w[i] / 2; } mg = e; NEAR(gw.lossAddendum(W), e, te * 64 * (1 + w.size()) * (mg + 1e-30L), "lossAddendum"); VP_REQ(gw.hasLossAddendum() == (q.L1 != 0 || q.L2 != 0), "hasLossAddendum"); same_bits(w0, W, "lossAddendum changed weights"); VP_REQ(W.cols() == cols, "lossAddendum changed shape"); }
		VL V0 = q.V; VL u = q.step(w, gr, amb, te, ag, cond); if (amb) { g.label("ambiguous"); return; }
		gw.apply_grad(W, D); VP_REQ(W.rows() == rows && W.cols() == cols && D.cols() == cols && D.rows() == rows, "shape changed");
		VL wn(w); for (size_t i = 0; i < w.size(); i++) wn[i] = w[i] - u[i];
		if (q.p < 1) { if (q.mx2 > 0) { q.masked(w, u, VL(W.data(), W.data() + W.numel()), te, tol0, "LR dropout with max norm"); g.label("lr-dropout with maxnorm"); continue; } int zeros = 0; for (size_t i = 0; i < w.size(); i++) { LD got = W.data()[i], t = tol0 * (1 + fabsl(w[i]) + fabsl(u[i])); bool z = fabsl(got - w[i]) <= t, o = fabsl(got - wn[i]) <= t; zeros += z && !o; if (!(z || o)) vp::fail("LR dropout: weight ", i, " ", double(w[i]), " -> ", double(got), " update ", double(u[i]), " p ", double(q.p), " step ", s, " ", tnm[q.type]); } g.labelif(zeros, "dropped updates"); continue; }
		q.maxnorm(wn, amb, te * 10); if (amb) { g.label("ambiguous"); return; }
		for (size_t i = 0; i < w.size(); i++) NEAR(W.data()[i], wn[i], tol0 * (1 + fabsl(w[i]) + 4 * fabsl(u[i])), "weight ", i, " ", double(w[i]), " grad ", double(gr[i]), " expected update ", double(u[i]), " step ", s, " ", tnm[q.type], " mom ", double(q.mom), " nest ", q.nest, " ilr ", q.ilr);
		if (s + 1 == steps) g.label("complete");
	}
}
VP_TESTM(lr_dropout_rate, 1, 30) { // the fraction of the updates that learning rate dropout keeps, whatever else is switched on
	Math& m = gen_math(g); Env<VInt> E(m); E.rng.seed64((int64_t)g.seed()); vec_len_t rows = (vec_len_t)g.z(10, 40), cols = (vec_len_t)g.z(20, 40); GWt gw{ R(.1) }; int ty = (int)g.raw(9); gw.set_type((GWt::GradType)ty); gw.numeric_stabilizer(R(.05)); double p = g.pick({ .5, .8, .2 }); gw.LRDropoutPercentActive(R(p)); int mo = (int)g.raw(3); bool vdo = g.b(), mn = g.b(), il = g.b(), l2 = g.b();
	if (mo == 1) gw.momentum(R(.5)); if (mo == 2) gw.nesterov_momentum(R(.5)); if (!vdo) gw.setApplyLRDropoutToNesterovMomentum(false); if (mn) gw.max_norm(R(1e6), g.b()); if (il) gw.set_ILR(R(.9), R(1.1), R(.5), R(2)); if (l2) gw.L2(R(.01), g.b()); g.label(tnm[ty]); g.say(tnm[ty], "p", p, "momentum", mo, vdo, "max norm", mn, "ilr", il, "L2", l2, rows, cols);
	MD W(rows, cols), D(rows, cols); auto fw = gen_fill(g, -1, 1); fill(W, fw); VP_REQ(gw.gw_init(E.cd, W), "gw_init"); int steps = (int)g.z(1, 4); double N = (double)W.numel(), sd = std::sqrt(N * p * (1 - p)); vp::Rnd rn(g.seed());
	for (int s = 0; s < steps; s++) {
		{ VR w0 = snap(W); gw.pre_training_fprop(W); double k = 0; for (numel_cnt_t i = 0; i < W.numel(); i++) k += W.data()[i] != w0[(size_t)i]; if (mo != 2 || s == 0) VP_REQ(k == 0, "weights moved before the forward pass"); else if (!vdo) VP_REQ(k >= .9 * N, "look-ahead without dropout moved ", k, " weights of ", N); else if (std::fabs(k - N * p) > 7 * sd) vp::fail("look-ahead with learning rate dropout moved ", k, " weights of ", N, ", active part is ", p, ", step ", s); }
		for (numel_cnt_t i = 0; i < D.numel(); i++) D.data()[i] = R((double(rn.next() % 1000) / 2000 + .5) * (rn.next() & 1 ? 1 : -1)); VR w0 = snap(W); gw.apply_grad(W, D); double k = 0; for (numel_cnt_t i = 0; i < W.numel(); i++) k += W.data()[i] != w0[(size_t)i];
		if (std::fabs(k - N * p) > 7 * sd + .01 * N) vp::fail(tnm[ty], ": learning rate dropout let ", k, " weights of ", N, " move, active part is ", p, ", step ", s, " momentum ", mo, " max norm ", mn); }
	g.nontrivial(true);
}
VP_TESTM(learning_blocked, 1, 60) { // while learning is blocked (numeric gradient check) weights must stay, the gradient gets only the addendums
	Math& m = gen_math(g); Env<VIntG> E(m); vec_len_t rows = (vec_len_t)g.sz(1, 6), cols = (vec_len_t)g.sz(2, 6); GWg gw{ R(.1) }; gw.set_type((GWg::GradType)g.raw(9)); LD L1 = 0, L2 = 0; bool ib1 = g.b(), ib2 = g.b(); if (g.b()) gw.nesterov_momentum(R(.5)); if (g.b()) { L1 = R(.1); gw.L1(R(.1), ib1); } if (g.b()) { L2 = R(.2); gw.L2(R(.2), ib2); } if (g.b()) gw.max_norm(R(.01));
	MD W(rows, cols), D(rows, cols); auto f = gen_fill(g, -1, 1); fill(W, f); fill(D, f); VP_REQ(gw.gw_init(E.cd, W), "init"); E.blocked = true; VR w = snap(W), d = snap(D); g.nontrivial();
	gw.pre_training_fprop(W); same_bits(w, W, "blocked: weights changed by pre_training_fprop"); gw.apply_grad(W, D); same_bits(w, W, "blocked: weights changed by apply_grad");
	for (numel_cnt_t i = 0; i < D.numel(); i++) { bool bias = i >= D.numel() - rows; LD e = d[i]; if (!(ib1 && bias)) e += L1 * sgn(w[i]); if (!(ib2 && bias)) e += L2 * w[i]; NEAR(D.data()[i], e, 16 * EPS, "blocked: gradient ", i); }
	VP_REQ(gw.isFirstRun(), "blocked apply_grad consumed the first run");
}
