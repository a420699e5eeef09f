// P04: matrix products, covariance, orthogonalization, DeCov vs. direct long double references. Operands live in guarded buffers.
#include "mc.h"
// matrix over an external buffer with canaries on both sides (BLAS is not instrumented)
namespace {
struct G_ { VR buf; numel_cnt_t n; static constexpr int PAD = 40; R can;
	R* init(numel_cnt_t n_, double c) { n = n_; can = R(c); buf.assign(size_t(n + 2 * PAD), can); return buf.data() + PAD; }
	void ok(const char* w) { for (int i = 0; i < PAD; i++) { VP_REQ(buf[i] == can, w, ": memory before the matrix changed ", i, " ", buf[i]); VP_REQ(buf[size_t(PAD + n + i)] == can, w, ": memory after the matrix changed"); } } };
struct GM { G_ b; MD m; VR s;
	GM(vec_len_t r, vec_len_t c, bool bias = false, bool bir = false) { // r,c exclude biases
		vec_len_t R_ = r + (bias && bir), C_ = c + (bias && !bir); R* p = b.init(numel_cnt_t(R_) * C_, 1234.5); m.useExternalStorage(p, R_, C_, bias, false, bir); for (numel_cnt_t i = 0; i < m.numel(); i++) p[i] = is_bias(m, i) ? R(1) : R(0); }
	void rnd(RndFill f) { fill(m, f); s = snap(m); }
	void junk() { for (numel_cnt_t i = 0; i < m.numel(); i++) if (!is_bias(m, i)) m.data()[i] = R(777); s = snap(m); }
	long double at(vec_len_t i, vec_len_t j) const { return s[size_t(j) * m.rows() + i]; } // pre-state
	double now(vec_len_t i, vec_len_t j) const { return m.data()[size_t(j) * m.rows() + i]; }
	void unchanged(const char* w) { same_bits(s, m, w); b.ok(w); }
	void bias_kept(const char* w) { for (numel_cnt_t i = 0; i < m.numel(); i++) if (is_bias(m, i)) VP_REQ(m.data()[i] == R(1), w, ": bias element ", i, " became ", m.data()[i]); b.ok(w); }
	// sample/feature view: element of sample i, feature j
	long double sf(vec_len_t i, vec_len_t j) const { return m.bBatchInRow() ? at(j, i) : at(i, j); }
	double nsf(vec_len_t i, vec_len_t j) const { return m.bBatchInRow() ? now(j, i) : now(i, j); }
};
}
static vec_len_t dim(vp::Gen& g, int mx = 12) { vec_len_t d = (vec_len_t)g.sz(1, (size_t)mx * g.scale); if (g.raw(30) == 29) d = (vec_len_t)g.sz(20, 130); return d; }
// act layout helper: nSamples x nFeatures
static GM act(vec_len_t ns, vec_len_t nf, bool bias, bool bir) { return bir ? GM(nf, ns, bias, true) : GM(ns, nf, bias, false); }
VP_TESTM(products, 3, 300) {
	Math& m = gen_math(g); vec_len_t p = dim(g), q = dim(g), s = dim(g); RndFill fa = gen_fill(g, -2, 2), fb = gen_fill(g, -2, 2); int op = (int)g.raw(3);
	g.nontrivial(p * q * s > 1); g.say(p, q, s, op); double k = 8 + q; 
	if (op == 0) { g.label("AB"); GM A(p, q), B(q, s), C(p, s); A.rnd(fa); B.rnd(fb); C.junk(); m.mMulAB_C(A.m, B.m, C.m); A.unchanged("A"); B.unchanged("B"); C.b.ok("C");
		for (vec_len_t i = 0; i < p; i++) for (vec_len_t j = 0; j < s; j++) { long double e = 0, mg = 0; for (vec_len_t t = 0; t < q; t++) { auto v = A.at(i, t) * B.at(t, j); e += v; mg += fabsl(v); } CLOSE(C.now(i, j), e, mg, k, "A*B ", i, ",", j); }
	} else if (op == 1) { bool bias = g.b(); g.label(bias ? "ABt_bias" : "ABt"); GM A(p, q), B(s, q), C(p, s, bias); A.rnd(fa); B.rnd(fb); C.junk(); m.mMulABt_Cnb(A.m, B.m, C.m); A.unchanged("A"); B.unchanged("B"); C.bias_kept("C");
		for (vec_len_t i = 0; i < p; i++) for (vec_len_t j = 0; j < s; j++) { long double e = 0, mg = 0; for (vec_len_t t = 0; t < q; t++) { auto v = A.at(i, t) * B.at(j, t); e += v; mg += fabsl(v); } CLOSE(C.now(i, j), e, mg, k, "A*B' ", i, ",", j); }
	} else { g.label("aAtB"); R al = R(g.real(-2, 2)); GM A(q, p), B(q, s), C(p, s); A.rnd(fa); B.rnd(fb); C.junk(); m.mScaledMulAtB_C(al, A.m, B.m, C.m); A.unchanged("A"); B.unchanged("B"); C.b.ok("C");
		for (vec_len_t i = 0; i < p; i++) for (vec_len_t j = 0; j < s; j++) { long double e = 0, mg = 0; for (vec_len_t t = 0; t < q; t++) { auto v = (long double)al * A.at(t, i) * B.at(t, j); e += v; mg += fabsl(v); } CLOSE(C.now(i, j), e, mg, k, "a*A'*B ", i, ",", j); }
	}
}
VP_TESTM(layer_products, 4, 400) {
	Math& m = gen_math(g); vec_len_t bs = dim(g), np = dim(g), n = dim(g); RndFill fa = gen_fill(g, -2, 2), fb = gen_fill(g, -2, 2); int op = (int)g.raw(3); bool b1 = g.b(), b2 = g.b(), bias2 = g.b();
	g.nontrivial(bs * np * n > 1); g.say("bs", bs, "prev", np, "n", n, op, b1, b2, bias2); g.labelif(b1, "prev_in_rows"); g.labelif(b2, "act_in_rows");
	if (op == 0) { g.label("fprop"); GM P = act(bs, np, true, b1), A = act(bs, n, bias2, b2), W(n, np + 1); P.rnd(fa); W.rnd(fb); A.junk();
		m.template mMul_prevAct_weights_2_act<R>(P.m, W.m, A.m); P.unchanged("prev act"); W.unchanged("weights"); A.bias_kept("act");
		for (vec_len_t i = 0; i < bs; i++) for (vec_len_t j = 0; j < n; j++) { long double e = W.at(j, np), mg = fabsl(e); for (vec_len_t t = 0; t < np; t++) { auto v = P.sf(i, t) * W.at(j, t); e += v; mg += fabsl(v); } CLOSE(A.nsf(i, j), e, mg, 10 + np, "preactivation of sample ", i, " neuron ", j); }
	} else if (op == 1) { g.label("dLdAprev"); GM Z(bs, n), W(n, np + 1), A = act(bs, np, false, b2); Z.rnd(fa); W.rnd(fb); A.junk();
		m.template mMul_dLdZ_weights_2_dLdAPrev<R>(Z.m, W.m, A.m); Z.unchanged("dLdZ"); W.unchanged("weights"); VP_REQ(W.m.cols() == np + 1 && W.m.rows() == n, "weights shape changed to ", W.m.rows(), "x", W.m.cols()); A.b.ok("dLdAPrev");
		for (vec_len_t i = 0; i < bs; i++) for (vec_len_t t = 0; t < np; t++) { long double e = 0, mg = 0; for (vec_len_t j = 0; j < n; j++) { auto v = Z.at(i, j) * W.at(j, t); e += v; mg += fabsl(v); } CLOSE(A.nsf(i, t), e, mg, 10 + n, "dL/dAprev of sample ", i, " feature ", t); }
	} else { g.label("dLdW"); R sc = R(g.real(-2, 2)); GM Z(bs, n), P = act(bs, np, true, b1), W(n, np + 1); Z.rnd(fa); P.rnd(fb); W.junk();
		m.template mMulScaled_dLdZ_prevAct_2_dLdW<R>(sc, Z.m, P.m, W.m); Z.unchanged("dLdZ"); P.unchanged("prev act"); W.b.ok("dLdW");
		for (vec_len_t j = 0; j < n; j++) for (vec_len_t t = 0; t <= np; t++) { long double e = 0, mg = 0; for (vec_len_t i = 0; i < bs; i++) { auto v = (long double)sc * Z.at(i, j) * (t == np ? 1.0L : P.sf(i, t)); e += v; mg += fabsl(v); } CLOSE(W.now(j, t), e, mg, 10 + bs, "dL/dW ", j, ",", t); }
	}
}
VP_TESTM(columns_cov, 1, 100) {
	Math& m = gen_math(g); vec_len_t r = dim(g, 20), c = 1 + dim(g, 10); RndFill f = gen_fill(g, -2, 2); bool lo = g.b(), rt = g.b(); g.nontrivial(r > 1); g.say(r, c, lo);
	GM A(r, c), C(c, c); A.rnd(f); C.junk(); if (rt) m.mColumnsCov(A.m, C.m, lo); else if (lo) m.template mColumnsCov<true>(A.m, C.m); else m.template mColumnsCov<false>(A.m, C.m);
	A.unchanged("A"); C.b.ok("C");
	for (vec_len_t i = 0; i < c; i++) for (vec_len_t j = 0; j < c; j++) if (lo ? i >= j : i <= j) { long double e = 0, mg = 0; for (vec_len_t t = 0; t < r; t++) { auto v = A.at(t, i) * A.at(t, j) / r; e += v; mg += fabsl(v); } CLOSE(C.now(i, j), e, mg, 10 + r, "covariance ", i, ",", j); }
}
VP_TESTM(orthogonalize, 1, 60) {
	Math& m = gen_math(g); vec_len_t r = dim(g, 14), c = dim(g, 14); if (r > 60) r = 60; if (c > 60) c = 60; RndFill f = gen_fill(g, -2, 2, 0); g.nontrivial(r > 1 && c > 1); g.say(r, c); g.label(r >= c ? "tall" : "wide");
	GM A(r, c); A.rnd(f); bool b = m.mSVD_Orthogonalize_ss(A.m); VP_REQ(b, "SVD failed"); A.b.ok("A");
	VP_REQ(A.m.rows() == r && A.m.cols() == c, "shape changed"); const vec_len_t k = std::min(r, c), L = std::max(r, c); double tol = EPS * 40 * (L + 4);
	auto q = [&](vec_len_t i, vec_len_t j) { return r >= c ? A.now(i, j) : A.now(j, i); }; auto o = [&](vec_len_t i, vec_len_t j) { return double(r >= c ? A.at(i, j) : A.at(j, i)); };
	for (vec_len_t i = 0; i < k; i++) for (vec_len_t j = 0; j < k; j++) { double s = 0; for (vec_len_t t = 0; t < L; t++) s += q(t, i) * q(t, j); VP_REQ(std::fabs(s - (i == j)) <= tol, "result is not orthonormal: ", i, ",", j, " gives ", s); }
	// same span: projecting the original vectors onto the result gives them back
	for (vec_len_t j = 0; j < k; j++) for (vec_len_t i = 0; i < L; i++) { double s = 0, mg = 1; for (vec_len_t t = 0; t < k; t++) { double d = 0; for (vec_len_t u = 0; u < L; u++) d += q(u, t) * o(u, j); s += d * q(i, t); mg += std::fabs(d); } VP_REQ(std::fabs(s - o(i, j)) <= tol * mg * 4, "result does not span the original vectors"); }
	bool tr = r >= c; VP_REQ(m._mIsOrthogonal(A.m, tr), "orthogonality test rejects an orthogonal matrix");
	vec_len_t di = (vec_len_t)g.z(0, r - 1), dj = (vec_len_t)g.z(0, c - 1); A.m.data()[size_t(dj) * r + di] += R(g.b() ? 0.5 : -0.5); double nn = 0; for (vec_len_t t = 0; t < L; t++) { double v = tr ? A.now(t, dj) : A.now(di, t); nn += v * v; }
	if (std::fabs(nn - 1) > 0.01) VP_REQ(!m._mIsOrthogonal(A.m, tr), "orthogonality test accepts a vector of squared length ", nn);
}
template<bool L, bool NS> static double dc(Math& m, const M& A) { return m.template loss_deCov<L, NS>(A); }
template<bool L, bool NS> static void ddc(Math& m, const M& A, M& d, R s) { m.template dLoss_deCov<L, NS>(A, d, s); }
VP_TESTM(decov, 2, 150) {
	Math& m = gen_math(g); vec_len_t r = 1 + (vec_len_t)g.sz(1, 20), c = 1 + (vec_len_t)g.sz(1, 10); bool bias = g.b(); RndFill f = gen_fill(g, -2, 2); g.say(r, c, bias); g.nontrivial(r > 1);
	GM A(r, c, bias); A.rnd(f); int var = (int)g.raw(4); std::vector<long double> D(size_t(r) * c), C(size_t(c) * c);
	for (vec_len_t j = 0; j < c; j++) { long double s = 0; for (vec_len_t i = 0; i < r; i++) s += A.at(i, j); for (vec_len_t i = 0; i < r; i++) D[size_t(j) * r + i] = A.at(i, j) - s / r; }
	long double loss = 0; for (vec_len_t i = 0; i < c; i++) for (vec_len_t j = 0; j < c; j++) { long double s = 0; for (vec_len_t t = 0; t < r; t++) s += D[size_t(i) * r + t] * D[size_t(j) * r + t]; C[size_t(j) * c + i] = s / r; if (i < j) loss += (s / r) * (s / r); }
	loss /= (c - 1);
	if (g.b()) { g.label("loss"); double e = var == 0 ? dc<true, false>(m, A.m) : var == 1 ? dc<false, false>(m, A.m) : var == 2 ? dc<true, true>(m, A.m) : dc<false, true>(m, A.m); VP_REQ(std::fabs(e - (double)loss) <= EPS * 60 * (r + c) * (1 + std::fabs((double)loss)), "decov loss ", e, " expected ", (double)loss); }
	else { g.label("dloss"); R sc = R(g.real(.1, 2)); GM dL(r, c); dL.junk(); var == 0 ? ddc<true, false>(m, A.m, dL.m, sc) : var == 1 ? ddc<false, false>(m, A.m, dL.m, sc) : var == 2 ? ddc<true, true>(m, A.m, dL.m, sc) : ddc<false, true>(m, A.m, dL.m, sc); dL.b.ok("dLoss");
		for (vec_len_t i = 0; i < r; i++) for (vec_len_t j = 0; j < c; j++) { long double s = 0, mg = 0; for (vec_len_t t = 0; t < c; t++) { long double v = D[size_t(t) * r + i] * C[size_t(j) * c + t]; mg += fabsl(v) + 4; if (t != j) s += v; } long double e = s * 2 * sc / (r * (long double)(c - 1)); CLOSE(dL.now(i, j), e, mg * 2 * sc / (r * (long double)(c - 1)), 60 + 4 * (r + c), "decov derivative ", i, ",", j); } }
	A.unchanged("activations");
}
