// P03: row/column reductions, row scaling, softmax, selection/extraction kernels vs. direct references
#include "mc.h"
namespace { struct Ctx { vp::Gen& g; Math& m; vec_len_t r, c; }; }
static Ctx start(vp::Gen& g) { Math& m = gen_math(g); vec_len_t r, c; gen_dims(g, r, c); g.say(r, "x", c); return Ctx{ g, m, r, c }; }
static void fin(Ctx& x) { x.g.nontrivial(x.r * x.c > 1); x.g.labelif(g_parallel > 0, "parallel"); x.g.labelif(x.r == 1, "1row"); x.g.labelif(x.c == 1, "1col"); }
static double rs(vp::Gen& g) { double v = g.val(-2, 2); return v == 0 ? 0.5 : v; }
static R& at(M& m, vec_len_t r, vec_len_t c) { return m.data()[(size_t)c * m.rows() + r]; }
static const R& at(const M& m, vec_len_t r, vec_len_t c) { return m.data()[(size_t)c * m.rows() + r]; }
static const vec_len_t CPT = 6; // above every columns-per-thread setting gen_math produces

VP_TESTM(sums, 3, 300) {
	auto x = start(g); auto f = gen_fill(g, -2, 2), f2 = gen_fill(g, -2, 2); M A(x.r, x.c), B(x.r, x.c); fill(A, f); fill(B, f2); VR a = snap(A), b = snap(B);
	int op = (int)g.raw(8); double k = 8 + double(A.numel());
	long double sp = 0, sq = 0, sa = 0, magp = 0; numel_cnt_t nz = 0;
	for (size_t i = 0; i < a.size(); i++) { long double p = (long double)(a[i]) * (long double)(b[i]); sp += p; magp += std::fabs(p); sq += (long double)(a[i]) * a[i]; sa += std::fabs(double(a[i])); nz += a[i] != 0; }
	static const char* nm[] = { "ewSumProd", "ewSumSquares", "ewSumSquares_ptr", "ewSumSquares_ns", "vSumAbs", "vCountNonZeros", "triang", "vCountSame" }; g.label(nm[op]); g.say(nm[op]);
	switch (op) {
	case 0: CLOSE(x.m.ewSumProd(A, B), sp, magp, k, "ewSumProd"); break;
	case 1: CLOSE(x.m.ewSumSquares(A), sq, sq, k, "ewSumSquares"); break;
	case 2: { numel_cnt_t n = (numel_cnt_t)g.z(1, A.numel()); long double s = 0; for (numel_cnt_t i = 0; i < n; i++) s += (long double)(a[i]) * a[i]; if (g.b()) CLOSE(x.m.ewSumSquares(A.data(), n), s, s, k, "ewSumSquares ptr"); else CLOSE(x.m.ewSumSquares_ns(A.data(), n), s, s, 16, "ewSumSquares_ns ptr"); break; }
	case 3: CLOSE(x.m.ewSumSquares_ns(A), sq, sq, 16 + g_nthr * 2, "ewSumSquares_ns"); break;
	case 4: CLOSE(x.m.vSumAbs(A), sa, sa, k, "vSumAbs"); break;
	case 5: VP_REQ(Math::vCountNonZeros(A.data(), A.numel()) == nz, "nonzeros ", Math::vCountNonZeros(A.data(), A.numel()), " exp ", nz); break;
	case 6: { vec_len_t n = std::min<vec_len_t>(std::max<vec_len_t>(x.r, 2), 60); M S(n, n); fill(S, f); long double lo = 0, up = 0; for (vec_len_t r = 0; r < n; r++) for (vec_len_t c = 0; c < n; c++) { long double q = (long double)(at(S, r, c)) * at(S, r, c); if (r > c) lo += q; else if (r < c) up += q; }
		switch (g.raw(4)) { case 0: CLOSE((x.m.ewSumSquaresTriang<true, false>(S)), lo, lo, 8 + n * n, "lower"); break; case 1: CLOSE((x.m.ewSumSquaresTriang<false, false>(S)), up, up, 8 + n * n, "upper"); break;
		case 2: CLOSE((x.m.ewSumSquaresTriang<true, true>(S)), lo, lo, 24 + n, "lower ns"); break; case 3: CLOSE((x.m.ewSumSquaresTriang<false, true>(S)), up, up, 24 + n, "upper ns"); break; } break; }
	case 7: { size_t n = g.sz(1, 60), ofs = g.sz(0, 20); std::vector<int> P(n + ofs), Q(n); vp::Rnd r(g.seed()); for (auto& v : P) v = (int)r.below(3); for (auto& v : Q) v = (int)r.below(3); numel_cnt_t e = 0; for (size_t i = 0; i < n; i++) e += P[i + ofs] == Q[i]; VP_REQ(x.m.vCountSame(P, Q, (vec_len_t)ofs) == e, "vCountSame");
		vec_len_t rb = (vec_len_t)g.sz(1, 20), o2 = (vec_len_t)g.sz(0, 10), ra = rb + o2 + (vec_len_t)g.sz(0, 5), cc = (vec_len_t)g.sz(1, 8); math::smatrix<char> SA(ra, cc), SB(rb, cc); for (numel_cnt_t i = 0; i < SA.numel(); i++) SA.data()[i] = (char)r.below(2); for (numel_cnt_t i = 0; i < SB.numel(); i++) SB.data()[i] = (char)r.below(2);
		e = 0; for (vec_len_t c = 0; c < cc; c++) for (vec_len_t q = 0; q < rb; q++) e += SA.get(q + o2, c) == SB.get(q, c); VP_REQ(x.m.vCountSameBatch(SA, o2, SB) == e, "vCountSameBatch"); break; }
	}
	same_bits(a, A, nm[op]); same_bits(b, B, nm[op]); fin(x);
}
#define VARIANT(n, call) case n: if (!OPTIONAL(x.m, call)) { x.m.generic(); } break
VP_TESTM(row_scale, 2, 200) {
	auto x = start(g); auto f = gen_fill(g, -2, 2), fv = gen_fill(g, .25, 4, 0); M A(x.r, x.c); fill(A, f); VR a = snap(A); VR v(x.r); for (auto& q : v) q = rv(fv); const R* p = v.data();
	bool div = g.b(); int var = (int)g.raw(10); bool done = false; if (var > 6) var = 0;
	if (div) switch (var) { case 1: done = OPTIONAL(x.m, mrwDivideByVec_st(A, p)); break; case 2: done = OPTIONAL(x.m, mrwDivideByVec_mt(A, p)); break; case 3: done = OPTIONAL(x.m, mrwDivideByVec_st_cw(A, p)); break; case 4: done = OPTIONAL(x.m, mrwDivideByVec_st_rw(A, p)); break; case 5: done = OPTIONAL(x.m, mrwDivideByVec_mt_cw(A, p)); break; case 6: done = OPTIONAL(x.m, mrwDivideByVec_mt_rw(A, p)); break; }
	else switch (var) { case 1: done = OPTIONAL(x.m, mrwMulByVec_st(A, p)); break; case 2: done = OPTIONAL(x.m, mrwMulByVec_mt(A, p)); break; case 3: done = OPTIONAL(x.m, mrwMulByVec_st_cw(A, p)); break; case 4: done = OPTIONAL(x.m, mrwMulByVec_st_rw(A, p)); break; case 5: done = OPTIONAL(x.m, mrwMulByVec_mt_cw(A, p)); break; case 6: done = OPTIONAL(x.m, mrwMulByVec_mt_rw(A, p)); break; }
	if (!done) { if (div) x.m.mrwDivideByVec(A, p); else x.m.mrwMulByVec(A, p); } else g.label("variant");
	g.label(div ? "div" : "mul"); const auto rr = x.r; check_ew(A, a, [&](numel_cnt_t i, double q) { return div ? q / double(v[i % rr]) : q * double(v[i % rr]); }, "row scale", 4); fin(x);
}
VP_TESTM(row_max, 3, 300) {
	auto x = start(g); auto f = gen_fill(g, -2, 2); M A(x.r, x.c); fill(A, f); if (g.b(1, 4)) for (numel_cnt_t i = 0; i < A.numel(); i++) A.data()[i] = R(-std::fabs(A.data()[i]) - .5);
	VR a = snap(A); int var = (int)g.raw(12); bool done = false;
	std::vector<double> mx(x.r); std::vector<vec_len_t> ix(x.r); for (vec_len_t r = 0; r < x.r; r++) { mx[r] = at(A, r, 0); ix[r] = 0; for (vec_len_t c = 1; c < x.c; c++) if (double(at(A, r, c)) > mx[r]) { mx[r] = at(A, r, c); ix[r] = c; } }
	if (g.b()) { g.label("idx"); std::vector<vec_len_t> got(x.r, -7); vec_len_t* p = got.data();
		switch (var) { case 1: done = OPTIONAL(x.m, mrwIdxsOfMax_st(A, p)); break; case 2: done = x.c > CPT && OPTIONAL(x.m, mrwIdxsOfMax_mt_cw(A, p)); break; case 3: done = OPTIONAL(x.m, mrwIdxsOfMax_mt_rw(A, p)); break; case 4: done = OPTIONAL(x.m, mrwIdxsOfMax_st_cw(A, p)); break; case 5: done = OPTIONAL(x.m, mrwIdxsOfMax_st_rw(A, p)); break; case 6: done = OPTIONAL(x.m, mrwIdxsOfMax_st_rw_small(A, p)); break; case 7: done = x.c > CPT && OPTIONAL(x.m, mrwIdxsOfMax_mt_cw_small(A, p)); break; case 8: done = OPTIONAL(x.m, mrwIdxsOfMax_mt(A, p)); break; }
		if (!done) x.m.mrwIdxsOfMax(A, p); else g.label("variant");
		for (vec_len_t r = 0; r < x.r; r++) VP_REQ(got[r] == ix[r], "argmax of row ", r, " is ", got[r], " expected first maximum ", ix[r], " var ", var);
	} else { g.label("max"); VR got(size_t(x.r) * g_nthr, R(-77)); R* p = got.data();
		switch (var) { case 1: done = OPTIONAL(x.m, mrwMax_st(A, p)); break; case 2: done = x.c > CPT && OPTIONAL(x.m, mrwMax_mt_cw(A, p)); break; case 3: done = OPTIONAL(x.m, mrwMax_mt_rw(A, p)); break; case 4: done = OPTIONAL(x.m, mrwMax_st_cw(A, p)); break; case 5: done = OPTIONAL(x.m, mrwMax_st_rw(A, p)); break; case 6: done = OPTIONAL(x.m, mrwMax_st_rw_small(A, p)); break; case 8: done = OPTIONAL(x.m, mrwMax_mt(A, p)); break; }
		if (!done) x.m.mrwMax(A, p); else g.label("variant");
		for (vec_len_t r = 0; r < x.r; r++) VP_REQ(double(got[r]) == mx[r], "max of row ", r, " ", got[r], " exp ", mx[r], " var ", var); }
	same_bits(a, A, "source"); fin(x);
}
VP_TESTM(row_sum, 3, 300) {
	auto x = start(g); auto f = gen_fill(g, -2, 2); M A(x.r, x.c); fill(A, f); VR a = snap(A); int var = (int)g.raw(12); bool done = false, ip = g.b(1, 3), orop = !ip && g.b(1, 3);
	std::vector<double> s(x.r, 0), mg(x.r, 0); for (vec_len_t r = 0; r < x.r; r++) for (vec_len_t c = 0; c < x.c; c++) { s[r] += double(at(A, r, c)); mg[r] += std::fabs(double(at(A, r, c))); }
	if (orop) { g.label("or"); for (numel_cnt_t i = 0; i < A.numel(); i++) A.data()[i] = R(a[i] > R(1) ? 1 : 0); VR b = snap(A); VR got(size_t(x.r) * g_nthr, R(-7)); R* p = got.data();
		switch (var) { case 1: done = OPTIONAL(x.m, mrwOr_st(A, p)); break; case 2: done = x.c > CPT && OPTIONAL(x.m, mrwOr_mt_cw(A, p)); break; case 3: done = x.c > 1 && OPTIONAL(x.m, mrwOr_mt_rw(A, p)); break; case 4: done = x.c > 1 && OPTIONAL(x.m, mrwOr_st_cw(A, p)); break; case 5: done = x.c > 1 && OPTIONAL(x.m, mrwOr_st_rw(A, p)); break; case 8: done = OPTIONAL(x.m, mrwOr_mt(A, p)); break; }
		if (!done) x.m.mrwOr(A, p); else g.label("variant"); same_bits(b, A, "or src");
		for (vec_len_t r = 0; r < x.r; r++) { bool e = false; for (vec_len_t c = 0; c < x.c; c++) e |= b[(size_t)c * x.r + r] != 0; VP_REQ(got[r] == R(e ? 1 : 0), "OR row ", r, " got ", got[r], " exp ", e, " var ", var); }
		fin(x); return; }
	if (ip) { g.label("sum_ip"); switch (var) { case 1: done = OPTIONAL(x.m, mrwSum_ip_st(A)); break; case 2: done = x.c > CPT && OPTIONAL(x.m, mrwSum_ip_mt_cw(A)); break; case 3: done = x.c > 1 && OPTIONAL(x.m, mrwSum_ip_mt_rw(A)); break; case 4: done = x.c > 1 && OPTIONAL(x.m, mrwSum_ip_st_cw(A)); break; case 5: done = x.c > 1 && OPTIONAL(x.m, mrwSum_ip_st_rw(A)); break; case 6: done = x.c > 1 && OPTIONAL(x.m, mrwSum_ip_st_rw_small(A)); break; case 8: done = OPTIONAL(x.m, mrwSum_ip_mt(A)); break; }
		if (!done) x.m.mrwSum_ip(A); else g.label("variant");
		for (vec_len_t r = 0; r < x.r; r++) CLOSE(at(A, r, 0), s[r], mg[r], 8 + x.c, "row sum ip ", r, " var ", var);
	} else { g.label("sum"); VR got(size_t(x.r) * g_nthr, R(-7)); R* p = got.data();
		switch (var) { case 1: done = OPTIONAL(x.m, mrwSum_st(A, p)); break; case 2: done = x.c > CPT && OPTIONAL(x.m, mrwSum_mt_cw(A, p)); break; case 3: done = x.c > 1 && OPTIONAL(x.m, mrwSum_mt_rw(A, p)); break; case 4: done = x.c > 1 && OPTIONAL(x.m, mrwSum_st_cw(A, p)); break; case 5: done = x.c > 1 && OPTIONAL(x.m, mrwSum_st_rw(A, p)); break; case 8: done = OPTIONAL(x.m, mrwSum_mt(A, p)); break; }
		if (!done) x.m.mrwSum(A, p); else g.label("variant"); same_bits(a, A, "sum src");
		for (vec_len_t r = 0; r < x.r; r++) CLOSE(got[r], s[r], mg[r], 8 + x.c, "row sum ", r, " var ", var); }
	fin(x);
}
VP_TESTM(col_stats, 3, 300) {
	auto x = start(g); auto f = gen_fill(g, -2, 2); double off = g.b(1, 4) ? 30 : 0; M A(x.r, x.c); fill(A, f); for (numel_cnt_t i = 0; off && i < A.numel(); i++) A.data()[i] += R(off);
	VR a = snap(A); int op = (int)g.raw(7); bool ns = g.b(); static const char* nm[] = { "mcwMean", "mcwDeMean", "mcwDeMeanNZ", "mcwSub_ip", "mcwMulDiag_ip", "mcwSum", "mrwL2NormSquared" }; g.label(nm[op]); g.say(nm[op], ns);
	auto src = [&](vec_len_t r, vec_len_t c) { return double(a[(size_t)c * x.r + r]); };
	V sum(x.c, 0), mg(x.c, 0); for (vec_len_t c = 0; c < x.c; c++) for (vec_len_t r = 0; r < x.r; r++) { sum[c] += src(r, c); mg[c] += std::fabs(src(r, c)); }
	const double k = 8 + x.r;
	if (op == 0) { VR got(x.c); if (ns) x.m.mcwMean<true>(A, got.data()); else x.m.mcwMean<false>(A, got.data()); same_bits(a, A, "mean src"); for (vec_len_t c = 0; c < x.c; c++) CLOSE(got[c], sum[c] / x.r, mg[c] / x.r, k, "mean of column ", c); }
	else if (op == 1) { if (ns) x.m.mcwDeMean<true>(A); else x.m.mcwDeMean<false>(A); for (vec_len_t c = 0; c < x.c; c++) for (vec_len_t r = 0; r < x.r; r++) CLOSE(at(A, r, c), src(r, c) - sum[c] / x.r, mg[c] / x.r + std::fabs(src(r, c)), k, "demean ", r, ",", c); }
	else if (op == 2) { R cp = R(g.pick({ 0., 0., .5, -.25 })); for (vec_len_t c = 0; c < x.c; c++) for (vec_len_t r = 0; r < x.r; r++) { uint64_t h = vp::mix(c * 977 + r + g_order); if (h % 3 == 0) at(A, r, c) = cp; if (h % 7 == 0 && x.r < 8) at(A, r, c) = cp; } a = snap(A);
		if (ns) x.m.mcwDeMeanNZ<true>(A, cp); else x.m.mcwDeMeanNZ<false>(A, cp);
		for (vec_len_t c = 0; c < x.c; c++) { double s = 0, m = 0; int n = 0; for (vec_len_t r = 0; r < x.r; r++) if (src(r, c) != double(cp)) { s += src(r, c) - double(cp); m += std::fabs(src(r, c)) + std::fabs(double(cp)); n++; }
			for (vec_len_t r = 0; r < x.r; r++) if (src(r, c) == double(cp)) VP_REQ(at(A, r, c) == cp, "central element moved ", r, ",", c, " to ", at(A, r, c)); else CLOSE(at(A, r, c), src(r, c) - s / n, m / n + std::fabs(src(r, c)), k * 2, "demeanNZ ", r, ",", c, " cp ", cp); } }
	else if (op == 3) { VR v(x.c); for (auto& q : v) q = rv(f); x.m.mcwSub_ip(A, v.data()); for (vec_len_t c = 0; c < x.c; c++) for (vec_len_t r = 0; r < x.r; r++) CLOSE(at(A, r, c), src(r, c) - double(v[c]), 4 + off, 4, "mcwSub ", r, ",", c); }
	else if (op == 4) { M B(x.c, x.c); fill(B, f); VR b = snap(B); x.m.mcwMulDiag_ip(A, B); same_bits(b, B, "diag"); for (vec_len_t c = 0; c < x.c; c++) for (vec_len_t r = 0; r < x.r; r++) CLOSE(at(A, r, c), src(r, c) * double(at(B, c, c)), 0, 4, "mulDiag ", r, ",", c); }
	else if (op == 5) { VR got(x.c, R(-9)); if (ns) x.m.mcwSum<true>(A, got.data()); else x.m.mcwSum<false>(A, got.data()); same_bits(a, A, "mcwSum src"); for (vec_len_t c = 0; c < x.c; c++) CLOSE(got[c], sum[c], mg[c], k, "col sum ", c); }
	else { VR got(size_t(x.r) * g_nthr, R(-9)); R* p = got.data(); bool done = false; switch (g.raw(4)) { case 1: done = OPTIONAL(x.m, mrwL2NormSquared_st(A, p)); break; case 2: done = OPTIONAL(x.m, mrwL2NormSquared_mt(A, p)); break; } if (!done) x.m.mrwL2NormSquared(A, p); same_bits(a, A, "norm src");
		for (vec_len_t r = 0; r < x.r; r++) { double s = 0; for (vec_len_t c = 0; c < x.c; c++) s += src(r, c) * src(r, c); CLOSE(got[r], s, s, 8 + x.c, "L2 norm row ", r); } }
	fin(x);
}
VP_TESTM(row_norms, 2, 200) { // max-norm and set-norm of weight rows
	auto x = start(g); auto f = gen_fill(g, -2, 2, 0); if (x.c < 2) x.c = 2; MD A(x.r, x.c); fill(A, f); VR a = snap(A); bool inc = g.b(), mt = g.b(1, 3);
	auto src = [&](vec_len_t r, vec_len_t c) { return double(a[(size_t)c * x.r + r]); };
	V n2(x.r, 0); for (vec_len_t r = 0; r < x.r; r++) for (vec_len_t c = 0; c < x.c - (inc ? 0 : 1); c++) n2[r] += src(r, c) * src(r, c);
	if (g.b()) { g.label("max-norm"); double mx = R(g.real(.2, 1.6) * n2[g.raw(x.r)] + 0.01); bool done = mt && OPTIONAL(x.m, mCheck_normalize_rows_mt(A, R(mx), inc)); if (!done) x.m.mCheck_normalize_rows(A, R(mx), inc); int scaled = 0;
		VP_REQ(A.rows() == x.r && A.cols() == x.c && !A.emulatesBiases(), "shape");
		for (vec_len_t r = 0; r < x.r; r++) { if (std::fabs(n2[r] - mx) < 64 * x.c * EPS * mx) continue; double q = n2[r] > mx ? std::sqrt(mx / n2[r]) : 1; scaled += q < 1; double nn = 0;
			for (vec_len_t c = 0; c < x.c; c++) { if (q == 1) VP_REQ(double(at(A, r, c)) == src(r, c), "row within the bound changed ", r, ",", c, " norm2 ", n2[r], " max ", mx); else { CLOSE(at(A, r, c), src(r, c) * q, std::fabs(src(r, c)), 32 + 2 * x.c, "max-norm ", r, ",", c, " norm2 ", n2[r], " max ", mx, " inc ", inc); } if (c < x.c - (inc ? 0 : 1)) nn += double(at(A, r, c)) * at(A, r, c); }
			VP_REQ(nn <= mx * (1 + (64 + 8 * x.c) * EPS), "row ", r, " still above max norm: ", nn, " > ", mx); }
		g.labelif(scaled > 0, "scaled"); g.labelif(scaled < x.r, "kept");
	} else { g.label("set-norm"); double t = R(g.real(.3, 4)); if (g.b()) x.m.mrwSetL2Norm(A, R(t), inc); else { M& B = A; x.m.mrwSetL2Norm(B, R(t), inc); }
		for (vec_len_t r = 0; r < x.r; r++) { if (n2[r] < 1e-3) continue; double q = std::sqrt(t / n2[r]); for (vec_len_t c = 0; c < x.c; c++) CLOSE(at(A, r, c), src(r, c) * q, std::fabs(src(r, c)), 64 + 4 * x.c, "set-norm ", r, ",", c, " norm2 ", n2[r], " target ", t, " inc ", inc); } }
	fin(x);
}
VP_TESTM(softmax, 2, 200) {
	auto x = start(g); auto f = gen_fill(g, -8, 8); bool hb = g.b(); MD A(x.r, x.c, hb); fill(A, f); double off = g.pick({ 0., 0., 500., -500. }); for (numel_cnt_t i = 0; i < A.numel_no_bias(); i++) A.data()[i] += R(off);
	VR a = snap(A); bool done = false; switch (g.raw(4)) { case 1: done = OPTIONAL(x.m, softmax_st(A)); break; case 2: done = OPTIONAL(x.m, softmax_mt(A)); break; } if (!done) x.m.softmax(A);
	VP_REQ(A.emulatesBiases() == hb && A.cols() == x.c + (hb ? 1 : 0), "shape/bias flag"); if (hb) VP_REQ(A.test_biases_strict(), "biases");
	for (vec_len_t r = 0; r < x.r; r++) { double mx = -1e300, s = 0, t = 0; for (vec_len_t c = 0; c < x.c; c++) mx = std::max(mx, double(a[(size_t)c * x.r + r])); for (vec_len_t c = 0; c < x.c; c++) s += std::exp(double(a[(size_t)c * x.r + r]) - mx);
		for (vec_len_t c = 0; c < x.c; c++) { double e = std::exp(double(a[(size_t)c * x.r + r]) - mx) / s, got = at(A, r, c); VP_REQ(std::fabs(got - e) <= 64 * EPS * e * (1 + 8) + 8 * EPS * x.c * e + 1e-30, "softmax ", r, ",", c, " got ", got, " exp ", e); t += got; } VP_REQ(std::fabs(t - 1) < (16 + 4 * x.c) * EPS, "row sum ", t); }
	g.labelif(off != 0, "shifted"); fin(x);
}
VP_TESTM(extract, 4, 400) {
	auto x = start(g); auto f = gen_fill(g, -2, 2); int op = (int)g.raw(7); static const char* nm[] = { "mExtractRows", "mExtractCols", "mExtractBatches", "mExtractRowsByMask", "mFillRowsByMask", "mExtractRowsSeq", "mExtractRows_biased" }; g.label(nm[op]); g.say(nm[op]);
	auto idxs = [&](vec_len_t n, vec_len_t lim) { vp::Rnd r(g.seed()); std::vector<vec_len_t> v(n); for (auto& q : v) q = (vec_len_t)r.below(lim); return v; };
	if (op == 0 || op == 6) { bool hb = op == 6; vec_len_t n = (vec_len_t)g.sz(1, 50); M S(x.r, x.c, hb), D(n, x.c, hb); fill(S, f); VR s = snap(S); for (numel_cnt_t i = 0; i < D.numel_no_bias(); i++) D.data()[i] = R(-9); auto ix = idxs(n, x.r);
		x.m.mExtractRows(S, ix.begin(), D); same_bits(s, S, nm[op]); for (vec_len_t c = 0; c < D.cols(); c++) for (vec_len_t r = 0; r < n; r++) VP_REQ(at(D, r, c) == at(S, ix[r], c), "row ", r, " <- ", ix[r], " col ", c); }
	else if (op == 1) { vec_len_t n = (vec_len_t)g.sz(1, 40); M S(x.r, x.c, false, true), D(x.r, n, false, true); fill(S, f); VR s = snap(S); auto ix = idxs(n, x.c); x.m.mExtractCols(S, ix.begin(), D); same_bits(s, S, nm[op]); for (vec_len_t c = 0; c < n; c++) for (vec_len_t r = 0; r < x.r; r++) VP_REQ(at(D, r, c) == at(S, r, ix[c]), "col ", c, " <- ", ix[c]); }
	else if (op == 2) { bool bir = g.b(), hb = g.b(); vec_len_t n = (vec_len_t)g.sz(1, 40); M S = bir ? M(x.c, x.r, hb, true) : M(x.r, x.c, hb, false), D = bir ? M(x.c, n, hb, true) : M(n, x.c, hb, false); fill(S, f); VR s = snap(S); auto ix = idxs(n, x.r); g.label(bir ? "batch in row" : "batch in column");
		x.m.mExtractBatches(S, ix.begin(), D); same_bits(s, S, nm[op]); for (vec_len_t b = 0; b < n; b++) for (vec_len_t k = 0; k < x.c + (hb ? 1 : 0); k++) { R got = bir ? at(D, k, b) : at(D, b, k), e = bir ? at(S, k, ix[b]) : at(S, ix[b], k); VP_REQ(got == e, "sample ", b, " <- ", ix[b], " feature ", k, " got ", got, " exp ", e); } }
	else if (op == 3 || op == 4) { VR mask(x.r, R(0)); vp::Rnd r(g.seed()); vec_len_t n = 0; for (auto& q : mask) if (r.below(2)) { q = R(1); n++; } if (!n) { mask[0] = R(1); n = 1; }
		if (op == 3) { bool hb = g.b(1, 3); M S(x.r, x.c, hb), D(n, x.c, hb); fill(S, f); VR s = snap(S); x.m.mExtractRowsByMask(S, mask.data(), D); same_bits(s, S, nm[op]); vec_len_t d = 0; for (vec_len_t q = 0; q < x.r; q++) if (mask[q] != 0) { for (vec_len_t c = 0; c < x.c; c++) VP_REQ(at(D, d, c) == at(S, q, c), "masked row ", q); d++; } }
		else { bool hb = g.b(1, 3); M S(n, x.c, hb), D(x.r, x.c, hb); fill(S, f); fill(D, f); VR s = snap(S); x.m.mFillRowsByMask(S, mask.data(), D); same_bits(s, S, nm[op]); vec_len_t d = 0; for (vec_len_t q = 0; q < x.r; q++) { for (vec_len_t c = 0; c < x.c; c++) VP_REQ(at(D, q, c) == (mask[q] != 0 ? at(S, d, c) : R(0)), "fill row ", q, " col ", c); d += mask[q] != 0; } } }
	else { vec_len_t n = (vec_len_t)g.z(1, x.r), ofs = (vec_len_t)g.z(0, x.r - n); bool hb = g.b(); M S(x.r, x.c, hb), D(n, x.c, hb); fill(S, f); VR s = snap(S); x.m.mExtractRowsSeq(S, ofs, D); same_bits(s, S, nm[op]); for (vec_len_t c = 0; c < D.cols(); c++) for (vec_len_t r = 0; r < n; r++) VP_REQ(at(D, r, c) == at(S, r + ofs, c), "seq row ", r, " ofs ", ofs, " col ", c); }
	fin(x);
}
VP_TESTM(clone_tile, 3, 300) {
	auto x = start(g); auto f = gen_fill(g, -2, 2); int op = (int)g.raw(4);
	if (op == 0) { g.label("mCloneCols"); std::vector<vec_len_t> sp(x.c); vec_len_t t = 0; vp::Rnd r(g.seed()); for (auto& q : sp) { q = 1 + (vec_len_t)r.below(4); t += q; } M S(x.r, x.c), D(x.r, t); fill(S, f); x.m.mCloneCols(S, D, sp.data()); vec_len_t d = 0; for (vec_len_t c = 0; c < x.c; c++) for (vec_len_t q = 0; q < sp[c]; q++, d++) for (vec_len_t rr = 0; rr < x.r; rr++) VP_REQ(at(D, rr, d) == at(S, rr, c), "cloned col ", d, " from ", c); }
	else if (op == 1) { g.label("mCloneCol"); M S(x.r, 1), D(x.r, x.c); fill(S, f); x.m.mCloneCol(S, D); for (vec_len_t c = 0; c < x.c; c++) for (vec_len_t rr = 0; rr < x.r; rr++) VP_REQ(at(D, rr, c) == at(S, rr, 0), "clone col"); }
	else { vec_len_t m = std::min<vec_len_t>(x.r, 60), n = std::min<vec_len_t>(x.c, 24), k = 2 + (vec_len_t)g.raw(6); bool hb = g.b(); M S(m, k * n, hb), D(k * m, n, hb), U(m, k * n, hb); fill(S, f); VR s = snap(S); int var = (int)g.raw(5); bool done = false; g.label("tiling");
		if (var == 1) done = OPTIONAL(x.m, mTilingRoll_st(S, D)); else if (var == 2) done = OPTIONAL(x.m, mTilingRoll_mt(S, D)); if (!done) x.m.mTilingRoll(S, D); same_bits(s, S, "roll src");
		for (vec_len_t t = 0; t < k; t++) for (vec_len_t r = 0; r < m; r++) for (vec_len_t c = 0; c < n; c++) VP_REQ(at(D, t * m + r, c) == at(S, r, t * n + c), "roll tile ", t, " r ", r, " c ", c, " var ", var); if (hb) VP_REQ(D.test_biases_strict(), "roll biases");
		VR d = snap(D); done = false; if (var == 3) done = OPTIONAL(x.m, mTilingUnroll_st(D, U)); else if (var == 4) done = OPTIONAL(x.m, mTilingUnroll_mt(D, U)); if (!done) x.m.mTilingUnroll(D, U); same_bits(d, D, "unroll src");
		for (numel_cnt_t i = 0; i < U.numel(); i++) VP_REQ(U.data()[i] == s[i], "unroll(roll(x)) != x at ", i); }
	fin(x);
}
template<template<class> class ORD> static void t_find(vp::Gen& g, int kind) { // k best values per column over several batches
	Math& m = gen_math(g); vec_len_t cols = (vec_len_t)g.sz(1, 8), k = (vec_len_t)g.z(1, 5); int nb = (int)g.z(1, 4); typename math::mcwFindKOrdered_hlpr<R, ORD>::Aggregator agg; std::vector<std::vector<V>> bat; bool ties = kind % 2 == 1; // 0 biggest distinct, 1 biggest, 2 smallest distinct, 3 smallest
	typedef math::mcwFindKOrdered_hlpr_base<R> HB; auto hs = HB::hlprmtx_size_for(k, cols); typename HB::hlprmtx_t H(hs); vp::Rnd r(g.seed()); V all[64]; g.say("k", k, "cols", cols, "batches", nb, "kind", kind);
	for (int b = 0; b < nb; b++) {
		bat.emplace_back();
		vec_len_t rows = k + (vec_len_t)g.sz(0, 12); M S(rows, cols, g.b(1, 3)); for (vec_len_t c = 0; c < cols; c++) { // enough distinct values in every batch
			for (vec_len_t q = 0; q < rows; q++) at(S, q, c) = R(q < k ? double(q) + .5 * double(r.below(2)) - double(r.below(4)) * 0 : double(r.below(12)) - 4); for (vec_len_t q = rows; q > 1; q--) std::swap(at(S, q - 1, c), at(S, (vec_len_t)r.below(q), c)); }
		for (vec_len_t c = 0; c < cols; c++) { bat.back().emplace_back(); for (vec_len_t q = 0; q < rows; q++) bat.back().back().push_back(double(at(S, q, c))); }
		if (ties) g.label("ties allowed");
		switch (kind) { case 0: m.mcwFindKBiggestDistinct(S, H, b > 0); break; case 1: m.mcwFindKBiggest(S, H, b > 0); break; case 2: m.mcwFindKSmallestDistinct(S, H, b > 0); break; default: m.mcwFindKSmallest(S, H, b > 0); }
		for (vec_len_t c = 0; c < cols; c++) {
			V prev = all[c]; for (vec_len_t q = 0; q < rows; q++) all[c].push_back(double(at(S, q, c))); V s = all[c]; std::sort(s.begin(), s.end()); if (kind < 2) std::reverse(s.begin(), s.end()); if (!ties) s.erase(std::unique(s.begin(), s.end()), s.end());
			const auto pv = HB::get_cache_ptr_from_column_ptr(H.colDataAsVec(c), k); const auto pi = HB::get_idxs_ptr_from_column_ptr(H.colDataAsVec(c), k);
			std::set<long> used; for (vec_len_t j = 0; j < k; j++) { double got = pv[k - 1 - j]; VP_REQ(got == s[j], "place ", j, " of column ", c, " is ", got, " expected ", s[j]); long id = (long)pi[k - 1 - j]; if (id >= 0) { VP_REQ(id < rows && double(at(S, (vec_len_t)id, c)) == got, "index ", id, " does not hold value ", got); VP_REQ(used.insert(id).second, "index used twice"); } else VP_REQ(b > 0 && std::find(prev.begin(), prev.end(), got) != prev.end(), "value attributed to an earlier batch that has not got it"); } }
		VP_REQ(agg.aggregate(H, b), "aggregate() failed");
		M X; VP_REQ(agg.export_values(X), "export_values() failed"); VP_REQ(X.rows() == k && X.cols() == cols && !X.emulatesBiases(), "exported values are ", X.rows(), "x", X.cols()); std::set<int> use; std::vector<std::set<long>> seen(cols); std::vector<std::set<int>> places(cols); int got = 0;
		for (vec_len_t c = 0; c < cols; c++) { V s = all[c]; std::sort(s.begin(), s.end()); if (kind < 2) std::reverse(s.begin(), s.end()); if (!ties) s.erase(std::unique(s.begin(), s.end()), s.end()); for (vec_len_t j = 0; j < k; j++) VP_REQ(double(X.get(j, c)) == s[j], "aggregated: place ", j, " of column ", c, " after ", b + 1, " batches is ", X.get(j, c), " expected ", s[j]); }
		std::string bad; for (int q = 0; q <= b; q++) { bool r = agg.for_batchIdx(q, [&](vec_len_t c, vec_len_t p, R v, vec_len_t id) { use.insert(q); got++; std::ostringstream o; if (c >= cols || p >= k || p < 0) o << "place " << p << " of column " << c; else if (id < 0 || (size_t)id >= bat[(size_t)q][(size_t)c].size() || bat[(size_t)q][(size_t)c][(size_t)id] != double(v)) o << "batch " << q << " row " << id << " column " << c << " does not hold " << v; else if (double(X.get(p, c)) != double(v)) o << "place " << p << " of column " << c << " is " << v << ", exported as " << X.get(p, c); else if (!seen[(size_t)c].insert((long)q << 32 | (long)id).second) o << "row " << id << " of batch " << q << " is attributed twice in column " << c; else if (!places[(size_t)c].insert((int)p).second) o << "place " << p << " reported twice"; if (bad.empty()) bad = o.str(); return true; }); VP_REQ(r, "for_batchIdx() returned false"); }
		VP_REQ(bad.empty(), "aggregated origin: ", bad); VP_REQ(got == (int)(k * cols), "aggregated: ", got, " origins for ", k * cols, " places"); auto bu = agg.batches_in_use(nb); VP_REQ((int)bu.size() == nb, "batches_in_use() size"); for (int q = 0; q < nb; q++) VP_REQ(bu[(size_t)q] == (use.count(q) > 0), "batches_in_use(): batch ", q, " is ", (bool)bu[(size_t)q]);
		if (b == 0 && g.b()) { int n = 0; VP_REQ(!agg.for_batchIdx(0, [&](vec_len_t, vec_len_t, R, vec_len_t) { ++n; return false; }) && n == 1, "for_batchIdx() goes on after the callback returned false"); }
	}
	g.nontrivial(nb > 1 || k > 1); g.labelif(nb > 1, "several batches");
}
VP_TESTM(find_k, 2, 200) { int kind = (int)g.raw(4); switch (kind) { case 0: t_find<math::Order_BiggestDistinct>(g, 0); break; case 1: t_find<math::Order_Biggest>(g, 1); break; case 2: t_find<math::Order_SmallestDistinct>(g, 2); break; default: t_find<math::Order_Smallest>(g, 3); } }
