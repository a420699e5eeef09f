// P02: element-wise kernels: the result is the mathematical one for every size, threshold setting, thread count and chunk order
#include "mc.h"
static double sgn(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
namespace { struct Ctx { vp::Gen& g; Math& m; vec_len_t r, c; }; }
static Ctx start(vp::Gen& g) { Math& m = gen_math(g); vec_len_t r, c; gen_dims(g, r, c); g.say(r, "x", c); return Ctx{ g, m, r, c }; }
static void fin(Ctx& x) { x.g.nontrivial(x.r * x.c > 1); x.g.labelif(g_parallel > 0, "parallel"); x.g.labelif(x.r * x.c == 1, "1x1"); }
static double rs(vp::Gen& g) { double v = g.val(-2, 2); return v == 0 ? 0.5 : v; }

VP_TESTM(unary_ip, 3, 400) {
	auto x = start(g); bool bias = g.b(), bir = g.b(1, 3); if (!bias) bir = false;
	M A(bias && bir ? x.r : x.r, x.c, bias, bir); auto f = gen_fill(g, -3, 3); fill(A, f);
	double c1 = R(rs(g)), c2 = R(rs(g)); bool hb = A.emulatesBiases();
	VR b = snap(A); int op = (int)g.raw(8);
	static const char* nm[] = { "evClamp", "evMulCAddC_ip", "evMulCAddC_ip_nb", "evMulC_ip", "evMulC_ip_nb", "evAddC_ip", "evAddC_ip_nb", "evMulC_ip_ptr" };
	g.say(nm[op], hb ? "bias" : "", bir ? "row" : ""); g.label(nm[op]);
	if ((op == 1 || op == 3 || op == 5) && hb) { // the all-elements version on a biased matrix must be told to ignore them
		switch (op) { case 1: x.m.evMulCAddC_ip(A, R(c1), R(c2), true); break; case 3: x.m.evMulC_ip(A, R(c1), true); break; default: x.m.evAddC_ip(A, R(c1), true); }
		check_ew(A, b, [&](numel_cnt_t i, double v) { if (is_bias(A, i)) return v; return op == 1 ? v * c1 + c2 : op == 3 ? v * c1 : v + c1; }, nm[op], 8, 8);
	} else switch (op) {
	case 0: { if (bir) { M Q(x.r, x.c); fill(Q, f); b = snap(Q); double lo = std::min(c1, c2), hi = std::max(c1, c2) + .25; x.m.evClamp(Q, R(lo), R(hi)); check_ew(Q, b, [&](numel_cnt_t i, double v) { return std::min<double>(R(hi), std::max<double>(R(lo), v)); }, nm[0], 0); break; }
		double lo = std::min(c1, c2), hi = std::max(c1, c2) + .25; x.m.evClamp(A, R(lo), R(hi)); check_ew(A, b, [&](numel_cnt_t i, double v) { return std::min<double>(R(hi), std::max<double>(R(lo), v)); }, nm[0], 0); break; }
	case 1: x.m.evMulCAddC_ip(A, R(c1), R(c2)); check_ew(A, b, [&](numel_cnt_t i, double v) { return v * c1 + c2; }, nm[op], 8, 8); break;
	case 2: x.m.evMulCAddC_ip_nb(A, R(c1), R(c2)); check_ew(A, b, [&](numel_cnt_t i, double v) { return is_bias(A, i) ? v : v * c1 + c2; }, nm[op], 8, 8); break;
	case 3: x.m.evMulC_ip(A, R(c1)); check_ew(A, b, [&](numel_cnt_t i, double v) { return v * c1; }, nm[op]); break;
	case 4: x.m.evMulC_ip_nb(A, R(c1)); check_ew(A, b, [&](numel_cnt_t i, double v) { return is_bias(A, i) ? v : v * c1; }, nm[op]); break;
	case 5: x.m.evAddC_ip(A, R(c1)); check_ew(A, b, [&](numel_cnt_t i, double v) { return v + c1; }, nm[op], 8, 8); break;
	case 6: x.m.evAddC_ip_nb(A, R(c1)); check_ew(A, b, [&](numel_cnt_t i, double v) { return is_bias(A, i) ? v : v + c1; }, nm[op], 8, 8); break;
	case 7: x.m.evMulC_ip(A.data(), A.numel_no_bias(), R(c1)); { const auto n = A.numel_no_bias(); check_ew(A, b, [&](numel_cnt_t i, double v) { return i < n ? v * c1 : v; }, nm[op]); } break;
	}
	fin(x);
}
VP_TESTM(binary_ip, 4, 400) {
	auto x = start(g); auto f = gen_fill(g, -2, 2), f2 = gen_fill(g, -2, 2);
	M A(x.r, x.c), B(x.r, x.c); fill(A, f); fill(B, f2); VR b = snap(A), bb = snap(B); double c = R(rs(g)); bool chkB = true;
	static const char* nm[] = { "evMul_ip", "evAdd_ip", "evAddScaled_ip", "evNZAddScaled_ip", "evAddScaledSign_ip", "evNZAddScaledSign_ip", "evSign", "evSub_ip", "evSub", "evSquare", "evAbs", "vAdd_ip", "apply_momentum", "evMulC_ip_Sub_ip", "evOneCompl", "evSubMtxMulC_ip_nb" };
	int op = (int)g.raw(16); g.say(nm[op]); g.label(nm[op]);
	auto at = [&](numel_cnt_t i) { return double(bb[i]); };
	switch (op) {
	case 0: x.m.evMul_ip(A, B); check_ew(A, b, [&](numel_cnt_t i, double v) { return v * at(i); }, nm[op]); break;
	case 1: x.m.evAdd_ip(A, B); check_ew(A, b, [&](numel_cnt_t i, double v) { return v + at(i); }, nm[op], 4, 4); break;
	case 2: x.m.evAddScaled_ip(A, R(c), B); check_ew(A, b, [&](numel_cnt_t i, double v) { return v + c * at(i); }, nm[op], 4, 8); break;
	case 3: x.m.evNZAddScaled_ip(A, R(c), B); check_ew(A, b, [&](numel_cnt_t i, double v) { return v == 0 ? 0. : v + c * at(i); }, nm[op], 4, 8); break;
	case 4: x.m.evAddScaledSign_ip(A, R(c), B); check_ew(A, b, [&](numel_cnt_t i, double v) { return v + c * sgn(at(i)); }, nm[op], 4, 4); break;
	case 5: x.m.evNZAddScaledSign_ip(A, R(c), B); check_ew(A, b, [&](numel_cnt_t i, double v) { return v == 0 ? 0. : v + c * sgn(at(i)); }, nm[op], 4, 4); break;
	case 6: x.m.evSign(A, B); check_ew(A, b, [&](numel_cnt_t i, double v) { return sgn(at(i)); }, nm[op], 0); break;
	case 7: x.m.evSub_ip(A, B); check_ew(A, b, [&](numel_cnt_t i, double v) { return v - at(i); }, nm[op], 4, 4); break;
	case 8: { M C(x.r, x.c); x.m.evSub(A, B, C); same_bits(b, A, "evSub A"); check_ew(C, b, [&](numel_cnt_t i, double v) { return v - at(i); }, nm[op], 4, 4); break; }
	case 9: x.m.evSquare(A, B); check_ew(A, b, [&](numel_cnt_t i, double v) { return at(i) * at(i); }, nm[op]); break;
	case 10: x.m.evAbs(A, B); check_ew(A, b, [&](numel_cnt_t i, double v) { return std::fabs(at(i)); }, nm[op], 0); break;
	case 11: x.m.vAdd_ip(A.data(), B.data(), A.numel()); check_ew(A, b, [&](numel_cnt_t i, double v) { return v + at(i); }, nm[op], 4, 4); break;
	case 12: { double mo = R(g.real(0.05, .99)); x.m.apply_momentum(A, R(mo), B); check_ew(A, b, [&](numel_cnt_t i, double v) { return mo * v + at(i); }, nm[op], 8, 4); break; }
	case 13: { double mo = R(g.real(0.05, .99)); x.m.evMulC_ip_Sub_ip(A, R(mo), B); chkB = false;	// A is vW, B is W
		check_ew(A, b, [&](numel_cnt_t i, double v) { return mo * v; }, "evMulC_ip_Sub_ip vW"); check_ew(B, bb, [&](numel_cnt_t i, double v) { return v - mo * double(b[i]); }, "evMulC_ip_Sub_ip W", 8, 4); break; }
	case 14: { for (numel_cnt_t i = 0; i < A.numel(); i++) A.data()[i] = R(std::fabs(double(b[i])) / 2.); b = snap(A); x.m.evOneCompl(A, B); chkB = false; same_bits(b, A, "evOneCompl gate"); check_ew(B, bb, [&](numel_cnt_t i, double) { return 1 - double(b[i]); }, nm[op], 4, 1); break; }
	case 15: { bool hb = g.b(); M Q(x.r, x.c, hb), W(x.r, x.c); fill(Q, f); fill(W, f); VR q = snap(Q), w = snap(W); x.m.evSubMtxMulC_ip_nb(Q, W, R(c)); same_bits(w, W, "evSubMtxMulC_ip_nb M");
		check_ew(Q, q, [&](numel_cnt_t i, double v) { return is_bias(Q, i) ? v : (v - double(w[i])) * c; }, nm[op], 8, 8); break; }
	}
	if (chkB) same_bits(bb, B, nm[op]);
	fin(x);
}
VP_TESTM(biased_pairs, 2, 200) { // kernels that combine a biased activation matrix with an unbiased one
	auto x = start(g); auto f = gen_fill(g, -2, 2);
	bool hb = g.b(2, 3); M A(x.r, x.c, hb), B(x.r, x.c); fill(A, f); fill(B, f); VR b = snap(A), bb = snap(B);
	int op = (int)g.raw(2);
	if (op == 0) { g.label("evMul_ip_Anb"); x.m.evMul_ip_Anb(A, B); check_ew(A, b, [&](numel_cnt_t i, double v) { return is_bias(A, i) ? v : v * double(bb[i]); }, "evMul_ip_Anb"); }
	else { g.label("evAdd_Anb_ip"); x.m.evAdd_Anb_ip(A, B); check_ew(A, b, [&](numel_cnt_t i, double v) { return is_bias(A, i) ? v : v + double(bb[i]); }, "evAdd_Anb_ip", 4, 4); }
	same_bits(bb, B, "rhs"); fin(x);
}
VP_TESTM(binarize, 2, 200) {
	auto x = start(g); auto f = gen_fill(g, 0, 1); double fr = R(g.pick({ .5, .25, .75, .1 })); int op = (int)g.raw(3);
	if (op == 0) {
		M A(x.r, x.c); fill(A, f); VR b = snap(A); double lo = R(g.val(-1, 0)), hi = R(g.val(0.5, 2)); g.label("ewBinarize_ip"); if (g.b()) { lo = 0; hi = 1; x.m.ewBinarize_ip(A, R(fr)); } else x.m.ewBinarize_ip(A, R(fr), R(lo), R(hi));
		check_ew(A, b, [&](numel_cnt_t, double v) { return v > fr ? hi : lo; }, "ewBinarize_ip", 0);
	} else if (op == 1) {
		M A(x.r, x.c); fill(A, f); VR b = snap(A); math::smatrix<char> D(x.r, x.c); g.label("ewBinarize"); x.m.ewBinarize(D, A, R(fr)); same_bits(b, A, "src");
		for (numel_cnt_t i = 0; i < A.numel(); i++) VP_REQ(int(D.data()[i]) == (double(b[i]) > fr ? 1 : 0), "elem ", i);
	} else {
		vec_len_t big = x.r + (vec_len_t)g.sz(0, 20), ofs = (vec_len_t)g.raw(uint64_t(big - x.r) + 1); bool sb = g.b(1, 3);
		M A(x.r, x.c, sb); fill(A, f); VR b = snap(A); math::smatrix<char> D(big, x.c); for (numel_cnt_t i = 0; i < D.numel(); i++) D.data()[i] = 7; g.label("ewBinarizeBatch");
		x.m.ewBinarizeBatch(D, ofs, A, R(fr)); same_bits(b, A, "src");
		for (vec_len_t c = 0; c < x.c; c++) for (vec_len_t r = 0; r < big; r++) { int v = D.get(r, c); int e = (r >= ofs && r < ofs + x.r) ? (double(b[(size_t)c * x.r + (r - ofs)]) > fr ? 1 : 0) : 7; VP_REQ(v == e, "batch binarize r ", r, " c ", c, " ofs ", ofs, " got ", v, " exp ", e); }
	}
	fin(x);
}
VP_TESTM(dropout_kernels, 3, 300) {
	auto x = start(g); double p = R(g.pick({ .5, .8, .1, .95, .3 })); auto f = gen_fill(g, -2, 2), u = gen_fill(g, 0, .999999, 0); bool hb = g.b(3, 4);
	M A(x.r, x.c, hb), Mk(x.r, x.c); fill(A, f); fill(Mk, u); 
	if (g.b(1, 3)) for (numel_cnt_t i = 0; i < Mk.numel(); i += 3) Mk.data()[i] = R(p); // exactly at the boundary: dropped
	VR a = snap(A), mk = snap(Mk); int op = (int)g.raw(3);
	if (op == 0) { g.label("make_dropout"); x.m.make_dropout(A, R(p), Mk);
		check_ew(Mk, mk, [&](numel_cnt_t, double v) { return v < p ? 1 / p : 0; }, "dropout mask", 4);
		check_ew(A, a, [&](numel_cnt_t i, double v) { return is_bias(A, i) ? v : double(mk[i]) < p ? v / p : 0; }, "dropout act", 8);
	} else if (op == 1) { g.label("apply_dropout_mask"); M Q(x.r, x.c); fill(Q, f); VR q = snap(Q); x.m.apply_dropout_mask(Q, R(p), Mk); same_bits(mk, Mk, "mask");
		check_ew(Q, q, [&](numel_cnt_t i, double v) { return double(mk[i]) < p ? v : 0; }, "apply_dropout_mask", 0);
	} else { g.label("make_alphaDropout"); double ka = R(g.val(.25, 2)), kb = R(g.val(-1, 1)), dv = R(g.val(-2, 2)); x.m.make_alphaDropout(A, R(p), R(ka), R(kb), R(dv), Mk);
		check_ew(Mk, mk, [&](numel_cnt_t, double v) { return v < p ? ka : 0; }, "alpha mask", 0);
		check_ew(A, a, [&](numel_cnt_t i, double v) { return is_bias(A, i) ? v : double(mk[i]) < p ? v * ka + kb : dv; }, "alpha act", 8, 4); }
	fin(x);
}
VP_TESTM(transpose, 2, 200) {
	auto x = start(g); auto f = gen_fill(g, -2, 2); int op = (int)g.raw(3);
	auto at = [](const M& m, vec_len_t r, vec_len_t c) { return m.data()[(size_t)c * m.rows() + r]; };
	if (op == 0) { M A(x.r, x.c), B(x.c, x.r, false, true); fill(A, f); VR a = snap(A); g.label("mTranspose"); x.m.mTranspose(A, B); same_bits(a, A, "src"); for (vec_len_t r = 0; r < x.r; r++) for (vec_len_t c = 0; c < x.c; c++) VP_REQ(at(B, c, r) == at(A, r, c), "transpose ", r, ",", c); }
	else if (op == 1) { // both have biases: source batch-in-column (last column), destination batch-in-row (last row), or vice versa
		bool s_bir = g.b(); vec_len_t n = x.r, k = x.c; // n samples, k neurons
		M A = s_bir ? M(k, n, true, true) : M(n, k, true, false), B = s_bir ? M(n, k, true, false) : M(k, n, true, true); fill(A, f); VR a = snap(A), b = snap(B); g.label("mTranspose_ignore_bias");
		x.m.mTranspose_ignore_bias(A, B); same_bits(a, A, "src");
		for (vec_len_t i = 0; i < n; i++) for (vec_len_t j = 0; j < k; j++) VP_REQ((s_bir ? at(A, j, i) : at(A, i, j)) == (s_bir ? at(B, i, j) : at(B, j, i)), "transpose nb ", i, ",", j);
		for (numel_cnt_t i = 0; i < B.numel(); i++) if (is_bias(B, i)) VP_REQ(B.data()[i] == R(1), "bias of the destination changed");
	} else { MD A(x.r, x.c); fill(A, f); VR a = snap(A); g.label("s_mTranspose_ip"); Math::s_mTranspose_ip(A); VP_REQ(A.rows() == x.c && A.cols() == x.r, "size"); for (vec_len_t r = 0; r < x.r; r++) for (vec_len_t c = 0; c < x.c; c++) VP_REQ(at(A, c, r) == a[(size_t)c * x.r + r], "ip transpose ", r, ",", c); }
	fin(x);
}
VP_TESTM(ilr, 2, 200) {
	auto x = start(g); auto f = gen_fill(g, -1, 1), fg = gen_fill(g, .1, 5, 0); double dec = R(g.val(.5, .95)), inc = R(g.val(1.01, 1.3)), lo = R(g.val(.05, .5)), hi = R(g.val(2, 8));
	M W(x.r, x.c), P(x.r, x.c), G(x.r, x.c); fill(W, f); fill(P, f); fill(G, fg); if (g.b(1, 3)) for (numel_cnt_t i = 0; i < G.numel(); i += 2) G.data()[i] = R(i % 4 ? lo : hi);
	VR w = snap(W), p = snap(P), gg = snap(G); x.m.apply_ILR(W, P, G, R(dec), R(inc), R(lo), R(hi)); same_bits(p, P, "prev");
	auto gain = [&](numel_cnt_t i) { double s = double(w[i]) * double(p[i]), q = gg[i]; return s > 0 ? (q < hi ? q * inc : q) : s < 0 ? (q > lo ? q * dec : q) : q; };
	for (numel_cnt_t i = 0; i < G.numel(); i++) { R pr = w[i] * p[i]; if (pr == 0 && w[i] != 0 && p[i] != 0) continue; CLOSE(G.data()[i], gain(i), 0, 8, "ILR gain ", i, " w ", w[i], " prev ", p[i], " gain ", gg[i]); CLOSE(W.data()[i], double(w[i]) * gain(i), 0, 16, "ILR dLdW ", i); }
	fin(x);
}
