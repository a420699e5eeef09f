// P10: inference computes the network function - for every architecture, batch size, history and API entry point.
#include "net.h"
#define VP_NAME2(a) "inference.arch" #a VP_SUF
#define VP_NAME1(a) VP_NAME2(a)
namespace {
template<class LP> static void check_out(vp::Gen& g, LP& lp, Arch& A, const MD& X, const char* how, int& chk) {
	const auto& o = lp.output_layer().get_activations(); VP_REQ((int)o.batch_size() == (int)X.batch_size() && (int)o.sample_size() == A.nout, how, ": output is ", o.batch_size(), "x", o.sample_size(), " for ", X.batch_size(), " samples");
	g_ambig = false; Mx got = to_mx(o), e = A.ref(to_mx_nb(X, A.nin)); if (g_ambig) { g.label("gate at threshold"); return; }
	for (int i = 0; i < e.n; i++) for (int j = 0; j < e.c; j++) if (!(fabsl(got.at(i, j) - e.at(i, j)) <= 2 * e.er(i, j) + 1e-30L)) vp::fail(A.name, ", ", how, ": output (", i, ",", j, ") of a batch of ", e.n, " is ", (double)got.at(i, j), " expected ", (double)e.at(i, j), " +-", (double)e.er(i, j));
	chk += e.n;
}
}
static void t_fwd(vp::Gen& g) {
	gen_math(g);
	arch_body(g, [&](auto& lp, Arch& A) {
		auto nn = make_nnet(lp); int chk = 0, maxf = 0, maxb = 0, fixed = 0; bool init = false; double ws = g.pick({ .5, 1., 1.5 }); std::vector<VR> W; VR FZ; std::vector<LRef> Ls;
		g.label(A.name); g.say(A.name, "in", A.nin, "out", A.nout);
		auto fresh = [&](bool first) { Ls = learnables(lp); VP_REQ(!Ls.empty(), "no learnable layers"); if (first) { rnd_weights(Ls, g.seed(), ws); W = save_w(Ls); } else { auto w = save_w(Ls); VP_REQ(w == W, A.name, ": weights changed by (re-)initialisation"); } };
		int ops = gsz(g, 2, 6);
		for (int k = 0; k < ops; k++) {
			int op = k == 0 ? gsz(g, 0, 2) : gsz(g, 0, 6);
			if (op == 6) { if (init) nn.deinit(); init = false; maxf = maxb = fixed = 0; g.label("deinit"); op = gsz(g, 0, 2); }
			if (op == 3 && fixed == 0) op = 1; if (op >= 4 && maxb == 0) op = 2;
			int n = gsz(g, 1, g.b(1, 4) ? 24 : 9);
			auto mk = [&](int m, MD& X) { (void)X.resize((vec_len_t)m, (vec_len_t)A.nin); MD Y((vec_len_t)m, (vec_len_t)A.nout); gen_xy(A, X, Y, g.seed()); };
			MD X; X.will_emulate_biases(); VR x0;
			if (op == 0) { // one-shot API: initialises for that batch when needed
				if (!init) { MD T; T.will_emulate_biases(); mk(1, T); VP_REQ((int)nn.fprop(T) == 0, nn.get_last_error_string()); init = true; maxf = 1; fresh(W.empty()); }
				mk(n, X); x0 = snap(X); bool re = n > maxf; auto ec = nn.fprop(X); VP_REQ((int)ec == 0, nn.get_last_error_string()); if (re) { maxf = n; maxb = 0; fresh(false); g.label("grown"); } fixed = 0; check_out(g, lp, A, X, "fprop()", chk); same_bits(x0, X, "fprop() changed its input");
				VR o1 = snap(lp.output_layer().get_activations()); VP_REQ((int)nn.fprop(X) == 0, ""); VR o2 = snap(lp.output_layer().get_activations()); VP_REQ(o1 == o2, A.name, ": repeated fprop() of the same data gives a different answer"); }
			else if (op == 1) { auto ec = nn.init4fixedBatchFprop((vec_len_t)n); VP_REQ((int)ec == 0, nn.get_last_error_string()); if (!init || n > maxf) { maxf = n; maxb = 0; } init = true; fresh(W.empty()); fixed = n; g.label("init4fixedBatchFprop"); 
				int m = g.b(2, 3) ? n : gsz(g, 1, n); mk(m, X); x0 = snap(X); nn.doFixedBatchFprop(X); check_out(g, lp, A, X, "doFixedBatchFprop()", chk); same_bits(x0, X, "doFixedBatchFprop() changed its input"); }
			else if (op == 2) { int b = gsz(g, 1, n); auto ec = nn.___init((vec_len_t)n, (vec_len_t)b, false); VP_REQ((int)ec == 0, nn.get_last_error_string()); if (!init || n > maxf || b > maxb) { maxf = n; maxb = b; } init = true; fixed = 0; fresh(W.empty()); g.label("training init");
				mk(gsz(g, 1, maxf), X); VP_REQ((int)nn.fprop(X) == 0, ""); check_out(g, lp, A, X, "fprop() of a network prepared for training", chk); }
			else if (op == 3) { int m = gsz(g, 1, fixed); mk(m, X); x0 = snap(X); nn.doFixedBatchFprop(X); check_out(g, lp, A, X, "doFixedBatchFprop()", chk); same_bits(x0, X, "doFixedBatchFprop() changed its input"); g.labelif(m < fixed, "short last batch"); }
			else { // a training step, then inference must follow the updated weights
				int b = gsz(g, 1, maxb); mk(b, X); MD Y((vec_len_t)b, (vec_len_t)A.nout); { MD X2((vec_len_t)b, (vec_len_t)A.nin, true); gen_xy(A, X2, Y, g.seed()); }
				nn.___get_common_data().set_mode_and_batch_size(true, (vec_len_t)b); lp.on_batch_size_change((vec_len_t)b); nn.get_iRng().seed64((int64_t)g.seed()); fixed = 0;
				x0 = snap(X); lp.fprop(X); if (!A.stoch) { check_out(g, lp, A, X, "training-mode forward pass", chk); g.label("training forward"); } same_bits(x0, X, "training-mode forward pass changed its input");
				if (op == 5) { lp.bprop(Y); bool big = false; for (auto& l : Ls) for (numel_cnt_t i = 0; i < l.n; i++) if (!(std::fabs(double(l.w[i])) < 8)) big = true; if (big) rnd_weights(Ls, 11, ws); W = save_w(Ls); g.label("after update"); }
				int m = gsz(g, 1, maxf); mk(m, X); VP_REQ((int)nn.fprop(X) == 0, ""); check_out(g, lp, A, X, "fprop() after a training pass", chk); }
			auto w = save_w(Ls); VP_REQ(w == W, A.name, ": inference changed the weights"); if (A.frozen) { VR z = A.frozen(); if (!FZ.empty()) VP_REQ(z == FZ, A.name, ": weights of a forward-only layer changed"); FZ = z; }
		}
		g.nontrivial(chk > 1);
	});
}
static vp::Reg reg_fwd(VP_NAME1(VP_ARCH), 1, 60, t_fwd, 60, false);
