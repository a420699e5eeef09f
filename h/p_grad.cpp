// P09: the weight update made by back-propagation is the derivative of the training objective, for every architecture.
#include "net.h"
namespace {
// hasLossAddendum() is truthful: a layer that denies having an addendum adds nothing, a pack has one exactly if some of its layers has
struct HasLA { std::string& bad; bool& any;
	template<class L> void sub(L& l, bool has, std::true_type) const { bool c = false; l.for_each_packed_layer(HasLA{ bad, c }); if (c && !has) bad = "pack " + l.get_layer_name_str() + " denies the loss addendum of its layers"; }
	template<class L> void sub(L&, bool, std::false_type) const {}
	template<class L> void operator()(L& l) const { typedef std::decay_t<L> T; const bool has = l.hasLossAddendum(); any |= has; const auto a = l.lossAddendum(); if (!has && a != 0) bad = l.get_layer_name_str() + " denies having a loss addendum but adds " + std::to_string((double)a); sub(l, has, std::integral_constant<bool, is_layer_pack<T>::value>()); } };
struct Step { int bs; };
}
#define VP_NAME2(a) "gradient.arch" #a
#define VP_NAME1(a) VP_NAME2(a)
static void t_grad(vp::Gen& g) {
	gen_math(g);
	arch_body(g, [&](auto& lp, Arch& A) {
		auto nn = make_nnet(lp);
		int maxbs = gsz(g, 1, 9), steps = gsz(g, 1, 3); double ws = g.pick({ .5, 1., 1.5 });
		g.label(A.name); g.say(A.name, "in", A.nin, "out", A.nout, "maxbs", maxbs, "steps", steps);
		auto ec = nn.___init((vec_len_t)std::max(maxbs, gsz(g, 1, 12)), (vec_len_t)maxbs, false); VP_REQ((int)ec == 0, "network initialisation failed: ", nn.get_last_error_string());
		auto Ls = learnables(lp); VP_REQ(!Ls.empty(), "no learnable layers"); rnd_weights(Ls, g.seed(), ws); VR fz; if (A.frozen) fz = A.frozen();
		int nchecked = 0, nkink = 0;
		for (int st = 0; st < steps; st++) {
			int bs = st == 0 && g.b() ? maxbs : gsz(g, 1, maxbs); MD X((vec_len_t)bs, (vec_len_t)A.nin, true), Y((vec_len_t)bs, (vec_len_t)A.nout); gen_xy(A, X, Y, g.seed()); VR x0 = snap(X), y0 = snap(Y);
			if (g.b(1, 4)) { // an evaluation pass in between must not disturb training
				int eb = gsz(g, 1, maxbs); MD EX((vec_len_t)eb, (vec_len_t)A.nin, true), EY((vec_len_t)eb, (vec_len_t)A.nout); gen_xy(A, EX, EY, g.seed()); nn.___get_common_data().set_mode_and_batch_size(false, (vec_len_t)eb); lp.on_batch_size_change((vec_len_t)eb); lp.fprop(EX); g.label("evaluation between steps"); }
			nn.___get_common_data().set_mode_and_batch_size(true, (vec_len_t)bs); lp.on_batch_size_change((vec_len_t)bs);
			uint64_t rs = g.seed();
			auto addendum = [&] { lp.resetCalcLossAddendum(); LD add = lp.calcLossAddendum(), ea = 0; for (auto& l : Ls) ea += l.pen(nullptr); if (A.actpen) ea += A.actpen(); if (!(fabsl(add - ea) <= 1e-9L * (1 + fabsl(ea)))) vp::fail(A.name, ": loss addendum ", (double)add, " expected ", (double)ea); { bool any = false, want = A.actpen != nullptr; for (auto& l : Ls) if (l.pen(nullptr) != 0) want = true; std::string bad; lp.for_each_layer_exc_input(HasLA{ bad, any }); if (!bad.empty()) vp::fail(A.name, ": ", bad); if (want && ea != 0 && !any) vp::fail(A.name, ": no layer tells that it adds to the loss, though ", (double)ea, " is added"); }; };
			const bool inf_add = A.stoch && A.actpen;
			if (inf_add && g.b()) { nn.___get_common_data().set_mode_and_batch_size(false, (vec_len_t)bs); lp.on_batch_size_change((vec_len_t)bs); lp.fprop(X); addendum(); nn.___get_common_data().set_mode_and_batch_size(true, (vec_len_t)bs); lp.on_batch_size_change((vec_len_t)bs); }
			auto fprop = [&] { nn.get_iRng().seed64((int64_t)rs); lp.fprop(X); };
			auto objective = [&]() -> LD { fprop(); LD d = lp.output_layer().calc_loss(Y); if (A.actpen) d += A.actpen(); return d; };
			fprop(); LD base = lp.output_layer().calc_loss(Y), noise = 1e-15L; // rounding noise of the loss (cancellation in a saturated output)
			{ Mx out = to_mx(lp.output_layer().get_activations()), y = to_mx(Y); LD e = 0, mg = 0; for (size_t i = 0; i < y.v.size(); i++) { LD q = A.loss(out.v[i], y.v[i]); noise += 4e-16L * (1 + fabsl(q) + (A.tgt == 1 ? 1 / std::max(1e-16L, std::min(fabsl(out.v[i]), fabsl(1 - out.v[i]))) : 0)); if (A.tgt == 3 && y.v[i] > 0 && !(out.v[i] > 1e-300L)) noise = 1; /* the loss is cut off there */ e += q; mg += fabsl(q) + 1; } if (fabsl(e - base) > 1e-9L * mg && std::isfinite((double)e)) vp::fail("reported loss ", (double)base, " expected ", (double)e); 
				addendum(); }
			auto w0 = save_w(Ls); fprop(); std::vector<int> lbs; for (auto& l : Ls) lbs.push_back(l.bs()); lp.bprop(Y); auto w1 = save_w(Ls);
			same_bits(x0, X, "training inputs changed by fprop/bprop"); same_bits(y0, Y, "training targets changed by fprop/bprop");
			load_w(Ls, w0); LD b2 = objective(); (void)b2;
			// check a generated subset of weights of every layer
			vp::Rnd pr(g.seed());
			for (size_t k = 0; k < Ls.size(); k++) {
				auto& l = Ls[k]; std::vector<LD> pd; l.pen(&pd); int cnt = (int)std::min<numel_cnt_t>(l.n, 6); double lr = l.lr();
				for (int q = 0; q < cnt; q++) {
					numel_cnt_t i = cnt == l.n ? q : (numel_cnt_t)pr.below((uint64_t)l.n); if (q == 0 && l.rows > 0) i = l.n - 1 - (numel_cnt_t)pr.below((uint64_t)l.rows); // always one bias weight
					const R w = w0[k][i]; const double h = 1e-6; 
					l.w[i] = R(w + h); LD fp = objective(); l.w[i] = R(w - h); LD fm = objective(); l.w[i] = R(w + h / 2); LD fp2 = objective(); l.w[i] = R(w - h / 2); LD fm2 = objective(); l.w[i] = w; LD f0 = b2;
					LD d1 = (fp - fm) / (2 * h), d2 = (fp2 - fm2) / h, dr = (fp - f0) / h, dl = (f0 - fm) / h; LD sc = 1 + fabsl(d1) + fabsl(d2);
					if (!std::isfinite((double)d1) || noise / h > 1e-3L || fabsl(dr - dl) > 1e-3L * sc || fabsl(d1 - d2) > 1e-5L * sc * (1 + fabsl(f0))) { nkink++; continue; } // not differentiable here
					LD e = LD(lr) * (d2 / LD(lbs[k]) + pd[i]), got = LD(w0[k][i]) - LD(w1[k][i]); nchecked++;
					LD tol = LD(lr) * (8e-6L * sc * (1 + fabsl(f0) * 1e-2L) + fabsl(dr - dl) + 2 * noise / h) + 1e-12L;
					if (!(fabsl(got - e) <= tol)) vp::fail(A.name, ": layer ", l.name, " weight (", i % l.rows, ",", i / l.rows, ") of ", l.rows, "x", l.cols, " moved by ", (double)got, " but lr*dLoss/dw = ", (double)e, " (lr ", lr, ", batch ", bs, ", layer batch ", lbs[k], ", step ", st, ")");
				}
			}
			if (A.frozen) VP_REQ(A.frozen() == fz, A.name, ": weights of a forward-only layer changed");
			// continue training from the updated weights
			load_w(Ls, w1);
			for (auto& l : Ls) for (numel_cnt_t i = 0; i < l.n; i++) if (!(std::fabs(double(l.w[i])) < 20)) { rnd_weights(Ls, 7, ws); goto nxt; }
		nxt:;
		}
		g.nontrivial(nchecked >= 4 && nchecked > nkink);
		g.labelif(nkink > 0, "kinks skipped");
		if (nchecked == 0) g.label("nothing checked");
	});
}
static vp::Reg reg_grad(VP_NAME1(VP_ARCH), 1, 60, t_grad, 60, false);
