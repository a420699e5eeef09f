// P14 (continued): data-driven weight normalisation (LSUVExt) brings every requested layer to the requested statistics.
#include "net.h"
#include "nntl/weights_init/LsuvExt.h"
#define VP_NAME2(a) "lsuv.arch" #a VP_SUF
#define VP_NAME1(a) VP_NAME2(a)
namespace {
struct LsL { int idx; std::string name; std::function<Mx()> act; std::function<void(bool)> ign; std::function<R*()> w; vec_len_t rows, cols; };
struct CollectLs { std::vector<LsL>& v;
	template<class L> std::enable_if_t<nntl::layer_has_gradworks<L>::value> operator()(L& l) const { typedef std::decay_t<L> T; T* p = const_cast<T*>(&l); LsL r; r.idx = (int)p->get_layer_idx(); r.name = p->get_layer_name_str(); int n = (int)p->get_neurons_cnt(); r.act = [p, n] { const auto& m = p->get_activations(); Mx x((int)m.rows(), n); for (int i = 0; i < (int)m.rows(); i++) for (int j = 0; j < n; j++) x.at(i, j) = m.get((vec_len_t)i, (vec_len_t)j); return x; }; r.ign = [p](bool b) { p->setIgnoreActivation(b); }; r.w = [p] { return const_cast<R*>(p->get_weights().data()); }; r.rows = p->get_weights().rows(); r.cols = p->get_weights().cols(); v.push_back(r); }
	template<class L> std::enable_if_t<!nntl::layer_has_gradworks<L>::value> operator()(L&) const {} };
struct LStat { LD m, sd; };
static LStat lstat(const std::vector<Mx>& b, int col) { LD s = 0, q = 0; long n = 0; for (auto& x : b) for (int i = 0; i < x.n; i++) for (int j = 0; j < x.c; j++) if (col < 0 || j == col) { s += x.at(i, j); n++; } LD m = s / n; for (auto& x : b) for (int i = 0; i < x.n; i++) for (int j = 0; j < x.c; j++) if (col < 0 || j == col) q += (x.at(i, j) - m) * (x.at(i, j) - m); return { m, sqrtl(q / (n - 1)) }; }
}
static void t_lsuv(vp::Gen& g) {
	gen_math(g);
	arch_body(g, [&](auto& lp, Arch& A) {
		auto nn = make_nnet(lp); int n = gsz(g, 6, g.b(1, 3) ? 40 : 16); inmem_train_data<R> td; MD X, Y, vx, vy; X.will_emulate_biases(); vx.will_emulate_biases(); (void)X.resize(n, A.nin); (void)Y.resize(n, A.nout); (void)vx.resize(3, A.nin); (void)vy.resize(3, A.nout); gen_xy(A, X, Y, g.seed()); gen_xy(A, vx, vy, 5);
		MD X0; X0.will_emulate_biases(); (void)X0.resize(n, A.nin); std::copy(X.data(), X.data() + X.numel(), X0.data()); VP_REQ(td.absorb(std::move(X), std::move(Y), std::move(vx), std::move(vy)), "absorb");
		int pre = (int)g.raw(3); int i0 = pre == 0 ? 1 : pre == 1 ? n : gsz(g, 1, n); VP_REQ((int)nn.___init((vec_len_t)i0, (vec_len_t)(g.b() ? 0 : i0), false) == 0, "init"); auto Ls = learnables(lp); rnd_weights(Ls, g.seed(), g.pick({ 1., .3, 2. })); auto W0 = save_w(Ls); std::vector<LsL> V; lp.for_each_layer_exc_input(CollectLs{ V }); VP_REQ(V.size() == Ls.size(), "layers");
		typedef weights_init::procedural::LSUVExt<std::decay_t<decltype(nn)>, inmem_train_data<R>> LSUV; typedef typename LSUV::LayerSetts_t S; 
		auto gs = [&] { S s; s.targetScale = R(g.pick({ 1., .5, 2. })); s.targetCentral = R(g.pick({ 0., 0., .5, -1. })); double t = g.pick({ .01, .001 }); if (sizeof(R) == 8 && g.b(1, 3)) t = 1e-6; s.ScaleTolerance = R(t); s.CentralTolerance = R(t); s.bOverPreActivations = g.b(2, 3); s.bOnInvidualNeurons = g.b(); s.bVerbose = g.b(1, 6); s.maxTries = 20; s.maxReinitTries = (unsigned)g.pick({ 1, 1, 3 }); s.bCentralNormalize = !g.b(1, 4); s.bScaleNormalize = !g.b(1, 4); if (g.b()) { s.batchSize = (vec_len_t)gsz(g, 3, n + 2); int nb = (n + (int)s.batchSize - 1) / (int)s.batchSize; if (g.b()) s.batchCount = (vec_len_t)gsz(g, 1, nb); } return s; };
		std::vector<S> st; S def = gs(); bool multi = g.b(); bool r; int failed = 0;
		{ LSUV ls(nn, td, g.b() ? def : gs()); ls.setts().set_default(def); VP_REQ(ls.setts().get_default().targetScale == def.targetScale, "default settings"); for (auto& l : V) { if (multi && g.b()) { S s = gs(); ls.setts().add((layer_index_t)l.idx, s); if (g.b(1, 6)) { s = gs(); ls.setts().add((layer_index_t)l.idx, s); } st.push_back(s); } else st.push_back(def); }
			// is the first layer certainly normalisable? (over pre-activations the dependence is affine and its input is the data)
			ls.m_bDeinitNnetOnDestroy = g.b(1, 3); bool de = ls.m_bDeinitNnetOnDestroy; r = ls.run(); failed = (int)ls.m_firstFailedLayerIdx; VP_REQ(r == (failed == 0), "run() returned ", r, " with failed layer ", failed); g.labelif(de, "deinit"); }
		{ vec_len_t z = 0; VP_REQ(!td.is_initialized4inference(z), "the data object is left initialised"); } for (int i = 0; i < n; i++) for (int j = 0; j < A.nin; j++) VP_REQ(td.X(0).get(i, j) == X0.get(i, j), "weight normalisation changed the data");
		g.label(A.name); g.label(r ? "converged" : "gave up"); g.say(A.name, "n", n, "layers", V.size(), multi ? "individual settings" : "", "tol", double(def.ScaleTolerance), def.bOverPreActivations ? "pre" : "post", def.bOnInvidualNeurons ? "neuron" : "layer", "batch", (int)def.batchSize, (int)def.batchCount);
		auto walk = [&](size_t q) { auto& s = st[q]; int bs = s.batchSize ? std::min((int)s.batchSize, n) : n, nb = (n + bs - 1) / bs; if (s.batchCount) nb = std::min(nb, (int)s.batchCount); VP_REQ((int)nn.init4fixedBatchFprop((vec_len_t)bs) == 0, "init"); std::vector<Mx> o; for (int b = 0; b < nb; b++) { int m = std::min(bs, n - b * bs); MD B((vec_len_t)m, A.nin, true); for (int i = 0; i < m; i++) for (int j = 0; j < A.nin; j++) B.set(i, j, X0.get(b * bs + i, j)); V[q].ign(s.bOverPreActivations); nn.doFixedBatchFprop(B); V[q].ign(false); o.push_back(V[q].act()); } return o; };
		int judged = 0; Ls = learnables(lp); if (!nn.is_initialized(1, 0)) { VP_REQ((int)nn.___init((vec_len_t)n, 0, false) == 0, "init"); Ls = learnables(lp); }
		const LD slack = sizeof(R) == 8 ? 1e-8L : 2e-3L, lim = sizeof(R) == 8 ? 1000 : 15; double wt = sizeof(R) == 8 ? 1e-9 : 1e-4;
		for (size_t q = 0; q < V.size(); q++) { auto& s = st[q]; auto& l = V[q]; R* w = l.w(); VR& o = W0[q]; int rows = (int)l.rows, cols = (int)l.cols; bool on = s.bScaleNormalize || s.bCentralNormalize;
			if (!on) { VP_REQ(std::equal(o.begin(), o.end(), w), A.name, ": weights of layer ", l.name, " changed although its normalisation is off"); g.label("layer skipped"); continue; }
			if (s.maxReinitTries == 1 && !s.bOnInvidualNeurons) { // only a common factor and a common shift of biases
				int k = 0; for (int i = 0; i < rows * (cols - 1); i++) if (std::fabs(o[i]) > std::fabs(o[k])) k = i; double c = double(w[k]) / double(o[k]); if (c > 1e-4 && c < 1e4) { if (!s.bScaleNormalize) VP_REQ(c == 1, A.name, ": scaling is off but weights of ", l.name, " were scaled by ", c); for (int i = 0; i < rows * (cols - 1); i++) VP_REQ(std::fabs(w[i] - c * o[i]) <= wt * std::fabs(c * o[k]), A.name, ": weights of ", l.name, " are not a common multiple of the original: ", w[i], " vs ", c, "*", o[i]);
				double d0 = w[rows * (cols - 1)] - c * o[rows * (cols - 1)]; if (!s.bCentralNormalize) VP_REQ(std::fabs(d0) <= wt * (std::fabs(c * o[k]) + std::fabs(w[rows * (cols - 1)])), A.name, ": bias of ", l.name, " shifted by ", d0, " although centring is off"); for (int i = 0; i < rows; i++) { double d = w[rows * (cols - 1) + i] - c * o[rows * (cols - 1) + i]; VP_REQ(std::fabs(d - d0) <= 100 * wt * (std::fabs(c) * 3 + std::fabs(d0)), A.name, ": biases of ", l.name, " shifted by different amounts ", d, " and ", d0); } } }
			else if (s.maxReinitTries == 1) for (int i = 0; i < rows; i++) { int k = 0; for (int j = 0; j < cols - 1; j++) if (std::fabs(o[i + j * rows]) > std::fabs(o[i + k * rows])) k = j; double c = double(w[i + k * rows]) / double(o[i + k * rows]); if (!(c > 1e-4 && c < 1e4)) continue; if (!s.bScaleNormalize) VP_REQ(c == 1, A.name, ": scaling is off but neuron ", i, " of ", l.name, " was scaled by ", c); for (int j = 0; j < cols - 1; j++) VP_REQ(std::fabs(w[i + j * rows] - c * o[i + j * rows]) <= wt * std::fabs(c * o[i + k * rows]), A.name, ": weights of neuron ", i, " of ", l.name, " are not a multiple of the original"); double d = w[i + (cols - 1) * rows] - c * o[i + (cols - 1) * rows]; if (!s.bCentralNormalize) VP_REQ(std::fabs(d) <= wt * (std::fabs(c) * 3), A.name, ": bias of neuron ", i, " of ", l.name, " shifted although centring is off"); }
			if (!r && l.idx == failed) { // gave up: excusable only when the layer is not an affine function of its weights here or the statistics are degenerate
				if (q == 0 && s.bOverPreActivations) { auto b = (load_w(Ls, W0), walk(0)); bool fine = true; for (int j = s.bOnInvidualNeurons ? 0 : -1; j < (s.bOnInvidualNeurons ? rows : 0); j++) { LStat z = lstat(b, j); if (!(z.sd > 1e-3L && fabsl(z.m) < lim / 5 * z.sd)) fine = false; } VP_REQ(!fine, A.name, ": normalisation of the pre-activations of the first layer gave up"); } break; }
			auto b = walk(q); int hi = s.bOnInvidualNeurons ? rows : 0; for (int j = s.bOnInvidualNeurons ? 0 : -1; j < hi; j++) { LStat z = lstat(b, j); if (!(fabsl(z.m) <= lim * z.sd) || z.sd < (sizeof(R) == 8 ? 1e-6L : 1e-3L)) { g.label("degenerate statistics"); continue; } judged++;
				if (s.bScaleNormalize) VP_REQ(fabsl(z.sd - s.targetScale) <= s.ScaleTolerance + slack, A.name, ": layer ", l.name, " neuron ", j, ": std of the ", s.bOverPreActivations ? "pre-" : "", "activations is ", (double)z.sd, " target ", s.targetScale, " +-", s.ScaleTolerance); if (s.bCentralNormalize) VP_REQ(fabsl(z.m - s.targetCentral) <= s.CentralTolerance + slack, A.name, ": layer ", l.name, " neuron ", j, ": mean of the ", s.bOverPreActivations ? "pre-" : "", "activations is ", (double)z.m, " target ", s.targetCentral, " +-", s.CentralTolerance); } }
		g.nontrivial(judged > 1);
	});
}
static vp::Reg reg_lsuv(VP_NAME1(VP_ARCH), 1, 40, t_lsuv, 60, false);
