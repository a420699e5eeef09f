// P22: dropout. Nets  input -> plain layer -> dropout layer or pack X -> dropout layer Y -> output  driven through histories of
// settings, training passes of changing batch sizes, backward passes, inference and re-initialisation; and whole train() runs seen
// through an inspector. Every activation after dropout must be the kept or the dropped image of the undropped one, the choices must
// be independent with the configured probability, and the backward pass must use the same choices.
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/interface/_i_inspector.h"
namespace {
struct DoLaw { bool alpha = false; long double a1 = 0, mu = 0, nu = 1; /* alpha prime, fixed point mean and variance */
	// kept -> k*x+b ; dropped -> d
	void coef(long double p, long double& k, long double& b, long double& d) const { if (!alpha) { k = 1 / p; b = d = 0; return; } k = sqrtl(nu / (p * ((1 - p) * (a1 - mu) * (a1 - mu) + nu))); b = mu - k * (p * mu + (1 - p) * a1); d = k * a1 + b; } };
struct Mask { int n = 0, c = 0; std::vector<signed char> s; /* 1 kept, 0 dropped, -1 cannot be told */ };
struct DoRec { // what the inspector saw in train(); it must not throw
	std::string bad; bool on = false; std::map<int, std::pair<DoLaw, long double>> law; VR pre; int rows = 0, cols = 0, cur = -1; std::vector<int> st; bool train = false; long seen = 0, n = 0, k = 0; std::map<long double, std::pair<long, long>> cnt; std::set<int> got; bool fresh = true; std::map<int, VR> last, acts; long cancels = 0; bool wild = false; /* training diverged: the values cannot be judged any more */
	template<class... A> void fail(A&&... a) { if (bad.empty()) { std::ostringstream o; (void)std::initializer_list<int>{ ((void)(o << a), 0)... }; bad = o.str(); } } };
static DoRec* DR = nullptr;
struct DoInsp : public inspector::_impl::_base<R> {
	void fprop_begin(const layer_index_t i, const M&, const bool tr)const noexcept { if (DR) { DR->st.push_back((int)i); DR->train = tr; } }
	void fprop_end(const M&)const noexcept { if (DR && !DR->st.empty()) { DR->cur = DR->st.back(); DR->st.pop_back(); } } // the dropout of an extended layer follows its end
	void fprop_preDropout(const M& a, const R p, const M&)const noexcept { if (!DR || !DR->on) return; auto& d = *DR; auto it = d.law.find(d.cur); if (!d.train) { d.fail("dropout of layer ", d.cur, " is applied during inference"); return; }
		if (it == d.law.end()) { d.fail("dropout in layer ", d.cur); return; } if ((long double)p != it->second.second) d.fail("layer ", d.cur, " drops with keeping probability ", double(p), ", configured is ", double(it->second.second)); d.pre = snap(a); d.rows = (int)a.rows(); d.cols = (int)a.cols(); }
	void fprop_postDropout(const M& a, const M&)const noexcept { if (!DR || !DR->on || !DR->bad.empty() || !DR->train) return; auto& d = *DR; auto& L = d.law[d.cur]; long double k, b, dv; L.first.coef(L.second, k, b, dv); if ((int)a.rows() != d.rows || (int)a.cols() != d.cols) { d.fail("dropout changed the size of the activations"); return; }
		long double eps = std::numeric_limits<R>::epsilon(); auto& c = d.cnt[L.second]; for (auto v : d.pre) if (!(std::fabs(double(v)) < 1e6)) d.wild = true; if (d.wild) { d.seen++; d.got.insert(d.cur); d.last[d.cur].clear(); return; }
		for (int j = 0; j < d.cols; j++) for (int i = 0; i < d.rows; i++) { long double x = d.pre[(size_t)j * d.rows + i], y = a.get(i, j); if (j + 1 == d.cols) { if (x != y) d.fail("dropout changed the bias column"); continue; } long double kv = k * x + b, t = 16 * eps * (fabsl(k * x) + fabsl(b) + fabsl(dv) + k * fabsl(L.first.a1)) + 1e-38L;
			bool isK = fabsl(y - kv) <= t, isD = fabsl(y - dv) <= t; if (!isK && !isD) { d.fail("layer ", d.cur, ": an activation of ", double(x), " becomes ", double(y), " neither kept (", double(kv), ") nor dropped (", double(dv), ") with keeping probability ", double(L.second)); return; } if (isK != isD) { c.first++; c.second += isK; } }
		d.seen++; d.got.insert(d.cur); d.last[d.cur] = snap(a); d.acts[d.cur] = d.pre; }
	void bprop_begin(const layer_index_t i, const M&)const noexcept { if (DR) DR->cur = (int)i; }
	void bprop_preCancelDropout(const M&, const M& a, const R p)const noexcept { if (!DR || !DR->on || !DR->bad.empty()) return; auto& d = *DR; auto it = d.last.find(d.cur); if (it == d.last.end()) { d.fail("the backward pass of layer ", d.cur, " cancels dropout that was not applied"); return; } if ((long double)p != d.law[d.cur].second) d.fail("backward pass of layer ", d.cur, " cancels dropout with keeping probability ", double(p)); if (!d.wild && it->second != snap(a)) d.fail("the backward pass of layer ", d.cur, " cancels dropout of activations that its forward pass did not produce"); d.cancels++; }
	void bprop_postCancelDropout(const M&, const M& a)const noexcept { if (!DR || !DR->on || !DR->bad.empty()) return; auto& d = *DR; if (!d.wild && d.acts[d.cur] != snap(a)) d.fail("the backward pass of layer ", d.cur, " does not see the activations before dropout"); }
};
}
#define VP_INSPECTOR DoInsp
#define VP_ARCH 0
#include "net.h"
namespace {
typedef LFC_DO<ASoft, NGW> YL; typedef LFC<ASoft, NGW> PL;
static LD kl(LD q, LD p) { LD s = 0; if (q > 0) s += q * logl(q / p); if (q < 1) s += (1 - q) * logl((1 - q) / (1 - p)); return s; }
static void binom(const char* what, long n, long k, LD p, const std::string& who) { if (n < 1) return; if (p <= 0 || p >= 1) { if (k != (p >= 1 ? n : 0)) vp::fail(who, ": ", what, ": ", k, " of ", n); return; } LD q = LD(k) / n; if (n * kl(q, p) > 32) vp::fail(who, ": ", what, ": ", k, " of ", n, ", expected share ", (double)p); }
static Mask judge(const DoLaw& L, LD p, const Mx& x, const Mx& y, const std::string& who) {
	Mask m; m.n = x.n; m.c = x.c; m.s.assign(x.v.size(), -1); VP_REQ(y.n == x.n && y.c == x.c, who, ": activations are ", y.n, "x", y.c, " instead of ", x.n, "x", x.c); LD k = 1, b = 0, d = 0; bool on = p < 1; if (on) L.coef(p, k, b, d);
	for (int j = 0; j < x.c; j++) for (int i = 0; i < x.n; i++) { LD kv = k * x.at(i, j) + b, v = y.at(i, j), t = 2 * k * x.er(i, j) + (on ? 16 * EPS * (fabsl(k * x.at(i, j)) + fabsl(b) + fabsl(d) + k * fabsl(L.a1)) : 0) + 1e-30L; bool K = fabsl(v - kv) <= t, D = on && fabsl(v - d) <= t;
		if (!K && !D) vp::fail(who, ": activation (", i, ",", j, ") of ", (double)x.at(i, j), " is ", (double)v, on ? " after dropout: neither kept (" : " although nothing is dropped (expected ", (double)kv, ") +-", (double)t, on ? " nor dropped " : " ", (double)d, ", keeping probability ", (double)p);
		if (!on) m.s[(size_t)j * x.n + i] = 1; else if (K != D) m.s[(size_t)j * x.n + i] = K; }
	return m; }
// independence over disjoint pairs of positions
static void agree(const Mask& a, const Mask& b, int di, int dj, LD pa, LD pb, const char* what, const std::string& who) { LD q = pa * pb + (1 - pa) * (1 - pb); if (pa >= 1 || pb >= 1) return; int n = std::min(a.n, b.n), c = std::min(a.c, b.c); long N = 0, K = 0;
	for (int j = 0; j + dj < c; j += 1 + dj) for (int i = 0; i + di < n; i += 1 + di) { int u = a.s[(size_t)j * a.n + i], v = b.s[(size_t)(j + dj) * b.n + i + di]; if (u < 0 || v < 0) continue; N++; K += u == v; } binom(what, N, K, q, who); }
struct Tot { std::map<LD, std::pair<long, long>> c; void add(LD p, const Mask& m, const std::string& who) { if (p >= 1) return; long n = 0, k = 0; for (auto v : m.s) if (v >= 0) { n++; k += v; } c[p].first += n; c[p].second += k; binom("activations kept", n, k, p, who);
	for (int j = 0; j < m.c; j++) { long n1 = 0, k1 = 0; for (int i = 0; i < m.n; i++) { int v = m.s[(size_t)j * m.n + i]; if (v >= 0) { n1++; k1 += v; } } binom("activations of one neuron kept", n1, k1, p, who); }
	for (int i = 0; i < m.n; i++) { long n1 = 0, k1 = 0; for (int j = 0; j < m.c; j++) { int v = m.s[(size_t)j * m.n + i]; if (v >= 0) { n1++; k1 += v; } } binom("activations of one sample kept", n1, k1, p, who); } }
	void end(const std::string& who) { for (auto& q : c) binom("activations kept in the whole history", q.second.first, q.second.second, q.first, who); } };
struct XD { DoLaw law; RF ref; std::function<LD(LD)> df; /* derivative by the activation value; empty: no closed-form backward check */ std::string name; };
template<class X> struct fc_of { static const void* w(X&) { return nullptr; } };
static LD dsoftsign(LD y) { return (1 - fabsl(y)) * (1 - fabsl(y)); }
static R gen_p(vp::Gen& g) { switch (g.raw(8)) { case 0: return R(1); case 1: return R(0); case 2: return R(g.real(.02, .98)); case 3: return R(g.pick({ .05, .1, .9, .95 })); default: return R(g.pick({ .5, .8, .3, .6 })); } }
template<class LP> static void set_all(LP& lp, R p) { lp.for_each_layer_exc_input(hlpr_layer_set_dropoutPercentActive<R>(p)); }
template<class T> static std::enable_if_t<nntl::layer_has_gradworks<T>::value, const M*> wof(T& l) { return &l.get_weights(); }
template<class T> static std::enable_if_t<!nntl::layer_has_gradworks<T>::value, const M*> wof(T&) { return nullptr; }

template<class T> static std::enable_if_t<nntl::layer_has_gradworks<T>::value, double> lrof(T& l) { return l.get_gradWorks().learning_rate(); }
template<class T> static std::enable_if_t<!nntl::layer_has_gradworks<T>::value, double> lrof(T&) { return 0; }
template<class P, class X, class Y, class O> static auto mkl(LIn& i, P& p, X& x, Y& y, O& o) { return make_layers(i, p, x, y, o); }
template<class X, class Y, class O> static auto mkl(LIn& i, LIn&, X& x, Y& y, O& o) { return make_layers(i, x, y, o); }
template<class Pre, class X> static void run(vp::Gen& g, LIn& inp, Pre& pre, X& x, const XD& xd, int nin, const std::vector<int>& gates) {
	Arch A; A.nin = nin; A.nout = gsz(g, 1, 3); A.gates = gates; bool big = g.b(1, 4);
	YL y(big ? gsz(g, 8, 40) : gsz(g, 1, 6), glr(g)); OIdQ o(A.nout, glr(g)); RF fy = r_fc(y, a_softsign()), fo = r_fc(o, a_id());
	auto lp = mkl(inp, pre, x, y, o); auto nn = make_nnet(lp); std::vector<LRef> Ls; std::vector<VR> W; double ws = g.pick({ .5, 1., .2 }); g.label(xd.name); g.labelif(big, "large");
	LD px = 1, py = 1; int maxB = 0, maxF = 0; bool init = false; Tot tx, ty; int judged = 0, passes = 0; Mask lx, ly; LD lpx = 1, lpy = 1; bool have = false; DoLaw plain;
	auto norm = [](R p) { return p <= 0 || p > 1 ? LD(1) : LD(p); };
	auto setp = [&] { R p = gen_p(g); switch (g.raw(3)) { case 0: x.dropoutPercentActive(p); px = norm(p); g.say("pX", double(p)); break; case 1: y.dropoutPercentActive(p); py = norm(p); g.say("pY", double(p)); break; default: set_all(lp, p); px = py = norm(p); g.say("p", double(p)); }
		VP_REQ(x.bDropout() == (px < 1) && y.bDropout() == (py < 1), xd.name, ": bDropout() is ", x.bDropout(), ", ", y.bDropout(), " with keeping probabilities ", (double)px, ", ", (double)py); VP_REQ(LD(const_cast<const X&>(x).dropoutPercentActive()) == px && LD(y.dropoutPercentActive()) == py, xd.name, ": dropoutPercentActive() differs from what was set"); };
	if (g.b()) setp(); if (g.b()) setp();
	int ops = gsz(g, 3, 12); int cur = 0; // cur: batch size of the current training mode
	for (int k = 0; k < ops; k++) {
		int op = !init ? 0 : gsz(g, 0, 9);
		if (op == 0) { if (init && g.b()) { nn.deinit(); g.label("deinit"); maxF = maxB = 0; } int n = big ? gsz(g, 8, 120) : gsz(g, 1, 12), b = g.b() ? n : gsz(g, 1, n); VP_REQ((int)nn.___init((vec_len_t)n, (vec_len_t)b, false) == 0, nn.get_last_error_string()); if (!init || n > maxF || b > maxB) { maxF = n; maxB = b; cur = 0; have = false; } init = true; nn.get_iRng().seed64(g.seed());
			Ls = learnables(lp); if (W.empty()) { rnd_weights(Ls, g.seed(), ws); W = save_w(Ls); } continue; }
		if (op == 1 || op == 2) { setp(); g.labelif(cur > 0 && cur < maxB, "changed in training mode with a smaller batch"); continue; }
		if (op == 3) { // inference: nothing is dropped
			int n = gsz(g, 1, maxF); MD Xm((vec_len_t)n, (vec_len_t)A.nin, true), Ym((vec_len_t)n, (vec_len_t)A.nout); gen_xy(A, Xm, Ym, g.seed()); VP_REQ((int)nn.fprop(Xm) == 0, nn.get_last_error_string()); cur = 0; g_ambig = false;
			judge(plain, 1, xd.ref(to_mx(pre.get_activations())), to_mx(x.get_activations()), xd.name + ", inference"); judge(plain, 1, fy(to_mx(x.get_activations())), to_mx(y.get_activations()), xd.name + ", next layer, inference"); judge(plain, 1, fo(to_mx(y.get_activations())), to_mx(o.get_activations()), xd.name + ", output, inference"); judged++; g.label("inference"); continue; }
		// a training step
		int b = cur && g.b(2, 3) ? cur : gsz(g, 1, maxB); MD Xm((vec_len_t)b, (vec_len_t)A.nin, true), Ym((vec_len_t)b, (vec_len_t)A.nout); gen_xy(A, Xm, Ym, g.seed());
		if (nn.___get_common_data().set_mode_and_batch_size(true, (vec_len_t)b)) lp.on_batch_size_change((vec_len_t)b); cur = b; if (g.b(1, 3)) nn.get_iRng().seed64((int64_t)g.seed());
		lp.fprop(Xm); Mx ap = to_mx(pre.get_activations()), ax = to_mx(x.get_activations()), ay = to_mx(y.get_activations()), ao = to_mx(o.get_activations()); Mx x0 = xd.ref(ap), y0 = fy(ax); std::string who = xd.name + ", training";
		if (ax.n != b) vp::fail(who, ": ", ax.n, " rows of activations for ", b, " samples");
		Mask mx = judge(xd.law, px, x0, ax, who), my = judge(plain, py, y0, ay, who + ", next layer"); judge(plain, 1, fo(ay), ao, who + ", output"); tx.add(px, mx, who); ty.add(py, my, who + ", next layer"); judged++; passes++;
		for (int i = 0; i < b; i++) if (x.get_activations().emulatesBiases() && x.get_activations().get((vec_len_t)i, x.get_activations().cols() - 1) != 1) vp::fail(who, ": dropout changed the bias of sample ", i);
		agree(mx, mx, 1, 0, px, px, "agreement of neighbouring samples", who); agree(mx, mx, 0, 1, px, px, "agreement of neighbouring neurons", who); agree(mx, my, 0, 0, px, py, "agreement of two layers", who); agree(my, my, 1, 0, py, py, "agreement of neighbouring samples", who + ", next layer");
		if (have && lx.n == mx.n) { agree(lx, mx, 0, 0, lpx, px, "agreement of two forward passes", who); agree(ly, my, 0, 0, lpy, py, "agreement of two forward passes", who + ", next layer"); } lx = mx; ly = my; lpx = px; lpy = py; have = true;
		if (op >= 6) { // backward: the same choices
			auto Wb = save_w(Ls); const M* pw = wof(x); Mx WX, WY = Mx((int)y.get_weights().rows(), (int)y.get_weights().cols()), WO((int)o.get_weights().rows(), (int)o.get_weights().cols()); auto cp = [](Mx& d, const M& s) { d = Mx((int)s.rows(), (int)s.cols()); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.c; j++) d.at(i, j) = s.get((vec_len_t)i, (vec_len_t)j); };
			cp(WY, y.get_weights()); cp(WO, o.get_weights()); if (pw) cp(WX, *pw);
			lp.bprop(Ym); LD kx = 1, ky = 1, t1, t2; if (px < 1) xd.law.coef(px, kx, t1, t2); if (py < 1) plain.coef(py, ky, t1, t2);
			auto upd = [&](const Mx& dZ, const Mx& ez, const Mx& in, const Mx& Wo, const M& Wn, double lr, const std::string& w) { LD tolk = sizeof(R) == 4 ? 2e-4L : 1e-11L; for (int r = 0; r < dZ.c; r++) for (int c = 0; c <= in.c; c++) { LD s = 0, m = 0; bool amb = false; for (int i = 0; i < b; i++) { if (ez.at(i, r) != 0) amb = true; LD v = c < in.c ? in.at(i, c) : 1; s += dZ.at(i, r) * v; m += fabsl(dZ.at(i, r) * v); } if (amb) continue; LD e = Wo.at(r, c) - lr * s / b; if (!(fabsl(LD(Wn.get((vec_len_t)r, (vec_len_t)c)) - e) <= tolk * (lr * m / b + fabsl(Wo.at(r, c))) + 1e-30L)) vp::fail(w, ": weight (", r, ",", c, ") becomes ", double(Wn.get((vec_len_t)r, (vec_len_t)c)), " expected ", (double)e, " from ", (double)Wo.at(r, c)); } };
			Mx dO(b, A.nout); for (int i = 0; i < b; i++) for (int j = 0; j < A.nout; j++) dO.at(i, j) = ao.at(i, j) - LD(Ym.get((vec_len_t)i, (vec_len_t)j));
			Mx eO(b, A.nout); upd(dO, eO, ay, WO, o.get_weights(), o.get_gradWorks().learning_rate(), who + ", output layer update");
			Mx dY(b, ay.c), eY(b, ay.c); for (int i = 0; i < b; i++) for (int j = 0; j < ay.c; j++) { LD s = 0; for (int q = 0; q < A.nout; q++) s += dO.at(i, q) * WO.at(q, j); int kp = my.s[(size_t)j * b + i]; dY.at(i, j) = kp == 1 ? s * ky * dsoftsign(y0.at(i, j)) : 0; eY.at(i, j) = kp < 0; }
			upd(dY, eY, ax, WY, y.get_weights(), y.get_gradWorks().learning_rate(), who + ", update of the next layer");
			if (pw && xd.df) { Mx dX(b, ax.c), eX(b, ax.c); for (int i = 0; i < b; i++) for (int j = 0; j < ax.c; j++) { LD s = 0; bool amb = false; for (int q = 0; q < ay.c; q++) { s += dY.at(i, q) * WY.at(q, j); if (eY.at(i, q) != 0) amb = true; } int kp = mx.s[(size_t)j * b + i]; LD d = xd.df(x0.at(i, j)); dX.at(i, j) = kp == 1 ? s * kx * d : 0; eX.at(i, j) = kp < 0 || amb || fabsl(x0.at(i, j)) < 1e-3L; }
				upd(dX, eX, ap, WX, *pw, lrof(x), who + ", update of the layer"); g.label("closed-form backward"); }
			bool wild = false; for (auto& l : Ls) for (numel_cnt_t i = 0; i < l.n; i++) if (!(std::fabs(double(l.w[i])) < 8)) wild = true; if (wild) rnd_weights(Ls, 11, ws); W = save_w(Ls); }
	}
	tx.end(xd.name); ty.end(xd.name + ", next layer"); g.nontrivial(passes > 1 && (tx.c.size() + ty.c.size()) > 0);
}
static DoLaw alpha_law(LD al = 0, LD la = 0, LD mu = 0, LD nu = 1) { DoLaw l; l.alpha = true; if (al == 0) al = 1.6732632423543772848170429916717L; if (la == 0) la = 1.0507009873554804934193349852946L; l.a1 = -al * la; l.mu = mu; l.nu = nu; return l; }
struct Base { LIn inp; PL pre; int nin, w; vp::Gen& g; Base(vp::Gen& g_, int nin_) : inp((neurons_count_t)nin_), pre((neurons_count_t)gsz(g_, 2, 6), glr(g_)), nin(nin_), w((int)pre.get_neurons_cnt()), g(g_) {} int nn() { return g.b(1, 4) ? gsz(g, 8, 40) : gsz(g, 1, 6); } };
typedef LFC_DO<ASelu, NGW> XAl; typedef activation::selu<R, 1200000000, 900000000, 100000, 1500000, WIn> ASeluC; typedef LFC_DO<ASeluC, NGW> XAlC; typedef LFC_DO<ASoft, NGW, AlphaDropout<R, 500000000, 2000000000, -250000, 640000>> XAlS; typedef LFC_DO<ASelu, NGW, Dropout<R>> XDs;
typedef LFC_PA_DO<std::tuple<loss_addendum::L2<R>>, ASoft, NGW> XPa;
static AF a_seluC(LD a, LD l) { return [=](LD z) { return z < 0 ? l * a * expm1l(z) : l * z; }; }
static std::function<LD(LD)> d_selu(LD a, LD l) { return [=](LD y) { return y < 0 ? y + l * a : l; }; }
static const LD SA = 1.6732632423543772848170429916717L, SL = 1.0507009873554804934193349852946L;
}
VP_TESTM(dropout_fc, 3, 40) { gen_math(g); Base B(g, gsz(g, 1, 5)); YL x((neurons_count_t)B.nn(), glr(g)); XD d; d.ref = r_fc(x, a_softsign()); d.df = dsoftsign; d.name = "dropout"; run(g, B.inp, B.pre, x, d, B.nin, {}); }
VP_TESTM(dropout_alpha, 3, 40) { gen_math(g); Base B(g, gsz(g, 1, 5)); int n = B.nn(); R lr = glr(g); XD d;
	switch (g.raw(4)) {
	case 0: { XAl x((neurons_count_t)n, lr); d.ref = r_fc(x, a_selu()); d.df = d_selu(SA, SL); d.law = alpha_law(); d.name = "alpha dropout"; run(g, B.inp, B.pre, x, d, B.nin, {}); break; }
	case 1: { XAlC x((neurons_count_t)n, lr); d.ref = r_fc(x, a_seluC(1.2L, .9L)); d.df = d_selu(1.2L, .9L); d.law = alpha_law(1.2L, .9L, .1L, 1.5L); d.name = "alpha dropout of a custom selu"; run(g, B.inp, B.pre, x, d, B.nin, {}); break; }
	case 2: { XAlS x((neurons_count_t)n, lr); d.ref = r_fc(x, a_softsign()); d.df = dsoftsign; d.law = alpha_law(.5L, 2, -.25L, .64L); d.name = "custom alpha dropout over softsign"; run(g, B.inp, B.pre, x, d, B.nin, {}); break; }
	default: { XDs x((neurons_count_t)n, lr); d.ref = r_fc(x, a_selu()); d.df = d_selu(SA, SL); d.name = "dropout over selu"; run(g, B.inp, B.pre, x, d, B.nin, {}); } } }
VP_TESTM(dropout_pack, 3, 40) { gen_math(g); XD d;
	if (g.b()) { Base B(g, gsz(g, 1, 5)); int n = B.w, s = gsz(g, 1, n), t = gsz(g, 0, s); if (t == n) t = n - 1; PL a((neurons_count_t)B.nn(), glr(g)), b((neurons_count_t)B.nn(), glr(g)); d.ref = r_ph({ { r_fc(a, a_softsign()), 0, s }, { r_fc(b, a_softsign()), t, n - t } });
		if (g.b()) { LPH_DO<Dropout<R>, PHL<PL>, PHL<PL>> x(nullptr, std::make_tuple(make_PHL(a, (neurons_count_t)0, (neurons_count_t)s), make_PHL(b, (neurons_count_t)t, (neurons_count_t)(n - t)))); d.name = "dropout over a pack"; run(g, B.inp, B.pre, x, d, B.nin, {}); }
		else { LPH_DO<AlphaDropout<R>, PHL<PL>, PHL<PL>> x(nullptr, std::make_tuple(make_PHL(a, (neurons_count_t)0, (neurons_count_t)s), make_PHL(b, (neurons_count_t)t, (neurons_count_t)(n - t)))); d.law = alpha_law(); d.name = "alpha dropout over a pack"; run(g, B.inp, B.pre, x, d, B.nin, {}); } }
	else { int n1 = gsz(g, 1, 3), n2 = gsz(g, 1, 3), nin = 2 + n1 + n2; LIn inp((neurons_count_t)nin); typedef LIGf<500000, false, NI> Gt; Gt gt; PL a((neurons_count_t)(g.b(1, 4) ? gsz(g, 8, 30) : gsz(g, 1, 5)), glr(g)), b((neurons_count_t)gsz(g, 1, 5), glr(g));
		d.ref = r_gated(true, { r_id(), 0, 2 }, { { r_fc(a, a_softsign()), 2, n1 }, { r_fc(b, a_softsign()), 2 + n1, n2 } }); d.name = "dropout over a gated pack";
		LPHO_DO<Dropout<R>, true, PHL<Gt>, PHL<PL>, PHL<PL>> x(nullptr, std::make_tuple(make_PHL(gt, (neurons_count_t)0, (neurons_count_t)2), make_PHL(a, (neurons_count_t)2, (neurons_count_t)n1), make_PHL(b, (neurons_count_t)(2 + n1), (neurons_count_t)n2))); run(g, inp, inp, x, d, nin, { 0, 1 }); } }
VP_TESTM(dropout_penalised, 1, 20) { gen_math(g); Base B(g, gsz(g, 1, 5)); XPa x((neurons_count_t)B.nn(), glr(g)); R s = R(g.pick({ 0., 0., .5 })); x.template addendum<0>().scale(s); XD d; d.ref = r_fc(x, a_softsign()); if (s == 0) d.df = dsoftsign; d.name = "dropout of a penalised layer"; run(g, B.inp, B.pre, x, d, B.nin, {}); }
// whole training runs: every dropout event of every batch, with settings changed by the epoch callback and between the runs
VP_TESTM(dropout_train, 3, 40) { gen_math(g);
	int nin = gsz(g, 1, 5), nout = gsz(g, 1, 3); LIn inp((neurons_count_t)nin); bool big = g.b(1, 4); auto nn_ = [&] { return (neurons_count_t)(big ? gsz(g, 8, 30) : gsz(g, 1, 6)); }; R lr = R(g.pick({ .01, .1, 0. }));
	YL a(nn_(), lr), c(nn_(), lr); XAl b(nn_(), lr); PL u(nn_(), lr), v(nn_(), lr); int w = (int)b.get_neurons_cnt(), s = gsz(g, 1, w), t = gsz(g, 0, s); if (t == w) t = w - 1; LPH_DO<Dropout<R>, PHL<PL>, PHL<PL>> p(nullptr, std::make_tuple(make_PHL(u, (neurons_count_t)0, (neurons_count_t)s), make_PHL(v, (neurons_count_t)t, (neurons_count_t)(w - t)))); OIdQ o((neurons_count_t)nout, lr);
	auto lp = make_layers(inp, a, b, p, c, o); auto nn = make_nnet(lp); DoRec rec; DR = &rec; struct Un { ~Un() { DR = nullptr; } } un;
	std::map<int, LD> P; P[0] = P[1] = P[2] = P[3] = 1; auto idx = [&](int i) { return (int)(i == 0 ? a.get_layer_idx() : i == 1 ? b.get_layer_idx() : i == 2 ? p.get_layer_idx() : c.get_layer_idx()); };
	auto push = [&] { rec.law.clear(); for (int i = 0; i < 4; i++) if (P[i] < 1) rec.law[idx(i)] = { i == 1 ? alpha_law() : DoLaw(), P[i] }; };
	auto setp = [&](R q) { LD n = q <= 0 || q > 1 ? LD(1) : LD(q); int i = (int)g.raw(5); if (i == 4) { set_all(lp, q); for (auto& z : P) z.second = n; } else { P[i] = n; if (i == 0) a.dropoutPercentActive(q); else if (i == 1) b.dropoutPercentActive(q); else if (i == 2) p.dropoutPercentActive(q); else c.dropoutPercentActive(q); } g.say("layer", i, "p", double(q)); push(); };
	int n0 = big ? gsz(g, 8, 60) : gsz(g, 1, 12), n1 = gsz(g, 1, 8); inmem_train_data<R> td; Arch A; A.nin = nin; A.nout = nout; { MD X0((vec_len_t)n0, (vec_len_t)nin, true), Y0((vec_len_t)n0, (vec_len_t)nout), X1((vec_len_t)n1, (vec_len_t)nin, true), Y1((vec_len_t)n1, (vec_len_t)nout); gen_xy(A, X0, Y0, g.seed()); gen_xy(A, X1, Y1, g.seed()); VP_REQ(td.absorb(std::move(X0), std::move(Y0), std::move(X1), std::move(Y1)), "absorb"); }
	long expected = 0, exact = 0; int runs = gsz(g, 1, 3); std::vector<R> plan; (void)exact; bool started = false;
	for (int r = 0; r < runs; r++) {
		int maxEp = gsz(g, 1, 5), B = g.b(1, 4) ? 0 : gsz(g, 1, n0), eB = B ? B : n0; nnet_train_opts<R, training_observer_silent<R>> opts((numel_cnt_t)maxEp, g.b()); opts.batchSize((vec_len_t)B).calcFullLossValue(g.b()).ImmediatelyDeinit(g.b(1, 4)).bReportOnlyTime(g.b(1, 3)); opts.divergenceCheckLastEpoch(g.b() ? 0 : 2); opts.divergenceCheckThreshold(std::numeric_limits<R>::max());
		if (g.b()) { setp(gen_p(g)); if (g.b()) setp(gen_p(g)); } g.say("run: epochs", maxEp, "batch", B, "of", n0);
		long act = 0; auto on = [&] { long q = 0; for (auto& z : P) q += z.second < 1; return q; }; int nb = n0 / eB; rec.on = false; uint64_t sd = g.seed();
		auto ec = nn.train(td, opts, [&](numel_cnt_t) noexcept -> bool { rec.last.clear(); act += 0; if (g.b()) { setp(gen_p(g)); } expected += nb * on(); return true; }, [&]() noexcept { rec.on = true; push(); nn.get_iRng().seed64(sd); if (!started || rec.wild) { started = true; rec.wild = false; auto L = learnables(lp); rnd_weights(L, 5, .5); } expected += nb * on(); return _nnet_errs::ErrorCode::Success; });
		rec.on = false; expected -= nb * on(); g.labelif(rec.wild, "diverged"); if (rec.wild && (int)ec != 0) return; VP_REQ((int)ec == 0, "train(): ", nn.get_last_error_string()); if (!rec.bad.empty()) vp::fail(rec.bad); VP_REQ(rec.seen == expected, "dropout was applied ", rec.seen, " times in training, expected ", expected); VP_REQ(rec.cancels == expected, "dropout was cancelled ", rec.cancels, " times in the backward passes, expected ", expected);
		for (auto& q : rec.cnt) binom("activations kept in training", q.second.first, q.second.second, q.first, "dropout in train()"); rec.last.clear(); }
	g.label("train()"); g.nontrivial(rec.seen > 1);
}
