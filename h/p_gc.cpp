// P18: the numeric gradient check: passes a network whose gradients are right, fails one with a wrong gradient and names the layer,
// looks at what it was asked to look at, and leaves the network as it was.
#include "nn.h"
#include "mc.h"
#include "nntl/interface/inspectors/gradcheck.h"
#include <set>
#include <sstream>
namespace {
enum Brk { B_none, B_dLdW, B_dLdA };
struct GcLog { int layer, grp; long r, c; double an; };
static std::vector<GcLog> g_log; static Brk g_brk = B_none; static int g_brkL = 0, g_how = 0; static long g_br = 0, g_bc = 0; static long g_hits = 0;
static void spoil(R& v, bool cur) { if (cur) g_hits++; if (g_how == 0) v += R(std::fabs(v) * .5 + 1e-3); else if (g_how == 1) v = std::fabs(v) > 1e-5 ? -v : R(1e-2); else if (g_how == 2) v = std::fabs(v) > 1e-5 ? R(0) : R(1e-2); else v = std::numeric_limits<R>::quiet_NaN(); }
struct GI : public inspector::GradCheck<R> {
	typedef inspector::GradCheck<R> B; GcLog cur{};
	void gc_prep_check_layer(const layer_index_t l, const nntl::_impl::gradcheck_paramsGroup gr, const mtx_coords_t& c, const bool m = false)noexcept { cur = { (int)l, gr == nntl::_impl::gradcheck_paramsGroup::dLdW ? 1 : 0, (long)c.first, (long)c.second, 0 }; B::gc_prep_check_layer(l, gr, c, m); }
	R get_analytical_value()const noexcept { R v = B::get_analytical_value(); GcLog q = cur; q.an = v; g_log.push_back(q); return v; }
	void bprop_finaldLdA(const realmtx_t& d) noexcept { if (g_brk == B_dLdA && m_layerIdxToCheck && (int)layer_index_t(m_curLayer) == g_brkL && m_curLayer.bUpperLayerDifferent() && (long)d.cols() > g_bc && d.rows() > 0) spoil(const_cast<realmtx_t&>(d).get(0, (vec_len_t)g_bc), cur.layer == g_brkL && cur.grp == 0 && cur.c == g_bc); B::bprop_finaldLdA(d); }
	void bprop_dLdW(const realmtx_t& z, const realmtx_t& p, const realmtx_t& d) noexcept { if (g_brk == B_dLdW && m_layerIdxToCheck && (int)layer_index_t(m_curLayer) == g_brkL && (long)d.cols() > g_bc && (long)d.rows() > g_br) spoil(const_cast<realmtx_t&>(d).get((vec_len_t)g_br, (vec_len_t)g_bc), cur.layer == g_brkL && cur.grp == 1 && cur.r == g_br && cur.c == g_bc); B::bprop_dLdW(z, p, d); }
};
}
#define VP_INSPECTOR GI
#include "net.h"
#define VP_NAME2(a) "gradcheck.arch" #a VP_SUF
#define VP_NAME1(a) VP_NAME2(a)
namespace {
struct GL { int idx; std::string name; int neurons, incoming; bool learn, isout; };
struct CollectG { std::vector<GL>& v; int out;
	template<class L> std::enable_if_t<nntl::layer_has_gradworks<L>::value> operator()(L& l) const { v.push_back({ (int)l.get_layer_idx(), l.get_layer_name_str(), (int)l.get_neurons_cnt(), (int)l.get_incoming_neurons_cnt(), true, (int)l.get_layer_idx() == out }); }
	template<class L> std::enable_if_t<!nntl::layer_has_gradworks<L>::value> operator()(L& l) const { v.push_back({ (int)l.get_layer_idx(), l.get_layer_name_str(), (int)l.get_neurons_cnt(), (int)l.get_incoming_neurons_cnt(), false, false }); } };
struct Cap { std::streambuf* b; ~Cap() { std::cout.rdbuf(b); } };
static int want(int total, int ptc, int perc) { int a = std::min(total, ptc); return perc ? std::max(total * perc / 100, a) : a; }
}
static void t_gc(vp::Gen& g) {
	gen_math(g); g_brk = B_none;
	arch_body(g, [&](auto& lp, Arch& A) {
		auto nn = make_nnet(lp); g.label(A.name); const bool gated = VP_ARCH == 5 || VP_ARCH == 6 || VP_ARCH == 10 || VP_ARCH == 11 || VP_ARCH == 12, pens = VP_ARCH == 8 || VP_ARCH == 10 || VP_ARCH == 12;
		int bs = gsz(g, pens ? 3 : 1, 6), ob = pens ? gsz(g, 3, 6) : g.b(2, 3) ? 1 : gsz(g, 1, 4), big = std::max(bs, ob), n = big + (g.b() ? 0 : gsz(g, 0, 8));
		MD X, Y; X.will_emulate_biases(); (void)X.resize((vec_len_t)n, (vec_len_t)A.nin); (void)Y.resize((vec_len_t)n, (vec_len_t)A.nout); gen_xy(A, X, Y, g.seed()); VR x0 = snap(X), y0 = snap(Y);
		int pre = (int)g.raw(3), pm = 0, pb = 0; auto& cd = nn.___get_common_data();
		{ int m0 = pre == 0 ? 1 : big + gsz(g, 0, 3); VP_REQ((int)nn.___init((vec_len_t)m0, (vec_len_t)(pre == 0 ? 0 : m0), false) == 0, nn.get_last_error_string()); pm = m0; }
		auto Ls = learnables(lp); for (auto& l : Ls) if (l.lr() == 0) l.setlr(.1); /* a layer that does not learn computes no gradient */ rnd_weights(Ls, g.seed(), g.pick({ .5, 1. })); auto W0 = save_w(Ls); std::vector<GL> all; lp.for_each_layer_exc_input(CollectG{ all, (int)lp.output_layer().get_layer_idx() });
		// a training step before, to be compared with the same step afterwards
		int64_t sd = (int64_t)g.seed(); auto step = [&](const MD& x, const MD& y) { int b = (int)x.rows(); nn.get_iRng().seed64(sd); cd.set_mode_and_batch_size(true, (vec_len_t)b); lp.on_batch_size_change((vec_len_t)b); lp.fprop(x); lp.bprop(y); };
		std::vector<VR> W1; MD sx, sy; int sb = 0; if (pre == 2) { sb = gsz(g, 1, pm); sx.will_emulate_biases(); (void)sx.resize((vec_len_t)sb, (vec_len_t)A.nin); (void)sy.resize((vec_len_t)sb, (vec_len_t)A.nout); gen_xy(A, sx, sy, 77); step(sx, sy); W1 = save_w(Ls); load_w(Ls, W0); bool tr = g.b(); pb = gsz(g, 1, pm); cd.set_mode_and_batch_size(tr, (vec_len_t)pb); lp.on_batch_size_change((vec_len_t)pb); pb = tr ? pb : -pb; }
		int pg = gsz(g, 1, 12), pgp = g.b() ? gsz(g, 1, 100) : 0, ps = gsz(g, 1, 12), psp = g.b() ? gsz(g, 1, 100) : 0; bool full = g.b(2, 3); if (full) { pg = ps = 1000; pgp = psp = 0; }
		std::vector<int> ign; if (pens) for (auto& l : all) if (!l.learn) ign.push_back(l.idx); /* a penalised pack of penalised layers: its activations are those of its layers, so the numeric derivative contains their penalties */ if (VP_ARCH == 9) { int f = 1 << 20; for (auto& l : all) if (l.learn) f = std::min(f, l.idx); for (auto& l : all) if (l.idx < f) ign.push_back(l.idx); } /* frozen layers have no gradient */ if (gated) for (auto& l : all) if (l.name.compare(0, 3, "lig") == 0) ign.push_back(l.idx); if (g.b(1, 4)) for (auto& l : all) if (g.b(1, 4)) ign.push_back(l.idx);
		bool badcase = g.b(3, 5); GL bl{}; g_log.clear(); g_hits = 0;
		if (badcase) { full = true; pg = ps = 1000; pgp = psp = 0; std::vector<GL> c; g_brk = g.b() ? B_dLdW : B_dLdA; for (auto& l : all) if (g_brk == B_dLdW ? l.learn : (l.learn && !l.isout)) c.push_back(l); if (c.empty()) { g_brk = B_none; badcase = false; } else { bl = c[(size_t)g.raw(c.size())]; g_brkL = bl.idx; g_how = (int)g.raw(gated ? 3 : 4); g_br = (long)g.raw((uint64_t)bl.neurons); g_bc = g_brk == B_dLdW ? (long)g.raw((uint64_t)bl.incoming + 1) : (long)g.raw((uint64_t)bl.neurons); g.label(g_brk == B_dLdW ? "wrong dL/dW" : "wrong dL/dA"); g.say("spoiled", bl.name, g_brk == B_dLdW ? "dL/dW" : "dL/dA", g_br, g_bc, "how", g_how); } }
		if (g_brk == B_dLdA) { std::vector<int> k; for (int i : ign) for (auto& l : all) if (l.idx == i && !l.learn && (pens || gated || VP_ARCH == 9)) k.push_back(i); ign = k; } bool skipBad = badcase && std::find(ign.begin(), ign.end(), bl.idx) != ign.end();
		auto Brk0 = g_brk; auto run = [&](double ss, std::string& txt) { gradcheck_settings<R> st(g_log.size() % 2 == 0, A.stoch || g_how % 2, R(ss)); if (pgp) st.groupSetts.set((neurons_count_t)pg, (unsigned)pgp); else st.groupSetts.set((neurons_count_t)pg); if (psp) st.subgroupSetts.set((neurons_count_t)ps, (unsigned)psp); else st.subgroupSetts.set((neurons_count_t)ps); st.onlineBatchSize = (vec_len_t)ob;
			st.evalSetts.dLdA_setts.percOfZeros = st.evalSetts.dLdW_setts.percOfZeros = 100; st.evalSetts.dLdA_setts.relErrWarnThrsh = st.evalSetts.dLdW_setts.relErrWarnThrsh = R(.02); st.evalSetts.dLdA_setts.relErrFailThrsh = st.evalSetts.dLdW_setts.relErrFailThrsh = R(.05); for (int i : ign) st.ignoreLayerIds.push_back((layer_index_t)i); if (gated) for (auto& l : all) st.layerCanSkipExecIds.push_back((layer_index_t)l.idx);
			std::ostringstream o; bool r; { Cap c{ std::cout.rdbuf(o.rdbuf()) }; r = nn.gradcheck(X, Y, (vec_len_t)bs, st); } txt = o.str(); return r; };
		g.say(A.name, "batch", bs, "online", ob, "data", n, "counts", pg, pgp, ps, psp, "ignored", ign.size(), "prepared", pre); std::string txt; bool r = run(1e-5, txt); g_brk = B_none; int judged = 0;
		auto keep = [&](const char* when) { Ls = learnables(lp); VP_REQ(save_w(Ls) == W0, A.name, ": gradcheck changed the weights ", when); VP_REQ(snap(X) == x0 && snap(Y) == y0, A.name, ": gradcheck changed its data"); }; keep("");
		if (badcase && !skipBad) { bool real = g_hits > 0; // the spoiled gradient was met
			bool skipped = false; double tiny = 1e9; for (auto& q : g_log) if (q.layer != bl.idx && q.an != 0 && !(std::fabs(q.an) >= 1e-7)) tiny = 0; (void)skipped;
			if (real) { VP_REQ(!r, A.name, ": a wrong ", Brk0 == B_dLdW ? "dL/dW" : "dL/dA", " element (", g_br, ",", g_bc, ") of layer ", bl.name, " (", bl.neurons, " neurons, ", bl.incoming, " incoming) passed the gradient check"); judged += 3;
				std::string w = "with idx = " + std::to_string(bl.idx) + "\n"; if (tiny > 0 && txt.find(w) == std::string::npos) { // an honest failure elsewhere (a kink) is possible, but not at every step size
					bool named = false; for (double ss : { 1e-6, 4e-6, 1e-7 }) { g_brk = Brk0; std::string t2; (void)run(ss, t2); g_brk = B_none; if (t2.find(w) != std::string::npos) { named = true; break; } } VP_REQ(named, A.name, ": a wrong gradient in layer ", bl.idx, " (", bl.name, ") was reported as: ", txt.substr(txt.size() > 120 ? txt.size() - 120 : 0)); } } }
		else if (!badcase || skipBad) { // right network (or the wrong layer was excluded by request)
			bool tiny = false; for (auto& q : g_log) if (!(q.an == 0 || std::fabs(q.an) >= 2e-7)) tiny = true;
			if (!r && !tiny) { bool ever = false; for (double ss : { 1e-6, 4e-6, 3e-5 }) { for (int w = 0; w < 2 && !ever; w++) { if (w) { rnd_weights(Ls, 1000 + (uint64_t)(ss * 1e8), .7); } std::string t2; if (skipBad) g_brk = Brk0; size_t l0 = g_log.size(); ever = run(ss, t2); for (size_t i = l0; i < g_log.size(); i++) if (!(g_log[i].an == 0 || std::fabs(g_log[i].an) >= 2e-7)) ever = true; g_brk = B_none; } } load_w(Ls, W0); VP_REQ(ever, A.name, ": the gradient check fails a right network: ", txt.substr(txt.size() > 400 ? txt.size() - 400 : 0)); g.label("kink"); }
			else if (r) { judged += 3; std::map<std::pair<int, int>, std::set<std::pair<long, long>>> seen; std::map<std::pair<int, int>, long> cnt; for (auto& q : g_log) { seen[{ q.layer, q.grp }].insert({ q.r, q.c }); cnt[{ q.layer, q.grp }]++; }
				for (auto& l : all) { long c0 = cnt[std::make_pair(l.idx, 0)], c1 = cnt[std::make_pair(l.idx, 1)]; bool ig = std::find(ign.begin(), ign.end(), l.idx) != ign.end(); long a = ig || l.isout ? 0 : want(l.neurons, pg, pgp); auto& S = seen[{ l.idx, 0 }]; VP_REQ((long)S.size() == a && c0 == a, A.name, ": layer ", l.name, " (", l.neurons, " neurons): dL/dA of ", S.size(), " neurons checked (", c0, " checks), expected ", a, ig ? " (ignored layer)" : ""); for (auto& c : S) VP_REQ(c.first == 0 && c.second >= 0 && c.second < l.neurons, "dL/dA coordinates");
					long b = 0, nb = 0; auto& S2 = seen[{ l.idx, 1 }]; for (auto& c : S2) { VP_REQ(c.first >= 0 && c.first < l.neurons && c.second >= 0 && c.second <= l.incoming, "dL/dW coordinates"); (c.second == l.incoming ? nb : b)++; } long en = want(l.neurons, pg, pgp), eb = en * want(l.incoming, ps, psp); if (ig || !l.learn) en = eb = 0; VP_REQ(b == eb && nb == en && c1 == en + eb, A.name, ": layer ", l.name, ": ", b, " weights and ", nb, " biases checked, expected ", eb, " and ", en); } } }
		VP_REQ((txt.find("Gradient checks passed!") != std::string::npos) == r && (txt.find("Gradient check failed") != std::string::npos) == !r, "verdict and message differ: ", txt);
		keep("on repetition");
		// the network goes on as before
		if (pre == 2) { VP_REQ((int)cd.input_batch_size() == std::abs(pb) && cd.is_training_mode() == (pb > 0), A.name, ": gradcheck left batch size ", cd.input_batch_size(), " and training mode ", cd.is_training_mode(), " instead of ", std::abs(pb), " and ", pb > 0);
			VP_REQ(!cd.isLearningBlocked() , "learning is left blocked"); step(sx, sy); VP_REQ(save_w(Ls) == W1, A.name, ": a training step after gradcheck() differs from the same step before it"); judged++; load_w(Ls, W0); }
		{ int m = gsz(g, 1, big); MD Z; Z.will_emulate_biases(); (void)Z.resize((vec_len_t)m, (vec_len_t)A.nin); MD Q((vec_len_t)m, (vec_len_t)A.nout); gen_xy(A, Z, Q, g.seed()); VP_REQ((int)nn.fprop(Z) == 0, nn.get_last_error_string()); g_ambig = false; Mx got = to_mx(lp.output_layer().get_activations()), e = A.ref(to_mx_nb(Z, A.nin)); if (!g_ambig) for (int i = 0; i < e.n; i++) for (int j = 0; j < e.c; j++) VP_REQ(fabsl(got.at(i, j) - e.at(i, j)) <= 2 * e.er(i, j) + 1e-30L, A.name, ": inference after gradcheck: output (", i, ",", j, ") is ", (double)got.at(i, j), " expected ", (double)e.at(i, j)); }
		// unsuitable data is refused
		if (g.b(1, 4)) { int how = gsz(g, 0, 3); MD a, b; a.will_emulate_biases(); (void)a.resize((vec_len_t)(how == 2 ? std::max(big - 1, 1) : n), (vec_len_t)(how == 0 ? A.nin + 1 : A.nin)); (void)b.resize((vec_len_t)(how == 3 ? n + 1 : how == 2 ? std::max(big - 1, 1) : n), (vec_len_t)(how == 1 ? A.nout + 1 : A.nout)); a.zeros(); a.set_biases(); b.zeros(); if (how != 2 || big > 1) { gradcheck_settings<R> st(false); st.onlineBatchSize = (vec_len_t)ob; std::ostringstream o; bool q; { Cap c{ std::cout.rdbuf(o.rdbuf()) }; q = nn.gradcheck(a, b, (vec_len_t)bs, st); } VP_REQ(!q, "gradcheck of unsuitable data succeeded"); keep("although it refused the data"); g.label("unsuitable data"); } }
		g.labelif(r, "passed"); g.nontrivial(judged > 2);
	});
}
static vp::Reg reg_gc(VP_NAME1(VP_ARCH), 1, 40, t_gc, 60, false);
#if VP_ARCH == 1
// the share of zero derivatives that is tolerated
VP_TESTM(zeros, 1, 40) {
	gen_math(g); g_brk = B_none; int nin = gsz(g, 1, 4), h = gsz(g, 1, 12), z = gsz(g, 0, h), pa = (int)g.pick({ 0, 100, 50, 25, 33, 70 }), pw = (int)g.pick({ 0, 100, 50, 25, 33, 70 }); bool under = g.b(); int deep = g.b();
	LIn inp(nin); LFC<ASoft, NGW> u(4, R(.1)), a(h, R(.1)); OIdQ o(2, R(.1)); auto go = [&](auto& lp, int in2, int li) { auto nn = make_nnet(lp); VP_REQ((int)nn.___init(4, 4, false) == 0, "init"); auto Ls = learnables(lp); rnd_weights(Ls, g.seed(), 1.); auto& W = o.get_weights(); for (int i = 0; i < h; i++) for (int k = 0; k < 2; k++) if (i < z) W.set((vec_len_t)k, (vec_len_t)i, R(0)); else if (std::fabs(W.get((vec_len_t)k, (vec_len_t)i)) < .1) W.set((vec_len_t)k, (vec_len_t)i, R(.3));
		MD X, Y; X.will_emulate_biases(); (void)X.resize(4, nin); (void)Y.resize(4, 2); Arch A; A.nin = nin; A.nout = 2; A.tgt = 0; gen_xy(A, X, Y, g.seed()); for (int i = 0; i < 4; i++) for (int j = 0; j < nin; j++) if (std::fabs(X.get(i, j)) < .05) X.set(i, j, R(.5));
		gradcheck_settings<R> st(false); st.groupSetts.set(1000); st.subgroupSetts.set(1000); st.evalSetts.dLdA_setts.percOfZeros = pa; st.evalSetts.dLdW_setts.percOfZeros = pw; st.evalSetts.bIgnoreZerodLdWInUndelyingLayer = under; st.evalSetts.dLdA_setts.relErrFailThrsh = st.evalSetts.dLdW_setts.relErrFailThrsh = R(.1); g_log.clear(); std::ostringstream os; bool r; { Cap c{ std::cout.rdbuf(os.rdbuf()) }; r = nn.gradcheck(X, Y, 4, st); }
		for (auto& q : g_log) if (q.an != 0 && !(std::fabs(q.an) >= 1e-6)) { g.label("tiny"); return; }
		int za = 0, zw = 0; for (auto& q : g_log) if (q.layer == li && q.an == 0) (q.grp ? zw : za)++; bool ok = z <= h * pa / 100; if (ok) VP_REQ(za == z, "zero dL/dA count ", za, " expected ", z); int tw = h * (in2 + 1); bool okw = z * (in2 + 1) <= tw * pw / 100 || (li == 1 && under);
		VP_REQ(r == (ok && okw), "gradient check ", r ? "passed" : "failed", " with ", z, " of ", h, " derivatives by activations (", pa, "% tolerated) and ", z * (in2 + 1), " of ", tw, " by weights (", pw, "% tolerated) equal to zero: ", os.str().substr(0, 300)); g.nontrivial(z > 0); g.label(r ? "tolerated" : "too many"); };
	g.say(nin, h, "zero outgoing", z, "percent", pa, pw, "ignore", under, "deep", deep); if (deep) { auto lp = make_layers(inp, u, a, o); go(lp, 4, 2); } else { auto lp = make_layers(inp, a, o); go(lp, nin, 1); } }
#endif
