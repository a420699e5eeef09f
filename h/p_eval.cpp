// P13: evaluators, observers and the confusion matrix count what the network really predicted.
#define VP_ARCH 1
#include "net.h"
#include "nntl/utils/confusion_mtx.h"
#include <iostream>
namespace {
typedef _nnet_errs::ErrorCode EC;
struct TD3 : public _inmem_train_data<TD3, R> { int sets = 2; data_set_id_t datasets_count()const noexcept { return sets; } };
struct EBS { vec_len_t b; vec_len_t biggest()const { return b; } };
struct ECD { Math* m; EBS e; vec_len_t bs; Math& iMath()const { return *m; } Math& get_iMath()const { return *m; } const EBS& get_outBatchSizes()const { return e; } vec_len_t input_batch_size()const { return bs; } };
// target and prediction matrices: random, near the threshold, with ties
static void fill_p(vp::Gen& g, M& m, int kind) { vp::Rnd r(g.seed()); for (numel_cnt_t i = 0; i < m.numel(); i++) m.data()[i] = kind == 0 ? R(r.unit()) : kind == 1 ? R((int)r.below(3)) / R(2) : kind == 2 ? R(2 * r.unit() - 1) : R(.5) + R((int)r.below(3) - 1) * std::numeric_limits<R>::epsilon(); }
static void one_hot(vp::Gen& g, M& m) { vp::Rnd r(g.seed()); m.zeros(); for (vec_len_t i = 0; i < m.rows(); i++) m.set(i, (vec_len_t)r.below(m.cols()), R(1)); }
static int amax(const M& m, int i) { int b = 0; for (int j = 1; j < (int)m.cols(); j++) if (m.get(i, j) > m.get(i, b)) b = j; return b; }
template<class EV> static long ref_count(const M& y, int yo, const M& a, double thr);
template<> long ref_count<eval_classification_one_hot_cached<R>>(const M& y, int yo, const M& a, double) { long c = 0; for (int i = 0; i < (int)a.rows(); i++) c += amax(y, yo + i) == amax(a, i); return c; }
template<> long ref_count<eval_classification_binary_cached<R>>(const M& y, int yo, const M& a, double t) { long c = 0; for (int j = 0; j < (int)a.cols(); j++) for (int i = 0; i < (int)a.rows(); i++) c += (y.get(yo + i, j) > R(t)) == (a.get(i, j) > R(t)); return c; }
static void set_thr(eval_classification_one_hot_cached<R>&, double) {}
static void set_thr(eval_classification_binary_cached<R>& e, double t) { e.set_threshold(R(t)); }
static long tot(const eval_classification_one_hot_cached<R>&, int n, int) { return n; }
static long tot(const eval_classification_binary_cached<R>&, int n, int c) { return (long)n * c; }
template<class EV> static void evaluator(vp::Gen& g) {
	Math& m = gen_math(g); int c = gsz(g, 1, 6), n[2] = { gsz(g, 1, 40), gsz(g, 1, 40) }, big = std::max(n[0], n[1]); bool oh = g.b(2, 3); double thr = g.pick({ .5, .5, .3, 0. }); TD3 td; td.sets = g.b(1, 3) ? 3 : 2; M y0[2];
	MD X[2], Y[2]; for (int s = 0; s < 2; s++) { X[s].will_emulate_biases(); (void)X[s].resize(n[s], 1); X[s].zeros(); (void)X[s].set_biases(); Y[s].dont_emulate_biases(); (void)Y[s].resize(n[s], c); if (oh) one_hot(g, Y[s]); else fill_p(g, Y[s], (int)g.raw(4)); (void)y0[s].resize(Y[s].size()); std::copy(Y[s].data(), Y[s].data() + Y[s].numel(), y0[s].data()); }
	VP_REQ(td.absorb(std::move(X[0]), std::move(Y[0]), std::move(X[1]), std::move(Y[1])), "absorb"); EV ev; set_thr(ev, thr); int rounds = gsz(g, 1, 3); long cases = 0;
	g.say("sets", n[0], n[1], "classes", c, "threshold", thr);
	for (int q = 0; q < rounds; q++) {
		vec_len_t F = (vec_len_t)(g.b(1, 3) ? 0 : gsz(g, 1, big)); VP_REQ(td.init4inference(m, F) == EC::Success, "init4inference"); int bmax = gsz(g, 1, big); ECD cd{ &m, { (vec_len_t)bmax }, 1 }; if (bmax < (int)F) { bmax = (int)F; cd.e.b = F; }
		VP_REQ(ev.init(td, cd), "evaluator init failed"); int walks = gsz(g, 1, 5);
		for (int w = 0; w < walks; w++) { int s = (int)g.raw((uint64_t)td.sets); ev.prepare_to_dataset(s, 1); M yx; int N = s < 2 ? n[s] : gsz(g, 1, 20); if (s == 2) { (void)yx.resize((vec_len_t)N, (vec_len_t)c); if (oh) one_hot(g, yx); else fill_p(g, yx, (int)g.raw(4)); } const M& ys = s < 2 ? y0[s] : yx; int pos = 0; bool stop = g.b(1, 6); g.labelif(s == 2, "additional set");
			while (pos < N && !(stop && pos > 0)) { int b = std::min(N - pos, g.b() ? bmax : gsz(g, 1, bmax)); MD a((vec_len_t)b, (vec_len_t)c); fill_p(g, a, (int)g.raw(4)); MD yb((vec_len_t)b, (vec_len_t)c); for (int i = 0; i < b; i++) for (int j = 0; j < c; j++) { yb.set(i, j, ys.get(pos + i, j)); if (g.b(1, 3)) a.set(i, j, yb.get(i, j)); } VR a0 = snap(a), b0 = snap(yb);
				long e = ref_count<EV>(ys, pos, a, thr), r = (long)ev.correctlyClassified(s, yb, a, m); VP_REQ(r == e, "set ", s, " samples ", pos, "..", pos + b, ": ", r, " counted as correct, expected ", e); VP_REQ((long)ev.totalSamples(yb) == tot(ev, b, c), "totalSamples ", ev.totalSamples(yb), " for ", b, "x", c); same_bits(a0, a, "evaluation changed the activations"); same_bits(b0, yb, "evaluation changed the targets"); pos += b; cases++; g.labelif(e > 0 && e < tot(ev, b, c), "partly correct"); } }
		if (g.b()) ev.deinit(); g.labelif(q > 0, "re-initialised"); }
	g.nontrivial(cases > 0);
}
// the observer of a real training run: printed and stored numbers against recounted ones
struct Got { int epoch; double tl, vl; long wr[2]; }; static std::vector<Got> GOTS; static long CNT[2][2]; static int OSET; static std::string OBAD; static double OTHR;
template<class EV> struct Obs : public training_observer_stdcout<R, EV> { typedef training_observer_stdcout<R, EV> B;
	void report_results_begin(const DataSetsId::data_set_id_t d, const numel_cnt_t t)noexcept { OSET = (int)d; CNT[d][0] = CNT[d][1] = 0; B::report_results_begin(d, t); }
	template<typename YT, typename CD> void report_results(const numel_cnt_t b, const M& a, const math::smatrix<YT>& y, const CD& cd)noexcept { CNT[OSET][0] += ref_count<EV>(y, 0, a, OTHR); CNT[OSET][1] += tot(EV(), (int)a.rows(), (int)a.cols()); B::report_results(b, a, y, cd); }
	void on_training_fragment_end(const numel_cnt_t e, const R tl, const R vl, const std::chrono::nanoseconds& t)noexcept { for (int s = 0; s < 2; s++) if ((long)this->m_classifRes[s].totalElements != CNT[s][1] || (long)this->m_classifRes[s].correctlyClassif != CNT[s][0]) { std::ostringstream o; o << "epoch " << e << " set " << s << ": observer counts " << this->m_classifRes[s].correctlyClassif << " of " << this->m_classifRes[s].totalElements << " correct, expected " << CNT[s][0] << " of " << CNT[s][1]; if (OBAD.empty()) OBAD = o.str(); }
		GOTS.push_back({ (int)e, double(tl), double(vl), { CNT[0][1] - CNT[0][0], CNT[1][1] - CNT[1][0] } }); B::on_training_fragment_end(e, tl, vl, t); if ((this->m_lastTrainErr != tl && tl == tl) || (this->m_lastTestErr != vl && vl == vl)) { if (OBAD.empty()) OBAD = "last losses are not stored"; } } };
struct Cap { std::streambuf* b; ~Cap() { std::cout.rdbuf(b); } };
template<class EV> static void observer(vp::Gen& g) {
	gen_math(g);
	arch_body(g, [&](auto& lp, Arch& A) {
		auto nn = make_nnet(lp); inmem_train_data<R> td; int n[2] = { gsz(g, 1, 16), gsz(g, 1, 16) }; MD X[2], Y[2]; for (int s = 0; s < 2; s++) { X[s].will_emulate_biases(); (void)X[s].resize(n[s], A.nin); Y[s].dont_emulate_biases(); (void)Y[s].resize(n[s], A.nout); gen_xy(A, X[s], Y[s], g.seed()); if (A.nout > 1 && g.b()) one_hot(g, Y[s]); }
		VP_REQ(td.absorb(std::move(X[0]), std::move(Y[0]), std::move(X[1]), std::move(Y[1])), "absorb"); int runs = gsz(g, 1, 2); OTHR = g.pick({ .5, .5, .4 });
		nnet_train_opts<R, Obs<EV>> opts(gsz(g, 1, 4), true); set_thr(opts.observer().m_evaluator, OTHR); int B = gsz(g, 1, n[0]); opts.batchSize(B); if (g.b(2, 3)) opts.maxFpropSize(gsz(g, B, std::max(B, std::max(n[0], n[1])))); opts.noDivergenceCheck(); bool first = true;
		for (int r = 0; r < runs; r++) { GOTS.clear(); OBAD.clear(); std::ostringstream out;
			{ Cap c{ std::cout.rdbuf(out.rdbuf()) }; auto ec = nn.template train<false>(td, opts, [](numel_cnt_t) noexcept { return true; }, [&]() noexcept { if (first) { auto Ls = learnables(lp); rnd_weights(Ls, 7, 1.); for (auto& l : Ls) l.setlr(.05); first = false; } return EC::Success; }); VP_REQ(ec == EC::Success, nn.get_last_error_string()); }
			if (!OBAD.empty()) vp::fail(OBAD); VP_REQ((int)GOTS.size() == (int)opts.maxEpoch() + 1, GOTS.size(), " reports for ", opts.maxEpoch(), " epochs");
			// printed lines:  e/E time trL=.., trErr=..% (n), vL=.., vErr=..% (n)
			std::istringstream is(out.str()); std::string ln; size_t k = 0; while (std::getline(is, ln)) { int e, E; double t, tl, te, vl, ve; long tw, vw; if (sscanf(ln.c_str(), " %d/%d %lfs trL=%lf, trErr=%lf%% (%ld), vL=%lf, vErr=%lf%% (%ld)", &e, &E, &t, &tl, &te, &tw, &vl, &ve, &vw) == 9) { VP_REQ(k < GOTS.size(), "too many printed reports"); auto& q = GOTS[k++]; long T0 = tot(EV(), n[0], A.nout), T1 = tot(EV(), n[1], A.nout);
					auto near = [](double a, double b, double d) { return std::fabs(a - b) <= d + 1e-5 * std::fabs(b) || b != b; };
					VP_REQ(e == q.epoch + 1 && E == (int)opts.maxEpoch() && near(tl, q.tl, .0006) && near(vl, q.vl, .0006) && tw == q.wr[0] && vw == q.wr[1] && near(te, 100. * q.wr[0] / T0, .006) && near(ve, 100. * q.wr[1] / T1, .006), "printed report '", ln, "' expected epoch ", q.epoch + 1, " losses ", q.tl, " ", q.vl, " errors ", q.wr[0], " of ", T0, ", ", q.wr[1], " of ", T1); } }
			VP_REQ(k == GOTS.size(), k, " printed reports of ", GOTS.size()); }
		g.nontrivial(true); });
}
}
namespace { // the text the observers print, for losses of every magnitude and additional sets
struct TDN : public _inmem_train_data<TDN, R> { int sets = 2; data_set_id_t datasets_count()const noexcept { return sets; } };
static bool same_val(double got, double want, double d) { return want != want ? got != got : std::isinf(want) ? got == want : std::fabs(got - want) <= d + 1e-5 * std::fabs(want); }
template<class OT> static void printed(vp::Gen& g, bool full) {
	Math& m = gen_math(g); int c = gsz(g, 1, 3), n[2] = { gsz(g, 1, 9), gsz(g, 1, 9) }; TDN td; td.sets = full ? gsz(g, 2, 4) : 2; MD X[2], Y[2]; for (int s = 0; s < 2; s++) { X[s].will_emulate_biases(); (void)X[s].resize(n[s], gsz(g, 1, 4)); if (s) { X[s].clear(); X[s].will_emulate_biases(); (void)X[s].resize(n[s], X[0].cols_no_bias()); } X[s].zeros(); (void)X[s].set_biases(); Y[s].dont_emulate_biases(); (void)Y[s].resize(n[s], c); one_hot(g, Y[s]); }
	M y0[2]; for (int s = 0; s < 2; s++) { (void)y0[s].resize(Y[s].size()); std::copy(Y[s].data(), Y[s].data() + Y[s].numel(), y0[s].data()); } int xw = (int)X[0].cols_no_bias(); VP_REQ(td.absorb(std::move(X[0]), std::move(Y[0]), std::move(X[1]), std::move(Y[1])), "absorb"); vec_len_t F = 0; VP_REQ(td.init4inference(m, F) == EC::Success, "init4inference"); ECD cd{ &m, { (vec_len_t)std::max(n[0], n[1]) }, 1 };
	OT ob; std::ostringstream out; int E = g.pick({ 1, 7, 99, 1000, 123456 }), ep = (int)g.raw((uint64_t)E + 1) - 1, B = gsz(g, 1, n[0]), np = (int)g.raw(g.b() ? 1000 : 100000000); int rounds = gsz(g, 1, 3); struct Rd { long wr[4] = {}, tot_[4] = {}, ms = 0; R tl = 0, vl = 0, sl[4] = {}; }; std::vector<Rd> rd((size_t)rounds);
	auto loss = [&]() -> R { switch (g.raw(8)) { case 0: return R(0); case 1: return std::numeric_limits<R>::infinity(); case 2: return std::numeric_limits<R>::quiet_NaN(); case 3: return -R(g.real(0, 10)); case 4: return std::numeric_limits<R>::max(); default: return R(g.real(.01, 9.99) * std::pow(10., (double)g.raw(sizeof(R) == 8 ? 300 : 37) * (g.b(1, 4) ? -1 : 1))); } };
	for (auto& q : rd) { q.tl = loss(); q.vl = loss(); q.sl[2] = loss(); q.sl[3] = loss(); q.ms = (long)g.raw(5000); g.say("losses", (double)q.tl, (double)q.vl); } g.say("sets", td.sets, "epoch", ep, E);
	{ Cap cp{ std::cout.rdbuf(out.rdbuf()) }; VP_REQ(ob.init(E, td, cd), "observer init"); ob.on_training_start(td, (vec_len_t)B, F, np);
		for (int rr = 0; rr < rounds; rr++) { auto& wr = rd[rr].wr; auto& tot_ = rd[rr].tot_;
		for (int s = 0; s < td.sets; s++) { int N = s < 2 ? n[s] : gsz(g, 1, (int)cd.e.b), pos = 0; M ys; (void)ys.resize(N, c); if (s < 2) std::copy(y0[s].data(), y0[s].data() + y0[s].numel(), ys.data()); else one_hot(g, ys); int b = gsz(g, 1, N); ob.report_results_begin(s, (N + b - 1) / b); int bi = 0; tot_[s] = N;
			while (pos < N) { int q = std::min(b, N - pos); M a((vec_len_t)q, (vec_len_t)c), yb((vec_len_t)q, (vec_len_t)c); one_hot(g, a); for (int i = 0; i < q; i++) for (int j = 0; j < c; j++) yb.set(i, j, ys.get(pos + i, j)); for (int i = 0; i < q; i++) wr[s] += amax(yb, i) != amax(a, i); ob.report_results(bi++, a, yb, cd); pos += q; } ob.report_results_end(s < 2 ? (s ? rd[rr].vl : rd[rr].tl) : rd[rr].sl[s]); }
		ob.on_training_fragment_end(ep + rr, rd[rr].tl, rd[rr].vl, std::chrono::nanoseconds(rd[rr].ms * 1000000)); }
		ob.on_training_end(std::chrono::milliseconds(5)); ob.deinit(); }
	std::istringstream is(out.str()); std::string ln; int st = 0, rep = 0; bool head = false;
	while (std::getline(is, ln)) { int a, b2, d, e; long p, q, r; double t, l1, l2, e1, e2; long w1, w2; char nm[40]; g.say(ln); auto& z = rd[(size_t)std::min(rep, rounds - 1)]; R tl = z.tl, vl = z.vl; auto& sl = z.sl; auto& wr = z.wr; auto& tot_ = z.tot_; long ms = z.ms;
		if (sscanf(ln.c_str(), "Model f:%d->%d has %ld params. There are %ld training samples and %ld for testing. BatchSize=%d, batchCnt=%ld, maxFpropSize=%d", &a, &b2, &p, &q, &r, &d, &w1, &e) == 8) { head = true; VP_REQ(a == xw && b2 == c && p == np && q == n[0] && r == n[1] && d == B && w1 == n[0] / B && e == (int)F, "printed '", ln, "' for a network ", xw, "->", c, " with ", np, " parameters, sets of ", n[0], " and ", n[1], ", batch ", B, ", ", F); }
		else if (full && sscanf(ln.c_str(), "%39[^:]: Loss=%lf, Err=%lf%% (%ld)", nm, &l1, &e1, &w1) == 4) { int s = 2 + st++; VP_REQ(s < td.sets, "too many reports on additional sets"); char want[40] = {}; td.get_dataset_naming_function()(s, want, 32); VP_REQ(std::string(nm) == want, "printed set name '", nm, "' expected '", want, "'"); VP_REQ(same_val(l1, (double)sl[s], .0006) && w1 == wr[s] && same_val(e1, 100. * (double)wr[s] / (double)tot_[s], .006), "printed '", ln, "' expected loss ", sl[s], " and ", wr[s], " errors of ", tot_[s]); }
		else if (full && sscanf(ln.c_str(), " %d/%d %lfs trL=%lf, trErr=%lf%% (%ld), vL=%lf, vErr=%lf%% (%ld)", &a, &b2, &t, &l1, &e1, &w1, &l2, &e2, &w2) == 9) { VP_REQ(rep < rounds && st == (full ? td.sets - 2 : 0), "reports on additional sets missing"); st = 0; rep++; VP_REQ(a == ep + rep && b2 == E && same_val(t, (double)ms / 1000, .06) && same_val(l1, (double)tl, .0006) && same_val(l2, (double)vl, .0006) && w1 == wr[0] && w2 == wr[1] && same_val(e1, 100. * (double)wr[0] / n[0], .006) && same_val(e2, 100. * (double)wr[1] / n[1], .006), "printed '", ln, "' expected epoch ", ep + 1, " losses ", tl, " ", vl, " errors ", wr[0], " ", wr[1]); }
		else if (!full && sscanf(ln.c_str(), " %d/%d %lfs trL=%lf, vL=%lf", &a, &b2, &t, &l1, &l2) == 5) { VP_REQ(rep < rounds && st == (full ? td.sets - 2 : 0), "reports on additional sets missing"); st = 0; rep++; VP_REQ(a == ep + rep && b2 == E && same_val(t, (double)ms / 1000, .06) && same_val(l1, (double)tl, 6e-6) && same_val(l2, (double)vl, 6e-6), "printed '", ln, "' expected epoch ", ep + 1, " losses ", tl, " ", vl); } }
	VP_REQ(head && rep == rounds && st == 0, "printed ", rep, " reports on the epoch, ", st, " on additional sets, heading ", head); g.labelif(td.sets > 2, "additional sets"); g.nontrivial(true);
}
}
VP_TESTM(printed_report, 1, 30) { if (g.b(2, 3)) printed<training_observer_stdcout<R, eval_classification_one_hot_cached<R>>>(g, true); else printed<training_observer_simple_stdcout<R>>(g, false); }
VP_TESTM(evaluator_one_hot, 3, 40) { evaluator<eval_classification_one_hot_cached<R>>(g); }
VP_TESTM(evaluator_binary, 3, 40) { evaluator<eval_classification_binary_cached<R>>(g); }
VP_TESTM(observer_one_hot, 2, 40) { observer<eval_classification_one_hot_cached<R>>(g); }
VP_TESTM(observer_binary, 2, 40) { observer<eval_classification_binary_cached<R>>(g); }
VP_TESTM(confusion_matrix, 1, 40) {
	typedef utils::ConfusionMtx<R> C; int k = gsz(g, 1, 4); std::vector<C> cs((size_t)k); double t[4] = {}; // TN FN FP TP
	for (auto& c : cs) { c.clear(); int n = gsz(g, 0, 12); for (int i = 0; i < n; i++) { bool y = g.b(), p = g.b(); c.update(y, p); t[p * 2 + y] += 1; } }
	bool huge = g.b(1, 2); if (huge) { int mag = gsz(g, 4, 28); double v[4]; for (auto& x : v) x = (double)g.raw(1ull << mag); cs[0].trueNegCnt() += (vec_len_t)v[0]; cs[0].falseNegCnt() += (vec_len_t)v[1]; cs[0].falsePosCnt() += (vec_len_t)v[2]; cs[0].truePosCnt() += (vec_len_t)v[3]; for (int i = 0; i < 4; i++) t[i] += v[i]; g.label("large counts"); }
	C c; c.clear(); if (g.b()) c.reduce(cs.data(), k); else for (auto& x : cs) c += x; C c2; c2 = c; VP_REQ(c2 == c, "assignment");
	double TN = t[0], FN = t[1], FP = t[2], TP = t[3]; g.say("TN FN FP TP", TN, FN, FP, TP); VP_REQ(c.TP() == TP && c.TN() == TN && c.FP() == FP && c.FN() == FN && c.truePosCnt() == TP && c.trueNegCnt() == TN && c.falsePosCnt() == FP && c.falseNegCnt() == FN, "counts ", c.TP(), " ", c.TN(), " ", c.FP(), " ", c.FN());
	VP_REQ(c.TotalPosCnt() == TP + FP && c.TotalNegCnt() == TN + FN && c.DataPosCnt() == TP + FN && c.DataNegCnt() == TN + FP && c.AllCnt() == TP + TN + FP + FN, "sums of counts");
	auto q = [&](const char* nm, double got, double num, double den) { if (den > 0) CLOSE(got, num / den, 1, 16, nm); };
	q("Sensitivity", c.Sensitivity(), TP, TP + FN); q("Recall", c.Recall(), TP, TP + FN); q("TPR", c.TPR(), TP, TP + FN); q("Specificity", c.Specificity(), TN, TN + FP); q("TNR", c.TNR(), TN, TN + FP); q("Precision", c.Precision(), TP, TP + FP); q("PPV", c.PPV(), TP, TP + FP); q("NPV", c.NPV(), TN, TN + FN); q("Accuracy", c.Accuracy(), TP + TN, TP + TN + FP + FN); q("Jaccard", c.Jaccard(), TP, TP + FP + FN); q("F1Score", c.F1Score(), 2 * TP, 2 * TP + FP + FN);
	double be = g.pick({ .5, 1., 2. }); q("FBetaScore", c.FBetaScore(R(be)), (1 + be * be) * TP, (1 + be * be) * TP + FP + be * be * FN);
	if (TP + FN > 0 && TN + FP > 0) CLOSE(c.Informedness(), TP / (TP + FN) + TN / (TN + FP) - 1, 1, 16, "Informedness"); if (TP + FP > 0 && TN + FN > 0) CLOSE(c.Markedness(), TP / (TP + FP) + TN / (TN + FN) - 1, 1, 16, "Markedness");
	double den = (TP + FP) * (TP + FN) * (TN + FP) * (TN + FN); CLOSE(c.MCC(), den > 0 ? (TP * TN - FP * FN) / std::sqrt(den) : 0, 1, 64, "MCC");
	C z = c; (void)z; c.clear(); VP_REQ(c.AllCnt() == 0 && c.TP() == 0, "clear()"); g.nontrivial(TP + TN + FP + FN > 1);
}
