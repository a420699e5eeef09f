// P12: the training loop does what its options say: train() histories against a step-wise re-execution of the recorded batches and
// a model of the reports, callbacks, stop conditions and error codes.
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/interface/_i_inspector.h"
namespace {
struct TrRec { // what the callbacks saw (they must not throw: the first problem is kept as text)
	std::vector<std::string> obs, insp; std::string bad; std::vector<std::pair<VR, VR>> batches; std::vector<std::pair<int, int>> dims; bool inTrain = false, inReport = false; int seenTrainFprop = 0;
	template<class... A> void fail(A&&... a) { if (bad.empty()) { std::ostringstream o; (void)std::initializer_list<int>{ ((void)(o << a), 0)... }; bad = o.str(); } }
	template<class... A> void ev(std::vector<std::string>& v, A&&... a) { std::ostringstream o; (void)std::initializer_list<int>{ ((void)(o << a), 0)... }; v.push_back(o.str()); } };
static TrRec* RC = nullptr;
struct RecInsp : public inspector::_impl::_base<R> {
	void train_epochBegin(const numel_cnt_t e, const numel_cnt_t n)const noexcept { if (RC) RC->ev(RC->insp, "epoch ", e, " of ", n, " batches"); }
	void train_epochEnd()const noexcept { if (RC) RC->ev(RC->insp, "epoch end"); }
	void train_batchBegin(const numel_cnt_t b)const noexcept { if (RC) RC->ev(RC->insp, "batch ", b); }
	void train_batchEnd()const noexcept { if (RC) { RC->ev(RC->insp, "batch end"); RC->inTrain = false; } }
	void train_preFprop(const M& x)const noexcept { if (RC) { RC->inTrain = true; RC->batches.emplace_back(); RC->batches.back().first = snap(x); RC->dims.emplace_back((int)x.batch_size(), 0); if (x.bBatchInRow()) RC->fail("batch-in-row batch"); } }
	template<typename YT> void train_preBprop(const math::smatrix<YT>& y)const noexcept { if (RC) { if (RC->batches.empty()) { RC->fail("backward pass before forward pass"); return; } RC->batches.back().second = VR(y.data(), y.data() + y.numel()); RC->dims.back().second = (int)y.batch_size(); } }
	void train_preCalcError(const DataSetsId::data_set_id_t d)const noexcept { if (RC) { RC->ev(RC->insp, "loss of set ", d); RC->inReport = true; } }
	void train_postCalcError()const noexcept { if (RC) { RC->ev(RC->insp, "loss end"); RC->inReport = false; } }
	void fprop_begin(const layer_index_t, const M&, const bool tr) const noexcept { if (RC) { if (RC->inTrain && !RC->inReport && !tr) RC->fail("training forward pass runs in inference mode"); if (RC->inReport && tr) RC->fail("loss is calculated in training mode"); } }
};
}
#define VP_INSPECTOR RecInsp
#include "net.h"
#define VP_NAME2(a) "train.arch" #a VP_SUF
#define VP_NAME1(a) VP_NAME2(a)
namespace {
typedef _nnet_errs::ErrorCode EC;
struct Rep { int set; std::vector<std::pair<VR, VR>> parts; double loss; };
struct ObsState { Arch* A = nullptr; std::vector<LRef>* Ls = nullptr; const MD* X[2] = {}; const MD* Y[2] = {}; int F = 0; bool wild = false, failInit = false; int nin = 0; int pos = 0, set = -1; long double sum = 0; int parts = 0; bool full = true; std::vector<double> trainLoss; bool skipAct = false; double lastLoss[2] = {}; int maxF = 0; VR w0; int checked = 0; };
static ObsState OS;
static bool is_wild(const std::vector<LRef>& Ls) { for (auto& l : Ls) for (numel_cnt_t i = 0; i < l.n; i++) if (!(std::fabs(double(l.w[i])) < 20)) return true; return false; }
struct RecObs : public i_training_observer<R> {
	template<typename TD, typename CD> bool init(numel_cnt_t ep, TD&, const CD&)noexcept { RC->ev(RC->obs, "init ", ep); return !OS.failInit; }
	void deinit()noexcept { RC->ev(RC->obs, "deinit"); }
	void report_results_begin(const data_set_id_t d, const numel_cnt_t n)noexcept { (void)n; OS.set = (int)d; OS.pos = 0; OS.sum = 0; OS.parts = 0; if (d < 0 || d > 1) RC->fail("report of set ", d); else if (!OS.wild) OS.wild = is_wild(*OS.Ls); }
	template<typename YT, typename CD> void report_results(const numel_cnt_t bi, const M& act, const math::smatrix<YT>& y, const CD&)noexcept {
		auto& o = OS; if (o.set < 0 || o.set > 1) return; const MD& X = *o.X[o.set]; const MD& Y = *o.Y[o.set]; int n = (int)act.batch_size(), N = (int)X.batch_size(); if (bi != o.parts) RC->fail("report of batch ", bi, " instead of ", o.parts);
		if ((int)y.batch_size() != n || n < 1 || o.pos + n > N || n > o.maxF || (int)act.sample_size() != o.A->nout) { RC->fail("report of ", n, " results with ", y.batch_size(), " targets at position ", o.pos, " of ", N, ", forward size ", o.F); return; }
		MD sx((vec_len_t)n, (vec_len_t)o.nin, true); for (int i = 0; i < n; i++) { for (int j = 0; j < o.nin; j++) sx.set(i, j, X.get(o.pos + i, j)); for (int j = 0; j < o.A->nout; j++) if (!(y.get(i, j) == Y.get(o.pos + i, j))) RC->fail("reported target of sample ", o.pos + i, " of set ", o.set, " is ", y.get(i, j), " not ", Y.get(o.pos + i, j)); }
		if (!o.wild) { g_ambig = false; Mx e = o.A->ref(to_mx_nb(sx, o.nin)); if (!g_ambig) for (int i = 0; i < n; i++) for (int j = 0; j < e.c; j++) { o.checked++; if (!(fabsl(act.get(i, j) - e.at(i, j)) <= 2 * e.er(i, j) + 1e-30L)) RC->fail("reported result (", o.pos + i, ",", j, ") of set ", o.set, " is ", act.get(i, j), " expected ", (double)e.at(i, j)); } }
		for (int i = 0; i < n; i++) for (int j = 0; j < o.A->nout; j++) o.sum += o.A->loss(act.get(i, j), y.get(i, j));
		o.pos += n; o.parts++; }
	void report_results_end(const real_t lossVal)noexcept {
		auto& o = OS; if (o.set < 0 || o.set > 1) return; int N = (int)o.X[o.set]->batch_size(); if (o.pos != N) RC->fail("report of set ", o.set, " covers ", o.pos, " of ", N, " samples");
		long double e = o.sum / N, mag = 1 + fabsl(e); if (o.full) { for (auto& l : *o.Ls) e += l.pen(nullptr); if (o.A->actpen) { if (o.parts == 1) e += o.A->actpen(); else { e = lossVal; } } }
		if (!o.wild && !(fabsl(e - lossVal) <= (400 + 8 * N) * EPS * (mag + fabsl(e)))) RC->fail("loss of set ", o.set, " reported as ", lossVal, " in ", o.parts, " parts, expected ", (double)e);
		o.lastLoss[o.set] = lossVal; RC->ev(RC->obs, "report ", o.set); o.set = -1; }
	template<typename TD> void on_training_start(const TD&, vec_len_t b, vec_len_t f, numel_cnt_t np)noexcept { RC->ev(RC->obs, "start ", b, " ", f, " ", np); OS.F = (int)f; }
	void on_training_fragment_end(const numel_cnt_t e, const real_t tl, const real_t vl, const nanoseconds& t)noexcept { if (t.count() < 0) RC->fail("negative time"); if (!(tl == R(OS.lastLoss[0]) || tl != tl) || !(vl == R(OS.lastLoss[1]) || vl != vl)) RC->fail("fragment losses ", tl, ",", vl, " differ from the reported ", OS.lastLoss[0], ",", OS.lastLoss[1]); OS.trainLoss.push_back(tl); RC->ev(RC->obs, "fragment ", e); }
	void on_training_end(const nanoseconds&)noexcept { RC->ev(RC->obs, "end"); }
};
struct SegEpoch { int nb; std::vector<VR> w; double lrmul = 1; };
struct Seg { bool reinit; int F, B; std::vector<SegEpoch> ep; std::vector<std::pair<VR, VR>> batches; };
struct Optm { R mom; bool nest; template<class L> std::enable_if_t<nntl::layer_has_gradworks<L>::value> operator()(L& l) const { typedef std::decay_t<L> T; auto& gw = const_cast<T&>(l).get_gradWorks(); if (nest) gw.nesterov_momentum(mom); else gw.momentum(mom); } template<class L> std::enable_if_t<!nntl::layer_has_gradworks<L>::value> operator()(L&) const {} };
static std::string diff(const std::vector<std::string>& got, const std::vector<std::string>& exp, const char* what) { for (size_t i = 0; i < std::max(got.size(), exp.size()); i++) { std::string a = i < got.size() ? got[i] : "(nothing)", b = i < exp.size() ? exp[i] : "(nothing)"; if (a != b) return std::string(what) + ": event " + std::to_string(i) + " is '" + a + "' expected '" + b + "'"; } return ""; }
}
static void t_train(vp::Gen& g) {
	gen_math(g); const bool quiet = true; (void)quiet;
	arch_body(g, [&](auto& lp, Arch& A) {
		auto nn = make_nnet(lp); std::vector<LRef> Ls; std::vector<VR> W0; std::vector<Seg> segs; std::vector<double> lr0; bool first = true, reReq = false, wild = false; int steps = 0, reports = 0; int curF = 0, curB = 0; bool inited = false;
		g.label(A.name); double ws = g.pick({ .5, 1. }); R mom = R(g.pick({ 0., 0., .9, .5 })); bool nest = g.b(); lp.for_each_layer_exc_input(Optm{ mom, nest }); g.say(A.name, "momentum", double(mom), nest);
		int ntd = 1 + (int)g.raw(2); struct D { inmem_train_data<R> td; MD X[2], Y[2]; int n[2]; }; std::vector<std::unique_ptr<D>> ds;
		for (int k = 0; k < ntd; k++) { ds.emplace_back(new D); D& d = *ds.back(); for (int s = 0; s < 2; s++) { d.n[s] = gsz(g, 1, g.b(1, 4) ? 20 : 9); d.X[s].will_emulate_biases(); (void)d.X[s].resize(d.n[s], A.nin); d.Y[s].dont_emulate_biases(); (void)d.Y[s].resize(d.n[s], A.nout); gen_xy(A, d.X[s], d.Y[s], g.seed()); }
			auto cp = [](const MD& m) { MD r; if (m.emulatesBiases()) r.will_emulate_biases(); else r.dont_emulate_biases(); (void)r.resize(m.rows(), m.cols_no_bias()); std::copy(m.data(), m.data() + m.numel(), r.data()); return r; };
			MD a = cp(d.X[0]), b = cp(d.Y[0]), c = cp(d.X[1]), e = cp(d.Y[1]); VP_REQ(d.td.absorb(std::move(a), std::move(b), std::move(c), std::move(e)), "absorb"); g.say("data", d.n[0], d.n[1]); }
		TrRec rec; RC = &rec; struct Un { ~Un() { RC = nullptr; OS = ObsState(); } } un;
		int ops = gsz(g, 1, 4);
		for (int k = 0; k < ops; k++) {
			int op = first ? 0 : (int)g.raw(7); D& d = *ds[g.raw(ds.size())];
			if (op == 4) { MD X; X.will_emulate_biases(); int n = gsz(g, 1, 12); (void)X.resize(n, A.nin); MD Y(n, A.nout); gen_xy(A, X, Y, g.seed()); RC = nullptr; auto ec = nn.fprop(X); RC = &rec; VP_REQ((int)ec == 0, "fprop between trainings"); if (!inited || reReq || n > curF) { curF = n; curB = 0; reReq = false; } inited = true; g.label("inference in between");
				g_ambig = false; if (!wild) { Mx e = A.ref(to_mx_nb(X, A.nin)); if (!g_ambig) for (int i = 0; i < n; i++) for (int j = 0; j < e.c; j++) VP_REQ(fabsl(lp.output_layer().get_activations().get(i, j) - e.at(i, j)) <= 2 * e.er(i, j) + 1e-30L, "inference after training"); } continue; }
			if (op == 5) { int q = (int)g.raw(3); if (q == 0) { nn.deinit(); inited = false; curF = curB = 0; reReq = false; } else if (q == 1) { nn.require_reinit(); reReq = true; } else d.td.deinit4all(); g.label("deinit"); continue; }
			if (op == 6) { // refused calls
				nnet_train_opts<R, RecObs> opts(2); rec.obs.clear(); rec.insp.clear(); int q = (int)g.raw(3); EC ec, ex; auto W = save_w(Ls); inmem_train_data<R> t2;
				if (q == 0) { ex = EC::InvalidTD; ec = nn.train(t2, opts); }
				else { int xw = A.nin + (q == 1 ? 1 : 0), yw = A.nout + (q == 2 ? 1 : 0); MD a(2, xw, true), b(2, yw), c(2, xw, true), e(2, yw); a.zeros(); b.zeros(); c.zeros(); e.zeros(); (void)a.set_biases(); (void)c.set_biases(); VP_REQ(t2.absorb(std::move(a), std::move(b), std::move(c), std::move(e)), "absorb"); ex = q == 1 ? EC::InvalidInputLayerNeuronsCount : EC::InvalidOutputLayerNeuronsCount; ec = nn.train(t2, opts); }
				VP_REQ(ec == ex && nn.get_last_error() == ex, "train() with unsuitable data returned ", (int)ec, " (last error ", (int)nn.get_last_error(), ") expected ", (int)ex); VP_REQ(rec.obs.empty() && rec.insp.empty() && save_w(Ls) == W, "refused train() did something"); g.label("refused data"); continue; }
			// a training call
			int maxEp = gsz(g, 1, 5); int sk = (int)g.raw(3); std::vector<bool> sched(maxEp, false); std::unique_ptr<nnet_train_opts<R, RecObs>> po; typedef nnet_train_opts<R, RecObs> O;
			if (sk == 0) { bool v = g.b(); po.reset(new O(maxEp, v)); std::fill(sched.begin(), sched.end(), v); } else if (sk == 1) { int st = gsz(g, 1, maxEp); po.reset(new O((numel_cnt_t)maxEp, (numel_cnt_t)st)); for (int e = st; e <= maxEp; e += st) sched[e - 1] = true; } else { int a = gsz(g, 1, maxEp), st = gsz(g, 1, 3); po.reset(new O((numel_cnt_t)maxEp, (numel_cnt_t)a, (numel_cnt_t)st)); for (int e = a; e <= maxEp; e += st) sched[e - 1] = true; }
			sched[maxEp - 1] = true; if (g.b(1, 4)) { int a = gsz(g, 1, maxEp), b = gsz(g, a, maxEp); bool v = g.b(); if (v) po->getCondEpochEval().verbose(a, b); else po->getCondEpochEval().silence(a, b); for (int e = a; e <= b; e++) sched[e - 1] = v; }
			O& opts = *po; int big = std::max(d.n[0], d.n[1]); int B = g.b(1, 4) ? 0 : gsz(g, 1, d.n[0] + (g.b(1, 6) ? 3 : 0)), F = B == 0 || g.b(1, 3) ? 0 : gsz(g, B, std::max(B, big + 1)); opts.batchSize(B); if (F) opts.maxFpropSize(F);
			int dl = (int)g.pick({ 5, 0, 1, 2, -2 }); double thr = g.pick({ 1e5, 1e5, .7, 1.2, .05 }); if (dl < 0) opts.noDivergenceCheck(); else opts.divergenceCheckLastEpoch((int16_t)dl); opts.divergenceCheckThreshold(R(thr));
			bool full = g.b(2, 3), imm = g.b(1, 4), tonly = g.b(1, 5), force = g.b(2, 3); opts.calcFullLossValue(full).ImmediatelyDeinit(imm).bReportOnlyTime(tonly).bForceReinitTD(force);
			int stopAt = g.b(1, 4) ? gsz(g, 0, maxEp - 1) : -1, cbOp = (int)g.raw(4); int initErr = g.b(1, 10); bool obsErr = g.b(1, 12); double lrmul = g.b(1, 3) ? .5 : 1;
			g.say("train: epochs", maxEp, "batch", B, "fwd", F, "of", d.n[0], d.n[1], "div", dl, thr, full ? "full" : "main", imm ? "deinit" : "keep", tonly ? "timeonly" : "", force ? "force" : "noforce", "stop", stopAt, "cb", cbOp);
			// expected sizes
			vec_len_t qf = F, qb = B; bool qm = false; int eF, eB; if (!force && d.td.is_initialized4train(qf, qb, qm)) { VP_REQ((F == 0 || (int)qf == F) && (B == 0 || (int)qb == B), "initialised data changes the requested sizes"); eF = (int)qf; eB = (int)qb; g.label("data kept initialised"); }
			else { eF = F == 0 || F > big ? big : F; eB = B == 0 || B > d.n[0] ? d.n[0] : B; }
			Seg sg; sg.reinit = !inited || reReq || eF > curF || eB > curB; sg.F = eF; sg.B = eB; g.labelif(!sg.reinit && eB < curB, "smaller batch than initialised"); g.labelif(sg.reinit && !first, "re-initialised");
			if (sg.reinit) { curF = eF; curB = eB; reReq = false; } inited = true;
			rec.obs.clear(); rec.insp.clear(); rec.batches.clear(); rec.dims.clear(); rec.inTrain = rec.inReport = false; OS = ObsState(); OS.A = &A; OS.Ls = &Ls; OS.nin = A.nin; OS.full = full; OS.failInit = obsErr; OS.wild = wild; OS.maxF = std::max(curF, eF); for (int s = 0; s < 2; s++) { OS.X[s] = &d.X[s]; OS.Y[s] = &d.Y[s]; }
			std::vector<int> cbEpochs; bool initCalled = false; size_t mark = 0;
			auto ec = nn.template train<false>(d.td, opts, [&](numel_cnt_t e) noexcept -> bool {
				cbEpochs.push_back((int)e); rec.ev(rec.obs, "epoch callback ", e); SegEpoch se; se.nb = (int)(rec.batches.size() - mark); mark = rec.batches.size(); se.w = save_w(Ls); se.lrmul = lrmul; sg.ep.push_back(se); if (lrmul != 1) for (auto& l : Ls) l.setlr(l.lr() * lrmul);
				if (cbOp == 1) { RC = nullptr; MD X((vec_len_t)std::max(1, eF / 2), A.nin, true), Y((vec_len_t)std::max(1, eF / 2), A.nout); gen_xy(A, X, Y, 77 + (uint64_t)e); (void)nn.fprop(X); RC = &rec; }
				else if (cbOp == 2) { struct Q : public training_observer_silent<R> {} q; RC = nullptr; (void)nn.calcLossAndReport(d.td, 1, q); RC = &rec; }
				return (int)e != stopAt; },
				[&]() noexcept -> EC { initCalled = true; Ls = learnables(lp); if (first) { rnd_weights(Ls, 12345 + (uint64_t)ops, ws); for (auto& l : Ls) if (l.lr() > .1) l.setlr(.1); W0 = save_w(Ls); for (auto& l : Ls) lr0.push_back(l.lr()); first = false; } OS.w0 = VR(); rec.ev(rec.obs, "init callback"); return initErr ? EC::CantInitializeIRng : EC::Success; });
			g.labelif(cbOp == 1 || cbOp == 2, "inference in the epoch callback");
			if (!rec.bad.empty()) vp::fail(A.name, ": ", rec.bad);
			VP_REQ(initCalled, "train() returned ", (int)ec, " before calling the initialisation callback: ", nn.get_last_error_string());
			// model of the call
			std::vector<std::string> xo, xi; EC xec = EC::Success; auto add = [](std::vector<std::string>& v, auto... a) { std::ostringstream o; (void)std::initializer_list<int>{ ((void)(o << a), 0)... }; v.push_back(o.str()); };
			numel_cnt_t np = 0; for (auto& l : Ls) if (l.upd) np += l.n; int doneEp = 0; size_t li = 0; auto rep = [&](int e) { for (int s = 0; s < 2; s++) { add(xi, "loss of set ", s); add(xi, "loss end"); add(xo, "report ", s); } add(xo, "fragment ", e); reports++; return li < OS.trainLoss.size() ? OS.trainLoss[li++] : 0.; };
			add(xo, "init callback");
			if (initErr) xec = EC::CantInitializeIRng; else { add(xo, "init ", maxEp);
				if (obsErr) xec = EC::CantInitializeObserver; else {
					add(xo, "start ", eB, " ", eF, " ", np); rep(-1); bool ended = false; int nb = d.n[0] / eB;
					for (int e = 0; e < maxEp && !ended; e++) { add(xi, "epoch ", e, " of ", nb, " batches"); for (int b = 0; b < nb; b++) { add(xi, "batch ", b); add(xi, "batch end"); } doneEp++;
						bool dv = e < dl; if (sched[e] || dv) { if (!(tonly && !dv)) { double tl = rep(e); if (dv && R(tl) >= R(thr)) { xec = EC::NNDiverged; ended = true; g.label("stopped as diverged"); break; } } }
						add(xi, "epoch end"); add(xo, "epoch callback ", e); if (e == stopAt) { ended = true; g.label("stopped by callback"); } }
					if (xec == EC::Success && !tonly) add(xo, "end"); add(xo, "deinit"); } }
			VP_REQ(ec == xec && nn.get_last_error() == xec, A.name, ": train() returned ", (int)ec, " expected ", (int)xec);
			std::string df = diff(rec.obs, xo, "observer and callbacks"); if (!df.empty()) vp::fail(A.name, ": ", df); df = diff(rec.insp, xi, "inspector"); if (!df.empty()) vp::fail(A.name, ": ", df);
			// the batches: right size, every row a stored training sample with its target, no sample twice in an epoch
			int nb = d.n[0] / eB; VP_REQ((int)rec.batches.size() == doneEp * nb, A.name, ": ", rec.batches.size(), " training steps in ", doneEp, " epochs of ", nb);
			for (size_t i = 0; i < rec.batches.size(); i++) { VP_REQ(rec.dims[i].first == eB && rec.dims[i].second == eB, A.name, ": training step ", i, " uses a batch of ", rec.dims[i].first, "/", rec.dims[i].second, " instead of ", eB); }
			for (int e = 0; e < doneEp; e++) { std::vector<bool> used(d.n[0], false); for (int b = 0; b < nb; b++) { auto& bt = rec.batches[(size_t)e * nb + b]; for (int r = 0; r < eB; r++) { int f = -1; for (int q = 0; q < d.n[0] && f < 0; q++) { if (used[q]) continue; bool m = true; for (int j = 0; j <= A.nin && m; j++) m = bt.first[(size_t)j * eB + r] == (j == A.nin ? R(1) : d.X[0].get(q, j)); for (int j = 0; j < A.nout && m; j++) m = bt.second[(size_t)j * eB + r] == d.Y[0].get(q, j); if (m) f = q; } VP_REQ(f >= 0, A.name, ": epoch ", e, " batch ", b, " row ", r, " is not an unused training sample with its target"); used[f] = true; } } }
			steps += (int)rec.batches.size(); sg.batches = rec.batches; if ((int)sg.ep.size() < doneEp) { SegEpoch se; se.nb = nb; se.w = save_w(Ls); sg.ep.push_back(se); } // diverged: no callback
			wild = wild || OS.wild || is_wild(Ls); segs.push_back(sg); OS.w0.clear();
			if (imm) { inited = false; curF = curB = 0; reReq = false; VP_REQ(!nn.is_initialized(1, 0), "ImmediatelyDeinit() left the network initialised"); vec_len_t z = 0; VP_REQ(!d.td.is_initialized4inference(z), "ImmediatelyDeinit() left the data initialised"); g.label("deinitialised at once"); }
			else VP_REQ(nn.is_initialized((vec_len_t)eF, (vec_len_t)eB), "the network is not initialised after train()");
			for (int s = 0; s < 2; s++) for (int i = 0; i < d.n[s]; i++) for (int j = 0; j < A.nin; j++) VP_REQ(d.td.X(s).get(i, j) == d.X[s].get(i, j), "training changed the data");
			if (wild) { g.label("exploded"); break; }
		}
		int chk = OS.checked; (void)chk;
		// re-execute step by step
		if (!A.stoch && !wild && !segs.empty()) {
			RC = nullptr; nn.deinit(); bool f1 = true; long cmp = 0;
			for (size_t s = 0; s < segs.size(); s++) { Seg& q = segs[s]; if (q.reinit || f1) { nn.deinit(); VP_REQ((int)nn.___init((vec_len_t)q.F, (vec_len_t)q.B, false) == 0, "init"); Ls = learnables(lp); } if (f1) { load_w(Ls, W0); for (size_t i = 0; i < Ls.size(); i++) Ls[i].setlr(lr0[i]); f1 = false; }
				size_t bi = 0; for (size_t e = 0; e < q.ep.size(); e++) { for (int b = 0; b < q.ep[e].nb; b++, bi++) { MD X((vec_len_t)q.B, A.nin, true), Y((vec_len_t)q.B, A.nout); std::copy(q.batches[bi].first.begin(), q.batches[bi].first.end(), X.data()); std::copy(q.batches[bi].second.begin(), q.batches[bi].second.end(), Y.data());
						nn.___get_common_data().set_mode_and_batch_size(true, (vec_len_t)q.B); lp.on_batch_size_change((vec_len_t)q.B); lp.fprop(X); lp.bprop(Y); }
					double tol = sizeof(R) == 8 ? 1e-8 : 2e-2; for (size_t i = 0; i < Ls.size(); i++) for (numel_cnt_t j = 0; j < Ls[i].n; j++) { cmp++; double a = q.ep[e].w[i][j], x = Ls[i].w[j]; if (!(std::fabs(a - x) <= tol * (1 + std::fabs(x)))) vp::fail(A.name, ": after epoch ", e, " of training ", s, " weight ", j, " of layer ", Ls[i].name, " is ", a, "; the same batches step by step give ", x); }
					if (q.ep[e].lrmul != 1) for (auto& l : Ls) l.setlr(l.lr() * q.ep[e].lrmul); } }
			g.labelif(cmp > 0 && mom != 0, "momentum"); g.labelif(segs.size() > 1, "repeated training"); }
		if (g.b(1, 3)) { // the silent observer and the default options
			D& d = *ds[0]; typedef nnet_train_opts<R, training_observer_silent<R>> O; int maxEp = gsz(g, 1, 7); O opts((numel_cnt_t)maxEp); int B = g.b() ? 0 : gsz(g, 1, d.n[0]), dl = (int)g.pick({ 5, 5, 0, 2 }); opts.batchSize(B); if (dl != 5) opts.divergenceCheckLastEpoch((int16_t)dl); opts.divergenceCheckThreshold(std::numeric_limits<R>::max()); bool tonly = true; if (g.b(1, 3)) { tonly = false; opts.bReportOnlyTime(false); }
			RC = &rec; rec.obs.clear(); rec.insp.clear(); rec.batches.clear(); rec.dims.clear(); rec.bad.clear(); rec.inTrain = rec.inReport = false; int cb = 0; std::ostringstream os; struct Cp { std::streambuf* b; ~Cp() { std::cout.rdbuf(b); } }; EC ec; { Cp c{ std::cout.rdbuf(os.rdbuf()) }; ec = nn.template train<false>(d.td, opts, [&](numel_cnt_t e) noexcept { if (e != cb) rec.fail("epoch callback ", e); cb++; return true; }); } RC = nullptr; bool inf = false; (void)inf;
			if (ec != EC::NNDiverged) { VP_REQ(ec == EC::Success, A.name, ": silent training returned ", (int)ec); VP_REQ(rec.bad.empty(), A.name, ": ", rec.bad); int eB = B == 0 ? d.n[0] : B, nb = d.n[0] / eB; std::vector<std::string> xi; auto rep = [&]() { for (int s = 0; s < 2; s++) { xi.push_back("loss of set " + std::to_string(s)); xi.push_back("loss end"); } };
				rep(); for (int e = 0; e < maxEp; e++) { xi.push_back("epoch " + std::to_string(e) + " of " + std::to_string(nb) + " batches"); for (int b = 0; b < nb; b++) { xi.push_back("batch " + std::to_string(b)); xi.push_back("batch end"); } if (e < dl || !tonly) rep(); xi.push_back("epoch end"); }
				std::string df = diff(rec.insp, xi, "silent training"); if (!df.empty()) vp::fail(A.name, ": ", df); VP_REQ(cb == maxEp, "epoch callbacks"); g.label("silent observer"); } }
		g.nontrivial(steps > 0 && reports > 1);
	});
}
static vp::Reg reg_train(VP_NAME1(VP_ARCH), 1, 60, t_train, 60, false);
