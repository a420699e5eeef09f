// P11: training data objects hand out exactly the stored samples: histories of init / epochs / walks over in-memory and transformed
// data against a model that only knows the stored matrices and the requested sizes.
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/train_data/transf_train_data.h"
#include "nntl/utils/dataHolder.h"
#include "trf.h"
namespace {
typedef DataSetsId::data_set_id_t dsid;
struct HRng { vp::Rnd r; ptrdiff_t operator()(ptrdiff_t n) { return (ptrdiff_t)r.below((uint64_t)n); } };
struct HCD { Math* m; HRng* r; vec_len_t bs; Math& iMath()const { return *m; } Math& get_iMath()const { return *m; } HRng& iRng()const { return *r; } HRng& get_iRng()const { return *r; } vec_len_t input_batch_size()const { return bs; } };
typedef _nnet_errs::ErrorCode EC;
static int tsz(vp::Gen& g, int lo, int hi) { return (int)g.z((size_t)lo, (size_t)hi); }
template<class T> static void mkset(math::smatrix_deform<T>& m, int set, int n, int w, bool bias, int sgn) { if (bias) m.will_emulate_biases(); else m.dont_emulate_biases(); if (!m.resize((vec_len_t)n, (vec_len_t)w)) vp::fail("resize"); for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) m.set((vec_len_t)i, (vec_len_t)j, T(sgn * code(set, i, j))); }
// decode a row of a batch, all of it; returns the sample index
template<class T> static int sample_of(const math::smatrix<T>& m, int i, int set, int w, int sgn, int n, const char* what) {
	int c0 = (int)(sgn * (double)el(m, i, 0)) - 1; int idx = (c0 / 16) % 64; VP_REQ(c0 >= 0 && c0 % 16 == 0 && c0 / 16 / 64 == set && idx < n, what, ": row ", i, " starts with ", el(m, i, 0), " which is not the beginning of a sample of set ", set);
	for (int j = 1; j < w; j++) VP_REQ(el(m, i, j) == T(sgn * code(set, idx, j)), what, ": row ", i, " column ", j, " is ", el(m, i, j), ", expected ", sgn * code(set, idx, j)); return idx; }
template<class T> static void chk_dims(const math::smatrix<T>& m, int n, int w, bool bias, const char* what) {
	VP_REQ((int)m.batch_size() == n && (int)m.sample_size() == w && m.emulatesBiases() == bias, what, ": batch is ", m.batch_size(), "x", m.sample_size(), " bias ", m.emulatesBiases(), " expected ", n, "x", w);
	if (bias) for (int i = 0; i < n; i++) VP_REQ(el(m, i, w) == T(1), what, ": bias of sample ", i, " is ", el(m, i, w)); }
// checks one row of derived data (k==1 for in-memory objects); returns derived index idx*k+s
template<class T> static int derived_of(const math::smatrix<T>& m, int i, int set, int w, int sgn, int n, int k, const char* what) {
	if (k == 1) return sample_of(m, i, set, w, sgn, n, what);
	int v = (int)(sgn * (double)el(m, i, 0)) - 1, s = v / 4096; VP_REQ(v >= 0 && s < k, what, ": row ", i, " starts with ", el(m, i, 0)); v -= s * 4096; int idx = (v / 16) % 64; VP_REQ(v % 16 == 0 && v / 1024 == set && idx < n, what, ": row ", i, " starts with ", el(m, i, 0), ", not a sample of set ", set);
	for (int j = 0; j < w; j++) VP_REQ(el(m, i, j) == T(sgn * (code(set, idx, j) + 4096 * s)), what, ": row ", i, " column ", j, " is ", el(m, i, j)); return idx * k + s; }

template<class TD> static void history(vp::Gen& g, Math& m, TD& td, const int n[2], int xw, int yw, int k, const std::function<const char*()>& bad, const std::function<void()>& unchanged) {
	HRng hr{ vp::Rnd(g.seed()) }; HCD cd{ &m, &hr, 1 }; int f = 0, b = 0; bool train = false, any = false; const int N[2] = { n[0] * k, n[1] * k }, big = std::max(N[0], N[1]);
	auto ask = [&](int mx) { int q = (int)g.raw(6); return q == 0 ? 0 : q == 1 ? mx : q == 2 ? mx + k * tsz(g, 1, 3) : k * tsz(g, 1, std::max(1, mx / k)); };
	auto ck = [&] { if (bad()) vp::fail(bad()); };
	VP_REQ((int)td.xWidth() == xw && (int)td.yWidth() == yw && td.datasets_count() == 2 && td.trainset_samples_count() == N[0] && td.testset_samples_count() == N[1] && td.isSuitableForOutputOf((neurons_count_t)yw) && !td.isSuitableForOutputOf((neurons_count_t)(yw + 1)), "sizes reported by the data object");
	int ops = tsz(g, 2, 8), used = 0;
	for (int o = 0; o < ops; o++) {
		int op = f == 0 ? (int)g.raw(2) : (int)g.raw(9);
		if (op == 0) { // training
			vec_len_t F = (vec_len_t)ask(big), B = (vec_len_t)ask(N[0]); int ef = F <= 0 || F > big ? big : (int)F, eb = B <= 0 || B > N[0] ? N[0] : (int)B; vec_len_t F0 = F, B0 = B; bool mb = !(eb < N[0]);
			EC ec = td.init4train(m, F, B, &mb);
			if (eb > ef) { VP_REQ(ec == EC::InvalidBatchSize2MaxFPropSizeRelation, "init4train(", F0, ",", B0, ") with a batch bigger than the forward size returned ", (int)ec); f = b = 0; train = false; vec_len_t z = 0; VP_REQ(!td.is_initialized4inference(z), "failed initialisation leaves the object initialised"); g.label("rejected sizes"); }
			else { VP_REQ(ec == EC::Success && (int)F == ef && (int)B == eb && mb == (eb < N[0]), "init4train(", F0, ",", B0, ") returned ", (int)ec, " sizes ", F, ",", B, " mini-batch ", mb, " expected ", ef, ",", eb); f = ef; b = eb; train = true; g.labelif(mb, "mini-batches"); g.labelif(f < big, "partial forward size"); } }
		else if (op == 1) { vec_len_t F = (vec_len_t)ask(big); int ef = F <= 0 || F > big ? big : (int)F; EC ec = td.init4inference(m, F); VP_REQ(ec == EC::Success && (int)F == ef, "init4inference returned ", (int)ec, " size ", F, " expected ", ef); f = ef; b = 0; train = false; g.label("inference only"); }
		else if (op == 2) { td.deinit4all(); f = b = 0; train = false; vec_len_t z = 0; VP_REQ(!td.is_initialized4inference(z), "deinit4all() leaves the object initialised"); }
		else if (op == 3) { // size queries: a refusal leaves the arguments alone, an acceptance keeps what was asked for and fits the initialisation
			vec_len_t F = (vec_len_t)ask(big), B = (vec_len_t)ask(N[0]), F0 = F, B0 = B; bool mb = true; bool r = td.is_initialized4train(F, B, mb); g.label(r ? "query accepted" : "query refused");
			if (!r) VP_REQ(F == F0 && B == B0, "is_initialized4train(", F0, ",", B0, ") refuses but changes its arguments to ", F, ",", B);
			else VP_REQ(train && (int)F == (F0 ? (int)F0 : f) && (int)B == (B0 ? (int)B0 : b) && B <= F && (int)F <= f && (int)B <= b, "is_initialized4train(", F0, ",", B0, ") accepts as ", F, ",", B, " when initialised for ", f, ",", b);
			if (r) VP_REQ(mb == (b < N[0]) || (int)B < b, "is_initialized4train(", F0, ",", B0, "): mini-batch flag ", mb);
			F = F0; bool ri = td.is_initialized4inference(F); if (!ri) VP_REQ(F == F0 && (int)F0 != f && F0 != 0, "is_initialized4inference(", F0, ") refuses, argument becomes ", F, " when initialised for ", f); else VP_REQ((int)F == (F0 ? (int)F0 : f) && (int)F <= f, "is_initialized4inference(", F0, ") accepts as ", F, " when initialised for ", f); }
		else if (op <= 5 && train) { // an epoch
			int t = b; if (b > k && g.b()) { int c = k * tsz(g, 1, b / k); vec_len_t F = (vec_len_t)(g.b() ? 0 : f), B = (vec_len_t)c; bool mb = false; if (td.is_initialized4train(F, B, mb)) { VP_REQ((int)B == c && (int)F == f, "is_initialized4train() changed ", c, " to ", B, " or the forward size to ", F); t = c; g.labelif(t < b, "smaller batch"); VP_REQ(mb == (t < N[0]) || t == b, "is_initialized4train(): mini-batch flag ", mb, " for ", t, " of ", N[0]); } }
			vec_len_t arg = (vec_len_t)t; int q = (int)g.raw(3); if (q == 0) { arg = 0; cd.bs = (vec_len_t)t; } else { cd.bs = 1; if (q == 1 && t == b) arg = -1; }
			numel_cnt_t nb = td.on_next_epoch(o, cd, arg); ck(); VP_REQ(nb == N[0] / t, "on_next_epoch: ", nb, " batches of ", t, " for ", N[0], " samples"); int lim = g.b(1, 5) ? tsz(g, 0, (int)nb) : (int)nb; std::set<int> seen;
			for (int bi = 0; bi < lim; bi++) { td.on_next_batch(bi, cd); ck(); const auto& X = td.batchX(); const auto& Y = td.batchY(); chk_dims(X, t, xw, true, "training batch X"); chk_dims(Y, t, yw, false, "training batch Y");
				for (int i = 0; i < t; i++) { int sx = derived_of(X, i, 0, xw, 1, n[0], k, "training batch X"), sy = derived_of(Y, i, 0, yw, -1, n[0], k, "training batch Y"); VP_REQ(sx == sy, "training batch ", bi, " row ", i, " pairs X of sample ", sx, " with Y of sample ", sy); VP_REQ(seen.insert(sx).second, "sample ", sx, " given twice in an epoch"); } }
			if (lim == (int)nb) used++; any = any || lim > 0; }
		else { // a walk
			int t = f; if (f > k && g.b()) { int c = k * tsz(g, 1, f / k); vec_len_t B = (vec_len_t)c; if (td.is_initialized4inference(B)) { VP_REQ((int)B == c, "is_initialized4inference() changed the size"); t = c; g.labelif(t < f, "smaller walk"); } }
			vec_len_t arg = (vec_len_t)t; int q = (int)g.raw(3); if (q == 0) { arg = 0; cd.bs = (vec_len_t)t; } else { cd.bs = 1; if (q == 1 && t == f) arg = -1; }
			int set = (int)g.raw(2); unsigned ex = g.b(1, 4) ? td.flag_exclude_dataX : g.b(1, 4) ? td.flag_exclude_dataY : td.flag_exclude_nothing; numel_cnt_t nb = td.walk_over_set(set, cd, arg, ex); ck(); int pos = 0; bool stop = g.b(1, 6);
			VP_REQ(nb == (N[set] + std::min(t, N[set]) - 1) / std::min(t, N[set]), "walk_over_set: ", nb, " batches of ", t, " announced for ", N[set], " samples");
			for (int bi = 0; bi < (int)nb && !(stop && bi > 0); bi++) { td.next_subset(bi, cd); ck(); int e = std::min(t, N[set] - pos);
				if (ex != td.flag_exclude_dataX) { chk_dims(td.batchX(), e, xw, true, "walk X"); for (int i = 0; i < e; i++) { int s = derived_of(td.batchX(), i, set, xw, 1, n[set], k, "walk X"); VP_REQ(s == pos + i, "walk: X row ", i, " of batch ", bi, " is sample ", s, " expected ", pos + i); } }
				if (ex != td.flag_exclude_dataY) { chk_dims(td.batchY(), e, yw, false, "walk Y"); for (int i = 0; i < e; i++) { int s = derived_of(td.batchY(), i, set, yw, -1, n[set], k, "walk Y"); VP_REQ(s == pos + i, "walk: Y row ", i, " of batch ", bi, " is sample ", s, " expected ", pos + i); } }
				pos += e; }
			if (!stop) { VP_REQ(pos == N[set], "a walk over set ", set, " covered ", pos, " of ", N[set], " samples"); used++; } any = true; g.labelif(nb > 1, "walk in several batches"); }
		unchanged();
	}
	g.nontrivial(used > 0 && any);
}
template<class YT> static void t_inmem(vp::Gen& g) {
	auto& m = gen_math(g); int n[2] = { tsz(g, 1, g.b(1, 4) ? 50 : 12), tsz(g, 1, g.b(1, 4) ? 50 : 12) }, xw = tsz(g, 1, 6), yw = tsz(g, 1, 4); bool xr = g.b(1, 3), yr = g.b(1, 3); g.say("train", n[0], "test", n[1], "x", xw, "y", yw, xr ? "x in rows" : "", yr ? "y in rows" : "");
	inmem_train_data<R, YT> td; MD tx, vx; math::smatrix_deform<YT> ty, vy; mkset(tx, 0, n[0], xw, true, 1); mkset(ty, 0, n[0], yw, false, -1); mkset(vx, 1, n[1], xw, true, 1); mkset(vy, 1, n[1], yw, false, -1);
	VP_REQ(td.empty(), "new object is not empty"); VP_REQ(td.absorb(std::move(tx), std::move(ty), std::move(vx), std::move(vy)), "absorb() of consistent data failed"); VP_REQ(!td.empty(), "empty after absorb()");
	if (xr) td.template transposeX<Math>(); if (yr) td.template transposeY<Math>(); if (xr) g.label("x in rows"); if (yr) g.label("y in rows");
	VP_REQ(td.X(0).bBatchInRow() == xr && td.Y(1).bBatchInRow() == yr, "layout after transposition");
	auto unchanged = [&] { for (int s = 0; s < 2; s++) { chk_dims(td.X(s), n[s], xw, true, "stored X"); chk_dims(td.Y(s), n[s], yw, false, "stored Y"); for (int i = 0; i < n[s]; i++) { VP_REQ(sample_of(td.X(s), i, s, xw, 1, n[s], "stored X") == i, "stored X reordered"); VP_REQ(sample_of(td.Y(s), i, s, yw, -1, n[s], "stored Y") == i, "stored Y reordered"); } } };
	history(g, m, td, n, xw, yw, 1, [] { return (const char*)nullptr; }, unchanged);
}
}
VP_TESTM(inmem, 3, 60) { t_inmem<R>(g); }
VP_TESTM(inmem_int_targets, 1, 60) { t_inmem<int>(g); }
VP_TESTM(transformed, 2, 60) {
	auto& m = gen_math(g); int n[2] = { tsz(g, 1, 12), tsz(g, 1, 12) }, xw = tsz(g, 1, 6), yw = tsz(g, 1, 4), k = tsz(g, 1, 4); g.say("train", n[0], "test", n[1], "x", xw, "y", yw, "per sample", k);
	inmem_train_data_stor<R, R> st; MD tx, vx, ty, vy; mkset(tx, 0, n[0], xw, true, 1); mkset(ty, 0, n[0], yw, false, -1); mkset(vx, 1, n[1], xw, true, 1); mkset(vy, 1, n[1], yw, false, -1); VP_REQ(st.absorb(std::move(tx), std::move(ty), std::move(vx), std::move(vy)), "absorb() failed");
	Trf tf(k); transf_train_data<Trf> td(tf, st); VP_REQ(td.base_trainset_samples_count() == n[0] && td.base_testset_samples_count() == n[1] && !td.empty(), "base sizes");
	if (k > 1) { vec_len_t F = (vec_len_t)(k * n[0] + 1), B = (vec_len_t)k; bool mb; EC ec = td.init4train(m, F, B, &mb); VP_REQ(ec == EC::OtherTdInitError, "a forward size that is not a multiple of the derived samples per base sample was accepted"); F = (vec_len_t)k; B = 1; ec = td.init4train(m, F, B, &mb); VP_REQ(ec == EC::OtherTdInitError, "a batch size that is not a multiple of the derived samples per base sample was accepted"); }
	history(g, m, td, n, xw, yw, k, [&] { return tf.bad; }, [] {});
}
VP_TESTM(storage, 1, 60) {
	gen_math(g); auto gen = [&](int& n, MD& x, MD& y, int set, int xw, int yw) { mkset(x, set, n, xw, true, 1); mkset(y, set, n, yw, false, -1); };
	int n[2] = { tsz(g, 1, 8), tsz(g, 1, 8) }, xw = tsz(g, 1, 5), yw = tsz(g, 1, 4); inmem_train_data_stor<R, R> st; MD tx, vx, ty, vy; gen(n[0], tx, ty, 0, xw, yw); gen(n[1], vx, vy, 1, xw, yw);
	int defect = (int)g.raw(10); VR ext; bool bad = true;
	switch (defect) { case 0: mkset(ty, 0, n[0] + 1, yw, false, -1); break; case 1: mkset(vy, 1, n[1] + 1, yw, false, -1); break; case 2: mkset(vx, 1, n[1], xw + 1, true, 1); break; case 3: mkset(vy, 1, n[1], yw + 1, false, -1); break; case 4: mkset(tx, 0, n[0], xw, false, 1); break; case 5: { MD q; mkset(q, 1, n[1], yw, true, -1); vy = std::move(q); break; } case 6: vx.clear(); break; case 7: ty.clear(); break;
	default: bad = false; }
	VP_REQ(st.absorbsion_will_succeed(tx, ty, vx, vy) == !bad, "absorbsion_will_succeed() for defect ", defect); bool r = st.absorb(std::move(tx), std::move(ty), std::move(vx), std::move(vy)); VP_REQ(r == !bad, "absorb() returned ", r, " for defect ", defect); g.label(bad ? "inconsistent data" : "consistent data"); g.nontrivial(true);
	if (bad) { VP_REQ(st.empty(), "a refused absorb() stored data"); return; }
	auto verify = [&](const inmem_train_data_stor<R, R>& s, const char* w, int ysgn = -1) { for (int q = 0; q < 2; q++) { chk_dims(s.X(q), n[q], xw, true, w); chk_dims(s.Y(q), n[q], yw, false, w); for (int i = 0; i < n[q]; i++) { VP_REQ(sample_of(s.X(q), i, q, xw, 1, n[q], w) == i, w); VP_REQ(sample_of(s.Y(q), i, q, yw, ysgn, n[q], w) == i, w); } } };
	verify(st, "absorbed data"); inmem_train_data_stor<R, R> d; VP_REQ(st.dupe(d), "dupe() failed"); verify(d, "copy"); verify(st, "original after dupe()"); VP_REQ(d == st, "copy differs from the original");
	{ int q = (int)g.raw(2); if (g.b()) { int i = tsz(g, 0, n[q] - 1), j = tsz(g, 0, xw - 1); auto& M_ = d.X_mutable(q); R o = M_.get(i, j); M_.set(i, j, R(o + 1)); VP_REQ(!(d == st), "a changed X does not show in operator=="); verify(st, "original after the copy changed"); M_.set(i, j, o); } else { int i = tsz(g, 0, n[q] - 1), j = tsz(g, 0, yw - 1); auto& M_ = d.Y_mutable(q); R o = M_.get(i, j); M_.set(i, j, R(o + 1)); VP_REQ(!(d == st), "a changed Y does not show in operator=="); verify(st, "original after the copy changed"); M_.set(i, j, o); } }
	{ MD a, b; int nn = n[0] + (g.b() ? 0 : 1), w2 = yw + (g.b(2, 3) ? 0 : 1); mkset(a, 0, nn, yw, false, 1); mkset(b, 1, n[1], w2, false, 1); bool ok = nn == n[0] && w2 == yw; VP_REQ(d.replace_Y_will_succeed(a, b) == ok, "replace_Y_will_succeed()"); VP_REQ(d.replace_Y(std::move(a), std::move(b)) == ok, "replace_Y()"); verify(d, "after replace_Y()", ok ? 1 : -1); }
	d.template transpose<Math>(); VP_REQ(d.samplesStorageCoherent() && d.X(0).bBatchInRow(), "layout after transpose()"); d.template transpose<Math>(); VP_REQ(d.X(0).bBatchInColumn(), "layout after two transpositions");
	for (int q = 0; q < 2; q++) for (int i = 0; i < n[q]; i++) VP_REQ(sample_of(d.X(q), i, q, xw, 1, n[q], "after two transpositions") == i, "order");
	inmem_train_data_stor<R, R> e; e.absorb(std::move(st)); verify(e, "moved data"); VP_REQ(st.empty(), "source of a move is not empty"); MD x1, y1, x2, y2; e.extract(x1, y1, x2, y2); VP_REQ(e.empty(), "extract() leaves data behind"); VP_REQ((int)x1.rows() == n[0] && (int)y2.rows() == n[1] && sample_of(x1, n[0] - 1, 0, xw, 1, n[0], "extracted") == n[0] - 1 && sample_of(y2, n[1] - 1, 1, yw, -1, n[1], "extracted") == n[1] - 1, "extracted data");
	e.absorb(std::move(st)); VP_REQ(e.empty(), "absorbing an empty storage must clear the destination");
	d.clear(); VP_REQ(d.empty(), "empty() after clear()"); for (int q = 0; q < 2; q++) VP_REQ(d.X(q).empty() && d.Y(q).empty(), "clear() leaves data of set ", q);
}
VP_TESTM(holder, 1, 60) {
	auto& m = gen_math(g); int n = tsz(g, 2, 20), xw = tsz(g, 1, 6), yw = tsz(g, 1, 4); bool hasy = g.b(3, 4); MD X, Y; mkset(X, 0, n, xw, true, 1); mkset(Y, 0, n, yw, false, -1); HRng r{ vp::Rnd(g.seed()) }; utils::dataHolder<R> h; int rounds = tsz(g, 1, 2);
	for (int q = 0; q < rounds; q++) { int mx = g.b(1, 3) ? 0 : tsz(g, 1, n - 1); h.init((vec_len_t)mx, X, hasy ? &Y : nullptr); VP_REQ(h.samplesCount() == n && (int)h.curBatchSize() == (mx ? mx : n), "sizes after init"); int steps = tsz(g, 1, 6), cur = mx ? mx : n;
		for (int s = 0; s < steps; s++) { if (g.b(1, 3)) { cur = mx ? (g.b(1, 5) ? n : tsz(g, 1, mx)) : n; h.prepareToBatchSize((vec_len_t)cur); }
			h.nextBatch(r, m); VP_REQ((int)h.curBatchSize() == cur, "batch size ", h.curBatchSize(), " expected ", cur); chk_dims(h.batchX(), cur, xw, true, "holder X"); if (hasy) chk_dims(h.batchY(), cur, yw, false, "holder Y"); std::set<int> seen;
			for (int i = 0; i < cur; i++) { int a = sample_of(h.batchX(), i, 0, xw, 1, n, "holder X"); VP_REQ(seen.insert(a).second, "sample ", a, " twice in a batch"); if (hasy) VP_REQ(sample_of(h.batchY(), i, 0, yw, -1, n, "holder Y") == a, "X/Y pairing"); if (cur < n) VP_REQ((int)h.curBatchIdxs()[i] == a, "curBatchIdxs() does not name the samples of the batch"); } }
		h.deinit(); for (int i = 0; i < n; i++) VP_REQ(sample_of(X, i, 0, xw, 1, n, "source data") == i, "source data changed"); }
	g.nontrivial(true);
}
VP_TESTM_T(shuffling, 1, 20, 60, false) { // every sample can appear at every position, none is preferred
	auto& m = gen_math(g); int n = tsz(g, 2, 5), b = tsz(g, 1, n - 1); inmem_train_data<R> td; MD tx, vx, ty, vy; mkset(tx, 0, n, 2, true, 1); mkset(ty, 0, n, 1, false, -1); mkset(vx, 1, 1, 2, true, 1); mkset(vy, 1, 1, 1, false, -1); VP_REQ(td.absorb(std::move(tx), std::move(ty), std::move(vx), std::move(vy)), "absorb");
	HRng hr{ vp::Rnd(g.seed()) }; HCD cd{ &m, &hr, (vec_len_t)b }; vec_len_t F = 0, B = (vec_len_t)b; bool mb; VP_REQ(td.init4train(m, F, B, &mb) == EC::Success, "init4train"); const int E = 1500; std::vector<std::vector<int>> c(n, std::vector<int>(n)); 
	for (int e = 0; e < E; e++) { int nb = (int)td.on_next_epoch(e, cd); for (int k = 0; k < nb; k++) { td.on_next_batch(k, cd); for (int i = 0; i < b; i++) c[k * b + i][sample_of(td.batchX(), i, 0, 2, 1, n, "X")]++; } }
	int P = n / b * b; double ex = double(E) / n, sd = std::sqrt(ex * (1 - 1.0 / n)); for (int p = 0; p < P; p++) for (int i = 0; i < n; i++) VP_REQ(std::fabs(c[p][i] - ex) < 7.5 * sd, "over ", E, " epochs sample ", i, " of ", n, " was at position ", p, " ", c[p][i], " times, expected about ", ex);
	g.nontrivial(true);
}
VP_TESTM(sequences, 1, 40) {
	seq_data<R> s; VP_REQ(s.is_clear() && s.empty(), "new storage is not empty"); int k = tsz(g, 1, 5); std::vector<vec_len_t> c; for (int i = 0; i < k; i++) c.push_back((vec_len_t)tsz(g, 1, 4)); auto c0 = c; VP_REQ(s._prealloc_classes(std::move(c)), "prealloc"); VP_REQ(s.get_class_seq_count() == c0, "class counts"); VP_REQ(s.empty() && !s.is_clear(), "storage without data counts as filled");
	std::vector<int> left(c0.begin(), c0.end()); std::set<void*> seen; int tot = 0; for (int v : left) tot += v; vp::Rnd r(g.seed());
	while (tot) { int q = (int)r.below((uint64_t)k + 1); auto* p = s._next_mtx_for_class((size_t)q); if (q == k || !left[q]) { VP_REQ(!p, "matrix handed out for a full or unknown class"); continue; } VP_REQ(p && p->empty() && seen.insert(p).second, "class ", q, " has ", left[q], " matrices left but none was given"); VP_REQ(s.empty(), "storage is complete too early"); p->resize((vec_len_t)(1 + r.below(3)), 2); left[q]--; tot--; }
	VP_REQ(!s.empty(), "completely filled storage counts as empty"); for (int q = 0; q < k; q++) VP_REQ(!s._next_mtx_for_class((size_t)q), "matrix handed out for a full class"); std::vector<vec_len_t> d(1, 1); s.clear(); VP_REQ(s.is_clear() && s._prealloc_classes(std::move(d)), "reuse after clear()"); g.nontrivial(true);
}
