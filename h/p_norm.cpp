// P14: data normalisation reaches its targets with one affine map for all sets, and touches nothing else.
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/train_data/transf_train_data.h"
namespace {
typedef long double LDb;
struct NRng { vp::Rnd r; ptrdiff_t operator()(ptrdiff_t n) { return (ptrdiff_t)r.below((uint64_t)n); } };
struct NCD { Math* m; NRng* r; vec_len_t bs; Math& iMath()const { return *m; } Math& get_iMath()const { return *m; } auto& get_iThreads()const { return m->ithreads(); } auto& iThreads()const { return m->ithreads(); } NRng& iRng()const { return *r; } NRng& get_iRng()const { return *r; } vec_len_t input_batch_size()const { return bs; } };
typedef std::vector<VR> Rows;
static int nsz(vp::Gen& g, int lo, int hi) { return (int)g.z((size_t)lo, (size_t)hi); }
static R dlt(int s, int j) { return R(.25) * R(s) * R(j % 2 ? -1 : 1); }
// k derived samples per stored one: column j of derived sample s is shifted by dlt(s, j)
struct NTrf : public _i_td_transformer<R, R> {
	int k; MD bx, by; bool wx = false, wy = false; NTrf(int k_) : k(k_) { bx.will_emulate_biases(); by.dont_emulate_biases(); }
	vec_len_t samplesInBaseSample()const noexcept { return (vec_len_t)k; }
	vec_len_t xWidth(const_TD_stor_t& t)const noexcept { return t.train_x().sample_size(); } vec_len_t yWidth(const_TD_stor_t& t)const noexcept { return t.train_y().sample_size(); }
	numel_cnt_t base_dataset_samples_count(const_TD_stor_t& t, data_set_id_t d)const noexcept { return t.X(d).batch_size(); }
	void deinit()noexcept { bx.clear(); by.clear(); }
	template<typename iM> bool init(iM&, const_TD_stor_t& t, vec_len_t b)noexcept { return bx.resize((vec_len_t)(b * k), xWidth(t)) && by.resize((vec_len_t)(b * k), yWidth(t)); }
	void def(vec_len_t b) { bx.deform_batch_size_with_biases((vec_len_t)(b * k)); by.deform_batch_size((vec_len_t)(b * k)); }
	template<typename C> void next_epoch(const_TD_stor_t&, const numel_cnt_t, const C&, const vec_len_t b, x_mtx_t** px, y_mtx_t** py) noexcept { def(b); *px = &bx; *py = &by; wx = wy = true; }
	void put(const_TD_stor_t& t, data_set_id_t d, int row, int idx) { for (int s = 0; s < k; s++) { if (wx) for (vec_len_t j = 0; j < xWidth(t); j++) bx.set((vec_len_t)(row * k + s), j, R(t.X(d).get((vec_len_t)idx, j) + dlt(s, (int)j))); if (wy) for (vec_len_t j = 0; j < yWidth(t); j++) by.set((vec_len_t)(row * k + s), j, t.Y(d).get((vec_len_t)idx, j)); } }
	template<typename C> void next_batch(const_TD_stor_t& t, const numel_cnt_t, const C&, const vec_len_t* p, const vec_len_t b)noexcept { def(b); for (vec_len_t q = 0; q < b; q++) put(t, train_set_id, (int)q, (int)p[q]); }
	template<typename C> void walk(const_TD_stor_t&, const data_set_id_t, const C&, const vec_len_t b, const unsigned ex, x_mtx_t** px, y_mtx_t** py)noexcept { def(b); wx = !exclude_dataX(ex); wy = !exclude_dataY(ex); *px = wx ? &bx : nullptr; *py = wy ? &by : nullptr; }
	template<typename C> void walk_next(const_TD_stor_t& t, const data_set_id_t d, const numel_cnt_t, const C&, const vec_len_t b, const vec_len_t ofs, const unsigned)noexcept { def(b); for (vec_len_t q = 0; q < b; q++) put(t, d, (int)q, (int)(ofs + q)); }
};
// user-defined statistics: the real ones, and damped ones that approach the targets over several passes
typedef utils::mtx2Normal::_FNorm_stats_var_mean<true> SExact;
static double g_ts = 1, g_tc = 0;
struct SDamped : public utils::mtx2Normal::_FNorm_stats_var_mean_base {
	template<typename AccT> static typename AccT::sample_type get_scale(const AccT& acc, bool& sp) noexcept { typedef typename AccT::sample_type T; double n = (double)::boost::accumulators::count(acc), v = std::sqrt(n / (n - 1) * (double)::boost::accumulators::extract_result<scale_measure_t>(acc)); sp = T(v) == T(0); return T(std::sqrt(v * g_ts)); }
	template<typename AccT> static typename AccT::sample_type get_central(const AccT& acc) noexcept { typedef typename AccT::sample_type T; return T(g_tc + .5 * ((double)::boost::accumulators::extract_result<central_measure_t>(acc) - g_tc)); }
};
struct St { LDb m = 0, sd = 0; long n = 0; };
static St stat(const Rows& r, int used, int col) { St s; for (int i = 0; i < used; i++) for (size_t j = 0; j < r[i].size(); j++) if (col < 0 || (int)j == col) { s.m += r[i][j]; s.n++; } s.m /= s.n; for (int i = 0; i < used; i++) for (size_t j = 0; j < r[i].size(); j++) if (col < 0 || (int)j == col) { LDb d = r[i][j] - s.m; s.sd += d * d; } s.sd = sqrtl(s.sd / (s.n - 1)); return s; }
// the data of a set as the object hands it out
template<class TD> static Rows walk_rows(TD& td, NCD& cd, int set, int xw, int expect) { Rows o; numel_cnt_t nb = td.walk_over_set(set, cd, -1, td.flag_exclude_dataY); for (numel_cnt_t b = 0; b < nb; b++) { td.next_subset(b, cd); const auto& X = td.batchX(); VP_REQ((int)X.sample_size() == xw && X.emulatesBiases(), "walk shape"); for (vec_len_t i = 0; i < X.batch_size(); i++) { VR v; for (int j = 0; j < xw; j++) v.push_back(X.get(i, (vec_len_t)j)); VP_REQ(X.get(i, (vec_len_t)xw) == R(1), "bias is ", X.get(i, (vec_len_t)xw)); o.push_back(v); } } VP_REQ((int)o.size() == expect, "walk covers ", o.size(), " of ", expect); return o; }
static void fill(vp::Gen& g, Rows& tr, Rows& te, int xw, bool cw, int used, double ts, double tc) {
	auto cell = [&](int mode, double mu, double sd, uint64_t sd_, int col) { vp::Rnd r(sd_); (void)mode; for (auto* s : { &tr, &te }) for (auto& row : *s) for (int j = 0; j < xw; j++) if (col < 0 || col == j) row[j] = R(mode == 0 ? mu : mu + sd * (3.4 * r.unit() - 1.7)); };
	auto fix = [&](int col, bool sc, bool ce) { St s = stat(tr, used, col); if (!(s.sd > 0)) return; LDb a = sc ? ts / s.sd : 1, b = ce ? tc - s.m * a : 0; for (auto* q : { &tr, &te }) for (auto& row : *q) for (int j = 0; j < xw; j++) if (col < 0 || col == j) row[j] = R(a * row[j] + b); };
	for (int j = cw ? 0 : -1; j < (cw ? xw : 0); j++) { int kind = (int)g.raw(8); double mu = double((int)g.raw(25) - 12) / 4, sd = g.pick({ 1., .25, 3., .5 }); cell(kind == 7 ? 0 : 1, mu, sd, g.seed(), j); if (kind == 4) fix(j, true, true); else if (kind == 5) fix(j, true, false); else if (kind == 6) fix(j, false, true); g.labelif(kind == 7, "constant data"); g.labelif(kind == 4, "already normal"); g.labelif(kind == 6, "already centred"); }
}
template<class ST, template<class> class TDT, class SF = SExact> static void t_norm(vp::Gen& g, bool transf) {
	typedef TDT<SF> TD; const bool damp = std::is_same<SF, SDamped>::value;
	auto& m = gen_math(g); int k = transf ? nsz(g, 1, 3) : 1, n[2] = { nsz(g, 3, g.b(1, 3) ? 40 : 12), nsz(g, 1, 12) }, xw = nsz(g, 1, 5), yw = nsz(g, 1, 2); const int N[2] = { n[0] * k, n[1] * k }, big = std::max(N[0], N[1]);
	NRng hr{ vp::Rnd(g.seed()) }; NCD cd{ &m, &hr, 1 };
	TDNormSettings<R, ST> S; S.bColumnwise = g.b(); bool cw = S.bColumnwise; double ts = g.pick({ 1., .5, 2. }), tc = g.pick({ 0., 0., 1., -2. }); double ms = g.pick({ .01, .001 }), mc = g.pick({ .01, .001 }); if (sizeof(ST) == 8 && sizeof(R) == 8 && g.b()) { ms = 1e-6; mc = 1e-6; }
	S.targetScale = ST(ts); S.targetCentral = ST(tc); S.ScaleTolerance = ST(ms); S.CentralTolerance = ST(mc); S.bVerbose = g.b(1, 4); S.maxTries = (unsigned)g.pick({ 20, 20, 8, 2, 1, 0 }); if (damp) S.maxTries = (unsigned)g.pick({ 60, 60, 60, 3 }); g_ts = ts; g_tc = tc; auto fS = [&](LDb v) { return damp ? sqrtl(v * ts) : v; }; auto fC = [&](LDb v) { return damp ? tc + (v - tc) / 2 : v; }; S.bScaleNormalize = !g.b(1, 5); S.bCentralNormalize = !g.b(1, 5); bool bs = S.bScaleNormalize, bc = S.bCentralNormalize;
	// initialisation beforehand, the batches used for the statistics
	int pre = (int)g.raw(3); int pf = pre ? k * nsz(g, 1, big / k) : 0; if (pre == 2) pf = std::max(pf, k); int b = g.b() ? -1 : k * nsz(g, 1, big / k); S.batchSize = (vec_len_t)b;
	bool was = pre && b < 0;
	int eb = b > 0 ? b : was ? pf : big; eb = std::min(eb, N[0]); int nb = (N[0] + eb - 1) / eb; int bcnt = g.b() ? 0 : nsz(g, 1, nb); while (bcnt && std::min(N[0], bcnt * eb) < 3) bcnt = bcnt < nb ? bcnt + 1 : 0; S.batchCount = (vec_len_t)bcnt; int used = bcnt ? std::min(N[0], bcnt * eb) : N[0];
	g.say(transf ? "transformed" : "in memory", "n", n[0], n[1], "x", xw, "k", k, cw ? "columnwise" : "whole", "target", ts, tc, "tol", ms, mc, "tries", S.maxTries, bs ? "scale" : "", bc ? "central" : "", "batch", b, "count", bcnt, "used", used, "pre", pre, pf);
	// stored data
	Rows st[2] = { Rows((size_t)n[0], VR((size_t)xw)), Rows((size_t)n[1], VR((size_t)xw)) }; fill(g, st[0], st[1], xw, cw, std::max(2, used / k), ts, tc);
	MD X[2], Y[2]; for (int s = 0; s < 2; s++) { X[s].will_emulate_biases(); Y[s].dont_emulate_biases(); (void)X[s].resize((vec_len_t)n[s], (vec_len_t)xw); (void)Y[s].resize((vec_len_t)n[s], (vec_len_t)yw); for (int i = 0; i < n[s]; i++) { for (int j = 0; j < xw; j++) X[s].set((vec_len_t)i, (vec_len_t)j, st[s][i][j]); for (int j = 0; j < yw; j++) Y[s].set((vec_len_t)i, (vec_len_t)j, R(i * 3 + j + 100 * s)); } }
	Rows x0[2]; for (int s = 0; s < 2; s++) for (int i = 0; i < n[s]; i++) for (int q = 0; q < k; q++) { VR v = st[s][i]; if (transf) for (int j = 0; j < xw; j++) v[j] = R(v[j] + dlt(q, j)); x0[s].push_back(v); }
	TD td(k, std::move(X[0]), std::move(Y[0]), std::move(X[1]), std::move(Y[1])); auto& t = td.get();
	if (pre == 1) { vec_len_t F = (vec_len_t)pf; VP_REQ((int)t.init4inference(m, F) == 0, "init4inference"); } else if (pre == 2) { vec_len_t F = (vec_len_t)pf, B = (vec_len_t)(k * nsz(g, 1, std::min(pf, N[0]) / k)); bool mb = true; VP_REQ((int)t.init4train(m, F, B, &mb) == 0, "init4train"); }
	if (pre) VP_REQ(m.init(), "math init");
	{ vec_len_t F = (vec_len_t)(b < 0 ? 0 : b); was = t.is_initialized4inference(F) || (pre && !S.bShouldNormalize()); VP_REQ(!was || pre, "initialised by itself"); } // such an object keeps its initialisation
	bool r = td.template norm<ST>(cd, S);
	{ vec_len_t F = 0; bool now = t.is_initialized4inference(F); VP_REQ(now == was, "normalize_data() left the object ", now ? "initialised" : "de-initialised", ", before the call it was ", pre ? "initialised" : "not initialised", " for ", pf, " with batches of ", b); if (now) VP_REQ((int)F == pf, "normalize_data() changed the initialised size"); else { F = 0; VP_REQ((int)t.init4inference(m, F) == 0 && m.init(), "init4inference afterwards"); } }
	Rows x1[2] = { walk_rows(t, cd, 0, xw, N[0]), walk_rows(t, cd, 1, xw, N[1]) };
	for (int s = 0; s < 2; s++) { VP_REQ((int)td.Y(s).batch_size() == n[s], "target size"); for (int i = 0; i < n[s]; i++) for (int j = 0; j < yw; j++) VP_REQ(td.Y(s).get((vec_len_t)i, (vec_len_t)j) == R(i * 3 + j + 100 * s), "normalisation changed a target"); for (int i = 0; i < N[s]; i++) for (int j = 0; j < xw; j++) VP_REQ(std::isfinite(x1[s][i][j]), "normalised value is ", x1[s][i][j]); if (transf) for (int i = 0; i < n[s]; i++) for (int j = 0; j < xw; j++) VP_REQ(td.X(s).get((vec_len_t)i, (vec_len_t)j) == st[s][i][j], "normalisation of transformed data changed the underlying storage"); }
	if (!(bs || bc) || S.maxTries == 0) { VP_REQ(r, "nothing was requested, but normalize_data() failed"); VP_REQ(x0[0] == x1[0] && x0[1] == x1[1], "nothing was requested, but the data changed"); g.label("nothing requested"); return; }
	LDb slack = sizeof(ST) == 8 && sizeof(R) == 8 ? 1e-9L : 2e-3L; LDb eps = std::numeric_limits<R>::epsilon(); bool need = false, border = false;
	// the statistics are single-pass sums: not judged where cancellation eats the precision of the arithmetic used
	{ LDb lim = sizeof(ST) == 8 && sizeof(R) == 8 ? 1000 : 20; for (int j = cw ? 0 : -1; j < (cw ? xw : 0); j++) for (auto* q : { &x0[0], &x1[0] }) { St a = stat(*q, used, j); if (a.sd > 0 && fabsl(a.m) > lim * a.sd) { g.label("ill-conditioned, not judged"); return; } } }
	for (int j = cw ? 0 : -1; j < (cw ? xw : 0); j++) { St a = stat(x0[0], used, j), z = stat(x1[0], used, j); LDb ds = fabsl(fS(a.sd) - ts), dm = fabsl(fC(a.m) - tc); bool konst = a.sd == 0; bool ns = bs && !konst && ds > ms, nm = bc && dm > mc; bool bord = (bs && !konst && fabsl(ds - ms) < slack) || (bc && fabsl(dm - mc) < slack); need = need || ns || nm; border = border || bord;
		if (!r && S.maxTries >= 8) continue; // judged below
		if (!r) continue;
		auto what = [&] { std::ostringstream o; if (j < 0) o << "whole data"; else o << "column " << j; o << " (mean " << (double)a.m << " std " << (double)a.sd << ")"; return o.str(); };
		if (bs && !konst) VP_REQ(fabsl(fS(z.sd) - ts) <= ms + slack, what(), ": std after normalisation is ", (double)z.sd, " target ", ts, " tolerance ", ms, "; mean ", (double)z.m); if (bc) VP_REQ(fabsl(fC(z.m) - tc) <= mc + slack, what(), ": mean after normalisation is ", (double)z.m, " target ", tc, " tolerance ", mc, "; std ", (double)z.sd);
		// one affine map for everything
		LDb A = 1, B = 0, xmax = 0; int i1 = 0, i2 = 0, j1 = j < 0 ? 0 : j, j2 = j1; bool var = false; for (int i = 0; i < N[0]; i++) for (int c = 0; c < xw; c++) if (j < 0 || c == j) { xmax = std::max(xmax, fabsl((LDb)x0[0][i][c])); if (x0[0][i][c] < x0[0][i1][j1]) { i1 = i; j1 = c; } if (x0[0][i][c] > x0[0][i2][j2]) { i2 = i; j2 = c; } } var = x0[0][i1][j1] != x0[0][i2][j2];
		LDb sp = var ? (LDb)x0[0][i2][j2] - x0[0][i1][j1] : 0; if (var && !konst) A = ((LDb)x1[0][i2][j2] - x1[0][i1][j1]) / sp; B = x1[0][i1][j1] - A * x0[0][i1][j1]; for (int i = 0; i < N[1]; i++) for (int c = 0; c < xw; c++) if (j < 0 || c == j) xmax = std::max(xmax, fabsl((LDb)x0[1][i][c]));
		LDb tol = 200 * eps * (fabsl(A) * xmax + fabsl(B) + 1) * (sp > 0 ? 1 + xmax / sp : 1); if (konst || !bs) VP_REQ(fabsl(A - 1) <= 200 * eps * (1 + (sp > 0 ? (xmax + fabsl(B)) / sp : 0)), what(), ": scaled by ", (double)A, " although it must not be"); if (!bc) VP_REQ(fabsl(B) <= tol, what(), ": shifted by ", (double)B, " although centring is off"); VP_REQ(A > 0, what(), ": scaled by ", (double)A);
		for (int s = 0; s < 2; s++) for (int i = 0; i < N[s]; i++) for (int c = 0; c < xw; c++) if (j < 0 || c == j) { LDb e = A * x0[s][i][c] + B; VP_REQ(fabsl(x1[s][i][c] - e) <= tol, what(), ": value ", x0[s][i][c], " of ", s ? "test" : "train", " sample ", i, " became ", x1[s][i][c], "; the map of the training data gives ", (double)e); }
		if (!ns && !nm && !bord) for (int s = 0; s < 2; s++) for (int i = 0; i < N[s]; i++) for (int c = 0; c < xw; c++) if (j < 0 || c == j) VP_REQ(x1[s][i][c] == x0[s][i][c], what(), " was within tolerance but was changed");
		g.nontrivial(ns || nm); g.labelif(ns && nm, "scaled and centred"); g.labelif(used < N[0] && (ns || nm), "statistics over part of the data"); }
	if (!r) { if (!need) { if (!border) VP_REQ(x0[0] == x1[0] && x0[1] == x1[1], "nothing to normalise, but the data changed"); g.label("already normal, refused"); } else { g.label("gave up"); VP_REQ(S.maxTries < 8 || border || damp, "normalize_data() gave up after ", S.maxTries, " tries"); } }
	else if (S.maxTries >= 8 && !border) VP_REQ(need, "normalize_data() claims to have normalised normal data");
	td.after(g, cd, m, x0, x1, xw, S, r, used);
}
template<class SF> struct TdMem { inmem_train_data<R> td; template<class ST, class S> bool norm(NCD& cd, const S& s) { typedef typename inmem_train_data<R>::template NormalizerF_tpl<ST, SF> NF; return td.template normalize_data<ST>(cd, s, NF()); } TdMem(int, MD&& a, MD&& b, MD&& c, MD&& d) { VP_REQ(td.absorb(std::move(a), std::move(b), std::move(c), std::move(d)), "absorb"); } inmem_train_data<R>& get() { return td; } const MD& Y(int s) { return td.Y(s); } const MD& X(int s) { return td.X(s); }
	template<class S> void after(vp::Gen& g, NCD& cd, Math&, Rows*, Rows* x1, int xw, const S& st, bool r, int) { if (!r) return; bool q = norm<typename S::statsdata_t>(cd, st); if (q) return; /* borderline after rounding */ vec_len_t F = 0; VP_REQ((int)td.init4inference(cd.get_iMath(), F) == 0, "init"); for (int s = 0; s < 2; s++) VP_REQ(walk_rows(td, cd, s, xw, (int)x1[s].size()) == x1[s], "normalising normalised data changed it"); g.label("repeated"); } };
template<class SF> struct TdTr { inmem_train_data_stor<R, R> st; NTrf tf; transf_train_data<NTrf, SF> td; template<class ST, class S> bool norm(NCD& cd, const S& s) { return td.template normalize_data<ST>(cd, s); } TdTr(int k, MD&& a, MD&& b, MD&& c, MD&& d) : tf(k), td(tf, st) { VP_REQ(st.absorb(std::move(a), std::move(b), std::move(c), std::move(d)), "absorb"); } transf_train_data<NTrf, SF>& get() { return td; } const MD& Y(int s) { return st.Y(s); } const MD& X(int s) { return st.X(s); }
	template<class S> void after(vp::Gen& g, NCD& cd, Math& m, Rows* x0, Rows* x1, int xw, const S& st_, bool r, int) {
		td.deinit4all(); vec_len_t F = 0, B = (vec_len_t)(tf.k * nsz(g, 1, (int)x0[0].size() / tf.k)); bool mb = true; VP_REQ((int)td.init4train(m, F, B, &mb) == 0 && m.init(), "init4train");
		auto epoch = [&](const Rows& x, const char* what) { std::multiset<VR> left(x.begin(), x.end()); numel_cnt_t nb = td.on_next_epoch(0, cd, B); for (numel_cnt_t b = 0; b < nb; b++) { td.on_next_batch(b, cd); const auto& X = td.batchX(); for (vec_len_t i = 0; i < X.batch_size(); i++) { VR v; for (int j = 0; j < xw; j++) v.push_back(X.get(i, (vec_len_t)j)); auto it = left.find(v); VP_REQ(it != left.end(), what, ": a training batch row is not a row of the walked training set"); left.erase(it); VP_REQ(X.get(i, (vec_len_t)xw) == R(1), what, ": bias changed"); } } };
		if (r) epoch(x1[0], "training batches of normalised data");
		if (r && g.b() && (st_.batchCount == 0 || st_.batchSize > 0)) { td.deinit4all(); VP_REQ((norm<typename S::statsdata_t>(cd, st_)) == r, "repeated normalisation gives another answer"); vec_len_t f = 0; bool i0 = td.is_initialized4inference(f); (void)i0; f = 0; VP_REQ((int)td.init4inference(m, f) == 0 && m.init(), "init"); Rows y[2] = { walk_rows(td, cd, 0, xw, (int)x1[0].size()), walk_rows(td, cd, 1, xw, (int)x1[1].size()) };
			for (int s = 0; s < 2; s++) for (size_t i = 0; i < y[s].size(); i++) for (int j = 0; j < xw; j++) VP_REQ(std::fabs(double(y[s][i][j]) - double(x1[s][i][j])) <= (sizeof(R) == 8 && sizeof(typename S::statsdata_t) == 8 ? 1e-6 : 5e-2) * (1 + std::fabs(double(x1[s][i][j]))), "repeated normalisation of transformed data gives ", y[s][i][j], " instead of ", x1[s][i][j]); g.label("repeated"); }
		td.reset_normalization(); td.deinit4all(); F = 0; B = (vec_len_t)tf.k; VP_REQ((int)td.init4train(m, F, B, &mb) == 0 && m.init(), "init"); for (int s = 0; s < 2; s++) VP_REQ(walk_rows(td, cd, s, xw, (int)x0[s].size()) == x0[s], "reset_normalization() does not restore the data"); epoch(x0[0], "training batches after reset_normalization()"); } };
}
VP_TESTM(normalise_inmem, 2, 80) { t_norm<R, TdMem>(g, false); }
VP_TESTM(normalise_transformed, 2, 80) { t_norm<R, TdTr>(g, true); }
#define VP_ISF(x) (sizeof(x) == 4)
VP_TESTM(normalise_inmem_stat64, 1, 80) { t_norm<double, TdMem>(g, false); }
VP_TESTM(normalise_transformed_stat64, 1, 80) { t_norm<double, TdTr>(g, true); }

VP_TESTM(normalise_inmem_passes, 1, 80) { t_norm<R, TdMem, SDamped>(g, false); }
VP_TESTM(normalise_transformed_passes, 1, 80) { t_norm<R, TdTr, SDamped>(g, true); }
