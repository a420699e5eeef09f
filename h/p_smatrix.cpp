// P01: matrix container vs. a linear-buffer model, over operation histories
#include "nn.h"
#include "nntl/math.h"
#include "nntl/interface/math/smatrix.h"
using namespace nntl;
using math::smatrix; using math::smatrix_deform; using math::smatrix_td; using math::tag_noBias;
typedef long long ll;

template<class T> static T mkval(vp::Rnd& r) { return T((ll)r.below(200) - (std::is_unsigned<T>::value ? 0 : 100)) / (std::is_floating_point<T>::value ? T(8) : T(1)); }

template<class T> struct Model {
	bool live = false;              // holds storage
	bool emul = false, holey = false, bir = false, ext = false;
	ll rows = 0, cols = 0;
	std::vector<T> buf;             // whole capacity, linear
	T* extp = nullptr;
	int extid = -1;
	ll rnb() const { return rows - (emul && bir); }
	ll cnb() const { return cols - (emul && !bir); }
	ll numel() const { return rows * cols; }
	T& at(ll r, ll c) { return buf[size_t(c * rows + r)]; }
	void biases1() { if (bir) for (ll c = 0; c < cols; c++) at(rows - 1, c) = T(1); else for (ll r = 0; r < rows; r++) at(r, cols - 1) = T(1); holey = false; }
};

template<class T> struct World {
	typedef smatrix_deform<T> M; typedef smatrix<T> B;
	static const int N = 3;
	vp::Gen& g;
	std::unique_ptr<M> m[N]; Model<T> o[N];
	std::vector<std::unique_ptr<std::vector<T>>> ext;   // external storages (owned by the caller)
	int ops = 0; std::set<std::string> kinds;
	World(vp::Gen& g_) : g(g_) {}
	ll dim() { return (ll)g.sz(1, 6 * g.scale + 3); }
	bool realonly() { return std::is_floating_point<T>::value; }

	void fillnb(int a) { // give every non-bias element a known value, through set()
		vp::Rnd r(g.seed()); auto& A = *m[a]; auto& O = o[a];
		for (ll c = 0; c < O.cnb(); c++) for (ll q = 0; q < O.rnb(); q++) { T v = mkval<T>(r); A.set((vec_len_t)q, (vec_len_t)c, v); O.at(q, c) = v; }
	}
	void init(int a, ll r, ll c, bool e, bool b) { // model of an owned matrix of r x c data elements
		auto& O = o[a]; O.live = true; O.emul = e; O.bir = b; O.holey = false; O.ext = false; O.rows = r + (e && b); O.cols = c + (e && !b); O.buf.assign(size_t(O.numel()), T(0)); if (e) O.biases1();
	}
	T* newext(ll n, int& id) { ext.emplace_back(new std::vector<T>(size_t(n))); vp::Rnd r(g.seed()); for (auto& v : *ext.back()) v = mkval<T>(r); id = (int)ext.size() - 1; return ext.back()->data(); }

	void verify(int a, const char* what) {
		if (!m[a]) return;
		auto& A = *m[a]; auto& O = o[a];
		#define Q(c) do { if (!(c)) vp::fail(what, ": ", #c, " violated; model ", O.rows, "x", O.cols, " emul=", O.emul, " bir=", O.bir, " holey=", O.holey, " ext=", O.ext, "; actual ", A.rows(), "x", A.cols()); } while (0)
		Q(A.empty() == !O.live);
		Q(A.rows() == O.rows && A.cols() == O.cols);
		Q(A.size() == smatrix_td::mtx_size_t((vec_len_t)O.rows, (vec_len_t)O.cols));
		Q(A.emulatesBiases() == O.emul);
		Q(A.bBatchInRow() == O.bir && A.bBatchInColumn() == !O.bir && A.bSampleInColumn() == O.bir && A.bSampleInRow() == !O.bir);
		Q(A.bDontManageStorage() == O.ext && A.bOwnStorage() == !O.ext);
		if (!O.live || O.rows <= 0 || O.cols <= 0) return;
		Q(!A.isAllocationFailed());
		Q(A.hasHoleyBiases() == (O.emul && O.holey));
		if (O.emul) Q(A.isHoleyBiases() == O.holey);
		Q(A.has_bias_row() == (O.emul && O.bir) && A.has_bias_column() == (O.emul && !O.bir));
		Q(A.rows_no_bias() == O.rnb() && A.cols_no_bias() == O.cnb());
		Q(A.rows(true) == O.rnb() && A.cols(true) == O.cnb() && A.rows(false) == O.rows && A.cols(false) == O.cols);
		Q(A.batch_size() == (O.bir ? O.cols : O.rows));
		Q(A.sample_size() == (O.bir ? O.rnb() : O.cnb()));
		Q(A.dataset_size() == smatrix_td::mtx_size_t(A.batch_size(), A.sample_size()));
		Q(A.size_no_bias() == smatrix_td::mtx_size_t((vec_len_t)O.rnb(), (vec_len_t)O.cnb()));
		Q(A.transposed_size() == smatrix_td::mtx_size_t((vec_len_t)O.cols, (vec_len_t)O.rows));
		Q(A.transposed_size_no_bias() == smatrix_td::mtx_size_t((vec_len_t)O.cnb(), (vec_len_t)O.rnb()));
		Q(A.numel() == O.numel() && A.numel(false) == O.numel() && math::Numel((B&)A) == O.numel());
		Q(A.byte_size() == O.numel() * (ll)sizeof(T));
		Q(A.numel_no_bias_sBiR() == O.rnb() * O.cnb() && A.numel_sBiR(true) == O.rnb() * O.cnb() && A.numel_sBiR(false) == O.numel());
		if (!(O.emul && O.bir)) { Q(A.numel_no_bias() == O.rnb() * O.cnb() && A.numel(true) == O.rnb() * O.cnb()); Q(A.byte_size_no_bias() == O.rnb() * O.cnb() * (ll)sizeof(T)); Q(A.end_no_bias() - A.data() == O.rnb() * O.cnb()); Q(A.end(true) - A.begin() == O.rnb()*O.cnb()); }
		Q(A.end() - A.begin() == O.numel() && A.end(false) - A.data() == O.numel());
		Q(A.ldim() == O.rows && A.ldimAsVecLen() == O.rows);
		if (O.emul && !O.bir) Q(A.bias_column() - A.data() == O.rows * (O.cols - 1));
		Q(A._universal_range_BiR_aware(false) == O.numel());
		if (O.emul && O.bir) Q(A._universal_range_BiR_aware(true) == O.cols); else if (!O.bir) Q(A._universal_range_BiR_aware(true) == O.rnb() * O.cnb());
		// contents: column-major layout
		for (ll c = 0; c < O.cols; c++) {
			Q(A.colDataAsVec((vec_len_t)c) - A.data() == c * O.rows);
			for (ll r = 0; r < O.rows; r++) {
				T x = A.get((vec_len_t)r, (vec_len_t)c), y = O.at(r, c);
				if (memcmp(&x, &y, sizeof(T))) vp::fail(what, ": element (", r, ",", c, ") is ", +x, " must be ", +y, " in ", O.rows, "x", O.cols, " emul=", O.emul, " bir=", O.bir);
			}
		}
		if (O.ext && memcmp(O.extp, A.data(), sizeof(T) * (size_t)O.numel())) vp::fail(what, ": not the external storage");
		if (O.ext) Q(A.data() == O.extp);
		Q(uintptr_t(A.data()) % alignof(T) == 0);
		// bias self tests agree with the model
		if (O.emul) {
			bool all1 = true, bin = true; ll n = O.bir ? O.cols : O.rows;
			for (ll k = 0; k < n; k++) { T v = O.bir ? O.at(O.rows - 1, k) : O.at(k, O.cols - 1); all1 &= v == T(1); bin &= (v == T(1) || v == T(0)); }
			if (!O.holey) { Q(A.test_biases_strict() == all1); Q(A.test_biases_ok() == all1); Q(A.if_biases_test_strict() == all1); }
			else { Q(A.test_biases_ok() == bin); Q(A.test_biases_holey() == bin); }
		}
		#undef Q
	}
	void verify_all(const char* what) { for (int a = 0; a < N; a++) verify(a, what); }

	void op_construct(int a) {
		ll r = dim(), c = dim(); bool e = g.b(), b = g.b(1, 3); int k = (int)g.raw(6);
		auto& O = o[a];
		if (k == 0) { m[a].reset(new M((vec_len_t)r, (vec_len_t)c, e, b)); init(a, r, c, e, b); }
		else if (k == 1) { m[a].reset(new M(B(smatrix_td::mtx_size_t((vec_len_t)r, (vec_len_t)c), e, b))); init(a, r, c, e, b); }
		else if (k == 2) { m[a].reset(new M(B(b, (vec_len_t)r, (vec_len_t)c, e))); init(a, b ? c : r, b ? r : c, e, b); }
		else if (k == 3) { // capacity first, deform later
			ll R = r + (e && b), C = c + (e && !b); ll cap = R * C + (ll)g.raw(5);
			bool h = false;
			if (g.b()) m[a].reset(new M((numel_cnt_t)cap, e, h, b)); else { m[a].reset(new M()); VP_CK(m[a]->resize((numel_cnt_t)cap, &e, &h, &b)); }
			m[a]->deform((vec_len_t)R, (vec_len_t)C);
			O = Model<T>(); O.live = true; O.emul = e; O.bir = b; O.rows = R; O.cols = C; O.buf.assign((size_t)cap, T(0));
			vp::Rnd rr(g.seed()); for (ll i = 0; i < cap; i++) m[a]->data()[i] = O.buf[(size_t)i] = mkval<T>(rr);
			if (e) { m[a]->set_biases(); O.biases1(); }
			return;
		}
		else if (k == 4) { int id; T* p = newext(r * c, id); m[a].reset(new M(p, (vec_len_t)r, (vec_len_t)c, e && (b ? r : c) > 1, false, b)); O = Model<T>(); O.live = true; O.ext = true; O.extp = p; O.extid = id; O.emul = e && (b ? r : c) > 1; O.bir = b; O.rows = r; O.cols = c; O.buf = *ext[(size_t)id]; if (O.emul) { m[a]->set_biases(); O.biases1(); } return; }
		else { m[a].reset(new M()); O = Model<T>(); if (e) { m[a]->will_emulate_biases(); O.emul = true; } verify(a, "empty"); if (b) { m[a]->set_batchInRow(true); O.bir = true; } VP_CK(m[a]->resize((vec_len_t)r, (vec_len_t)c)); init(a, r, c, e, b); }
		// biases must be there before anything is written
		if (o[a].emul) check_biases(a, "construct");
		fillnb(a);
	}
	void check_biases(int a, const char* w) {
		auto& A = *m[a]; auto& O = o[a]; ll n = O.bir ? O.cols : O.rows;
		if (A.rows() != O.rows || A.cols() != O.cols) vp::fail(w, ": size is ", A.rows(), "x", A.cols(), " must be ", O.rows, "x", O.cols);
		for (ll k = 0; k < n; k++) { T v = O.bir ? A.get((vec_len_t)(O.rows - 1), (vec_len_t)k) : A.get((vec_len_t)k, (vec_len_t)(O.cols - 1)); if (v != T(1)) vp::fail(w, ": bias #", k, " is ", +v, " for ", O.rows, "x", O.cols, " bir=", O.bir); }
	}
	bool usable(int a) { return m[a] && o[a].live && o[a].rows > 0 && o[a].cols > 0; }

	void step() {
		int a = (int)g.raw(N), b = (a + 1 + (int)g.raw(N - 1)) % N;
		auto& O = o[a]; auto& P = o[b];
		if (!usable(a)) { op_construct(a); verify_all("construct"); return; }
		auto& A = *m[a];
		int k = (int)g.raw(34); const char* w = "?";
		bool nbir = !O.emul || !O.bir; // 'no bias row'
		switch (k) {
		case 0: w = "construct"; op_construct(a); break;
		case 1: case 2: { // resize family
			if (O.ext) return; ll r = g.b(1, 4) ? O.rnb() : dim(), c = g.b(1, 4) ? O.cnb() : dim(); int v = (int)g.raw(7); bool ok = true, e = O.emul, bi = O.bir;
			w = "resize";
			if (v == 0) ok = A.resize((vec_len_t)r, (vec_len_t)c);
			else if (v == 1) ok = A.resize(smatrix_td::mtx_size_t((vec_len_t)r, (vec_len_t)c));
			else if (v == 2) { ok = A.resize_as_dataset((vec_len_t)r, (vec_len_t)c); if (bi) std::swap(r, c); }
			else if (v == 3) { B& q = A; ok = q.resize((vec_len_t)r, (vec_len_t)c); }
			else if (v == 4) { B& q = A; if (g.b()) ok = q.resize((vec_len_t)r, (vec_len_t)c, tag_noBias()); else ok = q.resize(smatrix_td::mtx_size_t((vec_len_t)r, (vec_len_t)c), tag_noBias()); e = false; w = "resize(noBias)"; }
			else if (v == 5) { B& q = A; ok = q.resize_as_dataset((vec_len_t)r, (vec_len_t)c); if (bi) std::swap(r, c); }
			else { if (!usable(b) || P.emul != O.emul || P.bir != O.bir) return; r = P.rnb(); c = P.cnb(); ok = g.b() ? A.resize(*m[b]) : static_cast<B&>(A).resize(static_cast<B&>(*m[b])); }
			if (!ok) vp::fail("resize failed");
			init(a, r, c, e, bi);
			if (e) check_biases(a, w);
			fillnb(a); break; }
		case 3: case 4: { w = "set/get"; ll r = (ll)g.raw((uint64_t)O.rnb()), c = (ll)g.raw((uint64_t)O.cnb()); vp::Rnd rr(g.seed()); T v = mkval<T>(rr);
			if (g.b()) A.set((vec_len_t)r, (vec_len_t)c, v); else if (g.b()) A.get((vec_len_t)r, (vec_len_t)c) = v; else A.get(smatrix_td::mtx_coords_t((vec_len_t)r, (vec_len_t)c)) = v;
			O.at(r, c) = v; break; }
		case 5: { w = "zeros"; A.zeros(); for (ll c = 0; c < O.cnb(); c++) for (ll r = 0; r < O.rnb(); r++) O.at(r, c) = T(0); if (O.emul && O.bir) for (ll c = 0; c < O.cols; c++) O.at(O.rows - 1, c) = T(1); break; }
		case 6: { w = "ones"; A.ones(); std::fill(O.buf.begin(), O.buf.begin() + O.numel(), T(1)); O.holey = false; break; }
		case 7: { w = "fill_column_with"; if (!nbir) return; ll c = (ll)g.raw((uint64_t)O.cnb()); vp::Rnd rr(g.seed()); T v = mkval<T>(rr); A.fill_column_with((vec_len_t)c, v); for (ll r = 0; r < O.rows; r++) O.at(r, c) = v; break; }
		case 8: { w = "fill_row_with"; if (O.emul && !O.bir) return; ll r = (ll)g.raw((uint64_t)O.rnb()); vp::Rnd rr(g.seed()); T v = mkval<T>(rr); A.fill_row_with((vec_len_t)r, v); for (ll c = 0; c < O.cols; c++) O.at(r, c) = v; break; }
		case 9: { w = "fill/set_biases"; if (O.emul) { if (g.b()) { vp::Rnd rr(g.seed()); T v = mkval<T>(rr); A.fill(v); std::fill(O.buf.begin(), O.buf.begin() + O.numel(), v); } A.set_biases(); O.biases1(); } else { vp::Rnd rr(g.seed()); T v = mkval<T>(rr); if (g.b()) { A.fill_last_column(v); for (ll r = 0; r < O.rows; r++) O.at(r, O.cols - 1) = v; } else { A.fill_last_row(v); for (ll c = 0; c < O.cols; c++) O.at(O.rows - 1, c) = v; } } break; }
		case 10: case 11: { w = "clone_to"; if (!m[b]) return;
			if (P.live && P.ext && (P.rows != O.rows || P.cols != O.cols)) return;
			bool ok;
			if (!P.ext && g.b()) ok = m[b]->cloneFrom(A); else ok = A.clone_to(*m[b]);
			if (!ok) vp::fail("clone_to failed");
			if (P.ext) { std::copy(O.buf.begin(), O.buf.begin() + O.numel(), P.buf.begin()); P.emul = O.emul; P.holey = O.holey; P.bir = O.bir; }
			else { P = O; P.ext = false; P.extp = nullptr; P.buf.resize((size_t)O.numel()); }
			if (!(A == *m[b]) || (A != *m[b])) vp::fail("clone is not equal to its source");
			break; }
		case 12: { w = "clone_to_no_bias"; if (!m[b] || !nbir) return; if (P.live && P.ext && (P.rows != O.rows || P.cols != O.cnb())) return;
			if (!A.clone_to_no_bias(*m[b])) vp::fail("clone_to_no_bias failed");
			if (!P.ext) { P.buf.assign((size_t)(O.rows * O.cnb()), T(0)); P.live = true; }
			P.rows = O.rows; P.cols = O.cnb(); P.emul = P.holey = false; P.bir = O.bir;
			std::copy(O.buf.begin(), O.buf.begin() + O.rows * O.cnb(), P.buf.begin()); break; }
		case 13: { w = "copy_data_skip_bias"; if (!usable(b) || !nbir || (P.emul && P.bir) || P.rows != O.rows || P.cnb() != O.cnb() || (P.emul && O.bir)) return;
			if (!A.copy_data_skip_bias(*m[b])) vp::fail("copy_data_skip_bias failed"); std::copy(O.buf.begin(), O.buf.begin() + O.rows * O.cnb(), P.buf.begin()); P.bir = O.bir; break; }
		case 14: { w = "copy_to"; if (!usable(b)) return; bool expect = P.numel() == O.numel() && P.emul == O.emul;
			if (!expect && (ll)0 == (ll)1) return;
			bool ok = A.copy_to(*m[b]); if (ok != expect) vp::fail("copy_to returned ", ok, " expected ", expect);
			if (ok) { std::copy(O.buf.begin(), O.buf.begin() + O.numel(), P.buf.begin()); P.holey = O.holey; P.rows = O.rows; P.cols = O.cols; P.bir = O.bir; } break; }
		case 15: { w = "move"; if (!m[b]) return; int v = (int)g.raw(3);
			if (v == 0) { *m[b] = std::move(A); } else if (v == 1) { M t(std::move(A)); *m[b] = std::move(t); } else { static_cast<B&>(*m[b]) = std::move(static_cast<B&>(A)); }
			P = O; O.live = false; O.rows = O.cols = 0;
			if (!A.empty() || A.rows() || A.cols()) vp::fail("moved-from matrix still holds data");
			m[a].reset(); break; }
		case 16: { w = "clear"; A.clear(); bool e = O.emul; O = Model<T>(); O.emul = e; break; }
		case 17: { w = "hide/restore last col"; if (O.emul || O.cols < 2) return; A.hide_last_col(); O.cols--; verify(a, w); vp::Rnd rr(g.seed()); T v = mkval<T>(rr); A.set(0, 0, v); O.at(0, 0) = v; A.restore_last_col(); O.cols++; break; }
		case 18: { w = "hide/restore last n cols"; if (O.emul && O.bir) return; ll lim = O.cols - O.emul; if (lim < 2) return; ll n = 1 + (ll)g.raw((uint64_t)(lim - 1)); bool e = O.emul;
			bool r = A.hide_last_n_cols((vec_len_t)n); if (r != e) vp::fail("hide_last_n_cols returned ", r); O.cols -= n + e; O.emul = false; bool h = O.holey; verify(a, w);
			A.restore_last_n_cols(r, (vec_len_t)n); O.cols += n + e; O.emul = e; O.holey = h; break; }
		case 19: { w = "hide/restore biases"; if (!nbir) return; if (O.emul && O.cols < 2) return; bool e = O.emul, h = O.holey; bool r = A.hide_biases(); if (r != e) vp::fail("hide_biases returned ", r); if (e) { O.cols--; O.emul = false; } verify(a, w);
			if (!(O.bir)) { fillnb(a); A.restore_biases(r); } if (e) { O.cols++; O.emul = true; O.holey = h; } break; }
		case 20: { w = "deform_rows/cols"; if (O.emul) return; ll cap = (ll)O.buf.size();
			if (g.b()) { ll c = 1 + (ll)g.raw((uint64_t)std::max<ll>(1, cap / O.rows)); ll old = A.deform_cols((vec_len_t)c); if (old != O.cols) vp::fail("deform_cols returned ", old); O.cols = c; }
			else { ll r = 1 + (ll)g.raw((uint64_t)std::max<ll>(1, cap / O.cols)); ll old = A.deform_rows((vec_len_t)r); if (old != O.rows) vp::fail("deform_rows returned ", old); O.rows = r; } break; }
		case 21: { w = "deform_batch_size_with_biases"; if (O.holey) return; ll cap = (ll)O.buf.size(), o1 = O.bir ? O.rows : O.cols; ll bs = 1 + (ll)g.raw((uint64_t)std::max<ll>(1, cap / o1));
			A.deform_batch_size_with_biases((vec_len_t)bs); bool ch = (O.bir ? O.cols : O.rows) != bs; (O.bir ? O.cols : O.rows) = bs; if (O.emul && ch) O.biases1(); break; }
		case 22: { w = "deform_sample/batch_size"; if (O.emul) return; ll cap = (ll)O.buf.size(); 
			if (g.b()) { ll o1 = O.bir ? O.rows : O.cols; ll bs = 1 + (ll)g.raw((uint64_t)std::max<ll>(1, cap / o1)); ll old = A.deform_batch_size((vec_len_t)bs); if (old != (O.bir ? O.cols : O.rows)) vp::fail("deform_batch_size returned ", old); (O.bir ? O.cols : O.rows) = bs; }
			else { ll o1 = O.bir ? O.cols : O.rows; ll ss = 1 + (ll)g.raw((uint64_t)std::max<ll>(1, cap / o1)); ll old = A.deform_sample_size((vec_len_t)ss); if (old != (O.bir ? O.rows : O.cols)) vp::fail("deform_sample_size returned ", old); (O.bir ? O.rows : O.cols) = ss; } break; }
		case 23: { w = "deform_dataset"; if (O.holey) return; ll cap = (ll)O.buf.size(); ll mn = O.emul ? 2 : 1; if (cap < mn) return; ll ss = mn + (ll)g.raw((uint64_t)(cap - mn + 1)); ll bs = 1 + (ll)g.raw((uint64_t)(cap / ss));
			A.deform_dataset((vec_len_t)bs, (vec_len_t)ss); ll R = O.bir ? ss : bs, C = O.bir ? bs : ss; bool ch = R != O.rows || C != O.cols; O.rows = R; O.cols = C; if (ch && O.emul) O.biases1(); break; }
		case 24: { w = "deform_like"; if (!usable(b) || O.emul) return; bool nb = g.b(); ll R = nb ? P.rnb() : P.rows, C = nb ? P.cnb() : P.cols; if (R * C > (ll)O.buf.size()) return; if (nb) A.deform_like_no_bias(*m[b]); else A.deform_like(*m[b]); O.rows = R; O.cols = C; O.bir = P.bir; break; }
		case 25: { w = "on_transposition"; if (O.emul) { // data really transposed, as the transposing routines do
				std::vector<T> t((size_t)O.numel()); for (ll r = 0; r < O.rows; r++) for (ll c = 0; c < O.cols; c++) t[(size_t)(r * O.cols + c)] = O.at(r, c); std::copy(t.begin(), t.end(), O.buf.begin()); std::copy(t.begin(), t.end(), A.data()); }
			A.on_transposition(); std::swap(O.rows, O.cols); O.bir = !O.bir; break; }
		case 26: case 27: { w = "useExternalStorage"; int v = (int)g.raw(6); ll r = dim(), c = dim(); bool e = g.b(), bi = g.b(1, 3); int id;
			if (v < 3) { if (e) (bi ? r : c)++; T* p = newext(r * c, id);
				if (v == 0) A.useExternalStorage(p, (vec_len_t)r, (vec_len_t)c, e, false, bi);
				else if (v == 1) A.useExternalStorage(bi, p, (vec_len_t)(bi ? c : r), (vec_len_t)(bi ? r : c), e, false);
				else { static_cast<B&>(A).useExternalStorage(p, smatrix_td::mtx_size_t((vec_len_t)r, (vec_len_t)c), e, false, bi); }
				O = Model<T>(); O.live = true; O.ext = true; O.extp = p; O.rows = r; O.cols = c; O.emul = e; O.bir = bi; O.buf = *ext[(size_t)id]; if (e) { A.set_biases(); O.biases1(); } }
			else if (v == 3) { if (!usable(b)) return; T* p = newext(P.numel(), id); A.useExternalStorage(p, *m[b]); bool e2 = P.emul; O = Model<T>(); O.live = O.ext = true; O.extp = p; O.rows = P.rows; O.cols = P.cols; O.emul = e2; O.bir = P.bir; O.buf = *ext[(size_t)id]; if (e2) { A.set_biases(); O.biases1(); } }
			else if (v == 4) { if (!usable(b) || (P.emul && P.bir)) return; T* p = newext(P.rnb() * P.cnb(), id); static_cast<B&>(A).useExternalStorage_no_bias(p, *m[b]); O = Model<T>(); O.live = O.ext = true; O.extp = p; O.rows = P.rnb(); O.cols = P.cnb(); O.bir = P.bir; O.buf = *ext[(size_t)id]; }
			else { T* p = newext(r * c, id); bool own = O.bir; ll ss = own ? r : c, bs = own ? c : r; A.useExternalStorage((vec_len_t)bs, (vec_len_t)ss, p); O = Model<T>(); O.bir = own; O.live = O.ext = true; O.extp = p; O.rows = r; O.cols = c; O.buf = *ext[(size_t)id]; }
			break; }
		case 28: { w = "useInternalStorage"; ll r = dim(), c = dim(); bool e = g.b(), bi = g.b(1, 3); if (g.b(1, 4)) { A.useInternalStorage(0, 0, e, bi); O = Model<T>(); O.emul = e; O.bir = bi; break; } VP_CK(A.useInternalStorage((vec_len_t)r, (vec_len_t)c, e, bi)); init(a, r, c, e, bi); if (e) check_biases(a, w); fillnb(a); break; }
		case 29: { w = "submatrix/alias"; // views over columns write through
			if (!nbir || O.cnb() < 1) return; ll c0 = (ll)g.raw((uint64_t)O.cnb()), n = 1 + (ll)g.raw((uint64_t)(O.cnb() - c0)); int v = (int)g.raw(4);
			auto doit = [&](B& V, bool chkbir) { if (V.rows() != O.rows || V.cols() != n || V.emulatesBiases() || !V.bDontManageStorage() || (chkbir && V.bBatchInRow() != O.bir)) vp::fail("column view has wrong properties ", V.rows(), "x", V.cols());
				vp::Rnd rr(g.seed()); for (ll c = 0; c < n; c++) for (ll r = 0; r < O.rows; r++) { if (V.get((vec_len_t)r, (vec_len_t)c) != O.at(r, c0 + c)) vp::fail("column view content"); T x = mkval<T>(rr); V.set((vec_len_t)r, (vec_len_t)c, x); O.at(r, c0 + c) = x; } };
			if (v == 0) { auto V = A.submatrix_cols_no_bias((vec_len_t)c0, (vec_len_t)n); doit(V, false); }
			else if (v == 1) { auto V = static_cast<B&>(A).submatrix_cols_no_bias((vec_len_t)c0, (vec_len_t)n); doit(V, true); }
			else if (v == 2) { B V; V.useExternalStorage_no_bias(A, (vec_len_t)c0, (vec_len_t)n); doit(V, true); }
			else { c0 = 0; n = O.cnb(); M V; V.useExternalStorage_no_bias(A); doit(V, true); }
			if (O.ext) std::copy(O.buf.begin(), O.buf.begin() + O.numel(), O.extp); // same memory; compared below
			break; }
		case 30: { w = "copy_biases_from(vec)"; if (!O.emul || O.bir) return; std::vector<T> v((size_t)O.rows); ll nz = 0; for (auto& x : v) { x = g.b() ? T(1) : T(0); nz += x == T(1); } A.copy_biases_from(v.data(), (vec_len_t)nz); for (ll r = 0; r < O.rows; r++) O.at(r, O.cols - 1) = v[(size_t)r]; O.holey = nz != O.rows; break; }
		case 31: { w = "copy_biases_from(mtx)"; if (!O.emul || O.bir || !usable(b) || !P.emul || P.bir || P.rows != O.rows) return; A.copy_biases_from(*m[b]); for (ll r = 0; r < O.rows; r++) O.at(r, O.cols - 1) = P.holey ? P.at(r, P.cols - 1) : T(1); O.holey = P.holey; break; }
		case 32: { w = "fill_from_array_no_bias"; if (!nbir) return; ll n = O.rnb() * O.cnb(); vp::Rnd rr(g.seed());
			auto go = [&](auto z) { typedef decltype(z) U; std::vector<U> s((size_t)n); for (auto& x : s) x = U((ll)rr.below(100) - (std::is_unsigned<U>::value ? 0 : 50)); if (std::is_unsigned<T>::value && !std::is_unsigned<U>::value) for (auto& x : s) if (x < U(0)) x = U(0) - x; A.template fill_from_array_no_bias<U>(s.data()); for (ll i = 0; i < n; i++) O.buf[(size_t)i] = T(s[(size_t)i]); };
			switch (g.raw(5)) { case 0: go(float()); break; case 1: go(double()); break; case 2: go((signed char)0); break; case 3: go((unsigned char)0); break; default: go(int()); } break; }
		case 33: { w = "equality"; M c; VP_CK(A.clone_to(c)); if (!(A == c) || A != c) vp::fail("clone differs from source"); ll i = (ll)g.raw((uint64_t)O.numel()); c.data()[i] = T(c.data()[i] + T(1)); if (A == c || !(A != c)) vp::fail("operator== misses a difference at element ", i, " of ", O.numel());
			if (!O.emul) { M d; VP_CK(A.clone_to(d)); d.set_batchInRow(!O.bir); if (A == d) vp::fail("operator== ignores orientation"); } break; }
		}
		ops++; kinds.insert(w);
		verify_all(w);
	}
};
template<class T> static void hist(vp::Gen& g, const char* tn) {
	World<T> W(g); int n = (int)g.z(3, 24 * (size_t)g.scale);
	for (int i = 0; i < World<T>::N; i++) { W.op_construct(i); }
	W.verify_all("construct");
	for (int i = 0; i < n; i++) W.step();
	g.nontrivial(W.kinds.size() >= 3);
	g.say("smatrix history over", tn, "steps", W.ops); for (auto& k : W.kinds) { g.label(k); g.say("+" + k); }
}
VP_TEST(history_float, 4, 800) { hist<float>(g, "float"); }
VP_TEST(history_double, 2, 400) { hist<double>(g, "double"); }
VP_TEST(history_int, 2, 400) { hist<int>(g, "int"); }
VP_TEST(history_u8, 2, 400) { hist<unsigned char>(g, "uint8"); }

// triangular index <-> coordinates is a bijection with the documented enumeration order
VP_TEST(triangular, 1, 200) {
	bool big = g.b(1, 4);
	ll n = big ? (ll)g.z(60, 60000) : (ll)g.z(2, 60);
	ll tot = n * (n - 1) / 2; g.say("triangular n=", n); g.nontrivial(n > 2);
	VP_REQ(numel_cnt_t(smatrix<float>::sNumelTriangl((vec_len_t)n)) == tot, n);
	auto chk = [&](ll k, ll ur, ll uc, ll lr, ll lc) {
		vec_len_t r, c; smatrix<float>::sTrianglCoordsFromIdx<false>((vec_len_t)n, k, r, c); if (r != ur || c != uc) vp::fail("upper k=", k, " n=", n, " got ", r, ",", c, " want ", ur, ",", uc);
		smatrix<float>::sTrianglCoordsFromIdx<true>((vec_len_t)n, k, r, c); if (r != lr || c != lc) vp::fail("lower k=", k, " n=", n, " got ", r, ",", c, " want ", lr, ",", lc);
	};
	if (!big) { // column-major enumeration of strictly upper / strictly lower elements
		std::vector<std::pair<ll, ll>> U, L; for (ll c = 0; c < n; c++) { for (ll r = 0; r < c; r++) U.push_back({ r,c }); for (ll r = c + 1; r < n; r++) L.push_back({ r,c }); }
		for (ll k = 0; k < tot; k++) chk(k, U[(size_t)k].first, U[(size_t)k].second, L[(size_t)k].first, L[(size_t)k].second);
	} else for (int q = 0; q < 40; q++) {
		ll uc = 1 + (ll)g.raw((uint64_t)(n - 1)), ur = g.b(1, 3) ? 0 : g.b(1, 3) ? uc - 1 : (ll)g.raw((uint64_t)uc); ll k = uc * (uc - 1) / 2 + ur;
		ll lk = tot - 1 - k; // the lower enumeration is the upper one reversed through the centre
		vec_len_t r, c; smatrix<float>::sTrianglCoordsFromIdx<false>((vec_len_t)n, k, r, c); if (r != ur || c != uc) vp::fail("upper k=", k, " n=", n, " got ", r, ",", c, " want ", ur, ",", uc);
		smatrix<float>::sTrianglCoordsFromIdx<true>((vec_len_t)n, lk, r, c); if (r != n - 1 - ur || c != n - 1 - uc) vp::fail("lower k=", lk, " n=", n, " got ", r, ",", c);
	}
}
// binary/NaN/denormal-free content tests
template<class T> static void binar(vp::Gen& g) {
	ll r = (ll)g.sz(1, 9), c = (ll)g.sz(1, 9); bool e = g.b(); smatrix_deform<T> A((vec_len_t)r, (vec_len_t)c, e); bool allbin = true, negz = false, nan = false; int mode = (int)g.raw(5);
	for (ll j = 0; j < c; j++) for (ll i = 0; i < r; i++) A.set((vec_len_t)i, (vec_len_t)j, g.b() ? T(1) : T(0));
	if (mode) { ll i = (ll)g.raw((uint64_t)r), j = (ll)g.raw((uint64_t)c); T v = mode == 1 ? T(2) : mode == 2 ? T(-0.0) : mode == 3 ? std::numeric_limits<T>::quiet_NaN() : T(1) + std::numeric_limits<T>::epsilon(); A.set((vec_len_t)i, (vec_len_t)j, v); allbin = mode == 2; negz = mode == 2; nan = mode == 3; }
	g.say("binary test", r, "x", c, "mode", mode); g.nontrivial(mode != 0);
	VP_REQ(A._isBinary(true) == allbin, mode); VP_REQ(A._isBinaryStrict(true) == (allbin && !negz), mode); VP_REQ(A._isBinaryStrictNoBias(true) == (allbin && !negz), mode);
	VP_REQ(A.test_noNaNs() == !nan, mode);
	if (mode != 3) { VP_REQ(A._isAlmostBinary(T(0.25)) == (mode != 1), mode); }
}
VP_TEST(binary_float, 1, 100) { binar<float>(g); }
VP_TEST(binary_double, 1, 100) { binar<double>(g); }
// index ranges
VP_TEST(ranges, 1, 100) {
	ll r = (ll)g.sz(1, 9), c = (ll)g.sz(1, 9); bool e = g.b(), b = g.b(1, 3); smatrix<float> A((vec_len_t)r, (vec_len_t)c, e, b); ll R = A.rows(), C = A.cols(); g.nontrivial(e); g.say("ranges", R, C, e, b);
	math::s_elems_range E((smatrix<float>&)A); VP_CK(E.elmBegin == 0 && E.elmEnd == R * C && E.totalElements() == R * C);
	ll k = g.i(0, R * C), k2 = g.i(k, R * C); math::s_elems_range E2(k, k2); VP_CK(E2.elmBegin == k && E2.elmEnd == k2 && E2.totalElements() == k2 - k);
	if (!(e && b)) { math::s_elems_range E3((smatrix<float>&)A, tag_noBias()); VP_CK(E3.elmBegin == 0 && E3.elmEnd == r * c); }
	ll r0 = g.i(0, R - 1), r1 = g.i(r0, R), c0 = g.i(0, C - 1), c1 = g.i(c0, C);
	math::s_rowcol_range Q1((vec_len_t)r0, (vec_len_t)r1, A); VP_CK(Q1.rowBegin == r0 && Q1.rowEnd == r1 && Q1.colBegin == 0 && Q1.colEnd == C && Q1.totalRows() == r1 - r0 && Q1.totalCols() == C && Q1.can_apply(A));
	math::s_rowcol_range Q2(A, (vec_len_t)c0, (vec_len_t)c1); VP_CK(Q2.rowBegin == 0 && Q2.rowEnd == R && Q2.colBegin == c0 && Q2.colEnd == c1);
	math::s_rowcol_range Q3(A); VP_CK(Q3.rowEnd == R && Q3.colEnd == C && Q3.rowBegin == 0 && Q3.colBegin == 0);
	math::s_rowcol_range Q4(A, tag_noBias()); VP_CK(Q4.rowEnd == r && Q4.colEnd == c);
	bool ib = g.b(); math::s_rowcol_range Q5(A, ib); VP_CK(Q5.rowEnd == (ib ? r : R) && Q5.colEnd == (ib ? c : C));
	math::s_rowcol_range Q6((vec_len_t)r0, (vec_len_t)r1, A, ib); VP_CK(Q6.colEnd == (ib ? c : C) && Q6.rowBegin == r0 && Q6.rowEnd == r1);
	math::s_rowcol_range Q7(A, (vec_len_t)c0, (vec_len_t)c1, ib); VP_CK(Q7.rowEnd == (ib ? r : R) && Q7.colBegin == c0 && Q7.colEnd == c1);
}

// addresses and sizes of matrices too big to be filled here (views on reserved, untouched address space)
#include <sys/mman.h>
template<class T> static void huge_view(vp::Gen& g) {
	static char* base = (char*)mmap(nullptr, (size_t)1 << 42, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == (char*)MAP_FAILED) { g.label("no address space"); return; }
	bool e = g.b(), b = g.b(); ll r = 1ll << g.z(1, 20), c = 1ll << g.z(1, 19); r += g.i(0, 5); c += g.i(0, 5); if ((r + 1) * (c + 1) * (ll)sizeof(T) > (1ll << 42)) r = 1000; ll R = r + (e && b), C = c + (e && !b), N = R * C; T* p = (T*)base;
	smatrix_deform<T> A(p, (vec_len_t)R, (vec_len_t)C, e, false, b); const auto& cA = A; g.say("huge", R, "x", C, "bias", e, "batch in rows", b); g.nontrivial(N * (ll)sizeof(T) > 0x7fffffffll); g.labelif(N > 0x7fffffffll, "more than 2^31 elements");
	VP_REQ(A.numel() == N && A.byte_size() == N * (ll)sizeof(T) && A.end() == p + N && cA.end() == p + N && A.numel_no_bias_sBiR() == r * c && A.end_no_bias_sBiR() == p + r * c && A.numel_sBiR(false) == N && A._universal_range_BiR_aware(false) == N, "sizes: ", A.numel(), " elements ", A.byte_size(), " bytes");
	if (!(e && b)) VP_REQ(A.numel_no_bias() == r * c && A.byte_size_no_bias() == r * c * (ll)sizeof(T) && A.end_no_bias() == p + r * c && A.numel(true) == r * c && cA.end(true) == p + r * c, "sizes without biases: ", A.numel_no_bias());
	VP_REQ(smatrix_td::sNumel((vec_len_t)R, (vec_len_t)C) == N && smatrix_td::sNumel(A.size()) == N, "sNumel()"); if (e && !b) VP_REQ(A.bias_column() == p + R * (C - 1), "bias column");
	for (int q = 0; q < 6; q++) { ll i = g.b() ? R - 1 : (ll)g.raw((uint64_t)R), j = g.b() ? C - 1 : (ll)g.raw((uint64_t)C); VP_REQ(&A.get((vec_len_t)i, (vec_len_t)j) == p + (j * R + i) && &cA.get((vec_len_t)i, (vec_len_t)j) == p + (j * R + i) && &A.get(smatrix_td::mtx_coords_t((vec_len_t)i, (vec_len_t)j)) == p + (j * R + i) && A.colDataAsVec((vec_len_t)j) == p + j * R && cA.colDataAsVec((vec_len_t)j) == p + j * R, "address of element ", i, ",", j, " of ", R, "x", C); }
	math::s_elems_range E(A); VP_REQ(E.elmBegin == 0 && E.elmEnd == N && E.totalElements() == N, "range of all elements ends at ", E.elmEnd, " of ", N); if (!(e && b)) { math::s_elems_range E3(A, tag_noBias()); VP_REQ(E3.elmEnd == r * c, "range without biases ends at ", E3.elmEnd); ll cs = (ll)g.raw((uint64_t)c); auto S = A.submatrix_cols_no_bias((vec_len_t)cs, 1); VP_REQ(S.data() == p + cs * R, "view on column ", cs); smatrix<T> V; V.useExternalStorage_no_bias(A, (vec_len_t)cs, 1); VP_REQ(V.data() == p + cs * R && V.rows() == R && V.cols() == 1, "view on column ", cs); }
}
VP_TEST(huge_views, 1, 100) { switch (g.raw(3)) { case 0: huge_view<float>(g); break; case 1: huge_view<double>(g); break; default: huge_view<unsigned char>(g); } }
