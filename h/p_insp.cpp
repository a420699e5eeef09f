// P19: what an inspector is told about training is what happens, being inspected changes nothing, and the dumping inspector writes exactly
// the requested epochs, batches and layers with the values that were in use.
#include "nn.h"
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/interface/inspectors/dumper.h"
#include "nntl/_supp/io/matfile.h"
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <map>
#include <set>
#include <sstream>
namespace {
typedef long double LDb;
struct Mt { int r = 0, c = 0; VR v; bool operator==(const Mt& o) const { return r == o.r && c == o.c && (v.empty() || 0 == memcmp(v.data(), o.v.data(), v.size() * sizeof(R))); } bool operator!=(const Mt& o) const { return !(*this == o); } };
template<class X> static Mt mt(const math::smatrix<X>& m) { Mt q; q.r = (int)m.rows(); q.c = (int)m.cols(); if (m.numel()) q.v.assign(m.data(), m.data() + m.numel()); return q; }
typedef std::map<std::string, Mt> Fields; typedef std::map<std::string, Fields> FileC;
struct CondSel { int k = 0; std::vector<numel_cnt_t> E; int N = 0, stride = 0; };
struct AnyCond : public inspector::conds::_i_condDump_base { // the six conditions of the library behind one type
	int k = 0; inspector::conds::EpochNum c0; inspector::conds::EpochNumWLastBatch c1; inspector::conds::EpochNumWFirstNLastBatch c2; inspector::conds::CalcErrByEpochNum c3; inspector::conds::CalcErrOnlyByEpochNum c4; inspector::conds::FirstBatches c5;
	void set(const CondSel& s) { k = s.k; c0.m_epochsToDump = c1.m_epochsToDump = c2.m_epochsToDump = c3.m_epochsToDump = c4.m_epochsToDump = s.E; c2.m_firstNBatches = s.N; c2.m_firstNBatchesStride = s.stride; c5.maxBatches = s.N; c5.stride = s.stride; }
	void on_init_nnet(const numel_cnt_t t)noexcept { switch (k) { case 0: c0.on_init_nnet(t); break; case 1: c1.on_init_nnet(t); break; case 2: c2.on_init_nnet(t); break; case 3: c3.on_init_nnet(t); break; case 4: c4.on_init_nnet(t); break; default: c5.on_init_nnet(t); } }
	bool on_train_epochBegin(const numel_cnt_t e, const numel_cnt_t n)noexcept { switch (k) { case 0: return c0.on_train_epochBegin(e, n); case 1: return c1.on_train_epochBegin(e, n); case 2: return c2.on_train_epochBegin(e, n); case 3: return c3.on_train_epochBegin(e, n); case 4: return c4.on_train_epochBegin(e, n); default: return c5.on_train_epochBegin(e, n); } }
	bool on_train_batchBegin(const numel_cnt_t b, const numel_cnt_t e)noexcept { switch (k) { case 0: return c0.on_train_batchBegin(b, e); case 1: return c1.on_train_batchBegin(b, e); case 2: return c2.on_train_batchBegin(b, e); case 3: return c3.on_train_batchBegin(b, e); case 4: return c4.on_train_batchBegin(b, e); default: return c5.on_train_batchBegin(b, e); } }
	bool on_calcErr(const numel_cnt_t e, const data_set_id_t d)noexcept { switch (k) { case 0: return c0.on_calcErr(e, d); case 1: return c1.on_calcErr(e, d); case 2: return c2.on_calcErr(e, d); case 3: return c3.on_calcErr(e, d); case 4: return c4.on_calcErr(e, d); default: return c5.on_calcErr(e, d); } }
};
struct LInf { int idx, parent; bool opt, learn, top; std::string name; uint64_t type; int neurons, incoming; };
static double g_lrd = 1; static bool g_lrdn = true; // learning-rate dropout of every layer
struct LState { Mt prev, W, Z, act, dZ, dAdZ, dA, dW, gW, upd, Wend, vW, nv, ld, dm; bool hasNv = false, hasLd = false;  bool hasEnd = false, hasUpd = false, hasDAdZ = false, hasDA = false, hasDZ = false, nest = false; double mom = 0; };
struct TRec {
	std::map<int, LInf> L; std::vector<int> topOrder; std::string bad; bool on = true; CondSel cs; bool white = false; std::set<uint64_t> types; std::set<int> idxs;
	int maxEp = 1, nb = 0, ep = -1, bi = -1; bool train = false, back = false, report = false; std::vector<int> st; std::map<int, LState> S; std::set<int> fset, bset; int topPos = -1; Mt lastTop; Mt X, Y; long passes = 0, judged = 0;
	std::string cur; bool curMaybe = false; std::map<std::string, FileC> files; std::set<std::string> maybe; std::set<int> told;
	template<class... A> void fail(A&&... a) { if (bad.empty()) { std::ostringstream o; (void)std::initializer_list<int>{ ((void)(o << a), 0)... }; bad = o.str(); } }
	std::string nm(int i) { auto q = L.find(i); return q == L.end() ? "layer " + std::to_string(i) : q->second.name; }
	bool allowed(int i) { auto q = L.find(i); if (q == L.end()) return false; bool in = types.count(q->second.type) || idxs.count(i); return white ? in : !in; }
	Fields* fl() { if (cur.empty() || st.empty() || !allowed(st.back())) return nullptr; return &files[cur][nm(st.back())]; }
	void put(const char* n, const Mt& m) { if (auto f = fl()) (*f)[n] = m; }
	bool dumpEp(int e) const { if (cs.E.empty()) return e == maxEp - 1; for (auto x : cs.E) if (x >= 0 && std::min<numel_cnt_t>(x, maxEp - 1) == e) return true; return false; }
	int wantBatch() const { int a = dumpEp(ep) && bi == 0, l = dumpEp(ep) && (ep == maxEp - 1 ? bi == nb - 1 : bi == 0), n = bi < cs.N && (bi == 0 || cs.stride <= 1 || bi % cs.stride == 0); switch (cs.k) { case 0: case 3: return a; case 1: return l; case 2: return ep == 0 ? (n ? 1 : l ? 2 : 0) : l; case 4: return 0; default: return n; } }
	bool wantErr(int d) const { if (d != 0 || (cs.k != 3 && cs.k != 4)) return false; if (ep < 0) return std::find(cs.E.begin(), cs.E.end(), numel_cnt_t(-1)) != cs.E.end(); return dumpEp(ep); }
	LState* top(const char* ev) { if (st.empty()) { fail("event ", ev, " outside of any layer"); return nullptr; } return &S[st.back()]; }
};
static TRec* TR = nullptr;
static bool near(LDb a, LDb b, LDb tol) { return !(fabsl(a) < 1e150L) || !(fabsl(b) < 1e150L) || !(tol < 1e150L) || std::fabs(a - b) <= tol + 256 * LDb(std::numeric_limits<R>::min()) || (a != a && b != b); }
struct Tee : public inspector::_dumper<Tee, R, nntl_supp::omatfileEx<>, AnyCond> {
	typedef inspector::_dumper<Tee, R, nntl_supp::omatfileEx<>, AnyCond> B;
	template<typename S> void init_layer(const layer_index_t l, S&& n, const layer_type_id_t t)noexcept { if (TR) { TR->told.insert((int)l); auto q = TR->L.find((int)l); if (q != TR->L.end() && (q->second.name != std::string(n) || q->second.type != (uint64_t)t)) TR->fail("init_layer(", l, ") announces ", n, " of type ", t, " instead of ", q->second.name); } B::init_layer(l, std::forward<S>(n), t); }
	void train_epochBegin(const numel_cnt_t e, const numel_cnt_t n)noexcept { if (TR) { TR->ep = (int)e; TR->nb = (int)n; } B::train_epochBegin(e, n); }
	void train_batchBegin(const numel_cnt_t b)noexcept { if (TR) { auto& t = *TR; t.bi = (int)b; t.train = true; t.back = false; int w = t.on ? t.wantBatch() : 0; if (w) { char n[64]; snprintf(n, 64, "ep%03d_%03d_", t.ep + 1, t.bi); t.cur = std::string(n) + "f.mat"; t.files[t.cur]; if (w == 2) t.maybe.insert(n); } } B::train_batchBegin(b); }
	void train_preFprop(const M& x)noexcept { if (TR) TR->X = mt(x); B::train_preFprop(x); }
	template<typename YT> void train_preBprop(const math::smatrix<YT>& y)noexcept { if (TR) { passEnd(); auto& t = *TR; t.Y = mt(y); t.back = true; t.topPos = (int)t.topOrder.size(); t.bset.clear(); if (!t.cur.empty()) { t.cur[t.cur.size() - 5] = 'b'; t.files[t.cur]; } } B::train_preBprop(y); }
	void train_batchEnd()noexcept { if (TR) { auto& t = *TR; if (!t.st.empty()) t.fail("the backward pass ended inside layer ", t.nm(t.st.back())); for (auto& l : t.L) { bool f = t.fset.count(l.first), b = t.bset.count(l.first); if (b && !f) t.fail("layer ", l.second.name, " was in the backward pass only"); if (l.second.learn && f && !b) t.fail("layer ", l.second.name, " has no backward pass"); } t.train = t.back = false; t.cur.clear(); t.passes++; } B::train_batchEnd(); }
	void train_preCalcError(const data_set_id_t d)noexcept { if (TR) { auto& t = *TR; t.report = true; if (t.on && t.wantErr((int)d)) { char n[64]; snprintf(n, 64, "ep%03d_err_%d.mat", t.ep + 1, (int)d); t.cur = n; t.files[t.cur]; } } B::train_preCalcError(d); }
	void train_postCalcError()noexcept { if (TR) { passEnd(); TR->report = false; TR->cur.clear(); } B::train_postCalcError(); }
	void passEnd() { auto& t = *TR; if (!t.st.empty()) { t.fail("the forward pass ended inside layer ", t.nm(t.st.back())); t.st.clear(); } for (auto& l : t.L) if (!l.second.opt && !t.fset.count(l.first)) t.fail("layer ", l.second.name, " did not report its forward pass"); t.passes++; }
	void fprop_begin(const layer_index_t l, const M& p, const bool tr)noexcept { if (TR) fb((int)l, p, tr); B::fprop_begin(l, p, tr); }
	void fb(int l, const M& p, bool tr) { auto& t = *TR; if (!t.L.count(l)) { t.fail("fprop_begin for unknown layer ", l); return; } LInf& q = t.L[l]; if (l == 0 && t.st.empty()) { if (t.topPos >= 0 && t.report) passEnd(); t.fset.clear(); t.topPos = -1; }
		if (tr != (t.train && !t.report)) t.fail("layer ", q.name, " reports training mode ", tr); if (t.back) t.fail("forward pass of ", q.name, " during the backward pass"); if (!t.fset.insert(l).second) t.fail("layer ", q.name, " reports a second forward pass"); int up = t.st.empty() ? -1 : t.st.back(); if (up != q.parent) t.fail("layer ", q.name, " runs inside ", up < 0 ? std::string("nothing") : t.nm(up)); LState& s = t.S[l]; s.prev = mt(p); 
		if (q.parent < 0) { t.topPos++; if (t.topPos >= (int)t.topOrder.size() || t.topOrder[t.topPos] != l) t.fail("layer ", q.name, " runs out of order"); if (l == 0) { if (t.train && !t.report && s.prev != t.X) t.fail("the input layer received something else than the batch"); } else if (s.prev != t.lastTop) t.fail("layer ", q.name, " received something else than the activations of the layer below"); t.judged++; }
		s.nest = false; t.st.push_back(l); if (auto f = t.fl()) f->clear(); }
	void fprop_end(const M& a)noexcept { if (TR) { auto& t = *TR; if (auto s = t.top("fprop_end")) { t.put("A", mt(a)); s->act = mt(a); LInf& q = t.L[t.st.back()]; if ((int)a.cols_no_bias() != q.neurons) t.fail("layer ", q.name, " of ", q.neurons, " neurons reports activations ", a.rows(), "x", a.cols_no_bias()); if (q.parent < 0) { t.lastTop = s->act; if (a.rows() != s->prev.r) t.fail("layer ", q.name, " received ", s->prev.r, " samples and reports ", a.rows()); } t.st.pop_back(); } } B::fprop_end(a); }
	void fprop_postDropout(const M& a, const M& m)noexcept { if (TR && TR->st.empty()) TR->lastTop = mt(a); B::fprop_postDropout(a, m); } /* dropout of an extended layer follows its fprop_end */
	void fprop_preNesterovMomentum(const M& v, const R m, const M& w)noexcept { if (TR) if (auto s = TR->top("fprop_preNesterovMomentum")) { auto& t = *TR; Mt q; q.r = q.c = 1; q.v = { m }; t.put("f_preNM_vW", mt(v)); t.put("f_preNM_momentum", q); s->vW = mt(v); s->mom = m; if (s->hasEnd && s->Wend != mt(w)) t.fail("the weights of ", t.nm(t.st.back()), " changed between two steps"); s->W = mt(w); s->nest = true; s->hasNv = false; } B::fprop_preNesterovMomentum(v, m, w); }
	void fprop_postNesterovMomentum(const M& v, const M& w)noexcept { if (TR) if (auto s = TR->top("fprop_postNesterovMomentum")) { auto& t = *TR; if (!s->nest) t.fail("fprop_postNesterovMomentum without its counterpart"); if (s->hasNv != (g_lrd < 1 && g_lrdn)) t.fail("learning rate dropout of the Nesterov step of ", t.nm(t.st.back()), s->hasNv ? " is announced" : " is not announced"); for (size_t i = 0; i < s->W.v.size() && (numel_cnt_t)i < w.numel(); i++) { LDb nv = LDb(s->mom) * s->vW.v[i], sv = s->hasNv && i < s->nv.v.size() ? LDb(s->nv.v[i]) : nv; if (!near(v.data()[i], nv, 4 * EPS * fabsl(nv)) || !near(w.data()[i], s->W.v[i] - sv, 4 * EPS * (fabsl(nv) + fabsl((LDb)s->W.v[i])))) { t.fail("Nesterov step of ", t.nm(t.st.back()), ": weight ", i, " becomes ", w.data()[i], " from ", s->W.v[i], " with velocity ", s->vW.v[i], " and momentum ", s->mom); break; } } t.judged++; s->Wend = mt(w); } B::fprop_postNesterovMomentum(v, w); }
	// learning rate dropout: the mask zeroes an update exactly where it is not below the share of active ones
	void lrd(const char* ev, const M& v, const R p, const M& m, Mt& dst, Mt& dm) { auto& t = *TR; if (p != R(g_lrd)) t.fail(ev, " of ", t.nm(t.st.back()), " announces the share ", p, " instead of ", g_lrd); dst = mt(v); dm = mt(m); if (dm.v.size() != dst.v.size()) t.fail(ev, ": mask of another size"); else for (size_t i = 0; i < dm.v.size(); i++) { if (!(dm.v[i] >= 0 && dm.v[i] <= 1)) { t.fail(ev, ": mask value ", dm.v[i]); break; } dst.v[i] *= R(dm.v[i] < p); } }
	void fprop_preLRDropout4NesterovMomentum(const M& v, const R p, const M& m)noexcept { if (TR) if (auto s = TR->top("fprop_preLRDropout4NesterovMomentum")) { auto& t = *TR; Mt q = mt(v); for (size_t i = 0; i < q.v.size() && i < s->vW.v.size(); i++) if (!near(q.v[i], LDb(s->mom) * s->vW.v[i], 4 * EPS * fabsl(LDb(s->mom) * s->vW.v[i]))) { t.fail("learning rate dropout of the Nesterov step of ", t.nm(t.st.back()), " starts from ", q.v[i], " with velocity ", s->vW.v[i]); break; } lrd("fprop_preLRDropout4NesterovMomentum", v, p, m, s->nv, s->dm); s->hasNv = true; } B::fprop_preLRDropout4NesterovMomentum(v, p, m); }
	void fprop_postLRDropout4NesterovMomentum(const M& v)noexcept { if (TR) if (auto s = TR->top("fprop_postLRDropout4NesterovMomentum")) { auto& t = *TR; if (!s->hasNv || mt(v) != s->nv) t.fail("learning rate dropout of the Nesterov step of ", t.nm(t.st.back()), ": result is not the masked step"); t.judged++; } B::fprop_postLRDropout4NesterovMomentum(v); }
	void apply_grad_preLRDropout(const M& d, const R p, const M& m)noexcept { if (TR) if (auto s = TR->top("apply_grad_preLRDropout")) { lrd("apply_grad_preLRDropout", d, p, m, s->ld, s->dm); s->hasLd = true; } B::apply_grad_preLRDropout(d, p, m); }
	void apply_grad_postLRDropout(const M& d)noexcept { if (TR) if (auto s = TR->top("apply_grad_postLRDropout")) { auto& t = *TR; if (!s->hasLd || mt(d) != s->ld) t.fail("learning rate dropout of ", t.nm(t.st.back()), ": result is not the masked update"); t.judged++; } B::apply_grad_postLRDropout(d); }
	void fprop_makePreActivations(const M& w, const M& p)noexcept { if (TR) if (auto s = TR->top("fprop_makePreActivations")) { auto& t = *TR; t.put("W", mt(w)); if (mt(p) != s->prev) t.fail("layer ", t.nm(t.st.back()), " uses other incoming activations than announced"); s->W = mt(w); if (s->hasEnd && s->W != s->Wend) t.fail("the weights of ", t.nm(t.st.back()), " are not those the last step left"); } B::fprop_makePreActivations(w, p); }
	void fprop_preactivations(const M& z)noexcept { if (TR) if (auto s = TR->top("fprop_preactivations")) { auto& t = *TR; const Mt &W = s->W, &P = s->prev; int n = P.r, k = P.c, o = W.r; if (W.c != k || (int)z.rows() != n || (int)z.cols_no_bias() != o) t.fail("pre-activations of ", t.nm(t.st.back()), ": ", z.rows(), "x", z.cols_no_bias(), " from ", n, "x", k, " and weights ", W.r, "x", W.c); else for (int i = 0; i < n; i++) for (int j = 0; j < o; j++) { LDb e = 0, m = 0; for (int q = 0; q < k; q++) { LDb x = LDb(P.v[(size_t)q * n + i]) * W.v[(size_t)q * o + j]; e += x; m += fabsl(x); } if (!near(z.data()[(size_t)j * n + i], e, (k + 4) * EPS * m)) { t.fail("pre-activation (", i, ",", j, ") of ", t.nm(t.st.back()), " reported as ", z.data()[(size_t)j * n + i], " expected ", (double)e); i = n; break; } } t.judged++; } B::fprop_preactivations(z); }
	template<typename T> void bprop_begin(const layer_index_t l, const math::smatrix<T>& d)noexcept { if (TR) bb((int)l, mt(d)); B::bprop_begin(l, d); }
	void bb(int l, const Mt& d) { auto& t = *TR; if (!t.L.count(l)) { t.fail("bprop_begin for unknown layer ", l); return; } LInf& q = t.L[l]; int up = t.st.empty() ? -1 : t.st.back(); if (!t.back) t.fail("backward notification of ", q.name, " outside of a backward pass"); if (up == l) { t.st.push_back(l); return; } if (up != q.parent) t.fail("backward pass of ", q.name, " runs inside ", up < 0 ? std::string("nothing") : t.nm(up)); if (!t.bset.insert(l).second) t.fail("layer ", q.name, " reports a second backward pass"); LState& s = t.S[l]; s.hasDAdZ = s.hasDA = s.hasUpd = s.hasDZ = false;
		if (q.parent < 0) { t.topPos--; if (t.topPos < 1 || t.topOrder[t.topPos] != l) t.fail("backward pass of ", q.name, " out of order"); if (t.topPos == (int)t.topOrder.size() - 1) { if (d != t.Y) t.fail("the output layer received something else than the targets"); } else if (d != t.lastTop) t.fail("layer ", q.name, " received another dL/dA than the layer above produced"); t.judged++; }
		t.st.push_back(l); if (auto f = t.fl()) { f->clear(); (*f)["dLdA"] = d; } }
	void bprop_end(const M& d)noexcept { if (TR) { auto& t = *TR; if (auto s = t.top("bprop_end")) { int l = t.st.back(); LInf& q = t.L[l]; if (q.parent < 0) t.lastTop = mt(d); if (q.learn && s->hasDZ && t.topOrder.size() > 1 && VP_ARCH != 9) { int a = l; while (t.L[a].parent >= 0) a = t.L[a].parent; const Mt &W = s->W, &Z = s->dZ; if (a != t.topOrder[1] && (int)d.rows() == Z.r && (int)d.cols() == W.c - 1) { for (int i = 0; i < Z.r; i++) for (int j = 0; j < W.c - 1; j++) { LDb e = 0, m = 0; for (int k = 0; k < W.r; k++) { LDb x = LDb(Z.v[(size_t)k * Z.r + i]) * W.v[(size_t)j * W.r + k]; e += x; m += fabsl(x); } if (!near(d.data()[(size_t)j * Z.r + i], e, (W.r + 4) * EPS * m)) { t.fail("dL/dA (", i, ",", j, ") passed down by ", q.name, " is ", d.data()[(size_t)j * Z.r + i], " expected ", (double)e); i = Z.r; break; } } t.judged++; } } s->hasDZ = false; t.st.pop_back(); } } B::bprop_end(d); }
	void bprop_finaldLdA(const M& d)noexcept { if (TR) if (auto s = TR->top("bprop_finaldLdA")) { s->dA = mt(d); s->hasDA = true; } B::bprop_finaldLdA(d); }
	void bprop_dAdZ(const M& d)noexcept { if (TR) if (auto s = TR->top("bprop_dAdZ")) { s->dAdZ = mt(d); s->hasDAdZ = true; } B::bprop_dAdZ(d); }
	void bprop_dLdZ(const M& d)noexcept { if (TR) if (auto s = TR->top("bprop_dLdZ")) { auto& t = *TR; s->dZ = mt(d); s->hasDZ = true; t.put("dLdZ", s->dZ); if (s->hasDA) { if (s->dA.v.size() != s->dZ.v.size() || (s->hasDAdZ && s->dAdZ.v.size() != s->dZ.v.size())) t.fail("sizes of dL/dZ and dL/dA of ", t.nm(t.st.back())); else for (size_t i = 0; i < s->dZ.v.size(); i++) { LDb e = LDb(s->dA.v[i]) * (s->hasDAdZ ? LDb(s->dAdZ.v[i]) : 1); if (!near(s->dZ.v[i], e, 4 * EPS * fabsl(e))) { t.fail("dL/dZ ", i, " of ", t.nm(t.st.back()), " is ", s->dZ.v[i], " expected ", (double)e); break; } } t.judged++; } } B::bprop_dLdZ(d); }
	void bprop_postClampdLdZ(const M& d, const R& a, const R& b)noexcept { if (TR) if (auto s = TR->top("bprop_postClampdLdZ")) { auto& t = *TR; Mt q = mt(d); if (q.v.size() != s->dZ.v.size()) t.fail("clamped dL/dZ changes size"); else for (size_t i = 0; i < q.v.size(); i++) if (q.v[i] != std::min(std::max(s->dZ.v[i], std::min(a, b)), std::max(a, b)) && s->dZ.v[i] == s->dZ.v[i]) { t.fail("clamped dL/dZ is ", q.v[i], " from ", s->dZ.v[i], " with bounds ", a, ",", b); break; } s->dZ = q; } B::bprop_postClampdLdZ(d, a, b); }
	void bprop_dLdW(const M& z, const M& p, const M& w)noexcept { if (TR) if (auto s = TR->top("bprop_dLdW")) { auto& t = *TR; Mt Z = mt(z), P = mt(p), D = mt(w); if (Z != s->dZ) t.fail("dL/dW of ", t.nm(t.st.back()), " is announced with another dL/dZ"); if (P != s->prev) t.fail("dL/dW of ", t.nm(t.st.back()), " is computed with other incoming activations than the forward pass"); if (D.r != Z.c || D.c != P.c || Z.r != P.r) t.fail("sizes of dL/dW of ", t.nm(t.st.back())); else for (int i = 0; i < D.r; i++) for (int j = 0; j < D.c; j++) { LDb e = 0, m = 0; for (int k = 0; k < Z.r; k++) { LDb x = LDb(Z.v[(size_t)i * Z.r + k]) * P.v[(size_t)j * P.r + k]; e += x; m += fabsl(x); } e /= Z.r; m /= Z.r; if (!near(D.v[(size_t)j * D.r + i], e, (Z.r + 6) * EPS * m)) { t.fail("dL/dW (", i, ",", j, ") of ", t.nm(t.st.back()), " reported as ", D.v[(size_t)j * D.r + i], " expected ", (double)e); i = D.r; break; } } s->dW = D; t.judged++; } B::bprop_dLdW(z, p, w); }
	void apply_grad_begin(const M& w, const M& d)noexcept { if (TR) if (auto s = TR->top("apply_grad_begin")) { auto& t = *TR; t.put("W", mt(w)); t.put("dLdW", mt(d)); s->gW = mt(w); if (s->gW != s->W) t.fail("the weights of ", t.nm(t.st.back()), " changed between the forward pass and the update"); if (mt(d) != s->dW) t.fail("the update of ", t.nm(t.st.back()), " starts from another dL/dW"); s->hasUpd = s->hasLd = false; } B::apply_grad_begin(w, d); }
	void apply_grad_update(const M& w, const M& u)noexcept { if (TR) if (auto s = TR->top("apply_grad_update")) { auto& t = *TR; t.put("a_WUpd_W", mt(w)); t.put("a_WUpd", mt(u)); s->upd = mt(u); s->hasUpd = true; if (s->hasLd != (g_lrd < 1)) t.fail("learning rate dropout of ", t.nm(t.st.back()), s->hasLd ? " is announced" : " is not announced"); if (s->hasLd && s->upd != s->ld) t.fail("the update of ", t.nm(t.st.back()), " is not what learning rate dropout left"); if (mt(w) != s->gW) t.fail("the weights of ", t.nm(t.st.back()), " changed before the update was applied"); } B::apply_grad_update(w, u); }
	void apply_grad_end(const M& w)noexcept { if (TR) if (auto s = TR->top("apply_grad_end")) { auto& t = *TR; t.put("a_W", mt(w)); s->Wend = mt(w); s->hasEnd = true; if (s->Wend.v.size() != s->gW.v.size()) t.fail("weights change size"); else for (size_t i = 0; i < s->gW.v.size(); i++) { LDb u = s->hasUpd ? LDb(s->upd.v[i]) : 0, e = s->gW.v[i] - u; if (!near(s->Wend.v[i], e, 2 * EPS * (fabsl(e) + fabsl(u)))) { t.fail("weight ", i, " of ", t.nm(t.st.back()), " is ", s->Wend.v[i], " after the update ", (double)u, " of ", s->gW.v[i]); break; } } t.judged++; } B::apply_grad_end(w); }
};
}
#define VP_INSPECTOR Tee
#include "net.h"
#define VP_NAME2(a) "inspect.arch" #a VP_SUF
#define VP_NAME1(a) VP_NAME2(a)
namespace {
struct TreeB { TRec& t; int parent; bool opt;
	template<class L> void sub(L& l, std::true_type) const { l.for_each_packed_layer(TreeB{ t, (int)l.get_layer_idx(), opt || is_pack_gated<L>::value }); } template<class L> void sub(L&, std::false_type) const {}
	template<class L> static int inc(L& l, std::true_type) { return (int)l.get_incoming_neurons_cnt(); } template<class L> static int inc(L&, std::false_type) { return 0; }
	template<class L> void operator()(L& l) const { typedef std::decay_t<L> T; int i = (int)l.get_layer_idx(); LInf q; q.idx = i; q.parent = parent; q.opt = opt; q.learn = nntl::layer_has_gradworks<T>::value; q.top = parent < 0; q.name = l.get_layer_name_str(); q.type = (uint64_t)l.get_layer_type_id(); q.neurons = (int)l.get_neurons_cnt(); t.L[i] = q; if (parent < 0) t.topOrder.push_back(i); sub(l, std::integral_constant<bool, is_layer_pack<T>::value>()); } };
struct Lrd2 { template<class L> std::enable_if_t<nntl::layer_has_gradworks<L>::value> operator()(L& l) const { auto& gw = const_cast<std::decay_t<L>&>(l).get_gradWorks(); gw.LRDropoutPercentActive(R(g_lrd)); gw.setApplyLRDropoutToNesterovMomentum(g_lrdn); } template<class L> std::enable_if_t<!nntl::layer_has_gradworks<L>::value> operator()(L&) const {} };
struct Optm2 { R mom; bool nest; template<class L> std::enable_if_t<nntl::layer_has_gradworks<L>::value> operator()(L& l) const { auto& gw = const_cast<std::decay_t<L>&>(l).get_gradWorks(); if (nest) gw.nesterov_momentum(mom); else gw.momentum(mom); } template<class L> std::enable_if_t<!nntl::layer_has_gradworks<L>::value> operator()(L&) const {} };
struct CapO { std::streambuf* b; ~CapO() { std::cout.rdbuf(b); } };
static void rmfiles(const std::string& d) { if (DIR* q = opendir(d.c_str())) { while (auto e = readdir(q)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((d + "/" + n).c_str()); } closedir(q); } }
struct DirG { std::string d; DirG(const char* s) : d(vp::scratch_dir() + "/" + s) { rmfiles(d); mkdir(d.c_str(), 0700); } ~DirG() { rmfiles(d); rmdir(d.c_str()); } std::set<std::string> list() { std::set<std::string> r; if (DIR* q = opendir(d.c_str())) { while (auto e = readdir(q)) { std::string n = e->d_name; if (n != "." && n != "..") r.insert(n); } closedir(q); } return r; } };
static int cmp_dump(const std::string& path, const std::string& fn, const FileC& ex) { int n = 0; MATFile* m = matOpen(path.c_str(), "r"); VP_REQ(m, "dump file ", fn, " cannot be opened"); std::unique_ptr<MATFile> gd(m); for (auto& v : m->vars) VP_REQ(ex.count(v.first), fn, ": unexpected layer '", v.first, "'");
	for (auto& l : ex) { auto i = m->vars.find(l.first); VP_REQ(i != m->vars.end(), fn, ": layer ", l.first, " is missing"); const mxArray* s = i->second; VP_REQ(mxIsStruct(s), fn, ": ", l.first, " is no structure"); for (auto& f : l.second) { const mxArray* a = mxGetField(s, 0, f.first.c_str()); VP_REQ(a, fn, ": ", l.first, ".", f.first, " is missing"); VP_REQ((int)mxGetM(a) == f.second.r && (int)mxGetN(a) == f.second.c, fn, ": ", l.first, ".", f.first, " is ", mxGetM(a), "x", mxGetN(a), " expected ", f.second.r, "x", f.second.c); VP_REQ(mxGetClassID(a) == (sizeof(R) == 8 ? mxDOUBLE_CLASS : mxSINGLE_CLASS), fn, ": type of ", f.first); const R* p = (const R*)mxGetData(a); for (size_t k = 0; k < f.second.v.size(); k++) { R x = f.second.v[k]; VP_REQ(0 == memcmp(&p[k], &x, sizeof(R)), fn, ": element ", k, " of ", l.first, ".", f.first, " is ", p[k], " but was ", x); } n++; } } return n; }
}
static void t_insp(vp::Gen& g) {
	gen_math(g); uint64_t as = g.seed(); bool twin = g.b(1, 3); long live0 = mxArray::live(); struct Un { ~Un() { TR = nullptr; } } un;
	vp::Gen g1, g2; g1.rnd = vp::Rnd(as); g2.rnd = vp::Rnd(as);
	arch_body(g1, [&](auto& lp, Arch& A) { arch_body(g2, [&](auto& lp2, Arch&) {
		DirG dir("dump"), dir2("none"); auto nn = make_nnet(lp); auto nt = make_nnet(lp2); g.label(A.name); R mom = R(g.pick({ 0., 0., .9, .5 })); bool nest = g.b(); if (mom != 0) { lp.for_each_layer_exc_input(Optm2{ mom, nest }); lp2.for_each_layer_exc_input(Optm2{ mom, nest }); } g_lrd = 1; g_lrdn = g.b(); if (g.b(1, 4)) { g_lrd = (double)R(g.pick({ .5, .8, .1 })); g.label("learning rate dropout"); lp.for_each_layer_exc_input(Lrd2()); lp2.for_each_layer_exc_input(Lrd2()); } g.say(A.name, "momentum", double(mom), nest, "learning rate dropout", g_lrd, g_lrdn);
		auto& I = nn.get_iInspect(); I.set_dir_to_dump(dir.d.c_str()); nt.get_iInspect().set_dir_to_dump(dir2.d.c_str()); nt.get_iInspect().turn_off(); if (g.b(1, 5)) { lp.output_layer().restrict_dL_dZ(R(-.2), R(.1)); lp2.output_layer().restrict_dL_dZ(R(-.2), R(.1)); }
		int n0 = gsz(g, 1, 9), n1 = gsz(g, 1, 6); MD X[2], Y[2]; for (int s = 0; s < 2; s++) { X[s].will_emulate_biases(); (void)X[s].resize(s ? n1 : n0, A.nin); (void)Y[s].resize(s ? n1 : n0, A.nout); gen_xy(A, X[s], Y[s], g.seed()); } inmem_train_data<R> td, td2; auto cp = [](const MD& m) { MD r; if (m.emulatesBiases()) r.will_emulate_biases(); else r.dont_emulate_biases(); (void)r.resize(m.rows(), m.cols_no_bias()); std::copy(m.data(), m.data() + m.numel(), r.data()); return r; };
		VP_REQ(td.absorb(cp(X[0]), cp(Y[0]), cp(X[1]), cp(Y[1])) && td2.absorb(cp(X[0]), cp(Y[0]), cp(X[1]), cp(Y[1])), "absorb");
		std::vector<LRef> Ls, L2; bool first = true, wild = false; int fields = 0, runs = gsz(g, 1, 3); long passes = 0, judged = 0; uint64_t ws = g.seed(); double wsc = g.pick({ .5, 1. }); bool on = true; CondSel cs; bool white = false, listset = false; std::set<uint64_t> types; std::set<int> idxs; TRec base;
		for (int r = 0; r < runs && !wild; r++) {
			TRec t; if (!first) { t.L = base.L; t.topOrder = base.topOrder; }
			int maxEp = gsz(g, 1, 4); if (r == 0 || g.b()) { cs = CondSel(); cs.k = (int)g.raw(6); int ne = gsz(g, 0, 3); for (int i = 0; i < ne; i++) cs.E.push_back((numel_cnt_t)gsz(g, 0, 5) - 1 + (g.b(1, 8) ? 50 : 0)); cs.N = cs.k == 5 ? gsz(g, 1, 4) : gsz(g, 0, 4); cs.stride = gsz(g, 0, 3); I.getCondDump().set(cs); }
			if (r > 0 && g.b(1, 3)) { // lists by layer
				int how = gsz(g, 0, 2); white = how == 1; types.clear(); idxs.clear(); listset = true; if (white) I.setWhiteList(); else I.setBlackList(); if (how) { std::vector<layer_type_id_t> tl; std::vector<layer_index_t> il; for (auto& l : base.L) { if (g.b(1, 4)) { types.insert(l.second.type); tl.push_back((layer_type_id_t)l.second.type); } if (g.b(1, 3)) { idxs.insert(l.first); il.push_back((layer_index_t)l.first); } } bool one = g.b(); if (one) { for (auto q : tl) { if (white) I.whitelist(q); else I.blacklist(q); } for (auto q : il) { if (white) I.whitelist(q); else I.blacklist(q); } } else if (white) { I.whitelist(std::move(tl)); I.whitelist(std::move(il)); } else { I.blacklist(std::move(tl)); I.blacklist(std::move(il)); } } g.say(white ? "white" : "black", "types", types.size(), "indices", idxs.size()); }
			if (g.b(1, 4)) { on = g.b(); if (on) I.turn_on(); else I.turn_off(); } bool force = g.b(1, 4); VP_REQ(I.isInspectorActive() == on, "turn_on/turn_off");
			t.cs = cs; t.white = white; t.types = types; t.idxs = idxs; t.maxEp = maxEp; t.on = on || force; int B = g.b(1, 4) ? 0 : gsz(g, 1, n0), F = B && g.b() ? gsz(g, B, std::max(B, std::max(n0, n1))) : 0; bool all = g.b(2, 3), tonly = g.b(1, 4), imm = g.b(1, 4);
			if (!first && g.b(1, 4)) { int k = gsz(g, 1, 6); MD x((vec_len_t)k, A.nin, true), y((vec_len_t)k, A.nout); gen_xy(A, x, y, g.seed()); VP_REQ((int)nn.fprop(x) == 0 && (!twin || (int)nt.fprop(x) == 0), "fprop"); g.label("inference in between"); }
			g.say("train epochs", maxEp, "batch", B, F, "of", n0, n1, "cond", cs.k, "epochs", cs.E.size(), cs.E.empty() ? 0 : (long)cs.E[0], "N", cs.N, cs.stride, on ? "on" : "off", force ? "forced" : "", all ? "all reports" : "", imm ? "deinit" : "");
			rmfiles(dir.d); int64_t sd = (int64_t)g.seed(); struct NoObs : public training_observer_silent<R> {}; typedef nnet_train_opts<R, NoObs> O; auto mk = [&](bool fo) { std::unique_ptr<O> o(new O((numel_cnt_t)maxEp, all)); o->batchSize(B); if (F) o->maxFpropSize(F); o->noDivergenceCheck(); o->ImmediatelyDeinit(imm).bForceInspectorOnDuringTraining(fo).bReportOnlyTime(tonly); return o; };
			bool f0 = first; auto o1 = mk(force); std::ostringstream os; { CapO c{ std::cout.rdbuf(os.rdbuf()) }; t.told.clear(); TR = &t;
				auto ec = nn.template train<false>(td, *o1, [](numel_cnt_t) noexcept { return true; }, [&]() noexcept { Ls = learnables(lp); if (f0) rnd_weights(Ls, ws, wsc); t.L.clear(); t.topOrder.clear(); lp.for_each_packed_layer(TreeB{ t, -1, false }); nn.get_iRng().seed64(sd); return _nnet_errs::ErrorCode::Success; }); TR = nullptr;
				VP_REQ((int)ec == 0, "train: ", nn.get_last_error_string()); } first = false;
			base.L = t.L; base.topOrder = t.topOrder; for (auto& l : Ls) for (numel_cnt_t i = 0; i < l.n; i++) if (!(std::fabs(double(l.w[i])) < 1e6)) wild = true; g.labelif(wild, "exploded"); if (!t.bad.empty()) vp::fail(A.name, ": ", t.bad);
			for (auto& l : t.L) VP_REQ(t.told.count(l.first), A.name, ": layer ", l.second.name, " was not announced to the inspector for this training"); VP_REQ(I.isInspectorActive() == on, A.name, ": train() left the inspector ", on ? "off" : "on");
			auto ls = dir.list(); for (auto& f : t.files) { bool mb = t.maybe.count(f.first.substr(0, f.first.size() - 5)); if (mb && !ls.count(f.first)) continue; VP_REQ(ls.count(f.first), A.name, ": the requested dump ", f.first, " was not written"); FileC ex; for (auto& l : f.second) ex[l.first] = l.second; fields += cmp_dump(dir.d + "/" + f.first, f.first, ex); } for (auto& f : ls) VP_REQ(t.files.count(f), A.name, ": the file ", f, " was written unasked");
			if (!t.files.empty()) g.label("dumped"); g.labelif(listset, "layer lists"); g.labelif(!cs.E.empty() && *std::min_element(cs.E.begin(), cs.E.end()) < 0, "before the start"); passes += t.passes; judged += t.judged; VP_REQ(mxArray::live() == live0, "the dump leaked ", mxArray::live() - live0, " arrays");
			if (twin) { auto o2 = mk(false); std::ostringstream o; { CapO c{ std::cout.rdbuf(o.rdbuf()) }; auto ec = nt.template train<false>(td2, *o2, [](numel_cnt_t) noexcept { return true; }, [&]() noexcept { L2 = learnables(lp2); if (f0) rnd_weights(L2, ws, wsc); nt.get_iRng().seed64(sd); return _nnet_errs::ErrorCode::Success; }); VP_REQ((int)ec == 0, "train: ", nt.get_last_error_string()); }
				VP_REQ(dir2.list().empty(), A.name, ": a switched-off inspector wrote files"); if (!wild) { double big = 0; for (auto& l : Ls) for (numel_cnt_t i = 0; i < l.n; i++) big = std::max(big, std::fabs(double(l.w[i]))); if (big < 20) { g.label("compared with uninspected training"); for (size_t i = 0; i < Ls.size(); i++) for (numel_cnt_t j = 0; j < Ls[i].n; j++) VP_REQ(std::fabs(double(Ls[i].w[j]) - double(L2[i].w[j])) <= (sizeof(R) == 8 ? 1e-7 : 1e-2) * (1 + std::fabs(double(Ls[i].w[j]))), A.name, ": weight ", j, " of ", Ls[i].name, " is ", Ls[i].w[j], " when inspected and ", L2[i].w[j], " when not"); } } }
		}
		g.nontrivial(passes > 1 && judged > 10 && fields > 0);
	}); });
}
static vp::Reg reg_insp(VP_NAME1(VP_ARCH), 1, 60, t_insp, 60, false);
