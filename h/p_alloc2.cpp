// P20, second part: matrices, data-file readers, data objects, evaluators, weight schemes and generators under failed allocations.
#include "alloc.h"
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/train_data/transf_train_data.h"
#include "nntl/interface/rng/afrand.h"
#include "nntl/interface/rng/afrand_as.h"
#include "nntl/weights_init/static.h"
#define malloc(n) ::al::mget(n)
#include "nntl/_supp/io/binfile.h"
#undef malloc
#include "nntl/_supp/io/jsonreader.h"
#include "trf.h"
#include <sys/syscall.h>
#include <unistd.h>
namespace {
typedef _nnet_errs::ErrorCode EC; typedef nntl_supp::binfile BF; typedef BF::ErrorCode BE; typedef nntl_supp::jsonreader JR; typedef JR::ErrorCode JE;
static int sz(vp::Gen& g, int lo, int hi) { return (int)g.z((size_t)lo, (size_t)hi); }
static void mem_rule(vp::Gen& g) { g.nontrivial(al::fired > 0); }
template<class T> static std::vector<T> cont(const math::smatrix<T>& m) { return m.empty() ? std::vector<T>() : std::vector<T>(m.data(), m.data() + m.numel()); }
template<class MT> static void put(MT& m, int n, int w, bool bias, int sgn, int set) { typedef typename MT::value_type T; if (bias) m.will_emulate_biases(); else m.dont_emulate_biases(); VP_REQ(m.resize((vec_len_t)n, (vec_len_t)w), "resize"); for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) m.set((vec_len_t)i, (vec_len_t)j, T(sgn * code(set, i, j))); }
template<class MT> static void is_sized(const MT& m, int r, int c, bool bias, const char* what) { VP_REQ(!m.empty() && m.data() && (int)m.rows() == r && (int)m.cols_no_bias() == c && m.emulatesBiases() == bias, what, ": the matrix is ", m.rows(), "x", m.cols_no_bias(), m.empty() ? " without storage" : "", ", expected ", r, "x", c); }
// ------------------------------------------------------------------ matrices
template<class MT> static void t_mtx(vp::Gen& g, bool deform) {
	typedef typename MT::value_type T; int r = sz(g, 1, 9), c = sz(g, 1, 9), op = (int)g.raw(deform ? 8 : 6), fails = 1 + (int)g.raw(2); bool bias = g.b(); MT d; if (bias) d.will_emulate_biases(); bool pre = g.b(); if (pre) put(d, sz(g, 1, 9), sz(g, 1, 9), bias, 1, 0);
	static const char* nm[] = { "resize(r,c)", "resize(size)", "resize(like)", "resize(without biases)", "clone_to()", "clone_to_no_bias()", "cloneFrom()", "resize(elements)" }; bool sb = g.b(); math::smatrix_deform<T> s; put(s, r, c, sb, 1, 1); auto s0 = cont(s); g.label(nm[op]); g.say(nm[op], r, c, bias ? "biases" : "", pre ? "over a filled matrix" : ""); if (op == 2) { d.clear(); if (sb) d.will_emulate_biases(); else d.dont_emulate_biases(); bias = sb; }
	auto call = [&](MT& q) -> bool { switch (op) { case 0: return q.resize((vec_len_t)r, (vec_len_t)c); case 1: return q.resize(typename MT::mtx_size_t((vec_len_t)r, (vec_len_t)c)); case 2: return q.resize(s); case 3: return static_cast<math::smatrix<T>&>(q).resize((vec_len_t)r, (vec_len_t)c, math::smatrix_td::tag_noBias()); case 4: return s.clone_to(q); case 5: return s.clone_to_no_bias(q); default: { auto& x = reinterpret_cast<math::smatrix_deform<T>&>(q); return op == 6 ? x.cloneFrom(s) : x.resize((numel_cnt_t)r * c, &bias); } } };
	bool noop = pre && op < 6 && (int)d.rows() == r && (op == 5 ? true : true); (void)noop; bool reached = false;
	for (int f = 0; f < fails; f++) { bool ok = true; al::run(1, true, [&] { ok = call(d); }); if (al::fired) { reached = true; VP_REQ(!ok, nm[op], " returns true though the allocation failed"); VP_REQ(d.empty(), nm[op], " failed but the matrix is not empty"); } else VP_REQ(ok && !d.empty(), nm[op], " without any allocation returned ", ok, d.empty() ? " and leaves the matrix without storage" : ""); VP_REQ(cont(s) == s0, nm[op], " changed the source"); }
	if (g.b(1, 5)) { g.label("dropped after the failure"); g.nontrivial(reached); return; }
	bool ok = call(d); VP_REQ(ok, nm[op], " fails after a failed allocation though memory is available"); VP_REQ(!d.empty(), nm[op], " returned true but the matrix has no storage");
	bool eb = op == 3 || op == 5 ? false : op == 4 || op == 6 ? sb : bias; if (op != 7) is_sized(d, r, c, eb, nm[op]); else { d.data()[0] = T(1); d.data()[r * c - 1] = T(2); }
	if (op >= 4 && op < 7) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) VP_REQ(d.get((vec_len_t)i, (vec_len_t)j) == s.get((vec_len_t)i, (vec_len_t)j), nm[op], ": element ", i, ",", j);
	if (op != 7) { if (eb) for (int i = 0; i < r; i++) VP_REQ(d.get((vec_len_t)i, (vec_len_t)c) == T(1), nm[op], ": bias of row ", i); for (numel_cnt_t i = 0; i < d.numel_no_bias(); i++) d.data()[i] = T(1); }
	g.nontrivial(reached);
}
template<class MT> static void t_ctor(vp::Gen& g) {
	typedef typename MT::value_type T; int r = sz(g, 1, 9), c = sz(g, 1, 9); bool bias = g.b(), bir = g.b(); int op = (int)g.raw(3); al::on = true; al::persist = true; al::cnt = al::fired = 0; al::at = 1; struct Off { ~Off() { al::on = false; } } off; g.say("constructor", op, r, c, bias, bir);
	auto chk = [&](math::smatrix<T>& m) { al::on = false; VP_REQ(m.isAllocationFailed() && m.empty(), "constructor: a failed allocation is not reported"); m.clear(); if (bias) m.will_emulate_biases(); VP_REQ(m.resize((vec_len_t)r, (vec_len_t)c) && !m.isAllocationFailed(), "resize() after a failed constructor"); is_sized(m, r, c, bias, "after a failed constructor"); };
	if (op == 0) { math::smatrix<T> m((vec_len_t)r, (vec_len_t)c, bias, bir); chk(m); } else if (op == 1) { math::smatrix<T> m(bir, (vec_len_t)r, (vec_len_t)c, bias); chk(m); } else if (std::is_same<MT, math::smatrix<T>>::value) { math::smatrix<T> m(typename MT::mtx_size_t((vec_len_t)r, (vec_len_t)c), bias, bir); chk(m); } else { math::smatrix_deform<T> m((vec_len_t)r, (vec_len_t)c, bias, bir); chk(m); }
	g.nontrivial(al::fired > 0);
}
VP_TESTM(matrices, 4, 100) { gen_math(g); if (g.b(1, 4)) { if (g.b()) t_ctor<M>(g); else t_ctor<math::smatrix_deform<unsigned char>>(g); } else switch (g.raw(3)) { case 0: t_mtx<M>(g, false); break; case 1: t_mtx<MD>(g, true); break; default: t_mtx<math::smatrix_deform<unsigned char>>(g, true); } }
VP_TESTM(find_k, 1, 30) { // aggregation of the best values over several batches
	Math& m = gen_math(g); vec_len_t k = (vec_len_t)sz(g, 1, 3), cols = (vec_len_t)sz(g, 1, 5); typedef math::mcwFindKOrdered_hlpr<R, math::Order_Biggest> Q; typename Q::hlprmtx_t H(Q::hlprmtx_size_for(k, cols)); M S(k + 3, cols), a, b; vp::Rnd r(g.seed()); for (numel_cnt_t i = 0; i < S.numel(); i++) S.data()[i] = R(r.below(100)); m.mcwFindKBiggest(S, H, false);
	typename Q::Aggregator A, B; VP_REQ(B.aggregate(H, 0) && B.export_values(b), "aggregation"); if (g.b()) { typename Q::hlprmtx_t H2(Q::hlprmtx_size_for(k + 1, cols)); m.mcwFindKBiggest(S, H2, false); VP_REQ(A.aggregate(H2, 0), "aggregation"); }
	int f = (int)g.raw(3); bool ok = true; long fd = 0; for (int i = 0; i < f; i++) { al::run(1, true, [&] { ok = A.aggregate(H, 0); }); fd += al::fired; VP_REQ(!ok, "aggregate() returns true though the allocation failed"); } VP_REQ(A.aggregate(H, 0), "aggregate() after a failed one");
	al::run(1, true, [&] { ok = A.export_values(a); }); fd += al::fired; VP_REQ(!ok, "export_values() returns true though the allocation failed"); VP_REQ(A.export_values(a) && a.size() == b.size() && cont<R>(a) == cont<R>(b), "values exported after failed allocations differ"); g.nontrivial(fd > 0); }
// ------------------------------------------------------------------ readers
struct TmpF { int fd; std::string path; TmpF(const std::string& s) { fd = (int)syscall(SYS_memfd_create, "vp", 0); if (fd < 0) { FILE* f = tmpfile(); if (!f) vp::fail("no scratch file"); fd = dup(fileno(f)); fclose(f); } size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) vp::fail("scratch file"); o += (size_t)k; } path = "/proc/self/fd/" + std::to_string(fd); } ~TmpF() { close(fd); } };
static void p16(std::string& s, unsigned v) { s += (char)(v & 255); s += (char)(v >> 8 & 255); } static void p32(std::string& s, uint32_t v) { p16(s, v & 65535); p16(s, v >> 16); }
typedef inmem_train_data_stor<R, R> TDS;
static std::vector<R> snap(const TDS& t) { std::vector<R> v; if (t.empty()) return v; for (auto m : { &t.train_x(), &t.train_y(), &t.test_x(), &t.test_y() }) { v.push_back((R)m->rows()); v.push_back((R)m->cols()); v.insert(v.end(), m->data(), m->data() + m->numel()); } return v; }
static void fill_td(TDS& t, const int n[2], int x, int y) { MD a, b, c, d; put(a, n[0], x, true, 1, 0); put(b, n[0], y, false, -1, 0); put(c, n[1], x, true, 1, 1); put(d, n[1], y, false, -1, 1); VP_REQ(t.absorb(std::move(a), std::move(b), std::move(c), std::move(d)), "absorb"); }
static const char* F4[4] = { "train_x", "train_y", "test_x", "test_y" };
static std::string bin_file(vp::Gen& g, int kind, const int n[2], int x, int y) { // kind 0 matrix (train_x of set 0), 1 data set, 2 sequences
	std::string s("nntl", 4); int nf = kind == 1 ? 4 : kind == 0 ? 1 : 2; p16(s, 0); p16(s, (unsigned)(nf + (kind == 2 ? 1 : 0))); p16(s, kind == 2 ? 1u : 0u); if (kind == 2) p16(s, 2);
	for (int f = 0; f < nf; f++) { int set = kind == 1 ? f / 2 : 0, w = kind == 1 && f % 2 ? y : x, rr = n[set], dt = (int)g.raw(2), sg = kind == 1 && f % 2 ? -1 : 1; p32(s, (uint32_t)rr); p32(s, (uint32_t)w); std::string nm = kind == 2 ? "c1" : F4[f]; nm.resize(15, '\0'); s += nm; s += (char)dt; for (int j = 0; j < w; j++) for (int i = 0; i < rr; i++) { double v = sg * code(set, i, j); if (dt == 1) { float q = (float)v; s.append((const char*)&q, 4); } else s.append((const char*)&v, 8); } }
	return s; }
static std::string json_file(int kind, const int n[2], int x, int y) { std::string s = "{"; int nf = kind == 1 ? 4 : 1; for (int f = 0; f < nf; f++) { int set = f / 2, w = f % 2 ? y : x, sg = f % 2 ? -1 : 1; if (f) s += ","; s += "\"" + std::string(F4[f]) + "\":["; for (int j = 0; j < w; j++) { s += j ? ",[" : "["; for (int i = 0; i < n[set]; i++) { if (i) s += ","; s += std::to_string(sg * code(set, i, j)); } s += "]"; } s += "]"; } return s + "}"; }
struct SQ : seq_data<R> { auto& stor() { return this->m_seqStor; } };
VP_TESTM(readers, 3, 80) {
	gen_math(g); int fmt = (int)g.raw(2), kind = (int)g.raw(fmt ? 2 : 3), n[2] = { sz(g, 1, 6), sz(g, 1, 6) }, x = sz(g, 1, 5), y = sz(g, 1, 4); std::string s = fmt ? json_file(kind, n, x, y) : bin_file(g, kind, n, x, y); TmpF t(s); g.label(fmt ? "json" : "binary"); g.label(kind == 0 ? "matrix" : kind == 1 ? "data set" : "sequences"); int no[2] = { sz(g, 1, 4), sz(g, 1, 4) }; bool have = g.b();
	BF bf; JR jr; bool bias = g.b(); long N = 0; TDS want; fill_td(want, n, x, y); auto W = snap(want);
	auto ok = [&](int ec) { return ec == (fmt ? (int)JE::Success : (int)BE::Success); }; auto memerr = [&](int ec) { return fmt ? ec == (int)JE::MemoryAllocationFailed : ec == (int)BE::MemoryAllocationFailed || ec == (int)BE::FailedToAllocateMemoryForDataConvertion; };
	if (kind == 0) {
		{ M d; if (bias) d.will_emulate_biases(); int ec = 0; N = al::run(0, false, [&] { ec = fmt ? (int)jr.read(t.path.c_str(), d) : (int)bf.read(t.path.c_str(), d); }); VP_REQ(ok(ec), "plain read failed with ", ec); }
		long k = 1 + (long)g.raw((uint64_t)N); bool all = g.b(); long lv = al::live; { M d; if (bias) d.will_emulate_biases(); int ec = 0; al::run(k, all, [&] { ec = fmt ? (int)jr.read(t.path.c_str(), d) : (int)bf.read(t.path.c_str(), d); }); g.nontrivial(al::fired > 0); VP_REQ(memerr(ec), "read of a matrix with allocation ", k, " of ", N, " failing returned ", ec); VP_REQ(fmt ? (int)jr.get_last_error() == ec : (int)bf.get_last_error() == ec, "last error");
			d.clear(); ec = fmt ? (int)jr.read(t.path.c_str(), d) : (int)bf.read(t.path.c_str(), d); VP_REQ(ok(ec), "read after a failed allocation returned ", ec); is_sized(d, n[0], x, bias, "matrix read again"); for (int i = 0; i < n[0]; i++) for (int j = 0; j < x; j++) VP_REQ(d.get((vec_len_t)i, (vec_len_t)j) == R(code(0, i, j)), "element ", i, ",", j); } VP_REQ(al::live == lv, "matrices leaked"); }
	else if (kind == 1) { TDS d; if (have) fill_td(d, no, 2, 1); auto o = snap(d); int ec = 0; { TDS e; N = al::run(0, false, [&] { ec = fmt ? (int)jr.read(t.path.c_str(), e) : (int)bf.read(t.path.c_str(), e); }); VP_REQ(ok(ec) && snap(e) == W, "plain read failed with ", ec); }
		long k = 1 + (long)g.raw((uint64_t)N); bool all = g.b(); long lv = al::live; al::run(k, all, [&] { ec = fmt ? (int)jr.read(t.path.c_str(), d) : (int)bf.read(t.path.c_str(), d); }); g.nontrivial(al::fired > 0); VP_REQ(memerr(ec), "read of a data set with allocation ", k, " of ", N, " failing returned ", ec); VP_REQ(snap(d) == o, "a read that ran out of memory changed the data object"); VP_REQ(al::live == lv, al::live - lv, " matrices leaked by a failed read");
		ec = fmt ? (int)jr.read(t.path.c_str(), d) : (int)bf.read(t.path.c_str(), d); VP_REQ(ok(ec) && snap(d) == W, "read after a failed allocation returned ", ec); }
	else { int ec = 0; { SQ e; N = al::run(0, false, [&] { ec = (int)bf.read(t.path.c_str(), static_cast<seq_data<R>&>(e)); }); VP_REQ(ok(ec), "plain read failed with ", ec); } long k = 1 + (long)g.raw((uint64_t)N); bool all = g.b(); long lv = al::live; { SQ d; al::run(k, all, [&] { ec = (int)bf.read(t.path.c_str(), static_cast<seq_data<R>&>(d)); }); } g.nontrivial(al::fired > 0); VP_REQ(memerr(ec), "read of sequences with allocation ", k, " of ", N, " failing returned ", ec); VP_REQ(al::live == lv, "matrices leaked by a failed read");
		SQ d; ec = (int)bf.read(t.path.c_str(), static_cast<seq_data<R>&>(d)); VP_REQ(ok(ec) && d.stor().size() == 1 && d.stor()[0].size() == 2, "read after a failed allocation returned ", ec); }
}
// ------------------------------------------------------------------ data objects
struct HRng { vp::Rnd r; ptrdiff_t operator()(ptrdiff_t n) { return (ptrdiff_t)r.below((uint64_t)n); } };
struct HCD { Math* m; HRng* r; vec_len_t bs; Math& iMath()const { return *m; } Math& get_iMath()const { return *m; } HRng& iRng()const { return *r; } HRng& get_iRng()const { return *r; } vec_len_t input_batch_size()const { return bs; } };
template<class TD> static VR visit(TD& td, Math& m, uint64_t s, bool train, int F, int B) { HRng r{ vp::Rnd(s) }; HCD cd{ &m, &r, 1 }; VR o; auto add = [&] { for (auto q : { (const math::smatrix<R>*)&td.batchX(), (const math::smatrix<R>*)&td.batchY() }) { o.push_back(R(q->batch_size())); for (numel_cnt_t i = 0; i < q->numel(); i++) o.push_back(q->data()[i]); } };
	if (train) { auto nb = td.on_next_epoch(0, cd, (vec_len_t)B); for (numel_cnt_t b = 0; b < nb; b++) { td.on_next_batch(b, cd); add(); } } for (int st = 0; st < 2; st++) { auto nb = td.walk_over_set(st, cd, (vec_len_t)F, td.flag_exclude_nothing); for (numel_cnt_t b = 0; b < nb; b++) { td.next_subset(b, cd); add(); } } return o; }
template<class TD> static void t_td(vp::Gen& g, Math& m, TD& td, TD& tw, int k, const int n[2], const std::function<VR()>& stored) {
	bool train = g.b(2, 3), prior = g.b(); int big = std::max(n[0], n[1]) * k, B0 = k * sz(g, 1, n[0]), F0 = k * sz(g, B0 / k, std::max(big / k, B0 / k)); uint64_t s = g.seed(); VR st = stored(); g.label(train ? "training" : "inference"); g.labelif(prior, "initialised before");
	if (prior) { vec_len_t F = (vec_len_t)(k * sz(g, 1, big / k)); VP_REQ(td.init4inference(m, F) == EC::Success, "init4inference"); if (g.b()) td.deinit4all(); }
	vec_len_t F, B; bool mb = false; auto call = [&](TD& q) { F = (vec_len_t)F0; B = (vec_len_t)B0; return train ? q.init4train(m, F, B, &mb) : q.init4inference(m, F); };
	EC ec; long N = al::run(0, false, [&] { ec = call(tw); }, true); VP_REQ(ec == EC::Success, "initialisation failed with ", (int)ec); if (!N) { g.label("no allocation"); return; } VR want = visit(tw, m, s, train, F0, B0);
	long at = 1 + (long)g.raw((uint64_t)N); bool all = g.b(); g.say("sizes", n[0], n[1], F0, B0, "allocation", at, "of", N); al::run(at, all, [&] { ec = call(td); }, true); g.nontrivial(al::fired > 0); if (!al::fired) return;
	VP_REQ(ec == EC::TdInitNoMemory || (k > 0 && ec == EC::OtherTdInitError), train ? "init4train" : "init4inference", " with allocation ", at, " of ", N, " failing returned ", (int)ec);
	vec_len_t z = 0, z2 = 0; bool fl = false; VP_REQ(!td.is_initialized4inference(z), "the object calls itself initialised after ", train ? "init4train" : "init4inference", " ran out of memory"); z = 0; VP_REQ(!td.is_initialized4train(z, z2, fl), "the object calls itself initialised for training after the initialisation ran out of memory"); VP_REQ(stored() == st, "a failed initialisation changed the stored data");
	if (g.b(1, 4)) td.deinit4all(); ec = call(td); VP_REQ(ec == EC::Success, "initialisation after a failed allocation returned ", (int)ec); VP_REQ(visit(td, m, s, train, F0, B0) == want, "after a failed initialisation the object hands out other samples");
}
VP_TESTM(data, 3, 80) {
	Math& m = gen_math(g); int n[2] = { sz(g, 1, 8), sz(g, 1, 8) }, x = sz(g, 1, 4), y = sz(g, 1, 3); int which = (int)g.raw(3);
	if (which == 0) { inmem_train_data<R> a, b; fill_td(a, n, x, y); fill_td(b, n, x, y); g.label("in memory"); t_td(g, m, a, b, 1, n, [&] { return snap(a); }); }
	else if (which == 1) { int k = sz(g, 1, 3); TDS st; fill_td(st, n, x, y); Trf ta(k), tb(k); transf_train_data<Trf> a(ta, st), b(tb, st); g.label("transformed"); t_td(g, m, a, b, k, n, [&] { return snap(st); }); VP_REQ(!ta.bad, ta.bad ? ta.bad : ""); }
	else { TDS a; fill_td(a, n, x, y); TDS b; bool have = g.b(); int no[2] = { 2, 1 }; if (have) fill_td(b, no, 1, 1); auto o = snap(b), w = snap(a); long at = 1 + (long)g.raw(4); bool all = g.b(), r = true; long lv = al::live; g.label("dupe()"); al::run(at, all, [&] { r = a.dupe(b); }); g.nontrivial(al::fired > 0); VP_REQ(!r && snap(a) == w && snap(b) == o && al::live == lv, "dupe() with allocation ", at, " failing returned ", r, " or changed an object"); VP_REQ(a.dupe(b) && snap(b) == w && snap(a) == w, "dupe() after a failed one"); }
}
// ------------------------------------------------------------------ evaluators
struct TD3 : public _inmem_train_data<TD3, R> { int sets = 2; data_set_id_t datasets_count()const noexcept { return sets; } };
struct EBS { vec_len_t b; vec_len_t biggest()const { return b; } };
struct ECD { Math* m; EBS e; vec_len_t bs; Math& iMath()const { return *m; } Math& get_iMath()const { return *m; } const EBS& get_outBatchSizes()const { return e; } vec_len_t input_batch_size()const { return bs; } };
template<class EV> static void t_eval(vp::Gen& g, bool thr) {
	Math& m = gen_math(g); int n[2] = { sz(g, 1, 12), sz(g, 1, 12) }, c = sz(g, 1, 4); TD3 td; td.sets = g.b() ? 3 : 2; fill_td(td, n, 2, c); vec_len_t F = 0; VP_REQ(td.init4inference(m, F) == EC::Success, "init4inference"); int big = std::max(n[0], n[1]); ECD cd{ &m, { (vec_len_t)big }, 1 };
	{ auto nn = m.mrwIdxsOfMax_needTempMem<R>((vec_len_t)big); m.preinit(nn); m.init(); } EV a, b; bool r = false; long N = al::run(0, false, [&] { r = b.init(td, cd); }, thr); VP_REQ(r && N > 0, "evaluator init"); if (g.b()) VP_REQ(a.init(td, cd), "evaluator init");
	if (g.b()) a.deinit(); long at = 1 + (long)g.raw((uint64_t)N); bool all = g.b(); al::run(at, all, [&] { r = a.init(td, cd); }, thr); g.nontrivial(al::fired > 0); g.say("allocation", at, "of", N); if (al::fired) VP_REQ(!r, "evaluator init returns true though allocation ", at, " of ", N, " failed"); else VP_REQ(r, "init");
	VP_REQ(a.init(td, cd), "evaluator init after a failed allocation"); for (int st = 0; st < td.sets; st++) { M A((vec_len_t)(st < 2 ? n[st] : n[0]), (vec_len_t)c), Y((vec_len_t)(st < 2 ? n[st] : n[0]), (vec_len_t)c); vp::Rnd q(g.seed()); for (numel_cnt_t i = 0; i < A.numel(); i++) { A.data()[i] = R(q.unit()); Y.data()[i] = R(q.unit()); } a.prepare_to_dataset(st, 1); b.prepare_to_dataset(st, 1); auto ra = a.correctlyClassified(st, Y, A, m), rb = b.correctlyClassified(st, Y, A, m); VP_REQ(ra == rb, "after a failed initialisation the evaluator counts ", ra, " instead of ", rb, " on set ", st); }
}
VP_TESTM(evaluators, 2, 60) { if (g.b()) { g.label("binary"); t_eval<eval_classification_binary_cached<R>>(g, false); } else { g.label("one-hot"); t_eval<eval_classification_one_hot_cached<R>>(g, true); } }
// ------------------------------------------------------------------ weight schemes, generators
VP_TESTM(schemes, 1, 40) {
	Math& m = gen_math(g); rng::AFRand<R, AFog::CRandomSFMT0> r(1); int n = sz(g, 1, 6), c = sz(g, 15, 20); M W((vec_len_t)n, (vec_len_t)(c + 1)), U((vec_len_t)n, (vec_len_t)(c + 1)); typedef weights_init::Martens_SI<0, 1000000, 15> S; int64_t sd = (int64_t)g.seed(); bool k = false; r.seed64(sd); long N = al::run(0, false, [&] { k = S::make_weights(U, r, m); }); VP_REQ(k && N > 0, "Martens_SI");
	long at = 1 + (long)g.raw((uint64_t)N); al::run(at, g.b(), [&] { k = S::make_weights(W, r, m); }); g.nontrivial(al::fired > 0); VP_REQ(!k, "Martens_SI returns true though allocation ", at, " of ", N, " failed"); r.seed64(sd); VP_REQ(S::make_weights(W, r, m) && cont<R>(W) == cont<R>(U), "Martens_SI after a failed allocation"); }
VP_TESTM_T(generator, 1, 10, 30, true) {
	Math& m = gen_math(g); rng::AFRand_as<R, AFog::CRandomSFMT0, Thd> r(m.ithreads(), 7); int f = 1 + (int)g.raw(2); for (int i = 0; i < f; i++) { r.preinit_additive_norm((numel_cnt_t)g.z(1, 60)); if (g.b()) r.preinit_additive_normal_distr((numel_cnt_t)g.z(1, 60)); bool k = true; al::run(1, true, [&] { k = r.init_rng(); }); g.nontrivial(al::fired > 0); VP_REQ(!k && !r.isInitialized(), "init_rng() reports success though its buffer could not be allocated"); r.deinit_rng(); }
	r.preinit_additive_norm((numel_cnt_t)g.z(1, 60)); VP_REQ(r.init_rng(), "init_rng() after a failed one"); VR v(20, R(-7)); r.gen_vector_norm(v.data(), 20); for (R q : v) VP_REQ(q >= 0 && q <= 1, "value ", q); r.deinit_rng(); }
}
