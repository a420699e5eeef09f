// P16: saved state comes back. Values, structures and data sets written through the archive classes are compared with a tree model of the
// file (read back both through the library and through the raw container API); whole networks are saved from one object and loaded into
// another one of the same architecture.
#if VP_ARCH
#include <filesystem>
namespace std { namespace experimental { namespace filesystem = ::std::filesystem; } } // nnet.h includes <filesystem> and names the experimental namespace
#include "net.h"
#include "opts.h"
#else
#include "mc.h"
#include "nntl/nntl.h"
#endif
#include "nntl/_supp/io/matfile.h"
#include <unistd.h>
namespace {
typedef nntl_supp::omatfile<> OM; typedef nntl_supp::omatfileEx<> OX; typedef nntl_supp::imatfile<> IM; typedef OM::FileOpenMode FOM;
static std::string fname(const char* s) { return vp::scratch_dir() + "/" + s + ".mat"; }
struct FileGuard { std::string p; FileGuard(const char* s) : p(fname(s)) { unlink(p.c_str()); } ~FileGuard() { unlink(p.c_str()); } };
#define OKA(ar) VP_REQ(ar.success(), "archive error ", (int)ar.get_last_error(), " ", ar.get_last_error_str())
}
#if VP_ARCH
#define VP_NAME2(a) "saved_net.arch" #a VP_SUF
#define VP_NAME1(a) VP_NAME2(a)
namespace {
struct DoSet { double v; template<class L> auto operator()(L& l, int) const -> decltype((void)l.dropoutPercentActive()) { l.dropoutPercentActive(R(v)); } template<class L> void operator()(L&, long) const {} template<class L> void operator()(L& l) const { (*this)(const_cast<std::decay_t<L>&>(l), 0); } };
struct DoGet { std::vector<double>& o; template<class L> auto operator()(L& l, int) const -> decltype((void)l.dropoutPercentActive()) { o.push_back(double(l.dropoutPercentActive())); } template<class L> void operator()(L&, long) const {} template<class L> void operator()(L& l) const { (*this)(const_cast<std::decay_t<L>&>(l), 0); } };
template<class LP> static std::vector<double> dos(LP& lp) { std::vector<double> v; lp.for_each_layer_exc_input(DoGet{ v }); return v; }
template<class NN, class LP> static void step(NN& nn, LP& lp, MD& X, MD& Y, uint64_t s) { nn.___get_common_data().set_mode_and_batch_size(true, X.rows()); lp.on_batch_size_change(X.rows()); nn.get_iRng().seed64((int64_t)s); lp.fprop(X); lp.bprop(Y); }
static void cmpm(const Mx& a, const Mx& b, double tol, const char* what) { VP_REQ(a.n == b.n && a.c == b.c, what); for (size_t i = 0; i < a.v.size(); i++) if (!(fabsl(a.v[i] - b.v[i]) <= tol * (1 + fabsl(a.v[i])))) vp::fail(what, ": value ", i, " is ", (double)b.v[i], ", the saved network has ", (double)a.v[i]); }
}
static void t_ser(vp::Gen& g) {
	gen_math(g); uint64_t as = g.seed(); long live0 = mxArray::live(); bool other = g.b(1, 6); FileGuard fg("net"); const double TOL = sizeof(R) == 4 ? 1e-4 : 1e-11; int chk = 0;
	{ vp::Gen g1, g2; g1.rnd = vp::Rnd(as); g2.rnd = vp::Rnd(other ? as + 1 : as);
	arch_body(g1, [&](auto& lpA, Arch& A) { arch_body(g2, [&](auto& lpB, Arch& B) {
		auto na = make_nnet(lpA); auto nb = make_nnet(lpB); g.label(A.name); g.say(A.name, g1.desc, A.nin, A.nout); double ws = g.pick({ .5, 1. }); Opts om = gen_opts(g); lpA.for_each_layer_exc_input(om); lpB.for_each_layer_exc_input(om); 
		auto mkx = [&](const Arch& Q, int m, MD& X, MD& Y) { X.will_emulate_biases(); (void)X.resize((vec_len_t)m, (vec_len_t)Q.nin); (void)Y.resize((vec_len_t)m, (vec_len_t)Q.nout); gen_xy(Q, X, Y, g.seed()); };
		// the source network: initialised, maybe trained for some steps, maybe de-initialised again
		int mb = gsz(g, 1, 8), mf = gsz(g, mb, 12); bool tr = g.b(3, 4); VP_REQ((int)na.___init((vec_len_t)mf, (vec_len_t)(tr ? mb : 0), false) == 0, na.get_last_error_string());
		auto LA = learnables(lpA); rnd_weights(LA, g.seed(), ws); bool restr = g.b(1, 3); if (restr) lpA.output_layer().restrict_dL_dZ(R(-.25), R(.125));
		MD dataA, dataY; if (tr) { int k = gsz(g, 0, 3); for (int i = 0; i < k; i++) { MD X, Y; mkx(A, gsz(g, 1, mb), X, Y); step(na, lpA, X, Y, g.seed()); } }
		bool big = false; for (auto& l : LA) for (numel_cnt_t i = 0; i < l.n; i++) if (!(std::fabs(double(l.w[i])) < 6)) big = true; if (big) rnd_weights(LA, 5, ws);
		mkx(A, gsz(g, 1, mf), dataA, dataY); VP_REQ((int)na.fprop(dataA) == 0, na.get_last_error_string()); Mx outA = to_mx(lpA.output_layer().get_activations()); auto WA = save_w(LA); auto DA = dos(lpA);
		int mode = gsz(g, 0, 2); // 0: everything, 1: weights, 2: subset
		bool deinit = mode == 1 && g.b(1, 3); if (deinit) na.deinit();
		using namespace nntl::serialization; auto opts = [&](auto& ar, int m) { if (m == 1) { ar.turn_off_all_options(); ar.m_binary_options[serialize_weights] = true; } if (!tr) ar.m_binary_options[serialize_dropout_mask] = false; };
		std::vector<int> offs; if (mode == 2) for (int o = 0; o < total_options; o++) if (o != serialize_weights && g.b()) offs.push_back(o);
		auto offo = [&](auto& ar) { opts(ar, mode); for (int o : offs) ar.m_binary_options[o] = false; };
		int shape = gsz(g, 0, 2); bool ex = g.b(); g.say("mode", mode, "shape", shape, "train", tr, deinit ? "deinit" : ""); auto save = [&](auto& ar) { offo(ar); VP_REQ((int)ar.open(fg.p) == 0, ar.get_last_error_str()); if (shape == 0) ar & na; else if (shape == 1) ar & make_named_struct("net", na); else ar & make_named_struct("layers", lpA); OKA(ar); VP_REQ((int)ar.close() == 0, ar.get_last_error_str()); };
		bool wapi = shape == 0 && mode == 1 && g.b(); /* the network's own weight files */ if (wapi) { g.label("write_weights"); if (g.b(1, 4)) VP_REQ(!nb.read_weights(fg.p.c_str()) && !nb.read_weights((fg.p + ".none").c_str()), "read_weights() of a file that does not exist"); if (g.b(1, 4)) VP_REQ(!na.write_weights((fg.p + ".dir/none").c_str()), "write_weights() into a folder that does not exist"); VP_REQ(na.write_weights(fg.p.c_str()), "write_weights() failed"); }
		else if (ex) { OX ar; save(ar); } else { OM ar; save(ar); }
		if (!deinit) VP_REQ(save_w(LA) == WA, "saving changed the weights");
		// the destination: not yet initialised, or initialised (and trained) with other weights and parameters
		int st = gsz(g, 0, 3); std::vector<VR> WB0; std::vector<LRef> LB; g.label(st == 0 ? "into a new network" : st == 1 ? "into an initialised network" : st == 3 ? "into a network prepared for fixed batches" : "into a trained network");
		int mbB = gsz(g, 1, 8), mfB = gsz(g, mbB, 12); if (!other) lpB.for_each_layer_exc_input(DoSet{ g.pick({ .25, 1., .75 }) });
		if (st == 3) { VP_REQ((int)nb.init4fixedBatchFprop(dataA.rows()) == 0, nb.get_last_error_string()); LB = learnables(lpB); rnd_weights(LB, g.seed(), ws); MD X, Y; mkx(B, (int)dataA.rows(), X, Y); nb.doFixedBatchFprop(X); WB0 = save_w(LB); }
		else if (st) { VP_REQ((int)nb.___init((vec_len_t)mfB, (vec_len_t)mbB, false) == 0, nb.get_last_error_string()); LB = learnables(lpB); rnd_weights(LB, g.seed(), ws); if (st == 2) { MD X, Y; mkx(B, gsz(g, 1, mbB), X, Y); step(nb, lpB, X, Y, g.seed()); } WB0 = save_w(LB); }
		bool tp = mode == 0 || (mode == 2 && std::find(offs.begin(), offs.end(), (int)serialize_training_parameters) == offs.end());
		bool ok; if (shape == 0 && (wapi ? g.b(3, 4) : g.b(1, 3))) { tp = false; g.label("read_weights"); ok = nb.read_weights(fg.p.c_str()); if (!other) VP_REQ(ok, "read_weights() failed"); }
		else { IM ar; offo(ar); bool wonly = g.b(1, 4); if (wonly) { opts(ar, 1); tp = false; g.label("weights only"); } VP_REQ((int)ar.open(fg.p) == 0, ar.get_last_error_str()); if (shape == 0) ar & nb; else if (shape == 1) ar & make_named_struct("net", nb); else ar & make_named_struct("layers", lpB); ok = ar.success(); if (!other) OKA(ar); ar.close(); }
		if (st == 0 && ok) VP_REQ((int)nb.___init((vec_len_t)mfB, (vec_len_t)mbB, false) == 0, nb.get_last_error_string());
		if (st || ok) LB = learnables(lpB);
		if (other) { // a file of another network
			bool same = LA.size() == LB.size(); if (same) for (size_t i = 0; i < LA.size(); i++) same = same && WA[i].size() == (size_t)LB[i].n && LA[i].rows == LB[i].rows;
			if (st || ok) { if (!same) VP_REQ(!ok, "a file with weights of other sizes was loaded without an error"); for (auto& l : LB) VP_REQ(l.w && l.n, "a layer lost its weights"); g.label(ok ? "other network, same sizes" : "other network refused"); g.nontrivial(!ok); }
			return; }
		VP_REQ(LB.size() == LA.size(), "layers"); for (size_t i = 0; i < LB.size(); i++) { VP_REQ((size_t)LB[i].n == WA[i].size(), A.name, ": loaded weights of ", LB[i].name, " have ", LB[i].n, " elements"); for (numel_cnt_t j = 0; j < LB[i].n; j++) VP_REQ(LB[i].w[j] == WA[i][(size_t)j], A.name, ": weight ", j, " of layer ", LB[i].name, " is ", LB[i].w[j], " after loading, saved ", WA[i][(size_t)j]); }
		if (tp) { auto d = dos(lpB); VP_REQ(d == DA, A.name, ": dropout parameters were not restored"); g.label("parameters restored"); } else { if (restr) lpB.output_layer().restrict_dL_dZ(R(-.25), R(.125)); std::vector<double> q = DA; size_t k = 0; lpB.for_each_layer_exc_input([&](auto& l) { std::vector<double> t; DoGet{ t }(l); if (!t.empty()) { DoSet{ q[k++] }(l); } }); }
		{ MD X((vec_len_t)dataA.rows(), (vec_len_t)A.nin, true); (void)dataA.copy_to(X); if (st == 3) nb.doFixedBatchFprop(X); else VP_REQ((int)nb.fprop(X) == 0, nb.get_last_error_string()); cmpm(outA, to_mx(lpB.output_layer().get_activations()), TOL, "output of the loaded network"); chk++;
			MD X2, Y2; mkx(A, gsz(g, 1, mfB), X2, Y2); VP_REQ((int)nb.fprop(X2) == 0, ""); g_ambig = false; Mx got = to_mx(lpB.output_layer().get_activations()), e = B.ref(to_mx_nb(X2, A.nin)); if (!g_ambig) for (int i = 0; i < e.n; i++) for (int j = 0; j < e.c; j++) VP_REQ(fabsl(got.at(i, j) - e.at(i, j)) <= 2 * e.er(i, j) + 1e-30L, A.name, ": the loaded network computes ", (double)got.at(i, j), " expected ", (double)e.at(i, j)); }
		// and goes on training like the source would
		auto cmpw = [&](const char* what) { LA = learnables(lpA); LB = learnables(lpB); for (size_t i = 0; i < LB.size(); i++) for (numel_cnt_t j = 0; j < LB[i].n; j++) { double a = LA[i].w[j], b = LB[i].w[j]; if (!(std::fabs(a - b) <= (sizeof(R) == 4 ? 2e-3 : 1e-9) * (1 + std::fabs(a)))) vp::fail(A.name, ": after ", what, " weight ", j, " of ", LB[i].name, " is ", b, " in the loaded network and ", a, " in the saved one"); } };
		if (!deinit && tr && !om.stateless()) { VP_REQ(save_w(learnables(lpB)) == save_w(learnables(lpA)), "weights"); na.deinit(); nb.deinit(); VP_REQ((int)na.___init((vec_len_t)mf, (vec_len_t)mb, false) == 0 && (int)nb.___init((vec_len_t)mfB, (vec_len_t)mbB, false) == 0, "init"); }
		WA = save_w(learnables(lpA)); if (!deinit && tr) { int m = std::min(mb, mbB); MD X, Y; mkx(A, gsz(g, 1, m), X, Y); (void)nb.___init(12, (vec_len_t)mbB, false); LB = learnables(lpB); VP_REQ(save_w(LB) == WA, "re-initialisation lost the loaded weights"); uint64_t s = g.seed(); step(na, lpA, X, Y, s); step(nb, lpB, X, Y, s); cmpw("one more training step"); g.label("trained on"); chk++; }
		g.nontrivial(chk > 0);
	}); }); }
	VP_REQ(mxArray::live() == live0, "archive leaked ", mxArray::live() - live0, " arrays");
}
static vp::Reg reg_ser(VP_NAME1(VP_ARCH), 1, 60, t_ser, 60, false);
#else

#include "nntl/train_data/inmem_train_data.h"
static int gsz(vp::Gen& g, int lo, int hi) { return (int)g.z((size_t)lo, (size_t)hi); }
namespace {
template<class F> static void bytype(int t, F f) { switch (t) { case 0: f(int8_t()); break; case 1: f(uint8_t()); break; case 2: f(int32_t()); break; case 3: f(uint32_t()); break; case 4: f(int64_t()); break; case 5: f(uint64_t()); break; case 6: f(float()); break; case 7: f(double()); break; default: f(bool()); } }
static const mxClassID CLS[9] = { mxINT8_CLASS, mxUINT8_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxSINGLE_CLASS, mxDOUBLE_CLASS, mxLOGICAL_CLASS };
// model of an archive
struct N { bool st = false; int t = 0; int r = 0, c = 0; std::string bytes; bool small = false; std::map<std::string, N> f; };
static size_t count(const N& n) { size_t k = 1; for (auto& q : n.f) k += count(q.second); return k; }
template<class T> static T gval(vp::Gen& g, bool small) { if (std::is_same<T, bool>::value) return T(g.b()); if (small) { long long v = g.i(-100, 100); if (!std::is_signed<T>::value && v < 0) v = -v; return T(v); }
	if (std::is_integral<T>::value) { switch (g.raw(4)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); default: return T(g.raw(~0ull >> 1)); } }
	switch (g.raw(6)) { case 0: return T(std::numeric_limits<T>::infinity()); case 1: return T(-0.); case 2: return std::numeric_limits<T>::max(); case 3: return T(-std::numeric_limits<T>::min()); default: return T(g.real(-3, 3) / 7); } }
template<class T> static N nval(const T* p, int t, int r, int c, bool small) { N n; n.t = t; n.r = r; n.c = c; n.small = small; n.bytes.assign((const char*)p, sizeof(T) * (size_t)r * (size_t)c); return n; }
static const char* NM[7] = { "a", "b", "c", "s", "t", "a_long_variable_name_of_exactly_sixty_three_characters_indeed__", "m_weights" };
// a user structure writing a generated tree of fields through the archive (and reading it back against the model)
struct User { vp::Gen* g; N* n; int depth; template<class Ar> std::enable_if_t<Ar::is_saving::value> serialize(Ar& ar, const unsigned); template<class Ar> std::enable_if_t<Ar::is_loading::value> serialize(Ar& ar, const unsigned); };
enum Colour { red, green = 7, blue = 1000000007 };
template<class Ar> static void put(vp::Gen& g, Ar& ar, const char* name, N& parent) {
	int kind = gsz(g, 0, 9);
	if (kind == 9) { Colour e = g.pick({ red, green, blue }); ar & ::nntl::serialization::make_nvp(name, e); size_t v = (size_t)e; parent.f[name] = nval(&v, 5, 1, 1, false); return; }
	int t = gsz(g, 0, kind <= 3 ? 8 : 7); bool small = g.b(); bytype(t, [&](auto z) { typedef decltype(z) T; 
		if (kind <= 3) { T v = gval<T>(g, small); if (g.b()) ar & ::nntl::serialization::make_nvp(name, v); else { const T& cv = v; ar << ::nntl::serialization::make_nvp(name, cv); } parent.f[name] = nval(&v, t, 1, 1, small); }
		else put_m(g, ar, name, parent, t, small, z); }); }
template<class Ar, class T> static std::enable_if_t<!std::is_same<T, bool>::value> put_m(vp::Gen& g, Ar& ar, const char* name, N& parent, int t, bool small, T) {
	int r = gsz(g, 1, 5), c = gsz(g, 1, 5); auto fill = [&](auto& m) { for (numel_cnt_t i = 0; i < m.numel(); i++) m.data()[i] = gval<T>(g, small); };
	if (g.b(1, 3)) { math::smatrix_deform<T> m((vec_len_t)(r + 2), (vec_len_t)c); m.deform_rows((vec_len_t)r); fill(m); ar & ::nntl::serialization::make_nvp(name, m); parent.f[name] = nval(m.data(), t, r, c, small); }
	else if (g.b(1, 3)) { math::smatrix<T> m((vec_len_t)r, (vec_len_t)c, true); math::smatrix<T> d; for (numel_cnt_t i = 0; i < m.numel_no_bias(); i++) m.data()[i] = gval<T>(g, small); ar & ::nntl::serialization::make_nvp(name, m); parent.f[name] = nval(m.data(), t, r, c + 1, small); }
	else { math::smatrix<T> m((vec_len_t)r, (vec_len_t)c); fill(m); ar << ::nntl::serialization::make_nvp(name, m); parent.f[name] = nval(m.data(), t, r, c, small); } }
template<class Ar, class T> static std::enable_if_t<std::is_same<T, bool>::value> put_m(vp::Gen&, Ar&, const char*, N&, int, bool, T) {}
template<class Ar> std::enable_if_t<Ar::is_saving::value> User::serialize(Ar& ar, const unsigned) { int k = gsz(*g, 0, 3); for (int i = 0; i < k; i++) { const char* nm = NM[g->raw(7)]; if (depth < 2 && g->b(1, 3)) { N c; c.st = true; User u{ g, &c, depth + 1 }; ar & ::nntl::serialization::make_named_struct(nm, u); n->f[nm] = c; } else put(*g, ar, nm, *n); } }
// reading: every value comes back, also when converted; what is not there (or is of another kind) is an error that stays until dropped
static int g_chk;
template<class S, class D> static void rd_m(vp::Gen& g, IM& ar, const char* name, const N& n, S, D) {
	math::smatrix<D> m; math::smatrix_deform<D> md; bool def = g.b(1, 3); if (g.b()) { m.will_emulate_biases(); (void)m.resize(2, 3); (void)md.resize(7, 2); }
	if (def) { ar & ::nntl::serialization::make_nvp(name, md); } else ar >> ::nntl::serialization::make_nvp(name, m); VP_REQ(ar.success(), "reading matrix ", name, ": ", ar.get_last_error_str());
	const math::smatrix<D>& q = def ? (const math::smatrix<D>&)md : m; VP_REQ((int)q.rows() == n.r && (int)q.cols() == n.c && !q.emulatesBiases(), "matrix ", name, " saved as ", n.r, "x", n.c, " read as ", q.rows(), "x", q.cols(), " bias ", q.emulatesBiases());
	const S* p = (const S*)n.bytes.data(); for (int i = 0; i < n.r * n.c; i++) { D e = static_cast<D>(p[i]), a = q.data()[i]; VP_REQ(0 == memcmp(&a, &e, sizeof(D)), "matrix ", name, " element ", i, " saved as ", +p[i], " read as ", +a); } g_chk++; }
static void rd(vp::Gen& g, IM& ar, const char* name, N& n) {
	int bad = g.b(1, 8) ? gsz(g, 1, 4) : 0; typedef IM::ErrorCode E; auto err = [&](E e, const char* w) { VP_REQ(ar.get_last_error() == e, w, ": error is ", (int)ar.get_last_error(), " ", ar.get_last_error_str(), " expected ", (int)e); int v = 77; ar & ::nntl::serialization::make_nvp(name, v); VP_REQ(v == 77 && ar.get_last_error() == e, w, ": the error did not stick"); ar._drop_last_error(); g_chk++; g.label("error case"); };
	if (bad == 1) { double d = 5; ar & ::nntl::serialization::make_nvp("no_such_variable", d); VP_REQ(d == 5, "reading an absent variable changed the destination"); err(E::FailedToTransferVariable, "absent variable"); }
	if (bad == 2) { if (n.st) { double d = 5; ar & ::nntl::serialization::make_nvp(name, d); VP_REQ(d == 5, "d"); err(E::WrongVariableTypeHasBeenRead, "structure read as a number"); } else { N e; e.st = true; User u{ &g, &e, 0 }; ar & ::nntl::serialization::make_named_struct(name, u); err(E::WrongVariableTypeHasBeenRead, "number read as a structure"); } }
	if (bad == 3 && !n.st && (n.r > 1 || n.c > 1)) { double d = 5; ar & ::nntl::serialization::make_nvp(name, d); VP_REQ(d == 5, "d"); err(E::WrongVariableTypeHasBeenRead, "matrix read as a scalar"); }
	if (bad == 4 && !n.st && n.r == 1 && n.c == 1 && n.t != 2) { int32_t d = 5; ar & ::nntl::serialization::make_nvp(name, d); VP_REQ(d == 5, "d"); err(E::WrongVariableTypeHasBeenRead, "scalar of another type"); }
	if (n.st) { User u{ &g, &n, 0 }; if (g.b()) ar & ::nntl::serialization::make_named_struct(name, u); else { auto q = ::nntl::serialization::make_named_struct(name, u); ar >> q; } VP_REQ(ar.success(), "reading structure ", name, ": ", ar.get_last_error_str()); return; }
	bool sc = n.r == 1 && n.c == 1 && g.b(2, 3);
	bytype(n.t, [&](auto z) { typedef decltype(z) T; const T* p = (const T*)n.bytes.data();
		if (sc) { T v = T(); ar & ::nntl::serialization::make_nvp(name, v); VP_REQ(ar.success(), "reading scalar ", name, ": ", ar.get_last_error_str()); VP_REQ(0 == memcmp(&v, p, sizeof(T)), "scalar ", name, " saved as ", +*p, " read as ", +v); g_chk++; return; }
		int dt = n.t; if (n.t == 8) dt = 7; if (n.small && g.b(2, 3)) { dt = gsz(g, 0, 7); for (int i = 0; i < n.r * n.c; i++) if (p[i] < T(0) && (dt == 1 || dt == 3 || dt == 5)) dt = 7; if (dt != n.t) g.label("converted"); }
		bytype(dt, [&](auto y) { rd_mm(g, ar, name, n, z, y); }); }); }
template<class S, class D> static std::enable_if_t<!std::is_same<D, bool>::value> rd_mm(vp::Gen& g, IM& ar, const char* name, const N& n, S s, D d) { rd_m(g, ar, name, n, s, d); }
template<class S, class D> static std::enable_if_t<std::is_same<D, bool>::value> rd_mm(vp::Gen&, IM&, const char*, const N&, S, D) {}
template<class Ar> std::enable_if_t<Ar::is_loading::value> User::serialize(Ar& ar, const unsigned) { for (auto& q : n->f) { rd(*g, ar, q.first.c_str(), q.second); VP_REQ(ar.success(), "?"); } }
static void cmp_raw(const mxArray* a, const N& n, const std::string& path) {
	VP_REQ(a, path, " is missing in the file"); VP_REQ(mxIsStruct(a) == n.st, path, n.st ? " is not a structure" : " is a structure"); 
	if (n.st) { VP_REQ(mxGetM(a) == 1 && mxGetN(a) == 1, path, " size"); size_t k = 0; for (auto& f : a->fields) { k++; VP_REQ(n.f.count(f.first), path, " has an unexpected field ", f.first); } VP_REQ(k == n.f.size(), path, " has ", k, " fields, expected ", n.f.size()); for (auto& f : n.f) cmp_raw(mxGetField(a, 0, f.first.c_str()), f.second, path + "." + f.first); return; }
	VP_REQ(mxGetClassID(a) == CLS[n.t], path, " has class ", (int)mxGetClassID(a), " expected ", (int)CLS[n.t]); VP_REQ((int)mxGetM(a) == n.r && (int)mxGetN(a) == n.c, path, " is ", mxGetM(a), "x", mxGetN(a), " expected ", n.r, "x", n.c); VP_REQ(!memcmp(mxGetData(a), n.bytes.data(), n.bytes.size()), path, ": content differs from what was saved"); }
static void cmp_file(const std::string& p, const N& root) { MATFile* m = matOpen(p.c_str(), "r"); VP_REQ(m, "file cannot be opened"); std::unique_ptr<MATFile> gd(m); for (auto& v : m->vars) VP_REQ(root.f.count(v.first), "unexpected variable ", v.first); for (auto& f : root.f) { auto i = m->vars.find(f.first); cmp_raw(i == m->vars.end() ? nullptr : i->second, f.second, f.first); } }
}
namespace {
// where a new structure goes: the archive keeps a stack of containers; "don't nest" sets the current container aside
template<class V> static std::vector<N*> stack_of(V& st, size_t depth) { std::vector<N*> cs; for (size_t i = 0; i < depth; i++) { if (st[i].hid) cs.pop_back(); cs.push_back(&st[i].n); } return cs; }
template<class Ar, class V> static void manual_op(vp::Gen& g, Ar& ar, int op, const char* nm, V& st, N& root, bool canread, size_t& structs, std::true_type) {
	if (op <= 5) { if (st.size() >= 4) return; for (auto& o : st) if (o.name == nm) return; bool upd = canread && g.b(), dn = g.b(1, 3); auto cs = stack_of(st, st.size()); bool hid = dn && !cs.empty(); if (hid) cs.pop_back(); N& par = cs.empty() ? root : *cs.back();
		typename V::value_type o; o.name = nm; o.hid = hid; o.upd = upd; o.n.st = true; if (upd) { auto i = par.f.find(nm); if (i != par.f.end() && i->second.st) { o.n = i->second; g.label("updated structure"); } } VP_REQ((int)ar.save_struct_begin(std::string(nm), upd, dn) == 0, ar.get_last_error_str()); st.push_back(o); g.labelif(hid, "parallel structure"); g.labelif(!hid && st.size() > 1, "nested manual structure"); structs++; g.say("begin", nm, upd, dn); }
	else if (st.empty()) { if (g.b(1, 4)) { VP_REQ(ar.save_struct_end() == Ar::ErrorCode::NoStructToSave, "end without begin: ", ar.get_last_error_str()); ar._drop_last_error(); } }
	else close_top(ar, st, root); g.say(op > 5 ? "end" : ""); }
template<class Ar, class V> static void close_top(Ar& ar, V& st, N& root) { VP_REQ((int)ar.save_struct_end() == 0, ar.get_last_error_str()); auto o = st.back(); auto cs = stack_of(st, st.size() - 1); if (o.hid) cs.pop_back(); (cs.empty() ? root : *cs.back()).f[o.name] = o.n; st.pop_back(); }
template<class Ar, class V> static void manual_op(vp::Gen&, Ar&, int, const char*, V&, N&, bool, size_t&, std::false_type) {}
template<class Ar, class V> static void finish(Ar& ar, V& st, N& root, std::true_type) { while (!st.empty()) close_top(ar, st, root); }
template<class Ar, class V> static void finish(Ar&, V&, N&, std::false_type) {}
}
// histories of saving sessions over one file: variables, structures, manually opened structures (nested, parallel, updated or replaced)
VP_TESTM(archive, 4, 400) {
	long live0 = mxArray::live(); FileGuard fg("arch"); N root; root.st = true; bool exists = false; g_chk = 0; size_t structs = 0; int S = gsz(g, 1, 3);
	for (int s = 0; s < S; s++) {
		int mode = exists ? gsz(g, 0, 2) : gsz(g, 0, 1); bool plain = g.b(1, 4); FOM fom = mode == 0 ? FOM::WriteDelete : mode == 1 ? FOM::UpdateDelete : FOM::UpdateKeepOld;
		if (mode != 2) root.f.clear(); if (mode == 2) g.label("file kept"); g.say("| session", mode, plain ? "plain" : "ex");
		auto ops = [&](auto& ar, auto manual) { typedef std::decay_t<decltype(ar)> Ar; VP_REQ((int)ar.open(fg.p, mode == 0 ? Ar::FileOpenMode::WriteDelete : mode == 1 ? Ar::FileOpenMode::UpdateDelete : Ar::FileOpenMode::UpdateKeepOld) == 0, ar.get_last_error_str()); (void)fom;
			struct Open { std::string name; N n; bool hid; int upd; }; std::vector<Open> st; // open structures; hid: the one below was set aside while this one is open
			int K = gsz(g, 0, 9);
			for (int k = 0; k < K; k++) { const char* nm = NM[g.raw(7)]; int op = gsz(g, 0, decltype(manual)::value ? 7 : 2);
				N& top = st.empty() ? root : st.back().n;
				if (op <= 1) { put(g, ar, nm, top); OKA(ar); }
				else if (op == 2) { N c; c.st = true; User u{ &g, &c, 0 }; ar & ::nntl::serialization::make_named_struct(nm, u); OKA(ar); top.f[nm] = c; structs++; }
				else manual_op(g, ar, op, nm, st, root, mode != 0, structs, manual); }
			finish(ar, st, root, manual); OKA(ar); VP_REQ((int)ar.close() == 0, "close: ", ar.get_last_error_str()); };
		if (plain) { OM ar; ops(ar, std::false_type()); } else { OX ar; ops(ar, std::true_type()); }
		exists = true; VP_REQ(mxArray::live() == live0, "saving leaked ", mxArray::live() - live0, " arrays"); cmp_file(fg.p, root);
		if (s + 1 == S || g.b()) { IM ar; VP_REQ((int)ar.open(fg.p, g.b(1, 4) ? IM::FileOpenMode::UpdateKeepOld : IM::FileOpenMode::Read) == 0, ar.get_last_error_str()); for (auto& q : root.f) if (g.b(3, 4)) rd(g, ar, q.first.c_str(), q.second); VP_REQ((int)ar.close() == 0, "close: ", ar.get_last_error_str()); VP_REQ(mxArray::live() == live0, "reading leaked ", mxArray::live() - live0, " arrays"); cmp_file(fg.p, root); } }
	g.labelif(structs > 0, "structures"); g.nontrivial(count(root) > 3 && g_chk > 0);
}
// data sets
VP_TESTM(data_set, 1, 60) {
	long live0 = mxArray::live(); FileGuard fg("td"); typedef inmem_train_data<R, R> TD; TD a, b; int nt = gsz(g, 1, 9), ne = gsz(g, 1, 9), nx = gsz(g, 1, 5), ny = gsz(g, 1, 4); bool nested = g.b(); vp::Rnd r(g.seed());
	auto mk = [&](int n, int c, bool bias) { MD m((vec_len_t)n, (vec_len_t)c, bias); for (numel_cnt_t i = 0; i < m.numel_no_bias(); i++) m.data()[i] = R(r.unit() * 4 - 2); return m; };
	MD tx = mk(nt, nx, true), ty = mk(nt, ny, false), ex = mk(ne, nx, true), ey = mk(ne, ny, false); std::vector<VR> w{ snap(tx), snap(ty), snap(ex), snap(ey) };
	VP_REQ(a.absorb(std::move(tx), std::move(ty), std::move(ex), std::move(ey)), "absorb"); g.say(nt, ne, nx, ny, nested);
	{ OM ar; VP_REQ((int)ar.open(fg.p) == 0, ""); if (nested) ar & ::nntl::serialization::make_named_struct("td", a); else ar & a; OKA(ar); VP_REQ((int)ar.close() == 0, ""); }
	if (g.b()) { MD x = mk(3, 2, true), y = mk(3, 1, false), x2 = mk(2, 2, true), y2 = mk(2, 1, false); VP_REQ(b.absorb(std::move(x), std::move(y), std::move(x2), std::move(y2)), "absorb"); g.label("over another data set"); }
	{ IM ar; VP_REQ((int)ar.open(fg.p) == 0, ""); if (nested) ar & ::nntl::serialization::make_named_struct("td", b); else ar & b; OKA(ar); VP_REQ((int)ar.close() == 0, ""); }
	VP_REQ(mxArray::live() == live0, "leaked ", mxArray::live() - live0, " arrays"); VP_REQ(!b.empty(), "the loaded data set is empty"); const char* nm[4] = { "train_x", "train_y", "test_x", "test_y" };
	for (int p = 0; p < 2; p++) { TD& t = p ? b : a; const MD* m[4] = { &t.train_x(), &t.train_y(), &t.test_x(), &t.test_y() }; for (int k = 0; k < 4; k++) { VP_REQ((int)m[k]->rows() == (k < 2 ? nt : ne) && (int)m[k]->cols_no_bias() == (k & 1 ? ny : nx) && m[k]->emulatesBiases() == !(k & 1), p ? "loaded " : "saved ", nm[k], " is ", m[k]->rows(), "x", m[k]->cols_no_bias(), " bias ", m[k]->emulatesBiases()); VP_REQ(snap(*m[k]) == w[(size_t)k], nm[k], p ? " differs after loading" : " was changed by saving"); } }
	VP_REQ(a == b, "data sets compare different"); g.nontrivial();
}
#endif
