// P21: helper containers, call wrappers, tuple algorithms, options, timers and error texts against simple models.
#include "nn.h"
#include <sstream>
#include <map>
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/utils/bwlist.h"
#include "nntl/utils/vector_conditions.h"
#include "nntl/utils/layer_idx_keeper.h"
#include "nntl/utils/layers_settings.h"
#include "nntl/utils/tictoc.h"
#include "nntl/utils/own_or_use_ptr.h"
#include "nntl/utils/scope_exit.h"
#include "nntl/utils/options.h"
#include "nntl/utils/mixins.h"
#include "nntl/utils/lambdas.h"
#include "nntl/utils/tuple_utils.h"
#include "nntl/utils/call_wrappers.h"
#include "nntl/_supp/io/binfile.h"
#include "nntl/_supp/io/jsonreader.h"
using namespace nntl;
namespace {
// ---------------------------------------------------------------- conditions by epoch
VP_TEST(util_conditions, 10, 200) {
	typedef numel_cnt_t N; std::vector<bool> m; int n = (int)g.z(1, 40); N st = (N)g.z(1, 7), b = (N)g.z(1, (size_t)n); int kind = (int)g.raw(5);
	auto dflt = g.b(); std::unique_ptr<vector_conditions> c;
	auto rng = [&](N lo, N hi, N s, bool v) { for (N i = lo - 1; i < hi; i += s) m[(size_t)i] = v; };
	switch (kind) {
	case 0: c.reset(new vector_conditions()); break;
	case 1: c.reset(new vector_conditions((N)n, dflt)); m.assign((size_t)n, dflt); m[(size_t)n - 1] = true; break;
	case 2: c.reset(new vector_conditions((N)n, st)); m.assign((size_t)n, false); rng(st, n, st, true); m[(size_t)n - 1] = true; break;
	case 3: c.reset(new vector_conditions((N)n, b, st)); m.assign((size_t)n, false); rng(b, n, st, true); m[(size_t)n - 1] = true; break;
	default: c.reset(new vector_conditions((N)n)); m.assign((size_t)n, true); }
	g.say("ctor ", kind, " n=", n, " start ", b, " stride ", st, "; "); int steps = (int)g.z(0, 12);
	auto cmp = [&](const char* w) { VP_REQ((size_t)c->size() == m.size() && c->maxEpoch() == c->size(), w, ": size ", c->size(), " expected ", m.size()); for (size_t i = 0; i < m.size(); i++) VP_REQ((*c)((N)i) == m[i], w, ": condition ", i, " of ", m.size(), " is ", (*c)((N)i)); };
	cmp("constructor");
	for (int s = 0; s < steps; s++) {
		int op = (int)g.raw(8); N sz = (N)m.size(); if (!sz && op < 5) op = 5 + (op & 1);
		N lo = sz ? (N)g.z(1, (size_t)sz) : 1, hi = sz ? (N)g.z((size_t)lo, (size_t)sz) : 1, k = (N)g.z(1, 5); bool v = g.b(); g.say("op", op, "(", lo, ",", hi, ",", k, ",", v, ") ");
		switch (op) {
		case 0: VP_REQ(&c->set(lo - 1, v) == c.get(), "set() returns another object"); m[(size_t)lo - 1] = v; break;
		case 1: c->set(lo, hi, k, v); rng(lo, hi, k, v); break;
		case 2: if (v) { c->verbose(lo - 1); m[(size_t)lo - 1] = true; } else { c->silence(lo - 1); m[(size_t)lo - 1] = false; } break;
		case 3: if (v) { c->verbose(lo, hi); rng(lo, hi, 1, true); } else { c->silence(lo, hi); rng(lo, hi, 1, false); } break;
		case 4: if (v) c->verbose(lo, hi, k); else c->silence(lo, hi, k); rng(lo, hi, k, v); break;
		case 5: { N z = (N)g.z(1, 40); c->resize(z, v); m.resize((size_t)z, v); break; }
		case 6: { N z = (N)g.z(1, 40); c->resize(z); m.resize((size_t)z, false); break; }
		default: if (g.b(1, 3)) { c->clear(); m.clear(); } else { std::unique_ptr<vector_conditions> d(new vector_conditions(std::move(*c))); c = std::move(d); } }
		cmp("after an operation"); }
	g.nontrivial(steps > 1 && n > 2); }
// ---------------------------------------------------------------- black/white list of layers
struct BW : utils::_bwlist<float> { typedef utils::_bwlist<float> B; using B::_bwlist_init; using B::_bwlist_updateLayer; using B::_bwlist_layerAllowed; BW(bool w) : B(w) {} BW() {} };
VP_TEST(util_bwlist, 10, 200) {
	bool white = g.b(), useDef = g.b(1, 4); if (useDef) white = false; std::unique_ptr<BW> w(useDef ? new BW() : new BW(white)); std::set<size_t> T, I; int rounds = (int)g.z(1, 3), judged = 0;
	for (int r = 0; r < rounds; r++) {
		int ops = (int)g.z(0, 6);
		for (int o = 0; o < ops; o++) {
			size_t t = g.raw(6), i = g.raw(8); int op = (int)g.raw(8);
			auto swtch = [&](bool to) { if (white != to) { T.clear(); I.clear(); white = to; } };
			bool to = g.b(3, 4) ? white : !white; if (op < 4 && to != white && (T.size() || I.size())) to = white; // switching with entries present is refused (asserted)
			std::vector<layer_type_id_t> tv; std::vector<layer_index_t> iv; for (int q = (int)g.z(1, 3); q--;) { tv.push_back((layer_type_id_t)g.raw(6)); iv.push_back((layer_index_t)g.raw(8)); }
			switch (op) {
			case 0: swtch(to); if (to) w->whitelist((layer_type_id_t)t); else w->blacklist((layer_type_id_t)t); T.insert(t); break;
			case 1: swtch(to); if (to) w->whitelist((layer_index_t)i); else w->blacklist((layer_index_t)i); I.insert(i); break;
			case 2: if (T.size()) break; swtch(to); T.insert(tv.begin(), tv.end()); if (to) w->whitelist(std::move(tv)); else w->blacklist(std::move(tv)); break;
			case 3: if (I.size()) break; swtch(to); I.insert(iv.begin(), iv.end()); if (to) w->whitelist(std::move(iv)); else w->blacklist(std::move(iv)); break;
			case 4: w->resetLists(); T.clear(); I.clear(); break;
			case 5: if (!g.b(1, 3)) break; to = g.b(); w->setMode(to); T.clear(); I.clear(); white = to; break;
			case 6: if (!g.b(1, 3)) break; if (g.b()) { w->setWhiteList(); white = true; } else { w->setBlackList(); white = false; } T.clear(); I.clear(); break;
			default: break; }
			VP_REQ(w->isWhiteList() == white && w->isBlackList() == !white && w->getMode() == white, "mode of the list: white ", w->isWhiteList(), " expected ", white); }
		size_t n = g.z(1, 8); w->_bwlist_init(n); std::vector<size_t> ty(n); for (auto& x : ty) x = g.raw(6);
		std::vector<size_t> ord(n); for (size_t i = 0; i < n; i++) ord[i] = i; if (g.b()) std::reverse(ord.begin(), ord.end()); bool skip = g.b(1, 4); size_t sk = skip ? g.raw((uint32_t)n) : n;
		for (auto i : ord) if (i != sk) w->_bwlist_updateLayer((layer_index_t)i, (layer_type_id_t)ty[i]);
		for (size_t i = 0; i < n; i++) { bool in = i != sk && (T.count(ty[i]) || I.count(i)); VP_REQ(w->_bwlist_layerAllowed((layer_index_t)i) == (white ? in : !in), "layer ", i, " of type ", ty[i], " allowed: ", w->_bwlist_layerAllowed((layer_index_t)i), " by a ", white ? "white" : "black", " list with ", T.size(), " types and ", I.size(), " indices", in ? " listing it" : ""); judged++; } }
	g.labelif(T.size() && I.size(), "types and indices"); g.nontrivial(judged > 2); }
// ---------------------------------------------------------------- stack of layer indices
template<class K, class T> static void keeper(vp::Gen& g, T def) {
	K k; std::vector<T> m; int ops = (int)g.z(1, 30);
	for (int o = 0; o < ops; o++) {
		if (m.size() < K::maxDepth && (m.empty() || g.b(3, 5))) { T v = m.size() && g.b() ? m.back() : (T)g.raw(4); if (g.b()) k.push(v); else { const T c = v; k.push(c); } m.push_back(v); } else { k.pop(); m.pop_back(); }
		VP_REQ(k.size() == m.size(), "size ", k.size(), " expected ", m.size()); T top = m.empty() ? def : m.back(); VP_REQ(k.top() == top && (T)k == top, "top ", k.top(), " expected ", top);
		VP_REQ(k.bUpperLayerDifferent() == (m.size() < 2 || m[m.size() - 1] != m[m.size() - 2]), "bUpperLayerDifferent()");
		if (m.size()) { size_t nl = 0; while (nl + 1 < m.size() && m[m.size() - 2 - nl] == m.back()) nl++; VP_REQ((size_t)k.nestingLevel() == nl, "nestingLevel() ", k.nestingLevel(), " expected ", nl); } }
	while (m.size()) { k.pop(); m.pop_back(); } g.nontrivial(ops > 3); }
VP_TEST(util_layer_idx_keeper, 5, 100) { if (g.b()) keeper<utils::layer_idx_keeper<layer_index_t, 99, 8>, layer_index_t>(g, 99); else keeper<utils::layer_idx_keeper<int, -1, 3>, int>(g, -1); }
// ---------------------------------------------------------------- per-layer settings
struct Live { static int n; int v; Live(int x = -7) : v(x) { n++; } Live(const Live& o) : v(o.v) { n++; } Live(Live&& o) : v(o.v) { o.v = -9; n++; } Live& operator=(const Live&) = default; ~Live() { n--; } }; int Live::n = 0;
VP_TEST(util_layer_settings, 5, 100) {
	Live::n = 0; { int d = -7; std::unique_ptr<utils::layer_settings<Live>> s; if (g.b()) s.reset(new utils::layer_settings<Live>()); else { d = g.i(1, 99); s.reset(new utils::layer_settings<Live>(Live(d))); } std::map<int, int> m; int ops = (int)g.z(1, 15); 
	for (int o = 0; o < ops; o++) {
		int op = (int)g.raw(4), i = (int)g.raw(6), v = g.i(100, 999);
		if (op == 0) { d = v; if (g.b()) s->set_default(Live(v)); else { const Live c(v); s->set_default(c); VP_REQ(c.v == v, "argument changed"); } } else if (op == 1) { const Live c(v); VP_REQ(&s->add((layer_index_t)i, c) == s.get(), "add() returns another object"); m[i] = v; VP_REQ(c.v == v, "argument changed"); } else if (op == 2) { s->add((layer_index_t)i, Live(v)); m[i] = v; }
		else { std::multiset<int> a, b; int inc = (int)g.raw(3); s->for_each([&](Live& l) { a.insert(l.v); l.v += inc; }); b.insert(d); for (auto& x : m) b.insert(x.second); VP_REQ(a == b, "for_each() visits ", a.size(), " settings, ", b.size(), " stored (or other values)"); d += inc; for (auto& x : m) x.second += inc; }
		VP_REQ(s->get_default().v == d, "default is ", s->get_default().v, " expected ", d); for (int q = 0; q < 7; q++) { int e = m.count(q) ? m[q] : d; VP_REQ(s->get((layer_index_t)q).v == e && (*s)[(layer_index_t)q].v == e, "setting of layer ", q, " is ", s->get((layer_index_t)q).v, " expected ", e); }
		VP_REQ((size_t)Live::n == m.size() + 1, Live::n, " settings alive, expected ", m.size() + 1); }
	g.nontrivial(m.size() > 1); } VP_REQ(Live::n == 0, Live::n, " settings leaked"); }
// ---------------------------------------------------------------- durations and timers
static double parse_dur(const std::string& s, std::string* unit = nullptr) { // -> seconds
	char u[16] = {}; double v = 0; if (sscanf(s.c_str(), "%lf %15s", &v, u) != 2) vp::fail("unreadable duration '" + s + "'"); if (unit) *unit = u; std::string q(u); double k = q == "ns" ? 1e-9 : q == "us" ? 1e-6 : q == "ms" ? 1e-3 : q == "s" ? 1 : -1; if (k < 0) vp::fail("unknown unit in '" + s + "'"); return v * k; }
static void ck_dur(const std::string& s, double sec, double tick, const char* w) { std::string u; double v = parse_dur(s, &u), k = u == "ns" ? 1e-9 : u == "us" ? 1e-6 : u == "ms" ? 1e-3 : 1; VP_REQ(std::fabs(v - sec) <= .0006 * k + 1e-9 * std::fabs(sec), w, ": '", s, "' for ", sec, " seconds");
	VP_REQ(std::fabs(v) / k < 1000.0006 || u == "s", w, ": '", s, "' is not in a readable unit"); VP_REQ(sec < 1e-300 || v / k >= .9994 || k <= tick * 1.0001, w, ": '", s, "' is not in a readable unit"); }
static int64_t anyint(vp::Gen& g, int maxdig) { int d = (int)g.z(0, (size_t)maxdig); double lo = std::pow(10., d - 1); if (g.b(1, 4)) { int64_t p = (int64_t)std::pow(10., d); return std::max<int64_t>(0, p - g.i(0, 1)); } return d ? (int64_t)(lo + g.real(0, 9 * lo)) : 0; }
template<class D> static void dur(vp::Gen& g, double tick) { int64_t c = anyint(g, tick < 1e-8 ? 15 : tick < 1e-5 ? 13 : 10); uint64_t rep = g.b() ? 1 : (uint64_t)std::max<int64_t>(1, anyint(g, 7)); double one = -1; g.say(c, " x", tick, " / ", rep); D d(c); std::string s = g.b() ? utils::duration_readable(d, rep, &one) : utils::duration_readable(d, rep);
	if (one >= 0) VP_REQ(std::fabs(one - (double)c / rep) <= 1e-12 * (double)c, "single time ", one, " of ", c, "/", rep); ck_dur(s, (double)c / rep * tick, tick, "duration_readable"); if (rep == 1 && g.b()) ck_dur(utils::duration_readable(d), (double)c * tick, tick, "duration_readable"); g.nontrivial(c > 0); }
VP_TEST(util_duration, 5, 200) { switch (g.raw(4)) { case 0: dur<std::chrono::nanoseconds>(g, 1e-9); break; case 1: dur<std::chrono::microseconds>(g, 1e-6); break; case 2: dur<std::chrono::milliseconds>(g, 1e-3); break; default: dur<std::chrono::seconds>(g, 1); } }
VP_TEST(util_tictoc, 4, 100) {
	utils::tictoc t; std::vector<int64_t> v; int rounds = (int)g.z(1, 2);
	auto cmp = [&] { std::ostringstream o; o << t; VP_REQ(o.str() == t.to_string(), "operator<<"); VP_REQ(t.m_repeats == v.size(), t.m_repeats, " runs counted of ", v.size()); if (v.empty()) { VP_REQ(o.str() == "never run!", o.str()); return; }
		int64_t sum = 0, best = v[0]; for (auto x : v) { sum += x; best = std::min(best, x); } VP_REQ(t.m_dFirstRun.count() == v[0] && t.m_dBestRun.count() == best && t.m_dAllRun.count() == sum, "first ", t.m_dFirstRun.count(), " best ", t.m_dBestRun.count(), " all ", t.m_dAllRun.count(), ", expected ", v[0], " ", best, " ", sum);
		double a, b, c; char u1[9], u2[9], u3[9]; VP_REQ(sscanf(o.str().c_str(), "%lf %8s %lf %8s %lf %8s", &a, u1, &b, u2, &c, u3) == 6, "unreadable '", o.str(), "'"); auto S = [](double x, const char* u) { std::ostringstream q; q << std::fixed; q.precision(3); q << x << ' ' << u; return q.str(); };
		ck_dur(S(a, u1), v[0] * 1e-9, 1e-9, "first run"); ck_dur(S(b, u2), best * 1e-9, 1e-9, "best run"); ck_dur(S(c, u3), (double)sum / v.size() * 1e-9, 1e-9, "mean run"); };
	for (int r = 0; r < rounds; r++) { cmp(); int n = (int)g.z(0, 8); for (int i = 0; i < n; i++) { int64_t x = std::max<int64_t>(1, anyint(g, 12)); t.store(utils::tictoc::duration_t(x)); v.push_back(x); } cmp(); if (g.b()) { t.reset(); v.clear(); cmp(); }
		if (g.b()) { utils::tictoc q; auto t0 = utils::tictoc::now(); q.tic(); q.toc(); auto t1 = utils::tictoc::now(); VP_REQ(q.m_repeats == 1 && q.m_dFirstRun.count() >= 0 && q.m_dFirstRun <= t1 - t0 && q.m_dFirstRun == q.m_dBestRun && q.m_dAllRun == q.m_dFirstRun, "tic()/toc() measured ", q.m_dFirstRun.count()); } }
	g.nontrivial(v.size() > 1); }
// ---------------------------------------------------------------- call wrappers
struct MoveOnly { int v; MoveOnly(int x) : v(x) {} MoveOnly(MoveOnly&& o) : v(o.v) { o.v = -1; } MoveOnly(const MoveOnly&) = delete; };
static int ff_plus(int a, int& b, MoveOnly m) { b += 1; return a + m.v + 5; }
struct FBig { int k; long pad[9]; int operator()(int a, int& b, MoveOnly m) { b += 2; k++; return a * 2 + m.v + k; } };
struct FSmall { int k; int operator()(int a, int& b, MoveOnly m) { b += 3; k++; return a * 3 + m.v + k; } };
struct FMid { int* cnt; int k; int operator()(int a, int& b, MoveOnly m) const { b += 4; ++*cnt; return a * 4 + m.v + k; } };
struct FNT { int* cnt; int k; FNT(int* c, int q) : cnt(c), k(q) {} FNT(const FNT& o) : cnt(o.cnt), k(o.k) { } ~FNT() {} int operator()(int a, int& b, MoveOnly m) { b += 5; ++*cnt; return a * 5 + m.v + k; } };
typedef int Sig(int, int&, MoveOnly);
template<class T> struct IsForw { static constexpr bool v = false; static void swap(T& a, T& b) { std::swap(a, b); } };
template<size_t N> struct IsForw<utils::forwarder<Sig, N>> { static constexpr bool v = true; static void swap(utils::forwarder<Sig, N>& a, utils::forwarder<Sig, N>& b) { a.swap(b); } };
// what a slot currently holds; small functors are held by value (own state), big ones by reference
struct Mdl { int kind = 0, k = 0, *cnt = nullptr; FBig* big = nullptr; };
template<class W, class C, bool Std> static void callers(vp::Gen& g) {
	const int NS = 3; C s[NS]; Mdl m[NS]; int cnt[4] = {}, mc[4] = {}; FBig bigs[2] = { { 1, {} }, { 50, {} } }; FNT nt[2] = { { &cnt[2], 7 }, { &cnt[3], 8 } }; int bk[2] = { 1, 50 }; int ops = (int)g.z(2, 20), calls = 0;
	for (int o = 0; o < ops; o++) {
		int i = (int)g.raw(NS), j = (int)g.raw(NS), op = (int)g.raw(9), k = g.i(0, 99), q = (int)g.raw(2); g.say("op", op, "@", i, " ");
		if (op == 0) { FSmall f{ k }; s[i] = W::wrap(f); f.k = -1000; m[i] = { 1, k, nullptr, nullptr }; }
		else if (op == 1) { s[i] = W::wrap(FSmall{ k }); m[i] = { 1, k, nullptr, nullptr }; }
		else if (op == 2) { const FMid f{ &cnt[q], k }; s[i] = W::wrap(f); m[i] = { 2, k, &mc[q], nullptr }; }
		else if (op == 3) { s[i] = W::wrap(bigs[q]); if (Std) m[i] = { 4, bk[q], nullptr, nullptr }; else { m[i] = { 3, q, nullptr, &bigs[q] }; } g.label("big functor"); }
		else if (op == 4) { s[i] = W::wrap(&ff_plus); m[i] = { 5, 0, nullptr, nullptr }; }
		else if (op == 5) { s[i] = s[j]; m[i] = m[j]; }
		else if (op == 6) { if (g.b()) { C t(s[j]); s[i] = std::move(t); m[i] = m[j]; } else { IsForw<C>::swap(s[i], s[j]); std::swap(m[i], m[j]); } }
		else if (op == 7) { if (m[i].kind) { C c2; if constexpr (!Std) { s[i].reset(); } else s[i] = nullptr; m[i] = Mdl(); } }
		else if constexpr (IsForw<C>::v || Std) { s[i] = W::wrap(nt[q]); m[i] = { 6, nt[q].k, &mc[2 + q], nullptr }; }
		for (int z = 0; z < NS; z++) VP_REQ((bool)s[z] == (m[z].kind != 0), "slot ", z, " says it is ", (bool)s[z] ? "set" : "empty");
		int c = (int)g.raw(NS); if (m[c].kind && g.b(3, 4)) { int a = g.i(-50, 50), b = g.i(0, 9), b0 = b, mv = g.i(0, 9), e = 0, eb = 0; Mdl& d = m[c];
			switch (d.kind) { case 1: e = a * 3 + mv + ++d.k; eb = 3; break; case 2: e = a * 4 + mv + d.k; eb = 4; ++*d.cnt; break; case 3: e = a * 2 + mv + ++bk[d.k]; eb = 2; break; case 4: e = a * 2 + mv + ++d.k; eb = 2; break; case 5: e = a + mv + 5; eb = 1; break; default: e = a * 5 + mv + d.k; eb = 5; ++*d.cnt; }
			const C& cc = s[c]; int r = cc(a, b, MoveOnly(mv)); calls++; VP_REQ(r == e && b == b0 + eb, "call of kind ", d.kind, " returned ", r, " expected ", e, "; reference argument ", b, " expected ", b0 + eb); for (int z = 0; z < 4; z++) VP_REQ(cnt[z] == mc[z], "functor ", z, " was called ", cnt[z], " times, expected ", mc[z]); for (int z = 0; z < 2; z++) VP_REQ(bigs[z].k == bk[z], "state of a functor too big to store: ", bigs[z].k, " expected ", bk[z]); } }
	g.nontrivial(calls > 1); }
VP_TEST(util_callers, 10, 200) { switch (g.raw(5)) { case 0: callers<utils::cmcforwarderWrapper<2 * sizeof(void*)>, utils::cmcforwarderWrapper<2 * sizeof(void*)>::call_tpl<Sig>, false>(g); break; case 1: callers<utils::forwarderWrapper<>, utils::forwarderWrapper<>::call_tpl<Sig>, false>(g); break; case 2: callers<utils::cmcforwarderWrapper<>, utils::cmcforwarderWrapper<>::call_tpl<Sig>, false>(g); break;
	case 3: callers<utils::forwarderWrapper<2 * sizeof(void*)>, utils::forwarderWrapper<2 * sizeof(void*)>::call_tpl<Sig>, false>(g); break; default: callers<utils::simpleWrapper<std::function>, std::function<Sig>, true>(g); } }
// ---------------------------------------------------------------- tuple algorithms
template<int K> struct El { int v; bool moved = false; };
struct Rec { std::vector<int>* o; template<class T> void operator()(T&& e) const { o->push_back(e.v * 4 + (std::is_lvalue_reference<T&&>::value ? 1 : 0) + (std::is_const<std::remove_reference_t<T>>::value ? 2 : 0)); } };
struct RecP { std::vector<int>* o; template<class A, class B> void operator()(A&& a, B&& b, bool first) const { o->push_back(a.v); o->push_back(b.v); o->push_back(first); } };
struct Inc { template<class T> void operator()(T& e) const { e.v++; } };
template<class Tup, size_t... I> static void fillt(vp::Gen& g, Tup& t, std::vector<int>& v, std::index_sequence<I...>) { int d[] = { (std::get<I>(t).v = g.i(0, 999), v.push_back(std::get<I>(t).v), 0)... }; (void)d; }
template<class Tup, size_t... I> static std::vector<int> vals(const Tup& t, std::index_sequence<I...>) { return { std::get<I>(t).v... }; }
template<class Tup> static void tups(vp::Gen& g) {
	constexpr size_t N = std::tuple_size<Tup>::value; Tup t; std::vector<int> v; fillt(g, t, v, std::make_index_sequence<N>()); const Tup& ct = t; std::vector<int> o; Rec r{ &o }; int mode = (int)g.raw(3);
	auto expect = [&](const char* w, size_t from, size_t to, bool down, bool lastFwd) { std::vector<int> e; for (size_t i = from; i < to; i++) e.push_back(v[i] * 4 + (mode == 1 ? 3 : 1)); if (down) std::reverse(e.begin(), e.end()); (void)lastFwd; if (mode == 2) { for (auto& x : e) x &= ~3; for (auto& x : o) x &= ~3; } VP_REQ(o == e, w, " over ", N, " elements visits ", o.size(), " of ", e.size(), " (or others, or in another order)"); o.clear(); };
#define VP_CALLT(fn) do { if (mode == 0) tuple_utils::fn(t, r); else if (mode == 1) tuple_utils::fn(ct, r); else tuple_utils::fn(Tup(t), Rec{ &o }); } while (0)
	VP_CALLT(for_each_up); expect("for_each_up", 0, N, false, true); VP_CALLT(for_each_down); expect("for_each_down", 0, N, true, true);
	if constexpr (N > 1) { VP_CALLT(for_each_exc_last_up); expect("for_each_exc_last_up", 0, N - 1, false, true); VP_CALLT(for_each_exc_first_up); expect("for_each_exc_first_up", 1, N, false, true); VP_CALLT(for_each_exc_first_down); expect("for_each_exc_first_down", 1, N, true, true);
		RecP p{ &o }; if (mode == 0) tuple_utils::for_eachwp_up(t, p); else if (mode == 1) tuple_utils::for_eachwp_up(ct, p); else tuple_utils::for_eachwp_up(Tup(t), RecP{ &o }); std::vector<int> e; for (size_t i = 1; i < N; i++) { e.push_back(v[i]); e.push_back(v[i - 1]); e.push_back(i == 1); } VP_REQ(o == e, "for_eachwp_up over ", N, " elements"); o.clear();
		auto st = tuple_utils::subtuple_trim_tail<1>(ct); VP_REQ(vals(st, std::make_index_sequence<N - 1>()) == std::vector<int>(v.begin(), v.end() - 1) && std::tuple_size<decltype(st)>::value == N - 1, "subtuple_trim_tail<1>"); 
		tuple_utils::for_each_exc_first_up(t, Inc()); for (size_t i = 1; i < N; i++) v[i]++; }
	auto s0 = tuple_utils::subtuple_trim_tail<0>(ct); VP_REQ(vals(s0, std::make_index_sequence<N>()) == v, "subtuple_trim_tail<0>"); tuple_utils::for_each_up(t, Inc()); for (auto& x : v) x++; VP_REQ(vals(t, std::make_index_sequence<N>()) == v, "elements changed by the visitor");
	if constexpr (N > 2) { auto s2 = tuple_utils::subtuple_trim_tail<2>(ct); VP_REQ(vals(s2, std::make_index_sequence<N - 2>()) == std::vector<int>(v.begin(), v.end() - 2), "subtuple_trim_tail<2>"); }
	g.nontrivial(N > 1); }
template<class T> struct isE1 : std::is_same<T, El<1>> {};
VP_TEST(util_tuples, 5, 100) {
	switch (g.raw(5)) { case 0: tups<std::tuple<El<0>>>(g); break; case 1: tups<std::tuple<El<0>, El<1>>>(g); break; case 2: tups<std::tuple<El<0>, El<0>, El<1>>>(g); break; case 3: tups<std::tuple<El<2>, El<1>, El<1>, El<0>>>(g); break; default: tups<std::tuple<El<0>, El<1>, El<2>, El<3>, El<4>, El<5>, El<6>>>(g); }
	typedef std::tuple<El<2>, El<1>, El<1>, El<0>> T; namespace u = tuple_utils; T t; bool k = (u::get_element_idx<El<2>>(t)) == 0 && (u::get_element_idx<El<1>>(t)) == 1 && (u::get_element_idx<El<0>>(t)) == 3 && (u::get_element_idx<El<9>>(t)) == 4 && (u::get_element_idx<int, char, int, int>()) == 1; VP_REQ(k, "get_element_idx");
	k = (u::tuple_element_idx_safe<El<2>, T>::value) == 0 && (u::tuple_element_idx_safe<El<1>, T>::value) == 1 && (u::tuple_element_idx_safe<El<0>, T>::value) == 3 && (u::tuple_element_idx_safe<El<9>, T>::value) == 4; VP_REQ(k, "tuple_element_idx_safe");
	k = std::is_same<u::remove_last_n<2, El<2>, El<1>, El<0>>::type, std::tuple<El<2>>>::value && std::is_same<u::remove_last_n<0, El<2>, El<1>>::type, std::tuple<El<2>, El<1>>>::value; VP_REQ(k, "remove_last_n");
	k = u::is_tuple<T>::value && u::is_tuple<const T>::value && !u::is_tuple<int>::value && u::is_tuple_or_void<void>::value && u::is_tuple_or_void<T>::value && !u::is_tuple_or_void<El<1>>::value; VP_REQ(k, "is_tuple");
	k = u::aggregate<std::disjunction, isE1, T>::value && !u::aggregate<std::conjunction, isE1, T>::value && u::aggregate<std::conjunction, isE1, std::tuple<El<1>, El<1>>>::value && !u::aggregate<std::disjunction, isE1, std::tuple<El<2>>>::value; VP_REQ(k, "aggregate"); }
// ---------------------------------------------------------------- options
struct OptE { enum E { o0, o1, o2, o3, o4, total_options }; }; struct WithOpt : utils::binary_options<OptE::E> {}; struct NoOpt {};
struct AR : utils::binary_options<OptE::E> {};
template<class F, class C, size_t I> struct MxA { enum { a0, a1, opts_total }; static constexpr size_t idx = I; }; template<class F, class C, size_t I> struct MxB { enum { opts_total }; static constexpr size_t idx = I; }; template<class F, class C, size_t I> struct MxC { enum { c0, c1, c2, opts_total }; static constexpr size_t idx = I; };
namespace mx = utils::mixins; typedef mx::indexed::make_mixin_vec<int, int, MxA, MxB, MxC> MV; typedef mx::make_mixin_options_count_vec_c<MV, 4> MOC; typedef mx::make_cumsum_vec_c<MOC> MCS; constexpr size_t MTot = mx::get_cumsum<MOC>::type::value;
VP_TEST(util_options, 5, 100) {
	{ AR a; std::vector<bool> m(5, false); int ops = (int)g.z(1, 10); for (int o = 0; o < ops; o++) { int q = (int)g.raw(4); if (q == 0) { a.turn_on_all_options(); m.assign(5, true); } else if (q == 1) { a.turn_off_all_options(); m.assign(5, false); } else { size_t i = g.raw(5); bool b = g.b(); a.m_binary_options[i] = b; m[i] = b; } for (size_t i = 0; i < 5; i++) VP_REQ((utils::binary_option<true>(a, (OptE::E)i)) == m[i] && (utils::binary_option(a, (OptE::E)i)) == m[i], "option ", i); } NoOpt n; VP_REQ((utils::binary_option<true>(n, (size_t)g.raw(5))) == true && (utils::binary_option(n, (size_t)g.raw(5))) == false && (utils::binary_option<false>(n, (size_t)1)) == false, "default of a missing option"); }
	bool k = MTot == 9; VP_REQ(k, "total number of options of the mixins ", MTot); k = boost::mpl::at_c<MV, 0>::type::idx == 1 && boost::mpl::at_c<MV, 1>::type::idx == 2 && boost::mpl::at_c<MV, 2>::type::idx == 3; VP_REQ(k, "indices of the mixins");
	mx::binary_options_storage<MCS, MTot> st; bool m[4][4] = {}; const size_t cn[4] = { 4, 2, 0, 3 }; int ops = (int)g.z(1, 20);
	for (int o = 0; o < ops; o++) { size_t w = g.pick({ 0, 1, 3 }), i = g.raw((uint32_t)cn[w]); bool b = g.b(); if (w == 0) st.set<0>(i, b); else if (w == 1) st.set<1>(i, b); else st.set<3>(i, b); m[w][i] = b; for (size_t q = 0; q < 4; q++) for (size_t z = 0; z < cn[q]; z++) { bool v = q == 0 ? st.get<0>(z) : q == 1 ? st.get<1>(z) : st.get<3>(z); VP_REQ(v == m[q][z], "option ", z, " of mixin ", q, " is ", v, " after setting option ", i, " of mixin ", w); } }
	g.nontrivial(ops > 1); }
// ---------------------------------------------------------------- ownership, scope guards, recursion
struct Own { static int alive, made; int v = 3; Own() { alive++; made++; } Own(const Own&) = delete; ~Own() { alive--; } }; int Own::alive = 0, Own::made = 0;
VP_TEST(util_ownership, 4, 100) {
	Own::alive = Own::made = 0; { int reps = (int)g.z(1, 4); Own ext; ext.v = g.i(0, 99); for (int i = 0; i < reps; i++) { auto o = utils::make_own_or_use_ptr<Own>(); auto u = utils::make_own_or_use_ptr(&ext); VP_REQ(Own::alive == 2 && o.bOwning && !u.bOwning && !o.empty() && !u.empty() && &u.get() == &ext && u.ptr() == &ext && u->v == ext.v && &static_cast<Own&>(o) == o.ptr() && static_cast<Own*>(o) == o.ptr() && o.ptr() != &ext, "fresh owning and using pointers"); if (g.b()) { u.release(); VP_REQ(u.empty() && Own::alive == 2, "a using pointer deleted its object"); } if (g.b()) { o.release(); VP_REQ(o.empty() && Own::alive == 1, "an owning pointer kept its object"); if (g.b()) o.release(); } } VP_REQ(Own::alive == 1 && Own::made == 1 + reps, Own::alive, " objects alive after the pointers are gone"); } VP_REQ(Own::alive == 0, "leak");
	int runs = 0, inside = -1; int how = (int)g.raw(4); try { [&] { utils::scope_exit e([&runs] { runs++; }); for (int i = 0; i < 3; i++) { inside = runs; if (how == 0) return; if (how == 1) throw 5; if (how == 2 && i == 1) break; } }(); } catch (int) {} VP_REQ(inside == 0 && runs == 1, "scope_exit ran ", runs, " times (", inside, " before leaving the scope)"); std::string ord; { utils::scope_exit a([&] { ord += 'a'; }); utils::scope_exit b([&] { ord += 'b'; }); } VP_REQ(ord == "ba", "order of scope_exit handlers ", ord);
	int n = g.i(0, 15), base = g.i(1, 9), depth = 0; auto f = utils::make_y_combinator([&depth](auto&& self, int k, int& acc) -> int { depth++; if (!k) return acc; acc += k; return self(k - 1, acc); }); int acc = base; int r = f(n, acc); VP_REQ(r == base + n * (n + 1) / 2 && acc == r && depth == n + 1, "y_combinator: ", r, " after ", depth, " calls"); g.nontrivial(n > 1); }
// ---------------------------------------------------------------- error codes
template<class E> static void errs(vp::Gen& g, const std::vector<int>& codes, const char* w) { std::map<std::string, int> seen; for (int c : codes) { const char* s = E::get_error_str((typename E::ErrorCode)c); VP_REQ(s && *s, w, ": code ", c, " has no text"); std::string t(s); VP_REQ(t.find("nknown code") == std::string::npos, w, ": code ", c, " is said to be unknown"); VP_REQ(!seen.count(t), w, ": codes ", seen[t], " and ", c, " have the same text '", t, "'"); seen[t] = c; } size_t a = g.raw((uint32_t)codes.size()); g.nontrivial(a > 0); }
struct LE : _has_last_error<_nnet_errs> { using _has_last_error<_nnet_errs>::_set_last_error; };
static std::vector<int> upto(int n) { std::vector<int> v; for (int i = 0; i <= n; i++) v.push_back(i); return v; }
VP_TEST(util_errors, 2, 50) {
	switch (g.raw(3)) { case 0: errs<_nnet_errs>(g, upto(_nnet_errs::PostInitStopFromCallback), "network errors"); break; case 1: errs<nntl_supp::_jsonreader_errs>(g, upto(nntl_supp::_jsonreader_errs::MemoryAllocationFailed), "JSON errors"); break; default: errs<nntl_supp::_binfile_errs>(g, upto(nntl_supp::_binfile_errs::MemoryAllocationFailed), "binary file errors"); }
	LE l; VP_REQ(l.get_last_error() == _nnet_errs::Success, "initial error"); int c = g.i(0, (int)_nnet_errs::PostInitStopFromCallback); VP_REQ((int)l._set_last_error((_nnet_errs::ErrorCode)c) == c && (int)l.get_last_error() == c && std::string(l.get_last_error_str()) == _nnet_errs::get_error_str((_nnet_errs::ErrorCode)c), "last error ", c); }
}
