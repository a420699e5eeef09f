// P19 (continued): the printing inspector (inspector::stdcout) tells the events in order with the right epoch, batch and sizes, and a network
// watched by it computes what the same network without an inspector computes.
#include "nn.h"
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/interface/inspectors/stdcout.h"
#include <sstream>
namespace {
struct Ev { long ep = -1, bi = -1; std::string txt; int open = 0; std::vector<std::string> names; bool seen = false; };
static Ev* g_ev = nullptr;
struct SI : public inspector::stdcout<R> { typedef inspector::stdcout<R> B;
	template<class M> static void mtx(const char* n, const M& m) { if (!g_ev) return; std::ostringstream o; o << "@" << (g_ev->ep < 0 ? std::numeric_limits<numel_cnt_t>::max() : numel_cnt_t(g_ev->ep)) << "#" << (g_ev->bi < 0 ? std::numeric_limits<numel_cnt_t>::max() : numel_cnt_t(g_ev->bi)) << " mtx '" << n << "' size = [" << m.rows() << "," << m.cols() << "]\n"; g_ev->txt += o.str(); }
	template<class S> void init_layer(const layer_index_t l, S&& n, const layer_type_id_t t)noexcept { if (g_ev) { std::ostringstream o; o << "Layer " << n << " of type 0x" << std::hex << t << " is being initialized\n"; g_ev->txt += o.str(); } B::init_layer(l, std::forward<S>(n), t); }
	void train_epochBegin(const numel_cnt_t e, const numel_cnt_t n)noexcept { if (g_ev) g_ev->ep = (long)e; B::train_epochBegin(e, n); }
	void train_batchBegin(const numel_cnt_t b)noexcept { if (g_ev) g_ev->bi = (long)b; B::train_batchBegin(b); }
	void fprop_begin(const layer_index_t l, const realmtx_t& p, const bool tr)noexcept { if (g_ev) { g_ev->txt += tr ? "fp:tr, " : "fp:t, "; mtx("previous activations", p); g_ev->open++; g_ev->seen = true; } B::fprop_begin(l, p, tr); if (g_ev && layer_index_t(m_curLayer) != l) g_ev->txt += "WRONG LAYER\n"; }
	void fprop_end(const realmtx_t& a)noexcept { mtx("current activations", a); if (g_ev) g_ev->open--; B::fprop_end(a); chk(); }
	template<class T> void bprop_begin(const layer_index_t l, const math::smatrix<T>& d)noexcept { if (g_ev) { g_ev->txt += "bp: "; mtx("dL/dA", d); g_ev->open++; } B::bprop_begin(l, d); }
	void bprop_end(const realmtx_t& d)noexcept { mtx("dL/dA for a layer down the stack", d); if (g_ev) g_ev->open--; B::bprop_end(d); chk(); }
	void fprop_makePreActivations(const realmtx_t& W, const realmtx_t& p)const noexcept { mtx("Current weights", W); B::fprop_makePreActivations(W, p); }
	void apply_grad_update(const realmtx_t& W, const realmtx_t& U)const noexcept { mtx("weights@apply_grad", W); mtx("Weights update@apply_grad", U); B::apply_grad_update(W, U); }
	void chk()const noexcept { if (g_ev && (int)m_curLayer.size() != g_ev->open) g_ev->txt += "WRONG NESTING\n"; }
};
}
#define VP_INSPECTOR SI
#include "net.h"
#define VP_NAME2(a) "printed_events.arch" #a VP_SUF
#define VP_NAME1(a) VP_NAME2(a)
namespace {
struct Cap { std::ostringstream o; std::streambuf* b; Cap() : b(std::cout.rdbuf(o.rdbuf())) {} ~Cap() { std::cout.rdbuf(b); } };
static void t_prn(vp::Gen& g) {
	gen_math(g);
	arch_body(g, [&](auto& lp, Arch& A) {
		auto nn = make_nnet(lp); g.label(A.name); int n = gsz(g, 2, 12), B = gsz(g, 1, n), F = gsz(g, B, n), E = gsz(g, 1, 3), nt = gsz(g, 1, 6); g.say(A.name, "data", n, nt, "batch", B, "forward", F, "epochs", E);
		MD X, Y, X2, Y2; X.will_emulate_biases(); X2.will_emulate_biases(); (void)X.resize((vec_len_t)n, (vec_len_t)A.nin); (void)Y.resize((vec_len_t)n, (vec_len_t)A.nout); (void)X2.resize((vec_len_t)nt, (vec_len_t)A.nin); (void)Y2.resize((vec_len_t)nt, (vec_len_t)A.nout); gen_xy(A, X, Y, g.seed()); gen_xy(A, X2, Y2, g.seed());
		inmem_train_data<R> td; VP_REQ(td.absorb(std::move(X), std::move(Y), std::move(X2), std::move(Y2)), "absorb");
		Ev ev; struct Off { ~Off() { g_ev = nullptr; } } off; std::string got; bool ok;
		{ Cap c; g_ev = &ev; nnet_train_opts<R, training_observer_silent<R>> o((numel_cnt_t)E); o.batchSize((vec_len_t)B).maxFpropSize((vec_len_t)F).ImmediatelyDeinit(false); o.noDivergenceCheck(); ok = (int)nn.train(td, o) == 0; g_ev = nullptr; got = c.o.str(); }
		VP_REQ(ok, nn.get_last_error_string()); VP_REQ(ev.seen, A.name, ": the inspector was told nothing"); VP_REQ(ev.open == 0, A.name, ": ", ev.open, " layers were entered and never left");
		// the library prints other things as well: every expected line must appear in order
		VP_REQ(ev.txt.find("WRONG") == std::string::npos, A.name, ": the current layer is wrong"); std::istringstream gi(got), ei(ev.txt); std::string gl, el; int k = 0, extra = 0;
		while (std::getline(ei, el)) { bool f = false; while (std::getline(gi, gl)) { if (gl == el) { f = true; break; } VP_REQ(gl.find(" mtx '") == std::string::npos && gl.find("is being initialized") == std::string::npos, A.name, ": printed \"", gl, "\" where \"", el, "\" was to be told"); extra++; } VP_REQ(f, A.name, ": \"", el, "\" was not printed"); k++; }
		while (std::getline(gi, gl)) VP_REQ(gl.find(" mtx '") == std::string::npos, A.name, ": \"", gl, "\" was printed though nothing happened");
		g.nontrivial(k > 10);
	});
}
static vp::Reg reg_prn(VP_NAME1(VP_ARCH), 1, 30, t_prn, 60, false);
}
