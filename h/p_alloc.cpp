// P20: a failed memory allocation is reported by the documented error, leaves nothing half-built and nothing leaked, and the same call
// made again with memory available gives what a call that never failed gives.
#include "alloc.h"
#include "net.h"
#include "opts.h"
#define VP_NAME2(a) "alloc.net" #a VP_SUF
#define VP_NAME1(a) VP_NAME2(a)
namespace {
typedef _nnet_errs::ErrorCode EC;
static bool mem_err(EC e) { switch (e) { case EC::TdInitNoMemory: case EC::OtherTdInitError: case EC::CantAllocateMemoryForActivations: case EC::CantAllocateMemoryForInnerActivations: case EC::CantAllocateMemoryForInnerLLActivations: case EC::DropoutInitFailed: case EC::CantAllocateMemoryForGatingMask: case EC::CantAllocateMemoryForTempData: case EC::CantAllocateMemoryForWeights: case EC::CantInitializeIMath: case EC::CantInitializeIRng: case EC::CantInitializeObserver: case EC::CantInitializeGradWorks: case EC::CantInitializeActFunc: case EC::CantInitializeWeights: case EC::CantInitializePAB: return true; default: return false; } }
struct FixW { uint64_t s; template<class L> auto go(L& l, int) const -> decltype(l.get_weights(), void()) { auto& W = const_cast<std::decay_t<decltype(l.get_weights())>&>(l.get_weights()); vp::Rnd r(s); for (numel_cnt_t i = 0; i < W.numel(); i++) W.data()[i] = R(r.unit() - .5); } template<class L> void go(L&, long) const {} template<class L> void operator()(L& l) const { go(l, 0); } };
}
namespace {
struct Call { int op, F2, B, F1, epochs; template<class Q, class TD> EC operator()(Q& q, TD& td, const M& X) const { switch (op) { case 0: return q.___init((vec_len_t)F2, (vec_len_t)B, false); case 1: return q.init4fixedBatchFprop((vec_len_t)F2); case 2: return q.fprop(X);
	default: { nnet_train_opts<R, training_observer_stdcout<R, eval_classification_binary_cached<R>>> opts((numel_cnt_t)epochs); opts.batchSize((vec_len_t)B).maxFpropSize((vec_len_t)F1); opts.ImmediatelyDeinit(false); opts.noDivergenceCheck(); std::ostringstream os; struct Cp { std::streambuf* b; ~Cp() { std::cout.rdbuf(b); } } c{ std::cout.rdbuf(os.rdbuf()) }; return q.template train<false>(td, opts); } } } };
}
namespace {
template<class LP, class LQ> static void pair_net(vp::Gen& g, uint64_t as, LP& lp, Arch& A, LQ& lq) {
	Opts om = gen_opts(g);
		g.label(A.name); lp.for_each_layer_exc_input(om); lq.for_each_layer_exc_input(om); auto nn = make_nnet(lp); auto mm = make_nnet(lq);
		// data
		int n[2] = { gsz(g, 1, 8), gsz(g, 1, 8) }; MD DX[2], DY[2]; inmem_train_data<R> ta, tb; for (int s = 0; s < 2; s++) { DX[s].will_emulate_biases(); (void)DX[s].resize(n[s], A.nin); DY[s].dont_emulate_biases(); (void)DY[s].resize(n[s], A.nout); gen_xy(A, DX[s], DY[s], g.seed()); }
		auto cp = [](const MD& m) { MD r; if (m.emulatesBiases()) r.will_emulate_biases(); else r.dont_emulate_biases(); (void)r.resize(m.rows(), m.cols_no_bias()); std::copy(m.data(), m.data() + m.numel(), r.data()); return r; };
		for (auto* t : { &ta, &tb }) { MD a = cp(DX[0]), b = cp(DY[0]), c = cp(DX[1]), e = cp(DY[1]); VP_REQ(t->absorb(std::move(a), std::move(b), std::move(c), std::move(e)), "absorb"); }
		int prior = (int)g.raw(3), op = (int)g.raw(4), maxn = std::max(n[0], n[1]), B = gsz(g, 1, n[0]), F = gsz(g, B, std::max(B, maxn)), epochs = 1 + (int)g.raw(2); uint64_t ws = g.seed(), rs = g.seed(); std::vector<LRef> La, Lb; 
		auto start = [&](auto& q, auto& l, std::vector<LRef>& L) { q.get_iRng().seed64((int64_t)rs); if (prior) { VP_REQ((int)q.___init((vec_len_t)F, (vec_len_t)B, false) == 0, "init"); L = learnables(l); rnd_weights(L, ws, .5); if (prior == 1) q.deinit(); } };
		start(nn, lp, La); start(mm, lq, Lb); int F2 = F + (prior == 2 ? 1 + (int)g.raw(4) : 0); if (prior == 2 && op == 3 && F2 > maxn) { nn.deinit(); mm.deinit(); F2 = F; }
		Call call{ op, F2, B, std::min(F2, maxn), epochs }; MD CX; CX.will_emulate_biases(); { MD CY; (void)CX.resize((vec_len_t)F2, (vec_len_t)A.nin); (void)CY.resize((vec_len_t)F2, (vec_len_t)A.nout); gen_xy(A, CX, CY, rs + 1); }
		const char* opn[] = { "training initialisation", "inference initialisation", "inference", "train()" }; EC eb = EC::Success; uint64_t ord = g_order;
		// twin: never fails
		long N = al::run(0, false, [&] { eb = call(mm, tb, CX); });
		VP_REQ(eb == EC::Success, "the twin network fails: ", mm.get_last_error_string()); g.label(opn[op]); g.label(prior == 0 ? "fresh network" : prior == 1 ? "weights kept from before" : "initialised before");
		if (N == 0) { g.label("no allocation"); return; }
		long k = 1 + (long)g.raw((uint64_t)N); bool all = g.b(); g.say(A.name, opn[op], "prior", prior, "sizes", F, B, F2, "allocation", k, "of", N, all ? "and all later" : "only"); if (k > N) k = N;
		auto W = prior ? save_w(La) : std::vector<VR>(); int rounds = 1 + (int)g.raw(2); bool reached = false;
		for (int rd = 0; rd < rounds; rd++) {
			EC ea = EC::Success; g_order = ord;
			if (rd > 0) { nn.get_iRng().seed64((int64_t)rs); k = 1 + (long)((k * 7 + 3) % N); }
			al::run(k, all, [&] { ea = call(nn, ta, CX); });
			if (al::fired == 0) { g.label("not reached"); break; } reached = true;
			VP_REQ(ea != EC::Success, A.name, ": ", opn[op], " reports success though allocation ", k, " of ", N, " failed"); VP_REQ(mem_err(ea), A.name, ": ", opn[op], " reports error ", (int)ea, " when allocation ", k, " of ", N, " failed");
			if (op != 0) VP_REQ(nn.get_last_error() == ea, "last error is ", (int)nn.get_last_error(), " the call returned ", (int)ea);
			VP_REQ(!nn.get_last_error_string().empty(), "empty error string"); 
			if (prior) VP_REQ(save_w(learnables(lp)) == W, A.name, ": a failed ", opn[op], " changed the weights");
			g.label(ea == EC::CantAllocateMemoryForActivations ? "activations" : ea == EC::CantAllocateMemoryForWeights ? "weights" : ea == EC::CantInitializeGradWorks ? "grad works" : ea == EC::CantInitializeObserver ? "observer" : ea == EC::TdInitNoMemory ? "data" : ea == EC::DropoutInitFailed ? "dropout" : ea == EC::CantInitializeWeights ? "weights scheme" : ea == EC::CantAllocateMemoryForInnerLLActivations || ea == EC::CantAllocateMemoryForInnerActivations ? "inner activations" : ea == EC::CantAllocateMemoryForGatingMask ? "gating mask" : "other error");
			if (ea != EC::CantInitializeObserver && ea != EC::TdInitNoMemory && op != 2 && op != 3) VP_REQ(!nn.is_initialized((vec_len_t)F2, (vec_len_t)(op == 0 ? B : 0)), A.name, ": a failed ", opn[op], " leaves the network initialised");
			if (g.b(1, 4)) { nn.deinit(); g.label("deinit after the failure"); }
		}
		// again, with memory
		g_order = ord; EC ea = EC::Success; ea = call(nn, ta, CX);
		VP_REQ(ea == EC::Success, A.name, ": ", opn[op], " fails with ", (int)ea, " ", nn.get_last_error_string(), " after a failed allocation though memory is available again");
		La = learnables(lp); Lb = learnables(lq); VP_REQ(La.size() == Lb.size(), "layers");
		// both trained from the same weights now give the same
		nn.deinit(); mm.deinit(); 
		VP_REQ((int)nn.___init((vec_len_t)F, (vec_len_t)B, false) == 0 && (int)mm.___init((vec_len_t)F, (vec_len_t)B, false) == 0, "init"); La = learnables(lp); Lb = learnables(lq); FixW fw{ ws + 5 }; lp.for_each_layer_exc_input(fw); lq.for_each_layer_exc_input(fw);
		MD X((vec_len_t)B, (vec_len_t)A.nin, true), Y((vec_len_t)B, (vec_len_t)A.nout); gen_xy(A, X, Y, rs + 9);
		auto step = [&](auto& q, auto& l) { g_order = ord; q.get_iRng().seed64(5); for (int s = 0; s < 2; s++) { q.___get_common_data().set_mode_and_batch_size(true, (vec_len_t)B); l.on_batch_size_change((vec_len_t)B); l.fprop(X); l.bprop(Y); } q.___get_common_data().set_mode_and_batch_size(false, (vec_len_t)B); l.on_batch_size_change((vec_len_t)B); l.fprop(X); return snap(l.output_layer().get_activations()); };
		VR oa = step(nn, lp), ob = step(mm, lq); auto eq = [](const VR& a, const VR& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(R)); };
		auto wa = save_w(La), wb = save_w(Lb); for (size_t i = 0; i < wa.size(); i++) VP_REQ(eq(wa[i], wb[i]), A.name, ": after a failed ", opn[op], " training moves the weights of ", La[i].name, " differently"); VP_REQ(eq(oa, ob), A.name, ": after a failed ", opn[op], " the network computes something else");
		g.nontrivial(reached);
}
template<class LP> struct In2 { vp::Gen& g; uint64_t as; LP& lp; Arch& A; template<class LQ> void operator()(LQ& lq, Arch&) { pair_net(g, as, lp, A, lq); } };
struct In1 { vp::Gen& g; uint64_t as; template<class LP> void operator()(LP& lp, Arch& A) { vp::Gen h; h.rnd = vp::Rnd(as); h.scale = g.scale; arch_body(h, In2<LP>{ g, as, lp, A }); } };
}
static void t_net(vp::Gen& g) { gen_math(g); uint64_t as = g.seed(); vp::Gen h; h.rnd = vp::Rnd(as); h.scale = g.scale; arch_body(h, In1{ g, as }); }
static vp::Reg reg_alloc(VP_NAME1(VP_ARCH), 1, 60, t_net, 60, false);
