ID='b12-lph-scratch'; PROP='P09'
NEEDS='a horizontal pack whose inner layer reads more inputs than any inner layer has outputs or weights'
BREAKS='scratch memory for the inner backward pass is sized without the incoming width, gradients overwrite other data'
EDITS=[('nntl/layer/_lph_base.h','''						, realmtx_t::sNumel(lid.incBS.maxTrainBS, maxIncNeuronsCnt));''','''						, realmtx_t::sNumel(lid.incBS.maxTrainBS, maxIncNeuronsCnt - 1));''')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	In inp(3); L u(8, R(1)), a(1, R(1)), b(1, R(1)); LPH<PHL<L>, PHL<L>> h(make_PHL(a, 0, 8), make_PHL(b, 3, 2)); Out o(1, R(1)); auto lp = make_layers(inp, u, h, o); auto nn = make_nnet(lp);
	const int N = 30; CHECK((int)nn.___init(N, N) == 0); setw(u, 3); setw(a, 30); setw(b, 60); setw(o, 90); nn.___get_common_data().set_mode_and_batch_size(true, N); lp.on_batch_size_change(N);
	MD X(N, 3, true), Y(N, 1); for (int i = 0; i < 3 * N; i++) X.data()[i] = fr(i); for (int i = 0; i < N; i++) Y.data()[i] = fr(50 + i);
	for (int k = 0; k < (int)u.get_weights().numel(); k++) { setw(u, 3); setw(a, 30); setw(b, 60); setw(o, 90);
		R* w = const_cast<R*>(u.get_weights().data()); R w0 = w[k], e = 1e-5;
		w[k] = w0 + e; lp.fprop(X); R p = lp.output_layer().calc_loss(Y); w[k] = w0 - e; lp.fprop(X); R q = lp.output_layer().calc_loss(Y); w[k] = w0;
		lp.fprop(X); lp.bprop(Y); R d = (p - q) / (2 * e) / N; CHECK(std::fabs((w0 - w[k]) - d) < 1e-5); }
	return 0;
}
'''
