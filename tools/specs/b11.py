ID='b11-layer-batch'; PROP='P09'
NEEDS='a fully connected layer whose own batch differs from the network batch: inside a tiled or a gated pack'
BREAKS='the gradient of tiled and gated layers is averaged over the network batch instead of the samples the layer processed'
EDITS=[('nntl/layer/fully_connected.h','''real_t(1) / real_t(m_activations.batch_size())''','''real_t(1) / real_t(get_common_data().input_batch_size())''')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	In inp(4); L t(2, R(1)); LPT<L> lpt(t, 2); Out o(1, R(1)); auto lp = make_layers(inp, lpt, o); auto nn = make_nnet(lp);
	CHECK((int)nn.___init(3, 3) == 0); setw(t, 3); setw(o, 90); nn.___get_common_data().set_mode_and_batch_size(true, 3); lp.on_batch_size_change(3);
	MD X(3, 4, true), Y(3, 1); for (int i = 0; i < 12; i++) X.data()[i] = fr(i); for (int i = 0; i < 3; i++) Y.data()[i] = fr(50 + i);
	R* w = const_cast<R*>(t.get_weights().data()); R w0 = w[0], h = 1e-5;
	w[0] = w0 + h; lp.fprop(X); R p = lp.output_layer().calc_loss(Y); w[0] = w0 - h; lp.fprop(X); R q = lp.output_layer().calc_loss(Y); w[0] = w0;
	lp.fprop(X); lp.bprop(Y); R d = (p - q) / (2 * h) / 6; CHECK(std::fabs((w0 - w[0]) - d) < 1e-5);
	return 0;
}
'''
