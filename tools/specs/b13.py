ID='b13-bias-after-shrink'; PROP='P10'
NEEDS='a batch smaller than the one processed before it, in a network with a hidden layer'
BREAKS='the bias column of hidden activations is not restored when the batch shrinks, so the result depends on what was computed before'
EDITS=[('nntl/layer/_activation_storage.h','if (bNotOutputLayer && oldBatchSize != outgBatchSize) {','if (bNotOutputLayer && oldBatchSize < outgBatchSize) {')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	In inp(2); L a(3, R(1)); Out o(1, R(1)); auto lp = make_layers(inp, a, o); auto nn = make_nnet(lp); const int N = 5, K = 2;
	CHECK((int)nn.init4fixedBatchFprop(N) == 0); setw(a, 3); setw(o, 90);
	MD X(N, 2, true), Z(K, 2, true); for (int i = 0; i < N; i++) for (int j = 0; j < 2; j++) { X.data()[j * N + i] = fr(i * 2 + j); if (i < K) Z.data()[j * K + i] = fr(i * 2 + j); }
	nn.doFixedBatchFprop(X); R r[K]; for (int i = 0; i < K; i++) r[i] = lp.output_layer().get_activations().data()[i];
	nn.doFixedBatchFprop(Z); for (int i = 0; i < K; i++) CHECK(std::fabs(lp.output_layer().get_activations().data()[i] - r[i]) < 1e-12);
	return 0;
}
'''
