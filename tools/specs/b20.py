ID='b20-failed-scheme-keeps-weights'; PROP='P17'
NEEDS='a weights scheme that fails once (e.g. SVD did not converge) and a second attempt to initialise the network'
BREAKS='the second initialisation takes the half-made weights of the failed attempt for weights set by the user'
EDITS=[('nntl/layer/fully_connected.h','''				if (!get_self().reinit_weights()) {
					m_weights.clear();
					m_bWeightsInitialized = false;
					return ErrorCode::CantInitializeWeights;''','''				if (!get_self().reinit_weights()) {
					return ErrorCode::CantInitializeWeights;''')]
DEMO='''
#include "demo.h"
#include "demonet.h"
static int calls = 0;
struct Flaky { template <typename G, typename Mm> static bool make_weights(typename G::realmtx_t& W, G&, Mm&)noexcept { calls++; for (numel_cnt_t i = 0; i < W.numel(); i++) W.data()[i] = R(calls); return calls != 1; } };
int main() {
	In inp(2); LFC<activation::sigm<R, Flaky>, GWk> l(3, R(1)); Out o(1, R(1)); auto lp = make_layers(inp, l, o); auto nn = make_nnet(lp);
	CHECK((int)nn.___init(4, 4) != 0); CHECK((int)nn.___init(4, 4) == 0); CHECK(calls == 2); CHECK(l.get_weights().get(0, 0) == R(2));
	return 0;
}
'''
