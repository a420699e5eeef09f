ID='b06-nadam-restart'; PROP='P06'
NEEDS='RAdam/NAdam-style optimizer re-initialised (deinit + init) after some updates'
BREAKS='after re-initialisation the bias correction continues from the previous training instead of restarting'
EDITS=[('nntl/grad_works/grad_works.h','''				if (bFirstRun) {
					m_optBeta1t = real_t(1.);
					m_optBeta2t = real_t(1.);
					m_optMtxA.zeros();
					m_optMtxB.zeros();
					if (Nadam==m_type) {''','''				if (bFirstRun) {
					m_optBeta1t = real_t(1.);
					m_optMtxA.zeros();
					m_optMtxB.zeros();
					if (Nadam==m_type) {''')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	In inp(2); L a(3, R(.1)); Out o(1, R(.1)); a.get_gradWorks().set_type(GWk::Nadam); auto lp = make_layers(inp, a, o); auto nn = make_nnet(lp);
	MD X(4, 2, true), Y(4, 1); for (int i = 0; i < 8; i++) X.data()[i] = fr(i); for (int i = 0; i < 4; i++) Y.data()[i] = fr(50 + i);
	std::vector<double> first;
	for (int rep = 0; rep < 2; rep++) {
		CHECK((int)nn.___init(4, 4) == 0); setw(a, 3); setw(o, 90); nn.___get_common_data().set_mode_and_batch_size(true, 4); lp.on_batch_size_change(4);
		for (int s = 0; s < 3; s++) { lp.fprop(X); lp.bprop(Y); }
		std::vector<double> w(a.get_weights().data(), a.get_weights().data() + a.get_weights().numel());
		if (rep == 0) first = w; else CHECK(w == first);
		nn.deinit();
	}
	return 0;
}
'''
