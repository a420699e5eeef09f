ID='b07-momentum-switch'; PROP='P06'
NEEDS='nesterov_momentum() followed by momentum() on the same object'
BREAKS='switching from Nesterov to classical momentum keeps applying Nesterov updates'
EDITS=[('nntl/grad_works/grad_works.h','''			m_momentum = m;
			set_opt(f_UseMomentum, m_momentum > real_t(0.0));
			set_opt(f_UseNesterovMomentum, false);''','''			m_momentum = m;
			set_opt(f_UseMomentum, m_momentum > real_t(0.0));
			if (!use_momentums()) set_opt(f_UseNesterovMomentum, false);''')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	std::vector<double> res[2];
	for (int v = 0; v < 2; v++) {
		In inp(2); L a(3, R(.1)); Out o(1, R(.1)); if (v) a.get_gradWorks().nesterov_momentum(R(.9)); a.get_gradWorks().momentum(R(.5)); auto lp = make_layers(inp, a, o); auto nn = make_nnet(lp);
		MD X(4, 2, true), Y(4, 1); for (int i = 0; i < 8; i++) X.data()[i] = fr(i); for (int i = 0; i < 4; i++) Y.data()[i] = fr(50 + i);
		CHECK((int)nn.___init(4, 4) == 0); setw(a, 3); setw(o, 90); nn.___get_common_data().set_mode_and_batch_size(true, 4); lp.on_batch_size_change(4);
		for (int s = 0; s < 3; s++) { lp.fprop(X); lp.bprop(Y); }
		res[v].assign(a.get_weights().data(), a.get_weights().data() + a.get_weights().numel());
	}
	CHECK(res[0] == res[1]); L q(3, R(.1)); q.get_gradWorks().nesterov_momentum(R(.9)); q.get_gradWorks().momentum(R(.5)); CHECK(!q.get_gradWorks().use_nesterov_momentum());
	return 0;
}
'''
