ID='b10-gate-closed-grad'; PROP='P09'
NEEDS='a gated layer over a learnable layer in a batch where one gate is closed for every sample'
BREAKS='the gradient passed below a fully closed gate is left over from earlier computations instead of zero'
EDITS=[('nntl/layer/pack_horizontal_optional.h','''						auto curdLdAPrev = dLdAPrev.submatrix_cols_no_bias(phl.coord.m_offset, phl.coord.m_count);
						curdLdAPrev.zeros();''','''						auto curdLdAPrev = dLdAPrev.submatrix_cols_no_bias(phl.coord.m_offset, phl.coord.m_count);''')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	typedef LIGf<500000, true, NIf> G; typedef LFC<activation::sigm<R, WI>, GWk> LS;
	In inp(2); LS u(6, R(1)); G gate; L a(2, R(1)), b(2, R(1)); LPHO<false, PHL<G>, PHL<L>, PHL<L>> p(make_PHL(gate, 0, 2), make_PHL(a, 2, 2), make_PHL(b, 4, 2)); L t(8, R(1)); Out o(1, R(1)); auto lp = make_layers(inp, u, p, t, o); auto nn = make_nnet(lp);
	const int N = 5; CHECK((int)nn.___init(N, N) == 0); nn.___get_common_data().set_mode_and_batch_size(true, N); lp.on_batch_size_change(N);
	MD X(N, 2, true), Y(N, 1); for (int i = 0; i < 2 * N; i++) X.data()[i] = fr(i); for (int i = 0; i < N; i++) Y.data()[i] = fr(50 + i);
	auto rw = [&] { setw(u, 3); setw(a, 30); setw(b, 60); setw(t, 200); setw(o, 90); R* w = const_cast<R*>(u.get_weights().data()); for (int j = 0; j < 3; j++) { w[j * 6] = 0; w[j * 6 + 1] = 0; } w[12] = 5; w[13] = -5; };
	for (int k = 0; k < 18; k++) { rw(); R* w = const_cast<R*>(u.get_weights().data()); R w0 = w[k], e = 1e-5;
		w[k] = w0 + e; lp.fprop(X); R f = lp.output_layer().calc_loss(Y); w[k] = w0 - e; lp.fprop(X); R q = lp.output_layer().calc_loss(Y); w[k] = w0;
		lp.fprop(X); lp.bprop(Y); R d = (f - q) / (2 * e) / N; CHECK(std::fabs((w0 - w[k]) - d) < 1e-5); }
	return 0;
}
'''
