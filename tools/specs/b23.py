ID='b23-alpha-rate-change-keeps-coefficients'; PROP='P22'
NEEDS='a layer with alpha dropout whose keeping probability is changed again after it has already been set once'
BREAKS='the second and later changes of the keeping probability leave the affine coefficients of alpha dropout at the values of the first one'
EDITS=[('nntl/dropout/alpha_dropout.h','''				calc_coeffs<ext_real_t>(dpa, /*m_origActivations.cols(),*/ m_a, m_b, m_mbDropVal);''','''				if (real_t(0) == m_mbDropVal) calc_coeffs<ext_real_t>(dpa, /*m_origActivations.cols(),*/ m_a, m_b, m_mbDropVal);''')]
DEMO='''
#include "demo.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "demonet.h"
typedef LFC_DO<activation::selu<R, 0, 0, 0, 1000000, WI>, GWk> LD_;
static int step(LD_& x, R p) {
	const R sa = 1.6732632423543772848, sl = 1.0507009873554804934, a1 = -sa * sl, k = 1 / std::sqrt(p * ((1 - p) * a1 * a1 + 1)), b = -k * (1 - p) * a1, d = k * a1 + b; int drop = 0, keep = 0;
	const auto& A = x.get_activations(); const auto& W = x.get_weights();
	for (int i = 0; i < (int)A.rows(); i++) for (int j = 0; j < (int)A.cols() - 1; j++) { R z = W.get(j, 1); for (int c = 0; c < 1; c++) z += W.get(j, c) * fr(i + 1); R v = z < 0 ? sa * sl * std::expm1(z) : sl * z, y = A.get(i, j); if (std::fabs(y - d) < 1e-9) drop++; else if (std::fabs(y - (k * v + b)) < 1e-9) keep++; }
	CHECK(drop + keep == (int)A.rows() * ((int)A.cols() - 1)); CHECK(drop > 0 && keep > 0);
	return 0;
}
int main() {
	In inp(1); LD_ x(20, .1); Out o(1, .1); auto lp = make_layers(inp, x, o); auto nn = make_nnet(lp);
	const int n = 10; CHECK((int)nn.___init(n, n, false) == 0); setw(x, 3);
	MD X(n, 1, true); for (int i = 0; i < n; i++) X.set(i, 0, fr(i + 1));
	x.dropoutPercentActive(.5); nn.___get_common_data().set_mode_and_batch_size(true, n); lp.on_batch_size_change(n);
	lp.fprop(X); if (step(x, .5)) return 1;
	x.dropoutPercentActive(.8); lp.fprop(X); if (step(x, .8)) return 1;
	return 0;
}
'''
