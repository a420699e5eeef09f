ID='b21-gradcheck-restores-by-arithmetic'; PROP='P18'
NEEDS='gradcheck() on weights that are not multiples of the step size'
BREAKS='the weights are shifted back by the step instead of being restored, so rounding leaves them slightly changed'
EDITS=[('nntl/interface/inspectors/gradcheck.h','''					*m_pChangedEl = m_origElVal;''','''					*m_pChangedEl -= nntl::_impl::gradcheck_phase::df_numeric_plus == m_checkPhase ? m_stepSize : -m_stepSize;''')]
DEMO='''
#include "demo.h"
#include "nntl/interface/inspectors/gradcheck.h"
#define NIF_INSPECTOR inspector::GradCheck<double>
#include "demonet.h"
struct NIg : public d_int_nI<R> { typedef inspector::GradCheck<R> iInspect_t; };
typedef grad_works<NIg> GWg;
int main() {
	layer_input<NIg> inp(3); LFC<Soft, GWg> l(4, R(1)); layer_output<activation::identity_quad_loss<R, WI>, GWg> o(2, R(1)); auto lp = make_layers(inp, l, o); auto nn = make_nnet(lp);
	CHECK((int)nn.___init(8, 8) == 0); setw(l, 3); setw(o, 50); MX X(8, 3, true), Y(8, 2); for (int i = 0; i < 24; i++) X.data()[i] = fr(i); for (int i = 0; i < 16; i++) Y.data()[i] = fr(100 + i);
	std::vector<R> a(l.get_weights().data(), l.get_weights().data() + l.get_weights().numel()), b(o.get_weights().data(), o.get_weights().data() + o.get_weights().numel());
	gradcheck_settings<R> st(false); CHECK(nn.gradcheck(X, Y, 5, st));
	CHECK(std::equal(a.begin(), a.end(), l.get_weights().data())); CHECK(std::equal(b.begin(), b.end(), o.get_weights().data()));
	return 0;
}
'''
