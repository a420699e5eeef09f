ID='b05-fp-loss-weight'; PROP='P05'
NEEDS='a weighted quadratic loss with a false positive (target below the boundary, activation above the target)'
BREAKS='reported loss of false positives no longer corresponds to the gradient that is propagated'
EDITS=[('nntl/activations/_loss_parts.h','''const real_t e = ((y < YBoundary) & (a > y)) ? FPWeightSqrt*(a - y) : (a - y);''','''const real_t e = ((y < YBoundary) & (a > y)) ? FPWeight*(a - y) : (a - y);''')]
DEMO='''
#include "demo.h"
#include "nntl/nntl.h"
using namespace nntl;
int main() {
	typedef activation::Linear_Loss_quadWeighted_FP<double, 1414214, 500000> Q;
	for (int i = 0; i < 40; i++) for (int j = 0; j < 40; j++) { double a = -1 + i * .05 + .01, y = -1 + j * .05, h = 1e-5;
		double d = (Q::normalize(Q::loss(a + h, y), 1) - Q::normalize(Q::loss(a - h, y), 1)) / (2 * h); CHECK(std::fabs(d - Q::dLdZ(y, a)) < 1e-4); }
	return 0;
}
'''
