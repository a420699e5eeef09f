ID='b04-decov-scale'; PROP='P04'
NEEDS='a DeCov gradient of a matrix whose number of rows differs from its number of columns'
BREAKS='the DeCov gradient is scaled by a wrong element count for non-square activations'
EDITS=[('nntl/interface/math/mathn.h','''static_cast<ext_real_t>(valsNumelNoBias - vRows)''','''static_cast<ext_real_t>(valsNumelNoBias - vCols)''')]
DEMO='''
#include "demo.h"
using namespace nntl;
int main() {
	MM m; const int r = 7, c = 3; M A(r, c), D(r, c); for (int i = 0; i < r * c; i++) A.data()[i] = float((i * 7919) % 31) / 10.f;
	m.dLoss_deCov<true, false>(A, D);
	for (int i = 0; i < r * c; i++) { float s = A.data()[i], h = 0.01f; A.data()[i] = s + h; double p = m.loss_deCov<true, false>(A); A.data()[i] = s - h; double q = m.loss_deCov<true, false>(A); A.data()[i] = s; double d = (p - q) / (2 * h); CHECK(std::fabs(d - D.data()[i]) < 2e-2 * (1 + std::fabs(d))); }
	return 0;
}
'''
