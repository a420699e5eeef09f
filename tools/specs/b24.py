ID='b24-lost-allocation-failure'; PROP='P20'
NEEDS='individual learning rates without momentum, and the allocation of the previous gradient failing during initialisation'
BREAKS='the failed allocation is not reported: initialisation succeeds with an empty matrix that training then writes to'
EDITS=[('nntl/grad_works/ILR.h','''				if (!_ILR_use_momentum() && !m_prevdLdW.resize(weightsSize))return false;''','''				if (!_ILR_use_momentum()) m_prevdLdW.resize(weightsSize);''')]
DEMO='''
#include "nntl_port.h"
static long at = 0, cnt = 0, fired = 0;
static void* al_get(size_t n, size_t a) { if (at && ++cnt == at) { ++fired; return nullptr; } return _mm_malloc(n, a); }
#undef _aligned_malloc
#define _aligned_malloc al_get
#include "demo.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "demonet.h"
int main() {
	for (long k = 1; k < 1000; k++) {
		In inp(3); L x(5, .1); Out o(2, .1); x.get_gradWorks().set_ILR(.9, 1.1, .1, 10.); auto lp = make_layers(inp, x, o); auto nn = make_nnet(lp);
		nn.get_iMath(); cnt = fired = 0; at = k; auto ec = nn.___init(8, 4, false); at = 0;
		if (!fired) { CHECK((int)ec == 0); CHECK(k > 3); return 0; }
		CHECK((int)ec != 0);
	}
	return 1;
}
'''
