ID='b03-argmax-first-col'; PROP='P03'
NEEDS='columnwise multithreaded argmax where the maximum of a row sits in the first column of a worker range that is not the first'
BREAKS='row argmax reports column 0 when the maximum is the first column of a later column range'
EDITS=[('nntl/interface/math/smath.h','''				_maxColumnIdx = colBegin;
				const auto v = *pFirstMtxElm;''','''				_maxColumnIdx = rw_FirstColumnIdx - 1;
				const auto v = *pFirstMtxElm;''')]
DEMO='''
#include "demo.h"
using namespace nntl;
int main() {
	MM m;
	const int C = 400; M A(C, C); for (int r = 0; r < C; r++) for (int c = 0; c < C; c++) A.data()[c * C + r] = (r == c) ? 5.f : -1.f * c;
	std::vector<vec_len_t> d(C); m.mrwIdxsOfMax_mt_cw(A, d.data());
	for (int r = 0; r < C; r++) CHECK(d[r] == r);
	return 0;
}
'''
