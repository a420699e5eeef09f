ID='b02-mulc-bir-chunk'; PROP='P02'
NEEDS='matrix storing a batch in rows with a bias row, multithreaded scaling, a worker whose range does not start at column 0'
BREAKS='in-place scaling that should leave the bias row alone scales biases and skips elements in a worker range that does not start at the first column'
EDITS=[('nntl/interface/math/mathn.h','''				const ptrdiff_t rowsNb = A.rows() - 1;
				auto pA = A.colDataAsVec(static_cast<vec_len_t>(pr.offset()));
				const auto pAE = A.colDataAsVec(static_cast<vec_len_t>(pr.end()));
				while (pA < pAE) {
					const auto tpA = pA;
					pA += rowsNb;
					self_t::vMulC_ip_st(tpA, pA, c);''','''				const ptrdiff_t rowsNb = A.rows() - 1;
				auto pA = A.data() + rowsNb * pr.offset() + (pr.offset() > 1 ? pr.offset() - 1 : pr.offset());
				const auto pAE = A.colDataAsVec(static_cast<vec_len_t>(pr.end()));
				while (pA < pAE) {
					const auto tpA = pA;
					pA += rowsNb;
					self_t::vMulC_ip_st(tpA, pA, c);''')]
DEMO='''
#include "demo.h"
using namespace nntl;
int main() {
	MM m;
	M A(3, 64, true, true); for (int i = 0; i < A.numel(); i++) if (i % 4 != 3) A.data()[i] = 1.f + i; else A.data()[i] = 1.f;
	m.evMulC_ip_mt(A, 2.f, true);
	for (int i = 0; i < A.numel(); i++) CHECK(A.data()[i] == (i % 4 != 3 ? 2.f * (1.f + i) : 1.f));
	return 0;
}
'''
