ID='b01-copy-drops-holey'; PROP='P01'
NEEDS='source matrix flagged as having holey biases copied into a matrix that was not'
BREAKS='copying a matrix loses the holey-biases flag of the source'
EDITS=[('nntl/interface/math/smatrix.h','''			memcpy(dest.m_pData, m_pData, byte_size());
			dest.m_bHoleyBiases = m_bHoleyBiases;
			dest.m_rows = m_rows;//to make''','''			memcpy(dest.m_pData, m_pData, byte_size());
			dest.m_bHoleyBiases = dest.m_bHoleyBiases && m_bHoleyBiases;
			dest.m_rows = m_rows;//to make''')]
DEMO='''
#include "demo.h"
int main() {
	
	M a(4, 2, true), b(4, 2, true);
	a.fill(1.f); b.fill(1.f); a.data()[8] = 0.f; a.holey_biases(true);
	CHECK(a.copy_to(b)); CHECK(b.isHoleyBiases()); CHECK(a == b);
	return 0;
}
'''
