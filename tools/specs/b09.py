ID='b09-buffer-wrap'; PROP='P08'
NEEDS='a delivery of numbers to the circular buffer that wraps around its end'
BREAKS='numbers are handed out twice: the wrapped part repeats the beginning of the delivered block'
EDITS=[('nntl/utils/data_buffer.h','''_copy2buf<bValidateBuffer>(0, ptr + bs1, bs2);''','''_copy2buf<bValidateBuffer>(0, ptr, bs2);''')]
DEMO='''
#include "demo.h"
#include "nntl/utils/data_buffer.h"
using namespace nntl;
int main() {
	std::vector<float> st(10, 0.f); utils::DataBuffer<float, void> b(st.data(), 10); float nxt = 1, exp = 1; float tmp[10];
	for (int k = 0; k < 50; k++) { size_t n = b._as_should_work(4); if (n) { for (size_t i = 0; i < n; i++) tmp[i] = nxt++; b._as_done(tmp, n); }
		auto r = b.acquire_data(3); if (r.acquired()) { for (size_t i = 0; i < r.n1; i++) CHECK(r.ptr1[i] == exp++); if (r.isTwoArrays()) for (size_t i = 0; i < r.n2; i++) CHECK(r.ptr2[i] == exp++); b.release_data(r); } }
	return 0;
}
'''
