ID='b08-reduce-count'; PROP='P07'
NEEDS='a parallel reduction in which a worker finishes before the caller finished its own chunk'
BREAKS='the number of partial results handed to the final reduction counts only workers still running, so partial results are lost'
EDITS=[('nntl/interface/threads/workers.h','''			const range_t workersOnReduce = m_workingCnt + 1;
			NNTL_ASSERT(workersOnReduce <= conform_sign(m_reduceCache.size()));
''',''''''),('nntl/interface/threads/workers.h','''			*rc = FRed(par_range_t(prevOfs, cnt - prevOfs, 0));
''','''			*rc = FRed(par_range_t(prevOfs, cnt - prevOfs, 0));
			const range_t workersOnReduce = m_workingCnt + 1;
''')]
DEMO='''
#include "demo.h"
#include <unistd.h>
using namespace nntl;
int main() {
	Thr t;
	for (int k = 0; k < 20; k++) {
		float s = t.reduce([](const Thr::par_range_t& r) -> Thr::reduce_data_t { if (r.tid() == 0) usleep(20000); return Thr::converter_reduce_data_t<float>::to(float(r.cnt())); }
			, [](const Thr::reduce_data_t* p, const numel_cnt_t n) { float q = 0; for (numel_cnt_t i = 0; i < n; i++) q += Thr::converter_reduce_data_t<float>::from(p[i]); return q; }, 100);
		CHECK(s == 100.f);
	}
	return 0;
}
'''
