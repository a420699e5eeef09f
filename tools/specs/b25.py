ID='b25-default-settings-replaced-not-dropped'; PROP='P21'
NEEDS='per-layer settings whose default is replaced, then visited with for_each'
BREAKS='replacing the default keeps the former default among the visited settings'
EDITS=[('nntl/utils/layers_settings.h','''			if (!m_keeper.empty())
				m_keeper.pop_front();''','''			if (m_keeper.size() > 1 + m_map.size())
				m_keeper.pop_front();''')]
DEMO='''
#include "demo.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/utils/layers_settings.h"
using namespace nntl;
int main() {
	utils::layer_settings<int> s(1); s.add(layer_index_t(2), 20); s.set_default(3);
	CHECK(s[0] == 3); CHECK(s[2] == 20);
	int n = 0, sum = 0; s.for_each([&](int& v) { n++; sum += v; }); CHECK(n == 2); CHECK(sum == 23);
	return 0;
}
'''
