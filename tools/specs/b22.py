ID='b22-layer-lists-exclude-each-other'; PROP='P19'
NEEDS='a black or white list given both by layer type and by layer index'
BREAKS='as soon as layer types are listed, the listed layer indices are ignored'
EDITS=[('nntl/utils/bwlist.h','''			})) || (m_layerIdxs.size() &&''','''			})) || (m_layerTypes.empty() && m_layerIdxs.size() &&''')]
DEMO='''
#include "demo.h"
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/utils/bwlist.h"
using namespace nntl;
struct Q : public utils::_bwlist<double> { void init(size_t n) { _bwlist_init(n); } void upd(layer_index_t i, layer_type_id_t t) { _bwlist_updateLayer(i, t); } bool ok(layer_index_t i) { return _bwlist_layerAllowed(i); } };
int main() {
	Q q; q.whitelist(layer_type_id_t(7)); q.whitelist(layer_index_t(2)); q.init(4); for (layer_index_t i = 0; i < 4; i++) q.upd(i, i == 1 ? layer_type_id_t(7) : layer_type_id_t(5));
	CHECK(!q.ok(0)); CHECK(q.ok(1)); CHECK(q.ok(2)); CHECK(!q.ok(3));
	return 0;
}
'''
