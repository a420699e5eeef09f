ID='b15-mode-back-to-train'; PROP='P12'
NEEDS='a loss report whose last batch has the training batch size, and a layer that behaves differently in training (dropout)'
BREAKS='after the report training goes on in inference mode: dropout is silently off, the weights end elsewhere'
EDITS=[('nntl/common_nn_data.h','if (bTraining == m_bInTraining && BatchSize == m_cur_batch_size) return false;','if (BatchSize == m_cur_batch_size && (bTraining || !m_bInTraining)) return false;')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	In inp(2); L l(3, R(1)); Out o(1, R(1)); auto lp = make_layers(inp, l, o); auto nn = make_nnet(lp); CHECK((int)nn.___init(4, 4) == 0);
	auto& cd = nn.___get_common_data(); cd.set_mode_and_batch_size(true, 4); CHECK(cd.is_training_mode());
	cd.set_mode_and_batch_size(false, 4); CHECK(!cd.is_training_mode());
	cd.set_mode_and_batch_size(true, 4); CHECK(cd.is_training_mode());
	return 0;
}
'''
