ID='b14-epoch-y-size'; PROP='P11'
NEEDS='mini-batches, a walk in parts between two epochs'
BREAKS='in the epochs after the first one the batch of targets keeps the size the walk left, so rows of targets are missing or do not belong to their samples'
EDITS=[('nntl/train_data/_train_data_simple.h','m_batch_y.deform_batch_size(batchSize);\n					m_pCurBatchY = &m_batch_y;\n\n','if (0 == epochIdx) m_batch_y.deform_batch_size(batchSize);\n					m_pCurBatchY = &m_batch_y;\n\n')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	MD a(7, 2, true), b(7, 1), c(7, 2, true), d(7, 1); for (int i = 0; i < 7; i++) { for (int j = 0; j < 2; j++) a.data()[j * 7 + i] = c.data()[j * 7 + i] = i; b.data()[i] = d.data()[i] = i; }
	inmem_train_data<R> td; CHECK(td.absorb(std::move(a), std::move(b), std::move(c), std::move(d)));
	In inp(2); L l(3, R(1)); Out o(1, R(1)); auto lp = make_layers(inp, l, o); auto nn = make_nnet(lp); CHECK((int)nn.___init(5, 3) == 0);
	vec_len_t mf = 5, mb = 3; CHECK((int)td.init4train(nn.get_iMath(), mf, mb, nullptr) == 0); const auto& cd = nn.___get_common_data();
	for (int e = 0; e < 3; e++) { auto n = td.on_next_epoch(e, cd, 3); CHECK(n == 2);
		for (int k = 0; k < n; k++) { td.on_next_batch(k, cd); CHECK(td.batchX().rows() == 3); CHECK(td.batchY().rows() == 3); for (int i = 0; i < 3; i++) CHECK(td.batchX().data()[i] == td.batchY().data()[i]); }
		auto w = td.walk_over_set(td.test_set_id, cd, 5); for (int k = 0; k < w; k++) td.next_subset(k, cd); }
	return 0;
}
'''
