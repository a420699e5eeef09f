ID='b16-short-batch-eval'; PROP='P13'
NEEDS='a set evaluated by the one-hot evaluator in batches of different sizes (a short last batch)'
BREAKS='stale predictions of the previous, bigger batch are counted together with the current ones'
EDITS=[('nntl/nnet_evaluator.h','''			m_predictionClassOrYDataIdxs[0].resize(activations.rows());''','''			if (conform_sign(m_predictionClassOrYDataIdxs[0].size()) < activations.rows()) m_predictionClassOrYDataIdxs[0].resize(activations.rows());''')]
DEMO='''
#include "demo.h"
#include "demonet.h"
int main() {
	MX y(2, 3), p(2, 3), y5(5, 3); y.zeros(); p.zeros(); y5.zeros(); for (int i = 0; i < 5; i++) y5.data()[(i % 3) * 5 + i] = 1; for (int i = 0; i < 2; i++) { y.data()[i] = 1; p.data()[1 * 2 + i] = 1; }
	struct E : eval_classification_one_hot_cached<R> { E() { m_predictionClassOrYDataIdxs[0].resize(5); m_predictionClassOrYDataIdxs[1].resize(5); } } e;
	In inp(2); L l(3, R(1)); Out o(3, R(1)); auto lp = make_layers(inp, l, o); auto nn = make_nnet(lp); CHECK((int)nn.___init(5, 5) == 0); auto& iM = nn.get_iMath(); iM.preinit(1000); iM.init();
	e.prepare_to_dataset(2, 2); CHECK(e.correctlyClassified(2, y5, y5, iM) == 5); CHECK(e.correctlyClassified(2, y, p, iM) == 0); CHECK(e.correctlyClassified(2, y, y, iM) == 2);
	return 0;
}
'''
