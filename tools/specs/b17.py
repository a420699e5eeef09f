ID='b17-scale-without-offset'; PROP='P14'
NEEDS='normalisation with both scale and mean that needs more than one pass, or a second normalisation with other targets'
BREAKS='the accumulated affine map of several passes forgets to scale the earlier offset: test data / transformed data get another map than the training data'
EDITS=[('nntl/utils/mtx2Normal.h','''			sc *= v;
			ofs *= v; //if it doesn't exist (!bOffset) then ofs==0
			bScale = true;''','''			sc *= v;
			if (!bScale) ofs *= v;
			bScale = true;''')]
DEMO='''
#include "demo.h"
#include "demonet.h"
#include "nntl/utils/mtx2Normal.h"
int main() {
	nntl::utils::mtx2Normal::ScaleCentralData<double> s; double x = 3, y = x;
	s._upd_scale(2); y *= 2; s._upd_ofs(1); y += 1; CHECK(std::fabs(x * s.sc + s.ofs - y) < 1e-12);
	s._upd_scale(.5); y *= .5; s._upd_ofs(-.25); y -= .25; CHECK(std::fabs(x * s.sc + s.ofs - y) < 1e-12);
	return 0;
}
'''
