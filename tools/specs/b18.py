ID='b18-convert-with-bias'; PROP='P15'
NEEDS='a binary data set stored in double, read into a float data set (conversion of a matrix with biases)'
BREAKS='as many bytes as the matrix with its bias column are consumed, so the following fields are read from the wrong place and a valid file is refused'
EDITS=[('nntl/_supp/io/binfile.h','readSize = sizeof(double)*m.numel_no_bias();','readSize = sizeof(double)*m.numel();')]
DEMO='''
#include "demo.h"
#include "demonet.h"
#include "nntl/_supp/io/binfile.h"
#include <unistd.h>
#include <cstring>
#include <cstdlib>
template<class T> static void field(FILE* f, const char* nm, int r, int c, int k, int dt) { unsigned rc[2] = { (unsigned)r, (unsigned)c }; fwrite(rc, 4, 2, f); char n[15] = {}; strcpy(n, nm); fwrite(n, 15, 1, f); unsigned char b = (unsigned char)dt; fwrite(&b, 1, 1, f); for (int i = 0; i < r * c; i++) { T v = T(k + i); fwrite(&v, sizeof v, 1, f); } }
int main() {
	char dir[] = "/tmp/nntl_demoXXXXXX"; CHECK(mkdtemp(dir)); std::string p = std::string(dir) + "/a.bin"; FILE* f = fopen(p.c_str(), "wb"); CHECK(f);
	nntl_supp::bin_file::HEADER h; memset(&h, 0, sizeof h); h.dwSignature = h.sSignature; h.wVersionNum = 0; h.wFieldsCount = 4; h.wSeqClassCount = 0; fwrite(&h, sizeof h, 1, f);
	const int dd = nntl_supp::bin_file::dt_double; field<double>(f, "train_x", 3, 2, 0, dd); field<double>(f, "train_y", 3, 1, 100, dd); field<double>(f, "test_x", 2, 2, 200, dd); field<double>(f, "test_y", 2, 1, 300, dd); fclose(f);
	nntl_supp::binfile rd; inmem_train_data<float> td; auto ec = rd.read(p.c_str(), td); unlink(p.c_str()); rmdir(dir);
	CHECK((int)ec == 0); CHECK(td.X(0).data()[5] == 5 && td.Y(0).data()[0] == 100 && td.X(1).data()[0] == 200 && td.Y(1).data()[1] == 301);
	return 0;
}
'''
