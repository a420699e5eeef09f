ID='b19-dontnest-end'; PROP='P16'
NEEDS='a structure begun with bDontNest while another one is open'
BREAKS='the structure lands inside the enclosing structure instead of at the root of the file'
EDITS=[('nntl/_supp/io/matfile.h','''							m_curVarName = curStructInfo.first.c_str();
							ec = _save_to_file_or_struct(pNewStruct);''','''							m_curVarName = curStructInfo.first.c_str();
							if (curStructInfo.second) m_structureStack.push(curStructInfo.second);
							ec = _save_to_file_or_struct(pNewStruct);'''),
('nntl/_supp/io/matfile.h','''							if (curStructInfo.second) {
								m_structureStack.push(curStructInfo.second);
							}
							m_nestedStructs.pop();''','''							m_nestedStructs.pop();''')]
DEMO='''
#define NNTL_MATLAB_AVAILABLE 1
#include "demo.h"
#include "demonet.h"
#include "nntl/_supp/io/matfile.h"
#include <unistd.h>
#include <cstdlib>
int main() {
	using namespace nntl::serialization; char dir[] = "/tmp/nntl_demoXXXXXX"; CHECK(mkdtemp(dir)); std::string p = std::string(dir) + "/a.mat"; bool ok = false; double v = 0;
	{ nntl_supp::omatfileEx<> ar; if ((int)ar.open(p, nntl_supp::omatfileEx<>::UpdateDelete) == 0) { double x = 1; ar.save_struct_begin("outer", false, false); ar & make_nvp("a", x); ar.save_struct_begin("other", false, true); x = 2; ar & make_nvp("b", x); ar.save_struct_end(); ar.save_struct_end(); ok = ar.success(); ar.close(); } }
	mxArray* s = nullptr; if (ok) { MATFile* mf = matOpen(p.c_str(), "r"); if (mf) { s = matGetVariable(mf, "other"); if (s && mxIsStruct(s)) { mxArray* b = mxGetField(s, 0, "b"); if (b) v = *(double*)mxGetData(b); } matClose(mf); } }
	unlink(p.c_str()); rmdir(dir); CHECK(ok); CHECK(s); CHECK(v == 2);
	return 0;
}
'''
