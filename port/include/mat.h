// Stand-in for the Matlab MAT-file C API (libmat/libmx): the handful of documented calls the library uses,
// over real files in a private container format. Ownership rules follow the Matlab documentation
// (struct fields are owned by the struct; matPutVariable copies; matGetVariable hands over a fresh array).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS,
	mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
inline size_t mxPortElmSize_(mxClassID c) {
	switch (c) {
	case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1;
	case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
	case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
	default: return 8;
	}
}
struct mxArray_tag {
	mxClassID cls; size_t m, n; void* data; size_t bytes;
	std::vector<std::pair<std::string, mxArray_tag*>> fields;
	static long& live() { static long l = 0; return l; }
	mxArray_tag(mxClassID c, size_t r, size_t k) : cls(c), m(r), n(k), data(nullptr), bytes(0) {
		++live();
		if (c != mxSTRUCT_CLASS) { bytes = r*k*mxPortElmSize_(c); data = calloc(bytes ? bytes : 1, 1); }
	}
	~mxArray_tag() { --live(); free(data); for (auto& f : fields) delete f.second; }
};
typedef mxArray_tag mxArray;
inline mxArray* mxPortClone_(const mxArray* a) {
	if (!a) return nullptr;
	auto r = new mxArray(a->cls, a->m, a->n);
	if (a->data) memcpy(r->data, a->data, a->bytes);
	for (auto& f : a->fields) r->fields.emplace_back(f.first, mxPortClone_(f.second));
	return r;
}
inline mxArray* mxCreateLogicalMatrix(size_t m, size_t n) { return new mxArray(mxLOGICAL_CLASS, m, n); }
inline mxArray* mxCreateNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity) { return new mxArray(c, m, n); }
inline mxArray* mxCreateStructMatrix(size_t m, size_t n, int nf, const char** names) {
	auto r = new mxArray(mxSTRUCT_CLASS, m, n);
	for (int i = 0; i < nf; ++i) r->fields.emplace_back(names[i], nullptr);
	return r;
}
inline void mxDestroyArray(mxArray* a) { delete a; }
inline mxClassID mxGetClassID(const mxArray* a) { return a->cls; }
inline void* mxGetData(const mxArray* a) { return a->data; }
inline size_t mxGetM(const mxArray* a) { return a->m; }
inline size_t mxGetN(const mxArray* a) { return a->n; }
inline bool mxIsStruct(const mxArray* a) { return a->cls == mxSTRUCT_CLASS; }
inline bool mxIsLogical(const mxArray* a) { return a->cls == mxLOGICAL_CLASS; }
inline bool mxIsNumeric(const mxArray* a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
inline int mxGetFieldNumber(const mxArray* a, const char* n) {
	for (size_t i = 0; i < a->fields.size(); ++i) if (a->fields[i].first == n) return (int)i;
	return -1;
}
inline int mxAddField(mxArray* a, const char* n) {
	int i = mxGetFieldNumber(a, n); if (i >= 0) return i;
	a->fields.emplace_back(n, nullptr); return (int)a->fields.size() - 1;
}
inline mxArray* mxGetFieldByNumber(const mxArray* a, size_t, int i) { return (i < 0 || (size_t)i >= a->fields.size()) ? nullptr : a->fields[i].second; }
inline void mxSetFieldByNumber(mxArray* a, size_t, int i, mxArray* v) { a->fields[i].second = v; }
inline mxArray* mxGetField(const mxArray* a, size_t k, const char* n) { return mxGetFieldByNumber(a, k, mxGetFieldNumber(a, n)); }

struct MATFile_tag {
	std::string path, mode; std::map<std::string, mxArray*> vars;
	~MATFile_tag() { for (auto& v : vars) delete v.second; }
	static void putS(FILE* f, const std::string& s) { size_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
	static bool getS(FILE* f, std::string& s) { size_t n; if (fread(&n, 8, 1, f) != 1) return false; s.resize(n); return fread(&s[0], 1, n, f) == n; }
	static void put(FILE* f, const mxArray* a) {
		size_t h[5] = { a != nullptr, 0,0,0,0 };
		if (a) { h[1] = a->cls; h[2] = a->m; h[3] = a->n; h[4] = a->fields.size(); }
		fwrite(h, 8, 5, f); if (!a) return;
		if (a->bytes) fwrite(a->data, 1, a->bytes, f);
		for (auto& x : a->fields) { putS(f, x.first); put(f, x.second); }
	}
	static mxArray* get(FILE* f) {
		size_t h[5]; if (fread(h, 8, 5, f) != 5 || !h[0]) return nullptr;
		auto a = new mxArray((mxClassID)h[1], h[2], h[3]);
		if (a->bytes && fread(a->data, 1, a->bytes, f) != a->bytes) {}
		for (size_t i = 0; i < h[4]; ++i) { std::string s; getS(f, s); a->fields.emplace_back(s, get(f)); }
		return a;
	}
};
typedef MATFile_tag MATFile;
inline MATFile* matOpen(const char* p, const char* mode) {
	auto m = new MATFile; m->path = p; m->mode = mode;
	if (mode[0] == 'w') { FILE* f = fopen(p, "wb"); if (!f) { delete m; return nullptr; } fclose(f); return m; }
	FILE* f = fopen(p, "rb"); if (!f) { delete m; return nullptr; }
	std::string s; while (MATFile::getS(f, s)) m->vars[s] = MATFile::get(f);
	fclose(f); return m;
}
inline int matClose(MATFile* m) {
	int r = 0;
	if (m->mode[0] != 'r') {
		FILE* f = fopen(m->path.c_str(), "wb");
		if (f) { for (auto& v : m->vars) { MATFile::putS(f, v.first); MATFile::put(f, v.second); } fclose(f); } else r = 1;
	}
	delete m; return r;
}
inline int matPutVariable(MATFile* m, const char* n, const mxArray* a) {
	if (m->mode[0] == 'r') return 1;
	auto& s = m->vars[n]; delete s; s = mxPortClone_(a); return 0;
}
inline mxArray* matGetVariable(MATFile* m, const char* n) { auto i = m->vars.find(n); return i == m->vars.end() ? nullptr : mxPortClone_(i->second); }
inline bool mclmcrInitialize() { return true; }
