// P15: data files. Binary files are judged against an independent parser of the documented format, JSON files against the structure
// they were generated from; well-formed content is read exactly, malformed content is refused with its error code, nothing is leaked.
#include "mc.h"
#include "nntl/nntl.h"
#include "nntl/_supp/io/binfile.h"
#include "nntl/_supp/io/jsonreader.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define VP_HOOK 1
#endif
#endif
namespace {
#ifdef VP_HOOK
static long g_live = 0; static bool g_count = false;
static void mh(const volatile void*, size_t) { if (g_count) ++g_live; } static void fh(const volatile void*) { if (g_count) --g_live; }
static int hk = (__sanitizer_install_malloc_and_free_hooks(mh, fh), 0);
struct Live { Live() { g_live = 0; g_count = true; } long end() { g_count = false; return g_live; } ~Live() { g_count = false; } };
#else
struct Live { long end() { return 0; } };
#endif
struct TmpF { int fd; std::string path; TmpF(const std::string& s) { fd = (int)syscall(SYS_memfd_create, "vp", 0); if (fd < 0) { FILE* f = tmpfile(); if (!f) vp::fail("no scratch file"); fd = dup(fileno(f)); fclose(f); } size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) vp::fail("scratch write"); o += (size_t)k; } path = "/proc/self/fd/" + std::to_string(fd); } ~TmpF() { close(fd); } };
typedef inmem_train_data_stor<R, R> TDS; typedef seq_data<R> SQ;
struct SQA : SQ { static auto& stor(SQ& s) { return s.*(&SQA::m_seqStor); } };
typedef nntl_supp::binfile BF; typedef BF::ErrorCode BE; typedef nntl_supp::jsonreader JR; typedef JR::ErrorCode JE;
// ---------------------------------------------------------------- binary files
struct Fld { uint32_t r, c; std::string name; int dt; std::vector<double> v; };
static void p16(std::string& s, unsigned v) { s += (char)(v & 255); s += (char)(v >> 8 & 255); } static void p32(std::string& s, uint32_t v) { p16(s, v & 65535); p16(s, v >> 16); }
static std::string fstr(const Fld& f) { std::string s; p32(s, f.r); p32(s, f.c); std::string n = f.name; n.resize(15, '\0'); s += n; s += (char)f.dt; for (double d : f.v) { if (f.dt == 1) { float x = (float)d; s.append((const char*)&x, 4); } else s.append((const char*)&d, 8); } return s; }
static std::string hdr(unsigned nf, unsigned nc, const char* sig = "nntl", unsigned ver = 0) { std::string s(sig, 4); p16(s, ver); p16(s, nf); p16(s, nc); return s; }
static double gv(vp::Gen& g) { switch (g.raw(8)) { case 0: return 0.; case 1: return -0.; case 2: return std::ldexp(1., (int)g.i(-120, 120)); case 3: return -std::ldexp(1. + g.real(0, 1), (int)g.i(-120, 120)); case 4: return (double)g.i(-1000, 1000); case 5: { double x = g.real(-1, 1) / 3; return x; } case 6: return 1e300 * 0 + INFINITY * (g.b() ? 1 : -1); default: return g.real(-10, 10) / 7; } }
static Fld gf(vp::Gen& g, const std::string& name, int r, int c) { Fld f; f.r = (uint32_t)r; f.c = (uint32_t)c; f.name = name; f.dt = (int)g.raw(2); for (int i = 0; i < r * c; i++) f.v.push_back(gv(g)); return f; }
static R conv(const Fld& f, size_t i) { return f.dt == 1 ? R((float)f.v[i]) : R(f.v[i]); }
// the documented format
struct Parsed { bool ok = false; bool huge = false; std::vector<Fld> f; std::vector<int> cls, fcls; };
static Parsed parse(const std::string& s, int kind) { // kind 0 matrix, 1 data set, 2 sequences
	Parsed P; size_t o = 0; auto u16 = [&](size_t p) { return (unsigned)(uint8_t)s[p] | (unsigned)(uint8_t)s[p + 1] << 8; }; auto u32 = [&](size_t p) { return (uint32_t)u16(p) | (uint32_t)u16(p + 2) << 16; };
	if (s.size() < 10 || s.compare(0, 4, "nntl") || u16(4)) return P; unsigned nf = u16(6), nc = u16(8); o = 10; unsigned n = nf;
	if (kind == 0) { if (nf != 1 || nc) return P; } else if (kind == 1) { if (nf != 4 || nc) return P; }
	else { if (nf <= nc) return P; unsigned t = 0; for (unsigned i = 0; i < nc; i++) { if (s.size() < o + 2) return P; unsigned k = u16(o); o += 2; if (!k) return P; P.cls.push_back((int)k); t += k; } if (!nc || t + nc != nf) return P; n = t; }
	bool seen[4] = { 0,0,0,0 }; std::vector<int> left = P.cls; const char* nm[4] = { "train_x", "train_y", "test_x", "test_y" }; P.f.resize(kind == 1 ? 4 : n); size_t w = 0;
	for (unsigned i = 0; i < n; i++) { if (s.size() < o + 24) return P; Fld f; f.r = u32(o); f.c = u32(o + 4); f.name = std::string(s.c_str() + o + 8, strnlen(s.c_str() + o + 8, 15)); f.dt = (uint8_t)s[o + 23]; o += 24;
		if (kind == 2) { int k; std::string z = f.name; if (1 != sscanf(z.c_str(), "c%d", &k) || k < 1 || (size_t)k > left.size() || left[(size_t)k - 1] == 0) return P; left[(size_t)k - 1]--; P.fcls.push_back(k - 1); }
		if (!f.r || !f.c || f.r >= 0x7fffffffu || f.c >= 0x7fffffffu) return P; int id = 0; if (kind == 1) { for (id = 0; id < 4 && f.name != nm[id]; id++); if (id == 4) return P; }
		if (((double)f.r + 1) * ((double)f.c + 1) >= 0x1p60) return P; if ((double)f.r * f.c > 1e6) P.huge = true; if (f.dt > 1) return P; size_t e = f.dt ? 4 : 8, tot = (size_t)f.r * f.c; if ((double)f.r * f.c > 1e9 || s.size() < o + e * tot) return P;
		for (size_t q = 0; q < tot; q++) { if (f.dt) { float x; memcpy(&x, &s[o], 4); f.v.push_back(x); } else { double x; memcpy(&x, &s[o], 8); f.v.push_back(x); } o += e; }
		if (kind == 1) { if (seen[id]) return P; seen[id] = true; P.f[(size_t)id] = f; } else P.f[w++] = f; }
	if (kind == 1 && (P.f[0].r != P.f[1].r || P.f[2].r != P.f[3].r || P.f[0].c != P.f[2].c || P.f[1].c != P.f[3].c)) return P;
	P.ok = true; return P; }
template<class MT> static void same(const MT& m, const Fld& f, bool bias, const char* what) {
	VP_REQ(m.rows() == (vec_len_t)f.r && m.cols_no_bias() == (vec_len_t)f.c && m.emulatesBiases() == bias, what, " is ", m.rows(), "x", m.cols_no_bias(), " bias ", m.emulatesBiases(), " expected ", f.r, "x", f.c);
	for (size_t i = 0; i < f.v.size(); i++) { R a = m.data()[i], e = conv(f, i); bool eq = std::isnan(e) ? std::isnan(a) : (a == e && std::signbit(a) == std::signbit(e)); VP_REQ(eq, what, " element ", i % f.r, ",", i / f.r, " is ", a, ", the file has ", e); }
	if (bias) for (vec_len_t i = 0; i < m.rows(); i++) VP_REQ(m.get(i, m.cols() - 1) == R(1), what, ": bias of row ", i, " is ", m.get(i, m.cols() - 1)); }
static std::vector<R> snap(TDS& t) { std::vector<R> v; if (t.empty()) return v; for (auto m : { &t.train_x(), &t.train_y(), &t.test_x(), &t.test_y() }) { v.push_back((R)m->rows()); v.push_back((R)m->cols()); v.insert(v.end(), m->data(), m->data() + m->numel()); } return v; }
static bool eqv(const std::vector<R>& a, const std::vector<R>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(R))); }

struct Made { std::string s; int code; }; // code: expected ErrorCode, -1 any failure
static std::string names4(int i) { const char* nm[4] = { "train_x", "train_y", "test_x", "test_y" }; return nm[i]; }
static Made mk(vp::Gen& g, int kind) {
	Made r; r.code = BE::Success; std::vector<Fld> f; std::vector<unsigned> cls; int ml = 5 * std::min(g.scale, 3);
	if (kind == 0) { std::string n; int l = (int)g.raw(16); for (int i = 0; i < l; i++) n += (char)(33 + g.raw(90)); f.push_back(gf(g, n, (int)g.z(1, ml), (int)g.z(1, ml))); }
	else if (kind == 1) { int a = (int)g.z(1, ml), b = (int)g.z(1, ml), x = (int)g.z(1, 4), y = (int)g.z(1, 3); int ord[4] = { 0,1,2,3 }; for (int i = 3; i > 0; i--) std::swap(ord[i], ord[i - (int)g.raw((uint64_t)i + 1)]);
		for (int i : ord) f.push_back(gf(g, names4(i), i < 2 ? a : b, i % 2 ? y : x)); }
	else { unsigned nc = (unsigned)g.z(1, 4); std::vector<int> q; for (unsigned c = 0; c < nc; c++) { cls.push_back((unsigned)g.z(1, 3)); for (unsigned k = 0; k < cls[c]; k++) q.push_back((int)c); } for (size_t i = q.size() - 1; i > 0; i--) std::swap(q[i], q[i - g.raw(i + 1)]);
		for (int c : q) { std::string n = "c" + std::to_string(c + 1); switch (g.raw(3)) { case 1: n += "_" + std::to_string(g.raw(10)); break; case 2: n.resize(15, 'x'); break; } f.push_back(gf(g, n, (int)g.z(1, ml), (int)g.z(1, 4))); } }
	size_t k = g.raw(f.size()); unsigned nf = (unsigned)(f.size() + cls.size()), nc = (unsigned)cls.size(), ver = 0; const char* sig = "nntl"; int cut = 0; // cut: 1 header 2 classes 3 field header 4 data
	if (g.b(2, 3)) switch (g.raw(14)) {
	case 0: sig = g.pick({ "ltnn", "nnt\0", "NNTL", "\0\0\0\0", "nntk" }); r.code = BE::WrongHeaderSignature; break;
	case 1: ver = (unsigned)g.z(1, 65535); r.code = BE::UnsupportedFormatVersion; break;
	case 2: { unsigned o = nf; nf = g.b() ? (unsigned)g.raw(6) : nf + (g.b() ? 1u : 65000u); if (nf == o) nf++; r.code = BE::WrongElementsCount; break; }
	case 3: if (kind == 2) { cls[g.raw(cls.size())] = 0; r.code = BE::InvalidSeqClassElement; } else { nc = (unsigned)g.z(1, 65535); r.code = BE::InvalidSeqClassCount; } break;
	case 4: cut = 1; r.code = BE::FailedToReadHeader; break;
	case 5: if (kind == 2) { cut = 2; r.code = BE::FailedToReadSeqClassHeader; } else { cut = 3; r.code = BE::FailedToReadFieldEntry; } break;
	case 6: cut = 3; r.code = BE::FailedToReadFieldEntry; break;
	case 7: cut = 4; r.code = BE::FailedToReadData; break;
	case 8: { uint32_t z = g.pick({ 0u, 0u, 0x80000000u, 0xffffffffu, 0x7fffffffu, 0x80000001u }); (g.b() ? f[k].r : f[k].c) = z; r.code = BE::InvalidDataSize; break; }
	case 9: f[k].dt = (int)g.z(2, 255); r.code = BE::UnsupportedIncorrectDataType; break;
	case 10: if (kind == 1) { f[k].name = g.pick({ "train_X", "train_xx", "", "test", "train_x_train_x", "mtx" }); r.code = BE::UnknownFieldName; } else if (kind == 2) { f[k].name = g.pick({ "", "c", "d1", "c0", "c-1", "cc1", "1" }); r.code = BE::FailedToParseClassId; } break;
	case 11: if (kind == 1) { size_t o = (k + 1 + g.raw(3)) % 4; f[o].name = f[k].name; r.code = BE::FieldHasBeenRead; } else if (kind == 2) { f[k].name = "c" + std::to_string(cls.size() + 1 + g.raw(3)); r.code = BE::IncoherentSeqClassCount; } break;
	case 12: if (kind == 1) { Fld& q = f[k]; q = gf(g, q.name, (int)q.r + (g.b() ? 1 : 0), (int)q.c); if (parse(hdr(4, 0) + fstr(f[0]) + fstr(f[1]) + fstr(f[2]) + fstr(f[3]), 1).ok) { q = gf(g, q.name, (int)q.r, (int)q.c + 1); } r.code = BE::FailedToMakeTDOutOfReadData; } break;
	default: { // a size product that does not fit the address space
		f[k].r = g.pick({ 0x40000001u, 0x7ffffffeu, 0x50000000u }); f[k].c = g.pick({ 0x40000000u, 0x7ffffffeu, 0x66666666u }); if (g.b()) { f[k].r = 2147352580u; f[k].c = 1073807362u; f[k].v.resize(8); /* 2^61+8 elements: the byte size is 64 modulo 2^64 */ } r.code = BE::InvalidDataSize; break; } }
	r.s = hdr(nf, nc, sig, ver); if (cut == 1) { r.s.resize(g.raw(10)); return r; }
	for (size_t i = 0; i < cls.size(); i++) { if (cut == 2 && i == k % cls.size()) { if (g.b()) r.s += '\1'; return r; } p16(r.s, cls[i]); }
	for (size_t i = 0; i < f.size(); i++) { std::string q = fstr(f[i]); if (cut == 3 && i == k) { r.s += q.substr(0, g.raw(24)); return r; } if (cut == 4 && i == k) { r.s += q.substr(0, 24 + g.raw(q.size() - 24)); return r; } r.s += q; }
	if (r.code == BE::Success && g.b(1, 4)) { // arbitrary damage: judged by the reference parser only
		int n = (int)g.z(1, 3); for (int i = 0; i < n && !r.s.empty(); i++) { size_t p = g.b() ? g.raw(std::min<size_t>(r.s.size(), 60)) : g.raw(r.s.size()); switch (g.raw(4)) { case 0: r.s[p] = (char)g.raw(256); break; case 1: r.s[p] = (char)(r.s[p] ^ (1 << g.raw(8))); break; case 2: r.s.erase(p, 1 + g.raw(4)); break; default: r.s.insert(p, 1, (char)g.raw(256)); } } r.code = -1; }
	return r; }
template<class DST> static void judge(vp::Gen& g, BF& bf, const Made& m, int kind, DST& dst, const std::function<void(const Parsed&)>& good) {
	Parsed P = parse(m.s, kind); if (P.huge) { g.label("huge (skipped)"); return; } VP_REQ(m.code == -1 || (m.code == BE::Success) == P.ok, "harness: model and generator disagree, code ", m.code);
	TmpF t(m.s); BE ec = bf.read(t.path.c_str(), dst); g.label(BF::get_error_str(ec)); g.say("kind", kind, "bytes", m.s.size(), "->", BF::get_error_str(ec));
	if (P.ok) { VP_REQ(ec == BE::Success, "well-formed file of ", m.s.size(), " bytes refused: ", BF::get_error_str(ec)); good(P); g.nontrivial(); }
	else { VP_REQ(ec != BE::Success, "malformed file accepted, expected: ", m.code < 0 ? "any error" : BF::get_error_str((BE)m.code)); if (m.code >= 0) VP_REQ(ec == (BE)m.code, "reported '", BF::get_error_str(ec), "' instead of '", BF::get_error_str((BE)m.code), "'"); g.nontrivial(m.code >= 0); }
	VP_REQ(bf.get_last_error() == ec, "get_last_error() is '", bf.get_last_error_str(), "' after read() returned '", BF::get_error_str(ec), "'"); }
VP_TESTM(binfile, 40, 300) {
	BF bf; int n = (int)g.z(1, 4); TDS td; bool have = false;
	for (int q = 0; q < n; q++) { int kind = (int)g.raw(4);
		if (kind == 0) { Made m = mk(g, 0); bool bias = g.b(); Live L; { M d; if (bias) d.will_emulate_biases(); judge(g, bf, m, 0, d, [&](const Parsed& P) { same(d, P.f[0], bias, "matrix"); }); } (void)L; }
		else if (kind == 3) { Made m = mk(g, 0); bool bias = g.b(); MD d; if (bias) d.will_emulate_biases(); judge(g, bf, m, 0, d, [&](const Parsed& P) { same(d, P.f[0], bias, "matrix"); if (d.rows() > 1) { d.deform_rows(d.rows() - 1); VP_REQ(d.cols_no_bias() == (vec_len_t)P.f[0].c, "deform"); } }); }
		else if (kind == 1) { Made m = mk(g, 1); std::vector<R> o = snap(td); bool ok = false; judge(g, bf, m, 1, td, [&](const Parsed& P) { ok = true; VP_REQ(!td.empty(), "data object is empty after a successful read"); same(td.train_x(), P.f[0], true, "train_x"); same(td.train_y(), P.f[1], false, "train_y"); same(td.test_x(), P.f[2], true, "test_x"); same(td.test_y(), P.f[3], false, "test_y"); }); if (!ok) { VP_REQ(eqv(o, snap(td)), "a failed read changed the data object"); g.labelif(have, "failed read over existing data"); } else { g.labelif(have, "replaced data"); have = true; } }
		else { Made m = mk(g, 2); SQ d; judge(g, bf, m, 2, d, [&](const Parsed& P) { auto& st = SQA::stor(d); VP_REQ(!d.empty() && st.size() == P.cls.size() && d.get_class_seq_count().size() == P.cls.size(), "number of classes"); std::vector<size_t> nx(P.cls.size()); for (size_t c = 0; c < P.cls.size(); c++) VP_REQ((int)d.get_class_seq_count()[c] == P.cls[c] && (int)st[c].size() == P.cls[c], "sequences of class ", c);
				for (size_t i = 0; i < P.f.size(); i++) { size_t c = (size_t)P.fcls[i]; same(st[c][nx[c]++], P.f[i], false, "sequence"); } }); } } }
// nothing is left allocated by a read, whatever its outcome
VP_TESTM(binfile_leaks, 10, 100) {
#ifdef VP_HOOK
	int kind = (int)g.raw(3); Made m = mk(g, kind); if (parse(m.s, kind).huge) return; TmpF t(m.s); BF bf; BE ec; std::string path = t.path; Live L;
	if (kind == 0) { M d; ec = bf.read(path.c_str(), d); } else if (kind == 1) { TDS d; ec = bf.read(path.c_str(), d); } else { SQ d; ec = bf.read(path.c_str(), d); }
	long k = L.end(); VP_REQ(k == 0, k, " allocations leaked by a read that returned '", BF::get_error_str(ec), "'"); g.label(BF::get_error_str(ec)); g.nontrivial();
#else
	g.nontrivial();
#endif
}
VP_TESTM(binfile_missing, 1, 5) { BF bf; M d; BE e = bf.read(g.pick({ "/proc/self/fd/nonexistent", "/nonexistent/dir/file.bin", "" }), d); VP_REQ(e == BE::FailedToOpenFile && bf.get_last_error() == e && d.empty(), "missing file: ", BF::get_error_str(e)); JR jr; JE j = jr.read("/proc/self/fd/nonexistent", d); VP_REQ(j == JE::FailedToOpenFile && jr.get_last_error() == j, "missing file: ", JR::get_error_str(j)); g.nontrivial(); }
// a non-empty destination is not overwritten silently
VP_TESTM(binfile_occupied, 2, 10) { BF bf; Made m; do { m = mk(g, 0); } while (m.code != BE::Success); TmpF t(m.s); M d; BE e = bf.read(t.path.c_str(), d); VP_REQ(e == BE::Success, "read"); std::vector<R> o(d.data(), d.data() + d.numel()); Made m2; do { m2 = mk(g, 0); } while (m2.code != BE::Success); TmpF t2(m2.s); e = bf.read(t2.path.c_str(), d); VP_REQ(e == BE::FieldHasBeenRead && eqv(o, std::vector<R>(d.data(), d.data() + d.numel())), "reading into a filled matrix returned ", BF::get_error_str(e)); g.nontrivial(); }
// ---------------------------------------------------------------- JSON
template<class T> struct JM { int r = 0, c = 0; bool vec = false; std::vector<T> v; }; // column major
template<class T> static std::string num(vp::Gen& g, T& o) {
	char b[64]; if (std::is_integral<T>::value) { long long lo = (long long)std::numeric_limits<T>::min(); uint64_t hi = (uint64_t)std::numeric_limits<T>::max(); if (g.b(1, 6)) { bool l = g.b(); o = l ? (T)lo : (T)hi; if (l) snprintf(b, 64, "%lld", lo); else snprintf(b, 64, "%llu", (unsigned long long)hi); return b; } long long x = g.i(lo < 0 ? -100 : 0, 100); o = (T)x; snprintf(b, 64, "%lld", x); return b; }
	double d; do d = gv(g); while (std::isinf(d)); switch (g.raw(5)) { case 0: { long long x = g.i(-1000, 1000); o = (T)x; snprintf(b, 64, "%lld", x); return b; } case 1: snprintf(b, 64, "%.*e", (int)g.raw(20), d); break; case 2: snprintf(b, 64, "%.3f", std::fmod(d, 1e6)); break; default: snprintf(b, 64, "%.17g", d); } d = strtod(b, nullptr); o = (T)d; return b; }
static std::string ws(vp::Gen& g) { static const char* w[] = { "", "", "", " ", "\n", "\t", "  ", "\r\n" }; return w[g.raw(8)]; }
// bad: 0 none, 1 not an array, 2 empty array, 3 empty first row, 4 ragged, 5 not a number
template<class T> static std::string jmtx(vp::Gen& g, JM<T>& m, int bad) {
	if (bad == 1) return g.pick({ "1", "\"x\"", "null", "true", "{}", "{\"a\":[1]}" }); if (bad == 2) return "[" + ws(g) + "]";
	m.v.assign((size_t)m.r * m.c, T(0)); auto el = [&](int i, int j) { T o; std::string s = num<T>(g, o); m.v[(size_t)j * m.r + i] = o; return s; };
	std::vector<std::string> nn = { "\"1\"", "null", "true", "false", "{}" }; if (std::is_integral<T>::value) { nn.push_back("1.5"); nn.push_back("1e3"); if (std::is_unsigned<T>::value) nn.push_back("-1"); if (sizeof(T) < 8) nn.push_back("99999999999"); } else nn.push_back("\"\"");
	std::string nb = bad == 5 ? nn[g.raw(nn.size())] : ""; size_t at = g.raw((uint64_t)m.r * m.c); std::string s = "[" + ws(g); 
	if (m.vec) { for (int i = 0; i < m.r; i++) { if (i) s += ws(g) + "," + ws(g); s += bad == 5 && (size_t)i == at ? (i && g.b(1, 5) ? std::string("[1]") : nb) : el(i, 0); } return s + "]"; }
	int rc = bad == 4 ? (m.c > 1 ? 1 + (int)g.raw((uint64_t)m.c - 1) : 0) : -1; for (int j = 0; j < m.c; j++) { if (j) s += "," + ws(g); if (bad == 3 && j == 0) { s += "[]"; continue; } if (j == rc && g.b(1, 4)) { s += "1"; continue; } s += "[" + ws(g); int n = j == rc ? (m.r > 1 && g.b() ? m.r - 1 : m.r + 1) : m.r; for (int i = 0; i < n; i++) { if (i) s += "," + ws(g); s += bad == 5 && (size_t)(j * m.r + i) == at ? nb : el(std::min(i, m.r - 1), j); } s += "]"; } return s + ws(g) + "]"; }
template<class T, class MT> static void samej(const MT& m, const JM<T>& f, bool bias, const char* what) {
	VP_REQ(m.rows() == (vec_len_t)f.r && m.cols_no_bias() == (vec_len_t)f.c && m.emulatesBiases() == bias, what, " is ", m.rows(), "x", m.cols_no_bias(), " expected ", f.r, "x", f.c);
	for (size_t i = 0; i < f.v.size(); i++) VP_REQ(m.data()[i] == f.v[i], what, " element ", i % (size_t)f.r, ",", i / (size_t)f.r, " is ", +m.data()[i], ", the file has ", +f.v[i]); if (bias) for (vec_len_t i = 0; i < m.rows(); i++) VP_REQ(m.get(i, m.cols() - 1) == T(1), what, ": bias of row ", i); }
template<class T> static JM<T> dims(vp::Gen& g, int r, int c) { JM<T> m; m.r = r; m.c = c; m.vec = c == 1 && g.b(2, 3); return m; }
static std::string wrap(vp::Gen& g, std::vector<std::pair<std::string, std::string>> q) { if (g.b()) q.push_back({ "bColMajor", "true" }); if (g.b(1, 4)) q.push_back({ "train_z", "[[1,2],[3]]" }); for (size_t i = q.size(); i-- > 1;) std::swap(q[i], q[i - g.raw(i + 1)]); std::string s = ws(g) + "{" + ws(g); for (size_t i = 0; i < q.size(); i++) { if (i) s += ws(g) + "," + ws(g); s += "\"" + q[i].first + "\"" + ws(g) + ":" + ws(g) + q[i].second; } return s + ws(g) + "}" + ws(g); }
static void jset(vp::Gen& g, JR& jr) { switch (g.raw(4)) { case 0: jr.m_readBufSize = 4 + g.raw(12); break; case 1: jr.m_readBufSize = 64; break; case 2: jr.m_readBufSize = 1 << 20; break; default:; } }
static JE broken(vp::Gen& g, std::string& s, bool& changed) { changed = true; switch (g.raw(3)) { case 0: { size_t e = s.find_last_of('}'); s.resize(g.raw(e + 1)); return JE::FailedToParseJson; } case 1: { s = g.pick({ "[1,2]", "3", "\"a\"", "null", "[]", "[{\"train_x\":[1]}]" }); return JE::RootIsNotAnObject; } default: s += g.pick({ "x", "{}", "]", "}" }); return JE::FailedToParseJson; } }
template<class T> static void jone(vp::Gen& g, const char* tn) {
	JR jr; int n = (int)g.z(1, 3); for (int q = 0; q < n; q++) { jset(g, jr); JM<T> a = dims<T>(g, (int)g.z(1, 6), (int)g.z(1, 5)); int bad = g.b(1, 3) ? (int)g.z(1, 5) : 0; if (bad == 3 || bad == 4) { a.vec = false; if (a.c < 2) a.c = 2; } bool miss = bad == 0 && g.b(1, 10); std::vector<std::pair<std::string, std::string>> p; std::string js = jmtx(g, a, bad); if (!miss) p.push_back({ "train_x", js }); std::string s = wrap(g, p);
		JE ex = miss ? JE::NoTrainX : bad ? JE::InvalidTrainX : JE::Success; bool ch = false; if (g.b(1, 6)) ex = broken(g, s, ch); TmpF t(s); bool bias = g.b(); bool pre = g.b(); JE ec; g.say(tn, s.substr(0, 60));
		Live L; { math::smatrix<T> d; if (bias && !pre) d.will_emulate_biases(); ec = jr.read(t.path.c_str(), d, bias); if (ec == JE::Success && ex == JE::Success) samej<T>(d, a, bias, "matrix"); } (void)L;
		VP_REQ(ec == ex, "reported '", JR::get_error_str(ec), "' instead of '", JR::get_error_str(ex), "' for ", s.substr(0, 300)); VP_REQ(jr.get_last_error() == ec, "get_last_error()"); VP_REQ((jr.get_parse_error() != rapidjson::kParseErrorNone) == (ec == JE::FailedToParseJson), "parse error ", (int)jr.get_parse_error()); if (ec == JE::FailedToParseJson) VP_REQ(jr.get_parse_error_offset() <= s.size() && !jr.get_last_error_string().empty(), "parse error offset"); g.label(JR::get_error_str(ec)); g.nontrivial(); } }
VP_TESTM(json_matrix, 20, 200) { switch (g.raw(4)) { case 0: jone<int>(g, "int"); break; case 1: jone<unsigned char>(g, "uchar"); break; case 2: jone<uint64_t>(g, "u64"); break; default: jone<R>(g, "real"); } }
VP_TESTM(json_data, 20, 200) {
	JR jr; TDS td; int n = (int)g.z(1, 4); for (int q = 0; q < n; q++) { jset(g, jr); int a = (int)g.z(1, 6), b = (int)g.z(1, 6), x = (int)g.z(1, 4), y = (int)g.z(1, 3); if (a == 1) a = 2; if (b == 1) b = 2; JM<R> m[4]; JE ex = JE::Success; std::vector<std::pair<std::string, std::string>> p; bool mism = g.b(1, 8); int wi = (int)g.raw(4), wd = (int)g.raw(2);
		for (int i = 0; i < 4; i++) { int r = i < 2 ? a : b, c = i % 2 ? y : x; if (mism && i == wi) { if (wd) r++; else c++; } m[i] = dims<R>(g, r, c); int bad = g.b(1, 12) ? (int)g.z(1, 5) : 0; if (bad == 3 || bad == 4) { if (m[i].c < 2 || m[i].vec) bad = 5; } bool miss = bad == 0 && g.b(1, 30); std::string s = jmtx(g, m[i], bad); if (!miss) p.push_back({ names4(i), s }); if (ex == JE::Success) { if (miss) ex = (JE)(JE::NoTrainX + i); else if (bad) ex = (JE)(JE::InvalidTrainX + i); } }
		if (ex == JE::Success && mism) ex = JE::MismatchingDataLength; std::string s = wrap(g, p); bool ch = false; if (g.b(1, 10)) ex = broken(g, s, ch); TmpF t(s); std::vector<R> o = snap(td); JE ec = jr.read(t.path.c_str(), td); g.say(s.substr(0, 60));
		VP_REQ(ec == ex, "reported '", JR::get_error_str(ec), "' instead of '", JR::get_error_str(ex), "' for ", s.substr(0, 400)); VP_REQ(jr.get_last_error() == ec, "get_last_error()"); g.label(JR::get_error_str(ec)); g.nontrivial();
		if (ec == JE::Success) { samej<R>(td.train_x(), m[0], true, "train_x"); samej<R>(td.train_y(), m[1], false, "train_y"); samej<R>(td.test_x(), m[2], true, "test_x"); samej<R>(td.test_y(), m[3], false, "test_y"); } else VP_REQ(eqv(o, snap(td)), "a failed read changed the data object"); } }
// both formats deliver the same data
VP_TESTM(json_leaks, 5, 50) {
#ifdef VP_HOOK
	JM<R> a = dims<R>(g, (int)g.z(1, 6), (int)g.z(1, 5)); int bad = g.b() ? (int)g.z(1, 5) : 0; std::string s = wrap(g, { { "train_x", jmtx(g, a, bad) } }); bool ch; if (g.b(1, 4)) broken(g, s, ch); TmpF t(s); std::string path = t.path; JR jr; JE ec; Live L; { M d; ec = jr.read(path.c_str(), d); } long k = L.end(); VP_REQ(k == 0, k, " allocations leaked by a read that returned '", JR::get_error_str(ec), "'"); g.label(JR::get_error_str(ec));
#endif
	g.nontrivial(); }
}
