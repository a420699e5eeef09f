// vp.h - generated-input search with an explicit oracle: choice-stream generators, forked workers,
// crash/hang capture, shrinking on the choice stream, confirmed replay, evidence.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <initializer_list>
#include <type_traits>
#include <limits>
#include <sstream>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>

namespace vp {

static inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
static inline uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

struct Rnd { // splitmix64
	uint64_t s;
	explicit Rnd(uint64_t seed) : s(seed) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	double unit() { return double(next() >> 11) / 9007199254740992.0; }
};

struct Fail { std::string msg, key; };

static const size_t MAXCH = 1 << 16;
static const size_t MSGLEN = 8192;
struct Slot { // shared memory, one per worker
	volatile int state;            // 0 idle, 1 running a case, 2 failed, 3 finished
	volatile int test;
	volatile uint64_t caseno;
	volatile double started;
	volatile size_t nch;
	uint64_t ch[MAXCH];
	char msg[MSGLEN];
	char key[256];
};

class Gen {
public:
	bool replay = false;
	const std::vector<uint64_t>* in = nullptr;
	size_t pos = 0;
	Rnd rnd{ 0 };
	Slot* slot = nullptr;
	bool nontriv = false;
	std::vector<std::string> labels;
	std::string desc;
	uint64_t hash = 0x1234567;
	int scale = 1;	// 1 quick, larger for thorough: generators may use it to widen sizes

	uint64_t raw(uint64_t n) { // in [0,n)
		uint64_t v;
		if (n <= 1) n = 1;
		if (replay) { v = pos < in->size() ? (*in)[pos] : 0; ++pos; v %= n; }
		else v = rnd.below(n);
		if (slot && slot->nch < MAXCH) { slot->ch[slot->nch] = v; slot->nch = slot->nch + 1; }
		hash = mix(hash ^ v);
		return v;
	}
	long long i(long long lo, long long hi) { if (hi <= lo) { raw(1); return lo; } return lo + (long long)raw((uint64_t)(hi - lo) + 1); }
	size_t z(size_t lo, size_t hi) { return (size_t)i((long long)lo, (long long)hi); }
	bool b(unsigned num = 1, unsigned den = 2) { // true with prob num/den, shrinks to false
		return raw(den) >= den - num;
	}
	// biased small size: mostly small, sometimes up to hi
	size_t sz(size_t lo, size_t hi) {
		size_t k = raw(4);
		size_t h = k < 2 ? std::min(hi, lo + 4) : k == 2 ? std::min(hi, lo + (hi - lo) / 4 + 1) : hi;
		return z(lo, h);
	}
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size())); }
	template<class T> const T& pickv(const std::vector<T>& l) { return l[raw(l.size())]; }
	// real in [lo,hi] on a grid: exactly representable multiples of 2^-10 about the range
	double real(double lo, double hi) { uint64_t n = 1u << 16; uint64_t v = raw(n + 1); return lo + (hi - lo) * (double(v) / double(n)); }
	// "interesting" real: small multiples of 1/8, or uniform in range
	double val(double lo, double hi) {
		if (raw(4) == 0) { double x = double((long long)raw(17) - 8) / 8.0; if (x >= lo && x <= hi) return x; }
		return real(lo, hi);
	}
	uint64_t seed() { return raw(1ull << 32); }
	void label(const std::string& s) { labels.push_back(s); }
	void labelif(bool c, const char* s) { if (c) labels.push_back(s); }
	void nontrivial(bool v = true) { if (v) nontriv = true; }
	template<class... A> void say(const A&... a) { if (desc.size() > 1500) return; std::ostringstream o; int dummy[] = { 0, ((o << a << ' '), 0)... }; (void)dummy; desc += o.str(); }
};

template<class... A> [[noreturn]] static inline void fail(const A&... a) { std::ostringstream o; o.precision(17); int d[] = { 0, ((o << a), 0)... }; (void)d; throw Fail{ o.str(), "" }; }
template<class... A> [[noreturn]] static inline void failk(const std::string& key, const A&... a) { std::ostringstream o; o.precision(17); int d[] = { 0, ((o << a), 0)... }; (void)d; throw Fail{ o.str(), key }; }
#define VP_REQ(c, ...) do { if (!(c)) ::vp::fail("line ", __LINE__, ": ", #c, " | ", __VA_ARGS__); } while (0)
#define VP_CK(c) do { if (!(c)) ::vp::fail("line ", __LINE__, ": ", #c); } while (0)

struct Test { const char* name; std::function<void(Gen&)> f; int weight; unsigned min_cases; double timeout; bool nondet; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, int w, unsigned mn, std::function<void(Gen&)> f, double to = 20, bool nd = false) { tests().push_back({ n, f, w, mn, to, nd }); } };
#define VP_CAT2(a,b) a##b
#define VP_CAT(a,b) VP_CAT2(a,b)
// weight: share of cases;  mn: minimum number of cases run even when the time budget is over (per run)
#define VP_TEST(name, weight, mn) static void VP_CAT(vpt_,name)(::vp::Gen&); static ::vp::Reg VP_CAT(vpr_,name)(#name, weight, mn, VP_CAT(vpt_,name)); static void VP_CAT(vpt_,name)(::vp::Gen& g)
#define VP_TEST_T(name, weight, mn, timeout, nondet) static void VP_CAT(vpt_,name)(::vp::Gen&); static ::vp::Reg VP_CAT(vpr_,name)(#name, weight, mn, VP_CAT(vpt_,name), timeout, nondet); static void VP_CAT(vpt_,name)(::vp::Gen& g)

struct Outcome { int kind; std::string msg, key; std::vector<uint64_t> ch; }; // kind 0 ok, 1 fail, 2 crash, 3 timeout

static inline std::string& argv0() { static std::string s; return s; }
static inline std::string jesc(const std::string& s) {
	std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c); } return o;
}
static inline Slot* new_slot() { void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return (Slot*)p; }
static inline bool run_case(const Test& t, Gen& g) { // true if ok; fills slot on failure
	try { t.f(g); return true; }
	catch (const Fail& f) {
		if (g.slot) { snprintf(g.slot->msg, MSGLEN, "%s", f.msg.c_str()); snprintf(g.slot->key, 256, "%s", f.key.c_str()); }
		return false;
	}
}
static inline void quiet_child(const char* errfile) {
	int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 0);
	int e = errfile ? open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644) : n; if (e >= 0) dup2(e, 2);
}
static inline std::string tail_of(const char* f) {
	FILE* h = fopen(f, "rb"); if (!h) return ""; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, 4096, h)) > 0) s.append(b, n); fclose(h);
	size_t p = s.find("ERROR: "); if (p == std::string::npos) p = s.find("runtime error"); if (p != std::string::npos) { size_t q = p > 120 ? p - 120 : 0; s = s.substr(q); }
	return s.substr(0, 700);
}
// run one case in a forked child; crash- and hang-safe
static inline Outcome run_isolated(const Test& t, const std::vector<uint64_t>& ch, double timeout, int scale) {
	static Slot* sl = new_slot();
	sl->state = 1; sl->nch = 0; sl->msg[0] = 0; sl->key[0] = 0;
	char ef[128]; snprintf(ef, 128, "/tmp/vp_err.%d", (int)getpid());
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		setpgid(0, 0);
		quiet_child(ef);
		Gen g; g.replay = true; g.in = &ch; g.slot = sl; g.scale = scale;
		bool ok = run_case(t, g);
		sl->state = ok ? 3 : 2;
		_exit(0);
	}
	double t0 = now_s(); int st = 0; bool to = false;
	for (;;) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) break;
		if (now_s() - t0 > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; }
		usleep(300);
	}
	Outcome o{ 0, "", "", std::vector<uint64_t>(sl->ch, sl->ch + sl->nch) };
	if (sl->state == 2) { o.kind = 1; o.msg = sl->msg; o.key = sl->key; }
	else if (sl->state == 3) o.kind = 0;
	else if (to) { o.kind = 3; o.msg = "case did not terminate within " + std::to_string(timeout) + " s"; }
	else { o.kind = 2; o.msg = "process died (status " + std::to_string(st) + "): " + tail_of(ef); }
	unlink(ef);
	return o;
}
static inline std::vector<uint64_t> shrink(const Test& t, std::vector<uint64_t> best, Outcome& bo, double budget, int scale) {
	double end = now_s() + budget; int kind = bo.kind; std::string key = bo.key;
	double to = kind == 3 ? std::min(t.timeout, 6.0) : t.timeout;
	auto attempt = [&](const std::vector<uint64_t>& c) {
		if (now_s() > end) return false;
		Outcome o = run_isolated(t, c, to, scale);
		if (o.kind == 0 || o.key != key) return false;
		if (kind != 3 && o.kind == 3) return false;
		auto used = o.ch; if (used.size() > c.size()) used.resize(c.size());
		auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
		while (!used.empty() && used.back() == 0) used.pop_back();
		if (!less(used, best)) return false;
		best = used; bo = o; return true;
	};
	bool prog = true;
	while (prog && now_s() < end) {
		prog = false;
		for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1 && now_s() < end; k /= 2) {
			for (size_t s = 0; s + k <= best.size() && now_s() < end;) {
				auto c = best; c.erase(c.begin() + s, c.begin() + s + k);
				if (attempt(c)) prog = true; else s += k;
			}
			if (k == 1) break;
		}
		for (size_t k = 8; k >= 1; k /= 2) {
			for (size_t s = 0; s + k <= best.size() && now_s() < end; s += k) {
				bool nz = false; auto c = best; for (size_t j = s; j < s + k; j++) { nz |= c[j] != 0; c[j] = 0; }
				if (nz && attempt(c)) prog = true;
			}
			if (k == 1) break;
		}
		for (size_t s = 0; s < best.size() && now_s() < end; s++) {
			uint64_t lo = 0;
			while (s < best.size() && best[s] > lo && now_s() < end) {
				uint64_t mid = lo + (best[s] - lo) / 2; auto c = best; c[s] = mid;
				if (attempt(c)) prog = true; else { if (mid == lo) lo = lo + 1; else lo = mid; if (best.size() > s && best[s] - lo > 64) lo = best[s] - 64 > lo ? lo + (best[s] - lo) / 2 : lo; }
				if (s < best.size() && best[s] - lo <= 1 && mid + 1 >= best[s]) break;
			}
		}
	}
	return best;
}

struct Stat { uint64_t cases = 0, nontriv = 0; std::set<uint64_t> dn; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };

static inline std::string scratch_dir() { // per-process scratch directory (created on first use)
	static std::string d; static int owner = 0;
	if (owner != (int)getpid()) { const char* r = getenv("VP_SCRATCH"); d = std::string(r ? r : "/tmp") + "/vp_s" + std::to_string(getpid()); mkdir(d.c_str(), 0755); owner = (int)getpid(); }
	return d;
}

inline int main_(int argc, char** argv) {
	argv0() = argv[0];
	uint64_t seed = 1; double budget = 20; int workers = 8; std::string ev, rdir = ".", replay, only; bool thorough = false; std::vector<std::string> known; double hard = 0;
	for (int a = 1; a < argc; a++) {
		std::string s = argv[a]; auto nx = [&] { return std::string(argv[++a]); };
		if (s == "--seed") seed = strtoull(nx().c_str(), 0, 10);
		else if (s == "--budget") budget = atof(nx().c_str());
		else if (s == "--hard") hard = atof(nx().c_str());
		else if (s == "--workers") workers = atoi(nx().c_str());
		else if (s == "--stats") ev = nx();
		else if (s == "--replays") rdir = nx();
		else if (s == "--replay") replay = nx();
		else if (s == "--only") only = nx();
		else if (s == "--thorough") thorough = true;
		else if (s == "--known") known.push_back(nx());
		else if (s == "--list") { for (auto& t : tests()) printf("%s\n", t.name); return 0; }
	}
	if (hard <= 0) hard = budget * 4 + 30;
	auto& T = tests();
	int scale = thorough ? 2 : 1;
	if (!replay.empty()) {
		FILE* f = fopen(replay.c_str(), "r"); if (!f) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
		char nm[256]; int sc = 1; std::vector<uint64_t> ch; char line[1 << 16]; nm[0] = 0;
		while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; if (!nm[0]) { sscanf(line, "%255s %d", nm, &sc); continue; } char* p = line; char* e; for (;;) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; ch.push_back(v); p = e; } }
		fclose(f);
		for (auto& t : T) if (!strcmp(t.name, nm)) {
			if (getenv("VP_INPROC")) { Gen g; g.replay = true; g.in = &ch; g.scale = sc; g.slot = new_slot(); bool ok = run_case(t, g); printf("%s\n%s\n%s\n", ok ? "PASS" : "FAIL", g.desc.c_str(), ok ? "" : g.slot->msg); return ok ? 0 : 1; }
			Outcome o = run_isolated(t, ch, t.timeout, sc); printf("REPLAY %s %s: %s\n", nm, o.kind ? "FAIL" : "PASS", o.msg.c_str()); return o.kind ? 1 : 0;
		}
		fprintf(stderr, "no such test %s\n", nm); return 2;
	}
	// weighted schedule of tests
	std::vector<int> sched; int maxw = 0; for (auto& t : T) maxw = std::max(maxw, t.weight);
	for (int r = 0; r < maxw; r++) for (size_t k = 0; k < T.size(); k++) if (T[k].weight > r && (only.empty() || only == T[k].name)) sched.push_back((int)k);
	if (sched.empty()) { fprintf(stderr, "no tests\n"); return 2; }
	std::vector<Slot*> slots; std::vector<pid_t> pids(workers, 0); std::vector<std::string> sf(workers);
	uint64_t* counts = (uint64_t*)mmap(nullptr, sizeof(uint64_t) * (T.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	volatile int* stop = (volatile int*)(counts + T.size());
	char tmpl[256]; snprintf(tmpl, 256, "%s/vp_%d", getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp", (int)getpid());
	double t0 = now_s(), tend = t0 + budget, thard = t0 + hard;
	std::vector<uint64_t> nextcase(workers, 0);
	std::vector<int> gen_no(workers, 0);
	std::vector<std::string> statfiles;
	auto spawn = [&](int w) {
		gen_no[w]++;
		std::string base = std::string(tmpl) + "_w" + std::to_string(w) + "_" + std::to_string(gen_no[w]);
		sf[w] = base; statfiles.push_back(base + ".st");
		Slot* sl = slots[w]; sl->state = 0; sl->nch = 0; sl->started = now_s();
		fflush(nullptr);
		pid_t p = fork();
		if (p) { pids[w] = p; return; }
		setpgid(0, 0);
		quiet_child((base + ".err").c_str());
		std::vector<Stat> S(T.size());
		uint64_t c = nextcase[w];
		std::set<std::string> knownhit;
		for (;; c++) {
			int k = sched[(c * (uint64_t)workers + (uint64_t)w) % sched.size()];
			double n = now_s();
			if (*stop || n > thard) break;
			if (n > tend) { // only the tests that have not reached their minimum
				bool any = false; for (size_t q = 0; q < T.size(); q++) if ((only.empty() || only == T[q].name) && counts[q] < T[q].min_cases) any = true;
				if (!any) break;
				if (counts[k] >= T[k].min_cases) continue;
			}
			__sync_fetch_and_add(&counts[k], 1);
			Gen g; g.scale = scale; g.slot = sl; g.rnd = Rnd(mix(seed * 1000003ull + mix(uint64_t(w) * 7919ull + 13) + c * 0x51ed2701ull));
			sl->nch = 0; sl->test = k; sl->caseno = c; sl->started = n; sl->msg[0] = 0; sl->key[0] = 0; sl->state = 1;
			bool ok = run_case(T[k], g);
			if (!ok) {
				bool kn = false; for (auto& q : known) if (q == sl->key) kn = true;
				if (!kn) { sl->state = 2; _exit(0); }
				S[k].labels[std::string("known:") + sl->key]++;
			}
			sl->state = 0;
			Stat& s = S[k]; s.cases++; for (auto& l : g.labels) s.labels[l]++;
			if (g.nontriv) { s.nontriv++; if (s.dn.size() < 2000000 && s.dn.insert(g.hash).second && s.samples.size() < 2) s.samples.push_back(g.desc); }
		}
		FILE* f = fopen((base + ".st").c_str(), "w");
		for (size_t k = 0; k < T.size(); k++) {
			fprintf(f, "T %zu %llu %llu %llu\n", k, (unsigned long long)S[k].cases, (unsigned long long)S[k].nontriv, (unsigned long long)S[k].dn.size());
			for (auto& l : S[k].labels) fprintf(f, "L %zu %llu %s\n", k, (unsigned long long)l.second, l.first.c_str());
			for (auto& l : S[k].samples) fprintf(f, "S %zu %s\n", k, jesc(l).c_str());
		}
		fclose(f);
		sl->state = 3; _exit(0);
	};
	for (int w = 0; w < workers; w++) { slots.push_back(new_slot()); }
	for (int w = 0; w < workers; w++) spawn(w);
	struct Found { int test; Outcome o; }; std::vector<Found> found;
	std::vector<std::string> unrepro;
	int live = workers; uint64_t crashes_restarted = 0;
	bool reported = false; std::string viol;
	std::vector<char> alive(workers, 1);
	auto handle = [&](int w, Outcome o, int test) -> bool { // returns true if it is a confirmed violation
		const Test& t = T[test];
		for (auto& q : known) if (q == o.key && !o.key.empty()) return false;
		if (getenv("VP_KEEP")) { static std::map<int, int> seen; if (seen[test]++ == 0) { printf("KEEP %s: %s\n", t.name, o.msg.substr(0, 400).c_str()); fflush(stdout); } return false; } // development aid
		int tries = t.nondet ? 30 : 3, hits = 0; Outcome last = o;
		double ce = now_s() + (o.kind == 3 ? t.timeout * 3.5 : 60);
		for (int q = 0; q < tries; q++) { Outcome r = run_isolated(t, o.ch, t.timeout, scale); if (r.kind) { hits++; last = r; if (hits >= 3) break; } if (now_s() > ce && q >= 2) break; if (!t.nondet && hits < q + 1) break; }
		bool conf = t.nondet ? hits >= 1 : hits >= 3;
		if (!conf) {
			// nondeterministic test seen failing independently by several workers also counts
			int same = 0; for (auto& f : found) if (f.test == test) same++;
			found.push_back({ test, o });
			if (!(t.nondet && same >= 1)) { unrepro.push_back(std::string(t.name) + ": " + o.msg.substr(0, 300)); return false; }
			last = o;
		}
		*stop = 1;
		Outcome bo = last; bo.ch = o.ch; std::vector<uint64_t> best = o.ch;
		if (conf && (!t.nondet || hits >= 3)) best = shrink(t, o.ch, bo, thorough ? 60 : 25, scale);
		mkdir(rdir.c_str(), 0755);
		std::string path = rdir + "/" + t.name + "-" + std::to_string(seed) + ".replay";
		Gen g; g.replay = true; // description via isolated run of the shrunk case
		FILE* f = fopen(path.c_str(), "w");
		if (f) {
			fprintf(f, "# test %s, %zu choices, kind %s\n# %s\n", t.name, best.size(), bo.kind == 1 ? "oracle" : bo.kind == 2 ? "crash" : "hang", jesc(bo.msg).c_str());
			fprintf(f, "%s %d\n", t.name, scale);
			for (size_t q = 0; q < best.size(); q++) fprintf(f, "%llu%c", (unsigned long long)best[q], (q % 32 == 31) ? '\n' : ' ');
			fprintf(f, "\n"); fclose(f);
		}
		printf("FAILED %s [%s]: %s\n", t.name, bo.kind == 1 ? "oracle" : bo.kind == 2 ? "crash" : "hang", bo.msg.substr(0, 1500).c_str());
		viol = path; reported = true;
		return true;
	};
	while (live > 0) {
		for (int w = 0; w < workers; w++) if (alive[w]) {
			int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
			Slot* sl = slots[w];
			if (r == pids[w]) {
				if (sl->state == 3) { alive[w] = 0; live--; continue; }
				Outcome o{ sl->state == 2 ? 1 : 2, sl->msg, sl->key, std::vector<uint64_t>(sl->ch, sl->ch + sl->nch) };
				if (o.kind == 2) o.msg = "process died (status " + std::to_string(st) + "): " + tail_of((sf[w] + ".err").c_str());
				nextcase[w] = sl->caseno + 1;
				if (*stop || reported) { alive[w] = 0; live--; continue; }
				if (handle(w, o, sl->test)) { alive[w] = 0; live--; }
				else { crashes_restarted++; if (crashes_restarted > 200) { alive[w] = 0; live--; } else spawn(w); }
			} else if (sl->state == 1 && now_s() - sl->started > T[sl->test].timeout) {
				kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0);
				Outcome o{ 3, "case did not terminate within " + std::to_string(T[sl->test].timeout) + " s", "", std::vector<uint64_t>(sl->ch, sl->ch + sl->nch) };
				nextcase[w] = sl->caseno + 1;
				if (*stop || reported) { alive[w] = 0; live--; continue; }
				if (handle(w, o, sl->test)) { alive[w] = 0; live--; } else { crashes_restarted++; spawn(w); }
			} else if (reported && sl->state == 1 && now_s() - sl->started > 2) { kill(pids[w], SIGKILL); }
		}
		usleep(2000);
	}
	// merge statistics
	std::vector<Stat> S(T.size()); std::vector<uint64_t> dn(T.size(), 0);
	for (auto& fn : statfiles) {
		FILE* f = fopen(fn.c_str(), "r"); if (f) {
			static char line[1 << 15];
			while (fgets(line, sizeof line, f)) {
				size_t n = strlen(line); if (n && line[n - 1] == '\n') line[n - 1] = 0;
				unsigned long long a, b, c; size_t k; int off = 0;
				if (sscanf(line, "T %zu %llu %llu %llu", &k, &a, &b, &c) == 4) { S[k].cases += a; S[k].nontriv += b; dn[k] += c; }
				else if (sscanf(line, "L %zu %llu %n", &k, &a, &off) == 2) S[k].labels[line + off] += a;
				else if (sscanf(line, "S %zu %n", &k, &off) == 1 && S[k].samples.size() < 3) S[k].samples.push_back(line + off);
			}
			fclose(f);
		}
		unlink(fn.c_str()); std::string e = fn.substr(0, fn.size() - 3) + ".err"; unlink(e.c_str());
	}
	if (!ev.empty()) {
		FILE* f = fopen(ev.c_str(), "w"); uint64_t tc = 0, tn = 0; bool first = true;
		if (f) {
			fprintf(f, "{\"subchecks\":{");
			for (size_t k = 0; k < T.size(); k++) {
				tc += S[k].cases; tn += dn[k];
				fprintf(f, "%s\"%s\":{\"cases\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"labels\":{", first ? "" : ",", T[k].name, (unsigned long long)S[k].cases, (unsigned long long)S[k].nontriv, (unsigned long long)dn[k]); first = false;
				bool f2 = true; for (auto& l : S[k].labels) { fprintf(f, "%s\"%s\":%llu", f2 ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); f2 = false; }
				fprintf(f, "},\"samples\":["); f2 = true; for (auto& s : S[k].samples) { fprintf(f, "%s\"%s\"", f2 ? "" : ",", s.c_str()); f2 = false; }
				fprintf(f, "]}");
			}
			fprintf(f, "},\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"unreproduced\":[", (unsigned long long)tc, (unsigned long long)tn);
			for (size_t q = 0; q < unrepro.size(); q++) fprintf(f, "%s\"%s\"", q ? "," : "", jesc(unrepro[q]).c_str());
			fprintf(f, "],\"violation\":\"%s\",\"wall\":%.2f}\n", jesc(viol).c_str(), now_s() - t0); fclose(f);
		}
	}
	for (size_t k = 0; k < T.size(); k++) printf("%-28s cases=%llu nontrivial=%llu distinct=%llu\n", T[k].name, (unsigned long long)S[k].cases, (unsigned long long)S[k].nontriv, (unsigned long long)dn[k]);
	for (auto& u : unrepro) printf("UNREPRODUCED %s\n", u.c_str());
	if (reported) { printf("VIOLATION-AT %s\n", viol.c_str()); return 1; }
	return 0;
}
} // namespace vp
#ifdef VP_REAL
#define VP_STR2(a) #a
#define VP_STR(a) VP_STR2(a)
#define VP_TESTR(name, weight, mn) static void VP_CAT(vpt_,name)(::vp::Gen&); static ::vp::Reg VP_CAT(vpr_,name)(#name "." VP_STR(VP_REAL), weight, mn, VP_CAT(vpt_,name)); static void VP_CAT(vpt_,name)(::vp::Gen& g)
#define VP_TESTR_T(name, weight, mn, timeout, nondet) static void VP_CAT(vpt_,name)(::vp::Gen&); static ::vp::Reg VP_CAT(vpr_,name)(#name "." VP_STR(VP_REAL), weight, mn, VP_CAT(vpt_,name), timeout, nondet); static void VP_CAT(vpt_,name)(::vp::Gen& g)
#endif
