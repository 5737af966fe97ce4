// Shared parts of every /verif harness: PRNG, case runner, and the reference automata ("model") that the
// monitors compare libfsm's observable results against. The model never calls libfsm.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>

extern "C" {
#include <fsm/fsm.h>
#include <fsm/bool.h>
#include <fsm/pred.h>
#include <fsm/walk.h>
#include <fsm/alloc.h>
}

typedef uint64_t u64;
typedef uint32_t u32;
using std::string;
using std::vector;

// ---------------------------------------------------------------- PRNG
struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); } // inclusive
	bool chance(unsigned pct) { return below(100) < pct; }
	template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
	unsigned weighted(std::initializer_list<unsigned> w) { unsigned t = 0; for (auto x : w) t += x; u64 r = below(t); unsigned i = 0; for (auto x : w) { if (r < x) return i; r -= x; i++; } return i - 1; }
	template <class T> void shuffle(vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};
static inline u64 splitmix(u64 z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline u64 mix(u64 a, u64 b) { return splitmix(splitmix(a * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull) + (b + 1) * 0x9E3779B97F4A7C15ull); }
static inline u64 hash_str(const string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }

// ---------------------------------------------------------------- text helpers
static inline string esc(const string &s) { // printable rendering for reports
	string o = "\""; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c >= 32 && c < 127) o += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
	return o + "\"";
}
static inline string jstr(const string &s) {
	string o = "\""; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c >= 32 && c < 127) o += (char)c; else { snprintf(b, sizeof b, "\\u%04x", c); o += b; } }
	return o + "\"";
}
static inline string fmt(const char *f, ...) { char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf; }

// ---------------------------------------------------------------- case runner
struct Ctx {
	u64 seed = 1; u64 idx = 0; string tier = "quick"; bool frozen = false; bool replay = false;
	string scratch; // private scratch directory
	string build;   // build directory of the libraries and tools under test
	u64 evals = 0, inconclusive = 0;
	std::map<string, u64> counters;
	std::unordered_set<u64> distinct;
	vector<string> samples;
	struct V { u64 idx; string key, msg; };
	vector<V> violations;
	bool thorough() const { return tier == "thorough"; }
	void eval(u64 n = 1) { if (!frozen) evals += n; }
	void count(const string &k, u64 n = 1) { if (!frozen) counters[k] += n; }
	void nontrivial(u64 h) { if (!frozen && distinct.size() < 4000000) distinct.insert(h); }
	void sample(const string &s) { if (!frozen && samples.size() < 4) samples.push_back(s.substr(0, 1500)); }
	void unsure(const string &why) { if (!frozen) { inconclusive++; counters["inconclusive:" + why]++; } }
	// key identifies the specific input or site; msg tells the whole story
	void violation(const string &key, const string &msg) {
		if (frozen) return;
		if (replay) fprintf(stderr, "VIOLATION case %llu key=%s\n%s\n", (unsigned long long)idx, key.c_str(), msg.c_str());
		if (violations.size() < 200) violations.push_back({idx, key, msg.substr(0, 6000)});
	}
};

// each harness defines these
void run_case(Ctx &c, u64 idx);
extern const char *harness_name;
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
#ifndef VF_LEAKCHECK
#define VF_LEAKCHECK 0
#endif

#if defined(VF_MAIN) && !defined(VF_NOARENA)
// The monitors' own C++ memory comes from here, not from the sanitizer's allocator: it is fast, and what the
// sanitizer counts as allocated is then the memory of the code under test alone. Single-threaded.
#include <new>
namespace vfarena {
	static char *cur, *lim; static void *fl[64]; static void *fbig[48];
	static inline void *get(size_t n) {
		if (n == 0) n = 1;
		if (n <= 1008) { size_t k = (n + 15) >> 4; void *p = fl[k]; if (p) { fl[k] = *(void **)p; return p; } size_t z = (k << 4) + 16; if ((size_t)(lim - cur) < z) { size_t c = 4u << 20; cur = (char *)mmap(0, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (cur == MAP_FAILED) { fprintf(stderr, "HARNESS out of memory\n"); _exit(3); } lim = cur + c; } char *q = cur; cur += z; *(u64 *)q = k; return q + 16; }
		int b = 64 - __builtin_clzll(n + 15); void *p = fbig[b]; if (p) { fbig[b] = *(void **)p; return p; }
		char *q = (char *)mmap(0, 1ull << b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (q == MAP_FAILED) { fprintf(stderr, "HARNESS out of memory\n"); _exit(3); } *(u64 *)q = 1000 + b; return q + 16;
	}
	static inline void put(void *p) { if (!p) return; u64 k = *(u64 *)((char *)p - 16); if (k < 1000) { *(void **)p = fl[k]; fl[k] = p; } else if (k - 1000 > 18) munmap((char *)p - 16, 1ull << (k - 1000)); else { *(void **)p = fbig[k - 1000]; fbig[k - 1000] = p; } }
}
void *operator new(size_t n) { return vfarena::get(n); }
void *operator new[](size_t n) { return vfarena::get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return vfarena::get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return vfarena::get(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vfarena::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vfarena::put(p); }
void operator delete(void *p) noexcept { vfarena::put(p); }
void operator delete[](void *p) noexcept { vfarena::put(p); }
void operator delete(void *p, size_t) noexcept { vfarena::put(p); }
void operator delete[](void *p, size_t) noexcept { vfarena::put(p); }
#endif

#ifdef VF_MAIN
static Ctx *g_ctx; static string g_out; static int g_status_fd = -1; static string g_end = "running"; static volatile int g_flushing;
#ifdef VF_THREADS
#include <sys/syscall.h>
static void flush_dying() { // other threads are still running, and the sanitizer holds its locks: nothing but plain system calls
	if (g_flushing++ || g_out.empty()) return;
	char b[200]; int n = snprintf(b, sizeof b, "{\"end\":\"%s\",\"idx\":%llu,\"evals\":0,\"inconclusive\":0,\"counters\":{},\"samples\":[],\"violations\":[]}\n", g_end.c_str(), (unsigned long long)g_ctx->idx);
	int fd = (int)syscall(SYS_open, g_out.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600); if (fd < 0) return; syscall(SYS_write, fd, b, (size_t)n); syscall(SYS_close, fd);
}
#else
#define flush_dying flush_results
#endif
static void flush_results() {
	if (g_flushing++) return;
	Ctx &c = *g_ctx;
	if (g_out.empty()) return; // no report asked for; never default to a device, the rename below would replace it
	string tmp = g_out + ".tmp";
	FILE *f = fopen(tmp.c_str(), "w"); if (!f) return;
	fprintf(f, "{\"end\":%s,\"idx\":%llu,\"evals\":%llu,\"inconclusive\":%llu,\"counters\":{", jstr(g_end).c_str(), (unsigned long long)c.idx, (unsigned long long)c.evals, (unsigned long long)c.inconclusive);
	bool first = true; for (auto &k : c.counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
	fprintf(f, "},\"samples\":["); first = true; for (auto &s : c.samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
	fprintf(f, "],\"violations\":["); first = true;
	for (auto &v : c.violations) { fprintf(f, "%s{\"idx\":%llu,\"key\":%s,\"msg\":%s}", first ? "" : ",", (unsigned long long)v.idx, jstr(v.key).c_str(), jstr(v.msg).c_str()); first = false; }
	fprintf(f, "]}\n"); fclose(f);
	string h = g_out + ".hashes"; f = fopen(h.c_str(), "ab"); if (f) { for (u64 x : c.distinct) fwrite(&x, 8, 1, f); fclose(f); }
	rename(tmp.c_str(), g_out.c_str());
}
static void on_death() { g_end = "died"; flush_dying(); }
static void on_abort(int) { g_end = "abort"; flush_dying(); _exit(134); }
static void on_cpu(int) { g_end = "timeout"; flush_dying(); _exit(124); }
int main(int argc, char **argv) {
	static Ctx c; g_ctx = &c;
	u64 start = 0, stride = 1, end = 0; double cpu = 30; long only = -1; string queue; u64 *shared = nullptr;
	for (int i = 1; i < argc; i++) {
		string a = argv[i]; auto val = [&]() -> string { return ++i < argc ? argv[i] : ""; };
		if (a == "--seed") c.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--start") start = strtoull(val().c_str(), 0, 10);
		else if (a == "--stride") stride = strtoull(val().c_str(), 0, 10);
		else if (a == "--end") end = strtoull(val().c_str(), 0, 10);
		else if (a == "--out") g_out = val();
		else if (a == "--tier") c.tier = val();
		else if (a == "--scratch") c.scratch = val();
		else if (a == "--build") c.build = val();
		else if (a == "--cpu") cpu = atof(val().c_str());
		else if (a == "--queue") queue = val();
		else if (a == "--only") only = atol(val().c_str());
		else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
	}
	if (only >= 0) { start = (u64)only; end = start + 1; stride = 1; c.replay = true; }
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	signal(SIGABRT, on_abort); signal(SIGPROF, on_cpu); signal(SIGPIPE, SIG_IGN);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	if (only < 0 && !queue.empty()) { int fd = open(queue.c_str(), O_RDWR); if (fd < 0) { fprintf(stderr, "HARNESS no queue\n"); return 3; } shared = (u64 *)mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (shared == MAP_FAILED) return 3; close(fd); }
	for (u64 i = start; ; i += stride) {
		if (shared) i = __atomic_fetch_add(shared, 1, __ATOMIC_SEQ_CST);
		if (i >= end) break;
		struct timespec t0, t1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
		c.idx = i;
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (time_t)cpu; it.it_value.tv_usec = (suseconds_t)((cpu - (time_t)cpu) * 1e6);
		setitimer(ITIMER_PROF, &it, NULL);
#if VF_LEAKCHECK
		if (__sanitizer_get_current_allocated_bytes) {
			run_case(c, i);
			c.frozen = true;
			size_t b0 = __sanitizer_get_current_allocated_bytes(); run_case(c, i);
			size_t b1 = __sanitizer_get_current_allocated_bytes();
			if (b1 > b0) { run_case(c, i); size_t b2 = __sanitizer_get_current_allocated_bytes(); c.frozen = false;
				if (b2 > b1) { extern string leak_key(); c.violation("leak:" + leak_key(), fmt("case %llu leaves %zu bytes allocated after everything it created was freed", (unsigned long long)i, b2 - b1)); } }
			c.frozen = false;
		} else
#endif
		run_case(c, i);
		clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1); u64 ms = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000; if (ms > c.counters["max:case-cpu-ms"]) { c.counters["max:case-cpu-ms"] = ms; if (ms > 3000) fprintf(stderr, "SLOW case %llu %llu ms\n", (unsigned long long)i, (unsigned long long)ms); }
	}
	struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, NULL);
	g_end = "done"; flush_results();
	return 0;
}
#endif

// ---------------------------------------------------------------- symbol sets
struct Sym {
	std::array<u64, 4> w{{0, 0, 0, 0}};
	bool get(unsigned c) const { return w[c >> 6] >> (c & 63) & 1; }
	void set(unsigned c) { w[c >> 6] |= 1ull << (c & 63); }
	void clr(unsigned c) { w[c >> 6] &= ~(1ull << (c & 63)); }
	bool any() const { return w[0] | w[1] | w[2] | w[3]; }
	int size() const { int n = 0; for (u64 x : w) n += __builtin_popcountll(x); return n; }
	Sym operator|(const Sym &o) const { Sym r; for (int i = 0; i < 4; i++) r.w[i] = w[i] | o.w[i]; return r; }
	Sym operator&(const Sym &o) const { Sym r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; }
	Sym operator~() const { Sym r; for (int i = 0; i < 4; i++) r.w[i] = ~w[i]; return r; }
	bool operator==(const Sym &o) const { return w == o.w; }
	bool operator!=(const Sym &o) const { return w != o.w; }
	bool operator<(const Sym &o) const { return w < o.w; }
	static Sym all() { Sym s; s.w = {{~0ull, ~0ull, ~0ull, ~0ull}}; return s; }
	static Sym one(unsigned c) { Sym s; s.set(c); return s; }
	static Sym range(unsigned a, unsigned b) { Sym s; for (unsigned i = a; i <= b; i++) s.set(i); return s; }
	unsigned first() const { for (unsigned c = 0; c < 256; c++) if (get(c)) return c; return 256; }
	unsigned nth(unsigned k) const { for (unsigned c = 0; c < 256; c++) if (get(c) && k-- == 0) return c; return 256; }
};

// ---------------------------------------------------------------- model automaton
struct Auto {
	struct St { vector<std::pair<int, Sym>> e; vector<int> eps; bool end = false; vector<u32> ids; vector<u32> eager; };
	vector<St> s; int start = -1;
	int n() const { return (int)s.size(); }
	int add() { s.emplace_back(); return n() - 1; }
	void edge(int a, int b, unsigned c) { for (auto &p : s[a].e) if (p.first == b) { p.second.set(c); return; } s[a].e.push_back({b, Sym::one(c)}); }
	void edge(int a, int b, const Sym &y) { if (!y.any()) return; for (auto &p : s[a].e) if (p.first == b) { p.second = p.second | y; return; } s[a].e.push_back({b, y}); }
	void eps(int a, int b) { for (int x : s[a].eps) if (x == b) return; s[a].eps.push_back(b); }
	size_t nedges() const { size_t k = 0; for (auto &x : s) for (auto &p : x.e) k += p.second.size(); return k; }
	size_t neps() const { size_t k = 0; for (auto &x : s) k += x.eps.size(); return k; }
	u64 hash() const {
		u64 h = mix(s.size(), start + 7);
		for (auto &x : s) { auto e = x.e; std::sort(e.begin(), e.end()); auto ep = x.eps; std::sort(ep.begin(), ep.end()); h = mix(h, x.end);
			for (auto &p : e) { h = mix(h, p.first); for (u64 w : p.second.w) h = mix(h, w); } for (int y : ep) h = mix(h, y + 0x10000); for (u32 i : x.ids) h = mix(h, i + 0x20000ull); for (u32 i : x.eager) h = mix(h, i + 0x40000000ull); }
		return h;
	}
	string text(size_t limit = 3000) const {
		string o = fmt("states=%d start=%d ", n(), start);
		for (int i = 0; i < n() && o.size() < limit; i++) {
			if (s[i].end) { o += fmt("[%d end", i); for (u32 x : s[i].ids) o += fmt(" #%u", x); o += "] "; }
			if (!s[i].eager.empty()) { o += fmt("[%d eager", i); for (u32 x : s[i].eager) o += fmt(" #%u", x); o += "] "; }
			for (int t : s[i].eps) o += fmt("%d~>%d ", i, t);
			for (auto &p : s[i].e) { o += fmt("%d->%d:", i, p.first); if (p.second == Sym::all()) o += "any"; else { int k = 0; for (unsigned c = 0; c < 256; c++) if (p.second.get(c)) { unsigned d = c; while (d + 1 < 256 && p.second.get(d + 1)) d++; o += c == d ? fmt("%02x,", c) : fmt("%02x-%02x,", c, d); c = d; if (++k > 12) { o += "..."; break; } } } o += " "; }
		}
		return o.substr(0, limit);
	}
};

// symbol classes: partition of the 256 bytes such that all edges of the given machines treat a class alike
struct Classes { vector<unsigned> rep; std::array<int, 256> of; };
static inline Classes classes_of(std::initializer_list<const Auto *> as, const vector<Sym> &extra = {}) {
	std::array<int, 256> cls; cls.fill(0); int n = 1;
	auto refine = [&](const Sym &y) {
		std::unordered_map<int, int> m; // class -> new class for members in y
		std::array<int, 256> total; total.fill(0); std::array<int, 256> in; in.fill(0);
		for (int c = 0; c < 256; c++) { total[cls[c]]++; if (y.get(c)) in[cls[c]]++; }
		for (int c = 0; c < 256; c++) if (y.get(c)) { int k = cls[c]; if (in[k] == total[k]) continue; auto it = m.find(k); if (it == m.end()) it = m.emplace(k, n++).first; }
		if (!m.empty()) for (int c = 0; c < 256; c++) if (y.get(c)) { auto it = m.find(cls[c]); if (it != m.end()) cls[c] = it->second; }
	};
	std::set<Sym> seen;
	for (auto *a : as) for (auto &st : a->s) for (auto &p : st.e) if (n < 256 && p.second != Sym::all() && seen.insert(p.second).second) refine(p.second);
	for (auto &y : extra) refine(y);
	Classes r; std::unordered_map<int, int> id; r.of.fill(0);
	for (int c = 0; c < 256; c++) { auto it = id.find(cls[c]); if (it == id.end()) { it = id.emplace(cls[c], (int)r.rep.size()).first; r.rep.push_back(c); } r.of[c] = it->second; }
	return r;
}

typedef vector<u32> Set; // sorted
struct SetHash { size_t operator()(const Set &b) const { u64 h = b.size() * 0x9E3779B97F4A7C15ull; for (u32 x : b) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } return (size_t)h; } };

// what a set of model states shows
enum { OUT_END = 1, OUT_IDS = 2, OUT_EAGER = 4 };
struct Obs { bool end = false; vector<u32> ids, eager; bool operator==(const Obs &o) const { return end == o.end && ids == o.ids && eager == o.eager; }
	bool operator<(const Obs &o) const { return std::tie(end, ids, eager) < std::tie(o.end, o.ids, o.eager); }
	string text() const { string t = end ? "accept" : "reject"; if (!ids.empty()) { t += " ids{"; for (u32 i : ids) t += fmt("%u ", i); t += "}"; } if (!eager.empty()) { t += " eager{"; for (u32 i : eager) t += fmt("%u ", i); t += "}"; } return t; } };

// on-the-fly subset construction over one model automaton
struct Subset {
	const Auto &a; const Classes &cl; vector<Set> clos; vector<char> have; bool anyeps = false;
	std::unordered_map<Set, int, SetHash> id; vector<Set> sets; vector<vector<int>> tr; vector<Obs> obs; vector<char> obs_have;
	vector<vector<std::pair<int, vector<short>>>> es; vector<char> es_have; int out; int start_id; vector<Set> buf;
	Subset(const Auto &a_, const Classes &c, int out_) : a(a_), cl(c), clos(a_.n()), have(a_.n(), 0), es(a_.n()), es_have(a_.n(), 0), out(out_), buf(c.rep.size()) {
		for (auto &s : a.s) anyeps = anyeps || !s.eps.empty();
		Set b; if (a.start >= 0) { if (anyeps) b = closure(a.start); else b = {(u32)a.start}; } start_id = intern(b);
	}
	const Set &closure(int q) {
		if (have[q]) return clos[q];
		have[q] = 1; std::unordered_set<int> seen{q}; vector<int> st{q}; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : a.s[x].eps) if (seen.insert(y).second) st.push_back(y); }
		Set c(seen.begin(), seen.end()); std::sort(c.begin(), c.end()); return clos[q] = c;
	}
	int intern(const Set &b) { auto it = id.find(b); if (it != id.end()) return it->second; int k = (int)sets.size(); id.emplace(b, k); sets.push_back(b); tr.emplace_back(); obs.emplace_back(); obs_have.push_back(0); return k; }
	const vector<std::pair<int, vector<short>>> &edges(int i) {
		if (!es_have[i]) { es_have[i] = 1; for (auto &p : a.s[i].e) { vector<short> m; for (size_t k = 0; k < cl.rep.size(); k++) if (p.second.get(cl.rep[k])) m.push_back((short)k); es[i].push_back({p.first, m}); } }
		return es[i];
	}
	int step(int q, int k) {
		if (tr[q].empty()) {
			for (auto &b : buf) b.clear();
			const Set cur = sets[q];
			for (u32 i : cur) for (auto &p : edges((int)i)) for (short x : p.second) buf[x].push_back((u32)p.first);
			vector<int> row(cl.rep.size());
			for (size_t x = 0; x < row.size(); x++) {
				Set &b = buf[x]; std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end());
				if (anyeps) { Set t; for (u32 i : b) { auto &c = closure((int)i); t.insert(t.end(), c.begin(), c.end()); } if (t.size() != b.size()) { std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); b = t; } else if (b.size() > 1) b = t, std::sort(b.begin(), b.end()); }
				row[x] = intern(b);
			}
			tr[q] = row;
		}
		return tr[q][k];
	}
	bool empty(int q) const { return sets[q].empty(); }
	const Obs &observe(int q) {
		if (obs_have[q]) return obs[q];
		obs_have[q] = 1; Obs o; std::set<u32> ids, eg;
		for (u32 i : sets[q]) { if (a.s[i].end) { o.end = true; if (out & OUT_IDS) ids.insert(a.s[i].ids.begin(), a.s[i].ids.end()); } if (out & OUT_EAGER) eg.insert(a.s[i].eager.begin(), a.s[i].eager.end()); }
		if (!(out & OUT_END)) o.end = false;
		o.ids.assign(ids.begin(), ids.end()); o.eager.assign(eg.begin(), eg.end()); obs[q] = o; return obs[q];
	}
};

// Behaviour of `a` combined by an arbitrary function: generic synchronous comparison of k machines.
// verdict: 1 = holds for every string, 0 = counterexample in `witness`, -1 = budget exceeded
typedef std::function<bool(const vector<Obs> &)> ObsPred;
static inline int forall_strings(const vector<const Auto *> &as, int out, const ObsPred &ok, string *witness, size_t budget = 60000, const Sym *alphabet = nullptr, size_t *explored = nullptr) {
	Classes cl; { // classes over all machines
		Auto tmp; tmp.add(); for (auto *a : as) for (auto &st : a->s) for (auto &p : st.e) tmp.s[0].e.push_back({0, p.second}); vector<Sym> ex; if (alphabet) ex.push_back(*alphabet); cl = classes_of({&tmp}, ex); }
	vector<std::unique_ptr<Subset>> sub; for (auto *a : as) sub.emplace_back(new Subset(*a, cl, out));
	struct Node { vector<int> q; int parent; int sym; };
	vector<Node> nodes; std::unordered_map<Set, int, SetHash> seen;
	auto key = [](const vector<int> &q) { return Set(q.begin(), q.end()); };
	vector<int> q0; for (auto &s : sub) q0.push_back(s->start_id);
	nodes.push_back({q0, -1, -1}); seen.emplace(key(q0), 0);
	for (size_t i = 0; i < nodes.size(); i++) {
		vector<Obs> o; for (size_t k = 0; k < sub.size(); k++) o.push_back(sub[k]->observe(nodes[i].q[k]));
		if (explored) *explored = nodes.size();
		if (!ok(o)) { string w; for (int x = (int)i; nodes[x].parent >= 0; x = nodes[x].parent) w += (char)cl.rep[nodes[x].sym]; std::reverse(w.begin(), w.end()); if (witness) *witness = w; return 0; }
		if (nodes.size() > budget || nodes.size() * cl.rep.size() > 900000) return -1;
		for (size_t c = 0; c < cl.rep.size(); c++) {
			if (alphabet && !alphabet->get(cl.rep[c])) continue;
			vector<int> q; for (size_t k = 0; k < sub.size(); k++) q.push_back(sub[k]->step(nodes[i].q[k], (int)c));
			if (seen.emplace(key(q), (int)nodes.size()).second) nodes.push_back({q, (int)i, (int)c});
		}
	}
	return 1;
}
static inline int same_behaviour(const Auto &a, const Auto &b, int out, string *witness, size_t budget = 60000, size_t *explored = nullptr) {
	return forall_strings({&a, &b}, out, [](const vector<Obs> &o) { return o[0] == o[1]; }, witness, budget, nullptr, explored);
}

// run one string on a model
static inline Obs model_run(const Auto &a, const string &w, int out = OUT_END | OUT_IDS, std::set<u32> *eager_all = nullptr) {
	std::set<int> cur; auto close = [&](std::set<int> &x) { vector<int> st(x.begin(), x.end()); while (!st.empty()) { int q = st.back(); st.pop_back(); for (int y : a.s[q].eps) if (x.insert(y).second) st.push_back(y); } };
	auto emit = [&]() { if (eager_all) for (int q : cur) eager_all->insert(a.s[q].eager.begin(), a.s[q].eager.end()); };
	if (a.start >= 0) cur.insert(a.start); close(cur); emit();
	for (unsigned char ch : w) { std::set<int> nx; for (int q : cur) for (auto &p : a.s[q].e) if (p.second.get(ch)) nx.insert(p.first); close(nx); cur.swap(nx); emit(); }
	Obs o; std::set<u32> ids; for (int q : cur) if (a.s[q].end) { o.end = true; ids.insert(a.s[q].ids.begin(), a.s[q].ids.end()); }
	if (out & OUT_IDS) o.ids.assign(ids.begin(), ids.end());
	return o;
}

// model subset construction -> complete reachable DFA (including the empty set as a state), or false over budget
struct Dfa { vector<vector<int>> t; vector<Obs> o; Classes cl; int start = 0; vector<char> live; int n() const { return (int)t.size(); } };
static inline bool model_dfa(const Auto &a, int out, Dfa &d, size_t budget = 60000, size_t work = 400000) {
	d = Dfa(); d.cl = classes_of({&a}); Subset s(a, d.cl, out); d.start = s.start_id;
	for (size_t i = 0; i < s.sets.size(); i++) { if (s.sets.size() > budget || s.sets.size() * d.cl.rep.size() > work) return false; vector<int> row; for (size_t c = 0; c < d.cl.rep.size(); c++) row.push_back(s.step((int)i, (int)c)); d.t.push_back(row); }
	for (size_t i = 0; i < s.sets.size(); i++) d.o.push_back(s.observe((int)i));
	// live = can reach an accepting state
	vector<vector<int>> rev(d.n()); for (int i = 0; i < d.n(); i++) for (int x : d.t[i]) rev[x].push_back(i);
	d.live.assign(d.n(), 0); vector<int> st; for (int i = 0; i < d.n(); i++) if (d.o[i].end) { d.live[i] = 1; st.push_back(i); }
	while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : rev[x]) if (!d.live[y]) { d.live[y] = 1; st.push_back(y); } }
	return true;
}
// number of states of the minimal partial DFA for the observable behaviour (dead part removed); 0 if nothing is accepted. Hopcroft.
static inline int minimal_size(const Dfa &d, vector<int> *cls_out = nullptr) {
	int n = d.n(), sink = n, N = n + 1, K = (int)d.cl.rep.size();
	vector<int> blk(N); std::map<Obs, int> ini; vector<vector<int>> mem(1);
	blk[sink] = 0; mem[0].push_back(sink);
	for (int i = 0; i < n; i++) { if (!d.live[i]) { blk[i] = 0; mem[0].push_back(i); continue; } auto it = ini.emplace(d.o[i], (int)mem.size()); if (it.second) mem.emplace_back(); blk[i] = it.first->second; mem[blk[i]].push_back(i); }
	vector<vector<vector<int>>> inv(K, vector<vector<int>>(N));
	for (int i = 0; i < n; i++) for (int k = 0; k < K; k++) inv[k][d.live[i] ? d.t[i][k] : sink].push_back(i);
	for (int k = 0; k < K; k++) inv[k][sink].push_back(sink);
	std::deque<std::pair<int, int>> work; std::set<std::pair<int, int>> inw;
	for (int b = 0; b < (int)mem.size(); b++) for (int k = 0; k < K; k++) { work.push_back({b, k}); inw.insert({b, k}); }
	vector<int> mark(N, -1); int stamp = 0;
	while (!work.empty()) {
		auto [b, k] = work.front(); work.pop_front(); inw.erase({b, k}); stamp++;
		std::map<int, vector<int>> hit; for (int y : mem[b]) for (int x : inv[k][y]) if (mark[x] != stamp) { mark[x] = stamp; hit[blk[x]].push_back(x); }
		for (auto &h : hit) { if (h.second.size() == mem[h.first].size()) continue; int nb = (int)mem.size(); mem.push_back(h.second); vector<int> rest; for (int x : mem[h.first]) if (mark[x] != stamp) rest.push_back(x); mem[h.first] = rest; for (int x : h.second) blk[x] = nb;
			for (int c = 0; c < K; c++) { if (inw.count({h.first, c})) { work.push_back({nb, c}); inw.insert({nb, c}); } else { int s = mem[nb].size() <= rest.size() ? nb : h.first; work.push_back({s, c}); inw.insert({s, c}); } } }
	}
	std::set<int> used; for (int i = 0; i < n; i++) if (d.live[i]) used.insert(blk[i]);
	if (cls_out) { *cls_out = blk; for (int i = 0; i < n; i++) if (!d.live[i]) (*cls_out)[i] = -1; }
	return (int)used.size();
}
// the part of a machine from which an end state can be reached (all states kept, others cut off)
static inline Auto live_part(const Auto &a) {
	vector<vector<int>> rev(a.n()); for (int i = 0; i < a.n(); i++) { for (auto &p : a.s[i].e) rev[p.first].push_back(i); for (int t : a.s[i].eps) rev[t].push_back(i); }
	vector<char> live(a.n(), 0); vector<int> st; for (int i = 0; i < a.n(); i++) if (a.s[i].end) { live[i] = 1; st.push_back(i); }
	while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : rev[x]) if (!live[y]) { live[y] = 1; st.push_back(y); } }
	Auto b; b.s.resize(a.n()); b.start = a.start >= 0 && live[a.start] ? a.start : -1;
	for (int i = 0; i < a.n(); i++) if (live[i]) { b.s[i] = a.s[i]; auto &e = b.s[i].e; e.erase(std::remove_if(e.begin(), e.end(), [&](const std::pair<int, Sym> &p) { return !live[p.first]; }), e.end()); auto &q = b.s[i].eps; q.erase(std::remove_if(q.begin(), q.end(), [&](int t) { return !live[t]; }), q.end()); }
	return b;
}
// are two deterministic machines the same up to numbering (parts reachable from the start)?  why: explanation
static inline bool isomorphic(const Auto &a, const Auto &b, string *why) {
	if ((a.start < 0) != (b.start < 0)) { *why = "one has a start state"; return false; }
	if (a.n() != b.n()) { *why = fmt("%d against %d states", a.n(), b.n()); return false; }
	if (a.start < 0) return true;
	vector<int> m(a.n(), -1), back(b.n(), -1); vector<int> q{a.start}; m[a.start] = b.start; back[b.start] = a.start;
	while (!q.empty()) { int x = q.back(); q.pop_back(); int y = m[x]; const auto &s = a.s[x], &t = b.s[y];
		auto srt = [](vector<u32> v) { std::sort(v.begin(), v.end()); return v; };
		if (s.end != t.end || srt(s.ids) != srt(t.ids) || srt(s.eager) != srt(t.eager)) { *why = fmt("states %d and %d differ in ends or ids", x, y); return false; }
		if (s.e.size() != t.e.size()) { *why = fmt("states %d and %d differ in edges", x, y); return false; }
		for (auto &p : s.e) { unsigned c = p.second.first(); int ty = -1; Sym sy; for (auto &w : t.e) if (w.second.get(c)) { ty = w.first; sy = w.second; } if (ty < 0 || !(sy == p.second)) { *why = fmt("states %d and %d differ in edges", x, y); return false; }
			if (m[p.first] == -1 && back[ty] == -1) { m[p.first] = ty; back[ty] = p.first; q.push_back(p.first); } else if (m[p.first] != ty) { *why = fmt("edge targets differ at %d", x); return false; } } }
	return true;
}

// ---------------------------------------------------------------- libfsm <-> model
static inline Auto snapshot(const struct fsm *f, bool ids = true) {
	Auto a; a.s.resize(fsm_countstates(f));
	fsm_walk_edges(f, &a,
		[](const struct fsm *, fsm_state_t x, fsm_state_t y, char c, void *o) -> int { Auto *p = (Auto *)o; if (x >= (fsm_state_t)p->n() || y >= (fsm_state_t)p->n()) { fprintf(stderr, "edge outside the state range\n"); abort(); } auto &e = p->s[x].e; if (!e.empty() && e.back().first == (int)y) e.back().second.set((unsigned char)c); else p->edge((int)x, (int)y, (unsigned char)c); return 1; },
		[](const struct fsm *, fsm_state_t x, fsm_state_t y, void *o) -> int { Auto *p = (Auto *)o; if (x >= (fsm_state_t)p->n() || y >= (fsm_state_t)p->n()) { fprintf(stderr, "epsilon outside the state range\n"); abort(); } p->eps((int)x, (int)y); return 1; });
	fsm_state_t st; if (fsm_getstart(f, &st)) a.start = (int)st;
	for (int i = 0; i < a.n(); i++) {
		a.s[i].end = fsm_isend(f, (fsm_state_t)i);
		if (ids && a.s[i].end) { size_t k = fsm_endid_count(f, (fsm_state_t)i); if (k) { vector<fsm_end_id_t> v(k); if (!fsm_endid_get(f, (fsm_state_t)i, k, v.data())) { fprintf(stderr, "fsm_endid_get failed\n"); abort(); } a.s[i].ids.assign(v.begin(), v.end()); } }
		size_t k = fsm_eager_output_count(f, (fsm_state_t)i); if (k) { vector<fsm_output_id_t> v(k); fsm_eager_output_get(f, (fsm_state_t)i, k, v.data()); a.s[i].eager.assign(v.begin(), v.end()); }
	}
	return a;
}
static inline struct fsm *build(const Auto &a, const struct fsm_alloc *al = nullptr, Rng *r = nullptr) {
	struct fsm *f = r && r->chance(40) ? fsm_new_statealloc(al, (size_t)r->below(a.n() + 3)) : fsm_new(al); if (!f) abort();
	if (r && r->chance(50)) { if (!fsm_addstate_bulk(f, a.n())) abort(); } else for (int i = 0; i < a.n(); i++) { fsm_state_t x; if (!fsm_addstate(f, &x) || x != (fsm_state_t)i) abort(); }
	for (int i = 0; i < a.n(); i++) {
		for (int t : a.s[i].eps) if (!fsm_addedge_epsilon(f, i, t)) abort();
		for (auto &p : a.s[i].e) { if (p.second == Sym::all()) { if (!fsm_addedge_any(f, i, p.first)) abort(); } else for (unsigned c = 0; c < 256; c++) if (p.second.get(c)) if (!fsm_addedge_literal(f, i, p.first, (char)c)) abort(); }
		if (a.s[i].end) fsm_setend(f, i, r && r->chance(10) ? 2 : 1);
	}
	for (int i = 0; i < a.n(); i++) {
		for (u32 x : a.s[i].ids) if (!fsm_endid_set(f, i, x)) abort();
		for (u32 x : a.s[i].eager) if (!fsm_eager_output_set(f, i, x)) abort();
	}
	if (a.start >= 0) fsm_setstart(f, a.start);
	return f;
}
struct StrSrc { const string *s; size_t i; };
static int str_getc(void *o) { StrSrc *p = (StrSrc *)o; return p->i < p->s->size() ? (unsigned char)(*p->s)[p->i++] : EOF; }
static inline int exec(const struct fsm *f, const string &w, fsm_state_t *end) { StrSrc s{&w, 0}; return fsm_exec(f, str_getc, &s, end, NULL); }

// ---------------------------------------------------------------- random automata
static inline Sym random_sym(Rng &r, int profile) {
	Sym y;
	switch (profile) {
	case 0: y.set('a' + r.below(2)); break;
	case 1: y.set('a' + r.below(4)); break;
	case 2: { static const int b[] = {0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255, '\n', '"', '\\', '\''}; y.set(b[r.below(20)]); break; }
	case 3: { unsigned lo = r.below(256), hi = r.below(256); if (lo > hi) std::swap(lo, hi); y = Sym::range(lo, hi); break; }
	case 4: y.set(r.below(256)); break;
	case 5: if (r.chance(50)) y = Sym::all(); else y = ~Sym::one(r.below(256)); break;
	case 6: for (int i = 0; i < 4; i++) y.w[i] = r.next() & r.next(); if (!y.any()) y.set(7); break;
	default: y.set('a' + r.below(26));
	}
	return y;
}
struct GenOpt { int maxn = 12; bool eps = true; bool dfa = false; bool ids = false; bool eager = false; bool nostart = true; int edgemax = 3; };
// the last kind: ids that agree in their low 8 or 16 bits with small ones
static inline u32 random_id(Rng &r) { switch (r.weighted({52, 18, 8, 5, 5, 12})) { case 0: return r.below(6); case 1: return r.below(100); case 2: return (u32)r.next(); case 3: return 0; case 4: return UINT_MAX - r.below(3); default: { static const unsigned sh[] = {8, 16, 16, 24, 31}; return r.below(3) + (1u << sh[r.below(5)]); } } }
static inline Auto random_auto(Rng &r, const GenOpt &g) {
	Auto a; int n = r.chance(4) ? r.range(0, 1) : r.range(1, g.maxn); 
	for (int i = 0; i < n; i++) a.add();
	if (n == 0) return a;
	int prof = r.below(8); bool mixed = r.chance(30);
	int shape = r.below(6); int per = r.range(1, g.edgemax);
	auto sym = [&]() { return random_sym(r, mixed ? (int)r.below(8) : prof); };
	for (int i = 0; i < n; i++) {
		int k = shape == 0 ? per : (int)r.below(per + 2);
		if (shape == 1 && i + 1 < n) a.edge(i, i + 1, sym()); // chain backbone
		if (shape == 2 && i > 0) a.edge((int)r.below(i), i, sym()); // random tree backbone
		if (shape == 3) { a.edge(i, (i + 1) % n, sym()); } // ring
		for (int j = 0; j < k; j++) { int t = shape == 4 ? (i + 1 + (int)r.below(3)) % n : (int)r.below(n); a.edge(i, t, sym()); }
	}
	if (g.eps) { int k = r.chance(30) ? 0 : (int)r.below(n + 1); if (r.chance(10)) k = 2 * n; for (int j = 0; j < k; j++) a.eps((int)r.below(n), (int)r.below(n)); }
	int em = r.below(6); // ends
	for (int i = 0; i < n; i++) a.s[i].end = em == 0 ? true : em == 1 ? i == n - 1 : em == 2 ? r.chance(10) : em == 3 ? r.chance(50) : r.chance(25);
	if (r.chance(3)) for (auto &s : a.s) s.end = false;
	a.start = r.chance(60) ? 0 : (int)r.below(n); if (g.nostart && r.chance(2)) a.start = -1;
	if (g.dfa) { // make deterministic: each symbol keeps one destination
		for (auto &s : a.s) { s.eps.clear(); Sym used; r.shuffle(s.e); for (auto &p : s.e) { p.second = p.second & ~used; used = used | p.second; } s.e.erase(std::remove_if(s.e.begin(), s.e.end(), [](const std::pair<int, Sym> &p) { return !p.second.any(); }), s.e.end()); }
	}
	if (g.ids) { int m = r.below(4); for (auto &s : a.s) if (s.end && m && r.chance(m == 1 ? 30 : 80)) { int k = r.chance(80) ? 1 : r.chance(93) ? r.range(1, 8) : r.range(9, 70); std::set<u32> z; for (int j = 0; j < k; j++) z.insert(k > 8 ? r.below(100) : random_id(r)); s.ids.assign(z.begin(), z.end()); } }
	if (g.eager && r.chance(60)) for (auto &s : a.s) if (r.chance(25)) { std::set<u32> z; int k = r.chance(80) ? 1 : 3; for (int j = 0; j < k; j++) z.insert(random_id(r)); s.eager.assign(z.begin(), z.end()); }
	return a;
}
// a DFA blown up by splitting states into equivalent copies (so there is something to minimise)
static inline Auto blow_up(Rng &r, const Auto &a, int extra) {
	Auto b; int n = a.n(); if (!n) return a; vector<vector<int>> cp(n); for (int i = 0; i < n; i++) cp[i].push_back(b.add());
	for (int k = 0; k < extra; k++) cp[r.below(n)].push_back(b.add());
	for (int i = 0; i < n; i++) for (int x : cp[i]) { b.s[x].end = a.s[i].end; b.s[x].ids = a.s[i].ids; b.s[x].eager = a.s[i].eager;
		for (auto &p : a.s[i].e) { if (p.second.size() > 1 && r.chance(50)) { for (unsigned c = 0; c < 256; c++) if (p.second.get(c)) b.edge(x, r.pick(cp[p.first]), c); } else b.edge(x, r.pick(cp[p.first]), p.second); } }
	b.start = a.start < 0 ? -1 : r.pick(cp[a.start]); return b;
}
static inline Auto permute(Rng &r, const Auto &a) {
	vector<int> m(a.n()); for (int i = 0; i < a.n(); i++) m[i] = i; r.shuffle(m); Auto b; b.s.resize(a.n());
	for (int i = 0; i < a.n(); i++) { auto &d = b.s[m[i]]; d = a.s[i]; for (auto &p : d.e) p.first = m[p.first]; for (int &x : d.eps) x = m[x]; }
	b.start = a.start < 0 ? -1 : m[a.start]; return b;
}
// strings near the language of a machine
static inline string random_string(Rng &r, const Auto &a, int maxlen = 24) {
	string w; int mode = r.below(10); if (a.start < 0 || mode == 0) { int l = r.below(8); for (int i = 0; i < l; i++) w += (char)random_sym(r, (int)r.below(8)).nth(0); return w; }
	int q = a.start; int len = r.below(maxlen + 1);
	for (int i = 0, guard = 0; i < len && guard < 400; guard++) { auto &s = a.s[q]; size_t k = s.e.size() + s.eps.size(); if (!k) break; size_t j = r.below(k); if (j < s.e.size()) { w += (char)s.e[j].second.nth(r.below(s.e[j].second.size())); q = s.e[j].first; i++; if (a.s[q].end && r.chance(25)) break; } else q = s.eps[j - s.e.size()]; }
	if (mode <= 2 && !w.empty()) { size_t p = r.below(w.size()); switch (r.below(3)) { case 0: w[p] = (char)r.below(256); break; case 1: w.erase(p, 1); break; default: w.insert(p, 1, (char)r.below(256)); } }
	return w;
}
// larger machines whose subset construction stays manageable: unions of words, words with loops, counters, products of rings
static inline Auto big_auto(Rng &r, const GenOpt &g, int target) {
	Auto a; int start = a.add(); a.start = start; int kind = r.below(6); int alpha = r.range(2, 26); unsigned base = r.chance(70) ? 'a' : r.below(230);
	auto ch = [&]() { return (unsigned)(base + r.below(alpha)) & 255; };
	int lens = r.range(1, 30);
	if (kind == 0 || kind == 1) { // union of words (trie-like NFA); kind 1: with some loops to earlier states of the same word
		while (a.n() < target) { int q = start; if (g.eps && r.chance(50)) { int q2 = a.add(); a.eps(q, q2); q = q2; } int l = r.range(1, lens); int first = a.n(); for (int i = 0; i < l; i++) { int t = a.add(); a.edge(q, t, ch()); q = t; if (kind == 1 && r.chance(6)) a.edge(q, r.range(first, a.n() - 1), ch()); } a.s[q].end = true; if (g.eps && r.chance(10)) a.eps(q, r.range(first, a.n() - 1)); }
	} else if (kind == 2) { // .*a.{k}
		int k = r.range(2, 8); a.edge(start, start, Sym::range(base, base + 1 > 255 ? 255 : base + 1)); int q = a.add(); a.edge(start, q, base); for (int i = 0; i < k; i++) { int t = a.add(); a.edge(q, t, Sym::range(base, base + 1 > 255 ? 255 : base + 1)); q = t; } a.s[q].end = true;
	} else if (kind == 3) { // long DFA chain with skips
		int q = start; while (a.n() < target) { int t = a.add(); a.edge(q, t, ch()); if (r.chance(8)) a.s[t].end = true; q = t; } a.s[q].end = true; for (int i = 0; i < target / 10; i++) { int x = r.below(a.n()), y = r.below(a.n()); unsigned c = ch(); bool used = false; for (auto &p : a.s[x].e) used |= p.second.get(c); if (!used) a.edge(x, y, c); }
	} else if (kind == 4) { // wide fan: many symbols to many states, then back
		int m = std::min(target, 400); vector<int> l1; for (int i = 0; i < m; i++) l1.push_back(a.add()); for (unsigned c = 0; c < 256; c++) a.edge(start, r.pick(l1), c); for (int x : l1) { a.edge(x, r.chance(50) ? start : r.pick(l1), random_sym(r, 4)); if (r.chance(30)) a.s[x].end = true; }
	} else { // several rings behind epsilons (product states)
		int rings = r.range(1, 3); for (int k = 0; k < rings; k++) { int len = r.range(2, 9); int first = a.n(); for (int i = 0; i < len; i++) a.add(); for (int i = 0; i < len; i++) a.edge(first + i, first + (i + 1) % len, Sym::range(base, base + (r.chance(20) ? 1 : 0))); a.s[first + r.below(len)].end = true; if (g.eps) a.eps(start, first); else for (auto &p : vector<std::pair<int, Sym>>(a.s[first].e)) a.edge(start, p.first, p.second); }
	}
	if (g.ids) { int m = r.below(4); u32 k = r.below(1000); for (auto &s : a.s) if (s.end && m) { if (m == 1) s.ids = {k++}; else if (m == 2) s.ids = {(u32)r.below(4)}; else { std::set<u32> z; int q = r.range(1, 4); for (int j = 0; j < q; j++) z.insert(random_id(r)); s.ids.assign(z.begin(), z.end()); } } }
	if (g.eager && r.chance(40)) for (auto &s : a.s) if (r.chance(10)) s.eager = {random_id(r)};
	if (r.chance(50)) a = permute(r, a);
	return a;
}
// a few hubs whose labels fan out to very many states (long destination lists, wide or sparse numbering)
static inline Auto wide_auto(Rng &r, const GenOpt &g, bool sparse) {
	Auto a; int hubs = r.range(2, 4), m = r.chance(30) ? r.range(3, 40) : r.range(100, 700); unsigned base = r.chance(60) ? 'a' : r.below(250); int labels = r.range(1, 4), pad = sparse ? r.range(82000, 130000) : r.chance(50) ? 0 : r.range(1, 300);
	int total = 1 + hubs + m + pad; a.s.resize(total); a.start = 0;
	vector<int> leaf; if (sparse) { std::set<int> z; while ((int)z.size() < m) z.insert(r.range(1 + hubs, total - 1)); z.insert(1 + hubs + r.below(5)); z.insert(total - 1 - r.below(64)); leaf.assign(z.begin(), z.end()); } else { int off = r.below(pad + 1); for (int i = 0; i < m; i++) leaf.push_back(1 + hubs + off + i); }
	int kinds = r.range(1, 5); if (!sparse && m > 64 && r.chance(50)) { m = m / 64 * 64 + 1; leaf.resize(m); }
	if (sparse && r.chance(50)) { int d = (leaf.back() - leaf[0]) % 64; if (leaf.back() - d > leaf[leaf.size() - 2]) leaf.back() -= d; }
	for (int h = 1; h <= hubs; h++) { a.edge(0, h, base); if (r.chance(30)) a.edge(0, h, (base + 1) & 255); }
	auto lab = [&]() { return (unsigned)(base + r.below(labels)) & 255; };
	for (int h = 1; h <= hubs; h++) { unsigned c = base; int mode = r.below(4); for (size_t i = 0; i < leaf.size(); i++) { bool edge = i == 0 || i + 1 == leaf.size(); if (mode == 0 && !edge && i % 2) continue; if (mode == 1 && !edge && r.chance(50)) continue; if (mode == 2 && !(i == 0 || i + 1 == leaf.size() || r.chance(60))) continue; a.s[h].e.push_back({leaf[i], Sym::one(edge || r.chance(80) ? c : lab())}); } }
	bool quiet = r.chance(50); // only the outermost destinations show
	for (int x : leaf) { int k = quiet ? 9 : (int)r.below(40 * kinds); if (k < 2) { a.s[x].end = true; if (g.ids) a.s[x].ids = {(u32)(k + r.below(3))}; } else if (k == 2) a.edge(x, 1 + (int)r.below(hubs), lab()); else if (k == 3) a.edge(x, r.pick(leaf), lab()); }
	for (int k : {(int)leaf.size() - 1, 0, (int)r.below(leaf.size())}) if (r.chance(60)) { a.s[leaf[k]].end = true; if (g.ids) a.s[leaf[k]].ids = {(u32)(5000 + k)}; }
	if (g.eps && !sparse && r.chance(30)) a.eps((int)r.below(hubs + 1), r.pick(leaf));
	return a;
}
// renumber ids to be dense-ish so that several states share ids, with extremes
static inline bool is_dfa(const Auto &a) { for (auto &s : a.s) { if (!s.eps.empty()) return false; Sym u; for (auto &p : s.e) { if ((u & p.second).any()) return false; u = u | p.second; } } return true; }
static inline bool no_eps(const Auto &a) { for (auto &s : a.s) if (!s.eps.empty()) return false; return true; }
// an allocator that counts what is outstanding
struct CountAlloc {
	struct fsm_alloc fa; std::unordered_map<void *, size_t> live; u64 total = 0; u64 fail_at = ~0ull; bool failed = false; bool foreign = false; bool thread = false;
	static void f_free_(void *o, void *p) { CountAlloc *c = (CountAlloc *)o; if (p == NULL) return; auto it = c->live.find(p); if (it == c->live.end()) { c->foreign = true; return; } c->live.erase(it); ::free(p); }
	static bool fail(CountAlloc *c) { if (c->total++ == c->fail_at) { c->failed = true; return true; } return false; }
	static void *f_calloc_(void *o, size_t n, size_t s) { CountAlloc *c = (CountAlloc *)o; if (fail(c)) { errno = ENOMEM; return NULL; } void *p = ::calloc(n ? n : 1, s ? s : 1); c->live[p] = n * s; return p; }
	static void *f_malloc_(void *o, size_t s) { CountAlloc *c = (CountAlloc *)o; if (fail(c)) { errno = ENOMEM; return NULL; } void *p = ::malloc(s ? s : 1); memset(p, 0xA5, s); c->live[p] = s; return p; }
	static void *f_realloc_(void *o, void *p, size_t s) { CountAlloc *c = (CountAlloc *)o; if (p == NULL) return f_malloc_(o, s); if (fail(c)) { errno = ENOMEM; return NULL; } auto it = c->live.find(p); if (it == c->live.end()) { c->foreign = true; return f_malloc_(o, s); } size_t old = it->second; void *q = ::malloc(s ? s : 1); memset(q, 0xA5, s); memcpy(q, p, old < s ? old : s); c->live.erase(it); ::free(p); c->live[q] = s; return q; }
	CountAlloc() { memset(&fa, 0, sizeof fa); fa.free = f_free_; fa.calloc = f_calloc_; fa.malloc = f_malloc_; fa.realloc = f_realloc_; fa.opaque = this; }
	~CountAlloc() { for (auto &p : live) ::free(p.first); }
};
