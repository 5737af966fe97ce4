// C28: threads that work on automata of their own, or read one together; and lx(1) with several threads. Run under ThreadSanitizer.
#define VF_MAIN
#define VF_NOARENA
#define VF_THREADS
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <spawn.h>
#include <sys/wait.h>
static thread_local unsigned long long perturb_state; // nonzero: delays are injected where the library allocates
static void perturb() { if (!perturb_state) return; perturb_state = perturb_state * 6364136223846793005ull + 1442695040888963407ull; unsigned k = (unsigned)(perturb_state >> 40) & 255; if (k < 6) sched_yield(); else if (k == 7) for (volatile int i = 0; i < 3000; i++) {} }
#include "common.hpp"
#define run_case c20_case
#define harness_name c20_name
#include "c20.cpp"
#undef run_case
#undef harness_name
#include "remodel.hpp"
#include "pcregen.hpp"
#include "dialectgen.hpp"
const char *harness_name = "c28";
// What ran beside what: relaxed counters, which order nothing.
static std::atomic<int> active; static std::atomic<u64> ticket;
struct Mark { u64 *overlap; vector<u64> *order; Mark(u64 *o, vector<u64> *v) : overlap(o), order(v) { order->push_back(ticket.fetch_add(1, std::memory_order_relaxed)); if (active.fetch_add(1, std::memory_order_relaxed) > 0) ++*overlap; } ~Mark() { active.fetch_sub(1, std::memory_order_relaxed); } };
struct T { pthread_t t; int kind; u64 seed; bool delays; string out; u64 overlap = 0; vector<u64> order; Ctx c; const struct Shared *sh = nullptr; pthread_barrier_t *b = nullptr; int steps = 0; };
static string text_of(struct fsm *f) { return f ? fmt("%016llx ", (unsigned long long)snapshot(f).hash()) : "none "; }
// patterns of every dialect
static void patterns(T &t) { Rng r(t.seed); for (int k = 0; k < t.steps; k++) { Mark m(&t.overlap, &t.order);
	unsigned fl = (r.chance(25) ? RE_ICASE : 0) | (r.chance(20) ? RE_SINGLE : 0) | (r.chance(15) ? RE_ANCHORED : 0); static const enum re_dialect ds[] = {RE_PCRE, RE_PCRE, RE_NATIVE, RE_GLOB, RE_LIKE, RE_SQL, RE_LITERAL}; enum re_dialect d = ds[r.below(7)]; string s;
	if (r.chance(15)) s = soup(r); else if (d == RE_PCRE) { Gen g(r, fl); g.budget = std::min(g.budget, 8); g.alts(2); s = g.t; } else { DGen g(r, d, fl); g.budget = std::min(g.budget, 8); g.top(); s = g.t; } if (s.size() > 60) s.resize(60);
	int big = 0; for (size_t i = 0, v = 0; i <= s.size(); i++) { if (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i] - '0'); else { if (v > 20) big = 1; v = 0; } } if (big) { t.out += "big "; continue; }
	TagAlloc ta; vector<string> bad; ta.init(1, &bad); StrSrc src{&s, 0}; struct re_err e; memset(&e, 0, sizeof e); struct fsm *f = re_comp(d, str_getc, &src, r.chance(50) ? &ta.fa : nullptr, (enum re_flags)fl, &e); if (!f) { t.out += fmt("refused %d %s ", (int)e.e, re_strerror(e.e)); } else { if (fsm_countstates(f) < 60) { struct fsm_determinise_config cf; memset(&cf, 0, sizeof cf); cf.state_limit = 200; if (fsm_determinise_with_config(f, &cf) == FSM_DETERMINISE_WITH_CONFIG_OK) fsm_minimise(f); t.out += text_of(f); } else t.out += fmt("%u ", fsm_countstates(f)); fsm_free(f); }
	src.i = 0; enum re_literal_category cat; char *l = nullptr; size_t n = 0; int q = re_is_literal(d, str_getc, &src, (enum re_flags)fl, &e, &cat, &l, &n); t.out += fmt("lit %d ", q); if (q == 1) t.out += string(l ? l : "", l ? n : 0); free(l); src.i = 0; t.out += fmt(" anch %d\n", (int)re_is_anchored(d, str_getc, &src, (enum re_flags)fl, &e)); t.c.count("patterns"); } }
static void history(T &t) { H h(t.c, t.seed); for (int k = 0; k < t.steps && !h.stop; k++) { Mark m(&t.overlap, &t.order); h.opno = k; h.step(); h.check(); if (k % 8 == 7) for (auto &x : h.o) t.out += fmt("%u/%u ", fsm_countstates(x.f), fsm_countedges(x.f)); }
	for (auto &x : h.o) t.out += text_of(x.f); { Mark m(&t.overlap, &t.order); while (!h.o.empty()) { fsm_free(h.o.back().f); h.o.pop_back(); } } t.out += h.log; for (auto &v : t.c.violations) t.out += v.key + " "; for (int k = 1; k < 4; k++) t.out += fmt("left %zu ", h.ta[k].live); }
// one automaton, read by all
struct Shared { struct fsm *f, *g; struct fsm_dfavm *vm; bool dfa, start; vector<string> in; vector<bool> out; };
static void readers(T &t) { const Shared &s = *t.sh; Rng r(t.seed); H h(t.c, t.seed); const struct fsm *f = s.f; int n = fsm_countstates(f);
	static int (*const pred[])(const struct fsm *, fsm_state_t) = {fsm_isany, fsm_iscomplete, fsm_isdfa, fsm_isend, fsm_hasincoming, fsm_hasoutgoing, fsm_hasepsilons, fsm_epsilonsonly, fsm_hasnondeterminism};
	for (int k = 0; k < t.steps; k++) { Mark m(&t.overlap, &t.order); int op = r.below(16); u64 os = r.next(); string o; h.r = Rng(os); perturb(); Rng q(os); fsm_state_t a = n ? q.below(n) : 0;
		switch (op) {
		case 0: case 1: case 2: if (s.dfa) { fsm_state_t e = 0; const string &w = s.in[q.below(s.in.size())]; int z = exec(f, w, &e); o = fmt("exec %d %u", z, z == 1 ? e : 0); } break;
		case 3: { auto p = pred[q.below(9)]; o = fmt("pred %d %d %u", fsm_has(f, p), fsm_all(f, p), fsm_count(f, p)); if (n) o += fmt(" %d %d %d", fsm_reachableall(f, a, p), fsm_reachableany(f, a, p), p(f, a)); break; }
		case 4: o = fmt("equal %d %d", fsm_equal(f, s.g), fsm_equal(s.g, f)); break;
		case 5: o = fmt("empty %d", fsm_empty(f)); break;
		case 6: case 7: case 8: { static const enum fsm_print_lang L[] = {FSM_PRINT_AWK, FSM_PRINT_API, FSM_PRINT_C, FSM_PRINT_DOT, FSM_PRINT_FSM, FSM_PRINT_GO, FSM_PRINT_IR, FSM_PRINT_IRJSON, FSM_PRINT_JSON, FSM_PRINT_LLVM, FSM_PRINT_RUST, FSM_PRINT_SH, FSM_PRINT_VMC, FSM_PRINT_VMDOT, FSM_PRINT_VMOPS_C, FSM_PRINT_VMOPS_H, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_GO, FSM_PRINT_AMD64_NASM}; enum fsm_print_lang l = L[q.below(19)]; if (!s.dfa && l != FSM_PRINT_FSM && l != FSM_PRINT_DOT && l != FSM_PRINT_JSON) l = FSM_PRINT_FSM; if (l == FSM_PRINT_API && !s.start) l = FSM_PRINT_FSM; o = "print " + h.printed(f, l); break; }
		case 9: { struct fsm *x = fsm_clone(f); o = "clone " + text_of(x); if (x) fsm_free(x); break; }
		case 10: if (s.dfa && n) { char b[200]; fsm_state_t goal = q.below(n); int z = fsm_example(f, goal, b, sizeof b); o = fmt("example %d ", z) + (z > 0 ? string(b, std::min((size_t)z, sizeof b - 1)) : ""); } break;
		case 11: if (s.dfa && s.start) { u64 cm[4] = {0, 0, 0, 0}; size_t cnt = 0; int z = fsm_detect_required_characters(f, 3000, cm, &cnt); o = fmt("required %d %zu", z, z == 0 ? cnt : 0); if (z == 0) for (int i = 0; i < 4; i++) o += fmt(" %llx", (unsigned long long)cm[i]); } break;
		case 12: if (s.vm) { const string &w = s.in[q.below(s.in.size())]; o = fmt("vm %d", fsm_vm_match_buffer(s.vm, w.data(), w.size())); } break;
		case 13: if (s.dfa && s.start) { struct fsm_dfavm *v = fsm_vm_compile(f); const string &w = s.in[q.below(s.in.size())]; o = fmt("vmc %d", v ? fsm_vm_match_buffer(v, w.data(), w.size()) : -2); if (v) fsm_vm_free(v); } break;
		case 14: if (n) { size_t c = fsm_isend(f, a) ? fsm_endid_count(f, a) : 0; o = fmt("ids %zu %zu", c, fsm_eager_output_count(f, a)); if (c) { vector<fsm_end_id_t> v(c); if (fsm_endid_get(f, a, c, v.data())) for (auto x : v) o += fmt(" %u", x); } if (s.out[a]) { unsigned fr = 0; o += fmt(" mode %u", fsm_findmode(f, a, &fr)); } } break;
		case 15: { struct W { u64 h; } w = {1}; fsm_walk_states(f, &w, [](const struct fsm *, fsm_state_t x, void *p) -> int { ((W *)p)->h = mix(((W *)p)->h, x); return 1; }); fsm_walk_edges(f, &w, [](const struct fsm *, fsm_state_t x, fsm_state_t y, char c, void *p) -> int { ((W *)p)->h = mix(((W *)p)->h, mix(x * 7919 + y, (unsigned char)c)); return 1; }, [](const struct fsm *, fsm_state_t x, fsm_state_t y, void *p) -> int { ((W *)p)->h = mix(((W *)p)->h, x * 31 + y + 5); return 1; }); o = fmt("walk %016llx", (unsigned long long)w.h); break; }
		}
		t.out += o + "\n"; if (!o.empty()) t.c.count("read:" + o.substr(0, o.find(' '))); } }
static void body(T &t) { switch (t.kind) { case 0: history(t); break; case 1: patterns(t); break; default: readers(t); } }
static void *entry(void *p) { T &t = *(T *)p; pthread_barrier_wait(t.b); perturb_state = t.delays ? t.seed | 1 : 0; body(t); perturb_state = 0; return nullptr; }
static const char *const kinds[] = {"history", "patterns", "readers"};
static void threads(Ctx &c, Rng &r, bool shared) {
	Shared s; s.vm = nullptr; s.f = s.g = nullptr; bool ro = shared;
	TagAlloc ta; vector<string> bad; ta.init(1, &bad); u64 before = 0;
	if (ro) { GenOpt g; g.maxn = r.chance(70) ? 8 : 25; g.ids = r.chance(50); g.eager = r.chance(20); g.dfa = r.chance(65); g.eps = !g.dfa; Auto m = random_auto(r, g), m2 = r.chance(40) ? permute(r, m) : random_auto(r, g); Dfa d; if (!model_dfa(m, OUT_END, d, 150) || !model_dfa(m2, OUT_END, d, 150)) { c.count("skipped"); return; }
		s.f = build(m, nullptr, &r); s.g = build(m2, nullptr, &r); fsm_state_t st; s.start = fsm_getstart(s.f, &st); s.dfa = s.start && fsm_all(s.f, fsm_isdfa); if (s.dfa) s.vm = fsm_vm_compile(s.f); for (int i = 0; i < 12; i++) s.in.push_back(s.start ? random_string(r, m, r.range(0, 20)) : ""); Auto sn = snapshot(s.f); before = sn.hash(); for (auto &x : sn.s) s.out.push_back(s.dfa && !x.e.empty()); }
	int n = r.weighted({0, 0, 30, 20, 30, 0, 10, 0, 10}); vector<T> alone(n), par(n); u64 base = r.next(); bool twins = r.chance(25);
	pthread_barrier_t b; pthread_barrier_init(&b, nullptr, n);
	for (int i = 0; i < n; i++) { T &t = alone[i]; t.kind = ro ? 2 : r.chance(65) ? 0 : 1; t.seed = twins ? base : mix(base, i); if (twins && i) t.kind = alone[0].kind; t.steps = ro ? 40 : t.kind ? 12 : 30; t.delays = r.chance(60); t.sh = &s; t.b = &b; t.c.seed = c.seed; t.c.idx = c.idx; par[i].kind = t.kind; par[i].seed = t.seed; par[i].steps = t.steps; par[i].delays = t.delays; par[i].sh = &s; par[i].b = &b; }
	for (auto &t : alone) body(t);
	for (auto &t : par) if (pthread_create(&t.t, nullptr, entry, &t)) { fprintf(stderr, "HARNESS cannot create a thread\n"); _exit(3); }
	for (auto &t : par) pthread_join(t.t, nullptr); pthread_barrier_destroy(&b);
	vector<std::pair<u64, int>> order; for (int i = 0; i < n; i++) { c.eval(par[i].order.size()); c.count(fmt("threads:%s", kinds[par[i].kind])); c.count("operations", par[i].order.size()); c.count("operations beside others", par[i].overlap); for (u64 x : par[i].order) order.push_back({x, i}); for (auto &k : par[i].c.counters) if (k.first.compare(0, 3, "op:") == 0 || k.first.compare(0, 5, "read:") == 0) c.count(k.first, k.second);
		if (par[i].out != alone[i].out) { size_t k = 0; while (k < par[i].out.size() && k < alone[i].out.size() && par[i].out[k] == alone[i].out[k]) k++; size_t f = k > 150 ? k - 150 : 0; c.violation(fmt("differs:%s", kinds[par[i].kind]), fmt("thread %d of %d (%s) got another result than alone, from byte %zu:\nalone:    ", i, n, kinds[par[i].kind], k) + alone[i].out.substr(f, 500) + "\ntogether: " + par[i].out.substr(f, 500)); } }
	std::sort(order.begin(), order.end()); u64 h = base; for (auto &x : order) h = mix(h, x.second); c.nontrivial(h);
	if (ro) { if (snapshot(s.f).hash() != before) c.violation("modified", "a shared automaton changed while it was only read"); if (s.vm) fsm_vm_free(s.vm); fsm_free(s.f); fsm_free(s.g); }
}
// ---- lx -C
static string read_file(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static int lx(Ctx &c, const vector<string> &args, string &out, string &err) { string d = c.scratch + "/"; vector<string> v{"timeout", "-s", "KILL", "100", c.build + "/build/bin/lx"}; for (auto &a : args) v.push_back(a); vector<char *> av; for (auto &a : v) av.push_back((char *)a.c_str()); av.push_back(nullptr);
	char *ev[] = {(char *)"TSAN_OPTIONS=halt_on_error=1:exitcode=66", (char *)"PATH=/usr/bin:/bin", (char *)"LC_ALL=C", nullptr}; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, (d + "spec.lx").c_str(), O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, (d + "out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, (d + "err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	pid_t p; int st; if (posix_spawn(&p, "/usr/bin/timeout", &fa, nullptr, av.data(), ev) || waitpid(p, &st, 0) != p) { fprintf(stderr, "HARNESS cannot run lx\n"); _exit(3); } posix_spawn_file_actions_destroy(&fa); out = read_file(d + "out"); err = read_file(d + "err"); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); if (rc >= 125 && rc <= 127) { fprintf(stderr, "HARNESS cannot run lx\n"); _exit(3); } return rc; }
static string spec(Rng &r) { static const char *const re[] = {"/[a-z]+/", "'abc'", "/[0-9]+/", "'+'", "'-'", "/[ \\t\\n]+/", "/\"/", "'let'", "'b' 'c'+", "/[A-F]{2,4}/i", "'x' | 'yz'", "/[a-z]+[0-9]?/ - 'a1'", "'q'* 'r'", "/./", "!/[^a]/"}; int tok = 0;
	std::function<string(int)> zone = [&](int depth) { string s; int n = r.range(1, 5); for (int i = 0; i < n; i++) { string p = re[r.below(15)]; s += p + (r.chance(85) ? fmt(" -> $t%d", r.chance(90) ? tok++ : 0) : "") ; if (depth < 3 && tok < 60 && r.chance(45)) { s += fmt(" .. '%c%c' -> $e%d {\n", 'A' + (int)r.below(26), '0' + (int)r.below(10), tok++) + zone(depth + 1) + "}\n"; } else s += ";\n"; } return s; };
	string s; int n = r.range(1, 6); for (int i = 0; i < n; i++) s += fmt("'%c<' .. '>%c' {\n", 'a' + i, 'a' + i) + zone(1) + "}\n"; return s + zone(0); }
static void lexers(Ctx &c, Rng &r) {
	string s = spec(r); { FILE *f = fopen((c.scratch + "/spec.lx").c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { fprintf(stderr, "HARNESS cannot write\n"); _exit(3); } }
	static const char *const ls[] = {"c", "h", "dot", "zdot", "dump"}; string l = ls[r.weighted({50, 5, 25, 15, 5})]; vector<string> base{"-l", l}; if (r.chance(15) && l == "dot") base.push_back("-n"); if (r.chance(30) && l == "c") { base.push_back("-k"); base.push_back("str"); } string o1, e1; vector<string> a = base; int rc1 = lx(c, a, o1, e1); c.eval();
	auto crash = [&](const string &e, int rc, const string &cmd) { string k = "lx:exit"; size_t q = e.find("WARNING: ThreadSanitizer: "); if (q != string::npos) { k = "lx:" + e.substr(q + 27, e.find_first_of("(\n", q + 27) - q - 27); for (char &x : k) if (x == ' ') x = '-'; } c.violation(k, cmd + fmt(" exit status %d: ", rc) + e.substr(0, 3000) + "\n" + s); };
	if (rc1 > 1) { crash(e1, rc1, "lx -l " + l); return; } for (int n : {2, 4, (int)r.range(3, 16)}) { a = base; a.push_back("-C"); a.push_back(fmt("%d", n)); string o2, e2; int rc2 = lx(c, a, o2, e2); c.eval(); c.count("lx runs"); if (rc2 > 1) { crash(e2, rc2, fmt("lx -C %d -l ", n) + l); return; } if (rc2 != rc1) { c.violation("lx:status", fmt("lx -l %s -C %d exits with %d, with one thread %d\n", l.c_str(), n, rc2, rc1) + e2 + "\n" + s); return; } if (rc1 == 0 && o2 != o1) { size_t k = 0; while (k < o1.size() && k < o2.size() && o1[k] == o2[k]) k++; size_t f = k > 100 ? k - 100 : 0; c.violation("lx:output", fmt("lx -l %s -C %d prints something else than with one thread, from byte %zu:\n", l.c_str(), n, k) + o1.substr(f, 300) + "\n---\n" + o2.substr(f, 300) + "\n" + s); return; } }
	c.count(rc1 == 0 ? "lx:same output" : "lx:refused"); if (rc1 == 0) { size_t z = 0; for (char x : s) z += x == '{'; c.count("lx:zones", z + 1); c.nontrivial(hash_str(s)); }
}
void run_case(Ctx &c, u64 idx) { Rng r(mix(c.seed * 1000003 + 28, idx)); switch (r.weighted({50, 35, 15})) { case 0: threads(c, r, false); break; case 1: threads(c, r, true); break; default: lexers(c, r); } }
