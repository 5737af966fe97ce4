// C27: the k-th allocation of an operation fails; it must be reported, and what the caller still owns can be freed.
#define VF_MAIN
#include <setjmp.h>
#include "common.hpp"
extern "C" {
#include <fsm/subgraph.h>
#include <fsm/capture.h>
#include <fsm/cost.h>
#include <fsm/options.h>
#include <fsm/print.h>
#include <fsm/parser.h>
#include <fsm/vm.h>
#include <adt/path.h>
#include <re/re.h>
#include <re/strings.h>
}
extern "C" void __sanitizer_print_stack_trace(void); // VF_BT=1 shows each failing allocation
const char *harness_name = "c27";
// fsm_parse() ends the process when out of memory
static bool armed; static sigjmp_buf jb;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int k) __attribute__((noreturn));
extern "C" void __wrap_exit(int k) { if (armed) { armed = false; siglongjmp(jb, 1); } __real_exit(k); }
// fails one allocation (or all from there on), and fills fresh and released memory
struct FailAlloc {
	struct fsm_alloc fa; std::unordered_map<void *, size_t> live; u64 total = 0, from = ~0ull; bool sticky = false, failed = false, foreign = false;
	bool no() { u64 t = total++; if (t == from || (sticky && t > from && from != ~0ull)) { failed = true; if (getenv("VF_BT")) __sanitizer_print_stack_trace(); errno = ENOMEM; return true; } return false; }
	void *get(size_t s, int fill) { void *p = ::malloc(s ? s : 1); if (!p) abort(); memset(p, fill, s); live[p] = s; return p; }
	static void f_free_(void *o, void *p) { FailAlloc *c = (FailAlloc *)o; if (!p) return; if (!c->live.erase(p)) { c->foreign = true; return; } ::free(p); }
	static void *f_calloc_(void *o, size_t n, size_t s) { FailAlloc *c = (FailAlloc *)o; return c->no() ? NULL : c->get(n * s, 0); }
	static void *f_malloc_(void *o, size_t s) { FailAlloc *c = (FailAlloc *)o; return c->no() ? NULL : c->get(s, 0xA5); }
	static void *f_realloc_(void *o, void *p, size_t s) { FailAlloc *c = (FailAlloc *)o; if (c->no()) return NULL; void *q = c->get(s, 0xA5); if (p) { auto it = c->live.find(p); if (it == c->live.end()) { c->foreign = true; return q; } memcpy(q, p, std::min(s, it->second)); c->live.erase(it); ::free(p); } return q; }
	FailAlloc() { memset(&fa, 0, sizeof fa); fa.free = f_free_; fa.calloc = f_calloc_; fa.malloc = f_malloc_; fa.realloc = f_realloc_; fa.opaque = this; }
	bool has(void *p) { return p && live.count(p); }
	~FailAlloc() { for (auto &p : live) ::free(p.first); }
};
static const char *const pats[] = {"abc", "a|b", "^abc$", "(a|b)*c", "[a-f]+", "x{2,4}y", "^a", "b$", "", "a?b?c?", "(?:ab|cd)+e", ".*x", "[^a-z]{3}", "a.c", "^(a|bc|)d*$", "\\d+\\.\\d*", "^$", "()", "ab$|cd", "(^a|b)c", "a^b"};
enum Op { O_NEW, O_CLONE, O_MERGE, O_UNION, O_UNIONARRAY, O_GROUP, O_CONCAT, O_INTERSECT, O_SUBTRACT, O_COMPLEMENT, O_CHARSET, O_REVERSE, O_REMEPS, O_DET, O_MIN, O_COMPLETE, O_TRIM, O_SHUFFLE, O_VACUUM, O_COLLATE, O_MERGESTATES, O_REMOVE, O_ADDSTATE, O_ADDBULK, O_EDGES, O_SUBGRAPH, O_ENDID, O_ENDIDS, O_EAGER, O_EAGERENDS, O_MAPIDS, O_EMPTY, O_EQUAL, O_REACH, O_PRINT, O_VM, O_EXEC, O_SHORTEST, O_EXAMPLE, O_GENERATE, O_REQUIRED, O_RECOMP, O_STRINGS, O_PARSE, O_CAPTURE, O_COUNT };
static const char *const opname[] = {"new", "clone", "merge", "union", "union_array", "group", "concat", "intersect", "subtract", "complement", "charset", "reverse", "remove_epsilons", "determinise", "minimise", "complete", "trim", "shuffle", "vacuum", "collate", "mergestates", "removestate", "addstate", "addstate_bulk", "addedge", "subgraph", "endid_set", "setendid", "eager_output_set", "eager_on_ends", "mapendids", "empty", "equal", "reachable", "print", "vm", "exec", "shortest", "example", "generate", "required", "re_comp", "re_strings", "parse", "capture"};
struct Res { int ok = 0; u64 h = 0; bool cmp = true; string what; }; // ok: 1 success, 0 failure
struct Scen { u64 seed; Op op; Auto a, b; vector<string> ps; string text; unsigned fl = 0; enum re_dialect d = RE_PCRE; string desc; enum fsm_print_lang lang; bool caps = false; int ncap = 0; u64 opseed; };
static u64 cost_salt; static unsigned costf(fsm_state_t a, fsm_state_t b, char ch) { return (unsigned)(mix(mix(a, b) ^ cost_salt, (unsigned char)ch) % 9); }
static bool small(const Auto &a, size_t lim) { Dfa d; return a.start >= 0 && model_dfa(a, OUT_END | OUT_IDS | OUT_EAGER, d, lim, 60000); }
static Scen make(Rng &r) {
	Scen s; s.opseed = r.next(); s.op = (Op)r.below(O_COUNT); bool dfa = s.op == O_MIN || s.op == O_CHARSET || s.op == O_VM || s.op == O_EXEC || s.op == O_GENERATE || s.op == O_REQUIRED || (s.op == O_COMPLETE) || (s.op == O_PRINT && r.chance(80));
	bool noeps = s.op == O_SHORTEST || s.op == O_EXAMPLE || dfa;
	for (int t = 0;; t++) { GenOpt g; g.maxn = r.chance(70) ? 6 : 14; g.ids = r.chance(60); g.eager = r.chance(30); g.dfa = dfa || r.chance(25); g.eps = !g.dfa && !noeps; g.nostart = false; s.a = random_auto(r, g); g.dfa = dfa || r.chance(25); g.eps = !g.dfa && !noeps; s.b = random_auto(r, g); if (r.chance(8) && !noeps) { GenOpt bg; bg.ids = g.ids; s.a = big_auto(r, bg, r.range(40, 140)); if (s.a.start < 0) continue; } if (s.a.n() == 0 || s.a.start < 0 || s.b.n() == 0 || s.b.start < 0) { if (t < 50) continue; }
		bool det = s.op == O_DET || s.op == O_INTERSECT || s.op == O_SUBTRACT || s.op == O_COMPLEMENT || s.op == O_EQUAL || s.op == O_COMPLETE; if (det && (!small(s.a, 120) || !small(s.b, 120))) { if (t < 50) continue; s.op = O_CLONE; }
		bool anyend = false; for (auto &x : s.a.s) if (x.end) anyend = true; if ((s.op == O_CONCAT || s.op == O_COLLATE) && !anyend) { if (t < 50) continue; s.op = O_CLONE; } break; }
	if (s.op == O_CAPTURE) { Auto t; int m = r.range(2, 12); for (int i = 0; i < m; i++) t.add(); for (int i = 0; i + 1 < m; i++) { if (r.chance(30)) t.eps(i, i + 1); else t.edge(i, i + 1, (unsigned) ('a' + r.below(3))); } t.start = 0; t.s[m - 1].end = true; s.a = t; } // every path is marked: only automata with few paths
	switch (s.op) { case O_CLONE: case O_MERGE: case O_UNION: case O_UNIONARRAY: case O_CONCAT: case O_REMEPS: case O_DET: case O_MIN: case O_TRIM: case O_SHUFFLE: s.caps = r.chance(25); break; default: break; } // captures on chains: every path is marked
	if (s.caps) { s.ncap = r.range(1, 4); for (Auto *p : {&s.a, &s.b}) { Auto t; int m = r.chance(20) ? r.range(10, 40) : r.range(2, 9); for (int i = 0; i < m; i++) t.add(); for (int i = 0; i + 1 < m; i++) { if (s.op != O_MIN && r.chance(30)) t.eps(i, i + 1); else t.edge(i, i + 1, (unsigned)('a' + r.below(3))); } t.start = 0; t.s[m - 1].end = true; *p = t; } }
	int k = r.range(1, 4); for (int i = 0; i < k; i++) s.ps.push_back(pats[r.below(sizeof pats / sizeof *pats)]); s.fl = (r.chance(20) ? RE_ICASE : 0) | (r.chance(15) ? RE_ANCHORED : 0) | (r.chance(30) ? RE_SAVE_LINKAGE_INFO : 0) | (r.chance(10) ? RE_REVERSE : 0);
	static const enum re_dialect ds[] = {RE_NATIVE, RE_GLOB, RE_LIKE, RE_SQL, RE_LITERAL}; if (r.chance(30)) s.d = ds[r.below(5)];
	static const enum fsm_print_lang anyl[] = {FSM_PRINT_API, FSM_PRINT_DOT, FSM_PRINT_FSM, FSM_PRINT_JSON}; s.lang = dfa ? (enum fsm_print_lang)r.range(FSM_PRINT_AMD64_ATT, FSM_PRINT_VMOPS_MAIN) : anyl[r.below(4)];
	if (s.op == O_PARSE) { struct fsm *f = build(s.a); char *buf; size_t n; FILE *fp = open_memstream(&buf, &n); fsm_print(fp, f, NULL, NULL, FSM_PRINT_FSM); fclose(fp); s.text.assign(buf, n); free(buf); fsm_free(f); }
	s.desc = string(opname[s.op]); if (s.op == O_GROUP || s.op == O_RECOMP || s.op == O_STRINGS) { for (auto &p : s.ps) s.desc += " " + esc(p); s.desc += fmt(" flags 0x%x dialect %d", s.fl, (int)s.d); } else if (s.op == O_PRINT) s.desc += fmt(" as %d of ", (int)s.lang) + s.a.text(1200); else { s.desc += " of " + s.a.text(1200); if (s.op == O_MERGE || s.op == O_UNION || s.op == O_UNIONARRAY || s.op == O_CONCAT || s.op == O_INTERSECT || s.op == O_SUBTRACT || s.op == O_EQUAL) s.desc += " and " + s.b.text(1200); }
	return s;
}
// One run with allocation number k of the operation failing (k < 0: none). Returns how many it made.
struct Run { Res r; u64 allocs = 0; bool failed = false, exited = false, foreign = false; int kept = 0; size_t left = 0; string bad; };
static u64 capture_actions(const struct fsm *f) { // order aside
	char *buf; size_t n; FILE *fp = open_memstream(&buf, &n); fsm_capture_dump(fp, "", f); fclose(fp); u64 h = 0; string line; for (size_t i = 0; i < n; i++) { if (buf[i] != '\n') { line += buf[i]; continue; } if (line.compare(0, 3, " - ") == 0) h += splitmix(hash_str(line)); line.clear(); } free(buf); return h;
}
static u64 fh(const struct fsm *f, bool caps = false) { return f ? snapshot(f).hash() + (caps ? capture_actions(f) : 0) : 0; }
static Run run(const Scen &s, long k, bool sticky) {
	Run z; FailAlloc ca; Rng r(s.opseed); const struct fsm_alloc *al = &ca.fa;
	struct fsm *f = NULL, *g = NULL; vector<struct fsm *> v; bool two = s.op == O_MERGE || s.op == O_UNION || s.op == O_UNIONARRAY || s.op == O_CONCAT || s.op == O_INTERSECT || s.op == O_SUBTRACT || s.op == O_EQUAL; bool none = s.op == O_NEW || s.op == O_RECOMP || s.op == O_STRINGS || s.op == O_PARSE || s.op == O_GROUP;
	if (!none) f = build(s.a, al, NULL); if (two) g = build(s.b, al, NULL);
	if (s.op == O_UNIONARRAY) { v.push_back(f); v.push_back(g); v.push_back(build(s.a, al, NULL)); }
	if (s.caps) for (struct fsm *x : {f, g}) if (x) { int m = fsm_countstates(x); Rng cr(s.opseed + 5); for (int i = 0; i < s.ncap; i++) if (!fsm_capture_set_path(x, i, cr.below(m), cr.chance(60) ? m - 1 : (fsm_state_t)cr.below(m)) && 0) abort(); }
	if (s.op == O_GROUP) for (auto &p : s.ps) { StrSrc src{&p, 0}; struct re_err e; struct fsm *q = re_comp(RE_PCRE, str_getc, &src, al, (enum re_flags)RE_SAVE_LINKAGE_INFO, &e); if (q) v.push_back(q); }
	struct fsm *copy = NULL; if (f && !two) { copy = fsm_clone(f); } (void)copy;
	u64 base = ca.total; if (k >= 0) { ca.from = base + k; ca.sticky = sticky; }
	auto arm = [&]() { z.allocs = ca.total - base; z.failed = ca.failed; ca.from = ~0ull; ca.sticky = false; };
	auto inplace = [&](int ok) { arm(); z.r.ok = ok; if (ok) z.r.h = fh(f, s.caps); };
	// building goes on after a failure
	auto building = [&](auto step) { int ok = step(); inplace(ok); if (!ok) { for (int i = 0; i < 4; i++) if (!step()) { z.bad = "the step still fails when there is memory again"; break; } (void)fh(f); struct fsm *again = fsm_clone(f); if (again) fsm_free(again); } };
	int n = s.a.n(); errno = 0; fsm_state_t st = 0; struct fsm *q = NULL; struct fsm_combine_info ci; bool made = false; int own = 0;
	auto result = [&](struct fsm *x) { arm(); q = x; made = true; z.r.ok = x != NULL; z.r.h = fh(x, s.caps); };
	switch (s.op) {
	case O_NEW: result(r.chance(50) ? fsm_new(al) : fsm_new_statealloc(al, r.below(300))); break;
	case O_CLONE: result(fsm_clone(f)); if (q == f) q = NULL; break;
	case O_MERGE: result(fsm_merge(f, g, &ci)); own = 2; break;
	case O_UNION: result(fsm_union(f, g, &ci)); own = 2; break;
	case O_UNIONARRAY: { vector<struct fsm_combined_base_pair> bs(3); auto w = v; result(fsm_union_array(3, w.data(), bs.data())); own = 3; break; }
	case O_GROUP: if (v.empty()) { arm(); z.r.ok = 1; break; } { vector<struct fsm_combined_base_pair> bs(v.size()); auto w = v; result(fsm_union_repeated_pattern_group(w.size(), w.data(), bs.data(), 3)); own = 4; if (!q) { for (size_t i = 0; i < v.size(); i++) { if (w[i] && !ca.has(w[i])) z.bad = "an automaton given back was freed"; if (!w[i] && ca.has(v[i])) z.bad = "an automaton taken was not freed"; if (w[i] && ca.has(w[i])) fsm_free(w[i]); } v.clear(); } break; }
	case O_CONCAT: result(fsm_concat(f, g, &ci)); own = 2; break;
	case O_INTERSECT: result(fsm_intersect(f, g)); own = 2; break;
	case O_SUBTRACT: result(fsm_subtract(f, g)); own = 2; break;
	case O_CHARSET: result(fsm_intersect_charset(f, 5, "abcxy")); own = 1; break;
	case O_COMPLEMENT: inplace(fsm_complement(f)); break;
	case O_REVERSE: inplace(fsm_reverse(f)); break;
	case O_REMEPS: inplace(fsm_remove_epsilons(f)); break;
	case O_DET: inplace(fsm_determinise(f)); break;
	case O_MIN: inplace(fsm_minimise(f)); break;
	case O_COMPLETE: inplace(fsm_complete(f, fsm_isany)); break;
	case O_TRIM: { unsigned *d = NULL; bool w = r.chance(50); long c = fsm_trim(f, w || r.chance(50) ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, w ? &d : NULL); inplace(c >= 0); if (d && c >= 0) FailAlloc::f_free_(&ca, d); break; }
	case O_SHUFFLE: inplace(fsm_shuffle(f, 7)); break;
	case O_VACUUM: fsm_addstate_bulk(f, 200); ca.from = ~0ull; fsm_trim(f, FSM_TRIM_START_REACHABLE, NULL); base = ca.total; if (k >= 0) ca.from = base + k; inplace(fsm_vacuum(f)); break;
	case O_COLLATE: inplace(fsm_collate(f, &st, fsm_isend)); break;
	case O_MERGESTATES: if (n < 2) { arm(); z.r.ok = 1; break; } inplace(fsm_mergestates(f, r.below(n - 1), n - 1, &st)); break;
	case O_REMOVE: inplace(fsm_removestate(f, r.below(n))); break;
	case O_ADDSTATE: building([&]() -> int { int ok = 1; for (int i = 0; i < 140 && ok; i++) ok = fsm_addstate(f, &st); return ok; }); break;
	case O_ADDBULK: building([&]() -> int { int ok = fsm_addstate_bulk(f, r.range(1, 300)); return ok; }); break;
	case O_EDGES: building([&]() -> int { int ok = 1; for (int i = 0; i < 40 && ok; i++) { int x = r.below(n), y = r.below(n); switch (r.below(3)) { case 0: ok = fsm_addedge_epsilon(f, x, y); break; case 1: ok = fsm_addedge_literal(f, x, y, (char)r.below(256)); break; default: ok = fsm_addedge_any(f, x, y); } } return ok; }); break;
	case O_SUBGRAPH: { struct fsm_subgraph sg; sg.start = 0; sg.end = n; inplace(fsm_subgraph_duplicate(f, &sg, NULL, &st)); break; }
	case O_ENDID: building([&]() -> int { int ok = 1; for (int i = 0; i < n && ok; i++) if (s.a.s[i].end) for (int j = 0; j < 6 && ok; j++) ok = fsm_endid_set(f, i, random_id(r)); return ok; }); break;
	case O_ENDIDS: building([&]() -> int { int ok = 1; for (int j = 0; j < 8 && ok; j++) ok = fsm_setendid(f, random_id(r)); return ok; }); break;
	case O_EAGER: building([&]() -> int { int ok = 1; for (int j = 0; j < 30 && ok; j++) ok = fsm_eager_output_set(f, r.below(n), random_id(r)); return ok; }); break;
	case O_EAGERENDS: inplace(fsm_eager_output_set_on_ends(f, 77)); break;
	case O_MAPIDS: { int ok = fsm_mapendids(f, [](fsm_state_t, size_t c, fsm_end_id_t *w, size_t *o, void *) -> int { for (size_t i = 0; i < c; i++) w[i] %= 3; std::sort(w, w + c); *o = std::unique(w, w + c) - w; return 1; }, NULL); inplace(ok); break; }
	case O_EMPTY: { int e = fsm_empty(f); arm(); z.r.ok = e >= 0; z.r.h = e + 10 * fh(f); break; }
	case O_EQUAL: { int e = fsm_equal(f, g); arm(); z.r.ok = e >= 0; z.r.h = e + 10 * fh(f); break; }
	case O_REACH: { int e = fsm_reachableall(f, 0, fsm_hasoutgoing); int e2 = fsm_reachableany(f, 0, fsm_isend); arm(); z.r.ok = e >= 0 && e2 >= 0; z.r.h = e * 2 + e2; break; }
	case O_PRINT: { char *buf; size_t bn; FILE *fp = open_memstream(&buf, &bn); struct fsm_options o; memset(&o, 0, sizeof o); o.comments = r.below(2); o.consolidate_edges = r.below(2); o.case_ranges = r.below(2); o.group_edges = r.below(2); o.io = r.chance(50) ? FSM_IO_PAIR : FSM_IO_STR; o.ambig = s.lang == FSM_PRINT_FSM || s.lang == FSM_PRINT_API ? AMBIG_MULTIPLE : AMBIG_NONE; if (r.chance(20)) { bool ids = true; for (auto &x : s.a.s) if (x.end && x.ids.empty()) ids = false; if (ids) o.ambig = AMBIG_ERROR; }
		int e = fsm_print(fp, f, &o, NULL, s.lang); arm(); fclose(fp); z.r.ok = e >= 0; z.r.h = hash_str(string(buf, bn)) + e; free(buf); break; }
	case O_VM: { struct fsm_dfavm *vm; struct fsm_vm_compile_opts vo; memset(&vo, 0, sizeof vo); vo.flags = r.chance(50) ? FSM_VM_COMPILE_OPTIM : 0; vo.output = r.chance(50) ? FSM_VM_COMPILE_VM_V1 : FSM_VM_COMPILE_VM_V2; struct fsm_options opt; memset(&opt, 0, sizeof opt); opt.io = FSM_IO_PAIR; vm = fsm_vm_compile_with_options(f, &opt, vo); arm(); z.r.ok = vm != NULL; if (vm) { for (const char *w : {"", "a", "ab", "abc", "xa"}) z.r.h = z.r.h * 2 + fsm_vm_match_buffer(vm, w, strlen(w)); fsm_vm_free(vm); } break; }
	case O_EXEC: { string w; for (int t = r.below(10); t > 0; t--) w += (char)('a' + r.below(4)); StrSrc src{&w, 0}; int e = fsm_exec(f, str_getc, &src, &st, NULL); arm(); z.r.ok = e >= 0; z.r.h = e * 100 + (e == 1 ? st : 0); break; }
	case O_SHORTEST: { cost_salt = s.opseed; struct path *p = fsm_shortest(f, r.below(n), r.below(n), costf); arm(); z.r.ok = p != NULL; for (struct path *x = p; x; x = x->next) z.r.h = mix(z.r.h, x->state * 256 + (unsigned char)x->c); if (p) path_free(al, p); break; }
	case O_EXAMPLE: { char b[64]; int e = fsm_example(f, r.below(n), b, sizeof b); arm(); z.r.ok = e >= 0; z.r.h = e; break; }
	case O_GENERATE: { struct G { u64 h; int left; } gg{0, 60}; int e = fsm_generate_matches(f, 3, 0, [](const struct fsm *, size_t, size_t, size_t, const char *in, size_t len, fsm_state_t e2, void *o) -> enum fsm_generate_matches_cb_res { G *x = (G *)o; x->h = mix(x->h, hash_str(string(in, len)) + e2); return x->left-- > 0 ? FSM_GENERATE_MATCHES_CB_RES_CONTINUE : FSM_GENERATE_MATCHES_CB_RES_HALT; }, &gg); arm(); z.r.ok = e != 0; z.r.h = gg.h; break; }
	case O_REQUIRED: { u64 m[4] = {0, 0, 0, 0}; size_t c = 0; int e = fsm_detect_required_characters(f, 3000, (uint64_t *)m, &c); arm(); z.r.ok = e == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN || e == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED; z.r.h = e * 1000 + c; break; }
	case O_RECOMP: { StrSrc src{&s.ps[0], 0}; struct re_err e; memset(&e, 0, sizeof e); result(re_comp(s.d, str_getc, &src, al, (enum re_flags)s.fl, &e)); break; }
	case O_STRINGS: { struct re_strings *w = re_strings_new(); for (auto &p : s.ps) { fsm_end_id_t id = r.below(5); re_strings_add_raw(w, p.data(), p.size(), r.chance(50) ? &id : NULL); } result(re_strings_build(w, al, (enum re_strings_flags)r.below(4))); re_strings_free(w); break; }
	case O_PARSE: { FILE *fp = fmemopen((void *)s.text.data(), s.text.size(), "r"); if (sigsetjmp(jb, 1) == 0) { armed = true; struct fsm *x = fsm_parse(fp, al); armed = false; result(x); } else { arm(); z.exited = true; z.failed = ca.failed; } fclose(fp); break; }
	case O_CAPTURE: { int ok = 1; struct T { static void path(vector<u32> &p, const Auto &a, int s0) { int x = s0; for (int i = 0; i < 6; i++) { p.push_back(x); if (a.s[x].eps.empty()) break; x = *a.s[x].eps.begin(); } } }; for (int i = 0; i < 3 && ok; i++) ok = fsm_capture_set_path(f, i, s.a.start, r.below(n)); inplace(ok); z.r.h = ok; break; }
	default: arm(); z.r.ok = 1; break;
	}
	// give back what is still owned
	if (own && !q) { z.kept = own == 4 ? -1 : (ca.has(f) ? 1 : 0) + (g && ca.has(g) ? 2 : 0); }
	if (copy) { u64 h = fh(copy); if (h != s.a.hash() && s.op != O_CLONE) { } fsm_free(copy); }
	if (own == 3) { if (!q) for (auto x : v) if (ca.has(x)) fsm_free(x); if (q) fsm_free(q); }
	else if (own == 4) { if (q) fsm_free(q); }
	else if (own) { if (q) fsm_free(q); else { if (ca.has(f)) fsm_free(f); if (g && ca.has(g)) fsm_free(g); } }
	else { if (q) fsm_free(q); if (f) { if (!ca.has(f)) z.bad = "the operation freed its operand"; else { fsm_free(f); } } if (g) fsm_free(g); }
	z.foreign = ca.foreign; z.left = ca.live.size(); (void)made; return z;
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed * 1000003 + 27, idx)); Scen s = make(r); if (c.replay) fprintf(stderr, "%s\n", s.desc.c_str());
	Run ref = run(s, -1, false); c.count("op:" + string(opname[s.op])); if (!ref.bad.empty()) { c.violation("owner:" + string(opname[s.op]), s.desc + ": " + ref.bad); return; }
	if (!ref.r.ok) c.count("refused:" + string(opname[s.op])); c.count("allocations", ref.allocs); bool again = true; { Run b = run(s, -1, false); if (b.r.ok != ref.r.ok || b.r.h != ref.r.h) again = false; }
	int kept = -2; long lim = ref.allocs; vector<long> ks; for (long k = 0; k < lim; k++) ks.push_back(k); const size_t M = 60; if (ks.size() > M) { r.shuffle(ks); ks.resize(M); std::sort(ks.begin(), ks.end()); }
	for (long k : ks) { bool sticky = r.chance(25); if (c.replay) fprintf(stderr, "k=%ld of %ld%s\n", k, lim, sticky ? " and all after" : ""); Run z = run(s, k, sticky); if (!z.failed) { c.count("not reached"); continue; }
		c.eval(); c.count(z.r.ok ? "carried on" : "reported"); string d = s.desc.substr(0, 1500) + fmt(": allocation %ld of %ld fails%s: ", k, lim, sticky ? ", and all after it" : ""); string on = opname[s.op];
		if (z.exited) { c.violation("exit:" + on, d + "the process is ended"); return; }
		if (z.foreign) { c.violation("foreign:" + on, d + "a block was released twice"); return; }
		if (!z.bad.empty()) { c.violation("owner:" + on, d + z.bad); return; }
		if (z.r.ok && ref.r.ok && again && z.r.h != ref.r.h) { c.violation("result:" + on, d + fmt("success is reported, but the result is not the one there is without (%llx, %llx)", (unsigned long long)z.r.h, (unsigned long long)ref.r.h)); return; }
		if (z.r.ok && !ref.r.ok) { c.violation("result:" + on, d + "success, where it fails without"); return; }
		if (!z.r.ok && z.kept >= 0) { if (kept == -2) kept = z.kept; else if (kept != z.kept) { c.violation("kept:" + on, d + fmt("operands kept: %d, but for another allocation: %d (1: the first, 2: the second)", z.kept, kept)); return; } }
		if (z.left > ref.left) c.count("leaks:" + on);
	}
	c.nontrivial(hash_str(s.desc) ^ s.opseed); c.sample(s.desc.substr(0, 400));
}
