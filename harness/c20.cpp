// C20: random histories of API calls over a pool of automata that live in different allocators.
#define VF_MAIN
#include "common.hpp"
extern "C" {
#include <fsm/subgraph.h>
#include <fsm/capture.h>
#include <fsm/cost.h>
#include <fsm/options.h>
#include <fsm/print.h>
#include <fsm/parser.h>
#include <fsm/vm.h>
#include <adt/path.h>
#include <re/re.h>
#include <re/literal.h>
#include <re/strings.h>
}
const char *harness_name = "c20";
#ifdef VF_THREADS // histories that run in threads (C28): the process's memory is not theirs alone
static size_t now_bytes() { return 0; }
#else
static void perturb() {}
#define thread_local
static size_t now_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
#endif
// An allocator whose blocks carry its mark: a block given to another allocator, or to free(), is noticed.
struct TagAlloc {
	struct Hdr { u64 magic; u32 size; u32 who; };
	static const u64 MAGIC = 0x5eedf00dcafe1234ull;
	struct fsm_alloc fa; u32 who; size_t live = 0, bytes = 0; u64 total = 0; vector<string> *bad;
	void *get(size_t s, bool zero) { perturb(); Hdr *h = (Hdr *)::malloc(sizeof(Hdr) + s); if (!h) abort(); h->magic = MAGIC; h->size = (u32)s; h->who = who; memset(h + 1, zero ? 0 : 0xA5, s); live++; bytes += s + sizeof(Hdr); total++; return h + 1; }
	bool mine(void *p, const char *op) { Hdr *h = (Hdr *)p - 1; if (h->magic != MAGIC || h->who != who) { bad->push_back(fmt("%s given a block of another allocator (%u given a block of %u)", op, who, h->magic == MAGIC ? h->who : 999)); return false; } return true; }
	void put(void *p) { Hdr *h = (Hdr *)p - 1; live--; bytes -= h->size + sizeof(Hdr); h->magic = 0; ::free(h); }
	static void f_free_(void *o, void *p) { TagAlloc *t = (TagAlloc *)o; if (p && t->mine(p, "free")) t->put(p); }
	static void *f_calloc_(void *o, size_t n, size_t s) { return ((TagAlloc *)o)->get(n * s, true); }
	static void *f_malloc_(void *o, size_t s) { return ((TagAlloc *)o)->get(s, false); }
	static void *f_realloc_(void *o, void *p, size_t s) { TagAlloc *t = (TagAlloc *)o; void *q = t->get(s, false); if (!p) return q; if (!t->mine(p, "realloc")) return q; Hdr *h = (Hdr *)p - 1; memcpy(q, p, h->size < s ? h->size : s); t->put(p); return q; }
	void init(u32 w, vector<string> *b) { who = w; bad = b; memset(&fa, 0, sizeof fa); fa.free = f_free_; fa.calloc = f_calloc_; fa.malloc = f_malloc_; fa.realloc = f_realloc_; fa.opaque = this; }
};
static const char *const pats[] = {"abc", "a|b", "^abc$", "(a|b)*c", "[a-f]+", "x{2,4}y", "^a", "b$", "", "a?b?c?", "(?:ab|cd)+e", ".*x", "[^a-z]{3}", "a.c", "^(a|bc|)d*$", "a(", "[z-a]", "(?i)Q", "\\d+\\.\\d*", "^$", "a^b", "()", "a**", "ab$|cd", "(^a|b)c"};
enum { CAP = 64 }; // most states an operand may have
struct O { struct fsm *f = nullptr; int al = 0; bool linkage = false; };
static thread_local u64 cost_salt; static unsigned costf(fsm_state_t a, fsm_state_t b, char ch) { return (unsigned)(mix(mix(a, b) ^ cost_salt, (unsigned char)ch) % 9); }
static int pred_end(const struct fsm *f, fsm_state_t s) { return fsm_isend(f, s); }
struct H {
	Ctx &c; Rng r; TagAlloc ta[4]; vector<string> badblocks; vector<O> o; string log; bool stop = false; bool captures; int opno = 0;
	H(Ctx &c_, u64 s) : c(c_), r(s) { for (int i = 0; i < 4; i++) ta[i].init(i, &badblocks); captures = false; }
	const struct fsm_alloc *al(int k) { return k ? &ta[k].fa : NULL; }
	void note(const char *f_, ...) { char b[200]; va_list ap; va_start(ap, f_); vsnprintf(b, sizeof b, f_, ap); va_end(ap); log += b; log += "; "; }
	string tail() { return log.size() > 1500 ? "..." + log.substr(log.size() - 1500) : log; }
	void bad(const string &k, const string &why) { stop = true; c.violation(k, why + "\nhistory: " + tail()); }
	void put(struct fsm *f, int a, bool link = false) { O x; x.f = f; x.al = a; x.linkage = link; o.push_back(x); }
	void drop(int i) { o.erase(o.begin() + i); }
	static bool isdfa(const struct fsm *f) { fsm_state_t s; return fsm_getstart(f, &s) && fsm_all(f, fsm_isdfa); }
	// how many states a determinised copy has; 0: too many
	static size_t detsize(const struct fsm *f) { Auto a = snapshot(f); Dfa d; if (a.start < 0 || !model_dfa(a, OUT_END | OUT_IDS | OUT_EAGER, d, 200, 60000)) return 0; return d.n() + 1; }
	struct fsm *fresh(int a) {
		switch (r.below(7)) {
		case 0: { note("new@%d", a); return r.chance(50) ? fsm_new(al(a)) : fsm_new_statealloc(al(a), r.below(200)); }
		case 1: case 2: { GenOpt g; g.maxn = 12; g.ids = r.chance(50); g.eager = r.chance(25); g.dfa = r.chance(50); g.eps = !g.dfa; Auto m = random_auto(r, g); note("random@%d n=%d%s", a, m.n(), g.dfa ? " dfa" : ""); return build(m, al(a), &r); }
		case 3: { static const struct { enum re_dialect d; } ds[] = {{RE_PCRE}, {RE_NATIVE}, {RE_GLOB}, {RE_LIKE}, {RE_SQL}, {RE_LITERAL}}; int k = r.chance(60) ? 0 : r.below(6); string p = pats[r.below(sizeof pats / sizeof *pats)]; if (r.chance(30)) p += pats[r.below(sizeof pats / sizeof *pats)];
			unsigned fl = (r.chance(20) ? RE_ICASE : 0) | (r.chance(20) ? RE_SINGLE : 0) | (r.chance(15) ? RE_ANCHORED : 0) | (r.chance(15) ? RE_EXTENDED : 0) | (r.chance(10) ? RE_REVERSE : 0) | (r.chance(10) ? RE_END_NL : 0) | (r.chance(30) ? RE_SAVE_LINKAGE_INFO : 0);
			note("re_comp@%d d=%d f=%x %s", a, k, fl, esc(p).c_str()); StrSrc s{&p, 0}; struct re_err e; struct fsm *f = re_comp(ds[k].d, str_getc, &s, al(a), (enum re_flags)fl, &e); c.count(f ? "re-ok" : "re-refused"); return f; }
		case 4: { vector<string> w; int n = r.range(1, 6); for (int i = 0; i < n; i++) { string x; int l = r.below(5); for (int j = 0; j < l; j++) x += (char)('a' + r.below(3)); w.push_back(x); } unsigned fl = r.below(4);
			if (r.chance(40)) { vector<const char *> v; for (auto &x : w) v.push_back(x.c_str()); note("re_strings@%d", a); return re_strings(al(a), v.data(), v.size(), (enum re_strings_flags)fl); }
			struct re_strings *g = re_strings_new(); if (!g) abort(); for (auto &x : w) { fsm_end_id_t id = r.below(5); if (!re_strings_add_raw(g, x.data(), x.size(), r.chance(50) ? &id : NULL)) abort(); } note("re_strings_build@%d", a); struct fsm *f = r.chance(92) ? re_strings_build(g, al(a), (enum re_strings_flags)fl) : NULL; re_strings_free(g); return f; }
		case 5: { if (o.empty()) return fsm_new(al(a)); int i = r.below(o.size()); if (fsm_countstates(o[i].f) > 3 * CAP) return fsm_new(al(a)); note("print+parse %d@%d", i, a); string t = printed(o[i].f, FSM_PRINT_FSM); FILE *fp = t.empty() ? NULL : fmemopen((void *)t.data(), t.size(), "r"); if (!fp) return NULL; struct fsm *f = fsm_parse(fp, al(a)); fclose(fp); if (!f) bad("parse", "fsm_parse refused printed text " + t); return f; }
		default: { if (o.empty()) return fsm_new(al(a)); int i = r.below(o.size()); a = o[i].al; note("clone %d", i); struct fsm *f = fsm_clone(o[i].f); if (f) put(f, a); return NULL; }
		}
	}
	string printed(const struct fsm *f, enum fsm_print_lang l) {
		char *buf = nullptr; size_t n = 0; FILE *fp = open_memstream(&buf, &n); if (!fp) abort(); struct fsm_options opt; memset(&opt, 0, sizeof opt); opt.anonymous_states = r.below(2); opt.consolidate_edges = r.below(2); opt.fragment = r.below(2); opt.comments = r.below(2) && (u64)fsm_countedges(f) * fsm_countstates(f) < 20000; opt.case_ranges = r.below(2); opt.always_hex = r.below(2); opt.group_edges = r.below(2); opt.prefix = r.chance(50) ? "p_" : NULL;
		opt.io = (enum fsm_io)r.below(3); static const enum fsm_ambig am[] = {AMBIG_NONE, AMBIG_ERROR, AMBIG_EARLIEST, AMBIG_MULTIPLE}; opt.ambig = l == FSM_PRINT_FSM || l == FSM_PRINT_API ? AMBIG_MULTIPLE : am[r.below(4)];
		if (l == FSM_PRINT_FSM) { opt.fragment = 0; opt.group_edges = 0; }
		if (opt.ambig == AMBIG_ERROR || opt.ambig == AMBIG_EARLIEST) for (int i = 0; i < (int)fsm_countstates(f); i++) if (fsm_isend(f, i) && !fsm_endid_count(f, i)) opt.ambig = AMBIG_NONE; // a single id needs one
		if (opt.io == FSM_IO_GETC && l != FSM_PRINT_C && l != FSM_PRINT_VMC && l != FSM_PRINT_LLVM && l != FSM_PRINT_RUST) opt.io = FSM_IO_PAIR;
		struct fsm_hooks hk; memset(&hk, 0, sizeof hk); hk.conflict = [](FILE *, const struct fsm_options *, const struct fsm_state_metadata *, const char *, void *o) -> int { return *(int *)o; }; int hv = r.chance(15) ? -1 : 0; hk.hook_opaque = &hv;
		int k = fsm_print(fp, f, &opt, opt.ambig == AMBIG_ERROR && r.chance(60) ? &hk : NULL, l); fclose(fp); string t(buf, n); free(buf); c.count(k == 0 ? "print-ok" : "print-refused"); return k == 0 ? t : ""; }
	void step();
	void run(int n) {
		size_t g0 = now_bytes(); for (int k = 0; k < n && !stop; k++) { opno = k; step(); check(); }
		begin("free-all", ~0u); while (!o.empty()) { int i = r.below(o.size()); fsm_free(o[i].f); drop(i); }
		if (!stop) { check(); for (int k = 1; k < 4; k++) if (ta[k].live) bad("kept", fmt("%zu blocks (%zu bytes) of allocator %d remain after every automaton was freed", ta[k].live, ta[k].bytes, k)); }
		if (!stop && !badblocks.empty()) bad("foreign", badblocks[0]);
		endbytes = now_bytes() - g0;
	}
	size_t endbytes = 0; size_t lastlive[4] = {0, 0, 0, 0};
	unsigned touched = 0; size_t outside0 = 0; string opname;
	size_t outside() { size_t b = now_bytes(); for (int k = 1; k < 4; k++) b -= ta[k].bytes; return b; }
	void begin(const char *name, unsigned mask) { opname = name; touched = mask; outside0 = outside(); for (int k = 1; k < 4; k++) lastlive[k] = ta[k].live; }
	void check() {
		c.eval(); c.count("op:" + opname);
		if (!badblocks.empty()) return bad("foreign:" + opname, badblocks[0]);
		for (int k = 1; k < 4; k++) if (!(touched & (1u << k)) && ta[k].live != lastlive[k]) return bad("other:" + opname, fmt("allocator %d, which no operand of %s uses, went from %zu to %zu blocks", k, opname.c_str(), lastlive[k], ta[k].live));
		if (!(touched & 1) && now_bytes() && outside() != outside0) { c.count("outside"); pend.push_back({opname, (long)(outside() - outside0)}); }
		bool any[4] = {false, false, false, false}; for (auto &x : o) any[x.al] = true; for (int k = 1; k < 4; k++) if (!any[k] && ta[k].live) return bad("kept:" + opname, fmt("%zu blocks of allocator %d remain, and no automaton uses it", ta[k].live, k));
	}
	vector<std::pair<string, long>> pend;
};
void H::step() {
	if (o.empty() || (o.size() < 6 && r.chance(22))) { int a = r.chance(20) ? 0 : r.range(1, 3); size_t before = o.size(); begin("create", ~0u); unsigned m = 1u << a; if (o.empty()) touched = m; struct fsm *f = fresh(a); if (o.size() != before) return; if (f) { if (fsm_countstates(f) > 3 * CAP) fsm_free(f); else put(f, a); } return; }
	int i = r.below(o.size()); struct fsm *f = o[i].f; int a = o[i].al; unsigned m = 1u << a; int n = fsm_countstates(f); fsm_state_t st; bool hasstart = fsm_getstart(f, &st);
	if (n > CAP && !r.chance(30)) { begin("free", m); note("free %d", i); fsm_free(f); drop(i); return; }
	vector<int> same; for (int k = 0; k < (int)o.size(); k++) if (k != i && o[k].al == a) same.push_back(k);
	int j = same.empty() ? -1 : same[r.below(same.size())]; struct fsm *g = j >= 0 ? o[j].f : NULL; int x = n ? (int)r.below(n) : 0, y = n ? (int)r.below(n) : 0;
	int op = r.below(118);
	auto combined = [&](struct fsm *q) { int lo = std::min(i, j), hi = std::max(i, j); drop(hi); drop(lo); if (q) put(q, a); };
	if (op < 4) { begin("free", m); note("free %d", i); fsm_free(f); drop(i); return; }
	if (op < 8) { begin("clone", m); note("clone %d", i); struct fsm *q = fsm_clone(f); if (!q) return bad("clone", "fsm_clone failed"); if (o.size() < 8) put(q, a); else fsm_free(q); return; }
	if (op < 11) { if (!g) return begin("none", 0); begin("move", m); note("move %d<-%d", i, j); fsm_move(f, g); o[i].linkage = o[j].linkage; drop(j); return; }
	if (op < 15) { if (!g) return begin("none", 0); begin("merge", m); note("merge %d,%d", i, j); struct fsm_combine_info ci; memset(&ci, 0, sizeof ci); struct fsm *q = fsm_merge(f, g, &ci); if (!q) return bad("merge", "fsm_merge failed"); if (fsm_countstates(q) && r.chance(70)) fsm_setstart(q, r.below(fsm_countstates(q))); return combined(q); }
	if (op < 21) { if (!g) { // different allocators: refused, both freed
			if (o.size() >= 2 && r.chance(20)) { j = (i + 1) % (int)o.size(); begin("union-mixed", m | 1u << o[j].al); note("union-mixed %d,%d", i, j); struct fsm *q = fsm_union(f, o[j].f, NULL); if (q) return bad("union-mixed", "fsm_union accepted automata of two allocators"); return combined(NULL); }
			return begin("none", 0); }
		begin("union", m); note("union %d,%d", i, j); struct fsm_combine_info ci; struct fsm *q = fsm_union(f, g, r.chance(50) ? &ci : NULL); c.count(q ? "union-ok" : "union-refused"); return combined(q); }
	if (op < 26) { if (!g || !hasstart || !fsm_has(f, fsm_isend)) return begin("none", 0); fsm_state_t s2; if (!fsm_getstart(g, &s2)) return begin("none", 0); begin("concat", m); note("concat %d,%d", i, j); struct fsm_combine_info ci; struct fsm *q = fsm_concat(f, g, r.chance(50) ? &ci : NULL); if (!q) return bad("concat", "fsm_concat failed"); return combined(q); }
	if (op < 30) { if (o.size() < 2 || same.empty()) return begin("none", 0); begin("union_array", m); vector<int> idx = same; idx.push_back(i); r.shuffle(idx); int k = r.range(1, (int)idx.size()); idx.resize(k); vector<struct fsm *> v; for (int t : idx) v.push_back(o[t].f); vector<struct fsm_combined_base_pair> bases(k); note("union_array of %d", k); struct fsm *q = fsm_union_array(k, v.data(), r.chance(50) ? bases.data() : NULL); std::sort(idx.rbegin(), idx.rend()); for (int t : idx) drop(t); if (q) put(q, a); return; }
	if (op < 38) { if (!g) return begin("none", 0); size_t p = detsize(f), q2 = detsize(g); if (!p || !q2 || p * q2 > 4000) return begin("none", 0); bool sub = r.chance(50); begin(sub ? "subtract" : "intersect", m); note("%s %d,%d", opname.c_str(), i, j); struct fsm *q = sub ? fsm_subtract(f, g) : fsm_intersect(f, g); if (!q) return bad(opname, "failed"); return combined(q); }
	if (op < 41) { size_t p = detsize(f); if (!p) return begin("none", 0); begin("complement", m); note("complement %d", i); if (!fsm_complement(f)) bad("complement", "failed"); o[i].linkage = false; return; }
	if (op < 43) { if (!isdfa(f)) return begin("none", 0); begin("charset", m); note("charset %d", i); char cs[40]; int k = r.below(sizeof cs); for (int t = 0; t < k; t++) cs[t] = (char)(r.chance(70) ? 'a' + r.below(26) : r.below(256)); struct fsm *q = fsm_intersect_charset(f, k, cs); if (!q) return bad("charset", "failed"); o[i].f = q; o[i].linkage = false; return; }
	if (op < 46) { begin("reverse", m); note("reverse %d", i); if (!fsm_reverse(f)) bad("reverse", "failed"); return; }
	if (op < 49) { begin("remove_epsilons", m); note("remove_epsilons %d", i); if (!fsm_remove_epsilons(f) && hasstart) bad("remove_epsilons", "failed"); return; }
	if (op < 56) { if (!detsize(f)) return begin("none", 0); begin("determinise", m); note("determinise %d", i); if (r.chance(30)) { struct fsm_determinise_config cf; memset(&cf, 0, sizeof cf); cf.state_limit = r.below(20); enum fsm_determinise_with_config_res k = fsm_determinise_with_config(f, &cf); c.count(k == FSM_DETERMINISE_WITH_CONFIG_OK ? "limit-ok" : "limit-reached"); if (k == FSM_DETERMINISE_WITH_CONFIG_ERRNO) bad("determinise", "failed"); } else if (!fsm_determinise(f)) bad("determinise", "failed"); o[i].linkage = false; return; }
	if (op < 61) { if (!isdfa(f)) return begin("none", 0); begin("minimise", m); note("minimise %d", i); if (!fsm_minimise(f)) bad("minimise", "failed"); return; }
	if (op < 63) { if (!isdfa(f)) return begin("none", 0); begin("complete", m); note("complete %d", i); if (!fsm_complete(f, fsm_isany)) bad("complete", "failed"); return; }
	if (op < 67) { begin("trim", m); note("trim %d", i); unsigned *d = NULL; bool w = r.chance(40); enum fsm_trim_mode md = r.chance(60) ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE; long k = fsm_trim(f, md, w && md == FSM_TRIM_START_AND_END_REACHABLE ? &d : NULL); if (k < 0) bad("trim", "failed"); if (d) { if (a) TagAlloc::f_free_(&ta[a], d); else free(d); } return; }
	if (op < 69) { begin("shuffle", m); note("shuffle %d", i); if (!fsm_shuffle(f, (unsigned)r.next())) bad("shuffle", "failed"); o[i].linkage = false; return; }
	if (op < 71) { begin("vacuum", m); note("vacuum %d", i); if (!fsm_vacuum(f)) bad("vacuum", "failed"); return; }
	if (op < 80) { // edits
		int k = r.range(1, 6); begin("edit", m); note("edit %d", i);
		for (int t = 0; t < k; t++) { n = fsm_countstates(f); if (n == 0) { fsm_state_t z; if (!fsm_addstate(f, &z)) abort(); n = 1; } x = r.below(n); y = r.below(n); fsm_state_t z;
			switch (r.below(13)) {
			case 0: if (!fsm_addstate(f, &z)) bad("addstate", "failed"); break; case 1: if (!fsm_addstate_bulk(f, r.chance(10) ? 150 : r.below(6))) bad("addstate_bulk", "failed"); break;
			case 2: if (!fsm_addedge_epsilon(f, x, y)) bad("epsilon", "failed"); break; case 3: if (!fsm_addedge_any(f, x, y)) bad("any", "failed"); break;
			case 4: case 5: if (!fsm_addedge_literal(f, x, y, (char)r.below(256))) bad("literal", "failed"); break;
			case 6: fsm_setend(f, x, r.below(2)); break; case 7: fsm_setstart(f, x); break;
			case 8: if (n > 1 && !fsm_removestate(f, x)) bad("removestate", "failed"); break;
			case 9: if (n > 1 && x != y && !fsm_mergestates(f, x, y, &z)) bad("mergestates", "failed"); break;
			case 10: if (fsm_has(f, fsm_isend) && !fsm_collate(f, &z, r.chance(50) ? fsm_isend : pred_end)) bad("collate", "failed"); break;
			case 11: { struct fsm_subgraph sg; fsm_subgraph_start(f, &sg); int e = r.range(1, 4); for (int q = 0; q < e; q++) if (!fsm_addstate(f, &z)) abort(); for (int q = 0; q < e; q++) if (!fsm_addedge_literal(f, n + r.below(e), n + r.below(e), 'q')) abort(); if (r.chance(50) && !fsm_addedge_epsilon(f, n, n + e - 1)) abort(); fsm_subgraph_stop(f, &sg); fsm_state_t at = n; if (!fsm_subgraph_duplicate(f, &sg, &at, &z)) bad("subgraph", "failed"); break; }
			case 12: { struct fsm_subgraph sg; fsm_subgraph_start(f, &sg); fsm_subgraph_stop(f, &sg); fsm_eager_output_set_cb(f, [](fsm_output_id_t, void *) {}, NULL); break; } } }
		o[i].linkage = false; return; }
	if (op < 86) { begin("ids", m); note("ids %d", i); if (n == 0) return;
		for (int t = r.range(1, 10); t > 0; t--) switch (r.below(6)) { case 0: if (!fsm_setendid(f, random_id(r))) bad("setendid", "failed"); break; case 1: { x = r.below(n); if (fsm_isend(f, x) && !fsm_endid_set(f, x, random_id(r))) bad("endid_set", "failed"); break; }
			case 2: fsm_increndids(f, r.range(-3, 3)); break; case 3: if (!fsm_eager_output_set(f, r.below(n), random_id(r))) bad("eager", "failed"); break; case 4: if (r.chance(30) && !fsm_eager_output_set_on_ends(f, random_id(r))) bad("eager_on_ends", "failed"); break;
			case 5: if (r.chance(40) && !fsm_mapendids(f, [](fsm_state_t, size_t k, fsm_end_id_t *v, size_t *w, void *) -> int { for (size_t q = 0; q < k; q++) v[q] = v[q] % 7; std::sort(v, v + k); *w = std::unique(v, v + k) - v; return 1; }, NULL)) bad("mapendids", "failed"); break; }
		return; }
	if (op < 91) { begin("query", m); note("query %d", i); fsm_count(f, fsm_isend); fsm_has(f, fsm_hasepsilons); fsm_all(f, fsm_iscomplete); fsm_countedges(f); if (n) { fsm_reachableall(f, x, fsm_hasoutgoing); fsm_reachableany(f, x, fsm_isend); fsm_hasincoming(f, x); fsm_epsilonsonly(f, x); fsm_hasnondeterminism(f, x); unsigned fr; Auto s = snapshot(f); if (!s.s[x].e.empty() && s.s[x].e.size() < 250) { bool many = false; for (auto &e : s.s[x].e) for (auto &e2 : s.s[x].e) if (&e != &e2 && (e.second & e2.second).any()) many = true; if (!many) fsm_findmode(f, x, &fr); } }
		if (hasstart && fsm_empty(f) < 0) bad("empty", "failed"); if (g) { size_t p = detsize(f), q = detsize(g); if (p && q && p * q < 3000) if (fsm_equal(f, g) < 0) bad("equal", "failed"); } return; }
	if (op < 96) { if (n > 4 * CAP) return begin("none", 0); begin("print", m); enum fsm_print_lang l = (enum fsm_print_lang)r.range(FSM_PRINT_AMD64_ATT, FSM_PRINT_VMOPS_MAIN); bool any = l == FSM_PRINT_API || l == FSM_PRINT_DOT || l == FSM_PRINT_FSM || l == FSM_PRINT_JSON; if (!any && !isdfa(f)) { static const enum fsm_print_lang al[] = {FSM_PRINT_API, FSM_PRINT_DOT, FSM_PRINT_FSM, FSM_PRINT_JSON}; l = al[r.below(4)]; } note("print %d as %d", i, (int)l); printed(f, l); c.count(fmt("lang:%d", (int)l)); return; }
	if (op < 100) { if (!isdfa(f)) return begin("none", 0); begin("vm", m); note("vm %d", i); struct fsm_dfavm *vm; if (r.chance(40)) vm = fsm_vm_compile(f); else { struct fsm_vm_compile_opts vo; memset(&vo, 0, sizeof vo); vo.flags = r.chance(50) ? FSM_VM_COMPILE_OPTIM : 0; vo.output = r.chance(50) ? FSM_VM_COMPILE_VM_V1 : FSM_VM_COMPILE_VM_V2; struct fsm_options opt; memset(&opt, 0, sizeof opt); opt.ambig = AMBIG_MULTIPLE; opt.io = FSM_IO_PAIR; vm = fsm_vm_compile_with_options(f, &opt, vo); } if (!vm) { c.count("vm-refused"); return; } string w; for (int t = r.below(30); t > 0; t--) w += (char)(r.chance(70) ? 'a' + r.below(4) : r.below(256)); fsm_vm_match_buffer(vm, w.data(), w.size()); if (!w.empty()) { FILE *fp = fmemopen((void *)w.data(), w.size(), "r"); fsm_vm_match_file(vm, fp); fclose(fp); } fsm_vm_free(vm); return; }
	if (op < 104) { if (!isdfa(f)) return begin("none", 0); begin("exec", m); note("exec %d", i); string w; for (int t = r.below(30); t > 0; t--) w += (char)(r.chance(70) ? 'a' + r.below(4) : r.below(256)); fsm_state_t e; StrSrc s{&w, 0}; struct fsm_capture *cp = fsm_countcaptures(f) ? fsm_capture_alloc(f) : NULL; fsm_exec(f, str_getc, &s, &e, cp); free(cp); return; }
	if (op < 108) { Auto s = snapshot(f); if (n == 0 || n > 3 * CAP || fsm_has(f, fsm_hasepsilons)) return begin("none", 0); begin("paths", m); note("paths %d", i); char b[64]; cost_salt = r.next(); struct path *p = fsm_shortest(f, x, y, r.chance(50) ? fsm_cost_legible : costf); if (!p) bad("shortest", "failed"); else path_free(al(a), p); if (hasstart) { fsm_example(f, y, b, r.below(sizeof b)); if (fsm_all(f, fsm_isdfa)) { struct G { int left; } gg{40}; fsm_generate_matches(f, r.range(1, 4), r.below(2), [](const struct fsm *, size_t, size_t, size_t, const char *, size_t, fsm_state_t, void *o2) -> enum fsm_generate_matches_cb_res { G *q = (G *)o2; return q->left-- > 0 ? FSM_GENERATE_MATCHES_CB_RES_CONTINUE : FSM_GENERATE_MATCHES_CB_RES_HALT; }, &gg); } } return; }
	if (op < 111) { if (!isdfa(f) || fsm_empty(f)) return begin("none", 0); begin("required", m); note("required %d", i); u64 map[4]; size_t cnt; fsm_detect_required_characters(f, n <= 6 ? 0 : r.range(1, r.chance(50) ? 50 : 5000), (uint64_t *)map, &cnt); return; }
	if (op < 116) { // a group of patterns, built for the purpose
		begin("group", m); int k = r.range(1, 4); vector<struct fsm *> v; note("group of %d", k); bool spoil = r.chance(6);
		for (int t = 0; t < k; t++) { string p = pats[r.below(sizeof pats / sizeof *pats)]; StrSrc s{&p, 0}; struct re_err e; struct fsm *q = re_comp(RE_PCRE, str_getc, &s, al(a), (enum re_flags)(spoil && t == k - 1 ? 0 : RE_SAVE_LINKAGE_INFO), &e); if (q) { note("%s", esc(p).c_str()); v.push_back(q); } else spoil = false; }
		if (v.empty()) return; vector<struct fsm_combined_base_pair> bases(v.size()); struct fsm *q = fsm_union_repeated_pattern_group(v.size(), v.data(), r.chance(50) ? bases.data() : NULL, r.below(10));
		if (!q) { if (!spoil) return bad("group", "fsm_union_repeated_pattern_group failed"); c.count("group-refused"); for (auto z : v) fsm_free(z); return; }
		if (o.size() < 8 && fsm_countstates(q) < 3 * CAP) put(q, a); else fsm_free(q); return; }
	begin("analyse", m); string p = pats[r.below(sizeof pats / sizeof *pats)]; enum re_dialect d = (enum re_dialect)r.below(6); note("analyse %s", esc(p).c_str()); StrSrc s{&p, 0}; struct re_err e; enum re_literal_category cat; char *lit = NULL; size_t ln = 0; if (re_is_literal(d, str_getc, &s, (enum re_flags)0, &e, &cat, &lit, &ln) == 1) free(lit); s.i = 0; re_is_anchored(d, str_getc, &s, (enum re_flags)0, &e);
}
void run_case(Ctx &c, u64 idx) {
	u64 seed = mix(c.seed * 1000003 + 20, idx); int n; { Rng r(seed); n = r.chance(70) ? r.range(8, 40) : r.range(40, 120); }
	H h(c, seed); h.run(n); if (h.stop) return; c.nontrivial(hash_str(h.log)); c.sample(h.log.substr(0, 600)); c.count("blocks", h.ta[1].total + h.ta[2].total + h.ta[3].total);
	if (h.pend.empty() && !h.endbytes) return;
	// something kept outside the allocators: a first-use cost, or every time?
	bool fz = c.frozen; c.frozen = true; H h2(c, seed); h2.run(n); c.frozen = fz; if (h2.stop) return;
	if (h2.endbytes) c.violation("leak", fmt("%zd bytes remain allocated after every automaton was freed\nhistory: %s", (ssize_t)h2.endbytes, h2.tail().c_str()));
	for (auto &p : h2.pend) { c.violation("outside:" + p.first, fmt("%s kept (or released) %ld bytes outside the allocator of its operands\nhistory: %s", p.first.c_str(), p.second, h2.log.substr(0, 3000).c_str())); break; }
}
