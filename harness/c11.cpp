// C11: batches of DFAs are printed as source code for each executable target, built with that target's own tools and run;
// every verdict and reported id is compared with the reference automaton.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
#include <dlfcn.h>
#include <sys/wait.h>
extern "C" {
#include <fsm/options.h>
#include <fsm/print.h>
}
const char *harness_name = "c11";
enum Kind { K_C, K_VMC, K_VMOPS, K_ATT, K_NASM, K_LLVM, K_RUST, K_GO, K_GOASM, K_SH, K_AWK };
static const char *kname[] = {"c", "vmc", "vmops", "amd64_att", "amd64_nasm", "llvm", "rust", "go", "amd64_go", "sh", "awk"};
static const enum fsm_print_lang klang[] = {FSM_PRINT_C, FSM_PRINT_VMC, FSM_PRINT_VMOPS_C, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_NASM, FSM_PRINT_LLVM, FSM_PRINT_RUST, FSM_PRINT_GO, FSM_PRINT_AMD64_GO, FSM_PRINT_SH, FSM_PRINT_AWK};
static const char *ioname[] = {"getc", "str", "pair"};

struct M { Auto a; struct fsm_options o; string prefix, text; bool hooks = false, frag = false; vector<string> in; int k = 0; };
static const char *ambname(enum fsm_ambig a) { return a == AMBIG_NONE ? "none" : a == AMBIG_ERROR ? "error" : a == AMBIG_EARLIEST ? "earliest" : "multiple"; }
static string describe(Kind kind, const M &m) { return fmt("%s io=%s ambig=%s prefix=%s%s%s%s%s%s%s%s ", kname[kind], ioname[m.o.io], ambname(m.o.ambig), m.prefix.c_str(), m.o.comments ? " comments" : "", m.o.case_ranges ? " case_ranges" : "", m.o.always_hex ? " always_hex" : "", m.o.anonymous_states ? " anonymous" : "", m.o.consolidate_edges ? " consolidate" : "", m.hooks ? " hooks" : "", m.frag ? " fragment" : "") + m.a.text(1500); }

struct Conf { vector<vector<u32>> got; };
static int on_conflict(FILE *, const struct fsm_options *, const struct fsm_state_metadata *md, const char *, void *o) { ((Conf *)o)->got.push_back(vector<u32>(md->end_ids, md->end_ids + md->end_id_count)); return 0; }
static int h_accept(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *md, void *, void *) { fprintf(f, "return 1000 + %zu + %u;", md->end_id_count, md->end_id_count ? md->end_ids[0] % 100000 : 0); return 0; }
static int h_reject(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *, void *, void *) { fprintf(f, "return -7;"); return 0; }
static int h_comment(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *md, void *) { fprintf(f, "/* %zu ids */", md->end_id_count); return 0; }
static int h_comment_line(FILE *f, const struct fsm_options *, const struct fsm_state_metadata *md, void *o) { fprintf(f, "%s %zu ids", (const char *)o, md->end_id_count); return 0; }

static int print_text(const struct fsm *f, const struct fsm_options *o, const struct fsm_hooks *h, enum fsm_print_lang l, string &out) {
	char *buf = nullptr; size_t n = 0; FILE *fp = open_memstream(&buf, &n); if (!fp) abort(); int r = fsm_print(fp, f, o, h, l); fclose(fp); out.assign(buf, n); free(buf); return r;
}
static void write_file(const string &p, const string &t) { FILE *f = fopen(p.c_str(), "w"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size() || fclose(f)) { fprintf(stderr, "HARNESS cannot write %s\n", p.c_str()); _exit(3); } }
static string read_file(const string &p) { string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }

static Auto chain_auto(Rng &r, bool ids) { // literal runs, so that consecutive comparisons appear
	Auto a; a.start = a.add(); int q = a.start; int runs = r.range(1, 4); unsigned base = r.chance(75) ? 'a' : r.below(256);
	for (int k = 0; k < runs; k++) { int l = r.range(1, r.chance(30) ? 40 : 9); for (int i = 0; i < l; i++) { int t = a.add(); a.edge(q, t, r.chance(90) ? (base + r.below(4)) & 255 : r.below(256)); q = t; if (r.chance(6)) a.s[t].end = true; }
		int b = r.below(a.n()); if (r.chance(60)) { Sym used; for (auto &p : a.s[q].e) used = used | p.second; Sym y = random_sym(r, (int)r.below(8)) & ~used; if (y.any()) a.edge(q, b, y); } if (r.chance(50)) { q = r.below(a.n()); Sym used; for (auto &p : a.s[q].e) used = used | p.second; int t = a.add(); Sym y = random_sym(r, (int)r.below(8)) & ~used; if (y.any()) a.edge(q, t, y); q = t; } }
	a.s[q].end = true; for (auto &s : a.s) { Sym used; for (auto &p : s.e) { p.second = p.second & ~used; used = used | p.second; } s.e.erase(std::remove_if(s.e.begin(), s.e.end(), [](const std::pair<int, Sym> &p) { return !p.second.any(); }), s.e.end()); }
	if (ids) for (auto &s : a.s) if (s.end) { std::set<u32> z; int k = r.chance(60) ? 1 : r.range(1, 5); while (k--) z.insert(random_id(r)); s.ids.assign(z.begin(), z.end()); }
	return a;
}
static bool gen(Ctx &c, Rng &r, Kind kind, M &m) {
	GenOpt g; g.dfa = true; g.eps = false; g.ids = r.chance(75); g.nostart = false; g.maxn = r.range(1, kind <= K_VMOPS ? 14 : 9);
	memset(&m.o, 0, sizeof m.o);
	switch (r.weighted({55, 20, 15, 10})) {
	case 0: m.a = random_auto(r, g); break;
	case 1: m.a = chain_auto(r, g.ids); break;
	case 2: { g.dfa = false; Auto n = random_auto(r, g); if (n.start < 0) return false; Dfa d; if (!model_dfa(n, 0, d, 40)) return false; struct fsm *f = build(n); if (!fsm_determinise(f) || (r.chance(60) && !fsm_minimise(f))) abort(); m.a = snapshot(f); fsm_free(f); break; }
	default: { Auto a; int n = r.range(2, 5); for (int i = 0; i < n; i++) a.add(); a.start = 0; for (int i = 0; i < n; i++) { // every byte has an edge, or nearly
		int to1 = r.below(n), to2 = r.below(n); Sym y = random_sym(r, (int)r.below(8)); a.edge(i, to1, ~y); if (r.chance(70)) a.edge(i, to2, y); a.s[i].end = r.chance(40); if (a.s[i].end && g.ids) a.s[i].ids = {random_id(r)}; } m.a = a; }
	}
	if (r.chance(4)) m.a = Auto();
	if ((m.a.n() && m.a.start < 0) || m.a.n() > 60) return false;
	m.o.comments = r.chance(50); m.o.case_ranges = r.chance(40); m.o.always_hex = r.chance(25); m.o.anonymous_states = r.chance(30); m.o.consolidate_edges = r.chance(40); m.o.group_edges = r.chance(20);
	m.o.io = (enum fsm_io)r.below(3);
	static const enum fsm_ambig am[] = {AMBIG_NONE, AMBIG_ERROR, AMBIG_EARLIEST, AMBIG_MULTIPLE}; m.o.ambig = am[r.below(4)];
	switch (kind) {
	case K_VMOPS: if (m.o.io == FSM_IO_GETC) m.o.io = FSM_IO_PAIR; break;
	case K_ATT: case K_NASM: m.o.io = FSM_IO_PAIR; m.o.ambig = AMBIG_NONE; break;
	case K_GOASM: m.o.ambig = AMBIG_NONE; if (m.o.io == FSM_IO_GETC) m.o.io = FSM_IO_PAIR; break;
	case K_GO: if (m.o.io == FSM_IO_GETC) m.o.io = FSM_IO_PAIR; break;
	case K_SH: m.o.io = FSM_IO_STR; break;
	case K_AWK: m.o.io = FSM_IO_STR; break;
	default: break;
	}
	if (g.ids && r.chance(20)) { vector<u32> base; for (int k = r.range(2, 9); k > 0; k--) base.push_back(random_id(r)); for (auto &s : m.a.s) if (s.end && r.chance(85)) { s.ids = base; int d = r.below(4); u32 x = r.below(base.size()); if (d < 2) s.ids[x] ^= 1u << r.below(32); else if (d == 2) s.ids.pop_back(); std::sort(s.ids.begin(), s.ids.end()); s.ids.erase(std::unique(s.ids.begin(), s.ids.end()), s.ids.end()); } }
	if (m.o.ambig == AMBIG_ERROR || m.o.ambig == AMBIG_EARLIEST) for (auto &s : m.a.s) if (s.end) { if (s.ids.empty()) s.ids.push_back(random_id(r)); if (m.o.ambig == AMBIG_ERROR) s.ids.resize(1); }
	if (kind == K_AWK) for (auto &s : m.a.s) for (auto &x : s.ids) if (x == 0) x = 7; // awk output shows a rejection as 0
	for (auto &s : m.a.s) { if (!s.end) s.ids.clear(); std::sort(s.ids.begin(), s.ids.end()); s.ids.erase(std::unique(s.ids.begin(), s.ids.end()), s.ids.end()); }
	static const char *pre[] = {"m%d_", "Fsm%d", "x_%d_y_", "A%dZ"}; m.prefix = fmt(pre[r.below(4)], m.k); m.o.prefix = m.prefix.c_str();
	// inputs
	Dfa d; if (!model_dfa(m.a, OUT_END | OUT_IDS, d, 200)) return false;
	size_t lim = kind == K_SH ? 24 : kind == K_AWK ? 200 : 260; m.in = covering_strings(d, r, lim); m.in.push_back(""); for (size_t i = 0; i < lim / 5; i++) m.in.push_back(random_string(r, m.a, 60));
	for (int i = 0; i < (kind == K_SH ? 2 : 12); i++) { string w = r.pick(m.in); if (!w.empty()) w.pop_back(); w += (char)r.below(256); m.in.push_back(w); } // each byte at some state
	bool nonul = m.o.io == FSM_IO_STR && kind != K_RUST && kind != K_GO && kind != K_GOASM; if (kind == K_SH) nonul = true;
	if (nonul) for (auto &w : m.in) w.erase(std::remove(w.begin(), w.end(), '\0'), w.end());
	if (kind == K_RUST && m.o.io == FSM_IO_STR) { vector<string> v; for (auto &w : m.in) { bool ok = true; for (unsigned char ch : w) ok = ok && ch < 128; if (ok) v.push_back(w); } m.in = v; } // &str holds UTF-8; multi-byte text below
	if (kind == K_RUST && m.o.io == FSM_IO_STR) { m.in.push_back("\xc3\xa9"); m.in.push_back("a\xe2\x82\xac" "b"); }
	return true;
}
// what is reported, as (accepted, ids) or "no answer"
struct Got { bool ok = true; bool acc = false; vector<u32> ids; bool have_ids = false; };
static void judge(Ctx &c, Kind kind, const M &m, const string &w, const Got &g) {
	Obs want = model_run(m.a, w, OUT_END | OUT_IDS); c.eval(); string site = fmt("%s:%s", kname[kind], ioname[m.o.io]);
	if (g.acc != want.end) { c.violation(site + ":accept", fmt("on %s the generated code says %s, direct execution %s\n", esc(w).c_str(), g.acc ? "accept" : "reject", want.end ? "accept" : "reject") + describe(kind, m) + "\n" + m.text.substr(0, 3500)); return; }
	if (!want.end || m.o.ambig == AMBIG_NONE || !g.have_ids) return;
	vector<u32> ids = want.ids; if (m.o.ambig != AMBIG_MULTIPLE && !ids.empty()) ids.resize(1);
	if (kind == K_VMOPS) ids = want.ids;
	if (g.ids != ids) { string a, b; for (u32 x : g.ids) a += fmt(" %u", x); for (u32 x : ids) b += fmt(" %u", x); c.violation(site + ":ids:" + ambname(m.o.ambig), fmt("on %s the generated code reports ids%s, expected%s\n", esc(w).c_str(), a.c_str(), b.c_str()) + describe(kind, m) + "\n" + m.text.substr(0, 3500)); }
}
static struct fsm_hooks hooks_none;
static bool print_one(Ctx &c, Rng &r, Kind kind, M &m, enum fsm_print_lang lang, string &text) {
	struct fsm *f = build(m.a, nullptr, &r); Auto before = snapshot(f);
	struct fsm_hooks h = hooks_none; static const char *lead[] = {"//", "//", "//", "#", ";", ";", "//", "//", "//", "#", "#"};
	if (m.hooks) { h.accept = h_accept; h.reject = h_reject; if (r.chance(50)) h.comment = h_comment; }
	else if (m.o.comments && r.chance(30)) { if (kind == K_LLVM || kind == K_SH || kind == K_AWK || kind == K_RUST) { h.comment = h_comment_line; h.hook_opaque = (void *)lead[kind]; } else h.comment = h_comment; if (kind == K_AWK || kind == K_SH || kind == K_RUST || kind == K_ATT || kind == K_NASM || kind == K_GOASM) h.comment = nullptr; }
	int p = print_text(f, &m.o, m.hooks || h.comment ? &h : nullptr, lang, text); string again; int p2 = print_text(f, &m.o, m.hooks || h.comment ? &h : nullptr, lang, again);
	if (p != 0) c.violation(fmt("%s:%s:print", kname[kind], ioname[m.o.io]), fmt("fsm_print returned %d, errno %d ", p, errno) + describe(kind, m));
	else if (p2 != 0 || again != text) c.violation(fmt("%s:unstable", kname[kind]), "printed differently the second time: " + describe(kind, m));
	if (!(snapshot(f).hash() == before.hash())) c.violation(fmt("%s:modified", kname[kind]), "printing changed the automaton: " + describe(kind, m));
	fsm_free(f); c.count(string("printed:") + kname[kind]); return p == 0;
}
static bool run_tool(Ctx &c, Kind kind, const string &cmd, const string &errfile, const vector<M> &ms) {
	int st = system((cmd + " >" + errfile + " 2>&1").c_str()); if (st == 0) return true;
	string e = read_file(errfile); int code = WIFEXITED(st) ? WEXITSTATUS(st) : 255; if (code == 127 || e.find("No space left") != string::npos || e.find("Cannot allocate memory") != string::npos) { fprintf(stderr, "HARNESS tool failed: %s\n%s\n", cmd.c_str(), e.substr(0, 1500).c_str()); _exit(3); }
	string d; for (auto &m : ms) { d += describe(kind, m).substr(0, 400) + "\n"; } c.violation(string(kname[kind]) + ":compile", "does not compile: " + e.substr(0, 1500) + "\n" + d.substr(0, 3000) + (ms.empty() ? "" : ms[0].text.substr(0, 2500))); return false;
}
struct Src { const string *s; size_t i; int eofs; };
static int src_getc(void *o) { Src *p = (Src *)o; if (p->i < p->s->size()) return (unsigned char)(*p->s)[p->i++]; p->eofs++; return EOF; }

// ---- C-callable targets: everything of a batch in one shared object
static void run_native(Ctx &c, Kind kind, vector<M> &ms, const string &so) {
	void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { c.violation(string(kname[kind]) + ":load", string(dlerror())); return; }
	for (auto &m : ms) {
		string sym = kind == K_LLVM ? "w_" + m.prefix : kind == K_RUST ? "w_" + m.prefix : kind == K_VMOPS || kind == K_ATT || kind == K_NASM ? m.prefix + "match" : m.prefix + "main";
		void *fn = dlsym(h, sym.c_str()); if (!fn) { c.violation(string(kname[kind]) + ":symbol", "no symbol " + sym + " in\n" + m.text.substr(0, 2000)); continue; }
		for (auto &w : m.in) {
			Got g; unsigned id = 0xdead; const unsigned *ids = (const unsigned *)16; size_t cnt = 12345; int rc = 0; char *buf = (char *)malloc(w.size() + (m.o.io == FSM_IO_STR && kind != K_RUST ? 1 : 0) + (w.empty() && !(m.o.io == FSM_IO_STR && kind != K_RUST) ? 1 : 0)); memcpy(buf, w.data(), w.size()); if (m.o.io == FSM_IO_STR && kind != K_RUST) buf[w.size()] = 0;
			const char *b = buf, *e = buf + w.size(); Src s{&w, 0, 0}; bool one = m.o.ambig == AMBIG_ERROR || m.o.ambig == AMBIG_EARLIEST, many = m.o.ambig == AMBIG_MULTIPLE;
			if (kind == K_ATT || kind == K_NASM) rc = ((int (*)(const char *, size_t))fn)(b, w.size());
			else if (kind == K_LLVM || kind == K_RUST) { unsigned v = 0; if (m.o.io == FSM_IO_GETC) rc = ((int (*)(int (*)(void *), void *, unsigned *, const unsigned **, size_t *))fn)(src_getc, &s, &v, &ids, &cnt); else rc = ((int (*)(const char *, const char *, unsigned *, const unsigned **, size_t *))fn)(b, e, &v, &ids, &cnt); id = v; }
			else {
				if (kind == K_VMOPS && one) { one = false; many = true; }
				if (m.o.io == FSM_IO_GETC) rc = one ? ((int (*)(int (*)(void *), void *, unsigned *))fn)(src_getc, &s, &id) : many ? ((int (*)(int (*)(void *), void *, const unsigned **, size_t *))fn)(src_getc, &s, &ids, &cnt) : ((int (*)(int (*)(void *), void *))fn)(src_getc, &s);
				else if (m.o.io == FSM_IO_STR) rc = one ? ((int (*)(const char *, unsigned *))fn)(b, &id) : many ? ((int (*)(const char *, const unsigned **, size_t *))fn)(b, &ids, &cnt) : ((int (*)(const char *))fn)(b);
				else rc = one ? ((int (*)(const char *, const char *, unsigned *))fn)(b, e, &id) : many ? ((int (*)(const char *, const char *, const unsigned **, size_t *))fn)(b, e, &ids, &cnt) : ((int (*)(const char *, const char *))fn)(b, e);
			}
			if (m.frag) { unsigned *ve = (unsigned *)dlsym(h, "vf_e"); size_t *vn = (size_t *)dlsym(h, "vf_n"); if (!ve || !vn) abort(); std::set<u32> got(ve, ve + *vn), x; *vn = 0; if (!w.empty()) model_run(m.a, w.substr(0, w.size() - 1), OUT_END, &x); c.eval(); if (x.size()) c.count("fragment:eager-outputs", x.size()); // the caller sees to those of the last state
				if (got != x) { string a, b; for (u32 i : got) a += fmt(" %u", i); for (u32 i : x) b += fmt(" %u", i); c.violation(string(kname[kind]) + ":eager", fmt("on %s the fragment sets eager outputs%s, the states passed have%s\n", esc(w).c_str(), a.c_str(), b.c_str()) + describe(kind, m) + m.text.substr(0, 3000)); } }
			if (m.hooks) { Obs want = model_run(m.a, w); int x = want.end ? (int)(1000 + want.ids.size() + (want.ids.empty() ? 0 : want.ids[0] % 100000)) : -7; c.eval(); if (rc != x) c.violation(string(kname[kind]) + ":hooks", fmt("on %s returned %d, the hooks' code says %d\n", esc(w).c_str(), rc, x) + describe(kind, m) + m.text.substr(0, 3000)); }
			else { g.acc = rc != 0; if (rc != 0 && rc != 1) c.violation(string(kname[kind]) + ":value", fmt("returned %d", rc)); if (g.acc && one) { g.ids = {id}; g.have_ids = true; } if (g.acc && many) { g.have_ids = true; if (cnt <= 1000 && ids != (const unsigned *)16) g.ids.assign(ids, ids + cnt); else g.ids = {0xffffffff, 0}; }
				judge(c, kind, m, w, g); if (s.eofs > 1) c.violation(string(kname[kind]) + ":eof", "asks for more after the end of input"); }
			free(buf);
		}
		c.nontrivial(mix(m.a.hash(), kind)); c.count(string("matchers:") + kname[kind]); c.count(string("io:") + ioname[m.o.io]); c.count(string("ambig:") + ambname(m.o.ambig)); if (m.a.n() < 8) c.sample(describe(kind, m).substr(0, 500));
	}
	dlclose(h);
}
// ---- awk: the printed function is interpreted the way gawk would (there is no gawk here)
struct AwkProg { struct Ln { int kind; int op; string lit; bool num; int act; string val; }; std::map<string, int> at; vector<Ln> l; string err; }; // kind: 0 eos-test 1 fetch c 2 fetch s 3 cond 4 plain; act: 0 return value, 1 jump
static bool awk_str(const string &t, size_t &i, string &o) { // a string literal
	if (t[i] != '"') return false; i++; o = ""; while (i < t.size() && t[i] != '"') { if (t[i] == '\\') { i++; char e = t[i++]; static const char *n = "abfnrtv\\\"/'"; const char *q = strchr(n, e); if (e == 'x') { unsigned v = 0; int k = 0; while (k < 2 && isxdigit((unsigned char)t[i])) { v = v * 16 + (isdigit((unsigned char)t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10); i++; k++; } if (!k) return false; o += (char)v; } else if (e >= '0' && e <= '7') { unsigned v = e - '0'; int k = 1; while (k < 3 && t[i] >= '0' && t[i] <= '7') { v = v * 8 + t[i++] - '0'; k++; } o += (char)v; } else if (q) o += "\a\b\f\n\r\t\v\\\"/'"[q - n]; else return false; } else if (t[i] == '\n') return false; else o += t[i++]; }
	if (i >= t.size()) return false; i++; return true;
}
static bool awk_read(const string &text, const string &prefix, AwkProg &p) {
	size_t i = 0; auto fail = [&](const string &l) { p.err = "not awk: " + l; return false; };
	auto action = [&](string s, AwkProg::Ln &ln) { while (!s.empty() && (s.back() == ';' || s.back() == ' ')) s.pop_back(); if (s.compare(0, 7, "return ")) return false; s = s.substr(7); string call = prefix + "main(s, "; if (!s.compare(0, call.size(), call)) { if (s.back() != ')') return false; ln.act = 1; ln.val = s.substr(call.size(), s.size() - call.size() - 1); return true; } ln.act = 0; if (s[0] == '"') { size_t k = 0; string o; if (!awk_str(s, k, o) || k != s.size()) return false; ln.val = o; return true; } for (char ch : s) if (!isdigit((unsigned char)ch)) return false; ln.val = s; return !s.empty(); };
	bool head = false; 
	while (i < text.size()) { size_t e = text.find('\n', i); if (e == string::npos) e = text.size(); string l = text.substr(i, e - i); i = e + 1; size_t k = l.find_first_not_of(' '); if (k == string::npos) continue; l = l.substr(k); if (l[0] == '#') continue;
		if (!l.compare(0, 9, "function ")) { if (l != "function " + prefix + "main(s,    l, c) {") return fail(l); head = true; continue; } if (!head) return fail(l);
		if (l == "switch (l) {" || l == "}") continue;
		if (!l.compare(0, 5, "case ")) { size_t z = l.find(':'); if (z == string::npos) return fail(l); string rest = l.substr(z + 1); if (!rest.empty() && (rest.compare(0, 4, " /* ") || rest.compare(rest.size() - 3, 3, " */"))) return fail(l); p.at[l.substr(5, z - 5)] = (int)p.l.size(); continue; }
		AwkProg::Ln ln{}; if (!l.compare(0, 13, "if (s == \"\") ")) { ln.kind = 0; if (!action(l.substr(13), ln)) return fail(l); }
		else if (l == "c = substr(s, 1, 1)") ln.kind = 1; else if (l == "s = substr(s, 2)") ln.kind = 2;
		else if (!l.compare(0, 6, "if (c ")) { ln.kind = 3; size_t q = 6; static const char *ops[] = {"<=", ">=", "==", "!=", "<", ">"}; int op = -1; for (int k = 0; k < 6 && op < 0; k++) if (!l.compare(q, strlen(ops[k]), ops[k])) { op = k; q += strlen(ops[k]); } if (op < 0 || l[q++] != ' ') return fail(l); ln.op = op; if (l[q] == '"') { if (!awk_str(l, q, ln.lit) || ln.lit.size() != 1) return fail(l); } else if (!l.compare(q, 2, "0x")) { ln.num = true; ln.lit = fmt("%lu", strtoul(l.c_str() + q, 0, 16)); q += 4; } else return fail(l); if (l.compare(q, 2, ") ")) return fail(l); if (!action(l.substr(q + 2), ln)) return fail(l); }
		else { ln.kind = 4; if (!action(l, ln)) return fail(l); }
		p.l.push_back(ln); }
	return head && p.at.count("\"\"");
}
static bool awk_run(const AwkProg &p, const string &in, string &out) {
	size_t pos = 0; string c; int pc = p.at.at("\"\""); for (int guard = 0; guard < 200000; guard++) { if (pc >= (int)p.l.size()) { out = ""; return true; } auto &ln = p.l[pc++]; bool go = ln.kind == 4;
		if (ln.kind == 0) go = pos >= in.size(); else if (ln.kind == 1) { c = pos < in.size() ? string(1, in[pos]) : ""; continue; } else if (ln.kind == 2) { if (pos < in.size()) pos++; continue; }
		else if (ln.kind == 3) { int k = c.compare(ln.lit); go = ln.op == 0 ? k <= 0 : ln.op == 1 ? k >= 0 : ln.op == 2 ? k == 0 : ln.op == 3 ? k != 0 : ln.op == 4 ? k < 0 : k > 0; }
		if (!go) continue; if (ln.act == 0) { out = ln.val; return true; } auto it = p.at.find(ln.val); if (it == p.at.end()) { out = "no such label " + ln.val; return false; } pc = it->second; }
	out = "does not end"; return false;
}
static string hex(const string &w) { string o; for (unsigned char ch : w) o += fmt("%02x", ch); return o; }

void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); if (c.frozen) return;
	static const Kind plan[24] = {K_C, K_C, K_VMC, K_LLVM, K_C, K_VMC, K_RUST, K_C, K_VMC, K_VMOPS, K_ATT, K_C, K_VMC, K_NASM, K_SH, K_C, K_VMC, K_GO, K_C, K_AWK, K_VMOPS, K_VMC, K_GOASM, K_LLVM};
	Kind kind = plan[idx % 24];
	if (idx % 12 == 5) { // conflicts: printing must refuse, naming every conflicting state's ids
		GenOpt g; g.dfa = true; g.eps = false; g.ids = true; g.nostart = false; Auto a = random_auto(r, g); if (a.n() && a.start >= 0) { for (auto &s : a.s) { if (!s.end) s.ids.clear(); if (s.end && s.ids.empty()) s.ids = {3}; } struct fsm *f = build(a); struct fsm_options o; memset(&o, 0, sizeof o); o.ambig = AMBIG_ERROR; o.io = FSM_IO_PAIR; Conf cf; struct fsm_hooks h = hooks_none; h.conflict = on_conflict; h.hook_opaque = &cf; string t; Kind k2 = (Kind)r.below(11); if (k2 == K_ATT || k2 == K_NASM || k2 == K_GOASM || k2 == K_AWK || k2 == K_SH) k2 = K_C; vector<vector<u32>> want; for (auto &s : a.s) if (s.end && s.ids.size() > 1) want.push_back(s.ids); int rc = print_text(f, &o, &h, klang[k2], t); c.eval(); c.count("conflict-checks");
			std::sort(want.begin(), want.end()); std::sort(cf.got.begin(), cf.got.end()); if ((rc == 0) != want.empty() || rc < 0 || cf.got != want) c.violation("conflict", fmt("%zu conflicting end states, %zu reported, fsm_print returned %d (%s): ", want.size(), cf.got.size(), rc, kname[k2]) + a.text()); fsm_free(f); } }
	vector<M> ms; int want = kind <= K_VMC ? 12 : kind == K_SH ? 3 : kind == K_AWK ? 14 : kind == K_GO || kind == K_GOASM ? 12 : kind == K_RUST ? 6 : 8;
	for (int tries = 0; (int)ms.size() < want && tries < 200; tries++) { M m; m.k = (int)ms.size(); if (!gen(c, r, kind, m)) continue; ms.push_back(m); ms.back().o.prefix = nullptr; }
	for (auto &m : ms) m.o.prefix = m.prefix.c_str();
	string d = c.scratch + "/", err = d + "err"; vector<M> ok;
	if (kind == K_C || kind == K_VMC || kind == K_VMOPS) {
		string src = "#include <stdio.h>\n#include <stddef.h>\n#include <string.h>\nunsigned vf_e[65536]; size_t vf_n; static void vf_eager(unsigned x) { if (vf_n < 65536) vf_e[vf_n++] = x; }\n#define FSM_SET_EAGER_OUTPUT(x) vf_eager(x)\n", main2; int nmain = 0;
		for (auto &m : ms) {
			if (kind != K_VMOPS && m.o.ambig == AMBIG_NONE && r.chance(20)) m.hooks = true;
			if (kind == K_C && r.chance(12)) { m.frag = true; m.o.fragment = 1; if (r.chance(60)) for (auto &q : m.a.s) if (r.chance(55)) { int k = r.chance(80) ? r.range(1, 4) : r.range(5, 20); std::set<u32> z; while (k--) z.insert(random_id(r)); q.eager.assign(z.begin(), z.end()); } }
			if (!print_one(c, r, kind, m, klang[kind], m.text)) continue;
			if (m.frag) { string args = m.o.io == FSM_IO_GETC ? "int (*fsm_getc)(void *getc_opaque), void *getc_opaque" : m.o.io == FSM_IO_STR ? "const char *s" : "const char *b, const char *e"; if (m.o.ambig == AMBIG_ERROR || m.o.ambig == AMBIG_EARLIEST) args += ", unsigned *id"; else if (m.o.ambig == AMBIG_MULTIPLE) args += ", const unsigned **ids, size_t *count"; src += "int " + m.prefix + "main(" + args + ") {\n" + (m.o.io == FSM_IO_GETC ? "int c;\n" : "const char *p;\n") + m.text + "}\n"; }
			else if (kind == K_VMOPS) { string h, mn; if (!print_one(c, r, kind, m, FSM_PRINT_VMOPS_H, h) || !print_one(c, r, kind, m, FSM_PRINT_VMOPS_MAIN, mn)) continue; size_t p = mn.find("int main(void)"); if (p == string::npos) { c.violation("vmops:main", mn); continue; } mn.replace(p, 14, fmt("int main%d(void)", nmain++)); auto strip = [&](string t) { size_t q; string inc = "#include \"" + m.prefix + "vmops.h\"\n"; while ((q = t.find(inc)) != string::npos) t.erase(q, inc.size()); return t; }; src += h + strip(m.text) + strip(mn); m.text = h + m.text + mn; }
			else src += m.text;
			ok.push_back(m); ok.back().o.prefix = nullptr; }
		for (auto &m : ok) m.o.prefix = m.prefix.c_str();
		write_file(d + "m.c", src); bool san = r.chance(50);
		string cmd = string("gcc -std=gnu99 -w ") + (san ? "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all" : r.chance(50) ? "-O0" : "-O2") + " -shared -fPIC -o " + d + "m.so " + d + "m.c"; c.count(san ? "builds:sanitized" : "builds:plain");
		if (run_tool(c, kind, cmd, err, ok)) run_native(c, kind, ok, d + "m.so");
	} else if (kind == K_ATT || kind == K_NASM) {
		string objs; for (auto &m : ms) { if (!print_one(c, r, kind, m, klang[kind], m.text)) continue; string s = d + fmt("m%d.s", m.k), o = d + fmt("m%d.o", m.k); write_file(s, m.text); vector<M> one{m}; if (!run_tool(c, kind, kind == K_ATT ? "as -o " + o + " " + s : "nasm -f elf64 -o " + o + " " + s, err, one)) continue; objs += " " + o; ok.push_back(m); ok.back().o.prefix = nullptr; }
		for (auto &m : ok) m.o.prefix = m.prefix.c_str();
		if (run_tool(c, kind, "gcc -shared -o " + d + "m.so" + objs + " -Wl,-z,noexecstack", err, ok)) run_native(c, kind, ok, d + "m.so");
	} else if (kind == K_LLVM) {
		string objs; for (auto &m : ms) { if (!print_one(c, r, kind, m, klang[kind], m.text)) continue;
			string w = "\ndefine i32 @w_" + m.prefix + "(ptr %a, ptr %b, ptr %id, ptr %ids, ptr %count) {\n", call = m.o.io == FSM_IO_STR ? "(ptr %a)" : "(ptr %a, ptr %b)";
			w += "\t%r = call %rt @" + m.prefix + "main" + call + "\n"; if (m.o.ambig == AMBIG_NONE) w += "\t%z = zext i1 %r to i32\n\tret i32 %z\n"; else if (m.o.ambig != AMBIG_MULTIPLE) w += "\t%ok = extractvalue %rt %r, 0\n\t%v = extractvalue %rt %r, 1\n\tstore i32 %v, ptr %id\n\t%z = zext i1 %ok to i32\n\tret i32 %z\n"; else w += "\t%p = extractvalue %rt %r, 0\n\t%n = extractvalue %rt %r, 1\n\tstore ptr %p, ptr %ids\n\tstore i64 %n, ptr %count\n\t%ok = icmp ne i64 %n, -1\n\t%z = zext i1 %ok to i32\n\tret i32 %z\n"; w += "}\n";
			string s = d + fmt("m%d.ll", m.k), o = d + fmt("m%d.o", m.k); write_file(s, m.text + w); vector<M> one{m}; if (!run_tool(c, kind, fmt("clang-18 -w -O%d -fPIC -c -o ", (int)r.below(3)) + o + " " + s, err, one)) continue; objs += " " + o; ok.push_back(m); ok.back().o.prefix = nullptr; }
		for (auto &m : ok) m.o.prefix = m.prefix.c_str();
		if (!ok.empty() && run_tool(c, kind, "gcc -shared -o " + d + "m.so" + objs, err, ok)) run_native(c, kind, ok, d + "m.so");
	} else if (kind == K_RUST) {
		string src = "#![allow(warnings)]\nuse std::os::raw::*;\nstruct G { f: extern \"C\" fn(*mut c_void) -> c_int, o: *mut c_void, done: bool }\nimpl Iterator for G { type Item = u8; fn next(&mut self) -> Option<u8> { let c = (self.f)(self.o); if c < 0 { None } else { Some(c as u8) } } }\n";
		for (auto &m : ms) { if (!print_one(c, r, kind, m, klang[kind], m.text)) continue; src += "mod z" + m.prefix + " {\n" + m.text + "}\n";
			string call = m.o.io == FSM_IO_GETC ? "z" + m.prefix + "::" + m.prefix + "main(G { f: unsafe { std::mem::transmute(a) }, o: b as *mut c_void, done: false })" : "{ let s = unsafe { std::slice::from_raw_parts(a, b as usize - a as usize) }; z" + m.prefix + "::" + m.prefix + "main(" + (m.o.io == FSM_IO_STR ? "unsafe { std::str::from_utf8_unchecked(s) }" : "s") + ") }";
			src += "#[no_mangle] pub extern \"C\" fn w_" + m.prefix + "(a: *const u8, b: *const u8, id: *mut u32, ids: *mut *const u32, count: *mut usize) -> c_int { match " + call + " { None => 0, Some(v) => { " + (m.o.ambig == AMBIG_NONE ? "let () = v;" : m.o.ambig == AMBIG_MULTIPLE ? "unsafe { *ids = v.as_ptr(); *count = v.len(); }" : "unsafe { *id = v; }") + " 1 } } }\n"; ok.push_back(m); ok.back().o.prefix = nullptr; }
		for (auto &m : ok) m.o.prefix = m.prefix.c_str();
		write_file(d + "m.rs", src); if (run_tool(c, kind, fmt("rustc --edition 2021 --crate-type cdylib -C debuginfo=0 -C panic=abort -C opt-level=%d -o ", (int)r.below(2)) + d + "m.so " + d + "m.rs", err, ok)) run_native(c, kind, ok, d + "m.so");
	} else if (kind == K_GO || kind == K_GOASM) {
		string g = d + "g"; system(("mkdir -p " + g + "/src/run").c_str()); string imp, calls;
		for (auto &m : ms) { m.prefix = fmt("M%d", m.k); m.o.prefix = m.prefix.c_str(); string pkg = kind == K_GO ? m.prefix + "fsm" : m.prefix + "asm"; if (kind == K_GO && r.chance(30)) { m.o.package_prefix = "pk_"; }
			if (!print_one(c, r, kind, m, klang[kind], m.text)) continue; string pd = g + "/src/" + pkg; mkdir(pd.c_str(), 0755); string arg = m.o.io == FSM_IO_STR ? "string" : "[]byte";
			if (kind == K_GO) { write_file(pd + "/a.go", m.text); imp += m.prefix + " \"" + pkg + "\"\n"; } else { write_file(pd + "/a_amd64.s", m.text); write_file(pd + "/a.go", "package " + pkg + "\n\nfunc " + m.prefix + "Match(data " + arg + ") int\n"); imp += m.prefix + " \"" + pkg + "\"\n"; }
			string call = m.prefix + "." + m.prefix + "Match(" + (m.o.io == FSM_IO_STR ? "string(w)" : "w") + ")"; calls += fmt("case %d:\n", m.k) + (kind == K_GOASM ? "if " + call + " != 0 { return \"1\" }\nreturn \"0\"\n" : m.o.ambig == AMBIG_NONE ? "if " + call + " { return \"1\" }\nreturn \"0\"\n" : m.o.ambig == AMBIG_MULTIPLE ? "ok, ids := " + call + "\nif !ok { return \"0\" }\ns := \"1\"\nfor _, x := range ids { s += \" \" + strconv.FormatUint(uint64(x), 10) }\nreturn s\n" : "ok, id := " + call + "\nif !ok { return \"0\" }\nreturn \"1 \" + strconv.FormatUint(uint64(id), 10)\n");
			ok.push_back(m); ok.back().o.prefix = nullptr; }
		for (auto &m : ok) m.o.prefix = m.prefix.c_str();
		write_file(g + "/src/run/main.go", "package main\nimport (\n\"bufio\"\n\"encoding/hex\"\n\"os\"\n\"strconv\"\n" + imp + ")\nfunc f(k int, w []byte) string {\nswitch k {\n" + calls + "}\nreturn \"?\"\n}\nfunc main() {\nr := bufio.NewScanner(os.Stdin)\nr.Buffer(make([]byte, 1<<16), 1<<20)\no := bufio.NewWriter(os.Stdout)\nfor r.Scan() {\nt := r.Text()\ni := 0\nfor t[i] != ' ' { i++ }\nk, _ := strconv.Atoi(t[:i])\nw, _ := hex.DecodeString(t[i+1:])\no.WriteString(f(k, w) + \"\\n\")\n}\no.Flush()\n}\n");
		string in; for (auto &m : ok) for (auto &w : m.in) in += fmt("%d ", m.k) + hex(w) + "\n"; write_file(d + "in", in);
		string env = "cd " + g + "/src/run && HOME=" + d + " GOCACHE=" + c.build + "/gocache GOPATH=" + g + " GO111MODULE=off GOFLAGS= GOTOOLCHAIN=local GOMAXPROCS=2 CGO_ENABLED=0 go build -p 2 -o " + d + "gorun .";
		if (run_tool(c, kind, "( " + env + " )", err, ok)) { int st = system((d + "gorun <" + d + "in >" + d + "out 2>" + err).c_str()); string out = read_file(d + "out"); size_t p = 0; if (st) c.violation(string(kname[kind]) + ":run", read_file(err).substr(0, 2000)); else for (auto &m : ok) { for (auto &w : m.in) { size_t e = out.find('\n', p); if (e == string::npos) { c.violation(string(kname[kind]) + ":run", "too few answers"); break; } string l = out.substr(p, e - p); p = e + 1; Got gg; gg.acc = l[0] == '1'; gg.have_ids = kind == K_GO; for (size_t q = 1; q < l.size();) { gg.ids.push_back((u32)strtoul(l.c_str() + q + 1, 0, 10)); q = l.find(' ', q + 1); if (q == string::npos) break; } judge(c, kind, m, w, gg); } c.nontrivial(mix(m.a.hash(), kind)); c.count(string("matchers:") + kname[kind]); } }
		system(("rm -rf " + g).c_str());
	} else if (kind == K_SH) {
		string in; for (auto &m : ms) { if (!print_one(c, r, kind, m, klang[kind], m.text)) continue; write_file(d + fmt("m%d.sh", m.k), m.text); ok.push_back(m); ok.back().o.prefix = nullptr; }
		for (auto &m : ok) m.o.prefix = m.prefix.c_str();
		vector<std::pair<const M *, string>> runs; string list; for (auto &m : ok) for (auto &w : m.in) { write_file(d + fmt("in%zu", runs.size()), w); list += fmt("( . ./m%d.sh ) < in%zu; echo \"rc=$?\"; echo --\n", m.k, runs.size()); runs.push_back({&m, w}); }
		write_file(d + "drive.sh", list); system(("cd " + d + " && LC_ALL=C timeout 60 bash ./drive.sh >" + d + "out 2>" + err).c_str()); string out = read_file(d + "out"), es = read_file(err); size_t p = 0;
		for (auto &x : runs) { size_t e = out.find("--\n", p); if (e == string::npos) { c.violation("sh:run", "too few answers: " + es.substr(0, 1000)); break; } string l = out.substr(p, e - p); p = e + 3; Got g; if (l == "match\nrc=0\n") g.acc = true; else if (l == "fail\nrc=1\n") g.acc = false; else { c.violation("sh:run", fmt("on %s the script says %s %s\n", esc(x.second).c_str(), esc(l).c_str(), es.substr(0, 600).c_str()) + describe(kind, *x.first) + "\n" + x.first->text.substr(0, 2500)); break; } judge(c, kind, *x.first, x.second, g); }
		for (size_t i = 0; i < runs.size(); i++) unlink((d + fmt("in%zu", i)).c_str());
		if (es.find("syntax") != string::npos) c.violation("sh:syntax", es.substr(0, 1500)); for (auto &m : ok) { c.nontrivial(mix(m.a.hash(), kind)); c.count("matchers:sh"); }
	} else if (kind == K_AWK) {
		for (auto &m : ms) { if (!print_one(c, r, kind, m, klang[kind], m.text)) continue; AwkProg p; if (!awk_read(m.text, m.prefix, p)) { c.violation("awk:syntax", p.err + "\n" + describe(kind, m) + m.text.substr(0, 2500)); continue; }
			for (auto &w : m.in) { string o; Got g; if (!awk_run(p, w, o)) { c.violation("awk:run", o + "\n" + m.text.substr(0, 2500)); break; } g.acc = o != "0"; g.have_ids = true; if (o != "0" && !o.empty()) for (size_t q = 0;;) { g.ids.push_back((u32)strtoul(o.c_str() + q, 0, 10)); q = o.find(',', q); if (q == string::npos) break; q++; } judge(c, kind, m, w, g); }
			c.nontrivial(mix(m.a.hash(), kind)); c.count("matchers:awk"); }
	}
}
