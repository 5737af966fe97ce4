// C23: re(1), fsm(1) and rx(1) run as programs, against what the library says about the same patterns, files and texts.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
#include <spawn.h>
#include <setjmp.h>
#include <sys/wait.h>
extern "C" {
#include <fsm/parser.h>
#include <fsm/print.h>
#include <fsm/options.h>
#include <re/re.h>
#include <re/literal.h>
}
#include "pcregen.hpp"
#include "dialectgen.hpp"
const char *harness_name = "c23";
static string read_file(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void write_file(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { fprintf(stderr, "HARNESS cannot write %s\n", p.c_str()); _exit(3); } }
struct Out { int rc = 0; string out, err, cmd; bool crash = false; string key; };
static Ctx *C;
static Out run(const string &prog, const vector<string> &args, const string &in = "") {
	Out o; string d = C->scratch + "/"; write_file(d + "in", in); vector<string> v{"timeout", "-s", "KILL", "60", C->build + "/build/bin/" + prog}; for (auto &a : args) v.push_back(a);
	o.cmd = prog; for (auto &a : args) { string e = esc(a); o.cmd += " " + (e == "\"" + a + "\"" && a.find_first_of(" |*()$&;<>`'?[]{}#!~\\") == string::npos && !a.empty() ? a : e); } if (C->replay) fprintf(stderr, "%s\n", o.cmd.c_str());
	vector<char *> av; for (auto &a : v) av.push_back((char *)a.c_str()); av.push_back(nullptr);
	string e1 = "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0", e2 = "UBSAN_OPTIONS=print_stacktrace=1:exitcode=77", e3 = "PATH=/usr/bin:/bin", e4 = "LC_ALL=C"; char *ev[] = {(char *)e1.c_str(), (char *)e2.c_str(), (char *)e3.c_str(), (char *)e4.c_str(), nullptr};
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, (d + "in").c_str(), O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, (d + "out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, (d + "err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	pid_t p; int st; if (posix_spawn(&p, "/usr/bin/timeout", &fa, nullptr, av.data(), ev) || waitpid(p, &st, 0) != p) { fprintf(stderr, "HARNESS cannot run %s\n", prog.c_str()); _exit(3); } posix_spawn_file_actions_destroy(&fa);
	o.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); o.out = read_file(d + "out"); o.err = read_file(d + "err"); if (o.rc == 125 || o.rc == 126 || o.rc == 127) { fprintf(stderr, "HARNESS cannot run %s: %s\n", prog.c_str(), o.err.c_str()); _exit(3); }
	C->eval(); C->count("runs:" + prog);
	if (o.rc > 2) { o.crash = true; size_t q = o.err.find("Assertion `"); o.key = prog; if (q != string::npos) { string s = o.err.substr(q + 11, 60); o.key += "-assert:" + s.substr(0, s.find('\'')); for (char &x : o.key) if (isspace((unsigned char)x)) x = '_'; } else if (o.err.find("Sanitizer:") != string::npos) { size_t k = o.err.find("Sanitizer:"); string s = o.err.substr(k + 11, 40); o.key += "-asan:" + s.substr(0, s.find(' ')); } else if (o.err.find("runtime error") != string::npos) o.key += "-ub"; else o.key += fmt("-exit:%d", o.rc); C->violation(o.key, o.cmd + ": " + o.err.substr(0, 2500)); }
	return o; }
static string in_file(const string &name, const string &s) { string p = C->scratch + "/" + name; write_file(p, s); return p; }
// ---- languages
static void put(Auto &a, const Auto &b, int &st, vector<int> &ends) { int base = a.n(); for (auto &x : b.s) { a.s.push_back(x); auto &y = a.s.back(); for (auto &p : y.e) p.first += base; for (int &t : y.eps) t += base; y.end = false; y.ids.clear(); } st = b.start < 0 ? -1 : base + b.start; for (int i = 0; i < b.n(); i++) if (b.s[i].end) ends.push_back(base + i); }
static Auto none() { Auto a; a.start = a.add(); return a; }
static void join(Auto &a, const Auto &x, u32 id) { if (a.start < 0) a.start = a.add(); int st; vector<int> e; put(a, x, st, e); if (st >= 0) a.eps(a.start, st); for (int i : e) { a.s[i].end = true; a.s[i].ids = {id}; } }
static Auto cat(const Auto &x, const Auto &y) { Auto a; int s1, s2; vector<int> e1, e2; put(a, x, s1, e1); put(a, y, s2, e2); int s = a.add(); a.start = s; if (s1 >= 0) a.eps(s, s1); for (int i : e1) if (s2 >= 0) a.eps(i, s2); for (int i : e2) a.s[i].end = true; return a; }
static Auto rev(const Auto &x) { Auto b; b.s.resize(x.n()); int st = b.add(); b.start = st; for (int i = 0; i < x.n(); i++) { for (auto &p : x.s[i].e) b.edge(p.first, i, p.second); for (int t : x.s[i].eps) b.eps(t, i); if (x.s[i].end) b.eps(st, i); } if (x.start >= 0) b.s[x.start].end = true; return b; }
static Auto word(const string &s) { Auto a; a.start = a.add(); int q = a.start; for (unsigned char ch : s) { int n = a.add(); a.edge(q, n, ch); q = n; } a.s[q].end = true; return a; }
static Auto star(const Sym &s) { Auto a; a.start = a.add(); a.edge(0, 0, s); a.s[0].end = true; return a; }
static string key_of(const string &s) { string k = s; for (char &x : k) if (isspace((unsigned char)x)) x = '_'; return k; }
// every string accepted equals its expectation, given as a function of the observations
static bool judge(const vector<const Auto *> &as, int out, const ObsPred &ok, const string &key, const string &what) { string w; int v = forall_strings(as, out, ok, &w, 20000); C->eval(); if (v < 0) C->unsure("budget"); if (v == 0) { C->violation(key, what + " differs on " + esc(w)); return false; } return true; }
static bool same(const Auto &got, const Auto &want, int out, const string &key, const string &what) { return judge({&got, &want}, out, [](const vector<Obs> &o) { return o[0] == o[1]; }, key, what); }
// ---- what the library says
static vector<string> lines(const string &s) { vector<string> v; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == string::npos) { v.push_back(s.substr(p)); break; } v.push_back(s.substr(p, q - p)); p = q + 1; } return v; }
struct Pat { string t; enum re_dialect d; unsigned fl; bool ok = false, big = false; struct re_err er; Auto l; };
static void comp(Pat &p) { StrSrc s{&p.t, 0}; memset(&p.er, 0, sizeof p.er); struct fsm *f = re_comp(p.d, str_getc, &s, nullptr, (enum re_flags)p.fl, &p.er); p.ok = f != nullptr; if (f) { struct fsm_determinise_config k; memset(&k, 0, sizeof k); k.state_limit = 300; if (fsm_countstates(f) > 1000) p.big = true; else switch (fsm_determinise_with_config(f, &k)) { case FSM_DETERMINISE_WITH_CONFIG_OK: if (!fsm_minimise(f)) abort(); p.l = snapshot(f, false); break; case FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED: p.big = true; break; default: abort(); } fsm_free(f); } }
static jmp_buf escape; static bool armed = false; extern "C" void __real_exit(int) __attribute__((noreturn)); extern "C" void __wrap_exit(int st) { if (armed) { armed = false; longjmp(escape, 1); } __real_exit(st); } // the fsm parser exits on errors
static struct fsm *load(const string &text, bool must = true) { FILE *f = fmemopen((void *)text.data(), text.size(), "r"); struct fsm *volatile q = nullptr; if (setjmp(escape) == 0) { armed = true; q = f ? fsm_parse(f, nullptr) : nullptr; armed = false; } if (f) fclose(f); if (!q && must) { fprintf(stderr, "fsm_parse refuses: %s\n", text.c_str()); } return q; }
// rx groups edges ("a" .. "c", "x"), which fsm(5) does not read: spell them out
static string ungroup(const string &in) { string out; for (auto &l : lines(in)) { size_t q = l.find("->"), p = l.find('"'); if (q == string::npos || p == string::npos || q > p) { out += l + "\n"; continue; } string head = l.substr(0, p); size_t i = p; int prev = -1; bool range = false; while (i < l.size() && l[i] != ';') { if (l[i] == '.' && prev >= 0) { range = true; i += 2; continue; } if (l[i] != '"') { i++; continue; } i++; string v; while (i < l.size() && l[i] != '"') { if (l[i] != '\\') { v += l[i++]; continue; } char e = l[i + 1]; i += 2; static const char k[] = "abfnrtv", x[] = "\a\b\f\n\r\t\v"; const char *z = strchr(k, e); if (z && e) v += x[z - k]; else if (e == 'x') { char *end; v += (char)strtoul(l.c_str() + i, &end, 16); i = end - l.c_str(); } else v += e; } i++; if (v.size() != 1) return in; int ch = (unsigned char)v[0]; for (int y = range ? prev + 1 : ch; y <= ch; y++) out += head + fmt("\"\\x%02x\";\n", y); prev = ch; range = false; } } return out; }
// what was printed in the fsm language, read back
static bool readback(const Out &o, Auto &a, bool grouped = false) { if (o.out.empty()) { C->violation("no-output", o.cmd + " printed nothing: " + o.err); return false; } struct fsm *f = load(grouped ? ungroup(o.out) : o.out); if (!f) { C->violation("unreadable", o.cmd + " printed " + o.out.substr(0, 800)); return false; } a = snapshot(f); fsm_free(f); return true; }
static const struct { const char *n; enum re_dialect d; } dn[] = {{"pcre", RE_PCRE}, {"native", RE_NATIVE}, {"glob", RE_GLOB}, {"like", RE_LIKE}, {"literal", RE_LITERAL}, {"sql", RE_SQL}};
static bool plain(const string &s, bool line) { return s.find('\0') == string::npos && (!line || s.find('\n') == string::npos); }
static string pattern(Rng &r, enum re_dialect d, unsigned fl, bool line) {
	for (;;) { string t; int k = r.weighted({45, 35, 6, 8, 4});
		static const char *const w[] = {"a", "b", "ab", "abc", "ba", "c", "aa", "xyz", "x", "foo", "bar"};
		if (k == 0) { t = w[r.below(11)]; if ((d == RE_PCRE || d == RE_NATIVE)) { if (r.chance(60)) t = "^" + t; if (r.chance(60)) t += "$"; } }
		else if (k == 1) { if (d == RE_PCRE || d == RE_NATIVE) { static const char *const x[] = {"a+", "b*", "[ab]", "(a|b)", "a?", "c", "ab", "[a-c]", ".", "a{1,2}", "[^a]", "x*", "(ab)+"}; int n = r.range(1, 3); for (int i = 0; i < n; i++) t += x[r.below(13)]; if (r.chance(70)) t = "^" + t; if (r.chance(70)) t += "$"; } else { static const char *const x[] = {"a", "b", "c", "%", "_", "*", "?"}; int n = r.range(1, 4); for (int i = 0; i < n; i++) t += x[r.below(7)]; } }
		else if (k == 2) t = soup(r);
		else if (k == 3) { if (d == RE_PCRE) { Gen g(r, fl); g.budget = std::min(g.budget, 6); g.alts(2); t = g.t; } else { DGen g(r, d, fl); g.budget = std::min(g.budget, 6); g.top(); t = g.t; } }
		else { static const char *const x[] = {"", "(a", "a)", "[", "a{2,1}", "(?=a)", "\\bfoo", "$x", "x^", "(a)\\1", "a++", "[[:nope:]]", "\\", "^$", "a{99999}", "(?<n>a", "(*UTF)a", "^a\\b"}; t = x[r.below(18)]; }
		if (!plain(t, line) || t.size() > 120) continue; return t; } }
static void mutate(Rng &r, string &t) { if (r.chance(5)) { string a = "ab"; t += a[r.below(2)]; } }
static string text(Rng &r, const Auto &l) { string s; if (r.chance(75) && l.start >= 0) s = random_string(r, l, r.range(0, 12)); else { int n = r.below(4); while (n-- > 0) s += "abcx"[r.below(4)]; } return s; }
static string arg(Rng &r, const Auto &l) { string s = text(r, l); size_t z = s.find('\0'); if (z != string::npos) s.resize(z); return s; }
static Obs obs(const Auto &a, const string &t) { return model_run(a, t, OUT_END | OUT_IDS); }
static int conflicts(const Auto &j) { string w; return forall_strings({&j}, OUT_END | OUT_IDS, [](const vector<Obs> &o) { return o[0].ids.size() < 2; }, &w, 20000); }
static string unescape(const string &l) { string v; size_t i = 0; while (i < l.size()) { if (l[i] != '\\' || i + 1 == l.size()) { v += l[i++]; continue; } char e = l[i + 1]; i += 2; static const char k[] = "abfnrtv", x[] = "\a\b\f\n\r\t\v"; const char *z = strchr(k, e); if (z && e) v += x[z - k]; else if (e == 'x') { v += (char)strtoul(l.substr(i, 2).c_str(), nullptr, 16); i += 2; } else if (e >= '0' && e <= '7') { v += (char)strtoul(l.substr(i - 1, 3).c_str(), nullptr, 8); i += 2; } else v += e; } return v; }
// what -G prints: a text of every accepted path of states up to a length
static bool count_paths(const Auto &a, int q, size_t len, size_t &n) { if (a.s[q].end) n++; if (n > 20000) return false; if (len) { std::set<int> to; for (auto &e : a.s[q].e) if (e.second.any()) to.insert(e.first); for (int y : to) if (!count_paths(a, y, len - 1, n)) return false; } return true; }
static bool generated(Ctx &c, const Auto &a, size_t len, const Out &o, const string &key) { size_t want = 0; if (a.start >= 0 && !count_paths(a, a.start, len, want)) abort(); std::set<vector<int>> seen; for (auto &l : lines(o.out)) { string t = unescape(l); if (t.size() > len || a.start < 0) { c.violation(key, o.cmd + " printed " + esc(l)); return false; } vector<int> p{a.start}; for (unsigned char ch : t) { int y = -1; for (auto &e : a.s[p.back()].e) if (e.second.get(ch)) y = e.first; if (y < 0) { c.violation(key, o.cmd + " printed " + esc(l) + ", which does not match"); return false; } p.push_back(y); } if (!a.s[p.back()].end) { c.violation(key, o.cmd + " printed " + esc(l) + ", which does not match"); return false; } if (!seen.insert(p).second) { c.violation(key, o.cmd + " printed a second text of a path, " + esc(l)); return false; } } c.count(key, seen.size()); if (seen.size() != want) { c.violation(key, o.cmd + fmt(" printed texts of %zu paths, there are %zu", seen.size(), want)); return false; } return true; }
static bool few_paths(const Auto &a, size_t len) { size_t n = 0; if (a.start < 0) return true; if (a.n() > 60) return false; return count_paths(a, a.start, len, n); }
static string escaped(const string &s) { string o; for (unsigned char ch : s) { switch (ch) { case '\\': o += "\\\\"; break; case '"': o += "\\\""; break; case '\a': o += "\\a"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; case '\v': o += "\\v"; break; default: if (is_print(ch)) o += (char)ch; else o += fmt("\\x%02x", ch); } } return o; }
static bool expect(const Out &o, int rc, const string &key, const string &why) { if (o.crash) return false; if (o.rc != rc) { C->violation(key, o.cmd + fmt(": exit status %d, ", o.rc) + (rc == 0 ? "" : fmt("not %d: ", rc)) + why + "; stdout " + esc(o.out.substr(0, 300)) + " stderr " + esc(o.err.substr(0, 300))); return false; } return true; }
static const char *const langs[] = {"amd64", "amd64_att", "amd64_go", "amd64_nasm", "api", "awk", "c", "dot", "fsm", "go", "ir", "irjson", "json", "llvm", "rust", "sh", "vmc", "vmdot", "vmops_c", "vmops_h", "vmops_main"};
// ---- re(1)
static void do_re(Ctx &c, Rng &r) {
	enum re_dialect d; unsigned fl = 0; vector<string> opt; { int k = r.weighted({45, 30, 7, 6, 6, 6}); d = dn[k].d; if (d != RE_NATIVE || r.chance(20)) { opt.push_back("-r"); opt.push_back(dn[k].n); } }
	if (r.chance(20)) { fl |= RE_ANCHORED; if (r.chance(50)) opt.push_back("-b"); else { opt.push_back("-F"); opt.push_back("b"); } } if (r.chance(12)) { fl |= RE_ICASE; opt.push_back(r.chance(50) ? "-i" : "-Fi"); } if (r.chance(8)) { fl |= RE_SINGLE; opt.push_back("-F"); opt.push_back("s"); } if (d == RE_PCRE && r.chance(5)) { fl |= RE_EXTENDED; opt.push_back("-Fx"); }
	int mode = r.weighted({52, 12, 10, 8, 6, 5, 5, 5, 3}); bool fsmfiles = mode != 5 && mode != 7 && r.chance(8), files = fsmfiles || r.chance(12); bool many = mode != 5 && mode != 7 && mode != 4;
	int n = many ? r.weighted({0, 35, 35, 20, 10}) : 1; vector<Pat> p(n); vector<string> pa; int bad = -1;
	for (int i = 0; i < n; i++) { p[i].t = i > 0 && r.chance(mode == 1 ? 45 : 12) ? p[r.below(i)].t : pattern(r, d, fl, false); if (mode == 1 && i && r.chance(12)) p[i].t = p[0].t + "|" + p[0].t; p[i].d = d; p[i].fl = fl | (mode == 5 || mode == 7 ? 0 : RE_MULTI);
		if (fsmfiles) { GenOpt g; g.maxn = 5; g.ids = r.chance(20); Auto a = random_auto(r, g); struct fsm *f = build(a); char *b = nullptr; size_t z = 0; FILE *m = open_memstream(&b, &z); struct fsm_options fo; memset(&fo, 0, sizeof fo); fo.ambig = AMBIG_MULTIPLE; if (fsm_print(m, f, &fo, nullptr, FSM_PRINT_FSM)) abort(); fclose(m); fsm_free(f); p[i].t.assign(b, z); free(b); f = load(p[i].t); if (!f) { c.count("skipped"); return; } if (!fsm_determinise(f)) abort(); if (!fsm_minimise(f)) abort(); p[i].l = snapshot(f); for (auto &s : p[i].l.s) if (!s.ids.empty() && mode != 1) { c.count("skipped"); fsm_free(f); return; } p[i].ok = true; fsm_free(f); }
		else comp(p[i]); if (p[i].big) { c.count("skipped"); return; }
		if (!p[i].ok && bad < 0) bad = i; pa.push_back(files ? in_file(fmt("p%d", i), p[i].t) : p[i].t); if (pa.back() == "--") { c.count("skipped"); return; } }
	if (files) opt.push_back(fsmfiles ? "-f" : "-y"); auto fail = [&](const Out &o) { int rc = p[bad].er.e == RE_EUNSUPPORTED ? 2 : 1; c.count(rc == 2 ? "re:unsupported" : "re:pattern error"); if (expect(o, rc, "re:error-status", "for a pattern the library refuses with " + string(re_strerror(p[bad].er.e))) && o.err.empty()) c.violation("re:error-silent", o.cmd); };
	bool multi = r.chance(45), seq = mode < 4 && mode != 1 && r.chance(15), ids = !seq && r.chance(40), dash = !pa[0].empty() && pa[0][0] == '-'; auto args = [&](const vector<string> &extra) { vector<string> v = opt; for (auto &x : extra) v.push_back(x); r.shuffle(v); // options with arguments stay together
		v = opt; size_t at = r.chance(50) ? 0 : v.size(); v.insert(v.begin() + at, extra.begin(), extra.end()); if (dash) v.push_back("--"); v.insert(v.end(), pa.begin(), pa.end()); return v; };
	Auto J; int con = 0; auto combine = [&]() { if (seq) { J = p[0].l; for (int i = 1; i < n; i++) J = cat(J, p[i].l); for (auto &s : J.s) s.ids.clear(); } else { for (int i = 0; i < n; i++) join(J, p[i].l, i); } { Dfa dd; if (!model_dfa(J, OUT_END | OUT_IDS, dd, 600)) { c.count("skipped"); return false; } } con = conflicts(J); if (con < 0) { c.unsure("budget"); return false; } return true; };
	vector<string> ex; if (multi) ex.push_back("-u"); if (seq) ex.push_back("-s");
	if (seq && bad < 0) { bool e = false; string w; for (auto &x : p) if (same_behaviour(x.l, none(), OUT_END, &w) == 1) e = true; if (e) { if (!combine()) return; ex.push_back("-p"); Out o = run("re", args(ex)); if (o.crash) return; c.count("re:concatenated with nothing"); if (!expect(o, 0, "concat-empty", "printing") || o.out.empty()) return; Auto g; if (readback(o, g)) same(g, J, OUT_END, "concat-empty", o.cmd + " printed an automaton that"); return; } }
	switch (mode) {
	case 0: case 8: { // execute
		bool xf = r.chance(15), vm = r.chance(20) && !ids; if (ids) ex.push_back("-z"); if (xf) ex.push_back("-x"); if (vm) ex.push_back("-M"); int nt = r.weighted({10, 30, 20, 20, 10}); bool sep = nt > 1 || (nt == 1 && r.chance(50)) || (nt == 1 && n == 0); if (nt == 0 && n > 1) { sep = true; } vector<string> ta, tt;
		if (bad < 0 && !combine()) return; for (int i = 0; i < nt; i++) { string t; if (bad < 0) t = xf ? text(r, J) : arg(r, J); else t = "a"; tt.push_back(t); ta.push_back(xf ? in_file(fmt("t%d", i), t) : t); } if (nt == 1 && !sep && ta[0] == "--") sep = true;
		vector<string> v = args(ex); if (sep) v.push_back("--"); v.insert(v.end(), ta.begin(), ta.end()); if (nt == 0 && n == 1 && sep) v.pop_back(); if (nt == 0 && n > 1) { c.count("skipped"); return; }
		Out o = run("re", v); if (o.crash) return; if (bad >= 0) { fail(o); return; }
		if (con == 0 && !multi) { c.count("re:conflict"); if (expect(o, 1, "re:conflict", "for patterns that match the same text") && o.err.find("ambig") == string::npos) c.violation("re:conflict-silent", o.cmd + ": " + o.err); return; }
		bool all = true; string want; for (auto &t : tt) { Obs ob = obs(J, t); if (!ob.end) all = false; else if (ids) for (u32 i : ob.ids) want += "match: /" + pa[i] + "/\n"; c.count(ob.end ? "re:texts matched" : "re:texts not matched"); }
		if (!expect(o, all ? 0 : 1, "re:match-status", all ? "but every text matches" : "but a text does not match")) return; if (o.out != want) c.violation("re:ids", o.cmd + " printed " + esc(o.out) + ", expected " + esc(want)); break; }
	case 1: { // query
		static const char *const q[] = {"equal", "isequal", "areequal"}; ex = {"-q", q[r.below(3)]}; if (multi) ex.push_back("-u"); Out o = run("re", args(ex)); if (o.crash) return; bool eq = true; string w; for (int i = 1; i < n && (bad < 0 || i < bad); i++) { int e = same_behaviour(p[0].l, p[i].l, fsmfiles ? OUT_END : OUT_END, &w, 20000); if (e < 0) { c.unsure("budget"); return; } if (e == 0) { eq = false; break; } } if (bad >= 0 && eq) { fail(o); return; } c.count(eq ? "re:equal" : "re:not equal"); expect(o, eq ? 0 : 1, "re:equal", eq ? "but the patterns are equal" : "but the patterns differ"); break; }
	case 2: { // print
		bool nfa = r.chance(25); if (nfa) ex.push_back("-n"); bool p2 = r.chance(50); ex.push_back(p2 ? "-p" : "-l"); if (!p2) ex.push_back("fsm"); if (r.chance(20)) ex.push_back("-a"); if (r.chance(20)) ex.push_back("-c"); if (r.chance(20)) ex.push_back("-C"); if (r.chance(20)) ex.push_back("-X"); Out o = run("re", args(ex)); if (o.crash) return; if (bad >= 0) { fail(o); return; } if (!combine()) return; if (con == 0 && !multi && !nfa) { c.count("re:conflict"); if (expect(o, 1, "re:conflict", "for patterns that match the same text") && o.err.find("ambig") == string::npos) c.violation("re:conflict-silent", o.cmd); return; }
		if (!expect(o, 0, "re:print-status", "printing")) return; Auto g; if (!readback(o, g)) return; c.count("re:printed"); same(g, J, seq ? OUT_END : OUT_END | OUT_IDS, "re:printed", o.cmd + " printed an automaton that"); if (!nfa) for (int i = 0; i < g.n(); i++) if (!g.s[i].eps.empty()) { c.violation("re:printed-nfa", o.cmd); break; } break; }
	case 3: { // example
		ex.push_back("-m"); if (ids) ex.push_back("-z"); Out o = run("re", args(ex)); if (o.crash) return; if (bad >= 0) { fail(o); return; } if (!combine()) return; if (con == 0 && !multi) { expect(o, 1, "re:conflict", "for patterns that match the same text"); return; } if (!expect(o, 0, "re:example-status", "examples")) return; Dfa dd; if (!model_dfa(J, OUT_END | OUT_IDS, dd, 3000)) return; bool any = dd.live[dd.start]; vector<string> v = lines(o.out); bool print = true; for (unsigned char ch : o.out) if (!is_print(ch) && ch != '\n') print = false; for (auto &s : J.s) for (auto &e : s.e) if (e.second.size() < 200 && (e.second & ~(Sym::range(33, 126))).any()) print = false; if (ids) for (auto &x : pa) if (x.find('\n') != string::npos) print = false; if (!print) { c.count("re:examples unprintable"); return; }
		if (any != !v.empty()) { c.violation("re:example-count", o.cmd + " printed " + esc(o.out)); return; } for (auto &l : v) { string t = l; Obs want; bool cut = false; if (ids) { size_t q = l.rfind(": "); if (q == string::npos || l[0] != '/') { c.violation("re:example-ids", o.cmd + " printed " + l); return; } t = l.substr(q + 2); string h = l.substr(0, q); Obs ob = obs(J, t); string hh; for (u32 i : ob.ids) hh += (hh.empty() ? "/" : ", /") + pa[i] + "/"; if (t.size() < 200 && ob.end && hh != h) { c.violation("re:example-ids", o.cmd + " printed " + l + ", the text matches " + hh); return; } } cut = t.size() > 200; c.count("re:examples"); if (!cut && !obs(J, t).end && !obs(J, unescape(t)).end) { c.violation("re:example", o.cmd + " printed " + esc(l) + ", which does not match"); return; } } break; }
	case 4: { // generate
		int len = r.range(1, 4); ex.push_back("-G"); ex.push_back(fmt("%d", len)); Out o; vector<string> v; if (bad < 0) { if (!few_paths(p[0].l, len)) { c.count("skipped"); return; } } o = run("re", args(ex)); if (o.crash) return; if (bad >= 0) { fail(o); return; } if (!expect(o, 0, "re:generate-status", "generating")) return; generated(c, p[0].l, len, o, "re:generate"); break; }
	case 5: { // literal
		ex = {"-t"}; Out o = run("re", args(ex)); if (o.crash) return; StrSrc s{&p[0].t, 0}; struct re_err er; memset(&er, 0, sizeof er); enum re_literal_category k = RE_LITERAL_UNANCHORED; char *l = nullptr; size_t z = 0; int q = re_is_literal(d, str_getc, &s, (enum re_flags)p[0].fl, &er, &k, &l, &z); string want; int rc = 0; if (q == -1) rc = er.e == RE_EUNSUPPORTED ? 2 : 1; else if (q == 0) rc = 1; else if (k == RE_LITERAL_UNSATISFIABLE) want = "unsatisfiable\n"; else { want = "anchors: "; if (k & RE_LITERAL_ANCHOR_START) want += "^"; if (k & RE_LITERAL_ANCHOR_END) want += "$"; want += "\nliteral: "; for (size_t i = 0; i < z; i++) want += l[i]; want += "\n"; } free(l); c.count(fmt("re:literal %d", q)); if (expect(o, rc, "re:literal-status", "literal") && (q == 1 && k != RE_LITERAL_UNSATISFIABLE ? unescape(o.out) : o.out) != want) c.violation("re:literal", o.cmd + " printed " + esc(o.out) + ", expected " + esc(want)); break; }
	case 6: { // other languages
		string l = langs[r.below(21)]; ex.push_back("-l"); ex.push_back(l); static const char *const io[] = {"getc", "str", "pair"}; if (r.chance(60)) { ex.push_back("-k"); ex.push_back(io[r.below(3)]); } if (r.chance(15)) ex.push_back("-w"); if (r.chance(15)) { ex.push_back("-e"); ex.push_back("pre_"); } if (r.chance(10)) ex.push_back("-c"); if (r.chance(10)) ex.push_back("-a"); if (r.chance(20)) ex.push_back("-n"); bool nfa = ex.back() == "-n"; Out o = run("re", args(ex)); if (o.crash) return; if (bad >= 0) { fail(o); return; } if (!combine()) return; if (con == 0 && !multi && !nfa) { expect(o, 1, "re:conflict", "for patterns that match the same text"); return; } if (string w; l == "api" && o.rc == 1 && !o.err.empty() && same_behaviour(J, none(), OUT_END, &w) == 1) { c.count("re:api of nothing"); return; } if (o.rc == 1 && (o.err.find("unsupported IO API") != string::npos || (nfa && !o.err.empty()))) { c.count("re:io unsupported"); return; } if (expect(o, 0, "re:print-status", "printing " + l) && o.out.empty() && l != "dot") c.violation("re:print-empty", o.cmd); c.count("re:lang " + l); break; }
	case 7: { // syntax
		static const char *const al[] = {"abnf", "ast", "pcre", "tree"}; string l = al[r.below(4)]; ex = {"-l", l}; StrSrc s{&p[0].t, 0}; struct re_err er; memset(&er, 0, sizeof er); Out o = run("re", args(ex)); if (o.crash) return; c.count("re:syntax"); if (bad >= 0) { if (o.rc == 0) c.count("re:syntax of a refused pattern"); else if (o.rc != (p[0].er.e == RE_EUNSUPPORTED ? 2 : 1)) c.violation("re:error-status", o.cmd + fmt(" exit status %d", o.rc)); return; } if (expect(o, 0, "re:syntax-status", "the pattern is accepted") && o.out.empty() && l != "pcre") c.violation("re:print-empty", o.cmd); break; }
	}
	c.nontrivial(hash_str([&] { string s; for (auto &x : args(ex)) s += x + "\n"; return s; }()));
}
// ---- fsm(1)
static void do_fsm(Ctx &c, Rng &r) {
	GenOpt g; g.maxn = r.chance(70) ? 5 : 12; g.eps = r.chance(50); g.ids = r.chance(25); g.dfa = r.chance(35); vector<Auto> A; vector<string> file, txt; 
	int op = r.weighted({30, 7, 7, 7, 8, 8, 7, 6, 7, 7, 7, 7, 9}); static const vector<const char *> names[] = {{}, {"complete"}, {"complement", "invert"}, {"reverse", "rev", "-r"}, {"determinise", "dfa", "todfa", "-d"}, {"min", "minimise", "-m"}, {"trim"}, {"remove_epsilons", "-E"}, {"cat", "concat"}, {"union"}, {"intersect"}, {"subtract", "sub", "minus"}, {"equals", "equal"}}; bool binary = op >= 8;
	for (int i = 0; i < (binary ? 2 : 1); i++) { Auto a = i && r.chance(25) ? permute(r, A[0]) : random_auto(r, g); struct fsm *f = build(a); if (r.chance(30) && !fsm_determinise(f)) abort(); char *b = nullptr; size_t z = 0; FILE *m = open_memstream(&b, &z); struct fsm_options fo; memset(&fo, 0, sizeof fo); fo.ambig = AMBIG_MULTIPLE; if (fsm_print(m, f, &fo, nullptr, FSM_PRINT_FSM)) abort(); fclose(m); fsm_free(f); string t(b, z); free(b); if (z > 100000) { c.count("skipped"); return; } f = t.empty() ? nullptr : load(t, false); if (!f) { c.count("skipped"); return; } A.push_back(snapshot(f)); fsm_free(f); txt.push_back(t); file.push_back(in_file(fmt("f%d", i), t)); }
	auto lib = [&](int i) { struct fsm *f = load(txt[i]); if (!f) abort(); return f; };
	vector<string> v; if (op) { string nm = r.pick(names[op]); if (nm[0] == '-') v.push_back(nm); else { v.push_back("-t"); v.push_back(nm); } }
	// the result, by the library
	struct fsm *f = nullptr; bool opok = true; int eqv = 0; { struct fsm *a = lib(0), *b = binary ? lib(1) : nullptr; switch (op) { case 0: break; case 1: opok = fsm_complete(a, fsm_isany); break; case 2: opok = fsm_complement(a); break; case 3: opok = fsm_reverse(a); break; case 4: opok = fsm_determinise(a); break; case 5: opok = fsm_determinise(a) && fsm_minimise(a); break; case 6: opok = fsm_trim(a, FSM_TRIM_START_AND_END_REACHABLE, nullptr) >= 0; break; case 7: opok = fsm_remove_epsilons(a); break; case 8: f = fsm_concat(a, b, nullptr); break; case 9: f = fsm_union(a, b, nullptr); break; case 10: f = fsm_intersect(a, b); break; case 11: f = fsm_subtract(a, b); break; case 12: eqv = fsm_equal(a, b); fsm_free(a); fsm_free(b); break; } if (!binary) f = a; else if (op < 12 && !f) opok = false; }
	if (!opok && !binary) { fsm_free(f); f = nullptr; }
	struct Free { struct fsm *&f; ~Free() { if (f) fsm_free(f); } } fr{f};
	if (op == 12) { v.insert(v.end(), file.begin(), file.end()); Out o = run("fsm", v); if (o.crash) return; c.count(eqv == 1 ? "fsm:equal" : "fsm:not equal"); expect(o, eqv == 1 ? 0 : 1, "fsm:equal", eqv == 1 ? "but they are equal" : "but they differ"); Auto x = A[0], y = A[1]; for (auto *q : {&x, &y}) for (auto &s : q->s) s.ids.clear(); string w; int e = same_behaviour(x, y, OUT_END, &w); if (e >= 0 && (e == 1) != (o.rc == 0)) c.violation("fsm:equal-model", o.cmd); return; }
	if (!opok) { c.count("fsm:operation fails"); v.insert(v.end(), file.begin(), file.end()); Out o = run("fsm", v); if (!o.crash && o.rc == 0) c.violation("fsm:failed-operation", o.cmd + ": the library refuses the operation, but the exit status is 0"); return; }
	Auto R = snapshot(f); if (R.n() > 300) { c.count("skipped"); return; } string cs; if (r.chance(12)) { static const char *const sets[] = {"a", "ab", "abc", "xyz", "\x80\xff", "aabb", "b"}; cs = sets[r.below(7)]; v.push_back("-U"); v.push_back(cs); Sym y; for (unsigned char ch : cs) y.set(ch); if (!fsm_determinise(f)) abort(); f = fsm_intersect_charset(f, cs.size(), cs.c_str()); if (!f) { c.count("skipped"); return; } R = snapshot(f); }
	bool input = !binary && r.chance(15); // the file comes from standard input
	int mode = r.weighted({40, 25, op == 0 ? 25u : 0u, 10, 8}); 
	switch (mode) {
	case 0: { // execute
		bool xf = r.chance(20); if (xf) v.push_back("-x"); if (r.chance(5)) { v.push_back("-i"); v.push_back("2"); } bool it = v.size() && v.back() == "2"; if (it) input = false; vector<string> tt; int nt = input ? (r.chance(50) ? 0 : r.range(1, 3)) : r.below(4); if (input && nt) v.push_back("-"); if (!input) v.insert(v.end(), file.begin(), file.end()); bool all = true; for (int i = 0; i < nt; i++) { string t = xf ? text(r, R) : arg(r, R); fsm_state_t e; int x = exec(f, t, &e); bool m = x == 1; if (!m) all = false; c.count(m ? "fsm:texts matched" : "fsm:texts not matched"); v.push_back(xf ? in_file(fmt("t%d", i), t) : t); }
		for (size_t i = 0, k = 0; i < v.size(); i++) if (v[i].empty() || v[i][0] == '-') k++; Out o = run("fsm", v, input ? txt[0] : ""); if (o.crash) return; expect(o, all ? 0 : 1, "fsm:match-status", all ? "but every text matches" : "but a text does not match"); break; }
	case 1: { v.push_back("-p"); if (r.chance(20)) v.push_back("-a"); if (r.chance(20)) v.push_back("-c"); if (r.chance(20)) v.push_back("-X"); if (!input) v.insert(v.end(), file.begin(), file.end()); Out o = run("fsm", v, input ? txt[0] : ""); if (!expect(o, 0, "fsm:print-status", "printing")) return; Auto got; if (R.n() == 0 && o.out.empty()) return; if (!readback(o, got)) return; c.count("fsm:printed");
		same(got, R, OUT_END | OUT_IDS, "fsm:printed:" + string(op ? names[op][0] : "identity") + (cs.empty() ? "" : "-U"), o.cmd + " on " + txt[0] + (binary ? txt[1] : "") + " printed an automaton that"); Auto M; string w; Sym y; for (unsigned char ch : cs) y.set(ch); auto alpha = cs.empty() ? ~Sym() : y; Auto all = star(alpha), one = none(); const Auto &a = A[0], &b = binary ? A[1] : one; bool rv = op == 3; Auto ra = rv ? rev(a) : a, ca = op == 8 ? cat(a, b) : a;
		judge({&got, &ra, &b, &ca, &all}, OUT_END, [&](const vector<Obs> &o2) { bool x = o2[1].end, z = o2[2].end, want; switch (op) { case 2: want = !x; break; case 8: want = o2[3].end; break; case 9: want = x || z; break; case 10: want = x && z; break; case 11: want = x && !z; break; default: want = x; } return o2[0].end == (want && o2[4].end); }, op == 8 && (A[0].n() == 0 || A[1].n() == 0) ? "concat-empty" : "fsm:result:" + string(op ? names[op][0] : "identity"), o.cmd + " on " + txt[0] + (binary ? txt[1] : "") + " printed an automaton that");
		for (int i = 0; i < got.n() && op == 7; i++) if (!got.s[i].eps.empty()) { c.violation("fsm:epsilons", o.cmd); break; } break; }
	case 2: { static const char *const q[] = {"isdfa", "dfa", "count", "iscomplete", "hasend", "end", "accept", "hasaccept", "hasnondeterminism", "ambiguity", "hasepsilons", "epsilons", "epsilonclosure", "requiredchars", "chars"}; string nm = q[r.below(15)]; v.push_back("-q"); v.push_back(nm); if (!input) v.insert(v.end(), file.begin(), file.end()); Out o = run("fsm", v, input ? txt[0] : ""); if (o.crash) return; c.count("fsm:query " + nm);
		if (nm == "count") { if (expect(o, 0, "fsm:query-status", "count") && atoi(o.out.c_str()) != R.n()) c.violation("fsm:count", o.cmd + " printed " + o.out + fmt(", there are %d states", R.n())); return; }
		if (nm == "epsilonclosure") { string w; for (int i = 0; i < R.n(); i++) { std::set<int> s{i}; vector<int> st{i}; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : R.s[x].eps) if (s.insert(y).second) st.push_back(y); } w += fmt("%d: ", i); bool first = true; for (int x : s) { w += fmt(first ? "%d" : " %d", x); first = false; } w += "\n"; } if (expect(o, 0, "fsm:query-status", "epsilonclosure") && o.out != w) c.violation("fsm:closure", o.cmd + " on " + txt[0] + " printed " + o.out + ", expected " + w); return; }
		if (nm == "requiredchars" || nm == "chars") { bool dfa = true; for (auto &s : R.s) { if (!s.eps.empty()) dfa = false; Sym seen; for (auto &e : s.e) { if ((seen & e.second).any()) dfa = false; seen = seen | e.second; } } if (!dfa || R.start < 0) { c.count("skipped"); return; } if (!expect(o, 0, "fsm:query-status", nm)) return; string need; int k = 0; bool ok = true; for (unsigned ch = 0; ch < 256 && ok; ch++) { Auto no = star(~Sym::one(ch)); string w; int x = forall_strings({&R, &no}, OUT_END, [](const vector<Obs> &o2) { return !(o2[0].end && o2[1].end); }, &w, 5000); if (x < 0) ok = false; if (x == 1) { need += (char)ch; k++; } } Auto no; string w; if (same_behaviour(R, none(), OUT_END, &w) == 1) { c.count("fsm:required of nothing"); return; } if (ok && unescape(o.out) != fmt("%d ", k) + need + "\n") c.violation("fsm:required", o.cmd + " printed " + esc(o.out) + ", expected " + fmt("%d ", k) + need); return; }
		bool t; if (nm == "isdfa" || nm == "dfa") t = fsm_all(f, fsm_isdfa); else if (nm == "iscomplete") t = fsm_all(f, fsm_iscomplete); else if (nm == "hasepsilons" || nm == "epsilons") t = fsm_has(f, fsm_hasepsilons); else if (nm == "hasnondeterminism" || nm == "ambiguity") t = fsm_has(f, fsm_hasnondeterminism); else t = fsm_has(f, fsm_isend); c.count(t ? "fsm:query true" : "fsm:query false"); expect(o, t ? 0 : 1, "fsm:query-status", nm + (t ? " is true" : " is false")); break; }
	case 3: { int len = r.range(1, 4); bool dfa = fsm_all(f, fsm_isdfa); if (!dfa || R.start < 0 || !few_paths(R, len)) { c.count("skipped"); return; } v.push_back("-G"); v.push_back(fmt("%d", len)); if (!input) v.insert(v.end(), file.begin(), file.end()); Out o = run("fsm", v, input ? txt[0] : ""); if (!expect(o, 0, "fsm:generate-status", "generating")) return; generated(c, R, len, o, "fsm:generate"); break; }
	case 4: { string l = langs[r.below(21)]; if (l == "amd64" || l == "irjson" || l.find("vmops") == 0) l = "json"; v.push_back("-l"); v.push_back(l); static const char *const io[] = {"getc", "str", "pair"}; v.push_back("-k"); v.push_back(io[r.below(3)]); if (r.chance(20)) v.push_back("-w"); if (r.chance(20)) { v.push_back("-e"); v.push_back("pre_"); } v.insert(v.end(), file.begin(), file.end()); Out o = run("fsm", v); if (o.crash) return; c.count("fsm:lang " + l); if (o.rc == 1 && !o.err.empty()) { c.count("fsm:language refused"); return; } expect(o, 0, "fsm:print-status", "printing " + l); break; }
	}
	c.nontrivial(mix(R.hash(), hash_str([&] { string s; for (auto &x : v) s += x + "\n"; return s; }())));
}
// ---- rx(1)
static void do_rx(Ctx &c, Rng &r) {
	int nf = r.weighted({0, 70, 20, 10}); vector<string> v; unsigned fl = 0; int dk = r.weighted({60, 12, 6, 6, 12, 4}); bool ext = r.chance(12); vector<int> fd(nf);
	if (dk || r.chance(20)) { v.push_back("-r"); v.push_back(dn[dk].n); } if (ext) v.push_back("-s"); string F; if (r.chance(10)) { F += "i"; fl |= RE_ICASE; } if (r.chance(8)) { F += "b"; fl |= RE_ANCHORED; } if (r.chance(6)) { F += "s"; fl |= RE_SINGLE; } if (!F.empty()) { v.push_back("-F"); v.push_back(F); }
	bool strict = r.chance(10), lax = r.chance(15); int amb = r.weighted({35, 45, 20}); if (strict) v.push_back("-i"); if (lax) v.push_back("-x"); if (amb == 1) v.push_back("-u"); if (amb == 2) v.push_back("-t"); size_t limit = 0; if (r.chance(12)) { limit = r.range(1, 3); v.push_back("-n"); v.push_back(fmt("%zu", limit)); } string cs; bool hascs = r.chance(8); if (hascs) { if (r.chance(30)) { v.push_back("-c"); cs = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~"; } else { v.push_back("-C"); cs = r.chance(50) ? "abc" : "abcxyzfor"; v.push_back(cs); } if (strict) { strict = false; v.erase(std::find(v.begin(), v.end(), "-i")); } }
	if (r.chance(10)) v.push_back("-v"); if (r.chance(10)) v.push_back("-Q"); bool quiet = r.chance(8); string lang = "fsm"; if (quiet) v.push_back("-q"); else if (r.chance(12)) lang = ""; if (lang.empty()) { lang = langs[r.below(21)]; if (lang == "amd64" || lang == "api" || lang == "awk" || lang == "json" || lang == "sh" || lang == "vmc") lang = "c"; } v.push_back("-l"); v.push_back(lang); string decl = c.scratch + "/declined"; unlink(decl.c_str()); bool wd = r.chance(70); if (wd) { v.push_back("-d"); v.push_back(decl); }
	Auto J; vector<string> want; bool fatal = false; size_t ngen = 0; vector<std::pair<u32, string>> all; string desc; int total = 0; vector<string> files; struct G { u32 id; Pat p; }; vector<G> later; Auto past, step; step.start = step.add(); step.add(); step.edge(0, 1, ~Sym()); step.s[1].end = true;
	for (int k = 0; k < nf; k++) { int e = ext && r.chance(70) ? (int)r.below(6) : -1; fd[k] = e >= 0 ? e : dk; enum re_dialect d = dn[fd[k]].d; string s; int n = r.chance(4) ? 0 : r.chance(10) ? r.range(15, 40) : r.range(1, 6); bool simple = n > 8; vector<string> own;
		for (int i = 0; i < n; i++) { string t; if (!own.empty() && r.chance(8)) t = r.pick(own); else if (simple) { t = fmt("k%d%c", i, 'a' + (int)r.below(4)); if ((d == RE_PCRE || d == RE_NATIVE) && r.chance(95)) t = "^" + t + "$"; } else t = pattern(r, d, fl, true); own.push_back(t); u32 id = nf > 1 ? k : i; s += t; if (i + 1 < n || r.chance(85) || t.empty()) s += "\n"; desc += fmt("#%u %s %s\n", id, dn[fd[k]].n, esc(t).c_str()); total++;
			// what is to become of it
			if (d == RE_LITERAL && lax && (fl & RE_ICASE)) { c.count("skipped"); return; } Pat p; p.t = t; p.d = d; p.fl = fl; if (d == RE_LITERAL && !(fl & RE_ICASE)) { comp(p); if (p.big) { c.count("skipped"); return; } if (!p.ok) abort(); Auto l = word(t); if (lax) { l = cat(cat(star(~Sym()), l), star(~Sym())); join(past, cat(l, step), 0); } join(J, l, id); continue; }
			StrSrc src{&p.t, 0}; struct re_err er; memset(&er, 0, sizeof er); enum re_literal_category cat_; char *ls = nullptr; size_t ln = 0; int q = re_is_literal(d, str_getc, &src, (enum re_flags)fl, &er, &cat_, &ls, &ln); if (q == -1) { if (er.e == RE_EUNSUPPORTED) { want.push_back(t); c.count("rx:unsupported"); } else { if (strict) fatal = true; want.push_back(t); c.count("rx:errors"); } continue; }
			if (q == 1 && cat_ == RE_LITERAL_UNSATISFIABLE) { if (strict) fatal = true; want.push_back(t); c.count("rx:unsatisfiable"); continue; }
			comp(p); if (p.big) { c.count("skipped"); return; } bool lit = q == 1 && ln > 0; bool off = false; if (lit && hascs) for (size_t z = 0; z < ln; z++) if (cs.find(ls[z]) == string::npos && !(z + 1 == ln && ls[z] == '\n' && (cat_ & RE_LITERAL_ANCHOR_END))) off = true; string lw; if (lit) { lw.assign(ls, ln); if ((cat_ & RE_LITERAL_ANCHOR_END) && lw.back() == '\n') lw.pop_back(); } free(ls); if (lit) { /* a newline at the end is left out by design */ c.count("rx:literals"); if (off) { want.push_back(t); continue; } if (!p.ok) abort(); Auto l = word(lw); if (!(cat_ & RE_LITERAL_ANCHOR_START)) l = cat(star(~Sym()), l); if (!(cat_ & RE_LITERAL_ANCHOR_END)) l = cat(l, star(~Sym())); if (!(cat_ & RE_LITERAL_ANCHOR_END)) join(past, cat(l, step), 0); join(J, l, id); continue; }
			ngen++; if (limit && ngen > limit) { want.push_back(t); continue; } later.push_back({id, p}); }
		string nm = fmt("r%d", k); if (e >= 0) nm += string(".") + dn[e].n; files.push_back(in_file(nm, s)); }
	for (auto &g : later) { if (g.p.ok) { string w; bool nothing = same_behaviour(g.p.l, none(), OUT_END, &w) == 1; if (nothing && strict) { fatal = true; } if (nothing) { want.push_back(g.p.t); c.count("rx:nothing"); continue; } c.count("rx:general"); if (hascs) { Sym y; for (unsigned char ch : cs) y.set(ch); Auto a2 = star(y); string w2; if (forall_strings({&g.p.l, &a2}, OUT_END, [](const vector<Obs> &o) { return !o[0].end || !o[1].end; }, &w2) == 1) { want.push_back(g.p.t); c.count("rx:outside of the character set"); continue; } } join(J, g.p.l, g.id); } else { if (strict && g.p.er.e != RE_EUNSUPPORTED) fatal = true; want.push_back(g.p.t); c.count(g.p.er.e == RE_EUNSUPPORTED ? "rx:unsupported general" : "rx:errors in general"); } }
	if (J.start < 0) J.start = J.add(); { Dfa dd; if (!model_dfa(J, OUT_END | OUT_IDS, dd, 600)) { c.count("skipped"); return; } } v.insert(v.end(), files.begin(), files.end()); Out o = run("rx", v); if (o.crash) return; string D = o.cmd + "\n" + desc; c.count("rx:patterns", total);
	if (fatal) { c.count("rx:strict"); if (o.rc != 1) c.violation("rx:strict", D + fmt("exit status %d for an error in strict mode", o.rc)); return; }
	auto crop = [&](Auto a) { if (!hascs) return a; return a; }; (void)crop; bool cut = hascs; Sym y; for (unsigned char ch : cs) y.set(ch); Auto lim = cut ? star(y) : star(~Sym());
	string w; int con = amb == 0 ? forall_strings({&J, &lim}, OUT_END | OUT_IDS, [](const vector<Obs> &ob) { return !ob[1].end || ob[0].ids.size() < 2; }, &w, 20000) : 1; if (con < 0) { c.unsure("budget"); return; }
	if (past.start < 0) past.start = past.add(); bool early = false; // ids are lost after an unanchored literal has matched: a finding
	if (con == 0 && o.err.find("ambiguous patterns") == string::npos) { string w2; int e = forall_strings({&J, &lim, &past}, OUT_END | OUT_IDS, [](const vector<Obs> &ob) { return !ob[1].end || ob[2].end || ob[0].ids.size() < 2; }, &w2, 20000); if (e < 0) { c.unsure("budget"); return; } if (e == 1) { c.violation("rx:after-match", D + "no conflict is reported for " + esc(w)); early = true; con = 1; } else w = w2; }
	if (con == 0) { c.count("rx:conflict"); if (o.err.find("ambiguous patterns") == string::npos) { c.violation("rx:conflict-missed", D + "no conflict is reported for " + esc(w) + ": " + o.err.substr(0, 400)); return; } if (o.rc != 1) c.violation("rx:conflict-status", D + fmt("exit status %d for a conflict", o.rc)); for (u32 i : obs(J, w).ids) (void)i;
		size_t ln = 0; for (auto &l : lines(o.err)) if (l.size() > 1 && l[0] == '#' && l.find(": /") != string::npos) ln++; if (ln < 2) c.violation("rx:conflict-names", D + "the conflicting patterns are not all named: " + o.err.substr(0, 800)); if (!o.out.empty()) c.violation("rx:conflict-output", D); return; }
	if (o.rc == 1 && o.err.find("unsupported IO API") != string::npos) return; if (lang.compare(0, 5, "amd64") == 0 && o.rc == 1) { c.count("rx:language refused"); c.violation("rx:amd64", D + "exit status 1"); return; }
	if (!expect(o, 0, "rx:status", "nothing is wrong with\n" + desc)) return;
	if (wd) { string got = read_file(decl); vector<string> g = lines(got); if (!got.empty() && got.back() != '\n') g.push_back("?"); std::sort(g.begin(), g.end()); std::sort(want.begin(), want.end()); c.count("rx:declined", want.size()); if (g != want) { string a, b; for (auto &x : g) a += " " + esc(x); for (auto &x : want) b += " " + esc(x); c.violation("rx:declined", D + "declined:" + a + "\nexpected:" + b); return; } }
	if (quiet) { if (!o.out.empty()) c.violation("rx:quiet", D); return; } if (lang != "fsm") { c.count("rx:lang " + lang); if (o.out.empty()) c.violation("rx:print-empty", D); return; }
	Auto got; if (o.out.empty()) { string w2; if (same_behaviour(J, none(), OUT_END, &w2) != 1) c.violation("no-output", D); return; } if (!readback(o, got, true)) return; c.count("rx:printed");
	bool strictly = true; auto good = [&](const vector<Obs> &ob) { Obs e = ob[1]; if (!ob[2].end) e = Obs(); if (strictly && ob[3].end) return true; return ob[0].end == e.end && ob[0].ids == e.ids; }; bool ok = judge({&got, &J, &lim, &past}, OUT_END | OUT_IDS, good, "rx:printed", D + "printed an automaton that"); strictly = false; if (ok && !early && past.n() > 1) judge({&got, &J, &lim, &past}, OUT_END | OUT_IDS, good, "rx:after-match", D + "printed an automaton that"); if (ok && got.n() > 3) c.nontrivial(hash_str(D)); c.sample(D);
}
// ---- options
static void do_usage(Ctx &c, Rng &r) {
	static const struct { const char *prog; vector<const char *> a; int rc; } u[] = {
		{"re", {"-h"}, 0}, {"re", {}, 1}, {"re", {"-p", "-m", "a"}, 1}, {"re", {"-p", "-q", "equal", "a"}, 1}, {"re", {"-m", "-t", "a"}, 1}, {"re", {"-p", "-x", "a"}, 1}, {"re", {"-M", "-m", "a"}, 1}, {"re", {"-M", "-t", "a"}, 1}, {"re", {"-z", "-q", "equal", "a", "b"}, 1}, {"re", {"-G", "2", "-m", "a"}, 1}, {"re", {"-s", "-z", "a", "b"}, 1}, {"re", {"-r", "nope", "a"}, 1}, {"re", {"-l", "nope", "a"}, 1}, {"re", {"-q", "nope", "a"}, 1}, {"re", {"-k", "nope", "a"}, 1}, {"re", {"-F", "q", "a"}, 1}, {"re", {"-G", "0", "a"}, 1}, {"re", {"-t", "a", "b"}, 1}, {"re", {"-l", "tree", "a", "b"}, 1}, {"re", {"-Z", "a"}, 1}, {"re", {"-y", "/nonexistent/x"}, 1}, {"re", {"-x", "a", "/nonexistent/x"}, 1}, {"re", {"-f", "/nonexistent/x"}, 1}, {"re", {"-p", "a", "--", "b"}, 1},
		{"fsm", {"-h"}, 0}, {"fsm", {"-t", "nope"}, 1}, {"fsm", {"-q", "nope"}, 1}, {"fsm", {"-l", "nope"}, 1}, {"fsm", {"-k", "nope"}, 1}, {"fsm", {"-G", "0"}, 1}, {"fsm", {"-Z"}, 1}, {"fsm", {"/nonexistent/x"}, 1}, {"fsm", {"-t", "union"}, 1}, {"fsm", {"-t", "equal", "-p", "/nonexistent/x", "/nonexistent/y"}, 1}, {"fsm", {"-d", "-q", "count"}, 1}, {"fsm", {"-W", "3"}, 1},
		{"rx", {"-h"}, 0}, {"rx", {}, 1}, {"rx", {"-r", "nope", "x"}, 1}, {"rx", {"-l", "nope", "x"}, 1}, {"rx", {"-k", "nope", "x"}, 1}, {"rx", {"-F", "q", "x"}, 1}, {"rx", {"-Z", "x"}, 1}, {"rx", {"/nonexistent/x"}, 1}, {"rx", {"-R", "a", "x"}, 1}, {"rx", {"-C", "a\n", "x"}, 1}, {"rx", {"-l", "amd64_att", "-u", "x"}, 1}};
	auto &x = u[r.below(sizeof u / sizeof *u)]; vector<string> v(x.a.begin(), x.a.end()); Out o = run(x.prog, v); c.count("usage"); if (expect(o, x.rc, "usage", "for these options") && o.out.empty() && o.err.empty()) c.violation("usage-silent", o.cmd);
}
void run_case(Ctx &c, u64 idx) { C = &c; Rng r(mix(c.seed * 1000003 + 23, idx)); int n = 8; for (int i = 0; i < n; i++) switch (r.weighted({42, 26, 30, 2})) { case 0: do_re(c, r); break; case 1: do_fsm(c, r); break; case 2: do_rx(c, r); break; default: do_usage(c, r); } (void)mutate; (void)key_of; }
