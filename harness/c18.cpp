// C18: any bytes as a pattern, as fsm(5) text, as an lx specification or as a group interpolation format: success or a documented
// error, nothing left allocated, the same outcome when read again, and error positions inside the input.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
extern "C" {
#include <setjmp.h>
#include <stdbool.h>
#include <sys/wait.h>
#include <fsm/parser.h>
#include <fsm/print.h>
#include <fsm/options.h>
#include <re/re.h>
#include <re/literal.h>
#include <re/groups.h>
}
#include "pcregen.hpp"
#include "dialectgen.hpp"
const char *harness_name = "c18";
// the fsm(5) parser reports a syntax error by exit(): a documented failure ("this shouldn't exit()" in parser.act)
static bool armed; static sigjmp_buf jb; static int exit_code;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int k) __attribute__((noreturn));
extern "C" void __wrap_exit(int k) { if (armed) { armed = false; exit_code = k; siglongjmp(jb, 1); } __real_exit(k); }
static const char *dn[] = {"like", "literal", "glob", "native", "sql", "pcre"};
static size_t live() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
static string mutate(Rng &r, string t, const vector<string> &tok) {
	int n = r.weighted({10, 40, 25, 15, 10}); static const unsigned char odd[] = {0, 0x80, 0xff, '\\', '(', ')', '[', ']', '{', '}', '-', '\n', '"', '\'', '/', '^', '$', 0x7f, 1};
	while (n-- > 0) { size_t p = r.below(t.size() + 1); switch (r.below(9)) {
		case 0: if (p < t.size()) t.erase(p, r.range(1, 3)); break;
		case 1: t.insert(p, 1, (char)(r.chance(50) ? odd[r.below(sizeof odd)] : r.below(256))); break;
		case 2: if (p < t.size()) t[p] = (char)(r.chance(50) ? odd[r.below(sizeof odd)] : r.below(256)); break;
		case 3: t = t.substr(0, p); break; case 4: t = t.substr(p); break;
		case 5: { size_t q = r.below(t.size() + 1); if (p > q) std::swap(p, q); string m = t.substr(p, q - p); if (m.size() < 60) { int k = r.range(1, 3); while (k--) t.insert(q, m); } break; }
		case 6: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); break;
		default: if (!tok.empty()) t.insert(p, r.pick(tok)); } }
	return t;
}
static string randbytes(Rng &r, int n) { string s; bool hi = r.chance(50); while (n-- > 0) s += (char)(hi ? r.below(256) : r.range(32, 126)); return s; }
// the largest product of counts a text could ask for: nothing here is about running out of memory
static double work(const string &t) { double w = 1; for (size_t i = 0; i < t.size(); i++) if (t[i] == '{') { size_t j = i + 1; double m = 1; while (j < t.size() && t[j] != '}') { if (isdigit((unsigned char)t[j])) { double v = 0; while (j < t.size() && isdigit((unsigned char)t[j])) v = v * 10 + (t[j++] - '0'); m = std::max(m, v); } else j++; } w *= m; } return w; }
static const vector<string> retok = {"(", ")", "[", "]", "[^", "{", "}", "{2}", "{1,3}", "{,2}", "{3,1}", "{0}", "{99999999999999999999}", "{4294967296}", "{1", "*", "+", "?", "??", "*+", "|", "^", "$", "\\", "\\x", "\\x{", "\\x{110000}", "\\x{fff}", "\\x{0}", "\\x{FFFFFFFFFFFFFFFFF}", "\\o{", "\\o{777}", "\\o{777777777777777777777777}", "\\777", "\\400", "\\0", "\\c", "\\cA", "\\Q", "\\E", "\\Qa\\E", "(?", "(?:", "(?i)", "(?z)", "(?i", "(?#", "(?#x)", "#", "(?<", "(?<n>", "(?P<n>", "(?=", "(?!a)", "(*", "(*COMMIT)", "(*UTF8)", "\\1", "\\g1", "\\k<n>", "\\R", "\\X", "\\K", "\\b", "\\B", "\\p{L}", "\\N{U+41}", "\\u", "\\u0041", "\\d", "[[:", "[:alpha:]", "[[:alpha:]]", "[[:^alpha:]]", "[[:foo:]]", "[[.x.]]", "[[=a=]]", "[a-", "-z]", "[z-a]", "[\\d-z]", "[a-\\d]", "[]]", "[^]]", "[-]", "%", "_", ".", "/", "\n", "\r", string(1, '\0'), "\x80", "\xff", "\xc3\xa9", "\xe2\x82\xac", "a", "b", "Z", "0", " ", "\\ ", "\\z", "\\A", "\\Z", "~", "&", "<", ">", "="};
static bool re_errno_known(int e) { switch (e) { case RE_EERRNO: case RE_EBADDIALECT: case RE_EBADGROUP: case RE_ENEGRANGE: case RE_ENEGCOUNT: case RE_EHEXRANGE: case RE_EOCTRANGE: case RE_ECOUNTRANGE: case RE_EUNSUPPORTED: case RE_EFLAG: case RE_EBADCP: case RE_EBADCOMMENT: case RE_EXSUB: case RE_EXTERM: case RE_EXGROUP: case RE_EXATOM: case RE_EXCOUNT: case RE_EXALTS: case RE_EXRANGE: case RE_EXCLOSEGROUP: case RE_EXCLOSEFLAGS: case RE_EXGROUPBODY: case RE_EXEOF: case RE_EXESC: return true; } return false; }
struct Out { int ok = -1; struct re_err e; u64 h = 0; int more = 0; bool operator==(const Out &o) const { return ok == o.ok && h == o.h && more == o.more && (ok > 0 || (e.e == o.e.e && (!(e.e & RE_MARK) || (e.start.byte == o.e.start.byte && e.end.byte == o.e.end.byte)))); } };
static Out once(int what, enum re_dialect d, const string &t, unsigned fl, bool noerr) {
	Out o; memset(&o.e, 0xaa, sizeof o.e); StrSrc s{&t, 0}; struct re_err *ep = noerr ? NULL : &o.e; errno = 0;
	if (what == 0) { struct fsm *f = re_comp(d, str_getc, &s, NULL, (enum re_flags)fl, ep); o.ok = f != NULL; if (f) { o.h = fsm_countstates(f) < 3000 ? snapshot(f).hash() : fsm_countstates(f); fsm_free(f); } }
	else if (what == 1) { enum re_literal_category cat = (enum re_literal_category)0; char *l = NULL; size_t n = 0; int k = re_is_literal(d, str_getc, &s, (enum re_flags)fl, ep, &cat, &l, &n); o.ok = k >= 0; o.more = k; if (k == 1) { o.more += 10 * (int)cat; if (n && l) o.h = hash_str(string(l, n)); free(l); } }
	else { int k = (int)re_is_anchored(d, str_getc, &s, (enum re_flags)fl, ep); o.ok = k != RE_IS_ANCHORED_ERROR; o.more = k; }
	return o;
}
static void re_case(Ctx &c, Rng &r) {
	enum re_dialect d = r.pick(vector<enum re_dialect>{RE_PCRE, RE_PCRE, RE_PCRE, RE_NATIVE, RE_NATIVE, RE_SQL, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL}); unsigned fl = 0; for (unsigned b : {RE_ICASE, RE_TEXT, RE_MULTI, RE_REVERSE, RE_SINGLE, RE_ZONE, RE_ANCHORED, RE_EXTENDED, RE_END_NL, RE_SAVE_LINKAGE_INFO}) if (r.chance(8)) fl |= b;
	string t; switch (r.weighted({35, 35, 8, 5, 2})) {
		case 0: if (d == RE_PCRE) { if (r.chance(20)) t = soup(r); else { Gen g(r, fl); g.alts(r.chance(60) ? 1 : 3); t = g.t; } } else { DGen g(r, d, fl); g.top(); t = g.t; } t = mutate(r, t, retok); break;
		case 1: { int n = r.range(1, 9); while (n--) t += r.pick(retok); break; }
		case 2: t = randbytes(r, r.range(0, 40)); break;
		case 3: { string one = r.pick(retok), cl; int n = r.range(1, 300); for (int i = 0; i < n; i++) { t += one; if (one[0] == '(' && r.chance(90)) cl += ")"; } if (r.chance(70)) t += "a" + cl; break; } // nested or repeated
		default: { int n = r.range(100, 3000); while (n-- > 0) t += (char)r.range('a', 'z'); if (r.chance(50)) t = mutate(r, t, retok); } }
	double w = work(t); if (w * t.size() > 20000) { c.count("skipped: large counts"); return; }
	string desc = string(dn[d]) + " pattern " + esc(t) + fmt(" flags 0x%x", fl); if (c.replay) fprintf(stderr, "%s\n", desc.c_str());
	for (int what = 0; what < 3; what++) { bool noerr = r.chance(4); static const char *wn[] = {"re_comp", "re_is_literal", "re_is_anchored"};
		size_t b0 = live(); Out a = once(what, d, t, fl, noerr); size_t b1 = live(); Out b = once(what, d, t, fl, noerr); size_t b2 = live(); c.eval(3);
		if (b1 > b0 && b2 > b1) { once(what, d, t, fl, noerr); size_t b3 = live(); if (b3 > b2) c.violation(string("leak:") + wn[what] + (a.ok ? ":success" : ":failure"), desc + fmt(": %s leaves %zu bytes allocated", wn[what], b3 - b2)); }
		c.count(string(wn[what]) + (a.ok ? ":ok" : ":refused")); if (noerr) { if (a.ok != b.ok) c.violation("again", desc); continue; }
		if (!(a == b)) c.violation(string("again:") + wn[what], desc + fmt(": %s says %d/%d the first time, %d/%d again", wn[what], a.ok, a.e.e, b.ok, b.e.e));
		if (a.ok) continue;
		if (!re_errno_known(a.e.e)) { c.violation(fmt("errno:%s:%d", wn[what], (int)a.e.e), desc + fmt(": %s fails with error %d", wn[what], (int)a.e.e)); continue; }
		c.count("refused:" + string(re_strerror(a.e.e)));
		if (a.e.e & RE_MARK) { c.eval(); c.count("positions"); if (a.e.start.byte > a.e.end.byte) c.violation("position:order", desc + fmt(": %s (%s) at %u-%u", wn[what], re_strerror(a.e.e), a.e.start.byte, a.e.end.byte)); else if (a.e.end.byte > t.size()) c.violation("position:outside", desc + fmt(": %s (%s) at %u-%u of %zu bytes", wn[what], re_strerror(a.e.e), a.e.start.byte, a.e.end.byte, t.size())); }
		if (a.e.e == RE_EHEXRANGE || a.e.e == RE_EOCTRANGE || a.e.e == RE_ECOUNTRANGE) { size_t n = strnlen(a.e.esc, sizeof a.e.esc); if (n == sizeof a.e.esc || memchr(a.e.esc, 0xaa, n)) c.violation("error:esc", desc); }
		if (a.e.e == RE_ENEGRANGE) { size_t n = strnlen(a.e.set, sizeof a.e.set); if (n == sizeof a.e.set || memchr(a.e.set, 0xaa, n)) c.violation("error:set", desc); }
		if (a.e.e == RE_ENEGCOUNT && a.e.m <= a.e.n) c.violation("error:count", desc + fmt(": {%u,%u} reported", a.e.m, a.e.n));
		char *mp; size_t mn; FILE *f = open_memstream(&mp, &mn), *old = stderr; stderr = f; re_perror(d, &a.e, r.chance(50) ? "file" : NULL, r.chance(50) ? t.c_str() : NULL); stderr = old; fclose(f); if (!mn || mp[mn - 1] != '\n') c.violation("error:text", desc); free(mp);
	}
	c.nontrivial(mix(hash_str(t), d * 2000 + fl)); c.sample(desc);
}
// ---- fsm(5)
static const vector<string> fsmtok = {"0", "1", "2", "3", "a", "state", "->", "->", "->", ";", ";", ";", ",", "start:", "end:", "start", ":", "=", "= [1]", "= [1, 2]", "[", "]", "?", "\"a\"", "\"\"", "\"\\x41\"", "\"\\xff\"", "\"\\x100\"", "\"\\101\"", "\"\\777\"", "\"\\0\"", "\"\\q\"", "\"\\n\"", "\"ab\"", "'a'", "\"", "#", "# c\n", "\n", " ", "\t", "4294967295", "4294967296", "99999999999999999999999", "-1", "_", "\xff", string(1, '\0'), "\\", "/", "_a9", "\"\\\"\"", "\"\\\\\""};
struct POut { int kind = 0; u64 h = 0; string msg; bool operator==(const POut &o) const { return kind == o.kind && h == o.h && msg == o.msg; } };
static POut parse_once(const string &t, size_t *leak) {
	POut o; static size_t b0; b0 = live(); static char *mp; static size_t mn; mp = NULL; static FILE *in, *errf, *old; static struct fsm *f; in = fmemopen((void *)t.data(), t.size() ? t.size() : 1, "r"); if (t.empty()) fgetc(in); errf = open_memstream(&mp, &mn); old = stderr; f = NULL; exit_code = -1;
	if (sigsetjmp(jb, 0) == 0) { armed = true; stderr = errf; f = fsm_parse(in, NULL); armed = false; } stderr = old; 
	if (exit_code >= 0) o.kind = 10 + exit_code; else if (f) { o.kind = 1; o.h = snapshot(f).hash(); fsm_free(f); } 
	fclose(errf); o.msg = string(mp, mn); free(mp); fclose(in); if (leak) { size_t b1 = live(); *leak = exit_code < 0 && b1 > b0 ? b1 - b0 : 0; } return o;
}
static bool positions_ok(const string &msg, const string &t, string &why) {
	vector<size_t> len(1, 0); for (char ch : t) if (ch == '\n') len.push_back(0); else len.back()++;
	size_t p = 0; while (p < msg.size()) { size_t q = msg.find('\n', p); if (q == string::npos) q = msg.size(); string l = msg.substr(p, q - p); p = q + 1; unsigned a, b; int k = 0; if (sscanf(l.c_str(), "%u:%u:%n", &a, &b, &k) < 2 || !k) continue; if (a < 1 || a > len.size() || b < 1 || b > len[a - 1] + 2) { why = l; return false; } }
	return true;
}
static void fsm_case(Ctx &c, Rng &r) {
	string t; switch (r.weighted({50, 40, 10})) {
		case 0: { GenOpt go; go.ids = r.below(3); Auto m = random_auto(r, go); struct fsm *f = build(m, NULL); if (!f) return; static struct fsm_options opt; memset(&opt, 0, sizeof opt); opt.anonymous_states = 1; opt.consolidate_edges = r.chance(50); opt.comments = r.chance(30); opt.always_hex = r.chance(20); char *mp; size_t mn; FILE *o = open_memstream(&mp, &mn); fsm_print(o, f, &opt, NULL, FSM_PRINT_FSM); fclose(o); t = string(mp, mn); free(mp); fsm_free(f); if (t.size() > 20000) t.resize(20000); t = mutate(r, t, fsmtok); break; }
		case 1: { int n = r.range(1, 30); while (n--) { t += r.pick(fsmtok); if (r.chance(50)) t += " "; } if (r.chance(10)) { string p = "0 -> 1"; int k = r.range(1, 3000); while (k--) p += r.chance(50) ? " \"a\"" : "x"; t += p + ";"; } break; }
		default: t = randbytes(r, r.range(0, 60)); }
	if (c.replay) fprintf(stderr, "fsm text %s\n", esc(t).c_str());
	size_t l1, l2, l3; POut a = parse_once(t, &l1), b = parse_once(t, &l2); c.eval(2); c.count(a.kind == 1 ? "fsm:ok" : a.kind == 0 ? "fsm:null" : fmt("fsm:exit %d", a.kind - 10));
	if (!(a == b)) c.violation("fsm:again", "fsm(5) text " + esc(t) + " read twice gives " + fmt("%d, %d: ", a.kind, b.kind) + a.msg + " / " + b.msg);
	if (l1 && l2) { POut x = parse_once(t, &l3); if (l3) c.violation(fmt("leak:fsm_parse:%s", a.kind == 1 ? "success" : "failure"), "fsm(5) text " + esc(t) + fmt(" leaves %zu bytes allocated", l3)); }
	if (a.kind >= 10 && a.kind != 11) c.violation("fsm:status", esc(t) + fmt(" exit %d", a.kind - 10)); if (a.kind >= 10 && a.msg.empty()) c.violation("fsm:silent", "fsm(5) text " + esc(t) + " is refused without a message"); if (a.kind == 1 && !a.msg.empty()) c.count("fsm:ok with a message");
	string why; c.eval(); if (!positions_ok(a.msg, t, why)) c.violation("fsm:position", "fsm(5) text " + esc(t) + " gets " + why);
	if (t.size() > 4) c.nontrivial(hash_str(t));
}
// ---- lx(5)
static const vector<string> lxtok = {"'a'", "'if'", "\"a\"", "\"\\x41\"", "\"\\n\"", "\"\\777\"", "\"\\x100\"", "/a/", "/[a-z]+/i", "/a*/", "/(/", "/a/q", "/./s", "//", "''", "\"\"", "->", "->", "->", "..", "$tok", "$a", "$b", "$_", ";", ";", ";", "{", "}", "(", ")", "|", "&", "-", ".", "~", "!", "^", "*", "+", "?", ",", "=", "x", "y", "x = /b/;", "#c\n", "\n", " ", "'", "\"", "/", "\\", string(1, '\0'), "\xff", "'b' -> $b;", "/[0-9]+/ -> $num;", "'(' .. ')' -> $p { /x/ -> $x; }", "'s' -> $s { 't' -> $t; }"};
static vector<string> lxfiles;
static void lx_case(Ctx &c, Rng &r) {
	if (lxfiles.empty()) for (const char *p : {"/src/lx/lexer.lx", "/src/libfsm/lexer.lx", "/src/libre/dialect/glob/lexer.lx", "/src/libre/dialect/like/lexer.lx", "/src/libre/dialect/literal/lexer.lx", "/src/libre/dialect/native/lexer.lx", "/src/libre/dialect/sql/lexer.lx"}) { FILE *f = fopen((c.build + p).c_str(), "r"); if (!f) continue; string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); lxfiles.push_back(s); }
	string t; switch (r.weighted({30, 45, 10, 15})) {
		case 0: t = lxfiles.empty() ? "" : r.pick(lxfiles); t = mutate(r, t, lxtok); break;
		case 1: { int n = r.range(1, 16); while (n--) { t += r.pick(lxtok); if (r.chance(60)) t += " "; } break; }
		case 2: t = randbytes(r, r.range(0, 50)); break;
		default: { string q = r.pick(vector<string>{"'", "\"", "/"}); int n = r.chance(40) ? r.range(500, 530) : r.range(1, 1200); t = q; while (n-- > 0) t += (char)r.range('a', 'z'); t += q + " -> $a;"; if (r.chance(40)) t = mutate(r, t, lxtok); } }
	if (c.replay) fprintf(stderr, "lx text %s\n", esc(t).c_str());
	static const char *langs[] = {"c", "h", "dot", "dump", "test", "zdot"}; const char *lang = langs[r.weighted({50, 10, 15, 15, 5, 5})]; string in = c.scratch + "/in.lx", er = c.scratch + "/lx.err", res[2]; int st[2];
	FILE *f = fopen(in.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); bool n2 = r.chance(25), code = !strcmp(lang, "c") || !strcmp(lang, "h") || !strcmp(lang, "dump"), fixedbuf = r.chance(30);
	for (int k = 0; k < (n2 ? 2 : 1); k++) {
		pid_t p = fork(); if (p == 0) { struct rlimit rl = {8, 9}; setrlimit(RLIMIT_CPU, &rl); int a = open(in.c_str(), O_RDONLY), b = open((c.scratch + "/lx.out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(er.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(a, 0); dup2(b, 1); dup2(e, 2); execl((c.build + "/build/bin/lx").c_str(), "lx", "-l", lang, code ? "-b" : (char *)NULL, fixedbuf ? "fixed" : "dyn", "-g", "fgetc", (char *)NULL); _exit(127); }
		int s; waitpid(p, &s, 0); st[k] = s; auto slurp = [](const string &n) { string o; FILE *f = fopen(n.c_str(), "r"); if (!f) return o; char b[4096]; size_t m; while ((m = fread(b, 1, sizeof b, f)) > 0) o.append(b, m); fclose(f); return o; }; res[k] = slurp(er); if (WIFEXITED(s) && WEXITSTATUS(s) == 0) res[k] += slurp(c.scratch + "/lx.out"); }
	int s = st[0]; c.eval(); string desc = fmt("lx -l %s reading ", lang) + esc(t.substr(0, 2500));
	if (WIFSIGNALED(s) && (WTERMSIG(s) == SIGXCPU || WTERMSIG(s) == SIGKILL)) { c.unsure("lx: time"); return; }
	size_t ap = res[0].find("Assertion"), ub = res[0].find("runtime error"), as = res[0].find("ERROR: AddressSanitizer");
	if (!WIFEXITED(s) || ap != string::npos || ub != string::npos || as != string::npos) { string key = "lx:crash"; size_t p = ap != string::npos ? ap : ub != string::npos ? ub : as; if (p != string::npos) { string l = res[0].substr(p, res[0].find('\n', p) - p); if (as != string::npos && p == as) { size_t w = res[0].find("/src/", p); l = res[0].substr(as + 25, 40); l = l.substr(0, l.find(' ')); if (w != string::npos) { size_t ls = res[0].rfind(" in ", w); l += " " + res[0].substr(ls + 4, w - ls - 4); l = l.substr(0, l.rfind(' ')); } } key = "lx:crash:"; for (char ch : l.substr(0, 90)) if (isalpha((unsigned char)ch) || ch == ':') key += ch; else if (key.back() != '-') key += '-'; } c.violation(key, desc + fmt(": wait status %x: ", s) + res[0].substr(0, 2500)); return; }
	c.count(fmt("lx:exit %d", WEXITSTATUS(s))); if (WEXITSTATUS(s) > 1) c.violation(fmt("lx:status:%d", WEXITSTATUS(s)), desc + ": " + res[0].substr(0, 500)); if (WEXITSTATUS(s) == 1 && res[0].empty()) c.violation("lx:silent", desc + " is refused without a message");
	if (n2 && (st[0] != st[1] || res[0] != res[1])) c.violation("lx:again", desc + " gives different results when read again: " + res[0].substr(0, 300) + " / " + res[1].substr(0, 300));
	string why; c.eval(); if (WEXITSTATUS(s) == 1 && !positions_ok(res[0], t, why)) c.violation("lx:position", desc + " gets " + why);
	c.nontrivial(hash_str(t));
}
// ---- group interpolation formats
static void interp_case(Ctx &c, Rng &r) {
	string f = r.chance(50) ? randbytes(r, r.range(0, 30)) : mutate(r, "$0a$1b$$c$10", {"$", "$$", "$1", "$99999999999999999999", "$4294967297", "\\"}); for (char &ch : f) if (!ch) ch = 1; char e = r.chance(70) ? '$' : (char)r.range(1, 255); if (e >= '0' && e <= '9') e = '%';
	const char *g[] = {"x", "", "yy"}; size_t room = r.below(40); char *out = (char *)malloc(room ? room : 1); char *ff = (char *)malloc(f.size() + 1); memcpy(ff, f.c_str(), f.size() + 1); struct re_pos s = {~0u}, t = {~0u}; bool ok[2]; 
	for (int k = 0; k < 2; k++) { bool no = r.chance(20); s.byte = t.byte = ~0u; ok[k] = re_interpolate_groups(ff, e, "zero", 3, g, r.chance(50) ? "none" : NULL, no ? NULL : out, no ? 0 : room, &s, &t); c.eval(); if (!ok[k]) { c.count("interpolate:refused"); if (s.byte > t.byte || t.byte > f.size()) c.violation("interpolate:position", esc(f) + fmt(" escape %02x room %zu: %u-%u", (unsigned char)e, room, s.byte, t.byte)); } else c.count("interpolate:ok"); }
	free(out); free(ff);
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); static bool warm; if (!warm) { warm = true; c.frozen = true; bool rp = c.replay; c.replay = false; Rng w(7); for (int i = 0; i < 5; i++) { re_case(c, w); fsm_case(c, w); } c.frozen = false; c.replay = rp; }
	switch (r.weighted({70, 18, 6, 6})) { case 0: re_case(c, r); break; case 1: fsm_case(c, r); break; case 2: lx_case(c, r); break; default: interp_case(c, r); }
}
