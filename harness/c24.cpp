// C24: lexers generated from random specifications, run against longest-match scanning of the specification's meaning.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
#include <sys/wait.h>
extern "C" {
#include <re/re.h>
}
#include "dialectgen.hpp"
const char *harness_name = "c24";
static string read_file(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void write_file(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { fprintf(stderr, "HARNESS cannot write %s\n", p.c_str()); _exit(3); } }
// ---- languages
static void put(Auto &a, const Auto &b, int &st, vector<int> &ends) { int base = a.n(); for (auto &x : b.s) { a.s.push_back(x); auto &y = a.s.back(); for (auto &p : y.e) p.first += base; for (int &t : y.eps) t += base; y.end = false; y.ids.clear(); } st = b.start < 0 ? -1 : base + b.start; for (int i = 0; i < b.n(); i++) if (b.s[i].end) ends.push_back(base + i); }
static Auto none() { Auto a; a.start = a.add(); return a; }
static Auto alt(const Auto &x, const Auto &y) { Auto a; int s = a.add(), f = a.add(); a.start = s; a.s[f].end = true; for (auto *b : {&x, &y}) { int st; vector<int> e; put(a, *b, st, e); if (st >= 0) a.eps(s, st); for (int i : e) a.eps(i, f); } return a; }
static Auto cat(const Auto &x, const Auto &y) { Auto a; int s1, s2; vector<int> e1, e2; put(a, x, s1, e1); put(a, y, s2, e2); int s = a.add(); a.start = s; if (s1 >= 0) a.eps(s, s1); for (int i : e1) if (s2 >= 0) a.eps(i, s2); for (int i : e2) a.s[i].end = true; return a; }
static Auto rep(const Auto &x, bool zero, bool many) { Auto a; int s = a.add(), f = a.add(); a.start = s; a.s[f].end = true; int st; vector<int> e; put(a, x, st, e); if (st >= 0) a.eps(s, st); for (int i : e) { a.eps(i, f); if (many && st >= 0) a.eps(i, st); } if (zero) a.eps(s, f); return a; }
static Auto rev(const Auto &x) { Auto b; b.s.resize(x.n()); int st = b.add(); b.start = st; for (int i = 0; i < x.n(); i++) { for (auto &p : x.s[i].e) b.edge(p.first, i, p.second); for (int t : x.s[i].eps) b.eps(t, i); if (x.s[i].end) b.eps(st, i); } if (x.start >= 0) b.s[x.start].end = true; return b; }
static bool fail; // over budget
static Auto dfa_auto(const Dfa &d, bool flip) { Auto a; for (int i = 0; i < d.n(); i++) { a.add(); a.s[i].end = d.o[i].end != flip; } a.start = d.start; for (int i = 0; i < d.n(); i++) { std::map<int, Sym> m; for (unsigned c = 0; c < 256; c++) m[d.t[i][d.cl.of[c]]].set(c); for (auto &p : m) a.edge(i, p.first, p.second); } return a; }
static Auto notl(const Auto &x) { Dfa d; if (!model_dfa(x, OUT_END, d, 400, 60000)) { fail = true; return none(); } return dfa_auto(d, true); }
static Auto both(const Auto &x, const Auto &y) { Dfa p, q; if (!model_dfa(x, OUT_END, p, 400, 60000) || !model_dfa(y, OUT_END, q, 400, 60000)) { fail = true; return none(); } Auto a; std::map<std::pair<int, int>, int> id; vector<std::pair<int, int>> todo; auto st = [&](int i, int j) { auto it = id.find({i, j}); if (it != id.end()) return it->second; int k = a.add(); a.s[k].end = p.o[i].end && q.o[j].end; id[{i, j}] = k; todo.push_back({i, j}); return k; };
	a.start = st(p.start, q.start); while (!todo.empty()) { auto [i, j] = todo.back(); todo.pop_back(); int k = id[{i, j}]; std::map<int, Sym> m; for (unsigned c = 0; c < 256; c++) { int u = p.t[i][p.cl.of[c]], v = q.t[j][q.cl.of[c]]; if (p.live[u] && q.live[v]) m[st(u, v)].set(c); } for (auto &e : m) a.edge(k, e.first, e.second); if (a.n() > 3000) { fail = true; return none(); } } return a; }
static Auto minus(const Auto &x, const Auto &y) { return both(x, notl(y)); }
static Auto of_re(const ReP &e) { return re_subjects(e, true, true); }
static Auto shrink(const Auto &x) { Dfa d; if (!model_dfa(x, OUT_END, d, 600, 100000)) { fail = true; return none(); } vector<int> cls; int k = minimal_size(d, &cls); Auto a; if (k == 0 || cls[d.start] < 0) return none(); std::map<int, int> id; auto st = [&](int c) { auto it = id.find(c); if (it != id.end()) return it->second; int q = a.add(); id[c] = q; return q; }; a.start = st(cls[d.start]); vector<char> done(d.n() + 2, 0); for (int i = 0; i < d.n(); i++) { if (cls[i] < 0) continue; int q = st(cls[i]); a.s[q].end = d.o[i].end; if (done[q]) continue; done[q] = 1; for (unsigned c = 0; c < 256; c++) { int y = d.t[i][d.cl.of[c]]; if (cls[y] >= 0) a.edge(q, st(cls[y]), c); } } return a; }
static bool has_empty(const Auto &a) { return model_run(a, "", OUT_END).end; }
static bool is_empty(const Auto &a) { return same_behaviour(a, none(), OUT_END, nullptr) == 1; }
static bool unsupported(const string &t, unsigned fl) { StrSrc src{&t, 0}; struct re_err err; struct fsm *f = re_comp(RE_NATIVE, str_getc, &src, nullptr, (enum re_flags)fl, &err); if (f) { fsm_free(f); return false; } return err.e == RE_EUNSUPPORTED; }
static bool overlap(const Auto &x, const Auto &y) { return !is_empty(both(x, y)); }
// ---- specifications
struct Map { Auto lang; int tok, to; };
struct Zone { int parent = -1; bool has_exit = false; std::map<string, Auto> vars; vector<Map> ml; };
struct Spec { string text; vector<Zone> z; vector<string> toks; int nvar = 0; Rng &r; bool icase_ok = true; int budget; string ab; Spec(Rng &r_) : r(r_) {}
	string toklit(const string &s, Auto &a) { a = of_re(re_str(s)); string t; bool dq = r.chance(40) || s.find('\'') != string::npos; if (!dq) return "'" + s + "'"; t = "\""; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; static const char ec[] = "\\\"\f\n\r\t\v", en[] = "\\\"fnrtv"; const char *p = c ? strchr(ec, c) : nullptr; unsigned char nx = i + 1 < s.size() ? s[i + 1] : 0; bool numok = !isxdigit(nx); if (p) { if (numok && r.chance(20)) t += fmt("\\x%x", c); else t += fmt("\\%c", en[p - ec]); } else if ((c == 0 || c >= 127 || c < 32) || r.chance(10)) { if (numok) t += r.chance(50) ? fmt("\\x%02X", c) : fmt("\\%o", c); else t += (char)c; } else t += (char)c; } return t + "\""; }
	char ch() { if (r.chance(6)) return '\n'; if (r.chance(4)) return (char)r.range(0x80, 0xff); if (r.chance(2)) return (char)r.range(1, 31); if (r.chance(5)) return r.pick(vector<char>{'/', '*', '"', '\'', ' ', '\\', '#', ';', '{', '}'}); return ab[r.below(ab.size())]; }
	string classtext(Sym &s) { string t; bool neg = r.chance(15); int n = r.range(1, 3); for (int i = 0; i < n; i++) { unsigned char c = ab[r.below(ab.size())]; if (!isalnum(c)) c = 'q'; if (r.chance(40)) { unsigned char d = c; for (int k = r.below(4); k > 0 && isalnum(d + 1); k--) d++; t += (char)c; t += '-'; t += (char)d; s = s | Sym::range(c, d); } else { t += (char)c; s.set(c); } } if (r.chance(15)) { t += "\\n"; s.set('\n'); } if (r.chance(15)) { t += " "; s.set(' '); } if (neg) s = ~s; return (neg ? "[^" : "[") + t + "]"; }
	string regex(Auto &a) { // a native pattern, in slashes
		for (int t = 0; t < 20 && r.chance(25); t++) { unsigned fl = RE_ANCHORED | RE_SINGLE | (r.chance(25) ? RE_ICASE : 0); DGen g(r, RE_NATIVE, fl); g.anchors = false; g.budget = std::min(g.budget, 6); ReP e = g.top(); if (g.t.find('/') != string::npos || g.t.empty() || g.t.size() > 200 || g.t.find('\0') != string::npos || re_size(e) > 80 || unsupported(g.t, fl)) continue; a = of_re(e); return "/" + g.t + "/" + (fl & RE_ICASE ? "i" : ""); }
		string t; vector<ReP> v; int n = r.range(1, 3); bool ic = r.chance(8); auto sy = [&](Sym s) { return re_set(ic ? fold(s) : s); };
		for (int i = 0; i < n; i++) { ReP e; switch (r.below(4)) { case 0: { Sym s; string cl = classtext(s); t += cl; e = re_set(!ic ? s : cl[1] == '^' ? ~fold(~s) : fold(s)); break; } case 1: if (r.chance(25)) { t += "."; e = re_set(Sym::all()); break; } /* fall through */ default: { char c = ab[r.below(ab.size())]; if (!isalnum((unsigned char)c)) c = 'z'; t += c; e = sy(Sym::one((unsigned char)c)); } } switch (r.below(7)) { case 0: t += "*"; e = re_rep(e, 0, -1); break; case 1: case 2: t += "+"; e = re_rep(e, 1, -1); break; case 3: t += "?"; e = re_rep(e, 0, 1); break; case 4: if (r.chance(50)) { int m = r.range(1, 3), k = m + (int)r.below(3); t += fmt("{%d,%d}", m, k); e = re_rep(e, m, k); } break; } v.push_back(e); }
		a = of_re(re_cat(v)); return "/" + t + "/" + (ic ? "i" : ""); }
	// levels: 0 alt, 1 and, 2 sub, 3 cat, 4 prefix, 5 postfix, 6 primary
	string expr(int z, int lev, int depth, Auto &a) {
		if (fail) { a = none(); return "'x'"; } string t; int k = depth <= 0 ? 0 : r.weighted({40, 12, 16, 6, 4, 9, 9, 9}); int need = 6; budget--; if (budget < 0) k = 0;
		switch (k) {
		case 1: { Auto x, y; string p = expr(z, 0, depth - 1, x), q = expr(z, 1, depth - 1, y); t = p + " | " + q; a = alt(x, y); need = 0; break; }
		case 2: { Auto x, y; string p = expr(z, 4, depth - 1, x), q = expr(z, 3, depth - 1, y); if (is_empty(x) || is_empty(y)) { t = p + " & " + q; a = none(); need = 1; if (lev > 1) t = "(" + t + ")"; need = 6; break; } t = p + " " + q; a = cat(x, y); need = 3; break; }
		case 3: { Auto x, y; string p = expr(z, 3, depth - 1, x), q = expr(z, 2, depth - 1, y); t = p + (r.chance(70) ? " - " : " \\ ") + q; a = shrink(minus(x, y)); need = 2; break; }
		case 4: { Auto x, y; string p = expr(z, 1, depth - 1, x), q = expr(z, 2, depth - 1, y); t = p + " & " + q; a = shrink(both(x, y)); need = 1; break; }
		case 5: { Auto x; string p = expr(z, 5, depth - 1, x); if (is_empty(x)) { t = p; a = x; need = 6; if (lev) t = "(" + t + ")"; break; } int w = r.below(3); t = p + "*+?"[w]; a = rep(x, w != 1, w != 2); need = 5; break; }
		case 6: { Auto x; string p = expr(z, 4, depth - 1, x); int w = r.weighted({20, 45, 35}); t = "~!^"[w] + p; a = w == 0 ? shrink(notl(x)) : w == 1 ? rev(x) : x; need = 4; break; }
		case 7: { vector<string> v; for (int q = z; q >= 0; q = this->z[q].parent) for (auto &p : this->z[q].vars) v.push_back(p.first); if (!v.empty() && r.chance(70)) { t = r.pick(v); for (int q = z; q >= 0; q = this->z[q].parent) { auto it = this->z[q].vars.find(t); if (it != this->z[q].vars.end()) { a = it->second; break; } } break; }
			if (!toks.empty() && r.chance(60)) { int n = r.below(toks.size()); t = "$" + toks[n]; a = none(); for (auto &m : this->z[z].ml) if (m.tok == n) a = alt(a, m.lang); break; } } /* fall through */
		default: if (r.chance(50)) { string s; int n = r.chance(3) ? 0 : r.range(1, r.chance(70) ? 2 : 5); while (n-- > 0) s += ch(); t = toklit(s, a); } else t = regex(a); }
		if (need < lev || r.chance(5)) t = "(" + t + ")"; return t; }
	int tok() { if (!toks.empty() && r.chance(25)) return r.below(toks.size()); static const char *const w[] = {"a", "id", "num", "op_x", "str", "kw", "tok2", "z9", "end", "nl", "ch", "esc", "open", "close", "b", "c"}; string s = w[r.below(16)]; for (size_t i = 0; i < toks.size(); i++) if (toks[i] == s) return i; toks.push_back(s); return (int)toks.size() - 1; }
	void ind(string &t, int d) { if (r.chance(70)) { t += "\n"; t.append(d, '\t'); } else t += " "; if (r.chance(3)) t += "# a comment's \"text\" /x\n"; }
	void add(int zi, const Auto &a, int tok, int to) { for (auto &m : z[zi].ml) if (m.tok == tok && m.to == to) { m.lang = alt(m.lang, a); return; } z[zi].ml.push_back({a, tok, to}); }
	// expression for a mapping of zone zi, made different from the other mappings there most of the time
	string mexpr(int zi, int target, const Auto *exit, int tok, int to, Auto &full, Auto &eff, string &vardefs, bool isexit) {
		budget = r.range(1, 8); Auto a; string t = expr(zi, 0, r.chance(50) ? 1 : r.range(1, 3), a); a = shrink(a);
		if (r.chance(93)) { if (has_empty(a)) { t = "(" + t + ") - " + (r.chance(50) ? "''" : "\"\""); a = shrink(minus(a, of_re(re_leaf(Re::EMPTY)))); }
			Auto e2 = exit ? minus(a, *exit) : a; Auto clash = none(); bool any = false; for (auto &m : z[target].ml) if ((m.tok != tok || m.to != to) && overlap(m.lang, e2)) { clash = alt(clash, m.lang); any = true; }
			if (any) { if (isexit || target != zi) { a = none(); fail = true; } else { vector<string> names; for (auto &m : z[zi].ml) if (m.tok >= 0) names.push_back("$" + toks[m.tok]); std::sort(names.begin(), names.end()); names.erase(std::unique(names.begin(), names.end()), names.end()); Auto cut = none(); for (auto &m : z[zi].ml) if (m.tok >= 0) cut = alt(cut, m.lang); string nt; for (auto &n : names) nt += (nt.empty() ? "" : " | ") + n; if (nt.empty()) { t = "(" + t + ") & (" + t + ")"; } else { t = "(" + t + ") - (" + nt + ")"; a = shrink(minus(a, cut)); } } } }
		full = a; eff = exit ? shrink(minus(a, *exit)) : a; return t; }
	void things(int zi, int d, const Auto *exit, int depth, string &out) {
		int n = r.range(1, d == 0 ? 6 : 4); if (r.chance(4)) { out += fmt(" v%d = 'x';", nvar++); n = 0; }
		for (int i = 0; i < n && !fail; i++) { ind(out, d); Auto full, eff; string vd; int kind = r.weighted({62, 14, depth > 0 && z.size() < 5 ? 6u : 0u, depth > 0 && z.size() < 5 ? 22u : 0u});
			if (kind == 1) { string nm = fmt("%s%d", r.chance(50) ? "v" : "x_", nvar++); budget = 4; string t = expr(zi, 0, 2, full); out += nm + " = " + t + ";"; z[zi].vars[nm] = shrink(full); continue; }
			int tk = r.chance(kind == 0 ? 80 : 45) ? tok() : -1;
			if (kind == 0) { string t = mexpr(zi, zi, exit, tk, -1, full, eff, vd, false); if (fail) return; out += t + (tk >= 0 ? " -> $" + toks[tk] : "") + ";"; add(zi, eff, tk, -1); continue; }
			int child = z.size(); string head; vector<std::pair<Auto, int>> ent; int nf = kind == 3 && r.chance(20) ? 2 : 1;
			{ string t = mexpr(zi, zi, exit, tk, child, full, eff, vd, false); if (fail) return; out += t + (tk >= 0 ? " -> $" + toks[tk] : ""); Zone nz; nz.parent = zi; z.push_back(nz); add(zi, eff, tk, child); }
			for (int q = 1; q < nf; q++) { int tk2 = r.chance(50) ? tok() : -1; string t = mexpr(zi, zi, exit, tk2, child, full, eff, vd, false); if (fail) return; out += ", " + t + (tk2 >= 0 ? " -> $" + toks[tk2] : ""); add(zi, eff, tk2, child); }
			if (kind == 2) { ind(out, d); out += "{"; things(child, d + 1, nullptr, depth - 1, out); ind(out, d); out += "}"; continue; }
			out += " .. "; Auto ex = none(); int nt = r.chance(20) ? 2 : 1; for (int q = 0; q < nt; q++) { int tk2 = r.chance(50) ? tok() : -1; string t = mexpr(zi, child, nullptr, tk2, zi, full, eff, vd, true); if (fail) return; out += (q ? ", " : "") + t + (tk2 >= 0 ? " -> $" + toks[tk2] : ""); add(child, full, tk2, zi); ex = alt(ex, full); }
			z[child].has_exit = true; ex = shrink(ex);
			if (r.chance(40)) { out += ";"; add(child, shrink(minus(of_re(re_set(Sym::all())), ex)), -1, -1); } else { out += " {"; things(child, d + 1, &ex, depth - 1, out); ind(out, d); out += "}"; } } } };
// ---- scanning
struct ZD { Dfa d; vector<int> map; bool live(int q) const { return d.live[q]; } };
struct Ev { int tok; string text; unsigned sb, sl, sc, eb, el, ec; bool anytext = false, either = false; size_t longest = 0; }; // tok: index, -1 EOF, -2 UNKNOWN
struct Pos { unsigned b = 0, l = 1, c = 1; void step(unsigned char x) { b++; c++; if (x == '\n') { l++; c = 1; } } };
struct Scan { const Spec &s; const vector<ZD> &z; const string &in; size_t i = 0; int cur = 0; Pos end; bool done = false; u64 runs = 0, switches = 0;
	Scan(const Spec &s_, const vector<ZD> &z_, const string &in_) : s(s_), z(z_), in(in_) {}
	Ev next() { Ev e; e.tok = -1; e.sb = end.b, e.sl = end.l, e.sc = end.c; if (done) { e.eb = end.b, e.el = end.l, e.ec = end.c; e.anytext = true; return e; } size_t longest = 0;
		for (;;) { Pos st = end; size_t i0 = i; const ZD &zd = z[cur]; int q = zd.d.start; bool stop = false;
			while (i < in.size()) { unsigned char c = in[i]; int y = zd.d.t[q][zd.d.cl.of[c]]; if (!zd.d.live[y]) { stop = true; break; } q = y; i++; end.step(c); }
			longest = std::max(longest, i - i0 + (stop ? 1 : 0)); auto fin = [&](int tk) { e.tok = tk; e.text = in.substr(i0, i - i0); e.sb = st.b, e.sl = st.l, e.sc = st.c; e.eb = end.b, e.el = end.l, e.ec = end.c; e.longest = longest; return e; };
			if (!stop && i == i0) { auto v = fin(-1); v.anytext = true; return v; }
			if (!zd.d.o[q].end) { done = true; auto v = fin(-2); v.anytext = true; return v; }
			const Map &m = s.z[cur].ml[zd.d.o[q].ids[0]]; runs++; int was = cur; if (m.to >= 0) { cur = m.to; switches++; } if (m.tok >= 0) return fin(m.tok);
			if (!stop) { if (m.to >= 0) continue; auto v = fin(-1); v.anytext = true; v.either = s.z[was].has_exit; return v; } } } };
struct Conf { int io, g, buf; bool xpos, xname, xex, xcom, xbuf, hex, dump; string api, tok; int threads, O; bool asan; int low; bool small; string flags, what; };
static const char *const io_n[] = {"getc", "str", "pair"}, *const g_n[] = {"fgetc", "sgetc", "agetc", "fdgetc"}, *const b_n[] = {"", "dyn", "fixed"};
static Conf conf(Rng &r) { Conf k; k.io = r.weighted({50, 25, 25}); k.g = r.below(4); k.buf = r.weighted({18, 45, 37}); k.xbuf = k.buf == 0 ? r.chance(50) : r.chance(8); k.xpos = r.chance(20); k.xname = r.chance(20); k.xex = r.chance(40); k.xcom = r.chance(30); k.hex = r.chance(30); k.dump = false; k.api = r.chance(25) ? "q_" : ""; k.tok = r.chance(25) ? "T_" : ""; k.threads = r.chance(15) ? r.range(2, 4) : 1; k.O = r.chance(25) ? 2 : 0; k.asan = r.chance(45); k.low = r.pick(vector<int>{0, 1, 2, 5, 16}); k.small = k.buf == 2 && !k.xbuf && r.chance(20);
	if (r.chance(12)) { k.dump = true; }
	k.flags = string("-k ") + io_n[k.io]; if (k.io == 0) k.flags += string(" -g ") + g_n[k.g]; if (k.buf) k.flags += string(" -b ") + b_n[k.buf]; for (auto &p : {std::make_pair(k.xbuf, "buf"), std::make_pair(k.xpos, "pos"), std::make_pair(k.xname, "name"), std::make_pair(k.xex, "example"), std::make_pair(k.xcom, "comments")}) if (p.first) k.flags += string(" -x ") + p.second; if (k.hex) k.flags += " -X"; if (!k.api.empty()) k.flags += " -e " + k.api; if (!k.tok.empty()) k.flags += " -t " + k.tok; if (k.threads > 1) k.flags += fmt(" -C %d", k.threads); k.what = k.flags + (k.small ? " (small buffer)" : "") + (k.dump ? " (dump)" : ""); return k; }
static string upper(string s) { for (char &c : s) c = toupper((unsigned char)c); return s; }
static string driver(const Spec &s, const Conf &k, const string &h, const string &csrc, size_t bufsz) {
	string A = k.api.empty() ? "lx_" : k.api, L = k.api.empty() ? "lx" : k.api + "lx", T = k.tok.empty() ? "TOK_" : k.tok, o = "#define LX_HEADER \"" + h + "\"\n";
	if (k.low) o += fmt("#define LX_DYN_LOW %d\n#define LX_DYN_HIGH %d\n#define LX_DYN_FACTOR %d\n", k.low, k.low * 8, k.low == 5 ? 3 : 2);
	if (k.io == 0 && k.g == 3) o += "#include <unistd.h>\n/* reads are often short */\nstatic ssize_t vf_read(int f, void *b, size_t n) { static unsigned k; size_t m = 1 + (k++ * 5 % 9); return read(f, b, m < n ? m : n); }\n#define read vf_read\n";
	o += "#include \"" + csrc + "\"\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\nint main(int argc, char **argv) { FILE *in = fopen(argv[1], \"rb\"); unsigned n; while (fread(&n, sizeof n, 1, in) == 1) { char *d = malloc(n + 1), *e; if (fread(d, 1, n, in) != n) return 9; d[n] = 0; e = malloc(n ? n : 1); memcpy(e, d, n); struct " + L + " lx; memset(&lx, 0xa5, sizeof lx); " + A + "init(&lx);\n";
	if (k.buf == 1 && !k.xbuf) o += "struct lx_dynbuf buf = {0}; lx.buf_opaque = &buf; lx.push = " + A + "dynpush; lx.clear = " + A + "dynclear; lx.free = " + A + "dynfree;\n";
	if (k.buf == 2 && !k.xbuf) o += fmt("struct lx_fixedbuf buf; buf.len = %zu; buf.a = malloc(buf.len); buf.p = buf.a; lx.buf_opaque = &buf; ", bufsz) + "lx.push = " + A + "fixedpush; lx.clear = " + A + "fixedclear; lx.free = NULL;\n";
	if (k.io == 0) switch (k.g) { case 0: o += "FILE *f = tmpfile(); if (!f) return 9; fwrite(e, 1, n, f); rewind(f); lx.getc_opaque = f; lx.lgetc = " + A + "fgetc;\n"; break; case 1: o += "const char *p = d; lx.getc_opaque = &p; lx.lgetc = " + A + "sgetc;\n"; break; case 2: o += "struct lx_arr arr = {e, n}; lx.getc_opaque = &arr; lx.lgetc = " + A + "agetc;\n"; break; case 3: o += "int fd[2]; char rb[7]; if (pipe(fd) || write(fd[1], e, n) != (int)n) return 9; close(fd[1]); struct lx_fd q = {rb, 0, fd[0], rb, sizeof rb}; lx.getc_opaque = &q; lx.lgetc = " + A + "dgetc;\n"; break; }
	if (k.io == 1) o += "lx.p = d;\n"; if (k.io == 2) o += "lx.p = e; lx.e = e + n;\n";
	if (!k.xex) for (auto &t : s.toks) o += "{ const char *x = " + A + "example(lx.z, " + T + upper(t) + "); if (x) { printf(\"x:\"); for (; *x; x++) printf(\"%02x\", (unsigned char)*x); puts(\"\"); } else puts(\"x-\"); }\n"; 
	o += "for (int i = 0, after = 0; i < 5000 && after < 3; i++) { int t = " + A + "next(&lx); const char *nm = \"?\"; switch (t) {"; for (auto &t : s.toks) o += " case " + T + upper(t) + ": nm = \"$" + t + "\"; break;"; o += " case " + T + "EOF: nm = \"EOF\"; after++; break; case " + T + "UNKNOWN: nm = \"UNKNOWN\"; after++; break; case " + T + "ERROR: nm = \"ERROR\"; after = 3; break; }\nprintf(\"%s\", nm);";
	if (!k.xpos) o += " printf(\" %u,%u,%u-%u,%u,%u\", lx.start.byte, lx.start.line, lx.start.col, lx.end.byte, lx.end.line, lx.end.col);"; else o += " printf(\" -\");";
	if (k.buf && !k.xbuf) o += " if (buf.a) { printf(\" :\"); if (t != " + T + "ERROR) for (char *x = buf.a; x < buf.p; x++) printf(\"%02x\", (unsigned char)*x); } else printf(\" -\");"; else o += " printf(\" -\");";
	if (!k.xname) o += " printf(\" %s\", " + A + "name(t));"; else o += " printf(\" -\");"; o += " putchar('\\n'); }\n";
	if (k.buf == 1 && !k.xbuf) o += "lx.free(lx.buf_opaque);\n"; if (k.buf == 2 && !k.xbuf) o += "free(buf.a);\n"; if (k.io == 0 && k.g == 0) o += "fclose(f);\n"; if (k.io == 0 && k.g == 3) o += "close(fd[0]);\n"; o += "free(d); free(e); puts(\".\"); } return 0; }\n"; return o; }
static int run(const string &cmd) { int st = system(cmd.c_str()); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0); }
static string input(Rng &r, const Spec &s, const vector<ZD> &z, int len, bool nul) {
	string w; int cur = 0, q = z[0].d.start; for (int i = 0; i < len; i++) { const ZD &d = z[cur]; unsigned c = 256; Sym live; for (unsigned x = 0; x < 256; x++) if (d.d.live[d.d.t[q][d.d.cl.of[x]]]) live.set(x);
		bool acc = d.d.o[q].end && q != d.d.start; if (acc && r.chance(45)) { const Map &m = s.z[cur].ml[d.d.o[q].ids[0]]; int nz = m.to >= 0 ? m.to : cur; int y = z[nz].d.start; Sym nx; for (unsigned x = 0; x < 256; x++) if (z[nz].d.live[z[nz].d.t[y][z[nz].d.cl.of[x]]] && !live.get(x)) nx.set(x); if (nx.any()) { c = nx.nth(r.below(nx.size())); cur = nz; q = z[nz].d.t[y][z[nz].d.cl.of[c]]; w += (char)c; continue; } }
		if (r.chance(2)) { c = r.below(256); } else if (live.any()) c = live.nth(r.below(std::min(live.size(), r.chance(80) ? 256 : 2))); else if (acc) { const Map &m = s.z[cur].ml[d.d.o[q].ids[0]]; cur = m.to >= 0 ? m.to : cur; q = z[cur].d.start; Sym nx; for (unsigned x = 0; x < 256; x++) if (z[cur].d.live[z[cur].d.t[q][z[cur].d.cl.of[x]]]) nx.set(x); if (!nx.any()) break; c = nx.nth(r.below(nx.size())); } else c = r.below(256);
		w += (char)c; int y = z[cur].d.t[q][z[cur].d.cl.of[c]]; if (z[cur].d.live[y]) q = y; else if (z[cur].d.o[q].end) { const Map &m = s.z[cur].ml[z[cur].d.o[q].ids[0]]; cur = m.to >= 0 ? m.to : cur; y = z[cur].d.t[z[cur].d.start][z[cur].d.cl.of[c]]; q = z[cur].d.live[y] ? y : z[cur].d.start; } else q = z[cur].d.start; }
	if (!nul) for (char &c : w) if (!c) c = 'a'; return w; }
// length of the shortest text of a token in a zone, 0 if none
static size_t shortest(const Spec &s, const ZD &z, size_t t) { size_t zi = 0; vector<int> dist(z.d.n(), -1), q{z.d.start}; dist[z.d.start] = 0; for (size_t h = 0; h < q.size(); h++) { int x = q[h]; if (z.d.o[x].end && s.z[zi].ml[z.d.o[x].ids[0]].tok == (int)t) return dist[x]; for (unsigned k = 0; k < z.d.cl.rep.size(); k++) { int y = z.d.t[x][k]; if (dist[y] < 0) { dist[y] = dist[x] + 1; q.push_back(y); } } } return 0; }
// unprintable characters are shown as \xHH
static bool example_of(const Spec &s, const ZD &z, size_t t, const string &x) { vector<std::set<int>> at(x.size() + 1); at[0].insert(z.d.start); for (size_t i = 0; i < x.size(); i++) for (int q : at[i]) { at[i + 1].insert(z.d.t[q][z.d.cl.of[(unsigned char)x[i]]]); unsigned v; if (x[i] == '\\' && i + 3 < x.size() && x[i + 1] == 'x' && sscanf(x.c_str() + i + 2, "%2x", &v) == 1) at[i + 4].insert(z.d.t[q][z.d.cl.of[v & 255]]); } for (int q : at[x.size()]) if (z.d.o[q].end && s.z[0].ml[z.d.o[q].ids[0]].tok == (int)t) return true; return false; }
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed * 1000003 + 24, idx)); std::unique_ptr<Spec> sp; static const char *const abs[] = {"ab", "abc", "ab01", "a +", "xyz/*", "abcdef012 ", "'\"\\a", "{}();a"};
	for (int t = 0;; t++) { fail = false; sp.reset(new Spec(r)); sp->ab = abs[r.below(8)]; sp->z.emplace_back(); sp->things(0, 0, nullptr, r.chance(60) ? 2 : 0, sp->text); sp->text += "\n"; if (!fail && (sp->z[0].ml.size() || (sp->text.find('{') != string::npos && r.chance(30)))) break; if (t > 60) { c.count("skipped"); return; } }
	Spec &s = *sp; bool refuse = false; string why; vector<ZD> zd(s.z.size());
	for (size_t i = 0; i < s.z.size(); i++) { Auto a; a.start = a.add(); for (size_t m = 0; m < s.z[i].ml.size(); m++) { int st; vector<int> e; put(a, shrink(s.z[i].ml[m].lang), st, e); if (st >= 0) a.eps(a.start, st); for (int x : e) { a.s[x].end = true; a.s[x].ids = {(u32)m}; } } if (fail || !model_dfa(a, OUT_END | OUT_IDS, zd[i].d, 3000, 400000)) { c.count("skipped"); return; } auto &d = zd[i].d; for (int q = 0; q < d.n(); q++) if (d.o[q].ids.size() > 1) { refuse = true; why = fmt("two mappings of zone %zu match the same text", i); } if (d.o[d.start].end) { refuse = true; why = fmt("a mapping of zone %zu matches nothing at all", i); } }
	string lx = c.build + "/build/bin/lx", dir = c.scratch + "/", spec = dir + "s.lx", err = dir + "err"; write_file(spec, s.text); if (c.replay) fprintf(stderr, "%s\n", s.text.c_str()); c.count("zones", s.z.size());
	auto lxrun = [&](const string &fl, const string &out) { return run(lx + " " + fl + " <" + spec + " >" + out + " 2>" + err); };
	auto crash = [&](const string &what) { string e = read_file(err); fprintf(stderr, "%s", e.c_str()); size_t p = e.find("Assertion"); string key = "lx"; size_t q = e.find("runtime error"); if (p != string::npos) { size_t l = e.rfind('\n', p); key = "lx-assert:" + e.substr(l == string::npos ? 0 : l + 1, 100); for (char &x : key) if (isspace((unsigned char)x)) x = '_'; } else if (q != string::npos) key = "lx-ub"; else if (e.find("Sanitizer") != string::npos) key = "lx-asan"; c.violation(key, what + ": " + e.substr(0, 1500) + "\n" + s.text); };
	int st = lxrun("-l test", dir + "t"); c.eval(); if (st != 0 && st != 1) { crash("lx -l test"); return; }
	if (refuse) { c.count("refused"); if (st == 0) c.violation("not-refused", why + ", but lx accepts\n" + s.text); return; }
	if (st != 0) { c.violation("refused", "lx refuses: " + read_file(err).substr(0, 600) + "\n" + s.text); return; }
	int nconf = r.chance(70) ? 2 : 3; bool sw = false; u64 events = 0;
	for (int ki = 0; ki < nconf; ki++) { Conf k = conf(r); string D = "configuration " + k.what + "\n" + s.text + "\n"; string h = dir + "l.h", cs = dir + "l.c", dr = dir + "d.c", exe = dir + "d";
		int e1 = lxrun("-l h " + k.flags, h), e2 = e1 ? 0 : lxrun("-l c " + k.flags, cs); if (e1 || e2) { if (e1 > 1 || e2 > 1) crash("lx " + k.what); else c.violation("lx-fails", "lx exits with an error: " + read_file(err).substr(0, 600) + "\n" + D); return; }
		bool nul = k.io == 2 || (k.io == 0 && k.g != 1); if (k.dump) nul = k.io == 0 && (k.g == 0 || k.g == 3); vector<string> ins; int n = k.dump ? 6 : 40; for (int i = 0; i < n; i++) ins.push_back(input(r, s, zd, i == 0 ? 0 : r.chance(8) ? r.range(40, 400) : r.range(1, 24), nul && r.chance(50)));
		size_t big = 2; vector<vector<Ev>> want; for (auto &w : ins) { Scan sc(s, zd, w); vector<Ev> v; for (int t = 0, after = 0; t < 5000 && after < 3; t++) { Ev e = sc.next(); if (e.tok < 0) after++; v.push_back(e); big = std::max(big, e.longest + 2); } want.push_back(v); c.count("runs", sc.runs); c.count("zone changes", sc.switches); if (sc.switches) sw = true; }
		size_t bufsz = k.small ? r.range(1, 4) : big; string src, cc = fmt("gcc -w -std=c99 -D_POSIX_C_SOURCE=200809L -O%d %s", k.O, k.asan ? "-g -fsanitize=address,undefined -fno-sanitize-recover=undefined" : "");
		if (k.dump) { if (lxrun("-l dump " + k.flags, dr)) { c.violation("lx-fails", "lx -l dump: " + read_file(err).substr(0, 600) + "\n" + D); return; } src = " -DLX_HEADER='\"l.h\"' -I" + dir + " " + cs + " " + dr; }
		else { write_file(dr, driver(s, k, h, cs, bufsz)); src = " " + dr; }
		if (run("TMPDIR=" + dir + " " + cc + " -o " + exe + src + " >" + err + " 2>&1")) { string e = read_file(err); if (e.find("No space left") != string::npos || e.find("annot allocate") != string::npos || e.find("Killed") != string::npos) { fprintf(stderr, "HARNESS compiler failed: %s\n", e.substr(0, 800).c_str()); _exit(3); } c.violation(k.dump ? "dump-compile" : "compile", "does not compile: " + e.substr(0, 900) + "\n" + D); return; }
		c.count("lexers built"); c.count(string("lexers:") + io_n[k.io] + (k.io ? "" : string("/") + g_n[k.g]) + " buffer:" + b_n[k.buf]);
		string env = "TMPDIR=" + dir + " ASAN_OPTIONS=detect_leaks=1:abort_on_error=0:exitcode=77 UBSAN_OPTIONS=print_stacktrace=1:exitcode=77 timeout 60 ";
		if (k.dump) { for (size_t i = 0; i < ins.size(); i++) { string in = ins[i]; write_file(dir + "in", in); string cmd = env + exe; if (k.io == 0 && (k.g == 0 || k.g == 3)) cmd += " <" + dir + "in"; else { cmd += " '"; for (char x : in) cmd += x == '\'' ? string("'\\''") : string(1, x); cmd += "'"; }
				bool toobig = k.buf == 2 && big > 250; if (toobig) continue; int e = run(cmd + " >" + dir + "out 2>" + err); c.eval(); if (e) { c.violation("dump-run", fmt("the dump program exits %d on %s: ", e, esc(in).c_str()) + read_file(err).substr(0, 800) + "\n" + D); return; }
				string out = read_file(dir + "out"), exp; size_t p = 0; bool ok = true; auto take = [&](const string &t) { if (out.compare(p, t.size(), t)) { ok = false; exp += t; } else p += t.size(); };
				for (auto &ev : want[i]) { if (!ok) break; if (!k.xpos) { if (ev.tok >= 0) { string t = fmt("%u", ev.sb); if (ev.eb != ev.sb) t += fmt("-%u", ev.eb); t += fmt(":%u", ev.sl); if (ev.el != ev.sl) t += fmt("-%u", ev.el); t += fmt(",%u", ev.sc); if (ev.ec != ev.sc) t += fmt("-%u", ev.ec); take(t + ": "); } else { size_t q = out.find(": ", p); if (q == string::npos) { ok = false; break; } p = q + 2; } }
					if (ev.tok >= 0) { if (k.xname) { take("<#"); while (p < out.size() && isdigit((unsigned char)out[p])) p++; take(">\n"); } else { string t = "<" + upper(s.toks[ev.tok]); if (k.buf && !k.xbuf) t += " '" + string(ev.text.c_str()) + "'"; if (k.buf == 2 && k.xbuf && !out.compare(p, t.size() + 3, t + " ''")) t += " ''"; take(t + ">\n"); } } else { bool unk = ev.tok == -2; if (ev.either && out.compare(p, 9, "lexically") == 0) unk = true; if (unk) { take("lexically uncategorised:"); p = out.size(); } else take("<EOF>\n"); break; } }
				if (ok && p != out.size()) { ok = false; exp = "(end)"; } if (!ok) { c.violation("dump", fmt("on %s the dump program printed %s where %s was due at %zu\n", esc(in).c_str(), esc(out).substr(0, 900).c_str(), esc(exp).c_str(), p) + D); return; } }
			continue; }
		string all; for (auto &w : ins) { unsigned n2 = w.size(); all.append((char *)&n2, sizeof n2); all += w; } write_file(dir + "in", all);
		int e = run(env + exe + " " + dir + "in >" + dir + "out 2>" + err); string out = read_file(dir + "out"); 
		if (e == 9) { fprintf(stderr, "HARNESS driver failed\n"); _exit(3); }
		size_t p = 0, ii = 0; string bad, key; auto line = [&]() { size_t q = out.find('\n', p); string l = q == string::npos ? out.substr(p) : out.substr(p, q - p); p = q == string::npos ? out.size() : q + 1; return l; };
		for (; ii < ins.size() && bad.empty(); ii++) { c.eval(); size_t ev = 0; if (!k.xex) { for (size_t t = 0; t < s.toks.size(); t++) { string l = line(); size_t best = shortest(s, zd[0], t); if (l.compare(0, 2, best ? "x:" : "x-")) { bad = "example of $" + s.toks[t] + fmt(": %s, the shortest has %zu characters", l.c_str(), best); key = "example"; break; } if (!best) continue; string x; for (size_t i = 2; i + 1 < l.size(); i += 2) x += (char)strtol(l.substr(i, 2).c_str(), nullptr, 16); c.count("examples"); bool ok = x.size() >= 46 || example_of(s, zd[0], t, x); if (!ok) { bad = "the example of $" + s.toks[t] + " is " + esc(x) + fmt(", the shortest has %zu characters", best); key = "example"; break; } } if (!bad.empty()) break; } bool over = false; for (; ev < want[ii].size(); ev++) { string l = line(); Ev &w = want[ii][ev]; events++; char nm[64] = "", ps[100] = "", nn[64] = ""; static char sp2[200000]; sp2[0] = 0; if (sscanf(l.c_str(), "%63s %99s %199999s %63s", nm, ps, sp2, nn) != 4) { bad = l.empty() ? "it stopped" : "line " + l; key = "short"; break; }
				if (!strcmp(nm, "ERROR")) { if (k.small && w.longest + 1 > bufsz) { over = true; break; } bad = "ERROR"; key = "error"; break; }
				string wn = w.tok >= 0 ? "$" + s.toks[w.tok] : w.tok == -1 ? "EOF" : "UNKNOWN"; if (w.either && !strcmp(nm, "UNKNOWN")) wn = "UNKNOWN"; string where = fmt("event %zu: %s, expected %s", ev, l.c_str(), wn.c_str()); bool small = k.small && w.longest + 1 > bufsz;
				if (wn != nm) { bad = where; key = "token"; } if (bad.empty() && !k.xname && (w.tok >= 0 ? upper(s.toks[w.tok]) : string(nm)) != nn) { bad = where + ", named " + nn; key = "name"; }
				if (bad.empty() && !k.xpos) { string full = fmt("%u,%u,%u-%u,%u,%u", w.sb, w.sl, w.sc, w.eb, w.el, w.ec), tail = fmt("-%u,%u,%u", w.eb, w.el, w.ec); string g = ps; bool okp = w.tok == -1 ? g.size() >= tail.size() && g.substr(g.size() - tail.size()) == tail : g == full; if (!okp) { bad = where + " at " + full; key = "position"; } }
				if (bad.empty() && k.buf && !k.xbuf && w.tok >= 0) { string hx = ":"; for (unsigned char x : w.text) hx += fmt("%02x", x); hx += "00"; if (hx != sp2) { bad = where + " spelt " + esc(w.text) + ", got " + sp2; key = "spelling"; } }
				if (!bad.empty()) { if (small && k.io == 0) key = "overflow-getc"; break; } }
			if (bad.empty()) { if (over) { string l; while (p < out.size() && (l = line()) != ".") ; } else { string l = line(); if (l != ".") { bad = "it went on with " + l; key = "short"; } } } if (!bad.empty()) break; }
		c.count("lexer calls", events); string se = e ? read_file(err) : "";
		if (e == 77 || e > 124 || (e && se.find("Sanitizer") != string::npos)) { string kk = se.find("LeakSan") != string::npos ? "generated-leak" : se.find("Assertion") != string::npos ? "generated-assert" : "generated-crash"; if (k.small && k.io == 0) kk = "overflow-getc"; if (c.replay) fprintf(stderr, "%s\n", se.c_str()); c.violation(kk, fmt("the lexer exits %d on %s: ", e, ii < ins.size() ? esc(ins[ii]).c_str() : "?") + se.substr(0, 1800) + "\n" + D); return; }
		if (e == 124) { c.violation("generated-hang", "on " + esc(ii < ins.size() ? ins[ii] : "") + "\n" + D); return; }
		if (!bad.empty()) { c.violation(key, bad + " on " + esc(ins[ii]) + "\n" + D); return; } if (e) { c.violation("generated-exit", fmt("%d\n", e) + D); return; } }
	if (events > 60) { c.nontrivial(hash_str(s.text)); c.sample(s.text); } if (sw) c.count("specifications with zone changes");
}
