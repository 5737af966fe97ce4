#define VF_MAIN
#include "common.hpp"
#include "json.hpp"
#include <dlfcn.h>
#include <sys/wait.h>
extern "C" {
#include <fsm/options.h>
#include <fsm/print.h>
#include <fsm/parser.h>
}
const char *harness_name = "c12";
typedef std::map<std::pair<int, int>, Sym> Edges; // src,dst -> labels
static Edges edges_of(const Auto &a) { Edges e; for (int i = 0; i < a.n(); i++) for (auto &p : a.s[i].e) e[{i, p.first}] = e[{i, p.first}] | p.second; return e; }
static std::set<std::pair<int, int>> eps_of(const Auto &a) { std::set<std::pair<int, int>> e; for (int i = 0; i < a.n(); i++) for (int t : a.s[i].eps) e.insert({i, t}); return e; }
static bool print(const struct fsm *f, const struct fsm_options *o, const struct fsm_hooks *h, enum fsm_print_lang l, string &out) {
	char *buf = nullptr; size_t n = 0; FILE *fp = open_memstream(&buf, &n); if (!fp) abort(); int r = fsm_print(fp, f, o, h, l); fclose(fp); out.assign(buf, n); free(buf); return r == 0;
}
// ---- class labels such as [^a-z\x00] as written for people: is there a reading of the text as this set?
struct Tok { int c; size_t len; };
static void toks(const vector<u32> &t, size_t p, bool dot, vector<Tok> &out) { // possible readings of one character at p
	if (!dot) { if (t[p] < 256) out.push_back({(int)t[p], 1}); return; }
	auto ch = [&](size_t k) -> int { return p + k < t.size() ? (int)t[p + k] : -1; };
	if (t[p] == '&') { static const std::pair<const char *, int> e[] = {{"&amp;", '&'}, {"&quot;", '"'}, {"&#x5D;", ']'}, {"&#x3C;", '<'}, {"&#x3E;", '>'}, {"&#x2423;", ' '}}; for (auto &x : e) { size_t n = strlen(x.first); bool ok = true; for (size_t k = 0; k < n; k++) ok = ok && ch(k) == x.first[k]; if (ok) out.push_back({x.second, n}); } return; }
	if (t[p] == '\\') { if (ch(1) == 'x' && ch(2) >= 0 && isxdigit(ch(2)) && ch(3) >= 0 && isxdigit(ch(3))) { char h[3] = {(char)ch(2), (char)ch(3), 0}; out.push_back({(int)strtol(h, 0, 16), 4}); }
		const char *q = ch(1) > 0 ? strchr("abfnrtv", ch(1)) : nullptr; if (q) out.push_back({"\a\b\f\n\r\t\v"[q - "abfnrtv"], 2}); }
	if (t[p] < 256) out.push_back({(int)t[p], 1});
}
static bool read_class(const vector<u32> &t, size_t p, size_t end, int last, int count, const Sym &want, bool dot, int &fuel) {
	if (--fuel < 0) return false;
	if (p == end) return count == want.size();
	vector<Tok> a; toks(t, p, dot, a);
	for (auto &x : a) { if (x.c <= last || !want.get(x.c) || p + x.len > end) continue;
		size_t q = p + x.len;
		if (q < end && t[q] == '-' && q + 1 < end) { vector<Tok> b; toks(t, q + 1, dot, b); for (auto &y : b) { if (y.c <= x.c || q + 1 + y.len > end) continue; bool ok = true; for (int c = x.c; c <= y.c; c++) ok = ok && want.get(c); if (ok && read_class(t, q + 1 + y.len, end, y.c, count + y.c - x.c + 1, want, dot, fuel)) return true; } }
		if (read_class(t, q, end, x.c, count + 1, want, dot, fuel)) return true; }
	return false;
}
static bool class_text(const vector<u32> &t, const Sym &want, bool dot) {
	int fuel = 20000;
	if (want.size() == 1 && read_class(t, 0, t.size(), -1, 0, want, dot, fuel)) return true;
	if (t == vector<u32>{'/', '.', '/'}) return want == Sym::all();
	if (t.size() < 2 || t[0] != '[' || t.back() != ']') return false;
	fuel = 20000; if (read_class(t, 1, t.size() - 1, -1, 0, want, dot, fuel)) return true;
	fuel = 20000; return t[1] == '^' && read_class(t, 2, t.size() - 1, -1, 0, ~want, dot, fuel);
}
static vector<u32> cps(const string &s) { vector<u32> v; for (unsigned char c : s) v.push_back(c); return v; }
static int one_byte(const string &s) { vector<Tok> t; auto v = cps(s); if (v.empty()) return -1; toks(v, 0, true, t); int best = -1; for (auto &x : t) if (x.len == v.size()) { if (best >= 0) return -1; best = x.c; } return best; }

// ---- readers of the printed forms; each returns "" when the text describes exactly `a`
static string check_json(const string &text, const Auto &a, const struct fsm_options &o) {
	JsonReader jr(text); Json j; if (!jr.parse(j)) return "not JSON: " + jr.err;
	if (j.num("statecount") != a.n()) return fmt("statecount %d", j.num("statecount"));
	if (j.num("start") != a.start) return fmt("start %d", j.num("start"));
	auto *e = j.get("end"); if (!e || e->t != Json::ARR) return "no end list"; vector<int> ends; for (auto &x : e->a) ends.push_back((int)x.n); vector<int> we; for (int i = 0; i < a.n(); i++) if (a.s[i].end) we.push_back(i); if (ends != we) return "end list differs";
	auto *ed = j.get("edges"); if (!ed || ed->t != Json::ARR) return "no edges";
	Edges got; std::set<std::pair<int, int>> eps; Edges want = edges_of(a);
	for (auto &x : ed->a) {
		int s = x.num("src"), d = x.num("dst"); const Json *y = x.get("symbol"), *l = x.get("label");
		if (s < 0 || d < 0 || s >= a.n() || d >= a.n()) return "bad edge";
		if (!y && !l) { if (!eps.insert({s, d}).second) return "repeated epsilon"; continue; }
		if (y) { unsigned c; if (y->t == Json::NUM) { if (!o.always_hex) return "number for a symbol"; c = (unsigned)y->n; } else if (y->t == Json::STR && y->s.size() == 1) c = y->s[0]; else return "bad symbol"; if (c > 255) return "symbol out of range"; if (got[{s, d}].get(c)) return "repeated edge"; got[{s, d}].set(c); continue; }
		if (l->s == vector<u32>{0x3b5}) { if (!eps.insert({s, d}).second) return "repeated epsilon"; continue; }
		auto it = want.find({s, d}); if (it == want.end()) return fmt("edge %d->%d invented", s, d); if (got[{s, d}].any()) return "repeated edge";
		if (!class_text(l->s, it->second, false)) return fmt("edge %d->%d label %s", s, d, esc(l->str()).c_str()); got[{s, d}] = it->second;
	}
	if (got != want) return "edges differ"; if (eps != eps_of(a)) return "epsilons differ"; return "";
}
static bool take(const string &s, size_t &i, const char *w) { size_t n = strlen(w); if (s.compare(i, n, w)) return false; i += n; return true; }
static bool num(const string &s, size_t &i, int &v) { size_t st = i; long x = 0; while (i < s.size() && isdigit((unsigned char)s[i]) && i - st < 9) x = x * 10 + (s[i++] - '0'); v = (int)x; return i > st; }
static void sp(const string &s, size_t &i) { while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++; }
static vector<string> lines(const string &t) { vector<string> v; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); v.push_back(t.substr(i, j - i)); i = j + 1; } return v; }
static string check_dot(const string &text, const Auto &a, const struct fsm_options &o) {
	string pre = o.prefix ? o.prefix : ""; pre += "S"; Edges got, want = edges_of(a); std::set<std::pair<int, int>> eps; int start = -1; std::map<int, vector<u32>> ids; std::set<int> ends, listed; bool head = false, tail = false;
	for (auto &l : lines(text)) { size_t i = 0; sp(l, i);
		if (l == "digraph G {") { head = true; continue; } if (l == "}") { tail = true; continue; }
		if (take(l, i, "start -> ")) { if (!take(l, i, pre.c_str()) || !num(l, i, start)) return "bad start"; continue; }
		if (l.empty() || l[0] != '\t' || !take(l, i, pre.c_str())) continue;
		int s, d; if (!num(l, i, s)) continue; sp(l, i);
		if (take(l, i, "-> ")) { if (!take(l, i, pre.c_str()) || !num(l, i, d)) return "bad edge"; size_t p = l.find("label = <", i), q = l.rfind("> ];"); if (p == string::npos || q == string::npos || q < p) return "edge without a label"; string lab = l.substr(p + 9, q - p - 9);
			if (s >= a.n() || d >= a.n()) return "edge out of range";
			if (lab == "&#x3B5;") { if (!eps.insert({s, d}).second) return "repeated epsilon"; continue; }
			auto it = want.find({s, d}); if (it == want.end()) return fmt("edge %d->%d invented", s, d);
			if (o.consolidate_edges) { if (got[{s, d}].any()) return "repeated edge"; if (!class_text(cps(lab), it->second, true)) return fmt("edge %d->%d label %s", s, d, esc(lab).c_str()); got[{s, d}] = it->second; }
			else { int c = one_byte(lab); if (c < 0) return "label " + esc(lab); if (got[{s, d}].get(c)) return "repeated edge"; got[{s, d}].set(c); } continue; }
		if (!take(l, i, "[ ")) continue;
		listed.insert(s); if (l.find("doublecircle") == string::npos) continue; ends.insert(s);
		size_t p = l.find("label = <"); if (p == string::npos) return "end state without a label"; size_t q = p + 9; vector<u32> v; while ((q = l.find('#', q)) != string::npos) v.push_back((u32)strtoul(l.c_str() + q + 1, 0, 10)), q++; ids[s] = v;
	}
	if (!o.fragment && (!head || !tail || start != a.start)) return fmt("not a whole graph or start %d differs", start);
	if (got != want) return "edges differ"; if (eps != eps_of(a)) return "epsilons differ";
	for (int i = 0; i < a.n(); i++) { if (a.s[i].end != (bool)ends.count(i)) return fmt("end mark of %d", i); if (a.s[i].end && ids[i] != a.s[i].ids) return fmt("end ids of %d", i); if (!o.anonymous_states && !listed.count(i)) return fmt("state %d missing", i); }
	return "";
}
static string compare_dfa(const vector<vector<int>> &t, const Auto &a) { if ((int)t.size() != a.n()) return fmt("%zu states", t.size()); for (int i = 0; i < a.n(); i++) { vector<int> row(256, -1); for (auto &p : a.s[i].e) for (int c = 0; c < 256; c++) if (p.second.get(c)) row[c] = p.first; for (int c = 0; c < 256; c++) if (t[i][c] != row[c]) return fmt("state %d on %02x goes to %d, not %d", i, c, t[i][c], row[c]); } return ""; }
static string check_irjson(const string &text, const Auto &a) {
	JsonReader jr(text); Json j; if (!jr.parse(j)) return "not JSON: " + jr.err;
	if (j.num("start") != a.start) return fmt("start %d", j.num("start"));
	auto *st = j.get("states"); if (!st || st->t != Json::ARR) return "no states"; vector<vector<int>> t; int i = 0;
	for (auto &x : st->a) { vector<int> row(256, -1); string strat = x.get("strategy") ? x.get("strategy")->str() : "?"; if (i >= a.n()) return "too many states";
		auto *e = x.get("end"); if (!e || e->t != Json::BOOL || e->b != a.s[i].end) return fmt("end mark of %d", i); vector<u32> ids; if (auto *y = x.get("end_id")) for (auto &z : y->a) ids.push_back((u32)z.n); if (a.s[i].end && ids != a.s[i].ids) return fmt("end ids of %d", i);
		std::set<int> set; string bad; auto ranges = [&](const Json *r, int to) { if (!r || r->t != Json::ARR) { bad = "no ranges"; return; } for (auto &y : r->a) { auto *s = y.get("start"), *q = y.get("end"); if (!s || !q || s->s.size() != 1 || q->s.size() != 1 || s->s[0] > q->s[0] || q->s[0] > 255) { bad = "bad range"; return; } for (u32 c = s->s[0]; c <= q->s[0]; c++) { if (!set.insert((int)c).second) bad = fmt("state %d lists %02x twice", i, c); row[c] = to; } } };
		if (strat == "same") row.assign(256, x.num("to")); else if (strat != "none") { if (strat == "dominant" || strat == "error") row.assign(256, x.num("mode")); if (strat == "error") ranges(x.get("error"), -1); auto *g = x.get("groups"); if (!g) return "no groups"; for (auto &y : g->a) ranges(y.get("ranges"), y.num("to")); if (strat == "complete" && set.size() != 256) return "complete state which is not"; }
		if (!bad.empty()) return bad; if (auto *ex = x.get("example")) { Auto b = a; for (auto &s : b.s) s.end = false; b.s[i].end = true; string raw = ex->str(), dec; for (size_t k = 0; k < raw.size(); k++) { if (raw[k] == '\\' && k + 3 < raw.size() && raw[k + 1] == 'x' && isxdigit((unsigned char)raw[k + 2]) && isxdigit((unsigned char)raw[k + 3])) { dec += (char)strtol(raw.substr(k + 2, 2).c_str(), 0, 16); k += 3; } else dec += raw[k]; } bool bs = false; for (auto &s : a.s) for (auto &p : s.e) bs = bs || p.second.get('\\'); if (!bs && (int)raw.size() + 8 < a.n() && !model_run(b, dec).end) return fmt("example %s of state %d", esc(raw).c_str(), i); }
		t.push_back(row); i++; }
	return compare_dfa(t, a);
}
static string check_ir(const string &text, const Auto &a) {
	vector<vector<int>> t(a.n(), vector<int>(256, -1)); std::set<int> ends; int start = -1, cur = -1; string strat; std::set<int> pend, all; vector<vector<u32>> ids(a.n());
	for (auto &l : lines(text)) { size_t i = 0; sp(l, i);
		if (take(l, i, "start -> cs")) { num(l, i, start); continue; }
		if (take(l, i, "cs")) { int s; num(l, i, s); if (s >= a.n()) return "state out of range"; if (take(l, i, " [ peripheries")) ends.insert(s); else if (take(l, i, " [ label")) cur = s, strat = "", pend.clear(), all.clear(); continue; }
		if (cur < 0 || !take(l, i, "<TR>")) continue;
		vector<string> cell; while (take(l, i, "<TD")) { size_t p = l.find('>', i), q = l.find("</TD>", i); if (p == string::npos || q == string::npos) return "bad row"; cell.push_back(l.substr(p + 1, q - p - 1)); i = q + 5; }
		auto dest = [&](const string &s, int &d) { if (s == "(self)") { d = cur; return true; } if (s.empty() || s[0] != 'S') return false; d = atoi(s.c_str() + 1); return true; };
		if (strat.empty()) { if (cell.size() != 2 || cell[0] != fmt("S%d", cur)) return "bad heading"; strat = cell[1]; continue; }
		int d; if (cell.size() == 2 && cell[0] == "end id") { size_t q = 0; while ((q = cell[1].find('#', q)) != string::npos) ids[cur].push_back((u32)strtoul(cell[1].c_str() + q + 1, 0, 10)), q++; continue; }
		if (cell.size() == 2 && cell[0] == "example") continue;
		if (cell.size() == 2 && (cell[0] == "to" || cell[0] == "mode")) { if (!dest(cell[1], d)) return "bad destination"; t[cur].assign(256, d); continue; }
		if (cell.size() < 2 || cell.size() > 3) return "bad row"; int lo = one_byte(cell[0]), hi = cell.size() == 3 ? one_byte(cell[1]) : lo; if (lo < 0 || hi < lo) return "bad range " + esc(l);
		for (int c = lo; c <= hi; c++) { if (!all.insert(c).second) return "byte listed twice"; pend.insert(c); } const string &to = cell.back(); if (to == "&#x21B4;") continue; if (to == "(error)") d = -1; else if (!dest(to, d)) return "bad destination"; for (int c : pend) t[cur][c] = d; pend.clear();
	}
	if (start != a.start) return fmt("start %d", start);
	for (int i = 0; i < a.n(); i++) { if (a.s[i].end != (bool)ends.count(i)) return fmt("end mark of %d", i); if (a.s[i].end && ids[i] != a.s[i].ids) return fmt("end ids of %d", i); }
	return compare_dfa(t, a);
}
// an independent reader of fsm(5), including the grouped labels
static string read_fsm(const string &text, Auto &a) {
	a = Auto(); std::map<string, int> id; auto st = [&](const string &n) { auto it = id.find(n); if (it != id.end()) return it->second; return id[n] = a.add(); };
	size_t i = 0; auto ws = [&]() { while (i < text.size()) { if (strchr(" \t\r\n", text[i])) i++; else if (text[i] == '#') while (i < text.size() && text[i] != '\n') i++; else break; } };
	auto ident = [&](string &n) { n = ""; while (i < text.size() && (isalnum((unsigned char)text[i]) || text[i] == '_')) n += text[i++]; return !n.empty(); };
	auto label = [&](unsigned &c) { if (i >= text.size() || text[i] != '"') return false; i++; if (text[i] == '\\') { i++; char e = text[i++]; if (e == 'x') { string h; while (isxdigit((unsigned char)text[i])) h += text[i++]; c = strtoul(h.c_str(), 0, 16); } else { const char *q = strchr("fnrtv", e); c = q ? (unsigned char)"\f\n\r\t\v"[q - "fnrtv"] : (unsigned char)e; } } else c = (unsigned char)text[i++]; return i < text.size() && text[i++] == '"'; };
	for (;;) { ws(); if (i >= text.size()) return ""; string n, m; if (!ident(n)) return fmt("unreadable at %zu", i);
		if (text[i] == ':') { i++; ws(); if (n == "start") { if (!ident(m)) return "start"; a.start = st(m); } else { for (;;) { ws(); if (!ident(m)) return "end"; int s = st(m); a.s[s].end = true; ws(); if (text[i] == '=') { i++; ws(); if (text[i++] != '[') return "end ids"; for (;;) { ws(); if (text[i] == ']') { i++; break; } if (text[i] == ',') { i++; continue; } string d; if (!ident(d)) return "end id"; a.s[s].ids.push_back((u32)strtoul(d.c_str(), 0, 10)); } ws(); } if (text[i] == ',') { i++; continue; } break; } } ws(); if (text[i++] != ';') return "missing ;"; continue; }
		int x = st(n); ws(); if (text[i] == ';') { i++; continue; } if (text.compare(i, 2, "->")) return "no arrow"; i += 2; ws(); if (!ident(m)) return "no destination"; int y = st(m); ws();
		if (text[i] == ';') { i++; a.eps(x, y); continue; } if (text[i] == '?') { i++; a.edge(x, y, Sym::all()); ws(); if (text[i++] != ';') return "missing ;"; continue; }
		for (;;) { ws(); unsigned lo, hi; if (!label(lo)) return fmt("bad label at %zu", i); hi = lo; ws(); if (!text.compare(i, 2, "..")) { i += 2; ws(); if (!label(hi)) return "bad range"; } if (lo > hi || hi > 255) return "bad range"; a.edge(x, y, Sym::range(lo, hi)); ws(); if (text[i] == ',') { i++; continue; } break; } if (text[i++] != ';') return "missing ;"; }
}
static struct fsm *parse(const string &text, const struct fsm_alloc *al) { FILE *fp = fmemopen((void *)text.data(), text.size(), "rb"); if (!fp) abort(); struct fsm *f = fsm_parse(fp, al); fclose(fp); return f; }
// text in the language, written every way it may be
static string write_fsm(Rng &r, const Auto &a, const vector<int> &order) {
	vector<string> nm(a.n()); int style = r.below(4); std::set<string> used; for (int i = 0; i < a.n(); i++) { for (int tries = 0;; tries++) { string s; if (style == 0) s = fmt("%d", i); else if (style == 1) s = fmt("%s_%x", r.chance(50) ? "State" : "s", i); else { int l = r.range(1, 6) + tries; for (int k = 0; k < l; k++) s += "abcXYZ019_se"[r.below(12)]; } if (used.insert(s).second) { nm[i] = s; break; } } }
	string o; int comments = r.below(3); auto gap = [&](bool need) { if (r.chance(10)) { static const char *w[] = {" ", "\t", "\n", "\r\n", "  \n "}; o += w[r.below(5)]; } else if (need || r.chance(50)) o += " "; if (comments && r.chance(4)) { o += comments == 1 ? "# c\n" : "#\"x\\ ' -> ; start: \xff ?\n"; } };
	auto lab = [&](unsigned c) { bool plain = c >= 32 && c < 127; switch (r.below(plain ? 6 : 4)) {
		case 0: o += fmt("\"\\x%x\"", c); break; case 1: o += fmt("\"\\x%02X\"", c); break; case 2: o += fmt("\"\\%o\"", c); break; case 3: { const char *q = c ? strchr("\\\"\f\n\r\t\v", (int)c) : nullptr; if (q) { o += "\"\\"; o += "\\\"fnrtv"[q - (const char *)memchr("\\\"\f\n\r\t\v", 0, 8) + 7]; o += "\""; } else o += fmt("\"\\%03o\"", c); break; }
		case 4: if (c == '\'') { o += "\"'\""; break; } o += "'"; o += (char)c; o += "'"; break;
		default: if (c == '"' || c == '\\') { o += "\"\\"; o += (char)c; o += "\""; break; } o += "\""; o += (char)c; o += "\""; } };
	vector<std::array<int, 3>> items; // -2 declaration, -1 epsilon, 0..255 label, 256 any
	for (int i = 0; i < a.n(); i++) { if (r.chance(30) || (a.s[i].e.empty() && a.s[i].eps.empty())) items.push_back({i, 0, -2}); for (int t : a.s[i].eps) items.push_back({i, t, -1}); for (auto &p : a.s[i].e) { if (p.second == Sym::all()) items.push_back({i, p.first, 256}); else for (int c = 0; c < 256; c++) if (p.second.get(c)) items.push_back({i, p.first, c}); } }
	r.shuffle(items); (void)order;
	for (auto &x : items) { gap(false); o += nm[x[0]]; if (x[2] == -2) { gap(false); o += ";"; continue; } gap(false); o += "->"; gap(false); o += nm[x[1]]; gap(x[2] < 0 ? false : true); if (x[2] == 256) o += "?"; else if (x[2] >= 0) lab(x[2]); gap(false); o += ";"; }
	if (a.start >= 0) { gap(true); o += "start:"; gap(true); o += nm[a.start]; gap(false); o += ";"; }
	vector<int> e; for (int i = 0; i < a.n(); i++) if (a.s[i].end) e.push_back(i); r.shuffle(e);
	if (!e.empty()) { gap(true); o += "end:"; for (size_t k = 0; k < e.size(); k++) { gap(true); o += nm[e[k]]; auto ids = a.s[e[k]].ids; r.shuffle(ids); if (!ids.empty() || r.chance(10)) { gap(false); o += "="; gap(false); o += "["; for (size_t j = 0; j < ids.size(); j++) { gap(false); o += fmt(r.chance(8) ? "%012u" : "%u", ids[j]); gap(false); if (j + 1 < ids.size()) o += ","; } gap(false); o += "]"; } gap(false); if (k + 1 < e.size()) o += ","; } o += ";"; if (r.chance(50)) o += "\n"; }
	if (o.empty()) o = "\n"; return o;
}
static void api_case(Ctx &c, Rng &r) { // programs which call the fsm(3) API: compiled, run, and the machine they build compared
	vector<Auto> as; string src; vector<string> texts;
	for (int k = 0; k < 8; k++) { GenOpt g; g.ids = r.chance(60); g.nostart = false; g.maxn = r.range(1, 14); Auto a = random_auto(r, g); bool any = false; for (auto &s : a.s) any = any || s.end; if (a.start < 0 || !any) { k--; continue; }
		if (r.chance(40)) { int keep = r.chance(30) ? a.start : (int)r.below(a.n()); for (int i = 0; i < a.n(); i++) a.s[i].end = i == keep; }
		for (auto &s : a.s) if (!s.end) s.ids.clear();
		struct fsm *f = build(a); struct fsm_options o; memset(&o, 0, sizeof o); string pre = fmt("m%d_", k); o.prefix = pre.c_str(); o.comments = r.chance(50); o.always_hex = r.chance(30); string t; Auto before = snapshot(f); if (!print(f, &o, nullptr, FSM_PRINT_API, t)) c.violation("api:print", a.text()); if (snapshot(f).hash() != before.hash()) c.violation("api:modified", a.text()); fsm_free(f);
		as.push_back(a); texts.push_back(t); src += t; }
	if (c.frozen) return;
	string cf = c.scratch + "/api.c", so = c.scratch + fmt("/api%llu.so", (unsigned long long)c.idx), ef = c.scratch + "/api.err"; FILE *fp = fopen(cf.c_str(), "w"); fwrite(src.data(), 1, src.size(), fp); fclose(fp);
	string cmd = "gcc -std=c99 -w -O0 -shared -fPIC '-DLF_HEADER=<fsm/fsm.h>' -I" + c.build + "/include -o " + so + " " + cf + " 2>" + ef;
	if (system(cmd.c_str())) { string e; fp = fopen(ef.c_str(), "r"); char b[1500]; size_t n = fread(b, 1, sizeof b, fp); fclose(fp); c.violation("api:compile", string(b, n)); return; }
	void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); unlink(so.c_str()); if (!h) { fprintf(stderr, "HARNESS dlopen: %s\n", dlerror()); _exit(3); }
	for (size_t k = 0; k < as.size(); k++) { auto fn = (int (*)(struct fsm *, fsm_state_t *, fsm_state_t *))dlsym(h, fmt("m%zu_fsm", k).c_str()); if (!fn) { c.violation("api:symbol", "no such function"); break; }
		struct fsm *f = fsm_new(NULL); fsm_state_t x, y; fsm_addstate(f, &x); fsm_addstate(f, &y); fsm_setstart(f, x); fsm_setend(f, y, 1); if (fn(f, &x, &y) != 1) c.violation("api:run", as[k].text()); else { Auto got = snapshot(f), want = as[k]; int ne = 0; for (auto &s : want.s) ne += s.end; string w; int out = ne == 1 ? OUT_END | OUT_IDS : OUT_END; if (same_behaviour(want, got, out, &w) == 0) c.violation(ne == 1 ? "api:one-end" : "api:several-ends", fmt("differs on %s: %s\n%s", esc(w).c_str(), want.text().c_str(), texts[k].substr(0, 2000).c_str())); }
		fsm_free(f); c.eval(); c.count("api-programs"); c.nontrivial(as[k].hash()); }
	dlclose(h);
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx));
	if (idx % 60 == 17) { api_case(c, r); return; }
	GenOpt g; g.ids = r.chance(70); g.dfa = r.chance(45); g.eps = !g.dfa; g.maxn = r.range(1, 16); Auto a = r.chance(85) ? random_auto(r, g) : big_auto(r, g, r.range(10, 80));
	bool huge = idx % 300 == 5; if (huge) { g.eps = false; a = wide_auto(r, g, false); int n = r.range(1000, 3500); while (a.n() < n) { int t = a.add(); a.edge((int)r.below(t), t, 'a' + r.below(26)); if (r.chance(30)) a.s[t].end = true; } }
	for (auto &s : a.s) if (!s.end) s.ids.clear();
	CountAlloc ca; bool custom = r.chance(20) && !huge; { struct fsm *f = build(a, custom ? &ca.fa : nullptr, &r); a = snapshot(f); // the numbering the library uses
	struct fsm_options o; memset(&o, 0, sizeof o); bool dfa = is_dfa(a) && a.start >= 0 && a.n() > 0; int work = 0;
	u64 h0 = a.hash(); string w;
	auto twice = [&](enum fsm_print_lang l, const char *name, string &t) { string t2; if (!print(f, &o, nullptr, l, t)) { c.violation(string(name) + ":print", fmt("printing failed, errno %d: ", errno) + a.text()); return false; } if (!print(f, &o, nullptr, l, t2) || t != t2) c.violation(string(name) + ":unstable", "printed differently the second time: " + a.text()); if (snapshot(f).hash() != h0) c.violation(string(name) + ":modified", "printing changed the automaton: " + a.text()); c.eval(); c.count(string(name) + "-prints"); work++; return true; };
	auto opts = [&](bool group) { memset(&o, 0, sizeof o); o.anonymous_states = r.chance(30); o.consolidate_edges = r.chance(40); o.comments = !huge && r.chance(40); o.always_hex = r.chance(30); o.fragment = r.chance(20); o.case_ranges = r.chance(20); o.group_edges = group; o.prefix = r.chance(20) ? "pre_" : nullptr; o.io = (enum fsm_io)r.below(3); static const enum fsm_ambig am[] = {AMBIG_NONE, AMBIG_EARLIEST, AMBIG_MULTIPLE}; o.ambig = am[r.below(3)]; };
	string t;
	for (int k = 0; k < 2; k++) { opts(false); if (twice(FSM_PRINT_FSM, "fsm", t)) { CountAlloc cb; bool cu = r.chance(20) && !huge; struct fsm *q = parse(t, cu ? &cb.fa : nullptr); if (!q) c.violation("fsm:reread", "the printed text was refused:\n" + t.substr(0, 2000)); else { Auto b = snapshot(q); if (same_behaviour(a, b, OUT_END | OUT_IDS, &w) == 0) c.violation("fsm:language", fmt("reading back differs on %s: %s vs %s\n%s\n%s", esc(w).c_str(), model_run(a, w).text().c_str(), model_run(b, w).text().c_str(), a.text().c_str(), t.substr(0, 1500).c_str())); fsm_free(q); if (cu && (!cb.live.empty() || cb.foreign)) c.violation("fsm:alloc", "blocks outstanding or foreign after parsing and freeing"); } } }
	if (r.chance(30)) { opts(true); if (twice(FSM_PRINT_FSM, "fsm-grouped", t)) { Auto b; string e = read_fsm(t, b); if (!e.empty()) c.violation("fsm-grouped:text", e + "\n" + t.substr(0, 2000)); else if (same_behaviour(a, b, OUT_END | OUT_IDS, &w) == 0) c.violation("fsm-grouped:language", fmt("differs on %s: %s\n%s", esc(w).c_str(), a.text().c_str(), t.substr(0, 1500).c_str()));
		if (idx % 40 == 3 && !c.frozen && !huge) { fflush(NULL); pid_t p = fork(); if (p == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); struct fsm *q = parse(t, nullptr); _exit(q ? 0 : 1); } int st = 0; waitpid(p, &st, 0); c.count("fsm-grouped-rereads"); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bool group = t.find("\" .. \"") != string::npos || t.find("\", \"") != string::npos; c.violation(group ? "fsm-grouped:reread-list-or-range" : "fsm-grouped:reread", "text printed with group_edges cannot be read back:\n" + t.substr(0, 1500)); } } } }
	opts(false); if (twice(FSM_PRINT_JSON, "json", t)) { string e = check_json(t, a, o); if (!e.empty()) c.violation("json:content", e + ": " + a.text() + "\n" + t.substr(0, 2500)); }
	opts(false); if (twice(FSM_PRINT_DOT, "dot", t)) { string e = check_dot(t, a, o); if (!e.empty()) c.violation("dot:content", e + ": " + a.text() + "\n" + t.substr(0, 2500)); }
	if (dfa && !huge) { opts(false); if (twice(FSM_PRINT_IRJSON, "irjson", t)) { string e = check_irjson(t, a); if (!e.empty()) c.violation("irjson:content", e + ": " + a.text() + "\n" + t.substr(0, 2500)); } opts(false); if (twice(FSM_PRINT_IR, "ir", t)) { string e = check_ir(t, a); if (!e.empty()) c.violation("ir:content", e + ": " + a.text() + "\n" + t.substr(0, 2500)); } }
	fsm_free(f); }
	if (custom && (!ca.live.empty() || ca.foreign)) c.violation("alloc", fmt("%zu blocks outstanding after printing and freeing", ca.live.size()));
	// hand-written text
	{ string t = write_fsm(r, a, {}); struct fsm *q = parse(t, nullptr); if (!q) c.violation("text:refused", t.substr(0, 2000)); else { Auto b = snapshot(q); string w; if (same_behaviour(a, b, OUT_END | OUT_IDS, &w) == 0) c.violation("text:language", fmt("differs on %s: %s vs %s\n%s\n%s", esc(w).c_str(), model_run(a, w).text().c_str(), model_run(b, w).text().c_str(), a.text().c_str(), t.substr(0, 1500).c_str())); fsm_free(q); } c.eval(); c.count("texts-read"); }
	if (a.nedges() + a.neps() && a.n() >= 2) { c.nontrivial(a.hash()); if (a.n() < 15) c.sample(a.text(500)); }
}
