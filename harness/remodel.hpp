// A reference meaning for regular expressions: a tree, and the automaton of the subjects in which it matches.
// Anchors are carried as state: whether anything has been consumed, and what may still follow.
#pragma once
struct Re; typedef std::shared_ptr<Re> ReP;
struct Re { enum K { EMPTY, SET, CAT, ALT, REP, START, END, ENDNL, NEVER } k = EMPTY; Sym set; vector<ReP> c; int min = 1, max = 1; };
static inline ReP re_leaf(Re::K k) { auto p = std::make_shared<Re>(); p->k = k; return p; }
static inline ReP re_set(const Sym &s) { auto p = re_leaf(Re::SET); p->set = s; return p; }
static inline ReP re_cat(const vector<ReP> &v) { if (v.size() == 1) return v[0]; auto p = re_leaf(v.empty() ? Re::EMPTY : Re::CAT); p->c = v; return p; }
static inline ReP re_alt(const vector<ReP> &v) { if (v.size() == 1) return v[0]; auto p = re_leaf(Re::ALT); p->c = v; return p; }
static inline ReP re_rep(ReP e, int min, int max) { auto p = re_leaf(Re::REP); p->c = {e}; p->min = min; p->max = max; return p; }
static inline ReP re_str(const string &s) { vector<ReP> v; for (unsigned char c : s) v.push_back(re_set(Sym::one(c))); return re_cat(v); }
static inline Sym fold(const Sym &s) { Sym r = s; for (unsigned c = 'a'; c <= 'z'; c++) if (s.get(c) || s.get(c - 32)) { r.set(c); r.set(c - 32); } return r; }
static inline size_t re_size(const ReP &e) { size_t n = 1; for (auto &x : e->c) n += re_size(x); if (e->k == Re::REP) n *= (size_t)std::max(1, std::max(e->min, e->max)); return n; }
static inline string re_text(const ReP &e) {
	string o; switch (e->k) { case Re::EMPTY: return "()"; case Re::START: return "^"; case Re::END: return "$"; case Re::ENDNL: return "$n"; case Re::NEVER: return "!"; case Re::SET: { if (e->set == Sym::all()) return "any"; if (e->set.size() == 1) return esc(string(1, (char)e->set.first())); o = "["; for (unsigned c = 0; c < 256; c++) if (e->set.get(c)) { unsigned d = c; while (d < 255 && e->set.get(d + 1)) d++; o += fmt("%02x-%02x ", c, d); c = d; } return o + "]"; }
	case Re::CAT: for (auto &x : e->c) o += re_text(x); return "(" + o + ")"; case Re::ALT: for (auto &x : e->c) o += (o.empty() ? "" : "|") + re_text(x); return "(" + o + ")"; case Re::REP: return re_text(e->c[0]) + fmt("{%d,%d}", e->min, e->max); } return o;
}
struct ReNfa {
	struct T { int to; int what; Sym s; }; // what: 0 epsilon, 1 symbol, 2 start, 3 end, 4 end or before the last newline
	vector<vector<T>> t; int add() { t.emplace_back(); return (int)t.size() - 1; }
	void arc(int a, int b, int w, const Sym &s = Sym()) { t[a].push_back({b, w, s}); }
	void put(const ReP &e, int a, int b) {
		switch (e->k) {
		case Re::EMPTY: arc(a, b, 0); break; case Re::SET: arc(a, b, 1, e->set); break; case Re::START: arc(a, b, 2); break; case Re::END: arc(a, b, 3); break; case Re::ENDNL: arc(a, b, 4); break; case Re::NEVER: break;
		case Re::CAT: { int q = a; for (size_t i = 0; i < e->c.size(); i++) { int n = i + 1 == e->c.size() ? b : add(); put(e->c[i], q, n); q = n; } if (e->c.empty()) arc(a, b, 0); break; }
		case Re::ALT: for (auto &x : e->c) { int p = add(), q = add(); arc(a, p, 0); put(x, p, q); arc(q, b, 0); } break;
		case Re::REP: { int q = add(); arc(a, q, 0); for (int i = 0; i < e->min; i++) { int n = add(); put(e->c[0], q, n); q = n; }
			if (e->max < 0) { int l = add(), m = add(); arc(q, l, 0); put(e->c[0], l, m); arc(m, l, 0); arc(l, b, 0); } else { for (int i = e->min; i < e->max; i++) { int n = add(); arc(q, b, 0); put(e->c[0], q, n); q = n; } arc(q, b, 0); } break; }
		}
	}
};
// the subjects in which e matches; at_start: only from the beginning, to_end: only up to the end
static inline Auto re_subjects(const ReP &e, bool at_start, bool to_end, const vector<u32> &ids = {}) {
	ReNfa n; int a = n.add(), b = n.add(); n.put(e, a, b);
	Auto m; std::map<std::array<int, 3>, int> id; vector<std::array<int, 3>> todo;
	auto st = [&](int q, int fresh, int e2) { std::array<int, 3> k{q, fresh, e2}; auto it = id.find(k); if (it != id.end()) return it->second; int x = m.add(); id[k] = x; todo.push_back(k); return x; };
	int pre = m.add(), pre2 = m.add(), acc = m.add(), done = m.add(); m.start = pre; m.s[acc].end = m.s[done].end = true; m.s[acc].ids = m.s[done].ids = ids;
	m.edge(acc, acc, Sym::all());
	m.eps(pre, st(a, 1, 0)); if (!at_start) { m.edge(pre, pre2, Sym::all()); m.edge(pre2, pre2, Sym::all()); m.eps(pre2, st(a, 0, 0)); }
	while (!todo.empty()) { auto k = todo.back(); todo.pop_back(); int x = id[k];
		if (k[0] == b) { if (k[2] == 0 && !to_end) m.eps(x, acc); else { m.eps(x, done); if (k[2] == 2 && !to_end) m.edge(x, done, '\n'); } }
		for (auto &t : n.t[k[0]]) switch (t.what) {
		case 0: m.eps(x, st(t.to, k[1], k[2])); break;
		case 1: if (k[2] == 0) m.edge(x, st(t.to, 0, 0), t.s); else if (k[2] == 2 && t.s.get('\n')) m.edge(x, st(t.to, 0, 1), (unsigned)'\n'); break;
		case 2: if (k[1]) m.eps(x, st(t.to, k[1], k[2])); break;
		case 3: m.eps(x, st(t.to, k[1], 1)); break;
		case 4: m.eps(x, st(t.to, k[1], k[2] == 1 ? 1 : 2)); break;
		} }
	return m;
}
// predicates of bytes, C locale
static inline Sym sym_if(bool (*f)(unsigned)) { Sym s; for (unsigned c = 0; c < 256; c++) if (f(c)) s.set(c); return s; }
static inline bool is_lower(unsigned c) { return c >= 'a' && c <= 'z'; } static inline bool is_upper(unsigned c) { return c >= 'A' && c <= 'Z'; } static inline bool is_digit(unsigned c) { return c >= '0' && c <= '9'; }
static inline bool is_alpha(unsigned c) { return is_lower(c) || is_upper(c); } static inline bool is_alnum(unsigned c) { return is_alpha(c) || is_digit(c); }
static inline bool is_word(unsigned c) { return is_alnum(c) || c == '_'; } static inline bool is_space(unsigned c) { return c == ' ' || (c >= 9 && c <= 13); } static inline bool is_blank(unsigned c) { return c == ' ' || c == 9; }
static inline bool is_hspace(unsigned c) { return c == ' ' || c == 9 || c == 0xa0; } static inline bool is_vspace(unsigned c) { return (c >= 10 && c <= 13) || c == 0x85; }
static inline bool is_cntrl(unsigned c) { return c < 32 || c == 127; } static inline bool is_graph(unsigned c) { return c > 32 && c < 127; } static inline bool is_print(unsigned c) { return c >= 32 && c < 127; } static inline bool is_punct(unsigned c) { return is_graph(c) && !is_alnum(c); }
static inline bool is_xdigit(unsigned c) { return is_digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } static inline bool is_ascii(unsigned c) { return c < 128; }
static const struct { const char *name; bool (*f)(unsigned); } posix_classes[] = {{"alnum", is_alnum}, {"alpha", is_alpha}, {"ascii", is_ascii}, {"blank", is_blank}, {"cntrl", is_cntrl}, {"digit", is_digit}, {"graph", is_graph}, {"lower", is_lower}, {"print", is_print}, {"punct", is_punct}, {"space", is_space}, {"upper", is_upper}, {"word", is_word}, {"xdigit", is_xdigit}};
// Short strings that visit every state of a deterministic machine and try every class of byte there
static inline vector<string> covering_strings(const Dfa &d, Rng &r, size_t limit) {
	vector<string> acc(d.n()); vector<char> seen(d.n(), 0); std::deque<int> q{d.start}; seen[d.start] = 1; vector<int> order;
	while (!q.empty()) { int x = q.front(); q.pop_front(); order.push_back(x); for (size_t c = 0; c < d.cl.rep.size(); c++) { int y = d.t[x][c]; if (!seen[y]) { seen[y] = 1; acc[y] = acc[x] + (char)d.cl.rep[c]; q.push_back(y); } } }
	vector<string> out; static const char *suf[] = {"", "\n", "\n\n", "a", "\na"};
	for (int x : order) { for (auto s : suf) out.push_back(acc[x] + s); for (unsigned c : d.cl.rep) out.push_back(acc[x] + (char)c); }
	if (out.size() > limit) { r.shuffle(out); out.resize(limit); }
	return out;
}
