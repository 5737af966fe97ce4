#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c05";
// a cycle over one symbol, with some ends and an occasional way off it: two of these make a product of thousands of states
static Auto cycle(Rng &r, int n) {
	Auto a; for (int i = 0; i < n; i++) a.add(); a.start = 0;
	for (int i = 0; i < n; i++) { a.edge(i, (i + 1) % n, Sym::one('a')); a.s[i].end = i == 0 || r.chance(10); if (r.chance(6)) a.edge(i, (int)r.below(n), Sym::one('b')); }
	return a;
}
static Auto gen(Ctx &c, Rng &r, int small) {
	GenOpt g; g.nostart = r.chance(50); g.dfa = r.chance(30); g.eps = !g.dfa; g.ids = r.chance(25);
	Auto a; if (r.chance(4)) { a.add(); a.start = 0; int k = r.below(3); if (k) { a.s[0].end = true; if (k == 2) a.edge(0, 0, Sym::all()); } return a; } // empty, {""}, universal
	if (!small && r.chance(25)) { a = big_auto(r, g, r.range(10, c.thorough() ? 300 : 90)); if (g.dfa && !is_dfa(a)) g.dfa = false; }
	else { g.maxn = small ? 5 : r.range(2, 10); a = random_auto(r, g); }
	if (a.n() == 0) a.add();
	if (a.start < 0) a.start = 0;
	return a;
}
// complete but nondeterministic, or with every symbol
static Auto gen_full(Rng &r) {
	Auto a; int n = r.range(1, 5); for (int i = 0; i < n; i++) { a.add(); a.s[i].end = r.chance(40); } a.start = r.below(n);
	for (int i = 0; i < n; i++) { int parts = r.range(1, 3); if (parts == 1) a.edge(i, (int)r.below(n), Sym::all()); else { Sym y = Sym::range(r.below(120), 120 + r.below(120)); a.edge(i, (int)r.below(n), y); a.edge(i, (int)r.below(n), ~y); } if (r.chance(40)) a.edge(i, (int)r.below(n), random_sym(r, (int)r.below(7))); if (r.chance(15)) a.eps(i, (int)r.below(n)); }
	return a;
}
static struct fsm *prep(Rng &r, const Auto &a, const struct fsm_alloc *al) { struct fsm *f = build(a, al, &r); int k = r.below(10); if (k == 0) fsm_determinise(f); else if (k == 1) { fsm_determinise(f); fsm_minimise(f); if (fsm_countstates(f) == 0) { fsm_free(f); f = build(a, al, &r); } } else if (k == 2) fsm_remove_epsilons(f); else if (k == 3) fsm_shuffle(f, (unsigned)r.next()); return f; }
static void check(Ctx &c, const char *what, const vector<const Auto *> &as, const Auto &res, const std::function<bool(const vector<bool> &)> &fn, const Sym *alpha = nullptr) {
	vector<const Auto *> v = as; v.push_back(&res); string w; size_t ex = 0;
	int x = forall_strings(v, OUT_END, [&](const vector<Obs> &o) { vector<bool> b; for (size_t i = 0; i + 1 < o.size(); i++) b.push_back(o[i].end); return fn(b) == o.back().end; }, &w, 40000, alpha, &ex);
	c.eval(); c.count("product-states", ex); c.count(what);
	if (x < 0) c.unsure("product budget");
	if (x == 0) { string m = fmt("%s: input %s: ", what, esc(w).c_str()); for (auto *a : v) m += fmt("%s ", model_run(*a, w).end ? "accept" : "reject"); m += "(operands, result)\n"; for (auto *a : v) m += a->text(1200) + "\n"; c.violation(string(what) + ":language", m); }
}
static bool embedded(const Auto &op, const Auto &res, u64 base, string *why) {
	for (int i = 0; i < op.n(); i++) { u64 x = base + i; if (x >= (u64)res.n()) { *why = fmt("state %d at %llu is outside", i, (unsigned long long)x); return false; }
		if (op.s[i].end != res.s[x].end) { *why = fmt("state %d at %llu: end differs", i, (unsigned long long)x); return false; }
		std::map<int, Sym> e; for (auto &p : res.s[x].e) e[p.first] = p.second; for (auto &p : op.s[i].e) if (!e.count((int)(base + p.first)) || !(e[(int)(base + p.first)] == p.second)) { *why = fmt("state %d at %llu: edges differ", i, (unsigned long long)x); return false; }
		if (e.size() != op.s[i].e.size()) { *why = fmt("state %d at %llu: edges differ", i, (unsigned long long)x); return false; }
		std::set<int> q(res.s[x].eps.begin(), res.s[x].eps.end()); for (int t : op.s[i].eps) if (!q.count((int)base + t)) { *why = fmt("state %d at %llu: epsilons differ", i, (unsigned long long)x); return false; } }
	return true;
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); CountAlloc ca; const struct fsm_alloc *al = r.chance(15) ? &ca.fa : nullptr;
	Auto a = gen(c, r, 0), b = gen(c, r, 0); if (r.chance(15)) a = gen_full(r); if (r.chance(10)) b = gen_full(r);
	if (r.chance(2)) { int n = r.range(40, 75); a = cycle(r, n); b = cycle(r, n + (r.chance(70) ? 1 : 2)); c.count("large-product"); }
	else if (r.chance(15)) { b = permute(r, a); if (r.chance(60) && b.n()) { int i = r.below(b.n()); if (r.chance(50)) b.s[i].end = !b.s[i].end; else if (!b.s[i].e.empty()) { auto &p = r.pick(b.s[i].e); auto &y = const_cast<Sym &>(p.second); y.clr(y.nth(r.below(y.size()))); if (!y.any()) y.set(200); } } }
	{ Dfa d; if (!model_dfa(a, 1, d, 1500, 40000) || !model_dfa(b, 1, d, 1500, 40000)) { c.unsure("subset budget"); return; } }
	if (a.nedges() && b.nedges() && a.n() + b.n() > 3) c.nontrivial(mix(a.hash(), b.hash()));
	if (idx < 2) c.sample("A " + a.text(400) + "\nB " + b.text(400));
	string why;
	{ // union, with offsets
		struct fsm *fa = build(a, al, &r), *fb = build(b, al, &r); struct fsm_combine_info ci; memset(&ci, 0x77, sizeof ci); bool info = r.chance(70);
		struct fsm *q = fsm_union(fa, fb, info ? &ci : nullptr); if (!q) c.violation("union:failed", a.text() + b.text()); else { Auto s = snapshot(q); check(c, "union", {&a, &b}, s, [](const vector<bool> &v) { return v[0] || v[1]; });
			if (info && (!embedded(a, s, ci.base_a, &why) || !embedded(b, s, ci.base_b, &why))) c.violation("union:offsets", why + "\n" + a.text() + "\n" + b.text()); fsm_free(q); } }
	{ struct fsm *fa = prep(r, a, al), *fb = prep(r, b, al); struct fsm *q = fsm_intersect(fa, fb); if (!q) c.violation("intersect:failed", a.text() + b.text()); else { Auto s = snapshot(q); check(c, "intersect", {&a, &b}, s, [](const vector<bool> &v) { return v[0] && v[1]; }); if (!is_dfa(s)) c.violation("intersect:not-dfa", s.text()); fsm_free(q); } }
	{ struct fsm *fa = prep(r, a, al), *fb = prep(r, b, al); struct fsm *q = fsm_subtract(fa, fb); if (!q) c.violation("subtract:failed", a.text() + b.text()); else { Auto s = snapshot(q); check(c, "subtract", {&a, &b}, s, [](const vector<bool> &v) { return v[0] && !v[1]; }); fsm_free(q); } }
	{ struct fsm *fa = prep(r, a, al); if (!fsm_complement(fa)) c.violation("complement:failed", a.text()); else { Auto s = snapshot(fa); check(c, "complement", {&a}, s, [](const vector<bool> &v) { return !v[0]; }); if (r.chance(50) && fsm_countstates(fa) > 0) { if (fsm_complement(fa)) { s = snapshot(fa); check(c, "complement-twice", {&a}, s, [](const vector<bool> &v) { return v[0]; }); } else { c.violation("complement:failed", a.text()); fa = nullptr; } } if (fa) fsm_free(fa); } }
	{ // charset: requires a DFA
		struct fsm *fa = build(a, al, &r); if (is_dfa(a) || fsm_determinise(fa)) { Sym y = random_sym(r, (int)r.below(8)); if (r.chance(60)) for (auto &st : a.s) if (!st.e.empty() && r.chance(40)) y = y | r.pick(st.e).second; if (r.chance(5)) y = Sym(); string cs; for (unsigned x = 0; x < 256; x++) if (y.get(x)) { cs += (char)x; if (r.chance(3)) cs += (char)x; } bool null = r.chance(4);
			struct fsm *q = fsm_intersect_charset(fa, null ? 0 : cs.size(), null ? nullptr : cs.data()); if (!q) c.violation("charset:failed", a.text()); else { Auto s = snapshot(q), k; k.add(); k.start = 0; k.s[0].end = true; k.edge(0, 0, null ? Sym::all() : y); check(c, "charset", {&a, &k}, s, [](const vector<bool> &v) { return v[0] && v[1]; }); fsm_free(q); } } else { c.violation("determinise:failed", a.text()); fsm_free(fa); } }
	if (r.chance(50)) { // n-ary union
		int k = r.range(1, 6); vector<Auto> v; vector<struct fsm *> f; for (int i = 0; i < k; i++) { v.push_back(i == 0 ? a : gen(c, r, 1)); }
		if (r.chance(30)) r.shuffle(v);
		for (auto &x : v) f.push_back(build(x, al, &r)); vector<struct fsm_combined_base_pair> bases(k); bool info = r.chance(70);
		struct fsm *q = fsm_union_array(k, f.data(), info ? bases.data() : nullptr); if (!q) c.violation("union-array:failed", ""); else { Auto s = snapshot(q); vector<const Auto *> p; for (auto &x : v) p.push_back(&x); check(c, "union-array", p, s, [](const vector<bool> &v) { for (bool x : v) if (x) return true; return false; });
			if (info) for (int i = 0; i < k; i++) if (!embedded(v[i], s, bases[i].state, &why)) { string m = fmt("operand %d of %d: ", i, k) + why + "\n"; for (auto &x : v) m += x.text(400) + "\n"; c.violation("union-array:offsets", m + s.text()); break; } fsm_free(q); } }
	if (r.chance(25)) { // identities over a chain of operations: ~(~A & ~B) == A | B; A - B == A & ~B, by way of the library's own results
		struct fsm *fa = build(a, al, &r), *fb = build(b, al, &r); bool ok = fsm_complement(fa); ok = fsm_complement(fb) && ok; if (ok) { struct fsm *q = fsm_intersect(fa, fb); if (q && fsm_complement(q)) { Auto s = snapshot(q); check(c, "de-morgan", {&a, &b}, s, [](const vector<bool> &v) { return v[0] || v[1]; }); fsm_free(q); } } }
	if (al && (ca.foreign || !ca.live.empty())) c.violation("allocator", fmt("foreign=%d, %zu blocks left; ", ca.foreign, ca.live.size()) + a.text(800) + "\n" + b.text(800));
}
