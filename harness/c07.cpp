#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c07";
static Auto chain(Rng &r, int len) { Auto a; int q = a.add(); a.start = q; unsigned base = r.chance(50) ? 'a' : r.below(250); int w = r.range(1, 4); for (int i = 0; i < len; i++) { int t = a.add(); a.edge(q, t, Sym::range(base, std::min(255u, base + (unsigned)r.below(w)))); if (r.chance(5)) a.s[t].end = true; q = t; } a.s[q].end = true; if (r.chance(40)) a.edge(q, (int)r.below(a.n()), (unsigned)r.below(256)); return a; }
static Auto gen(Ctx &c, Rng &r) {
	GenOpt g; g.nostart = r.chance(40); g.dfa = r.chance(40); g.eps = !g.dfa; g.ids = r.chance(20); Auto a; int k = r.weighted({40, 25, 20, 5, 10});
	if (k == 0) { g.maxn = r.range(1, 10); a = random_auto(r, g); } else if (k == 1) a = big_auto(r, g, r.range(10, 120)); else if (k == 2) a = chain(r, r.range(1, c.thorough() ? 1500 : 300)); else if (k == 3) { if (r.chance(80)) { a.add(); a.start = 0; a.s[0].end = r.chance(50); if (r.chance(50)) a.edge(0, 0, Sym::all()); } } else { g.maxn = 40; g.dfa = true; g.eps = false; a = random_auto(r, g); }
	if (r.chance(8)) for (auto &s : a.s) s.end = false;
	return a;
}
// same language, other structure
static Auto rewrite(Rng &r, Auto a, bool &dfa) {
	int k = r.range(1, 3); for (int i = 0; i < k && a.n(); i++) switch (r.below(5)) {
	case 0: a = permute(r, a); break;
	case 1: if (a.n() < 300) a = blow_up(r, a, r.range(1, 12)); break; // drops epsilons, so only for machines without
	case 2: { int x = a.add(); a.s[x].end = r.chance(70); a.edge(x, (int)r.below(a.n()), random_sym(r, (int)r.below(8))); break; } // unreachable state
	case 3: { int x = a.add(); int f = (int)r.below(a.n() - 1); a.s[f].e.size(); Sym used; for (auto &p : a.s[f].e) used = used | p.second; Sym y = random_sym(r, (int)r.below(8)) & ~used; if (y.any()) a.edge(f, x, y); a.edge(x, x, Sym::all()); break; } // dead state
	default: { if (dfa && r.chance(60)) break; int f = (int)r.below(a.n()); int x = a.add(); a.s[x] = a.s[f]; for (auto &s : a.s) for (auto &p : vector<std::pair<int, Sym>>(s.e)) if (p.first == f && r.chance(40)) s.e.push_back({x, p.second}); dfa = false; } }
	return a;
}
static Auto mutate(Rng &r, Auto a) { if (!a.n()) { a.add(); a.start = 0; return a; } for (int t = 0; t < 5; t++) { int i = (int)r.below(a.n()); switch (r.below(3)) { case 0: a.s[i].end = !a.s[i].end; return a; case 1: if (a.s[i].e.empty()) break; { auto &p = a.s[i].e[r.below(a.s[i].e.size())]; unsigned x = p.second.nth(r.below(p.second.size())); p.second.clr(x); if (!p.second.any()) a.s[i].e.erase(a.s[i].e.begin() + (&p - &a.s[i].e[0])); return a; } default: { Sym used; for (auto &p : a.s[i].e) used = used | p.second; unsigned x = r.below(256); if (!used.get(x)) { a.edge(i, (int)r.below(a.n()), x); return a; } } } } return a; }
static string snap(const struct fsm *f) { Auto a = snapshot(f); for (auto &s : a.s) { std::sort(s.e.begin(), s.e.end()); std::sort(s.eps.begin(), s.eps.end()); } return a.text(1 << 20); }
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); Auto a = gen(c, r), b; int how = r.weighted({45, 40, 15}); bool adfa = is_dfa(a);
	if (how == 2) b = gen(c, r); else { b = a; if (no_eps(a)) b = rewrite(r, a, adfa); else if (r.chance(70)) b = permute(r, a); if (how == 1) { b = mutate(r, b); } }
	if (r.chance(25)) std::swap(a, b);
	if (a.n() == 0 && b.n() == 0) return;
	{ Dfa d; if (!model_dfa(a, 1, d, 3000, 100000) || !model_dfa(b, 1, d, 3000, 100000)) { c.unsure("subset budget"); return; } }
	CountAlloc ca; const struct fsm_alloc *al = r.chance(15) ? &ca.fa : nullptr;
	struct fsm *fa = build(a, al, &r), *fb = build(b, al, &r); if (r.chance(15)) fsm_determinise(fa); if (r.chance(15)) fsm_determinise(fb); if (r.chance(10)) { if (is_dfa(snapshot(fb, false)) && b.start >= 0) fsm_minimise(fb); }
	string s1 = snap(fa), s2 = snap(fb), w; Auto sa = snapshot(fa, false), sb = snapshot(fb, false); int eq = same_behaviour(a, b, OUT_END, &w, 60000); if (eq < 0) { c.unsure("product budget"); fsm_free(fa); fsm_free(fb); return; }
	if (a.nedges() && b.nedges()) c.nontrivial(mix(a.hash(), b.hash()));
	c.count(eq ? "equal-pairs" : "different-pairs"); if (!eq) { c.count("witness-bytes", w.size()); if (w.size() >= 8) c.count("witness-8-or-longer"); }
	string story = "A " + a.text(1800) + "\nB " + b.text(1800); if (idx < 2) c.sample(story);
	bool sta = sa.start >= 0, stb = sb.start >= 0; errno = 0;
	int e1 = fsm_equal(fa, fb), e2 = fsm_equal(fb, fa); c.eval(2);
	for (int e : {e1, e2}) if (e != eq) c.violation(fmt("equal:%s", !sta || !stb ? "no-start" : eq ? "said-different" : "said-equal"), fmt("fsm_equal says %d; the languages are %s %s\n", e, eq ? "equal" : "different, e.g. at", eq ? "" : esc(w).c_str()) + story);
	if (fsm_equal(fa, fa) != 1) c.violation("equal:not-reflexive", story);
	auto em = [&](struct fsm *f, const Auto &m, bool st) { int want = forall_strings({&m}, OUT_END, [](const vector<Obs> &o) { return !o[0].end; }, nullptr); int e = fsm_empty(f); c.eval(); if (want < 0) return; c.count(want ? "empty" : "non-empty"); if (st ? e != want : (e != want && e != -1)) c.violation(fmt("empty:said-%d", e), fmt("fsm_empty says %d, it is %d\n", e, want) + m.text()); };
	em(fa, a, sta); em(fb, b, stb);
	if (snap(fa) != s1 || snap(fb) != s2) c.violation("arguments-changed", story);
	fsm_free(fa); fsm_free(fb); if (al && (ca.foreign || !ca.live.empty())) c.violation("allocator", fmt("foreign=%d, %zu blocks left; ", ca.foreign, ca.live.size()) + story);
	if (al) { CountAlloc cb; struct fsm *x = build(a, nullptr), *y = build(a, &cb.fa); if (fsm_equal(x, y) != -1) c.violation("equal:mixed-allocators", story); fsm_free(x); fsm_free(y); }
}
