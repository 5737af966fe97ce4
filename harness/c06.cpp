#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c06";
static Auto gen(Ctx &c, Rng &r) {
	GenOpt g; g.nostart = r.chance(50); g.dfa = r.chance(30); g.eps = !g.dfa; g.ids = r.chance(30); g.eager = r.chance(10); g.edgemax = r.range(1, 4);
	Auto a; if (r.chance(5)) { a.add(); a.start = 0; int k = r.below(3); if (k) { a.s[0].end = true; if (k == 2) a.edge(0, 0, Sym::all()); } return a; }
	if (r.chance(25)) a = big_auto(r, g, r.range(10, c.thorough() ? 400 : 120)); else { g.maxn = r.range(1, 11); a = random_auto(r, g); }
	if (a.n() == 0) a.add();
	if (a.start < 0) a.start = 0;
	if (r.chance(25)) a.s[a.start].end = true;
	if (r.chance(25)) { int k = r.range(1, 3); for (int i = 0; i < k; i++) a.edge((int)r.below(a.n()), a.start, random_sym(r, (int)r.below(8))); } // edges back into the start
	if (r.chance(10)) for (auto &s : a.s) if (r.chance(60)) s.end = true;
	if (r.chance(5)) for (auto &s : a.s) s.end = false;
	if (g.dfa) for (auto &s : a.s) { Sym used; for (auto &p : s.e) { p.second = p.second & ~used; used = used | p.second; } s.e.erase(std::remove_if(s.e.begin(), s.e.end(), [](const std::pair<int, Sym> &p) { return !p.second.any(); }), s.e.end()); }
	return a;
}
static void same(Ctx &c, const char *what, const Auto &want, const Auto &got, const string &story) {
	string w; size_t ex = 0; int v = same_behaviour(want, got, OUT_END, &w, 50000, &ex); c.eval(); c.count(what); c.count("product-states", ex);
	if (v < 0) c.unsure("product budget");
	if (v == 0) c.violation(string(what) + ":language", fmt("%s: input %s is %s, expected %s\n", what, esc(w).c_str(), model_run(got, w).end ? "accepted" : "rejected", model_run(want, w).end ? "accepted" : "rejected") + story + "\nresult " + got.text());
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); CountAlloc ca; const struct fsm_alloc *al = r.chance(15) ? &ca.fa : nullptr;
	Auto a = gen(c, r), b = gen(c, r); if (r.chance(5)) b = a;
	{ Dfa d; if (!model_dfa(a, 1, d, 2000, 60000) || !model_dfa(b, 1, d, 2000, 60000)) { c.unsure("subset budget"); return; } }
	if (a.nedges() && b.nedges() && a.n() + b.n() > 3) c.nontrivial(mix(a.hash(), b.hash()));
	string story = "A " + a.text(1500) + "\nB " + b.text(1500); if (idx < 2) c.sample(story);
	bool aend = false; for (auto &s : a.s) aend |= s.end;
	{ // concatenation
		struct fsm *fa = build(a, al, &r), *fb = build(b, al, &r); if (r.chance(20)) fsm_determinise(fb); if (r.chance(10) && fsm_determinise(fa)) {} struct fsm_combine_info ci; bool info = r.chance(60); if (info) memset(&ci, 0x77, sizeof ci); Auto sa = snapshot(fa, false), sb = snapshot(fb, false);
		bool has = false; for (auto &s : sa.s) has |= s.end; bool sta = sa.n() && sb.n() && sa.start >= 0 && sb.start >= 0;
		struct fsm *q = fsm_concat(fa, fb, info ? &ci : nullptr);
		if (!q) { if (has && sta) c.violation("concat:failed", story); fsm_free(fa); fsm_free(fb); c.count("concat-refused"); }
		else if (!sta || !has) { c.count("concat-degenerate"); fsm_free(q); }
		else { Auto m; m.s = a.s; int off = a.n(); for (auto s : b.s) { for (auto &p : s.e) p.first += off; for (int &x : s.eps) x += off; m.s.push_back(s); } for (int i = 0; i < off; i++) if (m.s[i].end) { m.s[i].end = false; m.eps(i, off + b.start); } m.start = a.start;
			Auto s = snapshot(q, false); same(c, "concat", m, s, story);
			if (info) { for (int i = 0; i < sa.n(); i++) for (auto &p : sa.s[i].e) { bool ok = false; if (ci.base_a + i < (u64)s.n()) for (auto &z : s.s[ci.base_a + i].e) if (z.first == (int)(ci.base_a + p.first) && z.second == p.second) ok = true; if (!ok) { c.violation("concat:offsets", fmt("A at %u, state %d: ", ci.base_a, i) + story); i = sa.n(); break; } }
				for (int i = 0; i < sb.n(); i++) for (auto &p : sb.s[i].e) { bool ok = false; if (ci.base_b + i < (u64)s.n()) for (auto &z : s.s[ci.base_b + i].e) if (z.first == (int)(ci.base_b + p.first) && z.second == p.second) ok = true; if (!ok) { c.violation("concat:offsets", fmt("B at %u, state %d: ", ci.base_b, i) + story); i = sb.n(); break; } } }
			Dfa dd; if (r.chance(30) && model_dfa(m, 1, dd, 3000, 200000)) { if (!fsm_determinise(q)) c.violation("concat:determinise", story); else same(c, "concat-determinised", m, snapshot(q, false), story); }
			fsm_free(q); } }
	{ // reversal, twice
		struct fsm *f = build(a, al, &r); bool hadeps = !no_eps(a);
		Auto m; m.s.resize(a.n() + 1); for (int i = 0; i < a.n(); i++) { for (auto &p : a.s[i].e) m.edge(p.first, i, p.second); for (int t : a.s[i].eps) m.eps(t, i); if (a.s[i].end) m.eps(a.n(), i); } m.s[a.start].end = true; m.start = a.n();
		if (!fsm_reverse(f)) c.violation("reverse:failed", story); else { Auto s = snapshot(f, false); same(c, "reverse", m, s, "A " + a.text()); if (!hadeps && !no_eps(s)) c.violation("reverse:adds-epsilons", a.text());
			if (r.chance(60) && s.start >= 0) { Dfa dd; if (model_dfa(m, 1, dd, 3000, 200000)) { if (r.chance(30)) fsm_determinise(f); if (r.chance(20) && fsm_determinise(f)) fsm_minimise(f); } fsm_state_t x; if (fsm_countstates(f) && fsm_getstart(f, &x)) { if (!fsm_reverse(f)) c.violation("reverse:failed", story); else same(c, "reverse-twice", a, snapshot(f, false), "A " + a.text()); } } }
		fsm_free(f); }
	{ // completion
		struct fsm *f = build(a, al, &r); int k = r.below(4); int (*pred)(const struct fsm *, fsm_state_t) = k == 0 ? fsm_isend : k == 1 ? fsm_hasoutgoing : fsm_isany;
		bool was = is_dfa(a); if (!was && r.chance(50)) { if (!fsm_determinise(f)) c.violation("complete:determinise", story); }
		Auto before = snapshot(f, false); vector<char> sel; bool dfa0 = is_dfa(before); if (dfa0) for (int i = 0; i < before.n(); i++) sel.push_back(!!pred(f, i));
		if (!fsm_complete(f, pred)) { c.violation("complete:failed", story); f = nullptr; } else { Auto s = snapshot(f, false); same(c, "complete", a, s, "A " + a.text()); if (!is_dfa(s)) c.violation("complete:not-dfa", a.text() + "\n" + s.text());
			for (int i = 0; i < s.n(); i++) { int cnt = 0; for (auto &p : s.s[i].e) cnt += p.second.size(); bool must = pred == fsm_isany || (dfa0 && i < (int)sel.size() && sel[i]); if (must && cnt != 256) { c.violation("complete:incomplete", fmt("state %d has %d of 256 symbols\n", i, cnt) + a.text() + "\n" + s.text()); break; } }
			if (dfa0) for (int i = 0; i < before.n(); i++) { Sym had; for (auto &p : before.s[i].e) { had = had | p.second; bool ok = false; for (auto &z : s.s[i].e) if (z.first == p.first && (z.second & p.second) == p.second) ok = true; if (!ok) { c.violation("complete:lost-edge", a.text()); i = before.n() - 1; break; } } if (!sel[i] && i < before.n()) { int n0 = had.size(), n1 = 0; for (auto &z : s.s[i].e) n1 += z.second.size(); if (n0 != n1) c.violation("complete:unselected-state-changed", a.text()); } } }
		if (f) fsm_free(f); }
	if (al && (ca.foreign || !ca.live.empty())) c.violation("allocator", fmt("foreign=%d, %zu blocks left; ", ca.foreign, ca.live.size()) + story);
}
