#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c04";
static Auto gen_dfa(Ctx &c, Rng &r) {
	GenOpt g; g.dfa = true; g.eps = false; g.ids = r.chance(60); g.eager = r.chance(30); Auto a; int k = r.weighted({30, 15, 15, 12, 8, 10, 10, 8});
	if (k == 0) { g.maxn = 10; a = random_auto(r, g); }
	else if (k == 1) { g.maxn = 60; g.edgemax = r.range(1, 6); a = random_auto(r, g); }
	else if (k == 2) { g.maxn = 8; a = random_auto(r, g); a = blow_up(r, a, r.range(1, 40)); }
	else if (k == 3) { g.maxn = 14; g.nostart = r.chance(50); a = random_auto(r, g); a = blow_up(r, a, r.range(50, 400)); a = permute(r, a); }
	else if (k == 4) { // ladders: chains which merge at their ends, so that equivalence shows only after many steps
		int len = r.range(2, c.thorough() ? 400 : 150), w = r.range(2, 6); int s = a.add(); a.start = s; vector<int> head; for (int i = 0; i < w; i++) { int q = a.add(); a.edge(s, q, 'a' + i); for (int j = 0; j < len; j++) { int t = a.add(); a.edge(q, t, 'x'); if (r.chance(5)) a.edge(q, t, 'y'); q = t; } a.s[q].end = true; if (g.ids && r.chance(50)) a.s[q].ids = {(u32)r.below(3)}; if (r.chance(40)) a.edge(q, r.chance(50) ? q : s, 'z'); } }
	else if (k == 7) { // leaves alike but for what they report, where that differs in one bit, or in how much there is of it
		int w = r.range(2, 60), s = a.add(); a.start = s; int tail = r.chance(40) ? a.add() : -1; if (tail >= 0) a.s[tail].end = true; int kind = r.range(1, 3);
		vector<u32> base; for (int i = 0, m = r.range(1, 3); i < m; i++) base.push_back(random_id(r));
		auto ids = [&]() { std::set<u32> z; for (u32 b : base) if (r.chance(80)) z.insert(r.chance(50) ? b : b ^ (1u << r.below(32))); return vector<u32>(z.begin(), z.end()); };
		for (int i = 0; i < w; i++) { int q = a.add(); a.edge(s, q, 'A' + i); if (r.chance(80)) a.s[q].end = true; if (tail >= 0) a.edge(q, tail, 'x'); if (a.s[q].end && (kind & 1)) a.s[q].ids = ids(); if (kind & 2) a.s[q].eager = ids(); } }
	else { // determinised NFA through the model
		GenOpt h; h.ids = g.ids; h.eager = g.eager; h.maxn = 9; Auto n = k == 5 ? random_auto(r, h) : big_auto(r, h, r.range(10, 120)); Dfa d; if (!model_dfa(n, 7, d, 3000, 60000)) { c.unsure("subset budget"); return a; }
		for (int i = 0; i < d.n(); i++) { a.add(); a.s[i].end = d.o[i].end; a.s[i].ids = d.o[i].ids; a.s[i].eager = d.o[i].eager; }
		vector<Sym> cls(d.cl.rep.size()); for (int x = 0; x < 256; x++) cls[d.cl.of[x]].set(x);
		for (int i = 0; i < d.n(); i++) for (size_t x = 0; x < cls.size(); x++) a.edge(i, d.t[i][x], cls[x]);
		a.start = d.start; if (r.chance(50)) a = permute(r, a); if (a.n() < 40 && r.chance(30)) a = blow_up(r, a, r.range(1, 30)); }
	return a;
}
static void judge(Ctx &c, const Auto &m, const struct fsm *f, int want, const char *what) {
	Auto s = snapshot(f); string w; size_t ex = 0;
	if (s.n() && !is_dfa(s)) c.violation(string(what) + ":not-dfa", m.text());
	int v = same_behaviour(live_part(m), live_part(s), 7, &w, 60000, &ex); c.eval(); c.count("product-states", ex);
	if (v < 0) c.unsure("product budget");
	if (v == 0) { Obs a = model_run(m, w), b = model_run(s, w); c.violation(fmt("%s:%s", what, a.end != b.end ? "language" : a.ids != b.ids ? "ids" : "eager"), fmt("input %s: original %s, result %s\noriginal ", esc(w).c_str(), a.text().c_str(), b.text().c_str()) + m.text() + "\nresult " + s.text()); }
	if (s.n() != want) c.violation(string(what) + (s.n() > want ? ":not-minimal" : ":too-small"), fmt("%d states, the smallest DFA has %d\noriginal ", s.n(), want) + m.text() + "\nresult " + s.text());
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); Auto m = gen_dfa(c, r); if (m.n() == 0) return;
	if (m.start < 0) m.start = (int)r.below(m.n()); // a DFA has a start state
	Dfa d; if (!model_dfa(m, 7, d, 30000, 300000)) { c.unsure("subset budget"); return; }
	int want = minimal_size(d);
	if (m.n() >= 3 && want >= 2 && m.nedges() >= 2) c.nontrivial(m.hash());
	c.count("states", m.n()); c.count("minimal-states", want); c.count(want < m.n() ? "shrinks" : "already-minimal"); if (want == 0) c.count("empty-language");
	CountAlloc ca; bool custom = r.chance(15);
	struct fsm *f = build(m, custom ? &ca.fa : nullptr, &r); struct fsm *g = fsm_clone(f);
	if (idx < 3) c.sample("minimise " + m.text(600));
	if (!fsm_minimise(f)) { c.violation("minimise:failed", m.text()); fsm_free(f); fsm_free(g); return; }
	judge(c, m, f, want, "minimise"); Auto s1 = snapshot(f); string why;
	// minimising again changes nothing
	if (!fsm_minimise(f)) c.violation("minimise:failed", m.text()); else { Auto s2 = snapshot(f); if (!isomorphic(s1, s2, &why)) c.violation("minimise:not-idempotent", why + "\n" + m.text() + "\nfirst " + s1.text() + "\nsecond " + s2.text()); }
	// renumbered, or blown up
	{ Auto p = permute(r, m); if (r.chance(40) && p.n() < 200) p = blow_up(r, p, r.range(1, 20)); struct fsm *h = build(p, nullptr, &r); if (!fsm_minimise(h)) c.violation("minimise:failed", p.text()); else { Auto s3 = snapshot(h); if (!isomorphic(s1, s3, &why)) c.violation("minimise:numbering-matters", why + "\nfirst " + m.text() + "\nother " + p.text() + "\nresults " + s1.text() + "\n" + s3.text()); } fsm_free(h); }
	// by way of determinise, shuffle, trim
	{ int k = r.below(4); bool ok = true; if (k == 0) ok = fsm_shuffle(g, (unsigned)r.next()); else if (k == 1) ok = fsm_trim(g, r.chance(50) ? FSM_TRIM_START_REACHABLE : FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0; else if (k == 2) ok = fsm_determinise(g); 
		if (ok && fsm_minimise(g)) { Auto s4 = snapshot(g); if (!isomorphic(s1, s4, &why)) c.violation(fmt("minimise:after-%d-differs", k), why + "\n" + m.text() + "\nresults " + s1.text() + "\n" + s4.text()); } else c.violation("minimise:failed", m.text()); }
	fsm_free(f); fsm_free(g);
	if (custom && (ca.foreign || !ca.live.empty())) c.violation("allocator", fmt("foreign=%d, %zu blocks left; ", ca.foreign, ca.live.size()) + m.text());
}
