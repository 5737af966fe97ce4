#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c14";
static bool reaches_end(const Auto &a, int without) { // is anything accepted without ever using this byte?
	vector<char> seen(a.n(), 0); vector<int> q{a.start}; seen[a.start] = 1;
	while (!q.empty()) { int x = q.back(); q.pop_back(); if (a.s[x].end) return true; for (auto &p : a.s[x].e) { if (seen[p.first]) continue; Sym y = p.second; if (without >= 0) y.clr(without); if (y.any()) { seen[p.first] = 1; q.push_back(p.first); } } }
	return false;
}
// layered machines where every path shares some bytes, with detours, loops, groups and alternative ends
static Auto structured(Rng &r) {
	Auto a; int q = a.add(); a.start = q; unsigned base = r.chance(60) ? 'a' : r.below(250); int alpha = r.range(2, 12); vector<int> hist{q}; auto ch = [&]() { return (unsigned)((base + r.below(alpha)) & 255); };
	auto free_sym = [&](int s) { Sym u; for (auto &p : a.s[s].e) u = u | p.second; return ~u; };
	int len = r.range(1, 14);
	for (int i = 0; i < len; i++) {
		int t = a.add(); Sym fr = free_sym(q); unsigned c = ch(); if (!fr.get(c)) c = fr.first(); if (c > 255) break;
		a.edge(q, t, c); fr.clr(c);
		switch (r.below(9)) {
		case 0: { unsigned d = (c + 1 + r.below(3)) & 255; if (fr.get(d)) a.edge(q, t, d); break; } // a group
		case 1: { unsigned d = ch(); if (fr.get(d)) { int m = a.add(); a.edge(q, m, d); a.edge(m, t, r.chance(60) ? c : ch()); } break; } // a detour with or without the byte
		case 2: { Sym f2 = free_sym(t); unsigned d = ch(); if (f2.get(d)) a.edge(t, r.pick(hist), d); break; } // a way back
		case 3: { unsigned d = ch(); if (fr.get(d)) a.edge(q, q, d); break; }
		case 4: { unsigned d = ch(); if (fr.get(d)) { int m = a.add(); a.edge(q, m, d); int k = r.below(4); for (int j = 0; j < k; j++) { int z = a.add(); a.edge(m, z, ch()); m = z; } if (r.chance(70)) a.s[m].end = true; } break; } // another end, or a dead branch
		case 5: { unsigned d = r.below(256); if (fr.get(d)) a.edge(q, t, d); break; } // a group across words
		case 6: { if (i > 1 && r.chance(50)) a.s[t].end = true; break; }
		default: break; }
		hist.push_back(t); q = t;
	}
	a.s[q].end = true; if (r.chance(10)) a.add(); if (r.chance(40)) a = permute(r, a); return a;
}
// one long path on which few bytes repeat hundreds of times, with shortcuts to the end and dead ends
static Auto chain(Rng &r) {
	Auto a; int len = r.range(200, 700), q = a.add(); a.start = q; unsigned base = r.chance(60) ? 'a' : r.below(250); int alpha = r.range(1, 3); vector<int> st{q};
	for (int i = 0; i < len; i++) { int t = a.add(); unsigned c = (base + (r.chance(90) ? 0 : r.below(alpha))) & 255; a.edge(q, t, c); if (r.chance(2)) a.edge(q, t, (c + 1) & 255); q = t; st.push_back(q); }
	int e = a.add(); a.s[e].end = true; a.edge(q, e, (base + 5) & 255); int k = r.below(4);
	for (int i = 0; i < k; i++) { int x = r.pick(st); a.edge(x, e, (base + 5 + r.below(3)) & 255); }
	if (r.chance(30)) a.edge(a.start, e, (base + 5) & 255); return a;
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); Auto a;
	if (idx % 50 == 9) { a = chain(r); c.count("long-chains"); } else if (r.chance(70)) a = structured(r); else { GenOpt g; g.eps = false; g.dfa = true; g.nostart = false; g.maxn = r.range(2, 9); g.edgemax = r.range(1, 3); a = random_auto(r, g); if (r.chance(50)) for (auto &s : a.s) for (auto &p : s.e) if (r.chance(60)) { unsigned x = p.second.first(); p.second = Sym::one(x); } }
	if (a.n() == 0 || a.start < 0 || !is_dfa(a)) return;
	struct fsm *f = build(a, NULL, &r); auto bad = [&](const string &k, const string &why) { c.violation(k, fmt("%s: %s\n%s", k.c_str(), why.c_str(), a.text().c_str())); };
	u64 m[4] = {1, 2, 3, 4}; size_t n = 999; bool given = r.chance(80); size_t cap = 300000;
	int res = fsm_detect_required_characters(f, cap, m, given ? &n : NULL); c.eval();
	bool some = reaches_end(a, -1); Sym want; if (some) for (int x = 0; x < 256; x++) if (!reaches_end(a, x)) want.set(x);
	if (res == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED) { c.count("over-budget"); if (m[0] | m[1] | m[2] | m[3]) bad("limit:map", "partial answer"); }
	else if (res != FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN) bad("result", fmt("%d", res));
	else if (!some) c.count("empty-language");
	else { Sym got; for (int i = 0; i < 4; i++) got.w[i] = m[i]; c.count("required-bytes", want.size()); c.count(want.any() ? "some-required" : "none-required");
		if (got != want) { string t; for (int x = 0; x < 256; x++) if (got.get(x) != want.get(x)) t += fmt("%02x %s; ", x, want.get(x) ? "is required, not reported" : "is not required, but reported"); bad("set", t); }
		if (given && (int)n != want.size()) bad("count", fmt("%zu, expected %d", n, want.size()));
		// step limits: either the same answer or an explicit refusal with nothing in the map
		for (int k = 0; k < 4; k++) { size_t lim = k == 0 ? 0 : 1 + r.below(k == 1 ? 4 : 60); u64 w[4] = {9, 9, 9, 9}; size_t z = 12345; int x = fsm_detect_required_characters(f, lim, w, &z); c.eval(); Sym g2; for (int i = 0; i < 4; i++) g2.w[i] = w[i];
			if (x == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED) { c.count("limit-reached"); if (g2.any() || lim == 0) bad("limit:map", fmt("limit %zu", lim)); } else if (x != FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN) bad("limit:result", fmt("%d", x)); else { c.count("limit-enough"); if (g2 != want || (int)z != want.size()) bad("limit:set", fmt("limit %zu gives a different answer", lim)); } } }
	// the query must leave the machine as it was
	{ string w; Auto s = snapshot(f); if (s.hash() != snapshot(f).hash() || s.n() != a.n() || s.nedges() != a.nedges()) bad("changed", "graph"); if (some && fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0) { Auto t = snapshot(f); if (same_behaviour(a, t, OUT_END, &w, 3000) == 0) bad("changed", "trimming afterwards changes " + esc(w)); } }
	fsm_free(f);
	if (some && a.n() >= 2) { c.nontrivial(a.hash()); c.sample(a.text(500)); }
}
