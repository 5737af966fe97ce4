#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c22";
typedef int (*Pred)(const struct fsm *, fsm_state_t);
struct PV { const char *name; Pred p; vector<char> v; };
static int p_odd(const struct fsm *, fsm_state_t s) { return s & 1; }
static vector<PV> truth(const Auto &m) {
	int n = m.n(); vector<char> any(n, 1), end(n), dfa(n), comp(n), in(n, 0), out(n), eps(n), nd(n), odd(n);
	for (int i = 0; i < n; i++) { auto &s = m.s[i]; end[i] = s.end; odd[i] = i & 1; eps[i] = !s.eps.empty(); Sym u; bool dup = false; for (auto &p : s.e) { if ((u & p.second).any()) dup = true; u = u | p.second; in[p.first] = 1; } for (int t : s.eps) in[t] = 1;
		comp[i] = u == Sym::all(); out[i] = u.any() || eps[i]; dfa[i] = m.start >= 0 && s.eps.empty() && !dup;
		std::set<int> cl{i}; vector<int> st{i}; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int t : m.s[x].eps) if (cl.insert(t).second) st.push_back(t); }
		bool d = false; Sym w; for (int x : cl) for (auto &p : m.s[x].e) { if ((w & p.second).any()) d = true; w = w | p.second; } nd[i] = d; }
	return {{"isany", fsm_isany, any}, {"isend", fsm_isend, end}, {"isdfa", fsm_isdfa, dfa}, {"iscomplete", fsm_iscomplete, comp}, {"hasincoming", fsm_hasincoming, in}, {"hasoutgoing", fsm_hasoutgoing, out}, {"hasepsilons", fsm_hasepsilons, eps}, {"hasnondeterminism", fsm_hasnondeterminism, nd}, {"custom", p_odd, odd}};
}
struct W { long left; long calls = 0; std::map<std::tuple<int, int, int>, int> seen; };
static int w_state(const struct fsm *, fsm_state_t s, void *o) { W *w = (W *)o; w->calls++; w->seen[{(int)s, -1, -1}]++; return w->left-- > 0; }
static int w_lit(const struct fsm *, fsm_state_t a, fsm_state_t b, char ch, void *o) { W *w = (W *)o; w->calls++; w->seen[{(int)a, (int)b, (unsigned char)ch}]++; return w->left-- > 0; }
static int w_eps(const struct fsm *, fsm_state_t a, fsm_state_t b, void *o) { W *w = (W *)o; w->calls++; w->seen[{(int)a, (int)b, 256}]++; return w->left-- > 0; }
static void check(Ctx &c, Rng &r, struct fsm *f, const Auto &m, const char *how) {
	int n = m.n(); auto bad = [&](const string &k, const string &why) { c.violation(k, fmt("%s (%s): %s\n%s", k.c_str(), how, why.c_str(), m.text().c_str())); };
	if (fsm_countstates(f) != (unsigned)n) bad("countstates", fmt("%u of %d", fsm_countstates(f), n));
	if (fsm_countedges(f) != m.nedges()) bad("countedges", fmt("%u of %zu", fsm_countedges(f), m.nedges()));
	fsm_state_t st = 0; int hs = fsm_getstart(f, &st); if ((hs != 0) != (m.start >= 0) || (hs && (int)st != m.start)) bad("getstart", fmt("%d %u", hs, st));
	auto ps = truth(m); c.eval(2); 
	vector<vector<char>> rc; if (n <= 60) { rc.assign(n, vector<char>(n, 0)); for (int i = 0; i < n; i++) { vector<int> q{i}; rc[i][i] = 1; while (!q.empty()) { int x = q.back(); q.pop_back(); auto go = [&](int t) { if (!rc[i][t]) { rc[i][t] = 1; q.push_back(t); } }; for (int t : m.s[x].eps) go(t); for (auto &p : m.s[x].e) go(p.first); } } }
	for (auto &p : ps) {
		unsigned k = 0; c.eval(n + 2);
		for (int i = 0; i < n; i++) { k += p.v[i]; int g = p.p(f, i); if ((g != 0) != (p.v[i] != 0)) bad(p.name, fmt("state %d: %d, expected %d", i, g, p.v[i])); }
		c.count(string("true:") + p.name, k);
		unsigned g = fsm_count(f, p.p); if (g != k) bad(string("count:") + p.name, fmt("%u, expected %u", g, k));
		if ((fsm_has(f, p.p) != 0) != (k > 0)) bad(string("has:") + p.name, "wrong");
		if (!rc.empty()) for (int i = 0; i < n; i++) { if (n > 8 && r.below(n) >= 5) continue; bool all = true, any = false; for (int j = 0; j < n; j++) if (rc[i][j]) { if (p.v[j]) any = true; else all = false; }
			int x = fsm_reachableall(f, i, p.p), y = fsm_reachableany(f, i, p.p); c.eval(2); if (x != (int)all) bad(string("reachableall:") + p.name, fmt("from %d: %d, expected %d", i, x, all)); if (y != (int)any) bad(string("reachableany:") + p.name, fmt("from %d: %d, expected %d", i, y, any)); c.count(all ? "reachall-true" : "reachall-false"); }
	}
	if (n > 0) { int e = fsm_empty(f); bool any = false; if (m.start >= 0) { vector<char> seen(n, 0); vector<int> q{m.start}; seen[m.start] = 1; while (!q.empty()) { int x = q.back(); q.pop_back(); any = any || m.s[x].end; auto go = [&](int t) { if (!seen[t]) { seen[t] = 1; q.push_back(t); } }; for (int t : m.s[x].eps) go(t); for (auto &p : m.s[x].e) go(p.first); } } if ((e != 0) == any) bad("empty", fmt("%d", e)); }
	// modes: only where some destination has two or more labels
	for (int i = 0; i < n; i++) { int best = 0; for (auto &p : m.s[i].e) best = std::max(best, p.second.size()); if (best < 1) continue; unsigned fr = 0; fsm_state_t md = fsm_findmode(f, i, r.chance(80) ? &fr : NULL); int got = 0; for (auto &p : m.s[i].e) if (p.first == (int)md) got = p.second.size(); c.eval(); c.count("findmode"); if (got != best || (fr && (int)fr != best)) bad("findmode", fmt("state %d: mode %u (%d labels, reported %u) but the most is %d", i, md, got, fr, best)); }
	// walks: each exactly once; stopping stops
	{ W w; w.left = LONG_MAX; int x = fsm_walk_states(f, &w, w_state); bool ok = x == 1 && w.calls == n && (int)w.seen.size() == n; if (!ok) bad("walk_states", fmt("returned %d after %ld calls, %zu states", x, w.calls, w.seen.size())); c.eval(); }
	{ W w; w.left = LONG_MAX; int x = fsm_walk_edges(f, &w, w_lit, w_eps); std::map<std::tuple<int, int, int>, int> e; for (int i = 0; i < n; i++) { for (auto &p : m.s[i].e) for (unsigned ch = 0; ch < 256; ch++) if (p.second.get(ch)) e[{i, p.first, (int)ch}]++; for (int t : m.s[i].eps) e[{i, t, 256}]++; }
		if (x != 1 || e != w.seen) bad("walk_edges", fmt("returned %d, %zu edges of %zu", x, w.seen.size(), e.size())); c.eval(); c.count("edges-walked", w.calls); long total = w.calls;
		if (total > 0) { W v; long stop = (long)r.below(total); v.left = stop; int y = fsm_walk_edges(f, &v, w_lit, w_eps); if (y != 0 || v.calls != stop + 1) bad("walk_edges:stop", fmt("returned %d after %ld calls, asked to stop at %ld of %ld", y, v.calls, stop + 1, total)); } }
	if (n > 0) { W v; long stop = (long)r.below(n); v.left = stop; int y = fsm_walk_states(f, &v, w_state); if (y != 0 || v.calls != stop + 1) bad("walk_states:stop", fmt("returned %d after %ld", y, v.calls)); }
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); GenOpt g; g.dfa = r.chance(25); g.eps = !g.dfa && r.chance(80); g.maxn = r.chance(70) ? r.range(2, 12) : r.range(12, 50); g.edgemax = r.range(1, 5);
	Auto a = r.chance(15) ? big_auto(r, g, r.range(10, 200)) : random_auto(r, g);
	// near-misses: complete but for one symbol, one extra transition on a symbol already used
	if (a.n() && r.chance(50)) for (int k = r.range(1, 4); k > 0; k--) { int i = r.below(a.n()); int how = r.below(5); auto &e = a.s[i].e;
		if (how == 0) { e.clear(); int parts = r.range(1, 4); Sym left = Sym::all(); for (int p = 0; p < parts - 1; p++) { Sym y = random_sym(r, r.chance(50) ? 3 : 6) & left; a.edge(i, r.below(a.n()), y); left = left & ~y; } a.edge(i, r.below(a.n()), left); }
		else if (how == 1) { e.clear(); unsigned x = r.chance(50) ? r.below(256) : (unsigned)(r.below(4) * 64 + (r.chance(50) ? 63 : 0)); a.edge(i, r.below(a.n()), ~Sym::one(x)); if (r.chance(40)) a.edge(i, r.below(a.n()), x); }
		else if (how == 2 && !e.empty()) a.edge(i, r.below(a.n()), e[r.below(e.size())].second.first());
		else if (how == 3) { e.clear(); if (g.eps && r.chance(50)) a.eps(i, r.below(a.n())); }
		else if (how == 4) { a.edge(i, i, random_sym(r, r.below(8))); } }
	struct fsm *f = build(a, NULL, &r);
	check(c, r, f, a, "as built");
	// the same after edits that leave traces in the representation
	int k = r.below(4);
	for (int i = 0; i < k; i++) {
		const char *how = ""; unsigned n = fsm_countstates(f); if (!n) break; fsm_state_t st; bool hs = fsm_getstart(f, &st);
		switch (r.below(7)) {
		case 0: fsm_removestate(f, r.below(n)); how = "after removestate"; break;
		case 1: if (n > 1) { unsigned x = r.below(n), y = (x + 1 + r.below(n - 1)) % n; fsm_mergestates(f, x, y, NULL); } how = "after mergestates"; break;
		case 2: fsm_trim(f, r.chance(50) ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, NULL); how = "after trim"; break;
		case 3: if (n < 30) fsm_remove_epsilons(f); how = "after remove_epsilons"; break;
		case 4: if (hs && n < 20) { Auto s = snapshot(f); Dfa d; if (model_dfa(s, 0, d, 300)) fsm_determinise(f); } how = "after determinise"; break;
		case 5: if (hs && n < 60) { Auto s = snapshot(f); Dfa d; if (model_dfa(s, 0, d, 300)) fsm_complete(f, r.chance(50) ? fsm_isany : fsm_isend); } how = "after complete"; break;
		default: fsm_shuffle(f, r.next()); how = "after shuffle"; }
		Auto s = snapshot(f); c.count(how); check(c, r, f, s, how);
	}
	if (a.n() >= 2 && a.nedges()) { c.nontrivial(a.hash()); c.sample(a.text(600)); }
	fsm_free(f);
}
