#define VF_MAIN
#include "common.hpp"
extern "C" {
#include <fsm/cost.h>
#include <adt/path.h>
}
const char *harness_name = "c13";
// ---- shortest paths
static int g_cost; static u64 g_salt;
static unsigned cost_fn(fsm_state_t a, fsm_state_t b, char ch) {
	switch (g_cost) { case 0: return fsm_cost_legible(a, b, ch); case 1: return 1; case 2: return (unsigned)(mix(mix(a, b) ^ g_salt, (unsigned char)ch) % 7); case 3: return (unsigned)(mix(mix(a, b) ^ g_salt, (unsigned char)ch) % 1000000); 
	case 4: { u64 h = mix(mix(a, b) ^ g_salt, (unsigned char)ch); return h % 3 == 0 ? FSM_COST_INFINITY : (unsigned)(h >> 8) % 50; } default: return (unsigned char)ch; }
}
static const u64 INF = ~0ull;
static vector<u64> dijkstra(const Auto &a, int from) {
	vector<u64> d(a.n(), INF); std::set<std::pair<u64, int>> q; d[from] = 0; q.insert({0, from});
	while (!q.empty()) { auto [x, u] = *q.begin(); q.erase(q.begin()); for (auto &p : a.s[u].e) { u64 best = INF; for (unsigned ch = 0; ch < 256; ch++) if (p.second.get(ch)) { unsigned k = cost_fn(u, p.first, (char)ch); if (k != FSM_COST_INFINITY) best = std::min<u64>(best, k); } if (best == INF) continue; if (x + best < d[p.first]) { q.erase({d[p.first], p.first}); d[p.first] = x + best; q.insert({x + best, p.first}); } } }
	return d;
}
static bool has_edge(const Auto &a, int x, int y, unsigned ch) { for (auto &p : a.s[x].e) if (p.first == y && p.second.get(ch)) return true; return false; }
static void shortest(Ctx &c, Rng &r, const Auto &a, struct fsm *f, const struct fsm_alloc *al) {
	int n = a.n(); auto bad = [&](const string &k, const string &why) { c.violation(k, fmt("%s: %s\n%s", k.c_str(), why.c_str(), a.text().c_str())); };
	for (int rep = 0; rep < 3; rep++) {
		g_cost = r.below(6); g_salt = r.next(); int from = a.start >= 0 && r.chance(50) ? a.start : (int)r.below(n); vector<u64> d = dijkstra(a, from);
		for (int k = 0; k < std::min(n, 10); k++) {
			int goal = n <= 10 ? k : (int)r.below(n); struct path *p = fsm_shortest(f, from, goal, cost_fn); c.eval(); c.count("shortest");
			if (!p) { bad("shortest:null", fmt("from %d to %d", from, goal)); continue; }
			string tr; u64 sum = 0; bool ok = true, hasgoal = false; int last = -1;
			for (struct path *q = p; q; q = q->next) { tr += fmt("%d ", (int)q->state); if ((int)q->state == goal) hasgoal = true; if (last < 0) { if ((int)q->state != from && d[goal] != INF) ok = false; } else { if (!has_edge(a, last, q->state, (unsigned char)q->c)) ok = false; sum += cost_fn(last, q->state, q->c); } last = q->state; }
			if (d[goal] == INF) { c.count("shortest-unreachable"); if (hasgoal) bad("shortest:unreachable", fmt("goal %d is not reachable from %d, but the path contains it", goal, from)); }
			else { if (!hasgoal || last != goal) bad("shortest:missed", fmt("goal %d is reachable from %d at cost %llu, path %s", goal, from, (unsigned long long)d[goal], tr.c_str())); else if (!ok) bad("shortest:path", fmt("from %d to %d: not a path: %s", from, goal, tr.c_str())); else if (sum != d[goal]) bad("shortest:cost", fmt("from %d to %d: cost %llu, the least is %llu; path %s (cost function %d)", from, goal, (unsigned long long)sum, (unsigned long long)d[goal], tr.c_str(), g_cost)); }
			path_free(al, p);
		}
	}
}
// ---- examples
static void example(Ctx &c, Rng &r, const Auto &a, struct fsm *f) {
	int n = a.n(); auto bad = [&](const string &k, const string &why) { c.violation(k, fmt("%s: %s\n%s", k.c_str(), why.c_str(), a.text().c_str())); };
	g_cost = 0; if (a.start < 0) { char b[8]; if (n && fsm_example(f, 0, b, sizeof b) != -1) bad("example:nostart", "succeeded"); return; }
	vector<u64> d = dijkstra(a, a.start); char buf[2048];
	for (int k = 0; k < std::min(n, 12); k++) {
		int goal = n <= 12 ? k : (int)r.below(n); memset(buf, 'Z', sizeof buf); int len = fsm_example(f, goal, buf, sizeof buf); c.eval(); c.count("example");
		if (len < 0) { bad("example:error", fmt("goal %d", goal)); continue; }
		if (d[goal] == INF) { if (len != 0 || buf[0]) bad("example:unreachable", fmt("goal %d: %s", goal, buf)); continue; }
		if (len >= (int)sizeof buf - 4) continue;
		if ((int)strlen(buf) != len) { bad("example:length", fmt("goal %d: returned %d for %s", goal, len, esc(buf).c_str())); continue; }
		// unescape in every way the ambiguous notation allows: walk the machine over the text
		std::set<std::pair<int, int>> cur{{0, a.start}}, seen = cur; bool hit = false; u64 best = INF; std::map<std::pair<int, int>, u64> cost; cost[{0, a.start}] = 0;
		std::deque<std::pair<int, int>> q{{0, a.start}};
		while (!q.empty()) { auto [i, s] = q.front(); q.pop_front(); u64 k0 = cost[{i, s}]; if (i == len) { if (s == goal) { hit = true; best = std::min(best, k0); } continue; }
			auto take = [&](unsigned ch, int adv) { for (auto &p : a.s[s].e) if (p.second.get(ch)) { u64 nk = k0 + cost_fn(s, p.first, (char)ch); auto key = std::make_pair(i + adv, p.first); auto it = cost.find(key); if (it == cost.end() || nk < it->second) { cost[key] = nk; q.push_back(key); } } };
			if (isprint((unsigned char)buf[i])) take((unsigned char)buf[i], 1);
			if (buf[i] == '\\' && i + 3 < len && buf[i + 1] == 'x') { unsigned v = 0; if (sscanf(string(buf + i + 2, 2).c_str(), "%x", &v) == 1 && !isprint((int)v)) take(v, 4); } }
		if (!hit) bad("example:wrong", fmt("goal %d: %s does not lead there", goal, esc(buf).c_str())); else if (best != d[goal]) bad("example:cost", fmt("goal %d: %s costs %llu, the most legible costs %llu", goal, esc(buf).c_str(), (unsigned long long)best, (unsigned long long)d[goal]));
		// short buffers must not overflow and must report the same length
		if (r.chance(30)) { int z = r.below(len + 6); char *b = (char *)malloc(z ? z : 1); memset(b, 'Z', z); int l2 = fsm_example(f, goal, b, z); if (l2 != len) bad("example:short", fmt("goal %d: length %d in %d bytes, %d in a large buffer", goal, l2, z, len)); if (z > 0 && !memchr(b, 0, z)) bad("example:unterminated", fmt("goal %d in %d bytes", goal, z)); free(b); }
	}
}
// ---- generation
struct Gen { Auto m; bool have = false; vector<string> got; vector<int> st; long halt = -1; u64 prune = 0; bool bad_count = false; size_t cap = 30000; bool capped = false; std::set<vector<int>> pruned; };
static enum fsm_generate_matches_cb_res gen_cb(const struct fsm *f, size_t, size_t, size_t, const char *in, size_t len, fsm_state_t e, void *o) {
	Gen *g = (Gen *)o; if (!g->have) { g->m = snapshot(f); g->have = true; }
	g->got.push_back(string(in, len)); g->st.push_back((int)e); if (in[len] != 0) g->bad_count = true;
	if (g->got.size() >= g->cap) { g->capped = true; return FSM_GENERATE_MATCHES_CB_RES_HALT; }
	if (g->halt >= 0 && (long)g->got.size() > g->halt) return FSM_GENERATE_MATCHES_CB_RES_HALT;
	if (g->prune && mix(e, g->prune) % 3 == 0) return FSM_GENERATE_MATCHES_CB_RES_PRUNE;
	return FSM_GENERATE_MATCHES_CB_RES_CONTINUE;
}
static void generate(Ctx &c, Rng &r, const Auto &a, struct fsm *f) {
	auto bad = [&](const string &k, const string &why) { c.violation(k, fmt("%s: %s\n%s", k.c_str(), why.c_str(), a.text().c_str())); };
	// the paths to expect, over live states only
	Auto l = live_part(a); size_t maxlen = r.range(1, 9); Gen g; if (r.chance(15)) g.halt = r.below(6); if (r.chance(25)) g.prune = r.next() | 1; bool rnd = r.chance(50); srand((unsigned)r.next());
	// choose a bound that keeps the number of paths moderate
	if (l.start >= 0) { vector<double> w(l.n(), 0); w[l.start] = 1; double tot = 1; size_t ok = 0; for (size_t k = 1; k <= maxlen; k++) { vector<double> z(l.n(), 0); for (int i = 0; i < l.n(); i++) if (w[i] > 0) for (auto &p : l.s[i].e) z[p.first] += w[i]; w = z; for (double x : w) tot += x; if (tot > 4000) break; ok = k; } if (ok < 1) ok = 1; maxlen = std::min(maxlen, ok); }
	int res = fsm_generate_matches(f, maxlen, rnd, gen_cb, &g); c.eval(); c.count("generate"); c.count("generated-strings", g.got.size());
	Auto t = snapshot(f);
	if (a.start < 0) { bool anyend = false; for (auto &s : a.s) anyend |= s.end; if (anyend && res != 0 && !g.got.empty()) bad("gen:nostart", "generated"); return; }
	if (res != 1) return bad("gen:result", fmt("returned %d", res));
	if (g.bad_count) bad("gen:terminator", "input not terminated at its length");
	if (g.capped) return;
	// every string: accepted, in bound, ends where reported; and its state path, in the numbering of the trimmed machine
	std::map<vector<int>, int> seen;
	for (size_t i = 0; i < g.got.size(); i++) { const string &s = g.got[i]; if (s.size() > maxlen) return bad("gen:bound", fmt("%s is longer than %zu", esc(s).c_str(), maxlen)); vector<int> path{t.start}; int q = t.start; for (unsigned char ch : s) { int nx = -1; if (q >= 0) for (auto &p : t.s[q].e) if (p.second.get(ch)) nx = p.first; q = nx; path.push_back(q); if (q < 0) break; }
		if (q < 0 || !t.s[q].end || !model_run(a, s).end) return bad("gen:accepted", fmt("%s is not accepted", esc(s).c_str())); if (q != g.st[i]) return bad("gen:state", fmt("%s ends in %d, reported %d", esc(s).c_str(), q, g.st[i])); seen[path]++; }
	c.eval(g.got.size());
	// expected paths over the trimmed machine (itself checked to be the live part of the original)
	{ string w; Auto lt = t; if (same_behaviour(a, lt, OUT_END, &w, 4000) == 0) return bad("gen:trim", "the machine's language changed at " + esc(w)); }
	std::map<vector<int>, int> want; vector<int> path; bool over = false;
	std::function<void(int)> go = [&](int q) { if (want.size() > 25000) { over = true; return; } path.push_back(q); bool cut = false; if (t.s[q].end) { want[path]++; if (g.prune && mix(q, g.prune) % 3 == 0) cut = true; } if (!cut && path.size() <= maxlen) for (auto &p : t.s[q].e) go(p.first); path.pop_back(); };
	if (t.start >= 0) go(t.start); if (over) return;
	if (g.halt >= 0) { if ((size_t)g.got.size() != std::min<size_t>(want.size(), g.halt + 1)) bad("gen:halt", fmt("%zu strings, asked to halt after %ld of %zu", g.got.size(), g.halt + 1, want.size())); for (auto &p : seen) if (!want.count(p.first)) bad("gen:extra", "unexpected path"); return; }
	for (auto &p : want) if (!seen.count(p.first)) { string s; for (int x : p.first) s += fmt("%d ", x); return bad("gen:missed", fmt("the path %swithin %zu symbols has no string (%zu of %zu generated)", s.c_str(), maxlen, seen.size(), want.size())); }
	for (auto &p : seen) if (!want.count(p.first)) return bad("gen:extra", "unexpected path"); else if (p.second != 1) return bad("gen:repeat", fmt("a path is generated %d times", p.second));
	c.count("generated-paths", want.size());
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); CountAlloc ca; bool custom = r.chance(50); const struct fsm_alloc *al = custom ? &ca.fa : NULL;
	GenOpt g; g.eps = false; g.dfa = r.chance(50); g.maxn = r.chance(80) ? r.range(2, 9) : r.range(9, 40); g.edgemax = r.range(1, 3);
	Auto a = r.chance(15) ? big_auto(r, g, r.range(10, 120)) : random_auto(r, g); if (a.n() == 0) return; if (!no_eps(a)) return;
	// labels that make choices matter
	if (r.chance(40)) for (int k = r.range(1, 3); k > 0; k--) { int i = r.below(a.n()); if (!a.s[i].e.empty()) { auto &p = a.s[i].e[r.below(a.s[i].e.size())]; Sym used; for (auto &q : a.s[i].e) used = used | q.second; Sym y = random_sym(r, 6) & ~used; p.second = p.second | y; } }
	{ struct fsm *f = build(a, al, &r); shortest(c, r, a, f, al); example(c, r, a, f); Auto s = snapshot(f); fsm_free(f); (void)s; }
	Auto d = a; if (!is_dfa(d)) { for (auto &s : d.s) { Sym used; for (auto &p : s.e) { p.second = p.second & ~used; used = used | p.second; } s.e.erase(std::remove_if(s.e.begin(), s.e.end(), [](const std::pair<int, Sym> &p) { return !p.second.any(); }), s.e.end()); } }
	if (r.chance(15)) { int t = d.add(); if (d.start >= 0 && d.s[d.start].e.empty()) d.edge(d.start, t, 'a'); }
	if (r.chance(30)) d = permute(r, d);
	if (d.start >= 0) { struct fsm *f = build(d, al, &r); generate(c, r, d, f); fsm_free(f); }
	if (custom && (!ca.live.empty() || ca.foreign)) c.violation("alloc", fmt("%zu blocks left, foreign %d\n%s", ca.live.size(), (int)ca.foreign, a.text().c_str()));
	if (a.n() >= 2 && a.nedges()) { c.nontrivial(a.hash()); c.sample(a.text(600)); }
}
