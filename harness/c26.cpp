// C26: capture positions reported by fsm_exec() after combination, determinisation, minimisation, cloning and trimming.
#define VF_MAIN
#include "common.hpp"
extern "C" {
#include <fsm/capture.h>
}
const char *harness_name = "c26";
// a deterministic automaton without cycles but for self-edges; each run meets a state at most once, but for those edges
struct Cap { int s, e; unsigned id; };
struct El { int n = 0; vector<std::map<unsigned char, int>> t; vector<char> end; vector<Cap> cap; unsigned ncap = 0; u32 eid = 0; string word; };
typedef vector<El> Alt; // the alternatives of one union
static El word_el(const string &w) { El x; x.n = w.size() + 1; x.t.resize(x.n); x.end.assign(x.n, 0); x.end[w.size()] = 1; for (size_t i = 0; i < w.size(); i++) x.t[i][(unsigned char)w[i]] = i + 1; x.word = w; return x; }
static El graph_el(Rng &r, const string &sigma, bool loops) {
	El x; x.n = r.range(2, 8); x.t.resize(x.n); x.end.assign(x.n, 0); x.end[x.n - 1] = 1;
	for (int i = 0; i < x.n; i++) { if (i + 1 < x.n) { int k = r.range(1, 4); for (int j = 0; j < k; j++) x.t[i][sigma[r.below(sigma.size())]] = r.chance(60) ? i + 1 : r.range(i + 1, x.n - 1); } if (loops && r.chance(15)) x.t[i][sigma[r.below(sigma.size())]] = i; if (r.chance(20)) x.end[i] = 1; }
	if (r.chance(15)) for (int c = 0; c < 256; c++) x.t[0][c] = r.range(0, 3) ? 1 : x.n - 1;
	return x;
}
static bool reaches(const El &x, int a, int b) { vector<char> v(x.n); vector<int> q{a}; v[a] = 1; while (!q.empty()) { int p = q.back(); q.pop_back(); if (p == b) return true; for (auto &k : x.t[p]) if (!v[k.second]) v[k.second] = 1, q.push_back(k.second); } return false; }
static bool self(const El &x, int s) { for (auto &k : x.t[s]) if (k.second == s) return true; return false; }
static void captures(Rng &r, El &x) {
	int k = r.weighted({10, 35, 25, 20, 10}); unsigned id = 0; for (int i = 0; i < k; i++) {
		int s = r.below(x.n), e = r.below(x.n); if (s > e && r.chance(85)) std::swap(s, e); if (r.chance(15)) s = 0; if (r.chance(15)) e = x.n - 1; if (r.chance(8)) e = s;
		if (self(x, s) || self(x, e)) continue; if (r.chance(12)) id += r.range(1, 3); x.cap.push_back({s, e, id++}); }
	x.ncap = 0; for (auto &c : x.cap) x.ncap = std::max(x.ncap, c.id + 1);
}
// states visited reading w from offset o: (state, offset), as far as it goes
static vector<std::pair<int, size_t>> run(const El &x, const string &w, size_t o) { vector<std::pair<int, size_t>> v{{0, o}}; int p = 0; for (size_t i = o; i < w.size(); i++) { auto it = x.t[p].find((unsigned char)w[i]); if (it == x.t[p].end()) break; p = it->second; v.push_back({p, i + 1}); } return v; }
static bool live(const El &x, const Cap &c) { if (!reaches(x, 0, c.s) || !reaches(x, c.s, c.e)) return false; for (int i = 0; i < x.n; i++) if (x.end[i] && reaches(x, c.e, i)) return true; return false; }
static const size_t NO = FSM_CAPTURE_NO_POS;
// what a run tells about a capture: 0 nothing, 1 its start is left in the direction of its end, 2 all of it
static int touched(const El &x, const Cap &c, const vector<std::pair<int, size_t>> &v, size_t limit, size_t &a, size_t &b) {
	a = b = NO; if (!reaches(x, c.s, c.e)) return 0; int k = 0; for (size_t i = 0; i < v.size() && v[i].second <= limit; i++) { if (c.s == c.e) { if (v[i].first == c.s) { a = b = v[i].second; return 2; } continue; }
		if (v[i].first == c.s && i + 1 < v.size() && v[i + 1].second <= limit && reaches(x, v[i + 1].first, c.e)) a = v[i].second, k = 1; if (v[i].first == c.e && k == 1) { b = v[i].second; return 2; } }
	return k;
}
struct fsm *make(Rng &r, const El &x, string &why, string *log) {
	struct fsm *f = r.chance(70) ? fsm_new(NULL) : fsm_new_statealloc(NULL, r.range(1, 40)); int junk = r.chance(40) ? r.range(1, 6) : 0, n = x.n + junk; if (r.chance(50)) fsm_addstate_bulk(f, n); else for (int i = 0; i < n; i++) { fsm_state_t s; fsm_addstate(f, &s); }
	vector<int> m(n); for (int i = 0; i < n; i++) m[i] = i; if (r.chance(70)) for (int i = n - 1; i > 0; i--) std::swap(m[i], m[r.below(i + 1)]);
	for (int i = 0; i < x.n; i++) { for (auto &k : x.t[i]) fsm_addedge_literal(f, m[i], m[k.second], k.first); fsm_setend(f, m[i], x.end[i]); }
	for (int i = x.n; i < n; i++) { fsm_addedge_literal(f, m[i], m[r.below(n)], r.range('a', 'c')); } // never reached
	fsm_setstart(f, m[0]); fsm_setendid(f, x.eid);
	for (auto &c : x.cap) for (int k = r.chance(15) ? 2 : 1; k-- > 0;) if (!fsm_capture_set_path(f, c.id, m[c.s], m[c.e])) { why = "fsm_capture_set_path failed"; return f; }
	if (fsm_countcaptures(f) != x.ncap && x.ncap && reaches(x, x.cap.back().s, x.cap.back().e)) why = fmt("%u captures counted, %u set", fsm_countcaptures(f), x.ncap);
	if (log) { *log += fmt("[%d states", n); for (int i = 0; i < x.n; i++) { std::map<int, string> g; for (auto &k : x.t[i]) g[k.second] += k.first; for (auto &k : g) *log += fmt(" %d-%s>%d", i, esc(k.second.size() > 6 ? k.second.substr(0, 6) : k.second).c_str(), k.first); if (x.end[i]) *log += fmt(" (%d)", i); } for (auto &c : x.cap) *log += fmt(" capture %u:%d..%d", c.id, c.s, c.e); *log += "]"; }
	return f;
}
static bool change(Ctx &c, Rng &r, struct fsm *&f, bool dfa, string &log) { // an operation that must not matter
	int k = r.weighted({20, 20, dfa ? 30 : 0, 20}); int rc = 1; c.count(k == 0 ? "op:clone" : k == 1 ? "op:trim" : k == 2 ? "op:minimise" : "op:determinise");
	if (k == 0) { struct fsm *g = fsm_clone(f); fsm_free(f); f = g; log += " clone"; rc = g != NULL; } else if (k == 1) { log += " trim"; rc = fsm_trim(f, r.chance(50) ? FSM_TRIM_START_REACHABLE : FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0; } else if (k == 2) { log += " minimise"; rc = fsm_minimise(f); } else { log += " determinise"; rc = fsm_determinise(f); }
	return rc;
}
void run_case(Ctx &c, u64 idx) {
	bool told = false; // of a finding, in this case
	for (int round = 0; round < 15; round++) {
		Rng r(mix(mix(c.seed, idx), round)); string sigma; int sk = r.below(4); if (sk == 0) sigma = "ab"; else if (sk == 1) sigma = "abc"; else if (sk == 2) sigma = "abcdefgh"; else { int n = r.range(2, 5); for (int i = 0; i < n; i++) sigma += (char)r.below(256); }
		int parts = r.weighted({0, 60, 30, 10}); vector<Alt> P(parts); string desc; u32 eid = 0; string stem; { int n = r.below(6); for (int i = 0; i < n; i++) stem += sigma[r.below(sigma.size())]; }
		for (auto &p : P) { int n = r.weighted({0, 30, 25, 20, 10, 10, 5}); if (parts == 1 && n > 1 && r.chance(10)) n = r.range(6, 14); for (int i = 0; i < n; i++) {
				if (r.chance(30)) { El x; bool some; do { x = graph_el(r, sigma, parts == 1); some = false; for (int q = 0; q < x.n; q++) if (x.end[q] && reaches(x, 0, q)) some = true; } while (!some); p.push_back(x); } else { string w; int n2 = r.chance(8) ? r.range(20, 60) : r.weighted({5, 10, 15, 20, 15, 10, 10, 5}); for (int j = 0; j < n2; j++) w += sigma[r.below(sigma.size())]; int k = r.below(4); if (k == 0) w = stem + w; if (k == 1) w += stem; if (k == 2 && !p.empty() && p[0].word.size()) { w = p[0].word; if (r.chance(70)) w[r.below(w.size())] = sigma[r.below(sigma.size())]; } p.push_back(word_el(w)); }
				captures(r, p.back()); p.back().eid = eid++; } }
		string why; struct fsm *res = NULL; vector<vector<unsigned>> base(parts); bool ok = true; unsigned total = 0;
		for (int i = 0; i < parts && ok; i++) {
			vector<struct fsm *> v; for (auto &x : P[i]) { struct fsm *f = make(r, x, why, &desc); v.push_back(f); if (r.chance(25)) ok = ok && change(c, r, v.back(), true, desc); }
			if (!why.empty() || !ok) { c.violation("build", desc + " " + why); return; }
			struct fsm *u; base[i].resize(v.size());
			if (v.size() == 1) { u = v[0]; base[i][0] = 0; }
			else if (r.chance(60)) { vector<struct fsm_combined_base_pair> b(v.size()); u = fsm_union_array(v.size(), v.data(), b.data()); desc += " union_array"; for (size_t k = 0; k < v.size(); k++) base[i][k] = b[k].capture; c.count("op:union_array"); }
			else { u = v[0]; base[i][0] = 0; for (size_t k = 1; k < v.size(); k++) { struct fsm_combine_info ci; u = fsm_union(u, v[k], &ci); if (!u) break; for (size_t q = 0; q < k; q++) base[i][q] += ci.capture_base_a; base[i][k] = ci.capture_base_b; if (r.chance(15)) ok = ok && fsm_determinise(u); } desc += " union"; c.count("op:union"); }
			if (!u) { c.violation("union", desc); return; }
			if (r.chance(25)) ok = ok && change(c, r, u, false, desc);
			if (i == 0) res = u; else { struct fsm_combine_info ci; res = fsm_concat(res, u, &ci); desc += " concat"; c.count("op:concat"); if (!res) { c.violation("concat", desc); return; } for (int q = 0; q < i; q++) for (auto &b : base[q]) b += ci.capture_base_a; for (auto &b : base[i]) b += ci.capture_base_b; }
		}
		if (ok) ok = fsm_determinise(res); desc += " determinise"; int k = r.below(4); while (ok && k-- > 0 && fsm_countstates(res) < 150) ok = change(c, r, res, true, desc);
		if (!ok) { c.violation("failed", desc); if (res) fsm_free(res); return; }
		if (c.replay) fprintf(stderr, "%s\n", desc.c_str());
		for (int i = 0; i < parts; i++) for (size_t j = 0; j < P[i].size(); j++) if (P[i][j].ncap) total = std::max(total, base[i][j] + P[i][j].ncap);
		unsigned count = fsm_countcaptures(res); c.eval(); bool any = false; for (auto &p : P) for (auto &x : p) for (auto &q : x.cap) if (live(x, q)) any = true;
		if (count > 10000 || total > 10000) { c.violation("count", desc + fmt(": %u captures, at most %u expected", count, total)); goto next; }
		// ids must not be shared
		{ std::map<unsigned, int> use; for (int i = 0; i < parts; i++) for (size_t j = 0; j < P[i].size(); j++) for (auto &q : P[i][j].cap) if (use[base[i][j] + q.id]++) { bool dead = false; for (int a = 0; a < parts; a++) for (auto &x : P[a]) for (auto &y : x.cap) if (!live(x, y)) dead = true; if (!dead) c.violation("ids", desc + fmt(" gives id %u twice", base[i][j] + q.id)); goto next; } }
		{ fsm_state_t st; if (!fsm_getstart(res, &st)) { c.count("empty"); goto next; } }
		for (int t = 0; t < 10; t++) {
			string w; for (auto &p : P) { const El &x = r.pick(p); int s = 0; for (int g = 0; g < 80; g++) { if (x.t[s].empty() || (x.end[s] && r.chance(25))) break; auto it = x.t[s].begin(); std::advance(it, r.below(x.t[s].size())); w += (char)it->first; s = it->second; } } if (r.chance(15) && !w.empty()) w[r.below(w.size())] = sigma[r.below(sigma.size())]; if (r.chance(5)) w += sigma[r.below(sigma.size())];
			// threads: (part, alternative, offset), and the accepting ones with where they end
			vector<std::set<size_t>> at(parts + 1), fin(parts + 1); at[0].insert(0); for (int i = 0; i < parts; i++) for (size_t o : at[i]) for (auto &x : P[i]) for (auto &v : run(x, w, o)) if (x.end[v.first]) at[i + 1].insert(v.second);
			fin[parts].insert(w.size()); for (int i = parts; i-- > 0;) for (size_t o : at[i]) for (auto &x : P[i]) for (auto &v : run(x, w, o)) if (x.end[v.first] && fin[i + 1].count(v.second)) fin[i].insert(o);
			bool want = fin[0].count(0); StrSrc s{&w, 0}; fsm_state_t e = 0; unsigned cap = std::max(count, total) + 4; vector<struct fsm_capture> got(cap); for (auto &g : got) g.pos[0] = g.pos[1] = 0x5a5a5a; int rc = fsm_exec(res, str_getc, &s, &e, got.data()); c.eval();
			string d2 = desc + " on " + esc(w); if (rc != (int)want) { c.violation("accepts", d2 + fmt(": %d, expected %d", rc, want)); break; }
			for (unsigned g = count; g < cap; g++) if (got[g].pos[0] != 0x5a5a5a || got[g].pos[1] != 0x5a5a5a) { c.violation("beyond", d2 + fmt(": capture %u of %u is written", g, count)); break; }
			{ StrSrc s2{&w, 0}; fsm_state_t e2; if (fsm_exec(res, str_getc, &s2, &e2, NULL) != rc) c.violation("without", d2); }
			if (!rc) { c.count("not matched"); continue; } c.nontrivial(mix(hash_str(desc), hash_str(w)));
			for (int i = 0; i < parts; i++) for (size_t j = 0; j < P[i].size(); j++) { const El &x = P[i][j]; for (auto &q : x.cap) {
					unsigned id = base[i][j] + q.id; std::set<std::pair<size_t, size_t>> exp, strays; bool stray = false, partial = false; int accepting = 0;
					for (size_t o : at[i]) { auto v = run(x, w, o); size_t a, b; int full = touched(x, q, v, (size_t)-1, a, b); if (full == 0 && at[i].size() > 1) for (auto &y : v) if (y.first == q.s || y.first == q.e) full = 1; vector<size_t> cuts; if (fin[i].count(o)) for (auto &y : v) if (x.end[y.first] && fin[i + 1].count(y.second)) cuts.push_back(y.second);
						if (cuts.empty()) { if (full == 2) stray = true, strays.insert({a, b}); else if (full == 1) partial = true; continue; }
						for (size_t cut : cuts) { accepting++; size_t a2, b2; int k2 = touched(x, q, v, cut, a2, b2); if (k2 == 2) exp.insert({a2, b2}); else exp.insert({NO, NO}); if (k2 != full) { if (full == 2) stray = true; else partial = true; } } }
					if (!accepting) exp.insert({NO, NO});
					std::pair<size_t, size_t> g = id < count ? std::make_pair(got[id].pos[0], got[id].pos[1]) : std::make_pair(NO, NO); bool right = exp.count(g); if (exp.size() > 1) { c.count("ambiguous"); }
					if (right) { c.count(g.first == NO ? "capture:none" : stray || partial ? "capture:position despite others" : "capture:position"); continue; }
					auto show = [](const std::pair<size_t, size_t> &p) { return p.first == NO && p.second == NO ? string("none") : fmt("%zd..%zd", (ssize_t)p.first, (ssize_t)p.second); };
					string d3 = d2 + fmt(": capture %u of alternative %zu of part %d (id %u): %s, expected %s", q.id, j, i, id, show(g).c_str(), show(*exp.begin()).c_str());
					if (!accepting && stray && (parts > 1 || strays.count(g))) { if (!told) c.violation("prefix", d3); told = true; c.count("capture:prefix finding"); } else if (exp.size() > 1 || stray || (partial && (accepting || parts > 1))) { if (!told) c.violation("overlap", d3); told = true; c.count("capture:overlap finding"); } else c.violation("position", d3);
				} }
			if (any) c.sample(d2);
		}
next:		fsm_free(res);
	}
}
