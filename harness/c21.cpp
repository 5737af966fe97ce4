#define VF_MAIN
#include "common.hpp"
extern "C" {
#include <fsm/subgraph.h>
}
const char *harness_name = "c21";
static const u32 TAG = 0x40000000u;
static void norm(Auto &a) { for (auto &s : a.s) { std::sort(s.e.begin(), s.e.end()); std::sort(s.eps.begin(), s.eps.end()); std::sort(s.ids.begin(), s.ids.end()); std::sort(s.eager.begin(), s.eager.end()); } }
static string diff(const Auto &x, const Auto &y) { // both normalised; x expected
	if (x.n() != y.n()) return fmt("expected %d states, found %d", x.n(), y.n());
	if (x.start != y.start) return fmt("expected start %d, found %d", x.start, y.start);
	for (int i = 0; i < x.n(); i++) { auto &s = x.s[i], &t = y.s[i];
		if (s.end != t.end) return fmt("state %d: expected end=%d", i, (int)s.end);
		if (s.eps != t.eps) return fmt("state %d: epsilons differ", i);
		if (!(s.e == t.e)) return fmt("state %d: labelled edges differ", i);
		if (s.end && s.ids != t.ids) return fmt("state %d: end ids differ", i);
		if (s.eager != t.eager) return fmt("state %d: eager outputs differ", i); }
	return "";
}
// new state numbers by map (-1 = gone)
static Auto renumber(const Auto &a, const vector<int> &m, int n) {
	Auto b; b.s.resize(n); for (int i = 0; i < a.n(); i++) if (m[i] >= 0) { auto &d = b.s[m[i]]; d.end = a.s[i].end; d.ids = a.s[i].ids; d.eager = a.s[i].eager; for (int t : a.s[i].eps) if (m[t] >= 0) d.eps.push_back(m[t]); for (auto &p : a.s[i].e) if (m[p.first] >= 0) d.e.push_back({m[p.first], p.second}); }
	b.start = a.start >= 0 ? m[a.start] : -1; return b;
}
static vector<vector<int>> removals(int n, int x) { // the numberings a removal may leave behind
	vector<vector<int>> v; vector<int> sw(n), sh(n); for (int i = 0; i < n; i++) { sw[i] = i == x ? -1 : i == n - 1 ? x : i; sh[i] = i == x ? -1 : i > x ? i - 1 : i; } v.push_back(sw); v.push_back(sh); return v;
}
// renumbering by unique tags, when every state carries one
static bool by_tags(const Auto &model, const Auto &real, vector<int> *m, int *n) {
	std::map<u32, int> at; for (int i = 0; i < real.n(); i++) { int k = 0; for (u32 x : real.s[i].eager) if (x >= TAG && x < TAG + 1000000) { if (at.count(x)) return false; at[x] = i; k++; } if (!k) return false; }
	m->assign(model.n(), -1); for (int i = 0; i < model.n(); i++) for (u32 x : model.s[i].eager) if (x >= TAG && x < TAG + 1000000) { auto it = at.find(x); if (it != at.end()) (*m)[i] = it->second; }
	*n = real.n(); return true;
}
struct H {
	Ctx &c; Rng r; CountAlloc ca; bool custom, tagged, noeps; struct fsm *f; Auto m; u32 tags = 0; string log; bool stop = false;
	H(Ctx &c_, u64 s) : c(c_), r(s) { custom = r.chance(60); tagged = r.chance(45); noeps = r.chance(40); f = r.chance(50) ? fsm_new(custom ? &ca.fa : NULL) : fsm_new_statealloc(custom ? &ca.fa : NULL, r.below(20)); if (!f) abort(); }
	void bad(const char *op, const string &why, const Auto &exp, const Auto &got) { stop = true; c.violation(op, fmt("after %s: %s\nhistory: %s\nexpected %s\nfound %s", op, why.c_str(), log.size() > 1500 ? ("..." + log.substr(log.size() - 1500)).c_str() : log.c_str(), exp.text(1200).c_str(), got.text(1200).c_str())); }
	void note(const char *f_, ...) { char b[256]; va_list ap; va_start(ap, f_); vsnprintf(b, sizeof b, f_, ap); va_end(ap); log += b; log += "; "; }
	void tag(int i) { if (!tagged) return; u32 t = TAG + tags++; if (!fsm_eager_output_set(f, i, t)) abort(); m.s[i].eager.push_back(t); }
	void verify(const char *op) { if (stop) return; Auto s = snapshot(f); norm(s); norm(m); c.eval(); c.count(string("op:") + op); string d = diff(m, s); if (!d.empty()) return bad(op, d, m, s); 
		if (fsm_countedges(f) != m.nedges()) bad(op, "fsm_countedges", m, s); }
	// accept any of the candidate results, adopting the one that matches
	void verify_any(const char *op, vector<Auto> cand) { if (stop) return; Auto s = snapshot(f); norm(s); c.eval(); c.count(string("op:") + op); string d; for (auto &x : cand) { norm(x); string e = diff(x, s); if (e.empty()) { m = x; return; } if (d.empty()) d = e; } bad(op, d, cand[0], s); }
	void step();
	void finish() { if (f) fsm_free(f); f = nullptr; if (custom && !stop) { if (!ca.live.empty()) c.violation("leak", fmt("%zu blocks of the given allocator remain after fsm_free\nhistory: %s", ca.live.size(), log.c_str())); if (ca.foreign) c.violation("foreign-free", "memory freed that the given allocator had not handed out\nhistory: " + log); } }
};
void H::step() {
	int n = m.n(); int op = r.below(n ? 100 : 17); if (noeps && (op >= 34 && op < 46)) op = 14; if (noeps && op >= 92 && op < 94) op = 10; if (n && m.start < 0 && r.chance(15)) op = 56;
	if (op < 10) { fsm_state_t x; note("add"); if (!fsm_addstate(f, &x)) abort(); if ((int)x != n) return bad("addstate", fmt("new state numbered %u of %d", x, n), m, snapshot(f)); m.add(); tag(n); return verify("addstate"); }
	if (op < 14) { int k = r.below(r.chance(10) ? 200 : 9); note("bulk %d", k); if (!fsm_addstate_bulk(f, k)) abort(); for (int i = 0; i < k; i++) { m.add(); tag(n + i); } return verify("addstate_bulk"); }
	if (n == 0) { long t = fsm_trim(f, r.chance(50) ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, NULL); if (t != 0) return bad("trim", fmt("returned %ld for a machine without states", t), m, snapshot(f)); if (!fsm_shuffle(f, 3) || !fsm_vacuum(f)) abort(); return verify("nothing"); }
	int a = r.below(n), b = r.below(n);
	if (op < 34) { int k = r.range(1, 8); for (int i = 0; i < k; i++) { a = r.below(n); b = r.chance(30) && !m.s[a].e.empty() ? m.s[a].e[r.below(m.s[a].e.size())].first : (int)r.below(n); if (r.chance(6)) { note("any %d %d", a, b); if (!fsm_addedge_any(f, a, b)) abort(); m.edge(a, b, Sym::all()); } else { Sym y = random_sym(r, r.below(8)); if (y.size() > 24) { unsigned z = y.first(); y = Sym(); y.set(z); } for (unsigned ch = 0; ch < 256; ch++) if (y.get(ch)) { note("lit %d %d %02x", a, b, ch); if (!fsm_addedge_literal(f, a, b, (char)ch)) abort(); m.edge(a, b, ch); } } } return verify("addedge"); }
	if (op < 46) { int k = r.range(1, 6); for (int i = 0; i < k; i++) { a = r.below(n); b = r.below(n); note("eps %d %d", a, b); if (!fsm_addedge_epsilon(f, a, b)) abort(); m.eps(a, b); } return verify("addedge_epsilon"); }
	if (op < 56) { int k = r.range(1, 5); for (int i = 0; i < k; i++) { a = r.below(n); int e = r.chance(25) ? 0 : r.chance(80) ? 1 : r.chance(50) ? 2 : -1; bool was = m.s[a].end; note("end %d %d", a, e); fsm_setend(f, a, e); m.s[a].end = e != 0; if (was && !e && !m.s[a].ids.empty()) { if (fsm_isend(f, a)) return bad("setend", "still an end", m, snapshot(f)); fsm_setend(f, a, 1); m.s[a].end = true; was = false; e = 1; } if (!was && e) { Auto s = snapshot(f); std::sort(s.s[a].ids.begin(), s.s[a].ids.end()); std::sort(m.s[a].ids.begin(), m.s[a].ids.end()); if (s.s[a].ids.empty()) m.s[a].ids.clear(); } } return verify("setend"); }
	if (op < 60) { note("start %d", a); fsm_setstart(f, a); m.start = a; return verify("setstart"); }
	if (op < 66) { int mode = r.below(4); if (mode == 0) { u32 id = random_id(r); note("setendid %u", id); if (!fsm_setendid(f, id)) abort(); for (auto &s : m.s) if (s.end && !std::count(s.ids.begin(), s.ids.end(), id)) s.ids.push_back(id); } else { int k = r.chance(10) ? 40 : r.range(1, 4); for (int i = 0; i < k; i++) { a = r.below(n); if (!m.s[a].end) continue; u32 id = random_id(r); note("endid %d %u", a, id); if (!fsm_endid_set(f, a, id)) abort(); if (!std::count(m.s[a].ids.begin(), m.s[a].ids.end(), id)) m.s[a].ids.push_back(id); } } return verify("endid_set"); }
	if (op < 70) { if (r.chance(20)) { u32 id = random_id(r) & 0x3fffffff; note("eager-ends %u", id); if (!fsm_eager_output_set_on_ends(f, id)) abort(); for (auto &s : m.s) if (s.end && !std::count(s.eager.begin(), s.eager.end(), id)) s.eager.push_back(id); } else { int k = r.chance(10) ? 40 : r.range(1, 4); for (int i = 0; i < k; i++) { a = r.below(n); u32 id = random_id(r); if (id >= TAG && id < TAG + 1000000) id = 5; note("eager %d %u", a, id); if (!fsm_eager_output_set(f, a, id)) abort(); if (!std::count(m.s[a].eager.begin(), m.s[a].eager.end(), id)) m.s[a].eager.push_back(id); } } return verify("eager_output_set"); }
	if (op < 76) { if (r.chance(30)) a = n - 1; else if (m.start >= 0 && r.chance(25)) a = m.start; note("remove %d", a); if (!fsm_removestate(f, a)) abort(); vector<Auto> cand; for (auto &v : removals(n, a)) cand.push_back(renumber(m, v, n - 1)); return verify_any("removestate", cand); }
	if (op < 81 && n >= 2) { if (a == b) b = (a + 1) % n; if (r.chance(30)) { a = n - 1; b = r.below(n - 1); } fsm_state_t q = 0; note("merge %d %d", a, b); if (!fsm_mergestates(f, a, b, &q)) abort();
		Auto x = m; auto &A = x.s[a], &B = x.s[b]; for (int t : vector<int>(B.eps)) x.eps(a, t); for (auto &p : vector<std::pair<int, Sym>>(B.e)) x.edge(a, p.first, p.second); if (B.end) { A.end = true; } 
		if (m.s[a].end || m.s[b].end) { std::set<u32> z; if (m.s[a].end) z.insert(A.ids.begin(), A.ids.end()); if (m.s[b].end) z.insert(B.ids.begin(), B.ids.end()); A.ids.assign(z.begin(), z.end()); }
		{ std::set<u32> z(A.eager.begin(), A.eager.end()); z.insert(B.eager.begin(), B.eager.end()); A.eager.assign(z.begin(), z.end()); }
		for (int i = 0; i < n; i++) { auto e = x.s[i].e; for (auto &p : e) if (p.first == b) x.edge(i, a, p.second); if (std::count(x.s[i].eps.begin(), x.s[i].eps.end(), b)) x.eps(i, a); }
		if (x.start == b) x.start = a;
		vector<Auto> cand; vector<int> qs; for (auto &v : removals(n, b)) { cand.push_back(renumber(x, v, n - 1)); qs.push_back(v[a]); }
		// an epsilon of the merged state to itself carries nothing; the library may keep or drop it
		Auto got = snapshot(f); norm(got); int i = -1; c.eval(); c.count("op:mergestates");
		for (size_t k = 0; k < cand.size() && i < 0; k++) { int s = qs[k]; bool self = (int)q == s && s < got.n() && std::count(got.s[s].eps.begin(), got.s[s].eps.end(), s); auto &e = cand[k].s[s].eps; if (!self) e.erase(std::remove(e.begin(), e.end(), s), e.end()); else cand[k].eps(s, s); norm(cand[k]); if (diff(cand[k], got).empty() && (int)q == s) i = (int)k; }
		if (i < 0) { string d = diff(cand[0], got); if (d.empty()) d = fmt("merged state is %d, reported as %u", qs[0], q); return bad("mergestates", d, cand[0], got); }
		m = cand[i]; if (tagged) { // keep one tag per state
			tagged = false; }
		return; }
	if (op < 86) { struct fsm_subgraph g; int lo = r.below(n), hi = r.range(lo + 1, n); g.start = lo; g.end = hi; 
		if (r.chance(50)) { fsm_subgraph_start(f, &g); int k = r.range(1, 6); for (int i = 0; i < k; i++) { fsm_state_t x; if (!fsm_addstate(f, &x)) abort(); m.add(); tag(m.n() - 1); } fsm_subgraph_stop(f, &g); lo = n; hi = n + k; if ((int)g.start != lo || (int)g.end != hi) return bad("subgraph", "bounds", m, snapshot(f)); n = m.n(); for (int i = 0; i < 2 * k; i++) { int x = r.range(lo, hi - 1), y = r.chance(80) ? r.range(lo, hi - 1) : (int)r.below(n); if (!noeps && r.chance(30)) { if (!fsm_addedge_epsilon(f, x, y)) abort(); m.eps(x, y); } else { unsigned ch = r.below(256); if (!fsm_addedge_literal(f, x, y, (char)ch)) abort(); m.edge(x, y, ch); } } }
		fsm_state_t x = r.range(lo, hi - 1), x0 = x, q = 0; bool givex = r.chance(70); note("dup %d..%d", lo, hi); if (!fsm_subgraph_duplicate(f, &g, givex ? &x : NULL, &q)) return bad("subgraph_duplicate", "failed", m, snapshot(f));
		for (int i = lo; i < hi; i++) { Auto::St s; s.end = m.s[i].end; auto in = [&](int t) { return t >= lo && t < hi; }; for (int t : m.s[i].eps) if (in(t)) s.eps.push_back(t - lo + n); for (auto &p : m.s[i].e) if (in(p.first)) s.e.push_back({p.first - lo + n, p.second}); m.s.push_back(s); }
		if ((int)q != n || (givex && (int)x != (int)x0 - lo + n)) return bad("subgraph_duplicate", "start or tracked state", m, snapshot(f));
		{ Auto s = snapshot(f); for (int i = lo; i < hi; i++) { int d = i - lo + n; if (d < s.n()) { vector<u32> u = s.s[d].ids, o = m.s[i].ids; std::sort(u.begin(), u.end()); std::sort(o.begin(), o.end()); if (u == o) m.s[d].ids = u; u = s.s[d].eager; o = m.s[i].eager; std::sort(u.begin(), u.end()); std::sort(o.begin(), o.end()); if (u == o) m.s[d].eager = u; } } }
		if (tagged) for (int i = n; i < m.n(); i++) tag(i);
		return verify("subgraph_duplicate"); }
	if (op < 90) { note("clone"); struct fsm *g = fsm_clone(f); if (!g) abort(); Auto s = snapshot(g); norm(s); norm(m); c.count("op:clone"); string d = diff(m, s); if (!d.empty()) { fsm_free(g); return bad("clone", d, m, s); }
		// work on one of the two; the other must not notice
		if (r.chance(50)) std::swap(f, g); if (n) { fsm_addedge_literal(g, 0, 0, 'q'); fsm_addedge_epsilon(g, n - 1, 0); fsm_setend(g, 0, 1); fsm_endid_set(g, 0, 77); fsm_eager_output_set(g, 0, 78); fsm_setstart(g, 0); } fsm_state_t x; fsm_addstate(g, &x); verify("clone-independent"); fsm_free(g); return verify("clone"); }
	if (op < 92) { note("move"); struct fsm *g = fsm_new(custom ? &ca.fa : NULL); if (r.chance(50)) { fsm_state_t x; fsm_addstate(g, &x); fsm_setend(g, x, 1); fsm_endid_set(g, x, 1); fsm_eager_output_set(g, x, 1); fsm_addedge_any(g, x, x); } fsm_move(g, f); f = g; return verify("move"); }
	if (op < 94) { fsm_state_t q = 0; int cnt = 0, last = -1; for (int i = 0; i < n; i++) if (m.s[i].end) { cnt++; last = i; } note("collate"); int res = fsm_collate(f, &q, fsm_isend); if ((res == 1) != (cnt > 0)) return bad("collate", fmt("returned %d with %d ends", res, cnt), m, snapshot(f)); if (cnt == 1 && (int)q != last) return bad("collate", "wrong state", m, snapshot(f)); if (cnt > 1) { int t = m.add(); for (int i = 0; i < t; i++) if (m.s[i].end) m.eps(i, t); tag(t); if ((int)q != t) return bad("collate", "state", m, snapshot(f)); } return verify("collate"); }
	if (op < 97) { // trim
		bool ends = r.chance(60); vector<char> fw(n, 0), bw(n, 0); vector<int> st; vector<int> dist(n, -1);
		if (m.start >= 0) { fw[m.start] = 1; st.push_back(m.start); } while (!st.empty()) { int x = st.back(); st.pop_back(); auto go = [&](int t) { if (!fw[t]) { fw[t] = 1; st.push_back(t); } }; for (int t : m.s[x].eps) go(t); for (auto &p : m.s[x].e) go(p.first); }
		vector<vector<int>> rev(n); for (int i = 0; i < n; i++) { for (int t : m.s[i].eps) rev[t].push_back(i); for (auto &p : m.s[i].e) rev[p.first].push_back(i); }
		std::deque<int> dq; for (int i = 0; i < n; i++) if (m.s[i].end && fw[i]) { bw[i] = 1; dist[i] = 0; dq.push_back(i); } while (!dq.empty()) { int x = dq.front(); dq.pop_front(); for (int t : rev[x]) if (fw[t] && !bw[t]) { bw[t] = 1; dist[t] = dist[x] + 1; dq.push_back(t); } }
		vector<int> mp(n, -1); int k = 0; for (int i = 0; i < n; i++) if (fw[i] && (!ends || bw[i])) mp[i] = k++;
		unsigned *sed = NULL; bool want = r.chance(50); note("trim %d", ends); long res = fsm_trim(f, ends ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, want ? &sed : NULL);
		Auto got = snapshot(f); int kk = 0; vector<int> mt; if (tagged && by_tags(m, got, &mt, &kk)) { for (int i = 0; i < n; i++) if ((mt[i] < 0) != (mp[i] < 0)) { free(sed); return bad("trim", fmt("state %d %s", i, mp[i] < 0 ? "kept" : "removed"), m, got); } mp = mt; }
		if (want && ends && n && no_eps(m)) { if (!sed) return bad("trim", "no distances", m, got); for (int i = 0; i < n; i++) if (mp[i] >= 0 && sed[mp[i]] != (unsigned)dist[i]) { bad("trim", fmt("distance of state %d is %d, reported %u", mp[i], dist[i], sed[mp[i]]), m, got); break; } c.count("trim-distances", k); }
		if (sed) { if (custom) ca.fa.free(ca.fa.opaque, sed); else free(sed); }
		if (res != n - k) return bad("trim", fmt("returned %ld, %d states to remove", res, n - k), m, got);
		m = renumber(m, mp, k); return verify("trim"); }
	if (op < 99) { note("shuffle"); if (!fsm_shuffle(f, (unsigned)r.next())) abort(); Auto s = snapshot(f); norm(s); vector<int> mt; int k; c.count("op:shuffle");
		if (tagged) { if (!by_tags(m, s, &mt, &k) || k != n || std::count(mt.begin(), mt.end(), -1)) return bad("shuffle", "states lost", m, s); m = renumber(m, mt, k); return verify("shuffle"); }
		size_t ne = 0, ni = 0, mi = 0, en = 0, me = 0; for (auto &x : s.s) { ni += x.ids.size(); ne += x.eager.size(); en += x.end; } size_t mg = 0; for (auto &x : m.s) { if (x.end) mi += x.ids.size(); mg += x.eager.size(); me += x.end; }
		if (s.n() != n || s.nedges() != m.nedges() || s.neps() != m.neps() || ni != mi || ne != mg || en != me || (s.start >= 0) != (m.start >= 0)) return bad("shuffle", "counts differ", m, s);
		string w; int v = same_behaviour(m, s, OUT_END | OUT_IDS | OUT_EAGER, &w, 4000); if (v == 0) return bad("shuffle", "differs on " + esc(w), m, s); m = s; return; }
	note("vacuum"); if (!fsm_vacuum(f)) abort(); verify("vacuum");
}
// numbers of states past what 15 or 16 bits hold
static void huge(Ctx &c, u64 seed) {
	Rng r(seed); int n = r.range(33000, c.thorough() ? 140000 : 72000); vector<vector<std::pair<int, unsigned char>>> e(n); vector<char> end(n, 0); struct fsm *f = r.chance(50) ? fsm_new(NULL) : fsm_new_statealloc(NULL, n); if (!fsm_addstate_bulk(f, n)) abort();
	int far = r.range(1, 200); auto add = [&](int a, int b, unsigned char x) { for (auto &p : e[a]) if (p.first == b && p.second == x) return; e[a].push_back({b, x}); if (!fsm_addedge_literal(f, a, b, (char)x)) abort(); };
	for (int i = 0; i < n; i++) { if (r.chance(97)) add(i, (i + r.range(1, far)) % n, 'a' + r.below(3)); if (r.chance(30)) add(i, r.below(n), r.below(256)); if (r.below(100) == 0) { end[i] = 1; fsm_setend(f, i, 1); } }
	int start = r.below(n); fsm_setstart(f, start); bool ends = r.chance(70); vector<char> fw(n, 0), bw(n, 0); vector<int> st{start}; fw[start] = 1; while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto &p : e[x]) if (!fw[p.first]) fw[p.first] = 1, st.push_back(p.first); }
	vector<vector<int>> rev(n); for (int i = 0; i < n; i++) for (auto &p : e[i]) rev[p.first].push_back(i); vector<int> dist(n, -1); std::deque<int> dq; for (int i = 0; i < n; i++) if (end[i] && fw[i]) bw[i] = 1, dist[i] = 0, dq.push_back(i); while (!dq.empty()) { int x = dq.front(); dq.pop_front(); for (int t : rev[x]) if (fw[t] && !bw[t]) bw[t] = 1, dist[t] = dist[x] + 1, dq.push_back(t); }
	vector<int> at(n, -1); int k = 0; for (int i = 0; i < n; i++) if (fw[i] && (!ends || bw[i])) at[i] = k++;
	unsigned *sed = NULL; long res = fsm_trim(f, ends ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, ends ? &sed : NULL); string d = fmt("%d states, %d edges ahead, seed %llu: ", n, far, (unsigned long long)seed); c.eval(); c.count("op:huge-trim"); c.count("huge-states", n); c.nontrivial(mix(seed, n));
	if (res != n - k || (int)fsm_countstates(f) != k) { c.violation("huge-trim", d + fmt("removed %ld, left %u, expected %d and %d", res, fsm_countstates(f), n - k, k)); free(sed); fsm_free(f); return; }
	Auto s = snapshot(f); bool bad = false; for (int i = 0; i < n && !bad; i++) if (at[i] >= 0) { if (sed && sed[at[i]] != (unsigned)dist[i]) { c.violation("huge-trim", d + fmt("distance of %d is %d, reported %u", i, dist[i], sed[at[i]])); bad = true; } if (s.s[at[i]].end != (bool)end[i]) { c.violation("huge-trim", d + fmt("end %d", i)); bad = true; } std::map<int, Sym> want; for (auto &p : e[i]) if (at[p.first] >= 0) want[at[p.first]].set(p.second); std::map<int, Sym> got; for (auto &p : s.s[at[i]].e) got[p.first] = p.second; bool same = want.size() == got.size(); for (auto &p : want) if (!got.count(p.first) || !(got[p.first] == p.second)) same = false; if (!same) { c.violation("huge-trim", d + fmt("edges of %d", i)); bad = true; } }
	free(sed); fsm_free(f);
}
void run_case(Ctx &c, u64 idx) {
	if (idx % 4000 == 1717) huge(c, mix(c.seed ^ 0x77, idx));
	H h(c, mix(c.seed, idx)); int steps = h.r.range(5, c.thorough() ? 120 : 60);
	for (int i = 0; i < steps && !h.stop && h.m.n() < 500; i++) h.step();
	if (h.m.n() >= 3) { c.nontrivial(h.m.hash()); c.sample(h.log.substr(0, 700)); }
	h.finish();
}
