#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c08";
// a model and the library's machine evolve together
struct Pair { Auto m; struct fsm *f; };
static Auto shift(const Auto &a, int off) { Auto b = a; for (auto &s : b.s) { for (auto &p : s.e) p.first += off; for (int &x : s.eps) x += off; } b.start += off; return b; }
static Auto m_union(const vector<const Auto *> &v) { Auto q; q.add(); q.start = 0; for (auto *a : v) { int off = q.n(); Auto b = shift(*a, off); q.s.insert(q.s.end(), b.s.begin(), b.s.end()); q.eps(0, b.start); } return q; }
static Auto m_concat(const Auto &a, const Auto &b) { Auto q = a; int off = q.n(); Auto c = shift(b, off); for (auto &s : q.s) s.ids.clear(); for (int i = 0; i < off; i++) if (q.s[i].end) { q.s[i].end = false; q.eps(i, c.start); } q.s.insert(q.s.end(), c.s.begin(), c.s.end()); return q; }
static bool has_end(const Auto &a) { for (auto &s : a.s) if (s.end) return true; return false; }
static Auto component(Ctx &c, Rng &r) { GenOpt g; g.nostart = r.chance(50); g.dfa = r.chance(20); g.eps = !g.dfa; g.eager = false; Auto a; if (r.chance(20)) { g.ids = r.chance(50); a = big_auto(r, g, r.range(8, 60)); } else { g.ids = r.chance(40); g.maxn = r.range(1, 6); a = random_auto(r, g); } if (!a.n()) a.add(); if (a.start < 0) a.start = 0; if (r.chance(6)) for (auto &s : a.s) if (s.end && r.chance(60)) { s.ids.clear(); u32 k = r.pick<u32>({15, 16, 17, 18, 31, 32, 33, 34, 65}), b = random_id(r); for (u32 i = 0; i < k; i++) s.ids.push_back(b + 3 * i); } return a; }
static string trail;
static void agree(Ctx &c, const char *what, const Auto &m, const struct fsm *f) {
	Auto s = snapshot(f); s.start < 0 ? (void)0 : (void)0; string w; size_t ex = 0; c.eval(); c.count(string("after-") + what);
	int v = same_behaviour(m, s, OUT_END | OUT_IDS, &w, 40000, &ex); c.count("product-states", ex); if (v < 0) c.unsure("product budget");
	if (v == 0) { Obs a = model_run(m, w), b = model_run(s, w); c.violation(fmt("%s:%s", what, a.end != b.end ? "language" : "ids"), fmt("after%s: input %s: expected %s, got %s\nmodel ", trail.c_str(), esc(w).c_str(), a.text().c_str(), b.text().c_str()) + m.text(2200) + "\nresult " + s.text(2200)); }
	for (auto &st : s.s) if (!std::is_sorted(st.ids.begin(), st.ids.end()) || std::adjacent_find(st.ids.begin(), st.ids.end()) != st.ids.end()) { c.violation(fmt("%s:unsorted", what), trail + s.text()); break; }
}
static struct fsm *build_with_ids(Ctx &c, Rng &r, Auto &a, const struct fsm_alloc *al, u32 id, bool use) {
	Auto bare = a; for (auto &s : bare.s) s.ids.clear();
	struct fsm *f = build(bare, al, &r);
	if (use && r.chance(70)) { if (!fsm_setendid(f, id)) c.violation("setendid:failed", ""); for (auto &s : a.s) if (s.end) { s.ids.push_back(id); } }
	vector<int> order; for (int i = 0; i < a.n(); i++) if (a.s[i].end) order.push_back(i); r.shuffle(order);
	for (int i : order) { vector<u32> z = a.s[i].ids; r.shuffle(z); if (z.size() > 1 && r.chance(50)) z.push_back(r.pick(z)); for (u32 x : z) if (!fsm_endid_set(f, i, x)) c.violation("endid-set:failed", ""); }
	for (auto &s : a.s) { std::sort(s.ids.begin(), s.ids.end()); s.ids.erase(std::unique(s.ids.begin(), s.ids.end()), s.ids.end()); }
	// state level reading
	for (int i = 0; i < a.n(); i++) if (a.s[i].end) { size_t k = fsm_endid_count(f, i); vector<u32> got(k + 2, 0xdeadbeef); if (k != a.s[i].ids.size() || !fsm_endid_get(f, i, k, got.data()) || !std::equal(a.s[i].ids.begin(), a.s[i].ids.end(), got.begin()) || got[k] != 0xdeadbeef) { c.violation("endid-get:wrong", a.text()); break; } if (k > 1) { vector<u32> few(k - 1); if (fsm_endid_get(f, i, k - 1, few.data())) c.violation("endid-get:short-buffer-accepted", a.text()); } }
	return f;
}
struct MapEnv { int kind; u32 k; int left; const struct fsm *f; bool bad = false; std::map<u32, vector<u32>> seen; };
static int remap(fsm_state_t st, size_t n, fsm_end_id_t *ids, size_t *nw, void *o) {
	MapEnv *e = (MapEnv *)o; if (!fsm_isend(e->f, st) || n == 0) e->bad = true; if (e->seen.count(st)) e->bad = true; e->seen[st] = vector<u32>(ids, ids + n);
	switch (e->kind) { case 0: for (size_t i = 0; i < n; i++) ids[i] = ids[i] ^ e->k; *nw = n; break; case 1: for (size_t i = 0; i < n; i++) ids[i] = ids[i] % (e->k % 3 + 1); *nw = n; break; case 2: *nw = 1; break; case 3: ids[0] = ids[n - 1]; *nw = (n + 1) / 2; break; default: for (size_t i = 0; i < n; i++) ids[i] = 0xFFFFFFFFu - ids[i]; *nw = n; }
	return e->left-- > 0;
}
static vector<u32> map_ids(const MapEnv &e, vector<u32> v) { size_t n = v.size(); switch (e.kind) { case 0: for (auto &x : v) x ^= e.k; break; case 1: for (auto &x : v) x %= e.k % 3 + 1; break; case 2: v.resize(1); break; case 3: v[0] = v[n - 1]; v.resize((n + 1) / 2); break; default: for (auto &x : v) x = 0xFFFFFFFFu - x; } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); CountAlloc ca; const struct fsm_alloc *al = r.chance(12) ? &ca.fa : nullptr; trail = "";
	int k = r.range(1, c.thorough() ? 9 : 6); vector<Auto> ms; vector<struct fsm *> fs; bool shared = r.chance(25); u32 base = r.chance(80) ? 0 : random_id(r);
	for (int i = 0; i < k; i++) { Auto a = component(c, r); bool use = r.chance(85); if (r.chance(15) && i) { a = ms[r.below(i)]; for (auto &s : a.s) s.ids.clear(); } fs.push_back(build_with_ids(c, r, a, al, shared ? base + (u32)r.below(2) : base + i, use)); ms.push_back(a); if (idx < 2 && i < 2) c.sample(a.text(300)); }
	// transform components, combine
	Auto m; struct fsm *f = nullptr;
	for (int i = 0; i < k; i++) if (r.chance(30)) { Dfa d; if (!model_dfa(ms[i], 7, d, 800, 20000)) continue; int t = r.below(3); if (t == 0) { trail += " det-part"; fsm_determinise(fs[i]); } else if (t == 1) { trail += " min-part"; fsm_determinise(fs[i]); fsm_minimise(fs[i]); } else { trail += " noeps-part"; fsm_remove_epsilons(fs[i]); } }
	vector<char> used(k, 0);
	if (k > 1 && r.chance(45)) { vector<const Auto *> v; for (auto &x : ms) v.push_back(&x); m = m_union(v); trail += fmt(" union-array(%d)", k); f = fsm_union_array(k, fs.data(), nullptr); if (!f) { c.violation("union-array:failed", trail); return; } }
	else { m = ms[0]; f = fs[0]; for (int i = 1; i < k; i++) { Auto &b = ms[i]; struct fsm *g = fs[i]; fsm_state_t st; bool okf = fsm_countstates(f) && fsm_getstart(f, &st), okg = fsm_countstates(g) && fsm_getstart(g, &st);
			int op = r.weighted({45, 20, 20, 8, 7});
			{ Dfa d; if (op >= 3 && (!model_dfa(m, 7, d, 400, 20000) || !model_dfa(b, 7, d, 400, 20000))) op = 0; }
			if (op == 1 && (!okf || !okg || !has_end(m) || !fsm_has(f, fsm_isend))) op = 0; if (op == 2 && (!okf || !okg)) op = 0;
			struct fsm *q = nullptr;
			switch (op) {
			case 0: trail += " union"; if (r.chance(50)) q = fsm_union(f, g, nullptr), m = m_union({&m, &b}); else q = fsm_union(g, f, nullptr), m = m_union({&b, &m}); break;
			case 1: trail += " concat"; q = fsm_concat(f, g, nullptr); m = m_concat(m, b); break;
			case 2: { trail += " merge"; fsm_state_t sa, sb, sq; fsm_getstart(f, &sa); fsm_getstart(g, &sb); struct fsm_combine_info ci; q = fsm_merge(f, g, &ci); if (q) { if (!fsm_addstate(q, &sq) || !fsm_addedge_epsilon(q, sq, sa + ci.base_a) || !fsm_addedge_epsilon(q, sq, sb + ci.base_b)) abort(); fsm_setstart(q, sq); m = m_union({&m, &b}); } break; }
			case 3: case 4: { trail += op == 3 ? " intersect" : " subtract"; // ids: those of both operands, or of the first
				q = op == 3 ? fsm_intersect(f, g) : fsm_subtract(f, g); Dfa d1, d2; Auto t; 
				// product in the model
				Classes cl = classes_of({&m, &b}); Subset s1(m, cl, 7), s2(b, cl, 7); std::map<std::pair<int,int>, int> id; vector<std::pair<int,int>> wl; auto in = [&](int x, int y) { auto it = id.emplace(std::make_pair(x, y), (int)wl.size()); if (it.second) { wl.push_back({x, y}); t.add(); } return it.first->second; };
				t.start = in(s1.start_id, s2.start_id); for (size_t j = 0; j < wl.size() && wl.size() < 30000; j++) { auto [x, y] = wl[j]; const Obs &ox = s1.observe(x), &oy = s2.observe(y); t.s[j].end = op == 3 ? ox.end && oy.end : ox.end && !oy.end; if (t.s[j].end) { std::set<u32> z(ox.ids.begin(), ox.ids.end()); if (op == 3) z.insert(oy.ids.begin(), oy.ids.end()); t.s[j].ids.assign(z.begin(), z.end()); } for (size_t ci = 0; ci < cl.rep.size(); ci++) { Sym y2; for (int z = 0; z < 256; z++) if (cl.of[z] == (int)ci) y2.set(z); int to = in(s1.step(x, (int)ci), s2.step(y, (int)ci)); t.edge((int)j, to, y2); } }
				m = t; break; }
			}
			if (!q) { c.violation("combine:failed", trail); return; } f = q; } }
	size_t nid = 0; for (auto &s : m.s) nid += !s.ids.empty(); if (nid >= 2 && m.n() >= 4) c.nontrivial(m.hash());
	Dfa d; bool small = model_dfa(m, 7, d, 4000, 120000); if (!small) c.unsure("subset budget");
	agree(c, "combine", m, f);
	int steps = r.range(1, 5); for (int i = 0; i < steps && small; i++) { const char *what = ""; fsm_state_t st; bool ok = true;
		switch (r.weighted({20, 20, 10, 10, 10, 10, 14, 6})) {
		case 0: what = "determinise"; trail += " determinise"; ok = fsm_determinise(f); break;
		case 1: what = "minimise"; trail += " minimise"; ok = fsm_determinise(f) && (fsm_countstates(f) == 0 || !fsm_getstart(f, &st) || fsm_minimise(f)); break;
		case 2: what = "remove-epsilons"; trail += " remove-epsilons"; if (fsm_getstart(f, &st)) ok = fsm_remove_epsilons(f); break;
		case 3: what = "trim"; trail += " trim"; ok = fsm_trim(f, r.chance(50) ? FSM_TRIM_START_REACHABLE : FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0; break;
		case 4: what = "shuffle"; trail += " shuffle"; ok = fsm_shuffle(f, (unsigned)r.next()); break;
		case 5: what = "vacuum/clone"; trail += " clone"; { struct fsm *g = fsm_clone(f); ok = g != NULL; if (ok) { if (r.chance(50)) fsm_vacuum(g); fsm_free(f); f = g; } } break;
		case 6: { what = "mapendids"; Auto b0 = snapshot(f); MapEnv e; e.kind = (int)r.below(5); e.k = (u32)r.next(); if (r.chance(50)) e.k &= 15; e.left = r.chance(80) ? 1 << 30 : (int)r.below(4); e.f = f; trail += fmt(" map%d(%u)", e.kind, e.k); int ret = fsm_mapendids(f, remap, &e); Auto b1 = snapshot(f); if (e.bad) c.violation("mapendids:state-not-an-end", trail + b0.text());
			size_t want = 0; for (auto &s : b0.s) want += !s.ids.empty(); if (ret != (e.left >= 0 ? 1 : 0)) c.violation("mapendids:return", trail); if (e.left >= 0 && e.seen.size() != want) c.violation("mapendids:missed-a-state", trail + b0.text());
			for (int j = 0; j < b0.n(); j++) { auto w = b0.s[j].ids; if (!w.empty() && e.seen.count(j)) w = map_ids(e, w); if (w != b1.s[j].ids) { c.violation("mapendids:ids", trail + fmt(" state %d ", j) + b0.text() + "\nnow " + b1.text()); break; } }
			// the model follows the machine, whose structure must be unchanged
			{ string w; int v = same_behaviour(b0, b1, OUT_END, &w, 40000); if (v == 0) c.violation("mapendids:language", trail + b0.text()); } m = b1; break; }
		default: { what = "increndids"; int delta = r.chance(50) ? (int)r.range(-5, 5) : (int)r.next(); trail += fmt(" incr(%d)", delta); fsm_increndids(f, delta); for (auto &s : m.s) { for (auto &x : s.ids) x += (u32)delta; std::sort(s.ids.begin(), s.ids.end()); } break; }
		}
		if (!ok) { c.violation(string(what) + ":failed", trail); break; }
		agree(c, what, m, f); }
	fsm_free(f); if (al && (ca.foreign || !ca.live.empty())) c.violation("allocator", fmt("foreign=%d, %zu blocks left; ", ca.foreign, ca.live.size()) + trail);
}
