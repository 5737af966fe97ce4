#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c19";
#define new new_ // the headers use it as a parameter name
extern "C" {
#include <stdbool.h>
#include <print/esc.h>
#include <adt/alloc.h>
#include <adt/bitmap.h>
#include <adt/stateset.h>
#include <adt/edgeset.h>
#include <adt/idmap.h>
#include <adt/internedstateset.h>
#include <adt/priq.h>
#include <adt/queue.h>
#include <adt/set.h>
#include <adt/tupleset.h>
#include <adt/path.h>
#include <adt/hashrec.h>
#include <adt/u64bitset.h>
#include <fsm/options.h>
#include "../src/libfsm/internal.h"
}
#undef new
// Every container is driven with a random history of operations beside the ideal container it stands for.
// A history stops at the first difference; the log of operations is the report.
typedef std::set<u32> S; typedef std::pair<unsigned, u32> SE; // symbol, state
struct H { Ctx &c; Rng &r; const char *what; string log; bool dead = false; u64 h = 0; int ops = 0;
	H(Ctx &c, Rng &r, const char *w) : c(c), r(r), what(w) {}
	void op(const string &s) { if (log.size() < 3500) log += s + "; "; h = mix(h, hash_str(s)); ops++; c.count(string(what) + " operations"); }
	bool ok(bool b, const string &key, const string &why) { c.eval(); if (!b && !dead) { dead = true; c.violation(string(what) + ":" + key, fmt("%s: %s: %s; after ", what, key.c_str(), why.substr(0, 800).c_str()) + log); } return b; }
	void done(bool interesting) { if (interesting) { c.nontrivial(mix(h, hash_str(what))); c.sample(string(what) + ": " + log.substr(0, 400)); c.count(string(what) + " histories"); } } };
static string str(const S &s) { string o = "{"; int k = 0; for (u32 x : s) { o += fmt("%s%u", k ? "," : "", x); if (++k > 40) { o += ",.."; break; } } return o + "}"; }
static string str(const vector<SE> &s) { string o = "{"; int k = 0; for (auto &x : s) { o += fmt("%s%02x>%u", k ? "," : "", x.first, x.second); if (++k > 40) { o += ",.."; break; } } return o + "}"; }
struct Map { std::map<u32, u32> m; u32 add = 0; bool drop_rest = false; };
static fsm_state_t remap_fn(fsm_state_t s, const void *o) { const Map *m = (const Map *)o; auto it = m->m.find(s); return it == m->m.end() ? (m->drop_rest ? FSM_STATE_REMAP_NO_STATE : s) : it->second; }
static Map make_map(Rng &r, const S &dom, int kind, u32 range) { // injective and not, order preserving and not, with and without removal
	Map m; vector<u32> v(dom.begin(), dom.end()); u32 next = 0;
	for (u32 x : v) { switch (kind) { case 0: if (r.chance(30)) m.m[x] = FSM_STATE_REMAP_NO_STATE; else m.m[x] = next++; break; case 1: m.m[x] = r.below(range); break; case 2: m.m[x] = r.chance(25) ? FSM_STATE_REMAP_NO_STATE : r.below(range); break; case 3: m.m[x] = (u32)v.size() - 1 - next++; break; case 4: m.m[x] = FSM_STATE_REMAP_NO_STATE; break; default: m.m[x] = x; } } return m;
}
static u32 pick_state(Rng &r, u32 range) { return r.chance(4) ? 0x7ffffff0u + r.below(8) : r.below(range); }
static S states_of(H &h, const struct state_set *s) { S o; struct state_iter it; fsm_state_t x; state_set_reset(s, &it); long prev = -1; int n = 0; while (state_set_next(&it, &x)) { h.ok((long)x > prev, "iteration order", fmt("%u after %ld", x, prev)); prev = x; o.insert(x); if (++n > 1000000) break; } return o; }
static void check_set(H &h, const struct state_set *s, const S &m, u32 range) {
	S got = states_of(h, s); h.ok(got == m, "contents", "holds " + str(got) + ", expected " + str(m));
	h.ok(state_set_count(s) == m.size(), "count", fmt("%zu, expected %zu", state_set_count(s), m.size())); h.ok(!!state_set_empty(s) == m.empty(), "empty", "");
	for (int i = 0; i < 6; i++) { u32 x = i < 3 && !m.empty() ? *std::next(m.begin(), h.r.below(m.size())) + (i == 2 ? 1 : 0) : pick_state(h.r, range); h.ok(!!state_set_contains(s, x) == !!m.count(x), "contains", fmt("%u in %s", x, str(m).c_str())); }
	if (m.size() == 1 && s) h.ok(state_set_only(s) == *m.begin(), "only", fmt("%u", state_set_only(s)));
	if (m.size() > 1) { const fsm_state_t *a = state_set_array(s); size_t i = 0; for (u32 x : m) h.ok(a[i] == x, "array", fmt("[%zu] is %u, expected %u", i, a[i], x)), i++; }
}
static void stateset_case(Ctx &c, Rng &r) {
	H h(c, r, "state set"); CountAlloc ca; const struct fsm_alloc *al = &ca.fa; const int N = 3; struct state_set *s[N] = {}; S m[N]; u32 range = r.pick<u32>({3, 8, 20, 100, 1000}); int len = r.range(3, 60);
	for (int i = 0; i < len && !h.dead; i++) { int k = r.below(N); u32 x = r.chance(40) && !m[k].empty() ? *std::next(m[k].begin(), r.below(m[k].size())) : pick_state(r, range);
		switch (r.weighted({30, 14, 12, 8, 8, 6, 8, 3})) {
		case 0: h.op(fmt("s%d add %u", k, x)); h.ok(state_set_add(&s[k], al, x), "add", "refused"); m[k].insert(x); break;
		case 1: { vector<fsm_state_t> v; int n = r.chance(10) ? r.range(40, 200) : r.range(1, 9); for (int j = 0; j < n; j++) v.push_back(r.chance(15) && !v.empty() ? r.pick(v) : pick_state(r, range)); string t; for (auto y : v) t += fmt(" %u", y); h.op(fmt("s%d bulk%s", k, t.c_str())); vector<fsm_state_t> v0 = v; h.ok(state_set_add_bulk(&s[k], al, v.data(), v.size()), "bulk", "refused"); h.ok(v == v0, "bulk", "input array changed"); for (auto y : v) m[k].insert(y); break; }
		case 2: h.op(fmt("s%d remove %u", k, x)); state_set_remove(&s[k], x); m[k].erase(x); break;
		case 3: { int j = r.below(N); if (j == k) break; h.op(fmt("s%d copy from s%d", k, j)); h.ok(state_set_copy(&s[k], al, s[j]), "copy", "refused"); m[k].insert(m[j].begin(), m[j].end()); break; }
		case 4: { Map mp = make_map(r, m[k], r.below(6), range); string t; for (auto &p : mp.m) t += fmt(" %u>%d", p.first, (int)p.second); h.op(fmt("s%d compact%s", k, t.c_str())); state_set_compact(&s[k], (fsm_state_remap_fun *)remap_fn, &mp); S o; for (u32 y : m[k]) { u32 z = remap_fn(y, &mp); if (z != FSM_STATE_REMAP_NO_STATE) o.insert(z); } m[k] = o; break; }
		case 5: { u32 b = r.below(50); if (!m[k].empty() && *m[k].rbegin() > 0x70000000u) break; h.op(fmt("s%d rebase %u", k, b)); state_set_rebase(&s[k], b); S o; for (u32 y : m[k]) o.insert(y + b); m[k] = o; break; }
		case 6: { u32 y = r.chance(40) && !m[k].empty() ? *std::next(m[k].begin(), r.below(m[k].size())) : pick_state(r, range); h.op(fmt("s%d replace %u by %u", k, x, y)); state_set_replace(&s[k], x, y); if (m[k].count(x)) { m[k].erase(x); m[k].insert(y); } break; }
		default: h.op(fmt("s%d free", k)); state_set_free(s[k]); s[k] = NULL; m[k].clear(); }
		check_set(h, s[k], m[k], range);
		int j = r.below(N), l = r.below(N); if (s[j] && s[l] && !m[j].empty() && !m[l].empty()) { int a = state_set_cmp(s[j], s[l]), b = state_set_cmp(s[l], s[j]); h.ok((a == 0) == (m[j] == m[l]), "cmp", fmt("%d for ", a) + str(m[j]) + " and " + str(m[l])); h.ok((a < 0) == (b > 0), "cmp antisymmetry", fmt("%d %d", a, b));
			int q = r.below(N); if (s[q] && !m[q].empty() && a < 0 && state_set_cmp(s[l], s[q]) < 0) h.ok(state_set_cmp(s[j], s[q]) < 0, "cmp transitivity", ""); }
	}
	for (int k = 0; k < N; k++) check_set(h, s[k], m[k], range), state_set_free(s[k]); h.ok(ca.live.empty() && !ca.foreign, "memory", fmt("%zu blocks not returned to their allocator", ca.live.size())); h.done(len > 8);
}
static vector<SE> sorted(const std::set<SE> &m) { return vector<SE>(m.begin(), m.end()); }
static void check_edges(H &h, const struct edge_set *s, const std::set<SE> &m, u32 range) {
	{ struct edge_iter it; struct fsm_edge e; std::set<SE> got; size_t n = 0; edge_set_reset(s, &it); while (n < 1000000 && edge_set_next(&it, &e)) { n++; got.insert({(unsigned char)e.symbol, (u32)e.state}); } h.ok(got == m && n == m.size(), "iteration", fmt("%zu edges ", n) + str(sorted(got)) + ", expected " + str(sorted(m))); }
	h.ok(edge_set_count(s) == m.size(), "count", fmt("%zu, expected %zu", edge_set_count(s), m.size())); h.ok(!!edge_set_empty(s) == m.empty(), "empty", "");
	{ unsigned from = h.r.chance(50) ? 0 : h.r.pick<unsigned>({1, 63, 64, 127, 128, 191, 192, 254, 255, (unsigned)h.r.below(256)}); struct edge_ordered_iter it; struct fsm_edge e; vector<SE> got; if (from == 0 && h.r.chance(50)) edge_set_ordered_iter_reset(s, &it); else edge_set_ordered_iter_reset_to(s, &it, from); while (got.size() < 1000000 && edge_set_ordered_iter_next(&it, &e)) got.push_back({(unsigned char)e.symbol, (u32)e.state}); vector<SE> want; for (auto &x : m) if (x.first >= from) want.push_back(x); auto bysym = got; std::stable_sort(bysym.begin(), bysym.end(), [](const SE &a, const SE &b) { return a.first < b.first; }); h.ok(bysym == got, "ordered iteration", "not in symbol order"); std::sort(got.begin(), got.end()); h.ok(got == want, "ordered iteration", fmt("from %02x: ", from) + str(got) + ", expected " + str(want)); h.ok(!edge_set_ordered_iter_next(&it, &e), "ordered iteration", "goes on after its end"); }
	{ struct edge_group_iter gi; struct edge_group_iter_info g; std::set<SE> got; S tos; bool dup = false; edge_set_group_iter_reset(s, EDGE_GROUP_ITER_ALL, &gi); while (edge_set_group_iter_next(&gi, &g)) { bool any = false; if (!tos.insert(g.to).second) dup = true; for (int y = 0; y < 256; y++) if (u64bitset_get(g.symbols, y)) { any = true; got.insert({(unsigned)y, g.to}); } h.ok(any, "groups", "an empty group"); } h.ok(got == m && !dup, "groups", str(sorted(got)) + ", expected " + str(sorted(m))); }
	{ std::map<unsigned, int> cnt; for (auto &x : m) cnt[x.first]++; struct edge_group_iter gi; struct edge_group_iter_info g; std::set<SE> got; std::set<std::pair<u32, int>> seen; edge_set_group_iter_reset(s, EDGE_GROUP_ITER_UNIQUE, &gi); while (edge_set_group_iter_next(&gi, &g)) { bool any = false; h.ok(seen.insert({g.to, g.unique}).second, "unique groups", "a group twice"); for (int y = 0; y < 256; y++) if (u64bitset_get(g.symbols, y)) { any = true; h.ok(got.insert({(unsigned)y, g.to}).second, "unique groups", "an edge twice"); h.ok((cnt[y] == 1) == !!g.unique, "unique groups", fmt("%02x to %u, unique %d", y, g.to, g.unique)); } h.ok(any, "unique groups", "an empty group"); } h.ok(got == m, "unique groups", str(sorted(got)) + ", expected " + str(sorted(m))); }
	{ struct bm b; bm_clear(&b); std::set<unsigned> sy; bool nd = false; for (auto &x : m) if (!sy.insert(x.first).second) nd = true; h.ok(!!edge_set_hasnondeterminism(s, &b) == nd, "nondeterminism", str(sorted(m))); }
	for (int i = 0; i < 4; i++) { unsigned y = i < 2 && !m.empty() ? std::next(m.begin(), h.r.below(m.size()))->first : (unsigned)h.r.below(256); S to; for (auto &x : m) if (x.first == y) to.insert(x.second); h.ok(!!edge_set_contains(s, y) == !to.empty(), "contains", fmt("%02x", y)); struct fsm_edge e; int f = edge_set_find(s, y, &e); h.ok(!!f == !to.empty() && (!f || (to.count(e.state) && (unsigned char)e.symbol == y)), "find", fmt("%02x", y)); if (to.size() <= 1) { fsm_state_t t = 77; int z = edge_set_transition(s, y, &t); h.ok(!!z == !to.empty() && (!z || t == *to.begin()), "transition", fmt("%02x", y)); }
		if (m.empty() || std::all_of(m.begin(), m.end(), [&](const SE &x) { return x.second < 2000; })) { if (to.size() > 1) continue; vector<fsm_state_t> ec(2100); u32 nec = h.r.range(1, 4); for (auto &x : ec) x = h.r.below(nec); u64 lab[4] = {~0ull, 5, 6, 7}; fsm_state_t t = 0; bool small = !s || m.size() || true; (void)small;
			// destinations of emptied groups stay visible to this call's size assertion, so the map covers every state ever used
			int z = edge_set_check_edges_with_EC_mapping(s, y, ec.size(), ec.data(), &t, lab); Sym want; if (!to.empty()) for (auto &x : m) if (ec[x.second] == ec[*to.begin()]) want.set(x.first); Sym got; for (int q = 0; q < 4; q++) got.w[q] = lab[q]; h.ok(!!z == !to.empty() && (!z || t == *to.begin()) && got == want, "class labels", fmt("%02x", y)); } }
	(void)range;
}
static void edgeset_case(Ctx &c, Rng &r) {
	H h(c, r, "edge set"); CountAlloc ca; const struct fsm_alloc *al = &ca.fa; const int N = 2; struct edge_set *s[N]; std::set<SE> m[N]; for (auto &x : s) x = edge_set_new(); u32 range = r.pick<u32>({2, 5, 12, 60}); int len = r.range(3, 40); if (r.chance(6)) { range = r.pick<u32>({100, 300, 700}); c.count("edge set: large"); } int prof = r.below(3); bool moved = false;
	auto sym = [&]() -> unsigned { return prof == 0 ? 'a' + r.below(4) : prof == 1 ? r.pick<unsigned>({0, 1, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255}) : r.below(256); };
	for (int i = 0; i < len && !h.dead; i++) { int k = r.below(N); u32 x = r.below(range); unsigned y = sym(); bool from = !m[k].empty() && r.chance(50); if (from) { auto e = *std::next(m[k].begin(), r.below(m[k].size())); y = e.first; if (r.chance(60)) x = e.second; } S tos; for (auto &e : m[k]) tos.insert(e.second);
		switch (r.weighted({24, 14, 10, 8, 9, 6, 5, 9, 7, 4, 2})) {
		case 0: h.op(fmt("e%d add %02x>%u", k, y, x)); h.ok(edge_set_add(&s[k], al, y, x), "add", "refused"); m[k].insert({y, x}); break;
		case 1: { Sym q = random_sym(r, r.below(4)); u64 w[4]; for (int j = 0; j < 4; j++) w[j] = q.w[j]; h.op(fmt("e%d bulk %016llx %016llx %016llx %016llx>%u", k, (long long)w[0], (long long)w[1], (long long)w[2], (long long)w[3], x)); h.ok(edge_set_add_bulk(&s[k], al, w, x), "bulk", "refused"); for (int j = 0; j < 256; j++) if (q.get(j)) m[k].insert({(unsigned)j, x}); break; }
		case 2: h.op(fmt("e%d remove %02x", k, y)); edge_set_remove(&s[k], y); for (auto it = m[k].begin(); it != m[k].end();) it = it->first == y ? m[k].erase(it) : std::next(it); break;
		case 3: h.op(fmt("e%d remove state %u", k, x)); edge_set_remove_state(&s[k], x); for (auto it = m[k].begin(); it != m[k].end();) it = it->second == x ? m[k].erase(it) : std::next(it); break;
		case 4: { int j = 1 - k; h.op(fmt("e%d copy from e%d", k, j)); h.ok(edge_set_copy(&s[k], al, s[j]), "copy", "refused"); m[k].insert(m[j].begin(), m[j].end()); check_edges(h, s[j], m[j], range); break; }
		case 5: { struct state_set *ss = NULL; S q; int n = range > 60 && r.chance(70) ? r.range(30, 200) : r.range(0, 6); for (int j = 0; j < n; j++) { u32 z = r.below(range); q.insert(z); if (!state_set_add(&ss, al, z)) h.ok(false, "add", ""); } h.op(fmt("e%d add %02x>", k, y) + str(q)); h.ok(edge_set_add_state_set(&s[k], al, y, ss), "add state set", "refused"); for (u32 z : q) m[k].insert({y, z}); state_set_free(ss); break; }
		case 6: { u32 b = r.below(20); if (range > 1000) break; range += b; h.op(fmt("e%d rebase %u", k, b)); edge_set_rebase(&s[k], b); std::set<SE> o; for (auto &e : m[k]) o.insert({e.first, e.second + b}); m[k] = o; moved = true; break; }
		case 7: { u32 z = r.below(range); h.op(fmt("e%d replace %u by %u", k, x, z)); h.ok(edge_set_replace_state(&s[k], al, x, z), "replace", "refused"); std::set<SE> o; for (auto &e : m[k]) o.insert({e.first, e.second == x ? z : e.second}); m[k] = o; break; }
		case 8: { Map mp = make_map(r, tos, r.below(6), range); string t; for (auto &p : mp.m) t += fmt(" %u>%d", p.first, (int)p.second); h.op(fmt("e%d compact%s", k, t.c_str())); h.ok(edge_set_compact(&s[k], al, (fsm_state_remap_fun *)remap_fn, &mp), "compact", "refused"); std::set<SE> o; for (auto &e : m[k]) { u32 z = remap_fn(e.second, &mp); if (z != FSM_STATE_REMAP_NO_STATE) o.insert({e.first, z}); } m[k] = o; break; }
		case 9: { size_t n = r.below(40); h.op(fmt("e%d expects %zu", k, n)); h.ok(edge_set_advise_growth(&s[k], al, n), "growth", "refused"); break; }
		default: h.op(fmt("e%d free", k)); edge_set_free(al, s[k]); s[k] = edge_set_new(); m[k].clear(); }
		if (!h.dead) check_edges(h, s[k], m[k], range);
	}
	(void)moved; for (int k = 0; k < N; k++) { if (!h.dead) check_edges(h, s[k], m[k], range); edge_set_free(al, s[k]); } h.ok(ca.live.empty() && !ca.foreign, "memory", fmt("%zu blocks not returned to their allocator", ca.live.size())); h.done(len > 8);
}
static void interned_case(Ctx &c, Rng &r) {
	H h(c, r, "interned state sets"); CountAlloc ca; struct interned_state_set_pool *p = interned_state_set_pool_alloc(&ca.fa); std::map<vector<fsm_state_t>, interned_state_set_id> m; std::map<interned_state_set_id, vector<fsm_state_t>> inv; vector<vector<fsm_state_t>> all; vector<struct state_set *> singles; int len = r.chance(8) ? r.range(800, 3000) : r.range(3, 120); u32 range = r.pick<u32>({4, 10, 40, 3000});
	for (int i = 0; i < len && !h.dead; i++) { vector<fsm_state_t> v; if (!all.empty() && r.chance(35)) { v = r.pick(all); if (r.chance(40)) { S q(v.begin(), v.end()); if (r.chance(50) && q.size() > 1) q.erase(std::next(q.begin(), r.below(q.size()))); else q.insert(r.below(range)); v.assign(q.begin(), q.end()); } } else { S q; int n = r.chance(3) ? r.range(200, 3000) : r.range(1, 8); for (int j = 0; j < n; j++) q.insert(pick_state(r, range)); v.assign(q.begin(), q.end()); }
		interned_state_set_id id = 0; if (i < 60) { string t; for (auto y : v) { t += fmt(" %u", y); if (t.size() > 120) break; } h.op("intern" + t); } else h.ops++; h.ok(interned_state_set_intern_set(p, v.size(), v.data(), &id), "intern", "refused"); all.push_back(v);
		auto it = m.find(v); if (it != m.end()) h.ok(it->second == id, "same set, same id", fmt("%llu then %llu", (long long)it->second, (long long)id)); else { auto jt = inv.find(id); h.ok(jt == inv.end(), "different sets, different ids", fmt("%llu", (long long)id)); m[v] = id; inv[id] = v; }
		if (r.chance(40)) { auto q = std::next(inv.begin(), r.below(inv.size())); struct state_set *ss = interned_state_set_get_state_set(p, q->first); S got = states_of(h, ss), want(q->second.begin(), q->second.end()); h.ok(got == want, "contents", str(got) + ", expected " + str(want)); if (want.size() > 1) h.ok(interned_state_set_get_state_set(p, q->first) == ss, "get twice", "another set"); } }
	for (auto &q : inv) { if (h.dead) break; struct state_set *ss = interned_state_set_get_state_set(p, q.first); S got = states_of(h, ss), want(q.second.begin(), q.second.end()); h.ok(got == want, "contents", str(got) + ", expected " + str(want)); }
	c.count("interned sets", inv.size()); interned_state_set_pool_free(p); h.ok(ca.live.empty() && !ca.foreign, "memory", fmt("%zu blocks not returned to their allocator", ca.live.size())); h.done(len > 8);
}
static int put_hex(FILE *f, const struct fsm_options *, char ch) { return fprintf(f, "\\x%02x", (unsigned char)ch); }
static bool read_class(const string &t, Sym &o) { // what a printed class says
	o = Sym(); if (t == "/./") { o = ~o; return true; } size_t i = 0; auto one = [&](unsigned &x) { if (i + 4 > t.size() || t[i] != '\\' || t[i + 1] != 'x' || !isxdigit(t[i + 2]) || !isxdigit(t[i + 3])) return false; x = strtoul(t.substr(i + 2, 2).c_str(), NULL, 16); i += 4; return true; }; unsigned x, y;
	if (t.empty()) return false; if (t[0] != '[') { if (!one(x) || i != t.size()) return false; o.set(x); return true; } i = 1; bool inv = false; if (t[i] == '^') { inv = true; i++; }
	while (i < t.size() && t[i] != ']') { if (!one(x)) return false; y = x; if (i < t.size() && t[i] == '-') { i++; if (!one(y) || y < x) return false; } for (unsigned q = x; q <= y; q++) { if (o.get(q)) return false; o.set(q); } } if (i + 1 != t.size()) return false; if (inv) o = ~o; return true;
}
static void bitmap_case(Ctx &c, Rng &r) {
	H h(c, r, "bitmap"); struct bm b[2]; Sym m[2]; memset(b, 0x5A, sizeof b); for (auto &x : b) bm_clear(&x); int len = r.range(3, 30); struct fsm_options opt; memset(&opt, 0, sizeof opt);
	for (int i = 0; i < len && !h.dead; i++) { int k = r.below(2); unsigned y = r.chance(40) ? r.pick<unsigned>({0, 63, 64, 127, 128, 191, 192, 254, 255}) : r.below(256);
		switch (r.weighted({20, 8, 8, 10, 8, 8, 6, 14, 3})) {
		case 0: h.op(fmt("b%d set %u", k, y)); bm_set(&b[k], y); m[k].set(y); break;
		case 1: h.op(fmt("b%d unset %u", k, y)); bm_unset(&b[k], y); m[k].clr(y); break;
		case 2: { unsigned z = y + r.below(256 - y); h.op(fmt("b%d set %u-%u", k, y, z)); for (unsigned q = y; q <= z; q++) { bm_set(&b[k], q); m[k].set(q); } break; }
		case 3: h.op(fmt("b%d invert", k)); bm_invert(&b[k]); m[k] = ~m[k]; break;
		case 4: h.op(fmt("b%d intersect", k)); bm_intersect(&b[k], &b[1 - k]); m[k] = m[k] & m[1 - k]; break;
		case 5: h.op(fmt("b%d union", k)); bm_union(&b[k], &b[1 - k]); m[k] = m[k] | m[1 - k]; break;
		case 6: h.op(fmt("b%d copy", k)); bm_copy(&b[k], &b[1 - k]); m[k] = m[1 - k]; break;
		case 7: { Sym q = random_sym(r, r.below(4)); h.op(fmt("b%d words", k)); for (int w = 0; w < 4; w++) { uint64_t *p = bm_nth_word(&b[k], w); if (h.ok(p != NULL, "word", fmt("%d", w))) *p = q.w[w]; } m[k] = q; break; }
		default: h.op(fmt("b%d clear", k)); bm_clear(&b[k]); m[k] = Sym(); }
		for (int q = 0; q < 256; q++) if (!h.ok(!!bm_get(&b[k], q) == m[k].get(q), "get", fmt("%d", q))) break;
		h.ok((int)bm_count(&b[k]) == m[k].size(), "count", fmt("%u, expected %d", bm_count(&b[k]), m[k].size())); h.ok(!!bm_any(&b[k]) == m[k].any(), "any", fmt("%d with %d members", bm_any(&b[k]), m[k].size()));
		for (int w = 0; w < 4; w++) { uint64_t *p = bm_nth_word(&b[k], w); h.ok(p && *p == m[k].w[w], "word", fmt("%d", w)); }
		for (int v = 0; v < 2; v++) { int at = r.range(-1, 255); int want = at + 1; while (want < 256 && (int)m[k].get(want) != v) want++; h.ok((int)bm_next(&b[k], at, v) == want, "next", fmt("after %d of %d: %zu, expected %d", at, v, bm_next(&b[k], at, v), want)); }
		if (r.chance(30)) { char buf[3000]; size_t sz = sizeof buf; int boxed = r.below(2); int n = bm_snprint(&b[k], &opt, buf, sz, boxed, put_hex); Sym got; string t = n < 0 ? "" : buf; h.ok(n == (int)t.size() && read_class(t, got) && got == m[k], "print", "\"" + t.substr(0, 300) + "\""); c.count("printed classes"); if (n > 0) { vector<char> s2(r.range(1, n + 3)); memset(s2.data(), 'Z', s2.size()); int n2 = bm_snprint(&b[k], &opt, s2.data(), s2.size(), boxed, put_hex); string w = t.substr(0, std::min(s2.size() - 1, t.size())); h.ok(n2 == n && w == s2.data(), "print", "short buffer"); } } }
	h.done(len > 6);
}
static int cmp_tuple(const void *a, const void *b) { const int *x = *(const int *const *)a, *y = *(const int *const *)b; for (int i = 0; i < 2; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
static void tuple_case(Ctx &c, Rng &r) {
	H h(c, r, "tuple set"); CountAlloc ca; struct tuple_set *t = tuple_set_create(&ca.fa, cmp_tuple); std::map<std::pair<int, int>, int *> m; vector<std::unique_ptr<int[]>> own; int len = r.chance(20) ? r.range(100, 600) : r.range(3, 50), range = r.pick<int>({3, 8, 40});
	for (int i = 0; i < len && !h.dead; i++) { int a = r.below(range), b = r.below(range); own.emplace_back(new int[2]{a, b}); int *p = own.back().get(); auto it = m.find({a, b}); auto *q = (int *)tuple_set_contains(t, (struct fsm_walk2_tuple *)p); h.ok(q == (it == m.end() ? NULL : it->second), "contains", fmt("(%d,%d)", a, b));
		if (r.chance(65)) { h.op(fmt("add (%d,%d)", a, b)); h.ok(tuple_set_add(t, (struct fsm_walk2_tuple *)p) != NULL, "add", "refused"); m.insert({{a, b}, p}); q = (int *)tuple_set_contains(t, (struct fsm_walk2_tuple *)p); h.ok(q == m[{a, b}], "add", "not the item first added"); } }
	for (auto &e : m) { int k[2] = {e.first.first, e.first.second}; h.ok((int *)tuple_set_contains(t, (struct fsm_walk2_tuple *)k) == e.second, "contains", fmt("(%d,%d)", k[0], k[1])); }
	tuple_set_free(t); h.ok(ca.live.empty() && !ca.foreign, "memory", ""); h.done(len > 8);
}
static void idmap_case(Ctx &c, Rng &r) {
	H h(c, r, "id map"); CountAlloc ca; struct idmap *im = idmap_new(&ca.fa); std::map<u32, S> m; int len = r.chance(15) ? r.range(150, 900) : r.range(2, 60); u32 range = r.pick<u32>({3, 30, 2000}), vr = r.pick<u32>({4, 64, 66, 200, 2000});
	struct Got { std::map<u32, S> m; bool dup = false; static void cb(fsm_state_t s, unsigned v, void *o) { Got *g = (Got *)o; if (!g->m[s].insert(v).second) g->dup = true; } };
	for (int i = 0; i < len && !h.dead; i++) { u32 s = pick_state(r, range), v = r.chance(20) ? r.pick<u32>({0, 15, 16, 31, 32, 47, 48, 63, 64, 127, 128}) : r.below(vr); h.op(fmt("%u gets %u", s, v)); h.ok(idmap_set(im, s, v), "set", "refused"); m[s].insert(v);
		for (int k = 0; k < 2; k++) { u32 q = k ? pick_state(r, range) : s; S want; auto it = m.find(q); if (it != m.end()) want = it->second; h.ok(idmap_get_value_count(im, q) == want.size(), "count", fmt("%u", q)); vector<unsigned> buf(want.size()); size_t n = 99999; int g = idmap_get(im, q, buf.size() * sizeof(unsigned), buf.data(), &n); h.ok(g && n == want.size() && S(buf.begin(), buf.end()) == want && std::is_sorted(buf.begin(), buf.end()), "get", fmt("%u", q)); if (!want.empty()) { vector<unsigned> b2(want.size() - 1); h.ok(!idmap_get(im, q, b2.size() * sizeof(unsigned), b2.data(), NULL), "get", "succeeds without room"); }
			if (k || r.chance(30)) { Got gg; idmap_iter_for_state(im, q, Got::cb, &gg); h.ok(!gg.dup && gg.m.size() == (want.empty() ? 0 : 1) && (want.empty() || gg.m[q] == want), "iterate one", fmt("%u", q)); } }
		if (i == len - 1 || r.chance(5)) { Got gg; idmap_iter(im, Got::cb, &gg); h.ok(!gg.dup && gg.m == m, "iterate all", fmt("%zu states, expected %zu", gg.m.size(), m.size())); } }
	idmap_free(im); h.ok(ca.live.empty() && !ca.foreign, "memory", ""); h.done(len > 8);
}
static void queue_case(Ctx &c, Rng &r) {
	H h(c, r, "queue"); CountAlloc ca; size_t cap = r.pick<size_t>({1, 2, 3, 7, 30, 200}); struct queue *q = queue_new(&ca.fa, cap); std::deque<u32> m; int len = r.range(5, 200), bias = r.range(30, 70); h.op(fmt("capacity %zu", cap));
	for (int i = 0; i < len && !h.dead; i++) { if ((int)r.below(100) < bias) { u32 x = pick_state(r, 100); h.op(fmt("push %u", x)); int g = queue_push(q, x); h.ok(!!g == (m.size() < cap), "push", fmt("%d with %zu of %zu used", g, m.size(), cap)); if (g) m.push_back(x); } else { fsm_state_t x = 12345; h.op("pop"); int g = queue_pop(q, &x); h.ok(!!g == !m.empty() && (!g || x == m.front()), "pop", fmt("%d %u, expected %u", g, x, m.empty() ? 0 : m.front())); if (!m.empty()) m.pop_front(); } }
	queue_free(q); h.ok(ca.live.empty() && !ca.foreign, "memory", ""); h.done(len > 8);
}
static void priq_case(Ctx &c, Rng &r) {
	H h(c, r, "priority queue"); CountAlloc ca; struct priq *q = NULL, *out = NULL; std::map<u32, struct priq *> in; std::multiset<unsigned> costs; int len = r.range(3, 120); u32 next = 0; unsigned cr = r.pick<unsigned>({3, 20, 100000}); vector<u32> popped;
	for (int i = 0; i < len && !h.dead; i++) { switch (r.weighted({40, 25, 25, 10})) {
		case 0: { unsigned k = r.chance(5) ? UINT_MAX : r.chance(5) ? 0 : r.below(cr); h.op(fmt("push %u at %u", next, k)); struct priq *p = priq_push(&ca.fa, &q, next, k); if (h.ok(p && p->state == next && p->cost == k && p->prev == NULL, "push", "")) { in[next] = p; costs.insert(k); } next++; break; }
		case 1: { h.op("pop"); struct priq *p = priq_pop(&q); h.ok((p == NULL) == in.empty(), "pop", "emptiness"); if (!p || h.dead) break; h.ok(p->cost == *costs.begin(), "pop", fmt("cost %u, the least is %u", p->cost, *costs.begin())); auto it = in.find(p->state); if (!h.ok(it != in.end() && it->second == p, "pop", "an item not queued")) break; costs.erase(costs.find(p->cost)); in.erase(it); priq_move(&out, p); popped.push_back(p->state); h.ok(out == p, "move", ""); break; }
		case 2: { if (in.empty()) break; auto it = std::next(in.begin(), r.below(in.size())); unsigned k = r.below(cr); h.op(fmt("%u now at %u", it->first, k)); costs.erase(costs.find(it->second->cost)); it->second->cost = k; priq_update(&q, it->second, k); costs.insert(k); break; }
		default: { u32 s = r.below(next + 1); auto it = in.find(s); h.ok(priq_find(q, s) == (it == in.end() ? NULL : it->second), "find", fmt("%u", s)); bool was = std::find(popped.begin(), popped.end(), s) != popped.end(); struct priq *p = priq_find(out, s); h.ok((p != NULL) == was && (!p || p->state == s), "find", fmt("%u among the taken", s)); } }
		unsigned last = 0; size_t n = 0; for (struct priq *p = q; p && n <= in.size(); p = p->next) { h.ok(p->cost >= last, "order", fmt("%u after %u", p->cost, last)); last = p->cost; n++; } h.ok(n == in.size(), "size", fmt("%zu, expected %zu", n, in.size())); }
	priq_free(&ca.fa, q); priq_free(&ca.fa, out); h.ok(ca.live.empty() && !ca.foreign, "memory", ""); h.done(len > 8);
}
static void path_case(Ctx &c, Rng &r) {
	H h(c, r, "path list"); CountAlloc ca; struct path *p = NULL; vector<std::pair<u32, char>> m; int len = r.range(1, 60);
	for (int i = 0; i < len; i++) { u32 s = r.below(50); char ch = (char)r.below(256); h.op(fmt("push %u %02x", s, (unsigned char)ch)); struct path *n = path_push(&ca.fa, &p, s, ch); h.ok(n == p && n, "push", ""); m.push_back({s, ch}); }
	size_t i = m.size(); for (struct path *q = p; q; q = q->next) { if (!h.ok(i > 0, "length", "too long")) break; i--; h.ok(q->state == m[i].first && q->c == m[i].second, "contents", fmt("%zu", i)); } h.ok(i == 0 || h.dead, "length", "too short"); path_free(&ca.fa, p); h.ok(ca.live.empty() && !ca.foreign, "memory", ""); h.done(len > 8);
	// a hash must be a function of the bytes only
	string w; int n = r.below(70); for (int k = 0; k < n; k++) w += (char)r.below(256); vector<char> v1(w.begin(), w.end()), v2(3 + w.size()); std::copy(w.begin(), w.end(), v2.begin() + 3); h.ok(hashrec(v1.data(), v1.size()) == hashrec(v2.data() + 3, w.size()), "hash", "depends on where the bytes are"); if (n) { string z = w; z[r.below(n)] ^= 1 << r.below(8); h.ok(hashrec(w.data(), n) != hashrec(z.data(), n), "hash", "one bit changed, same 64-bit hash"); }
	{ u64 bits[20] = {}; S mm; int words = r.range(1, 20); for (int k = 0; k < 60; k++) { u32 x = r.below(words * 64); if (r.chance(70)) { u64bitset_set(bits, x); mm.insert(x); } else { u64bitset_clear(bits, x); mm.erase(x); } u32 y = r.below(words * 64); h.ok(!!u64bitset_get(bits, y) == !!mm.count(y), "bit array", fmt("%u", y)); } size_t k = 0; for (u64 x : bits) k += u64bitset_popcount(x); h.ok(k == mm.size(), "bit array", "count"); size_t z = r.below(2000); h.ok(u64bitset_words(z) == (z + 63) / 64, "bit array", "words"); }
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx));
	switch (r.weighted({24, 30, 8, 14, 6, 8, 4, 6, 3})) { case 0: stateset_case(c, r); break; case 1: edgeset_case(c, r); break; case 2: interned_case(c, r); break; case 3: bitmap_case(c, r); break; case 4: tuple_case(c, r); break; case 5: idmap_case(c, r); break; case 6: queue_case(c, r); break; case 7: priq_case(c, r); break; default: path_case(c, r); }
}
