#define VF_MAIN
#include "common.hpp"
extern "C" {
#include <re/re.h>
#include <re/strings.h>
}
const char *harness_name = "c15";
struct Word { string w; bool tagged; u32 id; };
static string gen_word(Rng &r, int prof, int maxlen) { string w; int l = r.chance(4) ? 0 : r.range(1, maxlen); for (int i = 0; i < l; i++) w += (char)random_sym(r, prof).nth(0); return w; }
static Auto machine(const vector<Word> &ws, bool left, bool right, int more = 0) {
	// more: additionally require at least one byte after a match (only used with !right)
	Auto a; int s = a.add(); a.start = s; if (!left) a.edge(s, s, Sym::all());
	for (auto &w : ws) { int q = s; if (!left) { q = a.add(); a.eps(s, q); }
		for (unsigned char ch : w.w) { int t = a.add(); a.edge(q, t, ch); q = t; }
		if (q == s) { int t = a.add(); a.eps(s, t); q = t; }
		if (more) { int t = a.add(); a.edge(q, t, Sym::all()); q = t; }
		a.s[q].end = true; if (w.tagged) a.s[q].ids = {w.id};
		if (!right) a.edge(q, q, Sym::all()); }
	return a;
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx));
	int api = r.below(3); // 0: re_strings(), 1: add_str, 2: add_raw
	int prof = r.weighted({30, 25, 15, 5, 10, 0, 0, 15}); bool big = r.chance(4);
	int n = big ? r.range(20, 120) : r.chance(3) ? 0 : r.chance(50) ? r.range(1, 4) : r.range(1, 12); int maxlen = r.chance(60) ? 4 : big ? 30 : 9;
	vector<Word> ws; int tagmode = api == 0 ? 0 : r.below(4); // none, all distinct, some, shared
	for (int i = 0; i < n; i++) {
		Word w; int m = ws.empty() ? 0 : r.below(8);
		if (m <= 2) w.w = gen_word(r, prof, maxlen); else { const string &o = r.pick(ws).w; size_t k = r.below(o.size() + 1);
			if (m == 3) w.w = o; else if (m == 4) w.w = o.substr(0, k); else if (m == 5) w.w = o.substr(k); else if (m == 6) w.w = o + gen_word(r, prof, 3); else w.w = r.chance(50) ? gen_word(r, prof, 3) + o : o.substr(k / 2, k - k / 2); }
		if (api != 2) { w.w.erase(std::remove(w.w.begin(), w.w.end(), '\0'), w.w.end()); }
		w.tagged = tagmode == 1 || tagmode == 3 || (tagmode == 2 && r.chance(50)); w.id = tagmode == 3 ? r.below(3) : r.chance(70) ? (u32)i : random_id(r);
		ws.push_back(w);
	}
	unsigned flags = r.below(4); if (r.chance(15)) flags |= RE_STRINGS_AC_AUTOMATON;
	bool left = flags & RE_STRINGS_ANCHOR_LEFT, right = flags & (RE_STRINGS_ANCHOR_RIGHT | RE_STRINGS_AC_AUTOMATON);
	struct fsm *f; CountAlloc al; const struct fsm_alloc *ap = r.chance(30) ? &al.fa : NULL;
	if (api == 0) { vector<const char *> p; for (auto &w : ws) p.push_back(w.w.c_str()); p.push_back(NULL); f = re_strings(ap, p.data(), ws.size(), (enum re_strings_flags)flags); }
	else { struct re_strings *g = re_strings_new(); for (auto &w : ws) { fsm_end_id_t id = w.id; int x;
			if (api == 1) x = re_strings_add_str(g, w.w.c_str(), w.tagged ? &id : NULL); else { vector<char> buf(w.w.begin(), w.w.end()); buf.reserve(1); char *hp = (char *)malloc(buf.size() ? buf.size() : 1); memcpy(hp, buf.data(), buf.size()); x = re_strings_add_raw(g, hp, buf.size(), w.tagged ? &id : NULL); free(hp); }
			if (!x) { c.violation("add", "adding a word failed"); } }
		f = re_strings_build(g, ap, (enum re_strings_flags)flags); re_strings_free(g); }
	string desc = fmt("flags=%u api=%d words:", flags, api); for (auto &w : ws) { desc += " " + esc(w.w); if (w.tagged) desc += fmt("#%u", w.id); }
	if (!f) { c.violation("build", "re_strings failed: " + desc); return; }
	c.eval(); c.count(fmt("flags-%u%s", flags, tagmode ? "-ids" : ""));
	Auto got = snapshot(f); Auto want = machine(ws, left, right); string wit; size_t ex = 0;
	if (!is_dfa(got)) c.violation("dfa", "not a DFA: " + desc);
	bool tagged = false; for (auto &w : ws) tagged |= w.tagged;
	auto report = [&](const string &key) { Obs g = model_run(got, wit), x = model_run(want, wit); c.violation(key, fmt("input %s: got %s, expected %s; %s", esc(wit).c_str(), g.text().c_str(), x.text().c_str(), desc.c_str())); };
	int v;
	if (tagged && !right) {
		// with ids and no right anchor the answer after a first match is a known finding; up to the first match it is checked in full
		Auto past = machine(ws, left, false, 1);
		v = forall_strings({&got, &want, &past}, OUT_END | OUT_IDS, [](const vector<Obs> &o) { return o[2].end || o[0] == o[1]; }, &wit, 60000, nullptr, &ex);
		if (v == 0) report("first-match");
		if (v == 1) { int v2 = same_behaviour(got, want, OUT_END | OUT_IDS, &wit, 3000); if (v2 == 0) report("after-match:ids-without-right-anchor"); }
	} else { v = same_behaviour(got, want, OUT_END | OUT_IDS, &wit, 60000, &ex); if (v == 0) report("language"); }
	if (v < 0) c.unsure("budget"); c.count("product-states", ex);
	for (int k = 0; k < 6; k++) { string w = random_string(r, want); if (r.chance(30)) w += random_string(r, want, 8); fsm_state_t e; int x = exec(f, w, &e); Obs o = model_run(got, w); c.count("executions"); if ((x == 1) != o.end) { c.violation("exec", fmt("fsm_exec says %d on %s; %s", x, esc(w).c_str(), desc.c_str())); } }
	fsm_free(f); if (ap && (!al.live.empty() || al.foreign)) c.violation("alloc", "blocks left or foreign: " + desc);
	if (n >= 2) { u64 h = flags; for (auto &w : ws) h = mix(h, hash_str(w.w) ^ w.id * 3 ^ w.tagged); c.nontrivial(h); c.sample(desc); }
}
