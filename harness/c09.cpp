// C09: groups of patterns combined with fsm_union_repeated_pattern_group(), compared with each pattern on its own.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
extern "C" {
#include <re/re.h>
}
#include "pcregen.hpp"
const char *harness_name = "c09";
static string small(Rng &r) { // an ordinary kind of pattern: literals, wildcards and repeats, with anchors often
	static const char *atom[] = {"a", "b", "c", "a", "b", "ab", "abc", ".", "[ab]", "[^a]", "(?:ab|c)", "(?:a|b)", "(a|bc)", "x", "\\d", "(?:a*)", "(?:)", "(?:b?c?)", "(?:ab)", "\\n"};
	static const char *quant[] = {"", "", "", "", "", "*", "+", "?", "{2}", "{0,2}", "{1,3}", "{0}", ".*", ".*"};
	auto branch = [&](bool top) { string t; if (r.chance(top ? 35 : 10)) t += r.chance(85) ? "^" : "\\A"; int n = r.weighted({6, 30, 30, 20, 10}); for (int i = 0; i < n; i++) { t += atom[r.below(sizeof atom / sizeof *atom)]; t += quant[r.below(sizeof quant / sizeof *quant)]; } if (r.chance(top ? 35 : 10)) { static const char *e[] = {"$", "$", "$", "\\z", "\\Z"}; t += e[r.below(5)]; } return t; };
	string t = branch(true); if (r.chance(18)) { int n = r.range(1, 2); while (n--) t += "|" + branch(true); } if (r.chance(8)) t = branch(true) + "(?:" + t + ")" + branch(false); return t;
}
static struct fsm *comp(const string &t, unsigned flags) { StrSrc s{&t, 0}; struct re_err e; return re_comp(RE_PCRE, str_getc, &s, NULL, (enum re_flags)flags, &e); }
// the machine whose ids are everything reported for the input so far: eager outputs on the way and end ids at the end
static bool accumulate(const Auto &a, Auto &out) {
	Dfa d; if (!model_dfa(a, OUT_END | OUT_IDS | OUT_EAGER, d, 3000, 150000)) return false;
	out = Auto(); std::map<std::pair<int, Set>, int> id; vector<std::pair<int, Set>> todo;
	auto st = [&](int q, Set e) { for (u32 x : d.o[q].eager) e.push_back(x); std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end()); auto it = id.emplace(std::make_pair(q, e), out.n()); if (it.second) { int x = out.add(); Set all = e; for (u32 i : d.o[q].ids) all.push_back(i); std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end()); if (d.o[q].end && !all.empty()) { out.s[x].end = true; out.s[x].ids = all; } todo.push_back(it.first->first); } return it.first->second; };
	vector<Sym> sy(d.cl.rep.size()); for (int ch = 0; ch < 256; ch++) sy[d.cl.of[ch]].set(ch);
	out.start = st(d.start, {}); for (size_t i = 0; i < todo.size(); i++) { if (todo.size() > 6000) return false; auto k = todo[i]; int x = id[k]; for (size_t y = 0; y < sy.size(); y++) { int z = d.t[k.first][y]; int n = st(z, k.second); out.edge(x, n, sy[y]); } }
	return true;
}
static string reported(const Auto &acc, const string &w) { Obs o = model_run(acc, w); return o.text(); }
static vector<u32> got_ids; static void on_eager(fsm_output_id_t id, void *) { got_ids.push_back(id); }
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); int n = r.weighted({0, 8, 30, 30, 15, 8, 4, 3, 2}); size_t base = r.chance(80) ? r.below(4) : r.below(100000); unsigned gflags = r.chance(15) ? RE_SINGLE : r.chance(10) ? RE_ICASE : r.chance(6) ? RE_ANCHORED : 0;
	vector<string> pat; vector<Auto> alone; vector<struct fsm *> nfa; string desc; size_t work = 1; bool rich = r.chance(35); bool many = r.chance(5); vector<string> pool; if (many) { n = r.chance(60) ? r.pick(vector<int>{8, 16, 32}) : r.range(7, 40); rich = false; for (int i = r.chance(60) ? 1 : 2; i > 0; i--) pool.push_back(small(r)); } /* a large group of few different patterns: many ids at one state */
	for (int i = 0; i < n; i++) {
		unsigned flags = gflags; string t; if (rich && r.chance(70)) { Gen g(r, flags); g.budget = std::min(g.budget, 8); g.alpha = 2; g.base = 'a'; ReP e = g.alts(2); if (re_size(e) > 60) { i--; continue; } t = g.t; } else t = many ? r.pick(pool) : small(r);
		if (i && r.chance(6)) t = pat[r.below(i)]; // the same pattern twice
		if (t.find('\0') != string::npos) t = "a";
		struct fsm *f = comp(t, flags); if (!f) { c.count("refused"); t = small(r); f = comp(t, flags); if (!f) t = "b", f = comp(t, flags); if (!f) abort(); }
		Auto a = snapshot(f); fsm_free(f); Dfa d; if (!model_dfa(a, OUT_END, d, 60, 6000)) { c.count("too-large-alone"); t = "^b", f = comp(t, flags); a = snapshot(f); fsm_free(f); model_dfa(a, OUT_END, d, 60, 6000); }
		work *= (size_t)std::max(1, d.n() / 2); struct fsm *g = comp(t, flags | RE_SAVE_LINKAGE_INFO); if (!g) { c.violation("linkage:refused", "pattern " + esc(t) + " does not compile with RE_SAVE_LINKAGE_INFO"); t = "a"; g = comp(t, flags | RE_SAVE_LINKAGE_INFO); a = snapshot(g); }
		{ string w; Auto b = snapshot(g); int v = same_behaviour(a, b, OUT_END, &w, 3000); c.eval(); if (v == 0) c.violation("linkage:language", "RE_SAVE_LINKAGE_INFO changes the language of " + esc(t) + " on " + esc(w)); }
		pat.push_back(t); alone.push_back(a); nfa.push_back(g); desc += fmt("%zu:", base + i) + esc(t) + " ";
	}
	if (gflags) desc += fmt("flags 0x%x ", gflags);
	if (c.replay) fprintf(stderr, "GROUP %s\n", desc.c_str());
	// what should be reported
	Auto want; want.start = want.add(); for (int i = 0; i < n; i++) { Auto &a = alone[i]; int off = want.n(); for (int q = 0; q < a.n(); q++) { want.add(); want.s[off + q] = a.s[q]; want.s[off + q].ids.clear(); if (a.s[q].end) want.s[off + q].ids = {(u32)(base + i)}; for (auto &p : want.s[off + q].e) p.first += off; for (int &p : want.s[off + q].eps) p += off; } if (a.start >= 0) want.eps(0, off + a.start); }
	Dfa wd; if (!model_dfa(want, OUT_END | OUT_IDS, wd, 800, 60000)) { for (auto f : nfa) fsm_free(f); c.unsure("group budget"); return; }
	for (auto &t : pat) { bool s = t.find('^') != string::npos, e = t.find('$') != string::npos || t.find("\\z") != string::npos || t.find("\\Z") != string::npos; c.count(s && e ? "patterns:both-anchors" : s ? "patterns:start-anchor" : e ? "patterns:end-anchor" : "patterns:unanchored"); }
	vector<struct fsm_combined_base_pair> bases(n); struct fsm *f = fsm_union_repeated_pattern_group(n, nfa.data(), r.chance(50) ? bases.data() : NULL, base);
	if (!f) { c.violation("combine:failed", desc); return; }
	bool reported_once = false;
	auto check = [&](const char *stage) {
		Auto s = snapshot(f), acc; if (!accumulate(s, acc)) { c.unsure(string("budget ") + stage); return; }
		string w; size_t ex = 0; int v = same_behaviour(acc, want, OUT_END | OUT_IDS, &w, 20000, &ex); c.eval(); c.count(fmt("%s:product-states", stage), ex); if (v < 0) { c.unsure("product budget"); return; } if (v == 1) { c.count(fmt("%s:exact", stage)); return; }
		if (reported_once) return; reported_once = true;
		Obs g = model_run(acc, w), x = model_run(want, w); bool lost = false, inv = false; for (u32 i : x.ids) if (!std::count(g.ids.begin(), g.ids.end(), i)) lost = true; for (u32 i : g.ids) if (!std::count(x.ids.begin(), x.ids.end(), i)) inv = true;
		c.violation(fmt("%s:%s", stage, lost && inv ? "lost+invented" : lost ? "lost" : "invented"), fmt("input %s: the group reports %s, the patterns on their own %s; group ", esc(w).c_str(), reported(acc, w).c_str(), x.text().c_str()) + desc);
	};
	check("combined");
	{ Auto s = snapshot(f); Dfa d; if (!model_dfa(s, OUT_END, d, 3000, 150000)) { c.unsure("determinise budget"); fsm_free(f); return; } }
	if (!fsm_determinise(f)) c.violation("determinise:failed", desc); else { check("determinised"); unsigned k = fsm_countstates(f); c.count("max:dfa-states", k);
		auto runs = [&](const char *stage) { vector<string> in = covering_strings(wd, r, 40); for (int i = 0; i < 8; i++) in.push_back(random_string(r, want, 20)); fsm_eager_output_set_cb(f, on_eager, NULL);
			for (auto &w : in) { got_ids.clear(); fsm_state_t e; int x = exec(f, w, &e); std::set<u32> ids(got_ids.begin(), got_ids.end()); if (x == 1) { vector<fsm_end_id_t> b(fsm_endid_count(f, e)); if (!b.empty()) { if (!fsm_endid_get(f, e, b.size(), b.data())) abort(); ids.insert(b.begin(), b.end()); } } else ids.clear(); Obs o = model_run(want, w); c.count("executions"); if (!ids.empty()) c.count("executions-with-reports");
				if (x < 0 && [&] { fsm_state_t q; return fsm_getstart(f, &q) != 0; }()) { c.violation("exec", fmt("fsm_exec fails after %s: ", stage) + desc); break; } if (vector<u32>(ids.begin(), ids.end()) != o.ids && !reported_once) { reported_once = true; string t; for (u32 i : ids) t += fmt(" %u", i); c.violation(fmt("exec-%s", stage), fmt("input %s: executing the group reports {%s }, the patterns on their own %s; group ", esc(w).c_str(), t.c_str(), o.text().c_str()) + desc); break; } } };
		runs("determinised"); if (!fsm_minimise(f)) c.violation("minimise:failed", desc); else { check("minimised"); runs("minimised"); } }
	fsm_free(f);
	if (n >= 2 && wd.n() >= 3) { c.nontrivial(hash_str(desc)); c.sample("group " + desc); }
}
