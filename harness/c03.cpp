#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c03";
static void compare(Ctx &c, const Auto &m, const struct fsm *f, const char *what, bool dfa) {
	Auto s = snapshot(f); string w; size_t ex = 0;
	if (!no_eps(s)) c.violation(fmt("%s:epsilons-left", what), m.text() + "\nresult " + s.text());
	if (dfa && m.start >= 0) { if (!is_dfa(s)) c.violation(fmt("%s:not-dfa", what), m.text() + "\nresult " + s.text()); if (!fsm_all(f, fsm_isdfa)) c.violation(fmt("%s:isdfa-says-no", what), m.text()); }
	int v = same_behaviour(m, s, OUT_END | OUT_IDS | OUT_EAGER, &w, 40000, &ex);
	c.eval(); c.count(string(what) + ":product-states", ex);
	if (v < 0) { c.unsure("product budget"); return; }
	if (v == 0) { std::set<u32> e1, e2; Obs a = model_run(m, w, OUT_END | OUT_IDS, &e1), b = model_run(s, w, OUT_END | OUT_IDS, &e2);
		const char *kind = a.end != b.end ? "language" : a.ids != b.ids ? "ids" : "eager";
		c.violation(fmt("%s:%s", what, kind), fmt("input %s: original %s, result %s (eager %zu vs %zu)\noriginal ", esc(w).c_str(), a.text().c_str(), b.text().c_str(), e1.size(), e2.size()) + m.text() + "\nresult " + s.text()); }
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); GenOpt g; g.ids = r.chance(70); g.eager = r.chance(40);
	Auto m; int sz = r.weighted({50, 30, 15, 5}); bool big = false;
	if (idx % 24 == 7) { m = wide_auto(r, g, idx % 600 == 7); big = true; }
	else if (sz == 0) { g.maxn = 8; m = random_auto(r, g); }
	else if (sz == 1) { g.maxn = 24; g.edgemax = 2; m = random_auto(r, g); }
	else if (sz == 2) { m = big_auto(r, g, r.range(20, 200)); big = true; }
	else { m = big_auto(r, g, r.range(300, c.thorough() ? 6000 : 2500)); big = true; }
	CountAlloc ca; bool custom = r.chance(15);
	{ Auto t = m; Dfa d; if (!model_dfa(t, OUT_END, d, 20000, 120000)) { c.unsure("subset budget"); return; } 
		if (m.n() >= 2 && m.nedges() >= 2) c.nontrivial(m.hash());
		c.count("nfa-states", m.n()); c.count("dfa-states", d.n()); c.count(m.neps() ? "with-epsilons" : "no-epsilons");
		struct fsm *f = build(m, custom ? &ca.fa : nullptr, &r);
		Auto orig = snapshot(f);
		{ string w; if (!big && same_behaviour(m, orig, 7, &w) == 0) c.violation("build", m.text() + "\nsnapshot " + orig.text()); }
		if (idx < 3) c.sample("determinise " + m.text(600));
		// epsilon removal
		struct fsm *e = fsm_clone(f); if (!e) abort();
		if (!fsm_remove_epsilons(e)) { if (m.start >= 0) c.violation("remove_epsilons:failed", m.text()); }
		else { compare(c, m, e, "remove_epsilons", false); }
		// determinise after epsilon removal, and directly
		if (m.start >= 0 || m.neps() == 0) {
			if (!fsm_determinise(e)) c.violation("determinise:failed", m.text()); else compare(c, m, e, "determinise2", true);
			fsm_free(e); e = nullptr;
			struct fsm *d1 = fsm_clone(f);
			if (!fsm_determinise(d1)) c.violation("determinise:failed", m.text()); else {
				compare(c, m, d1, "determinise", true);
				// and once more: a DFA stays as it is
				unsigned n1 = fsm_countstates(d1); struct fsm *d2 = fsm_clone(d1); if (!fsm_determinise(d2)) c.violation("determinise:failed-on-dfa", m.text()); else { if (fsm_countstates(d2) > n1) c.violation("determinise:dfa-grows", m.text()); compare(c, m, d2, "determinise-again", true); } fsm_free(d2);
				// with a state limit
				for (int k = 0; k < 2; k++) {
					struct fsm_determinise_config cfg; cfg.state_limit = k == 0 ? 1 + r.below(n1 + 3) : (r.chance(50) ? n1 + r.below(4) : std::max<int>(m.n(), n1) + r.below(5));
					struct fsm *l = fsm_clone(f); auto res = fsm_determinise_with_config(l, &cfg); c.count(fmt("limit-result-%d", (int)res));
					if (res == FSM_DETERMINISE_WITH_CONFIG_OK) { compare(c, m, l, "limit-ok", true); if (m.start >= 0 && fsm_countstates(l) > cfg.state_limit + 1) c.violation("limit:not-enforced", m.text() + fmt("\nlimit %zu but %u states", cfg.state_limit, fsm_countstates(l))); }
					else if (res == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED) {
						if ((size_t)m.n() <= cfg.state_limit && n1 <= cfg.state_limit) c.violation("limit:reached-too-early", m.text() + fmt("\nlimit %zu, NFA %d states, DFA %u states", cfg.state_limit, m.n(), n1));
						Auto s = snapshot(l); string w; int v = same_behaviour(m, s, 7, &w, 40000); if (v == 0) c.violation("limit:reached-changes-language", "input " + esc(w) + " " + m.text() + "\nleft " + s.text());
						if (v > 0) { if (!fsm_determinise(l)) c.violation("limit:determinise-afterwards-failed", m.text()); else compare(c, m, l, "limit-then-determinise", true); }
					} else c.violation("limit:errno", m.text());
					fsm_free(l);
				}
			}
			fsm_free(d1);
		}
		if (e) fsm_free(e);
		{ Auto after = snapshot(f); if (after.hash() != orig.hash()) c.violation("clone:original-changed", m.text()); }
		fsm_free(f);
	}
	if (custom && (ca.foreign || !ca.live.empty())) c.violation("allocator", fmt("foreign=%d, %zu blocks left; ", ca.foreign, ca.live.size()) + m.text());
}
