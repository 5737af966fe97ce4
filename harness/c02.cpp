// C02: patterns of the native, glob, like, SQL and literal dialects against a reference meaning.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
extern "C" {
#include <re/re.h>
}
const char *harness_name = "c02";
static Auto reversed(const Auto &a) {
	Auto b; b.s.resize(a.n()); int st = b.add(); b.start = st;
	for (int i = 0; i < a.n(); i++) { for (auto &p : a.s[i].e) b.edge(p.first, i, p.second); for (int t : a.s[i].eps) b.eps(t, i); if (a.s[i].end) b.eps(st, i); }
	if (a.start >= 0) b.s[a.start].end = true; return b;
}
#include "dialectgen.hpp"
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx));
	enum re_dialect d = r.pick(vector<enum re_dialect>{RE_NATIVE, RE_NATIVE, RE_NATIVE, RE_NATIVE, RE_SQL, RE_SQL, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL});
	static const char *names[] = {"like", "literal", "glob", "native", "sql", "pcre"};
	unsigned flags = 0; if (r.chance(20)) flags |= RE_ICASE; if (r.chance(20)) flags |= RE_SINGLE; if (r.chance(15)) flags |= RE_ANCHORED; if (r.chance(15)) flags |= RE_REVERSE; if (r.chance(10)) flags |= RE_ZONE; if (r.chance(5)) flags |= RE_MULTI;
	DGen g(r, d, flags); ReP e = g.top(); const string &t = g.t; string desc = string(names[d]) + " pattern " + esc(t) + fmt(" flags 0x%x", flags);
	if (re_size(e) > 600) { c.count("too-large"); return; }
	struct re_err err; memset(&err, 0, sizeof err); StrSrc src{&t, 0};
	struct fsm *f = re_comp(d, str_getc, &src, NULL, (enum re_flags)flags, &err);
	if (!f) { c.eval(); if (err.e == RE_EUNSUPPORTED) { c.count("unsupported"); return; } c.violation(string("refused:") + names[d] + ":" + re_strerror(err.e), desc + " is valid but refused: " + re_strerror(err.e)); return; }
	bool anch = d != RE_NATIVE || (flags & RE_ANCHORED);
	Auto m = re_subjects(e, anch, anch); if (flags & RE_REVERSE) m = reversed(m);
	Auto got = snapshot(f); c.eval(); c.count(string("patterns:") + names[d]); size_t ex = 0; string w;
	int v = same_behaviour(got, m, OUT_END, &w, 8000, &ex); c.count("product-states", ex);
	if (v < 0) { c.unsure("budget"); Rng q(idx); for (int i = 0; i < 60 && v != 0; i++) { w = random_string(q, i & 1 ? m : got, 24); if (model_run(m, w, OUT_END).end != model_run(got, w, OUT_END).end) v = 0; } }
	if (v == 0) { bool y = model_run(got, w, OUT_END).end; bool anchflag = d == RE_NATIVE && (flags & RE_ANCHORED) && (t.find('^') != string::npos || t.find('$') != string::npos);
		string key = "language"; if (anchflag && y) key = "anchored-flag-repeat"; else if (y && t.find('$') < t.rfind('^') && t.rfind('^') != string::npos) key = "start-anchor-after-end-anchor";
		c.violation(key, desc + fmt(" on %s: the automaton %s, the pattern %s; read as %s", esc(w).c_str(), y ? "accepts" : "rejects", y ? "does not match" : "matches", re_text(e).c_str())); }
	if (r.chance(15) && v == 1 && ex < 300) { if (!fsm_determinise(f)) abort(); if (r.chance(50) && !fsm_minimise(f)) abort(); for (int i = 0; i < 6; i++) { string x = random_string(r, r.chance(50) ? m : got, 12); fsm_state_t s; bool y = exec(f, x, &s) == 1; c.count("executions"); if (y) c.count("accepted"); if (y != model_run(m, x, OUT_END).end) c.violation("exec", desc + " executed on " + esc(x)); } }
	fsm_free(f);
	if (ex >= 2) { c.nontrivial(mix(hash_str(t), flags * 8 + d)); c.sample(desc); }
}
