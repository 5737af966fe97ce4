// C16: what re_is_literal() and re_is_anchored() say about a pattern, compared with the language it compiles to and with its meaning.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
extern "C" {
#include <re/re.h>
#include <re/literal.h>
}
#include "pcregen.hpp"
#include "dialectgen.hpp"
const char *harness_name = "c16";
static const char *names[] = {"like", "literal", "glob", "native", "sql", "pcre"};
// strings and anchors only, in as many spellings as there are
static ReP plain(Gen &g, Rng &r) {
	vector<ReP> v; auto anchor = [&](bool start) { if (start) { g.t += r.chance(80) ? "^" : "\\A"; v.push_back(re_leaf(Re::START)); } else { int k = r.below(6); g.t += k < 3 ? "$" : k == 3 ? "\\Z" : "\\z"; v.push_back(re_leaf(k < 4 ? Re::ENDNL : Re::END)); } };
	if (r.chance(50)) anchor(true); int n = r.weighted({12, 20, 20, 20, 10, 10, 5, 3}); for (int i = 0; i < n; i++) { g.filler(); if (r.chance(10)) { g.t += "(?:"; unsigned c = g.chr(); g.t += g.spell(c, false); v.push_back(re_set(g.sym(c))); g.t += ")"; } else if (r.chance(6)) { v.push_back(g.anchor()); } else if (r.chance(5)) { unsigned c = g.chr(); g.t += g.spell(c, false); int k = r.below(3); g.t += k == 0 ? "{1}" : k == 1 ? "{0}" : "?"; v.push_back(re_rep(re_set(g.sym(c)), k == 0 ? 1 : 0, k == 1 ? 0 : 1)); } else if (r.chance(4)) { unsigned c = g.chr(); g.t += "[" + g.spell(c, true) + "]"; v.push_back(re_set(g.sym(c))); } else { unsigned c = g.chr(); g.t += g.spell(c, false); v.push_back(re_set(g.sym(c))); } }
	if (r.chance(50)) anchor(false); if (r.chance(5)) anchor(r.chance(50)); return re_cat(v);
}
static ReP any_star() { return re_rep(re_set(Sym::all()), 0, -1); }
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); enum re_dialect d = r.pick(vector<enum re_dialect>{RE_PCRE, RE_PCRE, RE_PCRE, RE_PCRE, RE_PCRE, RE_PCRE, RE_NATIVE, RE_NATIVE, RE_NATIVE, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL});
	unsigned flags = 0; if (r.chance(10)) flags |= RE_ICASE; if (r.chance(10)) flags |= RE_SINGLE; if (r.chance(10)) flags |= RE_ANCHORED; if (d == RE_PCRE && r.chance(8)) flags |= RE_EXTENDED;
	string t; ReP e; bool soupy = false;
	if (d == RE_PCRE) { if (r.chance(10)) { t = soup(r); soupy = true; } else { Gen g(r, flags); if (r.chance(45)) { if (!g.ic && r.chance(70)) g.base = 'a'; e = plain(g, r); } else e = g.alts(r.chance(60) ? 1 : 3); t = g.t; } }
	else { DGen g(r, d, flags); e = g.top(); t = g.t; }
	if (!soupy && re_size(e) > 600) return; if (d == RE_PCRE && t.find('\0') != string::npos) { c.count("nul-in-text"); return; }
	string desc = string(names[d]) + " pattern " + esc(t) + fmt(" flags 0x%x", flags); if (c.replay) fprintf(stderr, "%s\n", desc.c_str());
	struct re_err er; memset(&er, 0, sizeof er); StrSrc s1{&t, 0}; enum re_literal_category cat = (enum re_literal_category)99; char *s = (char *)1; size_t n = 424242;
	int lit = re_is_literal(d, str_getc, &s1, (enum re_flags)flags, &er, &cat, &s, &n);
	StrSrc s2{&t, 0}; struct re_err er2; memset(&er2, 0, sizeof er2); enum re_is_anchored_res an = re_is_anchored(d, str_getc, &s2, (enum re_flags)flags, &er2);
	StrSrc s3{&t, 0}; struct re_err er3; memset(&er3, 0, sizeof er3); struct fsm *f = re_comp(d, str_getc, &s3, NULL, (enum re_flags)flags, &er3);
	c.eval(); c.count(fmt("literal-result:%d", lit)); c.count(an == RE_IS_ANCHORED_ERROR ? "anchored:error" : fmt("anchored:%d", (int)an));
	if (lit < -1 || lit > 1) c.violation("literal:result", desc); if (an != RE_IS_ANCHORED_ERROR && (int)an > 3) c.violation("anchored:result", desc);
	if (lit == -1 && f) c.violation("literal:refused", desc + fmt(" compiles, but re_is_literal says %s", re_strerror(er.e)));
	if (an == RE_IS_ANCHORED_ERROR && f) c.violation("anchored:refused", desc + fmt(" compiles, but re_is_anchored says %s", re_strerror(er2.e)));
	if (!f) { if (lit == 1 && s && cat != RE_LITERAL_UNSATISFIABLE) free(s); c.count("refused"); return; }
	Auto got = snapshot(f); fsm_free(f); string w;
	if (lit == 1 && cat == RE_LITERAL_UNSATISFIABLE) {
		c.count("unsatisfiable"); if (s != NULL) c.violation("unsatisfiable:string", desc); Auto none; none.start = none.add(); c.eval();
		int v = same_behaviour(got, none, OUT_END, &w, 5000); if (v == 0) c.violation("unsatisfiable:matches", desc + " is reported unsatisfiable but matches " + esc(w));
		if (e) { Auto m = re_subjects(e, d != RE_PCRE && d != RE_NATIVE, d != RE_PCRE && d != RE_NATIVE); if (!(flags & RE_ANCHORED) && same_behaviour(m, none, OUT_END, &w, 5000) == 0) c.violation("unsatisfiable:meaning", desc + " is reported unsatisfiable but means something that matches " + esc(w)); }
	} else if (lit == 1) {
		c.count(fmt("literal-category:%d", (int)cat)); if ((int)cat < 0 || (int)cat > 3) { c.violation("literal:category", desc + fmt(" category %d", (int)cat)); return; }
		if ((n == 0) != (s == NULL) || n > 4096) { c.violation("literal:length", desc + fmt(" n=%zu s=%p", n, (void *)s)); return; }
		string L = n ? string(s, n) : string(); free(s); bool as = cat & RE_LITERAL_ANCHOR_START, ae = cat & RE_LITERAL_ANCHOR_END;
		auto lang = [&](const string &x, bool opt) { vector<ReP> v; if (!as) v.push_back(any_star()); v.push_back(re_str(x)); if (opt) v.push_back(re_rep(re_set(Sym::one('\n')), 0, 1)); if (!ae) v.push_back(any_star()); return re_subjects(re_cat(v), true, true); };
		c.eval(); c.count("literal-languages"); int v = same_behaviour(got, lang(L, false), OUT_END, &w, 5000); bool strict = d == RE_PCRE && t.find('$') == string::npos && t.find("\\Z") == string::npos;
		// a newline at the end of a literal anchored there stands for the one that PCRE's $ may match before
		if (v == 0 && ae && !strict && d == RE_PCRE && !L.empty() && L.back() == '\n') { string w2; v = same_behaviour(got, lang(L.substr(0, L.size() - 1), true), OUT_END, &w2, 5000); if (v == 0) w = w2; }
		if (v < 0) c.unsure("budget"); if (v == 0) c.violation("literal:language", desc + fmt(" is reported as the literal %s%s%s, but they differ on %s", esc(L).c_str(), as ? " anchored at the start" : "", ae ? " anchored at the end" : "", esc(w).c_str()));
		c.nontrivial(mix(hash_str(t), flags * 8 + d)); c.sample(desc + " is the literal " + esc(L));
	}
	if (an != RE_IS_ANCHORED_ERROR && an != RE_IS_ANCHORED_NONE && e) {
		bool anch = (d != RE_NATIVE && d != RE_PCRE) || (flags & RE_ANCHORED); if (anch) { c.count("anchored-trivially"); return; }
		Auto m = re_subjects(e, false, false); if (same_behaviour(got, m, OUT_END, &w, 6000) != 1) { c.count("anchored-not-modelled"); return; } // what it compiles to is C01's and C02's matter
		if (an & RE_IS_ANCHORED_START) { c.eval(); c.count("anchored-start-languages"); Auto q = re_subjects(e, true, false); if (same_behaviour(m, q, OUT_END, &w, 6000) == 0) c.violation("anchored:start", desc + " is reported anchored at the start, but matches " + esc(w) + " elsewhere"); }
		if (an & RE_IS_ANCHORED_END) { c.eval(); c.count("anchored-end-languages"); Auto q = re_subjects(re_cat({e, re_leaf(d == RE_PCRE ? Re::ENDNL : Re::END)}), false, false); if (same_behaviour(m, q, OUT_END, &w, 6000) == 0) c.violation("anchored:end", desc + " is reported anchored at the end, but matches before the end of " + esc(w)); }
		c.nontrivial(mix(hash_str(t), flags * 8 + d));
	}
}
