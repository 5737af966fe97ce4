// C17: patterns of every dialect, and automata, rendered as PCRE text and read back.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
extern "C" {
#include <re/re.h>
#include <fsm/options.h>
struct ast; enum ast_print_lang_ { P_NONE, P_ABNF, P_DOT, P_PCRE, P_TREE };
struct ast *re_parse(enum re_dialect, int (*)(void *), void *, enum re_flags, struct re_err *, int *);
struct ast *ast_new_from_fsm(const struct fsm *); void ast_free(struct ast *);
void ast_print_pcre(FILE *, const struct fsm_options *, enum re_flags, const struct ast *); void ast_print_tree(FILE *, const struct fsm_options *, enum re_flags, const struct ast *);
void ast_print_dot(FILE *, const struct fsm_options *, enum re_flags, const struct ast *); void ast_print_abnf(FILE *, const struct fsm_options *, enum re_flags, const struct ast *);
}
#include "pcregen.hpp"
#include "dialectgen.hpp"
const char *harness_name = "c17";
static const char *names[] = {"like", "literal", "glob", "native", "sql", "pcre"};
static string rendered(const struct ast *a, unsigned flags, bool hex) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); if (!f) abort(); struct fsm_options o; memset(&o, 0, sizeof o); o.always_hex = hex; ast_print_pcre(f, &o, (enum re_flags)flags, a); fclose(f); string s(b, n); free(b); return s; }
static void others(const struct ast *a, unsigned flags, Rng &r) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); if (!f) abort(); struct fsm_options o; memset(&o, 0, sizeof o); o.always_hex = r.below(2); int k = r.below(3); if (k == 0) ast_print_tree(f, &o, (enum re_flags)flags, a); else if (k == 1) ast_print_abnf(f, &o, (enum re_flags)flags, a); else ast_print_dot(f, &o, (enum re_flags)flags, a); fclose(f); free(b); }
static struct fsm *comp(enum re_dialect d, const string &t, unsigned flags, struct re_err *e) { StrSrc s{&t, 0}; memset(e, 0, sizeof *e); return re_comp(d, str_getc, &s, nullptr, (enum re_flags)flags, e); }
static bool chop(Ctx &c, string &p, const string &desc) { if (p.empty() || p.back() != '\n') { c.violation("text:end", desc + " prints as " + esc(p)); return false; } p.pop_back(); return true; }
static bool anchored(const ReP &e) { if (e->k == Re::START || e->k == Re::END || e->k == Re::ENDNL) return true; for (auto &x : e->c) if (anchored(x)) return true; return false; }
/* option settings which begin and end in the middle of groups */
static string flagseq(Rng &r, int depth) { string t; int n = r.range(1, 4); for (int i = 0; i < n; i++) { switch (r.below(depth > 0 ? 8 : 5)) { case 0: t += "(?i)"; break; case 1: t += "(?-i)"; break; case 2: t += r.below(2) ? "(?s)" : "(?-s)"; break; case 3: t += r.below(3) ? "." : "[b-d]"; break; case 4: t += r.pick(vector<string>{"a", "b", "c", "A", "|b", "[^a]"}); break; case 5: case 6: t += "(" + flagseq(r, depth - 1) + ")"; break; default: t += r.pick(vector<string>{"(?:", "(?i:", "(?-i:", "(?s:"}) + flagseq(r, depth - 1) + ")"; } } return t; }
static void pattern(Ctx &c, Rng &r) {
	enum re_dialect d = r.pick(vector<enum re_dialect>{RE_PCRE, RE_PCRE, RE_PCRE, RE_PCRE, RE_PCRE, RE_NATIVE, RE_NATIVE, RE_NATIVE, RE_SQL, RE_SQL, RE_GLOB, RE_LIKE, RE_LITERAL});
	unsigned flags = 0; if (r.chance(20)) flags |= RE_ICASE; if (r.chance(20)) flags |= RE_SINGLE; if (r.chance(12)) flags |= RE_ANCHORED; if (d == RE_PCRE && r.chance(12)) flags |= RE_EXTENDED; if (r.chance(5)) flags |= RE_END_NL; if (r.chance(5)) flags |= RE_REVERSE; if (r.chance(4)) flags |= RE_TEXT; if (r.chance(4)) flags |= RE_MULTI; if (r.chance(4)) flags |= RE_ZONE;
	string t; if (d == RE_PCRE) { if (r.chance(15)) { t = soup(r); flags &= ~RE_ANCHORED; } else if (r.chance(12)) t = flagseq(r, 2); else { Gen g(r, flags); ReP e = g.alts(3); t = g.t; if (re_size(e) > 400) return; if (anchored(e)) flags &= ~RE_ANCHORED; /* a finding of C01 and C02 */ } } else { DGen g(r, d, flags); ReP e = g.top(); t = g.t; if (re_size(e) > 400) return; if (anchored(e)) flags &= ~RE_ANCHORED; /* a finding of C01 and C02 */ }
	if (d == RE_PCRE && t.find('\0') != string::npos) { c.count("nul-in-text"); return; }
	string desc = string(names[d]) + " pattern " + esc(t) + fmt(" flags 0x%x", flags); if (c.replay) fprintf(stderr, "%s\n", desc.c_str());
	struct re_err e1, e2, e3; struct fsm *f = comp(d, t, flags, &e1); StrSrc s{&t, 0}; memset(&e2, 0, sizeof e2); struct ast *a = re_parse(d, str_getc, &s, (enum re_flags)flags, &e2, nullptr);
	c.eval(); if (!f) { if (a) ast_free(a); c.count("refused"); return; } if (!a) { c.violation("parse", desc + " compiles, but re_parse says " + re_strerror(e2.e)); fsm_free(f); return; }
	if (r.chance(25)) others(a, flags, r); string p = rendered(a, flags, r.chance(15)); ast_free(a); Auto m = snapshot(f); fsm_free(f); desc += " prints as " + esc(p); if (!chop(c, p, desc)) return; if (c.replay) fprintf(stderr, "%s\n", esc(p).c_str());
	struct fsm *g = comp(RE_PCRE, p, flags & ~RE_EXTENDED | (d == RE_PCRE || d == RE_NATIVE ? 0 : RE_ANCHORED), &e3); if (!g) { c.violation(e3.e == RE_EUNSUPPORTED && p.find_first_of("^$z") != string::npos ? string("unsupported-anchor") : fmt("refused:%d", (int)e3.e), desc + ", which is refused: " + re_strerror(e3.e)); return; }
	Auto q = snapshot(g); fsm_free(g); string w; int v = same_behaviour(m, q, OUT_END, &w, 6000); if (v < 0) { c.unsure("budget"); return; }
	if (v == 0) { size_t e0 = std::min(t.find('$'), std::min(t.find("\\Z"), t.find("\\z"))), s0 = t.rfind('^'), s1 = t.rfind("\\A"); s0 = s0 == string::npos ? s1 : s1 == string::npos ? s0 : std::max(s0, s1); bool known = (d == RE_PCRE || d == RE_NATIVE) && e0 != string::npos && s0 != string::npos && e0 < s0 && model_run(m, w, OUT_END).end && !model_run(q, w, OUT_END).end; /* a finding of C01: the pattern itself matches too much */
		bool mixed = d == RE_PCRE && (t.find('$') != string::npos || t.find("\\Z") != string::npos) && t.find("\\z") != string::npos && !w.empty() && w.back() == '\n' && model_run(m, w, OUT_END).end && !model_run(q, w, OUT_END).end; /* likewise */
		c.violation(mixed ? string("mixed-end-anchors") : known ? string("start-anchor-after-end-anchor") : string("language:") + names[d], desc + ", which differs on " + esc(w)); } else { c.count(string("same:") + names[d]); if (p != t) c.count("text differs"); c.nontrivial(mix(hash_str(t), flags * 8 + d)); c.sample(desc); }
}
static void automaton(Ctx &c, Rng &r) {
	Auto m; GenOpt g; g.maxn = r.chance(70) ? 5 : 9; g.dfa = r.chance(40); g.eps = !g.dfa; m = random_auto(r, g); Dfa md; if (!model_dfa(m, OUT_END, md, 60)) { c.count("skipped"); return; }
	struct fsm *f = build(m, nullptr, &r); struct ast *a = ast_new_from_fsm(f); c.eval(); if (!a) { c.violation("from-fsm", "ast_new_from_fsm failed"); fsm_free(f); return; }
	unsigned pf = (r.chance(15) ? RE_ICASE : 0) | (r.chance(15) ? RE_SINGLE : 0); if (r.chance(10)) others(a, pf, r); string p = rendered(a, pf, r.chance(15)); ast_free(a); Auto s = snapshot(f); fsm_free(f); string desc = fmt("an automaton of %d states gives ", m.n()) + esc(p.substr(0, 3000)); if (!chop(c, p, desc)) return; if (c.replay) fprintf(stderr, "%s\n", desc.c_str());
	if (p.size() > 40000) { c.count("long"); return; } struct re_err e; struct fsm *h = comp(RE_PCRE, "^(?:" + p + ")\\z", pf, &e); if (!h) { c.violation(fmt("from-fsm:refused:%d", (int)e.e), desc + ", which is refused: " + re_strerror(e.e)); return; }
	Auto q = snapshot(h); fsm_free(h); string w; int v = same_behaviour(m, q, OUT_END, &w, 6000); if (v < 0) { c.unsure("budget"); return; } if (v == 0) c.violation("from-fsm:language", desc + ", which differs on " + esc(w)); else { c.count("same:automaton"); c.nontrivial(s.hash()); }
}
void run_case(Ctx &c, u64 idx) { Rng r(mix(c.seed * 1000003 + 17, idx)); for (int k = 0; k < 20; k++) { if (r.chance(75)) pattern(c, r); else automaton(c, r); } }
