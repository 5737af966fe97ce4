// C01: compiled PCRE-dialect patterns against a reference meaning and against the PCRE engine itself.
#define VF_MAIN
#include "common.hpp"
#include "remodel.hpp"
extern "C" {
#include <re/re.h>
}
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
const char *harness_name = "c01";
struct Pcre {
	pcre2_code *code = NULL; pcre2_match_data *md = NULL; pcre2_match_context *mc = NULL; pcre2_compile_context *cc = NULL; int err = 0;
	Pcre(const string &p, unsigned flags) {
		cc = pcre2_compile_context_create(NULL); pcre2_set_newline(cc, PCRE2_NEWLINE_LF); pcre2_set_bsr(cc, PCRE2_BSR_UNICODE);
		uint32_t o = PCRE2_NO_AUTO_POSSESS | PCRE2_NO_START_OPTIMIZE | PCRE2_NO_DOTSTAR_ANCHOR; if (flags & RE_ICASE) o |= PCRE2_CASELESS; if (flags & RE_SINGLE) o |= PCRE2_DOTALL; if (flags & RE_EXTENDED) o |= PCRE2_EXTENDED; if (flags & RE_ANCHORED) o |= PCRE2_ANCHORED | PCRE2_ENDANCHORED;
		PCRE2_SIZE off; code = pcre2_compile((PCRE2_SPTR)p.data(), p.size(), o, &err, &off, cc);
		if (code) { md = pcre2_match_data_create_from_pattern(code, NULL); mc = pcre2_match_context_create(NULL); pcre2_set_match_limit(mc, 100000); pcre2_set_depth_limit(mc, 20000); }
	}
	int match(const string &s) { int rc = pcre2_match(code, (PCRE2_SPTR)s.data(), s.size(), 0, 0, md, mc); return rc >= 0 ? 1 : rc == PCRE2_ERROR_NOMATCH ? 0 : -1; }
	~Pcre() { if (md) pcre2_match_data_free(md); if (mc) pcre2_match_context_free(mc); if (code) pcre2_code_free(code); pcre2_compile_context_free(cc); }
};
#include "pcregen.hpp"
static string err_name(enum re_errno e) { return re_strerror(e); }
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx));
	unsigned flags = 0; if (r.chance(20)) flags |= RE_ICASE; if (r.chance(20)) flags |= RE_SINGLE; if (r.chance(20)) flags |= RE_EXTENDED; if (r.chance(8)) flags |= RE_ANCHORED;
	bool modelled = r.chance(75); string t; ReP e;
	if (modelled) { Gen g(r, flags); e = g.alts(3); t = g.t; if (re_size(e) > 600) modelled = false; } else t = soup(r);
	if ((flags & RE_EXTENDED) || t.find("(?") != string::npos) for (char &ch : t) if (ch == '\x85') ch = '\x84'; // PCRE skips NEL bytes in extended mode, where libre keeps them
	Pcre p(t, flags); string desc = "pattern " + esc(t) + (flags ? fmt(" flags 0x%x", flags) : "");
	struct re_err err; memset(&err, 0, sizeof err); StrSrc src{&t, 0}; CountAlloc al; const struct fsm_alloc *ap = r.chance(10) ? &al.fa : NULL;
	if (t.find('\0') != string::npos) { c.count("nul-in-text"); return; }
	struct fsm *f = re_comp(RE_PCRE, str_getc, &src, ap, (enum re_flags)flags, &err);
	if (!f) { c.count("refused:" + err_name(err.e)); if (p.code) c.count(modelled ? "refused-though-valid-modelled" : "refused-though-valid"); if (c.replay) fprintf(stderr, "refused %s: %s\n", desc.c_str(), re_strerror(err.e)); return; }
	if (!p.code) { c.count(modelled ? "pcre-refuses-modelled" : "pcre-refuses"); if (c.replay) { char b[200]; pcre2_get_error_message(p.err, (PCRE2_UCHAR *)b, sizeof b); fprintf(stderr, "PCRE refuses %s: %s\n", desc.c_str(), b); } fsm_free(f); return; }
	c.eval(); c.count(modelled ? "patterns-modelled" : "patterns-soup");
	Auto got = snapshot(f); Auto m; bool stop = false; string alt = t; bool bsr = false; // \R is an atomic group in PCRE
	for (size_t i = 0; i + 1 < alt.size(); i++) if (alt[i] == '\\') { if (alt[i + 1] == 'R') { bool incls = false; (void)incls; string n = "(?:\\r\\n|[\\n\\x0b\\f\\r\\x85])"; alt = alt.substr(0, i) + n + alt.substr(i + 2); i += n.size() - 1; bsr = true; } else i++; }
	std::unique_ptr<Pcre> p2; if (bsr) p2.reset(new Pcre(alt, flags));
	auto judge = [&](const string &w, const char *how) { // does the automaton agree with PCRE about w?
		int x = p.match(w); if (x < 0) { c.unsure("pcre-limit"); return true; } c.count("pcre-verdicts"); if (x) c.count("pcre-matches");
		bool y = model_run(got, w, OUT_END).end; if ((x == 1) == y) return true;
		if (stop) return false; stop = true;
		string key = "language"; bool nl = !w.empty() && w.back() == '\n';
		bool dollar = t.find('$') != string::npos || t.find("\\Z") != string::npos, strict = t.find("\\z") != string::npos, start = t.find('^') != string::npos || t.find("\\A") != string::npos;
		if (bsr && p2->code && p2->match(w) == (int)y) key = "bsr-atomic";
		else if (dollar && strict && nl && y && !x) key = "mixed-end-anchors"; // $ then \z with only optional things between
		else if ((flags & RE_ANCHORED) && dollar && nl && !y && x) key = "anchored-flag-newline"; // $\n? under RE_ANCHORED
		else if ((flags & RE_ANCHORED) && (dollar || strict || start) && y && !x) key = "anchored-flag-repeat"; // (^a|)* under RE_ANCHORED
		else { size_t a = std::min(t.find('$'), std::min(t.find("\\z"), t.find("\\Z"))), b = t.rfind('^'), b2 = t.rfind("\\A"); bool out = (b != string::npos && b > a) || (b2 != string::npos && b2 > a);
			if (out && y && !x) key = "start-anchor-after-end-anchor"; } // ($|a)(^|a)b
		c.violation(key, fmt("%s on subject %s: the automaton %s, PCRE %s (%s)", desc.c_str(), esc(w).c_str(), y ? "accepts" : "rejects", x ? "matches" : "does not match", how)); return false;
	};
	if (modelled) { m = re_subjects(e, flags & RE_ANCHORED, flags & RE_ANCHORED); string wit; size_t ex = 0; int v = same_behaviour(got, m, OUT_END, &wit, 6000, &ex); c.count("product-states", ex);
		if (v < 0) c.unsure("budget"); else if (v == 1) c.count("exact"); else if (judge(wit, "product witness")) { c.unsure("model"); if (c.replay) fprintf(stderr, "MODEL wrong for %s on %s (model %s): %s\n", desc.c_str(), esc(wit).c_str(), v ? "" : "differs", re_text(e).c_str()); } }
	Dfa d; bool small = model_dfa(got, OUT_END, d, 300, 20000); if (small) { for (auto &w : covering_strings(d, r, c.thorough() ? 1000 : 250)) if (!judge(w, "covering")) break; }
	for (int i = 0; i < 12; i++) { string w = random_string(r, modelled && r.chance(50) ? m : got, 16); if (r.chance(20)) w = random_string(r, got, 4) + w; if (r.chance(15)) w += "\n"; if (!judge(w, "random")) break; }
	if (r.chance(15) && small && d.n() < 200) { if (!fsm_determinise(f)) abort(); if (r.chance(50) && !fsm_minimise(f)) abort(); for (int i = 0; i < 6; i++) { string w = random_string(r, got, 12); fsm_state_t s; bool x = exec(f, w, &s) == 1; c.count("executions"); if (x != model_run(got, w, OUT_END).end) c.violation("exec", desc + " executed on " + esc(w)); } }
	fsm_free(f); if (ap && (!al.live.empty() || al.foreign)) c.violation("alloc", "blocks left or foreign: " + desc);
	if (d.n() >= 2) { c.nontrivial(mix(hash_str(t), flags)); if (modelled) c.sample(desc); }
}
