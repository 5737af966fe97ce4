// random patterns of the PCRE dialect, with their meaning (see remodel.hpp), and token mixtures
#pragma once
struct Gen { // pattern text together with its meaning
	Rng &r; string t; bool ic, dot, ext; int names = 0; int budget; unsigned base; int alpha; bool anchors; int twist = -1; unsigned twist_by = 0; // the decision to differ from a twin in
	bool tw() { return twist >= 0 && twist-- == 0; }
	Gen(Rng &r_, unsigned fl) : r(r_), ic(fl & RE_ICASE), dot(fl & RE_SINGLE), ext(fl & RE_EXTENDED) { budget = r.chance(10) ? 25 : r.range(1, 12); base = r.pick(vector<unsigned>{'a', 'a', 'a', 'Y', '0', 'x', 0x7e, 0xfd, 8, 0x1e}); alpha = r.chance(50) ? 2 : r.range(1, 6); anchors = r.chance(55); }
	unsigned chr() { unsigned c = chr1(); if (tw()) c ^= twist_by; return c; }
	unsigned chr1() { if (r.chance(8)) return '\n'; if (r.chance(5)) return r.below(256); if (r.chance(4)) { static const char m[] = "\\^$.[]|()?*+{}-#/ \t\r,:<>!=_\"'&~`%@;"; return (unsigned char)m[r.below(sizeof m - 1)]; } unsigned c = (base + r.below(alpha)) & 255; if (r.chance(10) && is_alpha(c)) c ^= 32; return c; }
	static bool meta(unsigned c) { return c && strchr("\\^$.[|()?*+{", (int)c); }
	Sym sym(unsigned c) { Sym s = Sym::one(c); return ic ? fold(s) : s; }
	string numeric(unsigned c) { switch (r.below(6)) { case 0: return fmt(r.chance(50) ? "\\x%02x" : "\\x%02X", c); case 1: return fmt("\\x{%x}", c); case 2: return fmt("\\x{%04X}", c); case 3: return fmt("\\o{%o}", c); case 4: return c < 64 ? fmt("\\0%02o", c) : fmt("\\o{%03o}", c); default: return fmt("\\x%02x", c); } }
	string spell(unsigned c, bool cls) {
		static const char ec[] = "\f\n\r\t\a\033", en[] = "fnrtae";
		if (c == 0) return r.chance(30) ? "\\x{0}" : r.chance(50) ? "\\000" : "\\x00";
		const char *p = strchr(ec, (int)c); if (p && r.chance(60)) return fmt("\\%c", en[p - ec]);
		if (cls && c == 8 && r.chance(60)) return "\\b";
		if (!cls && (c < 32 || c == 127) && r.chance(30)) { unsigned x = c ^ 64; if (is_upper(x) && r.chance(50)) x |= 32; if (x != '\\') return fmt("\\c%c", x); }
		if (r.chance(12)) return numeric(c);
		bool special = cls ? c == '\\' || c == ']' || c == '-' || c == '[' || c == '^' || c == ':' : meta(c) || (ext && (is_space(c) || c == '#'));
		if (special || (c < 128 && !is_alnum(c) && !is_cntrl(c) && r.chance(10))) { if (c < 128 && !is_alnum(c) && !is_cntrl(c)) return fmt("\\%c", c); return numeric(c); }
		return string(1, (char)c);
	}
	void filler() { // things that mean nothing
		if (r.chance(4)) { t += "(?#"; int n = r.below(6); for (int i = 0; i < n; i++) t += "ab* \n[#]|?^"[r.below(11)]; t += ")"; }
		if (r.chance(2)) t += "\\E";
		if (ext && r.chance(35)) { int n = r.range(1, 3); for (int i = 0; i < n; i++) { if (r.chance(20)) { t += "#"; int k = r.below(6); for (int j = 0; j < k; j++) t += "a*)(|]\\#\r\v ."[r.below(13)]; t += "\n"; } else t += " \t\n\v\f\r"[r.below(6)]; } }
	}
	Sym named(string *name) { static const struct { const char *n; bool (*f)(unsigned); } k[] = {{"\\d", is_digit}, {"\\h", is_hspace}, {"\\s", is_space}, {"\\v", is_vspace}, {"\\w", is_word}}; auto &x = k[r.below(5)]; *name = x.n; Sym s = sym_if(x.f); if (r.chance(40) != tw()) { (*name)[1] = (char)((*name)[1] - 32); s = ~s; } return s; }
	ReP klass() {
		Sym s; bool neg = r.chance(35) != tw(); t += neg ? "[^" : "["; int n = r.range(1, 4); bool any = false;
		if (r.chance(8)) { t += "]"; s.set(']'); any = true; if (r.chance(20)) { t += "-"; unsigned hi = r.range(']', 'z'); t += spell(hi, true); s = s | Sym::range(']', hi); } } else if (r.chance(8)) { t += "-"; s.set('-'); any = true; n = r.below(4); }
		for (int i = 0; i < n; i++) switch (r.weighted({50, 25, 10, 10, 3})) {
			case 0: { unsigned c = chr(); t += spell(c, true); s.set(c); any = true; break; }
			case 1: { unsigned a = chr(), b = r.chance(60) ? (a + r.below(6)) & 255 : r.below(256); if (a > b) std::swap(a, b); t += spell(a, true) + "-" + spell(b, true); s = s | Sym::range(a, b); any = true; break; }
			case 2: { string nm; Sym y = named(&nm); t += nm; s = s | y; any = true; break; }
			case 3: { auto &p = posix_classes[r.below(14)]; t += string("[:") + p.name + ":]"; s = s | sym_if(p.f); any = true; break; }
			case 4: { t += "\\Q"; int k = r.below(4); for (int j = 0; j < k; j++) { unsigned c = "ab^[.z"[r.below(6)]; t += (char)c; s.set(c); any = true; } t += "\\E"; break; } }
		if (!any) { unsigned c = 'q'; t += "q"; s.set(c); }
		if (r.chance(8)) { t += "-"; s.set('-'); }
		t += "]"; if (ic) s = fold(s); return re_set(neg ? ~s : s);
	}
	ReP atom(int depth) {
		budget--;
		switch (r.weighted({45, 7, 8, 12, anchors ? 12u : 0u, depth > 0 ? 24u : 0u, 3, 2})) {
		case 0: { unsigned c = chr(); t += spell(c, false); return re_set(sym(c)); }
		case 1: t += "."; return re_set(dot ? Sym::all() : ~Sym::one('\n'));
		case 2: { if (r.chance(15)) { t += "\\N"; return re_set(~Sym::one('\n')); } string nm; Sym s = named(&nm); t += nm; return re_set(s); }
		case 3: return klass();
		case 4: return anchor();
		case 5: return group(depth);
		case 6: { t += "\\Q"; int n = r.range(1, 3); vector<ReP> v; for (int i = 0; i < n; i++) { unsigned c; do c = chr(); while (c == 0 || c == '\\'); t += (char)c; v.push_back(re_set(sym(c))); } t += "\\E"; last_q = v.size() > 1; return re_cat(v); }
		default: { // inline flags for the rest of the group
			int k = r.below(3); bool on = r.chance(60); t += on ? "(?" : "(?-"; t += "isx"[k]; (k == 0 ? ic : k == 1 ? dot : ext) = on; if (on && r.chance(20)) { int j = r.below(3); if (j != k) { t += "-"; t += "isx"[j]; (j == 0 ? ic : j == 1 ? dot : ext) = false; } } t += ")"; noq = true; return re_leaf(Re::EMPTY); }
		}
	}
	bool noq = false, last_q = false;
	ReP anchor() { noq = true; unsigned k = r.below(7); if (tw()) k = (k + twist_by) % 7; switch (k) { case 0: case 1: t += "^"; return re_leaf(Re::START); case 2: t += "\\A"; return re_leaf(Re::START); case 3: t += "\\z"; return re_leaf(Re::END); case 4: t += "\\Z"; return re_leaf(Re::ENDNL); default: t += "$"; return re_leaf(Re::ENDNL); } }
	ReP group(int depth) {
		bool i0 = ic, d0 = dot, e0 = ext; ReP e;
		switch (r.below(6)) { case 0: case 1: t += "("; break; case 2: case 3: t += "(?:"; break; case 4: t += fmt("(?<n%d>", names++); break; default: { int k = r.below(3); bool on = r.chance(60); t += on ? "(?" : "(?-"; t += "isx"[k]; (k == 0 ? ic : k == 1 ? dot : ext) = on; t += ":"; } }
		e = alts(depth - 1); t += ")"; ic = i0; dot = d0; ext = e0; noq = false; return e;
	}
	ReP quant(ReP e) {
		int mn = 0, mx = -1; unsigned k = r.below(7); if (tw()) k = (k + twist_by) % 7; switch (k) { case 0: t += "*"; break; case 1: t += "+"; mn = 1; break; case 2: t += "?"; mx = 1; break; case 3: mn = mx = num(); t += fmt("{%d}", mn); break; case 4: mn = num(); t += fmt("{%d,}", mn); break; case 5: mn = num(); mx = mn + r.below(3); t += fmt("{%d,%d}", mn, mx); break; default: mn = r.below(3); mx = mn + num(); t += fmt("{%d,%d}", mn, mx); }
		return re_rep(e, mn, mx);
	}
	ReP piece(int depth) {
		noq = last_q = false; string before = t; ReP e = atom(depth); bool seq = last_q; 
		if (noq) return e;
		if (!r.chance(32)) return e;
		if (r.chance(20)) filler();
		ReP target = e; vector<ReP> head; if (seq && e->k == Re::CAT) { head.assign(e->c.begin(), e->c.end() - 1); target = e->c.back(); }
		ReP q = quant(target); while (r.chance(9) && head.empty() && budget > 0) { budget--; t = before + "(?:" + t.substr(before.size()) + ")"; q = quant(q); }
		if (head.empty()) return q; head.push_back(q); return re_cat(head);
	}
	int num() { int n = r.chance(90) ? (int)r.below(4) : r.range(4, 12); if (tw()) n += 1 + twist_by % 3; return n; }
	ReP seq(int depth) { vector<ReP> v; int n = r.weighted({8, 30, 30, 20, 12}); for (int i = 0; i < n && budget > 0; i++) { filler(); v.push_back(piece(depth)); } filler(); return re_cat(v); }
	ReP alts(int depth) { vector<ReP> v; int n = r.chance(60) ? 1 : r.range(2, 3); for (int i = 0; i < n; i++) { if (i) t += "|"; int b0 = budget; Rng r0 = r; v.push_back(seq(depth)); if (r.chance(10) && twist < 0) { // and the same again, but for one thing
			int nt = r.range(1, 2); for (int k = 0; k < nt; k++) { Rng r1 = r; int b1 = budget; int at = r.below(6); static const unsigned by[] = {1, 2, 3, 32, 128, 1, 32}; twist = at; twist_by = by[r.below(7)]; r1 = r; r = r0; budget = b0; t += "|"; v.push_back(seq(depth)); r = r1; budget = b1; twist = -1; } } } return re_alt(v); }
};
static string soup(Rng &r) {
	static const char *tok[] = {"a", "b", "A", "c", "\n", "0", ".", "^", "$", "\\A", "\\z", "\\Z", "|", "|", "(", ")", "(", ")", "(?:", "(?i)", "(?-i)", "(?s)", "(?x)", "(?i:", "(?s-i:", "(?<n>", "*", "+", "?", "{2}", "{0,1}", "{0}", "{1,}", "[ab]", "[^a]", "[a-c]", "[^\\n]", "\\d", "\\w", "\\s", "\\N", "\\R", "\\R", "[[:alpha:]]", "[[:^digit:]]", "[]a]", "[^]]", "[-a]", "[a-]", "[]-a]", "[--a]", "[\\d-]", "[+--]", "\\Qa*\\E", "\\E", " ", "#", "#x\n", "(?#c)", "\\cA", "\\c[", "\\x41", "\\x4", "\\x", "\\0", "\\012", "\\o{101}", "\\x{61}", "\\-", "\\}", "\\]", "]", "}", "\\ ", "\\#", "\\/", ",", "-", "[\\Qa-\\E]", "[\\b]", "[a\\-z]", "[\\w-a]", "[.-/]", "[ #]", "[[a]", "[[:a]", "[a[:digit:]b]", "[:alpha:]", "\\h", "\\v", "()", "(|a)", "(a|)", "(?:)", "\r", "\\r", "\\n", "(^|a)", "($|a)", "(a$|b)", "(?:^)*", "(?:$)?", "(\\z)", "[^\\D]", "[\\D\\n]", "[\\x00-\\x7f]", "[!-~]"};
	string t; int n = r.range(1, 8); for (int i = 0; i < n; i++) t += tok[r.below(sizeof tok / sizeof *tok)];
	int open = 0; string o; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '\\' && i + 1 < t.size()) { i++; continue; } if (t[i] == '(') open++; if (t[i] == ')') open--; }
	while (open-- > 0) t += ")"; return t;
}
