// random valid patterns of the native, SQL, glob, LIKE and literal dialects, with their meaning (see remodel.hpp)
#pragma once
struct DGen {
	Rng &r; enum re_dialect d; string t; bool ic, dot; int budget; unsigned base; int alpha; bool anchors; int twist = -1; unsigned twist_by = 0; // the decision to differ from a twin in
	bool tw() { return twist >= 0 && twist-- == 0; }
	DGen(Rng &r_, enum re_dialect d_, unsigned fl) : r(r_), d(d_) { ic = fl & RE_ICASE; dot = d != RE_NATIVE || (fl & RE_SINGLE); budget = r.chance(10) ? 25 : r.range(1, 12); base = r.pick(vector<unsigned>{'a', 'a', 'a', 'Y', '0', 'x', 0x7e, 0xfd, 8, 0x1e}); alpha = r.chance(50) ? 2 : r.range(1, 6); anchors = r.chance(55); }
	unsigned chr() { unsigned c = chr1(); if (tw()) c ^= twist_by; return c; }
	unsigned chr1() { if (r.chance(6)) return '\n'; if (r.chance(5)) return r.below(256); if (r.chance(8)) { static const char m[] = "\\^$.[]|()?*+{}-#/ \t\r,:<>!=_\"'&~`%@;"; return (unsigned char)m[r.below(sizeof m - 1)]; } unsigned c = (base + r.below(alpha)) & 255; if (r.chance(10) && is_alpha(c)) c ^= 32; return c; }
	Sym sym(unsigned c) { Sym s = Sym::one(c); return ic ? fold(s) : s; }
	Sym dotset() { return dot ? Sym::all() : ~Sym::one('\n'); }
	// a character outside a class; false: the dialect has no spelling for it
	bool spell(unsigned c) {
		if (d == RE_NATIVE) {
			static const char ec[] = "\f\n\r\t\v", en[] = "fnrtv"; const char *p = c ? strchr(ec, (int)c) : NULL;
			if (p && r.chance(50)) { t += fmt("\\%c", en[p - ec]); return true; }
			bool meta = c && strchr("\\^$?*+.|()[{", (int)c);
			if (meta && r.chance(75)) { t += fmt("\\%c", c); return true; }
			if (meta || r.chance(10)) { if (r.chance(50)) t += fmt(r.chance(50) ? "\\x%02x" : "\\x%02X", c); else t += fmt("\\%03o", c); return true; }
			t += (char)c; return true;
		}
		if (d == RE_SQL && c && strchr("_%()?*+|[]{}", (int)c)) return false;
		if (d == RE_LIKE && (c == '_' || c == '%')) return false; if (d == RE_GLOB && (c == '?' || c == '*')) return false;
		t += (char)c; return true;
	}
	ReP lit() { unsigned c = chr(); while (!spell(c)) c = chr(); return re_set(sym(c)); }
	ReP flat() { vector<ReP> v; int n = r.chance(5) ? 0 : r.range(0, 10); for (int i = 0; i < n; i++) { int k = d == RE_LITERAL ? 9 : (int)r.below(10); if (k < 2) { t += d == RE_GLOB ? '?' : '_'; v.push_back(re_set(Sym::all())); } else if (k < 4) { t += d == RE_GLOB ? '*' : '%'; v.push_back(re_rep(re_set(Sym::all()), 0, -1)); } else v.push_back(lit()); } return re_cat(v); }
	bool oct = false; // an octal escape in a class takes every following digit
	string cls_char(unsigned c) { if (c >= '0' && c <= '7' && !t.empty() && t.size() > 3 && is_digit((unsigned char)t.back()) && t[t.size() - 4] == '\\') return fmt("\\x%02x", c); // native class member, c is not special there or is spelt with an escape
		static const char ec[] = "\f\n\r\t\v", en[] = "fnrtv"; const char *p = c ? strchr(ec, (int)c) : NULL;
		if (p && r.chance(50)) return fmt("\\%c", en[p - ec]);
		if (c && strchr("\\^-[]", (int)c) && (c == '\\' || c == '-' || c == ']' || c == '[' || r.chance(50))) return fmt("\\%c", c);
		if (r.chance(12)) { oct = r.chance(50); return oct ? fmt("\\%03o", c) : fmt("\\x%02x", c); }
		return string(1, (char)c);
	}
	ReP native_class() {
		Sym s; bool neg = r.chance(35) != tw(); t += neg ? "[^" : "["; int n = r.range(1, 4); bool any = false;
		if (r.chance(8)) { t += "]"; s.set(']'); any = true; if (r.chance(20)) { unsigned hi = r.range(']', 'z'); t += "-" + cls_char(hi); s = s | Sym::range(']', hi); } }
		else if (r.chance(8)) { t += "-"; any = true; if (r.chance(25)) { unsigned hi = r.range('-', 'z'); t += "-" + cls_char(hi); s = s | Sym::range('-', hi); } else s.set('-'); n = r.range(1, 3); }
		for (int i = 0; i < n; i++) switch (r.weighted({55, 25, 15})) {
			case 0: { unsigned c = chr(); if (c == '^' && !any) c = 'q'; t += cls_char(c); s.set(c); any = true; break; }
			case 1: { unsigned a = chr(), b = r.chance(60) ? (a + r.below(6)) & 255 : r.below(256); if (a > b) std::swap(a, b); if (a == '^' && !any) t += "\\^"; else t += cls_char(a); t += "-" + cls_char(b); s = s | Sym::range(a, b); any = true; break; }
			case 2: { static const struct { const char *n; bool (*f)(unsigned); } extra[] = {{"hspace", is_blank}, {"vspace", [](unsigned c) { return c >= 10 && c <= 13; }}}; int k = r.below(16); if (k < 14 && !strcmp(posix_classes[k].name, "blank")) k = 14; const char *nm = k < 14 ? posix_classes[k].name : extra[k - 14].n; t += string("[:") + nm + ":]"; s = s | sym_if(k < 14 ? posix_classes[k].f : extra[k - 14].f); any = true; break; } }
		if (r.chance(8)) { t += "-"; s.set('-'); }
		t += "]"; if (ic) s = fold(s); return re_set(neg ? ~s : s);
	}
	unsigned sql_cc() { unsigned c; do c = chr(); while (c && strchr("^-]", (int)c)); if (c == '[') return 'w'; return c; }
	Sym sql_terms(bool head) {
		Sym s; bool neg = false; if (head) switch (r.below(8)) { case 0: case 1: t += "^"; neg = true; break; case 2: t += "-"; s.set('-'); break; default:; }
		int n = r.range(1, 4); for (int i = 0; i < n; i++) switch (r.weighted({55, 25, 15})) {
			case 0: { unsigned c = sql_cc(); t += (char)c; s.set(c); break; }
			case 1: { unsigned a = sql_cc(), b = sql_cc(); if (a > b) std::swap(a, b); t += (char)a; t += "-"; t += (char)b; s = s | Sym::range(a, b); break; }
			case 2: { static const struct { const char *n; bool (*f)(unsigned); } k[] = {{"ALNUM", is_alnum}, {"ALPHA", is_alpha}, {"DIGIT", is_digit}, {"LOWER", is_lower}, {"SPACE", [](unsigned c) { return c == ' '; }}, {"UPPER", is_upper}, {"WHITESPACE", is_space}}; auto &x = k[r.below(7)]; t += string("[:") + x.n + ":]"; s = s | sym_if(x.f); break; } }
		if (ic) s = fold(s); return neg ? ~s : s;
	}
	ReP sql_class() { t += "["; Sym s = sql_terms(true); if (r.chance(25)) { t += "^"; s = s & ~sql_terms(false); } t += "]"; return s.any() ? re_set(s) : re_leaf(Re::NEVER); }
	bool zero = false;
	ReP atom(int depth) {
		budget--; zero = false;
		switch (r.weighted({45, 10, 15, depth > 0 ? 24u : 0u, d == RE_NATIVE ? (anchors ? 14u : 0u) : 8u})) {
		case 0: return lit();
		case 1: t += d == RE_NATIVE ? '.' : '_'; return re_set(dotset());
		case 2: return d == RE_NATIVE ? native_class() : sql_class();
		case 3: { t += "("; ReP e; if (d == RE_NATIVE && r.chance(5)) e = re_leaf(Re::EMPTY); else e = alts(depth - 1); t += ")"; zero = false; return e; }
		default: if (d == RE_SQL) { t += "%"; return re_rep(re_set(Sym::all()), 0, -1); } zero = true; if (r.chance(50)) { t += "^"; return re_leaf(Re::START); } t += "$"; return re_leaf(Re::END);
		}
	}
	int num() { int n = r.chance(90) ? (int)r.below(4) : r.range(4, 12); if (tw()) n += 1 + twist_by % 3; return n; }
	ReP piece(int depth) {
		string before = t; ReP e = atom(depth); if (zero || !r.chance(32)) return e;
		e = quant(e); while (r.chance(8) && (d == RE_NATIVE || d == RE_SQL)) { t = before + "(" + t.substr(before.size()) + ")"; e = quant(e); } return e;
	}
	ReP quant(ReP e) {
		switch (r.below(5)) { case 0: t += "*"; return re_rep(e, 0, -1); case 1: t += "+"; return re_rep(e, 1, -1); case 2: t += "?"; return re_rep(e, 0, 1); case 3: { int m = num(); t += fmt("{%d}", m); return re_rep(e, m, m); } default: { int m = num(), n = m + (int)r.below(4); t += fmt("{%d,%d}", m, n); return re_rep(e, m, n); } }
	}
	ReP seq(int depth) { vector<ReP> v; int n = r.range(d == RE_SQL && r.chance(15) ? 0 : 1, 4); for (int i = 0; i < n && (i == 0 || budget > 0); i++) v.push_back(piece(depth)); return re_cat(v); }
	ReP alts(int depth) { vector<ReP> v; int n = r.chance(60) ? 1 : r.range(2, 3); for (int i = 0; i < n; i++) { if (i) t += "|"; int b0 = budget; Rng r0 = r; v.push_back(seq(depth)); if (r.chance(10) && twist < 0) { // and the same again, but for one thing
			int at = r.below(6); static const unsigned by[] = {1, 2, 3, 32, 128, 1, 32}; twist = at; twist_by = by[r.below(7)]; Rng r1 = r; int b1 = budget; r = r0; budget = b0; t += "|"; v.push_back(seq(depth)); r = r1; budget = b1; twist = -1; } } return re_alt(v); }
	ReP top() { if (d == RE_GLOB || d == RE_LIKE || d == RE_LITERAL) return flat(); if (d == RE_NATIVE && r.chance(2)) return re_leaf(Re::EMPTY); return alts(3); }
};
