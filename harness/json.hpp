// a small strict JSON reader; strings come out as code points
#pragma once
struct Json {
	enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; bool b = false; double n = 0; vector<u32> s; vector<Json> a; vector<std::pair<string, Json>> o;
	const Json *get(const char *k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
	int num(const char *k) const { auto *p = get(k); return p && p->t == NUM ? (int)p->n : -1; }
	string str() const { string r; for (u32 c : s) r += (char)c; return r; }
};
struct JsonReader {
	const string &x; size_t i = 0; string err;
	explicit JsonReader(const string &x_) : x(x_) {}
	void ws() { while (i < x.size() && strchr(" \t\r\n", x[i]) && x[i]) i++; }
	bool fail(const char *m) { if (err.empty()) err = fmt("%s at offset %zu near %s", m, i, esc(x.substr(i > 20 ? i - 20 : 0, 50)).c_str()); return false; }
	bool lit(const char *w) { size_t n = strlen(w); if (x.compare(i, n, w)) return fail("bad literal"); i += n; return true; }
	bool string_(vector<u32> &o) {
		if (i >= x.size() || x[i] != '"') return fail("expected a string"); i++;
		for (;;) {
			if (i >= x.size()) return fail("unterminated string");
			unsigned char c = x[i++]; if (c == '"') return true; if (c < 0x20) { i--; return fail("control character in a string"); }
			if (c != '\\') { if (c >= 0x80) { i--; return fail("byte above 0x7f in a string"); } o.push_back(c); continue; }
			if (i >= x.size()) return fail("unterminated escape");
			switch (x[i++]) { case '"': o.push_back('"'); break; case '\\': o.push_back('\\'); break; case '/': o.push_back('/'); break; case 'b': o.push_back(8); break; case 'f': o.push_back(12); break; case 'n': o.push_back(10); break; case 'r': o.push_back(13); break; case 't': o.push_back(9); break;
			case 'u': { u32 v = 0; for (int k = 0; k < 4; k++) { if (i >= x.size() || !isxdigit((unsigned char)x[i])) return fail("bad \\u escape"); char h = x[i++]; v = v * 16 + (isdigit((unsigned char)h) ? h - '0' : (h | 32) - 'a' + 10); } o.push_back(v); break; }
			default: i--; return fail("bad escape"); }
		}
	}
	bool value(Json &j, int depth = 0) {
		ws(); if (i >= x.size()) return fail("unexpected end"); if (depth > 50) return fail("too deep");
		char c = x[i];
		if (c == '{') { j.t = Json::OBJ; i++; ws(); if (i < x.size() && x[i] == '}') { i++; return true; }
			for (;;) { ws(); vector<u32> k; if (!string_(k)) return false; ws(); if (i >= x.size() || x[i] != ':') return fail("expected ':'"); i++; Json v; if (!value(v, depth + 1)) return false; string ks; for (u32 y : k) ks += (char)y; for (auto &p : j.o) if (p.first == ks) return fail("duplicate key"); j.o.push_back({ks, v}); ws(); if (i < x.size() && x[i] == ',') { i++; continue; } if (i < x.size() && x[i] == '}') { i++; return true; } return fail("expected ',' or '}'"); } }
		if (c == '[') { j.t = Json::ARR; i++; ws(); if (i < x.size() && x[i] == ']') { i++; return true; }
			for (;;) { j.a.emplace_back(); if (!value(j.a.back(), depth + 1)) return false; ws(); if (i < x.size() && x[i] == ',') { i++; continue; } if (i < x.size() && x[i] == ']') { i++; return true; } return fail("expected ',' or ']'"); } }
		if (c == '"') { j.t = Json::STR; return string_(j.s); }
		if (c == 't') { j.t = Json::BOOL; j.b = true; return lit("true"); }
		if (c == 'f') { j.t = Json::BOOL; return lit("false"); }
		if (c == 'n') return lit("null");
		j.t = Json::NUM; size_t st = i; if (i < x.size() && x[i] == '-') i++; if (i >= x.size() || !isdigit((unsigned char)x[i])) return fail("expected a value"); if (x[i] == '0' && i + 1 < x.size() && isdigit((unsigned char)x[i + 1])) return fail("leading zero"); while (i < x.size() && (isdigit((unsigned char)x[i]) || strchr(".eE+-", x[i]))) i++;
		j.n = atof(x.substr(st, i - st).c_str()); return true;
	}
	bool parse(Json &j) { if (!value(j)) return false; ws(); if (i != x.size()) return fail("text after the value"); return true; }
};
