#define VF_MAIN
#include "common.hpp"
const char *harness_name = "c25";
extern "C" {
#include <stdbool.h>
#include <re/re.h>
#include <re/groups.h>
}
// Reference reading of the documented format: literal bytes, esc esc, esc digits.
struct Want { bool ok = false; string out; size_t start = 0, lo = 0, hi = 0; const char *why = ""; };
static Want model(const string &f, char e, const string &g0, const vector<string> &g, const string *none, bool have, size_t room) {
	Want w; size_t i = 0; auto fail = [&](const char *y, size_t s, size_t lo, size_t hi) { w.why = y; w.start = s; w.lo = lo; w.hi = hi; return w; };
	while (i < f.size()) { size_t at = i; string put;
		if (f[i] != e) { put = f[i++]; }
		else if (i + 1 < f.size() && f[i + 1] == e) { put = e; i += 2; }
		else if (i + 1 < f.size() && f[i + 1] >= '0' && f[i + 1] <= '9') { size_t j = i + 1; while (j < f.size() && f[j] >= '0' && f[j] <= '9') j++; string d = f.substr(i + 1, j - i - 1); size_t z = 0; while (z + 1 < d.size() && d[z] == '0') z++; d = d.substr(z); i = j;
			if (d == "0") put = g0; else if (d.size() <= 9 && strtoul(d.c_str(), 0, 10) <= g.size()) put = g[strtoul(d.c_str(), 0, 10) - 1]; else if (none) put = *none; else return fail("no such group", at, j, j); }
		else return fail("malformed reference", at, at + 1, std::min(at + 2, f.size()));
		if (have && w.out.size() + put.size() > room) return fail("no room", 0, 0, f.size()); w.out += put; }
	if (have && w.out.size() + 1 > room) return fail("no room", 0, 0, f.size());
	w.ok = true; return w;
}
static string bytes(Rng &r, int n, char e) { string s; while (n-- > 0) { char ch; switch (r.below(8)) { case 0: ch = e; break; case 1: ch = '0' + r.below(10); break; case 2: ch = (char)(128 + r.below(128)); break; case 3: ch = r.pick<char>({'\\', '$', '%', '&', '{', '\n'}); break; default: ch = 'a' + r.below(26); } s += ch; } return s; }
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); char e = r.chance(70) ? r.pick<char>({'$', '\\'}) : (char)r.range(1, 255); if (e == 0 || (e >= '0' && e <= '9')) e = '$';
	vector<string> g; int ng = r.chance(10) ? r.range(9, 130) : r.below(6); for (int i = 0; i < ng; i++) g.push_back(r.chance(20) ? "" : bytes(r, r.chance(10) ? r.range(30, 300) : r.below(8), e)); string g0 = bytes(r, r.below(12), e);
	string f; int items = r.chance(5) ? r.range(30, 200) : r.below(9);
	for (int i = 0; i < items; i++) switch (r.weighted({30, 12, 30, 6, 4, 3, 3})) {
		case 0: f += bytes(r, r.range(1, 4), 'x'); break; case 1: f += string(2, e); break;
		case 2: f += e + std::to_string(r.below(ng + 2)); break;
		case 3: f += e + string(r.range(1, 4), '0') + std::to_string(r.below(ng + 2)); break; // leading zeros
		case 4: f += e + r.pick<string>({"4294967295", "4294967296", "4294967297", "42949672960", "18446744073709551616", "18446744073709551617", "2147483648", "99999999999999999999999", "00000000000000000001", "65536", "256"}); break;
		case 5: if (r.chance(30)) f += bytes(r, r.range(1, 3), e); break;
		default: if (r.chance(25)) f += e; } // perhaps malformed
	for (auto &ch : f) if (ch == 0) ch = 'q';
	string nv = bytes(r, r.below(4), e); const string *none = r.chance(40) ? NULL : &nv;
	vector<const char *> gv; vector<std::unique_ptr<char[]>> own; auto dup = [&](const string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; };
	vector<char *> fr; for (auto &s : g) { char *p = dup(s); fr.push_back(p); gv.push_back(p); } char *fp = dup(f), *zp = dup(g0), *np = none ? dup(nv) : NULL; const char **gp = gv.empty() ? NULL : (const char **)malloc(gv.size() * sizeof(char *)); if (gp) memcpy(gp, gv.data(), gv.size() * sizeof(char *));
	Want full = model(f, e, g0, g, none, false, 0);
	auto bad = [&](const string &k, const string &why) { c.violation(k, fmt("%s: %s; format %s, escape %02x, %d groups, default %s, ", k.c_str(), why.c_str(), esc(f).substr(0, 500).c_str(), (unsigned char)e, ng, none ? esc(nv).c_str() : "none") + "expected " + (full.ok ? esc(full.out).substr(0, 600) : string(full.why))); };
	vector<long> rooms = {-1, 0, 1, 4096}; if (full.ok) { long n = full.out.size(); for (long d = -2; d <= 2; d++) if (n + d >= 0) rooms.push_back(n + d); rooms.push_back(r.below(n + 3)); } else rooms.push_back(r.below(40));
	for (long room : rooms) { bool have = room >= 0; Want w = model(f, e, g0, g, none, have, have ? room : 0); char *out = have ? (char *)malloc(room ? room : 1) : NULL; if (have && room) memset(out, 'Z', room); if (room == 0 && out) out[0] = 'Z'; struct re_pos s, t; s.byte = 7777; t.byte = 8888; bool ps = !r.chance(15), pt = !r.chance(15);
		bool ok = re_interpolate_groups(fp, e, zp, ng, gp, np, out, have ? room : 0, ps ? &s : NULL, pt ? &t : NULL); c.eval();
		if (ok != w.ok) bad("verdict", fmt("%s with room %ld, expected %s", ok ? "succeeds" : "fails", room, w.ok ? "success" : w.why));
		else if (ok) { c.count(have ? "interpolated" : "checked without output"); if (have) { if (!memchr(out, 0, room)) bad("output", "not terminated"); else if (string(out) != w.out) bad("output", "gives " + esc(out)); } }
		else { c.count(string("refused: ") + w.why); if (ps && s.byte != w.start) bad("start", fmt("%u, expected %zu (%s)", s.byte, w.start, w.why)); if (pt && (t.byte < w.lo || t.byte > w.hi)) bad("end", fmt("%u, expected %zu..%zu (%s)", t.byte, w.lo, w.hi, w.why)); }
		if (room == 0 && out && out[0] != 'Z') bad("output", "written with no room"); free(out);
		if (string(fp) != f || string(zp) != g0) bad("input", "changed"); }
	for (char *p : fr) free(p); free(fp); free(zp); free(np); free(gp);
	if (items > 1) { c.nontrivial(mix(hash_str(f), ng)); c.sample(f); }
}
