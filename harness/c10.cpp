#define VF_MAIN
#include "common.hpp"
extern "C" {
#include <fsm/options.h>
#include <fsm/vm.h>
}
const char *harness_name = "c10";
struct Run { // direct execution of the reference DFA
	vector<std::array<int, 256> *> t; vector<std::unique_ptr<std::array<int, 256>>> own; const Auto &a;
	explicit Run(const Auto &a_) : a(a_) { for (auto &s : a.s) { own.emplace_back(new std::array<int, 256>); auto &row = *own.back(); row.fill(-1); for (auto &p : s.e) for (unsigned c = 0; c < 256; c++) if (p.second.get(c)) row[c] = p.first; t.push_back(&row); } }
	int go(const string &w, int q) const { for (unsigned char ch : w) { if (q < 0) return -1; q = (*t[q])[ch]; } return q; }
	bool accept(const string &w) const { int q = go(w, a.start); return q >= 0 && a.s[q].end; }
};
// states shaped for each code-generation strategy
static Auto shaped(Rng &r, int n) {
	Auto a; for (int i = 0; i < n; i++) a.add();
	a.start = r.below(n);
	for (int i = 0; i < n; i++) { auto &s = a.s[i]; s.end = r.chance(35); int k = r.below(7); Sym used;
		auto put = [&](int t, Sym y) { y = y & ~used; used = used | y; a.edge(i, t, y); };
		if (k == 0) continue; // none
		if (k == 1) { put(r.below(n), Sym::all()); continue; } // same
		int m = r.range(1, 4); for (int j = 0; j < m; j++) put(r.below(n), random_sym(r, r.below(8)));
		if (k == 2) put(r.below(n), Sym::all()); // complete / dominant
		if (k == 3) { for (unsigned c = 0; c < 256; c++) put(r.below(std::min(n, 4)), Sym::one(c)); } // complete, scattered
		if (k == 4) { Sym y = ~used; for (int j = r.range(1, 5); j > 0; j--) y.clr(r.below(256)); put(r.below(n), y); } // nearly complete
		if (k == 5) put(i, ~used);
	}
	return a;
}
static Auto large(Rng &r, int n, int deg, bool fixed = false) { // random graph in which a random walk survives
	Auto a; for (int i = 0; i < n; i++) a.add(); a.start = r.below(n);
	for (int i = 0; i < n; i++) { a.s[i].end = r.chance(50); Sym used; int k = fixed ? deg : r.range(1, deg); for (int j = 0; j < k; j++) { unsigned c = r.below(256); if (!used.get(c)) { used.set(c); a.edge(i, (int)r.below(n), c); } } if (!fixed && r.chance(30)) a.edge(i, (int)r.below(n), ~used); }
	return a;
}
void run_case(Ctx &c, u64 idx) {
	Rng r(mix(c.seed, idx)); GenOpt g; g.eps = false; g.dfa = true; g.ids = r.chance(40); g.nostart = false; Auto a; bool big = false, huge = false;
	if (idx % 400 == 3) { huge = idx % 2000 == 3; a = huge ? large(r, r.range(36000, 42000), 4, true) : large(r, r.range(1500, 12000), 5); big = true; }
	else if (r.chance(45)) a = shaped(r, r.range(1, 12)); else if (r.chance(60)) { g.maxn = r.range(1, 20); a = random_auto(r, g); } else if (r.chance(70)) { a = big_auto(r, g, r.range(10, 150)); if (!is_dfa(a)) { Dfa d; if (!model_dfa(a, OUT_END, d, 400)) return; Auto b; for (int i = 0; i < d.n(); i++) b.add(); b.start = d.start; for (int i = 0; i < d.n(); i++) { b.s[i].end = d.o[i].end; for (unsigned x = 0; x < 256; x++) b.edge(i, d.t[i][d.cl.of[x]], x); } a = b; } } else a = shaped(r, r.range(20, 120));
	if (a.n() == 0 || a.start < 0) return;
	for (auto &s : a.s) s.eps.clear();
	if (!is_dfa(a)) return;
	struct fsm *f = build(a); struct fsm_options opt; memset(&opt, 0, sizeof opt);
	Run ref(a);
	// inputs
	vector<string> in{""};
	vector<string> acc(a.n()); vector<char> seen(a.n(), 0); { vector<int> q{a.start}; seen[a.start] = 1; for (size_t i = 0; i < q.size(); i++) for (auto &p : a.s[q[i]].e) if (!seen[p.first]) { seen[p.first] = 1; acc[p.first] = acc[q[i]] + (char)p.second.nth(r.below(p.second.size())); q.push_back(p.first); }
		if (!big) { size_t budget = 6000; for (int x : q) { if (in.size() > budget) break; auto &row = *ref.t[x];
			for (unsigned b = 0; b < 256; b++) { bool bound = b == 0 || b == 255 || row[b] != row[b - 1] || row[b] != row[b + 1 > 255 ? 255 : b + 1]; if (!bound && !r.chance(a.n() <= 4 ? 100 : 4)) continue; string w = acc[x] + (char)b; in.push_back(w); // and on from there to something that tells states apart
				int y = row[b]; for (int k = 0; k < 2 && y >= 0; k++) { if (a.s[y].e.empty()) break; auto &p = a.s[y].e[r.below(a.s[y].e.size())]; w += (char)p.second.nth(r.below(p.second.size())); y = p.first; in.push_back(w); } } } }
		else { for (int k = 0; k < 3000; k++) { int x = r.pick(q); if (acc[x].size() > 60) continue; in.push_back(acc[x]); for (int j = 0; j < 3; j++) { string w = acc[x] + (char)r.below(256); in.push_back(w); } if (!a.s[x].e.empty()) { auto &p = r.pick(a.s[x].e); string w = acc[x]; int y = x; for (int j = r.range(1, 12); j > 0 && !a.s[y].e.empty(); j--) { auto &p2 = a.s[y].e[r.below(a.s[y].e.size())]; w += (char)p2.second.nth(r.below(p2.second.size())); y = p2.first; } in.push_back(w); (void)p; } } } }
	for (int k = 0; k < 12; k++) in.push_back(random_string(r, a, 40));
	// long ones, around the size the file interface reads at once
	auto walk = [&](size_t len) { string w; int q = a.start; while (w.size() < len) { auto &e = a.s[q].e; if (e.empty()) break; auto &p = e[r.below(e.size())]; w += (char)p.second.nth(r.below(p.second.size())); q = p.first; } return w; };
	size_t lens[] = {4095, 4096, 4097, 8192, 10000}; string lw = walk(lens[r.below(5)]); bool haslong = lw.size() > 4000; 
	vector<string> files; if (haslong) { in.push_back(lw); files.push_back(lw); string z = lw; z.resize(4096); files.push_back(z); z = lw; z[4094 + r.below(2)] ^= 1 << r.below(8); files.push_back(z); }
	files.push_back(""); for (int k = 0; k < 6; k++) files.push_back(in[r.below(in.size())]);
	c.count("dfas"); if (haslong) c.count("long-inputs");
	for (int v = 0; v < 5; v++) {
		if (huge && v != 1) continue; // more far branches than fit a 16-bit table index
		struct fsm_vm_compile_opts vo; memset(&vo, 0, sizeof vo); vo.output = v & 1 ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1; vo.flags = v & 2 ? FSM_VM_COMPILE_OPTIM : 0;
		struct fsm_dfavm *vm = v == 4 ? fsm_vm_compile(f) : fsm_vm_compile_with_options(f, &opt, vo);
		string name = v == 4 ? "default" : fmt("v%d%s", v & 1 ? 2 : 1, v & 2 ? "-opt" : "");
		if (!vm && huge && errno == E2BIG) { c.count("refused-too-large"); continue; } // more far branches than the encoding can hold
		if (!vm) { c.violation(name + ":compile", "compiling failed: " + a.text()); continue; }
		size_t n = 0, acc1 = 0;
		for (auto &w : in) { if (v == 4 && n > 200) break; n++; bool want = ref.accept(w); acc1 += want;
			char *hp = (char *)malloc(w.size() ? w.size() : 1); memcpy(hp, w.data(), w.size()); int got = fsm_vm_match_buffer(vm, hp, w.size()); free(hp);
			if ((got != 0) != want) { c.violation(name + ":buffer", fmt("%s: vm says %d, direct execution %d; %s", esc(w).substr(0, 300).c_str(), got, want, a.text().c_str())); break; } }
		for (auto &w : files) { FILE *fp = w.empty() ? fopen("/dev/null", "rb") : fmemopen((void *)w.data(), w.size(), "rb"); if (!fp) abort(); bool want = ref.accept(w); int got = fsm_vm_match_file(vm, fp); fclose(fp); c.count("file-runs");
			if ((got != 0) != want) { c.violation(name + (w.empty() ? ":empty-file" : ":file"), fmt("file of %zu bytes %s: vm says %d, direct execution %d; %s", w.size(), esc(w).substr(0, 300).c_str(), got, want, a.text().c_str())); break; } }
		c.eval(n); c.count(name + "-runs", n); c.count("accepted", acc1); fsm_vm_free(vm);
	}
	// direct execution by the library agrees with the reference as well
	for (size_t k = 0; k < in.size(); k += 1 + in.size() / 40) { fsm_state_t e; int x = exec(f, in[k], &e); if ((x == 1) != ref.accept(in[k])) { c.violation("exec", fmt("%s: fsm_exec says %d; %s", esc(in[k]).substr(0, 300).c_str(), x, a.text().c_str())); break; } }
	fsm_free(f);
	if (a.nedges() && a.n() >= 2) { c.nontrivial(a.hash()); if (a.n() < 20) c.sample(a.text(500)); }
}
