import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make
HDR='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <fsm/fsm.h>
#include <fsm/bool.h>
#include <fsm/pred.h>
#include <fsm/walk.h>
#include <fsm/options.h>
#include <re/re.h>
#include <re/strings.h>
#define CHECK(x) do { if (!(x)) { printf("failed: %s\\n", #x); return 1; } } while (0)
struct src { const char *s; size_t n; };
static int get(void *o) { struct src *p = o; if (p->n == 0) return EOF; p->n--; return (unsigned char) *p->s++; }
static int run(const struct fsm *f, const char *s, size_t n, fsm_state_t *e) { struct src x = { s, n }; fsm_state_t q; return fsm_exec(f, get, &x, e ? e : &q, NULL) == 1; }
'''
if __name__ == '__main__':
    make('C03-dedup-last-word', 'C03', [('src/libfsm/determinise.c', 'u64bitset_words(max - min + 1)', 'u64bitset_words(max - min)')],
     'an NFA where one label leads to more than 255 states (with repeats or out of order) whose lowest and highest numbers are a multiple of 64 apart',
     'determinising drops the highest-numbered state of the combined set, so strings through it are no longer matched',
     demo_c=HDR+'''int main(void) {
	struct fsm *f = fsm_new(NULL); int i; CHECK(fsm_addstate_bulk(f, 400));
	fsm_setstart(f, 0); fsm_addedge_literal(f, 0, 1, 'x'); fsm_addedge_literal(f, 0, 2, 'x');
	for (i = 0; i <= 320; i++) fsm_addedge_literal(f, i % 2 ? 1 : 2, 10 + i, 'a');
	fsm_addedge_literal(f, 1, 10, 'a'); fsm_setend(f, 330, 1);
	CHECK(fsm_determinise(f));
	CHECK(run(f, "xa", 2, NULL)); CHECK(!run(f, "xaa", 3, NULL));
	fsm_free(f); return 0; }
''')
    make('C04-high-labels', 'C04', [('src/libfsm/minimise.c', 'for (size_t i = 0; i < 256/64; i++) {\n\t\tif (a[i] != b[i]) { return 0; }' if False else 'XX', 'YY')] if False else
     [('src/libfsm/minimise.c', open('/repo/src/libfsm/minimise.c').read().split('label_sets_match(const uint64_t a[256/64], const uint64_t b[256/64])')[-1], open('/repo/src/libfsm/minimise.c').read().split('label_sets_match(const uint64_t a[256/64], const uint64_t b[256/64])')[-1].replace('256/64', '128/64'))],
     'a DFA with two states whose edges differ only in labels of 0x80 and above, next to a shared label below',
     'two distinguishable states are merged, so the minimised DFA accepts other strings than before',
     demo_c=HDR+'''int main(void) {
	struct fsm *f = fsm_new(NULL); CHECK(fsm_addstate_bulk(f, 5)); fsm_setstart(f, 0);
	fsm_addedge_literal(f, 0, 1, 'p'); fsm_addedge_literal(f, 0, 2, 'q');
	fsm_addedge_literal(f, 0, 4, 'r');
	fsm_addedge_literal(f, 1, 3, 'a'); fsm_addedge_literal(f, 1, 3, (char)0xC1);
	fsm_addedge_literal(f, 2, 3, 'a'); fsm_addedge_literal(f, 4, 3, (char)0xC1);
	fsm_setend(f, 3, 1); CHECK(fsm_minimise(f));
	CHECK(run(f, "pa", 2, NULL)); CHECK(run(f, "qa", 2, NULL)); CHECK(run(f, "p\\xC1", 2, NULL)); CHECK(run(f, "r\\xC1", 2, NULL)); CHECK(!run(f, "ra", 2, NULL)); CHECK(!run(f, "q\\xC1", 2, NULL));
	fsm_free(f); return 0; }
''')
    make('C08-id-compare', 'C08', [('src/libfsm/endids.c', open('/repo/src/libfsm/endids.c').read().split('cmp_endids(const void *pa, const void *pb)\n')[1].split('\n}\n')[0],
      '{\n\tconst fsm_end_id_t *a = pa;\n\tconst fsm_end_id_t *b = pb;\n\n\treturn (int) (*a - *b);')],
     'end ids which differ by 2^31 or more, brought together on one state by a bulk operation (intersect, determinise, map)',
     'the ids of a state are no longer sorted, and a duplicate can survive',
     demo_c=HDR+'''int main(void) {
	fsm_end_id_t v[] = { 4000000000u, 5, 2000000000u }, out[8]; size_t i, n; struct fsm *f = fsm_new(NULL), *g = fsm_new(NULL);
	CHECK(fsm_addstate_bulk(f, 1)); fsm_setstart(f, 0); fsm_setend(f, 0, 1); fsm_endid_set(f, 0, v[0]); fsm_endid_set(f, 0, v[1]);
	CHECK(fsm_addstate_bulk(g, 1)); fsm_setstart(g, 0); fsm_setend(g, 0, 1); fsm_endid_set(g, 0, v[2]); fsm_endid_set(g, 0, v[0]);
	f = fsm_intersect(f, g); CHECK(f);
	n = fsm_endid_count(f, 0); CHECK(n == 3); CHECK(fsm_endid_get(f, 0, n, out) == 1);
	for (i = 1; i < n; i++) CHECK(out[i - 1] < out[i]);
	fsm_free(f); return 0; }
''')
    make('C14-end-stays-marked', 'C14', [('src/libfsm/detect_required.c', '\t\t\tdfa->states[sf->state].visited = false;\n\n\t\t\tenv.stack.used--;', '\t\t\tif (!fsm_isend(dfa, sf->state)) {\n\t\t\t\tdfa->states[sf->state].visited = false;\n\t\t\t}\n\t\t\tenv.stack.used--;')],
     'a DFA whose end state is reached along several routes with different bytes',
     'only the first route found to an end state counts, so bytes which other routes lack are reported as required',
     demo_c=HDR+'''int main(void) {
	struct fsm *f = fsm_new(NULL); uint64_t m[4] = { 0 }; size_t n = 9;
	CHECK(fsm_addstate_bulk(f, 4)); fsm_setstart(f, 0); fsm_setend(f, 3, 1);
	fsm_addedge_literal(f, 0, 1, 'x'); fsm_addedge_literal(f, 0, 2, 'y'); fsm_addedge_literal(f, 1, 3, 'z'); fsm_addedge_literal(f, 2, 3, 'z');
	CHECK(fsm_detect_required_characters(f, 1000, m, &n) == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN);
	CHECK(n == 1); CHECK(m[1] == (uint64_t) 1 << ('z' - 64)); CHECK(m[0] == 0);
	fsm_free(f); return 0; }
''')
    make('C15-one-failure-step', 'C15', [('src/libre/ac.c', 'while (fs->children[sym] == NULL && fs != g->root) {', 'if (fs->children[sym] == NULL && fs != g->root) {'), ('src/libre/ac.c', 'if (nx->fail == NULL) {\n\t\t\t\tassert(fs == g->root);\n\t\t\t\tnx->fail = fs;', 'if (nx->fail == NULL) {\n\t\t\t\tnx->fail = g->root;')],
     'a list without a left anchor where the longest usable suffix is found only after two or more failure links',
     'a word which begins inside another, two links away, is missed',
     demo_c=HDR+'''int main(void) {
	const char *w[] = { "aaac", "aaX", "aaaaaaY", "abQ", "aaabZ", "bR" }; struct fsm *f = re_strings(NULL, w, 6, 0); CHECK(f);
	CHECK(run(f, "aaabQ", 5, NULL)); CHECK(run(f, "aaaabQ", 6, NULL)); CHECK(run(f, "aaabR", 5, NULL)); CHECK(run(f, "aaaaaabR", 8, NULL)); CHECK(run(f, "xbR", 3, NULL)); CHECK(run(f, "aaaaaX", 6, NULL)); CHECK(!run(f, "aaabq", 5, NULL));
	fsm_free(f); return 0; }
''')
