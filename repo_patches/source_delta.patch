From c8f0d4d063f311d29be995b85b7253e3fe2b4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 001/152] fix: fsm_remove_epsilons() asserts on an FSM with no
 states

epsilon_closure() requires at least one state. An FSM with no states has
nothing to remove, so succeed early.
---
 src/libfsm/epsilons.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 926e6d9..c663155 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -141,6 +141,11 @@ fsm_remove_epsilons(struct fsm *nfa)
 
 	assert(nfa != NULL);
 
+	/* an FSM with no states has no epsilons */
+	if (state_count == 0) {
+		return 1;
+	}
+
 	TIME(&pre);
 	eclosures = epsilon_closure(nfa);
 	TIME(&post);
-- 
2.43.0


From 06ef297447e869a5031a53a9a20c33cef7e93184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 002/152] fix: minimisation compared uninitialised label sets
 for states without edges

edge_set_check_edges_with_EC_mapping() returned early for a NULL edge set
without clearing the caller's label set, which is compared regardless. States
could be split (or not) depending on stack contents, giving a non-minimal DFA.
---
 src/adt/edgeset.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 178ddbc..fa71815 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -430,6 +430,10 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 {
 	size_t i;
 
+	/* The caller compares the labels even when nothing is found,
+	 * so this is also necessary for an empty set. */
+	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
+
 	if (set == NULL) {
 		return 0;
 	}
@@ -439,8 +443,6 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 	    label, (void *)set);
 #endif
 
-	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
-
 	/* Find the state the label leads to, if any. */
 	const size_t offset = label/64;
 	const uint64_t bit = (uint64_t)1 << (label & 63);
-- 
2.43.0


From c4694c5f0e4b14b9265619780b9c1a8bc7de5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 003/152] fix: minimisation merged states with different eager
 outputs

When collecting metadata for an equivalence class, the walk stopped at the
first state that was neither an end nor had eager outputs; any later states'
eager outputs were not taken into account.
---
 src/libfsm/minimise.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index a2ff1b8..53a2a86 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -777,15 +777,13 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 			const bool is_end = fsm_isend(fsm, s);
 			const bool has_eager_outputs = fsm_eager_output_state_has_eager_output(fsm, s);
 
-			if (!is_end && !has_eager_outputs) {
-				break; /* skip */
-			}
-
-			if (!collect_end_ids(fsm, s, &e->end)) {
+			/* Either all or none of the states in an EC are end
+			 * states, but any of them may have eager outputs. */
+			if (is_end && !collect_end_ids(fsm, s, &e->end)) {
 				goto cleanup;
 			}
 
-			if (!collect_eager_output_ids(fsm, s, &e->eager_outputs)) {
+			if (has_eager_outputs && !collect_eager_output_ids(fsm, s, &e->eager_outputs)) {
 				goto cleanup;
 			}
 
-- 
2.43.0


From ce5d02aff36692263dbb7dd73dee70775b613690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 004/152] fix: endids of removed states leaked when compacting

---
 src/libfsm/endids.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 6d8e885..c664cda 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1068,7 +1068,12 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 		assert(ob->state < mapping_count);
 		const fsm_state_t nstate = mapping[ob->state];
-		if (nstate == FSM_STATE_REMAP_NO_STATE) { continue; }
+		if (nstate == FSM_STATE_REMAP_NO_STATE) {
+			/* the state is being removed, and its endids with it */
+			f_free(fsm->alloc, ob->ids);
+			ei->buckets_used--;
+			continue;
+		}
 
 		const uint64_t hash = hash_id(nstate);
 
-- 
2.43.0


From 82e9b36e5122129e74d21ddf89283fc1e2f36e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 005/152] fix: sets freed with free() rather than the allocator
 they came from

---
 src/adt/set.inc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 58f091f..2cf6742 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -97,6 +97,7 @@ set_create(const struct fsm_alloc *a,
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
@@ -169,7 +170,7 @@ set_free(struct set *set)
 	assert(set != NULL);
 	assert(set->a != NULL);
 
-	free(set->a);
-	free(set);
+	f_free(set->alloc, set->a);
+	f_free(set->alloc, set);
 }
 
-- 
2.43.0


From 6c97e93e31b72c8b170d7d7c9b5bd285c3ddee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 006/152] fix: compacting a set of states did not keep it
 sorted (fsm_shuffle() on an NFA with epsilons)

---
 src/adt/stateset.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index c2cc8b8..6b35a3c 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -420,7 +420,6 @@ state_set_compact(struct state_set **setp,
 		if (new_id == FSM_STATE_REMAP_NO_STATE) {
 			*setp = NULL;
 		} else {
-			assert(new_id <= s);
 			*setp = SINGLETON_ENCODE(new_id);
 		}
 		return;
@@ -453,6 +452,21 @@ state_set_compact(struct state_set **setp,
 	set->i -= removed;
 	assert(set->i == dst);
 
+	/* The mapping need not preserve order, nor be one-to-one,
+	 * so restore the set to being sorted and without duplicates. */
+	if (set->i > 1) {
+		qsort(&set->a[0], set->i, sizeof set->a[0], state_set_cmpptr);
+
+		dst = 1;
+		for (i = 1; i < set->i; i++) {
+			if (set->a[i] != set->a[dst - 1]) {
+				set->a[dst] = set->a[i];
+				dst++;
+			}
+		}
+		set->i = dst;
+	}
+
 #if LOG_COMPACT
 	for (i = 0; i < set->i; i++) {
 		fprintf(stderr, "state_set_compact: now set->a[%zu/%zu]: %d\n", i, set->i, set->a[i]);
-- 
2.43.0


From 9ce902857f1740ea71c2c7e47a5037cf3b74fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 007/152] fix: compacting edges to removed states only left a
 group with no labels

---
 src/adt/edgeset.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index fa71815..b9c80e3 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -916,8 +916,10 @@ edge_set_compact(struct edge_set **pset, const struct fsm_alloc *alloc,
 	}
 #endif
 
-	info[0].assignment = 0;
-	ncount++;
+	if (info[0].new_to != FSM_STATE_REMAP_NO_STATE) {
+		info[0].assignment = 0;
+		ncount++;
+	}
 
 	for (i = 1; i < set->count; i++) {
 		const fsm_state_t prev_new_to = info[i - 1].new_to;
-- 
2.43.0


From 823614a07c479a8ba12cd874355c2441af04509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 008/152] fix: removing an edge group read one group past the
 end of the array

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index b9c80e3..241802b 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -805,7 +805,7 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	while (i < set->count) {
 		const struct edge_group *eg = &set->groups[i];
 		if (eg->to == state) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			memmove(&set->groups[i],
 			    &set->groups[i + 1],
 			    to_mv * sizeof(*eg));
@@ -1090,7 +1090,7 @@ edge_set_replace_state(struct edge_set **pset, const struct fsm_alloc *alloc,
 	for (i = 0; i < set->count; i++) {
 		struct edge_group *eg = &set->groups[i];
 		if (eg->to == old) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			unsigned char label;
 			if (!find_first_group_label(eg, &label)) {
 				return 1; /* ignore empty group */
-- 
2.43.0


From d1d2b1cca7e8261d0a439dd32ac803d02d311f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 009/152] fix: fsm_complement() gave the wrong language for an
 NFA with every symbol at every state

---
 src/libfsm/complement.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 53d61c0..bbdbc88 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -22,7 +22,8 @@ fsm_complement(struct fsm *fsm)
 
 	assert(fsm != NULL);
 
-	if (!fsm_all(fsm, fsm_iscomplete)) {
+	/* an NFA may have every symbol at every state and not be a DFA */
+	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
 			fsm_free(fsm);
 			return 0;
-- 
2.43.0


From 73f9164f9927b2196abebc5f6b9c1635044ab7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 010/152] fix: fsm_union() and fsm_union_array() crashed or
 leaked on failure

---
 include/fsm/bool.h |  1 +
 src/libfsm/merge.c | 19 +++++++------------
 src/libfsm/union.c | 16 ++++++++++++----
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/fsm/bool.h b/include/fsm/bool.h
index 150d63f..4dacfdc 100644
--- a/include/fsm/bool.h
+++ b/include/fsm/bool.h
@@ -36,6 +36,7 @@ struct fsm_combined_base_pair {
 int
 fsm_complement(struct fsm *fsm);
 
+/* Both operands are consumed, also on failure. */
 struct fsm *
 fsm_union(struct fsm *a, struct fsm *b,
 	struct fsm_combine_info *combine_info);
diff --git a/src/libfsm/merge.c b/src/libfsm/merge.c
index 267b5b1..c28750a 100644
--- a/src/libfsm/merge.c
+++ b/src/libfsm/merge.c
@@ -107,18 +107,13 @@ merge(struct fsm *dst, struct fsm *src,
 	 * NULL pointers to `struct fsm_state` increases memory usage
 	 * significantly. */
 
-	if (!copy_capture_actions(dst, src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
-	}
-
-	if (!copy_end_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
-	}
-
-	if (!copy_eager_output_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
+	if (!copy_capture_actions(dst, src)
+	 || !copy_end_ids(dst, src, *base_src)
+	 || !copy_eager_output_ids(dst, src, *base_src)) {
+		/* non-recoverable -- destructive operation. The states belong
+		 * to dst now; all the caller can do is to free dst and src. */
+		src->statecount = 0;
+		fsm_clearstart(src);
 		return NULL;
 	}
 
diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4b07ca6..ce4f1bd 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -102,6 +102,8 @@ fsm_union(struct fsm *a, struct fsm *b,
 	assert(b != NULL);
 
 	if (a->alloc != b->alloc) {
+		fsm_free(a);
+		fsm_free(b);
 		errno = EINVAL;
 		return NULL;
 	}
@@ -110,12 +112,18 @@ fsm_union(struct fsm *a, struct fsm *b,
 	if (b->statecount == 0) { fsm_free(b); return a; }
 
 	if (!fsm_getstart(a, &sa) || !fsm_getstart(b, &sb)) {
+		fsm_free(a);
+		fsm_free(b);
 		errno = EINVAL;
 		return NULL;
 	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		fsm_free(a);
+		fsm_free(b);
+		return NULL;
+	}
 
 	sa += combine_info->base_a;
 	sb += combine_info->base_b;
@@ -173,12 +181,12 @@ fsm_union_array(size_t fsm_count,
 		struct fsm *combined = fsm_union(res, fsms[i], &ci);
 		fsms[i] = NULL;
 		if (combined == NULL) {
-			while (i < fsm_count) {
+			/* fsm_union() freed both its operands */
+			for (i++; i < fsm_count; i++) {
 				fsm_free(fsms[i]);
-				i++;
+				fsms[i] = NULL;
 			}
 
-			fsm_free(res);
 			return NULL;
 		}
 
-- 
2.43.0


From 6f8c5e78411402a71e4fa588a55e2f02238f01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 011/152] fix: fsm_union_array() gave wrong state bases unless
 there were captures

---
 src/libfsm/union.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index ce4f1bd..2555052 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -202,7 +202,7 @@ fsm_union_array(size_t fsm_count,
 		/* If the first argument didn't get its states put first
 		 * in the union, then shift the bases for everything
 		 * that has been combined into it so far. */
-		if (ci.capture_base_a > 0) {
+		{
 			size_t shift_i;
 			for (shift_i = 0; shift_i < i; shift_i++) {
 				bases[shift_i].state += ci.base_a;
-- 
2.43.0


From 4e6cfbd65a2cf8638f4a5a771bd84e23f65ac520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 012/152] fix: fsm_new() used freed memory when out of memory

---
 src/libfsm/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index 866650a..ec3e0f1 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -94,17 +94,17 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	}
 
 	if (!fsm_endid_init(new)) {
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
 		return NULL;
 	}
 
 	if (!fsm_eager_output_init(new)) {
-		f_free(new->alloc, new->states);
-		f_free(new->alloc, new);
 		fsm_capture_free(new);
 		fsm_endid_free(new);
+		f_free(new->alloc, new->states);
+		f_free(alloc, new);
 		return NULL;
 	}
 
-- 
2.43.0


From 378a62f5bad3b3e2c6727101a54753cf7864e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 013/152] fix: fsm_reverse() checked the wrong allocation

---
 src/libfsm/reverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index c709373..a8383a0 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -124,7 +124,7 @@ fsm_reverse(struct fsm *fsm)
 	}
 
 	epsilons = f_malloc(fsm->alloc, sizeof *epsilons * fsm->statecount);
-	if (edges == NULL) {
+	if (epsilons == NULL) {
 		state_set_free(endset);
 		f_free(fsm->alloc, edges);
 		return 0;
-- 
2.43.0


From efd65cdca9fd120f754952a33866be68873b17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 014/152] fix: fsm_concat() leaked an operand with no states

---
 src/libfsm/concat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9f87802..9461606 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -37,8 +37,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	if (a->statecount == 0) { return b; }
-	if (b->statecount == 0) { return a; }
+	if (a->statecount == 0) { fsm_free(a); return b; }
+	if (b->statecount == 0) { fsm_free(b); return a; }
 
 	if (!fsm_has(a, fsm_isend)) {
 		errno = EINVAL;
-- 
2.43.0


From 2fb8a3e8716b34e016d77f386eccefb48d549128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 015/152] fix: fsm_concat() asserts when out of memory

---
 src/libfsm/concat.c | 4 +++-
 src/libfsm/fsm.c    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9461606..f1e8861 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -57,7 +57,9 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	fsm_setend(a, ea, 1);
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		return NULL;
+	}
 
 	sq += combine_info->base_a;
 	ea += combine_info->base_a;
diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index ec3e0f1..4072795 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -104,7 +104,7 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 		fsm_capture_free(new);
 		fsm_endid_free(new);
 		f_free(new->alloc, new->states);
-		f_free(alloc, new);
+		f_free(new->alloc, new);
 		return NULL;
 	}
 
-- 
2.43.0


From 1af0113d30530a8ed680dcd313c375976954f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 016/152] fix: fsm_concat() left the end states of its first
 operand accepting when there were several

---
 src/libfsm/concat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index f1e8861..0650c97 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -23,6 +23,7 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	struct fsm *q;
 	fsm_state_t ea, sb;
 	fsm_state_t sq;
+	fsm_state_t i;
 	struct fsm_combine_info combine_info_internal;
 
 	if (combine_info == NULL) {
@@ -54,7 +55,10 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	fsm_setend(a, ea, 1);
+	/* none of a's end states accept by themselves any more */
+	for (i = 0; i < a->statecount; i++) {
+		fsm_setend(a, i, 0);
+	}
 
 	q = fsm_merge(a, b, combine_info);
 	if (q == NULL) {
@@ -65,8 +69,6 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	ea += combine_info->base_a;
 	sb += combine_info->base_b;
 
-	fsm_setend(q, ea, 0);
-
 	/*
 	 * The textbook approach is to create epsilon transition(s) from the end
 	 * state of one FSM to the start state of the next FSM.
-- 
2.43.0


From e31c3ce06cb8668ae306e03e7451e32f005a105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 017/152] fix: fsm_setend() ignored values other than 0 and 1

---
 src/libfsm/end.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/end.c b/src/libfsm/end.c
index 5a4aa0d..c0eb220 100644
--- a/src/libfsm/end.c
+++ b/src/libfsm/end.c
@@ -26,7 +26,7 @@ fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
 		return;
 	}
 
-	switch (end) {
+	switch (!!end) {
 	case 0:
 		assert(fsm->endcount > 0);
 		fsm->endcount--;
-- 
2.43.0


From 97f500b74806ab0f6bf0a9e1fdb5843003d96c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 018/152] fix: fsm_concat() kept end ids of its first operand,
 to be reported by strings it does not match

---
 src/libfsm/concat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 0650c97..d7186c3 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -15,6 +15,7 @@
 #include <fsm/walk.h>
 
 #include "internal.h"
+#include "endids.h"
 
 struct fsm *
 fsm_concat(struct fsm *a, struct fsm *b,
@@ -60,6 +61,13 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		fsm_setend(a, i, 0);
 	}
 
+	/* so their end ids are not to be reported either */
+	fsm_endid_free(a);
+	a->endid_info = NULL;
+	if (!fsm_endid_init(a)) {
+		return NULL;
+	}
+
 	q = fsm_merge(a, b, combine_info);
 	if (q == NULL) {
 		return NULL;
-- 
2.43.0


From 9f1596ff4d360ac6486d62821bd583c43a486c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 019/152] fix: fsm_intersect() and fsm_subtract() left states
 marked as visited, so that trimming the result discarded it

---
 src/libfsm/walk2.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libfsm/walk2.c b/src/libfsm/walk2.c
index 6d6ab02..59b0939 100644
--- a/src/libfsm/walk2.c
+++ b/src/libfsm/walk2.c
@@ -590,6 +590,15 @@ fsm_walk2(const struct fsm *a, const struct fsm *b,
 	new = data.new;
 	data.new = NULL; /* avoid freeing new FSM */
 
+	{
+		fsm_state_t i;
+
+		/* leave no marks for other users of .visited */
+		for (i = 0; i < new->statecount; i++) {
+			new->states[i].visited = 0;
+		}
+	}
+
 	fsm_walk2_data_free(a, &data);
 
 	return new;
-- 
2.43.0


From a8171d52cf80cfc5f98cc467b621a9ab24294a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 020/152] fix: keep a state set sorted in state_set_replace

Replacing an item in place left the array unsorted (and possibly with
duplicates), after which lookups by binary search missed members.
---
 src/adt/stateset.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 6b35a3c..85dff72 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -676,9 +676,25 @@ state_set_replace(struct state_set **setp, fsm_state_t old, fsm_state_t new)
 		return;
 	}
 
-	for (i = 0; i < set->i; i++) {
-		if (set->a[i] == old) {
-			set->a[i] = new;
-		}
+	if (old == new || !state_set_contains(set, old)) {
+		return;
+	}
+
+	/*
+	 * The array is kept sorted and without duplicates, so the new
+	 * item goes to its own position, in the room left by the old.
+	 */
+	state_set_remove(&set, old);
+
+	i = state_set_search(set, new);
+	if (i < set->i && set->a[i] == new) {
+		return;
 	}
+
+	if (i < set->i) {
+		memmove(&set->a[i + 1], &set->a[i], (set->i - i) * (sizeof *set->a));
+	}
+
+	set->a[i] = new;
+	set->i++;
 }
-- 
2.43.0


From 624cfd5f31c0ecc7bdb1f605f7d60ac07b259fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 021/152] fix: edge_set_copy of an empty source onto existing
 edges

An edge set without edges is NULL, which edge_set_copy_into dereferenced.
---
 src/adt/edgeset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 241802b..593039f 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -710,6 +710,10 @@ edge_set_copy(struct edge_set **dst, const struct fsm_alloc *alloc,
 	    (void *)src, (void *)*dst);
 #endif
 
+	if (src == NULL) {
+		return 1;
+	}
+
 	if (*dst != NULL) {
 		/* The other `edge_set_copy` copies in the
 		 * edges from src if *dst already exists. */
-- 
2.43.0


From 41fc0f4671eb6604ca37757564fdaea8cbe0f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 022/152] fix: fsm_removestate() lost the start state, end ids
 and eager outputs of the state it renumbers

The last state takes the place of the removed one, but only edges were
updated. Also discard the metadata of the state removed.
---
 src/libfsm/state.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 786bc3a..1b3654a 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -123,6 +123,36 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	assert(fsm != NULL);
 	assert(state < fsm->statecount);
 
+	/*
+	 * Metadata is kept by state number: discard what belongs to the removed
+	 * state, and carry over what belongs to the state which takes its place.
+	 */
+	{
+		const fsm_state_t last = fsm->statecount - 1;
+		fsm_state_t *mapping;
+
+		mapping = f_malloc(fsm->alloc, fsm->statecount * sizeof *mapping);
+		if (mapping == NULL) {
+			return 0;
+		}
+
+		for (i = 0; i < fsm->statecount; i++) {
+			mapping[i] = i;
+		}
+
+		mapping[last]  = state;
+		mapping[state] = FSM_STATE_REMAP_NO_STATE;
+
+		if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
+		 || !fsm_eager_output_compact(fsm, mapping, fsm->statecount))
+		{
+			f_free(fsm->alloc, mapping);
+			return 0;
+		}
+
+		f_free(fsm->alloc, mapping);
+	}
+
 	/* for endcount accounting */
 	fsm_setend(fsm, state, 0);
 
@@ -158,6 +188,10 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 				return 0;
 			}
 		}
+
+		if (fsm_getstart(fsm, &start) && start == fsm->statecount - 1) {
+			fsm_setstart(fsm, state);
+		}
 	}
 
 	fsm->statecount--;
-- 
2.43.0


From 35a835a99f6874e5da8a0af01875587143f485e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 023/152] fix: fsm_mergestates() lost ends, ids, outputs and
 the start state, and could return a stale state

The merged state did not accept what b accepted, edges were added to a set
while iterating over it, and when a was the last state it was renumbered
by the removal of b.
---
 src/libfsm/mergestates.c | 86 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 76 insertions(+), 10 deletions(-)

diff --git a/src/libfsm/mergestates.c b/src/libfsm/mergestates.c
index 77d5e2f..bb456d3 100644
--- a/src/libfsm/mergestates.c
+++ b/src/libfsm/mergestates.c
@@ -5,28 +5,91 @@
  */
 
 #include <assert.h>
+#include <stdio.h>
 #include <stdlib.h>
 
 #include <fsm/fsm.h>
+#include <fsm/alloc.h>
+#include <fsm/pred.h>
 
 #include <adt/set.h>
 #include <adt/stateset.h>
 #include <adt/edgeset.h>
 
 #include "internal.h"
+#include "endids.h"
 
 int
 fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 	fsm_state_t *q)
 {
-	struct fsm_edge e;
-	struct edge_iter it;
-	fsm_state_t i;
+	fsm_state_t start, i;
 
 	assert(fsm != NULL);
 	assert(a < fsm->statecount);
 	assert(b < fsm->statecount);
 
+	if (a == b) {
+		if (q != NULL) {
+			*q = a;
+		}
+		return 1;
+	}
+
+	/* what b accepts and emits */
+	if (fsm_isend(fsm, b)) {
+		const size_t count = fsm_endid_count(fsm, b);
+		const enum fsm_endid_bulk_op op = fsm_isend(fsm, a)
+			? FSM_ENDID_BULK_APPEND : FSM_ENDID_BULK_REPLACE;
+
+		fsm_setend(fsm, a, 1);
+
+		if (count > 0) {
+			fsm_end_id_t *ids;
+			int ok;
+
+			ids = f_malloc(fsm->alloc, count * sizeof *ids);
+			if (ids == NULL) {
+				return 0;
+			}
+
+			ok = fsm_endid_get(fsm, b, count, ids)
+			  && fsm_endid_set_bulk(fsm, a, count, ids, op);
+			f_free(fsm->alloc, ids);
+			if (!ok) {
+				return 0;
+			}
+		}
+	}
+
+	{
+		const size_t count = fsm_eager_output_count(fsm, b);
+
+		if (count > 0) {
+			fsm_output_id_t *ids;
+			size_t j;
+
+			ids = f_malloc(fsm->alloc, count * sizeof *ids);
+			if (ids == NULL) {
+				return 0;
+			}
+
+			if (!fsm_eager_output_get(fsm, b, count, ids)) {
+				f_free(fsm->alloc, ids);
+				return 0;
+			}
+
+			for (j = 0; j < count; j++) {
+				if (!fsm_eager_output_set(fsm, a, ids[j])) {
+					f_free(fsm->alloc, ids);
+					return 0;
+				}
+			}
+
+			f_free(fsm->alloc, ids);
+		}
+	}
+
 	/* edges from b */
 	if (!state_set_copy(&fsm->states[a].epsilons, fsm->alloc, fsm->states[b].epsilons)) {
 		return 0;
@@ -45,23 +108,26 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 			}
 		}
 
-		for (edge_set_reset(fsm->states[i].edges, &it); edge_set_next(&it, &e); ) {
-			if (e.state != b) {
-				continue;
-			}
-
-			if (!fsm_addedge_literal(fsm, i, a, e.symbol)) {
+		if (fsm->states[i].edges != NULL) {
+			if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, b, a)) {
 				return 0;
 			}
 		}
+	}
 
-		edge_set_remove_state(&fsm->states[i].edges, b);
+	if (fsm_getstart(fsm, &start) && start == b) {
+		fsm_setstart(fsm, a);
 	}
 
 	if (!fsm_removestate(fsm, b)) {
 		return 0;
 	}
 
+	/* the last state has been renumbered in place of b */
+	if (a == fsm->statecount) {
+		a = b;
+	}
+
 	if (q != NULL) {
 		*q = a;
 	}
-- 
2.43.0


From 6b3d6a24bf9ee34a12b858a967a0860a04685c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 024/152] fix: fsm_trim() of an FSM without states reported one
 state removed

---
 src/libfsm/trim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/trim.c b/src/libfsm/trim.c
index c37965f..fb6cad0 100644
--- a/src/libfsm/trim.c
+++ b/src/libfsm/trim.c
@@ -506,7 +506,7 @@ fsm_trim(struct fsm *fsm, enum fsm_trim_mode mode,
 	assert(fsm != NULL);
 
 	if (fsm->statecount == 0) {
-		return 1;
+		return 0; /* nothing to remove */
 	}
 
 	if (shortest_end_distance != NULL
-- 
2.43.0


From c35cf6a3b3f77e236c033107b5ed3e8f191c0119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 025/152] fix: fsm_generate_matches() started from the wrong
 state when trimming renumbers the start state

Also do not assert when no end state is reachable.
---
 src/libfsm/gen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libfsm/gen.c b/src/libfsm/gen.c
index 8b85514..58dd092 100644
--- a/src/libfsm/gen.c
+++ b/src/libfsm/gen.c
@@ -323,6 +323,13 @@ gen_init(struct gen_ctx *ctx, struct fsm *fsm)
 		ctx->state_counts[i] = NO_COUNT;
 	}
 
+	/* States are renumbered by trimming, and the start state
+	 * is trimmed too when it cannot reach an end. */
+	if (!fsm_getstart(ctx->fsm, &start)) {
+		ctx->done = true;	/* nothing to generate */
+		return true;
+	}
+
 	if (!enter_state(ctx, start)) {
 		return false;
 	}
-- 
2.43.0


From da65b1cdb01f3a6a7c2cbfccfbf4af2e25c7f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 026/152] fix: fsm_shortest() could return the goal state for
 an unreachable goal

---
 src/libfsm/shortest.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 45a441a..0718ad3 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -167,11 +167,12 @@ none:
 	 * This is slightly ugly: the idea is to return something non-NULL here;
 	 * so that the caller may distinguish this case from error.
 	 *
-	 * The state u is used just because it may never be the goal state,
-	 * (otherwise we would have been able to reach it).
+	 * The start state is used just because it may never be the goal state,
+	 * (otherwise we would have been able to reach it). The unreachable
+	 * state u may well be the goal.
 	 */
 
-	if (!path_push(fsm->alloc, &path, u->state, u->c)) {
+	if (!path_push(fsm->alloc, &path, start, '\0')) {
 		goto error;
 	}
 
-- 
2.43.0


From 5ea71aa55eba241653213e9a5338427876808ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 027/152] fix: fsm_shortest() ignored its start state and
 searched from the FSM's

---
 src/libfsm/shortest.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 0718ad3..44aadd2 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -37,8 +37,6 @@ fsm_shortest(const struct fsm *fsm,
 	assert(goal < fsm->statecount);
 	assert(cost != NULL);
 
-	(void)start; /* unused */
-
 	/*
 	 * We find a least-cost ("shortest") path by Dijkstra's algorithm.
 	 *
@@ -64,16 +62,11 @@ fsm_shortest(const struct fsm *fsm,
 	path = NULL;
 
 	{
-		fsm_state_t qs, i;
-
-		if (!fsm_getstart(fsm, &qs)) {
-			errno = EINVAL;
-			goto error;
-		}
+		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
 			u = priq_push(fsm->alloc, &todo, i,
-				i == qs ? 0 : FSM_COST_INFINITY);
+				i == start ? 0 : FSM_COST_INFINITY);
 			if (u == NULL) {
 				goto error;
 			}
@@ -82,7 +75,7 @@ fsm_shortest(const struct fsm *fsm,
 			 * It's non-sensical to describe the start state as being reached
 			 * by a symbol; this field is not used.
 			 */
-			if (i == qs) {
+			if (i == start) {
 				u->c = '\0';
 			}
 		}
-- 
2.43.0


From e994229785b401decd77b183c75358541aae2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 028/152] fix: fsm_shortest() considered only the first label
 of an edge, and let infinite costs wrap around

The path found was not the least-cost one where several labels lead to the
same state. Costs of FSM_COST_INFINITY were added to and wrapped.
---
 src/libfsm/shortest.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 44aadd2..9499735 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -112,21 +112,32 @@ fsm_shortest(const struct fsm *fsm,
 
 			assert(v->state == info.to);
 
-			/* find first character in bitset. */
-			for (size_t i = 0; i < 4 && symbol == (unsigned)-1; i++) {
+			/* find the character of least cost in the bitset. */
+			c = FSM_COST_INFINITY;
+			for (size_t i = 0; i < 4; i++) {
 				const uint64_t w = info.symbols[i];
 				if (w != 0) {
 					for (size_t bit = 0; bit < 64; bit++) {
-						if (u64bitset_get(&w, bit)) {
+						unsigned k;
+
+						if (!u64bitset_get(&w, bit)) {
+							continue;
+						}
+
+						k = cost(u->state, v->state, (char)(64*i + bit));
+						if (symbol == (unsigned)-1 || k < c) {
 							symbol = 64*i + bit;
-							break;
+							c = k;
 						}
 					}
 				}
 			}
 			assert(symbol != (unsigned)-1); /* found */
 
-			c = cost(u->state, v->state, (char)symbol);
+			/* infinity plus anything is infinity */
+			if (c >= FSM_COST_INFINITY - u->cost) {
+				continue;
+			}
 
 			/* relax */
 			if (v->cost > u->cost + c) {
-- 
2.43.0


From 1d86bb79c041b50a67774692f4166561f04112b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 029/152] fix: fsm_detect_required_characters() left states
 marked and leaked its stack when out of memory

---
 src/libfsm/detect_required.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/detect_required.c b/src/libfsm/detect_required.c
index 8488376..73d23ce 100644
--- a/src/libfsm/detect_required.c
+++ b/src/libfsm/detect_required.c
@@ -181,7 +181,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 				struct stack_frame *nframes = f_realloc(dfa->alloc,
 				    env.stack.frames, nceil * sizeof(nframes[0]));
 				if (nframes == NULL) {
-					return FSM_DETECT_REQUIRED_CHARACTERS_ERROR_ALLOC;
+					goto cleanup;
 				}
 
 				env.stack.frames = nframes;
-- 
2.43.0


From 2abc46a507a530a1a1e0d6ce230e0be42ce8e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 030/152] fix: re_strings(): inherit matches through failure
 links

---
 src/libre/ac.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index e941260..2e1de00 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -174,6 +174,21 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 	return g;
 }
 
+/* a state also reports everything its failure state reports */
+static int
+inherit_output(struct trie_state *st)
+{
+	assert(st->fail != NULL);
+
+	if (!st->fail->output) {
+		return 1;
+	}
+
+	st->output = 1;
+
+	return state_set_copy(&st->endids, NULL, st->fail->endids);
+}
+
 int
 trie_add_failure_edges(struct trie_graph *g) {
 	struct trie_state **q;
@@ -197,6 +212,10 @@ trie_add_failure_edges(struct trie_graph *g) {
 		}
 
 		st->fail = g->root;
+		if (!inherit_output(st)) {
+			goto error;
+		}
+
 		q[top++] = st;
 	}
 
@@ -233,7 +252,9 @@ trie_add_failure_edges(struct trie_graph *g) {
 				nx->fail = fs;
 			}
 
-			nx->output = nx->output | fs->output;
+			if (!inherit_output(nx)) {
+				goto error;
+			}
 		}
 	}
 
@@ -242,6 +263,12 @@ trie_add_failure_edges(struct trie_graph *g) {
 	free(q);
 
 	return 0;
+
+error:
+
+	free(q);
+
+	return -1;
 }
 
 static struct trie_state *
-- 
2.43.0


From a5af14a368f270a8f7847384fbd49c353256f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 031/152] fix: fsm_vm_match_file() rejected empty files
 regardless

---
 src/libfsm/vm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index 0eb4fa1..fff4cc7 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -193,7 +193,12 @@ fsm_vm_match_file(const struct fsm_dfavm *vm, FILE *f)
 	enum dfavm_state result;
 	char buf[4096];
 
-	result = VM_FAIL;
+	/* run up to the first fetch, in case there's nothing to read */
+	result = vm_match(vm, &st, buf, 0);
+	if (result != VM_MATCHING) {
+		return result == VM_SUCCESS;
+	}
+
 	for (;;) {
 		size_t nb;
 
-- 
2.43.0


From d2644cc827af6c6a0c436d3620557151c7ea4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 032/152] fix: decoding a far branch shifted into the sign bit

---
 src/libfsm/vm/v1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/vm/v1.c b/src/libfsm/vm/v1.c
index c9af206..0d34a86 100644
--- a/src/libfsm/vm/v1.c
+++ b/src/libfsm/vm/v1.c
@@ -411,7 +411,8 @@ vm_match_v1(const struct dfavm_v1 *vm, struct vm_state *st, const char *buf, siz
 						uint32_t u;
 						int32_t  i;
 					} packed;
-					packed.u = vm->ops[off+0] | (vm->ops[off+1] << 8) | (vm->ops[off+2] << 16) | (vm->ops[off+3] << 24);
+					packed.u = (uint32_t) vm->ops[off+0] | ((uint32_t) vm->ops[off+1] << 8)
+						| ((uint32_t) vm->ops[off+2] << 16) | ((uint32_t) vm->ops[off+3] << 24);
 					rel = packed.i;
 				}
 
-- 
2.43.0


From 21bf10556008726a3a789833ef01bec0e7ea6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 033/152] fix: VM encoding v2 truncated the index of far
 branches beyond 65536

---
 src/libfsm/vm.c    | 2 ++
 src/libfsm/vm/v2.c | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index fff4cc7..65a8e9c 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -121,6 +121,8 @@ fsm_vm_compile_with_options(const struct fsm *fsm,
 
 	vm = dfavm_compile_vm(&a, vmopts);
 	if (vm == NULL) {
+		free_retlist(&retlist);
+		dfavm_opasm_finalize_op(&a);
 		return NULL;
 	}
 
diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index e217f6d..24f7c38 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -5,6 +5,7 @@
  */
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -123,6 +124,12 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 						vm->abuf = new_abuf;
 					}
 
+					if (alen > UINT16_MAX) {
+						/* no room for this index in an instruction */
+						errno = E2BIG;
+						goto error;
+					}
+
 					assert(alen < acap);
 					assert(abuf != NULL);
 
@@ -158,6 +165,7 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 
 error:
 	if (ret != NULL) {
+		dfavm_v2_finalize(&ret->u.v2);
 		free(ret);
 	}
 
-- 
2.43.0


From 72b71e87bd8e1b9e298f59e072c26f98a601be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 034/152] fix: fsm(5) end ids were read as hexadecimal but
 written as decimal

---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 2596c3c..7b9d4f5 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -258,7 +258,7 @@
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index ec9bf4f..2d90b41 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -1305,7 +1305,7 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
-- 
2.43.0


From 9bad35fe3e8d1ba5b1235cc35b27c6fa0abd251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 035/152] fix: missing parenthesis in generated fsm(3) API
 programs

---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 43b8cb2..0dca60e 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -126,7 +126,7 @@ fsm_print_api(FILE *f,
 	fprintf(f, "\t\t}\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i]) {\n");
+	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i])) {\n");
 	fprintf(f, "\t\t\treturn 0;\n");
 	fprintf(f, "\t\t}\n");
 
-- 
2.43.0


From aa1494f0d08cfe1f86ced1306c182d4f9d5efa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 036/152] fix: generated fsm(3) API programs numbered the end
 ids instead of giving them

---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 0dca60e..fdf0705 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -154,7 +154,7 @@ fsm_print_api(FILE *f,
 
 			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
 			for (size_t id = 0; id < count; id++) {
-				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %zu)) { return 0; }\n", end, id);
+				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %u)) { return 0; }\n", end, ids[id]);
 			}
 			fprintf(f, "\t}\n");
 			fprintf(f, "\n");
-- 
2.43.0


From be9e7f19b4d7753c35966f0ce3a93b29a12db0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 037/152] fix: generated fsm(3) API programs left *y
 unconnected when the start is the end state

---
 src/libfsm/print/api.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index fdf0705..71e4b77 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -49,7 +49,7 @@ fsm_print_api(FILE *f,
 	const struct fsm *fsm_orig)
 {
 	struct fsm *fsm;
-	fsm_state_t start, end;
+	fsm_state_t start, end, endid_state;
 	struct bm *a; /* indexed by "to" state number */
 	unsigned int from;
 
@@ -77,6 +77,20 @@ fsm_print_api(FILE *f,
 		goto error;
 	}
 
+	/* end ids are taken from the single end state, if there is just one */
+	endid_state = end;
+
+	/* *x and *y are separate states */
+	if (end == start) {
+		if (!fsm_addstate(fsm, &end)) {
+			goto error;
+		}
+
+		if (!fsm_addedge_epsilon(fsm, start, end)) {
+			goto error;
+		}
+	}
+
 /* TODO: leaf callback for opaques */
 
 	if (opt->fragment) {
@@ -138,7 +152,7 @@ fsm_print_api(FILE *f,
 	{
 		size_t count;
 
-		count = fsm_endid_count(fsm, end);
+		count = fsm_endid_count(fsm, endid_state);
 		if (count > 0) {
 			fsm_end_id_t *ids;
 			int res;
@@ -149,7 +163,7 @@ fsm_print_api(FILE *f,
 				goto error;
 			}
 
-			res = fsm_endid_get(fsm, end, count, ids);
+			res = fsm_endid_get(fsm, endid_state, count, ids);
 			assert(res == 1);
 
 			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
-- 
2.43.0


From d7a7e3f28dbd6aa57623e08a95dbdca24493ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 038/152] fix: printing a character class omitted the character
 following a shortened range

---
 src/adt/bitmap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 1fb0160..6e43c43 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -247,6 +247,10 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 				return -1;
 			}
 			n += r;
+
+			/* the next character may also be present,
+			 * when this range was cut short above */
+			hi = hi - 1;
 			break;
 		}
 	}
-- 
2.43.0


From 0bff8a85016fa87fe82d94f20543eb68d958c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 039/152] fix: bm_count counts exactly the 256 bits of the map

The map had a word for every eight bits rather than for every 64, and
bm_count looked at sizeof(size_t) of them, so after bm_invert the unused
words were counted too.
---
 include/adt/bitmap.h | 2 +-
 src/adt/bitmap.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/adt/bitmap.h b/include/adt/bitmap.h
index 61c4f9a..22d6bdf 100644
--- a/include/adt/bitmap.h
+++ b/include/adt/bitmap.h
@@ -17,7 +17,7 @@ struct fsm_state;
 struct fsm_options;
 
 struct bm {
-	uint64_t map[(UCHAR_MAX + 1)/sizeof(uint64_t)];
+	uint64_t map[(UCHAR_MAX + 1)/(sizeof(uint64_t) * CHAR_BIT)];
 };
 
 int
diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 6e43c43..2c0043e 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -82,7 +82,7 @@ bm_count(const struct bm *bm)
 
 	count = 0;
 
-	for (n = 0; n < sizeof(sizeof(bm->map)/sizeof(bm->map[0])); n++) {
+	for (n = 0; n < sizeof(bm->map)/sizeof(bm->map[0]); n++) {
 		count += u64bitset_popcount(bm->map[n]);
 	}
 
-- 
2.43.0


From 94abc895a6f567fb62ac9e6b6d8ac60bd2964945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 040/152] fix: idmap_set wrote past the values when the largest
 is a multiple of 64

---
 src/adt/idmap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adt/idmap.c b/src/adt/idmap.c
index e3facfa..eba70ea 100644
--- a/src/adt/idmap.c
+++ b/src/adt/idmap.c
@@ -40,12 +40,8 @@ struct idmap {
 
 static unsigned
 value_words(unsigned max_value) {
-	if (max_value == 0) {
-		/* Still allocate one word, for storing 0. */
-		return 1;
-	} else {
-		return u64bitset_words(max_value);
-	}
+	/* Room for the values 0..max_value. */
+	return max_value/64 + 1;
 }
 
 struct idmap *
-- 
2.43.0


From 4d662fdfb5b2fd91c42939db6dca1f8378587c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 041/152] fix: bm_snprint aborted when its output had to be cut
 short

---
 src/adt/bitmap.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 2c0043e..cb0348a 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -318,11 +318,13 @@ bm_snprint(const struct bm *bm, const struct fsm_options *opt,
 	 * (although setting errno is bad form) */
 
 #ifndef NDEBUG
-	assert(fgetc(f) == EOF);
-	if (ferror(f)) {
-		goto error;
+	if (n == (size_t) r + 1) {
+		assert(fgetc(f) == EOF);
+		if (ferror(f)) {
+			goto error;
+		}
+		assert(feof(f));
 	}
-	assert(feof(f));
 #endif
 
 	s[n - 1] = '\0';
-- 
2.43.0


From 28cf9aa18582ed3d9f70a66e20c9d0bb06439c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 042/152] fix: bm_print did not return the length of its output
 for the full set

---
 src/adt/bitmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index cb0348a..51efe2b 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -150,7 +150,7 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 	/* XXX: all literal characters here really should go through escputc */
 
 	if (mode == MODE_ANY) {
-		return fputs("/./", f);
+		return fprintf(f, "/./");
 	}
 
 	n = 0;
-- 
2.43.0


From ed4535f425de6127d290fad1a174eadb4f860603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:24 +0000
Subject: [PATCH 043/152] fix: extended-mode comments ended at a carriage
 return, and tokens in them could hide the newline

---
 src/libre/dialect/glob/parser.c    | 54 ++++++++++++++--------------
 src/libre/dialect/like/parser.c    | 54 ++++++++++++++--------------
 src/libre/dialect/literal/parser.c | 54 ++++++++++++++--------------
 src/libre/dialect/native/parser.c  | 54 ++++++++++++++--------------
 src/libre/dialect/pcre/parser.c    | 54 ++++++++++++++--------------
 src/libre/dialect/sql/parser.c     | 54 ++++++++++++++--------------
 src/libre/parser.act               | 56 +++++++++++++++---------------
 7 files changed, 190 insertions(+), 190 deletions(-)

diff --git a/src/libre/dialect/glob/parser.c b/src/libre/dialect/glob/parser.c
index b20798f..9f84e01 100644
--- a/src/libre/dialect/glob/parser.c
+++ b/src/libre/dialect/glob/parser.c
@@ -225,38 +225,38 @@
 			}
 		} 
 
-		int extended_mode_comment = 0;
-
 	restart:
 
-		if (extended_mode_comment) {
-			switch (act_state->lex_tok) {
-			case TOK_EOF:
-			case TOK_ERROR:
-			case TOK_UNKNOWN:
-				/* don't eat EOF or errors */
-				return act_state->lex_tok;
+		switch (act_state->lex_tok) {
+		case TOK_MAYBE_COMMENT:
+			/*
+			 * Everything up to and including the newline is ignored,
+			 * whatever tokens it would form elsewhere. So this skips
+			 * characters rather than tokens; an escape or a '[' there
+			 * has no meaning, and must not swallow the newline.
+			 */
+			while (lex_state->lx.lgetc != NULL) {
+				int c = lex_state->lx.c;
 
-			case TOK_NEWLINE:
-				extended_mode_comment = 0;
-				/* fall through */
-			default:
-				advance_lexer(lex_state, act_state);
-				goto restart;
-			}
-		} else {
-			switch (act_state->lex_tok) {
-			case TOK_MAYBE_COMMENT:
-				extended_mode_comment = 1;
-				/* fall through */
-			case TOK_WHITESPACE:
-			case TOK_NEWLINE:
-				advance_lexer(lex_state, act_state);
-				goto restart;
+				lex_state->lx.c = EOF;
+				if (c == EOF && (c = lex_state->lx.lgetc(&lex_state->lx)) == EOF) {
+					lex_state->lx.lgetc = NULL;
+					break;
+				}
 
-			default:
-				return act_state->lex_tok;
+				lex_state->lx.end.byte++;
+				if (c == '\n') {
+					break;
+				}
 			}
+			/* fall through */
+		case TOK_WHITESPACE:
+		case TOK_NEWLINE:
+			advance_lexer(lex_state, act_state);
+			goto restart;
+
+		default:
+			return act_state->lex_tok;
 		}
 #endif
 	}
diff --git a/src/libre/dialect/like/parser.c b/src/libre/dialect/like/parser.c
index 008bd2b..455bfc1 100644
--- a/src/libre/dialect/like/parser.c
+++ b/src/libre/dialect/like/parser.c
@@ -225,38 +225,38 @@
 			}
 		} 
 
-		int extended_mode_comment = 0;
-
 	restart:
 
-		if (extended_mode_comment) {
-			switch (act_state->lex_tok) {
-			case TOK_EOF:
-			case TOK_ERROR:
-			case TOK_UNKNOWN:
-				/* don't eat EOF or errors */
-				return act_state->lex_tok;
+		switch (act_state->lex_tok) {
+		case TOK_MAYBE_COMMENT:
+			/*
+			 * Everything up to and including the newline is ignored,
+			 * whatever tokens it would form elsewhere. So this skips
+			 * characters rather than tokens; an escape or a '[' there
+			 * has no meaning, and must not swallow the newline.
+			 */
+			while (lex_state->lx.lgetc != NULL) {
+				int c = lex_state->lx.c;
 
-			case TOK_NEWLINE:
-				extended_mode_comment = 0;
-				/* fall through */
-			default:
-				advance_lexer(lex_state, act_state);
-				goto restart;
-			}
-		} else {
-			switch (act_state->lex_tok) {
-			case TOK_MAYBE_COMMENT:
-				extended_mode_comment = 1;
-				/* fall through */
-			case TOK_WHITESPACE:
-			case TOK_NEWLINE:
-				advance_lexer(lex_state, act_state);
-				goto restart;
+				lex_state->lx.c = EOF;
+				if (c == EOF && (c = lex_state->lx.lgetc(&lex_state->lx)) == EOF) {
+					lex_state->lx.lgetc = NULL;
+					break;
+				}
 
-			default:
-				return act_state->lex_tok;
+				lex_state->lx.end.byte++;
+				if (c == '\n') {
+					break;
+				}
 			}
+			/* fall through */
+		case TOK_WHITESPACE:
+		case TOK_NEWLINE:
+			advance_lexer(lex_state, act_state);
+			goto restart;
+
+		default:
+			return act_state->lex_tok;
 		}
 #endif
 	}
diff --git a/src/libre/dialect/literal/parser.c b/src/libre/dialect/literal/parser.c
index 5d1dc82..b38d26a 100644
--- a/src/libre/dialect/literal/parser.c
+++ b/src/libre/dialect/literal/parser.c
@@ -225,38 +225,38 @@
 			}
 		} 
 
-		int extended_mode_comment = 0;
-
 	restart:
 
-		if (extended_mode_comment) {
-			switch (act_state->lex_tok) {
-			case TOK_EOF:
-			case TOK_ERROR:
-			case TOK_UNKNOWN:
-				/* don't eat EOF or errors */
-				return act_state->lex_tok;
+		switch (act_state->lex_tok) {
+		case TOK_MAYBE_COMMENT:
+			/*
+			 * Everything up to and including the newline is ignored,
+			 * whatever tokens it would form elsewhere. So this skips
+			 * characters rather than tokens; an escape or a '[' there
+			 * has no meaning, and must not swallow the newline.
+			 */
+			while (lex_state->lx.lgetc != NULL) {
+				int c = lex_state->lx.c;
 
-			case TOK_NEWLINE:
-				extended_mode_comment = 0;
-				/* fall through */
-			default:
-				advance_lexer(lex_state, act_state);
-				goto restart;
-			}
-		} else {
-			switch (act_state->lex_tok) {
-			case TOK_MAYBE_COMMENT:
-				extended_mode_comment = 1;
-				/* fall through */
-			case TOK_WHITESPACE:
-			case TOK_NEWLINE:
-				advance_lexer(lex_state, act_state);
-				goto restart;
+				lex_state->lx.c = EOF;
+				if (c == EOF && (c = lex_state->lx.lgetc(&lex_state->lx)) == EOF) {
+					lex_state->lx.lgetc = NULL;
+					break;
+				}
 
-			default:
-				return act_state->lex_tok;
+				lex_state->lx.end.byte++;
+				if (c == '\n') {
+					break;
+				}
 			}
+			/* fall through */
+		case TOK_WHITESPACE:
+		case TOK_NEWLINE:
+			advance_lexer(lex_state, act_state);
+			goto restart;
+
+		default:
+			return act_state->lex_tok;
 		}
 #endif
 	}
diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 63c5f8c..f2d46af 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -225,38 +225,38 @@
 			}
 		} 
 
-		int extended_mode_comment = 0;
-
 	restart:
 
-		if (extended_mode_comment) {
-			switch (act_state->lex_tok) {
-			case TOK_EOF:
-			case TOK_ERROR:
-			case TOK_UNKNOWN:
-				/* don't eat EOF or errors */
-				return act_state->lex_tok;
+		switch (act_state->lex_tok) {
+		case TOK_MAYBE_COMMENT:
+			/*
+			 * Everything up to and including the newline is ignored,
+			 * whatever tokens it would form elsewhere. So this skips
+			 * characters rather than tokens; an escape or a '[' there
+			 * has no meaning, and must not swallow the newline.
+			 */
+			while (lex_state->lx.lgetc != NULL) {
+				int c = lex_state->lx.c;
 
-			case TOK_NEWLINE:
-				extended_mode_comment = 0;
-				/* fall through */
-			default:
-				advance_lexer(lex_state, act_state);
-				goto restart;
-			}
-		} else {
-			switch (act_state->lex_tok) {
-			case TOK_MAYBE_COMMENT:
-				extended_mode_comment = 1;
-				/* fall through */
-			case TOK_WHITESPACE:
-			case TOK_NEWLINE:
-				advance_lexer(lex_state, act_state);
-				goto restart;
+				lex_state->lx.c = EOF;
+				if (c == EOF && (c = lex_state->lx.lgetc(&lex_state->lx)) == EOF) {
+					lex_state->lx.lgetc = NULL;
+					break;
+				}
 
-			default:
-				return act_state->lex_tok;
+				lex_state->lx.end.byte++;
+				if (c == '\n') {
+					break;
+				}
 			}
+			/* fall through */
+		case TOK_WHITESPACE:
+		case TOK_NEWLINE:
+			advance_lexer(lex_state, act_state);
+			goto restart;
+
+		default:
+			return act_state->lex_tok;
 		}
 #endif
 	}
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index e59fee0..0331d8e 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -225,38 +225,38 @@
 			}
 		} 
 
-		int extended_mode_comment = 0;
-
 	restart:
 
-		if (extended_mode_comment) {
-			switch (act_state->lex_tok) {
-			case TOK_EOF:
-			case TOK_ERROR:
-			case TOK_UNKNOWN:
-				/* don't eat EOF or errors */
-				return act_state->lex_tok;
+		switch (act_state->lex_tok) {
+		case TOK_MAYBE_COMMENT:
+			/*
+			 * Everything up to and including the newline is ignored,
+			 * whatever tokens it would form elsewhere. So this skips
+			 * characters rather than tokens; an escape or a '[' there
+			 * has no meaning, and must not swallow the newline.
+			 */
+			while (lex_state->lx.lgetc != NULL) {
+				int c = lex_state->lx.c;
 
-			case TOK_NEWLINE:
-				extended_mode_comment = 0;
-				/* fall through */
-			default:
-				advance_lexer(lex_state, act_state);
-				goto restart;
-			}
-		} else {
-			switch (act_state->lex_tok) {
-			case TOK_MAYBE_COMMENT:
-				extended_mode_comment = 1;
-				/* fall through */
-			case TOK_WHITESPACE:
-			case TOK_NEWLINE:
-				advance_lexer(lex_state, act_state);
-				goto restart;
+				lex_state->lx.c = EOF;
+				if (c == EOF && (c = lex_state->lx.lgetc(&lex_state->lx)) == EOF) {
+					lex_state->lx.lgetc = NULL;
+					break;
+				}
 
-			default:
-				return act_state->lex_tok;
+				lex_state->lx.end.byte++;
+				if (c == '\n') {
+					break;
+				}
 			}
+			/* fall through */
+		case TOK_WHITESPACE:
+		case TOK_NEWLINE:
+			advance_lexer(lex_state, act_state);
+			goto restart;
+
+		default:
+			return act_state->lex_tok;
 		}
 #endif
 	}
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index e7a4c2e..118dd0d 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -225,38 +225,38 @@
 			}
 		} 
 
-		int extended_mode_comment = 0;
-
 	restart:
 
-		if (extended_mode_comment) {
-			switch (act_state->lex_tok) {
-			case TOK_EOF:
-			case TOK_ERROR:
-			case TOK_UNKNOWN:
-				/* don't eat EOF or errors */
-				return act_state->lex_tok;
+		switch (act_state->lex_tok) {
+		case TOK_MAYBE_COMMENT:
+			/*
+			 * Everything up to and including the newline is ignored,
+			 * whatever tokens it would form elsewhere. So this skips
+			 * characters rather than tokens; an escape or a '[' there
+			 * has no meaning, and must not swallow the newline.
+			 */
+			while (lex_state->lx.lgetc != NULL) {
+				int c = lex_state->lx.c;
 
-			case TOK_NEWLINE:
-				extended_mode_comment = 0;
-				/* fall through */
-			default:
-				advance_lexer(lex_state, act_state);
-				goto restart;
-			}
-		} else {
-			switch (act_state->lex_tok) {
-			case TOK_MAYBE_COMMENT:
-				extended_mode_comment = 1;
-				/* fall through */
-			case TOK_WHITESPACE:
-			case TOK_NEWLINE:
-				advance_lexer(lex_state, act_state);
-				goto restart;
+				lex_state->lx.c = EOF;
+				if (c == EOF && (c = lex_state->lx.lgetc(&lex_state->lx)) == EOF) {
+					lex_state->lx.lgetc = NULL;
+					break;
+				}
 
-			default:
-				return act_state->lex_tok;
+				lex_state->lx.end.byte++;
+				if (c == '\n') {
+					break;
+				}
 			}
+			/* fall through */
+		case TOK_WHITESPACE:
+		case TOK_NEWLINE:
+			advance_lexer(lex_state, act_state);
+			goto restart;
+
+		default:
+			return act_state->lex_tok;
 		}
 #endif
 	}
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 984036c..7a9548f 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -234,38 +234,38 @@
 			}
 		} 
 
-		int extended_mode_comment = 0;
-
 	restart:
 
-		if (extended_mode_comment) {
-			switch (act_state->lex_tok) {
-			case TOK_EOF:
-			case TOK_ERROR:
-			case TOK_UNKNOWN:
-				/* don't eat EOF or errors */
-				return act_state->lex_tok;
-
-			case TOK_NEWLINE:
-				extended_mode_comment = 0;
-				/* fall through */
-			default:
-				advance_lexer(lex_state, act_state);
-				goto restart;
+		switch (act_state->lex_tok) {
+		case TOK_MAYBE_COMMENT:
+			/*
+			 * Everything up to and including the newline is ignored,
+			 * whatever tokens it would form elsewhere. So this skips
+			 * characters rather than tokens; an escape or a '[' there
+			 * has no meaning, and must not swallow the newline.
+			 */
+			while (lex_state->lx.lgetc != NULL) {
+				int c = lex_state->lx.c;
+
+				lex_state->lx.c = EOF;
+				if (c == EOF && (c = lex_state->lx.lgetc(&lex_state->lx)) == EOF) {
+					lex_state->lx.lgetc = NULL;
+					break;
+				}
+
+				lex_state->lx.end.byte++;
+				if (c == '\n') {
+					break;
+				}
 			}
-		} else {
-			switch (act_state->lex_tok) {
-			case TOK_MAYBE_COMMENT:
-				extended_mode_comment = 1;
-				/* fall through */
-			case TOK_WHITESPACE:
-			case TOK_NEWLINE:
-				advance_lexer(lex_state, act_state);
-				goto restart;
+			/* fall through */
+		case TOK_WHITESPACE:
+		case TOK_NEWLINE:
+			advance_lexer(lex_state, act_state);
+			goto restart;
 
-			default:
-				return act_state->lex_tok;
-			}
+		default:
+			return act_state->lex_tok;
 		}
 #endif
 	}
-- 
2.43.0


From 7733e662f1b7e66220d84f042e0ad79625dfb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 044/152] fix: an alternative which cannot match took the other
 alternatives with it

---
 src/libre/ast_rewrite.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 592dd58..b6cb5da 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -323,6 +323,35 @@ rewrite_alt(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flag
 		}
 	}
 
+	/* Tombstones cannot match, so they contribute nothing to the alternatives
+	 * they're amongst. When there's nothing else, there's nothing to match. */
+	{
+		size_t dst;
+
+		dst = 0;
+
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (n->u.alt.n[i]->type == AST_EXPR_TOMBSTONE) {
+				ast_expr_free(*poolp, n->u.alt.n[i]);
+				continue;
+			}
+
+			n->u.alt.n[dst] = n->u.alt.n[i];
+			dst++;
+		}
+
+		if (dst == 0 && n->u.alt.count > 0) {
+			free(n->u.alt.n);
+			n->u.alt.n = NULL;
+
+			n->type = AST_EXPR_TOMBSTONE;
+
+			return 1;
+		}
+
+		n->u.alt.count = dst;
+	}
+
 	/*
 	 * Empty children do have a semantic effect; for dialects with anchors,
 	 * they affect the anchoring. So we cannot remove those in general here.
-- 
2.43.0


From 12a914c79bea7fef44205f46b86091fff53f22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 045/152] fix: nested repetition of an exact count failed an
 assertion

---
 src/libre/ast_rewrite.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index b6cb5da..dc76f1d 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -519,16 +519,6 @@ rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 			return 1;
 		}
 
-		/*
-		 * a{h,i}{j,k} is equivalent to a{h*j,i*k} if it's possible to combine,
-		 * and it's possible iff the range of the result is not more than
-		 * the sum of the ranges of the two inputs.
-		 */
-		if (i != AST_COUNT_UNBOUNDED && k != AST_COUNT_UNBOUNDED) {
-			/* I don't know why this is true */
-			assert(w - v > i - h + k - j);
-		}
-
 		/*
 		 * a{h,}{j,}
 		 * a{h,i}{j,}
-- 
2.43.0


From eac8f30adf8b578c1304a4c84c0a429cf0119090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 046/152] fix: an end anchor was dropped in favour of a more
 permissive one before it

---
 src/libre/ast_rewrite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index dc76f1d..cd2de2f 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -186,6 +186,11 @@ rewrite_concat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 					break;
 				}
 
+				/* the stricter of two end anchors prevails */
+				if (atype == AST_ANCHOR_END && !child->u.anchor.is_end_nl) {
+					n->u.concat.n[i]->u.anchor.is_end_nl = 0;
+				}
+
 				/* delete node */
 				ast_expr_free(*poolp, n->u.concat.n[j]);
 				if (j + 1 < n->u.concat.count) {
-- 
2.43.0


From 8c0bb82677c32c2a3e61e36bea6473ff0d387719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 047/152] fix: an unsupported alternative was silently dropped
 from the pattern

---
 src/libre/ast_analysis.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5a6b41b..55b6c33 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1009,8 +1009,6 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 					all_set_past_always_consuming &= child_env.past_always_consuming;
 					any_sat = 1;
 				}
-			} else if (res == AST_ANALYSIS_ERROR_UNSUPPORTED) {
-				continue;
 			} else {
 				return res;
 			}
-- 
2.43.0


From f06e3e543c1b98611ff7de090dca955e967f800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 048/152] fix: anchors in a repeated group were analysed for
 the first repetition only

---
 src/libre/ast_rewrite.c | 113 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 112 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index cd2de2f..b46c2d4 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -440,6 +440,104 @@ empty:
 	return 1;
 }
 
+static int
+contains_anchor(const struct ast_expr *n)
+{
+	size_t i;
+
+	switch (n->type) {
+	case AST_EXPR_ANCHOR:
+		return 1;
+
+	case AST_EXPR_CONCAT:
+		for (i = 0; i < n->u.concat.count; i++) {
+			if (contains_anchor(n->u.concat.n[i])) {
+				return 1;
+			}
+		}
+		return 0;
+
+	case AST_EXPR_ALT:
+		for (i = 0; i < n->u.alt.count; i++) {
+			if (contains_anchor(n->u.alt.n[i])) {
+				return 1;
+			}
+		}
+		return 0;
+
+	case AST_EXPR_REPEAT:
+		return contains_anchor(n->u.repeat.e);
+
+	case AST_EXPR_GROUP:
+		return contains_anchor(n->u.group.e);
+
+	default:
+		return 0;
+	}
+}
+
+/*
+ * Spell out the repetitions which can't be skipped, e.g. x{2,3} -> xx(x{0,1})
+ */
+static int
+expand_repeat(struct ast_expr_pool **poolp, struct ast_expr *n)
+{
+	struct ast_expr *cat, *e;
+	unsigned i;
+
+	cat = ast_make_expr_concat(poolp, n->re_flags);
+	if (cat == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < n->u.repeat.min; i++) {
+		e = n->u.repeat.e;
+
+		if (!ast_expr_clone(poolp, &e)) {
+			goto error;
+		}
+
+		if (!ast_add_expr_concat(cat, e)) {
+			ast_expr_free(*poolp, e);
+			goto error;
+		}
+	}
+
+	if (n->u.repeat.max > n->u.repeat.min) {
+		struct ast_count count;
+
+		count = ast_make_count(0, n->u.repeat.max == AST_COUNT_UNBOUNDED
+			? AST_COUNT_UNBOUNDED
+			: n->u.repeat.max - n->u.repeat.min);
+
+		e = ast_make_expr_repeat(poolp, n->re_flags, n->u.repeat.e, count);
+		if (e == NULL) {
+			goto error;
+		}
+
+		if (!ast_add_expr_concat(cat, e)) {
+			e->type = AST_EXPR_EMPTY;
+			ast_expr_free(*poolp, e);
+			goto error;
+		}
+	} else {
+		ast_expr_free(*poolp, n->u.repeat.e);
+	}
+
+	*n = *cat;
+
+	cat->type = AST_EXPR_EMPTY;
+	ast_expr_free(*poolp, cat);
+
+	return 1;
+
+error:
+
+	ast_expr_free(*poolp, cat);
+
+	return 0;
+}
+
 static int
 rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flags)
 {
@@ -722,7 +820,20 @@ rewrite(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags flags)
 		return 1;
 
 	case AST_EXPR_REPEAT:
-		return rewrite_repeat(poolp, n, flags);
+		if (!rewrite_repeat(poolp, n, flags)) {
+			return 0;
+		}
+
+		/*
+		 * Where an anchor can match depends on what's around it, which differs
+		 * for each repetition. The anchor analysis considers a node just once,
+		 * and so we give it distinct nodes.
+		 */
+		if (n->type == AST_EXPR_REPEAT && n->u.repeat.min > 1 && contains_anchor(n->u.repeat.e)) {
+			return expand_repeat(poolp, n);
+		}
+
+		return 1;
 
 	case AST_EXPR_GROUP:
 		if (!rewrite(poolp, n->u.group.e, flags)) {
-- 
2.43.0


From 60a5994dfb667a12b1a1469229c040f71a33db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 049/152] fix: alternatives which differ by the kind of end
 anchor were taken to be duplicates

---
 src/libre/ast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libre/ast.c b/src/libre/ast.c
index 43da60e..72e4975 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -491,6 +491,9 @@ ast_expr_cmp(const struct ast_expr *a, const struct ast_expr *b)
 		if (a->u.anchor.type < b->u.anchor.type) { return -1; }
 		if (a->u.anchor.type > b->u.anchor.type) { return +1; }
 
+		if (a->u.anchor.is_end_nl < b->u.anchor.is_end_nl) { return -1; }
+		if (a->u.anchor.is_end_nl > b->u.anchor.is_end_nl) { return +1; }
+
 		return 0;
 
 	case AST_EXPR_SUBTRACT: {
-- 
2.43.0


From 88d51eb1f31926ca818e4c4854447fc76355bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 050/152] fix: a newline in a range after $ was taken to be
 unmatchable

---
 src/libre/ast_analysis.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 55b6c33..ffb8413 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -791,6 +791,14 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 	case AST_EXPR_RANGE:
 		if (can_consume_single_newline(n)) {
 			set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
+
+			if (env->newline_after_end_anchor_state == NAEAS_WOULD_MATCH_ONCE) {
+				LOG(3 - LOG_ANCHORING,
+				    "%s: RANGE: rejecting non-optional newline match after $ as unsupported\n",
+				    __func__);
+				set_flags(n, AST_FLAG_UNSATISFIABLE);
+				return AST_ANALYSIS_ERROR_UNSUPPORTED;
+			}
 		}
 		break;		/* handled outside switch/case */
 
-- 
2.43.0


From 9fc641f2e4701028086cc3c4bbf8184cf9b458c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 051/152] fix: an optional repeat after an end anchor was not
 pruned for implicitly anchored patterns

---
 src/libre/ast_analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index ffb8413..ae38035 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1150,7 +1150,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 		 * input, set its max count to 0. This should be based on the after_end_anchor
 		 * flag value *before* analyzing the repeated subtree. */
 		if (orig_after_end_anchor
-		    && always_consumes_input(n)
+		    && always_consumes_input(n->u.repeat.e)
 		    && n->u.repeat.min == 0) {
 			prune_repeat_node(n);
  		}
-- 
2.43.0


From fc3879de666a56461284b1d6bcfa1ebe49f951ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 052/152] fix: an optional anchored group was repeated for
 implicitly anchored patterns

---
 src/libre/ast_analysis.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index ae38035..908da9f 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1135,6 +1135,18 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			n->u.repeat.max = 1;
 		}
 
+		/* An anchored subtree can match at one place only, so repeating it
+		 * doesn't get any further. But there are two places for $ to match
+		 * when the subtree can consume the newline between them. */
+		if (n->u.repeat.min == 0 && n->u.repeat.max > 1
+		    && ((n->u.repeat.e->flags & AST_FLAG_ANCHORED_START)
+			|| ((n->u.repeat.e->flags & AST_FLAG_ANCHORED_END)
+			    && !(n->u.repeat.e->flags & AST_FLAG_MATCHES_1NEWLINE)))) {
+			LOG(3 - LOG_ANCHORING,
+			    "%s: REPEAT: optional anchored subtree, setting max count to 1\n", __func__);
+			n->u.repeat.max = 1;
+		}
+
 		if (can_consume_single_newline(n->u.repeat.e)) {
 			set_flags(n, AST_FLAG_MATCHES_1NEWLINE);
 		}
-- 
2.43.0


From 3744b4e0de9cbd9cae3c876204ec074d43929d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 053/152] fix: an optional alternative which can only match
 empty was ignored when deciding if all are anchored

---
 src/libre/ast_analysis.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 908da9f..1bfb433 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1029,7 +1029,8 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				set_flags(child, AST_FLAG_UNSATISFIABLE);
 			}
 
-			if (!(child->flags & AST_FLAG_UNSATISFIABLE)) { /* ignore unsat nodes */
+			/* ignore unsat nodes, unless skipping them is a way to match */
+			if (!(child->flags & AST_FLAG_UNSATISFIABLE) || is_nullable(child)) {
 				if (!(child->flags & AST_FLAG_ANCHORED_START)) {
 					all_start_anchored = 0;
 				}
-- 
2.43.0


From 83df9cbf3e9a66db3bda80935a38a0677cb7d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 054/152] fix: the start anchor of a repeated unsatisfiable
 group was not considered by what contains it

---
 src/libre/ast_analysis.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 1bfb433..38f2905 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1108,7 +1108,10 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				prune_repeat_node(n);
 				break;
 			} else if (n->u.repeat.min > 0) {
-				set_flags(n, AST_FLAG_UNSATISFIABLE);
+				/* the ancestors still need to know about anchoring,
+				 * as they do for other unsatisfiable nodes */
+				set_flags(n, AST_FLAG_UNSATISFIABLE
+				    | (n->u.repeat.e->flags & AST_FLAG_ANCHORED_START));
 				LOG(3 - LOG_ANCHORING,
 				    "%s: REPEAT: UNSATISFIABLE and must be repeated >0 times -> UNSATISFIABLE\n", __func__);
 				return AST_ANALYSIS_UNSATISFIABLE;
-- 
2.43.0


From b9d020965934ff298dd540a308ab16c72376c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 055/152] fix: a start anchor at the end failed an assertion
 for dialects where $ doesn't match a newline

---
 src/libre/ast_compile.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5d31ef0..8f20c86 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -712,10 +712,14 @@ comp_iter(struct comp_env *env,
 		    && n->flags & AST_FLAG_CONSTRAINED_AT_END) {
 			/* the start anchor is constrained, so only
 			 * link directly to '\n''s end here */
-			if (!intern_end_nl(env)) {
-				return 0;
+			if (env->re_flags & RE_END_NL) {
+				if (!intern_end_nl(env)) {
+					return 0;
+				}
+				y = env->end_nl;
+			} else {
+				y = env->end;
 			}
-			y = env->end_nl;
 		} else {
 			y = env->end;
 		}
-- 
2.43.0


From cb5743fc379d15eeac32e17db886977c83836c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 056/152] fix: subtracting from or by an empty class failed to
 compile

---
 src/libre/ast_rewrite.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index b46c2d4..dc0a8f8 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -721,6 +721,26 @@ rewrite_subtract(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags
 		return 0;
 	}
 
+	/* A tombstone matches nothing, so there's nothing to subtract from */
+	if (n->u.subtract.a->type == AST_EXPR_TOMBSTONE) {
+		ast_expr_free(*poolp, n->u.subtract.a);
+		ast_expr_free(*poolp, n->u.subtract.b);
+		goto tombstone;
+	}
+
+	/* or nothing to subtract */
+	if (n->u.subtract.b->type == AST_EXPR_TOMBSTONE) {
+		struct ast_expr *a = n->u.subtract.a;
+
+		ast_expr_free(*poolp, n->u.subtract.b);
+		*n = *a;
+
+		a->type = AST_EXPR_EMPTY;
+		ast_expr_free(*poolp, a);
+
+		return 1;
+	}
+
 	/* TODO: If the rhs operand is 00-ff, the result is always empty
 	 * (unless RE_UNICODE is set) */
 
-- 
2.43.0


From 1dfa6eb1008f0e3faf61227357c7b0f425228a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 057/152] fix: an end anchor in one alternative or an optional
 part was taken to constrain start anchors elsewhere

---
 src/libre/ast_analysis.c | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 38f2905..5744c4b 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -2176,6 +2176,13 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 		int has_non_consuming_anchored_start = 0;
 		int has_non_consuming_anchored_end = 0;
 
+		/* The alternatives don't follow one another, so what is known about one
+		 * doesn't constrain the next. What follows the ALT is constrained only if
+		 * it would be after each of the alternatives. */
+		const struct pincer_anchors_env before = *env;
+		int all_constrained_start = 1, any_constrained_start = 0;
+		int all_constrained_end = 1, any_constrained_end = 0;
+
 		if (dir == AD_FORWARD) {
 			for (size_t i = 0; i < expr->u.alt.count; i++) {
 				struct ast_expr *child = expr->u.alt.n[i];
@@ -2184,7 +2191,15 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 				    __func__, i, expr->u.alt.count, (void *)child);
 				if (is_unsatisfiable_or_skipped(child)) { continue; }
 
+				env->always_consumes_or_anchored_start = before.always_consumes_or_anchored_start;
+				env->always_consumes_or_anchored_end = before.always_consumes_or_anchored_end;
 				analysis_iter_pincer_anchors(child, env, dir);
+				any_constrained_start |= env->always_consumes_or_anchored_start;
+				all_constrained_start &= env->always_consumes_or_anchored_start
+				    || (child->flags & AST_FLAG_ALWAYS_CONSUMES);
+				any_constrained_end |= env->always_consumes_or_anchored_end;
+				all_constrained_end &= env->always_consumes_or_anchored_end
+				    || (child->flags & AST_FLAG_ALWAYS_CONSUMES);
 				if (child->flags & AST_FLAG_ALWAYS_CONSUMES) {
 					has_always_consuming = 1;
 				} else {
@@ -2219,7 +2234,15 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 				    __func__, i, expr->u.alt.count, (void *)child);
 				if (is_unsatisfiable_or_skipped(child)) { continue; }
 
+				env->always_consumes_or_anchored_start = before.always_consumes_or_anchored_start;
+				env->always_consumes_or_anchored_end = before.always_consumes_or_anchored_end;
 				analysis_iter_pincer_anchors(child, env, dir);
+				any_constrained_start |= env->always_consumes_or_anchored_start;
+				all_constrained_start &= env->always_consumes_or_anchored_start
+				    || (child->flags & AST_FLAG_ALWAYS_CONSUMES);
+				any_constrained_end |= env->always_consumes_or_anchored_end;
+				all_constrained_end &= env->always_consumes_or_anchored_end
+				    || (child->flags & AST_FLAG_ALWAYS_CONSUMES);
 				if (child->flags & AST_FLAG_ALWAYS_CONSUMES) {
 					has_always_consuming = 1;
 				} else {
@@ -2248,6 +2271,11 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 			}
 		}
 
+		env->always_consumes_or_anchored_start = before.always_consumes_or_anchored_start
+		    || (any_constrained_start && all_constrained_start);
+		env->always_consumes_or_anchored_end = before.always_consumes_or_anchored_end
+		    || (any_constrained_end && all_constrained_end);
+
 		if (has_always_consuming
 		    && has_non_consuming_anchored_start
 		    && all_always_consume_or_anchored_start) {
@@ -2272,9 +2300,18 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 		break;
 	}
 
-	case AST_EXPR_REPEAT:
+	case AST_EXPR_REPEAT: {
+		const struct pincer_anchors_env before = *env;
+
 		analysis_iter_pincer_anchors(expr->u.repeat.e, env, dir);
+
+		/* this can be skipped, so it doesn't constrain what follows */
+		if (expr->u.repeat.min == 0) {
+			env->always_consumes_or_anchored_start = before.always_consumes_or_anchored_start;
+			env->always_consumes_or_anchored_end = before.always_consumes_or_anchored_end;
+		}
 		break;
+	}
 
 	case AST_EXPR_GROUP:
 		analysis_iter_pincer_anchors(expr->u.group.e, env, dir);
-- 
2.43.0


From 9cb3fb85d2fd7842331d25edd803c7d658afa746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 058/152] fix: alternatives of which only an optional
 unsatisfiable group can match were rejected entirely

---
 src/libre/ast_analysis.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5744c4b..f6f3379 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1009,14 +1009,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				    __func__, i, (void *)n->u.alt.n[i]);
 				assert(child->flags & AST_FLAG_UNSATISFIABLE);
 			} else if (res == AST_ANALYSIS_OK) {
-				if (child->type == AST_EXPR_REPEAT
-				    && /*child->u.repeat.min == 0 &&*/ child->u.repeat.max == 0) {
-					LOG(3 - LOG_ANCHORING,
-					    "%s: ignoring pruned REPEAT node\n", __func__);
-				} else {
-					all_set_past_always_consuming &= child_env.past_always_consuming;
-					any_sat = 1;
-				}
+				/* A pruned REPEAT node still matches empty */
+				all_set_past_always_consuming &= child_env.past_always_consuming;
+				any_sat = 1;
 			} else {
 				return res;
 			}
-- 
2.43.0


From 3c52393959c71f45d17148a3cca99352f8d2b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 059/152] fix: alternatives in a repeated group were dropped
 along with an unsupported one

---
 src/libre/ast_analysis.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index f6f3379..7d586f9 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -654,6 +654,35 @@ matches_newline(const struct ast_expr *n)
 	return 0;
 }
 
+/* Are there alternatives, which might match when another doesn't? */
+static int
+subtree_contains_alt(const struct ast_expr *n)
+{
+	size_t i;
+
+	switch (n->type) {
+	case AST_EXPR_ALT:
+		return 1;
+
+	case AST_EXPR_CONCAT:
+		for (i = 0; i < n->u.concat.count; i++) {
+			if (subtree_contains_alt(n->u.concat.n[i])) {
+				return 1;
+			}
+		}
+		return 0;
+
+	case AST_EXPR_REPEAT:
+		return subtree_contains_alt(n->u.repeat.e);
+
+	case AST_EXPR_GROUP:
+		return subtree_contains_alt(n->u.group.e);
+
+	default:
+		return 0;
+	}
+}
+
 struct anchoring_env {
 	enum re_flags re_flags;
 
@@ -1112,7 +1141,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				return AST_ANALYSIS_UNSATISFIABLE;
 			}
 		} else if (res != AST_ANALYSIS_OK) {
-			if (n->u.repeat.min == 0) {
+			if (n->u.repeat.min == 0 && !subtree_contains_alt(n->u.repeat.e)) {
 				LOG(3 - LOG_ANCHORING,
 				    "%s: REPEAT: analysis on child returned %d, setting repeat count to 0\n", __func__, res);
 				prune_repeat_node(n);
-- 
2.43.0


From 9a5f349e7c151a65db6488d17d230e016d07f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 060/152] fix: fsm_equal() took failure to mean equal, and
 mistook machines without a start state

---
 src/libfsm/equal.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 02489b0..e955e81 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -115,9 +115,26 @@ subsetof(const struct fsm *a, const struct fsm *b)
 	return r;
 }
 
+static int
+matches_nothing(const struct fsm *fsm)
+{
+	fsm_state_t start;
+
+	assert(fsm != NULL);
+
+	/* fsm_empty() requires a start state */
+	if (!fsm_getstart(fsm, &start)) {
+		return 1;
+	}
+
+	return fsm_empty(fsm);
+}
+
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	int ea, eb, r;
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -126,8 +143,18 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	if (fsm_empty(a) && fsm_empty(b)) {
-		return 1;
+	ea = matches_nothing(a);
+	if (ea == -1) {
+		return -1;
+	}
+
+	eb = matches_nothing(b);
+	if (eb == -1) {
+		return -1;
+	}
+
+	if (ea || eb) {
+		return ea && eb;
 	}
 
 	/*
@@ -136,6 +163,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	 * This is equivalent finding that (a \ b) \u (b \ a) is empty.
 	 */
 
-	return subsetof(a, b) && subsetof(b, a);
+	r = subsetof(a, b);
+	if (r != 1) {
+		return r;
+	}
+
+	return subsetof(b, a);
 }
 
-- 
2.43.0


From 6826618d0763a06fc108152108b3620f6300759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 061/152] fix: state_set_cmp() was not transitive for sets of
 one state

---
 src/adt/stateset.c | 34 +++-------------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 85dff72..33d5b2e 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -97,37 +97,9 @@ state_set_cmp(const struct state_set *a, const struct state_set *b)
 		return count_a - count_b;
 	}
 
-	if (IS_SINGLETON(a) && IS_SINGLETON(b)) {
-		fsm_state_t sa, sb;
-
-		sa = SINGLETON_DECODE(a);
-		sb = SINGLETON_DECODE(b);
-
-		return (sa > sb) - (sa < sb);
-	}
-
-	if (IS_SINGLETON(a)) {
-		fsm_state_t sa, sb;
-
-		assert(b->a != NULL);
-		assert(count_b == 1);
-
-		sa = SINGLETON_DECODE(a);
-		sb = state_set_only(b);
-
-		return (sa > sb) - (sa < sb);
-	}
-
-	if (IS_SINGLETON(b)) {
-		fsm_state_t sa, sb;
-
-		assert(a->a != NULL);
-		assert(count_a == 1);
-
-		sa = state_set_only(a);
-		sb = SINGLETON_DECODE(b);
-
-		return (sa > sb) - (sa < sb);
+	/* a set of one state may or may not be stored as a singleton */
+	if (count_a == 1) {
+		return state_set_cmpval(state_set_only(a), state_set_only(b));
 	}
 
 	assert(a->a != NULL);
-- 
2.43.0


From 08b4290f95f00db9d43bd8472886238da54ae8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 062/152] fix: always-hex and high characters in LLVM output
 were not valid hexadecimal constants

---
 src/print/llvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/print/llvm.c b/src/print/llvm.c
index ab0c697..63fc48b 100644
--- a/src/print/llvm.c
+++ b/src/print/llvm.c
@@ -22,7 +22,7 @@ llvm_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex) {
-		return fprintf(f, "u%#02x", (unsigned char) c);
+		return fprintf(f, "u0x%02x", (unsigned char) c);
 	}
 
 	return fprintf(f, "%u", (unsigned char) c);
@@ -35,7 +35,7 @@ llvm_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		fprintf(f, "u%#02x", (unsigned char) c);
+		fprintf(f, "u0x%02x", (unsigned char) c);
 		return;
 	}
 
-- 
2.43.0


From 0546d470ca75af4f15b45d67a7316343846a0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 063/152] fix: awk output compared characters with the decimal
 spelling of hexadecimal numbers, and did not escape double quotes

---
 src/print/awk.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/print/awk.c b/src/print/awk.c
index ff3bf5d..48e3d0d 100644
--- a/src/print/awk.c
+++ b/src/print/awk.c
@@ -27,7 +27,7 @@ awk_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 
 	switch (c) {
 	case '\\': return fputs("\\\\", f);
-	case '\'': return fputs("\\\'", f);
+	case '\"': return fputs("\\\"", f);
 
 	case '\a': return fputs("\\a", f);
 	case '\b': return fputs("\\b", f);
@@ -54,10 +54,10 @@ awk_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		return fprintf(f, "0x%02x", (unsigned char) c);
-	}
-
+	/*
+	 * Always a string, because awk would compare a character
+	 * with the decimal spelling of a number.
+	 */
 	fprintf(f, "\"");
 	awk_escputc_char(f, opt, c);
 	fprintf(f, "\"");
-- 
2.43.0


From 444e22c41a089274ed5e35ec63e3b48d534932d1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 064/152] fix: the Go return type for AMBIG_MULTIPLE went to
 stdout

---
 src/libfsm/print/go.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 1f6b7a0..723a0d6 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -444,7 +444,7 @@ fsm_print_go(FILE *f,
 			break;
 
 		case AMBIG_MULTIPLE:
-			fprintf(stdout, "(bool, []uint)");
+			fprintf(f, "(bool, []uint)");
 			break;
 
 		default:
-- 
2.43.0


From b3d3fd4c5d6f4ee5890422ae591e98a9374997d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 065/152] fix: the reject hook was not used by C output for an
 FSM without end states

---
 src/libfsm/print/c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print/c.c b/src/libfsm/print/c.c
index b10cd9a..b16268e 100644
--- a/src/libfsm/print/c.c
+++ b/src/libfsm/print/c.c
@@ -368,7 +368,10 @@ print_endstates(FILE *f,
 
 	/* no end states */
 	if (!ir_hasend(ir)) {
-		fprintf(f, "\treturn 0;");
+		fprintf(f, "\t");
+		if (-1 == print_hook_reject(f, opt, hooks, NULL, default_reject, NULL)) {
+			return -1;
+		}
 		if (opt->comments) {
 			fprintf(f, " /* unexpected EOT */");
 		}
-- 
2.43.0


From 98075a90cea37333de4a6c9b5175e18266279d97 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 066/152] fix: VM-style C for strings matched a literal
 containing NUL by reading past the end of the input

---
 src/libfsm/print/vmc.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index b427a9c..aa132db 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -237,7 +237,7 @@ print_fetch(FILE *f, const struct fsm_options *opt)
 }
 
 static size_t
-walk_sequence(struct dfavm_op_ir *op,
+walk_sequence(struct dfavm_op_ir *op, enum fsm_io io,
 	enum dfavm_op_end *end_bits,
 	char *buf, size_t len,
 	struct dfavm_op_ir **tail)
@@ -298,6 +298,11 @@ walk_sequence(struct dfavm_op_ir *op,
 		if (op->u.stop.end_bits != *end_bits) {
 			goto unsuitable;
 		}
+
+		/* strncmp() would find the end of the input equal to this */
+		if (io == FSM_IO_STR && op->cmp_arg == '\0') {
+			goto unsuitable;
+		}
 	}
 
 	if (n >= len) {
@@ -350,6 +355,10 @@ walk_sequence(struct dfavm_op_ir *op,
 			if (op->u.stop.end_bits != *end_bits) {
 				break;
 			}
+
+			if (io == FSM_IO_STR && op->cmp_arg == '\0') {
+				break;
+			}
 		}
 
 		if (n >= len) {
@@ -462,7 +471,7 @@ fsm_print_cfrag(FILE *f,
 
 			char buf[8192];
 
-			n = walk_sequence(op, &end_bits, buf, sizeof buf, &tail);
+			n = walk_sequence(op, opt->io, &end_bits, buf, sizeof buf, &tail);
 
 			if (n > 1 && opt->io == FSM_IO_PAIR) {
 				fprintf(f, "if (e - p < %zu || 0 != memcmp(p, \"", n);
-- 
2.43.0


From fe7457de06ac2e9b3aaa0168288863bd0cfe8591 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 067/152] fix: code generation asserted or left dead code for
 states not reachable from the start state

---
 src/libfsm/vm/ir.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/libfsm/vm/ir.c b/src/libfsm/vm/ir.c
index 4930f4b..7ccd7ef 100644
--- a/src/libfsm/vm/ir.c
+++ b/src/libfsm/vm/ir.c
@@ -821,7 +821,7 @@ initial_translate_state(struct dfavm_assembler_ir *a, const struct ir *ir,
 static void
 fixup_dests(struct dfavm_assembler_ir *a)
 {
-	size_t i,n;
+	size_t i,n,todo;
 
 	n = a->nstates;
 	for (i=0; i < n; i++) {
@@ -833,7 +833,39 @@ fixup_dests(struct dfavm_assembler_ir *a)
 			}
 
 			op->u.br.dest_arg = a->ops[op->u.br.dest_state];
-			op->u.br.dest_arg->num_incoming++;
+		}
+
+		/* states we don't find below are never added to the trace */
+		a->ops[i]->in_trace = true;
+	}
+
+	/* Find the states which can be reached from the start state.
+	 * The index of the first op for each links to the next to visit. */
+	todo = a->start;
+	a->ops[todo]->in_trace = false;
+	a->ops[todo]->index = n;
+
+	while (todo != n) {
+		struct dfavm_op_ir *op;
+
+		op = a->ops[todo];
+		todo = op->index;
+
+		for (; op != NULL; op = op->next) {
+			struct dfavm_op_ir *dest;
+
+			if (op->instr != VM_OP_BRANCH) {
+				continue;
+			}
+
+			dest = op->u.br.dest_arg;
+			dest->num_incoming++;
+
+			if (dest->in_trace) {
+				dest->in_trace = false;
+				dest->index = todo;
+				todo = op->u.br.dest_state;
+			}
 		}
 	}
 }
@@ -956,7 +988,7 @@ eliminate_unnecessary_branches(struct dfavm_assembler_ir *a)
 static void
 order_basic_blocks(struct dfavm_assembler_ir *a)
 {
-	size_t i,n;
+	size_t n;
 	struct dfavm_op_ir **opp;
 	struct dfavm_op_ir *st;
 
@@ -966,11 +998,6 @@ order_basic_blocks(struct dfavm_assembler_ir *a)
 
 	n = a->nstates;
 
-	/* mark all states as !in_trace */
-	for (i=0; i < n; i++) {
-		a->ops[i]->in_trace = false;
-	}
-
 	opp = &a->linked;
 	*opp = NULL;
 
-- 
2.43.0


From 11c9a95d4d1f3d9103ac5a51ad5db265cf7e2465 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 068/152] fix: the symbol name in Go assembly for strings
 lacked the prefix

---
 src/libfsm/print/vmasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index bf55514..e1c6f61 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -168,7 +168,7 @@ print_asm_amd64(FILE *f,
 			if (opt->comments) {
 				fprintf(f, "// func %s%s(data string) int\n", prefix, "Match");
 			}
-			fprintf(f, "TEXT    ·%s(SB), NOSPLIT, $0-24\n", "Match");
+			fprintf(f, "TEXT    ·%s%s(SB), NOSPLIT, $0-24\n", prefix, "Match");
 			break;
 
 		case FSM_IO_PAIR:
-- 
2.43.0


From 3549a9221a6fc685833cba0302018537259c2534 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 069/152] fix: hexadecimal numbers in NASM output which start
 with a letter were taken for symbols

---
 src/libfsm/print/vmasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index e1c6f61..0362018 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -241,7 +241,7 @@ print_asm_amd64(FILE *f,
 							break;
 
 						case AMD64_NASM:
-							fprintf(f, "\tCMP   %s,%02xh\n", chr_reg, (unsigned)op->cmp_arg);
+							fprintf(f, "\tCMP   %s,0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 							break;
 
 						case AMD64_GO:
@@ -311,7 +311,7 @@ print_asm_amd64(FILE *f,
 						break;
 
 					case AMD64_NASM:
-						fprintf(f, "\tCMP   %s, %02xh\n", chr_reg, (unsigned)op->cmp_arg);
+						fprintf(f, "\tCMP   %s, 0x%02x\n", chr_reg, (unsigned)op->cmp_arg);
 						break;
 
 					case AMD64_GO:
-- 
2.43.0


From a87e5b30b49b0815312f7063558d86b7d73dbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 070/152] fix: shell output compared with an unterminated
 single quote

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index 5322e4f..d0ef061 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -179,7 +179,7 @@ print_cond(FILE *f, const struct dfavm_op_ir *op)
 			fprintf(f, " || $c %s ''", str_operator(VM_CMP_EQ));
 		}
 	} else if (c == '\'') {
-		fprintf(f, "$c %s \'", str_operator(op->cmp));
+		fprintf(f, "$c %s \\'", str_operator(op->cmp));
 		if (op->cmp == VM_CMP_LE || op->cmp == VM_CMP_GE) {
 			fprintf(f, " || $c %s \\'", str_operator(VM_CMP_EQ));
 		}
-- 
2.43.0


From 9cba802af84d6e82e8329c9c95cf3ecdb9f2cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 071/152] fix: shell output took newline for the end of the
 input

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index d0ef061..a496f78 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -242,7 +242,7 @@ print_branch(FILE *f, const struct dfavm_op_ir *op)
 static void
 print_fetch(FILE *f)
 {
-	fprintf(f, "read -rn 1 c || ");
+	fprintf(f, "read -rN 1 c || ");
 }
 
 int
-- 
2.43.0


From 46fa210fd548240fac1ce75f6214fb6876a788b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 072/152] fix: shell output was not valid when the first
 instruction is branched to

---
 src/libfsm/print/sh.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index a496f78..774d475 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -298,9 +298,7 @@ fsm_print_sh(FILE *f,
 
 	for (op = ops; op != NULL; op = op->next) {
 		if (op->num_incoming > 0) {
-			if (op != ops) {
-				fprintf(f, "\t\t;&\n");
-			}
+			fprintf(f, "\t\t;&\n");
 
 			fprintf(f, "\t");
 			print_label(f, op, opt);
-- 
2.43.0


From 573b3b752d33c6fb2c54c07facd447a58ceabb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 073/152] fix: combined pattern groups lost matches of patterns
 anchored at the end with \z or RE_ANCHORED

---
 src/libre/ast_compile.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 8f20c86..5d6c8e1 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -304,6 +304,17 @@ intern_end_any_loop(struct comp_env *env)
 	return 1;
 }
 
+static int
+save_anchored_end(struct comp_env *env)
+{
+	if (env->fsm->linkage_info == NULL) {
+		return 1;
+	}
+
+	return state_set_add(&env->fsm->linkage_info->anchored_ends,
+		env->fsm->alloc, env->end);
+}
+
 static int
 intern_end_nl(struct comp_env *env)
 {
@@ -339,14 +350,7 @@ intern_end_nl(struct comp_env *env)
 	env->end_nl = end_nl;
 	env->has_end_nl = 1;
 
-	if (env->fsm->linkage_info != NULL) {
-		if (!state_set_add(&env->fsm->linkage_info->anchored_ends,
-			env->fsm->alloc, env->end)) {
-			return 0;
-		}
-	}
-
-	return 1;
+	return save_anchored_end(env);
 }
 
 static int
@@ -718,9 +722,15 @@ comp_iter(struct comp_env *env,
 				}
 				y = env->end_nl;
 			} else {
+				if (!save_anchored_end(env)) {
+					return 0;
+				}
 				y = env->end;
 			}
 		} else {
+			if (!save_anchored_end(env)) {
+				return 0;
+			}
 			y = env->end;
 		}
 		break;
@@ -1044,6 +1054,10 @@ ast_compile(const struct ast *ast,
 		env.start = x;
 		env.end = y;
 
+		if ((re_flags & RE_ANCHORED) && !save_anchored_end(&env)) {
+			goto error;
+		}
+
 		if (!comp_iter(&env, x, y, ast->expr, NULL)) {
 			goto error;
 		}
-- 
2.43.0


From 1941c4e2fa5ba1bce754e85d48d9553c5bbdd950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 074/152] fix: combined pattern groups lost matches one byte
 into an anchored pattern, and took an anchored empty alternative to match
 anything

---
 src/libfsm/union.c | 55 ++++++++++++----------------------------------
 1 file changed, 14 insertions(+), 41 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 2555052..b42732d 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -37,7 +37,7 @@
 
 /* State/edge info gathered about an NFA. Used by fsm_union_repeated_pattern_group. */
 struct analysis_info {
-	bool nullable;          /* Does the NFA match the empty string? */
+	bool nullable;          /* Does the NFA match any input? */
 	fsm_state_t start;	/* start state */
 
 	/* The states with a /./ self edge representing the unanchored
@@ -296,20 +296,6 @@ state_has_labeled_edge_to_eclosure_with_unanchored_end_loop(const struct fsm *nf
 	return false;
 }
 
-static bool
-start_state_epsilon_closure_matches_empty_string(const struct fsm *nfa, const struct state_set *eclosure)
-{
-	struct state_iter si;
-	state_set_reset(eclosure, &si);
-
-	fsm_state_t s_i;
-	while (state_set_next(&si, &s_i)) {
-		if (fsm_isend(nfa, s_i)) { return true; }
-	}
-
-	return false;
-}
-
 static const struct fsm_options dump_nfa_opt = {
 	.io = FSM_IO_STR,
 	.ambig = AMBIG_MULTIPLE,
@@ -377,7 +363,8 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 
 	/* Copy labeled edges from the unanchored start loop and
 	 * its epsilon closure to ainfo->repeatable_firsts, except
-	 * for edges leading back to the unanchored start loop. */
+	 * for edges leading back to the unanchored start loop, and those to the
+	 * unanchored end loop, which will lead to the eager_match_state instead. */
 	if (ainfo->unanchored_start_loop != NO_STATE) {
 		struct state_iter si;
 		state_set_reset(eclosures[ainfo->unanchored_start_loop], &si);
@@ -391,7 +378,8 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 
 			edge_set_group_iter_reset(cs->edges, EDGE_GROUP_ITER_ALL, &egi);
 			while (edge_set_group_iter_next(&egi, &info)) {
-				if (info.to != ainfo->unanchored_start_loop) {
+				if (info.to != ainfo->unanchored_start_loop
+				    && info.to != ainfo->unanchored_end_loop) {
 					if (!edge_set_add_bulk(&ainfo->repeatable_firsts,
 						nfa->alloc, info.symbols, info.to)) {
 						goto alloc_fail;
@@ -429,8 +417,10 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 
 	/* If the start state always matches, set a flag noting that it will need special handling
 	 * later. It's arguably pointless to combine "" with other regexes, because it will always
-	 * trivially match, but otherwise it would never match. */
-	ainfo->nullable = start_state_epsilon_closure_matches_empty_string(nfa, eclosures[ainfo->start]);
+	 * trivially match, but otherwise it would never match.
+	 * Matching the empty string just at an anchored end is not enough. */
+	ainfo->nullable = ainfo->unanchored_end_loop != NO_STATE
+	    && state_set_contains(eclosures[ainfo->start], ainfo->unanchored_end_loop);
 
 	/* Collect states that lead to an anchored end or eager match. */
 	for (size_t s_i = 0; s_i < state_count; s_i++) {
@@ -843,29 +833,12 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 					    global_start, ainfo->eager_match_state);
 				}
 			}
-		} else {
-			/* If the NFA matches an end-anchored empty string, then add an epsilon edge from
-			 * the global start to an anchored end, which has an endid. */
-			if (ainfo->nullable && !state_set_empty(ainfo->anchored_ends)) {
-				struct state_iter si;
-				state_set_reset(ainfo->anchored_ends, &si);
-				fsm_state_t anchored_end_state;
-
-				while (state_set_next(&si, &anchored_end_state)) {
-					if (!fsm_addedge_epsilon(merged, global_start, anchored_end_state)) {
-						goto fail;
-					}
-					if (log) {
-						fprintf(stderr, "nullable & anchored ends: global_start %d -> anchored_end_state %d\n",
-						    global_start, anchored_end_state);
-					}
+		}
 
-					/* It should only be necessary to link one, since that's enough
-					 * for determinisation to carry the end id back to the start's
-					 * epsilon closure. */
-					break;
-				}
-			}
+		/* Whatever the NFA matches from the beginning of input
+		 * is to be found along with the other patterns. */
+		if (!fsm_addedge_epsilon(merged, global_start, ainfo->start)) {
+			goto fail;
 		}
 
 		struct edge_group_iter iter;
-- 
2.43.0


From 44f8b8ecb65969aadfb23faa7fb295295950da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 075/152] fix: empty patterns for implicitly anchored dialects
 were reported as unanchored literals

---
 src/libre/re.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libre/re.c b/src/libre/re.c
index 013e2b5..69f36c1 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -308,6 +308,12 @@ re_is_literal(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 		goto error;
 	}
 
+	/* some dialects are implicitly anchored */
+	if (flags & RE_ANCHORED) {
+		anchor_start = 1;
+		anchor_end   = 1;
+	}
+
 	*category = RE_LITERAL_UNANCHORED;
 	if (anchor_start) {
 		*category |= RE_LITERAL_ANCHOR_START;
-- 
2.43.0


From f530ebe4167411b977bb97456344421dff9ba710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 076/152] fix: the length of an unsatisfiable literal was left
 undefined, and rx depended on it

---
 src/libre/re.c |  1 +
 src/rx/main.c  | 12 ++++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libre/re.c b/src/libre/re.c
index 69f36c1..6326821 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -273,6 +273,7 @@ re_is_literal(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 	if (unsatisfiable) {
 		*category = RE_LITERAL_UNSATISFIABLE;
 		*s = NULL;
+		*n = 0;
 		r = 1;
 		goto done;
 	}
diff --git a/src/rx/main.c b/src/rx/main.c
index 4ac357b..128ea59 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -313,18 +313,18 @@ categorize(enum re_dialect dialect, enum re_flags flags,
 		return CATEGORY_ERROR;
 	}
 
-	/* empty string */
-	if (r == 1 && lit_n == 0) {
-		assert(lit_s == NULL);
-		return CATEGORY_EMPTY;
-	}
-
 	/* unsatisfiable */
 	if (r == 1 && category == RE_LITERAL_UNSATISFIABLE) {
 		assert(lit_s == NULL);
 		return CATEGORY_UNSATISFIABLE;
 	}
 
+	/* empty string */
+	if (r == 1 && lit_n == 0) {
+		assert(lit_s == NULL);
+		return CATEGORY_EMPTY;
+	}
+
 	/* is a literal */
 	if (r == 1) {
 		assert(lit_s != NULL);
-- 
2.43.0


From 6e52240dbe2d4e9a444fe4991eb2151307534d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 077/152] fix: lx asserted on undefined variables in a zone

The search for a variable in the enclosing zones tested the innermost zone's
parent rather than the current one's, so reaching the outermost zone without
finding it was not an error and a null pointer was cloned.
---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 0db0c3b..9546d7f 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -286,7 +286,7 @@
 				break;
 			}
 
-			if (@z->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", @s);
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 4ab69ce..0a449b1 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -227,7 +227,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 				break;
 			}
 
-			if ((ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (ZIn));
 				goto ZL1;
@@ -3224,7 +3224,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				break;
 			}
 
-			if ((*ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (*ZIn));
 				goto ZL1;
-- 
2.43.0


From f7f55e99a87c9f6d41db5a288675014b04ea3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 078/152] fix: lx patterns of more than 512 characters were
 written past the end of the buffer

They overwrote what follows in the lexer's state, giving a wrong lexer or a
crash. Long patterns are now an error.
---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 9546d7f..db537e8 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -245,7 +245,7 @@
 %actions%
 
 	<pattern-char>: (c :char) -> () = @{
-		/* TODO */
+		if (lex_state->p == lex_state->a + sizeof lex_state->a) { err(lex_state, "Pattern too long"); exit(EXIT_FAILURE); }
 		*lex_state->p++ = @c;
 	@};
 
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 0a449b1..44162f8 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -1079,7 +1079,7 @@ ZL2_pattern_C_Cbody:;
 			{
 #line 247 "src/lx/parser.act"
 
-		/* TODO */
+		if (lex_state->p == lex_state->a + sizeof lex_state->a) { err(lex_state, "Pattern too long"); exit(EXIT_FAILURE); }
 		*lex_state->p++ = (ZIc);
 	
 #line 1086 "src/lx/parser.c"
-- 
2.43.0


From adb3062a840ff289bfa66a7818eef885942909af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 079/152] fix: lx read past the end of a pattern when reporting
 a regular expression error

The pattern was not terminated, and what was reported was where reading it had
got to, rather than the pattern.
---
 src/lx/parser.act |  8 ++++----
 src/lx/parser.c   | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index db537e8..540ab9c 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -260,7 +260,7 @@
 
 		len = lex_state->p - lex_state->a;
 
-		@a = malloc(sizeof *@a + len);
+		@a = malloc(sizeof *@a + len + 1);
 		if (@a == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -270,7 +270,7 @@
 		@a->p   = (char *) @a + sizeof *@a;
 
 		memcpy(@a->p, lex_state->a, @a->len);
-
+		@a->p[@a->len] = '\0';
 		lex_state->p = lex_state->a;
 	@};
 
@@ -368,7 +368,7 @@
 		if (@r == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_LITERAL, &err, NULL, @a->p); /* XXX */
+			re_perror(RE_LITERAL, &err, NULL, (char *) (@a + 1)); /* XXX */
 			exit(EXIT_FAILURE);
 		}
 	@};
@@ -383,7 +383,7 @@
 		if (@r == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_NATIVE, &err, NULL, @a->p);
+			re_perror(RE_NATIVE, &err, NULL, (char *) (@a + 1)); /* @a->p has advanced */
 			exit(EXIT_FAILURE);
 		}
 	@};
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 44162f8..bf33ee2 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -1992,7 +1992,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		len = lex_state->p - lex_state->a;
 
-		(ZIa) = malloc(sizeof *(ZIa) + len);
+		(ZIa) = malloc(sizeof *(ZIa) + len + 1);
 		if ((ZIa) == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -2002,7 +2002,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		(ZIa)->p   = (char *) (ZIa) + sizeof *(ZIa);
 
 		memcpy((ZIa)->p, lex_state->a, (ZIa)->len);
-
+		(ZIa)->p[(ZIa)->len] = '\0';
 		lex_state->p = lex_state->a;
 	
 #line 2009 "src/lx/parser.c"
@@ -2021,7 +2021,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		if ((ZIr) == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_NATIVE, &err, NULL, (ZIa)->p);
+			re_perror(RE_NATIVE, &err, NULL, (char *) ((ZIa) + 1)); /* ZIa->p has advanced */
 			exit(EXIT_FAILURE);
 		}
 	
@@ -2058,7 +2058,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		len = lex_state->p - lex_state->a;
 
-		(ZIa) = malloc(sizeof *(ZIa) + len);
+		(ZIa) = malloc(sizeof *(ZIa) + len + 1);
 		if ((ZIa) == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -2068,7 +2068,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		(ZIa)->p   = (char *) (ZIa) + sizeof *(ZIa);
 
 		memcpy((ZIa)->p, lex_state->a, (ZIa)->len);
-
+		(ZIa)->p[(ZIa)->len] = '\0';
 		lex_state->p = lex_state->a;
 	
 #line 2075 "src/lx/parser.c"
@@ -2087,7 +2087,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		if ((ZIr) == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_LITERAL, &err, NULL, (ZIa)->p); /* XXX */
+			re_perror(RE_LITERAL, &err, NULL, (char *) ((ZIa) + 1)); /* XXX */
 			exit(EXIT_FAILURE);
 		}
 	
-- 
2.43.0


From 9ba4d99c10e29b8ca46b4812374fbe1d5a91f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 080/152] fix: a NUL byte in fsm(5) text failed an assertion

---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 7b9d4f5..af378da 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -241,7 +241,7 @@
 	@};
 
 	CHAR: () -> (c :char) = @{
-		assert(lex_state->buf.a[0] != '\0');
+		/* lex_state->buf.a[0] may be '\0' */
 		assert(lex_state->buf.a[1] == '\0');
 
 		@c = lex_state->buf.a[0];
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index 2d90b41..32d3b3a 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -181,7 +181,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 					{
 #line 243 "src/libfsm/parser.act"
 
-		assert(lex_state->buf.a[0] != '\0');
+		/* lex_state->buf.a[0] may be '\0' */
 		assert(lex_state->buf.a[1] == '\0');
 
 		ZIc = lex_state->buf.a[0];
-- 
2.43.0


From be8713634fc0d5abcb69f93b9d45a82813832290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 081/152] fix: escaping a NUL byte in a PCRE pattern failed an
 assertion

---
 src/libre/dialect/pcre/parser.c | 10 +++++-----
 src/libre/parser.act            |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index 0331d8e..d38f446 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -478,7 +478,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* lex_state->buf.a[2] may be '\0' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -1073,7 +1073,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* lex_state->buf.a[2] may be '\0' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -1227,7 +1227,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* lex_state->buf.a[1] may be '\0' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1417,7 +1417,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* lex_state->buf.a[2] may be '\0' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZI310 = lex_state->buf.a[2];
@@ -1634,7 +1634,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* lex_state->buf.a[1] may be '\0' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 7a9548f..6dff8d0 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -411,7 +411,7 @@
 
 	NOESC: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* lex_state->buf.a[1] may be '\0' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		@c = lex_state->buf.a[1];
@@ -442,7 +442,7 @@
 	CONTROL: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* lex_state->buf.a[2] may be '\0' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		@c = lex_state->buf.a[2];
-- 
2.43.0


From e0cdc14951aed1588dd2711e940e56832e763fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 082/152] fix: a NUL byte in a lexer specification failed an
 assertion

---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 540ab9c..0fcb6b7 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -213,7 +213,7 @@
 	@};
 
 	CHAR: () -> (c :char) = @{
-		assert(lex_state->buf.a[0] != '\0');
+		/* lex_state->buf.a[0] may be '\0' */
 		assert(lex_state->buf.a[1] == '\0');
 
 		@c = lex_state->buf.a[0];
diff --git a/src/lx/parser.c b/src/lx/parser.c
index bf33ee2..858321e 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -957,7 +957,7 @@ ZL2_pattern_C_Cbody:;
 						{
 #line 215 "src/lx/parser.act"
 
-		assert(lex_state->buf.a[0] != '\0');
+		/* lex_state->buf.a[0] may be '\0' */
 		assert(lex_state->buf.a[1] == '\0');
 
 		ZIc = lex_state->buf.a[0];
-- 
2.43.0


From 3d763e93c02f0ea26c4d890200890a06c0a812ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 083/152] fix: lx asserted on a mapping or zone that nothing
 matches

Determinising leaves such an automaton without states, and its start state
was used regardless.
---
 src/lx/main.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 92098bf..0f9c1bf 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -400,6 +400,13 @@ zone_minimise(void *arg)
 				}
 			}
 
+			/* Nothing matches this mapping, so there's nothing to merge */
+			if (!fsm_getstart(m->fsm, &ms)) {
+				fsm_free(m->fsm);
+				m->fsm = NULL;
+				continue;
+			}
+
 			/* Attach this mapping to each end state for this FSM */
 			if (LOG()) {
 				fprintf(stderr, "zone_minimise: ast_setendmapping(m->fsm, m: %p)\n",
@@ -410,8 +417,6 @@ zone_minimise(void *arg)
 				assert(!"failed");
 			}
 
-			(void) fsm_getstart(m->fsm, &ms);
-
 			z->fsm = fsm_merge(z->fsm, m->fsm, &combine_info);
 			if (z->fsm == NULL) {
 				pthread_mutex_lock(&zmtx);
@@ -446,6 +451,7 @@ zone_determinise(void *arg)
 
 	for (;;) {
 		struct ast_zone *z;
+		fsm_state_t start;
 
 		pthread_mutex_lock(&zmtx);
 		{
@@ -471,6 +477,18 @@ zone_determinise(void *arg)
 			pthread_mutex_unlock(&zmtx);
 			return "fsm_determinise";
 		}
+
+		/* Nothing matches in this zone, but it still needs a start */
+		if (!fsm_getstart(z->fsm, &start)) {
+			if (!fsm_addstate(z->fsm, &start)) {
+				pthread_mutex_lock(&zmtx);
+				zerror = errno;
+				pthread_mutex_unlock(&zmtx);
+				return "fsm_addstate";
+			}
+
+			fsm_setstart(z->fsm, start);
+		}
 	}
 }
 
-- 
2.43.0


From e400ff7ecde79e3580c70ab2658a81076043a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 084/152] fix: lx numbered mappings outside the lock, so
 threads could share a number

---
 src/lx/ast.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lx/ast.c b/src/lx/ast.c
index a3776b6..9f9aa38 100644
--- a/src/lx/ast.c
+++ b/src/lx/ast.c
@@ -148,10 +148,13 @@ static struct ast_mapping **mappings = NULL;
 int
 ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 {
-	const fsm_end_id_t id = mapping_count;
+	fsm_end_id_t id;
 	fsm_end_id_t nceil = 0;
 
 	lx_mutex_lock();
+
+	id = mapping_count;
+
 	if (mappings == NULL) {
 		nceil = DEF_MAPPINGS;
 	} else if (mapping_count == mapping_ceil) {
@@ -171,8 +174,6 @@ ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 		mapping_ceil = nceil;
 	}
 
-	lx_mutex_unlock();
-
 	if (fsm_setendid(fsm, id)) {
 		if (LOG()) {
 			fprintf(stderr, "ast_setendmapping: saving mapping %p at mappings[%d]\n",
@@ -180,8 +181,11 @@ ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 		}
 		mappings[id] = m;
 		mapping_count++;
+		lx_mutex_unlock();
 		return 1;
 	}
+
+	lx_mutex_unlock();
 	return 0;
 }
 
-- 
2.43.0


From 54c5d48d267ffcd36895f421b6296f3cfffdc2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 085/152] fix: lx used an uninitialised pointer when the first
 token of a specification is not recognised

---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 0fcb6b7..0500fe4 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -822,7 +822,7 @@
 		struct act_state *act_state;
 		struct lex_state lex_state_s;
 		struct lex_state *lex_state;
-		struct ast *ast;
+		struct ast *ast = NULL;
 		struct lx *lx;
 
 		assert(f != NULL);
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 858321e..4e129b0 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -3305,7 +3305,7 @@ ZL1:;
 		struct act_state *act_state;
 		struct lex_state lex_state_s;
 		struct lex_state *lex_state;
-		struct ast *ast;
+		struct ast *ast = NULL;
 		struct lx *lx;
 
 		assert(f != NULL);
-- 
2.43.0


From a39dc0e67767c0d5d179d826f02469807827fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 086/152] fix: negative ranges beginning with - or ] in a class
 were reported at an uninitialised position

Only ranges in the middle of a class marked where they were.
---
 src/libre/dialect/native/parser.c | 8 ++++----
 src/libre/dialect/pcre/parser.c   | 8 ++++----
 src/libre/dialect/sql/parser.c    | 2 +-
 src/libre/parser.act              | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index f2d46af..f33f004 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -1911,7 +1911,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(ZIrstart)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
@@ -2250,7 +2250,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(*ZIstart)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
@@ -2867,7 +2867,7 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(*ZI244)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
@@ -3003,7 +3003,7 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(*ZI248)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index d38f446..11e009b 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -935,7 +935,7 @@ p_293(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(*ZI291)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
@@ -2462,7 +2462,7 @@ p_317(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(*ZI315)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
@@ -2975,7 +2975,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(ZIrstart)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
@@ -3519,7 +3519,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(*ZIstart)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index 118dd0d..4981512 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -1278,7 +1278,7 @@ p_208(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &(*ZI206)); mark(&act_state->rangeend, &(ZIend));
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 6dff8d0..b20c73c 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -1015,7 +1015,7 @@
 
 		if (lower > upper) {
 			char a[5], b[5];
-			
+			mark(&act_state->rangestart, &@start); mark(&act_state->rangeend, &@end);
 			assert(sizeof err->set >= 1 + sizeof a + 1 + sizeof b + 1 + 1);
 			
 			sprintf(err->set, "%s-%s",
-- 
2.43.0


From 8dcf18ab73bd79fcdefb0793ec297c2a9184e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 087/152] fix: fsm_findmode() asserted when no destination has
 two labels

---
 src/libfsm/mode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/mode.c b/src/libfsm/mode.c
index 87af0bd..c233c40 100644
--- a/src/libfsm/mode.c
+++ b/src/libfsm/mode.c
@@ -27,7 +27,7 @@ fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq)
 		unsigned int freq;
 	} mode;
 
-	mode.freq = 1;
+	mode.freq = 0;
 	mode.state = (fsm_state_t)-1;
 
 	edge_set_group_iter_reset(fsm->states[state].edges, EDGE_GROUP_ITER_ALL, &iter);
-- 
2.43.0


From 549a83a7324ea1397a7fda5d9acefa4c50166101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 088/152] fix: a counted group of just an anchor failed to
 compile

---
 src/libre/ast_rewrite.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index dc0a8f8..24f5925 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -485,6 +485,18 @@ expand_repeat(struct ast_expr_pool **poolp, struct ast_expr *n)
 	struct ast_expr *cat, *e;
 	unsigned i;
 
+	/* an anchor by itself is zero width, repeating it makes no difference */
+	if (n->u.repeat.e->type == AST_EXPR_ANCHOR) {
+		e = n->u.repeat.e;
+
+		*n = *e;
+
+		e->type = AST_EXPR_EMPTY;
+		ast_expr_free(*poolp, e);
+
+		return 1;
+	}
+
 	cat = ast_make_expr_concat(poolp, n->re_flags);
 	if (cat == NULL) {
 		return 0;
-- 
2.43.0


From 59b2b704196add73619782f7b7e2077f738afdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 089/152] fix: lx asserted on a zone without mappings

---
 src/lx/main.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 0f9c1bf..33fd4cf 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -902,7 +902,6 @@ main(int argc, char *argv[])
 			fsm_state_t start;
 
 			assert(z->fsm != NULL);
-			assert(z->ml  != NULL);
 
 			if (print_progress) {
 				if (important(zn)) {
-- 
2.43.0


From 143a598b29f940112fdd72d37b4b5a88bb794fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 090/152] fix: fsm_union_repeated_pattern_group() leaked on
 failure

---
 src/libfsm/union.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index b42732d..6edbbc4 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -681,8 +681,8 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 	const struct fsm_alloc *alloc = nfas[0]->alloc;
 	const bool log = 0 || LOG_UNION_REPEATED_PATTERN_GROUP;
 
-	struct analysis_info *ainfos = f_calloc(alloc, nfa_count, sizeof(ainfos[0]));
-	if (ainfos == NULL) { goto fail; }
+	struct analysis_info *ainfos = NULL;
+	struct fsm *res = NULL;
 
 	size_t est_total_states = 0;
 	for (size_t i = 0; i < nfa_count; i++) {
@@ -705,6 +705,9 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		est_total_states += count;
 	}
 
+	ainfos = f_calloc(alloc, nfa_count, sizeof(ainfos[0]));
+	if (ainfos == NULL) { goto fail; }
+
 	for (size_t i = 0; i < nfa_count; i++) {
 		struct fsm *fsm = nfas[i];
 
@@ -740,8 +743,8 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 
 	est_total_states += 5;	/* new start and end, new unanchored start and end loops */
 
-	struct fsm *res = fsm_new_statealloc(alloc, est_total_states);
-	if (res == NULL) { return NULL; }
+	res = fsm_new_statealloc(alloc, est_total_states);
+	if (res == NULL) { goto fail; }
 
 	/* The new overall start state */
 	fsm_state_t global_start;
@@ -782,7 +785,12 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		/* Call fsm_merge; the argument order shouldn't matter. */
 		struct fsm_combine_info combine_info;
 		struct fsm *merged = fsm_merge(res, fsm, &combine_info);
-		if (merged == NULL) { goto fail; }
+		if (merged == NULL) {
+			fsm_free(fsm);
+			goto fail;
+		}
+
+		res = merged;
 
 		if (log) {
 			fprintf(stderr, "merged: bases a %d and b %d\n", combine_info.base_a, combine_info.base_b);
@@ -890,8 +898,6 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 				    global_unanchored_start_loop, ainfo->unanchored_start_loop);
 			}
 		}
-
-		res = merged;
 	}
 
 	/* Link the global start to the global unanchored start loop and anchored start states. */
@@ -956,5 +962,9 @@ fail:
 		f_free(alloc, ainfos);
 	}
 
+	if (res != NULL) {
+		fsm_free(res);
+	}
+
 	return NULL;
 }
-- 
2.43.0


From 8aff0b75d1192338b9a1b12b9683a679e362c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 091/152] fix: fsm_print() asserted looking for conflicts in an
 NFA

---
 src/libfsm/print.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index bdb092d..55af97d 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -193,12 +193,16 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 		 * we can't move all output formats to use the ir.
 		 */
 
-		if (!make_example(fsm, s, &example)) {
+		if (fsm_has(fsm, fsm_hasepsilons)) {
+			/* fsm_example() doesn't do epsilons */
+			example = NULL;
+		} else if (!make_example(fsm, s, &example)) {
 			goto error;
 		}
 
 		ids = f_malloc(fsm->alloc, count * sizeof *ids);
 		if (ids == NULL) {
+			f_free(fsm->alloc, example);
 			goto error;
 		}
 
@@ -220,6 +224,8 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 			&state_metadata,
 			example))
 		{
+			f_free(fsm->alloc, example);
+			f_free(fsm->alloc, ids);
 			goto error;
 		}
 
-- 
2.43.0


From 759fe2a623dd12ce7d9c026e06e791c84a76743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 092/152] fix: lx used exit patterns after they were freed

---
 src/lx/parser.act |  6 ++--
 src/lx/parser.c   | 86 +++++++++++++++++++++++------------------------
 src/lx/parser.sid |  4 +--
 3 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 0500fe4..6a9c687 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -738,13 +738,13 @@
 		if (@b == NULL) {
 			@q = @a;
 		} else {
-			@b = fsm_clone(@b);
-			if (@b == NULL) {
+			struct fsm *b = fsm_clone(@b);
+			if (b == NULL) {
 				perror("fsm_clone");
 				@!;
 			}
 
-			@q = fsm_subtract(@a, @b);
+			@q = fsm_subtract(@a, b);
 			if (@q == NULL) {
 				perror("fsm_subtract");
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 4e129b0..c9fa6f8 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -405,13 +405,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI233) = (ZI231);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI233) = fsm_subtract((ZI231), (ZIexit));
+			(ZI233) = fsm_subtract((ZI231), b);
 			if ((ZI233) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -480,13 +480,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI241) = (ZI239);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI241) = fsm_subtract((ZI239), (ZIexit));
+			(ZI241) = fsm_subtract((ZI239), b);
 			if ((ZI241) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -570,13 +570,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI250) = (ZI248);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI250) = fsm_subtract((ZI248), (ZIexit));
+			(ZI250) = fsm_subtract((ZI248), b);
 			if ((ZI250) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -645,13 +645,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI225) = (ZI223);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI225) = fsm_subtract((ZI223), (ZIexit));
+			(ZI225) = fsm_subtract((ZI223), b);
 			if ((ZI225) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -776,13 +776,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI261) = (ZI259);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI261) = fsm_subtract((ZI259), (ZIexit));
+			(ZI261) = fsm_subtract((ZI259), b);
 			if ((ZI261) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -836,13 +836,13 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI270) = (ZI268);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI270) = fsm_subtract((ZI268), (ZIexit));
+			(ZI270) = fsm_subtract((ZI268), b);
 			if ((ZI270) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -2171,13 +2171,13 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 		if ((ZIexit) == NULL) {
 			(ZIq) = (ZIr);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZIq) = fsm_subtract((ZIr), (ZIexit));
+			(ZIq) = fsm_subtract((ZIr), b);
 			if ((ZIq) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
@@ -2431,6 +2431,21 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			RESTORE_LEXER;
 			goto ZL1;
 		}
+		/* BEGINNING OF ACTION: clone */
+		{
+#line 755 "src/lx/parser.act"
+
+		assert((ZIr) != NULL);
+
+		(ZIexit) = fsm_clone((ZIr));
+		if ((ZIexit) == NULL) {
+			perror("fsm_clone");
+			goto ZL1;
+		}
+	
+#line 2447 "src/lx/parser.c"
+		}
+		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
 		{
 #line 449 "src/lx/parser.act"
@@ -2466,24 +2481,9 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2470 "src/lx/parser.c"
-		}
-		/* END OF ACTION: add-mapping */
-		/* BEGINNING OF ACTION: clone */
-		{
-#line 755 "src/lx/parser.act"
-
-		assert((ZIr) != NULL);
-
-		(ZIexit) = fsm_clone((ZIr));
-		if ((ZIexit) == NULL) {
-			perror("fsm_clone");
-			goto ZL1;
-		}
-	
 #line 2485 "src/lx/parser.c"
 		}
-		/* END OF ACTION: clone */
+		/* END OF ACTION: add-mapping */
 	}
 	goto ZL0;
 ZL1:;
@@ -2919,13 +2919,13 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((ZIchild_Hexit) == NULL) {
 			(ZIv) = (ZIw);
 		} else {
-			(ZIchild_Hexit) = fsm_clone((ZIchild_Hexit));
-			if ((ZIchild_Hexit) == NULL) {
+			struct fsm *b = fsm_clone((ZIchild_Hexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL5;
 			}
 
-			(ZIv) = fsm_subtract((ZIw), (ZIchild_Hexit));
+			(ZIv) = fsm_subtract((ZIw), b);
 			if ((ZIv) == NULL) {
 				perror("fsm_subtract");
 				goto ZL5;
@@ -3261,13 +3261,13 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((*ZIexit) == NULL) {
 			(ZI280) = (ZI278);
 		} else {
-			(*ZIexit) = fsm_clone((*ZIexit));
-			if ((*ZIexit) == NULL) {
+			struct fsm *b = fsm_clone((*ZIexit));
+			if (b == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI280) = fsm_subtract((ZI278), (*ZIexit));
+			(ZI280) = fsm_subtract((ZI278), b);
 			if ((ZI280) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
diff --git a/src/lx/parser.sid b/src/lx/parser.sid
index 3c375e2..2950113 100644
--- a/src/lx/parser.sid
+++ b/src/lx/parser.sid
@@ -372,9 +372,9 @@
 			zone-to-mapping: (a :ast, parent :zone, child :zone) -> (exit :fsm) = {
 				(r, t) = token-mapping(parent);
 
-				<add-mapping>(a, child, parent, r, t);
-
 				exit = <clone>(r);
+
+				<add-mapping>(a, child, parent, r, t);
 			};
 
 			list-of-zone-to-mappings: (a :ast, parent :zone, child :zone) -> (exit :fsm) [
-- 
2.43.0


From c85335ccaf2d07017bec8b948cd497e8342525a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 093/152] fix: lx read an uninitialised state for a token of an
 empty language

---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 6a9c687..da890e9 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -338,7 +338,7 @@
 				@!;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			if (!fsm_getstart(fsm, &ms)) { fsm_free(fsm); continue; }
 
 			@r = fsm_merge(@r, fsm, &combine_info);
 			if (@r == NULL) {
diff --git a/src/lx/parser.c b/src/lx/parser.c
index c9fa6f8..d522ded 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -301,7 +301,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 				goto ZL1;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			if (!fsm_getstart(fsm, &ms)) { fsm_free(fsm); continue; }
 
 			(ZIr) = fsm_merge((ZIr), fsm, &combine_info);
 			if ((ZIr) == NULL) {
@@ -734,7 +734,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 				goto ZL1;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			if (!fsm_getstart(fsm, &ms)) { fsm_free(fsm); continue; }
 
 			(ZI254) = fsm_merge((ZI254), fsm, &combine_info);
 			if ((ZI254) == NULL) {
-- 
2.43.0


From b209beece25ce4c329e4460fdc5a453d5dd2d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 094/152] fix: fsm_reverse() of an empty language gave no start
 state

---
 src/libfsm/reverse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index a8383a0..43fe801 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -57,11 +57,13 @@ fsm_reverse(struct fsm *fsm)
 			return 0;
 		}
 
-		if (!fsm_addstate(new, &new->start)) {
+		if (!fsm_addstate(new, &start)) {
 			fsm_free(new);
 			return 0;
 		}
 
+		fsm_setstart(new, start);
+
 		fsm_move(fsm, new);
 
 		return 1;
-- 
2.43.0


From ee2f49d8479fcadf9e3adeb4b682e46c75f8fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 095/152] fix: lx's fdgetc took byte 0xff for the end of input

---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 3340f0d..93f9c30 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -495,7 +495,7 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t\td->len = r;\n");
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
-		fprintf(f, "\treturn d->len--, *d->p++;\n");
+		fprintf(f, "\treturn d->len--, (unsigned char) *d->p++;\n");
 		fprintf(f, "}\n");
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From 0002f811500038c147605ba9d15e26b923d76d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 096/152] fix: lexers without positions lost the token buffer

---
 src/lx/print/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 93f9c30..b31fbef 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -345,7 +345,7 @@ advance_c(FILE *f, const struct fsm_options *opt, const char *cur_char_var, void
 	case FSM_IO_PAIR:
 		/* When libfsm's generated code advances a character, update
 		 * lx's token name buffer and position bookkeeping. */
-		if (~api_exclude & API_POS) {
+		if (~api_exclude & (API_POS | API_BUF)) {
 			fprintf(f, "\t\tif (!%sadvance_end(lx, %s)) { return %sERROR; }\n",
 			    prefix.api, cur_char_var, prefix.tok);
 		}
@@ -508,7 +508,7 @@ print_io(FILE *f, const struct fsm_options *opt)
 		fprintf(stderr, " io");
 	}
 
-	if (opt->io == FSM_IO_GETC || (~api_exclude & API_POS)) {
+	if (opt->io == FSM_IO_GETC || (~api_exclude & (API_POS | API_BUF))) {
 		fprintf(f, "static int\n");
 		fprintf(f, "%sadvance_end(struct %slx *lx, int c)\n", prefix.api, prefix.lx);
 		fprintf(f, "{\n");
-- 
2.43.0


From 12132f7f1276ef1fb857d446edff6d994bc1457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 097/152] fix: lx asserted without a token buffer

---
 src/lx/print/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index b31fbef..b20988f 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -153,8 +153,8 @@ static void
 unget_character(FILE *f, bool pop, const char *cur_char_var)
 {
 	fprintf(f, "%sungetc(lx, %s); ", prefix.api, cur_char_var);
-	if (pop && (~api_exclude & API_BUF)) {
-		fprintf(f, "%s%spop(lx->buf_opaque); ",
+	if (pop && (~api_exclude & API_BUF) && (api_tokbuf & (API_FIXEDBUF | API_DYNBUF))) {
+		fprintf(f, "if (lx->push != NULL) { %s%spop(lx->buf_opaque); } ",
 		    prefix.api, buf_op_prefix());
 	}
 }
-- 
2.43.0


From 4bfa4d1c88fb2692c4f94dc4e757b270ecb9d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 098/152] fix: lexers ungot a character they had not read at
 the end of input

---
 src/lx/print/c.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index b20988f..4ef5872 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -311,7 +311,15 @@ reject_c(FILE *f, const struct fsm_options *opt,
 	} else {
 		fprintf(f, "\n\t\t\t\tif (!has_consumed_input) { return %sEOF; }\n", prefix.tok);
 		fprintf(f, "\t\t\t\t");
+
+		/* at the end of input there is no character to unget */
+		switch (opt->io) {
+		case FSM_IO_GETC: fprintf(f, "if (c != EOF) { ");      break;
+		case FSM_IO_STR:  fprintf(f, "if (*p != '\\0') { ");    break;
+		case FSM_IO_PAIR: fprintf(f, "if (p != lx->e) { ");    break;
+		}
 		unget_character(f, false, env->cur_char_var);
+		fprintf(f, "} ");
 	}
 
 	/* XXX: don't need this if complete */
-- 
2.43.0


From 0e27a14c1472d00eabe97df69463de11ce8d382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 099/152] fix: trailing skipped text was an unknown token
 outside of pattern pairs

---
 src/lx/print/c.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 4ef5872..fdb3551 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -175,7 +175,16 @@ endid_represents_dead_end(fsm_end_id_t endid, const struct ast *ast)
 	 * prohibitively expensive, then build a bitset of dead-end IDs upfront
 	 * in one pass. */
 	for (struct ast_zone *z = ast->zl; z != NULL; z = z->next) {
-		if (z->ml == m) { return true; }
+		if (z->ml != m) {
+			continue;
+		}
+
+		/* only a zone with an exit can end in the middle of a pattern pair */
+		for (m = z->ml; m != NULL; m = m->next) {
+			if (m->to != NULL && m->to == z->parent) { return true; }
+		}
+
+		return false;
 	}
 
 	return false;
-- 
2.43.0


From 38794b699c38aecf25388ef577d026657cb0d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 100/152] fix: lx gave empty examples for every token

---
 src/lx/print/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index fdb3551..0435ad0 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -1083,7 +1083,7 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t\tswitch (t) {\n");
 
 		for (t = ast->tl; t != NULL; t = t->next) {
-			fsm_state_t s;
+			fsm_state_t start, s;
 			char buf[50]; /* 50 looks reasonable for an on-screen limit */
 			int n;
 
@@ -1091,7 +1091,7 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 				return -1;
 			}
 
-			if (!fsm_getstart(z->fsm, &s)) {
+			if (!fsm_getstart(z->fsm, &start) || s == start) {
 				continue;
 			}
 
-- 
2.43.0


From 06f3372ee7810d8320b0c4bb8956a64ac1b00109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 101/152] fix: lx's dump program did not compile without names
 or with a token prefix

---
 src/lx/print/dump.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lx/print/dump.c b/src/lx/print/dump.c
index e693f90..9a6e554 100644
--- a/src/lx/print/dump.c
+++ b/src/lx/print/dump.c
@@ -272,17 +272,17 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 	}
 
 	fprintf(f, "\t\tswitch (t) {\n");
-	fprintf(f, "\t\tcase TOK_EOF:\n");
+	fprintf(f, "\t\tcase %sEOF:\n", prefix.tok);
 	fprintf(f, "\t\t\tprintf(\"<EOF>\\n\");\n");
 	fprintf(f, "\t\t\tbreak;\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tcase TOK_ERROR:\n");
+	fprintf(f, "\t\tcase %sERROR:\n", prefix.tok);
 	fprintf(f, "\t\t\tperror(\"%snext\");\n", prefix.api);
 	fprintf(f, "\t\t\tbreak;\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tcase TOK_UNKNOWN:\n");
+	fprintf(f, "\t\tcase %sUNKNOWN:\n", prefix.tok);
 	fprintf(f, "\t\t\tprintf(\"lexically uncategorised:\");\n");
 	fprintf(f, "\t\t\tdump_buf(q, l);\n");
 	fprintf(f, "\t\t\tprintf(\"\\n\");\n");
@@ -295,7 +295,7 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t\t\tdump_buf(q, l);\n");
 		fprintf(f, "\t\t\tprintf(\">\\n\");\n");
 	} else {
-		fprintf(f, "\t\t\tprintf(\"<#%%u>\\n\");\n");
+		fprintf(f, "\t\t\tprintf(\"<#%%u>\\n\",\n");
 		fprintf(f, "\t\t\t\t(unsigned) t);\n");
 	}
 	fprintf(f, "\t\t\tbreak;\n");
@@ -304,7 +304,8 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 	fprintf(f, "\t\t}\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t} while (t != TOK_ERROR && t != TOK_EOF && t != TOK_UNKNOWN);\n");
+	fprintf(f, "\t} while (t != %sERROR && t != %sEOF && t != %sUNKNOWN);\n",
+		prefix.tok, prefix.tok, prefix.tok);
 	fprintf(f, "\n");
 
 	if (api_tokbuf == API_DYNBUF && (~api_exclude & API_BUF)) {
@@ -312,7 +313,7 @@ lx_print_dump(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\n");
 	}
 
-	fprintf(f, "\treturn t == TOK_ERROR;\n");
+	fprintf(f, "\treturn t == %sERROR;\n", prefix.tok);
 	fprintf(f, "}\n");
 }
 
-- 
2.43.0


From 89ece7b3c2380e3a0e2cb97ba879e869283fd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 102/152] fix: re printed the wrong patterns after --

---
 src/re/main.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 9059af9..f26aa2e 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -819,6 +819,9 @@ main(int argc, char *argv[])
 
 	{
 		int i;
+		int sep;
+
+		sep = 0;
 
 		for (i = 0; i < argc - !(fsm_lang != FSM_PRINT_NONE || example || isliteral || !!query || argc <= 1); i++) {
 			struct re_err err;
@@ -827,9 +830,7 @@ main(int argc, char *argv[])
 			/* TODO: handle possible "dialect:" prefix */
 
 			if (0 == strcmp(argv[i], "--")) {
-				argc--;
-				argv++;
-
+				sep = 1;
 				break;
 			}
 
@@ -928,8 +929,8 @@ main(int argc, char *argv[])
 		matchv = argv;
 		matchc = i;
 
-		argc -= i;
-		argv += i;
+		argc -= i + sep;
+		argv += i + sep;
 	}
 
 	if (query) {
-- 
2.43.0


From 276e9dc24554082a3423c350a92adf0b7eefc6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 103/152] fix: re -q equal compared the joined patterns with
 their last one

---
 src/re/main.c | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index f26aa2e..39cb8a3 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -825,7 +825,7 @@ main(int argc, char *argv[])
 
 		for (i = 0; i < argc - !(fsm_lang != FSM_PRINT_NONE || example || isliteral || !!query || argc <= 1); i++) {
 			struct re_err err;
-			struct fsm *new, *q;
+			struct fsm *new;
 
 			/* TODO: handle possible "dialect:" prefix */
 
@@ -893,37 +893,30 @@ main(int argc, char *argv[])
 			/* TODO: implement concatenating patterns for -s in conjunction with -z.
 			 * Note that depends on the regexp dialect */
 
-			if (query != NULL) {
-				q = fsm_clone(new);
-				if (q == NULL) {
-					perror("fsm_clone");
-					return EXIT_FAILURE;
-				}
-			}
-
-			fsm = join(fsm, new, NULL);
-			if (fsm == NULL) {
-				perror("fsm_union/concat");
-				return EXIT_FAILURE;
-			}
-
-			fsm_to_cleanup = fsm;
-
-			if (query != NULL) {
+			/* compare before joining, because joining consumes both */
+			if (query != NULL && i > 0) {
 				int r;
 
-				r = query(fsm, q);
+				r = query(fsm, new);
 				if (r == -1) {
 					perror("query");
+					fsm_free(new);
 					return EXIT_FAILURE;
 				}
 
 				if (r == 0) {
+					fsm_free(new);
 					return EXIT_FAILURE;
 				}
+			}
 
-				fsm_free(q);
+			fsm = join(fsm, new, NULL);
+			if (fsm == NULL) {
+				perror("fsm_union/concat");
+				return EXIT_FAILURE;
 			}
+
+			fsm_to_cleanup = fsm;
 		}
 
 		matchv = argv;
-- 
2.43.0


From 27da26c02ca489a9ee54f4aadf86d0b85755f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 104/152] fix: re -z could not print more than one pattern

---
 src/re/main.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 39cb8a3..3aa8b30 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -631,8 +631,8 @@ main(int argc, char *argv[])
 		return EXIT_FAILURE;
 	}
 
-	if (makevm && (keep_nfa || example || isliteral || query)) {
-		fprintf(stderr, "-M cannot be used with -m, -n, -q, or -t\n");
+	if (makevm && (keep_nfa || example || isliteral || query || patterns)) {
+		fprintf(stderr, "-M cannot be used with -m, -n, -q, -t or -z\n");
 		return EXIT_FAILURE;
 	}
 
@@ -1144,20 +1144,24 @@ main(int argc, char *argv[])
 				}
 
 				if (patterns) {
-					fsm_end_id_t ids[1];
-					size_t count, i;
+					fsm_end_id_t *ids;
+					size_t count, j;
 					int res;
 
 					count = fsm_endid_count(fsm, state);
-					assert(count == 1);
+					assert(count >= 1);
+
+					ids = xmalloc(count * sizeof *ids);
 
 					res = fsm_endid_get(fsm, state, count, ids);
 					assert(res == 1);
 
-					for (i = 0; i < count; i++) {
+					for (j = 0; j < count; j++) {
 						/* TODO: print nicely */
-						printf("match: /%s/\n", matchv[ids[i]]);
+						printf("match: /%s/\n", matchv[ids[j]]);
 					}
+
+					free(ids);
 				}
 			}
 		}
-- 
2.43.0


From 8b345b6ea11c9387f327ea137b31ff1cf8ab4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 105/152] fix: re lists the syntax languages when given an
 unknown one

---
 src/re/main.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 3aa8b30..e1a1545 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -165,10 +165,10 @@ lang_name(const char *name, enum fsm_print_lang *fsm_lang, enum ast_print_lang *
 			", ");
 	}
 
-	for (i = 0; i < sizeof a / sizeof *a; i++) {
+	for (i = 0; i < sizeof b / sizeof *b; i++) {
 		fprintf(stderr, "%s%s",
-			a[i].name,
-			i + 1 < sizeof a / sizeof *a ? ", " : "\n");
+			b[i].name,
+			i + 1 < sizeof b / sizeof *b ? ", " : "\n");
 	}
 
 	exit(EXIT_FAILURE);
-- 
2.43.0


From 87c74cd49bb2cb1489a8438971bc062760759445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 106/152] fix: fsm_determinise left an FSM without a start
 state nondeterministic

---
 src/libfsm/determinise.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 3f748ae..724621c 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -86,6 +86,11 @@ fsm_determinise_with_config(struct fsm *nfa,
 		 */
 
 		if (!fsm_getstart(nfa, &start)) {
+			/* nothing is reachable, so no (possibly nondeterministic) states are kept */
+			if (fsm_trim(nfa, FSM_TRIM_START_REACHABLE, NULL) < 0) {
+				goto cleanup;
+			}
+
 			res = FSM_DETERMINISE_WITH_CONFIG_OK;
 			goto cleanup;
 		}
-- 
2.43.0


From 6495d3215c0e419f7aa7639636e0ddd7ffa86f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 107/152] fix: fsm -x read the first file for every text

---
 src/fsm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index f9d1bb3..7394495 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -738,7 +738,7 @@ main(int argc, char *argv[])
 			if (xfiles) {
 				FILE *f;
 
-				f = xopen(argv[0]);
+				f = xopen(argv[i]);
 
 				e = fsm_exec(fsm, fsm_fgetc, f, &state, NULL);
 
-- 
2.43.0


From 4d4930e98bdfe69ea3d630eed838fd35c80234b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 108/152] fix: fsm -G exited with failure when it succeeded

---
 src/fsm/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 7394495..2d83c26 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -770,7 +770,9 @@ main(int argc, char *argv[])
 	}
 
 	if (generate_bounds > 0) {
-		r = fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt);
+		if (!fsm_generate_matches(fsm, generate_bounds, 0, fsm_generate_cb_printf_escaped, &opt)) {
+			r = EXIT_FAILURE;
+		}
 	}
 
 	fsm_free(fsm);
-- 
2.43.0


From 38c2fae8b18680172861444987415d063811bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 109/152] fix: fsm -U crashed when there was no FSM to
 intersect

---
 src/fsm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 2d83c26..41d6fba 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -588,7 +588,7 @@ main(int argc, char *argv[])
 		 * We can't include \0 here because optarg is a string, and I don't
 		 * want to invent a syntax for character sets.
 		 */
-		if (charset != NULL) {
+		if (charset != NULL && q != NULL) {
 			if (!fsm_determinise(q)) {
 				perror("fsm_determinise");
 				exit(EXIT_FAILURE);
-- 
2.43.0


From 52434d782b8c46274e67069fb039af5ef31d8f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 110/152] fix: rx asserted on a last line without a newline

---
 src/rx/main.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 128ea59..a133d2f 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -124,9 +124,8 @@ xgetline(FILE *f)
 		exit(EXIT_FAILURE);
 	}
 
-	/* n == 0 for an empty line */
-	if (n > 0) {
-		assert(buf[n - 1] == '\n');
+	/* the last line may be missing its newline */
+	if (n > 0 && buf[n - 1] == '\n') {
 		buf[n - 1] = '\0';
 	}
 
-- 
2.43.0


From feb2292e59f6cc0f2a0c89a78596dffbc4480718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 111/152] fix: rx named the wrong patterns in conflicts and
 read past its patterns

---
 src/rx/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index a133d2f..a531f9a 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -609,10 +609,10 @@ conflict(FILE *f, const struct fsm_options *opt,
 
 		for (size_t j = 0; j < env->general->count; j++) {
 			// TODO: delimiters per dialect, centralise with libre's re_perror()
-			if (env->general->a[i].id == state_metadata->end_ids[i]) {
+			if (env->general->a[j].id == state_metadata->end_ids[i]) {
 				fprintf(stderr, "#%u: /%s/\n",
 					state_metadata->end_ids[i],
-					env->general->a[i].s);
+					env->general->a[j].s);
 				goto next;
 			}
 		}
-- 
2.43.0


From 61f5e704b632579f51fa63a0deeb1cfb16a950bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 112/152] fix: rx exited with success for conflicting patterns

---
 src/rx/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index a531f9a..a729d70 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -1376,7 +1376,8 @@ main(int argc, char *argv[])
 			fprintf(stderr, "dfa: %u states\n", fsm_countstates(fsm));
 		}
 
-		if (-1 == fsm_print(stdout, fsm, &opt, &hooks, fsm_lang)) {
+		/* the number of conflicts, or -1 on error */
+		if (0 != fsm_print(stdout, fsm, &opt, &hooks, fsm_lang)) {
 			exit(EXIT_FAILURE);
 		}
 
-- 
2.43.0


From 2a1c856035baa96d86849684a4c210a909d4ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 113/152] fix: rx -i failed for unsupported patterns

---
 src/rx/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index a729d70..91b6d57 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -501,7 +501,7 @@ build_pattern_fsm(bool show_stats,
 // TODO: RE_SINGLE here? i think it shouldn't have any effect when \n isn't present in the charset
 	fsm = re_comp(dialect, fsm_sgetc, &q, alloc, flags, &err);
 
-	if (strict && fsm == NULL) {
+	if (strict && fsm == NULL && err.e != RE_EUNSUPPORTED) {
 		re_perror(dialect, &err, NULL, s);
 		exit(EXIT_FAILURE);
 	}
@@ -1156,7 +1156,7 @@ main(int argc, char *argv[])
 				break;
 
 			default:
-				if (strict) {
+				if (strict && r != CATEGORY_UNSUPPORTED) {
 					exit(EXIT_FAILURE);
 				}
 
-- 
2.43.0


From be1183d6a45fdb770b00e2c25f3ff21ed66ef5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 114/152] fix: rx crashed on patterns found to be in error when
 compiled

---
 src/rx/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 91b6d57..3b48349 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -506,7 +506,7 @@ build_pattern_fsm(bool show_stats,
 		exit(EXIT_FAILURE);
 	}
 
-	if (fsm == NULL && err.e == RE_EUNSUPPORTED) {
+	if (fsm == NULL) {
 		return NULL;
 	}
 
-- 
2.43.0


From 70dc98c140e50a8e7c6715d327b675c5fff551e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 115/152] fix: rx asserted on unsatisfiable patterns

---
 src/rx/main.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 3b48349..cfb8697 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -512,11 +512,16 @@ build_pattern_fsm(bool show_stats,
 
 	/*
 	 * An unsatisfiable regex compiles to an FSM that matches nothing,
-	 * so that unioning it with other regexes will still work.
+	 * we decline these as we do for literals.
 	 */
-	if (strict && fsm_empty(fsm)) {
-		fprintf(stdout, "re_comp: /%s/ regex is unsatisfiable\n", s);
-		exit(EXIT_FAILURE);
+	if (fsm_empty(fsm)) {
+		if (strict) {
+			fprintf(stderr, "re_comp: /%s/ regex is unsatisfiable\n", s);
+			exit(EXIT_FAILURE);
+		}
+
+		fsm_free(fsm);
+		return NULL;
 	}
 
 	/*
-- 
2.43.0


From e5f1c662004409aa8738b493332ed52e314db90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 116/152] fix: rx freed patterns declined during compilation
 twice

---
 src/rx/main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index cfb8697..fdbd499 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -614,6 +614,10 @@ conflict(FILE *f, const struct fsm_options *opt,
 
 		for (size_t j = 0; j < env->general->count; j++) {
 			// TODO: delimiters per dialect, centralise with libre's re_perror()
+			if (env->general->a[j].s == NULL) {
+				continue; /* declined */
+			}
+
 			if (env->general->a[j].id == state_metadata->end_ids[i]) {
 				fprintf(stderr, "#%u: /%s/\n",
 					state_metadata->end_ids[i],
@@ -1257,7 +1261,8 @@ main(int argc, char *argv[])
 				general.a[i].dialect, strict,
 				general.a[i].s, flags, general.a[i].id);
 			if (fsm == NULL) {
-				append_pattern(&declined, i, general.a[i].dialect, general.a[i].s);
+				append_pattern(&declined, general.a[i].id, general.a[i].dialect, general.a[i].s);
+				general.a[i].s = NULL; /* belongs to declined now */
 				continue;
 			}
 
-- 
2.43.0


From 230f047f2bf5f0095731c13f0b49b54dc3504783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 117/152] fix: rx overflowed its list of declined patterns

---
 src/rx/main.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index fdbd499..224e747 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -1184,9 +1184,7 @@ main(int argc, char *argv[])
 	 * realloc down to size, note this leaves some .a arrays NULL
 	 * when its count is 0.
 	 */
-	if (declined.count > 0) {
-		declined.a = xrealloc(declined.a, declined.count * sizeof *declined.a);
-	}
+	/* the declined list may still grow yet, so that's left as it is */
 	if (general.count > 0) {
 		general.a  = xrealloc(general.a, general.count * sizeof *general.a);
 	}
-- 
2.43.0


From 857db1cc914dd134ab4d0754b6260e03151afa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 118/152] fix: rx -F i did not apply to the literal dialect

---
 src/rx/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 224e747..b89ef69 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -285,8 +285,9 @@ categorize(enum re_dialect dialect, enum re_flags flags,
 	 * categorize empirically based on the dialect. We can't do this
 	 * inside re_is_literal() because that uses the getc callback,
 	 * and this shortcut depends on the storage for the input string s.
+	 * Case-insensitive strings need to be parsed.
 	 */
-	if (dialect == RE_LITERAL) {
+	if (dialect == RE_LITERAL && (flags & RE_ICASE) == 0) {
 		*lit_s_out = s;
 		*lit_n_out = strlen(s);
 		*strings_flags = RE_STRINGS_ANCHOR_LEFT | RE_STRINGS_ANCHOR_RIGHT;
@@ -1106,7 +1107,7 @@ main(int argc, char *argv[])
 			 * (and is freed when the set is destroyed). For literals, we're
 			 * done with the original syntax, and use lit_s/lit_n instead.
 			 */
-			if (dialect != RE_LITERAL && r == CATEGORY_LITERAL) {
+			if (r == CATEGORY_LITERAL && lit_s != s) {
 				free(s);
 			}
 
-- 
2.43.0


From bd296f62dc0298ecb5e8e586440ffb6ea279467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 119/152] fix: rx did not apply -C to general patterns

---
 src/rx/main.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index b89ef69..df934a5 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -537,17 +537,13 @@ build_pattern_fsm(bool show_stats,
 	assert(!fsm_empty(fsm));
 
 	if (charset != NULL) {
-// XXX: this is the wrong operation!
-// XXX: i *think* intersect_charset must be doing the wrong thing. somehow
-		(void) charset;
-		(void) show_stats;
-/*
 		fsm = intersect_charset(show_stats, charset, fsm);
-		if (fsm == NULL) {
-			perror("intersect_charset");
-			exit(EXIT_FAILURE);
+
+		/* nothing is left within the character set */
+		if (fsm_empty(fsm)) {
+			fsm_free(fsm);
+			return NULL;
 		}
-*/
 	}
 
 	/*
-- 
2.43.0


From dddf2ee73a9669e5c66d4cf8ec57616475f8340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 120/152] fix: fsm_remove_epsilons failed for an FSM without a
 start state

---
 src/libfsm/epsilons.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index c663155..8039300 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -177,10 +177,9 @@ fsm_remove_epsilons(struct fsm *nfa)
 
 	mark_states_reachable_by_label(nfa, reachable_by_label);
 
+	/* without a start state, any state may yet become one */
 	fsm_state_t start;
-	if (!fsm_getstart(nfa, &start)) {
-		goto cleanup;	/* no start state */
-	}
+	const bool have_start = fsm_getstart(nfa, &start);
 
 	for (s = 0; s < state_count; s++) {
 		struct state_iter si;
@@ -191,7 +190,7 @@ fsm_remove_epsilons(struct fsm *nfa)
 
 		/* If the state isn't reachable by a label and isn't the start state,
 		 * skip processing -- it will soon become garbage. */
-		if (!u64bitset_get(reachable_by_label, s) && s != start) {
+		if (have_start && !u64bitset_get(reachable_by_label, s) && s != start) {
 			continue;
 		}
 
-- 
2.43.0


From 92a683cc4f9dafa2d4287f36a4d1497d6bc28da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 121/152] fix: fsm_print reported failure for every rust
 fragment

---
 src/libfsm/print/rust.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index c1fcf5b..7c4ea2e 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -495,8 +495,11 @@ fsm_print_rust(FILE *f,
 	fprintf(f, "// generated\n");
 
 	if (opt->fragment) {
-		fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
-		goto error;
+		if (-1 == fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp)) {
+			goto error;
+		}
+
+		return 0;
 	}
 
 	fprintf(f, "\n");
-- 
2.43.0


From 002b9b72bc54a8403f31b6f332d6e7b90db49e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 122/152] fix: fsm_complement of an FSM without a start state
 matched nothing

---
 src/libfsm/complement.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index bbdbc88..e33d007 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -18,10 +18,20 @@
 int
 fsm_complement(struct fsm *fsm)
 {
+	fsm_state_t start;
 	size_t i;
 
 	assert(fsm != NULL);
 
+	/* without a start state nothing matches, and the complement is everything */
+	if (!fsm_getstart(fsm, &start)) {
+		if (!fsm_addstate(fsm, &start)) {
+			return 0;
+		}
+
+		fsm_setstart(fsm, start);
+	}
+
 	/* an NFA may have every symbol at every state and not be a DFA */
 	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-- 
2.43.0


From fb163c18e5c4b9391a2a7ebb75423274655664f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 123/152] fix: fsm -q requiredchars asserted for an FSM without
 states

---
 src/fsm/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 41d6fba..edb1d5d 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -696,8 +696,10 @@ main(int argc, char *argv[])
 			if (res == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED) {
 				fprintf(stderr, "fsm_detect_required_characters: step limit reached (%zd)\n", step_limit);
 				exit(EXIT_FAILURE);
+			} else if (res != FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN) {
+				fprintf(stderr, "fsm_detect_required_characters: error\n");
+				exit(EXIT_FAILURE);
 			} else {
-				assert(res == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN);
 				char buf[257] = {0};
 				size_t used = 0;
 				for (size_t i = 0; i < 256; i++) {
-- 
2.43.0


From 775dfc5b75f4867b7d3101aa022cb593721dd48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 124/152] fix: inverted character classes could not be printed
 as PCRE

---
 src/libre/print/pcre.c | 138 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 132 insertions(+), 6 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 974a364..c11319e 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -7,6 +7,7 @@
 #include <assert.h>
 #include <stdio.h>
 #include <stdint.h>
+#include <limits.h>
 #include <string.h>
 #include <ctype.h>
 #include <stdlib.h>
@@ -75,12 +76,24 @@ enum {
 	RE_FLAGS_PRINTABLE = RE_ICASE | RE_TEXT | RE_MULTI | RE_REVERSE | RE_SINGLE | RE_ZONE
 };
 
+static void
+print_class_literal(FILE *f, const struct fsm_options *opt, char c)
+{
+	/* this is only special inside a character class */
+	if (c == '-') {
+		fprintf(f, "\\x%02x", (unsigned char) c);
+		return;
+	}
+
+	pcre_escputc(f, opt, c);
+}
+
 static void
 print_endpoint(FILE *f, const struct fsm_options *opt, const struct ast_endpoint *e)
 {
 	switch (e->type) {
 	case AST_ENDPOINT_LITERAL:
-		pcre_escputc(f, opt, e->u.literal.c);
+		print_class_literal(f, opt, e->u.literal.c);
 		break;
 
 	case AST_ENDPOINT_CODEPOINT:
@@ -93,6 +106,110 @@ print_endpoint(FILE *f, const struct fsm_options *opt, const struct ast_endpoint
 	}
 }
 
+/*
+ * Collect the bytes matched by an expression made of character classes only.
+ * Returns 0 for any other expression.
+ */
+static int
+class_bytes(const struct ast_expr *n, unsigned char set[UCHAR_MAX + 1])
+{
+	unsigned char tmp[UCHAR_MAX + 1];
+	size_t i, j;
+
+	memset(set, 0, UCHAR_MAX + 1);
+
+	switch (n->type) {
+	case AST_EXPR_TOMBSTONE:
+		return 1;
+
+	case AST_EXPR_LITERAL:
+		set[(unsigned char) n->u.literal.c] = 1;
+		break;
+
+	case AST_EXPR_RANGE:
+		if (n->u.range.from.type != AST_ENDPOINT_LITERAL ||
+			n->u.range.to.type != AST_ENDPOINT_LITERAL)
+		{
+			return 0;
+		}
+
+		for (i = n->u.range.from.u.literal.c; i <= n->u.range.to.u.literal.c; i++) {
+			set[i] = 1;
+		}
+		break;
+
+	case AST_EXPR_ALT:
+		for (j = 0; j < n->u.alt.count; j++) {
+			if (!class_bytes(n->u.alt.n[j], tmp)) {
+				return 0;
+			}
+
+			for (i = 0; i <= UCHAR_MAX; i++) {
+				set[i] |= tmp[i];
+			}
+		}
+		return 1;
+
+	case AST_EXPR_SUBTRACT:
+		if (!class_bytes(n->u.subtract.a, set) || !class_bytes(n->u.subtract.b, tmp)) {
+			return 0;
+		}
+
+		for (i = 0; i <= UCHAR_MAX; i++) {
+			set[i] &= !tmp[i];
+		}
+		return 1;
+
+	default:
+		return 0;
+	}
+
+	if (n->re_flags & RE_ICASE) {
+		for (i = 'a'; i <= 'z'; i++) {
+			set[i] |= set[i - 'a' + 'A'];
+			set[i - 'a' + 'A'] |= set[i];
+		}
+	}
+
+	return 1;
+}
+
+static void
+print_class(FILE *f, const struct fsm_options *opt, const unsigned char set[UCHAR_MAX + 1])
+{
+	int from, to, any;
+
+	any = 0;
+
+	fprintf(f, "[");
+
+	for (from = 0; from <= UCHAR_MAX; from = to + 1) {
+		to = from;
+
+		if (!set[from]) {
+			continue;
+		}
+
+		while (to < UCHAR_MAX && set[to + 1]) {
+			to++;
+		}
+
+		print_class_literal(f, opt, from);
+		if (to > from) {
+			fprintf(f, "-");
+			print_class_literal(f, opt, to);
+		}
+
+		any = 1;
+	}
+
+	if (!any) {
+		fprintf(f, "^\\x00-\\xff");
+	}
+
+	fprintf(f, "]");
+}
+
 static void
 pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	struct ast_expr *n, const struct ast_expr *parent)
@@ -225,12 +342,21 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^" : "\\z");
 		break;
 
-	case AST_EXPR_SUBTRACT:
-		assert(!"unimplemented");
-		pp_iter(f, opt, re_flags, n->u.subtract.a);
-		fprintf(f, "-");
-		pp_iter(f, opt, re_flags, n->u.subtract.b);
+	case AST_EXPR_SUBTRACT: {
+		unsigned char set[UCHAR_MAX + 1];
+
+		if (!class_bytes(n, set)) {
+			assert(!"unimplemented");
+			pp_iter(f, opt, re_flags, n->u.subtract.a);
+			fprintf(f, "-");
+			pp_iter(f, opt, re_flags, n->u.subtract.b);
+			break;
+		}
+
+		print_class(f, opt, set);
+
 		break;
+	}
 
 	case AST_EXPR_RANGE:
 		if (n->u.range.from.u.literal.c == 0x00 &&
-- 
2.43.0


From 3d5bce176d046118da241129f0caddc3eff0d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 125/152] fix: fsm_print to C asserted on a fragment without
 states, and did not use its reject hook

---
 src/libfsm/print/c.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/print/c.c b/src/libfsm/print/c.c
index b16268e..6778fdc 100644
--- a/src/libfsm/print/c.c
+++ b/src/libfsm/print/c.c
@@ -42,8 +42,6 @@ ir_hasend(const struct ir *ir)
 	size_t i;
 
 	assert(ir != NULL);
-	assert(ir->states != NULL);
-
 	for (i = 0; i < ir->n; i++) {
 		if (ir->states[i].isend) {
 			return 1;
@@ -500,6 +498,11 @@ fsm_print_c_body(FILE *f, const struct ir *ir,
 		}
 	}
 
+	/* no states means no matches */
+	if (ir->n == 0) {
+		return print_endstates(f, opt, hooks, ir);
+	}
+
 	/* enum of states */
 	print_stateenum(f, ir->n);
 	fprintf(f, "\n");
@@ -645,16 +648,8 @@ fsm_print_c(FILE *f,
 			break;
 		}
 
-		if (ir->n == 0) {
-			fprintf(f, "\treturn 0;");
-			if (opt->comments) {
-				fprintf(f, " /* no matches */");
-			}
-			fprintf(f, "\n");
-		} else {
-			if (-1 == fsm_print_c_body(f, ir, opt, hooks)) {
-				return -1;
-			}
+		if (-1 == fsm_print_c_body(f, ir, opt, hooks)) {
+			return -1;
 		}
 
 		fprintf(f, "}\n");
-- 
2.43.0


From 5b654f3992b390d0dd0e2934e2c68cdbd0b4b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 126/152] fix: fsm_print to Go asserted on a fragment for getc

---
 src/libfsm/print/go.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 723a0d6..b01366d 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -318,8 +318,8 @@ fsm_print_gofrag(FILE *f,
 			break;
 
 		default:
-			assert(!"unreached");
-			break;
+			errno = ENOTSUP;
+			return -1;
 		}
 	}
 
-- 
2.43.0


From 157413258ca74cfcf68478c0c7fa1d37410972c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 127/152] fix: printing a repeat of none or one as PCRE
 asserted

---
 src/libre/print/pcre.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index c11319e..2293bb1 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -292,11 +292,9 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			const char *op;
 		} a[] = {
 #define _ AST_COUNT_UNBOUNDED
-			{ 0, 0, NULL },
 			{ 0, _, "*"  },
 			{ 0, 1, "?"  },
-			{ 1, _, "+"  },
-			{ 1, 1, NULL }
+			{ 1, _, "+"  }
 #undef _
 		};
 
@@ -306,7 +304,6 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 		for (i = 0; i < sizeof a / sizeof *a; i++) {
 			if (a[i].m == n->u.repeat.min && a[i].n == n->u.repeat.max) {
-				assert(a[i].op != NULL);
 				fprintf(f, "%s", a[i].op);
 				break;
 			}
-- 
2.43.0


From 81e0d8e7a9c963c8086b14ae35ff2a04f58838fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 128/152] fix: fsm -q epsilonclosure asserted for an FSM
 without states

---
 src/fsm/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index edb1d5d..bf29159 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -663,6 +663,11 @@ main(int argc, char *argv[])
 			size_t n;
 			struct state_iter it;
 
+			/* no states, no closures */
+			if (fsm_countstates(fsm) == 0) {
+				return 0;
+			}
+
 			closures = epsilon_closure(fsm);
 			if (closures == NULL) {
 				return -1;
-- 
2.43.0


From 672a23c16b117b2ea0f78875dd6357b33739e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 129/152] fix: querying an FSM wrote to it, and raced with
 other threads

---
 src/libfsm/detect_required.c | 23 +++++++++--------------
 src/libfsm/walk/reachable.c  | 28 ++++++++++++++--------------
 2 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/libfsm/detect_required.c b/src/libfsm/detect_required.c
index 73d23ce..ebd8599 100644
--- a/src/libfsm/detect_required.c
+++ b/src/libfsm/detect_required.c
@@ -31,6 +31,7 @@
 struct dr_env {
 	const struct fsm *dfa;
 	size_t steps;
+	bool *visited; /* per state; not in dfa, which is shared */
 
 	/* Number of times a unique label has been required -- this is a count so that going
 	 * from 0 <-> 1 can set/clear the accumulator, but going from 1 -> 2 etc. does not. */
@@ -123,12 +124,6 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 		goto cleanup;
 	}
 
-	#if EXPENSIVE_CHECKS
-	for (fsm_state_t s = 0; s < state_count; s++) {
-		assert(!dfa->states[s].visited);
-	}
-	#endif
-
 	for (size_t i = 0; i < 4; i++) { charmap[i] = 0; }
 
 	/* If the start state is also an end state, then
@@ -145,12 +140,15 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 	if (env.stack.frames == NULL) { goto cleanup; }
 	env.stack.ceil = DEF_STACK_FRAMES;
 
+	env.visited = f_calloc(dfa->alloc, state_count, sizeof(env.visited[0]));
+	if (env.visited == NULL) { goto cleanup; }
+
 	{			/* set up start state's stack frame */
 		struct stack_frame *sf0 = &env.stack.frames[0];
 		sf0->state = start_state;
 		sf0->label = LABEL_GROUP;
 
-		dfa->states[start_state].visited = true;
+		env.visited[start_state] = true;
 
 		edge_set_group_iter_reset(dfa->states[start_state].edges,
 		    EDGE_GROUP_ITER_ALL, &sf0->iter);
@@ -171,7 +169,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 
 		if (edge_set_group_iter_next(&sf->iter, &info)) {
 			assert(info.to < state_count);
-			if (dfa->states[info.to].visited) {
+			if (env.visited[info.to]) {
 				continue; /* skip visited state */
 			}
 
@@ -189,7 +187,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 			}
 
 			/* enter state */
-			dfa->states[info.to].visited = true;
+			env.visited[info.to] = true;
 
 			struct stack_frame *nsf = &env.stack.frames[env.stack.used];
 			nsf->state = info.to;
@@ -244,7 +242,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 			}
 
 			/* clear visited */
-			dfa->states[sf->state].visited = false;
+			env.visited[sf->state] = false;
 
 			env.stack.used--;
 		}
@@ -265,11 +263,8 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 	res = FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN;
 
 cleanup:
+	f_free(dfa->alloc, env.visited);
 	f_free(dfa->alloc, env.stack.frames);
 
-	for (fsm_state_t s = 0; s < state_count; s++) {
-		dfa->states[s].visited = false;
-	}
-
 	return res;
 }
diff --git a/src/libfsm/walk/reachable.c b/src/libfsm/walk/reachable.c
index ec0f5ee..4a55568 100644
--- a/src/libfsm/walk/reachable.c
+++ b/src/libfsm/walk/reachable.c
@@ -23,20 +23,23 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 	int r, stopcond;
 
 	fsm_state_t *q;
-	size_t i, qtop;
+	unsigned char *visited;
+	size_t qtop;
 
 	assert(state < fsm->statecount);
 	assert(predicate != NULL);
 
-	for (i=0; i < fsm->statecount; i++) {
-		fsm->states[i].visited = 0;
-	}
-
 	q = f_malloc(fsm->alloc, fsm->statecount * sizeof *q);
 	if (q == NULL) {
 		return -1;
 	}
 
+	visited = f_calloc(fsm->alloc, fsm->statecount, sizeof *visited);
+	if (visited == NULL) {
+		f_free(fsm->alloc, q);
+		return -1;
+	}
+
 	/*
 	 * Iterative depth-first search.
 	 */
@@ -44,7 +47,7 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 
 	q[0] = state;
 	qtop = 1;
-	fsm->states[state].visited = 1;
+	visited[state] = 1;
 
 	stopcond = (any) ? 1 : 0;
 
@@ -65,11 +68,11 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 		}
 
 		for (edge_set_reset(fsm->states[state].edges, &it); edge_set_next(&it, &e); ) {
-			if (fsm->states[e.state].visited == 0) {
+			if (visited[e.state] == 0) {
 				assert(qtop < fsm->statecount);
 
 				q[qtop++] = e.state;
-				fsm->states[e.state].visited = 1;
+				visited[e.state] = 1;
 			}
 		}
 
@@ -78,11 +81,11 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 			struct state_iter si;
 			fsm_state_t dst;
 			for (state_set_reset(fsm->states[state].epsilons, &si); state_set_next(&si, &dst); ) {
-				if (fsm->states[dst].visited == 0) {
+				if (visited[dst] == 0) {
 					assert(qtop < fsm->statecount);
 
 					q[qtop++] = dst;
-					fsm->states[dst].visited = 1;
+					visited[dst] = 1;
 				}
 			}
 		}
@@ -92,10 +95,7 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 	goto cleanup;
 
 cleanup:
-	for (i=0; i < fsm->statecount; i++) {
-		fsm->states[i].visited = 0;
-	}
-
+	f_free(fsm->alloc, visited);
 	f_free(fsm->alloc, q);
 
 	return r;
-- 
2.43.0


From 5ff8f28decc90b8487135a350a37683857acce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 130/152] fix: compiling patterns and determinising wrote to
 shared variables, and raced with other threads

---
 src/libfsm/determinise.c | 4 ----
 src/libre/ast.c          | 5 +----
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 724621c..e18d1eb 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -2045,8 +2045,6 @@ analysis_cache_save_pair(struct analyze_closures_env *env,
 	return pair_cache_save(env, RPBT_PAIR, a | RESULT_BIT, b | RESULT_BIT, result_id);
 }
 
-static size_t pair_cache_hit, pair_cache_miss;
-
 static int
 combine_pair(struct analyze_closures_env *env, fsm_state_t pa, fsm_state_t pb,
 	fsm_state_t *result_id)
@@ -2083,14 +2081,12 @@ combine_pair(struct analyze_closures_env *env, fsm_state_t pa, fsm_state_t pb,
 		fprintf(stderr, "%s: cache hit for { %d%s %d%s }: %d\n",
 		    __func__, ID_WITH_SUFFIX(pa), ID_WITH_SUFFIX(pb), *result_id);
 #endif
-		pair_cache_hit++;
 		return 1;
 	} else {
 #if LOG_GROUPING
 		fprintf(stderr, "%s: cache miss for { %d%s %d%s }\n",
 		    __func__, ID_WITH_SUFFIX(pa), ID_WITH_SUFFIX(pb));
 #endif
-		pair_cache_miss++;
 	}
 
 	assert((pa & RESULT_BIT) && (pb & RESULT_BIT));
diff --git a/src/libre/ast.c b/src/libre/ast.c
index 72e4975..7249e02 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -26,7 +26,7 @@
  * Note: this is a single-instance node, which other functions
  * should not modify.
  */
-static struct ast_expr the_tombstone;
+static struct ast_expr the_tombstone = { .type = AST_EXPR_TOMBSTONE };
 struct ast_expr *ast_expr_tombstone = &the_tombstone;
 
 struct ast_expr *
@@ -89,9 +89,6 @@ ast_new(void)
 
 	*res = zero;
 
-	/* XXX: not thread-safe */
-	the_tombstone.type = AST_EXPR_TOMBSTONE;
-
 	return res;
 }
 
-- 
2.43.0


From 0bf397e0e36d181f13e82120fd2ff53b670606ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 131/152] fix: the PCRE printer wrote inline flags which the
 parser refused

---
 src/libre/print/pcre.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 2293bb1..cd253f3 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -61,19 +61,16 @@ prec(const struct ast_expr *n)
 	}
 }
 
+/* those which the syntax can express, one at a time */
 static void
-re_flags_print(FILE *f, enum re_flags fl)
+re_flags_print(FILE *f, const char *sign, enum re_flags fl)
 {
-	if (fl & RE_ICASE  ) { fprintf(f, "i"); }
-	if (fl & RE_TEXT   ) { fprintf(f, "g"); }
-	if (fl & RE_MULTI  ) { fprintf(f, "m"); }
-	if (fl & RE_REVERSE) { fprintf(f, "r"); }
-	if (fl & RE_SINGLE ) { fprintf(f, "s"); }
-	if (fl & RE_ZONE   ) { fprintf(f, "z"); }
+	if (fl & RE_ICASE  ) { fprintf(f, "(?%si)", sign); }
+	if (fl & RE_SINGLE ) { fprintf(f, "(?%ss)", sign); }
 }
 
 enum {
-	RE_FLAGS_PRINTABLE = RE_ICASE | RE_TEXT | RE_MULTI | RE_REVERSE | RE_SINGLE | RE_ZONE
+	RE_FLAGS_PRINTABLE = RE_ICASE | RE_SINGLE
 };
 
 static void
@@ -238,13 +235,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 	}
 
 	if ((n->re_flags ^ *re_flags) & RE_FLAGS_PRINTABLE) {
-		fprintf(f, "(?");
-		re_flags_print(f, n->re_flags & ~*re_flags);
-		if (*re_flags & ~n->re_flags & RE_FLAGS_PRINTABLE) {
-			fprintf(f, "-");
-			re_flags_print(f, *re_flags & ~n->re_flags);
-		}
-		fprintf(f, ")");
+		re_flags_print(f, "", n->re_flags & ~*re_flags);
+		re_flags_print(f, "-", *re_flags & ~n->re_flags);
 		*re_flags = n->re_flags;
 	}
 
-- 
2.43.0


From fbd71b1d709c0117324750ad2cc565d1f38bf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 132/152] fix: the PCRE printer wrote ranges with escaped
 endpoints which the parser refused

---
 src/libre/print/pcre.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index cd253f3..09b49ac 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -76,8 +76,9 @@ enum {
 static void
 print_class_literal(FILE *f, const struct fsm_options *opt, char c)
 {
-	/* this is only special inside a character class */
-	if (c == '-') {
+	/* escapes of punctuation can't be the endpoints of a range,
+	 * and "-" is only special inside a character class */
+	if (ispunct((unsigned char) c)) {
 		fprintf(f, "\\x%02x", (unsigned char) c);
 		return;
 	}
-- 
2.43.0


From 389b2196639ec46ab579b3026e46a6652fa97097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 133/152] fix: the PCRE printer wrote $ as \z, which doesn't
 match before a final newline

---
 src/libre/print/pcre.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 09b49ac..448acd8 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -329,7 +329,7 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	case AST_EXPR_ANCHOR:
 		assert(n->u.anchor.type == AST_ANCHOR_START || n->u.anchor.type == AST_ANCHOR_END);
-		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^" : "\\z");
+		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^" : n->u.anchor.is_end_nl ? "$" : "\\z");
 		break;
 
 	case AST_EXPR_SUBTRACT: {
-- 
2.43.0


From 59578db221cf53ff7b8432610724ac376cb48ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 134/152] fix: the PCRE printer wrote any byte as ., which
 doesn't match a newline

---
 src/libre/print/pcre.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 448acd8..5b0068d 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -349,7 +349,9 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 	}
 
 	case AST_EXPR_RANGE:
-		if (n->u.range.from.u.literal.c == 0x00 &&
+		/* otherwise . doesn't match a newline */
+		if ((n->re_flags & RE_SINGLE) &&
+			n->u.range.from.u.literal.c == 0x00 &&
 			n->u.range.to.u.literal.c == 0xff)
 		{
 			fprintf(f, ".");
-- 
2.43.0


From 4981f3c7762978b428bfaa9985a4844f9f377ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 135/152] fix: the PCRE printer wrote a repeat of a repeat
 without parentheses, and asserted for {0,0}

---
 src/libre/print/pcre.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 5b0068d..d77eab9 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -291,7 +291,21 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 #undef _
 		};
 
-		pp_atomic(f, opt, re_flags, n->u.repeat.e, n);
+		/* the operand may be unsatisfiable */
+		if (n->u.repeat.max == 0) {
+			fprintf(f, "(?:)");
+			break;
+		}
+
+		/* a repeat can't be repeated without parentheses */
+		if (n->u.repeat.e->type == AST_EXPR_REPEAT) {
+			enum re_flags local_flags = *re_flags;
+			fprintf(f, "(?:");
+			pp_iter(f, opt, &local_flags, n->u.repeat.e);
+			fprintf(f, ")");
+		} else {
+			pp_atomic(f, opt, re_flags, n->u.repeat.e, n);
+		}
 
 		assert(n->u.repeat.max == AST_COUNT_UNBOUNDED || n->u.repeat.max >= n->u.repeat.min);
 
-- 
2.43.0


From a77cce51d71e5b4281367cf5bc94c90205f6d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 136/152] fix: the PCRE printer asserted for or wrote parts
 which can't match

---
 src/libre/print/pcre.c | 29 +++++++++++++++++++++++++++--
 src/libre/re.c         |  5 +++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index d77eab9..896415e 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -249,6 +249,17 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		size_t i;
 
 		for (i = 0; i < n->u.concat.count; i++) {
+			const enum ast_flags skip = AST_FLAG_NULLABLE | AST_FLAG_UNSATISFIABLE;
+
+			/* as for compilation */
+			if ((n->u.concat.n[i]->flags & skip) == skip) {
+				continue;
+			}
+
+			if (n->u.concat.n[i]->type == AST_EXPR_REPEAT && n->u.concat.n[i]->u.repeat.max == 0) {
+				continue;
+			}
+
 			pp_atomic(f, opt, re_flags, n->u.concat.n[i], n);
 		}
 
@@ -257,12 +268,26 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	case AST_EXPR_ALT: {
 		size_t i;
+		int any;
+
+		any = 0;
 
 		for (i = 0; i < n->u.alt.count; i++) {
-			pp_atomic(f, opt, re_flags, n->u.alt.n[i], n);
-			if (i + 1 < n->u.alt.count) {
+			/* as for compilation; the analysis leaves these unfinished */
+			if (n->u.alt.n[i]->flags & AST_FLAG_UNSATISFIABLE) {
+				continue;
+			}
+
+			if (any) {
 				fprintf(f, "|");
 			}
+
+			pp_atomic(f, opt, re_flags, n->u.alt.n[i], n);
+			any = 1;
+		}
+
+		if (!any) {
+			fprintf(f, "[^\\x00-\\xff]");
 		}
 
 		break;
diff --git a/src/libre/re.c b/src/libre/re.c
index 6326821..8551001 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -127,6 +127,11 @@ re_parse(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 
 	if (unsatisfiable != NULL) {
 		*unsatisfiable = (res == AST_ANALYSIS_UNSATISFIABLE);
+	} else if (res == AST_ANALYSIS_UNSATISFIABLE) {
+		/* A caller who can't tell gets an expression which matches nothing.
+		 * The analysis of the original was left unfinished. */
+		ast_expr_free(ast->pool, ast->expr);
+		ast->expr = ast_expr_tombstone;
 	}
 
 	return ast;
-- 
2.43.0


From 11e3e6d5d99390d666f1bc985b60569b8f354b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:13 +0000
Subject: [PATCH 137/152] fix: fsm_exec wrote through a null pointer if an FSM
 has captures and the caller wants none

---
 src/libfsm/exec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/exec.c b/src/libfsm/exec.c
index d8cebd8..eb6caa7 100644
--- a/src/libfsm/exec.c
+++ b/src/libfsm/exec.c
@@ -114,7 +114,7 @@ fsm_exec(const struct fsm *fsm,
 	}
 	const fsm_state_t start = state;
 
-	for (i = 0; i < capture_count; i++) {
+	for (i = 0; captures != NULL && i < capture_count; i++) {
 		captures[i].pos[0] = FSM_CAPTURE_NO_POS;
 		captures[i].pos[1] = FSM_CAPTURE_NO_POS;
 	}
@@ -160,7 +160,9 @@ fsm_exec(const struct fsm *fsm,
 		    offset, captures);
 	}
 
-	fsm_capture_finalize_captures(fsm, capture_count, captures);
+	if (captures != NULL) {
+		fsm_capture_finalize_captures(fsm, capture_count, captures);
+	}
 
 	*end = state;
 	return 1;
-- 
2.43.0


From ad1366d37780969a629458ed82b5ed4183ed6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:13 +0000
Subject: [PATCH 138/152] fix: minimisation merged states with different
 captures

---
 src/libfsm/minimise.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index 53a2a86..02ab760 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -61,6 +61,8 @@ struct end_metadata {
 		unsigned count;
 		fsm_output_id_t *ids;
 	} eager_outputs;
+
+	bool has_captures;
 };
 
 static int
@@ -712,6 +714,12 @@ same_end_metadata(const struct end_metadata *a, const struct end_metadata *b)
 		return 0;
 	}
 
+	/* Captures tell states apart by where they lead as well;
+	 * these states can't be merged without losing that. */
+	if (a->has_captures || b->has_captures) {
+		return 0;
+	}
+
 	/* compare -- these must be sorted */
 
 	for (size_t i = 0; i < a->end.count; i++) {
@@ -787,6 +795,8 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 				goto cleanup;
 			}
 
+			e->has_captures = fsm_capture_has_capture_actions(fsm, s);
+
 			s = env->jump[s];
 		}
 	}
@@ -822,6 +832,10 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 				incremental_hash_of_ids(&hash, s_md->eager_outputs.ids[eo_i]);
 			}
 
+			if (s_md->has_captures) {
+				incremental_hash_of_ids(&hash, s);
+			}
+
 			for (size_t b_i = 0; b_i < bucket_count; b_i++) {
 				fsm_state_t *b = &htab[(b_i + hash) & mask];
 				const fsm_state_t other = *b;
-- 
2.43.0


From 2a393ce1926ac200492ec928efce14791d3103fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:13 +0000
Subject: [PATCH 139/152] fix: removing states left captures on their old
 numbers

---
 src/libfsm/capture.c | 60 ++++++++++++++++++++++++++++++++++++++++++++
 src/libfsm/capture.h |  6 +++++
 src/libfsm/state.c   |  7 +++++-
 3 files changed, 72 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index d928a7b..f95b451 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -633,6 +633,66 @@ fsm_capture_rebase_capture_action_states(struct fsm *fsm, fsm_state_t base)
 	}
 }
 
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count)
+{
+	struct fsm_capture_info *ci = fsm->capture_info;
+	struct fsm_capture_action_bucket *nbuckets;
+	size_t i, b_i, mask;
+
+	if (ci == NULL || ci->buckets_used == 0) {
+		return 1;
+	}
+
+	nbuckets = f_malloc(fsm->alloc, ci->bucket_count * sizeof(nbuckets[0]));
+	if (nbuckets == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		nbuckets[i].state = CAPTURE_NO_STATE;
+	}
+
+	mask = ci->bucket_count - 1;
+	ci->buckets_used = 0;
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		struct fsm_capture_action_bucket b = ci->buckets[i];
+
+		if (b.state == CAPTURE_NO_STATE) {
+			continue;
+		}
+
+		assert(b.state < mapping_count);
+		b.state = mapping[b.state];
+		if (b.state == FSM_STATE_REMAP_NO_STATE) {
+			continue;
+		}
+
+		if (b.action.to != CAPTURE_NO_STATE) {
+			assert(b.action.to < mapping_count);
+			b.action.to = mapping[b.action.to];
+			if (b.action.to == FSM_STATE_REMAP_NO_STATE) {
+				continue;
+			}
+		}
+
+		b_i = hash_id(b.state) & mask;
+		while (nbuckets[b_i].state != CAPTURE_NO_STATE) {
+			b_i = (b_i + 1) & mask;
+		}
+
+		nbuckets[b_i] = b;
+		ci->buckets_used++;
+	}
+
+	f_free(fsm->alloc, ci->buckets);
+	ci->buckets = nbuckets;
+
+	return 1;
+}
+
 struct fsm_capture *
 fsm_capture_alloc(const struct fsm *fsm)
 {
diff --git a/src/libfsm/capture.h b/src/libfsm/capture.h
index 4c0ba47..6d2c3ff 100644
--- a/src/libfsm/capture.h
+++ b/src/libfsm/capture.h
@@ -53,6 +53,12 @@ fsm_capture_add_action(struct fsm *fsm,
     fsm_state_t state, enum capture_action_type type,
     unsigned id, fsm_state_t to);
 
+/* Renumber the states of capture actions, as for fsm_endid_compact().
+ * Actions for removed states are discarded. */
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count);
+
 /* Callback for iterating over capture actions.
  * Return 1 to continue, return 0 to halt.
  * If TO is not meaningful for a particular type, it will be
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 1b3654a..f1c2650 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -20,6 +20,7 @@
 #include "internal.h"
 #include "endids.h"
 #include "eager_output.h"
+#include "capture.h"
 
 int
 fsm_addstate(struct fsm *fsm, fsm_state_t *state)
@@ -144,7 +145,8 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 		mapping[state] = FSM_STATE_REMAP_NO_STATE;
 
 		if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
-		 || !fsm_eager_output_compact(fsm, mapping, fsm->statecount))
+		 || !fsm_eager_output_compact(fsm, mapping, fsm->statecount)
+		 || !fsm_capture_compact(fsm, mapping, fsm->statecount))
 		{
 			f_free(fsm->alloc, mapping);
 			return 0;
@@ -300,6 +302,9 @@ fsm_compact_states(struct fsm *fsm,
 	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
 		return 0;
 	}
+	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
+		return 0;
+	}
 
 	assert(dst == kept);
 	assert(kept == fsm->statecount);
-- 
2.43.0


From 3e4f6b2a7721c98b06533cd8b374cb102b13c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 140/152] fix: a start anchor after \z in alternatives matched
 before a final newline

---
 src/libre/ast_analysis.c | 17 +++++++++++++++++
 src/libre/ast_compile.c  |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 7d586f9..ea4b933 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -2063,6 +2063,9 @@ struct pincer_anchors_env {
 	unsigned int always_consumes_or_anchored_start:1;
 	unsigned int always_consumes_or_anchored_end:1;
 
+	/* May a final newline follow, where anchored at the end? */
+	unsigned int anchored_end_nl:1;
+
 	unsigned int alloc_fail:1;
 	size_t used;
 	size_t ceil;
@@ -2164,6 +2167,9 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 			if (dir == AD_FORWARD && env->always_consumes_or_anchored_end) {
 				LOG(3 - LOG_PINCER_ANCHORS, "%s: expr %p ANCHOR_START: recording CONSTRAINED_AT_END\n",
 				    __func__, (void *)expr);
+				/* for linking, `$` and `\\z` before this differ */
+				expr->u.anchor.is_end_nl = env->anchored_end_nl;
+
 				/* record for later -- these should only be set if there's an anchored *pair* */
 				pincer_anchors_record_anchor(env, expr);
 			}
@@ -2206,6 +2212,7 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 		const struct pincer_anchors_env before = *env;
 		int all_constrained_start = 1, any_constrained_start = 0;
 		int all_constrained_end = 1, any_constrained_end = 0;
+		int any_end_nl = 0;
 
 		if (dir == AD_FORWARD) {
 			for (size_t i = 0; i < expr->u.alt.count; i++) {
@@ -2222,6 +2229,8 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 				all_constrained_start &= env->always_consumes_or_anchored_start
 				    || (child->flags & AST_FLAG_ALWAYS_CONSUMES);
 				any_constrained_end |= env->always_consumes_or_anchored_end;
+				any_end_nl |= !(child->flags & AST_FLAG_ALWAYS_CONSUMES)
+				    && (child->flags & AST_FLAG_END_NL);
 				all_constrained_end &= env->always_consumes_or_anchored_end
 				    || (child->flags & AST_FLAG_ALWAYS_CONSUMES);
 				if (child->flags & AST_FLAG_ALWAYS_CONSUMES) {
@@ -2265,6 +2274,8 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 				all_constrained_start &= env->always_consumes_or_anchored_start
 				    || (child->flags & AST_FLAG_ALWAYS_CONSUMES);
 				any_constrained_end |= env->always_consumes_or_anchored_end;
+				any_end_nl |= !(child->flags & AST_FLAG_ALWAYS_CONSUMES)
+				    && (child->flags & AST_FLAG_END_NL);
 				all_constrained_end &= env->always_consumes_or_anchored_end
 				    || (child->flags & AST_FLAG_ALWAYS_CONSUMES);
 				if (child->flags & AST_FLAG_ALWAYS_CONSUMES) {
@@ -2300,6 +2311,12 @@ analysis_iter_pincer_anchors(struct ast_expr *expr, struct pincer_anchors_env *e
 		env->always_consumes_or_anchored_end = before.always_consumes_or_anchored_end
 		    || (any_constrained_end && all_constrained_end);
 
+		if (before.always_consumes_or_anchored_end) {
+			env->anchored_end_nl = before.anchored_end_nl && any_end_nl;
+		} else {
+			env->anchored_end_nl = any_end_nl;
+		}
+
 		if (has_always_consuming
 		    && has_non_consuming_anchored_start
 		    && all_always_consume_or_anchored_start) {
diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5d6c8e1..fbbb497 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -716,7 +716,7 @@ comp_iter(struct comp_env *env,
 		    && n->flags & AST_FLAG_CONSTRAINED_AT_END) {
 			/* the start anchor is constrained, so only
 			 * link directly to '\n''s end here */
-			if (env->re_flags & RE_END_NL) {
+			if (env->re_flags & RE_END_NL && n->u.anchor.is_end_nl) {
 				if (!intern_end_nl(env)) {
 					return 0;
 				}
-- 
2.43.0


From 21e62da66a257d47aa8fecfdf04de643a9e7c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 141/152] fix: rx took NUL in a literal to be in any charset

---
 src/rx/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index df934a5..165518b 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -351,7 +351,7 @@ categorize(enum re_dialect dialect, enum re_flags flags,
 		 */
 		if (charset != NULL) {
 			for (size_t i = 0; i < lit_n; i++) {
-				if (!strchr(charset, lit_s[i])) {
+				if (lit_s[i] == '\0' || !strchr(charset, lit_s[i])) {
 					free(lit_s);
 					return CATEGORY_NOT_PERMITTED;
 				}
-- 
2.43.0


From 33c3a2f57917b786a9223430f2e9d9f7921cb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 142/152] fix: an epsilon closure which ran out of memory was
 taken for complete

---
 src/libfsm/closure.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/closure.c b/src/libfsm/closure.c
index 165fa49..7545ec8 100644
--- a/src/libfsm/closure.c
+++ b/src/libfsm/closure.c
@@ -34,7 +34,7 @@ epsilon_closure_single(const struct fsm *fsm, struct state_set **closures, fsm_s
 
 	q = queue_new(fsm->alloc, fsm->statecount);
 	if (q == NULL) {
-		return 1;
+		return 0;
 	}
 
 	fsm->states[s].visited = 1;
@@ -122,6 +122,11 @@ start:
 
 error:
 
+	/* the states met so far may not all be in closures[s] yet */
+	for (p = 0; p < fsm->statecount; p++) {
+		fsm->states[p].visited = 0;
+	}
+
 	queue_free(q);
 
 	return 0;
@@ -173,7 +178,9 @@ epsilon_closure(const struct fsm *fsm)
 			continue;
 		}
 
-		epsilon_closure_single(fsm, closures, s);
+		if (!epsilon_closure_single(fsm, closures, s)) {
+			goto error;
+		}
 	}
 
 	return closures;
-- 
2.43.0


From 2e1e0b99eb143e058b3b587f3e75bc3775fae8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 143/152] fix: state sets lost their state when out of memory

---
 src/adt/stateset.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 33d5b2e..67215c5 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -165,6 +165,7 @@ state_set_create(const struct fsm_alloc *a)
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
@@ -212,9 +213,15 @@ state_set_add(struct state_set **setp, const struct fsm_alloc *alloc,
 		a[0] = SINGLETON_DECODE(*setp);
 		a[1] = state;
 
-		*setp = NULL;
+		set = NULL;
 
-		return state_set_add_bulk(setp, alloc, a, sizeof a / sizeof *a);
+		if (!state_set_add_bulk(&set, alloc, a, sizeof a / sizeof *a)) {
+			return 0;
+		}
+
+		*setp = set;
+
+		return 1;
 	}
 
 	set = *setp;
@@ -286,12 +293,14 @@ state_set_add_bulk(struct state_set **setp, const struct fsm_alloc *alloc,
 
 		prev = SINGLETON_DECODE(*setp);
 
-		*setp = state_set_create(alloc);
-		if (*setp == NULL) {
+		set = state_set_create(alloc);
+		if (set == NULL) {
 			return 0;
 		}
 
-		assert(!IS_SINGLETON(*setp));
+		assert(!IS_SINGLETON(set));
+
+		*setp = set;
 
 		if (!state_set_add(setp, alloc, prev)) {
 			return 0;
-- 
2.43.0


From ccf4ff5cb13cfa84ee12d1f659a57df347f207bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 144/152] fix: determinise used state sets it had no memory for

---
 src/adt/internedstateset.c |  2 +-
 src/libfsm/determinise.c   | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/adt/internedstateset.c b/src/adt/internedstateset.c
index 990d9c9..624c64c 100644
--- a/src/adt/internedstateset.c
+++ b/src/adt/internedstateset.c
@@ -84,7 +84,7 @@ interned_state_set_pool_alloc(const struct fsm_alloc *a)
 	if (sets == NULL) { goto cleanup; }
 
 	buf = f_malloc(a, DEF_BUF * sizeof(buf[0]));
-	if (sets == NULL) { goto cleanup; }
+	if (buf == NULL) { goto cleanup; }
 
 	buckets = f_malloc(a, DEF_BUCKETS * sizeof(buckets[0]));
 	if (buckets == NULL) { goto cleanup; }
diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index e18d1eb..6536688 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -252,6 +252,10 @@ fsm_determinise_with_config(struct fsm *nfa,
 			 * states are end states.
 			 */
 			ss = interned_state_set_get_state_set(ac_env.issp, iss_id);
+			if (ss == NULL) {
+				goto cleanup;
+			}
+
 			if (!state_set_has(nfa, ss, fsm_isend)) {
 				continue;
 			}
@@ -730,6 +734,7 @@ build_reverse_mappings(const struct map *map, struct interned_state_set_pool *is
 		interned_state_set_id iss_id = m->iss;
 		assert(m->dfastate < dst_dfa->statecount);
 		ss = interned_state_set_get_state_set(issp, iss_id);
+		if (ss == NULL) { goto cleanup; }
 
 		fsm_state_t state;
 		for (state_set_reset(ss, &si); state_set_next(&si, &state); ) {
@@ -913,6 +918,7 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 	INIT_TIMERS();
 	TIME(&pre);
 	struct state_set *ss = interned_state_set_get_state_set(env->issp, iss_id);
+	if (ss == NULL) { return 0; }
 	const size_t set_count = state_set_count(ss);
 
 #if LOG_DETERMINISE_STATE_SETS || LOG_GROUPING > 1
@@ -941,12 +947,12 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 		    env->pbuf[0],
 		    nceil * sizeof(env->pbuf[0]));
 		if (a == NULL) { return 0; }
+		env->pbuf[0] = a;
 		fsm_state_t *b = f_realloc(env->alloc,
 		    env->pbuf[1],
 		    nceil * sizeof(env->pbuf[1]));
 		if (b == NULL) { return 0; }
 		env->pbuf_ceil = nceil;
-		env->pbuf[0] = a;
 		env->pbuf[1] = b;
 	}
 
@@ -2620,7 +2626,7 @@ remap_eager_outputs(const struct map *map, struct interned_state_set_pool *issp,
 	struct map_iter iter;
 	for (struct mapping *b = map_first(map, &iter); b != NULL; b = map_next(&iter)) {
 		struct state_set *ss = interned_state_set_get_state_set(issp, b->iss);
-		assert(ss != NULL);
+		if (ss == NULL) { return 0; }
 
 		struct state_iter it;
 		fsm_state_t s;
-- 
2.43.0


From d0949387c12d33a49ed06e4bdc856e8a3e9439c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 145/152] fix: the ir freed uninitialised ranges and examples
 when out of memory

---
 src/libfsm/print/ir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index d8e29b2..807e570 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -144,7 +144,6 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 		p = f_malloc(fsm->alloc, sizeof *p * (n - i)); /* worst case */
 		if (p == NULL) {
-			j++;
 			goto error;
 		}
 
@@ -166,7 +165,7 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 			tmp = f_realloc(fsm->alloc, p, sizeof *p * k);
 			if (tmp == NULL) {
-				j++;
+				f_free(fsm->alloc, p);
 				goto error;
 			}
 
@@ -546,6 +545,7 @@ make_ir(const struct fsm *fsm, const struct fsm_options *opt)
 		ir->states[i].endids.count = 0;
 
 		ir->states[i].eager_outputs = NULL;
+		ir->states[i].example = NULL;
 
 		if (fsm_isend(fsm, i)) {
 			fsm_end_id_t *ids;
-- 
2.43.0


From 31f2a0d7ad672fe805688162db093a1f64f1743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 146/152] fix: complement and complete freed their operand on
 failure

---
 src/libfsm/complement.c | 1 -
 src/libfsm/complete.c   | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index e33d007..988f19d 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -35,7 +35,6 @@ fsm_complement(struct fsm *fsm)
 	/* an NFA may have every symbol at every state and not be a DFA */
 	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
diff --git a/src/libfsm/complete.c b/src/libfsm/complete.c
index d74f4d6..786dd8a 100644
--- a/src/libfsm/complete.c
+++ b/src/libfsm/complete.c
@@ -32,7 +32,6 @@ fsm_complete(struct fsm *fsm,
 
 	if (!fsm_all(fsm, fsm_isdfa)) {
 		if (!fsm_determinise(fsm)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
-- 
2.43.0


From c0b2c3ac11154512ff414928c2a277af352a341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 147/152] fix: failures while removing states went unnoticed or
 leaked

---
 src/libfsm/consolidate.c |  7 +++++--
 src/libfsm/state.c       | 16 ++++++++++++----
 src/libfsm/trim.c        |  3 +++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 55c3bfd..ca303aa 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -133,8 +133,10 @@ fsm_consolidate(const struct fsm *src,
 				src->states[src_i].edges)) {
 				goto cleanup;
 			}
-			edge_set_compact(&dst->states[dst_i].edges,
-			    dst->alloc, mapping_cb, &closure);
+			if (!edge_set_compact(&dst->states[dst_i].edges,
+				dst->alloc, mapping_cb, &closure)) {
+				goto cleanup;
+			}
 
 			if (fsm_isend(src, src_i)) {
 				fsm_setend(dst, dst_i, 1);
@@ -170,6 +172,7 @@ fsm_consolidate(const struct fsm *src,
 cleanup:
 
 	if (seen != NULL) { f_free(src->alloc, seen); }
+	if (dst != NULL) { fsm_free(dst); }
 	return NULL;
 }
 
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index f1c2650..03b4aa5 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -265,7 +265,9 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 		state_set_compact(&s->epsilons, mapping_cb, mapping);
 		if (fsm->states[i].edges != NULL) {
-			edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping);
+			if (!edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping)) {
+				goto error;
+			}
 		}
 	}
 
@@ -297,13 +299,13 @@ fsm_compact_states(struct fsm *fsm,
 
 	/* Remap end metadata */
 	if (!fsm_endid_compact(fsm, mapping, orig_statecount)) {
-		return 0;
+		goto error;
 	}
 	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
-		return 0;
+		goto error;
 	}
 	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
-		return 0;
+		goto error;
 	}
 
 	assert(dst == kept);
@@ -331,4 +333,10 @@ fsm_compact_states(struct fsm *fsm,
 		*removed = removed_count;
 	}
 	return 1;
+
+error:
+
+	f_free(fsm->alloc, mapping);
+
+	return 0;
 }
diff --git a/src/libfsm/trim.c b/src/libfsm/trim.c
index fb6cad0..936a75b 100644
--- a/src/libfsm/trim.c
+++ b/src/libfsm/trim.c
@@ -523,6 +523,9 @@ fsm_trim(struct fsm *fsm, enum fsm_trim_mode mode,
 	}
 
 	if (!mark_states(fsm, mode, sed)) {
+		for (i = 0; i < fsm->statecount; i++) {
+			fsm->states[i].visited = 0;
+		}
 		goto cleanup;
 	}
 
-- 
2.43.0


From b44451e4b94bd941ae8e686efaf6407fb5628675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 148/152] fix: shuffle used the result of a failed consolidate

---
 src/libfsm/shuffle.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libfsm/shuffle.c b/src/libfsm/shuffle.c
index 0a7269d..431e140 100644
--- a/src/libfsm/shuffle.c
+++ b/src/libfsm/shuffle.c
@@ -74,6 +74,7 @@ fsm_shuffle(struct fsm *fsm, unsigned seed)
 	populate_mapping(mapping, state_count, (uint32_t)seed);
 
 	dst = fsm_consolidate(fsm, mapping, state_count);
+	if (dst == NULL) { goto cleanup; }
 	fsm_move(fsm, dst);
 	dst = NULL;
 
-- 
2.43.0


From 03e9a5c946f8ef36d01cdd91f87e249a672b78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 149/152] fix: a capture path used its marks without checking
 for them

---
 src/libfsm/capture.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index f95b451..2bda89b 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -148,6 +148,9 @@ fsm_capture_set_path(struct fsm *fsm, unsigned capture_id,
 	seen_words = fsm->statecount/64 + 1;
 	env.seen = f_malloc(fsm->alloc,
 	    seen_words * sizeof(env.seen[0]));
+	if (env.seen == NULL) {
+		goto cleanup;
+	}
 
 	if (!mark_capture_path(&env)) {
 		goto cleanup;
-- 
2.43.0


From b69a077e9d78430a4119bc554249a9fafdc8dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 150/152] fix: running out of memory was taken for an empty
 language or a match

---
 src/libfsm/empty.c      |  8 ++++----
 src/libre/ast_compile.c | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/empty.c b/src/libfsm/empty.c
index 7039215..e09ec8a 100644
--- a/src/libfsm/empty.c
+++ b/src/libfsm/empty.c
@@ -34,10 +34,10 @@ fsm_empty(const struct fsm *fsm)
 	 * Note this includes the empty string (when the start state matches).
 	 */
 
-	if (fsm_reachableany(fsm, start, fsm_isend)) {
-		return 0;
+	switch (fsm_reachableany(fsm, start, fsm_isend)) {
+	case -1: return -1;
+	case  0: return 1;
+	default: return 0;
 	}
-
-	return 1;
 }
 
diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index fbbb497..cc8f421 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -923,6 +923,8 @@ comp_iter(struct comp_env *env,
 	case AST_EXPR_SUBTRACT: {
 		struct fsm *a, *b;
 		struct fsm *q;
+		fsm_state_t start;
+		int empty;
 		enum re_flags re_flags;
 
 		re_flags = n->re_flags;
@@ -955,7 +957,18 @@ comp_iter(struct comp_env *env,
 		 * overall or not.
 		 */
 
-		if (fsm_empty(q)) {
+		if (!fsm_getstart(q, &start)) {
+			empty = 1;
+		} else {
+			empty = fsm_empty(q);
+		}
+
+		if (empty == -1) {
+			fsm_free(q);
+			return 0;
+		}
+
+		if (empty) {
 			EPSILON(x, y);
 			break;
 		}
-- 
2.43.0


From ae1cba3a35b032b45b3be26ba57524238b4ee005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 151/152] fix: re_comp() asserted when out of memory

---
 src/libre/re.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libre/re.c b/src/libre/re.c
index 8551001..bc2fbbc 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -222,7 +222,6 @@ re_comp(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 
 	if (new == NULL) {
 		/* XXX: this can happen e.g. on malloc failure */
-		assert(err == NULL || err->e != RE_ESUCCESS);
 		goto error;
 	}
 
-- 
2.43.0


From 0dbc5d6d92cb0860949685f080adeecce4956b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:45 +0000
Subject: [PATCH 152/152] fix: remove_epsilons lost captures when out of memory

---
 src/libfsm/epsilons.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 8039300..3f10efa 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -373,6 +373,9 @@ remap_capture_actions(struct fsm *nfa, struct state_set **eclosures)
 	 * It can't be added during the iteration, because that would
 	 * modify the hash table as it's being iterated over. */
 	fsm_capture_action_iter(nfa, remap_capture_action_cb, &env);
+	if (!env.ok) {
+		goto cleanup;
+	}
 
 	/* Now that we're done iterating, add those actions. */
 	for (i = 0; i < env.count; i++) {
-- 
2.43.0

