From 27b759d9f9006a9f7b98853bf12b17e96f0e479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 01/77] fix: do not modify a shared basic map in gist
 computation

isl_basic_map_underlying_set returns its argument unmodified for basic maps
without parameters, input dimensions, local variables and names, so that the
basic set handled by uset_gist may still be shared with the basic map
held by the caller of isl_map_gist.  Make sure update_ineq operates
on a private copy.
---
 isl_map_simplify.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 72e0e9b..6e857af 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -2447,6 +2447,7 @@ static __isl_give isl_basic_set *update_ineq(__isl_take isl_basic_set *bset,
 	unsigned n_eq;
 	int found_equality = 0;
 
+	bset = isl_basic_set_cow(bset);
 	if (!bset)
 		return NULL;
 	if (tab && tab->empty)
-- 
2.43.0


From 4afbb4248e2bb26caea2e00328677d5957a98b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:46 +0000
Subject: [PATCH 02/77] fix: wrap fixed integer divisions during coalescing

A pair of inequality constraints that fixes an integer division is treated
as an equality by the tableau, which then considers one of them redundant.
Skipping that one while other constraints are only redundant because of it
resulted in extra integer points, e.g., coalescing
{ [i] : i mod 4 = 0 and 0 <= i <= 7; [i] : 0 <= i <= 1 } included 5.
---
 isl_coalesce.c | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/isl_coalesce.c b/isl_coalesce.c
index 5d0d173..02b61ce 100644
--- a/isl_coalesce.c
+++ b/isl_coalesce.c
@@ -1305,6 +1305,36 @@ static int add_wrap(struct isl_wraps *wraps, int w, isl_int *bound,
 	return 1;
 }
 
+/* Is inequality constraint "ineq" of info->bmap the opposite of
+ * another inequality constraint that is treated as an equality constraint
+ * by info->tab?
+ *
+ * Such pairs of inequality constraints are introduced
+ * by fix_constant_divs.
+ */
+static isl_bool is_opposite_of_equality(struct isl_coalesce_info *info,
+	int ineq)
+{
+	int l;
+	isl_basic_map *bmap = info->bmap;
+	isl_size total = isl_basic_map_dim(bmap, isl_dim_all);
+
+	if (total < 0)
+		return isl_bool_error;
+
+	for (l = 0; l < bmap->n_ineq; ++l) {
+		int eq;
+
+		if (!isl_seq_is_neg(bmap->ineq[ineq], bmap->ineq[l], 1 + total))
+			continue;
+		eq = isl_tab_is_equality(info->tab, bmap->n_eq + l);
+		if (eq < 0 || eq)
+			return isl_bool_ok(eq);
+	}
+
+	return isl_bool_false;
+}
+
 /* This function has two modes of operations.
  *
  * If "add_valid" is set, then all the constraints of info->bmap
@@ -1325,6 +1355,11 @@ static int add_wrap(struct isl_wraps *wraps, int w, isl_int *bound,
  *
  * Only consider constraints that are not redundant (as determined
  * by info->tab) and that are valid or invalid depending on "add_valid".
+ * If a pair of opposite inequality constraints is treated as an equality
+ * constraint by info->tab, then one of the two is considered redundant
+ * by info->tab.  However, this equality constraint (and therefore
+ * also this redundant constraint) may be needed to render
+ * other constraints redundant, so it still needs to be considered.
  * Wrap each constraint around "bound" such that it includes the whole
  * set "set" and append the resulting constraint to "wraps".
  * "wraps" is assumed to have been pre-allocated to the appropriate size.
@@ -1363,8 +1398,13 @@ static isl_stat add_selected_wraps(struct isl_wraps *wraps,
 			continue;
 		if (isl_seq_eq(bound, bmap->ineq[l], len))
 			continue;
-		if (isl_tab_is_redundant(info->tab, bmap->n_eq + l))
-			continue;
+		if (isl_tab_is_redundant(info->tab, bmap->n_eq + l)) {
+			isl_bool opposite = is_opposite_of_equality(info, l);
+			if (opposite < 0)
+				return isl_stat_error;
+			if (!opposite)
+				continue;
+		}
 
 		added = add_wrap(wraps, w, bound, bmap->ineq[l], len, set, 0);
 		if (added < 0)
-- 
2.43.0


From d4e9e7c420db4de21958a62e57a3e1e88ee2c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:28 +0000
Subject: [PATCH 03/77] fix: keep reversed basic maps finalized

isl_basic_map_reverse would call isl_basic_map_cow, which drops the FINAL
flag, but if either tuple has no dimensions and reversing does not change
the space, then nothing would finalize the result again and
isl_basic_map_foreach_constraint and everything built on it would fail.
isl_basic_map_swap_vars already takes care of the copy-on-write.
---
 isl_map.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index 5cb7a56..294dfe6 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -3991,9 +3991,6 @@ __isl_give isl_basic_map *isl_basic_map_reverse(__isl_take isl_basic_map *bmap)
 	unsigned pos;
 	isl_size n1, n2;
 
-	if (!bmap)
-		return NULL;
-	bmap = isl_basic_map_cow(bmap);
 	if (!bmap)
 		return NULL;
 	space = isl_space_reverse(isl_space_copy(bmap->dim));
-- 
2.43.0


From 3e7ee60f686f0ef007ef48234d10d3db0040037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 04/77] fix: restrict multi_pw_aff order maps to the domains of
 the operands

---
 isl_aff.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index 6f3e7d7..d64e697 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -7439,6 +7439,9 @@ __isl_give isl_pw_aff *isl_pw_aff_pullback_multi_pw_aff(
  * of "mpa1" and "mpa2" live in the same space, construct map space
  * between the domain spaces of "mpa1" and "mpa2" and call "order"
  * with this map space as extract argument.
+ * Make sure the result only involves elements of the domains
+ * of "mpa1" and "mpa2", which may be smaller than those
+ * of the individual elements that get compared.
  */
 static __isl_give isl_map *isl_multi_pw_aff_order_map(
 	__isl_take isl_multi_pw_aff *mpa1, __isl_take isl_multi_pw_aff *mpa2,
@@ -7467,8 +7470,8 @@ static __isl_give isl_map *isl_multi_pw_aff_order_map(
 	space1 = isl_space_map_from_domain_and_range(space1, space2);
 
 	res = order(mpa1, mpa2, space1);
-	isl_multi_pw_aff_free(mpa1);
-	isl_multi_pw_aff_free(mpa2);
+	res = isl_map_intersect_domain(res, isl_multi_pw_aff_domain(mpa1));
+	res = isl_map_intersect_range(res, isl_multi_pw_aff_domain(mpa2));
 	return res;
 error:
 	isl_multi_pw_aff_free(mpa1);
-- 
2.43.0


From 5cfd9d68863688ad594545466c21eaa61223ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:12 +0000
Subject: [PATCH 05/77] fix: compare zero-dimensional multi_pw_affs as equal

---
 isl_aff.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index d64e697..895df8d 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -7557,6 +7557,8 @@ __isl_give isl_map *isl_map_eq_at_multi_pw_aff(__isl_take isl_map *map,
  * then they need to satisfy "base", while "strict_base" needs to be satisfied
  * for other values of i.
  * If "base" is a strict order, then "base" and "strict_base" are the same.
+ * If there are no elements at all, then the (empty) sequences are equal
+ * to each other, which only satisfies a "base" that is not strict.
  */
 static __isl_give isl_map *isl_multi_pw_aff_lex_map_on_space(
 	__isl_keep isl_multi_pw_aff *mpa1, __isl_keep isl_multi_pw_aff *mpa2,
@@ -7573,7 +7575,10 @@ static __isl_give isl_map *isl_multi_pw_aff_lex_map_on_space(
 	n = isl_multi_pw_aff_dim(mpa1, isl_dim_out);
 	if (n < 0)
 		space = isl_space_free(space);
-	res = isl_map_empty(isl_space_copy(space));
+	if (n == 0 && base != strict_base)
+		res = isl_map_universe(isl_space_copy(space));
+	else
+		res = isl_map_empty(isl_space_copy(space));
 	rest = isl_map_universe(space);
 
 	for (i = 0; i < n; ++i) {
-- 
2.43.0


From bcfe21d4bdda0959ce314d80a89561c8ef1f5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:27 +0000
Subject: [PATCH 06/77] fix: compare functions with fractional values strictly

---
 isl_aff.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 895df8d..af17700 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2995,13 +2995,16 @@ __isl_give isl_set *isl_pw_aff_bind_id(__isl_take isl_pw_aff *pa,
  *
  * We compute the difference on the shared domain and then construct
  * the set of values where this difference is non-negative.
- * If strict is set, we first subtract 1 from the difference.
+ * If strict is set, we construct the set where the difference,
+ * which may be fractional, is positive instead,
+ * except for rational sets, where we first subtract 1 from the difference.
  * If equal is set, we only return the elements where pwaff1 and pwaff2
  * are equal.
  */
 static __isl_give isl_set *pw_aff_gte_set(__isl_take isl_pw_aff *pwaff1,
 	__isl_take isl_pw_aff *pwaff2, int strict, int equal)
 {
+	isl_bool rational;
 	isl_set *set1, *set2;
 
 	set1 = isl_pw_aff_domain(isl_pw_aff_copy(pwaff1));
@@ -3011,6 +3014,14 @@ static __isl_give isl_set *pw_aff_gte_set(__isl_take isl_pw_aff *pwaff1,
 	pwaff2 = isl_pw_aff_intersect_domain(pwaff2, isl_set_copy(set1));
 	pwaff1 = isl_pw_aff_add(pwaff1, isl_pw_aff_neg(pwaff2));
 
+	rational = isl_set_has_rational(set1);
+	if (rational < 0)
+		pwaff1 = isl_pw_aff_free(pwaff1);
+
+	if (strict && !rational) {
+		isl_set_free(set1);
+		return isl_pw_aff_pos_set(pwaff1);
+	}
 	if (strict) {
 		isl_space *space = isl_set_get_space(set1);
 		isl_aff *aff;
-- 
2.43.0


From 0affb67b2647ad959ae7be452b9b37de1bab0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:22 +0000
Subject: [PATCH 07/77] fix: do not modify a possibly shared divisor in
 isl_aff_div

---
 isl_aff.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index af17700..ffa306d 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -3473,6 +3473,12 @@ __isl_give isl_aff *isl_aff_div(__isl_take isl_aff *aff1,
 
 	neg = isl_int_is_neg(aff2->v->el[1]);
 	if (neg) {
+		aff2 = isl_aff_cow(aff2);
+		if (!aff2)
+			goto error;
+		aff2->v = isl_vec_cow(aff2->v);
+		if (!aff2->v)
+			goto error;
 		isl_int_neg(aff2->v->el[0], aff2->v->el[0]);
 		isl_int_neg(aff2->v->el[1], aff2->v->el[1]);
 	}
@@ -3480,11 +3486,6 @@ __isl_give isl_aff *isl_aff_div(__isl_take isl_aff *aff1,
 	aff1 = isl_aff_scale(aff1, aff2->v->el[0]);
 	aff1 = isl_aff_scale_down(aff1, aff2->v->el[1]);
 
-	if (neg) {
-		isl_int_neg(aff2->v->el[0], aff2->v->el[0]);
-		isl_int_neg(aff2->v->el[1], aff2->v->el[1]);
-	}
-
 	isl_aff_free(aff2);
 	return aff1;
 error:
-- 
2.43.0


From 344be4b18a3be7fe9c8fc43884d7c43547541270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 08/77] fix: compare functions with fractional values for
 equality

---
 isl_aff.c | 63 ++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index ffa306d..439c1d3 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -7132,7 +7132,10 @@ __isl_give isl_multi_pw_aff *isl_pw_multi_aff_to_multi_pw_aff(
 /* Do "pa1" and "pa2" represent the same function?
  *
  * We first check if they are obviously equal.
- * If not, we convert them to maps and check if those are equal.
+ * If not, we check if they have the same domain and
+ * if they have the same value on this entire domain.
+ * Note that converting them to maps would lose the elements
+ * with a fractional value.
  *
  * If "pa1" or "pa2" contain any NaNs, then they are considered
  * not to be the same.  A NaN is not equal to anything, not even
@@ -7143,7 +7146,7 @@ isl_bool isl_pw_aff_is_equal(__isl_keep isl_pw_aff *pa1,
 {
 	isl_bool equal;
 	isl_bool has_nan;
-	isl_map *map1, *map2;
+	isl_set *set1, *set2;
 
 	if (!pa1 || !pa2)
 		return isl_bool_error;
@@ -7157,11 +7160,17 @@ isl_bool isl_pw_aff_is_equal(__isl_keep isl_pw_aff *pa1,
 	if (has_nan)
 		return isl_bool_false;
 
-	map1 = isl_map_from_pw_aff_internal(isl_pw_aff_copy(pa1));
-	map2 = isl_map_from_pw_aff_internal(isl_pw_aff_copy(pa2));
-	equal = isl_map_is_equal(map1, map2);
-	isl_map_free(map1);
-	isl_map_free(map2);
+	set1 = isl_pw_aff_domain(isl_pw_aff_copy(pa1));
+	set2 = isl_pw_aff_domain(isl_pw_aff_copy(pa2));
+	equal = isl_set_is_equal(set1, set2);
+	isl_set_free(set2);
+	if (equal >= 0 && equal) {
+		set2 = isl_pw_aff_eq_set(isl_pw_aff_copy(pa1),
+					isl_pw_aff_copy(pa2));
+		equal = isl_set_is_equal(set1, set2);
+		isl_set_free(set2);
+	}
+	isl_set_free(set1);
 
 	return equal;
 }
@@ -7217,7 +7226,8 @@ isl_bool isl_multi_pw_aff_is_equal(__isl_keep isl_multi_pw_aff *mpa1,
 /* Do "pma1" and "pma2" represent the same function?
  *
  * First check if they are obviously equal.
- * If not, then convert them to maps and check if those are equal.
+ * If not, then check if they have the same domain and
+ * if their elements are pairwise equal.
  *
  * If "pa1" or "pa2" contain any NaNs, then they are considered
  * not to be the same.  A NaN is not equal to anything, not even
@@ -7226,9 +7236,11 @@ isl_bool isl_multi_pw_aff_is_equal(__isl_keep isl_multi_pw_aff *mpa1,
 isl_bool isl_pw_multi_aff_is_equal(__isl_keep isl_pw_multi_aff *pma1,
 	__isl_keep isl_pw_multi_aff *pma2)
 {
+	int i;
+	isl_size n;
 	isl_bool equal;
 	isl_bool has_nan;
-	isl_map *map1, *map2;
+	isl_set *set1, *set2;
 
 	if (!pma1 || !pma2)
 		return isl_bool_error;
@@ -7242,13 +7254,34 @@ isl_bool isl_pw_multi_aff_is_equal(__isl_keep isl_pw_multi_aff *pma1,
 	if (has_nan < 0 || has_nan)
 		return isl_bool_not(has_nan);
 
-	map1 = isl_map_from_pw_multi_aff_internal(isl_pw_multi_aff_copy(pma1));
-	map2 = isl_map_from_pw_multi_aff_internal(isl_pw_multi_aff_copy(pma2));
-	equal = isl_map_is_equal(map1, map2);
-	isl_map_free(map1);
-	isl_map_free(map2);
+	equal = isl_space_tuple_is_equal(pma1->dim, isl_dim_out,
+					pma2->dim, isl_dim_out);
+	if (equal < 0 || !equal)
+		return equal;
+	set1 = isl_pw_multi_aff_domain(isl_pw_multi_aff_copy(pma1));
+	set2 = isl_pw_multi_aff_domain(isl_pw_multi_aff_copy(pma2));
+	equal = isl_set_is_equal(set1, set2);
+	isl_set_free(set1);
+	isl_set_free(set2);
+	if (equal < 0 || !equal)
+		return equal;
 
-	return equal;
+	n = isl_pw_multi_aff_dim(pma1, isl_dim_out);
+	if (n < 0)
+		return isl_bool_error;
+	for (i = 0; i < n; ++i) {
+		isl_pw_aff *pa1, *pa2;
+
+		pa1 = isl_pw_multi_aff_get_pw_aff(pma1, i);
+		pa2 = isl_pw_multi_aff_get_pw_aff(pma2, i);
+		equal = isl_pw_aff_is_equal(pa1, pa2);
+		isl_pw_aff_free(pa1);
+		isl_pw_aff_free(pa2);
+		if (equal < 0 || !equal)
+			return equal;
+	}
+
+	return isl_bool_true;
 }
 
 #undef BASE
-- 
2.43.0


From ee9ef0eba89f4759dff49590befbc6c6a1f5c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 09/77] fix: take into account explicit domains in
 isl_multi_pw_aff_is_equal

---
 isl_aff.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 439c1d3..1f4209f 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -7180,6 +7180,8 @@ isl_bool isl_pw_aff_is_equal(__isl_keep isl_pw_aff *pa1,
  * Note that we cannot convert the entire isl_multi_pw_aff
  * to a map because the domains of the piecewise affine expressions
  * may not be the same.
+ * If there are no piecewise affine expressions, then only
+ * the (explicit) domains can be different.
  */
 isl_bool isl_multi_pw_aff_is_equal(__isl_keep isl_multi_pw_aff *mpa1,
 	__isl_keep isl_multi_pw_aff *mpa2)
@@ -7214,6 +7216,19 @@ isl_bool isl_multi_pw_aff_is_equal(__isl_keep isl_multi_pw_aff *mpa1,
 	if (equal < 0 || !equal)
 		return equal;
 
+	if (isl_multi_pw_aff_has_explicit_domain(mpa1) ||
+	    isl_multi_pw_aff_has_explicit_domain(mpa2)) {
+		isl_set *dom1, *dom2;
+
+		dom1 = isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(mpa1));
+		dom2 = isl_multi_pw_aff_domain(isl_multi_pw_aff_copy(mpa2));
+		equal = isl_set_is_equal(dom1, dom2);
+		isl_set_free(dom1);
+		isl_set_free(dom2);
+		if (equal < 0 || !equal)
+			return equal;
+	}
+
 	for (i = 0; i < mpa1->n; ++i) {
 		equal = isl_pw_aff_is_equal(mpa1->u.p[i], mpa2->u.p[i]);
 		if (equal < 0 || !equal)
-- 
2.43.0


From 8f76dd9ccf1f9aa3377915d07a86f5ac9412cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 10/77] fix: compute preimage by a piecewise function without
 pieces in the right space

---
 isl_map.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index 294dfe6..20de663 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -14088,10 +14088,13 @@ static __isl_give isl_map *isl_map_preimage_pw_multi_aff_aligned(
 		goto error;
 
 	if (pma->n == 0) {
+		isl_multi_aff *ma;
+
+		ma = isl_multi_aff_zero(isl_pw_multi_aff_get_space(pma));
 		isl_pw_multi_aff_free(pma);
-		res = isl_map_empty(isl_map_get_space(map));
-		isl_map_free(map);
-		return res;
+		res = isl_map_preimage_multi_aff(map, type, ma);
+		return isl_map_intersect(res,
+				isl_map_empty(isl_map_get_space(res)));
 	}
 
 	res = isl_map_preimage_multi_aff(isl_map_copy(map), type,
-- 
2.43.0


From 46db0ffc0ed2776f113d0d4b62404b24d8360b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:23 +0000
Subject: [PATCH 11/77] fix: do not modify shared basic map in
 isl_basic_map_detect_equalities

Detecting equalities adds them to the basic map and then simplifies it.
If the simplification replaces integer divisions by a different set
of integer divisions, then it first drops the old ones and may then need
to extend the basic map.  If the basic map is shared, then the extension
operates on a duplicate and the original is left without the constraints
on the dropped integer divisions.
---
 isl_affine_hull.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_affine_hull.c b/isl_affine_hull.c
index 3862509..1416ddc 100644
--- a/isl_affine_hull.c
+++ b/isl_affine_hull.c
@@ -925,6 +925,8 @@ __isl_give isl_basic_map *isl_basic_map_detect_equalities(
 		isl_basic_set_free(hull);
 		return isl_basic_map_set_to_empty(bmap);
 	}
+	if (hull->n_eq > 0)
+		bmap = isl_basic_map_cow(bmap);
 	bmap = isl_basic_map_extend(bmap, 0, hull->n_eq, 0);
 	total = isl_basic_set_dim(hull, isl_dim_all);
 	if (total < 0)
-- 
2.43.0


From a629510ee00d3a141bd287af1e19fb35d76f04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:51 +0000
Subject: [PATCH 12/77] fix: handle denominators in isl_pw_aff_{min,max}_val

Even if an affine expression only attains integer values over its domain,
it may still have a denominator after exploiting the equality constraints
of its domain.  Optimize the numerator in this case instead of failing.
---
 isl_ilp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/isl_ilp.c b/isl_ilp.c
index 2c004ef..b453347 100644
--- a/isl_ilp.c
+++ b/isl_ilp.c
@@ -655,14 +655,21 @@ struct isl_pw_aff_opt_data {
 
 /* Update the optimum in data->res with respect to the affine function
  * "aff" defined over "set".
+ *
+ * Even if "aff" only attains integer values over "set", it may still
+ * have a denominator that is different from one (after exploiting
+ * equality constraints of "set").  Optimize the numerator instead.
  */
 static isl_stat piece_opt(__isl_take isl_set *set, __isl_take isl_aff *aff,
 	void *user)
 {
 	struct isl_pw_aff_opt_data *data = user;
-	isl_val *opt;
+	isl_val *opt, *d;
 
+	d = isl_aff_get_denominator_val(aff);
+	aff = isl_aff_scale_val(aff, isl_val_copy(d));
 	opt = isl_set_opt_val(set, data->max, aff);
+	opt = isl_val_div(opt, d);
 	isl_set_free(set);
 	isl_aff_free(aff);
 
-- 
2.43.0


From 4319b2d92c220edcc81a683a51269dc7f4bf12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:02 +0000
Subject: [PATCH 13/77] fix: report failure to scan a set while counting its
 elements

---
 isl_scan.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/isl_scan.c b/isl_scan.c
index c4666ed..fcfac99 100644
--- a/isl_scan.c
+++ b/isl_scan.c
@@ -248,6 +248,15 @@ error:
 	return isl_stat_error;
 }
 
+/* Was the scan that uses "cnt" interrupted because
+ * the maximal number of elements (if any) was reached?
+ * If not, then a failing scan is a real failure.
+ */
+static int reached_max(struct isl_counter *cnt)
+{
+	return !isl_int_is_zero(cnt->max) && isl_int_ge(cnt->count, cnt->max);
+}
+
 int isl_basic_set_count_upto(__isl_keep isl_basic_set *bset,
 	isl_int max, isl_int *count)
 {
@@ -262,7 +271,7 @@ int isl_basic_set_count_upto(__isl_keep isl_basic_set *bset,
 	isl_int_set_si(cnt.count, 0);
 	isl_int_set(cnt.max, max);
 	if (isl_basic_set_scan(isl_basic_set_copy(bset), &cnt.callback) < 0 &&
-	    isl_int_lt(cnt.count, cnt.max))
+	    !reached_max(&cnt))
 		goto error;
 
 	isl_int_set(*count, cnt.count);
@@ -271,6 +280,7 @@ int isl_basic_set_count_upto(__isl_keep isl_basic_set *bset,
 
 	return 0;
 error:
+	isl_int_clear(cnt.max);
 	isl_int_clear(cnt.count);
 	return -1;
 }
@@ -288,7 +298,7 @@ int isl_set_count_upto(__isl_keep isl_set *set, isl_int max, isl_int *count)
 	isl_int_set_si(cnt.count, 0);
 	isl_int_set(cnt.max, max);
 	if (isl_set_scan(isl_set_copy(set), &cnt.callback) < 0 &&
-	    isl_int_lt(cnt.count, cnt.max))
+	    !reached_max(&cnt))
 		goto error;
 
 	isl_int_set(*count, cnt.count);
@@ -297,6 +307,7 @@ int isl_set_count_upto(__isl_keep isl_set *set, isl_int max, isl_int *count)
 
 	return 0;
 error:
+	isl_int_clear(cnt.max);
 	isl_int_clear(cnt.count);
 	return -1;
 }
-- 
2.43.0


From 454f1193c19d8c5cc463f4dd1d20bdd87d8d12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 14/77] fix: return a non-negative gcd for two equal negative
 values

isl_val_gcd returned its argument when both arguments were equal,
i.e., a negative value if they are negative, while the greatest
common divisor of any other pair of values is non-negative.
---
 isl_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_val.c b/isl_val.c
index 8b77622..c95d462 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -1022,7 +1022,7 @@ __isl_give isl_val *isl_val_gcd(__isl_take isl_val *v1, __isl_take isl_val *v2)
 			"expecting two integers", goto error);
 	if (isl_val_eq(v1, v2)) {
 		isl_val_free(v2);
-		return v1;
+		return isl_val_abs(v1);
 	}
 	if (isl_val_is_one(v1)) {
 		isl_val_free(v2);
-- 
2.43.0


From 1ebb7aa00548fd5a8e42f5f32a70c366a362b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 15/77] fix: reject malformed exponents in quasi-polynomials
 when reading

---
 isl_input.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/isl_input.c b/isl_input.c
index e0eb2bf..5f8b2a5 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -15,6 +15,7 @@
  */
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <isl_ctx_private.h>
@@ -2528,6 +2529,10 @@ static __isl_give isl_map *map_read_polylib(__isl_keep isl_stream *s)
 	return map;
 }
 
+/* Read an optional (non-negative) exponent from "s".
+ * If there is no exponent, then return 1.
+ * Return -1 on error.
+ */
 static int optional_power(__isl_keep isl_stream *s)
 {
 	int pow;
@@ -2546,7 +2551,13 @@ static int optional_power(__isl_keep isl_stream *s)
 		isl_stream_error(s, tok, "expecting exponent");
 		if (tok)
 			isl_stream_push_token(s, tok);
-		return 1;
+		return -1;
+	}
+	if (isl_int_is_neg(tok->u.v) || !isl_int_fits_slong(tok->u.v) ||
+	    isl_int_cmp_si(tok->u.v, INT_MAX) > 0) {
+		isl_stream_error(s, tok, "exponent out of range");
+		isl_token_free(tok);
+		return -1;
 	}
 	pow = isl_int_get_si(tok->u.v);
 	isl_token_free(tok);
@@ -2577,6 +2588,8 @@ static __isl_give isl_pw_qpolynomial *read_factor(__isl_keep isl_stream *s,
 		if (isl_stream_eat(s, ')'))
 			goto error;
 		pow = optional_power(s);
+		if (pow < 0)
+			goto error;
 		pwqp = isl_pw_qpolynomial_pow(pwqp, pow);
 	} else if (tok->type == ISL_TOKEN_VALUE) {
 		struct isl_token *tok2;
@@ -2629,6 +2642,8 @@ static __isl_give isl_pw_qpolynomial *read_factor(__isl_keep isl_stream *s,
 		}
 		isl_token_free(tok);
 		pow = optional_power(s);
+		if (pow < 0)
+			return NULL;
 		qp = isl_qpolynomial_var_pow_on_domain(isl_map_get_space(map), pos, pow);
 		pwqp = isl_pw_qpolynomial_from_qpolynomial(qp);
 	} else if (is_start_of_div(tok)) {
@@ -2639,6 +2654,8 @@ static __isl_give isl_pw_qpolynomial *read_factor(__isl_keep isl_stream *s,
 		pwaff = accept_div(s, isl_map_get_space(map), v);
 		pow = optional_power(s);
 		pwqp = isl_pw_qpolynomial_from_pw_aff(pwaff);
+		if (pow < 0)
+			goto error;
 		pwqp = isl_pw_qpolynomial_pow(pwqp, pow);
 	} else if (tok->type == '-') {
 		isl_token_free(tok);
-- 
2.43.0


From 8da7a8f999a65d97b56fce6e93d540fd22ca6632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 16/77] fix: report unexpected end of input in two places of
 the reader

---
 isl_input.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/isl_input.c b/isl_input.c
index 5f8b2a5..316e7be 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -2115,8 +2115,10 @@ static int resolve_paren_expr(__isl_keep isl_stream *s,
 	}
 
 	tok2 = isl_stream_next_token(s);
-	if (!tok2)
+	if (!tok2) {
+		isl_stream_error(s, NULL, "unexpected EOF");
 		goto error;
+	}
 	line = tok2->line;
 	col = tok2->col;
 	isl_stream_push_token(s, tok2);
@@ -2852,8 +2854,10 @@ static struct isl_obj obj_read_body(__isl_keep isl_stream *s,
 	if (!map)
 		goto error;
 	tok = isl_stream_next_token(s);
-	if (!tok)
+	if (!tok) {
+		isl_stream_error(s, NULL, "unexpected EOF");
 		goto error;
+	}
 	if (tok->type == ISL_TOKEN_TO) {
 		obj.type = isl_obj_map;
 		isl_token_free(tok);
-- 
2.43.0


From a285ede710dd8a74c9dca171fe43bdd27b267600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 17/77] fix: isl_map_read_from_str: refuse parameter domains

---
 isl_input.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/isl_input.c b/isl_input.c
index 316e7be..1e85040 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -3192,8 +3192,16 @@ __isl_give isl_map *isl_stream_read_map(__isl_keep isl_stream *s)
 		isl_assert(s->ctx, obj.type == isl_obj_map ||
 				   obj.type == isl_obj_set, goto error);
 	
-	if (obj.type == isl_obj_set)
+	if (obj.type == isl_obj_set) {
+		isl_bool params = isl_set_is_params(obj.v);
+
+		if (params < 0)
+			goto error;
+		if (params)
+			isl_die(s->ctx, isl_error_invalid,
+				"parameter domain is not a map", goto error);
 		obj.v = isl_map_from_range(obj.v);
+	}
 
 	return obj.v;
 error:
-- 
2.43.0


From 5d124d2df404ec7dcd0db1e25495f41faae2f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 18/77] fix: isl_union_pw_aff_read_from_str: accept empty
 functions

---
 isl_input.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index 1e85040..9d8aee3 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -4243,6 +4243,7 @@ __isl_give isl_multi_pw_aff *isl_multi_pw_aff_read_from_str(isl_ctx *ctx,
 }
 
 /* Read the body of an isl_union_pw_aff from "s" with parameter domain "dom".
+ * If the body is empty, then the result is an empty isl_union_pw_aff.
  */
 static __isl_give isl_union_pw_aff *read_union_pw_aff_with_dom(
 	__isl_keep isl_stream *s, __isl_take isl_set *dom, struct vars *v)
@@ -4252,6 +4253,13 @@ static __isl_give isl_union_pw_aff *read_union_pw_aff_with_dom(
 	isl_set *aff_dom;
 	int n;
 
+	if (isl_stream_next_token_is(s, '}')) {
+		isl_space *space = isl_set_get_space(dom);
+
+		isl_set_free(dom);
+		return isl_union_pw_aff_empty(space);
+	}
+
 	n = v->n;
 	aff_dom = read_aff_domain(s, isl_set_copy(dom), v);
 	pa = read_pw_aff_with_dom(s, aff_dom, v);
-- 
2.43.0


From aec6b45e870dc71cf02ab164c8a9405766bb1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 19/77] fix: isl_token_get_str: refuse tokens that do not hold
 a string

---
 isl_stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_stream.c b/isl_stream.c
index 862015b..1934928 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -107,7 +107,8 @@ __isl_give char *isl_token_get_str(isl_ctx *ctx, struct isl_token *tok)
 {
 	if (!tok)
 		return NULL;
-	if (!tok->u.s)
+	if (tok->type == ISL_TOKEN_VALUE || tok->type == ISL_TOKEN_MAP ||
+	    tok->type == ISL_TOKEN_AFF || !tok->u.s)
 		isl_die(ctx, isl_error_invalid,
 			"token does not have a string representation",
 			return NULL);
-- 
2.43.0


From 2b7175262946e6e43149d3c863b212f5d94f2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 20/77] fix: take into account coscheduled instances of the
 same must-source

isl_union_access_info_compute_flow is documented to only consider
dependences from must accesses that are not coscheduled with any other
access to the same element to be must-dependences, but it only checked
for coscheduled instances of other sources.  If several instances
of the same source are coscheduled, then the (arbitrary) lexicographically
last one would be reported as the definite source and the others
would not be reported at all.
---
 isl_flow.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/isl_flow.c b/isl_flow.c
index 92d2266..b18b911 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -947,6 +947,20 @@ static __isl_give isl_map *coscheduled_source(__isl_keep isl_access_info *acc,
 	return map;
 }
 
+/* Given a relation [T -> S] -> K between pairs of instances
+ * of the same source and sinks, as computed by coscheduled_source,
+ * remove the pairs that consist of two copies of the same instance.
+ */
+static __isl_give isl_map *drop_equal_sources(__isl_take isl_map *map)
+{
+	isl_space *space;
+	isl_set *equal;
+
+	space = isl_space_unwrap(isl_space_domain(isl_map_get_space(map)));
+	equal = isl_map_wrap(isl_map_identity(space));
+	return isl_map_subtract_domain(map, equal);
+}
+
 /* After the dependences derived from a must-source have been computed
  * at a certain level, check if any of the sources of the must-dependences
  * may be coscheduled with other sources.
@@ -996,7 +1010,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 		if (isl_map_plain_is_empty(must_rel[i]))
 			continue;
 		move = isl_map_empty(isl_map_get_space(must_rel[i]));
-		for (j = i - 1; j >= 0; --j) {
+		for (j = i; j >= 0; --j) {
 			int depth;
 			isl_bool coscheduled;
 			isl_map *map, *factor;
@@ -1012,6 +1026,8 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			depth = acc->level_before(acc->source[i].data,
 						acc->source[j].data) / 2;
 			map = coscheduled_source(acc, must_rel[i], j, depth);
+			if (j == i)
+				map = drop_equal_sources(map);
 			factor = isl_map_domain_factor_range(isl_map_copy(map));
 			may_rel[j] = isl_map_union(may_rel[j], factor);
 			map = isl_map_domain_factor_domain(map);
-- 
2.43.0


From f6f678809ab9c401b9a27572842d0d11e67fd9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:13 +0000
Subject: [PATCH 21/77] fix: isl_union_map_compute_flow: drop accessed elements
 from may-dependences

The may-dependences were returned in the form Source -> [Sink -> Data],
while the must-dependences are (and both used to be) of the form
Source -> Sink.
---
 isl_flow.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/isl_flow.c b/isl_flow.c
index b18b911..53a33f9 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -2190,14 +2190,18 @@ __isl_give isl_union_map *isl_union_flow_get_may_dependence(
 	return isl_union_map_range_factor_domain(dep);
 }
 
-/* Return the non-definite dependences in "flow".
+/* Return the non-definite dependences in "flow",
+ * without the accessed elements.
  */
 static __isl_give isl_union_map *isl_union_flow_get_non_must_dependence(
 	__isl_keep isl_union_flow *flow)
 {
+	isl_union_map *dep;
+
 	if (!flow)
 		return NULL;
-	return isl_union_map_copy(flow->may_dep);
+	dep = isl_union_map_copy(flow->may_dep);
+	return isl_union_map_range_factor_domain(dep);
 }
 
 /* Return the subset of the sink accesses for which definitely
-- 
2.43.0


From 59a61821066725f0499715a11303954c1d6ef77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:13 +0000
Subject: [PATCH 22/77] fix: also consider sources coscheduled with
 must-sources of may-dependences

If a may-source was found for a sink at an inner level, then the must-source
found at some outer level only results in a may-dependence.
Other sources that are coscheduled with such a must-source
also need to be considered.
---
 isl_flow.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/isl_flow.c b/isl_flow.c
index 53a33f9..cc88657 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -979,7 +979,9 @@ static __isl_give isl_map *drop_equal_sources(__isl_take isl_map *map)
  * dependences derived from may-sources.
  *
  * In particular, consider all the must-sources with a non-empty
- * dependence relation in "must_rel".  They are considered in reverse
+ * dependence relation in "must_rel" or in "may_rel".
+ * The latter relates must-sources to sinks for which some later may-source
+ * has already been found.  They are considered in reverse
  * order because that is the order in which they are considered in the caller.
  * If any of the must-sources are coscheduled, then the last one
  * is the one that will have a corresponding dependence relation.
@@ -1005,10 +1007,14 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 	if (!acc->coscheduled)
 		return flow;
 	for (i = acc->n_must - 1; i >= 0; --i) {
-		isl_map *move;
+		isl_map *move, *rel;
 
-		if (isl_map_plain_is_empty(must_rel[i]))
+		rel = isl_map_union(isl_map_copy(must_rel[i]),
+				    isl_map_copy(may_rel[i]));
+		if (isl_map_plain_is_empty(rel)) {
+			isl_map_free(rel);
 			continue;
+		}
 		move = isl_map_empty(isl_map_get_space(must_rel[i]));
 		for (j = i; j >= 0; --j) {
 			int depth;
@@ -1018,6 +1024,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			coscheduled = acc->coscheduled(acc->source[i].data,
 							acc->source[j].data);
 			if (coscheduled < 0) {
+				isl_map_free(rel);
 				isl_map_free(move);
 				return isl_flow_free(flow);
 			}
@@ -1025,7 +1032,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 				continue;
 			depth = acc->level_before(acc->source[i].data,
 						acc->source[j].data) / 2;
-			map = coscheduled_source(acc, must_rel[i], j, depth);
+			map = coscheduled_source(acc, rel, j, depth);
 			if (j == i)
 				map = drop_equal_sources(map);
 			factor = isl_map_domain_factor_range(isl_map_copy(map));
@@ -1042,6 +1049,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			coscheduled = acc->coscheduled(acc->source[i].data,
 							acc->source[pos].data);
 			if (coscheduled < 0) {
+				isl_map_free(rel);
 				isl_map_free(move);
 				return isl_flow_free(flow);
 			}
@@ -1049,7 +1057,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 				continue;
 			depth = acc->level_before(acc->source[i].data,
 						acc->source[pos].data) / 2;
-			map = coscheduled_source(acc, must_rel[i], pos, depth);
+			map = coscheduled_source(acc, rel, pos, depth);
 			factor = isl_map_domain_factor_range(isl_map_copy(map));
 			pos = 2 * acc->n_must + j;
 			flow->dep[pos].map = isl_map_union(flow->dep[pos].map,
@@ -1057,6 +1065,8 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			map = isl_map_domain_factor_domain(map);
 			move = isl_map_union(move, map);
 		}
+		isl_map_free(rel);
+		move = isl_map_intersect(move, isl_map_copy(must_rel[i]));
 		must_rel[i] = isl_map_subtract(must_rel[i], isl_map_copy(move));
 		may_rel[i] = isl_map_union(may_rel[i], move);
 	}
-- 
2.43.0


From 8c59da19059458ef0cc755c33abb9ec19d8955e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:34 +0000
Subject: [PATCH 23/77] fix: dataflow analysis: do not mix fixed and non-fixed
 schedule dimensions

If a schedule dimension has a fixed value for some of the accesses,
but not for others, then a textual order was derived for some pairs of
accesses, while other pairs were considered to be ordered by the loop
at the same dimension.  Since the level of the loop is handled before
that of the textual order, a source that precedes the sink in the loop order
was considered to come after a source that precedes the sink textually,
resulting in incorrect dependences.
---
 isl_flow.c | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/isl_flow.c b/isl_flow.c
index cc88657..806adae 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -2509,6 +2509,66 @@ static isl_bool coscheduled(void *first, void *second)
 	return isl_bool_true;
 }
 
+/* Is schedule dimension "pos" fixed according to "info"?
+ */
+static isl_bool sched_info_is_cst(struct isl_sched_info *info, int pos)
+{
+	isl_size n;
+
+	if (!info)
+		return isl_bool_error;
+	n = isl_vec_size(info->cst);
+	if (n < 0)
+		return isl_bool_error;
+	return isl_bool_ok(pos < n && info->is_cst[pos]);
+}
+
+/* Only keep track of those fixed schedule dimensions of the sink and
+ * the sources in "data" that are fixed in all of them.
+ *
+ * In particular, compute_val_based_dependences considers
+ * the textual order at some level separately from
+ * the order in the next loop, so the fixed values can only
+ * be used to derive a textual order between some pair of accesses
+ * if the same is true for all other pairs.
+ */
+static isl_stat drop_partially_fixed(struct isl_compute_flow_data *data)
+{
+	int i, j;
+	isl_size n;
+
+	if (!data->sink_info)
+		return isl_stat_error;
+	n = isl_vec_size(data->sink_info->cst);
+	if (n < 0)
+		return isl_stat_error;
+	for (i = 0; i < n; ++i) {
+		isl_bool fixed;
+
+		fixed = sched_info_is_cst(data->sink_info, i);
+		for (j = 0; fixed == isl_bool_true && j < data->count; ++j)
+			fixed = sched_info_is_cst(data->source_info[j], i);
+		if (fixed < 0)
+			return isl_stat_error;
+		if (fixed)
+			continue;
+		data->sink_info->is_cst[i] = 0;
+		for (j = 0; j < data->count; ++j) {
+			isl_size n_j;
+
+			if (!data->source_info[j])
+				return isl_stat_error;
+			n_j = isl_vec_size(data->source_info[j]->cst);
+			if (n_j < 0)
+				return isl_stat_error;
+			if (i < n_j)
+				data->source_info[j]->is_cst[i] = 0;
+		}
+	}
+
+	return isl_stat_ok;
+}
+
 /* Given a sink access, look for all the source accesses that access
  * the same array and perform dataflow analysis on them using
  * isl_access_info_compute_flow_core.
@@ -2558,6 +2618,8 @@ static isl_stat compute_flow(__isl_take isl_map *map, void *user)
 	if (isl_union_map_foreach_map(data->may_source,
 					&collect_matching_array, data) < 0)
 		goto error;
+	if (drop_partially_fixed(data) < 0)
+		goto error;
 
 	flow = access_info_compute_flow_core(data->accesses);
 	data->accesses = NULL;
-- 
2.43.0


From 973a902e2483667e2f9055a3bcbeda5c435eb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:55 +0000
Subject: [PATCH 24/77] fix: schedule tree based dataflow: take into account
 unordered set children

The children of a set node may be executed in any order, so a source
in one child cannot be considered to definitely overwrite a source
in another child.
---
 isl_flow.c | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/isl_flow.c b/isl_flow.c
index 806adae..2b16fa2 100644
--- a/isl_flow.c
+++ b/isl_flow.c
@@ -961,6 +961,23 @@ static __isl_give isl_map *drop_equal_sources(__isl_take isl_map *map)
 	return isl_map_subtract_domain(map, equal);
 }
 
+/* Given a source at position "i" in "acc" that precedes the sink
+ * at level "level", can the source at position "j" be coscheduled with it
+ * and also precede the sink at this level?
+ */
+static isl_bool coscheduled_at_level(__isl_keep isl_access_info *acc,
+	int i, int j, int level)
+{
+	int plevel;
+
+	plevel = acc->level_before(acc->source[j].data, acc->sink.data);
+	if (plevel < 0)
+		return isl_bool_error;
+	if (!can_precede_at_level(plevel, level))
+		return isl_bool_false;
+	return acc->coscheduled(acc->source[i].data, acc->source[j].data);
+}
+
 /* After the dependences derived from a must-source have been computed
  * at a certain level, check if any of the sources of the must-dependences
  * may be coscheduled with other sources.
@@ -972,8 +989,8 @@ static __isl_give isl_map *drop_equal_sources(__isl_take isl_map *map)
  * two sources may be coscheduled.  If acc->coscheduled is NULL then
  * the sources are assumed not to be coscheduled.
  * "must_rel" and "may_rel" describe the must and may-dependence relations
- * computed at the current level for the must-sources.  Some of the dependences
- * may be moved from "must_rel" to "may_rel".
+ * computed at the current level "level" for the must-sources.
+ * Some of the dependences may be moved from "must_rel" to "may_rel".
  * "flow" contains all dependences computed so far (apart from those
  * in "must_rel" and "may_rel") and may be updated with additional
  * dependences derived from may-sources.
@@ -986,8 +1003,8 @@ static __isl_give isl_map *drop_equal_sources(__isl_take isl_map *map)
  * If any of the must-sources are coscheduled, then the last one
  * is the one that will have a corresponding dependence relation.
  * For each must-source i, consider both all the previous must-sources
- * and all the may-sources.  If any of those may be coscheduled with
- * must-source i, then compute the coscheduled instances that access
+ * and all the may-sources that can precede the sink at the given level.
+ * If any of those may be coscheduled with must-source i, then compute the coscheduled instances that access
  * the same memory elements.  The result is a relation [T -> S] -> K.
  * The projection onto T -> K is a subset of the must-dependence relation
  * that needs to be turned into may-dependences.
@@ -1000,7 +1017,7 @@ static __isl_give isl_map *drop_equal_sources(__isl_take isl_map *map)
  */
 static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 	__isl_keep isl_map **must_rel, __isl_keep isl_map **may_rel,
-	__isl_take isl_flow *flow)
+	int level, __isl_take isl_flow *flow)
 {
 	int i, j;
 
@@ -1021,8 +1038,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			isl_bool coscheduled;
 			isl_map *map, *factor;
 
-			coscheduled = acc->coscheduled(acc->source[i].data,
-							acc->source[j].data);
+			coscheduled = coscheduled_at_level(acc, i, j, level);
 			if (coscheduled < 0) {
 				isl_map_free(rel);
 				isl_map_free(move);
@@ -1046,8 +1062,7 @@ static __isl_give isl_flow *handle_coscheduled(__isl_keep isl_access_info *acc,
 			isl_map *map, *factor;
 
 			pos = acc->n_must + j;
-			coscheduled = acc->coscheduled(acc->source[i].data,
-							acc->source[pos].data);
+			coscheduled = coscheduled_at_level(acc, i, pos, level);
 			if (coscheduled < 0) {
 				isl_map_free(rel);
 				isl_map_free(move);
@@ -1263,7 +1278,7 @@ static __isl_give isl_flow *compute_val_based_dependences(
 				goto error;
 		}
 
-		res = handle_coscheduled(acc, must_rel, may_rel, res);
+		res = handle_coscheduled(acc, must_rel, may_rel, level, res);
 		if (!res)
 			goto error;
 
@@ -3087,14 +3102,25 @@ static int before_node(void *first, void *second)
 /* Check if the given two accesses may be coscheduled.
  * If so, return isl_bool_true.  Otherwise return isl_bool_false.
  *
- * Two accesses may only be coscheduled if they appear in the same leaf.
+ * Two accesses may only be coscheduled if they appear in the same leaf or
+ * if they appear in different children of a set node.
  */
 static isl_bool coscheduled_node(void *first, void *second)
 {
 	isl_schedule_node *node1 = first;
 	isl_schedule_node *node2 = second;
+	isl_schedule_node *shared;
+	enum isl_schedule_node_type type;
+
+	if (node1 == node2)
+		return isl_bool_true;
 
-	return isl_bool_ok(node1 == node2);
+	shared = isl_schedule_node_get_shared_ancestor(node1, node2);
+	type = isl_schedule_node_get_type(shared);
+	isl_schedule_node_free(shared);
+	if (type == isl_schedule_node_error)
+		return isl_bool_error;
+	return isl_bool_ok(type == isl_schedule_node_set);
 }
 
 /* Add the scheduled sources from "data" that access
-- 
2.43.0


From d7944afff03226a677861adaa7fe5e5a546da8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 25/77] fix: do not treat block nodes as if nodes when
 inserting guards

If disjunctions are not allowed in if conditions, then a graft with
a disjunctive guard is turned into a block of if nodes.  Such a block
node was recorded as an if node and subsequent grafts were attached
to its (non-existent) then or else branch, removing them from the AST.
---
 isl_ast_graft.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_ast_graft.c b/isl_ast_graft.c
index b5c9f54..13368b0 100644
--- a/isl_ast_graft.c
+++ b/isl_ast_graft.c
@@ -563,6 +563,10 @@ static int clear_if_nodes(struct isl_if_node *if_node, int first, int n)
  * enforced at that then or else branch.
  * Otherwise, the current graft is appended to the list.
  *
+ * If the user does not want any disjunctions in the if conditions,
+ * then a graft with a disjunctive guard is turned into a block node
+ * containing several if nodes.  Such a block node cannot be extended.
+ *
  * We only construct else branches if allowed by the user.
  */
 static __isl_give isl_ast_graft_list *insert_pending_guard_nodes(
@@ -645,7 +649,8 @@ static __isl_give isl_ast_graft_list *insert_pending_guard_nodes(
 		if (!graft->guard)
 			graft = isl_ast_graft_free(graft);
 		graft = insert_pending_guard_node(graft, build);
-		if (graft && graft->node != node && i != n - 1) {
+		if (graft && graft->node != node && i != n - 1 &&
+		    isl_ast_node_get_type(graft->node) == isl_ast_node_if) {
 			isl_set *set;
 			if_node[n_if].node = graft->node;
 			if_node[n_if].guard = guard;
-- 
2.43.0


From 58b468f12350caf535e1e683a42561b65a095977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 26/77] fix: drop domain elements outside the build domain
 during AST generation

generate_domain only checked for emptiness with respect to
the simple hull of the build domain, causing the construction
of the call expression to fail for elements that are only
in this hull.
---
 isl_ast_codegen.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/isl_ast_codegen.c b/isl_ast_codegen.c
index b3c2541..b2311d5 100644
--- a/isl_ast_codegen.c
+++ b/isl_ast_codegen.c
@@ -194,6 +194,9 @@ static isl_stat add_domain(__isl_take isl_map *executed,
  * We perform this approximation to avoid further splitting up
  * the executed relation, possibly introducing a disjunctive guard
  * on the statement.
+ * Nothing is executed if "executed" is disjoint from
+ * data->build->domain itself.  Since this may not be apparent
+ * from the approximation, this case is checked up front.
  *
  * On the other hand, we only perform the test after having taken the gist
  * of the domain as the resulting map is the one from which the call
@@ -218,14 +221,16 @@ static isl_stat add_domain(__isl_take isl_map *executed,
 static isl_stat generate_domain(__isl_take isl_map *executed, void *user)
 {
 	struct isl_generate_domain_data *data = user;
-	isl_set *domain;
+	isl_set *domain, *executed_domain;
 	isl_map *map = NULL;
 	int empty, sv;
 
 	domain = isl_ast_build_get_domain(data->build);
+	executed_domain = isl_map_domain(isl_map_copy(executed));
+	empty = isl_set_is_disjoint(executed_domain, domain);
+	isl_set_free(executed_domain);
 	domain = isl_set_from_basic_set(isl_set_simple_hull(domain));
 	executed = isl_map_intersect_domain(executed, domain);
-	empty = isl_map_is_empty(executed);
 	if (empty < 0)
 		goto error;
 	if (empty) {
-- 
2.43.0


From 37450f522d7a8279e20f91900117251fe4453220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:41 +0000
Subject: [PATCH 27/77] fix: accept mark nodes without a child when reading
 schedule trees

A mark node whose only child is a leaf is printed without a "child" key,
so the printed text could not be read back.
---
 isl_schedule_read.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/isl_schedule_read.c b/isl_schedule_read.c
index 81570b3..bf7d395 100644
--- a/isl_schedule_read.c
+++ b/isl_schedule_read.c
@@ -424,8 +424,7 @@ static __isl_give isl_schedule_tree *read_mark(isl_stream *s)
 	if (more < 0)
 		goto error;
 	if (!more) {
-		isl_die(ctx, isl_error_invalid, "expecting child",
-			goto error);
+		tree = isl_schedule_tree_leaf(ctx);
 	} else {
 		key = get_key(s);
 		if (key != isl_schedule_key_child)
@@ -434,8 +433,8 @@ static __isl_give isl_schedule_tree *read_mark(isl_stream *s)
 		if (isl_stream_yaml_next(s) < 0)
 			goto error;
 		tree = isl_stream_read_schedule_tree(s);
-		tree = isl_schedule_tree_insert_mark(tree, mark);
 	}
+	tree = isl_schedule_tree_insert_mark(tree, mark);
 
 	return tree;
 error:
-- 
2.43.0


From c1a82bf46984ec1e87a312e4558d4232d16821b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:23 +0000
Subject: [PATCH 28/77] fix: check the position in isl_schedule_node_child of a
 node with an implicit leaf

The position was only checked when the child is represented explicitly,
so a node could be moved to a position that does not exist.
---
 isl_schedule_node.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/isl_schedule_node.c b/isl_schedule_node.c
index 9d140e5..3625c26 100644
--- a/isl_schedule_node.c
+++ b/isl_schedule_node.c
@@ -1182,6 +1182,13 @@ __isl_give isl_schedule_node *isl_schedule_node_child(
 		isl_die(isl_schedule_node_get_ctx(node), isl_error_invalid,
 			"node has no children",
 			return isl_schedule_node_free(node));
+	n = isl_schedule_node_n_children(node);
+	if (n < 0)
+		return isl_schedule_node_free(node);
+	if (pos < 0 || pos >= n)
+		isl_die(isl_schedule_node_get_ctx(node), isl_error_invalid,
+			"position out of bounds",
+			return isl_schedule_node_free(node));
 
 	ctx = isl_schedule_node_get_ctx(node);
 	n = isl_schedule_tree_list_n_schedule_tree(node->ancestors);
-- 
2.43.0


From 8d5908e4be8377263878cec08fd055800213faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:27 +0000
Subject: [PATCH 29/77] fix: update the anchored field when schedule tree
 children change

isl_schedule_tree_reset_children, isl_schedule_tree_drop_child and
isl_schedule_tree_set_children changed the children without calling
isl_schedule_tree_update_anchored.  A tree from which the anchored part
had been cut was therefore still considered to be anchored, such that,
e.g., no band node could be inserted anymore.
---
 isl_schedule_tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index 8dfe1d7..7f677c7 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -764,7 +764,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_reset_children(
 	if (!tree)
 		return NULL;
 	tree->children = isl_schedule_tree_list_free(tree->children);
-	return tree;
+	return isl_schedule_tree_update_anchored(tree);
 }
 
 /* Remove the child at position "pos" from the children of "tree".
@@ -795,7 +795,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_drop_child(
 	if (!tree->children)
 		return isl_schedule_tree_free(tree);
 
-	return tree;
+	return isl_schedule_tree_update_anchored(tree);
 }
 
 /* Replace the child at position "pos" of "tree" by "child".
@@ -860,7 +860,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_set_children(
 		goto error;
 	isl_schedule_tree_list_free(tree->children);
 	tree->children = children;
-	return tree;
+	return isl_schedule_tree_update_anchored(tree);
 error:
 	isl_schedule_tree_free(tree);
 	isl_schedule_tree_list_free(children);
-- 
2.43.0


From 116a3ea28c86c59f9f317788096c919861c324fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:37 +0000
Subject: [PATCH 30/77] fix: isl_stream_free: free all pushed back tokens

---
 isl_stream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_stream.c b/isl_stream.c
index 1934928..5374580 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -805,6 +805,7 @@ void isl_stream_free(__isl_take isl_stream *s)
 		struct isl_token *tok = isl_stream_next_token(s);
 		isl_stream_error(s, tok, "unexpected token");
 		isl_token_free(tok);
+		isl_stream_flush_tokens(s);
 	}
 	if (s->keywords) {
 		isl_hash_table_foreach(s->ctx, s->keywords, &free_keyword, NULL);
-- 
2.43.0


From 7c01d84880d91a73f5fc6aed319ebeef102fffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:37 +0000
Subject: [PATCH 31/77] fix: isl_set_insert_domain: do not add dimensions after
 a failure

---
 isl_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 20de663..ef96471 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -12867,8 +12867,10 @@ __isl_give isl_map *isl_set_insert_domain(__isl_take isl_set *set,
 	if (isl_set_check_is_set(set) < 0 || isl_space_check_is_set(domain) < 0)
 		domain = isl_space_free(domain);
 	dim = isl_space_dim(domain, isl_dim_set);
-	if (dim < 0)
+	if (dim < 0) {
 		domain = isl_space_free(domain);
+		set = isl_set_free(set);
+	}
 	space = isl_set_get_space(set);
 	domain = isl_space_replace_params(domain, space);
 	space = isl_space_map_from_domain_and_range(domain, space);
-- 
2.43.0


From beb0f20ecf877bc0461e45c12fec42d4f6f6a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:02 +0000
Subject: [PATCH 32/77] fix: isl_union_pw_multi_aff_scale_multi_val: free the
 multi value

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 1f4209f..e7ee22e 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -6928,7 +6928,7 @@ __isl_give isl_union_pw_multi_aff *isl_union_pw_multi_aff_scale_multi_val(
 	if (!upma || !mv)
 		goto error;
 
-	return isl_union_pw_multi_aff_transform(upma, &control);
+	upma = isl_union_pw_multi_aff_transform(upma, &control);
 
 	isl_multi_val_free(mv);
 	return upma;
-- 
2.43.0


From 17b2b222abea9ab580f112b0c6cf5505006f9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:02 +0000
Subject: [PATCH 33/77] fix: check the position in isl_point_add_ui and
 isl_point_sub_ui

---
 isl_point.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_point.c b/isl_point.c
index f315b3d..354ebaf 100644
--- a/isl_point.c
+++ b/isl_point.c
@@ -506,6 +506,8 @@ __isl_give isl_point *isl_point_add_ui(__isl_take isl_point *pnt,
 
 	if (!pnt || isl_point_is_void(pnt))
 		return pnt;
+	if (isl_point_check_range(pnt, type, pos, 1) < 0)
+		return isl_point_free(pnt);
 
 	pnt = isl_point_cow(pnt);
 	if (!pnt)
@@ -534,6 +536,8 @@ __isl_give isl_point *isl_point_sub_ui(__isl_take isl_point *pnt,
 
 	if (!pnt || isl_point_is_void(pnt))
 		return pnt;
+	if (isl_point_check_range(pnt, type, pos, 1) < 0)
+		return isl_point_free(pnt);
 
 	pnt = isl_point_cow(pnt);
 	if (!pnt)
-- 
2.43.0


From a3c5693147c4f8d15ed2e8b69f478649dab42726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:02 +0000
Subject: [PATCH 34/77] fix: check the columns in isl_mat_col_add

---
 isl_mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_mat.c b/isl_mat.c
index 37468ee..81eadb0 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1658,7 +1658,7 @@ void isl_mat_col_add(__isl_keep isl_mat *mat, int dst_col, int src_col)
 {
 	int i;
 
-	if (!mat)
+	if (check_col(mat, dst_col) < 0 || check_col(mat, src_col) < 0)
 		return;
 
 	for (i = 0; i < mat->n_row; ++i)
-- 
2.43.0


From 645382e69464209726d65c0090618288bdf3ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:12 +0000
Subject: [PATCH 35/77] fix: isl_set_lift: handle empty set without disjuncts

---
 isl_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index ef96471..f586c79 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -11373,7 +11373,7 @@ __isl_give isl_set *isl_set_lift(__isl_take isl_set *set)
 	if (!set)
 		return NULL;
 
-	n_div = set->p[0]->n_div;
+	n_div = set->n == 0 ? 0 : set->p[0]->n_div;
 	space = isl_set_get_space(set);
 	space = isl_space_lift(space, n_div);
 	if (!space)
-- 
2.43.0


From 9397398ee3a0d99804d218fa53b85fdb8d174e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:12 +0000
Subject: [PATCH 36/77] fix: isl_map_fixed_power_val: do not modify shared
 exponent

---
 isl_power_templ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_power_templ.c b/isl_power_templ.c
index 65253bd..a723cf7 100644
--- a/isl_power_templ.c
+++ b/isl_power_templ.c
@@ -71,6 +71,9 @@ __isl_give TYPE *FN(TYPE,fixed_power_val)(__isl_take TYPE *map,
 	if (!isl_val_is_int(exp))
 		isl_die(FN(TYPE,get_ctx)(map), isl_error_invalid,
 			"expecting integer exponent", goto error);
+	exp = isl_val_cow(exp);
+	if (!exp)
+		goto error;
 	map = FN(TYPE,fixed_power)(map, exp->n);
 	isl_val_free(exp);
 	return map;
-- 
2.43.0


From f00ba030822be959a0cf45c09a0df4bb13abae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:12 +0000
Subject: [PATCH 37/77] fix: isl_ast_expr_add_term: free coefficient on error
 path

---
 isl_ast_build_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_ast_build_expr.c b/isl_ast_build_expr.c
index aaf8985..c1d1ffe 100644
--- a/isl_ast_build_expr.c
+++ b/isl_ast_build_expr.c
@@ -436,8 +436,10 @@ static __isl_give isl_ast_expr *isl_ast_expr_add_term(
 {
 	isl_ast_expr *term;
 
-	if (!expr)
+	if (!expr) {
+		isl_val_free(v);
 		return NULL;
+	}
 
 	data->v = v;
 	term = var(data, type, pos);
-- 
2.43.0


From 7e5975e0418263b9116d51c8f51d29abe55fb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:12 +0000
Subject: [PATCH 38/77] fix: isl_basic_map_{domain,range}_product: stop if the
 spaces do not match

---
 isl_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index f586c79..5ae9fd9 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -10782,6 +10782,8 @@ __isl_give isl_basic_map *isl_basic_map_domain_product(
 	space1 = isl_basic_map_get_space(bmap1);
 	space2 = isl_basic_map_get_space(bmap2);
 	space_result = isl_space_domain_product(space1, space2);
+	if (!space_result)
+		goto error;
 
 	total = nparam + in1 + in2 + out + bmap1->n_div + bmap2->n_div;
 	dim_map1 = isl_dim_map_alloc(bmap1->ctx, total);
@@ -10834,6 +10836,8 @@ __isl_give isl_basic_map *isl_basic_map_range_product(
 
 	space_result = isl_space_range_product(isl_space_copy(bmap1->dim),
 					   isl_space_copy(bmap2->dim));
+	if (!space_result)
+		goto error;
 
 	total = nparam + in + out1 + out2 + bmap1->n_div + bmap2->n_div;
 	dim_map1 = isl_dim_map_alloc(bmap1->ctx, total);
-- 
2.43.0


From 5f52f451381eba410ccdb043ddf4cf0291a74ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:29 +0000
Subject: [PATCH 39/77] fix: isl_map_lex_*_first: check number of dimensions

---
 isl_map.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index 5ae9fd9..cb35124 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -5311,6 +5311,11 @@ static __isl_give isl_map *map_lex_lte_first(__isl_take isl_space *space,
 	struct isl_map *map;
 	int i;
 
+	if (isl_space_check_range(space, isl_dim_in, 0, n) < 0 ||
+	    isl_space_check_range(space, isl_dim_out, 0, n) < 0) {
+		isl_space_free(space);
+		return NULL;
+	}
 	if (n == 0 && equal)
 		return isl_map_universe(space);
 
@@ -5367,6 +5372,11 @@ static __isl_give isl_map *map_lex_gte_first(__isl_take isl_space *space,
 	struct isl_map *map;
 	int i;
 
+	if (isl_space_check_range(space, isl_dim_in, 0, n) < 0 ||
+	    isl_space_check_range(space, isl_dim_out, 0, n) < 0) {
+		isl_space_free(space);
+		return NULL;
+	}
 	if (n == 0 && equal)
 		return isl_map_universe(space);
 
-- 
2.43.0


From b2a8ec8ad6bb9ea20a19b60ec260b4bbdccd5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:29 +0000
Subject: [PATCH 40/77] fix: isl_mat_right_inverse: check number of rows

---
 isl_mat.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/isl_mat.c b/isl_mat.c
index 81eadb0..d5d089e 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1135,6 +1135,13 @@ __isl_give isl_mat *isl_mat_right_inverse(__isl_take isl_mat *mat)
 	inv = isl_mat_cow(inv);
 	if (!inv)
 		goto error;
+	if (mat->n_row > mat->n_col)
+		isl_die(isl_mat_get_ctx(mat), isl_error_invalid,
+			"no right inverse", goto error);
+	if (mat->n_row == 0) {
+		isl_mat_free(mat);
+		return inv;
+	}
 
 	isl_int_init(a);
 	isl_int_init(b);
-- 
2.43.0


From bdf1f3b52be794ce72919e998d592368d0068e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:46 +0000
Subject: [PATCH 41/77] fix: isl_map_unshifted_simple_hull_from_map_list: check
 spaces

---
 isl_convex_hull.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index a15092e..14578a2 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -2949,6 +2949,7 @@ error:
 static __isl_give isl_basic_map *map_unshifted_simple_hull_from_basic_map_list(
 	__isl_take isl_map *map, __isl_take isl_basic_map_list *list)
 {
+	int i;
 	isl_size n;
 	isl_basic_map *model;
 	isl_basic_map *hull;
@@ -2958,6 +2959,20 @@ static __isl_give isl_basic_map *map_unshifted_simple_hull_from_basic_map_list(
 	n = isl_basic_map_list_n_basic_map(list);
 	if (!map || n < 0)
 		goto error;
+	for (i = 0; i < n; ++i) {
+		isl_bool equal;
+		isl_basic_map *bmap;
+
+		bmap = isl_basic_map_list_get_at(list, i);
+		equal = isl_space_is_equal(isl_map_peek_space(map),
+					isl_basic_map_peek_space(bmap));
+		isl_basic_map_free(bmap);
+		if (equal < 0)
+			goto error;
+		if (!equal)
+			isl_die(isl_map_get_ctx(map), isl_error_invalid,
+				"spaces don't match", goto error);
+	}
 
 	if (n == 0) {
 		isl_space *space;
-- 
2.43.0


From 0f9df889e521815ab44b82ea9426af470252e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:59 +0000
Subject: [PATCH 42/77] fix: check the destination position when moving
 dimensions

---
 isl_aff.c                   | 3 ++-
 isl_map.c                   | 6 ++++--
 isl_multi_move_dims_templ.c | 3 ++-
 isl_polynomial.c            | 3 ++-
 isl_space.c                 | 3 ++-
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index e7ee22e..87ff195 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -2731,7 +2731,8 @@ __isl_give isl_aff *isl_aff_move_dims(__isl_take isl_aff *aff,
 	if (src_type == isl_dim_in)
 		src_type = isl_dim_set;
 
-	if (isl_local_space_check_range(aff->ls, src_type, src_pos, n) < 0)
+	if (isl_local_space_check_range(aff->ls, src_type, src_pos, n) < 0 ||
+	    isl_local_space_check_range(aff->ls, dst_type, dst_pos, 0) < 0)
 		return isl_aff_free(aff);
 	if (dst_type == src_type)
 		isl_die(isl_aff_get_ctx(aff), isl_error_unsupported,
diff --git a/isl_map.c b/isl_map.c
index cb35124..eae1395 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4230,7 +4230,8 @@ __isl_give isl_basic_map *isl_basic_map_move_dims(
 		return bmap;
 	}
 
-	if (isl_basic_map_check_range(bmap, src_type, src_pos, n) < 0)
+	if (isl_basic_map_check_range(bmap, src_type, src_pos, n) < 0 ||
+	    isl_basic_map_check_range(bmap, dst_type, dst_pos, 0) < 0)
 		return isl_basic_map_free(bmap);
 
 	if (dst_type == src_type && dst_pos == src_pos)
@@ -4342,7 +4343,8 @@ __isl_give isl_map *isl_map_move_dims(__isl_take isl_map *map,
 		return map;
 	}
 
-	if (isl_map_check_range(map, src_type, src_pos, n))
+	if (isl_map_check_range(map, src_type, src_pos, n) < 0 ||
+	    isl_map_check_range(map, dst_type, dst_pos, 0) < 0)
 		return isl_map_free(map);
 
 	if (dst_type == src_type && dst_pos == src_pos)
diff --git a/isl_multi_move_dims_templ.c b/isl_multi_move_dims_templ.c
index ba9830e..b6a1cc3 100644
--- a/isl_multi_move_dims_templ.c
+++ b/isl_multi_move_dims_templ.c
@@ -41,7 +41,8 @@ __isl_give MULTI(BASE) *FN(MULTI(BASE),move_dims)(__isl_take MULTI(BASE) *multi,
 		isl_die(FN(MULTI(BASE),get_ctx)(multi), isl_error_invalid,
 			"cannot move divs",
 			return FN(MULTI(BASE),free)(multi));
-	if (FN(MULTI(BASE),check_range)(multi, src_type, src_pos, n) < 0)
+	if (FN(MULTI(BASE),check_range)(multi, src_type, src_pos, n) < 0 ||
+	    FN(MULTI(BASE),check_range)(multi, dst_type, dst_pos, 0) < 0)
 		return FN(MULTI(BASE),free)(multi);
 	if (dst_type == src_type)
 		isl_die(FN(MULTI(BASE),get_ctx)(multi), isl_error_unsupported,
diff --git a/isl_polynomial.c b/isl_polynomial.c
index 45c598f..78a6b34 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -3429,7 +3429,8 @@ __isl_give isl_qpolynomial *isl_qpolynomial_move_dims(
 		isl_die(qp->dim->ctx, isl_error_invalid,
 			"cannot move output/set dimension",
 			goto error);
-	if (isl_qpolynomial_check_range(qp, src_type, src_pos, n) < 0)
+	if (isl_qpolynomial_check_range(qp, src_type, src_pos, n) < 0 ||
+	    isl_qpolynomial_check_range(qp, dst_type, dst_pos, 0) < 0)
 		return isl_qpolynomial_free(qp);
 	if (dst_type == isl_dim_in)
 		dst_type = isl_dim_set;
diff --git a/isl_space.c b/isl_space.c
index 16c7d64..976db24 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -1399,7 +1399,8 @@ __isl_give isl_space *isl_space_move_dims(__isl_take isl_space *space,
 	if (n == 0)
 		return space;
 
-	if (isl_space_check_range(space, src_type, src_pos, n) < 0)
+	if (isl_space_check_range(space, src_type, src_pos, n) < 0 ||
+	    isl_space_check_range(space, dst_type, dst_pos, 0) < 0)
 		return isl_space_free(space);
 
 	if (dst_type == src_type && dst_pos == src_pos)
-- 
2.43.0


From db2c7e2e7ae3e5a7ee28945df4a74294a4e072b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:30 +0000
Subject: [PATCH 43/77] fix: isl_aff_set_coefficient_val: free the value on
 error path

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 87ff195..91984d7 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -1199,7 +1199,7 @@ __isl_give isl_aff *isl_aff_set_coefficient_val(__isl_take isl_aff *aff,
 		type = isl_dim_set;
 
 	if (isl_local_space_check_range(aff->ls, type, pos, 1) < 0)
-		return isl_aff_free(aff);
+		goto error;
 
 	if (isl_aff_is_nan(aff)) {
 		isl_val_free(v);
-- 
2.43.0


From 0bf4eec6d574f05a1261b5d05f1bff242b2b8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:02 +0000
Subject: [PATCH 44/77] fix: isl_map_{sum,product}: do not drop disjuncts on
 failing emptiness check

---
 isl_map.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index eae1395..a52392f 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4912,10 +4912,15 @@ __isl_give isl_map *isl_map_sum(__isl_take isl_map *map1,
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
 			struct isl_basic_map *part;
+			isl_bool empty;
+
 			part = isl_basic_map_sum(
 				    isl_basic_map_copy(map1->p[i]),
 				    isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				result = isl_map_free(result);
+			if (empty)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
@@ -10930,9 +10935,14 @@ static __isl_give isl_map *map_product(__isl_take isl_map *map1,
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
 			struct isl_basic_map *part;
+			isl_bool empty;
+
 			part = basic_map_product(isl_basic_map_copy(map1->p[i]),
 						 isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				result = isl_map_free(result);
+			if (empty)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
-- 
2.43.0


From c056962d4b95afc9b3bb18e8e6e7860b13a0a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:53 +0000
Subject: [PATCH 45/77] fix: isl_pw_*_coalesce: do not break other references
 on failure

---
 isl_pw_templ.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 4dd403f..5b013e8 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -1323,6 +1323,11 @@ __isl_give PW *FN(PW,gist_params)(__isl_take PW *pw,
  * pieces with the same function value expression are combined
  * into a single piece, the combined domain of which can then
  * be coalesced.
+ *
+ * The coalescing is performed in place because it does not
+ * change the meaning of "pw", but care needs to be
+ * taken not to change any possible other copies of "pw"
+ * in case anything goes wrong.
  */
 __isl_give PW *FN(PW,coalesce)(__isl_take PW *pw)
 {
@@ -1335,15 +1340,16 @@ __isl_give PW *FN(PW,coalesce)(__isl_take PW *pw)
 		return FN(PW,free)(pw);
 
 	for (i = 0; i < n; ++i) {
-		pw->p[i].set = isl_set_coalesce(pw->p[i].set);
-		if (!pw->p[i].set)
-			goto error;
+		isl_set *set;
+
+		set = isl_set_coalesce(FN(PW,get_domain_at)(pw, i));
+		if (!set)
+			return FN(PW,free)(pw);
+		isl_set_free(pw->p[i].set);
+		pw->p[i].set = set;
 	}
 
 	return pw;
-error:
-	FN(PW,free)(pw);
-	return NULL;
 }
 
 isl_ctx *FN(PW,get_ctx)(__isl_keep PW *pw)
-- 
2.43.0


From 70d4e9338d24a11669092184a3a9acc0b044805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:03 +0000
Subject: [PATCH 46/77] fix: isl_set_foreach_orthant: check for allocation
 failure

---
 isl_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index a52392f..6d99de8 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -9085,6 +9085,8 @@ isl_stat isl_set_foreach_orthant(__isl_keep isl_set *set,
 		return isl_stat_error;
 
 	signs = isl_alloc_array(set->ctx, int, nparam + nvar);
+	if (nparam + nvar > 0 && !signs)
+		return isl_stat_error;
 
 	r = foreach_orthant(isl_set_copy(set), signs, 0, nparam + nvar,
 			    fn, user);
-- 
2.43.0


From ad3f04dad9b792934dfc9e100c811f8de871162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 47/77] fix: isl_basic_map_sum: free dim maps on error path

---
 isl_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 6d99de8..e6dc239 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4843,7 +4843,7 @@ __isl_give isl_basic_map *isl_basic_map_sum(__isl_take isl_basic_map *bmap1,
 	isl_size n_in, n_out, nparam;
 	unsigned total, pos;
 	struct isl_basic_map *bmap = NULL;
-	struct isl_dim_map *dim_map1, *dim_map2;
+	struct isl_dim_map *dim_map1 = NULL, *dim_map2 = NULL;
 	int i;
 
 	if (isl_basic_map_check_equal_space(bmap1, bmap2) < 0)
@@ -4887,6 +4887,8 @@ __isl_give isl_basic_map *isl_basic_map_sum(__isl_take isl_basic_map *bmap1,
 	bmap = isl_basic_map_simplify(bmap);
 	return isl_basic_map_finalize(bmap);
 error:
+	isl_dim_map_free(dim_map1);
+	isl_dim_map_free(dim_map2);
 	isl_basic_map_free(bmap);
 	isl_basic_map_free(bmap1);
 	isl_basic_map_free(bmap2);
-- 
2.43.0


From 297b9d1657ad3521ce7286aa75096b1f71d39560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:15 +0000
Subject: [PATCH 48/77] fix: isl_tab_pip.c: find_in_pos: discard saved context
 on error path

---
 isl_tab_pip.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index 5a3148b..9a0906f 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -3932,8 +3932,10 @@ static void find_in_pos(struct isl_sol *sol, struct isl_tab *tab, isl_int *ineq)
 	saved = sol->context->op->save(sol->context);
 
 	tab = isl_tab_dup(tab);
-	if (!tab)
+	if (!tab) {
+		sol->context->op->discard(saved);
 		goto error;
+	}
 
 	sol->context->op->add_ineq(sol->context, ineq, 0, 1);
 
-- 
2.43.0


From b3eeff6b368fcaf517e4a1d7d2e985ef003a7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:14 +0000
Subject: [PATCH 49/77] fix: isl_map_plain_unshifted_simple_hull: check for
 failure dropping constraints

---
 isl_convex_hull.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index 14578a2..b3f952e 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -2659,6 +2659,8 @@ __isl_give isl_basic_map *isl_map_plain_unshifted_simple_hull(
 	if (map->n <= 1)
 		return map_simple_hull_trivial(map);
 	map = isl_map_drop_constraints_involving_unknown_divs(map);
+	if (!map)
+		return NULL;
 	hull = isl_basic_map_copy(map->p[0]);
 	for (i = 1; i < map->n; ++i) {
 		isl_basic_map *bmap_i;
-- 
2.43.0


From b3d74cbefcd82626e5bba78ef16a73e5fc3255ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:14 +0000
Subject: [PATCH 50/77] fix: isl_aff_domain_offset: return error on NULL input

---
 isl_aff.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_aff.c b/isl_aff.c
index 91984d7..68c1909 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -466,6 +466,8 @@ isl_size isl_aff_domain_offset(__isl_keep isl_aff *aff, enum isl_dim_type type)
 	isl_local_space *ls;
 
 	ls = isl_aff_peek_domain_local_space(aff);
+	if (!ls)
+		return isl_size_error;
 	return isl_local_space_offset(ls, type);
 }
 
-- 
2.43.0


From 1d54dac0e7925a662569d48c337083a513ec7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 51/77] fix: isl_fixed_box_invalidate: check for failure
 setting extent

---
 isl_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_box.c b/isl_box.c
index 34a49ea..284889e 100644
--- a/isl_box.c
+++ b/isl_box.c
@@ -151,7 +151,7 @@ static __isl_give isl_fixed_box *isl_fixed_box_invalidate(
 	isl_aff_free(nan);
 	isl_val_free(infty);
 
-	if (!box->offset || !box->size)
+	if (!box || !box->offset || !box->size)
 		return isl_fixed_box_free(box);
 	return box;
 }
-- 
2.43.0


From 873fd9b30d336d15a7cec5d8592e3bf9ef9eb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 52/77] fix: isl_union_*_add_part_generic: check for failure
 aligning parameters

---
 isl_union_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_union_templ.c b/isl_union_templ.c
index 784e8c3..6c1edab 100644
--- a/isl_union_templ.c
+++ b/isl_union_templ.c
@@ -184,7 +184,7 @@ static __isl_give UNION *FN(UNION,add_part_generic)(__isl_take UNION *u,
 
 	u = FN(UNION,cow)(u);
 
-	if (!u)
+	if (!u || !part)
 		goto error;
 
 	if (FN(UNION,check_disjoint_domain_other)(u, part) < 0)
-- 
2.43.0


From e612d082d131fda34569a8aa50219eaef9dbc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 53/77] fix: isl_basic_map_gist: check that the spaces match

---
 isl_map_simplify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 6e857af..48cd5ec 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -3266,7 +3266,7 @@ __isl_give isl_basic_map *isl_basic_map_gist(__isl_take isl_basic_map *bmap,
 	isl_size total, n_div, n_div_bmap;
 	unsigned extra, n_eq, n_ineq;
 
-	if (!bmap || !context)
+	if (isl_basic_map_check_equal_space(bmap, context) < 0)
 		goto error;
 
 	if (isl_basic_map_plain_is_universe(bmap)) {
-- 
2.43.0


From 439f095be5eaaaa27f878438450f256d4950db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 54/77] fix: isl_val_gt_si: do not turn an error into true

---
 isl_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_val.c b/isl_val.c
index c95d462..4b41f54 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -1339,7 +1339,7 @@ isl_bool isl_val_gt_si(__isl_keep isl_val *v, long i)
 		return isl_bool_false;
 
 	vi = isl_val_int_from_si(isl_val_get_ctx(v), i);
-	res = isl_bool_ok(isl_val_gt(v, vi));
+	res = isl_val_gt(v, vi);
 	isl_val_free(vi);
 
 	return res;
-- 
2.43.0


From 40ec2e1bfb6e89bc32620f0d0b4e7689c5f4ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:53 +0000
Subject: [PATCH 55/77] fix: isl_tab_basic_map_partial_lexopt: check for
 failure in emptiness check of context

---
 isl_tab_pip.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index 9a0906f..1388268 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -4427,6 +4427,7 @@ static struct isl_sol *basic_map_partial_lexopt_base_sol(
 	struct isl_tab *tab;
 	struct isl_sol *sol = NULL;
 	struct isl_context *context;
+	isl_bool is_empty;
 
 	if (dom->n_div) {
 		dom = isl_basic_set_sort_divs(dom);
@@ -4437,7 +4438,11 @@ static struct isl_sol *basic_map_partial_lexopt_base_sol(
 		goto error;
 
 	context = sol->context;
-	if (isl_basic_set_plain_is_empty(context->op->peek_basic_set(context)))
+	is_empty = isl_basic_set_plain_is_empty(
+					context->op->peek_basic_set(context));
+	if (is_empty < 0)
+		goto error;
+	if (is_empty)
 		/* nothing */;
 	else if (isl_basic_map_plain_is_empty(bmap)) {
 		if (sol->add_empty)
-- 
2.43.0


From 114fbc8fa6dc38a189a404c96f0ee6b6121d847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:34 +0000
Subject: [PATCH 56/77] fix: isl_tab_pip.c: do not treat failing emptiness
 checks of context as empty

---
 isl_tab_pip.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index 1388268..194a62d 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -676,13 +676,17 @@ static void sol_add(struct isl_sol *sol, struct isl_tab *tab)
 	unsigned off;
 	int row;
 	isl_int m;
+	int empty;
 
 	if (sol->error || !tab)
 		goto error;
 
 	if (tab->empty && !sol->add_empty)
 		return;
-	if (sol->context->op->is_empty(sol->context))
+	empty = sol->context->op->is_empty(sol->context);
+	if (empty < 0)
+		goto error;
+	if (empty)
 		return;
 
 	bset = sol_domain(sol);
@@ -4255,6 +4259,7 @@ static void find_solutions_main(struct isl_sol *sol, struct isl_tab *tab)
 
 	for (row = tab->n_redundant; row < tab->n_row; ++row) {
 		int p;
+		int empty;
 		struct isl_vec *eq;
 
 		if (!row_is_parameter_var(tab, row))
@@ -4287,7 +4292,10 @@ static void find_solutions_main(struct isl_sol *sol, struct isl_tab *tab)
 		if (isl_tab_mark_redundant(tab, row) < 0)
 			goto error;
 
-		if (sol->context->op->is_empty(sol->context))
+		empty = sol->context->op->is_empty(sol->context);
+		if (empty < 0)
+			goto error;
+		if (empty)
 			break;
 
 		row = tab->n_redundant - 1;
-- 
2.43.0


From ae8c5afffcddeed814342d28f766d0e694caed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:47 +0000
Subject: [PATCH 57/77] fix: isl_basic_map_project_out: check range before
 looking at the constraints

---
 isl_map.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index e6dc239..f415071 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4533,6 +4533,9 @@ __isl_give isl_basic_map *isl_basic_map_project_out(
 			"cannot project out existentially quantified variables",
 			return isl_basic_map_free(bmap));
 
+	if (isl_basic_map_check_range(bmap, type, first, n) < 0)
+		return isl_basic_map_free(bmap);
+
 	empty = isl_basic_map_plain_is_empty(bmap);
 	if (empty < 0)
 		return isl_basic_map_free(bmap);
@@ -4546,9 +4549,6 @@ __isl_give isl_basic_map *isl_basic_map_project_out(
 	if (ISL_F_ISSET(bmap, ISL_BASIC_MAP_RATIONAL))
 		return isl_basic_map_remove_dims(bmap, type, first, n);
 
-	if (isl_basic_map_check_range(bmap, type, first, n) < 0)
-		return isl_basic_map_free(bmap);
-
 	bmap = move_last(bmap, type, first, n);
 	bmap = isl_basic_map_cow(bmap);
 	bmap = insert_div_rows(bmap, n);
-- 
2.43.0


From e4b11cf13804c62afd09e94234031420bacbe6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:06 +0000
Subject: [PATCH 58/77] fix: isl_basic_map_from_aff_list: free space on NULL
 list

---
 isl_aff_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_aff_map.c b/isl_aff_map.c
index 3f46d86..ced68c7 100644
--- a/isl_aff_map.c
+++ b/isl_aff_map.c
@@ -269,8 +269,10 @@ __isl_give isl_basic_map *isl_basic_map_from_aff_list(
 	isl_space *space;
 	isl_basic_map *bmap;
 
-	if (!list)
+	if (!list) {
+		isl_space_free(domain_space);
 		return NULL;
+	}
 
 	space = isl_space_from_domain(domain_space);
 	bmap = isl_basic_map_universe(space);
-- 
2.43.0


From 385d184d7a2a3db0b454430e6d4a593cbff75bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:00 +0000
Subject: [PATCH 59/77] fix: isl_poly_sum: check result of recursive call

---
 isl_polynomial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 78a6b34..b788371 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -869,6 +869,8 @@ __isl_give isl_poly *isl_poly_sum(__isl_take isl_poly *poly1,
 		if (!rec)
 			goto error;
 		rec->p[0] = isl_poly_sum(rec->p[0], poly2);
+		if (!rec->p[0])
+			return isl_poly_free(poly1);
 		if (rec->n == 1)
 			poly1 = replace_by_constant_term(poly1);
 		return poly1;
-- 
2.43.0


From 8dc5537c2dc955636f6771f779afb1565c35248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:55 +0000
Subject: [PATCH 60/77] fix: isl_arg.c: drop_argument: keep argument vector
 null terminated

---
 isl_arg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_arg.c b/isl_arg.c
index 8a9e26d..4452c82 100644
--- a/isl_arg.c
+++ b/isl_arg.c
@@ -1213,7 +1213,7 @@ static void print_version_and_exit(struct isl_arg *decl)
 
 static int drop_argument(int argc, char **argv, int drop, int n)
 {
-	for (; drop + n < argc; ++drop)
+	for (; drop + n <= argc; ++drop)
 		argv[drop] = argv[drop + n];
 
 	return argc - n;
-- 
2.43.0


From f8897447079e2d59a2a26640ca973adc2da8943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:26 +0000
Subject: [PATCH 61/77] fix: do not reuse a shared piecewise object as the
 result of adding pieces

isl_pw_*_add_disjoint modified an operand in place when it had room
for the extra pieces, even if other references to it were still held.
---
 isl_pw_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 5b013e8..ae88212 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -761,7 +761,7 @@ static __isl_give PW *FN(PW,grow)(__isl_take PW *pw, int n)
 
 	if (!pw)
 		return NULL;
-	if (pw->n + n <= pw->size)
+	if (pw->ref == 1 && pw->n + n <= pw->size)
 		return pw;
 	ctx = FN(PW,get_ctx)(pw);
 	n += pw->n;
-- 
2.43.0


From b878b7451598f1427c84b3b05f45867580d590cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:26 +0000
Subject: [PATCH 62/77] fix: isl_pw_*_split_dims: treat every piece

The loop over the pieces stopped after as many pieces as there are
dimensions to split and failed if there are fewer pieces than that.
---
 isl_pw_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index ae88212..30fddd7 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -1577,7 +1577,7 @@ __isl_give PW *FN(PW,split_dims)(__isl_take PW *pw,
 	if (type == isl_dim_in)
 		type = isl_dim_set;
 
-	for (i = 0; i < n; ++i) {
+	for (i = 0; i < n_piece; ++i) {
 		isl_set *domain;
 
 		domain = FN(PW,take_domain_at)(pw, i);
-- 
2.43.0


From b48b013da6f716bbe3ceb8f8211f96da95bdd78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:33 +0000
Subject: [PATCH 63/77] fix: isl_pw_*_fix_*: handle removal of pieces

A piece that becomes empty is removed while the pieces are being visited,
so the visit skipped the next piece and failed at the end.
---
 isl_pw_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_pw_templ.c b/isl_pw_templ.c
index 30fddd7..f63f023 100644
--- a/isl_pw_templ.c
+++ b/isl_pw_templ.c
@@ -1524,7 +1524,7 @@ __isl_give PW *FN(PW,fix_dim)(__isl_take PW *pw,
 	if (type == isl_dim_in)
 		type = isl_dim_set;
 
-	for (i = 0; i < n; ++i) {
+	for (i = n - 1; i >= 0; --i) {
 		isl_set *domain;
 
 		domain = FN(PW,take_domain_at)(pw, i);
-- 
2.43.0


From 2bb0351e33d635e77d629922f3ca093129af3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:33 +0000
Subject: [PATCH 64/77] fix: isl_pw_qpolynomial(_fold)_{max,min}: ignore empty
 pieces

The value of a piece without any points in its domain was taken
into account as if it were attained.
---
 isl_pw_opt_templ.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/isl_pw_opt_templ.c b/isl_pw_opt_templ.c
index 421b4d5..1853a05 100644
--- a/isl_pw_opt_templ.c
+++ b/isl_pw_opt_templ.c
@@ -16,31 +16,40 @@
 __isl_give isl_val *FN(PW,opt)(__isl_take PW *pw, int max)
 {
 	int i;
-	isl_val *opt;
+	isl_val *opt = NULL;
 
 	if (!pw)
 		return NULL;
 
-	if (pw->n == 0) {
-		opt = isl_val_zero(FN(PW,get_ctx)(pw));
-		FN(PW,free)(pw);
-		return opt;
-	}
-
-	opt = FN(EL,opt_on_domain)(FN(EL,copy)(pw->p[0].FIELD),
-					isl_set_copy(pw->p[0].set), max);
-	for (i = 1; i < pw->n; ++i) {
+	for (i = 0; i < pw->n; ++i) {
+		isl_bool empty;
 		isl_val *opt_i;
+
+		empty = isl_set_is_empty(pw->p[i].set);
+		if (empty < 0)
+			goto error;
+		if (empty)
+			continue;
 		opt_i = FN(EL,opt_on_domain)(FN(EL,copy)(pw->p[i].FIELD),
 						isl_set_copy(pw->p[i].set), max);
-		if (max)
+		if (!opt_i)
+			goto error;
+		if (!opt)
+			opt = opt_i;
+		else if (max)
 			opt = isl_val_max(opt, opt_i);
 		else
 			opt = isl_val_min(opt, opt_i);
 	}
+	if (!opt)
+		opt = isl_val_zero(FN(PW,get_ctx)(pw));
 
 	FN(PW,free)(pw);
 	return opt;
+error:
+	isl_val_free(opt);
+	FN(PW,free)(pw);
+	return NULL;
 }
 
 __isl_give isl_val *FN(PW,max)(__isl_take PW *pw)
-- 
2.43.0


From c4d2bcdca903122481fb4cbd7a23c6cd327484e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:28 +0000
Subject: [PATCH 65/77] fix: isl_qpolynomial_aff_sign: do not round fractional
 optima

An affine quasipolynomial with values strictly between 0 and 1 (or -1)
was considered to be of either sign since the optimum was rounded to 0.
A reduction could therefore lose the quasipolynomials that determine it
and the result of isl_pw_qpolynomial_bound was not a bound.
---
 isl_fold.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/isl_fold.c b/isl_fold.c
index 2d7f85c..d304762 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -468,6 +468,14 @@ static int isl_qpolynomial_cst_sign(__isl_keep isl_qpolynomial *qp)
 	return isl_int_sgn(cst->n) < 0 ? -1 : 1;
 }
 
+/* Determine, if possible, the sign of the affine quasipolynomial "qp" on
+ * the domain "set".
+ *
+ * The optima computed by isl_set_solve_lp are rounded to an integer.
+ * This only preserves the sign on the integer elements of "set"
+ * if the affine expression itself attains integer values,
+ * so ignore its (positive) denominator.
+ */
 static int isl_qpolynomial_aff_sign(__isl_keep isl_set *set,
 	__isl_keep isl_qpolynomial *qp)
 {
@@ -479,6 +487,7 @@ static int isl_qpolynomial_aff_sign(__isl_keep isl_set *set,
 	aff = isl_qpolynomial_extract_affine(qp);
 	if (!aff)
 		return 0;
+	isl_int_set_si(aff->el[0], 1);
 
 	isl_int_init(opt);
 
-- 
2.43.0


From 802482a751b0c91f02e5dd859c407cfa59c76782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:45 +0000
Subject: [PATCH 66/77] fix: isl_qpolynomial_fold_plain_is_equal: compare types
 of reductions

A minimum and a maximum of the same quasipolynomials are not the same.
---
 isl_fold.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/isl_fold.c b/isl_fold.c
index d304762..e68681b 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1368,6 +1368,11 @@ isl_bool isl_qpolynomial_fold_plain_is_equal(
 	isl_size n1, n2;
 	isl_qpolynomial_list *list1, *list2;
 
+	if (!fold1 || !fold2)
+		return isl_bool_error;
+	if (fold1->type != fold2->type)
+		return isl_bool_false;
+
 	list1 = isl_qpolynomial_fold_peek_list(fold1);
 	list2 = isl_qpolynomial_fold_peek_list(fold2);
 	n1 = isl_qpolynomial_list_size(list1);
-- 
2.43.0


From b118eed33a186f569bbb231e048570c6dcdce4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:03 +0000
Subject: [PATCH 67/77] fix: cut_to_hyperplane: do not use pointer into
 reallocated array

isl_tab_extend_cons may move the array of constraints that "var" points to.
---
 isl_tab.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_tab.c b/isl_tab.c
index 5f528f9..4364232 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -2689,6 +2689,7 @@ static isl_stat cut_to_hyperplane(struct isl_tab *tab, struct isl_tab_var *var)
 {
 	unsigned r;
 	isl_int *row;
+	int i;
 	int sgn;
 	unsigned off = 2 + tab->M;
 
@@ -2699,8 +2700,11 @@ static isl_stat cut_to_hyperplane(struct isl_tab *tab, struct isl_tab_var *var)
 			"expecting non-redundant non-negative variable",
 			return isl_stat_error);
 
+	/* "var" may get moved by isl_tab_extend_cons. */
+	i = var->is_row ? tab->row_var[var->index] : tab->col_var[var->index];
 	if (isl_tab_extend_cons(tab, 1) < 0)
 		return isl_stat_error;
+	var = var_from_index(tab, i);
 
 	r = tab->n_con;
 	tab->con[r].index = tab->n_row;
-- 
2.43.0


From 8a61dc22c53aa5dbad09971f707128d3373081b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:21 +0000
Subject: [PATCH 68/77] fix: isl_poly_rat_cst: normalize constant

Quasipolynomials could have constants such as 2/2, resulting
in isl_val objects that are not in normal form.
---
 isl_polynomial.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index b788371..4d9b105 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -375,6 +375,19 @@ __isl_give isl_poly *isl_poly_nan(isl_ctx *ctx)
 	return &cst->poly;
 }
 
+static void isl_poly_cst_reduce(__isl_keep isl_poly_cst *cst)
+{
+	isl_int gcd;
+
+	isl_int_init(gcd);
+	isl_int_gcd(gcd, cst->n, cst->d);
+	if (!isl_int_is_zero(gcd) && !isl_int_is_one(gcd)) {
+		isl_int_divexact(cst->n, cst->n, gcd);
+		isl_int_divexact(cst->d, cst->d, gcd);
+	}
+	isl_int_clear(gcd);
+}
+
 __isl_give isl_poly *isl_poly_rat_cst(isl_ctx *ctx, isl_int n, isl_int d)
 {
 	isl_poly_cst *cst;
@@ -385,6 +398,7 @@ __isl_give isl_poly *isl_poly_rat_cst(isl_ctx *ctx, isl_int n, isl_int d)
 
 	isl_int_set(cst->n, n);
 	isl_int_set(cst->d, d);
+	isl_poly_cst_reduce(cst);
 
 	return &cst->poly;
 }
@@ -732,19 +746,6 @@ __isl_null isl_poly *isl_poly_free(__isl_take isl_poly *poly)
 	return NULL;
 }
 
-static void isl_poly_cst_reduce(__isl_keep isl_poly_cst *cst)
-{
-	isl_int gcd;
-
-	isl_int_init(gcd);
-	isl_int_gcd(gcd, cst->n, cst->d);
-	if (!isl_int_is_zero(gcd) && !isl_int_is_one(gcd)) {
-		isl_int_divexact(cst->n, cst->n, gcd);
-		isl_int_divexact(cst->d, cst->d, gcd);
-	}
-	isl_int_clear(gcd);
-}
-
 __isl_give isl_poly *isl_poly_sum_cst(__isl_take isl_poly *poly1,
 	__isl_take isl_poly *poly2)
 {
-- 
2.43.0


From 709687c5c4a8e4d66cbcc6ed3e440cd906eb4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:21 +0000
Subject: [PATCH 69/77] fix: singleton_extract_point: handle non-unit
 coefficients

The single element may be described by constraints such as 2x = 2,
e.g., in the chambers of isl_pw_qpolynomial_bound.
---
 isl_map_subtract.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_map_subtract.c b/isl_map_subtract.c
index 68ce54f..d835441 100644
--- a/isl_map_subtract.c
+++ b/isl_map_subtract.c
@@ -768,8 +768,7 @@ static __isl_give isl_point *singleton_extract_point(
 		    isl_seq_first_non_zero(bmap->eq[j] + 1, i) == -1,
 		    goto error);
 		isl_assert(bmap->ctx,
-		    isl_int_is_one(bmap->eq[j][1 + i]) ||
-		    isl_int_is_negone(bmap->eq[j][1 + i]),
+		    !isl_int_is_zero(bmap->eq[j][1 + i]),
 		    goto error);
 		isl_assert(bmap->ctx,
 		    isl_seq_first_non_zero(bmap->eq[j]+1+i+1, dim-i-1) == -1,
@@ -785,6 +784,7 @@ static __isl_give isl_point *singleton_extract_point(
 	}
 
 	isl_int_clear(m);
+	point = isl_vec_normalize(point);
 	return isl_point_alloc(isl_basic_map_get_space(bmap), point);
 error:
 	isl_int_clear(m);
-- 
2.43.0


From d0bc771616f57dca9dcb20b540acdf255a6a6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:55 +0000
Subject: [PATCH 70/77] fix: isl_bernstein.c: avoid infinite recursion with
 --bernstein-recurse=intervals

The computation of a bound in terms of a single variable may lift
the integer divisions of the domain to extra variables.
Treating these one at a time again reintroduces the same integer
divisions and therefore never terminates.
---
 isl_bernstein.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/isl_bernstein.c b/isl_bernstein.c
index eddea83..10e4efb 100644
--- a/isl_bernstein.c
+++ b/isl_bernstein.c
@@ -499,6 +499,14 @@ error:
 	return NULL;
 }
 
+/* Apply bernstein expansion recursively on each set variable of "bset".
+ *
+ * The computation of a bound in terms of a single variable may introduce
+ * additional variables for the integer divisions in its domain.
+ * Do not work on those variables one at a time again, since this
+ * could result in the same integer divisions being reintroduced and
+ * therefore in an infinite recursion.
+ */
 static __isl_give isl_pw_qpolynomial_fold *bernstein_coefficients_full_recursive(
 	__isl_take isl_basic_set *bset,
 	__isl_take isl_qpolynomial *poly, struct bernstein_data *data,
@@ -506,7 +514,9 @@ static __isl_give isl_pw_qpolynomial_fold *bernstein_coefficients_full_recursive
 {
 	int i;
 	int *len;
+	int recurse;
 	isl_size nvar;
+	isl_ctx *ctx;
 	isl_pw_qpolynomial_fold *pwf;
 	isl_set *set;
 	isl_pw_qpolynomial *pwqp;
@@ -514,7 +524,8 @@ static __isl_give isl_pw_qpolynomial_fold *bernstein_coefficients_full_recursive
 	nvar = isl_basic_set_dim(bset, isl_dim_set);
 	if (nvar < 0 || !poly)
 		goto error;
-	
+
+	ctx = isl_basic_set_get_ctx(bset);
 	len = isl_alloc_array(bset->ctx, int, nvar);
 	if (nvar && !len)
 		goto error;
@@ -525,7 +536,10 @@ static __isl_give isl_pw_qpolynomial_fold *bernstein_coefficients_full_recursive
 	set = isl_set_from_basic_set(bset);
 	pwqp = isl_pw_qpolynomial_alloc(set, poly);
 
+	recurse = ctx->opt->bernstein_recurse;
+	ctx->opt->bernstein_recurse &= ~ISL_BERNSTEIN_INTERVALS;
 	pwf = bernstein_coefficients_recursive(pwqp, nvar, len, data, tight);
+	ctx->opt->bernstein_recurse = recurse;
 
 	free(len);
 
-- 
2.43.0


From 1f09b1a8dc261acf68175d38b635eaba95470ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:25 +0000
Subject: [PATCH 71/77] fix: isl_map_reaching_path_lengths: preserve the space
 of the range

The result is supposed to map each element in the range of the input
to path lengths, but the tuple identifier and any nesting of the range
got lost along the way (except if the input is obviously empty,
where they got replaced by those of the domain).
---
 isl_transitive_closure.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 2733cee..390ea83 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -2085,6 +2085,19 @@ __isl_give isl_map *isl_map_power(__isl_take isl_map *map, isl_bool *exact)
 	return map;
 }
 
+/* Reset the space of "map" to one that maps elements of the set space "dom"
+ * to a single (anonymous) path length.
+ */
+static __isl_give isl_map *reset_path_lengths_space(__isl_take isl_map *map,
+	__isl_take isl_space *dom)
+{
+	isl_space *space;
+
+	space = isl_space_from_domain(dom);
+	space = isl_space_add_dims(space, isl_dim_out, 1);
+	return isl_map_reset_space(map, space);
+}
+
 /* Compute a relation that maps each element in the range of the input
  * relation to the lengths of all paths composed of edges in the input
  * relation that end up in the given range element.
@@ -2097,7 +2110,7 @@ __isl_give isl_map *isl_map_power(__isl_take isl_map *map, isl_bool *exact)
 __isl_give isl_map *isl_map_reaching_path_lengths(__isl_take isl_map *map,
 	isl_bool *exact)
 {
-	isl_space *space;
+	isl_space *space, *dom;
 	isl_map *diff;
 	isl_size d;
 	isl_size param;
@@ -2107,6 +2120,7 @@ __isl_give isl_map *isl_map_reaching_path_lengths(__isl_take isl_map *map,
 	if (d < 0 || param < 0)
 		return isl_map_free(map);
 
+	dom = isl_space_range(isl_map_get_space(map));
 	map = isl_map_compute_divs(map);
 	map = isl_map_coalesce(map);
 
@@ -2115,7 +2129,7 @@ __isl_give isl_map *isl_map_reaching_path_lengths(__isl_take isl_map *map,
 			*exact = isl_bool_true;
 		map = isl_map_project_out(map, isl_dim_out, 0, d);
 		map = isl_map_add_dims(map, isl_dim_out, 1);
-		return map;
+		return reset_path_lengths_space(map, dom);
 	}
 
 	map = map_power(map, exact, 0);
@@ -2129,7 +2143,7 @@ __isl_give isl_map *isl_map_reaching_path_lengths(__isl_take isl_map *map,
 	map = isl_map_reverse(map);
 	map = isl_map_move_dims(map, isl_dim_out, 0, isl_dim_param, param, 1);
 
-	return map;
+	return reset_path_lengths_space(map, dom);
 }
 
 /* Given a map, compute the smallest superset of this map that is of the form
-- 
2.43.0


From bc0902f01329f13ab83c8df59c0ca1ae2fb87373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:57 +0000
Subject: [PATCH 72/77] fix: isl_union_map_transitive_closure: handle
 components without elements

A basic relation that is only found to be empty during the decomposition
into strongly connected components results in a component
without any basic relations, which was not handled.
---
 isl_transitive_closure.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 390ea83..49b5130 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -2718,6 +2718,8 @@ error:
  * The main difference is that it is applied unconditionally.
  * We first extract a list of basic maps from the union map
  * and then perform the algorithm on this list.
+ * If there are no basic maps in the list (because they have all been
+ * found to be empty), then the union map is its own transitive closure.
  */
 static __isl_give isl_union_map *union_floyd_warshall(
 	__isl_take isl_union_map *umap, isl_bool *exact)
@@ -2732,6 +2734,9 @@ static __isl_give isl_union_map *union_floyd_warshall(
 	if (isl_union_map_foreach_map(umap, inc_count, &n) < 0)
 		goto error;
 
+	if (n == 0)
+		return umap;
+
 	ctx = isl_union_map_get_ctx(umap);
 	list = isl_calloc_array(ctx, isl_basic_map *, n);
 	if (!list)
-- 
2.43.0


From 0e1042885afe869c15c38d8a55e3b63b3feb4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:28 +0000
Subject: [PATCH 73/77] fix: isl_union_map_power: handle a single map between
 different tuples

The special case for a union with a single map calls isl_map_power,
which requires the domain and the range to live in the same space.
Only apply it if this is the case.
---
 isl_transitive_closure.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 49b5130..e03baf5 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -2901,6 +2901,13 @@ struct isl_union_power {
 	isl_bool *exact;
 };
 
+/* Do the domain and range of "map" live in the same space?
+ */
+static isl_bool has_equal_tuples(__isl_keep isl_map *map, void *user)
+{
+	return isl_map_tuple_is_equal(map, isl_dim_in, map, isl_dim_out);
+}
+
 static isl_stat power(__isl_take isl_map *map, void *user)
 {
 	struct isl_union_power *up = user;
@@ -2932,16 +2939,18 @@ static __isl_give isl_union_map *deltas_map(__isl_take isl_space *space)
 __isl_give isl_union_map *isl_union_map_power(__isl_take isl_union_map *umap,
 	isl_bool *exact)
 {
+	isl_bool cyclic;
 	isl_size n;
 	isl_union_map *inc;
 	isl_union_map *dm;
 
 	n = isl_union_map_n_map(umap);
-	if (n < 0)
+	cyclic = isl_union_map_every_map(umap, &has_equal_tuples, NULL);
+	if (n < 0 || cyclic < 0)
 		return isl_union_map_free(umap);
 	if (n == 0)
 		return umap;
-	if (n == 1) {
+	if (n == 1 && cyclic) {
 		struct isl_union_power up = { NULL, exact };
 		isl_union_map_foreach_map(umap, &power, &up);
 		isl_union_map_free(umap);
-- 
2.43.0


From a4c42f9f13a29c0e7d603e7a43e1e1c3bd9104cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:51 +0000
Subject: [PATCH 74/77] fix: isl_{,union_}map_power: set *exact for an empty
 input

---
 isl_transitive_closure.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index e03baf5..9e42314 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -2058,6 +2058,8 @@ __isl_give isl_map *isl_map_power(__isl_take isl_map *map, isl_bool *exact)
 	map = isl_map_coalesce(map);
 
 	if (isl_map_plain_is_empty(map)) {
+		if (exact)
+			*exact = isl_bool_true;
 		map = isl_map_from_range(isl_map_wrap(map));
 		map = isl_map_add_dims(map, isl_dim_in, 1);
 		map = isl_map_set_dim_name(map, isl_dim_in, 0, "k");
@@ -2948,8 +2950,11 @@ __isl_give isl_union_map *isl_union_map_power(__isl_take isl_union_map *umap,
 	cyclic = isl_union_map_every_map(umap, &has_equal_tuples, NULL);
 	if (n < 0 || cyclic < 0)
 		return isl_union_map_free(umap);
-	if (n == 0)
+	if (n == 0) {
+		if (exact)
+			*exact = isl_bool_true;
 		return umap;
+	}
 	if (n == 1 && cyclic) {
 		struct isl_union_power up = { NULL, exact };
 		isl_union_map_foreach_map(umap, &power, &up);
-- 
2.43.0


From 302eeaf91469f8ddba58c59d931c45020180b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:09 +0000
Subject: [PATCH 75/77] fix: isl_transitive_closure.c: path_along_delta: use
 separate variables for divs

If the parameters get eliminated from delta, then the result may involve
existentially quantified variables that are unrelated to those of
the original delta.  They were nevertheless identified with each other
(or even with other variables if there are more of them),
resulting in a closure that misses elements and
that is still claimed to be exact.
---
 isl_transitive_closure.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 9e42314..a144a6c 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -452,7 +452,11 @@ static isl_bool empty_path_is_identity(__isl_keep isl_basic_map *path,
 	return is_id;
 }
 
-/* If any of the constraints is found to be impure then this function
+/* Add the constraints of "delta" to "path".
+ * The set variables of "delta" appear at position "off" in "path" and
+ * the existentially quantified variables at position "div_off".
+ *
+ * If any of the constraints is found to be impure then this function
  * sets *impurity to 1.
  *
  * If impurity is NULL then we are dealing with a non-parametric set
@@ -460,8 +464,8 @@ static isl_bool empty_path_is_identity(__isl_keep isl_basic_map *path,
  */
 static __isl_give isl_basic_map *add_delta_constraints(
 	__isl_take isl_basic_map *path,
-	__isl_keep isl_basic_set *delta, unsigned off, unsigned nparam,
-	unsigned d, int *div_purity, int eq, int *impurity)
+	__isl_keep isl_basic_set *delta, unsigned off, unsigned div_off,
+	unsigned nparam, unsigned d, int *div_purity, int eq, int *impurity)
 {
 	int i, k;
 	int n = eq ? delta->n_eq : delta->n_ineq;
@@ -507,7 +511,7 @@ static __isl_give isl_basic_map *add_delta_constraints(
 				    delta_c[i] + 1 + nparam, d);
 			isl_seq_cpy(path_c, delta_c[i], 1 + nparam);
 		}
-		isl_seq_cpy(path_c + off - n_div,
+		isl_seq_cpy(path_c + div_off,
 			    delta_c[i] + 1 + nparam + d, n_div);
 	}
 
@@ -571,6 +575,8 @@ error:
  *			E f + k e >= 0
  *
  * to the constructed relation.
+ * Any existentially quantified variables in \delta' are unrelated
+ * to those in \delta, so they are represented by additional variables.
  */
 static __isl_give isl_map *path_along_delta(__isl_take isl_space *space,
 	__isl_take isl_basic_set *delta)
@@ -580,6 +586,7 @@ static __isl_give isl_map *path_along_delta(__isl_take isl_space *space,
 	isl_size n_div;
 	isl_size nparam;
 	isl_size total;
+	isl_size n_extra;
 	unsigned off;
 	int i, k;
 	isl_bool is_id;
@@ -619,9 +626,9 @@ static __isl_give isl_map *path_along_delta(__isl_take isl_space *space,
 	if (n_div && !div_purity)
 		goto error;
 
-	path = add_delta_constraints(path, delta, off, nparam, d,
+	path = add_delta_constraints(path, delta, off, off - n_div, nparam, d,
 				     div_purity, 1, &impurity);
-	path = add_delta_constraints(path, delta, off, nparam, d,
+	path = add_delta_constraints(path, delta, off, off - n_div, nparam, d,
 				     div_purity, 0, &impurity);
 	if (impurity) {
 		isl_space *space = isl_basic_set_get_space(delta);
@@ -629,14 +636,22 @@ static __isl_give isl_map *path_along_delta(__isl_take isl_space *space,
 						  isl_dim_param, 0, nparam);
 		delta = isl_basic_set_add_dims(delta, isl_dim_param, nparam);
 		delta = isl_basic_set_reset_space(delta, space);
-		if (!delta)
+		n_extra = isl_basic_set_dim(delta, isl_dim_div);
+		if (n_extra < 0)
 			goto error;
-		path = isl_basic_map_extend_constraints(path, delta->n_eq,
+		path = isl_basic_map_extend(path, n_extra, delta->n_eq,
 							delta->n_ineq + 1);
-		path = add_delta_constraints(path, delta, off, nparam, d,
-					     NULL, 1, NULL);
-		path = add_delta_constraints(path, delta, off, nparam, d,
-					     NULL, 0, NULL);
+		for (i = 0; i < n_extra; ++i) {
+			k = isl_basic_map_alloc_div(path);
+			if (k < 0)
+				goto error;
+			isl_int_set_si(path->div[k][0], 0);
+		}
+		total += n_extra;
+		path = add_delta_constraints(path, delta, off, off + d + 1,
+					     nparam, d, NULL, 1, NULL);
+		path = add_delta_constraints(path, delta, off, off + d + 1,
+					     nparam, d, NULL, 0, NULL);
 		path = isl_basic_map_gauss(path, NULL);
 	}
 
-- 
2.43.0


From 5733b3b65a3dbf7f48e52b68557398df345ee125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:28 +0000
Subject: [PATCH 76/77] fix: isl_vec_normalize, isl_vec_sort,
 isl_mat_unimodular_complete: do not modify shared objects

---
 isl_mat.c | 1 +
 isl_vec.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/isl_mat.c b/isl_mat.c
index d5d089e..b9e90e2 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1746,6 +1746,7 @@ __isl_give isl_mat *isl_mat_unimodular_complete(__isl_take isl_mat *M, int row)
 	int r;
 	struct isl_mat *H = NULL, *Q = NULL;
 
+	M = isl_mat_cow(M);
 	if (!M)
 		return NULL;
 
diff --git a/isl_vec.c b/isl_vec.c
index 323015b..4045bc1 100644
--- a/isl_vec.c
+++ b/isl_vec.c
@@ -455,6 +455,7 @@ __isl_give isl_vec *isl_vec_ceil(__isl_take isl_vec *vec)
 
 __isl_give isl_vec *isl_vec_normalize(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
 	isl_seq_normalize(vec->ctx, vec->el, vec->size);
@@ -524,6 +525,7 @@ static int qsort_int_cmp(const void *p1, const void *p2)
 
 __isl_give isl_vec *isl_vec_sort(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
 	
-- 
2.43.0


From 73406ba919eae13d6452ab26d69b62d52e05e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:54 +0000
Subject: [PATCH 77/77] fix: isl_mat_normalize: handle zero matrix

---
 isl_mat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_mat.c b/isl_mat.c
index b9e90e2..4bec357 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -2002,7 +2002,8 @@ __isl_give isl_mat *isl_mat_normalize(__isl_take isl_mat *mat)
 
 	isl_int_init(gcd);
 	isl_mat_gcd(mat, &gcd);
-	mat = isl_mat_scale_down(mat, gcd);
+	if (!isl_int_is_zero(gcd))
+		mat = isl_mat_scale_down(mat, gcd);
 	isl_int_clear(gcd);
 
 	return mat;
-- 
2.43.0

