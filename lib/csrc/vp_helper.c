/* Projection of isl objects onto plain integer points, for the conformance
 * drivers.  It reads the constraints through isl's public accessors and
 * enumerates integer points itself: nothing here calls an isl operation that
 * computes anything (no emptiness test, no projection, no elimination).
 *
 * Also: counting wrappers around the allocator (linked with --wrap into the
 * library under test only), with optional failure injection.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <malloc.h>
#include <gmp.h>
#include <isl/ctx.h>
#include <isl/options.h>
#include <isl/val.h>
#include <isl/id.h>
#include <isl/space.h>
#include <isl/local_space.h>
#include <isl/mat.h>
#include <isl/aff.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <isl/polynomial.h>

/* ---------- allocation accounting ---------- */
void *__wrap_malloc(size_t n);
void *__wrap_realloc(void *p, size_t n);
void __wrap_free(void *p);
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
char *__real_strdup(const char *s);

static int vp_poison;		/* overwrite memory that is released */
static long vp_live;
static long vp_total;
static long vp_fail_at;		/* fail the vp_fail_at-th allocation; 0: never */

long vp_alloc_live(void) { return __atomic_load_n(&vp_live, __ATOMIC_RELAXED); }
long vp_alloc_total(void) { return __atomic_load_n(&vp_total, __ATOMIC_RELAXED); }
void vp_alloc_fail_at(long k) { vp_fail_at = k ? vp_total + k : 0; }

static int vp_may_fail(void)
{
	long t = __atomic_add_fetch(&vp_total, 1, __ATOMIC_RELAXED);
	return vp_fail_at && t == vp_fail_at;
}
void *__wrap_malloc(size_t n)
{
	void *p;
	if (vp_may_fail())
		return NULL;
	p = __real_malloc(n);
	if (p && vp_poison)
		memset(p, 0xcb, n);
	if (p)
		__atomic_add_fetch(&vp_live, 1, __ATOMIC_RELAXED);
	return p;
}
void *__wrap_calloc(size_t n, size_t m)
{
	void *p;
	if (vp_may_fail())
		return NULL;
	p = __real_calloc(n, m);
	if (p)
		__atomic_add_fetch(&vp_live, 1, __ATOMIC_RELAXED);
	return p;
}
void *__wrap_realloc(void *q, size_t n)
{
	void *p;
	if (vp_may_fail())
		return NULL;
	p = __real_realloc(q, n);
	if (p && !q)
		__atomic_add_fetch(&vp_live, 1, __ATOMIC_RELAXED);
	return p;
}
static void *vp_gmp_alloc(size_t n) { return __wrap_malloc(n); }
static void *vp_gmp_realloc(void *p, size_t o, size_t n) { return __wrap_realloc(p, n); }
static void vp_gmp_free(void *p, size_t n) { __wrap_free(p); }
/* also count the memory of big integers */
void vp_alloc_poison(int on)
{
	static int done;
	vp_poison = on;
	if (!done)
		mp_set_memory_functions(vp_gmp_alloc, vp_gmp_realloc, vp_gmp_free);
	done = 1;
}
void __wrap_free(void *p)
{
	if (p) {
		__atomic_sub_fetch(&vp_live, 1, __ATOMIC_RELAXED);
		if (vp_poison)
			memset(p, 0xdb, malloc_usable_size(p));
	}
	__real_free(p);
}
char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	if (p)
		memcpy(p, s, n);
	return p;
}
/* for strings and the like handed to the user */
void vp_free(void *p) { __wrap_free(p); }

/* ---------- rows ---------- */
#define VP_OK 0
#define VP_BIG -2		/* a number does not fit */
#define VP_UNDECIDED -3		/* an existential could not be bounded */
#define VP_CAP -4		/* more points than asked for */
#define VP_PARAM -5		/* a parameter the session does not know */
#define VP_NULL -6		/* isl returned an error */

typedef int64_t I;

struct rows {
	int w;			/* width */
	int n, size;
	int cap;
	int *v;
};

static void rows_uniq(struct rows *r);
static int rows_add(struct rows *r, const int *row)
{
	if (r->cap >= 0 && r->n >= 8 * r->cap + 64) {
		rows_uniq(r);
		if (r->n > r->cap)
			return VP_CAP;
	}
	if (r->n >= r->size) {
		r->size = r->size ? 2 * r->size : 256;
		r->v = __real_realloc(r->v, sizeof(int) * r->size * (r->w ? r->w : 1));
	}
	memcpy(r->v + (size_t) r->n * r->w, row, sizeof(int) * r->w);
	r->n++;
	return VP_OK;
}
static int cmp_w;
static int cmp_rows(const void *a, const void *b)
{
	const int *x = a, *y = b;
	int i;
	for (i = 0; i < cmp_w; ++i)
		if (x[i] != y[i])
			return x[i] < y[i] ? -1 : 1;
	return 0;
}
static void rows_uniq(struct rows *r)
{
	int i, k;
	if (r->w == 0) {
		if (r->n > 1)
			r->n = 1;
		return;
	}
	if (r->n < 2)
		return;
	cmp_w = r->w;
	qsort(r->v, r->n, sizeof(int) * r->w, cmp_rows);
	for (i = 1, k = 1; i < r->n; ++i)
		if (cmp_rows(r->v + (size_t) i * r->w, r->v + (size_t) (k - 1) * r->w)) {
			memmove(r->v + (size_t) k * r->w, r->v + (size_t) i * r->w,
				sizeof(int) * r->w);
			k++;
		}
	r->n = k;
}

/* ---------- request ---------- */
struct vp_req {
	int npar;		/* session parameters */
	const char **par;
	int npv;		/* parameter valuations, npar ints each */
	const int *pv;
	int lo, hi;		/* box for the tuple dimensions */
	int cap;		/* most rows */
	/* result */
	int w, n;
	int *v;
};

static int get_long(__isl_take isl_val *v, I *out)
{
	double d;
	int r = VP_OK;
	if (!v)
		return VP_NULL;
	d = isl_val_get_d(v);
	if (isl_val_is_int(v) != isl_bool_true || d > 1e12 || d < -1e12)
		r = VP_BIG;
	else
		*out = isl_val_get_num_si(v);
	isl_val_free(v);
	return r;
}

#define MAXV 40
#define MAXC 400

struct cons {
	int eq;
	I c[MAXV + 1];		/* constant, then variables */
};

struct sys {
	int npar, ndim;		/* variables: params, dims, then divs */
	int nvar;
	int ncons;
	struct cons *c;
	int unknown_from;
	int ok;
};

static int sys_new_cons(struct sys *s, int eq)
{
	if (s->ncons >= MAXC)
		return -1;
	memset(&s->c[s->ncons], 0, sizeof(struct cons));
	s->c[s->ncons].eq = eq;
	return s->ncons++;
}

/* Add the constraints saying that variable "var" is floor(aff), where the
 * integer divisions "aff" uses get variables of their own. */
static int add_div_def(struct sys *s, int var, __isl_keep isl_aff *aff, int depth)
{
	I den, co[MAXV + 1], t;
	int i, n, r, k;
	int dv[MAXV];

	memset(co, 0, sizeof(co));
	if (depth > 8)
		return VP_UNDECIDED;
	if ((r = get_long(isl_aff_get_denominator_val(aff), &den)) < 0)
		return r;
	n = isl_aff_dim(aff, isl_dim_div);
	if (n < 0)
		return VP_NULL;
	for (i = 0; i < n; ++i) {
		isl_aff *d;
		isl_val *v;
		int zero;
		dv[i] = -1;
		v = isl_aff_get_coefficient_val(aff, isl_dim_div, i);
		zero = isl_val_is_zero(v) == isl_bool_true;
		isl_val_free(v);
		if (zero)
			continue;
		if (s->nvar >= MAXV)
			return VP_UNDECIDED;
		dv[i] = s->nvar++;
		d = isl_aff_get_div(aff, i);
		if (!d)
			return VP_NULL;
		r = add_div_def(s, dv[i], d, depth + 1);
		isl_aff_free(d);
		if (r < 0)
			return r;
	}
#define COEF(type, j, dst) do { \
		isl_val *v_ = isl_aff_get_coefficient_val(aff, type, j); \
		isl_val *m_ = isl_aff_get_denominator_val(aff); \
		if ((r = get_long(isl_val_mul(v_, m_), &t)) < 0) return r; \
		co[dst] = t; } while (0)
	{
		isl_val *v_ = isl_aff_get_constant_val(aff);
		isl_val *m_ = isl_aff_get_denominator_val(aff);
		if ((r = get_long(isl_val_mul(v_, m_), &t)) < 0)
			return r;
		co[0] = t;
	}
	for (i = 0; i < s->npar; ++i)
		COEF(isl_dim_param, i, 1 + i);
	for (i = 0; i < s->ndim; ++i)
		COEF(isl_dim_in, i, 1 + s->npar + i);
	for (i = 0; i < n; ++i)
		if (dv[i] >= 0)
			COEF(isl_dim_div, i, 1 + dv[i]);
	/* 0 <= expr - den * var <= den - 1 */
	if ((k = sys_new_cons(s, 0)) < 0)
		return VP_UNDECIDED;
	memcpy(s->c[k].c, co, sizeof(co));
	s->c[k].c[1 + var] -= den;
	if ((k = sys_new_cons(s, 0)) < 0)
		return VP_UNDECIDED;
	for (i = 0; i <= MAXV; ++i)
		s->c[k].c[i] = -co[i];
	s->c[k].c[0] += den - 1;
	s->c[k].c[1 + var] += den;
	return VP_OK;
}

static int add_matrix(struct sys *s, __isl_take isl_mat *m, int eq)
{
	int i, j, r = VP_OK, nr, nc;
	if (!m)
		return VP_NULL;
	nr = isl_mat_rows(m);
	nc = isl_mat_cols(m);
	for (i = 0; i < nr && r >= 0; ++i) {
		int k = sys_new_cons(s, eq);
		if (k < 0) {
			r = VP_UNDECIDED;
			break;
		}
		for (j = 0; j < nc && r >= 0; ++j)
			r = get_long(isl_mat_get_element_val(m, i, j), &s->c[k].c[j]);
	}
	isl_mat_free(m);
	return r;
}

static I fdiv(I a, I b)
{
	I q = a / b;
	if (a % b != 0 && (a < 0) != (b < 0))
		q--;
	return q;
}
static I cdiv(I a, I b) { return -fdiv(-a, b); }

#define INF ((I) 1 << 40)

/* One interval-propagation pass; 0 when infeasible, 1 otherwise. */
static int propagate(struct sys *s, I *lo, I *hi)
{
	int round, i, j, changed;
	for (round = 0; round < 8; ++round) {
		changed = 0;
		for (i = 0; i < s->ncons; ++i) {
			struct cons *c = &s->c[i];
			int side;
			for (side = 0; side < (c->eq ? 2 : 1); ++side) {
				/* sum >= 0 with coefficients sgn * c */
				I sgn = side ? -1 : 1;
				I max = sgn * c->c[0];
				int ninf = 0, inf = -1;
				for (j = 0; j < s->nvar; ++j) {
					I a = sgn * c->c[1 + j];
					I b;
					if (!a)
						continue;
					b = a > 0 ? hi[j] : lo[j];
					if (b >= INF || b <= -INF) {
						ninf++;
						inf = j;
					} else
						max += a * b;
				}
				if (ninf == 0 && max < 0)
					return 0;
				if (ninf > 1)
					continue;
				for (j = 0; j < s->nvar; ++j) {
					I a = sgn * c->c[1 + j];
					I rest, b;
					if (!a)
						continue;
					if (ninf == 1 && j != inf)
						continue;
					b = a > 0 ? hi[j] : lo[j];
					rest = ninf ? max : max - a * b;
					/* a x_j >= -rest */
					if (a > 0) {
						I l = cdiv(-rest, a);
						if (l > lo[j]) {
							lo[j] = l;
							changed = 1;
						}
					} else {
						I h = fdiv(rest, -a);
						if (h < hi[j]) {
							hi[j] = h;
							changed = 1;
						}
					}
					if (lo[j] > hi[j])
						return 0;
				}
			}
		}
		if (!changed)
			break;
	}
	return 1;
}

static long vp_budget;

/* Is there a value for the variables from position "k" on?  Returns 1, 0 or a
 * negative code. */
static int exists_from(struct sys *s, int k, I *lo, I *hi)
{
	I l[MAXV], h[MAXV];
	int j, best = -1;
	I x, bw = 0;

	if (--vp_budget < 0)
		return VP_UNDECIDED;
	memcpy(l, lo, sizeof(I) * s->nvar);
	memcpy(h, hi, sizeof(I) * s->nvar);
	if (!propagate(s, l, h))
		return 0;
	for (j = k; j < s->nvar; ++j) {
		I w = h[j] - l[j];
		if (l[j] >= INF || h[j] <= -INF)
			return VP_UNDECIDED;	/* only very far away, if at all */
		if (l[j] <= -INF || h[j] >= INF)
			w = INF;
		if (w > 0 && (best < 0 || w < bw)) {
			best = j;
			bw = w;
		}
	}
	if (best < 0)
		return 1;	/* all fixed and propagation found no conflict */
	if (bw >= INF || bw > 200000) {
		/* a half-open range: any value far enough may do */
		int r, i, any = 0;
		I base;
		/* is the variable unconstrained from one side in every constraint? */
		if (l[best] > -INF)
			base = l[best];
		else if (h[best] < INF)
			base = h[best];
		else
			base = 0;
		for (i = 0; i < 400; ++i) {
			I sl = l[best], sh = h[best];
			I d = l[best] > -INF ? i : (h[best] < INF ? -i :
				(i & 1 ? (i + 1) / 2 : -(i / 2)));
			I v = base + d;
			if (v < sl || v > sh)
				continue;
			l[best] = h[best] = v;
			r = exists_from(s, k, l, h);
			l[best] = sl;
			h[best] = sh;
			if (r == 1)
				return 1;
			if (r < 0)
				any = r;
		}
		(void) any;
		return VP_UNDECIDED;
	}
	for (x = l[best]; x <= h[best]; ++x) {
		I sl = l[best], sh = h[best];
		int r;
		l[best] = h[best] = x;
		r = exists_from(s, k, l, h);
		l[best] = sl;
		h[best] = sh;
		if (r != 0)
			return r;
	}
	return 0;
}

static int enum_dims(struct sys *s, int k, I *lo, I *hi, int *row, int rowpos,
	struct rows *out)
{
	I l[MAXV], h[MAXV], x;
	int r;

	memcpy(l, lo, sizeof(I) * s->nvar);
	memcpy(h, hi, sizeof(I) * s->nvar);
	if (!propagate(s, l, h))
		return VP_OK;
	if (k == s->npar + s->ndim) {
		vp_budget = 20000;
		r = exists_from(s, k, l, h);
		if (r < 0)
			return r;
		return r ? rows_add(out, row) : VP_OK;
	}
	for (x = l[k]; x <= h[k]; ++x) {
		I sl = l[k], sh = h[k];
		l[k] = h[k] = x;
		row[rowpos] = (int) x;
		r = enum_dims(s, k + 1, l, h, row, rowpos + 1, out);
		l[k] = sl;
		h[k] = sh;
		if (r < 0)
			return r;
	}
	return VP_OK;
}

static int bset_points(__isl_keep isl_basic_set *bset, struct vp_req *q,
	struct rows *out)
{
	struct sys s;
	int i, j, r = VP_OK, ndiv, n0;
	int map[64];
	isl_local_space *ls = NULL;
	I lo[MAXV], hi[MAXV];
	int row[MAXV + 64];

	memset(&s, 0, sizeof(s));
	s.npar = isl_basic_set_dim(bset, isl_dim_param);
	s.ndim = isl_basic_set_dim(bset, isl_dim_set);
	ndiv = isl_basic_set_dim(bset, isl_dim_div);
	if (s.npar < 0 || s.ndim < 0 || ndiv < 0)
		return VP_NULL;
	if (s.npar + s.ndim + ndiv > MAXV)
		return VP_UNDECIDED;
	for (i = 0; i < s.npar; ++i) {
		const char *nm = isl_basic_set_get_dim_name(bset, isl_dim_param, i);
		map[i] = -1;
		for (j = 0; j < q->npar; ++j)
			if (nm && !strcmp(nm, q->par[j]))
				map[i] = j;
		if (map[i] < 0)
			return VP_PARAM;
	}
	s.nvar = n0 = s.npar + s.ndim + ndiv;
	s.c = __real_malloc(sizeof(struct cons) * MAXC);
	r = add_matrix(&s, isl_basic_set_equalities_matrix(bset, isl_dim_cst,
		isl_dim_param, isl_dim_set, isl_dim_div), 1);
	if (r >= 0)
		r = add_matrix(&s, isl_basic_set_inequalities_matrix(bset,
			isl_dim_cst, isl_dim_param, isl_dim_set, isl_dim_div), 0);
	if (r >= 0 && ndiv > 0) {
		int onerr = isl_options_get_on_error(isl_basic_set_get_ctx(bset));
		isl_ctx *ctx = isl_basic_set_get_ctx(bset);
		enum isl_error le = isl_ctx_last_error(ctx);
		isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
		ls = isl_basic_set_get_local_space(bset);
		for (i = 0; i < ndiv && r >= 0; ++i) {
			isl_aff *d = isl_local_space_get_div(ls, i);
			if (!d)
				continue;	/* unknown: existential */
			r = add_div_def(&s, s.npar + s.ndim + i, d, 0);
			isl_aff_free(d);
		}
		isl_local_space_free(ls);
		if (le == isl_error_none)
			isl_ctx_reset_error(ctx);
		isl_options_set_on_error(ctx, onerr);
	}
	for (i = 0; i < q->npv && r >= 0; ++i) {
		for (j = 0; j < s.nvar; ++j) {
			lo[j] = -INF;
			hi[j] = INF;
		}
		for (j = 0; j < q->npar; ++j)
			row[j] = q->pv[i * q->npar + j];
		for (j = 0; j < s.npar; ++j)
			lo[j] = hi[j] = q->pv[i * q->npar + map[j]];
		for (j = 0; j < s.ndim; ++j) {
			lo[s.npar + j] = q->lo;
			hi[s.npar + j] = q->hi;
		}
		r = enum_dims(&s, s.npar, lo, hi, row, q->npar, out);
	}
	__real_free(s.c);
	return r;
}

struct fe { struct vp_req *q; struct rows *out; int r; };

static isl_stat fe_bset(__isl_take isl_basic_set *b, void *user)
{
	struct fe *f = user;
	f->r = bset_points(b, f->q, f->out);
	isl_basic_set_free(b);
	return f->r < 0 ? isl_stat_error : isl_stat_ok;
}

static int set_rows(__isl_keep isl_set *set, struct vp_req *q, struct rows *out)
{
	struct fe f = { q, out, VP_OK };
	out->w = q->npar + isl_set_dim(set, isl_dim_set);
	if (isl_set_foreach_basic_set(set, &fe_bset, &f) < 0 && f.r >= 0)
		f.r = VP_NULL;
	rows_uniq(out);
	return f.r;
}

static int finish(struct vp_req *q, struct rows *out, int r)
{
	if (r >= 0 && out->cap >= 0 && out->n > out->cap)
		r = VP_CAP;
	q->w = out->w;
	q->n = out->n;
	q->v = out->v;
	return r;
}

void vp_rows_free(struct vp_req *q)
{
	__real_free(q->v);
	q->v = NULL;
}

int vp_set_points(__isl_keep isl_set *set, struct vp_req *q)
{
	struct rows out = { 0, 0, 0, q->cap, NULL };
	return finish(q, &out, set_rows(set, q, &out));
}

int vp_map_points(__isl_keep isl_map *map, struct vp_req *q)
{
	struct rows out = { 0, 0, 0, q->cap, NULL };
	isl_set *s;
	int r;
	s = isl_map_wrap(isl_map_copy(map));
	if (!s)
		return finish(q, &out, VP_NULL);
	r = set_rows(s, q, &out);
	isl_set_free(s);
	return finish(q, &out, r);
}

/* ---------- values of expressions at points ---------- */
static I gcd(I a, I b)
{
	if (a < 0) a = -a;
	if (b < 0) b = -b;
	while (b) { I t = a % b; a = b; b = t; }
	return a;
}

struct rat { I n, d; };	/* d == 0: not a number (n = 0) or infinite */

#define LIM ((I) 1 << 31)
static int rat_norm(struct rat *r)
{
	I g;
	if (r->d == 0) {
		r->n = r->n > 0 ? 1 : r->n < 0 ? -1 : 0;
		return VP_OK;
	}
	if (r->d < 0) { r->n = -r->n; r->d = -r->d; }
	g = gcd(r->n, r->d);
	if (g > 1) { r->n /= g; r->d /= g; }
	if (r->n >= LIM || r->n <= -LIM || r->d >= LIM)
		return VP_BIG;
	return VP_OK;
}
static int rat_of_val(__isl_take isl_val *v, struct rat *r)
{
	double d;
	isl_val *den;
	if (!v)
		return VP_NULL;
	if (isl_val_is_nan(v) == isl_bool_true) { r->n = 0; r->d = 0; isl_val_free(v); return VP_OK; }
	if (isl_val_is_infty(v) == isl_bool_true) { r->n = 1; r->d = 0; isl_val_free(v); return VP_OK; }
	if (isl_val_is_neginfty(v) == isl_bool_true) { r->n = -1; r->d = 0; isl_val_free(v); return VP_OK; }
	d = isl_val_get_d(v);
	den = isl_val_get_den_val(v);
	if (d > 1e9 || d < -1e9 || isl_val_get_d(den) > 1e9) {
		isl_val_free(den);
		isl_val_free(v);
		return VP_BIG;
	}
	isl_val_free(den);
	r->n = isl_val_get_num_si(v);
	r->d = isl_val_get_den_si(v);
	isl_val_free(v);
	return rat_norm(r);
}
static int rat_madd(struct rat *acc, struct rat c, struct rat x)
{
	/* acc += c * x */
	struct rat p;
	if (c.d == 0 || x.d == 0) {
		acc->n = 0;
		acc->d = 0;
		return VP_OK;
	}
	p.n = c.n * x.n;
	p.d = c.d * x.d;
	{
		int r = rat_norm(&p);
		if (r < 0)
			return r;
	}
	acc->n = acc->n * p.d + p.n * acc->d;
	acc->d = acc->d * p.d;
	return rat_norm(acc);
}

/* Parameter position map for an object with the given local parameter names. */
static int par_map(isl_space *space, struct vp_req *q, int *map)
{
	int i, j, n = isl_space_dim(space, isl_dim_param);
	for (i = 0; i < n; ++i) {
		const char *nm = isl_space_get_dim_name(space, isl_dim_param, i);
		map[i] = -1;
		for (j = 0; j < q->npar; ++j)
			if (nm && !strcmp(nm, q->par[j]))
				map[i] = j;
		if (map[i] < 0)
			return VP_PARAM;
	}
	return n;
}

static int eval_aff(__isl_keep isl_aff *aff, const int *map, const int *par,
	const int *dims, struct rat *res, int depth)
{
	int i, r, np, nd, nv;
	struct rat c;
	if (depth > 10)
		return VP_UNDECIDED;
	if (isl_aff_is_nan(aff) == isl_bool_true) {
		res->n = 0;
		res->d = 0;
		return VP_OK;
	}
	if ((r = rat_of_val(isl_aff_get_constant_val(aff), res)) < 0)
		return r;
	np = isl_aff_dim(aff, isl_dim_param);
	nd = isl_aff_dim(aff, isl_dim_in);
	nv = isl_aff_dim(aff, isl_dim_div);
	if (np < 0 || nd < 0 || nv < 0)
		return VP_NULL;
	for (i = 0; i < np; ++i) {
		struct rat x = { par[map[i]], 1 };
		if ((r = rat_of_val(isl_aff_get_coefficient_val(aff, isl_dim_param, i), &c)) < 0 ||
		    (r = rat_madd(res, c, x)) < 0)
			return r;
	}
	for (i = 0; i < nd; ++i) {
		struct rat x = { dims[i], 1 };
		if ((r = rat_of_val(isl_aff_get_coefficient_val(aff, isl_dim_in, i), &c)) < 0 ||
		    (r = rat_madd(res, c, x)) < 0)
			return r;
	}
	for (i = 0; i < nv; ++i) {
		struct rat x;
		isl_aff *d;
		if ((r = rat_of_val(isl_aff_get_coefficient_val(aff, isl_dim_div, i), &c)) < 0)
			return r;
		if (c.n == 0)
			continue;
		d = isl_aff_get_div(aff, i);
		if (!d)
			return VP_NULL;
		r = eval_aff(d, map, par, dims, &x, depth + 1);
		isl_aff_free(d);
		if (r < 0)
			return r;
		if (x.d != 0) {
			x.n = fdiv(x.n, x.d);
			x.d = 1;
		}
		if ((r = rat_madd(res, c, x)) < 0)
			return r;
	}
	return VP_OK;
}

typedef int (*evalfn)(void *fn, struct vp_req *q, const int *map,
	const int *par, const int *dims, int *out);

struct piece {
	struct vp_req *q;
	struct rows *out;
	int nval;		/* values per point (each two ints) */
	int r;
};

static int eval_domain(__isl_keep isl_set *dom, isl_space *fspace, struct piece *p,
	evalfn fn, void *obj)
{
	struct rows pts = { 0, 0, 0, p->q->cap, NULL };
	int map[64], i, r;
	int row[256];
	int nd;

	r = set_rows(dom, p->q, &pts);
	nd = pts.w - p->q->npar;
	if (r >= 0)
		r = par_map(fspace, p->q, map);
	for (i = 0; i < pts.n && r >= 0; ++i) {
		int *x = pts.v + (size_t) i * pts.w;
		memcpy(row, x, sizeof(int) * pts.w);
		r = fn(obj, p->q, map, x, x + p->q->npar, row + pts.w);
		if (r >= 0) {
			p->out->w = pts.w + 2 * p->nval;
			r = rows_add(p->out, row);
		}
	}
	if (pts.n == 0)
		p->out->w = p->q->npar + nd + 2 * p->nval;
	__real_free(pts.v);
	return r < 0 ? r : VP_OK;
}

static int fn_aff(void *obj, struct vp_req *q, const int *map, const int *par,
	const int *dims, int *out)
{
	struct rat v;
	int r = eval_aff(obj, map, par, dims, &v, 0);
	if (r < 0)
		return r;
	if (v.n >= LIM || v.n <= -LIM)
		return VP_BIG;
	out[0] = (int) v.n;
	out[1] = (int) v.d;
	return VP_OK;
}

static int fn_ma(void *obj, struct vp_req *q, const int *map, const int *par,
	const int *dims, int *out)
{
	int i, r, n = isl_multi_aff_dim(obj, isl_dim_out);
	for (i = 0; i < n; ++i) {
		isl_aff *a = isl_multi_aff_get_aff(obj, i);
		r = fn_aff(a, q, map, par, dims, out + 2 * i);
		isl_aff_free(a);
		if (r < 0)
			return r;
	}
	return VP_OK;
}

static isl_stat pc_aff(__isl_take isl_set *set, __isl_take isl_aff *aff, void *user)
{
	struct piece *p = user;
	isl_space *sp = isl_aff_get_domain_space(aff);
	p->r = eval_domain(set, sp, p, &fn_aff, aff);
	isl_space_free(sp);
	isl_set_free(set);
	isl_aff_free(aff);
	return p->r < 0 ? isl_stat_error : isl_stat_ok;
}

static isl_stat pc_ma(__isl_take isl_set *set, __isl_take isl_multi_aff *ma, void *user)
{
	struct piece *p = user;
	isl_space *sp = isl_multi_aff_get_domain_space(ma);
	p->r = eval_domain(set, sp, p, &fn_ma, ma);
	isl_space_free(sp);
	isl_set_free(set);
	isl_multi_aff_free(ma);
	return p->r < 0 ? isl_stat_error : isl_stat_ok;
}

int vp_pw_aff_rows(__isl_keep isl_pw_aff *pa, struct vp_req *q)
{
	struct rows out = { 0, 0, 0, q->cap, NULL };
	struct piece p = { q, &out, 1, VP_OK };
	if (isl_pw_aff_foreach_piece(pa, &pc_aff, &p) < 0 && p.r >= 0)
		p.r = VP_NULL;
	rows_uniq(&out);
	return finish(q, &out, p.r);
}

int vp_pw_multi_aff_rows(__isl_keep isl_pw_multi_aff *pma, struct vp_req *q)
{
	struct rows out = { 0, 0, 0, q->cap, NULL };
	struct piece p = { q, &out, isl_pw_multi_aff_dim(pma, isl_dim_out), VP_OK };
	if (isl_pw_multi_aff_foreach_piece(pma, &pc_ma, &p) < 0 && p.r >= 0)
		p.r = VP_NULL;
	rows_uniq(&out);
	return finish(q, &out, p.r);
}

/* the aff on the points of a given set */
int vp_aff_on(__isl_keep isl_aff *aff, __isl_keep isl_set *dom, struct vp_req *q)
{
	struct rows out = { 0, 0, 0, q->cap, NULL };
	struct piece p = { q, &out, 1, VP_OK };
	isl_space *sp = isl_aff_get_domain_space(aff);
	int r = eval_domain(dom, sp, &p, &fn_aff, aff);
	isl_space_free(sp);
	rows_uniq(&out);
	return finish(q, &out, r);
}

/* ---------- quasi-polynomials ---------- */
struct qpev {
	const int *map, *par, *dims;
	struct rat acc;
	int r;
};

static isl_stat qp_term(__isl_take isl_term *term, void *user)
{
	struct qpev *e = user;
	struct rat c;
	int i, j, np, nd, nv;

	np = isl_term_dim(term, isl_dim_param);
	nd = isl_term_dim(term, isl_dim_set);
	nv = isl_term_dim(term, isl_dim_div);
	if (np < 0 || nd < 0 || nv < 0) {
		e->r = VP_NULL;
		goto done;
	}
	if ((e->r = rat_of_val(isl_term_get_coefficient_val(term), &c)) < 0)
		goto done;
	for (i = 0; i < np + nd + nv; ++i) {
		enum isl_dim_type t = i < np ? isl_dim_param :
			i < np + nd ? isl_dim_set : isl_dim_div;
		int pos = i < np ? i : i < np + nd ? i - np : i - np - nd;
		int ex = isl_term_get_exp(term, t, pos);
		struct rat x = { 0, 1 };
		if (ex <= 0)
			continue;
		if (t == isl_dim_param)
			x.n = e->par[e->map[pos]];
		else if (t == isl_dim_set)
			x.n = e->dims[pos];
		else {
			isl_aff *d = isl_term_get_div(term, pos);
			if (!d) {
				e->r = VP_NULL;
				goto done;
			}
			e->r = eval_aff(d, e->map, e->par, e->dims, &x, 0);
			isl_aff_free(d);
			if (e->r < 0)
				goto done;
			if (x.d != 0) {
				x.n = fdiv(x.n, x.d);
				x.d = 1;
			}
		}
		for (j = 0; j < ex; ++j) {
			struct rat t0 = { 0, 1 };
			if (c.d == 0 || x.d == 0) {
				c.n = 0; c.d = 0;
				break;
			}
			if ((e->r = rat_madd(&t0, c, x)) < 0)
				goto done;
			c = t0;
		}
	}
	{
		struct rat one = { 1, 1 };
		if (e->acc.d == 0 || c.d == 0) {
			/* infinities and NaN only ever come as the one constant term */
			if (e->acc.d != 0 && e->acc.n == 0)
				e->acc = c;
			else {
				e->acc.n = 0;
				e->acc.d = 0;
			}
		} else
			e->r = rat_madd(&e->acc, c, one);
	}
done:
	isl_term_free(term);
	return e->r < 0 ? isl_stat_error : isl_stat_ok;
}

static int fn_qp(void *obj, struct vp_req *q, const int *map, const int *par,
	const int *dims, int *out)
{
	struct qpev e = { map, par, dims, { 0, 1 }, VP_OK };
	if (isl_qpolynomial_foreach_term(obj, &qp_term, &e) < 0 && e.r >= 0)
		e.r = VP_NULL;
	if (e.r < 0)
		return e.r;
	out[0] = (int) e.acc.n;
	out[1] = (int) e.acc.d;
	return VP_OK;
}

static isl_stat pc_qp(__isl_take isl_set *set, __isl_take isl_qpolynomial *qp, void *user)
{
	struct piece *p = user;
	isl_space *sp = isl_qpolynomial_get_domain_space(qp);
	p->r = eval_domain(set, sp, p, &fn_qp, qp);
	isl_space_free(sp);
	isl_set_free(set);
	isl_qpolynomial_free(qp);
	return p->r < 0 ? isl_stat_error : isl_stat_ok;
}

int vp_pw_qp_rows(__isl_keep isl_pw_qpolynomial *pwqp, struct vp_req *q)
{
	struct rows out = { 0, 0, 0, q->cap, NULL };
	struct piece p = { q, &out, 1, VP_OK };
	if (isl_pw_qpolynomial_foreach_piece(pwqp, &pc_qp, &p) < 0 && p.r >= 0)
		p.r = VP_NULL;
	rows_uniq(&out);
	return finish(q, &out, p.r);
}

/* fold: one row per point and polynomial of the fold, the last two columns
 * giving the value; max or min is taken by the reader */
struct foldp { struct piece *p; isl_set *set; };

static isl_stat fold_qp(__isl_take isl_qpolynomial *qp, void *user)
{
	struct foldp *f = user;
	isl_space *sp = isl_qpolynomial_get_domain_space(qp);
	f->p->r = eval_domain(f->set, sp, f->p, &fn_qp, qp);
	isl_space_free(sp);
	isl_qpolynomial_free(qp);
	return f->p->r < 0 ? isl_stat_error : isl_stat_ok;
}

static isl_stat pc_fold(__isl_take isl_set *set, __isl_take isl_qpolynomial_fold *fold,
	void *user)
{
	struct foldp f = { user, set };
	isl_stat r = isl_qpolynomial_fold_foreach_qpolynomial(fold, &fold_qp, &f);
	isl_set_free(set);
	isl_qpolynomial_fold_free(fold);
	return r;
}

int vp_pw_fold_rows(__isl_keep isl_pw_qpolynomial_fold *pwf, struct vp_req *q)
{
	struct rows out = { 0, 0, 0, q->cap, NULL };
	struct piece p = { q, &out, 1, VP_OK };
	if (isl_pw_qpolynomial_fold_foreach_piece(pwf, &pc_fold, &p) < 0 && p.r >= 0)
		p.r = VP_NULL;
	rows_uniq(&out);
	return finish(q, &out, p.r);
}

/* ---------- shapes ---------- */
struct sb { char *s; size_t n, size; };
static void sb_add(struct sb *b, const char *s)
{
	size_t k = strlen(s);
	if (b->n + k + 1 > b->size) {
		b->size = 2 * (b->n + k + 1);
		b->s = __real_realloc(b->s, b->size);
	}
	memcpy(b->s + b->n, s, k + 1);
	b->n += k;
}
static void sb_json(struct sb *b, const char *s)
{
	char t[8];
	sb_add(b, "\"");
	for (; s && *s; ++s) {
		if (*s == '"' || *s == '\\')
			snprintf(t, sizeof(t), "\\%c", *s);
		else if ((unsigned char) *s < 32)
			snprintf(t, sizeof(t), "\\u%04x", *s);
		else
			snprintf(t, sizeof(t), "%c", *s);
		sb_add(b, t);
	}
	sb_add(b, "\"");
}
static int shape_set(struct sb *b, __isl_take isl_space *sp)
{
	char t[32];
	const char *nm;
	isl_bool w = isl_space_is_wrapping(sp);
	if (w < 0) {
		isl_space_free(sp);
		return -1;
	}
	nm = NULL;
	if (isl_space_has_tuple_name(sp, isl_dim_set) == isl_bool_true)
		nm = isl_space_get_tuple_name(sp, isl_dim_set);
	sb_add(b, "[");
	sb_json(b, nm);
	if (w) {
		isl_space *u = isl_space_unwrap(isl_space_copy(sp));
		sb_add(b, ",");
		shape_set(b, isl_space_domain(isl_space_copy(u)));
		sb_add(b, ",");
		shape_set(b, isl_space_range(u));
	} else {
		snprintf(t, sizeof(t), ",%d", isl_space_dim(sp, isl_dim_set));
		sb_add(b, t);
	}
	sb_add(b, "]");
	isl_space_free(sp);
	return 0;
}
/* JSON text: "null" params, [name,n] or [name,L,R] for sets, {"d":..,"r":..} for maps */
char *vp_space_shape(__isl_take isl_space *sp)
{
	struct sb b = { NULL, 0, 0 };
	if (!sp)
		return NULL;
	if (isl_space_is_params(sp) == isl_bool_true) {
		sb_add(&b, "null");
		isl_space_free(sp);
	} else if (isl_space_is_set(sp) == isl_bool_true) {
		shape_set(&b, sp);
	} else {
		sb_add(&b, "{\"d\":");
		shape_set(&b, isl_space_domain(isl_space_copy(sp)));
		sb_add(&b, ",\"r\":");
		shape_set(&b, isl_space_range(sp));
		sb_add(&b, "}");
	}
	return b.s;
}
void vp_str_free(char *s) { __real_free(s); }

/* the session parameters' indices of an object's parameters, -1 unknown */
int vp_space_params(__isl_take isl_space *sp, char **out)
{
	struct sb b = { NULL, 0, 0 };
	int i, n = isl_space_dim(sp, isl_dim_param);
	for (i = 0; i < n; ++i) {
		const char *nm = isl_space_get_dim_name(sp, isl_dim_param, i);
		if (i)
			sb_add(&b, "\n");
		sb_add(&b, nm ? nm : "?");
	}
	isl_space_free(sp);
	*out = b.s;
	return n;
}
