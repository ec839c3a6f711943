"""Operations on (piecewise, multi, union) affine expressions (C07).
Every entry: semantic name, C functions, precondition, extra arguments, and how
a window carries over ("pt": pointwise, "exact": only on exact operands)."""
from isl import DIM, size, load as LIB
from ops_rel import Op, expand

OPS, QS = [], []
AB = dict(a="aff", pa="pw_aff", ma="multi_aff", pma="pw_multi_aff", mpa="multi_pw_aff", upa="union_pw_aff",
          upma="union_pw_multi_aff", mupa="multi_union_pw_aff")


def fn(classes, tail):
    return " ".join("isl_%s_%s" % (AB[c], tail) for c in classes.split(","))


def op(sem, fns, pre=None, ext=None, w="pt", weight=1.0):
    o = Op(sem, fns, pre, ext, w, weight, "C07")
    o.sameparams = False
    OPS.append(o)
    return o


def q(sem, fns, pre=None, ext=None, weight=1.0):
    o = Op(sem, fns, pre, ext, "pt", weight, "C07")
    QS.append(o)


def U(h):
    return h.isu()


def isf(h):
    return h.k in ("fun", "ufun")


def one(h):
    """one value per point"""
    return h.cls in ("aff", "pw_aff", "union_pw_aff")


def D(h):
    return h.sp["d"]


def Rg(h):
    return h.sp["r"]


def wr(s):
    return s is not None and len(s) == 3


def same(*hs):
    a = hs[0]
    return all(U(h) or h.sp == a.sp for h in hs)


def samedom(a, b):
    return U(a) or D(a) == D(b)


def mranges(h):
    return [s["r"] for s in h.sp] if U(h) else [Rg(h)]


def mrange_eq(*hs):
    """a multi_union_pw_aff has one range"""
    return "multi_union" not in hs[0].cls or (all(h.sp for h in hs) and all(s["r"] == hs[0].sp[0]["r"] for h in hs for s in h.sp))


def dom_is(h, s):
    """set s lives in the domain of h"""
    if U(h):
        return s.isu()
    if D(h) is None:
        return s.k == "params"
    return s.k == "set" and s.sp == D(h)


# ---- values ----
def mkval(S, n, d=1):
    lib = S.lib
    if d == 1:
        return lib.val_int_from_si(S.ctx, n)
    return lib.val_div(lib.val_int_from_si(S.ctx, n), lib.val_int_from_si(S.ctx, d))


def red(n, d):
    from math import gcd
    g = gcd(n, d)
    return [n // g, d // g]


def rq(S, zero=True, rat=True, pos=False):
    R = S.R
    n = R.choice([1, 2, 3, 4, 5]) if pos else R.choice([-3, -2, -1, 0, 1, 2, 3, 4])
    if n == 0 and not zero:
        n = 2
    d = R.choice([1, 1, 1, 2, 3]) if rat else 1
    return red(n, d)


def e_val(zero=True, rat=True, pos=False):
    def f(S, h):
        n, d = rq(S, zero, rat, pos)
        return [mkval(S, n, d)], dict(q=[n, d])
    return f


def e_si(S, h):
    n = S.R.randint(-4, 4)
    return [n], dict(q=[n, 1])


def rspace(S, h):
    lib = S.lib
    sp = lib.get("isl_%s_get_space" % h.cls)(h.ptr)
    return sp if h.cls == "multi_union_pw_aff" or (not U(h) and D(h) is None) else lib.space_range(sp)


def mv(S, space, qs):
    lib = S.lib
    l = lib.val_list_alloc(S.ctx, len(qs))
    for n, d in qs:
        l = lib.val_list_add(l, mkval(S, n, d))
    return lib.multi_val_from_val_list(space, l)


def e_mval(zero=True, rat=True, pos=False):
    def f(S, h):
        rs = mranges(h)
        if not rs:
            return None
        k = size(rs[0])
        qs = [rq(S, zero, rat, pos) for _ in range(k)]
        return [mv(S, rspace(S, h), qs)], dict(qs=qs)
    return f


# ---- pointwise arithmetic ----
ALL = "a,pa,ma,pma,mpa,upa,upma,mupa"
op("f_neg", fn(ALL, "neg"))
op("f_floor", fn("a,pa,ma,upa,mupa", "floor"))
op("f_ceil", fn("a,pa", "ceil"))
op("f_mod", fn("a,pa,upa", "mod_val"), None, e_val(pos=True, rat=False), weight=1.5)
op("f_scale", fn(ALL, "scale_val"), None, e_val())
op("f_scale_down", fn(ALL, "scale_down_val"), None, e_val(pos=True))
op("f_add_constant", fn("a,pa,ma,pma,mpa", "add_constant_val"), None, e_val())
op("f_add_constant", "isl_aff_add_constant_si", None, e_si)
NZ = lambda h: mrange_eq(h)
op("f_scale_mv", fn("ma,pma,mpa,mupa", "scale_multi_val"), NZ, e_mval())
op("f_scale_down_mv", fn("ma,pma,mpa,mupa", "scale_down_multi_val"), NZ, e_mval(pos=True))
op("f_mod_mv", fn("ma,mpa,mupa", "mod_multi_val"), NZ, e_mval(pos=True, rat=False))
op("f_add_constant_mv", fn("ma,pma,mpa", "add_constant_multi_val"), NZ, e_mval())


def ucompat(a, b):
    """the same domain space only with the same range"""
    return a.cls != "union_pw_multi_aff" or all(s["r"] == t["r"] for s in a.sp for t in b.sp if s["d"] == t["d"])


BIN = lambda a, b: same(a, b) and mrange_eq(a, b) and ucompat(a, b)
op("f_add", fn(ALL, "add"), BIN, weight=2)
op("f_sub", fn(ALL, "sub"), BIN, weight=1.5)
op("f_min", fn("pa,mpa", "min"), BIN, weight=2)
op("f_max", fn("pa,mpa", "max"), BIN, weight=2)
op("f_union_add", fn("pa,pma,upma,upa", "union_add"), BIN, weight=2)
op("f_union_min", fn("pa", "union_min"), BIN)
op("f_union_max", fn("pa", "union_max"), BIN)
op("f_union_lexmin", fn("pma", "union_lexmin"), BIN, weight=2)
op("f_union_lexmax", fn("pma", "union_lexmax"), BIN, weight=2)


def cst(h):
    """is every piece syntactically a constant"""
    return getattr(h, "cst", False)


op("f_mul", fn("a,pa", "mul"), lambda a, b: same(a, b) and (cst(a) or cst(b)), weight=2)
op("f_div", fn("a,pa", "div"), lambda a, b: same(a, b) and cst(b) and nonzero(b), weight=2)
op("f_tdiv_q", fn("pa", "tdiv_q"), lambda a, b: same(a, b) and cst(b) and posint(b), weight=2)
op("f_tdiv_r", fn("pa", "tdiv_r"), lambda a, b: same(a, b) and cst(b) and posint(b), weight=2)
op("f_cond", fn("pa", "cond"), lambda a, b, c: same(a, b, c) and not LIB().pw_aff_involves_nan(a.ptr), weight=2)   # not a number anywhere: not a number everywhere


def vals(h):
    import json
    return [q for e in json.loads(h.js)["p"] for q in flat(e[2])]


def flat(y):
    return y[1] if len(y) == 2 else flat(y[1]) + flat(y[2])


def nonzero(h):
    return all(q[0] != 0 and q[1] != 0 for q in vals(h))


def posint(h):
    return all(q[0] > 0 and q[1] == 1 for q in vals(h))


def ints(h):
    return all(q[1] == 1 for q in vals(h))


# ---- domains ----
DI = lambda a, b: dom_is(a, b) and (U(a) or D(a) is not None)
DP = lambda a, b: not U(a) and D(a) is None and b.k == "params"
op("f_intersect_params", fn("pa,pma,mpa", "intersect_domain"), DP)
op("f_subtract_params", fn("pa,pma", "subtract_domain"), DP)
op("f_gist_params", fn("pa,pma,mpa", "gist"), DP, w="never")
op("f_intersect_domain", fn("pa,pma,mpa,upa,upma,mupa", "intersect_domain"), DI, weight=2)
op("f_intersect_domain", fn("upa,upma", "intersect_domain_union_set"), DI, weight=.3)
op("f_intersect_params", fn("pa,pma,mpa,upa,upma,mupa", "intersect_params"), lambda a, b: b.k == "params")
op("f_subtract_domain", fn("pa,pma,upa,upma", "subtract_domain"), DI, weight=1.5)
op("f_inter_wr_dom", fn("pa,pma", "intersect_domain_wrapped_domain"), lambda a, b: wr(D(a)) and D(a)[0] == "" and b.k == "set" and D(a)[1] == b.sp)
op("f_inter_wr_ran", fn("pa,pma", "intersect_domain_wrapped_range"), lambda a, b: wr(D(a)) and D(a)[0] == "" and b.k == "set" and D(a)[2] == b.sp)
op("f_domain", fn("pa,pma,mpa,upa,upma,mupa", "domain"), lambda a: U(a) or D(a) is not None, weight=1.2)
op("f_domain_params", fn("pa,pma,mpa", "domain"), lambda a: D(a) is None)
op("f_params", fn("pa", "params"), lambda a: True, w="exact")
op("f_gist", fn("pa,pma,mpa,upa,upma,mupa", "gist"), DI, w="never", weight=2)
op("f_gist_params", fn("pa,pma,mpa,upa,upma,mupa", "gist_params"), lambda a, b: b.k == "params", w="never")
op("f_same", fn("pa,pma,mpa,upa,upma,mupa", "coalesce"), weight=1.5)
op("f_same", fn("pa,pma", "drop_unused_params"), weight=.5)

# ---- to sets and relations ----
op("f_zero_set", "isl_pw_aff_zero_set isl_aff_zero_basic_set", lambda a: D(a) is not None)
op("f_non_zero_set", "isl_pw_aff_non_zero_set", lambda a: D(a) is not None)
op("f_nonneg_set", "isl_pw_aff_nonneg_set", lambda a: D(a) is not None)
op("f_pos_set", "isl_pw_aff_pos_set", lambda a: D(a) is not None)
op("f_neg_set", "isl_aff_neg_basic_set", lambda a: D(a) is not None)
op("f_zero_uset", "isl_union_pw_aff_zero_union_set isl_multi_union_pw_aff_zero_union_set", lambda a: mrange_eq(a))
for c in ("eq", "ne", "le", "lt", "ge", "gt"):
    f = "isl_pw_aff_%s_set isl_aff_%s_set" % (c, c)
    if c != "ne":
        f += " isl_aff_%s_basic_set" % c
    op("f_cmp_set", f, lambda a, b: same(a, b) and D(a) is not None, (lambda c: lambda S, h: ([], dict(c=c)))(c), weight=.5)
SM = lambda a, b: a.n * b.n <= 1500
for c in ("eq", "le", "lt", "ge", "gt"):
    op("f_cmp_map", "isl_pw_aff_%s_map" % c, lambda a, b: D(a) is not None and D(b) is not None and SM(a, b),
       (lambda c: lambda S, h: ([], dict(c=c)))(c), weight=.4)
for c in ("le", "lt", "ge", "gt"):
    op("f_lex_set", "isl_multi_aff_lex_%s_set" % c, lambda a, b: same(a, b) and D(a) is not None, (lambda c: lambda S, h: ([], dict(c=c)))(c), weight=.4)
    op("f_cmp_map", "isl_multi_pw_aff_lex_%s_map" % c, lambda a, b: D(a) is not None and D(b) is not None and Rg(a) == Rg(b) and SM(a, b),
       (lambda c: lambda S, h: ([], dict(c=c)))(c), weight=.4)
op("f_cmp_map", "isl_multi_pw_aff_eq_map", lambda a, b: D(a) is not None and D(b) is not None and Rg(a) == Rg(b) and SM(a, b),
   lambda S, h: ([], dict(c="eq")), weight=.4)
HASD = lambda a: D(a) is not None
op("f_as_map", fn("pa,pma,mpa,ma", "as_map") + " isl_map_from_aff isl_map_from_pw_aff isl_map_from_multi_aff isl_map_from_pw_multi_aff "
   "isl_map_from_multi_pw_aff isl_basic_map_from_aff isl_basic_map_from_multi_aff", HASD, weight=1.5)
op("f_as_map", "isl_union_pw_multi_aff_as_union_map isl_union_map_from_union_pw_multi_aff isl_union_map_from_multi_union_pw_aff "
   "isl_union_map_from_union_pw_aff", lambda a: mrange_eq(a) and all(s["d"] is not None for s in a.sp))
op("f_as_set", fn("pma,mpa,ma", "as_set") + " isl_set_from_multi_aff isl_set_from_pw_multi_aff isl_set_from_multi_pw_aff isl_set_from_pw_aff",
   lambda a: D(a) is None, weight=2)


def sv(h):
    """also for the parameter values that are not listed"""
    import json
    if h.k in ("map", "umap", "set") and not LIB().get("isl_%s_is_%s" % (h.cls, "singleton" if h.k == "set" else "single_valued"))(h.ptr):
        return False
    seen = {}
    for e in json.loads(h.js)["p"]:
        k = json.dumps(e[:-1])
        if seen.setdefault(k, e[-1]) != e[-1]:
            return False
    return True


op("f_from_map", "isl_pw_multi_aff_from_map isl_map_as_pw_multi_aff isl_union_map_as_union_pw_multi_aff "
   "isl_union_pw_multi_aff_from_union_map", lambda a: sv(a), w="exact", weight=2)
op("f_from_map", "isl_union_map_as_multi_union_pw_aff isl_multi_union_pw_aff_from_union_map",
   lambda a: sv(a) and a.n > 0 and a.sp and all(s["r"] == a.sp[0]["r"] for s in a.sp), w="exact", weight=1)
op("f_from_set", "isl_pw_multi_aff_from_set isl_set_as_pw_multi_aff", lambda a: a.k == "set" and sv(a), w="exact", weight=1.5)

# ---- between representations ----
op("f_same", "isl_pw_aff_from_aff isl_multi_aff_from_aff isl_pw_multi_aff_from_multi_aff isl_multi_aff_to_pw_multi_aff "
   "isl_multi_pw_aff_from_multi_aff isl_multi_aff_to_multi_pw_aff isl_pw_multi_aff_from_pw_aff isl_multi_pw_aff_from_pw_aff "
   "isl_multi_pw_aff_from_aff isl_multi_pw_aff_from_pw_multi_aff isl_pw_multi_aff_to_multi_pw_aff isl_pw_multi_aff_from_multi_pw_aff",
   weight=3)
op("f_same", "isl_union_pw_multi_aff_from_aff isl_union_pw_multi_aff_from_multi_aff isl_union_pw_multi_aff_from_pw_multi_aff "
   "isl_pw_multi_aff_to_union_pw_multi_aff isl_union_pw_aff_from_aff isl_union_pw_aff_from_pw_aff isl_pw_aff_to_union_pw_aff "
   "isl_multi_union_pw_aff_from_multi_aff isl_multi_aff_to_multi_union_pw_aff isl_multi_union_pw_aff_from_multi_pw_aff "
   "isl_multi_union_pw_aff_from_union_pw_aff isl_union_pw_multi_aff_from_union_pw_aff", lambda a: U(a) or D(a) is not None, weight=2)
op("f_same", "isl_multi_union_pw_aff_from_union_pw_multi_aff isl_union_pw_multi_aff_as_multi_union_pw_aff",
   lambda a: a.sp and all(s["r"] == a.sp[0]["r"] and s["d"] is not None for s in a.sp))
op("f_same", "isl_union_pw_multi_aff_from_multi_union_pw_aff", lambda a: a.sp and all(s["d"] is not None for s in a.sp))

# ---- products and components ----
op("f_range_product", fn("ma,pma,mpa,upma,mupa", "range_product"), lambda a, b: samedom(a, b) and mrange_eq(a) and mrange_eq(b))
op("f_flat_range_product", fn("ma,pma,mpa,upma,mupa", "flat_range_product"), lambda a, b: samedom(a, b) and mrange_eq(a) and mrange_eq(b))
op("f_product", fn("ma,pma,mpa", "product"), lambda a, b: D(a) is not None and D(b) is not None and a.n * b.n <= 1200)
RW = lambda a: mrange_eq(a) and mranges(a) and all(wr(r) for r in mranges(a))
# functions of the parameters only (like those on a union) live in a set space
RWP = lambda a: RW(a) and D(a) is None
RWD = lambda a: RW(a) and D(a) is not None


def e_loose(S, h):
    return [], {"loose": 1}


for t in ("domain", "range"):
    op("f_range_factor_" + t, fn("ma,pma", "range_factor_" + t), RWD, weight=.8)
    op("f_range_factor_" + t, fn("upma", "range_factor_" + t), RW, weight=.5)
    op("f_range_factor_" + t, fn("mpa", "range_factor_" + t), RWD, e_loose, w="never", weight=.8)
op("f_range_factor_range", fn("ma", "factor_range"), RWP, weight=.5)
op("f_range_factor_range", fn("mpa", "factor_range"), RWP, e_loose, w="never", weight=.5)
op("f_range_factor_range", fn("mupa", "factor_range"), RW, e_loose, w="never", weight=.5)
op("f_flatten_range", fn("ma,mpa,mupa", "flatten_range"), lambda a: mrange_eq(a))


def e_at(S, h):
    k = size(mranges(h)[0])
    if not k:
        return None
    i = S.R.randrange(k)
    return [i], dict(i=i)


op("f_at", fn("ma,pma,mpa,mupa", "get_at") + " isl_pw_multi_aff_get_pw_aff", lambda a: mrange_eq(a) and mranges(a), e_at, w="never", weight=1.5)


def e_set_at(S, h):
    """the components of these are independent: the domain of the replaced one does not count"""
    e = e_at(S, h)
    if e and h.cls in ("multi_pw_aff", "multi_union_pw_aff"):
        e[1]["loose"] = 1
    return e


op("f_set_at", "isl_multi_aff_set_at isl_multi_pw_aff_set_at isl_pw_multi_aff_set_pw_aff isl_multi_union_pw_aff_set_at",
   lambda a, b: mrange_eq(a) and samedom(a, b), e_set_at, w="never", weight=2)


def e_drop_out(S, h):
    if U(h):
        return None
    n = size(Rg(h))
    if n == 0:
        return None
    i = S.R.randrange(n)
    k = S.R.randint(1, n - i)
    return [DIM["out"], i, k], dict(i=i, n=k, **({"loose": 1} if h.cls == "multi_pw_aff" else {}))


op("f_drop_out", fn("ma,mpa,pma", "drop_dims"), lambda a: True, e_drop_out, w="never")


def e_ins(S, h):
    if D(h) is None or size(D(h)) > 1:
        return None
    i = S.R.randint(0, size(D(h)))
    return [DIM["in"], i, 1], dict(i=i)


op("f_insert_in", fn("a,pa,ma,mpa", "insert_dims"), lambda a: True, e_ins, w="exact" if False else "never", weight=.6)
op("f_project_domain_on_params", fn("a,pa,ma,pma,mpa", "project_domain_on_params"),
   lambda a: D(a) is not None and indep(a), w="first0")


def indep(h):
    """the same value, wherever it is defined, whatever the point"""
    return h.w == 0 and getattr(h, "cst", False) and False


# ---- composition ----
PB = lambda a, b: (U(a) or D(a) is not None and Rg(b) == D(a) and D(b) is not None)
op("f_pullback", fn("a", "pullback_aff"), lambda a, b: D(a) is not None and D(a) == ["", 1] and D(b) is not None)
op("f_pullback", fn("a,pa,ma,pma,mpa", "pullback_multi_aff") + " " + fn("pa,pma,mpa", "pullback_pw_multi_aff"), PB, weight=3)
op("f_pullback", fn("pa,mpa", "pullback_multi_pw_aff"), PB, e_loose, w="never", weight=1.5)
op("f_pullback", fn("upa,upma,mupa", "pullback_union_pw_multi_aff"), lambda a, b: True, weight=2)
op("f_apply", "isl_union_pw_multi_aff_apply_union_pw_multi_aff", lambda a, b: True, w="swap")
op("f_apply", "isl_multi_union_pw_aff_apply_aff isl_multi_union_pw_aff_apply_pw_aff isl_multi_union_pw_aff_apply_multi_aff "
   "isl_multi_union_pw_aff_apply_pw_multi_aff", lambda a, b: a.sp and mrange_eq(a) and D(b) is not None and a.sp[0]["r"] == D(b) and size(D(b)) > 0, w="swap", weight=1.5)
PS = lambda a, b: U(a) or a.k == "set" and Rg(b) == a.sp and D(b) is not None
op("f_preimage_set", "isl_set_preimage_multi_aff isl_set_preimage_pw_multi_aff isl_basic_set_preimage_multi_aff", PS, weight=2.5)
op("f_preimage_set", "isl_set_preimage_multi_pw_aff", PS, e_loose, w="never")
op("f_preimage_set", "isl_union_set_preimage_union_pw_multi_aff", lambda a, b: True)
op("f_preimage_set", "isl_union_set_preimage_multi_aff isl_union_set_preimage_pw_multi_aff", lambda a, b: D(b) is not None)
op("f_preimage_domain", "isl_map_preimage_domain_multi_aff isl_map_preimage_domain_pw_multi_aff isl_map_preimage_domain_multi_pw_aff "
   "isl_basic_map_preimage_domain_multi_aff", lambda a, b: D(b) is not None and a.sp["d"] == Rg(b) and ints(b), w="relfirst", weight=2)
op("f_preimage_range", "isl_map_preimage_range_multi_aff isl_map_preimage_range_pw_multi_aff isl_basic_map_preimage_range_multi_aff",
   lambda a, b: D(b) is not None and a.sp["r"] == Rg(b) and ints(b), w="relfirst", weight=2)
op("f_preimage_domain", "isl_union_map_preimage_domain_union_pw_multi_aff isl_union_map_preimage_domain_multi_aff isl_union_map_preimage_domain_pw_multi_aff",
   lambda a, b: ints(b) and (U(b) or D(b) is not None), w="relfirst")
op("f_preimage_range", "isl_union_map_preimage_range_union_pw_multi_aff isl_union_map_preimage_range_multi_aff isl_union_map_preimage_range_pw_multi_aff",
   lambda a, b: ints(b) and (U(b) or D(b) is not None), w="relfirst")
# places where functions compare
for c in ("eq", "le", "lt", "ge", "gt"):
    n = "isl_map_%s_at_multi_pw_aff" % (c if c == "eq" else "lex_" + c)
    op("f_rel_at", n, lambda a, b: D(b) is not None and a.sp["d"] == a.sp["r"] == D(b) and ints(b), (lambda c: lambda S, h: ([], dict(c=c)))(c), w="relfirst", weight=.5)
for c in ("eq", "le", "lt", "ge", "gt"):
    n = "isl_union_map_%s_at_multi_union_pw_aff" % (c if c == "eq" else "lex_" + c)
    op("f_rel_at", n, lambda a, b: b.sp and mrange_eq(b) and ints(b), (lambda c: lambda S, h: ([], dict(c=c)))(c), w="relfirst", weight=.4)
op("f_bound_s", "isl_set_lower_bound_multi_pw_aff", lambda a, b: a.k == "set" and a.sp == Rg(b) and D(b) is None and size(a.sp) > 0, lambda S, h: ([], dict(c="ge")), w="relfirst", weight=1.5)
op("f_bound_s", "isl_set_upper_bound_multi_pw_aff", lambda a, b: a.k == "set" and a.sp == Rg(b) and D(b) is None and size(a.sp) > 0, lambda S, h: ([], dict(c="le")), w="relfirst", weight=1.5)
op("f_bound_r", "isl_map_lower_bound_multi_pw_aff", lambda a, b: D(b) is not None and a.sp["d"] == D(b) and a.sp["r"] == Rg(b), lambda S, h: ([], dict(c="ge")), w="relfirst", weight=1.5)
op("f_bound_r", "isl_map_upper_bound_multi_pw_aff", lambda a, b: D(b) is not None and a.sp["d"] == D(b) and a.sp["r"] == Rg(b), lambda S, h: ([], dict(c="le")), w="relfirst", weight=1.5)

# ---- from sets ----
op("f_identity_on", "isl_union_set_identity_union_pw_multi_aff", lambda a: a.k != "params")
op("f_identity_on", "isl_union_pw_multi_aff_from_union_set", lambda a: False)
op("f_indicator", "isl_set_indicator_function", lambda a: a.k == "set" and size(a.sp) <= 2, w="never")


def e_cst_on(S, h):
    n, d = rq(S)
    return [mkval(S, n, d)], dict(q=[n, d])


op("f_cst_on", "isl_pw_aff_val_on_domain isl_set_pw_aff_on_domain_val isl_union_pw_aff_val_on_domain",
   lambda a: a.k != "params", e_cst_on, weight=3)


def e_wrapmap(S, h):
    return [], None


op("f_domain_map", "isl_union_map_domain_map_union_pw_multi_aff", lambda a: True)


def e_bind(S, h):
    if not S.world.names:
        return None
    i = S.R.randrange(len(S.world.names))
    return [S.lib.id_alloc(S.ctx, S.world.names[i].encode(), None)], dict(i=i)


op("f_bind", "isl_aff_bind_id isl_pw_aff_bind_id isl_union_pw_aff_bind_id", lambda a: U(a) or D(a) is not None, e_bind, weight=1.5)

# ---- questions ----
q("is_equal", fn("pa,pma", "is_equal"), same, weight=2)
q("c_is_equal", fn("mpa", "is_equal"), same, weight=1.5)
q("plain_is_equal", fn("a,pa,ma,pma,mpa,upa,upma,mupa", "plain_is_equal"), same)
q("is_empty", fn("pa", "is_empty"))
q("plain_is_empty", fn("upma", "plain_is_empty"))
q("f_is_cst", fn("a", "is_cst"), lambda a: True)
q("f_involves_nan", fn("pa,ma,pma,mpa,upa,upma,mupa", "involves_nan"))
q("f_is_nan", "isl_aff_is_nan")
