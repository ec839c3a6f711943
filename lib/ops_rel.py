"""The set and relation operations driven by the C01..C03 sessions.
Each entry: semantic name, C functions, precondition on the operand shapes,
extra arguments, and how exactness carries over."""
from isl import DIM, size

OPS = []


class Op:
    def __init__(self, sem, fns, pre=None, ext=None, w=None, weight=1.0, prop="C01", box=0):
        self.sem, self.fns, self.pre, self.ext, self.w = sem, fns.split(), pre, ext, w
        self.weight, self.prop, self.box = weight, prop, box
        self.sameparams = self.knowndivs = False


def op(*a, **k):
    OPS.append(Op(*a, **k))


def expand(pattern):
    """isl_{map,set}_x -> two names"""
    import re
    m = re.match(r"^(.*?)\{([^}]*)\}(.*)$", pattern)
    if not m:
        return [pattern]
    return [y for x in m.group(2).split(",") for y in expand(m.group(1) + x + m.group(3))]


def F(*pats):
    return " ".join(y for p in pats for q in p.split() for y in expand(q))


ALL6 = "isl_{set,map,union_set,union_map,basic_set,basic_map}_"
ALL4 = "isl_{set,map,union_set,union_map}_"
M3 = "isl_{map,union_map,basic_map}_"


def dom(h):
    return h.sp["d"]


def ran(h):
    return h.sp["r"]


def wr(s):
    return len(s) == 3


def U(h):
    return h.isu()


def same(a, b):
    return U(a) or a.sp == b.sp


def par(h):
    return h.k == "params"


# union operands: any operand; plain ones: matching shapes
def p_same(a, b): return same(a, b)
def p_dom(a, b): return U(a) or (not par(b) and dom(a) == b.sp)
def p_ran(a, b): return U(a) or (not par(b) and ran(a) == b.sp)


def umap_dom_wrapping(h):
    return all(wr(s["d"]) for s in h.sp)


op("union", F(ALL6 + "union"), p_same, w="or", weight=2)
op("union", F("isl_{set,map}_union_disjoint"), lambda a, b: p_same(a, b) and "disjoint", w="or", weight=.5)
op("intersect", F(ALL6 + "intersect"), p_same, w="and", weight=2)
op("subtract", F(ALL4 + "subtract"), p_same, w="first", weight=3)
op("complement", F("isl_{set,map}_complement"), lambda a: size2(a) <= 2, w="never", weight=.6)
op("intersect_params", F(ALL4 + "intersect_params isl_basic_set_intersect_params"), lambda a, b: par(b) and not par(a), w="first")
op("intersect_domain", F("isl_{map,union_map,basic_map}_intersect_domain"), p_dom, w="andx")
op("intersect_range", F("isl_{map,union_map,basic_map}_intersect_range"), p_ran, w="andx")
op("subtract_domain", F("isl_{map,union_map}_subtract_domain"), p_dom, w="first")
op("subtract_range", F("isl_{map,union_map}_subtract_range"), p_ran, w="first")
op("inter_dom_wr_dom", F("isl_map_intersect_domain_wrapped_domain"), lambda a, b: wr(dom(a)) and dom(a)[0] == "" and dom(a)[1] == b.sp)
op("inter_ran_wr_dom", F("isl_map_intersect_range_wrapped_domain"), lambda a, b: wr(ran(a)) and ran(a)[0] == "" and ran(a)[1] == b.sp)
op("inter_dom_wr_dom", "isl_union_map_intersect_domain_wrapped_domain_union_set", lambda a, b: all(len(s["d"]) == 2 or s["d"][0] == "" for s in a.sp))
op("inter_ran_wr_dom", "isl_union_map_intersect_range_wrapped_domain_union_set", lambda a, b: all(len(s["r"]) == 2 or s["r"][0] == "" for s in a.sp))
op("inter_dom_fac_dom", F("isl_{map,union_map}_intersect_domain_factor_domain"),
   lambda a, b: U(a) or wr(dom(a)) and dom(a)[1] == dom(b) and ran(a) == ran(b))
op("inter_dom_fac_ran", F("isl_{map,union_map}_intersect_domain_factor_range"),
   lambda a, b: U(a) or wr(dom(a)) and dom(a)[2] == dom(b) and ran(a) == ran(b))
op("inter_ran_fac_dom", F("isl_{map,union_map}_intersect_range_factor_domain"),
   lambda a, b: U(a) or wr(ran(a)) and ran(a)[1] == ran(b) and dom(a) == dom(b))
op("inter_ran_fac_ran", F("isl_{map,union_map}_intersect_range_factor_range"),
   lambda a, b: U(a) or wr(ran(a)) and ran(a)[2] == ran(b) and dom(a) == dom(b))
op("inter_fac_dom", "isl_set_intersect_factor_domain", lambda a, b: not par(a) and wr(a.sp) and a.sp[1] == b.sp)
op("inter_fac_ran", "isl_set_intersect_factor_range", lambda a, b: not par(a) and wr(a.sp) and a.sp[2] == b.sp)

op("domain", F("isl_{map,union_map,basic_map}_domain"), weight=1.5)
op("range", F("isl_{map,union_map,basic_map}_range"), weight=1.5)
op("params", F(ALL4 + "params isl_basic_set_params"), lambda a: not par(a))
op("from_params", "isl_set_from_params isl_basic_set_from_params", par, weight=.3)
op("reverse", F(M3 + "reverse"), w="bij")
op("wrap", F(M3 + "wrap"), w="bij")
op("unwrap", F("isl_{set,union_set,basic_set}_unwrap"), lambda a: not par(a) and (all(wr(s) for s in a.sp) if U(a) else wr(a.sp)), w="bij")
op("identity", F("isl_{set,union_set}_identity"), lambda a: not par(a))
op("domain_map", F(M3 + "domain_map"), lambda a: a.n <= 120, w=None)
op("range_map", F(M3 + "range_map"), lambda a: a.n <= 120)
op("wrapped_domain_map", F("isl_{set,union_set}_wrapped_domain_map"), lambda a: U(a) or not par(a) and wr(a.sp))
op("from_domain", "isl_map_from_domain isl_union_map_from_domain isl_basic_map_from_domain", lambda a: not par(a) and (not U(a) or all(s[0] == "" or True for s in a.sp)))
op("from_range", "isl_map_from_range isl_union_map_from_range isl_basic_map_from_range", lambda a: not par(a))
op("insert_domain", "isl_set_insert_domain", None, weight=0)

op("apply", F("isl_{set,union_set,basic_set}_apply"), lambda a, b: U(a) or not par(a) and a.sp == dom(b), weight=2)
op("apply_range", F(M3 + "apply_range"), lambda a, b: U(a) or ran(a) == dom(b), weight=2)
op("apply_domain", F(M3 + "apply_domain"), lambda a, b: U(a) or dom(a) == dom(b), weight=1.5)

SMALLP = lambda a, b: a.n * b.n <= 900
op("product_s", F("isl_{set,union_set}_product"), lambda a, b: SMALLP(a, b) and (U(a) or not par(a) and not par(b)))
op("flat_product_s", F("isl_{set,basic_set}_flat_product"), lambda a, b: SMALLP(a, b) and not par(a) and not par(b))
op("product_r", F(M3 + "product"), SMALLP)
op("domain_product", F(M3 + "domain_product"), lambda a, b: SMALLP(a, b) and (U(a) or ran(a) == ran(b)))
op("range_product", F(M3 + "range_product"), lambda a, b: SMALLP(a, b) and (U(a) or dom(a) == dom(b)))
op("flat_product_r", F("isl_{map,basic_map}_flat_product"), SMALLP)
op("flat_domain_product", F("isl_{map,union_map}_flat_domain_product"), lambda a, b: SMALLP(a, b) and (U(a) or ran(a) == ran(b)))
op("flat_range_product", F(M3 + "flat_range_product"), lambda a, b: SMALLP(a, b) and (U(a) or dom(a) == dom(b)))
op("dr_product", F(M3 + "from_domain_and_range"), lambda a, b: SMALLP(a, b) and not par(a) and not par(b))
op("factor_domain", F("isl_{map,union_map}_factor_domain"), lambda a: (all(wr(s["d"]) and wr(s["r"]) for s in a.sp) if U(a) else wr(dom(a)) and wr(ran(a))))
op("factor_range", F("isl_{map,union_map}_factor_range"), lambda a: (all(wr(s["d"]) and wr(s["r"]) for s in a.sp) if U(a) else wr(dom(a)) and wr(ran(a))))
op("domain_factor_domain", F("isl_{map,union_map}_domain_factor_domain"), lambda a: (all(wr(s["d"]) for s in a.sp) if U(a) else wr(dom(a))))
op("domain_factor_range", F("isl_{map,union_map}_domain_factor_range"), lambda a: (all(wr(s["d"]) for s in a.sp) if U(a) else wr(dom(a))))
op("range_factor_domain", F("isl_{map,union_map}_range_factor_domain"), lambda a: (all(wr(s["r"]) for s in a.sp) if U(a) else wr(ran(a))))
op("range_factor_range", F("isl_{map,union_map}_range_factor_range"), lambda a: (all(wr(s["r"]) for s in a.sp) if U(a) else wr(ran(a))))

op("curry", F("isl_{map,union_map,basic_map}_curry"), lambda a: (all(wr(s["d"]) for s in a.sp) if U(a) else wr(dom(a))), w="bij")
op("uncurry", F("isl_{map,union_map,basic_map}_uncurry"), lambda a: (all(wr(s["r"]) for s in a.sp) if U(a) else wr(ran(a))), w="bij")
op("range_curry", F("isl_{map,union_map}_range_curry"), lambda a: (all(wr(s["r"]) and wr(s["r"][1]) for s in a.sp) if U(a) else wr(ran(a)) and wr(ran(a)[1])), w="bij")
op("zip", F("isl_{map,union_map,basic_map}_zip"), lambda a: (all(wr(s["d"]) and wr(s["r"]) for s in a.sp) if U(a) else wr(dom(a)) and wr(ran(a))), w="bij")
op("range_reverse", F("isl_{map,union_map}_range_reverse"), lambda a: (all(wr(s["r"]) for s in a.sp) if U(a) else wr(ran(a))), w="bij")
op("flatten_s", F("isl_{set,basic_set}_flatten"), lambda a: not par(a), w="bij")
op("flatten_r", F("isl_{map,basic_map}_flatten"), w="bij")
op("flatten_domain", F("isl_{map,basic_map}_flatten_domain"), w="bij")
op("flatten_range", F("isl_{map,basic_map}_flatten_range"), w="bij")
op("flatten_map", "isl_set_flatten_map", lambda a: not par(a))

op("deltas", F(M3 + "deltas"), lambda a: (all(s["d"] == s["r"] for s in a.sp) if U(a) else dom(a) == ran(a)), weight=1.5)
op("deltas_map", F(M3 + "deltas_map"), lambda a: (all(s["d"] == s["r"] for s in a.sp) if U(a) else dom(a) == ran(a)))
op("sum_r", F("isl_{map,basic_map}_sum").replace("isl_basic_map_sum", ""), lambda a, b: same(a, b) and SMALLP(a, b))
op("sum_s", "isl_set_sum", lambda a, b: same(a, b) and not par(a) and SMALLP(a, b))
OPS[-1].sameparams = OPS[-2].sameparams = True
op("neg_s", F("isl_{set,basic_set}_neg"), lambda a: not par(a), w="bij")
op("neg_r", F("isl_{map,basic_map}_neg"), w="bij")
op("translation", "isl_set_translation", None, weight=0)

for o in ("lt", "le", "gt", "ge"):
    op("lex_%s_s" % o, F("isl_set_lex_%s_set isl_union_set_lex_%s_union_set" % (o, o)),
       lambda a, b: SMALLP(a, b) and (U(a) or not par(a) and a.sp == b.sp), weight=.5)
    op("lex_%s_m" % o, F("isl_map_lex_%s_map isl_union_map_lex_%s_union_map" % (o, o)),
       lambda a, b: SMALLP(a, b) and (U(a) or ran(a) == ran(b)), weight=.5)


def size2(h):
    if U(h):
        return max((size(s["d"]) + size(s["r"]) if isinstance(s, dict) else size(s) for s in h.sp), default=0)
    if h.sp is None:
        return 0
    return size(h.sp) if not isinstance(h.sp, dict) else size(h.sp["d"]) + size(h.sp["r"])


# ---- operations on positions ----
def tuples(h):
    """(type name for the spec, C type, size)"""
    if h.k == "set":
        return [("set", DIM["set"], size(h.sp))]
    if h.k == "map":
        return [("in", DIM["in"], size(dom(h))), ("out", DIM["out"], size(ran(h)))]
    return []


def own_params(S, h):
    import ctypes as C
    lib = S.lib
    out = C.c_void_p()
    lib.dll.vp_space_params.argtypes = [C.c_void_p, C.c_void_p]
    n = lib.dll.vp_space_params(lib.get("isl_%s_get_space" % h.cls)(h.ptr), C.byref(out))
    if n <= 0:
        return []
    s = C.string_at(out.value).decode().split("\n")
    lib.dll.vp_str_free(out)
    return s


def pick_dim(S, h, params=True):
    """(spec type, spec index, C type, C index) of some dimension, or None"""
    R = S.R
    c = [(t, i, ct, i) for t, ct, n in tuples(h) for i in range(n)]
    if params:
        c += [("param", S.world.names.index(p), DIM["param"], j) for j, p in enumerate(own_params(S, h))]
    return R.choice(c) if c else None


def e_fix(S, h):
    d = pick_dim(S, h)
    if not d:
        return None
    v = S.R.randint(-3, 5)
    return [d[2], d[3], v], dict(t=d[0], i=d[1], v=v)


def plain(h):
    return not U(h)


op("fix", F("isl_{set,map,basic_set,basic_map}_fix_si"), plain, e_fix, w="first")
op("lower_bound", F("isl_{set,map,basic_map}_lower_bound_si isl_basic_set_lower_bound_si").replace("isl_basic_set_lower_bound_si", ""), plain, e_fix, w="first")
op("upper_bound", F("isl_{set,map,basic_map}_upper_bound_si"), plain, e_fix, w="first")


def e_two(S, h):
    a, b = pick_dim(S, h), pick_dim(S, h)
    if not a or not b or a == b:
        return None
    return [a[2], a[3], b[2], b[3]], dict(t=a[0], i=a[1], t2=b[0], i2=b[1])


op("equate", F("isl_{map,basic_map}_equate isl_set_equate"), plain, e_two, w="first")
op("oppose", "isl_map_oppose", plain, e_two, w="first")
for o in ("lt", "le", "gt", "ge"):
    op("order_" + o, F("isl_map_order_%s" % o) + (" isl_basic_map_order_" + o if o in ("ge", "gt") else ""), plain, e_two, w="first", weight=.6)


def e_range(S, h, empty=True):
    ts = tuples(h)
    if not ts:
        return None
    t, ct, n = S.R.choice(ts)
    first = S.R.randint(0, n)
    k = S.R.randint(0, n - first)
    if k == 0:
        return None
    return [ct, first, k], dict(t=t, i=first, n=k)


op("project_out", F("isl_{set,map,basic_set,basic_map}_project_out"), plain, e_range, weight=2)


def e_pparam(S, h):
    ps = own_params(S, h)
    if not ps:
        return None
    j = S.R.randrange(len(ps))
    return [DIM["param"], j, 1], dict(t="param", i=S.world.names.index(ps[j]), n=1)


op("project_param", F("isl_{set,map,union_set,union_map}_project_out"), lambda a: size2(a) <= 2 and (par(a) or True), e_pparam, w="never", weight=.8)


def e_pall(S, h):
    return [], dict(t="param")


op("project_all_params", F("isl_{set,map,union_set,union_map}_project_out_all_params"), lambda a: size2(a) <= 2, e_pall, w="never", weight=.4)


def e_insert(S, h):
    ts = [t for t in tuples(h) if size2(h) <= 1]
    if not ts:
        return None
    t, ct, n = S.R.choice(ts)
    pos = S.R.randint(0, n)
    return [ct, pos, 1], dict(t=t, i=pos, n=1)


op("insert_dims", F("isl_{set,map,basic_map}_insert_dims"), plain, e_insert, w="never", weight=.5)


def e_add(S, h):
    ts = [t for t in tuples(h) if size2(h) <= 1]
    if not ts:
        return None
    t, ct, n = S.R.choice(ts)
    return [ct, 1], dict(t=t, i=n, n=1)


op("insert_dims", F("isl_{set,map,basic_set,basic_map}_add_dims"), plain, e_add, w="never", weight=.5)


def e_move(S, h):
    if h.k != "map":
        return None
    d = S.R.randint(0, 1)
    (st, sct, sn), (dt, dct, dn) = (tuples(h)[d], tuples(h)[1 - d])
    sp = S.R.randint(0, sn)
    k = S.R.randint(0, sn - sp)
    if k == 0:
        return None
    dp = S.R.randint(0, dn)
    return [dct, dp, sct, sp, k], dict(dt=dt, dp=dp, st=st, sp=sp, n=k)


op("move_dims", F("isl_{map,basic_map}_move_dims"), lambda a: True, e_move, w="bij")


def e_floordiv(S, h):
    return None


# conversions between representations (same points)
op("same", F("isl_set_from_basic_set isl_map_from_basic_map isl_union_set_from_set isl_union_map_from_map "
             "isl_union_set_from_basic_set isl_union_map_from_basic_map"), lambda a: not par(a), w="bij", weight=.7)
op("simplify", F("isl_{set,map,union_set,union_map}_coalesce"), prop="C03", w="bij", weight=2)
op("simplify", F("isl_{set,map}_make_disjoint"), prop="C03", w="bij")
op("simplify", F("isl_{set,map,union_set,union_map,basic_set,basic_map}_detect_equalities"), prop="C03", w="bij")
op("simplify", F("isl_{set,map,union_set,union_map,basic_set,basic_map}_remove_redundancies"), prop="C03", w="bij")
op("simplify", F("isl_{set,map,union_set,union_map}_compute_divs isl_basic_set_compute_divs isl_basic_map_compute_divs").replace("isl_basic_set_compute_divs isl_basic_map_compute_divs", ""), prop="C03", w="bij")
op("simplify", F("isl_{set,map,basic_set,basic_map}_drop_unused_params"), prop="C03", w="bij")
op("gist", F("isl_{set,map,union_set,union_map,basic_set,basic_map}_gist isl_set_gist_basic_set isl_map_gist_basic_map"),
   lambda a, b: same(a, b), prop="C03", w="gist", weight=3)
OPS[-1].knowndivs = True
op("gist_params", F("isl_{set,map,union_set,union_map}_gist_params"), lambda a, b: par(b) and not par(a), prop="C03", w="gist")
op("gist_domain", F("isl_{map,union_map,basic_map}_gist_domain"), p_dom, prop="C03", w="gist")
OPS[-1].knowndivs = True
op("gist_range", F("isl_{map,union_map}_gist_range"), p_ran, prop="C03", w="gist")

# predicates
QS = []


class Q(Op):
    pass


def q(*a, **k):
    QS.append(Q(*a, **k))


q("is_empty", F(ALL6 + "is_empty"), w="tt", weight=2)
q("plain_is_empty", F("isl_{set,map,union_map,basic_set,basic_map}_plain_is_empty"), w="tt")
q("is_equal", F(ALL6 + "is_equal"), p_same, weight=2)
q("plain_is_equal", F("isl_{set,map,basic_set}_plain_is_equal"), p_same)
q("is_subset", F(ALL6 + "is_subset"), p_same, weight=2)
q("is_strict_subset", F("isl_{set,map,union_set,union_map,basic_map}_is_strict_subset"), p_same, weight=1)
q("is_disjoint", F(ALL6 + "is_disjoint"), p_same, weight=1.5)
q("plain_is_disjoint", "isl_set_plain_is_disjoint", p_same)
q("is_single_valued", F(M3 + "is_single_valued"), weight=1.5)
q("plain_is_single_valued", F("isl_map_plain_is_single_valued"))
q("is_injective", F("isl_{map,union_map}_is_injective"), weight=1.5)
q("plain_is_injective", F("isl_{map,union_map}_plain_is_injective"))
q("is_bijective", F("isl_{map,union_map}_is_bijective"))
# an empty relation between different spaces is not called an identity
q("is_identity", F("isl_{map,union_map}_is_identity"), None,
  lambda S, h: ([], dict(same=int(all(s["d"] == s["r"] for s in h.sp) if U(h) else dom(h) == ran(h)))))
q("is_singleton", "isl_set_is_singleton", lambda a: not par(a))
q("is_bounded", F("isl_{set,basic_set}_is_bounded"), lambda a: True)
q("is_translation", "isl_map_is_translation", weight=0)


def e_inv(S, h):
    d = pick_dim(S, h)
    if not d:
        return None
    return [d[2], d[3], 1], dict(t=d[0], i=d[1])


q("involves_dims", F("isl_{set,map,basic_set,basic_map}_involves_dims"), plain, e_inv)
q("is_universe", F("isl_{set,map}_plain_is_universe isl_{basic_set,basic_map}_is_universe isl_{basic_set,basic_map}_plain_is_universe"), lambda a: a.w == 0)
q("is_wrapping", "isl_set_is_wrapping isl_basic_set_is_wrapping", lambda a: True)
q("is_params", "isl_set_is_params isl_union_set_is_params")
q("domain_is_wrapping", "isl_map_domain_is_wrapping")
q("range_is_wrapping", "isl_map_range_is_wrapping")
q("can_curry", F("isl_{map,basic_map}_can_curry"))
q("can_uncurry", F("isl_{map,basic_map}_can_uncurry"))
q("can_range_curry", "isl_map_can_range_curry")
q("can_zip", F("isl_{map,basic_map}_can_zip"))
q("is_product", "isl_map_is_product")
#q("has_equal_space", F("isl_{set,map,basic_set}_has_equal_space").replace("isl_basic_set_has_equal_space", ""), lambda a, b: True)
