"""Sessions on hulls and over-approximations (C05)."""
import ctypes as C, itertools
import gen, prof_opt as PO, ops_rel
from session import Sess, val_pair
from isl import DIM, size, Undecided

WIN = {0: 12, 1: 12, 2: 6, 3: 3}


def shears(R, n):
    U, V = PO.unimod(R, n)
    while max(abs(c) for r in V for c in r) > 3:
        U, V = PO.unimod(R, n)
    return U, V


def integral(R, sp, names, rngs, lim):
    """a union of integral polyhedra (sheared boxes), and the directions of their facets"""
    m = isinstance(sp, dict)
    it = gen.var_iter()
    if m:
        a, va = gen.names_of(sp["d"], it)
        b, vb = gen.names_of(sp["r"], it)
        tup, vs = a + " -> " + b, va + vb
    else:
        tup, vs = gen.names_of(sp, it)
    n, np = len(vs), len(names)
    out, dirs = [], []
    axis = R.random() < .4
    for _ in range(R.choice([1, 2, 2, 3])):
        if axis or R.random() < .5:
            V = [[int(i == j) for j in range(n)] for i in range(n)]
        else:
            U, V = shears(R, n)
        cs = []
        for i in range(n):
            lo = R.randint(-lim, lim - 1) if R.random() < .8 else 0
            hi = min(lim, lo + R.randint(1 if axis else 0, 3 if n > 1 else 7))
            e = PO.lintext(V[i], vs)
            cs.append("%d <= %s <= %d" % (lo, e, hi) if lo < hi or R.random() < .5 else "%s = %d" % (e, lo))
            dirs.append([0] * np + V[i])
            if np and not axis and R.random() < .3:
                p = R.randrange(np)
                cs.append("%s %s %s + %d" % (e, R.choice(["<=", ">="]), names[p], R.randint(-1, 3)))
                d = [0] * np + V[i]
                d[p] = -1
                dirs.append(d)
        R.shuffle(cs)
        out.append("(" + " and ".join(cs + ([gen.world_context(names, rngs)] if names else [])) + ")")
    pre = "[%s] -> " % ",".join(names) if names else ""
    for i in range(np):
        dirs.append([int(i == j) for j in range(np + n)])
    ds = []
    for d in dirs:
        for e in (d, [-c for c in d]):
            if e not in ds:
                ds.append(e)
    return pre + "{ " + tup + " : " + (" or ".join(out) or "true") + " }", (ds, axis)


def small_dirs(R, n, k=26):
    out = []
    if n == 0:
        return out
    m = 3 if n <= 2 else 2
    if (2 * m + 1) ** n <= 60:
        return [list(d) for d in itertools.product(range(-m, m + 1), repeat=n) if any(d)]
    while len(out) < k:
        d = [R.randint(-2, 2) for _ in range(n)]
        if any(d):
            out.append(d)
    return out


def dim_range(S, h):
    R = S.R
    if h.k == "set":
        t, n = "set", size(h.sp)
    else:
        t = R.choice(["in", "out"])
        n = size(h.sp["d" if t == "in" else "r"])
    ps = ops_rel.own_params(S, h)
    if ps and R.random() < .2:
        t, n = "param", len(ps)
    if n == 0:
        return None
    f = R.randrange(n)
    k = R.randint(1, n - f)
    return t, f, k


def step(S, h, dirs):
    """dirs: facet directions of an integral input, or None"""
    R, lib = S.R, S.lib
    dirs, axis = dirs or (None, False)
    c, W = h.cls, S.W
    basic = c.startswith("basic")
    u = h.isu()
    ofs = [f for f in ("affine_hull", "convex_hull", "simple_hull", "unshifted_simple_hull", "plain_unshifted_simple_hull",
                       "polyhedral_hull", "bounded_simple_hull", "remove_divs", "remove_unknown_divs") if "isl_%s_%s" % (c, f) in lib.fns]
    k = R.random()
    if k < .45:
        f = R.choice(ofs + [g for g in ofs if g in ("affine_hull", "convex_hull", "simple_hull")])
        fn = "isl_%s_%s" % (c, f)
        if f == "affine_hull":
            return S.call("aff", fn, [h], w=W)
        if f in ("remove_divs", "remove_unknown_divs"):
            return S.call("sup" if dirs is None else "exact", fn, [h], w=W)
        if dirs is not None and f in ("convex_hull", "polyhedral_hull"):
            n = len(dirs[0]) if dirs else 0
            return S.call("hull", fn, [h], x=dict(dirs=dirs + small_dirs(R, n)), w=W)
        if dirs is not None and axis and f in ("simple_hull", "bounded_simple_hull") and not u:
            r = S.call("hull", fn, [h], x=dict(dirs=dirs), w=W)
        else:
            r = S.call("sup", fn, [h], w=W)
        if f == "bounded_simple_hull" and r:
            S.call("yes", "isl_basic_set_is_bounded", [r])
        return r
    if u:
        return
    if k < .6:
        d = dim_range(S, h)
        if not d:
            return
        t, f, n = d
        if R.random() < .5:
            w = R.choice(["", "not_"])
            fn = "isl_%s_drop_constraints_%sinvolving_dims" % (c, w)
            if w:
                return S.call("sup", fn, [h], [DIM[t], f, n], dict(t=t, f=f, n=n), w=W)
            return S.call("dropc", fn, [h], [DIM[t], f, n], dict(t=t, f=f, n=n), w=W)
        fn = "isl_%s_eliminate" % c
        if c == "set" and t == "set" and R.random() < .3:
            return S.call("dropc", "isl_set_eliminate_dims", [h], [f, n], dict(t=t, f=f, n=n), w=W)
        return S.call("dropc", fn, [h], [DIM[t], f, n], dict(t=t, f=f, n=n), w=W)
    if k < .7:
        d = dim_range(S, h)
        if not d or d[0] == "param":
            return
        t, f, n = d
        if R.random() < .4:
            return S.call("sup", "isl_%s_remove_divs_involving_dims" % c, [h], [DIM[t], f, n], dict(t=t, f=f, n=n), w=W)
        return S.call("rem", "isl_%s_remove_dims" % c, [h], [DIM[t], f, n], dict(t=t, f=f, n=n), w=W)
    if k < .74:
        d = dim_range(S, h)
        if d and not d[0] == "param":
            fn = "isl_%s_plain_get_val_if_fixed" % c
            if fn in lib.fns:
                S.call("fixed", fn, [h], [DIM[d[0]], d[1]], dict(t=d[0], i=d[1]))
        return
    if k < .78:
        if c == "set" and h.n:
            n = size(h.sp)
            q = R.choice(["dim_is_bounded", "dim_has_upper_bound", "dim_has_lower_bound", "dim_has_any_upper_bound", "dim_has_any_lower_bound"])
            if R.random() < .3:
                return S.call("is_box", "isl_set_is_box", [h])
            if n and not S.world.names:
                S.call("yes_ne", "isl_set_" + q, [h], [DIM["set"], R.randrange(n)])
        return
    if basic:
        return
    if k < .88:
        box(S, h)
    elif k < .95:
        stride(S, h)
    else:
        fromlist(S, h)


def extents(S, h):
    """the sizes of a parameterless box"""
    return None


def get_box(S, sem, fn, h, x=None):
    lib = S.lib
    S.mark("%d {\"op\":\"%s\",\"f\":\"%s\",\"a\":[%d]" % (S.idx, sem, fn, h.id))
    lib.ctx_reset_operations(S.ctx)
    b = lib.get(fn)(h.ptr)
    if not b:
        S.emit(dict(op=sem, f=fn, pr=S.prop, a=[h.id], x=x or {"z": 0}, c=[], g=1 if S.last_error() == 6 else 0, r=0, v=dict(k="err")))
        return
    off = lib.fixed_box_get_offset(b)
    sz = PO.multi_val(lib, lib.fixed_box_get_size(b))["q"]
    v = lib.fixed_box_is_valid(b)
    lib.fixed_box_free(b)
    if v:
        S.adopt(sem, fn, [h], off, "multi_aff", dict(x or {}, valid=v, size=sz), w=S.W)
    else:
        if off:
            lib.multi_aff_free(off)
        S.emit(dict(op=sem, f=fn, pr=S.prop, a=[h.id], x=dict(x or {}, valid=v, size=sz), c=[], g=0, r=0, v=dict(k="fun", w=S.W, p=[])))


def box(S, h, x=None):
    R = S.R
    if h.k == "params" or (h.k == "set" and h.sp is None):
        return
    k = "" if h.k == "set" else "range_"
    if R.random() < .6:
        get_box(S, "fbox", "isl_%s_get_%ssimple_fixed_box_hull" % (h.cls, k), h)
    else:
        get_box(S, "tile", "isl_%s_get_%slattice_tile" % (h.cls, k), h)


def stride(S, h, i=None, exp=None):
    R, lib = S.R, S.lib
    if h.k == "params":
        return
    m = h.k == "map"
    n = size(h.sp["r"] if m else h.sp)
    if n == 0:
        return
    i = R.randrange(n) if i is None else i
    fn = "isl_map_get_range_stride_info" if m else "isl_set_get_stride_info"
    S.mark('%d {"op":"stride","f":"%s","a":[%d]' % (S.idx, fn, h.id))
    lib.ctx_reset_operations(S.ctx)
    si = lib.get(fn)(h.ptr, i)
    if not si:
        S.emit(dict(op="stride", f=fn, pr=S.prop, a=[h.id], x=dict(i=i), c=[], g=1 if S.last_error() == 6 else 0, r=0, v=dict(k="err")))
        return
    st = val_pair(lib, lib.stride_info_get_stride(si))
    off = lib.stride_info_get_offset(si)
    lib.stride_info_free(si)
    if st[0] > 100000:
        lib.aff_free(off)
        return
    S.adopt("stride", fn, [h], off, "aff", dict(i=i, stride=list(st), set=not m), w=S.W)
    if not m and exp:
        S.call("stride_val", "isl_set_get_stride", [h], [i], dict(exp=exp))


def fromlist(S, h):
    R, lib = S.R, S.lib
    if h.cls not in ("set", "map"):
        return
    others = [g for g in S.pool if g.cls == h.cls and g.sp == h.sp]
    ls = [R.choice(others) for _ in range(R.randint(0, 3))] + [h]
    R.shuffle(ls)
    c = h.cls
    lst = lib.get("isl_%s_list_alloc" % c)(S.ctx, 1)
    for g in ls:
        lst = lib.get("isl_%s_list_add" % c)(lst, S.copy(g))
    fn = "isl_%s_unshifted_simple_hull_from_%s_list" % (c, c)
    S.mark('%d {"op":"list","f":"%s","a":[%d]' % (S.idx, fn, h.id))
    lib.ctx_reset_operations(S.ctx)
    r = lib.get(fn)(S.copy(h), lst)
    S.adopt("list", fn, [h] + ls, r, "basic_" + c, w=S.W)


def gen_dims(S):
    """is a dimension of a generated polyhedron bounded"""
    R, lib = S.R, S.lib
    n = R.choice([1, 2, 2, 3])
    U, V = PO.unimod(R, n)
    vs = ["i%d" % i for i in range(n)]
    lo, hi, cs = [], [], []
    for i in range(n):
        a = R.randint(-4, 4)
        b = a + R.randint(1, 6)
        A = [a, 1] if R.random() < .65 else [-1, 0]
        B = [b, 1] if R.random() < .65 else [1, 0]
        lo.append(A)
        hi.append(B)
        e = PO.lintext(V[i], vs)
        if A[1]:
            cs.append("%s >= %d" % (e, a))
        if B[1]:
            cs.append("%s <= %d" % (e, b))
    R.shuffle(cs)
    txt = "{ [%s] : %s }" % (", ".join(vs), " and ".join(cs) or "true")
    s = lib.set_read_from_str(S.ctx, txt.encode())
    j = R.randrange(n)
    q = R.choice(["bounded", "upper", "lower", "any_upper", "any_lower"])
    f = "isl_set_dim_is_bounded" if q == "bounded" else "isl_set_dim_has_%s_bound" % q
    S.raw("gen_dimb", f, [], lambda: lib.get(f)(s, DIM["set"], j), lambda r, e: dict(k="b", b=r) if r >= 0 else dict(k="err"),
          dict(lo=lo, hi=hi, v=[V[i][j] for i in range(n)], q=q, t=txt, j=j))
    lib.set_free(s)


def known(S, names, rngs):
    """inputs whose box, lattice or stride is known"""
    R = S.R
    n = R.choice([1, 1, 2, 2, 3])
    vs = ["i%d" % i for i in range(n)]
    ps = names
    pre = "[%s] -> " % ",".join(ps) if ps else ""
    ctx = [gen.world_context(names, rngs)] if names else []
    k = R.random()
    if k < .5:
        cs, szs = [], []
        for v in vs:
            a = R.randint(-4, 4) if n < 3 else R.randint(-2, 1)
            d = R.randint(0, 5 if n < 3 else 2)
            szs.append([d + 1, 1])
            if ps and R.random() < .5:
                e = "%s%s + %d" % (R.choice(["", "-", "2 * "]), R.choice(ps), a)
                cs.append("%s <= %s <= %s + %d" % (e, v, e, d))
            else:
                cs.append("%d <= %s <= %d" % (a, v, a + d))
        h = S.input("set", pre + "{ [%s] : %s }" % (", ".join(vs), " and ".join(cs + ctx)))
        if h:
            get_box(S, "fbox", "isl_set_get_simple_fixed_box_hull", h, dict(exp=szs))
    elif k < .8:
        cs, szs, es = [], [], []
        for i, v in enumerate(vs):
            a = R.randint(-4, 4) if n < 3 else R.randint(-2, 1)
            m = R.choice([1, 2, 3, 4] if n == 1 else [1, 2, 3])
            es.append("e%d" % i)
            b = "%s%d" % ("%s + " % R.choice(ps) if ps and R.random() < .5 else "", R.randint(-2, 3))
            cs.append("%s = %s + %d e%d and 0 <= e%d <= %d" % (v, b, m, i, i, R.randint(1, 3 if n < 3 else 1)))
            szs.append([m, 1])
        h = S.input("set", pre + "{ [%s] : exists %s : %s }" % (", ".join(vs), ",".join(es), " and ".join(cs + ctx)))
        if h:
            i = R.randrange(n)
            if R.random() < .5:
                get_box(S, "tile", "isl_set_get_lattice_tile", h, dict(exp=szs) if False else None)
            stride(S, h, i)
    else:
        # a periodic set without bounds has a known stride
        m = R.randint(1, 6)
        a = R.randint(-5, 5)
        c = R.choice([1, 1, -1])
        lib = S.lib
        w = R.choice(["exists e: i = %d + %d e" % (a, m), "(%s + %d) mod %d = 0" % ("i" if c > 0 else "-i", -c * a, m), "i = %d + %d * floor((i - %d)/%d)" % (a, m, a, m)])
        t = "{ [%s] : %s }" % ("i, j" if R.random() < .5 else "i", w)
        s = lib.set_read_from_str(S.ctx, t.encode())
        S.raw("stride_val", "isl_set_get_stride", [], lambda: lib.set_get_stride(s, 0), lambda r, e: dict(k="q", q=val_pair(lib, r)) if r else dict(k="err"),
              dict(exp=[m, 1], t=t))
        lib.set_free(s)


def run(lib, R, out, prog, prop, idx):
    world, rngs = gen.rand_world(R, maxp=1 if R.random() < .7 else 2, maxpv=4)
    R.dens = R.choice([None, [2], [3], [2, 4], [2, 3]])
    names = world.names
    nd = R.choice([1, 2, 2, 3])
    S = Sess(lib, R, out, prog, prop, idx, world, W=WIN[nd])
    ctx = gen.world_context(names, rngs)
    leaf = gen.leaf(R.choice(["", "A"]), nd)
    k = R.randint(0, nd)
    sh = [leaf, {"d": gen.leaf("A", k), "r": gen.leaf("B", nd - k)}]
    if R.random() < .3 and nd > 1:
        sh.append(gen.pair(gen.leaf("A", 1), gen.leaf("", nd - 1)))
    ins = []
    for i in range(R.randint(4, 6)):
        sp = R.choice(sh)
        m = isinstance(sp, dict)
        if R.random() < .5:
            t, dirs = integral(R, sp, names, rngs, S.W - 2 if nd > 1 else 8)
            h = S.input(("map" if m else "set") if R.random() < .85 else ("union_map" if m else "union_set"), t)
        else:
            u = R.random() < .15
            b = not u and R.random() < .4
            cls = ("union_" if u else "basic_" if b else "") + ("map" if m else "set")
            sps = [sp] if not u else [sp, {"d": gen.leaf("C", 1), "r": gen.leaf("B", 1)} if m else gen.leaf("C", 1)]
            dirs = None
            h = S.input(cls, gen.text(R, sps, names, ctx, cap=50, rich=1.3, basic=b, divs=R.choice([0, .6])))
        if h:
            ins.append((h, dirs))
    for _ in range(18):
        if R.random() < .1:
            known(S, names, rngs)
            continue
        if R.random() < .06:
            gen_dims(S)
            continue
        if ins:
            step(S, *R.choice(ins))
        ids = [h.id for h, d in ins]
        for h in S.pool[:]:
            if h.id not in ids:
                S.drop(h)
    for h, d in ins:
        if R.random() < .3:
            S.look(h)
    S.close()
    return S.stats
