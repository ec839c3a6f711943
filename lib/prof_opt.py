"""Sessions on lexicographic and numeric optimisation (C04)."""
import ctypes as C, json
import gen, gexpr as G, prof_fun as PF, ops_rel
from session import Sess, val_pair
from isl import DIM, size

MM = ["min", "max"]


def nonempty(h):
    return h.n > 0


def lex(S, h):
    R = S.R
    o = R.choice(MM)
    c = h.cls
    setlike = h.k in ("set", "uset", "params")
    if h.k == "params" or (h.k == "set" and h.sp is None):
        return
    opts = ["isl_%s_lex%s" % (c, o)]
    if c in ("set", "map", "basic_map"):
        f = "isl_%s_lex%s_pw_multi_aff" % (c, o)
        if f in S.lib.fns:
            opts.append(f)
    f = R.choice(opts)
    S.call(("lex_s" if setlike else "lex_r") + ("_fun" if f.endswith("aff") else ""), f, [h], (), dict(o=o))


def partial(S, h, d):
    R, lib = S.R, S.lib
    o = R.choice(MM)
    c = h.cls
    setlike = h.k == "set"
    opts = ["isl_%s_partial_lex%s" % (c, o)]
    f = "isl_%s_partial_lex%s_pw_multi_aff" % (c, o)
    if f in lib.fns:
        opts.append(f)
    f = R.choice(opts)
    p = lib.fns[f]
    out = C.c_void_p()
    want = R.random() < .8
    S.mark(json.dumps(S.idx) + ' {"op":"partial","f":"%s","a":[%d,%d]' % (f, h.id, d.id))
    fn = lib.get(f)
    lib.ctx_reset_operations(S.ctx)
    res = fn(S.copy(h), S.copy(d), C.byref(out) if want else None)
    sem = ("part_s" if setlike else "part_r")
    box = S.box([h, d])
    S.adopt(sem + ("_fun" if f.endswith("aff") else ""), f, [h, d], res, p.ret.replace("*", "").strip()[4:], dict(o=o), box=box)
    if want:
        S.adopt(sem + "_empty", f, [h, d], out.value, "set", dict(o=o), box=box)


def dims(S, h):
    R = S.R
    o = R.choice(MM)
    k = R.random()
    setlike = h.k == "set"
    n = size(h.sp if setlike else h.sp["r"])
    if n == 0:
        return
    i = R.randrange(n)
    if k < .4:
        if h.cls not in ("set", "map"):
            return
        return S.call("dim_s" if setlike else "dim_r", "isl_%s_dim_%s" % (h.cls, o), [h], [i], dict(o=o, i=i))
    if k < .7:
        if h.cls not in ("set", "map"):
            return
        return S.call("mpa_s" if setlike else "mpa_r", "isl_%s_%s_multi_pw_aff" % (h.cls, o), [h], (), dict(o=o))
    if not setlike:
        return
    f = "isl_%s_dim_%s_val" % (h.cls, o)
    if f in S.lib.fns:
        S.call("dim_val", f, [h], [i], dict(o=o, i=i))


def linobj(S, vs, ps):
    """an affine objective, sometimes with integer divisions"""
    Sc = G.Sc(S.R, ps, vs)
    return G.expr(Sc, S.R.choice([0, 0, 0, 1]))


def objective(S, h):
    """minimise an affine expression over a set"""
    R, lib = S.R, S.lib
    if h.k != "set":
        return
    o = R.choice(MM)
    it = gen.var_iter("i")
    tup, vs = PF.names_for(h.sp, it)
    # same parameters as the set
    ps = S.world.names
    own = ops_rel.own_params(S, h)
    if list(own) != list(ps):
        return
    t, a = linobj(S, vs, ps)
    txt = "%s{ %s -> [(%s)] }" % ("[%s] -> " % ", ".join(ps) if ps else "", tup, t)
    aff = lib.aff_read_from_str(S.ctx, txt.encode())
    if not aff:
        S.last_error()
        return
    f = "isl_%s_%s_val" % (h.cls, o)
    if f not in lib.fns:
        f = "isl_basic_set_max_val"
        o = "max"
    S.raw("obj_val", f, [h], lambda: lib.get(f)(h.ptr, aff), lambda r, e: dict(k="q", q=val_pair(lib, r)) if r else dict(k="err"),
          dict(o=o, e=a, t=txt))
    lib.aff_free(aff)


def multi_val(lib, mv):
    n = lib.multi_val_dim(mv, DIM["set"])
    out = [val_pair(lib, lib.multi_val_get_at(mv, i)) for i in range(n)]
    lib.multi_val_free(mv)
    return dict(k="mq", q=out)


def ofun(S, h):
    R, lib = S.R, S.lib
    o = R.choice(MM)
    if h.cls in ("pw_aff", "union_pw_aff"):
        return S.call("fun_val", "isl_%s_%s_val" % (h.cls, o), [h], (), dict(o=o))
    if h.cls in ("pw_multi_aff", "multi_pw_aff", "multi_union_pw_aff"):
        f = "isl_%s_%s_multi_val" % (h.cls, o)
        if h.isu():
            if not h.sp:
                return
            n = size(h.sp[0]["r"])
        else:
            n = size(h.sp["r"])
        if n == 0:
            return
        S.raw("fun_mval", f, [h], lambda: lib.get(f)(S.copy(h)), lambda r, e: multi_val(lib, r) if r else dict(k="err"), dict(o=o, n=n))


def make_fun(S, cls, ds, rs):
    """an integer valued function with a bounded domain"""
    R = S.R
    ps = S.world.names
    pre = "[%s] -> " % ", ".join(ps) if ps else ""
    if cls == "multi_pw_aff":
        it = gen.var_iter("i")
        tup, vs = PF.names_for(ds, it)
        Sc = G.Sc(R, ps, vs)
        comps = []
        pcs = [([], [])]
        texts = []
        # components on one domain: each has its own otherwise
        c0 = G.conj([G.bounded(Sc, 5 if len(vs) < 2 else 3, .4)] + S.pctx)
        for k in range(size(rs)):
            e = G.expr(Sc, 1)
            texts.append("%s : %s" % (e[0], c0[0]))
            pcs = [(es + [e[1]], cs + [c0[1]]) for es, cs in pcs]
        rt, _ = PF.fill(rs, texts)
        txt = pre + "{ %s -> %s }" % (tup, rt)
        pcs = [dict(c=dict(o="and", l=cs), e=es, ds=ds, rs=rs) for es, cs in pcs]
        return PF.read(S, cls, txt, dict(pc=pcs, w=6), 0)
    out, pcs = [], []
    for d in (ds if isinstance(ds[0], list) else [ds]):
        it = gen.var_iter("i")
        tup, vs = PF.names_for(d, it)
        Sc = G.Sc(R, ps, vs)
        prev = []
        for _ in range(R.choice([1, 2, 2])):
            es = [G.expr(Sc, 1, pw=False) for k in range(size(rs))]
            c0 = G.conj([G.bounded(Sc, 5 if len(vs) < 2 else 3, .5)] + S.pctx)
            full = G.conj([c0] + [G.neg(q) for q in prev])
            prev.append(c0)
            rt, _ = PF.fill(rs, [e[0] for e in es])
            out.append("%s -> %s : %s" % (tup, rt, full[0]))
            pcs.append(dict(c=full[1], e=[e[1] for e in es], ds=d, rs=rs))
    txt = pre + "{ " + "; ".join(out) + " }"
    return PF.read(S, cls, txt, dict(pc=pcs, w=6, empty=1), 0)


def unimod(R, n):
    """a unimodular matrix and its inverse"""
    U = [[int(i == j) for j in range(n)] for i in range(n)]
    V = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(R.randint(0, 2 * n)):
        if n == 1:
            break
        i, j = R.sample(range(n), 2)
        c = R.choice([1, -1, 2, -2])
        for r in U:                     # column j of U += c * column i;  row i of V -= c * row j
            r[j] += c * r[i]
        for t in range(n):
            V[i][t] -= c * V[j][t]
    return U, V


def lintext(co, vs):
    s = ""
    for c, v in zip(co, vs):
        s += gen.term(None, c, v, not s)
    return s or "0"


def generated(S, kinds=("val", "bounded")):
    """optimum over a polyhedron that may be unbounded or empty"""
    R, lib = S.R, S.lib
    n = R.choice([1, 2, 2, 3])
    U, V = unimod(R, n)
    vs = ["i%d" % i for i in range(n)]
    lo, hi, cs = [], [], []
    for i in range(n):
        a = R.randint(-4, 4)
        b = a + R.randint(-1 if R.random() < .1 else 0, 6)
        A = [a, 1] if R.random() < .75 else [-1, 0]
        Bq = [b, 1] if R.random() < .75 else [1, 0]
        lo.append(A)
        hi.append(Bq)
        e = lintext(V[i], vs)
        d = R.choice([1, 1, 2, 3])
        if A[1]:
            cs.append("%s >= %d" % (e, a) if d == 1 else "%d * (%s) >= %d" % (d, e, d * a - R.randint(0, d - 1)))
        if Bq[1]:
            cs.append("%s <= %d" % (e, b) if d == 1 else "%d * (%s) <= %d" % (d, e, d * b + R.randint(0, d - 1)))
    R.shuffle(cs)
    txt = "{ [%s] : %s }" % (", ".join(vs), " and ".join(cs) or "true")
    cls = R.choice(["set", "basic_set"])
    ptr = lib.get("isl_%s_read_from_str" % cls)(S.ctx, txt.encode())
    if R.random() < .3 or "bounded" in kinds and R.random() < .3:
        f = "isl_%s_is_bounded" % cls
        S.raw("gen_bounded", f, [], lambda: lib.get(f)(ptr), lambda r, e: dict(k="b", b=r) if r >= 0 else dict(k="err"), dict(lo=lo, hi=hi, t=txt))
    o = R.choice(MM)
    k = R.randint(-3, 3)
    if R.random() < .3:
        # a coordinate
        i = R.randrange(n)
        co = [int(j == i) for j in range(n)]
        k = 0
        f = "isl_%s_dim_%s_val" % (cls, o)
        if f not in lib.fns:
            f, o = "isl_basic_set_dim_max_val", "max"
        call = lambda: lib.get(f)(lib.get("isl_%s_copy" % cls)(ptr), i)
        aff = None
    else:
        co = [R.choice([0, 1, -1, 2, -3, 3]) for _ in range(n)]
        if R.random() < .5:
            # an objective that is bounded
            co = [0] * n
            for i in range(n):
                if lo[i][1] or hi[i][1]:
                    c = R.choice([0, 1, -1, 2, -2])
                    co = [a + c * b for a, b in zip(co, V[i])]
        f = "isl_%s_%s_val" % (cls, o)
        if f not in lib.fns:
            f, o = "isl_basic_set_max_val", "max"
        aff = lib.aff_read_from_str(S.ctx, ("{ [%s] -> [(%s + %d)] }" % (", ".join(vs), lintext(co, vs), k)).encode())
        call = lambda: lib.get(f)(ptr, aff)
    cu = [sum(co[i] * U[i][j] for i in range(n)) for j in range(n)]
    S.raw("gen_val", f, [], call, lambda r, e: dict(k="q", q=val_pair(lib, r)) if r else dict(k="err"),
          dict(lo=lo, hi=hi, cu=cu, k=k, o=o, t=txt, co=co))
    if aff:
        lib.aff_free(aff)
    lib.get("isl_%s_free" % cls)(ptr)


def run(lib, R, out, prog, prop, idx):
    world, rngs = gen.rand_world(R)
    R.dens = R.choice([None, [2], [3], [2, 4], [2, 3]])
    S = Sess(lib, R, out, prog, prop, idx, world, W=6)
    S.focus = None
    names = world.names
    ctx = gen.world_context(names, rngs)
    S.pctx = [G.within(None, n, dict(o="p", i=i), r[0], r[-1]) for i, (n, r) in enumerate(zip(names, rngs))]
    d1 = gen.leaf(R.choice(["", "A"]), R.choice([1, 1, 2, 0]))
    r1 = gen.rand_shape(R, R.choice([1, 2, 2, 3]), nest=.2)
    if size(d1) + size(r1) > 4:
        r1 = gen.leaf("B", 1)
    sh = [{"d": d1, "r": r1}, r1]
    for i in range(R.randint(5, 8)):
        sp = R.choice(sh)
        m = isinstance(sp, dict)
        u = R.random() < .12
        b = not u and R.random() < .35
        cls = ("union_" if u else "basic_" if b else "") + ("map" if m else "set")
        sps = [sp] if not u else [sp, R.choice([sp, {"d": r1, "r": d1} if m else d1])]
        sps = [s for j, s in enumerate(sps) if s not in sps[:j]]
        S.input(cls, gen.text(R, sps, names, ctx, cap=60, rich=1.3, basic=b, divs=R.choice([0, .6])))
    doms = []
    for i in range(2):
        b = R.random() < .5
        h = S.input("basic_set" if b else "set", gen.text(R, [d1], names, ctx, cap=40, rich=.8, basic=b))
        doms.append(h)
        if names:
            h = S.input("basic_set" if b else "set", "[%s] -> { : %s and %s }" % (",".join(names), ctx, gen.constraint(R, [], names)))
            doms.append(h)
    doms = [h for h in doms if h]
    fs = []
    for i in range(R.randint(1, 3)):
        cls = R.choice(["pw_aff", "pw_multi_aff", "multi_pw_aff", "union_pw_aff"])
        ds = gen.leaf(R.choice(["", "A"]), R.choice([1, 2]))
        if cls == "union_pw_aff":
            ds = [gen.leaf("A", 1), gen.leaf("B", 1)]
        rs = gen.leaf("", 1) if cls.endswith("pw_aff") and not cls.startswith("multi") else gen.leaf(R.choice(["", "R"]), R.choice([1, 2, 3]))
        fs.append(make_fun(S, cls, ds, rs))
    fs = [h for h in fs if h]
    for h in fs[:]:
        if h.cls == "multi_pw_aff" and R.random() < .5:
            g = S.call("same", "isl_multi_union_pw_aff_from_multi_pw_aff", [h])
            if g:
                fs.append(g)
    rel = [h for h in S.pool if h not in doms and h not in fs]
    rel = [h for h in rel if h.k not in ("fun", "ufun")]
    for _ in range(22):
        k = R.random()
        if k < .3 and rel:
            lex(S, R.choice(rel))
        elif k < .55 and rel and doms:
            h = R.choice(rel)
            if h.isu() or h.k == "params":
                continue
            basic = h.cls.startswith("basic")
            c = [d for d in doms if (d.k == "params" if h.k == "set" else d.k == "set" and d.sp == h.sp["d"]) and
                 d.cls.startswith("basic") == basic]
            c = [d for d in c if not basic or list(ops_rel.own_params(S, d)) == list(ops_rel.own_params(S, h))]
            if c:
                partial(S, h, R.choice(c))
        elif k < .7 and rel:
            h = R.choice(rel)
            if not h.isu() and h.k != "params":
                dims(S, h)
        elif k < .8 and rel:
            objective(S, R.choice(rel))
        elif k < .88 and fs:
            ofun(S, R.choice(fs))
        else:
            generated(S)
        for h in S.pool[:]:
            if h not in rel and h not in doms and h not in fs and R.random() < .5:
                S.drop(h)
    for h in S.pool[:]:
        if R.random() < .3:
            S.look(h)
    S.close()
    return S.stats
