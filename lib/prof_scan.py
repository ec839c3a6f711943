"""Sessions on points: sampling, scanning, counting (C06)."""
import ctypes as C, json
import gen, prof_opt as PO, ops_rel
from session import Sess, val_pair
import isl as I
from isl import DIM, size

CB = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)


def build(sp, c):
    """the point of shape sp with coordinates c"""
    if len(sp) == 2:
        return [sp[0], list(c)]
    k = size(sp[1])
    return [sp[0], build(sp[1], c[:k]), build(sp[2], c[k:])]


def flat(x):
    return list(x[1]) if len(x) == 2 else flat(x[1]) + flat(x[2])


def pt_val(S, p, sp=None):
    """keep a point -> its value"""
    lib = S.lib
    if not p:
        return dict(k="err")
    void = lib.point_is_void(p)
    s = lib.point_get_space(p)
    names = [C.c_char_p(0)] * 0
    np = lib.space_dim(s, DIM["param"])
    n = lib.space_dim(s, DIM["set"])
    own = [lib.space_get_dim_name(s, DIM["param"], i).decode() for i in range(np)]
    sh = I.shape(lib, s)          # takes the space
    if void:
        return dict(k="pt", void=1, v=[0] * len(S.world.names), x=build(sh or ["", 0], [0] * n))
    co = [val_pair(lib, lib.point_get_coordinate_val(p, DIM["set"], i)) for i in range(n)]
    pv = {o: val_pair(lib, lib.point_get_coordinate_val(p, DIM["param"], i)) for i, o in enumerate(own)}
    if any(d != 1 for _, d in co) or any(d != 1 for _, d in pv.values()):
        return dict(k="err", e="fraction")
    v = [pv[nm][0] if nm in pv else None for nm in S.world.names]
    if None in v:
        # a parameter the object does not mention: any value
        for w in S.world.pvs:
            if all(a is None or a == b for a, b in zip(v, w)):
                v = list(w)
                break
        else:
            return dict(k="err", e="params")
    return dict(k="pt", void=0, v=v, x=build(sh or ["", 0], [a for a, _ in co]))


def take_pt(S, p):
    v = pt_val(S, p)
    if p:
        S.lib.point_free(p)
    return v


def visit(S, f, ptr, stop):
    lib, l = S.lib, []

    def cb(p, u):
        l.append(take_pt(S, p))
        return -1 if stop and len(l) >= stop else 0
    c = CB(cb)
    st = lib.get(f)(ptr, C.cast(c, C.c_void_p), None)
    return dict(k="pts", st=st, stop=stop, l=l)


def step(S, h):
    R, lib = S.R, S.lib
    c = h.cls
    k = R.random()
    if k < .3:
        f = "isl_%s_sample_point" % c
        if f in lib.fns:
            return S.raw("sample_pt", f, [h], lambda: lib.get(f)(S.copy(h)), lambda r, e: take_pt(S, r))
    if k < .55:
        f = "isl_%s_sample" % c
        if h.isu():
            p = lib.fns[f]
            return S.raw("sample", f, [h], lambda: lib.get(f)(S.copy(h)), lambda r, e: as_union(S, r, p))
        return S.call("sample", f, [h])
    f = "isl_%s_foreach_point" % c
    if k < .8 and f in lib.fns and h.n <= 120:
        stop = 0 if R.random() < .7 else R.randint(1, h.n + 2)
        own = None
        return S.raw("visit", f, [h], lambda: visit(S, f, h.ptr, stop), lambda r, e: r)
    f = "isl_%s_count_val" % c
    if f in lib.fns:
        return S.call("count", f, [h])


def as_union(S, ptr, p):
    """the value of a sampled basic set or map of a union"""
    cls = p.ret.replace("*", "").strip()[4:]
    lib = S.lib
    if not ptr:
        return dict(k="err")
    try:
        if I.shape(lib, lib.get("isl_%s_get_space" % cls)(ptr)) in (None,):
            # nothing was sampled
            return dict(k="uset", w=0, p=[])
        js, sp, n, m = S.project(cls, ptr, 1500, 0)
    finally:
        S.free_ptr(cls, ptr)
    return js.replace('{"k":"set"', '{"k":"uset"').replace('{"k":"map"', '{"k":"umap"')


def generated(S):
    R, lib = S.R, S.lib
    n = R.choice([1, 2, 2, 3, 3, 4])
    U, V = PO.unimod(R, n)
    for _ in range(R.choice([0, 0, 1])):
        U2, V2 = PO.unimod(R, n)
        V3 = [[sum(V[i][t] * V2[t][j] for t in range(n)) for j in range(n)] for i in range(n)]
        if max(abs(a) for r in V3 for a in r) < 60:
            V = V3
    vs = ["i%d" % i for i in range(n)]
    lo, hi, cs, ms, rs, es = [], [], [], [], [], []
    for i in range(n):
        a = R.randint(-6, 6)
        b = a + R.randint(-1 if R.random() < .15 else 0, 3)
        A = [a, 1] if R.random() < .8 else [-1, 0]
        B = [b, 1] if R.random() < .8 else [1, 0]
        lo.append(A)
        hi.append(B)
        e = PO.lintext(V[i], vs)
        d = R.choice([1, 1, 2, 3, 5])
        if A[1]:
            cs.append("%s >= %d" % (e, a) if d == 1 else "%d * (%s) >= %d" % (d, e, d * a - R.randint(0, d - 1)))
        if B[1]:
            cs.append("%s <= %d" % (e, b) if d == 1 else "%d * (%s) <= %d" % (d, e, d * b + R.randint(0, d - 1)))
        m, r = (R.choice([2, 3, 4]), R.randint(0, 3)) if R.random() < .2 else (0, 0)
        ms.append(m)
        rs.append(r)
        if m:
            cs.append(R.choice(["(%s - %d) mod %d = 0" % (e, r, m), "(exists e%d: %s = %d e%d + %d)" % (i, e, m, i, r)]))
    R.shuffle(cs)
    txt = "{ [%s] : %s }" % (", ".join(vs), " and ".join(cs) or "true")
    cls = R.choice(["set", "basic_set"])
    ptr = lib.get("isl_%s_read_from_str" % cls)(S.ctx, txt.encode())
    x = dict(lo=lo, hi=hi, v=V, m=ms, r=rs, t=txt)
    k = R.random()
    if k < .5:
        f = "isl_%s_sample_point" % cls
        S.raw("gen_sample", f, [], lambda: lib.get(f)(lib.get("isl_%s_copy" % cls)(ptr)), lambda r, e: take_pt(S, r), x)
    elif k < .75:
        f = "isl_%s_is_empty" % cls
        S.raw("gen_empty", f, [], lambda: lib.get(f)(ptr), lambda r, e: dict(k="b", b=r) if r >= 0 else dict(k="err"), x)
    elif cls == "set":
        f = "isl_set_count_val"
        S.raw("gen_count", f, [], lambda: lib.get(f)(ptr), lambda r, e: dict(k="q", q=val_pair(lib, r)) if r else dict(k="err"), x)
    lib.get("isl_%s_free" % cls)(ptr)


def mk(S, sp):
    """a point with random coordinates and its value"""
    R, lib = S.R, S.lib
    names = S.world.names
    it = gen.var_iter()
    tup, vs = gen.names_of(sp, it)
    t = "%s{ %s }" % ("[%s] -> " % ",".join(names) if names else "", tup)
    s = lib.set_read_from_str(S.ctx, t.encode())
    spc = lib.set_get_space(s)
    lib.set_free(s)
    if R.random() < .08:
        p = lib.point_void(spc)
        return p, dict(k="pt", void=1, v=[0] * len(names), x=build(sp, [0] * size(sp)))
    p = lib.point_zero(spc)
    v = list(R.choice(S.world.pvs))
    c = [R.randint(-6, 6) for _ in range(size(sp))]
    for i, a in enumerate(v):
        p = lib.point_set_coordinate_val(p, DIM["param"], i, lib.val_int_from_si(S.ctx, a))
    for i, a in enumerate(c):
        p = lib.point_set_coordinate_val(p, DIM["set"], i, lib.val_int_from_si(S.ctx, a))
    return p, dict(k="pt", void=0, v=v, x=build(sp, c))


def points(S, shapes):
    R, lib = S.R, S.lib
    sp = R.choice(shapes)
    p, pt = mk(S, sp)
    for _ in range(R.randint(2, 4)):
        k = R.random()
        t, n = ("set", size(sp)) if R.random() < .7 else ("param", len(S.world.names))
        i = R.randrange(n) if n else 0
        if k < .4 and n and not pt["void"]:
            q = R.choice(["set", "add", "sub"])
            a = R.randint(-5, 5) if q == "set" else R.randint(0, 4)
            if q == "set":
                f, g = "isl_point_set_coordinate_val", lambda: lib.point_set_coordinate_val(keep, DIM[t], i, lib.val_int_from_si(S.ctx, a))
            else:
                f = "isl_point_%s_ui" % q
                g = lambda: lib.get(f)(keep, DIM[t], i, a)
            keep = lib.point_copy(p)
            res = []

            def call():
                res.append(g())
                return res[0]
            S.raw("pt_step", f, [], call, lambda r, e: pt_val(S, r), dict(q=q, t=t, i=i, n=a, pt=pt))
            # the point it was made from is as before
            if n:
                S.raw("pt_get", "isl_point_get_coordinate_val", [], lambda: lib.point_get_coordinate_val(p, DIM[t], i),
                      lambda r, e: dict(k="q", q=val_pair(lib, r)) if r else dict(k="err"), dict(t=t, i=i, pt=pt))
            if res and res[0]:
                lib.point_free(p)
                p = res[0]
                pt = pt_val(S, p)
        elif k < .5:
            S.raw("pt_void", "isl_point_is_void", [], lambda: lib.point_is_void(p), lambda r, e: dict(k="b", b=r), dict(pt=pt))
        elif k < .6:
            if pt["void"]:
                continue
            S.raw("pt_mv", "isl_point_get_multi_val", [], lambda: lib.point_get_multi_val(p),
                  lambda r, e: PO.multi_val(lib, r) if r else dict(k="err"), dict(pt=pt))
        elif k < .8:
            f = R.choice(["isl_basic_set_from_point", "isl_set_from_point", "isl_union_set_from_point", "isl_point_to_set"])
            cls = lib.fns[f].ret.replace("*", "").strip()[4:]
            if pt["void"]:       # fails: a void point has no set
                continue
            S.adopt("pt_set", f, [], lib.get(f)(lib.point_copy(p)), cls, dict(pt=pt), box=60)
        else:
            q, qt = mk(S, sp)
            if S.R.random() < .5:
                # corners in order on some dimensions only
                pass
            f = R.choice(["isl_basic_set_box_from_points", "isl_set_box_from_points"])
            vol = 1
            for a, b in zip(flat(pt["x"]), flat(qt["x"])):
                vol *= abs(a - b) + 1
            if vol <= 150:
                cls = lib.fns[f].ret.replace("*", "").strip()[4:]
                S.adopt("pt_box", f, [], lib.get(f)(lib.point_copy(p), lib.point_copy(q)), cls, dict(a=pt, b=qt), box=60)
            lib.point_free(q)
    lib.point_free(p)


def run(lib, R, out, prog, prop, idx):
    world, rngs = gen.rand_world(R, maxp=1 if R.random() < .7 else 2, maxpv=6)
    R.dens = R.choice([None, [2], [3], [2, 4], [2, 3]])
    names = world.names
    S = Sess(lib, R, out, prog, prop, idx, world, W=6)
    ctx = gen.world_context(names, rngs)
    shapes = [gen.rand_shape(R, R.choice([0, 1, 2, 2, 3]), nest=.3) for _ in range(2)]
    sh = shapes + [{"d": gen.leaf("A", 1), "r": gen.leaf("B", R.choice([1, 2]))}]
    for i in range(R.randint(4, 7)):
        sp = R.choice(sh)
        m = isinstance(sp, dict)
        u = R.random() < .2
        b = not u and R.random() < .4
        cls = ("union_" if u else "basic_" if b else "") + ("map" if m else "set")
        sps = [sp] if not u else [sp, {"d": gen.leaf("C", 1), "r": gen.leaf("B", 1)} if m else gen.leaf("C", 1)]
        S.input(cls, gen.text(R, sps, names, ctx, cap=R.choice([20, 60]), rich=1.5, basic=b, divs=R.choice([0, .6])))
    ins = list(S.pool)
    for _ in range(20):
        k = R.random()
        if k < .6 and ins:
            step(S, R.choice(ins))
        elif k < .85:
            generated(S)
        else:
            points(S, shapes)
        for h in S.pool[:]:
            if h not in ins:
                S.drop(h)
    for h in ins:
        if R.random() < .3:
            S.look(h)
    S.close()
    return S.stats
