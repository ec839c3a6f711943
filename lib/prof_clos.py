"""Sessions on transitive closures, powers and path lengths (C09)."""
import ctypes as C, json
import gen, gexpr as G, isl as I
from session import Sess


def exflag(lib, f, ptr):
    b = C.c_int(-7)
    r = lib.get(f)(ptr, C.byref(b))
    return r, b.value


def value(S, cls, res, box, cap, keep):
    """result of a call -> recorded value; keep(pv, x, y): part of the window"""
    ptr, ex = res
    if not ptr:
        return dict(k="err")
    try:
        js, sp, n, m = S.project(cls, ptr, box, 0, cap)
    finally:
        S.free_ptr(cls, ptr)
    v = json.loads(js)
    if v["k"] == "big":
        return v
    if keep:
        v["p"] = [e for e in v["p"] if keep(*e)]
    v["ex"] = ex
    return v


def finite(S, h):
    """one question about a relation the caller holds"""
    R, lib, c = S.R, S.lib, h.cls
    u = "union_" if h.isu() else ""
    box = max(8, 2 * h.m + 2)
    k = R.random()
    K = R.choice([2, 3, 4])
    if k < .5:
        f = "isl_%smap_transitive_closure" % u
        return S.raw("closure", f, [h], lambda: exflag(lib, f, S.copy(h)), lambda r, e: value(S, c, r, box, 3000, None))
    if k < .7:
        f = "isl_%smap_power" % u
        return S.raw("power", f, [h], lambda: exflag(lib, f, S.copy(h)),
                     lambda r, e: value(S, c, r, box, 6000, lambda v, x, y: x[1][0] <= K), dict(K=K))
    if k < .85 and not u:
        f = "isl_map_reaching_path_lengths"
        return S.raw("lengths", f, [h], lambda: exflag(lib, f, S.copy(h)),
                     lambda r, e: value(S, c, r, box, 3000, lambda v, x, y: y[1][0] <= K), dict(K=K))
    f = "isl_%smap_fixed_power_val" % u
    n = R.choice([1, 2, 3, 4, 5, 6, 8, -1, -2, -3, -5])
    return S.raw("fixed_power", f, [h], lambda: (lib.get(f)(S.copy(h), lib.val_int_from_si(S.ctx, n)), 0),
                 lambda r, e: value(S, c, r, box, 3000, None), dict(k=n))


def rule(S):
    """a relation given by distances and conditions, not bounded in general"""
    R, lib = S.R, S.lib
    n = R.choice([1, 1, 2])
    ps = S.world.names
    src = ["i", "j"][:n]
    dst = ["o", "q"][:n]
    sc = G.Sc(R, ps, src + dst)
    md = 3 if n == 1 else 2
    tag = R.choice(["", "A"])
    mono = R.random() < .5
    free = R.random() < .4
    parts, txt = [], []
    for _ in range(R.choice([1, 1, 1, 2, 2, 3])):
        lo, hi = [], []
        for i in range(n):
            a = R.randint(-md, md)
            if i == 0 and mono:
                a = R.randint(1, md)
            b = a if R.random() < .7 else min(md, a + R.randint(0, 2))
            lo.append(a)
            hi.append(b)
        cs = []
        if not free:
            for _ in range(R.choice([0, 1, 1, 2])):
                cs.append(G.cmp(sc, R.choice([0, 0, 1])) if R.random() < .8 else G.cond(sc, 1))
        t, a = G.conj(cs) if cs else ("true", dict(o="true"))
        ds = []
        for i in range(n):
            if lo[i] == hi[i]:
                ds.append("%s = %s + %d" % (dst[i], src[i], lo[i]))
            else:
                ds.append("%s + %d <= %s <= %s + %d" % (src[i], lo[i], dst[i], src[i], hi[i]))
        parts.append(dict(lo=lo, hi=hi, c=a))
        txt.append("%s[%s] -> %s[%s] : %s and (%s)" % (tag, ",".join(src), tag, ",".join(dst), " and ".join(ds), t))
    text = ("[%s] -> " % ",".join(ps) if ps else "") + "{ " + "; ".join(txt) + " }"
    X, W, B = (3, 6, 14) if n == 1 else (1, 3, 10)
    u = R.choice(["", "", "union_"])
    c = u + "map"
    ptr = lib.get("isl_%s_read_from_str" % c)(S.ctx, text.encode())
    if not ptr:
        S.last_error()
        return
    x = dict(n=n, tag=tag, parts=parts, t=text, X=X, W=W, B=B)
    near = lambda p, b: all(-b <= a <= b for a in p[1])
    cp = lambda: lib.get("isl_%s_copy" % c)(ptr)
    k = R.random()
    K = R.choice([2, 3])
    if k < .55:
        f = "isl_%s_transitive_closure" % c
        S.raw("r_closure", f, [], lambda: exflag(lib, f, cp()),
              lambda r, e: value(S, c, r, W, 4000, lambda v, a, b: near(a, X) and near(b, W)), x)
    elif k < .7:
        f = "isl_%s_power" % c
        S.raw("r_power", f, [], lambda: exflag(lib, f, cp()),
              lambda r, e: value(S, c, r, W, 9000, lambda v, q, y: q[1][0] <= K and near(y[1], X) and near(y[2], W)), dict(x, K=K))
    elif k < .85 and not u:
        f = "isl_map_reaching_path_lengths"
        S.raw("r_lengths", f, [], lambda: exflag(lib, f, cp()),
              lambda r, e: value(S, c, r, W, 4000, lambda v, a, b: near(a, X) and b[1][0] <= K), dict(x, K=K))
    else:
        f = "isl_%s_fixed_power_val" % c
        q = R.choice([2, 3, 4, 5])
        S.raw("r_fixed_power", f, [], lambda: (lib.get(f)(cp(), lib.val_int_from_si(S.ctx, q)), 0),
              lambda r, e: value(S, c, r, W, 4000, lambda v, a, b: near(a, X) and near(b, W)), dict(x, k=q))
    S.free_ptr(c, ptr)


def chain(R, ps, width, tag="A", n=1):
    """text of a bounded relation made of distances within a domain"""
    it = ["i", "j"][:n], ["o", "q"][:n]
    out = []
    for _ in range(R.choice([1, 1, 2, 2, 3])):
        cs = []
        for a, b in zip(*it):
            lo = R.randint(-2, 1)
            hi = lo + R.randint(1, width)
            p = R.choice([str(hi)] + ["%s + %d" % (q, R.randint(0, 2)) for q in ps])
            cs.append("%d <= %s <= %d" % (lo, a, hi) if R.random() < .5 else "%d <= %s,%s <= %d" % (lo, a, b, hi))
            if R.random() < .4:
                cs.append("%s <= %s" % (R.choice([a, b]), p))
            k = R.random()
            if k < .5:
                cs.append("%s = %s + %d" % (b, a, R.choice([1, 1, 2, -1, 3, 0])))
            elif k < .7:
                d = R.choice([1, 1, -2, 2])
                cs.append("%s + %d <= %s <= %s + %d" % (a, d, b, a, d + R.randint(0, 2)))
            elif k < .8 and ps:
                cs.append("%s = %s + %s" % (b, a, R.choice(ps)))
            elif k < .9:
                cs.append("%d <= %s <= %d" % (lo, b, lo + 1))
                cs.append("%s = %d * %s + %d" % (b, R.choice([-1, 2, 3]), a, R.randint(-1, 1)))
            else:
                cs.append("%s = %d and %s = %d" % (a, R.randint(lo, hi), b, R.randint(lo, hi)))
        if R.random() < .25:
            cs.append("%s mod %d = %d" % (R.choice(it[0] + it[1]), 2, R.randint(0, 1)))
        if n == 2 and R.random() < .4:
            cs.append(R.choice(["i <= j", "i + j <= 3", "o >= q", "j = q"]))
        out.append("(" + " and ".join(cs) + ")")
    return "%s[%s] -> %s[%s] : %s" % (tag, ",".join(it[0]), tag, ",".join(it[1]), " or ".join(out))


def run(lib, R, out, prog, prop, idx):
    world, rngs = gen.rand_world(R, maxp=1 if R.random() < .8 else 2, maxpv=4)
    R.dens = R.choice([[2], [2, 3]])
    ps = world.names
    S = Sess(lib, R, out, prog, prop, idx, world, W=6)
    lib.ctx_set_max_operations(S.ctx, 150000)     # intermediate results may explode
    ctx = gen.world_context(ps, rngs)
    pre = "[%s] -> " % ",".join(ps) if ps else ""
    for i in range(R.randint(2, 3)):
        k = R.random()
        n = R.choice([1, 1, 2])
        if k < .45:
            t, c = pre + "{ " + chain(R, ps, 5 if n == 1 else 2, R.choice(["", "A", "S"]), n) + " }", "map"
        elif k < .65:
            sp = gen.rand_shape(R, R.choice([1, 1, 2]), nest=.3)
            t, c = gen.text(R, [{"d": sp, "r": sp}], ps, ctx, cap=25, rich=1.2), "map"
        else:
            tags = R.choice([["A", "B"], ["A", "B"], ["A", "B"], ["A", "B", "C"]])
            sps = [{"d": gen.leaf(a, 1), "r": gen.leaf(b, 1)} for a in tags for b in tags if R.random() < (.6 if len(tags) < 3 else .35)] or [{"d": gen.leaf("A", 1), "r": gen.leaf("A", 1)}]
            its = []
            for q in sps:
                if q["d"] == q["r"] and R.random() < .6:
                    its.append(chain(R, ps, 4, q["d"][0], 1))
                else:
                    z = gen.text(R, [q], ps, ctx, cap=8, rich=1)
                    its.append(z[z.index("{") + 1:-1])
            t, c = pre + "{ " + "; ".join(its) + " }", "union_map"
        h = S.input(c, t)
    ins = list(S.pool)
    for _ in range(8):
        if ins and R.random() < .6:
            finite(S, R.choice(ins))
        else:
            rule(S)
    for h in ins:
        if R.random() < .2:
            S.look(h)
    S.close()
    return S.stats
