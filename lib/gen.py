"""Random inputs: shapes, parameter worlds and bounded sets and relations as text.
Everything produced is bounded in its tuple dimensions, whatever the parameters."""
import itertools, json
from isl import World, size

ALIGN = False      # parameters listed in a different order every time (C24)


def leaf(name, n):
    return [name, n]


def pair(l, r, name=""):
    return [name, l, r]


def rand_world(R, maxp=2, maxpv=6):
    n = R.choice([0, 0, 1, 1, 1, 2][:4 + maxp]) if maxp else 0
    n = R.choice([2, 2, 3]) if ALIGN else min(n, maxp)
    names = R.sample(["n", "m", "k"], n)
    rngs = []
    for i in range(n):
        lo = R.randint(-3, 2)
        rngs.append(list(range(lo, lo + (R.randint(2, 4) if n == 1 else 2 if n == 3 else R.randint(2, 3)))))
    pvs = list(itertools.product(*rngs)) if n else [()]
    return World(names, pvs), rngs


def world_context(names, rngs):
    return " and ".join("%d <= %s <= %d" % (r[0], p, r[-1]) for p, r in zip(names, rngs))


def names_of(sp, it):
    """text of a tuple of shape sp with fresh variable names"""
    if len(sp) == 2:
        vs = [next(it) for _ in range(sp[1])]
        return sp[0] + "[" + ",".join(vs) + "]", vs
    l, a = names_of(sp[1], it)
    r, b = names_of(sp[2], it)
    return sp[0] + "[" + l + " -> " + r + "]", a + b


def var_iter(pre="i"):
    k = 0
    while True:
        yield "%s%d" % (pre, k)
        k += 1


def term(R, c, v, first):
    if c == 0:
        return ""
    s = "" if (first and c > 0) else (" + " if c > 0 else " - " if not first else "-")
    a = abs(c)
    return s + (v if a == 1 else "%d%s" % (a, v))


def lin(R, vs, ps, cmax=2, kmax=4, dens=0.6):
    """random linear expression text over variables and parameters"""
    s = ""
    for v in vs + ps:
        if R.random() < (dens if v in vs else dens * 0.6):
            c = R.choice([1, 1, 1, -1, -1, 2, -2, 3, -3][:5 + 2 * (cmax - 1)])
            s += term(R, c, v, not s)
    k = R.randint(-kmax, kmax)
    if not s:
        return str(k)
    if k:
        s += " %s %d" % ("+" if k > 0 else "-", abs(k))
    return s


def bounds(R, vs, width, centre=3):
    out, n = [], 1
    for v in vs:
        lo = R.randint(-centre, centre)
        w = R.randint(0, width)
        n *= w + 1
        out.append((v, lo, lo + w))
    return out, n


def den(R):
    """few denominators per session, so that divisions meet"""
    d = getattr(R, "dens", None)
    return R.choice(d) if d else R.randint(2, 4)


def constraint(R, vs, ps, div=False):
    k = R.uniform(.55, .93) if div else R.random()
    if k < 0.55:
        return "%s %s %s" % (lin(R, vs, ps), R.choice(["<=", ">=", "<=", ">=", "=", "<", ">"]),
                             lin(R, vs, ps, kmax=3, dens=0.3))
    if k < 0.64:
        d = den(R)
        return "(%s) mod %d %s %d" % (lin(R, vs, ps), d, R.choice(["=", "=", "<=", ">="]), R.randint(0, d - 1))
    if k < 0.72 and vs + ps:
        # an integer division of an integer division
        inner = "%sfloor((%s)/%d)" % (R.choice(["", "", "2*", "3*"]), R.choice([R.choice(vs + ps), lin(R, vs, ps, kmax=1, dens=.4)]), den(R))
        e = "%s %s %s" % (R.choice([R.choice(vs + ps), lin(R, vs, ps, kmax=2, dens=.4)]), R.choice("+-"), inner)
        d = den(R)
        if R.random() < .5:
            return "(%s) mod %d %s %d" % (e, d, R.choice(["=", "<=", ">="]), R.randint(0, d - 1))
        return "%s %s floor((%s)/%d)" % (lin(R, vs, ps, dens=0.4), R.choice(["=", "<=", ">="]), e, d)
    if k < 0.8:
        d = den(R)
        return "%s %s floor((%s)/%d)" % (lin(R, vs, ps, dens=0.4), R.choice(["=", "<=", ">="]), lin(R, vs, ps), d)
    if k < 0.93:
        d = den(R)
        e = "e%d" % R.randint(0, 9)
        kind = R.random()
        if kind < 0.4:
            return "(exists %s: %s = %d%s)" % (e, lin(R, vs, ps), d, e)
        if kind < 0.75:
            return "(exists %s: %d%s <= %s and %s <= %d%s)" % (
                e, d, e, lin(R, vs, ps), lin(R, vs, ps), d + R.randint(-1, 1) or 1, e)
        return "(exists %s,f0: %s = %d%s + %df0 and 0 <= %s <= 3)" % (
            e, lin(R, vs, ps), d, e, R.randint(2, 5), e)
    if k < 0.97 and vs:
        return "%s != %s" % (R.choice(vs), lin(R, vs, ps, dens=0.3))
    return "not (%s <= %s)" % (lin(R, vs, ps), lin(R, vs, ps, dens=0.3))


def formula(R, vs, ps, ctx, cap, rich=1.0, divs=0):
    """text of a condition bounding the variables vs"""
    nd = len(vs)
    style = R.random()
    width = {0: 0, 1: 9, 2: 5, 3: 3}.get(nd, 1)
    for _ in range(20):
        parts = []
        if nd == 2 and style < 0.18:
            # a skewed box
            m = R.choice([[1, 1, 1, -1], [2, 1, 1, 1], [1, 2, -1, 1], [1, 1, 0, 1], [2, 1, 1, -1], [3, 1, 1, 1]])
            a, b = vs
            for j in range(2):
                e = (term(R, m[2 * j], a, True) + term(R, m[2 * j + 1], b, m[2 * j] == 0))
                lo = R.randint(-4, 4)
                parts.append("%d <= %s <= %d" % (lo, e, lo + R.randint(0, 6)))
            n = 30
        elif nd >= 2 and style < 0.3:
            # defined by an equality
            bs, n = bounds(R, vs[:-1], width + 1)
            parts += ["%d <= %s <= %d" % (lo, v, hi) for v, lo, hi in bs]
            parts.append("%s = %s" % (vs[-1], lin(R, vs[:-1], ps)))
        else:
            bs, n = bounds(R, vs, width)
            for v, lo, hi in bs:
                k = R.random()
                if lo == hi:
                    parts.append("%s = %d" % (v, lo))
                elif ps and k < 0.25:
                    p = R.choice(ps)
                    parts.append("%d <= %s <= %d and %s %s %s + %d" % (
                        lo, v, hi, v, R.choice(["<=", ">=", "<"]), p, R.randint(-2, 3)))
                else:
                    parts.append("%d <= %s <= %d" % (lo, v, hi))
        if n <= cap:
            break
    k = 0
    while R.random() < 0.55 * rich and k < 3:
        parts.append(constraint(R, vs, ps, R.random() < divs))
        k += 1
    if not parts:
        parts = [constraint(R, [], ps)] if ps and R.random() < .5 else ["1 = 1"] if R.random() < .9 else ["1 = 0"]
    R.shuffle(parts)
    f = " and ".join(parts)
    if ctx:
        f += " and " + ctx
    return f


def piece(R, sp, ps, ctx, cap, rich):
    it = var_iter()
    if isinstance(sp, dict):
        d, a = names_of(sp["d"], it)
        r, b = names_of(sp["r"], it)
        vs, tup = a + b, d + " -> " + r
    elif sp is None:
        vs, tup = [], ""
    else:
        tup, vs = names_of(sp, it)
    return tup, vs


def text(R, sps, ps, ctx, cap=60, rich=1.0, npieces=None, basic=False, divs=0):
    """sps: list of shapes (one for a plain set or map)"""
    out = []
    for sp in sps:
        n = 1 if basic else (npieces or R.choice([1, 1, 1, 2, 2, 3]))
        tup, vs = piece(R, sp, ps, ctx, cap, rich)
        fs = ["(" + formula(R, vs, ps, ctx, cap // n + 1, rich, divs) + ")" for _ in range(n)]
        out.append((tup + " : " if True else "") + " or ".join(fs))
    if ALIGN and ps:
        ps = R.sample(list(ps), len(ps))
    pre = "[%s] -> " % ",".join(ps) if ps else ""
    return pre + "{ " + "; ".join(out) + " }"


def rand_shape(R, maxn=2, nest=0.2, names=("", "A", "B", "C"), depth=0):
    if depth < 2 and R.random() < nest and maxn >= 1:
        k = R.randint(0, maxn)
        nm = R.choice(["", "", "P"])
        return pair(rand_shape(R, k, nest / 2, names, depth + 1),
                    rand_shape(R, maxn - k, nest / 2, names, depth + 1), nm)
    n = R.randint(0, maxn) if R.random() < 0.3 else maxn
    return leaf(R.choice(names), n)
