"""Random expressions, conditions, sets and functions: text in the documented
notation together with the syntax tree the specification evaluates."""


class Sc:
    """what is in scope: parameter names, coordinate names, quantified names"""

    def __init__(self, R, ps, vs, zs=(), rich=1.0):
        self.R, self.ps, self.vs, self.zs, self.rich = R, list(ps), list(vs), list(zs), rich

    def inner(self, z):
        return Sc(self.R, self.ps, self.vs, self.zs + [z], self.rich)


def c(n, d=1):
    return (str(n) if d == 1 else "%d/%d" % (n, d)), dict(o="c", q=[n, d])


def paren(t):
    return "(" + t + ")"


def var(S):
    opts = [("x", i, n) for i, n in enumerate(S.vs)] * 2 + [("p", i, n) for i, n in enumerate(S.ps)] + \
           [("z", i, n) for i, n in enumerate(S.zs)]
    if not opts:
        return None
    o, i, n = S.R.choice(opts)
    return n, dict(o=o, i=i)


def lin(S, terms=3, cmax=3, kmax=5):
    R = S.R
    t, a = "", None
    for _ in range(R.randint(1, terms)):
        v = var(S)
        if not v:
            break
        k = R.choice([1, 1, 1, -1, -1, 2, -2, cmax, -cmax])
        vt, va = v
        term = va if abs(k) == 1 else dict(o="*", a=c(abs(k))[1], b=va)
        tt = vt if abs(k) == 1 else R.choice(["%d%s", "%d*%s"]) % (abs(k), vt)
        if a is None:
            t, a = (tt, term) if k > 0 else ("-" + tt, dict(o="neg", a=term))
        elif k > 0:
            t, a = t + " + " + tt, dict(o="+", a=a, b=term)
        else:
            t, a = t + " - " + tt, dict(o="-", a=a, b=term)
    k = R.randint(-kmax, kmax)
    if a is None:
        return c(k)
    if k and R.random() < .7:
        t, a = (t + " + %d" % k, dict(o="+", a=a, b=c(k)[1])) if k > 0 else (t + " - %d" % -k, dict(o="-", a=a, b=c(-k)[1]))
    return t, a


def den(S):
    d = getattr(S.R, "dens", None)
    return S.R.choice(d) if d else S.R.randint(2, 4)


def expr(S, depth=2, rat=False, pw=False):
    """integer valued unless rat"""
    R = S.R
    k = R.random()
    if depth == 0 or k < .4:
        t, a = lin(S)
        if rat and R.random() < .4:
            d = den(S)
            return "(%s)/%d" % (t, d), dict(o="/", a=a, b=c(d)[1])
        return t, a
    if k < .55:
        t, a = expr(S, depth - 1, rat)
        d = den(S)
        f = R.choice(["floor", "floor", "ceil"])
        return "%s((%s)/%d)" % (f, t, d), dict(o=f, a=dict(o="/", a=a, b=c(d)[1]))
    if k < .68:
        t, a = expr(S, depth - 1)
        d = den(S)
        return "((%s) mod %d)" % (t, d), dict(o="mod", a=a, b=c(d)[1])
    if k < .8 or not pw:
        t, a = expr(S, depth - 1, rat, pw)
        u, b = expr(S, depth - 1, rat, pw)
        f = R.choice(["+", "-"])
        return "%s %s (%s)" % (t, f, u), dict(o=f, a=a, b=b)
    t, a = expr(S, depth - 1, rat, pw)
    u, b = expr(S, depth - 1, rat, pw)
    f = R.choice(["min", "max"])
    return "%s(%s, %s)" % (f, t, u), dict(o=f, a=a, b=b)


def cmp(S, depth=1):
    R = S.R
    o = R.choice(["<=", ">=", "<=", ">=", "<", ">", "=", "=", "!="])
    t, a = expr(S, depth)
    u, b = expr(S, min(depth, R.choice([0, 0, 1])))
    return "%s %s %s" % (t, o, u), dict(o=o, a=a, b=b)


def conj(l):
    if len(l) == 1:
        return l[0]
    return " and ".join(paren(t) for t, a in l), dict(o="and", l=[a for t, a in l])


def disj(l):
    if len(l) == 1:
        return l[0]
    return " or ".join(paren(t) for t, a in l), dict(o="or", l=[a for t, a in l])


def neg(x):
    return "not (%s)" % x[0], dict(o="not", a=x[1])


def within(S, name, ast, lo, hi):
    return "%d <= %s <= %d" % (lo, name, hi), dict(o="and", l=[dict(o="<=", a=c(lo)[1], b=ast), dict(o="<=", a=ast, b=c(hi)[1])])


def cond(S, depth=2):
    """any condition; quantified variables are bounded"""
    R = S.R
    k = R.random()
    if depth == 0 or k < .45:
        return cmp(S)
    if k < .6:
        return conj([cond(S, depth - 1) for _ in range(2)])
    if k < .7:
        return disj([cond(S, depth - 1) for _ in range(2)])
    if k < .78:
        return neg(cond(S, depth - 1))
    if k < .83:
        a, b = cond(S, depth - 1), cond(S, depth - 1)
        return "(%s) implies (%s)" % (a[0], b[0]), dict(o="=>", a=a[1], b=b[1])
    if k < .95:
        z = "e%d" % len(S.zs)
        S2 = S.inner(z)
        lo = R.randint(-4, 1)
        hi = lo + R.randint(1, 5)
        b = within(S2, z, dict(o="z", i=len(S.zs)), lo, hi)
        body = conj([b, cond(S2, depth - 1)] + ([cmp(S2, 0)] if R.random() < .5 else []))
        return "(exists %s : %s)" % (z, body[0]), dict(o="exists", lo=lo, hi=hi, a=body[1])
    return R.choice([("true", dict(o="true")), ("false", dict(o="false"))])


def bounded(S, width, extra=1.0, centre=3, depth=1):
    """a condition that bounds all coordinates"""
    R = S.R
    l, n = [], 1
    for i, v in enumerate(S.vs):
        lo = R.randint(-centre, centre - 1)
        hi = min(lo + R.randint(0, width), 6)
        n *= hi - lo + 1
        l.append(within(S, v, dict(o="x", i=i), lo, hi))
    while R.random() < .5 * extra and len(l) < len(S.vs) + 3:
        l.append(cond(S, depth))
    R.shuffle(l)
    if not l:
        l = [cmp(S, 0)]
    return conj(l)


def tuple_text(name, names):
    return "%s[%s]" % (name, ", ".join(names))


def params_text(ps):
    return "[%s] -> " % ", ".join(ps) if ps else ""
