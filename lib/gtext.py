"""The documented notation: random surface forms of conditions and tuples,
together with the syntax tree the specification evaluates (IslText)."""
import json
import gexpr as G
from gexpr import Sc, c


class Ren:
    """renders syntax trees with the surface forms the notation allows"""

    def __init__(self, R, ps, vs, defs=True):
        self.R, self.ps, self.vs, self.zs, self.nz = R, list(ps), list(vs), [], 0
        self.tup = False    # at the start of a tuple element, "[" would start a nested tuple
        self.defs = defs

    def factor(self, e):
        """text that can be a factor on its own"""
        o = e["o"]
        if o == "c" and e["q"][1] == 1 and e["q"][0] >= 0:
            return str(e["q"][0])
        if o in "pxz":
            return self.e(e)
        if o in ("floor", "ceil", "min", "max"):
            return self.e(e)
        return "(" + self.e(e) + ")"

    def e(self, e):
        R, o = self.R, e["o"]
        if o == "c":
            n, d = e["q"]
            return str(n) if d == 1 else "%d/%d" % (n, d)
        if o == "p":
            return self.ps[e["i"]]
        if o == "x":
            return self.vs[e["i"]]
        if o == "z":
            return self.zs[e["i"]]
        if o == "+":
            return self.e(e["a"]) + R.choice([" + ", "+"]) + (self.e(e["b"]) if R.random() < .5 and e["b"]["o"] in "c+*pxz" else self.par(e["b"]))
        if o == "-":
            return self.e(e["a"]) + R.choice([" - ", "-"]) + self.factor(e["b"])
        if o == "neg":
            return "-" + self.factor(e["a"])
        if o == "*":
            k, b = e["a"], self.factor(e["b"])
            if k["o"] == "c" and k["q"][1] == 1 and k["q"][0] >= 0:
                # a coefficient may directly precede a name
                f = R.choice(["%d %s", "%d%s", "%d * %s", "%d*%s"]) if e["b"]["o"] in "pxz" else "%d*%s"
                if R.random() < .15 and e["b"]["o"] in ("p", "x", "z"):
                    return "%s*%d" % (b, k["q"][0])
                return f % (k["q"][0], b)
            return "%s*%s" % (self.factor(k), b)
        if o == "/":
            return "(%s)/%s" % (self.e(e["a"]), self.factor(e["b"]))
        if o in ("floor", "ceil"):
            a = e["a"]
            if a["o"] == "/" and a["b"]["o"] == "c" and a["b"]["q"][1] == 1:
                d = a["b"]["q"][0]
                n = self.e(a["a"])
                if o == "floor":
                    k = R.random()
                    if k < .3:
                        return "floord(%s, %d)" % (n, d)
                    if k < .55 and not self.tup:
                        return "[(%s)/%d]" % (n, d)
                    if k < .7:
                        return "((%s)//%d)" % (n, d)
                elif R.random() < .4:
                    return "ceild(%s, %d)" % (n, d)
                return "%s((%s)/%d)" % (o, n, d)
            return "%s(%s)" % (o, self.e(a))
        if o == "mod":
            if self.const(e["a"]):
                # the first operand has to be an expression in variables
                return "(%s)" % self.e(dict(o="-", a=e["a"], b=dict(o="*", a=e["b"], b=dict(o="floor", a=dict(o="/", a=e["a"], b=e["b"])))))
            return "(%s %s %s)" % (self.factor(e["a"]), R.choice(["mod", "%", "MOD"]), self.factor(e["b"]))
        if o in ("min", "max"):
            return "%s(%s, %s)" % (o, self.e(e["a"]), self.e(e["b"]))
        if o == "?":
            return "(%s ? %s : %s)" % (self.c(e["c"], True), self.e(e["a"]), self.e(e["b"]))
        raise Exception(o)

    def const(self, e):
        return not any(k in json.dumps(e) for k in ('"p"', '"x"', '"z"'))

    def par(self, e):
        t = self.e(e)
        return t if e["o"] in "cpxz" and not t.startswith("-") else "(" + t + ")"

    def c(self, a, top=False):
        R, o = self.R, a["o"]
        if o in ("true", "false"):
            return o if R.random() < .8 else o.upper()
        if o in ("<=", "<", ">=", ">", "=", "!="):
            return "%s %s %s" % (self.e(a["a"]), o, self.e(a["b"]))
        if o == "lex":
            return "%s %s %s" % (", ".join(map(self.e, a["l"])), a["c"], ", ".join(map(self.e, a["r"])))
        if o == "and":
            ch = self.chain(a["l"])
            if ch:
                return ch
            return R.choice([" and ", " && ", " /\\ ", " and "]).join(self.sub(b, "and") for b in a["l"])
        if o == "or":
            return R.choice([" or ", " || ", " \\/ ", " or "]).join(self.sub(b, "or") for b in a["l"])
        if o == "not":
            return R.choice(["not ", "! ", "not "]) + "(" + self.c(a["a"]) + ")"
        if o == "=>":
            return "(%s) implies (%s)" % (self.c(a["a"]), self.c(a["b"]))
        if o in ("exists", "let"):
            z = "e%d" % self.nz if R.random() < .9 or not self.vs else "e%d'" % self.nz
            self.nz += 1
            d = ""
            if o == "let":
                d = " = " + self.e(a["e"])
            self.zs.append(z)
            b = self.c(a["a"])
            self.zs.pop()
            return "%s" % (R.choice(["exists %s%s : %s", "exists (%s%s : %s)"]) % (z, d, b))
        raise Exception(o)

    def sub(self, b, op):
        t = self.c(b)
        if b["o"] in ("<=", "<", ">=", ">", "=", "!=", "true", "false", "not") and self.R.random() < .8:
            return t
        return "(" + t + ")"

    def chain(self, l):
        """lo <= x <= hi"""
        if len(l) == 2 and all(b["o"] in ("<=", "<", "=", ">=", ">") for b in l) and l[0]["b"] == l[1]["a"]:
            return "%s %s %s %s %s" % (self.e(l[0]["a"]), l[0]["o"], self.e(l[0]["b"]), l[1]["o"], self.e(l[1]["b"]))
        return None


def lexcond(S):
    R = S.R
    k = R.randint(1, 2)
    l = [G.lin(S)[1] for _ in range(k)]
    r = [G.lin(S)[1] for _ in range(k)]
    return dict(o="lex", c=R.choice(["<<", "<<=", ">>", ">>="]), l=l, r=r)


def condition(S, depth=2):
    R = S.R
    k = R.random()
    if k < .12:
        return lexcond(S)
    if k < .24 and (S.vs or S.ps):
        z = "z%d" % len(S.zs)
        e = dict(o="floor", a=dict(o="/", a=G.lin(S)[1], b=c(R.randint(2, 5))[1]))
        if R.random() < .3:
            e = G.expr(S, 1)[1]
        return dict(o="let", e=e, a=G.conj([G.cond(S.inner(z), 1), G.cmp(S.inner(z), 0)])[1])
    if k < .3:
        return G.cmp(S, 2)[1]
    return G.cond(S, depth)[1]


# what a position of a tuple can be:
#   {"t":"free","n":name}  {"t":"any"}  {"t":"def","e":e}  {"t":"rng","lo":e|[],"hi":e|[]}  {"t":"pw","l":[{e,c}]}
def slots(S, ren, shape, prefix, first):
    """-> (text, slots) for one tuple; names become available as coordinates"""
    R = S.R
    if len(shape) == 3:
        a, sa = slots(S, ren, shape[1], prefix, first)
        b, sb = slots(S, ren, shape[2], prefix, first)
        return "%s[%s %s %s]" % (shape[0], a, "->", b), sa + sb
    out, txt = [], []
    ren.tup = True
    for _ in range(shape[1]):
        pos = len(ren.vs)
        k = R.random()
        av = [i for i, n in enumerate(ren.vs) if n]
        S2 = scope(S, ren)
        nm = None
        if k < .6 or (pos == 0 and not S.ps and k < .9):
            nm = "%s%d" % (prefix, pos)
            out.append(dict(t="free"))
            txt.append(nm)
        elif k < .64:
            out.append(dict(t="free"))
            txt.append("*")
        elif k < .7:
            nm = "%s%d" % (prefix, pos)
            e = G.expr(S2, 1)[1]
            out.append(dict(t="def", e=fix(e, ren)))
            txt.append("%s = %s" % (nm, ren.e(out[-1]["e"])))
        elif k < .85:
            e = fix(G.expr(S2, R.choice([0, 1, 1, 2]), pw=True)[1], ren)
            out.append(dict(t="def", e=e))
            txt.append(ren.e(e) if e["o"] not in ("x", "p") else "(" + ren.e(e) + ")" if R.random() < .3 else ren.e(e))
        elif k < .93:
            lo = fix(G.lin(S2, 1)[1], ren)
            hi = fix(G.lin(S2, 1)[1], ren)
            q = R.random()
            l, h = ([], hi) if q < .15 else (lo, []) if q < .3 else (lo, hi)
            if not l and not h:
                l = lo
            out.append(dict(t="rng", lo=l, hi=h))
            t = "%s:%s" % (ren.e(l) if l else "", ren.e(h) if h else "")
            if R.random() < .5:
                nm = "%s%d" % (prefix, pos)
                t = nm + " = " + t
            txt.append(t)
        else:
            l, prev = [], []
            for _q in range(R.randint(1, 2)):
                c0 = G.cmp(S2, 0)[1]
                l.append(dict(e=fix(G.lin(S2)[1], ren), c=fix(c0, ren)))
            out.append(dict(t="pw", l=l))
            txt.append("(" + "; ".join("%s : %s" % (ren.e(p["e"]), ren.c(p["c"])) for p in l) + ")")
        ren.vs.append(nm)
    ren.tup = False
    sep = ", " if R.random() < .85 or any(":" in t or ";" in t for t in txt) else "]["
    return "%s[%s]" % (shape[0], sep.join(txt)), out


class scope(Sc):
    """only named coordinates can be referred to"""

    def __init__(self, S, ren):
        self.ix = [i for i, n in enumerate(ren.vs) if n]
        Sc.__init__(self, S.R, S.ps, [ren.vs[i] for i in self.ix])


def fix(e, ren):
    """coordinates of a scope -> positions"""
    ix = [i for i, n in enumerate(ren.vs) if n]

    def go(a):
        if isinstance(a, list):
            return [go(x) for x in a]
        if not isinstance(a, dict):
            return a
        if a.get("o") == "x":
            return dict(o="x", i=ix[a["i"]])
        return {k: go(v) if k not in ("q", "o") else v for k, v in a.items()}
    return go(e)


def piece(R, ps, shapes, W):
    """one disjunct: shapes of its tuples (none: parameters only)"""
    S = Sc(R, ps, [])
    ren = Ren(R, ps, [])
    txt, sl = [], []
    for i, sh in enumerate(shapes):
        t, s = slots(S, ren, sh, "ijkab"[i % 5], 0)
        txt.append(t)
        sl += s
    S2 = scope(S, ren)
    l = []
    for i, s in enumerate(sl):
        if s["t"] == "free" and ren.vs[i] or s["t"] == "rng" and ren.vs[i] and not (s["lo"] and s["hi"]):
            w = {1: 5, 2: 4, 3: 2}.get(sum(q["t"] != "def" for q in sl), 1)
            lo = R.randint(-3, 2)
            hi = min(W, lo + R.randint(0, w))
            v = dict(o="x", i=i)
            k = R.random()
            a, b = dict(o="<=", a=c(lo)[1], b=v), dict(o="<=", a=v, b=c(hi)[1])
            if k < .3:
                b = dict(o="<", a=v, b=c(hi + 1)[1])
            elif k < .5:
                a, b = dict(o=">=", a=c(hi)[1], b=v), dict(o=">", a=v, b=c(lo - 1)[1])
            l.append(dict(o="and", l=[a, b]))
    nb = len(l)
    while R.random() < .6 and len(l) < nb + 3:
        l.append(fix(condition(S2, 2), ren))
    R.shuffle(l)
    if not l:
        return txt, sl, dict(o="true"), "", ren
    a = l[0] if len(l) == 1 else dict(o="and", l=l)
    if R.random() < .2 and len(l) > 1:
        b = fix(condition(S2, 1), ren)
        a = dict(o="and", l=l + [dict(o="or", l=[b, fix(condition(S2, 1), ren)])])
    ren.vs = [n or "?" for n in ren.vs]
    return txt, sl, a, ren.c(a), ren


def bounded_slots(sl, ren):
    """can every coordinate be bounded by the condition?"""
    return all(s["t"] in ("def", "pw") or n or (s["t"] == "rng" and s["lo"] and s["hi"]) for s, n in zip(sl, ren.vs))


def conjuncts(a):
    return [q for b in a["l"] for q in conjuncts(b)] if a["o"] == "and" else [a]


def reach(a):
    """how many coordinates a condition needs"""
    if isinstance(a, list):
        return max([reach(b) for b in a] + [0])
    if not isinstance(a, dict):
        return 0
    return a["i"] + 1 if a.get("o") == "x" else max([reach(b) for b in a.values()] + [0])


def object_text(R, ps, shapes_list, W):
    """-> (text, pieces) of a (union) set or relation: one list of shapes per disjunct"""
    out, pcs = [], []
    for shapes in shapes_list:
        for _ in range(30):
            txt, sl, a, ct, ren = piece(R, ps, shapes, W)
            if all(s["t"] in ("def", "pw") or n != "?" and n or (s["t"] == "rng" and s["lo"] and s["hi"]) for s, n in zip(sl, ren.vs)):
                break
        else:
            return None
        tup = (" %s " % "->").join(txt)
        out.append(tup + (" : " + ct if ct else (" : " if not tup else "")))
        pcs.append(dict(sl=sl, sh=shapes, cj=[[reach(b), b] for b in conjuncts(a)]))
    pre = "[%s] -> " % ", ".join(ps) if ps else R.choice(["", "", "", "[] -> "])
    sep = "; "
    t = pre + "{ " + sep.join(out) + " }"
    if R.random() < .05:
        t = "# a comment\n" + t.replace(" -> ", " ->\n", 1)
    return t, pcs
