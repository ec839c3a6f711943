"""Random programs: statements with bounded domains, accesses, schedules as
relations and as trees; text for the library and syntax trees for the
specification (IslSched)."""
import gexpr as G
from gexpr import Sc, c

TRUE = ("true", dict(o="true"))
VS = ["i", "j", "k"]


def ctext(t):
    return " : " + t if t != "true" else ""


def pre(ps):
    return "[%s] -> " % ", ".join(ps) if ps else ""


def scope(R, ps, st):
    return Sc(R, ps, VS[:st["d"]])


def tup(st):
    return "%s[%s]" % (st["n"], ", ".join(VS[:st["d"]]))


def statements(R, ps, nst=None, maxd=2, width=3, cp=.5):
    """[{n, d, rg, c}] with texts in t"""
    out = []
    for k in range(nst or R.choice([1, 2, 2, 3])):
        d = R.choice([0, 1, 1, 2, 2][:2 * maxd + 1])
        st = dict(n="STU"[k], d=d)
        S = scope(R, ps, st)
        rg, l = [], []
        for i in range(d):
            lo = R.choice([0, 0, 0, 1, -1, -2])
            hi = lo + R.randint(1, width if d > 1 else width + 2)
            rg.append([lo, hi])
            l.append(("%d <= %s <= %d" % (lo, VS[i], hi), None))
        cl = []
        while R.random() < cp and len(cl) < 2 and (d or ps):
            if ps and d and R.random() < .5:
                i = R.randrange(d)
                o = R.choice(["<=", "<", ">="])
                p = R.randrange(len(ps))
                kk = R.randint(-1, 2)
                cl.append(("%s %s %s + %d" % (VS[i], o, ps[p], kk),
                           dict(o=o, a=dict(o="x", i=i), b=dict(o="+", a=dict(o="p", i=p), b=c(kk)[1]))))
            else:
                cl.append(G.cond(S, 1) if R.random() < .5 else G.cmp(S, 0))
        cc = G.conj(cl) if cl else TRUE
        st["rg"], st["c"] = rg, cc[1]
        parts = [t for t, _ in l] + (["(" + cc[0] + ")"] if cl else [])
        st["t"] = tup(st) + (" : " + " and ".join(parts) if parts else "")
        out.append(st)
    return out


def domain_text(ps, sts):
    return pre(ps) + "{ " + "; ".join(s["t"] for s in sts) + " }"


def for_spec(sts):
    return [dict(n=s["n"], rg=s["rg"], c=s["c"]) for s in sts]


def access_list(R, ps, sts, arrays, n, one=None):
    """-> (text, [{s, a, ix, c}])"""
    out, tx = [], []
    for _ in range(n):
        st = one or R.choice(sts)
        S = scope(R, ps, st)
        a, ad = R.choice(arrays)
        ix = []
        for _i in range(ad):
            k = R.random()
            if k < .45 and st["d"]:
                i = R.randrange(st["d"])
                o = R.choice([0, 0, 0, 1, -1, -2])
                ix.append(("%s + %d" % (VS[i], o), dict(o="+", a=dict(o="x", i=i), b=c(o)[1])))
            elif k < .7:
                ix.append(G.lin(S, 2, 2, 2))
            elif k < .85:
                ix.append(c(R.randint(0, 2)))
            else:
                ix.append(G.expr(S, 1))
        cc = TRUE if R.random() < .7 or not (st["d"] or ps) else G.cond(S, 1) if R.random() < .5 else G.cmp(S, 0)
        out.append(dict(s=st["n"], a=a, ix=[e[1] for e in ix], c=cc[1]))
        tx.append("%s -> %s[%s]%s" % (tup(st), a, ", ".join("(" + e[0] + ")" for e in ix), ctext(cc[0])))
    return pre(ps) + "{ " + "; ".join(tx) + " }", out


def time_expr(S, simple=.7):
    R = S.R
    if S.vs and R.random() < simple:
        i = R.randrange(len(S.vs))
        return S.vs[i], dict(o="x", i=i)
    k = R.random()
    if k < .4:
        return c(R.randint(0, 2))
    if k < .75:
        return G.lin(S, 2, 2, 2)
    return G.expr(S, 1)


def schedule_map(R, ps, sts, partial=.1):
    """-> (text, [{s, e, c}])"""
    m = R.randint(1, 3)
    out, tx = [], []
    for st in sts:
        S = scope(R, ps, st)
        es = [time_expr(S) for _ in range(m)]
        k = R.random()
        if k < .6:
            # a permutation or affine image of the iterators with textual position
            vs = [(v, dict(o="x", i=i)) for i, v in enumerate(S.vs)]
            if R.random() < .3:
                R.shuffle(vs)
            es = (vs + [c(R.randint(0, 2)) for _ in range(3)])[:m]
            if R.random() < .4:
                es.insert(0, c(R.randint(0, 2)))
                es = es[:m]
        cc = G.cmp(S, 0) if R.random() < partial and (st["d"] or ps) else TRUE
        out.append(dict(s=st["n"], e=[e[1] for e in es], c=cc[1]))
        tx.append("%s -> [%s]%s" % (tup(st), ", ".join("(" + e[0] + ")" for e in es), ctext(cc[0])))
    return pre(ps) + "{ " + "; ".join(tx) + " }", out


# ---------------------------------------------------------------- trees
def band(R, ps, sts, members, tag=None, simple=.7):
    """-> node without child; members as one multi-union-expression text"""
    m, tx = [], []
    for _ in range(members):
        row, rt = [], []
        for st in sts:
            e = time_expr(scope(R, ps, st), simple)
            row.append(dict(s=st["n"], e=e[1]))
            rt.append("%s -> [(%s)]" % (tup(st), e[0]))
        m.append(row)
        tx.append("{ " + "; ".join(rt) + " }")
    return dict(t="band", m=m), pre(ps) + (tag or "") + "[" + ", ".join(tx) + "]"


def filt(R, ps, sts, conds):
    """a filter keeping of each statement what its condition says"""
    return [dict(s=st["n"], c=cc[1]) for st, cc in zip(sts, conds)], \
        pre(ps) + "{ " + "; ".join(tup(st) + ctext(cc[0]) for st, cc in zip(sts, conds)) + " }"


def tree(R, ps, sts, depth=3, kinds=("band", "seq"), opts=None, outer=0):
    """a random subtree for the statements sts: (node, yaml text)"""
    k = R.random()
    if depth == 0 or not sts:
        return dict(t="leaf"), None
    if k < .12:
        return dict(t="leaf"), None
    if k < .55 and "band" in kinds:
        node, tx = band(R, ps, sts, R.choice([1, 1, 1, 2]))
        node["k"], kt = tree(R, ps, sts, depth - 1, kinds, opts, outer + len(node["m"]))
        node["perm"] = R.choice([0, 0, 1])
        y = 'schedule: "%s"' % tx
        if node["perm"]:
            y += ", permutable: 1"
        if R.random() < .3:
            y += ", coincident: [%s]" % ", ".join(str(R.randint(0, 1)) for _ in node["m"])
        if opts:
            y += opts(R, node, outer)
        return node, y + (", child: { %s }" % kt if kt else "")
    if k < .62 and "mark" in kinds:
        kn, kt = tree(R, ps, sts, depth - 1, kinds, opts, outer)
        return dict(t="mark", n="m1", k=kn), 'mark: "m1"' + (", child: { %s }" % kt if kt else "")
    if "seq" not in kinds:
        return tree(R, ps, sts, depth - 1, kinds, opts, outer)
    # sequence: by statement, or by a condition on their iterators
    name = "set" if "set" in kinds and R.random() < .25 else "sequence"
    parts = []
    if len(sts) > 1 and R.random() < .75:
        l = list(sts)
        R.shuffle(l)
        cut = sorted(R.sample(range(1, len(l)), R.randint(1, len(l) - 1)))
        for a, b in zip([0] + cut, cut + [len(l)]):
            parts.append([(st, TRUE) for st in l[a:b]])
    else:
        cs = []
        for st in sts:
            S = scope(R, ps, st)
            cs.append(G.cmp(S, 0) if st["d"] or ps else TRUE)
        a = [(st, cc) for st, cc in zip(sts, cs)]
        b = [(st, G.neg(cc)) for st, cc in zip(sts, cs)]
        parts = [a, b]
        if R.random() < .4:
            parts.reverse()
    node, tx = dict(t="seq" if name == "sequence" else "set", l=[]), []
    for p in parts:
        ss = [st for st, cc in p]
        f, ft = filt(R, ps, ss, [cc for st, cc in p])
        kn, kt = tree(R, ps, ss, depth - 1, kinds, opts, outer)
        node["l"].append(dict(f=f, k=kn))
        tx.append('{ filter: "%s"%s }' % (ft, ", child: { %s }" % kt if kt else ""))
    return node, "%s: [ %s ]" % (name, ", ".join(tx))


def schedule_tree(R, ps, sts, depth=3, kinds=("band", "seq", "mark"), opts=None, context=None):
    node, kt = tree(R, ps, sts, depth, kinds, opts)
    if context:
        kt = 'context: "%s"%s' % (context, ", child: { %s }" % kt if kt else "")
    y = '{ domain: "%s"%s }' % (domain_text(ps, sts), ", child: { %s }" % kt if kt else "")
    return node, y
