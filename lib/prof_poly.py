"""Sessions on quasi-polynomials, their piecewise and union forms, folds and bounds (C08)."""
import ctypes as C, json
import gen, isl as I
import gexpr as G
from session import Sess, ERR, val_pair
from isl import DIM, World, rows_of, shape, size

LIM = 20000                      # magnitudes the specification multiplies exactly


class P:
    __slots__ = ("id", "ptr", "cls", "rows", "tags", "mx", "mt", "dx", "ty")


def factor(S, depth):
    """a factor of a term: (text, tree), integer or rational"""
    R = S.R
    k = R.random()
    v = G.var(S)
    if k < .62 and v:
        e = R.choice([1, 1, 1, 2, 2, 3])
        a = v[1]
        for _ in range(e - 1):
            a = dict(o="*", a=a, b=v[1])
        return (v[0] if e == 1 else "%s^%d" % (v[0], e)), a, e
    if k < .85:
        t, a = G.lin(S, terms=2, cmax=2, kmax=3)
        d = R.choice([2, 2, 3])
        return "floor((%s)/%d)" % (t, d), dict(o="floor", a=dict(o="/", a=a, b=G.c(d)[1])), 1
    t, a = G.lin(S, terms=2, cmax=2, kmax=2)
    return "(%s)" % t, a, 1


def poly(S, terms=3):
    R = S.R
    out = None
    for _ in range(R.randint(1, terms)):
        n, d = R.choice([1, 1, 2, 3, -1, -2]), R.choice([1, 1, 1, 2, 3])
        if n % d == 0:
            n, d = n // d, 1
        t, a = G.c(n, d)
        t = "(%s)" % t if n < 0 or d > 1 else t
        deg = 0
        for _ in range(R.choice([0, 1, 1, 2])):
            ft, fa, e = factor(S, 1)
            if deg + e > 3:
                continue
            deg += e
            t, a = t + " * " + ft, dict(o="*", a=a, b=fa)
        out = (t, a) if out is None else (out[0] + " + " + t, dict(o="+", a=out[1], b=a))
    return out


def key(tag, pv, pt):
    return "%s|%d|<<%s>>" % (tag, pv, ", ".join(map(str, pt)))


class Poly:
    def __init__(self, lib, R, out, prog, prop, idx):
        self.R, self.lib = R, lib
        world, self.rngs = gen.rand_world(R)
        self.S = Sess(lib, R, out, prog, prop, idx, world)
        self.world, self.ctx = world, self.S.ctx
        self.pool, self.nid = [], 0
        k = R.random()
        self.tags = [("", R.choice([1, 1, 2]))] if k < .3 else [("A", R.choice([1, 1, 2]))] if k < .6 else [("A", R.choice([1, 2])), ("B", R.choice([0, 1]))]
        if k > .85:
            self.tags = [["", ["A", 1], ["B", 1]]]
        R.dens = [2, 3]

    # ---- values ----
    def parts(self, cls, ptr):
        """(domain space shape, owner pointer) of the parts of ptr"""
        lib = self.lib
        if cls in ("set", "pw_qpolynomial", "pw_qpolynomial_fold"):
            return [(ptr, False)]
        if cls == "union_set":
            l = lib.union_set_get_set_list(ptr)
            r = [(lib.set_list_get_at(l, i), True) for i in range(lib.set_list_size(l))]
            lib.set_list_free(l)
            return r
        e = cls[6:]
        l = lib.get("isl_%s_get_%s_list" % (cls, e))(ptr)
        r = [(lib.get("isl_%s_list_get_at" % e)(l, i), True) for i in range(lib.get("isl_%s_list_size" % e)(l))]
        lib.get("isl_%s_list_free" % e)(l)
        return r

    def value(self, cls, ptr, box=10):
        lib, np = self.lib, len(self.world.names)
        lib.ctx_reset_operations(self.ctx)
        base = cls.replace("union_", "")
        fn = dict(set=lib.vp_set_points, pw_qpolynomial=lib.vp_pw_qp_rows, pw_qpolynomial_fold=lib.vp_pw_fold_rows)[base]
        v, tags, ty = {"!": []}, set(), None
        for q, own in self.parts(cls, ptr):
            sp = shape(lib, lib.get("isl_%s_get_%sspace" % (base, "" if base == "set" else "domain_"))(q))
            tag = "" if sp is None else json.dumps(sp, separators=(",", ":")).replace('"', "'")
            tags.add(tag)
            rows, w = rows_of(lib, fn, q, self.world, box, 1500)
            if own:
                lib.get("isl_%s_free" % base)(q)
            if rows is None:
                raise I.Undecided(I.CAP)
            for r in rows:
                pv = self.world.pvs.index(tuple(r[:np]))
                if base == "set":
                    pt = list(r[np:])
                    v[key(tag, pv, pt)] = [tag, pv, pt]
                else:
                    pt = list(r[np:-2])
                    e = v.setdefault(key(tag, pv, pt), [tag, pv, pt])
                    e.append([r[-2], r[-1]])
        if base == "pw_qpolynomial_fold":
            ty = lib.get("isl_%s_get_type" % cls)(ptr)
            for k, e in v.items():
                if k != "!":
                    e[3:] = [e[3:]]
        return v, tags, ty

    def adopt(self, ptr, cls, box=10):
        if not ptr:
            return dict(k="err", e=ERR.get(self.S.last_error(), "?")), None
        self.lib.ctx_reset_operations(self.ctx)
        v, tags, ty = self.value(cls, ptr, box)
        h = P()
        self.nid += 1
        h.id, h.ptr, h.cls, h.rows, h.tags, h.ty = self.nid, ptr, cls, v, tags, ty
        vals = [q for k, e in v.items() if k != "!" and len(e) > 3 for q in (e[3] if "fold" in cls else e[3:])]
        h.mx = max([abs(q[0]) for q in vals] + [1])
        h.dx = max([q[1] for q in vals] + [1])
        h.mt = max([abs(x) for e in v.values() if e for x in e[2]] + [0])
        d = dict(k="qp", p=v)
        if ty is not None:
            d["t"] = ty
        return d, h

    def call(self, op, f, args, x, fn, cls, more=None, keep=True):
        """more(): further components of the answer"""
        S = self.S
        ev = dict(op=op, f=f, pr=S.prop, a=[a.id for a in args], x=x or {"z": 0}, c=[])
        S.mark("%d %s" % (S.idx, json.dumps(ev)[:-1]))
        self.lib.ctx_reset_operations(self.ctx)
        r = fn()
        try:
            v, h = self.adopt(r, cls)
        except I.Undecided as e:
            S.stats["undecided"] += 1
            self.lib.get("isl_%s_free" % cls)(r)
            return None
        if h and h.mx * h.dx * max([a.dx for a in args] + [1]) * 2 >= 2 ** 31:
            # beyond the numbers TLC computes with
            S.stats["undecided"] += 1
            self.lib.get("isl_%s_free" % cls)(r)
            return None
        if h and more:
            v.update(more())
        gave = v["k"] == "err" and v["e"] == "quota"
        ev.update(g=1 if gave else 0, r=h.id if h else 0, v=v)
        S.emit(ev)
        if h:
            if not keep or h.mx * h.dx > LIM or len(h.rows) > 450:
                self.drop(h, True)
            else:
                self.pool.append(h)
        return h

    def same_params(self, h, b):
        g = self.lib.get("isl_%s_get_domain_space" % h.cls)
        s, t = g(h.ptr), g(b.ptr)
        r = self.lib.space_has_equal_params(s, t)
        self.lib.space_free(s)
        self.lib.space_free(t)
        return r == 1

    def ask(self, op, f, args, x, fn):
        S = self.S
        ev = dict(op=op, f=f, pr=S.prop, a=[a.id for a in args], x=x or {"z": 0}, c=[])
        S.mark("%d %s" % (S.idx, json.dumps(ev)[:-1]))
        self.lib.ctx_reset_operations(self.ctx)
        v = fn()
        q = S.last_error()
        ev.update(g=1 if q == 6 else 0, r=0, v=v)
        S.emit(ev)

    def drop(self, h, quiet=False):
        if not quiet:
            self.pool.remove(h)
        self.S.emit(dict(op="drop", a=[h.id]))
        self.lib.get("isl_%s_free" % h.cls)(h.ptr)

    def cp(self, h):
        return self.lib.get("isl_%s_copy" % h.cls)(h.ptr)

    # ---- inputs ----
    def scope(self, sp, it):
        t, vs = gen.names_of(sp, it)
        return t, vs, G.Sc(self.R, self.world.names, vs)

    def pre(self):
        return "[%s] -> " % ", ".join(self.world.names) if self.world.names else ""

    def dom(self, Sc, vs):
        """a bounded condition"""
        R = self.R
        cs = []
        for i, v in enumerate(vs):
            lo = R.randint(-3, 1)
            hi = lo + R.randint(0, 4)
            ast = dict(o="x", i=i)
            if self.world.names and R.random() < .35:
                j = R.randrange(len(self.world.names))
                t = "%s + %d" % (self.world.names[j], R.randint(0, 2))
                k = int(t.split("+")[1])
                cs.append(("%d <= %s <= %s" % (lo, v, t), dict(o="and", l=[dict(o="<=", a=G.c(lo)[1], b=ast), dict(
                    o="<=", a=ast, b=dict(o="+", a=dict(o="p", i=j), b=G.c(k)[1]))])))
            else:
                cs.append(G.within(Sc, v, ast, lo, hi))
        if R.random() < .5:
            cs.append(G.cmp(Sc, R.choice([0, 0, 1])))
        if not cs:
            cs.append(G.cmp(Sc, 0))
        return G.conj(cs)

    def newset(self, union=False):
        R, lib = self.R, self.lib
        ts = [R.choice(self.tags)] if not union else R.sample(self.tags, R.randint(1, len(self.tags)))
        txt = []
        for sp in ts:
            for _ in range(R.choice([1, 1, 2])):
                t, vs, Sc = self.scope(sp, gen.var_iter("x"))
                txt.append("%s : %s" % (t, self.dom(Sc, vs)[0]))
        t = self.pre() + "{ %s }" % "; ".join(txt)
        cls = "union_set" if union else "set"
        self.call("given", "isl_%s_read_from_str" % cls, [], dict(t=t), lambda: lib.get("isl_%s_read_from_str" % cls)(self.ctx, t.encode()), cls)

    def newqp(self):
        R, lib = self.R, self.lib
        union = R.random() < .35
        ts = [R.choice(self.tags)] if not union else R.sample(self.tags, R.randint(1, len(self.tags)))
        parts, txt = [], []
        for sp in ts:
            t, vs, Sc = self.scope(sp, gen.var_iter("x"))
            d = None
            for j in range(R.choice([1, 1, 1, 2])):
                c = self.dom(Sc, vs)
                if d is not None:
                    c = ("(%s) and not (%s)" % (c[0], d[0]), dict(o="and", l=[c[1], dict(o="not", a=d[1])]))
                d = c if d is None else d
                e = poly(Sc)
                txt.append("%s -> (%s) : %s" % (t, e[0], c[0]))
                parts.append(dict(tag=json.dumps(sp, separators=(",", ":")).replace('"', "'"), n=len(vs), c=c[1], e=e[1]))
        txt = self.pre() + "{ %s }" % "; ".join(txt)
        cls = "union_pw_qpolynomial" if union else "pw_qpolynomial"
        self.call("read", "isl_%s_read_from_str" % cls, [], dict(t=txt, parts=parts, lo=-10, hi=10),
                  lambda: lib.get("isl_%s_read_from_str" % cls)(self.ctx, txt.encode()), cls)

    def newfold(self):
        R, lib = self.R, self.lib
        q = self.of("pw_qpolynomial")
        if not q:
            return
        t = R.choice([0, 1])         # min, max
        self.call("fold_of", "isl_pw_qpolynomial_fold_from_pw_qpolynomial", [q], dict(t=t),
                  lambda: lib.pw_qpolynomial_fold_from_pw_qpolynomial(t, self.cp(q)), "pw_qpolynomial_fold")

    def of(self, *cls):
        l = [h for h in self.pool if h.cls in cls]
        return self.R.choice(l) if l else None

    def same(self, a, cls=None):
        l = [h for h in self.pool if h.cls == (cls or a.cls) and (h.tags == a.tags or "union" in a.cls)]
        return self.R.choice(l) if l else None

    def val(self):
        n, d = self.R.choice([(2, 1), (3, 1), (-1, 1), (1, 2), (-3, 2), (5, 3), (-2, 1)])
        v = self.lib.val_int_from_si(self.ctx, n)
        return ([n, d], self.lib.val_div(v, self.lib.val_int_from_si(self.ctx, d)))

    def point(self, h, hit=.8):
        """a listed parameter valuation and a point, as a set and a point"""
        R = self.R
        ks = [e for k, e in h.rows.items() if k != "!"]
        if ks and R.random() < hit:
            e = R.choice(ks)
            tag, pv, pt = e[0], e[1], e[2]
        else:
            tag = R.choice(sorted(h.tags)) if h.tags else None
            if not tag:
                return None
            sp = json.loads(tag.replace("'", '"'))
            pv, pt = R.randrange(len(self.world.pvs)), [R.randint(-4, 4) for _ in range(size(sp))]
        if tag == "":
            body = ":"
        else:
            it = iter(map(str, pt))
            t, _ = gen.names_of(json.loads(tag.replace("'", '"')), it)
            body = t + " :"
        cs = " and ".join("%s = %d" % (n, v) for n, v in zip(self.world.names, self.world.pvs[pv]))
        txt = self.pre() + "{ %s %s }" % (body, cs)
        s = self.lib.set_read_from_str(self.ctx, txt.encode())
        p = self.lib.set_sample_point(s) if s else None
        return (dict(key=key(tag, pv, pt)), p) if p else None


def step(P):
    R, lib = P.R, P.lib
    h = P.of(*(["pw_qpolynomial"] * 5 + ["union_pw_qpolynomial"] * 2))
    k = R.random()
    if not h or k < .06:
        return P.newqp() if R.random() < .7 else P.newset(R.random() < .3)
    c = h.cls
    un = "union" in c
    f = "isl_%s_" % c
    g = lambda n: lib.get(f + n)
    if k < .2:
        b = P.same(h)
        if not b:
            return
        o = R.choice(["add", "sub", "mul", "add"])
        if o == "mul" and h.mx * b.mx * h.dx * b.dx > LIM:
            o = "add"
        if o == "mul" and not un and not P.same_params(h, b):
            o = "add"                                    # the product does not align parameters
        if h.dx * b.dx > 400:
            return
        return P.call(o, f + o, [h, b], None, lambda: g(o)(P.cp(h), P.cp(b)), c)
    if k < .26:
        return P.call("neg", f + "neg", [h], None, lambda: g("neg")(P.cp(h)), c)
    if k < .32:
        q, v = P.val()
        o = R.choice(["scale", "scale_down"])
        return P.call(o, f + o + "_val", [h], dict(q=q), lambda: g(o + "_val")(P.cp(h), v), c)
    if k < .36 and not un:
        n = R.choice([0, 1, 2, 2, 3])
        if (h.mx * h.dx) ** max(n, 1) > LIM:
            return
        return P.call("pow", f + "pow", [h], dict(n=n), lambda: g("pow")(P.cp(h), n), c)
    if k < .46:
        sc = "union_set" if un else "set"
        b = P.same(h, sc) if R.random() < .8 else None
        if not b:
            if R.random() < .7:
                return P.newset(un)
            return
        o = R.choice(["intersect_domain", "subtract_domain", "gist", "intersect_domain"])
        if o == "gist":
            # on the context the value is kept
            return P.call("gist", f + "gist", [h, b], None, lambda: g("gist")(P.cp(h), P.cp(b)), c, keep=False)
        n = o
        return P.call(o, f + n, [h, b], None, lambda: g(n)(P.cp(h), P.cp(b)), c)
    if k < .56:
        o = R.choice(["coalesce", "drop_unused_params", "split_periods", "split_dims", "to_polynomial", "coalesce", "split_periods"])
        if un and o not in ("coalesce", "to_polynomial"):
            return
        if o == "split_periods":
            n = R.choice([1, 2, 3, 6])
            return P.call("same", f + o, [h], dict(n=n), lambda: g(o)(P.cp(h), n), c)
        if o == "split_dims":
            t = R.choice([DIM["set"], DIM["param"]]) if P.world.names else DIM["set"]
            n = lib.pw_qpolynomial_dim(h.ptr, DIM["in"] if t == DIM["set"] else t)
            if n < 1:
                return
            a = R.randrange(n)
            m = R.randint(1, n - a)
            return P.call("same", f + o, [h], dict(a=a, n=m), lambda: g(o)(P.cp(h), DIM["in"] if t == DIM["set"] else t, a, m), c)
        if o == "to_polynomial":
            s = R.choice([-1, 0, 1])
            return P.call("topoly", f + o, [h], dict(s=s), lambda: g(o)(P.cp(h), s), c)
        return P.call("same", f + o, [h], None, lambda: g(o)(P.cp(h)), c)
    if k < .6 and not un:
        n = lib.pw_qpolynomial_dim(h.ptr, DIM["in"])
        if n < 1:
            return
        i, v = R.randrange(n), R.randint(-2, 2)
        return P.call("fix", f + "fix_val", [h], dict(i=i, v=v), lambda: g("fix_val")(P.cp(h), DIM["in"], i, lib.val_int_from_si(P.ctx, v)), c)
    if k < .67:
        x = P.point(h)
        if not x:
            return
        return P.ask("eval", f + "eval", [h], x[0], lambda: dict(k="q", q=val_pair(lib, g("eval")(P.cp(h), x[1]))))
    if k < .7 and not un and not P.world.names:
        o = R.choice(["max", "min"])
        return P.ask("opt", f + o, [h], dict(t=dict(max=1, min=0)[o]), lambda: dict(k="q", q=val_pair(lib, g(o)(P.cp(h)))))
    if k < .73:
        if R.random() < .3 and not un:
            return P.ask("is_zero", f + "is_zero", [h], None, lambda: dict(k="b", b=g("is_zero")(h.ptr)))
        b = P.same(h)
        return P.ask("plain_is_equal", f + "plain_is_equal", [h, b], None, lambda: dict(k="b", b=g("plain_is_equal")(h.ptr, b.ptr)))
    if k < .76 and not un:
        b = P.same(h)
        # make them disjoint first
        d = lib.pw_qpolynomial_domain(P.cp(h))
        lib_sub = lib.pw_qpolynomial_subtract_domain(P.cp(b), d)
        return P.call("add_disj", f + "add_disjoint", [h, b], None, lambda: lib.pw_qpolynomial_add_disjoint(P.cp(h), lib_sub), c)
    if k < .84:
        t = R.choice([0, 1])
        tight = C.c_int(-5)
        rc = c + "_fold"
        want = R.random() < .85
        return P.call("bound", f + "bound", [h], dict(t=t, want=want, w=target(h)), lambda: g("bound")(P.cp(h), t, C.byref(tight) if want else None), rc,
                      more=lambda: dict(tight=tight.value if want else 0))
    return fold_step(P, h)


def target(h):
    """which tuple and how many of its coordinates the bound is a function of"""
    w = {"!": []}
    for tag in h.tags:
        sp = json.loads(tag.replace("'", '"')) if tag else None
        if sp is None or len(sp) == 2:
            w[tag or "!p"] = ["", 0]
        else:
            w[tag] = [json.dumps(sp[1], separators=(",", ":")).replace('"', "'"), size(sp[1])]
    return w


def fold_step(P, q):
    R, lib = P.R, P.lib
    h = P.of("pw_qpolynomial_fold", "pw_qpolynomial_fold", "union_pw_qpolynomial_fold")
    k = R.random()
    if not h or k < .15:
        return P.newfold()
    c = h.cls
    un = "union" in c
    f = "isl_%s_" % c
    g = lambda n: lib.get(f + n)
    if k < .19 and not un:
        return P.call("same", "isl_union_pw_qpolynomial_fold_from_pw_qpolynomial_fold", [h], None,
                      lambda: lib.union_pw_qpolynomial_fold_from_pw_qpolynomial_fold(P.cp(h)), "union_" + c)
    if k < .42:
        l = [b for b in P.pool if b.cls == c and (un or b.tags == h.tags) and ftype(b) == ftype(h)]
        b = R.choice(l)
        if ftype(h) is None:
            return
        o = R.choice(["fold", "add"]) if not un else "fold"
        return P.call("fold_fold" if o == "fold" else "fold_add", f + o, [h, b], None, lambda: g(o)(P.cp(h), P.cp(b)), c)
    if k < .5:
        s, v = P.val()
        o = R.choice(["scale", "scale_down"])
        return P.call("f" + o, f + o + "_val", [h], dict(q=s), lambda: g(o + "_val")(P.cp(h), v), c)
    if k < .62:
        b = P.same(h, "union_set" if un else "set")
        if not b:
            return
        o = R.choice(["intersect_domain", "subtract_domain", "gist"])
        return P.call("f" + o, f + o, [h, b], None, lambda: g(o)(P.cp(h), P.cp(b)), c, keep=o != "gist")
    if k < .68:
        return P.call("fsame", f + "coalesce", [h], None, lambda: g("coalesce")(P.cp(h)), c)
    if k < .78:
        x = P.point(h, .9)
        if not x:
            return
        return P.ask("feval", f + "eval", [h], x[0], lambda: dict(k="q", q=val_pair(lib, g("eval")(P.cp(h), x[1]))))
    if k < .82:
        b = P.same(h)
        return P.ask("fplain_is_equal", f + "plain_is_equal", [h, b], None, lambda: dict(k="b", b=g("plain_is_equal")(h.ptr, b.ptr)))
    if k < .86 and not un and not P.world.names:
        o = R.choice(["max", "min"])
        return P.ask("fopt", f + o, [h], dict(t=dict(max=1, min=0)[o]), lambda: dict(k="q", q=val_pair(lib, g(o)(P.cp(h)))))
    tight = C.c_int(-5)
    more = lambda: dict(tight=tight.value)
    if not un and lib.pw_qpolynomial_fold_dim(h.ptr, DIM["param"]) != len(P.world.names):
        return                                           # these do not align parameters
    if k < .91:
        s = P.same(h, "union_set" if un else "set")
        if not s:
            return P.newset(un)
        if any(len(json.loads(t.replace("'", '"'))) > 2 for t in h.tags | s.tags if t):
            return
        n = "isl_union_set_apply_union_pw_qpolynomial_fold" if un else "isl_set_apply_pw_qpolynomial_fold"
        return P.call("apply_s", n, [s, h], None, lambda: lib.get(n)(P.cp(s), P.cp(h), C.byref(tight)), c, more=more)
    if un:
        u = P.of("union_pw_qpolynomial")
        if not u:
            return
        return P.call("fold_addqp", f + "add_union_pw_qpolynomial", [h, u], None, lambda: g("add_union_pw_qpolynomial")(P.cp(h), P.cp(u)), c) \
            if ftype(h) is not None else None
    # through a relation from another tuple
    tag = R.choice(sorted(h.tags)) if h.tags else None
    if not tag:
        return
    sp = json.loads(tag.replace("'", '"'))
    xt, xs = gen.names_of(["C", 1], gen.var_iter("x"))
    yt, ys = gen.names_of(sp, gen.var_iter("y"))
    Sc = G.Sc(R, P.world.names, xs + ys)
    lo = R.randint(-2, 0)
    cs = [G.within(Sc, xs[0], dict(o="x", i=0), lo, lo + R.randint(0, 2))]
    for i, y in enumerate(ys):
        if R.random() < .4:
            cs.append(("%s <= %s" % (y, xs[0]), dict(o="<=", a=dict(o="x", i=1 + i), b=dict(o="x", i=0))))
        elif R.random() < .4:
            cs.append(G.within(Sc, y, dict(o="x", i=1 + i), R.randint(-2, 0), R.randint(0, 2)))
    cd = G.conj(cs)
    txt = P.pre() + "{ %s -> %s : %s }" % (xt, yt, cd[0])
    m = lib.map_read_from_str(P.ctx, txt.encode())
    return P.call("apply_m", "isl_map_apply_pw_qpolynomial_fold", [h], dict(t=txt, c=cd[1], lo=-3, hi=3, tag=tag, rt="['C',1]"),
                  lambda: lib.map_apply_pw_qpolynomial_fold(m, P.cp(h), C.byref(tight)), c, more=more)


def ftype(h):
    return h.ty


def run(lib, R, out, prog, prop, idx, n=30):
    W = Poly(lib, R, out, prog, prop, idx)
    for _ in range(R.randint(2, 4)):
        W.newqp()
    W.newset()
    for _ in range(n):
        step(W)
        while len(W.pool) > 14:
            W.drop(R.choice(W.pool))
    for h in W.pool[:]:
        if R.random() < .3:
            W.ask("look2", "-", [h], None, lambda: dict(k="qp", p=W.value(h.cls, h.ptr)[0]))
    for h in W.pool[:]:
        W.drop(h)
    W.S.close()
    return W.S.stats
