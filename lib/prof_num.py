"""Sessions on numbers (C18)."""
import ctypes as C, json, struct
from session import Sess, ERR
import gen
from isl import World, DIM


def digits(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def num(n, d=1):
    """the recorded form of a fraction; d = 0: NaN and the infinities"""
    if d < 0:
        n, d = -n, -d
    s = (n > 0) - (n < 0)
    return [s, digits(abs(n)) if d else ([1] if s else []), digits(d)]


def parse(t):
    if t == "NaN":
        return num(0, 0)
    if t == "infty":
        return num(1, 0)
    if t == "-infty":
        return num(-1, 0)
    n, _, d = t.partition("/")
    return num(int(n), int(d) if d else 1)


class N:
    __slots__ = ("id", "ptr", "cls", "p", "n")


class Nums:
    def __init__(self, lib, R, out, prog, idx, world):
        self.S = Sess(lib, R, out, prog, "C18", idx, world)
        self.lib, self.R = lib, R
        self.pool, self.nid = [], 0

    def text(self, ptr):
        return self.lib.string(self.lib.get("isl_val_to_str")(ptr))

    def val(self, ptr):
        if not ptr:
            return dict(k="err", e=ERR.get(self.S.last_error(), "?"))
        return dict(k="v", p=parse(self.text(ptr)))

    def mval(self, ptr):
        lib = self.lib
        if not ptr:
            return dict(k="err", e=ERR.get(self.S.last_error(), "?"))
        out = []
        for i in range(lib.multi_val_dim(ptr, DIM["set"])):
            v = lib.multi_val_get_at(ptr, i)
            out.append(parse(self.text(v)))
            lib.val_free(v)
        return dict(k="mv", p=out)

    def call(self, op, f, args, x, fn, cls="val", consume=()):
        ev = dict(op=op, f=f, pr="C18", a=[a.id for a in args], x=x, c=[a.id for a in consume])
        self.S.mark("%d %s" % (self.S.idx, json.dumps(ev)[:-1]))
        for a in consume:
            self.pool.remove(a)
        r = fn()
        v = self.mval(r) if cls == "multi_val" else self.val(r)
        h = None
        if r:
            h = N()
            self.nid += 1
            h.id, h.ptr, h.cls, h.p = self.nid, r, cls, v["p"]
            self.pool.append(h)
        ev.update(g=0, r=h.id if h else 0, v=v)
        self.S.emit(ev)
        return h

    def ask(self, op, f, args, x, fn):
        ev = dict(op=op, f=f, pr="C18", a=[a.id for a in args], x=x, c=[])
        self.S.mark("%d %s" % (self.S.idx, json.dumps(ev)[:-1]))
        v = fn()
        self.S.last_error()
        ev.update(g=0, r=0, v=v)
        self.S.emit(ev)

    def free(self, h):
        self.lib.get("isl_%s_free" % h.cls)(h.ptr)

    def cp(self, h, consume):
        return h.ptr if h in consume else self.lib.get("isl_%s_copy" % h.cls)(h.ptr)


def rand_int(R):
    k = R.random()
    if k < .35:
        return R.randint(-9, 9)
    if k < .5:
        return R.randint(-1000, 1000)
    b = R.choice([15, 16, 30, 31, 32, 33, 47, 61, 62, 63, 64, 65, 90, 127, 128])
    if k < .75:
        n = (1 << b) + R.randint(-2, 2)
    elif k < .9:
        n = R.randrange(1 << b)
    else:
        n = R.randint(1, 20) * R.choice([1 << b, 10 ** (b // 4)])
    return n if R.random() < .6 else -n


def isint(p):
    return p[2] == [1]


def small(p, lim=1 << 40):
    return sum(d * 10000 ** i for i, d in enumerate(p[1])) < lim


def run(lib, R, out, prog, prop, idx):
    S = Nums(lib, R, out, prog, idx, World([], [()]))
    ctx = S.S.ctx
    mk = lib
    # where numbers come from
    for _ in range(R.randint(6, 9)):
        k = R.random()
        n = rand_int(R)
        if k < .12:
            f = R.choice(["zero", "one", "negone", "nan", "infty", "neginfty"])
            S.call("const", "isl_val_" + f, [], dict(p=dict(zero=num(0), one=num(1), negone=num(-1), nan=num(0, 0), infty=num(1, 0), neginfty=num(-1, 0))[f]),
                   lambda: lib.get("isl_val_" + f)(ctx))
        elif k < .3:
            n = max(-(1 << 63), min((1 << 63) - 1, n))
            if n >= 0 and R.random() < .4:
                n = n * 2 + R.randint(0, 1)
                S.call("const", "isl_val_int_from_ui", [], dict(p=num(n)), lambda: lib.val_int_from_ui(ctx, n))
            else:
                S.call("const", "isl_val_int_from_si", [], dict(p=num(n)), lambda: lib.val_int_from_si(ctx, n))
        elif k < .45:
            size = R.choice([1, 2, 4, 8])
            cnt = R.randint(1, 4 if size > 2 else 9)
            by = [R.choice([0, 255, R.randint(0, 255), R.randint(0, 255)]) for _ in range(size * cnt)]
            buf = (C.c_ubyte * len(by))(*by)
            S.call("chunks_in", "isl_val_int_from_chunks", [], dict(b=by, size=size),
                   lambda: lib.val_int_from_chunks(ctx, cnt, size, C.cast(buf, C.c_void_p)))
        elif k < .5:
            e = R.choice([0, 1, 13, 30, 31, 32, 62, 63, 64, 65, 100, R.randint(0, 140)])
            e = -e if R.random() < .3 else e
            S.call("pow2", R.choice(["isl_val_2exp", "isl_val_pow2"]), [], dict(e=e),
                   lambda: lib.val_2exp(lib.val_int_from_si(ctx, e)))
        elif k < .7:
            t = str(n)
            S.call("read", "isl_val_read_from_str", [], dict(p=num(n), t=t), lambda: lib.val_read_from_str(ctx, t.encode()))
        else:
            d = abs(rand_int(R)) or 1
            if R.random() < .3:
                g = R.randint(2, 50)
                n, d = n * g, d * g
            t = R.choice(["%d/%d", "%d / %d"]) % (n, d)
            S.call("read", "isl_val_read_from_str", [], dict(p=num(n, d), t=t), lambda: lib.val_read_from_str(ctx, t.encode()))
    if R.random() < .3:
        t = R.choice(["NaN", "infty", "-infty"])
        S.call("read", "isl_val_read_from_str", [], dict(p=parse(t), t=t), lambda: lib.val_read_from_str(ctx, t.encode()))
    for _ in range(34):
        V = [h for h in S.pool if h.cls == "val"]
        M = [h for h in S.pool if h.cls == "multi_val"]
        if len(V) < 2:
            break
        a, b = R.choice(V), R.choice(V)
        cons = []
        k = R.random()
        if k < .2:
            q = R.choice(["neg", "abs", "inv", "floor", "ceil", "trunc", "neg", "den"])
            if q == "den":
                if a.p[2]:
                    S.call("v1", "isl_val_get_den_val", [a], dict(q=q), lambda: lib.val_get_den_val(a.ptr))
                continue
            if R.random() < .3 and len(V) > 4:
                cons = [a]
            S.call("v1", "isl_val_" + q, [a], dict(q=q), lambda: lib.get("isl_val_" + q)(S.cp(a, cons)), consume=cons)
        elif k < .48:
            q = R.choice(["add", "sub", "mul", "div", "min", "max", "add", "sub", "mul", "div", "mod", "gcd", "gcd", "mod"])
            if q in ("mul", "div") and len(a.p[1]) + len(b.p[1]) + len(a.p[2]) + len(b.p[2]) > 40:
                continue
            if q in ("mod", "gcd"):
                I = [h for h in V if isint(h.p)]
                if R.random() < .1:
                    if not (isint(a.p) and isint(b.p)):
                        S.call("v2", "isl_val_" + q, [a, b], dict(q=q, fails=1), lambda: lib.get("isl_val_" + q)(S.cp(a, cons), S.cp(b, cons)))
                    continue
                if len(I) < 2:
                    continue
                a, b = R.choice(I), R.choice(I)
                if q == "mod" and b.p[0] == 0:
                    continue
            if R.random() < .3 and len(V) > 4:
                cons = [a]
                if R.random() < .5 and b is not a:
                    cons = [b] if R.random() < .4 else [a, b]
            f = "isl_val_" + q
            if b is a and a in cons:
                cons = []
            S.call("v2", f, [a, b], dict(q=q), lambda: lib.get(f)(S.cp(a, cons), S.cp(b, cons)), consume=cons)
        elif k < .56:
            q = R.choice(["add", "sub", "mul", "div"])
            n = R.choice([0, 1, 2, 3, 7, 10, 255, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, R.randrange(1 << 40)])
            f = "isl_val_%s_ui" % q
            if q == "mul" and n == 0 and not a.p[2]:
                continue
            if R.random() < .3 and len(V) > 4:
                cons = [a]
            S.call("v2", f, [a], dict(q=q, n=num(n)), lambda: lib.get(f)(S.cp(a, cons), n), consume=cons)
        elif k < .63:
            q = R.choice(["is_zero", "is_one", "is_negone", "is_nonneg", "is_nonpos", "is_pos", "is_neg", "is_int", "is_rat", "is_nan", "is_infty", "is_neginfty"])
            S.ask("ask1", "isl_val_" + q, [a], dict(q=q), lambda: dict(k="b", b=lib.get("isl_val_" + q)(a.ptr)))
        elif k < .74:
            q = R.choice(["lt", "le", "gt", "ge", "eq", "ne", "abs_eq", "divisible", "lt", "le"])
            if q == "divisible":
                if not (isint(a.p) and isint(b.p)):
                    continue
                f = "isl_val_is_divisible_by"
            else:
                f = "isl_val_" + q
            S.ask("ask2", f, [a, b], dict(q=q), lambda: dict(k="b", b=lib.get(f)(a.ptr, b.ptr)))
        elif k < .8:
            q = R.choice(["eq_si", "gt_si", "cmp_si"])
            n = R.choice([0, 1, -1, 5, -7, 1 << 31, -(1 << 31), (1 << 63) - 1, -(1 << 63), R.randint(-1000, 1000)])
            if R.random() < .5 and isint(a.p) and small(a.p, 1 << 63):
                n = a.p[0] * sum(d * 10000 ** i for i, d in enumerate(a.p[1])) + R.choice([0, 0, 1, -1])
                n = max(-(1 << 63), min((1 << 63) - 1, n))
            if q == "cmp_si":
                if a.p[2] or a.p[0]:
                    S.ask("cmp_si", "isl_val_cmp_si", [a], dict(n=num(n)), lambda: dict(k="i", i=lib.val_cmp_si(a.ptr, n)))
            else:
                S.ask("ask2", "isl_val_" + q, [a], dict(q=q, n=num(n)), lambda: dict(k="b", b=lib.get("isl_val_" + q)(a.ptr, n)))
        elif k < .83:
            if a.p[2] or a.p[0]:
                S.ask("sgn", "isl_val_sgn", [a], dict(z=0), lambda: dict(k="i", i=lib.val_sgn(a.ptr)))
        elif k < .86:
            S.ask("text", "isl_val_to_str", [a], dict(z=0), lambda: dict(k="t", t=S.text(a.ptr)))
        elif k < .89:
            if a.p[2]:
                size = R.choice([1, 2, 4, 8])

                def chunks():
                    n = lib.val_n_abs_num_chunks(a.ptr, size)
                    buf = (C.c_ubyte * (n * size + 8))()
                    st = lib.val_get_abs_num_chunks(a.ptr, size, C.cast(buf, C.c_void_p))
                    return dict(k="ch" if st == 0 else "err", n=n, b=list(buf[:n * size]))
                S.ask("chunks", "isl_val_get_abs_num_chunks", [a], dict(size=size), chunks)
        elif k < .92:
            if a.p[2] and len(a.p[1]) < 20 and len(a.p[2]) < 20:
                def dbl():
                    d = lib.val_get_d(a.ptr)
                    n, q = d.as_integer_ratio()
                    return dict(k="v", p=num(n, q))
                S.ask("double", "isl_val_get_d", [a], dict(z=0), dbl)
            if a.p[2] and small(a.p, 1 << 63):
                S.ask("num_si", "isl_val_get_num_si", [a], dict(z=0), lambda: dict(k="v", p=num(lib.val_get_num_si(a.ptr))))
        elif k < .95:
            I = [h for h in V if isint(h.p)]
            if not I:
                continue
            a, b = R.choice(I), R.choice(I)

            def ext():
                x, y = C.c_void_p(), C.c_void_p()
                g = lib.val_gcdext(lib.val_copy(a.ptr), lib.val_copy(b.ptr), C.byref(x), C.byref(y))
                r = dict(k="g", g=S.val(g)["p"], x=S.val(x.value)["p"], y=S.val(y.value)["p"])
                for q in (g, x.value, y.value):
                    lib.val_free(q)
                return r
            S.ask("gcdext", "isl_val_gcdext", [a, b], dict(z=0), ext)
        else:
            multi(S, V, M)
        while len(S.pool) > 16:
            h = R.choice(S.pool)
            S.pool.remove(h)
            S.free(h)
            S.S.emit(dict(op="drop", a=[h.id]))
    for h in S.pool:
        v = S.mval(h.ptr) if h.cls == "multi_val" else S.val(h.ptr)
        S.S.emit(dict(op="look", a=[h.id], v=v))
    for h in S.pool:
        S.free(h)
    S.pool = []
    S.S.close()
    return S.S.stats


def multi(S, V, M):
    R, lib = S.R, S.lib
    if not M or R.random() < .3:
        n = R.randint(1, 3)
        vs = [R.choice(V) for _ in range(n)]

        def mkv():
            l = lib.val_list_alloc(S.S.ctx, n)
            for v in vs:
                l = lib.val_list_add(l, lib.val_copy(v.ptr))
            sp = lib.space_set_alloc(S.S.ctx, 0, n)
            return lib.multi_val_from_val_list(sp, l)
        S.call("mv_of", "isl_multi_val_from_val_list", vs, dict(z=0), mkv, "multi_val")
        return
    a = R.choice(M)
    k = R.random()
    if k < .35:
        c = [m for m in M if len(m.p) == len(a.p)]
        b = R.choice(c)
        q = R.choice(["add", "sub", "min", "max", "scale_mv", "scale_down_mv", "mod_mv"])
        f = dict(add="isl_multi_val_add", sub="isl_multi_val_sub", min="isl_multi_val_min", max="isl_multi_val_max",
                 scale_mv="isl_multi_val_scale_multi_val", scale_down_mv="isl_multi_val_scale_down_multi_val",
                 mod_mv="isl_multi_val_mod_multi_val")[q]
        if q in ("scale_down_mv",) and any(p[0] == 0 or not p[2] for p in b.p):
            return
        if q == "mod_mv" and not (all(isint(p) for p in a.p + b.p) and all(p[0] > 0 for p in b.p)):
            return
        if sum(len(p[1]) + len(p[2]) for p in a.p + b.p) > 60:
            return
        S.call("mv_" + q, f, [a, b], dict(z=0), lambda: lib.get(f)(S.cp(a, []), S.cp(b, [])), "multi_val")
    elif k < .5:
        S.call("mv_neg", "isl_multi_val_neg", [a], dict(z=0), lambda: lib.multi_val_neg(S.cp(a, [])), "multi_val")
    elif k < .7:
        b = R.choice(V)
        q = R.choice(["scale", "scale_down", "mod", "add_val"])
        if q == "scale_down" and (b.p[0] == 0 or not b.p[2]) or q == "scale" and not b.p[2]:
            return
        if q == "mod" and not (all(isint(p) for p in a.p + [b.p]) and b.p[0] > 0):
            return
        if len(b.p[1]) + len(b.p[2]) + sum(len(p[1]) + len(p[2]) for p in a.p) > 60:
            return
        f = "isl_multi_val_" + (q if q == "add_val" else q + "_val")
        S.call("mv_" + q, f, [a, b], dict(z=0), lambda: lib.get(f)(S.cp(a, []), S.cp(b, [])), "multi_val")
    elif k < .8:
        b, i = R.choice(V), R.randrange(len(a.p))
        f = R.choice(["isl_multi_val_set_at", "isl_multi_val_set_val"])
        S.call("mv_set", f, [a, b], dict(i=i), lambda: lib.get(f)(S.cp(a, []), i, S.cp(b, [])), "multi_val")
    elif k < .9:
        i = R.randrange(len(a.p))
        f = R.choice(["isl_multi_val_get_at", "isl_multi_val_get_val"])
        S.call("mv_at", f, [a], dict(i=i), lambda: lib.get(f)(a.ptr, i))
    else:
        b = R.choice([m for m in M if len(m.p) == len(a.p)])
        q = R.choice(["nan", "zero", "eq"])
        if q == "nan":
            S.ask("mv_nan", "isl_multi_val_involves_nan", [a], dict(z=0), lambda: dict(k="b", b=lib.multi_val_involves_nan(a.ptr)))
        elif q == "zero":
            S.ask("mv_zero", "isl_multi_val_is_zero", [a], dict(z=0), lambda: dict(k="b", b=lib.multi_val_is_zero(a.ptr)))
        else:
            S.ask("mv_eq", "isl_multi_val_plain_is_equal", [a, b], dict(z=0), lambda: dict(k="b", b=lib.multi_val_plain_is_equal(a.ptr, b.ptr)))
