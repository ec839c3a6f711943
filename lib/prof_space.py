"""Sessions on spaces (C24)."""
import json
from session import Sess
from isl import World

PARAM, IN, OUT = 1, 2, 3
NOT = dict(n="", d=0, w=[])


class H:
    __slots__ = ("id", "ptr", "v")


class Spaces:
    def __init__(self, lib, R, S):
        self.lib, self.R, self.S, self.ctx = lib, R, S, S.ctx
        self.pool, self.nid = [], 0

    # ---- names: a letter and a digit for the user datum
    def mk(self, t):
        return self.lib.id_alloc(self.ctx, t[0].encode(), int(t[1]) or None)

    def tok(self, id):
        lib = self.lib
        n = lib.id_get_name(id)
        t = "%s%d" % (n.decode() if n else "?", lib.id_get_user(id) or 0)
        lib.id_free(id)
        return t

    # ---- what a space is, read through its accessors
    def tuple(self, sp):
        """of a set space, which is taken"""
        lib = self.lib
        t = dict(n=self.tok(lib.space_get_tuple_id(sp, OUT)) if lib.space_has_tuple_id(sp, OUT) else "",
                 d=lib.space_dim(sp, OUT), w=[])
        if lib.space_is_wrapping(sp) == 1:
            u = lib.space_unwrap(lib.space_copy(sp))
            t["w"] = [self.tuple(lib.space_domain(lib.space_copy(u))), self.tuple(lib.space_range(lib.space_copy(u)))]
            # a tuple has the parameters of its space
            if self.params(u) != self.params(sp):
                t["z"] = self.params(u)
            lib.space_free(u)
        lib.space_free(sp)
        return t

    def params(self, sp):
        lib = self.lib
        return [self.tok(lib.space_get_dim_id(sp, PARAM, i)) if lib.space_has_dim_id(sp, PARAM, i) == 1 else "?"
                for i in range(lib.space_dim(sp, PARAM))]

    def value(self, sp):
        lib = self.lib
        if not sp:
            return dict(k="none")
        k = "P" if lib.space_is_params(sp) == 1 else "S" if lib.space_is_set(sp) == 1 else "M" if lib.space_is_map(sp) == 1 else "?"
        v = dict(k=k, p=self.params(sp), i=NOT, o=NOT)
        if k == "S":
            v["o"] = self.tuple(lib.space_copy(sp))
        elif k == "M":
            v["i"] = self.tuple(lib.space_domain(lib.space_copy(sp)))
            v["o"] = self.tuple(lib.space_range(lib.space_copy(sp)))
        return v

    # ---- calls
    def ev(self, op, f, args, x, gone=()):
        e = dict(op=op, f=f, pr="C24", a=[a.id for a in args], x=dict(x, z=0), c=[a.id for a in gone])
        self.S.mark("%d %s" % (self.S.idx, json.dumps(e)[:-1]))
        for a in gone:
            self.pool.remove(a)
        return e

    def make(self, op, f, args, fn, x={}, keep=False):
        """fn takes the operands"""
        R, lib = self.R, self.lib
        gone, ps = [], []
        for a in args:
            if not keep and a not in gone and (R.random() < .4 or len(self.pool) > 10):
                gone.append(a)
                ps.append(a.ptr)
            else:
                ps.append(a.ptr if keep else lib.space_copy(a.ptr))
        e = self.ev(op, f, args, x, gone)
        r = fn(*ps)
        v = self.value(r)
        self.S.last_error()
        h = None
        if r:
            h = H()
            self.nid += 1
            h.id, h.ptr, h.v = self.nid, r, v
            self.pool.append(h)
        e.update(g=0, r=h.id if h else 0, v=v)
        self.S.emit(e)
        return h

    def ask(self, op, f, args, fn, x={}):
        e = self.ev(op, f, args, x)
        e.update(g=0, r=0, v=dict(k="n", n=fn(*[a.ptr for a in args])))
        self.S.last_error()
        self.S.emit(e)

    def see(self, h):
        e = self.ev("see", "isl_space_copy", [h], {})
        e.update(g=0, r=0, v=self.value(h.ptr))
        self.S.emit(e)

    def release(self, h):
        e = self.ev("release", "isl_space_free", [h], {}, [h])
        self.lib.space_free(h.ptr)
        e.update(g=0, r=0, v=dict(k="gone"))
        self.S.emit(e)


# operations on one space by the kinds they are for; what they do not apply to for
# another reason has to be refused
ONE = dict(M="domain range params reverse reverse wrap wrap domain_map range_map curry uncurry range_curry zip range_reverse "
             "factor_domain factor_range domain_factor_domain domain_factor_range range_factor_domain range_factor_range "
             "domain_wrapped_domain domain_wrapped_range range_wrapped_domain range_wrapped_range flatten_domain flatten_range".split(),
           S="unwrap unwrap params from_domain from_range map_from_set factor_domain factor_range".split(),
           P="set_from_params params".split())
# (isl_space_is_set holds for parameter spaces too)
WRONG = dict(M="from_domain from_range set_from_params map_from_set unwrap".split(), S="set_from_params".split(),
             P="unwrap".split())
TWO = dict(M="join join product domain_product range_product".split(),
           S="product range_product map_from_domain_and_range".split(), P=[])
ASK1 = "is_params is_set is_map is_wrapping domain_is_wrapping range_is_wrapping is_product can_zip can_curry can_uncurry can_range_curry".split()
ASK2 = "is_equal is_equal has_equal_params has_equal_tuples is_domain is_range".split()


def tuples(v):
    return dict(M=["in", "out"], S=["out"], P=[])[v["k"]]


def step(T):
    R, lib = T.R, T.lib
    g = lambda n: lib.get("isl_space_" + n)
    name = lambda: R.choice("ABBC") + R.choice("0008")
    par = lambda: R.choice("mnk") + R.choice("00008")
    k = R.random()
    if len(T.pool) < 2 or k < .04:
        m, n = R.randint(0, 2), R.randint(0, 2)
        o = R.choice(["params_alloc", "set_alloc", "alloc"])
        T.make(o, "isl_space_" + o, [], dict(params_alloc=lambda: lib.space_params_alloc(T.ctx, 0), set_alloc=lambda: lib.space_set_alloc(T.ctx, 0, n),
                                             alloc=lambda: lib.space_alloc(T.ctx, 0, m, n))[o], dict(m=m, n=n))
        return
    h = R.choice(T.pool)
    if R.random() < .6:
        # the one with more structure
        h = max(h, R.choice(T.pool), key=lambda a: (a.v["k"] == "M", json.dumps(a.v).count("w")))
    v = h.v
    sz = v["i"]["d"] + v["o"]["d"]
    if k < .3:
        o = R.choice(ONE[v["k"]] if R.random() < .93 else WRONG[v["k"]])
        if o in ("domain_map", "range_map", "map_from_set") and sz > 5:
            return
        T.make(o, "isl_space_" + o, [h], g(o))
    elif k < .48:
        o = R.choice(TWO[v["k"]] or [""])
        if not o:
            return
        # mostly operands that go together
        B = [b for b in T.pool if b.v["k"] == v["k"]]
        C = [b for b in B if b.v["p"] == v["p"]]
        F = [b for b in C if dict(join=b.v["i"] == v["o"], domain_product=b.v["o"] == v["o"], range_product=b.v["i"] == v["i"]).get(o, True)]
        b = R.choice(F if F and R.random() < .85 else C if C and R.random() < .8 else B)
        if sz + b.v["i"]["d"] + b.v["o"]["d"] > 9:
            return
        T.make(o, "isl_space_" + o, [h, b], g(o))
    elif k < .54:
        n = R.randint(0, 2)
        if v["k"] == "M" and R.random() < .9:
            return
        if R.random() < .5:
            t = name()
            T.make("add_tuple", "isl_space_add_named_tuple_id_ui", [h], lambda a: lib.space_add_named_tuple_id_ui(a, T.mk(t), n), dict(n=n, t=t))
        else:
            T.make("add_tuple", "isl_space_add_unnamed_tuple_ui", [h], lambda a: lib.space_add_unnamed_tuple_ui(a, n), dict(n=n, t=""))
    elif k < .62:
        q = tuples(v)
        if not q:
            return
        w = R.choice(q)
        d = IN if w == "in" else OUT
        t = name() if R.random() < .75 else ""
        if t and R.random() < .5 and v["k"] == "M":
            f = "isl_space_set_%s_tuple_id" % ("domain" if w == "in" else "range")
            T.make("name_" + w, f, [h], lambda a: lib.get(f)(a, T.mk(t)), dict(t=t))
        elif t and t[1] == "0" and R.random() < .4:
            T.make("name_" + w, "isl_space_set_tuple_name", [h], lambda a: lib.space_set_tuple_name(a, d, t[0].encode()), dict(t=t))
        elif t:
            T.make("name_" + w, "isl_space_set_tuple_id", [h], lambda a: lib.space_set_tuple_id(a, d, T.mk(t)), dict(t=t))
        else:
            T.make("name_" + w, "isl_space_reset_tuple_id", [h], lambda a: lib.space_reset_tuple_id(a, d), dict(t=t))
    elif k < .74:
        o = R.choice(["add_param", "add_param", "align", "align", "rename", "drop", "all", "user"])
        p = v["p"]
        if o == "add_param":
            t = par()
            T.make("add_param", "isl_space_add_param_id", [h], lambda a: lib.space_add_param_id(a, T.mk(t)), dict(t=t))
        elif o == "align":
            b = R.choice(T.pool)
            T.make("align_params", "isl_space_align_params", [h, b], lib.space_align_params)
        elif o == "rename" and p:
            i, t = R.randrange(len(p)), par()
            if t not in p[:i] + p[i + 1:]:
                T.make("rename_param", "isl_space_set_dim_id", [h], lambda a: lib.space_set_dim_id(a, PARAM, i, T.mk(t)), dict(i=i, t=t))
        elif o == "drop":
            i = R.randint(0, len(p))
            n = R.randint(0, len(p) - i)
            T.make("drop_params", "isl_space_drop_dims", [h], lambda a: lib.space_drop_dims(a, PARAM, i, n), dict(i=i, n=n))
        elif o == "all" and R.random() < .5:
            T.make("drop_all_params", "isl_space_drop_all_params", [h], lib.space_drop_all_params)
        elif o == "user" and len({t[0] for t in p}) == len(p):
            T.make("reset_user", "isl_space_reset_user", [h], lib.space_reset_user)
    elif k < .77:
        q = tuples(v)
        if not q:
            return
        w = R.choice(q)
        d, n = (IN, v["i"]["d"]) if w == "in" else (OUT, v["o"]["d"])
        s = "_in_dims" if w == "in" else "_dims"
        if R.random() < .5:
            m = R.randint(0, 2)
            T.make("add" + s, "isl_space_add_dims", [h], lambda a: lib.space_add_dims(a, d, m), dict(n=m))
        else:
            i = R.randint(0, n)
            m = R.randint(0, n - i)
            T.make("drop" + s, "isl_space_drop_dims", [h], lambda a: lib.space_drop_dims(a, d, i, m), dict(n=m))
    elif k < .81:
        txt = json.dumps(v)
        if "8" in txt:
            return

        def reread(a):
            t = lib.string(lib.space_to_str(a))
            return lib.space_read_from_str(T.ctx, t.encode())
        T.make("reread", "isl_space_read_from_str", [h], reread, keep=True)
    elif k < .84:
        T.make("copy", "isl_space_copy", [h], lib.space_copy, keep=True)
    elif k < .89:
        o = R.choice(ASK1)
        T.ask(o, "isl_space_" + o, [h], g(o))
    elif k < .95:
        b = R.choice(T.pool)
        if R.random() < .5:
            # an equal space made another way
            C = [c for c in T.pool if c is not h and c.v == v]
            b = R.choice(C) if C else b
        if R.random() < .25 and tuples(v) and tuples(b.v):
            s, t = R.choice(tuples(v)), R.choice(tuples(b.v))
            T.ask("tuple_equal", "isl_space_tuple_is_equal", [h, b],
                  lambda a, c: lib.space_tuple_is_equal(a, IN if s == "in" else OUT, c, IN if t == "in" else OUT), dict(s=s, t=t))
        else:
            o = R.choice(ASK2)
            if o in ("is_domain", "is_range"):
                M = [c for c in T.pool if c.v["k"] == "M"]
                b = R.choice(M or [b])
                F = [c for c in T.pool if c.v["k"] == "S" and c.v["o"] in (b.v["i"], b.v["o"])]
                h = R.choice(F) if F and R.random() < .8 else h
            T.ask(o, "isl_space_" + o, [h, b], g(o))
    else:
        o = R.choice(["id", "name", "has", "dim"])
        q = tuples(v)
        if o == "id":
            t = R.choice(v["p"]) if v["p"] and R.random() < .6 else par()

            def find(a):
                i = T.mk(t)
                r = lib.space_find_dim_by_id(a, PARAM, i)
                lib.id_free(i)
                return r
            T.ask("find_by_id", "isl_space_find_dim_by_id", [h], find, dict(t=t))
        elif o == "name":
            t = par()
            T.ask("find_by_name", "isl_space_find_dim_by_name", [h], lambda a: lib.space_find_dim_by_name(a, PARAM, t[0].encode()), dict(t=t))
        elif o == "has" and q:
            w = R.choice(q)
            T.ask("has_name", "isl_space_has_tuple_name", [h], lambda a: lib.space_has_tuple_name(a, IN if w == "in" else OUT), dict(s=w))
        else:
            w = R.choice(q + ["param"])
            T.ask("dims", "isl_space_dim", [h], lambda a: lib.space_dim(a, dict(param=PARAM, out=OUT)[w] if w != "in" else IN), dict(s=w))


def run(lib, R, out, prog, prop, idx):
    S = Sess(lib, R, out, prog, prop, idx, World([], [()]), W=2)
    lib.options_set_on_error(S.ctx, 1)
    T = Spaces(lib, R, S)
    for _ in range(70):
        step(T)
        if len(T.pool) > 12 or T.pool and R.random() < .1:
            h = R.choice(T.pool)
            if R.random() < .5:
                T.see(h)
            T.release(h)
    while T.pool:
        h = T.pool[R.randrange(len(T.pool))]
        T.see(h)
        T.release(h)
    S.close()
    return S.stats
