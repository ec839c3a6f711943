"""Sessions on lists, keyed containers and identifiers (C19)."""
import ctypes as C, json
from session import Sess, ERR
from isl import World

KEEP = []      # callbacks the library may still call

TEXTS = {
    "val": ["0", "1", "-7", "3/2", "infty", "12345678901234567890"],
    "set": ["{ [i] : 0 <= i <= 3 }", "{ A[i] }", "{ B[] }", "[n] -> { [n] }", "{ [i, j] : i = 2j }"],
    "basic_set": ["{ [i] : i >= 1 }", "{ A[2] }", "{ B[] }", "{ [i, j] : i <= j }"],
    "map": ["{ [i] -> [i + 1] }", "{ A[] -> B[] }", "{ [i] -> [j] : i < j }", "{ A[i] -> A[2] }"],
    "pw_aff": ["{ [i] -> [(i)] }", "{ [i] -> [(2)] : i > 0 }", "[n] -> { [(n)] }"],
    "union_set": ["{ A[]; B[] }", "{ [i] : i > 3 }", "{  }"],
    "aff": ["{ [i] -> [(i)] }", "{ [i] -> [(2 + i)] }", "{ [i] -> [(floor((i)/2))] }"],
    "ast_expr": ["3", "-1", "8"],
}
DICTS = {"id_to_id": ("id", "id"), "id_to_pw_aff": ("id", "pw_aff"), "id_to_ast_expr": ("id", "ast_expr"),
         "map_to_basic_set": ("map", "basic_set")}


class Maybe(C.Structure):
    _fields_ = [("valid", C.c_int), ("value", C.c_void_p)]


class H:
    __slots__ = ("id", "ptr", "k", "cls", "v")


class Conts:
    def __init__(self, lib, R, S):
        self.lib, self.R, self.S, self.ctx = lib, R, S, S.ctx
        self.pool, self.nid, self.fired, self.hooks = [], 0, [], {}
        self.texts = {}
        for cls, ts in TEXTS.items():
            self.texts[cls] = []
            for t in ts:
                p = self.el(cls, t)
                self.texts[cls].append(self.tok(cls, p))
                self.free(cls, p)

    # ---- elements
    def el(self, cls, t):
        """a fresh reference to the element with this token"""
        if cls == "id":
            name, _, user = t.rpartition("@")
            return self.lib.id_alloc(self.ctx, None if name == "!" else name.encode(), int(user) or None)
        if cls == "ast_expr":
            return self.lib.ast_expr_from_val(self.lib.val_int_from_si(self.ctx, int(t)))
        return self.lib.get("isl_%s_read_from_str" % cls)(self.ctx, t.encode())

    def tok(self, cls, p):
        lib = self.lib
        if cls == "id":
            n = lib.id_get_name(p)
            return "%s@%d" % ("!" if n is None else n.decode(), lib.id_get_user(p) or 0)
        if cls == "ast_expr":
            return lib.string(lib.ast_expr_to_C_str(p)).strip()
        return lib.string(lib.get("isl_%s_to_str" % cls)(p))

    def free(self, cls, p):
        if p:
            self.lib.get("isl_%s_free" % cls)(p)

    def some(self, cls):
        """the token of an element"""
        R = self.R
        if cls == "id":
            live = [h.v["i"] for h in self.pool if h.k == "id"]
            if live and R.random() < .6:
                return R.choice(live)
            n = R.choice(["a", "a", "a", "b", "c", "!"])
            return "%s@%d" % (n, R.choice([8, 16, 24, 32, 40, 48]) if n == "!" or R.random() < .75 else 0)
        return R.choice(self.texts[cls])

    # ---- what a container holds
    def value(self, k, cls, p):
        lib = self.lib
        if not p:
            return dict(k="err")
        if k == "id":
            return dict(k="id", i=self.tok("id", p))
        if k == "list":
            n, out = lib.get("isl_%s_list_size" % cls)(p), []
            for i in range(n):
                e = lib.get("isl_%s_list_get_at" % cls)(p, i)
                out.append(self.tok(cls, e))
                self.free(cls, e)
            return dict(k="list", s=out)
        kc, vc = DICTS[cls]
        out = []

        def fn(a, b, u):
            out.append([self.tok(kc, a), self.tok(vc, b)])
            self.free(kc, a)
            self.free(vc, b)
            return 0
        cb = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p)(fn)
        r = lib.get("isl_%s_foreach" % cls)(p, C.cast(cb, C.c_void_p), None)
        return dict(k="dict", p=sorted(out), z=r)

    # ---- calls
    def do(self, op, f, args, x, fn, out=None, gone=()):
        """fn() is called; out: None (it returns the recorded value) or the kind and class of the object it returns"""
        S = self.S
        ev = dict(op=op, f=f, pr="C19", a=[a.id for a in args], x=dict(x, z=0), c=[a.id for a in gone])
        S.mark("%d %s" % (S.idx, json.dumps(ev)[:-1]))
        for a in gone:
            if a in self.pool:
                self.pool.remove(a)
        r = fn()
        h = None
        if out:
            v = self.value(out[0], out[1], r)
            if r:
                h = H()
                self.nid += 1
                h.id, h.ptr, h.k, h.cls, h.v = self.nid, r, out[0], out[1], v
                self.pool.append(h)
        else:
            v = r
        S.last_error()
        fired, self.fired = self.fired, []
        v["fired"] = fired
        for g in set(fired):
            self.hooks = {t: q for t, q in self.hooks.items() if q != g}
        ev["c"] += sorted(set(fired))
        ev.update(g=0, r=v.pop("r", h.id if h else 0), v=v)
        S.emit(ev)
        return h

    def give(self, h, gone):
        """a reference to the object of h to be taken"""
        if h.k != "id" and self.R.random() < .6 or h.k == "id" and self.R.random() < .3 or len(self.pool) > 9:
            if h not in gone:
                gone.append(h)
                return h.ptr
        return self.copy(h)

    def copy(self, h):
        n = "id" if h.k == "id" else h.cls + "_list" if h.k == "list" else h.cls
        return self.lib.get("isl_%s_copy" % n)(h.ptr)

    def release(self, h):
        n = "id" if h.k == "id" else h.cls + "_list" if h.k == "list" else h.cls

        def fn():
            self.lib.get("isl_%s_free" % n)(h.ptr)
            return dict(k="none")
        self.do("release", "isl_%s_free" % n, [h], {}, fn, gone=[h])

    def elem(self, cls, gone):
        """an element to be taken: its token and a function that makes it"""
        if cls == "id":
            I = [h for h in self.pool if h.k == "id"]
            if I and self.R.random() < .7:
                h = self.R.choice(I)
                if h not in gone and self.R.random() < .5:
                    gone.append(h)
                    return h.v["i"], lambda: h.ptr
                return h.v["i"], lambda: self.lib.id_copy(h.ptr)
        t = self.some(cls)
        return t, lambda: self.el(cls, t)


FN = dict(el=C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p), cmp=C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p),
          map=C.CFUNCTYPE(C.c_void_p, C.c_void_p, C.c_void_p), user=C.CFUNCTYPE(None, C.c_void_p))


def ids(T):
    R, lib = T.R, T.lib
    I = [h for h in T.pool if h.k == "id"]
    k = R.random()
    if len(I) < 3 or k < .35:
        t = T.some("id")
        T.do("i_alloc", "isl_id_alloc", [], dict(t=t), lambda: T.el("id", t), ("id", ""))
        return
    h = R.choice(I)
    if k < .45:
        T.do("i_copy", "isl_id_copy", [h], {}, lambda: lib.id_copy(h.ptr), ("id", ""))
    elif k < .65:
        g = R.choice(I)
        T.do("i_eq", "isl_id_alloc", [h, g], {}, lambda: dict(k="n", n=int(h.ptr == g.ptr)))
    elif k < .85 and h.v["i"] not in T.hooks:
        t = h.v["i"]
        T.nid += 1
        hid = T.nid
        user = int(t.rpartition("@")[2])

        def freed(u):
            T.fired.append(hid if (u or 0) == user else -1)
        cb = FN["user"](freed)
        KEEP.append(cb)

        def fn():
            lib.id_set_free_user(h.ptr, C.cast(cb, C.c_void_p))
            return dict(k="hook", i=t, r=hid)
        T.hooks[t] = hid
        T.do("i_hook", "isl_id_set_free_user", [h], {}, fn)
    else:
        T.release(h)


def lists(T, cls):
    R, lib = T.R, T.lib
    L = [h for h in T.pool if h.k == "list" and h.cls == cls]
    pre = "isl_%s_list_" % cls
    out = ("list", cls)
    g = lambda n: lib.get(pre + n)
    if not L or R.random() < .08:
        gone = []
        t, mk = T.elem(cls, gone)
        if R.random() < .4:
            n = R.randint(0, 3)
            T.do("l_alloc", pre + "alloc", [], dict(n=n), lambda: g("alloc")(T.ctx, n), out)
        else:
            f = R.choice([pre + "from_" + cls, "isl_%s_to_list" % cls])
            T.do("l_from", f, gone[:], dict(t=t), lambda: lib.get(f)(mk()), out, gone)
        return
    h = R.choice(L)
    s = h.v["s"]
    n = len(s)
    op = R.choice(["add", "add", "add", "insert", "insert", "drop", "clear", "concat", "concat", "swap", "reverse", "set", "get", "get",
                   "size", "copy", "foreach", "every", "map", "sort", "sort", "scc", "scc"])
    gone = []
    if op in ("add", "insert", "set"):
        t, mk = T.elem(cls, gone)
        a = [h] + gone[:]
        p = T.give(h, gone)
        if op == "add":
            T.do("l_add", pre + "add", a, dict(t=t), lambda: g("add")(p, mk()), out, gone)
        elif op == "insert":
            i = R.randint(0, n) if R.random() < .93 else n + R.randint(1, 2)
            T.do("l_insert", pre + "insert", a, dict(t=t, i=i), lambda: g("insert")(p, i, mk()), out, gone)
        else:
            i = R.randrange(n) if n and R.random() < .93 else R.choice([-1, n])
            T.do("l_set", pre + "set_" + cls, a, dict(t=t, i=i), lambda: g("set_" + cls)(p, i, mk()), out, gone)
    elif op == "drop":
        i = R.randint(0, n)
        k = R.randint(0, n - i) if R.random() < .93 else n - i + 1
        p = T.give(h, gone)
        T.do("l_drop", pre + "drop", [h], dict(i=i, n=k), lambda: g("drop")(p, i, k), out, gone)
    elif op in ("clear", "reverse"):
        if op == "clear" and R.random() < .6:
            return
        p = T.give(h, gone)
        T.do("l_" + op, pre + op, [h], {}, lambda: g(op)(p), out, gone)
    elif op == "concat":
        b = R.choice(L)
        if n + len(b.v["s"]) > 14:
            return
        p = T.give(h, gone)
        q = T.give(b, gone)
        T.do("l_concat", pre + op, [h, b], {}, lambda: g(op)(p, q), out, gone)
    elif op == "swap":
        if n:
            i, j = R.randrange(n), R.randrange(n)
            if i == j:
                return
            p = T.give(h, gone)
            T.do("l_swap", pre + op, [h], dict(i=i, j=j), lambda: g(op)(p, i, j), out, gone)
    elif op == "get":
        i = R.randrange(n) if n and R.random() < .93 else R.choice([-1, n])
        f = R.choice(["get_at", "get_" + cls])

        def get():
            e = g(f)(h.ptr, i)
            if not e:
                return dict(k="err")
            t = T.tok(cls, e)
            T.free(cls, e)
            return dict(k="el", i=t)
        if cls == "id":
            T.do("l_get", pre + f, [h], dict(i=i), lambda: g(f)(h.ptr, i), ("id", ""))
        else:
            T.do("l_get", pre + f, [h], dict(i=i), get)
    elif op == "size":
        f = R.choice(["size", "n_" + cls])
        T.do("l_size", pre + f, [h], {}, lambda: dict(k="n", n=g(f)(h.ptr)))
    elif op == "copy":
        T.do("l_copy", pre + op, [h], {}, lambda: g(op)(h.ptr), out)
    elif op in ("foreach", "every"):
        bad = R.sample(sorted(set(s)), min(len(set(s)), 1)) if R.random() < .5 else []
        seen = []

        def each(e, u):
            t = T.tok(cls, e)
            seen.append(t)
            if op == "foreach":
                T.free(cls, e)
                return -1 if t in bad else 0
            return 0 if t in bad else 1
        cb = FN["el"](each)
        T.do("l_" + op, pre + op, [h], dict(b=bad), lambda: dict(k="n", n=g(op)(h.ptr, C.cast(cb, C.c_void_p), None), seen=seen))
    elif op == "map":
        f = [[t, T.some(cls)] for t in sorted(set(s))]
        d = dict(map(tuple, f))

        def repl(e, u):
            t = T.tok(cls, e)
            T.free(cls, e)
            return T.el(cls, d[t])
        cb = FN["map"](repl)
        p = T.give(h, gone)
        T.do("l_map", pre + op, [h], dict(f=f), lambda: g(op)(p, C.cast(cb, C.c_void_p), None), out, gone)
    elif op == "sort":
        f = [[t, R.randint(0, 3)] for t in sorted(set(s))]
        d = dict(map(tuple, f))
        cb = FN["cmp"](lambda a, b, u: d[T.tok(cls, a)] - d[T.tok(cls, b)])
        p = T.give(h, gone)
        T.do("l_sort", pre + op, [h], dict(f=f), lambda: g(op)(p, C.cast(cb, C.c_void_p), None), out, gone)
    elif op == "scc":
        if len(set(s)) != n:
            return
        p = R.choice([.15, .3, .5])
        fol = [[a, b] for a in s for b in s if R.random() < p]
        fs = set(map(tuple, fol))
        comps = []
        c1 = FN["cmp"](lambda a, b, u: int((T.tok(cls, a), T.tok(cls, b)) in fs))

        def comp(l, u):
            comps.append(T.value("list", cls, l)["s"])
            g("free")(l)
            return 0
        c2 = FN["el"](comp)

        def go():
            g("foreach_scc")(h.ptr, C.cast(c1, C.c_void_p), None, C.cast(c2, C.c_void_p), None)
            return dict(k="sccs", c=comps)
        T.do("l_scc", pre + "foreach_scc", [h], dict(e=fol), go)


def dicts(T, cls):
    R, lib = T.R, T.lib
    kc, vc = DICTS[cls]
    D = [h for h in T.pool if h.k == "dict" and h.cls == cls]
    pre = "isl_%s_" % cls
    out = ("dict", cls)
    g = lambda n: lib.get(pre + n)
    if not D or R.random() < .05:
        n = R.choice([0, 0, 1, 2, 8])
        T.do("d_alloc", pre + "alloc", [], dict(n=n), lambda: g("alloc")(T.ctx, n), out)
        return
    h = R.choice(D)
    keys = [r[0] for r in h.v["p"]]
    op = R.choice(["set", "set", "set", "set", "drop", "drop", "has", "get", "try_get", "copy"])
    gone = []
    if keys and R.random() < (.35 if op == "set" else .75):
        t = R.choice(keys)
        mk = lambda: T.el(kc, t)
    else:
        t, mk = T.elem(kc, gone) if op in ("set", "drop", "get") else (T.some(kc), None)
        mk = mk or (lambda: T.el(kc, t))
    if op == "set":
        u, mu = T.elem(vc, gone)
        a = [h] + gone[:]
        p = T.give(h, gone)
        T.do("d_set", pre + op, a, dict(t=t, u=u), lambda: g(op)(p, mk(), mu()), out, gone)
    elif op == "drop":
        a = [h] + gone[:]
        p = T.give(h, gone)
        T.do("d_drop", pre + op, a, dict(t=t), lambda: g(op)(p, mk()), out, gone)
    elif op == "copy":
        T.do("d_copy", pre + op, [h], {}, lambda: g(op)(h.ptr), out)
    elif op == "has":
        def has():
            k = mk()
            r = g(op)(h.ptr, k)
            T.free(kc, k)
            return dict(k="n", n=r)
        T.do("d_has", pre + op, [h], dict(t=t), has)
    else:
        def get():
            if op == "get":
                e = g(op)(h.ptr, mk())
            else:
                k = mk()
                f = getattr(lib.dll, pre + "try_get")
                f.restype, f.argtypes = Maybe, [C.c_void_p, C.c_void_p]
                m = f(h.ptr, k)
                T.free(kc, k)
                e = m.value
                if (m.valid == 1) != bool(e):
                    T.free(vc, e)
                    return dict(k="maybe")
            if not e:
                return dict(k="err")
            r = T.tok(vc, e)
            T.free(vc, e)
            return dict(k="el", i=r)
        T.do("d_get", pre + op, [h] + gone[:], dict(t=t), get, None, gone)


def run(lib, R, out, prog, prop, idx):
    S = Sess(lib, R, out, prog, prop, idx, World([], [()]), W=2)
    lib.options_set_on_error(S.ctx, 1)
    T = Conts(lib, R, S)
    del KEEP[:-4000]
    lc = R.sample(["id", "id", "id", "val", "set", "basic_set", "map", "pw_aff", "union_set", "aff", "ast_expr"], 2)
    dc = R.sample(sorted(DICTS) + ["id_to_id"], 1)
    for _ in range(45):
        k = R.random()
        if k < .3:
            ids(T)
        elif k < .66:
            lists(T, R.choice(lc))
        elif k < .92:
            dicts(T, R.choice(dc))
        elif T.pool:
            h = R.choice(T.pool)
            if R.random() < .5:
                T.do("see", "isl_%s_copy" % (h.cls or "id"), [h], {}, lambda: T.value(h.k, h.cls, h.ptr))
            else:
                T.release(h)
    while T.pool:
        h = T.pool[R.randrange(len(T.pool))]
        if R.random() < .4:
            T.do("see", "isl_%s_copy" % (h.cls or "id"), [h], {}, lambda: T.value(h.k, h.cls, h.ptr))
        T.release(h)
    S.close()
    return S.stats
