"""Sessions editing schedule trees (C14): every held node is a handle, every
edit or move makes a new one, every other handle has to stay what it was."""
import ctypes as C, json
import gen, gexpr as G, gsched as P, gtree, gast
import isl as I
from session import Sess, ERR

CBN = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)
CBM = C.CFUNCTYPE(C.c_void_p, C.c_void_p, C.c_void_p)


def good_position(R, t):
    """usually one where a node can be inserted"""
    ps = positions(t)
    ok = [p for p in ps if p and "l" not in at(t, p[:-1])]
    sq = [p for p in ps if at(t, p)["t"] == "seq" and any(c["k"]["t"] == "seq" for c in at(t, p)["l"])]
    if sq and R.random() < .3:
        return R.choice(sq)
    return R.choice(ok if ok and R.random() < .9 else ps)


def at(t, p):
    for i in p:
        t = t["l"][i] if "l" in t else t["k"]
    return t


class Nd:
    __slots__ = ("id", "ptr", "t", "p", "js")

    def at(self):
        return at(self.t, self.p)

    def depth(self):
        t, n = self.t, 0
        for i in self.p:
            n += t["n"] if t["t"] == "band" else 0
            t = t["l"][i] if "l" in t else t["k"]
        return n


def positions(t):
    """all paths of t"""
    out = [[]]
    ks = t.get("l") or ([t["k"]] if "k" in t else [])
    for i, k in enumerate(ks):
        out += [[i] + p for p in positions(k)]
    return out


def kinds(t):
    return [t["t"]] + [x for k in t.get("l") or ([t["k"]] if "k" in t else []) for x in kinds(k)]


def covered(t, k, S):
    """the filters below each sequence and set node leave out no instance that gets there (as isl assumes)"""
    if t["t"] == "domain":
        S = set(t["d"][k])
    elif t["t"] == "filter":
        S = S & set(t["f"][k])
    elif "l" in t and not S <= set(i for c in t["l"] for i in c["f"][k]):
        return False
    return all(covered(c, k, S) for c in t.get("l") or ([t["k"]] if "k" in t else []))


class Trees:
    def __init__(self, S):
        self.S, self.lib, self.R = S, S.lib, S.R
        self.ps = S.world.names
        R = self.R
        self.sts = P.statements(R, self.ps, nst=R.choice([1, 2, 2, 3]), width=2, cp=.15)
        for st in self.sts:
            if R.random() < .3:                          # smaller instance sets
                st["t"] = st["t"] + (" and " if ":" in st["t"] else " : ") + ("%s <= %d" % (P.VS[0], st["rg"][0][0] + 1) if st["d"] else "0 = 0")
        self.dom = P.domain_text(self.ps, self.sts)
        self.U = gtree.Universe(S, self.uset(self.dom))
        self.pool = []

    def uset(self, t):
        return self.S.lib.union_set_read_from_str(self.S.ctx, t.encode())

    def umap(self, t):
        return self.S.lib.union_map_read_from_str(self.S.ctx, t.encode())

    # ---- values ----
    def path(self, n):
        """keeps n"""
        lib, p = self.lib, []
        n = lib.schedule_node_copy(n)
        while lib.schedule_node_has_parent(n) == 1:
            p.insert(0, lib.schedule_node_get_child_position(n))
            n = lib.schedule_node_parent(n)
        lib.schedule_node_free(n)
        return p

    def value(self, n, U=None):
        """keeps n"""
        U = U or self.U
        return dict(k="tree", t=gtree.node(self.S, U, self.lib.schedule_node_root(self.lib.schedule_node_copy(n))), p=self.path(n))

    def hold(self, ptr, v):
        h = Nd()
        self.S.nid += 1
        h.id, h.ptr, h.t, h.p = self.S.nid, ptr, v["t"], v["p"]
        self.pool.append(h)
        return h

    def input(self, ptr):
        """a node from outside (not the subject of a judgement)"""
        v = self.value(ptr)
        h = self.hold(ptr, v)
        self.S.emit(dict(op="input", r=h.id, v=v))
        return h

    def start(self, s, y):
        """the tree of a text: has to be readable"""
        self.ask("t_read", "isl_schedule_read_from_str", [], lambda: 1 if s else 0, lambda r, e: dict(k="q", v=r), dict(y=y))
        if s:
            try:
                self.input(self.lib.schedule_get_root(s))
            finally:
                self.lib.schedule_free(s)

    def drop(self, h):
        self.lib.schedule_node_free(h.ptr)
        self.pool.remove(h)
        self.S.emit(dict(op="drop", a=[h.id]))

    def same(self, h):
        """h still is what it was"""
        v = self.value(h.ptr)
        self.S.emit(dict(op="t_same", f="held", pr=self.S.prop, a=[h.id], x=dict(z=0), c=[], g=0, r=0, v=v))

    def edit(self, sem, f, args, call, x=None, keep=True):
        """call() gives a node (or null)"""
        S, lib = self.S, self.lib
        got = []

        def conv(r, e):
            if not r:
                return dict(k="err", e=ERR.get(e, "?"))
            got.append(r)
            return self.value(r)
        ev = '{"op":"%s","f":"%s","pr":"%s","a":[%s],"x":%s,"c":[],' % (
            sem, f, S.prop, ",".join(str(h.id) for h in args), json.dumps(x or {"z": 0}, separators=(",", ":")))
        S.mark(json.dumps(S.idx) + " " + ev)
        lib.ctx_reset_operations(S.ctx)
        res = call()
        e = lib.ctx_last_error(S.ctx)
        S.last_error()
        lib.ctx_reset_operations(S.ctx)
        if e == 6:
            if res:
                lib.schedule_node_free(res)
            S.stats["giveup"] += 1
            S.emit_raw(ev + '"g":1,"r":0}')
            return None
        try:
            v = conv(res, e)
        except I.Undecided:
            S.last_error()
            S.stats["undecided"] += 1
            lib.schedule_node_free(res)
            S.emit_raw(ev + '"g":2,"r":0}')
            return None
        S.last_error()
        h = None
        if res and keep and all(covered(v["t"], k, set()) for k in range(len(self.U.pvs))):
            h = self.hold(res, v)
        elif res:
            lib.schedule_node_free(res)
        S.emit_raw(ev + '"g":0,"r":%d,"v":%s}' % (h.id if h else 0, json.dumps(v, separators=(",", ":"))))
        return h

    def ask(self, sem, f, args, call, conv, x=None):
        self.S.raw(sem, f, args, call, conv, x)

    # ---- arguments ----
    def bandarg(self, m):
        """-> (mupa, table per parameter value)"""
        R = self.R
        nd, tx = P.band(R, self.ps, self.sts, m, None, .8)
        parts = tx[tx.index("["):] if not self.ps else tx[tx.index("-> ") + 3:]
        mu = self.lib.multi_union_pw_aff_read_from_str(self.S.ctx, tx.encode())
        tabs = []
        for mem in parts[1:-1].split("}, "):
            mem = mem if mem.endswith("}") else mem + "}"
            tabs.append(self.U.table(self.umap(P.pre(self.ps) + mem)))
        out = [[[c for t in tabs for c in t[k][i]] for i in range(len(self.U.inst[k]))] for k in range(len(self.U.pvs))]
        return mu, out, tx

    def filters(self, part=True):
        """texts of union sets; part: they are disjoint and cover all"""
        R, ps, sts = self.R, self.ps, self.sts
        if part and len(sts) > 1 and R.random() < .5:
            l = list(sts)
            R.shuffle(l)
            k = R.randint(1, len(l) - 1)
            groups = [[(s, P.TRUE) for s in l[:k]], [(s, P.TRUE) for s in l[k:]]]
            if len(groups[1]) > 1 and R.random() < .5:
                groups = [groups[0]] + [[g] for g in groups[1]]
        else:
            cs = []
            for s in sts:
                k = R.random()
                sc = P.scope(R, ps, s)
                cs.append(P.TRUE if k < .2 else G.FALSE if k < .3 and hasattr(G, "FALSE") else G.cmp(sc, 0) if s["d"] or ps else P.TRUE)
            groups = [[(s, c) for s, c in zip(sts, cs)]]
            if part:
                groups.append([(s, G.neg(c)) for s, c in zip(sts, cs)])
                if R.random() < .5:
                    groups.reverse()
        return [P.filt(R, ps, [s for s, c in g], [c for s, c in g])[1] for g in groups]

    def ctxset(self, depth):
        R, ps = self.R, self.ps
        vs = ["c%d" % i for i in range(depth)]
        cl = ["-3 <= %s <= 4" % v for v in vs]
        if R.random() < .8 and (vs or ps):
            cl.append(G.cmp(G.Sc(R, ps, vs), 0)[0])
        return P.pre(ps) + "{ [%s]%s }" % (", ".join(vs), " : " + " and ".join(cl) if cl else "")

    def mv(self, m, f=lambda R: R.randint(1, 4), d=None):
        R, lib = self.R, self.lib
        vals = [f(R) for _ in range(m)]
        dens = [d(R) if d else 1 for _ in range(m)]
        return lib.multi_val_read_from_str(self.S.ctx, ("{ [%s] }" % ", ".join("%d/%d" % (v, q) if q > 1 else "%d" % v for v, q in zip(vals, dens))).encode()), \
            [[v, q] for v, q in zip(vals, dens)]


def node_op(T, h):
    """one edit at h"""
    S, lib, R, U = T.S, T.lib, T.R, T.U
    t = h.at()
    n = lambda: lib.schedule_node_copy(h.ptr)
    cp = lambda o, f: f
    band = t["t"] == "band"
    ops = ["mark", "filter", "seq", "seq", "before", "after", "cut", "delete", "band", "band", "band", "ctx", "guard", "iden", "fixb", "splice", "mapd"]
    if band or R.random() < .1:
        ops = ["tile", "tile", "sink", "sink", "split", "scale", "scaledown", "mod", "shift", "coin", "perm", "lt", "before", "seq", "group"] + R.sample(ops, 3)
    if t["t"] == "seq":
        ops += ["splice"] * 4 + ["splices"] * 3
    if t["t"] == "leaf":
        ops += ["band"] * 6
    op = R.choice(ops)
    if op in ("ctx", "guard") and R.random() < .6:
        op = "band"
    F = "isl_schedule_node_"
    if op == "mark":
        nm = R.choice(["m1", "m2"])
        return T.edit("t_mark", F + "insert_mark", [h], lambda: lib.schedule_node_insert_mark(n(), lib.id_alloc(S.ctx, nm.encode(), None)), dict(n=nm))
    if op == "filter":
        f = T.filters(False)[0]
        x = dict(f=U.subset(U.within(T.uset(f))), y=f)
        return T.edit("t_filter", F + "insert_filter", [h], lambda: lib.schedule_node_insert_filter(n(), T.uset(f)), x)
    if op == "seq":
        kind = R.choice(["sequence", "sequence", "set"])
        fs = T.filters()
        x = dict(kind="seq" if kind == "sequence" else "set", f=[U.subset(U.within(T.uset(f))) for f in fs], y=fs)

        def call():
            l = lib.union_set_list_alloc(S.ctx, len(fs))
            for f in fs:
                l = lib.union_set_list_add(l, T.uset(f))
            return lib.get(F + "insert_" + kind)(n(), l)
        return T.edit("t_seq", F + "insert_" + kind, [h], call, x)
    if op in ("before", "after"):
        f = T.filters(False)[0] if R.random() < .6 else T.filters()[0]
        x = dict(f=U.subset(U.within(T.uset(f))), b=1 if op == "before" else 0, y=f)
        return T.edit("t_order", F + "order_" + op, [h], lambda: lib.get(F + "order_" + op)(n(), T.uset(f)), x)
    if op in ("cut", "delete"):
        if op == "delete" and t["t"] == "filter" and any(k in ("seq", "set") for k in kinds(t)):
            op = "cut"                                   # the filters below would no longer cover the domain
        return T.edit("t_" + op, F + op, [h], lambda: lib.get(F + op)(n()))
    if op == "band":
        m = R.choice([1, 1, 2])
        mu, tab, tx = T.bandarg(m)
        x = dict(n=m, m=tab, y=tx)
        return T.edit("t_band", F + "insert_partial_schedule", [h], lambda: lib.schedule_node_insert_partial_schedule(n(), mu), x)
    if op in ("ctx", "guard"):
        s = lib.set_read_from_str(S.ctx, T.ctxset(h.depth()).encode())
        c = gtree.cset(S, U, lib.set_copy(s))
        f = F + "insert_" + ("context" if op == "ctx" else "guard")
        return T.edit("t_cond", f, [h], lambda: lib.get(f)(n(), s), dict(t="context" if op == "ctx" else "guard", c=c))
    if op == "iden":
        k = R.choice(["reset", "align", "copy", "text", "root"])
        if k == "reset":
            return T.edit("t_iden", F + "reset_user", [h], lambda: lib.schedule_node_reset_user(n()))
        if k == "align":
            return T.edit("t_iden", F + "align_params", [h],
                          lambda: lib.schedule_node_align_params(n(), lib.set_get_space(lib.set_read_from_str(S.ctx, (P.pre(T.ps) + "{ : }").encode()))))
        if k == "copy":
            return T.edit("t_iden", F + "copy", [h], n)
        if k == "root":
            return T.edit("t_root", "isl_schedule_get_root", [h], lambda: via_schedule(T, h, lambda s: s))

        def text(s):
            tx = lib.string(lib.schedule_to_str(s))
            lib.schedule_free(s)
            return lib.schedule_read_from_str(S.ctx, tx.encode())
        return T.edit("t_root", "isl_schedule_read_from_str", [h], lambda: via_schedule(T, h, text))
    if op == "fixb":
        return sched_op(T, h)
    if op == "splice":
        k = len(t.get("l", []))
        good = [i for i in range(k) if t["l"][i]["k"]["t"] == "seq"]
        pos = R.choice(good) if good and R.random() < .8 else R.choice(list(range(k)) + [0, k]) if R.random() < .9 else -1
        return T.edit("t_splice", F + "sequence_splice_child", [h], lambda: lib.schedule_node_sequence_splice_child(n(), pos), dict(pos=pos))
    if op == "splices":
        return T.edit("t_splices", F + "sequence_splice_children", [h], lambda: lib.schedule_node_sequence_splice_children(n()))
    if op == "mapd":
        return map_desc(T, h)
    m = t["n"] if band else 1
    if R.random() < .05:
        m += 1
    if op == "tile":
        sc, sh = R.randint(0, 1), R.randint(0, 1)
        lib.options_set_tile_scale_tile_loops(S.ctx, sc)
        lib.options_set_tile_shift_point_loops(S.ctx, sh)
        mv, v = T.mv(m)
        return T.edit("t_tile", F + "band_tile", [h], lambda: lib.schedule_node_band_tile(n(), mv), dict(v=v, sc=sc, sh=sh))
    if op == "sink":
        return T.edit("t_sink", F + "band_sink", [h], lambda: lib.schedule_node_band_sink(n()))
    if op == "split":
        pos = R.randint(0, m) if R.random() < .9 else R.choice([-1, m + 1])
        return T.edit("t_split", F + "band_split", [h], lambda: lib.schedule_node_band_split(n(), pos), dict(pos=pos))
    if op in ("scale", "scaledown", "mod"):
        f = F + "band_" + dict(scale="scale", scaledown="scale_down", mod="mod")[op]
        neg = (lambda R: R.choice([1, 2, 3, -1, 0])) if op == "scale" else (lambda R: R.randint(1, 4))
        mv, v = T.mv(m, neg, (lambda R: R.choice([1, 1, 2, 3])) if op != "mod" else None)
        return T.edit("t_scale", f, [h], lambda: lib.get(f)(n(), mv), dict(v=v, how=op))
    if op == "shift":
        mu, tab, tx = T.bandarg(m)
        return T.edit("t_shift", F + "band_shift", [h], lambda: lib.schedule_node_band_shift(n(), mu), dict(n=m, m=tab, y=tx))
    if op in ("coin", "lt"):
        pos, v = R.randrange(m) if m and R.random() < .9 else R.choice([-1, m]), R.randint(0, 1 if op == "coin" else 3)
        f = F + ("band_member_set_coincident" if op == "coin" else "band_member_set_ast_loop_type")
        return T.edit("t_member", f, [h], lambda: lib.get(f)(n(), pos, v), dict(pos=pos, v=v, what=op))
    if op == "perm":
        v = R.randint(0, 1)
        return T.edit("t_perm", F + "band_set_permutable", [h], lambda: lib.schedule_node_band_set_permutable(n(), v), dict(v=v))
    if op == "group":
        return group(T, h)


def via_schedule(T, h, f):
    lib = T.lib
    s = f(lib.schedule_node_get_schedule(h.ptr))
    r = lib.schedule_get_root(s) if s else None
    lib.schedule_free(s)
    return r


def sched_op(T, h):
    S, lib, R, U = T.S, T.lib, T.R, T.U
    k = R.choice(["band", "ctx", "guard", "pair", "pair", "inter", "inter", "pull", "gist"])
    F = "isl_schedule_"
    if k == "band":
        m = R.choice([1, 2])
        mu, tab, tx = T.bandarg(m)
        return T.edit("s_band", F + "insert_partial_schedule", [h],
                      lambda: via_schedule(T, h, lambda s: lib.schedule_insert_partial_schedule(s, mu)), dict(n=m, m=tab, y=tx))
    if k in ("ctx", "guard"):
        st = lib.set_read_from_str(S.ctx, T.ctxset(0).encode())
        c = gtree.cset(S, U, lib.set_copy(st))
        f = F + "insert_" + ("context" if k == "ctx" else "guard")
        return T.edit("s_cond", f, [h], lambda: via_schedule(T, h, lambda s: lib.get(f)(s, st)), dict(t="context" if k == "ctx" else "guard", c=c))
    if k == "inter":
        f = T.filters(False)[0]
        x = dict(f=U.subset(U.within(T.uset(f))), y=f)
        return T.edit("s_inter", F + "intersect_domain", [h],
                      lambda: via_schedule(T, h, lambda s: lib.schedule_intersect_domain(s, T.uset(f))), x)
    if k == "gist":
        tx = T.ctxset(0).replace("[] ", "").replace("[]", "")
        st = lib.set_read_from_str(S.ctx, (tx if ":" in tx else tx.replace("}", ": }")).encode())
        c = U.pset(lib.set_copy(st))
        return T.edit("s_gist", F + "gist_domain_params", [h],
                      lambda: via_schedule(T, h, lambda s: lib.schedule_gist_domain_params(s, st)), dict(c=c, y=tx), keep=False)
    if k == "pair":
        # two schedules on (usually) disjoint parts of the domain
        g = R.choice(T.pool)
        fs = T.filters()
        kind = R.choice(["sequence", "set"])
        two = []
        for a, f in ((h, fs[0]), (g, fs[1] if R.random() < .85 else fs[0])):
            def cut(s, f=f):
                return lib.schedule_intersect_domain(s, T.uset(f))
            r = T.edit("s_inter", F + "intersect_domain", [a], lambda: via_schedule(T, a, cut), dict(f=U.subset(U.within(T.uset(f))), y=f))
            if not r:
                return None
            two.append(r)
        r = T.edit("s_pair", F + kind, two,
                   lambda: via_schedule(T, two[0], lambda s: lib.get(F + kind)(s, lib.schedule_node_get_schedule(two[1].ptr))),
                   dict(kind="seq" if kind == "sequence" else "set", np=len(T.ps)))
        for a in two:
            T.drop(a)
        return r
    if k == "pull":
        return pull(T, h)


def pull(T, h):
    """plugging in functions for the instances"""
    S, lib, R, U = T.S, T.lib, T.R, T.U
    tx = []
    for s in T.sts:
        if R.random() < .2:
            continue
        vs = P.VS[:s["d"]]
        es = list(vs)
        ins = list(vs)
        k = R.random()
        if k < .3:
            R.shuffle(ins)
        elif k < .6:
            es = ["(%s%s)" % (v, R.choice([" + 1", " - 1", ""])) for v in vs]
        elif k < .75 and vs:
            es[0] = "-" + es[0]
        tx.append("%s2[%s] -> %s[%s]" % (s["n"], ", ".join(ins), s["n"], ", ".join(es)))
    if not tx:
        return None
    tx = P.pre(T.ps) + "{ " + "; ".join(tx) + " }"
    m = T.umap(tx)
    dom2 = lib.union_set_apply(lib.union_set_copy(U.uset), lib.union_map_reverse(lib.union_map_copy(m)))
    U2 = gtree.Universe(S, dom2)
    try:
        pb = [[0] * len(l) for l in U2.inst]
        for v, a, b in gtree.points(S, "union_map", lib.union_map_intersect_domain(m, lib.union_set_copy(U2.uset))):
            k = U.k[tuple(v)]
            pb[k][U2.of(k, a) - 1] = U.of(k, b)

        def call():
            return via_schedule(T, h, lambda s: lib.schedule_pullback_union_pw_multi_aff(
                s, lib.union_pw_multi_aff_read_from_str(S.ctx, tx.encode())))

        def conv(r, e):
            if not r:
                return dict(k="err", e=ERR.get(e, "?"))
            try:
                return T.value(r, U2)
            finally:
                lib.schedule_node_free(r)
        T.ask("s_pull", "isl_schedule_pullback_union_pw_multi_aff", [h], call, conv, dict(pb=pb, y=tx))
    finally:
        U2.free()


def group(T, h):
    S, lib, U = T.S, T.lib, T.U
    got = []

    def call():
        return lib.schedule_node_group(lib.schedule_node_copy(h.ptr), lib.id_alloc(S.ctx, b"G", None))

    def conv(r, e):
        if not r:
            return dict(k="err", e=ERR.get(e, "?"))
        got.append(r)
        v = dict(k="grp", dom=U.subset(lib.schedule_node_get_domain(r)), p=T.path(r))
        par = lib.schedule_node_parent(lib.schedule_node_copy(r))
        got.append(par)
        v["pt"] = gtree.KIND.get(lib.schedule_node_get_type(par), "bad")
        ex = [[[] for _ in l] for l in U.inst]
        if v["pt"] == "expansion":
            m = lib.schedule_node_expansion_get_expansion(par)
            con = lib.union_map_from_union_pw_multi_aff(lib.schedule_node_expansion_get_contraction(par))
            con = lib.union_map_intersect_domain(con, lib.union_map_range(lib.union_map_copy(m)))
            v["con"] = lib.union_map_is_equal(lib.union_map_reverse(lib.union_map_copy(m)), con)
            lib.union_map_free(con)
            for w, a, b in gtree.points(S, "union_map", m):
                k = U.k[tuple(w)]
                i = U.of(k, b)
                if i == 0:
                    raise I.Undecided("outside")
                ex[k][i - 1].append(a)
            v["gd"] = [[x for w, x in gtree.points(S, "union_set", lib.schedule_node_get_domain(par)) if U.k[tuple(w)] == k] for k in range(len(U.pvs))]
            lib.ctx_reset_operations(S.ctx)
        v["ex"] = ex
        s = lib.schedule_node_get_schedule(r)
        mp = lib.schedule_get_map(s)
        lib.schedule_free(s)
        v["m"] = U.table(mp)
        return v
    try:
        T.ask("t_group", "isl_schedule_node_group", [h], call, conv)
    finally:
        for r in got:
            lib.schedule_node_free(r)


def map_desc(T, h):
    S, lib, R = T.S, T.lib, T.R
    kind = R.choice(["band", "leaf", "filter", "seq"])
    num = [k for k, v in gtree.KIND.items() if v == kind][0]

    def fn(n, u):
        if lib.schedule_node_get_type(n) == num:
            if kind == "filter":
                n = lib.schedule_node_first_child(n)
                n = lib.schedule_node_insert_mark(n, lib.id_alloc(S.ctx, b"v", None))
                n = lib.schedule_node_parent(n)
            else:
                n = lib.schedule_node_insert_mark(n, lib.id_alloc(S.ctx, b"v", None))
        return n
    cb = CBM(fn)
    return T.edit("t_mapd", "isl_schedule_node_map_descendant_bottom_up", [h],
                  lambda: lib.schedule_node_map_descendant_bottom_up(lib.schedule_node_copy(h.ptr), C.cast(cb, C.c_void_p), None), dict(kind=kind))


def move(T, h):
    S, lib, R = T.S, T.lib, T.R
    n = lambda: lib.schedule_node_copy(h.ptr)
    F = "isl_schedule_node_"
    t = h.at()
    k = R.choice(["parent", "child", "child", "first", "root", "anc", "next", "prev", "grandparent", "grandchild", "shared", "jump", "jump"])
    if k == "jump":
        p = R.choice(positions(h.t))

        def call():
            m = lib.schedule_node_root(n())
            for i in p:
                m = lib.schedule_node_child(m, i)
            return m
        return T.edit("t_move", F + "child", [h], call, dict(to=p))
    if k in ("parent", "grandparent", "root", "first", "next", "prev"):
        f = F + dict(first="first_child", next="next_sibling", prev="previous_sibling").get(k, k)
        return T.edit("t_go", f, [h], lambda: lib.get(f)(n()), dict(how=k, a=0, b=0))
    if k == "anc":
        g = R.randint(0, len(h.p)) if R.random() < .85 else R.choice([-1, len(h.p) + 1])
        return T.edit("t_go", F + "ancestor", [h], lambda: lib.schedule_node_ancestor(n(), g), dict(how=k, a=g, b=0))
    m = len(t["l"]) if "l" in t else 1 if "k" in t else 0
    a = R.randrange(m) if m and R.random() < .9 else R.choice([-1, m])
    b = 0 if R.random() < .8 else R.randint(-1, 2)
    if k == "child":
        f = R.choice(["child", "get_child"])
        return T.edit("t_go", F + f, [h], lambda: lib.schedule_node_child(n(), a) if f == "child" else lib.schedule_node_get_child(h.ptr, a), dict(how=k, a=a, b=0))
    if k == "grandchild":
        return T.edit("t_go", F + k, [h], lambda: lib.schedule_node_grandchild(n(), a, b), dict(how=k, a=a, b=b))
    # the closest shared ancestor with another position in the same tree
    p = R.choice(positions(h.t))
    g = T.edit("t_move", F + "child", [h], lambda: go(lib, lib.schedule_node_root(n()), p), dict(to=p))
    if not g:
        return None
    r = T.edit("t_shared", F + "get_shared_ancestor", [h, g], lambda: lib.schedule_node_get_shared_ancestor(h.ptr, g.ptr))
    T.ask("q_anc", F + "get_ancestor_child_position", [h, g], lambda: lib.schedule_node_get_ancestor_child_position(h.ptr, g.ptr),
          lambda r, e: dict(k="q", v=r if r >= 0 else -1))
    T.ask("q_eq", F + "is_equal", [h, g], lambda: lib.schedule_node_is_equal(h.ptr, g.ptr), lambda r, e: dict(k="q", v=r))
    T.drop(g)
    return r


def go(lib, m, p):
    for i in p:
        m = lib.schedule_node_child(m, i)
    return m


def query(T, h):
    S, lib, R, U = T.S, T.lib, T.R, T.U
    F = "isl_schedule_node_"
    k = R.choice(["num", "num", "dom", "univ", "prefix", "prefix", "sub", "map", "visit", "every", "anc", "equal", "planeq"])
    ty = lambda r: gtree.KIND.get(r, "bad")
    if k == "num":
        what = R.choice(["get_tree_depth", "has_parent", "has_children", "n_children", "get_child_position", "has_previous_sibling",
                         "has_next_sibling", "get_type", "get_parent_type", "get_schedule_depth", "is_subtree_anchored",
                         "band_n_member", "band_get_permutable"])
        if what.startswith("band") and h.at()["t"] != "band":
            what = "get_type"
        conv = (lambda r, e: dict(k="q", v=ty(r))) if what.endswith("type") else (lambda r, e: dict(k="q", v=r if r >= 0 else -1))
        return T.ask("q_num", F + what, [h], lambda: lib.get(F + what)(h.ptr), conv, dict(what=what))
    if k == "dom":
        return T.ask("q_dom", F + "get_domain", [h], lambda: lib.schedule_node_get_domain(h.ptr),
                     lambda r, e: dict(k="q", v=U.subset(r)) if r else dict(k="err", e=ERR.get(e, "?")))
    if k == "univ":
        def names(r, e):
            t = lib.string(lib.union_set_to_str(r))
            lib.union_set_free(r)
            return dict(k="q", v=[s["n"] for s in T.sts if s["n"] + "[" in t], c=1 if ":" in t else 0)
        return T.ask("q_univ", F + "get_universe_domain", [h], lambda: lib.schedule_node_get_universe_domain(h.ptr), names,
                     dict(inst=[[x[0] for x in l] for l in U.inst]))
    if k == "prefix":
        form = R.choice(["union_map", "multi_union_pw_aff", "union_pw_multi_aff", "relation"])
        f = F + "get_prefix_schedule_" + form

        def conv(r, e):
            if not r:
                return dict(k="err", e=ERR.get(e, "?"))
            if form == "multi_union_pw_aff":
                if lib.multi_union_pw_aff_dim(r, 3) == 0:
                    lib.multi_union_pw_aff_free(r)
                    return dict(k="z")
                r = lib.union_map_from_multi_union_pw_aff(r)
            elif form == "union_pw_multi_aff":
                r = lib.union_map_from_union_pw_multi_aff(r)
            if form == "relation":
                d = U.subset(lib.union_map_domain(lib.union_map_copy(r)))
            else:
                d = []
            return dict(k="q", v=U.table(r), d=d)
        return T.ask("q_prefix", f, [h], lambda: lib.get(f)(h.ptr), conv, dict(form=form))
    if k == "sub":
        return T.ask("q_sub", F + "get_subtree_schedule_union_map", [h], lambda: lib.schedule_node_get_subtree_schedule_union_map(h.ptr),
                     lambda r, e: dict(k="q", v=U.table(r)) if r else dict(k="err", e=ERR.get(e, "?")))
    if k == "map":
        def call():
            s = lib.schedule_node_get_schedule(h.ptr)
            r = lib.schedule_get_map(s)
            lib.schedule_free(s)
            return r
        return T.ask("q_map", "isl_schedule_get_map", [h], call, lambda r, e: dict(k="q", v=U.table(r)) if r else dict(k="err", e=ERR.get(e, "?")))
    if k == "visit":
        stop = R.choice(["band", "mark", "filter", "none", "seq"])
        whole = R.random() < .3
        seen = []

        def fn(n, u):
            t = ty(lib.schedule_node_get_type(n))
            seen.append(t)
            return 0 if t == stop else 1
        cb = CBN(fn)
        if whole:
            def call():
                s = lib.schedule_node_get_schedule(h.ptr)
                r = lib.schedule_foreach_schedule_node_top_down(s, C.cast(cb, C.c_void_p), None)
                lib.schedule_free(s)
                return r
            f = "isl_schedule_foreach_schedule_node_top_down"
        else:
            f = F + "foreach_descendant_top_down"
            call = lambda: lib.get(f)(h.ptr, C.cast(cb, C.c_void_p), None)
        return T.ask("q_visit", f, [h], call, lambda r, e: dict(k="q", v=r, l=seen), dict(stop=stop, whole=1 if whole else 0))
    if k == "every":
        bad = R.choice(["band", "mark", "filter", "none", "seq", "leaf"])
        cb = CBN(lambda n, u: 0 if ty(lib.schedule_node_get_type(n)) == bad else 1)
        f = F + "every_descendant"
        return T.ask("q_every", f, [h], lambda: lib.get(f)(h.ptr, C.cast(cb, C.c_void_p), None), lambda r, e: dict(k="q", v=r), dict(bad=bad))
    if k == "anc":
        seen = []
        cb = CBN(lambda n, u: seen.append(ty(lib.schedule_node_get_type(n))) or 0)
        f = F + "foreach_ancestor_top_down"
        return T.ask("q_ups", f, [h], lambda: lib.get(f)(h.ptr, C.cast(cb, C.c_void_p), None), lambda r, e: dict(k="q", v=r, l=seen))
    g = R.choice(T.pool)
    if k == "equal":
        return T.ask("q_eqq", F + "is_equal", [h, g], lambda: lib.schedule_node_is_equal(h.ptr, g.ptr), lambda r, e: dict(k="q", v=r))

    def call():
        a, b = lib.schedule_node_get_schedule(h.ptr), lib.schedule_node_get_schedule(g.ptr)
        r = lib.schedule_plain_is_equal(a, b)
        lib.schedule_free(a)
        lib.schedule_free(b)
        return r
    T.ask("q_plain", "isl_schedule_plain_is_equal", [h, g], call, lambda r, e: dict(k="q", v=r))


def run(lib, R, out, prog, prop, idx, n=14):
    world, rngs = gen.rand_world(R, maxp=1)
    world = gen.World(world.names, world.pvs[:2])
    S = Sess(lib, R, out, prog, prop, idx, world)
    try:
        T = Trees(S)
    except I.Undecided:
        S.close()
        return S.stats
    if max(map(len, T.U.inst)) <= 24:
        if R.random() < .5:
            T.input(lib.schedule_node_from_domain(T.uset(T.dom)))
        else:
            nd, y = P.schedule_tree(R, T.ps, T.sts, depth=3, kinds=("band", "seq", "mark", "set"))
            s = lib.schedule_read_from_str(S.ctx, y.encode())
            T.start(s, y)
        for _ in range(n):
            if not T.pool:
                break
            try:
                h = T.pool[-1] if R.random() < .75 else R.choice(T.pool)
                k = R.random()
                if k < .55:
                    if R.random() < .7:
                        # edit at a random position
                        p = good_position(R, h.t)
                        g = T.edit("t_move", "isl_schedule_node_child", [h], lambda: go(lib, lib.schedule_node_root(lib.schedule_node_copy(h.ptr)), p), dict(to=p))
                        if not g:
                            continue
                        h = g
                    r = node_op(T, h)
                elif k < .7:
                    r = move(T, h)
                else:
                    r = query(T, h)
                if R.random() < .3:
                    T.same(R.choice(T.pool))
                while len(T.pool) > 4:
                    T.drop(T.pool[0] if R.random() < .6 else T.pool[R.randrange(len(T.pool) - 1)])
                if len(positions(T.pool[-1].t)) > 40:
                    T.drop(T.pool[-1])
                    if not T.pool:
                        break
            except I.Undecided:
                S.stats["undecided"] += 1
    for h in list(T.pool):
        T.same(h)
        T.drop(h)
    T.U.free()
    S.close()
    return S.stats
