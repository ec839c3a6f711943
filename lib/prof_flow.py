"""Sessions on dataflow analysis (C12)."""
import ctypes as C, json
import gen, gexpr as G, gsched as P
import isl as I
from isl import DIM
from session import Sess, ERR

KINDS = dict(must="must_dependence", may="may_dependence", fmust="full_must_dependence",
             fmay="full_may_dependence", nomust="must_no_source", nomay="may_no_source")


def umap(S, t):
    return S.lib.union_map_read_from_str(S.ctx, t.encode())


def project(S, cls, ptr, box=60, cap=900):
    """the recorded value's points; consumes ptr"""
    try:
        js, sp, n, m = S.project(cls, ptr, box, 0, cap)
    finally:
        if ptr:
            S.free_ptr(cls, ptr)
    v = json.loads(js)
    if v["k"] in ("err", "big"):
        raise I.Undecided(v["k"])
    return v["p"]


def problem(S):
    R, lib, ps = S.R, S.lib, S.world.names
    sts = P.statements(R, ps, nst=R.choice([1, 2, 2, 3]), width=2)
    arrays = [("A", R.choice([0, 1, 1, 1, 2])), ("B", R.choice([0, 1]))][:R.choice([1, 1, 2])]
    tx = {}
    x = dict(P=P.for_spec(sts))
    only_must = R.random() < .45
    tx["sink"], x["sink"] = P.access_list(R, ps, sts, arrays, R.choice([1, 1, 2, 3]))
    e = pre_empty(ps)
    tx["must"], x["must"] = P.access_list(R, ps, sts, arrays, R.choice([1, 2, 2, 3])) if only_must or R.random() < .8 else (e, [])
    tx["may"], x["may"] = P.access_list(R, ps, sts, arrays, R.choice([1, 1, 2])) if not only_must else (e, [])
    tx["kill"], x["kill"] = P.access_list(R, ps, sts, arrays, R.choice([1, 1, 2])) if R.random() < .25 else (e, [])
    astree = R.random() < .5
    if astree:
        node, y = P.schedule_tree(R, ps, sts, depth=3, kinds=("band", "seq", "mark", "set"))
        x["sch"] = dict(k="tree", t=node)
    else:
        y, l = P.schedule_map(R, ps, sts)
        x["sch"] = dict(k="map", m=l)
    x["y"] = y
    # accesses only of instances that are executed
    dom = P.domain_text(ps, sts)

    def acc(k):
        m = umap(S, tx[k])
        return lib.union_map_intersect_domain(m, lib.union_set_read_from_str(S.ctx, dom.encode()))

    def call():
        if astree:
            sch = lib.schedule_read_from_str(S.ctx, y.encode())
            if not sch:
                return "noinput"
        info = lib.union_access_info_from_sink(acc("sink"))
        for k in R.sample(["must", "may", "kill"], 3):
            if x[k]:
                f = dict(must="must_source", may="may_source", kill="kill")[k]
                info = lib.get("isl_union_access_info_set_" + f)(info, acc(k))
        if astree:
            info = lib.union_access_info_set_schedule(info, sch)
        else:
            sm = umap(S, y)
            sm = lib.union_map_intersect_domain(sm, lib.union_set_read_from_str(S.ctx, dom.encode()))
            info = lib.union_access_info_set_schedule_map(info, sm)
        if R.random() < .2:
            info2 = lib.union_access_info_copy(info)
            lib.union_access_info_free(info)
            info = info2
        return lib.union_access_info_compute_flow(info)

    if not astree and not x["kill"] and R.random() < .35:
        return old_interface(S, x, acc, y, dom)

    def conv(fl, e):
        if fl == "noinput":
            raise I.Undecided("input")
        if not fl:
            return dict(k="err", e=ERR.get(e, "?"))
        try:
            out = dict(k="flow")
            for q, f in KINDS.items():
                out[q] = project(S, "union_map", lib.get("isl_union_flow_get_" + f)(fl))
            return out
        finally:
            lib.union_flow_free(fl)
    S.raw("flow", "isl_union_access_info_compute_flow", [], call, conv, x)


LEVEL = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)
DEP = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_int, C.c_void_p, C.c_void_p)


def low_level(S):
    """isl_access_info: statements in a loop nest, one access per statement"""
    R, lib, ps = S.R, S.lib, S.world.names
    sts = P.statements(R, ps, nst=R.choice([2, 3, 3]), width=2)
    A = [("A", R.choice([0, 1, 1, 2]))]
    # constants between the loops
    m = R.choice([1, 1, 2])
    kelly, lst = {}, []
    # a statement has a position of its own among the loops (even ones)
    odd = R.sample([-1, 1, 3, 5], len(sts))
    for i, st in enumerate(sts):
        cs = [2 * R.randint(0, m) for _ in range(st["d"])] + [odd[i]]
        kelly[st["n"]] = cs
        e = []
        for j, k in enumerate(cs):
            e.append(P.c(k)[1])
            if j < st["d"]:
                e.append(dict(o="x", i=j))
        e += [P.c(0)[1]] * (5 - len(e))
        lst.append(dict(s=st["n"], e=e, c=P.TRUE[1]))
    sink = R.choice(sts)
    x = dict(P=P.for_spec(sts), sch=dict(k="map", m=lst), must=[], may=[], kill=[], y=str(kelly))
    ts, x["sink"] = P.access_list(R, ps, sts, A, 1, one=sink)
    srcs = []
    for st in R.sample(sts, R.randint(1, len(sts))):
        k = "must" if R.random() < .65 else "may"
        t, l = P.access_list(R, ps, sts, A, 1, one=st)
        x[k] += l
        srcs.append((k, t, st["n"]))
    names = [None, sink["n"]] + [n for k, t, n in srcs]

    def rel(t, n):
        d = P.domain_text(ps, [q for q in sts if q["n"] == n])
        return lib.map_intersect_domain(lib.map_read_from_str(S.ctx, t.encode()), lib.set_read_from_str(S.ctx, d.encode()))

    def level(a, b):
        u, v = kelly[names[a]], kelly[names[b]]
        n = 0
        while n < len(u) - 1 and n < len(v) - 1 and u[n] == v[n]:
            n += 1
        return 2 * n + 1 if u[n] < v[n] else 2 * n
    cb = LEVEL(level)

    def call():
        f = lib.dll.isl_access_info_alloc
        f.restype, f.argtypes = C.c_void_p, [C.c_void_p, C.c_void_p, C.c_void_p, C.c_int]
        acc = f(rel(ts, sink["n"]), 1, C.cast(cb, C.c_void_p), len(srcs))
        for i, (k, t, n) in enumerate(srcs):
            acc = lib.access_info_add_source(acc, rel(t, n), int(k == "must"), 2 + i)
        return lib.access_info_compute_flow(acc)

    def conv(fl, e):
        if not fl:
            return dict(k="err", e=ERR.get(e, "?"))
        deps = []

        def each(d, must, src, u):
            deps.append((d, must))
            return 0
        dcb = DEP(each)
        lib.flow_foreach(fl, C.cast(dcb, C.c_void_p), None)
        out = dict(k="flow", omust=[], omay=[], onomust=[], onomay=[])
        bad = None
        for d, must in deps:
            try:
                out["omust" if must else "omay"] += project(S, "union_map", lib.union_map_from_map(d))
            except I.Undecided as u:
                bad = u
        for q, must in (("onomust", 1), ("onomay", 0)):
            try:
                # the elements of the sink
                out[q] = project(S, "union_map", lib.union_map_from_map(lib.flow_get_no_source(fl, must)))
            except I.Undecided as u:
                bad = u
        lib.flow_free(fl)
        if bad:
            raise bad
        return out
    S.raw("flow", "isl_access_info_compute_flow", [], call, conv, x)


def old_interface(S, x, acc, y, dom):
    """isl_union_map_compute_flow"""
    lib = S.lib
    import ctypes as C
    outs = [C.c_void_p() for _ in range(4)]

    def call():
        sm = lib.union_map_intersect_domain(umap(S, y), lib.union_set_read_from_str(S.ctx, dom.encode()))
        f = lib.dll.isl_union_map_compute_flow
        f.restype = C.c_int
        f.argtypes = [C.c_void_p] * 8
        return f(acc("sink"), acc("must"), acc("may"), sm, *[C.cast(C.byref(o), C.c_void_p) for o in outs])

    def conv(r, e):
        if r != 0:
            return dict(k="err", e=ERR.get(e, "?"))
        out = dict(k="flow")
        vals = [o.value for o in outs]
        for i, q in enumerate(("omust", "omay", "onomust", "onomay")):
            v, vals[i] = vals[i], None
            out[q] = project(S, "union_map", v)
        return out
    S.raw("flow", "isl_union_map_compute_flow", [], call, conv, x)


def pre_empty(ps):
    return P.pre(ps) + "{ }"


def run(lib, R, out, prog, prop, idx, n=5):
    world, rngs = gen.rand_world(R, maxp=1)
    world = gen.World(world.names, world.pvs[:3])
    R.dens = None
    S = Sess(lib, R, out, prog, prop, idx, world)
    for _ in range(n):
        if R.random() < .3:
            low_level(S)
        else:
            problem(S)
    S.close()
    return S.stats
