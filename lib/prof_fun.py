"""Sessions on functions (C07)."""
import json
import gen, gexpr as G, ops_fun as O
from session import Sess, CLASSES, val_pair
from isl import DIM, size
import ctypes as C

_plan = {}


def plan(lib, ops):
    if id(ops) not in _plan:
        rows = []
        for o in ops:
            for f in o.fns:
                if f not in lib.fns:
                    raise Exception("no function " + f)
                at = []
                for t, own, nm in lib.fns[f].args:
                    b = t.replace("*", "").replace("const ", "").strip()
                    if t.endswith("*") and b[4:] in CLASSES:
                        at.append(b[4:])
                rows.append((o, f, at, o.weight / len(o.fns) ** .5))
        _plan[id(ops)] = (rows, [r[3] for r in rows])
    return _plan[id(ops)]


def exact(h):
    return h.w == 0


def carry(o, hs, W):
    """(allowed, w of the result)"""
    ex = all(exact(h) for h in hs)
    k = o.w
    if k == "pt" or k == "swap":
        return True, 0 if ex else W
    if k == "exact":
        return ex, 0
    if k == "never":
        return True, W
    if k == "relfirst":
        if not exact(hs[0]):
            return False, 0
        if o.sem == "f_rel_at" and not exact(hs[1]) and hs[0].m > W:
            return False, 0
        return True, 0 if ex else W
    if k == "first0":
        return ex, 0
    raise Exception(k)


def params_of(S, h):
    import ops_rel
    return ops_rel.own_params(S, h)


def aligned(S, hs):
    if len(hs) > 1 and any(h.cls in ("aff", "multi_aff", "basic_set", "basic_map") for h in hs):
        ps = [params_of(S, h) for h in hs]
        return all(p == ps[0] for p in ps)
    return True


def partner(R, a, c):
    if R.random() < .35:
        rel = [h for h in c if h is not a and h.extra & a.extra]
        if rel:
            return R.choice(rel)
    return R.choice(c)


def pick(S, rows, weights, ask=False):
    R = S.R
    for _ in range(60):
        o, f, at, _w = R.choices(rows, weights)[0]
        for _2 in range(8 if len(at) > 1 else 2):
            hs = []
            for t in at:
                c = [h for h in S.pool if h.cls == t]
                if not c:
                    break
                hs.append(partner(R, hs[0], c) if hs else R.choice(c))
            if len(hs) < len(at):
                break
            try:
                ok = o.pre(*hs) if o.pre else True
            except (TypeError, KeyError):
                ok = False
            if not ok or not aligned(S, hs):
                continue
            allowed, w = carry(o, hs, S.W)
            if not allowed and not ask:
                continue
            ext = ([], None)
            if o.ext:
                ext = o.ext(S, hs[0])
                if ext is None:
                    continue
            return o, f, hs, ext[0], ext[1], w
    return None


KEEPCST = {"f_neg", "f_floor", "f_ceil", "f_mod", "f_scale", "f_scale_down", "f_add_constant", "f_add", "f_sub", "f_min", "f_max",
           "f_mul", "f_div", "f_intersect_domain", "f_subtract_domain", "f_intersect_params", "f_same", "f_tdiv_q", "f_tdiv_r",
           "f_union_add", "f_union_min", "f_union_max"}


def read(S, cls, txt, x, w, cst=False):
    """an object read from text whose syntax tree is given"""
    S.mark(json.dumps(dict(op="f_read", s=S.idx, f=cls, x=dict(t=txt))))
    lib = S.lib
    ptr = lib.get("isl_%s_read_from_str" % cls)(S.ctx, txt.encode())
    x = dict(x, t=txt)
    ev = '{"op":"f_read","f":"isl_%s_read_from_str","pr":"%s","a":[],"x":%s,"c":[],"g":%%d,"r":%%d%%s}' % (
        cls, S.prop, json.dumps(x, separators=(",", ":")).replace("%", "%%"))
    import isl as I
    try:
        js, sp, n, m = S.project(cls, ptr, 30, w)
    except I.Undecided:
        S.stats["undecided"] += 1
        S.last_error()
        S.free_ptr(cls, ptr)
        return None
    S.last_error()
    if '"k":"err"' in js or '"k":"big"' in js:
        S.emit_raw(ev % (0, 0, ',"v":' + js))
        if ptr:
            S.free_ptr(cls, ptr)
        return None
    h = S.add(ptr, cls, js, sp, n, m, w)
    h.cst = cst
    S.emit_raw(ev % (0, h.id, ',"v":' + js))
    return h


def names_for(sp, it):
    """tuple text with names, names"""
    if len(sp) == 2:
        vs = [next(it) for _ in range(sp[1])]
        return "%s[%s]" % (sp[0], ", ".join(vs)), vs
    l, a = names_for(sp[1], it)
    r, b = names_for(sp[2], it)
    return "%s[%s -> %s]" % (sp[0], l, r), a + b


def fill(sp, texts, one=False):
    if len(sp) == 2:
        k = sp[1]
        return "%s[%s]" % (sp[0], ", ".join("(%s)" % t for t in texts[:k])), texts[k:]
    l, t = fill(sp[1], texts)
    r, t = fill(sp[2], t)
    return "%s[%s -> %s]" % (sp[0], l, r), t


def fun_text(S, cls, ds, rs, w, rich=1.0, cst=False, pieces=None, rat=None):
    """-> (text, pieces) of one function from ds (None: parameters only) to rs"""
    R = S.R
    it = gen.var_iter("i")
    tup, vs = names_for(ds, it) if ds else ("", [])
    Sc = G.Sc(R, S.world.names, vs, (), rich)
    basic = cls in ("aff", "multi_aff")
    npc = 1 if basic else pieces or R.choice([1, 1, 2, 2, 3])
    out, prev, pcs = [], [], []
    for _ in range(npc):
        es = []
        for k in range(size(rs)):
            rt = rat if rat is not None else R.random() < .25
            if cst:
                es.append(G.c(R.choice([1, 2, 3, 4, 2, 3] if R.random() < .7 else [-3, -2, -1, 5])))
            else:
                es.append(G.expr(Sc, R.choice([0, 1, 1, 2]), rt, pw=not basic))
        conds = []
        if not basic:
            if vs and w == 0:
                conds.append(G.bounded(Sc, {1: 6, 2: 3, 3: 1}.get(len(vs), 1), rich * .6))
            elif R.random() < .6 and (vs or S.world.names):
                conds.append(G.cond(Sc, 1))
        c0 = G.conj(conds) if conds else ("true", dict(o="true"))
        full = G.conj([c0] + [G.neg(p) for p in prev]) if prev else c0
        prev.append(c0)
        rt, _r = fill(rs, [e[0] for e in es])
        out.append((tup + " -> " if ds else "") + rt + (" : " + full[0] if not basic and full[0] != "true" else ""))
        pcs.append(dict(c=full[1], e=[e[1] for e in es], ds=ds or [], rs=rs))
        if c0[0] == "true":
            break
    return out, pcs


def make(S, cls, ds, rs, w, cst=False):
    """an input function of the given class"""
    R = S.R
    names = S.world.names
    pre = "[%s] -> " % ", ".join(names) if names else ""
    if cls in ("aff", "pw_aff", "union_pw_aff"):
        rs = ["", 1]
    if cls.startswith("union") or cls.startswith("multi_union"):
        out, pcs = [], []
        for d in (ds if isinstance(ds[0], list) else [ds]):
            o, p = fun_text(S, cls, d, rs, w, pieces=R.choice([1, 2]), cst=cst)
            out += o
            pcs += p
        if cls == "multi_union_pw_aff":
            return None
        txt = pre + "{ " + "; ".join(out) + " }"
    elif cls == "multi_pw_aff":
        txt, pcs = mpa_text(S, ds, rs, w)
        txt = pre + txt
    else:
        out, pcs = fun_text(S, cls, ds, rs, w, cst=cst)
        txt = pre + "{ " + "; ".join(out) + " }"
    x = dict(pc=pcs, w=S.W if w else 6)
    if cls in ("pw_multi_aff", "union_pw_multi_aff"):
        x["empty"] = 1
    return read(S, cls, txt, x, w, cst)


def mpa_text(S, ds, rs, w):
    """one piecewise expression per component"""
    R = S.R
    it = gen.var_iter("i")
    tup, vs = names_for(ds, it) if ds else ("", [])
    Sc = G.Sc(R, S.world.names, vs)
    comps = []
    for k in range(size(rs)):
        prev, l = [], []
        for _ in range(R.choice([1, 2])):
            e = G.expr(Sc, 1, R.random() < .2)
            c0 = G.bounded(Sc, {1: 6, 2: 3, 3: 1}.get(len(vs), 1), .4) if vs and w == 0 else G.cond(Sc, 1)
            full = G.conj([c0] + [G.neg(p) for p in prev])
            prev.append(c0)
            l.append((e, full))
        comps.append(l)
    # a component without condition is defined everywhere; give each some
    texts = ["; ".join("%s : %s" % (e[0], f[0]) for e, f in l) for l in comps]
    rt, _r = fill(rs, texts)
    pcs = [([], [])]
    for l in comps:
        pcs = [(es + [e[1]], cs + [f[1]]) for es, cs in pcs for e, f in l]
    return ("{ " + (tup + " -> " if ds else "") + rt + " }",
            [dict(c=dict(o="and", l=cs), e=es, ds=ds or [], rs=rs) for es, cs in pcs])


def seed(S, rngs):
    R = S.R
    nd = S.nd
    a = gen.leaf(R.choice(["", "A"]), nd)
    b = gen.leaf(R.choice(["", "B"]), 1)
    wrp = gen.pair(gen.leaf(R.choice(["", "C"]), 1), gen.leaf(R.choice(["", "D"]), nd - 1), "")
    doms = [a, a, a, b] + ([wrp] if R.random() < .4 else []) + ([None] if S.world.names and R.random() < .6 else [])
    rngs_ = [a, a, b, gen.leaf("", 1), gen.leaf(R.choice(["", "R"]), 2), gen.pair(gen.leaf("", 1), b, ""), gen.leaf("Z", 0)]
    for _ in range(R.randint(6, 9)):
        cls = R.choices(["pw_aff", "pw_multi_aff", "aff", "multi_aff", "union_pw_aff", "union_pw_multi_aff", "multi_pw_aff"], [6, 6, 2, 3, 1, 2, 3])[0]
        w = S.W if cls in ("aff", "multi_aff") or R.random() < .25 else 0
        ds = R.choice(doms)
        if cls.startswith("union"):
            ds = R.sample([a, b, wrp], R.randint(1, 2))
            ds = [d for i, d in enumerate(ds) if d not in ds[:i]]
            w = 0
        elif ds is None:
            w = 0
        rs = R.choice(rngs_)
        if cls == "multi_pw_aff" and size(rs) == 0:
            rs = gen.leaf("", 2)
        make(S, cls, ds, rs, w, cst=cls in ("pw_aff", "aff") and R.random() < .3)
    ctx = gen.world_context(S.world.names, rngs)
    for sp in R.sample([a, a, b, wrp, {"d": a, "r": a}, {"d": b, "r": a}, {"d": a, "r": b}], R.randint(2, 4)):
        cls = "map" if isinstance(sp, dict) else "set"
        u = R.random() < .25
        S.input(("union_" if u else "basic_" if R.random() < .2 else "") + cls, gen.text(R, [sp], S.world.names, ctx, cap=30, basic=True))
    # the graph of a function
    for _ in range(2):
        d, r = R.choice([a, b]), R.choice([a, b])
        it = gen.var_iter("i")
        t, vs = names_for(d, it)
        Sc = G.Sc(R, S.world.names, vs)
        es = [G.expr(Sc, 1)[0] for _ in range(size(r))]
        bt = G.bounded(Sc, 4 if len(vs) < 2 else 2)[0]
        rt, _x = fill(r, es)
        S.input(R.choice(["map", "union_map"]), "%s{ %s -> %s : %s%s }" % ("[%s] -> " % ",".join(S.world.names) if S.world.names else "", t, rt, bt,
                                                                          " and " + ctx if ctx else ""))
    if S.world.names:
        S.input("set", "[%s] -> { : %s and %s }" % (",".join(S.world.names), ctx, gen.constraint(R, [], S.world.names)))


def evaluate(S):
    """the value of a function at a point"""
    R, lib = S.R, S.lib
    c = [h for h in S.pool if h.cls in ("aff", "pw_aff") and h.sp["d"] is not None]
    if not c:
        return
    h = R.choice(c)
    nd = size(h.sp["d"])
    v = list(R.choice(S.world.pvs))
    rows = json.loads(h.js)["p"]
    if rows and R.random() < .8:
        e = R.choice(rows)
        v, x = e[0], flat(e[1])
    else:
        x = [R.randint(-S.W, S.W) for _ in range(nd)]
    ps = params_of(S, h)
    sp = lib.get("isl_%s_get_domain_space" % h.cls)(h.ptr)
    pt = lib.point_zero(sp)
    for i, p in enumerate(ps):
        pt = lib.point_set_coordinate_val(pt, DIM["param"], i, O.mkval(S, v[S.world.names.index(p)]))
    for i in range(nd):
        pt = lib.point_set_coordinate_val(pt, DIM["set"], i, O.mkval(S, x[i]))
    S.call("f_eval", "isl_%s_eval" % h.cls, [h], [pt], dict(v=v, x=x))


def flat(x):
    return x[1] if len(x) == 2 else flat(x[1]) + flat(x[2])


def run(lib, R, out, prog, prop, idx, steps=36, hook=None):
    nd = R.choice([1, 1, 2])
    world, rngs = gen.rand_world(R, maxp=R.choice([0, 1, 1, 2]) if nd == 1 else R.choice([0, 1]), maxpv=4)
    while len(world.pvs) > (6 if nd == 1 else 3):
        rngs = [r[:max(1, len(r) - 1)] for r in rngs]
        import itertools
        world = gen.World(world.names, list(itertools.product(*rngs)))
    R.dens = R.choice([None, [2], [3], [2, 4], [2, 3]])
    S = Sess(lib, R, out, prog, prop, idx, world, W=4 if nd == 1 else 2)
    S.nd = nd
    seed(S, rngs)
    ops, qs = plan(lib, O.OPS), plan(lib, O.QS)
    for _ in range(steps):
        if not S.pool:
            break
        if hook and R.random() < .4:
            hook(S)
            continue
        k = R.random()
        if k < .05:
            S.look(R.choice(S.pool))
            continue
        if k < .11:
            evaluate(S)
            continue
        if k < .22:
            c = pick(S, *qs, ask=True)
            if c:
                o, f, hs, ext, x, w = c
                S.call(o.sem, f, hs, ext, x)
            continue
        c = pick(S, *ops)
        if not c:
            continue
        o, f, hs, ext, x, w = c
        cons = []
        if R.random() < .25:
            h = R.choice(hs)
            if hs.count(h) == 1 and len(S.pool) > 6:
                takes = [own for t, own, nm in lib.fns[f].args if t.endswith("*") and t.replace("*", "").strip()[4:] in CLASSES]
                if takes[hs.index(h)] == "take":
                    cons = [h]
        h = S.call(o.sem, f, hs, ext, x, w=w, consume=cons)
        if h is not None:
            h.cst = o.sem == "f_cst_on" or (o.sem in KEEPCST and all(getattr(g, "cst", False) for g in hs if O.isf(g)))
            # outside its context a gist may have several values
            if h.n > 200 or h.m > 60 or too_big(h) or (o.sem.startswith("f_gist") and not O.sv(h)):
                S.drop(h)
        while len(S.pool) > 18:
            S.drop(R.choice(S.pool))
    for h in S.pool[:]:
        if R.random() < .3:
            S.look(h)
    S.close()
    return S.stats


def too_big(h):
    for s in (h.sp if h.isu() else [h.sp]):
        if isinstance(s, dict):
            if (size(s["d"]) if s["d"] else 0) > 3 or size(s["r"]) > 5:
                return True
        elif s is not None and size(s) > 4:
            return True
    return False
