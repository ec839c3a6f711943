"""Sessions on the scheduler (C13)."""
import re
import gen, gexpr as G, gsched as P, gtree
import isl as I
from gexpr import Sc
from session import Sess, ERR

OPTS = dict(max_coefficient=(-1, 1, 2, 4), max_constant_term=(-1, 1, 2, 4), maximize_band_depth=(0, 1), maximize_coincidence=(0, 1),
            outer_coincidence=(0, 1), split_scaled=(0, 1), treat_coalescing=(0, 1), whole_component=(0, 1),
            serialize_sccs=(0, 1), carry_self_first=(0, 1), algorithm=(0, 1), separate_components=(0, 1))


def set_opts(S):
    R, lib = S.R, S.lib
    out = {}
    for o, vals in OPTS.items():
        if R.random() < .25:
            v = R.choice(vals)
            lib.get("isl_options_set_schedule_" + o)(S.ctx, v)
            out[o] = v
    return out


def umap(S, t):
    S.lib.ctx_reset_operations(S.ctx)
    return S.lib.union_map_read_from_str(S.ctx, t.encode())


def uset(S, t):
    return S.lib.union_set_read_from_str(S.ctx, t.encode())


def linear_schedule(R, ps, sts):
    m = R.randint(1, 4)
    tx = []
    for st in sts:
        es = []
        vs = P.VS[:st["d"]]
        if R.random() < .75:
            es = list(vs)
            if R.random() < .3:
                R.shuffle(es)
            if R.random() < .25 and es:
                i = R.randrange(len(es))
                es[i] = "-" + es[i]
            while len(es) < m:
                es.insert(R.randint(0, len(es)), str(R.randint(0, 2)))
            es = es[:max(m, 1)]
        while len(es) < m:
            es.append(G.lin(P.scope(R, ps, st), 2, 2, 2)[0])
        tx.append("%s -> [%s]" % (P.tup(st), ", ".join("(%s)" % e for e in es)))
    return P.pre(ps) + "{ " + "; ".join(tx) + " }"


def relation(S, sts, dom, before):
    """a random relation on the instances"""
    R, lib, ps = S.R, S.lib, S.world.names
    if R.random() < .55:
        arr = [("A", R.choice([0, 1, 1, 1, 2])), ("B", 1)][:R.choice([1, 1, 2])]
        t1, _ = P.access_list(R, ps, sts, arr, R.choice([1, 2, 2, 3]))
        t2, _ = P.access_list(R, ps, sts, arr, R.choice([1, 2, 2, 3]))
        m = lib.union_map_apply_range(umap(S, t1), lib.union_map_reverse(umap(S, t2)))
        tx = [t1, t2]
    else:
        l = []
        for _ in range(R.choice([1, 1, 2, 3])):
            a, b = R.choice(sts), R.choice(sts)
            t, _ = P.access_list(R, ps, [a], [(b["n"], b["d"])], 1)
            l.append(t[t.index("{") + 1:-1])
        tx = [P.pre(ps) + "{" + ";".join(l) + "}"]
        m = umap(S, tx[0])
    m = lib.union_map_intersect_domain(m, uset(S, dom))
    m = lib.union_map_intersect_range(m, uset(S, dom))
    if before:
        m = lib.union_map_intersect(m, lib.union_map_copy(before))
    return m, tx


def tagged(S, sts, m, tags):
    lib, ps = S.lib, S.world.names
    for f, t in zip(("domain", "range"), tags):
        if t:
            tm = umap(S, P.pre(ps) + "{ " + "; ".join("%s -> [%s -> %s[]]" % (P.tup(st), P.tup(st), t) for st in sts) + " }")
            m = lib.get("isl_union_map_apply_" + f)(m, tm)
    return m


def integral(t):
    """whether the rational relaxation of the printed relation should not matter: the scheduler reasons about the
    relaxation and may fail to find a schedule because of its fractional points"""
    return not re.search(r"exists|floor|mod|\d[a-z(]|\d\*", t)


def problem(S, opts):
    R, lib, ps = S.R, S.lib, S.world.names
    lib.ctx_reset_operations(S.ctx)
    sts = P.statements(R, ps, nst=R.choice([1, 2, 2, 3]), width=2, cp=.2)
    dom = P.domain_text(ps, sts)
    orig = linear_schedule(R, ps, sts)
    x = dict(opts=opts, y=[dom, orig])
    before = lib.union_map_lex_lt_union_map(umap(S, orig), umap(S, orig))
    rel, names = {}, []
    wild = R.random() < .12
    for n, p in (("val", .92), ("coin", .5), ("prox", .6)):
        if R.random() < p:
            if n != "val" and "val" in rel and R.random() < .45:
                rel[n] = lib.union_map_copy(rel["val"])
            else:
                rel[n], t = relation(S, sts, dom, None if wild or n == "prox" and R.random() < .3 else before)
                x["y"].append((n, t))
    tags = None
    if R.random() < .3:
        rel["cond"], t = relation(S, sts, dom, before)
        x["y"].append(("cond", t))
        rel["cval"], t = relation(S, sts, dom, None if wild else before)
        x["y"].append(("cval", t))
        tags = [R.choice(("r", "w")) for _ in range(4)] if R.random() < .5 else None
    lib.union_map_free(before)
    x["tags"] = tags or ["", "", "", ""]
    x["feas"] = 0 if wild or "cond" in rel or opts.get("algorithm") or any(opts.get(o, -1) >= 0 for o in ("max_coefficient", "max_constant_term")) else 1
    ctx = G.cmp(Sc(R, ps, []), 0) if ps and R.random() < .4 else P.TRUE
    x["ctx"] = ctx[1]
    if x["feas"] and not all(integral(lib.string(lib.union_map_to_str(r))) for r in rel.values()):
        x["feas"] = 0
    simple = set(rel) <= {"val", "prox"} and ctx[0] == "true" and R.random() < .1
    U = None
    try:
        U = gtree.Universe(S, uset(S, dom))
        x["dom"] = [list(range(1, len(l) + 1)) for l in U.inst]
        for n in ("val", "coin", "prox", "cond", "cval"):
            x[n] = U.pairs(lib.union_map_copy(rel[n])) if n in rel else [[] for _ in U.pvs]
        x["inst"], x["pvs"] = U.inst, [list(v) for v in U.pvs]
    except I.Undecided:
        for m in rel.values():
            lib.union_map_free(m)
        if U:
            U.free()
        return

    def call():
        lib.ctx_reset_operations(S.ctx)
        r = {n: m for n, m in rel.items()}
        if simple:
            e = P.pre(ps) + "{ }"
            return lib.union_set_compute_schedule(uset(S, dom), r.get("val") or umap(S, e), r.get("prox") or umap(S, e))
        sc = lib.schedule_constraints_on_domain(uset(S, dom))
        todo = [k for k in ("ctx", "val", "coin", "prox", "cond") if k == "ctx" or k in r]
        R.shuffle(todo)
        for k in todo:
            if k == "ctx":
                if ctx[0] != "true":
                    sc = lib.schedule_constraints_set_context(sc, lib.set_read_from_str(S.ctx, (P.pre(ps) + "{ : %s }" % ctx[0]).encode()))
            elif k == "cond":
                c, v = r["cond"], r["cval"]
                if tags:
                    c, v = tagged(S, sts, c, tags[:2]), tagged(S, sts, v, tags[2:])
                sc = lib.schedule_constraints_set_conditional_validity(sc, c, v)
            else:
                f = dict(val="validity", coin="coincidence", prox="proximity")[k]
                sc = lib.get("isl_schedule_constraints_set_" + f)(sc, r[k])
        k = R.random()
        if k < .15:
            s2 = lib.schedule_constraints_copy(sc)
            lib.schedule_constraints_free(sc)
            sc = s2
        elif k < .3:
            t = lib.string(lib.schedule_constraints_to_str(sc))
            s2 = lib.schedule_constraints_read_from_str(S.ctx, t.encode())
            if s2:
                lib.schedule_constraints_free(sc)
                sc = s2
        elif k < .4 and not tags:
            # renamed instances, renamed back
            ren = umap(S, "{ " + "; ".join("%s -> %s2[%s]" % (P.tup(st), st["n"], ", ".join(P.VS[:st["d"]])) for st in sts) + " }")
            sc = lib.schedule_constraints_apply(sc, lib.union_map_copy(ren))
            sc = lib.schedule_constraints_apply(sc, lib.union_map_reverse(ren))
        return lib.schedule_constraints_compute_schedule(sc)

    def conv(r, e):
        if not r:
            return dict(k="err", e=ERR.get(e, "?"))
        try:
            return dict(k="sch", t=gtree.tree(S, U, r), d=U.subset(lib.schedule_get_domain(r)))
        finally:
            lib.schedule_free(r)
    try:
        S.raw("schedule", "isl_union_set_compute_schedule" if simple else "isl_schedule_constraints_compute_schedule", [], call, conv, x)
    finally:
        U.free()


def run(lib, R, out, prog, prop, idx, n=5):
    world, rngs = gen.rand_world(R, maxp=1)
    world = gen.World(world.names, world.pvs[:3])
    S = Sess(lib, R, out, prog, prop, idx, world)
    opts = set_opts(S)
    lib.ctx_set_max_operations(S.ctx, 200000)         # the integer programs of the scheduler can take arbitrarily long
    for _ in range(n):
        problem(S, opts)
    S.close()
    return S.stats
