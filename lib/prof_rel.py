"""Sessions on sets and relations (C01 operations, C02 questions, C03 simplifications)."""
import gen, ops_rel, json
from ops_rel import OPS, QS
from session import Sess
from isl import DIM

_plan = {}


def plan(lib, ops):
    key = id(ops)
    if key not in _plan:
        rows = []
        for o in ops:
            if o.weight <= 0:
                continue
            for f in o.fns:
                p = lib.fns[f]
                at = []
                for t, own, nm in p.args:
                    b = t.replace("*", "").replace("const ", "").strip()
                    if t.endswith("*") and b.startswith("isl_") and b != "isl_ctx":
                        at.append(b[4:])
                rows.append((o, f, at, o.weight / len(o.fns) ** .5))
        _plan[key] = (rows, [r[3] for r in rows])
    return _plan[key]


def sameparams(S, opnd, o=None):
    """calls on basic sets and maps do not align parameters, nor do sums"""
    if o is not None and o.knowndivs and opnd[0].cls.startswith("basic"):
        if not known_divs(S, opnd[0]):
            return False
    if len(opnd) < 2:
        return True
    if not (o is not None and o.sameparams) and not any(h.cls.startswith("basic") for h in opnd):
        return True
    ps = [ops_rel.own_params(S, h) for h in opnd]
    return all(p == ps[0] for p in ps)


def known_divs(S, h):
    """does every integer division of a basic object have an explicit form"""
    lib = S.lib
    ls = lib.get("isl_%s_get_local_space" % h.cls)(h.ptr)
    n = lib.local_space_dim(ls, DIM["div"])
    ok = True
    for i in range(n):
        a = lib.local_space_get_div(ls, i)
        if not a:
            ok = False
            lib.ctx_reset_error(S.ctx)
            break
        lib.aff_free(a)
    lib.local_space_free(ls)
    return ok


def carry(o, operands, W):
    """(allowed, w of the result)"""
    ex = [h.w == 0 for h in operands]
    inside = [h.w == 0 and h.m <= W for h in operands]
    k = o.w
    if k is None:
        return all(ex), 0
    if k == "or":
        return True, 0 if all(ex) else W
    if k in ("and",):
        if all(ex):
            return True, 0
        return True, 0 if any(inside) else W
    if k == "andx":
        return (all(ex), 0)
    if k == "first":
        if all(ex):
            return True, 0
        return True, 0 if inside[0] else W
    if k == "never":
        return all(ex) and all(inside), W
    if k == "bij":
        return True, 0 if all(ex) else W
    if k == "gist":
        return True, W
    raise Exception(k)


def partner(R, a, c):
    """an operand to go with a; preferably one that has something in common with it"""
    if R.random() < .4:
        rel = [h for h in c if h is not a and a.extra and h.extra and a.extra & h.extra]
        if rel:
            return R.choice(rel)
    return R.choice(c)


def pick(S, rows, weights, tries=40):
    R = S.R
    for _ in range(tries):
        o, f, at, _w = R.choices(rows, weights)[0]
        opnd = []
        for t in at:
            c = [h for h in S.pool if h.cls == t]
            if not c:
                break
            opnd.append(partner(R, opnd[0], c) if opnd else R.choice(c))
        else:
            for _2 in range(6):
                d = o.pre(*opnd) if o.pre else True
                if d and len(opnd) > 1 and not sameparams(S, opnd, o):
                    d = False
                if d == "disjoint":
                    d = False
                if d:
                    allowed, w = carry(o, opnd, S.W)
                    if not allowed:
                        d = False
                if d:
                    ext = ([], None)
                    if o.ext:
                        ext = o.ext(S, opnd[0])
                    if ext is not None:
                        return o, f, opnd, ext[0], ext[1], w
                if len(at) < 2:
                    break
                opnd = [opnd[0]] + [partner(R, opnd[0], [h for h in S.pool if h.cls == t]) for t in at[1:]]
    return None


def pickq(S, rows, weights):
    R = S.R
    for _ in range(40):
        o, f, at, _w = R.choices(rows, weights)[0]
        opnd = []
        for t in at:
            c = [h for h in S.pool if h.cls == t]
            if not c:
                break
            opnd.append(partner(R, opnd[0], c) if opnd else R.choice(c))
        else:
            for _2 in range(6):
                if (not o.pre or o.pre(*opnd)) and sameparams(S, opnd, o):
                    if o.sem == "is_bounded" and opnd[0].k == "params":
                        break
                    ext = ([], None)
                    if o.ext:
                        ext = o.ext(S, opnd[0])
                    if ext is not None:
                        return o, f, opnd, ext[0], ext[1]
                if len(at) < 2:
                    break
                opnd = [opnd[0]] + [partner(R, opnd[0], [h for h in S.pool if h.cls == t]) for t in at[1:]]
    return None


def focus_pool(S, ctx, R, count):
    """many objects of one space, with integer divisions in common"""
    names = S.world.names
    if S.focus == "set":
        sp = gen.leaf(R.choice(["", "A"]), R.choice([1, 1, 2]))
        cls = "set"
    else:
        a = gen.leaf(R.choice(["", "A"]), 1)
        sp = {"d": a, "r": R.choice([a, a, gen.leaf("B", 1)])}
        cls = "map"
    S.shapes = [sp if cls == "set" else sp["d"]]
    for i in range(count):
        k = R.random()
        b = k < .15
        S.input(("basic_" if b else "union_" if k > .9 else "") + cls,
                gen.text(R, [sp], names, ctx, cap=60, rich=1.35, basic=b, divs=.8))
    singles(S, R, .4)


def singles(S, R, p):
    """explicit points of sets and relations read before"""
    names = S.world.names
    for h in [h for h in S.pool if h.n and not h.isu() and h.k != "params"]:
        if R.random() < p:
            e = R.choice(json.loads(h.js)["p"])
            t = " -> ".join(pt_text(x) for x in e[1:])
            f = " and ".join("%s = %d" % (n, v) for n, v in zip(names, e[0]))
            g = S.input(h.cls.replace("basic_", ""), "[%s] -> { %s : %s }" % (",".join(names), t, f) if f else "{ %s }" % t)
            if g:
                g.extra = g.extra | h.extra


def seed_pool(S, rngs, R, count=6, rich=1.0, basic=.25, union=.25):
    names = S.world.names
    ctx = gen.world_context(names, rngs)
    if S.focus:
        return focus_pool(S, ctx, R, count)
    n1 = R.choice([1, 1, 2, 2, 2, 3, 0])
    s1 = gen.rand_shape(R, n1)
    s2 = gen.rand_shape(R, R.choice([0, 1, 1, 2]))
    s3 = gen.rand_shape(R, R.choice([1, 1, 2]), nest=0.5)
    shapes = [s1, s1, s2, s3]
    S.shapes = shapes
    for i in range(count):
        ismap = R.random() < .55
        u = R.random() < union
        b = not u and R.random() < basic

        def one():
            if ismap:
                d, r = R.choice(shapes), R.choice(shapes)
                if gen.size(d) + gen.size(r) > 4:
                    r = R.choice([gen.leaf("A", 1), gen.leaf("", 1)])
                return {"d": d, "r": r}
            return R.choice(shapes)
        sps = [one() for _ in range(R.randint(1, 3) if u else 1)]
        cls = ("union_" if u else "basic_" if b else "") + ("map" if ismap else "set")
        S.input(cls, gen.text(R, sps, names, ctx, cap=50, rich=rich, basic=b))
    singles(S, R, .2)
    if names and R.random() < .6:
        # constraints on the parameters alone
        t = "[%s] -> { : %s and %s }" % (",".join(names), ctx, gen.constraint(R, [], names))
        S.input("set", t)


def pt_text(x):
    if len(x) == 2:
        return "%s[%s]" % (x[0], ",".join(map(str, x[1])))
    return "%s[%s -> %s]" % (x[0], pt_text(x[1]), pt_text(x[2]))


WEIGHTS = {"C01": dict(op=.72, simp=.2, q=.0, look=.05, drop=.03),
           "C02": dict(op=.25, simp=.1, q=.6, look=.03, drop=.02),
           "C03": dict(op=.4, simp=.52, q=0, look=.05, drop=.03)}

SIMP = [o for o in OPS if o.prop == "C03"]
CORE = [o for o in OPS if o.prop == "C01"]


def focused(ops, names):
    import copy
    out = []
    for o in ops:
        o = copy.copy(o)
        o.weight = o.weight * (1 if o.sem in names else .04)
        out.append(o)
    return out


FCORE = focused(CORE, {"union", "intersect", "subtract", "complement", "project_out", "apply_range", "apply", "identity",
                       "reverse", "sum_r", "sum_s", "deltas", "fixed_power", "lex_lt_s", "lex_le_s", "fix", "subtract_domain"})
FSIMP = [o for o in SIMP]
FQS = focused(QS, {"is_empty", "is_equal", "is_subset", "is_strict_subset", "is_disjoint", "is_single_valued",
                   "is_injective", "is_bijective", "plain_is_disjoint", "plain_is_equal"})


def run(lib, R, out, prog, prop, idx, steps=30, hook=None):
    world, rngs = gen.rand_world(R)
    R.dens = R.choice([None, [2], [3], [2, 4], [2, 3], [3, 5]])
    S = Sess(lib, R, out, prog, prop, idx, world, W=R.choice([5, 6]))
    S.focus = R.choice([None, None, "set", "set", "map"])
    seed_pool(S, rngs, R, count=R.randint(5, 8))
    wt = WEIGHTS.get(prop) or WEIGHTS["C03"]
    kinds, ws = list(wt), list(wt.values())
    if S.focus:
        core, simp, qs = plan(lib, FCORE), plan(lib, FSIMP), plan(lib, FQS)
    else:
        core, simp, qs = plan(lib, CORE), plan(lib, SIMP), plan(lib, QS)
    for _ in range(steps):
        if not S.pool:
            break
        if hook and R.random() < .4:
            hook(S)
            continue
        k = R.choices(kinds, ws)[0]
        if k == "look":
            S.look(R.choice(S.pool))
            continue
        if k == "drop" and len(S.pool) > 6:
            S.drop(R.choice(S.pool))
            continue
        if k == "q":
            c = pickq(S, *qs)
            if c:
                o, f, opnd, ext, x = c
                S.call(o.sem, f, opnd, ext, x, prop="C02")
            continue
        c = pick(S, *(simp if k == "simp" else core))
        if not c:
            continue
        o, f, opnd, ext, x, w = c
        cons = []
        if R.random() < .3:
            h = R.choice(opnd)
            if opnd.count(h) == 1 and len(S.pool) > 5:
                takes = [own for t, own, nm in lib.fns[f].args if t.endswith("*") and "isl_ctx" not in t]
                if takes[opnd.index(h)] == "take":
                    cons = [h]
        h = S.call(o.sem, f, opnd, ext, x, w=w, consume=cons, prop=o.prop)
        if h is not None and (h.n > 150 or ops_rel.size2(h) > 5 or h.m > 40 or (h.w and ops_rel.size2(h) > 3)):
            S.drop(h)
        while len(S.pool) > 14:
            S.drop(R.choice(S.pool))
    for h in S.pool[:]:
        if R.random() < .5:
            S.look(h)
    S.close()
    return S.stats
