"""Sessions on AST generation (C11)."""
import gen, gexpr as G, gsched as P, gast
import isl as I
from gexpr import Sc
from session import Sess, ERR

LOOP = ("separate", "atomic", "unroll")
OPTS = ("atomic_upper_bound", "prefer_pdiv", "detect_min_max", "exploit_nested_bounds", "group_coscheduled",
        "separation_bounds", "scale_strides", "allow_else", "allow_or")


def band_opts(R, node, outer):
    """options of a band"""
    l, n = [], len(node["m"])
    if R.random() < .5:
        return ""
    for _ in range(R.choice([1, 1, 2])):
        k = R.choice(LOOP)
        node.setdefault("o", []).append(k)
        j = R.random()
        l.append("%s[%s]" % (k, "x" if j < .4 else R.randrange(n)))
        if k == "unroll" or R.random() < .8:
            break
    if R.random() < .4:
        vo = ["o%d" % i for i in range(outer)]
        vb = ["b%d" % i for i in range(n)]
        S = Sc(R, [], vo + vb)
        cs = [G.cmp(S, 0)[0] for _ in range(R.choice([1, 1, 2]))]
        if R.random() < .6:
            v = R.choice(vb)
            cs = ["%d <= %s <= %d" % (R.randint(-2, 1), v, R.randint(1, 4))] + cs[1:]
        l.append("isolate[[%s] -> [%s]] : %s" % (", ".join(vo), ", ".join(vb), " and ".join(cs)))
        if R.random() < .5:
            k = R.choice(LOOP)
            node.setdefault("o", []).append(k)
            l.append("[isolate[] -> %s[%s]]" % (k, "x" if R.random() < .5 else R.randrange(n)))
        node.setdefault("o", []).append("isolate")
    return ', options: "{ %s }"' % "; ".join(l)


def map_opts(R, m):
    l, used = [], []
    for _ in range(R.choice([1, 1, 2])):
        k = R.choice(LOOP + ("separation_class",))
        used.append(k)
        vs = ["t%d" % i for i in range(m)]
        d = R.randrange(m)
        cc = ""
        if R.random() < .4 or k == "separation_class":
            cc = " : " + G.cmp(Sc(R, [], vs[:d + 1]), 0)[0]
        tgt = "separation_class[[%d] -> [%d]]" % (d, R.randint(0, 1)) if k == "separation_class" else \
            "%s[%s]" % (k, "x" if R.random() < .4 and not cc else d)
        l.append("[%s] -> %s%s" % (", ".join(vs), tgt, cc))
    return "{ %s }" % "; ".join(l), used


def set_opts(S):
    R, lib = S.R, S.lib
    out = {}
    for o in OPTS:
        if R.random() < .25:
            v = R.randint(0, 1)
            lib.get("isl_options_set_ast_build_" + o)(S.ctx, v)
            out[o] = v
    return out


def contains(t, what):
    return what in t.get("o", []) or ("k" in t and contains(t["k"], what)) or \
        any(contains(c["k"], what) for c in t.get("l", []))


def problem(S, opts):
    R, lib, ps = S.R, S.lib, S.world.names
    sts = P.statements(R, ps, width=R.choice([2, 3]), cp=.6)
    x = dict(P=P.for_spec(sts), ast=0, opts=opts)
    astree = R.random() < .55
    mo = None
    if astree:
        node, y = P.schedule_tree(R, ps, sts, depth=3, kinds=("band", "band", "seq", "mark", "set"), opts=band_opts)
        x["sch"] = dict(k="tree", t=node)
        unroll = contains(node, "unroll")
    else:
        y, l = P.schedule_map(R, ps, sts, partial=.25)
        if R.random() < .12:
            # some statements get a second time
            y2, l2 = P.schedule_map(R, ps, R.sample(sts, 1))
            if len(l2[0]["e"]) == len(l[0]["e"]):
                l = l + l2
                y = y[:y.rindex("}")] + "; " + y2[y2.index("{") + 1:]
        x["sch"] = dict(k="map", m=l)
        unroll = False
        if R.random() < .5:
            mo, used = map_opts(R, len(l[0]["e"]))
            unroll = "unroll" in used
    ctx = G.cmp(Sc(R, ps, []), 0) if ps and R.random() < .5 else P.TRUE
    x["ctx"] = ctx[1]
    x["y"] = [P.domain_text(ps, sts), y, mo or "", ctx[0]]
    its = ["it%d" % i for i in range(6)] if R.random() < .15 else []
    dom = P.domain_text(ps, sts)

    def call():
        if astree:
            sch = lib.schedule_read_from_str(S.ctx, y.encode())
            if not sch:
                return "noinput"
        else:
            sch = lib.union_map_intersect_domain(lib.union_map_read_from_str(S.ctx, y.encode()),
                                                 lib.union_set_read_from_str(S.ctx, dom.encode()))
        c = lib.set_read_from_str(S.ctx, (P.pre(ps) + "{ : %s }" % ctx[0]).encode())
        b = lib.ast_build_from_context(c) if ctx[0] != "true" or R.random() < .7 else lib.ast_build_alloc(S.ctx)
        if not ctx[0] != "true":
            pass
        if mo:
            b = lib.ast_build_set_options(b, lib.union_map_read_from_str(S.ctx, mo.encode()))
        if its:
            l = lib.id_list_alloc(S.ctx, len(its))
            for i in its:
                l = lib.id_list_add(l, lib.id_alloc(S.ctx, i.encode(), None))
            b = lib.ast_build_set_iterators(b, l)
        f = lib.ast_build_node_from_schedule if astree else lib.ast_build_node_from_schedule_map
        r = f(b, sch)
        lib.ast_build_free(b)
        return r

    def conv(r, e):
        if r == "noinput":
            raise I.Undecided("input")
        if not r:
            if unroll:
                raise I.Undecided("unroll")
            return dict(k="err", e=ERR.get(e, "?"))
        return dict(k="ast", ast=gast.node(lib, r))
    S.raw("ast", "isl_ast_build_node_from_schedule" + ("" if astree else "_map"), [], call, conv, x)


def run(lib, R, out, prog, prop, idx, n=5):
    world, rngs = gen.rand_world(R, maxp=1)
    world = gen.World(world.names, world.pvs[:3])
    S = Sess(lib, R, out, prog, prop, idx, world)
    opts = set_opts(S)
    for _ in range(n):
        problem(S, opts)
    S.close()
    return S.stats
