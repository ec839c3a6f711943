"""C26: the sessions of other properties under random option settings (the
option settings are part of the session record and judged by the same
specifications: no answer may depend on them), and the option parser itself."""
import ctypes as C, json
import session
from session import Sess
from isl import World

# the documented options that select an algorithm or the form of a result
ENGINE = [
    ("context", ["gbr", "lexmin"]), ("gbr", ["never", "once", "always"]), ("gbr-only-first", None),
    ("closure", ["isl", "box"]), ("bound", ["bernstein", "range"]),
    ("bernstein-recurse", ["none", "factors", "intervals", "full"]), ("bernstein-triangulate", None),
    ("pip-symmetry", None), ("convex-hull", ["wrap", "fm"]),
    ("coalesce-bounded-wrapping", None), ("coalesce-preserve-locals", None),
]
SCHED = [(n, None) for n in ["schedule-parametric", "schedule-maximize-band-depth", "schedule-maximize-coincidence",
                             "schedule-outer-coincidence", "schedule-split-scaled", "schedule-treat-coalescing",
                             "schedule-separate-components", "schedule-whole-component", "schedule-carry-self-first",
                             "schedule-serialize-sccs", "tile-scale-tile-loops", "tile-shift-point-loops"]]
AST = [(n, None) for n in ["ast-build-atomic-upper-bound", "ast-build-prefer-pdiv", "ast-build-detect-min-max",
                           "ast-build-exploit-nested-bounds", "ast-build-group-coscheduled", "ast-build-scale-strides",
                           "ast-build-allow-else", "ast-build-allow-or"]] + [("ast-build-separation-bounds", ["explicit", "implicit"])]


def argv(args):
    a = (C.c_char_p * (len(args) + 2))()
    for i, s in enumerate([b"prog"] + [x.encode() for x in args]):
        a[i] = s
    a[len(args) + 1] = None
    return a


def parse(lib, ctx, args, flags=0):
    f = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_int, C.POINTER(C.c_char_p), C.c_uint)(("isl_ctx_parse_options", lib.dll))
    a = argv(args)
    n = f(ctx, len(args) + 1, a, flags)
    return [a[i].decode() for i in range(1, n)]


def pickopts(R, table, p):
    out = []
    for n, ch in table:
        if R.random() < p:
            if ch:
                out.append("--%s=%s" % (n, R.choice(ch)))
            else:
                out.append("--" + ("no-" if R.random() < .5 else "") + n)
    R.shuffle(out)
    return out


def under_options(lib, R, tables, prop, fn):
    """run fn with every context created by its session configured at random"""
    p = R.choice([.3, .6, .9])
    args = [a for t in tables for a in pickopts(R, t, p)]

    def pre(S):
        rest = parse(lib, S.ctx, args)
        assert not rest, rest
    session.PRE, session.AS, session.OPTS = pre, prop, args
    try:
        return fn()
    finally:
        session.PRE = session.AS = session.OPTS = None


# ---------------------------------------------------------------- the parser
CHOICE = {"context": ["gbr", "lexmin"], "gbr": ["never", "once", "always"], "closure": ["isl", "box"], "bound": ["bernstein", "range"],
          "on-error": ["continue"], "convex-hull": ["wrap", "fm"], "schedule-algorithm": ["isl", "feautrier"],
          "ast-build-separation-bounds": ["explicit", "implicit"]}
FLAGS = {"bernstein-recurse": ["none", "factors", "intervals", "full"]}
BOOLS = ["gbr-only-first", "bernstein-triangulate", "pip-symmetry", "coalesce-bounded-wrapping", "coalesce-preserve-locals",
         "schedule-parametric", "schedule-outer-coincidence", "schedule-maximize-band-depth", "schedule-maximize-coincidence",
         "schedule-split-scaled", "schedule-treat-coalescing", "schedule-separate-components", "schedule-whole-component",
         "schedule-carry-self-first", "schedule-serialize-sccs", "tile-scale-tile-loops", "tile-shift-point-loops",
         "ast-always-print-block", "ast-print-outermost-block", "ast-print-macro-once", "ast-build-atomic-upper-bound",
         "ast-build-prefer-pdiv", "ast-build-detect-min-max", "ast-build-exploit-nested-bounds", "ast-build-group-coscheduled",
         "ast-build-scale-strides", "ast-build-allow-else", "ast-build-allow-or"]
NUMS = ["schedule-max-coefficient", "schedule-max-constant-term", "max-operations"]
STRS = ["ast-iterator-type"]
GET = ["bound", "on-error", "gbr-only-first", "schedule-algorithm", "pip-symmetry", "coalesce-bounded-wrapping",
       "coalesce-preserve-locals", "schedule-max-coefficient", "schedule-max-constant-term", "schedule-maximize-band-depth",
       "schedule-maximize-coincidence", "schedule-outer-coincidence", "schedule-split-scaled", "schedule-treat-coalescing",
       "schedule-separate-components", "schedule-serialize-sccs", "schedule-whole-component", "schedule-carry-self-first",
       "tile-scale-tile-loops", "tile-shift-point-loops", "ast-always-print-block", "ast-print-outermost-block",
       "ast-print-macro-once", "ast-build-atomic-upper-bound", "ast-build-prefer-pdiv", "ast-build-detect-min-max",
       "ast-build-exploit-nested-bounds", "ast-build-group-coscheduled", "ast-build-separation-bounds",
       "ast-build-scale-strides", "ast-build-allow-else", "ast-build-allow-or"]


def split(raw):
    """an argument as the specification reads it (a description of the text, no more)"""
    d = 2 if raw.startswith("--") else 1 if raw.startswith("-") else 0
    body, eq, val = raw[d:], False, ""
    if "=" in body:
        body, val = body.split("=", 1)
        eq = True
    num, isnum = 0, False
    t = val if eq else raw
    try:
        num, isnum = int(t), True
    except ValueError:
        pass
    return dict(raw=raw, d=d, no=body.startswith("no-"), name=body[3:] if body.startswith("no-") else body, full=body, eq=eq, val=val, num=num,
                isnum=isnum, parts=t.split(","))


def arg(R):
    k = R.random()
    if k < .3:
        n = R.choice(sorted(CHOICE))
        v = R.choice(CHOICE[n]) if R.random() < .8 else R.choice(["x", "gb", "wrapp", "", "Wrap", "1"])
        return ["--%s=%s" % (n, v)] if R.random() < .6 else ["--" + n, v] if v and R.random() < .8 else ["--" + n]
    if k < .4:
        n = "bernstein-recurse"
        v = ",".join(R.choice(FLAGS[n]) for _ in range(R.randint(1, 3))) if R.random() < .8 else R.choice(["x", "facts", "none,y"])
        return ["--%s=%s" % (n, v)] if R.random() < .6 else ["--" + n, v]
    if k < .68:
        n = R.choice(BOOLS)
        return ["--" + ("no-" if R.random() < .5 else "") + n]
    if k < .84:
        n = R.choice(NUMS)
        v = R.choice(["0", "1", "7", "12345", "2147483647"] + (["-1", "-5"] if n != "max-operations" else []))
        return ["--%s=%s" % (n, v)] if R.random() < .6 else ["--" + n, v] if R.random() < .9 else ["--" + n, "zz"]
    if k < .88:
        v = R.choice(["int", "long", "a b", "T"])
        return ["--ast-iterator-type=" + v] if R.random() < .5 else ["--ast-iterator-type", v]
    if k < .93:
        return [R.choice(["file", "a.c", "x"])]
    n = R.choice(BOOLS + NUMS + sorted(CHOICE))
    return [R.choice(["--nope", "-z", "--" + n[:-1], "--" + n + "x", "-" + n, "--no-no-" + n, "--no-" + R.choice(NUMS), "--" + n.replace("-", "_")])
            if R.random() < .9 else "-"]


def options(lib, R, out, prog, prop, idx):
    S = Sess(lib, R, out, prog, prop, idx, World([], [()]))
    lib.options_set_on_error(S.ctx, 0)
    ctxs = [S.ctx] + [lib.ctx_alloc() for _ in range(R.choice([0, 1, 1, 2]))]

    def state(c):
        st = {n: lib.get("isl_options_get_" + n.replace("-", "_"))(c) for n in GET}
        p = lib.get("isl_options_get_ast_iterator_type")(c)
        st["ast-iterator-type"] = p.decode() if isinstance(p, bytes) else p
        return st
    prev = {}

    def rec(op, f, k, x, fn):
        ev = dict(op=op, f=f, pr=prop, a=[] if op == "fresh" else [1], x=dict(x, k=k), c=[])
        S.mark("%d %s" % (idx, json.dumps(ev)[:-1]))
        r = fn()
        d = {}
        for j, c in enumerate(ctxs):
            st = state(c)
            d[j] = {n: v for n, v in st.items() if prev.get(j, {}).get(n) != v}
            prev[j] = st
        ev.update(g=0, r=1, v=dict(k="opt", res=r, all=[prev[j] for j in range(len(ctxs))]))
        S.emit(ev)
    rec("fresh", "isl_ctx_alloc", 1, dict(n=len(ctxs)), lambda: 0)
    for _ in range(R.randint(4, 10)):
        k = R.randrange(len(ctxs))
        if R.random() < .3:
            n = R.choice(GET)
            v = R.choice([0, 1]) if "max-co" not in n else R.choice([-1, 0, 3, 1000])
            if n == "on-error":
                v = 1
            r = lib.get("isl_options_set_" + n.replace("-", "_"))
            rec("set_opt", "isl_options_set_" + n.replace("-", "_"), k + 1, dict(name=n, val=v), lambda: int(r(ctxs[k], v)))
            continue
        if R.random() < .05:
            rec("set_opt", "isl_options_set_ast_iterator_type", k + 1, dict(name="ast-iterator-type", val="long"),
                lambda: int(lib.get("isl_options_set_ast_iterator_type")(ctxs[k], b"long")))
            continue
        args = []
        for _ in range(R.randint(1, 4)):
            args += arg(R)
        rec("parse", "isl_ctx_parse_options", k + 1, dict(args=[split(a) for a in args]), lambda: parse(lib, ctxs[k], args))
    for c in ctxs[1:]:
        lib.ctx_free(c)
    S.close()
    return S.stats


def run(lib, R, out, prog, prop, part, idx):
    if part == "arg":
        return options(lib, R, out, prog, prop, idx)
    if part == "rel":
        import prof_rel
        sub = R.choice(["C01", "C02", "C03"])
        return under_options(lib, R, [ENGINE], prop, lambda: prof_rel.run(lib, R, out, prog, sub, idx, 40))
    import importlib
    m = importlib.import_module("prof_" + part)
    t = {"sched": [ENGINE, SCHED], "ast": [ENGINE, AST], "flow": [ENGINE]}.get(part, [ENGINE])
    sub = {"sched": "C13", "ast": "C11", "fun": "C07", "opt": "C04", "hull": "C05", "scan": "C06", "flow": "C12", "poly": "C08", "clos": "C09"}[part]
    return under_options(lib, R, t, prop, lambda: m.run(lib, R, out, prog, sub, idx))
