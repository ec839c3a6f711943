"""Sessions on AST expressions (C21)."""
import itertools, re
import gast, gexpr as G, prof_ast
from isl import World
from session import Sess


LEV = [["||"], ["&&"], ["==", "!="], ["<=", ">=", "<", ">"], ["+", "-"], ["*", "/", "%"]]
OP = {"||": "or_else", "&&": "and_then", "==": "eq", "<=": "le", ">=": "ge", "<": "lt", ">": "gt", "+": "add",
      "-": "sub", "*": "mul", "/": "pdiv_q", "%": "pdiv_r"}


def parse_c(s):
    """the syntax tree of a C expression, by the precedence of C"""
    T = re.findall(r"\s*(\d+|\w+|\|\||&&|[=<>!]=|\S)", s) + [""]
    T.reverse()

    def want(c):
        if T.pop() != c:
            raise ValueError(s)

    def cond():
        a = binary(0)
        if T[-1] != "?":
            return a
        T.pop()
        b = cond()
        want(":")
        return dict(t="op", o="cond", a=[a, b, cond()])

    def binary(k):
        if k == len(LEV):
            return unary()
        a = binary(k + 1)
        while T[-1] in LEV[k]:
            o = OP[T.pop()]
            a = dict(t="op", o=o, a=[a, binary(k + 1)])
        return a

    def unary():
        c = T.pop()
        if c == "-":
            return dict(t="op", o="minus", a=[unary()])
        if c == "(":
            a = cond()
            want(")")
            return a
        if c.isdigit():
            return dict(t="int", v=int(c))
        if not re.match(r"[A-Za-z_]", c):
            raise ValueError(s)
        if T[-1] != "(":
            return dict(t="id", n=c)
        T.pop()
        l = [cond()]
        while T[-1] == ",":
            T.pop()
            l.append(cond())
        want(")")
        return dict(t="op", o={"floord": "fdiv_q"}.get(c, c), a=l)
    a = cond()
    want("")
    return a


def pieces(R, sc):
    n = R.choice([1, 1, 1, 2, 2, 3])
    out, seen = [], []
    for i in range(n):
        e = G.expr(sc, R.choice([1, 2, 2]), pw=True)
        c = [G.cond(sc, 1)] if n > 1 or R.random() < .3 else []
        # disjoint pieces
        c += [G.neg(p) for p in seen]
        c = G.conj(c) if c else ("true", dict(o="true"))
        seen.append(c)
        out.append((e, c))
    return out


def run(lib, R, out, prog, prop, idx, n=8):
    np = R.choice([1, 2, 2, 3])
    ps = ["n", "m", "k"][:np]
    W = {1: range(-8, 9), 2: range(-4, 5), 3: range(-2, 3)}[np]
    R.dens = R.choice([None, None, [2], [3], [2, 4], [2, 3], [4, 6]])
    S = Sess(lib, R, out, prog, prop, idx, World(ps, list(itertools.product(*[W] * np))), W=3)
    prof_ast.set_opts(S)
    sc = G.Sc(R, ps, [])
    pre = G.params_text(ps)
    ctx = [G.cmp(sc, R.choice([0, 0, 1])) for _ in range(R.choice([0, 1, 1, 2, 2, 3]))]
    read = lambda t: lib.set_read_from_str(S.ctx, t.encode())
    build = lib.ast_build_from_context(read("%s{ : %s }" % (pre, " and ".join(G.paren(t) for t, a in ctx) or "true")))
    cs = [a for t, a in ctx]

    def conv(e, err):
        if not e:
            return dict(k="err", z=err)
        k = lib.ast_expr_copy(e)
        keep.append(e)
        return dict(k="e", e=gast.expr(lib, k))
    keep = []
    for _ in range(n):
        k = R.random()
        if k < .12:
            r = G.cond(sc, 1)
            build = lib.ast_build_restrict(build, read("%s{ : %s }" % (pre, r[0])))
            cs = cs + [r[1]]
        elif k < .55:
            f = pieces(R, sc)
            txt = "%s{ %s }" % (pre, "; ".join("[(%s)] : %s" % (e[0], c[0]) for e, c in f))
            x = dict(t=txt, ctx=cs, f=[dict(e=e[1], c=c[1]) for e, c in f])

            def call():
                return lib.ast_build_expr_from_pw_aff(build, lib.pw_aff_read_from_str(S.ctx, txt.encode()))
            S.raw("value", "isl_ast_build_expr_from_pw_aff", [], call, conv, x)
        elif k < .8:
            c = G.cond(sc, R.choice([0, 1, 1, 2]))
            x = dict(t=c[0], ctx=cs, c=c[1])
            S.raw("truth", "isl_ast_build_expr_from_set", [],
                         lambda: lib.ast_build_expr_from_set(build, read("%s{ : %s }" % (pre, c[0]))), conv, x)
        elif keep and k < .9:
            e = R.choice(keep)
            x = dict(e=gast.expr(lib, lib.ast_expr_copy(e)))

            def text(s, err):
                x["t"] = lib.string(s) if s else ""
                try:
                    return dict(k="e", e=parse_c(x["t"]))
                except (ValueError, IndexError):
                    return dict(k="err", z=0)
            S.raw("text", "isl_ast_expr_to_C_str", [], lambda: lib.ast_expr_to_C_str(e), text, x)
        elif keep:
            e = lib.ast_expr_copy(R.choice(keep))
            nm, m, q = R.choice(ps), R.choice([1, 1, 2, -1]), R.randint(-3, 3)

            def num(i):
                return lib.ast_expr_from_val(lib.val_int_from_si(S.ctx, i))
            x = dict(e=gast.expr(lib, lib.ast_expr_copy(e)), n=nm, m=m, k=q)

            def sub():
                i = lib.id_alloc(S.ctx, nm.encode(), None)
                t = lib.ast_expr_add(lib.ast_expr_mul(num(m), lib.ast_expr_from_id(lib.id_copy(i))), num(q))
                d = lib.id_to_ast_expr_set(lib.id_to_ast_expr_alloc(S.ctx, 1), i, t)
                return lib.ast_expr_substitute_ids(e, d)
            S.raw("subst", "isl_ast_expr_substitute_ids", [], sub, conv, x)
    for e in keep:
        lib.ast_expr_free(e)
    lib.ast_build_free(build)
    S.close()
    return S.stats
