"""Sessions on parametric vertices (C23)."""
import ctypes as C, itertools
import gen, isl as I
from isl import DIM, World
from session import Sess

CB = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)


def polytope(R, ps, d):
    """the text of a bounded polytope"""
    vs = ["x", "y", "z"][:d]
    cs = []
    for v in vs:
        lo, hi = R.randint(-2, 0), R.randint(1, 4)
        cs.append(R.choice(["%d <= %s" % (lo, v)] * 3 + ["%s >= %s" % (v, R.choice(vs[:vs.index(v)] or ["0"]))]))
        p = R.choice(ps) if ps and R.random() < .5 else ""
        cs.append("%s <= %s" % (v, R.choice(["%s + %d" % (p, hi), "%d - %s" % (hi, p), "2%s + %d" % (p, hi), p]) if p else hi))
        if R.random() < .1:
            cs.append("%s <= %d" % (v, hi + 1))
    for _ in range(R.choice([0, 1, 1, 2, 2, 3] if d < 3 else [0, 1, 1, 2])):
        t = ["%d%s" % (R.choice([-3, -2, -1, -1, 0, 1, 1, 2, 3]), v) for v in vs] + ["%d%s" % (R.choice([-2, -1, 0, 0, 1, 1]), p) for p in ps]
        cs.append("%s + %d %s 0" % (" + ".join(t), R.randint(-3, 5), "=" if R.random() < .02 else ">="))
    return "%s{ [%s] : %s }" % ("[%s] -> " % ",".join(ps) if ps else "", ",".join(vs), " and ".join(cs))


def rows(lib, m):
    r, c = lib.mat_rows(m), lib.mat_cols(m)
    out = []
    for i in range(r):
        out.append([num(lib, lib.mat_get_element_val(m, i, j)) for j in range(c)])
    lib.mat_free(m)
    return out


def num(lib, v):
    n, d = lib.val_get_num_si(v), lib.val_get_den_si(v)
    lib.val_free(v)
    if d != 1:
        raise I.Undecided("num")
    if abs(n) > 3000:
        raise I.Undecided("size")
    return n


def affine(lib, a, np):
    """[denominator, parameters.., constant]"""
    cs = [lib.aff_get_coefficient_val(a, DIM["param"], i) for i in range(np)] + [lib.aff_get_constant_val(a)]
    den = lib.aff_get_denominator_val(a)
    if lib.aff_dim(a, DIM["div"]):
        raise I.Undecided("div")
    out = [num(lib, lib.val_mul(c, lib.val_copy(den))) for c in cs]
    lib.aff_free(a)
    return [num(lib, den)] + out


class Dom:
    def __init__(self, S):
        self.S, self.lib = S, S.lib

    def active(self, bs):
        """the listed parameter values in a set of parameters"""
        lib, S = self.lib, self.S
        st = lib.set_from_basic_set(bs)
        out = []
        for j, v in enumerate(S.world.pvs, 1):
            t = lib.set_copy(st)
            for i, z in enumerate(v):
                t = lib.set_fix_si(t, DIM["param"], i, z)
            e = lib.set_is_empty(t)
            lib.set_free(t)
            if e == 0:
                out.append(j)
        lib.set_free(st)
        return out


def run(lib, R, out, prog, prop, idx, n=4):
    np = R.choice([0, 1, 1, 1, 2])
    ps = ["n", "m"][:np]
    pvs = list(itertools.product(*[range(-3, 6) if np == 1 else range(-2, 4) for _ in ps]))
    S = Sess(lib, R, out, prog, prop, idx, World(ps, pvs), W=2)
    D = Dom(S)
    for _ in range(n):
        d = R.choice([1, 2, 2, 2, 3] if np < 2 else [1, 2, 2])
        txt = polytope(R, ps, d)
        b = lib.basic_set_read_from_str(S.ctx, txt.encode())
        if lib.basic_set_plain_is_empty(b) == 1:
            lib.basic_set_free(b)
            continue
        order = (DIM["param"], DIM["set"], DIM["div"], DIM["cst"])
        try:
            x = dict(d=d, t=txt, eq=rows(lib, lib.basic_set_equalities_matrix(b, *order)),
                     **{"in": rows(lib, lib.basic_set_inequalities_matrix(b, *order))})
        except I.Undecided:
            lib.basic_set_free(b)
            continue

        def conv(vt, e):
            if not vt:
                return dict(k="err")
            V, cells, bad = [], [], []

            def vertex(v, u):
                try:
                    m = lib.vertex_get_expr(v)
                    V.append(dict(id=lib.vertex_get_id(v), act=D.active(lib.vertex_get_domain(v)),
                                  e=[affine(lib, lib.multi_aff_get_at(m, i), np) for i in range(d)]))
                    lib.multi_aff_free(m)
                except I.Undecided as ex:
                    bad.append(ex)
                lib.vertex_free(v)
                return 0

            def cell(c, u):
                ids = []

                def of(v, u):
                    ids.append(lib.vertex_get_id(v))
                    lib.vertex_free(v)
                    return 0
                f = CB(of)
                lib.cell_foreach_vertex(c, C.cast(f, C.c_void_p), None)
                cells.append(dict(vs=ids, act=D.active(lib.cell_get_domain(c))))
                lib.cell_free(c)
                return 0
            f, g = CB(vertex), CB(cell)
            lib.vertices_foreach_vertex(vt, C.cast(f, C.c_void_p), None)
            lib.vertices_foreach_cell(vt, C.cast(g, C.c_void_p), None)
            r = dict(k="vert", n=lib.vertices_get_n_vertices(vt), V=V, C=cells)
            lib.vertices_free(vt)
            if bad:
                raise bad[0]
            return r
        S.raw("vertices", "isl_basic_set_compute_vertices", [], lambda: lib.basic_set_compute_vertices(b), conv, x)
        lib.basic_set_free(b)
    S.close()
    return S.stats
