"""Sessions on integer matrices and vectors (C25).  A vector is a matrix of one
row; every call is recorded with its operands, its results, and the operands
the caller kept, read again afterwards."""
import ctypes as C
from session import Sess
from prof_num import digits, parse
from isl import World


class M:
    """a matrix (kind "m") or vector (kind "v") of integers"""
    __slots__ = ("kind", "r", "c", "e")

    def __init__(self, kind, e, c=None):
        self.kind, self.e = kind, e
        self.r, self.c = len(e), len(e[0]) if e else c


def rec(m):
    return dict(r=m.r, c=m.c, e=[[[(n > 0) - (n < 0), digits(abs(n))] for n in row] for row in m.e])


class Mats:
    def __init__(self, lib, R, S):
        self.lib, self.R, self.S, self.ctx = lib, R, S, S.ctx

    def big(self, n):
        return self.lib.val_read_from_str(self.ctx, str(n).encode())

    def make(self, m):
        lib = self.lib
        p = lib.vec_alloc(self.ctx, m.c) if m.kind == "v" else lib.mat_alloc(self.ctx, m.r, m.c)
        for i, row in enumerate(m.e):
            for j, n in enumerate(row):
                small = abs(n) < 1 << 31
                if m.kind == "v":
                    p = lib.vec_set_element_si(p, j, n) if small else lib.vec_set_element_val(p, j, self.big(n))
                else:
                    p = lib.mat_set_element_si(p, i, j, n) if small else lib.mat_set_element_val(p, i, j, self.big(n))
        return p

    def num(self, v):
        n = parse(self.lib.string(self.lib.val_to_str(v)))
        self.lib.val_free(v)
        return n[:2] if n[2] == [1] else [2, n[1]]

    def read(self, p, kind):
        lib = self.lib
        if not p:
            return None
        if kind == "v":
            n = lib.vec_size(p)
            return dict(r=1, c=n, e=[[self.num(lib.vec_get_element_val(p, j)) for j in range(n)]])
        r, c = lib.mat_rows(p), lib.mat_cols(p)
        return dict(r=r, c=c, e=[[self.num(lib.mat_get_element_val(p, i, j)) for j in range(c)] for i in range(r)])

    def free(self, p, kind):
        if p:
            (self.lib.vec_free if kind == "v" else self.lib.mat_free)(p)

    def copy(self, p, kind):
        return (self.lib.vec_copy if kind == "v" else self.lib.mat_copy)(p)

    def do(self, q, f, ms, call, out="m", ints=(), n=0, take=True, share=.6):
        """call(pointers) returns a pointer (out = "m"/"v"), a number ("n") or a list of (pointer, kind)"""
        R = self.R
        ps = [self.make(m) for m in ms]
        held = []
        for j, m in enumerate(ms):
            if take and R.random() < share:
                held.append((j, self.copy(ps[j], m.kind)))
            elif not take:
                held.append((j, ps[j]))

        def conv(res, err):
            if out == "n":
                bad = res < -1 if q == "cmp" else res < 0
                v = dict(k="err") if bad else dict(k="m", n=res, m=[])
            else:
                rs = res if isinstance(res, list) else [(res, out)]
                ms_ = [self.read(p, k) for p, k in rs]
                v = dict(k="err") if ms_[0] is None else dict(k="m", n=0, m=[x or dict(r=0, c=0, e=[]) for x in ms_])
                for p, k in rs:
                    self.free(p, k)
            v["keep"] = [dict(j=j + 1, m=self.read(p, ms[j].kind)) for j, p in held]
            for j, p in held:
                self.free(p, ms[j].kind)
            return v
        x = dict(q=q, m=[rec(m) for m in ms], i=list(ints), n=[(n > 0) - (n < 0), digits(abs(n))])
        self.S.raw("mat", f, [], lambda: call(*ps), conv, x)


def entry(R, wide):
    k = R.random()
    if k < .3:
        return 0
    if k < .75 or not wide:
        return R.randint(-4, 4)
    if k < .85:
        return R.randint(-40, 40)
    b = R.choice([15, 30, 31, 32, 33, 62, 63, 64])
    return R.choice([-1, 1]) * ((1 << b) + R.randint(-2, 2)) // R.choice([1, 1, 3])


def rand_mat(R, r, c, wide, dep=True):
    e = [[entry(R, wide) for _ in range(c)] for _ in range(r)]
    if dep and r > 1 and R.random() < .35:        # dependent rows
        i, j, k = R.randrange(r), R.randrange(r), R.randrange(r)
        a, b = R.randint(-3, 3), R.randint(-2, 2)
        if i not in (j, k):
            e[i] = [a * x + b * y for x, y in zip(e[j], e[k])]
    if c > 1 and R.random() < .2:
        j, k = R.sample(range(c), 2)
        a = R.randint(-2, 2)
        for row in e:
            row[j] = a * row[k]
    return M("m", e, c)


def unimod(R, n, wide):
    e = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(R.randint(2, 6)):
        if n < 2:
            break
        i, j = R.sample(range(n), 2)
        f = R.randint(-3, 3) if not wide or R.random() < .8 else R.choice([1 << 31, -(1 << 32), 99991])
        if R.random() < .5:
            e[i] = [x + f * y for x, y in zip(e[i], e[j])]
        else:
            for row in e:
                row[i] += f * row[j]
    return e


def rand_vec(R, c, wide):
    return M("v", [[entry(R, wide) for _ in range(c)]])


def step(T):
    lib, R = T.lib, T.R
    wide = R.random() < .45
    r, c = R.choice([1, 2, 2, 3, 3]), R.choice([1, 2, 3, 3, 4])
    A = rand_mat(R, r, c, wide)
    name = R.choice(OPS)
    f = "isl_" + name
    g = lib.get(f)
    b = name.partition("_")[2]
    if name == "mat_product":
        T.do("product", f, [A, rand_mat(R, c, R.randint(1, 3), wide)], g)
    elif name == "mat_vec_product":
        v = rand_vec(R, c, wide)
        # a column, recorded as its transpose: v A^T
        T.do("product", f, [v, M("m", [list(x) for x in zip(*A.e)])], lambda p, t: g(lib.mat_transpose(t), p), out="v")
    elif name == "vec_mat_product":
        T.do("product", f, [rand_vec(R, r, wide), A], g, out="v")
    elif name == "mat_transpose":
        T.do("transpose", f, [A], g)
    elif name == "mat_diagonal":
        T.do("diagonal", f, [A, rand_mat(R, R.randint(1, 3), R.randint(1, 3), wide)], g)
    elif name == "mat_concat":
        T.do("concat", f, [A, rand_mat(R, R.randint(1, 2), c, wide)], g)
    elif name == "mat_vec_concat":
        T.do("concat", f, [A, rand_vec(R, c, wide)], g)
    elif name == "vec_concat":
        T.do("beside", f, [rand_vec(R, c, wide), rand_vec(R, r, wide)], g, out="v")
    elif name == "mat_from_row_vec":
        T.do("same", f, [rand_vec(R, c, wide)], g)
    elif name in ("mat_swap_cols", "mat_swap_rows"):
        n = c if b == "swap_cols" else r
        i, j = R.randrange(n), R.randrange(n)
        T.do(b, f, [A], lambda p: g(p, i, j), ints=(i, j))
    elif name in ("mat_drop_cols", "mat_drop_rows"):
        n = c if b == "drop_cols" else r
        i = R.randrange(n)
        k = R.randint(1, n - i)
        T.do(b, f, [A], lambda p: g(p, i, k), ints=(i, k))
    elif name in ("mat_insert_zero_cols", "mat_insert_zero_rows"):
        n = c if "cols" in b else r
        i, k = R.randint(0, n), R.randint(0, 2)
        T.do("insert_cols" if "cols" in b else "insert_rows", f, [A], lambda p: g(p, i, k), ints=(i, k))
    elif name in ("mat_add_zero_cols", "mat_add_zero_rows"):
        n = c if "cols" in b else r
        k = R.randint(0, 2)
        T.do("insert_cols" if "cols" in b else "insert_rows", f, [A], lambda p: g(p, k), ints=(n, k))
    elif name in ("mat_move_cols", "vec_move_els"):
        k = R.randint(1, c)
        s, d = R.randint(0, c - k), R.randint(0, c - k)
        if name == "vec_move_els":
            T.do("move", f, [rand_vec(R, c, wide)], lambda p: g(p, d, s, k), out="v", ints=(d, s, k))
        else:
            T.do("move", f, [A], lambda p: g(p, d, s, k), ints=(d, s, k))
    elif name == "mat_identity":
        n = R.randint(0, 4)
        T.do("identity", f, [], lambda: g(T.ctx, n), ints=(n,))
    elif name == "mat_lin_to_aff":
        T.do("lin_to_aff", f, [A], g)
    elif name in ("mat_set_element_si", "mat_set_element_val"):
        i, j = R.randrange(r), R.randrange(c)
        n = R.randint(-9, 9) if b.endswith("si") else entry(R, True)
        T.do("set", f, [A], lambda p: g(p, i, j, n if b.endswith("si") else T.big(n)), ints=(i, j), n=n)
    elif name in ("vec_set_element_si", "vec_set_element_val"):
        j = R.randrange(c)
        n = R.randint(-9, 9) if b.endswith("si") else entry(R, True)
        T.do("set", f, [rand_vec(R, c, wide)], lambda p: g(p, j, n if b.endswith("si") else T.big(n)), out="v", ints=(0, j), n=n)
    elif name in ("vec_set_si", "vec_set_val", "vec_clr"):
        n = 0 if b == "clr" else R.randint(-9, 9) if b.endswith("si") else entry(R, True)
        T.do("fill", f, [rand_vec(R, c, wide)], lambda p: g(p) if b == "clr" else g(p, n if b.endswith("si") else T.big(n)), out="v", n=n)
    elif name == "mat_col_add":
        if c > 1:
            i, j = R.sample(range(c), 2)

            def add(p):
                g(p, i, j)
                return p
            T.do("col_add", f, [A], add, ints=(i, j), share=0)
    elif name in ("mat_normalize", "mat_normalize_row"):
        k = R.choice([1, 2, 3, 6, 1 << 31, 10 ** 10])
        A = M("m", [[k * x for x in row] for row in A.e])
        i = R.randrange(r)
        T.do(b, f, [A], g if b == "normalize" else lambda p: g(p, i), ints=(i,))
    elif name == "vec_normalize":
        k = R.choice([1, 2, 3, 6, 1 << 31, 10 ** 10])
        T.do("normalize", f, [M("v", [[k * x for x in rand_vec(R, c, wide).e[0]]])], g, out="v")
    elif name in ("vec_neg", "vec_sort"):
        T.do(b, f, [rand_vec(R, R.randint(1, 6), wide)], g, out="v")
    elif name == "vec_add":
        T.do("add", f, [rand_vec(R, c, wide), rand_vec(R, c, wide)], g, out="v")
    elif name == "vec_ceil":
        v = rand_vec(R, c, wide)
        v.e[0][0] = abs(entry(R, wide)) or 3
        T.do("ceil", f, [v], g, out="v")
    elif name in ("vec_zero_extend", "vec_insert_zero_els"):
        k = R.randint(0, 2)
        i = R.randint(0, c) if name == "vec_insert_zero_els" else c
        T.do("insert_cols", f, [rand_vec(R, c, wide)], lambda p: g(p, i, k) if name == "vec_insert_zero_els" else g(p, c + k), out="v", ints=(i, k))
    elif name == "vec_drop_els":
        i = R.randrange(c)
        k = R.randint(1, c - i)
        T.do("drop_cols", f, [rand_vec(R, c, wide)], lambda p: g(p, i, k), out="v", ints=(i, k))
    elif name == "vec_cmp_element":
        j = R.randrange(c)
        u, v = rand_vec(R, c, wide), rand_vec(R, c, wide)
        if R.random() < .3:
            v.e[0][j] = u.e[0][j]
        T.do("cmp", f, [u, v], lambda p, t: max(-1, min(1, g(p, t, j))), out="n", ints=(j,), take=False)
    elif name in ("mat_is_equal", "vec_is_equal"):
        B = M("m", [list(x) for x in A.e])
        k = R.random()
        if k < .3:
            B.e[R.randrange(r)][R.randrange(c)] += R.choice([0, 1, -1, 1 << 32])
        elif k < .5:
            B = rand_mat(R, R.choice([r, 2]), R.choice([c, 2]), wide)
        if name == "vec_is_equal":
            A, B = M("v", A.e[:1]), M("v", B.e[:1])
        T.do("is_equal", f, [A, B], g, out="n", take=False)
    elif name == "mat_rank":
        T.do("rank", f, [A], g, out="n", take=False)
    elif name == "mat_initial_non_zero_cols":
        if R.random() < .5:
            j = R.randrange(c)
            for row in A.e:
                row[j] = 0
        T.do("initial", f, [A], g, out="n", take=False)
    elif name == "mat_has_linearly_independent_rows":
        T.do("independent", f, [A, rand_mat(R, R.randint(1, 2), c, wide)], g, out="n", take=False)
    elif name == "mat_row_basis":
        T.do("row_basis", f, [A], g)
    elif name == "mat_row_basis_extension":
        T.do(b, f, [A, rand_mat(R, R.randint(1, 3), c, wide)], g)
    elif name == "mat_right_kernel":
        T.do(b, f, [A], g)
    elif name == "mat_right_inverse":
        if r > c:
            A = M("m", [list(x) for x in zip(*A.e)])
        T.do(b, f, [A], g)
    elif name in ("mat_inverse_product", "mat_vec_inverse_product"):
        n = R.randint(1, 3)
        L = rand_mat(R, n, n, wide, dep=False)
        if b == "inverse_product":
            T.do(b, f, [L, rand_mat(R, n, R.randint(1, 3), wide)], g)
        else:
            v = rand_mat(R, n, 1, wide)
            w = M("v", [[x[0] for x in v.e]])
            hold = T.make(w)

            def cal(p, t):
                T.free(t, "m")
                u = g(p, hold)
                return lib.mat_transpose(lib.mat_from_row_vec(u)) if u else u
            T.do("inverse_product", f, [L, v], cal)
    elif name == "mat_left_hermite":
        neg, wu, wq = R.randint(0, 1), int(R.random() < .7), int(R.random() < .7)
        U, Q = C.c_void_p(), C.c_void_p()

        def cal(p):
            h = g(p, neg, C.cast(C.byref(U), C.c_void_p) if wu else None, C.cast(C.byref(Q), C.c_void_p) if wq else None)
            return [(h, "m"), (U.value, "m"), (Q.value, "m")]
        T.do("hermite", f, [A], cal, ints=(neg, wu, wq))
    elif name == "mat_unimodular_complete":
        n = R.randint(1, 4)
        k = R.randint(0, n)
        e = unimod(R, n, wide)
        if R.random() < .2 and k:
            e[R.randrange(k)] = [entry(R, False) for _ in range(n)]
        for i in range(k, n):
            e[i] = [entry(R, False) for _ in range(n)]
        T.do(b, f, [M("m", e)], lambda p: g(p, k), ints=(k,))
    elif name == "mat_aff_direct_sum":
        def aff(r, c):
            m = rand_mat(R, r, c, wide)
            m.e[0] = [abs(entry(R, wide)) or 1] + [0] * (c - 1)
            return m
        T.do(b, f, [aff(r, c), aff(r, R.randint(1, 3))], g)


OPS = """mat_product mat_vec_product vec_mat_product mat_transpose mat_diagonal mat_concat mat_vec_concat vec_concat
mat_from_row_vec mat_swap_cols mat_swap_rows mat_drop_cols mat_drop_rows mat_insert_zero_cols mat_insert_zero_rows
mat_add_zero_cols mat_add_zero_rows mat_move_cols vec_move_els mat_identity mat_lin_to_aff mat_set_element_si
mat_set_element_val vec_set_element_si vec_set_element_val vec_set_si vec_set_val vec_clr mat_col_add mat_normalize
mat_normalize_row vec_normalize vec_neg vec_sort vec_add vec_ceil vec_zero_extend vec_insert_zero_els vec_drop_els
vec_cmp_element mat_is_equal vec_is_equal mat_initial_non_zero_cols
mat_rank mat_rank mat_rank mat_has_linearly_independent_rows mat_has_linearly_independent_rows mat_row_basis mat_row_basis
mat_row_basis_extension mat_row_basis_extension mat_row_basis_extension mat_right_kernel mat_right_kernel mat_right_kernel
mat_right_inverse mat_right_inverse mat_right_inverse mat_inverse_product mat_inverse_product mat_inverse_product
mat_vec_inverse_product mat_left_hermite mat_left_hermite mat_left_hermite mat_left_hermite mat_unimodular_complete
mat_unimodular_complete mat_aff_direct_sum mat_aff_direct_sum""".split()


def run(lib, R, out, prog, prop, idx):
    S = Sess(lib, R, out, prog, prop, idx, World([], [()]), W=2)
    T = Mats(lib, R, S)
    for _ in range(16):
        step(T)
    S.close()
    return S.stats
