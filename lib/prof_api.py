"""Sessions over the whole public interface: any function on any held objects.
Recorded is what the protocol speaks of (which handles were given away, which
were kept, what came back, which error), so that the ownership, immutability,
failure and recovery rules of IslLedger can be judged (C15, C16, C17)."""
import ctypes as C, hashlib, json, os, re
import gen, isl as I
from session import ERR

DT = I.DIM
SKIP = re.compile(r"_dump$|^isl_printer|^isl_options|^isl_ctx_|^isl_stream|^isl_token|_free$|_copy$|_print|_read_from_file|^isl_args|^isl_hash|^isl_arg|"
                  r"get_hash|_to_str$|^isl_qpolynomial_fold_|_list_alloc$|_user$|_get_ctx$|^isl_val_int_from_chunks|^isl_obj|^isl_band|^isl_version|"
                  r"_get_abs_num_chunks|^isl_access_info|^isl_flow|^isl_restriction|_try_get|^isl_handle|^isl_gmp|^isl_ast_node_.*user|"
                  r"isl_val_gcdext|^isl_ast_op_type|^isl_ast_expr_op_type|^isl_union_access_info|^isl_union_flow|isl_ast_build_(node_from|ast_from)|"
                  r"^isl_schedule_constraints|compute_schedule|_2exp$|isl_mat_normal|isl_vec_normal|isl_vec_ceil|vec_add_els|vec_insert_els|mat_extend|mat_insert_cols|mat_insert_rows|mat_add_rows$|vec_extend|_add_disjoint|n_abs_num_chunks|multi_union_pw_aff_from_range")
ONE_D = ("aff", "pw_aff", "union_pw_aff", "qpolynomial", "pw_qpolynomial", "pw_qpolynomial_fold", "qpolynomial_fold")
INTS = {"unsigned", "int", "long", "unsigned long", "size_t", "unsigned int"}


def ok_type(t):
    return t.endswith("*") and not t.replace(" ", "").endswith("**") and t.startswith("isl_")


def documented():
    """the functions the manual speaks of"""
    import build as B
    return set(re.findall(r"\bisl_\w+", open(os.path.join(B.REPO, "doc/user.pod")).read()))


class Api:
    """what can be called"""

    def __init__(self, lib):
        self.lib = lib
        f = lib.fns
        self.classes = {}
        for n in f:
            m = re.match(r"isl_(\w+)_free$", n)
            if m and ("isl_%s_copy" % m.group(1)) in f and m.group(1) not in ("printer", "options", "ctx", "token", "hash_table", "ast_print_options"):
                self.classes[m.group(1)] = 1
        for c in ("schedule_node", "cell", "vertex", "vertices", "term", "constraint"):
            if "isl_%s_free" % c in f and "isl_%s_copy" % c in f:
                self.classes[c] = 1
        self.fns, self.by = [], {}
        names = documented()
        for n, p in sorted(f.items()):
            if SKIP.search(n) or not hasattr(lib.dll, n):
                continue
            if n not in names and "_list_" not in n and "_to_" not in n:
                continue
            if self.usable(p):
                self.fns.append(p)
                for t, own, nm in p.args:
                    c = self.cls(t)
                    if c:
                        self.by.setdefault(c, []).append(p)

    def cls(self, t):
        if ok_type(t) and "const" not in t:
            c = t.replace("*", "").strip()[4:]
            return c if c in self.classes else None

    def fp(self, t):
        """(result, [classes]) of a callback"""
        m = re.match(r"fnptr:(.*?)\( \* \w+ \) \( (.*) \)$", t)
        if not m:
            return None
        args = [a.strip() for a in m.group(2).split(",")]
        cs = []
        for a in args:
            if a.startswith("void *"):
                continue
            mm = re.match(r"(isl_\w+) \* \w+$", a)
            if not mm or mm.group(1)[4:] not in self.classes:
                return None
            cs.append(mm.group(1)[4:])
        return m.group(1).strip(), cs

    def usable(self, p):
        nobj = 0
        fps = 0
        for t, own, nm in p.args:
            c = self.cls(t)
            if c:
                if own not in ("take", "keep"):
                    return False
                nobj += 1
            elif t in INTS or t in ("isl_dim_type", "isl_fold", "const char *", "isl_ctx *", "void *", "isl_bool *"):
                pass
            elif t.startswith("fnptr:"):
                fps += 1
                q = self.fp(t)
                if not q or q[0] not in ("isl_stat", "isl_bool", "int") and not q[0].endswith("*"):
                    return False
                if own is None and q[1]:
                    return False
                if q[0].endswith("*") and (not q[1] or q[0].replace("*", "").strip() != "isl_" + q[1][0]):
                    return False
            else:
                return False
        r = p.ret
        if r.endswith("*") and self.cls(r) is None and r.replace(" ", "") not in ("char*", "constchar*"):
            return False
        if self.cls(r) and p.ret_own not in ("give", "null"):
            return False
        if r in ("FILE *", "double", "isl_obj") or r.startswith("isl_maybe"):
            return False
        return nobj > 0 and fps <= 2


_api = {}


def theapi(lib):
    if id(lib) not in _api:
        _api[id(lib)] = Api(lib)
    return _api[id(lib)]


class O:
    __slots__ = ("id", "ptr", "cls", "t", "txt", "nul")


class A:
    def __init__(self, lib, R, out, prog, prop, idx):
        self.lib, self.R, self.out, self.prog, self.prop, self.idx = lib, R, out, prog, prop, idx
        self.api = theapi(lib)
        lib.dll.vp_alloc_poison(1)
        self.base = lib.vp_alloc_live()
        self.ctx = lib.ctx_alloc()
        lib.options_set_on_error(self.ctx, int(os.environ.get("VP_ONERR", "1")))
        self.pool, self.nid = {}, 0
        self.stats = dict(undecided=0, giveup=0, big=0)
        self.emit(dict(op="session", s=idx, names=[], pv=[[]], W=0, cap=0))

    def emit(self, ev):
        self.out.write(json.dumps(ev, separators=(",", ":")) + "\n")

    def mark(self, ev):
        os.pwrite(self.prog, (json.dumps(self.idx) + " " + json.dumps(ev, separators=(",", ":")) + "\n").encode()[:4000].ljust(4000), 0)

    # ---- texts ----
    def text(self, cls, p):
        """what p looks like; None: no printed form"""
        lib = self.lib
        f = "isl_%s_to_str" % cls
        lib.ctx_set_max_operations(self.ctx, 0)
        if f in lib.fns:
            s = lib.string(lib.get(f)(p))
        elif "isl_printer_print_" + cls in lib.fns:
            pr = lib.printer_to_str(self.ctx)
            pr = lib.get("isl_printer_print_" + cls)(pr, p)
            s = lib.string(lib.printer_get_str(pr))
            lib.printer_free(pr)
        elif cls.endswith("_list"):
            l = []
            for i in range(lib.get("isl_%s_size" % cls)(p)):
                e = lib.get("isl_%s_get_at" % cls)(p, i)
                l.append(self.text(cls[:-5], e))
                lib.get("isl_%s_free" % cls[:-5])(e)
            s = "|".join(map(str, l))
        elif cls == "mat":
            s = ";".join(",".join(self.vtext(lib.mat_get_element_val(p, i, j)) for j in range(lib.mat_cols(p))) for i in range(lib.mat_rows(p))) + \
                " %dx%d" % (lib.mat_rows(p), lib.mat_cols(p))
        else:
            s = None
        lib.ctx_reset_error(self.ctx)
        return s

    def vtext(self, v):
        s = self.lib.string(self.lib.val_to_str(v))
        self.lib.val_free(v)
        return s or "null"

    def fresh(self, cls, txt):
        """an object of its own with the same value; None: cannot be had"""
        lib = self.lib
        f = "isl_%s_read_from_str" % cls
        if txt is None or f not in lib.fns or cls in ("ast_build",):
            return None
        lib.ctx_set_max_operations(self.ctx, 0)
        p = lib.get(f)(self.ctx, txt.encode())
        lib.ctx_reset_error(self.ctx)
        return p

    def same(self, cls, p, q):
        """1: equal values, 0: different, -1: cannot tell (keeps both)"""
        lib = self.lib
        lib.ctx_reset_operations(self.ctx)
        lib.ctx_set_max_operations(self.ctx, 500000)
        r = -1
        for f in ("isl_%s_is_equal", "isl_%s_plain_is_equal", "isl_%s_eq"):
            if f % cls in lib.fns:
                r = lib.get(f % cls)(p, q)
                if f.endswith("plain_is_equal") and r == 0:
                    r = -1
                break
        if r == 0 and cls in ("pw_aff", "aff", "multi_aff", "pw_multi_aff", "multi_pw_aff", "union_pw_aff", "union_pw_multi_aff", "multi_union_pw_aff", "point", "multi_val"):
            r = -1                                   # also "no" for NaN
        if r < 0:
            r = -1
        lib.ctx_set_max_operations(self.ctx, 0)
        lib.ctx_reset_error(self.ctx)
        return r

    def h8(self, s):
        return "" if s is None else hashlib.md5(s.encode()).hexdigest()[:10]

    def eq2(self, cls, p, t):
        """is p what had text t"""
        s = self.text(cls, p)
        if s == t:
            return s, 1
        q = self.fresh(cls, t)
        if not q:
            return s, -1
        r = self.same(cls, p, q)
        self.lib.get("isl_%s_free" % cls)(q)
        return s, r

    # ---- handles ----
    def hold(self, cls, p, t=None):
        h = O()
        self.nid += 1
        h.id, h.ptr, h.cls = self.nid, p, cls
        h.txt = t if t is not None else self.text(cls, p)
        self.pool.setdefault(cls, []).append(h)
        return h

    def free(self, cls, p):
        if p:
            self.lib.get("isl_%s_free" % cls)(p)

    def seed(self, cls, p):
        if not p:
            self.lib.ctx_reset_error(self.ctx)
            return None
        h = self.hold(cls, p)
        self.emit(dict(op="input", r=h.id, v=dict(k=cls, t=self.h8(h.txt))))
        return h

    def drop(self, h):
        self.pool[h.cls].remove(h)
        self.free(h.cls, h.ptr)
        self.emit(dict(op="drop", a=[h.id]))

    def look(self, h):
        self.mark(dict(op="held", f="look " + h.cls, a=[h.id]))
        s, r = self.eq2(h.cls, h.ptr, h.txt)
        self.emit(dict(op="held", f="look " + h.cls, pr=self.prop, a=[h.id], x=dict(z=0), c=[], g=0, r=0, v=dict(k=h.cls, t=self.h8(s), eq=r)))

    def trim(self):
        for c, l in self.pool.items():
            while len(l) > (4 if len(c) > 12 else 6):
                self.drop(self.R.choice(l))
            for h in list(l):
                if h.txt and len(h.txt) > 900:
                    self.drop(h)

    # ---- calls ----
    def args_for(self, p, small=True):
        """random arguments; None: an operand is missing"""
        R, out = self.R, []
        dims = []
        for t, own, nm in p.args:
            c = self.api.cls(t)
            if c:
                l = self.pool.get(c)
                if not l:
                    return None
                out.append(R.choice(l))
            elif t == "isl_dim_type" and nm in ("c1", "c2", "c3", "c4", "c5"):
                if not dims:
                    have = [x for x in p.args if x[0] == "isl_dim_type"]
                    dims = R.sample(range(5) if len(have) == 5 else [0, 1, 3, 4], len(have))
                out.append(dims.pop())
            elif t == "isl_dim_type":
                d = R.choice([1, 2, 3, 3, 3, 3, 2, 1])
                tup = "_tuple_" in p.name and ("set_" in p.name)
                c0 = self.api.cls(p.args[0][0])
                if tup and c0 == "multi_union_pw_aff" and d == 2:
                    d = 3                    # it has no input tuple
                if tup and c0 in ONE_D and d == 3:
                    d = 2                    # a single value: it has no output tuple
                out.append(d)
            elif t in INTS:
                if nm in ("n", "n_row", "n_col", "first", "pos", "dst_pos", "src_pos", "index", "pos1", "pos2", "from", "to", "i", "j", "row", "col"):
                    out.append(R.choice([0, 0, 0, 1, 1, 2]))
                else:
                    out.append(R.choice([0, 1, 1, 2, 3, 5]))
            elif t == "isl_fold":
                out.append(R.choice([1, 2]))
            elif t == "const char *":
                out.append(R.choice([b"A", b"B", b"x", b"y", b"n", b"{ A[i] : i >= 0 }", b"{ A[i] -> [(i)] }", b"1"]))
            elif t == "isl_ctx *":
                out.append("ctx")
            elif t == "void *":
                out.append(None)
            elif t == "isl_bool *":
                out.append("out")
            else:
                out.append(("cb", R.choice([0, 0, 1, 2])))
        if not small:
            return out
        if "_mod" in p.name and isinstance(out[-1], O) and "val" in out[-1].cls and "0" in out[-1].txt:
            return None                              # no remainder modulo zero
        if "fixed_power" in p.name and len(out[-1].txt) > 2:
            return None                              # too large a power
        return out

    def do(self, p, args, consume=(), nul=None, abort=False):
        """-> (kind, value, err); consume: handles given away; nul: the argument passed as null"""
        lib, api = self.lib, self.api
        a, keep = [], []
        lim = lib.ctx_get_max_operations(self.ctx)      # a copy is not part of the call
        lib.ctx_set_max_operations(self.ctx, 0)
        for i, ((t, own, nm), v) in enumerate(zip(p.args, args)):
            if i == nul:
                a.append(None)
            elif isinstance(v, O):
                if own == "take" and v not in consume:
                    q = lib.get("isl_%s_copy" % v.cls)(v.ptr)
                    a.append(q)
                else:
                    a.append(v.ptr)
            elif v == "ctx":
                a.append(self.ctx)
            elif v == "out":
                b = C.c_int(-5)
                keep.append(b)
                a.append(C.cast(C.pointer(b), C.c_void_p))
            elif isinstance(v, tuple) and v[0] == "cb":
                cb = self.callback(t, own, v[1])
                keep.append(cb)
                a.append(C.cast(cb, C.c_void_p))
            else:
                a.append(v)
        lib.ctx_set_max_operations(self.ctx, lim)
        if abort:
            lib.ctx_abort(self.ctx)
        lib.ctx_reset_error(self.ctx)
        lib.ctx_reset_operations(self.ctx)
        fn = lib.get(p.name)
        if any(v == "out" for v in args if isinstance(v, str)):
            fn.argtypes = [C.c_void_p if t == "isl_bool *" else x for (t, o, n), x in zip(p.args, fn.argtypes)]
        res = fn(*a)
        e = ERR.get(lib.ctx_last_error(self.ctx), "?")
        lib.ctx_reset_error(self.ctx)
        c = api.cls(p.ret)
        r = p.ret.replace(" ", "")
        if c:
            return ("obj" if res else "fail"), (c, res), e
        if r == "void":
            return "void", None, e
        if r == "char*":
            s = lib.string(res)
            return ("str" if s is not None else "fail"), s, e
        if r == "constchar*":
            return ("str" if res is not None else "nostr"), None if res is None else res.decode("utf-8", "replace"), e
        if r in ("isl_bool", "isl_stat", "isl_size"):
            return ("int" if res >= 0 else "fail"), res, e
        return "num", res, e

    def callback(self, t, own, k):
        lib = self.lib
        ret, cs = self.api.fp(t)
        n = [0]

        def fn(*a):
            n[0] += 1
            if ret.endswith("*"):
                for c, q in list(zip(cs, a))[1:]:
                    if own == "take":
                        self.free(c, q)
                if own != "take":
                    return lib.get("isl_%s_copy" % cs[0])(a[0])
                if k == 2 and n[0] == 2:
                    self.free(cs[0], a[0])
                    return None
                return a[0]
            if own == "take":
                for c, q in zip(cs, a):
                    self.free(c, q)
            if ret == "isl_stat":
                return -1 if k == 1 and n[0] == 2 else 0
            if ret == "isl_bool":
                return 1 if k < 2 else n[0] % 2
            return 0
        rt = C.c_void_p if ret.endswith("*") else C.c_int
        nargs = len(cs) + t.count("void * ")
        return C.CFUNCTYPE(rt, *[C.c_void_p] * nargs)(fn)

    def value(self, kind, v, e):
        """the recorded result"""
        if kind == "obj":
            return dict(k="obj", c=v[0], t=self.h8(self.text(*v)), e=e)
        if kind in ("int", "num"):
            return dict(k=kind, i=int(v) % 1000003, e=e)
        if kind == "str":
            return dict(k="str", t=self.h8(v), e=e)
        return dict(k=kind, e=e)

    def release(self, kind, v):
        if kind == "obj":
            self.free(*v)

    def compare(self, k1, v1, k2, v2, t1=None):
        """1/0/-1: do two results agree"""
        if k1 != k2:
            return 0
        if k1 == "obj":
            t1 = t1 if t1 is not None else self.text(*v1)
            t2 = self.text(*v2)
            return 1 if t1 == t2 else self.same(v1[0], v1[1], v2[1])
        if k1 in ("int", "str", "num", "nostr"):
            return 1 if v1 == v2 else 0
        return 1

    def sig(self, p, args, m, extra=None):
        ev = dict(op="call", f=p.name, pr=self.prop, m=m, a=[v.id for v in args if isinstance(v, O)],
                  x=dict(args=[v.id if isinstance(v, O) else v.decode() if isinstance(v, bytes) else str(v) for v in args], **(extra or {})))
        self.mark(ev)
        return ev

    def finish(self, ev, kind, v, e, keep=True, **more):
        rec = self.value(kind, v, e)
        rec.update(more)
        h = None
        if kind == "obj" and keep:
            h = self.hold(v[0], v[1])
        else:
            self.release(kind, v)
        ev.update(c=ev.get("c", []), g=0, r=h.id if h else 0, v=rec)
        self.emit(ev)
        return h

    def limits(self, n):
        self.lib.ctx_set_max_operations(self.ctx, n)

    # one call, and its operands afterwards
    def plain(self, p, args):
        ev = self.sig(p, args, "plain")
        self.limits(300000)
        k, v, e = self.do(p, args)
        self.limits(0)
        if e == "quota":
            self.release(k, v)
            ev.update(c=[], g=1, r=0)
            self.emit(ev)
            return
        self.finish(ev, k, v, e)
        for h in {a.id: a for a in args if isinstance(a, O)}.values():
            self.look(h)

    def again(self, p, args):
        """with operands the caller keeps, and with operands it gives away"""
        ob = [(i, a) for i, a in enumerate(args) if isinstance(a, O)]
        gone = []
        for i, a in ob:
            if p.args[i][1] == "take" and sum(b is a for j, b in ob) == 1:
                gone.append(a)
        ev = self.sig(p, args, "again")
        self.limits(300000)
        k1, v1, e1 = self.do(p, args)
        if e1 == "quota":
            self.limits(0)
            self.release(k1, v1)
            ev.update(c=[], g=1, r=0)
            self.emit(ev)
            return
        t1 = self.text(*v1) if k1 == "obj" else None
        self.limits(300000)
        k2, v2, e2 = self.do(p, args, consume=gone)
        self.limits(0)
        for h in gone:
            self.pool[h.cls].remove(h)
        ev["c"] = [h.id for h in gone]
        if e2 == "quota":
            self.release(k1, v1)
            self.release(k2, v2)
            ev.update(g=1, r=0)
            self.emit(ev)
            return
        q = self.compare(k1, v1, k2, v2, t1)
        if q < 0:
            self.stats["undecided"] += 1
        self.release(k2, v2)
        self.finish(ev, k1, v1, e1, eq=q, e2=e2)
        for h in {a.id: a for a in args if isinstance(a, O) and a not in gone}.values():
            self.look(h)

    def null(self, p, args):
        obs = [i for i, a in enumerate(args) if isinstance(a, O)]
        i = self.R.choice(obs)
        ev = self.sig(p, args, "null", dict(n=i))
        k, v, e = self.do(p, args, nul=i)
        self.finish(ev, k, v, e)
        for h in {a.id: a for j, a in enumerate(args) if isinstance(a, O) and j != i}.values():
            self.look(h)

    def bad(self, p, args):
        """a position or space that does not fit"""
        ev = self.sig(p, args, "bad")
        k, v, e = self.do(p, args)
        self.finish(ev, k, v, e)
        for h in {a.id: a for a in args if isinstance(a, O)}.values():
            self.look(h)

    def stopped(self, p, args):
        """undisturbed; stopped at some point, several times; repeated"""
        R, lib = self.R, self.lib
        self.mark(self.sig(p, args, "first"))
        self.limits(100000)
        k1, v1, e1 = self.do(p, args)
        self.limits(0)
        if e1 == "quota" or any(isinstance(a, tuple) and a[0] == "cb" for a in args):
            self.release(k1, v1)
            return
        t1 = self.text(*v1) if k1 == "obj" else None
        top = 3000
        for j in range(R.randint(2, 5)):
            how = "abort" if R.random() < .1 else "limit"
            n = R.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 40, 60, 100, 200, 400])
            n = min(n, top)
            ev = self.sig(p, args, how, dict(n=n))
            if how == "limit":
                self.limits(n)
            k, v, e = self.do(p, args, abort=how == "abort")
            if how == "abort":
                lib.ctx_resume(self.ctx)
            self.limits(0)
            if e not in ("quota", "abort"):
                top = max(1, n // 2)
            q = self.compare(k1, v1, k, v, t1)
            self.finish(ev, k, v, e, keep=False, eq=q, k1=k1)
        ev = self.sig(p, args, "repeat")
        k, v, e = self.do(p, args)
        q = self.compare(k1, v1, k, v, t1)
        self.release(k1, v1)
        self.finish(ev, k, v, e, eq=q, k1=k1)
        for h in {a.id: a for a in args if isinstance(a, O)}.values():
            self.look(h)

    def close(self):
        for c, l in self.pool.items():
            for h in l:
                self.free(c, h.ptr)
        self.pool = {}
        self.lib.ctx_free(self.ctx)
        self.emit(dict(op="closed", f="isl_ctx_free", pr=self.prop, a=[], x=dict(z=0), c=[], g=0, r=0, v=dict(k="num", i=self.lib.vp_alloc_live() - self.base)))
        self.emit(dict(op="end", s=self.idx))


# ---- seeds ----
def aff(R, vs, ps):
    t = []
    for v in vs + ps:
        c = R.choice([0, 0, 1, 1, -1, 2, -2])
        if c:
            t.append("%d%s" % (c, v))
    t.append(str(R.randint(-3, 5)))
    s = " + ".join(t)
    k = R.random()
    if k < .25:
        s = "floor((%s)/%d)" % (s, R.choice([2, 3]))
    elif k < .32:
        s = "(%s) mod %d" % (s, R.choice([2, 3]))
        if not any(x in s for x in vs + ps):
            s = "0"
    return "(%s)" % s


def cond(R, vs, ps, n=3):
    l = ["%s %s %s" % (aff(R, vs, ps), R.choice(["<=", ">=", "<", "=", "!=", ">="]), aff(R, vs, ps)) for _ in range(R.randint(1, n))]
    if vs and R.random() < .5:
        l += ["0 <= %s <= %d" % (v, R.randint(3, 9)) for v in vs]
    return (" and " if R.random() < .8 else " or ").join(l)


TUP = [("A", ["i"]), ("B", ["i", "j"]), ("", ["i"]), ("A", ["i"])]


def seeds(T, rich=1):
    R, lib, ctx = T.R, T.lib, T.ctx
    ps = R.choice([[], ["n"], ["n"], ["n", "m"]])
    pre = "[%s] -> " % ", ".join(ps) if ps else ""
    tt = [R.choice(TUP), R.choice(TUP)]

    def tup(k=None, vs=None):
        n, v = k or R.choice(tt)
        return "%s[%s]" % (n, ", ".join(vs if vs else v))

    def rd(cls, t):
        T.mark(dict(op="input", f=cls, x=dict(t=t)))
        T.lib.ctx_set_max_operations(ctx, 200000)
        lib.ctx_reset_operations(ctx)
        p = lib.get("isl_%s_read_from_str" % cls)(ctx, t.encode())
        T.lib.ctx_set_max_operations(ctx, 0)
        T.seed(cls, p)
    for _ in range(2 * rich):
        for cls in ("basic_set", "set", "union_set"):
            l = []
            for _ in range(R.randint(1, 2) if cls != "basic_set" else 1):
                k = R.choice(tt) if cls == "union_set" or not l else k
                c = cond(R, k[1], ps)
                if cls == "basic_set":
                    c = c.replace(" or ", " and ").replace("!=", ">=")
                l.append("%s : %s" % (tup(k), c))
            rd(cls, pre + "{ " + "; ".join(l) + " }")
        for cls in ("basic_map", "map", "union_map"):
            l = []
            for _ in range(R.randint(1, 2) if cls != "basic_map" else 1):
                if cls == "union_map" or not l:
                    k, m = R.choice(tt), R.choice(tt)
                ov = ["o%d" % i for i in range(len(m[1]))]
                c = cond(R, k[1] + ov, ps)
                if cls == "basic_map":
                    c = c.replace(" or ", " and ").replace("!=", ">=")
                l.append("%s -> %s : %s" % (tup(k), tup(m, ov), c))
            rd(cls, pre + "{ " + "; ".join(l) + " }")
        for cls in ("aff", "pw_aff", "multi_aff", "pw_multi_aff", "multi_pw_aff", "union_pw_aff", "union_pw_multi_aff", "multi_union_pw_aff"):
            l = []
            k = R.choice(tt)
            m = R.choice(tt)
            for _ in range(R.randint(1, 2) if "pw" in cls else 1):
                if "union" in cls:
                    k, m = R.choice(tt), R.choice(tt)
                if cls in ("aff", "pw_aff", "union_pw_aff"):
                    o = "[%s]" % aff(R, k[1], ps)
                else:
                    o = tup(m, [aff(R, k[1], ps) for _ in m[1]])
                l.append("%s -> %s%s" % (tup(k), o, " : " + cond(R, k[1], ps, 2) if "pw" in cls and R.random() < .8 else ""))
            if cls == "multi_pw_aff":
                l = l[:1]
            if cls == "multi_union_pw_aff":
                rd(cls, pre + "%s[%s]" % (m[0], ", ".join("{ %s -> [%s] }" % (tup(k), aff(R, k[1], ps)) for _ in m[1])))
            else:
                rd(cls, pre + "{ " + "; ".join(l) + " }")
        rd("pw_qpolynomial", pre + "{ %s -> %s * %s + %s : %s }" % (tup(tt[0]), aff(R, tt[0][1], ps), aff(R, tt[0][1], ps), aff(R, tt[0][1], ps), cond(R, tt[0][1], ps, 1)))
        if "isl_union_pw_qpolynomial_read_from_str" in lib.fns:
            rd("union_pw_qpolynomial", pre + "{ %s -> %s * %s : %s }" % (tup(tt[1]), aff(R, tt[1][1], ps), aff(R, tt[1][1], ps), cond(R, tt[1][1], ps, 1)))
        rd("pw_qpolynomial_fold", pre + "{ %s -> max(%s, %s * %s) : %s }" % (tup(tt[0]), aff(R, tt[0][1], ps), aff(R, tt[0][1], ps), aff(R, tt[0][1], ps), cond(R, tt[0][1], ps, 1)))
        rd("val", R.choice(["0", "1", "-2", "3", "5/2", "-7/3", "infty", "NaN", "123456789012345678901"]))
        rd("multi_val", "{ %s }" % tup(tt[0], [str(R.randint(-2, 4)) for _ in tt[0][1]]))
        rd("multi_id", "{ %s }" % tup(tt[0], R.sample(["a", "b", "c", "d"], len(tt[0][1]))))
        rd("id", R.choice(["A", "x", "n"]))
    for k in tt:
        rd("schedule", "domain: \"%s{ %s : 0 <= i <= 3 }\"\nchild:\n  schedule: \"%s[{ %s -> [(i)] }]\"" % (pre, tup(k, ["i"] + k[1][1:]), pre, tup(k)))
    for c, fs in (("space", ["set_get_space", "map_get_space", "aff_get_space", "union_set_get_space"]), ("local_space", ["basic_set_get_local_space", "aff_get_local_space"]),
                  ("point", ["set_sample_point"]), ("qpolynomial", []), ("schedule_node", ["schedule_get_root"])):
        for f in fs:
            src = re.match(r"(\w+?)_(get|sample)", f).group(1)
            for h in T.pool.get(src, [])[:2]:
                q = lib.get("isl_" + f)(lib.set_copy(h.ptr) if f == "set_sample_point" else h.ptr)
                T.seed(c, q)
    for h in T.pool.get("set", [])[:2]:
        T.seed("ast_build", lib.ast_build_from_context(lib.set_params(lib.set_copy(h.ptr))))
    rdv = [R.randint(-3, 4) for _ in range(9)]
    m = lib.mat_alloc(ctx, 2, 3)
    for i in range(2):
        for j in range(3):
            m = lib.mat_set_element_si(m, i, j, rdv[i * 3 + j])
    T.seed("mat", m)
    m = lib.mat_alloc(ctx, 3, 3)
    for i in range(3):
        for j in range(3):
            m = lib.mat_set_element_si(m, i, j, R.randint(-3, 3))
    T.seed("mat", m)
    v = lib.vec_alloc(ctx, 3)
    for j in range(3):
        v = lib.vec_set_element_si(v, j, rdv[j])
    T.seed("vec", v)
    for c in [c for c in T.api.classes if c.endswith("_list")]:
        e = c[:-5]
        l = lib.get("isl_%s_alloc" % c)(ctx, 0)
        for h in T.pool.get(e, [])[:2]:
            l = lib.get("isl_%s_add" % c)(l, lib.get("isl_%s_copy" % e)(h.ptr))
        T.seed(c, l)
    for c in ("id_to_pw_aff", "id_to_ast_expr", "id_to_id", "map_to_basic_set"):
        T.seed(c, lib.get("isl_%s_alloc" % c)(ctx, 0))


POSN = {"pos", "first", "index", "pos1", "pos2", "dst_pos", "src_pos", "row", "col"}


def range_args(T, p):
    """arguments of which a position is beyond the end; None if p has none"""
    R, lib = T.R, T.lib
    a = T.args_for(p)
    if a is None:
        return None
    first = next((v for v in a if isinstance(v, O)), None)
    if first is None:
        return None
    c = first.cls
    cand = []
    for i, (t, own, nm) in enumerate(p.args):
        if t in INTS and i > 0 and p.args[i - 1][0] == "isl_dim_type" and "isl_%s_dim" % c in lib.fns and nm in POSN:
            cand.append((i, "dim"))
        elif c.endswith("_list") and nm in ("index", "pos", "first", "pos1", "pos2") and t in INTS:
            cand.append((i, "list"))
        elif c == "vec" and nm == "pos":
            cand.append((i, "vec"))
        elif c == "mat" and nm in ("row", "col"):
            cand.append((i, nm))
    if not cand:
        return None
    i, how = R.choice(cand)
    if how == "dim":
        ty = R.choice([1, 2, 3, 3])
        a[i - 1] = ty
        n = lib.get("isl_%s_dim" % c)(first.ptr, ty)
        lib.ctx_reset_error(T.ctx)
    elif how == "list":
        n = lib.get("isl_%s_size" % c)(first.ptr)
    elif how == "vec":
        n = lib.vec_size(first.ptr)
    else:
        n = lib.mat_rows(first.ptr) if how == "row" else lib.mat_cols(first.ptr)
    if n < 0:
        return None
    a[i] = n + (1 if "insert" in p.name or "add" in p.name or "move" in p.name else 0) + R.choice([0, 0, 1, 5])
    if p.args[i][0] == "int" and R.random() < .3:
        a[i] = -1
    for j, (t, own, nm) in enumerate(p.args):
        if nm == "n" and t in INTS:
            a[j] = R.choice([1, 1, 2])
    if "_swap" in p.name and a[-1] == a[-2] or re.search(r"dim_has_(any_)?(lower|upper)_bound|involves_dims|add_coefficient|aff_get_dim_name|involving_dims|_order_(le|lt|ge|gt)|space_drop_dims", p.name):
        return None                 # nothing to do; one answer per disjunct
    return a


MIX = {"C15": dict(plain=.45, again=.55), "C16": dict(plain=.3, stopped=.6, again=.1), "C17": dict(plain=.35, null=.35, range=.3)}
# an operand that is not looked at when the other one is empty; no room in the result for a failure
NULLSKIP = re.compile(r"isl_union_.*(subtract_domain|intersect_domain|intersect_range|multi_val_on_domain|_eval$|intersect_params)|plain_cmp|_bind_(range|domain|id)|linearly_independent|_gist|val_on_domain|isl_space_is_(range|domain)$|simple_hull_from_.*list")
NOSAME = re.compile(r"basic_(map|set)_gist|pw_qpolynomial_gist")


def run(lib, R, out, prog, prop, idx, n=60):
    T = A(lib, R, out, prog, prop, idx)
    seeds(T)
    kinds, ws = list(MIX[prop]), list(MIX[prop].values())
    fns = T.api.fns
    # a session is about some classes
    focus = R.sample(sorted(c for c in T.pool if c in T.api.by), 5)
    for _ in range(n):
        for _2 in range(20):
            p = R.choice(T.api.by[R.choice(focus)]) if R.random() < .6 else R.choice(fns)
            k = R.choices(kinds, ws)[0]
            a = range_args(T, p) if k == "range" else T.args_for(p)
            if a is not None:
                break
        else:
            continue
        if k == "again" and NOSAME.search(p.name):
            k = "plain"
        if k == "null" and NULLSKIP.search(p.name):
            k = "plain"
        if k == "range":
            T.bad(p, a)
        else:
            getattr(T, k)(p, a)
        if R.random() < .2:
            c = R.choice([c for c in T.pool if T.pool[c]])
            T.look(R.choice(T.pool[c]))
        T.trim()
    for c, l in list(T.pool.items()):
        for h in l:
            if R.random() < .5:
                T.look(h)
    T.close()
    return T.stats
