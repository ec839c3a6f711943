"""ctypes access to the library under test, with signatures and ownership
taken from the public headers, and the projection of objects onto points."""
import ctypes as C, json, os, re
import build as B, api

ENUMS = {"isl_dim_type": dict(cst=0, param=1, **{"in": 2}, out=3, set=3, div=4, all=5)}
DIM = ENUMS["isl_dim_type"]


class Lib:
    def __init__(self, so, fns=None):
        self.dll = C.CDLL(so)
        self.fns = fns or api.load()
        self.cache = {}

    def _ct(self, t):
        if t.startswith("fnptr:"):
            return C.c_void_p
        if t.endswith("*"):
            b = t[:-1].strip()
            if b in ("const char",):
                return C.c_char_p
            return C.c_void_p
        b = t.replace("const ", "")
        if b in ("void", ):
            return None
        if b == "double":
            return C.c_double
        if b in ("unsigned", "unsigned int", "uint32_t"):
            return C.c_uint
        if b == "long":
            return C.c_long
        if b == "unsigned long":
            return C.c_ulong
        if b == "size_t":
            return C.c_size_t
        return C.c_int

    def __getattr__(self, name):
        f = self.get("isl_" + name) if not name.startswith("vp_") else getattr(self.dll, name)
        setattr(self, name, f)
        return f

    def get(self, name):
        f = self.cache.get(name)
        if f is None:
            f = getattr(self.dll, name)
            p = self.fns[name]
            f.argtypes = [self._ct(t) for t, o, n in p.args]
            if p.ret.replace(" ", "") in ("char*",):
                f.restype = C.c_void_p
            else:
                f.restype = self._ct(p.ret)
            self.cache[name] = f
        return f

    def string(self, p):
        """take a char* handed over by the library"""
        if not p:
            return None
        s = C.string_at(p).decode("utf-8", "surrogateescape")
        self.dll.vp_free(C.c_void_p(p))
        return s


class Req(C.Structure):
    _fields_ = [("npar", C.c_int), ("par", C.POINTER(C.c_char_p)), ("npv", C.c_int),
                ("pv", C.POINTER(C.c_int)), ("lo", C.c_int), ("hi", C.c_int),
                ("cap", C.c_int), ("w", C.c_int), ("n", C.c_int), ("v", C.POINTER(C.c_int))]


OK, BIG, UNDEC, CAP, PARAM, NULL = 0, -2, -3, -4, -5, -6


def load(**kw):
    so = B.build(**kw)
    lib = Lib(so, api_cached())
    d = lib.dll
    for n in ("vp_set_points", "vp_map_points", "vp_pw_aff_rows", "vp_pw_multi_aff_rows",
              "vp_pw_qp_rows", "vp_pw_fold_rows"):
        getattr(d, n).argtypes = [C.c_void_p, C.POINTER(Req)]
    d.vp_aff_on.argtypes = [C.c_void_p, C.c_void_p, C.POINTER(Req)]
    d.vp_rows_free.argtypes = [C.POINTER(Req)]
    d.vp_space_shape.argtypes = [C.c_void_p]
    d.vp_space_shape.restype = C.c_void_p
    d.vp_str_free.argtypes = [C.c_void_p]
    d.vp_free.argtypes = [C.c_void_p]
    for n in ("vp_alloc_live", "vp_alloc_total"):
        getattr(d, n).restype = C.c_long
        getattr(d, n).argtypes = []
    d.vp_alloc_fail_at.argtypes = [C.c_long]
    return lib


def api_cached():
    """the parsed headers, keyed by the headers' contents"""
    import glob, hashlib, pickle
    h = hashlib.sha256(open(api.__file__, "rb").read())
    for f in sorted(glob.glob(os.path.join(B.REPO, "include/isl/*.h"))):
        h.update(open(f, "rb").read())
    path = os.path.join(B.OUT, "api-%s.pickle" % h.hexdigest()[:16])
    if os.path.exists(path):
        try:
            return unpack(pickle.load(open(path, "rb")))
        except Exception:
            pass
    fns = api.load()
    os.makedirs(B.OUT, exist_ok=True)
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump([(x.name, x.ret, x.ret_own, x.args, x.exported) for x in fns.values()], f)
    os.replace(tmp, path)
    return fns


def unpack(rows):
    out = {}
    for r in rows:
        f = api.Fn()
        f.name, f.ret, f.ret_own, f.args, f.exported = r
        out[f.name] = f
    return out


class World:
    """A session's parameters: names and the listed valuations."""

    def __init__(self, names, pvs):
        self.names = list(names)
        self.pvs = [tuple(v) for v in pvs]
        self._par = (C.c_char_p * max(1, len(names)))(*[n.encode() for n in names])
        flat = [x for v in self.pvs for x in v]
        self._pv = (C.c_int * max(1, len(flat)))(*flat)

    def req(self, box, cap):
        q = Req()
        q.npar, q.par = len(self.names), self._par
        q.npv, q.pv = len(self.pvs), self._pv
        q.lo, q.hi, q.cap = -box, box, cap
        return q


def size(sp):
    return sp[1] if len(sp) == 2 else size(sp[1]) + size(sp[2])


_t = {}


def tmpl(sp):
    k = json.dumps(sp)
    t = _t.get(k)
    if t is None:
        nm = json.dumps(sp[0]).replace("%", "%%")
        if len(sp) == 2:
            t = "[%s,[%s]]" % (nm, ",".join(["%d"] * sp[1]))
        else:
            t = "[%s,%s,%s]" % (nm, tmpl(sp[1]), tmpl(sp[2]))
        _t[k] = t
    return t


def elem_tmpl(npar, sp):
    """sp None: params; list: set; dict: map"""
    v = "[%s]" % ",".join(["%d"] * npar)
    if sp is None:
        return "[%s]" % v
    if isinstance(sp, dict):
        return "[%s,%s,%s]" % (v, tmpl(sp["d"]), tmpl(sp["r"]))
    return "[%s,%s]" % (v, tmpl(sp))


class Undecided(Exception):
    pass


def rows_of(lib, fn, ptr, world, box, cap):
    q = world.req(box, cap)
    r = fn(ptr, C.byref(q))
    if r == CAP:
        lib.dll.vp_rows_free(C.byref(q))
        return None, q.w
    if r < 0:
        lib.dll.vp_rows_free(C.byref(q))
        raise Undecided(r)
    w, n = q.w, q.n
    flat = q.v[:n * w] if n * w else []
    lib.dll.vp_rows_free(C.byref(q))
    return [tuple(flat[i * w:(i + 1) * w]) for i in range(n)], w


def shape(lib, space):
    p = lib.dll.vp_space_shape(space)
    if not p:
        return "null!"
    s = C.string_at(p).decode()
    lib.dll.vp_str_free(p)
    return json.loads(s)
