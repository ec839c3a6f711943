"""One session: a context, a pool of live objects, and the events that record
every call with the abstract value of what it returned."""
import ctypes as C, json, os, re
import isl as I

ON_ERROR_CONTINUE = 1
QUOTA = 2000000
CAPROWS = 400
ERR = {0: "none", 1: "abort", 2: "alloc", 3: "unknown", 4: "internal", 5: "invalid", 6: "quota", 7: "unsupported"}
REL = {"set": "set", "basic_set": "set", "map": "map", "basic_map": "map",
       "union_set": "uset", "union_map": "umap"}


class H:
    __slots__ = ("id", "ptr", "cls", "k", "sp", "w", "n", "m", "js", "extra", "cst", "tag")

    def isu(self):
        return "union" in self.cls


PRE = AS = OPTS = None           # how C26 reuses the sessions of other properties


class Stop(Exception):
    pass


class Sess:
    def __init__(self, lib, R, out, prog, prop, idx, world, W=6, opts=None):
        self.lib, self.R, self.out, self.prog = lib, R, out, prog
        self.prop, self.idx, self.world, self.W = AS or prop, idx, world, W
        self.own = prop
        self.ctx = lib.ctx_alloc()
        lib.options_set_on_error(self.ctx, int(os.environ.get("VP_ONERR", str(ON_ERROR_CONTINUE))))
        lib.ctx_set_max_operations(self.ctx, QUOTA)
        if PRE:
            PRE(self)
        self.pool, self.nid, self.nev = [], 0, 0
        self.stats = dict(undecided=0, giveup=0, big=0)
        self.capr = CAPROWS
        self.emit(dict(op="session", s=idx, names=list(world.names), pv=[list(v) for v in world.pvs], pvl=[list(v) for v in world.pvs], W=W, cap=self.capr, **(dict(opts=OPTS) if OPTS else {})))

    def emit(self, ev):
        self.nev += 1
        if AS and "pr" in ev:
            ev = dict(ev, pr=AS)
        self.out.write(json.dumps(ev, separators=(",", ":")) + "\n")

    def emit_raw(self, s):
        self.nev += 1
        if AS:
            s = re.sub('"pr":"C[0-9]+"', '"pr":"%s"' % AS, s, count=1)
        self.out.write(s + "\n")

    # ---- projection ----
    def box(self, operands, extra=0):
        m = sum(h.m for h in operands if isinstance(h, H))
        return max(12, 2 * m + extra + 4)

    def project(self, cls, ptr, box, w, cap=None):
        """-> (json text of value, shape or None, count, maxabs).  Raises Undecided."""
        lib = self.lib
        cap = cap or self.capr
        lib.ctx_reset_operations(self.ctx) if ptr else None
        if not ptr:
            e = lib.ctx_last_error(self.ctx)
            return '{"k":"err","e":"%s"}' % ERR.get(e, "?"), None, 0, 0
        if w:
            box = self.W
            cap = 6000
        np = len(self.world.names)
        f = getattr(self, "proj_" + cls)
        return f(ptr, box, w, cap, np)

    def _rel(self, ptr, box, w, cap, np, setlike, space):
        lib = self.lib
        sp = I.shape(lib, space)
        rows, width = I.rows_of(lib, lib.vp_set_points if setlike else lib.vp_map_points, ptr, self.world, box, cap)
        k = "params" if sp is None else "set" if setlike else "map"
        if rows is None:
            return '{"k":"big","n":%d}' % cap, sp, cap, box
        t = I.elem_tmpl(np, sp)
        spj = "[]" if sp is None else json.dumps([sp["d"], sp["r"]] if k == "map" else sp, separators=(",", ":"))
        m = max((max(map(abs, r[np:])) if len(r) > np else 0 for r in rows), default=0)
        return '{"k":"%s","w":%d,"sp":%s,"p":[%s]}' % (k, w, spj, ",".join([t % r for r in rows])), sp, len(rows), m

    def proj_set(self, ptr, box, w, cap, np):
        return self._rel(ptr, box, w, cap, np, True, self.lib.set_get_space(ptr))

    def proj_map(self, ptr, box, w, cap, np):
        return self._rel(ptr, box, w, cap, np, False, self.lib.map_get_space(ptr))

    def proj_basic_set(self, ptr, box, w, cap, np):
        s = self.lib.set_from_basic_set(self.lib.basic_set_copy(ptr))
        try:
            return self.proj_set(s, box, w, cap, np)
        finally:
            self.lib.set_free(s)

    def proj_basic_map(self, ptr, box, w, cap, np):
        s = self.lib.map_from_basic_map(self.lib.basic_map_copy(ptr))
        try:
            return self.proj_map(s, box, w, cap, np)
        finally:
            self.lib.map_free(s)

    def _union(self, ptr, box, w, cap, np, setlike):
        lib = self.lib
        b = "set" if setlike else "map"
        lst = lib.get("isl_union_%s_get_%s_list" % (b, b))(ptr)
        n = lib.get("isl_%s_list_size" % b)(lst)
        if n < 0:
            raise I.Undecided("no list")
        el, m, shapes, tot = [], 0, [], 0
        try:
            for i in range(n):
                o = lib.get("isl_%s_list_get_at" % b)(lst, i)
                try:
                    sp = I.shape(lib, lib.get("isl_%s_get_space" % b)(o))
                    if sp is None:
                        raise I.Undecided("params in union")
                    shapes.append(sp)
                    rows, width = I.rows_of(lib, lib.vp_set_points if setlike else lib.vp_map_points, o, self.world, box, cap)
                finally:
                    lib.get("isl_%s_free" % b)(o)
                if rows is None:
                    return '{"k":"big","n":%d}' % cap, None, cap, box
                tot += len(rows)
                t = I.elem_tmpl(np, sp)
                m = max(m, max((max(map(abs, r[np:])) if len(r) > np else 0 for r in rows), default=0))
                el += [t % r for r in rows]
        finally:
            lib.get("isl_%s_list_free" % b)(lst)
        if tot > cap:
            return '{"k":"big","n":%d}' % cap, None, cap, box
        return '{"k":"u%s","w":%d,"p":[%s]}' % (b, w, ",".join(el)), shapes, tot, m

    def proj_union_set(self, ptr, box, w, cap, np):
        return self._union(ptr, box, w, cap, np, True)

    def proj_union_map(self, ptr, box, w, cap, np):
        return self._union(ptr, box, w, cap, np, False)

    # ---- functions ----
    def fun_shape(self, space):
        """{"d": shape or None, "r": shape} of a function's space"""
        sp = I.shape(self.lib, space)
        return sp if isinstance(sp, dict) else {"d": None, "r": sp}

    def fun_rows(self, fn, ptr, box, cap, np):
        """[(v, x, values)], values pairs n, d; None: too many"""
        rows, width = I.rows_of(self.lib, fn, ptr, self.world, box, cap)
        return rows

    def fun_json(self, pieces, w, np, multi):
        """pieces: [(shape, rows)] -> value"""
        el, m, tot = [], 0, 0
        for sp, rows in pieces:
            tot += len(rows)
            nd = I.size(sp["d"]) if sp["d"] else 0
            xt = I.tmpl(sp["d"]) if sp["d"] else '["",[]]'
            t = "[[%s],%s,%s]" % (",".join(["%d"] * np), xt, val_tmpl(sp["r"]))
            for r in rows:
                el.append(t % r)
                m = max([m] + [abs(a) for a in r[np:np + nd]] + [abs(r[i]) for i in range(np + nd, len(r), 2)])
        if multi:
            return '{"k":"ufun","w":%d,"p":[%s]}' % (w, ",".join(el)), [sp for sp, r in pieces], tot, m
        sp = pieces[0][0]
        spj = json.dumps([sp["d"] or [], sp["r"]], separators=(",", ":"))
        return '{"k":"fun","w":%d,"sp":%s,"p":[%s]}' % (w, spj, ",".join(el)), sp, tot, m

    def big(self, cap):
        return '{"k":"big","n":%d}' % cap, None, cap, 0

    def proj_pw_multi_aff(self, ptr, box, w, cap, np):
        sp = self.fun_shape(self.lib.pw_multi_aff_get_space(ptr))
        rows = self.fun_rows(self.lib.vp_pw_multi_aff_rows, ptr, box, cap, np)
        return self.big(cap) if rows is None else self.fun_json([(sp, rows)], w, np, False)

    def proj_pw_aff(self, ptr, box, w, cap, np):
        sp = self.fun_shape(self.lib.pw_aff_get_space(ptr))
        rows = self.fun_rows(self.lib.vp_pw_aff_rows, ptr, box, cap, np)
        return self.big(cap) if rows is None else self.fun_json([(sp, rows)], w, np, False)

    def via(self, cls, conv, ptr, *a):
        o = self.lib.get(conv)(self.copyp(cls, ptr))
        to = self.lib.fns[conv].ret.replace("*", "").strip()[4:]
        if not o:
            raise I.Undecided("conversion failed")
        try:
            return getattr(self, "proj_" + to)(o, *a)
        finally:
            self.free_ptr(to, o)

    def copyp(self, cls, ptr):
        return self.lib.get("isl_%s_copy" % cls)(ptr)

    def proj_aff(self, ptr, *a):
        return self.via("aff", "isl_pw_aff_from_aff", ptr, *a)

    def proj_multi_aff(self, ptr, *a):
        return self.via("multi_aff", "isl_pw_multi_aff_from_multi_aff", ptr, *a)

    def join(self, comps, np, nd):
        """rows of the components -> rows of the tuple"""
        tabs = []
        for rows in comps:
            d = {}
            for r in rows:
                d.setdefault(r[:np + nd], []).append(r[np + nd:])
            tabs.append(d)
        out = []
        for k, l in tabs[0].items():
            cur = [k + v for v in l]
            for d in tabs[1:]:
                cur = [c + v for c in cur for v in d.get(k, [])]
            out += cur
        return out

    def proj_multi_pw_aff(self, ptr, box, w, cap, np):
        lib = self.lib
        sp = self.fun_shape(lib.multi_pw_aff_get_space(ptr))
        nd = I.size(sp["d"]) if sp["d"] else 0
        n = lib.multi_pw_aff_dim(ptr, I.DIM["out"])
        if n == 0:
            d = lib.multi_pw_aff_domain(lib.multi_pw_aff_copy(ptr))
            try:
                rows = self.fun_rows(lib.vp_set_points, d, box, cap, np)
            finally:
                lib.set_free(d)
            return self.big(cap) if rows is None else self.fun_json([(sp, rows)], w, np, False)
        comps = []
        for i in range(n):
            pa = lib.multi_pw_aff_get_at(ptr, i)
            try:
                rows = self.fun_rows(lib.vp_pw_aff_rows, pa, box, cap, np)
            finally:
                lib.pw_aff_free(pa)
            if rows is None:
                return self.big(cap)
            comps.append(rows)
        return self.fun_json([(sp, self.join(comps, np, nd))], w, np, False)

    def pieces_of(self, ptr, cls, el, box, cap, np):
        lib = self.lib
        lst = lib.get("isl_%s_get_%s_list" % (cls, el))(ptr)
        out = []
        if not lst:
            raise I.Undecided("no list")
        try:
            for i in range(lib.get("isl_%s_list_size" % el)(lst)):
                o = lib.get("isl_%s_list_get_at" % el)(lst, i)
                try:
                    sp = self.fun_shape(lib.get("isl_%s_get_space" % el)(o))
                    rows = self.fun_rows(getattr(lib, "vp_%s_rows" % el), o, box, cap, np)
                finally:
                    self.free_ptr(el, o)
                if rows is None:
                    return None
                out.append((sp, rows))
        finally:
            lib.get("isl_%s_list_free" % el)(lst)
        return out

    def proj_union_pw_aff(self, ptr, box, w, cap, np):
        pcs = self.pieces_of(ptr, "union_pw_aff", "pw_aff", box, cap, np)
        return self.big(cap) if pcs is None else self.fun_json(pcs, w, np, True)

    def proj_union_pw_multi_aff(self, ptr, box, w, cap, np):
        pcs = self.pieces_of(ptr, "union_pw_multi_aff", "pw_multi_aff", box, cap, np)
        return self.big(cap) if pcs is None else self.fun_json(pcs, w, np, True)

    def proj_multi_union_pw_aff(self, ptr, box, w, cap, np):
        lib = self.lib
        rsp = I.shape(lib, lib.multi_union_pw_aff_get_space(ptr))
        n = lib.multi_union_pw_aff_dim(ptr, I.DIM["out"])
        if n == 0:
            d = lib.multi_union_pw_aff_domain(lib.multi_union_pw_aff_copy(ptr))
            try:
                if lib.union_set_is_params(d):
                    raise I.Undecided("parametric domain")
                lst = lib.union_set_get_set_list(d)
                pcs = []
                for i in range(lib.set_list_size(lst)):
                    o = lib.set_list_get_at(lst, i)
                    rows = self.fun_rows(lib.vp_set_points, o, box, cap, np)
                    sp = I.shape(lib, lib.set_get_space(o))
                    lib.set_free(o)
                    if rows is None:
                        return self.big(cap)
                    pcs.append(({"d": sp, "r": rsp}, rows))
                lib.set_list_free(lst)
            finally:
                lib.union_set_free(d)
            return self.fun_json(pcs, w, np, True)
        comps = []
        for i in range(n):
            upa = lib.multi_union_pw_aff_get_at(ptr, i)
            try:
                pcs = self.pieces_of(upa, "union_pw_aff", "pw_aff", box, cap, np)
            finally:
                lib.union_pw_aff_free(upa)
            if pcs is None:
                return self.big(cap)
            comps.append({json.dumps(sp["d"]): (sp["d"], rows) for sp, rows in pcs})
        out = []
        for k in comps[0]:
            if all(k in c for c in comps):
                d = comps[0][k][0]
                out.append(({"d": d, "r": rsp}, self.join([c[k][1] for c in comps], np, I.size(d) if d else 0)))
        return self.fun_json(out, w, np, True)

    # ---- handles ----
    def copy(self, h):
        return self.lib.get("isl_%s_copy" % h.cls)(h.ptr)

    def free_ptr(self, cls, ptr):
        self.lib.get("isl_%s_free" % cls)(ptr)

    def add(self, ptr, cls, js, sp, n, m, w):
        h = H()
        self.nid += 1
        h.id, h.ptr, h.cls, h.sp, h.n, h.m, h.w, h.js = self.nid, ptr, cls, sp, n, m, w, js
        h.k = "params" if (sp is None and cls in ("set", "basic_set")) else REL.get(cls) or ("fun" if cls in FUN else "ufun" if cls in UFUN else cls)
        h.extra = {h.id}      # the objects it was made from
        self.pool.append(h)
        return h

    def drop(self, h):
        """release a handle and say so"""
        self.pool.remove(h)
        self.free_ptr(h.cls, h.ptr)
        self.emit(dict(op="drop", a=[h.id]))

    def mark(self, s):
        os.pwrite(self.prog, (s + "\n").encode()[:4000].ljust(4000), 0)

    def last_error(self):
        e = self.lib.ctx_last_error(self.ctx)
        self.lib.ctx_reset_error(self.ctx)
        return e

    def input(self, cls, txt):
        """an object read from text; its point-set reading is adopted"""
        self.mark(json.dumps(dict(op="input", s=self.idx, f=cls, x=dict(t=txt))))
        ptr = self.lib.get("isl_%s_read_from_str" % cls)(self.ctx, txt.encode())
        if not ptr:
            self.last_error()
            return None
        try:
            js, sp, n, m = self.project(cls, ptr, 1500, 0)
        except I.Undecided:
            self.stats["undecided"] += 1
            self.free_ptr(cls, ptr)
            return None
        if '"k":"big"' in js:
            self.free_ptr(cls, ptr)
            return None
        h = self.add(ptr, cls, js, sp, n, m, 0)
        self.emit_raw('{"op":"input","f":"%s","x":{"t":%s},"r":%d,"v":%s}' % (cls, json.dumps(txt), h.id, js))
        return h

    def close(self):
        for h in self.pool:
            self.free_ptr(h.cls, h.ptr)
        self.pool = []
        self.lib.ctx_free(self.ctx)
        self.emit(dict(op="end", s=self.idx))

    # ---- a call ----
    def call(self, sem, fname, operands, extras=(), x=None, w=0, consume=(), prop=None, box=None, keep=True):
        """operands: handles in the order of the object arguments; extras: other
        C arguments in order.  Returns the new handle, a plain value, or None."""
        lib = self.lib
        p = lib.fns[fname]
        args, oi, ei, cons = [], iter(operands), iter(extras), []
        ev = '{"op":"%s","f":"%s","pr":"%s","a":[%s],"x":%s,"c":[%s],' % (
            sem, fname, prop or self.prop, ",".join(str(h.id) for h in operands),
            json.dumps(x or {"z": 0}, separators=(",", ":")), ",".join(str(h.id) for h in consume))
        self.mark(json.dumps(self.idx) + " " + ev)
        for t, own, nm in p.args:
            base = t.replace("*", "").replace("const ", "").strip()
            if t.endswith("*") and base.startswith("isl_") and base[4:] in CLASSES:
                h = next(oi)
                if own == "take" and not (h in consume):
                    args.append(self.copy(h))
                else:
                    args.append(h.ptr)
            elif base == "isl_ctx":
                args.append(self.ctx)
            else:
                args.append(next(ei))
        for h in consume:
            self.pool.remove(h)
        b = box if box is not None else self.box(operands, max([abs(e) for e in extras if isinstance(e, int) and abs(e) < 1000], default=0))
        lib.ctx_reset_operations(self.ctx)
        res = lib.get(fname)(*args)
        r = p.ret.replace("*", "").replace("const ", "").strip()
        if p.ret.endswith("*") and r.startswith("isl_") and r[4:] in CLASSES:
            cls = r[4:]
            if not res and lib.ctx_last_error(self.ctx) == 6:
                self.last_error()
                self.stats["giveup"] += 1
                self.emit_raw(ev + '"g":1,"r":0}')
                return None
            lib.ctx_reset_operations(self.ctx)
            try:
                js, sp, n, m = self.project(cls, res, b, w)
            except I.Undecided as e:
                self.last_error()
                self.stats["undecided"] += 1
                self.free_ptr(cls, res)
                self.emit_raw(ev + '"g":2,"r":0}')
                return None
            self.last_error()
            if '"k":"err"' in js or '"k":"big"' in js:
                if '"k":"big"' in js:
                    self.stats["big"] += 1
                if res:
                    self.free_ptr(cls, res)
                self.emit_raw(ev + '"g":0,"r":0,"v":%s}' % js)
                return None
            h = self.add(res, cls, js, sp, n, m, w)
            for o in operands:
                if o.extra:
                    h.extra = h.extra | o.extra
            self.emit_raw(ev + '"g":0,"r":%d,"v":%s}' % (h.id, js))
            return h
        if p.ret.endswith("*") and r == "isl_val":
            if not res and lib.ctx_last_error(self.ctx) == 6:
                self.last_error()
                self.emit_raw(ev + '"g":1,"r":0}')
                return None
            e = self.last_error()
            q = val_pair(lib, res) if res else None
            self.emit_raw(ev + '"g":0,"r":0,"v":%s}' % ('{"k":"q","q":[%d,%d]}' % q if q else '{"k":"err","e":"%s"}' % ERR.get(e, "?")))
            return q
        if r in ("isl_bool",):
            if res < 0 and lib.ctx_last_error(self.ctx) == 6:
                self.last_error()
                self.emit_raw(ev + '"g":1,"r":0}')
                return None
            self.last_error()
            self.emit_raw(ev + '"g":0,"r":0,"v":{"k":"%s","b":%d}}' % ("b" if res >= 0 else "err", res))
            return res
        if r in ("isl_size", "int", "isl_stat"):
            self.last_error()
            self.emit_raw(ev + '"g":0,"r":0,"v":{"k":"i","i":%d}}' % res)
            return res
        raise Exception("return type " + p.ret)

    def raw(self, sem, fname, operands, call, conv, x=None, consume=()):
        """a call made by the function call; conv turns its result into the recorded value"""
        ev = '{"op":"%s","f":"%s","pr":"%s","a":[%s],"x":%s,"c":[%s],' % (
            sem, fname, self.prop, ",".join(str(h.id) for h in operands),
            json.dumps(x or {"z": 0}, separators=(",", ":")), ",".join(str(h.id) for h in consume))
        self.mark(json.dumps(self.idx) + " " + ev)
        self.lib.ctx_reset_operations(self.ctx)
        res = call()
        e = self.lib.ctx_last_error(self.ctx)
        if e == 6:
            self.last_error()
            self.stats["giveup"] += 1
            self.emit_raw(ev + '"g":1,"r":0}')
            return None
        self.last_error()
        self.lib.ctx_reset_operations(self.ctx)
        try:
            v = conv(res, e)
        except I.Undecided:
            self.last_error()
            self.stats["undecided"] += 1
            self.emit_raw(ev + '"g":2,"r":0}')
            return None
        self.last_error()
        self.emit_raw(ev + '"g":0,"r":0,"v":%s}' % (v if isinstance(v, str) else json.dumps(v, separators=(",", ":"))))
        return v

    def adopt(self, sem, fname, operands, ptr, cls, x=None, w=0, box=None):
        """an object that came out of a call in another way than as its result"""
        ev = '{"op":"%s","f":"%s","pr":"%s","a":[%s],"x":%s,"c":[],' % (
            sem, fname, self.prop, ",".join(str(h.id) for h in operands), json.dumps(x or {"z": 0}, separators=(",", ":")))
        self.mark(json.dumps(self.idx) + " " + ev)
        if not ptr and self.lib.ctx_last_error(self.ctx) == 6:
            self.last_error()
            self.emit_raw(ev + '"g":1,"r":0}')
            return None
        self.lib.ctx_reset_operations(self.ctx)
        try:
            js, sp, n, m = self.project(cls, ptr, box or self.box(operands), w)
        except I.Undecided:
            self.last_error()
            self.stats["undecided"] += 1
            self.free_ptr(cls, ptr)
            self.emit_raw(ev + '"g":2,"r":0}')
            return None
        self.last_error()
        if '"k":"err"' in js or '"k":"big"' in js:
            if ptr:
                self.free_ptr(cls, ptr)
            self.emit_raw(ev + '"g":0,"r":0,"v":%s}' % js)
            return None
        h = self.add(ptr, cls, js, sp, n, m, w)
        self.emit_raw(ev + '"g":0,"r":%d,"v":%s}' % (h.id, js))
        return h

    def look(self, h):
        """what does the caller see now in an object it still holds"""
        try:
            js, sp, n, m = self.project(h.cls, h.ptr, max(12, 2 * h.m + 4), h.w)
        except I.Undecided:
            return
        self.emit_raw('{"op":"look","a":[%d],"v":%s}' % (h.id, js))


def val_tmpl(sp):
    nm = json.dumps(sp[0]).replace("%", "%%")
    if len(sp) == 2:
        return "[%s,[%s]]" % (nm, ",".join(["[%d,%d]"] * sp[1]))
    return "[%s,%s,%s]" % (nm, val_tmpl(sp[1]), val_tmpl(sp[2]))


def val_pair(lib, v):
    """take a value: numerator and denominator, 0/0 and +-1/0 for the others"""
    if lib.val_is_nan(v):
        q = (0, 0)
    elif lib.val_is_infty(v):
        q = (1, 0)
    elif lib.val_is_neginfty(v):
        q = (-1, 0)
    else:
        q = (lib.val_get_num_si(v), lib.val_get_den_si(v))
    lib.val_free(v)
    return q


FUN = {"aff", "pw_aff", "multi_aff", "pw_multi_aff", "multi_pw_aff"}
UFUN = {"union_pw_aff", "union_pw_multi_aff", "multi_union_pw_aff"}

CLASSES = {"set", "map", "basic_set", "basic_map", "union_set", "union_map", "pw_aff", "aff", "multi_aff",
           "pw_multi_aff", "multi_pw_aff", "union_pw_aff", "union_pw_multi_aff", "multi_union_pw_aff",
           "pw_qpolynomial", "pw_qpolynomial_fold", "qpolynomial"}
