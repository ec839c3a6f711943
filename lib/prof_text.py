"""Sessions on text (C10): reading what the notation denotes, printing and
reading back objects of every readable type, malformed texts."""
import json, itertools
import ctypes as C
import gen, gexpr as G, gtext as T
import prof_rel, prof_fun
import isl as I
from session import Sess, ERR
from isl import DIM, size

NOTE = 1


def read(S, cls, txt, pcs):
    """a set or relation read from text whose syntax tree is given"""
    lib = S.lib
    x = dict(pc=pcs, w=6, t=txt)
    S.mark(json.dumps(dict(op="tx_read", s=S.idx, f="isl_%s_read_from_str" % cls, x=dict(t=txt))))
    lib.ctx_reset_operations(S.ctx)
    ptr = lib.get("isl_%s_read_from_str" % cls)(S.ctx, txt.encode())
    e = lib.ctx_last_error(S.ctx)
    ev = '{"op":"tx_read","f":"isl_%s_read_from_str","pr":"%s","a":[],"x":%s,"c":[],"g":%%d,"r":%%d%%s}' % (
        cls, S.prop, json.dumps(x, separators=(",", ":")).replace("%", "%%"))
    if e == 6:
        S.last_error()
        S.emit_raw(ev % (1, 0, ""))
        return None
    try:
        js, sp, n, m = S.project(cls, ptr, 200, 0)
    except I.Undecided:
        S.stats["undecided"] += 1
        S.last_error()
        S.free_ptr(cls, ptr)
        return None
    S.last_error()
    if '"k":"big"' in js:
        S.free_ptr(cls, ptr)
        return None
    if '"k":"err"' in js:
        S.emit_raw(ev % (0, 0, ',"v":' + js))
        return None
    h = S.add(ptr, cls, js, sp, n, m, 0)
    S.emit_raw(ev % (0, h.id, ',"v":' + js))
    return h


def printed(S, h, fmt=0):
    lib = S.lib
    if fmt == 0:
        return lib.string(lib.get("isl_%s_to_str" % h.cls)(h.ptr))
    p = lib.printer_to_str(S.ctx)
    p = lib.printer_set_output_format(p, fmt)
    p = lib.get("isl_printer_print_%s" % h.cls)(p, h.ptr)
    s = lib.string(lib.printer_get_str(p))
    lib.printer_free(p)
    return s


def roundtrip(S, h):
    R, lib = S.R, S.lib
    rd = "isl_%s_read_from_str" % h.cls
    if rd not in lib.fns:
        return None
    if h.cls in ("pw_multi_aff", "pw_aff") and empty_dom(S, h):
        # a function without pieces has no text from which it can be read
        return None
    cls = h.cls
    if cls in ("set", "basic_set", "map", "basic_map") and R.random() < .25 and not S.world.names and h.k == "set" and h.w == 0:
        fmt = R.choice([6, 1])      # extended PolyLib, PolyLib
        f = {6: "ext", 1: "pl"}[fmt]
        if cls in ("set", "map") and lib.get("isl_%s_n_basic_%s" % (cls, cls))(h.ptr) == 0:
            return None     # zero disjuncts: nothing that gives a space
        S.mark(json.dumps(dict(op="tx_rtflat", s=S.idx, f=rd)))
        t = printed(S, h, fmt)
        if fmt == 1 and has_div(S, h):
            return None
        if t is None:
            S.last_error()
            return None
        ptr = lib.get("isl_set_read_from_str" if cls == "set" else rd)(S.ctx, t.encode())
        return S.adopt("tx_rtflat", rd, [h], ptr, cls, dict(t=t, f=f), w=h.w)
    S.mark(json.dumps(dict(op="tx_rt", s=S.idx, f=rd)))
    t = printed(S, h)
    to = cls
    # what is a basic object is also an object, and a singleton union
    if R.random() < .2 and cls in ("basic_set", "basic_map", "aff", "multi_aff"):
        to = {"basic_set": "set", "basic_map": "map", "aff": "pw_aff", "multi_aff": "pw_multi_aff"}[cls]
    ptr = lib.get("isl_%s_read_from_str" % to)(S.ctx, (t or "").encode())
    return S.adopt("tx_rt", rd, [h], ptr, to, dict(t=t or ""), w=h.w)


def empty_dom(S, h):
    lib = S.lib
    d = lib.get("isl_%s_domain" % h.cls)(lib.get("isl_%s_copy" % h.cls)(h.ptr))
    r = lib.set_is_empty(d)
    lib.set_free(d)
    return r


def has_div(S, h):
    lib = S.lib
    s = lib.set_from_basic_set(lib.basic_set_copy(h.ptr)) if h.cls == "basic_set" else lib.set_copy(h.ptr)
    r = lib.set_involves_locals(s)
    lib.set_free(s)
    return r


# ---------------------------------------------------------------- malformed texts
def mutate(S, txt):
    """-> (class hint, text, why, brackets)"""
    R = S.R
    k = R.random()
    br = [ch for ch in txt if ch in "()[]{}"]
    pos = [i for i, ch in enumerate(txt) if ch in "()[]{}"]
    if "#" in txt or "'" in txt:
        return None
    if k < .3:
        i = R.choice(pos)
        t = txt[:i] + txt[i + 1:]
    elif k < .45:
        i = R.randint(0, len(txt.rstrip()) - 1)
        t = txt[:i]
    elif k < .55:
        i = R.choice(pos)
        t = txt[:i] + R.choice([ch for ch in "()[]{}" if ch != txt[i]]) + txt[i + 1:]
    elif k < .6:
        i = R.choice(pos[:-1])
        t = txt[:i] + R.choice("()[]{}") + txt[i:]
    else:
        return None
    b = [ch for ch in t if ch in "()[]{}"]
    return t, "brackets", b


def balanced(b):
    st = []
    for ch in b:
        if ch in "([{":
            st.append(ch)
        elif not st or st.pop() + ch not in ("()", "[]", "{}"):
            return False
        elif ch == "}" and not st:
            return True
    return not st


BAD = [  # (classes, text, why)
    (["set", "basic_set", "map", "union_set", "union_map"], "{ [i] : zz9 >= 0 }", "unknown identifier"),
    (["set", "map", "union_map"], "{ [i,j] -> [k] : i*j >= k }", "product of variables"),
    (["map"], "{ A[i] -> [i*i] }", "product of variables"),
    (["set"], "{ A[i]; B[i] }", "several spaces"),
    (["map"], "{ A[i] -> B[i]; B[i] -> A[i] }", "several spaces"),
    (["basic_set"], "{ [i] : i = 1 or i = 5 }", "several disjuncts"),
    (["basic_map"], "{ [i] -> [i]; [i] -> [i + 2] }", "several disjuncts"),
    (["set", "basic_set", "union_set"], "{ [i] -> [i] }", "another type"),
    (["set"], "{ [i] : i >= }", "incomplete"),
    (["set"], "{ [i] : i }", "incomplete"),
    (["set"], "", "empty"),
    (["map", "set", "pw_aff", "val", "union_map", "schedule", "aff", "id", "space", "multi_aff", "pw_multi_aff", "pw_qpolynomial"], "", "empty"),
    (["map", "set", "pw_aff", "val", "union_map", "aff", "space", "multi_aff", "pw_multi_aff"], "   \n ", "empty"),
    (["set"], "{ [i] : 0 <= i <= }", "incomplete"),
    (["set"], "{ [i] : i mod j = 0 }", "unknown identifier"),
    (["set"], "{ [i,j] : i mod j = 0 }", "no constant"),
    (["set"], "{ [i,j] : floor(i/j) = 0 }", "no constant"),
    (["set"], "{ [i : i >= 0 }", "brackets*"),
    (["map"], "{ [i] -> }", "incomplete"),
    (["map"], "{ -> [i] }", "incomplete"),
    (["set"], "[n -> { [i] : i <= n }", "brackets*"),
    (["set"], "[n] { [i] : i <= n }", "no arrow"),
    (["set"], "n -> { [i] : i <= n }", "no tuple"),
    (["set"], "[n + 1] -> { [i] }", "no name"),
    (["set"], "A[n] -> { [i] }", "named parameters"),
    (["set"], "[[n] -> [m]] -> { [i] }", "nested parameters"),
    (["pw_aff", "aff"], "{ [i] -> [i, i] }", "several values"),
    (["pw_aff", "aff"], "{ [i] -> [j] }", "unknown identifier"),
    (["aff"], "{ [i] -> [i] : i >= 0 }", "condition"),
    (["aff"], "{ [i] -> [min(i, 0)] }", "piecewise"),
    (["multi_aff"], "{ [i] -> [i] : i > 0 }", "condition"),
    (["multi_aff"], "{ [i] -> [i]; [i] -> [i + 1] }", "several functions"),
    (["pw_multi_aff"], "{ A[i] -> [i]; B[i] -> [i] }", "several spaces"),
    (["pw_aff"], "{ A[i] -> [(i)]; B[i] -> [(i)] }", "several spaces"),
    (["val"], "x", "no number"),
    (["val"], "{ }", "no number"),
    (["val"], "--", "no number"),
    (["multi_val"], "{ A[x] }", "no number"),
    (["space"], "{ A[i] : i >= 0 }", "condition"),
    (["space"], "A", "no space"),
    (["union_pw_multi_aff"], "{ A[i] -> [i] : i > }", "incomplete"),
    (["pw_qpolynomial"], "{ [i] -> i^ }", "incomplete"),
    (["pw_qpolynomial"], "{ [i] -> j }", "unknown identifier"),
    (["pw_qpolynomial"], "{ [i] -> (i }", "brackets*"),
    (["pw_qpolynomial_fold"], "{ [i] -> max(i }", "brackets*"),
    (["schedule"], "{ domain: }", "incomplete"),
    (["schedule"], "{ schedule: \"[]\" }", "no domain"),
    (["schedule"], "{ domain: \"{ A[i] }\", child: { foo: 1 } }", "unknown key"),
    (["schedule"], "{ domain: \"{ A[i] \" }", "brackets*"),
    (["schedule"], "{ domain: \"{ A[i] }\", child: { schedule: \"[{ B[i] -> [(i)]\" } }", "brackets*"),
    (["schedule_constraints"], "{ foo: \"{ A[i] }\" }", "unknown key"),
    (["id"], "[", "no name"),
    (["multi_id"], "{ [1] }", "no name"),
    (["set_list"], "({ [i] }", "brackets*"),
    (["set_list"], "({ [i] }, )", "incomplete"),
    (["map_list"], "({ [i] -> [i] };)", "separator"),
    (["set"], "{ [i] : i >= 0 and }", "incomplete"),
    (["set"], "{ [i] : not }", "incomplete"),
    (["set"], "{ [i] : i ! 3 }", "operator"),
    (["set"], "{ [i] : i & 3 }", "operator"),
    (["set"], "{ \"A[i] }", "string"),
    (["set"], "{ [i] : floor i >= 0 }", "incomplete"),
    (["set"], "{ [i] : min() >= 0 }", "incomplete"),
    (["set"], "{ [i] : i >= 0 or or i <= 2 }", "operator"),
    (["set"], "{ [i, ] }", "incomplete*"),
    (["set"], "1 2\n3 4 5", "matrix"),
    (["basic_set"], "2 3\n1 1 0\n", "matrix"),
    (["set"], "{ [i] : (i >= 0 }", "brackets*"),
    (["set"], "{ [i] : i >= 0) }", "brackets*"),
]


def free_any(S, cls, ptr):
    if ptr:
        S.lib.get("isl_%s_free" % cls)(ptr)


def bad(S, cls, txt, why, br):
    lib = S.lib
    f = "isl_%s_read_from_str" % cls

    def conv(res, e):
        if res:
            free_any(S, cls, res)
            return dict(k="obj")
        return dict(k="err", e=ERR.get(e, "?"))
    S.raw("tx_bad", f, [], lambda: reader(S, f)(S.ctx, txt.encode("latin-1", "replace")), conv, dict(why=why, br=br, t=txt))


def reader(S, f):
    return S.lib.get(f)


TOK = ["{", "}", "[", "]", "(", ")", "->", ":", ";", ",", "i", "j", "n", "A", "0", "1", "2", "-", "+", "*", "/", "=", "<", "<=", ">=", ">>", "!=", "and", "or", "not",
       "exists", "mod", "%", "floor", "min", "max", "?", "implies", "rat", "true", "false", "^", "NaN", "infty", "\"", "#", "\n", "'", ".", "//", "<<", "\\", "!", "@", "$", "&&", "||", "{ [i] : ", "[n] -> ", "domain:", "child:", "- ", "99999999999999999999999999", "-1"]


def soup(S):
    """any string: an error, or an object that prints and reads"""
    R, lib = S.R, S.lib
    cls = R.choice(["set", "map", "basic_set", "basic_map", "union_set", "union_map", "pw_aff", "aff", "pw_multi_aff", "multi_aff", "multi_pw_aff",
                    "union_pw_aff", "union_pw_multi_aff", "multi_union_pw_aff", "pw_qpolynomial", "val", "id", "multi_id", "space", "multi_val", "schedule"])
    k = R.random()
    if k < .3 or not S.texts:
        t = " ".join(R.choice(TOK) for _ in range(R.randint(1, 14)))
    else:
        t = R.choice(S.texts)
        for _ in range(R.randint(1, 3)):
            i = R.randint(0, len(t))
            q = R.random()
            if q < .4:
                t = t[:i] + R.choice(TOK) + t[i:]
            elif q < .7:
                t = t[:i] + t[i + R.randint(1, 3):]
            elif q < .85:
                t = t[:i] + chr(R.choice([0x80, 0xff, 7, 9, 33, 64, 96, 127])) + t[i:]
            else:
                j = R.randint(0, len(t))
                t = t[:i] + t[j:j + 8] + t[i:]
    f = "isl_%s_read_from_str" % cls
    if "99999999999999999" in t and ("/" in t or "mod" in t or "%" in t):
        return

    def conv(res, e):
        if not res:
            return dict(k="err", e=ERR.get(e, "?"))
        ts = lib.get("isl_%s_to_str" % cls) if "isl_%s_to_str" % cls in lib.fns else None
        if not ts:
            free_any(S, cls, res)
            return dict(k="d", a=1, b=1)
        s = lib.string(ts(res))
        free_any(S, cls, res)
        if lib.ctx_last_error(S.ctx) == 6:
            raise I.Undecided("limit")
        if s is None:
            return dict(k="d", a=1, b=0)
        if cls in ("pw_aff", "pw_multi_aff", "multi_pw_aff", "multi_union_pw_aff", "union_pw_aff") and s.rstrip().endswith("{  }"):
            return dict(k="d", a=1, b=1)
        r = lib.get(f)(S.ctx, s.encode("latin-1", "replace"))
        ok = 1 if r else 0
        free_any(S, cls, r)
        if lib.ctx_last_error(S.ctx) == 6:
            raise I.Undecided("limit")
        return dict(k="d", a=1, b=ok, s=s)
    S.raw("tx_soup", f, [], lambda: reader(S, f)(S.ctx, t.encode("latin-1", "replace")), conv, dict(t=t))


# ---------------------------------------------------------------- other readable types
def digest_space(S, sp):
    lib = S.lib
    s = I.shape(lib, lib.space_copy(sp))
    ps = [lib.space_get_dim_name(sp, DIM["param"], i).decode() for i in range(lib.space_dim(sp, DIM["param"]))]
    return json.dumps([s, sorted(ps)])


def other(S):
    R, lib = S.R, S.lib
    k = R.choice(["space", "space", "multi_val", "id", "multi_id", "list", "list"])
    ps = S.world.names
    pre = "[%s] -> " % ", ".join(ps) if ps else ""
    if k == "space":
        sh = gen.rand_shape(R, R.randint(0, 3), nest=.5)
        it = gen.var_iter()
        t, vs = gen.names_of(sh, it)
        q = R.random()
        if q < .4:
            sh2 = gen.rand_shape(R, R.randint(0, 2), nest=.4)
            t2, vs2 = gen.names_of(sh2, it)
            t, want = t + " -> " + t2, {"d": sh, "r": sh2}
        elif q < .5:
            t, want = ":", None
        else:
            want = sh
        t = pre + "{ " + t + " }"

        def call():
            sp = lib.space_read_from_str(S.ctx, t.encode())
            if not sp:
                return None
            a = digest_space(S, sp)
            s = lib.string(lib.space_to_str(sp))
            lib.space_free(sp)
            sp = lib.space_read_from_str(S.ctx, (s or "").encode())
            b = digest_space(S, sp) if sp else "none"
            lib.space_free(sp)
            return [a, b]
        w = json.dumps([want, sorted(ps)])
        S.raw("tx_digest", "isl_space_read_from_str", [], call,
              lambda r, e: dict(k="d", a=[w, w], b=r) if r else dict(k="err", e=ERR.get(e, "?")), dict(t=t))
    elif k == "multi_val":
        sh = gen.rand_shape(R, R.randint(1, 3), nest=.3)
        vals = [R.choice(["%d" % R.randint(-99, 99), "%d/%d" % (R.randint(-9, 9) * 2 + 1, R.choice([2, 4, 8])), "infty", "-infty", "NaN", "123456789012345678901234567890"]) for _ in range(size(sh))]

        def tup(sp, it):
            if len(sp) == 2:
                return "%s[%s]" % (sp[0], ", ".join(next(it) for _ in range(sp[1])))
            return "%s[%s -> %s]" % (sp[0], tup(sp[1], it), tup(sp[2], it))
        t = "%s{ %s }" % (pre, tup(sh, iter(vals)))

        def dig(mv):
            a = [I.shape(lib, lib.multi_val_get_space(mv))]
            for i in range(size(sh)):
                v = lib.multi_val_get_at(mv, i)
                a.append(lib.string(lib.val_to_str(v)))
                lib.val_free(v)
            return json.dumps(a)

        def call():
            mv = lib.multi_val_read_from_str(S.ctx, t.encode())
            if not mv:
                return None
            a = dig(mv)
            s = lib.string(lib.multi_val_to_str(mv))
            lib.multi_val_free(mv)
            mv = lib.multi_val_read_from_str(S.ctx, (s or "").encode())
            b = dig(mv) if mv else "none"
            lib.multi_val_free(mv)
            return [a, b]
        w = json.dumps([sh] + vals)
        S.raw("tx_digest", "isl_multi_val_read_from_str", [], call,
              lambda r, e: dict(k="d", a=[w, w], b=r) if r else dict(k="err", e=ERR.get(e, "?")), dict(t=t))
    elif k == "id":
        t = R.choice(["A", "foo_1", "x", "S2", "_u"])

        def call():
            d = lib.id_read_from_str(S.ctx, t.encode())
            if not d:
                return None
            a = lib.id_get_name(d).decode()
            s = lib.string(lib.id_to_str(d))
            lib.id_free(d)
            return [a, s]
        S.raw("tx_digest", "isl_id_read_from_str", [], call, lambda r, e: dict(k="d", a=[t, t], b=r) if r else dict(k="err", e=ERR.get(e, "?")), dict(t=t))
    elif k == "multi_id":
        ids = [R.choice(["A", "foo", "x", "S2"]) for _ in range(R.randint(0, 3))]
        nm = R.choice(["", "T"])
        t = "%s{ %s[%s] }" % (pre, nm, ", ".join(ids))

        def dig(m):
            out = [I.shape(lib, lib.multi_id_get_space(m))]
            for i in range(lib.multi_id_size(m)):
                d = lib.multi_id_get_at(m, i)
                out.append(lib.id_get_name(d).decode())
                lib.id_free(d)
            return json.dumps(out)

        def call():
            m = lib.multi_id_read_from_str(S.ctx, t.encode())
            if not m:
                return None
            a = dig(m)
            s = lib.string(lib.multi_id_to_str(m))
            lib.multi_id_free(m)
            m = lib.multi_id_read_from_str(S.ctx, (s or "").encode())
            b = dig(m) if m else "none"
            lib.multi_id_free(m)
            return [a, b]
        w = json.dumps([[nm, len(ids)]] + ids)
        S.raw("tx_digest", "isl_multi_id_read_from_str", [], call, lambda r, e: dict(k="d", a=[w, w], b=r) if r else dict(k="err", e=ERR.get(e, "?")), dict(t=t))
    else:
        el = R.choice(["set", "map", "pw_aff", "union_set", "basic_set", "pw_multi_aff", "aff", "basic_map", "union_map", "union_pw_aff", "id", "val", "multi_pw_aff", "union_pw_multi_aff"])
        if el in ("id", "val"):
            tt = [R.choice(["A", "b", "C1"]) if el == "id" else str(R.choice([1, -3, "1/2", "infty"])) for _ in range(R.randint(0, 4))]
        else:
            hs = [h for h in S.pool if h.cls == el and (h.n or el not in ("pw_aff", "pw_multi_aff", "multi_pw_aff"))]
            hs = [R.choice(hs) for _ in range(R.randint(1, 3))] if hs else []
            if not hs and el not in ("set", "map"):
                return
            tt = [printed(S, h) for h in hs]
        f = "isl_%s_list_read_from_str" % el
        if f not in lib.fns:
            return
        t = "(" + ", ".join(tt) + ")"

        def dig(l):
            out = []
            for i in range(lib.get("isl_%s_list_size" % el)(l)):
                o = lib.get("isl_%s_list_get_at" % el)(l, i)
                out.append(lib.string(lib.get("isl_%s_to_str" % el)(o)))
                lib.get("isl_%s_free" % el)(o)
            return out

        def call():
            l = lib.get(f)(S.ctx, t.encode())
            if not l:
                return None
            a = dig(l)
            s = lib.string(lib.get("isl_%s_list_to_str" % el)(l))
            lib.get("isl_%s_list_free" % el)(l)
            l = lib.get(f)(S.ctx, (s or "").encode())
            b = dig(l) if l else ["none"]
            lib.get("isl_%s_list_free" % el)(l)
            return [len(a), len(b), a == b]
        n = len(tt)
        S.raw("tx_digest", f, [], call, lambda r, e: dict(k="d", a=[n, n, True], b=r) if r else dict(k="err", e=ERR.get(e, "?")), dict(t=t))


# ---------------------------------------------------------------- sessions
def reads(S, rngs):
    R = S.R
    names = S.world.names
    sh = [gen.rand_shape(R, R.choice([1, 1, 2, 2, 3]), nest=.25) for _ in range(3)]
    small = [gen.rand_shape(R, R.choice([0, 1, 1, 2]), nest=.2) for _ in range(3)]
    k = R.random()
    if k < .08 and names:
        ss, cls = [[]], "set"
    elif k < .45:
        s = R.choice(sh)
        ss, cls = [[s]] * R.choice([1, 1, 2, 3]), R.choice(["set", "set", "union_set"])
    elif k < .85:
        a, b = R.choice(small), R.choice(small)
        ss, cls = [[a, b]] * R.choice([1, 1, 2]), R.choice(["map", "map", "union_map"])
    elif k < .93:
        ss, cls = [[R.choice(sh)] for _ in range(R.randint(1, 3))], "union_set"
    else:
        ss, cls = [[R.choice(small), R.choice(small)] for _ in range(R.randint(1, 3))], "union_map"
    if any(sum(size(x) for x in s) > 4 for s in ss):
        return None
    ot = T.object_text(R, names, ss, 6)
    if not ot:
        return None
    txt, pcs = ot
    if len(pcs) == 1 and cls in ("set", "map") and R.random() < .15 and "or" not in json.dumps(pcs):
        pass
    S.texts.append(txt)
    return read(S, cls, txt, pcs)


def roundtrip3(S, h):
    """functions are seen through a smaller window"""
    W = S.W
    S.W = 3 if h.k == "fun" and W > 3 else W
    r = roundtrip(S, h)
    S.W = W
    return r


def hook(S):
    """print and read back something of a session on sets or functions"""
    if not S.pool:
        return
    for _ in range(2):
        h = S.R.choice(S.pool)
        r = roundtrip(S, h)
        if r:
            S.drop(r)


def run(lib, R, out, prog, prop, idx):
    mode = R.choice(["read", "read", "rel", "fun"])
    if mode == "rel":
        return prof_rel.run(lib, R, out, prog, prop, idx, 26, hook=hook)
    if mode == "fun":
        return prof_fun.run(lib, R, out, prog, prop, idx, 24, hook=hook)
    world, rngs = gen.rand_world(R)
    R.dens = None
    S = Sess(lib, R, out, prog, prop, idx, world, W=6)
    S.texts = []
    for _ in range(26):
        k = R.random()
        if k < .45 or not S.pool:
            reads(S, rngs)
        elif k < .55:
            cls = R.choice(["aff", "multi_aff", "pw_aff", "pw_multi_aff", "multi_pw_aff", "union_pw_aff", "union_pw_multi_aff"])
            ds = gen.leaf(R.choice(["", "A"]), R.choice([1, 1, 2]))
            S.W = 3
            if cls.startswith("union"):
                ds = [ds, gen.leaf("B", 1)]
            w = 3 if cls in ("aff", "multi_aff") else 0
            prof_fun.make(S, cls, ds, gen.leaf(R.choice(["", "R"]), R.randint(1, 2)), w)
            S.W = 6
        elif k < .68:
            h = R.choice(S.pool)
            r = roundtrip3(S, h)
            if r:
                S.drop(r)
        elif k < .76 and S.texts:
            t = R.choice(S.texts)
            m = mutate(S, t)
            if m and not balanced(m[2]) or (m and not m[0].strip()):
                bad(S, R.choice(["set", "map", "union_set", "union_map"]), m[0], "brackets" if not balanced(m[2]) else "empty", m[2])
        elif k < .85:
            cl, t, why = R.choice(BAD)
            bad(S, R.choice(cl), t, why, [])
        elif k < .93:
            soup(S)
        else:
            other(S)
        while len(S.pool) > 10:
            S.drop(R.choice(S.pool))
    for h in S.pool[:]:
        if R.random() < .3:
            S.W = 3 if h.k == "fun" else 6
            S.look(h)
    S.W = 6
    S.close()
    return S.stats
