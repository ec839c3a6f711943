"""Schedule trees of the library as tables over a numbered universe of
instances, one table per parameter value."""
import json
import isl as I

KIND = {0: "band", 1: "context", 2: "domain", 3: "expansion", 4: "extension", 5: "filter", 6: "leaf", 7: "guard",
        8: "mark", 9: "seq", 10: "set"}
BOX = 400


def points(S, cls, ptr, cap=3000, box=BOX):
    """the points of ptr (consumed) as the recorded lists"""
    try:
        js, sp, n, m = S.project(cls, ptr, box, 0, cap)
    finally:
        if ptr:
            S.free_ptr(cls, ptr)
    v = json.loads(js)
    if v["k"] in ("err", "big") or m >= box:
        raise I.Undecided(v["k"])
    return v["p"]


class Universe:
    """numbers instances per parameter value"""

    def __init__(self, S, uset):
        """consumes uset"""
        self.S = S
        self.pvs = [tuple(v) for v in S.world.pvs]
        self.k = {v: i for i, v in enumerate(self.pvs)}
        self.uset = uset
        self.num = [{} for _ in self.pvs]
        self.inst = [[] for _ in self.pvs]
        for v, x in points(S, "union_set", S.lib.union_set_copy(uset)):
            self.add(self.k[tuple(v)], x)

    def add(self, k, x):
        key = json.dumps(x)
        if key not in self.num[k]:
            self.inst[k].append(x)
            self.num[k][key] = len(self.inst[k])

    def of(self, k, x):
        return self.num[k].get(json.dumps(x), 0)

    def free(self):
        self.S.lib.union_set_free(self.uset)

    def subset(self, us):
        """consumes us; numbers of its elements (0: not in the universe)"""
        out = [[] for _ in self.pvs]
        for v, x in points(self.S, "union_set", us):
            out[self.k[tuple(v)]].append(self.of(self.k[tuple(v)], x))
        return [sorted(l) for l in out]

    def within(self, us):
        """us restricted to the universe, consumes us"""
        return self.S.lib.union_set_intersect(us, self.S.lib.union_set_copy(self.uset))

    def pairs(self, um, f=lambda x: x):
        """consumes um, a relation between instances"""
        out = [[] for _ in self.pvs]
        for v, x, y in points(self.S, "union_map", um):
            k = self.k[tuple(v)]
            out[k].append([self.of(k, f(x)), self.of(k, f(y))])
        return out

    def table(self, um):
        """consumes um, instance -> values; restricted to the universe; [] where undefined"""
        um = self.S.lib.union_map_intersect_domain(um, self.S.lib.union_set_copy(self.uset))
        out = [[[] for _ in l] for l in self.inst]
        for v, x, y in points(self.S, "union_map", um):
            k = self.k[tuple(v)]
            out[k][self.of(k, x) - 1].append(y[1])
        for l in out:
            for i, e in enumerate(l):
                l[i] = e[0] if len(e) == 1 else []
        return out

    def pset(self, s):
        """consumes the parameter set s: which parameter values it holds for"""
        ok = {tuple(x[0]) for x in points(self.S, "set", s)}
        return [1 if v in ok else 0 for v in self.pvs]


def cset(S, U, s):
    """consumes the set s: its elements (as texts) per parameter value"""
    out = [[] for _ in U.pvs]
    for x in points(S, "set", s):
        out[U.k[tuple(x[0])]].append(json.dumps(x[1][1] if len(x) > 1 else [], separators=(",", ":")))
    return [sorted(l) for l in out]


def node(S, U, n):
    """consumes n"""
    lib = S.lib
    try:
        t = KIND.get(lib.schedule_node_get_type(n), "bad")
        if t == "bad":
            raise I.Undecided("no node")
        d = dict(t=t)
        if t == "domain":
            d["d"] = U.subset(lib.schedule_node_domain_get_domain(n))
        elif t == "band":
            d["n"] = lib.schedule_node_band_n_member(n)
            d["perm"] = int(lib.schedule_node_band_get_permutable(n))
            d["coin"] = [int(lib.schedule_node_band_member_get_coincident(n, i)) for i in range(d["n"])]
            d["lt"] = [lib.schedule_node_band_member_get_ast_loop_type(n, i) for i in range(d["n"])]
            if d["n"]:
                d["m"] = U.table(lib.schedule_node_band_get_partial_schedule_union_map(n))
            else:
                d["m"] = [[[] for _ in l] for l in U.inst]
        elif t == "filter":
            d["f"] = U.subset(U.within(lib.schedule_node_filter_get_filter(n)))
        elif t == "mark":
            import gast
            d["n"] = gast.name_of(lib, lib.schedule_node_mark_get_id(n))
        elif t in ("context", "guard"):
            d["c"] = cset(S, U, lib.get("isl_schedule_node_%s_get_%s" % (t, t))(n))
        elif t in ("expansion", "extension"):
            pass
        k = lib.schedule_node_n_children(n)
        if t in ("seq", "set"):
            d["l"] = [node(S, U, lib.schedule_node_get_child(n, i)) for i in range(k)]
        elif t != "leaf":
            d["k"] = node(S, U, lib.schedule_node_get_child(n, 0)) if k else dict(t="leaf")
        return d
    finally:
        lib.schedule_node_free(n)


def tree(S, U, sch):
    """keeps sch"""
    return node(S, U, S.lib.schedule_get_root(sch))
