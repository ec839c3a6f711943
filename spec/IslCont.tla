------------------------------ MODULE IslCont ------------------------------
(* Containers and identifiers (C19).  What the caller holds is an identifier *)
(* [k "id", i], a list [k "list", s], a finite map [k "dict", p: pairs] or,  *)
(* for an identifier whose user pointer is to be freed, a hook [k "hook", i]. *)
(* An identifier is its name and user data; it lives while something the     *)
(* caller holds contains it, and its hook fires when that ends, once.        *)
EXTENDS IslJudge

Rng(q) == {q[j] : j \in DOMAIN q}
KeysOf(p) == {r[1] : r \in p}
TheVal(p, t) == (CHOOSE r \in p : r[1] = t)[2]
Holds(v) == IF v.k = "id" THEN {v.i} ELSE IF v.k = "list" THEN Rng(v.s)
            ELSE IF v.k = "dict" THEN {r[1] : r \in Rng(v.p)} \cup {r[2] : r \in Rng(v.p)} ELSE {}
IsHook(h, g) == h[g].k = "hook"
After(e, h) == LET k == DOMAIN h \ Rng(e.c) IN
               UNION {Holds(h[g]) : g \in {g \in k : ~IsHook(h, g)}} \cup (IF e.r = 0 THEN {} ELSE Holds(e.v))
FiredOK(e, h) == LET alive == After(e, h)
                     due == {g \in DOMAIN h : IsHook(h, g) /\ h[g].i \notin alive}
                 IN /\ Rng(e.v.fired) = due
                    /\ Len(e.v.fired) = Cardinality(due)
                    /\ {g \in Rng(e.c) : g \in DOMAIN h /\ IsHook(h, g)} = due

(* ---- sequences ---- *)
Cut(s, f, n) == SubSeq(s, 1, f) \o SubSeq(s, f + n + 1, Len(s))
Ins(s, f, t) == SubSeq(s, 1, f) \o <<t>> \o SubSeq(s, f + 1, Len(s))
Turn(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Count(s, t) == Cardinality({j \in DOMAIN s : s[j] = t})
SameBag(s, t) == Len(s) = Len(t) /\ \A u \in Rng(s) : Count(s, u) = Count(t, u)
(* the prefix up to and including the first element of B *)
Until(s, B) == LET P == {j \in DOMAIN s : s[j] \in B} IN IF P = {} THEN s ELSE SubSeq(s, 1, CHOOSE j \in P : \A k \in P : j <= k)
RECURSIVE Behind(_, _, _)
Behind(E, new, seen) == IF new = {} THEN seen
                        ELSE LET n == {r[2] : r \in {r \in E : r[1] \in new}} \ seen IN Behind(E, n, seen \cup n)
RECURSIVE Joined(_)
Joined(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs) \o Joined(Tail(cs))
From(E, t) == Behind(E, {t}, {t})
SccOK(s, E, cs) == /\ SameBag(s, Joined(cs))
                   /\ \A j \in DOMAIN cs : cs[j] # <<>>
                   /\ \A j, k \in DOMAIN cs : \A t \in Rng(cs[j]), u \in Rng(cs[k]) :
                        /\ (j = k) = (u \in From(E, t) /\ t \in From(E, u))
                        /\ (<<t, u>> \in E /\ j # k => k < j)

Lst(v, s) == v.k = "list" /\ v.s = s
Dct(v, p) == v.k = "dict" /\ Rng(v.p) = p /\ Len(v.p) = Cardinality(p)
Bad(v) == v.k = "err"
Elm(v, t) == v.k \in {"id", "el"} /\ v.i = t
Says(v, n) == v.k = "n" /\ v.n = n

ListOK(e, s, h) ==
   LET x == e.x
       v == e.v
       n == Len(s)
   IN CASE e.op = "l_alloc" -> Lst(v, <<>>) [] e.op = "l_from" -> Lst(v, <<x.t>>)
        [] e.op = "l_add" -> Lst(v, Append(s, x.t))
        [] e.op = "l_insert" -> (IF x.i > n THEN Bad(v) ELSE Lst(v, Ins(s, x.i, x.t)))
        [] e.op = "l_drop" -> (IF x.i + x.n > n THEN Bad(v) ELSE Lst(v, Cut(s, x.i, x.n)))
        [] e.op = "l_clear" -> Lst(v, <<>>)
        [] e.op = "l_concat" -> Lst(v, s \o h[e.a[2]].s)
        [] e.op = "l_swap" -> Lst(v, [j \in 1..n |-> IF j = x.i + 1 THEN s[x.j + 1] ELSE IF j = x.j + 1 THEN s[x.i + 1] ELSE s[j]])
        [] e.op = "l_reverse" -> Lst(v, Turn(s))
        [] e.op = "l_set" -> (IF x.i < 0 \/ x.i >= n THEN Bad(v) ELSE Lst(v, [s EXCEPT ![x.i + 1] = x.t]))
        [] e.op = "l_get" -> (IF x.i < 0 \/ x.i >= n THEN Bad(v) ELSE Elm(v, s[x.i + 1]))
        [] e.op = "l_size" -> Says(v, n)
        [] e.op = "l_copy" -> Lst(v, s)
        [] e.op = "l_foreach" -> Says(v, IF Rng(s) \cap Rng(x.b) = {} THEN 0 ELSE -1) /\ v.seen = Until(s, Rng(x.b))
        [] e.op = "l_every" -> Says(v, IF Rng(s) \cap Rng(x.b) = {} THEN 1 ELSE 0) /\ v.seen = Until(s, Rng(x.b))
        [] e.op = "l_map" -> Lst(v, [j \in 1..n |-> TheVal(Rng(x.f), s[j])])
        [] e.op = "l_sort" -> /\ v.k = "list" /\ SameBag(s, v.s)
                              /\ \A j \in 1..(n - 1) : TheVal(Rng(x.f), v.s[j]) <= TheVal(Rng(x.f), v.s[j + 1])
        [] e.op = "l_scc" -> v.k = "sccs" /\ SccOK(s, Rng(x.e), v.c)
DictOK(e, p, h) ==
   LET x == e.x
       v == e.v
   IN CASE e.op = "d_alloc" -> Dct(v, {})
        [] e.op = "d_set" -> Dct(v, {r \in p : r[1] # x.t} \cup {<<x.t, x.u>>})
        [] e.op = "d_drop" -> Dct(v, {r \in p : r[1] # x.t})
        [] e.op = "d_has" -> Says(v, IF x.t \in KeysOf(p) THEN 1 ELSE 0)
        [] e.op = "d_get" -> (IF x.t \in KeysOf(p) THEN Elm(v, TheVal(p, x.t)) ELSE Bad(v))
        [] e.op = "d_copy" -> Dct(v, p)
Same(v, w) == v.k = w.k /\ CASE v.k = "id" -> v.i = w.i [] v.k = "list" -> v.s = w.s
                             [] v.k = "dict" -> Rng(v.p) = Rng(w.p) /\ Len(v.p) = Len(w.p) [] OTHER -> TRUE
CallOK(e, h) ==
   LET o == e.op
       v == e.v
   IN CASE o \in {"i_alloc", "i_read"} -> v.k = "id" /\ v.i = e.x.t
        [] o = "i_copy" -> v.k = "id" /\ v.i = h[e.a[1]].i
        [] o = "i_eq" -> Says(v, IF h[e.a[1]].i = h[e.a[2]].i THEN 1 ELSE 0)
        [] o = "i_hook" -> v.k = "hook" /\ v.i = h[e.a[1]].i
        [] o = "release" -> v.k = "none"
        [] o = "see" -> Same(v, h[e.a[1]])
        [] o \in {"l_alloc", "l_from"} -> ListOK(e, <<>>, h)
        [] o = "d_alloc" -> DictOK(e, {}, h)
        [] SubSeq(o, 1, 2) = "l_" -> ListOK(e, h[e.a[1]].s, h)
        [] OTHER -> DictOK(e, Rng(h[e.a[1]].p), h)
Judgement(e, s, h) == CallOK(e, h) /\ FiredOK(e, h)
Expected(e, s, h) == <<e.op, [j \in DOMAIN e.a |-> h[e.a[j]]], e.x, After(e, h), {g \in DOMAIN h : IsHook(h, g)}>>
=============================================================================
