----------------------------- MODULE IslTreeEdit -----------------------------
(* Editing schedule trees (C14).  A held node is a tree with a position (the *)
(* child positions from the root).  The tree is recorded over a numbered     *)
(* universe of instances, one table per listed parameter value; Conv(t, k)   *)
(* is the tree for the k-th one.  Each edit is a function on such trees.     *)
EXTENDS Integers, Sequences, FiniteSets

Set(s) == {s[i] : i \in DOMAIN s}
Kinds == {"seq", "set"}
Leaf == [t |-> "leaf"]

RECURSIVE Conv(_, _)
Conv(t, k) ==
  CASE t.t = "leaf" -> Leaf
    [] t.t = "domain" -> [t |-> "domain", d |-> Set(t.d[k]), k |-> Conv(t.k, k)]
    [] t.t = "filter" -> [t |-> "filter", f |-> Set(t.f[k]), k |-> Conv(t.k, k)]
    [] t.t = "band" -> [t |-> "band", n |-> t.n, perm |-> t.perm, coin |-> t.coin, lt |-> t.lt, m |-> t.m[k], k |-> Conv(t.k, k)]
    [] t.t \in Kinds -> [t |-> t.t, l |-> [i \in DOMAIN t.l |-> Conv(t.l[i], k)]]
    [] t.t = "mark" -> [t |-> "mark", n |-> t.n, k |-> Conv(t.k, k)]
    [] t.t \in {"context", "guard"} -> [t |-> t.t, c |-> t.c[k], k |-> Conv(t.k, k)]
    [] OTHER -> [t |-> t.t, k |-> Conv(t.k, k)]

Kids(t) == IF t.t = "leaf" THEN <<>> ELSE IF t.t \in Kinds THEN t.l ELSE <<t.k>>
WithKids(t, l) == IF t.t = "leaf" THEN t ELSE IF t.t \in Kinds THEN [t EXCEPT !.l = l] ELSE [t EXCEPT !.k = l[1]]
(* the instances that go on to the children                                   *)
Down(t, S) == CASE t.t = "domain" -> t.d [] t.t = "filter" -> S \cap t.f [] OTHER -> S

(* what matters of a tree: its tables on the instances that get there         *)
RECURSIVE Restrict(_, _)
Restrict(t, S) ==
  LET D == Down(t, S)
      l == [i \in DOMAIN Kids(t) |-> Restrict(Kids(t)[i], D)]
      u == WithKids(t, l)
  IN CASE t.t = "filter" -> [u EXCEPT !.f = D]
       [] t.t = "band" -> [u EXCEPT !.m = [i \in S |-> t.m[i]]]
       [] OTHER -> u
Norm(t) == Restrict(t, {})

(* Simplified: only with the instances that get to a leaf, without filters    *)
(* (those then hold back nothing), and with nested sequences flattened        *)
RECURSIVE Cat(_)
Cat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Cat(Tail(l))
RECURSIVE Live(_, _)
Live(t, S) ==
  LET D == Down(t, S) IN
  IF t.t = "leaf" THEN S ELSE UNION {Live(Kids(t)[i], D) : i \in DOMAIN Kids(t)}
RECURSIVE Simp(_, _)
Simp(t, S) ==
  CASE t.t = "domain" -> LET L == Live(t.k, t.d) IN [t |-> "domain", d |-> t.d, live |-> L, k |-> Simp(t.k, L)]
    [] t.t # "domain" /\ S = {} -> Leaf
    [] t.t = "filter" /\ S # {} -> Simp(t.k, S)
    [] t.t \in Kinds /\ S # {} ->
         LET part(c) == S \cap Live(c, S)
             live == SelectSeq(t.l, LAMBDA c : part(c) # {})
             one(c) == LET k == Simp(c.k, part(c)) IN
                       IF t.t = "seq" /\ k.t = "seq" THEN k.l ELSE <<[t |-> "filter", f |-> part(c), k |-> k]>>
             l == Cat([i \in DOMAIN live |-> one(live[i])])
         IN IF Len(l) = 1 /\ l[1].f = S THEN l[1].k ELSE [t |-> t.t, l |-> l]
    [] t.t = "band" /\ S # {} -> [t EXCEPT !.m = [i \in S |-> t.m[i]], !.k = Simp(t.k, S)]
    [] t.t = "leaf" /\ S # {} -> t
    [] OTHER -> [t EXCEPT !.k = Simp(t.k, S)]

RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(Kids(t)[Head(p) + 1], Tail(p))
RECURSIVE Valid(_, _)
Valid(t, p) == IF p = <<>> THEN TRUE ELSE IF Head(p) < 0 \/ Head(p) >= Len(Kids(t)) THEN FALSE ELSE Valid(Kids(t)[Head(p) + 1], Tail(p))
RECURSIVE Put(_, _, _)
Put(t, p, u) == IF p = <<>> THEN u
                ELSE WithKids(t, [i \in DOMAIN Kids(t) |-> IF i = Head(p) + 1 THEN Put(Kids(t)[i], Tail(p), u) ELSE Kids(t)[i]])
RECURSIVE Reach(_, _, _)
Reach(t, p, S) == IF p = <<>> THEN S ELSE Reach(Kids(t)[Head(p) + 1], Tail(p), Down(t, S))
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]

RECURSIVE Anch(_)
Anch(t) == t.t \in {"context", "guard", "extension"} \/ \E i \in DOMAIN Kids(t) : Anch(Kids(t)[i])
Under(T, p) == p # <<>> /\ At(T, Front(p)).t \in Kinds
InsOK(T, p) == p # <<>> /\ ~Under(T, p)

(* ---- times ---- *)
RECURSIVE TT(_, _)
TT(t, i) ==
  CASE t.t = "leaf" -> {<<>>}
    [] t.t = "band" -> IF Len(t.m[i]) # t.n THEN {} ELSE LET b == [j \in 1..t.n |-> <<0, t.m[i][j]>>] IN {b \o r : r \in TT(t.k, i)}
    [] t.t = "filter" -> IF i \in t.f THEN TT(t.k, i) ELSE {}
    [] t.t = "domain" -> IF i \in t.d THEN TT(t.k, i) ELSE {}
    [] t.t \in Kinds -> UNION {{<< <<IF t.t = "set" THEN 1 ELSE 0, j>> >> \o r : r \in TT(t.l[j], i)} : j \in DOMAIN t.l}
    [] OTHER -> TT(t.k, i)
TR == INSTANCE IslTree
RECURSIVE LexLtS(_, _, _)
LexLtS(a, b, j) == IF j > Len(a) THEN FALSE ELSE IF a[j] = b[j] THEN LexLtS(a, b, j + 1) ELSE a[j] < b[j]
(* the recorded times keep the order of tree t on S                           *)
Keeps(t, S, m) ==
  LET tm == [i \in S |-> CHOOSE u \in TT(t, i) : TRUE]
      D == {i \in S : TT(t, i) # {}}
  IN \A i \in D : \A j \in D :
       /\ Len(m[i]) = Len(m[j])
       /\ TR!TLt(tm[i], tm[j]) => LexLtS(m[i], m[j], 1)
       /\ tm[i] = tm[j] => m[i] = m[j]
RECURSIVE Pre(_, _, _)
Pre(t, p, i) == IF p = <<>> THEN <<>> ELSE (IF t.t = "band" THEN t.m[i] ELSE <<>>) \o Pre(Kids(t)[Head(p) + 1], Tail(p), i)
RECURSIVE Depth(_, _)
Depth(t, p) == IF p = <<>> THEN 0 ELSE (IF t.t = "band" THEN t.n ELSE 0) + Depth(Kids(t)[Head(p) + 1], Tail(p))

(* ---- the edits: [ok, T, p], simp: compare simplified ---- *)
No == [ok |-> FALSE]
Yes(T, p) == [ok |-> TRUE, T |-> T, p |-> p, simp |-> FALSE]
Roughly(T, p) == [ok |-> TRUE, T |-> T, p |-> p, simp |-> TRUE]
Filter(f, u) == IF u.t = "filter" THEN [u EXCEPT !.f = u.f \cap f] ELSE [t |-> "filter", f |-> f, k |-> u]
Band(n, m, u) == [t |-> "band", n |-> n, perm |-> 0, coin |-> [i \in 1..n |-> 0], lt |-> [i \in 1..n |-> 0], m |-> m, k |-> u]
Each(t, f(_, _)) == [t EXCEPT !.m = [i \in DOMAIN t.m |-> [j \in DOMAIN t.m[i] |-> f(t.m[i][j], j)]]]
RECURSIVE Sink(_, _)
Sink(c, b) == IF c.t = "leaf" THEN [b EXCEPT !.k = Leaf] ELSE WithKids(c, [i \in DOMAIN Kids(c) |-> Sink(Kids(c)[i], b)])
RECURSIVE MapMark(_, _)
MapMark(t, kind) ==
  LET u == WithKids(t, [i \in DOMAIN Kids(t) |-> MapMark(Kids(t)[i], kind)])
      m(w) == [t |-> "mark", n |-> "v", k |-> w]
  IN IF t.t # kind THEN u ELSE IF kind = "filter" THEN [u EXCEPT !.k = m(u.k)] ELSE m(u)
Splice(u, pos) == LET c == u.l[pos + 1]
                      in == [i \in DOMAIN c.k.l |-> [c.k.l[i] EXCEPT !.f = @ \cap c.f]]
                  IN [u EXCEPT !.l = SubSeq(u.l, 1, pos) \o in \o SubSeq(u.l, pos + 2, Len(u.l))]
SpliceAll(u) == [u EXCEPT !.l = Cat([i \in DOMAIN u.l |-> IF u.l[i].k.t = "seq" THEN [j \in DOMAIN u.l[i].k.l |-> [u.l[i].k.l[j] EXCEPT !.f = @ \cap u.l[i].f]]
                                                          ELSE <<u.l[i]>>])]
SmallPre(a, b) == CHOOSE n \in 0..Len(a) : /\ n <= Len(b) /\ SubSeq(a, 1, n) = SubSeq(b, 1, n)
                                          /\ (n < Len(a) /\ n < Len(b) => a[n + 1] # b[n + 1])
Part(T, kind) == LET f == T.d
                     k == T.k
                 IN IF k.t = kind THEN [i \in DOMAIN k.l |-> [k.l[i] EXCEPT !.f = @ \cap f]] ELSE <<Filter(f, k)>>
RECURSIVE Pull(_, _)
Pull(t, pb) ==
  LET u == WithKids(t, [i \in DOMAIN Kids(t) |-> Pull(Kids(t)[i], pb)])
      pre(s) == {j \in DOMAIN pb : pb[j] \in s}
  IN CASE t.t = "domain" -> [u EXCEPT !.d = pre(t.d)]
       [] t.t = "filter" -> [u EXCEPT !.f = pre(t.f)]
       [] t.t = "band" -> [u EXCEPT !.m = [j \in DOMAIN pb |-> t.m[pb[j]]]]
       [] OTHER -> u

Go(T, p, x) ==
  LET u == At(T, p)
      n == Len(Kids(u))
      up == IF p = <<>> THEN <<>> ELSE Kids(At(T, Front(p)))
  IN CASE x.how = "parent" -> IF p = <<>> THEN No ELSE Yes(T, Front(p))
       [] x.how = "grandparent" -> IF Len(p) < 2 THEN No ELSE Yes(T, Front(Front(p)))
       [] x.how = "root" -> Yes(T, <<>>)
       [] x.how = "anc" -> IF x.a < 0 \/ x.a > Len(p) THEN No ELSE Yes(T, SubSeq(p, 1, Len(p) - x.a))
       [] x.how = "first" -> IF n = 0 THEN No ELSE Yes(T, Append(p, 0))
       [] x.how = "child" -> IF x.a < 0 \/ x.a >= n THEN No ELSE Yes(T, Append(p, x.a))
       [] x.how = "grandchild" -> IF Valid(u, <<x.a, x.b>>) THEN Yes(T, p \o <<x.a, x.b>>) ELSE No
       [] x.how = "next" -> IF p = <<>> THEN No ELSE IF Last(p) + 1 >= Len(up) THEN No ELSE Yes(T, Append(Front(p), Last(p) + 1))
       [] x.how = "prev" -> IF p = <<>> THEN No ELSE IF Last(p) = 0 THEN No ELSE Yes(T, Append(Front(p), Last(p) - 1))

Edit(op, x, k, T, p) ==
  LET u == At(T, p)
      S == Reach(Norm(T), p, {})
      isb == u.t = "band"
      put(v) == Put(T, p, v)
  IN CASE op = "t_mark" -> IF InsOK(T, p) THEN Yes(put([t |-> "mark", n |-> x.n, k |-> u]), p) ELSE No
       [] op = "t_cond" -> IF InsOK(T, p) THEN Yes(put([t |-> x.t, c |-> x.c[k], k |-> u]), p) ELSE No
       [] op = "t_filter" -> IF InsOK(T, p) THEN Yes(put(Filter(Set(x.f[k]), u)), p) ELSE No
       [] op = "t_band" -> IF InsOK(T, p) /\ ~Anch(u) THEN Yes(put(Band(x.n, x.m[k], u)), p) ELSE No
       [] op = "t_seq" -> IF InsOK(T, p)
                          THEN Roughly(put([t |-> x.kind, l |-> [i \in DOMAIN x.f |-> [t |-> "filter", f |-> Set(x.f[i][k]), k |-> u]]]), p) ELSE No
       [] op = "t_order" -> IF InsOK(T, p)
                            THEN LET a == [t |-> "filter", f |-> S \cap Set(x.f[k]), k |-> u]
                                     b == [t |-> "filter", f |-> S \ Set(x.f[k]), k |-> u]
                                 IN Roughly(put([t |-> "seq", l |-> IF x.b = 1 THEN <<a, b>> ELSE <<b, a>>]), p)
                            ELSE No
       [] op = "t_cut" -> IF InsOK(T, p) THEN Yes(put(Leaf), p) ELSE No
       [] op = "t_delete" -> IF ~InsOK(T, p) \/ Len(Kids(u)) # 1 THEN No ELSE IF isb /\ Anch(u) THEN No ELSE Yes(put(Kids(u)[1]), p)
       [] op = "t_iden" -> Yes(T, p)
       [] op = "t_root" -> Yes(T, <<>>)
       [] op = "t_move" -> Yes(T, x.to)
       [] op = "t_go" -> Go(T, p, x)
       [] op = "t_splice" -> IF u.t # "seq" THEN No ELSE IF x.pos < 0 \/ x.pos >= Len(u.l) THEN No
                             ELSE IF u.l[x.pos + 1].k.t # "seq" THEN No ELSE Yes(put(Splice(u, x.pos)), p)
       [] op = "t_splices" -> IF u.t # "seq" THEN No ELSE Yes(put(SpliceAll(u)), p)
       [] op = "t_mapd" -> Yes(put(MapMark(u, x.kind)), p)
       [] op = "t_tile" ->
            IF ~isb \/ Anch(u) THEN No ELSE IF Len(x.v) # u.n THEN No
            ELSE LET q(a, j) == a \div x.v[j][1]
                     tile(a, j) == IF x.sc = 1 THEN q(a, j) * x.v[j][1] ELSE q(a, j)
                     pt(a, j) == IF x.sh = 1 THEN a % x.v[j][1] ELSE a
                 IN Yes(put([Each(u, tile) EXCEPT !.k = Each(u, pt)]), p)
       [] op = "t_sink" -> IF ~isb \/ Anch(u) THEN No ELSE IF u.k.t = "leaf" THEN Yes(T, p) ELSE Yes(put(Sink(u.k, u)), p)
       [] op = "t_split" ->
            IF ~isb THEN No ELSE IF x.pos < 0 \/ x.pos > u.n THEN No
            ELSE LET part(a, b) == [u EXCEPT !.n = b - a, !.coin = SubSeq(@, a + 1, b), !.lt = SubSeq(@, a + 1, b),
                                            !.m = [i \in DOMAIN u.m |-> IF Len(u.m[i]) = u.n THEN SubSeq(u.m[i], a + 1, b) ELSE <<>>]]
                 IN Yes(put([part(0, x.pos) EXCEPT !.k = part(x.pos, u.n)]), p)
       [] op = "t_scale" ->
            IF ~isb \/ Anch(u) THEN No ELSE IF Len(x.v) # u.n THEN No
            ELSE LET sc(a, j) == (a * x.v[j][1]) \div x.v[j][2]
                     sd(a, j) == (a * x.v[j][2]) \div x.v[j][1]
                     md(a, j) == a % x.v[j][1]
                 IN Yes(put(CASE x.how = "scale" -> Each(u, sc) [] x.how = "scaledown" -> Each(u, sd) [] OTHER -> Each(u, md)), p)
       [] op = "t_shift" ->
            IF ~isb \/ Anch(u) THEN No ELSE IF x.n # u.n THEN No
            ELSE Yes(put([u EXCEPT !.m = [i \in DOMAIN u.m |-> IF Len(x.m[k][i]) # Len(u.m[i]) THEN <<>> ELSE [j \in DOMAIN u.m[i] |-> u.m[i][j] + x.m[k][i][j]]]]), p)
       [] op = "t_member" -> IF ~isb THEN No ELSE IF x.pos < 0 \/ x.pos >= u.n THEN No
                             ELSE IF x.what = "coin" THEN Yes(put([u EXCEPT !.coin[x.pos + 1] = x.v]), p)
                             ELSE Yes(put([u EXCEPT !.lt[x.pos + 1] = x.v]), p)
       [] op = "t_perm" -> IF ~isb THEN No ELSE Yes(put([u EXCEPT !.perm = x.v]), p)
       [] op = "s_band" -> IF Anch(T.k) THEN No ELSE Yes([T EXCEPT !.k = Band(x.n, x.m[k], T.k)], <<>>)
       [] op = "s_cond" -> Yes([T EXCEPT !.k = [t |-> x.t, c |-> x.c[k], k |-> T.k]], <<>>)
       [] op = "s_inter" -> Roughly([T EXCEPT !.d = @ \cap Set(x.f[k])], <<>>)
       [] op = "s_gist" -> Yes(T, <<>>)
       [] op = "s_pull" -> Yes(Pull(T, x.pb[k]), <<>>)

(* ---- judging ---- *)
KS(b) == DOMAIN b.t.d
Same(a, b, rough) == IF rough THEN Simp(a, {}) = Simp(b, {}) ELSE Norm(a) = Norm(b)
(* a filter directly below a filter is the same as their common part          *)
RECURSIVE Merge(_)
Merge(t) == LET u == WithKids(t, [i \in DOMAIN Kids(t) |-> Merge(Kids(t)[i])])
            IN IF u.t # "filter" THEN u ELSE IF u.k.t # "filter" THEN u ELSE [u EXCEPT !.f = u.f \cap u.k.f, !.k = u.k.k]
Relevant(e, k) == IF e.op = "s_gist" THEN e.x.c[k] = 1 ELSE TRUE
Made(e, b, r(_)) ==
  LET r1 == r(1)
  IN IF ~r1.ok THEN e.v.k = "err"
     ELSE /\ e.v.k = "tree"
          /\ e.op # "t_order" => e.v.p = r1.p
          /\ \A k \in DOMAIN e.v.t.d : Relevant(e, k) => IF e.op = "t_root" THEN Norm(Merge(Conv(e.v.t, k))) = Norm(Merge(r(k).T)) ELSE Same(Conv(e.v.t, k), r(k).T, r1.simp)
Same2(a, b, D) == LET L == Live(a, D) IN L = Live(b, D) /\ Simp(a, L) = Simp(b, L)
EditOK(e, b) ==
  LET r(k) == Edit(e.op, e.x, k, Conv(b.t, k), b.p)
  IN Made(e, b, r) /\
     (IF e.op # "t_order" \/ e.v.k = "err" THEN TRUE
      ELSE \A k \in KS(b) :
             LET T == Conv(b.t, k)
                 V == Conv(e.v.t, k)
                 S == Reach(Norm(T), b.p, {})
                 u == At(T, b.p)
                 D == S \ Set(e.x.f[k])
                 \* the new filter and one at the node itself may become one
                 here(E, w) == LET R == Reach(Norm(V), e.v.p, {}) IN R = E /\ Same2(At(V, e.v.p), w, E)
             IN Valid(V, e.v.p) /\ (D = {} \/ here(D, u) \/ (u.t = "filter" /\ here(D \cap u.f, u.k))))
PairOK(e, a, b) ==
  IF \E k \in KS(a) : Set(a.t.d[k]) \cap Set(b.t.d[k]) # {} THEN e.v.k = "err"
  ELSE IF e.v.k = "err" THEN e.x.np > 0                  \* maybe for other parameter values
  ELSE LET r(k) == LET A == Conv(a.t, k)
                       B == Conv(b.t, k)
                   IN Yes([t |-> "domain", d |-> A.d \cup B.d, k |-> [t |-> e.x.kind, l |-> Part(A, e.x.kind) \o Part(B, e.x.kind)]], <<>>)
       IN Made(e, a, r)

RECURSIVE Visit(_, _)
Visit(t, stop) == <<t.t>> \o (IF t.t = stop THEN <<>> ELSE Cat([i \in DOMAIN Kids(t) |-> Visit(Kids(t)[i], stop)]))
RECURSIVE Types(_, _)
Types(t, p) == <<t.t>> \o (IF p = <<>> THEN <<>> ELSE Types(Kids(t)[Head(p) + 1], Tail(p)))
Bit(c) == IF c THEN 1 ELSE 0
Num(w, T, p) ==
  LET u == At(T, p)
      up == IF p = <<>> THEN <<>> ELSE Kids(At(T, Front(p)))
  IN CASE w = "get_tree_depth" -> Len(p)
       [] w = "has_parent" -> Bit(p # <<>>)
       [] w = "has_children" -> Bit(Len(Kids(u)) > 0)
       [] w = "n_children" -> Len(Kids(u))
       [] w = "get_child_position" -> IF p = <<>> THEN -1 ELSE Last(p)
       [] w = "has_previous_sibling" -> IF p = <<>> THEN 0 ELSE Bit(Last(p) > 0)
       [] w = "has_next_sibling" -> IF p = <<>> THEN 0 ELSE Bit(Last(p) + 1 < Len(up))
       [] w = "get_schedule_depth" -> Depth(T, p)
       [] w = "is_subtree_anchored" -> Bit(Anch(u))
       [] w = "band_n_member" -> u.n
       [] w = "band_get_permutable" -> u.perm
TypeAt(w, T, p) == IF w = "get_type" THEN At(T, p).t ELSE IF p = <<>> THEN "bad" ELSE At(T, Front(p)).t
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

GroupOK(e, b) ==
  IF \E k \in KS(b) : Anch(Conv(b.t, k)) THEN TRUE
  ELSE IF ~InsOK(Conv(b.t, 1), b.p) THEN e.v.k = "err"
  ELSE /\ e.v.k = "grp" /\ e.v.pt = "expansion" /\ e.v.con = 1 /\ e.v.p = Append(b.p, 0)
       /\ \A k \in KS(b) :
            LET T == Conv(b.t, k)
                S == Reach(Norm(T), b.p, {})
                g(i) == <<"G", Pre(T, b.p, i)>>
            IN /\ Set(e.v.dom[k]) = S
               /\ \A i \in DOMAIN e.v.ex[k] : e.v.ex[k][i] = IF i \in S THEN <<g(i)>> ELSE <<>>
               /\ Set(e.v.gd[k]) = {g(i) : i \in S}
               /\ Keeps(Norm(T), T.d, e.v.m[k])

QueryOK(e, b, g) ==
  LET T(k) == Conv(b.t, k)
      S(k) == Reach(Norm(T(k)), b.p, {})
      v == e.v
  IN CASE e.op = "q_num" -> v.v = (IF e.x.what \in {"get_type", "get_parent_type"} THEN TypeAt(e.x.what, T(1), b.p) ELSE Num(e.x.what, T(1), b.p))
       [] e.op = "q_dom" -> v.k = "q" /\ \A k \in KS(b) : Set(v.v[k]) = S(k)
       [] e.op = "q_univ" -> v.c = 0 /\ \A k \in KS(b) : {e.x.inst[k][i] : i \in S(k)} \subseteq Set(v.v)
       [] e.op = "q_prefix" -> \/ v.k = "z" /\ Depth(T(1), b.p) = 0
                               \/ v.k = "q" /\ \A k \in KS(b) : /\ \A i \in S(k) : v.v[k][i] = Pre(T(k), b.p, i)
                                                               /\ e.x.form = "relation" => Set(v.d[k]) = S(k)
       [] e.op = "q_sub" -> v.k = "q" /\ \A k \in KS(b) : Keeps(Norm(T(k)), S(k), [i \in S(k) |-> Pre(T(k), b.p, i) \o v.v[k][i]])
                                                          \/ Keeps(At(Norm(T(k)), b.p), S(k), v.v[k])
       [] e.op = "q_map" -> v.k = "q" /\ \A k \in KS(b) : Keeps(Norm(T(k)), T(k).d, v.v[k])
       [] e.op = "q_visit" -> v.v = 0 /\ v.l = Visit(IF e.x.whole = 1 THEN T(1) ELSE At(T(1), b.p), e.x.stop)
       [] e.op = "q_every" -> v.v = Bit(e.x.bad \notin Set(Visit(At(T(1), b.p), "?")))
       [] e.op = "q_ups" -> v.v = 0 /\ v.l = Front(Types(T(1), b.p))
       [] e.op = "q_anc" -> Prefix(g.p, b.p) /\ Len(g.p) < Len(b.p) => v.v = b.p[Len(g.p) + 1]   \* asked of descendants
       [] e.op = "q_eq" -> v.v = Bit(b.p = g.p)
       [] e.op = "q_eqq" -> v.v = 1 => b.t = g.t /\ b.p = g.p
       [] e.op = "q_plain" -> v.v = 1 => \A k \in KS(b) : Norm(T(k)) = Norm(Conv(g.t, k))

B(e, h) == h[e.a[1]]
G(e, h) == h[e.a[Len(e.a)]]
Admits(e, h) ==
  CASE e.op = "t_read" -> e.v.v = 1
    [] e.op = "t_same" -> e.v = B(e, h)
    [] e.op \in {"t_move", "t_go", "t_iden"} /\ e.v.k = "tree" -> EditOK(e, B(e, h)) /\ e.v.t = B(e, h).t
    [] e.op = "t_shared" -> e.v.k = "tree" /\ e.v.t = B(e, h).t /\ e.v.p = SubSeq(B(e, h).p, 1, SmallPre(B(e, h).p, G(e, h).p))
    [] e.op = "t_group" -> GroupOK(e, B(e, h))
    [] e.op = "s_pair" -> PairOK(e, B(e, h), G(e, h))
    [] e.op \in {"q_num", "q_dom", "q_univ", "q_prefix", "q_sub", "q_map", "q_visit", "q_every", "q_ups", "q_anc", "q_eq", "q_eqq", "q_plain"} ->
         QueryOK(e, B(e, h), G(e, h))
    [] OTHER -> EditOK(e, B(e, h))
Wanted(e, h) ==
  CASE e.op = "s_pair" -> LET A == Conv(B(e, h).t, 1) C2 == Conv(G(e, h).t, 1) IN <<A, C2>>
    [] e.op = "t_read" -> "readable"
    [] e.op \in {"t_same", "t_shared", "t_group", "q_num", "q_dom", "q_univ", "q_prefix", "q_sub", "q_map", "q_visit", "q_every", "q_ups", "q_anc", "q_eq", "q_eqq", "q_plain"} -> <<B(e, h).p, B(e, h).t>>
    [] OTHER -> LET b == B(e, h)
                    r(k) == Edit(e.op, e.x, k, Conv(b.t, k), b.p)
                IN IF ~r(1).ok THEN "refused" ELSE [k \in KS(b) |-> <<"pos", r(k).p, "before", Norm(Conv(b.t, k)), "want", IF r(k).simp THEN Simp(r(k).T, {}) ELSE Norm(r(k).T),
                     "got", IF e.v.k = "err" THEN "err" ELSE IF r(k).simp THEN Simp(Conv(e.v.t, k), {}) ELSE Norm(Conv(e.v.t, k))>>]
=============================================================================
