----------------------------- MODULE IslSpaces ------------------------------
(* Spaces (C24).  A space is its kind (P parameters, S set, M map), the      *)
(* sequence of its parameters and its tuples.  A tuple has a name ("" for    *)
(* none), a number of dimensions and, if it wraps a map, the two tuples of   *)
(* that map.  A name is an identifier: a letter and its user datum.          *)
EXTENDS IslJudge

NoT == [n |-> "", d |-> 0, w |-> <<>>]
Sp(k, p, i, o) == [k |-> k, p |-> p, i |-> i, o |-> o]
SetSp(p, o) == Sp("S", p, NoT, o)
MapSp(p, i, o) == Sp("M", p, i, o)
ParSp(p) == Sp("P", p, NoT, NoT)
Wr(a, b) == [n |-> "", d |-> a.d + b.d, w |-> <<a, b>>]
IsWr(t) == t.w # <<>>
Plain(d) == [n |-> "", d |-> d, w |-> <<>>]
In(q, t) == \E j \in DOMAIN q : q[j] = t
Letter(t) == SubSeq(t, 1, 1)
Bare(t) == IF t = "" THEN "" ELSE Letter(t) \o "0"
RECURSIVE BareT(_)
BareT(t) == [n |-> Bare(t.n), d |-> t.d, w |-> IF IsWr(t) THEN <<BareT(t.w[1]), BareT(t.w[2])>> ELSE <<>>]
PosOf(q, P(_)) == LET J == {j \in DOMAIN q : P(q[j])} IN IF J = {} THEN -1 ELSE (CHOOSE j \in J : \A k \in J : j <= k) - 1
Cut(q, f, n) == SubSeq(q, 1, f) \o SubSeq(q, f + n + 1, Len(q))

None == [k |-> "none"]
If(c, s) == IF c THEN s ELSE None

(* what a call that makes a space makes, None if the space cannot be made *)
Makes(e, A) ==
  LET o == e.op
      x == e.x
      a == A[1]
      b == A[2]
      i == a.i
      u == a.o
      p == a.p
      EqP == p = b.p
      M(s, t) == MapSp(p, s, t)
      S(t) == SetSp(p, t)
      Is(k) == a.k = k
      Both(k) == a.k = k /\ b.k = k
  IN CASE o = "params_alloc" -> ParSp(<<>>)
       [] o = "set_alloc" -> SetSp(<<>>, Plain(x.n))
       [] o = "alloc" -> MapSp(<<>>, Plain(x.m), Plain(x.n))
       [] o \in {"copy", "reread"} -> a
       [] o = "domain" -> If(Is("M"), S(i))
       [] o = "range" -> If(Is("M"), S(u))
       [] o = "params" -> ParSp(p)
       [] o = "from_domain" -> If(Is("S"), M(u, NoT))
       [] o = "from_range" -> If(Is("S"), M(NoT, u))
       [] o = "set_from_params" -> If(Is("P"), S(NoT))
       [] o = "map_from_set" -> If(Is("S"), M(u, u))
       [] o = "map_from_domain_and_range" -> If(Both("S") /\ EqP, M(u, b.o))
       [] o = "reverse" -> M(u, i)
       [] o = "wrap" -> S(Wr(i, u))
       [] o = "unwrap" -> If(Is("S") /\ IsWr(u), M(u.w[1], u.w[2]))
       [] o = "domain_map" -> M(Wr(i, u), i)
       [] o = "range_map" -> M(Wr(i, u), u)
       [] o = "join" -> If(EqP /\ u = b.i, M(i, b.o))
       [] o = "product" -> If(a.k = b.k /\ EqP, IF Is("S") THEN S(Wr(u, b.o)) ELSE M(Wr(i, b.i), Wr(u, b.o)))
       [] o = "domain_product" -> If(EqP /\ u = b.o, M(Wr(i, b.i), u))
       [] o = "range_product" -> If(a.k = b.k /\ EqP /\ i = b.i, [a EXCEPT !.o = Wr(u, b.o)])
       [] o \in {"factor_domain", "factor_range"} ->
            LET j == IF o = "factor_domain" THEN 1 ELSE 2
            IN (IF Is("S") THEN If(IsWr(u), S(u.w[j])) ELSE If(IsWr(i) /\ IsWr(u), M(i.w[j], u.w[j])))
       [] o = "domain_factor_domain" -> If(IsWr(i), M(i.w[1], u))
       [] o = "domain_factor_range" -> If(IsWr(i), M(i.w[2], u))
       [] o = "range_factor_domain" -> If(IsWr(u), M(i, u.w[1]))
       [] o = "range_factor_range" -> If(IsWr(u), M(i, u.w[2]))
       [] o = "domain_wrapped_domain" -> If(IsWr(i), S(i.w[1]))
       [] o = "domain_wrapped_range" -> If(IsWr(i), S(i.w[2]))
       [] o = "range_wrapped_domain" -> If(IsWr(u), S(u.w[1]))
       [] o = "range_wrapped_range" -> If(IsWr(u), S(u.w[2]))
       [] o = "curry" -> If(IsWr(i), M(i.w[1], Wr(i.w[2], u)))
       [] o = "uncurry" -> If(IsWr(u), M(Wr(i, u.w[1]), u.w[2]))
       [] o = "range_curry" -> (IF IsWr(u) THEN If(IsWr(u.w[1]), M(i, [u EXCEPT !.w = <<u.w[1].w[1], Wr(u.w[1].w[2], u.w[2])>>])) ELSE None)
       [] o = "zip" -> If(IsWr(i) /\ IsWr(u), M(Wr(i.w[1], u.w[1]), Wr(i.w[2], u.w[2])))
       (* the name of a wrapped map is kept if reversing it changes nothing *)
       [] o = "range_reverse" -> If(IsWr(u), M(i, [u EXCEPT !.w = <<u.w[2], u.w[1]>>, !.n = IF u.w[1] = u.w[2] THEN u.n ELSE ""]))
       [] o = "flatten_domain" -> (IF IsWr(i) THEN M(Plain(i.d), u) ELSE a)
       [] o = "flatten_range" -> (IF IsWr(u) THEN M(i, Plain(u.d)) ELSE a)
       [] o = "add_tuple" -> (IF Is("P") THEN S([Plain(x.n) EXCEPT !.n = x.t])
                              ELSE If(Is("S"), M(u, [Plain(x.n) EXCEPT !.n = x.t])))
       [] o = "name_in" -> M([i EXCEPT !.n = x.t], u)
       [] o = "name_out" -> [a EXCEPT !.o = [u EXCEPT !.n = x.t]]
       [] o = "reset_user" -> Sp(a.k, [j \in DOMAIN p |-> Bare(p[j])], BareT(i), BareT(u))
       [] o = "add_param" -> (IF In(p, x.t) THEN a ELSE [a EXCEPT !.p = Append(p, x.t)])
       [] o = "rename_param" -> (IF In(Cut(p, x.i, 1), x.t) THEN None ELSE [a EXCEPT !.p = [p EXCEPT ![x.i + 1] = x.t]])
       [] o = "drop_params" -> [a EXCEPT !.p = Cut(p, x.i, x.n)]
       [] o = "drop_all_params" -> [a EXCEPT !.p = <<>>]
       [] o = "align_params" -> [a EXCEPT !.p = b.p \o SelectSeq(p, LAMBDA t : ~In(b.p, t))]
       (* a tuple that changes loses its name and structure *)
       [] o = "add_dims" -> [a EXCEPT !.o = Plain(u.d + x.n)]
       [] o = "drop_dims" -> [a EXCEPT !.o = Plain(u.d - x.n)]
       [] o = "add_in_dims" -> [a EXCEPT !.i = Plain(i.d + x.n)]
       [] o = "drop_in_dims" -> [a EXCEPT !.i = Plain(i.d - x.n)]

Asks == {"is_params", "is_set", "is_map", "is_equal", "has_equal_params", "has_equal_tuples", "is_wrapping", "domain_is_wrapping",
         "range_is_wrapping", "is_product", "can_zip", "can_curry", "can_uncurry", "can_range_curry", "is_domain", "is_range",
         "find_by_id", "find_by_name", "tuple_equal", "has_name", "dims"}
Tup(a, t) == IF t = "in" THEN a.i ELSE a.o
B(c) == IF c THEN 1 ELSE 0
Answer(e, A) ==
  LET o == e.op
      x == e.x
      a == A[1]
      b == A[2]
      M == a.k = "M"
      i == a.i
      u == a.o
  IN CASE o = "is_params" -> B(a.k = "P") [] o = "is_set" -> B(~M) [] o = "is_map" -> B(M)
       [] o = "is_equal" -> B(a = b)
       [] o = "has_equal_params" -> B(a.p = b.p)
       [] o = "has_equal_tuples" -> B(a.k = b.k /\ a.i = b.i /\ a.o = b.o)
       [] o = "is_wrapping" -> B(a.k = "S" /\ IsWr(u))
       [] o = "domain_is_wrapping" -> B(M /\ IsWr(i))
       [] o = "range_is_wrapping" -> B(M /\ IsWr(u))
       [] o = "is_product" -> B(IF M THEN IsWr(i) /\ IsWr(u) ELSE a.k = "S" /\ IsWr(u))
       [] o = "can_zip" -> B(M /\ IsWr(i) /\ IsWr(u))
       [] o = "can_curry" -> B(M /\ IsWr(i))
       [] o = "can_uncurry" -> B(M /\ IsWr(u))
       [] o = "can_range_curry" -> (IF IsWr(u) THEN B(M /\ IsWr(u.w[1])) ELSE 0)
       [] o = "is_domain" -> B(a.k = "S" /\ b.k = "M" /\ a.p = b.p /\ u = b.i)
       [] o = "is_range" -> B(a.k = "S" /\ b.k = "M" /\ a.p = b.p /\ u = b.o)
       [] o = "find_by_id" -> PosOf(a.p, LAMBDA t : t = x.t)
       [] o = "find_by_name" -> PosOf(a.p, LAMBDA t : Letter(t) = Letter(x.t))
       [] o = "tuple_equal" -> B(Tup(a, x.s) = Tup(b, x.t))
       [] o = "has_name" -> B(Tup(a, x.s).n # "")
       [] o = "dims" -> (IF x.s = "param" THEN Len(a.p) ELSE Tup(a, x.s).d)

Args(e, h) == [j \in 1..2 |-> IF j \in DOMAIN e.a THEN h[e.a[j]] ELSE IF Len(e.a) = 1 THEN h[e.a[1]] ELSE None]
Judgement(e, s, h) == LET v == e.v IN
  IF e.op \in Asks THEN v.k = "n" /\ v.n = Answer(e, Args(e, h))
  ELSE CASE e.op = "release" -> v.k = "gone"
         [] e.op = "see" -> v = h[e.a[1]]
         [] e.op \in {"params_alloc", "set_alloc", "alloc"} -> v = Makes(e, <<ParSp(<<>>), ParSp(<<>>)>>)
         [] OTHER -> LET w == Makes(e, Args(e, h)) IN IF w.k = "none" THEN v.k = "none" ELSE v = w
Expected(e, s, h) == IF e.op \in Asks THEN Answer(e, Args(e, h)) ELSE IF e.op \in {"release", "see"} THEN 0
                     ELSE Makes(e, IF e.a = <<>> THEN <<ParSp(<<>>), ParSp(<<>>)>> ELSE Args(e, h))
=============================================================================
