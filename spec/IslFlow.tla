------------------------------ MODULE IslFlow -------------------------------
(* Dataflow (C12).  An access problem: a program, a schedule, the accesses   *)
(* of the sink, of must- and may-sources and of kills.  Which source may or  *)
(* must have made the value a sink reads follows from running the program.   *)
EXTENDS IslJudge
SC == INSTANCE IslSched

AccOf(P, a, v) == LET st == P[CHOOSE i \in DOMAIN P : P[i].n = a.s]
                  IN {<<x, <<a.a, SC!Ints(a.ix, v, x)>>>> : x \in {y \in SC!InstOf(st, v) : SC!EvalC(a.c, v, y[2], <<>>)}}
(* accesses of scheduled instances, with their times *)
Acc(x, L, v) == LET all == UNION {AccOf(x.P, L[i], v) : i \in DOMAIN L}
                IN UNION {{<<a[1], a[2], t>> : t \in SC!Times(x.sch, v, a[1])} : a \in all}
Bef(a, b) == SC!TBefore(a[3], b[3])

Common(a, b) == CHOOSE n \in {m \in 0..Len(a) : m <= Len(b)} :
                  SubSeq(a, 1, n) = SubSeq(b, 1, n) /\ (n = Len(a) \/ n = Len(b) \/ a[n + 1] # b[n + 1])

(* everything about one parameter value *)
Flow(x, v) ==
  LET S == Acc(x, x.sink, v)
      M == Acc(x, x.must, v)
      W == Acc(x, x.may, v)
      K == Acc(x, x.kill, v)
      On(A, e) == {a \in A : a[2] = e}
      (* the last accesses of every kind: nothing definite between them and the sink *)
      Last == UNION {{<<a, s>> : a \in {b \in On(M \cup W \cup K, s[2]) :
                        Bef(b, s) /\ ~\E k \in On(M \cup K, s[2]) : Bef(b, k) /\ Bef(k, s)}} : s \in S}
      (* nothing may happen between a and the sink in some order of execution without
         being known to come after a: something at the same time, or in another child
         of a set node that holds a but not the sink *)
      Alone(p) == \A b \in On(M \cup W \cup K, p[1][2]) :
                     b[1] = p[1][1] \/ Bef(p[1], b) \/ Bef(b, p[1]) \/ Common(p[1][3], b[3]) <= Common(p[1][3], p[2][3])
      Must == {p \in Last : p[1] \in M /\ Alone(p) /\ ~\E w \in On(W \ (M \cup K), p[1][2]) : Bef(p[1], w) /\ Bef(w, p[2])}
      Def == {<<a, s>> \in (M \cup K) \X S : a[2] = s[2] /\ Bef(a, s)}
      May == {p \in Last : p[1] \in M \cup W}
      Dep(D) == {<<v, p[1][1], p[2][1]>> : p \in D}
      Full(D) == {<<v, p[1][1], Pair(p[2][1], p[2][2])>> : p \in D}
      Left(D) == {<<v, s[1], s[2]>> : s \in {q \in S : ~\E p \in D : p[2] = q}}
  IN [may |-> Dep(May), must |-> Dep(Must), fmay |-> Full(May), fmust |-> Full(Must),
      (* no access precedes; no must access precedes (kills included) *)
      omust |-> Dep(Must), omay |-> Dep(May \ Must), onomust |-> Left(Last),
      onomay |-> Left(Def) \ Left(Last),
      nomust |-> Left(Last), nomay |-> Left(Def),
      all |-> Dep({<<a, s>> \in (M \cup W) \X S : a[2] = s[2] /\ Bef(a, s)})]
FlowKinds == {"may", "must", "fmay", "fmust", "nomust", "nomay", "omust", "omay", "onomust", "onomay"}

AllFlow(x, PV) == [q \in FlowKinds \cup {"all"} |-> UNION {Flow(x, v)[q] : v \in PV}]

Judgement(e, s, h) ==
  LET v == e.v
  IN IF v.k = "err" THEN FALSE
     ELSE LET F == AllFlow(e.x, s.pv)
              G(q) == {v[q][i] : i \in DOMAIN v[q]}
          IN \A q \in FlowKinds \cap DOMAIN v :
               \/ G(q) = F[q]
               (* the order inside other children of a set node is not taken into account *)
               \/ q = "may" /\ e.x.sch.k = "tree" /\ SC!HasSet(e.x.sch.t) /\ F[q] \subseteq G(q) /\ G(q) \subseteq F.all
               \/ q = "fmay" /\ e.x.sch.k = "tree" /\ SC!HasSet(e.x.sch.t) /\ F[q] \subseteq G(q)
Expected(e, s, h) == AllFlow(e.x, s.pv)
=============================================================================
