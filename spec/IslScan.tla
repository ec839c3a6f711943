------------------------------ MODULE IslScan ------------------------------
(* Points (C06): sampling, enumeration, counting, and points as values.      *)
(* A point value: [k |-> "pt", void, v (parameters), x (the tuple)].         *)
EXTENDS IslJudge, IslGen

PtOf(p) == <<p.v, p.x>>
SeqSet(sq) == {sq[i] : i \in DOMAIN sq}
SampleOK(S, p) == IF p.void = 1 THEN S = {} ELSE PtOf(p) \in S
VisitOK(S, v) == /\ Len(v.l) = Cardinality(SeqSet(v.l))
                 /\ IF v.stop = 0 THEN v.st = 0 /\ {PtOf(p) : p \in SeqSet(v.l)} = S
                    ELSE {PtOf(p) : p \in SeqSet(v.l)} \subseteq S /\
                         (IF Cardinality(S) >= v.stop THEN v.st = -1 /\ Len(v.l) = v.stop
                          ELSE v.st = 0 /\ Len(v.l) = Cardinality(S))

(* generated: V x in [lo, hi], congruent to r modulo m where m > 0 *)
RowOf(V, i, c) == LET RECURSIVE Go(_)
                      Go(j) == IF j > Len(c) THEN 0 ELSE V[i][j] * c[j] + Go(j + 1)
                  IN Go(1)
InGen(x, c) == \A i \in 1..Len(x.lo) :
                 LET t == RowOf(x.v, i, c)
                 IN /\ (IsFin(x.lo[i]) => t >= x.lo[i][1])
                    /\ (IsFin(x.hi[i]) => t <= x.hi[i][1])
                    /\ (x.m[i] > 0 => (t - x.r[i]) % x.m[i] = 0)
NoSlot(x, i) == IF IsFin(x.lo[i]) /\ IsFin(x.hi[i])
                THEN ~\E t \in x.lo[i][1]..x.hi[i][1] : (x.m[i] > 0 => (t - x.r[i]) % x.m[i] = 0)
                ELSE FALSE
GenNone(x) == \E i \in DOMAIN x.lo : NoSlot(x, i)
SlotCount(x, i) == Cardinality({t \in x.lo[i][1]..x.hi[i][1] : (x.m[i] > 0 => (t - x.r[i]) % x.m[i] = 0)})
RECURSIVE SlotProd(_, _)
SlotProd(x, i) == IF i > Len(x.lo) THEN 1 ELSE SlotCount(x, i) * SlotProd(x, i + 1)
GenCount(x) == IF GenNone(x) THEN Q(0)
               ELSE Q(SlotProd(x, 1))
GenUnbounded(x) == \E i \in DOMAIN x.lo : ~IsFin(x.lo[i]) \/ ~IsFin(x.hi[i])

(* points as values *)
Put(c, i, n) == [c EXCEPT ![i + 1] = n]
PtStep(x) == CASE x.q = "set" -> (IF x.t = "param" THEN [x.pt EXCEPT !.v = Put(x.pt.v, x.i, x.n)]
                                  ELSE [x.pt EXCEPT !.x = Reshape(x.pt.x, Put(Flat(x.pt.x), x.i, x.n))])
               [] x.q = "add" -> (IF x.t = "param" THEN [x.pt EXCEPT !.v = Put(x.pt.v, x.i, x.pt.v[x.i + 1] + x.n)]
                                  ELSE [x.pt EXCEPT !.x = Reshape(x.pt.x, Put(Flat(x.pt.x), x.i, Flat(x.pt.x)[x.i + 1] + x.n))])
               [] x.q = "sub" -> (IF x.t = "param" THEN [x.pt EXCEPT !.v = Put(x.pt.v, x.i, x.pt.v[x.i + 1] - x.n)]
                                  ELSE [x.pt EXCEPT !.x = Reshape(x.pt.x, Put(Flat(x.pt.x), x.i, Flat(x.pt.x)[x.i + 1] - x.n))])
Between(a, b, c) == (a <= c /\ c <= b) \/ (b <= c /\ c <= a)
(* every point between two corners, parameters included, among those listed *)
BoxSet(x, PV) == LET a == Flat(x.a.x)
                     b == Flat(x.b.x)
                     lo == [i \in 1..Len(a) |-> IF a[i] < b[i] THEN a[i] ELSE b[i]]
                     hi == [i \in 1..Len(a) |-> IF a[i] < b[i] THEN b[i] ELSE a[i]]
                     RECURSIVE All(_)
                     All(i) == IF i > Len(a) THEN {<<>>} ELSE {<<c>> \o r : c \in lo[i]..hi[i], r \in All(i + 1)}
                 IN IF x.a.void = 1 /\ x.b.void = 1 THEN {}
                    \* a box around nothing and a point is the point
                    ELSE IF x.a.void = 1 THEN {PtOf(x.b)} \cap {<<w, x.b.x>> : w \in PV}
                    ELSE IF x.b.void = 1 THEN {PtOf(x.a)} \cap {<<w, x.a.x>> : w \in PV}
                    ELSE {<<v, Reshape(x.a.x, c)>> : v \in {w \in PV : \A i \in 1..Len(w) : Between(x.a.v[i], x.b.v[i], w[i])}, c \in All(1)}

Judgement(e, s, h) ==
  LET A == ArgsOf(e, h)
      v == Value(e.v)
      x == e.x
  IN CASE v.k = "big" -> TRUE
       \* there is no counting what has no bound
       [] (e.op = "gen_count" /\ GenUnbounded(x)) -> (v.k = "err" \/ (IF GenNone(x) THEN v.q = Q(0) ELSE v.q = Inf))
       [] v.k = "err" -> FALSE
       [] e.op = "sample_pt" -> SampleOK(A[1].p, v)
       [] e.op = "sample" -> v.p \subseteq A[1].p /\ Cardinality(v.p) <= 1 /\ (v.p = {} <=> A[1].p = {})
       [] e.op = "visit" -> VisitOK(A[1].p, v)
       [] e.op = "count" -> v.q = Q(Cardinality(A[1].p))
       [] e.op = "gen_sample" -> IF v.void = 1 THEN GenNone(x) ELSE InGen(x, Flat(v.x))
       [] e.op = "gen_empty" -> (v.b = 1) = GenNone(x)
       [] e.op = "gen_count" -> v.q = GenCount(x)
       [] e.op = "pt_step" -> v.void = 0 /\ PtOf(v) = PtOf(PtStep(x))
       [] e.op = "pt_get" -> v.q = (IF x.pt.void = 1 THEN NaN ELSE Q((IF x.t = "param" THEN x.pt.v ELSE Flat(x.pt.x))[x.i + 1]))
       [] e.op = "pt_void" -> v.b = x.pt.void
       [] e.op = "pt_mv" -> v.q = [i \in 1..Len(Flat(x.pt.x)) |-> IF x.pt.void = 1 THEN NaN ELSE Q(Flat(x.pt.x)[i])]
       [] e.op = "pt_set" -> v.p = (IF x.pt.void = 1 THEN {} ELSE {PtOf(x.pt)} \cap {<<w, x.pt.x>> : w \in s.pv})
       [] e.op = "pt_box" -> v.p = BoxSet(x, s.pv)
Expected(e, s, h) == IF e.a = <<>> THEN e.x ELSE ArgsOf(e, h)
=============================================================================
