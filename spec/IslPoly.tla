------------------------------ MODULE IslPoly ------------------------------
(* Quasi-polynomials, piecewise and union quasi-polynomials, folds (C08).     *)
(*                                                                           *)
(* The state of a caller is the objects it holds.  A quasi-polynomial is the  *)
(* function it denotes: a finite map from points (tuple, parameter valuation, *)
(* coordinates) to rationals, zero elsewhere.  A fold maps each point of its  *)
(* domain to a set of rationals, and denotes their maximum or minimum.        *)
EXTENDS IslJudge

Keys(v) == DOMAIN v.p \ {"!"}
Key(t, pv, pt) == t \o "|" \o ToString(pv) \o "|" \o ToString(pt)
Zero == <<0, 1>>
PAt(v, k) == IF k \in Keys(v) THEN v.p[k][4] ELSE Zero
One(v) == \A k \in Keys(v) : Len(v.p[k]) = 4           \* one value per point
Same(v, w, D, Op(_)) == One(v) /\ \A k \in Keys(v) \cup D : PAt(v, k) = Op(k)

RECURSIVE QPow(_, _), BestOf(_, _, _)
QPow(q, n) == IF n = 0 THEN Q(1) ELSE QMul(q, QPow(q, n - 1))
(* the largest (t = 1) or smallest (t = 0) of the first n members of a tuple *)
Better(t, a, b) == IF t = 1 THEN QMax(a, b) ELSE QMin(a, b)
BestOf(t, q, n) == IF n = 1 THEN q[1] ELSE Better(t, BestOf(t, q, n - 1), q[n])
Fold(t, q) == BestOf(t, q, Len(q))
FAt(v, k) == Fold(v.t, v.p[k][4])
NoWorse(t, a, b) == IF t = 1 THEN QLe(b, a) ELSE QLe(a, b)   \* a bounds b
RECURSIVE BestIn(_, _)
BestIn(t, Qs) == LET q == CHOOSE q \in Qs : TRUE
                 IN IF Cardinality(Qs) = 1 THEN q ELSE Better(t, q, BestIn(t, Qs \ {q}))

(* what the text denotes at a point (parts are disjoint)                     *)
Points(n, lo, hi) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<i>> : i \in lo..hi}
                     ELSE {<<i, j>> : i \in lo..hi, j \in lo..hi}
PvSeq(s) == s.pvl
ReadOK(e, s, v) ==
  /\ One(v)
  /\ \A i \in DOMAIN e.x.parts : LET pt == e.x.parts[i] IN
       \A k \in DOMAIN PvSeq(s) : \A x \in Points(pt.n, -8, 8) :
          EvalC(pt.c, PvSeq(s)[k], x, <<>>) =>
             PAt(v, Key(pt.tag, k - 1, x)) = EvalE(pt.e, PvSeq(s)[k], x, <<>>)
  /\ \A k \in Keys(v) : PAt(v, k) # Zero =>
       \E i \in DOMAIN e.x.parts : /\ e.x.parts[i].tag = v.p[k][1]
                                   /\ EvalC(e.x.parts[i].c, PvSeq(s)[v.p[k][2] + 1], v.p[k][3], <<>>)

SameFold(v, t, D, Op(_)) == v.t = t /\ Keys(v) = D /\ \A k \in D : FAt(v, k) = Op(k)

(* bounds: rows is a set of <<target key, value>>; never exceeded, and        *)
(* attained for every target when reported tight                             *)
Bounds(v, t, rows, tight) ==
  /\ v.t = t
  /\ \A r \in rows : r[1] \in Keys(v) /\ NoWorse(t, FAt(v, r[1]), r[2])
  /\ tight = 1 => \A k \in {r[1] : r \in rows} : FAt(v, k) = BestIn(t, {r[2] : r \in {z \in rows : z[1] = k}})
Target(w, row) == LET m == w[IF row[1] = "" THEN "!p" ELSE row[1]] IN Key(m[1], row[2], SubSeq(row[3], 1, m[2]))

Judgement(e, s, h) ==
  LET v == e.v
      x == e.x
      A == [i \in DOMAIN e.a |-> h[e.a[i]]]
      a == A[1]
      b == A[2]
      Both == Keys(a) \cup Keys(b)
  IN IF v.k = "err" THEN FALSE
     ELSE CASE e.op = "given" -> TRUE
            [] e.op = "look2" -> v.p = a.p
            [] e.op = "read" -> ReadOK(e, s, v)
            [] e.op = "add" -> Same(v, a, Both, LAMBDA k : QAdd(PAt(a, k), PAt(b, k)))
            [] e.op = "sub" -> Same(v, a, Both, LAMBDA k : QSub(PAt(a, k), PAt(b, k)))
            [] e.op = "mul" -> Same(v, a, Both, LAMBDA k : QMul(PAt(a, k), PAt(b, k)))
            [] e.op = "add_disj" -> Same(v, a, Both, LAMBDA k : IF k \in Keys(a) THEN PAt(a, k) ELSE PAt(b, k))
            [] e.op = "neg" -> Same(v, a, Keys(a), LAMBDA k : QNeg(PAt(a, k)))
            [] e.op = "scale" -> Same(v, a, Keys(a), LAMBDA k : QMul(PAt(a, k), x.q))
            [] e.op = "scale_down" -> Same(v, a, Keys(a), LAMBDA k : QDiv(PAt(a, k), x.q))
            [] e.op = "pow" -> One(v) /\ (\A k \in Keys(a) : PAt(v, k) = QPow(PAt(a, k), x.n))
                               /\ (\A k \in Keys(v) : k \in Keys(a))
            [] e.op = "same" -> IF "t" \in DOMAIN a THEN SameFold(v, a.t, Keys(a), LAMBDA k : FAt(a, k))
                                ELSE Same(v, a, Keys(a), LAMBDA k : PAt(a, k))
            [] e.op = "intersect_domain" -> Same(v, a, Keys(a), LAMBDA k : IF k \in Keys(b) THEN PAt(a, k) ELSE Zero)
            [] e.op = "subtract_domain" -> Same(v, a, Keys(a), LAMBDA k : IF k \in Keys(b) THEN Zero ELSE PAt(a, k))
            [] e.op = "gist" -> \* outside the context, pieces may even overlap
                \A k \in Keys(b) : (k \in Keys(v) => Len(v.p[k]) = 4) /\ PAt(v, k) = PAt(a, k)
            [] e.op = "fix" -> Same(v, a, Keys(a), LAMBDA k : IF a.p[k][3][x.i + 1] = x.v THEN PAt(a, k) ELSE Zero)
            [] e.op = "topoly" -> One(v) /\ (\A k \in Keys(a) :
                                     IF x.s > 0 THEN QLe(PAt(a, k), PAt(v, k))
                                     ELSE IF x.s < 0 THEN QLe(PAt(v, k), PAt(a, k)) ELSE TRUE)
            [] e.op = "eval" -> v.q = PAt(a, x.key)
            [] e.op = "opt" -> v.q = IF Keys(a) = {} THEN Zero ELSE BestIn(x.t, {PAt(a, k) : k \in Keys(a)})
            [] e.op = "is_zero" -> v.b \in {0, 1} /\ (v.b = 1 => \A k \in Keys(a) : PAt(a, k) = Zero)
            [] e.op = "plain_is_equal" -> v.b \in {0, 1} /\ (v.b = 1 => \A k \in Both : PAt(a, k) = PAt(b, k))
            [] e.op = "bound" -> Bounds(v, x.t, {<<Target(x.w, a.p[k]), PAt(a, k)>> : k \in Keys(a)}, v.tight)
                                 /\ (~x.want => v.tight = 0)
            \* folds
            [] e.op = "fold_of" -> SameFold(v, x.t, Keys(a), LAMBDA k : PAt(a, k))
            [] e.op = "fold_fold" -> SameFold(v, a.t, Both, LAMBDA k : IF k \notin Keys(a) THEN FAt(b, k)
                                       ELSE IF k \notin Keys(b) THEN FAt(a, k) ELSE Better(a.t, FAt(a, k), FAt(b, k)))
            [] e.op = "fold_add" -> SameFold(v, a.t, Both, LAMBDA k : IF k \notin Keys(a) THEN FAt(b, k)
                                       ELSE IF k \notin Keys(b) THEN FAt(a, k) ELSE QAdd(FAt(a, k), FAt(b, k)))
            [] e.op = "fold_addqp" -> SameFold(v, a.t, Both, LAMBDA k : IF k \notin Keys(a) THEN PAt(b, k)
                                       ELSE IF k \notin Keys(b) THEN FAt(a, k) ELSE QAdd(FAt(a, k), PAt(b, k)))
            [] e.op = "fscale" -> SameFold(v, IF x.q[1] < 0 THEN 1 - a.t ELSE a.t, Keys(a), LAMBDA k : QMul(FAt(a, k), x.q))
            [] e.op = "fscale_down" -> SameFold(v, IF x.q[1] < 0 THEN 1 - a.t ELSE a.t, Keys(a), LAMBDA k : QDiv(FAt(a, k), x.q))
            [] e.op = "fintersect_domain" -> SameFold(v, a.t, Keys(a) \cap Keys(b), LAMBDA k : FAt(a, k))
            [] e.op = "fsubtract_domain" -> SameFold(v, a.t, Keys(a) \ Keys(b), LAMBDA k : FAt(a, k))
            [] e.op = "fgist" -> v.t = a.t /\ \A k \in Keys(b) \cap Keys(a) : k \in Keys(v) /\ FAt(v, k) = FAt(a, k)
            [] e.op = "fsame" -> SameFold(v, a.t, Keys(a), LAMBDA k : FAt(a, k))
            [] e.op = "feval" -> v.q = IF x.key \in Keys(a) THEN FAt(a, x.key) ELSE Zero
            [] e.op = "fplain_is_equal" -> v.b \in {0, 1} /\
                  (v.b = 1 => (Keys(a) = {} \/ a.t = b.t) /\ Keys(a) = Keys(b) /\ \A k \in Keys(a) : FAt(a, k) = FAt(b, k))
            [] e.op = "fopt" -> v.q = IF Keys(a) = {} THEN Zero ELSE BestIn(x.t, {FAt(a, k) : k \in Keys(a)})
            [] e.op = "apply_s" -> Bounds(v, b.t, {<<Key("", b.p[k][2], <<>>), FAt(b, k)>> : k \in Keys(a) \cap Keys(b)}, v.tight)
            [] e.op = "apply_m" ->
                 LET Hit(p) == LET r == a.p[p[1]] IN r[1] = x.tag /\ EvalC(x.c, PvSeq(s)[r[2] + 1], <<p[2]>> \o r[3], <<>>)
                 IN Bounds(v, a.t, {<<Key(x.rt, a.p[p[1]][2], <<p[2]>>), FAt(a, p[1])>> :
                                      p \in {z \in Keys(a) \X (x.lo..x.hi) : Hit(z)}}, v.tight)
Expected(e, s, h) == <<ArgsOf(e, h)>>
=============================================================================
