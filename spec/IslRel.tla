------------------------------- MODULE IslRel -------------------------------
(* The definitions of isl's set and relation operations, on point sets.      *)
(* S, T range over sets of elements <<v, x>>; R, Q over <<v, x, y>>.         *)
EXTENDS IslPoint

(* ---- between kinds ---- *)
Dom(R)       == {<<r[1], r[2]>> : r \in R}
Ran(R)       == {<<r[1], r[3]>> : r \in R}
ParamsOf(A)  == {<<a[1]>> : a \in A}
Reverse(R)   == {<<r[1], r[3], r[2]>> : r \in R}
Wrap(R)      == {<<r[1], Pair(r[2], r[3])>> : r \in R}
Unwrap(S)    == {<<s[1], s[2][2], s[2][3]>> : s \in S}
Identity(S)  == {<<s[1], s[2], s[2]>> : s \in S}
DomainMap(R) == {<<r[1], Pair(r[2], r[3]), r[2]>> : r \in R}
RangeMap(R)  == {<<r[1], Pair(r[2], r[3]), r[3]>> : r \in R}
WrappedDomainMap(S) == {<<s[1], s[2], s[2][2]>> : s \in S}

(* ---- restriction ---- *)
InterDom(R, S)   == {r \in R : <<r[1], r[2]>> \in S}
InterRan(R, S)   == {r \in R : <<r[1], r[3]>> \in S}
InterPar(A, P)   == {a \in A : <<a[1]>> \in P}
SubDom(R, S)     == {r \in R : <<r[1], r[2]>> \notin S}
SubRan(R, S)     == {r \in R : <<r[1], r[3]>> \notin S}
(* a factor of the domain/range, given as a relation between factors *)
InterDomWrDom(R, S) == {r \in R : <<r[1], r[2][2]>> \in S}
InterRanWrDom(R, S) == {r \in R : <<r[1], r[3][2]>> \in S}
InterDomFacDom(R, Q) == {r \in R : <<r[1], r[2][2], r[3]>> \in Q}
InterDomFacRan(R, Q) == {r \in R : <<r[1], r[2][3], r[3]>> \in Q}
InterRanFacDom(R, Q) == {r \in R : <<r[1], r[2], r[3][2]>> \in Q}
InterRanFacRan(R, Q) == {r \in R : <<r[1], r[2], r[3][3]>> \in Q}
InterFacDom(S, T)    == {s \in S : <<s[1], s[2][2]>> \in T}
InterFacRan(S, T)    == {s \in S : <<s[1], s[2][3]>> \in T}

(* ---- composition ---- *)
Joins(A, i, B, j) == {ab \in A \X B : ab[1][1] = ab[2][1] /\ ab[1][i] = ab[2][j]}
SameV(A, B)       == {ab \in A \X B : ab[1][1] = ab[2][1]}
ApplySet(S, R)   == {<<p[1][1], p[2][3]>> : p \in Joins(S, 2, R, 2)}
ApplyRange(R, Q) == {<<p[1][1], p[1][2], p[2][3]>> : p \in Joins(R, 3, Q, 2)}
ApplyDomain(R, Q) == {<<p[1][1], p[2][3], p[1][3]>> : p \in Joins(R, 2, Q, 2)}

(* ---- products ---- *)
ProductS(S, T)   == {<<p[1][1], Pair(p[1][2], p[2][2])>> : p \in SameV(S, T)}
ProductR(R, Q)   == {<<p[1][1], Pair(p[1][2], p[2][2]), Pair(p[1][3], p[2][3])>> : p \in SameV(R, Q)}
DomProduct(R, Q) == {<<p[1][1], Pair(p[1][2], p[2][2]), p[1][3]>> : p \in Joins(R, 3, Q, 3)}
RanProduct(R, Q) == {<<p[1][1], p[1][2], Pair(p[1][3], p[2][3])>> : p \in Joins(R, 2, Q, 2)}
DRProduct(S, T)  == {<<p[1][1], p[1][2], p[2][2]>> : p \in SameV(S, T)}
FactorDom(R)     == {<<r[1], r[2][2], r[3][2]>> : r \in R}
FactorRan(R)     == {<<r[1], r[2][3], r[3][3]>> : r \in R}
DomFacDom(R)     == {<<r[1], r[2][2], r[3]>> : r \in R}
DomFacRan(R)     == {<<r[1], r[2][3], r[3]>> : r \in R}
RanFacDom(R)     == {<<r[1], r[2], r[3][2]>> : r \in R}
RanFacRan(R)     == {<<r[1], r[2], r[3][3]>> : r \in R}

(* ---- restructuring ---- *)
(* [A -> B] -> C  <->  A -> [B -> C] *)
Curry(R)      == {<<r[1], r[2][2], Pair(r[2][3], r[3])>> : r \in R}
Uncurry(R)    == {<<r[1], Pair(r[2], r[3][2]), r[3][3]>> : r \in R}
(* A -> [[B -> C] -> D]  ->  A -> [B -> [C -> D]] *)
RangeCurry(R) == {<<r[1], r[2], <<r[3][1], r[3][2][2], Pair(r[3][2][3], r[3][3])>>>> : r \in R}
Zip(R)        == {<<r[1], Pair(r[2][2], r[3][2]), Pair(r[2][3], r[3][3])>> : r \in R}
(* the name of the wrapped range survives only when its two tuples are equal *)
RevName(s) == IF s[2] = s[3] THEN s[1] ELSE ""
RangeReverse(R) == {<<r[1], r[2], <<RevName(ShapeOf(r[3])), r[3][3], r[3][2]>>>> : r \in R}
FlatPt(x)     == IF IsPair(x) THEN <<"", Flat(x)>> ELSE x
FlatShape(s)  == IF IsPair(s) THEN <<"", Size(s)>> ELSE s
FlattenS(S)   == {<<s[1], FlatPt(s[2])>> : s \in S}
FlattenMap(S) == {<<s[1], s[2], FlatPt(s[2])>> : s \in S}
FlattenR(R)   == {<<r[1], FlatPt(r[2]), FlatPt(r[3])>> : r \in R}
FlattenDom(R) == {<<r[1], FlatPt(r[2]), r[3]>> : r \in R}
FlattenRan(R) == {<<r[1], r[2], FlatPt(r[3])>> : r \in R}

(* ---- arithmetic on tuples ---- *)
Deltas(R)    == {<<r[1], Reshape(r[3], DiffSeq(Flat(r[3]), Flat(r[2])))>> : r \in R}
DeltasMap(R) == {<<r[1], Pair(r[2], r[3]), Reshape(r[3], DiffSeq(Flat(r[3]), Flat(r[2])))>> : r \in R}
SumR(R, Q)   == {<<p[1][1], p[1][2], Reshape(p[1][3], AddSeq(Flat(p[1][3]), Flat(p[2][3])))>> :
                  p \in Joins(R, 2, Q, 2)}
SumS(S, T)   == {<<p[1][1], Reshape(p[1][2], AddSeq(Flat(p[1][2]), Flat(p[2][2])))>> : p \in SameV(S, T)}
NegS(S)      == {<<s[1], Reshape(s[2], NegSeq(Flat(s[2])))>> : s \in S}
NegR(R)      == {<<r[1], r[2], Reshape(r[3], NegSeq(Flat(r[3])))>> : r \in R}
FloorSeq(c, d) == [i \in 1..Len(c) |-> FloorDiv(c[i], d)]
FloorDivR(R, d) == {<<r[1], r[2], Reshape(r[3], FloorSeq(Flat(r[3]), d))>> : r \in R}
TranslationS(S) == {<<s[1], s[2], s[2]>> : s \in S}

(* ---- lexicographic order relations ---- *)
Cmp(o, a, b) == CASE o = "lt" -> LexLt(a, b) [] o = "le" -> LexLe(a, b)
                  [] o = "gt" -> LexLt(b, a) [] o = "ge" -> LexLe(b, a)
                  [] o = "eq" -> a = b
LexSet(o, S, T) == {<<p[1][1], p[1][2], p[2][2]>> :
                     p \in {q \in SameV(S, T) : ShapeOf(q[1][2]) = ShapeOf(q[2][2])
                                                /\ Cmp(o, Flat(q[1][2]), Flat(q[2][2]))}}
(* pairs of domain elements whose images are so ordered *)
LexMap(o, R, Q) == {<<p[1][1], p[1][2], p[2][2]>> :
                     p \in {q \in SameV(R, Q) : ShapeOf(q[1][3]) = ShapeOf(q[2][3])
                                                /\ Cmp(o, Flat(q[1][3]), Flat(q[2][3]))}}

(* ---- one coordinate; t is "param", "in", "out" (sets: "set") ---- *)
Coord(e, t, i) == CASE t = "param" -> e[1][i + 1]
                    [] t = "in" -> Flat(e[2])[i + 1]
                    [] t = "out" -> Flat(e[3])[i + 1]
                    [] t = "set" -> Flat(e[2])[i + 1]
Which(A, c(_)) == {a \in A : c(a)}

(* replace the tuple of kind t by the leaf with coordinates c *)
WithTuple(e, t, x) == CASE t \in {"in", "set"} -> IF Len(e) = 2 THEN <<e[1], x>> ELSE <<e[1], x, e[3]>>
                        [] t = "out" -> <<e[1], e[2], x>>
TupleOf(e, t) == CASE t \in {"in", "set"} -> e[2] [] t = "out" -> e[3]

(* dropping coordinates leaves an unnamed flat tuple *)
ProjectOut(A, t, first, n) ==
  {WithTuple(a, t, <<"", DropRange(Flat(TupleOf(a, t)), first, n)>>) : a \in A}
(* a removed parameter leaves the elements for all its values *)
ProjectParam(A, i, PV) ==
  LET same(v, w) == \A j \in 1..Len(v) : j # i => v[j] = w[j]
  IN UNION {{ [a EXCEPT ![1] = v] : v \in {w \in PV : same(a[1], w)} } : a \in A}
InsertDims(A, t, pos, n, Vals) ==
  {WithTuple(ai[1], t, <<"", InsertAt0(Flat(TupleOf(ai[1], t)), pos, ai[2])>>) :
     ai \in A \X [1..n -> Vals]}
MoveDims(R, dt, dp, st, sp, n) ==
  LET mv(e) == LET ins == TakeRange(Flat(TupleOf(e, st)), sp, n)
                   e1 == WithTuple(e, st, <<"", DropRange(Flat(TupleOf(e, st)), sp, n)>>)
               IN WithTuple(e1, dt, <<"", InsertAt0(Flat(TupleOf(e1, dt)), dp, ins)>>)
  IN {mv(e) : e \in R}

(* ---- extrema ---- *)
LexOptS(o, S) == {s \in S : \A t \in S :
                    (t[1] = s[1] /\ ShapeOf(t[2]) = ShapeOf(s[2])) =>
                       IF o = "min" THEN LexLe(Flat(s[2]), Flat(t[2])) ELSE LexLe(Flat(t[2]), Flat(s[2]))}
LexOptR(o, R) == {s \in R : \A t \in R :
                    (t[1] = s[1] /\ t[2] = s[2] /\ ShapeOf(t[3]) = ShapeOf(s[3])) =>
                       IF o = "min" THEN LexLe(Flat(s[3]), Flat(t[3])) ELSE LexLe(Flat(t[3]), Flat(s[3]))}

(* ---- predicates ---- *)
SingleValued(R) == \A r \in R, q \in R : (r[1] = q[1] /\ r[2] = q[2]) => r[3] = q[3]
Injective(R)    == \A r \in R, q \in R : (r[1] = q[1] /\ r[3] = q[3]) => r[2] = q[2]
Bijective(R)    == SingleValued(R) /\ Injective(R)

(* ---- closure ---- *)
RECURSIVE Closure(_)
Closure(R) == LET R2 == R \cup ApplyRange(R, R) IN IF R2 = R THEN R ELSE Closure(R2)
RECURSIVE Power(_, _)
Power(R, k) == IF k = 1 THEN R ELSE ApplyRange(Power(R, k - 1), R)
=============================================================================
