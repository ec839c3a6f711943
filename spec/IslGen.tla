------------------------------- MODULE IslGen -------------------------------
(* Polyhedra given by unimodular images of boxes that may be unbounded.      *)
EXTENDS IslVal

(* A polyhedron without bounds: the points U t with lo[i] <= t[i] <= hi[i],   *)
(* where a bound may be infinite (as extended rationals).  cu: the objective *)
(* in terms of t.                                                            *)
GenEmpty(x) == \E i \in DOMAIN x.lo : QLt(x.hi[i], x.lo[i])
RECURSIVE SumQ(_, _)
SumQ(s, i) == IF i > Len(s) THEN Q(0) ELSE QAdd(s[i], SumQ(s, i + 1))
GenOpt(x) == IF GenEmpty(x) THEN NaN
             ELSE LET best == [i \in 1..Len(x.cu) |->
                       IF x.cu[i] = 0 THEN Q(0)
                       ELSE QMul(Q(x.cu[i]), IF (x.cu[i] > 0) = (x.o = "max") THEN x.hi[i] ELSE x.lo[i])]
                  IN QAdd(Q(x.k), SumQ(best, 1))
GenBounded(x) == GenEmpty(x) \/ \A i \in DOMAIN x.lo : IsFin(x.lo[i]) /\ IsFin(x.hi[i])
=============================================================================
