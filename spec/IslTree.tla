------------------------------ MODULE IslTree -------------------------------
(* Schedule trees over a numbered universe of instances, one table per       *)
(* parameter value (index k): domain and filter nodes list the instances,    *)
(* band nodes give the value of every instance.                              *)
EXTENDS Integers, Sequences, FiniteSets

Elems(s) == {s[i] : i \in DOMAIN s}

(* the times of instance i at node t: entries <<0, n>> are ordered by n,     *)
(* entries <<1, n>> are unordered alternatives                               *)
RECURSIVE TT(_, _, _)
TT(t, k, i) ==
  CASE t.t = "leaf" -> {<<>>}
    [] t.t = "domain" -> IF i \in Elems(t.d[k]) THEN TT(t.k, k, i) ELSE {}
    [] t.t = "band" -> IF Len(t.m[k][i]) # t.n THEN {}
                       ELSE LET b == [j \in 1..t.n |-> <<0, t.m[k][i][j]>>] IN {b \o r : r \in TT(t.k, k, i)}
    [] t.t = "filter" -> IF i \in Elems(t.f[k]) THEN TT(t.k, k, i) ELSE {}
    [] t.t \in {"seq", "set"} -> UNION {{<< <<IF t.t = "set" THEN 1 ELSE 0, j>> >> \o r : r \in TT(t.l[j], k, i)} : j \in DOMAIN t.l}
    [] t.t \in {"mark", "guard", "context"} -> TT(t.k, k, i)
    [] OTHER -> {}

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN FALSE
                   ELSE IF a[i] = b[i] THEN LtFrom(a, b, i + 1)
                   ELSE a[i][1] = 0 /\ b[i][1] = 0 /\ a[i][2] < b[i][2]
TLt(a, b) == LtFrom(a, b, 1)
=============================================================================
