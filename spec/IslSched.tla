------------------------------ MODULE IslSched ------------------------------
(* Programs and schedules.  A program is a list of statements, each with a   *)
(* name, a box and a condition; an instance is <<name, coordinates>>.  A     *)
(* schedule assigns every instance a time, a sequence of entries <<o, t>>:   *)
(* o = 0, ordered by t; o = 1, a choice of unordered alternatives.           *)
EXTENDS IslExpr, FiniteSets

RECURSIVE BoxPts(_)
BoxPts(rg) == IF rg = <<>> THEN {<<>>}
              ELSE LET f == SubSeq(rg, 1, Len(rg) - 1)
                   IN {Append(x, k) : x \in BoxPts(f), k \in rg[Len(rg)][1]..rg[Len(rg)][2]}
InstOf(st, v) == {<<st.n, x>> : x \in {y \in BoxPts(st.rg) : EvalC(st.c, v, y, <<>>)}}
Insts(P, v) == UNION {InstOf(P[i], v) : i \in DOMAIN P}

(* the entry of a per-statement list that speaks about instance x *)
For(L, x) == {i \in DOMAIN L : L[i].s = x[1]}
Ints(E, v, x) == [j \in 1..Len(E) |-> EvalE(E[j], v, x[2], <<>>)[1]]
Entries(c) == [j \in 1..Len(c) |-> <<0, c[j]>>]

(* a schedule map: instances it says nothing about are not scheduled *)
MapTimes(L, v, x) == {Entries(Ints(L[i].e, v, x)) : i \in {j \in For(L, x) : EvalC(L[j].c, v, x[2], <<>>)}}

(* a schedule tree: the times of an instance that reaches node t *)
InFilter(f, v, x) == \E i \in For(f, x) : EvalC(f[i].c, v, x[2], <<>>)
MemberVal(row, v, x) == EvalE(row[CHOOSE i \in For(row, x) : TRUE].e, v, x[2], <<>>)[1]
RECURSIVE TreeTimes(_, _, _)
TreeTimes(t, v, x) ==
  CASE t.t = "leaf" -> {<<>>}
    [] t.t = "band" -> LET b == [j \in 1..Len(t.m) |-> <<0, MemberVal(t.m[j], v, x)>>]
                       IN {b \o r : r \in TreeTimes(t.k, v, x)}
    [] t.t \in {"seq", "set"} -> UNION {{<< <<IF t.t = "set" THEN 1 ELSE 0, i>> >> \o r : r \in TreeTimes(t.l[i].k, v, x)}
                                         : i \in {j \in DOMAIN t.l : InFilter(t.l[j].f, v, x)}}
    [] t.t = "mark" -> TreeTimes(t.k, v, x)
    [] t.t = "filter" -> IF InFilter(t.f, v, x) THEN TreeTimes(t.k, v, x) ELSE {}
    [] t.t = "drop" -> {}

RECURSIVE HasSet(_)
HasSet(t) == \/ t.t = "set"
             \/ "k" \in DOMAIN t /\ HasSet(t.k)
             \/ "l" \in DOMAIN t /\ \E i \in DOMAIN t.l : HasSet(t.l[i].k)

Times(sch, v, x) == CASE sch.k = "map" -> MapTimes(sch.m, v, x)
                      [] sch.k = "tree" -> TreeTimes(sch.t, v, x)

(* strictly earlier: the first difference is between ordered entries *)
RECURSIVE BeforeFrom(_, _, _)
BeforeFrom(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN FALSE
                       ELSE IF a[i] = b[i] THEN BeforeFrom(a, b, i + 1)
                       ELSE a[i][1] = 0 /\ b[i][1] = 0 /\ a[i][2] < b[i][2]
TBefore(a, b) == BeforeFrom(a, b, 1)
=============================================================================
