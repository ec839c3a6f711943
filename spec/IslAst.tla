------------------------------- MODULE IslAst -------------------------------
(* AST generation (C11): executing the generated program visits exactly the  *)
(* scheduled instances, each as often as the schedule gives it a time, in an *)
(* order that respects the schedule.                                         *)
EXTENDS IslJudge
SC == INSTANCE IslSched
AR == INSTANCE IslAstRun

ParamEnv(s, v) == [n \in {s.names[i] : i \in DOMAIN s.names} |-> v[CHOOSE i \in DOMAIN s.names : s.names[i] = n]]
Visits(x, s, v) == AR!Run(x.ast, ParamEnv(s, v))

(* the time of position p: the k-th visit of an instance has its k-th time *)
TimeOf(tr, p, T) ==
  LET k == Cardinality({q \in 1..p : tr[q] = tr[p]})
  IN CHOOSE t \in T : Cardinality({u \in T : u = t \/ SC!TBefore(u, t)}) = k

OrderOK(x, s, v, tr) ==
  LET ti == [p \in 1..Len(tr) |-> TimeOf(tr, p, SC!Times(x.sch, v, tr[p]))]
  IN IF x.sch.k = "tree" THEN \A p \in 1..Len(tr) : \A q \in 1..(p - 1) : ~SC!TBefore(ti[p], ti[q])
     ELSE \A p \in 2..Len(tr) : ~SC!TBefore(ti[p], ti[p - 1])

RunOK(x, s, v) ==
  LET I == SC!Insts(x.P, v)
      tr == Visits(x, s, v)
      pos == 1..Len(tr)
  IN /\ \A p \in pos : tr[p] \in I
     /\ \A i \in I : Cardinality({p \in pos : tr[p] = i}) = Cardinality(SC!Times(x.sch, v, i))
     /\ OrderOK(x, s, v, tr)

PVof(x, s) == {v \in s.pv : SC!EvalC(x.ctx, v, <<>>, <<>>)}
Judgement(e, s, h) ==
  LET x == [e.x EXCEPT !.ast = e.v.ast]
  IN IF e.v.k = "err" THEN FALSE ELSE \A v \in PVof(x, s) : RunOK(x, s, v)
Expected(e, s, h) ==
  {<<v, {<<i, SC!Times(e.x.sch, v, i)>> : i \in SC!Insts(e.x.P, v)},
     IF e.v.k = "err" THEN <<>> ELSE Visits([e.x EXCEPT !.ast = e.v.ast], s, v)>> : v \in PVof(e.x, s)}
=============================================================================
