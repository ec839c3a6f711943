---------------------------- MODULE IslSchedule -----------------------------
(* The scheduler (C13).  x.dom[k] lists the (numbered) instances for         *)
(* parameter value k; x.val[k], x.coin[k], x.cond[k], x.cval[k] the pairs of *)
(* instances related by the constraints.                                     *)
EXTENDS IslJudge
TR == INSTANCE IslTree
SC == INSTANCE IslSched

(* nothing can be executed before itself: such pairs say nothing              *)
(* the pairs of the conditional validity constraints that matter: those      *)
(* with an adjacent condition between different instances                    *)
AdjTo(x, k, p) == {q \in TR!Elems(x.cond[k]) : \/ q[2] = p[1] /\ x.tags[2] = x.tags[3]
                                               \/ q[1] = p[2] /\ x.tags[1] = x.tags[4]}

RECURSIVE LexNonNeg(_, _)
LexNonNeg(d, j) == j > Len(d) \/ d[j] > 0 \/ (d[j] = 0 /\ LexNonNeg(d, j + 1))

(* S: the instances that reach node t with the same outer times.  Within a   *)
(* band a conditional validity constraint is respected unless all its        *)
(* conditions are local there.                                               *)
(* Promises of bands and the conditional validity constraints.               *)
RECURSIVE Node(_, _, _, _, _, _)
Node(x, k, t, S, cv, ad) ==
  LET both(p) == p[1] \in S /\ p[2] \in S
      (* p may be violated here only when all its conditions are local *)
      local(p, same(_, _)) == \A q \in ad[p] : both(q) => same(q[1], q[2])
  IN CASE t.t = "band" ->
            LET m == t.m[k]
                dist(p) == [j \in 1..t.n |-> m[p[2]][j] - m[p[1]][j]]
                same(a, b) == m[a] = m[b]
                pos(p) == \A j \in 1..t.n : m[p[2]][j] >= m[p[1]][j]
            IN /\ \A i \in S : Len(m[i]) = t.n
               /\ \A p \in TR!Elems(x.coin[k]) : both(p) => \A j \in 1..t.n : t.coin[j] = 1 => m[p[1]][j] = m[p[2]][j]
               /\ t.perm = 1 => \A p \in TR!Elems(x.val[k]) : both(p) => pos(p)
               /\ \A p \in cv : both(p) => (IF t.perm = 1 THEN pos(p) ELSE LexNonNeg(dist(p), 1)) \/ local(p, same)
               /\ \A c \in {m[i] : i \in S} : Node(x, k, t.k, {i \in S : m[i] = c}, cv, ad)
       [] t.t \in {"seq", "set"} ->
            \A j \in DOMAIN t.l : Node(x, k, t.l[j].k, S \cap TR!Elems(t.l[j].f[k]), cv, ad)
       [] t.t = "leaf" -> TRUE
       [] OTHER -> Node(x, k, t.k, S, cv, ad)

Scheduled(x, k, v) ==
  LET D == TR!Elems(x.dom[k])
      tm == [i \in D |-> TR!TT(v.t, k, i)]
      tt == [i \in D |-> CHOOSE u \in tm[i] : TRUE]
      cv == {p \in TR!Elems(x.cval[k]) : p[1] # p[2] /\ AdjTo(x, k, p) # {}}
  IN /\ TR!Elems(v.d[k]) = D /\ TR!Elems(v.t.d[k]) = D
     /\ \A i \in D : Cardinality(tm[i]) = 1
     /\ \A p \in TR!Elems(x.val[k]) : p[1] # p[2] => TR!TLt(tt[p[1]], tt[p[2]])
     /\ Node(x, k, v.t.k, D, cv, [p \in cv |-> AdjTo(x, k, p)])

KS(x, s) == {k \in DOMAIN x.pvs : SC!EvalC(x.ctx, x.pvs[k], <<>>, <<>>)}
Judgement(e, s, h) == IF e.v.k = "err" THEN e.x.feas = 0 ELSE \A k \in KS(e.x, s) : Scheduled(e.x, k, e.v)
Expected(e, s, h) ==
  IF e.v.k = "err" THEN "a schedule"
  ELSE {<<e.x.pvs[k], e.x.inst[k], [i \in DOMAIN e.x.dom[k] |-> TR!TT(e.v.t, k, i)],
          {p \in TR!Elems(e.x.val[k]) : ~\E a \in TR!TT(e.v.t, k, p[1]), b \in TR!TT(e.v.t, k, p[2]) : TR!TLt(a, b)}>> : k \in KS(e.x, s)}
=============================================================================
