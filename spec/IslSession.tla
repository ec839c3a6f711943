----------------------------- MODULE IslSession -----------------------------
(* The library as a state machine: a context, the objects a caller holds and *)
(* their abstract values.  Every public call is one action.                  *)
EXTENDS IslSem

VARIABLES ses,     \* the session's parameters: [names, pv, W, cap]
          env      \* handle -> value, for the objects the caller holds
svars == <<ses, env>>

NoSession == [names |-> <<>>, pv |-> {}, W |-> 0, cap |-> 0]
SInit == ses = NoSession /\ env = [h \in {} |-> 0]

(* values as recorded have sequences where the model has sets *)
RelKinds == {"set", "map", "uset", "umap", "params"}
Value(v) == IF v.k \in RelKinds THEN [v EXCEPT !.p = {v.p[i] : i \in DOMAIN v.p}] ELSE v

Args(e) == [i \in 1..Len(e.a) |-> env[e.a[i]]]
Without(c) == [h \in DOMAIN env \ {c[i] : i \in DOMAIN c} |-> env[h]]
With(f, h, v) == [g \in DOMAIN f \cup {h} |-> IF g = h THEN v ELSE f[g]]

(* a new context; nothing of an earlier session remains *)
NewSession(e) == /\ ses' = [names |-> e.names, pv |-> {e.pv[i] : i \in DOMAIN e.pv}, W |-> e.W, cap |-> e.cap]
                 /\ env' = [h \in {} |-> 0]

(* an object read from text; its points are what the text's constraints say  *)
Input(e) == env' = With(env, e.r, Value(e.v)) /\ UNCHANGED ses

(* a call returning an object; objects handed over are gone, the result is   *)
(* new, and everything else the caller holds keeps its value                 *)
CallOK(e) == ResultOK(e.op, Args(e), e.x, Value(e.v), ses.pv, ses.W, ses.cap)
Return(e) == /\ env' = IF e.r = 0 THEN Without(e.c) ELSE With(Without(e.c), e.r, Value(e.v))
             /\ UNCHANGED ses
Call(e) == e.g = 0 /\ CallOK(e) /\ Return(e)

(* the operation limit or an abort may stop any call: nothing comes back     *)
GiveUp(e) == e.g # 0 /\ env' = Without(e.c) /\ UNCHANGED ses

AskOK(e) == e.v.k = "b" /\ AnswerOK(e.op, Args(e), e.x, e.v.b = 1, ses.pv)
Answer(e) == env' = Without(e.c) /\ UNCHANGED ses
Ask(e) == e.g = 0 /\ AskOK(e) /\ Answer(e)

(* looking at an object again shows the value it always had *)
LookOK(e) == LET v == Value(e.v) IN v.k = env[e.a[1]].k /\ v.p = env[e.a[1]].p
Look(e) == LookOK(e) /\ UNCHANGED svars
Drop(e) == env' = Without(e.a) /\ UNCHANGED ses

=============================================================================
