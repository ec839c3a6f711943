------------------------------ MODULE IslJudge ------------------------------
(* Is a recorded history a behaviour of the specification that instantiates  *)
(* this module?  JudgeOK(e, s, h) is that specification: may the call e be   *)
(* answered as recorded in session s when the caller holds h?  A record that *)
(* is not admitted is printed and the rest of its session skipped, so that   *)
(* every session is judged.                                                  *)
EXTENDS IslFun, Json, IOUtils
CONSTANTS JudgeOK(_, _, _), Expect(_, _, _)

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES ses, env, l, skip
svars == <<ses, env>>
vars == <<ses, env, l, skip>>

PtKinds == {"set", "map", "uset", "umap", "params", "fun", "ufun"}
Value(v) == IF v.k \in PtKinds THEN [v EXCEPT !.p = {v.p[i] : i \in DOMAIN v.p}] ELSE v
Without(c) == [h \in DOMAIN env \ {c[i] : i \in DOMAIN c} |-> env[h]]
With(f, h, v) == [g \in DOMAIN f \cup {h} |-> IF g = h THEN v ELSE f[g]]
ArgsOf(e, h) == [i \in 1..Len(e.a) |-> h[e.a[i]]]
(* a call the operation limit stopped returns nothing and promises nothing   *)
GaveUp(e) == IF "g" \in DOMAIN e THEN e.g # 0 ELSE FALSE
Gone(e) == IF "c" \in DOMAIN e THEN e.c ELSE <<>>
New(e) == IF "r" \in DOMAIN e THEN e.r ELSE 0

LookOK(e) == LET v == Value(e.v) IN v.k = env[e.a[1]].k /\ v.p = env[e.a[1]].p
Guard(e) == CASE e.op = "crash" -> FALSE
              [] e.op \in {"session", "input", "drop", "end"} -> TRUE
              [] e.op = "look" -> LookOK(e)
              [] GaveUp(e) -> TRUE
              [] OTHER -> JudgeOK(e, ses, env)
Effect(e) == CASE e.op = "session" -> /\ ses' = [e EXCEPT !.pv = {e.pv[i] : i \in DOMAIN e.pv}]
                                      /\ env' = [h \in {} |-> 0]
               [] e.op \in {"end", "look"} -> UNCHANGED svars
               [] e.op = "input" -> env' = With(env, e.r, Value(e.v)) /\ UNCHANGED ses
               [] e.op = "drop" -> env' = Without(e.a) /\ UNCHANGED ses
               [] OTHER -> /\ env' = IF GaveUp(e) \/ New(e) = 0 THEN Without(Gone(e))
                                     ELSE With(Without(Gone(e)), e.r, Value(e.v))
                           /\ UNCHANGED ses

Explain(e) == IF "VP_DBG" \notin DOMAIN IOEnv \/ e.op \in {"crash", "look"} THEN TRUE
              ELSE PrintT(<<"EXPECTED", Expect(e, ses, env)>>) /\ PrintT(<<"GOT", e.v>>)
Init == ses = [op |-> "none"] /\ env = [h \in {} |-> 0] /\ l = 1 /\ skip = FALSE
Consume == /\ l <= Len(Trace)
           /\ l' = l + 1
           /\ LET e == Trace[l]
              IN IF skip /\ e.op # "session" THEN UNCHANGED <<ses, env, skip>>
                 ELSE IF Guard(e) THEN Effect(e) /\ skip' = FALSE
                 ELSE PrintT(<<"REJECT", l, e.op>>) /\ Explain(e) /\ skip' = TRUE /\ UNCHANGED svars
TSpec == Init /\ [][Consume]_vars
View == l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
