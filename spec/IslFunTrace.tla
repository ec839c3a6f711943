---------------------------- MODULE IslFunTrace -----------------------------
(* Recorded histories of calls on functions: which of them are behaviours of *)
(* the library specified by IslFun.  See IslTrace.                           *)
EXTENDS IslFun, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES ses, env, l, skip
svars == <<ses, env>>
vars == <<ses, env, l, skip>>

PtKinds == {"set", "map", "uset", "umap", "params", "fun", "ufun"}
Value(v) == IF v.k \in PtKinds THEN [v EXCEPT !.p = {v.p[i] : i \in DOMAIN v.p}] ELSE v
Args(e) == [i \in 1..Len(e.a) |-> env[e.a[i]]]
Without(c) == [h \in DOMAIN env \ {c[i] : i \in DOMAIN c} |-> env[h]]
With(f, h, v) == [g \in DOMAIN f \cup {h} |-> IF g = h THEN v ELSE f[g]]

CallOK(e) == LET v == Value(e.v) IN FunResultOK(e.op, Args(e), e.x, v, ses.pv, ses.W, ses.cap)
LookOK(e) == LET v == Value(e.v) IN v.k = env[e.a[1]].k /\ v.p = env[e.a[1]].p
Guard(e) == CASE e.op = "crash" -> FALSE
              [] e.op \in {"session", "input", "drop", "end"} -> TRUE
              [] e.op = "look" -> LookOK(e)
              [] e.g # 0 -> TRUE
              [] e.v.k = "b" -> FunAnswerOK(e.op, Args(e), e.v.b = 1, ses.pv)
              [] e.v.k = "q" -> EvalOK(Args(e), e.x, e.v.q)
              [] OTHER -> CallOK(e)
Effect(e) == CASE e.op = "session" -> /\ ses' = [pv |-> {e.pv[i] : i \in DOMAIN e.pv}, W |-> e.W, cap |-> e.cap]
                                      /\ env' = [h \in {} |-> 0]
               [] e.op \in {"end", "look"} -> UNCHANGED svars
               [] e.op = "input" -> env' = With(env, e.r, Value(e.v)) /\ UNCHANGED ses
               [] e.op = "drop" -> env' = Without(e.a) /\ UNCHANGED ses
               [] e.g # 0 -> env' = Without(e.c) /\ UNCHANGED ses
               [] OTHER -> /\ env' = IF e.r = 0 THEN Without(e.c) ELSE With(Without(e.c), e.r, Value(e.v))
                           /\ UNCHANGED ses

(* on request: what the specification expects instead *)
Explain(e) == IF "VP_DBG" \notin DOMAIN IOEnv \/ e.op \in {"crash", "look"} THEN TRUE
              ELSE IF e.v.k \in PtKinds
                THEN LET v == Value(e.v)
                         E == Windowed1(FunP(e.op, Args(e), e.x, ses.pv, ses.W), v)
                     IN PrintT(<<"MISSING", E \ v.p>>) /\ PrintT(<<"EXTRA", v.p \ E>>)
                ELSE PrintT(<<"VALUE", e.v>>)
Init == ses = [pv |-> {}, W |-> 0, cap |-> 0] /\ env = [h \in {} |-> 0] /\ l = 1 /\ skip = FALSE
Consume == /\ l <= Len(Trace)
           /\ l' = l + 1
           /\ LET e == Trace[l]
              IN IF skip /\ e.op # "session" THEN UNCHANGED <<ses, env, skip>>
                 ELSE IF Guard(e) THEN Effect(e) /\ skip' = FALSE
                 ELSE PrintT(<<"REJECT", l, e.op>>) /\ Explain(e) /\ skip' = TRUE /\ UNCHANGED svars
TSpec == Init /\ [][Consume]_vars
View == l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
