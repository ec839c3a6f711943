------------------------------ MODULE IslTrace ------------------------------
(* Is a recorded history of the library a behaviour of IslSession?  A record *)
(* no action admits is printed and the rest of its session is skipped, so    *)
(* that every session is judged.                                             *)
EXTENDS IslSession, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Judged == IOEnv.VP_PROP           \* the property whose calls are judged here

VARIABLES l, skip
tvars == <<ses, env, l, skip>>

Questions == {"is_empty", "plain_is_empty", "is_equal", "plain_is_equal", "is_subset", "is_strict_subset",
  "is_disjoint", "plain_is_disjoint", "is_single_valued", "plain_is_single_valued", "is_injective",
  "plain_is_injective", "is_bijective", "is_identity", "is_singleton", "is_bounded", "is_universe",
  "involves_dims", "is_wrapping", "is_params", "domain_is_wrapping", "range_is_wrapping", "can_curry",
  "can_uncurry", "can_range_curry", "can_zip", "is_product"}

(* calls the property under check does not judge are taken as they come      *)
Judge(e) == e.pr = Judged

(* Guard and effect of the action a record names (an action of IslSession is  *)
(* guard and effect together; they are kept apart to evaluate each once).    *)
Guard(e) == CASE e.op = "crash" -> FALSE
              [] e.op \in {"session", "input", "drop", "end"} -> TRUE
              [] e.op = "look" -> LookOK(e)
              [] OTHER -> IF e.g # 0 THEN TRUE
                          ELSE IF ~Judge(e) THEN TRUE
                          ELSE IF e.op \in Questions THEN AskOK(e) ELSE CallOK(e)
Effect(e) == CASE e.op = "session" -> NewSession(e)
               [] e.op = "input" -> Input(e)
               [] e.op = "drop" -> Drop(e)
               [] e.op \in {"end", "look"} -> UNCHANGED svars
               [] OTHER -> IF e.g # 0 THEN GiveUp(e)
                           ELSE IF e.op \in Questions THEN Answer(e) ELSE Return(e)

TInit == SInit /\ l = 1 /\ skip = FALSE
Consume == /\ l <= Len(Trace)
           /\ l' = l + 1
           /\ LET e == Trace[l]
              IN IF skip /\ e.op # "session" THEN UNCHANGED <<ses, env, skip>>
                 ELSE IF Guard(e) THEN Effect(e) /\ skip' = FALSE
                 ELSE PrintT(<<"REJECT", l, e.op>>) /\ skip' = TRUE /\ UNCHANGED svars
TSpec == TInit /\ [][Consume]_tvars
View == l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
