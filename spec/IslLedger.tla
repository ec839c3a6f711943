----------------------------- MODULE IslLedger ------------------------------
(* The protocol every public function of the library follows (C15, C16, C17) *)
(* -- who owns which object, what may change, what failure looks like and    *)
(* leaves behind -- as a state machine over the handles the caller holds.    *)
(* h maps each held handle to [k |-> class, t |-> what it looks like].       *)
EXTENDS IslJudge

Failed(v) == v.k = "fail"
Class(v) == IF v.k = "obj" THEN v.c ELSE v.k
Held(e, h) == \A i \in DOMAIN e.a : e.a[i] \in DOMAIN h
(* C15: an object the caller holds looks as it did when it was made           *)
Unchanged(e, h) == e.v.k = Class(h[e.a[1]]) /\ (e.v.t = h[e.a[1]].t \/ e.v.eq # 0)
(* C15: what a call returns does not depend on whether its operands are given *)
(* away or kept                                                               *)
SameOutcome(e) == e.v.eq # 0
NullRefused(e) == IF e.v.k \in {"void", "nostr", "num"} THEN TRUE ELSE Failed(e.v)
(* C17: a position beyond the end is refused, and the error is recorded       *)
RangeRefused(e) == e.v.k # "obj" /\ e.v.e \notin {"none", "quota", "abort"}
(* C16: a call that was stopped failed, and says why; one that was not gives   *)
(* what it gives undisturbed                                                  *)
Stopped(e, why) == \/ Failed(e.v) /\ e.v.e = why
                   \/ e.v.eq # 0
                   \* no room in the type for a failure
                   \/ e.v.e = why /\ e.v.k \in {"void", "nostr", "num"}
Repeated(e) == e.v.eq # 0 /\ e.v.e \notin {"quota", "abort"}

Judgement(e, s, h) ==
  CASE e.op = "held" -> Held(e, h) /\ Unchanged(e, h)
    [] e.op = "closed" -> e.v.i = 0                       \* nothing remains
    [] e.op = "call" ->
         Held(e, h) /\
         (CASE e.m = "plain" -> TRUE
            [] e.m = "again" -> SameOutcome(e)
            [] e.m = "null" -> NullRefused(e)
            [] e.m = "bad" -> RangeRefused(e)
            [] e.m = "limit" -> Stopped(e, "quota")
            [] e.m = "abort" -> Stopped(e, "abort")
            [] e.m = "repeat" -> Repeated(e))
Expected(e, s, h) == IF e.op = "held" THEN h[e.a[1]] ELSE e.op
=============================================================================
