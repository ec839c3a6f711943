---------------------------- MODULE IslOptions ----------------------------
(* The options of a context (C26).  State: for each live context, the value   *)
(* of every option.  Transitions: allocating contexts (documented defaults),  *)
(* setting one option of one context, and parsing a command line, which takes *)
(* the documented options out of the argument list and leaves everything else *)
(* in place and in order.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC

Choices == [n \in {"context", "gbr", "closure", "bound", "on-error", "convex-hull", "schedule-algorithm",
                   "ast-build-separation-bounds"} |->
   CASE n = "context" -> ("gbr" :> 0 @@ "lexmin" :> 1)
     [] n = "gbr" -> ("never" :> 0 @@ "once" :> 1 @@ "always" :> 2)
     [] n = "closure" -> ("isl" :> 0 @@ "box" :> 1)
     [] n = "bound" -> ("bernstein" :> 0 @@ "range" :> 1)
     [] n = "on-error" -> ("warn" :> 0 @@ "continue" :> 1 @@ "abort" :> 2)
     [] n = "convex-hull" -> ("wrap" :> 0 @@ "fm" :> 1)
     [] n = "schedule-algorithm" -> ("isl" :> 0 @@ "feautrier" :> 1)
     [] OTHER -> ("explicit" :> 0 @@ "implicit" :> 1)]
ChoiceDefault(n) == IF n = "gbr" THEN 2 ELSE 0
Flags == {"none", "factors", "intervals", "full"}
FlagOpts == {"bernstein-recurse"}
On == {"bernstein-triangulate", "pip-symmetry", "coalesce-bounded-wrapping", "schedule-parametric",
       "schedule-split-scaled", "schedule-treat-coalescing", "schedule-separate-components",
       "schedule-carry-self-first", "tile-scale-tile-loops", "tile-shift-point-loops",
       "ast-print-outermost-block", "ast-build-atomic-upper-bound", "ast-build-prefer-pdiv",
       "ast-build-exploit-nested-bounds", "ast-build-scale-strides", "ast-build-allow-else", "ast-build-allow-or"}
Off == {"gbr-only-first", "coalesce-preserve-locals", "schedule-outer-coincidence", "schedule-maximize-band-depth",
        "schedule-maximize-coincidence", "schedule-whole-component", "schedule-serialize-sccs",
        "ast-always-print-block", "ast-print-macro-once", "ast-build-detect-min-max", "ast-build-group-coscheduled"}
Bools == On \cup Off
Nums == {"schedule-max-coefficient", "schedule-max-constant-term", "max-operations"}
Strs == {"ast-iterator-type"}
(* options a program can look up                                             *)
Hidden == {"context", "gbr", "closure", "convex-hull", "bernstein-triangulate", "schedule-parametric",
           "max-operations", "bernstein-recurse"}
Visible == (DOMAIN Choices \cup Bools \cup Nums \cup Strs) \ Hidden
Default(n) == IF n \in DOMAIN Choices THEN ChoiceDefault(n)
              ELSE IF n \in On THEN 1 ELSE IF n \in Off THEN 0
              ELSE IF n \in Strs THEN "int" ELSE -1
Fresh == [n \in Visible |-> Default(n)]
Put(st, n, v) == IF n \in Visible THEN [st EXCEPT ![n] = v] ELSE st

(* how many arguments the option at the head of the line takes (0: it is not *)
(* an option), which option it is and the value it gives                     *)
None == [n |-> 0, o |-> "", v |-> 0]
Takes(k, o, v) == [n |-> k, o |-> o, v |-> v]
Head1(as) ==
  LET a == as[1]
      more == Len(as) > 1
      nm == a.full
  IN IF a.d # 2 THEN None
     ELSE IF nm \in DOMAIN Choices
          THEN IF a.eq THEN (IF a.val \in DOMAIN Choices[nm] THEN Takes(1, nm, Choices[nm][a.val]) ELSE None)
               ELSE IF ~more \/ (more /\ as[2].d > 0) THEN Takes(1, nm, ChoiceDefault(nm))
               ELSE IF as[2].raw \in DOMAIN Choices[nm] THEN Takes(2, nm, Choices[nm][as[2].raw]) ELSE None
     ELSE IF nm \in FlagOpts
          THEN IF a.eq THEN (IF \A i \in DOMAIN a.parts : a.parts[i] \in Flags THEN Takes(1, nm, 0) ELSE None)
               ELSE IF more /\ (\A i \in DOMAIN as[2].parts : as[2].parts[i] \in Flags) THEN Takes(2, nm, 0) ELSE None
     ELSE IF nm \in Bools THEN Takes(1, nm, 1)
     ELSE IF a.no /\ a.name \in Bools /\ ~a.eq THEN Takes(1, a.name, 0)
     ELSE IF nm \in Nums
          THEN IF a.eq THEN (IF a.isnum THEN Takes(1, nm, a.num) ELSE None)
               ELSE IF more /\ as[2].isnum THEN Takes(2, nm, as[2].num) ELSE None
     ELSE IF nm \in Strs
          THEN IF a.eq THEN Takes(1, nm, a.val) ELSE IF more THEN Takes(2, nm, as[2].raw) ELSE None
     ELSE None

RECURSIVE Parse(_, _, _)
Parse(as, st, rest) ==
  IF as = <<>> THEN [st |-> st, rest |-> rest]
  ELSE LET h == Head1(as)
       IN IF h.n = 0 THEN Parse(Tail(as), st, Append(rest, as[1].raw))
          ELSE Parse(SubSeq(as, h.n + 1, Len(as)), Put(st, h.o, h.v), rest)

(* ---- transitions ---- *)
Sets(e, all) == [all EXCEPT ![e.x.k] = Put(@, e.x.name, e.x.val)]
ParseOf(e, all) == Parse(e.x.args, all[e.x.k], <<>>)
Expected(e, all) ==
  CASE e.op = "fresh" -> [res |-> 0, all |-> [k \in 1..e.x.n |-> Fresh]]
    [] e.op = "set_opt" -> [res |-> 0, all |-> Sets(e, all)]
    [] e.op = "parse" -> LET p == ParseOf(e, all) IN [res |-> p.rest, all |-> [all EXCEPT ![e.x.k] = p.st]]
=============================================================================
