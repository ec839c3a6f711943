------------------------------ MODULE IslConf ------------------------------
(* Recorded histories of option settings, judged against IslOptions.         *)
EXTENDS IslJudge
OPT == INSTANCE IslOptions
Prev(e, h) == IF e.a = <<>> THEN <<>> ELSE h[e.a[1]].all
Expected(e, s, h) == OPT!Expected(e, Prev(e, h))
Judgement(e, s, h) == LET x == Expected(e, s, h) IN e.v.res = x.res /\ e.v.all = x.all
=============================================================================
