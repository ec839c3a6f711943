----------------------------- MODULE IslAstExpr -----------------------------
(* AST expressions (C21): an expression built from a function or a set of    *)
(* the parameters has, wherever the context holds and the function is        *)
(* defined, the value of the function or the truth of the membership.        *)
EXTENDS IslJudge
EX == INSTANCE IslExpr
RN == INSTANCE IslAstRun

EnvOf(s, v) == [n \in {s.names[i] : i \in DOMAIN s.names} |-> v[CHOOSE i \in DOMAIN s.names : s.names[i] = n]]
Hold(cs, v) == \A i \in DOMAIN cs : EX!EvalC(cs[i], v, <<>>, <<>>)
Pieces(x, v) == {i \in DOMAIN x.f : EX!EvalC(x.f[i].c, v, <<>>, <<>>)}
Want(x, v) == EX!EvalE(x.f[CHOOSE i \in Pieces(x, v) : TRUE].e, v, <<>>, <<>>)
(* a value may be computed from remainders whose sign does not matter only in comparisons with zero *)
ValueOK(x, t, s, v) == LET r == RN!AE(t, EnvOf(s, v)) IN r[1] /\ Want(x, v) = <<r[2], 1>>
TruthOK(x, t, s, v) == LET r == RN!AE(t, EnvOf(s, v)) IN r[1] /\ (r[2] # 0) = EX!EvalC(x.c, v, <<>>, <<>>)
SubstOK(x, t, s, v) == LET r == EnvOf(s, v)
                           q == [n \in DOMAIN r |-> IF n = x.n THEN x.m * r[n] + x.k ELSE r[n]]
                       IN RN!AE(t, r) = RN!AE(x.e, q)
(* the printed C, read with the precedence and the truncating division of C  *)
TextOK(x, t, s, v) == LET r == EnvOf(s, v)
                          a == RN!AE(x.e, r)
                      IN a[1] => RN!AE(t, RN!Lo(r)) = a
(* the vectors on which an event says something: a function that is nowhere  *)
(* defined in the context need not have an expression                         *)
ExDom(e, s) == CASE e.op = "value" -> {v \in s.pv : Hold(e.x.ctx, v) /\ Pieces(e.x, v) # {}}
               [] e.op = "truth" -> {v \in s.pv : Hold(e.x.ctx, v)}
               [] OTHER -> s.pv
ExOne(e, s, v) == CASE e.op = "value" -> ValueOK(e.x, e.v.e, s, v)
                    [] e.op = "truth" -> TruthOK(e.x, e.v.e, s, v)
                    [] e.op = "text" -> TextOK(e.x, e.v.e, s, v)
                    [] e.op = "subst" -> SubstOK(e.x, e.v.e, s, v)
Judgement(e, s, h) == IF e.v.k = "err" THEN e.op = "value" /\ ExDom(e, s) = {}
                      ELSE (e.op = "text" \/ RN!ZdivOK(e.v.e)) /\ \A v \in ExDom(e, s) : ExOne(e, s, v)
Expected(e, s, h) == IF e.v.k = "err" THEN ExDom(e, s)
                     ELSE LET bad == {v \in ExDom(e, s) : ~ExOne(e, s, v)}
                          IN IF e.op = "value" THEN {<<v, Want(e.x, v), RN!AE(e.v.e, EnvOf(s, v))>> : v \in bad}
                             ELSE {<<v, RN!AE(e.v.e, EnvOf(s, v))>> : v \in bad}
=============================================================================
