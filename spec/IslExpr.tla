------------------------------ MODULE IslExpr -------------------------------
(* The documented notation: what an expression or a condition written in     *)
(* text denotes at a point.  v: parameter values, x: coordinates, z: values  *)
(* of the quantified variables in scope, innermost last.                     *)
EXTENDS IslVal

RECURSIVE EvalE(_, _, _, _), EvalC(_, _, _, _)
EvalE(e, v, x, z) ==
  CASE e.o = "c" -> e.q
    [] e.o = "p" -> Q(v[e.i + 1])
    [] e.o = "x" -> Q(x[e.i + 1])
    [] e.o = "z" -> Q(z[e.i + 1])
    [] e.o = "+" -> QAdd(EvalE(e.a, v, x, z), EvalE(e.b, v, x, z))
    [] e.o = "-" -> QSub(EvalE(e.a, v, x, z), EvalE(e.b, v, x, z))
    [] e.o = "*" -> QMul(EvalE(e.a, v, x, z), EvalE(e.b, v, x, z))
    [] e.o = "/" -> QDiv(EvalE(e.a, v, x, z), EvalE(e.b, v, x, z))
    [] e.o = "neg" -> QNeg(EvalE(e.a, v, x, z))
    [] e.o = "floor" -> QFloor(EvalE(e.a, v, x, z))
    [] e.o = "ceil" -> QCeil(EvalE(e.a, v, x, z))
    [] e.o = "mod" -> LET a == EvalE(e.a, v, x, z)
                          m == EvalE(e.b, v, x, z)
                      IN QSub(a, QMul(m, QFloor(QDiv(a, m))))
    [] e.o = "min" -> QMin(EvalE(e.a, v, x, z), EvalE(e.b, v, x, z))
    [] e.o = "max" -> QMax(EvalE(e.a, v, x, z), EvalE(e.b, v, x, z))
    [] e.o = "?" -> IF EvalC(e.c, v, x, z) THEN EvalE(e.a, v, x, z) ELSE EvalE(e.b, v, x, z)

EvalC(c, v, x, z) ==
  CASE c.o = "true" -> TRUE
    [] c.o = "false" -> FALSE
    [] c.o = "<=" -> QLe(EvalE(c.a, v, x, z), EvalE(c.b, v, x, z))
    [] c.o = "<" -> QLt(EvalE(c.a, v, x, z), EvalE(c.b, v, x, z))
    [] c.o = ">=" -> QLe(EvalE(c.b, v, x, z), EvalE(c.a, v, x, z))
    [] c.o = ">" -> QLt(EvalE(c.b, v, x, z), EvalE(c.a, v, x, z))
    [] c.o = "=" -> EvalE(c.a, v, x, z) = EvalE(c.b, v, x, z)
    [] c.o = "!=" -> EvalE(c.a, v, x, z) # EvalE(c.b, v, x, z)
    [] c.o = "lex" -> LET l == [i \in 1..Len(c.l) |-> EvalE(c.l[i], v, x, z)[1]]
                          r == [i \in 1..Len(c.r) |-> EvalE(c.r[i], v, x, z)[1]]
                      IN (CASE c.c = "<<" -> LexLt(l, r) [] c.c = "<<=" -> LexLe(l, r)
                           [] c.c = ">>" -> LexLt(r, l) [] c.c = ">>=" -> LexLe(r, l))
    [] c.o = "and" -> \A i \in 1..Len(c.l) : EvalC(c.l[i], v, x, z)
    [] c.o = "or" -> \E i \in 1..Len(c.l) : EvalC(c.l[i], v, x, z)
    [] c.o = "not" -> ~EvalC(c.a, v, x, z)
    [] c.o = "=>" -> EvalC(c.a, v, x, z) => EvalC(c.b, v, x, z)
    [] c.o = "let" -> LET q == EvalE(c.e, v, x, z) IN QIsInt(q) /\ EvalC(c.a, v, x, Append(z, q[1]))
    \* the text bounds the quantified variable by lo and hi
    [] c.o = "exists" -> \E k \in c.lo..c.hi : EvalC(c.a, v, x, Append(z, k))
=============================================================================
