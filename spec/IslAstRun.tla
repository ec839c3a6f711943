----------------------------- MODULE IslAstRun ------------------------------
(* Execution of generated programs: expressions over integers, for loops, if *)
(* statements, blocks, marks and user statements.  An expression evaluates   *)
(* to <<TRUE, value>>, or to <<FALSE, 0>> when executing it would do what    *)
(* the operator's contract forbids (an inexact division, a negative dividend *)
(* of an operator that promises there is none, an unknown name), unless its  *)
(* value cannot matter.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoVal == <<FALSE, 0>>
B2I(b) == IF b THEN 1 ELSE 0
Floor(x, y) == IF y > 0 THEN x \div y ELSE (-x) \div (-y)

Trunc(x, y) == LET q == Floor(x, y) IN IF q >= 0 \/ q * y = x THEN q ELSE q + 1
Bind(r, n, v) == [m \in DOMAIN r \cup {n} |-> IF m = n THEN v ELSE r[m]]
(* a loop bound or a condition may be computed where nothing is executed,    *)
(* and a division that is only exact or non-negative elsewhere truncates     *)
Loose == "!"
Lo(r) == Bind(r, Loose, 1)

RECURSIVE AE(_, _), AFold(_, _, _, _)
AE(e, r) ==
  CASE e.t = "int" -> <<TRUE, e.v>>
    [] e.t = "id" -> IF e.n \in DOMAIN r THEN <<TRUE, r[e.n]>> ELSE NoVal
    [] e.t = "op" /\ e.o \in {"and_then", "or_else", "cond"} ->
         (LET c == AE(e.a[1], r)
          IN IF ~c[1] THEN NoVal
             ELSE CASE e.o = "and_then" -> IF c[2] = 0 THEN <<TRUE, 0>> ELSE LET b == AE(e.a[2], r) IN <<b[1], B2I(b[2] # 0)>>
                    [] e.o = "or_else" -> IF c[2] # 0 THEN <<TRUE, 1>> ELSE LET b == AE(e.a[2], r) IN <<b[1], B2I(b[2] # 0)>>
                    [] e.o = "cond" -> IF c[2] # 0 THEN AE(e.a[2], r) ELSE AE(e.a[3], r))
    [] e.t = "op" /\ e.o \notin {"and_then", "or_else", "cond", "call", "access", "member", "address_of"} ->
         (LET v == [i \in 1..Len(e.a) |-> AE(e.a[i], r)]
              x == v[1][2]
              y == v[2][2]
          IN IF e.o = "and" /\ \E i \in DOMAIN v : v[i] = <<TRUE, 0>> THEN <<TRUE, 0>>
             ELSE IF e.o = "or" /\ \E i \in DOMAIN v : v[i][1] /\ v[i][2] # 0 THEN <<TRUE, 1>>
             ELSE IF e.o = "select" /\ v[1][1] THEN IF x # 0 THEN v[2] ELSE v[3]
             ELSE IF \E i \in DOMAIN v : ~v[i][1] THEN NoVal
             ELSE CASE e.o = "and" -> <<TRUE, B2I(x # 0 /\ y # 0)>>
                    [] e.o = "or" -> <<TRUE, B2I(x # 0 \/ y # 0)>>
                    [] e.o = "max" -> <<TRUE, AFold("max", v, 2, x)>>
                    [] e.o = "min" -> <<TRUE, AFold("min", v, 2, x)>>
                    [] e.o = "minus" -> <<TRUE, -x>>
                    [] e.o = "add" -> <<TRUE, x + y>>
                    [] e.o = "sub" -> <<TRUE, x - y>>
                    [] e.o = "mul" -> <<TRUE, x * y>>
                    [] e.o = "div" -> IF y = 0 THEN NoVal
                                       ELSE IF Floor(x, y) * y = x THEN <<TRUE, Floor(x, y)>>
                                       ELSE IF Loose \in DOMAIN r THEN <<TRUE, Trunc(x, y)>> ELSE NoVal
                    [] e.o = "fdiv_q" -> IF y # 0 THEN <<TRUE, Floor(x, y)>> ELSE NoVal
                    [] e.o = "pdiv_q" -> IF y > 0 /\ (x >= 0 \/ Loose \in DOMAIN r) THEN <<TRUE, Trunc(x, y)>> ELSE NoVal
                    [] e.o = "pdiv_r" -> IF y > 0 /\ (x >= 0 \/ Loose \in DOMAIN r) THEN <<TRUE, x - y * Trunc(x, y)>> ELSE NoVal
                    [] e.o = "zdiv_r" -> IF y > 0 THEN <<TRUE, x % y>> ELSE NoVal
                    [] e.o = "eq" -> <<TRUE, B2I(x = y)>>
                    [] e.o = "le" -> <<TRUE, B2I(x <= y)>>
                    [] e.o = "lt" -> <<TRUE, B2I(x < y)>>
                    [] e.o = "ge" -> <<TRUE, B2I(x >= y)>>
                    [] e.o = "gt" -> <<TRUE, B2I(x > y)>>)
    [] OTHER -> NoVal
AFold(o, v, i, acc) == IF i > Len(v) THEN acc
                       ELSE AFold(o, v, i + 1, IF (o = "max") = (v[i][2] > acc) THEN v[i][2] ELSE acc)

(* the result of a division whose remainder only matters when compared with  *)
(* zero may only be compared with zero                                       *)
RECURSIVE ZdivOK(_)
IsZ(e) == e.t = "op" /\ e.o = "zdiv_r"
ZdivOK(e) == IF e.t # "op" THEN TRUE
             ELSE /\ \A i \in DOMAIN e.a : ZdivOK(e.a[i])
                  /\ (\E i \in DOMAIN e.a : IsZ(e.a[i])) =>
                        /\ e.o = "eq"
                        /\ \A i \in DOMAIN e.a : IsZ(e.a[i]) \/ (e.a[i].t = "int" /\ e.a[i].v = 0)

(* a run is the sequence of <<statement, arguments>> it executes; anything   *)
(* forbidden shows as the statement "!"                                      *)
Bad(w) == << <<"!", w>> >>
Limit == 100
RECURSIVE Run(_, _), RunBlock(_, _, _), Loop(_, _, _, _)
Run(n, r) ==
  CASE n.t = "user" ->
         (IF n.e.t # "op" \/ n.e.o # "call" \/ n.e.a[1].t # "id" THEN Bad("call")
          ELSE LET v == [i \in 1..(Len(n.e.a) - 1) |-> AE(n.e.a[i + 1], r)]
               IN IF \E i \in DOMAIN v : ~v[i][1] \/ ~ZdivOK(n.e.a[i + 1]) THEN Bad("argument")
                  ELSE LET x == <<n.e.a[1].n, [i \in DOMAIN v |-> v[i][2]]>>
                       IN IF "acc" \notin DOMAIN n THEN <<x>>
                          ELSE << <<x[1], x[2], [j \in DOMAIN n.acc |-> [i \in DOMAIN n.acc[j] |-> AE(n.acc[j][i], r)]]>> >>)
    [] n.t = "block" -> RunBlock(n.l, 1, r)
    [] n.t = "mark" -> Run(n.body, r)
    [] n.t = "if" -> (LET c == AE(n.cond, Lo(r))
                      IN IF ~c[1] \/ ~ZdivOK(n.cond) THEN Bad("condition")
                         ELSE IF c[2] # 0 THEN Run(n.then, r)
                         ELSE IF "els" \in DOMAIN n THEN Run(n.els, r) ELSE <<>>)
    [] n.t = "for" -> (LET i == AE(n.init, Lo(r))
                       IN IF ~i[1] \/ n.it \in DOMAIN r THEN Bad("loop")
                          ELSE IF n.deg THEN Run(n.body, Bind(r, n.it, i[2]))
                          ELSE Loop(n, i[2], r, 1))
    [] OTHER -> Bad("node")
RunBlock(s, i, r) == IF i > Len(s) THEN <<>> ELSE Run(s[i], r) \o RunBlock(s, i + 1, r)
Loop(n, k, r, c) ==
  LET q == Bind(r, n.it, k)
      b == AE(n.cond, Lo(q))
      d == AE(n.inc, r)
  IN IF ~b[1] \/ ~d[1] \/ c > Limit \/ ~ZdivOK(n.cond) THEN Bad("loop")
     ELSE IF b[2] = 0 THEN <<>>
     ELSE IF d[2] <= 0 THEN Bad("increment")
     ELSE Run(n.body, q) \o Loop(n, k + d[2], r, c + 1)
=============================================================================
