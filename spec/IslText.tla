------------------------------ MODULE IslText -------------------------------
(* The documented notation (C10).  What a text denotes is defined on its     *)
(* syntax tree: a list of disjuncts, each with its tuples' shapes, what      *)
(* stands at each position of the tuples, and a condition.  Printing and     *)
(* reading back gives the same object; malformed texts give an error.        *)
EXTENDS IslJudge

(* one position: any integer, an expression, a range, or a piecewise one *)
Cand(sl, v, x, W) ==
  CASE sl.t = "free" -> -W..W
    [] sl.t = "def" -> LET q == EvalE(sl.e, v, x, <<>>) IN IF QIsInt(q) THEN {q[1]} ELSE {}
    [] sl.t = "rng" -> LET lo == IF sl.lo = <<>> THEN -W ELSE EvalE(sl.lo, v, x, <<>>)[1]
                           hi == IF sl.hi = <<>> THEN W ELSE EvalE(sl.hi, v, x, <<>>)[1]
                       IN lo..hi
    \* expressions whose conditions hold together are added up
    [] sl.t = "pw" -> LET on == {i \in 1..Len(sl.l) : EvalC(sl.l[i].c, v, x, <<>>)}
                          val(i) == EvalE(sl.l[i].e, v, x, <<>>)[1]
                      IN IF on = {} THEN {}
                         ELSE IF on = {1, 2} THEN {val(1) + val(2)} ELSE {val(i) : i \in on}
\* conjuncts are looked at as soon as the coordinates they need are there
Meets(cj, n, v, x) == \A i \in DOMAIN cj : cj[i][1] = n => EvalC(cj[i][2], v, x, <<>>)
RECURSIVE Fill(_, _, _, _, _)
Fill(sl, cj, v, x, W) == IF ~Meets(cj, Len(x), v, x) THEN {}
                         ELSE IF Len(x) = Len(sl) THEN {x}
                         ELSE UNION {Fill(sl, cj, v, Append(x, k), W) : k \in Cand(sl[Len(x) + 1], v, x, W)}
Elem(v, sh, x) == CASE Len(sh) = 0 -> <<v>>
                    [] Len(sh) = 1 -> <<v, Build(sh[1], x)>>
                    [] Len(sh) = 2 -> LET k == Size(sh[1]) IN <<v, Build(sh[1], SubSeq(x, 1, k)), Build(sh[2], SubSeq(x, k + 1, Len(x)))>>
DisjP(pc, PV, W) == UNION {{Elem(v, pc.sh, x) : x \in Fill(pc.sl, pc.cj, v, <<>>, W)} : v \in PV}
TextP(x, PV) == UNION {DisjP(x.pc[i], PV, x.w) : i \in DOMAIN x.pc}

(* brackets *)
Opening == {"(", "[", "{"}
Closes(o, c) == <<o, c>> \in {<<"(", ")">>, <<"[", "]">>, <<"{", "}">>}
RECURSIVE Balanced(_, _, _)
\* an object is complete once its outer brace is closed; what follows is not looked at
Balanced(b, i, st) == IF i > Len(b) THEN st = <<>>
                      ELSE IF b[i] = "}" /\ st = <<"{">> THEN TRUE
                      ELSE IF b[i] \in Opening THEN Balanced(b, i + 1, Append(st, b[i]))
                      ELSE st # <<>> /\ Closes(st[Len(st)], b[i]) /\ Balanced(b, i + 1, SubSeq(st, 1, Len(st) - 1))
Failed(v) == v.k = "err"

Judgement(e, s, h) ==
  LET A == ArgsOf(e, h)
      v == Value(e.v)
  IN CASE e.op = "tx_read" -> IF v.k = "err" THEN FALSE ELSE v.p = TextP(e.x, s.pv)
       \* printed and read back; the window through which it is seen is the same
       [] e.op = "tx_rt" -> v.k = A[1].k /\ v.p = A[1].p
       \* a format without names
       [] e.op = "tx_rtflat" -> v.k # "err" /\ {<<p[1], Flat(p[2])>> : p \in v.p} = {<<p[1], Flat(p[2])>> : p \in A[1].p}
       [] e.op = "tx_digest" -> v.k = "d" /\ v.b = v.a
       [] e.op = "tx_bad" -> /\ e.x.why = "brackets" => ~Balanced(e.x.br, 1, <<>>)
                             /\ Failed(v)
       \* any string at all: an object or an error, and a printable one
       [] e.op = "tx_soup" -> \/ Failed(v)
                              \/ v.k = "d" /\ v.a = v.b
       [] e.op = "f_read" -> FunResultOK(e.op, A, e.x, v, s.pv, s.W, s.cap)
       \* calls that only make objects to print are judged elsewhere
       [] OTHER -> TRUE
Expected(e, s, h) == IF e.op = "tx_read" THEN TextP(e.x, s.pv) ELSE ArgsOf(e, h)
=============================================================================
