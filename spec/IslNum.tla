------------------------------- MODULE IslNum -------------------------------
(* Numbers (C18): every operation on values, and on tuples of values, is the *)
(* exact one; results are canonical.  A value has k = "v" and p its number,  *)
(* a tuple k = "mv" and p the sequence of its numbers.                       *)
EXTENDS IslJudge
BN == INSTANCE IslBig

(* the exact result of an operation on numbers a (and b); n a machine integer *)
Num1(op, a) == CASE op = "neg" -> BN!VNeg(a) [] op = "abs" -> BN!VAbs(a) [] op = "inv" -> BN!VInv(a)
                 [] op = "floor" -> BN!VFloor(a) [] op = "ceil" -> BN!VCeil(a) [] op = "trunc" -> BN!VTrunc(a)
                 [] op = "copy" -> a [] op = "den" -> (IF BN!Fin(a) THEN <<1, a[3], <<1>>>> ELSE a)
Num2(op, a, b) == CASE op = "add" -> BN!VAdd(a, b) [] op = "sub" -> BN!VSub(a, b) [] op = "mul" -> BN!VMul(a, b)
                    [] op = "div" -> BN!VDiv(a, b) [] op = "min" -> BN!VMin(a, b) [] op = "max" -> BN!VMax(a, b)
                    [] op = "mod" -> BN!VMod(a, b) [] op = "gcd" -> BN!VGcd(a, b)
(* the machine integer comes as a number, too *)
Ints == {"mod", "gcd"}
Good(r, u) == BN!Canonical(r) /\ BN!SameV(r, u)
Ask1(q, a) == CASE q = "is_zero" -> a = BN!VZero [] q = "is_one" -> a = <<1, <<1>>, <<1>>>> [] q = "is_negone" -> a = <<-1, <<1>>, <<1>>>>
                [] q = "is_nonneg" -> ~BN!NaNV(a) /\ a[1] >= 0 [] q = "is_nonpos" -> ~BN!NaNV(a) /\ a[1] <= 0
                [] q = "is_pos" -> a[1] > 0 [] q = "is_neg" -> a[1] < 0 [] q = "is_int" -> BN!IsIntV(a) [] q = "is_rat" -> BN!Fin(a)
                [] q = "is_nan" -> BN!NaNV(a) [] q = "is_infty" -> a = BN!VInf [] q = "is_neginfty" -> a = BN!VNegInf
Ask2(q, a, b) == IF BN!NaNV(a) \/ BN!NaNV(b) THEN FALSE
                 ELSE CASE q = "lt" -> BN!VCmp(a, b) < 0 [] q = "le" -> BN!VCmp(a, b) <= 0 [] q = "gt" -> BN!VCmp(a, b) > 0
                        [] q = "ge" -> BN!VCmp(a, b) >= 0 [] q = "eq" -> a = b [] q = "ne" -> a # b
                        [] q = "abs_eq" -> a[2] = b[2] /\ a[3] = b[3]
                        [] q = "divisible" -> IF b[1] = 0 THEN a[1] = 0 ELSE BN!NDivMod(a[2], b[2])[2] = <<>>
                        [] q = "eq_si" -> BN!SameV(a, b) [] q = "gt_si" -> BN!VCmp(a, b) > 0
Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
(* d: the machine's floating point number, exactly *)
NearTo(d, a) == IF a[1] = 0 THEN d = BN!VZero
                ELSE LET e == BN!VSub(d, a)
                     IN d[1] = a[1] /\ (e[1] = 0 \/ BN!VCmp(BN!VMul(BN!VAbs(e), BN!VPow2(50)), BN!VAbs(a)) <= 0)
MV2(op, A, C) == [i \in 1..Len(A) |-> Num2(op, A[i], C[i])]
MVS(op, A, b) == [i \in 1..Len(A) |-> Num2(op, A[i], b)]
SeqV(p) == [i \in 1..Len(p) |-> p[i]]
AllGood(p, U) == Len(p) = Len(U) /\ \A i \in 1..Len(U) : Good(p[i], U[i])
MVOps == {"mv_add", "mv_sub", "mv_min", "mv_max", "mv_neg", "mv_scale", "mv_scale_down", "mv_mod", "mv_add_val",
          "mv_scale_mv", "mv_scale_down_mv", "mv_mod_mv", "mv_set", "mv_of"}
MVal(op, A, x) ==
  LET a == A[1].p
      c == A[2].p
  IN CASE op = "mv_add" -> MV2("add", a, c) [] op = "mv_sub" -> MV2("sub", a, c) [] op = "mv_min" -> MV2("min", a, c)
       [] op = "mv_max" -> MV2("max", a, c) [] op = "mv_neg" -> [i \in 1..Len(a) |-> BN!VNeg(a[i])]
       [] op = "mv_scale" -> MVS("mul", a, c) [] op = "mv_scale_down" -> MVS("div", a, c) [] op = "mv_mod" -> MVS("mod", a, c)
       [] op = "mv_add_val" -> MVS("add", a, c)
       [] op = "mv_scale_mv" -> MV2("mul", a, c) [] op = "mv_scale_down_mv" -> MV2("div", a, c) [] op = "mv_mod_mv" -> MV2("mod", a, c)
       [] op = "mv_set" -> [a EXCEPT ![x.i + 1] = c]
       [] op = "mv_of" -> [i \in 1..Len(A) |-> A[i].p]

Judgement(e, s, h) ==
  LET A == ArgsOf(e, h)
      v == e.v
      x == e.x
      a == A[1].p
      b == IF "n" \in DOMAIN x THEN x.n ELSE A[2].p
  IN IF "fails" \in DOMAIN x THEN v.k = "err"
     ELSE IF v.k = "err" THEN FALSE
     ELSE CASE e.op = "v1" -> Good(v.p, Num1(x.q, a))
            [] e.op = "v2" -> Good(v.p, Num2(x.q, a, b))
            [] e.op = "const" -> v.p = x.p
            [] e.op = "read" -> Good(v.p, x.p)
            [] e.op = "pow2" -> v.p = BN!VPow2(x.e)
            [] e.op = "chunks_in" -> v.p = BN!VInt(BN!Mk(1, BN!HornerB(x.b, 1)))
            [] e.op = "chunks" -> BN!HornerB(v.b, 1) = a[2] /\ Len(v.b) = v.n * x.size /\
                                  (v.n > 1 => BN!HornerB(SubSeq(v.b, 1, (v.n - 1) * x.size), 1) # a[2])
            [] e.op = "gcdext" -> /\ Good(v.g, BN!VGcd(a, b))
                                  /\ BN!IsIntV(v.x) /\ BN!IsIntV(v.y)
                                  /\ BN!SameV(BN!VAdd(BN!VMul(v.x, a), BN!VMul(v.y, b)), v.g)
            [] e.op = "ask1" -> (v.b = 1) = Ask1(x.q, a)
            [] e.op = "ask2" -> (v.b = 1) = Ask2(x.q, a, b)
            [] e.op = "sgn" -> Sg(v.i) = a[1]
            [] e.op = "cmp_si" -> Sg(v.i) = BN!VCmp(a, b)
            [] e.op = "num_si" -> v.p = <<a[1], a[2], <<1>>>>
            [] e.op = "text" -> v.t = BN!VText(a)
            [] e.op = "double" -> NearTo(v.p, a)
            [] e.op = "mv_at" -> v.p = a[x.i + 1]
            [] e.op = "mv_nan" -> (v.b = 1) = (\E i \in DOMAIN a : BN!NaNV(a[i]))
            [] e.op = "mv_zero" -> (v.b = 1) = (\A i \in DOMAIN a : a[i] = BN!VZero)
            [] e.op = "mv_eq" -> (v.b = 1) = (SeqV(a) = SeqV(b) /\ \A i \in DOMAIN a : ~BN!NaNV(a[i]))
            [] e.op \in MVOps -> AllGood(v.p, MVal(e.op, A, x))
Expected(e, s, h) == ArgsOf(e, h)
=============================================================================
