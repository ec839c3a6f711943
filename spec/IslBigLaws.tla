---------------------------- MODULE IslBigLaws ----------------------------
(* The arithmetic of IslBig against TLC's own integers, on all pairs of a   *)
(* set of interesting values (one state per pair), and laws of the numbers. *)
EXTENDS IslBig
VARIABLES ty, a, b
Vals == {0, 1, -1, 2, -3, 7, 30, 46, -99, 4999, 9999, 10000, 10001, -10007, 20000, -32768, 46340}
Rats == {<<n, d>> : n \in {-7, -1, 0, 2, 9999}, d \in {1, 3, 10001}}
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE G(_, _)
G(m, n) == IF n = 0 THEN m ELSE G(n, m % n)
R(n, d) == LET g == G(Abs(n), d) IN <<(IOf(n \div g))[1], (IOf(n \div g))[2], NOfInt(d \div g)>>
Nums == {R(q[1], q[2]) : q \in Rats} \cup {VNaN, VInf, VNegInf}
Init == \/ ty = 0 /\ a \in Vals /\ b \in Vals
        \/ ty = 1 /\ a \in Nums /\ b \in Nums
Next == UNCHANGED <<ty, a, b>>
IntLaws == ty = 0 =>
  /\ IAdd(IOf(a), IOf(b)) = IOf(a + b)
  /\ (Abs(a) < 46341 /\ Abs(b) < 46341 => IMul(IOf(a), IOf(b)) = IOf(a * b))
  /\ ICmp(IOf(a), IOf(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
  /\ (b > 0 => IFloor(IOf(a), NOfInt(b)) = IOf(a \div b))
  /\ NGcd(NOfInt(Abs(a)), NOfInt(Abs(b))) = NOfInt(G(Abs(a), Abs(b)))
  /\ (b > 0 => LET p == NMul(NOfInt(b), NMul(NOfInt(b), NOfInt(b))) IN NDivMod(NAdd(p, NOfInt(Abs(a) % b)), NOfInt(b)) = <<NMul(NOfInt(b), NOfInt(b)), NOfInt(Abs(a) % b)>>)
NumLaws == ty = 1 =>
  /\ SameV(VAdd(a, b), VAdd(b, a)) /\ SameV(VMul(a, b), VMul(b, a))
  /\ SameV(VNeg(VNeg(a)), a) /\ Canonical(a)
  /\ (Fin(a) /\ Fin(b) => SameV(VSub(VAdd(a, b), b), a))
  /\ (Fin(a) /\ Fin(b) /\ b[1] # 0 => SameV(VMul(VDiv(a, b), b), a))
  /\ (~NaNV(a) /\ ~NaNV(b) => VCmp(a, b) = -VCmp(b, a))
  /\ (Fin(a) => VCmp(VFloor(a), a) <= 0 /\ VCmp(VAdd(VFloor(a), IntV(1)), a) > 0)
===========================================================================
