------------------------------- MODULE IslBig -------------------------------
(* Integers and extended rationals of any size.  A natural number is the     *)
(* sequence of its digits in base 10000, least significant first, without    *)
(* leading zeros; an integer <<sign, natural>>; a number <<sign, num, den>>  *)
(* with den = <<>> for NaN (sign 0) and the infinities.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

B == 10000
RECURSIVE Strip(_)
Strip(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
Dg(a, i) == IF i > Len(a) THEN 0 ELSE a[i]
RECURSIVE AddF(_, _, _, _, _)
AddF(a, b, i, c, r) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN r ELSE Append(r, c))
                       ELSE LET t == Dg(a, i) + Dg(b, i) + c IN AddF(a, b, i + 1, t \div B, Append(r, t % B))
NAdd(a, b) == AddF(a, b, 1, 0, <<>>)
RECURSIVE SubF(_, _, _, _, _)
SubF(a, b, i, c, r) == IF i > Len(a) THEN Strip(r)
                       ELSE LET t == a[i] - Dg(b, i) - c IN IF t < 0 THEN SubF(a, b, i + 1, 1, Append(r, t + B)) ELSE SubF(a, b, i + 1, 0, Append(r, t))
NSub(a, b) == SubF(a, b, 1, 0, <<>>)                 \* a >= b
RECURSIVE CmpF(_, _, _)
CmpF(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpF(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpF(a, b, Len(a))
RECURSIVE MulS(_, _, _, _, _)
MulS(a, k, i, c, r) == IF i > Len(a) THEN (IF c = 0 THEN r ELSE Append(r, c))
                       ELSE LET t == a[i] * k + c IN MulS(a, k, i + 1, t \div B, Append(r, t % B))
NMulS(a, k) == IF k = 0 THEN <<>> ELSE MulS(a, k, 1, 0, <<>>)      \* k < B
RECURSIVE MulF(_, _, _)
MulF(a, b, i) == IF i > Len(b) THEN <<>>
                 ELSE LET hi == MulF(a, b, i + 1) IN NAdd(NMulS(a, b[i]), IF hi = <<>> THEN hi ELSE <<0>> \o hi)
NMul(a, b) == IF a = <<>> THEN <<>> ELSE MulF(a, b, 1)
RECURSIVE DigF(_, _, _, _)
DigF(r, b, lo, hi) == IF lo = hi THEN lo               \* b * lo <= r < b * (hi + 1)
                      ELSE LET m == (lo + hi + 1) \div 2 IN IF NCmp(NMulS(b, m), r) <= 0 THEN DigF(r, b, m, hi) ELSE DigF(r, b, lo, m - 1)
RECURSIVE DivF(_, _, _, _, _)
DivF(a, b, i, q, r) == IF i = 0 THEN <<Strip(q), r>>
                       ELSE LET r1 == IF r = <<>> /\ a[i] = 0 THEN r ELSE <<a[i]>> \o r
                                d == IF NCmp(r1, b) < 0 THEN 0 ELSE DigF(r1, b, 1, B - 1)
                            IN DivF(a, b, i - 1, <<d>> \o q, IF d = 0 THEN r1 ELSE NSub(r1, NMulS(b, d)))
NDivMod(a, b) == DivF(a, b, Len(a), <<>>, <<>>)      \* b # 0
RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, NDivMod(a, b)[2])
RECURSIVE NPow2(_)
NPow2(k) == IF k = 0 THEN <<1>> ELSE IF k >= 13 THEN NMulS(NPow2(k - 13), 8192) ELSE NMulS(NPow2(k - 1), 2)
RECURSIVE HornerB(_, _)
HornerB(bytes, i) == IF i > Len(bytes) THEN <<>>      \* least significant byte first
                     ELSE NAdd(NMulS(HornerB(bytes, i + 1), 256), IF bytes[i] = 0 THEN <<>> ELSE <<bytes[i]>>)
NOfInt(n) == Strip(<<n % B, (n \div B) % B, n \div (B * B)>>)

(* ---- integers ---- *)
Mk(s, n) == <<IF n = <<>> THEN 0 ELSE s, n>>
IOf(n) == IF n < 0 THEN Mk(-1, NOfInt(-n)) ELSE Mk(1, NOfInt(n))
INeg(a) == <<-a[1], a[2]>>
IAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[1] = b[1] THEN Mk(a[1], NAdd(a[2], b[2]))
              ELSE IF NCmp(a[2], b[2]) >= 0 THEN Mk(a[1], NSub(a[2], b[2])) ELSE Mk(b[1], NSub(b[2], a[2]))
IMul(a, b) == Mk(a[1] * b[1], NMul(a[2], b[2]))
ICmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE a[1] * NCmp(a[2], b[2])
(* quotient rounded down *)
IFloor(a, d) == LET qr == NDivMod(a[2], d) IN IF a[1] >= 0 \/ qr[2] = <<>> THEN Mk(a[1], qr[1]) ELSE Mk(-1, NAdd(qr[1], <<1>>))

(* ---- numbers ---- *)
VNaN == <<0, <<>>, <<>>>>
VInf == <<1, <<1>>, <<>>>>
VNegInf == <<-1, <<1>>, <<>>>>
VZero == <<0, <<>>, <<1>>>>
VInt(i) == <<i[1], i[2], <<1>>>>
Fin(a) == a[3] # <<>>
NaNV(a) == a = VNaN
InfV(a) == a[3] = <<>> /\ a[1] # 0
IsIntV(a) == a[3] = <<1>>
Num(a) == <<a[1], a[2]>>
Canonical(a) == IF a[3] = <<>> THEN a \in {VNaN, VInf, VNegInf}
                ELSE IF a[2] = <<>> THEN a = VZero
                ELSE a[1] \in {-1, 1} /\ (a[3] = <<1>> \/ NGcd(a[2], a[3]) = <<1>>)
(* a fraction that need not be in lowest terms *)
Frac(i, d) == <<i[1], i[2], d>>
SameV(a, b) == IF Fin(a) /\ Fin(b) THEN a[1] = b[1] /\ NMul(a[2], b[3]) = NMul(b[2], a[3])
               ELSE a[1] = b[1] /\ Fin(a) = Fin(b)
VNeg(a) == <<-a[1], a[2], a[3]>>
VAdd(a, b) == IF NaNV(a) \/ NaNV(b) THEN VNaN
              ELSE IF Fin(a) /\ Fin(b) THEN Frac(IAdd(IMul(Num(a), Mk(1, b[3])), IMul(Num(b), Mk(1, a[3]))), NMul(a[3], b[3]))
              ELSE IF Fin(a) THEN b ELSE IF Fin(b) THEN a ELSE IF a = b THEN a ELSE VNaN
VSub(a, b) == VAdd(a, VNeg(b))
VMul(a, b) == IF NaNV(a) \/ NaNV(b) THEN VNaN
              ELSE IF Fin(a) /\ Fin(b) THEN Frac(IMul(Num(a), Num(b)), NMul(a[3], b[3]))
              ELSE IF a[1] * b[1] = 0 THEN VNaN ELSE <<a[1] * b[1], <<1>>, <<>>>>
VDiv(a, b) == IF NaNV(a) \/ NaNV(b) \/ (b[1] = 0) THEN VNaN
              ELSE IF Fin(a) /\ Fin(b) THEN Frac(Mk(a[1] * b[1], NMul(a[2], b[3])), NMul(a[3], b[2]))
              ELSE IF Fin(a) THEN VZero ELSE IF Fin(b) THEN <<a[1] * b[1], <<1>>, <<>>>> ELSE VNaN
VCmp(a, b) == IF Fin(a) /\ Fin(b) THEN ICmp(IMul(Num(a), Mk(1, b[3])), IMul(Num(b), Mk(1, a[3])))
              ELSE IF a = b THEN 0
              ELSE IF ~Fin(a) THEN a[1] ELSE -b[1]
VFloor(a) == IF Fin(a) THEN VInt(IFloor(Num(a), a[3])) ELSE a
VCeil(a) == VNeg(VFloor(VNeg(a)))
VTrunc(a) == IF a[1] >= 0 THEN VFloor(a) ELSE VCeil(a)
VAbs(a) == IF a[1] < 0 THEN VNeg(a) ELSE a
VInv(a) == IF NaNV(a) THEN a ELSE IF Fin(a) THEN (IF a[1] = 0 THEN VNaN ELSE <<a[1], a[3], a[2]>>) ELSE VZero
VMin(a, b) == IF NaNV(a) \/ NaNV(b) THEN VNaN ELSE IF VCmp(a, b) <= 0 THEN a ELSE b
VMax(a, b) == IF NaNV(a) \/ NaNV(b) THEN VNaN ELSE IF VCmp(a, b) >= 0 THEN a ELSE b
(* a - b * floor(a / b), integers *)
VMod(a, b) == LET q == IFloor(Mk(a[1] * b[1], a[2]), b[2]) IN VInt(IAdd(Num(a), INeg(IMul(Num(b), q))))
VGcd(a, b) == VInt(Mk(1, NGcd(a[2], b[2])))
VPow2(k) == IF k >= 0 THEN <<1, NPow2(k), <<1>>>> ELSE <<1, <<1>>, NPow2(-k)>>
IntV(n) == VInt(IOf(n))

(* ---- text ---- *)
Pad(n) == IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE ""
RECURSIVE TextF(_, _)
TextF(a, i) == IF i = 0 THEN "" ELSE Pad(a[i]) \o ToString(a[i]) \o TextF(a, i - 1)
ToStringN(a) == IF a = <<>> THEN "0" ELSE ToString(a[Len(a)]) \o TextF(a, Len(a) - 1)
VText(a) == IF NaNV(a) THEN "NaN" ELSE IF a = VInf THEN "infty" ELSE IF a = VNegInf THEN "-infty"
            ELSE (IF a[1] < 0 THEN "-" ELSE "") \o ToStringN(a[2]) \o (IF a[3] = <<1>> THEN "" ELSE "/" \o ToStringN(a[3]))
=============================================================================
