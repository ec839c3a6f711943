------------------------------- MODULE IslVal -------------------------------
(* Extended rationals <<n, d>> in lowest terms, d > 0; <<0, 0>> is not a     *)
(* number, <<1, 0>> and <<-1, 0>> are the infinities.                        *)
EXTENDS IslPoint

NaN == <<0, 0>>
Inf == <<1, 0>>
NegInf == <<-1, 0>>
IsNaN(q) == q = NaN
IsFin(q) == q[2] # 0
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Norm(n, d) == IF d = 0 THEN <<Sgn(n), 0>>
              ELSE LET g == Gcd(n, d) IN IF d > 0 THEN <<n \div g, d \div g>> ELSE <<(-n) \div g, (-d) \div g>>
Q(n) == <<n, 1>>
QNeg(a) == <<-a[1], a[2]>>
QAdd(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
              ELSE IF IsFin(a) /\ IsFin(b) THEN Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
              ELSE IF IsFin(a) THEN b ELSE IF IsFin(b) THEN a
              ELSE IF a = b THEN a ELSE NaN
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
              ELSE IF IsFin(a) /\ IsFin(b) THEN Norm(a[1] * b[1], a[2] * b[2])
              ELSE IF a[1] = 0 \/ b[1] = 0 THEN NaN ELSE <<Sgn(a[1]) * Sgn(b[1]), 0>>
QDiv(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
              ELSE IF b[1] = 0 THEN NaN
              ELSE IF ~IsFin(b) THEN (IF IsFin(a) THEN Q(0) ELSE NaN)
              ELSE IF ~IsFin(a) THEN <<Sgn(a[1]) * Sgn(b[1]), 0>>
              ELSE Norm(a[1] * b[2], a[2] * b[1])
(* comparisons of numbers other than NaN *)
QLt(a, b) == IF a = b THEN FALSE
             ELSE IF a = NegInf \/ b = Inf THEN TRUE
             ELSE IF a = Inf \/ b = NegInf THEN FALSE
             ELSE a[1] * b[2] < b[1] * a[2]
QLe(a, b) == a = b \/ QLt(a, b)
QMin(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF QLe(a, b) THEN a ELSE b
QMax(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF QLe(a, b) THEN b ELSE a
QFloor(a) == IF IsFin(a) THEN Q(a[1] \div a[2]) ELSE a
QCeil(a) == QNeg(QFloor(QNeg(a)))
QAbs(a) == <<Abs(a[1]), a[2]>>
QIsInt(a) == a[2] = 1
QTrunc(a) == IF a[1] >= 0 THEN QFloor(a) ELSE QCeil(a)
=============================================================================
