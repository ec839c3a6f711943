------------------------------ MODULE IslPoint ------------------------------
(* Named integer points, the things sets and relations are made of.          *)
(*                                                                           *)
(*   leaf point   <<name, <<c1, ..., cn>>>>          name "" : no tuple name *)
(*   pair point   <<name, L, R>>                     a wrapped map element   *)
(*   leaf shape   <<name, n>>                                                *)
(*   pair shape   <<name, SL, SR>>                                           *)
(*                                                                           *)
(* A parameter valuation is the tuple of the values of the session's         *)
(* parameters, in the session's order.  An element of a set is <<v, x>>, an  *)
(* element of a relation is <<v, x, y>>, an element of a parameter set <<v>>.*)
EXTENDS Integers, Sequences, FiniteSets

IsPair(x) == Len(x) = 3
Pair(x, y) == <<"", x, y>>

RECURSIVE Flat(_)
Flat(x) == IF Len(x) = 2 THEN x[2] ELSE Flat(x[2]) \o Flat(x[3])

RECURSIVE Size(_)          \* number of coordinates of a shape
Size(s) == IF Len(s) = 2 THEN s[2] ELSE Size(s[2]) + Size(s[3])

RECURSIVE ShapeOf(_)
ShapeOf(x) == IF Len(x) = 2 THEN <<x[1], Len(x[2])>>
              ELSE <<x[1], ShapeOf(x[2]), ShapeOf(x[3])>>

RECURSIVE Build(_, _)      \* the point of shape s with coordinates c
Build(s, c) ==
  IF Len(s) = 2 THEN <<s[1], c>>
  ELSE LET k == Size(s[2])
       IN <<s[1], Build(s[2], SubSeq(c, 1, k)), Build(s[3], SubSeq(c, k + 1, Len(c)))>>

Reshape(x, c) == Build(ShapeOf(x), c)          \* same shape, other coordinates
NAt(x) == Len(Flat(x))

(* --- sequences of coordinates --- *)
DropRange(c, first, n) == SubSeq(c, 1, first) \o SubSeq(c, first + n + 1, Len(c))
TakeRange(c, first, n) == SubSeq(c, first + 1, first + n)
InsertAt0(c, pos, ins) == SubSeq(c, 1, pos) \o ins \o SubSeq(c, pos + 1, Len(c))
AddSeq(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
DiffSeq(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
NegSeq(a) == [i \in 1..Len(a) |-> -a[i]]

RECURSIVE LexLtFrom(_, _, _)
LexLtFrom(a, b, i) ==
  IF i > Len(a) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLtFrom(a, b, i + 1)
LexLt(a, b) == LexLtFrom(a, b, 1)              \* equal lengths
LexLe(a, b) == a = b \/ LexLt(a, b)

Abs(x) == IF x < 0 THEN -x ELSE x
FloorDiv(a, d) == IF d > 0 THEN a \div d ELSE (-a) \div (-d)
CeilDiv(a, d) == -FloorDiv(-a, d)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, Abs(a) % Abs(b))

InBox(c, w) == \A i \in 1..Len(c) : -w <= c[i] /\ c[i] <= w
=============================================================================
