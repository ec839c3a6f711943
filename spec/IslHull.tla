------------------------------ MODULE IslHull ------------------------------
(* Hulls and over-approximations (C05): what they may leave out (nothing)    *)
(* and what they may add.  A result is seen through a window of half width w.*)
EXTENDS IslJudge, IslGen

Kind(e) == [i \in 2..Len(e) |-> ShapeOf(e[i])]
Vec(e) == e[1] \o (IF Len(e) = 1 THEN <<>> ELSE IF Len(e) = 2 THEN Flat(e[2]) ELSE Flat(e[2]) \o Flat(e[3]))
Seen(S, v) == Windowed1(S, v)
Contains(S, v) == Seen(S, v) \subseteq v.p

(* ---- the smallest affine space through a set of integer vectors ---- *)
Lead(r) == CHOOSE i \in 1..Len(r) : r[i] # 0 /\ \A j \in 1..(i - 1) : r[j] = 0
IsZero(r) == \A i \in 1..Len(r) : r[i] = 0
RECURSIVE GcdSeq(_, _)
GcdSeq(r, i) == IF i > Len(r) THEN 0 ELSE Gcd(r[i], GcdSeq(r, i + 1))
Prim(r) == LET g == GcdSeq(r, 1) IN IF g = 0 THEN r ELSE [i \in 1..Len(r) |-> r[i] \div g]
(* every row of the basis is zero where the earlier ones have their first entry *)
RECURSIVE Red(_, _, _)
Red(r, B, k) == IF k > Len(B) \/ IsZero(r) THEN r
                ELSE LET b == B[k]
                         j == Lead(b)
                     IN Red(IF r[j] = 0 THEN r ELSE Prim([i \in 1..Len(r) |-> r[i] * b[j] - b[i] * r[j]]), B, k + 1)
RECURSIVE Span(_, _)
Span(D, B) == IF D = {} THEN B
              ELSE LET d == CHOOSE x \in D : TRUE
                       r == Red(d, B, 1)
                   IN IF IsZero(r) THEN Span(D \ {d}, B)
                      ELSE Span({x \in D \ {d} : ~IsZero(Red(x, Append(B, r), 1))}, Append(B, r))
InAffine(P, H) == LET p0 == CHOOSE p \in P : TRUE
                      B == Span({DiffSeq(p, p0) : p \in P}, <<>>)
                  IN \A h \in H : IsZero(Red(DiffSeq(h, p0), B, 1))
KindsOf(S) == {Kind(e) : e \in S}
AffTight(S, H) == KindsOf(H) \subseteq KindsOf(S) /\
                  \A k \in KindsOf(S) : InAffine({Vec(e) : e \in {f \in S : Kind(f) = k}}, {Vec(e) : e \in {f \in H : Kind(f) = k}})

(* ---- how far a set reaches in a direction ---- *)
RECURSIVE DotFrom(_, _, _)
DotFrom(d, p, i) == IF i > Len(d) THEN 0 ELSE d[i] * p[i] + DotFrom(d, p, i + 1)
Dot(d, p) == DotFrom(d, p, 1)
MaxOf(T) == CHOOSE m \in T : \A t \in T : t <= m
Tight(S, H, dirs) == LET P == {Vec(e) : e \in S}
                         Q1 == {Vec(e) : e \in H}
                     IN \A i \in DOMAIN dirs : LET m == MaxOf({Dot(dirs[i], p) : p \in P}) IN \A h \in Q1 : Dot(dirs[i], h) <= m
DirTight(S, H, dirs) == IF S = {} THEN H = {}
                        ELSE KindsOf(H) \subseteq KindsOf(S) /\
                             \A k \in KindsOf(S) : Tight({f \in S : Kind(f) = k}, {f \in H : Kind(f) = k}, dirs)

(* ---- constraints or coordinates dropped ---- *)
Set0(c, first, n) == [i \in 1..Len(c) |-> IF i > first /\ i <= first + n THEN 0 ELSE c[i]]
Blind(e, t, f, n) == CASE t = "param" -> [e EXCEPT ![1] = Set0(e[1], f, n)]
                       [] t = "set" -> [e EXCEPT ![2] = Reshape(e[2], Set0(Flat(e[2]), f, n))]
                       [] t = "in" -> [e EXCEPT ![2] = Reshape(e[2], Set0(Flat(e[2]), f, n))]
                       [] t = "out" -> [e EXCEPT ![3] = Reshape(e[3], Set0(Flat(e[3]), f, n))]
InRangeAt(e, t, f, n, w) == LET c == IF t \in {"set", "in"} THEN Flat(e[2]) ELSE Flat(e[3]) IN InBox(TakeRange(c, f, n), w)
(* e belongs to the result iff any other element agreeing outside the dropped dimensions does *)
Invariant(H, x, w) == LET n1 == 2 * w + 1
                          C == {Blind(e, x.t, x.f, x.n) : e \in H}
                      IN \A c \in C : Cardinality({e \in H : Blind(e, x.t, x.f, x.n) = c}) = (IF x.n = 0 THEN 1 ELSE IF x.n = 1 THEN n1 ELSE IF x.n = 2 THEN n1 * n1 ELSE n1 * n1 * n1)

(* ---- boxes, lattices, strides ---- *)
InSlot(o, c, i, size) == QLe(o, Q(c)) /\ QLt(Q(c), QAdd(o, size))
OnSlot(o, c, i, size) == QIsInt(o) /\ (IF size = Q(0) THEN o = Q(c) ELSE (c - o[1]) % size[1] = 0)
Pts(S) == {IF Len(s) = 2 THEN <<s[1], Unit, s[2]>> ELSE s : s \in S}
Slots(S, F, size, ok(_, _, _, _)) ==
  \A s \in {t \in Pts(S) : <<t[1], t[2]>> \in FDom(F)} : \A y \in At(F, s[1], s[2]) :
      \A i \in 1..Len(size) : ok(Flat(y)[i], Flat(s[3])[i], i, size[i])
SizesTight(S, x) == IF "exp" \in DOMAIN x THEN x.exp = x.size ELSE TRUE
StrideOK(S, F, x) ==
  \A s \in S : \A y \in At(F, s[1], s[2]) : OnSlot(Val1(y), Flat(IF x.set THEN s[2] ELSE s[3])[x.i + 1], x.i, x.stride)

(* a box has as many points as its extents allow *)
RECURSIVE Prod(_, _)
Prod(c, i) == IF i > Len(c) THEN 1 ELSE c[i] * Prod(c, i + 1)
FillsBox(S) == \A v \in ParamsOf(S) :
                LET P == {Flat(s[2]) : s \in {t \in S : t[1] = v[1]}}
                    n == Len(CHOOSE p \in P : TRUE)
                    ext == [i \in 1..n |-> MaxOf({p[i] : p \in P}) + MaxOf({-p[i] : p \in P}) + 1]
                IN Cardinality(P) = Prod(ext, 1)

(* generated polyhedra (see IslGen) without equalities: is a coordinate in a  *)
(* constraint bounding it (in terms of the others); v: its coefficients      *)
HasLower(x) == \E i \in DOMAIN x.v : (x.v[i] > 0 /\ IsFin(x.lo[i])) \/ (x.v[i] < 0 /\ IsFin(x.hi[i]))
HasUpper(x) == \E i \in DOMAIN x.v : (x.v[i] < 0 /\ IsFin(x.lo[i])) \/ (x.v[i] > 0 /\ IsFin(x.hi[i]))
GenDim(x) == CASE x.q = "bounded" -> HasLower(x) /\ HasUpper(x)
               [] x.q \in {"upper", "any_upper"} -> HasUpper(x)
               [] x.q \in {"lower", "any_lower"} -> HasLower(x)

HullOK(e, A, x, v) ==
  LET S == A[1].p
      H == v.p
  IN CASE e.op = "sup" -> Contains(S, v)
       [] e.op = "list" -> Contains(S, v)
       [] e.op = "exact" -> Seen(S, v) = H
       [] e.op = "aff" -> Contains(S, v) /\ AffTight(S, H)
       [] e.op = "hull" -> Contains(S, v) /\ DirTight(S, H, x.dirs)
       [] e.op = "dropc" -> Contains(S, v) /\ (x.t = "param" \/ Invariant(H, x, v.w))
       [] e.op = "rem" -> Seen({IF x.t = "param" THEN [s EXCEPT ![1] = s[1]]
                                ELSE IF x.t \in {"set", "in"} THEN [s EXCEPT ![2] = <<"", DropRange(Flat(s[2]), x.f, x.n)>>]
                                ELSE [s EXCEPT ![3] = <<"", DropRange(Flat(s[3]), x.f, x.n)>>] : s \in S}, v) \subseteq
                           {IF Len(h) = 1 THEN h ELSE IF x.t \in {"set", "in"} THEN [h EXCEPT ![2] = <<"", Flat(h[2])>>] ELSE [h EXCEPT ![3] = <<"", Flat(h[3])>>] : h \in H}
       [] e.op = "fbox" -> IF x.valid = 1 THEN Slots(S, H, x.size, InSlot) /\ SizesTight(S, x) ELSE "exp" \notin DOMAIN x
       [] e.op = "tile" -> x.valid = 1 /\ Slots(S, H, x.size, OnSlot) /\ SizesTight(S, x)
       [] e.op = "stride" -> StrideOK(S, H, x)
Ask5(e, A, x, v) ==
  LET S == A[1].p
  IN CASE e.op = "fixed" -> v.q = NaN \/ S = {} \/
                            \A s \in S : Q((CASE x.t = "param" -> s[1] [] x.t \in {"set", "in"} -> Flat(s[2]) [] x.t = "out" -> Flat(s[3]))[x.i + 1]) = v.q
       [] e.op = "stride_val" -> v.q = x.exp
       [] e.op = "yes" -> v.b = 1
       [] e.op = "yes_ne" -> S = {} \/ v.b = 1
       [] e.op = "is_box" -> v.b = 0 \/ S = {} \/ FillsBox(S)
       [] e.op = "gen_dimb" -> (v.b = 1) = GenDim(x)

Judgement(e, s, h) ==
  LET A == ArgsOf(e, h)
      v == Value(e.v)
  IN CASE v.k = "big" -> TRUE
       [] v.k = "err" -> FALSE
       [] v.k \in {"q", "b"} -> Ask5(e, A, e.x, v)
       [] OTHER -> HullOK(e, A, e.x, v)
Expected(e, s, h) == LET A == ArgsOf(e, h) IN IF e.a = <<>> THEN "none" ELSE IF e.op \in {"sup", "aff", "hull", "dropc"} THEN <<"missing", Seen(A[1].p, Value(e.v)) \ Value(e.v).p, "extra", Value(e.v).p \ A[1].p>> ELSE <<A>>
=============================================================================
