------------------------------ MODULE IslVert -------------------------------
(* Parametric vertices (C23).  x is a polytope: rows of coefficients of the  *)
(* parameters, the variables and 1, equal to zero (eq) or non-negative (in). *)
(* Its vertices for parameters v are the points where d independent          *)
(* constraints are tight and the others hold.                                *)
EXTENDS IslJudge

RECURSIVE VDet(_)
Minor(M, j) == [r \in 1..(Len(M) - 1) |-> [c \in 1..(Len(M) - 1) |-> M[r + 1][IF c < j THEN c ELSE c + 1]]]
VDet(M) == IF Len(M) = 1 THEN M[1][1]
           ELSE LET T == [j \in 1..Len(M) |-> (IF j % 2 = 1 THEN M[1][j] ELSE -M[1][j]) * VDet(Minor(M, j))]
                IN IF Len(M) = 2 THEN T[1] + T[2] ELSE T[1] + T[2] + T[3]
(* the constraint once the parameters are v: coefficients of the variables, constant *)
RECURSIVE DotV(_, _, _)
DotV(row, v, i) == IF i = 0 THEN 0 ELSE row[i] * v[i] + DotV(row, v, i - 1)
Inst(row, v, d) == <<[i \in 1..d |-> row[Len(v) + i]], row[Len(row)] + DotV(row, v, Len(v))>>
RECURSIVE VG(_, _)
VG(a, b) == IF b = 0 THEN a ELSE VG(b, a % b)
Pos(a) == IF a < 0 THEN -a ELSE a
Frac(n, m) == LET g == VG(Pos(n), Pos(m)) s == IF m < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * m) \div g>>

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c>> \o SeqOf(S \ {c})
(* the vertices as sequences of reduced fractions *)
VerticesOf(x, v) ==
  LET d == x.d
      E == {Inst(x.eq[i], v, d) : i \in DOMAIN x.eq}
      N == {Inst(x.in[i], v, d) : i \in DOMAIN x.in}
      C == SeqOf(E \cup N)
      Sel == {S \in [1..d -> 1..Len(C)] : \A i \in 1..(d - 1) : S[i] < S[i + 1]}
      (* a solution with its common denominator *)
      Sol(S) == LET D == VDet([r \in 1..d |-> C[S[r]][1]])
                    s == IF D < 0 THEN -1 ELSE 1
                IN <<[i \in 1..d |-> s * VDet([r \in 1..d |-> [c \in 1..d |-> IF c = i THEN -C[S[r]][2] ELSE C[S[r]][1][c]]])], s * D>>
      At2(c, p) == DotV(c[1], p[1], d) + c[2] * p[2]
      In2(p) == p[2] # 0 /\ (\A c \in E : At2(c, p) = 0) /\ (\A c \in N : At2(c, p) >= 0)
  IN {[i \in 1..d |-> Frac(p[1][i], p[2])] : p \in {q \in {Sol(S) : S \in Sel} : In2(q)}}

(* a polytope with points off every hyperplane: isl looks for the vertices of others *)
(* among the points of a lattice in their affine hull                               *)
RECURSIVE DenOf(_, _), NumOf(_, _, _, _)
DenOf(p, i) == IF i = 0 THEN 1 ELSE p[i][2] * DenOf(p, i - 1)
NumOf(c, p, D, i) == IF i = 0 THEN 0 ELSE c[i] * p[i][1] * (D \div p[i][2]) + NumOf(c, p, D, i - 1)
Tight(c, p) == LET D == DenOf(p, Len(p)) IN NumOf(c[1], p, D, Len(p)) + c[2] * D = 0
Wide(x, v) == LET T == VerticesOf(x, v)
                  N == {Inst(x.in[i], v, x.d) : i \in DOMAIN x.in}
              IN T # {} /\ \A c \in N : (\A i \in 1..x.d : c[1][i] = 0) \/ ~\A p \in T : Tight(c, p)
FullDim(x, q) == x.eq = <<>> /\ \E j \in DOMAIN q : Wide(x, q[j])

(* a recorded vertex: one row per variable, denominator first, then the parameters and the constant *)
PointOf(e, v) == [i \in DOMAIN e |-> Frac(e[i][Len(v) + 2] + DotV(Tail(e[i]), v, Len(v)), e[i][1])]
Has(q, t) == \E i \in DOMAIN q : q[i] = t
VertOK(x, r, j, v) ==
  LET T == VerticesOf(x, v)
      Pt(i) == PointOf(r.V[i].e, v)
      Cells == {i \in DOMAIN r.C : Has(r.C[i].act, j)}
  IN /\ {Pt(i) : i \in {i \in DOMAIN r.V : Has(r.V[i].act, j)}} = T
     /\ \A c \in Cells : {Pt(r.C[c].vs[i] + 1) : i \in DOMAIN r.C[c].vs} = T
     /\ (Cells = {}) = (T = {})
Judgement(e, s, h) == LET r == e.v IN
  /\ r.k = "vert" /\ r.n = Len(r.V)
  /\ \A i \in DOMAIN r.V : r.V[i].id = i - 1
  /\ FullDim(e.x, s.pvl) => \A j \in DOMAIN s.pvl : VertOK(e.x, r, j, s.pvl[j])
Expected(e, s, h) == [j \in DOMAIN s.pvl |-> <<s.pvl[j], VerticesOf(e.x, s.pvl[j])>>]
=============================================================================
