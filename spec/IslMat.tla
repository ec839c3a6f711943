------------------------------- MODULE IslMat -------------------------------
(* Integer matrices and vectors (C25).  A matrix is [r, c, e]: r rows of c   *)
(* integers of any size, e its rows; a vector is a matrix of one row.  Every *)
(* result satisfies the equations that define it, and what the caller kept   *)
(* of the operands is unchanged.                                             *)
EXTENDS IslJudge
BN == INSTANCE IslBig

Zr == <<0, <<>>>>
On == <<1, <<1>>>>
Mat(r, c, F(_, _)) == [r |-> r, c |-> c, e |-> [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]]
RECURSIVE SumF(_, _)
SumF(s, i) == IF i > Len(s) THEN Zr ELSE BN!IAdd(s[i], SumF(s, i + 1))
SumOf(s) == SumF(s, 1)
Prod(a, b) == Mat(a.r, b.c, LAMBDA i, j : SumOf([k \in 1..a.c |-> BN!IMul(a.e[i][k], b.e[k][j])]))
Scal(d, a) == Mat(a.r, a.c, LAMBDA i, j : BN!IMul(d, a.e[i][j]))
Sum(a, b) == Mat(a.r, a.c, LAMBDA i, j : BN!IAdd(a.e[i][j], b.e[i][j]))
Tr(a) == Mat(a.c, a.r, LAMBDA i, j : a.e[j][i])
Ident(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN On ELSE Zr)
Zeros(r, c) == Mat(r, c, LAMBDA i, j : Zr)
Below(a, b) == [r |-> a.r + b.r, c |-> a.c, e |-> a.e \o b.e]
Beside(a, b) == Mat(a.r, a.c + b.c, LAMBDA i, j : IF j <= a.c THEN a.e[i][j] ELSE b.e[i][j - a.c])
RowsOf(a, f, n) == [r |-> n, c |-> a.c, e |-> SubSeq(a.e, f + 1, f + n)]        \* n rows from position f
ColsOf(a, f, n) == Mat(a.r, n, LAMBDA i, j : a.e[i][f + j])
IsNull(a) == \A i \in 1..a.r, j \in 1..a.c : a.e[i][j] = Zr

(* the rank, by elimination without division *)
RECURSIVE RankOf(_, _)
RankOf(rows, c) ==
   IF c = 0 \/ rows = <<>> THEN 0
   ELSE LET P == {i \in DOMAIN rows : rows[i][1] # Zr}
            cut(v) == SubSeq(v, 2, c)
        IN IF P = {} THEN RankOf([i \in DOMAIN rows |-> cut(rows[i])], c - 1)
           ELSE LET p == CHOOSE i \in P : \A j \in P : i <= j
                    lead == rows[p]
                    red(v) == [j \in 1..c |-> BN!IAdd(BN!IMul(lead[1], v[j]), BN!INeg(BN!IMul(v[1], lead[j])))]
                    rest == [i \in 1..(Len(rows) - 1) |-> LET v == rows[IF i < p THEN i ELSE i + 1] IN IF v[1] = Zr THEN cut(v) ELSE cut(red(v))]
                IN 1 + RankOf(rest, c - 1)
Rank(a) == RankOf(a.e, a.c)

(* the determinant *)
RECURSIVE Det(_)
Det(a) == IF a.r = 0 THEN On
          ELSE SumOf([j \in 1..a.c |->
                               IF a.e[1][j] = Zr THEN Zr
                                ELSE LET m == Mat(a.r - 1, a.c - 1, LAMBDA i, k : a.e[i + 1][IF k < j THEN k ELSE k + 1])
                                         d == BN!IMul(a.e[1][j], Det(m))
                                     IN IF j % 2 = 1 THEN d ELSE BN!INeg(d)])
Unimodular(a) == a.r = a.c /\ Det(a) \in {On, BN!INeg(On)}
RECURSIVE GcdOf(_)
GcdOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN BN!NGcd(x[2], GcdOf(S \ {x}))
Content(a) == GcdOf({a.e[i][j] : i \in 1..a.r, j \in 1..a.c})
Pick(S, i) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1
Minors(a) == {Det(Mat(a.r, a.r, LAMBDA i, j : a.e[i][Pick(S, j)])) : S \in {S \in SUBSET (1..a.c) : Cardinality(S) = a.r}}
Completable(a) == a.r <= a.c /\ GcdOf(Minors(a)) = <<1>>

(* b = d a for some positive integer d *)
Multiple(b, a) == /\ b.r = a.r /\ b.c = a.c
                  /\ IF IsNull(a) THEN IsNull(b)
                     ELSE LET n == CHOOSE n \in (1..a.r) \X (1..a.c) : a.e[n[1]][n[2]] # Zr
                              x == a.e[n[1]][n[2]]
                              y == b.e[n[1]][n[2]]
                          IN y # Zr /\ y[1] = x[1] /\ Scal(x, b) = Scal(y, a) /\ BN!NDivMod(y[2], x[2])[2] = <<>>

(* the row of a column's first non-zero entry *)
Lead(h, j) == LET P == {i \in 1..h.r : h.e[i][j] # Zr} IN IF P = {} THEN h.r + j ELSE CHOOSE i \in P : \A k \in P : i <= k
Hermite(h, neg) == /\ \A j \in 1..(h.c - 1) : Lead(h, j) < Lead(h, j + 1)
                   /\ \A j \in 1..h.c : Lead(h, j) <= h.r =>
                        LET p == h.e[Lead(h, j)][j] IN
                        /\ p[1] = 1
                        /\ \A k \in 1..(j - 1) : LET x == h.e[Lead(h, j)][k] IN
                              x[1] \in {0, IF neg = 1 THEN -1 ELSE 1} /\ BN!NCmp(x[2], p[2]) < 0

Swap(i, j, k) == IF k = i THEN j ELSE IF k = j THEN i ELSE k
(* move n elements from position s so that they start at position d (0 based) *)
From(d, s, n, k) == IF k > d /\ k <= d + n THEN s + (k - d)
                    ELSE LET r == IF k <= d THEN k ELSE k - n IN IF r <= s THEN r ELSE r + n
Moved(a, d, s, n) == Mat(a.r, a.c, LAMBDA i, j : a.e[i][From(d, s, n, j)])
Sorted(a, b) == /\ \A j \in 1..(b.c - 1) : BN!ICmp(b.e[1][j], b.e[1][j + 1]) <= 0
                /\ b.r = 1 /\ b.c = a.c
                /\ \A j \in 1..a.c : Cardinality({k \in 1..a.c : a.e[1][k] = a.e[1][j]}) = Cardinality({k \in 1..b.c : b.e[1][k] = a.e[1][j]})
Primitive(b, a) == b.r = a.r /\ b.c = a.c /\ IF IsNull(a) THEN IsNull(b) ELSE Multiple(a, b) /\ Content(b) = <<1>>
InsC(a, p, n) == Beside(Beside(ColsOf(a, 0, p), Zeros(a.r, n)), ColsOf(a, p, a.c - p))
InsR(a, p, n) == Below(Below(RowsOf(a, 0, p), Zeros(n, a.c)), RowsOf(a, p, a.r - p))
DropC(a, p, n) == Beside(ColsOf(a, 0, p), ColsOf(a, p + n, a.c - p - n))
DropR(a, p, n) == Below(RowsOf(a, 0, p), RowsOf(a, p + n, a.r - p - n))
Put(a, r, c, v) == Mat(a.r, a.c, LAMBDA i, j : IF i = r + 1 /\ j = c + 1 THEN v ELSE a.e[i][j])
(* the affine maps [d 0; c A]: both scaled to the least common denominator, the constants added *)
AffSum(a, b, s) == LET da == a.e[1][1]
                       db == b.e[1][1]
                       d == s.e[1][1]
                       g == <<1, BN!NGcd(da[2], db[2])>>
                   IN /\ BN!IMul(d, g) = BN!IMul(da, db)
                      /\ s.r = a.r /\ s.c = a.c + b.c - 1
                      /\ \A j \in 2..s.c : s.e[1][j] = Zr
                      /\ \A i \in 2..s.r :
                           /\ BN!IMul(BN!IMul(da, db), s.e[i][1]) = BN!IMul(d, BN!IAdd(BN!IMul(db, a.e[i][1]), BN!IMul(da, b.e[i][1])))
                           /\ \A j \in 2..a.c : BN!IMul(da, s.e[i][j]) = BN!IMul(d, a.e[i][j])
                           /\ \A j \in 2..b.c : BN!IMul(db, s.e[i][a.c + j - 1]) = BN!IMul(d, b.e[i][j])
UpDiv(x, d) == BN!INeg(BN!IFloor(BN!INeg(x), d[2]))

(* what the result of the operation q on matrices m, integers i and number n is, when that determines it *)
Fixed == {"product", "transpose", "diagonal", "concat", "swap_cols", "swap_rows", "drop_cols", "drop_rows", "insert_cols", "insert_rows",
          "move", "identity", "lin_to_aff", "set", "col_add", "same", "neg", "add", "fill", "ceil", "norm_row"}
Det1(q, m, i, n) ==
   CASE q = "product" -> Prod(m[1], m[2]) [] q = "transpose" -> Tr(m[1])
     [] q = "diagonal" -> Below(Beside(m[1], Zeros(m[1].r, m[2].c)), Beside(Zeros(m[2].r, m[1].c), m[2]))
     [] q = "concat" -> Below(m[1], m[2]) [] q = "beside" -> Beside(m[1], m[2])
     [] q = "swap_cols" -> Mat(m[1].r, m[1].c, LAMBDA r, c : m[1].e[r][Swap(i[1] + 1, i[2] + 1, c)])
     [] q = "swap_rows" -> Mat(m[1].r, m[1].c, LAMBDA r, c : m[1].e[Swap(i[1] + 1, i[2] + 1, r)][c])
     [] q = "drop_cols" -> DropC(m[1], i[1], i[2]) [] q = "drop_rows" -> DropR(m[1], i[1], i[2])
     [] q = "insert_cols" -> InsC(m[1], i[1], i[2]) [] q = "insert_rows" -> InsR(m[1], i[1], i[2])
     [] q = "move" -> Moved(m[1], i[1], i[2], i[3]) [] q = "identity" -> Ident(i[1])
     [] q = "lin_to_aff" -> Below(Beside(Ident(1), Zeros(1, m[1].c)), Beside(Zeros(m[1].r, 1), m[1]))
     [] q = "set" -> Put(m[1], i[1], i[2], n)
     [] q = "col_add" -> Mat(m[1].r, m[1].c, LAMBDA r, c : IF c = i[1] + 1 THEN BN!IAdd(m[1].e[r][c], m[1].e[r][i[2] + 1]) ELSE m[1].e[r][c])
     [] q = "same" -> m[1] [] q = "neg" -> Scal(BN!INeg(On), m[1]) [] q = "add" -> Sum(m[1], m[2])
     [] q = "fill" -> Mat(m[1].r, m[1].c, LAMBDA r, c : n)
     [] q = "ceil" -> Mat(1, m[1].c, LAMBDA r, c : IF c = 1 THEN On ELSE UpDiv(m[1].e[1][c], m[1].e[1][1]))
     [] OTHER -> m[1]

SignOf(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Good(q, m, i, n, v) ==
   CASE q \in {"sort"} -> Sorted(m[1], v.m[1])
     [] q = "normalize" -> Primitive(v.m[1], m[1])
     [] q = "normalize_row" -> /\ v.m[1].r = m[1].r /\ v.m[1].c = m[1].c
                               /\ \A r \in 1..m[1].r : IF r = i[1] + 1 THEN Primitive(RowsOf(v.m[1], r - 1, 1), RowsOf(m[1], r - 1, 1))
                                                       ELSE v.m[1].e[r] = m[1].e[r]
     [] q = "aff_direct_sum" -> AffSum(m[1], m[2], v.m[1])
     [] q = "inverse_product" -> v.m[1].r = m[1].c /\ Multiple(Prod(m[1], v.m[1]), m[2])
     [] q = "right_inverse" -> v.m[1].r = m[1].c /\ v.m[1].c = m[1].c      \* followed by columns in the kernel
                                /\ Multiple(Prod(m[1], v.m[1]), Beside(Ident(m[1].r), Zeros(m[1].r, m[1].c - m[1].r)))
                                /\ Rank(v.m[1]) = m[1].c
     [] q = "right_kernel" -> LET k == v.m[1] IN /\ k.r = m[1].c /\ k.c = m[1].c - Rank(m[1]) /\ IsNull(Prod(m[1], k))
                                                 /\ (k.c > 0 => Completable(Tr(k)))
     [] q = "hermite" -> LET H == v.m[1] IN
          /\ H.r = m[1].r /\ H.c = m[1].c /\ Hermite(H, i[1])
          /\ (i[2] = 1 => Unimodular(v.m[2]) /\ Prod(m[1], v.m[2]) = H)
          /\ (i[3] = 1 => Unimodular(v.m[3]) /\ Prod(H, v.m[3]) = m[1])
     [] q = "unimodular_complete" -> Unimodular(v.m[1]) /\ RowsOf(v.m[1], 0, i[1]) = RowsOf(m[1], 0, i[1])
     [] q = "row_basis" -> LET k == Rank(m[1]) IN v.m[1].c = m[1].c /\ v.m[1].r = k /\ Rank(v.m[1]) = k /\ Rank(Below(v.m[1], m[1])) = k
     [] q = "row_basis_extension" -> LET k == Rank(Below(m[1], m[2])) IN
          /\ v.m[1].c = m[1].c /\ v.m[1].r = k - Rank(m[1])
          /\ Rank(Below(m[1], v.m[1])) = k /\ Rank(Below(Below(m[1], m[2]), v.m[1])) = k
     [] q = "rank" -> v.n = Rank(m[1])
     [] q = "independent" -> (v.n = 1) = (Rank(Below(m[1], m[2])) = Rank(m[1]) + Rank(m[2]))
     [] q = "is_equal" -> (v.n = 1) = (m[1] = m[2])
     [] q = "initial" -> v.n = LET Z == {j \in 1..m[1].c : \A r \in 1..m[1].r : m[1].e[r][j] = Zr}
                               IN IF Z = {} THEN m[1].c ELSE (CHOOSE j \in Z : \A k \in Z : j <= k) - 1
     [] q = "cmp" -> SignOf(v.n) = BN!ICmp(m[1].e[1][i[1] + 1], m[2].e[1][i[1] + 1])
     [] OTHER -> v.m[1] = Det1(q, m, i, n)
(* when there is no such result *)
Fails(q, m, i) == CASE q = "inverse_product" -> m[1].r # m[1].c \/ (IF m[1].r = m[1].c THEN Det(m[1]) = Zr ELSE TRUE)
                    [] q = "right_inverse" -> Rank(m[1]) < m[1].r
                    [] q = "unimodular_complete" -> ~Completable(RowsOf(m[1], 0, i[1]))
                    [] q \in {"product", "concat"} -> FALSE
                    [] OTHER -> FALSE
Judgement(e, s, h) == LET x == e.x IN
   IF e.v.k = "err" THEN Fails(x.q, x.m, x.i)
   ELSE /\ ~Fails(x.q, x.m, x.i)
        /\ \A j \in DOMAIN e.v.keep : LET w == e.v.keep[j] IN w.m = x.m[w.j]
        /\ Good(x.q, x.m, x.i, x.n, e.v)
Expected(e, s, h) == <<e.x, IF e.x.q \in Fixed THEN Det1(e.x.q, e.x.m, e.x.i, e.x.n) ELSE <<>>>>
=============================================================================
