------------------------------ MODULE IslClos ------------------------------
(* Transitive closures, powers and path lengths (C09).                       *)
(*                                                                           *)
(* A relation is a graph on its points, one graph for every value of the     *)
(* parameters.  Its k-th power connects the ends of the walks of k edges, its *)
(* transitive closure those of any walk of at least one edge.  What is        *)
(* returned contains these; when it is reported exact it contains no more.    *)
EXTENDS IslJudge, IslExpr

(* ---- finite relations, held by the caller ---- *)
Succs(R) == [n \in {<<r[1], r[2]>> : r \in R} |-> {q[3] : q \in {r \in R : r[1] = n[1] /\ r[2] = n[2]}}]
PostIn(succ, v, S) == UNION {IF <<v, y>> \in DOMAIN succ THEN succ[<<v, y>>] ELSE {} : y \in S}
RECURSIVE GrowIn(_, _, _, _), StepsIn(_, _, _, _)
GrowIn(succ, v, new, seen) == IF new = {} THEN seen
                              ELSE LET p == PostIn(succ, v, new) IN GrowIn(succ, v, p \ seen, seen \cup p)
StepsIn(succ, v, S, k) == IF k = 0 THEN S ELSE StepsIn(succ, v, PostIn(succ, v, S), k - 1)
Reachable(R) == LET succ == Succs(R) IN
   UNION {{<<n[1], n[2], y>> : y \in GrowIn(succ, n[1], {n[2]}, {})} : n \in DOMAIN succ}
Walks(R, k) == LET succ == Succs(R) IN
   UNION {{<<n[1], n[2], y>> : y \in StepsIn(succ, n[1], {n[2]}, k)} : n \in DOMAIN succ}
KTuple(k) == <<"", <<k>>>>
Powers(R, K) == UNION {{<<r[1], KTuple(k), Pair(r[2], r[3])>> : r \in Walks(R, k)} : k \in 1..K}
Lengths(R, K) == UNION {{<<r[1], r[3], KTuple(k)>> : r \in Walks(R, k)} : k \in 1..K}

(* ---- relations given by a rule: steps with distance between lo and hi, ---- *)
(* ---- where a condition on both ends holds                              ---- *)
RECURSIVE Dists(_, _, _)
Dists(lo, hi, i) == IF i > Len(lo) THEN {<<>>}
                    ELSE {<<c>> \o r : c \in lo[i]..hi[i], r \in Dists(lo, hi, i + 1)}
Plus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Next(x, v, S) == UNION {UNION {{y \in {Plus(c, d) : c \in S} : EvalC(x.parts[i].c, v, Minus(y, d) \o y, <<>>)} :
                               d \in Dists(x.parts[i].lo, x.parts[i].hi, 1)} : i \in DOMAIN x.parts}
Prev(x, v, S) == UNION {UNION {{y \in {Minus(c, d) : c \in S} : EvalC(x.parts[i].c, v, y \o Plus(y, d), <<>>)} :
                               d \in Dists(x.parts[i].lo, x.parts[i].hi, 1)} : i \in DOMAIN x.parts}
In(y, B) == \A i \in 1..Len(y) : -B <= y[i] /\ y[i] <= B
RECURSIVE GrowR(_, _, _, _), StepsR(_, _, _, _), BackR(_, _, _, _), BoxPts(_, _)
GrowR(x, v, new, seen) == IF new = {} THEN seen
                          ELSE LET p == {y \in Next(x, v, new) : In(y, x.B)} IN GrowR(x, v, p \ seen, seen \cup p)
StepsR(x, v, S, k) == IF k = 0 THEN S ELSE StepsR(x, v, Next(x, v, S), k - 1)
BackR(x, v, S, k) == IF k = 0 THEN S ELSE BackR(x, v, Prev(x, v, S), k - 1)
BoxPts(n, B) == IF n = 0 THEN {<<>>} ELSE {<<c>> \o r : c \in -B..B, r \in BoxPts(n - 1, B)}
Seen(x, S) == {y \in S : In(y, x.W)}
T(x, c) == <<x.tag, c>>
RReach(x, PV) == UNION {UNION {{<<v, T(x, c), T(x, y)>> : y \in Seen(x, GrowR(x, v, {c}, {}))} : c \in BoxPts(x.n, x.X)} : v \in PV}
RWalks(x, PV, k) == UNION {UNION {{<<v, T(x, c), T(x, y)>> : y \in Seen(x, StepsR(x, v, {c}, k))} : c \in BoxPts(x.n, x.X)} : v \in PV}
RPowers(x, PV, K) == UNION {{<<r[1], KTuple(k), Pair(r[2], r[3])>> : r \in RWalks(x, PV, k)} : k \in 1..K}
RLengths(x, PV, K) == UNION {UNION {{<<v, T(x, c), KTuple(k)>> : c \in {b \in BoxPts(x.n, x.X) : BackR(x, v, {b}, k) # {}}} : v \in PV} : k \in 1..K}
(* walks between points of the window need not leave the box x.B when: every *)
(* step goes the same way in one dimension; or there is one distance; or      *)
(* there are no conditions                                                    *)
OneDist(p) == p.lo = p.hi
Free(p) == p.c.o = "true"
Decided(x) == \/ \A i \in DOMAIN x.parts : x.parts[i].lo[1] > 0
              \/ \A i \in DOMAIN x.parts : x.parts[i].hi[1] < 0
              \/ Len(x.parts) = 1 /\ OneDist(x.parts[1])
              \/ \A i \in DOMAIN x.parts : OneDist(x.parts[i]) /\ Free(x.parts[i])
Bound(v, truth, decided) == v.ex \in {0, 1} /\ truth \subseteq v.p /\ (v.ex = 1 /\ decided => v.p = truth)

Judgement(e, s, h) ==
  LET v == Value(e.v)
      x == e.x
      R == h[e.a[1]].p
  IN CASE v.k = "err" -> FALSE
       [] v.k = "big" -> TRUE
       [] e.op = "closure" -> Bound(v, Reachable(R), TRUE)
       [] e.op = "power" -> Bound(v, Powers(R, x.K), TRUE)
       [] e.op = "lengths" -> Bound(v, Lengths(R, x.K), TRUE)
       [] e.op = "fixed_power" -> v.p = (IF x.k > 0 THEN Walks(R, x.k) ELSE {<<r[1], r[3], r[2]>> : r \in Walks(R, -x.k)})
       [] e.op = "r_closure" -> Bound(v, RReach(x, s.pv), Decided(x))
       [] e.op = "r_power" -> Bound(v, RPowers(x, s.pv, x.K), TRUE)
       [] e.op = "r_lengths" -> Bound(v, RLengths(x, s.pv, x.K), TRUE)
       [] e.op = "r_fixed_power" -> v.p = RWalks(x, s.pv, x.k)
Expected(e, s, h) == LET x == e.x
                         R == h[e.a[1]].p
                     IN CASE e.op = "closure" -> Reachable(R) [] e.op = "power" -> Powers(R, x.K) [] e.op = "lengths" -> Lengths(R, x.K)
                          [] e.op = "r_closure" -> RReach(x, s.pv) [] e.op = "r_power" -> RPowers(x, s.pv, x.K)
                          [] e.op = "r_lengths" -> RLengths(x, s.pv, x.K) [] OTHER -> 0
=============================================================================
