------------------------------- MODULE IslFun -------------------------------
(* Partial functions from points to tuples of extended rationals: what the   *)
(* operations on (piecewise, multi, union) affine expressions return.        *)
(*                                                                           *)
(* A function value has k = "fun" (one space) or "ufun", and p its graph:    *)
(* elements <<v, x, y>> with x a point and y = <<name, <<q1, ..., qk>>>>     *)
(* (or a nesting of those), qi extended rationals.  w as for sets, for x.    *)
(* A function of the parameters only has x = <<"", <<>>>>.                   *)
EXTENDS IslSem, IslExpr

Unit == <<"", <<>>>>
FDom(F) == {<<e[1], e[2]>> : e \in F}
At(F, v, x) == {e[3] : e \in {f \in F : f[1] = v /\ f[2] = x}}
Fix2(F, G) == {p \in F \X G : p[1][1] = p[2][1] /\ p[1][2] = p[2][2]}
Vals(y) == Flat(y)
Val1(y) == y[2][1]
MapT(y, f(_)) == Reshape(y, [i \in 1..Len(Flat(y)) |-> f(Flat(y)[i])])
Lift1(F, f(_)) == {<<e[1], e[2], MapT(e[3], f)>> : e \in F}
Lift2(F, G, f(_, _)) == {<<p[1][1], p[1][2], Reshape(p[1][3],
                            [i \in 1..Len(Flat(p[1][3])) |-> f(Flat(p[1][3])[i], Flat(p[2][3])[i])])>> : p \in Fix2(F, G)}
(* both functions where both are defined, the one that is elsewhere *)
Only(F, G) == {e \in F : <<e[1], e[2]>> \notin FDom(G)}
ULift2(F, G, f(_, _)) == Lift2(F, G, f) \cup Only(F, G) \cup Only(G, F)
Mod(a, m) == QSub(a, QMul(m, QFloor(QDiv(a, m))))
Where(F, c(_)) == {<<e[1], e[2]>> : e \in {f \in F : c(Val1(f[3]))}}
CmpQ(o, a, b) == IF IsNaN(a) \/ IsNaN(b) THEN o = "ne" /\ FALSE
                 ELSE CASE o = "eq" -> a = b [] o = "ne" -> a # b [] o = "le" -> QLe(a, b) [] o = "lt" -> QLt(a, b)
                        [] o = "ge" -> QLe(b, a) [] o = "gt" -> QLt(b, a)
CmpSet(o, F, G) == {<<p[1][1], p[1][2]>> : p \in {q \in Fix2(F, G) : CmpQ(o, Val1(q[1][3]), Val1(q[2][3]))}}
RECURSIVE QLexLtFrom(_, _, _)
QLexLtFrom(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN QLt(a[i], b[i]) ELSE QLexLtFrom(a, b, i + 1)
QLexLt(a, b) == QLexLtFrom(a, b, 1)
CmpLex(o, a, b) == CASE o = "eq" -> a = b [] o = "ne" -> a # b [] o = "lt" -> QLexLt(a, b) [] o = "le" -> a = b \/ QLexLt(a, b)
                     [] o = "gt" -> QLexLt(b, a) [] o = "ge" -> a = b \/ QLexLt(b, a)
(* pairs of points whose values compare *)
CmpMap(o, F, G) == {<<p[1][1], p[1][2], p[2][2]>> :
                     p \in {q \in F \X G : q[1][1] = q[2][1] /\ CmpLex(o, Flat(q[1][3]), Flat(q[2][3]))}}
LexSetF(o, F, G) == {<<p[1][1], p[1][2]>> : p \in {q \in Fix2(F, G) : CmpLex(o, Flat(q[1][3]), Flat(q[2][3]))}}
ULex(o, F, G) == {p[1] : p \in {q \in Fix2(F, G) : CmpLex(IF o = "min" THEN "le" ELSE "ge", Flat(q[1][3]), Flat(q[2][3]))}}
                 \cup {p[2] : p \in {q \in Fix2(F, G) : CmpLex(IF o = "min" THEN "lt" ELSE "gt", Flat(q[2][3]), Flat(q[1][3]))}}
                 \cup Only(F, G) \cup Only(G, F)
IntVals(y) == \A i \in 1..Len(Flat(y)) : QIsInt(Flat(y)[i])
AsPoint(y) == Reshape(y, [i \in 1..Len(Flat(y)) |-> Flat(y)[i][1]])
AsVals(x) == Reshape(x, [i \in 1..Len(Flat(x)) |-> Q(Flat(x)[i])])
AsRel(F) == {<<e[1], e[2], AsPoint(e[3])>> : e \in {f \in F : IntVals(f[3])}}
AsFun(R) == {<<r[1], r[2], AsVals(r[3])>> : r \in R}
InDomOf(F, S) == {e \in F : <<e[1], e[2]>> \in S}
OutDomOf(F, S) == {e \in F : <<e[1], e[2]>> \notin S}
AllCmp(o, a, b) == \A i \in 1..Len(a) : CmpQ(o, a[i], b[i])
LiftI(F, f(_, _), qs) == {<<e[1], e[2], Reshape(e[3], [i \in 1..Len(qs) |-> f(Flat(e[3])[i], qs[i])])>> : e \in F}
TDivQ(a, b) == QTrunc(QDiv(a, b))

(* composition: G first.  A value of G that is no integer point, or that lies *)
(* outside the window through which F is seen, leaves the composition open.   *)
Opaque(G, w) == {<<e[1], e[2]>> : e \in {g \in G : ~IntVals(g[3]) \/ (w # 0 /\ ~InBox(Flat(AsPoint(g[3])), w))}}
PullF(F, G) == UNION {{<<g[1], g[2], y>> : y \in At(F, g[1], AsPoint(g[3]))} : g \in {h \in G : IntVals(h[3])}}
PullS(S, G) == {<<g[1], g[2]>> : g \in {h \in G : IntVals(h[3]) /\ <<h[1], AsPoint(h[3])>> \in S}}
PullDom(R, G) == {<<p[1][1], p[1][2], p[2][3]>> :
                   p \in {q \in G \X R : q[1][1] = q[2][1] /\ IntVals(q[1][3]) /\ AsPoint(q[1][3]) = q[2][2]}}
PullRan(R, G) == {<<p[2][1], p[2][2], p[1][2]>> :
                   p \in {q \in G \X R : q[1][1] = q[2][1] /\ IntVals(q[1][3]) /\ AsPoint(q[1][3]) = q[2][3]}}

FunP(op, A, x, PV, W) ==
  LET F == A[1].p
      G == A[2].p
      c == x.q
  IN CASE op = "f_same" -> F
       [] op = "f_add" -> Lift2(F, G, QAdd)
       [] op = "f_sub" -> Lift2(F, G, QSub)
       [] op = "f_mul" -> Lift2(F, G, QMul)
       [] op = "f_div" -> Lift2(F, G, QDiv)
       [] op = "f_min" -> Lift2(F, G, QMin)
       [] op = "f_max" -> Lift2(F, G, QMax)
       [] op = "f_tdiv_q" -> Lift2(F, G, TDivQ)
       [] op = "f_tdiv_r" -> Lift2(F, G, LAMBDA a, b : QSub(a, QMul(b, TDivQ(a, b))))
       [] op = "f_union_add" -> ULift2(F, G, QAdd)
       [] op = "f_union_min" -> ULift2(F, G, QMin)
       [] op = "f_union_max" -> ULift2(F, G, QMax)
       [] op = "f_union_lexmin" -> ULex("min", F, G)
       [] op = "f_union_lexmax" -> ULex("max", F, G)
       [] op = "f_neg" -> Lift1(F, QNeg)
       [] op = "f_floor" -> Lift1(F, QFloor)
       [] op = "f_ceil" -> Lift1(F, QCeil)
       [] op = "f_mod" -> Lift1(F, LAMBDA a : Mod(a, c))
       [] op = "f_scale" -> Lift1(F, LAMBDA a : QMul(a, c))
       [] op = "f_scale_down" -> Lift1(F, LAMBDA a : QDiv(a, c))
       [] op = "f_add_constant" -> Lift1(F, LAMBDA a : QAdd(a, c))
       [] op = "f_cond" -> {p[2] : p \in {q \in Fix2(F, G) : Val1(q[1][3])[1] # 0}}
                           \cup {p[2] : p \in {q \in Fix2(F, A[3].p) : Val1(q[1][3]) = Q(0)}}
       [] op = "f_intersect_domain" -> InDomOf(F, G)
       [] op = "f_intersect_domain_params" -> {e \in F : <<e[1]>> \in G}
       [] op = "f_intersect_params" -> {e \in F : <<e[1]>> \in G}
       [] op = "f_subtract_params" -> {e \in F : <<e[1]>> \notin G}
       [] op = "f_subtract_domain" -> OutDomOf(F, G)
       [] op = "f_inter_wr_dom" -> {e \in F : IsPair(e[2]) /\ <<e[1], e[2][2]>> \in G}
       [] op = "f_inter_wr_ran" -> {e \in F : IsPair(e[2]) /\ <<e[1], e[2][3]>> \in G}
       [] op = "f_domain" -> FDom(F)
       [] op = "f_domain_params" -> {<<e[1]>> : e \in F}
       [] op = "f_params" -> {<<e[1]>> : e \in F}
       [] op = "f_zero_set" -> Where(F, LAMBDA a : a = Q(0))
       [] op = "f_non_zero_set" -> Where(F, LAMBDA a : ~IsNaN(a) /\ a # Q(0))
       [] op = "f_pos_set" -> Where(F, LAMBDA a : a[1] > 0)
       [] op = "f_nonneg_set" -> Where(F, LAMBDA a : ~IsNaN(a) /\ a[1] >= 0)
       [] op = "f_neg_set" -> Where(F, LAMBDA a : a[1] < 0)
       [] op = "f_cmp_set" -> CmpSet(x.c, F, G)
       [] op = "f_cmp_map" -> CmpMap(x.c, F, G)
       [] op = "f_lex_set" -> LexSetF(x.c, F, G)
       [] op = "f_zero_uset" -> {<<e[1], e[2]>> : e \in {f \in F : \A i \in 1..Len(Flat(f[3])) : Flat(f[3])[i] = Q(0)}}
       [] op = "f_as_map" -> AsRel(F)
       [] op = "f_as_set" -> {<<e[1], e[3]>> : e \in AsRel(F)}
       [] op = "f_from_map" -> AsFun(F)
       [] op = "f_from_set" -> {<<e[1], Unit, AsVals(e[2])>> : e \in F}
       [] op = "f_at" -> {<<e[1], e[2], <<"", <<Flat(e[3])[x.i + 1]>>>>>> : e \in F}
       [] op = "f_range_product" -> {<<p[1][1], p[1][2], Pair(p[1][3], p[2][3])>> : p \in Fix2(F, G)}
       [] op = "f_flat_range_product" -> {<<p[1][1], p[1][2], <<"", Flat(p[1][3]) \o Flat(p[2][3])>>>> : p \in Fix2(F, G)}
       [] op = "f_product" -> {<<p[1][1], Pair(p[1][2], p[2][2]), Pair(p[1][3], p[2][3])>> : p \in {q \in F \X G : q[1][1] = q[2][1]}}
       [] op = "f_range_factor_domain" -> {<<e[1], e[2], e[3][2]>> : e \in {f \in F : IsPair(f[3])}}
       [] op = "f_range_factor_range" -> {<<e[1], e[2], e[3][3]>> : e \in {f \in F : IsPair(f[3])}}
       [] op = "f_project_domain_on_params" -> {<<e[1], Unit, e[3]>> : e \in F}
       [] op = "f_to_multi" -> F
       [] op = "f_pullback" -> PullF(F, G)
       [] op = "f_preimage_set" -> PullS(F, G)
       [] op = "f_preimage_domain" -> PullDom(F, G)
       [] op = "f_preimage_range" -> PullRan(F, G)
       [] op = "f_apply_set" -> {<<p[1][1], AsPoint(p[2][3])>> :
              p \in {q \in F \X G : q[1][1] = q[2][1] /\ q[1][2] = q[2][2] /\ IntVals(q[2][3])}}
       [] op = "f_apply_map" -> {<<p[1][1], p[1][2], AsPoint(p[2][3])>> :
              p \in {q \in F \X G : q[1][1] = q[2][1] /\ q[1][3] = q[2][2] /\ IntVals(q[2][3])}}
       [] op = "f_apply" -> PullF(G, F)
       [] op = "f_scale_mv" -> LiftI(F, QMul, x.qs)
       [] op = "f_scale_down_mv" -> LiftI(F, QDiv, x.qs)
       [] op = "f_mod_mv" -> LiftI(F, Mod, x.qs)
       [] op = "f_add_constant_mv" -> LiftI(F, QAdd, x.qs)
       [] op = "f_flatten_range" -> {<<e[1], e[2], FlatPt(e[3])>> : e \in F}
       [] op = "f_set_at" -> {<<p[1][1], p[1][2], Reshape(p[1][3], [Flat(p[1][3]) EXCEPT ![x.i + 1] = Val1(p[2][3])])>> : p \in Fix2(F, G)}
       [] op = "f_drop_out" -> {<<e[1], e[2], <<"", DropRange(Flat(e[3]), x.i, x.n)>>>> : e \in F}
       [] op = "f_insert_in" -> {<<ez[1][1], <<"", InsertAt0(Flat(ez[1][2]), x.i, <<ez[2]>>)>>, ez[1][3]>> : ez \in F \X (-W..W)}
       [] op = "f_rel_at" -> {r \in F : \E a \in At(G, r[1], r[2]), b \in At(G, r[1], r[3]) : CmpLex(x.c, Flat(a), Flat(b))}
       [] op = "f_bound_s" -> {e \in F : \E b \in At(G, e[1], Unit) : AllCmp(x.c, Flat(AsVals(e[2])), Flat(b))}
       [] op = "f_bound_r" -> {e \in F : \E b \in At(G, e[1], e[2]) : AllCmp(x.c, Flat(AsVals(e[3])), Flat(b))}
       [] op = "f_cst_on" -> {<<e[1], e[2], <<"", <<c>>>>>> : e \in F}
       [] op = "f_domain_map" -> {<<e[1], e[2], AsVals(e[3])>> : e \in DomainMap(F)}
       [] op = "f_bind" -> {<<e[1], e[2]>> : e \in {f \in F : Val1(f[3]) = Q(f[1][x.i + 1])}}
       [] op = "f_identity" -> {<<e[1], e[2], AsVals(e[2])>> : e \in UniverseS(PV, x.sp, W)}
       [] op = "f_identity_on" -> {<<e[1], e[2], AsVals(e[2])>> : e \in F}
       [] op = "f_indicator" -> {<<e[1], e[2], <<"", <<Q(IF e \in F THEN 1 ELSE 0)>>>>>> : e \in UniverseS(PV, A[1].sp, W)}
       [] op = "f_read" -> UNION {{<<e[1], e[2], Build(pc.rs, [k \in 1..Len(pc.e) |-> EvalE(pc.e[k], e[1], Flat(e[2]), <<>>)])>> :
                                     e \in {u \in (IF pc.ds = <<>> THEN {<<pv, Unit>> : pv \in PV}
                                                   ELSE UniverseS(PV, pc.ds, x.w)) :
                                              EvalC(pc.c, u[1], Flat(u[2]), <<>>)}} : pc \in {x.pc[k] : k \in DOMAIN x.pc}}
       [] op = "f_read_set" -> {e \in (IF x.ds = <<>> THEN {<<pv>> : pv \in PV} ELSE UniverseS(PV, x.ds, x.w)) :
                                  EvalC(x.c, e[1], IF x.ds = <<>> THEN <<>> ELSE Flat(e[2]), <<>>)}

(* where the specification leaves the result open *)
Open(op, A) ==
  CASE op \in {"f_pullback", "f_preimage_set"} -> {<<d[1], d[2]>> : d \in Opaque(A[2].p, A[1].w)}
    \* where the condition is not a number, either answer (or none) will do
    [] op = "f_cond" -> {<<d[1], d[2]>> : d \in {e \in A[1].p : IsNaN(Val1(e[3]))}}
    [] op = "f_apply" -> {<<d[1], d[2]>> : d \in Opaque(A[1].p, A[2].w)}
    [] OTHER -> {}
(* a function is seen through a window on its domain, a set or relation on all *)
Windowed1(p, v) == IF v.w = 0 THEN p
                   ELSE IF v.k \in {"fun", "ufun"} THEN {e \in p : InBox(Flat(e[2]), v.w)}
                   ELSE Windowed(p, v.w)
FunKnown(p, U) == {e \in p : <<e[1], e[2]>> \notin U}
(* results that only have to agree with the operand on a part of the domain *)
FunLoose == {"f_gist", "f_gist_params", "f_at"}
(* ... if the driver says that the components are independent *)
FunLooseX == {"f_set_at", "f_drop_out", "f_range_factor_domain", "f_range_factor_range"}
FunLooseOK(op, A, x, v) ==
  LET F == A[1].p
      G == A[2].p
      E == Windowed1(IF op = "f_at" THEN FunP("f_at", A, x, {}, 0) ELSE F, v)
  IN CASE op \in FunLooseX ->
            \* the domain of a component that is dropped no longer counts
            LET P == Windowed1(FunP(op, A, x, {}, 0), v)
            IN /\ P \subseteq v.p
               /\ \A e \in v.p : <<e[1], e[2]>> \in FDom(P) => e \in P
               /\ op = "f_set_at" => FDom(v.p) \subseteq FDom(G)
       [] op = "f_gist" -> {e \in v.p : <<e[1], e[2]>> \in G} = {e \in E : <<e[1], e[2]>> \in G}
       [] op = "f_gist_params" -> {e \in v.p : <<e[1]>> \in G} = {e \in E : <<e[1]>> \in G}
       \* the components of a tuple may be defined on more than the tuple is
       [] op = "f_at" -> E \subseteq v.p /\ \A e \in v.p : <<e[1], e[2]>> \in FDom(E) => e \in E
FunResultOK(op, A, x, v, PV, W, cap) ==
  CASE v.k = "err" -> \* a function without any piece has no space of its own to be read from text
                      /\ op = "f_read" /\ "empty" \in DOMAIN x
                      /\ FunP(op, A, x, PV, W) = {}
    [] v.k = "big" -> TRUE
    [] op \in FunLoose \/ (op \in FunLooseX /\ "loose" \in DOMAIN x) -> FunLooseOK(op, A, x, v)
    [] OTHER -> LET U == Open(op, A)
                    E == Windowed1(FunP(op, A, x, PV, W), v)
                IN IF op \in {"f_pullback", "f_preimage_set"} /\ "loose" \in DOMAIN x
                     \* a component of A[2] that does not matter may be undefined
                     THEN LET D == FDom(A[2].p) \ U
                              In(p) == {e \in p : <<e[1], e[2]>> \in D}
                          IN In(v.p) = In(E)
                   ELSE IF U = {} THEN v.p = E ELSE FunKnown(v.p, U) = FunKnown(E, U)

(* the value of a function at a point; outside its domain there is none *)
EvalOK(A, x, q) == LET s == {f \in A[1].p : f[1] = x.v /\ Flat(f[2]) = x.x}
                   IN IF s = {} THEN A[1].w # 0 \/ q = NaN ELSE q = Val1((CHOOSE f \in s : TRUE)[3])

FunTruth(op, F, G) ==
  CASE op \in {"is_equal", "plain_is_equal", "c_is_equal"} -> F = G
    [] op \in {"is_empty", "plain_is_empty"} -> F = {}
    [] op = "f_is_cst" -> \A e \in F, f \in F : e[3] = f[3]
    [] op \in {"f_involves_nan", "f_is_nan"} -> \E e \in F : \E i \in 1..Len(Flat(e[3])) : IsNaN(Flat(e[3])[i])
FunNeedNotKnow == {"plain_is_equal", "plain_is_empty", "f_is_cst", "c_is_equal"}
FunMayOverclaim == {"f_involves_nan"}
(* nothing is said to be equal to a function that is not a number somewhere *)
(* equality and emptiness also count the parameter values that are not listed *)
FunAnswerOK(op, A, b, PV) ==
  LET w == Window(A)
      cut(p) == IF w = 0 THEN p ELSE {e \in p : InBox(Flat(e[2]), w)}
      F == cut(A[1].p)
      G == IF Len(A) > 1 THEN cut(A[2].p) ELSE {}
      t == FunTruth(op, F, G)
      nan == FunTruth("f_involves_nan", F \cup G, {})
  IN IF op \in {"is_equal", "plain_is_equal"} /\ nan THEN TRUE
     ELSE IF op \in FunMayOverclaim THEN t => b
     ELSE IF op \in FunNeedNotKnow \/ ~AllKnown(A) \/ (op \in {"is_equal", "is_empty"} /\ PV # {<<>>}) THEN (b => t)
     ELSE b = t
=============================================================================
