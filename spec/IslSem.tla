------------------------------- MODULE IslSem -------------------------------
(* Which result each set/relation call may return: the call by its name op,  *)
(* its operand values A (a sequence of records) and its other arguments x.   *)
(*                                                                           *)
(* A value is a record                                                       *)
(*   k   "set" | "map" | "uset" | "umap" | "params"                          *)
(*   p   its set of elements (see IslPoint)                                  *)
(*   w   0: p is everything;  w > 0: p lists the elements whose coordinates  *)
(*       lie in -w..w (the object may have others)                           *)
(*   sp  the shape ("set"), <<domain shape, range shape>> ("map")            *)
EXTENDS IslRel, TLC

Exact(a) == a.w = 0
Uni(a) == a.k \in {"uset", "umap"}
InW(e, w) == \A i \in 2..Len(e) : InBox(Flat(e[i]), w)
Windowed(p, w) == IF w = 0 THEN p ELSE {e \in p : InW(e, w)}

Coords(n, W) == [1..n -> -W..W]
UniverseS(PV, sp, W) == {<<vc[1], Build(sp, vc[2])>> : vc \in PV \X Coords(Size(sp), W)}
UniverseR(PV, d, r, W) ==
  {<<t[1], Build(d, SubSeq(t[2], 1, Size(d))), Build(r, SubSeq(t[2], Size(d) + 1, Size(d) + Size(r)))>> :
     t \in PV \X Coords(Size(d) + Size(r), W)}

Cond(A, x, c(_, _)) == {e \in A[1].p : c(Coord(e, x.t, x.i), Coord(e, x.t2, x.i2))}

(* The elements the result has.  PV: the listed parameter valuations.        *)
SemP(op, A, x, PV, W) ==
  LET a == A[1].p
      b == A[2].p
  IN CASE op = "union" -> a \cup b
       [] op = "intersect" -> a \cap b
       [] op = "subtract" -> a \ b
       [] op = "complement" -> (CASE A[1].k = "set" -> UniverseS(PV, A[1].sp, W) \ a
                                  [] A[1].k = "map" -> UniverseR(PV, A[1].sp[1], A[1].sp[2], W) \ a
                                  [] A[1].k = "params" -> {<<v>> : v \in PV} \ a)
       [] op = "intersect_params" -> InterPar(a, b)
       [] op = "intersect_domain" -> InterDom(a, b)
       [] op = "intersect_range" -> InterRan(a, b)
       [] op = "subtract_domain" -> SubDom(a, b)
       [] op = "subtract_range" -> SubRan(a, b)
       [] op = "inter_dom_wr_dom" -> InterDomWrDom({r \in a : IsPair(r[2])}, b)
       [] op = "inter_ran_wr_dom" -> InterRanWrDom({r \in a : IsPair(r[3])}, b)
       [] op = "inter_dom_fac_dom" -> InterDomFacDom({r \in a : IsPair(r[2])}, b)
       [] op = "inter_dom_fac_ran" -> InterDomFacRan({r \in a : IsPair(r[2])}, b)
       [] op = "inter_ran_fac_dom" -> InterRanFacDom({r \in a : IsPair(r[3])}, b)
       [] op = "inter_ran_fac_ran" -> InterRanFacRan({r \in a : IsPair(r[3])}, b)
       [] op = "inter_fac_dom" -> InterFacDom(a, b)
       [] op = "inter_fac_ran" -> InterFacRan(a, b)
       [] op = "domain" -> Dom(a)
       [] op = "range" -> Ran(a)
       [] op = "params" -> ParamsOf(a)
       [] op = "from_params" -> {<<e[1], <<"", <<>>>>>> : e \in a}
       [] op = "reverse" -> Reverse(a)
       [] op = "wrap" -> Wrap(a)
       [] op = "unwrap" -> Unwrap({e \in a : IsPair(e[2])})
       [] op = "identity" -> Identity(a)
       [] op = "domain_map" -> DomainMap(a)
       [] op = "range_map" -> RangeMap(a)
       [] op = "wrapped_domain_map" -> WrappedDomainMap({e \in a : IsPair(e[2])})
       [] op = "from_domain" -> {<<e[1], e[2], <<"", <<>>>>>> : e \in a}
       [] op = "from_range" -> {<<e[1], <<"", <<>>>>, e[2]>> : e \in a}
       [] op = "apply" -> ApplySet(a, b)
       [] op = "apply_range" -> ApplyRange(a, b)
       [] op = "apply_domain" -> ApplyDomain(a, b)
       [] op = "product_s" -> ProductS(a, b)
       [] op = "flat_product_s" -> FlattenS(ProductS(a, b))
       [] op = "product_r" -> ProductR(a, b)
       [] op = "domain_product" -> DomProduct(a, b)
       [] op = "range_product" -> RanProduct(a, b)
       [] op = "flat_product_r" -> FlattenR(ProductR(a, b))
       [] op = "flat_domain_product" -> FlattenDom(DomProduct(a, b))
       [] op = "flat_range_product" -> FlattenRan(RanProduct(a, b))
       [] op = "dr_product" -> DRProduct(a, b)
       [] op = "factor_domain" -> FactorDom(a)
       [] op = "factor_range" -> FactorRan(a)
       [] op = "domain_factor_domain" -> DomFacDom(a)
       [] op = "domain_factor_range" -> DomFacRan(a)
       [] op = "range_factor_domain" -> RanFacDom(a)
       [] op = "range_factor_range" -> RanFacRan(a)
       [] op = "curry" -> Curry({r \in a : IsPair(r[2])})
       [] op = "uncurry" -> Uncurry({r \in a : IsPair(r[3])})
       [] op = "range_curry" -> RangeCurry({r \in a : IsPair(r[3]) /\ IsPair(r[3][2])})
       [] op = "zip" -> Zip({r \in a : IsPair(r[2]) /\ IsPair(r[3])})
       [] op = "range_reverse" -> RangeReverse({r \in a : IsPair(r[3])})
       [] op = "flatten_s" -> FlattenS(a)
       [] op = "flatten_r" -> FlattenR(a)
       [] op = "flatten_domain" -> FlattenDom(a)
       [] op = "flatten_range" -> FlattenRan(a)
       [] op = "flatten_map" -> FlattenMap(a)
       [] op = "deltas" -> Deltas(a)
       [] op = "deltas_map" -> DeltasMap(a)
       [] op = "sum_r" -> SumR(a, b)
       [] op = "sum_s" -> SumS(a, b)
       [] op = "neg_s" -> NegS(a)
       [] op = "neg_r" -> NegR(a)
       [] op = "floordiv" -> FloorDivR(a, x.v)
       [] op = "lex_lt_s" -> LexSet("lt", a, b) [] op = "lex_le_s" -> LexSet("le", a, b)
       [] op = "lex_gt_s" -> LexSet("gt", a, b) [] op = "lex_ge_s" -> LexSet("ge", a, b)
       [] op = "lex_lt_m" -> LexMap("lt", a, b) [] op = "lex_le_m" -> LexMap("le", a, b)
       [] op = "lex_gt_m" -> LexMap("gt", a, b) [] op = "lex_ge_m" -> LexMap("ge", a, b)
       [] op = "fix" -> {e \in a : Coord(e, x.t, x.i) = x.v}
       [] op = "lower_bound" -> {e \in a : Coord(e, x.t, x.i) >= x.v}
       [] op = "upper_bound" -> {e \in a : Coord(e, x.t, x.i) <= x.v}
       [] op = "equate" -> Cond(A, x, LAMBDA u, v : u = v)
       [] op = "oppose" -> Cond(A, x, LAMBDA u, v : u = -v)
       [] op = "order_lt" -> Cond(A, x, LAMBDA u, v : u < v)
       [] op = "order_le" -> Cond(A, x, LAMBDA u, v : u <= v)
       [] op = "order_gt" -> Cond(A, x, LAMBDA u, v : u > v)
       [] op = "order_ge" -> Cond(A, x, LAMBDA u, v : u >= v)
       [] op = "project_out" -> ProjectOut(a, x.t, x.i, x.n)
       [] op = "project_param" -> ProjectParam(a, x.i + 1, PV)
       [] op = "project_all_params" -> UNION {{[e EXCEPT ![1] = v] : v \in PV} : e \in a}
       [] op = "insert_dims" -> InsertDims(a, x.t, x.i, x.n, -W..W)
       [] op = "move_dims" -> MoveDims(a, x.dt, x.dp, x.st, x.sp, x.n)
       [] op \in {"same", "simplify"} -> a
       [] op \in {"lexmin_s", "lexmax_s"} -> LexOptS(IF op = "lexmin_s" THEN "min" ELSE "max", a)
       [] op \in {"lexmin_r", "lexmax_r"} -> LexOptR(IF op = "lexmin_r" THEN "min" ELSE "max", a)
       [] op = "fixed_power" -> IF x.v >= 0 THEN Power(a, x.v) ELSE Power(Reverse(a), -x.v)

(* The shape of a plain set or map result. *)
Leaf0 == <<"", 0>>
AnonSize(n) == <<"", n>>
SpDR(op, A, x) ==        \* relation results: <<domain, range>>
  LET s == A[1].sp
      t == A[2].sp
  IN CASE op \in {"union", "intersect", "subtract", "complement", "intersect_params", "intersect_domain",
                  "intersect_range", "subtract_domain", "subtract_range", "inter_dom_wr_dom", "inter_ran_wr_dom",
                  "inter_dom_fac_dom", "inter_dom_fac_ran", "inter_ran_fac_dom", "inter_ran_fac_ran", "sum_r",
                  "neg_r", "floordiv", "fix", "lower_bound", "upper_bound", "equate", "oppose", "order_lt", "order_le",
                  "order_gt", "order_ge", "project_param", "project_all_params", "same", "simplify", "gist",
                  "gist_params", "gist_domain", "gist_range", "lexmin_r", "lexmax_r", "fixed_power"} -> s
       [] op = "reverse" -> <<s[2], s[1]>>
       [] op = "unwrap" -> <<s[2], s[3]>>
       [] op = "identity" -> <<s, s>>
       [] op = "domain_map" -> <<<<"", s[1], s[2]>>, s[1]>>
       [] op = "range_map" -> <<<<"", s[1], s[2]>>, s[2]>>
       [] op = "wrapped_domain_map" -> <<s, s[2]>>
       [] op = "from_domain" -> <<s, Leaf0>>
       [] op = "from_range" -> <<Leaf0, s>>
       [] op = "apply_range" -> <<s[1], t[2]>>
       [] op = "apply_domain" -> <<t[2], s[2]>>
       [] op = "product_r" -> <<<<"", s[1], t[1]>>, <<"", s[2], t[2]>>>>
       [] op = "domain_product" -> <<<<"", s[1], t[1]>>, s[2]>>
       [] op = "range_product" -> <<s[1], <<"", s[2], t[2]>>>>
       [] op = "flat_product_r" -> <<AnonSize(Size(s[1]) + Size(t[1])), AnonSize(Size(s[2]) + Size(t[2]))>>
       [] op = "flat_domain_product" -> <<AnonSize(Size(s[1]) + Size(t[1])), s[2]>>
       [] op = "flat_range_product" -> <<s[1], AnonSize(Size(s[2]) + Size(t[2]))>>
       [] op = "dr_product" -> <<s, t>>
       [] op = "factor_domain" -> <<s[1][2], s[2][2]>>
       [] op = "factor_range" -> <<s[1][3], s[2][3]>>
       [] op = "domain_factor_domain" -> <<s[1][2], s[2]>>
       [] op = "domain_factor_range" -> <<s[1][3], s[2]>>
       [] op = "range_factor_domain" -> <<s[1], s[2][2]>>
       [] op = "range_factor_range" -> <<s[1], s[2][3]>>
       [] op = "curry" -> <<s[1][2], <<"", s[1][3], s[2]>>>>
       [] op = "uncurry" -> <<<<"", s[1], s[2][2]>>, s[2][3]>>
       [] op = "range_curry" -> <<s[1], <<s[2][1], s[2][2][2], <<"", s[2][2][3], s[2][3]>>>>>>
       [] op = "zip" -> <<<<"", s[1][2], s[2][2]>>, <<"", s[1][3], s[2][3]>>>>
       [] op = "range_reverse" -> <<s[1], <<RevName(s[2]), s[2][3], s[2][2]>>>>
       [] op = "flatten_r" -> <<FlatShape(s[1]), FlatShape(s[2])>>
       [] op = "flatten_domain" -> <<FlatShape(s[1]), s[2]>>
       [] op = "flatten_range" -> <<s[1], FlatShape(s[2])>>
       [] op = "flatten_map" -> <<s, FlatShape(s)>>
       [] op = "deltas_map" -> <<<<"", s[1], s[2]>>, s[2]>>
       [] op \in {"lex_lt_s", "lex_le_s", "lex_gt_s", "lex_ge_s"} -> <<s, t>>
       [] op \in {"lex_lt_m", "lex_le_m", "lex_gt_m", "lex_ge_m"} -> <<s[1], t[1]>>
       [] op = "project_out" -> IF x.t = "in" THEN <<AnonSize(Size(s[1]) - x.n), s[2]>>
                                ELSE <<s[1], AnonSize(Size(s[2]) - x.n)>>
       [] op = "insert_dims" -> IF x.t = "in" THEN <<AnonSize(Size(s[1]) + x.n), s[2]>>
                                ELSE <<s[1], AnonSize(Size(s[2]) + x.n)>>
       [] op = "move_dims" -> IF x.dt = "in" THEN <<AnonSize(Size(s[1]) + x.n), AnonSize(Size(s[2]) - x.n)>>
                              ELSE <<AnonSize(Size(s[1]) - x.n), AnonSize(Size(s[2]) + x.n)>>

SpS(op, A, x) ==         \* set results
  LET s == A[1].sp
      t == A[2].sp
  IN CASE op \in {"union", "intersect", "subtract", "complement", "intersect_params", "inter_fac_dom",
                  "inter_fac_ran", "sum_s", "neg_s", "fix", "lower_bound", "upper_bound", "equate", "order_lt",
                  "order_le", "order_gt", "order_ge", "project_param", "project_all_params", "same", "simplify",
                  "gist", "gist_params", "lexmin_s", "lexmax_s"} -> s
       [] op = "domain" -> s[1]
       [] op = "range" -> s[2]
       [] op = "wrap" -> <<"", s[1], s[2]>>
       [] op = "apply" -> t[2]
       [] op = "product_s" -> <<"", s, t>>
       [] op = "flat_product_s" -> AnonSize(Size(s) + Size(t))
       [] op = "flatten_s" -> FlatShape(s)
       [] op = "deltas" -> s[2]
       [] op = "from_params" -> Leaf0
       [] op = "project_out" -> AnonSize(Size(s) - x.n)
       [] op = "insert_dims" -> AnonSize(Size(s) + x.n)

(* Operations whose definition leaves a choice. *)
GistOn(a, c, r) == \A e \in c : (e \in r) <=> (e \in a)
Loose == {"gist", "gist_params", "gist_domain", "gist_range"}
LooseOK(op, A, x, v) ==
  LET a == A[1].p
      b == A[2].p
      w == v.w
      known == {e \in a \cup v.p : w = 0 \/ InW(e, w)}
      ctx(e) == CASE op = "gist" -> e \in b
                  [] op = "gist_params" -> <<e[1]>> \in b
                  [] op = "gist_domain" -> <<e[1], e[2]>> \in b
                  [] op = "gist_range" -> <<e[1], e[3]>> \in b
  IN \A e \in known : ctx(e) => ((e \in a) <=> (e \in v.p))

ShapeOK(op, A, x, v) == CASE v.k = "set" -> v.sp = SpS(op, A, x)
                          [] v.k = "map" -> v.sp = SpDR(op, A, x)
                          [] OTHER -> TRUE
(* May the call return the object v? *)
ResultOK(op, A, x, v, PV, W, cap) ==
  CASE v.k = "err" -> FALSE
    [] v.k = "big" -> op \in Loose \/ Cardinality(SemP(op, A, x, PV, W)) > cap
    [] OTHER -> /\ ShapeOK(op, A, x, v)
                /\ IF op \in Loose THEN LooseOK(op, A, x, v)
                   ELSE v.p = Windowed(SemP(op, A, x, PV, W), v.w)

(* ---- questions ---- *)
AllKnown(A) == \A i \in 1..Len(A) : Exact(A[i])
(* the smallest window through which all operands are seen, 0 if none is windowed *)
Window(A) == LET ws == {A[i].w : i \in 1..Len(A)} \ {0}
             IN IF ws = {} THEN 0 ELSE CHOOSE w \in ws : \A u \in ws : w <= u
InView(A) == LET w == Window(A) IN [i \in 1..Len(A) |-> [A[i] EXCEPT !.p = Windowed(A[i].p, w)]]
Truth(op, A, x, PV) ==
  LET a == A[1].p
      b == A[2].p
  IN CASE op \in {"is_empty", "plain_is_empty"} -> a = {}
       [] op \in {"is_equal", "plain_is_equal"} -> a = b
       [] op = "is_subset" -> a \subseteq b
       [] op = "is_strict_subset" -> a \subseteq b /\ a # b
       [] op \in {"is_disjoint", "plain_is_disjoint"} -> a \cap b = {}
       [] op \in {"is_single_valued", "plain_is_single_valued"} -> SingleValued(a)
       [] op \in {"is_injective", "plain_is_injective"} -> Injective(a)
       [] op = "is_bijective" -> Bijective(a)
       [] op = "is_identity" -> /\ x.same = 1       \* every member, empty ones included, is between equal tuples
                                /\ \A e \in a : e[2] = e[3]
       [] op = "is_singleton" -> \A e \in a, f \in a : e[1] = f[1] => e[2] = f[2]
       [] op = "is_bounded" -> TRUE
       [] op = "is_universe" -> Cardinality(a) = Cardinality(PV)
       [] op = "involves_dims" -> IF x.t = "param" THEN ProjectParam(a, x.i + 1, PV) # a ELSE a # {}
       [] op = "is_wrapping" -> A[1].k = "set" /\ Len(A[1].sp) = 3
       [] op = "is_params" -> A[1].k = "params"
       [] op = "domain_is_wrapping" -> Len(A[1].sp[1]) = 3
       [] op = "range_is_wrapping" -> Len(A[1].sp[2]) = 3
       [] op = "can_curry" -> Len(A[1].sp[1]) = 3
       [] op = "can_uncurry" -> Len(A[1].sp[2]) = 3
       [] op = "can_range_curry" -> Len(A[1].sp[2]) = 3 /\ Len(A[1].sp[2][2]) = 3
       [] op \in {"can_zip", "is_product"} -> Len(A[1].sp[1]) = 3 /\ Len(A[1].sp[2]) = 3
(* answers that may be "no" although the truth is "yes" *)
NeedNotKnow == {"plain_is_empty", "plain_is_equal", "plain_is_disjoint", "plain_is_single_valued",
                "plain_is_injective", "is_universe"}
(* answers that may be "yes" although the truth is "no" *)
MayOverclaim == {"involves_dims"}
(* questions about every point: on a window only "yes" can be refuted *)
AboutShape == {"is_wrapping", "is_params", "domain_is_wrapping", "range_is_wrapping", "can_curry", "can_uncurry",
               "can_range_curry", "can_zip", "is_product"}
AnswerOK(op, A, x, b, PV) ==
  LET t == Truth(op, IF AllKnown(A) THEN A ELSE InView(A), x, PV)
  IN IF op \in AboutShape THEN b = t
     ELSE IF ~AllKnown(A)
       THEN CASE op \in {"is_bounded", "is_singleton", "involves_dims", "is_universe", "is_strict_subset"} -> TRUE
              [] OTHER -> b => t
     ELSE IF op \in NeedNotKnow THEN b => t
     ELSE IF op \in MayOverclaim THEN t => b
     ELSE b = t
=============================================================================
