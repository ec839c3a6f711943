------------------------------- MODULE IslOpt -------------------------------
(* Lexicographic and numeric optimisation (C04): the exact optimum per       *)
(* parameter value (and per domain element), NaN without any element,        *)
(* infinite without a bound.                                                 *)
EXTENDS IslJudge, IslGen

BestQ(o, Qs) == IF Qs = {} THEN NaN
                ELSE IF NaN \in Qs THEN NaN
                ELSE CHOOSE q \in Qs : \A p \in Qs : IF o = "min" THEN QLe(q, p) ELSE QLe(p, q)
ObjVals(S, e) == {EvalE(e, s[1], IF Len(s) = 1 THEN <<>> ELSE Flat(s[2]), <<>>) : s \in S}
MinVal(o, Qs) == BestQ(o, Qs)

OptP(op, A, x, PV) ==
  LET F == A[1].p
      G == A[2].p
  IN CASE op = "lex_s" -> LexOptS(x.o, F)
       [] op = "lex_r" -> LexOptR(x.o, F)
       [] op = "lex_s_fun" -> {<<e[1], Unit, AsVals(e[2])>> : e \in LexOptS(x.o, F)}
       [] op = "lex_r_fun" -> AsFun(LexOptR(x.o, F))
       [] op = "part_s" -> LexOptS(x.o, InterPar(F, G))
       [] op = "part_r" -> LexOptR(x.o, InterDom(F, G))
       [] op = "part_s_fun" -> {<<e[1], Unit, AsVals(e[2])>> : e \in LexOptS(x.o, InterPar(F, G))}
       [] op = "part_r_fun" -> AsFun(LexOptR(x.o, InterDom(F, G)))
       [] op = "part_s_empty" -> G \ ParamsOf(F)
       [] op = "part_r_empty" -> G \ Dom(F)
       [] op = "dim_s" -> {<<v[1], Unit, <<"", <<BestQ(x.o, {Q(Flat(e[2])[x.i + 1]) : e \in {f \in F : f[1] = v[1]}})>>>>>> : v \in ParamsOf(F)}
       [] op = "dim_r" -> {<<d[1], d[2], <<"", <<BestQ(x.o, {Q(Flat(e[3])[x.i + 1]) : e \in {f \in F : f[1] = d[1] /\ f[2] = d[2]}})>>>>>> : d \in Dom(F)}
       [] op = "mpa_s" -> {<<v[1], Unit, LET E == {f \in F : f[1] = v[1]}
                                             z == CHOOSE f \in E : TRUE
                                         IN Reshape(z[2], [i \in 1..Len(Flat(z[2])) |-> BestQ(x.o, {Q(Flat(e[2])[i]) : e \in E})])>> : v \in ParamsOf(F)}
       [] op = "mpa_r" -> {<<d[1], d[2], LET E == {f \in F : f[1] = d[1] /\ f[2] = d[2]}
                                             z == CHOOSE f \in E : TRUE
                                         IN Reshape(z[3], [i \in 1..Len(Flat(z[3])) |-> BestQ(x.o, {Q(Flat(e[3])[i]) : e \in E})])>> : d \in Dom(F)}
       [] op \in {"same"} -> F

(* numbers and tuples of numbers *)
OptQ(op, A, x) ==
  LET F == A[1].p
  IN CASE op = "obj_val" -> BestQ(x.o, ObjVals(F, x.e))
       [] op = "dim_val" -> BestQ(x.o, {Q(Flat(s[2])[x.i + 1]) : s \in F})
       [] op = "fun_val" -> BestQ(x.o, {Val1(e[3]) : e \in F})
OptMQ(op, A, x) ==
  LET F == A[1].p
      G == A[2].p
  IN CASE op = "fun_mval" -> [i \in 1..x.n |-> BestQ(x.o, {Flat(e[3])[i] : e \in F})]
       [] op = "obj_mval" -> [i \in 1..x.n |-> BestQ(x.o, {Flat(e[3])[i] : e \in {f \in G : <<f[1], f[2]>> \in F}})]

(* a function read from text is the one its expressions describe *)
ReadOK(e, s, v) == FunResultOK(e.op, <<>>, e.x, v, s.pv, s.W, s.cap)
Judgement(e, s, h) ==
  LET A == ArgsOf(e, h)
      v == Value(e.v)
  IN CASE v.k = "big" -> TRUE
       [] e.op = "f_read" -> ReadOK(e, s, v)
       [] e.op = "gen_val" -> v.k = "q" /\ v.q = GenOpt(e.x)
       [] e.op = "gen_bounded" -> v.k = "b" /\ (v.b = 1) = GenBounded(e.x)
       [] v.k = "err" -> FALSE
       [] v.k = "q" -> v.q = OptQ(e.op, A, e.x)
       [] v.k = "mq" -> [i \in 1..Len(v.q) |-> v.q[i]] = OptMQ(e.op, A, e.x)
       [] OTHER -> v.p = Windowed1(OptP(e.op, A, e.x, s.pv), v)
Expected(e, s, h) ==
  LET A == ArgsOf(e, h)
  IN IF e.op = "gen_val" THEN GenOpt(e.x) ELSE IF e.op = "gen_bounded" THEN GenBounded(e.x)
     ELSE IF e.v.k = "q" THEN OptQ(e.op, A, e.x) ELSE IF e.v.k = "mq" THEN OptMQ(e.op, A, e.x)
     ELSE OptP(e.op, A, e.x, s.pv)
=============================================================================
