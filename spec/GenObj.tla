------------------------------- MODULE GenObj -------------------------------
(* Histories of wrapper statements, chosen by TLC and printed for replay.    *)
EXTENDS CalObj, Json, IOUtils
PF == JsonDeserialize(IOEnv.PROFILE)
VARIABLES b, n, st, aux
(* ns next object, cm current manager, unk objects of unknown function, an   *)
(* associations <<manager, name>> -> id, dy managers that may have reordered *)
Aux0 == [ns |-> 1, cm |-> 0, unk |-> {}, an |-> NoMap, na |-> 1, dy |-> {}]
Chance(k) == RandomElement(1..100) <= k
Nil == [e |-> "skip"]
gm == st.mg[aux.cm]
Base(k) == [e |-> k, m |-> aux.cm, o |-> <<>>, ov |-> 0, nn |-> 0, nv |-> 0, mo |-> 1, se |-> 0, ob |-> <<>>]
Mk(k, r) == r @@ Base(k)
Unk(s) == <<aux.cm, s>> \in aux.unk
Known(g) == {s \in DOMAIN g.fn : ~Unk(s)}
VarObjs(g) == {s \in Known(g) : IsVar(g, g.fn[s])}
NonConst(g) == {s \in Known(g) : ~IsConstF(g.fn[s])}
Bound(g) == DOMAIN g.fn \cup {s \in DOMAIN g.xn : g.xn[s] = 1}
RECURSIVE Some(_,_,_)
Some(S, k, dummy) == IF k = 0 \/ S = {} THEN <<>> ELSE <<RandomElement(S)>> \o Some(S, k-1, dummy+1)
Pick(S) == RandomElement(S)
Choice(g, f, x) ==
  CASE f \in {"cof", "red", "sat", "sats", "btw"} -> x[1]
    [] f = "inter" -> AndF(x[1], x[2])
    [] f = "impl" -> AndF(x[1], NotF(x[2]))
    [] OTHER -> Exactly(g, f, x)
OpenOps == {"cof", "red", "btw", "sat", "sats", "inter", "impl"}
NewCoord(g) == LET free == {k \in 0..g.N-1 : \A i \in 1..Len(g.vc) : g.vc[i] # k} IN IF free = {} THEN -1 ELSE CHOOSE k \in free : \A j \in free : k <= j
(* an operand: mostly an object with a function, sometimes a null one *)
Operand(g, dummy) == IF DOMAIN g.fn = {} \/ Chance(PF.nullpct) THEN Pick(Bound(g)) ELSE Pick(DOMAIN g.fn)
ExprArgs(g, f) ==
  CASE f \in NoArgs -> <<>>
    [] f = "vid" -> <<RandomElement(0..Len(g.ord)+1)>>
    [] f = "vidx" -> <<RandomElement(0..Len(g.ord)+1)>>
    [] f \in {"copy", "move"} -> <<Pick(Objs(g))>>
    [] f = "vec" -> Some(Objs(g), RandomElement(1..4), 1)
    [] BaseOf(f) \in {"if", "then", "else"} -> <<Pick(NonConst(g))>>
    [] BaseOf(f) \in {"id", "not", "reg"} -> <<Pick(DOMAIN g.fn)>>
    [] BaseOf(f) \in {"comp", "swap"} -> <<Operand(g, 1), Pick(VarObjs(g)), IF BaseOf(f) = "swap" THEN Pick(VarObjs(g)) ELSE Operand(g, 3)>>
    [] BaseOf(f) = "ite" -> <<Operand(g, 1), Operand(g, 2), Operand(g, 3)>>
    [] f = "chain" -> Some(DOMAIN g.fn, 3, 1)
    [] f \in Compound -> <<IF BaseOf(f) = "diff" THEN Pick(DOMAIN g.fn) ELSE Operand(g, 1)>>
    [] Un(BaseOf(f)) -> <<Operand(g, 1)>>
    [] BaseOf(f) = "diff" -> <<Operand(g, 1), Pick(DOMAIN g.fn)>>
    [] OTHER -> <<Operand(g, 1), Operand(g, 2)>>
Able(g, f) ==
  CASE f \in NoArgs \cup {"vid", "vidx"} -> TRUE
    [] f \in {"copy", "move", "vec"} -> Objs(g) # {}
    [] BaseOf(f) \in {"if", "then", "else"} -> NonConst(g) # {} /\ aux.cm \notin aux.dy
    [] BaseOf(f) \in {"comp", "swap"} -> VarObjs(g) # {}
    [] f = "vsub" -> DOMAIN g.fn # {} /\ PosVarMap(g, CurMap(g))
    [] OTHER -> DOMAIN g.fn # {}
Value(g, e) == (* the value the generator continues with *)
  LET f == BaseOf(e.f) x == Operands(e) y == [i \in 1..Len(x) |-> g.fn[x[i]]] IN
  CASE f \in {"def", "null"} -> <<>>
    [] f = "one" -> One(g)
    [] f = "zero" -> Zero(g)
    [] f = "vid" -> IF e.a[1] \in 1..Len(g.ord) THEN g.vf[e.a[1]] ELSE <<>>
    [] f = "vidx" -> IF e.a[1] \in 0..Len(g.ord)-1 THEN g.vf[g.ord[e.a[1]+1]] ELSE <<>>
    [] f \in {"copy", "move"} -> ValOf(g, e.a[1])
    [] f = "vec" -> ValOf(g, e.a[Len(e.a)])
    [] AnyNull(g, Range(x)) \/ NullAnswer(g, f, y) -> <<>>
    [] f = "diff" -> AndF(y[1], NotF(y[2]))
    [] f = "chain" -> NotF(OrF(AndF(y[1], NotF(y[2])), XorF(y[3], y[1])))
    [] OTHER -> Choice(g, f, y)
Ob(d, t) == [i |-> d, t |-> t, rc |-> 0]
MkExpr(g, k, f, d) ==
  LET e == Mk(k, [f |-> f, d |-> d, a |-> ExprArgs(g, f)]) IN
  IF ~LegalX(st, g, e) THEN Nil
  ELSE [e EXCEPT !.ob = <<Ob(d, IF f = "move" /\ e.a[1] = d THEN <<>> ELSE Value(g, e))>> \o (IF f = "move" /\ e.a[1] # d THEN <<Ob(e.a[1], <<>>)>> ELSE <<>>)]
AsNames(g) == {x \in DOMAIN aux.an : x[1] = aux.cm}
Gen(g, k) ==
  CASE k = "xvar" -> LET c == NewCoord(g) p == RandomElement({"first", "last", "before", "after"})
                         s == IF NonConst(g) = {} THEN 0 ELSE Pick(NonConst(g))
                         p2 == IF s = 0 THEN "last" ELSE p
                     IN IF c < 0 THEN Nil ELSE Mk("xvar", [d |-> aux.ns, c |-> c, vt |-> CoordF(c, g.W), pos |-> p2, s |-> s])
    [] k = "xo" -> LET f == Pick(Range(PF.exprs)) IN IF Able(g, f) THEN MkExpr(g, "xo", f, aux.ns) ELSE Nil
    [] k = "xa" -> LET f == Pick(Range(PF.assigns)) IN IF Objs(g) = {} \/ ~Able(g, f) THEN Nil
                   ELSE LET d == IF f \in Compound THEN Pick(Bound(g) \cup {0}) ELSE Pick(Objs(g)) IN IF d = 0 THEN Nil ELSE MkExpr(g, "xa", f, d)
    [] k = "xself" -> LET f == Pick({"copy", "move", "andeq", "oreq", "xoreq", "diffeq"}) IN IF DOMAIN g.fn = {} THEN Nil
                      ELSE LET d == Pick(DOMAIN g.fn) e == Mk("xa", [f |-> f, d |-> d, a |-> <<d>>]) IN
                           IF ~LegalX(st, g, e) THEN Nil ELSE [e EXCEPT !.ob = <<Ob(d, IF f = "move" THEN <<>> ELSE Value(g, e))>>]
    [] k = "xdel" -> IF Cardinality(Objs(g)) < 3 THEN Nil ELSE Mk("xdel", [a |-> <<Pick(Objs(g))>>])
    [] k = "xmw" -> LET f == Pick({"and", "or", "xor"}) how == RandomElement(0..2)
                        a == IF how = 2 THEN (IF Len(g.ord) = 0 THEN <<>> ELSE Some(1..Len(g.ord)+(IF Chance(5) THEN 1 ELSE 0), RandomElement(0..4), 1))
                             ELSE Some(IF Chance(PF.nullpct) THEN Objs(g) ELSE DOMAIN g.fn, RandomElement(0..4), 1)
                        e == Mk("xmw", [f |-> f, how |-> how, d |-> aux.ns, a |-> a]) y == MwArgs(g, e)
                    IN [e EXCEPT !.ob = <<Ob(aux.ns, IF y = <<>> THEN <<>> ELSE FoldOp(f, y, g.W))>>]
    [] k = "xpw" -> LET f == Pick({"and", "or", "xor"})
                        a == Some(IF Chance(PF.nullpct) THEN Objs(g) ELSE DOMAIN g.fn, IF Chance(10) THEN RandomElement(0..5) ELSE 2 * RandomElement(0..5), 1)
                        x == TakeWhile(g, a) c == IF Len(x) % 2 = 1 THEN 0 ELSE Len(x) \div 2
                    IN Mk("xpw", [f |-> f, how |-> RandomElement(0..1), d |-> aux.ns, a |-> a, cnt |-> c])
                       @@ [ob |-> <<>>, want |-> [i \in 1..c |-> BoolBin(f, g.fn[x[2*i-1]], g.fn[x[2*i]])]]
    [] k = "xas" -> LET f == Pick({"init", "initi", "tinit", "taug", "tiniti", "taugi", "set", "set", "set", "quit", "tquit"}) V == VarObjs(g) IN
         (CASE f \in {"set", "quit"} -> LET S == AsNames(g) x == IF S = {} \/ (f = "set" /\ Chance(15)) THEN <<aux.cm, -1>> ELSE Pick(S) id == IF x[2] = -1 THEN -1 ELSE aux.an[x] IN
                                       IF f = "quit" /\ x[2] = -1 THEN Nil ELSE Mk("xas", [f |-> f, a |-> <<>>, p |-> <<id>>, v |-> <<g.cur>>, nm |-> x[2]])
           [] f = "tquit" -> Mk("xas", [f |-> f, a |-> <<>>, p |-> <<>>, v |-> <<>>])
           [] OTHER -> LET ids == f \in {"initi", "tiniti", "taugi"} U == IF ids THEN 1..Len(g.ord) ELSE V pr == RandomElement(0..1) c == RandomElement(0..Min(3, Cardinality(U)))
                           vs == Some(U, c, 1) ws == IF ids \/ Chance(40) THEN Some(U, c, 7) ELSE Some(Known(g), c, 7)
                           a == IF pr = 0 THEN vs ELSE [i \in 1..2*c |-> IF i % 2 = 1 THEN vs[(i+1) \div 2] ELSE ws[i \div 2]]
                           e == Mk("xas", [f |-> f, a |-> a, p |-> <<pr>>, v |-> <<>>, nm |-> aux.na])
                           Q == EqualAssoc(g, DeclX(g, e))
                           id == IF Q # {} THEN g.asl[CHOOSE i \in Q : TRUE].id ELSE (CHOOSE i \in 0..Len(g.asl) : i \notin AssocIds(g))
                       IN IF U = {} THEN Nil ELSE [e EXCEPT !.v = IF f \in {"init", "initi"} THEN <<id>> ELSE <<>>])
    [] k = "xq" -> LET f == Pick(Range(PF.queries)) ng == RandomElement(0..1) S == DOMAIN g.fn IN
         IF S = {} THEN Nil
         ELSE LET x == Pick(S) IN
         (CASE f \in {"size", "prof"} -> Mk("xq", [f |-> f, a |-> <<x>>, p |-> <<ng>>])
           [] f \in {"sizem", "profm", "profc"} -> Mk("xq", [f |-> f, a |-> Some(S, RandomElement(1..4), 1), p |-> <<ng>>])
           [] f \in {"fprofm", "pprofm", "pfprofm"} -> Mk("xq", [f |-> f, a |-> Some(S, RandomElement(1..4), 1), p |-> <<>>])
           [] f \in {"eq", "neq", "iseq", "ceq"} -> Mk("xq", [f |-> f, a |-> Some(S, 2, 1), p |-> <<>>])
           [] f \in {"dep", "cdep"} -> IF VarObjs(g) = {} THEN Nil ELSE Mk("xq", [f |-> f, a |-> <<x, Pick(VarObjs(g))>>, p |-> <<>>])
           [] f \in {"cube", "ccube"} -> LET C == {s \in Known(g) : ~IsZeroF(g.fn[s])} IN IF C = {} THEN Nil ELSE Mk("xq", [f |-> f, a |-> <<Pick(C)>>, p |-> <<>>])
           [] f \in {"nodes", "vars"} -> Mk("xq", [f |-> f, a |-> <<>>, p |-> <<>>])
           [] f \in {"isnull", "cisnull", "rc"} -> Mk("xq", [f |-> f, a |-> <<Pick(Objs(g))>>, p |-> <<>>])
           [] OTHER -> Mk("xq", [f |-> f, a |-> <<x>>, p |-> <<>>]))
    [] k = "xpr" -> IF DOMAIN g.fn = {} THEN Nil ELSE Mk("xpr", [a |-> <<Pick(DOMAIN g.fn)>>])
    [] k \in {"xgc", "xreorder", "xmovecal"} -> Base(k)
    [] k = "xdyn" -> Mk("xdyn", [p |-> Pick(Range(PF.techs))])
    [] k = "xlimit" -> Mk("xlimit", [p |-> <<Pick(Range(PF.limits))>>, v |-> <<g.lim, g.ovf>>])
    [] k = "xcross" -> LET M == {m \in DOMAIN st.mg \ {aux.cm} : Objs(st.mg[m]) # {}} IN
                       IF M = {} \/ Objs(g) = {} THEN Nil
                       ELSE LET m2 == Pick(M) d == Pick(Objs(g)) s == Pick(Objs(st.mg[m2])) mv == RandomElement(0..1) IN
                            [Base("xcross") EXCEPT !.m = m2] @@ [m1 |-> aux.cm, d |-> d, s |-> s, d2 |-> aux.ns, mv |-> mv, ob1 |-> <<>>]
GenMgr(k) ==
  LET live == DOMAIN st.mg IN
  IF k = "xinit" THEN (IF Cardinality(live) >= PF.maxmgr THEN Nil
                       ELSE LET nv == RandomElement(0..PF.N) IN [Base("xinit") EXCEPT !.m = CHOOSE x \in 0..9 : x \notin live] @@ [N |-> PF.N, n |-> nv])
  ELSE IF k = "xquit" THEN (IF Cardinality(live) < 2 THEN Nil ELSE [Base("xquit") EXCEPT !.m = Pick(live)] @@ [lk |-> 0])
  ELSE [Base("switch") EXCEPT !.m = Pick(live)]
AfterG(e) == (* pairwise results are not in ob here *)
  IF e.e = "xpw" THEN LET ids == PwIds(e) IN [st EXCEPT !.mg[e.m].fn = [s \in Range(ids) |-> e.want[s - e.d + 1]] @@ @, !.mg[e.m].rf = [s \in Range(ids) |-> 1] @@ @]
  ELSE IF e.e = "xcross" THEN XAfter(st, [e EXCEPT !.ob = <<Ob(e.s, IF e.mv = 1 THEN <<>> ELSE ValOf(st.mg[e.m], e.s))>>])
  ELSE XAfter(st, e)
NewObjs(e) == CASE e.e \in {"xo", "xa", "xvar", "xmw"} -> {<<e.m, e.d>>} [] e.e = "xpw" -> {<<e.m, e.d + i>> : i \in 0..Len(e.a)} [] e.e = "xcross" -> {<<e.m, e.d2>>} [] OTHER -> {}
Taint(e) ==
  CASE e.e \in {"xo", "xa"} -> \/ BaseOf(e.f) \in OpenOps
                               \/ \E s \in Reads(e) : <<e.m, s>> \in aux.unk
                               \/ e.f \in Compound /\ <<e.m, e.d>> \in aux.unk
                               \/ (e.f = "vidx" /\ e.m \in aux.dy)
                               \/ (e.f = "move" /\ e.a[1] = e.d)
    [] e.e \in {"xmw", "xpw"} -> \E s \in Range(e.a) : <<e.m, s>> \in aux.unk
    [] e.e = "xcross" -> <<e.m, e.s>> \in aux.unk
    [] OTHER -> FALSE
AuxAfter(e) ==
  [aux EXCEPT !.ns = CASE e.e = "xpw" -> @ + Len(e.a) + 1 [] e.e \in {"xo", "xvar", "xmw", "xcross"} -> @ + 1 [] OTHER -> @,
              !.cm = IF e.e \in {"xinit", "switch", "xcross"} THEN e.m ELSE IF e.e = "xquit" THEN (IF @ = e.m THEN CHOOSE x \in DOMAIN st.mg : x # e.m ELSE @) ELSE @,
              !.unk = IF e.e = "xquit" THEN {x \in @ : x[1] # e.m} ELSE IF Taint(e) THEN @ \cup NewObjs(e) ELSE @ \ NewObjs(e),
              !.an = IF e.e = "xas" /\ e.f \in {"init", "initi"} THEN (<<aux.cm, aux.na>> :> e.v[1]) @@ @
                     ELSE IF e.e = "xquit" THEN Restrict(@, {x \in DOMAIN @ : x[1] # e.m})
                     ELSE IF e.e = "xas" /\ e.f = "quit" /\ e.p[1] \notin AssocIds(QuitAssoc(gm, e.p[1])) THEN Restrict(@, {x \in DOMAIN @ : x[1] # aux.cm \/ @[x] # e.p[1]}) ELSE @,
              !.na = IF e.e = "xas" THEN @ + 1 ELSE @,
              !.dy = IF e.e = "xdyn" /\ e.p[1] # 0 THEN @ \cup {aux.cm} ELSE IF e.e = "xquit" THEN @ \ {e.m} ELSE @]
Emit(e) == PrintT(<<"EV", n, ToJson(e)>>)
Step(e) == IF e.e = "switch" THEN st' = st /\ aux' = AuxAfter(e)
           ELSE Emit(e) /\ st' = AfterG(e) /\ aux' = AuxAfter(e)
Kinds == PF.kinds
Init == /\ b = 1 /\ n = 0 /\ aux = Aux0
        /\ st = XAfter(Init0, [e |-> "xinit", m |-> 0, N |-> PF.N, n |-> PF.nv, nn |-> 1])
Next == /\ n < PF.depth
        /\ n' = n + 1 /\ b' = b
        /\ \E k \in {Kinds[RandomElement(1..Len(Kinds))]} :
           \E e \in {IF k \in {"xinit", "xquit", "switch"} THEN GenMgr(k) ELSE Gen(gm, k)} :
             IF e.e # "skip" /\ (e.e = "switch" \/ XLegal(st, e)) THEN Step(e) ELSE st' = st /\ aux' = aux
View == <<b, n>>
=============================================================================
