------------------------------- MODULE GenCal -------------------------------
(* Behaviours of the specification, chosen at random and printed as JSON     *)
(* events for replay against the real library.  The profile (a JSON file)    *)
(* says how many behaviours, how long, which managers and which calls how    *)
(* often.  Where the specification leaves a result open the generator        *)
(* continues with one of the allowed results and from then on uses the slot  *)
(* only where any function is legal (unk).                                   *)
EXTENDS CalSteps, Json, IOUtils
PF == JsonDeserialize(IOEnv.PROFILE)
VARIABLES b, n, st, aux
vars == <<b, n, st, aux>>
(* aux: next slot, cm current manager, unk slots of unknown function by manager,
   an association names, fid files, dead freed slots *)
Aux0 == [ns |-> 1, cm |-> 0, unk |-> {}, an |-> NoMap, fs |-> {}, nf |-> 1, na |-> 1, nb |-> 1, dy |-> {}]
Pick1(S) == RandomElement(S)
One1(x, S) == IF S = {} THEN x ELSE RandomElement(S)
Chance(k) == RandomElement(1..100) <= k
Nil == [e |-> "skip"]
Base(k) == [e |-> k, m |-> aux.cm, o |-> <<>>, ov |-> 0, nn |-> 0, chg |-> <<>>, mo |-> 1, se |-> 0, rs |-> <<>>]
R1(d, t) == << [d |-> d, t |-> t, q |-> <<>>, n |-> <<>>, rc |-> 0, rg |-> 0] >>
gm == st.mg[aux.cm]
Unk(s) == <<aux.cm, s>> \in aux.unk
Known(g) == {s \in DOMAIN g.fn : ~Unk(s)}
Solid(g) == DOMAIN g.fn
VarSlots(g) == {s \in Known(g) : IsVar(g, g.fn[s])}
ConstSlots(g) == {s \in Known(g) : IsConstF(g.fn[s])}
NonConst(g) == {s \in Known(g) : ~IsConstF(g.fn[s])}
(* a slot, rarely the null slot: mostly not a constant, often one that depends
   on more variables than another drawn with it *)
AnySlot(g, dummy) ==
  IF DOMAIN g.fn = {} THEN 0
  ELSE IF PF.nullpct > 0 /\ Chance(PF.nullpct) THEN 0
  ELSE IF Chance(25) THEN RandomElement(DOMAIN g.fn)
  ELSE LET S == NonConst(g) IN
       IF S = {} THEN RandomElement(DOMAIN g.fn)
       ELSE LET x == RandomElement(S) y == RandomElement(S) IN
            IF Chance(40) THEN x
            ELSE IF Cardinality(SupportIds(g, g.fn[x])) >= Cardinality(SupportIds(g, g.fn[y])) THEN x ELSE y
RECURSIVE Some(_,_,_)
Some(S, k, dummy) == IF k = 0 \/ S = {} THEN <<>> ELSE <<RandomElement(S)>> \o Some(S, k-1, dummy+1)
RECURSIVE Shuffle(_,_)
Shuffle(S, dummy) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Shuffle(S \ {x}, dummy+1)
(* the result the generator continues with *)
Choice(g, f, x) ==
  CASE f \in {"cof", "red", "sat", "sats"} -> x[1]
    [] f = "btw" -> x[1]
    [] f = "inter" -> AndF(x[1], x[2])
    [] f = "impl" -> AndF(x[1], NotF(x[2]))
    [] OTHER -> Exactly(g, f, x)
OpenOps == {"cof", "red", "btw", "sat", "sats", "inter", "impl"}
MkWith(k, r) == r @@ Base(k)
MkOp(g, f, a) ==
  LET nul == AnyNull(g, Range(a)) \/ NullAnswer(g, f, Args(g, [a |-> a]))
  IN MkWith("op", [f |-> f, a |-> a, rs |-> IF nul THEN R1(aux.ns, <<>>) ELSE R1(aux.ns, Choice(g, f, Args(g, [a |-> a])))])
OpArgs(g, f) ==
  CASE f \in {"then", "else", "if"} -> IF NonConst(g) = {} THEN <<>> ELSE <<RandomElement(NonConst(g))>>
    [] f \in {"id", "not", "reg"} -> IF Solid(g) = {} THEN <<>> ELSE <<RandomElement(Solid(g))>>
    [] Un(f) -> <<AnySlot(g, 1)>>
    [] f = "comp" -> LET V == VarSlots(g) \cup (IF Chance(10) THEN ConstSlots(g) ELSE {}) IN
                     IF V = {} THEN <<>> ELSE <<AnySlot(g, 1), RandomElement(V), AnySlot(g, 3)>>
    [] f = "swap" -> LET V == VarSlots(g) \cup (IF Chance(10) THEN ConstSlots(g) ELSE {}) IN
                     IF V = {} THEN <<>> ELSE <<AnySlot(g, 1)>> \o Some(V, 2, 1)
    [] f = "ite" -> <<AnySlot(g, 1), AnySlot(g, 2), AnySlot(g, 3)>>
    [] f = "cof" /\ Chance(40) -> (* restriction by a literal *)
                     IF VarSlots(g) = {} THEN <<>> ELSE <<AnySlot(g, 1), RandomElement(VarSlots(g))>>
    [] OTHER -> <<AnySlot(g, 1), AnySlot(g, 2)>>
UnkArgs(a) == \E s \in Range(a) : Unk(s)
GenOp(g, f) == \* LET forces one evaluation of the random arguments
  LET a == OpArgs(g, f) IN
  IF a = <<>> THEN Nil
  ELSE IF f = "vsub" /\ ~(PosVarMap(g, CurMap(g)) ) THEN Nil
  ELSE MkOp(g, f, a)
NewCoord(g) == LET free == {k \in 0..g.N-1 : \A i \in 1..Len(g.vc) : g.vc[i] # k} IN IF free = {} THEN -1 ELSE CHOOSE k \in free : \A j \in free : k <= j
Gen(g, k) ==
  CASE k = "var" ->
         LET c == NewCoord(g)
             p == RandomElement({"first", "last", "before", "after"})
             s == IF NonConst(g) = {} THEN 0 ELSE RandomElement(NonConst(g))
             p2 == IF s = 0 /\ p \in {"before", "after"} THEN "last" ELSE p
         IN IF c < 0 THEN Nil ELSE MkWith("var", [c |-> c, vt |-> CoordF(c, g.W), pos |-> p2, s |-> s, rs |-> R1(aux.ns, CoordF(c, g.W))])
    [] k = "idle" -> LET c == RandomElement(Range(PF.idles))
                         p == RandomElement({"first", "last", "before", "after"})
                         s == IF VarSlots(g) = {} THEN 0 ELSE RandomElement(VarSlots(g))
                         p2 == IF s = 0 /\ p \in {"before", "after"} THEN "last" ELSE p
                         e == MkWith("idle", [n |-> c, pos |-> p2, s |-> s, ok |-> 1])
                     IN IF Len(g.ord) > PF.maxvars THEN Nil ELSE [e EXCEPT !.o = OrdAfterIdle(g, e, c)]
    [] k = "const" -> LET v == RandomElement(0..1) IN MkWith("const", [v |-> v, rs |-> R1(aux.ns, IF v = 1 THEN One(g) ELSE Zero(g))])
    [] k = "vid" -> LET p == RandomElement(0..Len(g.ord)+1) IN MkWith("vid", [p |-> <<p>>, rs |-> R1(aux.ns, IF p \in 1..Len(g.ord) THEN g.vf[p] ELSE <<>>)])
    [] k = "vidx" -> IF \E i \in 1..Len(g.vf) : g.vf[i] = <<>> THEN Nil ELSE LET p == RandomElement(0..Len(g.ord)+1) IN MkWith("vidx", [p |-> <<p>>, unk |-> 1, rs |-> R1(aux.ns, IF p < Len(g.ord) THEN g.vf[g.ord[p+1]] ELSE <<>>)])
    [] k \in {"and", "or", "xor", "nand", "nor", "xnor", "ite", "id", "not", "reg", "ex", "all", "rp", "sub", "vsub", "comp", "swap",
              "cof", "red", "btw", "sat", "sats", "inter", "impl", "then", "else", "if"} -> GenOp(g, k)
    [] k = "unfree" -> IF Solid(g) = {} THEN Nil ELSE LET s == RandomElement(Solid(g)) c == IF Chance(5) THEN RandomElement(250..260) ELSE RandomElement(1..3) IN MkWith("unfree", [a |-> <<s>>, p |-> <<c>>])
    [] k = "dec" -> LET S == {s \in DOMAIN g.rf : g.rf[s] > 1} IN IF S = {} THEN Nil ELSE MkWith("dec", [a |-> <<RandomElement(S)>>])
    [] k = "free" -> IF Solid(g) \ g.pend = {} THEN Nil ELSE LET s == RandomElement(Solid(g) \ g.pend) IN MkWith("free", [a |-> <<s>>])
    [] k = "revive" -> IF DOMAIN g.rv = {} THEN Nil ELSE LET s == RandomElement(DOMAIN g.rv) IN IF Fresh(g, s) THEN MkWith("revive", [rs |-> R1(s, g.rv[s])]) ELSE Nil
    [] k = "mw" -> LET c == RandomElement(0..6) a == Some(Solid(g), c, 1) f == RandomElement({"and", "or", "xor"}) IN
                   MkWith("mw", [f |-> f, a |-> a, rs |-> R1(aux.ns, IF a = <<>> THEN <<>> ELSE FoldOp(f, [i \in 1..Len(a) |-> g.fn[a[i]]], g.W))])
    [] k = "pw" -> LET c == 2 * RandomElement(0..4) a == Some(Solid(g), c, 1) f == RandomElement({"and", "or", "xor"}) IN
                   MkWith("pw", [f |-> f, a |-> a, nul |-> 0, cnt |-> Len(a) \div 2, d0 |-> aux.ns,
                     rs |-> [i \in 1..Len(a) \div 2 |-> R1(aux.ns + i - 1, BoolBin(f, g.fn[a[2*i-1]], g.fn[a[2*i]]))[1]]])
    [] k \in {"gc", "reorder", "gclimit", "snap", "tquit", "pq"} -> Base(k) @@ [sn |-> 0]
    [] k = "px" -> MkWith("px", [v |-> <<Bool(g.pst = "create")>>])
    [] k = "ovf" -> MkWith("ovf", [v |-> <<g.ovf>>])
    [] k = "hget" -> MkWith("hget", [v |-> <<g.hk>>])
    [] k = "hset" -> MkWith("hset", [p |-> <<RandomElement(0..1000)>>])
    [] k = "gcmode" -> MkWith("gcmode", [p |-> <<RandomElement(0..1)>>])
    [] k = "dyn" -> LET t == RandomElement(Range(PF.techs)) IN MkWith("dyn", [p |-> IF g.blks = <<>> THEN t ELSE <<t[1], MethodDF>>])
    [] k = "params" -> LET q == RandomElement(Range(PF.params)) IN MkWith("params", [pa |-> q])
    [] k = "limit" -> LET l == RandomElement(Range(PF.limits)) IN MkWith("limit", [p |-> <<l>>, v |-> <<g.lim>>])
    [] k \in {"ainit", "tinit", "taug"} ->
         LET V == VarSlots(g)
             c == RandomElement(0..Min(3, Cardinality(V)))
             pr == RandomElement(0..1)
             vs == Some(V, c, 1)
             \* values: any slot, or (often) variables so that vsub applies
             ws == IF Chance(40) THEN Some(V, c, 7) ELSE Some(DOMAIN g.fn, c, 7)
             a == IF pr = 0 THEN vs ELSE [i \in 1..2*c |-> IF i % 2 = 1 THEN vs[(i+1) \div 2] ELSE ws[i \div 2]]
             bad == k = "ainit" /\ pr = 1 /\ c > 0 /\ Chance(4) /\ (NonConst(g) \ V # {})
             a2 == IF bad THEN [a EXCEPT ![1] = CHOOSE s \in NonConst(g) \ V : TRUE] ELSE a
             mp == DeclMap(g, [a |-> a, p |-> <<pr>>])
             Q == EqualAssoc(g, mp)
             id == IF bad THEN -1 ELSE IF Q # {} THEN g.asl[CHOOSE i \in Q : TRUE].id ELSE (CHOOSE i \in 0..Len(g.asl) : i \notin AssocIds(g))
         IN IF V = {} \/ (pr = 1 /\ UnkArgs(a2) /\ PF.unkassoc = 0) THEN Nil
            ELSE MkWith(k, [a |-> a2, p |-> <<pr>>, v |-> <<id>>, nm |-> aux.na])
    [] k \in {"aset", "aquit"} ->
         LET S == {x \in DOMAIN aux.an : x[1] = aux.cm}
             x == IF S = {} \/ Chance(15) THEN <<aux.cm, -1>> ELSE RandomElement(S)
             id == IF x[2] = -1 THEN -1 ELSE aux.an[x]
         IN IF k = "aquit" /\ x[2] = -1 THEN Nil
            ELSE MkWith(k, [p |-> <<id>>, v |-> <<g.cur>>, nm |-> x[2]])
    [] k = "pi" -> LET f == IF Chance(3) THEN "bad" ELSE RandomElement({"and", "or", "xor"}) IN MkWith("pi", [f |-> f, v |-> <<Bool(g.pst = "ready" /\ f # "bad")>>])
    [] k = "psetdepth" -> IF g.pst # "ready" THEN Nil ELSE MkWith("psetdepth", [p |-> <<RandomElement(Range(PF.depths))>>])
    [] k = "pc" -> IF DOMAIN g.fn = {} \/ (g.pst # "create" /\ ~Chance(10)) THEN Nil
                   ELSE LET a == Some(DOMAIN g.fn \cup (IF g.pst = "create" THEN DOMAIN g.prov ELSE {}) \cup (IF Chance(3) THEN {0} ELSE {}), 2, 1) IN
                        MkWith("pc", [d |-> aux.ns, a |-> a, v |-> IF g.pst = "create" /\ 0 \notin Range(a) THEN <<1, 1>> ELSE <<0, 0>>])
    [] k = "pu" -> IF DOMAIN g.prov = {} \/ (g.pst # "update" /\ ~Chance(5)) THEN Nil
                   ELSE LET p == RandomElement(DOMAIN g.prov) IN
                        MkWith("pu", [a |-> <<p>>, rs |-> R1(aux.ns, IF g.pst = "update" THEN g.prov[p].f ELSE <<>>)])
    [] k = "dump" -> LET V == VarSlots(g) IN
                     IF Known(g) = {} THEN Nil
                     ELSE LET s == RandomElement(Known(g))
                              need == IF g.ex THEN {id \in SupportIds(g, g.fn[s]) : TRUE} ELSE {}
                              have == {IdOfVar(g, g.fn[x]) : x \in V}
                              rep == {x \in V : \A y \in V : g.fn[y] = g.fn[x] => x <= y}    \* one slot per variable
                              sel == IF Chance(60) THEN rep ELSE {x \in rep : IdOfVar(g, g.fn[x]) \in need}
                              a == Shuffle(sel, 1)
                          IN IF need \subseteq have
                             THEN MkWith("dump", [fid |-> ToString(aux.nf), a |-> <<s>>, p |-> a, v |-> <<1, 0>>]) ELSE Nil
    [] k = "undump" -> IF aux.fs = {} THEN Nil
                       ELSE LET x == RandomElement(aux.fs) fl == st.fl[x] V == VarSlots(g) IN
                            IF fl.bad THEN (IF V = {} THEN Nil ELSE LET a == Some(V, RandomElement(0..4), 1) IN
                                  MkWith("undump", [fid |-> x, p |-> a, v |-> <<1>>, unk |-> 1, rs |-> R1(aux.ns, <<>>)]))
                            ELSE IF Len(fl.ids) > 0 /\ V = {} THEN Nil
                            ELSE LET same == {i \in 1..Len(fl.vf) : \E s \in V : g.fn[s] = fl.vf[i]}
                                     a == IF Chance(50) /\ same = 1..Len(fl.vf) /\ g.W = fl.W THEN [i \in 1..Len(fl.vf) |-> CHOOSE s \in V : g.fn[s] = fl.vf[i]]
                                          ELSE Some(V, IF Chance(5) THEN RandomElement(0..4) ELSE Len(fl.ids), 1)
                                     ys == [i \in 1..Len(a) |-> g.fn[a[i]]]
                                 IN IF Len(a) # Len(fl.ids) THEN MkWith("undump", [fid |-> x, p |-> a, v |-> <<1>>, rs |-> R1(aux.ns, <<>>)])
                                    ELSE MkWith("undump", [fid |-> x, p |-> a, v |-> <<0>>, rs |-> R1(aux.ns, ReadBack(g, fl, ys))])
    [] k = "damage" -> IF aux.fs = {} THEN Nil
                       ELSE LET x == RandomElement(aux.fs) how == RandomElement({"trunc", "flip", "put"}) IN
                            MkWith("damage", [fid |-> ToString(aux.nf), old |-> x, how |-> how, off |-> RandomElement(0..60), val |-> RandomElement(0..255)])
    [] k = "blk" -> LET V == VarSlots(g) IN
                    IF V = {} \/ aux.cm \in aux.dy THEN Nil
                    ELSE LET s == RandomElement(V) l == RandomElement(0..4) e == MkWith("blk", [b |-> aux.nb, a |-> <<s>>, p |-> <<l>>, v |-> <<1>>]) IN
                         IF LegalM(st, g, e) THEN e ELSE Nil
    [] k = "blkre" -> IF g.blks = <<>> THEN Nil ELSE LET i == RandomElement(1..Len(g.blks)) IN MkWith("blkre", [b |-> g.blks[i].b, p |-> <<RandomElement(0..1)>>])
    [] k \in {"pr"} -> IF Solid(g) = {} THEN Nil ELSE MkWith("pr", [a |-> <<RandomElement(Solid(g))>>, p |-> <<RandomElement(0..1)>>])
    [] k = "fpr" -> IF Solid(g) = {} THEN Nil ELSE MkWith("fpr", [a |-> <<RandomElement(Solid(g))>>])
    [] k = "q" -> LET f == RandomElement(Range(PF.queries)) ng == RandomElement(0..1) IN
                  IF Solid(g) = {} /\ f \notin {"nodes", "vars", "stats"} THEN Nil
                  ELSE CASE f \in {"size", "prof", "pprof", "pfprof"} -> MkWith("q", [f |-> f, a |-> <<RandomElement(Solid(g))>>, p |-> <<ng>>])
                         [] f \in {"sizem", "profm", "pprofm", "pfprofm"} -> MkWith("q", [f |-> f, a |-> Some(Solid(g), RandomElement(1..4), 1), p |-> <<ng>>])
                         [] f \in {"fprofm"} -> MkWith("q", [f |-> f, a |-> Some(Solid(g), RandomElement(1..4), 1), p |-> <<>>])
                         [] f \in {"eq"} -> MkWith("q", [f |-> f, a |-> Some(Solid(g), 2, 1), p |-> <<>>])
                         [] f \in {"dep"} -> IF VarSlots(g) = {} THEN Nil ELSE MkWith("q", [f |-> f, a |-> <<RandomElement(Solid(g)), RandomElement(VarSlots(g))>>, p |-> <<>>])
                         [] f \in {"cube", "walk"} -> LET S == {s \in Known(g) : ~IsZeroF(g.fn[s])} IN IF S = {} THEN Nil ELSE MkWith("q", [f |-> f, a |-> <<RandomElement(S)>>, p |-> <<>>])
                         [] f \in {"nodes", "vars", "stats"} -> MkWith("q", [f |-> f, a |-> <<>>, p |-> <<>>])
                         [] f \in {"isprov"} -> MkWith("q", [f |-> f, a |-> <<RandomElement(Solid(g) \cup DOMAIN g.prov)>>, p |-> <<>>])
                         [] OTHER -> MkWith("q", [f |-> f, a |-> <<RandomElement(Solid(g))>>, p |-> <<>>])
-----------------------------------------------------------------------------
(* managers *)
GenMgr(k) ==
  LET live == DOMAIN st.mg IN
  IF k = "minit" THEN (IF Cardinality(live) >= PF.maxmgr THEN Nil ELSE [Base("minit") EXCEPT !.m = CHOOSE x \in 0..9 : x \notin live] @@ [N |-> PF.N, one |-> 1])
  ELSE IF k = "mquit" THEN (IF Cardinality(live) < 2 THEN Nil ELSE [Base("mquit") EXCEPT !.m = RandomElement(live)] @@ [lk |-> 0])
  ELSE [Base("switch") EXCEPT !.m = RandomElement(live)]
UnkAfter(e) ==
  LET pre == IF e.e = "mquit" THEN {x \in aux.unk : x[1] # e.m} ELSE aux.unk
      newslots == {<<e.m, e.rs[i].d>> : i \in 1..Len(e.rs)}
      tainted == \/ e.e = "op" /\ (e.f \in OpenOps \/ UnkArgs(e.a))
                 \/ e.e \in {"mw", "pw"} /\ UnkArgs(e.a)
                 \/ e.e = "op" /\ e.f \in {"if", "then", "else"} /\ gm.tech # NoTech
                 \/ e.e = "op" /\ e.f \in {"if", "then", "else"} /\ aux.cm \in aux.dy
                 \/ e.e \in {"op"} /\ e.f \in {"sub", "vsub"} /\ PF.unkassoc = 1
                 \/ e.e \in {"vidx", "undump"} /\ (aux.cm \in aux.dy \/ "unk" \in DOMAIN e)
                 \/ e.e = "pu"
  IN IF tainted THEN pre \cup newslots ELSE pre
AuxAfter(e) ==
  [aux EXCEPT !.ns = IF e.e \in {"pc"} THEN @ + 1 ELSE @ + (IF e.e = "revive" THEN 0 ELSE Len(e.rs)),
              !.cm = IF e.e \in {"minit", "switch"} THEN e.m ELSE IF e.e = "mquit" THEN (IF @ = e.m THEN CHOOSE x \in DOMAIN st.mg : x # e.m ELSE @) ELSE @,
              !.unk = UnkAfter(e),
              !.an = IF e.e = "ainit" /\ e.v[1] >= 0 THEN (<<aux.cm, aux.na>> :> e.v[1]) @@ @ ELSE IF e.e = "mquit" THEN Restrict(@, {x \in DOMAIN @ : x[1] # e.m})
                     ELSE IF e.e = "aquit" /\ e.p[1] \notin AssocIds(QuitAssoc(gm, e.p[1])) THEN Restrict(@, {x \in DOMAIN @ : x[1] # aux.cm \/ @[x] # e.p[1]}) ELSE @,
              !.na = IF e.e = "ainit" THEN @ + 1 ELSE @,
              !.fs = IF e.e = "dump" THEN @ \cup {e.fid} ELSE IF e.e = "damage" THEN @ \cup {e.fid} ELSE @,
              !.nf = IF e.e \in {"dump", "damage"} THEN @ + 1 ELSE @,
              !.nb = IF e.e = "blk" THEN @ + 1 ELSE @,
              !.dy = IF e.e = "dyn" /\ e.p[1] # 0 THEN @ \cup {aux.cm} ELSE IF e.e = "mquit" THEN @ \ {e.m} ELSE @]
Emit(e) == PrintT(<<"EV", n, ToJson(e)>>)
Step(e) ==
  IF e.e = "skip" THEN st' = st /\ aux' = aux
  ELSE IF e.e = "switch" THEN st' = st /\ aux' = AuxAfter(e)
  ELSE Emit(e) /\ st' = After(st, e) /\ aux' = AuxAfter(e)
Kinds == PF.kinds
Init == /\ b \in 1..PF.count /\ n = 0 /\ aux = Aux0
        /\ st = After(Init0, [e |-> "minit", m |-> 0, N |-> PF.N, nn |-> 1])
Next == /\ n < PF.depth
        /\ n' = n + 1 /\ b' = b
        /\ \E k \in {IF n < Len(PF.prefix) THEN PF.prefix[n+1] ELSE Kinds[RandomElement(1..Len(Kinds))]} :
           \E e \in {IF k \in {"minit", "mquit", "switch"} THEN GenMgr(k) ELSE Gen(gm, k)} :
             IF e.e # "skip" /\ (e.e = "switch" \/ Legal(st, e)) THEN Step(e) ELSE st' = st /\ aux' = aux
View == <<b, n>>
=============================================================================
