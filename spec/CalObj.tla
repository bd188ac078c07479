------------------------------- MODULE CalObj -------------------------------
(* The C++ wrapper: objects that own one reference each.                     *)
(*                                                                           *)
(* The state of a manager is that of Cal.tla with live objects in the place  *)
(* of slots: fn maps the objects that denote a function to it, every one of  *)
(* them holds exactly one reference (rf = 1), and xn lists the objects that  *)
(* hold the null diagram (1: bound to a manager, 0: default-constructed).    *)
(* Every event carries ob: value and reference count of the diagram behind   *)
(* every live object, after the statement.                                   *)
EXTENDS CalSteps

Objs(g) == DOMAIN g.fn \cup DOMAIN g.xn
Rename == [cid |-> "id", cnot |-> "not", tilde |-> "not", creg |-> "reg", cif |-> "if", cthen |-> "then", celse |-> "else",
           cand |-> "and", cor |-> "or", cxor |-> "xor", cnand |-> "nand", cnor |-> "nor", cxnor |-> "xnor",
           opand |-> "and", opor |-> "or", opxor |-> "xor", opdiff |-> "diff", cite |-> "ite", ccomp |-> "comp", cswap |-> "swap",
           cinter |-> "inter", cimpl |-> "impl", csat |-> "sat", csats |-> "sats", ccof |-> "cof", cred |-> "red",
           andeq |-> "and", oreq |-> "or", xoreq |-> "xor", diffeq |-> "diff"]
BaseOf(f) == IF f \in DOMAIN Rename THEN Rename[f] ELSE f
QRename == [cisone |-> "isone", ciszero |-> "iszero", cisnull |-> "isnull", cisconst |-> "isconst", ccube |-> "cube", iseq |-> "eq", ceq |-> "eq",
            cdep |-> "dep", cifid |-> "ifid", cifidx |-> "ifidx", profc |-> "profm"]
QBase(f) == IF f \in DOMAIN QRename THEN QRename[f] ELSE f
Compound == {"andeq", "oreq", "xoreq", "diffeq"}
NoArgs == {"def", "null", "one", "zero"}
Passing == {"copy", "move", "vec"}
(* objects a statement reads *)
Reads(e) == IF e.f \in NoArgs \cup {"vid", "vidx"} THEN {} ELSE Range(e.a)
Operands(e) == IF e.f \in Compound THEN <<e.d, e.a[1]>> ELSE e.a

(* --- objects ------------------------------------------------------------- *)
NearObj == 200      \* temporaries of one statement may hold that many more
CountObj(g, t) == LET k == RefsOf(g, t) IN
  IF IsConstF(t) \/ k < NearObj THEN g
  ELSE [g EXCEPT !.nr = @ \cup {RegF(t)}, !.sat = IF k >= MaxRef THEN @ \cup {RegF(t)} ELSE @]
Gone(g, S) == [g EXCEPT !.fn = Restrict(@, DOMAIN @ \ S), !.rf = Restrict(@, DOMAIN @ \ S), !.xn = Restrict(@, DOMAIN @ \ S)]
(* object d now holds t (<<>>: null, with flag k) *)
Hold(g, d, t, k) ==
  LET h == Gone(g, {d}) IN
  IF t = <<>> THEN [h EXCEPT !.xn = (d :> k) @@ @]
  ELSE CountObj([h EXCEPT !.fn = (d :> t) @@ @, !.rf = (d :> 1) @@ @], t)
ValOf(g, s) == IF s \in DOMAIN g.fn THEN g.fn[s] ELSE <<>>
FlagOf(g, s) == IF s \in DOMAIN g.xn THEN g.xn[s] ELSE 1
(* what was observed behind object d *)
Seen(e, d) == LET S == {i \in 1..Len(e.ob) : e.ob[i].i = d} IN IF S = {} THEN <<>> ELSE e.ob[CHOOSE i \in S : TRUE].t

ObOk(g, e) == (* g: after the statement *)
  LET reg == [s \in DOMAIN g.fn |-> RegF(g.fn[s])]
      held == [f \in {reg[s] : s \in DOMAIN reg} |-> Cardinality({s \in DOMAIN reg : reg[s] = f})] IN
  /\ ChkV("live objects", {e.ob[i].i : i \in 1..Len(e.ob)}, Objs(g))
  /\ \A i \in 1..Len(e.ob) :
       LET o == e.ob[i] IN
       /\ ChkV(<<"value of object", o.i>>, o.t, ValOf(g, o.i))
       /\ o.t # <<>> =>
            IF IsConstF(o.t) THEN ChkV("reference count of a constant", o.rc, MaxRef)
            ELSE IF RegF(o.t) \in g.sat THEN ChkV("saturated reference count", o.rc, MaxRef)
            ELSE IF RegF(o.t) \in g.nr /\ o.rc = MaxRef THEN TRUE
            ELSE ChkV(<<"one reference per object", o.i>>, o.rc, held[reg[o.i]])

(* --- expressions ---------------------------------------------------------- *)
NegArgs(f) == CASE f \in {"id", "not", "reg"} -> {1} [] f = "diff" -> {2} [] f = "chain" -> {1, 2, 3} [] OTHER -> {}
ExprLegal(g, e) ==
  LET f == BaseOf(e.f) x == Operands(e) IN
  /\ Reads(e) \subseteq Objs(g)
  /\ e.f \in Compound => e.d \in Objs(g)
  /\ (f \notin NoArgs \cup Passing \cup {"vid", "vidx"}) =>
       /\ \A i \in 1..Len(x) : FlagOf(g, x[i]) = 1
       /\ \A i \in NegArgs(f) : Has(g, x[i])
       /\ f = "chain" => g.lim = 0
       /\ (~AnyNull(g, Range(x)) /\ f \notin {"diff", "chain"}) => OpLegal(g, f, [i \in 1..Len(x) |-> g.fn[x[i]]])
ExprOk(g, e, t) == (* t is a correct value of the expression *)
  LET f == BaseOf(e.f) x == Operands(e)
      y == [i \in 1..Len(x) |-> g.fn[x[i]]]
      want(w) == IF AnyNull(g, Range(x)) THEN ChkV("null operand gives null", t, <<>>)
                 ELSE IF t = <<>> THEN NullOk(g, e) ELSE ChkV(<<"value", e.f>>, t, w)
  IN CASE f \in {"def", "null"} -> ChkV("null", t, <<>>)
       [] f = "one"  -> ChkV("one", t, One(g))
       [] f = "zero" -> ChkV("zero", t, Zero(g))
       [] f = "vid"  -> ChkV("variable by identifier", t, IF e.a[1] \in 1..Len(g.ord) THEN g.vf[e.a[1]] ELSE <<>>)
       [] f = "vidx" -> ChkV("variable by index", t, IF e.a[1] \in 0..Len(g.ord)-1 THEN g.vf[g.ord[e.a[1]+1]] ELSE <<>>)
       [] f \in {"copy", "move"} -> ChkV("value passed on", t, ValOf(g, e.a[1]))
       [] f = "vec"  -> ChkV("value passed on", t, ValOf(g, e.a[Len(e.a)]))
       [] f = "diff" -> want(AndF(y[1], NotF(y[2])))
       [] f = "chain" -> want(NotF(OrF(AndF(y[1], NotF(y[2])), XorF(y[3], y[1]))))
       [] OTHER -> IF AnyNull(g, Range(x)) \/ NullAnswer(g, f, y) THEN ChkV("null operand gives null", t, <<>>)
                   ELSE IF t = <<>> THEN NullOk(g, e)
                   ELSE Chk(<<"value", e.f>>, Post(g, f, y, t))
ExprFlag(g, e) == CASE e.f = "def" -> 0 [] e.f \in {"copy", "move"} -> FlagOf(g, e.a[1]) [] e.f = "vec" -> FlagOf(g, e.a[Len(e.a)]) [] OTHER -> 1

(* a moved-from object may keep the value, lose it, or take the target's     *)
Leftover(g, e) == {<<>>, ValOf(g, e.a[1])} \cup (IF e.e = "xa" THEN {ValOf(g, e.d)} ELSE {})
AfterMove(g, e) ==
  LET s == e.a[1] k == Min(FlagOf(g, s), FlagOf(g, e.d)) IN
  IF s = e.d THEN Hold(g, s, Seen(e, s), k)
  ELSE Hold(Hold(g, e.d, ValOf(g, s), FlagOf(g, s)), s, Seen(e, s), k)

(* --- one manager ---------------------------------------------------------- *)
QEvent(g, e) == [e EXCEPT !.f = QBase(e.f)]
LegalX(st, g, e) ==
  CASE e.e = "xvar" -> e.d \notin Objs(g) /\ (e.pos \in {"before", "after"} => Has(g, e.s))
    [] e.e = "xo"   -> e.d \notin Objs(g) /\ ExprLegal(g, e)
    [] e.e = "xa"   -> e.d \in Objs(g) /\ ExprLegal(g, e)
    [] e.e = "xdel" -> Range(e.a) \subseteq Objs(g)
    [] e.e = "xmw"  -> e.d \notin Objs(g) /\ (e.how < 2 => Range(e.a) \subseteq Objs(g))
    [] e.e = "xpw"  -> Range(e.a) \subseteq Objs(g) /\ \A i \in 0..Len(e.a) : e.d + i \notin Objs(g)
    [] e.e = "xas"  -> /\ e.f \in {"init", "tinit", "taug"} => Range(e.a) \subseteq DOMAIN g.fn
                       /\ e.f \in {"initi", "tiniti", "taugi"} => Range(e.a) \subseteq 1..Len(g.ord)
                       /\ (e.f \in {"init", "tinit", "taug"} /\ e.p[1] = 0) => \A s \in Range(e.a) : IsVar(g, g.fn[s])
    [] e.e = "xq"   -> Range(e.a) \subseteq Objs(g) /\ (e.f \notin {"isnull", "cisnull", "rc", "sizem", "profm", "profc", "fprofm", "pprofm", "pfprofm"} => \A s \in Range(e.a) : FlagOf(g, s) = 1)
    [] e.e = "xpr"  -> Range(e.a) \subseteq DOMAIN g.fn
    [] e.e = "xcross" -> TRUE
    [] OTHER -> TRUE

Fn(g, e) == IF e.f \in {"initi", "tiniti", "taugi"} THEN [g EXCEPT !.fn = [i \in Range(e.a) |-> g.vf[i]]] ELSE g   \* identifiers in the place of objects
DeclX(g, e) == DeclMap(Fn(g, e), e)
GoodX(g, e) == DeclGood(Fn(g, e), e)
MwArgs(g, e) == IF e.how = 2 THEN LET bad == {i \in 1..Len(e.a) : e.a[i] \notin 1..Len(g.ord)}
                                      k == IF bad = {} THEN Len(e.a) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
                                  IN [i \in 1..k |-> g.vf[e.a[i]]]
                ELSE LET x == TakeWhile(g, e.a) IN [i \in 1..Len(x) |-> g.fn[x[i]]]
PwIds(e) == [i \in 1..e.cnt |-> e.d + i - 1]

AfterX(st, g, e) ==
  CASE e.e = "xvar" -> LET h == [g EXCEPT !.ord = OrdAfterVar(g, e), !.vf = Append(@, e.vt), !.vc = Append(@, e.c)] IN Hold(h, e.d, e.vt, 1)
    [] e.e \in {"xo", "xa"} -> IF e.f = "move" THEN AfterMove(g, e) ELSE Hold(g, e.d, Seen(e, e.d), ExprFlag(g, e))
    [] e.e = "xdel" -> Gone(g, Range(e.a))
    [] e.e = "xmw"  -> Hold(g, e.d, Seen(e, e.d), 1)
    [] e.e = "xpw"  -> LET S == Range(PwIds(e)) IN
                       [g EXCEPT !.fn = [s \in S |-> Seen(e, s)] @@ @, !.rf = [s \in S |-> 1] @@ @]
    [] e.e = "xas"  -> (CASE e.f \in {"init", "initi"} -> IF GoodX(g, e) THEN AddAssoc(g, e.v[1], DeclX(g, e)) ELSE g
                         [] e.f = "set"  -> [g EXCEPT !.cur = IF e.p[1] \in AssocIds(g) THEN e.p[1] ELSE -1]
                         [] e.f = "quit" -> QuitAssoc(g, e.p[1])
                         [] e.f \in {"tinit", "tiniti"} -> [g EXCEPT !.tmp = IF GoodX(g, e) THEN DeclX(g, e) ELSE NoMap]
                         [] e.f \in {"taug", "taugi"} -> IF GoodX(g, e) THEN [g EXCEPT !.tmp = DeclX(g, e) @@ @] ELSE g
                         [] e.f = "tquit" -> [g EXCEPT !.tmp = NoMap])
    [] e.e = "xlimit" -> [g EXCEPT !.lim = IF e.p[1] < 0 THEN 0 ELSE e.p[1]]
    [] e.e = "xdyn" -> [g EXCEPT !.tech = e.p[1], !.meth = e.p[2]]
    [] OTHER -> g

OkX(st, g, e) ==
  CASE e.e = "xvar" -> ChkV("function of a new variable", Seen(e, e.d), e.vt) /\ ChkV("order after a new variable", e.o, OrdAfterVar(g, e))
    [] e.e \in {"xo", "xa"} -> IF e.f = "move" /\ e.e = "xa" /\ e.a[1] = e.d THEN Chk("object moved onto itself", Seen(e, e.d) \in Leftover(g, e))
                               ELSE /\ ExprOk(g, e, Seen(e, e.d))
                                    /\ e.f = "move" => Chk("moved-from object", Seen(e, e.a[1]) \in Leftover(g, e))
    [] e.e = "xmw" -> LET y == MwArgs(g, e) t == Seen(e, e.d) IN
                      IF y = <<>> THEN ChkV("null operand gives null", t, <<>>)
                      ELSE IF t = <<>> THEN NullOk(g, e)
                      ELSE ChkV(<<"value", e.f>>, t, FoldOp(e.f, y, g.W))
    [] e.e = "xpw" -> LET x == TakeWhile(g, e.a) IN
                      IF Len(x) % 2 = 1 \/ Len(x) = 0 THEN ChkV("number of pairwise results", e.cnt, 0)
                      ELSE IF e.cnt = 0 THEN NullOk(g, e)
                      ELSE /\ ChkV("every element is returned", e.cnt, Len(x) \div 2)
                           /\ \A i \in 1..e.cnt : ChkV("value of a pairwise result", Seen(e, e.d + i - 1), BoolBin(e.f, g.fn[x[2*i-1]], g.fn[x[2*i]]))
    [] e.e = "xas" -> IF e.f \in {"init", "initi"} THEN
                        LET id == e.v[1] IN
                        IF ~GoodX(g, e) THEN ChkV("association not over variables", id, -1)
                        ELSE LET mp == DeclX(g, e) Q == EqualAssoc(g, mp) IN
                             /\ Chk("identifier of an association", id >= 0)
                             /\ IF Q # {} THEN Chk("equal associations share the identifier", \E i \in Q : g.asl[i].id = id)
                                ELSE Chk("different associations have different identifiers", id \notin AssocIds(g))
                      ELSE IF e.f = "set" THEN ChkV("previous association", e.v, <<g.cur>>) ELSE TRUE
    [] e.e = "xq" -> IF e.f = "neq" THEN ~AnyNull(g, Range(e.a)) => ChkV("inequality", e.v, <<Bool(g.fn[e.a[1]] # g.fn[e.a[2]])>>)
                     ELSE IF e.f = "rc" /\ ~Has(g, e.a[1]) THEN ChkV("reference count of null", e.v, <<MaxRef>>)
                     ELSE QueryOk(g, QEvent(g, e))
    [] e.e = "xpr" -> LET p == ParseF(g, e.v, 1, NoMap) IN
                      /\ Chk("printed text is well formed", p.ok /\ p.i = Len(e.v) + 1)
                      /\ ChkV("printed text denotes the diagram", p.f, g.fn[e.a[1]])
    [] e.e = "xgc" -> LET lc == LiveCount(g, Held(g)) hc == IF g.nr \subseteq g.sat THEN lc ELSE LiveCount(g, Held(g) \cup g.nr) IN
                      /\ Chk("collection keeps everything held", e.nn >= lc)
                      /\ (e.sn = 0 \/ g.pk < 100) => IF lc = hc THEN ChkV("node count after a collection", e.nn, lc) ELSE Chk("node count after a collection", e.nn <= hc)
    [] e.e = "xlimit" -> ChkV("previous limit and overflow", e.v, <<g.lim, g.ovf>>)
    [] OTHER -> TRUE
OvX(g, e) == IF e.e = "xlimit" THEN ChkV("overflow flag is cleared by reading", e.ov, 0) ELSE OvOk(g, e)

(* --- all managers --------------------------------------------------------- *)
(* xcross: object d of manager m1 is assigned from object s of manager m and *)
(* becomes object d2 of it                                                   *)
XLegal(st, e) ==
  CASE e.e \in {"reset", "crash"} -> TRUE
    [] e.e = "xinit" -> e.m \notin DOMAIN st.mg
    [] e.e = "xcross" -> /\ {e.m, e.m1} \subseteq DOMAIN st.mg /\ e.m # e.m1
                         /\ e.d \in Objs(st.mg[e.m1]) /\ e.s \in Objs(st.mg[e.m]) /\ e.d2 \notin Objs(st.mg[e.m])
    [] OTHER -> e.m \in DOMAIN st.mg /\ LegalX(st, st.mg[e.m], e)
XMid(st, e) == LET h == Hold(st.mg[e.m], e.d2, ValOf(st.mg[e.m], e.s), FlagOf(st.mg[e.m], e.s)) IN
               IF e.mv = 1 /\ Seen(e, e.s) = <<>> THEN Hold(h, e.s, <<>>, FlagOf(h, e.s)) ELSE h
XAfter(st, e) ==
  CASE e.e = "reset" -> Init0
    [] e.e = "xinit" -> [st EXCEPT !.mg = (e.m :> [NewMgr(e.N) EXCEPT !.xn = NoMap, !.ord = [i \in 1..e.n |-> i], !.vf = [i \in 1..e.n |-> CoordF(i-1, Words(e.N))],
                                                                      !.vc = [i \in 1..e.n |-> i-1], !.pk = e.nn, !.nn = e.nn]) @@ @]
    [] e.e = "xquit" -> [st EXCEPT !.mg = Restrict(@, DOMAIN @ \ {e.m})]
    [] e.e = "xcross" -> [st EXCEPT !.mg = (e.m :> Settle(XMid(st, e), e)) @@ (e.m1 :> Gone(@[e.m1], {e.d})) @@ @]
    [] e.e = "crash" -> st
    [] OTHER -> Put(st, e, Settle(AfterX(st, G(st, e), e), e))
XOk(st, e) ==
  /\ ChkV("index and identifier maps", e.mo, 1)
  /\ ChkV("well-formed diagrams", e.se, 0)
  /\ CASE e.e = "reset" -> TRUE
       [] e.e = "crash" -> Chk(<<"call returns", e.why>>, FALSE)
       [] e.e = "xinit" -> ChkV("variables of a new manager", e.nv, e.n) /\ ObOk(XAfter(st, e).mg[e.m], e)
       [] e.e = "xquit" -> ChkV("memory released", e.lk, 0)
       [] e.e = "xcross" -> ObOk(XAfter(st, e).mg[e.m], e) /\ ObOk(XAfter(st, e).mg[e.m1], [e EXCEPT !.ob = e.ob1])
       [] OTHER -> LET g == G(st, e) h == IF e.e \in {"xo", "xa", "xq", "xpr"} /\ e.o # <<>> THEN [g EXCEPT !.ord = e.o] ELSE g IN
                   /\ OkX(st, h, e)
                   /\ e.e # "xvar" => OrderOk(g, e.o)
                   /\ OvX(g, e)
                   /\ ChkV("number of variables", e.nv, Len(g.ord) + IF e.e = "xvar" THEN 1 ELSE 0)
                   /\ ObOk(XAfter(st, e).mg[e.m], e)
=============================================================================
