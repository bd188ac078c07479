------------------------------ MODULE CalSteps ------------------------------
(* The transitions: Legal, Ok and After by kind of event.                    *)
EXTENDS CalDiag

G(st, e) == st.mg[e.m]
Alive(st, e) == e.m \in DOMAIN st.mg
Put(st, e, g) == [st EXCEPT !.mg = (e.m :> g) @@ @]
NotProv(g, S) == S \cap DOMAIN g.prov = {}
DepthOf(g, s) == IF s \in DOMAIN g.prov THEN g.prov[s].dep ELSE -1
FnOf(g, s) == IF s \in DOMAIN g.prov THEN g.prov[s].f ELSE g.fn[s]
MaxInsertDepth == 256
Fresh(g, d) == ~Has(g, d) /\ d \notin DOMAIN g.prov
BlkRange(g, e) == LET f == IndexIn(g.ord, TopVar(g, g.fn[e.a[1]])) IN
                  {g.ord[i] : i \in f..Min(Len(g.ord), f + Max(e.p[1], 1) - 1)}

(* nodes of a diagram that are not literals *)
InnerNodes(g, f) == LET L == Levels({f}, Cs(g)) IN SumSeq([i \in 1..Len(g.ord) |-> Cardinality(L[i] \ {g.vf[g.ord[i]]})])

(* --- preconditions ------------------------------------------------------- *)
LegalM(st, g, e) ==
  CASE e.e = "vid"  -> e.p[1] \in 1..Len(g.ord) => g.vf[e.p[1]] # <<>>
    [] e.e = "vidx" -> e.p[1] \in 0..Len(g.ord)-1 => g.vf[g.ord[e.p[1]+1]] # <<>>
    [] e.e = "idle" -> g.blks = <<>> /\ (e.pos \in {"before", "after"} => Has(g, e.s) /\ (IsVar(g, g.fn[e.s]) \/ IsConstF(g.fn[e.s])))
    [] e.e = "var"  -> Fresh(g, e.rs[1].d) /\ (e.pos \in {"before", "after"} => Has(g, e.s) /\ (g.ex \/ IsVar(g, g.fn[e.s]) \/ IsConstF(g.fn[e.s])))
    [] e.e = "op"   -> NotProv(g, Range(e.a)) /\ (e.f \in {"id", "not", "reg"} => ~AnyNull(g, Range(e.a)))
                       /\ (~AnyNull(g, Range(e.a)) => OpLegal(g, e.f, Args(g, e)))
    [] e.e \in {"mw", "pw", "q", "ainit", "tinit", "taug", "dump", "spin"} ->
                       /\ e.e = "q" \/ NotProv(g, Range(e.a))
                       /\ (e.e \in {"ainit", "tinit", "taug"} /\ e.p[1] = 0) => DeclGood(g, e)      \* only pairs are checked
    [] e.e = "row"  -> TRUE
    [] e.e = "diag" -> Range(e.a) \subseteq DOMAIN g.fn /\ \A i \in 1..Len(e.tb) : e.tb[i][1] \in 1..Len(g.vf) => g.vf[e.tb[i][1]] # <<>>
    [] e.e = "revive" -> e.rs[1].d \in DOMAIN g.rv
    [] e.e \in {"unfree"} -> Has(g, e.a[1])
    [] e.e = "dec"  -> Has(g, e.a[1]) /\ g.rf[e.a[1]] > 1
    [] e.e = "free" -> \A s \in Range(e.a) : Has(g, s) /\ s \notin g.pend
    [] e.e = "undump" -> e.fid \in DOMAIN st.fl
    [] e.e = "pc"   -> /\ \A s \in Range(e.a) : Has(g, s) \/ s \in DOMAIN g.prov \/ s = 0
                       /\ Fresh(g, e.d)
    [] e.e = "pu"   -> e.a[1] \in DOMAIN g.prov
    [] e.e = "blk"  -> /\ Has(g, e.a[1]) /\ (IsVar(g, g.fn[e.a[1]]) \/ IsConstF(g.fn[e.a[1]]))
                       /\ ~g.bv
                       /\ (IsVar(g, g.fn[e.a[1]]) => LET R == BlkRange(g, e) IN
                             \A i \in 1..Len(g.blks) : LET B == g.blks[i].vs IN R \cap B = {} \/ R \subseteq B \/ B \subseteq R)
    [] e.e = "blkre" -> SelectIdx(g.blks, LAMBDA b : b.b = e.b) # 0
    [] OTHER -> TRUE
Legal(st, e) == IF e.e \in {"reset", "damage", "crash"} THEN TRUE
                ELSE IF e.e \in {"minit", "xinit"} THEN ~Alive(st, e)
                ELSE Alive(st, e) /\ LegalM(st, G(st, e), e)

(* --- what may be observed ------------------------------------------------ *)
ResEvent(g, e, null, post(_)) ==   \* one result
  LET r == OneRes(e) IN
  IF null THEN ChkV("null operand gives null", r.t, <<>>)
  ELSE IF NilRes(r) THEN NullOk(g, e)
  ELSE Chk(<<"value", e.e>>, post(r.t)) /\ ResOk(g, r, 0)
RECURSIVE PwOk(_,_,_,_,_)
PwOk(g, e, x, i, acc) == (* acc: manager with the earlier results *)
  IF i > Len(e.rs) THEN TRUE
  ELSE LET r == e.rs[i]
           want == BoolBin(e.f, g.fn[x[2*i-1]], g.fn[x[2*i]])
           later == Cardinality({j \in i+1..Len(e.rs) : RegF(e.rs[j].t) = RegF(r.t)})
       IN /\ ChkV("value of a pairwise result", r.t, want)
          /\ CanonOk(acc, r, r.t)
          /\ (g.ex \/ later = 0) => RcOk(acc, r, r.t, later)
          /\ ChkV("polarity", r.rg, IF TopBit(r.t) THEN 1 ELSE 0)
          /\ PwOk(g, e, x, i+1, PutRes(acc, r))
OkM(st, g, e) ==
  CASE e.e = "var" -> LET r == OneRes(e) IN
                        /\ ChkV("function of a new variable", r.t, e.vt)
                        /\ ChkV("order after a new variable", e.o, OrdAfterVar(g, e))
                        /\ ResOk([g EXCEPT !.ex = @ /\ e.c >= 0], r, 0)
    [] e.e = "vars" -> /\ ChkV("identifiers of new variables", e.ok, 1)
                       /\ ChkV("order after new variables", e.o, g.ord \o [i \in 1..e.n |-> Len(g.ord) + i])
    [] e.e = "idle" -> /\ ChkV("identifiers of new variables", e.ok, 1)
                       /\ ChkV("order after new variables", e.o, OrdAfterIdle(g, e, e.n))
    [] e.e = "op" -> LET null == AnyNull(g, Range(e.a)) IN
                     /\ ResEvent(g, e, null \/ NullAnswer(g, e.f, Args(g, e)), LAMBDA t : Post(g, e.f, Args(g, e), t))
                     /\ "tb" \in DOMAIN e => WitOk(g, e)
    [] e.e = "diag" -> DiagOk(g, e)
    [] e.e = "const" -> ResEvent(g, e, FALSE, LAMBDA t : t = IF e.v = 1 THEN One(g) ELSE Zero(g))
    [] e.e = "vid"  -> ResEvent(g, e, e.p[1] \notin 1..Len(g.ord), LAMBDA t : t = g.vf[e.p[1]])
    [] e.e = "vidx" -> ResEvent(g, e, e.p[1] \notin 0..Len(g.ord)-1, LAMBDA t : t = g.vf[g.ord[e.p[1]+1]])
    [] e.e = "revive" -> ResEvent(g, e, FALSE, LAMBDA t : t = g.rv[OneRes(e).d])
    [] e.e = "mw" -> LET x == TakeWhile(g, e.a) IN
                     ResEvent(g, e, x = <<>>, LAMBDA t : t = FoldOp(e.f, [i \in 1..Len(x) |-> g.fn[x[i]]], g.W))
    [] e.e = "pw" -> LET x == TakeWhile(g, e.a) IN
                     IF Len(x) = 0 THEN ChkV("number of pairwise results", e.cnt, 0)
                     ELSE IF Len(x) % 2 = 1 THEN ChkV("result of an odd number of operands", e.nul, 1)
                     ELSE IF e.nul = 1 \/ \E i \in 1..Len(e.rs) : NilRes(e.rs[i]) THEN NullOk(g, e)
                     ELSE ChkV("number of pairwise results", <<e.cnt, Len(e.rs)>>, <<Len(x) \div 2, Len(x) \div 2>>) /\ PwOk(g, e, x, 1, g)
    [] e.e = "row" -> \A j \in 1..Len(e.v) :
                        LET x == RowArgs(g, e, j) s == e.v[j] IN
                        OpLegal(g, e.f, x) =>
                        IF NullAnswer(g, e.f, x) THEN ChkV(<<"null result", e.f>>, s, -1)
                        ELSE Chk(<<"row result is a known function", e.f, j>>, Has(g, s)) /\ Chk(<<"value", e.f, e.a, j>>, Post(g, e.f, x, g.fn[s]))
    [] e.e = "qrow" -> \A j \in 1..Len(e.v) :
                         LET f == g.fn[j] v == e.v[j] IN
                         (CASE e.f = "size" -> ChkV("size", v, SumSeq(Prof(g, {f}, e.p[1])))
                           [] e.f = "type" -> ChkV("type", v, TypeOf(g, f))
                           [] e.f = "cube" -> ChkV("cube test", v, IF IsZeroF(f) THEN -1 ELSE Bool(IsCubeF(g, f)))
                           [] e.f = "frac" -> ChkV("fraction", v, CountF(f))
                           [] e.f = "dep"  -> IF IsConstF(g.fn[e.p[1]]) THEN TRUE ELSE ChkV("dependence", v, Bool(DependsF(f, g.vc[TopId(g, g.fn[e.p[1]])]))))
    [] e.e = "gc" -> (g.ex /\ g.pst = "ready") =>
                       LET lc == LiveCount(g, Held(g)) hc == IF g.nr \subseteq g.sat THEN lc ELSE LiveCount(g, Held(g) \cup g.nr) IN
                       /\ Chk("collection keeps everything held", e.nn >= lc)
                       /\ (e.sn = 0 \/ g.pk < 100) => IF lc = hc THEN ChkV("node count after a collection", e.nn, lc) ELSE Chk("node count after a collection", e.nn <= hc)
    [] e.e = "bounded" -> Chk(<<"garbage is collected by and by", e.nn, e.p[1]>>, e.nn <= e.p[1])
    [] e.e = "limit" -> ChkV("previous limit", e.v, <<g.lim>>)
    [] e.e = "ovf"  -> ChkV("overflow flag", e.v, <<g.ovf>>)
    [] e.e = "hget" -> ChkV("hooks", e.v, <<g.hk>>)
    [] e.e = "ainit" -> LET id == e.v[1] IN
                        IF ~DeclGood(g, e) THEN ChkV("association not over variables", id, -1)
                        ELSE LET mp == DeclMap(g, e) Q == EqualAssoc(g, mp) IN
                          /\ Chk("identifier of an association", id >= 0)
                          /\ IF g.ex /\ Q # {} THEN Chk("equal associations share the identifier", \E i \in Q : g.asl[i].id = id)
                             ELSE Chk("different associations have different identifiers", \A i \in 1..Len(g.asl) : g.asl[i].id = id => i \in Q)
    [] e.e = "afill" -> /\ ChkV("all the associations have an identifier of their own", e.v[1], e.p[1])
                        /\ Chk("identifiers of other associations", \A i \in 2..Len(e.v) : e.v[i] \notin AssocIds(g))
    [] e.e = "aset" -> ChkV("previous association", e.v, <<g.cur>>)
    [] e.e = "spin" -> ChkV("repeated operation gives equal results", e.v, <<0>>)
    [] e.e = "pi" -> ChkV("pipeline initialised", e.v, <<Bool(g.pst = "ready" /\ e.f \in {"and", "or", "xor"})>>)
    [] e.e = "pc" -> LET dep == 1 + Max(DepthOf(g, e.a[1]), DepthOf(g, e.a[2])) IN
                     IF g.pst # "create" THEN ChkV("no provisional result outside a pipeline", e.v[1], 0)
                     ELSE IF \E s \in Range(e.a) : ~Has(g, s) /\ s \notin DOMAIN g.prov THEN ChkV("no provisional result of null", e.v[1], 0)
                     ELSE IF dep >= MaxInsertDepth THEN ChkV("pipeline depth is bounded", e.v[1], 0)
                     ELSE ChkV("provisional result", e.v, <<1, 1>>)
    [] e.e = "px" -> IF g.pst # "create" THEN ChkV("execution without a pipeline", e.v, <<0>>)
                     ELSE IF e.v[1] = 0 THEN NullOk(g, e) ELSE ChkV("execution", e.v, <<1>>)
    [] e.e = "pu" -> IF g.pst # "update" THEN ChkV("update outside the update phase", OneRes(e).t, <<>>)
                     ELSE ChkV("value of a pipelined result", OneRes(e).t, g.prov[e.a[1]].f) /\ ResOk(g, OneRes(e), 0)
    [] e.e = "dump" -> LET x == TakeWhile(g, e.p) IN
                       IF AnyNull(g, Range(e.a)) THEN ChkV("dump of null", e.v[1], 0)
                       ELSE IF g.ex THEN ChkV("dump accepted", e.v[1], Bool(DumpGood(g, [e EXCEPT !.p = x]))) ELSE TRUE
    [] e.e = "undump" -> LET fl == st.fl[e.fid] y == TakeWhile(g, e.p) r == OneRes(e) ys == [i \in 1..Len(y) |-> g.fn[y[i]]] IN
                         IF \E i \in 1..Len(ys) : ~IsVar(g, ys[i]) THEN ChkV("undump over non-variables", r.t, <<>>)
                         ELSE /\ NilRes(r) => Chk("rejected file reports an error", e.v[1] # 0)
                              /\ ~NilRes(r) => ChkV("error code of a success", e.v[1], 0) /\ ResOk(g, r, 0)
                              /\ ~fl.bad => IF ~fl.ok \/ Len(fl.ids) # Len(y) THEN ChkV("file of another shape is rejected", r.t, <<>>)
                                            ELSE IF fl.ex /\ g.ex THEN ChkV("value read back", r.t, ReadBack(g, fl, ys))
                                            ELSE IF fl.vf = ys THEN ChkV("value read back", r.t, fl.f) ELSE TRUE
    [] e.e = "blk" -> ChkV("block created", e.v, <<Bool(~IsConstF(g.fn[e.a[1]]))>>)
    [] e.e = "pr" -> LET p == ParseF(g, e.v, 1, NoMap) IN
                     /\ Chk("printed text is well formed", p.ok /\ p.i = Len(e.v) + 1)
                     /\ ChkV("printed text denotes the diagram", p.f, g.fn[e.a[1]])
                     /\ g.ex => ChkV("every node is printed once", Cardinality({i \in 1..Len(e.v) : e.v[i][1] = 1}), InnerNodes(g, g.fn[e.a[1]]))
    [] e.e = "fpr" -> LET p == ParseP(g, e.v, 1) IN
                      /\ ChkV("printed sum is well formed", e.p, <<0>>)
                      /\ Chk("printed sum is well formed", p.ok /\ p.i = Len(e.v) + 1)
                      /\ ChkV("printed sum denotes the diagram", p.f, g.fn[e.a[1]])
    [] e.e = "q" -> QueryOk(g, e)
    [] e.e = "snap" -> StoreOk(g, IF e.o = <<>> THEN g.ord ELSE e.o, e)
    [] OTHER -> TRUE

Collects(e) == e.e \in {"gc", "reorder", "pq"}
OvOk(g, e) == IF e.e = "ovf" THEN ChkV("overflow flag is cleared by reading", e.ov, 0)
              ELSE IF g.ovf = 1 THEN ChkV("overflow flag stays", e.ov, 1)
              ELSE Chk("overflow only above a node limit", e.ov = 0 \/ g.lim > 0)
Ok(st, e) ==
  /\ ChkV("functions of held diagrams", e.chg, <<>>)
  /\ ChkV("index and identifier maps", e.mo, 1)
  /\ ChkV("well-formed diagrams", e.se, 0)
  /\ CASE e.e \in {"reset", "damage"} -> TRUE
       [] e.e = "crash" -> Chk(<<"call returns", e.why>>, FALSE)      \* recorded when the process died or hung inside a call
       [] e.e = "minit" -> ChkV("constant one", e.one, 1) /\ ChkV("variables of a new manager", e.nv, 0) /\ ChkV("flag of a new manager", e.ov, 0)
       [] e.e = "mquit" -> ChkV("memory released", e.lk, 0) /\ ChkV("manager given up", e.ret, 0)
       [] OTHER -> LET g == G(st, e) IN
            /\ OkM(st, IF e.e \in {"op", "q", "pr", "fpr", "dump", "diag"} /\ e.o # <<>> THEN [g EXCEPT !.ord = e.o] ELSE g, e)  \* a call may reorder before it answers
            /\ e.e \notin {"var", "vars", "idle"} => OrderOk(g, e.o)
            /\ OvOk(g, e)
            /\ (g.gcm = 0 /\ g.tech = NoTech /\ g.lim = 0 /\ ~Collects(e)) => Chk("nothing is collected while collection is off", e.nn >= g.nn)
            /\ ChkV("number of variables", e.nv, Len(g.ord) + CASE e.e = "var" -> 1 [] e.e \in {"vars", "idle"} -> e.n [] OTHER -> 0)

(* --- effect -------------------------------------------------------------- *)
AfterM(st, g, e) ==
  CASE e.e = "var" -> LET o == OrdAfterVar(g, e)
                          h == [g EXCEPT !.ord = o, !.vf = Append(@, e.vt), !.vc = Append(@, e.c), !.ex = @ /\ e.c >= 0,
                                         !.blks = [i \in 1..Len(@) |-> BlkAfterVar(g, @[i], o)]]
                      IN PutAll(h, e.rs)
    [] e.e = "vars" -> [g EXCEPT !.ord = @ \o [i \in 1..e.n |-> Len(@) + i], !.vf = @ \o e.vts,
                                 !.vc = @ \o [i \in 1..e.n |-> -1], !.ex = @ /\ e.n = 0]
    [] e.e = "idle" -> [g EXCEPT !.ord = e.o, !.vf = @ \o [i \in 1..e.n |-> <<>>], !.vc = @ \o [i \in 1..e.n |-> -1]]
    [] e.e \in {"op", "const", "vid", "vidx", "revive", "mw", "pw", "pu", "undump"} -> PutAll(g, e.rs)
    [] e.e = "unfree" -> LET s == e.a[1] t == g.fn[s] k == RefsOf(g, t) + e.p[1] IN
                         Count([g EXCEPT !.rf[s] = @ + e.p[1]], t, k)
    [] e.e = "dec" -> [g EXCEPT !.rf[e.a[1]] = @ - 1]
    [] e.e = "free" -> LET D == DOMAIN g.fn \ Range(e.a) IN
                       [g EXCEPT !.fn = Restrict(@, D), !.rf = Restrict(@, D), !.rv = Restrict(g.fn, Range(e.a)) @@ @]
    [] e.e = "limit" -> [g EXCEPT !.lim = IF e.p[1] < 0 THEN 0 ELSE e.p[1]]
    [] e.e = "gcmode" -> [g EXCEPT !.gcm = e.p[1]]
    [] e.e = "hset" -> [g EXCEPT !.hk = e.p[1]]
    [] e.e = "dyn"  -> [g EXCEPT !.tech = e.p[1], !.meth = e.p[2]]
    [] e.e = "ainit" -> IF DeclGood(g, e) THEN AddAssoc(g, e.v[1], DeclMap(g, e)) ELSE g
    [] e.e = "aset" -> [g EXCEPT !.cur = IF e.p[1] \in AssocIds(g) THEN e.p[1] ELSE -1]
    [] e.e = "aquit" -> QuitAssoc(g, e.p[1])
    [] e.e = "tinit" -> [g EXCEPT !.tmp = IF DeclGood(g, e) THEN DeclMap(g, e) ELSE NoMap]
    [] e.e = "taug" -> IF DeclGood(g, e) THEN [g EXCEPT !.tmp = DeclMap(g, e) @@ @] ELSE g
    [] e.e = "tquit" -> [g EXCEPT !.tmp = NoMap]
    [] e.e = "pi" -> IF e.v[1] = 1 THEN [g EXCEPT !.pst = "create", !.pop = e.f] ELSE g
    [] e.e = "pc" -> IF e.v[1] = 0 THEN g
                     ELSE [g EXCEPT !.prov = (e.d :> [f |-> BoolBin(g.pop, FnOf(g, e.a[1]), FnOf(g, e.a[2])),
                                                      dep |-> 1 + Max(DepthOf(g, e.a[1]), DepthOf(g, e.a[2]))]) @@ @,
                                     !.pend = @ \cup (Range(e.a) \cap DOMAIN g.fn)]
    [] e.e = "px" -> IF e.v[1] = 1 THEN [g EXCEPT !.pst = "update", !.pend = {}]
                     ELSE IF g.pst = "create" THEN [g EXCEPT !.pst = "ready", !.prov = NoMap, !.pend = {}]   \* abandoned
                     ELSE g
    [] e.e = "pq" -> [g EXCEPT !.pst = "ready", !.prov = NoMap, !.pend = {}]
    [] e.e = "blk" -> IF IsConstF(g.fn[e.a[1]]) THEN g
                      ELSE [g EXCEPT !.blks = Append(@, [b |-> e.b, vs |-> BlkRange(g, e), re |-> 0])]
    [] e.e = "blkre" -> [g EXCEPT !.blks[SelectIdx(g.blks, LAMBDA b : b.b = e.b)].re = e.p[1]]
    [] OTHER -> g
Settle(g, e) == (* observations every event carries *)
  [g EXCEPT !.ord = IF e.o = <<>> THEN @ ELSE e.o, !.ovf = e.ov, !.pk = Max(@, e.nn), !.nn = e.nn,
            !.bv = @ \/ (e.o # <<>> /\ g.meth # MethodDF /\ g.blks # <<>> /\ e.e \notin {"var", "vars", "idle"}),
            !.rv = IF Quiet(e) THEN @ ELSE NoMap]
After(st, e) ==
  CASE e.e = "reset" -> Init0
    [] e.e = "minit" -> Put(st, e, [NewMgr(e.N) EXCEPT !.pk = e.nn, !.nn = e.nn])
    [] e.e = "mquit" -> [st EXCEPT !.mg = Restrict(@, DOMAIN @ \ {e.m})]
    [] e.e = "damage" -> [st EXCEPT !.fl = (e.fid :> [bad |-> TRUE]) @@ @]
    [] e.e = "dump" -> LET g == G(st, e) h == Settle(g, e) x == TakeWhile(g, e.p) IN
                       [Put(st, e, h) EXCEPT !.fl = (e.fid :> IF AnyNull(g, Range(e.a)) \/ e.v[1] # 1 THEN [bad |-> TRUE] ELSE FileOf(h, [e EXCEPT !.p = x])) @@ @]
    [] OTHER -> Put(st, e, Settle(AfterM(st, G(st, e), e), e))
=============================================================================
