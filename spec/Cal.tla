-------------------------------- MODULE Cal --------------------------------
(* The CAL package as its users see it: managers holding handles on Boolean  *)
(* functions, a variable order, associations, blocks, a pipeline, a node     *)
(* limit and files.                                                          *)
(*                                                                           *)
(*   Legal(st, e)  the call of event e respects the documented preconditions *)
(*   Ok(st, e)     what was observed at the call's return is allowed         *)
(*   After(st, e)  the abstract state after the call                         *)
(*                                                                           *)
(* An event is a record: the call and its arguments, plus everything         *)
(* observed at its return (driver/driver.cc).  The same operators drive the  *)
(* generation of behaviours (GenCal), the exhaustive check of the model      *)
(* itself (MCCal) and the validation of recorded behaviours (TraceCal).      *)
EXTENDS BoolFun, Integers, TLC

Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", name>>) /\ FALSE
ChkV(name, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", name, "got", got, "want", want>>) /\ FALSE

Range(q) == {q[i] : i \in 1..Len(q)}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
IndexIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
InsertAt(q, i, x) == SubSeq(q, 1, i-1) \o <<x>> \o SubSeq(q, i, Len(q))
Restrict(f, D) == [x \in D |-> f[x]]
SelectIdx(q, P(_)) == LET S == {i \in 1..Len(q) : P(q[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
NoMap == [x \in {} |-> 0]
NoTech == 0
MethodDF == 1
MaxRef == 255
NearRef == 245
ConstIndex == 65535

-----------------------------------------------------------------------------
(* State.                                                                    *)
NewMgr(N) ==
  [ N    |-> N, W |-> Words(N),
    ex   |-> TRUE,        \* every variable is a coordinate of the sample space
    ord  |-> <<>>,        \* identifiers, top first
    vf   |-> <<>>,        \* function of the variable, by identifier; <<>>: idle (no function depends on it)
    vc   |-> <<>>,        \* its coordinate, or -1
    fn   |-> NoMap,       \* live slots: function denoted
    rf   |-> NoMap,       \* live slots: references the user holds through it
    sat  |-> {},          \* functions (mod complement) whose handle count saturated
    nr   |-> {},          \* functions whose handle count came so close that a passing reference may have saturated it
    rv   |-> NoMap,       \* slots freed since the last possible collection
    asl  |-> <<>>,        \* associations [id, mp, n]
    tmp  |-> NoMap,       \* temporary association
    cur  |-> -1,          \* current association
    lim  |-> 0, ovf |-> 0,
    tech |-> NoTech, meth |-> 0, hk |-> 0,
    pst  |-> "ready", pop |-> "and", prov |-> NoMap,
    pend |-> {},          \* slots a pending pipeline still needs
    blks |-> <<>>,        \* blocks [b, vs, re] in order of declaration
    bv   |-> FALSE,       \* breadth-first reordering moved variables across blocks
    xn   |-> {},          \* wrapper objects that hold the null diagram
    gcm  |-> 1,           \* automatic collection on
    nn   |-> 0,           \* last node count observed
    pk   |-> 0 ]          \* largest node count observed
Init0 == [mg |-> NoMap, fl |-> NoMap, mem |-> NoMap]

Has(g, s)  == s \in DOMAIN g.fn
Zero(g) == ZeroF(g.W)
One(g) == OneF(g.W)
IdOfVar(g, t) == SelectIdx(g.vf, LAMBDA v : v = t)
IsVar(g, t) == IdOfVar(g, t) # 0
Cs(g) == [i \in 1..Len(g.ord) |-> g.vc[g.ord[i]]]
IndexOf(g, id) == IndexIn(g.ord, id) - 1
AssocIds(g) == {g.asl[i].id : i \in 1..Len(g.asl)}
AssocOf(g, id) == IF id = -1 THEN g.tmp ELSE (g.asl[SelectIdx(g.asl, LAMBDA a : a.id = id)]).mp
CurMap(g) == AssocOf(g, g.cur)
SupportIds(g, t) == {id \in Range(g.ord) : DependsF(t, g.vc[id])}      \* exact managers only
SlotsOf(g, t) == {s \in DOMAIN g.fn : g.fn[s] = t}
RECURSIVE SumRf(_,_)
SumRf(g, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN g.rf[s] + SumRf(g, S \ {s})
RefsOf(g, t) == SumRf(g, SlotsOf(g, t) \cup SlotsOf(g, NotF(t)))
IsCubeF(g, t) == (* conjunction of literals *)
  ~IsZeroF(t) /\ t = FoldAnd([i \in 1..Len(g.ord) |->
       LET v == g.vf[g.ord[i]] IN IF v = <<>> THEN One(g) ELSE IF ImpliesF(t, v) THEN v ELSE IF ImpliesF(t, NotF(v)) THEN NotF(v) ELSE One(g)], g.W)
SizeOf(g, S) == SumSeq([i \in 1..Len(g.ord) |-> Cardinality(Levels(S, Cs(g))[i])]) + 1
CardSeq(q) == [i \in 1..Len(q) |-> Cardinality(q[i])]
ProfC(g, S)  == IF S = {} THEN [i \in 1..Len(g.ord)+1 |-> 0] ELSE Append(CardSeq(Levels(S, Cs(g))), 1)
ProfNC(g, S) == CardSeq(LevelSetsNC(S, Cs(g), 1))
Prof(g, S, neg) == IF neg # 0 THEN ProfC(g, S) ELSE ProfNC(g, S)
FProf(g, S) == LET L == CofLevels(S, Cs(g), 1)
               IN [i \in 1..Len(g.ord)+1 |-> IF i > Len(g.ord) \/ \E f \in S : DependsF(f, Cs(g)[i]) THEN Cardinality(L[i]) ELSE 0]
(* everything a collection has to keep *)
Held(g) == {g.fn[s] : s \in DOMAIN g.fn} \cup g.sat \cup {g.tmp[x] : x \in DOMAIN g.tmp}
           \cup UNION {{g.asl[i].mp[x] : x \in DOMAIN g.asl[i].mp} : i \in 1..Len(g.asl)}
LiveCount(g, H) == LET cs == Cs(g) L == Levels(H, cs)
                IN 1 + Len(g.ord) + SumSeq([i \in 1..Len(cs) |-> Cardinality(L[i] \ {CoordF(cs[i], g.W)})])

-----------------------------------------------------------------------------
(* Meaning of the operations.                                                *)
BoolBin(f, a, b) == CASE f = "and"  -> AndF(a, b)
                      [] f = "or"   -> OrF(a, b)
                      [] f = "xor"  -> XorF(a, b)
                      [] f = "nand" -> NotF(AndF(a, b))
                      [] f = "nor"  -> NotF(OrF(a, b))
                      [] f = "xnor" -> NotF(XorF(a, b))
BoolNames == {"and", "or", "xor", "nand", "nor", "xnor"}
FoldOp(f, q, W) == CASE f = "and" -> FoldAnd(q, W) [] f = "or" -> FoldOr(q, W) [] f = "xor" -> FoldXor(q, W)
MapCoords(g, mp) == [k \in {g.vc[id] : id \in DOMAIN mp} |-> mp[CHOOSE id \in DOMAIN mp : g.vc[id] = k]]
QCoords(g, mp) == {g.vc[id] : id \in DOMAIN mp}
(* points at which the two functions agree *)
SameAt(a, b) == NotF(XorF(a, b))
AgreeOn(c, a, b) == IsZeroF(AndF(c, XorF(a, b)))
Un(f) == f \in {"id", "not", "ex", "all", "sub", "vsub", "sat", "sats", "then", "else", "if", "reg"}
Tern(f) == f \in {"ite", "comp", "swap"}
TopId(g, t) == LET cs == Cs(g) S == {i \in 1..Len(g.ord) : DependsF(t, cs[i])} IN g.ord[CHOOSE i \in S : \A j \in S : i <= j]

(* Post(g, f, x, t): t is a correct result of operation f on operands x.    *)
(* On a manager that is not exact only what the sample determines is asked. *)
Post(g, f, x, t) ==
  CASE f = "id"  -> t = x[1]
    [] f = "not" -> t = NotF(x[1])
    [] f = "reg" -> t = RegF(x[1])
    [] f \in BoolNames -> t = BoolBin(f, x[1], x[2])
    [] f = "ite" -> t = IteF(x[1], x[2], x[3])
    [] f = "ex"  -> IF g.ex THEN t = ExistsF(x[1], QCoords(g, CurMap(g))) ELSE ImpliesF(x[1], t)
    [] f = "all" -> IF g.ex THEN t = ForAllF(x[1], QCoords(g, CurMap(g))) ELSE ImpliesF(t, x[1])
    [] f = "rp"  -> IF g.ex THEN t = ExistsF(AndF(x[1], x[2]), QCoords(g, CurMap(g))) ELSE ImpliesF(AndF(x[1], x[2]), t)
    [] f \in {"sub", "vsub"} ->
         LET mp == CurMap(g) IN
         IF g.ex THEN t = SubstF(x[1], MapCoords(g, mp))
         ELSE AgreeOn(FoldAnd([i \in 1..Len(g.vf) |-> IF i \in DOMAIN mp THEN SameAt(g.vf[i], mp[i]) ELSE One(g)], g.W), t, x[1])
    [] f = "comp" -> IF IsConstF(x[2]) THEN t = x[1]
                     ELSE IF g.ex THEN t = SubstF(x[1], [k \in {g.vc[IdOfVar(g, x[2])]} |-> x[3]])
                     ELSE AgreeOn(SameAt(x[2], x[3]), t, x[1])
    [] f = "swap" -> IF g.ex THEN LET a == g.vc[IdOfVar(g, x[2])] b == g.vc[IdOfVar(g, x[3])]
                                  IN t = SubstF(x[1], [k \in {a, b} |-> IF k = a THEN x[3] ELSE x[2]])
                     ELSE AgreeOn(SameAt(x[2], x[3]), t, x[1])
    [] f = "if"   -> IF g.ex THEN t = g.vf[TopId(g, x[1])] ELSE IsVar(g, t)
    [] f = "then" -> IF g.ex THEN t = Cof1(x[1], g.vc[TopId(g, x[1])]) ELSE TRUE
    [] f = "else" -> IF g.ex THEN t = Cof0(x[1], g.vc[TopId(g, x[1])]) ELSE TRUE
    [] f = "sat"  -> IF IsZeroF(x[1]) THEN t = x[1] ELSE ImpliesF(t, x[1]) /\ (g.ex => IsCubeF(g, t))
    [] f = "sats" -> IF IsZeroF(x[1]) THEN (g.ex => t = x[1])
                     ELSE ImpliesF(t, x[1]) /\ (g.ex => IsCubeF(g, t) /\ \A id \in DOMAIN CurMap(g) : DependsF(t, g.vc[id]))
    [] f = "inter" -> LET w == AndF(x[1], x[2]) IN ImpliesF(t, w) /\ (IsZeroF(w) = IsZeroF(t) \/ ~g.ex)
    [] f = "impl"  -> LET w == AndF(x[1], NotF(x[2])) IN ImpliesF(t, w) /\ (IsZeroF(w) = IsZeroF(t) \/ ~g.ex)
    [] f = "cof"  -> /\ AgreeOn(x[2], t, x[1])
                     /\ (g.ex /\ IsCubeF(g, x[2])) =>
                          t = SubstF(x[1], [k \in QCoords(g, [id \in SupportIds(g, x[2]) |-> 0]) |-> IF AndF(x[2], CoordF(k, g.W)) = x[2] THEN One(g) ELSE Zero(g)])
    [] f = "red"  -> AgreeOn(x[2], t, x[1]) /\ (g.ex => SizeOf(g, {t}) <= SizeOf(g, {x[1]}))
    [] f = "btw"  -> ImpliesF(x[1], x[2]) => ImpliesF(x[1], t) /\ ImpliesF(t, x[2])
(* Operations whose result is a function of the operands: what it is        *)
Exactly(g, f, x) ==
  CASE f = "id"  -> x[1]
    [] f = "not" -> NotF(x[1])
    [] f = "reg" -> RegF(x[1])
    [] f \in BoolNames -> BoolBin(f, x[1], x[2])
    [] f = "ite" -> IteF(x[1], x[2], x[3])
    [] f = "ex"  -> ExistsF(x[1], QCoords(g, CurMap(g)))
    [] f = "all" -> ForAllF(x[1], QCoords(g, CurMap(g)))
    [] f = "rp"  -> ExistsF(AndF(x[1], x[2]), QCoords(g, CurMap(g)))
    [] f \in {"sub", "vsub"} -> SubstF(x[1], MapCoords(g, CurMap(g)))
    [] f = "comp" -> IF IsConstF(x[2]) THEN x[1] ELSE SubstF(x[1], [k \in {g.vc[IdOfVar(g, x[2])]} |-> x[3]])
    [] f = "swap" -> LET a == g.vc[IdOfVar(g, x[2])] b == g.vc[IdOfVar(g, x[3])]
                     IN SubstF(x[1], [k \in {a, b} |-> IF k = a THEN x[3] ELSE x[2]])
    [] f = "if"   -> g.vf[TopId(g, x[1])]
    [] f = "then" -> Cof1(x[1], g.vc[TopId(g, x[1])])
    [] f = "else" -> Cof0(x[1], g.vc[TopId(g, x[1])])

(* operand preconditions (the documented ones) *)
PosVarMap(g, mp) == \A id \in DOMAIN mp : IsVar(g, mp[id])
OpLegal(g, f, x) ==
  CASE f \in {"then", "else", "if"} -> ~IsConstF(x[1])
    [] f = "vsub" -> PosVarMap(g, CurMap(g))
    [] f = "comp" -> IsVar(g, x[2]) \/ IsConstF(x[2])
    [] f = "swap" -> (IsVar(g, x[2]) \/ IsConstF(x[2])) /\ (IsVar(g, x[3]) \/ IsConstF(x[3]))
    [] OTHER -> TRUE
(* operations that answer null although no operand is null *)
NullAnswer(g, f, x) == f = "swap" /\ (IsConstF(x[2]) \/ IsConstF(x[3]))

-----------------------------------------------------------------------------
(* Variable order.                                                           *)
TopVar(g, t) == IF g.ex THEN TopId(g, t) ELSE IdOfVar(g, t)
OrdAfterVar(g, e) ==
  LET id == Len(g.ord) + 1
      at == CASE e.pos = "first" -> 1
              [] e.pos = "last"  -> id
              [] e.pos = "before" -> IF IsConstF(g.fn[e.s]) THEN id ELSE IndexIn(g.ord, TopVar(g, g.fn[e.s]))
              [] e.pos = "after"  -> IF IsConstF(g.fn[e.s]) THEN id ELSE IndexIn(g.ord, TopVar(g, g.fn[e.s])) + 1
  IN InsertAt(g.ord, at, id)
RECURSIVE OrdAfterIdle(_,_,_)
OrdAfterIdle(g, e, n) == IF n = 0 THEN g.ord ELSE OrdAfterIdle([g EXCEPT !.ord = OrdAfterVar(g, e), !.vc = Append(@, -1)], e, n-1)
(* a block covers a contiguous range; a variable inserted strictly inside joins it *)
BlkAfterVar(g, b, o) ==
  LET id == Len(g.ord) + 1
      at == IndexIn(o, id)
      ps == {IndexIn(o, v) : v \in b.vs}
  IN IF (\E p \in ps : p < at) /\ (\E p \in ps : p > at) THEN [b EXCEPT !.vs = @ \cup {id}] ELSE b
(* children of block i: maximal blocks inside it, and its remaining variables *)
Inside(g, j, i) == LET a == g.blks[j].vs b == g.blks[i].vs IN j # i /\ a \subseteq b /\ (a # b \/ j > i)
KidBlocks(g, i) == {j \in 1..Len(g.blks) : Inside(g, j, i) /\ ~\E k \in 1..Len(g.blks) : Inside(g, j, k) /\ Inside(g, k, i)}
Units(g, i) == {g.blks[j].vs : j \in KidBlocks(g, i)} \cup {{v} : v \in g.blks[i].vs \ UNION {g.blks[j].vs : j \in KidBlocks(g, i)}}
FirstPos(o, S) == LET ps == {IndexIn(o, v) : v \in S} IN CHOOSE p \in ps : \A r \in ps : p <= r
Contiguous(o, S) == LET ps == {IndexIn(o, v) : v \in S} f == FirstPos(o, S) IN ps = f..(f + Cardinality(S) - 1)
BlocksKept(g, o) ==
  \A i \in 1..Len(g.blks) :
     /\ Chk("block stays contiguous", Contiguous(o, g.blks[i].vs))
     /\ g.blks[i].re = 0 =>
          \A a, b \in Units(g, i) : Chk("fixed block keeps the order of its members",
               (FirstPos(g.ord, a) < FirstPos(g.ord, b)) = (FirstPos(o, a) < FirstPos(o, b)))
OrderOk(g, o) ==
  \/ o = <<>>
  \/ /\ Chk("order is a permutation", Len(o) = Len(g.ord) /\ Range(o) = Range(g.ord))
     /\ Chk("order changes only when reordering is enabled", g.tech # NoTech)
     /\ (g.meth = MethodDF /\ ~g.bv) => BlocksKept(g, o)

-----------------------------------------------------------------------------
(* Results.                                                                  *)
CanonOk(g, r, t) ==
  LET q == Range(r.q)  n == Range(r.n) IN
  IF g.ex THEN /\ ChkV("equal functions have equal handles", q, SlotsOf(g, t))
               /\ ChkV("complements share one node", n, SlotsOf(g, NotF(t)))
  ELSE /\ Chk("equal handles denote equal functions", q \subseteq SlotsOf(g, t))
       /\ Chk("complementary handles denote complements", n \subseteq SlotsOf(g, NotF(t)))
(* ex: further references to the same node created by the same call *)
RcOk(g, r, t, extra) ==
  LET k == 1 + extra + SumRf(g, Range(r.q) \cup Range(r.n)) IN
  IF IsConstF(t) /\ g.ex THEN ChkV("reference count", r.rc, MaxRef)
  ELSE IF IsConstF(t) /\ r.rc = MaxRef THEN TRUE      \* constant wherever sampled: perhaps a constant
  ELSE IF RegF(t) \in g.sat THEN g.ex => ChkV("saturated reference count", r.rc, MaxRef)
  ELSE IF RegF(t) \in g.nr /\ r.rc = MaxRef THEN TRUE
  ELSE ChkV("reference count", r.rc, Min(MaxRef, k))
ResOk(g, r, extra) ==
  /\ CanonOk(g, r, r.t)
  /\ RcOk(g, r, r.t, extra)
  /\ ChkV("polarity", r.rg, IF TopBit(r.t) THEN 1 ELSE 0)
(* null although no operand was: only above the node limit *)
NullOk(g, e) == Chk("null result without a node limit or an overflow", g.lim > 0 /\ e.ov = 1)
Count(g, t, k) == (* the handle of t now has k references *)
  IF IsConstF(t) \/ k < NearRef THEN g
  ELSE [g EXCEPT !.nr = @ \cup {RegF(t)}, !.sat = IF k >= MaxRef THEN @ \cup {RegF(t)} ELSE @]
AddRes(g, d, t) ==
  LET k == RefsOf(g, t) + 1 IN
  Count([g EXCEPT !.fn = (d :> t) @@ @, !.rf = (d :> 1) @@ @], t, k)
PutRes(g, r) == IF r.t = <<>> THEN g ELSE AddRes(g, r.d, r.t)
RECURSIVE PutAll(_,_)
PutAll(g, q) == IF q = <<>> THEN g ELSE PutAll(PutRes(g, Head(q)), Tail(q))
NilRes(r) == r.t = <<>>
OneRes(e) == e.rs[1]

TakeWhile(g, x) == (* arrays end at the first null *)
  LET S == {i \in 1..Len(x) : ~Has(g, x[i])} IN IF S = {} THEN x ELSE SubSeq(x, 1, (CHOOSE i \in S : \A j \in S : i <= j) - 1)

-----------------------------------------------------------------------------
(* Queries: value expected.                                                  *)
TypeOf(g, t) == IF IsZeroF(t) THEN 1 ELSE IF IsOneF(t) THEN 2 ELSE IF IsVar(g, t) THEN 3 ELSE IF IsVar(g, NotF(t)) THEN 4 ELSE 0
Bool(b) == IF b THEN 1 ELSE 0
WithTotal(p) == Append(p, SumSeq(p))
(* The bars of a printed profile: the counts on one common scale, which is 1 *)
(* when they fit, and never wider than the line (twenty at least).           *)
BarsOk(v, p) == LET n == Len(v) - 1 b == SubSeq(p, 4, Len(p)) wd == Max(20, p[3]) hi == MaxOf({v[i] : i \in 1..n} \cup {1}) IN
                /\ Chk("printed bars", Len(b) = n /\ \E s \in 1..hi : (hi <= 20 => s = 1) /\ \A i \in 1..n : b[i] = v[i] \div s)
                /\ Chk("printed bars fit the line", \A i \in 1..Len(b) : b[i] <= wd)
QueryOk(g, e) ==
  LET x == e.a  v == e.v  f == e.f
      nul(i) == ~Has(g, x[i])
      F(i) == g.fn[x[i]]
      All == {g.fn[s] : s \in Range(x)}
      Upto == {g.fn[s] : s \in Range(TakeWhile(g, x))}      \* arrays end at the first null
      anynul == \E s \in Range(x) : ~Has(g, s)
  IN
  CASE f = "size"  -> IF nul(1) THEN ChkV("size", v, <<0>>) ELSE g.ex => ChkV("size", v, <<SumSeq(Prof(g, {F(1)}, e.p[1]))>>)
    [] f = "sizem" -> g.ex => ChkV("size", v, <<SumSeq(Prof(g, Upto, e.p[1]))>>)
    [] f = "prof"  -> (g.ex /\ ~anynul) => ChkV("profile", v, Prof(g, {F(1)}, e.p[1]))
    [] f = "profm" -> g.ex => ChkV("profile", v, Prof(g, Upto, e.p[1]))
    [] f = "fprof" -> (g.ex /\ ~anynul) => ChkV("function profile", v, FProf(g, {F(1)}))
    [] f = "fprofm" -> g.ex => ChkV("function profile", v, FProf(g, Upto))
    [] f = "supp"  -> IF nul(1) THEN TRUE
                      ELSE IF g.ex THEN Chk("support", Range(v) = SupportIds(g, F(1)) /\ Len(v) = Cardinality(Range(v)))
                      ELSE Chk("support lists variables", Range(v) \subseteq Range(g.ord) /\ Len(v) = Cardinality(Range(v)))
    [] f = "dep"   -> IF anynul THEN ChkV("dependence of null", v, <<0>>)
                      ELSE IF IsConstF(F(2)) THEN TRUE
                      ELSE g.ex => ChkV("dependence", v, <<Bool(DependsF(F(1), g.vc[TopId(g, F(2))]))>>)
    [] f = "type"  -> IF nul(1) THEN ChkV("type", v, <<5>>) ELSE IF g.ex THEN ChkV("type", v, <<TypeOf(g, F(1))>>)
                      ELSE Chk("type of a constant", (v[1] \in {1, 2}) => v[1] = TypeOf(g, F(1)))
    [] f = "ifid"  -> IF nul(1) THEN TRUE ELSE IF IsConstF(F(1)) /\ g.ex THEN ChkV("top identifier", v, <<0>>) ELSE g.ex => ChkV("top identifier", v, <<TopId(g, F(1))>>)
    [] f = "ifidx" -> IF nul(1) THEN TRUE ELSE IF IsConstF(F(1)) /\ g.ex THEN ChkV("top index", v, <<ConstIndex>>) ELSE g.ex => ChkV("top index", v, <<IndexOf(g, TopId(g, F(1)))>>)
    [] f = "eq"    -> IF anynul THEN TRUE ELSE IF g.ex THEN ChkV("equality", v, <<Bool(F(1) = F(2))>>) ELSE Chk("equality", v[1] = 1 => F(1) = F(2))
    [] f = "isone"  -> IF g.ex \/ nul(1) THEN ChkV("test for one", v, <<Bool(~nul(1) /\ IsOneF(F(1)))>>) ELSE Chk("test for one", v[1] = 1 => IsOneF(F(1)))
    [] f = "iszero" -> IF g.ex \/ nul(1) THEN ChkV("test for zero", v, <<Bool(~nul(1) /\ IsZeroF(F(1)))>>) ELSE Chk("test for zero", v[1] = 1 => IsZeroF(F(1)))
    [] f = "isconst" -> IF g.ex \/ nul(1) THEN ChkV("test for constants", v, <<Bool(~nul(1) /\ IsConstF(F(1)))>>) ELSE Chk("test for constants", v[1] = 1 => IsConstF(F(1)))
    [] f = "isnull" -> ChkV("test for null", v, <<Bool(nul(1))>>)
    [] f = "cube"   -> IF nul(1) THEN TRUE ELSE g.ex => ChkV("cube test", v, <<Bool(IsCubeF(g, F(1)))>>)
    [] f = "isprov" -> ChkV("provisional", v, <<Bool(x[1] \in DOMAIN g.prov)>>)
    [] f = "frac"   -> IF nul(1) THEN ChkV("fraction", v, <<0, 1>>) ELSE g.ex => ChkV("fraction", v, <<CountF(F(1)), 1>>)
    [] f = "fraclog" -> TRUE
    [] f = "walk"   -> IF nul(1) THEN TRUE ELSE ChkV("walk over the diagram", v, F(1)) /\ ChkV("walk over the diagram", e.p, <<0>>)
    [] f = "nodes"  -> ChkV("node count", v, <<e.nn, e.nn>>)
    [] f = "vars"   -> ChkV("variable count", v, <<Len(g.ord)>>)
    [] f = "rc"     -> IF nul(1) THEN TRUE ELSE IF IsConstF(F(1)) THEN g.ex => ChkV("reference count", v, <<MaxRef>>)
                       ELSE IF RegF(F(1)) \in g.sat THEN g.ex => ChkV("saturated reference count", v, <<MaxRef>>)
                       ELSE IF RegF(F(1)) \in g.nr /\ v = <<MaxRef>> THEN TRUE
                       ELSE g.ex => ChkV("reference count", v, <<RefsOf(g, F(1))>>)
    [] f = "stats"  -> ChkV("node limit shown", v, <<g.lim>>)
    [] f = "pprof"  -> (g.ex /\ ~anynul) => ChkV("printed profile", v, WithTotal(Prof(g, {F(1)}, 1))) /\ ChkV("printed profile", e.p[2], 0) /\ BarsOk(v, e.p)
    [] f = "pprofm" -> (g.ex /\ ~anynul) => ChkV("printed profile", v, WithTotal(Prof(g, All, 1))) /\ ChkV("printed profile", e.p[2], 0) /\ BarsOk(v, e.p)
    [] f = "pfprof" -> (g.ex /\ ~anynul) => ChkV("printed function profile", v, WithTotal(FProf(g, {F(1)}))) /\ ChkV("printed function profile", e.p[2], 0) /\ BarsOk(v, e.p)
    [] f = "pfprofm" -> (g.ex /\ ~anynul) => ChkV("printed function profile", v, WithTotal(FProf(g, All))) /\ ChkV("printed function profile", e.p[2], 0) /\ BarsOk(v, e.p)

-----------------------------------------------------------------------------
(* Printed text, read back.                                                  *)
(* Cal_BddPrintBdd: tokens [kind, number, identifier]: 1 "if v" (number =    *)
(* label or -1), 2 "else if !v", 3 "endif v", 4 "subformula n",              *)
(* 5 "!subformula n", 6 literal, 7 negated literal, 8 constant.              *)
Fail == [ok |-> FALSE, f |-> <<>>, i |-> 0, lab |-> NoMap, seen |-> {}]
RECURSIVE ParseF(_,_,_,_)
ParseF(g, q, i, lab) ==
  IF i > Len(q) THEN Fail
  ELSE LET k == q[i][1] num == q[i][2] id == q[i][3] IN
  CASE k = 8 -> [ok |-> TRUE, f |-> IF num = 1 THEN One(g) ELSE Zero(g), i |-> i+1, lab |-> lab]
    [] k = 6 -> IF id \in 1..Len(g.vf) THEN [ok |-> TRUE, f |-> g.vf[id], i |-> i+1, lab |-> lab] ELSE Fail
    [] k = 7 -> IF id \in 1..Len(g.vf) THEN [ok |-> TRUE, f |-> NotF(g.vf[id]), i |-> i+1, lab |-> lab] ELSE Fail
    [] k = 4 -> IF num \in DOMAIN lab THEN [ok |-> TRUE, f |-> lab[num], i |-> i+1, lab |-> lab] ELSE Fail
    [] k = 5 -> IF num \in DOMAIN lab THEN [ok |-> TRUE, f |-> NotF(lab[num]), i |-> i+1, lab |-> lab] ELSE Fail
    [] k = 1 -> IF id \notin 1..Len(g.vf) THEN Fail ELSE
                LET a == ParseF(g, q, i+1, lab) IN
                IF ~a.ok \/ a.i > Len(q) \/ q[a.i][1] # 2 \/ q[a.i][3] # id THEN Fail
                ELSE LET b == ParseF(g, q, a.i+1, a.lab) IN
                     IF ~b.ok \/ b.i > Len(q) \/ q[b.i][1] # 3 \/ q[b.i][3] # id THEN Fail
                     ELSE LET r == IteF(g.vf[id], a.f, b.f) IN
                          IF num >= 0 /\ num \in DOMAIN b.lab THEN Fail
                          ELSE [ok |-> TRUE, f |-> r, i |-> b.i+1, lab |-> IF num >= 0 THEN (num :> r) @@ b.lab ELSE b.lab]
    [] OTHER -> Fail
(* Cal_BddFunctionPrint: ( v T + v' E ) with letters *)
RECURSIVE ParseP(_,_,_)
ParseP(g, q, i) ==
  IF i + 2 > Len(q) \/ q[i][1] # 1 THEN Fail
  ELSE IF q[i+1][1] = 6 THEN (IF q[i+2][1] = 2 THEN [ok |-> TRUE, f |-> IF q[i+1][2] = 1 THEN One(g) ELSE Zero(g), i |-> i+3] ELSE Fail)
  ELSE IF q[i+1][1] # 3 \/ q[i+1][2] \notin 1..Len(g.vf) THEN Fail
  ELSE LET v == q[i+1][2] a == ParseP(g, q, i+2) IN
       IF ~a.ok \/ a.i + 1 > Len(q) \/ q[a.i][1] # 4 \/ q[a.i+1] # <<5, v>> THEN Fail
       ELSE LET b == ParseP(g, q, a.i + 2) IN
            IF ~b.ok \/ b.i > Len(q) \/ q[b.i][1] # 2 THEN Fail
            ELSE [ok |-> TRUE, f |-> IteF(g.vf[v], a.f, b.f), i |-> b.i + 1]

-----------------------------------------------------------------------------
(* Associations.                                                             *)
PairMap(g, x) == [id \in {IdOfVar(g, g.fn[x[2*i-1]]) : i \in 1..(Len(x) \div 2)} |->
                    LET I == {i \in 1..(Len(x) \div 2) : IdOfVar(g, g.fn[x[2*i-1]]) = id}
                        l == CHOOSE i \in I : \A j \in I : j <= i                 \* the last one counts
                    IN g.fn[x[2*l]]]
ListMap(g, x) == [id \in {IdOfVar(g, g.fn[s]) : s \in Range(x)} |-> One(g)]
DeclMap(g, e) == IF e.p[1] # 0 THEN PairMap(g, e.a) ELSE ListMap(g, e.a)
DeclVars(e) == IF e.p[1] # 0 THEN {e.a[2*i-1] : i \in 1..(Len(e.a) \div 2)} ELSE Range(e.a)
DeclGood(g, e) == \A s \in DeclVars(e) : IsVar(g, g.fn[s])
EqualAssoc(g, mp) == {i \in 1..Len(g.asl) : g.asl[i].mp = mp}
AddAssoc(g, id, mp) ==
  IF id \in AssocIds(g) THEN [g EXCEPT !.asl = [i \in 1..Len(@) |-> IF @[i].id = id THEN [@[i] EXCEPT !.n = @ + 1] ELSE @[i]]]
  ELSE [g EXCEPT !.asl = Append(@, [id |-> id, mp |-> mp, n |-> 1])]
QuitAssoc(g, id) ==
  LET k == SelectIdx(g.asl, LAMBDA a : a.id = id)
      c == IF g.cur = id THEN -1 ELSE g.cur
  IN IF k = 0 THEN [g EXCEPT !.cur = c]
     ELSE IF g.asl[k].n > 1 THEN [g EXCEPT !.cur = c, !.asl[k].n = @ - 1]
     ELSE [g EXCEPT !.cur = c, !.asl = SubSeq(@, 1, k-1) \o SubSeq(@, k+1, Len(@))]

-----------------------------------------------------------------------------
(* Files.  A file remembers the function over the positions of the array.    *)
FileOf(g, e) == [bad |-> FALSE, ok |-> e.v[1] = 1, ex |-> g.ex, W |-> g.W, f |-> g.fn[e.a[1]],
                 ids |-> [i \in 1..Len(e.p) |-> IdOfVar(g, g.fn[e.p[i]])],
                 vf |-> [i \in 1..Len(e.p) |-> g.fn[e.p[i]]],
                 vc |-> [i \in 1..Len(e.p) |-> LET id == IdOfVar(g, g.fn[e.p[i]]) IN IF id = 0 THEN -1 ELSE g.vc[id]]]
RECURSIVE PointAt(_,_,_,_)
PointAt(fl, ys, p, i) == IF i > Len(ys) THEN 0 ELSE (IF AtF(ys[i], p) THEN Pow2(fl.vc[i]) ELSE 0) + PointAt(fl, ys, p, i+1)
ReadBack(g, fl, ys) == FromPred(LAMBDA p : AtF(fl.f, PointAt(fl, ys, p, 1)), g.W)
DumpGood(g, e) == /\ \A s \in Range(e.p) : IsVar(g, g.fn[s])
                  /\ Cardinality({g.fn[s] : s \in Range(e.p)}) = Len(e.p)
                  /\ g.ex => SupportIds(g, g.fn[e.a[1]]) \subseteq {IdOfVar(g, g.fn[s]) : s \in Range(e.p)}

-----------------------------------------------------------------------------
(* Which events may run a collection or a reordering inside.                 *)
Quiet(e) == e.e \in {"free", "dec", "unfree", "revive", "const", "vid", "vidx", "hset", "hget", "ovf", "limit", "params", "gcmode", "bounded", "dyn", "snap"}
ArgSet(e) == CASE e.e \in {"op", "mw", "pw"} -> Range(e.a) [] OTHER -> {}
AnyNull(g, S) == \E s \in S : ~Has(g, s)
Args(g, e) == [i \in 1..Len(e.a) |-> g.fn[e.a[i]]]
RowArgs(g, e, j) == CASE Un(e.f) -> <<g.fn[j]>>
                      [] e.f = "ite" -> <<g.fn[e.a[1]], g.fn[j], g.fn[e.p[1]]>>
                      [] e.f \in {"comp", "swap"} -> <<g.fn[j], g.fn[e.a[1]], g.fn[e.p[1]]>>
                      [] OTHER -> <<g.fn[e.a[1]], g.fn[j]>>
=============================================================================
