------------------------------ MODULE CalAssoc ------------------------------
(* How associations are kept: a list sorted by identifier whose freed        *)
(* identifiers are given out again, the deepest associated index of each     *)
(* (which cuts the recursion of quantification short and follows the order), *)
(* and the codes under which results are remembered.  Model-checked against  *)
(* the association rules of Cal; a remembered result must be the one asked   *)
(* for.  Values are opaque: 0 none, 1 the constant, others functions.        *)
EXTENDS Cal
CONSTANTS MaxVars, Vals, MaxList, Spacing, Temps, MaxOps,
          OwnCodesOnly,      \* identifiers beyond the spacing get no codes of their own
          FlushOnWrap,       \* the memory is emptied before temporary codes are used again
          FlushOnQuit        \* ... and what belongs to an identifier that is given back
VARIABLES ord, list, temp, cur, memo, tc, g, ops
vars == <<ord, list, temp, cur, memo, tc, g, ops>>

(* --- the algorithm ------------------------------------------------------- *)
QuantC == Spacing  RelC == 2 * Spacing  SubC == 3 * Spacing
LowTemp == 4 * Spacing  TopTemp == LowTemp + Temps - 1
Place(o, v) == CHOOSE i \in 0..(Len(o) - 1) : o[i + 1] = v
LastOf(o, va) == LET I == {Place(o, v) : v \in {w \in DOMAIN va : va[w] # 0}} IN IF I = {} THEN -1 ELSE CHOOSE i \in I : \A j \in I : j <= i
FirstFree == LET n == {i \in 1..Len(list) : \A j \in 1..i : list[j].id = j - 1} IN Cardinality(n)   \* ids 0..n-1 lead the list
CurRec == IF cur = -1 THEN temp ELSE list[CHOOSE i \in 1..Len(list) : list[i].id = cur]
Bump(a, x) == [a EXCEPT !.va = Append(@, 0), !.last = IF @ >= x THEN @ + 1 ELSE @]
Fixup(a, i) == LET v1 == ord[i + 1] v2 == ord[i + 2] IN        \* the variables at indices i and i+1 change places
  IF a.last = -1 THEN a
  ELSE IF a.va[v1] # 0 /\ a.last = i THEN [a EXCEPT !.last = @ + 1]
  ELSE IF a.va[v1] = 0 /\ a.va[v2] # 0 /\ a.last = i + 1 THEN [a EXCEPT !.last = @ - 1]
  ELSE a
Own(id) == id >= 0 /\ (OwnCodesOnly => id < Spacing)
(* one use of the current association: the code and the memory it leaves *)
Draw(n) == IF tc - n + 1 < LowTemp THEN [c |-> TopTemp, tc |-> TopTemp - n, memo |-> IF FlushOnWrap THEN {} ELSE memo]
           ELSE [c |-> tc, tc |-> tc - n, memo |-> memo]
Use(op, two) ==                                    \* op: what is asked, two: with two operands
  LET base == CASE op = "ex" -> QuantC [] op = "rp" -> RelC [] op = "vs" -> SubC
      d == IF Own(cur) THEN [c |-> base + cur, tc |-> tc, memo |-> memo] ELSE Draw(IF op = "rp" THEN 2 ELSE 1)
      want == <<op, CurRec.va, CurRec.last>>
      hit == {x \in d.memo : x[1] = d.c /\ x[2] = two}
      exc == IF Own(cur) THEN QuantC + cur ELSE d.c - 1          \* a relational product falls back on quantification
      exw == <<"ex", CurRec.va, CurRec.last>>
      exh == {x \in d.memo : x[1] = exc /\ x[2] = FALSE}
      Good(x, w) == Assert(x[3][1] = w[1] /\ x[3][2] = w[2], <<"a foreign result is handed out", x, w>>)
  IN /\ \A x \in hit : Good(x, want)
     /\ op = "rp" => \A x \in exh : Good(x, exw)
     /\ tc' = d.tc
     /\ memo' = d.memo \cup (IF hit = {} THEN {<<d.c, two, want>>} ELSE {})
                       \cup (IF op = "rp" /\ exh = {} THEN {<<exc, FALSE, exw>>} ELSE {})

(* --- steps --------------------------------------------------------------- *)
Maps == UNION {[1..Len(ord) -> Vals \cup {0}]}
AsMap(va) == [v \in {w \in DOMAIN va : va[w] # 0} |-> va[v]]
Init == /\ ord = <<>> /\ list = <<>> /\ temp = [id |-> -1, va |-> <<>>, last |-> -1, ref |-> 1]
        /\ cur = -1 /\ memo = {} /\ tc = TopTemp /\ ops = 0
        /\ g = [asl |-> <<>>, tmp |-> NoMap, cur |-> -1]
NewVar == /\ Len(ord) < MaxVars
          /\ \E x \in 0..Len(ord) :
               /\ ord' = InsertAt(ord, x + 1, Len(ord) + 1)
               /\ list' = [i \in 1..Len(list) |-> Bump(list[i], x)]
               /\ temp' = Bump(temp, x)
               /\ memo' = {<<x1[1], x1[2], <<x1[3][1], Append(x1[3][2], 0), 0>>>> : x1 \in memo}     \* a name of the map only
          /\ UNCHANGED <<cur, tc, g>>
Exchange == /\ \E i \in 0..(Len(ord) - 2) :
                 /\ ord' = [ord EXCEPT ![i + 1] = ord[i + 2], ![i + 2] = ord[i + 1]]
                 /\ list' = [k \in 1..Len(list) |-> Fixup(list[k], i)]
                 /\ temp' = Fixup(temp, i)
            /\ memo' = {}                                             \* reordering empties the memory
            /\ UNCHANGED <<cur, tc, g>>
AInit == /\ \E va \in Maps :
              LET same == {i \in 1..Len(list) : list[i].va = va} IN
              IF same # {} THEN LET i == CHOOSE j \in same : \A k \in same : j <= k IN
                   /\ list' = [list EXCEPT ![i].ref = @ + 1]
                   /\ g' = AddAssoc(g, list[i].id, AsMap(va))
                   /\ Assert({g.asl[k].id : k \in EqualAssoc(g, AsMap(va))} = {list[i].id}, "the identifier of an equal association")
              ELSE /\ Len(list) < MaxList
                   /\ LET f == FirstFree IN
                      /\ list' = SubSeq(list, 1, f) \o <<[id |-> f, va |-> va, last |-> LastOf(ord, va), ref |-> 1]>> \o SubSeq(list, f + 1, Len(list))
                      /\ g' = AddAssoc(g, f, AsMap(va))
                      /\ Assert(f \notin AssocIds(g) /\ EqualAssoc(g, AsMap(va)) = {}, "a new identifier")
         /\ UNCHANGED <<ord, temp, cur, memo, tc>>
AQuit == /\ \E i \in 1..Len(list) : LET id == list[i].id IN
              /\ cur' = IF cur = id THEN -1 ELSE cur
              /\ IF list[i].ref > 1 THEN list' = [list EXCEPT ![i].ref = @ - 1] /\ memo' = memo
                 ELSE /\ list' = SubSeq(list, 1, i - 1) \o SubSeq(list, i + 1, Len(list))
                      /\ memo' = IF FlushOnQuit THEN {x \in memo : x[1] \notin {QuantC + id, RelC + id, SubC + id}} ELSE memo
              /\ g' = QuitAssoc(g, id)
         /\ UNCHANGED <<ord, temp, tc>>
ASet == /\ \E id \in -1..MaxList : LET ok == id \in {list[i].id : i \in 1..Len(list)} IN
             /\ cur' = IF ok THEN id ELSE -1
             /\ g' = [g EXCEPT !.cur = IF id \in AssocIds(g) THEN id ELSE -1]
        /\ UNCHANGED <<ord, list, temp, memo, tc>>
TInit == /\ \E va \in Maps : /\ temp' = [temp EXCEPT !.va = va, !.last = LastOf(ord, va)]
                             /\ g' = [g EXCEPT !.tmp = AsMap(va)]
         /\ UNCHANGED <<ord, list, cur, memo, tc>>
TAug == /\ \E va \in Maps :
             LET l == LastOf(ord, va) IN
             /\ temp' = [temp EXCEPT !.va = [v \in DOMAIN va |-> IF va[v] # 0 THEN va[v] ELSE @[v]], !.last = IF l > @ THEN l ELSE @]
             /\ g' = [g EXCEPT !.tmp = AsMap(va) @@ @]
        /\ UNCHANGED <<ord, list, cur, memo, tc>>
DoUse == /\ \E op \in {"ex", "vs", "rp"} : Use(op, op = "rp")
         /\ UNCHANGED <<ord, list, temp, cur, g>>
Forget == memo # {} /\ memo' = {} /\ UNCHANGED <<ord, list, temp, cur, tc, g>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ NewVar \/ Exchange \/ AInit \/ AQuit \/ ASet \/ TInit \/ TAug \/ DoUse \/ Forget

(* --- what must hold ------------------------------------------------------ *)
All == {list[i] : i \in 1..Len(list)} \cup {temp}
LastRight == \A a \in All : a.last = LastOf(ord, a.va)
Sorted == \A i \in 1..(Len(list) - 1) : list[i].id < list[i + 1].id
SameAssocs == /\ {<<list[i].id, AsMap(list[i].va), list[i].ref>> : i \in 1..Len(list)} = {<<g.asl[i].id, g.asl[i].mp, g.asl[i].n>> : i \in 1..Len(g.asl)}
              /\ Len(list) = Len(g.asl)
              /\ g.tmp = AsMap(temp.va)
              /\ g.cur = cur
(* nothing below the deepest associated index is associated *)
CutSafe == \A a \in All : \A v \in 1..Len(ord) : Place(ord, v) > a.last => a.va[v] = 0
=============================================================================
