------------------------------ MODULE CalBlocks ------------------------------
(* The algorithm behind variable blocks: a tree of index ranges, into which  *)
(* blocks and variables are inserted, and whose adjacent children depth-     *)
(* first reordering slides past each other one exchange at a time.           *)
(* Model-checked against the block rules of Cal: whatever the tree lets      *)
(* happen, Cal accepts (declared blocks stay intervals of their variables,   *)
(* fixed ones keep their inner order), and the tree describes exactly the    *)
(* declared blocks.                                                          *)
EXTENDS Cal
CONSTANTS MaxVars, MaxBlocks
VARIABLES tree, g, last
vars == <<tree, g, last>>
Node(f, l, kids, b, re) == [f |-> f, l |-> l, kids |-> kids, b |-> b, re |-> re]
Leaf(i) == Node(i, i, <<>>, 0, 0)

(* --- the algorithm (indices from 0, as in the code) ---------------------- *)
RECURSIVE Find(_,_,_,_)
Find(kids, x, i, j) ==                                  \* binary search; children numbered from 0
  IF i > j THEN i
  ELSE LET k == (i + j) \div 2 c == kids[k + 1] IN
       IF c.f <= x /\ c.l >= x THEN k
       ELSE IF c.f > x THEN Find(kids, x, i, k - 1) ELSE Find(kids, x, k + 1, j)
FindBlock(b, x) == Find(b.kids, x, 0, Len(b.kids) - 1)
RECURSIVE Delta(_,_)
Delta(b, d) == [b EXCEPT !.f = @ + d, !.l = @ + d, !.kids = [i \in 1..Len(@) |-> Delta(@[i], d)]]
RECURSIVE Shift(_,_)
Shift(b, x) ==
  IF b.f >= x THEN Delta(b, 1)
  ELSE IF b.l < x THEN b
  ELSE LET i == FindBlock(b, x) n == Len(b.kids) IN
       IF i = n \/ (i < n /\ b.kids[i + 1].f = x)
       THEN [b EXCEPT !.l = @ + 1,
                      !.kids = SubSeq(@, 1, i) \o <<Leaf(x)>> \o [j \in 1..(n - i) |-> Shift(b.kids[i + j], x)]]
       ELSE [b EXCEPT !.l = @ + 1, !.kids = [j \in 1..n |-> IF j > i THEN Shift(b.kids[j], x) ELSE b.kids[j]]]
RECURSIVE Add(_,_)
Add(b1, b2) ==
  IF b1.kids = <<>> THEN [b1 EXCEPT !.kids = <<b2>>]
  ELSE LET i == FindBlock(b1, b2.f) j == FindBlock(b1, b2.l) n == Len(b1.kids) IN
       IF i = j THEN [b1 EXCEPT !.kids[i + 1] = Add(@, b2)]
       ELSE LET c == [b2 EXCEPT !.kids = SubSeq(b1.kids, i + 1, j + 1)] IN
            IF b1.kids[i + 1].f # b2.f \/ b1.kids[j + 1].l # b2.l
            THEN Assert(FALSE, "illegal block overlap")
            ELSE [b1 EXCEPT !.kids = SubSeq(@, 1, i) \o <<c>> \o SubSeq(@, j + 2, n)]
SwapAt(o, l) == [o EXCEPT ![l] = o[l + 1], ![l + 1] = o[l]]   \* indices l-1 and l of the code
RECURSIVE Inner(_,_,_,_,_)
Inner(o, b2, i, j, k) == IF j > k THEN o ELSE Inner(SwapAt(o, b2.f + j - i + j), b2, i, j + 1, k)
RECURSIVE Outer(_,_,_,_,_)
Outer(o, b2, i, w1, w2) ==
  IF i > w1 + w2 THEN o
  ELSE Outer(Inner(o, b2, i, IF i < w1 THEN 0 ELSE i - w1, IF i > w2 THEN w2 ELSE i), b2, i + 1, w1, w2)
SlideOrd(o, b1, b2) == Outer(o, b2, 0, b1.l - b1.f, b2.l - b2.f)
SlideKids(p, i) == LET b1 == p.kids[i] b2 == p.kids[i + 1] IN
  [p EXCEPT !.kids[i] = Delta(b2, -(b1.l - b1.f + 1)), !.kids[i + 1] = Delta(b1, b2.l - b2.f + 1)]

(* --- paths to the nodes of the tree -------------------------------------- *)
RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup UNION {{<<i>> \o p : p \in Paths(t.kids[i])} : i \in 1..Len(t.kids)}
RECURSIVE At(_,_)
At(t, p) == IF p = <<>> THEN t ELSE At(t.kids[Head(p)], Tail(p))
RECURSIVE Put(_,_,_)
Put(t, p, x) == IF p = <<>> THEN x ELSE [t EXCEPT !.kids[Head(p)] = Put(@, Tail(p), x)]

Init == /\ tree = Node(-1, 0, <<>>, 0, 1)
        /\ g = [ord |-> <<>>, blks |-> <<>>, tech |-> 1, meth |-> MethodDF, bv |-> FALSE]
        /\ last = <<>>
NewVar == /\ Len(g.ord) < MaxVars
          /\ \E x \in 0..Len(g.ord) :
               LET o == InsertAt(g.ord, x + 1, Len(g.ord) + 1) IN
               /\ tree' = Shift(tree, x)
               /\ g' = [g EXCEPT !.ord = o, !.blks = [i \in 1..Len(@) |-> BlkAfterVar(g, @[i], o)]]
               /\ last' = o
NewBlock == /\ Len(g.blks) < MaxBlocks
            /\ \E f \in 0..(Len(g.ord) - 1) : \E l \in f..(Len(g.ord) - 1) :
                 LET R == {g.ord[i + 1] : i \in f..l} k == Len(g.blks) + 1 IN
                 /\ \A i \in 1..Len(g.blks) : LET B == g.blks[i].vs IN R \cap B = {} \/ R \subseteq B \/ B \subseteq R
                 /\ tree' = Add(tree, Node(f, l, <<>>, k, 0))
                 /\ g' = [g EXCEPT !.blks = Append(@, [b |-> k, vs |-> R, re |-> 0])]
                 /\ last' = g.ord
SetRe == \E p \in Paths(tree) : LET x == At(tree, p) IN
           /\ x.b # 0
           /\ tree' = Put(tree, p, [x EXCEPT !.re = 1 - @])
           /\ g' = [g EXCEPT !.blks[x.b].re = 1 - @]
           /\ last' = g.ord
Slide == \E p \in Paths(tree) : LET x == At(tree, p) IN
           /\ x.re = 1
           /\ \E i \in 1..(Len(x.kids) - 1) :
                LET o == SlideOrd(g.ord, x.kids[i], x.kids[i + 1]) IN
                /\ Assert(OrderOk(g, o), <<"reordering breaks a block", tree, g, o>>)
                /\ tree' = Put(tree, p, SlideKids(x, i))
                /\ g' = [g EXCEPT !.ord = o]
                /\ last' = o
Next == NewVar \/ NewBlock \/ SetRe \/ Slide

(* --- what the tree means ------------------------------------------------- *)
RECURSIVE WellFormed(_)
WellFormed(t) == /\ t.f <= t.l
                 /\ t.kids # <<>> => /\ t.kids[1].f = t.f /\ t.kids[Len(t.kids)].l = t.l
                                     /\ \A i \in 1..(Len(t.kids) - 1) : t.kids[i + 1].f = t.kids[i].l + 1
                 /\ t.kids = <<>> => t.f = t.l
                 /\ \A i \in 1..Len(t.kids) : WellFormed(t.kids[i])
Tree == /\ tree.f = -1 /\ tree.l = Len(g.ord)
        /\ tree.kids # <<>> => tree.kids[1].f = 0 /\ tree.kids[Len(tree.kids)].l = Len(g.ord) - 1
        /\ \A i \in 1..Len(tree.kids) : WellFormed(tree.kids[i])
        /\ \A i \in 1..(Len(tree.kids) - 1) : tree.kids[i + 1].f = tree.kids[i].l + 1
Declared == \A k \in 1..Len(g.blks) : \E p \in Paths(tree) : LET x == At(tree, p) IN
              /\ x.b = k /\ x.re = g.blks[k].re
              /\ g.blks[k].vs = {g.ord[i + 1] : i \in x.f..x.l}
(* fixed blocks: the children of a block are the units of the contract *)
UnitsAgree == \A p \in Paths(tree) : LET x == At(tree, p) IN
                x.b # 0 => \A i \in 1..Len(x.kids) : x.kids[i].f = x.kids[i].l \/
                              {g.ord[j + 1] : j \in x.kids[i].f..x.kids[i].l} \in Units(g, x.b)
=============================================================================
