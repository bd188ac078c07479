------------------------------ MODULE BoolFun ------------------------------
(* Boolean functions over a finite sample space.                             *)
(*                                                                           *)
(* The sample space has 2^N points.  A function is a tuple of W words of 16  *)
(* bits (W = 1 for N <= 4, otherwise 2^(N-4)); point p is bit p % 16 of word *)
(* p \div 16 + 1.  Coordinate k is the function "bit k of the point".        *)
(* BoolSem defines the same operators over sets of points; MCBool checks     *)
(* that the two agree.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

FF == 65535
Words(N) == IF N <= 4 THEN 1 ELSE 2^(N-4)
ZeroF(W) == [i \in 1..W |-> 0]
OneF(W)  == [i \in 1..W |-> FF]

NotF(f)    == [i \in 1..Len(f) |-> FF - f[i]]
AndF(f, g) == [i \in 1..Len(f) |-> f[i] & g[i]]
OrF(f, g)  == [i \in 1..Len(f) |-> f[i] | g[i]]
XorF(f, g) == [i \in 1..Len(f) |-> f[i] ^^ g[i]]
IteF(f, g, h) == [i \in 1..Len(f) |-> (f[i] & g[i]) | ((FF - f[i]) & h[i])]
ImpliesF(f, g) == \A i \in 1..Len(f) : (f[i] & (FF - g[i])) = 0
IsZeroF(f) == \A i \in 1..Len(f) : f[i] = 0
IsOneF(f)  == \A i \in 1..Len(f) : f[i] = FF
IsConstF(f) == IsZeroF(f) \/ IsOneF(f)
(* value at the last point (all coordinates 1) *)
TopBit(f) == f[Len(f)] >= 32768
RegF(f) == IF TopBit(f) THEN f ELSE NotF(f)

Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] OTHER -> 2^k
CMask(k) == CASE k = 0 -> 43690 [] k = 1 -> 52428 [] k = 2 -> 61680 [] k = 3 -> 65280
CShift(k) == CASE k = 0 -> 2 [] k = 1 -> 4 [] k = 2 -> 16 [] k = 3 -> 256
(* coordinate k as a function on W words; -1 is no coordinate *)
CoordF(k, W) == IF k < 0 THEN <<>> ELSE IF k < 4 THEN [i \in 1..W |-> CMask(k)]
                ELSE [i \in 1..W |-> IF (((i-1) \div Pow2(k-4)) % 2) = 1 THEN FF ELSE 0]
(* cofactors with respect to a coordinate *)
Cof1(f, k) == IF k < 0 THEN f ELSE IF k < 4
              THEN [i \in 1..Len(f) |-> LET h == (f[i] & CMask(k)) IN h | (h \div CShift(k))]
              ELSE LET b == Pow2(k-4) IN
                   [i \in 1..Len(f) |-> f[IF (((i-1) \div b) % 2) = 1 THEN i ELSE i + b]]
Cof0(f, k) == IF k < 0 THEN f ELSE IF k < 4
              THEN [i \in 1..Len(f) |-> LET h == (f[i] & (FF - CMask(k))) IN h | (h * CShift(k))]
              ELSE LET b == Pow2(k-4) IN
                   [i \in 1..Len(f) |-> f[IF (((i-1) \div b) % 2) = 1 THEN i - b ELSE i]]
DependsF(f, k) == k >= 0 /\ Cof1(f, k) # Cof0(f, k)

RECURSIVE ExistsF(_,_), ForAllF(_,_)
(* quantification over a set of coordinates *)
ExistsF(f, K) == IF K = {} THEN f ELSE LET k == CHOOSE x \in K : TRUE IN ExistsF(OrF(Cof0(f,k), Cof1(f,k)), K \ {k})
ForAllF(f, K) == IF K = {} THEN f ELSE LET k == CHOOSE x \in K : TRUE IN ForAllF(AndF(Cof0(f,k), Cof1(f,k)), K \ {k})

RECURSIVE SubstF(_,_)
(* simultaneous substitution: s maps coordinates to functions *)
SubstF(f, s) ==
  LET D == {k \in DOMAIN s : DependsF(f, k)} IN
  IF D = {} THEN f
  ELSE LET k == CHOOSE x \in D : TRUE
           r == [j \in D \ {k} |-> s[j]]
       IN IteF(s[k], SubstF(Cof1(f, k), r), SubstF(Cof0(f, k), r))

RECURSIVE FoldAnd(_,_), FoldOr(_,_), FoldXor(_,_)
FoldAnd(q, W) == IF q = <<>> THEN OneF(W)  ELSE AndF(Head(q), FoldAnd(Tail(q), W))
FoldOr(q, W)  == IF q = <<>> THEN ZeroF(W) ELSE OrF(Head(q), FoldOr(Tail(q), W))
FoldXor(q, W) == IF q = <<>> THEN ZeroF(W) ELSE XorF(Head(q), FoldXor(Tail(q), W))

(* number of points where the function is true *)
RECURSIVE Bits(_)
Bits(w) == IF w = 0 THEN 0 ELSE (w % 2) + Bits(w \div 2)
RECURSIVE CountAux(_,_)
CountAux(f, i) == IF i > Len(f) THEN 0 ELSE Bits(f[i]) + CountAux(f, i+1)
CountF(f) == CountAux(f, 1)
(* value at point p *)
AtF(f, p) == ((f[(p \div 16) + 1] \div Pow2(p % 16)) % 2) = 1
(* a function from a predicate on points *)
RECURSIVE WordOf(_,_,_)
WordOf(P(_), base, b) == IF b = 16 THEN 0 ELSE (IF P(base + b) THEN Pow2(b) ELSE 0) + WordOf(P, base, b+1)
FromPred(P(_), W) == [i \in 1..W |-> WordOf(P, 16*(i-1), 0)]

(* --- decision-diagram structure determined by a function and an order --- *)
(* cs: the coordinates in order of their variables, top first.              *)
(* Nodes of a canonical diagram with complement edges: the distinct         *)
(* essential cofactors modulo complement, level by level.                   *)
RECURSIVE LevelSets(_,_,_)
LevelSets(S, cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET D == {f \in S : DependsF(f, cs[i])}
           R == (S \ D) \cup {RegF(Cof0(f, cs[i])) : f \in D} \cup {RegF(Cof1(f, cs[i])) : f \in D}
       IN <<D>> \o LevelSets(R, cs, i+1)
Levels(S, cs) == LevelSets({RegF(f) : f \in S}, cs, 1)
(* the same without complement edges; the last entry is the set of leaves *)
RECURSIVE LevelSetsNC(_,_,_)
LevelSetsNC(S, cs, i) ==
  IF i > Len(cs) THEN <<S>>
  ELSE LET D == {f \in S : DependsF(f, cs[i])}
           R == (S \ D) \cup {Cof0(f, cs[i]) : f \in D} \cup {Cof1(f, cs[i]) : f \in D}
       IN <<D>> \o LevelSetsNC(R, cs, i+1)
(* all distinct cofactors with respect to the first i-1 coordinates *)
RECURSIVE CofLevels(_,_,_)
CofLevels(S, cs, i) ==
  IF i > Len(cs) THEN <<S>>
  ELSE <<S>> \o CofLevels({Cof0(f, cs[i]) : f \in S} \cup {Cof1(f, cs[i]) : f \in S}, cs, i+1)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
=============================================================================
