------------------------------- MODULE MCBool -------------------------------
(* BoolFun (words) against BoolSem (sets): checked for every pair of         *)
(* functions of a chosen set.                                                *)
EXTENDS BoolSem, TLC
CONSTANT Pairs, FullN          \* number of random pairs beyond the exhaustive part
VARIABLES f, g
W == Words(NC)
RandW(n) == [i \in 1..W |-> RandomElement(n-n..FF)]
Wrap(x) == IF NC = 4 THEN <<x>> ELSE [i \in 1..W |-> x]
(* all functions of FullN coordinates, repeated to the full width *)
RECURSIVE Rep(_,_)
Rep(x, n) == IF n >= 16 THEN x ELSE Rep(x + x * 2^n, 2*n)
Small == {Wrap(Rep(x, 2^FullN)) : x \in 0..(2^(2^FullN) - 1)}
Init == \/ f \in Small /\ g \in Small
        \/ \E i \in 1..Pairs : f = RandW(i) /\ g = RandW(i)
Next == UNCHANGED <<f, g>>
K == {0, NC-1}
Agree ==
  /\ Sem(NotF(f)) = SNot(Sem(f))
  /\ Sem(AndF(f,g)) = Sem(f) \cap Sem(g)
  /\ Sem(OrF(f,g)) = Sem(f) \cup Sem(g)
  /\ Sem(XorF(f,g)) = (Sem(f) \ Sem(g)) \cup (Sem(g) \ Sem(f))
  /\ Sem(IteF(f,g,NotF(f))) = SIte(Sem(f), Sem(g), SNot(Sem(f)))
  /\ ImpliesF(f,g) = (Sem(f) \subseteq Sem(g))
  /\ (f = g) = (Sem(f) = Sem(g))
  /\ TopBit(f) = ((0..NC-1) \in Sem(f))
  /\ CountF(f) = Cardinality(Sem(f)) * (IF NC < 4 THEN 2^(4-NC) ELSE 1)
  /\ \A k \in 0..NC-1 : /\ Sem(Cof1(f,k)) = SCof(Sem(f), k, TRUE)
                        /\ Sem(Cof0(f,k)) = SCof(Sem(f), k, FALSE)
                        /\ DependsF(f,k) = SDep(Sem(f), k)
                        /\ Sem(CoordF(k, W)) = {p \in Points : k \in p}
  /\ Sem(ExistsF(f, K)) = SEx(Sem(f), K)
  /\ Sem(ForAllF(f, K)) = SAll(Sem(f), K)
  /\ Sem(SubstF(f, [k \in K |-> IF k = 0 THEN g ELSE CoordF(0, W)])) = SSub(Sem(f), [k \in K |-> IF k = 0 THEN Sem(g) ELSE {p \in Points : 0 \in p}])
  /\ FromPred(LAMBDA p : AtF(f, p), W) = f
(* canonical structure: every node is essential, and the diagram read back is the function *)
Cs == [i \in 1..NC |-> i - 1]
Structure ==
  LET L == Levels({f, g}, Cs)
  IN /\ \A i \in 1..NC : \A h \in L[i] : TopBit(h) /\ DependsF(h, i-1) /\ \A j \in 0..i-2 : ~DependsF(h, j)
     /\ Levels({NotF(f), g}, Cs) = L
=============================================================================
