------------------------------ MODULE BoolSem ------------------------------
(* The declarative semantics: a function is the set of points at which it is *)
(* true; a point is the set of coordinates that are 1 there.                 *)
EXTENDS Naturals, FiniteSets, Sequences, BoolFun
CONSTANT NC                       \* number of coordinates
Points == SUBSET (0..NC-1)
RECURSIVE SetNum(_)
SetNum(s) == IF s = {} THEN 0 ELSE LET k == CHOOSE x \in s : TRUE IN 2^k + SetNum(s \ {k})
(* abstraction of a word tuple *)
Sem(f) == {p \in Points : AtF(f, SetNum(p))}
SNot(A) == Points \ A
SIte(A, B, C) == {p \in Points : IF p \in A THEN p \in B ELSE p \in C}
SCof(A, k, b) == {p \in Points : (IF b THEN p \cup {k} ELSE p \ {k}) \in A}
SDep(A, k) == \E p \in Points : (p \cup {k} \in A) # (p \ {k} \in A)
Flips(p, K) == {(p \ K) \cup s : s \in SUBSET K}
SEx(A, K) == {p \in Points : \E q \in Flips(p, K) : q \in A}
SAll(A, K) == {p \in Points : \A q \in Flips(p, K) : q \in A}
(* s maps coordinates to semantic functions *)
SSub(A, s) == {p \in Points : {k \in 0..NC-1 : IF k \in DOMAIN s THEN p \in s[k] ELSE k \in p} \in A}
=============================================================================
