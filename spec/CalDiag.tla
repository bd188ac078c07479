------------------------------ MODULE CalDiag ------------------------------
(* What a diagram tells about itself: sizes, profiles, supports and          *)
(* satisfying fractions of functions of any number of variables, decided on  *)
(* the table of nodes the driver read through the public accessors.          *)
(* A table lists <<id, then, else>>, deepest level first; in references 0 is *)
(* Zero, 1 is One and k+1 is entry k.                                        *)
EXTENDS CalStore

RECURSIVE TbValues(_,_,_,_)
TbValues(g, tb, i, acc) == (* the functions of the entries *)
  IF i > Len(tb) THEN acc
  ELSE LET val(r) == IF r = 0 THEN Zero(g) ELSE IF r = 1 THEN One(g) ELSE acc[r-1]
       IN TbValues(g, tb, i+1, Append(acc, IteF(g.vf[tb[i][1]], val(tb[i][2]), val(tb[i][3]))))
TbVal(g, vals, r) == IF r = 0 THEN Zero(g) ELSE IF r = 1 THEN One(g) ELSE vals[r-1]

(* reference of the complement, -1 if it is not in the table *)
CompRef(acc, r) == IF r = 0 THEN 1 ELSE IF r = 1 THEN 0 ELSE acc[r-1]
RECURSIVE TbComps(_,_,_)
TbComps(tb, i, acc) ==
  IF i > Len(tb) THEN acc
  ELSE LET t == CompRef(acc, tb[i][2]) e == CompRef(acc, tb[i][3])
           w == <<tb[i][1], t, e>>
           S == IF t = -1 \/ e = -1 THEN {} ELSE {j \in 1..Len(tb) : tb[j] = w}
       IN TbComps(tb, i+1, Append(acc, IF S = {} THEN -1 ELSE 1 + CHOOSE j \in S : TRUE))

(* entries below a reference *)
RECURSIVE TbBelow(_,_,_)
TbBelow(tb, i, S) == (* S: references reached from entries above i *)
  IF i = 0 THEN S
  ELSE TbBelow(tb, i-1, IF i+1 \in S THEN S \cup {tb[i][2], tb[i][3]} ELSE S)
TbReach(tb, roots) == TbBelow(tb, Len(tb), roots)
TbSupport(tb, r) == {tb[i][1] : i \in {j \in 1..Len(tb) : j+1 \in TbReach(tb, {r})}}

(* number of distinct cofactors with respect to the variables above a level *)
RECURSIVE TbCuts(_,_,_,_)
TbCuts(tb, o, i, S) ==
  IF i > Len(o) THEN <<Cardinality(S)>>
  ELSE LET D == {r \in S : r > 1 /\ tb[r-1][1] = o[i]} IN
       <<Cardinality(S)>> \o TbCuts(tb, o, i+1, (S \ D) \cup {tb[r-1][2] : r \in D} \cup {tb[r-1][3] : r \in D})

(* satisfying fraction times 2^48, in limbs of 16 bits, least first *)
Half(a, b) == LET s1 == a[1] + b[1]   s2 == a[2] + b[2] + s1 \div 65536   s3 == a[3] + b[3] + s2 \div 65536   s4 == a[4] + b[4] + s3 \div 65536
                  d1 == s1 % 65536 d2 == s2 % 65536 d3 == s3 % 65536
              IN << d1 \div 2 + (d2 % 2) * 32768, d2 \div 2 + (d3 % 2) * 32768, d3 \div 2 + (s4 % 2) * 32768, s4 \div 2 >>
RECURSIVE TbFracs(_,_,_)
FracRef(acc, r) == IF r = 0 THEN <<0,0,0,0>> ELSE IF r = 1 THEN <<0,0,0,1>> ELSE acc[r-1]
TbFracs(tb, i, acc) == IF i > Len(tb) THEN acc ELSE TbFracs(tb, i+1, Append(acc, Half(FracRef(acc, tb[i][2]), FracRef(acc, tb[i][3]))))
MaxExact == 48

TbShape(g, e) == (* ordered and reduced; every entry used *)
  LET tb == e.tb n == Len(tb)
      below(i, r) == r < 2 \/ (r-1 < i /\ IndexIn(g.ord, tb[r-1][1]) > IndexIn(g.ord, tb[i][1]))
  IN /\ ChkV("diagram read through the accessors", e.bad, 0)
     /\ Chk("entries are variables", \A i \in 1..n : tb[i][1] \in Range(g.ord))
     /\ Chk("arcs lead downwards", \A i \in 1..n : below(i, tb[i][2]) /\ below(i, tb[i][3]))
     /\ Chk("no redundant test", \A i \in 1..n : tb[i][2] # tb[i][3])
     /\ Chk("equal functions have equal handles", Cardinality(Range(tb)) = n)

DiagOk(g, e) ==
  LET tb == e.tb  n == Len(tb)  R == Range(e.roots)  all == TbReach(tb, R)
      comps == TbComps(tb, 1, <<>>)
      vals == TbValues(g, tb, 1, <<>>)
      fracs == TbFracs(tb, 1, <<>>)
      at(id, P(_)) == Cardinality({i \in 1..n : tb[i][1] = id /\ P(i)})
      nc == [k \in 1..Len(g.ord) |-> at(g.ord[k], LAMBDA i : TRUE)]
      ce == [k \in 1..Len(g.ord) |-> at(g.ord[k], LAMBDA i : comps[i] = -1 \/ comps[i] > i+1)]
      prnc == Append(nc, Cardinality(all \cap {0, 1}))
      prce == Append(ce, 1)
      cuts == TbCuts(tb, g.ord, 1, R)
      used == {tb[i][1] : i \in 1..n}
  IN /\ TbShape(g, e)
     /\ \A i \in 1..Len(e.a) : ChkV("walk over the diagram", TbVal(g, vals, e.roots[i]), g.fn[e.a[i]])
     /\ ChkV("profile", e.pr[1], prnc)
     /\ ChkV("profile with complement arcs", e.pr[2], prce)
     /\ ChkV("size", e.sz, <<SumSeq(prnc), SumSeq(prce)>>)
     /\ ChkV("function profile", e.fp, [k \in 1..Len(g.ord)+1 |-> IF k > Len(g.ord) \/ g.ord[k] \in used THEN cuts[k] ELSE 0])
     /\ \A i \in 1..Len(e.a) : LET sp == TbSupport(tb, e.roots[i]) IN
          /\ ChkV("support", Range(e.su[i]), sp)
          /\ ChkV("support", Len(e.su[i]), Cardinality(sp))
          /\ Cardinality(sp) <= MaxExact => ChkV("satisfying fraction", e.fr[i], Append(FracRef(fracs, e.roots[i]), 1))

(* a satisfying cube: one path, all of whose completions satisfy the function *)
RECURSIVE TbCube(_,_,_)
TbCube(tb, r, lits) == (* lits: id -> 0/1 along the only way to One; id 0 marks a diagram that is no cube *)
  IF r = 1 THEN lits
  ELSE IF r = 0 THEN (0 :> 0)
  ELSE LET x == tb[r-1] IN
       IF x[2] = 0 THEN TbCube(tb, x[3], (x[1] :> 0) @@ lits)
       ELSE IF x[3] = 0 THEN TbCube(tb, x[2], (x[1] :> 1) @@ lits)
       ELSE (0 :> 0)
RECURSIVE TbUnder(_,_,_,_)
TbUnder(tb, lits, i, acc) == (* 0, 1, or 2: still open once the literals are fixed *)
  IF i > Len(tb) THEN acc
  ELSE LET val(r) == IF r < 2 THEN r ELSE acc[r-1]
           t == val(tb[i][2]) f == val(tb[i][3])
       IN TbUnder(tb, lits, i+1, Append(acc, IF tb[i][1] \in DOMAIN lits THEN (IF lits[tb[i][1]] = 1 THEN t ELSE f) ELSE IF t = f THEN t ELSE 2))
WitOk(g, e) == (* e.roots = <<function, cube>> *)
  LET tb == e.tb  f == e.roots[1]  lits == TbCube(tb, e.roots[2], NoMap)
      under == TbUnder(tb, lits, 1, <<>>)
  IN /\ TbShape(g, e)
     /\ IF f = 0 THEN ChkV("witness of the false function", e.roots[2], 0)
        ELSE /\ Chk("witness is a cube", 0 \notin DOMAIN lits)
             /\ ChkV("witness satisfies the function", IF f < 2 THEN f ELSE under[f-1], 1)
             /\ e.f = "sats" => Chk("witness mentions every associated variable", DOMAIN CurMap(g) \subseteq DOMAIN lits)
             /\ e.f = "sat" => Chk("witness mentions only variables of the function", DOMAIN lits \subseteq TbSupport(tb, f))
=============================================================================
