------------------------------ MODULE CalStore ------------------------------
(* The node store: what every collection, reordering and operation has to    *)
(* leave behind.  Stated over the snapshot the driver takes of the unique    *)
(* tables: nodes <<id, then, else, rc>> numbered from 1, edges 2*number+sign *)
(* with 0 = One and 1 = Zero, user handles <<edge, rc>>, association values  *)
(* <<association, variable, edge>>.                                          *)
EXTENDS Cal
Num(c) == c \div 2
Sgn(c) == c % 2
CountIn(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
RECURSIVE Tally(_,_,_,_)
(* number of references per node: arcs from nodes, handles, associations *)
Tally(q, k, i, acc) == (* k: position of the edge in the entries of q *)
  IF i > Len(q) THEN acc
  ELSE Tally(q, k, i+1, LET n == Num(q[i][k]) IN IF n = 0 THEN acc ELSE [acc EXCEPT ![n] = @ + 1])
Refs(e) == Tally(e.as, 3, 1, Tally(e.users, 1, 1, Tally(e.nodes, 3, 1, Tally(e.nodes, 2, 1, [i \in 1..Len(e.nodes) |-> 0]))))
IsVarNode(n) == n[2] = 0 /\ n[3] = 1
(* functions of the nodes, level by level from the last; <<>> where a variable
   without coordinate is involved *)
RECURSIVE NodeFuns(_,_,_,_,_)
EdgeFun(g, acc, c) == LET t == IF Num(c) = 0 THEN One(g) ELSE acc[Num(c)] IN IF t = <<>> \/ Sgn(c) = 0 THEN t ELSE NotF(t)
NodeFuns(g, o, N, k, acc) ==
  IF k = 0 THEN acc
  ELSE NodeFuns(g, o, N, k-1,
         [i \in 1..Len(N) |-> IF N[i][1] # o[k] THEN acc[i]
                              ELSE LET v == g.vf[o[k]] a == EdgeFun(g, acc, N[i][2]) b == EdgeFun(g, acc, N[i][3])
                                   IN IF v = <<>> \/ a = <<>> \/ b = <<>> THEN <<>> ELSE IteF(v, a, b)])
AssocEntries(g) == {<<-1, v>> : v \in DOMAIN g.tmp} \cup UNION {{<<g.asl[i].id, v>> : v \in DOMAIN g.asl[i].mp} : i \in 1..Len(g.asl)}
(* the functions behind handles and associations *)
StoreFuns(g, o, e) ==
  LET F == NodeFuns(g, o, e.nodes, Len(o), [i \in 1..Len(e.nodes) |-> <<>>])
      live == {i \in 1..Len(e.users) : Num(e.users[i][1]) > 0 /\ e.users[i][2] > 0 /\ e.users[i][2] < MaxRef}
      fun(i) == EdgeFun(g, F, e.users[i][1])
      held == {RegF(g.fn[s]) : s \in DOMAIN g.fn}
  IN /\ Chk("node denotes no constant", \A i \in 1..Len(F) : F[i] = <<>> \/ ~IsConstF(F[i]))
     /\ Chk("no two nodes denote the same function", LET D == {i \in 1..Len(F) : F[i] # <<>>} IN Cardinality({F[i] : i \in D}) = Cardinality(D))
     /\ \A i \in live : /\ Chk("handle of a function in use", fun(i) \in held)
                        /\ fun(i) \notin g.nr => ChkV("reference count of a handle", e.users[i][2], RefsOf(g, fun(i)))
     /\ Chk("handle of every function in use", {f \in held \ g.nr : ~IsConstF(f)} \subseteq {fun(i) : i \in live})
     /\ \A i \in 1..Len(e.as) : ChkV("function in an association", EdgeFun(g, F, e.as[i][3]), AssocOf(g, e.as[i][1])[e.as[i][2]])
StoreOk(g, o, e) ==       \* o: the order in force
  LET N == e.nodes
      L == Len(N)
      level == [i \in 1..L |-> IndexIn(o, N[i][1])]
      below(i, c) == Num(c) = 0 \/ level[Num(c)] > level[i]
      refs == Refs(e)
  IN /\ ChkV("edges lead to nodes of the tables", e.dg, 0)
     /\ ChkV("table sizes", e.cb, 0)
     /\ Chk("node ids are variables", \A i \in 1..L : N[i][1] \in Range(o))
     /\ Chk("then edges are regular", \A i \in 1..L : Sgn(N[i][2]) = 0)
     /\ Chk("no redundant node", \A i \in 1..L : N[i][2] # N[i][3])
     /\ Chk("no duplicate node", Cardinality({<<N[i][1], N[i][2], N[i][3]>> : i \in 1..L}) = L)
     /\ Chk("edges lead downwards", \A i \in 1..L : below(i, N[i][2]) /\ below(i, N[i][3]))
     /\ Chk("handles are regular and distinct", Cardinality({e.users[i][1] : i \in 1..Len(e.users)}) = Len(e.users)
                                                 /\ \A i \in 1..Len(e.users) : Sgn(e.users[i][1]) = 0)
     /\ Chk("one node per variable", \A v \in Range(o) : Cardinality({i \in 1..L : N[i][1] = v /\ IsVarNode(N[i])}) = 1)
     /\ g.pst = "ready" =>
        \A i \in 1..L : LET c == N[i][4] IN
           IF IsVarNode(N[i]) THEN TRUE
           ELSE IF c = MaxRef /\ (refs[i] >= MaxRef \/ g.pk >= 100) THEN TRUE
           ELSE ChkV("reference count of a node", c, refs[i])
     /\ g.ex => LET got == Cardinality({i \in 1..Len(e.users) : e.users[i][2] > 0 /\ Num(e.users[i][1]) > 0 /\ e.users[i][2] < MaxRef})
                    sure == {RegF(g.fn[s]) : s \in DOMAIN g.fn} \ ({One(g)} \cup g.sat)
                IN IF g.nr \subseteq g.sat THEN ChkV("handles with references", got, Cardinality(sure))
                   ELSE Chk("handles with references", got >= Cardinality(sure \ g.nr) /\ got <= Cardinality(sure))
     /\ ChkV("number of nodes", e.nn, L + 1)
     /\ ChkV("entries of associations", {<<e.as[i][1], e.as[i][2]>> : i \in 1..Len(e.as)}, AssocEntries(g))
     /\ ChkV("entries of associations", Len(e.as), Cardinality(AssocEntries(g)))
     /\ (g.ex /\ g.pst = "ready") => StoreFuns(g, o, e)
=============================================================================
