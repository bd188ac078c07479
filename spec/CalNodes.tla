------------------------------ MODULE CalNodes ------------------------------
(* The representation behind Cal: a store of shared nodes with complement    *)
(* edges, a unique table, counted handles, a memo table, collection, in-place*)
(* exchange of adjacent levels, associations whose identifiers are reused.   *)
(* Model-checked against the functions: what Cal promises about handles,     *)
(* canonicity, collection and reordering follows from these mechanisms.      *)
EXTENDS BoolFun, TLC
CONSTANTS NV,            \* variables = coordinates
          MaxNodes, MaxOps, MaxRef,
          FlushOnCollect, FlushOnQuit   \* TRUE; FALSE shows what the flushes are for
VARIABLES nd,            \* node -> [v, t, e]: variable, then- and else-edge
          ord,           \* variables, top first
          held,          \* edge -> references
          fn,            \* edge -> the function it was promised to be
          memo,          \* <<op, x, y>> -> edge
          as,            \* association -> set of variables
          n
vars == <<nd, ord, held, fn, memo, as, n>>
V == 0..NV-1
W == Words(NV)
One == <<0, FALSE>>
Zero == <<0, TRUE>>
Neg(x) == <<x[1], ~x[2]>>
Reg(x) == <<x[1], FALSE>>
Pos(o, v) == CHOOSE i \in 1..Len(o) : o[i] = v
Level(N, o, x) == IF x[1] = 0 THEN Len(o) + 1 ELSE Pos(o, N[x[1]].v)
Then(N, x, v) == IF x[1] = 0 \/ N[x[1]].v # v THEN x ELSE IF x[2] THEN Neg(N[x[1]].t) ELSE N[x[1]].t
Else(N, x, v) == IF x[1] = 0 \/ N[x[1]].v # v THEN x ELSE IF x[2] THEN Neg(N[x[1]].e) ELSE N[x[1]].e
RECURSIVE Fun(_,_)
Fun(N, x) == IF x[2] THEN NotF(Fun(N, Neg(x)))
             ELSE IF x[1] = 0 THEN OneF(W)
             ELSE IteF(CoordF(N[x[1]].v, W), Fun(N, N[x[1]].t), Fun(N, N[x[1]].e))
(* functions of all nodes, bottom up                                         *)
RECURSIVE TabR(_,_,_,_)
At(T, x) == IF x[2] THEN NotF(T[x[1]]) ELSE T[x[1]]
TabR(N, o, i, T) ==
  IF i = 0 THEN T
  ELSE LET c == CoordF(o[i], W) IN
       TabR(N, o, i - 1, [j \in {k \in DOMAIN N : N[k].v = o[i]} |-> IteF(c, At(T, N[j].t), At(T, N[j].e))] @@ T)
Tab(N, o) == TabR(N, o, Len(o), [j \in {0} |-> OneF(W)])
FreeId(N) == CHOOSE i \in 1..Cardinality(DOMAIN N) + 1 : i \notin DOMAIN N /\ \A j \in 1..i-1 : j \in DOMAIN N
(* <<store, edge>> for the node with the given variable and branches         *)
FindReg(N, v, t, e) ==
  LET H == {i \in DOMAIN N : N[i].v = v /\ N[i].t = t /\ N[i].e = e} IN
  IF H # {} THEN <<N, <<CHOOSE i \in H : TRUE, FALSE>>>>
  ELSE <<(FreeId(N) :> [v |-> v, t |-> t, e |-> e]) @@ N, <<FreeId(N), FALSE>>>>
Find(N, v, t, e) ==
  IF t = e THEN <<N, t>>
  ELSE IF t[2] THEN LET r == FindReg(N, v, Neg(t), Neg(e)) IN <<r[1], Neg(r[2])>>
  ELSE FindReg(N, v, t, e)
TopVar(N, o, x, y) == o[IF Level(N, o, x) <= Level(N, o, y) THEN Level(N, o, x) ELSE Level(N, o, y)]
(* s = <<store, memo>>; results <<store, memo, edge>>                        *)
RECURSIVE AndR(_,_,_,_), ExR(_,_,_,_)
AndR(s, o, x, y) ==
  IF x = Zero \/ y = Zero \/ x = Neg(y) THEN <<s[1], s[2], Zero>>
  ELSE IF x = One \/ x = y THEN <<s[1], s[2], y>>
  ELSE IF y = One THEN <<s[1], s[2], x>>
  ELSE IF <<"and", x, y>> \in DOMAIN s[2] THEN <<s[1], s[2], s[2][<<"and", x, y>>]>>
  ELSE LET v == TopVar(s[1], o, x, y)
           a == AndR(s, o, Then(s[1], x, v), Then(s[1], y, v))
           b == AndR(<<a[1], a[2]>>, o, Else(a[1], x, v), Else(a[1], y, v))
           r == Find(b[1], v, a[3], b[3])
       IN <<r[1], (<<"and", x, y>> :> r[2]) @@ b[2], r[2]>>
ExR(s, o, i, x) ==
  IF x[1] = 0 THEN <<s[1], s[2], x>>
  ELSE IF <<"ex", i, x>> \in DOMAIN s[2] THEN <<s[1], s[2], s[2][<<"ex", i, x>>]>>
  ELSE LET v == s[1][x[1]].v
           a == ExR(s, o, i, Then(s[1], x, v))
           b == ExR(<<a[1], a[2]>>, o, i, Else(a[1], x, v))
           r == IF v \in as[i] THEN LET c == AndR(<<b[1], b[2]>>, o, Neg(a[3]), Neg(b[3])) IN <<c[1], Neg(c[3]), c[2]>>
                ELSE LET f == Find(b[1], v, a[3], b[3]) IN <<f[1], f[2], b[2]>>
       IN <<r[1], (<<"ex", i, x>> :> r[2]) @@ r[3], r[2]>>
Ref(x) == IF Reg(x)[1] = 0 THEN held
          ELSE IF Reg(x) \in DOMAIN held THEN [held EXCEPT ![Reg(x)] = @ + 1] ELSE (Reg(x) :> 1) @@ held
Usable == {x \in DOMAIN held : held[x] > 0}
Edges == Usable \cup {Neg(x) : x \in Usable}
Promise(x, f) == IF x[1] = 0 THEN fn ELSE (Reg(x) :> (IF x[2] THEN NotF(f) ELSE f)) @@ fn
Want(x) == IF x[2] THEN NotF(fn[Neg(x)]) ELSE fn[x]
Same(x, f) == (* the promise a result must keep *)
  /\ Fun(nd', x) = f
  /\ x[1] # 0 => (Reg(x) \in DOMAIN fn => Want(x) = f)
  /\ \A y \in Edges : Want(y) = f => y = x
Result(s, f) == /\ nd' = s[1] /\ memo' = s[2] /\ held' = Ref(s[3]) /\ fn' = Promise(s[3], f)
                /\ Assert(Same(s[3], f), <<"wrong result", s[3], f>>)
                /\ UNCHANGED <<ord, as>>
Conj == \E x, y \in Edges : Result(AndR(<<nd, memo>>, ord, x, y), AndF(Want(x), Want(y)))
Ex == \E x \in Edges : \E i \in DOMAIN as : Result(ExR(<<nd, memo>>, ord, i, x), ExistsF(Want(x), as[i]))
VarEdge(x) == nd[x[1]].t = One /\ nd[x[1]].e = Zero    \* variables stay, whatever their count
Free == \E x \in Usable : /\ held[x] > 0 /\ ~VarEdge(x)
                          /\ held' = [held EXCEPT ![x] = @ - 1]
                          /\ UNCHANGED <<nd, ord, fn, memo, as>>
(* a diagram whose count is zero may be revived until the next collection    *)
Unfree == \E x \in DOMAIN held : held[x] = 0 /\ held' = [held EXCEPT ![x] = 1] /\ UNCHANGED <<nd, ord, fn, memo, as>>
RECURSIVE Below(_,_)
Below(N, S) == LET D == S \cup UNION {{N[i].t[1], N[i].e[1]} \ {0} : i \in S} IN IF D = S THEN S ELSE Below(N, D)
Live == Below(nd, {x[1] : x \in Usable})
Restrict(f, D) == [x \in D |-> f[x]]
Mentions(k) == {k[3][1], memo[k][1]} \cup (IF k[1] = "ex" THEN {} ELSE {k[2][1]})
Structure(S) == (* inner nodes that diagrams of these functions share *)
  SumSeq([i \in 1..NV |-> Cardinality(Levels(S, ord)[i])])
Collect ==
  /\ nd' = Restrict(nd, Live)
  /\ held' = Restrict(held, Usable) /\ fn' = Restrict(fn, Usable)
  /\ memo' = IF FlushOnCollect THEN Restrict(memo, {k \in DOMAIN memo : Mentions(k) \subseteq Live \cup {0}}) ELSE memo
  /\ Assert(Cardinality(Live) = Structure({fn[x] : x \in Usable}), "collection keeps all and only what is held")
  /\ UNCHANGED <<ord, as>>
(* exchange of levels i and i+1, nodes keep their identity                   *)
RECURSIVE Rewrite(_,_,_,_)
Rewrite(N, T, x, y) ==
  IF T = {} THEN N
  ELSE LET i == CHOOSE j \in T : TRUE
           t == N[i].t  e == N[i].e
           a == Find(N, x, Then(N, t, y), Then(N, e, y))
           b == Find(a[1], x, Else(a[1], t, y), Else(a[1], e, y))
       IN Rewrite([b[1] EXCEPT ![i] = [v |-> y, t |-> a[2], e |-> b[2]]], T \ {i}, x, y)
Swap ==
  \E i \in 1..NV-1 :
    LET x == ord[i] y == ord[i+1]
        T == {j \in DOMAIN nd : nd[j].v = x /\ \E c \in {nd[j].t[1], nd[j].e[1]} : c # 0 /\ nd[c].v = y}
    IN /\ nd' = Rewrite(nd, T, x, y)
       /\ ord' = [ord EXCEPT ![i] = y, ![i+1] = x]
       /\ memo' = memo          \* functions do not change: what is remembered stays right
       /\ UNCHANGED <<held, fn, as>>
(* quitting association 1 and declaring another one under the same identifier*)
Assoc == \E S \in SUBSET V : /\ S # as[1] /\ as' = [as EXCEPT ![1] = S]
                             /\ memo' = IF FlushOnQuit THEN Restrict(memo, {k \in DOMAIN memo : ~(k[1] = "ex" /\ k[2] = 1)}) ELSE memo
                             /\ UNCHANGED <<nd, ord, held, fn>>
Proj(v) == <<v + 1, FALSE>>
Init == /\ nd = [i \in 1..NV |-> [v |-> i-1, t |-> One, e |-> Zero]]
        /\ ord = [i \in 1..NV |-> i-1]
        /\ held = [x \in {Proj(v) : v \in V} |-> 1]
        /\ fn = [x \in {Proj(v) : v \in V} |-> CoordF(x[1] - 1, W)]
        /\ memo = [x \in {} |-> 0] /\ as = [i \in {1} |-> {0}] /\ n = 0
Next == n < MaxOps /\ n' = n + 1 /\ (Conj \/ Ex \/ Free \/ Unfree \/ Collect \/ Swap \/ Assoc)
Spec == Init /\ [][Next]_vars
View == <<nd, ord, held, fn, memo, as>>
Bound == Cardinality(DOMAIN nd) <= MaxNodes /\ \A x \in DOMAIN held : held[x] <= MaxRef
Ordered == \A i \in DOMAIN nd : \A c \in {nd[i].t[1], nd[i].e[1]} \ {0} : c \in DOMAIN nd /\ Pos(ord, nd[i].v) < Pos(ord, nd[c].v)
Reduced == \A i \in DOMAIN nd : nd[i].t # nd[i].e /\ ~nd[i].t[2]
Canonical == LET T == Tab(nd, ord) IN Cardinality({RegF(T[i]) : i \in DOMAIN T}) = Cardinality(DOMAIN T)
Faithful == LET T == Tab(nd, ord) IN \A x \in DOMAIN held : At(T, x) = fn[x]
Remembered == LET T == Tab(nd, ord) IN
  \A k \in DOMAIN memo : Mentions(k) \subseteq DOMAIN T =>
    IF k[1] = "and" THEN At(T, memo[k]) = AndF(At(T, k[2]), At(T, k[3]))
    ELSE At(T, memo[k]) = ExistsF(At(T, k[3]), as[k[2]])
=============================================================================
