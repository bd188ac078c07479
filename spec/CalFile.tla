------------------------------ MODULE CalFile ------------------------------
(* The file format of dumped diagrams and its reader.                       *)
(* A file is a sequence of digits; a digit stands for a byte.  Every file   *)
(* starts with a header (number of array entries, number of labelled        *)
(* nodes), which fixes how many digits an index and a node number take.     *)
(* Two kinds of behaviour: the reader reads a file that was written for     *)
(* some function and array (its own array may differ), or it reads digits   *)
(* nobody chose.  Checked: what was written is read back, renamed by        *)
(* position, and to the last digit; whatever else is read ends, within the  *)
(* bounds of the reader's tables, with a function or with an error.         *)
(* With Check... or WidthPlusOne FALSE TLC finds a file that breaks this.   *)
EXTENDS BoolFun, TLC
CONSTANTS N,               \* variables, in order 1..N
          Sources,         \* "all", "symmetric": the functions written
          Orders,          \* "all", "some": the arrays
          Pads,            \* numbers of further array entries that f does not depend on
          Radix, NodeRadix,\* values of a digit in an index, in a node number
          Hostile, MaxDigits, MaxDecl,
          Keep,            \* remember the digits nobody chose
          CheckIndex, CheckNumber, CheckLabels, CheckDepth,
          ConstSize,       \* digits a constant carries, which no diagram can hold
          WidthPlusOne     \* the width leaves the escape free
VARIABLES src,             \* [f, arr, rd]: function, writer's array, reader's array
          file,            \* digits to come
          nv, ns,          \* header
          stack,           \* frames of the reader
          shared,          \* labelled nodes: 0 while being read, else <<function>>
          st,              \* "read", "ok", "error", "crash"
          val, used
vars == <<src, file, nv, ns, stack, shared, st, val, used>>

V == 1..N
W == Words(N)
Lit(v) == CoordF(v - 1, W)
C1(f, v) == Cof1(f, v - 1)
C0(f, v) == Cof0(f, v - 1)
RECURSIVE TopFrom(_, _)
TopFrom(f, v) == IF v > N THEN 0 ELSE IF C1(f, v) # C0(f, v) THEN v ELSE TopFrom(f, v + 1)
Top(f) == TopFrom(f, 1)
One == OneF(W)
Zero == ZeroF(W)
IsNode(f) == LET v == Top(f) IN v # 0 /\ (~IsConstF(C1(f, v)) \/ ~IsConstF(C0(f, v)))
(* nodes of the diagram, and how often each is met from above; a literal is no node here *)
RECURSIVE Meet(_, _)
Meet(f, seen) ==                       \* seen: node -> how often met
  IF ~IsNode(f) THEN seen
  ELSE LET g == RegF(f) IN
       IF g \in DOMAIN seen THEN [seen EXCEPT ![g] = @ + 1]
       ELSE Meet(C0(f, Top(f)), Meet(C1(f, Top(f)), seen @@ (g :> 1)))
SharedNodes(f) == LET m == Meet(f, <<>>) IN {g \in DOMAIN m : m[g] > 1}

RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
BytesNeeded(r, n) == IF n <= r THEN 1 ELSE IF n <= r*r THEN 2 ELSE IF n <= r*r*r THEN 3 ELSE 4
Digits(n, k, r) == [i \in 1..k |-> (n \div Power(r, k - i)) % r]
IndexSize(n) == BytesNeeded(Radix, IF WidthPlusOne THEN n + 1 ELSE n)
NodeSize(s) == BytesNeeded(NodeRadix, s)
(* an escape is an index with every digit the largest, then one digit: *)
True == 0 False == 1 PosVar == 2 NegVar == 3 PosNode == 4 NegNode == 5 Label == 6 Constant == 7
Escape(n) == Power(Radix, IndexSize(n)) - 1

(* --- the writer ---------------------------------------------------------- *)
Pos(arr, v) == CHOOSE i \in 1..Len(arr) : arr[i] = v
Code(n, c) == Digits(Escape(n), IndexSize(n), Radix) \o <<c>>
Index(arr, v) == Digits(Pos(arr, v) - 1, IndexSize(Len(arr)), Radix)
(* seen: the labelled functions so far, in order, with the polarity of their first visit *)
Place(seen, g) == LET P == {i \in 1..Len(seen) : RegF(seen[i]) = g} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE
RECURSIVE WriteStep(_, _, _, _)
WriteStep(f, arr, S, seen) ==
  LET n == Len(arr) IN
  IF f = One THEN <<Code(n, True), seen>>
  ELSE IF f = Zero THEN <<Code(n, False), seen>>
  ELSE IF ~IsNode(f) THEN <<Code(n, IF TopBit(f) THEN PosVar ELSE NegVar) \o Index(arr, Top(f)), seen>>
  ELSE LET i == Place(seen, RegF(f)) IN
       IF i > 0 THEN <<Code(n, IF seen[i] = f THEN PosNode ELSE NegNode) \o Digits(i - 1, NodeSize(Cardinality(S)), NodeRadix), seen>>
       ELSE LET v == Top(f)
                l == RegF(f) \in S
                t == WriteStep(C1(f, v), arr, S, IF l THEN Append(seen, f) ELSE seen)
                e == WriteStep(C0(f, v), arr, S, t[2]) IN
            <<(IF l THEN Code(n, Label) ELSE <<>>) \o Index(arr, v) \o t[1] \o e[1], e[2]>>
Written(f, arr) == WriteStep(f, arr, SharedNodes(f), <<>>)[1]

(* --- what reading back must give: the function renamed by position ------- *)
Arrays(k) == IF Orders = "all" THEN {a \in [1..k -> V] : \A i, j \in 1..k : a[i] = a[j] => i = j}
             ELSE {[i \in 1..k |-> i], [i \in 1..k |-> k + 1 - i], [i \in 1..k |-> IF i = k THEN 1 ELSE i + 1]}
Pad == N + 1                               \* an array entry for a variable f does not depend on
Padded(a, k, front) == IF front THEN [i \in 1..k |-> Pad] \o a ELSE a \o [i \in 1..k |-> Pad]
Renamed(f, arr, rd) == LET K == {i \in 1..Len(arr) : arr[i] \in V} IN
                      SubstF(f, [k \in {arr[i] - 1 : i \in K} |-> Lit(rd[CHOOSE i \in K : arr[i] = k + 1])])
RECURSIVE Count(_, _, _)
Count(C, v, c) == IF v > N THEN (IF c \in C THEN One ELSE Zero) ELSE IteF(Lit(v), Count(C, v + 1, c + 1), Count(C, v + 1, c))
Repeated(x) == CASE N = 2 -> <<x * 4369>> [] N = 3 -> <<x * 257>> [] N = 4 -> <<x>>
Functions == IF Sources = "all" THEN {Repeated(x) : x \in 0..(Power(2, Power(2, N)) - 1)} ELSE {Count(C, 1, 0) : C \in SUBSET (0..N)}

Init == /\ stack = <<[k |-> "ask", v |-> 0, t |-> <<>>, d |-> 0]>> /\ shared = <<>> /\ val = <<>>
        /\ IF Hostile
           THEN /\ nv \in 0..N /\ ns \in 0..MaxDecl
                /\ src = [f |-> Zero, arr |-> <<>>, rd |-> [i \in 1..nv |-> i]]
                /\ st = "read"
           ELSE \E f \in Functions : \E a \in Arrays(N), b \in Arrays(N) : \E k \in Pads : \E front \in BOOLEAN :
                  /\ b = [i \in 1..N |-> i] \/ a = b
                  /\ k = 0 => front
                  /\ src = [f |-> f, arr |-> Padded(a, k, front), rd |-> Padded(b, k, front)]
                  /\ nv = N + k /\ ns = 0 /\ st = "write"
        /\ file = <<>> /\ used = 0
Write == /\ st = "write" /\ st' = "read"
         /\ ns' = Cardinality(SharedNodes(src.f))
         /\ file' = Written(src.f, src.arr)
         /\ UNCHANGED <<src, nv, stack, shared, val, used>>
Bound == 2*nv + 1
(* --- the reader ----------------------------------------------------------- *)
(* the next k digits, of radix r: the file's, or any *)
MayEnd(k) == TRUE
Choices(kind, k, r) == 0..(Power(r, k) - 1)
Next_k(kind, k, r, Use(_, _)) ==
  IF Hostile
  THEN \/ MayEnd(k) /\ Use("eof", 0) /\ UNCHANGED <<file, used>>
       \/ \E x \in Choices(kind, k, r) :
            /\ used + k <= MaxDigits
            /\ Use("n", x)
            /\ file' = IF Keep THEN file \o Digits(x, k, r) ELSE file
            /\ used' = used + k
  ELSE IF Len(file) < k THEN Use("eof", 0) /\ UNCHANGED <<file, used>>
       ELSE LET F[i \in 0..k] == IF i = 0 THEN 0 ELSE F[i-1] * r + file[i] IN
            Use("n", F[k]) /\ file' = SubSeq(file, k + 1, Len(file)) /\ UNCHANGED used
TopF == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Fail(x) == st' = x /\ UNCHANGED <<stack, shared, val>>
Goto(s) == st' = "read" /\ stack' = s /\ UNCHANGED <<shared, val>>
(* value g is what the topmost question yields: hand it to the frames above *)
RECURSIVE Give(_, _, _)
Give(s, sh, g) ==
  IF s = <<>> THEN [stack |-> <<>>, shared |-> sh, st |-> IF Len(sh) = ns THEN "ok" ELSE "error", val |-> g]
  ELSE LET F == s[Len(s)] R == SubSeq(s, 1, Len(s) - 1) IN
       CASE F.k = "then" -> [stack |-> R \o <<[F EXCEPT !.k = "else", !.t = g], [k |-> "ask", v |-> 0, t |-> <<>>, d |-> F.d + 1]>>,
                             shared |-> sh, st |-> "read", val |-> <<>>]
         [] F.k = "else" -> Give(R, sh, IteF(IF F.v \in V THEN Lit(F.v) ELSE Zero, F.t, g))
         [] F.k = "label" -> Give(R, IF F.v <= Len(sh) THEN [sh EXCEPT ![F.v] = <<g>>] ELSE sh, g)
Yield(g) == LET r == Give(Rest, shared, g) IN stack' = r.stack /\ shared' = r.shared /\ st' = r.st /\ val' = r.val
Asking(k) == st = "read" /\ stack # <<>> /\ TopF.k = k
To(k) == Rest \o <<[TopF EXCEPT !.k = k]>>
Ask == /\ Asking("ask")
       /\ Next_k("index", IndexSize(nv), Radix, LAMBDA w, x :
            IF w = "eof" THEN Fail("error")
            ELSE IF TopF.d > Bound /\ CheckDepth THEN Fail("error")
            ELSE IF x = Escape(nv) THEN Goto(To("code"))
            ELSE IF x >= nv THEN IF CheckIndex THEN Fail("error") ELSE Fail("crash")
            ELSE Goto(Rest \o <<[TopF EXCEPT !.k = "then", !.v = src.rd[x + 1]], [k |-> "ask", v |-> 0, t |-> <<>>, d |-> TopF.d + 1]>>))
CodeStep == /\ Asking("code")
            /\ Next_k("code", 1, 8, LAMBDA w, x :
                 IF w = "eof" THEN Fail("error")
                 ELSE CASE x = True -> Yield(One)
                        [] x = False -> Yield(Zero)
                        [] x = PosVar -> Goto(To("pos"))
                        [] x = NegVar -> Goto(To("neg"))
                        [] x = PosNode -> Goto(To("posn"))
                        [] x = NegNode -> Goto(To("negn"))
                        [] x = Label -> IF Len(shared) >= ns
                                        THEN IF CheckLabels THEN Fail("error") ELSE Fail("crash")
                                        ELSE /\ st' = "read" /\ shared' = Append(shared, <<>>)
                                             /\ stack' = Rest \o <<[TopF EXCEPT !.k = "label", !.v = Len(shared) + 1],
                                                                   [k |-> "ask", v |-> 0, t |-> <<>>, d |-> TopF.d + 1]>>
                                             /\ UNCHANGED val
                        [] x = Constant -> Goto(Rest \o <<[TopF EXCEPT !.k = "const", !.v = ConstSize]>>)
                        [] OTHER -> Fail("error"))
Skip == /\ Asking("const")
        /\ Next_k("const", 1, Radix, LAMBDA w, x :
             IF w = "eof" \/ TopF.v = 1 THEN Fail("error") ELSE Goto(Rest \o <<[TopF EXCEPT !.v = @ - 1]>>))
Literal == /\ st = "read" /\ stack # <<>> /\ TopF.k \in {"pos", "neg"}
           /\ Next_k("index", IndexSize(nv), Radix, LAMBDA w, x :
                IF w = "eof" THEN Fail("error")
                ELSE IF x >= nv THEN IF CheckIndex THEN Fail("error") ELSE Fail("crash")
                ELSE LET g == IF src.rd[x + 1] \in V THEN Lit(src.rd[x + 1]) ELSE Zero IN
                     Yield(IF TopF.k = "pos" THEN g ELSE NotF(g)))
Node == /\ st = "read" /\ stack # <<>> /\ TopF.k \in {"posn", "negn"}
        /\ Next_k("node", NodeSize(ns), NodeRadix, LAMBDA w, x :
             IF w = "eof" THEN Fail("error")
             ELSE IF x >= Len(shared) \/ (x < Len(shared) /\ shared[x + 1] = <<>>)
             THEN IF CheckNumber THEN Fail("error") ELSE Fail("crash")
             ELSE Yield(IF TopF.k = "posn" THEN shared[x + 1][1] ELSE NotF(shared[x + 1][1])))
Next == Write \/ ((Ask \/ CodeStep \/ Skip \/ Literal \/ Node) /\ UNCHANGED <<src, nv, ns>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == IF Hostile THEN <<nv, ns, stack, shared, st, val, used>> ELSE <<src, file, nv, ns, stack, shared, st, val, used>>

(* --- what holds ------------------------------------------------------------ *)
NoCrash == st # "crash"
Bounded == Len(stack) <= Bound + 2
LabelsFit == Len(shared) <= ns
(* what was written is read back, all of it, with as many labels as declared *)
RoundTrip == ~Hostile => /\ st # "error"
                         /\ st = "ok" => /\ val = Renamed(src.f, src.arr, src.rd)
                                         /\ file = <<>> /\ Len(shared) = ns
(* a function comes only from a file whose labels are all done *)
Complete == st = "ok" => Len(shared) = ns /\ \A i \in 1..Len(shared) : shared[i] # <<>>
Ends == <>(st \in {"ok", "error", "crash"})
=============================================================================
