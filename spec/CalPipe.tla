------------------------------- MODULE CalPipe -------------------------------
(* The algorithm behind pipelined operations: requests wait in levels, whole  *)
(* groups of levels are executed, and between two groups nodes may be         *)
(* collected or moved.  Nodes are places holding a value; two values are     *)
(* combined by Op.  Checked: every executed request yields what was promised *)
(* when it was made, nothing that is still needed is given away, and after   *)
(* the pipeline is quit a collection leaves what is held, no more.           *)
(* The three constants say what keeps that true; with any of them FALSE TLC  *)
(* finds a history in which a promise is broken or a node is lost.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Places, Values, Slots, MaxReq, MaxOps,
          LockResults,       \* results are referenced until the pipeline is quit
          FixPending,        \* operands of waiting requests follow moved nodes
          FixExecuted        \* results not yet taken follow moved nodes
VARIABLES mem,               \* place -> value, 0: empty
          ref,               \* place -> references by the user and by locks
          held,              \* slot -> place, 0: empty
          want,              \* slot -> value it was promised to be
          req,               \* requests [a, b, dep, res, want]; an operand is [k, x]
          done,              \* levels executed
          st, n
vars == <<mem, ref, held, want, req, done, st, n>>
Op(x, y) == ((x + y) % Cardinality(Values)) + 1          \* not idempotent: a lost level shows
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Empty == {p \in Places : mem[p] = 0}
Find(m, v) == LET S == {p \in Places : m[p] = v} IN IF S # {} THEN Min(S) ELSE LET F == {p \in Places : m[p] = 0} IN IF F = {} THEN 0 ELSE Min(F)
MaxDep == LET D == {req[i].dep : i \in 1..Len(req)} IN IF D = {} THEN -1 ELSE CHOOSE x \in D : \A y \in D : y <= x
Waiting(i) == req[i].dep >= done
InUse(p) == \E i \in 1..Len(req) : Waiting(i) /\ \E o \in {req[i].a, req[i].b} : o.k = "u" /\ o.x = p

Init == /\ mem = [p \in Places |-> 0] /\ ref = [p \in Places |-> 0]
        /\ held = [s \in Slots |-> 0] /\ want = [s \in Slots |-> 0]
        /\ req = <<>> /\ done = 0 /\ st = "ready" /\ n = 0
Hold(s, p, v) == /\ held' = [held EXCEPT ![s] = p] /\ want' = [want EXCEPT ![s] = v]
Take(s, v) == /\ held[s] = 0
              /\ LET p == Find(mem, v) IN p # 0 /\ mem' = [mem EXCEPT ![p] = v] /\ ref' = [ref EXCEPT ![p] = @ + 1] /\ Hold(s, p, v)
              /\ UNCHANGED <<req, done, st>>
Drop(s) == /\ held[s] # 0
           /\ ref[held[s]] > 1 \/ ~InUse(held[s])          \* the contract: operands stay held until executed
           /\ ref' = [ref EXCEPT ![held[s]] = @ - 1]
           /\ Hold(s, 0, 0) /\ UNCHANGED <<mem, req, done, st>>
Start == st = "ready" /\ st' = "create" /\ req' = <<>> /\ done' = 0 /\ UNCHANGED <<mem, ref, held, want>>
Operands == {[k |-> "u", x |-> held[s], v |-> want[s], d |-> -1] : s \in {t \in Slots : held[t] # 0}}
            \cup {[k |-> "p", x |-> i, v |-> req[i].want, d |-> req[i].dep] : i \in 1..Len(req)}
Create == /\ st = "create" /\ done = 0 /\ Len(req) < MaxReq
          /\ \E a, b \in Operands :
               req' = Append(req, [a |-> [k |-> a.k, x |-> a.x], b |-> [k |-> b.k, x |-> b.x], res |-> 0,
                                   dep |-> (IF a.d > b.d THEN a.d ELSE b.d) + 1, want |-> Op(a.v, b.v)])
          /\ UNCHANGED <<mem, ref, held, want, done, st>>
Value(m, r, o) == IF o.k = "u" THEN m[o.x] ELSE IF r[o.x].res = 0 THEN 0 ELSE m[r[o.x].res]
(* one group of d levels, level after level *)
RECURSIVE Run(_,_,_,_)
Run(m, rf, r, todo) ==                 \* todo: set of requests to execute, shallow ones first
  IF todo = {} THEN <<m, rf, r>>
  ELSE LET i == CHOOSE x \in todo : \A y \in todo : r[x].dep < r[y].dep \/ (r[x].dep = r[y].dep /\ x <= y)
           v == IF Value(m, r, r[i].a) = 0 \/ Value(m, r, r[i].b) = 0 THEN 0 ELSE Op(Value(m, r, r[i].a), Value(m, r, r[i].b))
           p == Find(m, v) IN
       IF v = 0 \/ p = 0 THEN <<m, rf, [r EXCEPT ![i].res = -1]>>          \* a lost operand, or no room in the model
       ELSE Run([m EXCEPT ![p] = v], [rf EXCEPT ![p] = @ + IF LockResults THEN 1 ELSE 0], [r EXCEPT ![i].res = p], todo \ {i})
Room == Cardinality(Empty) >= Len(req)
Group(d) == /\ st = "create" /\ req # <<>> /\ done <= MaxDep /\ Room
            /\ LET x == Run(mem, ref, req, {i \in 1..Len(req) : req[i].dep >= done /\ req[i].dep < done + d}) IN
               /\ mem' = x[1] /\ ref' = x[2] /\ req' = x[3]
            /\ done' = done + d
            /\ st' = IF done + d > MaxDep THEN "update" ELSE "create"
            /\ UNCHANGED <<held, want>>
Update(s, i) == /\ st = "update" /\ held[s] = 0
                /\ ref' = [ref EXCEPT ![req[i].res] = @ + 1]
                /\ Hold(s, req[i].res, req[i].want) /\ UNCHANGED <<mem, req, done, st>>
Locks(p) == IF LockResults THEN Cardinality({i \in 1..Len(req) : req[i].res = p}) ELSE 0
Stop == /\ st \in {"create", "update"} /\ st' = "ready"
        /\ ref' = [p \in Places |-> ref[p] - Locks(p)]
        /\ req' = <<>> /\ done' = 0 /\ UNCHANGED <<mem, held, want>>
Collect == /\ mem' = [p \in Places |-> IF ref[p] = 0 THEN 0 ELSE mem[p]]
           /\ mem' # mem /\ UNCHANGED <<ref, held, want, req, done, st>>
To(p, q, x) == IF x = p THEN q ELSE x
MoveOp(p, q, o) == IF o.k = "u" THEN [o EXCEPT !.x = To(p, q, @)] ELSE o
Move == \E p \in Places \ Empty : \E q \in Empty :
          /\ ref[p] > 0
          /\ mem' = [mem EXCEPT ![q] = mem[p], ![p] = 0]
          /\ ref' = [ref EXCEPT ![q] = ref[p], ![p] = 0]
          /\ held' = [s \in Slots |-> To(p, q, held[s])]
          /\ req' = [i \in 1..Len(req) |-> LET r == req[i] IN
                       IF Waiting(i) THEN IF FixPending THEN [r EXCEPT !.a = MoveOp(p, q, @), !.b = MoveOp(p, q, @)] ELSE r
                       ELSE IF FixExecuted THEN [r EXCEPT !.res = To(p, q, @)] ELSE r]
          /\ UNCHANGED <<want, done, st>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E s \in Slots, v \in Values : Take(s, v)
           \/ \E s \in Slots : Drop(s)
           \/ Start \/ Create \/ \E d \in 1..2 : Group(d)
           \/ \E s \in Slots : \E i \in 1..Len(req) : Update(s, i)
           \/ Stop \/ Collect \/ Move
View == <<mem, ref, held, want, req, done, st, n>>
(* --- what holds ---------------------------------------------------------- *)
HeldKept == \A s \in Slots : held[s] # 0 => mem[held[s]] = want[s]
Promises == \A i \in 1..Len(req) : ~Waiting(i) => req[i].res > 0 /\ mem[req[i].res] = req[i].want
Canonical == \A p, q \in Places : mem[p] # 0 /\ mem[p] = mem[q] => p = q
Counts == \A p \in Places : ref[p] = Cardinality({s \in Slots : held[s] = p}) + Locks(p)
=============================================================================
