------------------------------- MODULE CalMem -------------------------------
(* The block and record allocator, as its callers see it.  Addresses are     *)
(* offsets <<hi, lo>> = 65536*hi + lo from the first address ever returned.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoMap == [x \in {} |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Restrict(f, D) == [x \in D |-> f[x]]
Init0 ==
  [ bl |-> NoMap,    \* live blocks: [a, n]
    rm |-> NoMap,    \* record managers: the most records each ever had live
    rc |-> NoMap,    \* live records: [a, n, mg]
    tot |-> 0,       \* memory obtained from the system, in KB
    fr |-> {},       \* freed blocks <<a, n>> of which nothing can have been handed out since
    h |-> 64,        \* no more than this precedes a block
    top |-> 0 ]      \* largest block ever served
Chk(what, ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", what>>) /\ FALSE
ChkV(what, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", what, "got", got, "want", want>>) /\ FALSE
Addr(e) == e.ad[1] * 65536 + e.ad[2]
Regions(s) == {<<s.bl[b].a, s.bl[b].n>> : b \in DOMAIN s.bl} \cup {<<s.rc[r].a, s.rc[r].n>> : r \in DOMAIN s.rc}
Apart(a, n, R) == \A r \in R : a + n <= r[1] \/ r[1] + r[2] <= a
Idle(s) == s.bl = NoMap /\ s.rm = NoMap
(* memory that is known to be free serves the request *)
Serves(s, n) == (\E r \in s.fr : n <= r[2]) \/ (Idle(s) /\ n <= s.top)
(* a block of n bytes at a lies in a piece of less than twice its size       *)
Left(s, a, n) == {r \in s.fr : r[1] + r[2] + s.h <= a \/ a + 2 * (n + s.h) <= r[1]}
Live(s, g) == Cardinality({r \in DOMAIN s.rc : s.rc[r].mg = g})
Drop(s, b) == [s EXCEPT !.bl = Restrict(@, DOMAIN @ \ {b})]

Legal(s, e) ==
  CASE e.e = "mget" -> e.id \notin DOMAIN s.bl
    [] e.e = "mfree" -> e.id \in DOMAIN s.bl
    [] e.e = "rnewmgr" -> e.id \notin DOMAIN s.rm
    [] e.e = "rfreemgr" -> e.id \in DOMAIN s.rm
    [] e.e = "rnew" -> e.mg \in DOMAIN s.rm /\ e.id \notin DOMAIN s.rc
    [] e.e = "rdel" -> e.id \in DOMAIN s.rc
    [] OTHER -> TRUE
Handed(s, e, R) == (* a block of e.n bytes handed out beside the regions R *)
  /\ ChkV("alignment", e.al, 0)
  /\ Chk("live memory is not handed out again", Apart(Addr(e), e.n, R))
Ok(s, e) ==
  IF e.e = "reset" THEN TRUE
  ELSE IF e.e = "crash" THEN Chk(<<"call returns", e.why>>, FALSE)
  ELSE
  /\ ChkV("contents of live memory", e.bad, <<>>)
  /\ Chk("memory is never given back", e.tot >= s.tot)
  /\ CASE e.e = "mget" -> IF e.n = 0 THEN ChkV("empty request", e.nul, 1)
                          ELSE /\ ChkV("request is served", e.nul, 0)
                               /\ Handed(s, e, Regions(s))
                               /\ Serves(s, e.n) => ChkV("freed memory serves later requests", e.tot, s.tot)
       [] e.e = "mresize" ->
             IF e.n = 0 THEN ChkV("resizing to nothing frees", e.nul, 1)
             ELSE /\ ChkV("request is served", e.nul, 0)
                  /\ Handed(s, e, Regions(Drop(s, e.id)))
                  /\ ChkV("contents up to the smaller size", e.kept, 1)
                  /\ (e.id \in DOMAIN s.bl /\ e.n <= s.bl[e.id].n) => ChkV("shrinking needs no memory", e.tot, s.tot)
                  /\ Serves(s, e.n) => ChkV("freed memory serves later requests", e.tot, s.tot)
       [] e.e = "rnew" -> /\ ChkV("request is served", e.nul, 0)
                          /\ Handed(s, e, Regions(s))
                          /\ Live(s, e.mg) < s.rm[e.mg] => ChkV("a freed record serves the next request", e.tot, s.tot)
       [] e.e \in {"mfree", "rdel", "rfreemgr", "mnop"} -> ChkV("freeing needs no memory", e.tot, s.tot)
       [] OTHER -> TRUE
After(s0, e) ==
  IF e.e = "reset" THEN s0
  ELSE LET s == [s0 EXCEPT !.tot = e.tot] IN
  CASE e.e = "mget" -> IF e.nul = 1 THEN s
                       ELSE [s EXCEPT !.bl = (e.id :> [a |-> Addr(e), n |-> e.n]) @@ @, !.fr = Left(s, Addr(e), e.n), !.top = Max(@, e.n)]
    [] e.e = "mfree" -> [Drop(s, e.id) EXCEPT !.fr = @ \cup {<<s.bl[e.id].a, s.bl[e.id].n>>}]
    [] e.e = "mresize" ->
          LET old == IF e.id \in DOMAIN s.bl THEN {<<s.bl[e.id].a, s.bl[e.id].n>>} ELSE {} IN
          IF e.nul = 1 THEN [Drop(s, e.id) EXCEPT !.fr = @ \cup old]
          ELSE [s EXCEPT !.bl = (e.id :> [a |-> Addr(e), n |-> e.n]) @@ @, !.top = Max(@, e.n),
                         !.fr = Left(s, Addr(e), e.n) \cup {r \in old : r[1] # Addr(e)}]
    [] e.e = "rnewmgr" -> [s EXCEPT !.rm = (e.id :> 0) @@ @, !.fr = {}]
    [] e.e = "rfreemgr" -> [s EXCEPT !.rm = Restrict(@, DOMAIN @ \ {e.id}), !.rc = Restrict(@, {r \in DOMAIN @ : @[r].mg # e.id})]
    [] e.e = "rnew" -> [s EXCEPT !.rc = (e.id :> [a |-> Addr(e), n |-> e.n, mg |-> e.mg]) @@ @, !.rm[e.mg] = Max(@, Live(s, e.mg) + 1),
                                !.fr = IF Live(s, e.mg) < s.rm[e.mg] THEN @ ELSE {}]
    [] e.e = "rdel" -> [s EXCEPT !.rc = Restrict(@, DOMAIN @ \ {e.id})]
    [] OTHER -> s
=============================================================================
