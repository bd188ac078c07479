------------------------------- MODULE GenMem -------------------------------
(* Histories of the allocator, chosen by TLC's simulator.                    *)
EXTENDS CalMem, Json, IOUtils, Randomization
PF == JsonDeserialize(IOEnv.PROFILE)
VARIABLES n, s, k
Kinds == PF.kinds
Size(x) == RandomElement({PF.sizes[i] : i \in 1..Len(PF.sizes)})
RecSize(x) == RandomElement({PF.recs[i] : i \in 1..Len(PF.recs)})
One(S) == RandomElement(S)
Ev(kind, id) ==
  CASE kind = "get"    -> [e |-> "mget", id |-> id, n |-> Size(id), nul |-> 0]
    [] kind = "free"   -> IF s.bl = NoMap THEN [e |-> "skip"] ELSE [e |-> "mfree", id |-> One(DOMAIN s.bl)]
    [] kind = "resize" -> IF s.bl = NoMap THEN [e |-> "skip"] ELSE [e |-> "mresize", id |-> One(DOMAIN s.bl), n |-> Size(id), nul |-> 0]
    [] kind = "fresh"  -> [e |-> "mresize", id |-> id, n |-> Size(id), nul |-> 0]
    [] kind = "nop"    -> [e |-> "mnop", n |-> 0]
    [] kind = "core"   -> [e |-> "mnop", n |-> One({8, 24, 4096, 100000})]
    [] kind = "newmgr" -> IF Cardinality(DOMAIN s.rm) > 4 THEN [e |-> "skip"] ELSE [e |-> "rnewmgr", id |-> id, n |-> RecSize(id)]
    [] kind = "freemgr" -> IF s.rm = NoMap THEN [e |-> "skip"] ELSE [e |-> "rfreemgr", id |-> One(DOMAIN s.rm)]
    [] kind = "new"    -> IF s.rm = NoMap THEN [e |-> "skip"] ELSE [e |-> "rnew", id |-> id, mg |-> One(DOMAIN s.rm)]
    [] kind = "del"    -> IF s.rc = NoMap THEN [e |-> "skip"] ELSE [e |-> "rdel", id |-> One(DOMAIN s.rc)]
Shape(e) == (* the generator's idea of the state: addresses play no role *)
  CASE e.e = "mget" -> IF e.n = 0 THEN s ELSE [s EXCEPT !.bl = (e.id :> [a |-> 0, n |-> e.n]) @@ @]
    [] e.e = "mfree" -> Drop(s, e.id)
    [] e.e = "mresize" -> IF e.n = 0 THEN Drop(s, e.id) ELSE [s EXCEPT !.bl = (e.id :> [a |-> 0, n |-> e.n]) @@ @]
    [] e.e = "rnewmgr" -> [s EXCEPT !.rm = (e.id :> e.n) @@ @]
    [] e.e = "rfreemgr" -> [s EXCEPT !.rm = Restrict(@, DOMAIN @ \ {e.id}), !.rc = Restrict(@, {r \in DOMAIN @ : @[r].mg # e.id})]
    [] e.e = "rnew" -> [s EXCEPT !.rc = (e.id :> [a |-> 0, n |-> 0, mg |-> e.mg]) @@ @]
    [] e.e = "rdel" -> [s EXCEPT !.rc = Restrict(@, DOMAIN @ \ {e.id})]
    [] OTHER -> s
View == n
Init == n = 0 /\ s = Init0 /\ k = 1
Next == /\ n < PF.depth
        /\ \E kind \in {Kinds[RandomElement(1..Len(Kinds))]} :
           \E e \in {Ev(kind, k)} :
             /\ IF e.e = "skip" THEN TRUE ELSE PrintT(<<"EV", n, ToJson(e)>>)
             /\ s' = Shape(e)
             /\ k' = k + 1
        /\ n' = n + 1
=============================================================================
