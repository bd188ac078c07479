------------------------------ MODULE TeethMem ------------------------------
(* A test of the specification itself: every recorded event comes with       *)
(* altered versions of it (alts); those that the specification would accept  *)
(* just as well are printed.                                                 *)
EXTENDS CalMem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i = 1 /\ st = Init0
Next == /\ i <= Len(Trace)
        /\ LET e == Trace[i].e IN
           /\ IF Legal(st, e) /\ Ok(st, e) THEN TRUE ELSE PrintT(<<"REJECTED", i, e.e>>) /\ FALSE
           /\ \A j \in 1..Len(Trace[i].alts) :
                LET x == Trace[i].alts[j] IN
                /\ PrintT(<<"TRY", i, j>>)
                /\ IF Legal(st, x) /\ Ok(st, x) THEN PrintT(<<"SWALLOWED", i, j>>) ELSE TRUE
           /\ st' = After(st, e)
        /\ i' = i + 1
View == i
=============================================================================
