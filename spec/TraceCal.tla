------------------------------ MODULE TraceCal ------------------------------
(* Is a recorded behaviour of the real library a behaviour of the            *)
(* specification?  One transition per event; the state space is a line.      *)
EXTENDS CalSteps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i = 1 /\ st = Init0
Next == /\ i <= Len(Trace)
        /\ LET e == Trace[i] IN
           /\ IF Legal(st, e) THEN TRUE ELSE PrintT(<<"ILLEGAL", i, e.e>>) /\ FALSE
           /\ IF Ok(st, e) THEN TRUE ELSE PrintT(<<"REJECTED", i, e.e>>) /\ FALSE
           /\ st' = After(st, e)
        /\ i' = i + 1
View == i
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"STUCK", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
