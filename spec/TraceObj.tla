------------------------------ MODULE TraceObj ------------------------------
(* Is a recorded history of wrapper statements a behaviour of CalObj?        *)
EXTENDS CalObj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i = 1 /\ st = Init0
Next == /\ i <= Len(Trace)
        /\ LET e == Trace[i] IN
           /\ IF XLegal(st, e) THEN TRUE ELSE PrintT(<<"ILLEGAL", i, e.e>>) /\ FALSE
           /\ IF XOk(st, e) THEN TRUE ELSE PrintT(<<"REJECTED", i, e.e>>) /\ FALSE
           /\ st' = XAfter(st, e)
        /\ i' = i + 1
View == i
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"STUCK", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
=============================================================================
