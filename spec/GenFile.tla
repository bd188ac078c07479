------------------------------ MODULE GenFile ------------------------------
(* Files nobody wrote, most of them almost well formed, chosen by TLC's      *)
(* simulator along the reader of CalFile; radix 256, as in the library.      *)
EXTENDS CalFile, Json, IOUtils
PF == JsonDeserialize(IOEnv.PROFILE)
VARIABLES n
Roll(x, S) == RandomElement(1..100) <= x
Ends_k(k) == used + k > MaxDigits \/ Roll(2, used)
Short(kind, k, r) ==
  CASE kind = "index" -> {IF TopF.k # "ask" THEN (IF Roll(6, used) THEN nv ELSE RandomElement(0..(IF nv = 0 THEN 0 ELSE nv - 1)))
                          ELSE IF Roll(IF Len(stack) > 5 THEN 85 ELSE 55, used) THEN Escape(nv)
                          ELSE IF Roll(4, used) THEN RandomElement({nv, Escape(nv) - 1})
                          ELSE RandomElement(0..(IF nv = 0 THEN 0 ELSE nv - 1))}
    [] kind = "code" -> {IF Roll(4, used) THEN RandomElement({7, 8, 255})
                         ELSE IF Roll(IF shared = <<>> THEN 4 ELSE 35, used) THEN RandomElement({PosNode, NegNode})
                         ELSE IF Roll(40, used) THEN Label ELSE RandomElement({True, False, PosVar, NegVar})}
    [] kind = "const" -> {RandomElement({0, 1, 255})}
    [] kind = "node" -> {IF Roll(5, used) THEN RandomElement({ns, 255}) ELSE RandomElement(0..Len(shared))}
Fresh == /\ stack' = <<[k |-> "ask", v |-> 0, t |-> <<>>, d |-> 0]>> /\ shared' = <<>> /\ val' = <<>>
         /\ nv' = RandomElement(0..N) /\ ns' = IF Roll(5, used) THEN 70000 ELSE RandomElement(0..MaxDecl)
         /\ src' = [f |-> Zero, arr |-> <<>>, rd |-> [i \in 1..N |-> i]]
         /\ st' = "read" /\ file' = <<>> /\ used' = 0
GInit == Init /\ n = 0
GNext == /\ n < PF.depth /\ n' = n + 1
         /\ IF st = "read" THEN Next
            ELSE /\ PrintT(<<"EV", n, ToJson([e |-> "forge", nv |-> nv, ns |-> IF ns < 99 /\ Roll(70, used) THEN Len(shared) ELSE ns, by |-> file, st |-> st])>>)
                 /\ Fresh
GView == n
=============================================================================
