------------------------------ MODULE CalBuddy ------------------------------
(* The algorithm behind the block allocator: segments obtained from the      *)
(* system, cut into pieces of 2^i units, split on demand, merged with their  *)
(* buddies when freed.  Every piece starts with a header of one unit.        *)
(* Model-checked as a refinement of CalMem: every step of the algorithm is   *)
(* an event CalMem accepts, so its rules demand no more than the algorithm   *)
(* gives, and the structural invariants below show why they hold.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MinAlloc,      \* a segment grows by at least 2^MinAlloc units
          MaxTotal,      \* units the model may take from the system
          Ids,           \* names of blocks
          Sizes,         \* sizes asked for
          MaxOps
M == INSTANCE CalMem
VARIABLES seg,           \* sequence of [base, limit]
          pc,            \* pieces: [s: segment, o: offset in it, i: size index, used]
          at,            \* name of a live block -> its piece
          brk,           \* units taken from the system, by us or by others
          own,           \* units taken by us
          abs,           \* the CalMem state that the events so far lead to
          ev, n
vars == <<seg, pc, at, brk, own, abs, ev, n>>
CONSTANT NoBlock
Pow(i) == 2^i
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE CLog(_,_)
CLog(x, i) == IF Pow(i) >= x THEN i ELSE CLog(x, i + 1)
Index(size) == CLog(size + 1, 0)
RECURSIVE Pieces(_,_,_)
RECURSIVE LowBit(_,_)
LowBit(x, i) == IF x % 2 = 1 THEN i ELSE LowBit(x \div 2, i + 1)
Pieces(s, limit, size) ==                       \* carve: lowest set bit of what is left first
  IF size = 0 THEN {} ELSE LET i == LowBit(size, 0) IN {[s |-> s, o |-> limit, i |-> i, used |-> FALSE]} \cup Pieces(s, limit + Pow(i), size - Pow(i))
Xor(a, i) == IF (a \div Pow(i)) % 2 = 0 THEN a + Pow(i) ELSE a - Pow(i)
BuddyOff(b) == Xor(b.o, b.i)
BuddyOf(P, b) == {c \in P : c.s = b.s /\ c.o = BuddyOff(b)}
FreeBuddy(P, b) == {c \in BuddyOf(P, b) : ~c.used /\ c.i = b.i}
RECURSIVE Trim(_,_,_)
Trim(P, b, i) == (* <<pieces, the piece>> *)
  IF b.i <= i THEN <<P \cup {b}, b>>
  ELSE LET h == [b EXCEPT !.i = b.i - 1] IN Trim(P \cup {[s |-> b.s, o |-> BuddyOff(h), i |-> h.i, used |-> FALSE]}, h, i)
RECURSIVE Merge(_,_)
Merge(P, b) ==
  LET B == FreeBuddy(P, b) IN
  IF B = {} THEN P \cup {[b EXCEPT !.used = FALSE]}
  ELSE LET c == CHOOSE c \in B : TRUE IN
       Merge(P \ {c}, [s |-> b.s, o |-> (IF c.o < b.o THEN c.o ELSE b.o), i |-> b.i + 1, used |-> TRUE])
RECURSIVE Grow(_,_,_)
Grow(P, b, i) == (* add free buddies at higher addresses *)
  IF b.i >= i THEN <<P, b>>
  ELSE LET B == {c \in FreeBuddy(P, b) : c.o > b.o} IN
       IF B = {} THEN <<P, b>> ELSE Grow(P \ B, [b EXCEPT !.i = @ + 1], i)
(* more memory for a piece of index i: <<segments, pieces, brk, own>>        *)
More(P, i) ==
  LET ai == Max(i, MinAlloc)
      a == Pow(ai)
      c == Len(seg)
      pad == IF c = 0 THEN 0 ELSE ((seg[c].limit + a - 1) \div a) * a - seg[c].limit
  IN IF c > 0 /\ seg[c].base + seg[c].limit = brk
     THEN <<[seg EXCEPT ![c].limit = @ + a + pad], P \cup Pieces(c, seg[c].limit, a + pad), brk + a + pad, own + a + pad>>
     ELSE <<Append(seg, [base |-> brk + 1, limit |-> a]), P \cup Pieces(c + 1, 0, a), brk + a + 1, own + a + 1>>
FreeFit(P, i) == {b \in P : ~b.used /\ b.i >= i}
Smallest(F) == {b \in F : \A c \in F : b.i <= c.i}
(* every way to serve a request of index i out of P: sets of                 *)
(* <<segments, pieces, brk, own, piece>>                                     *)
Serve(P, i) ==
  LET w == IF FreeFit(P, i) = {} THEN More(P, i) ELSE <<seg, P, brk, own>> IN
  {LET t == Trim(w[2] \ {b}, [b EXCEPT !.used = TRUE], i) IN <<w[1], t[1], w[3], w[4], t[2]>> : b \in Smallest(FreeFit(w[2], i))}
AddrIn(S, b) == S[b.s].base + b.o + 1
Event(e) == /\ ev' = e
            /\ Assert(M!Legal(abs, e) /\ M!Ok(abs, e), <<"CalMem rejects", e, abs>>)
            /\ abs' = M!After(abs, e)
            /\ n' = n + 1
Init == /\ seg = <<>> /\ pc = {} /\ at = [x \in Ids |-> NoBlock] /\ brk = 0 /\ own = 0
        /\ abs = [M!Init0 EXCEPT !.h = 1] /\ ev = [e |-> "reset"] /\ n = 0
Set(w) == /\ seg' = w[1] /\ pc' = w[2] /\ brk' = w[3] /\ own' = w[4]
          /\ w[3] <= MaxTotal
Get(x, size) ==
  /\ at[x] = NoBlock
  /\ \E w \in Serve(pc, Index(size)) :
       /\ Set(w) /\ at' = [at EXCEPT ![x] = w[5]]
       /\ Event([e |-> "mget", id |-> x, n |-> size, nul |-> 0, al |-> 0, bad |-> <<>>, tot |-> w[4], ad |-> <<0, AddrIn(w[1], w[5])>>])
Free(x) ==
  /\ at[x] # NoBlock
  /\ pc' = Merge(pc \ {at[x]}, at[x]) /\ at' = [at EXCEPT ![x] = NoBlock]
  /\ UNCHANGED <<seg, brk, own>>
  /\ Event([e |-> "mfree", id |-> x, bad |-> <<>>, tot |-> own])
ResizeEv(x, size, w, b) == [e |-> "mresize", id |-> x, n |-> size, nul |-> 0, al |-> 0, kept |-> 1, bad |-> <<>>, tot |-> w[4], ad |-> <<0, AddrIn(w[1], b)>>]
Resize(x, size) ==
  /\ at[x] # NoBlock
  /\ LET b == at[x] i == Index(size) IN
     IF b.i >= i
     THEN LET t == Trim(pc \ {b}, b, i) w == <<seg, t[1], brk, own>> IN
          Set(w) /\ at' = [at EXCEPT ![x] = t[2]] /\ Event(ResizeEv(x, size, w, t[2]))
     ELSE LET g == Grow(pc \ {b}, b, i) IN
          IF g[2].i >= i
          THEN LET w == <<seg, g[1] \cup {g[2]}, brk, own>> IN Set(w) /\ at' = [at EXCEPT ![x] = g[2]] /\ Event(ResizeEv(x, size, w, g[2]))
          ELSE \E w \in Serve(g[1] \cup {g[2]}, i) :
                 LET v == <<w[1], Merge(w[2] \ {g[2]}, g[2]), w[3], w[4]>> IN
                 Set(v) /\ at' = [at EXCEPT ![x] = w[5]] /\ Event(ResizeEv(x, size, w, w[5]))
Others == (* somebody else takes memory from the system *)
  /\ brk' = brk + 1 /\ brk' <= MaxTotal
  /\ UNCHANGED <<seg, pc, at, own>>
  /\ Event([e |-> "mnop", n |-> 0, bad |-> <<>>, tot |-> own])
Next == /\ n < MaxOps
        /\ \/ \E x \in Ids : Free(x) \/ \E size \in Sizes : Get(x, size) \/ Resize(x, size)
           \/ Others
Spec == Init /\ [][Next]_vars
View == <<seg, pc, at, brk, own, abs>>
Units(b) == {<<b.s, u>> : u \in b.o..b.o + Pow(b.i) - 1}
Tiling ==    \* the pieces cover every segment exactly
  /\ \A b, c \in pc : b # c => Units(b) \cap Units(c) = {}
  /\ UNION {Units(b) : b \in pc} = UNION {{<<s, u>> : u \in 0..seg[s].limit - 1} : s \in 1..Len(seg)}
Aligned == \A b \in pc : b.o % Pow(b.i) = 0
Merged ==    \* no two free buddies stay apart, except where growth put them side by side
  \A b \in pc : ~b.used => \A c \in FreeBuddy(pc, b) : FALSE
Known == {at[x] : x \in Ids} \ {NoBlock} = {b \in pc : b.used}
Segments == \A s, t \in 1..Len(seg) : s < t => seg[s].base + seg[s].limit <= seg[t].base
=============================================================================
