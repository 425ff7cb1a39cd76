------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Several encoders and decoders at work, with buffers of a common pool.   *)
(*                                                                         *)
(* An operation of an instance takes a buffer, fills it, copies its result *)
(* out and gives the buffer back; other instances may run between these    *)
(* steps (unless Atomic: all of them in one goroutine).  Results belong to *)
(* the caller: no later step changes them, and they are a function of the  *)
(* operations of their own instance alone.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs, Ops, Buffers, Atomic

VARIABLES pc, sched, free, held, content, results
vars == <<pc, sched, free, held, content, results>>
P == 1..Procs
None == 0

Init == /\ pc = [p \in P |-> <<0, "idle">>] /\ sched = <<>> /\ free = 1..Buffers
        /\ held = [p \in P |-> None] /\ content = [b \in 1..Buffers |-> <<>>]
        /\ results = [p \in P |-> <<>>]

Busy == {p \in P : pc[p][2] # "idle"}
Result(p, n) == <<p, n>>

Take(p) == /\ pc[p][2] = "idle" /\ pc[p][1] < Ops /\ free # {} /\ (Atomic => Busy = {})
           /\ LET b == CHOOSE x \in free : \A y \in free : x <= y IN
                /\ held' = [held EXCEPT ![p] = b] /\ free' = free \ {b}
                /\ content' = [content EXCEPT ![b] = <<>>]
           /\ pc' = [pc EXCEPT ![p] = <<@[1], "taken">>]
           /\ sched' = IF Atomic THEN Append(sched, p) ELSE sched
           /\ UNCHANGED results
Fill(p) == /\ pc[p][2] = "taken"
           /\ content' = [content EXCEPT ![held[p]] = @ \o Result(p, pc[p][1] + 1)]
           /\ pc' = [pc EXCEPT ![p] = <<@[1], "filled">>]
           /\ UNCHANGED <<sched, free, held, results>>
Give(p) == /\ pc[p][2] = "filled"
           /\ results' = [results EXCEPT ![p] = Append(@, content[held[p]])]
           /\ free' = free \cup {held[p]} /\ held' = [held EXCEPT ![p] = None]
           /\ pc' = [pc EXCEPT ![p] = <<@[1] + 1, "idle">>]
           /\ UNCHANGED <<sched, content>>

Next == \E p \in P : Take(p) \/ Fill(p) \/ Give(p)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Isolated == \A p \in P : results[p] = [n \in 1..pc[p][1] |-> Result(p, n)]
OneOwner == \A p, q \in P : (p # q /\ held[p] # None) => held[p] # held[q]
Kept == [][\A p \in P : Len(results'[p]) >= Len(results[p]) /\ SubSeq(results'[p], 1, Len(results[p])) = results[p]]_vars
Done == \A p \in P : pc[p] = <<Ops, "idle">>
Emit == (Atomic /\ Done) => PrintT("B " \o ToJson([n |-> Ops, sched |-> sched]))
=============================================================================
