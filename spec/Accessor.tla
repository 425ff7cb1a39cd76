------------------------------ MODULE Accessor ------------------------------
(***************************************************************************)
(* The checkpointed source of tokens of the parser: a position in the      *)
(* stream and a stack of marked positions.                                 *)
(*                                                                         *)
(* next      moves to and delivers the next element                        *)
(* set       marks the position                                            *)
(* commit    forgets the latest mark                                       *)
(* rollback  returns to the latest mark, forgets it and delivers the       *)
(*           element at it again (nothing at the very beginning)           *)
(* restart   takes a new stream: all marks are dropped                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxOps

VARIABLES pos, marks, pulled, gen, hist, done
vars == <<pos, marks, pulled, gen, hist, done>>

Init == pos = 0 /\ marks = <<>> /\ pulled = 0 /\ gen = 1 /\ hist = <<>> /\ done = FALSE

Log(op, el, p, pl) == hist' = Append(hist, [op |-> op, el |-> el, pos |-> p, pulled |-> pl])
Max(a, b) == IF a > b THEN a ELSE b

NextEl == /\ pos' = pos + 1
          /\ pulled' = Max(pulled, pos + 1)
          /\ Log("next", pos + 1, pos', pulled')
          /\ UNCHANGED <<marks, gen>>
SetCp  == /\ marks' = Append(marks, pos)
          /\ Log("set", 0, pos, pulled)
          /\ UNCHANGED <<pos, pulled, gen>>
Commit == /\ marks # <<>>
          /\ marks' = SubSeq(marks, 1, Len(marks) - 1)
          /\ Log("commit", 0, pos, pulled)
          /\ UNCHANGED <<pos, pulled, gen>>
Rollback == /\ marks # <<>>
            /\ pos' = marks[Len(marks)]
            /\ marks' = SubSeq(marks, 1, Len(marks) - 1)
            /\ Log("rollback", pos', pos', pulled)
            /\ UNCHANGED <<pulled, gen>>
(* commit and rollback without a mark do nothing to the position *)
EmptyCommit == /\ marks = <<>>
               /\ Log("commit", 0, pos, pulled)
               /\ UNCHANGED <<pos, marks, pulled, gen>>
Restart == /\ gen < 2
           /\ gen' = gen + 1
           /\ pos' = 0 /\ marks' = <<>> /\ pulled' = 0
           /\ Log("restart", 0, 0, 0)

Next == /\ ~done
        /\ \/ /\ Len(hist) < MaxOps
              /\ (NextEl \/ SetCp \/ Commit \/ Rollback \/ EmptyCommit \/ Restart)
              /\ UNCHANGED done
           \/ /\ Len(hist) = MaxOps
              /\ done' = TRUE
              /\ UNCHANGED <<pos, marks, pulled, gen, hist>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* marks never lie behind the position, and are ordered *)
MarksOK == /\ \A i \in 1..Len(marks) : marks[i] <= pos
           /\ \A i, j \in 1..Len(marks) : i < j => marks[i] <= marks[j]
PulledOK == pos <= pulled
(* the stream is read strictly in order *)
InOrder == [][(pulled' # pulled /\ gen' = gen) => pulled' = pulled + 1]_vars
Emit == done => PrintT("B " \o ToJson([ops |-> hist]))
=============================================================================
