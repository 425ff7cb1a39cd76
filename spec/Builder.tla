------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* The tree-building protocol behind every encoder of yamly (both engines  *)
(* implement the same Inserter/TreeBuilder interface).                     *)
(*                                                                         *)
(* State: the stack of unfinished collections, the finished root (if any)  *)
(* and a sticky error flag.  Every insert call is one transition; Result   *)
(* is the only observation: it returns the finished tree or an error and   *)
(* resets the builder.                                                     *)
(*                                                                         *)
(* Scalars are opaque payloads identified by the position of the call that *)
(* inserted them; the conformance driver concretises them with values of   *)
(* every scalar type (and with raw documents).                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxOps,     \* length of an explored history
          MaxDepth,   \* nesting bound
          Misuse,     \* whether calls and results of misuse are explored
          AfterErr    \* how many calls are explored after the first misuse

VARIABLES stack,   \* Seq of [k: {"seq","map"}, c: Seq(Node)]
          root,    \* <<>> or <<Node>>
          err,     \* number of calls since the first misuse (0 = none)
          seg,     \* calls since the last Result (op names)
          hist,    \* all calls with predicted observations
          done

vars == <<stack, root, err, seg, hist, done>>

Leaf(i)    == [k |-> "leaf", id |-> i]
Coll(k, c) == [k |-> k, c |-> c]

Init == /\ stack = <<>> /\ root = <<>> /\ err = 0
        /\ seg = <<>> /\ hist = <<>> /\ done = FALSE

Pos == Len(hist) + 1

(* the call number "Pos" is recorded in the history *)
Record(op)  == /\ hist' = Append(hist, [op |-> op])
               /\ seg'  = Append(seg, op)

Fail(op) == /\ Record(op)
            /\ err' = IF err = 0 THEN 1 ELSE err + 1
            /\ UNCHANGED <<stack, root, done>>

(* Put a finished node at the current place *)
PutAt(st, rt, node) ==
  IF st = <<>>
  THEN [stack |-> st, root |-> <<node>>]
  ELSE [stack |-> [st EXCEPT ![Len(st)].c = Append(@, node)], root |-> rt]

(* a node may be inserted unless the document is already complete *)
CanInsert == ~(stack = <<>> /\ root # <<>>)

InsertLeaf(op) ==
  IF err > 0 \/ ~CanInsert THEN Fail(op)
  ELSE /\ Record(op)
       /\ LET n == PutAt(stack, root, Leaf(Pos))
          IN stack' = n.stack /\ root' = n.root
       /\ UNCHANGED <<err, done>>

Start(op, k) ==
  IF err > 0 \/ ~CanInsert THEN Fail(op)
  ELSE /\ Record(op)
       /\ stack' = Append(stack, Coll(k, <<>>))
       /\ UNCHANGED <<root, err, done>>

(* an end call closes the innermost collection, which must be of its kind and,
   for a mapping, must not have a key without value *)
End(op, k) ==
  IF \/ err > 0
     \/ stack = <<>>
     \/ stack[Len(stack)].k # k
     \/ (k = "map" /\ Len(stack[Len(stack)].c) % 2 = 1)
  THEN Fail(op)
  ELSE /\ Record(op)
       /\ LET top == stack[Len(stack)]
              n   == PutAt(SubSeq(stack, 1, Len(stack) - 1), root, top)
          IN stack' = n.stack /\ root' = n.root
       /\ UNCHANGED <<err, done>>

(* calls that carry an error of the caller or undecodable raw data *)
BadRaw(op) == Fail(op)

ObsResult ==
  IF err > 0 \/ stack # <<>> THEN [op |-> "result", res |-> "error"]
  ELSE IF root = <<>> THEN [op |-> "result", res |-> "empty"]
  ELSE [op |-> "result", res |-> "tree", tree |-> root[1]]

Result(final) ==
  /\ hist # <<>>
  /\ Misuse \/ ObsResult.res = "tree"
  /\ seg # <<>>                    \* two Results in a row add nothing
  /\ hist' = Append(hist, ObsResult)
  /\ stack' = <<>> /\ root' = <<>> /\ err' = 0 /\ seg' = <<>>
  /\ done' = final

Next ==
  /\ ~done
  /\ \/ /\ Len(hist) < MaxOps
        /\ err < AfterErr
        /\ \/ InsertLeaf("scalar")
           \/ InsertLeaf("raw")
           \/ BadRaw("badraw")
           \/ (Len(stack) < MaxDepth /\ Start("startseq", "seq"))
           \/ (Len(stack) < MaxDepth /\ Start("startmap", "map"))
           \/ End("endseq", "seq")
           \/ End("endmap", "map")
        /\ Misuse \/ err' = 0
     \/ (Len(hist) < MaxOps /\ Result(FALSE))
     \/ Result(TRUE)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties checked on the specification *)

(* Declarative meaning of a call sequence: a pushdown reading of the calls,
   independent of the transition relation above. Parse(ops, i, ctx) returns
   the set of end positions of a complete node starting at call i.          *)
RECURSIVE NodeEnds(_, _), ItemsEnd(_, _, _)
IsLeafOp(o) == o \in {"scalar", "raw"}
NodeEnds(ops, i) ==        \* 0 = no complete node starts here
  IF i > Len(ops) THEN 0
  ELSE IF IsLeafOp(ops[i]) THEN i
  ELSE IF ops[i] = "startseq" THEN ItemsEnd(ops, i + 1, [end |-> "endseq", even |-> TRUE, map |-> FALSE])
  ELSE IF ops[i] = "startmap" THEN ItemsEnd(ops, i + 1, [end |-> "endmap", even |-> TRUE, map |-> TRUE])
  ELSE 0
ItemsEnd(ops, i, c) ==
  IF i > Len(ops) THEN 0
  ELSE IF ops[i] = c.end /\ (c.map => c.even) THEN i
  ELSE LET e == NodeEnds(ops, i)
       IN IF e = 0 THEN 0 ELSE ItemsEnd(ops, e + 1, [c EXCEPT !.even = ~@])

WellFormed(ops) == Len(ops) > 0 /\ NodeEnds(ops, 1) = Len(ops)

(* the machine accepts exactly the well-formed call sequences *)
AcceptsExactly ==
  (seg # <<>>) =>
    (WellFormed(seg) <=> (err = 0 /\ stack = <<>> /\ root # <<>>))

(* a finished tree never holds a mapping with a key without value *)
RECURSIVE EvenMaps(_)
EvenMaps(n) == IF n.k = "leaf" THEN TRUE
               ELSE /\ (n.k = "map" => Len(n.c) % 2 = 0)
                    /\ \A i \in 1..Len(n.c) : EvenMaps(n.c[i])
TreeOK == root # <<>> => EvenMaps(root[1])

(* misuse is never forgotten before Result *)
ErrSticky == [][(err > 0 /\ seg' # <<>>) => err' > 0]_vars

Emit == done => PrintT("B " \o ToJson(hist))
=============================================================================
