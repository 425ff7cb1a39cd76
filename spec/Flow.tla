-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Flow documents, well-formed or not: a pushdown automaton over tokens    *)
(* that builds the denoted tree or refuses the document for good.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxLen, Tokens,
          BadFrom   (* the first place at which the document may go wrong *)

VARIABLES toks, stack, root, bad, ck, done
vars == <<toks, stack, root, bad, ck, done>>
(* a frame: k "[" or "{"; items: events of its finished entries; st: "start", "sep" (behind a comma),
   "val" (behind a first node), "colon", "pair" (behind the value of a pair); key, cur: events of nodes *)

Init == toks = <<>> /\ stack = <<>> /\ root = <<>> /\ bad = FALSE /\ ck = FALSE /\ done = FALSE

Top   == stack[Len(stack)]
Depth == Len(stack)
Last2 == IF toks = <<>> THEN "" ELSE Last(toks)

Close(k) == IF k = "[" THEN "]" ELSE "}"
Entry(f) ==
  CASE f.st \in {"start", "sep"} -> <<>>
    [] f.st = "val"   -> IF f.k = "[" THEN f.cur ELSE f.cur \o <<"null">>
    [] f.st = "colon" -> IF f.k = "[" THEN <<"{">> \o f.key \o <<"null", "}">> ELSE f.key \o <<"null">>
    [] f.st = "pair"  -> IF f.k = "[" THEN <<"{">> \o f.key \o f.cur \o <<"}">> ELSE f.key \o f.cur
Committed(f) == [f EXCEPT !.items = @ \o Entry(f), !.cur = <<>>, !.key = <<>>]
Whole(f) == <<f.k>> \o Committed(f).items \o <<Close(f.k)>>

CanValue == Depth > 0 /\ Top.st \in {"start", "sep", "colon"}
(* a finished node at the current place *)
Place(st, ev) ==
  IF st = <<>> THEN st
  ELSE [st EXCEPT ![Len(st)] = [@ EXCEPT !.cur = ev, !.st = IF @ = "colon" THEN "pair" ELSE "val"]]

Put(t) == /\ ~done /\ Len(toks) < MaxLen /\ t \in Tokens /\ toks' = Append(toks, t)
Refuse == Len(toks) + 1 >= BadFrom /\ bad' = TRUE /\ UNCHANGED <<stack, root, ck, done>>
Here == ToString(Len(toks) + 1)

OpenTok(t) ==
  /\ t \in {"[", "{"} /\ Put(t)
  /\ IF bad \/ (root # <<>>) \/ (Depth > 0 /\ ~CanValue) THEN Refuse
     ELSE /\ stack' = Append(stack, [k |-> t, items |-> <<>>, st |-> "start", key |-> <<>>, cur |-> <<>>])
          /\ UNCHANGED <<root, bad, ck, done>>

CloseTok(t) ==
  /\ t \in {"]", "}"} /\ Put(t)
  /\ toks # <<>>
  /\ IF bad \/ Depth = 0 \/ Close(Top.k) # t THEN Refuse
     ELSE LET w == Whole(Top)
              rest == SubSeq(stack, 1, Depth - 1)
          IN /\ stack' = Place(rest, w)
             /\ root' = IF rest = <<>> THEN w ELSE root
             /\ UNCHANGED <<bad, ck, done>>

(* "q": a quoted scalar, "s": a plain one, which would go on if it followed another plain scalar *)
Scalar(t) ==
  /\ t \in {"q", "s"} /\ Put(t)
  /\ toks # <<>> /\ Last2 # "s"
  /\ t = "s" => (CanValue \/ bad)
  /\ IF bad \/ ~CanValue THEN Refuse
     ELSE /\ stack' = Place(stack, <<t \o Here>>)
          /\ UNCHANGED <<root, bad, ck, done>>

Comma ==
  /\ Put(",") /\ toks # <<>>
  /\ IF bad \/ Depth = 0 \/ Top.st \in {"start", "sep"} THEN Refuse
     ELSE /\ stack' = [stack EXCEPT ![Depth] = [Committed(@) EXCEPT !.st = "sep"]]
          /\ UNCHANGED <<root, bad, ck, done>>

(* a colon only behind a node of the same collection *)
Colon ==
  /\ Put(":") /\ Depth > 0 /\ Top.st \in {"val", "pair"} /\ ~bad
  /\ IF Top.st = "pair" THEN Refuse
     ELSE /\ stack' = [stack EXCEPT ![Depth] = [@ EXCEPT !.st = "colon", !.key = Top.cur, !.cur = <<>>]]
          /\ ck' = (ck \/ Len(Top.cur) > 1)
          /\ UNCHANGED <<root, bad, done>>

(* a quote that is never closed *)
Unterminated ==
  /\ Put("u") /\ toks # <<>> /\ Last2 # "s" /\ Refuse

(* an indicator that has no place in a flow collection: of a block sequence, block scalar, directive or reserved *)
Foreign ==
  /\ Put("d") /\ toks # <<>> /\ Last2 # "s" /\ Refuse

Finish ==
  /\ ~done /\ toks # <<>> /\ done' = TRUE
  /\ (bad \/ Depth > 0) => Len(toks) >= BadFrom
  /\ bad' = (bad \/ Depth > 0)
  /\ UNCHANGED <<toks, stack, root, ck>>

Next == \/ (Last2 # "u" /\ \/ \E t \in {"[", "{"} : OpenTok(t)
                           \/ \E t \in {"]", "}"} : CloseTok(t)
                           \/ \E t \in {"q", "s"} : Scalar(t)
                           \/ Comma \/ Colon \/ Unterminated \/ Foreign)
        \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* accepted documents are balanced, and nothing of them is dropped *)
AcceptedBalanced == (done /\ ~bad) =>
   /\ Count(toks, "[") = Count(toks, "]") /\ Count(toks, "{") = Count(toks, "}")
   /\ \A i \in 1..Len(toks) : toks[i] \in {"q", "s"} => Count(root, toks[i] \o ToString(i)) = 1
(* refusals are final *)
Final == [][bad => bad']_vars
Emit == done => PrintT("B " \o ToJson([toks |-> toks, ok |-> ~bad, ev |-> root, ck |-> ck, after |-> (bad /\ root # <<>>)]))
=============================================================================
