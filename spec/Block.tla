-------------------------------- MODULE Block -------------------------------
(***************************************************************************)
(* Block collections, well-formed or not: lines of different indentation   *)
(* open, continue and close collections, or are at no place a collection   *)
(* allows and make the document malformed.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLines, Indents, Kinds,
          BadFrom   (* the first line which may be malformed *)

VARIABLES lines, stack, bad, done
vars == <<lines, stack, bad, done>>
(* a line: n indentation, t kind: "key" (k: v), "open" (k:), "dash" (- v), "dopen" (-), "dkey" (- k: v),
   "dkopen" (- k:), "ddash" (- - v), "text" (v), "kk" (k: k: v), "kd" (k: - v)
   a frame: k, ind, items: events of its content, pend: whether its last entry still waits for a value *)

Init == lines = <<>> /\ stack = <<>> /\ bad = FALSE /\ done = FALSE

HeadOf(t) == IF t \in {"key", "open", "kk", "kd"} THEN "map" ELSE "seq"
Frame(k, n) == [k |-> k, ind |-> n, items |-> <<>>, pend |-> FALSE]
Put(st, ev, p) == [st EXCEPT ![Len(st)] = [@ EXCEPT !.items = @ \o ev, !.pend = p]]
Whole(f) == <<f.k>> \o f.items \o (IF f.pend THEN <<"null">> ELSE <<>>) \o <<"end">>
Pop(st) == LET n == Len(st) IN Put(SubSeq(st, 1, n - 1), Whole(st[n]), FALSE)

(* the line continues the collection at the top *)
Add(st, n, t, i) ==
  LET k == <<"k" \o ToString(i)>>  v == <<"v" \o ToString(i)>> IN
  CASE t = "key"    -> Put(st, k \o v, FALSE)
    [] t = "open"   -> Put(st, k, TRUE)
    [] t = "dash"   -> Put(st, v, FALSE)
    [] t = "dopen"  -> Put(st, <<>>, TRUE)
    [] t = "dkey"   -> Append(Put(st, <<>>, TRUE), [Frame("map", n + 2) EXCEPT !.items = k \o v])
    [] t = "dkopen" -> Append(Put(st, <<>>, TRUE), [Frame("map", n + 2) EXCEPT !.items = k, !.pend = TRUE])
    [] t = "ddash"  -> Append(Put(st, <<>>, TRUE), [Frame("seq", n + 2) EXCEPT !.items = v])

Refused == <<>>   (* no line leaves the stack empty *)
RECURSIVE Enter(_, _, _, _)
Enter(st, n, t, i) ==
  IF st = <<>> THEN Add(<<Frame(HeadOf(t), n)>>, n, t, i)
  ELSE LET f == st[Len(st)] IN
       IF f.pend /\ (n > f.ind \/ (n = f.ind /\ f.k = "map" /\ HeadOf(t) = "seq"))
       THEN Add(Append(st, Frame(HeadOf(t), n)), n, t, i)
       ELSE IF n > f.ind THEN Refused
       ELSE IF n = f.ind /\ f.k = HeadOf(t) THEN Add(IF f.pend THEN Put(st, <<"null">>, FALSE) ELSE st, n, t, i)
       ELSE IF Len(st) = 1 THEN Refused
       ELSE Enter(Pop(st), n, t, i)

Text(st, n, i) ==
  IF st = <<>> THEN Refused
  ELSE LET f == st[Len(st)] IN
       IF f.pend /\ n > f.ind THEN Put(st, <<"v" \o ToString(i)>>, FALSE) ELSE Refused

Line(n, t) ==
  LET i == Len(lines) + 1
      st == IF t \in {"kk", "kd"} THEN Refused
            ELSE IF t = "text" THEN Text(stack, n, i) ELSE Enter(stack, n, t, i)
  IN /\ ~done /\ ~bad /\ i <= MaxLines
     /\ lines = <<>> => t # "text" /\ n = 0
     /\ lines' = Append(lines, [n |-> n, t |-> t])
     /\ IF st = Refused THEN i >= BadFrom /\ bad' = TRUE /\ UNCHANGED stack
        ELSE stack' = st /\ UNCHANGED bad
     /\ UNCHANGED done

RECURSIVE Root(_)
Root(st) == IF Len(st) = 1 THEN Whole(st[1]) ELSE Root(Pop(st))

Finish == ~done /\ lines # <<>> /\ done' = TRUE /\ UNCHANGED <<lines, stack, bad>>

Next == (\E n \in Indents, t \in Kinds : Line(n, t)) \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Has(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* open collections are strictly nested, except for a sequence at the indentation of its key *)
Nested == \A i \in 1..(Len(stack) - 1) :
   /\ stack[i].pend
   /\ \/ stack[i].ind < stack[i + 1].ind
      \/ stack[i].ind = stack[i + 1].ind /\ stack[i].k = "map" /\ stack[i + 1].k = "seq"
(* every key and value of an accepted document is in its tree once *)
NothingLost == (done /\ ~bad) =>
   LET r == Root(stack) IN
   \A i \in 1..Len(lines) :
      /\ Has(r, "k" \o ToString(i)) = IF lines[i].t \in {"key", "open", "dkey", "dkopen"} THEN 1 ELSE 0
      /\ Has(r, "v" \o ToString(i)) = IF lines[i].t \in {"key", "dash", "dkey", "ddash", "text"} THEN 1 ELSE 0
Emit == done => PrintT("B " \o ToJson([lines |-> lines, ok |-> ~bad, ev |-> IF bad THEN <<>> ELSE Root(stack)]))
=============================================================================
