------------------------------- MODULE Quoted -------------------------------
(***************************************************************************)
(* The text denoted by a quoted scalar, item by item: characters, white    *)
(* space, line breaks and escapes.  The machine is in the middle of a      *)
(* line, at the start of a continuation line, or has refused the text.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Quote,      \* "double" or "single"
          MaxLen,
          Items       \* enabled items

VARIABLES items,   \* the scalar so far
          out,     \* denoted text: Seq of <<kind, index of item>> (white space and characters) or "SP", "LF"
          pend,    \* white space that belongs to the text unless a line break follows
          breaks,  \* line breaks since the last content, 0 in the middle of a line
          esc,     \* the first of these line breaks was escaped
          bad, done
vars == <<items, out, pend, breaks, esc, bad, done>>

Init == items = <<>> /\ out = <<>> /\ pend = <<>> /\ breaks = 0 /\ esc = FALSE /\ bad = FALSE /\ done = FALSE

Here == Len(items) + 1
LFs(n) == [i \in 1..n |-> "LF"]
(* what the line breaks before the next content (or before the closing quote) amount to *)
Folded == IF breaks = 0 THEN pend
          ELSE IF esc THEN LFs(breaks - 1)
          ELSE IF breaks = 1 THEN <<"SP">> ELSE LFs(breaks - 1)

Content == {"ch", "esc", "equote", "ebs", "esp", "qq", "bs"}
White   == {"sp", "tab"}

Add(i) ==
  /\ ~done /\ Len(items) < MaxLen
  \* an escape sequence that is cut off by the closing quote
  /\ items # <<>> => Last(items) # "trunc"
  /\ items' = Append(items, i)
  /\ CASE i \in Content ->
            /\ out' = Append(out \o Folded, ToString(Here))
            /\ pend' = <<>> /\ breaks' = 0 /\ esc' = FALSE /\ UNCHANGED bad
       [] i \in White ->
            \* white space at the start of a continuation line does not count
            /\ pend' = IF breaks > 0 THEN <<>> ELSE Append(pend, ToString(Here))
            /\ UNCHANGED <<out, breaks, esc, bad>>
       [] i = "nl" ->
            /\ breaks' = breaks + 1
            /\ pend' = <<>>
            /\ UNCHANGED <<out, esc, bad>>
       [] i = "enl" ->
            \* an escaped break ends a line whose white space is content; within a run of breaks
            \* it is the end of a further line, which has no content but the escape
            /\ out' = out \o Folded
            /\ pend' = <<>> /\ breaks' = 1 /\ esc' = TRUE /\ UNCHANGED bad
       [] i \in {"bad", "trunc"} ->
            /\ bad' = TRUE
            /\ UNCHANGED <<out, pend, breaks, esc>>
  /\ UNCHANGED done

Close == /\ ~done /\ done' = TRUE
         /\ out' = out \o Folded
         /\ UNCHANGED <<items, pend, breaks, esc, bad>>

Next == Close \/ \E i \in Items : Add(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* content is neither lost, duplicated nor reordered *)
Indices(s) == SelectSeq(s, LAMBDA x : x \notin {"SP", "LF"})
ContentKept ==
  LET idx == {i \in 1..Len(items) : items[i] \in Content}
  IN \A i \in idx : Cardinality({j \in 1..Len(out) : out[j] = ToString(i)}) = 1
(* a text without line breaks denotes itself *)
OneLine == (done /\ \A i \in 1..Len(items) : items[i] \notin {"nl", "enl", "bad", "trunc"})
             => out = [i \in 1..Len(items) |-> ToString(i)]
(* a single break between words is a space *)
SingleBreak == (done /\ items = <<"ch", "nl", "ch">>) => out = <<"1", "SP", "3">>
(* white space next to a break never counts *)
NoWhiteAtBreaks ==
  \A i \in 1..Len(items) :
     (items[i] \in White /\ i < Len(items) /\ items[i + 1] = "nl")
       => ~\E j \in 1..Len(out) : out[j] = ToString(i)

Emit == done => PrintT("B " \o ToJson([quote |-> Quote, items |-> items, out |-> out, bad |-> bad]))
=============================================================================
