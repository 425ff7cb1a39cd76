----------------------------- MODULE BlockScalar -----------------------------
(***************************************************************************)
(* The text denoted by a block scalar, line by line.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxLines,
          Lines,       \* enabled kinds of lines
          AdjacentSpaced  \* TRUE: folded scalars may have more-indented lines next to each other

VARIABLES folded, chomp, explicit,   \* the header
          lines, out, empties, prev, done, eof
vars == <<folded, chomp, explicit, lines, out, empties, prev, done, eof>>

(* kinds of lines: "text"; "more" (starts with further spaces); "tab" (starts with a tab);
   "empty"; "white" (as many spaces as the indentation or fewer);
   "blank" (only spaces, more of them than the indentation) *)
Empty  == {"empty", "white"}
Spaced == {"more", "tab", "blank"}

Init == /\ folded \in BOOLEAN /\ chomp \in {"clip", "strip", "keep"} /\ explicit \in BOOLEAN
        /\ lines = <<>> /\ out = <<>> /\ empties = 0 /\ prev = "none" /\ done = FALSE /\ eof = FALSE

LFs(n) == [i \in 1..n |-> "LF"]
(* breaks between the previous content line and one of kind k *)
Between(k) ==
  IF prev = "none" THEN LFs(empties)
  ELSE IF ~folded \/ prev = "spaced" \/ k \in Spaced THEN LFs(empties + 1)
  ELSE IF empties = 0 THEN <<"SP">> ELSE LFs(empties)

Add(k) ==
  /\ ~done /\ Len(lines) < MaxLines
  \* without an indicator the first content line defines the indentation
  /\ (~explicit /\ prev = "none") => k \notin Spaced
  /\ (folded /\ ~AdjacentSpaced /\ k \in Spaced) => prev # "spaced"
  /\ lines' = Append(lines, k)
  /\ IF k \in Empty
     THEN /\ empties' = empties + 1 /\ UNCHANGED <<out, prev>>
     ELSE /\ out' = Append(out \o Between(k), ToString(Len(lines) + 1))
          /\ empties' = 0
          /\ prev' = IF k \in Spaced THEN "spaced" ELSE "text"
  /\ UNCHANGED <<folded, chomp, explicit, done, eof>>

(* the end: eof: the text ends without a line break behind the last content line *)
Close(e) ==
  /\ ~done /\ done' = TRUE /\ eof' = e
  /\ e => (lines # <<>> /\ Last(lines) \notin Empty)
  /\ out' = out \o (CASE chomp = "strip" -> <<>>
                      [] chomp = "clip"  -> IF prev = "none" \/ e THEN <<>> ELSE <<"LF">>
                      [] chomp = "keep"  -> IF prev = "none" THEN LFs(empties)
                                            ELSE IF e THEN <<>> ELSE LFs(empties + 1))
  /\ UNCHANGED <<folded, chomp, explicit, lines, empties, prev>>

Next == (\E k \in Lines : Add(k)) \/ (\E e \in BOOLEAN : Close(e))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Content(s) == SelectSeq(s, LAMBDA x : x \notin {"LF", "SP"})
(* every content line is there once and in order *)
ContentKept == LET idx == SelectSeq([i \in 1..Len(lines) |-> i], LAMBDA i : lines[i] \notin Empty)
               IN Content(out) = [i \in 1..Len(idx) |-> ToString(idx[i])]
(* a literal scalar has as many line breaks before its last content line as the source has *)
LiteralBreaks == (~folded /\ done /\ chomp = "keep" /\ ~eof)
                   => Len(SelectSeq(out, LAMBDA x : x = "LF")) = Len(lines)
Stripped == (done /\ chomp = "strip" /\ out # <<>>) => (Content(out) = <<>> \/ Last(out) # "LF")
Emit == done => PrintT("B " \o ToJson([folded |-> folded, chomp |-> chomp, explicit |-> explicit,
                                       lines |-> lines, out |-> out, eof |-> eof]))
=============================================================================
