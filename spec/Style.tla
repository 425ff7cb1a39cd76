------------------------------- MODULE Style --------------------------------
(***************************************************************************)
(* A writer of YAML that makes every presentation choice nondeterministi-  *)
(* cally: block or flow collections, compact or indented by any width,     *)
(* implicit or explicit keys, plain, quoted or block scalars, scalars over *)
(* several lines, anchors, aliases, tags, comments and blank lines at line *)
(* ends, document markers.  Together with the text it records the events   *)
(* of the document (its structure), which every reader has to deliver,     *)
(* whatever the choices were.                                              *)
(*                                                                         *)
(* Scalars are placeholders $n$ in the text: their contents do not matter  *)
(* for the structure, the replay fills them in (sc tells how).             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxNodes,    \* amount of nodes
          MinNodes,
          MaxDepth,    \* depth of nesting
          Features,    \* enabled groups of choices
          Noises       \* kinds of noise at line ends

VARIABLES out,      \* text
          ev,       \* events
          stack,    \* open collections
          sc,       \* styles of the placeholders
          noise, pre,
          gap,      \* further white space behind the indicators of entries
          raw,      \* the last line is content of a block scalar (no noise may follow)
          anchors,  \* Seq of events of anchored finished nodes
          pend,     \* anchors of open collections: Seq of [depth, from, id]
          nodes, done
vars == <<out, ev, stack, sc, noise, pre, gap, raw, anchors, pend, nodes, done>>

On(f) == f \in Features

RECURSIVE Sp(_)
Sp(n) == IF n = 0 THEN "" ELSE " " \o Sp(n - 1)

(* a line break with the noise of this document *)
NL(isRaw) == IF isRaw THEN "\n"
             ELSE CASE noise = "none"    -> "\n"
                    [] noise = "trail"   -> " # c\n"
                    [] noise = "blank"   -> "\n\n"
                    [] noise = "spaces"  -> "  \n   \n"
                    [] noise = "comment" -> "\n# c: [\n"
                    [] noise = "deep"    -> "\n        # - c\n"
                    [] noise = "crlf"    -> "\r\n"
                    [] noise = "cr"      -> "\r"
Break(isRaw) == NL(isRaw)
(* a line break within a scalar *)
Fold == CASE noise = "crlf" -> "\r\n" [] noise = "cr" -> "\r" [] OTHER -> "\n"

Pres == {""} \cup IF On("markers") THEN {"---", "%YAML 1.1\n---", "# c\n", "--- # c", "%TAG !e! tag:e.org,2000:\n---"} ELSE {}

Init == /\ out = "" /\ ev = <<>> /\ stack = <<>> /\ sc = <<>> /\ raw = FALSE
        /\ noise \in Noises /\ pre \in Pres /\ gap \in {""} \cup IF On("gaps") THEN {"    ", "\t", " \t  "} ELSE {}
        /\ anchors = <<>> /\ pend = <<>> /\ nodes = 0 /\ done = FALSE

Top   == stack[Len(stack)]
Depth == Len(stack)
(* a frame: kind, flow, ind (column of entries), n (entries so far), at: "entry" "key?" "value",
   inline: the first entry goes on on the same line, expl: the current key is explicit,
   sp: spacing of a flow collection, one: the collection is (within) an implicit key and thus has
   to stay on one line *)

(* columns: base is the column of the parent's entries (-1 at the root, encoded as 0 with root) *)
AtRoot == stack = <<>>
InFlow == ~AtRoot /\ Top.flow

(* where is the node to be placed *)
Place == IF AtRoot THEN "root"
         ELSE IF Top.kind = "seq" THEN (IF Top.flow THEN "fitem" ELSE "item")
         ELSE IF Top.at = "key" THEN (IF Top.flow THEN "fkey" ELSE "key")
         ELSE IF Top.flow THEN "fvalue" ELSE IF Top.expl THEN "evalue" ELSE "value"

(* line start of an entry of the open block collection *)
Lead == IF Top.n = 0 /\ Top.inline THEN "" ELSE Break(raw) \o Sp(Top.ind)
(* separator before an entry of the open flow collection *)
FLead == CASE Top.sp = "tight" -> IF Top.n = 0 THEN "" ELSE ","
           [] Top.sp = "space" -> IF Top.n = 0 THEN " " ELSE " , "
           [] Top.sp = "std"   -> IF Top.n = 0 THEN "" ELSE ", "
           [] Top.sp = "lines" -> (IF Top.n = 0 THEN "" ELSE ",") \o Break(FALSE) \o Sp(Top.ind + 1)
FValueSep == CASE Top.sp = "lines" -> " :" \o Break(FALSE) \o Sp(Top.ind + 2)
               [] Top.sp = "space" -> " : "
               [] Top.sp = "tight" /\ Top.json -> ":"      \* a quoted key
               [] OTHER -> ": "

(* no tabs where a key could follow *)
SpGap == IF gap = "" THEN "" ELSE "   "

(* text before a node that is written on the same line; expl: explicit key *)
Before(expl) ==
  CASE Place = "root"   -> IF pre = "" THEN "" ELSE IF pre \in {"# c\n"} THEN pre
                           ELSE IF pre = "--- # c" THEN pre \o "\n" ELSE pre \o " "
    [] Place = "item"   -> Lead \o "- " \o SpGap
    [] Place = "key"    -> Lead \o (IF expl THEN "? " \o SpGap ELSE "")
    [] Place = "value"  -> ": " \o gap
    [] Place = "evalue" -> Break(raw) \o Sp(Top.ind) \o ": " \o SpGap
    [] Place = "fitem"  -> FLead
    [] Place = "fkey"   -> FLead \o (IF expl THEN "? " ELSE "")
    [] Place = "fvalue" -> FValueSep

(* the frame after a node was placed *)
Advance(f, expl) ==
  IF f.kind = "seq" THEN [f EXCEPT !.n = @ + 1]
  ELSE IF f.at = "key" THEN [f EXCEPT !.at = "value", !.expl = expl]
  ELSE [f EXCEPT !.at = "key", !.n = @ + 1, !.expl = FALSE]
Advanced(expl) == IF AtRoot THEN stack ELSE [stack EXCEPT ![Depth] = Advance(Top, expl)]

OneLine == ~AtRoot /\ Top.one
IsKey == Place \in {"key", "fkey"}
(* an explicit key in a block mapping; in a flow mapping *)
ExplChoices == IF IsKey /\ On("explicit") /\ ~OneLine THEN {FALSE, TRUE} ELSE {FALSE}

InPair == ~AtRoot /\ Top.pair
CanPlace == ~done /\ nodes < MaxNodes /\ ~(AtRoot /\ nodes > 0)
            /\ (InPair => Top.n = 0)
            /\ (nodes = MaxNodes - 1 => ~IsKey)      \* a key needs a value

(* properties *)
Props == {""} \cup (IF On("props") THEN {"&"} ELSE {}) \cup (IF On("tags") THEN {"!"} ELSE {})
         \cup (IF On("props") /\ On("tags") THEN {"&!", "!&"} ELSE {})
Anchored(p) == p \in {"&", "&!", "!&"}
Tagged(p) == p \in {"!", "&!", "!&"}
NextAnchor == ToString(Len(anchors) + Len(pend) + 1)

-----------------------------------------------------------------------------
(* scalars *)
Ph(n) == "$" \o ToString(n) \o "$"
ScalarStyles ==
  {"plain", "null"}
  \cup (IF On("quotes") THEN {"single", "double", "int"} ELSE {})
  \cup (IF On("multiline") /\ ~IsKey /\ ~OneLine THEN {"plain2", "single2", "double2"} ELSE {})
  \cup (IF On("blocks") /\ Place \in {"root", "item", "value", "evalue"} THEN {"lit", "fold"} ELSE {})
  \cup (IF On("empty") /\ Place \in {"item", "value", "evalue", "fvalue"} THEN {"empty"} ELSE {})

(* column for continuation lines *)
Cont == IF AtRoot THEN 1 ELSE Top.ind + 1 + (IF Top.flow THEN 1 ELSE 0)

(* the line break after the header of a block scalar: only a comment may precede it *)
Header == IF noise = "trail" THEN NL(FALSE) ELSE Fold

Body(st) ==
  LET n == Len(sc) + 1
  IN CASE st = "plain"   -> Ph(n)
       [] st = "single"  -> "'" \o Ph(n) \o "'"
       [] st = "double"  -> "\"" \o Ph(n) \o "\""
       [] st = "null"    -> "null"
       [] st = "int"     -> "7"
       [] st = "empty"   -> ""
       [] st = "plain2"  -> Ph(n) \o Fold \o Sp(Cont) \o Ph(n + 1)
       [] st = "single2" -> "'" \o Ph(n) \o Fold \o Sp(Cont) \o Ph(n + 1) \o "'"
       [] st = "double2" -> "\"" \o Ph(n) \o " " \o Fold \o Fold \o Sp(Cont) \o Ph(n + 1) \o "\""
       [] st = "lit"     -> "|-" \o Header \o Sp(Cont) \o Ph(n)
       [] st = "fold"    -> ">-" \o Header \o Sp(Cont) \o Ph(n) \o Fold \o Sp(Cont) \o Ph(n + 1)
Two(st) == st \in {"plain2", "single2", "double2", "fold"}
Style(st) == CASE st \in {"plain2"} -> "plain" [] st = "single2" -> "single" [] st = "double2" -> "double"
               [] st \in {"lit", "fold"} -> "block" [] OTHER -> st
Phs(st) ==
  IF st \in {"null", "int", "empty"} THEN <<>>
  ELSE <<[st |-> Style(st), fl |-> InFlow, key |-> IsKey, cont |-> FALSE]>>
       \o (IF Two(st) THEN <<[st |-> Style(st), fl |-> InFlow, key |-> FALSE, cont |-> TRUE]>> ELSE <<>>)
Ev(st) == LET n == ToString(Len(sc) + 1)
              m == ToString(Len(sc) + 2)
          IN CASE st \in {"null", "empty"} -> "null"
               [] st = "int" -> "int"
               [] st = "double2" -> "s" \o n \o "/" \o m     \* an empty line: line feed
               [] Two(st) -> "s" \o n \o "_" \o m
               [] OTHER   -> "s" \o n

PropText(p, t) == CASE p = "" -> ""
                    [] p = "&" -> "&a" \o NextAnchor \o " "
                    [] p = "!" -> "!!" \o t \o " "
                    [] p = "&!" -> "&a" \o NextAnchor \o gap \o " !!" \o t \o " "
                    [] p = "!&" -> "!!" \o t \o gap \o " &a" \o NextAnchor \o " "

Scalar(st, p, expl) ==
  /\ CanPlace /\ (AtRoot => MinNodes <= 1)
  /\ st \in {"null", "empty", "int"} => ~Tagged(p)
  /\ st = "empty" => p = ""
  /\ (IsKey /\ ~expl) => st \notin {"plain2", "single2", "double2"}
  /\ (st = "empty" /\ Place = "fvalue") => Top.sp # "tight"
  \* "--- # c" and comments in front: the root begins on a line of its own
  /\ out' = out \o Before(expl) \o PropText(p, "str") \o Body(st)
  /\ ev' = Append(ev, Ev(st))
  /\ sc' = sc \o Phs(st)
  /\ raw' = (st \in {"lit", "fold"})
  /\ anchors' = IF Anchored(p) THEN Append(anchors, [id |-> NextAnchor, ev |-> <<Ev(st)>>]) ELSE anchors
  /\ stack' = IF IsKey THEN [Advanced(expl) EXCEPT ![Depth].json = st \in {"single", "double"}] ELSE Advanced(expl)
  /\ nodes' = nodes + 1
  /\ UNCHANGED <<noise, pre, gap, pend, done>>

(* an alias of a finished anchored node; as an implicit key it is followed by a space *)
Alias(i, expl) ==
  /\ CanPlace /\ On("props") /\ ~AtRoot
  /\ (IsKey /\ Len(anchors[i].ev) > 1) => On("complexkeys")
  /\ out' = out \o Before(expl) \o "*a" \o anchors[i].id \o (IF (IsKey /\ ~expl) \/ InFlow THEN " " ELSE "")
  /\ ev' = ev \o anchors[i].ev
  /\ raw' = FALSE
  /\ stack' = IF IsKey THEN [Advanced(expl) EXCEPT ![Depth].json = FALSE] ELSE Advanced(expl)
  /\ nodes' = nodes + 1
  /\ UNCHANGED <<sc, noise, pre, gap, anchors, pend, done>>

-----------------------------------------------------------------------------
(* collections *)
Open(kind) == IF kind = "seq" THEN "[" ELSE "{"
Close(kind) == IF kind = "seq" THEN "]" ELSE "}"

Pend(p) == IF Anchored(p) THEN Append(pend, [depth |-> Depth + 1, from |-> Len(ev) + 1, id |-> NextAnchor]) ELSE pend

OpenFlow(kind, sp, p, expl) ==
  /\ CanPlace /\ Depth < MaxDepth
  /\ IsKey => On("complexkeys")
  /\ (OneLine \/ (IsKey /\ ~expl)) => sp # "lines"
  /\ out' = out \o Before(expl) \o PropText(p, kind) \o Open(kind)
  /\ ev' = Append(ev, Open(kind))
  /\ pend' = Pend(p)
  /\ raw' = FALSE
  /\ stack' = Append(IF IsKey THEN [Advanced(expl) EXCEPT ![Depth].json = FALSE] ELSE Advanced(expl),
                     [kind |-> kind, flow |-> TRUE, ind |-> IF AtRoot THEN 0 ELSE Top.ind + 1, n |-> 0,
                      at |-> IF kind = "map" THEN "key" ELSE "entry", inline |-> TRUE, expl |-> FALSE, sp |-> sp, pair |-> FALSE, json |-> FALSE,
                      one |-> OneLine \/ (IsKey /\ ~expl)])
  /\ nodes' = nodes + 1
  /\ UNCHANGED <<sc, noise, pre, gap, anchors, done>>

(* a mapping of one entry without braces, in a flow sequence *)
OpenPair ==
  /\ CanPlace /\ Depth < MaxDepth /\ On("pairs") /\ nodes < MaxNodes - 2
  /\ Place = "fitem"
  /\ out' = out \o Before(FALSE)
  /\ ev' = Append(ev, "{")
  /\ raw' = FALSE
  /\ stack' = Append(Advanced(FALSE), [Top EXCEPT !.kind = "map", !.n = 0, !.at = "key", !.expl = FALSE, !.pair = TRUE, !.json = FALSE,
                                                !.sp = IF @ = "lines" THEN "std" ELSE @])
  /\ nodes' = nodes + 1
  /\ UNCHANGED <<sc, noise, pre, gap, anchors, pend, done>>
ClosePair ==
  /\ ~done /\ InPair /\ Top.n = 1
  /\ ev' = Append(ev, "}")
  /\ stack' = SubSeq(stack, 1, Depth - 1)
  /\ UNCHANGED <<out, sc, noise, pre, gap, raw, anchors, pend, nodes, done>>

CloseFlow ==
  /\ ~done /\ ~AtRoot /\ Top.flow /\ ~Top.pair
  /\ Depth = 1 => nodes >= MinNodes
  /\ Top.kind = "map" => Top.at = "key"
  /\ out' = out \o (CASE Top.sp = "lines" -> Break(FALSE) \o Sp(Top.ind)
                      [] Top.sp = "space" -> " "
                      [] OTHER -> "") \o Close(Top.kind)
  /\ ev' = Append(ev, Close(Top.kind))
  /\ stack' = SubSeq(stack, 1, Depth - 1)
  /\ raw' = FALSE
  /\ LET mine == {i \in 1..Len(pend) : pend[i].depth = Depth}
     IN IF mine = {} THEN UNCHANGED <<anchors, pend>>
        ELSE LET a == pend[Len(pend)]
             IN /\ anchors' = Append(anchors, [id |-> a.id, ev |-> SubSeq(ev', a.from, Len(ev'))])
                /\ pend' = SubSeq(pend, 1, Len(pend) - 1)
  /\ UNCHANGED <<sc, noise, pre, gap, nodes, done>>

(* text before a block collection that begins on the following lines *)
BeforeBlock(expl) ==
  CASE Place = "root"   -> IF pre = "--- # c" THEN pre \o "\n" ELSE pre
    [] Place = "item"   -> Lead \o "-"
    [] Place = "key"    -> Lead \o "?"
    [] Place = "value"  -> ":"
    [] Place = "evalue" -> Break(raw) \o Sp(Top.ind) \o ":"

(* w: indentation relative to the parent's entries *)
Widths(kind) == CASE Place = "root"  -> {0} \cup IF On("widths") THEN {2} ELSE {}
                  [] Place = "value" /\ kind = "seq" -> {0, 2} \cup (IF On("widths") THEN {1, 3} ELSE {}) \cup (IF On("wide") THEN {5, 12} ELSE {})
                  [] OTHER -> {2} \cup (IF On("widths") THEN {1, 4} ELSE {}) \cup (IF On("wide") THEN {7, 12} ELSE {})

Frame(kind, ind, inline) ==
  [kind |-> kind, flow |-> FALSE, ind |-> ind, n |-> 0, at |-> IF kind = "map" THEN "key" ELSE "entry",
   inline |-> inline, expl |-> FALSE, sp |-> "", pair |-> FALSE, json |-> FALSE, one |-> FALSE]

OpenBlock(kind, w, p, expl) ==
  /\ CanPlace /\ nodes < MaxNodes - 1 /\ Depth < MaxDepth /\ ~InFlow
  /\ kind = "map" => nodes < MaxNodes - 2
  /\ IsKey => expl /\ On("complexkeys")
  \* at the root without marker and property the first entry starts the text: see OpenCompact
  /\ (AtRoot /\ p = "") => pre \in {"---", "%YAML 1.1\n---", "%TAG !e! tag:e.org,2000:\n---"}
  /\ out' = out \o BeforeBlock(expl)
               \o (IF p # "" THEN (IF AtRoot /\ pre \in {"", "# c\n", "--- # c"} THEN "" ELSE " ") \o PropText(p, kind) ELSE "")
  /\ ev' = Append(ev, Open(kind))
  /\ pend' = Pend(p)
  /\ raw' = FALSE
  /\ stack' = Append(Advanced(expl),
                Frame(kind, IF AtRoot THEN w ELSE Top.ind + w, FALSE))
  /\ nodes' = nodes + 1
  /\ UNCHANGED <<sc, noise, pre, gap, anchors, done>>

(* compact: the first entry follows on the same line *)
OpenCompact(kind, k, expl) ==
  /\ CanPlace /\ nodes < MaxNodes - 1 /\ Depth < MaxDepth /\ ~InFlow
  /\ kind = "map" => nodes < MaxNodes - 2
  /\ Place \in {"item", "key", "evalue"} \/ (Place = "root" /\ pre \in {"", "# c\n"} /\ k = 1)
  /\ IsKey => expl /\ On("complexkeys")
  /\ out' = out \o (IF AtRoot THEN pre ELSE BeforeBlock(expl) \o Sp(k))
  /\ ev' = Append(ev, Open(kind))
  /\ raw' = FALSE
  /\ stack' = Append(Advanced(expl), Frame(kind, IF AtRoot THEN 0 ELSE Top.ind + 1 + k, TRUE))
  /\ nodes' = nodes + 1
  /\ UNCHANGED <<sc, noise, pre, gap, anchors, pend, done>>

CloseBlock ==
  /\ ~done /\ ~AtRoot /\ ~Top.flow /\ Top.n > 0
  /\ Depth = 1 => nodes >= MinNodes
  /\ Top.kind = "map" => Top.at = "key"
  /\ ev' = Append(ev, Close(Top.kind))
  /\ stack' = SubSeq(stack, 1, Depth - 1)
  /\ LET mine == {i \in 1..Len(pend) : pend[i].depth = Depth}
     IN IF mine = {} THEN UNCHANGED <<anchors, pend>>
        ELSE LET a == pend[Len(pend)]
             IN /\ anchors' = Append(anchors, [id |-> a.id, ev |-> SubSeq(ev', a.from, Len(ev'))])
                /\ pend' = SubSeq(pend, 1, Len(pend) - 1)
  /\ UNCHANGED <<out, sc, noise, pre, gap, raw, nodes, done>>

Finish ==
  /\ ~done /\ AtRoot /\ nodes > 0
  /\ \E post \in {"", "\n"} \cup IF On("markers") THEN {"\n...\n", "\n# end\n"} ELSE {} :
       out' = out \o post
  /\ done' = TRUE
  /\ UNCHANGED <<ev, stack, sc, noise, pre, gap, raw, anchors, pend, nodes>>

FlowSps == {"std"} \cup (IF On("spacing") THEN {"tight", "space", "lines"} ELSE {})

Next ==
  \/ \E expl \in ExplChoices :
       \/ \E st \in ScalarStyles, p \in Props : Scalar(st, p, expl)
       \/ \E i \in 1..Len(anchors) : Alias(i, expl)
       \/ \E kind \in {"seq", "map"} :
            \/ \E sp \in FlowSps, p \in Props : OpenFlow(kind, sp, p, expl)
            \/ \E w \in Widths(kind), p \in Props : OpenBlock(kind, w, p, expl)
            \/ \E k \in {1} \cup (IF On("widths") THEN {3} ELSE {}) \cup (IF On("wide") THEN {2, 7, 11} ELSE {}) : OpenCompact(kind, k, expl)
  \/ OpenPair \/ ClosePair \/ CloseFlow \/ CloseBlock \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the events are balanced and nested *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Balanced == done => /\ Count(ev, "[") = Count(ev, "]") /\ Count(ev, "{") = Count(ev, "}")
                    /\ pend = <<>>
(* a nested block collection is indented deeper than its parent (sequences in mappings: not less) *)
Indented == \A i \in 1..(Len(stack) - 1) : (~stack[i + 1].flow) => stack[i].ind <= stack[i + 1].ind
Emit == done => PrintT("B " \o ToJson([text |-> out, ev |-> ev, sc |-> sc]))
=============================================================================
