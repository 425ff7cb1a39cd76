------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* Encoding and decoding of a string at a place of a document.             *)
(*                                                                         *)
(* A string grows by characters of classes that matter to YAML.  An        *)
(* encoder may take any style which can carry the content at the place; a  *)
(* decoder undoes the style.  Whatever style is taken, the content comes   *)
(* back: this is the only observation left to the caller.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Chars, MinLen, MaxLen, Places

VARIABLES str, place, style, items, back
vars == <<str, place, style, items, back>>

Init == str = <<>> /\ place = "" /\ style = "" /\ items = <<>> /\ back = <<>>

Grow(c) == /\ place = "" /\ Len(str) < MaxLen /\ str' = Append(str, c)
           /\ UNCHANGED <<place, style, items, back>>
Put(p)  == /\ place = "" /\ Len(str) >= MinLen /\ place' = p /\ UNCHANGED <<str, style, items, back>>

Spaces   == {"sp", "tab"}
Breaks   == {"lf"}
(* characters which only an escape sequence can carry *)
Special  == {"cr", "ctrl", "nel", "bom"}
Inner    == {"ch", "digit", "wide", "dash", "bs", "word"}      (* harmless in a plain scalar behind its first character *)
OneLine  == {"key", "flowkey"}

PlainOK  == /\ str # <<>> /\ \A i \in 1..Len(str) : str[i] \in (Inner \cup {"sp"})
            /\ str[1] \in {"ch", "wide"} /\ str[Len(str)] # "sp" /\ \A i \in 1..Len(str) : str[i] # "word"
SingleOK == \A i \in 1..Len(str) : str[i] \notin (Special \cup Breaks)
LiteralOK == /\ place \notin OneLine \cup {"flow"} /\ str # <<>> /\ str[1] \notin (Spaces \cup Breaks)
             /\ \A i \in 1..Len(str) : str[i] \notin Special
             /\ \E i \in 1..Len(str) : str[i] \notin Spaces \cup Breaks

Can(s) == CASE s = "plain" -> PlainOK [] s = "single" -> SingleOK [] s = "literal" -> LiteralOK [] s = "double" -> TRUE

(* what a style writes for a character, and what is read for a written item *)
Write(s, c) ==
  IF s = "single" /\ c = "sq" THEN <<"sq", "sq">>
  ELSE IF s = "double" /\ c \in (Special \cup Breaks \cup {"dq", "bs"}) THEN <<"esc", c>>
  ELSE <<c>>
RECURSIVE WriteAll(_, _), ReadAll(_, _)
WriteAll(s, t) == IF t = <<>> THEN <<>> ELSE Write(s, Head(t)) \o WriteAll(s, Tail(t))
ReadAll(s, t) ==
  IF t = <<>> THEN <<>>
  ELSE IF (s = "single" /\ Head(t) = "sq") \/ (s = "double" /\ Head(t) = "esc")
       THEN <<t[2]>> \o ReadAll(s, SubSeq(t, 3, Len(t)))
       ELSE <<Head(t)>> \o ReadAll(s, Tail(t))

Encode(s) == /\ place # "" /\ style = "" /\ Can(s) /\ style' = s /\ items' = WriteAll(s, str)
             /\ UNCHANGED <<str, place, back>>
Decode == /\ style # "" /\ back = <<>> /\ back' = <<ReadAll(style, items)>> /\ UNCHANGED <<str, place, style, items>>

Next == (\E c \in Chars : Grow(c)) \/ (\E p \in Places : Put(p))
        \/ (\E s \in {"plain", "single", "double", "literal"} : Encode(s)) \/ Decode
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RoundTrip == back # <<>> => back[1] = str
(* some style can always carry the content *)
Encodable == (place # "" /\ style = "") => \E s \in {"plain", "single", "double", "literal"} : Can(s)
(* a text in quotes ends where it should: a quote within it is doubled or escaped *)
Closed == /\ style = "single" => Cardinality({i \in 1..Len(items) : items[i] = "sq"}) % 2 = 0
          /\ style = "double" => \A i \in 1..Len(items) : items[i] = "dq" => i > 1 /\ items[i - 1] = "esc"
Emit == (place # "" /\ style = "") => PrintT("B " \o ToJson([str |-> str, place |-> place]))
=============================================================================
