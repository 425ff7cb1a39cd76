------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The texts of tags, anchors and directives, written character class by   *)
(* character class, and the automata that accept them.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS What,      \* "tag", "anchor", "version", "prefix"
          MaxLen,
          Only       \* "all", or "accepted" to replay the well-formed ones

VARIABLES text, st, done
vars == <<text, st, done>>

(* Classes: "w" letters, "9" digits, "%xx" an escaped octet, "%" an incomplete one, "u" other letters of Unicode,
   "/" what is allowed in URIs only besides, "[" flow indicators, "." full stop, " " white space, "'" quotes *)
Classes == CASE What = "tag" -> {"w", "9", "!", "<", ">", "%xx", "%", "[", "/", "u"}
             [] What = "anchor" -> {"w", "9", "!", "&", "*", "[", "u", "/", "'", "%"}
             [] What = "version" -> {"9", ".", "w", " "}
             [] What = "prefix" -> {"!", "w", "/", " ", "[", "9"}

Refused == "refused"
(* what follows "!" *)
TagStep(s, c) ==
  CASE s = "start" -> CASE c = "<" -> "uri0" [] c = "!" -> "suffix0" [] c \in {"w", "9"} -> "name"
                        [] c \in {"%xx", "/"} -> "suffix" [] OTHER -> Refused
    [] s = "name" -> CASE c = "!" -> "named0" [] c \in {"w", "9"} -> "name" [] c \in {"%xx", "/"} -> "suffix" [] OTHER -> Refused
    [] s \in {"suffix", "suffix0"} -> IF c \in {"w", "9", "%xx", "/"} THEN "suffix" ELSE Refused
    [] s \in {"named", "named0"} -> IF c \in {"w", "9", "%xx", "/"} THEN "named" ELSE Refused
    [] s \in {"uri", "uri0"} -> CASE c = ">" -> IF s = "uri" THEN "verbatim" ELSE Refused
                                  [] c \in {"w", "9", "%xx", "/", "!", "["} -> "uri" [] OTHER -> Refused
    [] OTHER -> Refused
(* what follows "&" *)
AnchorStep(s, c) == IF s \in {"start", "name"} /\ c # "[" THEN "name" ELSE Refused
(* what follows "%YAML " *)
VersionStep(s, c) ==
  CASE c = " " /\ s \in {"start", "minor", "end"} -> IF s = "start" THEN "start" ELSE "end"
    [] c = "9" /\ s \in {"start", "major"} -> "major"
    [] c = "." /\ s = "major" -> "dot"
    [] c = "9" /\ s \in {"dot", "minor"} -> "minor"
    [] OTHER -> Refused
(* what follows "%TAG " *)
PrefixStep(s, c) ==
  CASE s = "start" -> CASE c = " " -> "start" [] c = "!" -> "primary" [] OTHER -> Refused
    [] s = "primary" -> CASE c = " " -> "between" [] c = "!" -> "handle" [] c \in {"w", "9"} -> "open" [] OTHER -> Refused
    [] s = "open" -> CASE c = "!" -> "handle" [] c \in {"w", "9"} -> "open" [] OTHER -> Refused
    [] s = "handle" -> IF c = " " THEN "between" ELSE Refused
    [] s = "between" -> CASE c = " " -> "between" [] c = "!" -> "local" [] c \in {"w", "9", "/"} -> "global" [] OTHER -> Refused
    [] s \in {"local", "global"} -> CASE c = " " -> "end" [] c \in {"w", "9", "/", "!", "["} -> s [] OTHER -> Refused
    [] s = "end" -> IF c = " " THEN "end" ELSE Refused
    [] OTHER -> Refused
Step(s, c) == CASE What = "tag" -> TagStep(s, c) [] What = "anchor" -> AnchorStep(s, c)
                [] What = "version" -> VersionStep(s, c) [] What = "prefix" -> PrefixStep(s, c)
Final == CASE What = "tag" -> {"start", "name", "suffix", "named", "verbatim"}
           [] What = "anchor" -> {"name"}
           [] What = "version" -> {"minor", "end"}
           [] What = "prefix" -> {"local", "global", "end"}

Init == text = <<>> /\ st = "start" /\ done = FALSE
Write(c) == ~done /\ Len(text) < MaxLen /\ text' = Append(text, c) /\ st' = Step(st, c) /\ UNCHANGED done
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<text, st>>
Next == (\E c \in Classes : Write(c)) \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* what is refused stays refused *)
ForGood == [][st = Refused => st' = Refused]_vars
(* brackets of verbatim tags are closed; names are not empty *)
Sound == (done /\ st \in Final) =>
           /\ (What = "tag" /\ Len(text) > 0 /\ text[1] = "<") => (text[Len(text)] = ">" /\ Len(text) > 2)
           /\ What = "anchor" => Len(text) > 0
           /\ What = "version" => \E i, j, k \in 1..Len(text) : i < j /\ j < k /\ text[i] = "9" /\ text[j] = "." /\ text[k] = "9"
           /\ What = "prefix" => \E i, j \in 1..Len(text) : i < j /\ text[i] = "!" /\ text[j] # " "
Emit == (done /\ (Only = "all" \/ st \in Final)) => PrintT("B " \o ToJson([what |-> What, text |-> text, ok |-> st \in Final, st |-> st]))
=============================================================================
