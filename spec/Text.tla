-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Parsing of arbitrary texts.  A text grows by fragments without any      *)
(* grammar; every call of a parser on it is answered with a document or an *)
(* error, and all calls on the same text are answered alike.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Fragments, MinLen, MaxLen, Calls

VARIABLES text, fixed, answers
vars == <<text, fixed, answers>>
Outcomes == {"document", "error"}

Init == text = <<>> /\ fixed = FALSE /\ answers = <<>>
Grow(f) == ~fixed /\ Len(text) < MaxLen /\ text' = Append(text, f) /\ UNCHANGED <<fixed, answers>>
Submit == ~fixed /\ Len(text) >= MinLen /\ fixed' = TRUE /\ UNCHANGED <<text, answers>>
Answer(o) == /\ fixed /\ Len(answers) < Calls
             /\ answers # <<>> => o = answers[1]
             /\ answers' = Append(answers, o) /\ UNCHANGED <<text, fixed>>
Next == (\E f \in Fragments : Grow(f)) \/ Submit \/ (\E o \in Outcomes : Answer(o))
Spec == Init /\ [][Next]_vars /\ WF_vars(\E o \in Outcomes : Answer(o))
-----------------------------------------------------------------------------
Same == \A i, j \in 1..Len(answers) : answers[i] = answers[j]
(* a submitted text is never changed *)
Unmodified == [][fixed => text' = text]_vars
(* every call is answered *)
Answered == fixed ~> Len(answers) = Calls
Emit == (fixed /\ answers = <<>>) => PrintT("B " \o ToJson(text))
=============================================================================
