------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* A stream of documents, part by part: directives, document markers,      *)
(* comments, blank lines and the contents of documents.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxParts

VARIABLES parts,  \* the stream so far
          docs,   \* finished documents: number of the part with the content, 0 for an empty document
          cur,    \* content of the current document (0: none yet)
          st      \* "fresh" (between documents), "dirs", "begun" (explicitly), "content", "done"
vars == <<parts, docs, cur, st>>

Init == parts = <<>> /\ docs = <<>> /\ cur = 0 /\ st = "fresh"

Put(p)    == parts' = Append(parts, p)
Here      == Len(parts) + 1
May       == st \notin {"done", "bad"} /\ Len(parts) < MaxParts
Finished  == IF st \in {"begun", "content"} THEN Append(docs, cur) ELSE docs

(* comments and blank lines mean nothing anywhere *)
Noise(p) == May /\ Put(p) /\ UNCHANGED <<docs, cur, st>>

Directive(p) ==
  /\ May /\ st \in {"fresh", "dirs"}
  \* at most one version, tag handles are different in the replay
  /\ p = "yaml" => ~\E i \in 1..Len(parts) : parts[i] = "yaml" /\ \A j \in i..Len(parts) : parts[j] \notin {"start", "start+", "end"}
  /\ Put(p) /\ st' = "dirs" /\ UNCHANGED <<docs, cur>>

(* a document start marker, alone on its line *)
Start ==
  /\ May /\ Put("start")
  /\ docs' = Finished /\ cur' = 0 /\ st' = "begun"
(* a document start marker with content on its line *)
StartWith ==
  /\ May /\ Put("start+")
  /\ docs' = Finished /\ cur' = Here /\ st' = "content"
(* content on lines of its own; there is no content in front of which the document did not begin *)
Content ==
  /\ May /\ st \in {"fresh", "begun"}
  /\ Put("content")
  /\ cur' = Here /\ st' = "content" /\ UNCHANGED docs
End ==
  /\ May /\ st \in {"begun", "content"}
  /\ Put("end")
  /\ docs' = Finished /\ cur' = 0 /\ st' = "fresh"
Stop ==
  /\ st \notin {"done", "dirs", "bad"}
  /\ docs' = Finished /\ st' = "done" /\ UNCHANGED <<parts, cur>>

(* directives without a start marker behind them are refused *)
Refuse ==
  /\ May /\ st = "dirs"
  /\ \E p \in {"content", "end", ""} : parts' = IF p = "" THEN parts ELSE Append(parts, p)
  /\ st' = "bad" /\ UNCHANGED <<docs, cur>>

Next == \/ \E p \in {"comment", "blank"} : Noise(p)
        \/ \E p \in {"yaml", "tag", "other"} : Directive(p)
        \/ Start \/ StartWith \/ Content \/ End \/ Stop \/ Refuse
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Count(S) == Cardinality({i \in 1..Len(parts) : parts[i] \in S})
(* every content belongs to exactly one document, in order *)
EachOnce == st = "done" =>
   LET c == SelectSeq(docs, LAMBDA d : d # 0)
   IN /\ \A i \in 1..(Len(c) - 1) : c[i] < c[i + 1]
      /\ Len(c) = Count({"content", "start+"})
(* as many documents as starts, plus those that begin without a marker *)
AsManyAsStarts == st = "done" => Len(docs) >= Count({"start", "start+"})
Emit == st \in {"done", "bad"} => PrintT("B " \o ToJson([parts |-> parts, docs |-> docs, bad |-> st = "bad"]))
=============================================================================
