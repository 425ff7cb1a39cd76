----------------------------- MODULE ReaderGen -----------------------------
(***************************************************************************)
(* The decoder over documents which are built node by node, with anchors,  *)
(* aliases and merge keys anywhere, before they are read.                  *)
(***************************************************************************)
EXTENDS YamlData, Json

CONSTANTS MinNodes, MaxNodes, MaxDepth, MaxOps,
          Names,     \* of anchors
          Keys,      \* of mappings; "<<" may be there
          Kinds,     \* of scalars
          Alphabet,  \* reads
          Modes,     \* "default", "collecting", "both"
          Fitting,   \* BOOLEAN: only reads which fit the current node
          Marked     \* BOOLEAN: all the nodes but the root are anchored or aliases

VARIABLES stack, size, seen, opened,
          doc, multi, pending, touched, colls, fatal, denied, hist, done
bvars == <<stack, size, seen, opened>>
rvars == <<doc, multi, pending, touched, colls, fatal, denied, hist, done>>

OpsOf(a) == CASE a = "walk"   -> {"null", "int", "float", "bool", "ts", "str", "seq", "map", "skip", "query"}
              [] a = "whole"  -> {"seq", "map", "any", "raw", "skip", "str"}
              [] a = "any"    -> {"any"}
              [] a = "raw"    -> {"raw"}
              [] a = "items"  -> {"seq", "map", "raw"}
              [] a = "values" -> {"seq", "map", "any"}
              [] a = "enter"  -> {"seq", "map", "any", "skip"}
              [] a = "full"   -> {"null", "int", "uint", "float", "bool", "ts", "str", "seq", "map", "any", "raw",
                                  "skip", "query", "adderror", "addnil"}
Ops   == OpsOf(Alphabet)
Multi == CASE Modes = "default" -> {FALSE} [] Modes = "collecting" -> {TRUE} [] Modes = "both" -> {TRUE, FALSE}
R == INSTANCE Reader WITH Docs <- {}

\* scalars differ from one another
Text(k) == CASE k = "int" -> ToString(10 + size) [] k = "str" -> "x" \o ToString(size) [] k = "null" -> "null" [] k = "bool" -> "true"
             [] k = "float" -> ToString(size) \o ".5" [] k = "ts" -> "2020-01-" \o ToString(10 + (size % 18))
Top == stack[Len(stack)]
Push(n) == stack' = Append(stack, n)
\* adds a complete node to the collection which is open
Into(s, n) == IF s = <<>> THEN <<n>> ELSE [s EXCEPT ![Len(s)] = [@ EXCEPT !.c = Append(@, n)]]
AtKey == stack # <<>> /\ Top.k = "map" /\ Len(Top.c) % 2 = 0
Complete == Len(stack) = 1 /\ (IsScalar(stack[1]) \/ stack[1].k = "alias" \/ opened = 0)
Building == hist = <<>> /\ pending = <<>> /\ ~done
Room == Building /\ ~Complete /\ size < MaxNodes

UsedKeys == {Top.c[2 * i - 1].v : i \in 1..((Len(Top.c) + 1) \div 2)}
AddKey == /\ Room /\ AtKey /\ size + 1 < MaxNodes
          /\ \E k \in Keys : (k = "<<" \/ k \notin UsedKeys) /\ stack' = Into(stack, Scalar("str", k))
          /\ UNCHANGED <<size, seen, opened>>
\* names differ in their order of appearance only, so that new ones appear in a fixed order
Usable == seen \cup (IF Names \subseteq seen THEN {} ELSE {CHOOSE a \in Names \ seen : TRUE})
Marks == IF Marked /\ stack # <<>> THEN Usable ELSE IF Marked THEN {""} ELSE {""} \cup Usable
Collections == {SeqN(<<>>)} \cup (IF Keys = {} THEN {} ELSE {MapN(<<>>)})
Note(a) == seen' = IF a = "" THEN seen ELSE seen \cup {a}
AddScalar == /\ Room /\ ~AtKey /\ \E k \in Kinds, a \in Marks : stack' = Into(stack, Anchored(Scalar(k, Text(k)), a)) /\ Note(a)
             /\ size' = size + 1 /\ UNCHANGED opened
AddAlias == /\ Room /\ ~AtKey /\ stack # <<>> /\ \E a \in seen : stack' = Into(stack, AliasN(a))
            /\ size' = size + 1 /\ UNCHANGED <<seen, opened>>
Open == /\ Room /\ ~AtKey /\ opened < MaxDepth
        /\ \E n \in Collections, a \in Marks : Push(Anchored(n, a)) /\ Note(a)
        /\ size' = size + 1 /\ opened' = opened + 1
Close == /\ Building /\ opened > 0 /\ (Top.k = "map" => AtKey)
         /\ stack' = Into(SubSeq(stack, 1, Len(stack) - 1), Top) /\ opened' = opened - 1
         /\ UNCHANGED <<size, seen>>
Built == /\ Building /\ Complete /\ size >= MinNodes
         /\ doc' = stack[1] /\ pending' = <<Resolve(stack[1])>>
         /\ UNCHANGED <<multi, touched, colls, fatal, denied, hist, done>> /\ UNCHANGED bvars
Build == /\ AddKey \/ AddScalar \/ AddAlias \/ Open \/ Close
         /\ UNCHANGED rvars

\* "items", "values": the root is entered, and its items are read as a whole
Choice == IF Alphabet \in {"items", "values"} /\ hist # <<>> THEN Ops \ {"seq", "map"} ELSE IF Fitting /\ fatal = "" /\ pending # <<>> THEN {op \in Ops : op \in {"query", "addnil"} \/ R!Accepts(op, pending[1])} ELSE Ops
Reading == ~done /\ (hist # <<>> \/ pending # <<>>)
ReadStep == /\ Reading /\ UNCHANGED <<doc, multi>> /\ UNCHANGED bvars
            /\ \/ /\ Len(hist) < MaxOps /\ R!AfterFatal < 2
                  /\ \E op \in Choice : R!Step(op)
                  /\ UNCHANGED done
               \/ /\ Len(hist) = MaxOps \/ R!AfterFatal >= 2 \/ pending = <<>>
                  /\ done' = TRUE /\ UNCHANGED <<pending, touched, colls, fatal, denied, hist>>

Init == /\ stack = <<>> /\ size = 0 /\ seen = {} /\ opened = 0
        /\ doc = Scalar("null", "null") /\ multi \in Multi /\ pending = <<>> /\ touched = FALSE /\ colls = <<>> /\ fatal = ""
        /\ denied = 0 /\ hist = <<>> /\ done = FALSE
Next == Build \/ Built \/ ReadStep
Spec == Init /\ [][Next]_<<bvars, rvars>>
-----------------------------------------------------------------------------
Emit == R!Emit
Nested == R!Nested
NoDenialWithoutMulti == R!NoDenialWithoutMulti
FatalSticky == R!FatalSticky
NoDangling == pending # <<>> => ~Has(pending[1], {"undef"})

(* Merging, said declaratively: the value under a key of a mapping is that of its last explicit
   entry; without one, that of the first mapping with this key among those merged, in order. *)
Sources(n) ==
  LET Of(x) == IF IsMapV(x) THEN <<x>> ELSE x.v
      RECURSIVE Cat(_)
      Cat(i) == IF 2 * i > Len(n.c) THEN <<>>
                ELSE (IF n.c[2*i-1].v = "<<" /\ Mergeable(Value(n.c[2*i])) THEN Of(Value(n.c[2*i])) ELSE <<>>) \o Cat(i + 1)
  IN Cat(1)
Explicit(n, k) == {i \in 1..(Len(n.c) \div 2) : n.c[2*i-1].v = k /\ ~(k = "<<" /\ Mergeable(Value(n.c[2*i])))}
MergedRight(n) ==
  LET v == Value(n).v  src == Sources(n)
      expected == {n.c[2*i-1].v : i \in UNION {Explicit(n, k) : k \in Keys}} \cup UNION {DOMAIN src[i].v : i \in 1..Len(src)}
  IN /\ DOMAIN v = expected
     /\ \A k \in expected :
          LET ex == Explicit(n, k) IN
          IF ex # {} THEN v[k] = Value(n.c[2 * (CHOOSE i \in ex : \A j \in ex : j <= i)])
          ELSE LET has == {i \in 1..Len(src) : k \in DOMAIN src[i].v} IN v[k] = src[CHOOSE i \in has : \A j \in has : i <= j].v[k]
MergeRule == (pending # <<>> /\ hist = <<>> /\ pending[1].k = "map" /\ ~Has(pending[1], {"cycle"}) /\ ~ComplexKeys(pending[1])) => MergedRight(pending[1])
=============================================================================
