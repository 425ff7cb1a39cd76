------------------------------ MODULE YamlData ------------------------------
(***************************************************************************)
(* Abstract YAML documents: node trees with anchors and aliases, their     *)
(* textual flow rendering, the static resolution of aliases and the value  *)
(* of a node (with merge keys).                                            *)
(*                                                                         *)
(* A node is a record [k, v, a, c]:                                        *)
(*   k  "int" "float" "bool" "null" "ts" "str" "seq" "map" "alias"         *)
(*   v  text of a scalar (without quotes) or name of an alias              *)
(*   a  name of the anchor or ""                                           *)
(*   c  entries (key, value, key, value ... for a mapping)                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Scalar(k, v)   == [k |-> k, v |-> v, a |-> "", c |-> <<>>]
SeqN(c)        == [k |-> "seq", v |-> "", a |-> "", c |-> c]
MapN(c)        == [k |-> "map", v |-> "", a |-> "", c |-> c]
AliasN(n)      == [k |-> "alias", v |-> n, a |-> "", c |-> <<>>]
Anchored(n, a) == [n EXCEPT !.a = a]

ScalarKinds == {"int", "float", "bool", "null", "ts", "str"}
IsScalar(n) == n.k \in ScalarKinds

(***************************************************************************)
(* Flow rendering                                                          *)
(***************************************************************************)
RECURSIVE JoinWith(_, _)
JoinWith(s, sep) ==
  IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinWith(Tail(s), sep)

Prop(n) == IF n.a = "" THEN "" ELSE "&" \o n.a \o " "

RECURSIVE Flow(_)
Flow(n) ==
  CASE n.k = "alias" -> "*" \o n.v
    [] n.k = "seq"   -> Prop(n) \o "[" \o JoinWith([i \in 1..Len(n.c) |-> Flow(n.c[i])], ", ") \o "]"
    [] n.k = "map"   -> Prop(n) \o "{" \o
                        JoinWith([i \in 1..(Len(n.c) \div 2) |->
                                    Flow(n.c[2*i-1]) \o
                                    (IF n.c[2*i-1].k = "alias" THEN " : " ELSE ": ") \o Flow(n.c[2*i])], ", ")
                        \o "}"
    [] n.k = "str"   -> Prop(n) \o "'" \o n.v \o "'"
    [] OTHER         -> Prop(n) \o n.v

(***************************************************************************)
(* Static alias resolution.  Walk(n, env) visits the document in textual   *)
(* order; env maps anchor names to [node, open]: an anchor is "open" while *)
(* its own content is being walked (an alias to it would contain itself).  *)
(* Result: [n |-> node with aliases replaced, env |-> ...].                *)
(* A replaced alias becomes the node it stands for (k of the target) with  *)
(* cyc/undef problems represented by the kinds "cycle" and "undef".        *)
(***************************************************************************)
Problem(k, name) == [k |-> k, v |-> name, a |-> "", c |-> <<>>]

RECURSIVE Walk(_, _), WalkAll(_, _, _)
Walk(n, env) ==
  CASE n.k = "alias" ->
         [n |-> IF n.v \notin DOMAIN env THEN Problem("undef", n.v)
                ELSE IF env[n.v].open THEN Problem("cycle", n.v)
                ELSE env[n.v].node,
          env |-> env]
    [] n.k \in {"seq", "map"} ->
         LET env1 == IF n.a = "" THEN env
                     ELSE (n.a :> [node |-> n, open |-> TRUE]) @@ env
             kids == WalkAll(n.c, 1, [ns |-> <<>>, env |-> env1])
             nn   == [n EXCEPT !.c = kids.ns]
             \* the anchor may have been redefined inside of the node
             env2 == IF n.a = "" THEN kids.env
                     ELSE IF kids.env[n.a].open
                          THEN (n.a :> [node |-> nn, open |-> FALSE]) @@ kids.env
                          ELSE kids.env
         IN [n |-> nn, env |-> env2]
    [] OTHER ->
         [n |-> n, env |-> IF n.a = "" THEN env
                           ELSE (n.a :> [node |-> n, open |-> FALSE]) @@ env]
WalkAll(ns, i, acc) ==
  IF i > Len(ns) THEN acc
  ELSE LET w == Walk(ns[i], acc.env)
       IN WalkAll(ns, i + 1, [ns |-> Append(acc.ns, w.n), env |-> w.env])

EmptyEnv == [x \in {} |-> 0]
Resolve(n) == Walk(n, EmptyEnv).n

RECURSIVE Has(_, _)
Has(n, kinds) == n.k \in kinds \/ \E i \in 1..Len(n.c) : Has(n.c[i], kinds)

RECURSIVE ComplexKeys(_)
ComplexKeys(n) == \/ n.k = "map" /\ \E i \in 1..(Len(n.c) \div 2) : ~IsScalar(n.c[2*i-1])
                  \/ \E i \in 1..Len(n.c) : ComplexKeys(n.c[i])

(***************************************************************************)
(* Value of a (resolved) node: what a decoder without a target type gives. *)
(* Mapping entries are folded left to right; an explicit key always wins   *)
(* over merged ones and replaces its earlier explicit occurrence; of merged*)
(* mappings the earlier one wins.                                          *)
(* Result of a mapping: a function from key strings to values.             *)
(***************************************************************************)
RECURSIVE Value(_), FoldEntries(_, _, _)

V(k, v)  == [k |-> k, v |-> v]

IsMapV(x) == x.k = "map"
Mergeable(x) == IsMapV(x) \/ (x.k = "seq" /\ \A i \in 1..Len(x.v) : IsMapV(x.v[i]))

(* left operand wins *)
RECURSIVE MergeSeq(_, _)
MergeSeq(m, s) == IF s = <<>> THEN m ELSE MergeSeq(m @@ s[1].v, Tail(s))
MergeInto(m, x) == IF IsMapV(x) THEN m @@ x.v ELSE MergeSeq(m, x.v)

KeyText(n) == IF n.k = "null" THEN "null" ELSE n.v

FoldEntries(c, i, m) ==
  IF i > Len(c) THEN m
  ELSE LET key == KeyText(c[i])
           x   == Value(c[i + 1])
       IN FoldEntries(c, i + 2,
            IF key = "<<" /\ Mergeable(x) THEN MergeInto(m, x)
            ELSE (key :> x) @@ m)

Value(n) ==
  CASE n.k = "seq" -> V("seq", [i \in 1..Len(n.c) |-> Value(n.c[i])])
    [] n.k = "map" -> V("map", FoldEntries(n.c, 1, EmptyEnv))
    [] OTHER       -> V(n.k, n.v)
=============================================================================
