------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The decoder: a cursor over the document that every generated decoder    *)
(* (and every hand-written one) drives with typed reads.                   *)
(*                                                                         *)
(* State: the nodes which are still to be read, in document order (opening *)
(* a collection replaces it by its entries), the opened collections, the   *)
(* error.  A read that does not fit the current node is denied: fatal in   *)
(* the default mode; in the collecting mode it is recorded and the node    *)
(* stays current.  After a fatal error nothing is read any more and no     *)
(* collection has unprocessed items.                                       *)
(***************************************************************************)
EXTENDS YamlData, Json

CONSTANTS MaxOps, Docs, Ops, Multi   \* Multi: set of BOOLEAN

VARIABLES doc,      \* the document (unresolved tree, as written)
          multi,    \* collecting mode
          pending,  \* Seq of resolved nodes still to be read
          touched,  \* the first pending node was already denied
          colls,    \* Seq of [base, even, fin]: opened collections; base = amount of
                    \* pending nodes behind the collection
          fatal,    \* "" or the class of the fatal error
          denied,   \* amount of recorded denials
          hist, done

vars == <<doc, multi, pending, touched, colls, fatal, denied, hist, done>>

Init == /\ doc \in Docs
        /\ multi \in Multi
        /\ pending = <<Resolve(doc)>>
        /\ touched = FALSE /\ colls = <<>> /\ fatal = "" /\ denied = 0
        /\ hist = <<>> /\ done = FALSE

Cur == pending[1]

(* which reads accept which nodes *)
Accepts(op, n) ==
  CASE op = "null"  -> n.k = "null"
    [] op \in {"int", "uint"} -> n.k = "int"
    [] op = "float" -> n.k \in {"int", "float"}
    [] op = "bool"  -> n.k = "bool"
    [] op = "ts"    -> n.k = "ts"
    [] op = "str"   -> n.k \in ScalarKinds \ {"null"}
    [] op = "seq"   -> n.k = "seq"
    [] op = "map"   -> n.k = "map"
    [] OTHER        -> TRUE      \* any, raw, skip

(* the value the read returns *)
Returns(op, n) ==
  CASE op = "any" -> Value(n)
    [] op = "raw" -> V("tree", n)     \* text with the structure of the (resolved) node
    [] op \in {"seq"} -> V("size", Len(n.c))
    [] op \in {"map"} -> V("size", Len(n.c) \div 2)
    [] op = "skip" -> V("none", "")
    [] op = "null" -> V("bool", "true")
    [] OTHER       -> V(op, n.v)

Zero(op) == IF op = "null" THEN V("bool", "false") ELSE V("zero", op)

(* HasUnprocessedItems of opened collections.  A collection has unprocessed
   entries if some of its own entries were not reached yet; inside of a mapping
   entry (between key and value) the answer is not specified ("?"). *)
MarkFinished(cs, p) == [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.fin = @ \/ Len(p) <= cs[i].base]]

Unprocessed(p, f) ==
  [i \in 1..Len(colls) |->
     LET inner == {j \in (i+1)..Len(colls) : ~colls[j].fin}
         top   == IF inner = {} THEN Len(p)
                  ELSE colls[CHOOSE j \in inner : \A o \in inner : j <= o].base
     IN IF f # "" \/ colls[i].fin \/ top <= colls[i].base THEN "no"
        ELSE IF colls[i].even /\ (top - colls[i].base) % 2 = 1 THEN "?"
        ELSE "yes"]

Log(op, ret, f, d, p) ==
  hist' = Append(hist, [op |-> op, ret |-> ret, fatal |-> f, denied |-> d, left |-> Len(p)])

NeedsWalk(op) == op \in {"any", "raw"}

(* Raw of a node with an alias that contains itself is unspecified: there is no
   standalone text for it, an engine may report that at once or hand the alias over *)
Specified(op) ==
  ~ /\ fatal = "" /\ pending # <<>>
    /\ \/ op = "raw" /\ Cur.k \in {"seq", "map"} /\ Has(Cur, {"cycle"})
       \/ op = "any" /\ ComplexKeys(Cur)   \* a collection has no counterpart as a key of a map

Read(op) ==
  IF fatal # "" THEN
    /\ Log(op, Zero(op), fatal, denied, pending)
    /\ UNCHANGED <<pending, touched, colls, fatal, denied>>
  ELSE IF pending = <<>> THEN
    /\ fatal' = "eof"
    /\ Log(op, Zero(op), "eof", denied, <<>>)
    /\ UNCHANGED <<pending, touched, colls, denied>>
  ELSE IF Cur.k \in {"cycle", "undef"} \/ (NeedsWalk(op) /\ Has(Cur, {"cycle", "undef"})) THEN
    /\ fatal' = "alias"
    /\ Log(op, Zero(op), "alias", denied, pending)
    /\ UNCHANGED <<pending, touched, colls, denied>>
  ELSE IF ~Accepts(op, Cur) THEN
    /\ IF op = "null" THEN
         /\ Log(op, Zero(op), "", denied, pending)
         /\ UNCHANGED <<fatal, denied>>
       ELSE IF multi THEN
         /\ denied' = denied + 1
         /\ Log(op, Zero(op), "", denied', pending)
         /\ UNCHANGED fatal
       ELSE
         /\ fatal' = "denied"
         /\ Log(op, Zero(op), "denied", denied, pending)
         /\ UNCHANGED denied
    /\ touched' = TRUE
    /\ UNCHANGED <<pending, colls>>
  ELSE
    /\ pending' = (IF op \in {"seq", "map"} THEN Cur.c ELSE <<>>) \o Tail(pending)
    /\ touched' = FALSE
    /\ colls' = MarkFinished(
                  IF op \in {"seq", "map"}
                  THEN Append(colls, [base |-> Len(pending) - 1, even |-> op = "map", fin |-> FALSE])
                  ELSE colls, pending')
    /\ Log(op, Returns(op, Cur), "", denied, pending')
    /\ UNCHANGED <<fatal, denied>>

(* an error added by the user of the decoder *)
AddError ==
  /\ fatal = ""
  /\ fatal' = "user"
  /\ Log("adderror", V("none", ""), "user", denied, pending)
  /\ UNCHANGED <<pending, touched, colls, denied>>

AddNil ==
  /\ Log("addnil", V("none", ""), fatal, denied, pending)
  /\ UNCHANGED <<pending, touched, colls, denied, fatal>>

(* states of opened collections, queried between entries *)
Query ==
  /\ colls # <<>>
  /\ ~touched \/ fatal # ""
  /\ hist # <<>> /\ hist[Len(hist)].op # "query"
  /\ hist' = Append(hist, [op |-> "query", un |-> Unprocessed(pending, fatal)])
  /\ UNCHANGED <<pending, touched, colls, fatal, denied>>

Step(op) == CASE op = "adderror" -> AddError
              [] op = "addnil"   -> AddNil
              [] op = "query"    -> Query
              [] OTHER           -> Specified(op) /\ Read(op)

AfterFatal == Len(SelectSeq(hist, LAMBDA h : h.op # "query" /\ h.fatal # "")) 

Next ==
  /\ ~done
  /\ UNCHANGED <<doc, multi>>
  /\ \/ /\ Len(hist) < MaxOps
        /\ AfterFatal < 2
        /\ \E op \in Ops : Step(op)
        /\ UNCHANGED done
     \/ /\ (Len(hist) = MaxOps \/ AfterFatal >= 2 \/ pending = <<>>)
        /\ done' = TRUE
        /\ UNCHANGED <<pending, touched, colls, fatal, denied, hist>>

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* a fatal error is never lost and freezes the cursor *)
FatalSticky == [][fatal # "" => (fatal' = fatal /\ pending' = pending)]_vars
(* every read consumes at most the current node *)
AtMostOne == [][Len(pending') < Len(pending) => Tail(pending) = pending']_vars
(* opened collections are nested *)
Nested == \A i \in 1..Len(colls) : \A j \in 1..Len(colls) :
            (i < j /\ ~colls[i].fin) => colls[i].base <= colls[j].base
NoDenialWithoutMulti == ~multi => denied = 0

Emit == done => PrintT("B " \o ToJson([text |-> Flow(doc), multi |-> multi, ops |-> hist]))
=============================================================================
