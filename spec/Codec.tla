------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* What code generated for a Go type has to do: decode a document into a   *)
(* value (over a prior value), encode a value as a document.               *)
(*                                                                         *)
(* Types, values and documents are terms.  Scalars are opaque: "zero", "a" *)
(* and "b" stand for the zero value and two other values of their kind,    *)
(* chosen by the harness, and "bad" for a scalar which does not fit.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

(* Types.  A field is inlined if it is tagged so ("inline"), or if it is   *)
(* embedded ("embed") and embedded fields are to be inlined.  Fields may   *)
(* also be named by their Go name ("plain"), tagged "-" ("skip"), or not   *)
(* exported ("hidden"), have a name which needs quotes ("odd"), or be      *)
(* embedded under a name of their own ("tagged").                          *)
(* "ext" structs belong to another package, "iface" and "eiface" are       *)
(* interfaces with the methods of yamly and of the engine.                 *)
Sc(k) == [k |-> k]
Ptr(t) == [k |-> "ptr", e |-> t]
Slice(t) == [k |-> "slice", e |-> t]
ArrayOf(t, n) == [k |-> "array", e |-> t, n |-> n]
Array(t) == ArrayOf(t, 2)
Many == 40
Map(key, t) == [k |-> "map", key |-> key, e |-> t]
Field(n, t, om, in) == [n |-> n, t |-> t, om |-> om, in |-> in]
Struct(nm, f) == [k |-> "struct", nm |-> nm, f |-> f]
Self == [k |-> "self"]
IsSc(t) == t.k \notin {"ptr", "slice", "array", "map", "struct", "self"}
Ifaces == {"iface", "eiface"}
Nullable(t) == t.k \in {"bytes", "any"} \cup Ifaces
NeverEmpty(t) == t.k \in {"time", "textstruct", "bytes4", "yamly", "engine"} \cup Ifaces
NoMisfit == {"string", "nstring", "bytes", "bytes4", "any"}

(* Values *)
V(x) == [v |-> "s", x |-> x]
Nil == [v |-> "nil"]
To(y) == [v |-> "p", to |-> y]
L(c) == [v |-> "l", c |-> c]
M(e) == [v |-> "m", e |-> e]
R(c) == [v |-> "r", c |-> c]

(* Documents *)
Scalar(k, x) == [d |-> "s", k |-> k, x |-> x]
Misfit(k) == [d |-> "bad", k |-> k]
Null == [d |-> "null"]
Word == [d |-> "word"]
List(c) == [d |-> "l", c |-> c]
Mapping(e) == [d |-> "m", e |-> e]
Entry(n, y) == [n |-> n, y |-> y]

(***************************************************************************)
(* T is the root type, which "self" refers to; fl the generator options.   *)
(***************************************************************************)
RECURSIVE Zero(_, _)
Zero(T, t) ==
  CASE t.k = "self" -> Zero(T, T)
    [] t.k = "struct" -> R([i \in 1..Len(t.f) |-> Zero(T, t.f[i].t)])
    [] t.k = "array" -> L([i \in 1..t.n |-> Zero(T, t.e)])
    [] t.k \in {"ptr", "slice", "map"} \/ Nullable(t) -> Nil
    [] OTHER -> V("zero")

StructOf(t) == IF t.k = "ptr" THEN t.e ELSE t
Inlined(f, fl) == f.in = "inline" \/ (f.in = "embed" /\ fl.inline)

(* The entries of a struct: names, paths of field indices, types *)
RECURSIVE Leaves(_, _)
Leaves(t, fl) ==
  LET own == {i \in 1..Len(t.f) : ~Inlined(t.f[i], fl) /\ t.f[i].in \notin {"skip", "hidden"}}
      names == {t.f[i].n : i \in own}
  IN {[n |-> t.f[i].n, p |-> <<i>>, om |-> t.f[i].om \/ fl.omit, t |-> t.f[i].t] : i \in own}
     \cup UNION {{[l EXCEPT !.p = <<i>> \o l.p] : l \in {m \in Leaves(StructOf(t.f[i].t), fl) : m.n \notin names}} :
                 i \in {j \in 1..Len(t.f) : Inlined(t.f[j], fl)}}

(* the struct behind a field which is passed on the way *)
Inside(y) == IF y.v = "p" THEN y.to ELSE y
RECURSIVE Reached(_, _)
Reached(y, p) == IF Len(p) = 1 THEN TRUE
                 ELSE y.c[Head(p)] # Nil /\ Reached(Inside(y.c[Head(p)]), Tail(p))
RECURSIVE Get(_, _)
Get(y, p) == IF Len(p) = 1 THEN y.c[p[1]] ELSE Get(Inside(y.c[Head(p)]), Tail(p))
RECURSIVE Put(_, _, _, _, _)
Put(T, t, y, p, z) ==
  IF Len(p) = 1 THEN R([y.c EXCEPT ![p[1]] = z])
  ELSE LET i == Head(p)
           ft == t.f[i].t
           old == IF y.c[i] = Nil THEN Zero(T, ft.e) ELSE Inside(y.c[i])
           new == Put(T, StructOf(ft), old, Tail(p), z)
       IN R([y.c EXCEPT ![i] = IF ft.k = "ptr" THEN To(new) ELSE new])

Empty(t, y) == \/ y = Nil
               \/ y.v = "l" /\ t.k = "slice" /\ y.c = <<>>
               \/ y.v = "m" /\ y.e = <<>>
               \/ IsSc(t) /\ y = V("zero") /\ ~NeverEmpty(t)
-----------------------------------------------------------------------------
RECURSIVE Encode(_, _, _, _)
Encode(T, t, y, fl) ==
  CASE t.k = "self" -> Encode(T, T, y, fl)
    [] y = Nil -> Null
    [] IsSc(t) -> Scalar(t.k, y.x)
    [] t.k = "ptr" -> Encode(T, t.e, y.to, fl)
    [] t.k \in {"slice", "array"} -> List([i \in 1..Len(y.c) |-> Encode(T, t.e, y.c[i], fl)])
    [] t.k = "map" -> Mapping([i \in 1..Len(y.e) |-> Entry(y.e[i].n, Encode(T, t.e, y.e[i].y, fl))])
    [] t.k = "struct" ->
         LET written == {l \in Leaves(t, fl) : Reached(y, l.p) /\ ~(l.om /\ Empty(l.t, Get(y, l.p)))}
         IN Mapping(SetToSeq({Entry(l.n, Encode(T, l.t, Get(y, l.p), fl)) : l \in written}))

Bad == [ok |-> FALSE, y |-> Nil]
Ok(y) == [ok |-> TRUE, y |-> y]

RECURSIVE Decode(_, _, _, _, _, _)
RECURSIVE DecodeEntries(_, _, _, _, _, _)
Decode(T, t, d, prior, om, fl) ==
  CASE t.k = "self" -> Decode(T, T, d, prior, om, fl)
    [] IsSc(t) -> CASE t.k \in Ifaces /\ prior = Nil -> IF d = Null THEN Ok(Nil) ELSE Bad  \* nothing to decode into
                    [] t.k \in Ifaces /\ d = Null -> Bad  \* left to the value
                    [] d = Null /\ Nullable(t) -> Ok(Nil)
                    [] d = Null /\ t.k = "bytes4" -> Ok(prior)
                    [] d.d = "s" /\ d.k = t.k -> Ok(V(d.x))
                    [] OTHER -> Bad
    [] t.k = "ptr" -> IF d = Null THEN Ok(Nil)
                      ELSE LET r == Decode(T, t.e, d, IF prior = Nil THEN Zero(T, t.e) ELSE prior.to, om, fl)
                           IN IF r.ok THEN Ok(To(r.y)) ELSE Bad
    [] t.k = "slice" -> IF d = Null THEN Ok(Nil) ELSE IF d.d # "l" THEN Bad
                        ELSE LET r == [i \in 1..Len(d.c) |-> Decode(T, t.e, d.c[i], Zero(T, t.e), om, fl)]
                             IN IF \A i \in 1..Len(d.c) : r[i].ok THEN Ok(L([i \in 1..Len(d.c) |-> r[i].y])) ELSE Bad
    [] t.k = "array" -> IF d = Null THEN Ok(prior) ELSE IF d.d # "l" THEN Bad
                        ELSE LET n == IF Len(d.c) < t.n THEN Len(d.c) ELSE t.n
                                 r == [i \in 1..n |-> Decode(T, t.e, d.c[i], prior.c[i], om, fl)]
                             IN IF \A i \in 1..n : r[i].ok
                                THEN Ok(L([i \in 1..t.n |-> IF i <= n THEN r[i].y ELSE prior.c[i]])) ELSE Bad
    [] t.k = "map" -> IF d = Null THEN Ok(Nil) ELSE IF d.d # "m" THEN Bad
                      ELSE IF d.e = <<>> THEN Ok(IF om THEN Nil ELSE M(<<>>))
                      ELSE LET r == [i \in 1..Len(d.e) |-> Decode(T, t.e, d.e[i].y, Zero(T, t.e), om, fl)]
                           IN IF \A i \in 1..Len(d.e) : r[i].ok /\ d.e[i].n # "bad"
                              THEN Ok(M([i \in 1..Len(d.e) |-> Entry(d.e[i].n, r[i].y)])) ELSE Bad
    [] t.k = "struct" -> IF d = Null THEN Ok(Zero(T, t)) ELSE IF d.d # "m" THEN Bad
                         ELSE DecodeEntries(T, t, d.e, prior, Leaves(t, fl), fl)
DecodeEntries(T, t, e, prior, leaves, fl) ==
  IF e = <<>> THEN Ok(prior)
  ELSE LET n == Head(e).n
           d == Head(e).y
           here == {l \in leaves : l.n = n}
       IN IF d = Null THEN DecodeEntries(T, t, Tail(e), prior, leaves, fl)
          ELSE IF here = {} THEN IF fl.strict THEN Bad ELSE DecodeEntries(T, t, Tail(e), prior, leaves, fl)
          ELSE LET l == CHOOSE x \in here : TRUE
                   old == IF Reached(prior, l.p) THEN Get(prior, l.p) ELSE Zero(T, l.t)
                   r == Decode(T, l.t, d, old, l.om, fl)
               IN IF r.ok THEN DecodeEntries(T, t, Tail(e), Put(T, t, prior, l.p, r.y), leaves, fl) ELSE Bad
-----------------------------------------------------------------------------
(* y and what is read back of it; d is what is written of it *)
RECURSIVE Same(_, _, _, _, _, _)
Same(T, t, y, z, om, fl) ==
  CASE t.k = "self" -> Same(T, T, y, z, om, fl)
    [] Encode(T, t, y, fl) = Null -> z = Zero(T, t)
    [] IsSc(t) -> y = z
    [] t.k = "ptr" -> z # Nil /\ Same(T, t.e, y.to, z.to, om, fl)
    [] t.k \in {"slice", "array"} -> z # Nil /\ Len(y.c) = Len(z.c) /\ \A i \in 1..Len(y.c) : Same(T, t.e, y.c[i], z.c[i], om, fl)
    [] t.k = "map" -> IF y.e = <<>> /\ om THEN z = Nil
                      ELSE z # Nil /\ Len(y.e) = Len(z.e)
                           /\ \A i \in 1..Len(y.e) : y.e[i].n = z.e[i].n /\ Same(T, t.e, y.e[i].y, z.e[i].y, om, fl)
    [] t.k = "struct" ->
         \A l \in Leaves(t, fl) :
           LET zl == IF Reached(z, l.p) THEN Get(z, l.p) ELSE Zero(T, l.t) IN
           IF ~Reached(y, l.p) THEN ~Reached(z, l.p)
           ELSE IF l.om /\ Empty(l.t, Get(y, l.p)) THEN zl = Zero(T, l.t)
           ELSE Same(T, l.t, Get(y, l.p), zl, l.om, fl)
-----------------------------------------------------------------------------
(* Bounded sets of values and of documents for a type; n limits the depth *)
RECURSIVE Typical(_, _, _)
Typical(T, t, n) ==
  CASE t.k = "self" -> Zero(T, T)
    [] IsSc(t) -> V("b")
    [] n = 0 -> Zero(T, t)
    [] t.k = "ptr" -> To(Typical(T, t.e, n - 1))
    [] t.k = "slice" -> L(<<Typical(T, t.e, n - 1)>>)
    [] t.k = "array" -> L([i \in 1..t.n |-> Typical(T, t.e, n - 1)])
    [] t.k = "map" -> M(<<Entry("a", Typical(T, t.e, n - 1))>>)
    [] t.k = "struct" -> R([i \in 1..Len(t.f) |-> Typical(T, t.f[i].t, n - 1)])

RECURSIVE Values(_, _, _)
Values(T, t, n) ==
  CASE IsSc(t) -> {V("zero"), V("a"), V("b")} \cup (IF Nullable(t) THEN {Nil} ELSE {})
    [] t.k = "self" -> IF n = 0 THEN {Zero(T, T)} ELSE Values(T, T, n - 1)
    [] n = 0 -> {Zero(T, t)}
    [] t.k = "ptr" -> {Nil} \cup {To(y) : y \in Values(T, t.e, n - 1)}
    [] t.k = "slice" -> {Nil, L(<<>>)} \cup {L(<<y>>) : y \in Values(T, t.e, n - 1)}
                        \cup {L(<<Typical(T, t.e, n), y>>) : y \in Values(T, t.e, n - 1)}
                        \cup {L([i \in 1..Many |-> Typical(T, t.e, n - 1)])}
    [] t.k = "array" -> {Zero(T, t)} \cup UNION {{L([Zero(T, t).c EXCEPT ![i] = y]), L([Typical(T, t, n).c EXCEPT ![i] = y])} :
                                                i \in 1..t.n, y \in Values(T, t.e, n - 1)}
    [] t.k = "map" -> {Nil, M(<<>>)} \cup {M(<<Entry("b", y)>>) : y \in Values(T, t.e, n - 1)}
                      \cup {M(<<Entry("a", Typical(T, t.e, n)), Entry("b", y)>>) : y \in Values(T, t.e, n - 1)}
                      \cup (IF t.key = "string" THEN {M([i \in 1..Many |-> Entry("k" \o ToString(i), Typical(T, t.e, n - 1))])} ELSE {})
    [] t.k = "struct" -> {Zero(T, t), Typical(T, t, n)}
                         \cup UNION {{R([Zero(T, t).c EXCEPT ![i] = y]) : y \in Values(T, t.f[i].t, n - 1)} : i \in 1..Len(t.f)}

NoFlags == [omit |-> FALSE, strict |-> FALSE, ptr |-> FALSE, inline |-> FALSE]
RECURSIVE Docs(_, _, _, _)
Docs(T, t, n, fl) ==
  LET Sub == Docs(T, t.e, n - 1, fl)
      Rep == Encode(T, t.e, Typical(T, t.e, n), fl)
  IN CASE IsSc(t) -> {Scalar(t.k, "zero"), Scalar(t.k, "a"), Scalar(t.k, "b"), Null}
                     \cup (IF t.k \in NoMisfit THEN {} ELSE {Misfit(t.k)})
                     \cup (IF t.k = "any" THEN {} ELSE {List(<<>>), Mapping(<<>>)})
       [] t.k = "self" -> IF n = 0 THEN {Null, Mapping(<<>>)} ELSE Docs(T, T, n - 1, fl)
       [] n = 0 -> {Null, Word}
       [] t.k = "ptr" -> Sub
       [] t.k \in {"slice", "array"} ->
            {Null, Word, Mapping(<<>>), List(<<>>)} \cup {List(<<d>>) : d \in Sub} \cup {List(<<Rep, d>>) : d \in Sub}
            \cup (IF t.k = "array" THEN {List(<<Rep, Rep, d>>) : d \in Sub} ELSE {})
            \cup {List([i \in 1..Many |-> Rep])}
       [] t.k = "map" ->
            {Null, Word, Mapping(<<>>), List(<<>>)} \cup {Mapping(<<Entry("b", d)>>) : d \in Sub}
            \cup {Mapping(<<Entry("a", Rep), Entry("b", d)>>) : d \in Sub}
            \cup (IF t.key = "string" THEN {Mapping([i \in 1..Many |-> Entry("k" \o ToString(i), Rep)])} ELSE {})
            \cup (IF t.key \in NoMisfit THEN {} ELSE {Mapping(<<Entry("bad", Rep)>>), Mapping(<<Entry("a", Rep), Entry("bad", Rep)>>)})
       [] t.k = "struct" ->
            {Null, Word, List(<<>>), Mapping(<<>>), Mapping(<<Entry("?", Word)>>)}
            \cup UNION {{Mapping(<<Entry(l.n, d)>>) : d \in Docs(T, l.t, n - 1, fl)}
                        \cup {Mapping(<<Entry("?", List(<<Word>>)), Entry(l.n, d)>>) : d \in Docs(T, l.t, n - 1, fl)}
                        : l \in Leaves(t, fl)}
=============================================================================
