----------------------------- MODULE Generated -----------------------------
(***************************************************************************)
(* Types are built field by field; then generated code decodes documents   *)
(* (built entry by entry) and encodes values (built field by field).       *)
(***************************************************************************)
EXTENDS Codec

CONSTANTS Family,    \* which types
          Mode,      \* "decode" or "encode"
          MaxFields, MaxEntries, Depth,
          Rounds     \* documents or values per type (1: stop after the first)

VARIABLES T, fl, phase, prior, doc, val, used, round
vars == <<T, fl, phase, prior, doc, val, used, round>>

Numeric == {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}
Kinds == Numeric \cup {"string", "bool", "time", "bytes", "nint8", "nuint", "nstring", "nbool", "nfloat32", "text", "textstruct", "yamly", "engine"}
Wraps(t) == {t, Ptr(t), Slice(t), Array(t), Map("string", t)}
Some == {"string", "int8", "bool", "time"}
\* wrapping of byte slices as elements of their own is left to "bytes"
P1 == UNION {Wraps(Sc(k)) : k \in Kinds} \ {Slice(Sc("uint8")), Array(Sc("uint8"))}
P2 == UNION {UNION {Wraps(t) : t \in Wraps(Sc(k)) \ {Sc(k)}} : k \in Some}
PKeys == {Map(k, Sc("bool")) : k \in {"int", "int8", "uint16", "uint64", "bool", "nint8", "nuint", "nstring", "float64", "float32", "text"}}
PArrays == {ArrayOf(Sc(k), n) : k \in Some, n \in {0, 1, 3}} \cup {ArrayOf(Slice(Sc("int")), 3), ArrayOf(ArrayOf(Sc("int"), 3), 1)}
PBytes == {Sc("bytes4"), Slice(Sc("bytes")), Map("string", Sc("bytes")), Ptr(Sc("bytes")), Array(Sc("bytes4"))}
Pair(nm, t1, t2) == Struct(nm, <<Field("x", t1, FALSE, "no"), Field("y", t2, TRUE, "no")>>)
Structs == {Pair("ext", Sc("int"), Sc("string"))} \cup {Pair(nm, t1, t2) : nm \in {"named", "anon"}, t1 \in {Sc("int"), Ptr(Sc("string"))}, t2 \in {Sc("string"), Slice(Sc("int8"))}}
           \cup {Struct("named", <<>>), Pair("named", Pair("named", Sc("bool"), Sc("int")), Map("string", Pair("named", Sc("time"), Sc("bool"))))}
P3 == UNION {Wraps(s) : s \in Structs}
PSelf == {Ptr(Self), Slice(Self), Map("string", Self), Slice(Ptr(Self)), Map("string", Ptr(Self))}
Small == {Sc("string"), Sc("int8"), Sc("bool"), Sc("float64"), Ptr(Sc("int")), Slice(Sc("string")), Map("string", Sc("int")),
          Array(Sc("bool")), Sc("bytes"), Pair("named", Sc("int"), Sc("string")), Ptr(Pair("named", Sc("uint8"), Ptr(Sc("bool"))))}
EmbeddedStructs == {Struct("named", <<Field("x1", Sc("int"), FALSE, "no"), Field("x2", Ptr(Sc("string")), TRUE, "no")>>),
                    Struct("named", <<Field("x1", Sc("int"), FALSE, "no"), Field("f1", Sc("string"), FALSE, "no")>>),
                    Struct("named", <<Field("z", Struct("named", <<Field("x3", Sc("string"), TRUE, "no"), Field("x4", Slice(Sc("int8")), FALSE, "no")>>), FALSE, "embed"),
                                      Field("x5", Sc("bool"), FALSE, "no")>>),
                    Struct("named", <<Field("z", Ptr(Struct("named", <<Field("x3", Sc("string"), FALSE, "no")>>)), FALSE, "embed"),
                                      Field("x5", Sc("bool"), FALSE, "no")>>)}
Embedded == EmbeddedStructs \cup {Ptr(s) : s \in EmbeddedStructs}
Second == Struct("named", <<Field("y1", Sc("string"), FALSE, "no"), Field("y2", Sc("int"), TRUE, "no")>>)
Tagged == {Second, Ptr(Second)}
\* many fields of different types
Mixture == <<Sc("string"), Sc("int8"), Sc("bool"), Sc("float64"), Ptr(Sc("int")), Slice(Sc("string")), Map("string", Sc("int")), Sc("time"), Sc("uint16"), Sc("bytes")>>
Wide(n) == Struct("named", [i \in 1..n |-> Field("g" \o ToString(i), Mixture[(i % 10) + 1], i % 3 = 0, IF i % 7 = 0 THEN "odd" ELSE "no")])

Palette == CASE Family = "leaves" -> P1 \cup P2 \cup PKeys \cup PBytes \cup PArrays
             [] Family = "structs" -> P3
             [] Family = "self" -> PSelf
             [] Family = "mixed" -> P1 \cup P2 \cup P3 \cup PSelf \cup PKeys \cup PBytes
             [] Family \in {"small", "inline", "names"} -> Small
             [] Family = "iface" -> Wraps(Sc("iface")) \cup Wraps(Sc("eiface"))
             [] Family = "wide" -> {}
             [] Family = "roots" -> {t \in P1 \cup P3 \cup PBytes : t.k \notin {"ptr", "time", "text", "textstruct", "yamly", "engine"}}
             [] Family = "any" -> {Sc("any"), Slice(Sc("any")), Map("string", Sc("any"))}
Flag(omit, strict, ptr, inline) == [omit |-> omit, strict |-> strict, ptr |-> ptr, inline |-> inline]
Flags == CASE Family \in {"leaves", "self", "any"} -> {NoFlags}
           [] Family = "inline" -> {NoFlags, Flag(FALSE, FALSE, FALSE, TRUE), Flag(TRUE, TRUE, TRUE, TRUE)}
           [] Family = "mixed" -> {Flag(a, b, c, FALSE) : a, b, c \in BOOLEAN}
           [] OTHER -> {NoFlags, Flag(TRUE, FALSE, FALSE, FALSE), Flag(FALSE, TRUE, TRUE, FALSE)}
Name(i) == <<"f1", "f2", "f3", "f4", "f5", "f6">>[i]
Oms == IF Family \in {"structs", "roots"} THEN {FALSE} ELSE BOOLEAN

Init == /\ fl \in Flags
        /\ IF Family = "roots" THEN T \in Palette /\ phase = "start"
           ELSE IF Family = "wide" THEN T \in {Wide(n) : n \in {9, 17, 33, 65}} /\ phase = "start" ELSE T = Struct("named", <<>>) /\ phase = "type"
        /\ prior = Nil /\ doc = Null /\ val = Nil /\ used = {} /\ round = 0

AddField == /\ phase = "type" /\ Len(T.f) < MaxFields
            /\ \/ \E t \in Palette, om \in Oms : T' = [T EXCEPT !.f = Append(@, Field(Name(Len(T.f) + 1), t, om, "no"))]
               \/ /\ Family \in {"inline", "names"}
                  /\ \E t \in Small, om \in BOOLEAN : T' = [T EXCEPT !.f = Append(@, Field(Name(Len(T.f) + 1), t, om, "odd"))]
               \/ /\ Family \in {"inline", "names"} /\ \A i \in 1..Len(T.f) : T.f[i].in # "tagged" /\ T.f[i].t \notin Tagged
                  /\ \E t \in Tagged, in \in {"tagged", "embed", "inline"} : T' = [T EXCEPT !.f = Append(@, Field(Name(Len(T.f) + 1), t, FALSE, in))]
               \/ /\ Family = "inline" /\ \A i \in 1..Len(T.f) : T.f[i].in \notin {"embed", "inline"} \/ T.f[i].t \in Tagged
                  /\ \E t \in Embedded, in \in {"embed", "inline"} : T' = [T EXCEPT !.f = Append(@, Field(Name(Len(T.f) + 1), t, FALSE, in))]
               \/ /\ Family = "inline" /\ \E t \in Small, om \in BOOLEAN, in \in {"skip", "plain", "hidden"} :
                                              T' = [T EXCEPT !.f = Append(@, Field(Name(Len(T.f) + 1), t, om, in))]
            /\ UNCHANGED <<fl, phase, prior, doc, val, used, round>>
TypeDone == /\ phase = "type" /\ Len(T.f) = MaxFields /\ (Family = "inline" => \E i \in 1..Len(T.f) : T.f[i].in \in {"embed", "inline"})
            /\ (Family = "names" => \E i \in 1..Len(T.f) : T.f[i].in \in {"odd", "tagged"})
            /\ phase' = "start" /\ UNCHANGED <<T, fl, prior, doc, val, used, round>>
-----------------------------------------------------------------------------
Leafs == IF T.k = "struct" THEN Leaves(T, fl) ELSE {}
\* the entries of a wide struct in several orders, with some missing or null
WideDocs == LET n == Len(T.f)
                At(i) == Entry(T.f[i].n, Encode(T, T.f[i].t, Typical(T, T.f[i].t, 3), fl))
                In(p) == [j \in 1..n |-> At(p[j])]
            IN {Mapping(In([j \in 1..n |-> j])), Mapping(In([j \in 1..n |-> n + 1 - j]))}
               \cup {Mapping(In([j \in 1..n |-> ((j + k) % n) + 1])) : k \in {1, 4, n \div 2}}
               \cup {Mapping(SubSeq(In([j \in 1..n |-> n + 1 - j]), 1, k)) : k \in {1, n \div 2, n - 1}}
               \cup {Mapping([j \in 1..n |-> IF j % 4 = k THEN Entry(T.f[j].n, Null) ELSE At(j)]) : k \in 0..3}
               \cup {Mapping(<<Entry("?", List(<<Word, Word>>))>> \o In([j \in 1..n |-> j]))}
               \cup {Mapping([j \in 1..n |-> IF j = k THEN Entry(T.f[j].n, List(<<List(<<>>)>>)) ELSE At(j)]) : k \in {1, n \div 2, n}}
WideValues == LET n == Len(T.f)  z == Zero(T, T).c  f == Typical(T, T, 3).c IN
              {R(z), R(f)} \cup {R([j \in 1..n |-> IF j % m = k THEN f[j] ELSE z[j]]) : m \in {2, 3}, k \in 0..2}
                          \cup {R([z EXCEPT ![n] = f[n]]), R([f EXCEPT ![n] = z[n]])}
Start == /\ phase = "start" /\ round < Rounds /\ round' = round + 1 /\ used' = {}
         /\ IF Mode = "decode"
            THEN /\ prior' \in (IF Family \in {"mixed", "leaves"} THEN {Typical(T, T, 3)} ELSE {Zero(T, T), Typical(T, T, 3)})
                 /\ val' = Nil
                 /\ IF Family = "wide" THEN phase' = "ready" /\ doc' \in WideDocs
                    ELSE IF T.k = "struct" /\ Family # "roots" THEN phase' = "doc" /\ doc' = Mapping(<<>>)
                    ELSE phase' = "ready" /\ doc' \in Docs(T, T, Depth, fl)
            ELSE /\ prior' = Nil /\ doc' = Null
                 /\ IF Family = "wide" THEN phase' = "ready" /\ val' \in WideValues
                    ELSE IF T.k = "struct" /\ Family # "roots" THEN phase' = "val" /\ val' = R(<<>>)
                    ELSE phase' = "ready" /\ val' \in Values(T, T, Depth)
         /\ UNCHANGED <<T, fl>>
AddEntry == /\ phase = "doc" /\ Len(doc.e) < MaxEntries
            /\ \/ \E l \in Leafs : /\ l.n \notin used
                                   /\ \E d \in Docs(T, l.t, Depth, fl) : doc' = Mapping(Append(doc.e, Entry(l.n, d)))
                                   /\ used' = used \cup {l.n}
               \/ /\ "?" \notin used /\ used' = used \cup {"?"}
                  /\ \E d \in {Word, List(<<Word, Null>>), Mapping(<<Entry("?", Word)>>)} : doc' = Mapping(Append(doc.e, Entry("?", d)))
            /\ UNCHANGED <<T, fl, phase, prior, val, round>>
DocDone == /\ phase = "doc" /\ phase' = "ready" /\ UNCHANGED <<T, fl, prior, doc, val, used, round>>
AddValue == /\ phase = "val" /\ Len(val.c) < Len(T.f)
            /\ \E y \in Values(T, T.f[Len(val.c) + 1].t, Depth) : val' = R(Append(val.c, y))
            /\ UNCHANGED <<T, fl, phase, prior, doc, used, round>>
ValDone == /\ phase = "val" /\ Len(val.c) = Len(T.f) /\ phase' = "ready" /\ UNCHANGED <<T, fl, prior, doc, val, used, round>>
Again == /\ phase = "ready" /\ round < Rounds /\ phase' = "start" /\ UNCHANGED <<T, fl, prior, doc, val, used, round>>

Next == AddField \/ TypeDone \/ Start \/ AddEntry \/ DocDone \/ AddValue \/ ValDone \/ Again
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Ready == phase = "ready"
\* null for a root which is not a struct leaves it as it is
Decoded == IF doc = Null /\ T.k # "struct" THEN Ok(prior) ELSE Decode(T, T, doc, prior, fl.omit, fl)
Written == Encode(T, T, val, fl)
\* a nil interface cannot be decoded into
ReadBack == IF Family = "iface" THEN Ok(Nil) ELSE IF Written = Null THEN Ok(Zero(T, T)) ELSE Decode(T, T, Written, Zero(T, T), fl.omit, fl)

(* What is written can be read, as the same value. *)
RoundTrip == (Ready /\ Mode = "encode" /\ Family # "iface") => (ReadBack.ok /\ Same(T, T, val, ReadBack.y, fl.omit, fl))
(* Fields without an entry (or with null) keep their value. *)
Kept == (Ready /\ Mode = "decode" /\ T.k = "struct" /\ doc.d = "m" /\ Decoded.ok) =>
          \A l \in Leaves(T, fl) : (\A i \in 1..Len(doc.e) : doc.e[i].n = l.n => doc.e[i].y = Null) =>
             LET was == Reached(prior, l.p)  is == Reached(Decoded.y, l.p) IN
             /\ was => (is /\ Get(Decoded.y, l.p) = Get(prior, l.p))
             /\ (is /\ ~was) => Get(Decoded.y, l.p) = Zero(T, l.t)
(* The order of entries does not matter. *)
AnyOrder == (Ready /\ Mode = "decode" /\ doc.d = "m" /\ T.k = "struct") =>
              LET back == [i \in 1..Len(doc.e) |-> doc.e[Len(doc.e) + 1 - i]]
                  r == Decode(T, T, Mapping(back), prior, fl.omit, fl)
              IN r.ok = Decoded.ok /\ (r.ok => r.y = Decoded.y)
Emit == Ready => PrintT("B " \o
          (IF Mode = "decode" THEN ToJson([t |-> T, fl |-> fl, p |-> prior, d |-> doc, ok |-> Decoded.ok, y |-> Decoded.y])
           ELSE ToJson([t |-> T, fl |-> fl, v |-> val, d |-> Written, y |-> ReadBack.y])))
=============================================================================
