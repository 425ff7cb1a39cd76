------------------------------ MODULE ReaderMC ------------------------------
(* Bounded instances of the decoder: families of documents and alphabets of reads *)
EXTENDS YamlData, Json

CONSTANTS MaxOps, Family, Alphabet, Modes

I == Scalar("int", "7")
S == Scalar("str", "x")
N == Scalar("null", "null")
B == Scalar("bool", "true")
F == Scalar("float", "1.5")
T == Scalar("ts", "2020-01-02")
K == Scalar("str", "k")
L == Scalar("str", "l")

Leaves == {I, S, N, B, F, T}
Small  == {I, S, N}
Colls1 == {SeqN(<<>>), MapN(<<>>), SeqN(<<I>>), MapN(<<K, S>>)}

(* every scalar alone and as only entry *)
Flat == Leaves \cup {SeqN(<<x>>) : x \in Leaves} \cup {MapN(<<K, x>>) : x \in Leaves}

(* one level of nesting with siblings before and behind *)
Mixed == {SeqN(<<x, y>>) : x \in Small \cup Colls1, y \in {I, N} \cup Colls1}
     \cup {MapN(<<K, x, L, y>>) : x \in {I} \cup Colls1, y \in {S, N} \cup Colls1}

(* nesting of depth three: the cursor has to leave several collections at once *)
Deep == {SeqN(<<SeqN(<<SeqN(<<I>>)>>), S>>),
         SeqN(<<SeqN(<<SeqN(<<>>)>>), S>>),
         MapN(<<K, MapN(<<L, SeqN(<<I, I>>)>>), L, I>>),
         MapN(<<K, SeqN(<<MapN(<<K, I>>), MapN(<<>>)>>), L, N>>),
         SeqN(<<MapN(<<K, SeqN(<<>>), L, I>>), MapN(<<K, N>>)>>),
         MapN(<<SeqN(<<I>>), S, K, I>>),
         MapN(<<I, S, N, I, B, MapN(<<K, K>>)>>)}

(* anchors and aliases: "a" names an anchor, redefined, nested or containing its alias *)
A(n)  == Anchored(n, "a")
Bn(n) == Anchored(n, "b")
RA == AliasN("a")
RB == AliasN("b")
Aliased ==
  LET targets == {A(I), A(N), A(SeqN(<<I, S>>)), A(SeqN(<<>>)), A(MapN(<<K, I>>)), A(MapN(<<K, SeqN(<<I>>)>>))}
  IN {SeqN(<<t, RA>>) : t \in targets}
     \cup {SeqN(<<t, RA, S>>) : t \in targets}
     \cup {MapN(<<K, t, L, RA>>) : t \in targets}
     \cup {SeqN(<<A(I), RA, A(S), RA>>),                        \* redefinition
           SeqN(<<SeqN(<<A(I)>>), RA>>),                        \* anchor inside a finished collection
           MapN(<<K, MapN(<<L, A(SeqN(<<I>>))>>), L, RA>>),
           SeqN(<<A(SeqN(<<Bn(I), S>>)), RB, RA>>),             \* nested anchors
           SeqN(<<A(SeqN(<<Bn(I)>>)), Bn(S), RA, RB>>),         \* inner anchor redefined outside
           SeqN(<<A(I), SeqN(<<RA, A(S), RA>>), RA>>),
           SeqN(<<Bn(SeqN(<<A(I), RA>>)), RB, RA>>),
           MapN(<<A(K), I, L, RA>>),                            \* anchored key
           SeqN(<<A(SeqN(<<A(I)>>)), RA>>),                     \* same name inside
           SeqN(<<A(MapN(<<K, Bn(SeqN(<<I>>)), L, RB>>)), RA, RB>>)}

Cyclic == {A(SeqN(<<RA>>)),
           SeqN(<<I, A(SeqN(<<I, RA>>)), S>>),
           MapN(<<K, A(MapN(<<L, RA>>)), L, I>>),
           A(SeqN(<<Bn(SeqN(<<RA>>)), RB>>)),
           A(SeqN(<<Bn(SeqN(<<I>>)), RB, RA>>)),
           A(MapN(<<K, SeqN(<<SeqN(<<RA>>)>>)>>)),
           SeqN(<<A(I), Bn(SeqN(<<RA, RB>>)), RA>>)}

(* merge keys *)
MK == Scalar("str", "<<")
M1(v)    == MapN(<<K, v>>)
M2(v, w) == MapN(<<K, v, L, w>>)
Merges ==
  LET bases == {M1(I), M2(I, S), MapN(<<>>), M1(MapN(<<L, I>>)), M1(N),
                SeqN(<<M1(I), M2(S, S)>>), SeqN(<<M2(I, I), M1(S)>>), SeqN(<<>>), SeqN(<<M1(I), S>>), S, N}
      extra == {<<>>, <<K, B>>, <<L, B>>, <<K, MapN(<<L, B>>)>>}
  IN {MapN(<<MK, b>> \o e) : b \in bases, e \in extra}
     \cup {MapN(e \o <<MK, b>>) : b \in bases, e \in extra}
     \cup {MapN(<<K, B, MK, b, L, F>>) : b \in bases}
     \cup {MapN(<<MK, b, MK, M2(F, F)>>) : b \in bases}
     \cup {MapN(<<K, A(M2(I, S)), L, MapN(<<MK, RA, L, B>>)>>),
           MapN(<<K, A(M1(I)), L, Bn(MapN(<<L, S, MK, RA>>)), S, MapN(<<MK, SeqN(<<RA, RB>>)>>)>>),
           MapN(<<K, A(M1(I)), L, MapN(<<MK, MapN(<<MK, RA, L, B>>)>>)>>),
           SeqN(<<A(MapN(<<MK, M1(I), K, S>>)), MapN(<<MK, RA, L, I>>)>>),
           SeqN(<<A(M1(M1(I))), MapN(<<MK, RA, K, M1(S)>>), RA>>),
           SeqN(<<A(M2(I, I)), Bn(M2(S, S)), MapN(<<MK, SeqN(<<RA, RB>>)>>), MapN(<<MK, SeqN(<<RB, RA>>)>>)>>)}

DocsOf(f) == CASE f = "flat"  -> Flat
               [] f = "mixed" -> Mixed
               [] f = "deep"  -> Deep
               [] f = "alias" -> Aliased
               [] f = "cycle" -> Cyclic
               [] f = "merge" -> Merges
               [] f = "structural" -> Mixed \cup Deep
               [] f = "all" -> Flat \cup Mixed \cup Deep \cup Aliased \cup Cyclic \cup Merges

OpsOf(a) == CASE a = "typed"  -> {"null", "int", "uint", "float", "bool", "ts", "str", "seq", "map", "any", "raw", "skip"}
              [] a = "walk"   -> {"null", "int", "str", "seq", "map", "skip", "query"}
              [] a = "whole"  -> {"seq", "map", "any", "raw", "skip", "str"}
              [] a = "denials" -> {"null", "int", "float", "bool", "ts", "seq", "map", "query", "addnil"}
              [] a = "errors" -> {"null", "int", "str", "seq", "map", "query", "adderror", "addnil"}
              [] a = "any"    -> {"any"}
              [] a = "raw"    -> {"raw", "seq", "map", "skip"}
              [] a = "full"   -> {"null", "int", "uint", "float", "bool", "ts", "str", "seq", "map", "any", "raw",
                                  "skip", "query", "adderror", "addnil"}

Docs  == DocsOf(Family)
Ops   == OpsOf(Alphabet)
Multi == CASE Modes = "default" -> {FALSE} [] Modes = "collecting" -> {TRUE} [] Modes = "both" -> {TRUE, FALSE}

VARIABLES doc, multi, pending, touched, colls, fatal, denied, hist, done
R == INSTANCE Reader

Spec == R!Spec
Emit == R!Emit
Nested == R!Nested
NoDenialWithoutMulti == R!NoDenialWithoutMulti
FatalSticky == R!FatalSticky
AtMostOne == R!AtMostOne
(* the documents of the families are well formed: no dangling alias *)
NoDangling == ~Has(R!Resolve(doc), {"undef"})
=============================================================================
