------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* What a document means does not depend on how large its parts are: every *)
(* construct is repeated up to thousands of times (words, lines, escapes,  *)
(* blanks, items, nesting levels, anchors, comments...), next to other     *)
(* large constructs.  Texts and values are run-length encoded: a run       *)
(* <<u, n>> stands for n copies of u.  In a unit, % is the number of the   *)
(* copy (from 0), @ that of the next one, $e and $g are letters outside of  *)
(* ASCII, a line break brings the                                          *)
(* indentation of the place with it, and ^ is a line break with the        *)
(* indentation growing with each copy.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Kinds, Counts, Containers, MaxParts, Obs, Breaks

VARIABLES container, parts, kind, done
vars == <<container, parts, kind, done>>

one(u) == <<u, 1>>
Str(r) == [t |-> "str", r |-> r, n |-> 1]
Many(t, n) == [t |-> t, r |-> <<>>, n |-> n]
NL == "\n"

\* block constructs can't be inside of flow collections
BlockOnly == {"lit", "litlong", "litblank", "litkeep", "litclip", "litstrip", "litindent", "fold", "foldblank", "foldkeep",
              "blockseq", "blockmap", "blockkeys", "compact", "seqdeep", "mapdeep", "anchors", "aliases", "nulls", "comments",
              "blanks", "trailing", "longcomment", "tagged", "inseq", "merge"}
Src(k, n) ==
  CASE k = "word"      -> <<<<"w", n>>>>
    [] k = "words"     -> <<one("w"), <<" w%", n>>>>
    [] k = "lines"     -> <<one("w"), <<"\nw%", n>>>>
    [] k = "gap"       -> <<one("w"), <<" ", n>>, one("w")>>
    [] k = "gaptab"    -> <<one("w "), <<"\t", n>>, one("w")>>
    [] k = "plainblank" -> <<one("w"), <<NL, n + 1>>, one("w")>>
    [] k = "colons"    -> <<one("w"), <<":w", n>>>>
    [] k = "hashes"    -> <<one("w"), <<"#", n>>>>
    [] k = "dq"        -> <<one("\""), <<"$e", n>>, one("\"")>>
    [] k = "dqesc"     -> <<one("\""), <<"\\n", n>>, one("\"")>>
    [] k = "dqhex"     -> <<one("\""), <<"\\x41", n>>, one("\"")>>
    [] k = "dquni"     -> <<one("\""), <<"\\u00e9\\U0001F600", n>>, one("\"")>>
    [] k = "dqquote"   -> <<one("\""), <<"\\\"\\\\", n>>, one("\"")>>
    [] k = "dqlines"   -> <<one("\"w"), <<"\nw%", n>>, one("\"")>>
    [] k = "dqblank"   -> <<one("\"w"), <<NL, n + 1>>, one("w\"")>>
    [] k = "dqcont"    -> <<one("\""), <<"w%\\\n", n>>, one("\"")>>
    [] k = "dqspaces"  -> <<one("\""), <<" ", n>>, one("\"")>>
    [] k = "sq"        -> <<one("'"), <<"x", n>>, one("'")>>
    [] k = "sqquote"   -> <<one("'"), <<"''", n>>, one("'")>>
    [] k = "sqlines"   -> <<one("'w"), <<"\nw%", n>>, one("'")>>
    [] k = "sqblank"   -> <<one("'w"), <<NL, n + 1>>, one("w'")>>
    [] k = "lit"       -> <<one("|"), <<"\nw%", n>>>>
    [] k = "litlong"   -> <<one("|\n"), <<"w", n>>>>
    [] k = "litblank"  -> <<one("|\nw"), <<NL, n + 1>>, one("w")>>
    [] k = "litkeep"   -> <<one("|+\nw"), <<NL, n>>>>
    [] k = "litclip"   -> <<one("|\nw"), <<NL, n>>>>
    [] k = "litstrip"  -> <<one("|-\nw"), <<NL, n>>>>
    [] k = "litindent" -> <<one("|\n"), <<" ", n>>, one("w")>>
    [] k = "fold"      -> <<one(">"), <<"\nw%", n>>>>
    [] k = "foldblank" -> <<one(">\nw"), <<NL, n + 1>>, one("w")>>
    [] k = "foldkeep"  -> <<one(">+\nw"), <<NL, n>>>>
    [] k = "flowseq"   -> <<one("["), <<"%, ", n>>, one("]")>>
    [] k = "flowlines" -> <<one("["), <<"\n%,", n>>, one("\n]")>>
    [] k = "flowmap"   -> <<one("{"), <<"k%: %, ", n>>, one("}")>>
    [] k = "flowpairs" -> <<one("["), <<"k%: %, ", n>>, one("]")>>
    [] k = "flowquoted" -> <<one("{"), <<"\"k%\":%, ", n>>, one("}")>>
    [] k = "flowdeep"  -> <<<<"[", n>>, one("x"), <<"]", n>>>>
    [] k = "flowmapdeep" -> <<<<"{k: ", n>>, one("x"), <<"}", n>>>>
    [] k = "flowmixdeep" -> <<<<"[{k: ", n>>, one("x"), <<"}]", n>>>>
    [] k = "flowaliases" -> <<one("[&a x"), <<", *a", n>>, one("]")>>
    [] k = "chain"     -> <<one("[&a0 x"), <<", &a@ [*a%]", n>>, one("]")>>
    [] k = "longanchor" -> <<one("&"), <<"a", n>>, one(" x")>>
    [] k = "longtag"   -> <<one("!"), <<"t", n>>, one(" x")>>
    [] k = "blockseq"  -> <<<<"\n- %", n>>>>
    [] k = "blockmap"  -> <<<<"\nk%: %", n>>>>
    [] k = "blockkeys" -> <<<<"\n? k%\n: %", n>>>>
    [] k = "compact"   -> <<one(NL), <<"- ", n>>, one("x")>>
    [] k = "seqdeep"   -> <<<<"^-", n>>, one(" x")>>
    [] k = "mapdeep"   -> <<<<"^k:", n>>, one(" x")>>
    [] k = "anchors"   -> <<<<"\n- &a% %", n>>, <<"\n- *a%", n>>>>
    [] k = "aliases"   -> <<one("\n- &a x"), <<"\n- *a", n>>>>
    [] k = "nulls"     -> <<<<"\n-", n>>>>
    [] k = "comments"  -> <<one("\n- 0"), <<"\n# c%", n>>, one("\n- 1")>>
    [] k = "blanks"    -> <<one("\n- 0"), <<NL, n>>, one("\n- 1")>>
    [] k = "trailing"  -> <<one("\n- 0"), <<" ", n>>, one("\n- 1")>>
    [] k = "longcomment" -> <<one("\n- 0 #"), <<"c ", n>>, one("\n- 1")>>
    [] k = "tagged"    -> <<<<"\n- !!int %", n>>>>
    [] k = "inseq"     -> <<<<"\n- k: %", n>>>>
    [] k = "merge"     -> <<one("\n<<:"), <<"\n- k%: %", n>>>>

Val(k, n) ==
  CASE k \in {"word", "litstripped"} -> Str(<<<<"w", n>>>>)
    [] k = "words"     -> Str(<<one("w"), <<" w%", n>>>>)
    [] k \in {"lines", "dqlines", "sqlines"} -> Str(<<one("w"), <<" w%", n>>>>)
    [] k = "gap"       -> Str(<<one("w"), <<" ", n>>, one("w")>>)
    [] k = "gaptab"    -> Str(<<one("w "), <<"\t", n>>, one("w")>>)
    [] k \in {"plainblank", "dqblank", "sqblank"} -> Str(<<one("w"), <<NL, n>>, one("w")>>)
    [] k = "colons"    -> Str(<<one("w"), <<":w", n>>>>)
    [] k = "hashes"    -> Str(<<one("w"), <<"#", n>>>>)
    [] k = "dq"        -> Str(<<<<"$e", n>>>>)
    [] k = "dqesc"     -> Str(<<<<NL, n>>>>)
    [] k = "dqhex"     -> Str(<<<<"A", n>>>>)
    [] k = "dquni"     -> Str(<<<<"$e$g", n>>>>)
    [] k = "dqquote"   -> Str(<<<<"\"\\", n>>>>)
    [] k = "dqcont"    -> Str(<<<<"w%", n>>>>)
    [] k = "dqspaces"  -> Str(<<<<" ", n>>>>)
    [] k = "sq"        -> Str(<<<<"x", n>>>>)
    [] k = "sqquote"   -> Str(<<<<"'", n>>>>)
    [] k = "lit"       -> Str(<<<<"w%\n", n>>>>)
    [] k = "litlong"   -> Str(<<<<"w", n>>, one(NL)>>)
    [] k = "litblank"  -> Str(<<one("w"), <<NL, n + 1>>, one("w\n")>>)
    [] k \in {"litkeep", "foldkeep"} -> Str(<<one("w"), <<NL, n + 1>>>>)
    [] k \in {"litclip", "litindent"} -> Str(<<one("w\n")>>)
    [] k = "litstrip"  -> Str(<<one("w")>>)
    [] k = "fold"      -> Str(<<one("w0"), <<" w@", n - 1>>, one(NL)>>)
    [] k = "foldblank" -> Str(<<one("w"), <<NL, n>>, one("w\n")>>)
    [] k \in {"flowseq", "flowlines", "blockseq", "tagged"} -> Many("ints", n)
    [] k \in {"flowmap", "flowquoted", "blockmap", "blockkeys"} -> Many("map", n)
    [] k \in {"flowpairs"} -> Many("pairs", n)
    [] k = "inseq"     -> Many("samepairs", n)
    [] k \in {"flowdeep", "compact", "seqdeep"} -> Many("seqdeep", n)
    [] k \in {"flowmapdeep", "mapdeep"} -> Many("mapdeep", n)
    [] k = "flowmixdeep" -> Many("mixdeep", n)
    [] k \in {"flowaliases", "aliases"} -> Many("same", n + 1)
    [] k = "chain"     -> Many("chain", n)
    [] k \in {"longanchor", "longtag"} -> Str(<<one("x")>>)
    [] k = "anchors"   -> Many("twice", n)
    [] k = "nulls"     -> Many("nulls", n)
    [] k \in {"comments", "blanks", "trailing", "longcomment"} -> Many("ints", 2)
    [] k = "merge"     -> Many("merged", n)

\* sizes grow faster than the amount of copies
Cap(k) == CASE k \in {"chain"} -> 65
            [] k \in {"seqdeep", "mapdeep", "compact", "flowdeep", "flowmapdeep", "flowmixdeep"} -> 257
            [] OTHER -> 100000
Closed == {"dq", "dqesc", "dqhex", "dquni", "dqquote", "dqlines", "dqblank", "dqcont", "dqspaces", "sq", "sqquote", "sqlines", "sqblank",
           "flowseq", "flowlines", "flowmap", "flowpairs", "flowquoted", "flowdeep", "flowmapdeep", "flowmixdeep", "flowaliases", "chain"}
\* a construct one of whose closing marks is missing or doubled
Break(r, b) == CASE b = "none" -> r
                 [] b = "unclosed" -> [r EXCEPT ![Len(r)][2] = @ - 1]
                 [] b = "extra" -> [r EXCEPT ![Len(r)][2] = @ + 1]

Part(k, n, b) == [src |-> Break(Src(k, n), b), val |-> Val(k, n), block |-> k \in BlockOnly, broken |-> b # "none"]
Broken == \E i \in 1..Len(parts) : parts[i].broken
Init == container \in Containers /\ parts = <<>> /\ kind = "" /\ done = FALSE
Choose == /\ ~done /\ kind = "" /\ Len(parts) < (IF container = "root" THEN 1 ELSE MaxParts)
          /\ \E k \in Kinds :
               /\ k \in BlockOnly => container \in {"root", "blockseq", "blockmap"}
               /\ k = "merge" => Obs = {"any"}
               /\ kind' = k
          /\ UNCHANGED <<container, parts, done>>
Add == /\ kind # ""
       /\ \E n \in Counts, b \in Breaks :
            /\ n <= Cap(kind)
            /\ b # "none" => (~Broken /\ kind \in Closed)
            /\ parts' = Append(parts, Part(kind, n, b))
       /\ kind' = ""
       /\ UNCHANGED <<container, done>>
Finish == /\ ~done /\ kind = "" /\ parts # <<>> /\ (container = "root" \/ Len(parts) = MaxParts)
          /\ done' = TRUE /\ UNCHANGED <<container, parts, kind>>
Next == Choose \/ Add \/ Finish
Spec == Init /\ [][Next]_vars

(* What is repeated in the text is repeated as many times in the value, or is presentation only *)
Copies(r) == LET RECURSIVE C(_)
                 C(i) == IF i > Len(r) THEN 0 ELSE (IF r[i][2] > C(i + 1) THEN r[i][2] ELSE C(i + 1))
             IN C(1)
SameCopies == \A i \in 1..Len(parts) :
                LET p == parts[i] IN
                p.val.t = "str" /\ ~p.broken => Copies(p.val.r) \in {1} \cup {Copies(p.src) + d - 1 : d \in {0, 1, 2}}
FlowOnly == container \in {"flowseq", "flowmap"} => \A i \in 1..Len(parts) : ~parts[i].block
OneBroken == \A i, j \in 1..Len(parts) : parts[i].broken /\ parts[j].broken => i = j
Emit == done /\ (Broken \/ Breaks = {"none"}) =>
          PrintT("B " \o ToJson([container |-> container, parts |-> parts, obs |-> IF Broken THEN {"refuse"} ELSE Obs]))
=============================================================================
