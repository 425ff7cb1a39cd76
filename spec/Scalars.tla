------------------------------ MODULE Scalars -------------------------------
(***************************************************************************)
(* Types and values of plain scalars.                                      *)
(*                                                                         *)
(* A text is a sequence of one-character strings.  It is typed by its      *)
(* characters alone.  Integers are computed exactly, as sequences of       *)
(* decimal digits (most significant first, no leading zeros), so that the  *)
(* range of every bit size can be decided without machine arithmetic.      *)
(* Families of texts: all texts over an alphabet up to a length ("grow"),  *)
(* integers around every power-of-two boundary in every notation           *)
(* ("bounds"), floats, timestamps, words.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Family, MaxLen

Digits  == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitOf == [c \in {Digits[i] : i \in 1..10} |-> CHOOSE i \in 0..9 : Digits[i + 1] = c]
HexOf   == DigitOf @@ [c \in {"a", "A"} |-> 10] @@ [c \in {"b", "B"} |-> 11] @@ [c \in {"c", "C"} |-> 12]
             @@ [c \in {"d", "D"} |-> 13] @@ [c \in {"e", "E"} |-> 14] @@ [c \in {"f", "F"} |-> 15]
IsDigit(c) == c \in DOMAIN DigitOf
IsHex(c)   == c \in DOMAIN HexOf
IsOct(c)   == IsDigit(c) /\ DigitOf[c] < 8

All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE Head(s) \o Text(Tail(s))
RECURSIVE AllPrefix(_, _, _)
(* length of the longest prefix of digits starting at i *)
AllPrefix(s, i, n) == IF i + n > Len(s) \/ ~IsDigit(s[i + n]) THEN n ELSE AllPrefix(s, i, n + 1)

-----------------------------------------------------------------------------
(* arithmetic on sequences of digits 0..9, most significant first *)
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE IF d = <<>> THEN <<0>> ELSE d
RECURSIVE Carry(_)
Carry(a) == IF a = 0 THEN <<>> ELSE Carry(a \div 10) \o <<a % 10>>
(* d * m + a for small m and a *)
MulAdd(d, m, a) ==
  LET r == FoldRight(LAMBDA x, acc : [out |-> <<(x * m + acc.c) % 10>> \o acc.out, c |-> (x * m + acc.c) \div 10],
                     d, [out |-> <<>>, c |-> a])
  IN Carry(r.c) \o r.out
Pow2(n) == FoldLeft(LAMBDA acc, x : MulAdd(acc, 2, 0), <<1>>, [i \in 1..n |-> i])
RECURSIVE Dec(_)
Dec(d) == IF d[Len(d)] > 0 THEN [d EXCEPT ![Len(d)] = @ - 1]
          ELSE Append(Dec(SubSeq(d, 1, Len(d) - 1)), 9)
Inc(d) == MulAdd(d, 1, 1)
RECURSIVE LexLE(_, _)
LexLE(a, b) == \/ a = <<>>
               \/ Head(a) < Head(b)
               \/ Head(a) = Head(b) /\ LexLE(Tail(a), Tail(b))
LE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b))
RECURSIVE ShowDigits(_)
ShowDigits(d) == IF d = <<>> THEN "" ELSE ToString(Head(d)) \o ShowDigits(Tail(d))

(* digits of a text in the base to decimal digits *)
Convert(s, base) == Strip(FoldLeft(LAMBDA acc, c : MulAdd(acc, base, HexOf[c]), <<>>, s))

P2 == [n \in {7, 8, 15, 16, 31, 32, 63, 64} |-> Pow2(n)]
MaxU == [b \in {8, 16, 32, 64} |-> Strip(Dec(P2[b]))]
MaxI == [b \in {8, 16, 32, 64} |-> Strip(Dec(P2[b - 1]))]
MinI == [b \in {8, 16, 32, 64} |-> P2[b - 1]]     \* magnitude

-----------------------------------------------------------------------------
(* recognisers *)
Sign(s)    == IF s # <<>> /\ s[1] \in {"-", "+"} THEN s[1] ELSE ""
Unsign(s)  == IF Sign(s) = "" THEN s ELSE Tail(s)

IsNull(s)  == Text(s) \in {"", "~", "null", "Null", "NULL"}
IsTrue(s)  == Text(s) \in {"true", "True", "TRUE"}
IsFalse(s) == Text(s) \in {"false", "False", "FALSE"}
IsBool(s)  == IsTrue(s) \/ IsFalse(s)

IsDecimal(s) == Unsign(s) # <<>> /\ All(Unsign(s), IsDigit)
IsOctal(s)   == Len(s) > 2 /\ s[1] = "0" /\ s[2] = "o" /\ All(From(s, 3), IsOct)
IsHexa(s)    == Len(s) > 2 /\ s[1] = "0" /\ s[2] = "x" /\ All(From(s, 3), IsHex)
IsInt(s)     == IsDecimal(s) \/ IsOctal(s) \/ IsHexa(s)

IntValue(s) ==
  [neg |-> Sign(s) = "-",
   mag |-> IF IsOctal(s) THEN Convert(From(s, 3), 8)
           ELSE IF IsHexa(s) THEN Convert(From(s, 3), 16)
           ELSE Convert(Unsign(s), 10)]

(* [+-]? ( .d+ | d+ (. d* )? ) ( [eE] [+-]? d+ )? *)
FloatParts(s) ==
  LET u  == Unsign(s)
      n1 == AllPrefix(u, 1, 0)
      dot == n1 + 1 <= Len(u) /\ u[n1 + 1] = "."
      n2 == IF dot THEN AllPrefix(u, n1 + 2, 0) ELSE 0
      m  == n1 + (IF dot THEN 1 + n2 ELSE 0)        \* length of the mantissa
      rest == From(u, m + 1)
      exp  == IF rest = <<>> THEN <<>> ELSE Tail(rest)
  IN [ok |-> (n1 > 0 \/ (dot /\ n2 > 0))
             /\ (rest = <<>> \/ (rest[1] \in {"e", "E"} /\ Unsign(exp) # <<>> /\ All(Unsign(exp), IsDigit))),
      neg |-> Sign(s) = "-",
      int |-> SubSeq(u, 1, n1),
      frac |-> IF dot THEN SubSeq(u, n1 + 2, n1 + 1 + n2) ELSE <<>>,
      eneg |-> Sign(exp) = "-",
      exp |-> Unsign(exp)]
IsInf(s) == Text(Unsign(s)) \in {".inf", ".Inf", ".INF"}
IsNan(s) == Text(s) \in {".nan", ".NaN", ".NAN"}
IsFloat(s) == FloatParts(s).ok \/ IsInf(s) \/ IsNan(s)

-----------------------------------------------------------------------------
(* timestamps are generated from their parts; the type follows from the calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
TsOK(t) == /\ t.mo \in 1..12 /\ t.d \in 1..DaysIn(t.y, t.mo)
           /\ t.h < 24 /\ t.mi < 60 /\ t.s < 60

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
Num(n, padded) == IF padded THEN Pad2(n) ELSE ToString(n)
(* sep: "" (date only), "T", "t", " " *)
TsText(t) ==
  Pad4(t.y) \o "-" \o Num(t.mo, t.pad) \o "-" \o Num(t.d, t.pad)
  \o (IF t.sep = "" THEN "" ELSE
        t.sep \o Num(t.h, t.pad) \o ":" \o Num(t.mi, t.pad) \o ":" \o Num(t.s, t.pad)
        \o (IF t.frac = "" THEN "" ELSE "." \o t.frac)
        \o t.zone)

Dates(x) == {[y |-> y, mo |-> mo, d |-> d, h |-> 0, mi |-> 0, s |-> 0, frac |-> "", sep |-> "", zone |-> "", pad |-> p] :
             y \in {1, 1900, 2000, 2023, 2024, 9999}, mo \in {0, 1, 2, 4, 10, 12, 13}, d \in {0, 1, 9, 28, 29, 30, 31, 32},
             p \in BOOLEAN}
Zones(sep) == CASE sep = "T" -> {"Z", "+00:00", "-05:00", "+03:30"}
                [] sep = "t" -> {"+00:00", "-05:00", "+14:00"}
                [] OTHER     -> {""}
Times(x) == UNION {{[y |-> 2020, mo |-> mo, d |-> 3, h |-> h, mi |-> mi, s |-> s, frac |-> f, sep |-> sep, zone |-> z, pad |-> p] :
             mo \in {2, 13}, h \in {0, 9, 23, 24}, mi \in {0, 7, 59, 60}, s \in {0, 8, 59, 60},
             f \in {"", "5", "120", "000001", "123456789"}, z \in Zones(sep), p \in BOOLEAN} : sep \in {"T", "t", " "}}

-----------------------------------------------------------------------------
(* texts of the families (with a parameter: TLC evaluates constants in advance) *)
Alphabet == {"0", "1", "8", "-", "+", "x", "o", ".", "e", "f"}

ToChars(d) == [i \in 1..Len(d) |-> Digits[d[i] + 1]]
(* quotient and remainder of a digit sequence by a small number *)
DivBy(d, m) ==
  LET r == FoldLeft(LAMBDA acc, x : [q |-> Append(acc.q, (acc.r * 10 + x) \div m), r |-> (acc.r * 10 + x) % m],
                    [q |-> <<>>, r |-> 0], d)
  IN [q |-> Strip(r.q), r |-> r.r]
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "B", "c", "D", "e", "F">>
RECURSIVE InBase(_, _)
InBase(d, b) == LET x == DivBy(d, b)
                IN IF x.q = <<0>> THEN <<HexDigits[x.r + 1]>> ELSE Append(InBase(x.q, b), HexDigits[x.r + 1])

Around(d) == {Strip(Dec(Strip(Dec(d)))), Strip(Dec(d)), d, Inc(d), Inc(Inc(d))}
Boundaries == UNION {Around(P2[n]) : n \in DOMAIN P2} \cup {<<0>>, <<1>>, <<9>>, Pow2(70), Inc(Pow2(128))}
BoundTexts(x) ==
  UNION {{s \o z \o ToChars(d) : s \in {<<>>, <<"-">>, <<"+">>}, z \in {<<>>, <<"0">>, <<"0", "0", "0">>}}
         \cup {<<"0", "x">> \o z \o InBase(d, 16) : z \in {<<>>, <<"0", "0">>}}
         \cup {<<"0", "o">> \o z \o InBase(d, 8) : z \in {<<>>, <<"0">>}}
         \cup {s \o <<"0", "x">> \o InBase(d, 16) : s \in {<<"-">>, <<"+">>}}  \* no integer
         : d \in Boundaries}

FloatTexts(x) ==
  {s \o i \o f \o e :
     s \in {<<>>, <<"-">>, <<"+">>},
     i \in {<<>>, <<"0">>, <<"1", "2">>, <<"0", "0", "7">>, <<"9", "0", "0", "7", "1", "9", "9", "2", "5", "4", "7", "4", "0", "9", "9", "3">>},
     f \in {<<>>, <<".">>, <<".", "5">>, <<".", "0", "1">>, <<".", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3", "3">>},
     e \in {<<>>, <<"e">>, <<"e", "5">>, <<"E", "+", "1", "0">>, <<"e", "-", "3">>, <<"e", "3", "8">>, <<"e", "3", "9">>, <<"e", "3", "0", "8">>,
            <<"e", "4", "0", "0">>, <<"e", "-", "4", "0", "0">>, <<"e", "-", "3", "2", "4">>, <<"e", "-", "4", "5">>, <<"e", ".", "5">>, <<"e", "+">>,
            <<"e", "0", "0", "0", "5">>, <<"E", "-", "0", "0", "0", "0", "2">>, <<"e", "+", "1", "0", "0", "0">>, <<"e", "-", "1", "0", "0", "0", "0">>}}

Words == {<<>>, <<"~">>, <<"~", "~">>, <<"n", "u", "l", "l">>, <<"N", "u", "l", "l">>, <<"N", "U", "L", "L">>, <<"n", "U", "l", "l">>, <<"n", "u", "l">>,
          <<"n", "u", "l", "l", "s">>, <<"t", "r", "u", "e">>, <<"T", "r", "u", "e">>, <<"T", "R", "U", "E">>, <<"t", "R", "U", "E">>,
          <<"f", "a", "l", "s", "e">>, <<"F", "a", "l", "s", "e">>, <<"F", "A", "L", "S", "E">>, <<"f", "A", "l", "s", "e">>,
          <<"y", "e", "s">>, <<"n", "o">>, <<"o", "n">>, <<"o", "f", "f">>, <<"y">>, <<"n">>, <<"Y", "e", "s">>,
          <<".", "i", "n", "f">>, <<".", "I", "n", "f">>, <<".", "I", "N", "F">>, <<".", "i", "N", "f">>, <<"-", ".", "i", "n", "f">>, <<"+", ".", "I", "N", "F">>,
          <<"i", "n", "f">>, <<".", "n", "a", "n">>, <<".", "N", "a", "N">>, <<".", "N", "A", "N">>, <<".", "N", "a", "n">>, <<"-", ".", "n", "a", "n">>, <<"n", "a", "n">>,
          <<"0", "x">>, <<"0", "o">>, <<"0", "x", "g">>, <<"0", "o", "8">>, <<"0", "X", "1">>, <<"0", "O", "1">>, <<"0", "b", "1">>, <<"1", "_", "0">>, <<"1", ",", "0">>,
          <<"1", " ", "2">>, <<"a", " ", "b">>, <<"1", "2", "a">>, <<"1", "2", ":", "3", "0">>, <<"1", ".", "2", ".", "3">>, <<"=">>, <<"<", "<">>,
          <<"2", "0", "2", "0", "-", "0", "1">>, <<"0", "1">>, <<"0", "8">>, <<"-", "0">>, <<"+", "0">>, <<"-", "-", "1">>, <<"+", "-", "1">>}

NoTs == [none |-> TRUE]

VARIABLES text,   \* characters (families without timestamps)
          ts,     \* parts of a timestamp
          done
vars == <<text, ts, done>>

Init == /\ done = FALSE
        /\ CASE Family = "grow"   -> text = <<>> /\ ts = NoTs
             [] Family = "bounds" -> text \in BoundTexts(1) /\ ts = NoTs
             [] Family = "floats" -> text \in FloatTexts(1) /\ ts = NoTs
             [] Family = "words"  -> text \in Words /\ ts = NoTs
             [] Family = "dates"  -> text = <<>> /\ ts \in Dates(1)
             [] Family = "times"  -> text = <<>> /\ ts \in Times(1)

Grow == /\ Family = "grow" /\ ~done /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c)
        /\ UNCHANGED <<ts, done>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<text, ts>>
Next == Grow \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* predicted reads *)
IntRead(s, b) ==
  LET v == IntValue(s)
  IN IF LE(v.mag, IF v.neg THEN MinI[b] ELSE MaxI[b])
     THEN (IF v.neg /\ v.mag # <<0>> THEN "-" ELSE "") \o ShowDigits(v.mag) ELSE "range"
UintRead(s, b) ==
  LET v == IntValue(s)
  IN IF v.neg THEN (IF v.mag = <<0>> THEN "?" ELSE "range")
     ELSE IF LE(v.mag, MaxU[b]) THEN ShowDigits(v.mag) ELSE "range"
AnyInt(s) == LET v == IntValue(s) IN IF v.neg THEN IntRead(s, 64) ELSE UintRead(s, 64)

FloatRead(s) ==
  IF IsInf(s) THEN [c |-> "inf", neg |-> Sign(s) = "-"]
  ELSE IF IsNan(s) THEN [c |-> "nan"]
  ELSE LET p == FloatParts(s)
       IN [c |-> "num", neg |-> p.neg, int |-> Text(p.int), frac |-> Text(p.frac), eneg |-> p.eneg, exp |-> Text(p.exp)]

Kind(s) == IF IsNull(s) THEN "null" ELSE IF IsInt(s) THEN "int" ELSE IF IsFloat(s) THEN "float"
           ELSE IF IsBool(s) THEN "bool" ELSE "str"

Predicted ==
  IF ts = NoTs THEN
    [text |-> Text(text), kind |-> Kind(text),
     ints |-> IF IsInt(text) THEN [b \in 1..4 |-> IntRead(text, <<8, 16, 32, 64>>[b])] ELSE <<>>,
     uints |-> IF IsInt(text) THEN [b \in 1..4 |-> UintRead(text, <<8, 16, 32, 64>>[b])] ELSE <<>>,
     anyint |-> IF IsInt(text) THEN AnyInt(text) ELSE "",
     float |-> IF IsFloat(text) THEN FloatRead(text) ELSE [c |-> "no"],
     bool |-> IF IsTrue(text) THEN "true" ELSE IF IsFalse(text) THEN "false" ELSE "no"]
  ELSE
    [text |-> TsText(ts), kind |-> IF TsOK(ts) THEN "ts" ELSE "str",
     ints |-> <<>>, uints |-> <<>>, anyint |-> "", float |-> [c |-> "no"], bool |-> "no",
     ts |-> ts]

(* every text has exactly one type, integers are numbers *)
TypesDisjoint == ts = NoTs =>
   /\ Cardinality({k \in {"null", "num", "bool"} :
          CASE k = "null" -> IsNull(text) [] k = "num" -> IsFloat(text) \/ IsInt(text) [] k = "bool" -> IsBool(text)}) <= 1
   /\ IsDecimal(text) => IsFloat(text)
(* ranges grow with the bit size, and a smaller size never gives another value *)
RangesNested == (ts = NoTs /\ IsInt(text)) =>
   \A i, j \in {8, 16, 32, 64} : i < j => /\ IntRead(text, i) # "range" => IntRead(text, j) = IntRead(text, i)
                                          /\ UintRead(text, i) # "range" => UintRead(text, j) = UintRead(text, i)
Emit == done => PrintT("B " \o ToJson(Predicted))
=============================================================================
