------------------------------ MODULE Numerals ------------------------------
(***************************************************************************)
(* Spellings of words over the characters that make up numbers: which of   *)
(* them are numbers, and which number they denote.  A spelling grows one   *)
(* character at a time through the automaton; a number is denoted by its   *)
(* significant digits and a power of ten.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Digits,      \* digits to use, as one-character strings
          Others,      \* further characters
          MaxLen
VARIABLES chars, q
vars == <<chars, q>>

IsDig(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* start, sgn(+), neg(-), int, pint (after +), dot, frac, e, exp (after e-), edig, word
Step(s, c) ==
  CASE s = "word" -> "word"
    [] s = "start" -> IF IsDig(c) THEN "int" ELSE IF c = "-" THEN "neg" ELSE IF c = "+" THEN "sgn" ELSE "word"
    [] s = "neg" -> IF IsDig(c) THEN "int" ELSE "word"
    [] s = "sgn" -> IF IsDig(c) THEN "pint" ELSE "word"
    [] s \in {"int", "pint"} -> IF IsDig(c) THEN s ELSE IF c = "." THEN "dot" ELSE IF c \in {"e", "E"} THEN "e" ELSE "word"
    [] s = "dot" -> IF IsDig(c) THEN "frac" ELSE "word"
    [] s = "frac" -> IF IsDig(c) THEN "frac" ELSE IF c \in {"e", "E"} THEN "e" ELSE "word"
    [] s = "e" -> IF c = "-" THEN "exp" ELSE "word"
    [] s \in {"exp", "edig"} -> IF IsDig(c) THEN "edig" ELSE "word"
\* integers, decimals and negative exponents are numbers; everything else is
\* read as the word it is (+5, 5., .5, 1e5 included)
Class(s) == IF s = "int" THEN "int" ELSE IF s = "frac" THEN "dec" ELSE IF s = "edig" THEN "exp" ELSE "word"

Init == chars = <<>> /\ q = "start"
Next == /\ Len(chars) < MaxLen
        /\ \E c \in Digits \cup Others : chars' = Append(chars, c) /\ q' = Step(q, c)
\* words stay words: explore them one character further only
Live == q # "word" \/ Len(chars) < 4
Spec == Init /\ [][Next /\ Live]_vars

-----------------------------------------------------------------------------
(* What a number spelling denotes: [neg, ds (no leading or trailing zeros), *)
(* ex]: +-0.ds * 10^ex                                                     *)
DV(c) == CHOOSE n \in 0..9 : ToString(n) = c
Pos(s, C) == IF \E i \in 1..Len(s) : s[i] \in C THEN CHOOSE i \in 1..Len(s) : s[i] \in C /\ \A j \in 1..(i - 1) : s[j] \notin C ELSE 0
RECURSIVE ToInt(_)
ToInt(ds) == IF ds = <<>> THEN 0 ELSE 10 * ToInt(SubSeq(ds, 1, Len(ds) - 1)) + DV(ds[Len(ds)])
RECURSIVE StripL(_)
StripL(ds) == IF ds # <<>> /\ ds[1] = "0" THEN StripL(Tail(ds)) ELSE ds
RECURSIVE StripR(_)
StripR(ds) == IF ds # <<>> /\ ds[Len(ds)] = "0" THEN StripR(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Parse(s) ==
  LET neg == s[1] = "-"
      u == IF s[1] \in {"-", "+"} THEN Tail(s) ELSE s
      pe == Pos(u, {"e", "E"})
      man == IF pe = 0 THEN u ELSE SubSeq(u, 1, pe - 1)
      ex == IF pe = 0 THEN 0 ELSE 0 - ToInt(SubSeq(u, pe + 2, Len(u)))
      pd == Pos(man, {"."})
      ip == IF pd = 0 THEN man ELSE SubSeq(man, 1, pd - 1)
      fp == IF pd = 0 THEN <<>> ELSE SubSeq(man, pd + 1, Len(man))
      all == ip \o fp
      l == StripL(all)
      ds == StripR(l)
  IN IF ds = <<>> THEN [neg |-> FALSE, ds |-> <<>>, ex |-> 0]
     ELSE [neg |-> neg, ds |-> ds, ex |-> ex + Len(ip) - (Len(all) - Len(l))]

IsNum == Class(q) # "word"
\* the same number spelled differently: a leading zero, a trailing zero of the
\* fraction, the point moved by one place and a negative exponent
Body == IF chars[1] \in {"-", "+"} THEN Tail(chars) ELSE chars
Sign == IF chars[1] \in {"-", "+"} THEN <<chars[1]>> ELSE <<>>
LeadingZero == IsNum => Parse(Sign \o <<"0">> \o Body) = Parse(chars)
TrailingZero == Class(q) = "dec" => Parse(Append(chars, "0")) = Parse(chars)
Decimal == Class(q) = "int" => Parse(chars \o <<".", "0">>) = Parse(chars)
Shifted == Class(q) = "int" => Parse(chars \o <<"0", "e", "-", "1">>) = Parse(chars)
\* the automaton accepts the longer spellings, too
RECURSIVE RunFrom(_, _)
RunFrom(s, cs) == IF cs = <<>> THEN s ELSE RunFrom(Step(s, Head(cs)), Tail(cs))
Automaton == RunFrom("start", chars) = q
\* longer spellings: runs of characters appended as a whole (Digits and Others
\* are then sets of runs, each a sequence of characters)
NextRun == /\ TLCGet("level") <= MaxLen
           /\ q # "word"
           /\ \E c \in Digits \cup Others : chars' = chars \o c /\ q' = RunFrom(q, c)
           /\ q' = "edig" => Len(chars') - Pos(chars', {"e", "E"}) <= 3     \* (two digits)
SpecRuns == Init /\ [][NextRun]_vars
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Export == chars # <<>> => PrintT(ToJson(
  [text |-> Cat(chars), class |-> Class(q),
   val |-> IF IsNum THEN [neg |-> IF Parse(chars).neg THEN 1 ELSE 0, ds |-> Cat(Parse(chars).ds), ex |-> Parse(chars).ex] ELSE [neg |-> 0, ds |-> "", ex |-> 0]]))
=============================================================================
