------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* Texts over the characters that matter to the format, how they are       *)
(* quoted, and how a quoted text is recovered.                             *)
(* "s" blank, "n" line break, "q" double quote, "b" backslash, "l" and "r" *)
(* brackets, "a" letter, "d" digit, "u" non-ASCII letter.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Chars, MaxLen
VARIABLES text
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c)
Spec == Init /\ [][Next]_text

RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = "q" THEN <<"b", "q">> ELSE <<Head(s)>>) \o Escape(Tail(s))
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>>
               ELSE IF Len(s) > 1 /\ s[1] = "b" /\ s[2] = "q" THEN <<"q">> \o Unescape(SubSeq(s, 3, Len(s)))
               ELSE <<s[1]>> \o Unescape(Tail(s))
\* quoting loses nothing, and no quote inside is mistaken for the end
Lossless == Unescape(Escape(text)) = text
Protected == LET e == Escape(text) IN \A i \in 1..Len(e) : e[i] = "q" => i > 1 /\ e[i - 1] = "b"
\* the one ambiguity of the format: a text that ends in a backslash makes the
\* closing quote look like an escaped one (known finding F01)
Ambiguous == text # <<>> /\ text[Len(text)] = "b"
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Export == PrintT(ToJson([text |-> Cat(text), amb |-> IF Ambiguous THEN 1 ELSE 0]))
=============================================================================
