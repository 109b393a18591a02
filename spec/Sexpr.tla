------------------------------- MODULE Sexpr -------------------------------
(***************************************************************************)
(* Abstract S-expressions.                                                 *)
(*                                                                         *)
(* A leaf is a record [c |-> class, p |-> payload].  Classes:              *)
(*   "none" unset      "T"/"F" booleans    "lit" the literal text p        *)
(*   "t0" empty text   "t1","t2" arbitrary texts (p = where they live)     *)
(*   "n0" zero         "n1","n2" arbitrary numbers ("q4","q6" with at most *)
(*   4 or 6 decimals, "i9" small natural number)                           *)
(*   "w1" arbitrary unquoted word     "i1","i2","i3" library identifiers,  *)
(*   "iu" identifier of a unit of the enclosing symbol                     *)
(*   "y1" layer name   "x1","x2" wildcard layer names   "h1" hex digits    *)
(*   "u1" anything unknown                                                 *)
(* The specification never looks into an arbitrary value (data             *)
(* independence): the conformance harness substitutes concrete values for  *)
(* them, so one abstract state stands for every choice of values.          *)
(*                                                                         *)
(* A tree is a record [k, v, c]: k = "a" unquoted atom, "q" quoted string, *)
(* "l" list with children c.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Leaf(c, p) == [c |-> c, p |-> p]
None == Leaf("none", "")
Lit(s) == Leaf("lit", s)
Yes == Leaf("T", "")
No  == Leaf("F", "")
Empty == Leaf("t0", "")
Zero  == Leaf("n0", "")
IsNone(v) == v = None

Atom(v)   == [k |-> "a", v |-> v, c |-> <<>>]
Quoted(v) == [k |-> "q", v |-> v, c |-> <<>>]
Lst(cs)   == [k |-> "l", v |-> None, c |-> cs]
Kw(w)     == Atom(Lit(w))

IsList(t) == t.k = "l"
IsAtom(t) == t.k # "l"
\* the head token of a list (an unquoted or quoted first child), else none
HeadOf(t) == IF IsList(t) /\ t.c # <<>> /\ IsAtom(t.c[1]) THEN t.c[1].v ELSE None
HasHead(t, h) == HeadOf(t) = Lit(h)
IsKw(t, w) == IsAtom(t) /\ t.v = Lit(w)

\* (by halves, so that long sequences do not make TLC recurse deeply)
RECURSIVE FlatOf(_, _, _)
FlatOf(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                    ELSE FlatOf(ss, a, (a + b) \div 2) \o FlatOf(ss, ((a + b) \div 2) + 1, b)
Flat(ss) == FlatOf(ss, 1, Len(ss))

Range(s) == {s[i] : i \in 1..Len(s)}
LastOf(s) == s[Len(s)]
Select(s, P(_)) == SelectSeq(s, P)
From(s, i) == SubSeq(s, i, Len(s))

\* number of nodes of a tree
RECURSIVE Size(_)
Size(t) == IF IsAtom(t) THEN 1
           ELSE LET RECURSIVE Sum(_)
                    Sum(cs) == IF cs = <<>> THEN 0 ELSE Size(Head(cs)) + Sum(Tail(cs))
                IN 1 + Sum(t.c)
=============================================================================
