------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The reader of S-expressions as a stack machine.  One behaviour feeds it *)
(* one token sequence, token by token: L and R are brackets, W a word, Q a *)
(* quoted string, N a number.  Every state is a text (the tokens so far):  *)
(* refused if its brackets do not match, else read as the tree on the      *)
(* stack.  The i-th atom of a text is named by its index.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTokens
VARIABLES toks,    \* what has been fed
          stack,   \* the open lists, innermost last: sequences of nodes
          done,    \* the complete expression, if any (a sequence of at most one)
          dead     \* a closing bracket without an opening one has been seen
vars == <<toks, stack, done, dead>>

At(i)  == [k |-> "a", i |-> i, c |-> <<>>]
Ls(cs) == [k |-> "l", i |-> 0, c |-> cs]
Push(st, n) == [st EXCEPT ![Len(st)] = Append(@, n)]

Init == toks = <<>> /\ stack = <<>> /\ done = <<>> /\ dead = FALSE

Open == /\ done = <<>> /\ ~dead
        /\ toks' = Append(toks, "L")
        /\ stack' = Append(stack, <<>>)
        /\ UNCHANGED <<done, dead>>
Close == /\ ~dead
         /\ toks' = Append(toks, "R")
         /\ IF stack = <<>> THEN dead' = TRUE /\ UNCHANGED <<stack, done>>
            ELSE /\ dead' = FALSE
                 /\ LET top == Ls(stack[Len(stack)]) rest == SubSeq(stack, 1, Len(stack) - 1) IN
                    IF rest = <<>> THEN stack' = <<>> /\ done' = <<top>>
                    ELSE stack' = Push(rest, top) /\ done' = done
AtomTok(t) == /\ stack # <<>> /\ ~dead
              /\ toks' = Append(toks, t)
              /\ stack' = Push(stack, At(Len(toks) + 1))
              /\ UNCHANGED <<done, dead>>
Next == Len(toks) < MaxTokens /\ (Open \/ Close \/ \E t \in {"W", "Q", "N"} : AtomTok(t))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The reader is the inverse of printing, and accepts exactly the balanced *)
(* texts.                                                                  *)
RECURSIVE Show(_)
RECURSIVE ShowAll(_)
ShowAll(ns) == IF ns = <<>> THEN <<>> ELSE Show(Head(ns)) \o ShowAll(Tail(ns))
Show(n) == IF n.k = "a" THEN <<toks[n.i]>> ELSE <<"L">> \o ShowAll(n.c) \o <<"R">>
RECURSIVE Order(_)
RECURSIVE OrderAll(_)
OrderAll(ns) == IF ns = <<>> THEN <<>> ELSE Order(Head(ns)) \o OrderAll(Tail(ns))
Order(n) == IF n.k = "a" THEN <<n.i>> ELSE OrderAll(n.c)

Complete == done # <<>> /\ ~dead
Inverse == Complete => Show(done[1]) = toks
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
KeepsOrder == Complete => Increasing(Order(done[1]))
Count(t) == Cardinality({i \in 1..Len(toks) : toks[i] = t})
BalancedIffAccepted ==
  Complete <=> /\ toks # <<>> /\ Count("L") = Count("R") /\ toks[Len(toks)] = "R"
               /\ \A n \in 1..Len(toks) : Cardinality({i \in 1..n : toks[i] = "L"}) >= Cardinality({i \in 1..n : toks[i] = "R"})
Export == toks # <<>> => PrintT(ToJson([toks |-> toks, ok |-> IF Complete THEN 1 ELSE 0, tree |-> done]))
=============================================================================
