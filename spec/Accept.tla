------------------------------- MODULE Accept -------------------------------
(***************************************************************************)
(* Which reader accepts which expression.  A behaviour offers expressions  *)
(* to a reader: expressions of its own kind under every head it stands     *)
(* for, expressions of every other kind, its own expressions under a       *)
(* foreign, misspelt or missing head, and things that are no expressions.  *)
(***************************************************************************)
EXTENDS Grammar, Json

CONSTANTS Bases, Depth

VARIABLES reader, offer
vars == <<reader, offer>>

Heads(k) == Range(Kinds[k].heads)
\* kinds that are recognised by their head token
Headed == {k \in TopKinds : Heads(k) \cap {"", "*"} = {}}
AllHeads == UNION {Heads(k) : k \in Headed}

\* an offered thing: form, the kind its children come from, base, head
Offer(form, k, n, h) == [form |-> form, k |-> k, n |-> n, h |-> h]
NotLists == {"none", "number", "text", "head", "tuple", "dict", "true", "tokens"}
Bends == {"upper", "plural", "short", "blank", "title", "prefixed", "quoted"}

\* the head of what is offered ("" if it has none)
Accepts(r, o) ==
  CASE o.form = "list" -> o.h \in Heads(r)
    [] OTHER -> FALSE
\* whether the specification says anything about it: an expression of another kind that has the same head token
\* (two kinds of path, pin, property, ...) may be read, or not
Specified(r, o) == o.form # "list" \/ o.k = r \/ o.h \notin Heads(r)

Offers(r) ==
  {Offer("list", r, n, h) : n \in Bases, h \in AllHeads}
  \cup {Offer("list", k, 1, h) : k \in Headed, h \in Heads(r)}
  \cup UNION {{Offer("list", k, 1, h) : h \in Heads(k)} : k \in Headed}
  \cup {Offer("headless", r, n, "") : n \in Bases}
  \cup {Offer("wrapped", r, 1, h) : h \in Heads(r)}
  \cup {Offer(f, r, 1, h) : f \in Bends, h \in Heads(r)}
  \cup {Offer("empty", r, 0, "")}
  \cup {Offer(f, r, 1, h) : f \in NotLists, h \in Heads(r)}

Nothing == Offer("nothing", "", 0, "")
Init == reader \in Headed /\ offer = Nothing
Next == offer = Nothing /\ reader' = reader /\ offer' \in {o \in Offers(reader) : Specified(reader, o)}
Spec == Init /\ [][Next]_vars

Tree(k, n) == Render(k, VObj(k, "r", n, Depth))
Rendered == [k \in Headed |-> [n \in Bases |-> LET o == VObj(k, "r", n, Depth) IN IF Guard(k, o) THEN <<>> ELSE Render(k, o)]]
Headless(t) == [t EXCEPT !.c = Tail(t.c)]
WithHead(t, h) == [t EXCEPT !.c[1] = Kw(h)]
Readings == [k \in Headed |-> [n \in Bases |-> [h \in Heads(k) |->
               IF Rendered[k][n] = <<>> THEN << >> ELSE Read(k, WithHead(Rendered[k][n][1], h))]]]
ASSUME PrintT(ToJson([schema |-> FieldMap]))
ASSUME PrintT(ToJson([trees |-> [k \in Headed |-> [n \in Bases |-> Rendered[k][n]]], readings |-> Readings]))

\* an expression is accepted by two readers only if they share a head; every head has a reader; legacy heads mean the same
Laws == /\ \A h \in AllHeads : \E k \in Headed : h \in Heads(k)
        /\ (Accepts(reader, offer) => offer.k = reader)
        /\ (Accepts(reader, offer) /\ Rendered[reader][offer.n] # <<>> /\ Kinds[reader].hf = "" =>
              Readings[reader][offer.n][offer.h] = Norm(reader, VObj(reader, "r", offer.n, Depth)))
LawsExport == Laws /\ (offer # Nothing => PrintT(ToJson([reader |-> reader, offer |-> offer, ok |-> IF Accepts(reader, offer) THEN 1 ELSE 0])))
=============================================================================
