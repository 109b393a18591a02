------------------------------- MODULE Corpus -------------------------------
(***************************************************************************)
(* Recorded documents: expressions found in real files (as trees, with     *)
(* every word and text a literal), validated against the specification.    *)
(* Each is read and written by the specification; what it means and how it *)
(* has to be saved is exported for comparison with what the library does.  *)
(***************************************************************************)
EXTENDS Grammar, Json

Recorded == JsonDeserialize("docs.json")
VARIABLES cDoc
Init == cDoc = 0
Next == cDoc = 0 /\ cDoc' \in 1..Len(Recorded)
Spec == Init /\ [][Next]_cDoc

ASSUME PrintT(ToJson([schema |-> FieldMap]))
LawsExport ==
  cDoc > 0 =>
    \E d \in {Recorded[cDoc]} : \E o \in {Read(d.kind, d.tree)} :
      IF Guard(d.kind, o) THEN PrintT(ToJson([doc |-> cDoc, kind |-> d.kind, bad |-> 1, obj |-> o]))
      ELSE \E t \in {Render(d.kind, o)} : \E nm \in {Norm(d.kind, o)} :
           \* a document that was read is a fixed point of saving and reading
           /\ t # <<>> => Read(d.kind, t[1]) = nm
           /\ PrintT(ToJson([doc |-> cDoc, kind |-> d.kind, bad |-> 0, obj |-> o, out |-> t]))
=============================================================================
