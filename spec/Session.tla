------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Documents in memory, the files they come from and go to.                *)
(*                                                                         *)
(* A content is "A" (plain ASCII), "L" (Latin-1 only), "W" (needs Unicode) *)
(* - they stand for any document with such texts.  A file is absent or     *)
(* holds a content in an encoding ("G": something that is no document; an  *)
(* unknown encoding can hold nothing).  A document is nothing, or has a        *)
(* content, the path it is bound to, and possibly a defect that makes it   *)
(* unwritable.  Every action is one call of the library, an edit, or a     *)
(* change of the file system by somebody else; it records whether the call *)
(* must succeed.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Docs, Paths, Encs, MaxSteps, Seeds
VARIABLES files, docs, hist, z
vars == <<files, docs, hist, z>>
view == <<files, docs>>

Contents == {"A", "L", "W"}
Nowhere == "none"
Absent == [c |-> "absent", e |-> "none"]
CanEncode(c, e) == e # "x-unknown" /\ \/ c \in {"A", "G"} \/ e = "utf-8"
                                       \/ e = "utf-16" \/ (c = "L" /\ e = "latin-1")
NoDoc == [c |-> "nothing", at |-> Nowhere, bad |-> FALSE]
Exists(d) == docs[d].c # "nothing"

OutFiles(fs) == [p \in Paths |-> [c |-> fs[p].c, e |-> fs[p].e]]
OutDocs(ds) == [d \in Docs |-> [c |-> ds[d].c, at |-> ds[d].at]]
\* (used as the last conjunct: the new state is known)
Rec(op, d, p, e, ok) == hist' = Append(hist, [op |-> op, d |-> d, p |-> p, e |-> e, ok |-> IF ok THEN 1 ELSE 0,
                                              fs |-> OutFiles(files'), ds |-> OutDocs(docs')])

Init == /\ files = [p \in Paths |-> Absent]
        /\ docs = [d \in Docs |-> NoDoc]
        /\ hist = <<>> /\ z = 0

New(d, c) == /\ docs' = [docs EXCEPT ![d] = [c |-> c, at |-> Nowhere, bad |-> FALSE]]
             /\ UNCHANGED <<files>>
             /\ Rec("new", d, Nowhere, c, TRUE)
\* loading binds; it reads the encoding the file was written in
Load(d, p) == /\ UNCHANGED <<files>>
              /\ IF files[p] = Absent \/ files[p].c = "G" THEN docs' = docs /\ Rec("load", d, p, "utf-8", FALSE)
                 ELSE /\ docs' = [docs EXCEPT ![d] = [c |-> files[p].c, at |-> p, bad |-> FALSE]]
                      /\ Rec("load", d, p, files[p].e, TRUE)
LoadDir(d) == /\ UNCHANGED <<files, docs>> /\ Rec("loaddir", d, Nowhere, "utf-8", FALSE)
Edit(d, c) == /\ Exists(d) /\ docs[d].c # c
              /\ docs' = [docs EXCEPT ![d].c = c]
              /\ UNCHANGED <<files>>
              /\ Rec("edit", d, Nowhere, c, TRUE)
Write(d, p, e, op, shown) ==
  LET ok == p # Nowhere /\ ~docs[d].bad /\ CanEncode(docs[d].c, e) IN
  /\ Exists(d)
  /\ files' = IF ok THEN [files EXCEPT ![p] = [c |-> docs[d].c, e |-> e]] ELSE files
  /\ UNCHANGED <<docs>>
  /\ Rec(op, d, shown, e, ok)
Save(d, e) == Exists(d) /\ Write(d, docs[d].at, e, "save", Nowhere)
SaveAs(d, p, e) == Write(d, p, e, "saveas", p)
SaveLost(d) == /\ Exists(d) /\ UNCHANGED <<files, docs>> /\ Rec("savelost", d, Nowhere, "utf-8", FALSE)
\* an empty path is no path
SaveEmpty(d) == /\ Exists(d) /\ UNCHANGED <<files, docs>> /\ Rec("saveempty", d, Nowhere, "utf-8", FALSE)
LoadEmpty(d) == /\ UNCHANGED <<files, docs>> /\ Rec("loadempty", d, Nowhere, "utf-8", FALSE)
SaveDir(d) == /\ Exists(d) /\ UNCHANGED <<files, docs>> /\ Rec("savedir", d, Nowhere, "utf-8", FALSE)
Rebind(d, p) == /\ Exists(d) /\ docs[d].at # p
                /\ docs' = [docs EXCEPT ![d].at = p]
                /\ UNCHANGED <<files>>
                /\ Rec("rebind", d, p, "", TRUE)
Break(d) == /\ Exists(d) /\ ~docs[d].bad
            /\ docs' = [docs EXCEPT ![d].bad = TRUE]
            /\ UNCHANGED <<files>>
            /\ Rec("break", d, Nowhere, "", TRUE)
Repair(d) == /\ Exists(d) /\ docs[d].bad
             /\ docs' = [docs EXCEPT ![d].bad = FALSE]
             /\ UNCHANGED <<files>>
             /\ Rec("repair", d, Nowhere, "", TRUE)
Delete(p) == /\ files[p] # Absent
             /\ files' = [files EXCEPT ![p] = Absent]
             /\ UNCHANGED <<docs>>
             /\ Rec("delete", "", p, "", TRUE)

\* somebody else puts something into the file
Foreign(p) == /\ files[p].c # "G"
              /\ files' = [files EXCEPT ![p] = [c |-> "G", e |-> "utf-8"]]
              /\ UNCHANGED <<docs>>
              /\ Rec("foreign", "", p, "", TRUE)

Act == \/ \E d \in Docs : \/ \E c \in Contents : New(d, c) \/ Edit(d, c)
                          \/ \E p \in Paths : Load(d, p) \/ Rebind(d, p) \/ \E e \in Encs : SaveAs(d, p, e)
                          \/ \E e \in Encs : Save(d, e)
                          \/ Rebind(d, Nowhere) \/ Break(d) \/ Repair(d) \/ LoadDir(d) \/ SaveDir(d) \/ SaveLost(d) \/ SaveEmpty(d) \/ LoadEmpty(d)
       \/ \E p \in Paths : Delete(p) \/ Foreign(p)
Next == Len(hist) < MaxSteps /\ Act /\ UNCHANGED z
Spec == Init /\ [][Next]_vars

\* pseudo-random walks: the state and a number determine the next action
Mix1(y, i) == (((y + i * 7919) % 1000003) * 1103 + 12345) % 1000003
Mix(y, i) == Mix1(Mix1(y, i), i + 3)
Nth(y, S) == LET RECURSIVE Go(_, _)
                 Go(T, n) == LET x == CHOOSE x \in T : TRUE IN IF n = 0 THEN x ELSE Go(T \ {x}, n - 1)
             IN Go(S, y % Cardinality(S))
InitRand == files = [p \in Paths |-> Absent] /\ docs = [d \in Docs |-> NoDoc] /\ hist = <<>> /\ z \in Seeds
NextRand ==
  /\ Len(hist) < MaxSteps
  /\ z' = Mix(z, 11)
  /\ LET d == Nth(Mix(z, 2), Docs) p == Nth(Mix(z, 3), Paths) e == Nth(Mix(z, 4), Encs) c == Nth(Mix(z, 5), Contents)
         a == Mix(z, 6) % 20
     IN IF ~Exists(d) THEN (IF a < 8 THEN New(d, c) ELSE Load(d, p))
        ELSE CASE a \in {0, 1} -> Load(d, p)
               [] a \in {2, 3} -> IF docs[d].c = c THEN SaveAs(d, p, e) ELSE Edit(d, c)
               [] a \in {4, 5, 6} -> Save(d, e)
               [] a \in {7, 8, 9} -> SaveAs(d, p, e)
               [] a = 10 -> IF docs[d].at = p THEN Save(d, e) ELSE Rebind(d, p)
               [] a \in {11, 12} -> IF docs[d].bad THEN Repair(d) ELSE Break(d)
               [] a = 13 -> IF docs[d].bad THEN Repair(d) ELSE New(d, c)
               [] a = 14 -> IF files[p] = Absent THEN Load(d, p) ELSE Delete(p)
               [] a = 15 -> LoadDir(d)
               [] a = 16 -> IF files[p].c = "G" THEN SaveAs(d, p, e) ELSE Foreign(p)
               [] a = 17 -> SaveLost(d)
               [] a = 18 -> SaveEmpty(d)
               [] a = 19 -> IF docs[d].bad THEN Repair(d) ELSE Save(d, e)
SpecRand == InitRand /\ [][NextRand]_vars

-----------------------------------------------------------------------------
LastOp == hist[Len(hist)]
\* C11: a failing call changes no file and no document
FailureIsHarmless == [][hist' # hist /\ hist'[Len(hist')].ok = 0 => files' = files /\ docs' = docs]_vars
\* C10: a call writes at most the file it names (or the bound one)
OnlyTheTarget == [][\A p \in Paths : files'[p] # files[p] =>
                      LET l == hist'[Len(hist')] IN
                      \/ l.op \in {"delete", "foreign"} /\ l.p = p
                      \/ l.op = "saveas" /\ l.p = p
                      \/ l.op = "save" /\ docs[l.d].at = p]_vars
\* C10: only loading and rebinding change a binding
BindingStays == [][\A d \in Docs : docs'[d].at # docs[d].at => hist'[Len(hist')].op \in {"new", "load", "rebind"}]_vars
\* what is in a file can be represented there, and a load after a save gets it
Representable == \A p \in Paths : files[p] # Absent => CanEncode(files[p].c, files[p].e)

\* export every transition, with the history that leads to it
ExportStep == PrintT(ToJson([hist |-> hist']))
ExportLast == Len(hist) = MaxSteps => PrintT(ToJson([hist |-> hist]))
=============================================================================
