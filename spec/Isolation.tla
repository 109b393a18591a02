----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Objects and the storage behind them.  An object is made by its          *)
(* constructor, by parsing an expression, by parsing a text, by loading a  *)
(* file or by a factory function; each time out of cells of its own.       *)
(* Editing an object, or the expression it came from, writes to its cells  *)
(* only.  A history records what every object looks like after every step. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSteps, MaxObjs, Ways

VARIABLES mHeap,    \* cell -> content
          mObjs,    \* object -> its cells (own attributes, what is nested inside)
          mHist     \* the steps so far, with the view of all objects after each
vars == <<mHeap, mObjs, mHist>>

ExprCell == 1       \* the expression that objects are parsed from
Content(w) == IF w = "ctor" THEN "default" ELSE IF w = "new" THEN "new" ELSE "parsed"
See(hp, os) == [i \in 1..Len(os) |-> [j \in 1..Len(os[i]) |-> hp[os[i][j]]]]
Step(op, w, i, hp, os) == Append(mHist, [op |-> op, way |-> w, i |-> i, view |-> See(hp, os), expr |-> hp[ExprCell]])

Init == mHeap = <<"E">> /\ mObjs = <<>> /\ mHist = <<>>

Make(w) == /\ Len(mObjs) < MaxObjs
           /\ (w = "expr" => mHeap[ExprCell] = "E")
           /\ LET n == Len(mHeap)
                  hp == mHeap \o <<Content(w), Content(w)>>
                  os == Append(mObjs, <<n + 1, n + 2>>)
              IN mHeap' = hp /\ mObjs' = os /\ mHist' = Step("make", w, Len(os), hp, os)
\* own: assign all attributes; inner: change all that is nested inside, in place
Edit(i, part) ==
  LET mark == "edit" \o ToString(Len(mHist))
      hp == [q \in 1..Len(mHeap) |-> IF (q = mObjs[i][1] /\ part \in {"own", "all"}) \/ (q = mObjs[i][2] /\ part \in {"inner", "all"})
                                     THEN mark ELSE mHeap[q]]
  IN mHeap' = hp /\ UNCHANGED mObjs /\ mHist' = Step("edit", part, i, hp, mObjs)
EditExpr == /\ mHeap[ExprCell] = "E" /\ mObjs # <<>>
            /\ LET hp == [mHeap EXCEPT ![ExprCell] = "edited"]
               IN mHeap' = hp /\ UNCHANGED mObjs /\ mHist' = Step("expr", "", 0, hp, mObjs)
Save(i) == UNCHANGED <<mHeap, mObjs>> /\ mHist' = Step("save", "", i, mHeap, mObjs)

Next == /\ Len(mHist) < MaxSteps
        /\ \/ \E w \in Ways : Make(w)
           \/ \E i \in 1..Len(mObjs) : Save(i) \/ \E part \in {"own", "inner", "all"} : Edit(i, part)
           \/ EditExpr
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Cells(i) == {mObjs[i][j] : j \in 1..Len(mObjs[i])}
\* no two objects share a cell, nor an object and the expression
Disjoint == \A i, j \in 1..Len(mObjs) : i # j => Cells(i) \cap Cells(j) = {}
Apart == \A i \in 1..Len(mObjs) : ExprCell \notin Cells(i)
\* an object looks as it was made until it is itself edited
Steps == 1..Len(mHist)
MadeAt(i) == CHOOSE t \in Steps : mHist[t].op = "make" /\ mHist[t].i = i
Untouched(i) == \A t \in Steps : ~(mHist[t].op = "edit" /\ mHist[t].i = i)
AsMade == \A i \in 1..Len(mObjs) : Untouched(i) =>
            LET w == mHist[MadeAt(i)].way IN See(mHeap, mObjs)[i] = <<Content(w), Content(w)>>
\* only an edit of an object changes how it looks
Frame == \A t \in Steps \ {1} : \A i \in 1..Len(mHist[t - 1].view) :
            mHist[t].view[i] = mHist[t - 1].view[i] \/ (mHist[t].op = "edit" /\ mHist[t].i = i)
ExprFrame == \A t \in Steps \ {1} : mHist[t].expr = mHist[t - 1].expr \/ mHist[t].op = "expr"

Leaf == Len(mHist) = MaxSteps
\* worth replaying: two objects at least, or one and a change of the expression; ends with something to look at
Telling == /\ \E t \in Steps : mHist[t].op \in {"edit", "expr"}
           /\ Len(mObjs) > 1 \/ \E t \in Steps : mHist[t].op = "expr" \/ mHist[t].way = "expr"
LawsExport == /\ Disjoint /\ Apart /\ AsMade /\ Frame /\ ExprFrame
              /\ (Leaf /\ Telling => PrintT(ToJson([hist |-> mHist])))
=============================================================================
