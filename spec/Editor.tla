------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* An editing session: a document is loaded, then attributes at any depth  *)
(* are assigned, items of collections inserted, removed, replaced, moved   *)
(* and duplicated, interleaved with saves and reloads.  Every step changes *)
(* the document exactly where the edit says; the behaviours are exported   *)
(* and replayed on one living document of the library.                     *)
(***************************************************************************)
EXTENDS Grammar, Json

CONSTANTS KindSet, Chains, MaxLevel, Depth, Life   \* Life: edits before a new document is taken

VARIABLES sChain, sN, sZ, sKind, sObj, sPrev, sOp
vars == <<sChain, sN, sZ, sKind, sObj, sPrev, sOp>>

NoOp(what) == [op |-> what, path |-> <<>>, f |-> "", at |-> 0, to |-> 0, v |-> None, k |-> ""]

Items(s) == s.ty \in {"list", "wlist", "subl"}
Leaves(s) == s.ty \in {"atoms", "rest", "zlay"}
Dicts == {"Pair", "Comment", "PinUuid"}
IsDict(s) == Items(s) /\ s.ks[1] \in Dicts
\* fields that an edit may touch where the object sits (ctx)
Banned(k, ctx) == (IF ctx = "unit" THEN {"libId", "units"} ELSE {})
                  \cup (IF ctx \in {"keyed", "dict"} THEN {"key"} ELSE {})
EditFields == [k \in KindNames |-> [ctx \in {"", "unit", "keyed", "dict"} |-> SelectSeq(FieldSeq[k], LAMBDA f : f \notin Banned(k, ctx))]]
CtxOf(k, s) == IF s.ty = "keyed" THEN "keyed"
               ELSE IF IsDict(s) THEN "dict"
               ELSE IF k = "Symbol" /\ s.f = "units" THEN "unit" ELSE ""
\* something inside that can be edited in turn
Deep(s, v) == IF Items(s) THEN v # <<>> /\ s.ks[1] # "PngData" ELSE s.ty \in {"obj", "wobj", "keyed"} /\ v # None

\* an item that was not there before
Fresh(k, s, p, d, zz) ==
  LET kk == s.ks[(zz % Len(s.ks)) + 1]
      o == VRand(kk, p, d, Mix(zz, 4))
  IN [k |-> kk, o |-> IF k = "Symbol" /\ s.f = "units" THEN [o EXCEPT !["libId"] = UnitId(p), !["units"] = <<>>] ELSE o]
FreshLeaf(s, p) == IF s.lt \in {"PL", "ZL"} THEN Leaf("y1", p) ELSE IF s.lt = "T" THEN Leaf("t1", p) ELSE Leaf("w1", p)

InsertAt2(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o From(q, i)
RemoveAt2(q, i) == SubSeq(q, 1, i - 1) \o From(q, i + 1)
MoveTo(q, i, j) == InsertAt2(RemoveAt2(q, i), j, q[i])

Result(o, r) == [o |-> o, op |-> r]
\* an edit of the collection f
EditList(k, o, f, s, step, d, zz) ==
  LET q == o[f]
      len == Len(q)
      c == Mix(zz, 6) % 6
      i == IF len = 0 THEN 0 ELSE (Mix(zz, 7) % len) + 1
      j == (Mix(zz, 8) % (len + 1)) + 1
      dict == IsDict(s)
      p == "e." \o ToString(step + 100)
      new == IF Leaves(s) THEN FreshLeaf(s, p) ELSE Fresh(k, s, p, d, Mix(zz, 9))
      at == IF dict THEN len + 1 ELSE j
      base == [NoOp("ins") EXCEPT !.f = f]
      give(x) == [k |-> IF Leaves(s) THEN "" ELSE x.k, v |-> IF Leaves(s) THEN x ELSE x.o]
  IN IF len = 0 \/ c \in {0, 1}
       THEN Result([o EXCEPT ![f] = InsertAt2(q, at, new)], [base EXCEPT !.op = "ins", !.at = at, !.k = give(new).k, !.v = give(new).v])
     ELSE IF c = 2 \/ (dict /\ c # 5)
       THEN Result([o EXCEPT ![f] = RemoveAt2(q, i)], [base EXCEPT !.op = "del", !.at = i])
     ELSE IF c = 3
       THEN LET to == IF j > len THEN len ELSE j
            IN Result([o EXCEPT ![f] = MoveTo(q, i, to)], [base EXCEPT !.op = "mov", !.at = i, !.to = to])
     ELSE IF c = 4
       THEN Result([o EXCEPT ![f] = InsertAt2(q, j, q[i])], [base EXCEPT !.op = "dup", !.at = i, !.to = j])
     ELSE IF dict THEN Result([o EXCEPT ![f] = <<>>], [base EXCEPT !.op = "clear"])
     ELSE Result([o EXCEPT ![f][i] = new], [base EXCEPT !.op = "rep", !.at = i, !.k = give(new).k, !.v = give(new).v])

RECURSIVE Act(_, _, _, _, _, _)
Act(k, o, ctx, step, d, zz) ==
  LET fs == EditFields[k][ctx]
      deep == SelectSeq(fs, LAMBDA f : Deep(FieldMap[k][f], o[f]))
      down == d > 0 /\ deep # <<>> /\ Mix(zz, 1) % 10 < 6
      f == IF down THEN deep[(Mix(zz, 2) % Len(deep)) + 1] ELSE fs[(Mix(zz, 3) % Len(fs)) + 1]
      s == FieldMap[k][f]
      v == o[f]
  IN IF down
       THEN IF Items(s)
              THEN LET i == (Mix(zz, 4) % Len(v)) + 1
                       r == Act(v[i].k, v[i].o, CtxOf(k, s), step, d - 1, Mix(zz, 5))
                   IN Result([o EXCEPT ![f][i].o = r.o], [r.op EXCEPT !.path = <<[f |-> f, i |-> i]>> \o @])
              ELSE LET r == Act(s.ks[1], v, CtxOf(k, s), step, d - 1, Mix(zz, 5))
                   IN Result([o EXCEPT ![f] = r.o], [r.op EXCEPT !.path = <<[f |-> f, i |-> 0]>> \o @])
     ELSE IF (Items(s) /\ s.ks[1] # "PngData") \/ Leaves(s)
       THEN EditList(k, o, f, s, step, 1, zz)
     ELSE LET w == Pick(Mix(zz, 5), Dom(s, "e" \o ToString(step) \o "." \o f, 1))
          IN Result([o EXCEPT ![f] = w], [NoOp("set") EXCEPT !.f = f, !.v = w])

KindList == SetToSeq(KindSet)
\* (\E x \in {e} binds x to the value of e, computed once)
StartDoc(k, zz, Use(_)) == \E o \in {TLCEval(VRand(k, "r", Depth, zz))} :
                           \E p \in {IF Guard(k, o) THEN VObj(k, "r", 1, Depth) ELSE o} :
                           \E q \in {TLCEval(Norm(k, p))} : Use(q)
KindFor(zz) == KindList[(Mix(zz, 17) % Len(KindList)) + 1]

\* (the first document is loaded by the first step)
Init == /\ sChain \in Chains
        /\ sN = 0 /\ sZ = Mix(sChain, 5)
        /\ sKind = KindList[1] /\ sObj = None /\ sPrev = None
        /\ sOp = NoOp("start")

Load == sN % Life = 0 /\ sKind' = KindFor(sZ') /\ (LET Take(q) == sObj' = q IN StartDoc(sKind', sZ', Take)) /\ sPrev' = sObj' /\ sOp' = NoOp("load")
Reload == sObj' = Norm(sKind, sObj) /\ sOp' = NoOp("reload") /\ sPrev' = sObj /\ UNCHANGED sKind
Change == \E zz \in {Mix(sZ', 1)} : \E r \in {Act(sKind, sObj, "", sN, 3, zz)} :
             /\ UNCHANGED sKind /\ sPrev' = sObj
             /\ IF Guard(sKind, r.o) THEN sObj' = sObj /\ sOp' = NoOp("skip") ELSE sObj' = r.o /\ sOp' = r.op
Next == /\ TLCGet("level") < MaxLevel
        /\ sN' = sN + 1 /\ sZ' = Mix(sZ, 11) /\ UNCHANGED sChain
        /\ \/ Load
           \/ sN % Life # 0 /\ sZ' % 8 = 0 /\ Reload
           \/ sN % Life # 0 /\ sZ' % 8 # 0 /\ Change
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C08: an edit changes exactly what was edited *)
Touched == IF sOp.path # <<>> THEN sOp.path[1].f ELSE sOp.f
Mentions(s, f) == f \in {s.f, s.w} \/ (s.ty = "comp" /\ f \in {SlotsFlat(s.sub)[i].f : i \in 1..Len(SlotsFlat(s.sub))})
                  \/ (s.ty = "page" /\ f = "paperSize") \/ s.ty = "popt"
Edited == sOp.op \in {"set", "ins", "del", "mov", "dup", "rep", "clear"}
Frame == Edited => \A i \in 1..Len(Kinds[sKind].slots) :
                     Mentions(Kinds[sKind].slots[i], Touched) \/ RSlot(Kinds[sKind].slots[i], sObj) = RSlot(Kinds[sKind].slots[i], sPrev)
\* the collections next to the edited one keep their items, the edited one all but one of them
Kept == Edited /\ sOp.path = <<>> => \A f \in Fields(sKind) : f # sOp.f => sObj[f] = sPrev[f]
Collection == sOp.op = "ins" /\ sOp.path = <<>> => Len(sObj[sOp.f]) = Len(sPrev[sOp.f]) + 1 /\ RemoveAt2(sObj[sOp.f], sOp.at) = sPrev[sOp.f]
Settled == sOp.op \in {"reload", "load"} => Norm(sKind, sObj) = sObj
ReadBack == LET t == Render(sKind, sObj) IN t # <<>> => Read(sKind, t[1]) = Norm(sKind, sObj)

ASSUME PrintT(ToJson([schema |-> FieldMap]))
LawsExport == sOp.op = "start" \/ (
              /\ Frame /\ Kept /\ Collection /\ Settled /\ ReadBack
              /\ PrintT(ToJson([chain |-> sChain, n |-> sN, kind |-> sKind, op |-> sOp, tree |-> Render(sKind, sObj), obj |-> IF sOp.op = "reload" THEN sObj ELSE << >>])))
=============================================================================
