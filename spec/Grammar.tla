------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* What the objects mean: Render (object -> tree), Read (tree -> object),  *)
(* Norm (what survives a save), Guard (what must be refused), and the      *)
(* value domains from which the state machines choose.                     *)
(*                                                                         *)
(* An object is a function from field names to values.  A value is a leaf, *)
(* an object, or a sequence (of leaves, or of items [k |-> kind, o |->     *)
(* object]).                                                               *)
(***************************************************************************)
EXTENDS Schema, SequencesExt

\* (a recursive function rather than a recursive operator: TLC then computes
\* the constants below once)
SlotsFlat(ss) ==
  LET SF[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE SF[i - 1] \o (IF ss[i].ty = "comp" THEN ss[i].sub ELSE <<ss[i]>>)
  IN SF[Len(ss)]

\* fields that no slot of their own carries
ExtraFields(k) ==
  LET ss == Kinds[k].slots
      gates == {ss[i].w : i \in {j \in 1..Len(ss) : ss[j].ty = "comp" /\ ss[j].w # ""}}
      hf == IF Kinds[k].hf = "" THEN {} ELSE {Kinds[k].hf}
      second == {ss[i].w : i \in {j \in 1..Len(ss) : ss[j].ty \in {"ws", "page"}}}
      own == {SlotsFlat(ss)[i].f : i \in 1..Len(SlotsFlat(ss))}
  IN (gates \cup hf \cup second) \ own

GateSlot(f)   == [S0 EXCEPT !.ty = "gate", !.f = f, !.d = No]
HeadSlot(f,k) == [S0 EXCEPT !.ty = "head", !.f = f, !.dom = Kinds[k].heads, !.d = Lit(Kinds[k].heads[1])]
StrokeSlot(f) == [S0 EXCEPT !.ty = "obj", !.f = f, !.ks = <<"Stroke">>, !.opt = TRUE]
DimSlot(f)    == [S0 EXCEPT !.ty = "popt", !.f = f, !.lt = "N", !.opt = TRUE]

ExtraSlot(k, f) ==
  IF f = Kinds[k].hf THEN HeadSlot(f, k)
  ELSE IF f = "stroke" THEN StrokeSlot(f)
  ELSE IF f = "height" THEN DimSlot(f)
  ELSE GateSlot(f)

\* field -> slot, for every kind (a constant, computed once)
FieldMap ==
  [k \in KindNames |->
     LET fl == SlotsFlat(Kinds[k].slots)
         own == {fl[i].f : i \in 1..Len(fl)}
     IN [f \in own \cup ExtraFields(k) |->
           IF f \in own THEN fl[CHOOSE i \in 1..Len(fl) : fl[i].f = f] ELSE ExtraSlot(k, f)]]
Fields(k) == DOMAIN FieldMap[k]

-----------------------------------------------------------------------------
(* Value domains *)

Tx(c, p) == Leaf(c, p)
LeafDom(lt, p, extra) ==
  LET base == CASE lt = "T" -> {Leaf("t0", ""), Leaf("t1", p), Leaf("t2", p)}
                [] lt = "H" -> {Leaf("h1", p)}
                [] lt = "M"  -> {Leaf("t1", p)}
                [] lt = "MN" -> {Leaf("i9", p)}
                [] lt = "W"  -> {Leaf("w1", p)}
                [] lt = "WN" -> {Leaf("w1", p), Zero}
                [] lt = "N" -> {Zero, Leaf("n1", p), Leaf("n2", p)}
                [] lt = "N4" -> {Zero, Leaf("q4", p)}
                [] lt = "N6" -> {Zero, Leaf("q6", p)}
                [] lt = "NA" -> {Lit("0"), Lit("90"), Lit("180"), Lit("270"), Lit("37.5"), Lit("-90"), Lit("360"), Lit("90.5"), Lit("0.25"), Lit("-179.999"), Lit("450")}
                [] lt = "ID" -> {Leaf("i1", p), Leaf("i2", p), Leaf("i3", p)}
                [] lt = "PL" -> {Leaf("y1", p), Leaf("x1", p)}
                [] lt = "ZL" -> {Leaf("y1", p), Leaf("x2", p)}
                [] lt = "PS" -> {Lit("A4"), Lit("A"), Lit("USLegal"), Lit("User")}
                [] OTHER -> {}
  IN base \cup extra

\* the value a leaf takes in the bases: 0 default, 1 set, 2 zero/empty
LeafVal(s, p, n) ==
  IF s.dom # <<>> /\ n > 0 THEN Lit(s.dom[n])
  ELSE IF n = 0 THEN (IF s.lt \in {"M", "MN", "ID"} THEN CHOOSE v \in LeafDom(s.lt, p, {}) : TRUE ELSE s.d)
  ELSE CASE s.lt = "T" -> IF n = 1 THEN Leaf("t1", p) ELSE Empty
         [] s.lt = "H" -> Leaf("h1", p)
         [] s.lt = "M"  -> Leaf("t1", p)
         [] s.lt = "MN" -> Leaf("i9", p)
         [] s.lt = "W"  -> Leaf("w1", p)
         [] s.lt = "WN" -> IF n = 2 THEN Zero ELSE Leaf("w1", p)
         [] s.lt \in {"N", "N4", "N6"} ->
              IF n = 2 THEN Zero ELSE Leaf(IF s.lt = "N" THEN "n1" ELSE IF s.lt = "N4" THEN "q4" ELSE "q6", p)
         [] s.lt = "NA" -> IF n = 1 THEN Lit("37.5") ELSE Lit("90")
         [] s.lt = "ID" -> IF n = 1 THEN Leaf("i1", p) ELSE Leaf("i2", p)
         [] s.lt \in {"PL", "ZL"} -> IF n = 1 THEN Leaf("y1", p) ELSE Leaf(IF s.lt = "PL" THEN "x1" ELSE "x2", p)
         [] s.lt = "PS" -> IF n = 1 THEN Lit("User") ELSE Lit("A")
         [] OTHER -> None

ItemPath(p, i) == p \o "." \o ToString(i)

RECURSIVE VObj(_, _, _, _)
\* the value of a slot in base n with depth budget d
VVal(s, p, n, d) ==
  LET one(k, i, m) == [k |-> k, o |-> VObj(k, ItemPath(p, i), m, d - 1)]
      m == IF d <= 0 THEN 0 ELSE n
  IN
  CASE s.ty \in {"pos", "popt", "tok", "ktok"} -> LeafVal(s, p, n)
    [] s.ty \in {"flag", "pflag", "ftok", "gate"} -> IF n = 1 THEN Yes ELSE No
    [] s.ty = "fton" -> IF n = 1 THEN No ELSE Yes
    [] s.ty = "eflag" -> IF n = 0 THEN None ELSE Lit(s.dom[n])
    [] s.ty \in {"bool", "boolt"} -> IF n = 1 THEN Yes ELSE IF n = 2 THEN No ELSE s.d
    [] s.ty = "head" -> IF n = 0 THEN Lit(s.dom[1]) ELSE Lit(s.dom[Len(s.dom)])
    [] s.ty = "obj" -> IF s.opt /\ m = 0 THEN None ELSE VObj(s.ks[1], p, m, d - 1)
    [] s.ty = "wobj" -> VObj(s.ks[1], p, m, d - 1)
    [] s.ty = "keyed" -> [VObj("Property", p, m, d - 1) EXCEPT !["key"] = Lit(s.dom[IF n = 1 THEN 1 ELSE 2])]
    [] s.ty \in {"list", "wlist", "subl"} ->
         IF m = 0 THEN <<>>
         ELSE IF n = 1 THEN [i \in 1..Len(s.ks) |-> one(s.ks[i], i, 1)]
         ELSE [i \in 1..2 |-> one(s.ks[1], i, IF i = 1 THEN 2 ELSE 0)]
    [] s.ty = "wlist4" -> IF n = 0 THEN <<>> ELSE [i \in 1..(IF n = 1 THEN 4 ELSE 3) |-> one("xy", i, 1)]
    [] s.ty \in {"atoms", "zlay"} ->
         IF n = 0 THEN (IF s.ty = "zlay" THEN <<Lit("F.Cu")>> ELSE <<>>)
         ELSE IF n = 1 THEN <<LeafVal(s, ItemPath(p, 1), 1), LeafVal(s, ItemPath(p, 2), 1)>>
         ELSE <<LeafVal(s, ItemPath(p, 1), 2)>>
    [] s.ty = "rest" -> IF n = 0 THEN <<>> ELSE [i \in 1..n |-> Leaf("w1", ItemPath(p, i))]
    [] s.ty = "ws" -> IF n = 0 THEN s.d ELSE IF n = 1 THEN Leaf("n1", p) ELSE None
    [] s.ty = "page" -> IF n = 1 THEN Leaf("n1", p) ELSE None

\* values a unit of a symbol takes: its name derives from its parent's
UnitId(p) == Leaf("iu", p)
VBase(k, p, n, d) == [f \in Fields(k) |-> VVal(FieldMap[k][f], p \o "." \o f, n, d)]
\* units of a symbol are named after it and have none of their own
VUnits(k, p, o) ==
  IF k = "Symbol" THEN [o EXCEPT !["units"] = [i \in 1..Len(o["units"]) |->
             [k |-> "Symbol", o |-> [o["units"][i].o EXCEPT !["libId"] = UnitId(ItemPath(p \o ".u", i)), !["units"] = <<>>]]]]
  ELSE o
\* fields without which the object must be refused are given in every base
\* (an edit may take them away)
VFix(k, p, o) ==
  CASE k = "Dimension" /\ o["pts"] = <<>> ->
         [o EXCEPT !["pts"] = << [k |-> "xy", o |-> [f \in {"X", "Y"} |-> Leaf("n1", p \o ".q." \o f)]] >>]
    [] k \in {"GrTextBox", "FpTextBox"} /\ IsNone(o["start"]) ->
         [o EXCEPT !["start"] = [f \in {"X", "Y"} |-> Leaf("n1", p \o ".s." \o f)],
                   !["end"]   = [f \in {"X", "Y"} |-> Leaf("n1", p \o ".e." \o f)]]
    [] OTHER -> VUnits(k, p, o)
VObj(k, p, n, d) == TLCEval(VFix(k, p, TLCEval(VBase(k, p, n, d))))

\* the values a field may be given in an edit
Dom(s, p, d) ==
  LET none == IF s.opt THEN {None} ELSE {}
      it(k, i, n) == [k |-> k, o |-> VObj(k, ItemPath(p, i), n, d - 1)]
      lv(i, c) == Leaf(c, ItemPath(p, i))
  IN
  CASE s.ty \in {"pos", "popt", "tok"} ->
         LeafDom(s.lt, p, none \cup (IF s.dom = <<>> THEN {} ELSE {Lit(s.dom[i]) : i \in 1..Len(s.dom)}))
           \ (IF s.dom = <<>> THEN {} ELSE {Leaf("w1", p)})
    [] s.ty = "ktok" -> LeafDom(s.lt, p, {Empty})
    [] s.ty \in {"flag", "pflag", "ftok", "fton", "gate", "boolt"} -> {Yes, No}
    [] s.ty = "eflag" -> none \cup {Lit(s.dom[i]) : i \in 1..Len(s.dom)}
    [] s.ty = "bool" -> {Yes, No} \cup none
    [] s.ty = "head" -> {Lit(s.dom[i]) : i \in 1..Len(s.dom)}
    [] s.ty \in {"obj", "wobj"} -> {VObj(s.ks[1], p, n, d - 1) : n \in 0..2} \cup none
    [] s.ty = "keyed" -> {[VObj("Property", p, n, d - 1) EXCEPT !["key"] = Lit(s.dom[i])] : n \in 0..2, i \in 1..2}
    [] s.ty \in {"list", "wlist", "subl"} ->
         {<<>>} \cup {<<it(s.ks[i], 1, n)>> : i \in 1..Len(s.ks), n \in 0..2}
           \cup {<<it(s.ks[i], 1, 1), it(s.ks[(i % Len(s.ks)) + 1], 2, 2)>> : i \in 1..Len(s.ks)}
           \cup {<<it(s.ks[1], 1, 2), it(s.ks[Len(s.ks)], 2, 1), it(s.ks[1], 3, 1)>>}
           \cup {[i \in 1..5 |-> it(s.ks[((i - 1) % Len(s.ks)) + 1], i, i % 3)]}
    [] s.ty = "wlist4" -> {[i \in 1..n |-> it("xy", i, 1)] : n \in {0, 3, 4, 5}}
    [] s.ty \in {"atoms"} ->
         IF s.lt = "PL" THEN {<<>>, <<lv(1, "x1")>>, <<lv(1, "y1"), lv(2, "x1")>>, <<lv(1, "x1"), lv(2, "y1"), lv(3, "y1")>>}
         ELSE IF s.lt = "T" THEN {<<>>, <<lv(1, "t1")>>, <<lv(1, "t1"), lv(2, "t2")>>, <<lv(1, "t2"), Empty, lv(3, "t1")>>}
         ELSE {<<>>, <<lv(1, "w1")>>, <<lv(1, "w1"), lv(2, "w1")>>, [i \in 1..4 |-> lv(i, "w1")]}
    [] s.ty = "zlay" -> {<<>>, <<lv(1, "y1")>>, <<lv(1, "x2")>>, <<lv(1, "y1"), lv(2, "y1")>>, <<lv(1, "y1"), lv(2, "x2"), lv(3, "y1")>>}
    [] s.ty = "rest" -> {[i \in 1..n |-> lv(i, "w1")] : n \in 0..3}
    [] s.ty = "ws" -> LeafDom("N", p, {None})
    [] s.ty = "page" -> LeafDom("N", p, {None})

\* a set of objects of kind k as another value of a Symbol's units
SetField(k, p, o, f, v) == VUnits(k, p, [o EXCEPT ![f] = v])

\* Arbitrary objects: every field drawn from its domain by a pseudo-random
\* number (pure arithmetic, so that a seed determines every behaviour).
Mix1(z, i) == (((z + i * 7919) % 1000003) * 1103 + 12345) % 1000003
Mix(z, i) == Mix1(Mix1(z, i), i + 3)
Pick(z, S) == LET q == SetToSeq(S) IN q[(z % Len(q)) + 1]

\* (keyed maps hold a key once)
DictKinds == {"Pair", "Comment", "PinUuid"}
RECURSIVE VRand(_, _, _, _)
RandObj(k, p, d, z) == IF d < 0 THEN VObj(k, p, z % 3, 0) ELSE VRand(k, p, d, z)
\* now and then an item occurs a second time
RandItem(ks, p, d, i, z) ==
  LET twin == i > 1 /\ z % 5 = 0 /\ ks[1] \notin DictKinds
      zi == Mix(z, (IF twin THEN 1 ELSE i) + 1)
      k == ks[(zi % Len(ks)) + 1]
  IN [k |-> k, o |-> RandObj(k, ItemPath(p, IF twin THEN 1 ELSE i), d - 1, Mix(zi, IF twin THEN 1 ELSE i))]
RandVal(s, p, d, z) ==
  CASE s.ty \in {"obj", "wobj"} ->
              IF s.opt /\ z % 4 = 0 THEN None ELSE RandObj(s.ks[1], p, d - 1, Mix(z, 1))
         [] s.ty \in {"list", "wlist", "subl"} ->
              LET n == IF d > 0 THEN <<0, 1, 1, 2, 3, 5>>[(z % 6) + 1] ELSE <<0, 0, 1, 1, 2>>[(z % 5) + 1]
              IN [i \in 1..n |-> CHOOSE v \in {RandItem(s.ks, p, d, i, z)} : TRUE]
         [] OTHER -> Pick(z, Dom(s, p, 0))
FieldSeq == [k \in KindNames |-> SetToSeq(Fields(k))]
FieldIdx == [k \in KindNames |-> [f \in Fields(k) |-> CHOOSE i \in 1..Len(FieldSeq[k]) : FieldSeq[k][i] = f]]
VRand(k, p, d, z) == TLCEval((LET Fix(o) == IF z % 13 = 0 THEN VUnits(k, p, o) ELSE VFix(k, p, o) IN Fix(TLCEval([f \in Fields(k) |-> (CHOOSE v \in {RandVal(s, pp, d, zz) : s \in {FieldMap[k][f]}, pp \in {p \o "." \o f}, zz \in {Mix(z, FieldIdx[k][f])}} : TRUE)]))))

-----------------------------------------------------------------------------
(* Render: object -> tree *)

\* wildcard layer names
Wild(v) == v.c \in {"x1", "x2"}
QuotedTypes == {"T", "H", "M", "ID", "ZL", "PS"}
LeafTree(lt, v) ==
  IF lt \in QuotedTypes THEN Quoted(v)
  ELSE IF lt = "PL" /\ ~Wild(v) THEN Quoted(v)
  ELSE Atom(v)
YesNo(y, v) == Kw(IF v = Yes THEN y ELSE IF y = "yes" THEN "no" ELSE "false")
Cardinal(v) == v \in {None, Lit("0"), Lit("90"), Lit("180"), Lit("270")}
Set2(v) == v # None /\ v # No

Defaults(k) == [f \in Fields(k) |-> VVal(FieldMap[k][f], "d", 0, 1)]
\* is every field of o at its reading default?
AllDefault(k, o) == \A f \in Fields(k) : o[f] \in {None, No}
Vanishes(k, o) ==
  LET v == Kinds[k].van IN
  IF v = "" THEN FALSE
  ELSE IF v = "*" THEN AllDefault(k, o)
  ELSE o[v] = <<>>

RECURSIVE RKind(_, _, _)
RECURSIVE RSlots(_, _)
Wrap(h, cs) == <<Lst(<<Kw(h)>> \o cs)>>
RItems(items) == Flat(TLCEval([i \in 1..Len(items) |-> RKind(items[i].k, items[i].o, "")]))
RSlot(s, o) ==
  CASE s.ty = "pos" -> <<LeafTree(s.lt, o[s.f])>>
    [] s.ty = "popt" -> IF IsNone(o[s.f]) \/ (s.w # "" /\ o[s.w] # Yes) THEN <<>> ELSE <<LeafTree(s.lt, o[s.f])>>
    [] s.ty \in {"flag", "pflag"} -> IF o[s.f] = Yes THEN <<Kw(s.hd)>> ELSE <<>>
    [] s.ty = "eflag" -> IF IsNone(o[s.f]) THEN <<>> ELSE <<Atom(o[s.f])>>
    [] s.ty = "ftok" -> IF o[s.f] = Yes THEN Wrap(s.hd, <<>>) ELSE <<>>
    [] s.ty = "fton" -> IF o[s.f] = No THEN Wrap(s.hd, <<>>) ELSE <<>>
    [] s.ty = "tok" -> IF IsNone(o[s.f]) THEN <<>> ELSE Wrap(s.hd, <<LeafTree(s.lt, o[s.f])>>)
    [] s.ty = "ktok" -> IF o[s.f] \in {None, Empty} THEN <<>> ELSE Wrap(s.hd, <<LeafTree(s.lt, o[s.f])>>)
    [] s.ty = "bool" -> IF IsNone(o[s.f]) THEN <<>> ELSE Wrap(s.hd, <<YesNo(s.lt, o[s.f])>>)
    [] s.ty = "boolt" -> IF o[s.f] = Yes THEN Wrap(s.hd, <<Kw("yes")>>) ELSE <<>>
    [] s.ty = "obj" -> IF o[s.f] = None THEN <<>> ELSE RKind(s.ks[1], o[s.f], s.hd)
    [] s.ty = "wobj" -> Wrap(s.hd, RKind(s.ks[1], o[s.f], ""))
    [] s.ty = "keyed" -> RKind("Property", o[s.f], "")
    [] s.ty = "list" -> RItems(o[s.f])
    [] s.ty = "wlist" -> IF o[s.f] = <<>> /\ ~s.ee THEN <<>> ELSE Wrap(s.hd, RItems(o[s.f]))
    [] s.ty = "wlist4" -> IF Len(o[s.f]) = 4 THEN Wrap(s.hd, RItems(o[s.f])) ELSE <<>>
    [] s.ty = "atoms" -> IF o[s.f] = <<>> /\ ~s.ee THEN <<>>
                         ELSE Wrap(s.hd, [i \in 1..Len(o[s.f]) |-> LeafTree(s.lt, o[s.f][i])])
    [] s.ty = "rest" -> [i \in 1..Len(o[s.f]) |-> Atom(o[s.f][i])]
    [] s.ty = "comp" -> IF s.w # "" /\ ~Set2(o[s.w]) THEN <<>> ELSE Wrap(s.hd, RSlots(s.sub, o))
    [] s.ty = "ws" -> IF o["width"] # None THEN Wrap("width", <<Atom(o["width"])>>)
                      ELSE IF o["stroke"] # None THEN RKind("Stroke", o["stroke"], "") ELSE <<>>
    [] s.ty = "zlay" -> Wrap(IF Len(o[s.f]) = 1 /\ ~Wild(o[s.f][1]) THEN "layer" ELSE "layers",
                             [i \in 1..Len(o[s.f]) |-> Quoted(o[s.f][i])])
    [] s.ty = "page" -> IF o["paperSize"] = Lit("User") THEN <<Atom(o["width"]), Atom(o["height"])>> ELSE <<>>
    [] s.ty = "subl" -> Flat([i \in 1..Len(o[s.f]) |->
                             <<Kw("addsublayer")>> \o RSlots(Kinds["StackupSubLayer"].slots, o[s.f][i].o)])
RSlots(ss, o) == IF ss = <<>> THEN <<>> ELSE RSlot(Head(ss), o) \o RSlots(Tail(ss), o)

HeadWord(k, o, hd) ==
  IF hd # "" THEN <<Kw(hd)>>
  ELSE IF Kinds[k].hf # "" THEN <<Atom(o[Kinds[k].hf])>>
  ELSE IF Kinds[k].heads[1] = "" THEN <<>> ELSE <<Kw(Kinds[k].heads[1])>>
RKind(k, o, hd) ==
  IF Vanishes(k, o) THEN <<>>
  ELSE <<Lst(TLCEval(HeadWord(k, o, hd) \o RSlots(Kinds[k].slots, o)))>>

\* the tree written for an object (vanishing objects: no tree)
Render(k, o) == RKind(k, o, IF k \in {"XY", "XYA", "XYA0", "XYAU", "WksPosition"} THEN "at" ELSE "")

-----------------------------------------------------------------------------
(* Guard: objects that cannot be written and must be refused *)

RECURSIVE GuardK(_, _)
GuardSlot(s, o) ==
  CASE s.ty \in {"obj"} -> o[s.f] # None /\ GuardK(s.ks[1], o[s.f])
    [] s.ty = "wobj" -> GuardK(s.ks[1], o[s.f])
    [] s.ty \in {"list", "wlist"} -> \E i \in 1..Len(o[s.f]) : GuardK(o[s.f][i].k, o[s.f][i].o)
    [] s.ty = "zlay" -> o[s.f] = <<>>
    [] s.ty = "page" -> o["paperSize"] = Lit("User") /\ (IsNone(o["width"]) \/ IsNone(o["height"]))
    [] OTHER -> FALSE
GuardK(k, o) ==
  \/ \E i \in 1..Len(Kinds[k].slots) : GuardSlot(Kinds[k].slots[i], o)
  \/ k = "Dimension" /\ o["pts"] = <<>>
  \/ /\ k \in {"GrTextBox", "FpTextBox"}
     /\ IF Cardinal(o["angle"]) THEN o["start"] = None \/ o["end"] = None ELSE Len(o["pts"]) # 4
Guard(k, o) == GuardK(k, o)

-----------------------------------------------------------------------------
(* Read: tree -> object *)

FlagWords(ss) == {Lit(ss[i].hd) : i \in {j \in 1..Len(ss) : ss[j].ty \in {"flag", "pflag"}}}
                 \cup UNION {{Lit(ss[i].dom[j]) : j \in 1..Len(ss[i].dom)} : i \in {j \in 1..Len(ss) : ss[j].ty = "eflag"}}


\* positional part: the atoms, from the i-th on; result [o |-> values, n |-> next]
RECURSIVE ReadPos(_, _, _, _)
ReadPos(ss, as, i, acc) ==
  IF ss = <<>> THEN [o |-> acc, n |-> i]
  ELSE
  LET s == Head(ss)
      has == i <= Len(as)
      go(v, j) == ReadPos(Tail(ss), as, j, acc @@ (s.f :> v))
      okopt == /\ has /\ as[i].v \notin FlagWords(ss)
               /\ (s.dom # <<>> => \E j \in 1..Len(s.dom) : as[i].v = Lit(s.dom[j]))
               /\ (s.w # "" => s.w \in DOMAIN acc /\ acc[s.w] = Yes)
  IN CASE s.ty = "pos"   -> IF has THEN go(as[i].v, i + 1) ELSE go(s.d, i)
       [] s.ty = "popt"  -> IF okopt THEN go(as[i].v, i + 1) ELSE go(None, i)
       [] s.ty = "pflag" -> IF has /\ IsKw(as[i], s.hd) /\ (Tail(ss) # <<>> /\ Tail(ss)[1].ty = "pos" => i + 1 <= Len(as))
                            THEN go(Yes, i + 1) ELSE go(No, i)
       [] s.ty = "page"  -> IF acc["paperSize"] = Lit("User")
                            THEN ReadPos(Tail(ss), as, i + 2, acc @@ ("width" :> as[i].v) @@ ("height" :> as[i + 1].v))
                            ELSE ReadPos(Tail(ss), as, i, acc @@ ("width" :> None) @@ ("height" :> None))
       [] OTHER -> ReadPos(Tail(ss), as, i, acc)

RECURSIVE ReadK(_, _)
RECURSIVE ReadSlots(_, _)
\* the kind out of ks that a list with this head denotes ("" if none)
KindOf(ks, t) ==
  LET c == {i \in 1..Len(ks) : \E j \in 1..Len(Kinds[ks[i]].heads) :
              Kinds[ks[i]].heads[j] = "" \/ HeadOf(t) = Lit(Kinds[ks[i]].heads[j])}
  IN IF c = {} THEN "" ELSE ks[CHOOSE i \in c : TRUE]
ReadItems(ks, ts) ==
  LET mine == SelectSeq(ts, LAMBDA t : IsList(t) /\ KindOf(ks, t) # "")
  IN TLCEval([i \in 1..Len(mine) |-> LET k == KindOf(ks, mine[i]) IN [k |-> k, o |-> ReadK(k, mine[i])]])
Sel(ls, hd) == SelectSeq(ls, LAMBDA t : HasHead(t, hd))
ReadDefault(s) == IF s.ty = "obj" THEN (IF s.opt THEN None ELSE Defaults(s.ks[1])) ELSE s.d
KeyedOf(t) == IsList(t) /\ HasHead(t, "property") /\ Len(t.c) > 1 /\ t.c[2].v \in
              {Lit("Sheet name"), Lit("Sheetname"), Lit("Sheet file"), Lit("Sheetfile")}
\* segments of a stackup layer between addsublayer words
RECURSIVE Segments(_, _)
Segments(ts, cur) ==
  IF ts = <<>> THEN <<cur>>
  ELSE IF IsKw(Head(ts), "addsublayer") THEN <<cur>> \o Segments(Tail(ts), <<>>)
  ELSE Segments(Tail(ts), Append(cur, Head(ts)))

\* value(s) of one slot, given list children ls, leftover atoms as
ReadSlot(s, ls, as, keyedSibs) ==
  LET sel == IF s.ty \in {"obj"} THEN SelectSeq(ls, LAMBDA t :
                 IF s.hd # "" THEN HasHead(t, s.hd) ELSE KindOf(s.ks, t) # "")
             ELSE Sel(ls, s.hd)
      last == LastOf(sel)
      one(v) == s.f :> v
  IN CASE s.ty \in {"flag"} -> one(IF \E i \in 1..Len(as) : IsKw(as[i], s.hd) THEN Yes ELSE No)
       [] s.ty = "eflag" -> LET hit == SelectSeq(as, LAMBDA a : \E j \in 1..Len(s.dom) : a.v = Lit(s.dom[j]))
                            IN one(IF hit = <<>> THEN None ELSE LastOf(hit).v)
       [] s.ty = "ftok" -> one(IF sel = <<>> THEN No ELSE Yes)
       [] s.ty = "fton" -> one(IF sel = <<>> THEN Yes ELSE No)
       [] s.ty \in {"tok", "ktok"} -> one(IF sel = <<>> THEN s.d ELSE last.c[2].v)
       [] s.ty \in {"bool", "boolt"} -> one(IF sel = <<>> THEN s.d ELSE IF IsKw(last.c[2], s.lt) THEN Yes ELSE No)
       [] s.ty = "obj" -> one(IF sel = <<>> THEN ReadDefault(s) ELSE ReadK(s.ks[1], last))
       [] s.ty = "wobj" -> one(IF sel = <<>> THEN Defaults(s.ks[1]) ELSE ReadK(s.ks[1], last.c[2]))
       [] s.ty = "keyed" -> LET mine == SelectSeq(ls, LAMBDA t : KeyedOf(t) /\ \E j \in 1..Len(s.dom) : t.c[2].v = Lit(s.dom[j]))
                            IN one(IF mine = <<>> THEN [Defaults("Property") EXCEPT !["key"] = Lit(s.dom[1])]
                                   ELSE ReadK("Property", LastOf(mine)))
       [] s.ty = "list" -> one(ReadItems(s.ks, IF keyedSibs /\ s.f = "properties" THEN SelectSeq(ls, LAMBDA t : ~KeyedOf(t)) ELSE ls))
       [] s.ty \in {"wlist", "wlist4"} -> one(Flat([i \in 1..Len(sel) |-> ReadItems(s.ks, From(sel[i].c, 2))]))
       [] s.ty = "atoms" -> one(IF sel = <<>> THEN <<>> ELSE [i \in 1..(Len(last.c) - 1) |-> last.c[i + 1].v])
       [] s.ty = "rest" -> one([i \in 1..Len(as) |-> as[i].v])
       [] s.ty = "comp" ->
            LET subs == SlotsFlat(s.sub)
                own == {subs[i].f : i \in 1..Len(subs)}
                gate(v) == IF s.w = "" \/ s.w \in own THEN << >> ELSE (s.w :> v)
            IN IF sel = <<>> THEN [f \in own |-> ReadDefault(subs[CHOOSE i \in 1..Len(subs) : subs[i].f = f])] @@ gate(No)
               ELSE ReadSlots(s.sub, From(last.c, 2)) @@ gate(Yes)
       [] s.ty = "ws" -> LET w == Sel(ls, "width") st == Sel(ls, "stroke") IN
            ("width" :> (IF w # <<>> THEN LastOf(w).c[2].v ELSE IF st # <<>> THEN None ELSE s.d))
            @@ ("stroke" :> (IF st = <<>> THEN None ELSE ReadK("Stroke", LastOf(st))))
       [] s.ty = "zlay" -> LET m == SelectSeq(ls, LAMBDA t : HasHead(t, "layer") \/ HasHead(t, "layers"))
                           IN one(Flat([i \in 1..Len(m) |-> [j \in 1..(Len(m[i].c) - 1) |-> m[i].c[j + 1].v]]))
       [] OTHER -> << >>

ReadSlots(ss, ts) ==
  LET subl == \E i \in 1..Len(ss) : ss[i].ty = "subl"
      segs == IF subl THEN Segments(ts, <<>>) ELSE <<ts>>
      as0 == SelectSeq(segs[1], LAMBDA t : IsAtom(t))
      ls == SelectSeq(segs[1], LAMBDA t : IsList(t))
      pos == ReadPos(ss, as0, 1, << >>)
      as == From(as0, pos.n)
      keyed == \E i \in 1..Len(ss) : ss[i].ty = "keyed"
      RECURSIVE Go(_, _)
      Go(rest, acc) == IF rest = <<>> THEN acc
                       ELSE Go(Tail(rest), TLCEval(acc @@ ReadSlot(Head(rest), ls, as, keyed)))
      sub == IF ~subl THEN << >>
             ELSE ("subLayers" :> [i \in 1..(Len(segs) - 1) |->
                      [k |-> "StackupSubLayer", o |-> ReadSlots(Kinds["StackupSubLayer"].slots, segs[i + 1])]])
  IN Go(ss, pos.o) @@ sub

ReadK(k, t) ==
  LET body == IF Kinds[k].heads[1] = "" THEN t.c ELSE From(t.c, 2)
      o == ReadSlots(Kinds[k].slots, body)
  IN IF Kinds[k].hf = "" THEN o ELSE o @@ (Kinds[k].hf :> t.c[1].v)
Read(k, t) == ReadK(k, t)

-----------------------------------------------------------------------------
(* Norm: what is left of an object after it has been saved and loaded *)

RECURSIVE NormK(_, _)
NormItems(items) ==
  LET keep == SelectSeq(items, LAMBDA it : ~Vanishes(it.k, it.o))
  IN TLCEval([i \in 1..Len(keep) |-> [k |-> keep[i].k, o |-> NormK(keep[i].k, keep[i].o)]])
\* fields gated by a field that is not set
Gated(k, o) ==
  LET ss == Kinds[k].slots IN
  UNION {LET subs == SlotsFlat(ss[i].sub) IN {subs[j].f : j \in 1..Len(subs)} :
         i \in {j \in 1..Len(ss) : ss[j].ty = "comp" /\ ss[j].w # "" /\ ~Set2(o[ss[j].w])}}
NormField(k, o, f) ==
  LET s == FieldMap[k][f] v == o[f] IN
  IF f \in Gated(k, o) THEN ReadDefault(s)
  ELSE
  CASE s.ty = "tok" -> IF IsNone(v) THEN s.d ELSE v
    [] s.ty = "ktok" -> IF IsNone(v) THEN Empty ELSE v
    [] s.ty = "popt" -> IF k = "PageSettings" THEN (IF o["paperSize"] = Lit("User") THEN v ELSE None)
                        ELSE IF s.w # "" /\ o[s.w] # Yes THEN None ELSE v
    [] s.ty = "page" -> IF o["paperSize"] = Lit("User") THEN v ELSE None
    [] s.ty = "obj" -> IF v = None THEN None
                       ELSE IF s.f = "stroke" /\ FieldMap[k]["stroke"].opt /\ "width" \in Fields(k) /\ FieldMap[k]["width"].ty = "ws"
                               /\ o["width"] # None THEN None
                       ELSE IF Vanishes(s.ks[1], v) THEN ReadDefault(s) ELSE NormK(s.ks[1], v)
    [] s.ty \in {"wobj"} -> NormK(s.ks[1], v)
    [] s.ty = "keyed" -> NormK("Property", v)
    [] s.ty \in {"list", "wlist", "subl"} -> NormItems(v)
    [] s.ty = "wlist4" -> IF Len(v) = 4 THEN NormItems(v) ELSE <<>>
    [] s.ty = "ws" -> IF v = None /\ o["stroke"] = None THEN s.d ELSE v
    [] OTHER -> v
NormK(k, o) == TLCEval([f \in Fields(k) |-> NormField(k, o, f)])
Norm(k, o) == NormK(k, o)

=============================================================================
