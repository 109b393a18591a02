------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* Editing one object of any kind: start from a base object and assign     *)
(* attributes.  Every reachable object is rendered, read back and compared *)
(* with its normal form, and exported for replay against the code.         *)
(***************************************************************************)
EXTENDS Grammar, Json

CONSTANTS KindSet,     \* kinds to explore
          Bases,       \* subset of 0..2
          Seeds,       \* of the chains of arbitrary objects
          MaxLevel,    \* number of states on a behaviour (1 = bases only)
          Depth        \* nesting budget of the bases

VARIABLES sKind, sObj, sLast, sZ
vars == <<sKind, sObj, sLast, sZ>>

Init == /\ sKind \in KindSet
        /\ \E n \in Bases : sObj = VObj(sKind, "r", n, Depth)
        /\ sLast = "" /\ sZ = 0

Edit(f, v) == /\ v # sObj[f]
              /\ sObj' = SetField(sKind, "r", sObj, f, v)
              /\ sLast' = f
              /\ UNCHANGED <<sKind, sZ>>

Next == TLCGet("level") < MaxLevel /\ \E f \in Fields(sKind) : \E v \in Dom(FieldMap[sKind][f], "r." \o f, Depth - 1) : Edit(f, v)
\* arbitrary objects: chains of pseudo-random ones, one chain per seed
KindList == SetToSeq(KindSet)
RandAt(zz) == /\ sZ = zz
              /\ sKind = KindList[(Mix(zz, 17) % Len(KindList)) + 1]
              /\ sObj = VRand(sKind, "r", Depth, zz)
              /\ sLast = "*"
InitRand == \E i \in Seeds : RandAt(Mix(i, 5))
NextRand == /\ TLCGet("level") < MaxLevel
            /\ sZ' = Mix(sZ, 11)
            /\ sKind' = KindList[(Mix(sZ', 17) % Len(KindList)) + 1]
            /\ sObj' = VRand(sKind', "r", Depth, sZ')
            /\ sLast' = "*"
SpecRand == InitRand /\ [][NextRand]_vars
Spec == Init /\ [][Next]_vars

\* large collections: one collection grows to a size out of Seeds (items of
\* all its kinds in turn; every sixth repeats the first one)
Twin(s, i) == IF i > 1 /\ i % 6 = 0 /\ (s.ks = <<>> \/ s.ks[1] \notin DictKinds) THEN 1 ELSE i
Long(s, p, n) ==
  LET leafAt(i) == IF s.lt \in {"PL", "ZL"} THEN Leaf("y1", ItemPath(p, Twin(s, i)))
                   ELSE IF s.lt = "T" THEN Leaf("t1", ItemPath(p, Twin(s, i))) ELSE Leaf("w1", ItemPath(p, Twin(s, i)))
      kindAt(i) == s.ks[((Twin(s, i) - 1) % Len(s.ks)) + 1]
  IN IF s.ty \in {"atoms", "zlay", "rest"} THEN [i \in 1..n |-> leafAt(i)]
     ELSE [i \in 1..n |-> [k |-> kindAt(i), o |-> VObj(kindAt(i), ItemPath(p, Twin(s, i)), IF Twin(s, i) % 2 = 0 THEN 2 ELSE 1, 0)]]
ListFields(k) == {f \in Fields(k) : FieldMap[k][f].ty \in {"list", "wlist", "subl", "atoms", "zlay", "rest"}}
NextLong == TLCGet("level") < 2 /\ \E f \in ListFields(sKind) : \E n \in Seeds : Edit(f, Long(FieldMap[sKind][f], "r." \o f, n))
SpecLong == Init /\ [][NextLong]_vars

\* collections of arbitrary items (two to eight; now and then one occurs
\* twice) in an otherwise default object: every collection of every kind
\* with every seed
Items(s, p, zz) == LET n == (Mix(zz, 3) % 7) + 2
                   IN IF s.ty \in {"atoms", "zlay", "rest"} THEN Long(s, p, n)
                      ELSE [i \in 1..n |-> CHOOSE v \in {RandItem(s.ks, p, Depth, i, zz)} : TRUE]
NextLists == TLCGet("level") < 2 /\ \E f \in ListFields(sKind) : \E i \in Seeds : \E zz \in {Mix(i, FieldIdx[sKind][f])} :
               Edit(f, Items(FieldMap[sKind][f], "r." \o f, zz))
SpecLists == Init /\ [][NextLists]_vars

\* incomplete objects inside others: what must be refused, alone or after a
\* complete item, at any depth
Raw == {"Zone", "Dimension", "GrTextBox", "FpTextBox", "PageSettings"}
Holds(s) == IF s.ty \in {"list", "wlist", "subl", "obj", "wobj"} THEN {s.ks[i] : i \in 1..Len(s.ks)} ELSE {}
OneEdit(k, p, b) == UNION {{SetField(k, p, b, f, v) : v \in Dom(FieldMap[k][f], p \o "." \o f, 1)} : f \in Fields(k)}
\* a base object that lacks something, and then one edit that does not help
Lacking(k, p) == {b \in UNION {{VBase(k, p, n, 1)} \cup OneEdit(k, p, VObj(k, p, n, 1)) : n \in 0..2} : Guard(k, b)}
Incomplete(k, p) == LET s == Lacking(k, p) IN s \cup {o \in UNION {OneEdit(k, p, b) : b \in s} : Guard(k, o)}
RECURSIVE Bads(_, _, _)
\* (o: an object, to be put in place of a part of it)
BadIn(k, o, p, f, d) ==
  LET s == FieldMap[k][f]
      ks == Holds(s)
      q == p \o "." \o f
  IN IF s.ty \in {"obj", "wobj"} THEN UNION {{SetField(k, p, o, f, x) : x \in Bads(kk, q, d - 1)} : kk \in ks}
     ELSE UNION {UNION {{SetField(k, p, o, f, <<[k |-> kk, o |-> x]>>), SetField(k, p, o, f, <<[k |-> kk, o |-> VObj(kk, ItemPath(q, 1), 1, 0)], [k |-> kk, o |-> x]>>)}
                        : x \in Bads(kk, ItemPath(q, 2), d - 1)} : kk \in ks}
Bads(k, p, d) == (IF k \in Raw THEN (IF d = Depth - 1 THEN Incomplete(k, p) ELSE Lacking(k, p)) ELSE {})
                 \cup (IF d = 0 THEN {} ELSE UNION {BadIn(k, VObj(k, p, 1, 0), p, f, d) : f \in {f \in Fields(k) : Holds(FieldMap[k][f]) # {}}})
NextNested == TLCGet("level") < 2 /\ \E f \in {f \in Fields(sKind) : Holds(FieldMap[sKind][f]) # {}} :
                \E o \in BadIn(sKind, sObj, "r", f, Depth) : sObj' = o /\ sLast' = f /\ UNCHANGED <<sKind, sZ>>
SpecNested == Init /\ [][NextNested]_vars

-----------------------------------------------------------------------------

Fine == ~Guard(sKind, sObj)

\* C01: reading what was written gives the object, up to what Norm names
\* C03: a second save writes the same, and changes nothing any more
RoundTripOf(t, nm) == t # <<>> => Read(sKind, t[1]) = nm
\* (an unset width may turn into the default width in the first save)
StableOf(t, nm) == /\ Norm(sKind, nm) = nm
                   /\ (t # <<>> => Read(sKind, Render(sKind, nm)[1]) = nm)

\* C07: an unset optional attribute leaves no token behind; a set one, even
\* if zero, empty or false, does
Direct(k, f) == \E i \in 1..Len(Kinds[k].slots) : Kinds[k].slots[i].f = f
OptFields == [k \in KindNames |-> {f \in Fields(k) : "subLayers" \notin Fields(k) /\ FieldMap[k][f].ty \in {"tok", "bool"} /\ Direct(k, f)}]
OptionalOf(t) ==
  t # <<>> => LET heads == {HeadOf(t[1].c[i]) : i \in 1..Len(t[1].c)}
              IN \A f \in OptFields[sKind] : IsNone(sObj[f]) <=> Lit(FieldMap[sKind][f].hd) \notin heads

\* C04/C17: one tree; its list children come in the order of the slots, its
\* words keep their place in front of (or between) them
WellFormedOf(t) == Len(t) <= 1 /\ \A i \in 1..Len(t) : IsList(t[i])

\* all of them at once (Render and Norm are computed once per state)
Laws == Fine => LET t == Render(sKind, sObj)
                    nm == Norm(sKind, sObj)
                IN /\ RoundTripOf(t, nm)
                   /\ StableOf(t, nm)
                   /\ OptionalOf(t)
                   /\ WellFormedOf(t)
RoundTrip  == Fine => RoundTripOf(Render(sKind, sObj), Norm(sKind, sObj))
Stable     == Fine => StableOf(Render(sKind, sObj), Norm(sKind, sObj))
Optional   == Fine => OptionalOf(Render(sKind, sObj))
WellFormed == Fine => WellFormedOf(Render(sKind, sObj))

\* the schema, for the harness
ASSUME PrintT(ToJson([schema |-> FieldMap]))

Record(t, nm) == [kind |-> sKind, obj |-> sObj, last |-> sLast, bad |-> 0, tree |-> t, norm |-> nm,
                  again |-> IF nm = sObj \/ Render(sKind, nm) = t THEN 1 ELSE 0]
LawsExport ==
  IF Fine THEN LET t == TLCEval(Render(sKind, sObj))
                   nm == TLCEval(Norm(sKind, sObj))
               IN /\ RoundTripOf(t, nm)
                  /\ StableOf(t, nm)
                  /\ OptionalOf(t)
                  /\ WellFormedOf(t)
                  /\ PrintT(ToJson(Record(t, nm)))
  ELSE PrintT(ToJson([kind |-> sKind, obj |-> sObj, last |-> sLast, bad |-> 1]))
=============================================================================
