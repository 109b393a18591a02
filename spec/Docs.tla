------------------------------- MODULE Docs -------------------------------
(***************************************************************************)
(* Documents as other programs write them: start from the expression of an *)
(* object and change its form - reorder the tokens, leave some out, put    *)
(* unknown ones in between, move flags.  Every reachable document is read  *)
(* by the specification and written again; the result is exported for      *)
(* replay against the code.                                                *)
(***************************************************************************)
EXTENDS Grammar, Json

CONSTANTS KindSet, Bases, Seeds, MaxLevel, Depth
VARIABLES sKind, sTree, sLast, sZ
vars == <<sKind, sTree, sLast, sZ>>

Start(k, o) == IF Guard(k, o) THEN <<>> ELSE Render(k, o)
Init == /\ sKind \in KindSet
        /\ sZ = 0 /\ sLast = ""
        /\ \E n \in Bases : LET t == Start(sKind, VObj(sKind, "r", n, Depth)) IN t # <<>> /\ sTree = t[1]

\* positions of the list children that may be permuted
IsSub(t) == \E i \in 1..Len(t.c) : IsKw(t.c[i], "addsublayer")
\* (the version of a design rule file comes first)
First(k) == IF Kinds[k].heads[1] = "" /\ k # "DesignRules" THEN 1 ELSE 2
Movable(k, t) == IF Kinds[k].rig \/ IsSub(t) THEN {} ELSE {i \in First(k)..Len(t.c) : IsList(t.c[i])}
SwapAt(t, i, j) == [t EXCEPT !.c[i] = t.c[j], !.c[j] = t.c[i]]
Unknown(p) == Lst(<<Atom(Leaf("u1", p)), Atom(Leaf("n1", p \o ".n")), Quoted(Leaf("t1", p \o ".t")),
                    Lst(<<Atom(Leaf("u1", p \o ".s")), Kw("yes")>>)>>)
PutAt(t, i, x) == [t EXCEPT !.c = SubSeq(t.c, 1, i - 1) \o <<x>> \o From(t.c, i)]
DropAt(t, i) == [t EXCEPT !.c = SubSeq(t.c, 1, i - 1) \o From(t.c, i + 1)]
\* what may be left out: not the library identifier of a symbol, nor what the
\* reader needs to recognise the expression
CanDrop(k, t, i) == Len(t.c) > Kinds[k].min /\ ~HasHead(t.c[i], "lib_id")
\* list children in reverse order, in the places of list children
Reversed(k, t) == LET ps == SetToSortSeq(Movable(k, t), <) n == Len(ps)
               IN [t EXCEPT !.c = [i \in 1..Len(t.c) |->
                     IF i \in Movable(k, t) THEN t.c[ps[n + 1 - (CHOOSE q \in 1..n : ps[q] = i)]] ELSE t.c[i]]]
\* a plain flag word, moved to the end of the expression
FlagSlots(k) == {s \in {Kinds[k].slots[i] : i \in 1..Len(Kinds[k].slots)} : s.ty \in {"flag", "eflag"}}
IsFlag(x, s) == x.k = "a" /\ IF s.ty = "flag" THEN IsKw(x, s.hd) ELSE \E j \in 1..Len(s.dom) : IsKw(x, s.dom[j])
\* children that are read by their place: the head and the atoms before the first list or flag
Fixed0(k, t) == LET later == {i \in First(k)..Len(t.c) : IsList(t.c[i]) \/ \E s \in FlagSlots(k) : IsFlag(t.c[i], s)}
             IN IF later = {} THEN Len(t.c) ELSE (CHOOSE i \in later : \A j \in later : i <= j) - 1
Flags(k, t) == IF Kinds[k].rig \/ IsSub(t) THEN {}
            ELSE {i \in (Fixed0(k, t) + 1)..Len(t.c) : \E s \in FlagSlots(k) : IsFlag(t.c[i], s)}
ToEnd(t, i) == [DropAt(t, i) EXCEPT !.c = Append(@, t.c[i])]
ToFront(k, t, i) == PutAt(DropAt(t, i), Fixed0(k, t) + 1, t.c[i])
\* an unknown word
Positionals(k) == \E i \in 1..Len(Kinds[k].slots) : Kinds[k].slots[i].ty \in {"popt", "page", "rest"}
Loose(k, t) == IF Kinds[k].rig \/ Positionals(k) \/ IsSub(t) \/ First(k) = 1 \/ Movable(k, t) = {} THEN {}
            ELSE {i \in Movable(k, t) : \A j \in i..Len(t.c) : IsList(t.c[j]) \/ \E s \in FlagSlots(k) : IsFlag(t.c[j], s)}
\* the tokens inside a composite token, in reverse order
CompSlots(k) == {s \in {Kinds[k].slots[i] : i \in 1..Len(Kinds[k].slots)} : s.ty = "comp"}
CompAt(k, t, i) == {s \in CompSlots(k) : IsList(t.c[i]) /\ HasHead(t.c[i], s.hd)}
NPos(s) == Cardinality({i \in 1..Len(s.sub) : s.sub[i].ty = "pos"})
HasPopt(s) == \E i \in 1..Len(s.sub) : s.sub[i].ty = "popt"
Comps(k, t) == IF Kinds[k].rig \/ IsSub(t) THEN {}
            ELSE {i \in First(k)..Len(t.c) : \E s \in CompAt(k, t, i) : ~HasPopt(s) /\ Len(t.c[i].c) - 1 - NPos(s) > 1}
InnerReverse(k, t, i) == LET s == CHOOSE s \in CompAt(k, t, i) : TRUE
                          n == 1 + NPos(s)
                          c == t.c[i].c
                      IN [t EXCEPT !.c[i].c = SubSeq(c, 1, n) \o Reverse(From(c, n + 1))]

Swap(i, j) == sTree' = SwapAt(sTree, i, j) /\ sLast' = "swap"
ReverseAll == Movable(sKind, sTree) # {} /\ sTree' = Reversed(sKind, sTree) /\ sLast' = "reverse"
Insert(i) == sTree' = PutAt(sTree, i, Unknown("u" \o ToString(i))) /\ sLast' = "unknown"
Drop(i) == CanDrop(sKind, sTree, i) /\ sTree' = DropAt(sTree, i) /\ sLast' = "drop"
MoveFlag(i) == /\ sLast' = "flag"
               /\ \/ sTree' = ToEnd(sTree, i)
                  \/ sTree' = ToFront(sKind, sTree, i)
                  \/ /\ Movable(sKind, sTree) # {}
                     /\ sTree' = PutAt(DropAt(sTree, i), CHOOSE j \in Movable(sKind, sTree) : \A q \in Movable(sKind, sTree) : q <= j, sTree.c[i])
InsertWord(i) == sTree' = PutAt(sTree, i, Atom(Leaf("u1", "v" \o ToString(i)))) /\ sLast' = "word"
Inside(i) == sTree' = InnerReverse(sKind, sTree, i) /\ sLast' = "inside"
Next == /\ TLCGet("level") < MaxLevel
        /\ UNCHANGED <<sKind, sZ>>
        /\ \/ ReverseAll
           \/ \E i \in Movable(sKind, sTree) : Drop(i) \/ Insert(i)
           \/ \E i, j \in Movable(sKind, sTree) : i < j /\ (\A q \in Movable(sKind, sTree) : ~(i < q /\ q < j)) /\ Swap(i, j)
           \/ \E i \in Flags(sKind, sTree) : MoveFlag(i)
           \/ \E i \in Comps(sKind, sTree) : Inside(i)
           \/ \E i \in Loose(sKind, sTree) : InsertWord(i)
Spec == Init /\ [][Next]_vars

\* look-alikes: an unknown token in the shape of a known one and with a
\* similar name, before and after it; known tokens inside an unknown one
RECURSIVE Other(_)
Other(t) == IF IsList(t) THEN [t EXCEPT !.c = [i \in 1..Len(t.c) |-> Other(t.c[i])]]
            ELSE IF t.v.c \in {"lit", "none", "t0", "n0"} THEN t ELSE [t EXCEPT !.v = Leaf(t.v.c, "y" \o t.v.p)]
Named(t) == t.c # <<>> /\ IsAtom(t.c[1]) /\ t.c[1].v.c = "lit"
Like(t, n, w) == [Other(t) EXCEPT !.c[1] = Atom(Leaf("u1", "like/" \o t.c[1].v.p \o "/" \o ToString(n) \o "/" \o w))]
LookAlike(i, n) == /\ Named(sTree.c[i])
                   /\ sTree' = PutAt(PutAt(sTree, i + 1, Like(sTree.c[i], n, "a")), i, Like(sTree.c[i], n, "b"))
                   /\ sLast' = "like " \o sTree.c[i].c[1].v.p
Around(w) == Lst(<<Atom(Leaf("u1", "around/" \o w))>> \o [i \in 1..Len(sTree.c) - First(sKind) + 1 |-> Other(sTree.c[i + First(sKind) - 1])])
Enclosed == LET i == CHOOSE j \in Movable(sKind, sTree) : \A q \in Movable(sKind, sTree) : j <= q IN
            /\ sTree' = [PutAt(sTree, i, Around("a")) EXCEPT !.c = Append(@, Around("b"))]
            /\ sLast' = "around"
NextLike == /\ TLCGet("level") < 2 /\ UNCHANGED <<sKind, sZ>>
            /\ \/ \E i \in Movable(sKind, sTree) : \E n \in 0..4 : LookAlike(i, n)
               \/ Movable(sKind, sTree) # {} /\ Enclosed
SpecLike == Init /\ [][NextLike]_vars

\* arbitrary documents: an arbitrary object, its expression changed a few times
Maybe(zz, n) == (zz % n) = 0
PickFrom(zz, S) == SetToSortSeq(S, <)[(zz % Cardinality(S)) + 1]
Change(k, t, zz) ==
  LET m == Movable(k, t) c == Mix(zz, 1) % 9 a == Mix(zz, 2) b == Mix(zz, 3) IN
  IF m = {} THEN t
  ELSE CASE c \in {0, 1} -> SwapAt(t, PickFrom(a, m), PickFrom(b, m))
         [] c = 2 -> Reversed(k, t)
         [] c = 3 -> IF CanDrop(k, t, PickFrom(a, m)) THEN DropAt(t, PickFrom(a, m)) ELSE t
         [] c = 4 -> PutAt(t, PickFrom(a, m), Unknown("u" \o ToString(zz % 97)))
         [] c = 5 -> IF Flags(k, t) = {} THEN Reversed(k, t) ELSE ToEnd(t, PickFrom(a, Flags(k, t)))
         [] c = 6 -> IF Flags(k, t) = {} THEN Reversed(k, t) ELSE ToFront(k, t, PickFrom(a, Flags(k, t)))
         [] c = 7 -> IF Loose(k, t) = {} THEN Reversed(k, t) ELSE PutAt(t, PickFrom(a, Loose(k, t)), Atom(Leaf("u1", "v" \o ToString(zz % 97))))
         [] c = 8 -> IF Comps(k, t) = {} THEN Reversed(k, t) ELSE InnerReverse(k, t, PickFrom(a, Comps(k, t)))
\* the kind of the object a child of an expression of kind k stands for
ChildKind(k, t, i) ==
  LET x == t.c[i]
      ss == Kinds[k].slots
      hit == {j \in 1..Len(ss) : \/ (ss[j].ty = "list" /\ KindOf(ss[j].ks, x) # "")
                                 \/ (ss[j].ty = "obj" /\ IF ss[j].hd # "" THEN HasHead(x, ss[j].hd) ELSE KindOf(ss[j].ks, x) # "")}
  IN IF ~IsList(x) \/ hit = {} THEN "" ELSE LET s == ss[CHOOSE j \in hit : TRUE] IN IF s.ty = "list" THEN KindOf(s.ks, x) ELSE s.ks[1]
\* a change of form at any depth
RECURSIVE Deep(_, _, _, _)
Deep(k, t, zz, d) ==
  LET m == {i \in Movable(k, t) : ChildKind(k, t, i) # "" /\ ~Kinds[ChildKind(k, t, i)].rig}
      i == PickFrom(Mix(zz, 5), m)
  IN IF d > 0 /\ m # {} /\ Mix(zz, 4) % 3 # 0
     THEN [t EXCEPT !.c[i] = Deep(ChildKind(k, t, i), t.c[i], Mix(zz, 6), d - 1)]
     ELSE Change(k, t, zz)
KindList == SetToSeq(KindSet)
RandTree(k, zz) == LET t == Start(k, VRand(k, "r", Depth, zz)) IN
                   IF t # <<>> THEN t[1] ELSE LET u == Start(k, VObj(k, "r", 1, Depth)) IN u[1]
KindFor(zz) == KindList[(Mix(zz, 17) % Len(KindList)) + 1]
InitRand == \E i \in Seeds : /\ sZ = Mix(i, 5) /\ sKind = KindFor(sZ)
                             /\ sTree = RandTree(sKind, sZ) /\ sLast = "*"
NextRand == /\ TLCGet("level") < MaxLevel
            /\ sZ' = Mix(sZ, 11)
            /\ sLast' = "*"
            /\ IF sZ' % 4 = 0 THEN sKind' = KindFor(sZ') /\ sTree' = RandTree(sKind', sZ')
               ELSE sKind' = sKind /\ sTree' = Deep(sKind, sTree, sZ', Depth)
SpecRand == InitRand /\ [][NextRand]_vars

-----------------------------------------------------------------------------
RECURSIVE Clean(_)
Clean(t) == IF IsAtom(t) THEN t
            ELSE LET known == SelectSeq(t.c, LAMBDA x : ~(IsList(x) /\ x.c # <<>> /\ x.c[1].v.c = "u1") /\ ~(IsAtom(x) /\ x.v.c = "u1"))
                 IN [t EXCEPT !.c = [i \in 1..Len(known) |-> Clean(known[i])]]
\* C02: unknown tokens do not change what is read
IgnoresUnknown(o) == Read(sKind, Clean(sTree)) = o
\* C02/C17: the order of unlike tokens does not change what is read: only the
\* relative order of items of one collection does
Scalars(o) == [f \in {g \in Fields(sKind) : FieldMap[sKind][g].ty \notin {"list", "wlist", "wlist4", "subl", "zlay"}} |-> o[f]]
IgnoresOrder(o) == Kinds[sKind].rig \/ Movable(sKind, sTree) = {} \/ Scalars(Read(sKind, Reversed(sKind, sTree))) = Scalars(o)
\* C03: what was read is a fixed point
Fixed(o, t) == t # <<>> => Read(sKind, t[1]) = Norm(sKind, o)

ASSUME PrintT(ToJson([schema |-> FieldMap]))
LawsExport ==
  LET o == TLCEval(Read(sKind, sTree)) IN
  /\ IgnoresUnknown(o) /\ IgnoresOrder(o)
  /\ IF Guard(sKind, o) THEN PrintT(ToJson([kind |-> sKind, tree |-> sTree, read |-> o, last |-> sLast, bad |-> 1]))
     ELSE LET t == TLCEval(Render(sKind, o)) IN
          /\ Fixed(o, t)
          /\ PrintT(ToJson([kind |-> sKind, tree |-> sTree, read |-> o, last |-> sLast, bad |-> 0, out |-> t]))
=============================================================================
