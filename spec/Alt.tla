-------------------------------- MODULE Alt --------------------------------
(***************************************************************************)
(* Legacy and alternative spellings (C15).  Alt writes an object the way   *)
(* other programs or older versions may write it: at every place where the *)
(* format has several spellings for the same content, one of them is       *)
(* chosen.  Whatever the choices, the document means the same object.      *)
(*                                                                         *)
(* Styles:                                                                 *)
(*   head    a legacy head token            layers  one layer as a list    *)
(*   bare    words without quotes           quoted  words with quotes      *)
(*   early   flags before everything else   late    flags after it         *)
(*   rev     unlike tokens in reverse order                                *)
(*   omit    a token with its default value is left out                    *)
(*   full    an explicit "no" instead of omission                          *)
(*   mix     any of them, independently at every place                     *)
(***************************************************************************)
EXTENDS Grammar, Json

CONSTANTS KindSet, Bases, Seeds, MaxLevel, Depth
VARIABLES sKind, sObj, sStyle, sZ
vars == <<sKind, sObj, sStyle, sZ>>

Styles == {"head", "layers", "bare", "quoted", "early", "late", "rev", "omit", "full", "mix"}
On(st, what, z) == st = what \/ (st = "mix" /\ Mix(z, 29) % 2 = 0)

\* literals that are not plain words, or look like numbers
NotPlain == {Lit("0"), Lit("1"), Lit("0.0"), Lit("1.0"), Lit("20211014"), Lit("Sheet name"), Lit("Sheet file")}
AltLeaf(lt, v, st, z) ==
  LET t == LeafTree(lt, v) IN
  IF lt \in {"N", "N4", "N6", "NA", "MN"} \/ v \in NotPlain \/ v.c \in {"t0", "n0", "x2"} THEN t
  ELSE IF t.k = "q" /\ On(st, "bare", z) THEN Atom(v)
  ELSE IF t.k = "a" /\ On(st, "quoted", z) THEN Quoted(v)
  ELSE t

PosTypes == {"pos", "popt", "pflag", "page"}
RECURSIVE AKind(_, _, _, _, _, _)
RECURSIVE ASlots(_, _, _, _, _)
AItems(items, st, z) == Flat([i \in 1..Len(items) |-> AKind(items[i].k, items[i].o, "", st, Mix(z, i), FALSE)])
\* may the token be left out when it has the value the reader assumes?
Omittable(s, v) == v = s.d /\ v # None /\ s.hd \notin {"lib_id", "version"}
ASlot(s, o, st, z, min) ==
  CASE s.ty = "pos" -> <<AltLeaf(s.lt, o[s.f], st, z)>>
    [] s.ty = "popt" -> IF RSlot(s, o) = <<>> THEN <<>> ELSE <<AltLeaf(s.lt, o[s.f], st, z)>>
    [] s.ty = "tok" -> IF IsNone(o[s.f]) THEN <<>>
                       ELSE IF Omittable(s, o[s.f]) /\ min = 1 /\ On(st, "omit", z) THEN <<>>
                       ELSE Wrap(s.hd, <<AltLeaf(s.lt, o[s.f], st, z)>>)
    [] s.ty = "ktok" -> IF o[s.f] \in {None, Empty} THEN <<>> ELSE Wrap(s.hd, <<AltLeaf(s.lt, o[s.f], st, z)>>)
    [] s.ty = "bool" -> IF o[s.f] = No /\ s.d = No /\ On(st, "omit", z) THEN <<>> ELSE RSlot(s, o)
    [] s.ty = "boolt" -> IF o[s.f] = No /\ On(st, "full", z) THEN Wrap(s.hd, <<Kw("no")>>) ELSE RSlot(s, o)
    [] s.ty = "obj" -> IF o[s.f] = None THEN <<>> ELSE AKind(s.ks[1], o[s.f], s.hd, st, Mix(z, 2), FALSE)
    [] s.ty = "wobj" -> Wrap(s.hd, AKind(s.ks[1], o[s.f], "", st, Mix(z, 2), FALSE))
    [] s.ty = "keyed" -> AKind("Property", o[s.f], "", st, Mix(z, 2), FALSE)
    [] s.ty = "list" -> AItems(o[s.f], st, z)
    [] s.ty = "wlist" -> IF o[s.f] = <<>> /\ ~s.ee THEN <<>> ELSE Wrap(s.hd, AItems(o[s.f], st, z))
    [] s.ty = "wlist4" -> IF Len(o[s.f]) = 4 THEN Wrap(s.hd, AItems(o[s.f], st, z)) ELSE <<>>
    [] s.ty = "atoms" -> IF o[s.f] = <<>> /\ ~s.ee THEN <<>>
                         ELSE Wrap(s.hd, [i \in 1..Len(o[s.f]) |-> AltLeaf(s.lt, o[s.f][i], st, Mix(z, i))])
    [] s.ty = "comp" -> IF s.w # "" /\ ~Set2(o[s.w]) THEN <<>> ELSE Wrap(s.hd, ASlots(s.sub, o, st, Mix(z, 3), 2))
    [] s.ty = "ws" -> IF o["width"] # None /\ o["width"] = s.d /\ On(st, "omit", z) THEN <<>>
                      ELSE IF o["width"] = None /\ o["stroke"] # None THEN AKind("Stroke", o["stroke"], "", st, Mix(z, 2), FALSE)
                      ELSE RSlot(s, o)
    [] s.ty = "zlay" -> LET r == RSlot(s, o)[1]
                            one == Len(o[s.f]) = 1
                            hd == IF one /\ On(st, "layers", z) THEN (IF HasHead(r, "layer") THEN "layers" ELSE "layer") ELSE r.c[1].v.p
                        IN Wrap(hd, [i \in 1..Len(o[s.f]) |-> AltLeaf(s.lt, o[s.f][i], st, Mix(z, i))])
    [] OTHER -> RSlot(s, o)

\* the positional part stays in front; flags may go before or after the rest,
\* and unlike tokens may come in any order
ASlots(ss, o, st, z, min) ==
  LET n == Len(ss)
      fixed == \E i \in 1..n : ss[i].ty \in {"rest", "subl"}
      piece == TLCEval([i \in 1..n |-> ASlot(ss[i], o, st, Mix(z, i), min)])
      pick(T) == Flat([i \in 1..n |-> IF ss[i].ty \in T THEN piece[i] ELSE <<>>])
      isflag(i) == ss[i].ty \in {"flag", "eflag"}
      early(i) == isflag(i) /\ On(st, "early", Mix(z, i + 40))
      late(i) == isflag(i) /\ ~early(i) /\ On(st, "late", Mix(z, i + 80))
      rev == On(st, "rev", Mix(z, 7))
      middle == [i \in 1..n |-> LET j == IF rev THEN n + 1 - i ELSE i
                                IN IF ss[j].ty \in PosTypes \/ early(j) \/ late(j) THEN <<>> ELSE piece[j]]
  IN IF fixed THEN Flat(piece)
     ELSE pick(PosTypes) \o Flat([i \in 1..n |-> IF early(i) THEN piece[i] ELSE <<>>])
          \o Flat(middle) \o Flat([i \in 1..n |-> IF late(i) THEN piece[i] ELSE <<>>])

AKind(k, o, hd, st, z, top) ==
  LET kd == Kinds[k]
      hw == IF top /\ hd = "" /\ kd.hf = "" /\ Len(kd.heads) > 1 /\ On(st, "head", z)
            THEN <<Kw(kd.heads[2])>> ELSE HeadWord(k, o, hd)
  IN IF Vanishes(k, o) THEN <<>>
     ELSE <<Lst(hw \o (IF kd.rig \/ k = "DesignRules"
                       THEN Flat([i \in 1..Len(kd.slots) |-> ASlot(kd.slots[i], o, IF kd.rig /\ st \in {"omit", "mix"} THEN "bare" ELSE st, Mix(z, i), 2)])
                       ELSE ASlots(kd.slots, o, st, z, kd.min)))>>
Alt(k, o, st, z) == AKind(k, o, IF k \in {"XY", "XYA", "XYA0", "XYAU", "WksPosition"} THEN "at" ELSE "", st, z, TRUE)

-----------------------------------------------------------------------------
Writable(k, o) == ~Guard(k, o) /\ Render(k, o) # <<>>
Init == sKind \in KindSet /\ sStyle = "" /\ sObj = None /\ sZ = 0
Next == /\ sStyle = "" /\ UNCHANGED sKind
        /\ \E n \in Bases : sObj' = Norm(sKind, VObj(sKind, "r", n, Depth))
        /\ sStyle' \in Styles
        /\ sZ' \in IF sStyle' = "mix" THEN 0..4 ELSE {0}
Spec == Init /\ [][Next]_vars

KindList == SetToSeq(KindSet)
StyleList == SetToSeq(Styles)
RandAt(zz) == /\ sZ = zz
              /\ sKind = KindList[(Mix(zz, 17) % Len(KindList)) + 1]
              /\ sStyle = IF zz % 2 = 0 THEN "mix" ELSE StyleList[(Mix(zz, 19) % Len(StyleList)) + 1]
              /\ \E o \in {VRand(sKind, "r", Depth, zz)} :
                   sObj = Norm(sKind, IF Guard(sKind, o) THEN VObj(sKind, "r", 1, Depth) ELSE o)
InitRand == \E i \in Seeds : RandAt(Mix(i, 5))
NextRand == /\ TLCGet("level") < MaxLevel
            /\ sZ' = Mix(sZ, 11)
            /\ sKind' = KindList[(Mix(sZ', 17) % Len(KindList)) + 1]
            /\ sStyle' = IF sZ' % 2 = 0 THEN "mix" ELSE StyleList[(Mix(sZ', 19) % Len(StyleList)) + 1]
            /\ \E o \in {VRand(sKind', "r", Depth, sZ')} :
                 sObj' = Norm(sKind', IF Guard(sKind', o) THEN VObj(sKind', "r", 1, Depth) ELSE o)
SpecRand == InitRand /\ [][NextRand]_vars

ASSUME PrintT(ToJson([schema |-> FieldMap]))
\* C15: either spelling means the same object, which has one current spelling
LawsExport ==
  sStyle # "" /\ Writable(sKind, sObj) =>
    LET a == TLCEval(Alt(sKind, sObj, sStyle, sZ)[1])
        t == TLCEval(Render(sKind, sObj)[1])
        back == TLCEval(Read(sKind, a))
    IN /\ back = Read(sKind, t)
       /\ back = sObj
       /\ Render(sKind, back) = <<t>>
       /\ PrintT(ToJson([kind |-> sKind, obj |-> sObj, last |-> sStyle, tree |-> a, out |-> t, same |-> IF a = t THEN 1 ELSE 0]))
=============================================================================
