----------------------------- MODULE Factories -----------------------------
(***************************************************************************)
(* The factory functions for new documents (C18): which object each call   *)
(* returns, as a function of its arguments only, in every history of       *)
(* creations, edits of what was created, and saves with reloads.           *)
(***************************************************************************)
EXTENDS Grammar, Json

CONSTANTS Mode,       \* "args": every call once;  "hist": histories of calls
          MaxSteps
VARIABLES fObjs,      \* what exists: <<[k, o, edited], ...>>
          fHist
vars == <<fObjs, fHist>>

Version == Lit("20211014")
Generator == Lit("kiutils")
Num(s) == Lit(s)
Item(k, o) == [k |-> k, o |-> o]

\* a token of the layer table
Layer(n, name, type, user) ==
  Item("LayerToken", [Defaults("LayerToken") EXCEPT !["ordinal"] = Num(ToString(n)), !["name"] = Lit(name), !["type"] = Lit(type),
                      !["userName"] = IF user = "" THEN None ELSE Lit(user)])
TechLayers == << <<"B.Adhes", "B.Adhesive">>, <<"F.Adhes", "F.Adhesive">>, <<"B.Paste", "">>, <<"F.Paste", "">>, <<"B.SilkS", "B.Silkscreen">>,
                 <<"F.SilkS", "F.Silkscreen">>, <<"B.Mask", "">>, <<"F.Mask", "">>, <<"Dwgs.User", "User.Drawings">>, <<"Cmts.User", "User.Comments">>,
                 <<"Eco1.User", "User.Eco1">>, <<"Eco2.User", "User.Eco2">>, <<"Edge.Cuts", "">>, <<"Margin", "">>, <<"B.CrtYd", "B.Courtyard">>,
                 <<"F.CrtYd", "F.Courtyard">>, <<"B.Fab", "">>, <<"F.Fab", "">>, <<"User.1", "">>, <<"User.2", "">>, <<"User.3", "">>, <<"User.4", "">>,
                 <<"User.5", "">>, <<"User.6", "">>, <<"User.7", "">>, <<"User.8", "">>, <<"User.9", "">> >>
StandardLayers == << Layer(0, "F.Cu", "signal", ""), Layer(31, "B.Cu", "signal", "") >>
                  \o [i \in 1..Len(TechLayers) |-> Layer(31 + i, TechLayers[i][1], "user", TechLayers[i][2])]

NewBoard == [Defaults("Board") EXCEPT !["version"] = Version, !["generator"] = Generator, !["layers"] = StandardLayers,
             !["nets"] = << Item("Net", [Defaults("Net") EXCEPT !["number"] = Num("0"), !["name"] = Empty]) >>]
NewSchematic == [Defaults("Schematic") EXCEPT !["version"] = Version, !["generator"] = Generator,
                 !["sheetInstances"] = << Item("HierarchicalSheetInstance", [instancePath |-> Lit("/"), page |-> Lit("1")]) >>]
NewWorkSheet == [Defaults("WorkSheet") EXCEPT !["version"] = Version, !["generator"] = Generator]
NewDesignRules == [Defaults("DesignRules") EXCEPT !["version"] = Num("1")]
NewLibTable(type) == [Defaults("LibTable") EXCEPT !["type"] = type]

FontOf(o) == [Defaults("Effects") EXCEPT !["font"] = o]
FpFont == [Defaults("Font") EXCEPT !["thickness"] = Num("0.15")]
FpTextAt(type, text, layer, y) ==
  Item("FpText", [Defaults("FpText") EXCEPT !["type"] = Lit(type), !["text"] = text, !["layer"] = Lit(layer), !["effects"] = FontOf(FpFont),
                  !["position"] = [X |-> Num("0"), Y |-> Num(y), angle |-> None, unlocked |-> Yes]])
\* (the time of creation is whatever it is)
NewFootprint(id, value, type, reference) ==
  [Defaults("Footprint") EXCEPT !["libId"] = id, !["version"] = Version, !["generator"] = Generator, !["tedit"] = Leaf("w1", "tedit"),
   !["graphicItems"] = << FpTextAt("reference", reference, "F.SilkS", "-0.5"), FpTextAt("value", value, "F.Fab", "1"),
                          FpTextAt("user", Lit("${REFERENCE}"), "F.Fab", "2.5") >>,
   !["attributes"]["type"] = IF type = Lit("other") THEN None ELSE type]

SyFont == [Defaults("Font") EXCEPT !["width"] = Num("1.27"), !["height"] = Num("1.27")]
SyProp(key, value, id, hide) ==
  Item("Property", [Defaults("Property") EXCEPT !["key"] = Lit(key), !["value"] = value, !["id"] = Num(id),
                    !["effects"] = [FontOf(SyFont) EXCEPT !["hide"] = hide]])
NewSymbol(id, reference, value, footprint, datasheet) ==
  [Defaults("Symbol") EXCEPT !["libId"] = id, !["inBom"] = Yes, !["onBoard"] = Yes,
   !["properties"] = << SyProp("Reference", reference, "0", No), SyProp("Value", value, "1", No),
                        SyProp("Footprint", footprint, "2", Yes), SyProp("Datasheet", datasheet, "3", Yes) >>]

-----------------------------------------------------------------------------
\* A call: the factory and its arguments; an argument None is not given.
Call(k, args) == [k |-> k, args |-> args]
Or(v, d) == IF v = None THEN d ELSE v
Made(c) ==
  LET a == c.args IN
  CASE c.k = "Board" -> NewBoard
    [] c.k = "Schematic" -> NewSchematic
    [] c.k = "WorkSheet" -> NewWorkSheet
    [] c.k = "DesignRules" -> NewDesignRules
    [] c.k = "LibTable" -> NewLibTable(Or(a.type, Lit("sym_lib_table")))
    [] c.k = "Footprint" -> NewFootprint(a.library_id, a.value, Or(a.type, Lit("other")), Or(a.reference, Lit("REF**")))
    [] c.k = "Symbol" -> NewSymbol(a.id, a.reference, a.value, Or(a.footprint, Empty), Or(a.datasheet, Empty))
NoArgs == [none |-> None]
Refused(c) == c.k = "Footprint" /\ c.args.type \notin {None, Lit("smd"), Lit("through_hole"), Lit("other")}

Texts(n, p) == {Empty, Leaf("t1", p), Leaf("t2", p)} \cup (IF n THEN {None} ELSE {})
Ids(p) == {Leaf("i1", p), Leaf("i2", p), Leaf("i3", p)}
Plain == {Call("Board", NoArgs), Call("Schematic", NoArgs), Call("WorkSheet", NoArgs), Call("DesignRules", NoArgs)}
Tables == {Call("LibTable", [type |-> t]) : t \in {None, Lit("sym_lib_table"), Lit("fp_lib_table")}}
FpTypes == {None, Lit("smd"), Lit("through_hole"), Lit("other")}
BadTypes == {Lit("SMD"), Lit("virtual"), Empty, Lit("through-hole"), Lit("smd through_hole"), Lit("Other"), Lit("x")}
Footprints == {Call("Footprint", [library_id |-> i, value |-> v, type |-> t, reference |-> r]) :
                 i \in Ids("a.id"), v \in Texts(FALSE, "a.val"), t \in FpTypes \cup BadTypes, r \in Texts(TRUE, "a.ref")}
Symbols == {Call("Symbol", [id |-> i, reference |-> r, value |-> v, footprint |-> f, datasheet |-> d]) :
                 i \in Ids("a.id"), r \in Texts(FALSE, "a.ref"), v \in Texts(FALSE, "a.val"), f \in Texts(TRUE, "a.fp"), d \in Texts(TRUE, "a.ds")}
\* for the histories: one or two calls of each, with arguments of their own
At2(n, x) == "a" \o ToString(n) \o "." \o x
Short(n) == Plain \cup {Call("LibTable", [type |-> None])}
  \cup {Call("Footprint", [library_id |-> Leaf("i1", At2(n, "id")), value |-> Leaf("t1", At2(n, "v")), type |-> t, reference |-> None]) : t \in {None, Lit("smd"), Lit("SMD")}}
  \cup {Call("Symbol", [id |-> Leaf("i2", At2(n, "id")), reference |-> Leaf("t1", At2(n, "r")), value |-> Leaf("t2", At2(n, "v")), footprint |-> None, datasheet |-> None])}

Step(what, c, i) == [op |-> what, call |-> c, i |-> i]
Create(c) == /\ fHist' = Append(fHist, Step("create", c, 0))
             /\ fObjs' = IF Refused(c) THEN fObjs ELSE Append(fObjs, [k |-> c.k, o |-> Made(c), edited |-> FALSE])
\* an edit changes the object it is applied to (what it is then is not looked at)
EditIt(i) == /\ fHist' = Append(fHist, Step("edit", Call("", NoArgs), i))
             /\ fObjs' = [fObjs EXCEPT ![i].edited = TRUE]
\* saving and loading gives another, equal object
Reload(i) == /\ ~fObjs[i].edited
             /\ fHist' = Append(fHist, Step("reload", Call("", NoArgs), i))
             /\ fObjs' = Append(fObjs, [fObjs[i] EXCEPT !.o = Norm(fObjs[i].k, fObjs[i].o)])

Init == fObjs = <<>> /\ fHist = <<>>
Next == IF Mode = "args" THEN Len(fHist) = 0 /\ \E c \in Plain \cup Tables \cup Footprints \cup Symbols : Create(c)
        ELSE /\ Len(fHist) < MaxSteps
             /\ \/ \E c \in Short(Len(fHist)) : Create(c)
                \/ \E i \in 1..Len(fObjs) : (~fObjs[i].edited /\ EditIt(i)) \/ Reload(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what a call returns can be written, and reading it back gives it again
Complete(k, o) == /\ ~Guard(k, o)
                  /\ LET t == Render(k, o) IN Len(t) = 1 /\ Read(k, t[1]) = Norm(k, o) /\ Norm(k, o) = o
\* objects nobody edited are what their call returns, whatever happened since
Lasting == \A i \in 1..Len(fObjs) : ~fObjs[i].edited => Complete(fObjs[i].k, fObjs[i].o)

ASSUME PrintT(ToJson([schema |-> FieldMap]))
OneCall == LET c == fHist[1].call IN
           IF Refused(c) THEN PrintT(ToJson([kind |-> c.k, args |-> c.args, refused |-> 1]))
           ELSE PrintT(ToJson([kind |-> c.k, args |-> c.args, refused |-> 0, obj |-> Made(c), tree |-> Render(c.k, Made(c))[1]]))
LawsExport ==
  /\ Lasting
  /\ IF Mode = "args" THEN fHist # <<>> => OneCall
     ELSE Len(fHist) = MaxSteps =>
       PrintT(ToJson([hist |-> fHist, calls |-> [i \in 1..MaxSteps |-> IF fHist[i].op = "create" /\ Refused(fHist[i].call) THEN 1 ELSE 0],
                      edited |-> [i \in 1..Len(fObjs) |-> IF fObjs[i].edited THEN 1 ELSE 0]]))
=============================================================================
