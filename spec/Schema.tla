------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The file formats as data: for every kind of object, its head token(s)   *)
(* and its slots in the order in which they are written.                   *)
(*                                                                         *)
(* Slot types (ty):                                                        *)
(*  pos    positional value, always written                                *)
(*  popt   optional positional value (w = name of a gating flag, or "")    *)
(*  flag   bare word hd, present iff the field is true                     *)
(*  pflag  same, but only recognised at its place in front of the next     *)
(*         positional value                                                *)
(*  eflag  bare word out of dom, present iff the field is set              *)
(*  ftok   (hd) present iff true        fton  (hd) present iff false       *)
(*  tok    (hd value), omitted when unset; read default d                  *)
(*  ktok   (hd value), omitted when the value is empty or unset            *)
(*  bool   (hd yes|no) or (hd true|false) (lt names the true word)         *)
(*  boolt  (hd yes) written when true only; any other value reads false    *)
(*  obj    nested object of kind ks[1] (head overridden by hd, if given)   *)
(*  wobj   (hd nested)                                                     *)
(*  list   nested objects of kinds ks, in sequence                         *)
(*  wlist  (hd nested ...) written when non-empty, or always if ee         *)
(*  wlist4 (hd nested ...) written only when there are exactly four        *)
(*  atoms  (hd value ...)                                                  *)
(*  rest   trailing bare words                                             *)
(*  comp   (hd sub-slots...) written always (w = "") or iff field w is set *)
(*  ws     width or stroke: (width w) if set, else (stroke ...) if set     *)
(*  zlay   (layer l) for one ordinary layer, (layers l ...) otherwise      *)
(*  page   the two dimensions following the paper size "User"              *)
(*  subl   addsublayer groups                                              *)
(*  keyed  nested property recognised by its key (one of dom)              *)
(*                                                                         *)
(* Leaf types (lt): T quoted text, W bare word, N number, N4/N6 number     *)
(* with 4/6 decimals, NA angle, ID library identifier, PL pad layer,       *)
(* ZL zone layer, H quoted plain word, M text that is a map key, MN        *)
(* number that is a map key, WN bare word or number.                                               *)
(***************************************************************************)
EXTENDS Sexpr

S0 == [ty |-> "", f |-> "", hd |-> "", lt |-> "", d |-> None, opt |-> FALSE,
       ks |-> <<>>, sub |-> <<>>, w |-> "", ee |-> FALSE, dom |-> <<>>]

P(f, lt, d)      == [S0 EXCEPT !.ty = "pos", !.f = f, !.lt = lt, !.d = d]
PO(f, lt, d)     == [S0 EXCEPT !.ty = "popt", !.f = f, !.lt = lt, !.d = d, !.opt = TRUE]
POW(f, lt, w)    == [S0 EXCEPT !.ty = "popt", !.f = f, !.lt = lt, !.opt = TRUE, !.w = w]
POE(f, dom)      == [S0 EXCEPT !.ty = "popt", !.f = f, !.lt = "W", !.opt = TRUE, !.dom = dom]
F(f, w)          == [S0 EXCEPT !.ty = "flag", !.f = f, !.hd = w, !.d = No]
PF(f, w)         == [S0 EXCEPT !.ty = "pflag", !.f = f, !.hd = w, !.d = No]
EF(f, dom)       == [S0 EXCEPT !.ty = "eflag", !.f = f, !.dom = dom, !.opt = TRUE]
FT(f, hd)        == [S0 EXCEPT !.ty = "ftok", !.f = f, !.hd = hd, !.d = No]
FTN(f, hd)       == [S0 EXCEPT !.ty = "fton", !.f = f, !.hd = hd, !.d = Yes]
K(f, hd, lt, d)  == [S0 EXCEPT !.ty = "tok", !.f = f, !.hd = hd, !.lt = lt, !.d = d]
KO(f, hd, lt)    == [S0 EXCEPT !.ty = "tok", !.f = f, !.hd = hd, !.lt = lt, !.opt = TRUE]
KD(f, hd, lt, d) == [S0 EXCEPT !.ty = "tok", !.f = f, !.hd = hd, !.lt = lt, !.opt = TRUE, !.d = d]
KE(f, hd, lt)    == [S0 EXCEPT !.ty = "ktok", !.f = f, !.hd = hd, !.lt = lt, !.d = Empty]
B(f, hd, y)      == [S0 EXCEPT !.ty = "bool", !.f = f, !.hd = hd, !.lt = y, !.d = No]
BO(f, hd, y)     == [S0 EXCEPT !.ty = "bool", !.f = f, !.hd = hd, !.lt = y, !.opt = TRUE]
BT(f, hd)        == [S0 EXCEPT !.ty = "boolt", !.f = f, !.hd = hd, !.lt = "yes", !.d = No]
O(f, k)          == [S0 EXCEPT !.ty = "obj", !.f = f, !.ks = <<k>>]
OO(f, k)         == [S0 EXCEPT !.ty = "obj", !.f = f, !.ks = <<k>>, !.opt = TRUE]
OH(f, k, hd)     == [S0 EXCEPT !.ty = "obj", !.f = f, !.ks = <<k>>, !.hd = hd]
OOH(f, k, hd)    == [S0 EXCEPT !.ty = "obj", !.f = f, !.ks = <<k>>, !.hd = hd, !.opt = TRUE]
WO(f, hd, k)     == [S0 EXCEPT !.ty = "wobj", !.f = f, !.ks = <<k>>, !.hd = hd]
L(f, ks)         == [S0 EXCEPT !.ty = "list", !.f = f, !.ks = ks]
WL(f, hd, ks, e) == [S0 EXCEPT !.ty = "wlist", !.f = f, !.hd = hd, !.ks = ks, !.ee = e]
W4(f, hd, k)     == [S0 EXCEPT !.ty = "wlist4", !.f = f, !.hd = hd, !.ks = <<k>>]
A(f, hd, lt, e)  == [S0 EXCEPT !.ty = "atoms", !.f = f, !.hd = hd, !.lt = lt, !.ee = e]
R(f)             == [S0 EXCEPT !.ty = "rest", !.f = f, !.lt = "W"]
C(hd, w, sub)    == [S0 EXCEPT !.ty = "comp", !.hd = hd, !.w = w, !.sub = sub]
WS               == [S0 EXCEPT !.ty = "ws", !.f = "width", !.w = "stroke", !.lt = "N",
                               !.d = Lit("0.12"), !.ks = <<"Stroke">>]
ZLAY             == [S0 EXCEPT !.ty = "zlay", !.f = "layers", !.lt = "ZL"]
PAGE             == [S0 EXCEPT !.ty = "page", !.f = "width", !.w = "height", !.lt = "N", !.opt = TRUE]
SUBL             == [S0 EXCEPT !.ty = "subl", !.f = "subLayers", !.ks = <<"StackupSubLayer">>]
KEYED(f, dom)    == [S0 EXCEPT !.ty = "keyed", !.f = f, !.ks = <<"Property">>, !.dom = dom]

\* A kind: heads it accepts (the first one is written), how its children are
\* read, and when it disappears from the output.
\*   van  = ""  never | field name: vanishes when that list is empty |
\*          "*" vanishes when every field has its default
\*   rig  = TRUE: children are read by position, so their order and number is
\*          part of the form
\*   hf   = field whose value is the head token ("" for none)
\*   min  = least number of items (head included) a reader accepts
KK(heads, slots)     == [heads |-> heads, slots |-> slots, van |-> "", rig |-> FALSE, hf |-> "", min |-> 1]
Rigid(k)             == [k EXCEPT !.rig = TRUE]
Vanish(k, f)         == [k EXCEPT !.van = f]
HeadField(k, f)      == [k EXCEPT !.hf = f]
MinLen(k, n)         == [k EXCEPT !.min = n]

Num0 == Lit("0.0")
FCu == Lit("F.Cu")
At(f, k)  == OH(f, k, "at")
Uuid      == KO("uuid", "uuid", "W")
TStamp    == KO("tstamp", "tstamp", "W")
Pts(f, e) == WL(f, "pts", <<"xy">>, e)
GrKinds == <<"GrText", "GrTextBox", "GrLine", "GrRect", "GrCircle", "GrArc", "GrPoly", "GrCurve">>
FpKinds == <<"FpText", "FpTextBox", "FpLine", "FpRect", "FpCircle", "FpArc", "FpPoly", "FpCurve", "Image">>
SyKinds == <<"SyArc", "SyCircle", "SyCurve", "SyPolyLine", "SyRect", "SyText", "SyTextBox">>
TextBoxSlots == << PF("locked", "locked"), P("text", "T", Empty), W4("pts", "pts", "xy"),
                   OOH("start", "XY", "start"), OOH("end", "XY", "end"), KO("angle", "angle", "NA"),
                   K("layer", "layer", "T", FCu), TStamp, OO("effects", "Effects"),
                   OO("stroke", "Stroke"), OO("renderCache", "RenderCache") >>
WksRepeat == << KO("repeat", "repeat", "N"), KO("incrx", "incrx", "N"), KO("incry", "incry", "N") >>
WksShape == << K("name", "name", "T", Empty), OH("start", "WksPosition", "start"),
               OH("end", "WksPosition", "end"), KO("option", "option", "W"),
               KO("lineWidth", "linewidth", "N") >> \o WksRepeat \o << KO("comment", "comment", "T") >>
TF(f, hd) == B(f, hd, "true")

Common ==
  [ XY    |-> Rigid(KK(<<"*">>, << P("X", "N", Num0), P("Y", "N", Num0) >>)),
    xy    |-> Rigid(KK(<<"xy">>, << P("X", "N", Num0), P("Y", "N", Num0) >>)),
    XYA   |-> Rigid(KK(<<"*">>, << P("X", "N", Num0), P("Y", "N", Num0), PO("angle", "N", None) >>)),
    XYA0  |-> Rigid(KK(<<"*">>, << P("X", "N", Num0), P("Y", "N", Num0), PO("angle", "N", Lit("0")) >>)),
    XYAU  |-> Rigid(KK(<<"*">>, << P("X", "N", Num0), P("Y", "N", Num0), PO("angle", "N", None), F("unlocked", "unlocked") >>)),
    Coordinate  |-> Rigid(KK(<<"xyz">>, << P("X", "N", Num0), P("Y", "N", Num0), P("Z", "N", Num0) >>)),
    Coordinate1 |-> Rigid(KK(<<"xyz">>, << P("X", "N", Lit("1.0")), P("Y", "N", Lit("1.0")), P("Z", "N", Lit("1.0")) >>)),
    ColorRGBA   |-> Rigid(KK(<<"color">>, << P("R", "N", Num0), P("G", "N", Num0), P("B", "N", Num0), P("A", "N", Num0) >>)),
    ColorRGBA4  |-> Rigid(KK(<<"color">>, << P("R", "N", Num0), P("G", "N", Num0), P("B", "N", Num0), P("A", "N4", Num0) >>)),
    Stroke   |-> MinLen(KK(<<"stroke">>, << K("width", "width", "N", Num0), KO("type", "type", "W"), OO("color", "ColorRGBA") >>), 2),
    Font     |-> KK(<<"font">>, << KO("face", "face", "T"),
                      C("size", "", << P("height", "N", Lit("1.0")), P("width", "N", Lit("1.0")) >>),
                      OO("color", "ColorRGBA"), KO("thickness", "thickness", "N"),
                      F("bold", "bold"), F("italic", "italic"), KO("lineSpacing", "line_spacing", "N") >>),
    Justify  |-> Vanish(KK(<<"justify">>, << EF("horizontally", <<"left", "right", "center">>),
                      EF("vertically", <<"top", "bottom">>), F("mirror", "mirror") >>), "*"),
    Effects  |-> KK(<<"effects">>, << O("font", "Font"), O("justify", "Justify"), KO("href", "href", "T"), F("hide", "hide") >>),
    Net      |-> KK(<<"net">>, << P("number", "N", Num0), P("name", "T", Empty) >>),
    Group    |-> KK(<<"group">>, << P("name", "T", Empty), F("locked", "locked"), KE("id", "id", "W"), A("members", "members", "W", TRUE) >>),
    PageSettings |-> KK(<<"paper">>, << P("paperSize", "PS", Lit("A4")), PAGE, F("portrait", "portrait") >>),
    Comment  |-> KK(<<"comment">>, << P("key", "MN", Num0), P("val", "T", Empty) >>),
    TitleBlock |-> KK(<<"title_block">>, << KO("title", "title", "T"), KO("date", "date", "T"), KO("revision", "rev", "T"),
                      KO("company", "company", "T"), L("comments", <<"Comment">>) >>),
    Property |-> KK(<<"property">>, << P("key", "T", Empty), P("value", "T", Empty), KO("id", "id", "N"),
                      At("position", "XYA0"), FT("showName", "show_name"), OO("effects", "Effects") >>),
    RenderCachePolygon |-> KK(<<"polygon">>, << Pts("pts", TRUE) >>),
    RenderCache |-> MinLen(KK(<<"render_cache">>, << P("text", "T", Empty), P("id", "N", Num0), L("polygons", <<"RenderCachePolygon">>) >>), 3),
    Fill     |-> KK(<<"fill">>, << K("type", "type", "W", Lit("none")), OO("color", "ColorRGBA") >>),
    Image    |-> KK(<<"image">>, << At("position", "XY"), KO("layer", "layer", "T"), KO("scale", "scale", "N"), Uuid,
                      A("data", "data", "W", TRUE) >>),
    Pair     |-> KK(<<"property">>, << P("key", "M", Empty), P("val", "T", Empty) >>) ]

Brd ==
  [ GeneralSettings |-> KK(<<"general">>, << K("thickness", "thickness", "N", Lit("1.6")) >>),
    LayerToken |-> Rigid(KK(<<"">>, << P("ordinal", "N", Num0), P("name", "T", FCu), P("type", "W", Lit("signal")), PO("userName", "T", None) >>)),
    StackupSubLayer |-> KK(<<"">>, << K("thickness", "thickness", "N", Lit("0.1")), KO("material", "material", "T"),
                      KO("epsilonR", "epsilon_r", "N"), KO("lossTangent", "loss_tangent", "N") >>),
    StackupLayer |-> KK(<<"layer">>, << P("name", "T", Empty), K("type", "type", "T", Empty), KO("color", "color", "T"),
                      KO("thickness", "thickness", "N"), KO("material", "material", "T"),
                      KO("epsilonR", "epsilon_r", "N"), KO("lossTangent", "loss_tangent", "N"), SUBL >>),
    Stackup |-> KK(<<"stackup">>, << L("layers", <<"StackupLayer">>), KO("copperFinish", "copper_finish", "T"),
                      KO("dielectricContraints", "dielectric_constraints", "W"), KO("edgeConnector", "edge_connector", "W"),
                      BT("castellatedPads", "castellated_pads"), BT("edgePlating", "edge_plating") >>),
    PlotSettings |-> KK(<<"pcbplotparams">>, <<
                      KE("layerSelection", "layerselection", "W"), KO("plotOnAllLayersSelection", "plot_on_all_layers_selection", "W"),
                      TF("disableApertMacros", "disableapertmacros"), TF("useGerberExtensions", "usegerberextensions"),
                      TF("useGerberAttributes", "usegerberattributes"), TF("useGerberAdvancedAttributes", "usegerberadvancedattributes"),
                      TF("createGerberJobFile", "creategerberjobfile"),
                      KO("dashedLineDashRatio", "dashed_line_dash_ratio", "N6"), KO("dashedLineGapRatio", "dashed_line_gap_ratio", "N6"),
                      BO("svgUseInch", "svguseinch", "true"), K("svgPrecision", "svgprecision", "N", Num0),
                      BO("excludeEdgeLayer", "excludeedgelayer", "true"), TF("plotFameRef", "plotframeref"), TF("viasOnMask", "viasonmask"),
                      K("mode", "mode", "N", Lit("1")), TF("useAuxOrigin", "useauxorigin"),
                      K("hpglPenNumber", "hpglpennumber", "N", Num0), K("hpglPenSpeed", "hpglpenspeed", "N", Num0),
                      K("hpglPenDiameter", "hpglpendiameter", "N6", Num0),
                      TF("dxfPolygonMode", "dxfpolygonmode"), TF("dxfImperialUnits", "dxfimperialunits"), TF("dxfUsePcbnewFont", "dxfusepcbnewfont"),
                      TF("psNegative", "psnegative"), TF("psA4Output", "psa4output"), TF("plotReference", "plotreference"),
                      TF("plotValue", "plotvalue"), TF("plotInvisibleText", "plotinvisibletext"), TF("sketchPadsOnFab", "sketchpadsonfab"),
                      TF("subtractMaskFromSilk", "subtractmaskfromsilk"), K("outputFormat", "outputformat", "N", Num0),
                      TF("mirror", "mirror"), K("drillShape", "drillshape", "N", Num0), K("scaleSelection", "scaleselection", "N", Lit("1")),
                      K("outputDirectory", "outputdirectory", "T", Empty) >>),
    SetupData |-> KK(<<"setup">>, << OO("stackup", "Stackup"), K("packToMaskClearance", "pad_to_mask_clearance", "N", Num0),
                      KO("solderMaskMinWidth", "solder_mask_min_width", "N"), KO("padToPasteClearance", "pad_to_paste_clearance", "N"),
                      KO("padToPasteClearanceRatio", "pad_to_paste_clearance_ratio", "N"),
                      OOH("auxAxisOrigin", "XY", "aux_axis_origin"), OOH("gridOrigin", "XY", "grid_origin"), OO("plotSettings", "PlotSettings") >>),
    Segment |-> KK(<<"segment">>, << F("locked", "locked"), OH("start", "XY", "start"), OH("end", "XY", "end"),
                      K("width", "width", "N", Lit("0.1")), K("layer", "layer", "T", FCu), K("net", "net", "N", Num0), KE("tstamp", "tstamp", "W") >>),
    Via |-> KK(<<"via">>, << EF("type", <<"micro", "blind">>), F("locked", "locked"), At("position", "XY"),
                      K("size", "size", "N", Num0), K("drill", "drill", "N", Num0), A("layers", "layers", "T", TRUE),
                      FT("removeUnusedLayers", "remove_unused_layers"), FT("keepEndLayers", "keep_end_layers"), FT("free", "free"),
                      K("net", "net", "N", Num0), TStamp >>),
    BrdArc |-> KK(<<"arc">>, << F("locked", "locked"), OH("start", "XY", "start"), OH("mid", "XY", "mid"), OH("end", "XY", "end"),
                      K("width", "width", "N", Lit("0.2")), K("layer", "layer", "T", FCu), K("net", "net", "N", Num0), TStamp >>),
    Target |-> KK(<<"target">>, << P("type", "W", Lit("plus")), At("position", "XY"), K("size", "size", "N", Num0),
                      K("width", "width", "N", Lit("0.1")), K("layer", "layer", "T", FCu), TStamp >>),
    DimensionFormat |-> KK(<<"format">>, << KO("prefix", "prefix", "T"), KO("suffix", "suffix", "T"), K("units", "units", "N", Lit("3")),
                      K("unitsFormat", "units_format", "N", Lit("1")), K("precision", "precision", "N", Lit("4")),
                      KO("overrideValue", "override_value", "T"), F("suppressZeroes", "suppress_zeroes") >>),
    DimensionStyle |-> KK(<<"style">>, << K("thickness", "thickness", "N", Num0), K("arrowLength", "arrow_length", "N", Num0),
                      K("textPositionMode", "text_position_mode", "N", Num0), KO("extensionHeight", "extension_height", "N"),
                      KO("textFrame", "text_frame", "N"), KO("extensionOffset", "extension_offset", "N"), F("keepTextAligned", "keep_text_aligned") >>),
    Dimension |-> KK(<<"dimension">>, << F("locked", "locked"), K("type", "type", "W", Lit("aligned")), K("layer", "layer", "T", FCu), TStamp,
                      Pts("pts", FALSE), KO("height", "height", "N"), KO("orientation", "orientation", "N"),
                      KO("leaderLength", "leader_length", "N"), OO("grText", "GrText"), OO("format", "DimensionFormat"), O("style", "DimensionStyle") >>),
    Board |-> KK(<<"kicad_pcb">>, << KE("version", "version", "W"), KE("generator", "generator", "W"), O("general", "GeneralSettings"),
                      O("paper", "PageSettings"), OO("titleBlock", "TitleBlock"), WL("layers", "layers", <<"LayerToken">>, TRUE),
                      O("setup", "SetupData"), L("properties", <<"Pair">>), L("nets", <<"Net">>), L("footprints", <<"Footprint">>),
                      L("graphicItems", GrKinds \o <<"Image">>), L("dimensions", <<"Dimension">>), L("targets", <<"Target">>),
                      L("traceItems", <<"Segment", "Via", "BrdArc">>), L("zones", <<"Zone">>), L("groups", <<"Group">>) >>) ]

GrWidth == KD("width", "width", "N", Lit("0.12"))
Gr ==
  [ GrText |-> KK(<<"gr_text">>, << PF("locked", "locked"), P("text", "T", Empty), At("position", "XYA"),
                      C("layer", "layer", << P("layer", "T", None), F("knockout", "knockout") >>), TStamp,
                      O("effects", "Effects"), OO("renderCache", "RenderCache") >>),
    GrTextBox |-> KK(<<"gr_text_box">>, TextBoxSlots),
    GrLine |-> KK(<<"gr_line">>, << F("locked", "locked"), OH("start", "XY", "start"), OH("end", "XY", "end"), KO("angle", "angle", "N"),
                      KO("layer", "layer", "T"), GrWidth, TStamp >>),
    GrRect |-> KK(<<"gr_rect">>, << F("locked", "locked"), OH("start", "XY", "start"), OH("end", "XY", "end"),
                      KO("layer", "layer", "T"), GrWidth, KO("fill", "fill", "W"), TStamp >>),
    GrCircle |-> KK(<<"gr_circle">>, << F("locked", "locked"), OH("center", "XY", "center"), OH("end", "XY", "end"),
                      KO("layer", "layer", "T"), GrWidth, KO("fill", "fill", "W"), TStamp >>),
    GrArc |-> KK(<<"gr_arc">>, << F("locked", "locked"), OH("start", "XY", "start"), OH("mid", "XY", "mid"), OH("end", "XY", "end"),
                      KO("layer", "layer", "T"), GrWidth, TStamp >>),
    GrPoly |-> Vanish(KK(<<"gr_poly">>, << F("locked", "locked"), Pts("coordinates", FALSE), KO("layer", "layer", "T"), GrWidth,
                      KO("fill", "fill", "W"), TStamp >>), "coordinates"),
    GrCurve |-> Vanish(KK(<<"gr_curve">>, << F("locked", "locked"), Pts("coordinates", FALSE), KO("layer", "layer", "T"), GrWidth, TStamp >>), "coordinates") ]

FpTail(fill) == << K("layer", "layer", "T", FCu), WS >> \o fill \o << F("locked", "locked"), TStamp >>
FpFill == << KO("fill", "fill", "W") >>
Fp ==
  [ FpText |-> KK(<<"fp_text">>, << P("type", "W", Lit("reference")), P("text", "T", Lit("%REF")), At("position", "XYAU"),
                      C("layer", "", << P("layer", "T", FCu), F("knockout", "knockout") >>), F("hide", "hide"),
                      O("effects", "Effects"), TStamp, OO("renderCache", "RenderCache") >>),
    FpTextBox |-> KK(<<"fp_text_box">>, TextBoxSlots),
    FpLine |-> KK(<<"fp_line">>, << OH("start", "XY", "start"), OH("end", "XY", "end") >> \o FpTail(<<>>)),
    FpRect |-> KK(<<"fp_rect">>, << OH("start", "XY", "start"), OH("end", "XY", "end") >> \o FpTail(FpFill)),
    FpCircle |-> KK(<<"fp_circle">>, << OH("center", "XY", "center"), OH("end", "XY", "end") >> \o FpTail(FpFill)),
    FpArc |-> KK(<<"fp_arc">>, << OH("start", "XY", "start"), OH("mid", "XY", "mid"), OH("end", "XY", "end") >> \o FpTail(<<>>)),
    FpPoly |-> Vanish(KK(<<"fp_poly">>, << Pts("coordinates", FALSE) >> \o FpTail(FpFill)), "coordinates"),
    FpCurve |-> Vanish(KK(<<"fp_curve">>, << Pts("coordinates", FALSE) >> \o FpTail(<<>>)), "coordinates"),
    Attributes |-> Vanish(KK(<<"attr">>, << EF("type", <<"through_hole", "smd">>), F("boardOnly", "board_only"),
                      F("excludeFromPosFiles", "exclude_from_pos_files"), F("excludeFromBom", "exclude_from_bom"),
                      F("allowMissingCourtyard", "allow_missing_courtyard") >>), "*"),
    Model |-> MinLen(KK(<<"model">>, << P("path", "T", Empty), PF("hide", "hide"), KO("opacity", "opacity", "N"),
                      WO("pos", "offset", "Coordinate"), WO("scale", "scale", "Coordinate1"), WO("rotate", "rotate", "Coordinate") >>), 5),
    DrillDefinition |-> KK(<<"drill">>, << PF("oval", "oval"), P("diameter", "N", Num0), POW("width", "N", "oval"), OOH("offset", "XY", "offset") >>),
    PadOptions |-> KK(<<"options">>, << K("clearance", "clearance", "W", Lit("outline")), K("anchor", "anchor", "W", Lit("rect")) >>),
    Pad |-> KK(<<"pad">>, << P("number", "T", Lit("x")), P("type", "W", Lit("smd")), P("shape", "W", Lit("rect")), F("locked", "locked"),
                      At("position", "XYA"), OH("size", "XY", "size"), OO("drill", "DrillDefinition"), KO("property", "property", "W"),
                      A("layers", "layers", "PL", TRUE), FT("removeUnusedLayers", "remove_unused_layers"), FT("keepEndLayers", "keep_end_layers"),
                      KO("roundrectRatio", "roundrect_rratio", "N"), KO("chamferRatio", "chamfer_ratio", "N"), A("chamfer", "chamfer", "W", FALSE),
                      KO("dieLength", "die_length", "N"), OO("net", "Net"), KO("pinFunction", "pinfunction", "T"), KO("pinType", "pintype", "T"),
                      KO("solderMaskMargin", "solder_mask_margin", "N"), KO("solderPasteMargin", "solder_paste_margin", "N"),
                      KO("solderPasteMarginRatio", "solder_paste_margin_ratio", "N"), KO("clearance", "clearance", "N"),
                      KO("zoneConnect", "zone_connect", "N"), KO("thermalWidth", "thermal_width", "N"), KO("thermalGap", "thermal_gap", "N"),
                      OO("customPadOptions", "PadOptions"), WL("customPadPrimitives", "primitives", GrKinds, FALSE), TStamp >>),
    Footprint |-> KK(<<"footprint", "module">>, << P("libId", "ID", Lit("x")), F("locked", "locked"), F("placed", "placed"),
                      KO("version", "version", "W"), KO("generator", "generator", "W"), K("layer", "layer", "T", FCu),
                      KO("tedit", "tedit", "W"), TStamp, OOH("position", "XYA", "at"), KO("description", "descr", "T"), KO("tags", "tags", "T"),
                      L("properties", <<"Pair">>), KO("path", "path", "T"), KO("autoplaceCost90", "autoplace_cost90", "N"),
                      KO("autoplaceCost180", "autoplace_cost180", "N"), KO("solderMaskMargin", "solder_mask_margin", "N"),
                      KO("solderPasteMargin", "solder_paste_margin", "N"), KO("solderPasteRatio", "solder_paste_ratio", "N"),
                      KO("clearance", "clearance", "N"), KO("zoneConnect", "zone_connect", "N"), KO("thermalWidth", "thermal_width", "N"),
                      KO("thermalGap", "thermal_gap", "N"), O("attributes", "Attributes"), A("privateLayers", "private_layers", "T", FALSE),
                      A("netTiePadGroups", "net_tie_pad_groups", "T", FALSE), L("graphicItems", FpKinds), L("pads", <<"Pad">>),
                      L("zones", <<"Zone">>), L("models", <<"Model">>), L("groups", <<"Group">>) >>) ]

Zn ==
  [ KeepoutSettings |-> KK(<<"keepout">>, << K("tracks", "tracks", "W", Lit("allowed")), K("vias", "vias", "W", Lit("allowed")),
                      K("pads", "pads", "W", Lit("allowed")), K("copperpour", "copperpour", "W", Lit("not-allowed")),
                      K("footprints", "footprints", "W", Lit("not-allowed")) >>),
    FillSettings |-> KK(<<"fill">>, << F("yes", "yes"), KO("mode", "mode", "W"), KO("thermalGap", "thermal_gap", "N"),
                      KO("thermalBridgeWidth", "thermal_bridge_width", "N"), KO("smoothingStyle", "smoothing", "W"), KO("smoothingRadius", "radius", "N"),
                      KO("islandRemovalMode", "island_removal_mode", "N"), KO("islandAreaMin", "island_area_min", "N"),
                      KO("hatchThickness", "hatch_thickness", "N"), KO("hatchGap", "hatch_gap", "N"), KO("hatchOrientation", "hatch_orientation", "N"),
                      KO("hatchSmoothingLevel", "hatch_smoothing_level", "N"), KO("hatchSmoothingValue", "hatch_smoothing_value", "N"),
                      KO("hatchBorderAlgorithm", "hatch_border_algorithm", "WN"), KO("hatchMinHoleArea", "hatch_min_hole_area", "N") >>),
    ZonePolygon |-> Vanish(KK(<<"polygon">>, << Pts("coordinates", FALSE) >>), "coordinates"),
    FilledPolygon |-> Vanish(KK(<<"filled_polygon">>, << K("layer", "layer", "T", FCu), FT("island", "island"), Pts("coordinates", FALSE) >>), "coordinates"),
    FillSegments |-> Vanish(KK(<<"fill_segments">>, << K("layer", "layer", "T", FCu), Pts("coordinates", FALSE) >>), "coordinates"),
    Hatch |-> Rigid(KK(<<"hatch">>, << P("style", "W", Lit("none")), P("pitch", "N", Num0) >>)),
    Zone |-> KK(<<"zone">>, << F("locked", "locked"), K("net", "net", "N", Num0), K("netName", "net_name", "T", Lit("unknown")), ZLAY, TStamp,
                      KO("name", "name", "T"), O("hatch", "Hatch"), KO("priority", "priority", "N"),
                      C("connect_pads", "", << PO("connectPads", "W", None), K("clearance", "clearance", "N", Lit("0.254")) >>),
                      K("minThickness", "min_thickness", "N", Lit("0.254")), KO("filledAreasThickness", "filled_areas_thickness", "W"),
                      OO("keepoutSettings", "KeepoutSettings"), OO("fillSettings", "FillSettings"), L("polygons", <<"ZonePolygon">>),
                      L("filledPolygons", <<"FilledPolygon">>), OO("fillSegments", "FillSegments") >>) ]

Auto == FT("fieldsAutoplaced", "fields_autoplaced")
Sch ==
  [ Junction |-> KK(<<"junction">>, << At("position", "XY"), K("diameter", "diameter", "N", Num0), O("color", "ColorRGBA"), Uuid >>),
    NoConnect |-> KK(<<"no_connect">>, << At("position", "XY"), Uuid >>),
    BusEntry |-> KK(<<"bus_entry">>, << At("position", "XY"), OH("size", "XY", "size"), O("stroke", "Stroke"), Uuid >>),
    BusAlias |-> Rigid(KK(<<"bus_alias">>, << P("name", "T", Empty), A("members", "members", "T", TRUE) >>)),
    Connection |-> HeadField(KK(<<"wire", "bus">>, << Pts("points", TRUE), O("stroke", "Stroke"), Uuid >>), "type"),
    PolyLine |-> KK(<<"polyline">>, << Pts("points", TRUE), O("stroke", "Stroke"), Uuid >>),
    Text |-> KK(<<"text">>, << P("text", "T", Empty), At("position", "XYA"), O("effects", "Effects"), Uuid >>),
    TextBox |-> KK(<<"text_box">>, << P("text", "T", Empty), At("position", "XYA"), OH("size", "XY", "size"), O("stroke", "Stroke"),
                      O("fill", "Fill"), O("effects", "Effects"), Uuid >>),
    LocalLabel |-> KK(<<"label">>, << P("text", "T", Empty), At("position", "XYA"), Auto, O("effects", "Effects"), Uuid >>),
    GlobalLabel |-> KK(<<"global_label">>, << P("text", "T", Empty), K("shape", "shape", "W", Lit("input")), At("position", "XYA"), Auto,
                      O("effects", "Effects"), Uuid, L("properties", <<"Property">>) >>),
    HierarchicalLabel |-> KK(<<"hierarchical_label">>, << P("text", "T", Empty), K("shape", "shape", "W", Lit("input")), At("position", "XYA"), Auto,
                      O("effects", "Effects"), Uuid >>),
    SymbolProjectPath |-> KK(<<"path">>, << P("sheetInstancePath", "T", Empty), K("reference", "reference", "T", Empty), K("unit", "unit", "N", Lit("1")) >>),
    SymbolProjectInstance |-> KK(<<"project">>, << P("name", "T", Empty), L("paths", <<"SymbolProjectPath">>) >>),
    PinUuid |-> Rigid(KK(<<"pin">>, << P("key", "M", Empty), K("val", "uuid", "W", Lit("a-uuid")) >>)),
    SchematicSymbol |-> KK(<<"symbol">>, << KO("libName", "lib_name", "T"), K("libId", "lib_id", "ID", Lit("x")), At("position", "XYA"),
                      KO("mirror", "mirror", "W"), KO("unit", "unit", "N"), B("inBom", "in_bom", "yes"), B("onBoard", "on_board", "yes"),
                      BO("dnp", "dnp", "yes"), Auto, KE("uuid", "uuid", "W"), L("properties", <<"Property">>), L("pins", <<"PinUuid">>),
                      WL("instances", "instances", <<"SymbolProjectInstance">>, FALSE) >>),
    HierarchicalPin |-> KK(<<"pin">>, << P("name", "T", Empty), P("connectionType", "W", Lit("input")), At("position", "XYA"), O("effects", "Effects"), Uuid >>),
    HierarchicalSheetProjectPath |-> KK(<<"path">>, << P("sheetInstancePath", "T", Empty), K("page", "page", "T", Empty) >>),
    HierarchicalSheetProjectInstance |-> KK(<<"project">>, << P("name", "T", Empty), L("paths", <<"HierarchicalSheetProjectPath">>) >>),
    HierarchicalSheet |-> KK(<<"sheet">>, << At("position", "XY"), C("size", "", << P("width", "N", Num0), P("height", "N", Num0) >>), Auto,
                      O("stroke", "Stroke"), WO("fill", "fill", "ColorRGBA4"), Uuid, KEYED("sheetName", <<"Sheet name", "Sheetname">>),
                      KEYED("fileName", <<"Sheet file", "Sheetfile">>), L("properties", <<"Property">>), L("pins", <<"HierarchicalPin">>),
                      WL("instances", "instances", <<"HierarchicalSheetProjectInstance">>, FALSE) >>),
    HierarchicalSheetInstance |-> KK(<<"path">>, << P("instancePath", "T", Lit("/")), K("page", "page", "T", Lit("1")) >>),
    SymbolInstance |-> KK(<<"path">>, << P("path", "T", Lit("/")), K("reference", "reference", "T", Empty), K("unit", "unit", "N", Num0),
                      K("value", "value", "T", Empty), K("footprint", "footprint", "T", Empty) >>),
    Rectangle |-> KK(<<"rectangle">>, << OH("start", "XY", "start"), OH("end", "XY", "end"), O("stroke", "Stroke"), O("fill", "Fill"), Uuid >>),
    SchArc |-> KK(<<"arc">>, << OH("start", "XY", "start"), OH("mid", "XY", "mid"), OH("end", "XY", "end"), O("stroke", "Stroke"), O("fill", "Fill"), Uuid >>),
    Circle |-> KK(<<"circle">>, << OH("center", "XY", "center"), K("radius", "radius", "N", Num0), O("stroke", "Stroke"), O("fill", "Fill"), Uuid >>),
    NetclassFlag |-> KK(<<"netclass_flag">>, << P("text", "T", Empty), K("length", "length", "N", Lit("2.54")), K("shape", "shape", "W", Lit("round")),
                      At("position", "XYA"), Auto, O("effects", "Effects"), Uuid, L("properties", <<"Property">>) >>),
    Schematic |-> KK(<<"kicad_sch">>, << K("version", "version", "W", Lit("20211014")), K("generator", "generator", "W", Lit("kiutils")), Uuid,
                      O("paper", "PageSettings"), OO("titleBlock", "TitleBlock"), WL("libSymbols", "lib_symbols", <<"Symbol">>, TRUE),
                      L("junctions", <<"Junction">>), L("noConnects", <<"NoConnect">>), L("busEntries", <<"BusEntry">>), L("busAliases", <<"BusAlias">>),
                      L("graphicalItems", <<"Connection", "PolyLine">>), L("shapes", <<"SchArc", "Circle", "Rectangle">>), L("images", <<"Image">>),
                      L("textBoxes", <<"TextBox">>), L("texts", <<"Text">>), L("labels", <<"LocalLabel">>), L("globalLabels", <<"GlobalLabel">>),
                      L("hierarchicalLabels", <<"HierarchicalLabel">>), L("netclassFlags", <<"NetclassFlag">>),
                      L("schematicSymbols", <<"SchematicSymbol">>), L("sheets", <<"HierarchicalSheet">>),
                      WL("sheetInstances", "sheet_instances", <<"HierarchicalSheetInstance">>, FALSE),
                      WL("symbolInstances", "symbol_instances", <<"SymbolInstance">>, FALSE) >>) ]

Sy ==
  [ SyArc |-> KK(<<"arc">>, << F("private", "private"), OH("start", "XYA", "start"), OH("mid", "XYA", "mid"), OH("end", "XYA", "end"), O("stroke", "Stroke"), O("fill", "Fill") >>),
    SyCircle |-> KK(<<"circle">>, << F("private", "private"), OH("center", "XY", "center"), K("radius", "radius", "N", Num0), O("stroke", "Stroke"), O("fill", "Fill") >>),
    SyCurve |-> KK(<<"curve">>, << Pts("points", TRUE), O("stroke", "Stroke"), O("fill", "Fill") >>),
    SyPolyLine |-> KK(<<"polyline">>, << Pts("points", TRUE), O("stroke", "Stroke"), O("fill", "Fill") >>),
    SyRect |-> KK(<<"rectangle">>, << F("private", "private"), OH("start", "XY", "start"), OH("end", "XY", "end"), O("stroke", "Stroke"), O("fill", "Fill") >>),
    SyText |-> KK(<<"text">>, << P("text", "T", Empty), At("position", "XYA"), O("effects", "Effects") >>),
    SyTextBox |-> KK(<<"text_box">>, << PF("private", "private"), P("text", "T", Empty), At("position", "XYA"), OH("size", "XY", "size"),
                      O("stroke", "Stroke"), O("fill", "Fill"), O("effects", "Effects"), Uuid >>),
    SymbolAlternativePin |-> KK(<<"alternate">>, << P("pinName", "T", Empty), P("electricalType", "W", Lit("input")), P("graphicalStyle", "W", Lit("line")) >>),
    SymbolPin |-> KK(<<"pin">>, << P("electricalType", "W", Lit("input")), P("graphicalStyle", "W", Lit("line")), At("position", "XYA"),
                      K("length", "length", "N", Lit("0.254")), F("hide", "hide"),
                      C("name", "", << P("name", "T", Empty), OO("nameEffects", "Effects") >>),
                      C("number", "", << P("number", "T", Lit("0")), OO("numberEffects", "Effects") >>), L("alternatePins", <<"SymbolAlternativePin">>) >>),
    Symbol |-> KK(<<"symbol">>, << P("libId", "ID", Lit("x")), KO("extends", "extends", "T"), FT("isPower", "power"),
                      C("pin_numbers", "hidePinNumbers", << F("hidePinNumbers", "hide") >>),
                      C("pin_names", "pinNames", << KO("pinNamesOffset", "offset", "N"), F("pinNamesHide", "hide") >>),
                      BO("inBom", "in_bom", "yes"), BO("onBoard", "on_board", "yes"), L("properties", <<"Property">>), L("graphicItems", SyKinds),
                      L("pins", <<"SymbolPin">>), L("units", <<"Symbol">>) >>),
    SymbolLib |-> KK(<<"kicad_symbol_lib">>, << K("version", "version", "W", Lit("20211014")), KO("generator", "generator", "W"), L("symbols", <<"Symbol">>) >>) ]

Misc ==
  [ WksFontSize |-> Rigid(KK(<<"size">>, << P("width", "N", Lit("1.0")), P("height", "N", Lit("1.0")) >>)),
    WksFont |-> Vanish(KK(<<"font">>, << KO("linewidth", "linewidth", "N"), OO("size", "WksFontSize"), F("bold", "bold"), F("italic", "italic") >>), "*"),
    WksPosition |-> Rigid(KK(<<"*">>, << P("X", "N", Num0), P("Y", "N", Num0), PO("corner", "W", None) >>)),
    WksLine |-> KK(<<"line">>, WksShape),
    WksRect |-> KK(<<"rect">>, WksShape),
    PngData |-> Rigid(KK(<<"data">>, << P("val", "H", Empty) >>)),
    Bitmap |-> KK(<<"bitmap">>, << K("name", "name", "T", Empty), OH("position", "WksPosition", "pos"), KO("option", "option", "W"), K("scale", "scale", "N", Lit("1.0")) >>
                      \o WksRepeat \o << KO("comment", "comment", "T"), WL("pngdata", "pngdata", <<"PngData">>, TRUE) >>),
    TbText |-> KK(<<"tbtext">>, << P("text", "T", Empty), K("name", "name", "T", Empty), OH("position", "WksPosition", "pos"), KO("option", "option", "W"),
                      KO("rotate", "rotate", "N"), O("font", "WksFont"), OO("justify", "Justify"), KO("maxlen", "maxlen", "N"), KO("maxheight", "maxheight", "N") >>
                      \o WksRepeat \o << KO("incrlabel", "incrlabel", "N"), KO("comment", "comment", "T") >>),
    TextSize |-> Rigid(KK(<<"textsize">>, << P("width", "N", Lit("1.5")), P("height", "N", Lit("1.5")) >>)),
    WksSetup |-> KK(<<"setup">>, << O("textSize", "TextSize"), K("lineWidth", "linewidth", "N", Lit("0.15")), K("textLineWidth", "textlinewidth", "N", Lit("0.15")),
                      K("leftMargin", "left_margin", "N", Lit("10.0")), K("rightMargin", "right_margin", "N", Lit("10.0")),
                      K("topMargin", "top_margin", "N", Lit("10.0")), K("bottomMargin", "bottom_margin", "N", Lit("10.0")) >>),
    WorkSheet |-> KK(<<"kicad_wks">>, << K("version", "version", "W", Lit("20211014")), K("generator", "generator", "W", Lit("kiutils")), O("setup", "WksSetup"),
                      L("drawingObjects", <<"WksRect", "WksLine", "TbText", "Bitmap">>) >>),
    Library |-> KK(<<"lib">>, << K("name", "name", "T", Empty), K("type", "type", "T", Lit("KiCad")), K("uri", "uri", "T", Empty),
                      K("options", "options", "T", Empty), K("description", "descr", "T", Empty), FTN("active", "disabled") >>),
    LibTable |-> HeadField(KK(<<"sym_lib_table", "fp_lib_table">>, << L("libs", <<"Library">>) >>), "type"),
    Constraint |-> KK(<<"constraint">>, << P("type", "W", Lit("clearance")), KO("min", "min", "T"), KO("opt", "opt", "T"), KO("max", "max", "T"), R("elements") >>),
    Rule |-> KK(<<"rule">>, << P("name", "T", Empty), KO("layer", "layer", "T"), L("constraints", <<"Constraint">>), K("condition", "condition", "T", Empty),
                      KO("severity", "severity", "W") >>),
    DesignRules |-> KK(<<"">>, << K("version", "version", "N", Lit("1")), L("rules", <<"Rule">>) >>) ]

Kinds == Common @@ Brd @@ Gr @@ Fp @@ Zn @@ Sch @@ Sy @@ Misc
KindNames == DOMAIN Kinds
FileKinds == {"Board", "Schematic", "Footprint", "SymbolLib", "WorkSheet", "DesignRules", "LibTable"}
\* kinds that exist only inside another object (no reader/writer of their own)
Inner == {"XY", "xy", "XYA", "XYA0", "XYAU", "WksPosition", "Hatch", "Comment", "Pair", "PinUuid", "PngData",
          "StackupSubLayer", "Coordinate1", "ColorRGBA4"}
TopKinds == KindNames \ Inner
=============================================================================
