From b5de3655c8526ce90e42d777876438d813c28e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:13 +0000
Subject: [PATCH 01/36] fix: keep the diameter of a junction when parsing it

---
 src/kiutils/items/schitems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 1c31cd5..0a5dac4 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -68,7 +68,7 @@ class Junction():
         for item in exp:
             if item[0] == 'at': object.position = Position().from_sexpr(item)
             if item[0] == 'color': object.color = ColorRGBA().from_sexpr(item)
-            if item[0] == 'diameter': object.color = item[1]
+            if item[0] == 'diameter': object.diameter = item[1]
             if item[0] == 'uuid': object.uuid = item[1]
         return object
 
-- 
2.43.0


From 7e7d85be9a16534ac7457a86211ba36cad804b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:14 +0000
Subject: [PATCH 02/36] fix: write the complete expression of a symbol curve

---
 src/kiutils/items/syitems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/syitems.py b/src/kiutils/items/syitems.py
index a78cb22..0a4303f 100644
--- a/src/kiutils/items/syitems.py
+++ b/src/kiutils/items/syitems.py
@@ -247,10 +247,10 @@ class SyCurve():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(curve\n'
-        expression =  f'{indents}  (pts\n'
+        expression += f'{indents}  (pts\n'
         for point in self.points:
-            expression =  f'{indents}    (xy {point.X} {point.Y})\n'
-        expression =  f'{indents}  )\n'
+            expression += f'{indents}    (xy {point.X} {point.Y})\n'
+        expression += f'{indents}  )\n'
         expression += self.stroke.to_sexpr(indent+2)
         expression += self.fill.to_sexpr(indent+2)
         expression += f'{indents}){endline}'
-- 
2.43.0


From f68906de3886f2ce1222bc8354992df965bbd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:15 +0000
Subject: [PATCH 03/36] fix: close the angle token of a graphical line and
 parse it again

---
 src/kiutils/items/gritems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 075a926..f6c72c3 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -328,6 +328,7 @@ class GrLine():
                 continue
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': object.angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width': object.width = item[1]
@@ -349,7 +350,7 @@ class GrLine():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
-        angle = f' (angle {self.angle}' if self.angle is not None else ''
+        angle = f' (angle {self.angle})' if self.angle is not None else ''
 
         return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
 
-- 
2.43.0


From fe7af3cc5ee01098c68df6491525cf13e0ab63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 04/36] fix: write the use_aux_origin plot setting instead of a
 constant

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index f4c1a80..5327d7b 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -631,7 +631,7 @@ class PlotSettings():
         expression += f'{indents}  (plotframeref {str(self.plotFameRef).lower()})\n'
         expression += f'{indents}  (viasonmask {str(self.viasOnMask).lower()})\n'
         expression += f'{indents}  (mode {self.mode})\n'
-        expression += f'{indents}  (useauxorigin false)\n'
+        expression += f'{indents}  (useauxorigin {str(self.useAuxOrigin).lower()})\n'
         expression += f'{indents}  (hpglpennumber {self.hpglPenNumber})\n'
         expression += f'{indents}  (hpglpenspeed {self.hpglPenSpeed})\n'
         expression += f'{indents}  (hpglpendiameter {float(self.hpglPenDiameter):.6f})\n'
-- 
2.43.0


From c57fd8ea0239fb318d6241b744240605f4e07da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:17 +0000
Subject: [PATCH 05/36] fix: honour the value of castellated_pads and
 edge_plating

---
 src/kiutils/items/brditems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 5327d7b..c043db8 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -373,8 +373,8 @@ class Stackup():
             if item[0] == 'copper_finish': object.copperFinish = item[1]
             if item[0] == 'dielectric_constraints': object.dielectricContraints = item[1]
             if item[0] == 'edge_connector': object.edgeConnector = item[1]
-            if item[0] == 'castellated_pads': object.castellatedPads = True
-            if item[0] == 'edge_plating': object.edgePlating = True
+            if item[0] == 'castellated_pads': object.castellatedPads = True if item[1] == 'yes' else False
+            if item[0] == 'edge_plating': object.edgePlating = True if item[1] == 'yes' else False
         return object
 
     def to_sexpr(self, indent=4, newline=True) -> str:
-- 
2.43.0


From 3f366475a95d25f05a4182bdbbb63d0f7efdebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:18 +0000
Subject: [PATCH 06/36] fix: remember the file path of a loaded footprint

---
 src/kiutils/footprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5d32bb6..0ded3b3 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -932,7 +932,9 @@ class Footprint():
             rawFootprint = infile.read()
 
             fpData = sexpr.parse_sexp(rawFootprint)
-            return cls.from_sexpr(fpData)
+            item = cls.from_sexpr(fpData)
+            item.filePath = filepath
+            return item
 
     @classmethod
     def create_new(cls, library_id: str, value: str,
-- 
2.43.0


From 830f03dad3587231e2dc0f282a55a70891d6c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:59 +0000
Subject: [PATCH 07/36] fix: give every netclass flag its own position and
 effects

---
 src/kiutils/items/schitems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 0a5dac4..9599789 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -1845,10 +1845,10 @@ class NetclassFlag():
     """The ``shape`` token defines the shape of the netclass flag. Valid values are ``round``,
     ``rectangle``, ``dot`` or``diamond``."""
 
-    position: Position = field(default_factory=lambda: Position)
+    position: Position = field(default_factory=lambda: Position())
     """The ``position`` token defines the position and rotation of the netclass flag"""
 
-    effects: Effects = field(default_factory=lambda: Effects)
+    effects: Effects = field(default_factory=lambda: Effects())
     """The ``effects`` token defines how the text is drawn"""
 
     properties: List[Property] = field(default_factory=list)
-- 
2.43.0


From 649f90ef1eaf1d25c1694545da8d6edb22188d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:00 +0000
Subject: [PATCH 08/36] fix: write the locked token of footprint lines

---
 src/kiutils/items/fpitems.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 7ef2b66..04bc699 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -155,8 +155,6 @@ class FpLine():
     stroke: Optional[Stroke] = None   # Used for KiCad >= 7
     """The ``stroke`` describes the line width and style of the line. (version 7)"""
 
-    # FIXME: This is not implemented in to_sexpr() because it does not seem to be used on lines
-    #        in footprints. Further testing required ..
     locked: bool = False
     """The optional ``locked`` token defines if the line cannot be edited"""
 
@@ -215,6 +213,7 @@ class FpLine():
         indents = ' '*indent
         endline = '\n' if newline else ''
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        locked = ' locked' if self.locked else ''
         if self.width is not None:
             width = f' (width {self.width})'
         elif self.stroke is not None:
@@ -222,7 +221,7 @@ class FpLine():
         else:
             width = ''
 
-        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
+        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{locked}{tstamp}){endline}'
 
 @dataclass
 class FpRect():
-- 
2.43.0


From 79dfdf2caa36c7f28465f9a7ca513a7b0a38f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:01 +0000
Subject: [PATCH 09/36] fix: write the locked token of dimensions and omit an
 unset tstamp

---
 src/kiutils/items/dimensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/dimensions.py b/src/kiutils/items/dimensions.py
index 47b38e9..ef1f17b 100644
--- a/src/kiutils/items/dimensions.py
+++ b/src/kiutils/items/dimensions.py
@@ -321,7 +321,10 @@ class Dimension():
         if len(points) == 0:
             raise Exception("Number of points must not be zero")
 
-        expression =   f'{indents}(dimension (type {self.type}) (layer "{self.layer}") (tstamp {self.tstamp})\n'
+        locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        expression =   f'{indents}(dimension{locked} (type {self.type}) (layer "{dequote(self.layer)}"){tstamp}\n'
         expression +=  f'{indents}  (pts{points})\n'
         if self.height is not None:
             expression +=  f'{indents}  (height {self.height})\n'
-- 
2.43.0


From ee9585c4e7ac30b9f04885dc16ae011ee4a8ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:02 +0000
Subject: [PATCH 10/36] fix: omit the unset tstamp of targets and escape their
 layer name

---
 src/kiutils/items/brditems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index c043db8..ea780c5 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -1101,4 +1101,6 @@ class Target():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{self.layer}") (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{dequote(self.layer)}"){tstamp}){endline}'
-- 
2.43.0


From cb702c89cb619431cd5d08718dc88d42ba6c5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:03 +0000
Subject: [PATCH 11/36] fix: escape the type of stackup layers

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index ea780c5..79832f1 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -308,7 +308,7 @@ class StackupLayer():
         epsilon_r = f' (epsilon_r {self.epsilonR})' if self.epsilonR is not None else ''
         loss_tangent = f' (loss_tangent {self.lossTangent})' if self.lossTangent is not None else ''
 
-        expression = f'{indents}(layer "{dequote(self.name)}" (type "{self.type}"){color}{thickness}'
+        expression = f'{indents}(layer "{dequote(self.name)}" (type "{dequote(self.type)}"){color}{thickness}'
         expression +=f'{material}{epsilon_r}{loss_tangent}'
         for layer in self.subLayers:
             expression += f'\n{layer.to_sexpr(indent+2)}'
-- 
2.43.0


From d42ceffebf785a409b193b8b0e31524c2b5b7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:04 +0000
Subject: [PATCH 12/36] fix: do not write an empty tstamp token for segments

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 79832f1..6c8d2d3 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -829,8 +829,9 @@ class Segment():
         indents = ' '*indent
         endline = '\n' if newline else ''
         locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp else ''
 
-        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}) (tstamp {self.tstamp})){endline}'
+        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}){tstamp}){endline}'
 
 @dataclass
 class Via():
-- 
2.43.0


From ba701a23a9c3ebd2e166ff3260df5bc2e142c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:05 +0000
Subject: [PATCH 13/36] fix: do not write an empty layerselection token

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 6c8d2d3..e76e111 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -611,7 +611,8 @@ class PlotSettings():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(pcbplotparams\n'
-        expression += f'{indents}  (layerselection {self.layerSelection})\n'
+        if self.layerSelection:
+            expression += f'{indents}  (layerselection {self.layerSelection})\n'
         if self.plotOnAllLayersSelection is not None:
             expression += f'{indents}  (plot_on_all_layers_selection {self.plotOnAllLayersSelection})\n'
         expression += f'{indents}  (disableapertmacros {str(self.disableApertMacros).lower()})\n'
-- 
2.43.0


From 616f3c2871e0a1793f264f02ef1569caffdf5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:07 +0000
Subject: [PATCH 14/36] fix: omit unset thermal settings of zone fills

---
 src/kiutils/items/zones.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 714a035..0654287 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -237,6 +237,8 @@ class FillSettings():
 
         yes = ' yes' if self.yes else ''
         mode = f' (mode {self.mode})' if self.mode is not None else ''
+        tg = f' (thermal_gap {self.thermalGap})' if self.thermalGap is not None else ''
+        tbw = f' (thermal_bridge_width {self.thermalBridgeWidth})' if self.thermalBridgeWidth is not None else ''
         smoothing = f' (smoothing {self.smoothingStyle})' if self.smoothingStyle is not None else ''
         radius = f' (radius {self.smoothingRadius})' if self.smoothingRadius is not None else ''
         irm = f' (island_removal_mode {self.islandRemovalMode})' if self.islandRemovalMode is not None else ''
@@ -249,7 +251,7 @@ class FillSettings():
         hba = f'\n{indents}  (hatch_border_algorithm {self.hatchBorderAlgorithm})' if self.hatchBorderAlgorithm is not None else ''
         hmha = f' (hatch_min_hole_area {self.hatchMinHoleArea})' if self.hatchMinHoleArea is not None else ''
 
-        return f'{indents}(fill{yes}{mode} (thermal_gap {self.thermalGap}) (thermal_bridge_width {self.thermalBridgeWidth}){smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
+        return f'{indents}(fill{yes}{mode}{tg}{tbw}{smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
 
 @dataclass
 class ZonePolygon():
-- 
2.43.0


From 4f513f1580178d8fcc331b97f0c4204b56589482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 15/36] fix: do not lock a group because of its name

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 707328e..f511ec8 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -600,7 +600,7 @@ class Group():
 
         object = cls()
         object.name = exp[1]
-        for item in exp:
+        for item in exp[2:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From 2b47598d4f1ead1bfedb2dc991237b1a95e46815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:09 +0000
Subject: [PATCH 16/36] fix: do not write an empty id token for groups

---
 src/kiutils/items/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index f511ec8..a63198d 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -624,7 +624,9 @@ class Group():
         endline = '\n' if newline else ''
         locked = f' locked' if self.locked else ''
 
-        expression =  f'{indents}(group "{dequote(self.name)}"{locked} (id {self.id})\n'
+        id = f' (id {self.id})' if self.id else ''
+
+        expression =  f'{indents}(group "{dequote(self.name)}"{locked}{id}\n'
         expression += f'{indents}  (members\n'
         for member in self.members:
             expression += f'{indents}    {member}\n'
-- 
2.43.0


From 2d9a0dd4579edcd7ca07fa3ad667983dcd1d48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:10 +0000
Subject: [PATCH 17/36] fix: parse render caches of empty texts

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index a63198d..b69f63c 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -994,7 +994,7 @@ class RenderCache():
         object = cls()
         object.text = exp[1]
         object.id = exp[2]
-        for item in exp:
+        for item in exp[3:]:
             if item[0] == 'polygon': object.polygons.append(RenderCachePolygon.from_sexpr(item))
         return object
 
-- 
2.43.0


From 9bc3e9024a986c10631d0ad642b8fe2f11230629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:08 +0000
Subject: [PATCH 18/36] fix: keep the text of locked graphical texts

---
 src/kiutils/items/gritems.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index f6c72c3..ba5638f 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -81,8 +81,16 @@ class GrText():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
-        object.text = exp[1]
-        for item in exp[2:]:
+        # The "locked" token may be placed in front of the text
+        if exp[1] == "locked" and not isinstance(exp[2], list):
+            object.locked = True
+            object.text = exp[2]
+            start_at = 3
+        else:
+            object.text = exp[1]
+            start_at = 2
+
+        for item in exp[start_at:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From 7df09b929deb0648761d35b23c710a8b6209ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:09 +0000
Subject: [PATCH 19/36] fix: do not take the drill offset as diameter or width
 of a drill

---
 src/kiutils/footprint.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 0ded3b3..ee6fe45 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -259,14 +259,12 @@ class DrillDefinition():
 
         object = cls()
         # Depending on the ``oval`` token, the fields may be shifted ..
-        if exp[1] == 'oval':
+        values = [item for item in exp[1:] if not isinstance(item, list)]
+        if len(values) > 0 and values[0] == 'oval':
             object.oval = True
-            object.diameter = exp[2]
-            object.width = exp[3]
-        else:
-            object.diameter = exp[1]
-            if len(exp) > 2:
-                object.width = exp[2]
+            values = values[1:]
+        if len(values) > 0: object.diameter = values[0]
+        if len(values) > 1: object.width = values[1]
 
         # The ``offset`` token may not be given
         for item in exp:
-- 
2.43.0


From 1b37b656e5bd68b2683b1837c07358a11d322ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 20/36] fix: omit the unset generator of symbol libraries

---
 src/kiutils/symbol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 022a229..7cfbf50 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -585,7 +585,9 @@ class SymbolLib():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        expression =  f'{indents}(kicad_symbol_lib (version {self.version}) (generator {self.generator})\n'
+        generator = f' (generator {self.generator})' if self.generator is not None else ''
+
+        expression =  f'{indents}(kicad_symbol_lib (version {self.version}){generator}\n'
         for item in self.symbols:
             expression += f'{indents}{item.to_sexpr(indent+2)}'
         expression += f'{indents}){endline}'
-- 
2.43.0


From 653cb8c6b3eee15fc3b4ff9f96878d7a6291bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:32 +0000
Subject: [PATCH 21/36] fix: omit the unset width of graphical items

---
 src/kiutils/items/gritems.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index ba5638f..46b9376 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -357,10 +357,11 @@ class GrLine():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         angle = f' (angle {self.angle})' if self.angle is not None else ''
 
-        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
+        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrRect():
@@ -439,10 +440,11 @@ class GrRect():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrCircle():
@@ -522,10 +524,11 @@ class GrCircle():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrArc():
@@ -605,9 +608,10 @@ class GrArc():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
 
-        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){tstamp}){endline}'
+        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrPoly():
@@ -691,6 +695,7 @@ class GrPoly():
             return f'{indents}{endline}'
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
         locked = f' locked' if self.locked else ''
@@ -703,7 +708,7 @@ class GrPoly():
 
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
-        expression += f'{indents}  ){layer} (width {self.width}){fill}{tstamp}){endline}'
+        expression += f'{indents}  ){layer}{width}{fill}{tstamp}){endline}'
         return expression
 
 @dataclass
@@ -779,11 +784,12 @@ class GrCurve():
             return f'{indents}{endline}'
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         locked = f' locked' if self.locked else ''
 
         expression = f'{indents}(gr_curve{locked} (pts\n'
         for point in self.coordinates:
             expression += f'{indents}  (xy {point.X} {point.Y})\n'
-        expression += f'{indents}){layer} (width {self.width}){tstamp}){endline}'
+        expression += f'{indents}){layer}{width}{tstamp}){endline}'
         return expression
-- 
2.43.0


From 1914939f9b6838ad1ebb758703063748bae10453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 22/36] fix: do not stamp the current time on footprints
 without a tedit token

---
 src/kiutils/footprint.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index ee6fe45..e0f19a0 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -724,7 +724,7 @@ class Footprint():
     layer: str = "F.Cu"
     """The ``layer`` token defines the canonical layer the footprint is placed"""
 
-    tedit: str = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
+    tedit: Optional[str] = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
     """The ``tedit`` token defines a the last time the footprint was edited"""
 
     tstamp: Optional[str] = None
@@ -856,6 +856,7 @@ class Footprint():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
+        object.tedit = None
         object.libId = exp[1]
         for item in exp[2:]:
             if not isinstance(item, list):
@@ -1031,7 +1032,10 @@ class Footprint():
             expression += f' (layer "{dequote(self.layer)}")\n'
         else:
             expression += f'\n{indents}  (layer "{dequote(self.layer)}")\n'
-        expression += f'{indents}  (tedit {self.tedit}){tstamp}\n'
+        if self.tedit is not None:
+            expression += f'{indents}  (tedit {self.tedit}){tstamp}\n'
+        elif self.tstamp is not None:
+            expression += f'{indents} {tstamp}\n'
 
         if self.position is not None:
             angle = f' {self.position.angle}' if self.position.angle is not None else ''
-- 
2.43.0


From f10e379b05dce7315301bbfa85c9fbe75104a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 23/36] fix: do not write empty version and generator tokens
 for boards

---
 src/kiutils/board.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 95f0959..ee03993 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -255,7 +255,10 @@ class Board():
 
         addNewLine = False
 
-        expression =  f'{indents}(kicad_pcb (version {self.version}) (generator {self.generator})\n\n'
+        version = f' (version {self.version})' if self.version != '' else ''
+        generator = f' (generator {self.generator})' if self.generator != '' else ''
+
+        expression =  f'{indents}(kicad_pcb{version}{generator}\n\n'
         expression += self.general.to_sexpr(indent+2) + '\n'
         expression += self.paper.to_sexpr(indent+2)
         if self.titleBlock is not None:
-- 
2.43.0


From 1cf53ffc2438b5712cfc05259c4f42243b4d9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 24/36] fix: keep leading zeros of symbol names that look like
 unit names

---
 src/kiutils/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 7cfbf50..3010f21 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -272,7 +272,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(\d+?)_(\d+?)$", symbol_id)
+            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)$", symbol_id)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0


From 71d0c8834c7bf9058195b5f4b513ac308306dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:37 +0000
Subject: [PATCH 25/36] fix: prefix units with the full name of their parent
 symbol

---
 src/kiutils/symbol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 3010f21..4f38709 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -287,8 +287,11 @@ class Symbol():
                 self.styleId = None
 
         # Update units id to match parent id
+        unit_name = self.entryName
+        if self.unitId is not None and self.styleId is not None:
+            unit_name = f'{self.entryName}_{self.unitId}_{self.styleId}'
         for unit in self.units:
-            unit.entryName = self.entryName
+            unit.entryName = unit_name
 
     libraryNickname: Optional[str] = None
     """The optional ``libraryNickname`` token defines which symbol library this symbol belongs to
-- 
2.43.0


From ed7ac1818ef4bdbf68e1eb4716758150ee632ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:51 +0000
Subject: [PATCH 26/36] fix: do not split unquoted tokens at a caret

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 764fa58..b7a1402 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -12,7 +12,7 @@ term_regex = r'''(?mx)
         (?P<brackr>\))|
         (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
-        (?P<s>[^(^)\s]+)
+        (?P<s>[^()\s]+)
        )'''
 
 def parse_sexp(sexp):
-- 
2.43.0


From 61510ffd82dbacbdffa6b61dc65ad3699734a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:53 +0000
Subject: [PATCH 27/36] fix: parse numbers followed by a line break or tab as
 numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index b7a1402..494587a 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
+        (?P<num>[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
-- 
2.43.0


From 5bf156d4d22aa80f07a232c69a65137602b80e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:26 +0000
Subject: [PATCH 28/36] fix: keep the precision of large integers

---
 src/kiutils/utils/sexpr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 494587a..e1a8a61 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -30,8 +30,11 @@ def parse_sexp(sexp):
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
-            v = float(value)
-            if v.is_integer(): v = int(v)
+            if '.' in value:
+                v = float(value)
+                if v.is_integer(): v = int(v)
+            else:
+                v = int(value)
             out.append(v)
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
-- 
2.43.0


From ac41b9c975c4e4d8c537a6f5a68a30dd5dd63e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:28 +0000
Subject: [PATCH 29/36] fix: parse numbers with a negative exponent, as written
 for small values

---
 src/kiutils/utils/sexpr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index e1a8a61..ba02c35 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
+        (?P<num>[+-]?\d+(?:\.\d+)?[eE]-\d+(?=[\s\)])|[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
@@ -30,7 +30,7 @@ def parse_sexp(sexp):
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
-            if '.' in value:
+            if '.' in value or 'e' in value.lower():
                 v = float(value)
                 if v.is_integer(): v = int(v)
             else:
-- 
2.43.0


From c40be7ff8e1af99c62f6f2d89c2e2bfd28456c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:53 +0000
Subject: [PATCH 30/36] fix: let worksheets be written with a given encoding

---
 src/kiutils/wks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index d19ea61..fc04c1d 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -922,12 +922,14 @@ class WorkSheet():
             generator = KIUTILS_CREATE_NEW_GENERATOR_STR
         )
 
-    def to_file(self, filepath = None):
+    def to_file(self, filepath = None, encoding: Optional[str] = None):
         """Save the object to a file in S-Expression format
 
         Args:
             - filepath (str, optional): Path-like string to the file. Defaults to None. If not set, 
                                         the attribute ``self.filePath`` will be used instead.
+            - encoding (str, optional): Encoding of the output file. Defaults to None (platform 
+                                        dependent encoding).
 
         Raises:
             - Exception: If no file path is given via the argument or via `self.filePath`
@@ -937,7 +939,7 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        with open(filepath, 'w') as outfile:
+        with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(self.to_sexpr())
 
     def to_sexpr(self, indent=0, newline=True):
-- 
2.43.0


From 2cbab06ecc5cc1f5c0472cae9183e970bf34e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:00 +0000
Subject: [PATCH 31/36] fix: do not truncate an existing file when saving fails

---
 src/kiutils/board.py         |  6 ++++--
 src/kiutils/dru.py           |  6 ++++--
 src/kiutils/footprint.py     |  6 ++++--
 src/kiutils/libraries.py     |  6 ++++--
 src/kiutils/schematic.py     |  5 ++++-
 src/kiutils/symbol.py        |  6 ++++--
 src/kiutils/utils/strings.py | 19 ++++++++++++++++++-
 src/kiutils/wks.py           |  6 ++++--
 8 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index ee03993..9fd0963 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -24,7 +24,7 @@ from kiutils.items.zones import Zone
 from kiutils.items.brditems import *
 from kiutils.items.gritems import *
 from kiutils.items.dimensions import Dimension
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import assert_encodable, dequote
 from kiutils.utils import sexpr
 from kiutils.footprint import Footprint
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR, KIUTILS_CREATE_NEW_GENERATOR_STR
@@ -237,8 +237,10 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        expression = self.to_sexpr()
+        assert_encodable(expression, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index a1b5a4a..e879292 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -20,7 +20,7 @@ from typing import Optional, List
 from os import path
 
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import assert_encodable, dequote
 
 @dataclass
 class Constraint():
@@ -289,8 +289,10 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        expression = self.to_sexpr()
+        assert_encodable(expression, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=False):
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index e0f19a0..227c32e 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -27,7 +27,7 @@ from kiutils.items.common import Image, Position, Coordinate, Net, Group, Font
 from kiutils.items.fpitems import *
 from kiutils.items.gritems import *
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote, remove_prefix
+from kiutils.utils.strings import assert_encodable, dequote, remove_prefix
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -1004,8 +1004,10 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        expression = self.to_sexpr()
+        assert_encodable(expression, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True, layerInFirstLine=False) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 9098613..adda669 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -16,7 +16,7 @@ from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
 
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import assert_encodable, dequote
 from kiutils.utils import sexpr
 
 @dataclass
@@ -193,8 +193,10 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        expression = self.to_sexpr()
+        assert_encodable(expression, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index a3396ff..c4c17ca 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -23,6 +23,7 @@ from kiutils.items.common import Image, PageSettings, TitleBlock
 from kiutils.items.schitems import *
 from kiutils.symbol import Symbol
 from kiutils.utils import sexpr
+from kiutils.utils.strings import assert_encodable
 from kiutils.misc.config import KIUTILS_CREATE_NEW_GENERATOR_STR, KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -226,8 +227,10 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        expression = self.to_sexpr()
+        assert_encodable(expression, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 4f38709..758a0b3 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -22,7 +22,7 @@ import re
 from kiutils.items.common import Effects, Position, Property, Font
 from kiutils.items.syitems import *
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import assert_encodable, dequote
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -572,8 +572,10 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        expression = self.to_sexpr()
+        assert_encodable(expression, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent: int = 0, newline: bool = True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/utils/strings.py b/src/kiutils/utils/strings.py
index e2e97a7..e230e03 100644
--- a/src/kiutils/utils/strings.py
+++ b/src/kiutils/utils/strings.py
@@ -10,6 +10,9 @@ Major changes:
     28.02.2022 - created
 """
 
+import locale
+from typing import Optional
+
 def dequote(input: str) -> str:
     """Escapes double-quotes in a string using a backslash
 
@@ -33,4 +36,18 @@ def remove_prefix(input: str, prefix: str) -> str:
     Returns:
         - str: String with removed prefix, or the ``input`` string as is, if the prefix was not found
     """
-    return input[len(prefix):] if input.startswith(prefix) else input
\ No newline at end of file
+    return input[len(prefix):] if input.startswith(prefix) else input
+
+def assert_encodable(input: str, encoding: Optional[str] = None):
+    """Assert that a string can be written to a file, before an existing file gets overwritten
+
+    Args:
+        - input (str): String to be written
+        - encoding (str, optional): Encoding of the file. Defaults to None (platform dependent
+                                    encoding).
+
+    Raises:
+        - LookupError: If the encoding is not known
+        - UnicodeEncodeError: If the encoding is not able to represent the string
+    """
+    input.encode(encoding or locale.getpreferredencoding(False))
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index fc04c1d..ea843ff 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -20,7 +20,7 @@ from typing import Optional, List
 from os import path
 
 from kiutils.items.common import Justify
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import assert_encodable, dequote
 from kiutils.utils import sexpr
 from kiutils.misc.config import KIUTILS_CREATE_NEW_GENERATOR_STR, KIUTILS_CREATE_NEW_VERSION_STR
 
@@ -939,8 +939,10 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        expression = self.to_sexpr()
+        assert_encodable(expression, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True):
         """Generate the S-Expression representing this object
-- 
2.43.0


From 10ce054572d54683c57f9f6e648a025ceeeda77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:16 +0000
Subject: [PATCH 32/36] fix: parse numbers directly followed by an opening
 bracket as numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index ba02c35..38c9958 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+(?:\.\d+)?[eE]-\d+(?=[\s\)])|[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
+        (?P<num>[+-]?\d+(?:\.\d+)?[eE]-\d+(?=[\s()])|[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
-- 
2.43.0


From 6c0c620b0bcc670c9c8557527b3d15a32849b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:20 +0000
Subject: [PATCH 33/36] fix: honour the newline argument of zone polygons and
 fills

---
 src/kiutils/items/zones.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 0654287..8eb3ccf 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -312,7 +312,7 @@ class ZonePolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
@@ -391,7 +391,7 @@ class FilledPolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 # TODO: This is KiCad 4 stuff, has to be tested yet ..
@@ -465,7 +465,7 @@ class FillSegments():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
-- 
2.43.0


From c05b6bb40edcbaaf77f4f5f708f6bbbede69d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:47 +0000
Subject: [PATCH 34/36] fix: read a quoted string at the end of a text as a
 string

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 38c9958..a71c336 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -11,7 +11,7 @@ term_regex = r'''(?mx)
         (?P<brackl>\()|
         (?P<brackr>\))|
         (?P<num>[+-]?\d+(?:\.\d+)?[eE]-\d+(?=[\s()])|[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()]))|
-        (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
+        (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)|\Z))|
         (?P<s>[^()\s]+)
        )'''
 
-- 
2.43.0


From 7d9fbe7d166e4c33716008eff039db1381a953d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:16 +0000
Subject: [PATCH 35/36] fix: read the type of footprint attributes wherever it
 stands

---
 src/kiutils/footprint.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 227c32e..d621b55 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -81,13 +81,10 @@ class Attributes():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
-        if len(exp) > 1:
-            # Attributes token may be set with no other items (empty attributes)
-            # Test case for this: test_fp_empty_attr.kicad_mod
-            if exp[1] == 'through_hole' or exp[1] == 'smd':
-                object.type = exp[1]
-
+        # Attributes token may be set with no other items (empty attributes)
+        # Test case for this: test_fp_empty_attr.kicad_mod
         for item in exp:
+            if item == 'through_hole' or item == 'smd': object.type = item
             if item == 'board_only': object.boardOnly = True
             if item == 'exclude_from_pos_files': object.excludeFromPosFiles = True
             if item == 'exclude_from_bom': object.excludeFromBom = True
-- 
2.43.0


From 57d016719dde912692b1ff0016078436bb08620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:52 +0000
Subject: [PATCH 36/36] fix: keep line breaks in library identifiers

---
 src/kiutils/footprint.py      | 2 +-
 src/kiutils/items/schitems.py | 2 +-
 src/kiutils/symbol.py         | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index d621b55..a558ce2 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -690,7 +690,7 @@ class Footprint():
               or only ``<entryName>``
         """
         # kicad5 fix: module names may not be quoted strings (only numbers) - see PR #91
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", str(symbol_id))
+        parse_symbol_id = re.match(r"^(.+?):(.+)\Z", str(symbol_id), re.DOTALL)
         if parse_symbol_id:
             self.libraryNickname = parse_symbol_id.group(1)
             self.entryName = parse_symbol_id.group(2)
diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 9599789..5b5794f 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -993,7 +993,7 @@ class SchematicSymbol():
             - symbol_id (str): The symbol id in the following format: ``<libraryNickname>:<entryName>``
               or only ``<entryName>``
         """
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", symbol_id)
+        parse_symbol_id = re.match(r"^(.+?):(.+)\Z", symbol_id, re.DOTALL)
         if parse_symbol_id:
             self.libraryNickname = parse_symbol_id.group(1)
             self.entryName = parse_symbol_id.group(2)
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 758a0b3..5add8a0 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -264,7 +264,7 @@ class Symbol():
             - Exception: If the given ID is neither a top-level nor a child symbol
         """
         # Try to parse the given ID
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", symbol_id)
+        parse_symbol_id = re.match(r"^(.+?):(.+)\Z", symbol_id, re.DOTALL)
         if parse_symbol_id:
             # The symbol is a top-level symbol with a library nickname
             self.libraryNickname = parse_symbol_id.group(1)
@@ -272,7 +272,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)$", symbol_id)
+            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)\Z", symbol_id, re.DOTALL)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0

