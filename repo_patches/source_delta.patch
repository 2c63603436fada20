From a2f13c011bd850a42d012ee74df6b4f0e8cbcbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 01/41] fix: slicer: layers without any face are empty instead
 of a nil dereference

---
 slicer/slicer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index e3cd091..35f1b6c 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -111,6 +111,11 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	c := clip.NewClipper()
 
 	for i, layer := range layers {
+		if layer == nil {
+			// no face touches this layer
+			layer = newLayer(i, s.options)
+		}
+
 		layer.makePolygons(m, s.options.Slicing.JoinPolygonSnapDistance, s.options.Slicing.FinishPolygonSnapDistance)
 		lp, ok := c.GenerateLayerParts(layer)
 
-- 
2.43.0


From 00c8f3367fbf7782367863315b09ddc4418994f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 02/41] fix: slicer: count the layers up to the top of the
 placed model

---
 slicer/slicer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index 35f1b6c..957fc36 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -15,6 +15,7 @@
 package slicer
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -31,7 +32,12 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
-	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	// The model may be placed above or below z = 0 (see the center option), so its final top is what counts.
+	top := m.Max().Z()
+	if top < s.options.Print.InitialLayerThickness {
+		return nil, errors.New("the model does not reach the height of the first layer")
+	}
+	layerCount := (top-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 
 	layers := make([]*layer, layerCount)
 
-- 
2.43.0


From 78bbd7cac296e30742e7ad7ec80b1519c698efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 03/41] fix: clip: polygons without any area are empty instead
 of an error

---
 clip/clip.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 1b119fb..c54d51a 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -212,7 +212,10 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
-	cl.AddPaths(polyList, clipper.PtSubject, true)
+	if !cl.AddPaths(polyList, clipper.PtSubject, true) {
+		// all polygons are degenerated (without any area), clipper would fail without any path
+		return data.NewPartitionedLayer([]data.LayerPart{}), true
+	}
 	resultPolys, ok := cl.Execute2(clipper.CtUnion, clipper.PftEvenOdd, clipper.PftEvenOdd)
 	if !ok {
 		return nil, false
@@ -306,14 +309,20 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
+	anyPath := false
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
-		cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true)
+		anyPath = cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) || anyPath
+		anyPath = cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true) || anyPath
 	}
 
 	for _, intersect := range toClip {
-		cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true)
-		cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true)
+		anyPath = cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true) || anyPath
+		anyPath = cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true) || anyPath
+	}
+
+	if !anyPath {
+		// clipper fails if there is no path with any area, but the result is just empty
+		return nil, true
 	}
 
 	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
@@ -333,7 +342,10 @@ func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Pa
 		cl.AddPath(clipperPath(part.Outline()), clipper.PtClip, true)
 	}
 
-	cl.AddPath(clipperPath(line), clipper.PtSubject, false)
+	if !cl.AddPath(clipperPath(line), clipper.PtSubject, false) {
+		// a line without any length does not cross anything
+		return false, true
+	}
 
 	// calculate the difference of the parts and the line, then look if the (inverted) result contains any left path which would be a line not inside of the parts.
 	// If any part is left, the line crossed a perimeter.
@@ -364,8 +376,13 @@ func (c clipperClipper) Hull(parts []data.LayerPart) (hull data.Path, ok bool) {
 func (c clipperClipper) TopLevelPolygons(parts []data.LayerPart) (topLevel data.Paths, ok bool) {
 	cl := clipper.NewClipper(clipper.IoNone)
 
+	anyPath := false
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
+		anyPath = cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) || anyPath
+	}
+
+	if !anyPath {
+		return nil, true
 	}
 
 	// this is just a dummy-call to Execute2 as I found no other way to get a tree from clipper...
-- 
2.43.0


From 6a067ac0be51324f66d08d3e62e8b238887555b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 04/41] fix: slicer: do not lose contours made of short
 unconnected segments

---
 slicer/layer.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/slicer/layer.go b/slicer/layer.go
index c712849..3d792f4 100644
--- a/slicer/layer.go
+++ b/slicer/layer.go
@@ -103,6 +103,10 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 	// Connect polygons that are not closed yet.
 	// As models are not always perfect manifold we need to join
 	// some stuff up to get proper polygons.
+	//
+	// First connect only those which directly follow each other, which happens at each edge of the model lying exactly in
+	// the layer. Using the bigger distance there would close polygons of segments shorter than it too early.
+	snapDistance := data.Min(l.options.Slicing.MeldDistance, joinPolygonSnapDistance)
 RerunConnectPolygons:
 	for i, polygon := range l.polygons {
 		if polygon == nil || l.closed[i] {
@@ -110,7 +114,7 @@ RerunConnectPolygons:
 		}
 
 		best := -1
-		bestScore := joinPolygonSnapDistance + 1
+		bestScore := snapDistance + 1
 		for j, polygon2 := range l.polygons {
 			if polygon2 == nil || l.closed[j] || i == j {
 				continue
@@ -119,7 +123,7 @@ RerunConnectPolygons:
 			// check the distance of the last point from the first unfinished slicePolygon
 			// with the first point of the second unfinished slicePolygon
 			diff := polygon[len(polygon)-1].Sub(polygon2[0])
-			if diff.ShorterThanOrEqual(joinPolygonSnapDistance) {
+			if diff.ShorterThanOrEqual(snapDistance) {
 				score := diff.Size() - data.Micrometer(len(polygon2)*10)
 				if score < bestScore {
 					best = j
@@ -135,7 +139,7 @@ RerunConnectPolygons:
 			}
 
 			// close slicePolygon if the start end end now fits inside the snap distance
-			if l.polygons[i].IsAlmostFinished(joinPolygonSnapDistance) {
+			if l.polygons[i].IsAlmostFinished(snapDistance) {
 				l.removeLastPoint(i)
 				l.closed[i] = true
 			}
@@ -147,6 +151,12 @@ RerunConnectPolygons:
 		}
 	}
 
+	// now connect also those which are farther apart
+	if snapDistance != joinPolygonSnapDistance {
+		snapDistance = joinPolygonSnapDistance
+		goto RerunConnectPolygons
+	}
+
 	// finish or remove still open polygons
 	var clearedPolygons data.Paths
 	for i, poly := range l.polygons {
-- 
2.43.0


From cace49cb2925011c8747b6163fd0127bd3ced686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 05/41] fix: clip: offsetting a part without any area is empty
 instead of a nil dereference

---
 clip/clip.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index c54d51a..f56c553 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -283,6 +283,10 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 
 		co.MiterLimit = 2
 		allNewInsets := co.Execute2(currentOffset)
+		if allNewInsets == nil {
+			// the part has no area, so there is nothing which could be offset
+			allNewInsets = clipper.NewPolyTree()
+		}
 		insets = append(insets, polyTreeToLayerParts(allNewInsets))
 
 		currentOffset += float64(-int(offset))
-- 
2.43.0


From af35c726895067862c1ff6ae87d724fb4376b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 06/41] fix: gcode: do not retract before the first move

---
 gcode/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 2b829fd..1a92f5a 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -164,7 +164,7 @@ func (g *Builder) AddPolygon(currentLayer data.PartitionedLayer, polygon data.Pa
 			}
 
 			isCrossing := false
-			if currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
+			if currentLayer != nil && g.notFirstMoveX && g.retractionSpeed != 0 && g.retractionAmount != 0 {
 				c := clip.NewClipper()
 				var ok bool
 				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)
-- 
2.43.0


From 4c2794e4def7956b3039f098eeb36dae451be276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 07/41] fix: gcode: do not print everything after the
 perimeters with the outer perimeter speed

---
 gcode/renderer/perimeter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/renderer/perimeter.go b/gcode/renderer/perimeter.go
index 297308a..8a0f836 100644
--- a/gcode/renderer/perimeter.go
+++ b/gcode/renderer/perimeter.go
@@ -22,6 +22,9 @@ func (p Perimeter) Render(b *gcode.Builder, layerNr int, maxLayer int, layer dat
 		return nil
 	}
 
+	// the outer perimeters use their own speed, everything after the perimeters uses the normal speed again
+	defer b.SetExtrudeSpeed(options.Print.LayerSpeed)
+
 	for _, part := range perimeters {
 		for insetNr := range part {
 			// print the outer perimeter as last perimeter
-- 
2.43.0


From ecc8f756ff5c8633802b8d7c93c2da017b48c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 08/41] fix: gcode: write start and end gcode containing %
 unchanged

---
 gcode/renderer/layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 4c424ef..d68cd6c 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -48,7 +48,7 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 			if strings.Contains(instruction, HotendTempTemplate) {
 				instruction = strings.Replace(instruction, HotendTempTemplate, fmt.Sprint(options.Filament.InitialHotEndTemperature), -1)
 			}
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 		b.AddCommand("G92 E0 ; reset extrusion distance")
@@ -118,7 +118,7 @@ func (PostLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.
 			}
 		}
 		for _, instruction := range options.Printer.EndGCode.GCodeLines {
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 	}
-- 
2.43.0


From ac76cd89d7fe06f43c6503f680ef3e9b69fc9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 09/41] fix: gcode: do not set the bed temperature without a
 heated bed

---
 gcode/renderer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index d68cd6c..1a205a4 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -89,7 +89,9 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 		// set the normal temperature
 		// this is done without waiting
 		b.AddComment("SET_TEMP")
-		b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		if options.Printer.HasHeatedBed {
+			b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		}
 		b.AddCommand("M104 S%d", options.Filament.HotEndTemperature)
 	}
 
-- 
2.43.0


From d7e03073f0e5f41ecd5ac39aadde1f51897a462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 10/41] fix: gcode: commented out temperature codes must not
 suppress the safe start and stop gcode

---
 data/option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index bbce068..91852e1 100644
--- a/data/option.go
+++ b/data/option.go
@@ -155,7 +155,7 @@ func (gch GCodeHunk) DoesInstructionContainCodes(targetCodes []string) bool {
 	for _, instruction := range gch.GCodeLines {
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
 		for _, targetCode := range targetCodes {
-			if strings.Contains(code, targetCode) {
+			if strings.HasPrefix(code, targetCode) {
 				contained = true
 				break
 			}
-- 
2.43.0


From 35b4387c1faf0354e07572e2ae904093a1ed07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 11/41] fix: gcode: sum up the extrusion with enough precision

---
 gcode/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 1a92f5a..3a020fc 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -15,7 +15,7 @@ import (
 type Builder struct {
 	buf *bytes.Buffer
 
-	extrusionAmount                                             data.Millimeter
+	extrusionAmount                                             float64
 	extrusionPerMM                                              data.Millimeter
 	currentPosition                                             data.MicroVec3
 	notFirstMoveX                                               bool
@@ -121,7 +121,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 		g.currentSpeed = speed
 	}
 
-	g.extrusionAmount += extrusion
+	g.extrusionAmount += float64(extrusion)
 	if extrusion != 0 {
 		g.buf.WriteString(fmt.Sprintf(" E%0.4f", g.extrusionAmount))
 	}
-- 
2.43.0


From 1fbaad4480f6527e8892ff56f39b397bc58afab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 12/41] fix: gcode: do not lose corners of big polygons because
 of an overflow

---
 data/2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 52994bc..586ed97 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -56,7 +56,7 @@ func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, m
 		// TODO: check usage of 'Shortest Distance' from a point to a line segment
 		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
 		d := PerpendicularDistance2(p1, p2, points[i])
-		if d > maxDist*maxDist {
+		if d > maxDist {
 			maxDist = d
 			idx = i
 		}
-- 
2.43.0


From c0e1e12efa18051a6529bc56dbcf168c4b27f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 13/41] fix: data: DouglasPeucker must not change the given
 points

---
 data/2d.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 586ed97..7495964 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -43,7 +43,8 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 		// TODO: check if implementation without recursion would be possible and if it is more performant
 		left := douglasPeucker(points[:idx+1], ep, depth+1)
 		right := douglasPeucker(points[idx:], ep, depth+1)
-		return append(left[:len(left)-1], right...)
+		// limit the capacity so that append never writes into the given points
+		return append(left[:len(left)-1:len(left)-1], right...)
 	}
 
 	// If the most distant point fails to pass the threshold test, then just return the two points
-- 
2.43.0


From 3458e42c87e383a9a4ed5d9d877056c48c56b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 14/41] fix: modifier: an empty layer must not stop the infill
 of all layers above it

---
 modifier/infill.go          | 11 +++++++++--
 modifier/internal_infill.go |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index dbf51be..7cd2118 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -43,14 +43,21 @@ func TopInfill(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// nothing to fill in this layer
+			continue
+		}
 
 		perimeters, err := Perimeters(layers[layerNr])
-		if err != nil || perimeters == nil {
+		if err != nil {
 			return err
 		}
+		if perimeters == nil {
+			continue
+		}
 
 		var bottomInfill []data.LayerPart
 		var topInfill []data.LayerPart
diff --git a/modifier/internal_infill.go b/modifier/internal_infill.go
index bf9ccbe..c871d9f 100644
--- a/modifier/internal_infill.go
+++ b/modifier/internal_infill.go
@@ -27,9 +27,13 @@ func NewInternalInfillModifier(options *data.Options) handler.LayerModifier {
 func (m internalInfillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// nothing to fill in this layer
+			continue
+		}
 
 		bottomInfill, err := BottomInfill(layers[layerNr])
 		if err != nil {
-- 
2.43.0


From 4d66fac2e8fcb86b1b90b5b7cbcef4f30ccb142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 15/41] fix: modifier: generate the brim around all outlines of
 a split outer perimeter

---
 modifier/brim.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index c775d1c..353ca62 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -91,10 +91,8 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 
 	for _, part := range perimeters {
 		for _, wall := range part {
-			if len(wall) > 0 {
-				// wall[0] is the outer perimeter
-				allOuterPerimeters = append(allOuterPerimeters, wall[0])
-			}
+			// the outer perimeter may be split into several outlines
+			allOuterPerimeters = append(allOuterPerimeters, wall...)
 		}
 	}
 
-- 
2.43.0


From bd9faa6b971622df8e0c6792f7602912ad742ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 16/41] fix: modifier: use the whole threshold angle to detect
 the support

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 89045b4..3a270c5 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -89,7 +89,7 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 
 		// offset layer by d
 		cl := clip.NewClipper()
-		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, -data.Micrometer(-math.Round(distance))/2).ToOneDimension()
+		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, data.Micrometer(math.Round(distance))).ToOneDimension()
 
 		// subtract result from the next layer
 		support, ok := cl.Difference(layers[layerNr+1].LayerParts(), offsetLayer)
-- 
2.43.0


From f35ea8b3e163a4f9c72414738dada3d746a3eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 17/41] fix: modifier: keep the whole support gap to the model

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 3a270c5..fe9930d 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -169,7 +169,7 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// make the layer a bit bigger to create a gap between the support and the model
-		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()/2).ToOneDimension()
+		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()).ToOneDimension()
 
 		// subtract the model from the result
 		actualSupport, ok := cl.Difference(result, biggerLayer)
-- 
2.43.0


From caa0db457e4bf84739a8618f556f7cf3560a57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 18/41] fix: clip: overlapping parts must not cancel each other
 out

---
 clip/clip.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index f56c553..c7df7b1 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -166,6 +166,21 @@ func clipperPath(p data.Path) clipper.Path {
 	return result
 }
 
+// orientedPaths converts the outline and the holes of the part to clipper paths
+// where the outline has a positive and all holes have a negative orientation.
+func orientedPaths(part data.LayerPart) clipper.Paths {
+	paths := append(clipper.Paths{clipperPath(part.Outline())}, clipperPaths(part.Holes())...)
+	for i, path := range paths {
+		if isOutline := i == 0; clipper.Orientation(path) != isOutline {
+			for a, b := 0, len(path)-1; a < b; a, b = a+1, b-1 {
+				path[a], path[b] = path[b], path[a]
+			}
+		}
+	}
+
+	return paths
+}
+
 // microPoint converts the external clipper lib representation of a point
 // to the representation which is used by GoSlice.
 func microPoint(p *clipper.IntPoint) data.MicroPoint {
@@ -315,13 +330,11 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 	cl := clipper.NewClipper(clipper.IoNone)
 	anyPath := false
 	for _, part := range parts {
-		anyPath = cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) || anyPath
-		anyPath = cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true) || anyPath
+		anyPath = cl.AddPaths(orientedPaths(part), clipper.PtSubject, true) || anyPath
 	}
 
 	for _, intersect := range toClip {
-		anyPath = cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true) || anyPath
-		anyPath = cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true) || anyPath
+		anyPath = cl.AddPaths(orientedPaths(intersect), clipper.PtClip, true) || anyPath
 	}
 
 	if !anyPath {
@@ -329,7 +342,8 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 		return nil, true
 	}
 
-	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
+	// even-odd would remove the areas where several parts overlap each other
+	tree, ok := cl.Execute2(clipType, clipper.PftPositive, clipper.PftPositive)
 
 	if !ok {
 		return nil, ok
-- 
2.43.0


From a8fc0aa0e0eaa6f6e6f9ed670efd125f26e387a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 19/41] fix: reader: do not ignore errors while reading the
 model

---
 reader/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reader/reader.go b/reader/reader.go
index bd2ef49..24d7150 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -116,7 +116,12 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	stl.CopyFile(filename, model)
+	if err := stl.CopyFile(filename, model); err != nil {
+		return nil, err
+	}
+	if len(model.faces) == 0 {
+		return nil, errors.New("the model does not contain any face")
+	}
 	return model, nil
 }
 
-- 
2.43.0


From c96e6c00cbf9e5e8d3f8d7408b5a50cc67dc4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 20/41] fix: reader: reject coordinates which are no usable
 numbers

---
 reader/reader.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/reader/reader.go b/reader/reader.go
index 24d7150..ce92b82 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -2,6 +2,7 @@ package reader
 
 import (
 	"errors"
+	"fmt"
 	"os"
 
 	"github.com/aligator/goslice/data"
@@ -9,6 +10,9 @@ import (
 	"github.com/hschendel/stl"
 )
 
+// maxCoordinate is the biggest usable coordinate in millimeter (1km).
+const maxCoordinate = 1e6
+
 // face is a 3d triangle face defined by three 3d vectors.
 type face struct {
 	vectors [3]data.MicroVec3
@@ -20,6 +24,7 @@ func (f face) Points() [3]data.MicroVec3 {
 
 type Model struct {
 	faces []data.Face
+	err   error
 }
 
 func (m *Model) SetName(name string) {
@@ -43,6 +48,16 @@ func (m *Model) SetTriangleCount(n uint32) {
 }
 
 func (m *Model) AppendTriangle(t stl.Triangle) {
+	for _, vertex := range t.Vertices {
+		for _, v := range vertex {
+			// NaN does not fulfill any comparison
+			if !(v >= -maxCoordinate && v <= maxCoordinate) {
+				m.err = fmt.Errorf("the model contains an unusable coordinate: %v", v)
+				return
+			}
+		}
+	}
+
 	m.faces = append(m.faces, stlTriangleToFace(t))
 }
 
@@ -119,6 +134,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if err := stl.CopyFile(filename, model); err != nil {
 		return nil, err
 	}
+	if model.err != nil {
+		return nil, model.err
+	}
 	if len(model.faces) == 0 {
 		return nil, errors.New("the model does not contain any face")
 	}
-- 
2.43.0


From 73a0aeae70f3cd5724b916e861068881ae7f1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 21/41] fix: optimizer: return an error instead of crashing if
 no face is left

---
 optimizer/optimizer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index a8ae8ef..5162ec7 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -22,6 +22,8 @@
 package optimizer
 
 import (
+	"errors"
+
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
 )
@@ -122,6 +124,10 @@ FacesLoop:
 		om.faces = append(om.faces, optimizedFace)
 	}
 
+	if len(om.faces) == 0 {
+		return nil, errors.New("the model does not contain any usable face")
+	}
+
 	// count open faces
 	openFaces := 0
 	for i, face := range om.faces {
-- 
2.43.0


From e668cf80c245308b8347d57c799d2c13e152344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 22/41] fix: return an error for options which can not be
 sliced instead of crashing or hanging

---
 clip/linear.go          | 4 ++++
 gcode/renderer/layer.go | 5 +++++
 modifier/perimeter.go   | 7 +++++++
 modifier/support.go     | 5 +++++
 optimizer/optimizer.go  | 4 ++++
 slicer/slicer.go        | 4 ++++
 6 files changed, 29 insertions(+)

diff --git a/clip/linear.go b/clip/linear.go
index 8c9c18a..c6af2ff 100644
--- a/clip/linear.go
+++ b/clip/linear.go
@@ -36,6 +36,10 @@ func NewLinearPattern(lineWidth data.Micrometer, lineDistance data.Micrometer, m
 
 // Fill implements the Pattern interface by using simple linear lines as infill.
 func (p linear) Fill(layerNr int, part data.LayerPart) (data.Paths, error) {
+	if p.lineDistance < 1 {
+		return nil, errors.New("the distance of the infill lines has to be positive")
+	}
+
 	rotation := float64(p.degree)
 
 	// for rectlinear fill patterns rotate each 2nd layer by 90 degree.
diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 1a205a4..03cc253 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -3,6 +3,7 @@
 package renderer
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -23,6 +24,10 @@ type PreLayer struct{}
 func (PreLayer) Init(model data.OptimizedModel) {}
 
 func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, options *data.Options) error {
+	if options.Filament.FilamentDiameter < 1 {
+		return errors.New("the filament diameter has to be positive")
+	}
+
 	if layerNr == 0 {
 		b.AddComment("Generated with GoSlice")
 		b.AddComment("______________________")
diff --git a/modifier/perimeter.go b/modifier/perimeter.go
index ac13042..c61c633 100644
--- a/modifier/perimeter.go
+++ b/modifier/perimeter.go
@@ -61,6 +61,13 @@ func Perimeters(layer data.PartitionedLayer) (clip.OffsetResult, error) {
 func (m perimeterModifier) Init(_ data.OptimizedModel) {}
 
 func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
+	if m.options.Printer.ExtrusionWidth < 1 {
+		return errors.New("the extrusion width has to be positive")
+	}
+	if m.options.Print.InsetCount < 1 {
+		return errors.New("at least one perimeter is needed")
+	}
+
 	for layerNr := range layers {
 		// Generate the perimeters.
 		c := clip.NewClipper()
diff --git a/modifier/support.go b/modifier/support.go
index fe9930d..35a2751 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -72,6 +72,11 @@ func NewSupportDetectorModifier(options *data.Options) handler.LayerModifier {
 }
 
 func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
+	support := m.options.Print.Support
+	if support.Enabled && (support.TopGapLayers < 0 || support.InterfaceLayers < 0 || support.ThresholdAngle < 0 || support.ThresholdAngle >= 90) {
+		return errors.New("the support needs an angle from 0 to 89 and no negative layer count")
+	}
+
 	for layerNr := range layers {
 		if !m.options.Print.Support.Enabled {
 			return nil
diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index 5162ec7..8bcfa7a 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -43,6 +43,10 @@ func NewOptimizer(options *data.Options) handler.ModelOptimizer {
 type pointHash uint
 
 func (o optimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
+	if o.options.Slicing.MeldDistance < 1 {
+		return nil, errors.New("the meld distance has to be positive")
+	}
+
 	om := &optimizedModel{}
 
 	// map of same faces grouped by their calculated hash
diff --git a/slicer/slicer.go b/slicer/slicer.go
index 957fc36..a7d4fdb 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -32,6 +32,10 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
+	if s.options.Print.InitialLayerThickness < 1 || s.options.Print.LayerThickness < 1 {
+		return nil, errors.New("the layer thickness has to be positive")
+	}
+
 	// The model may be placed above or below z = 0 (see the center option), so its final top is what counts.
 	top := m.Max().Z()
 	if top < s.options.Print.InitialLayerThickness {
-- 
2.43.0


From bb8afbe70e0bfe43a3322047002f146124596264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 23/41] fix: gcode: do not cut off the fraction of the speeds

---
 gcode/builder.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 3a020fc..68bb78b 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -21,9 +21,9 @@ type Builder struct {
 	notFirstMoveX                                               bool
 	notFirstMoveY                                               bool
 	notFirstMoveZ                                               bool
-	moveSpeed, extrudeSpeed, currentSpeed, extrudeSpeedOverride int
+	moveSpeed, extrudeSpeed, currentSpeed, extrudeSpeedOverride data.Millimeter
 
-	retractionSpeed  int
+	retractionSpeed  data.Millimeter
 	retractionAmount data.Millimeter
 	zHopOnRetract    data.Millimeter
 
@@ -51,15 +51,15 @@ func (g *Builder) SetExtrusion(layerThickness, lineWidth data.Micrometer) {
 }
 
 func (g *Builder) SetMoveSpeed(moveSpeed data.Millimeter) {
-	g.moveSpeed = int(moveSpeed)
+	g.moveSpeed = moveSpeed
 }
 
 func (g *Builder) SetExtrudeSpeed(extrudeSpeed data.Millimeter) {
-	g.extrudeSpeed = int(extrudeSpeed)
+	g.extrudeSpeed = extrudeSpeed
 }
 
 func (g *Builder) SetExtrudeSpeedOverride(extrudeSpeed data.Millimeter) {
-	g.extrudeSpeedOverride = int(extrudeSpeed)
+	g.extrudeSpeedOverride = extrudeSpeed
 }
 
 func (g *Builder) DisableExtrudeSpeedOverride() {
@@ -67,7 +67,7 @@ func (g *Builder) DisableExtrudeSpeedOverride() {
 }
 
 func (g *Builder) SetRetractionSpeed(retractionSpeed data.Millimeter) {
-	g.retractionSpeed = int(retractionSpeed)
+	g.retractionSpeed = retractionSpeed
 }
 
 func (g *Builder) SetRetractionAmount(retractionAmount data.Millimeter) {
@@ -90,7 +90,7 @@ func (g *Builder) AddComment(comment string, args ...interface{}) {
 	g.buf.WriteString(comment)
 }
 
-func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed int) {
+func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed data.Millimeter) {
 	notFirstMove := g.notFirstMoveX || g.notFirstMoveY || g.notFirstMoveZ
 	// Ignore moves which are of zero length.
 	if notFirstMove && g.currentPosition.X() == p.X() && g.currentPosition.Y() == p.Y() && g.currentPosition.Z() == p.Z() && extrusion == 0 {
@@ -117,7 +117,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 	}
 
 	if g.currentSpeed != speed {
-		g.buf.WriteString(fmt.Sprintf(" F%v", speed*60))
+		g.buf.WriteString(fmt.Sprintf(" F%0.0f", speed*60))
 		g.currentSpeed = speed
 	}
 
@@ -132,7 +132,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 
 func (g *Builder) AddMove(p data.MicroVec3, extrusion data.Millimeter) {
 
-	var speed int
+	var speed data.Millimeter
 	if extrusion != 0 {
 		if g.extrudeSpeedOverride <= 0 {
 			speed = g.extrudeSpeed
-- 
2.43.0


From ecd54ba71427cb0322ba426d0f9aee5b7b68c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 24/41] fix: modifier: without a top gap the topmost support
 was not cut by the model

---
 modifier/support.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index 35a2751..0320398 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -139,8 +139,8 @@ func NewSupportGeneratorModifier(options *data.Options) handler.LayerModifier {
 func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 	var lastSupport []data.LayerPart = nil
 
-	// for each layer starting at the 2nd top layer (the top layer won't need support)
-	for layerNr := len(layers) - 2; layerNr >= 0; layerNr-- {
+	// for each layer starting at the top layer (as always the support for the layer below is generated)
+	for layerNr := len(layers) - 1; layerNr >= 0; layerNr-- {
 		if !m.options.Print.Support.Enabled || layerNr == 0 {
 			return nil
 		}
-- 
2.43.0


From be8ecf2ffbf315d40cb256a6b5be1149dcec7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 25/41] fix: modifier: no interface layers means no support
 interface

---
 modifier/support.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modifier/support.go b/modifier/support.go
index 0320398..7345f06 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -201,6 +201,11 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 				return err
 			}
 
+			if m.options.Print.Support.InterfaceLayers == 0 {
+				// the support of the own layer leaves nothing for the interface
+				supportAboveInterface = actualSupport
+			}
+
 			interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
 			if !ok {
 				return errors.New("error while calculating interface parts")
-- 
2.43.0


From ce49f00a3f4346dcbb4983742a786aa43ce8dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:00 +0000
Subject: [PATCH 26/41] fix: clip: remove needles without area from the insets

---
 clip/clip.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index c7df7b1..193ed19 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -3,6 +3,8 @@
 package clip
 
 import (
+	"math"
+
 	"github.com/aligator/goslice/data"
 
 	clipper "github.com/aligator/go.clipper"
@@ -302,7 +304,7 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 			// the part has no area, so there is nothing which could be offset
 			allNewInsets = clipper.NewPolyTree()
 		}
-		insets = append(insets, polyTreeToLayerParts(allNewInsets))
+		insets = append(insets, removeSpikes(polyTreeToLayerParts(allNewInsets)))
 
 		currentOffset += float64(-int(offset))
 	}
@@ -310,6 +312,58 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 	return insets
 }
 
+// removeSpikes removes all needles which are thinner than the rounding error from the outlines and holes.
+// Clipper leaves such needles, which may even lie outside of the part, if a part gets inset by exactly the half of its width.
+func removeSpikes(parts []data.LayerPart) []data.LayerPart {
+	var result []data.LayerPart
+	for _, part := range parts {
+		outline := removePathSpikes(part.Outline())
+		if len(outline) < 3 {
+			continue
+		}
+
+		var holes data.Paths
+		for _, hole := range part.Holes() {
+			if hole = removePathSpikes(hole); len(hole) >= 3 {
+				holes = append(holes, hole)
+			}
+		}
+
+		result = append(result, data.NewBasicLayerPart(outline, holes))
+	}
+
+	return result
+}
+
+// removePathSpikes removes the tips of all needles of the closed path.
+func removePathSpikes(path data.Path) data.Path {
+	for i, checked := 0, 0; len(path) >= 3 && checked < len(path); {
+		i %= len(path)
+		if !isSpike(path[(i+len(path)-1)%len(path)], path[i], path[(i+1)%len(path)]) {
+			i, checked = i+1, checked+1
+			continue
+		}
+
+		// without the tip also the points around it may be a tip
+		path = append(append(data.Path{}, path[:i]...), path[i+1:]...)
+		i, checked = i+len(path)-1, 0
+	}
+
+	return path
+}
+
+// isSpike returns true if the path turns back at the tip, so that it runs (almost) along itself.
+func isSpike(previous, tip, next data.MicroPoint) bool {
+	a, b := previous.Sub(tip), next.Sub(tip)
+	if data.DotProduct(a, b) <= 0 {
+		return a.Size2() == 0 || b.Size2() == 0
+	}
+
+	// the distance of the end of the shorter side to the longer side
+	cross := float64(a.X())*float64(b.Y()) - float64(a.Y())*float64(b.X())
+	return math.Abs(cross) < 2*math.Sqrt(float64(data.Max(a.Size2(), b.Size2())))
+}
+
 func (c clipperClipper) Difference(parts []data.LayerPart, toRemove []data.LayerPart) (clippedParts []data.LayerPart, ok bool) {
 	return c.runClipper(clipper.CtDifference, parts, toRemove)
 }
-- 
2.43.0


From db7610f0c4c26f48a0c09936de25ef16f846c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 27/41] clip: assign holes to the outline which really
 surrounds them

---
 clip/clip.go | 74 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 193ed19..d0c8caa 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -242,38 +242,70 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 }
 
 // polyTreeToLayerParts creates layer parts out of a poly tree (which is the result of clipper's Execute2).
+//
+// Only the contours of the tree are used but not its nesting,
+// because clipper may link a hole to a wrong outline if several contours touch each other.
 func polyTreeToLayerParts(tree *clipper.PolyTree) []data.LayerPart {
-	var layerParts []data.LayerPart
+	var outlines, holes clipper.Paths
 
-	var polysForNextRound []*clipper.PolyNode
+	nodes := append([]*clipper.PolyNode{}, tree.Childs()...)
+	for i := 0; i < len(nodes); i++ {
+		nodes = append(nodes, nodes[i].Childs()...)
 
-	for _, c := range tree.Childs() {
-		polysForNextRound = append(polysForNextRound, c)
+		if contour := nodes[i].Contour(); clipper.Orientation(contour) {
+			outlines = append(outlines, contour)
+		} else {
+			holes = append(holes, contour)
+		}
 	}
-	for {
-		if polysForNextRound == nil {
-			break
+
+	holesOf := make([]data.Paths, len(outlines))
+	for _, hole := range holes {
+		if i := surroundingOutline(outlines, hole); i >= 0 {
+			// TODO: simplify, yes / no ??
+			holesOf[i] = append(holesOf[i], microPath(hole, false))
 		}
-		thisRound := polysForNextRound
-		polysForNextRound = nil
+	}
 
-		for _, p := range thisRound {
-			var holes data.Paths
+	var layerParts []data.LayerPart
+	for i, outline := range outlines {
+		// TODO: simplify, yes / no ??
+		layerParts = append(layerParts, data.NewBasicLayerPart(microPath(outline, false), holesOf[i]))
+	}
 
-			for _, child := range p.Childs() {
-				// TODO: simplify, yes / no ??
-				holes = append(holes, microPath(child.Contour(), false))
-				for _, c := range child.Childs() {
-					polysForNextRound = append(polysForNextRound, c)
-				}
-			}
+	return layerParts
+}
 
-			// TODO: simplify, yes / no ??
-			layerParts = append(layerParts, data.NewBasicLayerPart(microPath(p.Contour(), false), holes))
+// surroundingOutline returns the index of the smallest outline around the hole or -1 if there is none.
+func surroundingOutline(outlines clipper.Paths, hole clipper.Path) int {
+	if len(outlines) == 1 {
+		return 0
+	}
+
+	result := -1
+	for i, outline := range outlines {
+		if (result < 0 || clipper.Area(outline) < clipper.Area(outlines[result])) && isInside(hole, outline) {
+			result = i
 		}
 	}
 
-	return layerParts
+	return result
+}
+
+// isInside returns true if the hole lies inside of the outline.
+// As they may touch but not cross each other, it either lies inside or outside with (except of rounding errors) its whole area.
+func isInside(hole, outline clipper.Path) bool {
+	if clipper.Area(outline) < -clipper.Area(hole) {
+		return false
+	}
+
+	cl := clipper.NewClipper(clipper.IoNone)
+	if !cl.AddPath(hole, clipper.PtSubject, true) || !cl.AddPath(outline, clipper.PtClip, true) {
+		return false
+	}
+
+	common, ok := cl.Execute1(clipper.CtIntersection, clipper.PftNonZero, clipper.PftNonZero)
+	return ok && clipper.AreaCombined(common) > -clipper.Area(hole)/2
 }
 
 func (c clipperClipper) InsetLayer(layer []data.LayerPart, offset data.Micrometer, insetCount int, initialOffset data.Micrometer) OffsetResult {
-- 
2.43.0


From fceaaba10b5b26c1e440d70a181466bb2c4f8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 28/41] fix: clip: needles which are inside out must not tear
 holes into the insets

---
 clip/clip.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index d0c8caa..533ec8d 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -324,11 +324,17 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 
 	currentOffset := float64(initialOffset)
 
+	// Due to rounding the needles of a part may be inside out, which would tear big holes into the offset part.
+	var cleanOutline, cleanHoles data.Paths
+	for _, cleanPart := range removeSpikes([]data.LayerPart{part}) {
+		cleanOutline, cleanHoles = data.Paths{cleanPart.Outline()}, cleanPart.Holes()
+	}
+
 	for insetNr := 0; insetNr < insetCount; insetNr++ {
 		// insets for the outline
 		co.Clear()
-		co.AddPaths(clipperPaths(data.Paths{part.Outline()}), clipper.JtSquare, clipper.EtClosedPolygon)
-		co.AddPaths(clipperPaths(part.Holes()), clipper.JtSquare, clipper.EtClosedPolygon)
+		co.AddPaths(clipperPaths(cleanOutline), clipper.JtSquare, clipper.EtClosedPolygon)
+		co.AddPaths(clipperPaths(cleanHoles), clipper.JtSquare, clipper.EtClosedPolygon)
 
 		co.MiterLimit = 2
 		allNewInsets := co.Execute2(currentOffset)
-- 
2.43.0


From e481c3d27e6edeb8e1d95bc3af626632bafe7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:07 +0000
Subject: [PATCH 29/41] fix: clip: do not connect two infill lines by running
 over one of them again

---
 clip/linear.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clip/linear.go b/clip/linear.go
index c6af2ff..251981f 100644
--- a/clip/linear.go
+++ b/clip/linear.go
@@ -142,7 +142,8 @@ func (p linear) sortInfill(unsorted data.Paths, zigZag bool, part data.LayerPart
 				p1 := sorted[len(sorted)-1][1]
 				p2 := unsorted[lastIndex][1-lastPoint]
 
-				if p1.Sub(p2).ShorterThanOrEqual(p.lineWidth + p.lineDistance*2) {
+				// A connection between two lines at the same position would only run over one of them a second time.
+				if p1.X() != p2.X() && p1.Sub(p2).ShorterThanOrEqual(p.lineWidth+p.lineDistance*2) {
 
 					connectionLine := []data.MicroPoint{p1, p2}
 
-- 
2.43.0


From 3f8a218eb37e92adc2ce36992c667a9b49519778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 30/41] fix: reader: read all solids of an ASCII file, not only
 the first one

---
 reader/reader.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/reader/reader.go b/reader/reader.go
index ce92b82..6a5d936 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -1,9 +1,12 @@
 package reader
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"os"
+	"regexp"
 
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
@@ -24,6 +27,7 @@ func (f face) Points() [3]data.MicroVec3 {
 
 type Model struct {
 	faces []data.Face
+	ascii bool
 	err   error
 }
 
@@ -38,8 +42,7 @@ func (m *Model) SetBinaryHeader(header []byte) {
 }
 
 func (m *Model) SetASCII(isASCII bool) {
-	// not used yet
-	return
+	m.ascii = isASCII
 }
 
 func (m *Model) SetTriangleCount(n uint32) {
@@ -134,6 +137,11 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if err := stl.CopyFile(filename, model); err != nil {
 		return nil, err
 	}
+	if model.ascii {
+		if err := copyFurtherSolids(filename, model); err != nil {
+			return nil, err
+		}
+	}
 	if model.err != nil {
 		return nil, model.err
 	}
@@ -143,6 +151,32 @@ func (r reader) Read(filename string) (data.Model, error) {
 	return model, nil
 }
 
+var (
+	// The first line of a solid contains only its name.
+	endOfSolid   = regexp.MustCompile(`^.*\n(?s:.*?\s)??endsolid([ \t\r].*)?(\n|$)`)
+	startOfSolid = regexp.MustCompile(`^\s*solid[ \t\r\n]`)
+)
+
+// copyFurtherSolids adds all solids of an ASCII file but the first one to the model,
+// as the stl package stops reading at the end of the first one.
+func copyFurtherSolids(filename string, model *Model) error {
+	content, err := ioutil.ReadFile(filename)
+	if err != nil {
+		return err
+	}
+
+	for {
+		end := endOfSolid.FindIndex(content)
+		if end == nil || !startOfSolid.Match(content[end[1]:]) {
+			return nil
+		}
+		content = bytes.TrimLeft(content[end[1]:], " \t\r\n")
+		if err := stl.CopyAll(bytes.NewReader(content), model); err != nil {
+			return err
+		}
+	}
+}
+
 // stlTriangleToFace converts a triangle from the stl package
 // into a face.
 func stlTriangleToFace(t stl.Triangle) face {
-- 
2.43.0


From e0f11b94214172dffe3d873456f6c72b07852a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:17 +0000
Subject: [PATCH 31/41] fix: reader: refuse facets with a broken start instead
 of losing them

---
 reader/reader.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/reader/reader.go b/reader/reader.go
index 6a5d936..1fddfd7 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -153,24 +153,36 @@ func (r reader) Read(filename string) (data.Model, error) {
 
 var (
 	// The first line of a solid contains only its name.
-	endOfSolid   = regexp.MustCompile(`^.*\n(?s:.*?\s)??endsolid([ \t\r].*)?(\n|$)`)
+	wholeSolid   = regexp.MustCompile(`^.*\n((?s:.*?\s)??)endsolid([ \t\r].*)?(\n|$)`)
 	startOfSolid = regexp.MustCompile(`^\s*solid[ \t\r\n]`)
+	endOfFacet   = regexp.MustCompile(`\sendfacet\s`)
 )
 
 // copyFurtherSolids adds all solids of an ASCII file but the first one to the model,
 // as the stl package stops reading at the end of the first one.
+// It also detects the facets the stl package skips because they do not start with "facet".
 func copyFurtherSolids(filename string, model *Model) error {
 	content, err := ioutil.ReadFile(filename)
 	if err != nil {
 		return err
 	}
 
+	facets := 0
 	for {
-		end := endOfSolid.FindIndex(content)
-		if end == nil || !startOfSolid.Match(content[end[1]:]) {
+		solid := wholeSolid.FindSubmatchIndex(content)
+		if solid == nil {
+			return errors.New("the model contains an incomplete solid")
+		}
+		facets += len(endOfFacet.FindAllIndex(content[solid[2]:solid[3]], -1))
+		if facets != len(model.faces) && model.err == nil {
+			return errors.New("the model contains a facet without a start")
+		}
+
+		content = content[solid[1]:]
+		if !startOfSolid.Match(content) {
 			return nil
 		}
-		content = bytes.TrimLeft(content[end[1]:], " \t\r\n")
+		content = bytes.TrimLeft(content, " \t\r\n")
 		if err := stl.CopyAll(bytes.NewReader(content), model); err != nil {
 			return err
 		}
-- 
2.43.0


From 818585abc81e853b71060efa09fbbf721fed5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:19 +0000
Subject: [PATCH 32/41] fix: writer: do not ignore the error of closing the
 file

---
 writer/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 25c5d3d..3b402df 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -18,8 +18,11 @@ func (w writer) Write(gcode string, filename string) error {
 		return err
 	}
 
-	defer buf.Close()
-
 	_, err = buf.WriteString(gcode)
+
+	// Some file systems report only now that the data could not be saved.
+	if closeErr := buf.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
-- 
2.43.0


From 3a9fb98a9e38a1f0c59b51259bfbceae351b73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:53 +0000
Subject: [PATCH 33/41] fix: data: an empty line must not crash
 GetInstructionCode

---
 data/option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index 91852e1..70aa410 100644
--- a/data/option.go
+++ b/data/option.go
@@ -141,7 +141,7 @@ func (gch GCodeHunk) GetInstructionCode() []string {
 	var codes []string
 	for _, instruction := range gch.GCodeLines {
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
-		if code[0] == 'G' || code[0] == 'M' {
+		if strings.HasPrefix(code, "G") || strings.HasPrefix(code, "M") {
 			codes = append(codes, code)
 		}
 	}
-- 
2.43.0


From 3296e55a836d4aebd630b03891e5d1116639ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:26 +0000
Subject: [PATCH 34/41] fix: gcode: refuse speeds and retractions which are no
 usable numbers

---
 gcode/renderer/layer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 03cc253..514b255 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -5,6 +5,7 @@ package renderer
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/aligator/goslice/data"
@@ -27,6 +28,17 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 	if options.Filament.FilamentDiameter < 1 {
 		return errors.New("the filament diameter has to be positive")
 	}
+	for _, speed := range []data.Millimeter{options.Print.IntialLayerSpeed, options.Print.LayerSpeed, options.Print.OuterPerimeterSpeed, options.Print.MoveSpeed} {
+		// NaN does not fulfill any comparison
+		if !(speed > 0 && speed <= math.MaxFloat32) {
+			return errors.New("the speeds have to be positive")
+		}
+	}
+	for _, retraction := range []data.Millimeter{options.Filament.RetractionSpeed, options.Filament.RetractionLength, options.Filament.RetractionZHop} {
+		if !(retraction >= 0 && retraction <= math.MaxFloat32) {
+			return errors.New("the retraction can not be negative")
+		}
+	}
 
 	if layerNr == 0 {
 		b.AddComment("Generated with GoSlice")
-- 
2.43.0


From 6756210ad27f0171673cc6012954927cf88541e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 35/41] fix: refuse distances and speeds which are no usable
 numbers instead of crashing

---
 gcode/renderer/layer.go | 4 ++--
 gcode/renderer/skirt.go | 6 ++++++
 modifier/support.go     | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 514b255..ea3cde2 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -29,8 +29,8 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 		return errors.New("the filament diameter has to be positive")
 	}
 	for _, speed := range []data.Millimeter{options.Print.IntialLayerSpeed, options.Print.LayerSpeed, options.Print.OuterPerimeterSpeed, options.Print.MoveSpeed} {
-		// NaN does not fulfill any comparison
-		if !(speed > 0 && speed <= math.MaxFloat32) {
+		// NaN does not fulfill any comparison, the division is needed because the program uses mm per minute
+		if !(speed > 0 && speed <= math.MaxFloat32/60) {
 			return errors.New("the speeds have to be positive")
 		}
 	}
diff --git a/gcode/renderer/skirt.go b/gcode/renderer/skirt.go
index 0d3f988..4e71bf8 100644
--- a/gcode/renderer/skirt.go
+++ b/gcode/renderer/skirt.go
@@ -4,6 +4,7 @@ package renderer
 
 import (
 	"errors"
+
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/gcode"
@@ -27,6 +28,11 @@ func (Skirt) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.Part
 	}
 
 	if layerNr == 0 {
+		// NaN does not fulfill any comparison
+		if d := options.Print.BrimSkirt.SkirtDistance; !(d >= -1e6 && d <= 1e6) {
+			return errors.New("the skirt distance is no usable number")
+		}
+
 		// Get the perimeters and support to base the hull (line around everything) on them.
 		perimeters, err := modifier.Perimeters(layer)
 		if err != nil {
diff --git a/modifier/support.go b/modifier/support.go
index 7345f06..774510c 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -76,6 +76,10 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 	if support.Enabled && (support.TopGapLayers < 0 || support.InterfaceLayers < 0 || support.ThresholdAngle < 0 || support.ThresholdAngle >= 90) {
 		return errors.New("the support needs an angle from 0 to 89 and no negative layer count")
 	}
+	// NaN does not fulfill any comparison
+	if support.Enabled && !(support.Gap >= -1e6 && support.Gap <= 1e6 && support.PatternSpacing >= -1e6 && support.PatternSpacing <= 1e6) {
+		return errors.New("the support gap or the pattern spacing is no usable number")
+	}
 
 	for layerNr := range layers {
 		if !m.options.Print.Support.Enabled {
-- 
2.43.0


From 43a986210f28b750479e978bdbd253f63bb5183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:42 +0000
Subject: [PATCH 36/41] fix: data: smoothing must not cut off what lies beyond
 the ends of a line

---
 data/2d.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/data/2d.go b/data/2d.go
index 7495964..cd23a86 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -28,6 +28,19 @@ func PerpendicularDistance2(a, b, point MicroPoint) Micrometer {
 	return Max(0, vecAP.Size2()-axSize2)
 }
 
+// distanceToSegment2 calculates the (shortest distance)^2 of a point to the line segment from a to b.
+// In contrast to the perpendicular distance it does not ignore how far the point is beyond the ends of the segment.
+func distanceToSegment2(a, b, point MicroPoint) Micrometer {
+	if vecAP := point.Sub(a); DotProduct(b.Sub(a), vecAP) < 0 {
+		return vecAP.Size2()
+	}
+	if vecBP := point.Sub(b); DotProduct(a.Sub(b), vecBP) < 0 {
+		return vecBP.Size2()
+	}
+
+	return PerpendicularDistance2(a, b, point)
+}
+
 // douglasPeucker accepts a list of points and epsilon as threshold, simplifies a path by dropping
 // points that do not pass threshold values.
 func douglasPeucker(points Path, ep Micrometer, depth int) Path {
@@ -53,10 +66,7 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 
 func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, maxDist Micrometer) {
 	for i := 0; i < len(points); i++ {
-
-		// TODO: check usage of 'Shortest Distance' from a point to a line segment
-		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
-		d := PerpendicularDistance2(p1, p2, points[i])
+		d := distanceToSegment2(p1, p2, points[i])
 		if d > maxDist {
 			maxDist = d
 			idx = i
-- 
2.43.0


From 71e592e2a0c1e18ce68ce0cab5f00580dc08d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:13 +0000
Subject: [PATCH 37/41] fix: slicer: follow the contour to the nearest segment,
 not back along segments shorter than the meld distance

---
 slicer/layer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slicer/layer.go b/slicer/layer.go
index 3d792f4..0d5ed36 100644
--- a/slicer/layer.go
+++ b/slicer/layer.go
@@ -59,6 +59,7 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 			polygon = append(polygon, p0)
 
 			nextIndex := -1
+			var nextDistance data.Micrometer
 			// get the whole face for the index
 			face := om.OptimizedFace(l.segments[currentSegmentIndex].faceIndex)
 
@@ -70,7 +71,8 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 			// * check if it is the same segment as the starting segment of this round
 			//   -> close it as a slicePolygon is finished
 			// * if the segment is already added just continue
-			// then set the next index to the touching segment
+			// then set the next index to the touching segment which starts nearest to p0
+			// (also the previous segment may start near p0, if the segments are shorter than the threshold)
 			for _, touchingFaceIndex := range face.TouchingFaceIndices() {
 				touchingSegmentIndex, ok := l.faceToSegmentIndex[touchingFaceIndex]
 				if touchingFaceIndex > -1 && ok {
@@ -84,7 +86,10 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 						if l.segments[touchingSegmentIndex].addedToPolygon {
 							continue
 						}
-						nextIndex = touchingSegmentIndex
+						if distance := diff.Size2(); nextIndex == -1 || distance < nextDistance {
+							nextIndex = touchingSegmentIndex
+							nextDistance = distance
+						}
 					}
 				}
 			}
-- 
2.43.0


From ec29360dcda5e02d90fad10d1c891a880072e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:23 +0000
Subject: [PATCH 38/41] fix: optimizer: center a model in the same way wherever
 it lies in its file

The integer division rounds towards zero, so a model with negative coordinates could be placed one micrometer beside the position it gets after being moved in its file.
---
 optimizer/optimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index 8bcfa7a..d997806 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -161,7 +161,7 @@ FacesLoop:
 	min := m.Min()
 	max := m.Max()
 	// move points according to the center value
-	vectorOffset := data.NewMicroVec3((min.X()+max.X())/2, (min.Y()+max.Y())/2, min.Z())
+	vectorOffset := data.NewMicroVec3(min.X()+(max.X()-min.X())/2, min.Y()+(max.Y()-min.Y())/2, min.Z())
 	vectorOffset = vectorOffset.Sub(o.options.Printer.Center)
 	for i, point := range om.points {
 		om.points[i].pos = point.pos.Sub(vectorOffset)
-- 
2.43.0


From c616f3647dcfddbb4337fd9623d43642a06c0cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:57 +0000
Subject: [PATCH 39/41] fix: options: a refused length does not change the
 option

---
 data/option.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/option.go b/data/option.go
index 70aa410..ff08aad 100644
--- a/data/option.go
+++ b/data/option.go
@@ -21,8 +21,11 @@ func (m Micrometer) String() string {
 
 func (m *Micrometer) Set(s string) error {
 	v, err := strconv.ParseInt(s, 0, 64)
+	if err != nil {
+		return err
+	}
 	*m = Micrometer(v)
-	return err
+	return nil
 }
 
 func (m Micrometer) Type() string {
@@ -35,8 +38,11 @@ func (m Millimeter) String() string {
 
 func (m *Millimeter) Set(s string) error {
 	v, err := strconv.ParseFloat(s, 32)
+	if err != nil {
+		return err
+	}
 	*m = Millimeter(v)
-	return err
+	return nil
 }
 
 func (m Millimeter) Type() string {
-- 
2.43.0


From acd8bf9baae114ed8a888d6cc8dbfcbcc8a13ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:58 +0000
Subject: [PATCH 40/41] fix: data: no vector fits inside a negative length

---
 data/micrometer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/micrometer.go b/data/micrometer.go
index 176798f..3a2eea6 100644
--- a/data/micrometer.go
+++ b/data/micrometer.go
@@ -173,7 +173,7 @@ func (v *microVec3) Max() Micrometer {
 }
 
 func (v *microVec3) ShorterThanOrEqual(length Micrometer) bool {
-	return v.Size2() <= length*length
+	return length >= 0 && v.Size2() <= length*length
 }
 
 func (v *microVec3) Size2() Micrometer {
-- 
2.43.0


From f63373bf9b8c7f8bda190c986f29ab4f4f0c649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:15 +0000
Subject: [PATCH 41/41] fix: clip: remove also needles of an inset whose width
 adds up from several roundings

---
 clip/clip.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 533ec8d..54545af 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -326,7 +326,7 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 
 	// Due to rounding the needles of a part may be inside out, which would tear big holes into the offset part.
 	var cleanOutline, cleanHoles data.Paths
-	for _, cleanPart := range removeSpikes([]data.LayerPart{part}) {
+	for _, cleanPart := range removeSpikes([]data.LayerPart{part}, 2) {
 		cleanOutline, cleanHoles = data.Paths{cleanPart.Outline()}, cleanPart.Holes()
 	}
 
@@ -342,7 +342,8 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 			// the part has no area, so there is nothing which could be offset
 			allNewInsets = clipper.NewPolyTree()
 		}
-		insets = append(insets, removeSpikes(polyTreeToLayerParts(allNewInsets)))
+		// The rounding of three corners, which all lie nearly on one line, adds up in the result.
+		insets = append(insets, removeSpikes(polyTreeToLayerParts(allNewInsets), 4))
 
 		currentOffset += float64(-int(offset))
 	}
@@ -350,19 +351,19 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 	return insets
 }
 
-// removeSpikes removes all needles which are thinner than the rounding error from the outlines and holes.
+// removeSpikes removes all needles which are thinner than the given width (the rounding error) from the outlines and holes.
 // Clipper leaves such needles, which may even lie outside of the part, if a part gets inset by exactly the half of its width.
-func removeSpikes(parts []data.LayerPart) []data.LayerPart {
+func removeSpikes(parts []data.LayerPart, width float64) []data.LayerPart {
 	var result []data.LayerPart
 	for _, part := range parts {
-		outline := removePathSpikes(part.Outline())
+		outline := removePathSpikes(part.Outline(), width)
 		if len(outline) < 3 {
 			continue
 		}
 
 		var holes data.Paths
 		for _, hole := range part.Holes() {
-			if hole = removePathSpikes(hole); len(hole) >= 3 {
+			if hole = removePathSpikes(hole, width); len(hole) >= 3 {
 				holes = append(holes, hole)
 			}
 		}
@@ -374,10 +375,10 @@ func removeSpikes(parts []data.LayerPart) []data.LayerPart {
 }
 
 // removePathSpikes removes the tips of all needles of the closed path.
-func removePathSpikes(path data.Path) data.Path {
+func removePathSpikes(path data.Path, width float64) data.Path {
 	for i, checked := 0, 0; len(path) >= 3 && checked < len(path); {
 		i %= len(path)
-		if !isSpike(path[(i+len(path)-1)%len(path)], path[i], path[(i+1)%len(path)]) {
+		if !isSpike(path[(i+len(path)-1)%len(path)], path[i], path[(i+1)%len(path)], width) {
 			i, checked = i+1, checked+1
 			continue
 		}
@@ -391,7 +392,7 @@ func removePathSpikes(path data.Path) data.Path {
 }
 
 // isSpike returns true if the path turns back at the tip, so that it runs (almost) along itself.
-func isSpike(previous, tip, next data.MicroPoint) bool {
+func isSpike(previous, tip, next data.MicroPoint, width float64) bool {
 	a, b := previous.Sub(tip), next.Sub(tip)
 	if data.DotProduct(a, b) <= 0 {
 		return a.Size2() == 0 || b.Size2() == 0
@@ -399,7 +400,7 @@ func isSpike(previous, tip, next data.MicroPoint) bool {
 
 	// the distance of the end of the shorter side to the longer side
 	cross := float64(a.X())*float64(b.Y()) - float64(a.Y())*float64(b.X())
-	return math.Abs(cross) < 2*math.Sqrt(float64(data.Max(a.Size2(), b.Size2())))
+	return math.Abs(cross) < width*math.Sqrt(float64(data.Max(a.Size2(), b.Size2())))
 }
 
 func (c clipperClipper) Difference(parts []data.LayerPart, toRemove []data.LayerPart) (clippedParts []data.LayerPart, ok bool) {
-- 
2.43.0

