From 9792d8238dfacd11cd90983e659c6c7280513166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 01/29] fix: angle between opposite vectors is 180 even after
 rounding

---
 primitives/vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 6b59534..bb4f7ee 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -82,9 +82,12 @@ func (a Vector) Reverse() Vector {
 
 func (a Vector) Angle(b Vector) float64 {
 	v := a.Dot(b) / a.Length() / b.Length()
-	if v < -1 || v > 1 {
+	if v > 1 { // possible only because of rounding
 		return 0
 	}
+	if v < -1 {
+		return 180
+	}
 	return math.Acos(v) * 180 / math.Pi
 }
 
-- 
2.43.0


From fc3605b7373f01a32e66175e132350bf7f3bc630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 02/29] fix: apply the flow setting to the extruded amount

---
 gcode/cmds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 009be9c..78e451c 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -201,7 +201,7 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 			p1 := p.Points[i-1]
 			p2 := p.Points[i]
 			lDist := math.Sqrt(math.Pow(p2.X-p1.X, 2) + math.Pow(p2.Y-p1.Y, 2) + math.Pow(p2.Z-p1.Z, 2))
-			state.eOff += (4 * sett.LineWidth * sett.LayerHeight * lDist) / (math.Pow(sett.BarDiameter, 2) * math.Pi)
+			state.eOff += (4 * sett.LineWidth * sett.LayerHeight * lDist * sett.Flow) / (math.Pow(sett.BarDiameter, 2) * math.Pi)
 			b.WriteString("G1 " + p2.StringGcode(p1) + " E" + StrF(state.eOff) + "\n")
 		}
 		state.pos = p.Points[len(p.Points)-1]
-- 
2.43.0


From 416d976b986b4294d28582295ca7cde60913c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 03/29] fix: remember where bed commands park the nozzle

---
 gcode/cmds.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 78e451c..577b7b0 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -37,6 +37,9 @@ type Command interface {
 	LayersCount() int
 }
 
+// where bed commands park the nozzle
+var bedMovePos = Point{X: 0, Y: 0, Z: 200}
+
 type InclineXBack struct {
 }
 
@@ -49,6 +52,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 0
+	state.pos = bedMovePos
 	return state
 }
 func (r InclineXBack) LayersCount() int {
@@ -67,6 +71,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 60
+	state.pos = bedMovePos
 	return state
 
 }
@@ -102,6 +107,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t1 = r.Angle
+	state.pos = bedMovePos
 	return state
 
 }
-- 
2.43.0


From 7156ae3a18459184af8e81088e8cd84d3fdc975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 04/29] fix: set the printing speed again after bed commands

---
 gcode/cmds.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 577b7b0..604d44a 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -40,6 +40,9 @@ type Command interface {
 // where bed commands park the nozzle
 var bedMovePos = Point{X: 0, Y: 0, Z: 200}
 
+// feedrate bed commands leave behind
+const bedMoveSpeed = 300
+
 type InclineXBack struct {
 }
 
@@ -53,6 +56,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 0
 	state.pos = bedMovePos
+	state.feedrate = bedMoveSpeed
 	return state
 }
 func (r InclineXBack) LayersCount() int {
@@ -72,6 +76,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 60
 	state.pos = bedMovePos
+	state.feedrate = bedMoveSpeed
 	return state
 
 }
@@ -108,6 +113,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t1 = r.Angle
 	state.pos = bedMovePos
+	state.feedrate = bedMoveSpeed
 	return state
 
 }
-- 
2.43.0


From b4fc854272bc8f5fb257e1568302ca6fa0df0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 05/29] fix: retract relative to the current extruder position
 and push the filament back

---
 gcode/cmds.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 604d44a..60e2674 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -188,12 +188,15 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
+// retractionToGCode moves the filament to ePos (absolute) with the retraction speed.
+func retractionToGCode(state State, sett GcodeSettings, ePos float64, b *bytes.Buffer) State {
 	if !sett.Retraction {
-		return
+		return state
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(ePos) + "\n")
+	state.feedrate = sett.RetractionSpeed
+	return printSpeedToGCode(state, sett, b)
 }
 
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
@@ -205,9 +208,10 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, sett)
+		state = retractionToGCode(state, sett, state.eOff-sett.RetractionDistance, b)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
+		state = retractionToGCode(state, sett, state.eOff, b) // push the filament back
 
 		for i := 1; i < len(p.Points); i++ {
 			p1 := p.Points[i-1]
-- 
2.43.0


From a6b521ee1e0dcd6a898bc37f5359e377fec7900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 06/29] fix: leave out a coordinate only if its printed value
 is unchanged

---
 primitives/point.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 681115b..4307f7a 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -28,15 +28,15 @@ func (a Point) MapKey() Point {
 
 func (a Point) StringGcode(b Point) string {
 	s_form := ""
-	if math.Abs(a.X-b.X) >= 0.001 {
+	if StrF(a.X) != StrF(b.X) {
 		s_form = fmt.Sprintf("%sX%s ", s_form, StrF(a.X))
 	}
 
-	if math.Abs(a.Y-b.Y) >= 0.001 {
+	if StrF(a.Y) != StrF(b.Y) {
 		s_form = fmt.Sprintf("%sY%s ", s_form, StrF(a.Y))
 	}
 
-	if math.Abs(a.Z-b.Z) >= 0.001 {
+	if StrF(a.Z) != StrF(b.Z) {
 		s_form = fmt.Sprintf("%sZ%s", s_form, StrF(a.Z))
 	}
 	return s_form
-- 
2.43.0


From efc02cc4061e1a2d2cf45daac236e492b227ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 07/29] fix: report a failure to write out the end of an STL
 file

---
 primitives/stl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 8cbcddc..9ccaa77 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -142,6 +142,5 @@ func SaveSTL(path string, mesh *Mesh) error {
 			return err
 		}
 	}
-	w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 27ebc8728a5227232863477b27959b975c2232ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 08/29] fix: report a failure to write out the colorized
 triangles

---
 cmd/goosli_colorizer/goosli_colorizer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/goosli_colorizer/goosli_colorizer.go b/cmd/goosli_colorizer/goosli_colorizer.go
index e3aca31..48d28e9 100644
--- a/cmd/goosli_colorizer/goosli_colorizer.go
+++ b/cmd/goosli_colorizer/goosli_colorizer.go
@@ -44,5 +44,8 @@ func main() {
 		log.Fatal("failed to write value of colorize triangles: ", err)
 	}
 
-	w.Flush()
+	err = w.Flush()
+	if err != nil {
+		log.Fatal("failed to write colorize triangles: ", err)
+	}
 }
-- 
2.43.0


From da6ba417bd89cf0c6330cd6487a0c0faa62eff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 09/29] fix: stop when the planes file exists but cannot be
 read

---
 slicers/vip/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 51677c8..6ba83f0 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -2,6 +2,7 @@ package vip
 
 import (
 	"bufio"
+	"log"
 	"os"
 
 	. "github.com/l1va/goosli/primitives"
@@ -68,8 +69,12 @@ func offset(pth Path, addWallsCount int, nozzle float64, norm Vector) []Path {
 
 func readPlanes(f string) []AnalyzedPlane {
 	file, err := os.Open(f)
-	if err != nil {
+	if os.IsNotExist(err) {
 		println("File reading error: " + err.Error())
+		return nil
+	}
+	if err != nil {
+		log.Fatal("failed to open planes file: ", err)
 	}
 	defer file.Close()
 
@@ -80,7 +85,7 @@ func readPlanes(f string) []AnalyzedPlane {
 	}
 
 	if err := scanner.Err(); err != nil {
-		println("Errors during reading: " + err.Error())
+		log.Fatal("failed to read planes file: ", err)
 	}
 	return ans
 }
-- 
2.43.0


From ab46d93cfe84aa8b3ba7688ea4dfcd607b86c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 10/29] fix: leave the debug file alone when debugging is off

---
 debug/debug.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/debug/debug.go b/debug/debug.go
index 7f67e43..64da17a 100644
--- a/debug/debug.go
+++ b/debug/debug.go
@@ -18,6 +18,9 @@ var (
 var cfg = Config()
 
 func RecreateFile() {
+	if !cfg.Debug {
+		return
+	}
 	// delete file
 	var _, err = os.Stat(cfg.DebugFile)
 
-- 
2.43.0


From 0ecc1c998a3e9d3e1300709b3cd3efc06d662012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 11/29] fix: keep triangles that touch the cutting plane in one
 vertex

---
 helpers/cut_mesh.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c84ee5c..c42c6d0 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -3,7 +3,6 @@ package helpers
 import (
 	. "github.com/l1va/goosli/primitives"
 	//	"fmt"
-	"log"
 )
 
 //CutMesh mesh in two meshes, first that inFront of plane, second - outFront
@@ -40,7 +39,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		} else if len(inFront) == 2 {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
-				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
+				// the triangle only touches the plane
+				up = append(up, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -54,7 +54,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		} else if len(inFront) == 1 {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
-				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
+				// the triangle only touches the plane
+				down = append(down, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
-- 
2.43.0


From 655a221facea073849518cae401c2fc701d88069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 12/29] fix: overhang flags belong to the current part in
 Analyze

---
 slicers/vip/analyze.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index f6bedd7..7b9b297 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -60,7 +60,7 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		var t *Triangle
 		for i, fail := range fails {
 			if fail {
-				t2 := mesh.Triangles[i]
+				t2 := curMesh.Triangles[i]
 				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
 					continue
 				}
-- 
2.43.0


From a304ff25fb899698184d8eed20455d098346f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 13/29] fix: infill density of squares and triangles no longer
 rounded down by integer division

---
 slicers/fill_layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 14ed9eb..75d76f7 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -37,7 +37,7 @@ func CalcFillPlanesLines(mesh *Mesh, settings Settings) []Plane {
 
 // filling with squares
 func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/2)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 2)) * settings.GcodeSettings.LineWidth
 
 	//planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	//planes = append(planes, CalcFillPlanes0(mesh, settings, V(0, 1, 0), step)...)
@@ -50,7 +50,7 @@ func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
 
 // filling with triangles
 func CalcFillPlanesTriangles(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/3)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 3)) * settings.GcodeSettings.LineWidth
 
 	planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	planes = append(planes, calcFillPlanesCommon(mesh, settings, V(0.5, 0.8660254038, 0), step)...)
-- 
2.43.0


From 1dbd2b29812fef6822f6186bbb47e0d82ed8b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 14/29] fix: infill grid covers the model's farthest corner in
 every direction

---
 slicers/fill_layer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 75d76f7..e481225 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -10,9 +10,10 @@ import (
 func calcFillPlanesCommon(mesh *Mesh, settings Settings, MyAxis Vector, step float64) []Plane {
 	mina, maxa := mesh.MinMaxZ(AxisX)
 	minb, maxb := mesh.MinMaxZ(AxisY)
-	a, b := math.Sqrt(mina*mina+minb*minb), math.Sqrt(maxa*maxa+maxb*maxb)
+	//the farthest corner of the model's box from the Z axis
+	r := math.Hypot(math.Max(-mina, maxa), math.Max(-minb, maxb))
 
-	minx, maxx := - math.Max(a, b), math.Max(a, b) //TODO: hack, seems will work not always (rotations and inclinations)
+	minx, maxx := -r, r //TODO: hack, seems will work not always (rotations and inclinations)
 	//get minx which is  "k * step"
 	minx_step := float64(math.Floor((minx)/step)) * step
 	n := int(math.Ceil((maxx - minx_step) / step))
-- 
2.43.0


From 61b27578fe85dd10031cd68f93b7facda5cc829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 15/29] fix: azimuths of cutting planes and overhangs keep
 their sign

---
 primitives/vector.go         | 5 +++++
 slicers/slice_5axes.go       | 4 ++--
 slicers/slice_by_profile.go  | 2 +-
 slicers/vip/analyze.go       | 2 +-
 slicers/vip/slice_bridge.go  | 6 +++---
 slicers/vip/slice_default.go | 2 +-
 6 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index bb4f7ee..06594d4 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -91,6 +91,11 @@ func (a Vector) Angle(b Vector) float64 {
 	return math.Acos(v) * 180 / math.Pi
 }
 
+// Azimuth is the signed angle in degrees from AxisX to the projection on PlaneXY, counterclockwise seen from above
+func (a Vector) Azimuth() float64 {
+	return math.Atan2(a.Y, a.X) * 180 / math.Pi
+}
+
 func (a Vector) ProjectOn(b Vector) Vector {
 	bl := b.LengthSquare() // because result = b.MulScalar(projectLen/|b|), where projectLen = b.Dot(a)/|b|
 	if bl == 0 {
diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index d2cc184..d433c30 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -113,7 +113,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 				gcd.Add(gcode.RotateXZ{})
 				rotated = false
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.Azimuth() + 90
 				print(angleZ)
 				simpMesh = simpMesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				simpMesh = simpMesh.Rotate(RotationAroundX(angleX), OriginPoint)
@@ -158,7 +158,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
 				if pi != nil {
-					angleZ := prevCp.VectorTo(*pi).Angle(AxisX) + 90
+					angleZ := 90 - prevCp.VectorTo(*pi).Azimuth()
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 6313364..491c44f 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -34,7 +34,7 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 		} else {
 			down = up
 		}
-		angleZ := v.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+		angleZ := v.Azimuth() + 90
 		angleX := v.Angle(AxisZ)
 
 		println("angles: ", angleX, " ", angleZ, "")
diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index 7b9b297..4a9199c 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -89,7 +89,7 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		if curPlane.tilted {
 			curPlane = AnalyzedPlane{Plane{P: p, N: AxisZ}, false, 0}
 		} else {
-			angle := t.N.ProjectOnPlane(PlaneXY).Angle(AxisX) - 90
+			angle := t.N.Azimuth() - 90
 			a := t.N.ProjectOnPlane(PlaneXY)
 			b := a.Rotate(RotationAroundZ(90))
 			norm := a.RotateAbout(b, 90-angleX)
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 29d302d..3db768c 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -48,7 +48,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.AddLayers(PrepareLayers(oneLeg, settings, fillPlanes, fullFillPlanes))
 
 	// Rotate bed
-	angleZ := newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+	angleZ := newPlane.N.Azimuth() + 90
 	mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 	mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
@@ -93,7 +93,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
 	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
-		angle := AxisX.Angle(cp1.VectorTo(cp2))
+		angle := -cp1.VectorTo(cp2).Azimuth()
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
 		pl := Plane{*prevIp1, norm}
 		return &pl
@@ -106,7 +106,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
 	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
-		angle := AxisX.Angle(cp2.VectorTo(cp1))
+		angle := -cp2.VectorTo(cp1).Azimuth()
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
 		pl := Plane{*prevIp2, norm}
 		return &pl
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 238cb40..7039808 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -69,7 +69,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
 				}
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.Azimuth() + 90
 				println(angleZ)
 				mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
-- 
2.43.0


From 34f7a3ab5ccbe7138f9caa729e5e9740c3ca1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 16/29] fix: a line of fewer than two points is simplified to
 itself

---
 helpers/simplify_line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/simplify_line.go b/helpers/simplify_line.go
index 408512b..e242ef1 100644
--- a/helpers/simplify_line.go
+++ b/helpers/simplify_line.go
@@ -10,6 +10,9 @@ func SimplifyLine(ps []Point, epsilon float64) []Point {
 	dmax := 0.0
 	index := 0
 	end := len(ps)
+	if end < 2 { // nothing to simplify
+		return append([]Point{}, ps...)
+	}
 	for i := 1; i < end-1; i++ {
 		d := ps[i].DistanceToLine(ps[0], ps[end-1])
 		if d > dmax {
-- 
2.43.0


From 0a3e59dca346454f87fd441805ae9e5417598c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 17/29] fix: the rest of the model is printed even if it is a
 single layer

---
 slicers/slice_5axes.go       | 5 ++---
 slicers/slice_by_profile.go  | 3 +++
 slicers/vip/slice_default.go | 5 ++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index d433c30..dea4ab4 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -51,9 +51,6 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 		newPlane := CalculateFails(layers[i-1], layers[i])
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(toAdd)
-			}
 		} else {
 			gcd.AddLayers(toAdd[:i])
 
@@ -129,6 +126,8 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 			i = 0
 		}
 	}
+	//the rest, even if it is a single layer
+	gcd.AddLayers(toAdd)
 
 	return gcd
 }
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 491c44f..838b236 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -23,6 +23,9 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 	var down *Mesh
 	gcd := gcode.NewGcode(*settings.GcodeSettings)
 
+	if len(simplified) < 2 { //a single layer has no direction to follow
+		gcd.AddLayers(layers)
+	}
 	for i := 1; i < len(simplified); i++ {
 		v := simplified[i-1].VectorTo(simplified[i])
 		if i < len(simplified)-1 {
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 7039808..d5b87c6 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -40,9 +40,6 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
-			}
 		} else {
 			mesh, down, err = helpers.CutMesh(mesh, *newPlane)
 			if err != nil {
@@ -90,6 +87,8 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 			i = 1
 		}
 	}
+	//the rest, even if it is a single layer
+	gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
 	return gcd
 
 }
-- 
2.43.0


From fe40bcd674de7e565409789e3f928c3be97f45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 18/29] fix: count a wall thickness that is a multiple of the
 line width fully

1.2/0.4 is 2.9999999999999996 in floating point, so three walls became two.
---
 slicers/vip/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 6ba83f0..ff10d66 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -11,7 +11,8 @@ import (
 
 //PrepareLayers add Walls and fill layers
 func PrepareLayers(layers []Layer, settings Settings, planes []Plane, fullPanes []Plane) []Layer {
-	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth) - 1
+	//1.2/0.4 is slightly less than 3 in floating point, so a bit is added before dropping the rest
+	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth+1e-6) - 1
 	if addWallsCount > 0 {
 		for i, layer := range layers { //TODO: in parallel
 			for _, pt := range layer.Paths {
-- 
2.43.0


From 80d77d299c105df365d0eb89cf81cde6b2988044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 19/29] fix: offset lines left after removing reversed ones are
 joined again

---
 slicers/vip/offset_path.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 689a430..0762212 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -60,15 +60,15 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		num = len(afterRemove)
 	}
 	for i := 0; i < num; i++ {
-		a := afterRemove[i]
-		b := afterRemove[(i+1)%len(afterRemove)]
+		a := &afterRemove[i]
+		b := &afterRemove[(i+1)%len(afterRemove)]
 		if !AlmostZero(a.P2.DistanceTo(b.P1)) {
-			inters := a.IntersectLine2(b)
+			inters := a.IntersectLine2(*b)
 			if inters != nil {
 				a.P2 = *inters
 				b.P1 = *inters
 			} else {
-				debug.AddLine(a, debug.BlueColor)
+				debug.AddLine(*a, debug.BlueColor)
 				debug.AddLine(Line{b.P1, b.P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
 				b.P1 = a.P2
 			}
-- 
2.43.0


From 9edfbaf6d9a0da0c7268c674b485e5d7acc50b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 20/29] fix: the first offset line of a closed contour keeps
 its joined end

---
 slicers/vip/offset_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 0762212..e8a6dfd 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -41,7 +41,7 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		}
 	}
 	if closedPath {
-		newPth[0] = newPth[len(newPth)-1]
+		newPth[0].P1 = newPth[len(newPth)-1].P1
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
 	var remove []bool
-- 
2.43.0


From b988bbb733113789915e0f2023d52c1055e07d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 21/29] fix: bridge and rotation slicing of a model without
 failing layer prints all layers

---
 slicers/vip/slice_bridge.go   | 4 ++++
 slicers/vip/slice_rotation.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 3db768c..e27a007 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -34,6 +34,10 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
 
+	if newPlane == nil { // no bridge, all layers are printed
+		return gcd
+	}
+
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
 	if err != nil {
diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index ec8bf0c..9a28dc0 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -32,6 +32,10 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
 
+	if i == len(layers) { // nothing fails, all layers are printed
+		return gcd
+	}
+
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
 	if err != nil {
-- 
2.43.0


From c900891c651bab582544e5dc014267107303e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 22/29] fix: slicing a model with no layer that has contours
 does not panic

---
 slicers/slice_by_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 932b607..6285df6 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -128,10 +128,10 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	})
 
 	// filter out empty layers
-	if len(layers[0].Paths) == 0 {
+	if len(layers) > 0 && len(layers[0].Paths) == 0 {
 		layers = layers[1:]
 	}
-	if len(layers[len(layers)-1].Paths) == 0 {
+	if len(layers) > 0 && len(layers[len(layers)-1].Paths) == 0 {
 		layers = layers[:len(layers)-1]
 	}
 
-- 
2.43.0


From 4141256687314c117d4544d212e1b2d326d265ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:17 +0000
Subject: [PATCH 23/29] fix: a point is tested against a triangle in the
 triangle's own plane

Triangle.PointBelongs looked at the X and Y coordinates only, so every point of a
vertical plane lay in every triangle of that plane, and supports were dropped as
blocked by a model they do not meet.
---
 primitives/triangle.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/primitives/triangle.go b/primitives/triangle.go
index f35b713..3791909 100644
--- a/primitives/triangle.go
+++ b/primitives/triangle.go
@@ -138,13 +138,10 @@ func (t *Triangle) PointBelongs(p Point) bool {
 	plane := Plane{P: t.P1, N: t.N}
 	if plane.PointBelongs(p) {
 
-		A := t.P1
-		B := t.P2
-		C := t.P3
-
-		w1 := (A.X - p.X)*(B.Y - A.Y) - (B.X - A.X)*(A.Y - p.Y)
-		w2 := (B.X - p.X)*(C.Y - B.Y) - (C.X - B.X)*(B.Y - p.Y)
-		w3 := (C.X - p.X)*(A.Y - C.Y) - (A.X - C.X)*(C.Y - p.Y)
+		// on which side of each edge p lies, measured in the plane of the triangle
+		w1 := t.P1.VectorTo(t.P2).Cross(t.P1.VectorTo(p)).Dot(t.N)
+		w2 := t.P2.VectorTo(t.P3).Cross(t.P2.VectorTo(p)).Dot(t.N)
+		w3 := t.P3.VectorTo(t.P1).Cross(t.P3.VectorTo(p)).Dot(t.N)
 
 		if w1>=0 && w2>=0 && w3 >=0 || w1<=0 && w2<=0 && w3 <=0 {
 			return true
-- 
2.43.0


From 0be91ee6249b6e83666d29942da1a6d4f49172b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 24/29] fix: joining paths leaves the given list as it is

JoinPaths3 stored the joined paths in its argument, so a caller's list had some
of its paths replaced by longer ones.
---
 primitives/path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/primitives/path.go b/primitives/path.go
index e1b1cd0..8a082ef 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -112,6 +112,7 @@ type sortp struct {
 //Join pathes by first or last points if possible
 func JoinPaths3(p []Path) []Path {
 	n := len(p)
+	p = append([]Path{}, p...) // the given list stays as it is
 	w := make([]int, n)
 	a := make([]sortp, n*2)
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 3bcdd304f0c8b43c52f9b2330731d2e36d3c3cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 25/29] fix: the middle of angles on a ring is found without
 changing the angles

MiddleOnTheRing added full turns to the elements of its argument.
---
 slicers/slice_5axes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index dea4ab4..d2c868d 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -222,6 +222,7 @@ func findPrevPath(prevP Point, prevLayer Layer) *Path {
 
 func MiddleOnTheRing(arr []float64, biggest int) int {
 	// assume that arr is sorted
+	arr = append([]float64{}, arr...)
 	i := 0
 	for arr[len(arr)-1]-arr[i] > float64(biggest)/2 {
 		arr[i] += float64(biggest)
-- 
2.43.0


From 79565466da776713dae5a55f074367ee824012a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:13 +0000
Subject: [PATCH 26/29] fix: a model without layers or outside contours is
 sliced by the default mode

---
 slicers/vip/slice_main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_main.go b/slicers/vip/slice_main.go
index 4e3786e..a475594 100644
--- a/slicers/vip/slice_main.go
+++ b/slicers/vip/slice_main.go
@@ -27,14 +27,18 @@ func Slice(mesh *Mesh, settings Settings) gcode.Gcode {
 
 	layers := SliceByVector(mesh, AxisZ, settings)
 
+	if len(layers) == 0 { // nothing to choose the mode by
+		return SliceDefault2(mesh, settings, layers)
+	}
+
 	op := getAllOutsidePathes(layers[0])
 	if len(op) == 2 {
 		return SliceBridge(mesh, settings, layers)
 	}
-	println("outside pathes: ", len(op), len(op[0].Points))
+	println("outside pathes: ", len(op))
 	if len(op) == 1 && isRotation(op[0]) {
 		op = getAllOutsidePathes(layers[len(layers)-1])
-		println("outside pathes: ", len(op), len(op[0].Points))
+		println("outside pathes: ", len(op))
 		if len(op) == 1 && isRotation(op[0]) {
 			return SliceRotation(mesh, settings, layers)
 		}
-- 
2.43.0


From 573f8b92bd253e8d8f5e950eabcd6d3ff6803436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:13 +0000
Subject: [PATCH 27/29] fix: bridge slicing goes on when the legs are joined

---
 slicers/vip/slice_bridge.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index e27a007..1a3bd43 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -77,8 +77,14 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 func failExistBridge(prevLayer, curLayer Layer) *Plane {
 
-	prevP1, prevP2 := getTwoOutsidePathes(prevLayer)
-	p1, p2 := getTwoOutsidePathes(curLayer)
+	prev := getAllOutsidePathes(prevLayer)
+	cur := getAllOutsidePathes(curLayer)
+	if len(prev) < 2 || len(cur) < 2 { // legs are joined, no leg can fail
+		println("there are not two outside pathes: ", len(prev), len(cur))
+		return nil
+	}
+	prevP1, prevP2 := prev[0], prev[1]
+	p1, p2 := cur[0], cur[1]
 	prevCp1 := FindCentroid(prevP1)
 	cp1 := FindCentroid(p1)
 	cp2 := FindCentroid(p2)
@@ -118,15 +124,6 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 
 	return nil
 }
-func getTwoOutsidePathes(layer Layer) (Path, Path) {
-	all := getAllOutsidePathes(layer)
-	if len(all) == 2 {
-		return all[0], all[1]
-	}
-	//debug.AddLayer(layer) //TODO:
-	println("there are not two outside pathes: ", len(all))
-	return all[0], all[1]
-}
 func getAllOutsidePathes(layer Layer) []Path { //for horizontal pathes
 	var res []Path
 	for i, pth := range layer.Paths {
-- 
2.43.0


From c24805b50ad931ef7592164a9e7e31d18c03a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:14 +0000
Subject: [PATCH 28/29] fix: rotation slicing skips layers without contours

---
 slicers/vip/slice_rotation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index 9a28dc0..327b876 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -70,6 +70,10 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 		println("curLayer has not one path: ", len(curLayer.Paths))
 	}
 
+	if len(prevLayer.Paths) == 0 || len(curLayer.Paths) == 0 { // nothing to compare
+		return false
+	}
+
 	anyP := prevLayer.Paths[0].Points[0]
 	//nearestP := curLayer.Paths[0].Lines[0].P1
 	//d := anyP.DistanceTo(nearestP)
-- 
2.43.0


From 64a0173308681d68a59f5041f1588b919863f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:15 +0000
Subject: [PATCH 29/29] fix: a line of the planes file with too few fields is
 reported

---
 slicers/vip/analyze.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index 4a9199c..cd63146 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -23,6 +23,9 @@ func (p AnalyzedPlane) String() string {
 func ParsePlane(line string) AnalyzedPlane {
 	p := AnalyzedPlane{}
 	words := strings.Fields(line)
+	if len(words) < 5 {
+		log.Fatal("failed to parse plane, need a point, a tilt and an angle: ", line)
+	}
 	var err error
 	if p.tilted, err = strconv.ParseBool(words[3][1:]); err != nil {
 		fmt.Printf("ERROR parsing bool: %v\n", err)
-- 
2.43.0

