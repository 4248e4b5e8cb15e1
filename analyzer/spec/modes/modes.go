// Package modes states which part of a model is printed when, and how bed and part are turned
// (C22, C24).
package modes

import (
	"log"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

// Placeholders for the fields of a plane with its bed position.
func tilted(p vip.AnalyzedPlane) bool  { return false }
func rotz(p vip.AnalyzedPlane) float64 { return 0 }

func DNone(m *Mesh, s slicers.Settings) gcode.Gcode { return vip.SliceByPlanes(m, s, nil) }
func SNone(m *Mesh, s slicers.Settings) gcode.Gcode { return byPlanes(m, s, nil) }
func DOne(m *Mesh, s slicers.Settings, a vip.AnalyzedPlane) gcode.Gcode {
	return vip.SliceByPlanes(m, s, []vip.AnalyzedPlane{a})
}
func SOne(m *Mesh, s slicers.Settings, a vip.AnalyzedPlane) gcode.Gcode {
	return byPlanes(m, s, []vip.AnalyzedPlane{a})
}
func DFour(m *Mesh, s slicers.Settings, a, b, c, d vip.AnalyzedPlane) gcode.Gcode {
	return vip.SliceByPlanes(m, s, []vip.AnalyzedPlane{a, b, c, d})
}
func SFour(m *Mesh, s slicers.Settings, a, b, c, d vip.AnalyzedPlane) gcode.Gcode {
	return byPlanes(m, s, []vip.AnalyzedPlane{a, b, c, d})
}
func byPlanes(m *Mesh, s slicers.Settings, ps []vip.AnalyzedPlane) gcode.Gcode {
	g := gcode.NewGcode(*s.GcodeSettings)
	fill, full := slicers.CalcFillPlanes(m, s)
	// the part above the last plane is cut off first
	above := make([]*Mesh, len(ps))
	for i := len(ps) - 1; i >= 0; i-- {
		up, down, err := helpers.CutMesh(m, ps[i].Plane)
		if err != nil {
			log.Fatal(err)
		}
		above[i] = up
		m = down
	}
	// the lowest part on the untouched bed
	low := vip.PrepareLayers(slicers.SliceByVector(m, AxisZ, s), s, fill, full)
	if len(low) > 0 {
		low[0] = vip.SkirtPathes(low[0], s.SkirtLineCount, s.GcodeSettings.LineWidth)
	}
	g.Cmds = append(g.Cmds, gcode.LayersMoving{Layers: low})
	down := false
	for i, part := range above {
		part = part.Rotate(RotationAroundZ(rotz(ps[i])), s.RotationCenter)
		g.Cmds = append(g.Cmds, gcode.RotateZ{Angle: rotz(ps[i])})
		if tilted(ps[i]) {
			part = part.Rotate(RotationAroundX(-60), s.RotationCenter)
			g.Cmds = append(g.Cmds, gcode.InclineX{})
			down = true
		} else if down {
			g.Cmds = append(g.Cmds, gcode.InclineXBack{})
			down = false
		}
		ls := vip.PrepareLayers(slicers.SliceByVector(part, AxisZ, s), s, fill, full)
		g.Cmds = append(g.Cmds, gcode.LayersMoving{Layers: ls})
	}
	return g
}

// Slicing gives three layers per part in this analysis.
func layerAt(m *Mesh, v Vector, i int) Layer { return Layer{} }
func layers3(m *Mesh, v Vector) []Layer {
	return []Layer{layerAt(m, v, 0), layerAt(m, v, 1), layerAt(m, v, 2)}
}

func layersZ(m *Mesh) []Layer { return layers3(m, AxisZ) }

// Placeholders for the tests of two neighbouring layers, which fail where the analysed history
// says so.
func failing(a, b Layer) *Plane { return nil }
func fails(a, b Layer) bool     { return false }
func planeAt(a, b Layer) Plane  { return Plane{} }
func found(a, b Layer) *Plane {
	p := planeAt(a, b)
	return &p
}
func none(a, b Layer) *Plane { return nil }
func yes(a, b Layer) bool    { return true }
func no(a, b Layer) bool     { return false }

func turn(ps []Plane, rms ...RotationMatrix) []Plane {
	res := make([]Plane, len(ps))
	for i, p := range ps {
		for _, rm := range rms {
			p = p.Rotate(rm)
		}
		res[i] = p
	}
	return res
}

func firstFail(ls []Layer) (int, *Plane) {
	for i := 1; i < len(ls); i++ {
		if p := failing(ls[i-1], ls[i]); p != nil {
			return i, p
		}
	}
	return len(ls), nil
}

func cut(m *Mesh, p Plane) (*Mesh, *Mesh) {
	up, down, err := helpers.CutMesh(m, p)
	if err != nil {
		log.Fatal(err)
	}
	return up, down
}

func add(g *gcode.Gcode, ls []Layer) { g.Cmds = append(g.Cmds, gcode.LayersMoving{Layers: ls}) }

func DDefault(m *Mesh, s slicers.Settings) gcode.Gcode {
	return vip.SliceDefault2(m, s, slicers.SliceByVector(m, AxisZ, s))
}
func SDefault(m *Mesh, s slicers.Settings) gcode.Gcode {
	g := gcode.Gcode{Settings: *s.GcodeSettings}
	fill, full := slicers.CalcFillPlanes(m, s)
	tilted, az := false, 0.0
	for {
		ls := slicers.SliceByVector(m, AxisZ, s)
		_, p := firstFail(ls)
		if p == nil {
			add(&g, vip.PrepareLayers(ls, s, fill, full))
			return g
		}
		up, down := cut(m, *p)
		add(&g, vip.PrepareLayers(slicers.SliceByVector(down, AxisZ, s), s, fill, full))
		var a, b RotationMatrix
		if tilted {
			a, b = RotationAroundX(-60), RotationAroundZ(-az)
			g.Cmds = append(g.Cmds, gcode.InclineXBack{}, gcode.RotateZ{})
		} else {
			az = p.N.Azimuth() + 90
			a, b = RotationAroundZ(az), RotationAroundX(60)
			g.Cmds = append(g.Cmds, gcode.RotateZ{Angle: az}, gcode.InclineX{})
		}
		tilted = !tilted
		m = up.Rotate(a, OriginPoint).Rotate(b, OriginPoint)
		fill, full = turn(fill, a, b), turn(full, a, b)
	}
}

func DBridge(m *Mesh, s slicers.Settings) gcode.Gcode {
	return vip.SliceBridge(m, s, slicers.SliceByVector(m, AxisZ, s))
}
func SBridge(m *Mesh, s slicers.Settings) gcode.Gcode {
	g := gcode.Gcode{Settings: *s.GcodeSettings}
	fill, full := slicers.CalcFillPlanes(m, s)
	ls := slicers.SliceByVector(m, AxisZ, s)
	i, p := firstFail(ls)
	add(&g, vip.PrepareLayers(ls[:i], s, fill, full))
	if p == nil {
		return g
	}
	rest, _ := cut(m, Plane{P: ls[i].Paths[0].Points[0], N: AxisZ})
	rest, leg := cut(rest, *p)
	add(&g, vip.PrepareLayers(slicers.SliceByVector(leg, AxisZ, s), s, fill, full))
	az := p.N.Azimuth() + 90
	a, b := RotationAroundZ(az), RotationAroundX(60)
	rest = rest.Rotate(a, OriginPoint).Rotate(b, OriginPoint)
	g.Cmds = append(g.Cmds, gcode.RotateZ{Angle: az}, gcode.InclineX{})
	add(&g, vip.PrepareLayers(slicers.SliceByVector(rest, AxisZ, s), s, turn(fill, a, b), turn(full, a, b)))
	g.Cmds = append(g.Cmds, gcode.InclineXBack{}, gcode.RotateZ{})
	return g
}

func DRotation(m *Mesh, s slicers.Settings) gcode.Gcode {
	return vip.SliceRotation(m, s, slicers.SliceByVector(m, AxisZ, s))
}
func SRotation(m *Mesh, s slicers.Settings) gcode.Gcode {
	g := gcode.Gcode{Settings: *s.GcodeSettings}
	fill, full := slicers.CalcFillPlanes(m, s)
	ls := slicers.SliceByVector(m, AxisZ, s)
	i := 1
	for i < len(ls) && !fails(ls[i-1], ls[i]) {
		i++
	}
	add(&g, vip.PrepareLayers(ls[:i], s, fill, full))
	if i == len(ls) {
		return g
	}
	rest, _ := cut(m, Plane{P: ls[i].Paths[0].Points[0], N: AxisZ})
	a := RotationAroundX(60)
	rest = rest.Rotate(a, OriginPoint)
	g.Cmds = append(g.Cmds, gcode.InclineX{})
	add(&g, vip.PrepareLayers(slicers.SliceByVector(rest, AxisZ.Rotate(a), s), s, turn(fill, a), turn(full, a)))
	g.Cmds = append(g.Cmds, gcode.InclineXBack{})
	return g
}

func D5Axes(m *Mesh, s slicers.Settings) gcode.Gcode { return slicers.Slice5Axes(m, s) }
func S5Axes(m *Mesh, s slicers.Settings) gcode.Gcode {
	g := gcode.Gcode{Settings: *s.GcodeSettings}
	rough, err := helpers.SimplifyMesh(m, 2500)
	if err != nil {
		log.Fatal(err)
	}
	tilted, az := false, 0.0
	for {
		ls := slicers.SliceByVector(rough, AxisZ, s)
		fine := slicers.SliceByVector(m, AxisZ, s)
		i, p := firstFail(ls)
		if p == nil {
			add(&g, fine)
			return g
		}
		add(&g, fine[:i])
		low := Plane{P: center(ls[i]), N: AxisZ}
		rough, _ = cut(rough, low)
		m, _ = cut(m, low)
		rough, _ = cut(rough, *p)
		up, down := cut(m, *p)
		add(&g, slicers.SliceByVector(down, AxisZ, s))
		var a, b RotationMatrix
		if tilted {
			a, b = RotationAroundX(-60), RotationAroundZ(-az)
			g.Cmds = append(g.Cmds, gcode.RotateXZ{})
		} else {
			az = p.N.Azimuth() + 90
			a, b = RotationAroundZ(az), RotationAroundX(60)
			g.Cmds = append(g.Cmds, gcode.RotateXZ{AngleX: 60, AngleZ: az})
		}
		rough = rough.Rotate(a, OriginPoint).Rotate(b, OriginPoint)
		m = up.Rotate(a, OriginPoint).Rotate(b, OriginPoint)
		tilted = !tilted
	}
}
func center(l Layer) Point {
	var x, y, z float64
	n := len(l.Paths)
	if n == 0 {
		return Point{}
	}
	for _, p := range l.Paths {
		c := FindCentroid(p)
		x, y, z = x+c.X, y+c.Y, z+c.Z
	}
	return Point{X: x / float64(n), Y: y / float64(n), Z: z / float64(n)}
}

// The profile bends at a given number of points in this analysis.
func bend(cs []Point, eps float64, i int) Point { return Point{} }
func bends0(cs []Point, eps float64) []Point    { return nil }
func bends1(cs []Point, eps float64) []Point    { return []Point{bend(cs, eps, 0)} }
func bends2(cs []Point, eps float64) []Point {
	return []Point{bend(cs, eps, 0), bend(cs, eps, 1)}
}
func bends4(cs []Point, eps float64) []Point {
	return []Point{bend(cs, eps, 0), bend(cs, eps, 1), bend(cs, eps, 2), bend(cs, eps, 3)}
}

func DProfile(m *Mesh, s slicers.Settings) gcode.Gcode { return slicers.SliceByProfile(m, s) }
func SProfile(m *Mesh, s slicers.Settings) gcode.Gcode {
	g := gcode.Gcode{Settings: *s.GcodeSettings}
	ls := slicers.SliceByVector(m, AxisZ, s)
	var cs []Point
	for _, l := range ls {
		cs = append(cs, center(l))
	}
	cs = helpers.SimplifyLine(cs, s.Epsilon)
	if len(cs) < 2 {
		add(&g, ls)
		return g
	}
	for i := 1; i < len(cs); i++ {
		part := m
		if i+1 < len(cs) {
			m, part = cut(m, Plane{P: cs[i], N: AxisZ})
		}
		dir := cs[i-1].VectorTo(cs[i])
		az, tilt := dir.Azimuth()+90, dir.Angle(AxisZ)
		part = part.Rotate(RotationAroundZ(az), OriginPoint).Rotate(RotationAroundX(tilt), OriginPoint)
		g.Cmds = append(g.Cmds, gcode.RotateXZ{AngleX: tilt, AngleZ: az})
		add(&g, slicers.SliceByVector(part, AxisZ, s))
	}
	return g
}

// What is printed, in order, without how bed and part are turned (C24).
func printed(g gcode.Gcode) [][]Layer {
	var r [][]Layer
	for _, c := range g.Cmds {
		if l, ok := c.(gcode.LayersMoving); ok {
			r = append(r, l.Layers)
		}
	}
	return r
}
func DPartsNone(m *Mesh, s slicers.Settings) [][]Layer { return printed(DNone(m, s)) }
func SPartsNone(m *Mesh, s slicers.Settings) [][]Layer { return printed(SNone(m, s)) }
func DPartsOne(m *Mesh, s slicers.Settings, a vip.AnalyzedPlane) [][]Layer {
	return printed(DOne(m, s, a))
}
func SPartsOne(m *Mesh, s slicers.Settings, a vip.AnalyzedPlane) [][]Layer {
	return printed(SOne(m, s, a))
}
func DPartsFour(m *Mesh, s slicers.Settings, a, b, c, d vip.AnalyzedPlane) [][]Layer {
	return printed(DFour(m, s, a, b, c, d))
}
func SPartsFour(m *Mesh, s slicers.Settings, a, b, c, d vip.AnalyzedPlane) [][]Layer {
	return printed(SFour(m, s, a, b, c, d))
}
func DPartsDefault(m *Mesh, s slicers.Settings) [][]Layer  { return printed(DDefault(m, s)) }
func SPartsDefault(m *Mesh, s slicers.Settings) [][]Layer  { return printed(SDefault(m, s)) }
func DPartsBridge(m *Mesh, s slicers.Settings) [][]Layer   { return printed(DBridge(m, s)) }
func SPartsBridge(m *Mesh, s slicers.Settings) [][]Layer   { return printed(SBridge(m, s)) }
func DPartsRotation(m *Mesh, s slicers.Settings) [][]Layer { return printed(DRotation(m, s)) }
func SPartsRotation(m *Mesh, s slicers.Settings) [][]Layer { return printed(SRotation(m, s)) }
func DParts5Axes(m *Mesh, s slicers.Settings) [][]Layer    { return printed(D5Axes(m, s)) }
func SParts5Axes(m *Mesh, s slicers.Settings) [][]Layer    { return printed(S5Axes(m, s)) }
func DPartsProfile(m *Mesh, s slicers.Settings) [][]Layer  { return printed(DProfile(m, s)) }
func SPartsProfile(m *Mesh, s slicers.Settings) [][]Layer  { return printed(SProfile(m, s)) }

// The normal of a plane that leans by 60 degrees to a direction, given as a vector, from point to
// point, or by its clockwise angle.
func lean(angle float64) Vector {
	return AxisZ.Rotate(RotationAroundX(60)).Rotate(RotationAroundZ(angle + 90))
}
func leanA(angle float64) Vector     { return lean(angle) }
func leanV(v Vector) Vector          { return lean(-v.Azimuth()) }
func leanP(a, b Point) Vector        { return lean(-a.VectorTo(b).Azimuth()) }
func direction(angle float64) Vector { return AxisX.Rotate(RotationAroundZ(angle)) }
