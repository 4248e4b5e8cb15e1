// Package fill holds the specification of infill lines (C20).
package fill

import (
	"math"
	"sort"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

// grid: vertical planes k*step along axis, for all whole k that reach the farthest corner of
// the model's box around the Z axis.
func grid(m *Mesh, axis Vector, step float64) []Plane {
	minX, maxX := m.MinMaxZ(AxisX)
	minY, maxY := m.MinMaxZ(AxisY)
	x, y := math.Max(-minX, maxX), math.Max(-minY, maxY)
	r := math.Sqrt(x*x + y*y)
	first := math.Floor(-r / step)
	n := int(math.Ceil(r/step - first))
	var res []Plane
	for i := 0; i < n; i++ {
		d := (first + float64(i) + 1) * step
		res = append(res, Plane{P: Point{X: axis.X * d, Y: axis.Y * d, Z: axis.Z * d}, N: axis})
	}
	return res
}

func lines(m *Mesh, s slicers.Settings) []Plane {
	return grid(m, Vector{X: 1}, s.GcodeSettings.LineWidth*100/float64(s.FillDensity))
}
func squares(m *Mesh, s slicers.Settings) []Plane {
	step := 2 * s.GcodeSettings.LineWidth * 100 / float64(s.FillDensity)
	a := grid(m, Vector{X: 0.7071067812, Y: 0.7071067812}, step)
	return append(a, grid(m, Vector{X: -0.7071067812, Y: 0.7071067812}, step)...)
}
func triangles(m *Mesh, s slicers.Settings) []Plane {
	step := 3 * s.GcodeSettings.LineWidth * 100 / float64(s.FillDensity)
	a := grid(m, Vector{X: 1}, step)
	a = append(a, grid(m, Vector{X: 0.5, Y: 0.8660254038}, step)...)
	return append(a, grid(m, Vector{X: -0.5, Y: 0.8660254038}, step)...)
}
func solid(m *Mesh, s slicers.Settings) []Plane {
	return grid(m, Vector{X: 1}, s.GcodeSettings.LineWidth)
}

func DPlanes(m *Mesh, s slicers.Settings) ([]Plane, []Plane) { return slicers.CalcFillPlanes(m, s) }
func SPlanes(m *Mesh, s slicers.Settings) ([]Plane, []Plane) {
	if s.FillingType == "Squares" {
		return squares(m, s), solid(m, s)
	}
	if s.FillingType == "Triangles" {
		return triangles(m, s), solid(m, s)
	}
	return lines(m, s), solid(m, s)
}

// Placeholders for the repository's functions of these types.
func interPaths(ps []Path, p Plane) []Path { return nil }
func sortPaths(ps []Path) []Path           { return nil }

func DFill(layers []Layer, planes, full []Plane, s slicers.Settings) []Layer {
	return slicers.FillLayers(layers, planes, full, s)
}
func SFill(layers []Layer, planes, full []Plane, s slicers.Settings) []Layer {
	var res []Layer
	for i, l := range layers {
		use := planes
		if i < s.BottomLayers || i >= len(layers)-s.TopLayers {
			use = full
		}
		wall := l.InnerPs
		if wall == nil {
			wall = l.Paths
		}
		fill := l.Fill
		for _, p := range use {
			fill = append(fill, interPaths(wall, p)...)
		}
		l.Fill = sortPaths(fill)
		res = append(res, l)
	}
	return res
}

// SInter: the lines along which a vertical plane runs inside closed walls.
func SInter(paths []Path, plane Plane) []Path {
	var pts []Point
	for _, p := range paths {
		for i := 0; i+1 < len(p.Points); i++ {
			if c := plane.IntersectSegment(p.Points[i], p.Points[i+1]); c != nil {
				pts = append(pts, *c)
			}
		}
	}
	if len(pts) < 2 {
		return nil
	}
	a := plane.N.ProjectOnPlane(PlaneXY).Angle(AxisY)
	if a > -3 && a < 3 || a > 177 && a < 183 {
		sort.Slice(pts, func(i, j int) bool { return pts[i].X < pts[j].X })
	} else {
		sort.Slice(pts, func(i, j int) bool { return pts[i].Y < pts[j].Y })
	}
	if len(pts) < 4 {
		return []Path{{Points: []Point{pts[0], pts[len(pts)-1]}}}
	}
	var res []Path
	for i := 0; i+1 < len(pts); i += 2 {
		res = append(res, Path{Points: []Point{pts[i], pts[i+1]}})
	}
	return res
}
