// Package slices states what slicing along a direction means (C16, C17, C33).
package slices

import (
	"math"
	"sort"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

// SSlice: n planes across the direction, spaced evenly, the first half a spacing above the lowest
// point; every triangle that reaches a plane is cut with it, in the order of the lowest points,
// the support triangles first; the segments of each plane make one layer; a first and a last layer
// without contours are dropped.
func SSlice(mesh *Mesh, Z Vector, s slicers.Settings) []Layer {
	if mesh == nil || len(mesh.Triangles) == 0 {
		return nil
	}
	Z = Z.Normalize()
	ts := mesh.CopyTriangles()
	sort.Slice(ts, func(i, j int) bool { return ts[i].MinZ(Z) < ts[j].MinZ(Z) })
	if s.SupportsOn {
		ts = append(supports(mesh, Z, s), ts...)
	}
	lo, hi := mesh.MinMaxZ(Z)
	n := int(math.Ceil((hi - lo) / s.LayerHeight))

	var layers []Layer
	next := 0
	var reached []*Triangle
	for i := 0; i < n; i++ {
		p := OriginPoint.Shift(Z.MulScalar(lo + (hi-lo)/float64(n)*(float64(i)+0.5)))
		z := p.ToVector().Dot(Z)
		var still []*Triangle
		for _, t := range reached {
			if t.MaxZ(Z) >= z {
				still = append(still, t)
			}
		}
		reached = still
		for next < len(ts) && ts[next].MinZ(Z) <= z {
			t := ts[next]
			reached = append(reached, &t)
			next++
		}
		layers = append(layers, layer(i, Plane{P: p, N: Z}, reached))
	}
	return drop(layers)
}

// SSliceKeep: the same, leaving a triangle out of the layers above it only when it is cut.
func SSliceKeep(mesh *Mesh, Z Vector, s slicers.Settings) []Layer {
	if mesh == nil || len(mesh.Triangles) == 0 {
		return nil
	}
	Z = Z.Normalize()
	ts := mesh.CopyTriangles()
	sort.Slice(ts, func(i, j int) bool { return ts[i].MinZ(Z) < ts[j].MinZ(Z) })
	if s.SupportsOn {
		ts = append(supports(mesh, Z, s), ts...)
	}
	lo, hi := mesh.MinMaxZ(Z)
	n := int(math.Ceil((hi - lo) / s.LayerHeight))

	var layers []Layer
	next := 0
	var begun []*Triangle
	for i := 0; i < n; i++ {
		p := OriginPoint.Shift(Z.MulScalar(lo + (hi-lo)/float64(n)*(float64(i)+0.5)))
		z := p.ToVector().Dot(Z)
		for next < len(ts) && ts[next].MinZ(Z) <= z {
			t := ts[next]
			begun = append(begun, &t)
			next++
		}
		var reached []*Triangle
		for _, t := range begun {
			if t.MaxZ(Z) >= z {
				reached = append(reached, t)
			}
		}
		layers = append(layers, layer(i, Plane{P: p, N: Z}, reached))
	}
	return drop(layers)
}

// SSliceAll: the same, looking at every triangle for every plane.
func SSliceAll(mesh *Mesh, Z Vector, s slicers.Settings) []Layer {
	if mesh == nil || len(mesh.Triangles) == 0 {
		return nil
	}
	Z = Z.Normalize()
	ts := mesh.CopyTriangles()
	sort.Slice(ts, func(i, j int) bool { return ts[i].MinZ(Z) < ts[j].MinZ(Z) })
	if s.SupportsOn {
		ts = append(supports(mesh, Z, s), ts...)
	}
	lo, hi := mesh.MinMaxZ(Z)
	n := int(math.Ceil((hi - lo) / s.LayerHeight))

	var layers []Layer
	for i := 0; i < n; i++ {
		p := OriginPoint.Shift(Z.MulScalar(lo + (hi-lo)/float64(n)*(float64(i)+0.5)))
		z := p.ToVector().Dot(Z)
		var reached []*Triangle
		for k := range ts {
			if ts[k].MinZ(Z) <= z && ts[k].MaxZ(Z) >= z {
				reached = append(reached, &ts[k])
			}
		}
		layers = append(layers, layer(i, Plane{P: p, N: Z}, reached))
	}
	return drop(layers)
}

// SSupported: one plane that every triangle reaches: all of them are cut, the support triangles too.
func SSupported(mesh *Mesh, Z Vector, s slicers.Settings) []Layer {
	if mesh == nil || len(mesh.Triangles) == 0 {
		return nil
	}
	Z = Z.Normalize()
	ts := mesh.CopyTriangles()
	sort.Slice(ts, func(i, j int) bool { return ts[i].MinZ(Z) < ts[j].MinZ(Z) })
	ts = append(supports(mesh, Z, s), ts...)
	lo, hi := mesh.MinMaxZ(Z)
	pl := Plane{P: OriginPoint.Shift(Z.MulScalar((lo + hi) / 2)), N: Z}
	var paths []Path
	for i := range ts {
		if l := pl.IntersectTriangle(&ts[i]); l != nil {
			paths = append(paths, Path{Points: []Point{l.P1, l.P2}})
		}
	}
	return drop([]Layer{{Order: 0, Norm: Z, Paths: JoinPaths3AndMinimize(paths)}})
}

func layer(i int, pl Plane, ts []*Triangle) Layer {
	var paths []Path
	for _, t := range ts {
		if l := pl.IntersectTriangle(t); l != nil {
			paths = append(paths, Path{Points: []Point{l.P1, l.P2}})
		}
	}
	return Layer{Order: i, Norm: pl.N, Paths: JoinPaths3AndMinimize(paths)}
}

func drop(ls []Layer) []Layer {
	if len(ls) > 0 && len(ls[0].Paths) == 0 {
		ls = ls[1:]
	}
	if len(ls) > 0 && len(ls[len(ls)-1].Paths) == 0 {
		ls = ls[:len(ls)-1]
	}
	return ls
}

// supports: two triangles between every outer edge of the overhang and its projection on the base
// plane, those that meet the model left out.
func supports(mesh *Mesh, Z Vector, s slicers.Settings) []Triangle {
	lo, _ := mesh.MinMaxZ(Z)
	base := Plane{P: OriginPoint.Shift(Z.MulScalar(lo)), N: Z}
	over := helpers.FilterTrianglesByColor(*mesh, s.ColorizedAngle, s.UnitVector)
	if s.SupportOffset != 0 {
		var moved []Triangle
		for _, t := range over {
			moved = append(moved, t.Shift(s.UnitVector.MulScalar(-s.SupportOffset)))
		}
		over = moved
	}
	edges := helpers.MakeUndoubledLinesFromTriangles(over)
	feet := helpers.MakeSupportLines(edges, base)
	model := mesh.CopyTriangles()
	var out []Triangle
	for i, e := range edges {
		a := NewTriangle(feet[i].P1, e.P1, e.P2)
		b := NewTriangle(feet[i].P1, feet[i].P2, e.P2)
		if helpers.IntersectTriangles(a, model) == nil {
			out = append(out, a)
		}
		if helpers.IntersectTriangles(b, model) == nil {
			out = append(out, b)
		}
	}
	return out
}

// SEdges: the edges that no other edge of the triangles equals, in either direction.
func SEdges(ts []Triangle) []Line {
	var all, out []Line
	for _, t := range ts {
		all = append(all, Line{P1: t.P1, P2: t.P2}, Line{P1: t.P1, P2: t.P3}, Line{P1: t.P3, P2: t.P2})
	}
	for i, l := range all {
		again := false
		for j, m := range all {
			if j != i && (l == m || l == (Line{P1: m.P2, P2: m.P1})) {
				again = true
				break
			}
		}
		if !again {
			out = append(out, l)
		}
	}
	return out
}

// SEdgesRest: the same, each edge compared with the list without it.
func SEdgesRest(ts []Triangle) []Line {
	var all, out []Line
	for _, t := range ts {
		all = append(all, Line{P1: t.P1, P2: t.P2}, Line{P1: t.P1, P2: t.P3}, Line{P1: t.P3, P2: t.P2})
	}
	for i, l := range all {
		again := false
		for _, m := range append(append([]Line{}, all[:i]...), all[i+1:]...) {
			if l == m || l == (Line{P1: m.P2, P2: m.P1}) {
				again = true
				break
			}
		}
		if !again {
			out = append(out, l)
		}
	}
	return out
}

// SFeet: the edges projected along the normal of the plane.
func SFeet(ls []Line, a Plane) []Line {
	var out []Line
	for _, l := range ls {
		out = append(out, Line{P1: a.ProectionPointToPlane(l.P1), P2: a.ProectionPointToPlane(l.P2)})
	}
	return out
}

// SMeets: where the triangles that contain none of the corners meet the given one.
func SMeets(t Triangle, ts []Triangle) []Line {
	var out []Line
	for _, b := range ts {
		if b.PointBelongs(t.P1) || b.PointBelongs(t.P2) || b.PointBelongs(t.P3) {
			continue
		}
		if l := b.IntersectTriangle(&t); l != nil {
			out = append(out, *l)
		}
	}
	return out
}

// SMeetsOrNil: the same, with no result if there is none.
func SMeetsOrNil(t Triangle, ts []Triangle) []Line {
	if ls := SMeets(t, ts); len(ls) > 0 {
		return ls
	}
	return nil
}

// SFoot: the point of the plane straight below or above.
func SFoot(a Plane, p Point) Point {
	return p.Shift(a.N.MulScalar(-(p.ToVector().Dot(a.N) - a.P.ToVector().Dot(a.N)) / a.N.Dot(a.N)))
}

// SInside: the point is in the plane of the triangle and on the same side of its three edges.
func SInside(t *Triangle, p Point) bool {
	if !AlmostZero(t.N.Dot(t.P1.VectorTo(p))) {
		return false
	}
	a := t.P1.VectorTo(t.P2).Cross(t.P1.VectorTo(p)).Dot(t.N)
	b := t.P2.VectorTo(t.P3).Cross(t.P2.VectorTo(p)).Dot(t.N)
	c := t.P3.VectorTo(t.P1).Cross(t.P3.VectorTo(p)).Dot(t.N)
	return (a >= 0 && b >= 0 && c >= 0) || (a <= 0 && b <= 0 && c <= 0)
}

// SCopyTriangles: a list with the same triangles in the same order.
func SCopyTriangles(m *Mesh) []Triangle {
	res := make([]Triangle, len(m.Triangles))
	copy(res, m.Triangles)
	return res
}
