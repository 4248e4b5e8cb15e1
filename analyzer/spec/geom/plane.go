package geom

import (
	"math"

	. "github.com/l1va/goosli/primitives"
)

// ---- planes (C15)

func above(p Plane, q Point) float64 { return dot(sub(q, p.P), p.N) }

func SSegment(p Plane, a, b Point) *Point {
	ha, hb := above(p, a), above(p, b)
	if ha == hb {
		return nil
	}
	t := ha / (ha - hb)
	if 0 <= t && t <= 1 {
		q := move(a, scale(sub(b, a), t))
		return &q
	}
	return nil
}
func SInFront(p Plane, q Point) bool { return above(p, q) >= 0 }
func SBelongs(p Plane, q Point) bool { return small(above(p, q)) }
func SProjection(p Plane, q Point) Point {
	return move(q, scale(p.N, -above(p, q)/dot(p.N, p.N)))
}
func SOverlaps(p Plane, t *Triangle) bool {
	if t == nil {
		return false
	}
	a, b, c := dot(vec(t.P1), p.N), dot(vec(t.P2), p.N), dot(vec(t.P3), p.N)
	h := dot(vec(p.P), p.N)
	return math.Min(a, math.Min(b, c)) <= h && h <= math.Max(a, math.Max(b, c))
}
func STriangle(p Plane, t *Triangle) *Line {
	if t == nil {
		return nil
	}
	a := p.IntersectSegment(t.P1, t.P2)
	b := p.IntersectSegment(t.P2, t.P3)
	c := p.IntersectSegment(t.P3, t.P1)
	var from, to *Point
	if a != nil && b != nil && !samePoint(*a, *b) {
		from, to = a, b
	} else if a != nil && c != nil && !samePoint(*a, *c) {
		from, to = a, c
	} else if b != nil && c != nil && !samePoint(*b, *c) {
		from, to = b, c
	} else {
		return nil
	}
	f, g := from.MapKey(), to.MapKey()
	if samePoint(f, g) {
		return nil
	}
	if dot(cross(sub(g, f), p.N), t.N) < 0 {
		return &Line{P1: f, P2: g}
	}
	return &Line{P1: g, P2: f}
}

// ---- extents (C16)

func lowest(a, b, c float64) float64  { return math.Min(a, math.Min(b, c)) }
func highest(a, b, c float64) float64 { return math.Max(a, math.Max(b, c)) }

func STriMin(t *Triangle, z Vector) float64 {
	return lowest(dot(vec(t.P1), z), dot(vec(t.P2), z), dot(vec(t.P3), z))
}
func STriMax(t *Triangle, z Vector) float64 {
	return highest(dot(vec(t.P1), z), dot(vec(t.P2), z), dot(vec(t.P3), z))
}
func STriMinMax(t *Triangle, z Vector) (float64, float64) {
	return STriMin(t, z), STriMax(t, z)
}
func SMeshMinMax(m *Mesh, z Vector) (float64, float64) {
	if len(m.Triangles) == 0 {
		return 0, 0
	}
	lo, hi := math.MaxFloat64, -math.MaxFloat64
	for i := range m.Triangles {
		lo = math.Min(lo, STriMin(&m.Triangles[i], z))
		hi = math.Max(hi, STriMax(&m.Triangles[i], z))
	}
	return lo, hi
}
