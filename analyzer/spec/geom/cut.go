package geom

import (
	"math"

	"github.com/fogleman/simplify"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

// ---- conversion for simplification (C35)

func DSimplifyMesh(m *Mesh, want int) (*Mesh, bool) {
	r, err := helpers.SimplifyMesh(m, want)
	return r, err != nil
}
func SSimplifyMesh(m *Mesh, want int) (*Mesh, bool) {
	if m == nil {
		return nil, true
	}
	if len(m.Triangles) <= want {
		return m, false
	}
	var out []*simplify.Triangle
	for _, t := range m.Triangles {
		out = append(out, &simplify.Triangle{
			V1: simplify.Vector{X: t.P1.X, Y: t.P1.Y, Z: t.P1.Z},
			V2: simplify.Vector{X: t.P2.X, Y: t.P2.Y, Z: t.P2.Z},
			V3: simplify.Vector{X: t.P3.X, Y: t.P3.Y, Z: t.P3.Z}})
	}
	in := &simplify.Mesh{Triangles: out}
	r := in.Simplify(float64(want) / float64(len(m.Triangles)))
	var back []Triangle
	for _, t := range r.Triangles {
		back = append(back, triangle(Point{X: t.V1.X, Y: t.V1.Y, Z: t.V1.Z}, Point{X: t.V2.X, Y: t.V2.Y, Z: t.V2.Z}, Point{X: t.V3.X, Y: t.V3.Y, Z: t.V3.Z}))
	}
	return &Mesh{Triangles: back}, false
}

// ---- cutting (C13)

func DCutMesh(m *Mesh, p Plane) (*Mesh, *Mesh, bool) {
	u, d, err := helpers.CutMesh(m, p)
	return u, d, err != nil
}
func SCutMesh(m *Mesh, p Plane) (*Mesh, *Mesh, bool) {
	if m == nil || len(m.Triangles) == 0 {
		return &Mesh{}, &Mesh{}, false
	}
	var up, down []Triangle
	var cut []Path
	for i := range m.Triangles {
		t := m.Triangles[i]
		a, b, c := p.PointInFront(t.P1), p.PointInFront(t.P2), p.PointInFront(t.P3)
		if a && b && c {
			up = append(up, t)
			continue
		}
		if !a && !b && !c {
			down = append(down, t)
			continue
		}
		l := p.IntersectTriangle(&t)
		// the vertex that is alone on its side (vertices within the tolerance count as one)
		loneUp, q := a, t.P1
		if a == c {
			loneUp, q = b, t.P2
		}
		if a == b {
			loneUp, q = c, t.P3
		}
		if l == nil { // touches the plane in one point only
			if loneUp {
				down = append(down, t)
			} else {
				up = append(up, t)
			}
			continue
		}
		cut = append(cut, Path{Points: []Point{l.P1, l.P2}})
		v, w, x := t.P1, t.P2, t.P3
		if t.P2.Equal(q) {
			v, w, x = t.P2, t.P3, t.P1
		} else if t.P3.Equal(q) {
			v, w, x = t.P3, t.P1, t.P2
		}
		// f on the edge from v to w, g on the edge from v to x
		f, g := l.P1, l.P2
		if n := cross(sub(w, v), sub(g, v)); small(math.Sqrt(dot(n, n))) {
			f, g = g, f
		}
		lone, q1, q2 := NewTriangle(v, f, g), NewTriangle(f, w, x), NewTriangle(x, g, f)
		if loneUp {
			up = append(up, lone)
			down = append(down, q1, q2)
		} else {
			down = append(down, lone)
			up = append(up, q1, q2)
		}
	}
	for _, c := range JoinPaths3AndMinimize(cut) {
		for j := 1; j < len(c.Points)-1; j++ {
			t := NewTriangle(c.Points[0], c.Points[j], c.Points[j+1])
			r := NewTriangle(c.Points[j+1], c.Points[j], c.Points[0])
			if dot(t.N, p.N) >= 0 {
				up, down = append(up, r), append(down, t)
			} else {
				up, down = append(up, t), append(down, r)
			}
		}
	}
	return &Mesh{Triangles: up}, &Mesh{Triangles: down}, false
}
