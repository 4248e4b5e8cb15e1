// Package geom states what the geometric operations of the repository do.
package geom

import (
	"math"

	. "github.com/l1va/goosli/primitives"
)

func v3(x, y, z float64) Vector { return Vector{X: x, Y: y, Z: z} }
func p3(x, y, z float64) Point  { return Point{X: x, Y: y, Z: z} }
func sub(a, b Point) Vector     { return v3(a.X-b.X, a.Y-b.Y, a.Z-b.Z) }
func move(a Point, v Vector) Point {
	return p3(a.X+v.X, a.Y+v.Y, a.Z+v.Z)
}
func dot(a, b Vector) float64 { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func cross(a, b Vector) Vector {
	return v3(a.Y*b.Z-a.Z*b.Y, a.Z*b.X-a.X*b.Z, a.X*b.Y-a.Y*b.X)
}
func scale(a Vector, k float64) Vector { return v3(a.X*k, a.Y*k, a.Z*k) }
func norm(a Vector) float64            { return math.Sqrt(dot(a, a)) }
func vec(a Point) Vector               { return v3(a.X, a.Y, a.Z) }
func small(f float64) bool             { return f < 1e-6 && f > -1e-6 }
func samePoint(a, b Point) bool {
	return small(a.X-b.X) && small(a.Y-b.Y) && small(a.Z-b.Z)
}

// Tri is a triangle without its stored normal.
type Tri struct{ A, B, C Point }

func tri(t Triangle) Tri { return Tri{t.P1, t.P2, t.P3} }
func tris(m *Mesh) []Tri {
	var out []Tri
	for i := 0; i < len(m.Triangles); i++ {
		out = append(out, tri(m.Triangles[i]))
	}
	return out
}

// ---- rotations of vectors (C12)

func turnX(a Vector, deg float64) Vector {
	s, c := math.Sin(deg*math.Pi/180), math.Cos(deg*math.Pi/180)
	return v3(a.X, a.Y*c+a.Z*s, a.Z*c-a.Y*s)
}
func turnZ(a Vector, deg float64) Vector {
	s, c := math.Sin(deg*math.Pi/180), math.Cos(deg*math.Pi/180)
	return v3(a.X*c+a.Y*s, a.Y*c-a.X*s, a.Z)
}

func DRotX(a Vector, deg float64) Vector { return a.Rotate(RotationAroundX(deg)) }
func SRotX(a Vector, deg float64) Vector { return turnX(a, deg) }
func DRotZ(a Vector, deg float64) Vector { return a.Rotate(RotationAroundZ(deg)) }
func SRotZ(a Vector, deg float64) Vector { return turnZ(a, deg) }

func DPlaneX(p Plane, deg float64) Plane { return p.Rotate(RotationAroundX(deg)) }
func SPlaneX(p Plane, deg float64) Plane {
	q := turnX(vec(p.P), deg)
	return Plane{P: p3(q.X, q.Y, q.Z), N: turnX(p.N, deg)}
}
func DPlaneZ(p Plane, deg float64) Plane { return p.Rotate(RotationAroundZ(deg)) }
func SPlaneZ(p Plane, deg float64) Plane {
	q := turnZ(vec(p.P), deg)
	return Plane{P: p3(q.X, q.Y, q.Z), N: turnZ(p.N, deg)}
}

func DMeshX(m *Mesh, deg float64, c Point) []Tri { return tris(m.Rotate(RotationAroundX(deg), c)) }
func SMeshX(m *Mesh, deg float64, c Point) []Tri {
	f := func(p Point) Point { return move(c, turnX(sub(p, c), deg)) }
	var out []Tri
	for _, t := range m.Triangles {
		out = append(out, Tri{f(t.P1), f(t.P2), f(t.P3)})
	}
	return out
}
func DMeshZ(m *Mesh, deg float64, c Point) []Tri { return tris(m.Rotate(RotationAroundZ(deg), c)) }
func SMeshZ(m *Mesh, deg float64, c Point) []Tri {
	f := func(p Point) Point { return move(c, turnZ(sub(p, c), deg)) }
	var out []Tri
	for _, t := range m.Triangles {
		out = append(out, Tri{f(t.P1), f(t.P2), f(t.P3)})
	}
	return out
}

func DShift(ts []Triangle, v Vector) []Tri {
	m := &Mesh{Triangles: ts}
	m.Shift(v)
	return tris(m)
}
func SShift(ts []Triangle, v Vector) []Tri {
	var out []Tri
	for _, t := range ts {
		out = append(out, Tri{move(t.P1, v), move(t.P2, v), move(t.P3, v)})
	}
	return out
}
func DShiftTri(t Triangle, v Vector) Tri { return tri(t.Shift(v)) }
func SShiftTri(t Triangle, v Vector) Tri {
	return Tri{move(t.P1, v), move(t.P2, v), move(t.P3, v)}
}

// RotateAbout: Rodrigues' rotation, right-handed about b.
func DAbout(a, b Vector, deg float64) Vector { return a.RotateAbout(b, deg) }
func SAbout(a, b Vector, deg float64) Vector {
	s, c := math.Sin(deg*math.Pi/180), math.Cos(deg*math.Pi/180)
	along := b
	if dot(b, b) != 0 {
		along = scale(b, dot(a, b)/dot(b, b))
	}
	across := v3(a.X-along.X, a.Y-along.Y, a.Z-along.Z)
	w := cross(b, across)
	if norm(w) != 0 {
		w = scale(w, 1/norm(w))
	}
	w = scale(w, norm(across)*s)
	return v3(along.X+across.X*c+w.X, along.Y+across.Y*c+w.Y, along.Z+across.Z*c+w.Z)
}

func triangle(a, b, c Point) Triangle {
	return Triangle{P1: a, P2: b, P3: c, N: cross(sub(b, a), sub(c, a))}
}
