// Package prim states what the geometric primitives have to compute.
package prim

import (
	"math"

	. "github.com/l1va/goosli/primitives"
)

func V3(x, y, z float64) Vector { return Vector{X: x, Y: y, Z: z} }
func P3(x, y, z float64) Point  { return Point{X: x, Y: y, Z: z} }

func VectorV(x, y, z float64) Vector       { return Vector{X: x, Y: y, Z: z} }
func VectorToVector(p1, p2 Point) Vector   { return V3(p2.X-p1.X, p2.Y-p1.Y, p2.Z-p1.Z) }
func VectorAdd(a, b Vector) Vector         { return V3(a.X+b.X, a.Y+b.Y, a.Z+b.Z) }
func VectorSub(a, b Vector) Vector         { return V3(a.X-b.X, a.Y-b.Y, a.Z-b.Z) }
func VectorDot(a, b Vector) float64        { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func VectorMulScalar(a Vector, k float64) Vector {
	return V3(k*a.X, k*a.Y, k*a.Z)
}
func VectorCross(a, b Vector) Vector {
	return V3(a.Y*b.Z-b.Y*a.Z, a.Z*b.X-b.Z*a.X, a.X*b.Y-b.X*a.Y)
}
func VectorToPoint(a Vector) Point          { return P3(a.X, a.Y, a.Z) }
func VectorCodirectedWith(a, b Vector) bool { return VectorDot(a, b) >= 0 }
func VectorLengthSquare(a Vector) float64   { return VectorDot(a, a) }
func VectorLength(a Vector) float64         { return math.Sqrt(VectorDot(a, a)) }
func VectorReverse(a Vector) Vector         { return V3(-a.X, -a.Y, -a.Z) }
func VectorNormalize(a Vector) Vector {
	l := VectorLength(a)
	if l == 0 {
		return a
	}
	return VectorMulScalar(a, 1/l)
}
func VectorAngle(a, b Vector) float64 {
	c := VectorDot(a, b) / (VectorLength(a) * VectorLength(b))
	if c > 1 { // only by rounding
		return 0
	}
	if c < -1 {
		return 180
	}
	return math.Acos(c) / math.Pi * 180
}
func VectorProjectOn(a, b Vector) Vector {
	bb := VectorDot(b, b)
	if bb == 0 {
		return b
	}
	return VectorMulScalar(b, VectorDot(a, b)/bb)
}
func VectorProjectOnPlane(a Vector, p Plane) Vector {
	return VectorSub(a, VectorProjectOn(a, p.N))
}

func PointVectorTo(a, b Point) Vector { return V3(b.X-a.X, b.Y-a.Y, b.Z-a.Z) }
func PointShift(a Point, v Vector) Point {
	return P3(a.X+v.X, a.Y+v.Y, a.Z+v.Z)
}
func PointToVector(a Point) Vector { return V3(a.X, a.Y, a.Z) }
func PointDistanceTo(a, b Point) float64 {
	return VectorLength(PointVectorTo(a, b))
}
func PointEqual(a, b Point) bool {
	return Small(a.X-b.X) && Small(a.Y-b.Y) && Small(a.Z-b.Z)
}
func Small(f float64) bool { return f < 1e-6 && f > -1e-6 }
func PointProjectOnLine(a, b, c Point) Point {
	d := VectorNormalize(PointVectorTo(b, c))
	return PointShift(b, VectorMulScalar(d, VectorDot(PointVectorTo(b, a), d)))
}
func PointDistanceToLine(a, b, c Point) float64 {
	return PointDistanceTo(PointProjectOnLine(a, b, c), a)
}
func NearestInt(x float64) int {
	if x < 0 {
		return int(math.Ceil(x - 0.5))
	}
	return int(math.Floor(x + 0.5))
}
func PointMapKey(a Point) Point {
	return P3(float64(NearestInt(a.X*1e8))/1e8, float64(NearestInt(a.Y*1e8))/1e8, float64(NearestInt(a.Z*1e8))/1e8)
}
func ToRad(d float64) float64 { return d / 180 * math.Pi }

func LineToVector(l Line) Vector { return PointVectorTo(l.P1, l.P2) }
func LineReverse(l Line) Line    { return Line{P1: l.P2, P2: l.P1} }
func LineLen(l Line) float64     { return PointDistanceTo(l.P1, l.P2) }
func LineIsCollinear(a, b Line) bool {
	return Small(VectorLength(VectorCross(LineToVector(a), LineToVector(b))))
}
