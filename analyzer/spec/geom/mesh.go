package geom

import (
	"errors"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

// ---- overhang marking (C31)

func overhang(t Triangle, angle float64, v Vector) bool {
	return t.N.Angle(v3(-v.X, -v.Y, -v.Z)) < 90-angle
}
func SColorize(m Mesh, angle float64, v Vector) []bool {
	var out []bool
	for _, t := range m.Triangles {
		out = append(out, overhang(t, angle, v))
	}
	return out
}
func SFilter(m Mesh, angle float64, v Vector) []Triangle {
	var out []Triangle
	for _, t := range m.Triangles {
		if overhang(t, angle, v) {
			out = append(out, t)
		}
	}
	return out
}

// ---- simplification (C34)

func SSimplifyLine(ps []Point, eps float64) []Point {
	if len(ps) < 2 {
		return ps
	}
	far := 0.0
	at := 0
	for i := 1; i < len(ps)-1; i++ {
		if d := ps[i].DistanceToLine(ps[0], ps[len(ps)-1]); d > far {
			at, far = i, d
		}
	}
	if far <= eps {
		return []Point{ps[0], ps[len(ps)-1]}
	}
	head := helpers.SimplifyLine(ps[0:at+1], eps)
	tail := helpers.SimplifyLine(ps[at:], eps)
	var out []Point
	out = append(out, head[:len(head)-1]...)
	out = append(out, tail...)
	return out
}

var errNil = errors.New("nil mesh")
