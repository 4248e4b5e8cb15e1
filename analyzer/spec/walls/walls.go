// Package walls holds the specification of walls and skirts (C21).
package walls

import (
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

// chain: up to n polylines, the first an offset of p, every next one an offset of the previous.
func chain(p Path, n int, width float64, norm Vector) []Path {
	first := vip.MakeOffset(p, width, norm)
	if first == nil {
		return nil
	}
	res := []Path{*first}
	for k := 1; k < n; k++ {
		next := vip.MakeOffset(res[k-1], width, norm)
		if next == nil {
			return res
		}
		res = append(res, *next)
	}
	return res
}

func wallCount(s slicers.Settings) int { return int(s.WallThickness/s.GcodeSettings.LineWidth + 1e-6) }

func DWalls(layers []Layer, s slicers.Settings, planes, full []Plane) []Layer {
	return vip.PrepareLayers(layers, s, planes, full)
}
func SWalls(layers []Layer, s slicers.Settings, planes, full []Plane) []Layer {
	more := wallCount(s) - 1
	if more <= 0 {
		return slicers.FillLayers(layers, planes, full, s)
	}
	var res []Layer
	for _, l := range layers {
		mid, in := l.MiddlePs, l.InnerPs
		for _, p := range l.Paths {
			if len(p.Points) < 2 {
				continue
			}
			walls := chain(p, more, s.GcodeSettings.LineWidth, l.Norm)
			if len(walls) == 0 {
				continue
			}
			last := len(walls) - 1
			mid = append(mid, walls[:last]...)
			in = append(in, walls[last])
		}
		l.MiddlePs, l.InnerPs = mid, in
		res = append(res, l)
	}
	return slicers.FillLayers(res, planes, full, s)
}

func DSkirt(l Layer, n int, width float64) Layer { return vip.SkirtPathes(l, n, width) }
func SSkirt(l Layer, n int, width float64) Layer {
	if n == 0 {
		return l
	}
	out := Vector{X: -l.Norm.X, Y: -l.Norm.Y, Z: -l.Norm.Z}
	var res []Path
	for _, p := range l.Paths {
		if len(p.Points) < 2 {
			continue
		}
		skirt := chain(p, n, width, out)
		for k := len(skirt) - 1; k >= 0; k-- {
			res = append(res, skirt[k])
		}
		res = append(res, p)
	}
	l.Paths = res
	return l
}

func DOffset(p Path, width float64, norm Vector) *Path { return vip.MakeOffset(p, width, norm) }
func SOffset(p Path, width float64, norm Vector) *Path {
	if len(p.Points) < 2 {
		return nil
	}
	var moved, orig []Line
	for i := 0; i+1 < len(p.Points); i++ {
		a, b := p.Points[i], p.Points[i+1]
		in := norm.Cross(a.VectorTo(b)).Normalize().MulScalar(-width)
		l := Line{P1: a.Shift(in), P2: b.Shift(in)}
		moved = append(moved, l)
		orig = append(orig, l)
	}
	closed := p.IsClosed()
	if closed {
		moved = append(moved, moved[0])
	}
	for i := 0; i+1 < len(moved); i++ {
		if x := moved[i].IntersectLine2(moved[i+1]); x != nil {
			moved[i].P2, moved[i+1].P1 = *x, *x
		} else {
			moved[i+1].P1 = moved[i].P2
		}
	}
	if closed {
		moved[0].P1 = moved[len(moved)-1].P1
		moved = moved[:len(moved)-1]
	}
	var kept []Line
	for i, l := range moved {
		if l.ToVector().CodirectedWith(orig[i].ToVector()) {
			kept = append(kept, l)
		}
	}
	joins := len(kept)
	if !closed {
		joins--
	}
	for i := 0; i < joins; i++ {
		j := (i + 1) % len(kept)
		if AlmostZero(kept[i].P2.DistanceTo(kept[j].P1)) {
			continue
		}
		if x := kept[i].IntersectLine2(kept[j]); x != nil {
			kept[i].P2, kept[j].P1 = *x, *x
		} else {
			kept[j].P1 = kept[i].P2
		}
	}
	if len(kept) < 2 {
		return nil
	}
	pts := []Point{kept[0].P1}
	for _, l := range kept {
		pts = append(pts, l.P2)
	}
	r := Path{Points: pts}.MinimizeLines()
	return &r
}

// Other ways to write chain for n > 0.
func chain2(p Path, n int, width float64, norm Vector) []Path {
	var res []Path
	cur := vip.MakeOffset(p, width, norm)
	for cur != nil {
		res = append(res, *cur)
		if len(res) >= n {
			break
		}
		cur = vip.MakeOffset(*cur, width, norm)
	}
	return res
}
func chain3(p Path, n int, width float64, norm Vector) []Path {
	var res []Path
	for k := 0; k < n; k++ {
		next := vip.MakeOffset(p, width, norm)
		if next == nil {
			break
		}
		res = append(res, *next)
		p = *next
	}
	return res
}
func chain4(p Path, n int, width float64, norm Vector) []Path {
	var res []Path
	for len(res) < n {
		from := p
		if len(res) > 0 {
			from = res[len(res)-1]
		}
		next := vip.MakeOffset(from, width, norm)
		if next == nil {
			break
		}
		res = append(res, *next)
	}
	return res
}
func chain5(p Path, n int, width float64, norm Vector) []Path {
	first := vip.MakeOffset(p, width, norm)
	if first == nil {
		return nil
	}
	res := []Path{*first}
	prev := *first
	for k := 1; k < n; k++ {
		next := vip.MakeOffset(prev, width, norm)
		if next == nil {
			return res
		}
		res = append(res, *next)
		prev = *next
	}
	return res
}
