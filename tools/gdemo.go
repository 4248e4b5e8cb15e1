package main

// A little printer reads the generated G-code and compares what it does with the job.

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
)

type move struct {
	tool, f, layer            int
	from, to                  Point
	de, ret                   float64
	fan                       bool
	liftedFrom, travelFrom, z float64
	line                      string
}

type printer struct {
	tool, f, layer int
	e, ret         float64
	p              Point
	low            float64
	fan            bool
	axis           [3]float64
	prints         []move
	travels        []move
	announced      []int
	g62            []string
	other          []string
}

func (p *printer) run(text string) {
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, ";LAYER:") {
			n, _ := strconv.Atoi(l[7:])
			p.announced = append(p.announced, n)
			p.layer++
			continue
		}
		if i := strings.IndexByte(l, ';'); i >= 0 {
			l = l[:i]
		}
		ws := strings.Fields(l)
		if len(ws) == 0 {
			continue
		}
		v := map[byte]float64{}
		has := map[byte]bool{}
		for _, w := range ws[1:] {
			x, err := strconv.ParseFloat(w[1:], 64)
			if err != nil {
				fmt.Println("cannot read", l)
				os.Exit(1)
			}
			v[w[0]], has[w[0]] = x, true
		}
		switch ws[0] {
		case "T0", "T1", "T2":
			p.tool = int(ws[0][1] - '0')
		case "G92":
			if has['E'] {
				p.e = v['E']
			}
		case "M106":
			p.fan = true
		case "M107":
			p.fan = false
		case "G62":
			p.g62 = append(p.g62, l)
		case "G0", "G1":
			if has['F'] {
				p.f = int(v['F'])
			}
			q := p.p
			if has['X'] {
				q.X = v['X']
			}
			if has['Y'] {
				q.Y = v['Y']
			}
			if has['Z'] {
				q.Z = v['Z']
			}
			moves := has['X'] || has['Y'] || has['Z']
			m := move{tool: p.tool, f: p.f, layer: p.layer, from: p.p, to: q, ret: p.ret, fan: p.fan, liftedFrom: p.low, line: l}
			if has['E'] {
				m.de = v['E'] - p.e
				p.axis[p.tool] += m.de
				p.e = v['E']
				if moves {
					p.prints = append(p.prints, m)
				} else if p.tool == 0 {
					p.ret -= m.de
					p.other = append(p.other, fmt.Sprint(m.de))
				}
			} else if has['X'] || has['Y'] {
				p.travels = append(p.travels, m)
			}
			if moves {
				if has['X'] || has['Y'] || has['E'] || q.Z <= p.p.Z {
					p.low = q.Z
				}
				p.p = q
			}
		}
	}
}

var bad = 0

func fail(prop, f string, a ...interface{}) {
	if prop == property {
		fmt.Printf(f+"\n", a...)
		bad++
	}
}
func near(a, b, eps float64) bool { return math.Abs(a-b) <= eps }

type want struct {
	from, to Point
	layer    int
	wall     bool
}

func check(s gcode.GcodeSettings, cmds []gcode.Command) {
	g := gcode.NewGcode(s)
	for _, c := range cmds {
		if lm, ok := c.(gcode.LayersMoving); ok {
			g.AddLayers(lm.Layers)
		} else {
			g.Add(c)
		}
	}
	var b bytes.Buffer
	g.ToOutput(&b)
	p := &printer{}
	p.run(b.String())
	var ws []want
	layers := 0
	for _, c := range cmds {
		lm, ok := c.(gcode.LayersMoving)
		if !ok {
			continue
		}
		for _, l := range lm.Layers {
			for i, ps := range [][]Path{l.Paths, l.MiddlePs, l.InnerPs, l.Fill} {
				for _, q := range ps {
					for k := 1; k < len(q.Points); k++ {
						ws = append(ws, want{q.Points[k-1], q.Points[k], layers, i < 3})
					}
				}
			}
			layers++
		}
	}
	if len(p.announced) != layers || g.LayerCount() != layers {
		fail("C07", "%d layers announced, %d counted, %d in the job", len(p.announced), g.LayerCount(), layers)
	}
	for i, n := range p.announced {
		if n != i {
			fail("C07", "layer %d announced as %d", i, n)
		}
	}
	if len(p.prints) != len(ws) {
		fail("C07", "%d printing moves for %d segments", len(p.prints), len(ws))
		fail("C04", "%d printing moves for %d segments", len(p.prints), len(ws))
	}
	for i, m := range p.prints {
		if m.tool != 0 || !near(m.ret, 0, 0.003) {
			fail("C01", "%s: tool %d, %.3f retracted", m.line, m.tool, m.ret)
		}
		if i >= len(ws) {
			break
		}
		w := ws[i]
		if m.to.DistanceTo(w.to) > 0.003 {
			fail("C07", "%s: should go to %v", m.line, w.to)
			fail("C04", "%s: should go to %v, goes to %v", m.line, w.to, m.to)
		}
		if m.from.DistanceTo(w.from) > 0.003 {
			fail("C04", "%s: starts at %v, should start at %v", m.line, m.from, w.from)
		}
		de := 4 * s.LineWidth * s.LayerHeight * w.from.DistanceTo(w.to) * s.Flow / (math.Pi * s.BarDiameter * s.BarDiameter)
		if !near(m.de, de, 0.0025) {
			fail("C06", "%s: extrudes %.4f instead of %.4f", m.line, m.de, de)
			fail("C01", "%s: extrudes %.4f instead of %.4f", m.line, m.de, de)
		}
		f := s.PrintSpeed
		if w.wall {
			f = s.PrintSpeedWall
		}
		if w.layer == 0 {
			f = s.PrintSpeedLayer1
		}
		if m.f != f {
			fail("C02", "%s (layer %d): at F%d instead of F%d", m.line, w.layer, m.f, f)
		}
		if m.fan != !(w.layer == 0 && s.FanOffLayer1) {
			fail("C03", "%s (layer %d): fan %v", m.line, w.layer, m.fan)
		}
	}
	starts := map[string]float64{}
	for _, c := range cmds {
		if lm, ok := c.(gcode.LayersMoving); ok {
			for _, l := range lm.Layers {
				for _, ps := range [][]Path{l.Paths, l.MiddlePs, l.InnerPs, l.Fill} {
					for _, q := range ps {
						starts[fmt.Sprintf("%.3f %.3f", q.Points[0].X, q.Points[0].Y)] = q.Points[0].Z
					}
				}
			}
		}
	}
	for _, m := range p.travels {
		if m.to == (Point{X: 0, Y: 0, Z: 200}) {
			continue
		}
		if m.from.Z <= m.liftedFrom {
			fail("C04", "%s: starts travelling at height %.3f without lifting from %.3f", m.line, m.from.Z, m.liftedFrom)
		}
	}
	for _, o := range p.other {
		d, _ := strconv.ParseFloat(o, 64)
		if !s.Retraction && !near(d, 0, 1e-9) || !near(math.Abs(d), s.RetractionDistance, 0.003) {
			fail("C06", "filament moved by %s apart from printing", o)
		}
	}
	a1, a2 := 0.0, 0.0
	var g62 []string
	for _, c := range cmds {
		switch q := c.(type) {
		case gcode.RotateZ:
			a1 = q.Angle
		case gcode.InclineX:
			a2 = 60
		case gcode.InclineXBack:
			a2 = 0
		case gcode.RotateXZ:
			g62 = append(g62, fmt.Sprintf("G62 X%.3f Z%.3f", q.AngleX, q.AngleZ))
		}
	}
	if !near(p.axis[1], a1, 0.01) || !near(p.axis[2], a2, 0.01) {
		fail("C05", "bed stands at rotation %.3f tilt %.3f instead of %.3f and %.3f", p.axis[1], p.axis[2], a1, a2)
	}
	if len(g62) != len(p.g62) {
		fail("C05", "%d simultaneous moves instead of %d", len(p.g62), len(g62))
	}
	for i := range g62 {
		if i < len(p.g62) && norm(g62[i]) != norm(p.g62[i]) {
			fail("C05", "%s instead of %s", p.g62[i], g62[i])
		}
	}
}

func norm(l string) string {
	out := ""
	for _, w := range strings.Fields(l) {
		if x, err := strconv.ParseFloat(w[1:], 64); err == nil {
			out += fmt.Sprintf("%c%.2f ", w[0], x)
		}
	}
	return out
}

func path(ps ...float64) Path {
	var q Path
	for i := 0; i+2 < len(ps); i += 3 {
		q.Points = append(q.Points, Point{X: ps[i], Y: ps[i+1], Z: ps[i+2]})
	}
	return q
}

func layer(z float64, big float64) Layer {
	return Layer{
		Paths:    []Path{path(1, 2, z, 8, 2, z, 8, 9, z, 1, 9, z, 1, 2, z), path(-3, -2, z+0.1, -3, -8, z+0.3)},
		MiddlePs: []Path{path(2, 3, z, 7, 3, z, 7, 8, z)},
		InnerPs:  []Path{path(3, 4, z, 6, 4, z+0.2, 6, 4, z+0.7)},
		Fill:     []Path{path(3, 4.5, z, 3+big, 5.5, z), path(3, 5, z, 6, 5, z)},
	}
}

func main() {
	base := gcode.GcodeSettings{BarDiameter: 1.75, Flow: 0.9, LayerHeight: 0.2, LineWidth: 0.4, FanOffLayer1: true,
		PrintSpeed: 3000, PrintSpeedLayer1: 1000, PrintSpeedWall: 2000, Retraction: true, RetractionSpeed: 2400, RetractionDistance: 1.5}
	for _, ret := range []bool{true, false} {
		for _, fan := range []bool{true, false} {
			for _, speeds := range [][4]int{{3000, 1000, 2000, 2400}, {3000, 2000, 2000, 2000}, {300, 300, 1000, 1000}, {2000, 3000, 1000, 300}, {3000, 2400, 2000, 2400}} {
				s := base
				s.Retraction, s.FanOffLayer1 = ret, fan
				s.PrintSpeed, s.PrintSpeedLayer1, s.PrintSpeedWall, s.RetractionSpeed = speeds[0], speeds[1], speeds[2], speeds[3]
				L := func(ls ...Layer) gcode.Command { return gcode.LayersMoving{Layers: ls} }
				only := func(f string) Layer {
					l := layer(0.3, 5)
					switch f {
					case "Fill":
						return Layer{Fill: l.Fill}
					case "InnerPs":
						return Layer{InnerPs: l.InnerPs}
					}
					return Layer{}
				}
				check(s, []gcode.Command{L(layer(0.1, 5), layer(0.3, 5))})
				check(s, []gcode.Command{L(layer(0.1, 90000), layer(0.3, 70000), layer(0.5, 5)), gcode.RotateZ{Angle: 30}, L(layer(0.7, 5), layer(1.2, 100000)), gcode.InclineX{}, L(layer(3, 2))})
				check(s, []gcode.Command{gcode.RotateZ{Angle: 75}, gcode.InclineX{}, L(layer(0.1, 5)), gcode.InclineXBack{}, gcode.RotateZ{Angle: -40}, L(layer(0.5, 6), layer(0.7, 7)), gcode.InclineX{}, gcode.InclineX{}, gcode.InclineXBack{}, gcode.RotateZ{Angle: 12}, gcode.RotateZ{Angle: 180}, L(layer(2, 2))})
				zig := path(0, 0, 1, 5, 0, 1, 5, 5, 2, 0, 5, 2, 0, 9, 3, 4, 9, 6)
				check(s, []gcode.Command{L(layer(0.1, 5), Layer{Paths: []Path{zig}, Fill: []Path{path(1, 1, 1, 4, 4, 1)}}, Layer{Paths: []Path{zig, zig}, InnerPs: []Path{path(2, 2, 2, 3, 3, 3)}})})
				check(s, []gcode.Command{gcode.RotateXZ{AngleX: 10, AngleZ: -20}, L(layer(0.1, 5)), gcode.RotateXZ{AngleX: 0, AngleZ: 15}, L(), L(only(""), only("Fill"), only("InnerPs"), only("")), gcode.RotateZ{Angle: 5}, L(only("Fill")), gcode.InclineXBack{}, L(layer(250, 5), layer(1, 1))})
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Println("ok")
}
