package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = checkFn{run: checkC24, rule: "Each slicing mode is evaluated symbolically, with slicing into three layers per part and the test of neighbouring layers failing where a history says, for every history up to the bound; the sequence of parts (which mesh, by which cuts, in which order, sliced and filled how) added to the job has to equal the specification's, where every side of every cut is printed once or cut further. The parts of planes lists of 0, 1 and 4 planes and of profiles of 0, 1, 2 and 4 points likewise. Turning of parts is left out here (C22).", assume: []string{"helpers.CutMesh, SliceByVector and PrepareLayers are functions of their arguments (C10, C31, C16, C21 say what they do)"}}
	checks["C22"] = checkFn{run: checkC22, rule: "Each slicing mode is evaluated symbolically for every history of failing layers up to the bound (see C24); the job has to equal the specification's, in which each part is turned by the rotations that belong to the bed commands issued so far, in their order and about the same centre. A plane found by a test of neighbouring layers has to lean by 60 degrees to the direction of the overhang, so that it is level when the part is turned by the azimuth of its normal plus 90 degrees and tilted.", assume: []string{"helpers.CutMesh, SliceByVector and PrepareLayers are functions of their arguments", "rotation of meshes, planes and vectors is C12, azimuths are C14"}}
}

// planeFields answers the placeholders tilted and rotz of the specification with the only
// boolean and the only number of the plane's type.
func planeFields(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
	if !it.prog.isSpec(cs.Fn) || cs.Fn.Name() != "tilted" && cs.Fn.Name() != "rotz" {
		return nil, false
	}
	s, ok := cs.Fn.Params[0].Type().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	want := types.IsBoolean
	if cs.Fn.Name() == "rotz" {
		want = types.IsFloat
	}
	at := -1
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&want != 0 {
			if at >= 0 {
				return nil, false
			}
			at = i
		}
	}
	if at < 0 {
		return nil, false
	}
	return step(cs.Args[0], mkFieldIdx(at)), true
}

var modeOpaqueNames = []string{"helpers.CutMesh", "slicers.SliceByVector", "slicers/vip.PrepareLayers", "slicers.CalcFillPlanes",
	"slicers/vip.SkirtPathes", "(*primitives.Mesh).Rotate", "(primitives.Plane).Rotate", "primitives.RotationAroundX", "primitives.RotationAroundZ", "debug.RecreateFile",
	"verifspec/modes.layerAt", "verifspec/modes.planeAt", "verifspec/modes.bend", "helpers.SimplifyMesh", "primitives.FindCentroid", "debug.AddLayer", "debug.AddPointsToFile", "debug.AddTriangleByPoints", "debug.AddLine", "debug.AddTriangle"}
var modeOpaque = opaqueNamed(modeOpaqueNames...)

var leanOpaque = opaqueNamed("primitives.FindCentroid", "(primitives.Plane).IntersectPathCodirectedWith", "(primitives.Vector).Azimuth", "primitives.RotationAroundX", "primitives.RotationAroundZ", "(primitives.Vector).Rotate", "(primitives.Vector).Angle", "(primitives.Point).Inside")

// nesting is the number of failing tests the value depends on one after the other.
func nesting(t *Term, memo map[*Term]int) int {
	if n, ok := memo[t]; ok {
		return n
	}
	n := 0
	up := func(ks []*Term) {
		for _, k := range ks {
			if d := nesting(k, memo); d > n {
				n = d
			}
		}
	}
	atom := func(a *Atom) {
		up(a.Args)
		if strings.HasSuffix(a.Op, "verifspec/modes.planeAt") {
			n++
		}
	}
	up(t.Kids)
	if t.Atom != nil {
		atom(t.Atom)
	}
	if t.Var != nil {
		up(t.Var.Args)
	}
	if t.Poly != nil {
		for _, m := range t.Poly.T {
			for _, f := range m.M.Fs {
				atom(f.A)
			}
		}
	}
	memo[t] = n
	return n
}

// history lets slicing give three layers and the test of neighbouring layers fail just where h
// says: h[d] is the upper layer of the pair that fails once d parts have been cut off.
func (c *Ctx) history(h []int, centers map[string]map[*ssa.Function]bool, tests map[*ssa.Function]bool, set map[*Term]bool, bends int, parts bool) func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
	sp := func(n string) *ssa.Function { return c.p.spec("modes", n) }
	center := bySignature(map[string]string{"(Layer) Point": "center"}, centers)
	return func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
		if r, ok := planeFields(it, fr, st, cs); ok {
			return r, ok
		}
		if n := relName(cs.Fn); parts && (n == "(*primitives.Mesh).Rotate" || n == "(primitives.Plane).Rotate") {
			return cs.Args[0], true
		}
		switch relName(cs.Fn) {
		case "slicers.SliceByVector", "slicers.CalcFillPlanes", "slicers/vip.PrepareLayers":
			var as []*Term
			for i, a := range cs.Args {
				if strings.HasSuffix(cs.Fn.Params[i].Type().String(), "slicers.Settings") {
					set[it.snap(st, a, 0)] = true
				} else {
					as = append(as, it.snap(st, a, 0))
				}
			}
			if cs.Fn.Name() != "SliceByVector" {
				return liftSmall(func(x []*Term) *Term { return symOf(cs.Res, "call:"+relName(cs.Fn), x...) }, as...), true
			}
			if parts {
				return it.Call(sp("layersZ"), cs.Args[:1], nil, st, cs.Ctx), true
			}
			return it.Call(sp("layers3"), cs.Args[:2], nil, st, cs.Ctx), true
		}
		if b := sp(fmt.Sprintf("bends%d", bends)); b != nil && relName(cs.Fn) == "helpers.SimplifyLine" {
			return it.Call(b, cs.Args, nil, st, cs.Ctx), true
		}
		if r, ok := center(it, fr, st, cs); ok {
			return r, ok
		}
		sg := sigName(cs.Fn)
		if cs.Fn.Signature.Recv() != nil || cs.Fn.Parent() != nil || cs.Fn.Pkg == nil || sg != "(Layer, Layer) *Plane" && sg != "(Layer, Layer) bool" {
			return nil, false
		}
		switch cs.Fn.Name() {
		case "found", "none", "yes", "no", "planeAt":
			return nil, false
		}
		if !strings.HasSuffix(sg, "bool") && !it.prog.isSpec(cs.Fn) {
			tests[cs.Fn] = true
		}
		as := []*Term{it.snap(st, cs.Args[0], 0), it.snap(st, cs.Args[1], 0)}
		lo, hi := layerIndex(as[0]), layerIndex(as[1])
		if lo < 0 || hi != lo+1 {
			return nil, false
		}
		d := nesting(as[0], map[*Term]int{})
		bad := d < len(h) && h[d] == hi
		n := map[bool]string{true: "found", false: "none"}[bad]
		if strings.HasSuffix(sg, "bool") {
			n = map[bool]string{true: "yes", false: "no"}[bad]
		}
		return it.Call(sp(n), cs.Args, nil, st, cs.Ctx), true
	}
}

// layerIndex is the i of layerAt(…, i), or -1.
func layerIndex(l *Term) int {
	n := -1
	if l.K == KStruct && len(l.Kids) > 0 {
		return layerIndex(l.Kids[0])
	}
	if l.K == KIte {
		return layerIndex(l.Kids[0])
	}
	mentionsF(l, func(a *Atom) bool {
		if !strings.HasSuffix(a.Op, "verifspec/modes.layerAt") {
			return false
		}
		if x := a.Args[len(a.Args)-1]; x.Poly != nil {
			if v, ok := x.Poly.isConst(); ok && v.IsInt() {
				n = int(v.Num().Int64())
			}
		}
		return true
	})
	return n
}

// histories are all the sequences of failing pairs with up to n cuts.
func histories(n int) [][]int {
	r := [][]int{nil}
	for last := r; n > 0; n-- {
		var next [][]int
		for _, h := range last {
			for i := 1; i <= 2; i++ {
				next = append(next, append(append([]int{}, h...), i))
			}
		}
		r, last = append(r, next...), next
	}
	return r
}

func checkC22(c *Ctx) {
	c.modes("each part turned as its bed", "", false)
}
func checkC24(c *Ctx) {
	c.modes("each part printed once", "Parts", true)
}

func (c *Ctx) modes(rule, pre string, parts bool) {
	set := map[*Term]bool{}
	centers := map[string]map[*ssa.Function]bool{}
	tests := map[*ssa.Function]bool{}
	client := func(h []int, bends int) Client {
		return Client{Opaque: modeOpaque, Call: c.history(h, centers, tests, set, bends, parts), NoMu: true, Unroll: 24}
	}
	for _, n := range []string{"None", "One", "Four"} {
		c.drivers(rule, "modes", client(nil, 0), [2]string{pre + n, "slicers/vip.SliceByPlanes"})
	}
	for _, m := range []struct {
		name, fn string
		cuts     int
	}{{"Default", "slicers/vip.SliceDefault2", 3}, {"5Axes", "slicers.Slice5Axes", 3}, {"Bridge", "slicers/vip.SliceBridge", 1}, {"Rotation", "slicers/vip.SliceRotation", 1}} {
		for _, h := range histories(m.cuts) {
			c.drivers(fmt.Sprintf("%s, when layers %v fail", rule, h), "modes", client(h, 0), [2]string{pre + m.name, m.fn})
		}
	}
	for _, n := range []int{0, 1, 2, 4} {
		c.drivers(fmt.Sprintf("%s, with %d profile points", rule, n), "modes", client(nil, n), [2]string{pre + "Profile", "slicers.SliceByProfile"})
	}
	for _, f := range sortedFns(centers["center"]) {
		c.sameAny("the centre of a layer", stripRepo(f.String()), f, Client{Opaque: modeOpaque}, nil, true, c.p.spec("modes", "center"))
	}
	for _, f := range sortedFns(tests) {
		c.leans(f)
	}
	if parts {
		c.add("settings are handed on unchanged", "slicing modes", token.NoPos, len(set) == 1, "slicing, walls or fill planes get %d different settings", len(set))
	}
}

// leans checks that the plane a test of neighbouring layers gives goes through the point where
// the overhang leaves the lower contour and leans by 60 degrees to the overhang's direction: it
// is level when the part is turned by 90 degrees more than the azimuth of its normal and tilted.
func (c *Ctx) leans(f *ssa.Function) {
	const rule = "the failing plane leans to the overhang"
	at := stripRepo(f.String())
	cl := Client{Opaque: leanOpaque, NoMu: true}
	c.guard(rule, at, f.Pos(), func() {
		o := c.run(f, argTerms(f), cl, nil, tTrue)
		if len(o.ret.Kids) == 0 {
			c.add(rule, at, f.Pos(), false, "undecided: %s", o.ret)
			return
		}
		n := 0
		for _, l := range leafConds(o.ret) {
			pl := l.t
			if pl.K == KNil {
				continue
			}
			if pl.K != KStruct && len(pl.Kids) == 1 {
				pl = pl.Kids[0]
			}
			if pl.K != KStruct || len(pl.Kids) != 2 || pl.Kids[0].K != KStruct || pl.Kids[1].K != KStruct {
				c.add(rule, at, f.Pos(), false, "undecided: returns %s", pl)
				return
			}
			n++
			ok := lift(func(x []*Term) *Term {
				if c.leansTo(x[:3], x[3:], cl) {
					return tTrue
				}
				return tFalse
			}, append(append([]*Term{}, pl.Kids[0].Kids...), pl.Kids[1].Kids...)...)
			if !valid(ok, bAnd(l.cond, o.cond)) {
				c.add(rule, at, f.Pos(), false, "a plane through %s\nhas the normal %s\nwhich does not lean by 60 degrees to where the overhang leaves the lower contour", pl.Kids[0], pl.Kids[1])
				return
			}
		}
		c.add(rule, at, f.Pos(), n > 0, "no plane is given")
	})
}

func (c *Ctx) leansTo(p, n []*Term, cl Client) bool {
	var hit *Atom
	at := func(t *Term, suffix string) *Atom {
		hit = nil
		mentionsF(t, func(a *Atom) bool {
			if hit == nil && strings.HasSuffix(a.Op, suffix) {
				hit = a
			}
			return hit != nil
		})
		return hit
	}
	a := at(p[0], "IntersectPathCodirectedWith")
	if a == nil || len(a.Args) != 3 {
		return false
	}
	base, dir := a.Args[0], a.Args[2]
	same := func(spec string, as ...*Term) bool {
		o := c.run(c.p.spec("modes", spec), as, cl, nil, tTrue)
		if o.ret.K != KStruct || len(o.ret.Kids) != 3 {
			return false
		}
		for i, k := range o.ret.Kids {
			if !eqTerms(k, n[i], tTrue) {
				return false
			}
		}
		return true
	}
	pt := mkStruct(base.Kids[0].Typ, p...)
	if same("leanV", dir) || same("leanP", base.Kids[0], pt) {
		return true
	}
	// a direction given by its angle
	r := at(dir, "primitives.RotationAroundZ")
	if r == nil {
		return false
	}
	o := c.run(c.p.spec("modes", "direction"), r.Args, cl, nil, tTrue)
	return eqTerms(o.ret, dir, tTrue) && same("leanA", r.Args[0])
}
