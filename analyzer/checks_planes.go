package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = checkFn{run: checkC23, rule: "Reading composed with writing: ParsePlane applied to the text String produces for an arbitrary plane is reduced to its normal form (the text is a list of literal and printed parts that the reader takes apart again) and compared field by field with the plane at print precision; the normal is compared with the function of tilt flag and rotation in analyzer/spec/planes. The loop that reads a planes file becomes one element-wise map over its lines; the analyzer's file is the concatenation of one line per plane.",
		assume: []string{"a number printed with three decimals is read back as the printed number (float32 rounding of it is outside)"}}
}

func checkC23(c *Ctx) {
	rule := "a written plane is read back"
	d := c.p.spec("planes", "DText")
	pr, norm := c.p.spec("planes", "SPrinted"), c.p.spec("planes", "SNormal")
	if d == nil || pr == nil || norm == nil {
		c.add(rule, "vip.ParsePlane", 0, false, "undecided: the specification does not fit the repository's functions: %s", c.p.specErrs[specPrefix+"/planes"])
		return
	}
	var read *ssa.Function
	for _, f := range c.p.funcs {
		if n := relName(f); n == "slicers/vip.ParsePlane" {
			read = f
		}
	}
	pt := d.Signature.Params().At(0).Type()
	c.guard(rule, "vip.ParsePlane", read.Pos(), func() {
		as := argTerms(d)
		o := c.run(d, as, Client{}, nil, tTrue)
		in, out := expandAll(as[0], pt), expandAll(o.ret, pt)
		if in == nil || out == nil {
			c.add(rule, "vip.ParsePlane", read.Pos(), false, "undecided: the result is %s; notes %v", o.ret, o.it.notes)
			return
		}
		printed := func(x *Term) *Term { return c.run(pr, []*Term{x}, Client{}, nil, tTrue).ret }
		var flag, rot *Term
		flags, rots := 0, 0
		for i := range in {
			f := in[i]
			want := f.v
			if f.basic&types.IsFloat != 0 {
				want = printed(f.v)
			}
			if f.name == "Plane.N" {
				continue
			}
			if f.name != "Plane.P.X" && f.name != "Plane.P.Y" && f.name != "Plane.P.Z" {
				if f.basic&types.IsBoolean != 0 {
					flags++
					flag = f.v
				} else if f.basic&types.IsFloat != 0 {
					rots++
					rot = want
				}
			}
			ok := eqTerms(out[i].v, want, o.cond) || newEq().eq(out[i].v, want, o.cond)
			c.add(rule, "vip.ParsePlane → "+f.name, read.Pos(), ok, "the field read back is %s\nexpected %s", out[i].v, want)
		}
		c.add(rule, "vip.ParsePlane returns", read.Pos(), eqCond(o.cond, tTrue), "does not return when %s", bNot(o.cond))
		if flags != 1 || rots != 1 {
			c.add("normal follows from flag and rotation", "vip.ParsePlane", read.Pos(), false, "undecided: the plane has %d flags and %d rotations", flags, rots)
			return
		}
		w := c.run(norm, []*Term{flag, rot}, Client{}, nil, tTrue).ret
		for i := range out {
			if out[i].name == "Plane.N" {
				ok := eqTerms(out[i].v, w, o.cond) || newEq().eq(out[i].v, w, o.cond)
				c.add("normal follows from flag and rotation", "vip.ParsePlane", read.Pos(), ok, "the normal is %s\nexpected %s", out[i].v, w)
			}
		}
	})
	checkAnalyzed(c, norm, pt)
	n := 0
	for _, f := range c.p.funcs {
		s := f.Signature
		if f.Parent() != nil || f.Pkg == nil || stripRepo(f.Pkg.Pkg.Path()) != "slicers/vip" || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 {
			continue
		}
		if b, ok := s.Params().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		if sl, ok := s.Results().At(0).Type().Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem(), pt) {
			continue
		}
		n++
		c.sameOn("one plane per line", stripRepo(f.String()), f, c.p.spec("planes", "SRead"), Client{SiteFree: true, Opaque: opaqueNamed("slicers/vip.ParsePlane")}, nil, nil, true)
	}
	if n == 0 {
		c.add("one plane per line", "the reader of planes files", 0, false, "undecided: no function of vip turns a file name into a list of planes")
	}
	var main *ssa.Function
	for _, f := range c.p.funcs {
		if f.Name() == "main" && f.Parent() == nil && f.Pkg != nil && stripRepo(f.Pkg.Pkg.Path()) == "cmd/goosli_analyzer" {
			main = f
		}
	}
	cl := cmdClient("primitives.LoadSTL", "(*primitives.Mesh).Shift", "slicers/vip.Analyze", "os.WriteFile", "(slicers/vip.AnalyzedPlane).String")
	cl.SiteFree = true
	c.sameCalls("one line per plane", "goosli_analyzer", main, c.p.spec("cmds", "SAnalyzerFile"), cl, watch{"os.WriteFile": {0, 1}})
}

type flatField struct {
	name  string
	basic types.BasicInfo
	v     *Term
}

// expandAll lists the basic fields of a struct value, and its vectors as a whole.
func expandAll(v *Term, t types.Type) []flatField {
	var out []flatField
	ok := true
	var rec func(v *Term, t types.Type, name string)
	rec = func(v *Term, t types.Type, name string) {
		st, isS := t.Underlying().(*types.Struct)
		if !isS || name == "Plane.N" {
			f := flatField{name: name, v: v}
			if b, isB := t.Underlying().(*types.Basic); isB {
				f.basic = b.Info()
			}
			out = append(out, f)
			return
		}
		if v.K != KStruct || len(v.Kids) != st.NumFields() {
			ok = false
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			if name != "" {
				n = name + "." + n
			}
			rec(v.Kids[i], st.Field(i).Type(), n)
		}
	}
	rec(v, t, "")
	if !ok {
		return nil
	}
	return out
}

// checkAnalyzed: the planes the analysis itself uses have the normal that is read back.
func checkAnalyzed(c *Ctx, norm *ssa.Function, pt types.Type) {
	rule := "the analysed normal is the one read back"
	var an *ssa.Function
	for _, f := range c.p.funcs {
		if relName(f) == "slicers/vip.Analyze" {
			an = f
		}
	}
	if c.require(an, "slicers/vip.Analyze") == nil {
		return
	}
	c.guard(rule, "vip.Analyze", an.Pos(), func() {
		it := newInterp(c.p, Client{NoMu: true, Opaque: opaqueNamed("helpers.CutMesh", "helpers.ColorizeTriangles", "(*primitives.Triangle).MinZ", "(primitives.Point).ToVector")})
		st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
		it.Call(an, argTerms(an), nil, st, "T")
		c.visit(it)
		n := 0
		flatten(*it.sink, true, func(e *Event, _ bool) {
			if e.Kind != "append" {
				return
			}
			for _, l := range leafConds(e.Args[1]) {
				if l.t.K != ACat {
					continue
				}
				for _, q := range l.t.Kids {
					if q.K != PElem || q.Kids[0].K != KStruct || !types.Identical(q.Kids[0].Typ, pt) {
						continue
					}
					n++
					c.sameDirection(rule, "vip.Analyze", e.Pos, norm, q.Kids[0], pt)
				}
			}
		})
		c.add(rule, "vip.Analyze", an.Pos(), n > 0, "undecided: no analysed plane found")
	})
}

// sameDirection: the normal of plane value v points where its flag and rotation say.
func (c *Ctx) sameDirection(rule, construct string, pos token.Pos, norm *ssa.Function, v *Term, pt types.Type) {
	fs := expandAll(v, pt)
	var flag, rot, n *Term
	for _, f := range fs {
		switch {
		case f.name == "Plane.N":
			n = f.v
		case f.basic&types.IsBoolean != 0:
			flag = f.v
		case f.basic&types.IsFloat != 0 && !strings.HasPrefix(f.name, "Plane."):
			rot = f.v
		}
	}
	if flag == nil || rot == nil || n == nil || n.K != KStruct || len(n.Kids) != 3 {
		c.add(rule, construct, pos, false, "undecided: the plane is %s", v)
		return
	}
	w := c.run(norm, []*Term{flag, rot}, Client{}, nil, tTrue).ret
	sq, dot := mkNum(0), mkNum(0)
	for i := range n.Kids {
		sq = numAdd(sq, numMul(n.Kids[i], n.Kids[i]))
		dot = numAdd(dot, numMul(n.Kids[i], w.Kids[i]))
	}
	care := posB(sq, false)
	for _, k := range n.Kids { // a direction with no horizontal part has no azimuth
		care = bAnd(care, squaresPos(k, map[*Term]bool{}))
	}
	for i := range n.Kids {
		a, b := (i+1)%3, (i+2)%3
		x, y := numMul(n.Kids[a], w.Kids[b]), numMul(n.Kids[b], w.Kids[a])
		if !eqTerms(x, y, care) && !newEq().eq(x, y, care) {
			c.add(rule, construct, pos, false, "the normal (%d: %s ≠ %s)\n%s\nis not in the direction %s\nof tilt flag %s and rotation %s", i, restrict(x, care), restrict(y, care), n, w, flag, rot)
			return
		}
	}
	c.add(rule, construct, pos, valid(posB(dot, false), care), "the normal %s may be opposite to %s", n, w)
}

// squaresPos: the sums of squares a value is decided by are positive.
func squaresPos(t *Term, seen map[*Term]bool) *Term {
	if t.K != KIte || seen[t] {
		return tTrue
	}
	seen[t] = true
	r := bAnd(squaresPos(t.Kids[0], seen), squaresPos(t.Kids[1], seen))
	if t.Var.Op == "pos" && len(t.Var.Args) == 1 && t.Var.Args[0].K == KNum {
		p := t.Var.Args[0].Poly
		ok := len(p.T) > 1
		for _, m := range p.T {
			even := m.C.Sign() > 0
			for _, f := range m.M.Fs {
				even = even && f.E%2 == 0
			}
			ok = ok && even
		}
		if ok {
			r = bAnd(r, mkVarB(t.Var))
		}
	}
	return r
}
