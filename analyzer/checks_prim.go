package main

import (
	"golang.org/x/tools/go/ssa"
)

// stdOpaque: which repository functions other checks keep closed (their own
// meaning is decided by their own property).
func stdOpaque(p *Program) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool { return false }
}

func init() {
	checks["C14"] = checkFn{run: checkC14, rule: "Each function's value, as the normal form of its return value over all real arguments, is compared with the normal form of the algebraic specification (analyzer/spec/prim). Helpers are inlined, branches joined as decision diagrams, no input is ever run."}
}

type pair struct{ typ, name, spec string }

func (c *Ctx) pairs(rule, pkg, specPkg string, cl Client, ps []pair) {
	for _, q := range ps {
		var f *ssa.Function
		n := q.name
		if q.typ != "" {
			f = c.p.meth(pkg, q.typ, q.name)
			n = q.typ + "." + q.name
		} else {
			f = c.p.fn(pkg, q.name)
		}
		c.same(rule, pkg+"."+n, f, c.p.spec(specPkg, q.spec), cl)
	}
}

func checkC14(c *Ctx) {
	var ps []pair
	for _, n := range []string{"Add", "Sub", "Dot", "MulScalar", "Cross", "ToPoint", "CodirectedWith", "LengthSquare", "Length", "Reverse", "Normalize", "Angle", "ProjectOn", "ProjectOnPlane"} {
		ps = append(ps, pair{"Vector", n, "Vector" + n})
	}
	for _, n := range []string{"VectorTo", "Shift", "ToVector", "DistanceTo", "Equal", "ProjectOnLine", "DistanceToLine", "MapKey"} {
		ps = append(ps, pair{"Point", n, "Point" + n})
	}
	for _, n := range []string{"ToVector", "Reverse", "Len", "IsCollinear"} {
		ps = append(ps, pair{"Line", n, "Line" + n})
	}
	ps = append(ps, pair{"", "V", "VectorV"}, pair{"", "ToVector", "VectorToVector"}, pair{"", "AlmostZero", "Small"}, pair{"", "Round", "NearestInt"}, pair{"", "ToRadians", "ToRad"})
	c.pairs("textbook value", "primitives", "prim", Client{}, ps)
}
