package main

import (
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// drivers compares specification-package drivers D… (which call the repository's exported
// functions) with specifications S….
func (c *Ctx) drivers(rule, specPkg string, cl Client, ps ...[2]string) {
	for _, q := range ps {
		d, s := c.p.spec(specPkg, "D"+q[0]), c.p.spec(specPkg, "S"+q[0])
		if d == nil || s == nil {
			c.add(rule, q[1], 0, false, "undecided: the specification does not fit the repository's functions: %s", c.p.specErrs[specPrefix+"/"+specPkg])
			continue
		}
		specs := []*ssa.Function{s}
		for _, n := range []string{"2", "3", "4"} {
			if v := c.p.spec(specPkg, "S"+q[0]+n); v != nil {
				specs = append(specs, v)
			}
		}
		c.sameAny(rule, q[1], d, cl, nil, true, specs...)
	}
}

// sameAny: the implementation has to agree with one of several ways to write the same
// specification (loops of different shape can have different normal forms).
func (c *Ctx) sameAny(rule, construct string, impl *ssa.Function, cl Client, care *Term, retOnly bool, specs ...*ssa.Function) bool {
	return c.sameAnyOf(rule, construct, impl, cl, nil, care, retOnly, specs...)
}

func (c *Ctx) sameAnyOf(rule, construct string, impl *ssa.Function, cl Client, args []*Term, care *Term, retOnly bool, specs ...*ssa.Function) bool {
	if care == nil {
		care = tTrue
	}
	var first []Obl
	at := len(c.obls)
	for _, s := range specs {
		c.obls = c.obls[:at]
		if c.sameOn(rule, construct, impl, s, cl, args, care, retOnly) {
			return true
		}
		if first == nil || os.Getenv("AZ_LAST") != "" {
			first = nil
			first = append(first, c.obls[at:]...)
		}
	}
	c.obls = append(c.obls[:at], first...)
	return false
}

func opaqueNamed(names ...string) func(*ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function) bool { return m[relName(f)] }
}

// relName is the name of a function without the module path.
func relName(f *ssa.Function) string {
	return stripRepo(f.String())
}

func init() {
	checks["C12"] = checkFn{run: checkC12, rule: "The composed maps v ↦ v.Rotate(RotationAroundX(a)), …RotationAroundZ(a), RotateAbout, Plane.Rotate, Mesh.Rotate, Mesh.Shift and Triangle.Shift are reduced to their normal forms over all vectors, angles, centres and meshes of any size (loops become element-wise maps) and compared with the rigid motion they stand for; triangle and vertex order is part of the form."}
	checks["C15"] = checkFn{run: checkC15, rule: "The value of each plane operation is reduced to its normal form over all planes, points and triangles (decision diagrams over signs of the plane equation) and compared with the specification in analyzer/spec/geom/plane.go."}
	checks["C35"] = checkFn{run: checkC35, rule: "SimplifyMesh is reduced to its normal form over all meshes and budgets, the library's Simplify being an uninterpreted function, and compared with the element-wise conversion it stands for."}
	checks["C13"] = checkFn{run: checkC13, rule: "CutMesh is reduced to its normal form over all meshes and planes (triangle intersection and joining being uninterpreted) and compared with the partition it stands for."}
	checks["C16"] = checkFn{run: checkC16, rule: "The extents of triangle and mesh are reduced to their normal forms and compared with minimum and maximum over all vertices. SliceByVector, evaluated symbolically for an arbitrary mesh and direction (C17), has to cut with exactly the planes of the specification: ceil(extent/height) of them, perpendicular to the direction, at lo + extent/n*(i+1/2).", assume: []string{"real arithmetic: rounding of the running sum of shifts is outside"}}
	checks["C31"] = checkFn{run: checkC31, rule: "Colouring and filtering are reduced to one element-wise map / filter over all meshes and compared with the specification. Every element of a colouring result used outside selects a triangle of the very mesh value the colouring was computed for."}
	checks["C34"] = checkFn{run: checkC34, rule: "The body of SimplifyLine, with its recursive calls as the induction hypothesis, is compared with the Douglas-Peucker recursion."}
}

func checkC12(c *Ctx) {
	c.drivers("rigid motion", "geom", Client{},
		[2]string{"RotX", "Vector.Rotate(RotationAroundX)"}, [2]string{"RotZ", "Vector.Rotate(RotationAroundZ)"},
		[2]string{"PlaneX", "Plane.Rotate(RotationAroundX)"}, [2]string{"PlaneZ", "Plane.Rotate(RotationAroundZ)"},
		[2]string{"MeshX", "Mesh.Rotate(RotationAroundX)"}, [2]string{"MeshZ", "Mesh.Rotate(RotationAroundZ)"},
		[2]string{"Shift", "Mesh.Shift"}, [2]string{"ShiftTri", "Triangle.Shift"}, [2]string{"About", "Vector.RotateAbout"})
}

func checkC15(c *Ctx) {
	c.pairs("plane equation", "primitives", "geom", Client{}, []pair{
		{"Plane", "IntersectSegment", "SSegment"}, {"Plane", "PointInFront", "SInFront"}, {"Plane", "PointBelongs", "SBelongs"},
		{"Plane", "ProectionPointToPlane", "SProjection"}, {"Plane", "Intersect", "SOverlaps"}})
	c.pairs("segment across a triangle", "primitives", "geom", Client{Opaque: opaqueNamed("(primitives.Plane).IntersectSegment", "primitives.Round")}, []pair{{"Plane", "IntersectTriangle", "STriangle"}})
}

func checkC16(c *Ctx) {
	c.pairs("extent", "primitives", "geom", Client{}, []pair{{"Triangle", "MinZ", "STriMin"}, {"Triangle", "MaxZ", "STriMax"}, {"Triangle", "MinMaxZ", "STriMinMax"}, {"Mesh", "MinMaxZ", "SMeshMinMax"}})
	c.slicing("number and place of the planes", false, false)
}

func checkC31(c *Ctx) {
	cl := Client{Opaque: opaqueNamed("(primitives.Vector).Angle")}
	c.pairs("one flag per triangle", "helpers", "geom", cl, []pair{{"", "ColorizeTriangles", "SColorize"}, {"", "FilterTrianglesByColor", "SFilter"}})
	checkFlagUse(c)
}

func checkC35(c *Ctx) {
	c.drivers("conversion for simplification", "geom", Client{Call: func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
		if strings.HasSuffix(cs.Fn.String(), "simplify.Mesh).Simplify") {
			return it.opaqueCall(cs.Fn, cs.Args, st, cs.Instr.Pos(), fr), true
		}
		return nil, false
	}}, [2]string{"SimplifyMesh", "helpers.SimplifyMesh"})
}

func checkC13(c *Ctx) {
	cl := Client{Opaque: opaqueNamed("(primitives.Plane).IntersectTriangle", "primitives.JoinPaths3AndMinimize", "(primitives.Point).Equal", "(primitives.Plane).PointInFront")}
	c.drivers("cut", "geom", cl, [2]string{"CutMesh", "helpers.CutMesh"})
}

func checkC34(c *Ctx) {
	cl := Client{Opaque: opaqueNamed("helpers.SimplifyLine", "(primitives.Point).DistanceToLine")}
	c.pairs("simplification", "helpers", "geom", cl, []pair{{"", "SimplifyLine", "SSimplifyLine"}})
}
