package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	assume := []string{"workers share no memory: one worker is as good as many (C18); a channel delivers what was sent, in some order",
		"Mesh.CopyTriangles is a list of its own with the mesh's triangles; cutting a triangle (C09), joining segments (C29) and extents (C16) are functions of their arguments"}
	checks["C17"] = checkFn{run: checkC17, assume: assume, rule: "SliceByVector, its channels and workers included, is evaluated symbolically for an arbitrary mesh, direction and settings with supports off: jobs and results are lists, the collected results an unknown permutation of them that the sort by Order takes back, the sweep over the sorted triangles a recurrence. The layers have to equal those of the specification, one per plane, in which a triangle is cut exactly when its extent contains the plane's height."}
	checks["C33"] = checkFn{run: checkC33, assume: assume, rule: "With supports off the layers are those of the specification without any support. With supports on, SliceByVector is evaluated for an arbitrary mesh of one layer that all triangles reach (so that the layer shows the whole list) with and without an offset, and has to cut the support triangles of the specification, each only if it does not meet the model, followed by all model triangles. The helpers that find outer edges, project them and test for obstruction are compared with their specifications for every input."}
}

var sliceOpaque = opaqueNamed("(*primitives.Mesh).CopyTriangles", "(primitives.Triangle).MinZ", "(primitives.Triangle).MaxZ", "(*primitives.Triangle).MinZ", "(*primitives.Triangle).MaxZ", "(*primitives.Mesh).MinMaxZ", "(primitives.Vector).Normalize", "helpers.FilterTrianglesByColor", "helpers.MakeUndoubledLinesFromTriangles", "helpers.MakeSupportLines", "helpers.IntersectTriangles", "(*primitives.Triangle).Shift", "(primitives.Triangle).Shift", "primitives.NewTriangle", "(primitives.Plane).IntersectTriangle", "primitives.JoinPaths3AndMinimize")

// settingField: a field of the settings parameter, by name
func settingField(v *Term, name string) *Term {
	return step(v, mkFieldIdx(fieldIndex(v, name)))
}

func fieldIndex(v *Term, name string) int {
	st := v.Typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic("the settings have no field " + name + ": undecided")
}

func (c *Ctx) slicing(rule string, on, offset bool) {
	f := c.require(c.p.fn("slicers", "SliceByVector"), "slicers.SliceByVector")
	if f == nil {
		return
	}
	specs := []*ssa.Function{c.p.spec("slices", "SSlice"), c.p.spec("slices", "SSliceAll"), c.p.spec("slices", "SSliceKeep")}
	if specs[0] == nil || specs[1] == nil {
		c.add(rule, "slicers.SliceByVector", f.Pos(), false, "undecided: the specification does not fit the repository's functions: %s", c.p.specErrs[specPrefix+"/slices"])
		return
	}
	c.guard(rule, "slicers.SliceByVector", f.Pos(), func() {
		args := argTerms(f)
		care := settingField(args[2], "SupportsOn")
		if !on {
			care = bNot(care)
		} else {
			z := cmpEQnum(settingField(args[2], "SupportOffset"), mkNum(0), false)
			if offset {
				z = bNot(z)
			}
			care = bAnd(care, z)
		}
		cl := Client{Opaque: sliceOpaque, Stages: true, SiteFree: true}
		cl.Call = freshCopies
		if on {
			// a model of one layer in which every triangle reaches the plane: the layer shows the
			// whole list
			cl.Call = func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
				switch relName(cs.Fn) {
				case "(*primitives.Triangle).MinZ":
					return mkNum(2), true
				case "(*primitives.Triangle).MaxZ":
					return mkNum(3), true
				case "(*primitives.Mesh).MinMaxZ":
					return mkTuple(mkNum(2), mkNum(3)), true
				case "helpers.IntersectTriangles":
					// only whether there is an intersection matters, not the order of the triangles
					if x := it.seqOf(st, cs.Args[1]); sortedOf(x) != nil {
						for sortedOf(x) != nil {
							x = sortedOf(x)
						}
						l := it.newSlice(st, "unsorted:"+cs.Ctx, x, tFalse, cs.Fn.Params[0].Type())
						return it.opaqueCall(cs.Fn, []*Term{cs.Args[0], l}, st, cs.Instr.Pos(), fr), true
					}
				case "(primitives.Vector).Normalize":
					return mkStruct(cs.Res, mkRat2(3, 5), mkNum(0), mkRat2(4, 5)), true
				}
				return freshCopies(it, fr, st, cs)
			}
			fs := append([]*Term{}, args[2].Kids...)
			fs[fieldIndex(args[2], "LayerHeight")] = mkNum(1)
			args[2] = mkStruct(args[2].Typ, fs...)
			cl.Unroll = 2
			specs = []*ssa.Function{c.p.spec("slices", "SSupported")}
		}
		c.sameAnyOf(rule, "slicers.SliceByVector", f, cl, args, care, true, specs...)
	})
}

func checkC17(c *Ctx) {
	c.slicing("each layer cuts the triangles that reach its plane", false, false)
}

func checkC33(c *Ctx) {
	cl := Client{Opaque: opaqueNamed("(primitives.Triangle).PointBelongs", "(*primitives.Triangle).PointBelongs", "(primitives.Triangle).IntersectTriangle", "(*primitives.Triangle).IntersectTriangle", "(primitives.Plane).ProectionPointToPlane", "(*primitives.Plane).ProectionPointToPlane")}
	for _, q := range [][]string{{"MakeUndoubledLinesFromTriangles", "SEdgesRest", "SEdges"}, {"MakeSupportLines", "SFeet"}, {"IntersectTriangles", "SMeetsOrNil", "SMeets"}} {
		f := c.require(c.p.fn("helpers", q[0]), "helpers."+q[0])
		if f == nil {
			continue
		}
		var specs []*ssa.Function
		for _, n := range q[1:] {
			specs = append(specs, c.p.spec("slices", n))
		}
		if specs[0] == nil {
			c.add("outer edges, feet and obstructions", q[0], f.Pos(), false, "undecided: the specification does not fit the repository's functions: %s", c.p.specErrs[specPrefix+"/slices"])
			continue
		}
		c.sameAny("outer edges, feet and obstructions", "helpers."+q[0], f, cl, nil, true, specs...)
	}
	c.pairs("foot of a point, point of a triangle", "primitives", "slices", Client{}, []pair{{"Plane", "ProectionPointToPlane", "SFoot"}, {"Triangle", "PointBelongs", "SInside"}})
	c.slicing("no supports unless asked for", false, false)
	c.slicing("supports are added to the model", true, false)
	c.slicing("supports are added to the model, moved", true, true)
}

// freshCopies: a copy of the triangles of a mesh is a list of its own with the same triangles
func freshCopies(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
	if relName(cs.Fn) != "(*primitives.Mesh).CopyTriangles" {
		return nil, false
	}
	r := it.opaqueCall(cs.Fn, cs.Args, st, cs.Instr.Pos(), fr)
	return it.newSlice(st, "copy:"+cs.Ctx, it.seqOf(&State{mem: map[*Term]*Term{}}, r), tFalse, elemType(cs.Res)), true
}
