package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = checkFn{run: checkC20, rule: "The lists of infill planes are reduced to their normal form over all meshes and settings (loops become element-wise maps) and compared with the grid the fill type documents; FillLayers is compared with the element-wise choice of planes per layer and of innermost walls, and the function that cuts walls by a plane with the sorted, paired crossing points. The function ordering the lines keeps each of them: every round appends one unused line, possibly reversed, and marks that very line as used."}
}

// sigName: a function type with package-relative names, e.g. "([]Path, Plane) []Path"
func sigName(f *ssa.Function) string {
	s := f.Signature
	q := func(*types.Package) string { return "" }
	var in, out []string
	for i := 0; i < s.Params().Len(); i++ {
		in = append(in, types.TypeString(s.Params().At(i).Type(), q))
	}
	for i := 0; i < s.Results().Len(); i++ {
		out = append(out, types.TypeString(s.Results().At(i).Type(), q))
	}
	r := strings.Join(out, ", ")
	if len(out) > 1 {
		r = "(" + r + ")"
	}
	return "(" + strings.Join(in, ", ") + ") " + r
}

// bySignature makes repository functions without receiver of the given types one symbol per
// type, and records which functions those were.
func bySignature(sigs map[string]string, found map[string]map[*ssa.Function]bool) func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
	return func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
		if cs.Fn.Signature.Recv() != nil || cs.Fn.Pkg == nil || cs.Fn.Parent() != nil || !strings.HasPrefix(cs.Fn.Pkg.Pkg.Path(), repoPrefix) && !it.prog.isSpec(cs.Fn) {
			return nil, false
		}
		n, ok := sigs[sigName(cs.Fn)]
		if !ok {
			return nil, false
		}
		if found != nil && !it.prog.isSpec(cs.Fn) {
			if found[n] == nil {
				found[n] = map[*ssa.Function]bool{}
			}
			found[n][cs.Fn] = true
		}
		var as []*Term
		for _, a := range cs.Args {
			as = append(as, it.snap(st, a, 0))
		}
		return liftSmall(func(x []*Term) *Term { return symOf(cs.Res, "sig:"+n, x...) }, as...), true
	}
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func checkC20(c *Ctx) {
	c.drivers("planes of the pattern", "fill", Client{Opaque: opaqueNamed("(*primitives.Mesh).MinMaxZ")}, [2]string{"Planes", "slicers.CalcFillPlanes"})
	found := map[string]map[*ssa.Function]bool{}
	cl := Client{Call: bySignature(map[string]string{"([]Path, Plane) []Path": "interpaths", "([]Path) []Path": "sortpaths"}, found)}
	c.drivers("which planes fill which layer", "fill", cl, [2]string{"Fill", "slicers.FillLayers"})
	op := Client{Opaque: opaqueNamed("(primitives.Plane).IntersectSegment", "(primitives.Vector).Angle", "(primitives.Vector).ProjectOnPlane")}
	for _, f := range sortedFns(found["interpaths"]) {
		c.same("lines run between paired crossings", stripRepo(f.String()), f, c.p.spec("fill", "SInter"), op)
	}
	for _, f := range sortedFns(found["sortpaths"]) {
		checkReorder(c, "no line is lost or repeated by ordering", f)
	}
}

// checkReorder: a function from a list to a list returns each element exactly once, possibly
// reversed. It starts with some elements, marked as used; each of as many rounds as elements are
// left appends one element not marked before and marks it.
func checkReorder(c *Ctx, rule string, f *ssa.Function) {
	name := stripRepo(f.String())
	c.guard(rule, name, f.Pos(), func() {
		rev := c.p.meth("primitives", "Path", "Reverse")
		if rev == nil {
			c.add(rule, name, f.Pos(), false, "undecided: Path.Reverse not found")
			return
		}
		base := argTerms(f)[0]
		var bs *Term
		for _, l := range leafConds(base) {
			if b := symBase(l.t); b != nil {
				bs = b
			} else if l.t.K == KSlice && l.t.Kids[0].S == "sym" {
				bs = l.t.Kids[0].Kids[0]
			}
		}
		pt := elemType(f.Signature.Params().At(0).Type())
		arr := intern(&Term{K: ASym, Kids: []*Term{bs}, Typ: pt})
		n := mkNumAtom(mkAtom("len", nil, true, bs))
		o := c.run(f, argTerms(f), Client{NoMu: true, Opaque: func(g *ssa.Function) bool {
			return g == rev || strings.HasSuffix(relName(g), "Point).DistanceTo")
		}}, nil, tTrue)
		bad := func(format string, a ...interface{}) { c.add(rule, name, f.Pos(), false, format, a...) }
		if len(o.mem) > 0 {
			bad("changes its argument")
			return
		}
		plain := func(i *Term) *Term { return o.it.snap(o.st, selectArr(arr, i, pt), 0) }
		turned := func(i *Term) *Term {
			return o.it.snap(o.st, symOf(pt, "call:"+rev.String(), plain(i)), 0)
		}
		indexOf := func(t *Term) *Term {
			var idx *Term
			collectAtoms(t, func(a *Atom) {
				if a.Op == "elem" && a.Args[0] == bs && idx == nil {
					idx = a.Args[1]
				}
			})
			return idx
		}
		for _, l := range leafConds(o.ret) {
			if l.t.K != KSnap || l.t.Kids[0].K != ACat {
				bad("undecided: returns %s", l.t)
				return
			}
			parts := l.t.Kids[0].Kids
			if len(parts) == 1 && parts[0].K == PSeg && parts[0].Kids[0] == arr && parts[0].Kids[1] == mkNum(0) && parts[0].Kids[2] == n {
				continue // the list itself
			}
			if len(parts) == 0 {
				if !valid(bNot(posB(n, true)), l.cond) {
					bad("returns nothing although there are lines")
				}
				continue
			}
			used := map[*Term]bool{}
			for _, p := range parts[:len(parts)-1] {
				if p.K != PElem {
					bad("undecided: returns %s", l.t)
					return
				}
				i := indexOf(p.Kids[0])
				if i == nil || used[i] || p.Kids[0] != plain(i) && p.Kids[0] != turned(i) {
					bad("starts with %s, which is no further element of the list", p.Kids[0])
					return
				}
				if _, ok := i.constInt(); !ok {
					bad("undecided: starts with element %s", i)
					return
				}
				used[i] = true
			}
			last := parts[len(parts)-1]
			if last.K != PFor || last.Kids[1].K != ACat || len(last.Kids[1].Kids) != 1 || last.Kids[1].Kids[0].K != PElem {
				bad("undecided: returns %s", l.t)
				return
			}
			rounds := numSub(n, mkNum(int64(len(used))))
			if !valid(cmpEQnum(last.Kids[0], rounds, true), l.cond) && restrict(last.Kids[0], l.cond) != rounds && last.Kids[0] != mkMinMax("max", rounds, mkNum(0)) {
				bad("appends %s times, %d elements being there before", last.Kids[0], len(used))
				return
			}
			k := openAtom()
			k.NonNeg = true
			el := subst1(last.Kids[1].Kids[0].Kids[0], bound(last.N), mkNumAtom(k))
			idx := indexOf(el)
			if idx == nil || idx.K != KNum || singleAtom(idx.Poly) == nil {
				bad("undecided: appends %s", el)
				return
			}
			want := [2]*Term{plain(idx), turned(idx)}
			var leaf func(t *Term, path []int) bool
			leaf = func(t *Term, path []int) bool {
				if t.K == KIte {
					return leaf(t.Kids[0], path) && leaf(t.Kids[1], path)
				}
				for _, w := range want {
					for _, i := range path {
						w = w.Kids[i]
					}
					if t == w {
						return true
					}
				}
				if t.K == KStruct && len(t.Kids) == 1 {
					return leaf(t.Kids[0], append(path, 0))
				}
				return false
			}
			if !leaf(el, nil) {
				bad("appends %s, which is not the chosen line, as it is or reversed", el)
				return
			}
			if why := pickedUnused(o.it, singleAtom(idx.Poly), k, used, bs); why != "" {
				bad("%s", why)
				return
			}
		}
		c.add(rule, name, f.Pos(), true, "")
	})
}

// pickedUnused: the index chosen in round k was not marked, and is marked from the next round on.
func pickedUnused(it *Interp, s *Atom, k *Atom, used map[*Term]bool, bs *Term) string {
	byOp := map[string]*LSym{}
	for _, x := range it.lsyms {
		byOp[x.Atom.Op] = x
	}
	pick := byOp[s.Op]
	if pick == nil || len(s.Args) < 2 || s.Args[0] != mkNumAtom(k) || len(pick.Atom.Args) < 1 {
		return "undecided: the chosen index " + s.String() + " is not the outcome of a search over the list"
	}
	// the marks: a list that is only changed by marking the chosen index
	var marks *LSym
	for _, x := range byOp {
		if !x.arr || x.Next == nil || x.Next.K != AStore {
			continue
		}
		i := x.Next.Kids[1]
		if i.K == KNum && singleAtom(i.Poly) != nil && singleAtom(i.Poly).Op == s.Op && x.Next.Kids[0] == x.Term && x.Next.Kids[2] == tTrue {
			marks = x
		}
	}
	if marks == nil {
		return "the line appended in a round is not marked as used"
	}
	m := marks.Init
	seen := map[*Term]bool{}
	for m.K == AStore && m.Kids[2] == tTrue {
		seen[m.Kids[1]] = true
		m = m.Kids[0]
	}
	for i := range used {
		if !seen[i] {
			return "the line that starts the list is not marked as used"
		}
	}
	if m.K != AZero || len(seen) != len(used) {
		return "marked at the start: " + marks.Init.String()
	}
	// outer iteration names in the inner search
	for _, l := range leafConds(pick.Next) {
		if l.t == pick.Term {
			continue
		}
		ok := false
		for _, v := range topVars(l.cond) {
			if v.Op == "elem" && len(v.Args) == 2 && v.Args[0].K == KAtom && v.Args[0].Atom.Op == marks.Atom.Op && v.Args[1] == l.t && bAnd(l.cond, mkVarB(v)).K == KFalse {
				ok = true
			}
		}
		if !ok {
			return "an index may be chosen that is marked as used: " + l.t.String() + " when " + l.cond.String()
		}
	}
	return ""
}
