package main

// C10: the stored normal of a triangle. C31: overhang flags and the mesh they belong to.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = checkFn{run: checkC10, rule: "Every function with a store into a field of a Triangle is reduced to its normal form (functions not meant to be called on their own are inlined into their callers): every Triangle it returns, leaves in memory or hands to another function has a normal equal to the cross product of its edges, as polynomials in its vertices. No address of triangle memory goes to code outside the repository that could write it.",
		assume: []string{"triangles a function receives satisfy the rule (they were made by functions that do)"}}
}

// holdsTriangle: memory of this type contains a Triangle.
func (p *Program) holdsTriangle(t types.Type, seen map[types.Type]bool) bool {
	tri := p.typ("primitives", "Triangle")
	if tri == nil || seen[t] {
		return false
	}
	seen[t] = true
	if types.Identical(t, tri) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return p.holdsTriangle(u.Elem(), seen)
	case *types.Slice:
		return p.holdsTriangle(u.Elem(), seen)
	case *types.Array:
		return p.holdsTriangle(u.Elem(), seen)
	case *types.Map:
		return p.holdsTriangle(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if p.holdsTriangle(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// triFieldWrites: the stores into a part of a Triangle in f, and the places where the address of
// such a part is handed on.
func (p *Program) triFieldWrites(f *ssa.Function) (out []ssa.Instruction) {
	tri := p.typ("primitives", "Triangle")
	var follow func(v ssa.Value, depth int)
	follow = func(v ssa.Value, depth int) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				out = append(out, x)
			case *ssa.FieldAddr:
				follow(x, depth+1)
			case *ssa.IndexAddr:
				follow(x, depth+1)
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				out = append(out, r)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), tri) {
				follow(fa, 0)
			}
		}
	}
	return
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

var harmlessExt = map[string]bool{"fmt": true, "log": true, "sort": true}

func checkC10(c *Ctx) {
	p := c.p
	if p.typ("primitives", "Triangle") == nil {
		c.add("anchor", "primitives.Triangle", token.NoPos, false, "type not found: undecided")
		return
	}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	work := map[*ssa.Function]bool{}
	var queue []*ssa.Function
	push := func(f *ssa.Function) {
		if !work[f] {
			work[f] = true
			queue = append(queue, f)
		}
	}
	next := 0
	for _, f := range p.funcs {
		if f.Synthetic != "" && f.Synthetic != "package initializer" {
			continue
		}
		ws := p.triFieldWrites(f)
		if len(ws) > 0 {
			c.count("triangle_field_writes", len(ws))
			push(outermost(f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := ci.Common()
				g := cm.StaticCallee()
				if g != nil && p.inRepo(g) {
					o := outermost(g)
					if callers[o] == nil {
						callers[o] = map[*ssa.Function]bool{}
					}
					callers[o][outermost(f)] = true
					continue
				}
				if _, ok := cm.Value.(*ssa.Builtin); ok {
					continue
				}
				if g == nil && !cm.IsInvoke() {
					continue
				}
				pkg, name := "", ""
				if g != nil {
					name = g.String()
					if g.Pkg != nil {
						pkg = g.Pkg.Pkg.Path()
					}
				} else {
					name = cm.Method.FullName()
					if cm.Method.Pkg() != nil {
						pkg = cm.Method.Pkg().Path()
					}
					if strings.HasPrefix(pkg, repoPrefix) {
						continue
					}
				}
				if harmlessExt[pkg] || name == "encoding/binary.Write" || name == "encoding/binary.Size" {
					continue
				}
				for _, a := range cm.Args {
					b := baseOfIface(a)
					switch b.Type().Underlying().(type) {
					case *types.Pointer, *types.Slice, *types.Map:
						if p.holdsTriangle(b.Type(), map[types.Type]bool{}) {
							next++
							c.add("triangles are only written by the repository", relName(f)+" → "+name, in.Pos(), false, "hands triangle memory to %s, which may write it", name)
						}
					}
				}
			}
		}
	}
	if len(queue) == 0 {
		c.add("anchor", "writes to Triangle fields", token.NoPos, false, "no function fills a triangle: undecided")
	}
	sort.Slice(queue, func(i, j int) bool { return queue[i].String() < queue[j].String() })
	exported := func(f *ssa.Function) bool { return token.IsExported(f.Name()) || f.Name() == "init" || f.Name() == "main" }
	for i := 0; i < len(queue); i++ {
		f := queue[i]
		bad, why := "", ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(string); ok {
						bad = "undecided: " + s
					} else {
						bad = "undecided: the value grew beyond the analysis budget"
					}
				}
			}()
			bad, why = c.badTriangles(f, work)
		}()
		if bad == "" {
			c.add("normal = cross product of the edges", relName(f), f.Pos(), true, "")
			continue
		}
		var cs []*ssa.Function
		for g := range callers[f] {
			if g != f {
				cs = append(cs, g)
			}
		}
		if !exported(f) && len(cs) > 0 {
			sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
			for _, g := range cs {
				push(g)
			}
			c.count("obligations_moved_to_callers", 1)
			continue
		}
		c.add("normal = cross product of the edges", relName(f), f.Pos(), false, "%s\n%s", bad, why)
	}
}

// badTriangles evaluates f and describes a triangle whose normal does not follow from its vertices.
func (c *Ctx) badTriangles(f *ssa.Function, work map[*ssa.Function]bool) (string, string) {
	p := c.p
	tri := p.typ("primitives", "Triangle")
	cl := Client{Opaque: func(g *ssa.Function) bool {
		if work[outermost(g)] {
			return false
		}
		pk := fnPkg(g)
		return !(pk != nil && pk.Pkg.Path() == repoPrefix+"/primitives" && len(p.fnInfo(g).loops) == 0)
	}}
	o := c.run(f, argTerms(f), cl, nil, tTrue)
	if o.cond.K == KFalse {
		return "", ""
	}
	seen := map[*Term]bool{}
	seenA := map[*Atom]bool{}
	bad, why := "", ""
	var visit func(t *Term, where string)
	visitA := func(a *Atom, where string) {
		if seenA[a] {
			return
		}
		seenA[a] = true
		for _, x := range a.Args {
			visit(x, where)
		}
	}
	visit = func(t *Term, where string) {
		if bad != "" || seen[t] {
			return
		}
		seen[t] = true
		if t.K == KStruct && types.Identical(t.Typ, tri) {
			if d := badNormal(t); d != "" {
				bad, why = where+": "+d, t.String()
				return
			}
		}
		if t.Atom != nil {
			visitA(t.Atom, where)
		}
		if t.K == KIte {
			for _, x := range t.Var.Args {
				visit(x, where)
			}
		}
		for _, k := range t.Kids {
			visit(k, where)
		}
	}
	// what the function returns and leaves behind
	visit(o.ret, "returns a triangle")
	for _, ob := range sortedObjs(o.mem) {
		visit(o.mem[ob], "leaves a triangle in memory")
	}
	for _, ob := range sortedObjs(o.st.mem) {
		if !isInitial(ob) {
			// objects of its own that are reachable only through what was visited above
			continue
		}
	}
	var evs func(es []*Event)
	evs = func(es []*Event) {
		for _, e := range es {
			if e.Kind == "call" || e.Kind == "dyncall" || e.Kind == "invoke" {
				for _, a := range e.Args {
					n := "another function"
					if e.Fn != nil {
						n = relName(e.Fn)
					}
					visit(a, "hands a triangle to "+n)
				}
			}
			evs(e.Sub)
		}
	}
	evs(*o.it.sink)
	return bad, why
}

// badNormal: the normal of a triangle value is not the cross product of its edges.
func badNormal(t *Term) string {
	if symBase(t) != nil {
		return ""
	}
	if v := deepTop(t); v != nil {
		if d := badNormal(deepCofac(t, v, true)); d != "" {
			return d
		}
		return badNormal(deepCofac(t, v, false))
	}
	st := t.Typ.Underlying().(*types.Struct)
	var n *Term
	var ps []*Term
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "N":
			n = t.Kids[i]
		case "P1", "P2", "P3":
			ps = append(ps, t.Kids[i])
		}
	}
	if n == nil || len(ps) != 3 || n.K != KStruct || ps[0].K != KStruct || ps[1].K != KStruct || ps[2].K != KStruct {
		return "undecided: its fields cannot be resolved"
	}
	want := crossOf(ps[0].Kids, ps[1].Kids, ps[2].Kids)
	// normals of given triangles are cross products already
	m := map[*Atom]Sub{}
	for _, k := range n.Kids {
		collectAtoms(k, func(a *Atom) {
			ax := -1
			switch a.Op {
			case ".X":
				ax = 0
			case ".Y":
				ax = 1
			case ".Z":
				ax = 2
			}
			if ax < 0 || len(a.Args) != 1 || a.Args[0].K != KAtom || a.Args[0].Atom.Op != ".N" {
				return
			}
			base := a.Args[0].Atom.Args[0]
			if base.K != KAtom || base.Atom.Typ == nil || !types.Identical(base.Atom.Typ, t.Typ) {
				return
			}
			var q [3][]*Term
			for i, fn := range []string{".P1", ".P2", ".P3"} {
				for j := 0; j < st.NumFields(); j++ {
					if "."+st.Field(j).Name() == fn {
						s := symOf(st.Field(j).Type(), fn, base)
						if s.K == KStruct {
							q[i] = s.Kids
						}
					}
				}
			}
			if q[0] != nil && q[1] != nil && q[2] != nil {
				m[a] = Sub{Val: crossOf(q[0], q[1], q[2])[ax]}
			}
		})
	}
	for i := 0; i < 3; i++ {
		a, b := n.Kids[i], want[i]
		if a == b {
			continue
		}
		if len(m) > 0 && subst(a, m) == b {
			continue
		}
		return "its stored normal is not the cross product of its edges"
	}
	return ""
}

func crossOf(a, b, c []*Term) [3]*Term {
	s := func(p, q []*Term, i int) *Term { return numSub(q[i], p[i]) }
	r := func(i, j int) *Term {
		return numSub(numMul(s(a, b, i), s(a, c, j)), numMul(s(a, b, j), s(a, c, i)))
	}
	return [3]*Term{r(1, 2), r(2, 0), r(0, 1)}
}

// ---------- C31

// meshKey: the mesh (as an SSA value) behind a mesh value, pointer or its list of triangles.
func meshKey(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				// a local copy: what was stored there once
				if s := onlyStore(a); s != nil {
					v = s
					continue
				}
			}
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Alloc:
			if s := onlyStore(x); s != nil {
				v = s
				continue
			}
			return v
		default:
			return v
		}
	}
}

func onlyStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok {
			if s.Addr != a || v != nil {
				return nil
			}
			v = s.Val
		}
	}
	return v
}

func (p *Program) isTriangleList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && p.typ("primitives", "Triangle") != nil && types.Identical(s.Elem(), p.typ("primitives", "Triangle"))
}

func checkFlagUse(c *Ctx) {
	p := c.p
	col := p.fn("helpers", "ColorizeTriangles")
	if c.require(col, "helpers.ColorizeTriangles") == nil {
		return
	}
	n := 0
	type job struct {
		f     *ssa.Function
		flags map[ssa.Value]bool
		mesh  map[ssa.Value]bool
		site  *ssa.Call
	}
	done := map[string]bool{}
	var run func(j job)
	run = func(j job) {
		// values the flags flow to
		grow := true
		for grow {
			grow = false
			for _, b := range j.f.Blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || j.flags[v] {
						continue
					}
					switch x := in.(type) {
					case *ssa.Phi:
						for _, e := range x.Edges {
							if j.flags[e] {
								j.flags[v], grow = true, true
							}
						}
					case *ssa.ChangeType:
						if j.flags[x.X] {
							j.flags[v], grow = true, true
						}
					}
				}
			}
		}
		idx := map[ssa.Value]bool{}
		isFlag := map[ssa.Value]bool{}
		for _, b := range j.f.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if ok && j.flags[ia.X] {
					idx[ia.Index] = true
					for _, r := range *ia.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok {
							isFlag[u] = true
						}
					}
				}
				if sl, ok := in.(*ssa.Slice); ok && j.flags[sl.X] {
					c.add("flags go with their own triangles", relName(j.f), in.Pos(), false, "undecided: the flags are re-sliced, so their positions no longer match the triangles")
				}
			}
		}
		var region func(b *ssa.BasicBlock, truth bool) bool
		region = func(b *ssa.BasicBlock, truth bool) bool {
			for d := b; d != nil; d = d.Idom() {
				if len(d.Preds) != 1 {
					continue
				}
				q := d.Preds[0]
				iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				t := q.Succs[0] == d
				cond := iff.Cond
				for {
					if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
						cond, t = u.X, !t
						continue
					}
					break
				}
				if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					x, y := bo.X, bo.Y
					if _, ok := x.(*ssa.Const); ok {
						x, y = y, x
					}
					if k, ok := y.(*ssa.Const); ok && isFlag[x] && k.Value != nil {
						same := (bo.Op == token.EQL) == (k.Value.String() == "true")
						cond = x
						if !same {
							t = !t
						}
					}
				}
				if isFlag[cond] && t == truth {
					return true
				}
			}
			return false
		}
		for _, b := range j.f.Blocks {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && p.isTriangleList(ia.X.Type()) {
					in1, in0 := region(b, true), region(b, false)
					if !idx[ia.Index] && !in1 {
						continue
					}
					n++
					key := meshKey(ia.X)
					c.add("flags go with their own triangles", relName(j.f), ia.Pos(), j.mesh[key] && idx[ia.Index] && !in0,
						"a triangle is picked by an overhang flag, but it is not the triangle of that flag (same mesh: %v, same position: %v, flag set: %v)", j.mesh[key], idx[ia.Index], !in0)
				}
				ci, ok := in.(*ssa.Call)
				if !ok || calleeOf(ci.Common()) == nil || !p.inRepo(calleeOf(ci.Common())) {
					continue
				}
				g := calleeOf(ci.Common())
				nj := job{f: g, flags: map[ssa.Value]bool{}, mesh: map[ssa.Value]bool{}, site: j.site}
				for i, a := range ci.Common().Args {
					if j.flags[a] {
						nj.flags[g.Params[i]] = true
					}
					if j.mesh[meshKey(a)] {
						nj.mesh[g.Params[i]] = true
					}
				}
				k := g.String() + "@" + p.pos(ci.Pos())
				if len(nj.flags) > 0 && g.Blocks != nil && !done[k] {
					done[k] = true
					run(nj)
				}
			}
		}
	}
	sites := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok || calleeOf(ci.Common()) != col {
					continue
				}
				sites++
				key := meshKey(ci.Common().Args[0])
				run(job{f: f, flags: map[ssa.Value]bool{ci: true}, mesh: map[ssa.Value]bool{key: true}, site: ci})
				// a triangle found with earlier flags is not carried into the round of new ones
				info := p.fnInfo(f)
				for lp := info.loopOf[b]; lp != nil; lp = lp.parent {
					for _, x := range lp.hdr.Instrs {
						ph, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						if pt, ok := ph.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), p.typ("primitives", "Triangle")) {
							c.add("flags go with their own triangles", relName(f), ph.Pos(), false, "a triangle picked with the flags of one mesh is kept while new flags are computed for another")
						}
					}
				}
			}
		}
	}
	c.count("flag_computations", sites)
	c.count("flagged_triangle_accesses", n)
	if sites == 0 {
		c.add("anchor", "calls of helpers.ColorizeTriangles", token.NoPos, false, "nothing computes overhang flags: undecided")
	}
}
