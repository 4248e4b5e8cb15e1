package main

// C32: every ordering handed to a sort is a strict weak ordering of the elements.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C32"] = checkFn{run: checkC32,
		rule:   "Every comparison function reaching a sort call (through variables, branches, parameters and returned closures) is reduced to a decision diagram over the signs of key differences g(j)-g(i) and over element properties. It may read only the two elements of the slice being sorted (and values that stay the same), changes nothing, and is irreflexive, asymmetric and transitive with transitive ties for every consistent assignment of signs to three elements; a comparison that is not of this form is a violation.",
		assume: []string{"keys of one ordering may take any values independently of each other", "no key is NaN"}}
}

// keysOf lists the call sites passing through a sort of package sort.
func sortCall(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return ""
	}
	switch pk := f.Object().Pkg().Path(); pk {
	case "sort", "slices":
		return pk + "." + f.Name()
	case "container/heap":
		return "heap." + f.Name()
	}
	return ""
}

// symVal evaluates a value of a function body as an expression over parameters, variables and call results.
func (c *Ctx) symVal(it *Interp, st *State, v ssa.Value, depth int) *Term {
	name := func() *Term {
		fn := "g"
		if v.Parent() != nil {
			fn = v.Parent().String()
		}
		return symOf(v.Type(), "v:"+fn+":"+v.Name())
	}
	if depth > 12 {
		return name()
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return it.val(st, v)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return it.loadPtr(st, c.symVal(it, st, x.X, depth+1), x.Parent(), x.Pos())
		}
	case *ssa.FieldAddr:
		return addrStep(c.symVal(it, st, x.X, depth+1), mkFieldIdx(x.Field))
	case *ssa.Field:
		return step(c.symVal(it, st, x.X, depth+1), mkFieldIdx(x.Field))
	case *ssa.MakeInterface:
		return c.symVal(it, st, x.X, depth+1)
	case *ssa.ChangeType:
		return c.symVal(it, st, x.X, depth+1)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, c.symVal(it, st, b, depth+1))
		}
		return intern(&Term{K: KFunc, Fn: x.Fn.(*ssa.Function), Kids: bs})
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && c.p.inRepo(g) && !x.Call.IsInvoke() {
			if _, ok := x.Type().Underlying().(*types.Signature); ok {
				var as []*Term
				for _, a := range x.Call.Args {
					as = append(as, c.symVal(it, st, a, depth+1))
				}
				return it.Call(g, as, nil, st, "T")
			}
		}
	}
	return name()
}

type sortSite struct {
	fn    *ssa.Function
	pos   token.Pos
	slice ssa.Value
	less  ssa.Value
}

// alternatives follows merges and parameters to the values a sort call may receive.
func (c *Ctx) alternatives(s sortSite, seen map[ssa.Value]bool) ([]sortSite, string) {
	switch x := s.less.(type) {
	case *ssa.Phi:
		if seen[x] {
			return nil, ""
		}
		seen[x] = true
		var out []sortSite
		for _, e := range x.Edges {
			r, why := c.alternatives(sortSite{s.fn, s.pos, s.slice, e}, seen)
			if why != "" {
				return nil, why
			}
			out = append(out, r...)
		}
		return out, ""
	case *ssa.ChangeType:
		return c.alternatives(sortSite{s.fn, s.pos, s.slice, x.X}, seen)
	case *ssa.UnOp:
		// a variable holding the comparison: every store to it
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var out []sortSite
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr != a {
						return nil, "the comparison's variable escapes"
					}
					q, why := c.alternatives(sortSite{s.fn, s.pos, s.slice, y.Val}, seen)
					if why != "" {
						return nil, why
					}
					out = append(out, q...)
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return nil, "the comparison's variable escapes"
				}
			}
			return out, ""
		}
	case *ssa.Parameter:
		idx := -1
		for i, q := range s.fn.Params {
			if q == x {
				idx = i
			}
		}
		var out []sortSite
		found := false
		for _, g := range c.p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if ok && ci.Common().StaticCallee() == s.fn {
						found = true
						sl := s.slice
						if q, ok := baseOfIface(sl).(*ssa.Parameter); ok {
							for i, w := range s.fn.Params {
								if w == q {
									sl = ci.Common().Args[i]
								}
							}
						} else {
							return nil, "the slice being sorted is not the one the caller passes"
						}
						r, why := c.alternatives(sortSite{g, ci.Pos(), sl, ci.Common().Args[idx]}, map[ssa.Value]bool{})
						if why != "" {
							return nil, why
						}
						out = append(out, r...)
					}
					for _, op := range in.Operands(nil) {
						if *op == s.fn && !(ok && ci.Common().Value == s.fn) {
							return nil, "the function taking the comparison is used as a value"
						}
					}
				}
			}
		}
		if !found {
			return nil, "" // never called
		}
		return out, ""
	}
	return []sortSite{s}, ""
}

func checkC32(c *Ctx) {
	perFn := map[string]int{}
	for _, f := range c.p.funcs {
		if c.p.isSpec(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := sortCall(ci.Common())
				if name == "" {
					continue
				}
				where := relName(f)
				perFn[where]++
				if n := perFn[where]; n > 1 {
					where = fmt.Sprintf("%s #%d", where, n)
				}
				c.visited[f] = true
				a := ci.Common().Args
				switch name {
				case "sort.Slice", "sort.SliceStable":
					c.count("orderings", 1)
					alts, why := c.alternatives(sortSite{f, ci.Pos(), a[0], a[1]}, map[ssa.Value]bool{})
					if why != "" {
						c.add("strict weak ordering", where, ci.Pos(), false, "undecided: %s", why)
						continue
					}
					for _, s := range alts {
						s := s
						c.guard("strict weak ordering", where, s.pos, func() { c.ordering(where, s) })
					}
				case "sort.Sort", "sort.Stable":
					c.count("orderings", 1)
					c.guard("strict weak ordering", where, ci.Pos(), func() { c.sortInterface(where, f, a[0], ci.Pos()) })
				case "sort.Float64s", "sort.Ints", "sort.Strings":
					c.add("strict weak ordering", where, ci.Pos(), true, "the natural order")
				case "sort.Search", "sort.SearchInts", "sort.SearchFloat64s", "sort.SearchStrings", "sort.Float64sAreSorted", "sort.IntsAreSorted", "sort.SliceIsSorted":
				default:
					c.add("strict weak ordering", where, ci.Pos(), false, "undecided: %s is not modelled", name)
				}
			}
		}
	}
}

func (c *Ctx) sortInterface(where string, f *ssa.Function, v ssa.Value, pos token.Pos) {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		// sort.Reverse(x): the reverse of a strict weak ordering is one
		if call, ok := v.(*ssa.Call); ok && sortCall(&call.Call) == "sort.Reverse" {
			c.sortInterface(where, f, call.Call.Args[0], pos)
			return
		}
		c.add("strict weak ordering", where, pos, false, "undecided: the collection's type is not known here")
		return
	}
	t := mi.X.Type()
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
		c.add("strict weak ordering", where, pos, true, "the natural order")
		return
	}
	sel := c.p.ssa.MethodSets.MethodSet(t).Lookup(nil, "Less")
	if sel == nil {
		c.add("strict weak ordering", where, pos, false, "undecided: no Less method")
		return
	}
	less := c.p.method(t, sel.Obj().(*types.Func))
	it := newInterp(c.p, Client{})
	st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
	recv := c.symVal(it, st, mi.X, 0)
	c.checkOrder(where, pos, less, func(it *Interp, st *State, i, j *Term) *Term {
		return it.Call(less, []*Term{recv, i, j}, nil, st, "T")
	}, nil)
}

func (c *Ctx) ordering(where string, s sortSite) {
	it := newInterp(c.p, Client{})
	st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
	sl := c.symVal(it, st, s.slice, 0)
	less := c.symVal(it, st, s.less, 0)
	if less.K != KFunc || less.Fn == nil || less.Fn.Blocks == nil {
		c.add("strict weak ordering", where, s.pos, false, "undecided: cannot resolve the comparison function")
		return
	}
	mem := st.mem
	c.checkOrder(where, s.pos, less.Fn, func(it *Interp, st *State, i, j *Term) *Term {
		for k, v := range mem {
			st.mem[k] = v
		}
		return it.Call(less.Fn, []*Term{i, j}, less.Kids, st, "T")
	}, sl)
}

func (c *Ctx) checkOrder(where string, pos token.Pos, fn *ssa.Function, eval func(it *Interp, st *State, i, j *Term) *Term, sl *Term) {
	c.visited[fn] = true
	if pos == token.NoPos {
		pos = fn.Pos()
	}
	var tolKeys []string
	try := func(cl Client) string {
		it := newInterp(c.p, cl)
		st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
		ai, aj := mkAtom("sort:i", types.Typ[types.Int], true), mkAtom("sort:j", types.Typ[types.Int], true)
		ai.NonNeg, aj.NonNeg = true, true
		r := eval(it, st, mkNumAtom(ai), mkNumAtom(aj))
		c.visit(it)
		if !valid(st.cond, tTrue) {
			return "the comparison does not always return: " + st.cond.String()
		}
		for _, o := range sortedObjs(st.mem) {
			if isInitial(o) && st.mem[o] != it.load(&State{}, o) {
				return "the comparison changes " + o.String()
			}
		}
		for _, e := range *it.sink {
			if e.Kind == "ext" && !strings.HasPrefix(e.Note, "math.") && !strings.HasPrefix(e.Note, "strings.") {
				return "the comparison calls " + e.Note
			}
		}
		var base *Term
		if sl != nil && sl.K == KSlice && sl.Kids[0].K == KObj && sl.Kids[0].S == "sym" {
			base = sl.Kids[0].Kids[0]
		}
		w := weakOrder(r, ai, aj, base)
		if w != "" && tolKeys == nil {
			set := map[string]bool{}
			collectAtoms(r, func(a *Atom) {
				if strings.HasPrefix(a.Op, ".") && !a.Int {
					k, x := a.Op, a
					for len(x.Args) == 1 && x.Args[0].K == KAtom && strings.HasPrefix(x.Args[0].Atom.Op, ".") {
						x = x.Args[0].Atom
						k = x.Op + k
					}
					if i := strings.LastIndexAny(k, "0123456789"); i >= 0 { // fields of local types have no name
						k = k[i+1:]
					}
					if b, ok := a.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
						set[k] = true
					}
				}
			})
			for k := range set {
				tolKeys = append(tolKeys, k)
			}
			sort.Strings(tolKeys)
		}
		return w
	}
	numeric := func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		if rs.Len() != 1 {
			return false
		}
		b, ok := rs.At(0).Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsNumeric != 0
	}
	why := try(Client{Opaque: numeric})
	if why != "" {
		if w2 := tryGuard(func() string { return try(Client{}) }); w2 == "" {
			why = ""
		}
	}
	if strings.Contains(why, "tolerance or offset") && len(tolKeys) > 0 {
		// named by what it compares rather than by the function it happens to be in
		where = shortPkg(fn) + ": tolerant comparison by " + strings.Join(tolKeys, ", ")
	}
	c.add("strict weak ordering", where, pos, why == "", "%s", why)
	if why != "" {
		// the same with the tolerance of AlmostZero taken as exact equality, so that a tolerant
		// comparison is still held to everything else
		cl := Client{Opaque: numeric, Call: func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
			if relName(cs.Fn) == "primitives.AlmostZero" {
				return cmpEQnum(cs.Args[0], mkNum(0), false), true
			}
			return nil, false
		}}
		why := try(cl)
		c.add("strict weak ordering up to the tolerance", where, pos, why == "", "%s", why)
	}
}

func tryGuard(f func() string) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = "too large"
		}
	}()
	return f()
}

// dependence on the two indices: bit 1 = element i, bit 2 = element j, 4 = anything else about the indices
type idxDep struct {
	ai, aj *Atom
	base   *Term
	memo   map[*Term]int
	memoA  map[*Atom]int
}

func (d *idxDep) atom(a *Atom) int {
	if a == d.ai || a == d.aj {
		return 4
	}
	if r, ok := d.memoA[a]; ok {
		return r
	}
	r := 0
	if a.Op == "elem" && len(a.Args) == 2 && d.only(a.Args[1]) != nil {
		switch {
		case d.base != nil && a.Args[0] != d.base:
			r = 4 // an element of another list
		case d.only(a.Args[1]) == d.ai:
			r = 1
		default:
			r = 2
		}
		r |= d.term(a.Args[0])
	} else {
		for _, x := range a.Args {
			r |= d.term(x)
		}
		if d.base != nil && a.Op == "elem" && a.Args[0] == d.base {
			r |= 4 // a fixed element of the list, which moves while sorting
		}
	}
	d.memoA[a] = r
	return r
}

func (d *idxDep) only(t *Term) *Atom {
	if a := singleAtomT(t); a == d.ai || a == d.aj {
		return a
	}
	return nil
}

func (d *idxDep) term(t *Term) int {
	if r, ok := d.memo[t]; ok {
		return r
	}
	r := 0
	if t.Atom != nil {
		r |= d.atom(t.Atom)
	}
	if t.Poly != nil {
		for _, m := range t.Poly.T {
			for _, f := range m.M.Fs {
				r |= d.atom(f.A)
			}
		}
	}
	if t.Var != nil {
		r |= d.bvar(t.Var)
	}
	for _, k := range t.Kids {
		r |= d.term(k)
	}
	d.memo[t] = r
	return r
}

func (d *idxDep) bvar(v *BVar) int {
	if v.Op == "elem" && len(v.Args) == 2 && d.only(v.Args[1]) != nil {
		if d.base != nil && v.Args[0] != d.base {
			return 4
		}
		if d.only(v.Args[1]) == d.ai {
			return 1
		}
		return 2
	}
	r := 0
	for _, x := range v.Args {
		r |= d.term(x)
	}
	return r
}

// atomKind says how a variable of the comparison's diagram depends on the elements.
type ordVar struct {
	unary bool
	el    int // unary: 1 = i, 2 = j
	key   int
	sgn   int // key: the variable's polynomial is sgn*(g(i)-g(j)) + c
	c     int
	op    string
}

// weakOrder decides whether the diagram r over elements i and j is a strict weak ordering.
func weakOrder(r *Term, ai, aj *Atom, base *Term) string {
	d := &idxDep{ai: ai, aj: aj, base: base, memo: map[*Term]int{}, memoA: map[*Atom]int{}}
	vars := map[*BVar]ordVar{}
	var keys, unary, free []string
	idx := func(l *[]string, k string) int {
		for i, x := range *l {
			if x == k {
				return i
			}
		}
		*l = append(*l, k)
		return len(*l) - 1
	}
	bad := ""
	var scan func(t *Term)
	seen := map[*Term]bool{}
	scan = func(t *Term) {
		if bad != "" || seen[t] || t.K == KTrue || t.K == KFalse {
			return
		}
		seen[t] = true
		if t.K != KIte {
			bad = "not a comparison: " + t.String()
			return
		}
		v := t.Var
		if _, ok := vars[v]; !ok {
			dep := d.bvar(v)
			switch {
			case dep&4 != 0:
				bad = "depends on more than the two elements compared: " + v.String()
			case dep == 0:
				vars[v] = ordVar{unary: true, el: 0, key: idx(&free, fmt.Sprint(v.ID))}
			case dep == 1 || dep == 2:
				w := mkVarB(v)
				if dep == 1 {
					w = subst1(w, ai, mkNumAtom(aj))
				}
				if w.K != KIte || w.Var == nil {
					bad = "cannot separate " + v.String()
					return
				}
				s := w.Kids[0].K == KTrue
				if !s {
					bad = "cannot separate " + v.String()
					return
				}
				vars[v] = ordVar{unary: true, el: dep, key: idx(&unary, fmt.Sprint(w.Var.ID)), op: v.Op}
			default:
				if v.Op != "pos" && v.Op != "neg" {
					bad = "compares the elements by " + v.String()
					return
				}
				p := v.Args[0].Poly
				if p == nil {
					bad = "compares the elements by " + v.String()
					return
				}
				cst := 0
				gi, gj := pInt(0), pInt(0)
				pc := pInt(0)
				for _, m := range p.T {
					md := 0
					for _, f := range m.M.Fs {
						md |= d.atom(f.A)
					}
					one := newPolyOf(m)
					switch md {
					case 0:
						pc = pc.add(one, 1)
					case 1:
						gi = gi.add(one, 1)
					case 2:
						gj = gj.add(one, 1)
					default:
						bad = "the elements are not compared key by key: " + v.String()
						return
					}
				}
				if k, ok := pc.isConst(); !ok {
					bad = "compares with a third value: " + v.String()
					return
				} else if k.Sign() != 0 {
					if v.Int && k.Cmp(big.NewRat(1, 1)) == 0 {
						cst = 1
					} else {
						bad = "equal keys are not equal in the comparison (tolerance or offset): " + v.String()
						return
					}
				}
				git := subst1(mkNumPoly(gi), ai, mkNumAtom(aj))
				if git != mkNumPoly(gj.neg()) {
					bad = "the two elements are compared by different keys: " + v.String()
					return
				}
				g := gj
				sgn := 1 // polynomial = g(j) - g(i)
				if g.T[0].C.Sign() < 0 {
					g, sgn = g.neg(), -1
				}
				g = g.scale(new(big.Rat).Inv(g.T[0].C))
				vars[v] = ordVar{key: idx(&keys, g.key), sgn: sgn, c: cst, op: v.Op}
			}
		}
		scan(t.Kids[0])
		scan(t.Kids[1])
	}
	scan(r)
	if bad != "" {
		return bad
	}
	if len(keys) > 3 || len(unary) > 4 || len(free) > 4 {
		return "undecided: too many keys"
	}
	// every combination: the ranks of three elements under each key, the unary properties of each, the rest
	nk, nu, nf := len(keys), len(unary), len(free)
	rank := make([][3]int, nk)
	un := make([][3]bool, nu)
	fr := make([]bool, nf)
	ev := func(x, y int) bool {
		t := r
		for t.K == KIte {
			q := vars[t.Var]
			var b bool
			switch {
			case q.unary && q.el == 0:
				b = fr[q.key]
			case q.unary && q.el == 1:
				b = un[q.key][x]
			case q.unary:
				b = un[q.key][y]
			default:
				s := q.sgn * (rank[q.key][y] - rank[q.key][x])
				if q.op == "neg" {
					s = -s
				}
				b = s > 0 || q.c == 1 && s >= 0
			}
			if b {
				t = t.Kids[0]
			} else {
				t = t.Kids[1]
			}
		}
		return t.K == KTrue
	}
	msg := ""
	check := func() bool {
		for x := 0; x < 3; x++ {
			if ev(x, x) {
				msg = "an element can come before itself"
				return false
			}
			for y := 0; y < 3; y++ {
				if ev(x, y) && ev(y, x) {
					msg = "two elements can each come before the other"
					return false
				}
				for z := 0; z < 3; z++ {
					if ev(x, y) && ev(y, z) && !ev(x, z) {
						msg = "the order is not transitive"
						return false
					}
					if !ev(x, y) && !ev(y, x) && !ev(y, z) && !ev(z, y) && (ev(x, z) || ev(z, x)) {
						msg = "ties are not transitive"
						return false
					}
				}
			}
		}
		return true
	}
	var ranks [][3]int
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for e := 0; e < 3; e++ {
				ranks = append(ranks, [3]int{a, b, e})
			}
		}
	}
	var rec func(k, u, f int) bool
	rec = func(k, u, f int) bool {
		switch {
		case k < nk:
			for _, q := range ranks {
				rank[k] = q
				if !rec(k+1, u, f) {
					return false
				}
			}
			return true
		case u < nu:
			for m := 0; m < 8; m++ {
				un[u] = [3]bool{m&1 != 0, m&2 != 0, m&4 != 0}
				if !rec(k, u+1, f) {
					return false
				}
			}
			return true
		case f < nf:
			for _, b := range []bool{false, true} {
				fr[f] = b
				if !rec(k, u, f+1) {
					return false
				}
			}
			return true
		}
		return check()
	}
	rec(0, 0, 0)
	if msg == "" && len(keys)+len(unary) == 0 {
		if r.K == KFalse {
			return "the comparison never tells elements apart"
		}
	}
	return msg
}

func newPolyOf(m PT) *Poly { return newPoly(map[string]*PT{m.M.key: {m.M, m.C}}) }

func shortPkg(f *ssa.Function) string {
	if pk := fnPkg(f); pk != nil {
		return stripRepo(pk.Pkg.Path())
	}
	return ""
}
