package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = checkFn{run: checkC25, rule: "Every function the programs reach is evaluated symbolically by itself, all other functions left as they are: wherever a pointer is followed, or handed to a function that follows it, the condition under which that happens has to exclude that it is nil. What a called function returns is nil at most when the error or the flag it returns next to it says so, or never, as its own evaluation shows; values carried around loops are shown by induction.",
		assume: []string{"lists of pointers are filled before they are read (C22 evaluates the list of parts)", "pointer fields are set where their struct is built (checked) and not cleared", "library functions return nil pointers only next to an error"}}
	checks["C26"] = checkFn{run: checkC26, rule: "Every function the programs reach is evaluated symbolically by itself: wherever an element at a fixed distance from the start or the end of a list is taken, or such a piece cut off, the condition under which that happens has to imply that the list is long enough; where it depends on the arguments, at every call.",
		assume: []string{"a contour has at least one point (what builds contours is compared with specifications in C14, C29, C32 and others)"}}
}

// crashRun is the evaluation of one function, the functions in open included.
type crashRun struct {
	f     *ssa.Function
	it    *Interp
	evs   []crashEv
	ret   *Term
	cond  *Term
	syms  map[string]*LSym
	ok    map[*LSym]int // pointers carried around a loop: 1 under way, 2 may be nil, 3 never nil
	low   map[*LSym]int // lists: least length; numbers: 1 if never negative
	under map[[2]interface{}]bool
	err   string
}

type crashEv struct {
	*Event
	when *Term
}

type crashCtx struct {
	c     *Ctx
	reach map[*ssa.Function]bool
	runs  map[string]*crashRun
	sums  map[*ssa.Function]*nilSum
	needs map[*ssa.Function][]bool
	calls map[*ssa.Function][]*ssa.Function // callers
	lens  map[*ssa.Function][]int
	start time.Time
	prom  map[*ssa.Function][]*Term
}

// nilSum says when the results of a function are nil.
type nilSum struct {
	never []bool
	not   [][]int // result i is nil only if result j is not (an error) or false
}

func (c *Ctx) crash() *crashCtx {
	x := &crashCtx{c: c, start: time.Now(), prom: map[*ssa.Function][]*Term{}, reach: c.reachable(), runs: map[string]*crashRun{}, sums: map[*ssa.Function]*nilSum{}, needs: map[*ssa.Function][]bool{}, lens: map[*ssa.Function][]int{}, calls: map[*ssa.Function][]*ssa.Function{}}
	nonEmpty = func(l *Term) bool {
		return l.K == KAtom && l.Atom.Op == ".Points"
	}
	for f := range x.reach {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && x.reach[g] && g != top {
						x.calls[g] = append(x.calls[g], top)
					}
				}
			}
		}
	}
	return x
}

func (x *crashCtx) tops() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range sortedFns(x.reach) {
		if f.Parent() == nil && f.Synthetic == "" && f.Name() != "init" && !x.c.p.isSpec(f) {
			r = append(r, f)
		}
	}
	return r
}

func (x *crashCtx) run(f *ssa.Function, open ...*ssa.Function) (r *crashRun) {
	key := f.String()
	op := map[*ssa.Function]bool{f: true}
	for _, o := range open {
		op[o] = true
	}
	for _, o := range sortedFns(op) {
		key += "|" + o.String()
	}
	if r := x.runs[key]; r != nil {
		return r
	}
	r = &crashRun{f: f, syms: map[string]*LSym{}, ok: map[*LSym]int{}, low: map[*LSym]int{}, under: map[[2]interface{}]bool{}}
	x.runs[key] = r
	c := x.c
	opaque := func(g *ssa.Function) bool { return c.p.inRepo(g) && g.Parent() == nil && !op[g] }
	cl := Client{SiteFree: true, NoMu: true, Opaque: opaque}
	cl.Call = func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
		if opaque(cs.Fn) && cs.Fn.Blocks != nil {
			it.emit(&Event{Kind: "pcall", Fn: cs.Fn, In: fr.fn, Pos: cs.Instr.Pos(), Cond: st.cond, Args: cs.Args})
		}
		return nil, false
	}
	defer func() {
		if p := recover(); p != nil {
			r.err = fmt.Sprint(p)
		}
	}()
	it := newInterp(c.p, cl)
	r.it = it
	st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
	r.ret = it.Call(f, argTerms(f), nil, st, "T")
	r.cond = st.cond
	c.visit(it)
	for _, s := range it.lsyms {
		if s.Atom != nil {
			r.syms[s.Atom.Op] = s
		}
	}
	var walk func(es []*Event, when *Term)
	walk = func(es []*Event, when *Term) {
		for _, e := range es {
			w := when
			if e.Cond != nil {
				w = bAnd(w, e.Cond)
			}
			if e.Kind == "loop" {
				walk(e.Sub, w)
				continue
			}
			r.evs = append(r.evs, crashEv{e, w})
		}
	}
	walk(*it.sink, tTrue)
	return r
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func nilVar(t *Term) *Term { return mkVarB(mkVar("isnil", false, t)) }

// hold decides goal under when, with what is known about the pointers and lists that occur.
func (x *crashCtx) hold(r *crashRun, goal, when *Term) bool {
	if valid(goal, when) {
		return true
	}
	try := func(known *Term) bool {
		f := spread(bImp(bAnd(known, when), goal))
		return valid(f, tTrue) || valid(f, sums(f))
	}
	known := x.facts(r, spread(bImp(when, goal)), 0)
	if try(known) {
		return true
	}
	known = bAnd(known, x.facts(r, known, 0))
	if os.Getenv("AZ_TRACE") == "2" {
		println("HOLD", goal.String(), "WHEN", when.String(), "KNOWN", known.String())
	}
	return try(known)
}

// sums: two lists with an element each have two together.
func sums(f *Term) *Term {
	known := tTrue
	for _, v := range topVars(f) {
		if v.Op != "pos" || v.Args[0].K != KNum {
			continue
		}
		all, n := tTrue, int64(0)
		for _, t := range v.Args[0].Poly.T {
			if len(t.M.Fs) == 0 {
				continue
			}
			if len(t.M.Fs) != 1 || t.M.Fs[0].A.Op != "len" || t.C.Cmp(oneRat) != 0 {
				n = 0
				break
			}
			n++
			all = bAnd(all, posB(mkNumAtom(t.M.Fs[0].A), true))
		}
		if n < 2 {
			continue
		}
		sum := mkNum(1 - n)
		for _, t := range v.Args[0].Poly.T {
			if len(t.M.Fs) == 1 {
				sum = numAdd(sum, mkNumAtom(t.M.Fs[0].A))
			}
		}
		known = bAnd(known, bImp(all, posB(sum, true)))
	}
	return known
}

// spread writes maxima and minima of two numbers as choices.
func spread(f *Term) *Term {
	for i := 0; i < 4; i++ {
		seen := map[*Atom]bool{}
		for _, v := range topVars(f) {
			for _, a := range v.Args {
				atomsIn(a, seen, 3)
			}
		}
		var pick *Atom
		for a := range seen {
			if (a.Op == "max" || a.Op == "min") && len(a.Args) == 2 && a.Args[0].K == KNum && a.Args[1].K == KNum && (pick == nil || a.ID < pick.ID) {
				pick = a
			}
		}
		if pick == nil {
			break
		}
		p, q := pick.Args[0], pick.Args[1]
		if pick.Op == "min" {
			p, q = q, p
		}
		f = subst1(f, pick, mkIte(cmpLT(q, p, pick.Int), pick.Args[0], pick.Args[1]))
	}
	return f
}

func (x *crashCtx) facts(r *crashRun, f *Term, depth int) *Term {
	known := tTrue
	if depth > 3 {
		return known
	}
	seen := map[*Atom]bool{}
	for _, v := range topVars(f) {
		if v.Op == "isnil" && v.Args[0].K == KAtom {
			known = bAnd(known, x.nilFact(r, v.Args[0]))
		}
		for _, a := range v.Args {
			atomsIn(a, seen, 0)
		}
	}
	var as, lens, nums []*Atom
	for a := range seen {
		as = append(as, a)
	}
	known = bAnd(known, x.firstFacts(f))
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	for _, a := range as {
		known = bAnd(known, x.lenFact(r, a))
		if s := r.syms[a.Op]; s != nil && a.Int && s.Init != nil && s.Next != nil {
			nums = append(nums, a)
		}
		if a.Op == "len" && a.Args[0].K == KAtom && len(a.Args[0].Atom.Args) == 0 {
			lens = append(lens, a)
		}
	}
	for _, n := range nums {
		for _, l := range lens {
			if x.below(r, r.syms[n.Op], l) {
				known = bAnd(known, cmpLT(mkNumAtom(n), mkNumAtom(l), true))
			}
		}
	}
	return known
}

// firstFacts: where a search found something, what it searched for holds there, and with it what
// the functions asked promise about the lists they were given.
func (x *crashCtx) firstFacts(f *Term) *Term {
	seen := map[*Atom]bool{}
	mentionsF(f, func(a *Atom) bool {
		if a.Op == "ffirst" {
			seen[a] = true
		}
		return false
	})
	var as []*Atom
	for a := range seen {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	known := tTrue
	for _, a := range as {
		if a.Args[0].K != KNum {
			continue
		}
		d, _ := a.Args[2].constInt()
		at := subst1(a.Args[1], bound(int(d)), mkNumAtom(a))
		found := mkVarB(mkVar("fany", false, a.Args[0], a.Args[1], a.Args[2]))
		known = bAnd(known, bImp(found, bAnd(at, cmpLT(mkNumAtom(a), a.Args[0], true))))
		last := subst1(a.Args[1], bound(int(d)), numSub(a.Args[0], mkNum(1)))
		known = bAnd(known, bImp(bAnd(bNot(found), posB(a.Args[0], true)), bNot(last)))
		for _, v := range topVars(at) {
			op, args, yes := v.Op, v.Args, mkVarB(v)
			if v.Op == "isnil" && v.Args[0].K == KAtom {
				op, args, yes = v.Args[0].Atom.Op, v.Args[0].Atom.Args, bNot(mkVarB(v))
			}
			if !strings.HasPrefix(op, "call:") {
				continue
			}
			g := x.fnNamed(op[5:])
			if g == nil || len(g.Params) != len(args) {
				continue
			}
			m := map[*Atom]Sub{}
			for i := range g.Params {
				m[mkAtom("a"+strconv.Itoa(i), g.Params[i].Type(), false)] = Sub{Val: args[i]}
			}
			for _, q := range x.promises(g) {
				known = bAnd(known, bImp(bAnd(found, yes), subst(q, m)))
			}
		}
	}
	return known
}

// promises are what g makes sure of about the lists in its arguments before it answers true, or not nil.
func (x *crashCtx) promises(g *ssa.Function) []*Term {
	if p, ok := x.prom[g]; ok {
		return p
	}
	x.prom[g] = nil
	set := map[*ssa.Function]bool{}
	for _, h := range x.callees(g) {
		if size(h) <= 60 && h != g && !x.recursive(h) {
			set[h] = true
		}
	}
	r := x.run(g, sortedFns(set)...)
	if r.err != "" || r.ret == nil || g.Signature.Results().Len() != 1 {
		return nil
	}
	when := tTrue
	switch t := g.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Basic:
		if t.Kind() != types.Bool {
			return nil
		}
		when = bAnd(r.cond, r.ret)
	case *types.Pointer:
		when = bAnd(r.cond, bNot(isNilOf(r.ret)))
	default:
		return nil
	}
	var out []*Term
	for i, p := range argTerms(g) {
		st, ok := g.Params[i].Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for k := 0; k < st.NumFields(); k++ {
			if _, ok := st.Field(k).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			n := lenOf(fieldOf(p, st.Field(k).Name(), st.Field(k).Type()), st.Field(k).Type())
			if q := posB(n, true); x.hold(r, q, when) {
				out = append(out, q)
			}
		}
	}
	x.prom[g] = out
	return out
}

func atomsIn(t *Term, seen map[*Atom]bool, d int) {
	if t.K != KNum || d > 3 {
		return
	}
	for _, m := range t.Poly.T {
		for _, f := range m.M.Fs {
			if !seen[f.A] {
				seen[f.A] = true
				for _, a := range f.A.Args {
					for _, l := range leavesOf(a) {
						atomsIn(l, seen, d+1)
					}
				}
			}
		}
	}
}

// below: a number carried around a loop that stays below the length of a list given
func (x *crashCtx) below(r *crashRun, s *LSym, l *Atom) bool {
	k := [2]interface{}{s, l}
	if v, ok := r.under[k]; ok {
		return v
	}
	r.under[k] = false
	lt := func(t *Term) *Term { return cmpLT(t, mkNumAtom(l), true) }
	v := x.hold(r, lt(s.Init), s.care) && x.hold(r, lt(s.Next), bAnd(s.back, lt(s.Term)))
	r.under[k] = v
	return v
}

// lenFact is what is known about the length of a list, or a number carried around a loop.
func (x *crashCtx) lenFact(r *crashRun, a *Atom) *Term {
	if s := r.syms[a.Op]; s != nil && a.Int && s.Init != nil && s.Next != nil {
		if x.counted(r, s) {
			return posB(numAdd(mkNumAtom(a), mkNum(1)), true)
		}
		return tTrue
	}
	if a.Op == "sumlen" && a.Args[0].K == PFor && a.Args[0].Kids[0].K == KNum { // nothing is collected in no passes
		return bImp(posB(mkNumAtom(a), true), posB(a.Args[0].Kids[0], true))
	}
	if a.Op != "len" || a.Args[0].K != KAtom {
		return tTrue
	}
	b := a.Args[0].Atom
	least := func(n *Term, m int64) *Term { return posB(numSub(n, mkNum(m-1)), true) }
	at := func(m int64) *Term { return least(mkNumAtom(a), m) }
	if s := r.syms[b.Op]; s != nil && s.slice && s.Init != nil && s.Next != nil && s.Typ != nil {
		if n, ok := r.low[s]; ok {
			if n > 0 {
				return at(int64(n))
			}
			return tTrue
		}
		r.low[s] = 0
		n0, n1, self := lenOf(s.Init, s.Typ), lenOf(s.Next, s.Typ), lenOf(s.Term, s.Typ)
		for m := int64(3); m > 0; m-- {
			if x.hold(r, least(n0, m), s.care) && x.hold(r, least(n1, m), bAnd(s.back, least(self, m))) {
				r.low[s] = int(m)
				return at(m)
			}
		}
		return tTrue
	}
	if strings.HasPrefix(b.Op, "call:") {
		if g := x.fnNamed(b.Op[5:]); g != nil {
			known := tTrue
			for i, m := range x.length(g) {
				switch {
				case m == 0:
				case i == len(g.Params):
					known = bAnd(known, at(int64(m)))
				case i < len(b.Args):
					if n := listLen(b.Args[i]); n != nil {
						known = bAnd(known, bImp(least(n, 1), at(int64(m))))
					}
				}
			}
			return known
		}
	}
	if b.Op == "elem" && b.Args[0].K == KAtom && strings.HasPrefix(b.Args[0].Atom.Op, "ext:strings.Fields") {
		return at(1) // words have a character
	}
	return tTrue
}

func listLen(t *Term) *Term {
	n := lift(func(y []*Term) *Term {
		switch y[0].K {
		case KSnap:
			return seqLen(y[0].Kids[0])
		case KSlice:
			return y[0].Kids[2]
		}
		return tBot
	}, t)
	for _, l := range leavesOf(n) {
		if l.K != KNum {
			return nil
		}
	}
	return n
}

// counted: a number that starts and stays at zero or above
func (x *crashCtx) counted(r *crashRun, s *LSym) bool {
	if k, ok := r.low[s]; ok {
		return k > 0
	}
	r.low[s] = 0
	pos := func(t *Term) *Term { return posB(numAdd(t, mkNum(1)), true) }
	if x.hold(r, pos(s.Init), s.care) && x.hold(r, pos(s.Next), bAnd(s.back, pos(s.Term))) {
		r.low[s] = 1
		return true
	}
	return false
}

// length says how long a returned list is at least: always (last entry), or where a list it is
// given has an element (by parameter). Calls of itself may be assumed to keep to it.
func (x *crashCtx) length(g *ssa.Function) []int {
	if m, ok := x.lens[g]; ok {
		return m
	}
	m := make([]int, len(g.Params)+1)
	x.lens[g] = m
	r := x.run(g)
	if g.Signature.Results().Len() != 1 || r.err != "" || r.ret == nil || r.cond.K == KFalse {
		return m
	}
	if _, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
		return m
	}
	n := listLen(r.ret)
	if n == nil {
		return m
	}
	try := func(i int, when *Term) {
		for k := 3; k > 0; k-- {
			m[i] = k
			if x.hold(r, posB(numSub(n, mkNum(int64(k-1))), true), when) {
				return
			}
			if k > 1 && i < len(g.Params) {
				k = 2
			}
		}
		m[i] = 0
	}
	try(len(g.Params), r.cond)
	args := argTerms(g)
	for i, q := range g.Params {
		if _, ok := q.Type().Underlying().(*types.Slice); ok && m[len(g.Params)] == 0 {
			try(i, bAnd(r.cond, posB(lenOf(args[i], q.Type()), true)))
		}
	}
	return m
}

// nilFact is what is known about an unknown pointer being nil.
func (x *crashCtx) nilFact(r *crashRun, p *Term) *Term {
	a := p.Atom
	never := bNot(nilVar(p))
	switch {
	case strings.HasPrefix(a.Op, "a") && strings.Trim(a.Op[1:], "0123456789") == "":
		if a.Typ != nil && isPtr(a.Typ) {
			return never // required where the function is called
		}
	case strings.HasPrefix(a.Op, "flag:"):
		return never
	case strings.HasPrefix(a.Op, ".") || a.Op == "elem":
		if a.Typ != nil && isPtr(a.Typ) {
			return never
		}
	case strings.HasPrefix(a.Op, "ls:"):
		if s := r.syms[a.Op]; s != nil && x.carried(r, s) {
			return never
		} else if s != nil && x.carriedNil(r, s) {
			return nilVar(p)
		}
	case strings.HasPrefix(a.Op, "call:"):
		if g := x.fnNamed(a.Op[5:]); g != nil {
			if s := x.sum(g); len(s.never) == 1 && s.never[0] {
				return never
			}
		}
	case strings.HasPrefix(a.Op, "ext:"):
		return never
	case strings.HasPrefix(a.Op, "res") && len(a.Op) == 4 && len(a.Args) == 1 && a.Args[0].K == KAtom:
		base := a.Args[0]
		i := int(a.Op[3] - '0')
		tup, ok := base.Atom.Typ.(*types.Tuple)
		if !ok || i >= tup.Len() {
			break
		}
		known := tTrue
		with := func(j int) {
			other := symOf(tup.At(j).Type(), "res"+string(rune('0'+j)), base)
			if b, ok := tup.At(j).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				known = bAnd(known, bNot(bAnd(nilVar(p), other)))
			} else {
				known = bAnd(known, bNot(bAnd(nilVar(p), isNilOf(other))))
			}
		}
		if g := x.fnNamed(strings.TrimPrefix(base.Atom.Op, "call:")); g != nil {
			s := x.sum(g)
			if s.never[i] {
				return never
			}
			for _, j := range s.not[i] {
				with(j)
			}
		} else if strings.HasPrefix(base.Atom.Op, "ext:") && isPtr(tup.At(i).Type()) {
			for j := 0; j < tup.Len(); j++ {
				if types.Identical(tup.At(j).Type(), types.Universe.Lookup("error").Type()) {
					with(j)
				}
			}
		}
		return known
	}
	return tTrue
}

func (x *crashCtx) fnNamed(n string) *ssa.Function {
	for f := range x.reach {
		if f.String() == n {
			return f
		}
	}
	return nil
}

// carried: a pointer that is not nil when the loop starts, and not afterwards if it was not before
func (x *crashCtx) carriedNil(r *crashRun, s *LSym) bool {
	if s.Init == nil || s.Next == nil {
		return false
	}
	return x.hold(r, isNilOf(s.Init), s.care) && valid(isNilOf(s.Next), bAnd(s.back, isNilOf(s.Term)))
}

func (x *crashCtx) carried(r *crashRun, s *LSym) bool {
	if k := r.ok[s]; k != 0 {
		return k == 3
	}
	r.ok[s] = 1
	good := s.Init != nil && s.Next != nil && x.hold(r, bNot(isNilOf(s.Init)), s.care) && x.hold(r, bNot(isNilOf(s.Next)), bAnd(s.back, bNot(nilVar(s.Term))))
	r.ok[s] = 2
	if good {
		r.ok[s] = 3
	}
	return good
}

func (x *crashCtx) sum(g *ssa.Function) *nilSum {
	if s := x.sums[g]; s != nil {
		return s
	}
	n := g.Signature.Results().Len()
	s := &nilSum{never: make([]bool, n), not: make([][]int, n)}
	x.sums[g] = s
	r := x.run(g)
	if r.err != "" || r.ret == nil {
		return s
	}
	if r.cond.K == KFalse {
		return s
	}
	at := func(i int) *Term {
		if n == 1 {
			return r.ret
		}
		return lift(func(y []*Term) *Term {
			if y[0].K == KTuple {
				return y[0].Kids[i]
			}
			return tBot
		}, r.ret)
	}
	for i := 0; i < n; i++ {
		if !isPtr(g.Signature.Results().At(i).Type()) {
			continue
		}
		ni := isNilOf(at(i))
		s.never[i] = x.hold(r, bNot(ni), r.cond)
		for j := 0; j < n && !s.never[i]; j++ {
			if j == i {
				continue
			}
			t := g.Signature.Results().At(j).Type()
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if x.hold(r, bNot(bAnd(ni, at(j))), r.cond) {
					s.not[i] = append(s.not[i], j)
				}
			} else if types.Identical(t, types.Universe.Lookup("error").Type()) {
				if x.hold(r, bNot(bAnd(ni, isNilOf(at(j)))), r.cond) {
					s.not[i] = append(s.not[i], j)
				}
			}
		}
	}
	return s
}

// leaves of a value with the conditions under which they are it
func condLeaves(t, when *Term, f func(l, when *Term)) {
	if when.K == KFalse {
		return
	}
	if t.K == KIte {
		v := topVar(t)
		condLeaves(cofac(t, v, true), bAnd(when, mkVarB(v)), f)
		condLeaves(cofac(t, v, false), bAnd(when, bNot(mkVarB(v))), f)
		return
	}
	f(t, when)
}

func paramOf(t *Term) int {
	if t.K != KAtom || !strings.HasPrefix(t.Atom.Op, "a") || len(t.Atom.Args) > 0 {
		return -1
	}
	n := -1
	if _, err := fmt.Sscanf(t.Atom.Op, "a%d", &n); err != nil || fmt.Sprintf("a%d", n) != t.Atom.Op {
		return -1
	}
	return n
}

// need: the parameters a function follows without looking
func (x *crashCtx) need(g *ssa.Function) []bool {
	if n, ok := x.needs[g]; ok {
		return n
	}
	n := make([]bool, len(g.Params))
	x.needs[g] = n
	r := x.run(g)
	use := func(p, when *Term) {
		if i := paramOf(p); i >= 0 && i < len(n) && !n[i] && !valid(bNot(nilVar(p)), when) {
			n[i] = true
		}
	}
	for _, e := range r.evs {
		switch e.Kind {
		case "deref":
			condLeaves(e.Args[0], e.when, use)
		case "pcall":
			for i, a := range e.Args {
				if i < len(e.Fn.Params) && isPtr(e.Fn.Params[i].Type()) && x.need(e.Fn)[i] {
					condLeaves(a, e.when, use)
				}
			}
		}
	}
	return n
}

type crashOb struct {
	run  *crashRun
	in   *ssa.Function
	pos  token.Pos
	what string
	ok   bool
	args []*Term
	when *Term
}

func brief(t *Term) string {
	s := t.String()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

func (x *crashCtx) nilObs(r *crashRun) []crashOb {
	var out []crashOb
	one := func(e crashEv, a *Term, what string) {
		ok := x.hold(r, bNot(isNilOf(a)), e.when)
		condLeaves(a, e.when, func(l, w *Term) {
			if l.K == KBot || l.K == KNil {
				ok = ok && unsat(bAnd(w, x.facts(r, w, 0)))
			}
		})
		out = append(out, crashOb{r, e.In, e.Pos, what, ok, []*Term{a}, e.when})
	}
	for _, e := range r.evs {
		switch e.Kind {
		case "deref":
			if k := e.Args[0].K; k == KPtr || k == KSnapPtr || !e.Pos.IsValid() || paramOf(e.Args[0]) >= 0 {
				continue
			}
			one(e, e.Args[0], "is followed")
		case "pcall":
			for i, a := range e.Args {
				if i < len(e.Fn.Params) && isPtr(e.Fn.Params[i].Type()) && x.need(e.Fn)[i] && paramOf(a) < 0 {
					one(e, a, "is handed to "+stripRepo(e.Fn.String())+", which follows it,")
				}
			}
		}
	}
	return out
}

func (x *crashCtx) endObs(r *crashRun) []crashOb {
	var out []crashOb
	fixed := func(t *Term) bool { _, ok := t.constInt(); return ok }
	for _, e := range r.evs {
		var goal *Term
		var what string
		switch e.Kind {
		case "index":
			n, i := e.Args[0], e.Args[1]
			end := lift(func(y []*Term) *Term {
				if y[0].K == KNum && y[1].K == KNum {
					if _, ok := numSub(y[0], y[1]).constInt(); ok {
						return tTrue
					}
				}
				return tFalse
			}, n, i)
			if !fixed(i) && end.K != KTrue {
				continue
			}
			goal = bAnd(bNot(cmpLT(i, mkNum(0), true)), cmpLT(i, n, true))
			what = "element " + brief(i) + " is taken of a list of length " + brief(n)
		case "slice":
			n, lo, hi := e.Args[0], e.Args[1], e.Args[2]
			_, back := numSub(n, hi).constInt()
			if !fixed(lo) || lo == mkNum(0) && (fixed(hi) || !back) {
				continue
			}
			goal = bAnd(bNot(cmpLT(hi, lo, true)), bNot(cmpLT(n, hi, true)))
			what = "a piece from " + brief(lo) + " to " + brief(hi) + " is taken of a list of length " + brief(n)
		default:
			continue
		}
		out = append(out, crashOb{r, e.In, e.Pos, what, x.hold(r, goal, e.when), e.Args, e.when})
	}
	return out
}

// opening tries again with functions called from f evaluated along.
func (x *crashCtx) opening(o crashOb, obs func(*crashRun) []crashOb, f *ssa.Function, open []*ssa.Function) bool {
	limits := []int{60, 250}
	if len(open) > 0 {
		limits = limits[:1]
	}
	for _, lim := range limits {
		set := map[*ssa.Function]bool{}
		for _, g := range open {
			set[g] = true
		}
		for _, b := range append([]*ssa.Function{f}, open...) {
			for _, g := range x.callees(b) {
				if size(g) <= lim && g != f && !x.recursive(g) {
					set[g] = true
				}
			}
		}
		if len(set) == len(open) {
			continue
		}
		if x.at(x.run(f, sortedFns(set)...), o, obs) {
			return true
		}
	}
	return false
}

// at: are all obligations at o's place met in this evaluation?
func (x *crashCtx) at(r *crashRun, o crashOb, obs func(*crashRun) []crashOb) (ok bool) {
	defer func() {
		if recover() != nil { // grew too big
			ok = false
		}
	}()
	if r.err != "" {
		return false
	}
	for _, q := range obs(r) {
		if q.pos == o.pos && q.in == o.in && !q.ok {
			return false
		}
	}
	return true
}

func (x *crashCtx) callees(f *ssa.Function) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && x.reach[g] && g.Parent() == nil {
						set[g] = true
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					walk(m.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(f)
	return sortedFns(set)
}

func (x *crashCtx) recursive(f *ssa.Function) bool {
	for _, g := range x.callees(f) {
		if g == f {
			return true
		}
	}
	return false
}

func size(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n
}

// settle decides o: by itself, with called functions evaluated along, or at every call of f.
func (x *crashCtx) settle(o crashOb, obs func(*crashRun) []crashOb, f *ssa.Function, open []*ssa.Function, depth int) (ok bool) {
	defer func() {
		if recover() != nil { // grew too big
			ok = false
		}
	}()
	if o.ok || x.opening(o, obs, f, open) {
		return true
	}
	if depth >= 2 || x.recursive(f) || time.Since(x.start) > 240*time.Second {
		return false
	}
	cs := map[*ssa.Function]bool{}
	for _, g := range x.calls[f] {
		cs[g] = true
	}
	if len(cs) == 0 {
		return false
	}
	for _, g := range sortedFns(cs) {
		op := append([]*ssa.Function{f}, open...)
		r := x.run(g, op...)
		if r.err != "" {
			return false
		}
		for _, q := range obs(r) {
			if q.pos == o.pos && q.in == o.in && !q.ok && !x.settle(q, obs, g, op, depth+1) {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) crashCheck(rule, fail string, obs func(x *crashCtx, r *crashRun) []crashOb) {
	x := c.crash()
	defer func() { nonEmpty = nil }()
	fs := x.tops()
	n := 0
	for _, f := range fs {
		t0 := time.Now()
		r := x.run(f)
		if os.Getenv("AZ_TRACE") != "" {
			println(f.String())
		}
		if r.err != "" {
			c.add(rule, stripRepo(f.String()), f.Pos(), false, "undecided: %s", r.err)
			continue
		}
		type site struct {
			in  *ssa.Function
			pos token.Pos
		}
		by := map[site][]crashOb{}
		var order []site
		of := func(r *crashRun) []crashOb { return obs(x, r) }
		for _, o := range of(r) {
			s := site{o.in, o.pos}
			if by[s] == nil {
				order = append(order, s)
			}
			by[s] = append(by[s], o)
		}
		sort.SliceStable(order, func(i, j int) bool { return order[i].pos < order[j].pos })
		for _, s := range order {
			n++
			if os.Getenv("AZ_TRACE") != "" {
				println("  ", time.Since(t0).String(), c.p.pos(s.pos))
			}
			ok := true
			what := ""
			for _, o := range by[s] {
				if !x.settle(o, of, f, nil, 0) {
					ok, what = false, fmt.Sprintf(fail, o.what, brief(o.args[0]))
					break
				}
			}
			c.add(rule, stripRepo(s.in.String()), s.pos, ok, "%s", what)
		}
	}
	c.need(n, "places to look at")
}

func checkC25(c *Ctx) {
	c.crashCheck("never nil where it is used", "what %[1]s may be nil: %[2]s", func(x *crashCtx, r *crashRun) []crashOb { return x.nilObs(r) })
}

func checkC26(c *Ctx) {
	c.crashCheck("the list is long enough", "%[1]s", func(x *crashCtx, r *crashRun) []crashOb { return x.endObs(r) })
}
