package main

// Loops: induction variables, folds and built-up sequences are closed over an
// explicit iteration counter; what cannot be closed stays an opaque symbol
// with its entry value and its one-iteration update (LSym).

import (
	"fmt"
	"go/types"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	hdr    *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type LSym struct {
	Atom   *Atom
	Term   *Term
	Typ    types.Type
	Init   *Term
	Next   *Term
	slice  bool
	iseq   *Term // slices: entry content
	nseq   *Term // slices: content after one iteration
	closed *Sub
	expect *Term // what Next must be again when the closed form is put in
	expSeq *Term
	seqC   *Term
	lo     *Term
	failed bool
	arr    bool
	mu     bool
	care   *Term // when the loop is entered
	back   *Term // when an iteration is followed by another
}

type loopRun struct {
	it    *Interp
	fr    *Frame
	lp    *Loop
	K     *Atom
	kT    *Term
	entry *State
	phis  []*ssa.Phi
	syms  []*LSym
	byAtm map[*Atom]*LSym
	n     int
	// header templates
	envT map[*ssa.Phi]*Term
	memT map[*Term]*Term
	subs map[*Atom]Sub
}

func (it *Interp) execLoop(fr *Frame, lp *Loop, in []Edge) []Edge {
	entry := it.mergeEdges(lp.hdr, in)
	if entry == nil || entry.cond.K == KFalse {
		return nil
	}
	if it.cl.Unroll > 0 {
		if out, ok := it.unroll(fr, lp, entry); ok {
			return out
		}
	}
	it.Loops++
	r := &loopRun{it: it, fr: fr, lp: lp, entry: entry, byAtm: map[*Atom]*LSym{}, envT: map[*ssa.Phi]*Term{}, memT: map[*Term]*Term{}, subs: map[*Atom]Sub{}}
	r.K = mkAtom(fmt.Sprintf("k:%s:%d", fr.ctx, lp.hdr.Index), nil, true, it.ks...)
	r.K.NonNeg = true
	r.kT = mkNumAtom(r.K)
	for _, in := range lp.hdr.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r.phis = append(r.phis, p)
			r.envT[p] = entry.env[p]
		}
	}
	for o, v := range entry.mem {
		r.memT[o] = v
	}
	// 1. which locations change, and which change together
	var back *State
	for round := 0; ; round++ {
		back, _, _ = r.run(false)
		if back == nil {
			break
		}
		if !r.generalise(back) {
			break
		}
		if round > 24 {
			it.note("loop in %s does not stabilise", fr.fn)
			break
		}
	}
	// 2. closed forms
	if back != nil {
		for round := 0; round < 12; round++ {
			r.collect(back)
			if !r.close() {
				break
			}
			for inner := 0; inner < 12; inner++ {
				back, _, _ = r.run(false)
				if back == nil {
					break
				}
				if r.verify(back) {
					break
				}
			}
			if back == nil {
				break
			}
		}
	}
	if back != nil && !it.cl.NoMu {
		// values that depend on no others that have no closed form come first: what is built from
		// them may then have one
		for stage := 0; it.cl.Stages && back != nil && stage < 6 && r.fixpoints(back, true); stage++ {
			for round := 0; round < 12; round++ {
				if back, _, _ = r.run(false); back == nil {
					break
				}
				r.collect(back)
				if !r.close() {
					break
				}
				for inner := 0; inner < 12 && back != nil; inner++ {
					if back, _, _ = r.run(false); back == nil || r.verify(back) {
						break
					}
				}
			}
		}
		if back != nil {
			r.fixpoints(back, false)
		}
	}
	// 3. final run
	var exits []Edge
	var sub []*Event
	back, exits, sub = r.run(true)
	if back != nil {
		r.collect(back)
	}
	return r.finish(back, exits, sub)
}

// unroll runs a loop whose trip count is a small constant round by round.
func (it *Interp) unroll(fr *Frame, lp *Loop, entry *State) ([]Edge, bool) {
	oldSink, oldKs, nnotes := it.sink, it.ks, len(it.notes)
	var ev []*Event
	it.sink = &ev
	undo := func() ([]Edge, bool) {
		it.sink, it.ks, it.notes = oldSink, oldKs, it.notes[:nnotes]
		return nil, false
	}
	// the header must decide by itself, and decide to go on
	goesOn := func(st *State) (stay, leave bool) {
		var tmp []*Event
		it.sink = &tmp
		for _, e := range it.execBlock(fr, lp.hdr, st.clone()) {
			if e.st.cond.K == KFalse {
				continue
			}
			if e.to != nil && lp.blocks[e.to] {
				stay = true
			} else {
				leave = true
			}
		}
		it.sink = &ev
		return
	}
	if _, ok := lp.hdr.Instrs[len(lp.hdr.Instrs)-1].(*ssa.If); !ok {
		return undo()
	}
	st := entry
	var out []Edge
	for i := 0; i <= it.cl.Unroll; i++ {
		it.ks = append(append([]*Term{}, oldKs...), mkNum(int64(i)))
		stay, leave := goesOn(st)
		if stay && leave || stay && i == it.cl.Unroll {
			return undo()
		}
		backs, exits := it.execRegion(fr, lp, lp.hdr, nil, st)
		out = append(out, exits...)
		if !stay || len(backs) == 0 {
			if i == 0 && !stay {
				// zero rounds
			}
			it.sink, it.ks = oldSink, oldKs
			*it.sink = append(*it.sink, ev...)
			return out, true
		}
		st = it.mergeEdges(lp.hdr, backs)
		if st == nil {
			it.sink, it.ks = oldSink, oldKs
			*it.sink = append(*it.sink, ev...)
			return out, true
		}
	}
	return undo()
}

func (r *loopRun) hdrState() *State {
	st := r.entry.clone()
	m := map[*Atom]Sub{}
	for _, s := range r.syms {
		if s.closed != nil {
			m[s.Atom] = *s.closed
		}
	}
	for p, t := range r.envT {
		st.env[p] = subst(t, m)
	}
	for o, t := range r.memT {
		st.mem[o] = subst(t, m)
	}
	for _, s := range r.syms {
		if s.closed != nil && s.slice && s.lo != nil {
			st.mem[s.lo] = s.seqC
		}
	}
	return st
}

func (r *loopRun) run(final bool) (*State, []Edge, []*Event) {
	it := r.it
	oldSink := it.sink
	var ev []*Event
	it.sink = &ev
	oldKs := it.ks
	it.ks = append(append([]*Term{}, it.ks...), r.kT)
	nnotes := len(it.notes)
	st := r.hdrState()
	backs, exits := it.execRegion(r.fr, r.lp, r.lp.hdr, nil, st)
	if len(backs) == 0 && false {
		backs = nil
	}
	it.ks = oldKs
	it.sink = oldSink
	if !final {
		it.notes = it.notes[:nnotes]
	}
	var back *State
	if len(backs) > 0 {
		back = it.mergeEdges(r.lp.hdr, backs)
	}
	return back, exits, ev
}

func (r *loopRun) keyOfLoop(o *Term) bool { // object belongs to one iteration
	return len(o.Kids) > 0 && mentions(o, r.K) || mentionsF(o, func(a *Atom) bool { return r.byAtm[a] != nil })
}

// generalise compares the header template with the values at the end of the body.
func (r *loopRun) generalise(back *State) bool {
	changed := false
	first := map[*LSym]*Term{}
	split := map[string]*LSym{}
	type mk struct {
		from    *LSym
		a, e, b *Term
		x       *LSym
	}
	var made []mk
	// numbers that are the same under other names count as the same
	same := func(x, y, care *Term) bool {
		return x == y || leafKind(x) == KNum && leafKind(y) == KNum && (x.K == KIte || y.K == KIte) && eqUnder(x, y, care)
	}
	var gen func(a, b, e *Term, t types.Type) *Term
	gen = func(a, b, e *Term, t types.Type) *Term {
		if s := r.symFor(a); s != nil {
			nb := b
			if s.slice {
				nb = r.it.seqOf(back, b)
			}
			if f, ok := first[s]; !ok {
				first[s] = nb
				return a
			} else if f == nb || same(f, nb, back.cond) {
				return a
			}
			key := fmt.Sprintf("%d/%d", s.Atom.ID, nb.ID)
			if x, ok := split[key]; ok {
				return x.Term
			}
			for _, q := range made {
				if q.from == s && same(q.b, nb, back.cond) {
					return q.x.Term
				}
			}
			x := r.newSym(t, e, b)
			if x == nil {
				return a
			}
			split[key] = x
			made = append(made, mk{s, a, e, nb, x})
			changed = true
			return x.Term
		}
		if a == b {
			return a
		}
		if a.K == b.K && (a.K == KStruct || a.K == KTuple) && len(a.Kids) == len(b.Kids) {
			fs := make([]*Term, len(a.Kids))
			for i := range fs {
				var ft types.Type
				if a.K == KStruct {
					ft = a.Typ.Underlying().(*types.Struct).Field(i).Type()
				}
				ek := e
				if e.K == a.K && len(e.Kids) == len(a.Kids) {
					ek = e.Kids[i]
				}
				fs[i] = gen(a.Kids[i], b.Kids[i], ek, ft)
			}
			return intern(&Term{K: a.K, Typ: a.Typ, Kids: fs})
		}
		b = pullStore(a, b)
		if b.K == AStore && !mentions(b.Kids[1], r.K) && !r.mentionsSym(b.Kids[1]) && b.Kids[1].K != KIte {
			idx := b.Kids[1]
			base := b.Kids[0]
			var av *Term
			et := guessElem(b)
			if et == nil {
				et = typeOfTerm(b.Kids[2])
			}
			if et != nil {
				if a == base {
					av = selectArr(a, idx, et)
				} else if a.K == AStore && a.Kids[0] == base && a.Kids[1] == idx {
					av = a.Kids[2]
				}
			}
			if av != nil {
				ev := selectArr(e, idx, et)
				v := gen(av, b.Kids[2], ev, et)
				return intern(&Term{K: AStore, Kids: []*Term{base, idx, v}})
			}
		}
		key := fmt.Sprintf("n/%d/%d/%d", e.ID, a.ID, b.ID)
		if x, ok := split[key]; ok {
			return x.Term
		}
		for _, q := range made {
			if q.from == nil && q.a == a && same(q.e, e, r.entry.cond) && same(q.b, b, back.cond) {
				return q.x.Term
			}
		}
		x := r.newSym(t, e, b)
		if x == nil {
			r.it.note("loop in %s: cannot generalise %s / %s", r.fr.fn, a.String(), b.String())
			return a
		}
		split[key] = x
		made = append(made, mk{nil, a, e, b, x})
		changed = true
		return x.Term
	}
	for _, p := range r.phis {
		old := r.envT[p]
		n := gen(old, back.env[p], r.entry.env[p], p.Type())
		r.envT[p] = n
	}
	for _, o := range sortedObjs(back.mem) {
		if r.keyOfLoop(o) {
			continue
		}
		cur, ok := r.memT[o]
		if !ok {
			if !isInitial(o) {
				continue
			}
			cur = r.it.load(r.entry, o)
			if cur == back.mem[o] {
				continue
			}
			r.memT[o] = cur
		}
		ini, ok := r.entry.mem[o]
		if !ok {
			ini = r.it.load(r.entry, o)
		}
		r.memT[o] = gen(cur, back.mem[o], ini, r.it.objType[o.S])
	}
	return changed
}

// pullStore turns "one element of a replaced, or not, by conditions" into one replacement of that
// element by a conditional value.
func pullStore(a, b *Term) *Term {
	if b.K != KIte || !isArrKind(a.K) {
		return b
	}
	base, idx := a, (*Term)(nil)
	if a.K == AStore {
		base, idx = a.Kids[0], a.Kids[1]
	}
	ok := true
	var et types.Type
	for _, l := range leavesOf(b) {
		if l == a || l.K == KBot {
			continue
		}
		if l.K != AStore || l.Kids[0] != base || idx != nil && l.Kids[1] != idx || l.Kids[1].K == KIte {
			ok = false
			break
		}
		idx = l.Kids[1]
		if et == nil {
			if et = guessElem(l); et == nil {
				et = typeOfTerm(l.Kids[2])
			}
		}
	}
	if !ok || idx == nil || et == nil {
		return b
	}
	v := lift(func(x []*Term) *Term {
		if x[0].K == KBot {
			return tBot
		}
		return selectArr(x[0], idx, et)
	}, b)
	return intern(&Term{K: AStore, Kids: []*Term{base, idx, v}})
}

func (r *loopRun) mentionsSym(t *Term) bool {
	return mentionsF(t, func(a *Atom) bool { return r.byAtm[a] != nil })
}

// symFor: is t exactly one of our symbols?
func (r *loopRun) symFor(t *Term) *LSym {
	for _, s := range r.syms {
		if s.Term == t {
			return s
		}
	}
	return nil
}

func leafKind(t *Term) Kind {
	for t.K == KIte {
		if t.Kids[0].K != KBot && t.Kids[0].K != KNil {
			t = t.Kids[0]
		} else {
			t = t.Kids[1]
		}
	}
	return t.K
}

func isArrKind(k Kind) bool {
	return k == AZero || k == ASym || k == ACat || k == AStore || k == AMap
}

func (r *loopRun) newSym(t types.Type, e, b *Term) *LSym {
	it := r.it
	ks := append(append([]*Term{}, it.ks...), r.kT)
	name := fmt.Sprintf("ls:%s:%d#%d", r.fr.ctx, r.lp.hdr.Index, r.n)
	r.n++
	ke, kb := leafKind(e), leafKind(b)
	s := &LSym{Typ: t, Init: e}
	mk := func(t types.Type) {
		s.Term = symOf(t, name, ks...)
		if s.Term.K == KStruct || s.Term.K == KTuple {
			s.Atom = mkAtom(name, t, false, ks...)
		}
	}
	switch {
	case isArrKind(kb) || isArrKind(ke):
		et := guessElem(e)
		if et == nil {
			et = guessElem(b)
		}
		if et == nil && t != nil {
			et = elemType(t)
		}
		if et == nil {
			return nil
		}
		at := types.NewSlice(et)
		s.Atom = mkAtom(name, at, false, ks...)
		s.Term = intern(&Term{K: ASym, Kids: []*Term{mkKAtom(s.Atom)}, Typ: et})
		s.arr = true
	case kb == KSlice || ke == KSlice:
		if t == nil {
			return nil
		}
		s.Atom = mkAtom(name, t, false, ks...)
		s.Term = symSlice(mkKAtom(s.Atom))
		s.slice = true
	case kb == KNum || ke == KNum:
		isInt := false
		if t != nil {
			isInt = isIntType(t)
			s.Atom = mkAtom(name, t, isInt, ks...)
		} else {
			isInt = allLeaves(e, func(x *Term) bool { return x.K == KNum && polyInt(x.Poly) }) && allLeaves(b, func(x *Term) bool { return x.K == KNum && polyInt(x.Poly) })
			s.Atom = mkAtom(name, nil, isInt, ks...)
		}
		s.Term = mkNumAtom(s.Atom)
	case kb == KTrue || kb == KFalse || ke == KTrue || ke == KFalse:
		s.Atom = mkAtom(name, types.Typ[types.Bool], false, ks...)
		s.Term = mkVarB(mkVar("boolof", false, mkKAtom(s.Atom)))
	case kb == KStr || ke == KStr:
		s.Atom = mkAtom(name, types.Typ[types.String], false, ks...)
		s.Term = mkStrParts(mkKAtom(s.Atom))
	default:
		if t == nil {
			t = typeOfTerm(b)
		}
		if t == nil {
			return nil
		}
		mk(t)
		if s.Atom == nil {
			if s.Term.K == KAtom {
				s.Atom = s.Term.Atom
			} else {
				return nil
			}
		}
	}
	r.syms = append(r.syms, s)
	r.byAtm[s.Atom] = s
	return s
}

func allLeaves(t *Term, f func(*Term) bool) bool {
	if t.K == KIte {
		return allLeaves(t.Kids[0], f) && allLeaves(t.Kids[1], f)
	}
	return f(t)
}

// collect records for every symbol its value after one iteration.
func (r *loopRun) collect(back *State) {
	for _, s := range r.syms {
		s.Next, s.nseq = nil, nil
	}
	r.walk(back, func(s *LSym, b, e *Term) {
		if s.Next == nil {
			s.Next = b
			if s.slice {
				s.nseq = r.it.seqOf(back, b)
				s.iseq = r.it.seqOf(r.entry, e)
			}
		}
	})
}

// walk pairs template leaves that are symbols with values at the back edge
func (r *loopRun) walk(back *State, f func(s *LSym, b, e *Term)) {
	var rec func(a, b, e *Term)
	rec = func(a, b, e *Term) {
		if s := r.symFor(a); s != nil {
			f(s, b, e)
			return
		}
		if (a.K == KStruct || a.K == KTuple) && b.K == a.K && len(a.Kids) == len(b.Kids) {
			for i := range a.Kids {
				ek := e
				if e.K == a.K && len(e.Kids) == len(a.Kids) {
					ek = e.Kids[i]
				}
				rec(a.Kids[i], b.Kids[i], ek)
			}
			return
		}
		if a.K == AStore {
			b = pullStore(a, b)
		}
		if a.K == AStore && b.K == AStore && a.Kids[1] == b.Kids[1] {
			et := guessElem(b)
			if et == nil {
				et = typeOfTerm(b.Kids[2])
			}
			if et != nil {
				rec(a.Kids[2], b.Kids[2], selectArr(e, a.Kids[1], et))
			}
		}
	}
	for _, p := range r.phis {
		rec(r.envT[p], back.env[p], r.entry.env[p])
	}
	for _, o := range sortedObjs(r.memT) {
		if bv, ok := back.mem[o]; ok {
			ini, ok := r.entry.mem[o]
			if !ok {
				ini = r.it.load(r.entry, o)
			}
			rec(r.memT[o], bv, ini)
		}
	}
}

// verify: with the closed forms put in, the recurrences are the ones they were derived from.
func (r *loopRun) verify(back *State) bool {
	ok := true
	r.walk(back, func(s *LSym, b, e *Term) {
		if s.closed == nil || s.mu {
			return
		}
		if s.slice {
			if q := r.it.seqOf(back, b); q != s.expSeq && !r.equalOn(q, s.expSeq, back.cond) {
				s.closed, s.failed, ok = nil, true, false
				if dbgLoops {
					fmt.Printf("verify slice %s: got %s want %s\n", s.Atom, q, s.expSeq)
				}
			}
			return
		}
		if b != s.expect && !r.equalOn(b, s.expect, back.cond) {
			s.closed, s.failed, ok = nil, true, false
			if dbgLoops {
				fmt.Printf("verify %s: got %s want %s\n", s.Atom, b, s.expect)
			}
		}
	})
	// non-symbol template parts must be invariant
	return ok
}

func (r *loopRun) equalOn(a, b, care *Term) bool {
	return restrict(a, care) == restrict(b, care) || eqUnder(a, b, care)
}

// eqUnder: equal on every combination consistent with care
func eqUnder(a, b, care *Term) bool {
	if a.K == KStruct && b.K == KStruct && len(a.Kids) == len(b.Kids) {
		for i := range a.Kids {
			if !eqUnder(a.Kids[i], b.Kids[i], care) {
				return false
			}
		}
		return true
	}
	if a.K == AStore && b.K == AStore && a.Kids[0] == b.Kids[0] && a.Kids[1] == b.Kids[1] {
		return eqUnder(a.Kids[2], b.Kids[2], care)
	}
	if a.K == ACat && b.K == ACat && len(a.Kids) == len(b.Kids) {
		for i, p := range a.Kids {
			q := b.Kids[i]
			if p == q {
				continue
			}
			if p.K != PElem || q.K != PElem || !eqUnder(p.Kids[0], q.Kids[0], care) {
				return false
			}
		}
		return true
	}
	return valid(eqDiag(a, b), care)
}

// eqDiag: the condition under which two values are equal
func eqDiag(a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0] == x[1] {
			return tTrue
		}
		if x[0].K == KNum && x[1].K == KNum && len(x[0].Poly.T)+len(x[1].Poly.T) < 24 {
			return cmpEQnum(x[0], x[1], polyInt(x[0].Poly) && polyInt(x[1].Poly))
		}
		return tFalse
	}, a, b)
}

var dbgLoops = os.Getenv("AZ_OPEN") != ""

func (r *loopRun) close() bool {
	progress := false
	if os.Getenv("AZ_LOOPS") != "" {
		for _, s := range r.syms {
			if s.closed == nil && s.Next != nil && s.Typ == types.Typ[types.Int] {
				fmt.Printf("OPEN %s %s\n   init %.3000s\n   next %.3000s\n", mkNumAtom(r.K), s.Term, s.Init, s.Next)
			}
		}
	}
	for again := true; again; {
		again = false
		m := map[*Atom]Sub{}
		for _, s := range r.syms {
			if s.closed != nil {
				m[s.Atom] = *s.closed
			}
		}
		for _, s := range r.syms {
			if s.closed != nil || s.failed || s.Next == nil {
				continue
			}
			if r.tryClose(s, m) {
				again, progress = true, true
				break
			}
		}
	}
	return progress
}

func (r *loopRun) openMention(t *Term, except *LSym) bool {
	return mentionsF(t, func(a *Atom) bool {
		s := r.byAtm[a]
		return s != nil && s != except && s.closed == nil
	})
}

// leavesOf lists the leaves of a decision diagram.
func leavesOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.K == KIte {
			rec(t.Kids[0])
			rec(t.Kids[1])
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

// tryClose finds a closed form for a symbol.
func (r *loopRun) tryClose(s *LSym, m map[*Atom]Sub) bool {
	if r.tryForm(s, m) {
		return true
	}
	// guess: the symbol always is what one of its alternatives assigned in the previous round
	if s.slice || s.arr || s.failed {
		return false
	}
	F := subst(s.Next, m)
	if F.K != KIte || r.openMention(F, s) || !mentions(F, s.Atom) {
		return false
	}
	for _, L := range leavesOf(F) {
		if mentions(L, s.Atom) || L.K == KBot {
			continue
		}
		G := subst1(L, r.K, numSub(r.kT, mkNum(1)))
		if subst1(G, r.K, mkNum(0)) != s.Init {
			// the first round apart: the initial value is what the alternative would have been then
			G = mkIte(posB(r.kT, true), G, s.Init)
			n := subst(F, map[*Atom]Sub{s.Atom: {Val: G}})
			n0, L0 := subst1(n, r.K, mkNum(0)), subst1(L, r.K, mkNum(0))
			later := posB(r.kT, true)
			if r.equalOn(n0, L0, tTrue) && r.equalOn(restrict(n, later), restrict(L, later), later) {
				s.closed = &Sub{Val: G}
				s.expect = mkIte(later, L, L0)
				return true
			}
			continue
		}
		if n := subst(F, map[*Atom]Sub{s.Atom: {Val: G}}); n == L {
			s.closed = &Sub{Val: G}
			s.expect = L
			return true
		}
	}
	return false
}

func (r *loopRun) tryForm(s *LSym, m map[*Atom]Sub) bool {
	K, kT := r.K, r.kT
	prevK := func(t *Term) *Term { return subst1(t, K, numSub(kT, mkNum(1))) }
	if s.slice {
		return r.closeSlice(s, m)
	}
	F := subst(s.Next, m)
	if r.openMention(F, s) {
		return false
	}
	set := func(v *Term, exp *Term) bool {
		s.closed = &Sub{Val: v}
		if s.arr {
			s.closed = &Sub{Val: v, Content: v}
		}
		s.expect = exp
		return true
	}
	self := mentions(F, s.Atom)
	e := s.Init
	if !self {
		if s.arr && (F.K == KIte || e.K == KIte) {
			// fine
		}
		first := posB(kT, true)
		pf := prevK(F)
		v := mkIte(first, pf, e)
		// a closed form valid for k=0 as well?
		if z := subst1(pf, K, mkNum(0)); z == e {
			v = pf
		}
		return set(v, F)
	}
	// kept or replaced, by a condition that is the same in every round
	if !s.arr && F.K == KIte && s.Term.K != KIte {
		keep, ok := tFalse, true
		for _, l := range leafConds(F) {
			if l.t == s.Term {
				keep = bOr(keep, l.cond)
			} else if mentions(l.t, s.Atom) {
				ok = false
			}
		}
		if ok && keep.K != KFalse && !mentions(keep, s.Atom) && !mentions(keep, K) {
			rest := bNot(keep)
			E := restrict(F, rest)
			pf := prevK(E)
			v := mkIte(bAnd(rest, posB(kT, true)), pf, e)
			if z := subst1(pf, K, mkNum(0)); eqUnder(z, e, rest) {
				v = mkIte(rest, pf, e)
			}
			return set(v, mkIte(keep, v, E))
		}
	}
	switch {
	case s.arr:
		if F.K == AStore && F.Kids[0] == s.Term {
			idx := F.Kids[1]
			off := numSub(idx, kT)
			if mentions(off, K) || mentions(off, s.Atom) {
				return false
			}
			body := subst(F.Kids[2], map[*Atom]Sub{s.Atom: {Val: e, Content: e}})
			j := openAtom()
			v := mkAMap(e, off, numAdd(off, kT), j, subst1(body, K, numSub(mkNumAtom(j), off)))
			exp := intern(&Term{K: AStore, Kids: []*Term{v, idx, body}})
			return set(v, exp)
		}
		return false
	case leafKind(s.Init) == KNum || leafKind(F) == KNum:
		d := numSub(F, s.Term)
		if !mentions(d, s.Atom) {
			sum := mkSum(kT, K, d, s.Atom.Int)
			v := numAdd(e, sum)
			return set(v, numAdd(v, d))
		}
		// min / max
		if F.K == KNum {
			if a := singleAtom(F.Poly); a != nil && (a.Op == "min" || a.Op == "max") {
				var rest []*Term
				has := false
				for _, x := range a.Args {
					if x == s.Term {
						has = true
					} else {
						rest = append(rest, x)
					}
				}
				if has && len(rest) > 0 {
					body := mkMinMax(a.Op, rest...)
					if !mentions(body, s.Atom) {
						v := mkFoldMM(a.Op, kT, K, body, e)
						return set(v, numMinMax(a.Op, v, body))
					}
				}
			}
		}
		// scaled: S' = c*S
		return false
	case s.Term.K == KIte: // bool
		v := s.Term.Var
		hi := restrictVar(F, v, true)
		lo := restrictVar(F, v, false)
		if mentions(hi, s.Atom) || mentions(lo, s.Atom) {
			return false
		}
		if hi.K == KTrue {
			c := bOr(e, mkAny(kT, K, lo))
			return set(c, mkIte(c, tTrue, lo))
		}
		if lo.K == KFalse {
			c := bAnd(e, bNot(mkAny(kT, K, bNot(hi))))
			return set(c, mkIte(c, hi, tFalse))
		}
		return false
	case s.Term.K == KStr:
		// accumulate text: S' = S + parts
		if F.K == KStr && len(F.Kids) > 0 && F.Kids[0] == s.Term.Kids[0] {
			return false
		}
	}
	return false
}

// restrictVar cofactors everywhere at value level.
func restrictVar(t *Term, v *BVar, hi bool) *Term {
	c := mkVarB(v)
	if !hi {
		c = bNot(c)
	}
	return restrict(t, c)
}

func (r *loopRun) closeSlice(s *LSym, m map[*Atom]Sub) bool {
	if s.nseq == nil || s.iseq == nil {
		return false
	}
	K, kT := r.K, r.kT
	F := subst(s.nseq, m)
	if r.openMention(F, s) {
		return false
	}
	base := mkKAtom(s.Atom)
	self := symSeq(base)
	var content *Term
	var expSeq *Term
	if !mentions(F, s.Atom) {
		// replaced every time
		pf := subst1(F, K, numSub(kT, mkNum(1)))
		content = mkIte(posB(kT, true), pf, s.iseq)
		if subst1(pf, K, mkNum(0)) == s.iseq {
			content = pf
		}
		expSeq = F
		isn := mkIte(posB(kT, true), subst1(subst(isNilOf(s.Next), m), K, numSub(kT, mkNum(1))), isNilOf(s.Init))
		return r.setSlice(s, content, expSeq, isn)
	}
	part := self.Kids[0]
	suffixOK, prefixOK := true, true
	suf := lift(func(x []*Term) *Term {
		q := x[0]
		if q.K != ACat || len(q.Kids) == 0 || q.Kids[0] != part {
			suffixOK = false
			return tBot
		}
		return mkCat(q.Kids[1:]...)
	}, F)
	pre := suf
	if !suffixOK {
		pre = lift(func(x []*Term) *Term {
			q := x[0]
			if q.K != ACat || len(q.Kids) == 0 || q.Kids[len(q.Kids)-1] != part {
				prefixOK = false
				return tBot
			}
			return mkCat(q.Kids[:len(q.Kids)-1]...)
		}, F)
	}
	isn := bAnd(isNilOf(s.Init), bNot(posB(seqLenOfTotal(s.iseq, suf), true)))
	switch {
	case suffixOK && !mentions(suf, s.Atom):
		content = catSeq(s.iseq, mkFor(kT, K, suf))
		expSeq = catSeq(content, suf)
		isn = bAnd(isNilOf(s.Init), bNot(posB(seqLen(mkFor(kT, K, suf)), true)))
	case !suffixOK && prefixOK && !mentions(pre, s.Atom):
		// the latest element first
		j := mkAtom("kr:"+K.Op, nil, true, K.Args...)
		rev := subst1(pre, K, numSub(numSub(kT, mkNum(1)), mkNumAtom(j)))
		f := mkFor(kT, j, rev)
		content = catSeq(f, s.iseq)
		expSeq = catSeq(pre, content)
		isn = bAnd(isNilOf(s.Init), bNot(posB(seqLen(f), true)))
	default:
		return false
	}
	return r.setSlice(s, content, expSeq, isn)
}
func seqLenOfTotal(a, b *Term) *Term { return mkNum(0) }

func symSeq(base *Term) *Term {
	et := elemType(base.Atom.Typ)
	return mkCat(intern(&Term{K: PSeg, Kids: []*Term{intern(&Term{K: ASym, Kids: []*Term{base}, Typ: et}), mkNum(0), lenAtom(base)}}))
}

func (r *loopRun) setSlice(s *LSym, content, expSeq, isn *Term) bool {
	it := r.it
	s.lo = mkObj("lo:"+s.Atom.Op, s.Atom.Args...)
	it.objType[s.lo.S] = s.Typ
	s.seqC = content
	s.expSeq = expSeq
	v := mkSliceL(s.lo, mkNum(0), seqLen(content), isn)
	s.closed = &Sub{Val: v, Content: content}
	return true
}

// mkFoldMM: op over e, body(0..n-1)
func mkFoldMM(op string, n *Term, k *Atom, body, e *Term) *Term {
	return lift(func(x []*Term) *Term {
		n := x[0]
		d := body.bdepth
		if n.bdepth > d {
			d = n.bdepth
		}
		d++
		b := subst1(body, k, boundT(d))
		return foldMMAtom("f"+op, n, b, mkNum(int64(d)), x[1])
	}, n, e)
}
func foldMMAtom(op string, n, b, d, e *Term) *Term {
	if c, ok := n.constInt(); ok && c <= 0 {
		return e
	}
	isInt := e.K == KNum && polyInt(e.Poly) && b.K == KNum && polyInt(b.Poly)
	return mkNumAtom(mkAtom(op, nil, isInt, n, b, d, e))
}

// ---------- leaving the loop

func (r *loopRun) finish(back *State, exits []Edge, sub []*Event) []Edge {
	it := r.it
	K, kT := r.K, r.kT
	care := r.entry.cond
	var live []*LSym
	for _, s := range r.syms {
		if s.Next != nil {
			live = append(live, s)
		}
	}
	r.syms = live
	li := &LoopInfo{K: K, Entry: r.entry, Fn: r.fr.fn, Hdr: r.lp.hdr, Care: care, Syms: r.syms}
	for _, s := range r.syms {
		it.lsyms[s.Term] = s
		s.care, s.back = care, tFalse
		if back != nil {
			s.back = back.cond
		}
	}
	type ex struct {
		e Edge
		x *Term
	}
	var hdr, early []ex
	for _, e := range exits {
		x := restrict(e.st.cond, care)
		if e.st.cond.K == KFalse {
			continue
		}
		if e.from == r.lp.hdr {
			hdr = append(hdr, ex{e, x})
		} else {
			early = append(early, ex{e, x})
		}
	}
	// families of per-iteration objects
	if back != nil {
		for o, v := range back.mem {
			if len(o.Kids) > 0 && o.Kids[len(o.Kids)-1] == kT {
				it.fam[o.S] = famEntry{o.Kids, v}
			} else if r.keyOfLoop(o) && isInitial(o) {
				if it.load(r.entry, o) != v {
					it.note("loop in %s writes %s", r.fr.fn, o.String())
				}
			}
		}
	}
	for _, s := range r.syms {
		if s.closed != nil && s.slice && s.lo != nil {
			it.fam[s.lo.S] = famEntry{s.lo.Kids, s.seqC}
		}
	}
	var N *Term
	if back == nil {
		// the body never comes back: at most one round
		N = nil
		for _, h := range append(hdr, early...) {
			_ = h
		}
		var out []Edge
		for _, h := range append(hdr, early...) {
			out = append(out, r.leave(h.e, tTrue, mkNum(0), h.e.st.cond))
		}
		it.emit(&Event{Kind: "loop", In: r.fr.fn, Loop: li, Sub: sub, Cond: care, Ctx: r.fr.ctx})
		return out
	}
	if len(hdr) > 0 {
		x := tFalse
		for _, h := range hdr {
			x = bOr(x, h.x)
		}
		N = tripCount(bNot(x), K)
		if N == nil {
			early = append(early, hdr...)
			hdr = nil
		}
	}
	li.N = N
	li.Early = len(early) > 0
	X := tFalse
	inRange := tTrue
	if N != nil {
		inRange = cmpLT(kT, N, true)
	}
	for i := range early {
		early[i].x = simp(restrict(early[i].x, inRange))
		X = bOr(X, early[i].x)
	}
	var out []Edge
	any := mkAny(N, K, X)
	if N != nil {
		for _, h := range hdr {
			c := bAnd(care, bNot(any))
			out = append(out, r.leave(h.e, c, N, nil))
		}
	}
	if len(early) > 0 {
		first := mkFirst(N, K, X)
		if X.K == KTrue {
			first = mkNum(0)
		}
		if N == nil {
			any = tTrue // the loop ends only this way
		}
		for _, h := range early {
			c := bAnd(care, any)
			if h.x != X {
				c = bAnd(c, subst1(h.x, K, first))
			}
			out = append(out, r.leave(h.e, c, first, nil))
		}
	}
	it.emit(&Event{Kind: "loop", In: r.fr.fn, Pos: r.lp.hdr.Instrs[len(r.lp.hdr.Instrs)-1].Pos(), Loop: li, Sub: sub, Cond: care, Ctx: r.fr.ctx})
	return out
}

func (r *loopRun) leave(e Edge, cond, k, over *Term) Edge {
	st := &State{mem: make(map[*Term]*Term, len(e.st.mem)), env: make(map[ssa.Value]*Term, len(e.st.env)), cond: cond}
	if over != nil {
		st.cond = over
	}
	m := map[*Atom]Sub{r.K: {Val: k}}
	for o, v := range e.st.mem {
		no := subst(o, m)
		if no.K != KObj {
			// the iteration index depends on a condition: keep the family entry only
			continue
		}
		st.mem[no] = restrict(subst(v, m), st.cond)
	}
	for v, t := range e.st.env {
		if t.K == KBot {
			st.env[v] = t
			continue
		}
		st.env[v] = restrict(subst(t, m), st.cond)
	}
	var ret *Term
	if e.ret != nil {
		ret = subst(e.ret, m)
	}
	if over != nil {
		st.cond = subst(over, m)
	}
	return Edge{e.from, e.to, st, ret}
}

// tripCount: the number of k>=0 from the start on for which C holds, when C is a bound on k.
func tripCount(C *Term, K *Atom) *Term {
	switch C.K {
	case KTrue:
		return nil
	case KFalse:
		return mkNum(0)
	}
	if C.K != KIte {
		return nil
	}
	v := C.Var
	for _, w := range topVars(C) { // the same in every round
		if mentions(mkVarB(w), K) {
			continue
		}
		v = w
		h := tripCount(restrictVar(C, w, true), K)
		l := tripCount(restrictVar(C, w, false), K)
		if h == nil || l == nil {
			return nil
		}
		return mkIte(mkVarB(v), h, l)
	}
	var strict bool
	var P *Poly
	if v.Op != "pos" && v.Op != "neg" {
		return nil
	}
	P = v.Args[0].Poly
	if v.Op == "neg" {
		P = P.neg()
	}
	switch {
	case C.Kids[0].K == KTrue && C.Kids[1].K == KFalse:
		strict = true
	case C.Kids[0].K == KFalse && C.Kids[1].K == KTrue:
		P = P.neg()
		if v.Int {
			P = P.add(pInt(1), 1)
			strict = true
		}
	default:
		return nil
	}
	// P = a + b*K
	a, b := pInt(0), pInt(0)
	for _, t := range P.T {
		deg := 0
		var rest []Fac
		for _, f := range t.M.Fs {
			if f.A == K {
				deg = f.E
			} else {
				if mentions(mkNumAtom(f.A), K) {
					return nil
				}
				rest = append(rest, f)
			}
		}
		one := newPoly(map[string]*PT{"x": {mkMono(rest), t.C}})
		switch deg {
		case 0:
			a = a.add(one, 1)
		case 1:
			b = b.add(one, 1)
		default:
			return nil
		}
	}
	beta := b.neg()
	if beta.sign() != 1 {
		return nil
	}
	var n *Term
	if v.Int && strict {
		if c, ok := beta.isConst(); ok && c.Cmp(oneRat) == 0 {
			n = mkNumPoly(a)
		} else {
			n = intFn("ceildiv", mkNumPoly(a), mkNumPoly(beta))
		}
	} else {
		q := numDiv(mkNumPoly(a), mkNumPoly(beta))
		if strict {
			n = numFn("ceil", q)
		} else {
			n = numAdd(numFn("floor", q), mkNum(1))
		}
	}
	return lift(func(x []*Term) *Term {
		switch x[0].Poly.sign() {
		case 0, 1, 2:
			return x[0]
		case -1, -2:
			return mkNum(0)
		}
		return mkMinMax("max", x[0], mkNum(0))
	}, n)
}

var _ = big.NewInt

// fixpoints names the symbols that have no closed form by the recurrence that defines them:
// mu(entry value, one-iteration update, k). Symbols with the same recurrence get the same name,
// whatever the loop looks like in the source.
func (r *loopRun) fixpoints(back *State, stage bool) bool {
	it := r.it
	var open []*LSym
	for _, s := range r.syms {
		if s.closed == nil && s.Next != nil {
			open = append(open, s)
		}
	}
	if len(open) == 0 {
		return false
	}
	isOpen := map[*Atom]*LSym{}
	for _, s := range open {
		isOpen[s.Atom] = s
	}
	init, next := map[*LSym]*Term{}, map[*LSym]*Term{}
	deps := map[*LSym]map[*LSym]bool{}
	for _, s := range open {
		if s.slice {
			init[s] = it.snapSeq(r.entry, s.iseq, 0)
			next[s] = it.snapSeq(back, s.nseq, 0)
		} else {
			init[s] = it.snap(r.entry, s.Init, 0)
			next[s] = it.snap(back, s.Next, 0)
		}
		d := map[*LSym]bool{}
		collectAtoms(next[s], func(a *Atom) {
			if o := isOpen[a]; o != nil {
				d[o] = true
			}
		})
		deps[s] = d
	}
	cone := func(s *LSym) int {
		seen := map[*LSym]bool{s: true}
		work := []*LSym{s}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for o := range deps[x] {
				if !seen[o] {
					seen[o] = true
					work = append(work, o)
				}
			}
		}
		return len(seen)
	}
	mk := func(s *LSym, body *Term) *Term {
		typ := s.Atom.Typ
		if typ != nil {
			if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				typ = nil
			}
		}
		return muTerm(typ, s.Atom.Int, init[s], body, r.K, r.kT)
	}
	cur := map[*LSym]*Term{}
	rounds := 0
	cones := map[*LSym]int{}
	for _, s := range open {
		cur[s] = mk(s, tNil)
		cones[s] = cone(s)
		if cones[s] > rounds {
			rounds = cones[s]
		}
	}
	final := map[*LSym]*Term{}
	// lists that grow by the same number of elements in every iteration
	grow := map[*Atom]Sub{}
	for _, s := range open {
		if !s.slice || next[s].K != ACat || len(next[s].Kids) == 0 || init[s].K != ACat {
			continue
		}
		if base, c := growth(next[s]); base != nil && base.K == KAtom && base.Atom == s.Atom {
			grow[mkAtom("len", nil, true, base)] = Sub{Val: numAdd(seqLen(init[s]), numMul(mkNum(c), mkNumAtom(r.K)))}
		}
	}
	if len(grow) > 0 {
		for _, s := range open {
			next[s] = subst(next[s], grow)
		}
	}
	for i := 1; i <= rounds; i++ {
		m := map[*Atom]Sub{}
		for _, s := range open {
			m[s.Atom] = Sub{Val: cur[s]}
		}
		nxt := map[*LSym]*Term{}
		for _, s := range open {
			nxt[s] = mk(s, subst(next[s], m))
			if cones[s] == i {
				final[s] = nxt[s]
			}
		}
		cur = nxt
	}
	if os.Getenv("AZ_OPEN") != "" {
		for _, s := range open {
			fmt.Printf("OPEN %s %s cone %d slice %v\n   init %.300s\n   next %.1500s\n", r.fr.fn, s.Term, cones[s], s.slice, init[s], next[s])
		}
	}
	low := 0
	for _, s := range open {
		if low == 0 || cones[s] < low {
			low = cones[s]
		}
	}
	more := false
	for _, s := range open {
		if stage && cones[s] > low {
			more = true
			continue
		}
		s.closed = &Sub{Val: final[s]}
		s.mu = true
	}
	return more
}

// growth: s is some list followed by c further elements
func growth(s *Term) (base *Term, c int64) {
	if s.K != ACat || len(s.Kids) == 0 {
		return nil, 0
	}
	for i, p := range s.Kids {
		if i == 0 {
			if p.K != PSeg || p.Kids[0].K != ASym || p.Kids[1] != mkNum(0) {
				return nil, 0
			}
			base = p.Kids[0].Kids[0]
			continue
		}
		n, ok := partLen(p).constInt()
		if !ok {
			return nil, 0
		}
		c += n
	}
	return base, c
}

// lenAtom: the length of a symbolic list
func lenAtom(base *Term) *Term {
	if base.K == KAtom && base.Atom.Op == "mu" && len(base.Atom.Args) == 4 && base.Atom.Args[0].K == ACat {
		a := base.Atom
		if prev, c := growth(a.Args[1]); prev != nil && prev.K == KAtom && prev.Atom.Op == "mu" && prev.Atom.Args[3].K == KNum {
			d, _ := a.Args[2].constInt()
			want := numAdd(seqLen(a.Args[0]), numMul(mkNum(c), boundT(int(d))))
			if a.Args[1].Kids[0].Kids[2] == want && prev.Atom.Args[3] == boundT(int(d)) {
				return numAdd(seqLen(a.Args[0]), numMul(mkNum(c), a.Args[3]))
			}
		}
	}
	return mkNumAtom(mkAtom("len", nil, true, base))
}

// muTerm: the value at iteration k of the symbol that starts as init and is updated by body
// (body mentions the iteration as K).
func muTerm(typ types.Type, isInt bool, init, body *Term, K *Atom, k *Term) *Term {
	d := body.bdepth + 1
	return selfTerm(mkAtom("mu", typ, isInt, init, subst1(body, K, boundT(d)), mkNum(int64(d)), k))
}
