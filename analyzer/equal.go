package main

import (
	"math/big"
	"strings"
)

// equal.go: equality of two normal forms under a condition, where conditions may also sit inside
// the arguments of uninterpreted functions. Each pair is compared only under the path condition
// it is used in, so differences in cases that cannot occur there do not matter.

type eqCtx struct {
	memo   map[[3]*Term]bool
	sup    map[*Term]map[*BVar]bool
	pins   map[*Term]map[*Atom]Sub
	uns    map[*Term]bool
	steps  int
	x, y   *Term // first difference
	under  *Term
	giveUp bool
	path   []pathCond
	conds  []pathCond // the path of the first difference
	where  string
}

type pathCond struct {
	v   *BVar
	not bool
}

func newEq() *eqCtx {
	return &eqCtx{memo: map[[3]*Term]bool{}, sup: map[*Term]map[*BVar]bool{}}
}

// support: all conditions occurring anywhere in the term
func (e *eqCtx) support(t *Term) map[*BVar]bool {
	if s, ok := e.sup[t]; ok {
		return s
	}
	s := map[*BVar]bool{}
	e.sup[t] = s
	seenA := map[*Atom]bool{}
	add := func(x *Term) {
		for v := range e.support(x) {
			s[v] = true
		}
	}
	var recA func(a *Atom)
	recA = func(a *Atom) {
		if seenA[a] {
			return
		}
		seenA[a] = true
		for _, x := range a.Args {
			add(x)
		}
		if a.Int {
			s[intMark(a)] = true
		}
		if a.Op == "len" && len(a.Args) == 1 && a.Args[0].K == KAtom {
			s[mkVar("isnil", false, a.Args[0])] = true
		}
	}
	if t.Atom != nil {
		recA(t.Atom)
	}
	if t.Poly != nil {
		for _, m := range t.Poly.T {
			for _, f := range m.M.Fs {
				recA(f.A)
			}
		}
	}
	if t.Var != nil {
		s[t.Var] = true
		if m := baseMark(t.Var); m != nil {
			s[m] = true
		}
		for _, x := range t.Var.Args {
			add(x)
		}
	}
	for _, k := range t.Kids {
		add(k)
	}
	return s
}

// project drops from c what concerns neither term.
func (e *eqCtx) project(c, a, b *Term) *Term {
	sa, sb := e.support(a), e.support(b)
	// what a dropped text comparison says about those that stay
	for _, v := range topVars(c) {
		if v.Op != "streq" || sa[v] || sb[v] {
			continue
		}
		for _, s := range []map[*BVar]bool{sa, sb} {
			for w := range s {
				if w.Op == "streq" && differentLits(v, w) {
					c = bAnd(c, bOr(bNot(mkVarB(v)), bNot(mkVarB(w))))
				}
			}
		}
	}
	memo := map[*Term]*Term{}
	var rec func(c *Term) *Term
	rec = func(c *Term) *Term {
		if c.K != KIte {
			return c
		}
		if r, ok := memo[c]; ok {
			return r
		}
		h, l := rec(c.Kids[0]), rec(c.Kids[1])
		var r *Term
		keep := sa[c.Var] || sb[c.Var]
		if !keep {
			if x, _, _ := intBound(c.Var); x != nil {
				m := intMark(x)
				keep = sa[m] || sb[m]
			}
			if m := baseMark(c.Var); !keep && m != nil {
				keep = sa[m] || sb[m]
			}
		}
		if keep {
			r = mkIte(mkVarB(c.Var), h, l)
		} else {
			r = bOr(h, l)
		}
		memo[c] = r
		return r
	}
	return rec(c)
}

func (e *eqCtx) diff(a, b, c *Term) bool {
	if e.x == nil {
		e.x, e.y, e.under = a, b, c
		e.conds = append([]pathCond{}, e.path...)
		var ss []string
		for _, p := range e.path {
			s := mkVarB(p.v).String()
			if p.not {
				s = "not " + s
			}
			ss = append(ss, s)
		}
		e.where = strings.Join(ss, "\n                and ")
	}
	return false
}

func (e *eqCtx) eq(a, b, c *Term) bool {
	if a == b || c.K == KFalse || e.unsat(c) {
		return true
	}
	if e.giveUp {
		return false
	}
	e.steps++
	if e.steps > 300000 {
		e.giveUp = true
		return false
	}
	if p := e.pinned(c); len(p) > 0 {
		if x, y := subst(a, p), subst(b, p); x != a || y != b {
			return e.eq(x, y, c)
		}
	}
	c = e.project(c, a, b)
	k := [3]*Term{a, b, c}
	if r, ok := e.memo[k]; ok {
		return r
	}
	e.memo[k] = false
	r := e.eq0(a, b, c)
	e.memo[k] = r
	return r
}

// quiet compares without recording where the difference lies.
func (e *eqCtx) quiet(a, b, c *Term) bool {
	x, y, u := e.x, e.y, e.under
	r := e.eq(a, b, c)
	e.x, e.y, e.under = x, y, u
	return r
}

func (e *eqCtx) eq0(a, b, c *Term) bool {
	if a.K == KIte || b.K == KIte {
		if a.K == KIte && b.K == KIte && a.Var != b.Var && a.Var.Op == b.Var.Op && e.sameVar(a.Var, b.Var, c) {
			b2 := e.rename(b, b.Var, a.Var)
			if b2 != b {
				return e.eq(a, b2, c)
			}
		}
		v := topVar(a, b)
		if v != nil {
			// a condition of the other side that means the same here?
			n := len(e.path)
			e.path = append(e.path, pathCond{v, false})
			h := e.eq(cofac(a, v, true), cofac(b, v, true), bAnd(c, mkVarB(v)))
			if h {
				e.path = append(e.path[:n], pathCond{v, true})
				h = e.eq(cofac(a, v, false), cofac(b, v, false), bAnd(c, bNot(mkVarB(v))))
			}
			e.path = e.path[:n]
			return h
		}
	}
	if a.K == KNum && b.K == KNum {
		return e.eqNum(a, b, c)
	}
	if a.K != b.K {
		return e.diff(a, b, c)
	}
	if a.K == ACat && b.K == ACat {
		if x, y := dropEmpty(a, c), dropEmpty(b, c); x != a || y != b {
			return e.eq(x, y, c)
		}
	}
	switch a.K {
	case KAtom:
		return e.eqAtom(a.Atom, b.Atom, c, a, b)
	case KStruct, KTuple, KSnap, KSnapPtr, ACat, PElem, PSeg, AStore, KPtr, KSlice, KStr, KIface, KObj, ASym, KFunc:
		if len(a.Kids) != len(b.Kids) || a.S != b.S || a.Fn != b.Fn || typeKey(a.Typ) != typeKey(b.Typ) || len(a.Kids) == 0 {
			return e.diff(a, b, c)
		}
		for i := range a.Kids {
			if !e.eq(a.Kids[i], b.Kids[i], c) {
				return e.diff(a, b, c)
			}
		}
		return true
	case PFor, AMap:
		if a.K == PFor && !e.eq(a.Kids[0], b.Kids[0], c) {
			return e.diff(a, b, c)
		}
		if a.K == AMap {
			for i := 0; i < 3; i++ {
				if !e.eq(a.Kids[i], b.Kids[i], c) {
					return e.diff(a, b, c)
				}
			}
		}
		n := len(a.Kids) - 1
		x, y := a.Kids[n], b.Kids[n]
		if a.N == b.N && e.quiet(x, y, c) {
			return true
		}
		// elements count only where they are
		f := openAtom()
		x, y = subst1(x, bound(a.N), mkNumAtom(f)), subst1(y, bound(b.N), mkNumAtom(f))
		if a.K == PFor {
			c = bAnd(c, posB(numSub(a.Kids[0], mkNumAtom(f)), true))
		} else {
			c = bAnd(c, bAnd(posB(numSub(a.Kids[2], mkNumAtom(f)), true), bNot(posB(numSub(a.Kids[1], mkNumAtom(f)), true))))
		}
		return e.eq(x, y, c)
	}
	return e.diff(a, b, c)
}

// baseMark: conditions comparing one expression with different constants share it
func baseMark(v *BVar) *BVar {
	if v.Op != "pos" && v.Op != "neg" {
		return nil
	}
	p := v.Args[0].Poly
	for _, t := range p.T {
		if len(t.M.Fs) == 0 {
			p = p.add(pConst(t.C), -1)
			break
		}
	}
	return mkVar("basemark", false, mkNumPoly(p))
}

func (e *eqCtx) unsat(c *Term) bool {
	if c.K != KIte {
		return c.K == KFalse
	}
	if r, ok := e.uns[c]; ok {
		return r
	}
	r := valid(bNot(c), tTrue)
	if e.uns == nil {
		e.uns = map[*Term]bool{}
	}
	e.uns[c] = r
	return r
}

func intMark(a *Atom) *BVar { return mkVar("intmark", false, mkNumAtom(a)) }

// intBound reads a condition "a > t" (sign 1) or "a < t" (sign -1) on one whole number.
func intBound(v *BVar) (*Atom, *big.Rat, int) {
	if v.Op != "pos" && v.Op != "neg" || !v.Int {
		return nil, nil, 0
	}
	var a *Atom
	var co *big.Rat
	k := new(big.Rat)
	for _, t := range v.Args[0].Poly.T {
		switch {
		case len(t.M.Fs) == 0:
			k = t.C
		case len(t.M.Fs) == 1 && t.M.Fs[0].E == 1 && a == nil:
			a, co = t.M.Fs[0].A, t.C
		default:
			return nil, nil, 0
		}
	}
	if a == nil || !a.Int || new(big.Rat).Abs(co).Cmp(oneRat) != 0 {
		return nil, nil, 0
	}
	s := co.Sign()
	if v.Op == "neg" {
		s = -s
	}
	return a, new(big.Rat).Neg(new(big.Rat).Mul(k, co)), s
}

// pinned: whole numbers that c leaves only one value, being above t and not above t+1.
func (e *eqCtx) pinned(c *Term) map[*Atom]Sub {
	if c.K != KIte {
		return nil
	}
	if p, ok := e.pins[c]; ok {
		return p
	}
	type th struct {
		v *BVar
		t *big.Rat // with v: atom > t; without: atom <= t
		s int      // -1: the other way round
	}
	by := map[*Atom][]th{}
	var order []*Atom
	for _, v := range topVars(c) {
		a, t, s := intBound(v)
		if a == nil {
			continue
		}
		if by[a] == nil {
			order = append(order, a)
		}
		by[a] = append(by[a], th{v, t, s})
	}
	var res map[*Atom]Sub
	for _, a := range order {
		lo, hi := (*big.Rat)(nil), (*big.Rat)(nil) // a >= lo, a <= hi
		atLeast := func(x *big.Rat) {
			if lo == nil || x.Cmp(lo) > 0 {
				lo = x
			}
		}
		atMost := func(x *big.Rat) {
			if hi == nil || x.Cmp(hi) < 0 {
				hi = x
			}
		}
		for _, q := range by[a] {
			v := mkVarB(q.v)
			holds, fails := bAnd(c, bNot(v)).K == KFalse, bAnd(c, v).K == KFalse
			up, down := new(big.Rat).Add(q.t, oneRat), new(big.Rat).Sub(q.t, oneRat)
			switch {
			case holds && q.s > 0:
				atLeast(up)
			case fails && q.s > 0:
				atMost(q.t)
			case holds && q.s < 0:
				atMost(down)
			case fails && q.s < 0:
				atLeast(q.t)
			}
		}
		if a.NonNeg && lo == nil {
			lo = new(big.Rat)
		}
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			if res == nil {
				res = map[*Atom]Sub{}
			}
			res[a] = Sub{Val: mkRat(lo)}
		}
	}
	if e.pins == nil {
		e.pins = map[*Term]map[*Atom]Sub{}
	}
	e.pins[c] = res
	return res
}

// dropEmpty leaves out the parts that run over a list which is nil under c.
func dropEmpty(q, c *Term) *Term {
	var out []*Term
	for _, p := range q.Kids {
		var n *Term
		switch p.K {
		case PSeg:
			n = p.Kids[2]
		case PFor:
			n = p.Kids[0]
		}
		if n != nil && n.K == KNum {
			if a := singleAtom(n.Poly); a != nil && a.Op == "len" && len(a.Args) == 1 && a.Args[0].K == KAtom {
				if bAnd(c, bNot(mkVarB(mkVar("isnil", false, a.Args[0])))).K == KFalse {
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == len(q.Kids) {
		return q
	}
	return mkCat(out...)
}

func (e *eqCtx) sameVar(v, w *BVar, c *Term) bool {
	if v == w {
		return true
	}
	if v.Op != w.Op || v.Int != w.Int || len(v.Args) != len(w.Args) || v.Op == "fany" {
		return false
	}
	for i := range v.Args {
		if !e.quiet(v.Args[i], w.Args[i], c) {
			return false
		}
	}
	return true
}

// rename replaces condition w at the top level of t by v.
func (e *eqCtx) rename(t *Term, w, v *BVar) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.K != KIte {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		x := t.Var
		if x == w {
			x = v
		}
		r := mkIte(mkVarB(x), rec(t.Kids[0]), rec(t.Kids[1]))
		memo[t] = r
		return r
	}
	return rec(t)
}

func (e *eqCtx) eqAtom(x, y *Atom, c, a, b *Term) bool {
	if x == y {
		return true
	}
	if x.Op != y.Op || len(x.Args) != len(y.Args) || typeKey(x.Typ) != typeKey(y.Typ) || len(x.Args) == 0 {
		return e.diff(a, b, c)
	}
	if isFoldOp(x.Op) {
		if x.Args[2] != y.Args[2] {
			return e.diff(a, b, c)
		}
	}
	for i := range x.Args {
		if !e.eq(x.Args[i], y.Args[i], c) {
			return e.diff(a, b, c)
		}
	}
	return true
}

func polyAtoms(t *Term) []*Atom {
	var out []*Atom
	seen := map[*Atom]bool{}
	for _, m := range t.Poly.T {
		for _, f := range m.M.Fs {
			if !seen[f.A] {
				seen[f.A] = true
				out = append(out, f.A)
			}
		}
	}
	return out
}

// positive leaves out maxima with 0 of what c makes positive.
func positive(t, c *Term) *Term {
	m := map[*Atom]Sub{}
	for _, x := range polyAtoms(t) {
		if x.Op != "max" || len(x.Args) != 2 {
			continue
		}
		for i := range x.Args {
			o := x.Args[1-i]
			if x.Args[i] == mkNum(0) && o.K == KNum && bAnd(c, bNot(posB(o, true))).K == KFalse {
				m[x] = Sub{Val: o}
			}
		}
	}
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}

func (e *eqCtx) eqNum(a, b, c *Term) bool {
	if x, y := positive(a, c), positive(b, c); x != a || y != b {
		return e.eq(x, y, c)
	}
	in := map[*Atom]bool{}
	for _, x := range polyAtoms(a) {
		in[x] = true
	}
	m := map[*Atom]Sub{}
	for _, y := range polyAtoms(b) {
		if in[y] {
			continue
		}
		var hit *Atom
		for _, x := range polyAtoms(a) {
			if x.Op == y.Op {
				ok := len(x.Args) == len(y.Args) && len(x.Args) > 0
				for i := 0; ok && i < len(x.Args); i++ {
					ok = e.quiet(x.Args[i], y.Args[i], c)
				}
				if ok {
					hit = x
					break
				}
			}
		}
		if hit == nil {
			// descend for the report
			for _, x := range polyAtoms(a) {
				if x.Op == y.Op && len(x.Args) == len(y.Args) {
					for i := range x.Args {
						e.eq(x.Args[i], y.Args[i], c)
					}
					break
				}
			}
			return e.diff(a, b, c)
		}
		m[y] = Sub{Val: mkNumAtom(hit)}
	}
	if len(m) > 0 {
		r := mkNum(0)
		for _, t := range b.Poly.T {
			prod := mkRat(t.C)
			for _, f := range t.M.Fs {
				v := mkNumAtom(f.A)
				if s, ok := m[f.A]; ok {
					v = s.Val
				}
				ex := f.E
				if ex < 0 {
					v, ex = numDiv(mkNum(1), v), -ex
				}
				for i := 0; i < ex; i++ {
					prod = numMul(prod, v)
				}
			}
			r = numAdd(r, prod)
		}
		if r == a {
			return true
		}
	}
	return e.diff(a, b, c)
}
