package main

// Laurent polynomials with rational coefficients over interned atoms: the
// numeric normal form of the value-numbering domain.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Fac struct {
	A *Atom
	E int
}
type Mono struct {
	Fs  []Fac
	key string
}
type PT struct {
	M Mono
	C *big.Rat
}
type Poly struct {
	T   []PT
	key string
}

var oneRat = big.NewRat(1, 1)

func monoKey(fs []Fac) string {
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(strconv.Itoa(f.A.ID))
		if f.E != 1 {
			b.WriteByte('^')
			b.WriteString(strconv.Itoa(f.E))
		}
		b.WriteByte('*')
	}
	return b.String()
}
func mkMono(fs []Fac) Mono { return Mono{fs, monoKey(fs)} }

func mulMono(a, b Mono) Mono {
	if len(a.Fs) == 0 {
		return b
	}
	if len(b.Fs) == 0 {
		return a
	}
	out := make([]Fac, 0, len(a.Fs)+len(b.Fs))
	i, j := 0, 0
	for i < len(a.Fs) || j < len(b.Fs) {
		switch {
		case j >= len(b.Fs) || (i < len(a.Fs) && a.Fs[i].A.ID < b.Fs[j].A.ID):
			out = append(out, a.Fs[i])
			i++
		case i >= len(a.Fs) || b.Fs[j].A.ID < a.Fs[i].A.ID:
			out = append(out, b.Fs[j])
			j++
		default:
			if e := a.Fs[i].E + b.Fs[j].E; e != 0 {
				out = append(out, Fac{a.Fs[i].A, e})
			}
			i++
			j++
		}
	}
	return mkMono(out)
}

func newPoly(m map[string]*PT) *Poly {
	ts := make([]PT, 0, len(m))
	for _, t := range m {
		if t.C.Sign() != 0 {
			ts = append(ts, *t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return monoLess(ts[j].M, ts[i].M) })
	p := &Poly{T: ts}
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.C.RatString())
		b.WriteByte('.')
		b.WriteString(t.M.key)
		b.WriteByte('+')
	}
	p.key = b.String()
	return p
}

// monoLess: total degree-free lexicographic order on atom ids (compatible with multiplication for
// non-negative exponents), constants smallest.
func monoLess(a, b Mono) bool {
	i := 0
	for {
		if i >= len(a.Fs) && i >= len(b.Fs) {
			return false
		}
		if i >= len(a.Fs) {
			return b.Fs[i].E > 0
		}
		if i >= len(b.Fs) {
			return a.Fs[i].E < 0
		}
		x, y := a.Fs[i], b.Fs[i]
		if x.A.ID == y.A.ID {
			if x.E != y.E {
				return x.E < y.E
			}
			i++
			continue
		}
		if x.A.ID < y.A.ID { // a has the smaller atom => bigger if exponent positive
			return x.E < 0
		}
		return y.E > 0
	}
}

func pConst(r *big.Rat) *Poly {
	return newPoly(map[string]*PT{"": {mkMono(nil), r}})
}
func pInt(i int64) *Poly { return pConst(big.NewRat(i, 1)) }
func pAtom(a *Atom) *Poly {
	m := mkMono([]Fac{{a, 1}})
	return newPoly(map[string]*PT{m.key: {m, oneRat}})
}
func (p *Poly) isConst() (*big.Rat, bool) {
	if len(p.T) == 0 {
		return new(big.Rat), true
	}
	if len(p.T) == 1 && len(p.T[0].M.Fs) == 0 {
		return p.T[0].C, true
	}
	return nil, false
}
func (p *Poly) isZero() bool { return len(p.T) == 0 }

func (p *Poly) add(q *Poly, s int64) *Poly {
	m := map[string]*PT{}
	for _, t := range p.T {
		c := t
		m[t.M.key] = &c
	}
	for _, t := range q.T {
		c := t.C
		if s != 1 {
			c = new(big.Rat).Mul(c, big.NewRat(s, 1))
		}
		if e, ok := m[t.M.key]; ok {
			m[t.M.key] = &PT{t.M, new(big.Rat).Add(e.C, c)}
		} else {
			m[t.M.key] = &PT{t.M, c}
		}
	}
	return newPoly(m)
}
func (p *Poly) scale(r *big.Rat) *Poly {
	m := map[string]*PT{}
	for _, t := range p.T {
		m[t.M.key] = &PT{t.M, new(big.Rat).Mul(t.C, r)}
	}
	return newPoly(m)
}
func (p *Poly) neg() *Poly { return p.scale(big.NewRat(-1, 1)) }

func (p *Poly) rawMul(q *Poly) *Poly {
	m := map[string]*PT{}
	for _, a := range p.T {
		for _, b := range q.T {
			mm := mulMono(a.M, b.M)
			c := new(big.Rat).Mul(a.C, b.C)
			if e, ok := m[mm.key]; ok {
				e.C.Add(e.C, c)
			} else {
				m[mm.key] = &PT{mm, c}
			}
		}
	}
	return newPoly(m)
}

// mul multiplies and re-normalises (sqrt^2, cos^2, inverse atoms).
func (p *Poly) mul(q *Poly) *Poly { return normPoly(p.rawMul(q)) }

func (p *Poly) pow(n int) *Poly {
	r := pInt(1)
	for i := 0; i < n; i++ {
		r = r.mul(p)
	}
	return r
}

// normPoly removes reducible powers.
func normPoly(p *Poly) *Poly {
	for iter := 0; iter < 50; iter++ {
		changed := false
		acc := pInt(0)
		for _, t := range p.T {
			hit := -1
			for i, f := range t.M.Fs {
				if f.A.reducible(f.E) {
					hit = i
					break
				}
			}
			if hit < 0 {
				acc = acc.add(&Poly{T: []PT{t}}, 1)
				continue
			}
			changed = true
			f := t.M.Fs[hit]
			rest := append(append([]Fac{}, t.M.Fs[:hit]...), t.M.Fs[hit+1:]...)
			rp := newPoly(map[string]*PT{"x": {mkMono(rest), t.C}})
			acc = acc.add(rp.rawMul(f.A.reduce(f.E)), 1)
		}
		p = acc
		if !changed {
			break
		}
	}
	return reduceInv(p)
}

// reducible says whether atom^e has a normal form other than itself.
func (a *Atom) reducible(e int) bool {
	switch a.Op {
	case "sqrt":
		return e >= 2 || e < 0
	case "cos":
		return e >= 2
	case "inv":
		return e < 0
	}
	return false
}
func (a *Atom) reduce(e int) *Poly {
	arg := a.Args[0].Poly
	switch a.Op {
	case "sqrt":
		// s^e : s^(e mod 2) * arg^(e div 2)
		q := e / 2
		r := e % 2
		if r < 0 {
			r += 2
			q--
		}
		out := pInt(1)
		if r == 1 {
			out = pAtom(a)
		}
		if q >= 0 {
			for i := 0; i < q; i++ {
				out = out.rawMul(arg)
			}
		} else {
			iv := invPoly(arg)
			for i := 0; i < -q; i++ {
				out = out.rawMul(iv)
			}
		}
		return out
	case "cos":
		s := mkAtom("sin", a.Typ, false, a.Args[0])
		one := pInt(1).add(pAtom(s).rawMul(pAtom(s)), -1)
		out := pInt(1)
		if e%2 == 1 {
			out = pAtom(a)
		}
		for i := 0; i < e/2; i++ {
			out = out.rawMul(one)
		}
		return out
	case "inv":
		out := pInt(1)
		for i := 0; i < -e; i++ {
			out = out.rawMul(arg)
		}
		return out
	}
	panic("reduce")
}

// reduceInv cancels inv(P)*(P*Q) -> Q where the division is exact.
func reduceInv(p *Poly) *Poly {
	for iter := 0; iter < 20; iter++ {
		var inv *Atom
		seen := map[*Atom]bool{}
		done := true
		for _, t := range p.T {
			for _, f := range t.M.Fs {
				if f.A.Op == "inv" && f.E > 0 && !seen[f.A] {
					seen[f.A] = true
				}
			}
		}
		var invs []*Atom
		for a := range seen {
			invs = append(invs, a)
		}
		sort.Slice(invs, func(i, j int) bool { return invs[i].ID < invs[j].ID })
		for _, inv = range invs {
			// group by exponent of inv
			groups := map[int]*Poly{}
			maxE := 0
			for _, t := range p.T {
				e := 0
				var rest []Fac
				for _, f := range t.M.Fs {
					if f.A == inv {
						e = f.E
					} else {
						rest = append(rest, f)
					}
				}
				if groups[e] == nil {
					groups[e] = pInt(0)
				}
				groups[e] = groups[e].add(newPoly(map[string]*PT{"x": {mkMono(rest), t.C}}), 1)
				if e > maxE {
					maxE = e
				}
			}
			den := inv.Args[0].Poly
			for e := maxE; e >= 1; e-- {
				g := groups[e]
				if g == nil || g.isZero() {
					continue
				}
				if q, ok := exactDiv(g, den); ok {
					delete(groups, e)
					if groups[e-1] == nil {
						groups[e-1] = pInt(0)
					}
					groups[e-1] = groups[e-1].add(q, 1)
					done = false
				}
			}
			if !done {
				acc := pInt(0)
				for e, g := range groups {
					x := g
					for i := 0; i < e; i++ {
						x = x.rawMul(pAtom(inv))
					}
					acc = acc.add(x, 1)
				}
				p = acc
				break
			}
		}
		if done {
			return p
		}
	}
	return p
}

// exactDiv divides multivariate polynomials (non-negative exponents), if exact.
func exactDiv(a, b *Poly) (*Poly, bool) {
	if b.isZero() || len(b.T) == 0 {
		return nil, false
	}
	lead := b.T[0]
	q := pInt(0)
	r := a
	for n := 0; n < 200; n++ {
		if r.isZero() {
			return q, true
		}
		lt := r.T[0]
		m, ok := divMono(lt.M, lead.M)
		if !ok {
			return nil, false
		}
		c := new(big.Rat).Quo(lt.C, lead.C)
		tm := newPoly(map[string]*PT{"x": {m, c}})
		q = q.add(tm, 1)
		r = r.add(tm.rawMul(b), -1)
	}
	return nil, false
}
func divMono(a, b Mono) (Mono, bool) {
	exp := map[*Atom]int{}
	for _, f := range a.Fs {
		exp[f.A] = f.E
	}
	for _, f := range b.Fs {
		if f.E > 0 && exp[f.A] < f.E {
			return Mono{}, false
		}
		exp[f.A] -= f.E
	}
	var fs []Fac
	for at, e := range exp {
		if e != 0 {
			fs = append(fs, Fac{at, e})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].A.ID < fs[j].A.ID })
	return mkMono(fs), true
}

// invPoly is 1/p.
func invPoly(p *Poly) *Poly {
	if len(p.T) == 1 {
		t := p.T[0]
		fs := make([]Fac, len(t.M.Fs))
		for i, f := range t.M.Fs {
			fs[i] = Fac{f.A, -f.E}
		}
		return normPolyNoInv(newPoly(map[string]*PT{"x": {mkMono(fs), new(big.Rat).Inv(t.C)}}))
	}
	lc := p.T[0].C
	np := p.scale(new(big.Rat).Inv(lc))
	// pull out common monomial factors? keep simple: atom over the monic polynomial
	a := mkAtom("inv", nil, false, mkNumPoly(np))
	return pAtom(a).scale(new(big.Rat).Inv(lc))
}
func normPolyNoInv(p *Poly) *Poly { return normPoly(p) }

func divPoly(a, b *Poly) *Poly {
	if b.isZero() {
		return nil
	}
	if len(b.T) > 1 {
		if q, ok := exactDiv(a, b); ok {
			return q
		}
	}
	return normPoly(a.rawMul(invPoly(b)))
}

// zeroRational decides p == 0 after clearing all denominators.
func zeroRational(p *Poly) bool {
	for iter := 0; iter < 40; iter++ {
		if p.isZero() {
			return true
		}
		// find an inv atom or a negative exponent
		var fac *Poly
		for _, t := range p.T {
			for _, f := range t.M.Fs {
				if f.A.Op == "inv" && f.E > 0 {
					fac = f.A.Args[0].Poly
				} else if f.E < 0 {
					fac = pAtom(f.A)
				}
				if fac != nil {
					break
				}
			}
			if fac != nil {
				break
			}
		}
		if fac == nil {
			return p.isZero()
		}
		p = mulClear(p, fac)
	}
	return false
}

// mulClear multiplies by fac cancelling inv(fac) term by term.
func mulClear(p, fac *Poly) *Poly {
	acc := pInt(0)
	for _, t := range p.T {
		hit := -1
		for i, f := range t.M.Fs {
			if f.A.Op == "inv" && f.E > 0 && f.A.Args[0].Poly.key == fac.key {
				hit = i
			}
		}
		if hit >= 0 {
			fs := append([]Fac{}, t.M.Fs...)
			if fs[hit].E == 1 {
				fs = append(fs[:hit:hit], fs[hit+1:]...)
			} else {
				fs[hit].E--
			}
			acc = acc.add(newPoly(map[string]*PT{"x": {mkMono(fs), t.C}}), 1)
		} else {
			acc = acc.add(newPoly(map[string]*PT{"x": {t.M, t.C}}).rawMul(fac), 1)
		}
	}
	return normPoly(acc)
}

// sign: +1 (>0), 0 (==0), -1 (<0), 2 (>=0), -2 (<=0), 9 unknown
func (p *Poly) sign() int {
	if p.isZero() {
		return 0
	}
	pos, neg, strict := false, false, false
	for _, t := range p.T {
		nonneg, strictlyPos := true, true
		for _, f := range t.M.Fs {
			if f.A.Pos {
				continue
			}
			strictlyPos = false
			if f.A.NonNeg || f.E%2 == 0 {
				continue
			}
			nonneg = false
		}
		if !nonneg {
			return 9
		}
		if t.C.Sign() > 0 {
			pos = true
		} else {
			neg = true
		}
		if strictlyPos {
			strict = true
		}
	}
	switch {
	case pos && neg:
		return 9
	case pos && strict:
		return 1
	case pos:
		return 2
	case neg && strict:
		return -1
	}
	return -2
}

func (p *Poly) String() string {
	if len(p.T) == 0 {
		return "0"
	}
	var ss []string
	for _, t := range p.T {
		var fs []string
		if c := t.C.RatString(); c != "1" || len(t.M.Fs) == 0 {
			if f, ok := t.C.Float64(); !ok && len(c) > 12 {
				c = fmt.Sprintf("%g", f)
			}
			fs = append(fs, c)
		}
		for _, f := range t.M.Fs {
			s := f.A.String()
			if f.E != 1 {
				s += "^" + strconv.Itoa(f.E)
			}
			fs = append(fs, s)
		}
		ss = append(ss, strings.Join(fs, "*"))
	}
	return strings.Join(ss, " + ")
}

// clearDen multiplies p by its denominators and lists those that occur to an odd power.
func clearDen(p *Poly) (*Poly, []*Poly) {
	var facs []*Poly
	for iter := 0; iter < 30; iter++ {
		var fac *Poly
		maxE := 0
		var at *Atom
		for _, t := range p.T {
			for _, f := range t.M.Fs {
				if f.A.Op == "inv" && f.E > 0 || f.E < 0 {
					if at == nil || f.A.ID < at.ID {
						at = f.A
					}
				}
			}
		}
		if at == nil {
			return p, facs
		}
		for _, t := range p.T {
			for _, f := range t.M.Fs {
				e := f.E
				if at.Op != "inv" {
					e = -e
				}
				if f.A == at && e > maxE {
					maxE = e
				}
			}
		}
		if at.Op == "inv" {
			fac = at.Args[0].Poly
		} else {
			fac = pAtom(at)
		}
		for i := 0; i < maxE; i++ {
			p = mulClear(p, fac)
		}
		if maxE%2 == 1 {
			facs = append(facs, fac)
		} else if len(facs) == 0 {
			facs = append(facs, pInt(1))
		}
	}
	return p, facs
}
