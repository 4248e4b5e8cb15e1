package main

// Numeric functions with algebraic normal forms, and closed forms of loops (sums, existentials).

import (
	"math/big"
)

var piAtom = mkAtom("pi", nil, false)
var piT = mkNumAtom(piAtom)

func singleAtom(p *Poly) *Atom {
	if len(p.T) == 1 && len(p.T[0].M.Fs) == 1 && p.T[0].M.Fs[0].E == 1 && p.T[0].C.Cmp(oneRat) == 0 {
		return p.T[0].M.Fs[0].A
	}
	return nil
}

func trig(op string, arg *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum {
			return tBot
		}
		s, c := sincos(x[0].Poly)
		if op == "sin" {
			return s
		}
		return c
	}, arg)
}

// sincos expands by angle addition over the monomials of the argument.
func sincos(p *Poly) (*Term, *Term) {
	s, c := mkNum(0), mkNum(1)
	for _, t := range p.T {
		s1, c1 := sincos1(t)
		s, c = numAdd(numMul(s, c1), numMul(c, s1)), numSub(numMul(c, c1), numMul(s, s1))
	}
	return s, c
}

func sincos1(t PT) (*Term, *Term) {
	if len(t.M.Fs) == 1 && t.M.Fs[0].A == piAtom && t.M.Fs[0].E == 1 {
		return sincosPi(t.C)
	}
	one := newPoly(map[string]*PT{"x": {t.M, t.C}})
	if a := singleAtom(one); a != nil {
		switch a.Op {
		case "acos":
			v := a.Args[0]
			return numSqrt(numSub(mkNum(1), numMul(v, v))), v
		case "asin":
			v := a.Args[0]
			return v, numSqrt(numSub(mkNum(1), numMul(v, v)))
		case "atan2":
			y, xx := a.Args[0], a.Args[1]
			r := numSqrt(numAdd(numMul(y, y), numMul(xx, xx)))
			return numDiv(y, r), numDiv(xx, r)
		}
	}
	neg := t.C.Sign() < 0
	if neg {
		one = one.neg()
	}
	arg := mkNumPoly(one)
	if a := singleAtom(one); a != nil && neg {
		switch a.Op {
		case "acos", "asin", "atan2":
			s, c := sincos1(PT{t.M, new(big.Rat).Neg(t.C)})
			return numNeg(s), c
		}
	}
	s := mkNumAtom(mkAtom("sin", nil, false, arg))
	c := mkNumAtom(mkAtom("cos", nil, false, arg))
	if neg {
		s = numNeg(s)
	}
	return s, c
}

func sincosPi(c *big.Rat) (*Term, *Term) {
	// reduce to [0,2)
	two := big.NewRat(2, 1)
	q := new(big.Rat).Quo(c, two)
	fl := new(big.Int).Div(q.Num(), q.Denom())
	c = new(big.Rat).Sub(c, new(big.Rat).Mul(two, new(big.Rat).SetInt(fl)))
	half := big.NewRat(1, 2)
	if c.Cmp(half) >= 0 {
		// angle = pi/2 + b
		s, co := sincosPi(new(big.Rat).Sub(c, half))
		return co, numNeg(s)
	}
	switch c.RatString() {
	case "0":
		return mkNum(0), mkNum(1)
	case "1/6":
		return mkRat2(1, 2), numMul(mkRat2(1, 2), numSqrt(mkNum(3)))
	case "1/4":
		h := numMul(mkRat2(1, 2), numSqrt(mkNum(2)))
		return h, h
	case "1/3":
		return numMul(mkRat2(1, 2), numSqrt(mkNum(3))), mkRat2(1, 2)
	}
	if c.Cmp(big.NewRat(1, 4)) > 0 {
		s, co := sincosPi(new(big.Rat).Sub(half, c))
		return co, s
	}
	arg := numMul(mkRat(c), piT)
	return mkNumAtom(mkAtom("sin", nil, false, arg)), mkNumAtom(mkAtom("cos", nil, false, arg))
}

func numFn(op string, args ...*Term) *Term {
	return lift(func(x []*Term) *Term {
		for _, y := range x {
			if y.K != KNum {
				return tBot
			}
		}
		r, isC := x[0].constRat()
		switch op {
		case "floor", "ceil", "trunc":
			if polyInt(x[0].Poly) {
				return x[0]
			}
			if isC {
				f := new(big.Int).Div(r.Num(), r.Denom()) // euclidean = floor for positive denom
				if op == "ceil" && !r.IsInt() || op == "trunc" && r.Sign() < 0 && !r.IsInt() {
					f.Add(f, big.NewInt(1))
				}
				return mkRat(new(big.Rat).SetInt(f))
			}
			// trunc(floor(x)) etc handled by polyInt above
			a := mkAtom(op, nil, true, x...)
			return mkNumAtom(a)
		case "acos":
			if isC {
				switch r.RatString() {
				case "1":
					return mkNum(0)
				case "0":
					return numMul(mkRat2(1, 2), piT)
				case "-1":
					return piT
				case "1/2":
					return numMul(mkRat2(1, 3), piT)
				}
			}
		}
		return mkNumAtom(mkAtom(op, nil, false, x...))
	}, args...)
}

func intFn(op string, a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum || x[1].K != KNum {
			return tBot
		}
		i, ok0 := x[0].constInt()
		j, ok1 := x[1].constInt()
		if ok0 && ok1 && j != 0 {
			switch op {
			case "idiv":
				return mkNum(i / j)
			case "imod":
				return mkNum(i % j)
			case "ceildiv":
				q := i / j
				if i%j > 0 {
					q++
				}
				return mkNum(q)
			}
		}
		if ok1 && j == 1 {
			if op == "imod" {
				return mkNum(0)
			}
			return x[0]
		}
		if op == "ceildiv" && ok1 && j > 1 {
			// rounding up is rounding down a little further on, where nothing is negative
			y := numAdd(x[0], mkNum(j-1))
			if s := y.Poly.sign(); s >= 0 && s <= 2 {
				return intFn("idiv", y, x[1])
			}
		}
		at := mkAtom(op, nil, true, x...)
		if s := x[0].Poly.sign(); s == 1 || s == 2 || s == 0 {
			if s2 := x[1].Poly.sign(); s2 == 1 || s2 == 2 {
				at.NonNeg = true
			}
		}
		return mkNumAtom(at)
	}, a, b)
}

// ---------- folds: op(n, body[bound d], d)

func mkFoldAtom(op string, n *Term, k *Atom, body *Term, isInt bool) *Term {
	return lift(func(x []*Term) *Term {
		n := x[0]
		d := body.bdepth
		if n.bdepth > d {
			d = n.bdepth
		}
		d++
		b := subst1(body, k, boundT(d))
		at := mkAtom(op, nil, isInt, n, b, mkNum(int64(d)))
		if op == "fsum" && !at.NonNeg {
			at.NonNeg = true
			for _, l := range leavesOf(body) {
				if l.K != KNum || l.Poly.sign() < 0 || l.Poly.sign() > 2 {
					at.NonNeg = false
				}
			}
		}
		return mkNumAtom(at)
	}, n)
}

func mkSum(n *Term, k *Atom, body *Term, isInt bool) *Term {
	if !mentions(body, k) {
		return numMul(n, body)
	}
	if body.K == KNum {
		// split off the part not depending on k
		dep, ind := pInt(0), pInt(0)
		for _, t := range body.Poly.T {
			one := newPoly(map[string]*PT{"x": {t.M, t.C}})
			if mentions(mkNumPoly(one), k) {
				dep = dep.add(one, 1)
			} else {
				ind = ind.add(one, 1)
			}
		}
		r := numMul(n, mkNumPoly(ind))
		// pull rational content and k-free factors out of each dependent term
		acc := map[string]*Term{}
		_ = acc
		for _, t := range dep.T {
			var in, out []Fac
			for _, f := range t.M.Fs {
				if mentions(mkNumAtom(f.A), k) {
					in = append(in, f)
				} else {
					out = append(out, f)
				}
			}
			bodyT := mkNumPoly(newPoly(map[string]*PT{"x": {mkMono(in), oneRat}}))
			coef := mkNumPoly(newPoly(map[string]*PT{"x": {mkMono(out), t.C}}))
			r = numAdd(r, numMul(coef, mkFoldAtom("fsum", n, k, bodyT, isInt)))
		}
		return r
	}
	return mkFoldAtom("fsum", n, k, body, isInt)
}

// mkAny: exists k<n. cond
func mkAny(n *Term, k *Atom, cond *Term) *Term {
	if cond.K == KFalse {
		return tFalse
	}
	if !mentions(cond, k) {
		if n == nil {
			return cond
		}
		return bAnd(cond, posB(n, true))
	}
	if n == nil {
		n = mkNumAtom(mkAtom("inf", nil, true))
	}
	return lift(func(x []*Term) *Term {
		n := x[0]
		if c, ok := n.constInt(); ok && c <= 0 {
			return tFalse
		}
		d := cond.bdepth
		if n.bdepth > d {
			d = n.bdepth
		}
		d++
		b := subst1(cond, k, boundT(d))
		return mkVarB(mkVar("fany", false, n, b, mkNum(int64(d))))
	}, n)
}

// mkFirst: the least k<n with cond
func mkFirst(n *Term, k *Atom, cond *Term) *Term {
	if n == nil {
		n = mkNumAtom(mkAtom("inf", nil, true))
	}
	d := cond.bdepth
	if n.bdepth > d {
		d = n.bdepth
	}
	d++
	b := subst1(cond, k, boundT(d))
	return lift(func(x []*Term) *Term {
		a := mkAtom("ffirst", nil, true, x[0], b, mkNum(int64(d)))
		a.NonNeg = true
		return mkNumAtom(a)
	}, n)
}
