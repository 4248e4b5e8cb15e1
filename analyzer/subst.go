package main

// Symbolic expansion, substitution and the array/sequence algebra.

import (
	"go/types"
	"math/big"
	"strings"
)

const repoPrefix = "github.com/l1va/goosli"

func isRepoType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	return n.Obj().Pkg() != nil && (strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix) || n.Obj().Pkg().Path() == "github.com/fogleman/simplify")
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// symOf expands an unknown value of type t identified by op(args).
func symOf(t types.Type, op string, args ...*Term) *Term {
	if tup, ok := t.(*types.Tuple); ok {
		base := mkKAtom(mkAtom(op, t, false, args...))
		var fs []*Term
		for i := 0; i < tup.Len(); i++ {
			fs = append(fs, symOf(tup.At(i).Type(), "res"+string(rune('0'+i)), base))
		}
		return mkTuple(fs...)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkVarB(mkVar(op, false, args...))
		case u.Info()&types.IsInteger != 0:
			a := mkAtom(op, t, true, args...)
			if u.Info()&types.IsUnsigned != 0 {
				a.NonNeg = true
			}
			return mkNumAtom(a)
		case u.Info()&types.IsNumeric != 0:
			return mkNumAtom(mkAtom(op, t, false, args...))
		case u.Info()&types.IsString != 0:
			return mkStrParts(mkKAtom(mkAtom(op, t, false, args...)))
		}
		return mkKAtom(mkAtom(op, t, false, args...))
	case *types.Struct:
		base := mkKAtom(mkAtom(op, t, false, args...))
		if !isRepoType(t) {
			return base
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, symOf(u.Field(i).Type(), fieldOp(t, u, i), base))
		}
		return mkStruct(t, fs...)
	case *types.Slice:
		base := mkKAtom(mkAtom(op, t, false, args...))
		return symSlice(base)
	case *types.Array:
		base := mkKAtom(mkAtom(op, t, false, args...))
		return intern(&Term{K: ASym, Kids: []*Term{base}, Typ: u.Elem()})
	}
	return mkKAtom(mkAtom(op, t, false, args...))
}

func symSlice(base *Term) *Term {
	return mkSliceL(mkObj("sym", base), mkNum(0), lenAtom(base),
		mkVarB(mkVar("isnil", false, base)))
}

// mkSliceL keeps slice leaves free of diagrams in their components.
func mkSliceL(obj, off, ln, isnil *Term) *Term {
	return lift(func(x []*Term) *Term { return mkSlice(x[0], x[1], x[2], x[3]) }, obj, off, ln, isnil)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func zeroVal(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return mkNum(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		}
		return tNil
	case *types.Struct:
		if !isRepoType(t) {
			return mkKAtom(mkAtom("zero", t, false))
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroVal(u.Field(i).Type()))
		}
		return mkStruct(t, fs...)
	case *types.Slice:
		return nilSlice
	case *types.Array:
		return intern(&Term{K: AZero, Typ: u.Elem()})
	}
	return tNil
}

func bound(n int) *Atom        { return mkAtom("bound", nil, true, mkNum(int64(n))) }
func boundT(n int) *Term       { return mkNumAtom(bound(n)) }
func mkElem(v *Term) *Term     { return intern(&Term{K: PElem, Kids: []*Term{v}}) }
func aZero(t types.Type) *Term { return intern(&Term{K: AZero, Typ: t}) }

var emptySeq = intern(&Term{K: ACat})

// mkSeg: elements off..off+len of arr as a sequence (diagram of ACat)
func mkSeg(arr, off, ln *Term) *Term {
	return lift(func(x []*Term) *Term {
		arr, off, ln := x[0], x[1], x[2]
		if n, ok := ln.constInt(); ok && n <= 0 {
			return emptySeq
		}
		if arr.K == ACat {
			if off == mkNum(0) && ln == seqLen(arr) {
				return arr
			}
			if r := sliceCat(arr, off, ln); r != nil {
				return r
			}
		}
		if arr.K == AMap && arr.Kids[1] == off && numAdd(off, ln) == arr.Kids[2] {
			f := openAtom()
			return mkFor(ln, f, mkCat(mkElem(subst1(arr.Kids[3], bound(arr.N), numAdd(mkNumAtom(f), off)))))
		}
		if n, ok := ln.constInt(); ok && n <= 16 && arr.K != KAtom && arr.K != KBot {
			if et := arrElemType(arr); et != nil {
				var ps []*Term
				for i := int64(0); i < n; i++ {
					ps = append(ps, mkElem(selectArr(arr, numAdd(off, mkNum(i)), et)))
				}
				return mkCat(ps...)
			}
		}
		return intern(&Term{K: ACat, Kids: []*Term{intern(&Term{K: PSeg, Kids: []*Term{arr, off, ln}})}})
	}, arr, off, ln)
}

func arrElemType(arr *Term) types.Type {
	switch arr.K {
	case AZero, ASym:
		return arr.Typ
	case AStore, AMap:
		return arrElemType(arr.Kids[0])
	case KIte:
		if t := arrElemType(arr.Kids[0]); t != nil {
			return t
		}
		return arrElemType(arr.Kids[1])
	case ACat:
		return arr.Typ
	}
	return nil
}

// sliceCat cuts a concatenation at part boundaries when it can.
func sliceCat(arr, off, ln *Term) *Term {
	pos := mkNum(0)
	end := numAdd(off, ln)
	var out []*Term
	started := false
	if off == mkNum(0) {
		started = true
	}
	for _, p := range arr.Kids {
		if pos == end {
			break
		}
		if !started && pos == off {
			started = true
		}
		l := partLen(p)
		if l == nil || l.K == KIte {
			if started && end == numAdd(pos, seqLenFrom(arr, p)) {
				// rest of the sequence
			}
		}
		next := numAdd(pos, l)
		if started {
			// does the part end after `end`?
			d := numSub(end, next)
			if d.K != KNum {
				return nil
			}
			if s := d.Poly.sign(); s == -1 { // cut inside
				if p.K == PSeg {
					out = append(out, intern(&Term{K: PSeg, Kids: []*Term{p.Kids[0], p.Kids[1], numSub(end, pos)}}))
					pos = end
					break
				}
				return nil
			} else if s == 9 || s == -2 {
				return nil
			}
			out = append(out, p)
		} else {
			d := numSub(off, next)
			if d.K != KNum {
				return nil
			}
			if s := d.Poly.sign(); s == -1 { // off inside this part
				if p.K == PSeg {
					skip := numSub(off, pos)
					started = true
					rl := numSub(p.Kids[2], skip)
					e2 := numSub(end, next)
					if e2.K != KNum || !(e2.Poly.sign() == 0 || e2.Poly.sign() == 1 || e2.Poly.sign() == 2) {
						return nil
					}
					out = append(out, intern(&Term{K: PSeg, Kids: []*Term{p.Kids[0], numAdd(p.Kids[1], skip), rl}}))
				} else {
					return nil
				}
			} else if s == 9 || s == -2 {
				return nil
			}
		}
		pos = next
	}
	if pos != end {
		return nil
	}
	return mkCat(out...)
}
func seqLenFrom(arr, p *Term) *Term { return mkNum(0) }

func partLen(p *Term) *Term {
	switch p.K {
	case PElem:
		return mkNum(1)
	case PSeg:
		return p.Kids[2]
	case PFor:
		bl := seqLen(p.Kids[1])
		if c, ok := bl.constInt(); ok {
			return numMul(mkNum(c), p.Kids[0])
		}
		return mkNumAtom(mkAtom("sumlen", nil, true, p))
	}
	return mkNum(0)
}

// seqLen of a diagram of ACat
func seqLen(s *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != ACat {
			return mkNumAtom(mkAtom("sumlen", nil, true, x[0]))
		}
		n := mkNum(0)
		for _, p := range x[0].Kids {
			n = numAdd(n, partLen(p))
		}
		return n
	}, s)
}

// mkCat concatenates parts and (plain) sequences.
func mkCat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.K == ACat {
			out = append(out, p.Kids...)
			continue
		}
		out = append(out, p)
	}
	// merge adjacent segments of one array
	var m []*Term
	for _, p := range out {
		if n := len(m); n > 0 && p.K == PSeg && m[n-1].K == PSeg && m[n-1].Kids[0] == p.Kids[0] &&
			numAdd(m[n-1].Kids[1], m[n-1].Kids[2]) == p.Kids[1] {
			m[n-1] = intern(&Term{K: PSeg, Kids: []*Term{p.Kids[0], m[n-1].Kids[1], numAdd(m[n-1].Kids[2], p.Kids[2])}})
			continue
		}
		if p.K == PFor {
			if c, ok := p.Kids[0].constInt(); ok && c <= 0 {
				continue
			}
			if p.Kids[1] == emptySeq {
				continue
			}
		}
		m = append(m, p)
	}
	return intern(&Term{K: ACat, Kids: m})
}
func catSeq(a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != ACat || x[1].K != ACat {
			return tBot
		}
		return mkCat(x[0], x[1])
	}, a, b)
}

// mkFor builds concat_{k<n} body
func mkFor(n *Term, k *Atom, body *Term) *Term {
	return lift(func(x []*Term) *Term {
		n := x[0]
		if c, ok := n.constInt(); ok && c <= 0 {
			return emptySeq
		}
		if c, ok := n.constInt(); ok && c <= 8 {
			out := emptySeq
			for i := int64(0); i < c; i++ {
				out = catSeq(out, subst1(body, k, mkNum(i)))
			}
			return out
		}
		d := body.bdepth
		if n.bdepth > d {
			d = n.bdepth
		}
		d++
		b := subst1(body, k, boundT(d))
		b = normBody(b)
		if b == emptySeq {
			return emptySeq
		}
		// identity comprehension: [arr[b]] for b<n  ==> segment
		if b.K == ACat && len(b.Kids) == 1 && b.Kids[0].K == PElem {
			if arr, off := identityElem(b.Kids[0].Kids[0], bound(d)); arr != nil {
				return mkSeg(arr, off, n)
			}
		}
		return intern(&Term{K: ACat, Kids: []*Term{intern(&Term{K: PFor, N: d, Kids: []*Term{n, b}})}})
	}, n)
}

// identityElem recognises v == ASym(base)[b+off]
func identityElem(v *Term, b *Atom) (arr, off *Term) {
	base := symBase(v)
	if base == nil || base.Atom.Op != "elem" || len(base.Atom.Args) != 2 {
		return nil, nil
	}
	idx := base.Atom.Args[1]
	if idx.K != KNum {
		return nil, nil
	}
	o := idx.Poly.add(pAtom(b), -1)
	for _, t := range o.T {
		for _, f := range t.M.Fs {
			if f.A == b {
				return nil, nil
			}
		}
	}
	ab := base.Atom.Args[0]
	if mentions(ab, b) {
		return nil, nil
	}
	return intern(&Term{K: ASym, Kids: []*Term{ab}, Typ: base.Atom.Typ}), mkNumPoly(o)
}

// symBase returns the atom term T such that v is exactly the expansion of T.
func symBase(v *Term) *Term {
	switch v.K {
	case KAtom:
		return v
	case KNum:
		if len(v.Poly.T) == 1 && len(v.Poly.T[0].M.Fs) == 1 && v.Poly.T[0].C.Cmp(oneRat) == 0 && v.Poly.T[0].M.Fs[0].E == 1 {
			a := v.Poly.T[0].M.Fs[0].A
			if a.Typ != nil {
				return mkKAtom(a)
			}
		}
	case KStr:
		if len(v.Kids) == 1 && v.Kids[0].K == KAtom {
			return v.Kids[0]
		}
	case KSlice:
		o := v.Kids[0]
		if o.K == KObj && o.S == "sym" && symSlice(o.Kids[0]) == v {
			return o.Kids[0]
		}
	case KIte:
		if v.Kids[0].K == KTrue && v.Kids[1].K == KFalse {
			return nil
		}
		if s := v; topVar(s).Op == "isnil" {
			b := s.Var.Args[0]
			if b.K == KAtom && symSlice(b) == v {
				return b
			}
		}
	case KStruct:
		st, ok := v.Typ.Underlying().(*types.Struct)
		if !ok || len(v.Kids) == 0 {
			return nil
		}
		var f0 *Term
		for i, k := range v.Kids {
			if k.K == KNum || k.K == KStr || k.K == KSlice || k.K == KStruct || k.K == KAtom || k.K == KIte {
				b := symBase(k)
				if b == nil || b.Atom.Op != fieldOp(v.Typ, st, i) {
					if k.K == KIte {
						continue
					}
					return nil
				}
				f0 = b.Atom.Args[0]
				break
			}
		}
		if f0 == nil || f0.K != KAtom || f0.Atom.Typ == nil || !types.Identical(f0.Atom.Typ, v.Typ) {
			return nil
		}
		if symOf(v.Typ, f0.Atom.Op, f0.Atom.Args...) == v {
			return f0
		}
	}
	return nil
}

// selectArr: element idx of array content
func selectArr(arr, idx *Term, et types.Type) *Term {
	if arr.K != KIte && idx.K != KIte {
		return selectLeaf(arr, idx, et)
	}
	// struct-valued results: lift manually (results merged field-wise)
	v := topVar(arr, idx)
	return mkIte(mkVarB(v), selectArr(cofac(arr, v, true), cofac(idx, v, true), et),
		selectArr(cofac(arr, v, false), cofac(idx, v, false), et))
}

func selectLeaf(arr, idx *Term, et types.Type) *Term {
	idx = positiveIdx(idx)
	switch arr.K {
	case AZero:
		return zeroVal(arr.Typ)
	case ASym:
		return symOf(et, "elem", arr.Kids[0], inRange(idx, arr.Kids[0]))
	case AStore:
		eq := cmpEQnum(arr.Kids[1], idx, true)
		return mkIte(eq, arr.Kids[2], selectArr(arr.Kids[0], idx, et))
	case AMap:
		in := bAnd(cmpLE(arr.Kids[1], idx, true), cmpLT(idx, arr.Kids[2], true))
		if in.K == KFalse {
			return selectArr(arr.Kids[0], idx, et)
		}
		return mkIte(in, subst1(arr.Kids[3], bound(arr.N), idx), selectArr(arr.Kids[0], idx, et))
	case ACat:
		pos := mkNum(0)
		var conds []*Term
		var vals []*Term
		for _, p := range arr.Kids {
			l := partLen(p)
			next := numAdd(pos, l)
			in := cmpLT(idx, next, true)
			if in.K == KFalse {
				pos = next
				continue
			}
			rel := numSub(idx, pos)
			var v *Term
			switch p.K {
			case PElem:
				v = p.Kids[0]
			case PSeg:
				v = selectArr(p.Kids[0], numAdd(p.Kids[1], rel), et)
			case PFor:
				b := p.Kids[1]
				if allUnit(b) {
					inst := subst1(b, bound(p.N), rel)
					v = unitElem(inst)
				} else {
					v = symOf(et, "elem", arr, idx)
				}
			}
			conds = append(conds, in)
			vals = append(vals, v)
			pos = next
			if in.K == KTrue {
				break
			}
		}
		if len(vals) == 0 {
			return symOf(et, "elem", arr, idx)
		}
		r := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			r = mkIte(conds[i], vals[i], r)
		}
		return r
	}
	return symOf(et, "elem", arr, idx)
}

// positiveIdx: max(0,x)-1 is an index only if x > 0
func positiveIdx(idx *Term) *Term {
	if idx.K != KNum {
		return idx
	}
	for _, m := range polyAtoms(idx) {
		if m.Op != "max" || len(m.Args) != 2 {
			continue
		}
		k := numSub(idx, mkNumAtom(m))
		if v, ok := k.constRat(); !ok || v.Sign() >= 0 {
			continue
		}
		if m.Args[0] == mkNum(0) {
			return numAdd(m.Args[1], k)
		}
		if m.Args[1] == mkNum(0) {
			return numAdd(m.Args[0], k)
		}
	}
	return idx
}

// inRange: an element that is read exists, so max(0, len-1) is len-1.
func inRange(idx, base *Term) *Term {
	if idx.K != KNum {
		return idx
	}
	a := singleAtom(idx.Poly)
	if a == nil {
		return idx
	}
	if a.Op != "max" || len(a.Args) != 2 {
		return idx
	}
	last := numSub(lenAtom(base), mkNum(1))
	zero := mkNum(0)
	if a.Args[0] == zero && a.Args[1] == last || a.Args[1] == zero && a.Args[0] == last {
		return last
	}
	return idx
}

func allUnit(b *Term) bool {
	ok := true
	lift(func(x []*Term) *Term {
		if x[0].K != ACat || len(x[0].Kids) != 1 || x[0].Kids[0].K != PElem {
			ok = false
		}
		return tTrue
	}, b)
	return ok
}
func unitElem(b *Term) *Term {
	if b.K == KIte {
		return mkIte(mkVarB(b.Var), unitElem(b.Kids[0]), unitElem(b.Kids[1]))
	}
	return b.Kids[0].Kids[0]
}

// ---------- substitution

type Sub struct {
	Val     *Term // replaces the atom's expansion
	Content *Term // for slice atoms: array content of the new value (off 0)
}

func subst1(t *Term, a *Atom, v *Term) *Term { return subst(t, map[*Atom]Sub{a: {Val: v}}) }

func mentions(t *Term, as ...*Atom) bool {
	set := map[*Atom]bool{}
	for _, a := range as {
		set[a] = true
	}
	return mentionsF(t, func(a *Atom) bool { return set[a] })
}

// lost: some value inside could not be followed.
func lost(t *Term) bool { return mentionsTF(t, func(*Atom) bool { return false }, true) }

func mentionsF(t *Term, f func(*Atom) bool) bool { return mentionsTF(t, f, false) }

func mentionsTF(t *Term, f func(*Atom) bool, bot bool) bool {
	seen := map[*Term]bool{}
	seenA := map[*Atom]bool{}
	var rec func(t *Term) bool
	var recA func(a *Atom) bool
	recA = func(a *Atom) bool {
		if f(a) {
			return true
		}
		if seenA[a] {
			return false
		}
		seenA[a] = true
		for _, x := range a.Args {
			if rec(x) {
				return true
			}
		}
		return false
	}
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if bot && t.K == KBot {
			return true
		}
		if t.Atom != nil && recA(t.Atom) {
			return true
		}
		if t.Poly != nil {
			for _, m := range t.Poly.T {
				for _, fc := range m.M.Fs {
					if recA(fc.A) {
						return true
					}
				}
			}
		}
		if t.Var != nil {
			for _, x := range t.Var.Args {
				if rec(x) {
					return true
				}
			}
		}
		for _, k := range t.Kids {
			if rec(k) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func collectAtoms(t *Term, f func(*Atom)) {
	mentionsF(t, func(a *Atom) bool { f(a); return false })
}

type substCtx struct {
	m      map[*Atom]Sub
	memo   map[*Term]*Term
	memoA  map[*Atom]*Term
	memoV  map[*BVar]*Term
	touchM map[*Term]bool
}

func subst(t *Term, m map[*Atom]Sub) *Term {
	if len(m) == 0 {
		return t
	}
	c := &substCtx{m, map[*Term]*Term{}, map[*Atom]*Term{}, map[*BVar]*Term{}, map[*Term]bool{}}
	return c.term(t)
}

func (c *substCtx) terms(ts []*Term) ([]*Term, bool) {
	ch := false
	out := make([]*Term, len(ts))
	for i, x := range ts {
		out[i] = c.term(x)
		if out[i] != x {
			ch = true
		}
	}
	return out, ch
}

func (c *substCtx) term(t *Term) *Term {
	if r, ok := c.memo[t]; ok {
		return r
	}
	r := c.term0(t)
	c.memo[t] = r
	return r
}

func (c *substCtx) term0(t *Term) *Term {
	switch t.K {
	case KNum:
		acc := mkNum(0)
		changed := false
		for _, m := range t.Poly.T {
			for _, f := range m.M.Fs {
				if c.atom(f.A) != mkNumAtomAny(f.A) {
					changed = true
				}
			}
		}
		if !changed {
			return t
		}
		for _, m := range t.Poly.T {
			prod := mkRat(m.C)
			for _, f := range m.M.Fs {
				v := c.atom(f.A)
				e := f.E
				if e < 0 {
					v = numDiv(mkNum(1), v)
					e = -e
				}
				for i := 0; i < e; i++ {
					prod = numMul(prod, v)
				}
			}
			acc = numAdd(acc, prod)
		}
		return acc
	case KIte:
		cv := c.bvar(t.Var)
		return mkIte(cv, c.term(t.Kids[0]), c.term(t.Kids[1]))
	case KAtom:
		return c.atom(t.Atom)
	case ASym:
		if t.Kids[0].K == KAtom {
			if s, ok := c.m[t.Kids[0].Atom]; ok && s.Content != nil {
				return s.Content
			}
		}
		b := c.term(t.Kids[0])
		if b == t.Kids[0] {
			return t
		}
		return arrOfVal(b, t.Typ)
	case KObj:
		if t.S == "sym" && len(t.Kids) == 1 {
			b := c.term(t.Kids[0])
			if b == t.Kids[0] {
				return t
			}
			if b.K == KAtom {
				return mkObj("sym", b)
			}
			if sb := symBase(b); sb != nil {
				return mkObj("sym", sb)
			}
			if b.K == KSlice {
				return b.Kids[0]
			}
			return lift(func(x []*Term) *Term {
				if x[0].K == KSlice {
					return x[0].Kids[0]
				}
				if x[0].K == KNil {
					return nilObj
				}
				if sb := symBase(x[0]); sb != nil {
					return mkObj("sym", sb)
				}
				return tBot
			}, b)
		}
		ks, ch := c.terms(t.Kids)
		if !ch {
			return t
		}
		return lift(func(x []*Term) *Term {
			if t.S == "deref" && x[0].K == KPtr && len(x[0].Kids) == 1 {
				return x[0].Kids[0]
			}
			return mkObj(t.S, x...)
		}, ks...)
	case PFor:
		if !c.touches(t) {
			return t
		}
		f := openAtom()
		body := c.term(subst1(t.Kids[1], bound(t.N), mkNumAtom(f)))
		return mkFor(c.term(t.Kids[0]), f, body)
	case AMap:
		if !c.touches(t) {
			return t
		}
		f := openAtom()
		body := c.term(subst1(t.Kids[3], bound(t.N), mkNumAtom(f)))
		return mkAMap(c.term(t.Kids[0]), c.term(t.Kids[1]), c.term(t.Kids[2]), f, body)
	case KPtr:
		if o := t.Kids[0]; o.K == KObj && o.S == "deref" {
			p := c.term(o.Kids[0])
			if p != o.Kids[0] {
				path, _ := c.terms(t.Kids[1:])
				return lift(func(x []*Term) *Term {
					if x[0].K == KPtr {
						return mkPtr(x[0].Kids[0], append(append([]*Term{}, x[0].Kids[1:]...), x[1:]...)...)
					}
					if x[0].K == KNil {
						return tNil
					}
					return mkPtr(mkObj("deref", x[0]), x[1:]...)
				}, append([]*Term{p}, path...)...)
			}
		}
	}
	if len(t.Kids) == 0 {
		return t
	}
	ks, ch := c.terms(t.Kids)
	if !ch {
		return t
	}
	return rebuild(t, ks)
}

func rebuild(t *Term, ks []*Term) *Term {
	switch t.K {
	case KStruct:
		return mkStruct(t.Typ, ks...)
	case KTuple:
		return mkTuple(ks...)
	case KStr:
		return lift(func(x []*Term) *Term {
			var ps []*Term
			for _, p := range x {
				if p.K == KStr {
					ps = append(ps, p.Kids...)
				} else {
					ps = append(ps, p)
				}
			}
			return mkStrParts(ps...)
		}, ks...)
	case ACat:
		r := emptySeq
		for _, p := range ks {
			if p.K == PElem || p.K == PSeg || p.K == PFor {
				p = mkCat(p)
			}
			r = catSeq(r, p)
		}
		return r
	case PElem:
		return mkElem(ks[0])
	case PSeg:
		return mkSeg(ks[0], ks[1], ks[2])
	case AStore:
		return lift(func(x []*Term) *Term {
			return intern(&Term{K: AStore, Kids: []*Term{x[0], x[1], ks[2]}})
		}, ks[0], ks[1])
	case KSnap:
		return lift(func(x []*Term) *Term { return intern(&Term{K: KSnap, Kids: x, Typ: t.Typ}) }, ks...)
	case KSnapPtr:
		return intern(&Term{K: t.K, Kids: ks, Typ: t.Typ})
	case KSlice:
		return mkSliceL(ks[0], ks[1], ks[2], ks[3])
	}
	return lift(func(x []*Term) *Term {
		n := *t
		n.ID = 0
		n.Kids = x
		n.varsOK = false
		return intern(&n)
	}, ks...)
}

var openSeq int

func openAtom() *Atom {
	openSeq++
	return mkAtom("open", nil, true, mkNum(int64(openSeq)))
}

func (c *substCtx) touches(t *Term) bool {
	if r, ok := c.touchM[t]; ok {
		return r
	}
	r := mentionsF(t, func(a *Atom) bool { _, ok := c.m[a]; return ok })
	c.touchM[t] = r
	return r
}

// mkAMap: base with elements lo..hi-1 replaced by body(index)
func mkAMap(base, lo, hi *Term, k *Atom, body *Term) *Term {
	return lift(func(x []*Term) *Term {
		d := body.bdepth
		for _, y := range x {
			if y.bdepth > d {
				d = y.bdepth
			}
		}
		d++
		return mkAMapD(x[0], x[1], x[2], subst1(body, k, boundT(d)), d)
	}, base, lo, hi)
}

func mkAMapD(base, lo, hi, body *Term, depth int) *Term {
	if lo == hi {
		return base
	}
	return intern(&Term{K: AMap, N: depth, Kids: []*Term{base, lo, hi, body}})
}

// arrOfVal: array content of a slice/array value known only symbolically
func arrOfVal(b *Term, et types.Type) *Term {
	return lift(func(x []*Term) *Term {
		b := x[0]
		if b.K == KAtom {
			return intern(&Term{K: ASym, Kids: []*Term{b}, Typ: et})
		}
		if b.K == KSnap {
			return b.Kids[0]
		}
		if b.K == KSlice && b.Kids[0].K == KObj && b.Kids[0].S == "sym" {
			return intern(&Term{K: ASym, Kids: []*Term{b.Kids[0].Kids[0]}, Typ: et})
		}
		if b.K == ASym || b.K == ACat || b.K == AZero || b.K == AMap || b.K == AStore {
			return b
		}
		return intern(&Term{K: ASym, Kids: []*Term{b}, Typ: et})
	}, b)
}

func mkNumAtomAny(a *Atom) *Term { return mkNumAtom(a) }

// atom: the value of an atom after substitution
func (c *substCtx) atom(a *Atom) *Term {
	if s, ok := c.m[a]; ok {
		return s.Val
	}
	if r, ok := c.memoA[a]; ok {
		return r
	}
	var r *Term
	if a.Op == "elem" && a.Args[0].K == KAtom {
		if s, ok := c.m[a.Args[0].Atom]; ok && s.Content != nil {
			r = selectArr(s.Content, c.term(a.Args[1]), a.Typ)
			if r.K == KSlice || r.K == KIte {
				// fine: slices of slices keep their symbolic objects
			}
			c.memoA[a] = r
			return r
		}
	}
	if len(a.Args) == 0 {
		r = selfTerm(a)
	} else if isFoldOp(a.Op) {
		if !mentionsF(mkNumAtom(a), func(x *Atom) bool { _, ok := c.m[x]; return ok }) {
			r = selfTerm(a)
		} else {
			d, _ := a.Args[2].constInt()
			f := openAtom()
			body := c.term(subst1(a.Args[1], bound(int(d)), mkNumAtom(f)))
			n := c.term(a.Args[0])
			switch a.Op {
			case "fsum":
				r = mkSum(n, f, body, a.Int)
			case "ffirst":
				r = mkFirst(n, f, body)
			case "mu":
				kk := c.term(a.Args[3])
				r = lift(func(x []*Term) *Term { return muTerm(a.Typ, a.Int, n, body, f, x[0]) }, kk)
			default:
				r = mkFoldMM(a.Op[1:], n, f, body, c.term(a.Args[3]))
			}
		}
	} else {
		args, ch := c.terms(a.Args)
		if !ch {
			r = selfTerm(a)
		} else {
			r = rebuildAtom(a, args)
		}
	}
	c.memoA[a] = r
	return r
}

// selfTerm is the term denoting the atom itself
func selfTerm(a *Atom) *Term {
	if a.Typ == nil {
		return mkNumAtom(a)
	}
	if tup, ok := a.Typ.(*types.Tuple); ok {
		_ = tup
		return mkKAtom(a)
	}
	switch u := a.Typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsNumeric != 0 {
			return mkNumAtom(a)
		}
	}
	return mkKAtom(a)
}

func rebuildAtom(a *Atom, args []*Term) *Term {
	switch a.Op {
	case "sqrt":
		return numSqrt(args[0])
	case "inv":
		return numDiv(mkNum(1), args[0])
	case "min", "max":
		return numMinMax(a.Op, args...)
	case "sin", "cos":
		return trig(a.Op, args[0])
	case "acos", "atan2", "floor", "ceil", "trunc", "asin", "atan", "tan", "f32", "frac":
		return numFn(a.Op, args...)
	case "idiv", "imod", "ceildiv":
		return intFn(a.Op, args[0], args[1])
	case "len":
		b := args[0]
		return lift(func(x []*Term) *Term {
			switch x[0].K {
			case KSlice:
				return x[0].Kids[2]
			case KStr:
				return strLen(x[0])
			case ACat:
				return seqLen(x[0])
			case KSnap:
				return lift(func(y []*Term) *Term { return seqLen(y[0]) }, x[0].Kids[0])
			}
			return lenAtom(x[0])
		}, b)
	case "sumlen":
		if args[0].K == PFor {
			return partLen(args[0])
		}
		return seqLen(args[0])
	case "deref":
		if args[0].K == KSnapPtr {
			return args[0].Kids[0]
		}
	case "elem":
		return selectArr(arrOfVal(args[0], a.Typ), args[1], a.Typ)
	}
	if strings.HasPrefix(a.Op, ".") && len(args) == 1 {
		if r := fieldOf(args[0], a.Op[1:], a.Typ); r != nil {
			return r
		}
	}
	if strings.HasPrefix(a.Op, "res") && len(a.Op) == 4 && len(args) == 1 && args[0].K == KTuple {
		return args[0].Kids[int(a.Op[3]-'0')]
	}
	return liftSmall(func(x []*Term) *Term {
		if a.Typ == nil {
			return mkNumAtom(mkAtom(a.Op, nil, a.Int, x...))
		}
		if _, ok := a.Typ.(*types.Tuple); ok {
			return mkKAtom(mkAtom(a.Op, a.Typ, a.Int, x...))
		}
		return symOf(a.Typ, a.Op, x...)
	}, args...)
}

// fieldOf projects a field by name out of a struct value
func fieldOf(v *Term, name string, ft types.Type) *Term {
	if v.K == KStruct {
		st := v.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name || fieldOp(v.Typ, st, i) == "."+name {
				return v.Kids[i]
			}
		}
		return nil
	}
	if v.K == KAtom {
		if st, ok := v.Atom.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name || fieldOp(v.Atom.Typ, st, i) == "."+name {
					return symOf(ft, fieldOp(v.Atom.Typ, st, i), v)
				}
			}
		}
		return symOf(ft, "."+name, v)
	}
	return nil
}

func (c *substCtx) bvar(v *BVar) *Term {
	if r, ok := c.memoV[v]; ok {
		return r
	}
	if v.Op == "elem" && v.Args[0].K == KAtom {
		if s, ok := c.m[v.Args[0].Atom]; ok && s.Content != nil {
			r := selectArr(s.Content, c.term(v.Args[1]), types.Typ[types.Bool])
			c.memoV[v] = r
			return r
		}
	}
	if v.Op == "fany" {
		if !c.touches(mkVarB(v)) {
			c.memoV[v] = mkVarB(v)
			return c.memoV[v]
		}
		d, _ := v.Args[2].constInt()
		f := openAtom()
		r := mkAny(c.term(v.Args[0]), f, c.term(subst1(v.Args[1], bound(int(d)), mkNumAtom(f))))
		c.memoV[v] = r
		return r
	}
	args, ch := c.terms(v.Args)
	var r *Term
	if !ch {
		r = mkVarB(v)
	} else {
		r = rebuildVar(v, args, c)
	}
	c.memoV[v] = r
	return r
}
func rebuildVar(v *BVar, args []*Term, c *substCtx) *Term {
	switch v.Op {
	case "pos":
		return posB(args[0], v.Int)
	case "neg":
		return posB(numNeg(args[0]), v.Int)
	case "seq":
		return dispEq(args[0], args[1])
	case "isnil":
		return isNilOf(args[0])
	case "boolof":
		if args[0].K != KAtom {
			return args[0]
		}
	}
	if strings.HasPrefix(v.Op, ".") && len(args) == 1 && args[0].K == KStruct {
		if r := fieldOf(args[0], v.Op[1:], types.Typ[types.Bool]); r != nil {
			return r
		}
	}
	if strings.HasPrefix(v.Op, "res") && len(v.Op) == 4 && len(args) == 1 && args[0].K == KTuple {
		return args[0].Kids[int(v.Op[3]-'0')]
	}
	if v.Op == "elem" {
		return selectArr(arrOfVal(args[0], types.Typ[types.Bool]), args[1], types.Typ[types.Bool])
	}
	return liftSmall(func(x []*Term) *Term { return mkVarB(mkVar(v.Op, v.Int, x...)) }, args...)
}

func isNilOf(v *Term) *Term {
	return lift(func(x []*Term) *Term {
		switch x[0].K {
		case KNil:
			return tTrue
		case KPtr, KFunc, KIface, KMap, KSnap, KSnapPtr:
			return tFalse
		case KSlice:
			return x[0].Kids[3]
		case KAtom:
			if strings.HasPrefix(x[0].Atom.Op, "ext:fmt.Errorf") || strings.HasPrefix(x[0].Atom.Op, "ext:errors.New") {
				return tFalse
			}
			return mkVarB(mkVar("isnil", false, x[0]))
		}
		return tFalse
	}, v)
}

// dispEq: do two numbers print the same?
func dispEq(a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0] == x[1] {
			return tTrue
		}
		r0, ok0 := x[0].constRat()
		r1, ok1 := x[1].constRat()
		if ok0 && ok1 {
			return mkBool(dispRound(r0).Cmp(dispRound(r1)) == 0)
		}
		p, q := x[0], x[1]
		if p.ID > q.ID {
			p, q = q, p
		}
		return mkVarB(mkVar("seq", false, p, q))
	}, a, b)
}
func dispRound(r *big.Rat) *big.Rat {
	s, _ := new(big.Rat).SetString(r.FloatString(3))
	return s
}

func strLen(s *Term) *Term {
	n := mkNum(0)
	for _, p := range s.Kids {
		if p.K == KLit {
			n = numAdd(n, mkNum(int64(len(p.S))))
		} else {
			n = numAdd(n, mkNumAtom(mkAtom("len", nil, true, p)))
		}
	}
	return n
}

func numMinMax(op string, xs ...*Term) *Term {
	return lift(func(x []*Term) *Term {
		for _, y := range x {
			if y.K != KNum {
				return tBot
			}
		}
		return mkMinMax(op, x...)
	}, xs...)
}

// normBody: a body whose alternatives all have the same number of plain elements becomes one
// list of (conditional) elements; otherwise conditions inside elements are moved outside.
func normBody(b *Term) *Term {
	if b.K != KIte {
		return b
	}
	n := -1
	ok := allLeaves(b, func(x *Term) bool {
		if x.K != ACat {
			return false
		}
		for _, e := range x.Kids {
			if e.K != PElem {
				return false
			}
		}
		if n < 0 {
			n = len(x.Kids)
		}
		return n == len(x.Kids)
	})
	if ok {
		var es []*Term
		for i := 0; i < n; i++ {
			var pick func(x *Term) *Term
			memo := map[*Term]*Term{}
			pick = func(x *Term) *Term {
				if x.K != KIte {
					return x.Kids[i].Kids[0]
				}
				if r, ok := memo[x]; ok {
					return r
				}
				r := mkIte(mkVarB(x.Var), pick(x.Kids[0]), pick(x.Kids[1]))
				memo[x] = r
				return r
			}
			es = append(es, mkElem(pick(b)))
		}
		return mkCat(es...)
	}
	return b
}
