package main

// Models of reading text back: words, substrings, parsed numbers and flags, lines of a file.

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// solidPart: a piece of text that is not empty and has no white space.
func solidPart(p *Term) bool {
	if p.K != KAtom || p.Atom == nil {
		return false
	}
	return p.Atom.Op == "itoa" || strings.HasPrefix(p.Atom.Op, "fmt")
}

// splitText cuts a text at the separators in its literal parts; nil when a part may contain one.
func splitText(s *Term, sep func(byte) bool, keepEmpty bool) []*Term {
	var out []*Term
	var cur []*Term
	any := false
	flush := func() {
		if keepEmpty || any {
			out = append(out, mkStrParts(cur...))
		}
		cur, any = nil, false
	}
	for _, p := range s.Kids {
		if p.K != KLit {
			if !solidPart(p) {
				return nil
			}
			cur, any = append(cur, p), true
			continue
		}
		i := 0
		for j := 0; j < len(p.S); j++ {
			if sep(p.S[j]) {
				if j > i {
					cur, any = append(cur, mkLit(p.S[i:j])), true
				}
				flush()
				i = j + 1
			}
		}
		if i < len(p.S) {
			cur, any = append(cur, mkLit(p.S[i:])), true
		}
	}
	flush()
	return out
}

// strCut drops n bytes from the front (or the back) when they are literal.
func strCut(s *Term, n int, back bool) *Term {
	ps := append([]*Term{}, s.Kids...)
	for n > 0 {
		if len(ps) == 0 {
			return nil
		}
		i := 0
		if back {
			i = len(ps) - 1
		}
		p := ps[i]
		if p.K != KLit {
			return nil
		}
		if len(p.S) <= n {
			n -= len(p.S)
			ps = append(ps[:i:i], ps[i+1:]...)
			continue
		}
		if back {
			ps[i] = mkLit(p.S[:len(p.S)-n])
		} else {
			ps[i] = mkLit(p.S[n:])
		}
		n = 0
	}
	return mkStrParts(ps...)
}

// substrT is v[lo:hi]; whole says that hi is the length of v.
func substrT(t types.Type, v, lo, hi *Term, whole bool) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K == KStr {
			n, ok := x[1].constInt()
			if ok && n >= 0 {
				r := strCut(x[0], int(n), false)
				if r != nil && whole {
					return r
				}
				if r != nil {
					if d, ok := numSub(strLen(x[0]), x[2]).constInt(); ok && d >= 0 {
						if q := strCut(r, int(d), true); q != nil {
							return q
						}
					}
					if h, ok := x[2].constInt(); ok && len(r.Kids) > 0 && r.Kids[0].K == KLit && len(r.Kids[0].S) >= int(h-n) && h >= n {
						return mkStr(r.Kids[0].S[:h-n])
					}
					if h, ok := x[2].constInt(); ok && h == n {
						return mkStr("")
					}
				}
			}
		}
		return symOf(t, "substr", x[0], x[1], x[2])
	}, v, lo, hi)
}

func byteAtT(t types.Type, v, idx *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K == KStr {
			if n, ok := x[1].constInt(); ok && n >= 0 && len(x[0].Kids) > 0 && x[0].Kids[0].K == KLit && int(n) < len(x[0].Kids[0].S) {
				return mkNum(int64(x[0].Kids[0].S[n]))
			}
		}
		return symOf(t, "byteat", x[0], x[1])
	}, v, idx)
}

func parsedNumber(s *Term) (*Term, bool) {
	if l, ok := s.litStr(); ok {
		if r, ok := new(big.Rat).SetString(l); ok {
			return mkRat(r), true
		}
		return nil, false
	}
	if s.K == KStr && len(s.Kids) == 1 && solidPart(s.Kids[0]) {
		return mkNumAtom(mkAtom("parsed", nil, s.Kids[0].Atom.Op == "itoa", s)), true
	}
	return nil, false
}

const scannerTag = "scanner:"

func (it *Interp) textModel(fr *Frame, st *State, cs *CallSite, name string) (*Term, bool) {
	a := cs.Args
	words := func(split func(s *Term) []*Term) (*Term, bool) {
		s := strT(a[0])
		n := 0
		ok := true
		r := lift(func(x []*Term) *Term {
			if x[0].K != KStr || !ok {
				ok = false
				return nilSlice
			}
			ws := split(x[0])
			if ws == nil {
				ok = false
				return nilSlice
			}
			var es []*Term
			for _, w := range ws {
				es = append(es, intern(&Term{K: PElem, Kids: []*Term{w}}))
			}
			n++
			return it.newSlice(st, cs.Ctx+"/words"+strconv.Itoa(n), mkCat(es...), tFalse, types.Typ[types.String])
		}, s)
		if !ok {
			return nil, false
		}
		return r, true
	}
	isSpace := func(c byte) bool { return strings.IndexByte(" \t\n\v\f\r", c) >= 0 }
	switch name {
	case "strings.Fields":
		return words(func(s *Term) []*Term { return splitText(s, isSpace, false) })
	case "strings.Split":
		if sep, ok := a[1].litStr(); ok && len(sep) == 1 && isSpace(sep[0]) {
			return words(func(s *Term) []*Term { return splitText(s, func(c byte) bool { return c == sep[0] }, true) })
		}
	case "strings.TrimPrefix", "strings.TrimSuffix":
		if q, ok := a[1].litStr(); ok {
			back := name == "strings.TrimSuffix"
			bad := false
			r := lift(func(x []*Term) *Term {
				if x[0].K != KStr || len(x[0].Kids) == 0 {
					bad = true
					return x[0]
				}
				p := x[0].Kids[0]
				if back {
					p = x[0].Kids[len(x[0].Kids)-1]
				}
				if p.K != KLit || len(p.S) < len(q) {
					bad = true
					return x[0]
				}
				if back && strings.HasSuffix(p.S, q) || !back && strings.HasPrefix(p.S, q) {
					return strCut(x[0], len(q), back)
				}
				return x[0]
			}, strT(a[0]))
			if !bad {
				return r, true
			}
		}
	case "strings.TrimSpace":
		bad := false
		r := lift(func(x []*Term) *Term {
			if x[0].K != KStr || len(x[0].Kids) == 0 {
				bad = true
				return x[0]
			}
			s := x[0]
			for _, back := range []bool{false, true} {
				if len(s.Kids) == 0 {
					break
				}
				p := s.Kids[0]
				if back {
					p = s.Kids[len(s.Kids)-1]
				}
				if p.K != KLit {
					if !solidPart(p) {
						bad = true
					}
					continue
				}
				q := strings.TrimLeft(p.S, " \t\n\v\f\r")
				if back {
					q = strings.TrimRight(p.S, " \t\n\v\f\r")
				}
				if q == "" && len(s.Kids) > 1 {
					bad = true
				}
				s = strCut(s, len(p.S)-len(q), back)
			}
			return s
		}, strT(a[0]))
		if !bad {
			return r, true
		}
	case "strconv.ParseBool":
		ok := true
		r := lift(func(x []*Term) *Term {
			l, lit := x[0].litStr()
			b, err := strconv.ParseBool(l)
			if !lit || err != nil {
				ok = false
				return tFalse
			}
			if b {
				return tTrue
			}
			return tFalse
		}, strT(a[0]))
		if ok {
			return mkTuple(r, tNil), true
		}
	case "strconv.ParseFloat":
		ok := true
		r := lift(func(x []*Term) *Term {
			v, good := parsedNumber(x[0])
			if !good {
				ok = false
				return mkNum(0)
			}
			return v
		}, strT(a[0]))
		if ok {
			return mkTuple(r, tNil), true
		}
	case "bufio.NewScanner":
		o := mkObj(scannerTag+cs.Ctx, it.ks...)
		it.objType[scannerTag+cs.Ctx] = types.Typ[types.Int]
		st.mem[o] = mkNum(0)
		it.scanOf[o] = it.snap(st, a[0], 0)
		return mkPtr(o), true
	case "(*bufio.Scanner).Scan", "(*bufio.Scanner).Text", "(*bufio.Scanner).Err":
		if a[0].K != KPtr || len(a[0].Kids) != 1 {
			return nil, false
		}
		o := a[0].Kids[0]
		src := it.scanOf[o]
		if src == nil {
			return nil, false
		}
		i := it.load(st, o)
		total := mkNumAtom(mkAtom("linecount", nil, true, src))
		switch name[len("(*bufio.Scanner)."):] {
		case "Scan":
			st.mem[o] = numAdd(i, mkNum(1))
			return posB(numSub(total, i), true), true
		case "Text":
			return mkStrParts(mkKAtom(mkAtom("line", types.Typ[types.String], false, src, numSub(i, mkNum(1))))), true
		case "Err":
			return symOf(cs.Res, "scanerr", src), true
		}
	}
	return nil, false
}
