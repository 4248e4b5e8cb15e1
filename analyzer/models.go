package main

// Models of the standard library functions the repository uses.

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var stringSlice = types.NewSlice(types.Typ[types.String])

func absT(x *Term) *Term { return numMinMax("max", x, numNeg(x)) }

func powT(x *Term, n int) *Term {
	r := mkNum(1)
	for i := 0; i < n; i++ {
		r = numMul(r, x)
	}
	return r
}

func (it *Interp) model(fr *Frame, st *State, cs *CallSite) (*Term, bool) {
	a := cs.Args
	if wait, ok := it.prog.parFor[cs.Fn]; ok {
		f := a[0]
		it.emit(&Event{Kind: "parfor", Fn: cs.Fn, In: fr.fn, Pos: cs.Instr.Pos(), Cond: st.cond, Args: a, Ctx: fr.ctx})
		if f.K == KFunc && !wait && len(it.chans) > 0 {
			it.pending = append(it.pending, pendingWork{f, st.cond, cs.Ctx})
			return mkTuple(), true
		}
		if f.K == KFunc {
			// the iterations work(0,n)..work(n-1,n) together are work(0,1) (see C18)
			it.Call(f.Fn, []*Term{mkNum(0), mkNum(1)}, f.Kids, st, cs.Ctx)
			return mkTuple(), true
		}
		return nil, false
	}
	if it.prog.inRepo(cs.Fn) {
		return nil, false
	}
	name := cs.Fn.String()
	if strings.Contains(name, "alecthomas/kingpin") {
		if r, ok := it.kingpinModel(fr, st, cs); ok {
			return r, true
		}
	}
	if r, ok := it.textModel(fr, st, cs, name); ok {
		return r, true
	}
	switch name {
	case "math.Sqrt":
		return numSqrt(a[0]), true
	case "math.Pow":
		if n, ok := a[1].constInt(); ok && n >= 0 && n <= 8 {
			return powT(a[0], int(n)), true
		}
		if r, ok := a[1].constRat(); ok && r.Cmp(big.NewRat(1, 2)) == 0 {
			return numSqrt(a[0]), true
		}
	case "math.Hypot":
		return numSqrt(numAdd(powT(a[0], 2), powT(a[1], 2))), true
	case "math.Sin", "math.Cos":
		return trig(strings.ToLower(name[5:]), a[0]), true
	case "math.Tan", "math.Acos", "math.Asin", "math.Atan", "math.Atan2":
		return numFn(strings.ToLower(name[5:]), a...), true
	case "math.Abs":
		return absT(a[0]), true
	case "math.Max", "math.Min":
		return numMinMax(strings.ToLower(name[5:]), a...), true
	case "math.Floor", "math.Ceil", "math.Trunc":
		return numFn(strings.ToLower(name[5:]), a[0]), true
	case "math.Round":
		return mkIte(posB(numNeg(a[0]), false), numFn("ceil", numSub(a[0], mkRat2(1, 2))), numFn("floor", numAdd(a[0], mkRat2(1, 2)))), true
	case "math.IsNaN", "math.IsInf": // the properties speak about real numbers
		return tFalse, true
	case "math.Mod":
		return numFn("fmod", a...), true
	case "strconv.Itoa":
		return itoa(a[0]), true
	case "strconv.FormatInt":
		if b, ok := a[1].constInt(); ok && b == 10 {
			return itoa(a[0]), true
		}
	case "strconv.FormatFloat":
		f, ok1 := a[1].constInt()
		p, ok2 := a[2].constInt()
		b, ok3 := a[3].constInt()
		if ok1 && ok2 && ok3 {
			return fmtFloat(a[0], byte(f), int(p), int(b)), true
		}
	case "strconv.FormatBool":
		return mkIte(a[0], mkStr("true"), mkStr("false")), true
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		return mkNumAtom(mkAtom("numcpu", nil, true)), true
	case "fmt.Sprintf":
		if r := it.sprintf(fr, st, cs, a[0], a[1]); r != nil {
			return r, true
		}
	case "fmt.Sprint", "fmt.Sprintln":
		if r := it.sprint(fr, st, cs, a[0], name == "fmt.Sprintln"); r != nil {
			return r, true
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		if p := bufPtr(a[0]); p != nil {
			var s *Term
			if name == "fmt.Fprintf" {
				s = it.sprintf(fr, st, cs, a[1], a[2])
			} else {
				s = it.sprint(fr, st, cs, a[1], name == "fmt.Fprintln")
			}
			if s != nil {
				it.bufWrite(fr, st, cs, p, s)
				return symOf(cs.Res, "ext:"+name+"#"+cs.Ctx, it.ks...), true
			}
		}
	case "io.WriteString":
		if p := bufPtr(a[0]); p != nil {
			it.bufWrite(fr, st, cs, p, strT(a[1]))
			return symOf(cs.Res, "ext:"+name+"#"+cs.Ctx, it.ks...), true
		}
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		it.bufWrite(fr, st, cs, a[0], strT(a[1]))
		return mkTuple(strLenT(a[1]), tNil), true
	case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		var s *Term
		if c, ok := a[1].constInt(); ok {
			s = mkStr(string(rune(c)))
		} else {
			s = symOf(types.Typ[types.String], "rune", a[1])
		}
		it.bufWrite(fr, st, cs, a[0], s)
		return symOf(cs.Res, "ext:"+name, it.ks...), true
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		it.bufWrite(fr, st, cs, a[0], it.bytesText(st, a[1]))
		return mkTuple(lenOf(a[1], nil), tNil), true
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return it.bufText(st, a[0]), true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return strLenT(it.bufText(st, a[0])), true
	case "(*bytes.Buffer).Bytes":
		return lift(func(x []*Term) *Term { return symOf(cs.Res, "bytesof", x[0]) }, it.bufText(st, a[0])), true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		it.storePtr(st, a[0], nilSlice, fr.fn, cs.Instr.Pos())
		return mkTuple(), true
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return mkTuple(), true
	case "(*bytes.Buffer).WriteTo":
		if p := bufPtr(a[1]); p != nil {
			it.bufWrite(fr, st, cs, p, it.bufText(st, a[0]))
			it.storePtr(st, a[0], nilSlice, fr.fn, cs.Instr.Pos())
			return symOf(cs.Res, "ext:"+name+"#"+cs.Ctx, it.ks...), true
		}
	case "bytes.NewBuffer", "bytes.NewBufferString":
		o := mkObj(cs.Ctx, it.ks...)
		it.objType[cs.Ctx] = cs.Res.(*types.Pointer).Elem()
		var txt *Term
		if name == "bytes.NewBuffer" {
			if a[0] == nilSlice {
				st.mem[o] = nilSlice
				return mkPtr(o), true
			}
			txt = it.bytesText(st, a[0])
		} else {
			txt = strT(a[0])
		}
		st.mem[o] = nilSlice
		p := mkPtr(o)
		it.bufAppend(st, cs, p, txt)
		return p, true
	case "strings.ReplaceAll":
		if f := it.prog.std("strings", "Replace"); f != nil {
			c2 := *cs
			c2.Fn, c2.Args = f, append(append([]*Term{}, a...), mkNum(-1))
			return it.external(fr, st, &c2), true
		}
	case "strings.Join":
		sep, ok := a[1].litStr()
		q := it.seqOf(st, a[0])
		if ok && q.K == ACat {
			var ps []*Term
			all := true
			for i, e := range q.Kids {
				if e.K != PElem || e.Kids[0].K != KStr {
					all = false
					break
				}
				if i > 0 {
					ps = append(ps, mkLit(sep))
				}
				ps = append(ps, e.Kids[0].Kids...)
			}
			if all {
				return mkStrParts(ps...), true
			}
		}
	case "sort.Slice", "sort.SliceStable":
		v := a[0]
		if v.K == KIface {
			v = v.Kids[0]
		}
		it.emit(&Event{Kind: "sort", Fn: cs.Fn, In: fr.fn, Pos: cs.Instr.Pos(), Cond: st.cond, Args: []*Term{v, a[1]}, Mem: copyMem(st.mem), Ctx: fr.ctx})
		less := a[1]
		it.sortModel(st, v, func(t *State, i, j *Term) *Term {
			if less.K != KFunc || less.Fn == nil || less.Fn.Blocks == nil {
				return nil
			}
			return it.Call(less.Fn, []*Term{i, j}, less.Kids, t, "sort")
		}, nil)
		return mkTuple(), true
	case "sort.Float64s", "sort.Ints", "sort.Strings":
		v := a[0]
		it.emit(&Event{Kind: "sort", Fn: cs.Fn, In: fr.fn, Pos: cs.Instr.Pos(), Cond: st.cond, Args: []*Term{v}, Mem: copyMem(st.mem), Ctx: fr.ctx})
		it.sortModel(st, v, nil, mkStr(name))
		return mkTuple(), true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit":
		it.emit(&Event{Kind: "fatal", Fn: cs.Fn, In: fr.fn, Pos: cs.Instr.Pos(), Cond: st.cond, Args: a, Ctx: fr.ctx, Note: name})
		st.cond = tFalse
		return mkTuple(), true
	}
	return nil, false
}

func strLenT(s *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K == KStr {
			return strLen(x[0])
		}
		return mkNumAtom(mkAtom("len", nil, true, x[0]))
	}, s)
}

func itoa(v *Term) *Term {
	return lift(func(x []*Term) *Term {
		if n, ok := x[0].constInt(); ok {
			return mkStr(strconv.FormatInt(n, 10))
		}
		return mkStrParts(mkKAtom(mkAtom("itoa", types.Typ[types.String], false, x[0])))
	}, v)
}

func fmtFloat(v *Term, f byte, prec, bits int) *Term {
	return lift(func(x []*Term) *Term {
		if r, ok := x[0].constRat(); ok && f == 'f' && prec >= 0 {
			s := r.FloatString(prec)
			return mkStr(s)
		}
		if f == 'f' && prec == 3 && bits == 64 {
			return mkStrParts(mkKAtom(mkAtom("fmt3", types.Typ[types.String], false, x[0])))
		}
		return mkStrParts(mkKAtom(mkAtom("fmt:"+string(rune(f))+strconv.Itoa(prec)+"/"+strconv.Itoa(bits), types.Typ[types.String], false, x[0])))
	}, v)
}

func bufPtr(w *Term) *Term {
	if w.K == KIface {
		s := typeKey(w.Typ)
		if s == "*bytes.Buffer" || s == "*strings.Builder" {
			return w.Kids[0]
		}
	}
	return nil
}

// asBuf: the list of texts in a buffer value
func asBuf(v *Term) *Term {
	return lift(func(x []*Term) *Term {
		switch x[0].K {
		case KSlice:
			return x[0]
		case KAtom:
			if x[0].Atom.Op == "zero" {
				return nilSlice
			}
			return symSlice(mkKAtom(mkAtom("buftext", stringSlice, false, x[0])))
		}
		return nilSlice
	}, v)
}

func (it *Interp) bufWrite(fr *Frame, st *State, cs *CallSite, p, text *Term) {
	if it.cl.Write != nil && it.cl.Write(it, fr, st, cs.Instr.Pos(), p, text) {
		return
	}
	it.bufAppend(st, cs, p, text)
}

func (it *Interp) bufAppend(st *State, cs *CallSite, p, text *Term) {
	cur := it.loadPtr(st, p, nil, 0)
	buf := asBuf(cur)
	seq := it.seqOf(st, buf)
	add := lift(func(x []*Term) *Term {
		if s, ok := x[0].litStr(); ok && s == "" {
			return emptySeq
		}
		return mkCat(mkElem(x[0]))
	}, text)
	n := it.newSlice(st, "buf:"+cs.Ctx, catSeq(seq, add), tFalse, types.Typ[types.String])
	it.storePtr(st, p, n, nil, 0)
}

func (it *Interp) bufText(st *State, p *Term) *Term {
	seq := textSeq(it.seqOf(st, asBuf(it.loadPtr(st, p, nil, 0))))
	return lift(func(x []*Term) *Term {
		if x[0].K != ACat {
			return mkStrParts(mkKAtom(mkAtom("text", types.Typ[types.String], false, x[0])))
		}
		var ps []*Term
		for _, e := range x[0].Kids {
			if e.K == PElem && e.Kids[0].K == KStr {
				ps = append(ps, e.Kids[0].Kids...)
			} else {
				ps = append(ps, mkKAtom(mkAtom("text", types.Typ[types.String], false, mkCat(e))))
			}
		}
		return mkStrParts(ps...)
	}, seq)
}

// textSeq merges neighbouring pieces of text.
func textSeq(s *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != ACat {
			return x[0]
		}
		var out []*Term
		for _, p := range x[0].Kids {
			switch p.K {
			case PElem:
				if n := len(out); n > 0 && out[n-1].K == PElem {
					bad := false
					m := lift(func(y []*Term) *Term {
						if y[0].K != KStr || y[1].K != KStr {
							bad = true
							return y[0]
						}
						return mkStrParts(y[0], y[1])
					}, out[n-1].Kids[0], p.Kids[0])
					if !bad {
						out[n-1] = mkElem(m)
						continue
					}
				}
			case PSeg:
				if p.Kids[0].K == ASym && p.Kids[0].Kids[0].Atom != nil && p.Kids[0].Kids[0].Atom.Op == "zero" {
					continue
				}
			case PFor:
				p = intern(&Term{K: PFor, N: p.N, Kids: []*Term{p.Kids[0], textSeq(p.Kids[1])}})
			}
			out = append(out, p)
		}
		return mkCat(out...)
	}, s)
}

func (it *Interp) bytesText(st *State, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if base := symBase(x[0]); base != nil && (base.Atom.Op == "bytesof" || base.Atom.Op == "conv:[]byte") {
			return base.Atom.Args[0]
		}
		return mkStrParts(mkKAtom(mkAtom("bytes", types.Typ[types.String], false, it.snap(st, x[0], 0))))
	}, b)
}

// sortModel: the sorted list is a symbol of the list and of what the comparison says about the
// elements i and j of any list.
func (it *Interp) sortModel(st *State, v *Term, less func(st *State, i, j *Term) *Term, lit *Term) {
	done := map[*Term]bool{}
	for _, l := range leafConds(v) {
		if l.t.K != KSlice || l.t.Kids[0] == nilObj || done[l.t.Kids[0]] {
			if l.t.K != KSlice && l.t.K != KBot && l.t.K != KNil {
				panic("sort of an unknown list: undecided")
			}
			continue
		}
		obj := l.t.Kids[0]
		done[obj] = true
		cond := tFalse
		var sl *Term
		for _, m := range leafConds(v) {
			if m.t.K != KSlice || m.t.Kids[0] != obj {
				continue
			}
			cond = bOr(cond, m.cond)
			if sl != nil && (sl.Kids[1] != m.t.Kids[1] || sl.Kids[2] != m.t.Kids[2]) {
				// an empty list may have any form
				if c, ok := m.t.Kids[2].constInt(); ok && c == 0 {
					continue
				}
				if c, ok := sl.Kids[2].constInt(); !ok || c != 0 {
					panic("sort of different parts of one list: undecided")
				}
			}
			sl = m.t
		}
		old := it.load(st, obj)
		et := guessElem(old)
		if et == nil {
			if t, ok := it.objType[obj.S]; ok {
				et = elemType(t)
			}
		}
		if et == nil {
			panic("sort: unknown element type: undecided")
		}
		if sl.Kids[1] != mkNum(0) {
			panic("sort of a part of a list: undecided")
		}
		if n, ok := sl.Kids[2].constInt(); ok && n <= 1 {
			continue
		}
		lt := lit
		if less != nil {
			base := mkKAtom(mkAtom("sortbase", types.NewSlice(et), false))
			tmp := &State{mem: copyMem(st.mem), env: st.env, cond: tTrue}
			tmp.mem[obj] = intern(&Term{K: ASym, Kids: []*Term{base}, Typ: et})
			ai, aj := mkAtom("sort:i", types.Typ[types.Int], true), mkAtom("sort:j", types.Typ[types.Int], true)
			ai.NonNeg, aj.NonNeg = true, true
			sink := it.sink
			var ev []*Event
			it.sink = &ev
			lt = less(tmp, mkNumAtom(ai), mkNumAtom(aj))
			it.sink = sink
			if lt == nil {
				panic("sort: unknown comparison: undecided")
			}
		}
		seq := mkSeg(old, mkNum(0), sl.Kids[2])
		if x := permOf(seq); x != nil && less != nil {
			// sorting a permutation of a list that is in strictly rising order gives that list
			tmp := &State{mem: copyMem(st.mem), env: st.env, cond: tTrue}
			tmp.mem[obj] = x
			ai, aj := mkAtom("sort:i", types.Typ[types.Int], true), mkAtom("sort:j", types.Typ[types.Int], true)
			ai.NonNeg, aj.NonNeg = true, true
			i, j, n := mkNumAtom(ai), mkNumAtom(aj), seqLen(x)
			sink := it.sink
			var ev []*Event
			it.sink = &ev
			r := less(tmp, i, j)
			it.sink = sink
			if r != nil && eqUnder(r, cmpLT(i, j, true), bAnd(cmpLT(i, n, true), cmpLT(j, n, true))) {
				st.mem[obj] = mkIte(cond, x, old)
				continue
			}
		}
		sorted := mkKAtom(mkAtom("sorted", types.NewSlice(et), false, seq, lt))
		arr := intern(&Term{K: ASym, Kids: []*Term{sorted}, Typ: et})
		st.mem[obj] = mkIte(cond, mkCat(intern(&Term{K: PSeg, Kids: []*Term{arr, mkNum(0), sl.Kids[2]}})), old)
	}
}

func (it *Interp) varargs(st *State, v *Term) []*Term {
	q := it.seqOf(st, v)
	if q.K != ACat {
		return nil
	}
	out := []*Term{}
	for _, p := range q.Kids {
		if p.K != PElem {
			return nil
		}
		out = append(out, p.Kids[0])
	}
	return out
}

func (it *Interp) sprint(fr *Frame, st *State, cs *CallSite, args *Term, ln bool) *Term {
	vs := it.varargs(st, args)
	if vs == nil {
		return nil
	}
	r := mkStr("")
	for i, v := range vs {
		if i > 0 && (ln || !isStrIface(v) && !isStrIface(vs[i-1])) {
			r = catStr(r, mkStr(" "))
		}
		r = catStr(r, it.fmtVerb(fr, st, cs, 'v', "", v))
	}
	if ln {
		r = catStr(r, mkStr("\n"))
	}
	return r
}
func isStrIface(v *Term) bool {
	return v.K == KIface && v.Typ != nil && types.Identical(v.Typ.Underlying(), types.Typ[types.String])
}
func catStr(a, b *Term) *Term {
	return lift(func(x []*Term) *Term { return mkStrParts(x[0], x[1]) }, strT(a), strT(b))
}

func (it *Interp) sprintf(fr *Frame, st *State, cs *CallSite, format, args *Term) *Term {
	f, ok := format.litStr()
	if !ok {
		return nil
	}
	vs := it.varargs(st, args)
	if vs == nil {
		return nil
	}
	r := mkStr("")
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			r = catStr(r, mkStr(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil
		}
		if f[j] == '%' {
			r = catStr(r, mkStr("%"))
			i = j
			continue
		}
		if n >= len(vs) {
			r = catStr(r, mkStr("%!"+string(f[j])+"(MISSING)"))
			i = j
			continue
		}
		r = catStr(r, it.fmtVerb(fr, st, cs, f[j], f[i+1:j], vs[n]))
		n++
		i = j
	}
	if n < len(vs) {
		r = catStr(r, mkStr("%!(EXTRA)"))
	}
	return r
}

func (it *Interp) fmtVerb(fr *Frame, st *State, cs *CallSite, verb byte, flags string, v *Term) *Term {
	if v.K == KIte {
		c := mkVarB(v.Var)
		return mkIte(c, it.fmtVerb(fr, st, cs, verb, flags, v.Kids[0]), it.fmtVerb(fr, st, cs, verb, flags, v.Kids[1]))
	}
	opq := func(x *Term) *Term {
		return mkStrParts(mkKAtom(mkAtom("fmt%"+flags+string(rune(verb)), types.Typ[types.String], false, it.snap(st, x, 0))))
	}
	if v.K != KIface {
		return opq(v)
	}
	val, t := v.Kids[0], v.Typ
	if flags == "" && (verb == 's' || verb == 'v') {
		// String method
		if sel := it.prog.ssa.MethodSets.MethodSet(t).Lookup(nil, "String"); sel != nil {
			if fn := it.prog.ssa.MethodValue(sel); fn != nil && fn.Blocks != nil && it.prog.inRepo(fn) {
				return strT(it.callFn(fr, st, cs.Instr, fn, []*Term{val}, nil))
			}
		}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return opq(v)
	}
	switch {
	case b.Info()&types.IsString != 0 && flags == "" && (verb == 's' || verb == 'v'):
		return strT(val)
	case b.Info()&types.IsInteger != 0 && flags == "" && (verb == 'd' || verb == 'v'):
		return itoa(val)
	case b.Info()&types.IsBoolean != 0 && flags == "" && (verb == 't' || verb == 'v'):
		return mkIte(val, mkStr("true"), mkStr("false"))
	case b.Info()&types.IsFloat != 0 && verb == 'f':
		p := 6
		if strings.HasPrefix(flags, ".") {
			if n, err := strconv.Atoi(flags[1:]); err == nil {
				p = n
			} else {
				return opq(v)
			}
		} else if flags != "" {
			return opq(v)
		}
		return fmtFloat(val, 'f', p, 64)
	}
	return opq(v)
}

// havoc forgets what pointer arguments of an external function point to.
func (it *Interp) havoc(st *State, cs *CallSite, name string) {
	for i, a := range cs.Args {
		v := a
		if v.K == KIface {
			v = v.Kids[0]
		}
		if v.K == KPtr && len(v.Kids) >= 1 {
			o := v.Kids[0]
			if o.S == "" || strings.HasPrefix(o.S, "ghost:") {
				continue
			}
			t := it.objType[o.S]
			if t == nil {
				continue
			}
			if _, isBuf := t.(*types.Named); isBuf && !isRepoType(t) {
				continue // library objects are handled by their own calls
			}
			st.mem[o] = symOf(t, "filled"+strconv.Itoa(i)+":"+cs.Ctx+":"+name, it.ks...)
		}
	}
}

var _ = ssa.NewProgram
