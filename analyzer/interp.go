package main

// Abstract interpretation of SSA: gated value numbering with object memory.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Kind string
	Fn   *ssa.Function // callee, if any
	In   *ssa.Function
	Pos  token.Pos
	Cond *Term
	Args []*Term
	Res  *Term
	Mem  map[*Term]*Term
	Note string
	Loop *LoopInfo
	Sub  []*Event
	Ctx  string
	Line *GLine
}

type LoopInfo struct {
	K     *Atom
	N     *Term // trip count of the header exit, nil if unknown
	Early bool
	Syms  []*LSym
	Entry *State
	Fn    *ssa.Function
	Hdr   *ssa.BasicBlock
	Care  *Term
}

type State struct {
	mem  map[*Term]*Term
	env  map[ssa.Value]*Term
	cond *Term
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)), env: make(map[ssa.Value]*Term, len(s.env)), cond: s.cond}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type Edge struct {
	from, to *ssa.BasicBlock
	st       *State
	ret      *Term // for returns (to == nil)
}

type Frame struct {
	fn    *ssa.Function
	ctx   string
	info  *FnInfo
	depth int
}

type Client struct {
	// Opaque says whether a repository function is kept as an uninterpreted function.
	Opaque func(fn *ssa.Function) bool
	// Call may intercept any static call.
	Call func(it *Interp, fr *Frame, st *State, c *CallSite) (*Term, bool)
	// Write is told about text written to a buffer.
	Write func(it *Interp, fr *Frame, st *State, pos token.Pos, buf, text *Term) bool
	// NoMu leaves loop symbols without closed form as they are.
	NoMu bool
	// SiteFree names results of library calls and map iterations by their arguments alone.
	SiteFree bool
	// Unroll is the number of rounds a loop that certainly runs is unrolled for.
	Stages bool // values without a closed form one dependency level at a time
	Unroll int
	// AfterDispatch is told when one implementation of a dynamic call returned.
	AfterDispatch  func(it *Interp, st *State, impl *ssa.Function, recv *Term, res *Term, pos token.Pos)
	BeforeDispatch func(it *Interp, st *State, impl *ssa.Function, recv *Term, pos token.Pos)
}

type CallSite struct {
	Fn    *ssa.Function
	Args  []*Term
	Instr ssa.CallInstruction
	Ctx   string
	Res   types.Type
}

type famEntry struct {
	formals []*Term
	content *Term
}

type Interp struct {
	prog        *Program
	cl          Client
	sink        *[]*Event
	fam         map[string]famEntry
	ks          []*Term
	objType     map[string]types.Type
	scanOf      map[*Term]*Term // bufio.Scanner object: what it reads
	notes       []string
	lsyms       map[*Term]*LSym // term -> loop symbol
	depth       int
	stack       []*ssa.Function
	fresh       int
	Visited     map[*ssa.Function]bool
	Loops       int
	chans       map[*Term]types.Type // channel object: element type
	chanCap     map[*Term]*Term
	untilClosed map[*Term]bool // received from until closed
	pending     []pendingWork
}

func newInterp(p *Program, cl Client) *Interp {
	ev := []*Event{}
	return &Interp{prog: p, cl: cl, sink: &ev, fam: map[string]famEntry{}, objType: map[string]types.Type{}, scanOf: map[*Term]*Term{},
		lsyms: map[*Term]*LSym{}, Visited: map[*ssa.Function]bool{}, chans: map[*Term]types.Type{}, chanCap: map[*Term]*Term{}, untilClosed: map[*Term]bool{}}
}

func (it *Interp) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, n := range it.notes {
		if n == s {
			return
		}
	}
	it.notes = append(it.notes, s)
}

func (it *Interp) emit(e *Event) { *it.sink = append(*it.sink, e) }

// ---------- memory

func (it *Interp) load(st *State, obj *Term) *Term {
	if v, ok := st.mem[obj]; ok {
		return v
	}
	if f, ok := it.fam[obj.S]; ok && len(f.formals) == len(obj.Kids) {
		m := map[*Atom]Sub{}
		for i, fm := range f.formals {
			if a := singleAtomT(fm); a != nil && fm != obj.Kids[i] {
				m[a] = Sub{Val: obj.Kids[i]}
			}
		}
		return subst(f.content, m)
	}
	switch obj.S {
	case "sym":
		b := obj.Kids[0]
		return intern(&Term{K: ASym, Kids: []*Term{b}, Typ: elemType(b.Atom.Typ)})
	case "deref":
		p := obj.Kids[0]
		var et types.Type
		if p.Atom != nil && p.Atom.Typ != nil {
			if pt, ok := p.Atom.Typ.Underlying().(*types.Pointer); ok {
				et = pt.Elem()
			}
		}
		if et == nil {
			return tBot
		}
		return symOf(et, "deref", p)
	}
	if v, ok := it.prog.globalInit[obj]; ok {
		return v
	}
	if strings.HasPrefix(obj.S, "g:") {
		return symOf(it.objType[obj.S], obj.S)
	}
	return tBot
}

func singleAtomT(t *Term) *Atom {
	if t.K == KNum {
		return singleAtom(t.Poly)
	}
	return nil
}

func loadPath(c *Term, path []*Term) *Term {
	for _, p := range path {
		c = step(c, p)
	}
	return c
}

func step(c, p *Term) *Term {
	if c.K == KIte && p.K == KField {
		return mkIte(mkVarB(c.Var), step(c.Kids[0], p), step(c.Kids[1], p))
	}
	if p.K == KField {
		switch c.K {
		case KStruct:
			return c.Kids[p.N-1]
		case KAtom:
			if stt, ok := c.Atom.Typ.Underlying().(*types.Struct); ok {
				f := stt.Field(p.N - 1)
				return symOf(f.Type(), fieldOp(c.Atom.Typ, stt, p.N-1), c)
			}
		}
		return tBot
	}
	et := arrElemType(c)
	if et == nil {
		et = guessElem(c)
	}
	if et == nil {
		return tBot
	}
	return selectArr(c, p, et)
}

func guessElem(c *Term) types.Type {
	switch c.K {
	case ACat:
		for _, p := range c.Kids {
			switch p.K {
			case PElem:
				if t := typeOfTerm(p.Kids[0]); t != nil {
					return t
				}
			case PSeg:
				if t := arrElemType(p.Kids[0]); t != nil {
					return t
				}
				if t := guessElem(p.Kids[0]); t != nil {
					return t
				}
			case PFor:
				if t := guessElem(p.Kids[1]); t != nil {
					return t
				}
			}
		}
	case KIte:
		if t := guessElem(c.Kids[0]); t != nil {
			return t
		}
		return guessElem(c.Kids[1])
	case AStore, AMap:
		return guessElem(c.Kids[0])
	case AZero, ASym:
		return c.Typ
	}
	return nil
}

func typeOfTerm(t *Term) types.Type {
	switch t.K {
	case KStruct:
		return t.Typ
	case KIface:
		return types.NewInterfaceType(nil, nil)
	case KAtom:
		return t.Atom.Typ
	case KNum:
		if polyInt(t.Poly) {
			return types.Typ[types.Int]
		}
		return types.Typ[types.Float64]
	case KTrue, KFalse:
		return types.Typ[types.Bool]
	case KStr:
		return types.Typ[types.String]
	case KIte:
		if x := typeOfTerm(t.Kids[0]); x != nil {
			return x
		}
		return typeOfTerm(t.Kids[1])
	}
	return nil
}

func storePath(c *Term, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	if c.K == KIte {
		return mkIte(mkVarB(c.Var), storePath(c.Kids[0], path, v), storePath(c.Kids[1], path, v))
	}
	p := path[0]
	if p.K == KField {
		if c.K != KStruct {
			return tBot
		}
		fs := append([]*Term{}, c.Kids...)
		fs[p.N-1] = storePath(fs[p.N-1], path[1:], v)
		return mkStruct(c.Typ, fs...)
	}
	var nv *Term
	if len(path) == 1 {
		nv = v
	} else {
		nv = storePath(step(c, p), path[1:], v)
	}
	return arrStore(c, p, nv)
}

func arrStore(c, idx, v *Term) *Term {
	return lift(func(x []*Term) *Term {
		c, idx := x[0], x[1]
		if c.K == ACat {
			if n, ok := idx.constInt(); ok && int(n) < len(c.Kids) {
				all := true
				for i := 0; i <= int(n); i++ {
					if c.Kids[i].K != PElem {
						all = false
					}
				}
				if all {
					ks := append([]*Term{}, c.Kids...)
					ks[n] = mkElem(v)
					return intern(&Term{K: ACat, Kids: ks})
				}
			}
		}
		if c.K == AStore && c.Kids[1] == idx {
			return intern(&Term{K: AStore, Kids: []*Term{c.Kids[0], idx, v}})
		}
		if c.K == AStore {
			if _, o1 := c.Kids[1].constInt(); o1 {
				if _, o2 := idx.constInt(); o2 && idx.ID < c.Kids[1].ID {
					inner := arrStore(c.Kids[0], idx, v)
					return intern(&Term{K: AStore, Kids: []*Term{inner, c.Kids[1], c.Kids[2]}})
				}
			}
		}
		return intern(&Term{K: AStore, Kids: []*Term{c, idx, v}})
	}, c, idx)
}

// loadPtr reads through a pointer value.
func (it *Interp) loadPtr(st *State, p *Term, in *ssa.Function, pos token.Pos) *Term {
	if p.K == KIte {
		c := mkVarB(p.Var)
		return mkIte(c, it.loadPtrC(st, p.Kids[0], bAnd(st.cond, c), in, pos), it.loadPtrC(st, p.Kids[1], bAnd(st.cond, bNot(c)), in, pos))
	}
	return it.loadPtrC(st, p, st.cond, in, pos)
}
func (it *Interp) loadPtrC(st *State, p, cond *Term, in *ssa.Function, pos token.Pos) *Term {
	switch p.K {
	case KIte:
		c := mkVarB(p.Var)
		return mkIte(c, it.loadPtrC(st, p.Kids[0], bAnd(cond, c), in, pos), it.loadPtrC(st, p.Kids[1], bAnd(cond, bNot(c)), in, pos))
	case KPtr:
		c := it.load(st, p.Kids[0])
		if p.Kids[0].S == "deref" {
			it.derefCheck(p.Kids[0].Kids[0], cond, in, pos)
		}
		return loadPath(c, p.Kids[1:])
	case KAtom:
		it.derefCheck(p, cond, in, pos)
		return it.load(st, mkObj("deref", p))
	case KNil, KBot:
		it.derefCheck(p, cond, in, pos)
		return tBot
	}
	return tBot
}

func (it *Interp) derefCheck(p, cond *Term, in *ssa.Function, pos token.Pos) {
	if cond.K == KFalse {
		return
	}
	it.emit(&Event{Kind: "deref", In: in, Pos: pos, Cond: cond, Args: []*Term{p}})
}

func (it *Interp) storePtr(st *State, p, v *Term, in *ssa.Function, pos token.Pos) {
	var rec func(p, cond *Term)
	rec = func(p, cond *Term) {
		if cond.K == KFalse {
			return
		}
		switch p.K {
		case KIte:
			c := mkVarB(p.Var)
			rec(p.Kids[0], bAnd(cond, c))
			rec(p.Kids[1], bAnd(cond, bNot(c)))
		case KPtr, KAtom:
			obj := mkObj("deref", p)
			var path []*Term
			if p.K == KPtr {
				obj, path = p.Kids[0], p.Kids[1:]
			} else {
				it.derefCheck(p, bAnd(st.cond, cond), in, pos)
			}
			old := it.load(st, obj)
			nw := storePath(old, path, v)
			st.mem[obj] = mkIte(cond, nw, old)
		case KNil, KBot:
			it.derefCheck(p, bAnd(st.cond, cond), in, pos)
		}
	}
	rec(p, tTrue)
}

// sequence of a slice value
func (it *Interp) seqOf(st *State, s *Term) *Term {
	return lift(func(x []*Term) *Term {
		s := x[0]
		switch s.K {
		case KSlice:
			if s.Kids[0] == nilObj {
				return emptySeq
			}
			return mkSeg(it.load(st, s.Kids[0]), s.Kids[1], s.Kids[2])
		case KStr:
			return mkCat(intern(&Term{K: PSeg, Kids: []*Term{s, mkNum(0), strLen(s)}}))
		case KNil:
			return emptySeq
		case KAtom:
			return mkCat(intern(&Term{K: PSeg, Kids: []*Term{intern(&Term{K: ASym, Kids: []*Term{s}}), mkNum(0), lenAtom(s)}}))
		}
		return tBot
	}, s)
}

// newSlice makes a fresh slice object with the given content
func (it *Interp) newSlice(st *State, name string, seq *Term, isnil *Term, et types.Type) *Term {
	obj := mkObj(name, it.ks...)
	if et != nil {
		it.objType[name] = types.NewSlice(et)
	}
	st.mem[obj] = seq
	return mkSliceL(obj, mkNum(0), seqLen(seq), isnil)
}

// snap replaces memory references by their contents (for arguments of uninterpreted functions).
func (it *Interp) snap(st *State, v *Term, depth int) *Term {
	if depth > 6 {
		return v
	}
	switch v.K {
	case KIte:
		return mkIte(mkVarB(v.Var), it.snap(st, v.Kids[0], depth), it.snap(st, v.Kids[1], depth))
	case KStruct, KTuple:
		fs := make([]*Term, len(v.Kids))
		for i, k := range v.Kids {
			fs[i] = it.snap(st, k, depth+1)
		}
		return intern(&Term{K: v.K, Typ: v.Typ, Kids: fs})
	case KSlice:
		return lift(func(x []*Term) *Term { return intern(&Term{K: KSnap, Kids: x}) }, it.snapSeq(st, it.seqOf(st, v), depth+1))
	case KPtr:
		c := loadPath(it.load(st, v.Kids[0]), v.Kids[1:])
		return intern(&Term{K: KSnapPtr, Kids: []*Term{it.snap(st, c, depth+1)}})
	case KAtom:
		if v.Atom.Op == "elem" && v.Atom.Args[0].K == ACat && v.Atom.Typ != nil {
			if s := it.snapSeq(st, v.Atom.Args[0], depth+1); s != v.Atom.Args[0] {
				return selectArr(s, v.Atom.Args[1], v.Atom.Typ)
			}
		}
		if v.Atom.Typ != nil {
			if _, ok := v.Atom.Typ.Underlying().(*types.Pointer); ok {
				o := mkObj("deref", v)
				init := symOfDeref(v)
				c, ok := st.mem[o]
				if ok && c != init {
					return intern(&Term{K: KSnapPtr, Kids: []*Term{it.snap(st, c, depth+1)}})
				}
				if len(st.mem) > 0 && init.K == KStruct && depth <= 4 {
					// what it reaches may have changed
					s := it.snap(st, init, depth+1)
					if s != it.snap(&State{mem: map[*Term]*Term{}}, init, depth+1) {
						return intern(&Term{K: KSnapPtr, Kids: []*Term{s}})
					}
				}
			}
		}
		return v
	case KIface:
		return intern(&Term{K: KIface, Typ: v.Typ, Kids: []*Term{it.snap(st, v.Kids[0], depth+1)}})
	case KFunc:
		return v
	case KMap:
		return it.snapMap(st, v, depth)
	}
	return v
}

// snapMap: entries in key order (later updates of a key win) when all keys are literal texts.
func (it *Interp) snapMap(st *State, v *Term, depth int) *Term {
	m := map[string]*Term{}
	var keys []string
	for i := 0; i+1 < len(v.Kids); i += 2 {
		k, ok := v.Kids[i].litStr()
		if !ok {
			return v
		}
		if _, ok := m[k]; !ok {
			keys = append(keys, k)
		}
		m[k] = it.snap(st, v.Kids[i+1], depth+1)
	}
	sort.Strings(keys)
	var ks []*Term
	for _, k := range keys {
		ks = append(ks, mkStr(k), m[k])
	}
	return intern(&Term{K: KMap, Kids: ks})
}

func symOfDeref(p *Term) *Term {
	pt := p.Atom.Typ.Underlying().(*types.Pointer)
	return symOf(pt.Elem(), "deref", p)
}
func (it *Interp) snapSeq(st *State, s *Term, depth int) *Term {
	if depth > 6 {
		return s
	}
	return lift(func(x []*Term) *Term {
		if x[0].K != ACat {
			return x[0]
		}
		var out []*Term
		for _, p := range x[0].Kids {
			switch p.K {
			case PElem:
				out = append(out, mkElem(it.snap(st, p.Kids[0], depth+1)))
			case PFor:
				// contents built per iteration may refer to per-iteration objects
				out = append(out, intern(&Term{K: PFor, N: p.N, Kids: []*Term{p.Kids[0], it.snapSeq(st, p.Kids[1], depth+1)}}))
			default:
				out = append(out, p)
			}
		}
		return mkCat(out...)
	}, s)
}

// ---------- constants

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
			return mkRat(new(big.Rat).SetInt(i))
		}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return floatConst(f)
	}
	return tBot
}

func floatConst(f float64) *Term {
	if f == 0 {
		return mkNum(0)
	}
	// multiples of pi
	q := f / math.Pi * 720
	r := math.Round(q)
	if r != 0 && math.Abs(r) < 1e6 && math.Abs(q-r) < 1e-11*math.Abs(q) {
		return numMul(mkRat2(int64(r), 720), piT)
	}
	// multiples of 1/pi
	q = f * math.Pi
	r = math.Round(q)
	if r != 0 && math.Abs(r) < 1e6 && math.Abs(q-r) < 1e-13*math.Abs(q) && f != math.Trunc(f) {
		return numDiv(mkNum(int64(r)), piT)
	}
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if x, ok := new(big.Rat).SetString(s); ok {
		return mkRat(x)
	}
	return tBot
}

// ---------- running

func (it *Interp) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mkPtr(it.globalObj(x))
	case *ssa.Function:
		return intern(&Term{K: KFunc, Fn: x})
	case *ssa.Builtin:
		return tBot
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	return tBot
}

func (it *Interp) globalObj(g *ssa.Global) *Term {
	name := "g:" + g.Pkg.Pkg.Path() + "." + g.Name()
	it.objType[name] = g.Type().(*types.Pointer).Elem()
	return mkObj(name)
}

// Call runs a function on argument values; st supplies memory and condition and is updated.
func (it *Interp) Call(fn *ssa.Function, args, binds []*Term, st *State, ctx string) *Term {
	if len(it.stack) > 60 {
		it.note("call depth exceeded in %s", fn)
		return it.opaqueCall(fn, args, st, fn.Pos(), nil)
	}
	it.Visited[fn] = true
	it.stack = append(it.stack, fn)
	defer func() { it.stack = it.stack[:len(it.stack)-1] }()
	fr := &Frame{fn: fn, ctx: ctx + "/" + fn.String(), info: it.prog.fnInfo(fn), depth: len(it.stack)}
	in := &State{mem: st.mem, env: map[ssa.Value]*Term{}, cond: st.cond}
	in = in.clone()
	for i, p := range fn.Params {
		if i < len(args) {
			in.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			in.env[p] = binds[i]
		}
	}
	_, exits := it.execRegion(fr, nil, fn.Blocks[0], []Edge{{nil, fn.Blocks[0], in, nil}}, nil)
	if len(exits) == 0 {
		st.cond = tFalse
		return tBot
	}
	total := tFalse
	for _, e := range exits {
		total = bOr(total, e.st.cond)
	}
	res := exits[len(exits)-1].ret
	mem := exits[len(exits)-1].st.mem
	for i := len(exits) - 2; i >= 0; i-- {
		c := restrict(exits[i].st.cond, total)
		res = mergeVal(c, exits[i].ret, res)
		mem = it.mergeMem(c, exits[i].st.mem, mem)
	}
	res = simp(restrict(res, total))
	st.mem = mem
	if total.K != KFalse {
		st.cond = total
	} else {
		st.cond = tFalse
	}
	return res
}

func (it *Interp) mergeMem(c *Term, a, b map[*Term]*Term) map[*Term]*Term {
	out := make(map[*Term]*Term, len(b))
	for k, v := range b {
		out[k] = v
	}
	for k, v := range a {
		w, ok := b[k]
		if ok {
			if w != v {
				out[k] = mergeVal(c, v, w)
			}
			continue
		}
		if isInitial(k) {
			w = it.load(&State{mem: b}, k)
			out[k] = mergeVal(c, v, w)
			continue
		}
		out[k] = v
	}
	for k, w := range b {
		if _, ok := a[k]; !ok && isInitial(k) {
			v := it.load(&State{mem: a}, k)
			out[k] = mergeVal(c, v, w)
		}
	}
	return out
}

// mergeVal joins two values; one that equals the other wherever it applies is replaced by it.
func mergeVal(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if (a.K == KStruct || a.K == KTuple) && a.K == b.K && len(a.Kids) == len(b.Kids) {
		fs := make([]*Term, len(a.Kids))
		for i := range fs {
			fs[i] = mergeVal(c, a.Kids[i], b.Kids[i])
		}
		return intern(&Term{K: a.K, Typ: a.Typ, Kids: fs})
	}
	if c.K == KIte && leafKind(a) == KNum && leafKind(b) == KNum && mentionsCmp(c) {
		if eqUnder(a, b, c) {
			return b
		}
		if eqUnder(a, b, bNot(c)) {
			return a
		}
	}
	return mkIte(c, a, b)
}

// mentionsCmp: the condition compares numbers
func mentionsCmp(c *Term) bool {
	for _, v := range topVars(c) {
		if v.Op == "pos" || v.Op == "neg" {
			return true
		}
	}
	return false
}

// isInitial: objects that exist before the analysed code runs
func isInitial(o *Term) bool {
	return o.S == "sym" || o.S == "deref" || strings.HasPrefix(o.S, "g:") || strings.HasPrefix(o.S, "ghost:")
}

func (it *Interp) mergeEdges(b *ssa.BasicBlock, edges []Edge) *State {
	// drop dead edges
	var live []Edge
	for _, e := range edges {
		if e.st.cond.K != KFalse {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return nil
	}
	total := tFalse
	for _, e := range live {
		total = bOr(total, e.st.cond)
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	phiVal := func(e Edge, p *ssa.Phi) *Term {
		for i, pr := range b.Preds {
			if pr == e.from {
				return it.val(e.st, p.Edges[i])
			}
		}
		return tBot
	}
	last := live[len(live)-1]
	if len(live) == 1 {
		st := last.st.clone()
		for _, p := range phis {
			st.env[p] = phiVal(last, p)
		}
		return st
	}
	st := &State{cond: total}
	pv := make([]*Term, len(phis))
	for i, p := range phis {
		pv[i] = phiVal(last, p)
	}
	mem := last.st.mem
	env := make(map[ssa.Value]*Term, len(last.st.env))
	for k, v := range last.st.env {
		env[k] = v
	}
	for i := len(live) - 2; i >= 0; i-- {
		e := live[i]
		c := restrict(e.st.cond, total)
		for j, p := range phis {
			pv[j] = mergeVal(c, phiVal(e, p), pv[j])
		}
		mem = it.mergeMem(c, e.st.mem, mem)
		for k, v := range e.st.env {
			if w, ok := env[k]; ok {
				if w != v {
					env[k] = mergeVal(c, v, w)
				}
			} else {
				env[k] = v
			}
		}
	}
	for i, p := range phis {
		env[p] = simp(restrict(pv[i], total))
	}
	out := make(map[*Term]*Term, len(mem))
	for k, v := range mem {
		out[k] = v
	}
	st.mem, st.env = out, env
	return st
}

// execRegion interprets a region (whole function or loop body) in topological order.
func (it *Interp) execRegion(fr *Frame, lp *Loop, entry *ssa.BasicBlock, in []Edge, hdrState *State) (backs, exits []Edge) {
	pending := map[*ssa.BasicBlock][]Edge{entry: in}
	route := func(e Edge) {
		if e.to == nil {
			exits = append(exits, e)
			return
		}
		if lp != nil {
			if e.to == lp.hdr {
				backs = append(backs, e)
				return
			}
			if !lp.blocks[e.to] {
				exits = append(exits, e)
				return
			}
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, b := range fr.info.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		inner := fr.info.loopOf[b] // innermost loop
		if inner != lp {
			// find the child of lp containing b
			ch := inner
			for ch != nil && ch.parent != lp {
				ch = ch.parent
			}
			if ch == nil {
				continue
			}
			if b != ch.hdr {
				continue
			}
			if len(pending[b]) == 0 {
				continue
			}
			for _, e := range it.execLoop(fr, ch, pending[b]) {
				route(e)
			}
			continue
		}
		var st *State
		if hdrState != nil && b == entry {
			st = hdrState.clone()
		} else {
			if len(pending[b]) == 0 {
				continue
			}
			st = it.mergeEdges(b, pending[b])
		}
		if st == nil || st.cond.K == KFalse {
			continue
		}
		for _, e := range it.execBlock(fr, b, st) {
			if e.st.cond.K != KFalse {
				route(e)
			}
		}
	}
	return
}

func (it *Interp) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []Edge {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := restrict(it.val(st, x.Cond), st.cond)
			c = simp(c)
			t, f := st.clone(), st
			t.cond = bAnd(st.cond, c)
			f.cond = bAnd(st.cond, bNot(c))
			if t.cond.K != KFalse && unsat(t.cond) {
				t.cond = tFalse
			}
			if f.cond.K != KFalse && unsat(f.cond) {
				f.cond = tFalse
			}
			if b.Succs[0] == b.Succs[1] {
				f.cond = bOr(t.cond, f.cond)
				return []Edge{{b, b.Succs[0], f, nil}}
			}
			return []Edge{{b, b.Succs[0], t, nil}, {b, b.Succs[1], f, nil}}
		case *ssa.Jump:
			return []Edge{{b, b.Succs[0], st, nil}}
		case *ssa.Return:
			var r *Term
			switch len(x.Results) {
			case 0:
				r = mkTuple()
			case 1:
				r = it.val(st, x.Results[0])
			default:
				var rs []*Term
				for _, v := range x.Results {
					rs = append(rs, it.val(st, v))
				}
				r = mkTuple(rs...)
			}
			return []Edge{{b, nil, st, r}}
		case *ssa.Panic:
			it.emit(&Event{Kind: "panic", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{it.val(st, x.X)}, Ctx: fr.ctx})
			return nil
		default:
			it.execInstr(fr, st, in)
			if st.cond.K == KFalse {
				return nil
			}
		}
	}
	return nil
}

func (it *Interp) siteName(fr *Frame, in ssa.Instruction) string {
	return fr.ctx + "." + strconv.Itoa(fr.info.idx[in])
}

func (it *Interp) execInstr(fr *Frame, st *State, in ssa.Instruction) {
	set := func(v ssa.Value, t *Term) {
		if t == nil {
			t = tBot
		}
		st.env[v] = t
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		name := it.siteName(fr, x)
		et := x.Type().Underlying().(*types.Pointer).Elem()
		it.objType[name] = et
		o := mkObj(name, it.ks...)
		st.mem[o] = zeroVal(et)
		set(x, mkPtr(o))
	case *ssa.Store:
		it.storePtr(st, it.val(st, x.Addr), it.val(st, x.Val), fr.fn, x.Pos())
	case *ssa.UnOp:
		v := it.val(st, x.X)
		switch x.Op {
		case token.MUL:
			r := it.loadPtr(st, v, fr.fn, x.Pos())
			if r.K == KIte || r.K == KStruct {
				r = restrict(r, st.cond)
			}
			if isNilableBot(r) {
				r = symOf(x.Type(), "bot")
			}
			set(x, r)
		case token.SUB:
			set(x, numNeg(v))
		case token.NOT:
			set(x, bNot(v))
		case token.ARROW:
			if r := it.recv(fr, st, x, v); r != nil {
				set(x, r)
				break
			}
			it.fresh++
			a := symOf(x.Type(), "recv:"+it.siteName(fr, x), it.ks...)
			it.emit(&Event{Kind: "recv", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{v}, Res: a, Ctx: fr.ctx})
			set(x, a)
		default:
			set(x, symOf(x.Type(), "unop"+x.Op.String(), v))
		}
	case *ssa.BinOp:
		set(x, it.binop(x.Op, it.val(st, x.X), it.val(st, x.Y), x.X.Type(), x.Type()))
	case *ssa.FieldAddr:
		set(x, addrStep(it.val(st, x.X), mkFieldIdx(x.Field)))
	case *ssa.Field:
		set(x, step(it.val(st, x.X), mkFieldIdx(x.Field)))
	case *ssa.IndexAddr:
		base, idx := it.val(st, x.X), it.val(st, x.Index)
		it.emit(&Event{Kind: "index", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{lenOf(base, x.X.Type()), idx}, Ctx: fr.ctx})
		set(x, lift(func(t []*Term) *Term {
			switch t[0].K {
			case KSlice:
				if t[0].Kids[0] == nilObj {
					return tBot
				}
				return mkPtr(t[0].Kids[0], numAdd(t[0].Kids[1], t[1]))
			case KPtr, KAtom:
				return addrStep(t[0], t[1])
			}
			return tBot
		}, base, idx))
	case *ssa.Index:
		v, idx := it.val(st, x.X), it.val(st, x.Index)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			it.emit(&Event{Kind: "index", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{lenOf(v, x.X.Type()), idx}, Ctx: fr.ctx})
			set(x, byteAtT(x.Type(), strVal(v), idx))
		} else {
			set(x, selectArr(v, idx, x.Type()))
		}
	case *ssa.Slice:
		set(x, it.sliceOp(fr, st, x))
	case *ssa.MakeSlice:
		ln := it.val(st, x.Len)
		if !isLenCall(x.Len) {
			ln = numMinMax("max", mkNum(0), ln) // a negative length panics
		}
		name := it.siteName(fr, x)
		et := elemType(x.Type())
		it.objType[name] = x.Type()
		o := mkObj(name, it.ks...)
		st.mem[o] = aZero(et)
		set(x, mkSliceL(o, mkNum(0), ln, tFalse))
	case *ssa.MakeMap:
		name := it.siteName(fr, x)
		o := mkObj(name, it.ks...)
		it.objType[name] = x.Type()
		st.mem[o] = intern(&Term{K: KMap})
		set(x, mkPtr(o))
	case *ssa.MapUpdate:
		m := it.val(st, x.Map)
		if m.K != KPtr || len(m.Kids) != 1 {
			panic("a map the analysis cannot follow is changed in " + fr.fn.String())
		}
		k, v := it.val(st, x.Key), it.val(st, x.Value)
		st.mem[m.Kids[0]] = lift(func(c []*Term) *Term {
			if c[0].K == KMap {
				return intern(&Term{K: KMap, Kids: append(append([]*Term{}, c[0].Kids...), k, v)})
			}
			return symOf(x.Map.Type(), "mapset", c[0], k, v)
		}, it.load(st, m.Kids[0]))
	case *ssa.MakeChan:
		name := it.siteName(fr, x)
		it.emit(&Event{Kind: "makechan", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{it.val(st, x.Size)}, Ctx: fr.ctx})
		ch := mkObj(name, it.ks...)
		q, i := chanCells(ch)
		st.mem[q] = mkSliceL(nilObj, mkNum(0), mkNum(0), tTrue)
		st.mem[i] = mkNum(0)
		it.objType[q.S] = types.NewSlice(x.Type().Underlying().(*types.Chan).Elem())
		it.objType[i.S] = types.Typ[types.Int]
		it.chans[ch] = x.Type().Underlying().(*types.Chan).Elem()
		it.chanCap[ch] = it.val(st, x.Size)
		set(x, mkPtr(ch))
	case *ssa.Send:
		if ch := it.chanOf(it.val(st, x.Chan)); ch != nil {
			q, _ := chanCells(ch)
			v := it.val(st, x.X)
			seq := catSeq(it.seqOf(st, it.load(st, q)), mkCat(mkElem(v)))
			st.mem[q] = it.newSlice(st, it.siteName(fr, x), seq, tFalse, x.X.Type())
		}
		it.emit(&Event{Kind: "send", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{it.val(st, x.Chan), it.val(st, x.X)}, Mem: copyMem(st.mem), Ctx: fr.ctx})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, it.val(st, b))
		}
		f := x.Fn.(*ssa.Function)
		set(x, lift(func(k []*Term) *Term { return intern(&Term{K: KFunc, Fn: f, Kids: k}) }, bs...))
	case *ssa.MakeInterface:
		v := it.val(st, x.X)
		set(x, intern(&Term{K: KIface, Typ: x.X.Type(), Kids: []*Term{v}}))
	case *ssa.ChangeType:
		set(x, it.val(st, x.X))
	case *ssa.ChangeInterface:
		set(x, it.val(st, x.X))
	case *ssa.Convert:
		set(x, it.convert(x, it.val(st, x.X)))
	case *ssa.Extract:
		t := it.val(st, x.Tuple)
		if t.K == KTuple && x.Index < len(t.Kids) {
			set(x, t.Kids[x.Index])
		} else {
			set(x, symOf(x.Type(), "extract"+strconv.Itoa(x.Index), t))
		}
	case *ssa.TypeAssert:
		v := it.val(st, x.X)
		set(x, lift(func(l []*Term) *Term {
			v := l[0]
			if v.K == KIface {
				ok := types.Identical(v.Typ, x.AssertedType)
				r := v.Kids[0]
				if i, isI := x.AssertedType.Underlying().(*types.Interface); isI {
					ok, r = types.Implements(v.Typ, i), v
				}
				switch {
				case ok && x.CommaOk:
					return mkTuple(r, tTrue)
				case ok:
					return r
				case x.CommaOk:
					return mkTuple(zeroVal(x.AssertedType), tFalse)
				}
			}
			return symOf(x.Type(), "assert", v, mkTypeT(x.AssertedType))
		}, v))
	case *ssa.Range:
		site := it.siteName(fr, x)
		if it.cl.SiteFree {
			site = ""
		}
		set(x, mkKAtom(mkAtom("iter:"+site, x.Type(), false, append([]*Term{it.snap(st, it.val(st, x.X), 0)}, it.ks...)...)))
	case *ssa.Next:
		site := it.siteName(fr, x)
		if it.cl.SiteFree {
			site = ""
		}
		var tt types.Type = x.Type()
		if r, ok := x.Iter.(*ssa.Range); ok {
			if m, ok := r.X.Type().Underlying().(*types.Map); ok {
				v := func(t types.Type) *types.Var { return types.NewVar(0, nil, "", t) }
				tt = types.NewTuple(v(types.Typ[types.Bool]), v(m.Key()), v(m.Elem()))
			}
		}
		set(x, symOf(tt, "next:"+site, append([]*Term{it.val(st, x.Iter)}, it.ks...)...))
	case *ssa.Lookup:
		m := it.val(st, x.X)
		if m.K == KPtr {
			m = it.snap(st, m, 0)
		}
		if r := nextValue(m, it.val(st, x.Index)); r != nil && !x.CommaOk {
			set(x, r)
			return
		}
		set(x, symOf(x.Type(), "lookup", strVal(m), it.val(st, x.Index)))
	case *ssa.Call:
		r := it.doCall(fr, st, x)
		if r != nil && (r.K == KIte) {
			r = restrict(r, st.cond)
		}
		set(x, r)
	case *ssa.Go:
		it.emit(&Event{Kind: "go", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Ctx: fr.ctx})
	case *ssa.Defer:
		it.emit(&Event{Kind: "defer", Fn: x.Call.StaticCallee(), In: fr.fn, Pos: x.Pos(), Cond: st.cond, Ctx: fr.ctx})
	case *ssa.RunDefers:
	case *ssa.Select:
		set(x, symOf(x.Type(), "select:"+it.siteName(fr, x), it.ks...))
	default:
		it.note("unhandled instruction %T in %s", in, fr.fn)
		if v, ok := in.(ssa.Value); ok {
			set(v, symOf(v.Type(), "unk:"+it.siteName(fr, in), it.ks...))
		}
	}
}

// nextValue: the entry of m at the key an iteration over m has just produced.
func nextValue(m, key *Term) *Term {
	k := key
	if k.K == KStr && len(k.Kids) == 1 {
		k = k.Kids[0]
	}
	a := k.Atom
	if a == nil || a.Op != "res1" || len(a.Args) != 1 || a.Args[0].Atom == nil || !strings.HasPrefix(a.Args[0].Atom.Op, "next:") {
		return nil
	}
	n := a.Args[0].Atom
	if i := n.Args[0].Atom; i == nil || !strings.HasPrefix(i.Op, "iter:") || i.Args[0] != m {
		return nil
	}
	mt, ok := m.Atom.Typ.Underlying().(*types.Map)
	if !ok {
		return nil
	}
	return symOf(mt.Elem(), "res2", a.Args[0])
}

func isNilableBot(t *Term) bool { return t.K == KBot }

func copyMem(m map[*Term]*Term) map[*Term]*Term {
	o := make(map[*Term]*Term, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func strVal(t *Term) *Term { return t }

func lenOf(v *Term, t types.Type) *Term {
	if t != nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			return mkNum(at.Len())
		}
	}
	return lift(func(x []*Term) *Term {
		switch x[0].K {
		case KSlice:
			return x[0].Kids[2]
		case KStr:
			return strLen(x[0])
		case KNil:
			return mkNum(0)
		case KSnap:
			return seqLen(x[0].Kids[0])
		}
		return lenAtom(x[0])
	}, v)
}

func addrStep(p, s *Term) *Term {
	return lift(func(x []*Term) *Term {
		switch x[0].K {
		case KPtr:
			return mkPtr(x[0].Kids[0], append(append([]*Term{}, x[0].Kids[1:]...), x[1])...)
		case KAtom:
			return mkPtr(mkObj("deref", x[0]), x[1])
		case KNil:
			return tNil
		}
		return tBot
	}, p, s)
}

func (it *Interp) sliceOp(fr *Frame, st *State, x *ssa.Slice) *Term {
	v := it.val(st, x.X)
	lo := mkNum(0)
	if x.Low != nil {
		lo = it.val(st, x.Low)
	}
	ln := lenOf(v, x.X.Type())
	hi := ln
	if x.High != nil {
		hi = it.val(st, x.High)
	}
	if x.Low != nil || x.High != nil {
		it.emit(&Event{Kind: "slice", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{ln, lo, hi}, Ctx: fr.ctx})
	}
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if lo == mkNum(0) && x.High == nil {
			return v
		}
		return substrT(x.Type(), v, lo, hi, x.High == nil)
	}
	return lift(func(t []*Term) *Term {
		switch t[0].K {
		case KSlice:
			n := numSub(t[2], t[1])
			if (x.Low != nil || x.High != nil) && n.K == KNum && n.Poly.sign() == 9 {
				// execution only goes on when the length is not negative
				n = mkMinMax("max", n, mkNum(0))
			}
			return mkSlice(t[0].Kids[0], numAdd(t[0].Kids[1], t[1]), n, t[0].Kids[3])
		case KPtr:
			if len(t[0].Kids) == 1 {
				return mkSlice(t[0].Kids[0], t[1], numSub(t[2], t[1]), tFalse)
			}
		}
		it.note("unsupported slice operand in %s", fr.fn)
		return tBot
	}, v, lo, hi)
}

func (it *Interp) convert(x *ssa.Convert, v *Term) *Term {
	from, to := x.X.Type(), x.Type()
	switch {
	case isIntType(from) && isIntType(to):
		return v
	case isIntType(from) && isFloatType(to):
		return f32(v, to, from)
	case isFloatType(from) && isFloatType(to):
		return f32(v, to, from)
	case isFloatType(from) && isIntType(to):
		return numFn("trunc", v)
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return v
	}
	return symOf(to, "conv:"+typeKey(to), v)
}

func f32(v *Term, to, from types.Type) *Term {
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Kind() == types.Float32 {
			return v
		}
		return numFn("f32", v)
	}
	return v
}

func (it *Interp) binop(op token.Token, a, b *Term, t, rt types.Type) *Term {
	isInt := isIntType(t)
	bt, isBasic := t.Underlying().(*types.Basic)
	isStr := isBasic && bt.Info()&types.IsString != 0
	switch op {
	case token.ADD:
		if isStr {
			return lift(func(x []*Term) *Term { return mkStrParts(x[0], x[1]) }, strT(a), strT(b))
		}
		return numAdd(a, b)
	case token.SUB:
		return numSub(a, b)
	case token.MUL:
		return numMul(a, b)
	case token.QUO:
		if isInt {
			return intFn("idiv", a, b)
		}
		return numDiv(a, b)
	case token.REM:
		return intFn("imod", a, b)
	case token.LSS:
		if isStr {
			break
		}
		return cmpLT(a, b, isInt)
	case token.GTR:
		if isStr {
			break
		}
		return cmpLT(b, a, isInt)
	case token.LEQ:
		if isStr {
			break
		}
		return cmpLE(a, b, isInt)
	case token.GEQ:
		if isStr {
			break
		}
		return cmpLE(b, a, isInt)
	case token.EQL:
		return eqVal(a, b, t)
	case token.NEQ:
		return bNot(eqVal(a, b, t))
	case token.AND, token.OR:
		if a.K == KTrue || a.K == KFalse || b.K == KTrue {
			break
		}
	}
	return symOf(rt, "binop"+op.String(), a, b)
}

func strT(t *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K == KStr {
			return x[0]
		}
		return mkStrParts(x[0])
	}, t)
}

func eqVal(a, b *Term, t types.Type) *Term {
	if a == b {
		return tTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsNumeric != 0:
			return cmpEQnum(a, b, u.Info()&types.IsInteger != 0)
		case u.Info()&types.IsBoolean != 0:
			return bNot(mkIte(a, bNot(b), b))
		case u.Info()&types.IsString != 0:
			return lift(func(x []*Term) *Term { return eqStr(x[0], x[1]) }, strT(a), strT(b))
		}
	case *types.Struct:
		if a.K == KStruct && b.K == KStruct {
			r := tTrue
			for i := range a.Kids {
				r = bAnd(r, eqVal(a.Kids[i], b.Kids[i], u.Field(i).Type()))
			}
			return r
		}
	}
	return lift(func(x []*Term) *Term {
		p, q := x[0], x[1]
		if p == q {
			return tTrue
		}
		if q.K == KNil || (q.K == KSlice && q == nilSlice) {
			return isNilOf(p)
		}
		if p.K == KNil || (p.K == KSlice && p == nilSlice) {
			return isNilOf(q)
		}
		if p.K == KPtr && q.K == KPtr && !isInitial(p.Kids[0]) && !isInitial(q.Kids[0]) && len(p.Kids) == 1 && len(q.Kids) == 1 && len(p.Kids[0].Kids) == 0 {
			return tFalse
		}
		if p.ID > q.ID {
			p, q = q, p
		}
		return mkVarB(mkVar("eq", false, p, q))
	}, a, b)
}

func eqStr(p, q *Term) *Term {
	if p == q {
		return tTrue
	}
	a, ok1 := p.litStr()
	b, ok2 := q.litStr()
	if ok1 && ok2 {
		return mkBool(a == b)
	}
	// formatted numbers
	if len(p.Kids) == 1 && len(q.Kids) == 1 {
		x, ok1 := fmt3Arg(p.Kids[0])
		y, ok2 := fmt3Arg(q.Kids[0])
		if ok1 && ok2 {
			return dispEq(x, y)
		}
	}
	if p.ID > q.ID {
		p, q = q, p
	}
	return mkVarB(mkVar("streq", false, p, q))
}

func fmt3Arg(p *Term) (*Term, bool) {
	if p.K == KAtom && p.Atom.Op == "fmt3" {
		return p.Atom.Args[0], true
	}
	return nil, false
}

// ---------- calls

func (it *Interp) doCall(fr *Frame, st *State, x *ssa.Call) *Term {
	c := x.Common()
	var args []*Term
	for _, a := range c.Args {
		args = append(args, it.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return it.builtin(fr, st, x, b, args)
	}
	if c.IsInvoke() {
		return it.invoke(fr, st, x, it.val(st, c.Value), c.Method, args)
	}
	var fn *ssa.Function
	var binds []*Term
	switch v := c.Value.(type) {
	case *ssa.Function:
		fn = v
	default:
		f := it.val(st, c.Value)
		if f.K == KFunc {
			fn, binds = f.Fn, f.Kids
		} else if f.K == KIte && allFuncs(f) {
			return it.callChoice(fr, st, x, f, args)
		}
	}
	if fn == nil {
		it.emit(&Event{Kind: "dyncall", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: args, Ctx: fr.ctx})
		return symOf(x.Type(), "dyn:"+it.siteName(fr, x), append(append([]*Term{}, args...), it.ks...)...)
	}
	return it.callFn(fr, st, x, fn, args, binds)
}

// allFuncs: every leaf is a known function (or nil, whose call ends the program).
func allFuncs(f *Term) bool {
	switch f.K {
	case KIte:
		return allFuncs(f.Kids[0]) && allFuncs(f.Kids[1])
	case KFunc, KNil, KBot:
		return true
	}
	return false
}

func (it *Interp) callChoice(fr *Frame, st *State, x *ssa.Call, f *Term, args []*Term) *Term {
	if st.cond.K == KFalse {
		return tBot
	}
	switch f.K {
	case KIte:
		c := mkVarB(f.Var)
		s1, s2 := st.clone(), st.clone()
		s1.cond, s2.cond = bAnd(st.cond, c), bAnd(st.cond, bNot(c))
		r1 := it.callChoice(fr, s1, x, f.Kids[0], args)
		r2 := it.callChoice(fr, s2, x, f.Kids[1], args)
		st.mem = it.mergeMem(c, s1.mem, s2.mem)
		st.cond = bOr(s1.cond, s2.cond)
		return mergeVal(c, r1, r2)
	case KFunc:
		return it.callFn(fr, st, x, f.Fn, args, f.Kids)
	}
	if !unsat(st.cond) {
		it.emit(&Event{Kind: "deref", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{f}, Ctx: fr.ctx})
	}
	st.cond = tFalse
	return tBot
}

func (it *Interp) callFn(fr *Frame, st *State, x ssa.CallInstruction, fn *ssa.Function, args, binds []*Term) *Term {
	var rt types.Type = types.NewTuple()
	if v, ok := x.(ssa.Value); ok {
		rt = v.Type()
	}
	cs := &CallSite{Fn: fn, Args: args, Instr: x, Ctx: it.siteName(fr, x), Res: rt}
	if it.cl.Call != nil {
		if r, ok := it.cl.Call(it, fr, st, cs); ok {
			return r
		}
	}
	if r, ok := it.model(fr, st, cs); ok {
		return r
	}
	if fn.Blocks == nil || !it.prog.inRepo(fn) {
		return it.external(fr, st, cs)
	}
	rec := false
	for _, f := range it.stack {
		if f == fn {
			rec = true
		}
	}
	if rec || it.cl.Opaque != nil && it.cl.Opaque(fn) {
		return it.opaqueCall(fn, args, st, x.Pos(), fr)
	}
	if traceCalls {
		println(len(it.stack), fn.String())
	}
	return it.Call(fn, args, binds, st, cs.Ctx)
}

// opaqueCall keeps a repository function as an uninterpreted function of its (deep) arguments.
func (it *Interp) opaqueCall(fn *ssa.Function, args []*Term, st *State, pos token.Pos, fr *Frame) *Term {
	var as []*Term
	for _, a := range args {
		as = append(as, it.snap(st, a, 0))
	}
	var rt types.Type = fn.Signature.Results()
	if fn.Signature.Results().Len() == 1 {
		rt = fn.Signature.Results().At(0).Type()
	}
	r := liftSmall(func(x []*Term) *Term { return symOf(rt, "call:"+fn.String(), x...) }, as...)
	e := &Event{Kind: "call", Fn: fn, Pos: pos, Cond: st.cond, Args: as, Res: r}
	if fr != nil {
		e.In, e.Ctx = fr.fn, fr.ctx
	}
	it.emit(e)
	return r
}

var pureExt = map[string]bool{"math": true, "strings": true, "strconv": true, "time": true, "errors": true,
	"gopkg.in/alecthomas/kingpin.v2": true, "github.com/alecthomas/kingpin": true, "unicode": true, "path/filepath": true}

func (it *Interp) external(fr *Frame, st *State, cs *CallSite) *Term {
	name := cs.Fn.String()
	var as []*Term
	for _, a := range cs.Args {
		as = append(as, it.snap(st, a, 0))
	}
	pkg := ""
	if cs.Fn.Pkg != nil {
		pkg = cs.Fn.Pkg.Pkg.Path()
	}
	var r *Term
	if pureExt[pkg] {
		r = liftSmall(func(x []*Term) *Term { return symOf(cs.Res, "ext:"+name, x...) }, as...)
	} else {
		site := cs.Ctx
		if it.cl.SiteFree {
			site = ""
			name = extName(cs.Fn)
		}
		r = symOf(cs.Res, "ext:"+name+"#"+site, append(append([]*Term{}, as...), it.ks...)...)
		it.havoc(st, cs, name)
	}
	it.emit(&Event{Kind: "ext", Fn: cs.Fn, In: fr.fn, Pos: cs.Instr.Pos(), Cond: st.cond, Args: as, Res: r, Ctx: fr.ctx, Note: name})
	return r
}

func (it *Interp) builtin(fr *Frame, st *State, x *ssa.Call, b *ssa.Builtin, args []*Term) *Term {
	switch b.Name() {
	case "len":
		t := x.Call.Args[0].Type()
		return lenOf(args[0], t)
	case "cap":
		return symOf(x.Type(), "cap", args[0])
	case "append":
		name := it.siteName(fr, x)
		et := elemType(x.Type())
		a := it.seqOf(st, args[0])
		var bq *Term
		if len(args) > 1 {
			bq = it.seqOf(st, args[1])
		} else {
			bq = emptySeq
		}
		seq := catSeq(a, bq)
		an := isNilOf(args[0])
		// nil only if the source was nil and nothing was appended
		bl := seqLen(bq)
		isn := bAnd(an, bNot(posB(bl, true)))
		it.emit(&Event{Kind: "append", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{args[0], bq}, Ctx: fr.ctx})
		return it.newSlice(st, name, seq, isn, et)
	case "copy":
		dst, src := args[0], args[1]
		s := it.seqOf(st, src)
		if obj, n := wholeSlice(dst); obj != nil {
			// full overwrite when lengths agree
			if l := seqLen(s); n == l || numSub(n, l) == mkNum(0) || n == numMinMax("max", mkNum(0), l) {
				st.mem[obj] = s
				return n
			}
		}
		it.note("copy not modelled in %s", fr.fn)
		if dst.K == KSlice {
			st.mem[dst.Kids[0]] = mkCat(intern(&Term{K: PSeg, Kids: []*Term{intern(&Term{K: ASym, Typ: elemType(x.Call.Args[0].Type()), Kids: []*Term{mkKAtom(mkAtom("copied:"+it.siteName(fr, x), x.Call.Args[0].Type(), false, it.ks...))}}), mkNum(0), dst.Kids[2]}}))
		}
		return symOf(x.Type(), "copyn:"+it.siteName(fr, x), it.ks...)
	case "print", "println":
		return mkTuple()
	case "close":
		it.runPending(st)
		it.emit(&Event{Kind: "close", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: args, Ctx: fr.ctx})
		return mkTuple()
	case "delete":
		return mkTuple()
	case "ssa:wrapnilchk":
		return args[0]
	}
	it.note("builtin %s in %s", b.Name(), fr.fn)
	return symOf(x.Type(), "builtin:"+b.Name(), args...)
}

func (it *Interp) invoke(fr *Frame, st *State, x *ssa.Call, recv *Term, m *types.Func, args []*Term) *Term {
	if recv.K == KIte {
		c := mkVarB(recv.Var)
		s1, s2 := st.clone(), st.clone()
		s1.cond, s2.cond = bAnd(st.cond, c), bAnd(st.cond, bNot(c))
		r1 := it.invoke(fr, s1, x, recv.Kids[0], m, args)
		r2 := it.invoke(fr, s2, x, recv.Kids[1], m, args)
		st.mem = it.mergeMem(c, s1.mem, s2.mem)
		st.cond = bOr(s1.cond, s2.cond)
		return mergeVal(c, r1, r2)
	}
	if recv.K == KIface {
		fn := it.prog.method(recv.Typ, m)
		if fn != nil {
			return it.callFn(fr, st, x, fn, append([]*Term{recv.Kids[0]}, args...), nil)
		}
	}
	impls := it.prog.impls(m)
	if len(impls) == 0 {
		it.emit(&Event{Kind: "invoke", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: append([]*Term{recv}, args...), Note: m.FullName(), Ctx: fr.ctx})
		site := it.siteName(fr, x)
		if it.cl.SiteFree {
			site = ""
		}
		return symOf(x.Type(), "invoke:"+m.FullName()+"#"+site, append(append([]*Term{recv}, args...), it.ks...)...)
	}
	// dispatch over all implementations in the program
	var res *Term
	var states []*State
	var conds []*Term
	var results []*Term
	rest := tTrue
	for i, im := range impls {
		sel := mkVarB(mkVar("dyntype", false, recv, mkTypeT(im.typ)))
		c := bAnd(rest, sel)
		if i == len(impls)-1 {
			c = rest
		}
		rest = bAnd(rest, bNot(sel))
		s := st.clone()
		s.cond = bAnd(st.cond, c)
		if s.cond.K == KFalse {
			continue
		}
		rv := symOf(im.typ, "as", recv)
		if it.cl.BeforeDispatch != nil {
			it.cl.BeforeDispatch(it, s, im.fn, rv, x.Pos())
		}
		r := it.callFn(fr, s, x, im.fn, append([]*Term{rv}, args...), nil)
		if it.cl.AfterDispatch != nil {
			it.cl.AfterDispatch(it, s, im.fn, rv, r, x.Pos())
		}
		states = append(states, s)
		conds = append(conds, c)
		results = append(results, r)
	}
	n := len(states)
	if n == 0 {
		return tBot
	}
	res = results[n-1]
	mem := states[n-1].mem
	for i := n - 2; i >= 0; i-- {
		res = mergeVal(conds[i], results[i], res)
		mem = it.mergeMem(conds[i], states[i].mem, mem)
	}
	st.mem = copyMem(mem)
	tot := tFalse
	for _, s := range states {
		tot = bOr(tot, s.cond)
	}
	st.cond = tot
	return res
}

func sortedObjs(m map[*Term]*Term) []*Term {
	var os []*Term
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].ID < os[j].ID })
	return os
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// wholeSlice: the object a slice shows from its first element on, and how much of it
func wholeSlice(v *Term) (obj, n *Term) {
	for _, l := range leavesOf(v) {
		if l.K != KSlice || l.Kids[0] == nilObj || l.Kids[1] != mkNum(0) || obj != nil && obj != l.Kids[0] {
			return nil, nil
		}
		obj = l.Kids[0]
	}
	return obj, lift(func(x []*Term) *Term {
		if x[0].K != KSlice {
			return tBot
		}
		return x[0].Kids[2]
	}, v)
}
