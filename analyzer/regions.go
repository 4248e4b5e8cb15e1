package main

// A flow-insensitive region analysis with function summaries: which memory of its caller a
// function may write, keep or hand back. Memory is divided, per function, into the memory each
// parameter (and captured variable) points to directly (level 0) and all that lies below it
// (level 1), the globals, and one region per allocating instruction. Loads follow what was stored;
// calls apply the callee's summary.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Region struct {
	Param int // parameter, then captured variables; -1 otherwise
	Level int
	Glob  *ssa.Global
	Site  ssa.Instruction
	Sub   int  // results of one call
	Cut   bool // seen through a slice that ends before the memory does: appending writes over what is there
}

type regSet map[Region]bool

func (q Region) whole() Region {
	q.Cut = false
	return q
}

func (s regSet) cut() regSet {
	res := regSet{}
	for q := range s {
		q.Cut = true
		res[q] = true
	}
	return res
}

func (s regSet) add(o regSet) bool {
	ch := false
	for r := range o {
		if !s[r] {
			s[r] = true
			ch = true
		}
	}
	return ch
}

// Effect: one write to memory, with where it happens.
type Effect struct {
	Reg  Region
	Tail bool // only behind the end of a slice (append)
}

type Witness struct {
	Pos token.Pos
	Via *ssa.Function
}

type Summary struct {
	mods    map[Effect]Witness
	results []regSet          // level-0 regions of each result; Site regions stand for fresh memory
	fresh   map[Region]regSet // what fresh memory in the results holds
	keeps   map[Region]regSet // what is stored below parameters and globals
}

type Regions struct {
	p     *Program
	sums  map[*ssa.Function]*Summary
	facts map[*ssa.Function]*regFacts
	bySig map[string][]*ssa.Function
	dirty bool
}

type regFacts struct {
	roots   map[ssa.Value]regSet
	tuples  map[ssa.Value][]regSet
	content map[Region]regSet
	mods    map[Effect]Witness
	grown   bool
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (p *Program) regions() *Regions {
	r := &Regions{p: p, sums: map[*ssa.Function]*Summary{}, facts: map[*ssa.Function]*regFacts{}, bySig: map[string][]*ssa.Function{}}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for i, op := range in.Operands(ops) {
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
						seen[g] = true
						k := sigKey(g.Signature)
						r.bySig[k] = append(r.bySig[k], g)
					}
				}
			}
		}
	}
	for {
		r.dirty = false
		for _, f := range p.funcs {
			r.analyse(f)
		}
		if !r.dirty {
			return r
		}
	}
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignature(nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func (r *Regions) of(f *ssa.Function) *Summary {
	s := r.sums[f]
	if s == nil {
		s = &Summary{mods: map[Effect]Witness{}, fresh: map[Region]regSet{}, keeps: map[Region]regSet{}, results: make([]regSet, f.Signature.Results().Len())}
		for i := range s.results {
			s.results[i] = regSet{}
		}
		r.sums[f] = s
	}
	return s
}

func (a *regFacts) get(v ssa.Value) regSet {
	s := a.roots[v]
	if s == nil {
		s = regSet{}
		a.roots[v] = s
	}
	return s
}

func (a *regFacts) cont(q Region) regSet {
	q = q.whole()
	s := a.content[q]
	if s == nil {
		s = regSet{}
		if q.Param >= 0 {
			s[Region{Param: q.Param, Level: 1}] = true
		}
		if q.Glob != nil {
			s[Region{Param: -1, Glob: q.Glob, Level: 1}] = true
		}
		a.content[q] = s
	}
	return s
}

// load: what the memory in s points to
func (a *regFacts) load(s regSet) regSet {
	res := regSet{}
	for q := range s {
		res.add(a.cont(q))
	}
	return res
}

// closure: s and everything below
func (a *regFacts) closure(s regSet) regSet {
	res := regSet{}
	res.add(s)
	for {
		n := len(res)
		res.add(a.load(res))
		if len(res) == n {
			return res
		}
	}
}

func (a *regFacts) store(to, v regSet) {
	for q := range to {
		if a.cont(q).add(v) {
			a.grown = true
		}
	}
}

func (a *regFacts) flow(v ssa.Value, s regSet) {
	if !hasPointers(v.Type()) {
		return
	}
	if a.get(v).add(s) {
		a.grown = true
	}
}

func (a *regFacts) mod(s regSet, tail bool, w Witness) {
	for q := range s {
		if q.Param < 0 && q.Glob == nil && q.Site == nil {
			continue
		}
		e := Effect{q.whole(), tail && !q.Cut}
		if _, ok := a.mods[e]; !ok {
			a.mods[e] = w
			a.grown = true
		}
	}
}

func (r *Regions) rootsOf(a *regFacts, v ssa.Value) regSet {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return regSet{}
	case *ssa.Function:
		return regSet{}
	case *ssa.Global:
		return regSet{{Param: -1, Glob: x}: true}
	}
	return a.get(v)
}

func (r *Regions) analyse(f *ssa.Function) {
	a := r.facts[f]
	if a == nil {
		a = &regFacts{roots: map[ssa.Value]regSet{}, tuples: map[ssa.Value][]regSet{}, content: map[Region]regSet{}, mods: map[Effect]Witness{}}
		r.facts[f] = a
		for i, p := range f.Params {
			if hasPointers(p.Type()) {
				a.get(p)[Region{Param: i}] = true
			}
		}
		for i, p := range f.FreeVars {
			if hasPointers(p.Type()) {
				a.get(p)[Region{Param: len(f.Params) + i}] = true
			}
		}
	}
	for {
		a.grown = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				r.step(f, a, in)
			}
		}
		if !a.grown {
			break
		}
	}
	s := r.of(f)
	for e, w := range a.mods {
		if e.Reg.Site != nil {
			continue
		}
		if _, ok := s.mods[e]; !ok {
			s.mods[e] = w
			r.dirty = true
		}
	}
	outer := func(q Region) bool { return q.Site == nil }
	for q, c := range a.content {
		if !outer(q) {
			continue
		}
		if s.keeps[q] == nil {
			s.keeps[q] = regSet{}
		}
		if s.keeps[q].add(c) {
			r.dirty = true
		}
	}
	reach := regSet{}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range ret.Results {
			if s.results[i].add(r.rootsOf(a, v)) {
				r.dirty = true
			}
			reach.add(r.rootsOf(a, v))
		}
	}
	for _, k := range s.keeps {
		reach.add(k)
	}
	for q := range a.closure(reach) {
		q = q.whole()
		if q.Site == nil {
			continue
		}
		if s.fresh[q] == nil {
			s.fresh[q] = regSet{}
		}
		if s.fresh[q].add(a.cont(q)) {
			r.dirty = true
		}
	}
}

func (r *Regions) step(f *ssa.Function, a *regFacts, in ssa.Instruction) {
	site := func() regSet { return regSet{{Param: -1, Site: in}: true} }
	get := func(v ssa.Value) regSet { return r.rootsOf(a, v) }
	w := Witness{Pos: in.Pos()}
	switch x := in.(type) {
	case *ssa.Alloc:
		a.flow(x, site())
	case *ssa.MakeSlice:
		a.flow(x, site())
	case *ssa.MakeMap:
		a.flow(x, site())
	case *ssa.MakeChan:
		a.flow(x, site())
	case *ssa.MakeClosure:
		a.flow(x, site())
		var args []regSet
		g := x.Fn.(*ssa.Function)
		for range g.Params {
			args = append(args, regSet{})
		}
		for _, b := range x.Bindings {
			args = append(args, get(b))
			a.store(site(), get(b))
		}
		// what the closure does is done to its captured variables, whenever it runs
		r.apply(f, a, g, args, in, nil)
	case *ssa.FieldAddr:
		a.flow(x, get(x.X))
	case *ssa.IndexAddr:
		a.flow(x, get(x.X))
	case *ssa.Slice:
		if x.High == nil || isLenOf(x.High, x.X) || fullSlice(x) {
			a.flow(x, get(x.X))
		} else {
			a.flow(x, get(x.X).cut())
		}
	case *ssa.Field:
		a.flow(x, get(x.X))
	case *ssa.Index:
		a.flow(x, get(x.X))
	case *ssa.ChangeType:
		a.flow(x, get(x.X))
	case *ssa.ChangeInterface:
		a.flow(x, get(x.X))
	case *ssa.MakeInterface:
		if hasPointers(x.X.Type()) {
			a.flow(x, get(x.X))
		}
	case *ssa.TypeAssert:
		a.flow(x, get(x.X))
		a.tuple(x, 2)[0] = get(x.X)
	case *ssa.Convert:
		if hasPointers(x.Type()) && !hasPointers(x.X.Type()) {
			a.flow(x, site())
		} else {
			a.flow(x, get(x.X))
		}
	case *ssa.SliceToArrayPointer:
		a.flow(x, get(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.flow(x, get(e))
		}
	case *ssa.Extract:
		if t := a.tuples[x.Tuple]; t != nil {
			a.flow(x, t[x.Index])
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.flow(x, a.load(get(x.X)))
		case token.ARROW:
			a.flow(x, a.load(get(x.X)))
			a.tuple(x, 2)[0].add(a.load(get(x.X)))
		}
	case *ssa.Lookup:
		a.flow(x, a.load(get(x.X)))
		a.tuple(x, 2)[0].add(a.load(get(x.X)))
	case *ssa.Range:
		a.flow(x, get(x.X))
	case *ssa.Next:
		t := a.tuple(x, 3)
		t[1].add(a.load(get(x.Iter)))
		t[2].add(a.load(get(x.Iter)))
	case *ssa.Select:
		t := a.tuple(x, 2+len(x.States))
		k := 2
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				a.store(get(s.Chan), get(s.Send))
			} else {
				t[k].add(a.load(get(s.Chan)))
				k++
			}
		}
	case *ssa.Store:
		a.mod(get(x.Addr), false, w)
		if hasPointers(x.Val.Type()) {
			a.store(get(x.Addr), get(x.Val))
		}
	case *ssa.MapUpdate:
		a.mod(get(x.Map), false, w)
		a.store(get(x.Map), get(x.Key))
		a.store(get(x.Map), get(x.Value))
	case *ssa.Send:
		a.store(get(x.Chan), get(x.X))
	case *ssa.Call, *ssa.Go, *ssa.Defer:
		r.call(f, a, in.(ssa.CallInstruction))
	}
}

func (a *regFacts) tuple(v ssa.Value, n int) []regSet {
	t := a.tuples[v]
	for len(t) < n {
		t = append(t, regSet{})
	}
	a.tuples[v] = t
	return t
}

func (r *Regions) call(f *ssa.Function, a *regFacts, in ssa.CallInstruction) {
	cc := in.Common()
	v, _ := in.(ssa.Value)
	w := Witness{Pos: in.Pos()}
	get := func(x ssa.Value) regSet { return r.rootsOf(a, x) }
	site := regSet{{Param: -1, Site: in}: true}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			to := get(cc.Args[0])
			if !fullSlice(cc.Args[0]) {
				a.mod(to, true, w)
			}
			if hasPointers(cc.Args[0].Type()) && v != nil {
				a.flow(v, to)
				a.flow(v, site)
			}
			el := regSet{}
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && hasPointers(sl.Elem()) {
				a.store(site, a.load(to))
				if len(cc.Args) > 1 {
					el = a.load(get(cc.Args[1]))
				}
				a.store(site, el)
				a.store(to, el)
			}
		case "copy":
			a.mod(get(cc.Args[0]), false, w)
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && hasPointers(sl.Elem()) {
				a.store(get(cc.Args[0]), a.load(get(cc.Args[1])))
			}
		case "delete", "clear":
			a.mod(get(cc.Args[0]), false, w)
		}
		return
	}
	var args []regSet
	if cc.IsInvoke() {
		args = append(args, get(cc.Value))
	}
	for _, x := range cc.Args {
		args = append(args, get(x))
	}
	if cc.IsInvoke() {
		is := r.p.impls(cc.Method)
		if is == nil {
			r.external(f, a, in, cc.Method.FullName(), args)
			return
		}
		for _, g := range is {
			r.apply(f, a, g.fn, args, in, v)
		}
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		// a function value: any function of this type whose value is taken
		sig := cc.Value.Type().Underlying().(*types.Signature)
		for _, h := range r.bySig[sigKey(sig)] {
			as := append([]regSet{}, args...)
			for range h.FreeVars {
				as = append(as, regSet{}) // done where the closure is made
			}
			if h.Blocks == nil || !r.p.inRepo(h) {
				r.external(f, a, in, h.String(), as)
			} else {
				r.apply(f, a, h, as, in, v)
			}
		}
		return
	}
	if g.Blocks == nil || !r.p.inRepo(g) {
		r.external(f, a, in, g.String(), args)
		return
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			args = append(args, get(b))
		}
	}
	r.apply(f, a, g, args, in, v)
}

// fullSlice: s[i:j:j], which has no room behind its end
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.Max == s.High {
		return true
	}
	c, ok1 := s.Max.(*ssa.Const)
	d, ok2 := s.High.(*ssa.Const)
	if ok1 && ok2 && constant.Compare(c.Value, token.EQL, d.Value) {
		return true
	}
	return isLenOf(s.Max, s.X) && isLenOf(s.High, s.X)
}

func isLenOf(v, x ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && sameLoad(c.Call.Args[0], x)
}

// sameLoad: two values that are the same, or loads of the same address
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameLoad(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameLoad(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameLoad(x.X, y.X)
	}
	return false
}

// apply the summary of g
func (r *Regions) apply(f *ssa.Function, a *regFacts, g *ssa.Function, args []regSet, in ssa.Instruction, v ssa.Value) {
	if g.Synthetic != "" && r.facts[g] == nil {
		// wrappers are not among the repository's functions
		r.facts[g] = nil
		r.analyse(g)
	}
	s := r.of(g)
	tr := func(q Region) regSet {
		switch {
		case q.Site != nil:
			return regSet{{Param: -1, Site: in, Sub: 1, Cut: q.Cut}: true}
		case q.Glob != nil:
			return regSet{q: true}
		case q.Param >= len(args):
			return regSet{}
		case q.Level == 0 && q.Cut:
			return args[q.Param].cut()
		case q.Level == 0:
			return args[q.Param]
		}
		return a.closure(a.load(args[q.Param]))
	}
	all := func(qs regSet) regSet {
		res := regSet{}
		for q := range qs {
			res.add(tr(q))
		}
		return res
	}
	for e := range s.mods {
		a.mod(tr(e.Reg), e.Tail, Witness{Pos: in.Pos(), Via: g})
	}
	for q, c := range s.fresh {
		a.store(tr(q), all(c))
	}
	for q, c := range s.keeps {
		// that a region leads to what lies below it is known already
		below := q
		below.Level = 1
		n := regSet{}
		for x := range c {
			if x.whole() != below {
				n[x] = true
			}
		}
		c = n
		if len(c) > 0 {
			a.store(tr(q), all(c))
		}
	}
	if v == nil {
		return
	}
	if len(s.results) == 1 {
		a.flow(v, all(s.results[0]))
		return
	}
	t := a.tuple(v, len(s.results))
	for i, q := range s.results {
		if t[i].add(all(q)) {
			a.grown = true
		}
	}
}

var purePkgs = map[string]bool{"math": true, "strings": true, "strconv": true, "errors": true, "log": true, "runtime": true, "os": true, "io/ioutil": true, "time": true, "path": true, "path/filepath": true, "unicode": true, "fmt": true}

// external: functions outside the repository
func (r *Regions) external(f *ssa.Function, a *regFacts, in ssa.CallInstruction, name string, args []regSet) {
	v, _ := in.(ssa.Value)
	w := Witness{Pos: in.Pos()}
	site := regSet{{Param: -1, Site: in}: true}
	result := func(s regSet) {
		if v == nil {
			return
		}
		a.flow(v, s)
		n := in.Common().Signature().Results().Len()
		if n > 1 {
			t := a.tuple(v, n)
			for i := range t {
				if hasPointers(in.Common().Signature().Results().At(i).Type()) && t[i].add(s) {
					a.grown = true
				}
			}
		}
	}
	method := strings.HasPrefix(name, "(")
	pkg := name
	if method {
		pkg = strings.TrimLeft(name, "(*")
		pkg = pkg[:strings.Index(pkg, ")")]
	}
	if i := strings.LastIndex(pkg, "."); i >= 0 {
		pkg = pkg[:i]
	}
	base := name[strings.LastIndex(name, ".")+1:]
	switch {
	case base == "init" || len(args) == 0:
		result(site)
	case pkg == "sort" && !method && strings.HasPrefix(base, "Search"), pkg == "sort" && strings.HasSuffix(base, "IsSorted"), pkg == "sort" && strings.HasSuffix(base, "AreSorted"):
		result(site)
	case pkg == "sort":
		a.mod(args[0], false, w)
		if base == "Sort" || base == "Stable" {
			a.mod(a.closure(args[0]), false, w)
		}
		result(args[0])
	case !method && pkg == "fmt" && strings.HasPrefix(base, "Fprint"):
		a.mod(args[0], false, w)
	case !method && pkg == "encoding/binary" && base == "Write":
		a.mod(args[0], false, w)
		result(site)
	case !method && purePkgs[pkg] && !strings.HasPrefix(base, "Fscan") && !strings.HasPrefix(base, "Sscan"):
		result(site)
	case method && len(args) > 0:
		// a method changes its receiver and what the arguments point to only if it reads into them
		a.mod(args[0], false, w)
		s := regSet{}
		s.add(site)
		s.add(args[0])
		for _, x := range args {
			a.store(site, x)
			a.store(args[0], x)
		}
		if strings.HasPrefix(base, "Read") || strings.HasPrefix(base, "Unmarshal") || strings.HasPrefix(base, "Decode") || strings.HasPrefix(base, "Put") {
			for _, x := range args[1:] {
				a.mod(a.closure(x), false, w)
			}
		}
		result(s)
	default:
		s := regSet{}
		s.add(site)
		for _, x := range args {
			a.mod(a.closure(x), false, w)
			s.add(a.closure(x))
			a.store(site, x)
		}
		result(s)
	}
}

// describe names a region of f for a report
func (q Region) describe(f *ssa.Function) string {
	switch {
	case q.Glob != nil:
		return "the variable " + stripRepo(q.Glob.String())
	case q.Param >= len(f.Params):
		return "the captured " + f.FreeVars[q.Param-len(f.Params)].Name()
	case q.Param >= 0:
		n := f.Params[q.Param].Name()
		if q.Level == 1 {
			return "what lies below " + n
		}
		return "what " + n + " refers to"
	}
	return "its own memory"
}

// why follows the calls to the statement that writes
func (r *Regions) why(f *ssa.Function, e Effect) string {
	s := ""
	for i := 0; i < 8; i++ {
		var w Witness
		var ok bool
		if w, ok = r.sums[f].mods[e]; !ok {
			return s
		}
		s += fmt.Sprintf(" <- %s (%s)", stripRepo(f.String()), r.p.pos(w.Pos))
		if w.Via == nil {
			return s
		}
		f = w.Via
		found := false
		for x := range r.sums[f].mods {
			if x.Tail == e.Tail && (x.Reg.Site == nil) {
				e, found = x, true
				break
			}
		}
		if !found {
			return s
		}
	}
	return s
}
