package main

// A forward typestate walk over the control-flow graph: it follows every path from one
// instruction, keeping what is known about values (an error known to be non-nil, a boolean
// known to be true or false), and reports how the paths end. Facts are finite, so the walk is a
// fixpoint over (block, facts), not an enumeration of paths.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fact uint8

const (
	fNonNil fact = 1 + iota
	fNil
	fTrue
	fFalse
)

// locKey names a variable in memory: an allocation, a global, a captured variable or a field.
type locKey struct {
	v   ssa.Value
	typ string
	fld int
}

type facts struct {
	val map[ssa.Value]fact
	loc map[locKey]fact
}

func newFacts() *facts { return &facts{map[ssa.Value]fact{}, map[locKey]fact{}} }
func (f *facts) clone() *facts {
	n := newFacts()
	for k, v := range f.val {
		n.val[k] = v
	}
	for k, v := range f.loc {
		n.loc[k] = v
	}
	return n
}
func (f *facts) key() string {
	var ks []string
	for k, v := range f.val {
		ks = append(ks, fmt.Sprintf("%s%p=%d", k.Name(), k, v))
	}
	for k, v := range f.loc {
		ks = append(ks, fmt.Sprintf("%p.%s.%d=%d", k.v, k.typ, k.fld, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func locOf(addr ssa.Value) (locKey, bool) {
	switch a := addr.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return locKey{v: a}, true
	case *ssa.FieldAddr:
		return locKey{typ: deref(a.X.Type()).String(), fld: a.Field}, true
	}
	return locKey{}, false
}

// walkClient says what to do at the events of a walk.
type walkClient struct {
	// cond: an opinion on a condition (0: none)
	cond func(v ssa.Value, f *facts) fact
	// tolerated: the paths on which this condition is true need not be followed
	tolerated func(v ssa.Value, f *facts) bool
	// instr is called before each instruction; false ends the path
	instr func(in ssa.Instruction, f *facts) bool
	// ret is called at each return reached
	ret func(r *ssa.Return, f *facts)
	// call: outcome of a call to a repository function, see walker.callee
	interproc bool
}

type walker struct {
	p    *Program
	cl   walkClient
	seen map[string]bool
	n    int
	sum  map[string]*outcome
	busy map[string]bool
}

func newWalker(p *Program, cl walkClient) *walker {
	return &walker{p: p, cl: cl, seen: map[string]bool{}, sum: map[string]*outcome{}, busy: map[string]bool{}}
}

// outcome of a function entered with facts about its parameters.
type outcome struct {
	returns  bool
	allErr   bool // every return yields a non-nil error
	results  map[fact]bool
	firstPos token.Pos
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// known evaluates a value under the facts.
func (w *walker) known(v ssa.Value, f *facts) fact {
	if x, ok := f.val[v]; ok {
		return x
	}
	if w.cl.cond != nil {
		if x := w.cl.cond(v, f); x != 0 {
			return x
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Basic, *types.Struct, *types.Array:
				return 0
			}
			return fNil
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return fTrue
			}
			return fFalse
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return fNonNil
	case *ssa.ChangeInterface:
		return w.known(x.X, f)
	case *ssa.ChangeType:
		return w.known(x.X, f)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			switch w.known(x.X, f) {
			case fTrue:
				return fFalse
			case fFalse:
				return fTrue
			}
		}
		if x.Op == token.MUL {
			if k, ok := locOf(x.X); ok {
				return f.loc[k]
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := w.known(x.X, f), w.known(x.Y, f)
			r := fact(0)
			switch {
			case a == fNil && b == fNil:
				r = fTrue
			case a == fNil && b == fNonNil, a == fNonNil && b == fNil:
				r = fFalse
			case (a == fTrue || a == fFalse) && (b == fTrue || b == fFalse):
				r = fFalse
				if a == b {
					r = fTrue
				}
			}
			if r != 0 && x.Op == token.NEQ {
				r = fTrue + fFalse - r
			}
			return r
		}
	case *ssa.Call:
		if c := x.Common().StaticCallee(); c != nil {
			switch c.String() {
			case "fmt.Errorf", "errors.New", "errors.Wrap", "errors.Wrapf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "github.com/pkg/errors.Wrap":
				return fNonNil
			}
		}
	}
	return 0
}

// learn records what a branch tells.
func (w *walker) learn(v ssa.Value, truth bool, f *facts) {
	t := fFalse
	if truth {
		t = fTrue
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			w.learn(x.X, !truth, f)
			return
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == truth
			o := x.X
			if isNilConst(x.X) {
				o = x.Y
			} else if !isNilConst(x.Y) {
				break
			}
			n := fNonNil
			if eq {
				n = fNil
			}
			f.val[o] = n
			if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
				if k, ok := locOf(u.X); ok {
					f.loc[k] = n
				}
			}
			return
		}
	}
	f.val[v] = t
}

var noReturnFns = map[string]bool{
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true, "runtime.Goexit": true,
	"gopkg.in/alecthomas/kingpin.v2.Fatalf": true, "gopkg.in/alecthomas/kingpin.v2.FatalUsage": true,
}

func noReturn(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.String() == "os.Exit" {
		k, ok := c.Args[0].(*ssa.Const)
		return !ok || k.Value == nil || constant.Sign(k.Value) != 0
	}
	return noReturnFns[f.String()]
}

// exitsOK: os.Exit(0)
func exitsOK(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && f.String() == "os.Exit" && !noReturn(c)
}

func calleeOf(c *ssa.CallCommon) *ssa.Function {
	return c.StaticCallee()
}

// from walks all paths starting at instruction i of block b.
func (w *walker) from(b *ssa.BasicBlock, i int, f *facts) {
	if w.n++; w.n > 200000 {
		panic(blowup{})
	}
	if i == 0 {
		k := fmt.Sprintf("%p:%s", b, f.key())
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if w.cl.instr != nil && !w.cl.instr(in, f) {
			return
		}
		if v, ok := in.(ssa.Value); ok {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				delete(f.val, v)
			}
		}
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Extract:
			if t := x.Tuple.Type().(*types.Tuple); x.Index == t.Len()-1 && f.val[x.Tuple] != 0 {
				f.val[x] = f.val[x.Tuple]
			}
		case *ssa.Store:
			if k, ok := locOf(x.Addr); ok {
				if n := w.known(x.Val, f); n != 0 {
					f.loc[k] = n
				} else {
					delete(f.loc, k)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if k, ok := locOf(x.X); ok {
					if n := f.loc[k]; n != 0 {
						f.val[x] = n
					}
				}
			}
		case *ssa.Call:
			if noReturn(x.Common()) {
				return
			}
			if w.cl.interproc && !w.call(x, f) {
				return
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			if w.cl.ret != nil {
				w.cl.ret(x, f)
			}
			return
		case *ssa.If:
			k := w.known(x.Cond, f)
			if k != fFalse && !(w.cl.tolerated != nil && w.cl.tolerated(x.Cond, f)) {
				w.edge(b, b.Succs[0], x.Cond, true, f)
			}
			if k != fTrue {
				if u, ok := x.Cond.(*ssa.UnOp); !(ok && u.Op == token.NOT && w.cl.tolerated != nil && w.cl.tolerated(u.X, f)) {
					w.edge(b, b.Succs[1], x.Cond, false, f)
				}
			}
			return
		case *ssa.Jump:
			w.edge(b, b.Succs[0], nil, false, f)
			return
		}
	}
}

func (w *walker) edge(b, s *ssa.BasicBlock, cond ssa.Value, truth bool, f *facts) {
	f = f.clone()
	if cond != nil {
		w.learn(cond, truth, f)
	}
	pi := -1
	for i, q := range s.Preds {
		if q == b {
			pi = i
		}
	}
	up := map[ssa.Value]fact{}
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		up[ph] = w.known(ph.Edges[pi], f)
	}
	for v, n := range up {
		if n == 0 {
			delete(f.val, v)
		} else {
			f.val[v] = n
		}
	}
	w.from(s, 0, f)
}

// call applies what a repository function does with what is known about its arguments.
// It returns false when the call never returns.
func (w *walker) call(x *ssa.Call, f *facts) bool {
	fn := calleeOf(x.Common())
	if fn == nil || fn.Blocks == nil || !w.p.inRepo(fn) {
		return true
	}
	in := newFacts()
	for i, a := range x.Common().Args {
		if i < len(fn.Params) {
			if n := w.known(a, f); n != 0 {
				in.val[fn.Params[i]] = n
			}
		}
	}
	var binds []ssa.Value
	if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
		binds = mc.Bindings
	}
	for i, bd := range binds {
		if k, ok := locOf(bd); ok && f.loc[k] != 0 {
			in.loc[locKey{v: fn.FreeVars[i]}] = f.loc[k]
		}
		if n := w.known(bd, f); n != 0 {
			in.val[fn.FreeVars[i]] = n
		}
	}
	for k, v := range f.loc {
		if k.v == nil {
			in.loc[k] = v
		} else if _, ok := k.v.(*ssa.Global); ok {
			in.loc[k] = v
		}
	}
	o := w.outcome(fn, in)
	if o == nil {
		return true
	}
	if !o.returns {
		return false
	}
	if len(o.results) == 1 {
		for r := range o.results {
			if r != 0 {
				w.setResult(x, f, r)
			}
		}
	}
	return true
}

// setResult records the fact about the last result of a call.
func (w *walker) setResult(x *ssa.Call, f *facts, r fact) {
	f.val[x] = r // for a tuple: about its last component
}

// outcome: how a function ends when entered with these facts, and what its last result is.
func (w *walker) outcome(fn *ssa.Function, in *facts) *outcome {
	k := fmt.Sprintf("%p|%s", fn, in.key())
	if o, ok := w.sum[k]; ok {
		return o
	}
	if w.busy[k] {
		return nil
	}
	w.busy[k] = true
	o := &outcome{results: map[fact]bool{}}
	sub := newWalker(w.p, walkClient{cond: w.cl.cond, interproc: true})
	sub.sum, sub.busy = w.sum, w.busy
	sub.cl.ret = func(r *ssa.Return, f *facts) {
		o.returns = true
		if len(r.Results) > 0 {
			o.results[sub.known(r.Results[len(r.Results)-1], f)] = true
		}
	}
	sub.from(fn.Blocks[0], 0, in.clone())
	delete(w.busy, k)
	w.sum[k] = o
	return o
}
