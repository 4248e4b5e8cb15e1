package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = checkFn{run: checkC11, rule: "A region and effect analysis with function summaries gives, for every exported function and method of the geometry, slicing and G-code packages, all memory of its arguments that it may write, through every call, closure and reused slice. Nothing but the operations documented as in-place may write any: what the receiver, the command list, the layers or an output buffer consists of.",
		assume: []string{"standard library functions change only what their documentation says (sorting its list, readers and writers their buffers)"}}
}

var effectPkgs = []string{"primitives", "helpers", "gcode", "slicers", "slicers/vip"}

// inPlace: the documented in-place effects. level 0 is the memory an argument refers to, level 1
// what lies below it; tail: only behind the end of a list.
func inPlace(f *ssa.Function, e Effect) bool {
	p := f.Params[e.Reg.Param]
	t := p.Type().String()
	switch relName(f) {
	case "(*primitives.Mesh).Shift", "(*primitives.Triangle).Fill":
		return e.Reg.Param == 0
	case "(*gcode.Gcode).Add", "(*gcode.Gcode).AddLayers":
		return e.Reg.Param == 0
	}
	switch t {
	case "*bytes.Buffer", "io.Writer", "*os.File", "*bufio.Writer":
		return true
	}
	switch {
	case strings.HasSuffix(t, "[]github.com/l1va/goosli/primitives.Layer") && strings.HasPrefix(relPkg(f), "slicers"):
		return e.Reg.Level == 0 || e.Tail
	case strings.HasPrefix(f.Name(), "Join") && relPkg(f) == "primitives" && t == "[]github.com/l1va/goosli/primitives.Path":
		return e.Reg.Level == 1 && e.Tail
	}
	return false
}

func relPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return strings.TrimPrefix(f.Pkg.Pkg.Path(), repoPrefix+"/")
}

func checkC11(c *Ctx) {
	r := c.p.regions()
	pkgs := map[string]bool{}
	for _, n := range effectPkgs {
		pkgs[n] = true
	}
	for _, f := range c.p.funcs {
		if f.Parent() != nil || f.Synthetic != "" || !pkgs[relPkg(f)] || !ast.IsExported(f.Name()) {
			continue
		}
		c.visited[f] = true
		var es []Effect
		for e := range r.of(f).mods {
			if e.Reg.Param >= 0 {
				es = append(es, e)
			}
		}
		sort.Slice(es, func(i, j int) bool { return effectKey(es[i]) < effectKey(es[j]) })
		ok := true
		for _, e := range es {
			if inPlace(f, e) {
				c.count("in-place effects that are documented", 1)
				continue
			}
			how := "writes"
			if e.Tail {
				how = "writes behind the end of"
			}
			ok = c.add("arguments stay as they are", relName(f), f.Pos(), false, "%s %s%s", how, e.Reg.describe(f), r.why(f, e))
		}
		if ok {
			c.add("arguments stay as they are", relName(f), f.Pos(), true, "writes nothing its caller can see but what it is documented to")
		}
		c.fresh(r, f)
	}
	c.count("memory regions", r.regionCount())
}

// fresh: a copy of the triangles is not the memory of the list it was made from
func (c *Ctx) fresh(r *Regions, f *ssa.Function) {
	if relName(f) != "(*primitives.Mesh).CopyTriangles" {
		return
	}
	ok := true
	for q := range r.of(f).results[0] {
		ok = ok && q.Site != nil
	}
	c.add("a copy is a list of its own", relName(f), f.Pos(), ok, "the list returned %s what it was copied from", map[bool]string{true: "shares no memory with", false: "may be"}[ok])
}

func effectKey(e Effect) string {
	return fmt.Sprint(e.Reg.Param, e.Reg.Level, e.Tail)
}

func (r *Regions) regionCount() int {
	n := 0
	for _, a := range r.facts {
		n += len(a.content)
	}
	return n
}

// ---- C18 ----

func init() {
	checks["C18"] = checkFn{run: checkC18, rule: "Every go statement has to stand in a helper that starts one goroutine for each worker number below the number of processors, calls the given work exactly once in it and, if it waits, counts each one before it starts and is done after its work, on every path. Work that is waited for may write shared memory only at elements whose index runs from the worker's number in steps of the number of workers (or over a block of its own), and may read what it writes nowhere else; work that is not waited for may write no shared memory at all. What is sent over a channel is never written afterwards by the sender. With SliceByVector evaluated symbolically, jobs and results are as many as are received, one of the queues has room for all, and every path after starting the workers closes their queue.",
		assume: []string{"the Go memory model orders what precedes a go statement, a send, a close or Done before what follows its counterpart; standard library functions called by workers are safe for concurrent use", "jobs themselves terminate"}}
}

func checkC18(c *Ctx) {
	r := c.p.regions()
	goes, chans := 0, map[*ssa.Function]bool{}
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					goes++
					c.visited[f] = true
					why := c.goHelper(f, x)
					c.add("one goroutine per worker, all waited for", relName(f), x.Pos(), why == "", "%s", orOK(why, "each worker number is started once, and waiting covers them all"))
				case *ssa.MakeChan, *ssa.Send:
					chans[f] = true
				case *ssa.Select:
					chans[f] = true
					c.add("channels", relName(f), x.Pos(), false, "undecided: a select statement")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						chans[f] = true
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						if wait, ok := c.p.parFor[g]; ok {
							c.worker(r, f, call, g, wait)
						}
					}
				}
			}
		}
	}
	c.count("go statements", goes)
	c.globals(r)
	c.published(r)
	for _, o := range c.obls {
		if !o.OK {
			return // what follows takes workers that share nothing for granted
		}
	}
	c.queues(chans)
	c.pairs("copying handles every element", "primitives", "slices", Client{}, []pair{{"Mesh", "CopyTriangles", "SCopyTriangles"}})
}

func orOK(why, ok string) string {
	if why == "" {
		return ok
	}
	return why
}

// globals: package variables are set during initialisation only
func (c *Ctx) globals(r *Regions) {
	ok := true
	for _, f := range c.p.funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for e := range r.of(f).mods {
			if e.Reg.Glob != nil && strings.HasPrefix(e.Reg.Glob.Pkg.Pkg.Path(), repoPrefix) {
				ok = c.add("package variables are constant", relName(f), f.Pos(), false, "writes %s%s", e.Reg.describe(f), r.why(f, e))
			}
		}
	}
	if ok {
		c.add("package variables are constant", "all functions", token.NoPos, true, "no function but initialisation writes a package variable")
	}
}

// ---- going from one instruction to another ----

// reaches: to may run after from without running avoid in between
func reaches(from, to, avoid ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true
			}
			if b.Instrs[i] == avoid {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block(), instrIndex(from)+1)
}

func dominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// onEveryPath: how often the marked instructions run from the start of f to a return (min, max; max
// 2 stands for more than once)
func onEveryPath(f *ssa.Function, mark func(ssa.Instruction) bool) (int, int) {
	n := len(f.Blocks)
	cnt := make([]int, n)
	for i, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mark(in) {
				cnt[i]++
			}
		}
	}
	const inf = 1 << 20
	min, max := make([]int, n), make([]int, n)
	for i := range min {
		min[i], max[i] = inf, -1
	}
	min[0], max[0] = cnt[0], cnt[0]
	for pass := 0; pass < 2*n+4; pass++ {
		for i, b := range f.Blocks {
			for _, p := range b.Preds {
				if m := min[p.Index]; m < inf && m+cnt[i] < min[i] {
					min[i] = m + cnt[i]
				}
				if m := max[p.Index]; m >= 0 {
					v := m + cnt[i]
					if v > 2 {
						v = 2
					}
					if v > max[i] {
						max[i] = v
					}
				}
			}
		}
	}
	lo, hi := inf, -1
	for i, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if min[i] < lo {
				lo = min[i]
			}
			if max[i] > hi {
				hi = max[i]
			}
		}
	}
	return lo, hi
}

// ---- helpers that start workers ----

// outerValue: the value v of a goroutine's function has in the function that starts it
type goEnv struct {
	params map[ssa.Value]ssa.Value // parameters of the goroutine's function
	free   map[ssa.Value]ssa.Value // captured cells
	start  ssa.Instruction
}

func (e *goEnv) outer(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Parameter:
		return e.params[x]
	case *ssa.FreeVar:
		return e.free[x]
	case *ssa.UnOp:
		if x.Op == token.MUL {
			cell, ok := x.X.(*ssa.FreeVar)
			if !ok {
				return nil
			}
			al, ok := e.free[cell].(*ssa.Alloc)
			if !ok {
				return nil
			}
			st := theOnlyStore(al)
			if st == nil || !dominates(st, e.start) || reaches(e.start, st, al) {
				return nil // changes while the goroutine may still read it
			}
			return throughCell(st.Val)
		}
	case *ssa.Const:
		return x
	}
	return nil
}

// theOnlyStore: the single assignment to a variable, captured ones included
func theOnlyStore(al *ssa.Alloc) *ssa.Store {
	var res *ssa.Store
	n := 0
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr == v {
					res = x
					n++
				} else {
					n = 9
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						scan(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				n = 9
			}
		}
	}
	scan(al)
	if n != 1 || res.Parent() != al.Parent() {
		return nil
	}
	return res
}

// throughCell: the value of a variable that is assigned once
func throughCell(v ssa.Value) ssa.Value {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return v
		}
		al, ok := u.X.(*ssa.Alloc)
		if !ok {
			return v
		}
		st := theOnlyStore(al)
		if st == nil || !dominates(st, u) {
			return v
		}
		v = st.Val
	}
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	k, ok := constant.Int64Val(c.Value)
	return ok && k == n
}

// processors: a number of workers that is at least one
func processors(v ssa.Value) bool {
	v = throughCell(v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			k, ok := constant.Int64Val(x.Value)
			return ok && k >= 1
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		switch g.String() {
		case "runtime.NumCPU":
			return true
		case "runtime.GOMAXPROCS":
			return true
		}
		if g.Blocks != nil {
			ok := true
			for _, b := range g.Blocks {
				if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
					ok = ok && len(ret.Results) == 1 && processors(ret.Results[0])
				}
			}
			return ok
		}
	}
	return false
}

// goHelper says what is wrong with a helper that starts goroutines ("" if nothing)
func (c *Ctx) goHelper(f *ssa.Function, g *ssa.Go) string {
	if len(f.Params) != 1 || f.Parent() != nil {
		return "undecided: a goroutine is started outside a helper that takes the work to be done"
	}
	body := g.Call.StaticCallee()
	env := &goEnv{params: map[ssa.Value]ssa.Value{}, free: map[ssa.Value]ssa.Value{}, start: g}
	args := g.Call.Args
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			env.free[body.FreeVars[i]] = b
		}
	}
	var wiV, wnV ssa.Value
	isWork := func(v ssa.Value) bool { return throughCell(v) == f.Params[0] }
	var calls []ssa.Instruction
	if body == nil {
		// go work(wi, wn)
		if !isWork(g.Call.Value) {
			return "undecided: what the goroutine runs is not known"
		}
		if len(args) != 2 {
			return "undecided: the work takes other arguments"
		}
		wiV, wnV = args[0], args[1]
	} else {
		if body.Blocks == nil || !c.p.inRepo(body) {
			return "undecided: what the goroutine runs is not known"
		}
		for i, a := range args {
			env.params[body.Params[i]] = a
		}
		mark := func(in ssa.Instruction) bool {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != nil || call.Call.IsInvoke() {
				return false
			}
			o := env.outer(call.Call.Value)
			return o != nil && isWork(o)
		}
		for _, b := range body.Blocks {
			for _, in := range b.Instrs {
				if mark(in) {
					calls = append(calls, in)
				}
			}
		}
		if lo, hi := onEveryPath(body, mark); lo != 1 || hi != 1 || len(calls) != 1 {
			return "the goroutine does not do its work exactly once on every path"
		}
		call := calls[0].(*ssa.Call)
		if len(call.Call.Args) != 2 {
			return "undecided: the work takes other arguments"
		}
		wiV, wnV = env.outer(call.Call.Args[0]), env.outer(call.Call.Args[1])
		if wiV == nil || wnV == nil {
			return "the worker's number or the number of workers is read from a variable that may have changed by then"
		}
	}
	// one goroutine per number
	wi, ok := throughCell(wiV).(*ssa.Phi)
	if !ok || len(wi.Edges) != 2 {
		return "the worker's number does not count the goroutines"
	}
	wnV = throughCell(wnV)
	if !processors(wnV) {
		return "the number of workers is not known to be at least one"
	}
	head := wi.Block()
	zero, inc := false, false
	for _, e := range wi.Edges {
		if isConstInt(e, 0) {
			zero = true
		}
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == wi && isConstInt(b.Y, 1) {
			inc = true
		}
	}
	if !zero || !inc {
		return "the worker's number does not run from 0 in steps of one"
	}
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return "the worker's number is not bounded by the number of workers"
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || !(cond.X == wi && throughCell(cond.Y) == wnV && (cond.Op == token.LSS || cond.Op == token.NEQ) || cond.Y == wi && throughCell(cond.X) == wnV && cond.Op == token.GTR) {
		return "the worker's number is not bounded by the number of workers"
	}
	// the go statement runs in every round: from the body's start, no way back to the head without it
	in := iff.Block().Succs[0].Instrs[0]
	if in != ssa.Instruction(g) && reaches(in, head.Instrs[0], g) {
		return "some worker may not be started"
	}
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && head != b && head.Succs[0].Dominates(b) && !head.Succs[1].Dominates(b) {
			return "the helper may return before every worker is started"
		}
	}
	if !c.p.parFor[f] {
		return ""
	}
	return c.waits(f, g, body, env, calls, head, wnV)
}

func wgCall(in ssa.Instruction) (string, ssa.Value, *ssa.CallCommon) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return "", nil, nil
	}
	g := ci.Common().StaticCallee()
	if g == nil || !strings.HasPrefix(g.String(), "(*sync.WaitGroup).") {
		return "", nil, nil
	}
	return g.Name(), throughCell(ci.Common().Args[0]), ci.Common()
}

func (c *Ctx) waits(f *ssa.Function, g *ssa.Go, body *ssa.Function, env *goEnv, calls []ssa.Instruction, head *ssa.BasicBlock, wn ssa.Value) string {
	if body == nil {
		return "nothing tells the end of the work"
	}
	var wg ssa.Value
	added := false
	var wait ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			name, on, cc := wgCall(in)
			if name == "" {
				continue
			}
			if wg != nil && on != wg {
				return "undecided: two wait groups"
			}
			wg = on
			switch name {
			case "Add":
				if _, ok := in.(*ssa.Call); !ok || added {
					return "undecided: how goroutines are counted"
				}
				added = true
				inLoop := head.Succs[0].Dominates(b) && b != head
				switch {
				case inLoop && isConstInt(cc.Args[1], 1):
					// once for each: the same rounds as the go statement, and before it
					if !dominates(in, g) || reaches(in, head.Instrs[0], g) {
						return "a goroutine is not counted before it starts"
					}
				case !inLoop && throughCell(cc.Args[1]) == wn:
					if !dominates(in, g) {
						return "the goroutines are not counted before they start"
					}
				default:
					return "the goroutines are not counted one by one"
				}
			case "Wait":
				if _, ok := in.(*ssa.Call); !ok {
					return "undecided: a wait that is put off"
				}
				wait = in
			case "Done":
				return "the goroutines are counted down before they end"
			}
		}
	}
	if !added {
		return "the goroutines are not counted before they start"
	}
	if wait == nil || func() bool {
		for _, b := range f.Blocks {
			last := b.Instrs[len(b.Instrs)-1]
			if _, ok := last.(*ssa.Return); ok && reaches(g, last, wait) {
				return true
			}
		}
		return false
	}() {
		return "the helper may return without waiting"
	}
	if _, ok := wg.(*ssa.Alloc); !ok {
		return "undecided: a wait group from elsewhere"
	}
	isDone := func(in ssa.Instruction) bool {
		name, on, _ := wgCall(in)
		return name == "Done" && env.outer(on) == wg
	}
	for _, b := range body.Blocks {
		for _, in := range b.Instrs {
			if name, on, _ := wgCall(in); name != "" && (name != "Done" || env.outer(on) != wg) {
				return "the goroutine uses its wait group in another way than to tell its end"
			}
			if isDone(in) {
				_, deferred := in.(*ssa.Defer)
				if !deferred && !dominates(calls[0], in) {
					return "a goroutine tells its end before its work is done"
				}
			}
		}
	}
	if lo, hi := onEveryPath(body, isDone); lo != 1 || hi != 1 {
		return "a goroutine does not tell its end exactly once on every path"
	}
	return ""
}

// ---- the work itself ----

// workOf: the functions a work value may be
func (c *Ctx) workOf(v ssa.Value) []*ssa.MakeClosure {
	v = throughCell(v)
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.MakeClosure{x}
	case *ssa.Phi:
		var all []*ssa.MakeClosure
		for _, e := range x.Edges {
			w := c.workOf(e)
			if w == nil {
				return nil
			}
			all = append(all, w...)
		}
		return all
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !c.p.inRepo(g) || len(g.FreeVars) > 0 {
			return nil
		}
		var all []*ssa.MakeClosure
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				w := c.workOf(ret.Results[0])
				if w == nil {
					return nil
				}
				all = append(all, w...)
			}
		}
		return all
	}
	return nil
}

// effectsOf: what one instruction writes
func (r *Regions) effectsOf(f *ssa.Function, in ssa.Instruction) map[Effect]Witness {
	a := r.facts[f]
	if a == nil {
		return nil
	}
	was := a.mods
	a.mods = map[Effect]Witness{}
	r.step(f, a, in)
	res := a.mods
	a.mods = was
	return res
}

func shared(e Effect) bool { return e.Reg.Site == nil }

func (c *Ctx) worker(r *Regions, f *ssa.Function, call ssa.CallInstruction, helper *ssa.Function, wait bool) {
	rule := "workers write nothing others use"
	where := relName(f)
	var work ssa.Value
	if len(call.Common().Args) > 0 {
		work = call.Common().Args[len(call.Common().Args)-1]
	}
	if _, ok := throughCell(work).(*ssa.Function); ok {
		// a plain function: it captures nothing, so it may not write any global
		h := throughCell(work).(*ssa.Function)
		ok := true
		for e := range r.of(h).mods {
			if shared(e) {
				ok = c.add(rule, where, call.Pos(), false, "every worker writes %s%s", e.Reg.describe(h), r.why(h, e))
			}
		}
		c.add(rule, where, call.Pos(), ok, "the work writes nothing shared")
		return
	}
	ws := c.workOf(work)
	if ws == nil {
		c.add(rule, where, call.Pos(), false, "undecided: what the workers run is not known")
		return
	}
	for _, mc := range ws {
		h := mc.Fn.(*ssa.Function)
		c.visited[h] = true
		why := ""
		n := 0
		if wait {
			why, n = c.ownElements(r, mc)
		} else {
			for e := range r.of(h).mods {
				if shared(e) {
					why = "every worker writes " + e.Reg.describe(h) + r.why(h, e)
				}
			}
		}
		c.count("shared writes of workers", n)
		c.add(rule, relName(h)+" run by "+where, call.Pos(), why == "", "%s", orOK(why, "each worker writes only memory of its own"))
	}
}

// ownElements: a worker that is waited for writes only elements at its own indices and reads what
// workers write nowhere else
func (c *Ctx) ownElements(r *Regions, mc *ssa.MakeClosure) (string, int) {
	h := mc.Fn.(*ssa.Function)
	a := r.facts[h]
	written := regSet{}
	n := 0
	var bases []ssa.Value
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			es := r.effectsOf(h, in)
			sharedHere := false
			for e := range es {
				if shared(e) {
					sharedHere = true
					written[e.Reg.whole()] = true
				}
			}
			if !sharedHere {
				continue
			}
			n++
			ok := false
			switch x := in.(type) {
			case *ssa.Store:
				var base ssa.Value
				if base, ok = c.ownElement(h, x.Addr); ok {
					bases = append(bases, base)
				}
			case *ssa.Call:
				// the callee may write what its arguments refer to, if these are own elements
				g := x.Call.StaticCallee()
				ok = g != nil && g.Blocks != nil
				if ok {
					for e := range r.of(g).mods {
						if e.Reg.Site != nil {
							continue
						}
						if e.Reg.Glob != nil || e.Reg.Level > 0 || e.Reg.Param >= len(x.Call.Args) {
							ok = e.Reg.Glob == nil && e.Reg.Param < len(x.Call.Args) && onlyOwn(a.closure(a.load(r.rootsOf(a, x.Call.Args[e.Reg.Param]))))
							if !ok {
								break
							}
							continue
						}
						arg := x.Call.Args[e.Reg.Param]
						if onlyOwn(r.rootsOf(a, arg)) {
							continue
						}
						base, own := c.ownElement(h, arg)
						if !own || e.Tail {
							ok = false
							break
						}
						bases = append(bases, base)
					}
				}
			}
			if !ok {
				for e := range es {
					if shared(e) {
						return fmt.Sprintf("workers write %s at places that are not their own (%s)", e.Reg.describe(h), c.p.pos(in.Pos())), n
					}
				}
			}
		}
	}
	for i := range bases {
		if !sameLoad(bases[i], bases[0]) {
			// lists with different names may be the same memory
			if !c.apart(r, mc, bases[i], bases[0]) {
				return "undecided: workers write two lists that may be the same", n
			}
		}
	}
	// reads of what is written, under any name
	f := mc.Parent()
	outer := func(q Region) regSet {
		if q.Param < len(h.Params) {
			return regSet{q: true}
		}
		bind := r.rootsOf(r.facts[f], mc.Bindings[q.Param-len(h.Params)])
		if q.Level == 0 {
			return bind
		}
		return r.facts[f].closure(r.facts[f].load(bind))
	}
	w := regSet{}
	for q := range written {
		if q.Glob != nil {
			return "workers write " + q.describe(h), n
		}
		w.add(outer(q))
	}
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			if _, ok := u.X.(*ssa.FreeVar); ok {
				continue // the captured variable itself: a write to it is not an own element
			}
			for q := range r.rootsOf(a, u.X) {
				q = q.whole()
				if q.Site != nil {
					continue
				}
				hit := q.Glob == nil && overlap(outer(q), w)
				if !hit {
					continue
				}
				base, own := c.ownElement(h, u.X)
				if !own || !anySame(base, bases) {
					return fmt.Sprintf("a worker reads elements that others write (%s)", c.p.pos(in.Pos())), n
				}
			}
		}
	}
	return "", n
}

func anySame(b ssa.Value, bs []ssa.Value) bool {
	for _, x := range bs {
		if sameLoad(b, x) {
			return true
		}
	}
	return false
}

func overlap(a, b regSet) bool {
	for q := range a {
		if b[q.whole()] {
			return true
		}
	}
	return false
}

func onlyOwn(s regSet) bool {
	for q := range s {
		if q.Site == nil {
			return false
		}
	}
	return true
}

// apart: two lists captured by a closure are different memory
func (c *Ctx) apart(r *Regions, mc *ssa.MakeClosure, x, y ssa.Value) bool {
	h, f := mc.Fn.(*ssa.Function), mc.Parent()
	reg := func(v ssa.Value) regSet {
		res := regSet{}
		for q := range r.rootsOf(r.facts[h], v) {
			if q.Param < len(h.Params) {
				return nil
			}
			bind := r.rootsOf(r.facts[f], mc.Bindings[q.Param-len(h.Params)])
			if q.Level == 0 {
				res.add(bind)
			} else {
				res.add(r.facts[f].closure(r.facts[f].load(bind)))
			}
		}
		return res
	}
	a, b := reg(x), reg(y)
	return a != nil && b != nil && !overlap(a, b)
}

// ownElement: an address within an element whose index is the worker's own; also the list
func (c *Ctx) ownElement(h *ssa.Function, addr ssa.Value) (ssa.Value, bool) {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok && c.ownIndex(h, x.Index, x) {
				return x.X, true
			}
			addr = x.X
			continue
		case *ssa.Phi:
			return nil, false
		}
		return nil, false
	}
}

// ownIndex: i counts from the worker's number in steps of the number of workers, or is tested to be
// its number modulo theirs, or counts over a block that ends where the next worker's begins
func (c *Ctx) ownIndex(h *ssa.Function, i ssa.Value, at ssa.Instruction) bool {
	if len(h.Params) != 2 {
		return false
	}
	wi, wn := paramValue(h, 0), paramValue(h, 1)
	i = throughCell(i)
	if phi, ok := i.(*ssa.Phi); ok && len(phi.Edges) == 2 {
		for k := 0; k < 2; k++ {
			init, next := throughCell(phi.Edges[k]), phi.Edges[1-k]
			b, ok := next.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				continue
			}
			step := b.Y
			if b.X != phi {
				if b.Y != phi {
					continue
				}
				step = b.X
			}
			if init == wi && throughCell(step) == wn {
				return true
			}
			if isConstInt(step, 1) && c.ownBlock(h, phi, init) {
				return true
			}
		}
	}
	// i % wn == wi
	for _, b := range h.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		eq, ok := iff.Cond.(*ssa.BinOp)
		if !ok || eq.Op != token.EQL && eq.Op != token.NEQ {
			continue
		}
		rem, other := eq.X, eq.Y
		if throughCell(rem) == wi {
			rem, other = other, rem
		}
		m, ok := rem.(*ssa.BinOp)
		if !ok || m.Op != token.REM || throughCell(m.X) != i || throughCell(m.Y) != wn || throughCell(other) != wi {
			continue
		}
		s := b.Succs[0]
		if eq.Op == token.NEQ {
			s = b.Succs[1]
		}
		if s.Dominates(at.Block()) && len(s.Preds) == 1 {
			return true
		}
	}
	return false
}

// paramValue: the parameter, or what stands for it when its address is taken
func paramValue(h *ssa.Function, k int) ssa.Value { return h.Params[k] }

// ownBlock: i counts from lo to below hi, and hi is lo for the next worker (or cut off before)
func (c *Ctx) ownBlock(h *ssa.Function, i *ssa.Phi, lo ssa.Value) bool {
	iff, ok := i.Block().Instrs[len(i.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || cond.X != ssa.Value(i) {
		return false
	}
	next := blockTerm(lo, h.Params[0], true, 0)
	ends := []ssa.Value{throughCell(cond.Y)}
	if phi, ok := ends[0].(*ssa.Phi); ok && len(phi.Edges) == 2 {
		// hi := ...; if hi > n { hi = n }
		ends = nil
		for k := 0; k < 2; k++ {
			hi, n := throughCell(phi.Edges[k]), throughCell(phi.Edges[1-k])
			p := phi.Block().Preds[1-k]
			if len(p.Preds) != 1 {
				continue
			}
			test, ok := p.Preds[0].Instrs[len(p.Preds[0].Instrs)-1].(*ssa.If)
			if !ok || p.Preds[0].Succs[0] != p {
				continue
			}
			cmp, ok := test.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			same := func(a, b ssa.Value) bool {
				return blockTerm(a, h.Params[0], false, 0) == blockTerm(b, h.Params[0], false, 0)
			}
			if (cmp.Op == token.GTR || cmp.Op == token.GEQ) && same(cmp.X, hi) && same(cmp.Y, n) || (cmp.Op == token.LSS || cmp.Op == token.LEQ) && same(cmp.Y, hi) && same(cmp.X, n) {
				ends = append(ends, hi)
			}
		}
	}
	for _, hi := range ends {
		if t := blockTerm(hi, h.Params[0], false, 0); t != nil && t == next {
			return true
		}
	}
	return false
}

// blockTerm: an integer expression in normal form, with the worker's number replaced by the next one
func blockTerm(v ssa.Value, wi ssa.Value, next bool, d int) *Term {
	v = throughCell(v)
	if d > 12 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if k, ok := constant.Int64Val(x.Value); ok {
				return mkNum(k)
			}
		}
		return nil
	case *ssa.BinOp:
		a, b := blockTerm(x.X, wi, next, d+1), blockTerm(x.Y, wi, next, d+1)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.ADD:
			return numAdd(a, b)
		case token.SUB:
			return numSub(a, b)
		case token.MUL:
			return numMul(a, b)
		case token.QUO:
			return numFn("whole", a, b)
		}
		return nil
	}
	if v == wi {
		if next {
			return numAdd(blockAtom(v), mkNum(1))
		}
		return blockAtom(v)
	}
	return blockAtom(v)
}

func blockAtom(v ssa.Value) *Term { return symOf(types.Typ[types.Int], "ssa:"+loadKey(v, 0)) }

// loadKey: the same for values that are the same as long as memory does not change
func loadKey(v ssa.Value, d int) string {
	if d < 8 {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return "*" + loadKey(x.X, d+1)
			}
		case *ssa.FieldAddr:
			return loadKey(x.X, d+1) + fmt.Sprintf(".%d", x.Field)
		case *ssa.Field:
			return loadKey(x.X, d+1) + fmt.Sprintf(".%d", x.Field)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return "len(" + loadKey(x.Call.Args[0], d+1) + ")"
			}
		}
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

// ---- what is sent ----

// published: nothing that was sent over a channel is written afterwards by the sender
func (c *Ctx) published(r *Regions) {
	rule := "what is sent is not written afterwards"
	pub := map[*ssa.Function]regSet{}
	type site struct {
		f  *ssa.Function
		in ssa.Instruction
	}
	bad := map[site]string{}
	all := map[site]bool{}
	for {
		changed := false
		for _, f := range c.p.funcs {
			a := r.facts[f]
			if a == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					sent := regSet{}
					switch x := in.(type) {
					case *ssa.Send:
						if hasPointers(x.X.Type()) {
							sent = a.closure(r.rootsOf(a, x.X))
						}
						all[site{f, in}] = true
					case ssa.CallInstruction:
						g := x.Common().StaticCallee()
						if g == nil || len(pub[g]) == 0 {
							break
						}
						var args []regSet
						for _, v := range x.Common().Args {
							args = append(args, r.rootsOf(a, v))
						}
						if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
							for _, v := range mc.Bindings {
								args = append(args, r.rootsOf(a, v))
							}
						}
						sent = translate(a, pub[g], args)
						all[site{f, in}] = true
					case *ssa.MakeClosure:
						g := x.Fn.(*ssa.Function)
						if len(pub[g]) == 0 {
							break
						}
						var args []regSet
						for range g.Params {
							args = append(args, regSet{})
						}
						for _, v := range x.Bindings {
							args = append(args, r.rootsOf(a, v))
						}
						sent = translate(a, pub[g], args)
						all[site{f, in}] = true
					}
					if len(sent) == 0 {
						continue
					}
					if pub[f] == nil {
						pub[f] = regSet{}
					}
					out := regSet{}
					for q := range sent {
						if q.Site == nil {
							out[q.whole()] = true
						}
					}
					changed = pub[f].add(out) || changed
					if w := c.writtenAfter(r, f, in, sent); w != "" {
						bad[site{f, in}] = w
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	var sites []site
	for s := range all {
		sites = append(sites, s)
	}
	sort.Slice(sites, func(i, j int) bool { return sites[i].in.Pos() < sites[j].in.Pos() })
	for _, s := range sites {
		c.visited[s.f] = true
		c.add(rule, relName(s.f), s.in.Pos(), bad[s] == "", "%s", orOK(bad[s], "nothing reachable from it is written after it"))
	}
}

func translate(a *regFacts, s regSet, args []regSet) regSet {
	res := regSet{}
	for q := range s {
		switch {
		case q.Glob != nil:
			res[q] = true
		case q.Param >= len(args):
		case q.Level == 0:
			res.add(args[q.Param])
		default:
			res.add(a.closure(a.load(args[q.Param])))
		}
	}
	return res
}

func (c *Ctx) writtenAfter(r *Regions, f *ssa.Function, from ssa.Instruction, sent regSet) string {
	whole := regSet{}
	for q := range sent {
		whole[q.whole()] = true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for e, w := range r.effectsOf(f, in) {
				if e.Tail || !whole[e.Reg.whole()] {
					continue
				}
				var fresh ssa.Instruction
				if s := e.Reg.Site; s != nil {
					fresh = s
					if call, ok := s.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							fresh = nil // may have written into the list it was given
						}
					}
				}
				if in == fresh {
					continue
				}
				if reaches(from, in, fresh) {
					return fmt.Sprintf("%s may write it later (%s): %s", relName(f), c.p.pos(w.Pos), e.Reg.describe(f))
				}
			}
		}
	}
	return ""
}

// ---- queues ----

// queues: with the slicing evaluated for any mesh, as much is received as is sent, and nobody waits
// for ever
func (c *Ctx) queues(users map[*ssa.Function]bool) {
	rule := "no channel operation waits for ever"
	f := c.require(c.p.fn("slicers", "SliceByVector"), "slicers.SliceByVector")
	if f == nil {
		return
	}
	c.guard(rule, relName(f), f.Pos(), func() {
		args := argTerms(f)
		care := bNot(settingField(args[2], "SupportsOn"))
		o := c.run(f, args, Client{Opaque: sliceOpaque, Stages: true, SiteFree: true, Call: freshCopies}, nil, care)
		it := o.it
		for g := range users {
			if !it.Visited[g] {
				c.add(rule, relName(g), g.Pos(), false, "undecided: uses channels outside the slicing that is evaluated")
			}
		}
		if len(it.pending) > 0 {
			c.add(rule, relName(f), f.Pos(), false, "workers are started whose queue is not closed: they wait for ever")
		}
		var chs []*Term
		for ch := range it.chans {
			chs = append(chs, ch)
		}
		sort.Slice(chs, func(i, j int) bool { return chs[i].ID < chs[j].ID })
		room := false
		for _, ch := range chs {
			q, i := chanCells(ch)
			sent, got := seqLen(it.seqOf(o.st, it.load(o.st, q))), it.load(o.st, i)
			if it.untilClosed[ch] {
				got = numSub(got, mkNum(1)) // the receive that finds the queue closed
			}
			roomHere := eqTerms(numMinMax("max", mkNum(0), it.chanCap[ch]), sent, o.cond)
			room = room || roomHere
			c.add(rule, "the queue of "+it.chans[ch].String(), f.Pos(), eqTerms(sent, got, o.cond), "sent %s, received %s", short(sent), short(got))
			c.count("queues", 1)
		}
		if len(chs) > 0 {
			c.add(rule, relName(f), f.Pos(), room, "%s", map[bool]string{true: "one queue has room for all that is sent over it", false: "neither queue has room for all: sender and workers may wait for each other"}[room])
		}
	})
	c.closing(rule)
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 120 && os.Getenv("AZ_LONG") == "" {
		s = s[:120] + "..."
	}
	return s
}

// closing: every path from the start of workers that are not waited for to the end closes a queue
func (c *Ctx) closing(rule string) {
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				if wait, ok := c.p.parFor[call.Call.StaticCallee()]; !ok || wait {
					continue
				}
				if c.p.parFor[f] {
					continue
				}
				ok = c.closesAfter(f, in)
				c.add(rule, relName(f), in.Pos(), ok, "%s", map[bool]string{true: "every path closes the workers' queue", false: "a path returns without closing the workers' queue: they never end"}[ok])
			}
		}
	}
}

func (c *Ctx) closesAfter(f *ssa.Function, from ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok && c.closesChan(d, 0) && dominates(d, from) {
				return true
			}
		}
	}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Call:
				if c.closesChan(x, 0) {
					return true
				}
			case *ssa.Defer:
				if c.closesChan(x, 0) {
					return true
				}
			case *ssa.Return:
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if !walk(s, 0) {
					return false
				}
			}
		}
		return true
	}
	return walk(from.Block(), instrIndex(from)+1)
}

func (c *Ctx) closesChan(x ssa.CallInstruction, d int) bool {
	if b, ok := x.Common().Value.(*ssa.Builtin); ok {
		return b.Name() == "close"
	}
	g := x.Common().StaticCallee()
	if g == nil || g.Blocks == nil || !c.p.inRepo(g) || d > 3 {
		return false
	}
	lo, _ := onEveryPath(g, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && c.closesChan(ci, d+1)
	})
	return lo >= 1 && lo < 1<<20
}
