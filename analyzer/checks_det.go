package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = checkFn{run: checkC19, rule: "Over every function the programs can reach: ranging over a map is allowed only where the order cannot matter (replacing placeholders none of which contains another and whose values contain none; collecting keys that are sorted before use; filling another map); the clock is read only for the printed date; the number of processors only counts workers; random numbers, environment variables, process and host names, temporary names, select statements and printed addresses are not used at all; package variables are constant. SliceByVector, evaluated symbolically with the order of results from its workers unknown, has to return a term in which that order does not occur.",
		assume: []string{"workers do not race (C18)", "sorting with a given comparison is deterministic (the standard library uses no random numbers)", "the input files are not changed while they are read"}}
}

// reachable: the functions the programs can call, function values and interface methods included
func (c *Ctx) reachable() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] && c.p.inRepo(f) {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, f := range c.p.funcs {
		if f.Pkg != nil && f.Parent() == nil && f.Pkg.Pkg.Name() == "main" && (f.Name() == "main" || f.Name() == "init") {
			push(f)
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			push(f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if g, ok := (*op).(*ssa.Function); ok {
						push(g)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, i := range c.p.impls(ci.Common().Method) {
						push(i.fn)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					// methods the standard library may call (String, Error, Write, Len, Less, Swap, ...)
					ms := c.p.ssa.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if m := c.p.ssa.MethodValue(ms.At(i)); m != nil && m.Pkg != nil && calledFromOutside[m.Name()] {
							push(m)
						}
					}
				}
			}
		}
	}
	return seen
}

var calledFromOutside = map[string]bool{"String": true, "Error": true, "Format": true, "GoString": true, "Write": true, "Read": true, "Len": true, "Less": true, "Swap": true, "WriteTo": true, "ReadFrom": true, "WriteString": true, "Close": true, "Set": true, "UnmarshalText": true, "MarshalText": true}

// what a program may use without its output depending on anything but its input
var deterministicPkgs = map[string]bool{"math": true, "strings": true, "strconv": true, "sort": true, "bytes": true, "bufio": true, "io": true, "errors": true, "fmt": true, "log": true, "sync": true, "encoding/binary": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "math/bits": true, "regexp": true, "encoding/hex": true, "math/cmplx": true, "container/heap": true, "container/list": true, "sync/atomic": true, "text/template": true}

var someFuncs = map[string]bool{
	"os.Open": true, "os.Create": true, "os.OpenFile": true, "os.Exit": true, "os.Remove": true, "os.IsNotExist": true, "os.IsExist": true, "os.Stat": true, "os.ReadFile": true, "os.WriteFile": true, "os.MkdirAll": true, "os.Mkdir": true, "os.Rename": true,
	"io/ioutil.ReadFile": true, "io/ioutil.WriteFile": true, "io/ioutil.ReadAll": true,
	"(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).Mode": true, "(os.FileInfo).Size": true, "(os.FileInfo).IsDir": true, "(os.FileInfo).Name": true,
	"runtime.NumCPU": true, "runtime.GOMAXPROCS": true,
}

// libraries outside the standard one: option parsing, the debug configuration, mesh simplification
var foreign = []string{"gopkg.in/alecthomas/kingpin", "github.com/alecthomas/kingpin", "gopkg.in/yaml", "github.com/fogleman/simplify"}

func checkC19(c *Ctx) {
	reach := c.reachable()
	rule := "nothing but the input decides the output"
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool {
		return fs[i].Pos() < fs[j].Pos() || fs[i].Pos() == fs[j].Pos() && fs[i].String() < fs[j].String()
	})
	clocks := 0
	for _, f := range fs {
		c.visited[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						why := c.mapRange(f, x)
						c.add("the order of a map does not matter", relName(f), x.Pos(), why == "", "%s", orOK(why, "what is done with the entries does not depend on their order"))
					}
				case *ssa.Select:
					c.add(rule, relName(f), x.Pos(), false, "a select statement takes whichever operation is ready")
				case *ssa.Convert:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
						c.add(rule, relName(f), x.Pos(), false, "an address is used as a number")
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if wait, ok := c.p.parFor[g]; ok && wait && g != nil {
					as := ci.Common().Args
					for _, mc := range c.workOf(as[len(as)-1]) {
						c.ownNumber(f, mc)
					}
				}
				if g == nil || g.Pkg == nil || c.p.inRepo(g) {
					if ok && g != nil && g.Pkg == nil {
						continue
					}
					if g == nil && ci.Common().IsInvoke() && ci.Common().Method.Pkg() != nil {
						c.outside(rule, f, ci, ci.Common().Method.Pkg().Path(), ci.Common().Method.FullName(), true)
					}
					continue
				}
				name := g.String()
				switch {
				case name == "time.Now":
					clocks++
					why := c.onlyDate(f, in.(ssa.Value))
					c.add("the clock is read for the printed date only", relName(f), in.Pos(), why == "", "%s", orOK(why, "the time read becomes the printed date"))
				case g.Pkg.Pkg.Path() == "time" && g.Signature.Recv() != nil, name == "time.Duration", strings.HasPrefix(name, "time.Since"):
					if strings.HasPrefix(name, "time.Since") {
						c.add(rule, relName(f), in.Pos(), false, "reads the clock")
					}
				case name == "runtime.NumCPU" || name == "runtime.GOMAXPROCS":
					v, isV := in.(ssa.Value)
					why := ""
					if isV {
						why = c.onlyWorkers(f, v)
					}
					c.add("the number of processors only counts workers", relName(f), in.Pos(), why == "", "%s", orOK(why, "used as the number of workers"))
				default:
					c.outside(rule, f, ci, g.Pkg.Pkg.Path(), name, g.Signature.Recv() != nil)
				}
			}
		}
	}
	c.add(rule, "the programs", token.NoPos, true, "%d functions reachable from the five programs examined", len(fs))
	c.count("reachable functions", len(fs))
	c.count("clock readings", clocks)
	c.globals(c.p.regions())
	c.unordered()
}

// outside: a call of something that is not in the repository
func (c *Ctx) outside(rule string, f *ssa.Function, ci ssa.CallInstruction, pkg, name string, method bool) {
	if strings.HasPrefix(pkg, repoPrefix) || name == pkg+".init" {
		return
	}
	for _, p := range foreign {
		if strings.HasPrefix(pkg, p) {
			return
		}
	}
	if pkg == "fmt" || pkg == "log" {
		c.printed(rule, f, ci)
	}
	if deterministicPkgs[pkg] || someFuncs[name] || pkg == "os" && method {
		return
	}
	c.add(rule, relName(f), ci.Pos(), false, "%s is not known to depend on the input only", name)
}

// printed: no address is printed
func (c *Ctx) printed(rule string, f *ssa.Function, ci ssa.CallInstruction) {
	for _, a := range ci.Common().Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			c.add(rule, relName(f), ci.Pos(), false, "prints an address (%%p)")
		}
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, v := range *ia.Referrers() {
				st, ok := v.(*ssa.Store)
				if !ok {
					continue
				}
				mi, ok := st.Val.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				if addressIn(mi.X.Type(), 0) && !hasMethod(mi.X.Type(), "String") && !hasMethod(mi.X.Type(), "Error") {
					c.add(rule, relName(f), ci.Pos(), false, "prints a value of type %s, which shows an address", mi.X.Type())
				}
			}
		}
	}
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

// addressIn: printing a value of this type shows an address
func addressIn(t types.Type, d int) bool {
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		if d > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return addressIn(u.Elem(), d+1)
		}
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		if d < 6 {
			for i := 0; i < u.NumFields(); i++ {
				if addressIn(u.Field(i).Type(), d+1) {
					return true
				}
			}
		}
	case *types.Slice:
		return addressIn(u.Elem(), d+1)
	case *types.Array:
		return addressIn(u.Elem(), d+1)
	case *types.Map:
		return addressIn(u.Key(), d+1) || addressIn(u.Elem(), d+1)
	}
	return false
}

// onlyDate: the time read is only formatted into a field named DateTime
func (c *Ctx) onlyDate(f *ssa.Function, v ssa.Value) string {
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "time" || len(x.Call.Args) == 0 || x.Call.Args[0] != v {
				return "the time read is used for something else than the printed date"
			}
			if strings.HasSuffix(x.Type().String(), "time.Time") {
				if w := c.onlyDate(f, x); w != "" {
					return w
				}
				continue
			}
			if g.Name() != "Format" && g.Name() != "String" {
				return "the time read is used as a number"
			}
			if w := c.dateText(x, 0); w != "" {
				return w
			}
		case *ssa.Store:
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok || theOnlyStore(al) != x {
				return "undecided: where the time read goes"
			}
			for _, r := range *al.Referrers() {
				if ld, ok := r.(*ssa.UnOp); ok {
					if w := c.onlyDate(f, ld); w != "" {
						return w
					}
				} else if r != ssa.Instruction(x) {
					return "undecided: where the time read goes"
				}
			}
		case *ssa.DebugRef:
		default:
			return "the time read is used for something else than the printed date"
		}
	}
	return ""
}

func (c *Ctx) dateText(v ssa.Value, d int) string {
	if d > 6 {
		return "undecided: where the time read goes"
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v && isDateField(fa) {
				continue
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v && theOnlyStore(al) == x {
				for _, r := range *al.Referrers() {
					if ld, ok := r.(*ssa.UnOp); ok {
						if w := c.dateText(ld, d+1); w != "" {
							return w
						}
					}
				}
				continue
			}
			return "the formatted time goes elsewhere than into the printed date"
		case *ssa.Return:
			// a helper that formats the date
			for _, g := range c.p.funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == x.Parent() {
							if w := c.dateText(call, d+1); w != "" {
								return w
							}
						}
					}
				}
			}
		case *ssa.DebugRef:
		default:
			return "the formatted time is used for something else than the printed date"
		}
	}
	return ""
}

func isDateField(fa *ssa.FieldAddr) bool {
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return ok && st.Field(fa.Field).Name() == "DateTime"
}

// onlyWorkers: a number of processors bounds a loop that starts goroutines and is handed to them
func (c *Ctx) onlyWorkers(f *ssa.Function, v ssa.Value) string {
	if _, ok := c.p.parFor[f]; ok {
		return "" // the helper's use of it is judged with C18's rule
	}
	for _, u := range *v.Referrers() {
		if ret, ok := u.(*ssa.Return); ok && ret.Parent() == f {
			for _, g := range c.p.funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == f {
							if w := c.onlyWorkers(g, call); w != "" {
								return w
							}
						}
					}
				}
			}
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		return "the number of processors is used for something else than counting workers"
	}
	return ""
}

// unordered: the layers do not depend on the order in which the workers deliver them
func (c *Ctx) unordered() {
	rule := "the order of results does not matter"
	f := c.require(c.p.fn("slicers", "SliceByVector"), "slicers.SliceByVector")
	if f == nil {
		return
	}
	c.guard(rule, relName(f), f.Pos(), func() {
		args := argTerms(f)
		care := bNot(settingField(args[2], "SupportsOn"))
		o := c.run(f, args, Client{Opaque: sliceOpaque, Stages: true, SiteFree: true, Call: freshCopies}, nil, care)
		found := ""
		look := func(t *Term) {
			mentionsF(t, func(a *Atom) bool {
				if a.Op == "perm" || a.Op == "worker" || a.Op == "workers" {
					found = a.Op
				}
				return false
			})
		}
		look(o.ret)
		if found == "" && lost(o.ret) {
			c.add(rule, relName(f), f.Pos(), false, "undecided: the layers returned cannot be followed")
		}
		for _, ob := range sortedObjs(o.mem) {
			look(o.mem[ob])
		}
		c.add(rule, relName(f), f.Pos(), found == "", "%s", map[bool]string{true: "the layers returned are the same in whatever order the workers deliver them", false: "the layers returned depend on the order in which the workers deliver them"}[found == ""])
		c.count("queues", len(o.it.chans))
	})
}

// ---- maps ----

var plainKey = regexp.MustCompile(`^\{[^{}]+\}$`)

// mapRange says why the order of a loop over a map may matter ("" if it cannot)
func (c *Ctx) mapRange(f *ssa.Function, r *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if next != nil {
				return "undecided: the loop over the map"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	in := loopOf(head)
	var k, v ssa.Value
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				k = e
			case 2:
				v = e
			}
		}
	}
	// leaving the loop early picks an entry
	for b := range in {
		for _, s := range b.Succs {
			if !in[s] && b != head {
				return "the loop over the map may stop at any entry"
			}
		}
	}
	needKeys := false
	for b := range in {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				if x.Block() != head {
					continue
				}
				why, text := c.orderFree(f, x, in, k, v)
				if why != "" {
					return why
				}
				needKeys = needKeys || text
			case *ssa.Store:
				if al, ok := addrRoot(x.Addr).(*ssa.Alloc); ok && in[al.Block()] {
					continue // memory of this round, such as the arguments of a call
				}
				return "something outside is written for each entry of the map"
			case *ssa.MapUpdate:
				if x.Key != k {
					return "another map is written under keys that may repeat"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "something is done for each entry of the map in its order"
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append", "len", "cap", "min", "max":
						continue
					case "delete":
						continue
					}
					return "something is done for each entry of the map in its order"
				}
				g := x.Call.StaticCallee()
				if g == nil {
					return "something is done for each entry of the map in its order"
				}
				if c.p.inRepo(g) {
					for e := range c.p.regions().of(g).mods {
						if shared(e) {
							return "something outside is written for each entry of the map"
						}
					}
					continue
				}
				if p := g.Pkg; p == nil || p.Pkg.Path() != "strings" && p.Pkg.Path() != "strconv" && p.Pkg.Path() != "math" {
					return "something is done for each entry of the map in its order: " + g.String()
				}
			}
		}
	}
	if needKeys {
		return c.separateKeys(f, r.X)
	}
	return ""
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return v
		}
	}
}

// loopOf: the blocks of the loop with this head
func loopOf(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if res[b] {
			return
		}
		res[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	return res
}

// orderFree: a value carried round the loop comes out the same for every order of the entries
func (c *Ctx) orderFree(f *ssa.Function, phi *ssa.Phi, in map[*ssa.BasicBlock]bool, k, v ssa.Value) (why string, text bool) {
	for i, e := range phi.Edges {
		if !in[phi.Block().Preds[i]] || e == ssa.Value(phi) {
			continue
		}
		switch x := e.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == ssa.Value(phi) {
				// collected: sorted before anything else, or handed to a replacer
				switch c.collected(phi, x, in) {
				case "sorted":
					continue
				case "replacer":
					text = true
					continue
				}
				return "entries are collected in the map's order and used without sorting them", false
			}
			g := x.Call.StaticCallee()
			if g != nil && (g.String() == "strings.Replace" && isConstInt(x.Call.Args[3], -1) || g.String() == "strings.ReplaceAll") && x.Call.Args[0] == ssa.Value(phi) && x.Call.Args[1] == k && x.Call.Args[2] == v {
				text = true
				continue
			}
		case *ssa.BinOp:
			t, isBasic := x.Type().Underlying().(*types.Basic)
			if isBasic && t.Info()&types.IsInteger != 0 && (x.Op == token.ADD || x.Op == token.MUL || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR) {
				o := x.Y
				if x.X != ssa.Value(phi) {
					o = x.X
				}
				if (x.X == ssa.Value(phi)) != (x.Y == ssa.Value(phi)) && !carries(o, phi, 0) {
					continue
				}
			}
		}
		return "a value is carried from one entry of the map to the next", false
	}
	return "", text
}

func carries(v ssa.Value, phi *ssa.Phi, d int) bool {
	if v == ssa.Value(phi) || d > 8 {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == phi.Block() {
		return true
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if *o != nil && carries(*o, phi, d+1) {
			return true
		}
	}
	return false
}

// collected: what becomes of a list that is filled in a map's order
func (c *Ctx) collected(phi *ssa.Phi, app *ssa.Call, in map[*ssa.BasicBlock]bool) string {
	var sortCall ssa.Instruction
	var uses []ssa.Instruction
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			if in[u.Block()] || u == ssa.Instruction(app) {
				continue
			}
			switch x := u.(type) {
			case *ssa.MakeInterface:
				scan(x)
				continue
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sort" {
					switch g.Name() {
					case "Strings", "Ints", "Float64s":
						sortCall = u
						continue
					}
				}
			case *ssa.DebugRef:
				continue
			}
			uses = append(uses, u)
		}
	}
	scan(phi)
	if sortCall != nil {
		for _, u := range uses {
			if !dominates(sortCall, u) {
				return ""
			}
		}
		return "sorted"
	}
	for _, u := range uses {
		call, ok := u.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "strings.NewReplacer" {
			return ""
		}
	}
	return "replacer"
}

// separateKeys: every map that gets here has constant keys in braces and values without braces, so
// that replacing them one after the other gives the same text in any order
func (c *Ctx) separateKeys(f *ssa.Function, m ssa.Value) string {
	maps, why := c.mapsOf(f, m, 0)
	if why != "" {
		return why
	}
	for _, mm := range maps {
		for _, u := range *mm.Referrers() {
			x, ok := u.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			k, ok := x.Key.(*ssa.Const)
			if !ok || !plainKey.MatchString(constant.StringVal(k.Value)) {
				return "replaced in any order, but a key is not a constant in braces: " + x.Key.String()
			}
			if !c.braceless(x.Value, 0) {
				return "replaced in any order, but the value of " + k.String() + " may contain a placeholder"
			}
		}
	}
	return ""
}

func (c *Ctx) mapsOf(f *ssa.Function, m ssa.Value, d int) ([]*ssa.MakeMap, string) {
	und := "undecided: where the map of placeholders comes from"
	if d > 6 {
		return nil, und
	}
	m = throughCell(m)
	switch x := m.(type) {
	case *ssa.MakeMap:
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.MapUpdate, *ssa.Return, *ssa.Call, *ssa.Range, *ssa.Lookup, *ssa.DebugRef:
			case *ssa.Store:
				if al, ok := y.Addr.(*ssa.Alloc); !ok || theOnlyStore(al) != y {
					return nil, und
				}
			default:
				return nil, und
			}
		}
		return []*ssa.MakeMap{x}, ""
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !c.p.inRepo(g) {
			return nil, und
		}
		var all []*ssa.MakeMap
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, r := range ret.Results {
					if types.Identical(r.Type(), m.Type()) {
						ms, why := c.mapsOf(g, r, d+1)
						if why != "" {
							return nil, why
						}
						all = append(all, ms...)
					}
				}
			}
		}
		return all, ""
	case *ssa.Parameter:
		var all []*ssa.MakeMap
		at := -1
		for i, p := range f.Params {
			if p == x {
				at = i
			}
		}
		for _, g := range c.p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f {
						continue
					}
					ms, why := c.mapsOf(g, ci.Common().Args[at], d+1)
					if why != "" {
						return nil, why
					}
					all = append(all, ms...)
				}
			}
		}
		return all, ""
	}
	return nil, und
}

// braceless: a text that contains no brace
func (c *Ctx) braceless(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	v = throughCell(v)
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && !strings.ContainsAny(constant.StringVal(x.Value), "{}")
	case *ssa.BinOp:
		return x.Op == token.ADD && c.braceless(x.X, d+1) && c.braceless(x.Y, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !c.braceless(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		switch g.String() {
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatFloat", "strconv.FormatBool", "strconv.FormatUint":
			return true
		case "(time.Time).Format":
			return c.braceless(x.Call.Args[1], d+1)
		case "fmt.Sprintf":
			return c.braceless(x.Call.Args[0], d+1) && numbersOnly(x.Call.Args[1])
		case "fmt.Sprint":
			return numbersOnly(x.Call.Args[0])
		case "strings.TrimRight", "strings.TrimSuffix", "strings.TrimSpace", "strings.TrimLeft", "strings.ToUpper", "strings.ToLower":
			return c.braceless(x.Call.Args[0], d+1)
		}
		if g.Blocks != nil && c.p.inRepo(g) {
			ok := true
			for _, b := range g.Blocks {
				if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
					ok = ok && len(ret.Results) == 1 && c.braceless(ret.Results[0], d+1)
				}
			}
			return ok
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return c.fieldBraceless(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field, d)
		}
	case *ssa.Field:
		return c.fieldBraceless(x.X.Type(), x.Field, d)
	}
	return false
}

// fieldBraceless: whatever the programs store in a field has no brace
func (c *Ctx) fieldBraceless(t types.Type, field int, d int) bool {
	n := 0
	for _, g := range c.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), t) {
					continue
				}
				n++
				if !c.braceless(st.Val, d+1) {
					return false
				}
			}
		}
	}
	return n > 0
}

func numbersOnly(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				return false
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				return false
			}
			b, ok := mi.X.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsNumeric == 0 {
				return false
			}
		}
	}
	return true
}

// ownNumber: what a worker that is waited for stores does not depend on its number or theirs
func (c *Ctx) ownNumber(f *ssa.Function, mc *ssa.MakeClosure) {
	h := mc.Fn.(*ssa.Function)
	tainted := map[ssa.Value]bool{}
	for _, p := range h.Params {
		tainted[p] = true
	}
	bad := token.NoPos
	for again := true; again; {
		again = false
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				hit := false
				for _, o := range in.Operands(ops) {
					hit = hit || *o != nil && tainted[*o]
				}
				if !hit {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if tainted[x.Val] {
						if al, ok := x.Addr.(*ssa.Alloc); ok {
							if !tainted[al] {
								tainted[al] = true
								again = true
							}
							continue
						}
						bad = x.Pos()
					}
				case *ssa.Call:
					for _, a := range x.Call.Args {
						if _, isPtr := a.Type().Underlying().(*types.Pointer); tainted[a] && !isPtr {
							bad = x.Pos()
						}
					}
				case *ssa.If, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.DebugRef:
				case *ssa.Phi:
					if !tainted[x] && !c.ownIndex(h, x, x) {
						tainted[x] = true
						again = true
					}
				case *ssa.BinOp:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						continue
					}
					if !tainted[x] {
						tainted[x] = true
						again = true
					}
				case ssa.Value:
					if !tainted[x] {
						tainted[x] = true
						again = true
					}
				default:
					bad = in.Pos()
				}
			}
		}
	}
	c.add("the number of processors only counts workers", relName(h), h.Pos(), bad == token.NoPos, "%s", map[bool]string{true: "what a worker stores depends on the index only", false: fmt.Sprintf("what a worker stores depends on its number or on how many there are (%s)", c.p.pos(bad))}[bad == token.NoPos])
}
