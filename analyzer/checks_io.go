package main

// C09: input and output failures are reported. C30: with debugging off nothing is written.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkFn{run: checkC09, rule: "Typestate over every call whose result includes an error from opening, reading, creating, writing or flushing: on every path on which that error is non-nil the function ends by returning a non-nil error or by stopping the program. Every bufio.Writer over a file is flushed, and every bufio.Scanner asked for its error, before a successful return. Reads that may be short are not used without their count.",
		assume: []string{"bufio.Writer keeps the first write error and reports it at Flush (documented), so writes to it may be left unchecked"}}
	checks["C30"] = checkFn{run: checkC30, rule: "Effect analysis of package debug: with the configured debug flag read as false, no file-changing call is reachable from any of its functions or initialisers; every file-changing call takes the configured file name; the flag is never set by the code and is false when the configuration cannot be read."}
}

// lastErr: the error result of a call, as type.
func returnsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

func baseOfIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func typeName(v ssa.Value) string { return types.TypeString(v.Type(), nil) }

// memoryWriter: writing to it cannot fail.
func memoryWriter(v ssa.Value) bool {
	b := baseOfIface(v)
	switch typeName(b) {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	if u, ok := b.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
			return true
		}
	}
	return false
}

func bufferedWriter(v ssa.Value) bool { return typeName(baseOfIface(v)) == "*bufio.Writer" }

// ioErrorCall: the call can report an input or output failure.
func ioErrorCall(p *Program, c *ssa.CallCommon) bool {
	if !returnsError(c.Signature()) {
		return false
	}
	name, pkg := "", ""
	if c.IsInvoke() {
		name = c.Method.Name()
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		if memoryWriter(c.Value) {
			return false
		}
	} else if f := c.StaticCallee(); f != nil {
		name = f.Name()
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		} else if o := f.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		} else if f.Parent() != nil {
			pkg = repoPrefix
		}
	} else {
		return true // a function value: assume it may
	}
	if strings.HasPrefix(pkg, repoPrefix) {
		return true
	}
	switch pkg {
	case "strconv", "encoding/hex", "unicode/utf8", "time", "errors", "regexp", "net/url", "math/big", "hash", "hash/fnv", "crypto/sha256":
		return false
	case "fmt":
		switch {
		case strings.HasPrefix(name, "Fprint"):
			return !memoryWriter(c.Args[0]) && !bufferedWriter(c.Args[0])
		case strings.HasPrefix(name, "Fscan"):
			return true
		}
		return false
	case "bytes", "strings":
		return name == "WriteTo" || name == "ReadFrom"
	case "bufio":
		if !c.IsInvoke() && c.Signature().Recv() != nil && typeName(c.Args[0]) == "*bufio.Writer" {
			return name == "Flush"
		}
		return true
	case "encoding/binary", "io":
		if len(c.Args) > 0 && (memoryWriter(c.Args[0]) || bufferedWriter(c.Args[0])) && (name == "Write" || name == "WriteString") {
			return pkg == "encoding/binary" && !memoryWriter(c.Args[0])
		}
		return true
	}
	return name != "Close"
}

func isRepoDebug(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && pk.Pkg.Path() == repoPrefix+"/debug"
}

func errResult(x *ssa.Call) []ssa.Value {
	t, ok := x.Type().(*types.Tuple)
	if !ok {
		return []ssa.Value{x}
	}
	var out []ssa.Value
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == t.Len()-1 {
			out = append(out, e)
		}
	}
	return out
}

func callLabel(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "call of " + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return "call of " + relName(f)
	}
	return "call of a function value"
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return 0
}

func checkC09(c *Ctx) {
	n, nf := 0, 0
	for _, f := range c.p.funcs {
		if f.Synthetic != "" || isRepoDebug(f) {
			continue
		}
		c.visited[f] = true
		nf++
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if ioErrorCall(c.p, x.Common()) {
						n++
						c.errorHandled(f, x, b, i)
					}
					c.shortRead(f, x)
					c.mustCall(f, x, b, i)
				case *ssa.Defer:
					if ioErrorCall(c.p, x.Common()) && !isClose(x.Common()) {
						c.add("error-reported", relName(f)+": deferred "+callLabel(x.Common()), x.Pos(), false, "the error of this deferred call is dropped")
					}
				case *ssa.Go:
					if ioErrorCall(c.p, x.Common()) {
						c.add("error-reported", relName(f)+": "+callLabel(x.Common()), x.Pos(), false, "the error of this call is dropped")
					}
				}
			}
		}
	}
	c.count("io_calls", n)
	c.count("functions_scanned", nf)
	if n < 10 {
		c.add("instances", "input and output calls", token.NoPos, false, "only %d calls that can fail were found: undecided", n)
	}
}

func isClose(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Close"
	}
	f := c.StaticCallee()
	return f != nil && f.Name() == "Close"
}

// failureReturn: the return reports failure under the facts.
func failureReturn(w *walker, r *ssa.Return, f *facts) bool {
	n := len(r.Results)
	return n > 0 && isErrorType(r.Results[n-1].Type()) && w.known(r.Results[n-1], f) == fNonNil
}

func (c *Ctx) errorHandled(f *ssa.Function, x *ssa.Call, b *ssa.BasicBlock, i int) {
	if isClose(x.Common()) {
		return
	}
	construct := relName(f) + ": " + callLabel(x.Common())
	c.guard("error-reported", construct, x.Pos(), func() {
		errs := errResult(x)
		ok, at := true, token.NoPos
		w := newWalker(c.p, walkClient{interproc: true})
		bad := func(pos token.Pos) {
			if ok {
				ok, at = false, pos
			}
		}
		w.cl.ret = func(r *ssa.Return, fs *facts) {
			if !failureReturn(w, r, fs) {
				bad(r.Pos())
			}
		}
		w.cl.instr = func(in ssa.Instruction, fs *facts) bool {
			if k, ok := in.(*ssa.Call); ok && exitsOK(k.Common()) {
				bad(k.Pos())
				return false
			}
			return true
		}
		absent := func(v ssa.Value, fs *facts) bool {
			k, ok := v.(*ssa.Call)
			if !ok || k.Common().StaticCallee() == nil {
				return false
			}
			switch k.Common().StaticCallee().String() {
			case "os.IsNotExist":
				return w.known(k.Common().Args[0], fs) == fNonNil
			case "errors.Is":
				if u, ok := k.Common().Args[1].(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Name() == "ErrNotExist" {
						return w.known(k.Common().Args[0], fs) == fNonNil
					}
				}
			}
			return false
		}
		if c.planesReader(f) && isOpen(x.Common()) {
			w.cl.tolerated = absent
		}
		fs := newFacts()
		fs.val[x] = fNonNil
		if len(errs) == 0 {
			// nobody looks at the error
			if !onlyFails(c.p, b, i+1) {
				c.add("error-reported", construct, x.Pos(), false, "the error this call may return is dropped")
				return
			}
		}
		w.from(b, i+1, fs)
		c.add("error-reported", construct, x.Pos(), ok, "when this call fails, %s still ends as if nothing had happened (%s)", relName(f), c.p.pos(at))
	})
}

// onlyFails: every path from here reports failure whatever happened.
func onlyFails(p *Program, b *ssa.BasicBlock, i int) bool {
	ok := true
	w := newWalker(p, walkClient{interproc: true})
	w.cl.ret = func(r *ssa.Return, fs *facts) { ok = ok && failureReturn(w, r, fs) }
	w.from(b, i, newFacts())
	return ok
}

func isOpen(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "os.Open", "io/ioutil.ReadFile", "os.ReadFile", "os.OpenFile", "os.Stat":
		return true
	}
	return false
}

// planesReader: functions of the vip slicer; the planes file is the only file they read.
func (c *Ctx) planesReader(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && pk.Pkg.Path() == repoPrefix+"/slicers/vip"
}

// shortRead: a read that may return fewer bytes than asked for, with the count ignored.
func (c *Ctx) shortRead(f *ssa.Function, x *ssa.Call) {
	cc := x.Common()
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && !c.p.inRepo(g) {
		name = g.Name()
	}
	if name != "Read" && name != "ReadAt" || cc.Signature().Results().Len() != 2 {
		return
	}
	used := false
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 0 && len(*e.Referrers()) > 0 {
			used = true
		}
	}
	c.add("short-read", relName(f)+": "+callLabel(cc), x.Pos(), used || name == "ReadAt", "the number of bytes read is ignored, so a partial read passes as a complete one")
}

// mustCall: a buffered writer is flushed, a scanner asked for its error, before success.
func (c *Ctx) mustCall(f *ssa.Function, x *ssa.Call, b *ssa.BasicBlock, i int) {
	var must string
	switch typeName(x) {
	case "*bufio.Writer":
		must = "Flush"
		if g := x.Common().StaticCallee(); g != nil && strings.HasPrefix(g.String(), "bufio.NewWriter") && memoryWriter(x.Common().Args[0]) {
			return
		}
	case "*bufio.Scanner":
		must = "Err"
		if g := x.Common().StaticCallee(); g != nil && g.String() == "bufio.NewScanner" {
			switch typeName(baseOfIface(x.Common().Args[0])) {
			case "*bytes.Buffer", "*strings.Reader", "*bytes.Reader":
				return
			}
		}
	default:
		return
	}
	rule := "flushed-before-success"
	if must == "Err" {
		rule = "scan-error-checked"
	}
	construct := relName(f) + ": " + callLabel(x.Common())
	c.guard(rule, construct, x.Pos(), func() {
		ok, at := true, token.NoPos
		c.mustFrom(must, map[ssa.Value]bool{x: true}, b, i+1, 0, func(pos token.Pos) {
			if ok {
				ok, at = false, pos
			}
		})
		c.add(rule, construct, x.Pos(), ok, "%s can end successfully (%s) without %s having been called", relName(f), c.p.pos(at), must)
	})
}

func (c *Ctx) mustFrom(must string, is map[ssa.Value]bool, b *ssa.BasicBlock, i, depth int, bad func(token.Pos)) {
	w := newWalker(c.p, walkClient{interproc: true})
	locs := map[locKey]bool{}
	w.cl.instr = func(in ssa.Instruction, fs *facts) bool {
		switch k := in.(type) {
		case *ssa.Store:
			if l, ok := locOf(k.Addr); ok && is[k.Val] {
				locs[l] = true
			}
		case *ssa.UnOp:
			if l, ok := locOf(k.X); ok && k.Op == token.MUL && locs[l] {
				is[k] = true
			}
		case *ssa.Phi:
			for _, e := range k.Edges {
				if is[e] {
					is[k] = true
				}
			}
		case *ssa.Call:
			cc := k.Common()
			if cc.IsInvoke() && cc.Method.Name() == must && is[baseOfIface(cc.Value)] {
				return false
			}
			g := cc.StaticCallee()
			if g == nil {
				return true
			}
			if g.Signature.Recv() != nil && g.Name() == must && len(cc.Args) > 0 && is[cc.Args[0]] {
				return false
			}
			if c.p.inRepo(g) && g.Blocks != nil && depth < 4 {
				sub := map[ssa.Value]bool{}
				for j, a := range cc.Args {
					if j < len(g.Params) && is[baseOfIface(a)] {
						sub[g.Params[j]] = true
					}
				}
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
					for j, bd := range mc.Bindings {
						l, ok := locOf(bd)
						if is[bd] || ok && locs[l] {
							sub[g.FreeVars[j]] = true
						}
					}
				}
				if len(sub) > 0 {
					done := true
					c.mustFrom(must, sub, g.Blocks[0], 0, depth+1, func(token.Pos) { done = false })
					if done {
						return false
					}
				}
			}
		}
		return true
	}
	w.cl.ret = func(r *ssa.Return, fs *facts) {
		if failureReturn(w, r, fs) {
			return
		}
		for _, v := range r.Results {
			if is[v] {
				return // handed to the caller, who has the same obligation
			}
		}
		bad(r.Pos())
	}
	w.from(b, i, newFacts())
}

// ---------- C30

var fileChanging = map[string]int{ // index of the path argument, -1: acts on an open file
	"os.Create": 0, "os.Remove": 0, "os.RemoveAll": 0, "os.OpenFile": 0, "os.Rename": 0, "os.Truncate": 0, "os.Mkdir": 0, "os.MkdirAll": 0,
	"os.Chmod": 0, "os.Chtimes": 0, "os.Link": 0, "os.Symlink": 0, "os.WriteFile": 0, "io/ioutil.WriteFile": 0, "io/ioutil.TempFile": 0, "os.CreateTemp": 0, "os.MkdirTemp": 0, "io/ioutil.TempDir": 0,
	"(*os.File).Write": -1, "(*os.File).WriteString": -1, "(*os.File).WriteAt": -1, "(*os.File).Truncate": -1, "(*os.File).Chmod": -1, "syscall.Unlink": 0, "os/exec.Command": 0,
}

func isCfg(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == repoPrefix+"/debug" && n.Obj().Name() == "Cfg"
}

// cfgField: the value is this field of the debug configuration.
func cfgField(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isCfg(a.X.Type()) {
			return deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field).Name() == name
		}
	case *ssa.Field:
		return isCfg(x.X.Type()) && x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name() == name
	}
	return false
}

func checkC30(c *Ctx) {
	pk := c.p.pkg("debug")
	if pk == nil {
		c.add("anchor", "debug", token.NoPos, false, "package debug not found: undecided")
		return
	}
	st, ok := func() (*types.Struct, bool) {
		t := c.p.typ("debug", "Cfg")
		if t == nil {
			return nil, false
		}
		s, ok := t.Underlying().(*types.Struct)
		return s, ok
	}()
	has := map[string]bool{}
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			has[st.Field(i).Name()] = true
		}
	}
	if !c.add("anchor", "debug.Cfg", token.NoPos, has["Debug"] && has["DebugFile"], "the debug configuration with its flag and file name was not found: undecided") {
		return
	}
	// callers outside the package that write debug output themselves are debug functions too
	roots := []*ssa.Function{}
	for _, f := range c.p.funcs {
		if f.Synthetic == "" && isRepoDebug(f) && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	if in := pk.Func("init"); in != nil {
		roots = append(roots, in)
	}
	adder := c.p.fn("primitives", "AddToFile")
	effects := 0
	for _, f := range roots {
		f := f
		c.visited[f] = true
		c.guard("off-means-no-file-touched", relName(f), f.Pos(), func() {
			msg, at := "", f.Pos()
			var visit func(g *ssa.Function, depth int)
			busy := map[*ssa.Function]bool{}
			visit = func(g *ssa.Function, depth int) {
				if busy[g] || g.Blocks == nil {
					return
				}
				busy[g] = true
				c.visited[g] = true
				w := newWalker(c.p, walkClient{interproc: true})
				w.cl.cond = func(v ssa.Value, fs *facts) fact {
					if cfgField(v, "Debug") {
						return fFalse
					}
					return 0
				}
				w.cl.instr = func(in ssa.Instruction, fs *facts) bool {
					cc := callOf(in)
					if cc == nil {
						return true
					}
					h := cc.StaticCallee()
					if h == nil {
						return true
					}
					if _, bad := fileChanging[h.String()]; bad {
						if msg == "" {
							msg, at = "with debugging off, "+relName(g)+" still reaches "+h.String(), in.Pos()
						}
						return true
					}
					if c.p.inRepo(h) && !c.p.isSpec(h) {
						visit(h, depth+1)
					}
					for _, a := range cc.Args { // functions handed on run too
						if mc, ok := a.(*ssa.MakeClosure); ok {
							visit(mc.Fn.(*ssa.Function), depth+1)
						} else if fv, ok := a.(*ssa.Function); ok && c.p.inRepo(fv) {
							visit(fv, depth+1)
						}
					}
					return true
				}
				w.from(g.Blocks[0], 0, newFacts())
			}
			visit(f, 0)
			c.add("off-means-no-file-touched", relName(f), at, msg == "", "%s", msg)
		})
	}
	// which file
	for _, f := range c.p.funcs {
		if f.Synthetic != "" {
			continue
		}
		inDebug := isRepoDebug(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && isCfg(a.X.Type()) && deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field).Name() == "Debug" {
						k, isC := s.Val.(*ssa.Const)
						c.add("flag-only-from-configuration", relName(f), in.Pos(), isC && (k.Value == nil || k.Value.String() == "false") || cfgField(s.Val, "Debug"), "the debug flag is set by the code")
					}
				}
				cc := callOf(in)
				if cc == nil {
					continue
				}
				h := cc.StaticCallee()
				if h == nil {
					continue
				}
				if adder != nil && h == adder && !inDebug {
					c.add("debug-file-written-by-debug-only", relName(f), in.Pos(), false, "appends to a file outside package debug, where the debug flag is not consulted")
				}
				i, eff := fileChanging[h.String()]
				if h == adder {
					i, eff = 1, true
				}
				if !inDebug || !eff || i < 0 {
					continue
				}
				effects++
				c.add("only-the-configured-file", relName(f)+": "+callLabel(cc), in.Pos(), c.isDebugFile(f, cc.Args[i], 0), "the file name is not the configured debug file")
			}
		}
	}
	c.count("file_changing_calls", effects)
	if effects == 0 {
		c.add("instances", "debug", token.NoPos, false, "no file-changing call found in package debug: undecided")
	}
	c.configOff()
}

func callOf(in ssa.Instruction) *ssa.CallCommon {
	if k, ok := in.(ssa.CallInstruction); ok {
		return k.Common()
	}
	return nil
}

// isDebugFile: the value is the configured debug file, possibly handed through parameters.
func (c *Ctx) isDebugFile(f *ssa.Function, v ssa.Value, depth int) bool {
	if cfgField(v, "DebugFile") {
		return true
	}
	if depth > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.isDebugFile(f, e, depth+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || g.Blocks == nil || !c.p.inRepo(g) {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if len(r.Results) != 1 || !c.isDebugFile(g, r.Results[0], depth+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		n := 0
		for _, g := range c.p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if cc := callOf(in); cc != nil && cc.StaticCallee() == f {
						n++
						if !c.isDebugFile(g, cc.Args[idx], depth+1) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// configOff: without a readable configuration the flag is false.
func (c *Ctx) configOff() {
	f := c.require(c.p.fn("debug", "Config"), "debug.Config")
	if f == nil {
		return
	}
	c.guard("no-configuration-means-off", relName(f), f.Pos(), func() {
		ok, n := true, 0
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				x, isCall := in.(*ssa.Call)
				if !isCall || !isOpen(x.Common()) {
					continue
				}
				n++
				w := newWalker(c.p, walkClient{interproc: true})
				fs := newFacts()
				fs.val[x] = fNonNil
				w.cl.instr = func(in ssa.Instruction, fs *facts) bool {
					if k, isCall := in.(*ssa.Call); isCall && k != x {
						if g := k.Common().StaticCallee(); g != nil && strings.HasSuffix(g.String(), "Unmarshal") {
							ok = false
						}
					}
					return true
				}
				w.cl.ret = func(r *ssa.Return, fs *facts) {}
				w.from(b, i+1, fs)
			}
		}
		c.add("no-configuration-means-off", relName(f), f.Pos(), ok && n > 0, "when the configuration cannot be read it is decoded all the same")
	})
}
