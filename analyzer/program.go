package main

// Loading the repository: type-checked packages, SSA, natural loops, interface
// implementations and the values package initialisers leave in globals.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type FnInfo struct {
	rpo    []*ssa.BasicBlock
	loopOf map[*ssa.BasicBlock]*Loop
	idx    map[ssa.Instruction]int
	loops  []*Loop
}

type Impl struct {
	typ types.Type
	fn  *ssa.Function
}

type Program struct {
	dir        string
	fset       *token.FileSet
	pkgs       []*packages.Package
	ssa        *ssa.Program
	spkgs      map[string]*ssa.Package
	funcs      []*ssa.Function // every repository function with a body, including closures
	allFuncs   []*ssa.Function // the same and the specification functions
	specErrs   map[string]string
	info       map[*ssa.Function]*FnInfo
	globalInit map[*Term]*Term
	implCache  map[*types.Func][]Impl
	parFor     map[*ssa.Function]bool
	globStored map[string]bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Overlay: specOverlay(dir), Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GO111MODULE=on")}
	if os.Getenv("GOFLAGS") != "" {
		cfg.Env = os.Environ()
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	specErrs := map[string]string{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, specPrefix) {
			for _, e := range p.Errors {
				specErrs[p.PkgPath] += e.Error() + "; "
			}
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	prog, spk := ssautil.Packages(ps, ssa.BuilderMode(0))
	prog.Build()
	p := &Program{dir: dir, fset: prog.Fset, pkgs: ps, ssa: prog, spkgs: map[string]*ssa.Package{}, info: map[*ssa.Function]*FnInfo{},
		globalInit: map[*Term]*Term{}, implCache: map[*types.Func][]Impl{}, globStored: map[string]bool{}, specErrs: specErrs}
	for _, s := range spk {
		if s != nil {
			p.spkgs[s.Pkg.Path()] = s
		}
	}
	if len(p.spkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && p.inRepo(f) {
			p.allFuncs = append(p.allFuncs, f)
			if !p.isSpec(f) {
				p.funcs = append(p.funcs, f)
			}
		}
	}
	sort.Slice(p.allFuncs, func(i, j int) bool { return p.allFuncs[i].String() < p.allFuncs[j].String() })
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	p.findParFor()
	p.evalGlobals()
	return p, nil
}

func fnPkg(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if f.Parent() == nil {
			if o := f.Object(); o != nil && o.Pkg() != nil && f.Prog != nil {
				return f.Prog.Package(o.Pkg())
			}
			if f.Origin() != nil && f.Origin() != f {
				f = f.Origin()
				continue
			}
			return nil
		}
		f = f.Parent()
	}
	return nil
}

func (p *Program) isSpec(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), specPrefix)
}

// spec finds a specification function.
func (p *Program) spec(pkg, name string) *ssa.Function {
	pk := p.spkgs[specPrefix+"/"+pkg]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Program) inRepo(f *ssa.Function) bool {
	pk := fnPkg(f)
	if pk == nil {
		return f.Blocks != nil && f.Synthetic != ""
	}
	return strings.HasPrefix(pk.Pkg.Path(), repoPrefix)
}

func (p *Program) pkg(rel string) *ssa.Package {
	path := repoPrefix
	if rel != "" {
		path += "/" + rel
	}
	return p.spkgs[path]
}

// fn finds a package-level function.
func (p *Program) fn(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Program) typ(rel, name string) types.Type {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	t := pk.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// meth finds a method by type and name (value or pointer receiver).
func (p *Program) meth(rel, typ, name string) *ssa.Function {
	t := p.typ(rel, typ)
	if t == nil {
		return nil
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := ms.At(i).Obj().(*types.Func)
				return p.ssa.FuncValue(f)
			}
		}
	}
	return nil
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (p *Program) impls(m *types.Func) []Impl {
	if r, ok := p.implCache[m]; ok {
		return r
	}
	var out []Impl
	if m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), repoPrefix) {
		p.implCache[m] = nil
		return nil
	}
	iface, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if ok {
		var names []string
		cand := map[string]types.Type{}
		for _, s := range p.spkgs {
			if strings.HasPrefix(s.Pkg.Path(), specPrefix) {
				continue
			}
			for n, mem := range s.Members {
				if t, ok := mem.(*ssa.Type); ok {
					if _, isI := t.Type().Underlying().(*types.Interface); !isI {
						k := s.Pkg.Path() + "." + n
						cand[k] = t.Type()
						names = append(names, k)
					}
				}
			}
		}
		sort.Strings(names)
		for _, n := range names {
			t := cand[n]
			for _, x := range []types.Type{t, types.NewPointer(t)} {
				if types.Implements(x, iface) {
					if f := p.method(x, m); f != nil {
						out = append(out, Impl{x, f})
						break
					}
				}
			}
		}
	}
	p.implCache[m] = out
	return out
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------- control flow

func (p *Program) fnInfo(f *ssa.Function) *FnInfo {
	if i, ok := p.info[f]; ok {
		return i
	}
	in := &FnInfo{loopOf: map[*ssa.BasicBlock]*Loop{}, idx: map[ssa.Instruction]int{}}
	n := 0
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			in.idx[x] = n
			n++
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		in.rpo = append(in.rpo, post[i])
	}
	byHdr := map[*ssa.BasicBlock]*Loop{}
	for _, b := range in.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := byHdr[h]
				if l == nil {
					l = &Loop{hdr: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					byHdr[h] = l
					in.loops = append(in.loops, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, pr := range x.Preds {
						if seen[pr] {
							work = append(work, pr)
						}
					}
				}
			}
		}
	}
	sort.Slice(in.loops, func(i, j int) bool {
		if len(in.loops[i].blocks) != len(in.loops[j].blocks) {
			return len(in.loops[i].blocks) < len(in.loops[j].blocks)
		}
		return in.loops[i].hdr.Index < in.loops[j].hdr.Index
	})
	for i, l := range in.loops {
		for _, o := range in.loops[i+1:] {
			if o != l && o.blocks[l.hdr] {
				l.parent = o
				break
			}
		}
		for b := range l.blocks {
			if in.loopOf[b] == nil {
				in.loopOf[b] = l
			}
		}
	}
	// a topological order that finishes a loop before what follows it: rpo already has it
	p.info[f] = in
	return in
}

// ---------- globals

func (p *Program) evalGlobals() {
	// which globals are stored to (or escape) outside initialisers
	bad := p.globStored
	for _, f := range p.funcs {
		isInit := f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil || strings.HasPrefix(f.Name(), "init#")
		if isInit {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					name := "g:" + g.Pkg.Pkg.Path() + "." + g.Name()
					if !readOnlyUse(in, g) {
						bad[name] = true
					}
				}
			}
		}
	}
	it := newInterp(p, Client{Call: func(it *Interp, fr *Frame, st *State, c *CallSite) (*Term, bool) {
		if c.Fn.Name() == "init" && c.Fn.Signature.Recv() == nil && c.Fn.Signature.Params().Len() == 0 {
			return mkTuple(), true
		}
		return nil, false
	}})
	// imports first
	var order []*packages.Package
	packages.Visit(p.pkgs, nil, func(q *packages.Package) {
		if strings.HasPrefix(q.PkgPath, repoPrefix) {
			order = append(order, q)
		}
	})
	for _, q := range order {
		s := p.spkgs[q.PkgPath]
		if s == nil {
			continue
		}
		f := s.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
		for _, m := range s.Members {
			if g, ok := m.(*ssa.Global); ok {
				st.mem[it.globalObj(g)] = zeroVal(g.Type().(*types.Pointer).Elem())
			}
		}
		it.Call(f, nil, nil, st, "init:"+q.PkgPath)
		for o, v := range st.mem {
			if strings.HasPrefix(o.S, "g:") {
				if !bad[o.S] {
					p.globalInit[o] = v
				}
			} else {
				p.globalInit[o] = v // objects made by initialisers
			}
		}
	}
}

// readOnlyUse: a load, or an element/field address that is only loaded from
func readOnlyUse(in ssa.Instruction, g ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL
	case *ssa.FieldAddr, *ssa.IndexAddr:
		v := in.(ssa.Value)
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == v {
				return false
			}
			if !readOnlyUse(r, v) {
				return false
			}
		}
		return true
	case *ssa.DebugRef:
		return true
	}
	return false
}

// ---------- parallel-for helpers: func(work func(i, n int)) that starts work(i, n) in goroutines

func (p *Program) findParFor() {
	p.parFor = map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if len(f.Params) != 1 || f.Signature.Results().Len() != 0 {
			continue
		}
		sig, ok := f.Params[0].Type().Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 2 || sig.Results().Len() != 0 || !isIntType(sig.Params().At(0).Type()) || !isIntType(sig.Params().At(1).Type()) {
			continue
		}
		hasGo, hasWait := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					hasGo = true
				case *ssa.Call:
					if c := x.Call.StaticCallee(); c != nil && c.String() == "(*sync.WaitGroup).Wait" {
						hasWait = true
					}
				}
			}
		}
		if hasGo {
			p.parFor[f] = hasWait
		}
	}
}

func stripRepo(s string) string { return strings.Replace(s, repoPrefix+"/", "", -1) }

// std finds a function of a library package, if the program (or its specification) loads it.
func (p *Program) std(pkg, name string) *ssa.Function {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == pkg {
			return q.Func(name)
		}
	}
	return nil
}
