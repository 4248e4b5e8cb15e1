package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = checkFn{run: checkC27, rule: "Every program's main is reduced to the list of its calls to the library's entry points, each with the condition it happens under and its argument values as normal forms over the option values, and compared with the list the options document (analyzer/spec/cmds); flag values are symbols named after their flag. Every option a program declares is used by it.",
		assume: []string{"the option library stores each option's value where its declaration says", "the layer count and date in the settings are not options"}}
}

// watched calls: which arguments count
type watch map[string][]int

type call struct {
	name string
	args *Term
	cond *Term
	pos  token.Pos
}

func extName(f *ssa.Function) string {
	return strings.Replace(relName(f), "io/ioutil.", "os.", 1)
}

func flatten(es []*Event, in bool, f func(e *Event, inLoop bool)) {
	for _, e := range es {
		f(e, in)
		flatten(e.Sub, true, f)
	}
}

// callList evaluates f and lists its watched calls.
func (c *Ctx) callList(f *ssa.Function, cl Client, w watch) ([]call, []string) {
	it := newInterp(c.p, cl)
	st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: tTrue}
	it.Call(f, argTerms(f), nil, st, "T")
	c.visit(it)
	var out []call
	flatten(*it.sink, false, func(e *Event, inLoop bool) {
		if e.Fn == nil || e.Cond == nil || unsat(e.Cond) || e.Kind != "call" && e.Kind != "ext" {
			return
		}
		n := e.Note
		if e.Kind == "call" || n == "" {
			n = extName(e.Fn)
		}
		ix, ok := w[n]
		if !ok {
			return
		}
		if inLoop {
			panic(fmt.Sprintf("%s is called in a loop, at %s", n, c.p.pos(e.Pos)))
		}
		var as []*Term
		for _, i := range ix {
			as = append(as, e.Args[i])
		}
		t := mkTuple(as...)
		for i := range out {
			if out[i].name == n && (out[i].args == t || eqTerms(out[i].args, t, tTrue)) {
				out[i].cond = bOr(out[i].cond, e.Cond)
				return
			}
		}
		out = append(out, call{n, t, e.Cond, e.Pos})
	})
	return out, it.notes
}

// sameCalls compares the watched calls of a program with those of its specification.
func (c *Ctx) sameCalls(rule, construct string, f, spec *ssa.Function, cl Client, w watch) {
	if c.require(f, construct) == nil {
		return
	}
	if spec == nil {
		c.add(rule, construct, f.Pos(), false, "undecided: the specification does not fit the repository's functions: %v", c.p.specErrs)
		return
	}
	c.guard(rule, construct, f.Pos(), func() {
		a, notes := c.callList(f, cl, w)
		b, _ := c.callList(spec, cl, w)
		used := make([]bool, len(a))
		for _, s := range b {
			rest := s.cond
			var detail string
			pos := f.Pos()
			for i, x := range a {
				if x.name != s.name {
					continue
				}
				both := bAnd(x.cond, s.cond)
				if unsat(both) {
					continue
				}
				if eqTerms(x.args, s.args, both) || newEq().eq(x.args, s.args, both) {
					used[i] = true
					rest = bAnd(rest, bNot(x.cond))
					if extra := bAnd(x.cond, bNot(s.cond)); !unsat(extra) {
						rest = bOr(rest, extra)
						detail = fmt.Sprintf("also called when %s", extra)
					}
				} else {
					e := newEq()
					e.eq(x.args, s.args, both)
					fd, fe := e.x, e.y
					if fd == nil {
						fd, fe = firstDiff(x.args, s.args)
					}
					pos = x.pos
					detail = fmt.Sprintf("passes %s\nwhere the options say %s", fd, fe)
				}
			}
			c.add(rule, construct+" → "+s.name, pos, unsat(rest), "%s\nnot called as documented when %s; notes %v", detail, rest, notes)
		}
		for i, x := range a {
			if !used[i] {
				c.add(rule, construct+" → "+x.name, x.pos, false, "a call the options do not document: with %s when %s", x.args, x.cond)
			}
		}
	})
}

// constText replaces what must not matter (the date).
func cmdClient(names ...string) Client {
	op := map[string]bool{}
	for _, n := range names {
		op[n] = true
	}
	return Client{Call: func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
		n := extName(cs.Fn)
		if strings.HasPrefix(n, "(time.Time).") || strings.HasPrefix(n, "time.") {
			return zeroVal(cs.Res), true
		}
		if op[n] {
			r := it.opaqueCall(cs.Fn, cs.Args, st, cs.Instr.Pos(), fr)
			return r, true
		}
		return nil, false
	}}
}

func checkC27(c *Ctx) {
	w := watch{"primitives.LoadSTL": {0}, "slicers.SliceByVectorToGcode": {0, 1, 2}, "slicers.SliceByProfile": {0, 1}, "slicers.Slice5Axes": {0, 1},
		"slicers/vip.Slice": {0, 1}, "slicers/vip.Analyze": {0, 1}, "helpers.CutMesh": {0, 1}, "primitives.SaveSTL": {0, 1}, "helpers.SimplifyMesh": {0, 1},
		"helpers.ColorizeTriangles": {0, 1, 2}, "os.WriteFile": {0}, "os.Create": {0}, "encoding/binary.Write": {2}}
	var names []string
	for n := range w {
		names = append(names, n)
	}
	names = append(names, "primitives.PrepareDataFile", "(*gcode.Gcode).ToOutput", "(*gcode.Gcode).LayerCount", "(slicers/vip.AnalyzedPlane).String")
	sort.Strings(names)
	cl := cmdClient(names...)
	mains := map[string]string{"goosli": "SGoosli", "goosli_analyzer": "SAnalyzer", "goosli_colorizer": "SColorizer", "goosli_cutter": "SCutter", "goosli_simplifier": "SSimplifier"}
	seen := map[string]bool{}
	for _, f := range c.p.funcs {
		if f.Name() != "main" || f.Parent() != nil || f.Pkg.Pkg.Name() != "main" || c.p.isSpec(f) {
			continue
		}
		n := strings.TrimPrefix(stripRepo(f.Pkg.Pkg.Path()), "cmd/")
		s, ok := mains[n]
		if !ok {
			continue
		}
		seen[n] = true
		c.sameCalls("options reach what they document", n, f, c.p.spec("cmds", s), cl, w)
		c.optionsUsed(n, f)
	}
	for n := range mains {
		if !seen[n] {
			c.add("anchor", n, token.NoPos, false, "program not found: undecided")
		}
	}
}

// optionsUsed: every option declared in the program's package is read somewhere outside initialisers.
func (c *Ctx) optionsUsed(n string, main *ssa.Function) {
	pkg := main.Pkg
	flagOf := map[*ssa.Global]string{}
	for o, v := range c.p.globalInit {
		if !strings.HasPrefix(o.S, "g:"+pkg.Pkg.Path()+".") {
			continue
		}
		if v.K == KAtom && strings.HasPrefix(v.Atom.Op, "flag:") {
			if g, ok := pkg.Members[strings.TrimPrefix(o.S, "g:"+pkg.Pkg.Path()+".")].(*ssa.Global); ok {
				flagOf[g] = strings.TrimPrefix(v.Atom.Op, "flag:")
			}
		}
	}
	read := map[*ssa.Global]bool{}
	for _, f := range c.p.funcs {
		if f.Pkg != pkg || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						read[g] = true
					}
				}
			}
		}
	}
	var gs []*ssa.Global
	for g := range flagOf {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
	for _, g := range gs {
		c.add("every option has an effect", n+" --"+flagOf[g], g.Pos(), read[g], "the option is declared and never used")
	}
}

// ---------- C28: the output file

func init() {
	checks["C28"] = checkFn{run: checkC28, rule: "The content goosli writes is reduced to its normal form (the G-code of the job and a filled-in template being uninterpreted functions of the job and of the placeholder table) and compared with header, G-code, footer, each once; filling in a template is compared with replacing every placeholder everywhere; and the template files are parsed: every placeholder in an executable line has an entry, the heating, speed and layer count lines name theirs.",
		assume: []string{"no setting's value contains a placeholder's name"}}
}

func checkC28(c *Ctx) {
	w := watch{"os.WriteFile": {0, 1}}
	base := cmdClient("primitives.LoadSTL", "slicers.SliceByVectorToGcode", "slicers.SliceByProfile", "slicers.Slice5Axes", "slicers/vip.Slice",
		"os.WriteFile", "primitives.PrepareDataFile", "(*gcode.Gcode).LayerCount")
	cl := base
	cl.SiteFree = true
	cl.Call = func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
		if extName(cs.Fn) == "(*gcode.Gcode).ToOutput" && len(cs.Args) == 2 {
			g := it.snap(st, cs.Args[0], 0)
			it.bufWrite(fr, st, cs, cs.Args[1], symOf(types.Typ[types.String], "gcode of", g))
			return mkTuple(), true
		}
		return base.Call(it, fr, st, cs)
	}
	var main *ssa.Function
	for _, f := range c.p.funcs {
		if f.Name() == "main" && f.Parent() == nil && stripRepo(f.Pkg.Pkg.Path()) == "cmd/goosli" {
			main = f
		}
	}
	c.sameCalls("header, G-code, footer", "goosli", main, c.p.spec("cmds", "SOutput"), cl, w)
	c.drivers("every placeholder is replaced everywhere", "cmds", Client{SiteFree: true}, [2]string{"Prepare", "primitives.PrepareDataFile"})
	c.templates()
}

// templates parses the template files the program fills in.
func (c *Ctx) templates() {
	known := map[string]bool{}
	for _, k := range []string{"datetime", "layer_height", "wall_thickness", "fill_density", "bed_temperature", "extruder_temperature", "print_speed", "layer_count"} {
		known["{"+k+"}"] = true
	}
	rule := "template placeholders"
	for _, f := range []string{"data/header_template.txt", "data/footer_template.txt"} {
		b, err := os.ReadFile(filepath.Join(c.p.dir, f))
		if err != nil {
			c.add(rule, f, token.NoPos, false, "cannot be read: %v", err)
			continue
		}
		count := 0
		bed, ext := "", ""
		for i, l := range strings.Split(string(b), "\n") {
			code, comment := l, ""
			if j := strings.IndexByte(l, ';'); j >= 0 {
				code, comment = l[:j], l[j+1:]
			}
			for _, q := range placeholder.FindAllString(code, -1) {
				c.add(rule, fmt.Sprintf("%s line %q", f, strings.TrimSpace(code)), token.NoPos, known[q], "%s:%d: placeholder %s is never replaced", f, i+1, q)
			}
			if strings.ContainsAny(placeholder.ReplaceAllString(code, ""), "{}") {
				c.add(rule, fmt.Sprintf("%s line %q", f, strings.TrimSpace(code)), token.NoPos, false, "%s:%d: a brace remains in an executable line", f, i+1)
			}
			ws := strings.Fields(code)
			for _, x := range ws {
				if q := placeholder.FindString(x); q != "" && x[0] == 'F' {
					c.add(rule, fmt.Sprintf("%s speed in %q", f, strings.TrimSpace(code)), token.NoPos, x == "F{print_speed}", "%s:%d: the speed is %q", f, i+1, x)
				}
			}
			if len(ws) > 1 && (ws[0] == "M190" || ws[0] == "M140") {
				bed = ws[1]
			}
			if len(ws) > 1 && (ws[0] == "M109" || ws[0] == "M104") {
				ext = ws[1]
			}
			if strings.HasPrefix(strings.TrimSpace(comment), "LAYER_COUNT:") {
				count++
				c.add(rule, f+" LAYER_COUNT", token.NoPos, strings.TrimSpace(comment) == "LAYER_COUNT:{layer_count}", "%s:%d: %q is not the job's layer count", f, i+1, comment)
			}
		}
		if strings.Contains(f, "header") {
			c.add(rule, f+" LAYER_COUNT announced", token.NoPos, count == 1, "%s: the layer count is announced %d times", f, count)
			c.add(rule, f+" bed temperature", token.NoPos, bed == "S{bed_temperature}", "%s: the bed is set to %q", f, bed)
			c.add(rule, f+" extruder temperature", token.NoPos, ext == "S{extruder_temperature}", "%s: the extruder is set to %q", f, ext)
		}
	}
}

var placeholder = regexp.MustCompile(`\{[^{}]*\}`)
