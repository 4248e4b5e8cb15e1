package main

// The check framework: obligations, evidence, known findings.

import (
	"embed"
	"encoding/json"
	"fmt"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec
var specFS embed.FS

const specPrefix = repoPrefix + "/verifspec"

// specOverlay places the specification packages inside the module under analysis.
func specOverlay(dir string) map[string][]byte {
	out := map[string][]byte{}
	fs.WalkDir(specFS, "spec", func(path string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(path, ".go") {
			b, _ := specFS.ReadFile(path)
			out[filepath.Join(dir, "verifspec", strings.TrimPrefix(path, "spec/"))] = b
		}
		return nil
	})
	return out
}

var deadline = time.Now().Add(time.Hour)

// Obl is one decided obligation.
type Obl struct {
	Rule      string // what was required
	Construct string // the construct it was required of
	Pos       string
	OK        bool
	Detail    string
}

type Ctx struct {
	p       *Program
	prop    string
	tier    string
	obls    []Obl
	visited map[*ssa.Function]bool
	counts  map[string]int
	assume  []string
	loops   int
	start   time.Time
}

func (c *Ctx) add(rule, construct string, pos token.Pos, ok bool, detail string, a ...interface{}) bool {
	d := detail
	if len(a) > 0 {
		d = fmt.Sprintf(detail, a...)
	}
	c.obls = append(c.obls, Obl{rule, construct, c.p.pos(pos), ok, d})
	return ok
}
func (c *Ctx) count(k string, n int) { c.counts[k] += n }

// require fails the check when an anchor cannot be resolved.
func (c *Ctx) require(f *ssa.Function, name string) *ssa.Function {
	if f == nil || f.Blocks == nil {
		c.add("anchor", name, token.NoPos, false, "the analysis looks for %s and cannot find it: undecided", name)
		return nil
	}
	return f
}

// guard runs one group of obligations; a failure of the analysis itself is an undecided obligation.
func (c *Ctx) guard(rule, construct string, pos token.Pos, f func()) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if _, ok := r.(blowup); ok {
				msg = "the value grew beyond the analysis budget"
			} else if os.Getenv("AZ_TRACE") != "" {
				msg += "\n" + string(debug.Stack())
			}
			c.add(rule, construct, pos, false, "undecided: %s", msg)
		}
	}()
	f()
}

func (c *Ctx) visit(it *Interp) {
	for f := range it.Visited {
		if !c.p.isSpec(f) {
			c.visited[f] = true
		}
	}
	c.loops += it.Loops
}

type checkFn struct {
	run    func(c *Ctx)
	rule   string
	assume []string
}

var checks = map[string]checkFn{}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func init() {
	if os.Getenv("AZ_LONG") != "" {
		strLimit = 1000000
	}
}

func runCheck(prop string) int {
	start := time.Now()
	ck, ok := checks[prop]
	if !ok {
		fmt.Println("no check for", prop)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	deadline = start.Add(600 * time.Second)
	c := &Ctx{prop: prop, tier: tier, visited: map[*ssa.Function]bool{}, counts: map[string]int{}, start: start}
	p, err := loadProgram(repoDir())
	if err != nil {
		c.p = &Program{dir: repoDir()}
		c.obls = append(c.obls, Obl{"load", "type-checking " + repoDir(), "?", false, err.Error()})
	} else {
		c.p = p
		c.guard("analysis", prop, token.NoPos, func() { ck.run(c) })
		if len(c.obls) == 0 {
			c.add("instances", prop, token.NoPos, false, "no instance of the property found: undecided")
		}
	}
	known := loadKnown(prop)
	var bad []Obl
	var shown []string
	for _, o := range c.obls {
		if o.OK {
			continue
		}
		hit := false
		for _, k := range known {
			if k == o.Rule+" | "+o.Construct {
				hit = true
				shown = append(shown, fmt.Sprintf("KNOWN-FINDING: property=%s %s | %s (%s)", prop, o.Rule, o.Construct, o.Pos))
			}
		}
		if !hit {
			bad = append(bad, o)
		}
	}
	sort.Strings(shown)
	for _, s := range shown {
		fmt.Println(s)
	}
	writeEvidence(c, ck, seed, len(bad))
	fmt.Printf("%s: %d obligations, %d violated, %d functions analysed, %.1fs\n", prop, len(c.obls), len(bad), len(c.visited), time.Since(start).Seconds())
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(verifDir(), "evidence", prop+".violations.txt")
	var b strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&b, "%s: rule %q, at %s\n    %s\n", o.Pos, o.Rule, o.Construct, strings.Replace(o.Detail, "\n", "\n    ", -1))
	}
	os.MkdirAll(filepath.Dir(rp), 0755)
	os.WriteFile(rp, []byte(b.String()), 0644)
	s := b.String()
	if len(s) > 8000 {
		s = s[:8000] + "…\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func loadKnown(prop string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + prop + " key="
		if strings.HasPrefix(l, pre) {
			out = append(out, strings.TrimSpace(strings.SplitN(l[len(pre):], " :: ", 2)[0]))
		}
	}
	return out
}

func writeEvidence(c *Ctx, ck checkFn, seed, bad int) {
	var fns []string
	for f := range c.visited {
		fns = append(fns, strings.Replace(f.String(), repoPrefix+"/", "", -1))
	}
	sort.Strings(fns)
	rules := map[string]int{}
	var samples []string
	okc := 0
	for _, o := range c.obls {
		rules[o.Rule]++
		if o.OK {
			okc++
		}
		if len(samples) < 60 {
			s := "holds"
			if !o.OK {
				s = "violated"
			}
			samples = append(samples, fmt.Sprintf("%s — %s (%s): %s", o.Rule, o.Construct, o.Pos, s))
		}
	}
	cov := map[string]interface{}{
		"explanation":          ck.rule,
		"obligations_decided":  len(c.obls),
		"obligations_holding":  okc,
		"obligations_per_rule": rules,
		"functions_analysed":   len(fns),
		"functions":            fns,
		"loops_summarised":     c.loops,
		"packages_loaded":      len(c.p.spkgs),
		"repository_functions": len(c.p.funcs),
		"obligation_list":      samples,
	}
	for k, v := range c.counts {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append(append([]string{}, ck.assume...), c.assume...), "wall_s": time.Since(c.start).Seconds(), "violations": bad,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, c.prop+".json"), append(b, '\n'), 0644)
}

// ---------- comparing an implementation with its specification

func argTerms(f *ssa.Function) []*Term {
	var args []*Term
	for i, q := range f.Params {
		args = append(args, symOf(q.Type(), "a"+strconv.Itoa(i)))
	}
	return args
}

type Outcome struct {
	it   *Interp
	st   *State
	ret  *Term
	cond *Term
	mem  map[*Term]*Term // final contents of objects that existed before
}

func (c *Ctx) run(f *ssa.Function, args []*Term, cl Client, mem map[*Term]*Term, care *Term) *Outcome {
	it := newInterp(c.p, cl)
	st := &State{mem: map[*Term]*Term{}, env: map[ssa.Value]*Term{}, cond: care}
	for k, v := range mem {
		st.mem[k] = v
	}
	r := it.Call(f, args, nil, st, "T")
	c.visit(it)
	o := &Outcome{it: it, st: st, cond: st.cond, mem: map[*Term]*Term{}}
	if st.cond.K != KFalse {
		o.ret = it.snap(st, r, 0)
	} else {
		o.ret = tBot
	}
	for _, ob := range sortedObjs(st.mem) {
		if isInitial(ob) {
			init := it.load(&State{mem: mem}, ob)
			if st.mem[ob] != init {
				o.mem[ob] = it.snap(st, st.mem[ob], 0)
			}
		}
	}
	return o
}

// same compares the outcome of an implementation with that of its specification.
func (c *Ctx) same(rule, construct string, impl, spec *ssa.Function, cl Client) bool {
	return c.sameOn(rule, construct, impl, spec, cl, nil, nil, false)
}

func (c *Ctx) sameOn(rule, construct string, impl, spec *ssa.Function, cl Client, args []*Term, care *Term, retOnly bool) bool {
	if impl == nil || impl.Blocks == nil {
		return c.add(rule, construct, token.NoPos, false, "the analysis looks for this function and cannot find it: undecided")
	}
	if spec == nil {
		return c.add(rule, construct, impl.Pos(), false, "specification missing")
	}
	res := false
	c.guard(rule, construct, impl.Pos(), func() {
		if args == nil {
			args = argTerms(impl)
		}
		if care == nil {
			care = tTrue
		}
		a := c.run(impl, args, cl, nil, care)
		b := c.run(spec, args, cl, nil, care)
		c.count("normal_forms_compared", 1)
		var diffs []string
		if !eqCond(a.cond, b.cond) {
			diffs = append(diffs, fmt.Sprintf("returns when:  %s\nspecification: %s", a.cond, b.cond))
		} else if lost(b.ret) {
			diffs = append(diffs, "undecided: the analysis lost a value on the way")
		} else if !eqTerms(a.ret, b.ret, a.cond) {
			if e := newEq(); !e.eq(a.ret, b.ret, a.cond) {
				x, y := e.x, e.y
				if os.Getenv("AZ_DEEP") != "" {
					fmt.Println(deepDiff(a.ret, b.ret, "", 0))
					if y != nil && y.K == PSeg {
						fmt.Println("SEG", y.Kids[1], "LEN", y.Kids[2], "FULL", seqLen(y.Kids[0]), x.Kids[0])
					}
					var cuts []*BVar
					for _, pc := range e.conds {
						v := pc.v
						if v.Op == "isnil" && v.Args[0].K == KAtom && strings.Contains(v.Args[0].Atom.Op, "IntersectTriangle") {
							cuts = append(cuts, v)
						}
					}
					if n := len(e.conds); n > 1 {
						fmt.Println("LAST", deepDiff(mkVarB(e.conds[n-2].v), mkVarB(e.conds[n-1].v), "", 0))
					}
					for i := 1; i < len(cuts); i++ {
						fmt.Println("CUT", deepDiff(cuts[i-1].Args[0], cuts[i].Args[0], "", 0))
					}
				}
				if x == nil {
					x, y = firstDiff(a.ret, b.ret)
				}
				diffs = append(diffs, fmt.Sprintf("first difference: %s\n        expected: %s\n            when: %s\ncomputes:      %s\nspecification: %s", x, y, e.where, a.ret, b.ret))
			}
		}
		if retOnly {
			a.mem, b.mem = nil, nil
		}
		for _, o := range sortedObjs(a.mem) {
			w, ok := b.mem[o]
			if !ok {
				diffs = append(diffs, fmt.Sprintf("changes %s to %s\nspecification leaves it alone", o, a.mem[o]))
			} else if !eqTerms(a.mem[o], w, a.cond) && !newEq().eq(a.mem[o], w, a.cond) {
				diffs = append(diffs, fmt.Sprintf("changes %s to %s\nspecification: %s", o, a.mem[o], w))
			}
		}
		for _, o := range sortedObjs(b.mem) {
			if _, ok := a.mem[o]; !ok {
				diffs = append(diffs, fmt.Sprintf("leaves %s alone\nspecification changes it to %s", o, b.mem[o]))
			}
		}
		if len(diffs) > 0 && len(a.it.notes) > 0 {
			diffs = append(diffs, "analysis notes: "+strings.Join(a.it.notes, "; "))
		}
		res = c.add(rule, construct, impl.Pos(), len(diffs) == 0, "%s", strings.Join(diffs, "\n"))
	})
	return res
}

func eqCond(a, b *Term) bool {
	return a == b || valid(bNot(mkIte(a, bNot(b), b)), tTrue)
}
func eqTerms(a, b, care *Term) bool {
	return a == b || eqUnder(a, b, care)
}

// firstDiff descends to where two normal forms part.
func firstDiff(a, b *Term) (*Term, *Term) {
	for {
		if a.K == KNum && b.K == KNum {
			if x, y := singleAtomT(a), singleAtomT(b); x != nil && y != nil && x.Op == y.Op && len(x.Args) == len(y.Args) && len(x.Args) > 0 {
				a, b = mkTuple(x.Args...), mkTuple(y.Args...)
				continue
			}
		}
		if a.K == KAtom && b.K == KAtom && a.Atom.Op == b.Atom.Op && len(a.Atom.Args) == len(b.Atom.Args) && len(a.Atom.Args) > 0 {
			a, b = mkTuple(a.Atom.Args...), mkTuple(b.Atom.Args...)
			continue
		}
		if a.K != b.K || len(a.Kids) != len(b.Kids) || len(a.Kids) == 0 || a.Var != b.Var {
			return a, b
		}
		moved := false
		for i := range a.Kids {
			if a.Kids[i] != b.Kids[i] {
				a, b = a.Kids[i], b.Kids[i]
				moved = true
				break
			}
		}
		if !moved {
			return a, b
		}
	}
}
