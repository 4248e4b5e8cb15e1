package main

import (
	"fmt"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// recvName is the type name of a method's receiver.
func recvName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		if n, ok := deref(r.Type()).(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

func (p *Program) where(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return relName(f)
}

// headerFan: the printer's fan is off when the job starts.
func (c *Ctx) headerFan() {
	b, err := ioutil.ReadFile(filepath.Join(c.p.dir, "data", "header_template.txt"))
	if !c.add("header-fan", "data/header_template.txt", token.NoPos, err == nil, "the header template cannot be read: undecided") {
		return
	}
	last := ""
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(l, ';'); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) > 0 && (f[0] == "M106" || f[0] == "M107") {
			last = f[0]
		}
	}
	c.add("header-fan", "data/header_template.txt", token.NoPos, last == "M107", "the last fan command of the header is %q, not M107", last)
}

// GEv is a printer event with the loops around it (outermost first).
type GEv struct {
	*Event
	Loops []*LoopInfo
	Index int
}

type gcodeRun struct {
	evs []GEv
	it  *Interp
	st  *State
	end Ghost
	cfg map[string]*Term // the settings
}

func (c *Ctx) runGcode() *gcodeRun {
	f := c.require(c.p.meth("gcode", "Gcode", "ToOutput"), "gcode.Gcode.ToOutput")
	if f == nil {
		return nil
	}
	// a polyline has a first vertex: printing one reads it before anything else
	nonEmpty = func(l *Term) bool {
		p, ok := accessPath(l)
		return ok && len(p.ops) > 0 && p.ops[len(p.ops)-1] == ".Points"
	}
	m := &GMachine{}
	cl := Client{NoMu: true, Unroll: 8, Write: m.write, BeforeDispatch: m.beforeCmd, AfterDispatch: m.afterCmd}
	it := newInterp(c.p, cl)
	st := &State{mem: map[*Term]*Term{}, env: nil, cond: tTrue}
	args := argTerms(f)
	m.install(it, st, args[1])
	cfg := map[string]*Term{}
	gt := deref(f.Params[0].Type())
	if gs, ok := gt.Underlying().(*types.Struct); ok {
		g := it.loadPtr(st, args[0], f, token.NoPos)
		for i := 0; i < gs.NumFields() && g.K == KStruct; i++ {
			if ss, ok := gs.Field(i).Type().Underlying().(*types.Struct); ok && gs.Field(i).Name() == "Settings" {
				for j := 0; j < ss.NumFields(); j++ {
					cfg[ss.Field(j).Name()] = g.Kids[i].Kids[j]
				}
			}
		}
	}
	for _, n := range []string{"BarDiameter", "Flow", "LayerHeight", "LineWidth", "FanOffLayer1", "PrintSpeed", "PrintSpeedLayer1", "PrintSpeedWall", "Retraction", "RetractionSpeed", "RetractionDistance"} {
		if cfg[n] == nil {
			c.add("anchor", "gcode.GcodeSettings."+n, token.NoPos, false, "the analysis looks for this setting and cannot find it: undecided")
			return nil
		}
	}
	it.Call(f, args, nil, st, "T")
	c.visit(it)
	r := &gcodeRun{it: it, st: st, end: ghostOf(it, st), cfg: cfg}
	var walk func(es []*Event, ls []*LoopInfo)
	walk = func(es []*Event, ls []*LoopInfo) {
		for _, e := range es {
			if e.Kind == "loop" {
				walk(e.Sub, append(append([]*LoopInfo{}, ls...), e.Loop))
				continue
			}
			r.evs = append(r.evs, GEv{e, ls, len(r.evs)})
		}
	}
	walk(*it.sink, nil)
	for _, e := range r.evs {
		if e.Line == nil {
			continue
		}
		for _, g := range []Ghost{e.Line.Pre, e.Line.Post} {
			for k, v := range g {
				if v != nil && v.K == KIte {
					g[k] = restrict(v, e.Cond)
				}
			}
		}
	}
	if os.Getenv("AZ_TRACE") != "" {
		for _, e := range r.evs {
			if e.Line != nil || e.Kind == "badtext" {
				fmt.Println(e.Kind, c.p.pos(e.Pos), len(e.Loops), e.Note)
				if e.Line != nil {
					fmt.Println("   ", e.Line.Cmd, e.Line.Val, e.Line.Text, "has", e.Line.Has, "recv", e.Line.Recv, "cond", e.Cond)
					for _, l := range e.Loops {
						fmt.Println("    loop", mkNumAtom(l.K), l.N, l.Early, l.Care)
					}
					for _, n := range ghostNames() {
						if e.Line.Pre[n] != e.Line.Post[n] {
							fmt.Printf("      %s : %.400s => %.600s\n", n, e.Line.Pre[n], e.Line.Post[n])
						} else {
							fmt.Printf("      %s = %.200s\n", n, e.Line.Pre[n])
						}
					}
				}
			}
		}
		fmt.Println("notes", it.notes)
	}
	return r
}

// printing moves: G1 with an E word and at least one coordinate word possible
func (e GEv) isLine(cmd string) bool { return e.Kind == "line" && e.Line.Cmd == cmd }
func (e GEv) has(l byte) bool        { return e.Line.Has[l] != nil && e.Line.Has[l].K != KFalse }
func (e GEv) xyz() bool              { return e.has('X') || e.has('Y') || e.has('Z') }
func (e GEv) printing() bool         { return e.isLine("G1") && e.has('E') && e.xyz() }

// inCmd: the command being carried out is of the named type
func (e GEv) inCmd(name string) bool {
	return e.Line != nil && e.Line.Impl != nil && recvName(e.Line.Impl) == name
}

// apath is an access path: where in the data structure a value was read.
type apath struct {
	ops  []string // ".Layers", "[]", "as", ...
	idx  []*Term  // index of each "[]", else nil
	root *Term
}

func (a apath) String() string {
	var sb strings.Builder
	for i, o := range a.ops {
		if o == "[]" {
			fmt.Fprintf(&sb, "[%s]", a.idx[i])
		} else {
			sb.WriteString(o)
		}
	}
	return sb.String()
}

func accessPath(t *Term) (apath, bool) {
	var a *Atom
	switch {
	case t.K == KNum:
		a = singleAtom(t.Poly)
	case t.K == KAtom:
		a = t.Atom
	}
	if a == nil || len(a.Args) == 0 {
		return apath{root: t}, t.K == KAtom
	}
	var r apath
	var ok bool
	switch {
	case a.Op == "elem":
		r, ok = accessPath(a.Args[0])
		r.ops = append(r.ops, "[]")
		r.idx = append(r.idx, a.Args[1])
	case strings.HasPrefix(a.Op, ".") || a.Op == "as" || a.Op == "deref":
		r, ok = accessPath(a.Args[0])
		r.ops = append(r.ops, a.Op)
		r.idx = append(r.idx, nil)
	default:
		return apath{root: t}, false
	}
	return r, ok
}

// pointOf: the polyline vertex a coordinate comes from.
type vertexRef struct {
	field             string
	cmd, lay, pth, pt *Term  // indices
	line              string // the polyline
}

var layerFields = []string{"Paths", "MiddlePs", "InnerPs", "Fill"}

func vertexOf(t *Term, coord string) (vertexRef, bool) {
	p, ok := accessPath(t)
	if !ok {
		return vertexRef{}, false
	}
	want := []string{"deref", ".Cmds", "[]", "as", ".Layers", "[]", "", "[]", ".Points", "[]", "." + coord}
	if len(p.ops) != len(want) {
		return vertexRef{}, false
	}
	for i, w := range want {
		if w != "" && p.ops[i] != w {
			return vertexRef{}, false
		}
	}
	f := strings.TrimPrefix(p.ops[6], ".")
	known := false
	for _, x := range layerFields {
		known = known || x == f
	}
	return vertexRef{f, p.idx[2], p.idx[5], p.idx[7], p.idx[9], apath{p.ops[:8], p.idx[:8], p.root}.String()}, known
}

// vertex: the vertex at which the printer stands according to its three coordinates.
func vertex(g Ghost, dz *Term) (vertexRef, bool) {
	x, ok1 := vertexOf(g["x"], "X")
	y, ok2 := vertexOf(g["y"], "Y")
	z, ok3 := vertexOf(numSub(g["z"], dz), "Z")
	return x, ok1 && ok2 && ok3 && x == y && y == z
}

// dependsOn names something a value depends on besides the allowed quantities.
func dependsOn(t *Term, allowed map[*Atom]bool) string {
	seen := map[*Term]bool{}
	var rec func(t *Term) string
	recA := func(a *Atom, s string) string {
		if allowed[a] {
			return ""
		}
		switch a.Op {
		case "sqrt", "inv", "min", "max", "floor", "ceil", "trunc", "pi", "f32", "frac":
			for _, x := range a.Args {
				if b := rec(x); b != "" {
					return b
				}
			}
			return ""
		}
		return s
	}
	rec = func(t *Term) string {
		if seen[t] {
			return ""
		}
		seen[t] = true
		if t.Poly != nil {
			for _, m := range t.Poly.T {
				for _, f := range m.M.Fs {
					if b := recA(f.A, f.A.String()); b != "" {
						return b
					}
				}
			}
		}
		if t.Var != nil {
			for _, x := range t.Var.Args {
				if b := rec(x); b != "" {
					return b
				}
			}
		}
		if t.Atom != nil {
			if b := recA(t.Atom, t.Atom.String()); b != "" {
				return b
			}
		}
		for _, k := range t.Kids {
			if b := rec(k); b != "" {
				return b
			}
		}
		return ""
	}
	return rec(t)
}

func under(t, care *Term) string { return restrict(t, care).String() }

func (c *Ctx) printer(f func(r *gcodeRun)) {
	c.guard("g-code", "gcode.Gcode.ToOutput", token.NoPos, func() {
		r := c.runGcode()
		if r == nil {
			return
		}
		for _, e := range r.evs {
			if e.Kind == "badtext" && !unsat(e.Cond) {
				c.add("output-readable", c.p.where(e.In), e.Pos, false, "the emitted text cannot be read as a command: %s", e.Note)
			}
			if e.Kind == "line" || e.Kind == "cmd" {
				c.count("abstract_commands", 1)
			}
		}
		f(r)
	})
}

func (c *Ctx) need(n int, what string) {
	if n == 0 {
		c.add("anchor", what, token.NoPos, false, "the analysis finds no %s in the generated output: undecided", what)
	}
}

func cubeString(t *Term) string {
	var out []string
	for t.K == KIte {
		if t.Kids[0].K != KFalse {
			out = append(out, t.Var.String())
			t = t.Kids[0]
		} else {
			out = append(out, "not "+t.Var.String())
			t = t.Kids[1]
		}
	}
	return strings.Join(out, " and ")
}

func eqG(c *Ctx, rule, construct string, e GEv, what string, got, want, care *Term) bool {
	ok := eqTerms(got, want, care)
	if ok {
		return c.add(rule, construct, e.Pos, true, "")
	}
	// a case in which they differ
	bad := bAnd(care, bNot(eqDiag(got, want)))
	bad = bAnd(bad, theory(topVars(bad)))
	cube := tTrue
	for t := bad; t.K == KIte; {
		v := mkVarB(t.Var)
		if t.Kids[0].K != KFalse {
			cube, t = bAnd(cube, v), t.Kids[0]
		} else {
			cube, t = bAnd(cube, bNot(v)), t.Kids[1]
		}
	}
	return c.add(rule, construct, e.Pos, false, "%s\n  is        %s\n  should be %s\n  for example when %s", what, under(got, cube), under(want, cube), cubeString(cube))
}

func (c *Ctx) where(e GEv) string {
	n := c.p.where(e.In)
	if e.Line != nil && e.Line.Impl != nil {
		n += " (in " + relName(e.Line.Impl) + ")"
	}
	if v, ok := vertexOf(e.Line.Post["x"], "X"); ok && e.printing() {
		n += " for " + v.field
	}
	return n
}

func checkC01(c *Ctx) {
	c.printer(func(r *gcodeRun) {
		n := 0
		for _, e := range r.evs {
			if e.Kind == "cmd" {
				w := "after " + relName(e.Line.Impl)
				eqG(c, "tool-0-selected", w, e, "selected tool", e.Line.Post["tool"], mkNum(0), e.Cond)
				if len(e.Line.Pre) > 0 && recvName(e.Line.Impl) != "LayersMoving" {
					eqG(c, "coordinate-restored", w, e, "extruder coordinate the printer holds", e.Line.Post["e"], e.Line.Pre["e"], e.Cond)
				}
				continue
			}
			if !e.printing() {
				continue
			}
			n++
			w := c.where(e)
			g := e.Line.Pre
			eqG(c, "tool-0-selected", w, e, "selected tool", g["tool"], mkNum(0), e.Cond)
			eqG(c, "nothing-left-retracted", w, e, "filament still retracted before the printing move", g["ret"], mkNum(0), e.Cond)
			d := restrict(numSub(e.Line.Post["e"], g["e"]), e.Cond)
			allowed := map[*Atom]bool{}
			for _, q := range []Ghost{g, e.Line.Post} {
				for _, x := range []string{"x", "y", "z"} {
					collectAtoms(q[x], func(a *Atom) { allowed[a] = true })
				}
			}
			for name, t := range r.cfg {
				if name != "RetractionDistance" {
					collectAtoms(t, func(a *Atom) { allowed[a] = true })
				}
			}
			bad := dependsOn(d, allowed)
			c.add("advance-depends-on-segment-only", w, e.Pos, bad == "", "the filament advanced by the printing move is\n  %s\nwhich depends on the history (%s)", d, bad)
		}
		c.need(n, "printing move")
		c.count("printing_moves", n)
	})
}

func checkC02(c *Ctx) {
	c.printer(func(r *gcodeRun) {
		n := 0
		for _, e := range r.evs {
			if !e.printing() {
				continue
			}
			n++
			w := c.where(e)
			v, ok := vertexOf(e.Line.Post["x"], "X")
			if !c.add("printed-line-known", w, e.Pos, ok, "cannot tell which polyline this move prints: undecided\n  x = %s", e.Line.Post["x"]) {
				continue
			}
			sp := r.cfg["PrintSpeedWall"]
			if v.field == "Fill" {
				sp = r.cfg["PrintSpeed"]
			}
			first := cmpEQnum(e.Line.Pre["layers"], mkNum(1), true)
			eqG(c, "speed", w, e, "speed of the printing move", e.Line.Post["f"], mkIte(first, r.cfg["PrintSpeedLayer1"], sp), e.Cond)
		}
		c.need(n, "printing move")
		c.count("printing_moves", n)
	})
}

func checkC03(c *Ctx) {
	c.printer(func(r *gcodeRun) {
		n := 0
		for _, e := range r.evs {
			if !e.printing() {
				continue
			}
			n++
			first := cmpEQnum(e.Line.Pre["layers"], mkNum(1), true)
			eqG(c, "fan", c.where(e), e, "fan while printing", e.Line.Pre["fan"], bNot(bAnd(first, r.cfg["FanOffLayer1"])), e.Cond)
		}
		c.need(n, "printing move")
		c.count("printing_moves", n)
	})
	c.headerFan()
}

func checkC04(c *Ctx) {
	c.printer(func(r *gcodeRun) {
		n, m := 0, 0
		for _, e := range r.evs {
			if e.printing() {
				n++
				w := c.where(e)
				b, ok := vertex(e.Line.Post, mkNum(0))
				if !c.add("ends-at-vertex", w, e.Pos, ok, "a printing move ends away from the polyline's vertices: %s, %s, %s", e.Line.Post["x"], e.Line.Post["y"], e.Line.Post["z"]) {
					continue
				}
				a, ok := vertex(e.Line.Pre, mkNum(0))
				c.add("starts-at-previous-vertex", w, e.Pos, ok && a.line == b.line && numSub(b.pt, a.pt) == mkNum(1),
					"a printing move to vertex %s of %s starts at %s, %s, %s\n  when %s", b.pt, b.line, under(e.Line.Pre["x"], e.Cond), under(e.Line.Pre["y"], e.Cond), under(e.Line.Pre["z"], e.Cond), e.Cond)
				continue
			}
			if !e.isLine("G1") || e.has('E') || !e.has('X') && !e.has('Y') || !e.inCmd("LayersMoving") {
				continue
			}
			m++
			w := c.where(e)
			g := e.Line.Pre
			up := posB(numSub(g["z"], g["low"]), false)
			c.add("lifted-before-travel", w, e.Pos, valid(up, e.Cond), "the nozzle is at height %s when travel starts but has only been lifted from %s\n  when %s", under(g["z"], e.Cond), under(g["low"], e.Cond), e.Cond)
			x, ok1 := vertexOf(e.Line.Post["x"], "X")
			y, ok2 := vertexOf(e.Line.Post["y"], "Y")
			ok := ok1 && ok2 && x == y && x.pt == mkNum(0)
			var h *Term
			if ok {
				zt := symOf(types.Typ[types.Float64], ".Z", singleAtom(e.Line.Post["x"].Poly).Args[0])
				h = numSub(e.Line.Post["z"], zt)
				ok = valid(posB(h, false), e.Cond)
			}
			c.add("arrives-above-start", w, e.Pos, ok, "travel goes to %s, %s, %s, not to a place above a polyline's first point", e.Line.Post["x"], e.Line.Post["y"], e.Line.Post["z"])
		}
		c.need(n, "printing move")
		c.need(m, "travel to a polyline")
		c.count("printing_moves", n)
		c.count("travel_moves", m)
	})
}

func checkC05(c *Ctx) {
	c.printer(func(r *gcodeRun) {
		seen := map[string]bool{}
		for _, e := range r.evs {
			if e.Kind == "cmd" {
				n := recvName(e.Line.Impl)
				seen[n] = true
				w := "after " + relName(e.Line.Impl)
				a1, a2 := e.Line.Pre["a1"], e.Line.Pre["a2"]
				switch n {
				case "InclineX":
					a2 = mkNum(60)
				case "InclineXBack":
					a2 = mkNum(0)
				case "RotateZ":
					a1 = c.recvField(e.Line.Recv, "Angle")
				}
				eqG(c, "rotation-axis", w, e, "bed rotation axis", e.Line.Post["a1"], a1, e.Cond)
				eqG(c, "tilt-axis", w, e, "bed tilt axis", e.Line.Post["a2"], a2, e.Cond)
			}
			if e.isLine("G62") {
				w := c.where(e)
				if !c.add("simultaneous-command", w, e.Pos, e.inCmd("RotateXZ") && e.has('X') && e.has('Z'), "a simultaneous tilt-and-rotate must come from RotateXZ and name both axes") {
					continue
				}
				seen["G62"] = true
				eqG(c, "simultaneous-tilt", w, e, "X angle", e.Line.Val['X'], c.recvField(e.Line.Recv, "AngleX"), e.Cond)
				eqG(c, "simultaneous-rotation", w, e, "Z angle", e.Line.Val['Z'], c.recvField(e.Line.Recv, "AngleZ"), e.Cond)
				c.add("simultaneous-unconditional", w, e.Pos, valid(e.Cond, r.dispatchCond("RotateXZ")), "the command is not always written: only when %s", e.Cond)
			}
		}
		for _, n := range []string{"InclineX", "InclineXBack", "RotateZ", "RotateXZ", "LayersMoving", "G62"} {
			c.add("command-covered", n, token.NoPos, seen[n], "no effect of %s found: undecided", n)
		}
	})
}

func (r *gcodeRun) dispatchCond(typ string) *Term {
	for _, e := range r.evs {
		if e.Kind == "cmd" && recvName(e.Line.Impl) == typ {
			return e.Cond
		}
	}
	return tTrue
}

func checkC06(c *Ctx) {
	c.printer(func(r *gcodeRun) {
		n, m := 0, 0
		sq := func(t *Term) *Term { return numMul(t, t) }
		for _, e := range r.evs {
			if !e.isLine("G1") || !e.has('E') {
				continue
			}
			g, q := e.Line.Pre, e.Line.Post
			d := restrict(numSub(q["e"], g["e"]), e.Cond)
			w := c.where(e)
			if e.printing() {
				n++
				dist := numSqrt(numAdd(numAdd(sq(numSub(q["x"], g["x"])), sq(numSub(q["y"], g["y"]))), sq(numSub(q["z"], g["z"]))))
				bead := numMul(numMul(numMul(r.cfg["LineWidth"], r.cfg["LayerHeight"]), dist), r.cfg["Flow"])
				area := numDiv(numMul(mkNumAtom(piAtom), sq(r.cfg["BarDiameter"])), mkNum(4))
				eqG(c, "bead-volume", w, e, "filament extruded", d, numDiv(bead, area), e.Cond)
				continue
			}
			onTool0 := cmpEQnum(g["tool"], mkNum(0), true)
			care := bAnd(e.Cond, onTool0)
			if unsat(care) {
				continue
			}
			m++
			retract := bAnds(r.cfg["Retraction"], cmpEQnum(g["ret"], mkNum(0), false), cmpEQnum(d, numNeg(r.cfg["RetractionDistance"]), false))
			restore := cmpEQnum(d, g["ret"], false)
			c.add("only-retraction-and-inverse", w, e.Pos, valid(bOr(retract, restore), care), "filament is moved by %s with %s retracted before: neither a retraction nor its inverse\n  when %s", d, under(g["ret"], care), care)
		}
		c.need(n, "printing move")
		c.count("printing_moves", n)
		c.count("filament_only_moves", m)
	})
}

func checkC07(c *Ctx) {
	c.printer(func(r *gcodeRun) {
		lm := r.dispatchCond("LayersMoving")
		type site struct {
			v     vertexRef
			cond  *Term
			first GEv
		}
		sites := map[string]*site{}
		n := 0
		var layerEv *GEv
		order := 0
		var firstLoops *LoopInfo
		for i := range r.evs {
			e := r.evs[i]
			if e.isLine(";LAYER") {
				w := c.where(e)
				if layerEv != nil {
					c.add("announced-once", w, e.Pos, false, "layers are announced at a second place")
					continue
				}
				layerEv = &r.evs[i]
				var num *Term
				if cm := e.Line.Com; len(cm) == 2 && cm[0].K == KLit && cm[0].S == "LAYER:" {
					num, _ = numberText(cm[1])
				}
				if num == nil {
					c.add("announced-number", w, e.Pos, false, "the layer number of %s cannot be read", e.Line.Text)
				} else {
					eqG(c, "announced-number", w, e, "announced layer number", num, e.Line.Pre["layers"], e.Cond)
				}
				ok := len(e.Loops) == 2 && !e.Loops[0].Early && !e.Loops[1].Early
				c.add("announced-for-each-layer", w, e.Pos, ok, "layers must be announced in the loop over the layers of each command")
				firstLoops = nil
				if ok {
					firstLoops = e.Loops[1]
				}
			}
			if !e.printing() {
				continue
			}
			n++
			w := c.where(e)
			v, ok := vertex(e.Line.Post, mkNum(0))
			if !c.add("prints-a-vertex", w, e.Pos, ok, "cannot tell which vertex this move prints: undecided\n  x = %s", e.Line.Post["x"]) {
				continue
			}
			for _, l := range e.Loops {
				c.add("no-early-exit", w, e.Pos, !l.Early, "the loop in %s around the printing move can end early", l.Fn)
			}
			o := -1
			for j, f := range layerFields {
				if f == v.field {
					o = j
				}
			}
			c.add("documented-order", w, e.Pos, o >= order, "%s are printed after %s", v.field, layerFields[order])
			if o > order {
				order = o
			}
			if firstLoops == nil || len(e.Loops) < 2 || e.Loops[1] != firstLoops {
				c.add("printed-with-its-layer", w, e.Pos, false, "the move is not printed in the loop that announces its layer")
			}
			key := v.field + v.line + v.pt.String()
			s := sites[key]
			if s == nil {
				s = &site{v, tFalse, e}
				sites[key] = s
			} else {
				c.add("printed-once", w, e.Pos, unsat(bAnd(s.cond, e.Cond)), "a vertex of %s is printed at two places", v.field)
			}
			s.cond = bOr(s.cond, e.Cond)
		}
		seen := map[string]int{}
		for _, s := range sites {
			e := s.first
			w := c.where(e)
			seen[s.v.field]++
			if seen[s.v.field] > 1 {
				c.add("printed-once", w, e.Pos, false, "%s are printed by more than one loop", s.v.field)
			}
			// the indices run over everything: each is its loop's counter plus a constant
			idx := []*Term{s.v.cmd, s.v.lay, s.v.pth, s.v.pt}
			ok := len(e.Loops) == 4
			if ok {
				for i, t := range idx {
					d := numSub(t, mkNumAtom(e.Loops[i].K))
					if _, k := d.constInt(); !k {
						ok = false
					}
				}
			}
			c.add("indices-run-in-order", w, e.Pos, ok, "the printed vertex is %s[%s] inside %d loops", s.v.line, s.v.pt, len(e.Loops))
			// and all of them are printed
			want := lm
			base := singleAtom(e.Line.Post["x"].Poly).Args[0] // the point
			pts := base.Atom.Args[0]
			pth := pts.Atom.Args[0]
			pths := pth.Atom.Args[0]
			lay := pths.Atom.Args[0]
			lays := lay.Atom.Args[0]
			lenOf := func(t *Term) *Term { return mkNumAtom(mkAtom("len", nil, true, t)) }
			inside := func(i, lo, hi *Term) *Term { return bAnd(cmpLE(lo, i, true), cmpLT(i, hi, true)) }
			want = bAnds(want, inside(s.v.lay, mkNum(0), lenOf(lays)), inside(s.v.pth, mkNum(0), lenOf(pths)), inside(s.v.pt, mkNum(1), lenOf(pts)))
			c.add("all-vertices-printed", w, e.Pos, eqCond(s.cond, want), "vertex %s of %s is printed when\n  %s\nnot exactly when\n  %s", s.v.pt, s.v.line, s.cond, want)
		}
		for _, f := range layerFields {
			c.add("field-printed", f, token.NoPos, seen[f] > 0, "%s of a layer are never printed", f)
		}
		c.need(n, "printing move")
		c.count("printing_moves", n)
		if layerEv == nil {
			c.add("announced", "gcode", token.NoPos, false, "layers are never announced")
			return
		}
		lf := c.require(c.p.meth("gcode", "Gcode", "LayerCount"), "gcode.Gcode.LayerCount")
		if lf == nil {
			return
		}
		o := c.run(lf, argTerms(lf), Client{NoMu: true, Unroll: 8}, nil, tTrue)
		c.add("layer-count", relName(lf), lf.Pos(), o.cond.K == KTrue && eqTerms(o.ret, r.end["layers"], tTrue), "announced layer count\n  %s\nlayers printed\n  %s", o.ret, r.end["layers"])
	})
}

func (c *Ctx) recvField(recv *Term, name string) *Term {
	if recv != nil && recv.K == KStruct {
		if st, ok := recv.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return recv.Kids[i]
				}
			}
		}
	}
	c.add("anchor", name, token.NoPos, false, "the command has no field %s: undecided", name)
	return tBot
}

func init() {
	checks["C01"] = checkFn{run: checkC01, rule: "The abstract printer keeps its own extruder coordinate, tool and coordinate mode while the generator's text is interpreted. At every extruding move: the printer's coordinate before the move equals the generator's running total before the move, retracted filament has been pushed back, the tool is 0; at the end of every bed command the tool is 0 and its coordinate is restored."}
	checks["C02"] = checkFn{run: checkC02, rule: "The feed rate in effect at every extruding move (the move's own F word or the printer's last one) is compared with the speed the settings give for that layer and kind of path."}
	checks["C03"] = checkFn{run: checkC03, rule: "The printer's fan state at every extruding move is compared with the state asked for by layer number and FanOffLayer1; the header's last fan command must be M107."}
	checks["C04"] = checkFn{run: checkC04, rule: "The printer's position is tracked through travels, bed commands and moves with missing coordinate words; at the k-th extruding move of a polyline the nozzle is at vertex k-1 before and at vertex k after; travels lift from where the nozzle is."}
	checks["C05"] = checkFn{run: checkC05, rule: "The tilt and rotation axis words of each bed command are evaluated symbolically in the coordinate mode in effect."}
	checks["C06"] = checkFn{run: checkC06, rule: "The extruder advance of each extruding move is compared with the bead volume formula over the two vertices it joins; every other extruder word must be a retraction, its inverse, or a coordinate reset."}
	checks["C07"] = checkFn{run: checkC07, rule: "The loops around the extruding moves are matched with the lists of the layer they walk: outer, middle, inner walls, then infill, each walked once from the second vertex to the last; layer announcements and counts are compared with the running number of layers."}
}
