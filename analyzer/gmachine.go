package main

// An abstract printer: the text the generator writes is read back as commands and drives
// an abstract machine state kept next to the program's own state ("ghost" objects), so that
// the dataflow analysis relates the two at every point of every command history.

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var ghostTypes = map[string]types.Type{
	"tool": types.Typ[types.Int], "e": types.Typ[types.Float64], "ret": types.Typ[types.Float64], "f": types.Typ[types.Int],
	"x": types.Typ[types.Float64], "y": types.Typ[types.Float64], "z": types.Typ[types.Float64], "low": types.Typ[types.Float64],
	"fan": types.Typ[types.Bool], "a1": types.Typ[types.Float64], "a2": types.Typ[types.Float64], "layers": types.Typ[types.Int],
	"pend": types.Typ[types.String],
}

func ghostNames() []string {
	var out []string
	for n := range ghostTypes {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

type Ghost map[string]*Term

func ghostObj(n string) *Term { return mkObj("ghost:" + n) }

func ghostOf(it *Interp, st *State) Ghost {
	g := Ghost{}
	for n := range ghostTypes {
		g[n] = it.load(st, ghostObj(n))
	}
	return g
}

// GLine is one complete line of output.
type GLine struct {
	Cmd       string
	Cond      *Term // within the event's condition: when this command is the one written
	Pre, Post Ghost
	Has, Val  map[byte]*Term
	Text      string
	Recv      *Term         // "cmd" events: the command
	Impl      *ssa.Function // the command's method being carried out, if any
	Com       []*Term       // text of a comment
}

type GMachine struct {
	buf    *Term
	before map[string]Ghost
	cur    []*ssa.Function
	recv   []*Term
}

func (m *GMachine) install(it *Interp, st *State, buf *Term) {
	m.buf = buf
	m.before = map[string]Ghost{}
	for n, t := range ghostTypes {
		it.objType["ghost:"+n] = t
		st.mem[ghostObj(n)] = zeroVal(t)
	}
}

type gleaf struct {
	cond *Term
	t    *Term
}

func leafConds(t *Term) []gleaf {
	// group the paths of a decision diagram by leaf
	m := map[*Term]*Term{}
	var order []*Term
	var rec func(t, c *Term)
	rec = func(t, c *Term) {
		if t.K == KIte {
			v := mkVarB(t.Var)
			rec(t.Kids[0], bAnd(c, v))
			rec(t.Kids[1], bAnd(c, bNot(v)))
			return
		}
		if _, ok := m[t]; !ok {
			order = append(order, t)
			m[t] = tFalse
		}
		m[t] = bOr(m[t], c)
	}
	rec(t, tTrue)
	var out []gleaf
	for _, l := range order {
		out = append(out, gleaf{m[l], l})
	}
	return out
}

// splitLines: complete lines and the unfinished rest of a text.
func splitLines(t *Term) (lines [][]*Term, rest []*Term) {
	for _, p := range t.Kids {
		if p.K != KLit {
			rest = append(rest, p)
			continue
		}
		ss := strings.Split(p.S, "\n")
		for i, s := range ss {
			if s != "" {
				rest = append(rest, mkLit(s))
			}
			if i < len(ss)-1 {
				lines = append(lines, rest)
				rest = nil
			}
		}
	}
	return
}

type gword struct {
	letter byte
	val    *Term
}

// parseLine: the command and its words; ok is false if the line cannot be read.
func parseLine(parts []*Term) (words []gword, comment []*Term, ok bool) {
	const (
		start = iota
		num
	)
	var lit strings.Builder
	var val *Term
	var letter byte
	flush := func() bool {
		if letter == 0 {
			return lit.Len() == 0 && val == nil
		}
		if val != nil {
			if lit.Len() > 0 {
				return false
			}
			words = append(words, gword{letter, val})
		} else if lit.Len() > 0 {
			r, k := new(big.Rat).SetString(lit.String())
			if !k {
				return false
			}
			words = append(words, gword{letter, mkRat(r)})
		} else {
			words = append(words, gword{letter, nil})
		}
		letter, val = 0, nil
		lit.Reset()
		return true
	}
	for i, p := range parts {
		if p.K == KLit {
			for j := 0; j < len(p.S); j++ {
				c := p.S[j]
				switch {
				case c == ';':
					if !flush() {
						return nil, nil, false
					}
					if j+1 < len(p.S) {
						comment = append(comment, mkLit(p.S[j+1:]))
					}
					comment = append(comment, parts[i+1:]...)
					if len(comment) == 0 {
						comment = []*Term{mkLit("")}
					}
					return words, comment, true
				case c == ' ' || c == '\t' || c == '\r':
					if !flush() {
						return nil, nil, false
					}
				case c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z':
					if !flush() {
						return nil, nil, false
					}
					letter = c &^ 0x20
				case c >= '0' && c <= '9' || c == '.' || c == '-' || c == '+':
					if letter == 0 || val != nil {
						return nil, nil, false
					}
					lit.WriteByte(c)
				default:
					return nil, nil, false
				}
			}
			continue
		}
		v, k := numberText(p)
		if !k || letter == 0 || val != nil {
			return nil, nil, false
		}
		if lit.Len() > 0 {
			if lit.String() != "-" {
				return nil, nil, false
			}
			lit.Reset()
			v = numNeg(v)
		}
		val = v
	}
	if !flush() {
		return nil, nil, false
	}
	return words, nil, true
}

// numberText: the number a formatted piece stands for, at print precision.
func numberText(p *Term) (*Term, bool) {
	if p.K != KAtom || len(p.Atom.Args) != 1 {
		return nil, false
	}
	switch op := p.Atom.Op; {
	case op == "fmt3" || op == "itoa":
		return p.Atom.Args[0], true
	case strings.HasPrefix(op, "fmt:f"):
		s := strings.TrimPrefix(op, "fmt:f")
		s = s[:strings.IndexByte(s, '/')]
		if n, err := strconv.Atoi(s); err == nil && (n >= 3 || n == -1) && strings.HasSuffix(op, "/64") {
			return p.Atom.Args[0], true
		}
	}
	// printed too coarsely to stand for the number: a number of its own
	return mkNumAtom(mkAtom("coarse:"+p.Atom.Op, nil, false, p.Atom.Args...)), true
}

func (m *GMachine) write(it *Interp, fr *Frame, st *State, pos token.Pos, p, text *Term) bool {
	if p != m.buf {
		return false
	}
	pre := ghostOf(it, st)
	full := lift(func(x []*Term) *Term { return mkStrParts(x[0], x[1]) }, strT(pre["pend"]), strT(restrict(text, st.cond)))
	ls := leafConds(restrict(full, st.cond))
	type lf struct {
		cond  *Term
		lines [][]*Term
		rest  *Term
	}
	var leaves []lf
	max := 0
	for _, l := range ls {
		if l.t.K != KStr {
			m.fail(it, fr, st, pos, "text that is not known")
			continue
		}
		lines, rest := splitLines(l.t)
		leaves = append(leaves, lf{l.cond, lines, mkStrParts(rest...)})
		if len(lines) > max {
			max = len(lines)
		}
	}
	for i := 0; i < max; i++ {
		g := ghostOf(it, st)
		type parsed struct {
			cond  *Term
			words []gword
			com   []*Term
			post  Ghost
		}
		groups := map[string][]parsed{}
		var names []string
		for _, l := range leaves {
			if i >= len(l.lines) {
				continue
			}
			words, com, ok := parseLine(l.lines[i])
			if !ok {
				m.fail(it, fr, st, pos, "a line that cannot be read: "+mkStrParts(l.lines[i]...).String())
				continue
			}
			cmd := ""
			if len(words) > 0 {
				cmd = string(rune(words[0].letter))
				if n, ok := valInt(words[0].val); ok {
					cmd += strconv.FormatInt(n, 10)
				} else {
					m.fail(it, fr, st, pos, "a command without a fixed number")
					continue
				}
				words = words[1:]
			} else if com != nil {
				cmd = ";"
				if com[0].K == KLit && strings.HasPrefix(com[0].S, "LAYER:") {
					cmd = ";LAYER"
				}
			} else {
				continue
			}
			if cmd == "G0" || cmd == "G1" { // the same command to the printer
				cmd = "G1"
			}
			hasE := false
			for _, w := range words {
				if w.letter == 'E' {
					hasE = true
				}
			}
			key := cmd
			if hasE {
				key += "E"
			}
			pz := parsed{l.cond, words, com, nil}
			if groups[key] == nil {
				names = append(names, key)
			}
			groups[key] = append(groups[key], pz)
		}
		post := Ghost{}
		for n := range g {
			post[n] = g[n]
		}
		for _, key := range names {
			cond := tFalse
			gl := &GLine{Cmd: strings.TrimSuffix(key, "E"), Pre: g, Post: Ghost{}, Has: map[byte]*Term{}, Val: map[byte]*Term{}}
			gp := Ghost{}
			for n := range g {
				gp[n] = g[n]
			}
			moves := false
			for _, q := range groups[key] {
				for _, w := range q.words {
					moves = moves || w.letter >= 'X' && w.letter <= 'Z'
				}
			}
			for _, q := range groups[key] {
				q.post = m.exec(it, fr, st, pos, gl.Cmd, q.words, moves, g)
				cond = bOr(cond, q.cond)
				for n := range g {
					gp[n] = mkIte(q.cond, q.post[n], gp[n])
					post[n] = mkIte(q.cond, q.post[n], post[n])
				}
				for _, w := range q.words {
					if gl.Has[w.letter] == nil {
						gl.Has[w.letter] = tFalse
						gl.Val[w.letter] = tBot
					}
					gl.Has[w.letter] = bOr(gl.Has[w.letter], q.cond)
					v := w.val
					if v == nil {
						v = tBot
					}
					gl.Val[w.letter] = mkIte(q.cond, v, gl.Val[w.letter])
				}
				if q.com != nil && gl.Text == "" {
					gl.Text = mkStrParts(q.com...).String()
					gl.Com = q.com
				}
			}
			for n := range g {
				gl.Post[n] = restrict(gp[n], bAnd(st.cond, cond))
			}
			gl.Cond = cond
			if n := len(m.cur); n > 0 {
				gl.Impl, gl.Recv = m.cur[n-1], m.recv[n-1]
			}
			it.emit(&Event{Kind: "line", In: fr.fn, Pos: pos, Cond: bAnd(st.cond, cond), Line: gl, Ctx: fr.ctx})
		}
		for n := range post {
			st.mem[ghostObj(n)] = post[n]
		}
	}
	rest := mkStr("")
	for _, l := range leaves {
		rest = mkIte(l.cond, l.rest, rest)
	}
	st.mem[ghostObj("pend")] = restrict(rest, st.cond)
	return true
}

func (m *GMachine) fail(it *Interp, fr *Frame, st *State, pos token.Pos, why string) {
	it.emit(&Event{Kind: "badtext", In: fr.fn, Pos: pos, Cond: st.cond, Note: why, Ctx: fr.ctx})
}

func valInt(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.constInt()
}

// exec is the printer's reaction to one command.
func (m *GMachine) exec(it *Interp, fr *Frame, st *State, pos token.Pos, cmd string, words []gword, moves bool, g Ghost) Ghost {
	n := Ghost{}
	for k, v := range g {
		n[k] = v
	}
	w := map[byte]*Term{}
	for _, x := range words {
		if w[x.letter] != nil || x.val == nil {
			m.fail(it, fr, st, pos, "a word given twice or without a value: "+string(rune(x.letter)))
		}
		w[x.letter] = x.val
	}
	tool0 := cmpEQnum(g["tool"], mkNum(0), true)
	tool1 := cmpEQnum(g["tool"], mkNum(1), true)
	tool2 := cmpEQnum(g["tool"], mkNum(2), true)
	switch cmd {
	case "G1":
		if v := w['F']; v != nil {
			n["f"] = v
		}
		xy := w['X'] != nil || w['Y'] != nil
		if v := w['X']; v != nil {
			n["x"] = v
		}
		if v := w['Y']; v != nil {
			n["y"] = v
		}
		if v := w['E']; v != nil {
			d := numSub(v, g["e"])
			n["e"] = v
			n["a1"] = mkIte(tool1, numAdd(g["a1"], d), g["a1"])
			n["a2"] = mkIte(tool2, numAdd(g["a2"], d), g["a2"])
			if !moves {
				n["ret"] = mkIte(tool0, numSub(g["ret"], d), g["ret"])
			}
		}
		if v := w['Z']; v != nil {
			n["z"] = v
		}
		if moves {
			up := tFalse
			if !xy && w['Z'] != nil && w['E'] == nil {
				up = posB(numSub(w['Z'], g["z"]), false)
			}
			n["low"] = mkIte(up, g["low"], n["z"])
		}
	case "G92":
		if v := w['E']; v != nil {
			n["e"] = v
		}
		for _, l := range "XYZ" {
			if v := w[byte(l)]; v != nil {
				n[strings.ToLower(string(l))] = v
			}
		}
	case "T0", "T1", "T2":
		n["tool"] = mkNum(int64(cmd[1] - '0'))
	case "M106":
		n["fan"] = tTrue
		if v := w['S']; v != nil {
			n["fan"] = posB(v, true)
		}
	case "M107":
		n["fan"] = tFalse
	case ";LAYER":
		n["layers"] = numAdd(g["layers"], mkNum(1))
	case ";", "G62":
	default:
		if cmd[0] == 'M' && cmd != "M82" && cmd != "M83" && cmd != "M84" {
			break
		}
		m.fail(it, fr, st, pos, "a command the abstract printer does not know: "+cmd)
	}
	return n
}

func (m *GMachine) beforeCmd(it *Interp, st *State, impl *ssa.Function, recv *Term, pos token.Pos) {
	m.before[impl.String()] = ghostOf(it, st)
	m.cur = append(m.cur, impl)
	m.recv = append(m.recv, recv)
}
func (m *GMachine) afterCmd(it *Interp, st *State, impl *ssa.Function, recv *Term, res *Term, pos token.Pos) {
	m.cur = m.cur[:len(m.cur)-1]
	m.recv = m.recv[:len(m.recv)-1]
	it.emit(&Event{Kind: "cmd", Fn: impl, Pos: pos, Cond: st.cond, Line: &GLine{Pre: m.before[impl.String()], Post: ghostOf(it, st), Recv: recv, Impl: impl}})
}
