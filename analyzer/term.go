package main

// Hash-consed terms: every value the analysis computes is a decision diagram
// (KIte over boolean variables) whose leaves are numbers (polynomials),
// booleans, strings, pointers, slices, opaque atoms, ...; structs are always on
// top and kept field by field.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KNum Kind = iota
	KTrue
	KFalse
	KIte
	KStr    // Kids: parts; literal part = KLit
	KLit    // literal text inside KStr
	KStruct // Kids: fields
	KTuple
	KPtr   // Kids[0]=object, rest=path (KField / numbers)
	KField // S = field index
	KSlice // Kids: obj|nilobj, off, len, isnil
	KNil
	KIface // Typ, Kids[0]
	KFunc  // Fn, Kids=bindings
	KAtom  // opaque non numeric, non boolean value
	KObj   // memory object: S name, Kids = loop counters
	KMap   // map content: Kids k,v,...
	KBot
	KSnap    // snapshot of a slice: Kids[0]=sequence
	KSnapPtr // snapshot of a pointee
	AZero    // all elements zero (Typ = elem type)
	ASym     // Kids[0] = KAtom base; contents unknown
	ACat     // Kids: parts
	AStore   // base, idx, val
	AMap     // base, lo, hi, body ; bound var depth in N
	PElem    // one element
	PSeg     // arr, off, len
	PFor     // n, body ; bound var depth in N
	KType
)

type Atom struct {
	ID     int
	Op     string
	Args   []*Term
	Typ    types.Type
	Int    bool
	NonNeg bool
	Pos    bool
}

type BVar struct {
	ID   int
	Op   string // "pos","neg": Args[0] number; "seq": display equality; others opaque
	Args []*Term
	Int  bool
}

type Term struct {
	ID   int
	K    Kind
	Kids []*Term
	Typ  types.Type
	S    string
	N    int
	Poly *Poly
	Atom *Atom
	Var  *BVar
	Fn   *ssa.Function

	ite    bool // contains KIte at the "value" level (is itself KIte)
	vars   []*BVar
	varsOK bool
	bdepth int // 1 + deepest bound variable binder inside
}

var (
	terms    = map[string]*Term{}
	atoms    = map[string]*Atom{}
	bvars    = map[string]*BVar{}
	termSeq  int
	atomSeq  int
	bvarSeq  int
	typeStrs = map[types.Type]string{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := typeStrs[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	if k := localShape(t, 0); k != "" {
		s = k
	}
	typeStrs[t] = s
	return s
}

// localShape names an unexported struct type without methods (and lists and pointers of it) by its
// fields' types: how such a type and its fields are called cannot be observed.
func localShape(t types.Type, depth int) string {
	if depth > 6 {
		return ""
	}
	switch x := t.(type) {
	case *types.Named:
		st, ok := x.Underlying().(*types.Struct)
		if !ok || x.Obj().Exported() || x.NumMethods() > 0 {
			return ""
		}
		s := "local{"
		for i := 0; i < st.NumFields(); i++ {
			k := localShape(st.Field(i).Type(), depth+1)
			if k == "" {
				k = types.TypeString(st.Field(i).Type(), nil)
			}
			s += k + ";"
		}
		return s + "}"
	case *types.Slice:
		if k := localShape(x.Elem(), depth+1); k != "" {
			return "[]" + k
		}
	case *types.Pointer:
		if k := localShape(x.Elem(), depth+1); k != "" {
			return "*" + k
		}
	case *types.Chan:
		if k := localShape(x.Elem(), depth+1); k != "" {
			return "chan " + k
		}
	}
	return ""
}

// fieldOp names the selection of a field.
func fieldOp(t types.Type, st *types.Struct, i int) string {
	if localShape(t, 0) != "" {
		return "." + strconv.Itoa(i)
	}
	return "." + st.Field(i).Name()
}

var internCount int

func intern(t *Term) *Term {
	internCount++
	if internCount&4095 == 0 && time.Now().After(deadline) {
		panic(blowup{})
	}
	var b strings.Builder
	b.WriteByte(byte('A' + t.K))
	if t.Typ != nil {
		b.WriteString(typeKey(t.Typ))
	}
	b.WriteByte('|')
	b.WriteString(t.S)
	b.WriteByte('|')
	if t.N != 0 {
		b.WriteString(strconv.Itoa(t.N))
	}
	b.WriteByte('|')
	if t.Poly != nil {
		b.WriteString(t.Poly.key)
	}
	if t.Atom != nil {
		b.WriteByte('a')
		b.WriteString(strconv.Itoa(t.Atom.ID))
	}
	if t.Var != nil {
		b.WriteByte('v')
		b.WriteString(strconv.Itoa(t.Var.ID))
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "f%p", t.Fn)
	}
	for _, k := range t.Kids {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(k.ID))
	}
	key := b.String()
	if x, ok := terms[key]; ok {
		return x
	}
	termSeq++
	t.ID = termSeq
	d := 0
	for _, k := range t.Kids {
		if k.bdepth > d {
			d = k.bdepth
		}
	}
	if t.Atom != nil {
		if x := atomDepth(t.Atom); x > d {
			d = x
		}
	}
	if t.Var != nil {
		if x := binderDepth(t.Var.Op, t.Var.Args); x > d {
			d = x
		}
	}
	if t.Poly != nil {
		for _, m := range t.Poly.T {
			for _, f := range m.M.Fs {
				if x := atomDepth(f.A); x > d {
					d = x
				}
			}
		}
	}
	if t.K == PFor || t.K == AMap {
		if t.N > d {
			d = t.N
		}
	}
	t.bdepth = d
	terms[key] = t
	return t
}

// atomDepth: the largest bound-variable number occurring (free or bound) in an atom
func atomDepth(a *Atom) int {
	if a.Op == "bound" {
		n, _ := a.Args[0].constInt()
		return int(n)
	}
	return binderDepth(a.Op, a.Args)
}
func isFoldOp(op string) bool {
	switch op {
	case "fsum", "fany", "ffirst", "fmin", "fmax", "mu":
		return true
	}
	return false
}
func binderDepth(op string, args []*Term) int {
	d := 0
	for _, k := range args {
		if k.bdepth > d {
			d = k.bdepth
		}
	}
	if isFoldOp(op) {
		if n, ok := args[2].constInt(); ok && int(n) > d {
			d = int(n)
		}
	}
	return d
}

func mkAtom(op string, typ types.Type, isInt bool, args ...*Term) *Atom {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	if typ != nil {
		b.WriteString(typeKey(typ))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	if isInt {
		b.WriteByte('i')
	}
	k := b.String()
	if a, ok := atoms[k]; ok {
		return a
	}
	atomSeq++
	a := &Atom{ID: atomSeq, Op: op, Args: args, Typ: typ, Int: isInt}
	switch op {
	case "len", "sqrt", "k", "bound", "cap", "sumlen":
		a.NonNeg = true
		if op == "len" && nonEmpty != nil && nonEmpty(args[0]) {
			a.Pos = true
		}
	case "pi", "numcpu", "inf":
		a.NonNeg, a.Pos = true, true
	}
	atoms[k] = a
	return a
}

// nonEmpty: lists a check assumes to have an element (because the code would stop otherwise).
var nonEmpty func(list *Term) bool

func mkVar(op string, isInt bool, args ...*Term) *BVar {
	var b strings.Builder
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if v, ok := bvars[k]; ok {
		return v
	}
	bvarSeq++
	v := &BVar{ID: bvarSeq, Op: op, Args: args, Int: isInt}
	bvars[k] = v
	return v
}

var (
	tTrue  = intern(&Term{K: KTrue})
	tFalse = intern(&Term{K: KFalse})
	tNil   = intern(&Term{K: KNil})
	tBot   = intern(&Term{K: KBot})
)

func mkNumPoly(p *Poly) *Term { return intern(&Term{K: KNum, Poly: p}) }
func mkNum(i int64) *Term     { return mkNumPoly(pInt(i)) }
func mkRat(r *big.Rat) *Term  { return mkNumPoly(pConst(r)) }
func mkRat2(a, b int64) *Term { return mkRat(big.NewRat(a, b)) }
func mkNumAtom(a *Atom) *Term { return mkNumPoly(pAtom(a)) }
func mkVarB(v *BVar) *Term    { return intern(&Term{K: KIte, Var: v, Kids: []*Term{tTrue, tFalse}}) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStruct(typ types.Type, fs ...*Term) *Term {
	return intern(&Term{K: KStruct, Typ: typ, Kids: fs})
}
func mkTuple(fs ...*Term) *Term { return intern(&Term{K: KTuple, Kids: fs}) }
func mkKAtom(a *Atom) *Term     { return intern(&Term{K: KAtom, Atom: a}) }
func mkObj(name string, ks ...*Term) *Term {
	return intern(&Term{K: KObj, S: name, Kids: ks})
}
func mkPtr(obj *Term, path ...*Term) *Term {
	return intern(&Term{K: KPtr, Kids: append([]*Term{obj}, path...)})
}
func mkFieldIdx(i int) *Term { return intern(&Term{K: KField, N: i + 1}) }
func mkSlice(obj, off, ln, isnil *Term) *Term {
	return intern(&Term{K: KSlice, Kids: []*Term{obj, off, ln, isnil}})
}
func mkTypeT(t types.Type) *Term { return intern(&Term{K: KType, Typ: t}) }
func mkLit(s string) *Term       { return intern(&Term{K: KLit, S: s}) }

var nilObj = mkObj("nil")
var nilSlice = mkSlice(nilObj, mkNum(0), mkNum(0), tTrue)

// mkStrParts builds a string leaf, merging literals.
func mkStrParts(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.K == KStr {
			for _, q := range p.Kids {
				out = appendPart(out, q)
			}
			continue
		}
		out = appendPart(out, p)
	}
	return intern(&Term{K: KStr, Kids: out})
}
func appendPart(out []*Term, p *Term) []*Term {
	if p.K == KLit {
		if p.S == "" {
			return out
		}
		if n := len(out); n > 0 && out[n-1].K == KLit {
			out[n-1] = mkLit(out[n-1].S + p.S)
			return out
		}
	}
	return append(out, p)
}
func mkStr(s string) *Term { return mkStrParts(mkLit(s)) }
func (t *Term) litStr() (string, bool) {
	if t.K != KStr {
		return "", false
	}
	if len(t.Kids) == 0 {
		return "", true
	}
	if len(t.Kids) == 1 && t.Kids[0].K == KLit {
		return t.Kids[0].S, true
	}
	return "", false
}

func (t *Term) constRat() (*big.Rat, bool) {
	if t.K != KNum {
		return nil, false
	}
	return t.Poly.isConst()
}
func (t *Term) constInt() (int64, bool) {
	r, ok := t.constRat()
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return r.Num().Int64(), true
}

// ---------- decision diagrams

type blowup struct{}

var nodeBudget = 400000

func mkNode(v *BVar, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	if v.Op == "pos" || v.Op == "neg" {
		if hi.K == KNum && lo.K == KNum && !v.Int {
			// ITE(P>0, x, y) with x-y = c*P is a min or max
			d := hi.Poly.add(lo.Poly, -1)
			P := v.Args[0].Poly
			if c, ok := ratioOf(d, P); ok {
				if v.Op == "neg" {
					c = new(big.Rat).Neg(c)
				}
				if c.Sign() > 0 {
					return mkMinMax("max", hi, lo)
				}
				return mkMinMax("min", hi, lo)
			}
		} else if hi.K == KNum && lo.K == KNum {
			d := hi.Poly.add(lo.Poly, -1)
			P := v.Args[0].Poly
			if c, ok := ratioOf(d, P); ok {
				if c.Sign() > 0 {
					return mkMinMax("max", hi, lo)
				}
				return mkMinMax("min", hi, lo)
			}
		}
	}
	if v.Op == "seq" {
		a, b := v.Args[0], v.Args[1]
		if (hi == a && lo == b) || (hi == b && lo == a) {
			return lo
		}
	}
	if hi.K == KStruct || lo.K == KStruct || hi.K == KTuple || lo.K == KTuple {
		panic("ite over struct")
	}
	return intern(&Term{K: KIte, Var: v, Kids: []*Term{hi, lo}})
}

// ratioOf: d == c*p for a rational constant c != 0
func ratioOf(d, p *Poly) (*big.Rat, bool) {
	if len(d.T) == 0 || len(d.T) != len(p.T) {
		return nil, false
	}
	if d.T[0].M.key != p.T[0].M.key {
		return nil, false
	}
	c := new(big.Rat).Quo(d.T[0].C, p.T[0].C)
	if p.scale(c).key == d.key {
		return c, true
	}
	return nil, false
}

func mkMinMax(op string, xs ...*Term) *Term {
	set := map[*Term]bool{}
	isInt := true
	var add func(t *Term)
	add = func(t *Term) {
		if t.K == KNum && len(t.Poly.T) == 1 && len(t.Poly.T[0].M.Fs) == 1 {
			f := t.Poly.T[0].M.Fs[0]
			if f.E == 1 && f.A.Op == op && t.Poly.T[0].C.Cmp(oneRat) == 0 {
				for _, a := range f.A.Args {
					set[a] = true
				}
				return
			}
		}
		set[t] = true
	}
	for _, x := range xs {
		add(x)
	}
	var l []*Term
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	// drop elements dominated by a constant-offset sibling
	var out []*Term
	for i, a := range l {
		drop := false
		for j, b := range l {
			if i == j {
				continue
			}
			s := a.Poly.add(b.Poly, -1).sign() // a-b
			if op == "max" && (s == -1 || s == -2) || op == "min" && (s == 1 || s == 2) {
				drop = true
			}
		}
		if !drop {
			out = append(out, a)
		}
		if !polyInt(a.Poly) {
			isInt = false
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 0 {
		return l[0]
	}
	// abs: max(P,-P) is non-negative
	a := mkAtom(op, nil, isInt, out...)
	if op == "max" && len(out) == 2 && out[0].Poly.neg().key == out[1].Poly.key {
		a.NonNeg = true
	}
	allNN := true
	anyNN := false
	for _, o := range out {
		s := o.Poly.sign()
		if s == 0 || s == 1 || s == 2 {
			anyNN = true
		} else {
			allNN = false
		}
	}
	if op == "min" && allNN || op == "max" && anyNN {
		a.NonNeg = true
	}
	return mkNumAtom(a)
}

func polyInt(p *Poly) bool {
	for _, t := range p.T {
		if !t.C.IsInt() {
			return false
		}
		for _, f := range t.M.Fs {
			if !f.A.Int || f.E < 0 {
				return false
			}
		}
	}
	return true
}

func topVar(ts ...*Term) *BVar {
	var v *BVar
	for _, t := range ts {
		if t.K == KIte && (v == nil || t.Var.ID < v.ID) {
			v = t.Var
		}
	}
	return v
}
func cofac(t *Term, v *BVar, hi bool) *Term {
	if t.K == KIte && t.Var == v {
		if hi {
			return t.Kids[0]
		}
		return t.Kids[1]
	}
	return t
}

type memoKey [4]int

// lift applies f on leaves.
func lift(f func(xs []*Term) *Term, xs ...*Term) *Term {
	memo := map[string]*Term{}
	cnt := 0
	var rec func(xs []*Term) *Term
	rec = func(xs []*Term) *Term {
		v := topVar(xs...)
		if v == nil {
			return f(xs)
		}
		var kb strings.Builder
		for _, x := range xs {
			kb.WriteString(strconv.Itoa(x.ID))
			kb.WriteByte(',')
		}
		k := kb.String()
		if r, ok := memo[k]; ok {
			return r
		}
		cnt++
		if cnt > nodeBudget {
			panic(blowup{})
		}
		h := make([]*Term, len(xs))
		l := make([]*Term, len(xs))
		for i, x := range xs {
			h[i] = cofac(x, v, true)
			l[i] = cofac(x, v, false)
		}
		r := iteVar(v, rec(h), rec(l))
		memo[k] = r
		return r
	}
	return rec(xs)
}

// deepTop and deepCofac look for conditions inside structure fields as well.
func deepTop(ts ...*Term) *BVar {
	v := topVar(ts...)
	for _, t := range ts {
		if t.K == KStruct || t.K == KSnapPtr || t.K == KTuple {
			if w := deepTop(t.Kids...); w != nil && (v == nil || w.ID < v.ID) {
				v = w
			}
		}
	}
	return v
}
func deepCofac(t *Term, v *BVar, hi bool) *Term {
	switch t.K {
	case KIte:
		return cofac(t, v, hi)
	case KStruct, KSnapPtr, KTuple:
		ks := make([]*Term, len(t.Kids))
		same := true
		for i, k := range t.Kids {
			ks[i] = deepCofac(k, v, hi)
			same = same && ks[i] == k
		}
		if same {
			return t
		}
		switch t.K {
		case KStruct:
			return mkStruct(t.Typ, ks...)
		case KTuple:
			return mkTuple(ks...)
		}
		return intern(&Term{K: t.K, Typ: t.Typ, S: t.S, Kids: ks})
	}
	return t
}

// liftSmall lifts over the arguments' conditions when they are few; an uninterpreted function
// of arguments with many conditions keeps them inside.
func liftSmall(f func(xs []*Term) *Term, xs ...*Term) *Term {
	memo := map[string]*Term{}
	over := false
	var rec func(xs []*Term) *Term
	rec = func(xs []*Term) *Term {
		if over {
			return tBot
		}
		v := deepTop(xs...)
		if v == nil {
			return f(xs)
		}
		var kb strings.Builder
		for _, x := range xs {
			kb.WriteString(strconv.Itoa(x.ID))
			kb.WriteByte(',')
		}
		k := kb.String()
		if r, ok := memo[k]; ok {
			return r
		}
		if len(memo) > 300 {
			over = true
			return tBot
		}
		memo[k] = tBot
		h, l := make([]*Term, len(xs)), make([]*Term, len(xs))
		for i, x := range xs {
			h[i], l[i] = deepCofac(x, v, true), deepCofac(x, v, false)
		}
		r := iteVar(v, rec(h), rec(l))
		memo[k] = r
		return r
	}
	r := rec(xs)
	if over {
		return f(xs)
	}
	return r
}

// iteVar builds ITE(v,hi,lo) where hi/lo may contain variables above v.
func iteVar(v *BVar, hi, lo *Term) *Term {
	return mkIte(mkVarB(v), hi, lo)
}

func mkIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	switch c.K {
	case KTrue:
		return a
	case KFalse:
		return b
	}
	if a.K == KBot && b.K != KBot {
		return b
	}
	if b.K == KBot {
		return a
	}
	if a.K == KStruct && b.K == KStruct && len(a.Kids) == len(b.Kids) {
		fs := make([]*Term, len(a.Kids))
		for i := range fs {
			fs[i] = mkIte(c, a.Kids[i], b.Kids[i])
		}
		return mkStruct(a.Typ, fs...)
	}
	if a.K == KTuple && b.K == KTuple && len(a.Kids) == len(b.Kids) {
		fs := make([]*Term, len(a.Kids))
		for i := range fs {
			fs[i] = mkIte(c, a.Kids[i], b.Kids[i])
		}
		return mkTuple(fs...)
	}
	memo := map[[3]int]*Term{}
	var rec func(c, a, b *Term) *Term
	rec = func(c, a, b *Term) *Term {
		if a == b || c.K == KTrue {
			return a
		}
		if c.K == KFalse {
			return b
		}
		k := [3]int{c.ID, a.ID, b.ID}
		if r, ok := memo[k]; ok {
			return r
		}
		if len(memo) > nodeBudget {
			panic(blowup{})
		}
		v := topVar(c, a, b)
		r := mkNode(v, rec(cofac(c, v, true), cofac(a, v, true), cofac(b, v, true)),
			rec(cofac(c, v, false), cofac(a, v, false), cofac(b, v, false)))
		memo[k] = r
		return r
	}
	return rec(c, a, b)
}

func bNot(a *Term) *Term    { return mkIte(a, tFalse, tTrue) }
func bAnd(a, b *Term) *Term { return mkIte(a, b, tFalse) }
func bOr(a, b *Term) *Term  { return mkIte(a, tTrue, b) }
func bAnds(xs ...*Term) *Term {
	r := tTrue
	for _, x := range xs {
		r = bAnd(r, x)
	}
	return r
}
func bImp(a, b *Term) *Term { return bOr(bNot(a), b) }

// restrict simplifies f outside the care set c (Coudert-Madre).
func restrict(f, c *Term) *Term {
	if c.K == KTrue || f.K != KIte && f.K != KStruct && f.K != KTuple {
		return f
	}
	if f.K == KStruct || f.K == KTuple {
		fs := make([]*Term, len(f.Kids))
		for i := range fs {
			fs[i] = restrict(f.Kids[i], c)
		}
		return intern(&Term{K: f.K, Typ: f.Typ, Kids: fs})
	}
	memo := map[[2]int]*Term{}
	var rec func(f, c *Term) *Term
	rec = func(f, c *Term) *Term {
		if c.K == KTrue || c.K == KFalse || f.K != KIte {
			return f
		}
		k := [2]int{f.ID, c.ID}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		switch {
		case c.Var.ID < f.Var.ID:
			r = rec(f, bOr(c.Kids[0], c.Kids[1]))
		case c.Var == f.Var:
			if c.Kids[0].K == KFalse {
				r = rec(f.Kids[1], c.Kids[1])
			} else if c.Kids[1].K == KFalse {
				r = rec(f.Kids[0], c.Kids[0])
			} else {
				r = mkNode(f.Var, rec(f.Kids[0], c.Kids[0]), rec(f.Kids[1], c.Kids[1]))
			}
		default:
			r = mkNode(f.Var, rec(f.Kids[0], c), rec(f.Kids[1], c))
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// topVars lists the variables of the decision diagram(s) at value level.
func topVars(t *Term) []*BVar {
	seen := map[*Term]bool{}
	vs := map[*BVar]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.K {
		case KIte:
			vs[t.Var] = true
			rec(t.Kids[0])
			rec(t.Kids[1])
		case KStruct, KTuple:
			for _, k := range t.Kids {
				rec(k)
			}
		}
	}
	rec(t)
	var out []*BVar
	for v := range vs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// theory gives the constraints linking comparison variables on the same expression.
func theory(vs []*BVar) *Term {
	type th struct {
		v   *BVar
		t   *big.Rat // threshold: pos: base > t ; neg: base < t
		pos bool
	}
	groups := map[string][]th{}
	var keys []string
	for _, v := range vs {
		if v.Op != "pos" && v.Op != "neg" {
			continue
		}
		p := v.Args[0].Poly
		c := new(big.Rat)
		base := p
		for _, t := range p.T {
			if len(t.M.Fs) == 0 {
				c = t.C
				base = p.add(pConst(c), -1)
			}
		}
		k := base.key
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], th{v, new(big.Rat).Neg(c), v.Op == "pos"})
	}
	res := tTrue
	for i, v := range vs { // one text cannot equal two different literals
		for _, w := range vs[:i] {
			if v.Op == "streq" && w.Op == "streq" && differentLits(v, w) {
				res = bAnd(res, bOr(bNot(mkVarB(v)), bNot(mkVarB(w))))
			}
		}
	}
	for _, k := range keys {
		g := groups[k]
		for i := range g {
			for j := range g {
				if i == j {
					continue
				}
				a, b := g[i], g[j]
				va, vb := mkVarB(a.v), mkVarB(b.v)
				cmp := a.t.Cmp(b.t)
				switch {
				case a.pos && b.pos:
					if cmp >= 0 { // base>ta => base>tb
						res = bAnd(res, bImp(va, vb))
					}
				case !a.pos && !b.pos:
					if cmp <= 0 {
						res = bAnd(res, bImp(va, vb))
					}
				case a.pos && !b.pos:
					if cmp >= 0 { // base>ta>=tb => !(base<tb)
						res = bAnd(res, bImp(va, bNot(vb)))
					} else { // ta<tb : base>ta or base<tb
						res = bAnd(res, bOr(va, vb))
					}
				}
			}
		}
	}
	return res
}

func differentLits(v, w *BVar) bool {
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			if v.Args[i] == w.Args[j] {
				a, ok1 := v.Args[1-i].litStr()
				b, ok2 := w.Args[1-j].litStr()
				if ok1 && ok2 && a != b {
					return true
				}
			}
		}
	}
	return false
}

func simp(t *Term) *Term {
	vs := topVars(t)
	if len(vs) < 2 {
		return t
	}
	c := theory(vs)
	return restrict(t, c)
}

// valid: care && theory => f
func valid(f, care *Term) bool {
	g := bImp(care, f)
	if g.K == KTrue {
		return true
	}
	g = simp(g)
	if g.K == KTrue {
		return true
	}
	c := theory(topVars(g))
	return bImp(c, g).K == KTrue
}
func unsat(f *Term) bool { return valid(bNot(f), tTrue) }

// ---------- comparisons

func numSub(a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum || x[1].K != KNum {
			return tBot
		}
		return mkNumPoly(normPoly(x[0].Poly.add(x[1].Poly, -1)))
	}, a, b)
}
func numAdd(a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum || x[1].K != KNum {
			return tBot
		}
		return mkNumPoly(normPoly(x[0].Poly.add(x[1].Poly, 1)))
	}, a, b)
}
func numMul(a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum || x[1].K != KNum {
			return tBot
		}
		return mkNumPoly(x[0].Poly.mul(x[1].Poly))
	}, a, b)
}
func numNeg(a *Term) *Term { return numSub(mkNum(0), a) }
func numDiv(a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum || x[1].K != KNum {
			return tBot
		}
		p := divPoly(x[0].Poly, x[1].Poly)
		if p == nil {
			return mkNumAtom(mkAtom("divzero", nil, false, x[0]))
		}
		return mkNumPoly(p)
	}, a, b)
}
func numSqrt(a *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum {
			return tBot
		}
		p := x[0].Poly
		if r, ok := p.isConst(); ok && r.Sign() >= 0 {
			n := new(big.Int).Sqrt(r.Num())
			d := new(big.Int).Sqrt(r.Denom())
			if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
				return mkRat(new(big.Rat).SetFrac(n, d))
			}
			// sqrt(p/q) = s/q * sqrt(p*q / s^2)
			m := new(big.Int).Mul(r.Num(), r.Denom())
			sq := big.NewInt(1)
			for _, k := range []int64{2, 3, 5, 7, 11, 13} {
				k2 := big.NewInt(k * k)
				for new(big.Int).Mod(m, k2).Sign() == 0 {
					m.Div(m, k2)
					sq.Mul(sq, big.NewInt(k))
				}
			}
			a := mkAtom("sqrt", nil, false, mkRat(new(big.Rat).SetInt(m)))
			a.Pos = true
			return numMul(mkRat(new(big.Rat).SetFrac(sq, r.Denom())), mkNumAtom(a))
		}
		// single monomial perfect square -> |m|
		if len(p.T) == 1 {
			t := p.T[0]
			n := new(big.Int).Sqrt(t.C.Num())
			d := new(big.Int).Sqrt(t.C.Denom())
			ok := t.C.Sign() > 0 && new(big.Int).Mul(n, n).Cmp(t.C.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(t.C.Denom()) == 0
			var fs []Fac
			for _, f := range t.M.Fs {
				if f.E%2 != 0 {
					ok = false
				}
				fs = append(fs, Fac{f.A, f.E / 2})
			}
			if ok {
				q := newPoly(map[string]*PT{"x": {mkMono(fs), new(big.Rat).SetFrac(n, d)}})
				return mkMinMax("max", mkNumPoly(q), mkNumPoly(q.neg()))
			}
		}
		if q := polySqrt(p); q != nil {
			return mkMinMax("max", mkNumPoly(q), mkNumPoly(q.neg()))
		}
		return mkNumAtom(mkAtom("sqrt", nil, false, x[0]))
	}, a)
}

func ratSqrt(r *big.Rat) *big.Rat {
	if r.Sign() < 0 {
		return nil
	}
	n, d := new(big.Int).Sqrt(r.Num()), new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) != 0 || new(big.Int).Mul(d, d).Cmp(r.Denom()) != 0 {
		return nil
	}
	return new(big.Rat).SetFrac(n, d)
}

// polySqrt: q with q*q == p, for a sum that is a perfect square.
func polySqrt(p *Poly) *Poly {
	if len(p.T) < 3 || len(p.T) > 21 {
		return nil
	}
	first := p.T[0]
	for _, t := range p.T {
		for _, f := range t.M.Fs {
			if f.E < 0 {
				return nil
			}
		}
		if monoLess(first.M, t.M) {
			first = t
		}
	}
	c := ratSqrt(first.C)
	if c == nil {
		return nil
	}
	var fs []Fac
	for _, f := range first.M.Fs {
		if f.E%2 != 0 {
			return nil
		}
		fs = append(fs, Fac{f.A, f.E / 2})
	}
	lead := PT{mkMono(fs), c}
	q := newPoly(map[string]*PT{"x": {lead.M, lead.C}})
	for n := 0; n < 6; n++ {
		r := p.add(q.rawMul(q), -1)
		if r.isZero() {
			return q
		}
		top := r.T[0]
		for _, t := range r.T {
			if monoLess(top.M, t.M) {
				top = t
			}
		}
		m, ok := divMono(top.M, lead.M)
		if !ok {
			return nil
		}
		q = q.add(newPoly(map[string]*PT{"x": {m, new(big.Rat).Quo(top.C, new(big.Rat).Mul(big.NewRat(2, 1), lead.C))}}), 1)
	}
	return nil
}

// posB: P > 0
func posB(p *Term, isInt bool) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum {
			return tFalse
		}
		return posLeaf(x[0].Poly, isInt)
	}, p)
}
// modRange decides p > 0 for a remainder plus a constant, where the range of the remainder does.
func modRange(p *Poly) *Term {
	var at *Atom
	var sgn int
	k := new(big.Rat)
	for _, t := range p.T {
		switch {
		case len(t.M.Fs) == 0:
			k = t.C
		case at == nil && len(t.M.Fs) == 1 && t.M.Fs[0].E == 1 && t.M.Fs[0].A.Op == "imod" && t.C.IsInt() && t.C.Num().CmpAbs(big.NewInt(1)) == 0:
			at, sgn = t.M.Fs[0].A, t.C.Sign()
		default:
			return nil
		}
	}
	if at == nil {
		return nil
	}
	c, ok := at.Args[1].constInt()
	if !ok || c <= 0 {
		return nil
	}
	lo, hi := -(c - 1), c-1
	if at.NonNeg {
		lo = 0
	}
	if sgn < 0 {
		lo, hi = -hi, -lo
	}
	if new(big.Rat).Add(k, big.NewRat(lo, 1)).Sign() > 0 {
		return tTrue
	}
	if new(big.Rat).Add(k, big.NewRat(hi, 1)).Sign() <= 0 {
		return tFalse
	}
	return nil
}

func posLeaf(p *Poly, isInt bool) *Term {
	switch p.sign() {
	case 1:
		return tTrue
	case 0, -1, -2:
		return tFalse
	}
	if isInt {
		p = intNormal(p)
		if r := modRange(p); r != nil {
			return r
		}
	} else if q, facs := clearDen(p); len(facs) > 0 {
		// the sign of a quotient is decided by the signs of numerator and denominators
		pos, neg := posLeaf(q, false), posLeaf(q.neg(), false)
		for _, f := range facs {
			s := f.sign()
			if s == 1 || s == 2 {
				continue
			}
			fp, fn := posLeaf(f, false), posLeaf(f.neg(), false)
			pos, neg = mkIte(fp, pos, bAnd(fn, neg)), mkIte(fp, neg, bAnd(fn, pos))
		}
		return pos
	}
	lead := p.T[0].C
	if !isInt && len(p.T) == 1 && len(p.T[0].M.Fs) == 1 && p.T[0].M.Fs[0].A.Op == "sqrt" && p.T[0].M.Fs[0].E == 1 && lead.Sign() > 0 {
		return posB(p.T[0].M.Fs[0].A.Args[0], false)
	}
	if isInt {
		if lead.Sign() < 0 {
			// -Q > 0  <=>  !(Q+1 > 0)
			q := p.neg().add(pInt(1), 1)
			if q.sign() == 1 {
				return tFalse
			}
			return bNot(mkVarB(mkVar("pos", true, mkNumPoly(q))))
		}
		return mkVarB(mkVar("pos", true, mkNumPoly(p)))
	}
	abs := new(big.Rat).Abs(lead)
	q := p.scale(new(big.Rat).Inv(abs))
	if lead.Sign() > 0 {
		return mkVarB(mkVar("pos", false, mkNumPoly(q)))
	}
	q = q.neg()
	// -Q > 0 <=> Q < 0
	return mkVarB(mkVar("neg", false, mkNumPoly(q)))
}
func negLeaf(p *Poly, isInt bool) *Term { return posLeaf(p.neg(), isInt) }

func intNormal(p *Poly) *Poly {
	// divide by the gcd of non-constant coefficients when it divides the constant as well
	g := new(big.Int)
	for _, t := range p.T {
		if !t.C.IsInt() {
			return p
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.C.Num()))
	}
	if g.Sign() == 0 || g.Cmp(big.NewInt(1)) == 0 {
		return p
	}
	return p.scale(new(big.Rat).SetFrac(big.NewInt(1), g))
}

func cmpLT(a, b *Term, isInt bool) *Term { return posB(numSub(b, a), isInt) }
func cmpLE(a, b *Term, isInt bool) *Term { return bNot(posB(numSub(a, b), isInt)) }
func cmpEQnum(a, b *Term, isInt bool) *Term {
	d := numSub(a, b)
	return lift(func(x []*Term) *Term {
		if x[0].K != KNum {
			return tFalse
		}
		p := x[0].Poly
		return bAnd(bNot(posLeaf(p, isInt)), bNot(negLeaf(p, isInt)))
	}, d)
}

// ---------- printing

func shortOp(op string) string {
	for _, p := range []string{"k:", "ls:", "lo:", "buf:"} {
		if strings.HasPrefix(op, p) {
			return p[:len(p)-1] + shortHash(op)
		}
	}
	if strings.HasPrefix(op, "T/") || strings.HasPrefix(op, "init:") {
		i := strings.LastIndex(op, "/")
		return shortHash(op) + "/" + op[i+1:]
	}
	return strings.Replace(op, "github.com/l1va/goosli/", "", -1)
}
func shortHash(s string) string {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return strconv.FormatUint(uint64(h%46656), 36)
}

func (a *Atom) String() string {
	if strings.HasPrefix(a.Op, "k:") {
		return shortOp(a.Op)
	}
	if len(a.Args) == 0 {
		return shortOp(a.Op)
	}
	var ss []string
	for _, x := range a.Args {
		ss = append(ss, x.String())
	}
	switch {
	case strings.HasPrefix(a.Op, "."):
		return ss[0] + a.Op
	case a.Op == "elem":
		return ss[0] + "[" + ss[1] + "]"
	}
	return shortOp(a.Op) + "(" + strings.Join(ss, ",") + ")"
}
func (v *BVar) String() string {
	var ss []string
	for _, x := range v.Args {
		ss = append(ss, x.String())
	}
	switch v.Op {
	case "pos":
		return "(" + ss[0] + " > 0)"
	case "neg":
		return "(" + ss[0] + " < 0)"
	}
	return v.Op + "(" + strings.Join(ss, ",") + ")"
}
// Printing walks a shared graph as a tree, so it is cut off after a number of nodes.
var strNest, strLeft int

var strLimit = 4000

func (t *Term) String() string {
	if strNest == 0 {
		strLeft = strLimit
	}
	strNest++
	defer func() { strNest-- }()
	s := t.str(0)
	if len(s) > 6000 && strLimit < 100000 {
		s = s[:6000] + "…"
	}
	return s
}
func (t *Term) str(d int) string {
	strLeft--
	if d > 40 || strLeft < 0 {
		return "…"
	}
	kids := func(ks []*Term) string {
		var ss []string
		for _, k := range ks {
			ss = append(ss, k.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.K {
	case KNum:
		return t.Poly.String()
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	case KIte:
		if t.Kids[0].K == KTrue && t.Kids[1].K == KFalse {
			return t.Var.String()
		}
		return "if " + t.Var.String() + " {" + t.Kids[0].str(d+1) + "} else {" + t.Kids[1].str(d+1) + "}"
	case KStr:
		return "str<" + kids(t.Kids) + ">"
	case KLit:
		return strconv.Quote(t.S)
	case KStruct:
		n := ""
		if nm, ok := t.Typ.(*types.Named); ok {
			n = nm.Obj().Name()
		}
		return n + "{" + kids(t.Kids) + "}"
	case KTuple:
		return "(" + kids(t.Kids) + ")"
	case KPtr:
		return "&" + kids(t.Kids)
	case KField:
		return "." + strconv.Itoa(t.N-1)
	case KSlice:
		return "slice(" + kids(t.Kids) + ")"
	case KNil:
		return "nil"
	case KIface:
		return "iface<" + typeKey(t.Typ) + ">(" + t.Kids[0].str(d+1) + ")"
	case KFunc:
		return "func " + t.Fn.Name() + "[" + kids(t.Kids) + "]"
	case KAtom:
		return t.Atom.String()
	case KObj:
		return "obj:" + shortOp(t.S) + "[" + kids(t.Kids) + "]"
	case KMap:
		return "map{" + kids(t.Kids) + "}"
	case KBot:
		return "⊥"
	case KSnap:
		return "*" + t.Kids[0].str(d+1)
	case KSnapPtr:
		return "^" + t.Kids[0].str(d+1)
	case AZero:
		return "zeros"
	case ASym:
		return t.Kids[0].str(d + 1)
	case ACat:
		return "[" + kids(t.Kids) + "]"
	case AStore:
		return "store(" + kids(t.Kids) + ")"
	case AMap:
		return fmt.Sprintf("map%d(%s)", t.N, kids(t.Kids))
	case PElem:
		return t.Kids[0].str(d + 1)
	case PSeg:
		return "seg(" + kids(t.Kids) + ")"
	case PFor:
		return fmt.Sprintf("for b%d<%s: %s", t.N, t.Kids[0].str(d+1), t.Kids[1].str(d+1))
	case KType:
		return "type " + shortOp(typeKey(t.Typ))
	}
	return "?"
}
