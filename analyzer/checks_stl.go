package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = checkFn{run: checkC08, rule: "Reader and writer are evaluated symbolically for every mesh and every file content: what encoding/binary writes is flattened into its parts (type by type, little-endian), what is read is bytes of the file at a position. The written parts, the decision between binary and text with the position reading starts at, the facets built from the bytes and the triangles built from the text lines have to equal those of the specification in analyzer/spec/stl; field by field.",
		assume: []string{"no read or write fails (C09)", "encoding/binary lays out a struct field by field without padding"}}
}

const littleEndian = "encoding/binary.LittleEndian"

// stlWorld answers calls to the outside for the file formats.
func (c *Ctx) stlWorld(loaders bool, found map[string]map[*ssa.Function]bool) Client {
	sp := func(n string) *ssa.Function {
		f := c.p.spec("stl", n)
		if f == nil {
			panic("specification missing: " + n)
		}
		return f
	}
	order := func(t *Term) {
		if s := t.String(); s != "iface<encoding/binary.littleEndian>(g:"+littleEndian+")" && s != "g:"+littleEndian {
			panic(fmt.Sprintf("byte order is %s", s))
		}
	}
	errT := types.Universe.Lookup("error").Type()
	var put func(it *Interp, st *State, cs *CallSite, v *Term, t types.Type)
	put = func(it *Interp, st *State, cs *CallSite, v *Term, t types.Type) {
		one := func(k int64, x *Term) { it.Call(sp("put"), []*Term{mkNum(k), x}, nil, st, cs.Ctx) }
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch u.Kind() {
			case types.Float32:
				one(3, v)
				return
			case types.Uint32, types.Int32:
				one(2, v)
				return
			case types.Uint16, types.Int16:
				one(1, v)
				return
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := step(v, mkFieldIdx(i))
				if u.Field(i).Name() == "_" { // written as zeros whatever it holds
					f = zeroVal(u.Field(i).Type())
				}
				put(it, st, cs, f, u.Field(i).Type())
			}
			return
		case *types.Array:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if v != zeroVal(t) {
					panic("bytes are written that are not known to be zero")
				}
				one(0, mkNum(u.Len()))
				return
			}
			if u.Len() <= 16 {
				for i := int64(0); i < u.Len(); i++ {
					put(it, st, cs, step(v, mkNum(i)), u.Elem())
				}
				return
			}
		}
		panic("a value is written whose layout is not known: " + t.String())
	}
	var get func(it *Interp, st *State, cs *CallSite, t types.Type) *Term
	get = func(it *Interp, st *State, cs *CallSite, t types.Type) *Term {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch u.Kind() {
			case types.Float32:
				return it.Call(sp("getF"), nil, nil, st, cs.Ctx)
			case types.Uint32:
				return it.Call(sp("get32"), nil, nil, st, cs.Ctx)
			case types.Uint16, types.Int16:
				it.Call(sp("skip"), []*Term{mkNum(2)}, nil, st, cs.Ctx)
				return symOf(t, "short")
			}
		case *types.Struct:
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, get(it, st, cs, u.Field(i).Type()))
			}
			return mkStruct(t, fs...)
		case *types.Array:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				it.Call(sp("skip"), []*Term{mkNum(u.Len())}, nil, st, cs.Ctx)
				return zeroVal(t)
			}
		}
		panic("a value is read whose layout is not known: " + t.String())
	}
	call := func(it *Interp, fr *Frame, st *State, cs *CallSite) (*Term, bool) {
		nilErr := zeroVal(errT)
		pair := func(a *Term) *Term { return mkTuple(a, nilErr) }
		first := func() types.Type { return cs.Fn.Signature.Results().At(0).Type() }
		switch n := extName(cs.Fn); n {
		case "os.Open", "os.Create", "os.OpenFile":
			return pair(symOf(first(), "file", it.snap(st, cs.Args[0], 0))), true
		case "(*os.File).Close", "(*os.File).Sync":
			return nilErr, true
		case "(*os.File).Stat":
			return pair(symOf(first(), "stat", it.snap(st, cs.Args[0], 0))), true
		case "(*os.File).Seek":
			if cs.Args[2] != mkNum(0) {
				panic("seeks from somewhere else than the start of the file")
			}
			it.Call(sp("seek"), []*Term{cs.Args[1]}, nil, st, cs.Ctx)
			return pair(cs.Args[1]), true
		case "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewReaderSize":
			return symOf(cs.Res, "buffered", it.snap(st, cs.Args[0], 0)), true
		case "(*bufio.Writer).Flush":
			it.Call(sp("flush"), nil, nil, st, cs.Ctx)
			return nilErr, true
		case "encoding/binary.Write":
			order(cs.Args[1])
			d := cs.Args[2]
			if d.K != KIface || len(d.Kids) != 1 {
				panic("data of unknown type is written")
			}
			v, t := d.Kids[0], d.Typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				v, t = it.loadPtr(st, v, fr.fn, cs.Instr.Pos()), p.Elem()
			}
			put(it, st, cs, v, t)
			return nilErr, true
		case "encoding/binary.Read":
			order(cs.Args[1])
			d := cs.Args[2]
			if d.K != KIface || len(d.Kids) != 1 {
				panic("data of unknown type is read")
			}
			p, ok := d.Typ.Underlying().(*types.Pointer)
			if !ok {
				panic("data is read into something that is not a pointer")
			}
			it.storePtr(st, d.Kids[0], get(it, st, cs, p.Elem()), fr.fn, cs.Instr.Pos())
			return nilErr, true
		case "io.ReadFull":
			obj, n := wholeSlice(cs.Args[1])
			if n == nil || n == tBot {
				panic("only a part of a slice is read into")
			}
			if k, ok := n.constInt(); ok && k <= 64 {
				it.Call(sp("fill"), []*Term{cs.Args[1]}, nil, st, cs.Ctx)
				return pair(n), true
			}
			pos := it.load(st, mkObj("g:"+sp("seek").Pkg.Pkg.Path()+".at"))
			b := types.Typ[types.Uint8]
			st.mem[obj] = intern(&Term{K: ASym, Typ: b, Kids: []*Term{mkKAtom(mkAtom("bytes", types.NewSlice(b), false, pos))}})
			it.Call(sp("skip"), []*Term{n}, nil, st, cs.Ctx)
			return pair(n), true
		case "(encoding/binary.littleEndian).Uint32":
			return it.Call(sp("le"), []*Term{cs.Args[1]}, nil, st, cs.Ctx), true
		case "(encoding/binary.bigEndian).Uint32":
			panic("numbers are read with the highest byte first")
		}
		switch relName(cs.Fn) {
		case "primitives.NewTriangle":
			return symOf(c.p.typ("primitives", "Triangle"), "triangle", it.snap(st, cs.Args[0], 0), it.snap(st, cs.Args[1], 0), it.snap(st, cs.Args[2], 0)), true
		case "(*primitives.Triangle).Fill":
			it.storePtr(st, cs.Args[0], symOf(c.p.typ("primitives", "Triangle"), "triangle", it.snap(st, cs.Args[1], 0), it.snap(st, cs.Args[2], 0), it.snap(st, cs.Args[3], 0)), fr.fn, cs.Instr.Pos())
			return mkTuple(), true
		}
		if cs.Fn == sp("little") || cs.Fn == sp("byteAt") {
			return symOf(cs.Res, cs.Fn.Name(), cs.Args...), true
		}
		if loaders && cs.Fn.Signature.Recv() == nil && (c.p.inRepo(cs.Fn) || it.prog.isSpec(cs.Fn)) {
			if k, ok := map[string]string{"(*File, int) (*Mesh, error)": "facets", "(*File) (*Mesh, error)": "text"}[sigName(cs.Fn)]; ok {
				if !it.prog.isSpec(cs.Fn) {
					if found[k] == nil {
						found[k] = map[*ssa.Function]bool{}
					}
					found[k][cs.Fn] = true
				}
				pos := it.load(st, mkObj("g:"+sp("seek").Pkg.Pkg.Path()+".at"))
				var as []*Term
				for _, a := range cs.Args {
					as = append(as, it.snap(st, a, 0))
				}
				return liftSmall(func(x []*Term) *Term { return symOf(cs.Res, "sig:"+k, x...) }, append(as, pos)...), true
			}
		}
		return nil, false
	}
	return Client{Call: call, SiteFree: true, Opaque: opaqueNamed("primitives.ParseFloat")}
}

func checkC08(c *Ctx) {
	found := map[string]map[*ssa.Function]bool{}
	c.sameAny("binary or text, read from the right place", "primitives.LoadSTL", c.p.fn("primitives", "LoadSTL"), c.stlWorld(true, found), nil, true, c.p.spec("stl", "SLoad"))
	one := c.stlWorld(false, nil)
	for _, f := range sortedFns(found["facets"]) {
		c.sameAny("facets from bytes", stripRepo(f.String()), f, one, posB(argTerms(f)[1], false), true, c.p.spec("stl", "SFacets"))
	}
	for _, f := range sortedFns(found["text"]) {
		c.sameAny("three vertex lines make a triangle", stripRepo(f.String()), f, one, nil, true, c.p.spec("stl", "SText"), c.p.spec("stl", "STextCount"), c.p.spec("stl", "STextList"))
	}
	c.sameAny("written layout", "primitives.SaveSTL", c.p.fn("primitives", "SaveSTL"), one, nil, false, c.p.spec("stl", "SSave"))
	c.sameAny("corners in the order given", "primitives.NewTriangle", c.p.fn("primitives", "NewTriangle"), Client{}, nil, true, c.p.spec("stl", "STriangle"))
	c.sameAny("corners in the order given", "(*primitives.Triangle).Fill", c.p.meth("primitives", "Triangle", "Fill"), Client{}, nil, false, c.p.spec("stl", "SFillTriangle"))
	c.need(len(found["facets"]), "a loader of binary facets")
	c.need(len(found["text"]), "a loader of text facets")
	c.narrow(c.p.fn("primitives", "LoadSTL"), c.p.fn("primitives", "SaveSTL"))
}

// narrow: sizes and positions are not multiplied in a type that wraps for files that exist. The
// evaluation counts without bounds, so this is decided from the types.
func (c *Ctx) narrow(roots ...*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.p.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.MUL || x.Op == token.SHL) {
					if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
						c.add("positions do not wrap", stripRepo(f.String()), x.Pos(), !narrowInt(t), "a product is computed in %s and wraps", t.Name())
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					walk(call.Common().StaticCallee())
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					walk(m.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range roots {
		walk(f)
	}
}

func narrowInt(t *types.Basic) bool {
	switch t.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
		return true
	}
	return false
}
