package main

// The command-line flag library: a flag's value is a symbol named after the flag.

import (
	"go/types"
	"strings"
)

func flagAtom(t *Term) *Term {
	if t.K == KAtom && strings.HasPrefix(t.Atom.Op, "kflag:") {
		return t
	}
	for _, k := range t.Kids {
		if r := flagAtom(k); r != nil {
			return r
		}
	}
	if t.Atom != nil {
		for _, k := range t.Atom.Args {
			if r := flagAtom(k); r != nil {
				return r
			}
		}
	}
	return nil
}

func (it *Interp) kingpinModel(fr *Frame, st *State, cs *CallSite) (*Term, bool) {
	name, a := cs.Fn.Name(), cs.Args
	sig := cs.Fn.Signature
	if name == "Flag" || name == "Arg" {
		for i := 0; i < sig.Params().Len() && i < len(a); i++ {
			v := a[len(a)-sig.Params().Len()+i]
			if s, ok := v.litStr(); ok {
				return symOf(cs.Res, "kflag:"+s), true
			}
			break
		}
		return nil, false
	}
	if sig.Recv() == nil || len(a) == 0 {
		return nil, false
	}
	f := flagAtom(a[0])
	if f == nil {
		return nil, false
	}
	if sig.Results().Len() == 1 {
		rt := sig.Results().At(0).Type()
		if types.Identical(rt, f.Atom.Typ) {
			return f, true
		}
		if _, ok := rt.(*types.Pointer); ok {
			return symOf(rt, "flag:"+strings.TrimPrefix(f.Atom.Op, "kflag:")), true
		}
	}
	if strings.HasSuffix(name, "Var") && len(a) >= 2 && sig.Results().Len() == 0 {
		pt := sig.Params().At(0).Type()
		it.storePtr(st, a[1], symOfDeref(symOf(pt, "flag:"+strings.TrimPrefix(f.Atom.Op, "kflag:"))), fr.fn, cs.Instr.Pos())
		return mkTuple(), true
	}
	return nil, false
}
