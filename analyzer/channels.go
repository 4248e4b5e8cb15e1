package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A channel is read as the queue of everything sent into it and a place to receive from. Workers
// started without waiting for them run when a channel is closed, as one worker that does the work
// of all (C18 shows that workers share nothing else): what they send arrives in an unknown order,
// so it is taken to be some permutation of the queue.
type pendingWork struct {
	f    *Term
	cond *Term
	ctx  string
}

func chanCells(ch *Term) (q, i *Term) {
	return mkObj(ch.S+".queue", ch.Kids...), mkObj(ch.S+".next", ch.Kids...)
}

func (it *Interp) chanOf(v *Term) *Term {
	if v.K == KPtr && len(v.Kids) == 1 && it.chans[v.Kids[0]] != nil {
		return v.Kids[0]
	}
	return nil
}

func (it *Interp) recv(fr *Frame, st *State, x *ssa.UnOp, v *Term) *Term {
	ch := it.chanOf(v)
	if ch == nil {
		return nil
	}
	q, i := chanCells(ch)
	seq, at := it.seqOf(st, it.load(st, q)), it.load(st, i)
	st.mem[i] = numAdd(at, mkNum(1))
	e := selectArr(seq, at, it.chans[ch])
	it.emit(&Event{Kind: "recv", In: fr.fn, Pos: x.Pos(), Cond: st.cond, Args: []*Term{v}, Res: e, Ctx: fr.ctx})
	if !x.CommaOk {
		return e
	}
	it.untilClosed[ch] = true
	return mkTuple(e, posB(numSub(seqLen(seq), at), true))
}

// runPending runs the workers on queues of unknown content, then puts in what the queues hold.
func (it *Interp) runPending(st *State) {
	ps := it.pending
	it.pending = nil
	for _, p := range ps {
		before, m := map[*Term]*Term{}, map[*Atom]Sub{}
		var chs []*Term
		for ch := range it.chans {
			chs = append(chs, ch)
		}
		sort.Slice(chs, func(i, j int) bool { return chs[i].ID < chs[j].ID })
		for _, ch := range chs {
			q, _ := chanCells(ch)
			v := it.load(st, q)
			seq := it.seqOf(st, v)
			n := seqLen(seq)
			if n != mkNum(0) {
				base := mkKAtom(mkAtom("queued:"+q.S, types.NewSlice(it.chans[ch]), false, q.Kids...))
				arr := intern(&Term{K: ASym, Kids: []*Term{base}, Typ: it.chans[ch]})
				m[base.Atom] = Sub{Val: it.snapSeq(st, seq, 0), Content: it.snapSeq(st, seq, 0)}
				v = it.newSlice(st, q.S+".queued", mkCat(intern(&Term{K: PSeg, Kids: []*Term{arr, mkNum(0), n}})), tFalse, it.chans[ch])
				st.mem[q] = v
			}
			before[ch] = v
		}
		// a worker's number is unknown: which worker gets what is left to chance
		it.Call(p.f.Fn, []*Term{symOf(types.Typ[types.Int], "worker"), symOf(types.Typ[types.Int], "workers")}, p.f.Kids, st, p.ctx)
		for _, ch := range chs {
			q, _ := chanCells(ch)
			if now := it.load(st, q); now != before[ch] {
				seq := subst(it.seqOf(st, now), m)
				st.mem[q] = it.permuted(st, q.S, seq, it.chans[ch])
			}
		}
	}
}

func (it *Interp) permuted(st *State, name string, seq *Term, et types.Type) *Term {
	if n, ok := seqLen(seq).constInt(); ok && n <= 1 {
		return it.newSlice(st, name+".perm", seq, tFalse, et)
	}
	arr := intern(&Term{K: ASym, Kids: []*Term{mkKAtom(mkAtom("perm", types.NewSlice(et), false, seq))}, Typ: et})
	return it.newSlice(st, name+".perm", mkCat(intern(&Term{K: PSeg, Kids: []*Term{arr, mkNum(0), seqLen(seq)}})), tFalse, et)
}

// permOf: the sequence of which seq is known to be a permutation
func permOf(seq *Term) *Term { return wholeOf(seq, "perm") }

// sortedOf: the sequence of which seq is the sorted form
func sortedOf(seq *Term) *Term { return wholeOf(seq, "sorted") }

func wholeOf(seq *Term, op string) *Term {
	if seq.K != ACat || len(seq.Kids) != 1 {
		return nil
	}
	p := seq.Kids[0]
	if p.K != PSeg || p.Kids[0].K != ASym || p.Kids[1] != mkNum(0) {
		return nil
	}
	b := p.Kids[0].Kids[0]
	if b.K != KAtom || b.Atom.Op != op || seqLen(b.Atom.Args[0]) != p.Kids[2] {
		return nil
	}
	return b.Atom.Args[0]
}
