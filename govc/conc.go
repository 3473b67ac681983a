package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Channel state: closed flag, number of values sent so far, capacity; per element type the log of sent values.
const (
	hClosed = "CH!closed"
	hSent   = "CH!sent"
	hChCap  = "CH!cap"
	hRecv   = "CH!recv" // number of values received so far
	hWait   = "CH!wait" // the channels the current blocking operation waits for
	hNow    = "NOW"
	hHeld   = "L!held" // number of locks held by the executing goroutine
	hGo     = "GO!n"   // number of goroutines started
)

type concCtx struct{}

func registerConcHeaps() {
	regHeap(hClosed, types.Typ[types.Bool], sBool, 1, nil)
	regHeap(hSent, nil, sInt, 1, nil)
	heapTab[hSent].elem = natType
	regHeap(hChCap, natType, sInt, 1, nil)
	regHeap(hRecv, natType, sInt, 1, nil)
	regHeap(hWait, types.Typ[types.Bool], sBool, 1, nil)
	regHeap(hNow, types.Typ[types.Int64], sInt, 0, nil)
	regHeap(hHeld, natType, sInt, 0, nil)
	regHeap(hGo, natType, sInt, 0, nil)
}

var natType types.Type = types.Typ[types.Uint32]

func chLog(el types.Type) string {
	el = types.Unalias(el)
	return regHeap("CH!log!"+tstr(el), el, sortOf(el), 2, sInt)
}

// ---------------------------------------------------------------- guarded fields

var guardOf = map[*Term]*guardInst{}

type guardInst struct {
	spec guardSpec
	ref  *Term
}

func (x *Ex) checkGuard(st *State, g *guardInst, write bool) {
	if x.pure > 0 || x.h == nil || !x.h.conc {
		return
	}
	if g.spec.wr && !write {
		return
	}
	// contracts may look at anything
	if x.curFn != nil && strings.Contains(x.prog.prog.Fset.Position(x.curFn.Pos()).Filename, "zz_verif_") {
		return
	}
	l := &LVal{kind: 'f', root: g.spec.root, ref: g.ref, path: g.spec.lock}
	v := x.load(st, l)
	ok := mkEq(v, mkInt(2))
	w := "write"
	if !write {
		ok = mkOr(ok, mkLe(mkInt(1), v))
		w = "read"
	}
	// an object created by this operation is not shared yet
	ok = mkOr(ok, mkLe(mkConst("next!0", sInt), g.ref))
	x.oblige(st, "guard", "C07", "lock held for "+w+" of "+g.spec.name, ok)
}

func (x *Ex) guardRead(st *State, k string, l *LVal) {
	if s, ok := x.prog.guards[k]; ok && x.pure == 0 {
		x.checkGuard(st, &guardInst{s, l.ref}, false)
	}
}

func (x *Ex) guardWrite(st *State, k string, l *LVal) {
	if s, ok := x.prog.guards[k]; ok && x.pure == 0 {
		x.checkGuard(st, &guardInst{s, l.ref}, true)
	}
}

func (x *Ex) guardMap(st *State, m *Term, write bool) {
	if g, ok := guardOf[m]; ok && x.pure == 0 {
		x.checkGuard(st, g, write)
	}
}

func (x *Ex) guardFromLoad(t *Term, l *LVal) {
	if l.kind != 'f' || len(x.prog.guards) == 0 || t == nil || t.isInt() {
		return
	}
	ft, _ := fieldType(l.root, l.path)
	if isStruct(ft) {
		return
	}
	k, _ := fieldHeap(l.root, l.path)
	if s, ok := x.prog.guards[k]; ok {
		if _, isMap := ft.Underlying().(*types.Map); isMap {
			guardOf[t] = &guardInst{s, l.ref}
		}
	}
}

func (x *Ex) inheritGuard(m, v *Term, el types.Type) {
	if g, ok := guardOf[m]; ok {
		if _, isMap := el.Underlying().(*types.Map); isMap && !v.isInt() {
			guardOf[v] = g
		}
	}
}

// ---------------------------------------------------------------- locks

func (x *Ex) lockOp(st *State, l *LVal, mode int64, acquire bool) *State {
	if x.pure > 0 {
		return st
	}
	cur := x.load(st, l)
	held := x.heap(st, hHeld)
	rank, ranked := x.rankOf(l)
	if ranked && x.h != nil && x.h.conc {
		k := rankHeap(rank)
		if acquire {
			for _, r := range x.prog.rankList {
				if r >= rank {
					x.oblige(st, "lock-order", "C07", fmt.Sprintf("no lock of rank %d or higher is held when one of rank %d is acquired", rank, rank), mkEq(x.heap(st, rankHeap(r)), mkInt(0)))
				}
			}
			st.heaps[k] = mkAdd(x.heap(st, k), mkInt(1))
		} else {
			st.heaps[k] = mkSub(x.heap(st, k), mkInt(1))
		}
	}
	if acquire {
		x.oblige(st, "lock", "", "lock is not already held by this goroutine", mkEq(cur, mkInt(0)))
		x.store(st, l, mkInt(mode))
		st.heaps[hHeld] = mkAdd(held, mkInt(1))
		x.interfere(st, l)
	} else {
		x.oblige(st, "lock", "", "unlock of a lock held in that mode", mkEq(cur, mkInt(mode)))
		x.store(st, l, mkInt(0))
		st.heaps[hHeld] = mkSub(held, mkInt(1))
	}
	return st
}

// interfere runs the harness's interference model: other goroutines may have changed the guarded state while
// the lock was free.
func (x *Ex) interfere(st *State, l *LVal) {
	if x.h == nil || x.h.interf == nil {
		return
	}
	f := x.h.interf
	if x.inStack(f) || len(f.Params) != 1 {
		return
	}
	pt, ok := f.Params[0].Type().Underlying().(*types.Pointer)
	if !ok || l.kind != 'f' || !types.Identical(pt.Elem(), l.root) {
		return
	}
	held := x.heap(st, hHeld)
	_, ns := x.callFn(f, []Val{{t: l.ref}}, nil, st, nil)
	*st = *ns
	st.heaps[hHeld] = held
}

// the position of a lock in the order in which locks are acquired
func (x *Ex) rankOf(l *LVal) (int, bool) {
	if l.kind != 'f' || len(l.path) == 0 {
		return 0, false
	}
	r, ok := x.prog.ranks[tstr(l.root)+fmt.Sprint(l.path)]
	return r, ok
}

func rankHeap(r int) string { return regHeap(fmt.Sprintf("L!rank%d", r), natType, sInt, 0, nil) }

func (p *Prog) addRank(pkg *ssa.Package, typ, field string, rank int) {
	obj := pkg.Pkg.Scope().Lookup(typ)
	if obj == nil {
		return
	}
	t := types.Unalias(obj.Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			if p.ranks == nil {
				p.ranks = map[string]int{}
			}
			p.ranks[tstr(t)+fmt.Sprint([]int{i})] = rank
			for _, r := range p.rankList {
				if r == rank {
					return
				}
			}
			p.rankList = append(p.rankList, rank)
			return
		}
	}
}

// blocking reports an operation that may wait for other goroutines. The await function of the harness runs before
// it: it sees the channels the operation waits for and models what other goroutines do meanwhile.
func (x *Ex) blocking(st *State, what string, chs ...*Term) {
	if x.h != nil && x.h.conc {
		x.oblige(st, "block", "", "no lock held at "+what, mkEq(x.heap(st, hHeld), mkInt(0)))
	}
	if x.pure > 0 || x.h == nil || x.h.await == nil || x.inStack(x.h.await) {
		return
	}
	w := mkConstArr(sInt, tFalse)
	for _, c := range chs {
		w = mkStore(w, c, tTrue)
	}
	st.heaps[hWait] = w
	_, ns := x.callFn(x.h.await, nil, nil, st, nil)
	*st = *ns
}

// bumpRecv: other goroutines may have received from the channel
func (x *Ex) bumpRecv(st *State, ch *Term) {
	n := fresh("v!recvn", sInt)
	h := x.heap(st, hRecv)
	x.assumeAlways(mkLe(mkSelect(h, ch), n))
	x.assumeAlways(mkLe(n, mkSelect(x.heap(st, hSent), ch)))
	st.heaps[hRecv] = mkStore(h, ch, n)
}

// bumpSent: other goroutines may have sent on the channel, unless this goroutine holds a lock (values are only
// queued under the lock of the queue)
func (x *Ex) bumpSent(st *State, ch *Term) {
	n := fresh("v!sentn", sInt)
	h := x.heap(st, hSent)
	old := mkSelect(h, ch)
	x.assumeAlways(mkLe(old, n))
	x.assumeN["values are sent on shared channels only while the lock of the queue is held"]++
	st.heaps[hSent] = mkStore(h, ch, mkIte(mkEq(x.heap(st, hHeld), mkInt(0)), n, old))
}

func (x *Ex) goStmt(fr *Frame, st *State, i *ssa.Go) {
	// the new goroutine is verified separately, under its own contract
	st.heaps[hGo] = mkAdd(x.heap(st, hGo), mkInt(1))
	name := "go "
	if f := i.Call.StaticCallee(); f != nil {
		name += f.String()
		if e := x.prog.externFor(x.h, fnName(f)); e != nil && x.prog.used(x.h, fnName(f)) {
			// the model records what is started
			var args []Val
			for _, a := range i.Call.Args {
				args = append(args, x.val(fr, st, a))
			}
			x.used[fnName(f)] = true
			_, st2 := x.callFn(e, x.adapt(f, e, args), nil, st, fr)
			st.heaps, st.pc = st2.heaps, st2.pc
		}
	} else {
		name += i.Call.Value.Type().String()
	}
	x.assumeN["goroutine not interleaved: "+name]++
}

// ---------------------------------------------------------------- channels

func (x *Ex) logSend(st *State, ch, v *Term, el types.Type) {
	n := mkSelect(x.heap(st, hSent), ch)
	k := chLog(el)
	h := x.heap(st, k)
	st.heaps[k] = mkStore(h, ch, mkStore(mkSelect(h, ch), n, v))
	st.heaps[hSent] = mkStore(x.heap(st, hSent), ch, mkAdd(n, mkInt(1)))
}

func (x *Ex) send(fr *Frame, st *State, ch, v *Term, ct, vt types.Type) *State {
	x.safe(st, "send on closed channel", mkNot(mkSelect(x.heap(st, hClosed), ch)))
	x.blocking(st, "a channel send", ch)
	x.logSend(st, ch, v, ct.Underlying().(*types.Chan).Elem())
	return st
}

func isSignal(ct types.Type) bool {
	s, ok := ct.Underlying().(*types.Chan).Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// received: the effect of a completed receive
func (x *Ex) received(st *State, ch *Term, ct types.Type) (v, ok *Term) {
	el := ct.Underlying().(*types.Chan).Elem()
	x.bumpNext(st)
	if isSignal(ct) {
		// nothing is ever sent on signal channels: a completed receive means closed
		x.assumeN["signal channels (chan struct{}) are only closed, never sent on"]++
		if x.h != nil && x.h.await != nil {
			// the await function has closed it if anybody may
			x.assume(st, mkSelect(x.heap(st, hClosed), ch))
		}
		st.heaps[hClosed] = mkStore(x.heap(st, hClosed), ch, tTrue)
		return zeroOf(el), tFalse
	}
	x.bumpSent(st, ch)
	x.bumpRecv(st, ch)
	val := x.havocVal(st, "recv", el)
	okv := fresh("v!recvok", sBool)
	x.assume(st, mkImp(mkNot(okv), mkSelect(x.heap(st, hClosed), ch)))
	// values are received in the order in which they were sent
	n := mkSelect(x.heap(st, hRecv), ch)
	x.assume(st, mkImp(okv, mkAnd(mkLt(n, mkSelect(x.heap(st, hSent), ch)), mkEq(val, mkSelect(mkSelect(x.heap(st, chLog(el)), ch), n)))))
	st.heaps[hRecv] = mkStore(x.heap(st, hRecv), ch, mkIte(okv, mkAdd(n, mkInt(1)), n))
	return mkIte(okv, val, zeroOf(el)), okv
}

func (x *Ex) recv(fr *Frame, st *State, i *ssa.UnOp) *State {
	ch := x.tv(fr, st, i.X)
	x.blocking(st, "a channel receive", ch)
	x.assume(st, mkNot(mkEq(ch, mkInt(0)))) // a receive from a nil channel never returns
	v, ok := x.received(st, ch, i.X.Type())
	if i.CommaOk {
		fr.vals[i] = Val{tup: []Val{{t: v}, {t: ok}}}
	} else {
		fr.vals[i] = Val{t: v}
	}
	return st
}

func (x *Ex) sel(fr *Frame, st *State, i *ssa.Select) *State {
	if i.Blocking {
		var chs []*Term
		for _, s := range i.States {
			chs = append(chs, x.tv(fr, st, s.Chan))
		}
		x.blocking(st, "a blocking select", chs...)
	}
	idx := fresh("v!sel", sInt)
	lo := int64(0)
	if !i.Blocking {
		lo = -1
	}
	x.assumeAlways(mkAnd(mkLe(mkInt(lo), idx), mkLt(idx, mkInt(int64(len(i.States))))))
	var sts []*State
	recvOk := tFalse
	var recvs []*Term
	for _, s := range i.States {
		if s.Dir == types.RecvOnly {
			recvs = append(recvs, zeroOf(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if !i.Blocking {
		b := st.clone()
		b.pc = mkAnd(st.pc, mkEq(idx, mkInt(-1)))
		for _, s := range i.States {
			ch := x.tv(fr, st, s.Chan)
			if s.Dir == types.RecvOnly {
				// the default branch is taken only when nothing is ready
				x.assume(b, mkOr(mkEq(ch, mkInt(0)), mkNot(mkSelect(x.heap(b, hClosed), ch))))
				if !isSignal(s.Chan.Type()) {
					x.bumpSent(b, ch)
					x.bumpRecv(b, ch)
					x.assume(b, mkOr(mkEq(ch, mkInt(0)), mkEq(mkSelect(x.heap(b, hRecv), ch), mkSelect(x.heap(b, hSent), ch))))
				}
			}
		}
		sts = append(sts, b)
	}
	r := 0
	for n, s := range i.States {
		b := st.clone()
		g := mkEq(idx, mkInt(int64(n)))
		b.pc = mkAnd(st.pc, g)
		ch := x.tv(fr, st, s.Chan)
		x.assume(b, mkNot(mkEq(ch, mkInt(0))))
		if s.Dir == types.RecvOnly {
			v, ok := x.received(b, ch, s.Chan.Type())
			recvs[r] = mkIte(g, v, recvs[r])
			recvOk = mkIte(g, ok, recvOk)
			r++
		} else {
			x.safe(b, "send on closed channel", mkNot(mkSelect(x.heap(b, hClosed), ch)))
			x.logSend(b, ch, x.tv(fr, st, s.Send), s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		sts = append(sts, b)
	}
	if len(sts) == 0 {
		return &State{heaps: st.heaps, pc: tFalse}
	}
	m, _ := x.merge(sts)
	m.pc = st.pc
	tup := []Val{{t: idx}, {t: recvOk}}
	for _, v := range recvs {
		tup = append(tup, Val{t: v})
	}
	fr.vals[i] = Val{tup: tup}
	return m
}

// ---------------------------------------------------------------- recursive specification functions

// recCall applies a recursive specification function (//govc:rec) as an uninterpreted function of its arguments
// and of the heaps it reads, and unfolds its definition once per distinct ground application.
func (x *Ex) recCall(fr *Frame, st *State, fn *ssa.Function, args []Val) (Val, *State) {
	reads := x.recReads(st, fn, args)
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.term(a))
	}
	for _, k := range reads {
		ts = append(ts, x.heap(st, k))
	}
	nm := "rec!" + sanitize(fn.Name())
	t := mkApp(nm, sortOf(fn.Signature.Results().At(0).Type()), ts...)
	if len(t.fbv) > 0 {
		return Val{t: t}, st
	}
	if _, ok := recUnfolded[t]; !ok && x.recDepth(fn) < 3 && !x.recScan {
		recUnfolded[t] = true
		d := x.evalPureFn(st, fn, args, nil)
		symAxioms[t] = append(symAxioms[t], mkEq(t, d))
	}
	return Val{t: t}, st
}

func (x *Ex) recDepth(fn *ssa.Function) int {
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	return n
}

var recUnfolded = map[*Term]bool{}

var recReadTab = map[*ssa.Function][]string{}

func (x *Ex) recReads(st *State, fn *ssa.Function, args []Val) []string {
	if r, ok := recReadTab[fn]; ok {
		return r
	}
	recReadTab[fn] = nil
	old := x.reads
	x.reads = map[string]bool{}
	q := x.quiet
	x.quiet++
	x.recScan = true
	na := len(x.ass)
	// symbolic arguments: no branch of the definition may be pruned
	sym := make([]Val, len(args))
	for i, a := range args {
		if s := sortOf(fn.Params[i].Type()); s != nil && a.t != nil {
			sym[i] = Val{t: fresh("r!"+sanitize(fn.Params[i].Name()), s)}
		} else {
			sym[i] = a
		}
	}
	x.evalPureFn(st, fn, sym, nil)
	x.ass = x.ass[:na]
	x.quiet = q
	x.recScan = false
	// the argument arrays of Fn are not part of the state a specification depends on
	delete(x.reads, elemHeap(types.NewInterfaceType(nil, nil)))
	delete(x.reads, "E!any")
	r := sortedKeys(x.reads)
	x.reads = old
	recReadTab[fn] = r
	return r
}

func newEx(p *Prog, h *Harness) *Ex {
	return &Ex{prog: p, h: h, externs: map[string]int{}, inlined: map[string]bool{}, used: map[string]bool{}, assumeN: map[string]int{},
		unsupN: map[string]bool{}, recApps: map[*Term]int{}, ptrTab: map[*Term]*LVal{}, native: h.native, conc: &concCtx{}}
}

var _ = fmt.Sprint
