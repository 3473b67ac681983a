package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopReport struct {
	Func  string   `json:"function"`
	Loop  int      `json:"loop"`
	Cands int      `json:"candidates"`
	Kept  []string `json:"invariants"`
}

// holder of the values of the header phis in some state
type phiEnv struct {
	st   *State
	phis map[*ssa.Phi]Val
}

type cand struct {
	name string
	user bool
	eval func(x *Ex, e *phiEnv) *Term
	alt  []*cand // weaker candidates, tried when this one fails (they hold on entry)
}

func (x *Ex) headerPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

var debugLoops = os.Getenv("GOVC_DEBUG") != ""

func (x *Ex) execLoop(fr *Frame, info *fnInfo, l *loop) {
	h := l.header
	es := fr.in[h]
	if len(es) == 0 {
		return
	}
	delete(fr.in, h)
	if x.pure > 0 {
		x.unsup("loop in a specification function %s", fr.fn)
	}
	st0 := x.enter(fr, h, es)
	if st0.pc == tFalse {
		return
	}
	phis := x.headerPhis(h)
	init := &phiEnv{st: st0, phis: map[*ssa.Phi]Val{}}
	for _, p := range phis {
		init.phis[p] = fr.vals[p]
	}
	n0 := x.next(st0)
	// values computed before the loop and the iterators of the header
	visKeys := x.loopIters(fr, l)

	// The position of this execution of the loop: the same loop is executed again whenever the candidates of an
	// enclosing loop shrink. What was found before is where the search starts (it is verified again).
	okey, ocnt := x.loopKey, x.loopCnt
	key := fmt.Sprintf("%s/%s#%d@%d", okey, fr.fn, l.idx, ocnt)
	defer func() { x.loopKey, x.loopCnt = okey, ocnt+1 }()
	if x.loopMem == nil {
		x.loopMem = map[string]*loopMem{}
	}
	mem := x.loopMem[key]
	if mem == nil {
		mem = &loopMem{mod: map[string]bool{}, chg: map[*ssa.Phi]bool{}}
		x.loopMem[key] = mem
	}
	mod := mem.mod
	chg := mem.chg // phis that change
	savedIn := map[*ssa.BasicBlock]int{}
	for b, e := range fr.in {
		savedIn[b] = len(e)
	}
	savedBack := map[*ssa.BasicBlock]int{}
	for b, e := range fr.back {
		savedBack[b] = len(e)
	}
	nret, ndef := len(fr.rets), len(fr.defs)
	nass, nobl, nloops := len(x.ass), len(x.obls), len(x.loops)
	restore := func() {
		for b := range fr.in {
			if n, ok := savedIn[b]; ok {
				fr.in[b] = fr.in[b][:n]
			} else {
				delete(fr.in, b)
			}
		}
		fr.rets = fr.rets[:nret]
		fr.defs = fr.defs[:ndef]
		x.ass = x.ass[:nass]
		x.obls = x.obls[:nobl]
		x.loops = x.loops[:nloops]
		for b := range fr.back {
			if n, ok := savedBack[b]; ok && b != h {
				fr.back[b] = fr.back[b][:n]
			} else {
				delete(fr.back, b)
			}
		}
	}
	var hdr *phiEnv
	// the havoced symbols are created once per growth of the modified set
	setup := func() {
		hs := st0.clone()
		nn := fresh("next", sInt)
		nextGE[nn] = n0
		hs.heaps["next"] = nn
		x.ass = append(x.ass, mkLeRaw(n0, nn))
		for k := range mod {
			if k == "next" {
				continue
			}
			hi := heapTab[k]
			t := fresh("h!L!"+k, hi.sort)
			typeHeap(t, hi, nn)
			heapSyms[t] = true
			hs.heaps[k] = t
		}
		hdr = &phiEnv{st: hs, phis: map[*ssa.Phi]Val{}}
		for _, p := range phis {
			if !chg[p] {
				hdr.phis[p] = init.phis[p]
				continue
			}
			v := fresh("phi!"+p.Comment, sortOf(p.Type()))
			inv := typeInv(v, p.Type(), nn)
			if inv != tTrue {
				x.ass = append(x.ass, inv)
			}
			if isRefSort(p.Type()) {
				below[v] = nn
			}
			hdr.phis[p] = Val{t: v}
		}
	}
	runBody := func() []*phiEnv {
		x.loopKey, x.loopCnt = key, 0
		for _, p := range phis {
			fr.vals[p] = hdr.phis[p]
		}
		// execute header block and the rest
		done := map[*ssa.BasicBlock]bool{h: true}
		x.execBody(fr, info, h, hdr.st.clone(), h)
		for _, b := range l.order {
			if done[b] {
				continue
			}
			if il := info.loops[b]; il != nil && b != h {
				x.execLoop(fr, info, il)
				for c := range il.blocks {
					done[c] = true
				}
				continue
			}
			bes := fr.in[b]
			if len(bes) == 0 {
				continue
			}
			delete(fr.in, b)
			x.execBlock(fr, info, b, bes, h)
		}
		var out []*phiEnv
		for _, e := range fr.back[h] {
			pe := &phiEnv{st: e.st, phis: map[*ssa.Phi]Val{}}
			for _, p := range phis {
				pe.phis[p] = e.vals[p]
			}
			out = append(out, pe)
		}
		return out
	}
	x.quiet++
	oh := x.houdini
	for iter := 0; ; iter++ {
		if iter > 12 {
			x.unsup("modified set of a loop in %s does not stabilise", fr.fn)
		}
		x.ass = x.ass[:nass]
		setup()
		x.houdini = 1 // inner loops: discovery only
		backs := runBody()
		grew := false
		for _, b := range backs {
			for k, t := range b.st.heaps {
				if k == "next" || mod[k] {
					continue
				}
				o, ok := hdr.st.heaps[k]
				if !ok && strings.HasPrefix(k, "vis!") {
					continue // the iterator of a range inside the body
				}
				if !ok {
					o = x.baseHeap(k, "0", mkConst("next!0", sInt))
				}
				if o != t {
					mod[k] = true
					grew = true
					if debugLoops && iter > 8 {
						fmt.Fprintf(os.Stderr, "  [loop %s/%d] grows by %s\n", fr.fn.Name(), l.idx, k)
					}
				}
			}
			for _, p := range phis {
				if !chg[p] {
					bt := b.phis[p]
					if bt.it != nil {
						continue
					}
					if x.term(bt) != x.term(hdr.phis[p]) {
						chg[p] = true
						grew = true
						if debugLoops && iter > 8 {
							fmt.Fprintf(os.Stderr, "  [loop %s/%d] grows by phi %s\n", fr.fn.Name(), l.idx, p.Name())
						}
					}
				}
			}
		}
		restore()
		if !grew {
			break
		}
	}
	x.quiet--
	x.houdini = oh
	if x.houdini == 1 {
		// discovery run of an enclosing loop: no invariants are needed
		setup()
		x.quiet++
		backs := runBody()
		_ = backs
		x.quiet--
		return
	}
	// ---- invariants
	setup()
	hass := append([]*Term{}, x.ass[nass:]...) // typing facts of the havoced symbols
	cands := x.candidates(fr, info, l, init, hdr, mod, visKeys)
	if mem.kept != nil {
		var cs []*cand
		var flat func(in []*cand)
		flat = func(in []*cand) {
			for _, c := range in {
				if mem.kept[c.name] {
					cs = append(cs, c)
				} else {
					flat(c.alt)
				}
			}
		}
		flat(cands)
		cands = cs
	}
	type live struct {
		c *cand
		h *Term
	}
	var ls []live
	{
		var gs []*Term
		var hs []*Term
		x.ass = x.ass[:nass]
		for _, c := range cands {
			i, hh := x.safeEval(c, init), x.safeEval(c, hdr)
			if i == nil || hh == nil || hh == tTrue {
				gs = append(gs, tFalse)
				hs = append(hs, nil)
				continue
			}
			gs = append(gs, mkImp(st0.pc, i))
			hs = append(hs, hh)
		}
		pre := append([]*Term{}, x.ass...)
		user := map[int]bool{}
		for i, c := range cands {
			user[i] = c.user
		}
		oks := x.proveMany(pre, gs, user)
		seen := map[*Term]bool{}
		for i, c := range cands {
			if oks[i] && hs[i] != nil && !seen[hs[i]] {
				seen[hs[i]] = true
				ls = append(ls, live{c, hs[i]})
			} else if debugLoops && c.user {
				fmt.Fprintf(os.Stderr, "  [loop %s/%d] init fails: %s (%v)\n", fr.fn.Name(), l.idx, c.name, gs[i] == tFalse)
				if d := os.Getenv("GOVC_DUMP"); d != "" && strings.HasPrefix(c.name, d) && gs[i] != tFalse {
					_ = os.WriteFile(fmt.Sprintf("/tmp/dumpi_%s_%s_%d.smt2", sanitize(d), fr.fn.Name(), l.idx), []byte(script(pre, gs[i], x.native)+"(check-sat)\n"), 0o644)
				}
			}
		}
	}
	hasInner := false
	for _, b := range l.order {
		if b != h && info.loops[b] != nil {
			hasInner = true
		}
	}
	_ = hasInner
	for round := 0; ; round++ {
		restore()
		x.ass = append(x.ass, hass...)
		for _, v := range ls {
			f := mkImp(hdr.st.pc, v.h)
			if f != tTrue {
				x.ass = append(x.ass, f)
			}
		}
		backs := runBody()
		if len(backs) == 0 {
			break
		}
		all := append([]*Term{}, x.ass...)
		alive := make([]bool, len(ls))
		for i := range alive {
			alive[i] = true
		}
		// check the preservation; iterate on the solver side while no inner loop depends on it
		for inner := 0; ; inner++ {
			var goals []*Term
			var idx []int
			dropped := map[*Term]bool{}
			for i, v := range ls {
				if !alive[i] {
					dropped[mkImp(hdr.st.pc, v.h)] = true
					continue
				}
				var g []*Term
				for _, b := range backs {
					e := x.safeEval(v.c, b)
					if e == nil {
						e = tFalse
					}
					g = append(g, mkImp(b.st.pc, e))
				}
				goals = append(goals, mkAnd(g...))
				idx = append(idx, i)
			}
			ass := all
			if len(dropped) > 0 {
				ass = nil
				for _, a := range all {
					if !dropped[a] {
						ass = append(ass, a)
					}
				}
			}
			user := map[int]bool{}
			for j, i := range idx {
				user[j] = ls[i].c.user
			}
			oks := x.proveMany(ass, goals, user)
			any := false
			for j, i := range idx {
				if !oks[j] {
					if debugLoops && (ls[i].c.user || os.Getenv("GOVC_DEBUG") == "2") {
						fmt.Fprintf(os.Stderr, "  [loop %s/%d] not preserved: %s\n", fr.fn.Name(), l.idx, ls[i].c.name)
						if d := os.Getenv("GOVC_DUMP"); d != "" && strings.HasPrefix(ls[i].c.name, d) {
							_ = os.WriteFile(fmt.Sprintf("/tmp/dump_%s_%d_%s_%d.smt2", sanitize(d), freshCount(), fr.fn.Name(), l.idx), []byte(script(ass, goals[j], x.native)+"(check-sat)\n"), 0o644)
						}
					}
					alive[i] = false
					any = true
				}
			}
			if !any || hasInner {
				break
			}
			// what the dropped ones can be replaced by
			have := map[*Term]bool{}
			for _, v := range ls {
				have[v.h] = true
			}
			for i := range ls[:len(alive)] {
				if alive[i] {
					continue
				}
				for _, a := range ls[i].c.alt {
					if hh := x.safeEval(a, hdr); hh != nil && hh != tTrue && !have[hh] {
						have[hh] = true
						ls = append(ls, live{a, hh})
						alive = append(alive, true)
						all = append(all, mkImp(hdr.st.pc, hh))
					}
				}
			}
		}
		var nl []live
		for i, v := range ls {
			if alive[i] {
				nl = append(nl, v)
			}
		}
		if len(nl) == len(ls) {
			break
		}
		have := map[*Term]bool{}
		for _, v := range nl {
			have[v.h] = true
		}
		for i, v := range ls {
			if !alive[i] {
				for _, a := range v.c.alt {
					if hh := x.safeEval(a, hdr); hh != nil && hh != tTrue && !have[hh] {
						have[hh] = true
						nl = append(nl, live{a, hh})
					}
				}
			}
		}
		ls = nl
		if round > 12 {
			x.unsup("invariant inference does not stabilise")
		}
	}
	rep := loopReport{Func: fr.fn.String(), Loop: l.idx, Cands: len(cands)}
	mem.kept = map[string]bool{}
	for _, v := range ls {
		mem.kept[v.c.name] = true
		rep.Kept = append(rep.Kept, v.c.name)
	}
	x.loops = append(x.loops, rep)
	delete(fr.back, h)
	if debugLoops {
		fmt.Fprintf(os.Stderr, "  [loop %s/%d] mod=%v kept %d/%d: %v\n", fr.fn.Name(), l.idx, sortedKeys(mod), len(ls), len(cands), rep.Kept)
	}
}

// loopMem is what earlier executions of a loop found
type loopMem struct {
	mod  map[string]bool
	chg  map[*ssa.Phi]bool
	kept map[string]bool
}

func (x *Ex) safeEval(c *cand, e *phiEnv) (t *Term) {
	p, r, s := x.pure, x.depth, len(x.stack)
	cf, cp := x.curFn, x.curPos
	defer func() {
		if r2 := recover(); r2 != nil {
			if u, ok := r2.(unsupErr); ok {
				x.pure, x.depth = p, r
				x.stack = x.stack[:s]
				x.curFn, x.curPos = cf, cp
				if debugLoops {
					fmt.Fprintf(os.Stderr, "  [cand %s] %s\n", c.name, u.msg)
				}
				t = nil
				return
			}
			panic(r2)
		}
	}()
	return c.eval(x, e)
}

func (x *Ex) proveMany(ass, goals []*Term, user map[int]bool) []bool {
	out := proveMany(ass, goals, x.native)
	// templates of the contracts get a second chance with all solvers
	var wg sync.WaitGroup
	for i := range out {
		if !out[i] && user != nil && user[i] && goals[i] != tFalse {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r, _, _ := prove(ass, goals[i], x.native, 3, false)
				out[i] = r == "unsat"
			}(i)
		}
	}
	wg.Wait()
	return out
}

// loopIters returns the map iterators that are advanced in the loop
func (x *Ex) loopIters(fr *Frame, l *loop) []*Iter {
	var out []*Iter
	for _, b := range l.order {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if v, ok := fr.vals[n.Iter]; ok && v.it != nil {
					out = append(out, v.it)
				}
			}
		}
	}
	return out
}

func envVal(x *Ex, e *phiEnv, fr *Frame, v ssa.Value) Val {
	if p, ok := v.(*ssa.Phi); ok {
		if r, ok := e.phis[p]; ok {
			return r
		}
	}
	return x.val(fr, e.st, v)
}

// dominating values: phis of the header, parameters, free variables and values defined in blocks that
// strictly dominate the header.
func (x *Ex) visibleValues(fr *Frame, l *loop) []ssa.Value {
	var out []ssa.Value
	for _, p := range x.headerPhis(l.header) {
		out = append(out, p)
	}
	for _, p := range fr.fn.Params {
		out = append(out, p)
	}
	for _, p := range fr.fn.FreeVars {
		out = append(out, p)
	}
	for _, b := range fr.fn.Blocks {
		if b != l.header && b.Dominates(l.header) {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if _, ok := fr.vals[v]; ok {
						out = append(out, v)
					}
				}
			}
		}
	}
	return out
}

func (x *Ex) candidates(fr *Frame, info *fnInfo, l *loop, init, hdr *phiEnv, mod map[string]bool, its []*Iter) []*cand {
	var cs []*cand
	add := func(name string, user bool, f func(x *Ex, e *phiEnv) *Term) {
		cs = append(cs, &cand{name: name, user: user, eval: f})
	}
	vis := x.visibleValues(fr, l)
	n0 := x.next(init.st)
	// integer bounds
	phis := x.headerPhis(l.header)
	for _, p := range phis {
		p := p
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			i0 := init.phis[p].t
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			add(nm+" >= init", false, func(x *Ex, e *phiEnv) *Term { return mkLe(i0, e.phis[p].t) })
			add(nm+" >= 0", false, func(x *Ex, e *phiEnv) *Term { return mkLe(mkInt(0), e.phis[p].t) })
			// bounds of comparisons in the loop
			seen := map[*Term]bool{}
			for _, v := range vis {
				var bt *Term
				vv, ok := fr.vals[v]
				if !ok || vv.t == nil {
					continue
				}
				if _, isPhi := v.(*ssa.Phi); isPhi {
					if pp, ok := v.(*ssa.Phi); ok {
						if _, hp := hdr.phis[pp]; hp {
							continue
						}
					}
				}
				switch u := v.Type().Underlying().(type) {
				case *types.Basic:
					if u.Info()&types.IsInteger == 0 {
						continue
					}
					bt = vv.t
				case *types.Slice:
					bt = mkSel(vv.t, 1)
				default:
					continue
				}
				if seen[bt] || bt.isInt() {
					continue
				}
				seen[bt] = true
				add(fmt.Sprintf("%s <= bound(%s)", nm, v.Name()), false, func(x *Ex, e *phiEnv) *Term { return mkLe(e.phis[p].t, bt) })
				add(fmt.Sprintf("%s < bound(%s)", nm, v.Name()), false, func(x *Ex, e *phiEnv) *Term { return mkLt(e.phis[p].t, bt) })
			}
		}
	}
	// bounds from the comparisons of the header
	for _, in := range l.header.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		if b.Op == token.LSS || b.Op == token.LEQ || b.Op == token.NEQ || b.Op == token.GTR || b.Op == token.GEQ {
			for _, p := range phis {
				p := p
				if bb, ok := p.Type().Underlying().(*types.Basic); !ok || bb.Info()&types.IsInteger == 0 {
					continue
				}
				for _, o := range []ssa.Value{b.X, b.Y} {
					if c, ok := o.(*ssa.Const); ok && c.Value != nil {
						ct := constTerm(c)
						if ct.sort == sInt {
							add(p.Name()+" <= const", false, func(x *Ex, e *phiEnv) *Term { return mkLe(e.phis[p].t, ct) })
							add(p.Name()+" >= const", false, func(x *Ex, e *phiEnv) *Term { return mkLe(ct, e.phis[p].t) })
						}
					}
				}
			}
		}
	}
	// frames: objects that existed before the loop are unchanged
	for k := range mod {
		k := k
		hi := heapTab[k]
		if k == hNow {
			h0 := x.heap(init.st, k)
			add("time goes on", false, func(x *Ex, e *phiEnv) *Term { return mkLe(h0, x.heap(e.st, k)) })
		}
		if hi == nil || hi.dim == 0 {
			continue
		}
		h0 := x.heap(init.st, k)
		frame := &cand{}
		alt := func(name string, user bool, f func(x *Ex, e *phiEnv) *Term) {
			frame.alt = append(frame.alt, &cand{name: name, user: user, eval: f})
		}
		frameExcept := func(name string, ex []*Term) {
			f := alt
			if ex == nil {
				f = func(name string, user bool, f func(x *Ex, e *phiEnv) *Term) {
					frame.name, frame.eval = name, f
					cs = append(cs, frame)
				}
			}
			f(name, false, func(x *Ex, e *phiEnv) *Term {
				r := mkBvar("r", sInt)
				cur := x.heap(e.st, k)
				g := []*Term{mkLeRaw(mkAdd(r, mkInt(1)), n0)}
				for _, t := range ex {
					g = append(g, mkNot(mkEq(r, t)))
				}
				a, b := mkSelect(cur, r), mkSelect(h0, r)
				return forallPat([]*Term{r}, mkImp(mkAnd(g...), intern2Eq(a, b)), selRaw(cur, r))
			})
		}
		frameExcept("frame "+k, nil)
		// except one of the visible references (and all of them)
		var all []*Term
		seen := map[*Term]bool{}
		for _, r := range x.writtenRefs(k, hdr.st) {
			if !seen[r] {
				seen[r] = true
				all = append(all, r)
			}
		}
		for _, v := range vis {
			vv, ok := fr.vals[v]
			if !ok {
				continue
			}
			if pp, ok := v.(*ssa.Phi); ok {
				if _, hp := hdr.phis[pp]; hp {
					continue
				}
			}
			var r *Term
			if vv.lv != nil {
				if vv.lv.kind == 'f' || vv.lv.kind == 'c' {
					r = vv.lv.ref
				}
			} else if vv.t != nil && relevantRef(k, v.Type()) {
				r = vv.t
				if r.sort == sSlice {
					r = mkSel(r, 0)
				}
				if r.sort == sIface {
					r = mkSel(r, 1)
				}
			}
			if r == nil || r.sort != sInt || seen[r] || r == mkInt(0) {
				continue
			}
			seen[r] = true
			all = append(all, r)
		}
		for _, r := range x.ghostRefs(k, init.st) {
			if !seen[r] && r != mkInt(0) {
				seen[r] = true
				all = append(all, r)
			}
		}
		if len(all) > 1 && len(all) <= 40 {
			frameExcept("frame "+k+" except visible", all)
		}
		for i, r := range all {
			if i > 12 {
				break
			}
			frameExcept(fmt.Sprintf("frame %s except #%d", k, i), []*Term{r})
			// new objects only: the location keeps its value
			r := r
			alt(fmt.Sprintf("unchanged %s at #%d", k, i), false, func(x *Ex, e *phiEnv) *Term {
				return intern2Eq(mkSelect(x.heap(e.st, k), r), mkSelect(h0, r))
			})
		}
		if strings.HasPrefix(k, "C!") {
			for _, g := range x.ghostCells(k) {
				r := x.global(g).lv.ref
				alt("unchanged "+g.Name(), false, func(x *Ex, e *phiEnv) *Term {
					return intern2Eq(mkSelect(x.heap(e.st, k), r), mkSelect(h0, r))
				})
			}
		}
		if hi.dim == 2 && hi.sort.v.v == sBool {
			for i, r := range all {
				if i > 12 {
					break
				}
				r := r
				// the domain only grows / only shrinks
				alt(fmt.Sprintf("grows %s at #%d", k, i), false, func(x *Ex, e *phiEnv) *Term {
					q := mkBvar("k", hi.key)
					return mkForall([]*Term{q}, mkImp(mkSelect(mkSelect(h0, r), q), mkSelect(mkSelect(x.heap(e.st, k), r), q)))
				})
				alt(fmt.Sprintf("shrinks %s at #%d", k, i), false, func(x *Ex, e *phiEnv) *Term {
					q := mkBvar("k", hi.key)
					return mkForall([]*Term{q}, mkImp(mkSelect(mkSelect(x.heap(e.st, k), r), q), mkSelect(mkSelect(h0, r), q)))
				})
			}
		}
		if k == hClosed {
			add("closed grows", false, func(x *Ex, e *phiEnv) *Term {
				r := mkBvar("r", sInt)
				return mkForall([]*Term{r}, mkImp(mkSelect(h0, r), mkSelect(x.heap(e.st, k), r)))
			})
		}
	}
	// slices: backing array fresh or the initial one
	for _, p := range phis {
		p := p
		switch p.Type().Underlying().(type) {
		case *types.Slice:
			a0 := mkSel(init.phis[p].t, 0)
			add(p.Name()+" array fresh", false, func(x *Ex, e *phiEnv) *Term {
				a := mkSel(e.phis[p].t, 0)
				return mkOr(mkEq(a, a0), mkLeRaw(n0, a))
			})
		case *types.Pointer, *types.Map:
			a0 := init.phis[p].t
			if a0 != nil {
				add(p.Name()+" fresh", false, func(x *Ex, e *phiEnv) *Term {
					a := e.phis[p].t
					return mkOr(mkEq(a, a0), mkLeRaw(n0, a))
				})
			}
		}
	}
	// visited sets
	for _, it := range its {
		it := it
		if !mod[it.key] {
			continue
		}
		start := it.start
		add("visited within start", false, func(x *Ex, e *phiEnv) *Term {
			q := mkBvar("k", start.sort.k)
			return mkForall([]*Term{q}, mkImp(mkSelect(x.heap(e.st, it.key), q), mkSelect(start, q)))
		})
		d, _, _ := mapHeaps(it.mapT)
		if mod[d] {
			add("unvisited unchanged", false, func(x *Ex, e *phiEnv) *Term {
				q := mkBvar("k", start.sort.k)
				return mkForall([]*Term{q}, mkImp(mkNot(mkSelect(x.heap(e.st, it.key), q)), mkEq(mkSelect(start, q), mkSelect(mkSelect(x.heap(e.st, d), it.ref), q))))
			})
		}
	}
	// templates of the contracts
	for _, tpl := range x.prog.templates(x.h, fr.fn) {
		cs = append(cs, x.instantiate(fr, l, tpl, vis, its, init, mod)...)
	}
	return cs
}

// references stored through in the state (store chains above the base)
func (x *Ex) writtenRefs(k string, st *State) []*Term { return nil }

func selRaw(a, i *Term) *Term { return intern("select", "", a.sort.v, nil, nil, a, i) }

func intern2Eq(a, b *Term) *Term {
	return mkEq(a, b)
}

// the ghost globals of the contract's package whose cells live in heap k
func (x *Ex) ghostCells(k string) []*ssa.Global {
	var out []*ssa.Global
	if x.h == nil || x.h.fn == nil || x.h.fn.Pkg == nil {
		return nil
	}
	for n, m := range x.h.fn.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok && strings.HasPrefix(n, "vc") {
			t := types.Unalias(g.Type().Underlying().(*types.Pointer).Elem())
			if _, arr := t.Underlying().(*types.Array); !isStruct(t) && !arr && cellHeap(t) == k {
				out = append(out, g)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// the values of the ghost globals (named vc...) of the contract's package that may live in heap k
func (x *Ex) ghostRefs(k string, st *State) []*Term {
	if x.h == nil || x.h.fn == nil || x.h.fn.Pkg == nil {
		return nil
	}
	var names []string
	for n, m := range x.h.fn.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok && strings.HasPrefix(n, "vc") {
			if mt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map); ok && relevantRef(k, mt) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	var out []*Term
	for _, n := range names {
		t := x.load(st, x.global(x.h.fn.Pkg.Members[n].(*ssa.Global)).lv)
		if t.sort == sInt && t.op != "select" {
			out = append(out, t)
		}
	}
	return out
}

func relevantRef(k string, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return strings.HasPrefix(k, "F!"+tstr(types.Unalias(u.Elem()))+"!") || strings.HasPrefix(k, "C!"+tstr(types.Unalias(u.Elem())))
	case *types.Map:
		d, v, _ := mapHeaps(t)
		return k == d || k == v
	case *types.Slice:
		return k == elemHeap(u.Elem())
	case *types.Chan:
		return strings.HasPrefix(k, "CH!")
	}
	return false
}

// instantiate a template function: its parameters are filled with visible values of the same type.
func (x *Ex) instantiate(fr *Frame, l *loop, tpl *ssa.Function, vis []ssa.Value, its []*Iter, init *phiEnv, mod map[string]bool) []*cand {
	type choice struct {
		live bool // depends on the state of the loop
		name string
		get  func(x *Ex, e *phiEnv) Val
	}
	var opts [][]choice
	for _, p := range tpl.Params {
		var cs []choice
		if n, ok := p.Type().(*types.Named); ok && n.Obj().Name() == "Set" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/vspec") {
			from := its
			if strings.HasPrefix(p.Name(), "outer") {
				// the iterators of the enclosing loops
				from = nil
				for v, vv := range fr.vals {
					if r, ok := v.(*ssa.Range); ok && vv.it != nil && r.Block().Dominates(l.header) {
						in := false
						for _, it := range its {
							in = in || it == vv.it
						}
						if !in {
							from = append(from, vv.it)
						}
					}
				}
				sort.Slice(from, func(i, j int) bool { return from[i].key < from[j].key })
			}
			for _, it := range from {
				it := it
				if n.TypeArgs().Len() == 1 && types.Identical(it.mapT.Underlying().(*types.Map).Key(), n.TypeArgs().At(0)) {
					cs = append(cs, choice{true, "visited", func(x *Ex, e *phiEnv) Val { return Val{it: it} }})
				}
			}
		} else {
			seen := map[string]bool{}
			isInt := sortOf(p.Type()) == sInt && !isRefSort(p.Type())
			consider := func(f *Frame, v ssa.Value) {
				if !types.Identical(v.Type(), p.Type()) {
					// a captured or local cell holding a value of that type
					if pt, ok := v.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), p.Type()) && !isStruct(pt.Elem()) {
						vv, ok := f.vals[v]
						if !ok {
							return
						}
						key := "cell" + valKey(vv)
						lv := x.lval(vv, v.Type())
						hk := x.lvHeap(lv)
						if hk != "" && !mod[hk] {
							// the cell keeps its value
							key = valKey(Val{t: x.load(init.st, lv)})
						}
						if seen[key] {
							return
						}
						seen[key] = true
						cs = append(cs, choice{hk == "" || mod[hk], "*" + v.Name(), func(x *Ex, e *phiEnv) Val {
							return Val{t: x.load(e.st, x.lval(vv, v.Type()))}
						}})
					}
					return
				}
				vv, ok := f.vals[v]
				if !ok {
					return
				}
				isHdr := false
				if ph, ok := v.(*ssa.Phi); ok && f == fr && ph.Block() == l.header {
					isHdr = true
				}
				if isInt && strings.HasPrefix(p.Name(), "own") && !isHdr {
					return // the index of this loop only
				}
				if strings.HasPrefix(p.Name(), "made") {
					switch v.(type) { // maps and slices made by the function only
					case *ssa.MakeMap, *ssa.MakeSlice:
					case *ssa.Phi:
						if _, ok := v.Type().Underlying().(*types.Map); ok {
							return
						}
					default:
						return
					}
				}
				if isInt {
					// integers: indices of loops, parameters and captured variables
					switch v.(type) {
					case *ssa.Phi, *ssa.Parameter, *ssa.FreeVar:
					case *ssa.Extract: // the key of a range over a map
						if _, ok := p.Type().(*types.Named); !ok {
							return
						}
					default:
						return
					}
				}
				key := valKey(vv)
				if !isHdr && seen[key] {
					return
				}
				seen[key] = true
				nm := v.Name()
				if isHdr && rangeIndex(v.(*ssa.Phi)) {
					// the index of a range loop is one behind at the header
					cs = append(cs, choice{true, nm + "+1", func(x *Ex, e *phiEnv) Val { return Val{t: mkAdd(e.phis[v.(*ssa.Phi)].t, mkInt(1))} }})
				} else if isHdr {
					cs = append(cs, choice{true, nm, func(x *Ex, e *phiEnv) Val { return e.phis[v.(*ssa.Phi)] }})
				} else {
					cs = append(cs, choice{false, nm, func(x *Ex, e *phiEnv) Val { return vv }})
				}
			}
			for _, v := range vis {
				consider(fr, v)
			}
			for f := fr.up; f != nil; f = f.up {
				for _, v := range f.fn.Params {
					if !isInt {
						consider(f, v)
					}
				}
				var extra []ssa.Value
				for v := range f.vals {
					if _, ok := v.(*ssa.Parameter); ok {
						continue
					}
					if isInt && f != fr.up {
						continue
					}
					if _, ok := v.(*ssa.FreeVar); ok {
						extra = append(extra, v)
						continue
					}
					extra = append(extra, v)
				}
				sort.Slice(extra, func(i, j int) bool { return valOrder(extra[i]) < valOrder(extra[j]) })
				for _, v := range extra {
					consider(f, v)
				}
			}
			if len(cs) > 10 {
				cs = cs[:10]
			}
		}
		if len(cs) == 0 {
			return nil
		}
		opts = append(opts, cs)
	}
	var out []*cand
	idx := make([]int, len(opts))
	for n := 0; n < 400; n++ {
		var nm []string
		var gets []func(x *Ex, e *phiEnv) Val
		distinct := true
		live := len(opts) == 0 || len(mod) > 0 && !hasScalarParam(tpl)
		for i, o := range opts {
			live = live || o[idx[i]].live
			nm = append(nm, o[idx[i]].name)
			gets = append(gets, o[idx[i]].get)
			for j := 0; j < i; j++ {
				if types.Identical(tpl.Params[i].Type(), tpl.Params[j].Type()) && idx[i] == idx[j] {
					distinct = false
				}
			}
		}
		if distinct && live {
			out = append(out, &cand{name: tpl.Name() + "(" + strings.Join(nm, ",") + ")", user: true, eval: func(x *Ex, e *phiEnv) *Term {
				var as []Val
				for _, g := range gets {
					as = append(as, g(x, e))
				}
				t := x.evalPureFn(e.st, tpl, as, nil)
				if t != nil && strings.HasPrefix(tpl.Name(), "keep") {
					// what held before the loop still holds
					var bs []Val
					for _, g := range gets {
						bs = append(bs, g(x, init))
					}
					return mkImp(x.evalPureFn(init.st, tpl, bs, nil), t)
				}
				return t
			}})
		}
		k := len(idx) - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			break
		}
	}
	return out
}

func valOrder(v ssa.Value) string {
	if in, ok := v.(ssa.Instruction); ok {
		b := in.Block()
		for i, o := range b.Instrs {
			if o == in {
				return fmt.Sprintf("b%05d.%05d", b.Index, i)
			}
		}
	}
	return "a" + v.Name()
}

func valKey(v Val) string {
	if v.t != nil {
		return fmt.Sprint("t", v.t.id)
	}
	if v.lv != nil {
		return lvKey(v.lv)
	}
	return fmt.Sprintf("%p", v.it)
}

// rangeIndex: the hidden index of a range loop starts at -1
func rangeIndex(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "-1" {
			return true
		}
	}
	return false
}

// hasScalarParam: the template speaks about an index or an accumulator
func hasScalarParam(tpl *ssa.Function) bool {
	for _, p := range tpl.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return true
		}
	}
	return false
}

// lvHeap is the heap a location lives in
func (x *Ex) lvHeap(l *LVal) string {
	switch l.kind {
	case 'f':
		k, _ := fieldHeap(l.root, l.path)
		return k
	case 'c':
		return cellHeap(l.root)
	}
	return ""
}

var dumpCnt int

func freshCount() int { dumpCnt++; return dumpCnt }
