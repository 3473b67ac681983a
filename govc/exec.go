package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type LVal struct {
	kind byte // 'f' flattened struct, 'e' slice/array element, 'c' cell, 'a' whole array
	root types.Type
	ref  *Term
	idx  *Term
	path []int
}

type Iter struct {
	mapT  types.Type
	ref   *Term
	start *Term  // domain at the start
	key   string // ghost heap of the visited set
}

// iterators stored in cells (captured by specification closures)
var iterTab = map[*Term]*Iter{}

type Val struct {
	t   *Term
	lv  *LVal
	tup []Val
	it  *Iter
}

type closure struct {
	fn   *ssa.Function
	bind []Val
	// bound method of an interface or intrinsic
}

var (
	closures []*closure
	closTab  = map[string]*Term{}
)

// closureTerm returns the term of a function value
func closureTerm(fn *ssa.Function, bind []Val) *Term {
	key := fmt.Sprintf("%p", fn)
	for _, b := range bind {
		if b.t != nil {
			key += fmt.Sprintf(",%d", b.t.id)
		} else if b.lv != nil {
			key += "," + lvKey(b.lv)
		} else {
			key += ",?"
		}
	}
	if t, ok := closTab[key]; ok {
		return t
	}
	closures = append(closures, &closure{fn, bind})
	// function ids are large negative integers
	t := mkInt(-1000000 - int64(len(closures)))
	if hasOpen(bind) {
		// keep open terms visible: an uninterpreted function of the free bound variables is not needed,
		// the closure is only called in the scope where they are bound
		_ = t
	}
	closTab[key] = t
	return t
}

func hasOpen(bind []Val) bool {
	for _, b := range bind {
		if b.t != nil && len(b.t.fbv) > 0 {
			return true
		}
	}
	return false
}

func closureOf(t *Term) *closure {
	if t.isInt() {
		n := -1000000 - t.i64()
		if n >= 1 && int(n) <= len(closures) {
			return closures[n-1]
		}
	}
	return nil
}

func lvKey(l *LVal) string {
	s := fmt.Sprintf("%c%s.%d%v", l.kind, tstr(l.root), l.ref.id, l.path)
	if l.idx != nil {
		s += fmt.Sprintf("[%d]", l.idx.id)
	}
	return s
}

// ---------------------------------------------------------------- state

type State struct {
	heaps map[string]*Term
	pc    *Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		h[k] = v
	}
	return &State{heaps: h, pc: s.pc}
}

type Obl struct {
	prop, label, kind string
	pc, cond          *Term
	nass              int
	pos               string
	fn                string
	unsup             bool
	status, by, file  string
	extra             []*Term
}

type Frame struct {
	fn    *ssa.Function
	vals  map[ssa.Value]Val
	in    map[*ssa.BasicBlock][]*edge
	back  map[*ssa.BasicBlock][]*edge
	rets  []*retEdge
	defs  []*deferRec
	depth int
	up    *Frame
	died  bool
	entry *Term
	loopN map[*ssa.BasicBlock]int
}

type edge struct {
	from *ssa.BasicBlock
	pred int
	st   *State
	vals map[*ssa.Phi]Val
}

type retEdge struct {
	st  *State
	res []Val
}

type deferRec struct {
	pc    *Term
	call  *ssa.CallCommon
	fnv   Val
	args  []Val
	instr ssa.Instruction
}

type Ex struct {
	prog    *Prog
	h       *Harness
	ass     []*Term
	obls    []*Obl
	pure    int
	quiet   int // discovery: no obligations
	depth   int
	stack   []*ssa.Function
	reads   map[string]bool
	native  bool
	externs map[string]int
	inlined map[string]bool
	used    map[string]bool
	assumeN map[string]int
	initial *Term
	recApps map[*Term]int
	unsupN  map[string]bool
	loops   []loopReport
	houdini int
	loopKey string
	loopCnt int
	loopMem map[string]*loopMem
	curPos  token.Pos
	curFn   *ssa.Function
	ptrTab  map[*Term]*LVal
	conc    *concCtx
	steps   int
	recScan bool
}

type unsupErr struct{ msg string }

func (x *Ex) unsup(f string, a ...interface{}) {
	panic(unsupErr{fmt.Sprintf(f, a...)})
}

// heap returns the current term of a heap
func (x *Ex) heap(st *State, key string) *Term {
	if x.reads != nil {
		x.reads[key] = true
	}
	if t, ok := st.heaps[key]; ok {
		return t
	}
	t := x.baseHeap(key, "0", mkConst("next!0", sInt))
	return t
}

// baseHeap is the heap symbol of the initial state
func (x *Ex) baseHeap(key, ver string, next *Term) *Term {
	hi := heapTab[key]
	t := mkConst("h!"+ver+"!"+sanitize(key), hi.sort)
	if _, ok := heapSyms[t]; !ok {
		heapSyms[t] = true
		typeHeap(t, hi, next)
		if hi.wf != nil && ver == "0" {
			r := mkBvar("r", sInt)
			if hi.dim == 1 {
				sel := mkSelect(t, r)
				addAxiom(t, []*Term{r}, hi.wf(sel), sel)
			} else if hi.dim == 2 {
				k := mkBvar("k", hi.key)
				sel := mkSelect(mkSelect(t, r), k)
				addAxiom(t, []*Term{r, k}, hi.wf(sel), sel)
			}
		}
	}
	return t
}

var heapSyms = map[*Term]bool{}

func typeHeap(t *Term, hi *heapInfo, next *Term) {
	if hi.raw {
		return
	}
	// references only: nothing is known about the values of the numbers
	if hi.elem != nil && (isRefSort(hi.elem) || opaqueSort(types.Unalias(hi.elem)) == sIface) {
		defer func() { heapBelow[t] = next }()
	}
	r := mkBvar("r", sInt)
	switch hi.dim {
	case 0:
		if hi.elem != nil {
			if inv := typeInv(t, hi.elem, next); inv != tTrue {
				symAxioms[t] = append(symAxioms[t], inv)
			}
		}
	case 1:
		sel := mkSelect(t, r)
		addAxiom(t, []*Term{r}, typeInv(sel, hi.elem, next), sel)
	case 2:
		k := mkBvar("k", hi.key)
		sel := mkSelect(mkSelect(t, r), k)
		addAxiom(t, []*Term{r, k}, typeInv(sel, hi.elem, next), sel)
		if hi.elem == types.Typ[types.Bool] && hi.sort.v.v == sBool {
			// a nil map is empty
			e := mkSelect(mkSelect(t, mkInt(0)), k)
			addAxiom(t, []*Term{k}, mkNot(e), e)
		}
	}
}

func addAxiom(sym *Term, vars []*Term, body *Term, pats ...*Term) {
	if body == tTrue {
		return
	}
	symAxioms[sym] = append(symAxioms[sym], forallPat(vars, body, pats...))
}

func forallPat(vars []*Term, body *Term, pats ...*Term) *Term {
	q := mkForall(vars, body)
	if q.op != "forall" || len(q.bv) != len(vars) {
		return q
	}
	m := map[*Term]*Term{}
	for i, v := range vars {
		m[v] = q.bv[i]
	}
	var ps []*Term
	for _, p := range pats {
		ps = append(ps, subst(p, m))
	}
	if _, ok := patternOf[q]; !ok {
		patternOf[q] = [][]*Term{ps}
	}
	return q
}

func (x *Ex) next(st *State) *Term {
	if t, ok := st.heaps["next"]; ok {
		return t
	}
	return mkConst("next!0", sInt)
}

func (x *Ex) alloc(st *State) *Term {
	n := x.next(st)
	st.heaps["next"] = mkAdd(n, mkInt(1))
	return n
}

func (x *Ex) assume(st *State, t *Term) {
	if x.pure > 0 {
		return
	}
	f := mkImp(st.pc, t)
	if f != tTrue {
		x.ass = append(x.ass, f)
	}
}

func (x *Ex) posStr() string {
	if x.curPos.IsValid() {
		p := x.prog.fset.Position(x.curPos)
		return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.prog.dir+"/"), p.Line)
	}
	return ""
}

// oblige records an obligation and assumes it afterwards
func (x *Ex) oblige(st *State, kind, prop, label string, c *Term) {
	if x.pure > 0 {
		return
	}
	if mkImp(st.pc, c) == tTrue {
		if kind == "ensures" && x.quiet == 0 {
			x.obls = append(x.obls, &Obl{prop: prop, label: label, kind: kind, pc: st.pc, cond: c, nass: len(x.ass), pos: x.posStr(), status: "unsat", by: "simplifier", fn: x.fnName()})
		} else if x.quiet == 0 {
			x.obls = append(x.obls, &Obl{prop: prop, label: label, kind: kind, pc: st.pc, cond: c, nass: len(x.ass), pos: x.posStr(), status: "unsat", by: "simplifier", fn: x.fnName()})
		}
		return
	}
	if x.quiet == 0 {
		x.obls = append(x.obls, &Obl{prop: prop, label: label, kind: kind, pc: st.pc, cond: c, nass: len(x.ass), pos: x.posStr(), fn: x.fnName()})
	}
	x.assume(st, c)
}

func (x *Ex) fnName() string {
	if x.curFn != nil {
		return x.curFn.String()
	}
	return ""
}

func (x *Ex) safe(st *State, label string, c *Term) {
	if x.h != nil && x.h.noPanic {
		x.assume(st, c)
		return
	}
	x.oblige(st, "panic-free", "", label, c)
}

// ---------------------------------------------------------------- merging

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t == tTrue {
		return nil
	}
	return []*Term{t}
}

func commonPC(pcs []*Term) (common []*Term, rest []*Term) {
	cnt := map[*Term]int{}
	for _, p := range pcs {
		for _, c := range conjuncts(p) {
			cnt[c]++
		}
	}
	in := map[*Term]bool{}
	for _, c := range conjuncts(pcs[0]) {
		if cnt[c] == len(pcs) {
			common = append(common, c)
			in[c] = true
		}
	}
	for _, p := range pcs {
		var r []*Term
		for _, c := range conjuncts(p) {
			if !in[c] {
				r = append(r, c)
			}
		}
		rest = append(rest, mkAnd(r...))
	}
	return
}

// orPC is the disjunction of path conditions with merging of complementary branches
func orPC(pcs []*Term) *Term {
	l := append([]*Term{}, pcs...)
	for changed := true; changed && len(l) > 1; {
		changed = false
	outer:
		for i := 0; i < len(l); i++ {
			for j := i + 1; j < len(l); j++ {
				c, r := commonPC([]*Term{l[i], l[j]})
				if r[0] == mkNot(r[1]) || r[0] == tTrue || r[1] == tTrue {
					l[i] = mkAnd(c...)
					l = append(l[:j], l[j+1:]...)
					changed = true
					break outer
				}
				o := mkOr(r[0], r[1])
				if o.op != "or" {
					l[i] = mkAnd(append(c, o)...)
					l = append(l[:j], l[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	if len(l) == 1 {
		return l[0]
	}
	c, r := commonPC(l)
	return mkAnd(append(append([]*Term{}, c...), mkOr(r...))...)
}

func (x *Ex) merge(sts []*State) (*State, []*Term) {
	var live []*State
	for _, s := range sts {
		if s.pc != tFalse {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return &State{heaps: map[string]*Term{}, pc: tFalse}, nil
	}
	pcs := make([]*Term, len(live))
	for i, s := range live {
		pcs[i] = s.pc
	}
	if len(live) == 1 {
		g := make([]*Term, len(sts))
		for i, s := range sts {
			g[i] = mkBool(s == live[0])
		}
		return live[0].clone(), g
	}
	_, guards := commonPC(pcs)
	out := &State{heaps: map[string]*Term{}, pc: orPC(pcs)}
	keys := map[string]bool{}
	for _, s := range live {
		for k := range s.heaps {
			keys[k] = true
		}
	}
	for k := range keys {
		get := func(s *State) *Term {
			if t, ok := s.heaps[k]; ok {
				return t
			}
			if k == "next" {
				return mkConst("next!0", sInt)
			}
			return x.baseHeap(k, "0", mkConst("next!0", sInt))
		}
		if k == "next" {
			// keep the allocation counter a plain counter where possible
			mx := get(live[0])
			ok := true
			for _, s := range live[1:] {
				n := get(s)
				if counterLE(mx, n) {
					mx = n
				} else if !counterLE(n, mx) {
					ok = false
				}
			}
			if !ok {
				nn := fresh("next", sInt)
				for _, s := range live {
					x.assume(&State{pc: tTrue}, mkImp(s.pc, mkLeRaw(get(s), nn)))
				}
				// keep the best common lower bound
				if c := commonCounter(live, get); c != nil {
					nextGE[nn] = c
					x.assume(&State{pc: tTrue}, mkLeRaw(c, nn))
				}
				mx = nn
			}
			out.heaps[k] = mx
			continue
		}
		v := get(live[len(live)-1])
		for i := len(live) - 2; i >= 0; i-- {
			v = mkIte(guards[i], get(live[i]), v)
		}
		out.heaps[k] = v
	}
	g := make([]*Term, len(sts))
	j := 0
	for i, s := range sts {
		if s.pc == tFalse {
			g[i] = tFalse
		} else {
			g[i] = guards[j]
			j++
		}
	}
	return out, g
}

func commonCounter(live []*State, get func(*State) *Term) *Term {
	// a counter below all of them
	c := get(live[0])
	for i := 0; i < 100; i++ {
		ok := true
		for _, s := range live {
			if !counterLE(c, get(s)) {
				ok = false
			}
		}
		if ok {
			return c
		}
		l := linOf(c)
		if l.c.Sign() > 0 {
			c = mkSub(c, mkBig(l.c))
			continue
		}
		g, ok2 := nextGE[c]
		if !ok2 {
			return mkConst("next!0", sInt)
		}
		c = g
	}
	return mkConst("next!0", sInt)
}

func (x *Ex) mergeVals(vs []Val, g []*Term) Val {
	var live []Val
	var gs []*Term
	for i, v := range vs {
		if g[i] != tFalse {
			live = append(live, v)
			gs = append(gs, g[i])
		}
	}
	if len(live) == 0 {
		return vs[0]
	}
	if len(live) == 1 {
		return live[0]
	}
	if live[0].it != nil {
		return live[0]
	}
	if live[0].tup != nil {
		out := make([]Val, len(live[0].tup))
		for k := range out {
			var c []Val
			for _, v := range live {
				c = append(c, v.tup[k])
			}
			out[k] = x.mergeVals(c, gs)
		}
		return Val{tup: out}
	}
	same := true
	for _, v := range live {
		if v.lv == nil || lvKey(v.lv) != func() string {
			if live[0].lv == nil {
				return ""
			}
			return lvKey(live[0].lv)
		}() {
			same = false
		}
	}
	if same {
		return live[0]
	}
	v := x.term(live[len(live)-1])
	for i := len(live) - 2; i >= 0; i-- {
		v = mkIte(gs[i], x.term(live[i]), v)
	}
	return Val{t: v}
}

// term converts a value to a term
func (x *Ex) term(v Val) *Term {
	if v.t != nil {
		return v.t
	}
	if v.lv != nil {
		l := v.lv
		if len(l.path) == 0 && (l.kind == 'f' || l.kind == 'c' || l.kind == 'a') {
			return l.ref
		}
		as := []*Term{l.ref}
		if l.idx != nil {
			as = append(as, l.idx)
		}
		t := mkApp("addr!"+string(l.kind)+tstr(l.root)+fmt.Sprint(l.path), sInt, as...)
		x.ptrTab[t] = l
		return t
	}
	if v.it != nil {
		t := mkConst("iter!"+v.it.key, sInt)
		iterTab[t] = v.it
		return t
	}
	if v.tup != nil {
		x.unsup("tuple used as a term")
	}
	x.unsup("value without a term")
	return nil
}

// lval interprets a pointer value of the given pointer type
func (x *Ex) lval(v Val, pt types.Type) *LVal {
	if v.lv != nil {
		return v.lv
	}
	if l, ok := x.ptrTab[v.t]; ok {
		return l
	}
	el := types.Unalias(pt.Underlying().(*types.Pointer).Elem())
	switch {
	case isStruct(el):
		return &LVal{kind: 'f', root: el, ref: v.t}
	default:
		if a, ok := el.Underlying().(*types.Array); ok {
			return &LVal{kind: 'a', root: a.Elem(), ref: v.t}
		}
		return &LVal{kind: 'c', root: el, ref: v.t}
	}
}

func (x *Ex) load(st *State, l *LVal) *Term {
	switch l.kind {
	case 'f':
		ft, _ := fieldType(l.root, l.path)
		if isStruct(ft) {
			s := sortOf(ft)
			u := ft.Underlying().(*types.Struct)
			if u.NumFields() == 0 {
				return mkCtor(s, mkInt(0))
			}
			var as []*Term
			for i := 0; i < u.NumFields(); i++ {
				as = append(as, x.load(st, &LVal{kind: 'f', root: l.root, ref: l.ref, path: append(append([]int{}, l.path...), i)}))
			}
			return mkCtor(s, as...)
		}
		k, _ := fieldHeap(l.root, l.path)
		x.guardRead(st, k, l)
		return mkSelect(x.heap(st, k), l.ref)
	case 'e':
		v := mkSelect(mkSelect(x.heap(st, elemHeap(l.root)), l.ref), l.idx)
		return selPath(v, l.path)
	case 'c':
		v := mkSelect(x.heap(st, cellHeap(l.root)), l.ref)
		return selPath(v, l.path)
	case 'a':
		return mkSelect(x.heap(st, elemHeap(l.root)), l.ref)
	}
	panic("load")
}

func selPath(v *Term, path []int) *Term {
	for _, i := range path {
		v = mkSel(v, i)
	}
	return v
}

func updPath(v *Term, path []int, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	as := make([]*Term, len(v.sort.flds))
	for i := range as {
		as[i] = mkSel(v, i)
	}
	as[path[0]] = updPath(as[path[0]], path[1:], nv)
	return mkCtor(v.sort, as...)
}

func (x *Ex) store(st *State, l *LVal, v *Term) {
	switch l.kind {
	case 'f':
		ft, _ := fieldType(l.root, l.path)
		if isStruct(ft) {
			u := ft.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				x.store(st, &LVal{kind: 'f', root: l.root, ref: l.ref, path: append(append([]int{}, l.path...), i)}, mkSel(v, i))
			}
			return
		}
		k, _ := fieldHeap(l.root, l.path)
		x.guardWrite(st, k, l)
		st.heaps[k] = mkStore(x.heap(st, k), l.ref, v)
	case 'e':
		k := elemHeap(l.root)
		h := x.heap(st, k)
		a := mkSelect(h, l.ref)
		if len(l.path) > 0 {
			v = updPath(mkSelect(a, l.idx), l.path, v)
		}
		st.heaps[k] = mkStore(h, l.ref, mkStore(a, l.idx, v))
	case 'c':
		k := cellHeap(l.root)
		h := x.heap(st, k)
		if len(l.path) > 0 {
			v = updPath(mkSelect(h, l.ref), l.path, v)
		}
		st.heaps[k] = mkStore(h, l.ref, v)
	case 'a':
		k := elemHeap(l.root)
		st.heaps[k] = mkStore(x.heap(st, k), l.ref, v)
	}
}

// newObj allocates a zeroed object of type t and returns its reference
func (x *Ex) newObj(st *State, t types.Type) *Term {
	r := x.alloc(st)
	t = types.Unalias(t)
	switch {
	case isStruct(t):
		x.zeroStruct(st, t, r, nil)
	default:
		if a, ok := t.Underlying().(*types.Array); ok {
			k := elemHeap(a.Elem())
			st.heaps[k] = mkStore(x.heap(st, k), r, mkConstArr(sInt, zeroOf(a.Elem())))
		} else {
			k := cellHeap(t)
			st.heaps[k] = mkStore(x.heap(st, k), r, zeroOf(t))
		}
	}
	return r
}

func (x *Ex) zeroStruct(st *State, root types.Type, r *Term, path []int) {
	ft, _ := fieldType(root, path)
	u := ft.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		p := append(append([]int{}, path...), i)
		if isStruct(u.Field(i).Type()) {
			x.zeroStruct(st, root, r, p)
			continue
		}
		if isProtoInternal(u.Field(i).Name()) {
			continue
		}
		k, f := fieldHeap(root, p)
		st.heaps[k] = mkStore(x.heap(st, k), r, zeroOf(f))
	}
}

func isProtoInternal(n string) bool {
	return n == "sizeCache" || n == "unknownFields" || n == "state"
}

// ---------------------------------------------------------------- functions

func (x *Ex) val(fr *Frame, st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return Val{t: constTerm(c)}
	case *ssa.Function:
		return Val{t: closureTerm(c, nil)}
	case *ssa.Global:
		return x.global(c)
	case *ssa.Builtin:
		return Val{}
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	x.unsup("value %s (%T) not computed in %s", v.Name(), v, fr.fn)
	return Val{}
}

func (x *Ex) tv(fr *Frame, st *State, v ssa.Value) *Term { return x.term(x.val(fr, st, v)) }

var globalRef = map[string]int{}

func (x *Ex) global(g *ssa.Global) Val {
	key := g.String()
	n, ok := globalRef[key]
	if !ok {
		n = len(globalRef) + 1
		globalRef[key] = n
	}
	el := types.Unalias(g.Type().Underlying().(*types.Pointer).Elem())
	ref := mkInt(int64(-n))
	if isStruct(el) {
		return Val{lv: &LVal{kind: 'f', root: el, ref: ref}}
	}
	if a, ok := el.Underlying().(*types.Array); ok {
		return Val{lv: &LVal{kind: 'a', root: a.Elem(), ref: ref}}
	}
	return Val{lv: &LVal{kind: 'c', root: el, ref: ref}}
}

func constTerm(c *ssa.Const) *Term {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		s := sortOf(t)
		if s == sFlt {
			return fltConst(c.Value)
		}
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return mkBig(b)
	case constant.Float:
		if sortOf(t) == sInt {
			b, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return mkBig(b)
		}
		return fltConst(c.Value)
	}
	panic("const " + c.String())
}

func fltConst(v constant.Value) *Term {
	f, _ := constant.Float64Val(v)
	if f == 0 {
		return mkConst("flt!0", sFlt)
	}
	return mkConst("flt!"+sanitize(fmt.Sprint(f)), sFlt)
}

// callFn executes a function body on the state; returns the results (nil if it never returns)
func (x *Ex) callFn(fn *ssa.Function, args []Val, bind []Val, st *State, up *Frame) (Val, *State) {
	if len(fn.Blocks) == 0 {
		x.unsup("no body for %s", fn)
	}
	if fn.Recover != nil && false {
		x.unsup("recover in %s", fn)
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 0 && !x.prog.mayRecurse(fn) {
		x.unsup("recursion in %s", fn)
	}
	if len(x.stack) > 60 {
		x.unsup("call depth in %s", fn)
	}
	x.stack = append(x.stack, fn)
	of, op := x.curFn, x.curPos
	x.curFn = fn
	if x.inlined != nil {
		x.inlined[fn.String()] = true
	}
	defer func() {
		x.stack = x.stack[:len(x.stack)-1]
		x.curFn, x.curPos = of, op
	}()
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, in: map[*ssa.BasicBlock][]*edge{}, back: map[*ssa.BasicBlock][]*edge{}, up: up, entry: st.pc}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.vals[p] = bind[i]
	}
	info := x.prog.fnInfo(fn)
	fr.in[fn.Blocks[0]] = []*edge{{pred: -1, st: st.clone()}}
	x.region(fr, info, info.rpo, nil)
	if len(fr.rets) == 0 {
		return Val{}, &State{heaps: st.heaps, pc: tFalse}
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	out, g := x.merge(sts)
	if out.pc == tFalse {
		return Val{}, out
	}
	if !fr.died {
		if out.pc != st.pc && x.pure == 0 {
			// some return is reached (termination is assumed)
			x.assume(st, out.pc)
		}
		out.pc = st.pc
	}
	nres := fn.Signature.Results().Len()
	res := make([]Val, nres)
	for k := 0; k < nres; k++ {
		var vs []Val
		for _, r := range fr.rets {
			vs = append(vs, r.res[k])
		}
		res[k] = x.mergeVals(vs, g)
	}
	switch nres {
	case 0:
		return Val{}, out
	case 1:
		return res[0], out
	}
	return Val{tup: res}, out
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	pos    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loop
	lorder []*loop
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock
	idx    int
}

func (p *Prog) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := p.infos[fn]; ok {
		return i
	}
	info := &fnInfo{pos: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		info.pos[post[i]] = len(info.rpo)
		info.rpo = append(info.rpo, post[i])
	}
	for _, b := range info.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := info.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					info.loops[s] = l
				}
				// natural loop
				var w []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					w = append(w, b)
				}
				for len(w) > 0 {
					y := w[len(w)-1]
					w = w[:len(w)-1]
					for _, p := range y.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							w = append(w, p)
						}
					}
				}
			}
		}
	}
	for _, b := range info.rpo {
		if l := info.loops[b]; l != nil {
			l.idx = len(info.lorder)
			info.lorder = append(info.lorder, l)
			for _, c := range info.rpo {
				if l.blocks[c] {
					l.order = append(l.order, c)
				}
			}
		}
	}
	// RPO visits may interleave exit blocks of a loop with its body: order them so that a loop's
	// blocks are contiguous (handled by region, which executes a loop when its header is reached).
	p.infos[fn] = info
	return info
}

// region executes the given blocks (in RPO); header is the loop header the region belongs to.
func (x *Ex) region(fr *Frame, info *fnInfo, order []*ssa.BasicBlock, header *ssa.BasicBlock) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		if done[b] {
			continue
		}
		if l := info.loops[b]; l != nil && b != header {
			x.execLoop(fr, info, l)
			for c := range l.blocks {
				done[c] = true
			}
			continue
		}
		es := fr.in[b]
		if len(es) == 0 {
			continue
		}
		delete(fr.in, b)
		x.execBlock(fr, info, b, es, header)
	}
}

func (x *Ex) enter(fr *Frame, b *ssa.BasicBlock, es []*edge) *State {
	var sts []*State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	st, g := x.merge(sts)
	if st.pc == tFalse {
		return st
	}
	// phis
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var ps []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for i, e := range es {
			if e.vals != nil {
				vs = append(vs, e.vals[p])
			} else if g[i] == tFalse {
				vs = append(vs, Val{t: zeroOf(p.Type())})
			} else {
				vs = append(vs, x.val(fr, e.st, p.Edges[e.pred]))
			}
		}
		ps = append(ps, pv{p, x.mergeVals(vs, g)})
	}
	for _, q := range ps {
		fr.vals[q.p] = q.v
	}
	return st
}

func predIndex(from, to *ssa.BasicBlock, succIdx int) int {
	// the k-th occurrence of from among to.Preds corresponds to the k-th edge
	k := 0
	for i := 0; i < succIdx; i++ {
		if from.Succs[i] == to {
			k++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

func (x *Ex) jump(fr *Frame, b *ssa.BasicBlock, i int, st *State, header *ssa.BasicBlock) {
	if st.pc == tFalse {
		return
	}
	s := b.Succs[i]
	e := &edge{from: b, pred: predIndex(b, s, i), st: st}
	// the value of phis must be read now: inside loops the values may be overwritten later
	for _, in := range s.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if e.vals == nil {
			e.vals = map[*ssa.Phi]Val{}
		}
		e.vals[p] = x.val(fr, st, p.Edges[e.pred])
	}
	if s.Dominates(b) {
		// a back edge, possibly of an enclosing loop
		fr.back[s] = append(fr.back[s], e)
		return
	}
	fr.in[s] = append(fr.in[s], e)
}

func (x *Ex) execBlock(fr *Frame, info *fnInfo, b *ssa.BasicBlock, es []*edge, header *ssa.BasicBlock) {
	st := x.enter(fr, b, es)
	if st.pc == tFalse {
		return
	}
	x.execBody(fr, info, b, st, header)
}

func (x *Ex) execBody(fr *Frame, info *fnInfo, b *ssa.BasicBlock, st *State, header *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if p := in.Pos(); p.IsValid() {
			x.curPos = p
		}
		x.steps++
		if x.steps > 4000000 {
			x.unsup("step limit")
		}
		switch i := in.(type) {
		case *ssa.Jump:
			x.jump(fr, b, 0, st, header)
			return
		case *ssa.If:
			c := x.tv(fr, st, i.Cond)
			// decide the condition from the path condition
			switch implied(st.pc, true, c) {
			case 1:
				c = tTrue
			case -1:
				c = tFalse
			}
			t, f := st.clone(), st
			t.pc = mkAnd(st.pc, c)
			f.pc = mkAnd(st.pc, mkNot(c))
			x.jump(fr, b, 0, t, header)
			x.jump(fr, b, 1, f, header)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range i.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			fr.rets = append(fr.rets, &retEdge{st, rs})
			return
		case *ssa.Panic:
			x.safe(st, "explicit panic", tFalse)
			fr.died = true
			return
		default:
			st = x.instr(fr, st, in)
			if st.pc == tFalse {
				fr.died = true
				return
			}
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
