package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Ex, fr *Frame, st *State, fn *ssa.Function, args []Val) (Val, *State)

var noops = map[string]bool{
	"github.com/cloudwego/kitex/pkg/klog.": true,
	"runtime/debug.":                       true,
}

const vs = "github.com/kitex-contrib/xds/vspec."

// evalPure evaluates a function value on arguments as a specification (no side effects, no obligations)
func (x *Ex) evalPure(st *State, f *Term, args []Val) *Term {
	if f.op == "ite" {
		return mkIte(f.args[0], x.evalPure(st, f.args[1], args), x.evalPure(st, f.args[2], args))
	}
	cl := closureOf(f)
	if cl == nil {
		x.unsup("specification closure is not resolved: %s", short(f))
	}
	return x.evalPureFn(st, cl.fn, args, cl.bind)
}

func (x *Ex) evalPureFn(st *State, fn *ssa.Function, args, bind []Val) *Term {
	x.pure++
	defer func() { x.pure-- }()
	s := st.clone()
	s.pc = tTrue
	r, out := x.callFn(fn, args, bind, s, nil)
	if out.pc == tFalse {
		return tTrue
	}
	return x.term(r)
}

// evalCond evaluates the call of a bool function in pure mode under the current path condition
func strArg(x *Ex, v Val) string {
	t := x.term(v)
	if t.op != "strlit" {
		x.unsup("label is not a literal")
	}
	return t.name
}

var bvCnt int

func freshBvar(s *Sort) *Term {
	bvCnt++
	return mkBvar(fmt.Sprintf("b!%d", bvCnt), s)
}

var intrinsics map[string]intrinsic

func lv0(x *Ex, fn *ssa.Function, v Val) *LVal {
	return x.lval(v, fn.Params[0].Type())
}

func recvL(x *Ex, fn *ssa.Function, v Val) *LVal {
	return x.lval(v, fn.Signature.Recv().Type())
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	I[vs+"Symbolic"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: tTrue}, st
	}
	I[vs+"Requires"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		x.assume(st, x.term(a[0]))
		x.h.requires++
		return Val{}, st
	}
	I[vs+"Assume"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		x.assumeN[strArg(x, a[0])]++
		x.assume(st, x.term(a[1]))
		return Val{}, st
	}
	I[vs+"Ensures"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		x.oblige(st, "ensures", strArg(x, a[0]), strArg(x, a[1]), x.term(a[2]))
		return Val{}, st
	}
	I[vs+"Forall"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		q := freshBvar(sInt)
		b := x.evalPure(st, x.term(a[2]), []Val{{t: q}})
		return Val{t: mkForall([]*Term{q}, mkImp(mkAnd(mkLe(x.term(a[0]), q), mkLt(q, x.term(a[1]))), b))}, st
	}
	I[vs+"Exists"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		q := freshBvar(sInt)
		b := x.evalPure(st, x.term(a[2]), []Val{{t: q}})
		return Val{t: mkExists([]*Term{q}, mkAnd(mkLe(x.term(a[0]), q), mkLt(q, x.term(a[1])), b))}, st
	}
	I[vs+"All"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		t := fn.TypeArgs()[0]
		q := freshBvar(sortOf(t))
		b := x.evalPure(st, x.term(a[1]), []Val{{t: q}})
		return Val{t: mkForall([]*Term{q}, mkImp(inRange(t, q), b))}, st
	}
	I[vs+"Some"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		t := fn.TypeArgs()[0]
		q := freshBvar(sortOf(t))
		b := x.evalPure(st, x.term(a[1]), []Val{{t: q}})
		return Val{t: mkExists([]*Term{q}, mkAnd(inRange(t, q), b))}, st
	}
	I[vs+"CopyMap"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		mt := fn.Signature.Params().At(0).Type()
		d, v, _ := mapHeaps(mt)
		m := x.term(a[0])
		r := x.alloc(st)
		st.heaps[d] = mkStore(x.heap(st, d), r, mkSelect(x.heap(st, d), m))
		st.heaps[v] = mkStore(x.heap(st, v), r, mkSelect(x.heap(st, v), m))
		return Val{t: r}, st
	}
	I[vs+"CopySlice"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		el := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		k := elemHeap(el)
		s := x.term(a[0])
		r := x.alloc(st)
		st.heaps[k] = mkStore(x.heap(st, k), r, mkSelect(x.heap(st, k), mkSel(s, 0)))
		return Val{t: mkIte(mkEq(mkSel(s, 0), mkInt(0)), s, mkCtor(sSlice, r, mkSel(s, 1)))}, st
	}
	I[vs+"Any"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		if x.pure > 0 {
			x.unsup("Any in a specification")
		}
		x.bumpNext(st)
		return Val{t: x.havocVal(st, "any", fn.Signature.Results().At(0).Type())}, st
	}
	I[vs+"Fn"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		name := strArg(x, a[0])
		args := x.varargs(st, x.term(a[1]))
		var ts []*Term
		for _, t := range args {
			ts = append(ts, unboxAny(t))
		}
		rt := fn.Signature.Results().At(0).Type()
		return Val{t: x.uf("fn!"+name, rt, ts)}, st
	}
	I[vs+"Decode"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		_, bad, ref := x.canon(st, x.term(a[0]), types.Unalias(fn.TypeArgs()[0]))
		return Val{tup: []Val{{t: ref}, {t: mkNot(bad)}}}, st
	}
	I[vs+"Closed"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkSelect(x.heap(st, hClosed), unboxVal(x.term(a[0])))}, st
	}
	I[vs+"Fresh"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		// the reference did not exist before the harness started
		return Val{t: mkLe(mkConst("next!0", sInt), unboxVal(x.term(a[0])))}, st
	}
	I[vs+"Ident"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkSel(x.term(a[0]), 1)}, st
	}
	I[vs+"Same"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkEq(x.term(a[0]), x.term(a[1]))}, st
	}
	I[vs+"SentN"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkSelect(x.heap(st, hSent), unboxVal(x.term(a[0])))}, st
	}
	I[vs+"RecvN"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkSelect(x.heap(st, hRecv), unboxVal(x.term(a[0])))}, st
	}
	I[vs+"Waiting"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkSelect(x.heap(st, hWait), unboxVal(x.term(a[0])))}, st
	}
	I[vs+"MayClose"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		ch := unboxVal(x.term(a[0]))
		h := x.heap(st, hClosed)
		st.heaps[hClosed] = mkStore(h, ch, mkOr(mkSelect(h, ch), fresh("v!mayclose", sBool)))
		return Val{}, st
	}
	I[vs+"Held"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: x.heap(st, hHeld)}, st
	}
	I[vs+"Locked"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		l := a[0].lv
		if l == nil {
			x.unsup("Locked of something that is not a field")
		}
		return Val{t: x.load(st, l)}, st
	}
	I[vs+"SentAt"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		el := fn.Signature.Results().At(0).Type()
		return Val{t: mkSelect(mkSelect(x.heap(st, chLog(el)), x.term(a[0])), x.term(a[1]))}, st
	}
	I["(github.com/kitex-contrib/xds/vspec.Set[K]).Has"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		it := a[0].it
		if it == nil && a[0].t != nil {
			it = iterTab[a[0].t]
		}
		if it == nil {
			x.unsup("Has on a non-iterator")
		}
		return Val{t: mkSelect(x.heap(st, it.key), x.term(a[1]))}, st
	}
	// ---- fmt, errors
	I["fmt.Sprintf"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: x.sprintf(st, x.term(a[0]), x.term(a[1]))}, st
	}
	newErr := func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		if x.pure > 0 {
			return Val{t: mkCtor(sIface, mkInt(errTag()), mkInt(-7))}, st
		}
		v := x.alloc(st)
		return Val{t: mkCtor(sIface, mkInt(errTag()), v)}, st
	}
	I["fmt.Errorf"] = newErr
	I["errors.New"] = newErr
	I["fmt.Sprint"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: x.havocVal(st, "sprint", types.Typ[types.String])}, st
	}
	I["strconv.Itoa"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkItoa(x.term(a[0]))}, st
	}
	// ---- strings
	for _, n := range []string{"HasPrefix", "HasSuffix", "Contains"} {
		n := n
		I["strings."+n] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
			return Val{t: mkStrFn(strings.ToLower(n), sBool, x.term(a[0]), x.term(a[1]))}, st
		}
	}
	I["strings.Split"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		v, _ := x.pureExtern(fr, st, "strings.Split", fn.Signature, a)
		s, sep := x.term(a[0]), x.term(a[1])
		if sep.op == "strlit" && len(sep.name) == 1 && len(s.fbv) == 0 {
			n := x.uf("ext!strings.Count", types.Typ[types.Int], []*Term{s, sep})
			x.assumeAlways(mkLe(mkInt(0), n))
			x.assumeAlways(mkEq(mkSel(v.t, 1), mkAdd(n, mkInt(1))))
			x.assumeAlways(mkEq(mkLe(mkInt(1), n), mkStrFn("contains", sBool, s, sep)))
			arr := mkSelect(x.heap(st, elemHeap(types.Typ[types.String])), mkSel(v.t, 0))
			var parts []*Term
			for i := int64(0); i < 5; i++ {
				e := mkSelect(arr, mkInt(i))
				if i > 0 {
					parts = append(parts, sep)
				}
				parts = append(parts, e)
				x.assumeAlways(mkImp(mkLe(mkInt(i), n), mkNot(mkStrFn("contains", sBool, e, sep))))
				x.assumeAlways(mkImp(mkEq(n, mkInt(i)), mkEq(s, mkCat(append([]*Term{}, parts...)...))))
			}
		}
		return v, st
	}
	I["strings.Count"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		v, _ := x.pureExtern(fr, st, "strings.Count", fn.Signature, a)
		s, sep := x.term(a[0]), x.term(a[1])
		if sep.op == "strlit" && len(sep.name) > 0 && len(s.fbv) == 0 {
			x.assumeAlways(mkLe(mkInt(0), v.t))
			x.assumeAlways(mkEq(mkLe(mkInt(1), v.t), mkStrFn("contains", sBool, s, sep)))
		}
		return v, st
	}
	I["strings.Join"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		l, sep := x.term(a[0]), x.term(a[1])
		if n := mkSel(l, 1); n.isInt() {
			arr := mkSelect(x.heap(st, elemHeap(types.Typ[types.String])), mkSel(l, 0))
			var ts []*Term
			for i := int64(0); i < n.i64(); i++ {
				if i > 0 {
					ts = append(ts, sep)
				}
				ts = append(ts, mkSelect(arr, mkInt(i)))
			}
			return Val{t: mkCat(ts...)}, st
		}
		v, _ := x.pureExtern(fr, st, "strings.Join", fn.Signature, a)
		return v, st
	}
	// ---- strings.Builder: the text so far
	sb := func(name string, text func(x *Ex, a []Val) *Term) {
		I["(*strings.Builder)."+name] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
			l := recvL(x, fn, a[0])
			t := text(x, a)
			x.store(st, l, mkCat(x.load(st, l), t))
			switch fn.Signature.Results().Len() {
			case 1:
				return Val{t: zeroOf(types.Universe.Lookup("error").Type())}, st
			}
			return Val{tup: []Val{{t: mkSlen(t)}, {t: zeroOf(types.Universe.Lookup("error").Type())}}}, st
		}
	}
	sb("WriteString", func(x *Ex, a []Val) *Term { return x.term(a[1]) })
	chr := func(x *Ex, a []Val) *Term {
		if t := x.term(a[1]); t.isInt() {
			return mkStr(string(rune(t.i64())))
		}
		return mkApp("chr", sStr, x.term(a[1]))
	}
	sb("WriteByte", chr)
	sb("WriteRune", chr)
	I["(*strings.Builder).String"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: x.load(st, recvL(x, fn, a[0]))}, st
	}
	I["(*strings.Builder).Len"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkSlen(x.load(st, recvL(x, fn, a[0])))}, st
	}
	I["(*strings.Builder).Reset"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		x.store(st, recvL(x, fn, a[0]), mkStr(""))
		return Val{}, st
	}
	I["(*strings.Builder).Grow"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		x.safe(st, "negative count for Grow", mkLe(mkInt(0), x.term(a[1])))
		return Val{}, st
	}
	I["strings.ToLower"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		r := mkStrFn("lower", sStr, x.term(a[0]))
		if r.op == "strf" {
			x.assumeAlways(mkEq(intern("strf", "lower", sStr, nil, nil, r), r))
		}
		return Val{t: r}, st
	}
	I["strings.EqualFold"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkEq(mkStrFn("lower", sStr, x.term(a[0])), mkStrFn("lower", sStr, x.term(a[1])))}, st
	}
	// ---- time
	I["time.Now"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		n := fresh("v!now", sInt)
		x.assumeAlways(mkLe(x.heap(st, hNow), n))
		x.assumeAlways(mkLe(mkInt(1), n))
		st.heaps[hNow] = n
		return Val{t: n}, st
	}
	I["time.Since"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		n := fresh("v!now", sInt)
		x.assumeAlways(mkLe(x.heap(st, hNow), n))
		st.heaps[hNow] = n
		return Val{t: mkSub(n, x.term(a[0]))}, st
	}
	I["(time.Time).Sub"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkSub(x.term(a[0]), x.term(a[1]))}, st
	}
	I["(time.Time).Add"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkAdd(x.term(a[0]), x.term(a[1]))}, st
	}
	I["(time.Time).After"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkLt(x.term(a[1]), x.term(a[0]))}, st
	}
	I["(time.Time).Before"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkLt(x.term(a[0]), x.term(a[1]))}, st
	}
	I["(time.Time).IsZero"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkEq(x.term(a[0]), mkInt(0))}, st
	}
	I["(time.Duration).Milliseconds"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: mkApp("durms", sInt, x.term(a[0]))}, st
	}
	// ---- durations: the value depends on the content of the message
	I["(*google.golang.org/protobuf/types/known/durationpb.Duration).AsDuration"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		p := x.term(a[0])
		rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		stt := rt.Underlying().(*types.Struct)
		var s, n *Term
		for i := 0; i < stt.NumFields(); i++ {
			switch stt.Field(i).Name() {
			case "Seconds":
				k, _ := fieldHeap(rt, []int{i})
				s = mkSelect(x.heap(st, k), p)
			case "Nanos":
				k, _ := fieldHeap(rt, []int{i})
				n = mkSelect(x.heap(st, k), p)
			}
		}
		z := mkEq(p, mkInt(0))
		return Val{t: mkIte(z, mkInt(0), mkApp("asduration", sInt, s, n))}, st
	}
	I["google.golang.org/protobuf/proto.Unmarshal"] = protoUnmarshal
	// ---- atomics
	I["(*sync/atomic.Value).Load"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		return Val{t: x.load(st, recvL(x, fn, a[0]))}, st
	}
	I["(*sync/atomic.Value).Store"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		l := recvL(x, fn, a[0])
		old := mkSel(x.load(st, l), 0)
		nv := x.term(a[1])
		tag := mkSel(nv, 0)
		x.safe(st, "atomic.Value.Store of nil or of an inconsistent type", mkAnd(mkNot(mkEq(tag, mkInt(0))), mkOr(mkEq(old, mkInt(0)), mkEq(old, tag))))
		x.store(st, l, nv)
		return Val{}, st
	}
	for _, p := range []string{"(*go.uber.org/atomic.Bool).", "(*sync/atomic.Bool)."} {
		I[p+"Load"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
			return Val{t: x.load(st, recvL(x, fn, a[0]))}, st
		}
		I[p+"Store"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
			x.store(st, recvL(x, fn, a[0]), x.term(a[1]))
			return Val{}, st
		}
		cas := func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
			l := recvL(x, fn, a[0])
			cur := x.load(st, l)
			ok := mkEq(cur, x.term(a[1]))
			x.store(st, l, mkIte(ok, x.term(a[2]), cur))
			return Val{t: ok}, st
		}
		I[p+"CompareAndSwap"] = cas
		I[p+"CAS"] = cas
		I[p+"Swap"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
			l := recvL(x, fn, a[0])
			cur := x.load(st, l)
			x.store(st, l, x.term(a[1]))
			return Val{t: cur}, st
		}
	}
	// ---- sync
	I["(*sync.Once).Do"] = func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
		l := recvL(x, fn, a[0])
		done := x.load(st, l)
		s1, s2 := st.clone(), st.clone()
		s1.pc = mkAnd(st.pc, mkNot(done))
		s2.pc = mkAnd(st.pc, done)
		if s1.pc != tFalse {
			x.store(s1, l, tTrue)
			f := x.term(a[1])
			cl := closureOf(f)
			if cl == nil {
				x.unsup("Once.Do of an unknown function")
			}
			_, s1 = x.callFn(cl.fn, nil, cl.bind, s1, fr)
		}
		m, _ := x.merge([]*State{s1, s2})
		return Val{}, m
	}
	lock := func(mode int64) intrinsic {
		return func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
			return Val{}, x.lockOp(st, recvL(x, fn, a[0]), mode, true)
		}
	}
	unlock := func(mode int64) intrinsic {
		return func(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
			return Val{}, x.lockOp(st, recvL(x, fn, a[0]), mode, false)
		}
	}
	I["(*sync.Mutex).Lock"] = lock(2)
	I["(*sync.Mutex).Unlock"] = unlock(2)
	I["(*sync.RWMutex).Lock"] = lock(2)
	I["(*sync.RWMutex).Unlock"] = unlock(2)
	I["(*sync.RWMutex).RLock"] = lock(1)
	I["(*sync.RWMutex).RUnlock"] = unlock(1)
	// ---- maths
	I["math.Max"] = nil
	delete(I, "math.Max")
}

func errTag() int64 { return int64(typeTag(types.NewPointer(errNamed))) }

var errNamed = types.NewNamed(types.NewTypeName(0, types.NewPackage("govc/err", "err"), "errorString", nil), types.NewStruct(nil, nil), nil)

func unboxVal(t *Term) *Term {
	if t.sort == sIface {
		return mkSel(t, 1)
	}
	return t
}

// unboxAny turns an interface term with known payload into the payload
func unboxAny(t *Term) *Term {
	if t.sort == sIface && t.op == "ctor" {
		v := t.args[1]
		if r := stripBox(v); r != nil {
			return r
		}
		if t.args[0].isInt() && t.args[0].i64() > 0 {
			return v
		}
	}
	return t
}

// stripBox removes the boxes at the leaves of a term
func stripBox(v *Term) *Term {
	switch v.op {
	case "box":
		return v.args[0]
	case "ite":
		a, b := stripBox(v.args[1]), stripBox(v.args[2])
		if a != nil && b != nil && a.sort == b.sort {
			return mkIte(v.args[0], a, b)
		}
	}
	return nil
}

func (x *Ex) varargs(st *State, s *Term) []*Term {
	n := mkSel(s, 1)
	if !n.isInt() {
		x.unsup("varargs of unknown length")
	}
	k := elemHeap(types.NewInterfaceType(nil, nil))
	// the element type of ...interface{} / ...any
	var out []*Term
	for i := int64(0); i < n.i64(); i++ {
		out = append(out, mkSelect(mkSelect(x.heap(st, anyElemKey(k)), mkSel(s, 0)), mkInt(i)))
	}
	return out
}

func anyElemKey(k string) string {
	if _, ok := heapTab["E!any"]; ok {
		return "E!any"
	}
	return k
}

// uf applies an uninterpreted function whose result has the type rt (references are older than the harness)
var appBelow = map[string]bool{}

func (x *Ex) uf(name string, rt types.Type, args []*Term) *Term {
	// overloads by argument sorts
	for _, a := range args {
		name += "!" + sanitize(a.sort.name)
	}
	s := sortOf(rt)
	t := mkApp(name, s, args...)
	defer func() {
		if isRefSort(rt) {
			appBelow[name] = true
		}
	}()
	if _, ok := funAxioms[name]; !ok {
		var vs []*Term
		for i, a := range args {
			vs = append(vs, mkBvar(fmt.Sprintf("a%d", i), a.sort))
		}
		g := mkApp(name, s, vs...)
		inv := typeInv(g, rt, mkConst("next!0", sInt))
		if inv == tTrue {
			funAxioms[name] = nil
		} else if len(vs) == 0 {
			funAxioms[name] = []*Term{inv}
		} else {
			funAxioms[name] = []*Term{forallPat(vs, inv, g)}
		}
	}
	return t
}

func mkItoa(t *Term) *Term {
	if t.isInt() {
		return mkStr(t.n.String())
	}
	return mkStrFn("itoa", sStr, t)
}

func (x *Ex) sprintf(st *State, f, va *Term) *Term {
	if f.op != "strlit" || !mkSel(va, 1).isInt() {
		return mkApp("sprintf", sStr, f, va)
	}
	args := x.varargs(st, va)
	var out []*Term
	s := f.name
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, mkStr(string(s[i])))
			continue
		}
		i++
		if i >= len(s) {
			break
		}
		if s[i] == '%' {
			out = append(out, mkStr("%"))
			continue
		}
		if ai >= len(args) {
			return mkApp("sprintf", sStr, f, va)
		}
		a := args[ai]
		ai++
		tag, v := mkSel(a, 0), mkSel(a, 1)
		if tag.isInt() && tag.i64() > 0 && int(tag.i64()) < len(tagTypes) && (s[i] == 's' || s[i] == 'd' || s[i] == 'v') {
			t := tagTypes[tag.i64()]
			if b, ok := t.Underlying().(*types.Basic); ok && types.NewMethodSet(t).Len() == 0 {
				if b.Info()&types.IsString != 0 && s[i] != 'd' {
					out = append(out, mkUnbox(t, v))
					continue
				}
				if b.Info()&types.IsInteger != 0 && s[i] != 's' {
					out = append(out, mkItoa(mkUnbox(t, v)))
					continue
				}
			}
		}
		out = append(out, mkApp("fmt!"+string(s[i]), sStr, a))
	}
	return mkCat(out...)
}

// ---------------------------------------------------------------- pure dependency functions

var purePrefix = []string{
	"strings.", "strconv.", "unicode.", "math.", "path.", "regexp.", "(*regexp.Regexp).MatchString", "(*regexp.Regexp).String",
	"(time.Duration).", "time.Duration",
	"(*google.golang.org/protobuf/types/known/", "slices.Contains", "net.JoinHostPort", "net.ParseIP",
	"(error).Error", "(github.com/cloudwego/kitex/pkg/rpcinfo.Invocation).", "(github.com/cloudwego/kitex/pkg/rpcinfo.RPCInfo).",
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCConfig).", "(github.com/cloudwego/kitex/pkg/rpcinfo.EndpointInfo).",
	"(net.Addr).", "(context.Context).Done", "(google.golang.org/protobuf/reflect/protoreflect.", "(*errors", "errors.Is",
	"(github.com/cloudwego/kitex/pkg/kerrors.ErrBasic).", "fmt.Sprint",
}

func (x *Ex) pureExtern(fr *Frame, st *State, name string, sig *types.Signature, args []Val) (Val, bool) {
	ok := false
	for _, p := range purePrefix {
		if strings.HasPrefix(name, p) {
			ok = true
		}
	}
	if !ok {
		for _, p := range x.prog.pureNames {
			if strings.HasPrefix(name, p) {
				ok = true
			}
		}
	}
	if !ok {
		return Val{}, false
	}
	var ts []*Term
	for _, a := range args {
		t := x.term(a)
		if t.sort == sSlice {
			// depend on the content of byte and string slices
			ts = append(ts, t)
			continue
		}
		ts = append(ts, t)
	}
	x.used["pure "+name] = true
	n := sig.Results().Len()
	var vs []Val
	for i := 0; i < n; i++ {
		nm := "ext!" + name
		if n > 1 {
			nm += fmt.Sprintf("#%d", i)
		}
		vs = append(vs, Val{t: x.uf(nm, sig.Results().At(i).Type(), ts)})
	}
	switch n {
	case 0:
		return Val{}, true
	case 1:
		return vs[0], true
	}
	return Val{tup: vs}, true
}

// ---------------------------------------------------------------- protobuf

func isProtoPkg(p string) bool {
	return strings.Contains(p, "envoyproxy/go-control-plane") || strings.Contains(p, "google.golang.org/protobuf") ||
		strings.Contains(p, "istio_networking_nds_v1") || strings.Contains(p, "google.golang.org/genproto") || strings.Contains(p, "cncf/xds") ||
		strings.Contains(p, "udpa/go")
}

// oneofField finds the interface field of msg and the wrapper type for a oneof member
func oneofField(named *types.Named, member string) (int, *types.Named) {
	st := named.Underlying().(*types.Struct)
	obj := named.Obj().Pkg().Scope().Lookup(named.Obj().Name() + "_" + member)
	if obj == nil {
		obj = named.Obj().Pkg().Scope().Lookup(named.Obj().Name() + "_" + member + "_")
	}
	if obj == nil {
		return -1, nil
	}
	w, ok := obj.Type().(*types.Named)
	if !ok {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		it, ok := st.Field(i).Type().Underlying().(*types.Interface)
		if ok && types.Implements(types.NewPointer(w), it) {
			return i, w
		}
	}
	return -1, nil
}

func (x *Ex) protoGetter(fr *Frame, st *State, fn *ssa.Function, args []Val) (Val, bool) {
	recv := fn.Signature.Recv()
	if recv == nil || !strings.HasPrefix(fn.Name(), "Get") || fn.Signature.Params().Len() != 0 {
		return Val{}, false
	}
	pt, ok := recv.Type().(*types.Pointer)
	if !ok {
		return Val{}, false
	}
	named, ok := pt.Elem().(*types.Named)
	if !ok || named.Obj().Pkg() == nil || !isProtoPkg(named.Obj().Pkg().Path()) {
		return Val{}, false
	}
	stt, ok := named.Underlying().(*types.Struct)
	if !ok {
		return Val{}, false
	}
	x.used["proto getters"] = true
	fld := fn.Name()[3:]
	p := x.term(args[0])
	nilp := mkEq(p, mkInt(0))
	rt := fn.Signature.Results().At(0).Type()
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == fld {
			ft := stt.Field(i).Type()
			v := x.load(st, &LVal{kind: 'f', root: named, ref: p, path: []int{i}})
			if pf, ok := ft.(*types.Pointer); ok && !types.Identical(ft, rt) {
				// optional scalar
				c := mkSelect(x.heap(st, cellHeap(pf.Elem())), v)
				return Val{t: mkIte(mkOr(nilp, mkEq(v, mkInt(0))), zeroOf(rt), c)}, true
			}
			return Val{t: mkIte(nilp, zeroOf(rt), v)}, true
		}
	}
	if i, w := oneofField(named, fld); i >= 0 {
		v := x.load(st, &LVal{kind: 'f', root: named, ref: p, path: []int{i}})
		is := mkEq(mkSel(v, 0), mkInt(int64(typeTag(types.NewPointer(w)))))
		inner := x.load(st, &LVal{kind: 'f', root: w, ref: mkSel(v, 1), path: []int{0}})
		return Val{t: mkIte(mkAnd(mkNot(nilp), is), inner, zeroOf(rt))}, true
	}
	return Val{}, false
}

// protoUnmarshal: on success the message has the fields of the message the bytes encode; the encoded
// message is a (shared, immutable) object that is determined by the bytes.
func protoUnmarshal(x *Ex, fr *Frame, st *State, fn *ssa.Function, a []Val) (Val, *State) {
	if x.pure > 0 {
		x.unsup("proto.Unmarshal in a specification")
	}
	b, m := x.term(a[0]), x.term(a[1])
	tag := mkSel(m, 0)
	if !tag.isInt() || tag.i64() <= 0 || int(tag.i64()) >= len(tagTypes) {
		x.unsup("proto.Unmarshal into an unknown message type")
	}
	pt := tagTypes[tag.i64()].Underlying().(*types.Pointer)
	named := types.Unalias(pt.Elem())
	key, bad, canon := x.canon(st, b, named)
	_ = key
	ref := mkSel(m, 1)
	x.safe(st, "proto.Unmarshal into nil", mkNot(mkEq(ref, mkInt(0))))
	stt := named.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if isProtoInternal(stt.Field(i).Name()) {
			continue
		}
		k, ft := fieldHeap(named, []int{i})
		h := x.heap(st, k)
		good := mkSelect(x.baseHeap(k, "0", mkConst("next!0", sInt)), canon)
		part := x.havocVal(st, "partial", ft)
		st.heaps[k] = mkStore(h, ref, mkIte(bad, part, good))
	}
	x.used["proto.Unmarshal"] = true
	e := x.alloc(st)
	err := mkIte(bad, mkCtor(sIface, mkInt(errTag()), e), zeroSort(sIface))
	return Val{t: err}, st
}

// canon returns the decoded message of the bytes and whether decoding fails
func (x *Ex) canon(st *State, b *Term, named types.Type) (key, bad, ref *Term) {
	k := elemHeap(types.Typ[types.Uint8])
	key = mkApp("bytes2str", sStr, mkSelect(x.heap(st, k), mkSel(b, 0)), mkSel(b, 1))
	bad = mkApp("protoerr!"+tstr(named), sBool, key)
	name := "canon!" + tstr(named)
	ref = mkApp(name, sInt, key)
	if _, ok := funAxioms[name]; !ok {
		defer func() { appBelow[name] = true }()
		q := mkBvar("a0", sStr)
		g := mkApp(name, sInt, q)
		funAxioms[name] = []*Term{forallPat([]*Term{q}, mkAnd(intern("<=", "", sBool, nil, nil, mkInt(1), g), intern("<=", "", sBool, nil, nil, mkAdd(g, mkInt(1)), mkConst("next!0", sInt))), g)}
	}
	return
}
