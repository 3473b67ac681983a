package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Ex) havocVal(st *State, name string, t types.Type) *Term {
	v := fresh("v!"+name, sortOf(t))
	n := x.next(st)
	inv := typeInv(v, t, n)
	x.assumeAlways(inv)
	if isRefSort(t) {
		below[v] = n
	}
	return v
}

// assumeAlways adds a fact that holds by construction (typing of a fresh symbol)
func (x *Ex) assumeAlways(t *Term) {
	if t == tTrue {
		return
	}
	if len(t.fbv) > 0 {
		return
	}
	x.ass = append(x.ass, t)
}

func isRefSort(t types.Type) bool {
	if opaqueSort(types.Unalias(t)) != nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Slice:
		return true
	}
	return false
}

// bumpNext lets the environment allocate objects
func (x *Ex) bumpNext(st *State) {
	n := x.next(st)
	nn := fresh("next", sInt)
	nextGE[nn] = n
	x.assumeAlways(mkLeRaw(n, nn))
	st.heaps["next"] = nn
}

func mkLeRaw(a, b *Term) *Term { return intern("<=", "", sBool, nil, nil, a, b) }

func (x *Ex) havocResults(st *State, name string, res *types.Tuple) Val {
	if res.Len() == 0 {
		return Val{}
	}
	ref := false
	for i := 0; i < res.Len(); i++ {
		if isRefSort(res.At(i).Type()) {
			ref = true
		}
	}
	if ref {
		x.bumpNext(st)
	}
	var vs []Val
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, Val{t: x.havocVal(st, name, res.At(i).Type())})
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return Val{tup: vs}
}

func (x *Ex) nilCheck(st *State, v Val, what string) {
	if v.lv != nil {
		return
	}
	x.safe(st, "nil dereference of "+what, mkNot(mkEq(v.t, mkInt(0))))
}

func (x *Ex) instr(fr *Frame, st *State, in ssa.Instruction) *State {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := i.Type().Underlying().(*types.Pointer).Elem()
		fr.vals[i] = Val{t: x.newObj(st, el)}
	case *ssa.BinOp:
		a, b := x.tv(fr, st, i.X), x.tv(fr, st, i.Y)
		fr.vals[i] = Val{t: x.binop(st, i.Op, a, b, i.X.Type(), i.Y.Type(), i.Type())}
	case *ssa.UnOp:
		st = x.unop(fr, st, i)
	case *ssa.ChangeType:
		fr.vals[i] = x.val(fr, st, i.X)
	case *ssa.ChangeInterface:
		fr.vals[i] = x.val(fr, st, i.X)
	case *ssa.Convert:
		fr.vals[i] = Val{t: x.convert(st, x.tv(fr, st, i.X), i.X.Type(), i.Type())}
	case *ssa.MakeInterface:
		fr.vals[i] = Val{t: mkIface(i.X.Type(), x.tv(fr, st, i.X))}
	case *ssa.TypeAssert:
		fr.vals[i] = x.typeAssert(st, x.tv(fr, st, i.X), i)
	case *ssa.Extract:
		tv := x.val(fr, st, i.Tuple)
		if tv.tup == nil {
			x.unsup("extract of a non-tuple")
		}
		fr.vals[i] = tv.tup[i.Index]
	case *ssa.Field:
		fr.vals[i] = Val{t: mkSel(x.tv(fr, st, i.X), i.Field)}
	case *ssa.FieldAddr:
		v := x.val(fr, st, i.X)
		st0 := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		x.nilCheck(st, v, st0.Field(i.Field).Name())
		l := x.lval(v, i.X.Type())
		fr.vals[i] = Val{lv: &LVal{kind: l.kind, root: l.root, ref: l.ref, idx: l.idx, path: append(append([]int{}, l.path...), i.Field)}}
	case *ssa.IndexAddr:
		xv := x.val(fr, st, i.X)
		idx := x.tv(fr, st, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(xv)
			x.safe(st, "index out of range", mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkSel(s, 1))))
			fr.vals[i] = Val{lv: &LVal{kind: 'e', root: types.Unalias(u.Elem()), ref: mkSel(s, 0), idx: idx}}
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			l := x.lval(xv, i.X.Type())
			if l.kind != 'a' {
				x.unsup("index of nested array")
			}
			x.safe(st, "index out of range", mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkInt(a.Len()))))
			fr.vals[i] = Val{lv: &LVal{kind: 'e', root: types.Unalias(a.Elem()), ref: l.ref, idx: idx}}
		default:
			x.unsup("IndexAddr %s", i.X.Type())
		}
	case *ssa.Index:
		a, idx := x.tv(fr, st, i.X), x.tv(fr, st, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			x.safe(st, "index out of range", mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkInt(u.Len()))))
			fr.vals[i] = Val{t: mkSelect(a, idx)}
		case *types.Basic:
			x.safe(st, "string index out of range", mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkSlen(a))))
			fr.vals[i] = Val{t: mkStrFn("at", sInt, a, idx)}
		default:
			x.unsup("Index %s", i.X.Type())
		}
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			a, idx := x.tv(fr, st, i.X), x.tv(fr, st, i.Index)
			x.safe(st, "string index out of range", mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkSlen(a))))
			fr.vals[i] = Val{t: mkStrFn("at", sInt, a, idx)}
			break
		}
		m, k := x.tv(fr, st, i.X), x.tv(fr, st, i.Index)
		x.guardMap(st, m, false)
		d, v, mt := mapHeaps(i.X.Type())
		ok := mkSelect(mkSelect(x.heap(st, d), m), k)
		val := mkIte(ok, mkSelect(mkSelect(x.heap(st, v), m), k), zeroOf(mt.Elem()))
		x.inheritGuard(m, mkSelect(mkSelect(x.heap(st, v), m), k), mt.Elem())
		x.inheritGuard(m, val, mt.Elem())
		if i.CommaOk {
			fr.vals[i] = Val{tup: []Val{{t: val}, {t: ok}}}
		} else {
			fr.vals[i] = Val{t: val}
		}
	case *ssa.MapUpdate:
		m, k, v := x.tv(fr, st, i.Map), x.tv(fr, st, i.Key), x.tv(fr, st, i.Value)
		x.safe(st, "assignment to entry in nil map", mkNot(mkEq(m, mkInt(0))))
		x.guardMap(st, m, true)
		x.mapPut(st, i.Map.Type(), m, k, v)
	case *ssa.MakeMap:
		m := x.alloc(st)
		d, _, mt := mapHeaps(i.Type())
		st.heaps[d] = mkStore(x.heap(st, d), m, mkConstArr(sortOf(mt.Key()), tFalse))
		fr.vals[i] = Val{t: m}
	case *ssa.MakeSlice:
		n := x.tv(fr, st, i.Len)
		x.safe(st, "makeslice: len out of range", mkLe(mkInt(0), n))
		el := types.Unalias(i.Type().Underlying().(*types.Slice).Elem())
		a := x.alloc(st)
		k := elemHeap(el)
		st.heaps[k] = mkStore(x.heap(st, k), a, mkConstArr(sInt, zeroOf(el)))
		fr.vals[i] = Val{t: mkCtor(sSlice, a, n)}
	case *ssa.MakeChan:
		c := x.alloc(st)
		st.heaps[hClosed] = mkStore(x.heap(st, hClosed), c, tFalse)
		st.heaps[hSent] = mkStore(x.heap(st, hSent), c, mkInt(0))
		st.heaps[hRecv] = mkStore(x.heap(st, hRecv), c, mkInt(0))
		st.heaps[hChCap] = mkStore(x.heap(st, hChCap), c, x.tv(fr, st, i.Size))
		fr.vals[i] = Val{t: c}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		fr.vals[i] = Val{t: closureTerm(i.Fn.(*ssa.Function), bs)}
	case *ssa.Slice:
		fr.vals[i] = x.slice(fr, st, i)
	case *ssa.Store:
		p := x.val(fr, st, i.Addr)
		x.nilCheck(st, p, "store target")
		l := x.lval(p, i.Addr.Type())
		x.store(st, l, x.term(x.val(fr, st, i.Val)))
	case *ssa.Range:
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			x.unsup("range over %s", i.X.Type())
		}
		m := x.tv(fr, st, i.X)
		d, _, mt := mapHeaps(i.X.Type())
		ks := sortOf(mt.Key())
		key := fmt.Sprintf("vis!%d", len(heapTab))
		heapTab[key] = &heapInfo{sort: arraySort(ks, sBool), dim: 0, raw: true}
		st.heaps[key] = mkConstArr(ks, tFalse)
		x.guardMap(st, m, false)
		fr.vals[i] = Val{it: &Iter{mapT: i.X.Type(), ref: m, start: mkSelect(x.heap(st, d), m), key: key}}
	case *ssa.Next:
		if i.IsString {
			x.unsup("range over string")
		}
		if x.pure > 0 {
			x.unsup("map iteration in a specification")
		}
		it := x.val(fr, st, i.Iter).it
		d, v, mt := mapHeaps(it.mapT)
		x.guardMap(st, it.ref, false)
		ks := sortOf(mt.Key())
		ok := fresh("v!ok", sBool)
		k := x.havocVal(st, "key", mt.Key())
		dom := mkSelect(x.heap(st, d), it.ref)
		vis := st.heaps[it.key]
		x.assume(st, mkImp(ok, mkAnd(mkSelect(dom, k), mkNot(mkSelect(vis, k)))))
		q := mkBvar("k", ks)
		x.assume(st, mkImp(mkNot(ok), mkForall([]*Term{q}, mkImp(mkAnd(mkSelect(dom, q), mkSelect(it.start, q)), mkSelect(vis, q)))))
		st.heaps[it.key] = mkIte(ok, mkStore(vis, k, tTrue), vis)
		val := mkSelect(mkSelect(x.heap(st, v), it.ref), k)
		x.inheritGuard(it.ref, val, mt.Elem())
		fr.vals[i] = Val{tup: []Val{{t: ok}, {t: k}, {t: val}}}
	case *ssa.Call:
		pc := st.pc
		r, ns := x.call(fr, st, &i.Call, i)
		if ns.pc != pc {
			fr.died = true
		}
		st = ns
		if st.pc != tFalse {
			fr.vals[i] = r
		}
	case *ssa.Defer:
		rec := &deferRec{pc: st.pc, call: &i.Call, instr: i}
		if !i.Call.IsInvoke() {
			if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				rec.fnv = x.val(fr, st, i.Call.Value)
			}
		} else {
			rec.fnv = x.val(fr, st, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			rec.args = append(rec.args, x.val(fr, st, a))
		}
		fr.defs = append(fr.defs, rec)
	case *ssa.RunDefers:
		for k := len(fr.defs) - 1; k >= 0; k-- {
			d := fr.defs[k]
			// the defer statement was reached iff its path condition holds
			g := relPC(d.pc, fr.entry)
			switch implied(st.pc, true, g) {
			case 1:
				g = tTrue
			case -1:
				g = tFalse
			}
			if g == tTrue {
				pc := st.pc
				_, st = x.callVals(fr, st, d.call, d.fnv, d.args, d.instr)
				if st.pc != pc {
					fr.died = true
				}
			} else if g != tFalse {
				a, b := st.clone(), st.clone()
				a.pc, b.pc = mkAnd(st.pc, g), mkAnd(st.pc, mkNot(g))
				_, a = x.callVals(fr, a, d.call, d.fnv, d.args, d.instr)
				st, _ = x.merge([]*State{a, b})
			}
		}
	case *ssa.Go:
		x.goStmt(fr, st, i)
	case *ssa.Send:
		st = x.send(fr, st, x.tv(fr, st, i.Chan), x.tv(fr, st, i.X), i.Chan.Type(), i.X.Type())
	case *ssa.Select:
		st = x.sel(fr, st, i)
	default:
		x.unsup("instruction %T", in)
	}
	return st
}

// relPC removes the conjuncts of base from pc
func relPC(pc, base *Term) *Term {
	in := map[*Term]bool{}
	for _, c := range conjuncts(base) {
		in[c] = true
	}
	var out []*Term
	for _, c := range conjuncts(pc) {
		if !in[c] {
			out = append(out, c)
		}
	}
	return mkAnd(out...)
}

func (x *Ex) mapPut(st *State, mt types.Type, m, k, v *Term) {
	d, vh, _ := mapHeaps(mt)
	dh, vv := x.heap(st, d), x.heap(st, vh)
	st.heaps[d] = mkStore(dh, m, mkStore(mkSelect(dh, m), k, tTrue))
	st.heaps[vh] = mkStore(vv, m, mkStore(mkSelect(vv, m), k, v))
}

func (x *Ex) mapDelete(st *State, mt types.Type, m, k *Term) {
	d, _, _ := mapHeaps(mt)
	dh := x.heap(st, d)
	// deleting from a nil map is a no-op: its domain is empty anyway
	st.heaps[d] = mkStore(dh, m, mkStore(mkSelect(dh, m), k, tFalse))
}

func mkCard(dom *Term) *Term {
	if dom.op == "constarr" && dom.args[0] == tFalse {
		return mkInt(0)
	}
	if dom.op == "ite" {
		return mkIte(dom.args[0], mkCard(dom.args[1]), mkCard(dom.args[2]))
	}
	c := intern("card", "", sInt, nil, nil, dom)
	if len(c.fbv) == 0 {
		if _, ok := symAxioms[c]; !ok {
			k := mkBvar("k", dom.sort.k)
			z := mkForall([]*Term{k}, mkNot(mkSelect(dom, k)))
			symAxioms[c] = []*Term{mkAnd(mkLeRaw(mkInt(0), c), mkEq(mkEq(c, mkInt(0)), z))}
		}
	}
	return c
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// wrap reduces v into the range of the integer type (int and int64 are treated as mathematical integers)
func wrap(v *Term, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return v
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return v
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.isInt() && v.n.Cmp(lo) >= 0 && v.n.Cmp(hi) <= 0 {
		return v
	}
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	in := mkAnd(mkLe(mkBig(lo), v), mkLe(v, mkBig(hi)))
	w := mkDivMod("mod", mkSub(v, mkBig(lo)), mkBig(mod))
	return mkIte(in, v, mkAdd(w, mkBig(lo)))
}

func (x *Ex) binop(st *State, op token.Token, a, b *Term, ta, tb, tr types.Type) *Term {
	s := a.sort
	switch op {
	case token.EQL, token.NEQ:
		if a.sort != b.sort {
			// interface compared with a concrete value is converted by go/ssa
			x.unsup("comparison of %s and %s", a.sort.name, b.sort.name)
		}
		var e *Term
		if s == sSlice { // only with nil
			e = mkEq(mkSel(a, 0), mkSel(b, 0))
		} else if s == sFlt {
			if a == b && a.op == "const" {
				e = tTrue
			} else {
				e = mkApp("feq", sBool, ordered(a, b)...)
			}
		} else {
			e = mkEq(a, b)
		}
		if op == token.NEQ {
			return mkNot(e)
		}
		return e
	}
	if s == sStr {
		switch op {
		case token.ADD:
			return mkCat(a, b)
		case token.LSS:
			return mkStrFn("lt", sBool, a, b)
		case token.GTR:
			return mkStrFn("lt", sBool, b, a)
		case token.LEQ:
			return mkNot(mkStrFn("lt", sBool, b, a))
		case token.GEQ:
			return mkNot(mkStrFn("lt", sBool, a, b))
		}
	}
	if s == sFlt {
		switch op {
		case token.LSS:
			return mkApp("flt", sBool, a, b)
		case token.GTR:
			return mkApp("flt", sBool, b, a)
		case token.LEQ:
			return mkApp("fle", sBool, a, b)
		case token.GEQ:
			return mkApp("fle", sBool, b, a)
		case token.ADD:
			return mkApp("fadd", sFlt, ordered(a, b)...)
		case token.MUL:
			return mkApp("fmul", sFlt, ordered(a, b)...)
		case token.SUB:
			return mkApp("fsub", sFlt, a, b)
		case token.QUO:
			return mkApp("fdiv", sFlt, a, b)
		}
	}
	if s == sBool {
		switch op {
		case token.AND, token.LAND:
			return mkAnd(a, b)
		case token.OR, token.LOR:
			return mkOr(a, b)
		}
	}
	switch op {
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkLe(b, a)
	case token.ADD:
		return wrap(mkAdd(a, b), tr)
	case token.SUB:
		return wrap(mkSub(a, b), tr)
	case token.MUL:
		return wrap(mkMul(a, b), tr)
	case token.QUO, token.REM:
		x.safe(st, "division by zero", mkNot(mkEq(b, mkInt(0))))
		return quoRem(op, a, b, isUnsigned(ta))
	case token.SHL:
		if b.isInt() && b.n.IsInt64() && b.i64() < 64 && b.i64() >= 0 {
			return wrap(mkMul(a, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(b.i64())))), tr)
		}
	case token.SHR:
		if b.isInt() && b.n.IsInt64() && b.i64() < 64 && b.i64() >= 0 {
			return mkDivMod("div", a, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(b.i64()))))
		}
	}
	r := mkApp("bit"+sanitize(op.String())+fmt.Sprint(int(op)), sInt, a, b)
	x.assumeAlways(inRange(tr, r))
	return r
}

func quoRem(op token.Token, a, b *Term, unsigned bool) *Term {
	if unsigned || (nonneg(a) && b.isInt()) {
		if op == token.QUO {
			return mkDivMod("div", a, b)
		}
		return mkDivMod("mod", a, b)
	}
	// truncated division
	pos := mkLe(mkInt(0), a)
	var q *Term
	if b.isInt() && b.n.Sign() > 0 {
		q = mkIte(pos, mkDivMod("div", a, b), mkNeg(mkDivMod("div", mkNeg(a), b)))
	} else {
		q = mkApp("quo", sInt, a, b)
	}
	if op == token.QUO {
		return q
	}
	return mkSub(a, mkMul(b, q))
}

func ordered(a, b *Term) []*Term {
	if a.id > b.id {
		a, b = b, a
	}
	return []*Term{a, b}
}

func (x *Ex) unop(fr *Frame, st *State, i *ssa.UnOp) *State {
	switch i.Op {
	case token.MUL:
		p := x.val(fr, st, i.X)
		x.nilCheck(st, p, "load")
		l := x.lval(p, i.X.Type())
		t := x.load(st, l)
		x.guardFromLoad(t, l)
		fr.vals[i] = Val{t: t}
	case token.NOT:
		fr.vals[i] = Val{t: mkNot(x.tv(fr, st, i.X))}
	case token.SUB:
		a := x.tv(fr, st, i.X)
		if a.sort == sFlt {
			fr.vals[i] = Val{t: mkApp("fneg", sFlt, a)}
		} else {
			fr.vals[i] = Val{t: wrap(mkNeg(a), i.Type())}
		}
	case token.XOR:
		fr.vals[i] = Val{t: mkApp("bitnot", sInt, x.tv(fr, st, i.X))}
	case token.ARROW:
		return x.recv(fr, st, i)
	}
	return st
}

func (x *Ex) convert(st *State, v *Term, from, to types.Type) *Term {
	sf, s := sortOf(from), sortOf(to)
	fu, tu := from.Underlying(), to.Underlying()
	if sf == sInt && s == sInt {
		_, fb := fu.(*types.Basic)
		_, tb := tu.(*types.Basic)
		if fb && tb {
			// widening keeps the value
			lo, hi, ok := intRange(to)
			lf, hf, ok2 := intRange(from)
			if ok && ok2 && lo.Cmp(lf) <= 0 && hf.Cmp(hi) <= 0 {
				return v
			}
			if ok {
				mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
				if v.isInt() && v.n.Cmp(lo) >= 0 && v.n.Cmp(hi) <= 0 {
					return v
				}
				in := mkAnd(mkLe(mkBig(lo), v), mkLe(v, mkBig(hi)))
				return mkIte(in, v, mkAdd(mkDivMod("mod", mkSub(v, mkBig(lo)), mkBig(mod)), mkBig(lo)))
			}
		}
		return v
	}
	if sf == s && sf != sSlice {
		return v
	}
	switch {
	case sf == sInt && s == sFlt:
		return mkApp("i2f", sFlt, v)
	case sf == sFlt && s == sInt:
		r := mkApp("f2i", sInt, v)
		x.assumeAlways(inRange(to, r))
		return r
	case sf == sSlice && s == sStr:
		// the string depends on the bytes
		k := elemHeap(types.Typ[types.Uint8])
		c, n := mkSelect(x.heap(st, k), mkSel(v, 0)), mkSel(v, 1)
		if c.op == "app" && c.name == "str2bytes" && n == mkSlen(c.args[0]) {
			return c.args[0]
		}
		return mkApp("bytes2str", sStr, c, n)
	case sf == sStr && s == sSlice:
		k := elemHeap(types.Typ[types.Uint8])
		a := x.alloc(st)
		c := mkApp("str2bytes", arraySort(sInt, sInt), v)
		st.heaps[k] = mkStore(x.heap(st, k), a, c)
		return mkCtor(sSlice, a, mkSlen(v))
	case sf == sSlice && s == sSlice:
		return v
	case sf == sInt && s == sStr:
		return mkApp("rune2str", sStr, v)
	}
	x.unsup("convert %s to %s", from, to)
	return nil
}

func (x *Ex) implements(tag *Term, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	if tag.isInt() {
		n := tag.i64()
		if n == 0 {
			return tFalse
		}
		if n < 0 || int(n) >= len(tagTypes) {
			return mkApp("impl!"+tstr(it), sBool, tag)
		}
		return mkBool(types.Implements(tagTypes[n], iface))
	}
	if tag.op == "ite" {
		return mkIte(tag.args[0], x.implements(tag.args[1], it), x.implements(tag.args[2], it))
	}
	if iface.NumMethods() == 0 {
		return mkNot(mkEq(tag, mkInt(0)))
	}
	r := mkApp("impl!"+tstr(it), sBool, tag)
	x.assumeAlways(mkImp(r, mkNot(mkEq(tag, mkInt(0)))))
	return r
}

func (x *Ex) typeAssert(st *State, v *Term, i *ssa.TypeAssert) Val {
	tag, val := mkSel(v, 0), mkSel(v, 1)
	var ok, res *Term
	if _, is := i.AssertedType.Underlying().(*types.Interface); is {
		ok = x.implements(tag, i.AssertedType)
		// the static type may already imply it
		if types.Implements(i.X.Type(), i.AssertedType.Underlying().(*types.Interface)) {
			ok = mkNot(mkEq(tag, mkInt(0)))
		}
		res = v
	} else {
		ok = mkEq(tag, mkInt(int64(typeTag(i.AssertedType))))
		res = mkUnbox(i.AssertedType, val)
		if isPtrLike(i.AssertedType) {
			x.assumeOpen(mkImp(ok, mkLe(mkInt(0), val)))
		} else {
			x.assumeOpen(mkImp(ok, typeInv(res, i.AssertedType, x.next(st))))
		}
	}
	if i.CommaOk {
		r := mkIte(ok, res, zeroOf(i.AssertedType))
		return Val{tup: []Val{{t: r}, {t: ok}}}
	}
	x.safe(st, "failed type assertion to "+types.TypeString(i.AssertedType, nil), ok)
	return Val{t: res}
}

func (x *Ex) assumeOpen(t *Term) {
	if len(t.fbv) > 0 {
		return
	}
	x.assumeAlways(t)
}

func (x *Ex) slice(fr *Frame, st *State, i *ssa.Slice) Val {
	var lo, hi *Term
	lo = mkInt(0)
	if i.Low != nil {
		lo = x.tv(fr, st, i.Low)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := x.tv(fr, st, i.X)
		n := mkSlen(s)
		hi = n
		if i.High != nil {
			hi = x.tv(fr, st, i.High)
		}
		x.safe(st, "slice bounds out of range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)))
		if lo == mkInt(0) && hi == n {
			return Val{t: s}
		}
		return Val{t: mkSubstr(s, lo, mkSub(hi, lo))}
	case *types.Pointer: // array
		a := u.Elem().Underlying().(*types.Array)
		l := x.lval(x.val(fr, st, i.X), i.X.Type())
		if l.kind != 'a' {
			x.unsup("slice of a nested array")
		}
		n := mkInt(a.Len())
		hi = n
		if i.High != nil {
			hi = x.tv(fr, st, i.High)
		}
		if lo != mkInt(0) {
			x.unsup("slice of array with low bound")
		}
		x.safe(st, "slice bounds out of range", mkAnd(mkLe(lo, hi), mkLe(hi, n)))
		return Val{t: mkCtor(sSlice, l.ref, hi)}
	case *types.Slice:
		s := x.tv(fr, st, i.X)
		n := mkSel(s, 1)
		hi = n
		if i.High != nil {
			hi = x.tv(fr, st, i.High)
		}
		x.safe(st, "slice bounds out of range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)))
		if lo == mkInt(0) {
			return Val{t: mkCtor(sSlice, mkSel(s, 0), hi)}
		}
		// a re-slice with a low bound is modelled as a copy
		k := elemHeap(u.Elem())
		a := x.alloc(st)
		h := x.heap(st, k)
		arr := fresh("v!reslice", arraySort(sInt, sortOf(u.Elem())))
		q := mkBvar("i", sInt)
		e := mkSelect(arr, q)
		x.assumeOpen(forallPat([]*Term{q}, mkEq(e, mkSelect(mkSelect(h, mkSel(s, 0)), mkAdd(q, lo))), e))
		st.heaps[k] = mkStore(h, a, arr)
		return Val{t: mkCtor(sSlice, a, mkSub(hi, lo))}
	}
	x.unsup("slice of %s", i.X.Type())
	return Val{}
}

func mkSubstr(s, lo, n *Term) *Term {
	if s.op == "strlit" && lo.isInt() && n.isInt() && lo.n.IsInt64() && n.n.IsInt64() {
		a, b := lo.i64(), lo.i64()+n.i64()
		if a >= 0 && b >= a && int(b) <= len(s.name) {
			return mkStr(s.name[a:b])
		}
	}
	return mkStrFn("substr", sStr, s, lo, n)
}

// ---------------------------------------------------------------- calls

func (x *Ex) call(fr *Frame, st *State, c *ssa.CallCommon, in ssa.Instruction) (Val, *State) {
	var fv Val
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, c, in)
	}
	fv = x.val(fr, st, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	return x.callVals(fr, st, c, fv, args, in)
}

func (x *Ex) callVals(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) (Val, *State) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtinVals(fr, st, b, c, args, in)
	}
	if c.IsInvoke() {
		return x.invoke(fr, st, x.term(fv), c, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
			if cl := closureOf(x.term(fv)); cl != nil {
				bind = cl.bind
			}
		}
		return x.callStatic(fr, st, fn, args, bind, c)
	}
	return x.callDyn(fr, st, x.term(fv), c, args)
}

func (x *Ex) callDyn(fr *Frame, st *State, f *Term, c *ssa.CallCommon, args []Val) (Val, *State) {
	if cl := closureOf(f); cl != nil {
		return x.callStatic(fr, st, cl.fn, args, cl.bind, c)
	}
	if f.op == "ite" {
		a, b := st.clone(), st.clone()
		a.pc, b.pc = mkAnd(st.pc, f.args[0]), mkAnd(st.pc, mkNot(f.args[0]))
		var ra, rb Val
		if a.pc != tFalse {
			ra, a = x.callDyn(fr, a, f.args[1], c, args)
		}
		if b.pc != tFalse {
			rb, b = x.callDyn(fr, b, f.args[2], c, args)
		}
		m, g := x.merge([]*State{a, b})
		if m.pc == tFalse || c.Signature().Results().Len() == 0 {
			return Val{}, m
		}
		return x.mergeVals([]Val{ra, rb}, g), m
	}
	if f == mkInt(0) {
		x.safe(st, "call of a nil function", tFalse)
		return Val{}, &State{heaps: st.heaps, pc: tFalse}
	}
	// an unknown function value: use the handler model of its signature
	key := "func:" + sigKey(c.Signature())
	if e := x.prog.externFor(x.h, key); e != nil {
		nargs := append([]Val{{t: f}}, args...)
		if len(e.Params) == len(args) {
			nargs = args
		}
		x.safe(st, "call of a nil function", mkNot(mkEq(f, mkInt(0))))
		x.used[key] = true
		return x.callFn(e, nargs, nil, st, fr)
	}
	x.safe(st, "call of a nil function", mkNot(mkEq(f, mkInt(0))))
	x.externs["dynamic call "+key]++
	if x.pure > 0 {
		x.unsup("dynamic call in a specification: %s", short(f))
	}
	return x.havocResults(st, "dyn", c.Signature().Results()), st
}

func (x *Ex) callStatic(fr *Frame, st *State, fn *ssa.Function, args, bind []Val, c *ssa.CallCommon) (Val, *State) {
	name := fnName(fn)
	if f, ok := intrinsics[name]; ok {
		return f(x, fr, st, fn, args)
	}
	if e := x.prog.externFor(x.h, name); e != nil && !x.inStack(e) {
		x.used[name] = true
		return x.callFn(e, x.adapt(fn, e, args), nil, st, fr)
	}
	if x.prog.isRec(fn) {
		return x.recCall(fr, st, fn, args)
	}
	if len(fn.Blocks) > 0 && !x.prog.skipBody(fn) {
		return x.callFn(fn, args, bind, st, fr)
	}
	if r, ok := x.protoGetter(fr, st, fn, args); ok {
		return r, st
	}
	if r, ok := x.pureExtern(fr, st, name, fn.Signature, args); ok {
		return r, st
	}
	for p := range noops {
		if strings.HasPrefix(name, p) {
			return x.havocResults(st, "noop", fn.Signature.Results()), st
		}
	}
	if x.pure > 0 {
		x.unsup("impure call of %s in a specification", name)
	}
	x.externs[name]++
	return x.havocResults(st, fn.Name(), fn.Signature.Results()), st
}

func (x *Ex) inStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// tagLeaves enumerates the literal leaves of an interface tag; ok=false if some leaf is symbolic.
func tagLeaves(t *Term, out map[int64]bool) bool {
	switch {
	case t.isInt():
		out[t.i64()] = true
		return true
	case t.op == "ite":
		a := tagLeaves(t.args[1], out)
		b := tagLeaves(t.args[2], out)
		return a && b
	}
	return false
}

func (x *Ex) invoke(fr *Frame, st *State, recv *Term, c *ssa.CallCommon, args []Val) (Val, *State) {
	tag, val := mkSel(recv, 0), mkSel(recv, 1)
	it := c.Value.Type()
	mname := "(" + tstr(it) + ")." + c.Method.Name()
	leaves := map[int64]bool{}
	known := tagLeaves(tag, leaves)
	concrete := known && len(leaves) > 0
	for l := range leaves {
		if l < 0 || int(l) >= len(tagTypes) {
			concrete = false
		}
	}
	if !concrete || x.prog.dispatchFirst(x.h, mname) {
		if e := x.prog.externFor(x.h, mname); e != nil {
			x.safe(st, "nil interface receiver of "+mname, mkNot(mkEq(tag, mkInt(0))))
			x.used[mname] = true
			return x.callFn(e, append([]Val{{t: recv}}, args...), nil, st, fr)
		}
	}
	if !concrete {
		if r, ok := x.pureExtern(fr, st, mname, c.Signature(), append([]Val{{t: recv}}, args...)); ok {
			x.safe(st, "nil interface receiver of "+mname, mkNot(mkEq(tag, mkInt(0))))
			return r, st
		}
		// closed world over the repository's implementations
		if impls := x.prog.implementations(it); len(impls) > 0 {
			x.safe(st, "nil interface receiver of "+mname, mkNot(mkEq(tag, mkInt(0))))
			leaves = map[int64]bool{}
			var any []*Term
			for _, t := range impls {
				n := int64(typeTag(t))
				leaves[n] = true
				any = append(any, mkEq(tag, mkInt(n)))
			}
			x.assume(st, mkOr(any...))
			x.assumeN["closed world: "+tstr(it)]++
		} else {
			x.safe(st, "nil interface receiver of "+mname, mkNot(mkEq(tag, mkInt(0))))
			if x.pure > 0 {
				x.unsup("impure call of %s in a specification", mname)
			}
			x.externs[mname]++
			return x.havocResults(st, c.Method.Name(), c.Signature().Results()), st
		}
	}
	var sts []*State
	var rs []Val
	for _, l := range sortedInts(leaves) {
		g := mkEq(tag, mkInt(l))
		b := st.clone()
		b.pc = mkAnd(st.pc, g)
		if b.pc == tFalse || implied(st.pc, true, g) == -1 {
			continue
		}
		if l == 0 {
			x.safe(b, "nil interface receiver of "+mname, tFalse)
			continue
		}
		t := tagTypes[l]
		m := x.prog.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			if impl := x.prog.externFor(x.h, mname); impl != nil {
				r, ns := x.callFn(impl, append([]Val{{t: recv}}, args...), nil, b, fr)
				sts, rs = append(sts, ns), append(rs, r)
				continue
			}
			x.externs[mname]++
			sts, rs = append(sts, b), append(rs, x.havocResults(b, c.Method.Name(), c.Signature().Results()))
			continue
		}
		rv := Val{t: mkUnbox(t, val)}
		x.assumeOpen(mkImp(mkAnd(b.pc, g), typeInv(rv.t, t, x.next(b))))
		r, ns := x.callStatic(fr, b, m, append([]Val{rv}, args...), nil, c)
		sts, rs = append(sts, ns), append(rs, r)
	}
	if len(sts) == 0 {
		return Val{}, &State{heaps: st.heaps, pc: tFalse}
	}
	if len(sts) == 1 {
		if leaves[0] == false {
			sts[0].pc = st.pc
		}
		return rs[0], sts[0]
	}
	m, g := x.merge(sts)
	if m.pc == tFalse || c.Signature().Results().Len() == 0 {
		return Val{}, m
	}
	if !leaves[0] {
		m.pc = st.pc
	}
	return x.mergeVals(rs, g), m
}

func sortedInts(m map[int64]bool) []int64 {
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func (x *Ex) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, in ssa.Instruction) (Val, *State) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	return x.builtinVals(fr, st, b, c, args, in)
}

func (x *Ex) builtinVals(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, in ssa.Instruction) (Val, *State) {
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		v := x.term(args[0])
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return Val{t: mkSel(v, 1)}, st
		case *types.Basic:
			return Val{t: mkSlen(v)}, st
		case *types.Map:
			d, _, _ := mapHeaps(t)
			x.guardMap(st, v, false)
			return Val{t: mkCard(mkSelect(x.heap(st, d), v))}, st
		case *types.Chan:
			if b.Name() == "cap" {
				r := mkSelect(x.heap(st, hChCap), v)
				x.assumeAlways(mkLeRaw(mkInt(0), r))
				return Val{t: r}, st
			}
			if x.pure > 0 {
				r := x.havocVal(st, "chanlen", types.Typ[types.Int])
				x.assumeAlways(mkLeRaw(mkInt(0), r))
				return Val{t: r}, st
			}
			x.bumpSent(st, v)
			x.bumpRecv(st, v)
			return Val{t: mkSub(mkSelect(x.heap(st, hSent), v), mkSelect(x.heap(st, hRecv), v))}, st
		case *types.Array:
			return Val{t: mkInt(u.Len())}, st
		case *types.Pointer:
			return Val{t: mkInt(u.Elem().Underlying().(*types.Array).Len())}, st
		}
	case "append":
		return x.appendB(st, c, x.term(args[0]), x.term(args[1])), st
	case "copy":
		dst, src := x.term(args[0]), x.term(args[1])
		if src.sort != sSlice {
			x.unsup("copy from string")
		}
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		k := elemHeap(el)
		h := x.heap(st, k)
		n := mkIte(mkLe(mkSel(dst, 1), mkSel(src, 1)), mkSel(dst, 1), mkSel(src, 1))
		arr := fresh("v!copy", arraySort(sInt, sortOf(el)))
		q := mkBvar("i", sInt)
		e := mkSelect(arr, q)
		x.assumeOpen(forallPat([]*Term{q}, mkEq(e, mkIte(mkAnd(mkLe(mkInt(0), q), mkLt(q, n)), mkSelect(mkSelect(h, mkSel(src, 0)), q), mkSelect(mkSelect(h, mkSel(dst, 0)), q))), e))
		st.heaps[k] = mkStore(h, mkSel(dst, 0), arr)
		return Val{t: n}, st
	case "delete":
		m := x.term(args[0])
		x.guardMap(st, m, true)
		x.mapDelete(st, c.Args[0].Type(), m, x.term(args[1]))
		return Val{}, st
	case "close":
		ch := x.term(args[0])
		cl := x.heap(st, hClosed)
		x.safe(st, "close of nil or closed channel", mkAnd(mkNot(mkEq(ch, mkInt(0))), mkNot(mkSelect(cl, ch))))
		st.heaps[hClosed] = mkStore(cl, ch, tTrue)
		return Val{}, st
	case "recover":
		return Val{t: zeroSort(sIface)}, st
	case "print", "println":
		return Val{}, st
	case "min", "max":
		r := x.term(args[0])
		if r.sort != sInt {
			x.unsup("min/max of non-integers")
		}
		for _, a := range args[1:] {
			t := x.term(a)
			c := mkLe(r, t)
			if b.Name() == "max" {
				c = mkLe(t, r)
			}
			r = mkIte(c, r, t)
		}
		return Val{t: r}, st
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0], "receiver")
		return args[0], st
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m := x.term(args[0])
			x.guardMap(st, m, true)
			d, _, mt := mapHeaps(c.Args[0].Type())
			st.heaps[d] = mkStore(x.heap(st, d), m, mkConstArr(sortOf(mt.Key()), tFalse))
			return Val{}, st
		}
	}
	x.unsup("builtin %s", b.Name())
	return Val{}, st
}

// appendB models append: the result has a fresh backing array.
func (x *Ex) appendB(st *State, c *ssa.CallCommon, s, t *Term) Val {
	if t.sort == sStr {
		x.unsup("append of string")
	}
	el := types.Unalias(c.Args[0].Type().Underlying().(*types.Slice).Elem())
	k := elemHeap(el)
	h := x.heap(st, k)
	n, m := mkSel(s, 1), mkSel(t, 1)
	a := x.alloc(st)
	if m.isInt() && m.n.IsInt64() && m.i64() <= 16 {
		arr := mkSelect(h, mkSel(s, 0))
		ta := mkSelect(h, mkSel(t, 0))
		for j := int64(0); j < m.i64(); j++ {
			arr = mkStore(arr, mkAdd(n, mkInt(j)), mkSelect(ta, mkInt(j)))
		}
		st.heaps[k] = mkStore(h, a, arr)
		r := mkCtor(sSlice, a, mkAdd(n, m))
		if m.i64() == 0 {
			// append(nil) stays nil
			r = mkIte(mkEq(n, mkInt(0)), s, r)
		}
		return Val{t: r}
	}
	arr := fresh("v!append", arraySort(sInt, sortOf(el)))
	q := mkBvar("i", sInt)
	e := mkSelect(arr, q)
	x.assumeOpen(forallPat([]*Term{q}, mkEq(e, mkIte(mkLt(q, n), mkSelect(mkSelect(h, mkSel(s, 0)), q), mkSelect(mkSelect(h, mkSel(t, 0)), mkSub(q, n)))), e))
	st.heaps[k] = mkStore(h, a, arr)
	return Val{t: mkIte(mkEq(mkAdd(n, m), mkInt(0)), s, mkCtor(sSlice, a, mkAdd(n, m)))}
}

// sigKey is the signature without parameter names
func sigKey(s *types.Signature) string {
	tup := func(t *types.Tuple, variadic bool) string {
		var out []string
		for i := 0; i < t.Len(); i++ {
			n := tstr(t.At(i).Type())
			if variadic && i == t.Len()-1 {
				n = "..." + strings.TrimPrefix(n, "[]")
			}
			out = append(out, n)
		}
		return strings.Join(out, ", ")
	}
	r := "func(" + tup(s.Params(), s.Variadic()) + ")"
	switch s.Results().Len() {
	case 0:
		return r
	case 1:
		return r + " " + tup(s.Results(), false)
	}
	return r + " (" + tup(s.Results(), false) + ")"
}

// adapt boxes the arguments of a dependency function for a model with interface parameters
func (x *Ex) adapt(fn, model *ssa.Function, args []Val) []Val {
	out := append([]Val{}, args...)
	var pts []types.Type
	if r := fn.Signature.Recv(); r != nil {
		pts = append(pts, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		pts = append(pts, fn.Signature.Params().At(i).Type())
	}
	for i := range out {
		if i >= len(pts) || i >= len(model.Params) {
			break
		}
		if types.IsInterface(model.Params[i].Type()) && !types.IsInterface(pts[i]) {
			out[i] = Val{t: mkIface(pts[i], x.term(out[i]))}
		}
	}
	return out
}
