package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// plain is t with the aliases replaced by what they stand for
func plain(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if e := plain(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := plain(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Map:
		if k, e := plain(u.Key()), plain(u.Elem()); k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	}
	return t
}

func tstr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// opaque struct types with a scalar model
var opaque = map[string]*Sort{
	"time.Time":               sInt,
	"sync.Mutex":              sInt,
	"sync.RWMutex":            sInt,
	"sync.WaitGroup":          sInt,
	"sync.Once":               sBool,
	"sync/atomic.Value":       sIface,
	"go.uber.org/atomic.Bool": sBool,
	"sync/atomic.Bool":        sBool,
	"sync/atomic.Int32":       sInt,
	"sync/atomic.Int64":       sInt,
	"sync/atomic.Uint32":      sInt,
	"regexp.Regexp":           sInt,
	"net/url.URL":             sInt,
	"google.golang.org/protobuf/internal/impl.MessageState": sInt,
	"sync.Map":        sInt,
	"strings.Builder": sStr,
}

func opaqueSort(t types.Type) *Sort {
	if n, ok := t.(*types.Named); ok {
		if strings.HasPrefix(tstr(n), "github.com/kitex-contrib/xds/vspec.Set[") {
			return sInt
		}
		if s, ok := opaque[tstr(n)]; ok {
			return s
		}
	}
	return nil
}

var sortCache = map[string]*Sort{}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if s := opaqueSort(t); s != nil {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return sInt
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return sFlt
		}
		if u.Kind() == types.UntypedNil {
			return sInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt
	case *types.Interface:
		return sIface
	case *types.Slice:
		return sSlice
	case *types.Array:
		return arraySort(sInt, sortOf(u.Elem()))
	case *types.Struct:
		key := tstr(t)
		if s, ok := sortCache[key]; ok {
			return s
		}
		if u.NumFields() == 0 {
			s := dtSort("S_"+sanitize(key), []Field{{"dummy", sInt}})
			sortCache[key] = s
			return s
		}
		var fs []Field
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, Field{fmt.Sprintf("f%d_%s", i, sanitize(u.Field(i).Name())), sortOf(u.Field(i).Type())})
		}
		s := dtSort("S_"+sanitize(key), fs)
		sortCache[key] = s
		return s
	case *types.Tuple:
		return sInt
	}
	return sInt
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	if s := opaqueSort(t); s != nil {
		return zeroSort(s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := sortOf(t)
		if u.NumFields() == 0 {
			return mkCtor(s, mkInt(0))
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return mkCtor(s, as...)
	case *types.Array:
		return mkConstArr(sInt, zeroOf(u.Elem()))
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s *Sort) *Term {
	switch s {
	case sBool:
		return tFalse
	case sInt:
		return mkInt(0)
	case sStr:
		return mkStr("")
	case sFlt:
		return mkConst("flt!0", sFlt)
	case sSlice:
		return mkCtor(sSlice, mkInt(0), mkInt(0))
	case sIface:
		return mkCtor(sIface, mkInt(0), mkInt(0))
	}
	if s.kind == 'a' {
		return mkConstArr(s.k, zeroSort(s.v))
	}
	if s.kind == 'd' {
		var as []*Term
		for _, f := range s.flds {
			as = append(as, zeroSort(f.sort))
		}
		return mkCtor(s, as...)
	}
	panic("zeroSort " + s.name)
}

// ---------------------------------------------------------------- type tags

var (
	tagOf    = map[string]int{}
	tagTypes = []types.Type{nil}
)

func typeTag(t types.Type) int {
	t = plain(t)
	k := tstr(t)
	if n, ok := tagOf[k]; ok {
		return n
	}
	n := len(tagTypes)
	tagOf[k] = n
	tagTypes = append(tagTypes, t)
	return n
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func mkIface(t types.Type, v *Term) *Term {
	tag := mkInt(int64(typeTag(t)))
	if isPtrLike(t) {
		return mkCtor(sIface, tag, v)
	}
	return mkCtor(sIface, tag, mkBox(t, v))
}

func mkBox(t types.Type, v *Term) *Term {
	if v.op == "ite" {
		return mkIte(v.args[0], mkBox(t, v.args[1]), mkBox(t, v.args[2]))
	}
	return intern("box", "T"+fmt.Sprint(typeTag(t)), sInt, nil, nil, v)
}

func mkUnbox(t types.Type, v *Term) *Term {
	if isPtrLike(t) {
		return v
	}
	nm := "T" + fmt.Sprint(typeTag(t))
	if v.op == "box" && v.name == nm {
		return v.args[0]
	}
	if v.op == "ite" {
		return mkIte(v.args[0], mkUnbox(t, v.args[1]), mkUnbox(t, v.args[2]))
	}
	return intern("unbox", nm, sortOf(t), nil, nil, v)
}

// ---------------------------------------------------------------- integer ranges

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := map[types.BasicKind]int{types.Int: 64, types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64,
		types.Uint: 64, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uintptr: 64, types.UntypedInt: 64, types.UntypedRune: 32}
	n := bits[b.Kind()]
	if n == 0 {
		return nil, nil, false
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one)
		return big.NewInt(0), hi, true
	}
	lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(n-1)))
	hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(n-1)), one)
	return lo, hi, true
}

func inRange(t types.Type, v *Term) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return tTrue
	}
	return mkAnd(mkLe(mkBig(lo), v), mkLe(v, mkBig(hi)))
}

// typeInv is the invariant of a value of type t whose references were allocated before next.
func typeInv(v *Term, t types.Type, next *Term) *Term {
	t = types.Unalias(t)
	if os := opaqueSort(t); os != nil {
		if os == sIface { // atomic.Value
			tag, val := mkSel(v, 0), mkSel(v, 1)
			return mkAnd(mkLe(mkInt(0), tag), mkLt(val, next), mkImp(mkEq(tag, mkInt(0)), mkEq(val, mkInt(0))))
		}
		return tTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return inRange(t, v)
		}
		return tTrue
	case *types.Pointer, *types.Map, *types.Chan:
		return mkAnd(mkLe(mkInt(0), v), mkLt(v, next))
	case *types.Signature:
		return mkLt(v, next)
	case *types.Interface:
		tag, val := mkSel(v, 0), mkSel(v, 1)
		return mkAnd(mkLe(mkInt(0), tag), mkLt(val, next), mkImp(mkEq(tag, mkInt(0)), mkEq(val, mkInt(0))))
	case *types.Slice:
		arr, ln := mkSel(v, 0), mkSel(v, 1)
		return mkAnd(mkLe(mkInt(0), arr), mkLt(arr, next), mkLeRaw(mkInt(0), ln), mkLe(ln, mkBig(maxLen)), mkImp(mkEq(arr, mkInt(0)), mkEq(ln, mkInt(0))))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, typeInv(mkSel(v, i), u.Field(i).Type(), next))
		}
		return mkAnd(cs...)
	}
	return tTrue
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// ---------------------------------------------------------------- heap keys

type heapInfo struct {
	sort *Sort
	elem types.Type            // type of the stored values (innermost)
	dim  int                   // 1: Array Int V ; 2: Array Int (Array K V); 0 scalar
	key  *Sort                 // K of dim 2
	raw  bool                  // no typing invariant
	wf   func(sel *Term) *Term // well-formedness of decoded messages (initial heap only)
}

var heapTab = map[string]*heapInfo{}

func regHeap(key string, elem types.Type, es *Sort, dim int, ks *Sort) string {
	if _, ok := heapTab[key]; !ok {
		var s *Sort
		switch dim {
		case 0:
			s = es
		case 1:
			s = arraySort(sInt, es)
		case 2:
			s = arraySort(sInt, arraySort(ks, es))
		}
		heapTab[key] = &heapInfo{sort: s, elem: elem, dim: dim, key: ks}
	}
	return key
}

func fieldType(root types.Type, path []int) (types.Type, string) {
	t := root
	var nm []string
	for _, i := range path {
		st := t.Underlying().(*types.Struct)
		nm = append(nm, st.Field(i).Name())
		t = st.Field(i).Type()
	}
	return types.Unalias(t), strings.Join(nm, ".")
}

func fieldHeap(root types.Type, path []int) (string, types.Type) {
	ft, nm := fieldType(root, path)
	k := "F!" + tstr(root) + "!" + nm
	_, known := heapTab[k]
	regHeap(k, ft, sortOf(ft), 1, nil)
	if !known {
		hi := heapTab[k]
		if ms := mutexSort(ft); ms {
			// the verified operation starts without holding any lock
			hi.wf = func(sel *Term) *Term { return mkEq(sel, mkInt(0)) }
		} else if ws := oneofWrappers(root, ft); ws != nil {
			hi.wf = func(sel *Term) *Term {
				var or []*Term
				or = append(or, mkEq(mkSel(sel, 0), mkInt(0)))
				for _, w := range ws {
					or = append(or, mkEq(mkSel(sel, 0), mkInt(int64(typeTag(types.NewPointer(w))))))
				}
				return mkAnd(mkOr(or...), mkImp(mkNot(mkEq(mkSel(sel, 0), mkInt(0))), mkLt(mkInt(0), mkSel(sel, 1))))
			}
		} else if isOneofWrapper(root) && isProtoMsgPtr(ft) {
			hi.wf = func(sel *Term) *Term { return mkLt(mkInt(0), sel) }
		}
	}
	return k, ft
}

func mutexSort(t types.Type) bool {
	s := tstr(types.Unalias(t))
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func isProtoMsgPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && isProtoPkg(n.Obj().Pkg().Path())
}

func protoNamed(root types.Type) *types.Named {
	n, ok := types.Unalias(root).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isProtoPkg(n.Obj().Pkg().Path()) {
		return nil
	}
	return n
}

// oneofWrappers lists the wrapper types of a oneof field
func oneofWrappers(root, ft types.Type) []types.Type {
	n := protoNamed(root)
	if n == nil {
		return nil
	}
	it, ok := ft.Underlying().(*types.Interface)
	if !ok || it.NumMethods() != 1 || it.Method(0).Exported() {
		return nil
	}
	var out []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		t := types.Unalias(tn.Type())
		if _, isS := t.Underlying().(*types.Struct); isS && types.Implements(types.NewPointer(t), it) {
			out = append(out, t)
		}
	}
	return out
}

func isOneofWrapper(root types.Type) bool {
	n := protoNamed(root)
	if n == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 1 {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	return ms.Len() == 1 && !ms.At(0).Obj().Exported()
}

func elemHeap(t types.Type) string {
	t = types.Unalias(t)
	k := "E!" + tstr(t)
	_, known := heapTab[k]
	regHeap(k, t, sortOf(t), 2, sInt)
	if !known && isProtoMsgPtr(t) {
		// repeated message fields have no nil elements
		heapTab[k].wf = func(sel *Term) *Term { return mkLt(mkInt(0), sel) }
	}
	return k
}

func cellHeap(t types.Type) string {
	t = types.Unalias(t)
	return regHeap("C!"+tstr(t), t, sortOf(t), 1, nil)
}

func mapHeaps(t types.Type) (dom, val string, m *types.Map) {
	m = t.Underlying().(*types.Map)
	ks := sortOf(m.Key())
	nm := tstr(m)
	dom = regHeap("D!"+nm, types.Typ[types.Bool], sBool, 2, ks)
	val = regHeap("V!"+nm, m.Elem(), sortOf(m.Elem()), 2, ks)
	return
}

func isStruct(t types.Type) bool {
	if opaqueSort(types.Unalias(t)) != nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}
