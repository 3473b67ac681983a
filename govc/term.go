package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type Sort struct {
	name string
	kind byte // 'b' bool 'i' int 's' string 'f' float 'a' array 'd' datatype 'u' uninterpreted
	k, v *Sort
	flds []Field // datatype fields
}

type Field struct {
	name string
	sort *Sort
}

var sorts = map[string]*Sort{}

func mkSort(s *Sort) *Sort {
	if o, ok := sorts[s.name]; ok {
		return o
	}
	sorts[s.name] = s
	return s
}

var (
	sBool  = mkSort(&Sort{name: "Bool", kind: 'b'})
	sInt   = mkSort(&Sort{name: "Int", kind: 'i'})
	sStr   = mkSort(&Sort{name: "Str", kind: 's'})
	sFlt   = mkSort(&Sort{name: "Flt", kind: 'u'})
	sSlice = mkSort(&Sort{name: "Slice", kind: 'd', flds: []Field{{"arr", sInt}, {"len", sInt}}})
	sIface = mkSort(&Sort{name: "Iface", kind: 'd', flds: []Field{{"tag", sInt}, {"val", sInt}}})
)

func arraySort(k, v *Sort) *Sort {
	return mkSort(&Sort{name: "(Array " + k.name + " " + v.name + ")", kind: 'a', k: k, v: v})
}

func dtSort(name string, flds []Field) *Sort {
	return mkSort(&Sort{name: name, kind: 'd', flds: flds})
}

// ---------------------------------------------------------------- terms

type Term struct {
	id   int
	op   string
	name string
	args []*Term
	sort *Sort
	n    *big.Int
	bv   []*Term // bound variables of a quantifier
	fbv  []int   // ids of the free bound variables
	h    int     // quantifier height
	size int
}

var (
	termTab  = map[string]*Term{}
	termNum  int
	termList []*Term
)

func intern(op, name string, sort *Sort, n *big.Int, bv []*Term, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(name)
	b.WriteByte(0)
	b.WriteString(sort.name)
	if n != nil {
		b.WriteByte(1)
		b.WriteString(n.String())
	}
	for _, a := range args {
		fmt.Fprintf(&b, " %d", a.id)
	}
	if bv != nil {
		b.WriteByte('|')
		for _, a := range bv {
			fmt.Fprintf(&b, " %d", a.id)
		}
	}
	key := b.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termNum++
	t := &Term{id: termNum, op: op, name: name, args: args, sort: sort, n: n, bv: bv}
	t.size = 1
	set := map[int]bool{}
	for _, a := range args {
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
		if a.h > t.h {
			t.h = a.h
		}
		for _, v := range a.fbv {
			set[v] = true
		}
	}
	if op == "bvar" {
		set[t.id] = true
	}
	for _, v := range bv {
		delete(set, v.id)
	}
	if bv != nil {
		t.h++
	}
	for v := range set {
		t.fbv = append(t.fbv, v)
	}
	sort_(t.fbv)
	termTab[key] = t
	termList = append(termList, t)
	return t
}

func sort_(x []int) { sort.Ints(x) }

var (
	tTrue  = intern("true", "", sBool, nil, nil)
	tFalse = intern("false", "", sBool, nil, nil)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(i int64) *Term             { return intern("int", "", sInt, big.NewInt(i), nil) }
func mkBig(i *big.Int) *Term          { return intern("int", "", sInt, new(big.Int).Set(i), nil) }
func mkStr(s string) *Term            { return intern("strlit", s, sStr, nil, nil) }
func mkConst(n string, s *Sort) *Term { return intern("const", n, s, nil, nil) }
func mkBvar(n string, s *Sort) *Term  { return intern("bvar", n, s, nil, nil) }

var freshCnt = map[string]int{}

func fresh(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	freshCnt[prefix]++
	return mkConst(fmt.Sprintf("%s!%d", prefix, freshCnt[prefix]), s)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			return r
		}
		return '_'
	}, s)
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) i64() int64  { return t.n.Int64() }

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "<=": // not (a<=b)  ==  b+1<=a
		return mkLe(mkAdd(a.args[1], mkInt(1)), a.args[0])
	}
	return intern("not", "", sBool, nil, nil, a)
}

func mkAnd(ts ...*Term) *Term { return mkNary("and", ts) }
func mkOr(ts ...*Term) *Term  { return mkNary("or", ts) }

func mkNary(op string, ts []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == "or" {
		unit, zero = tFalse, tTrue
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[mkNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: a and (or (not a) b) -> b ; a and (or a b) -> a   (and dually)
	dual := "or"
	if op == "or" {
		dual = "and"
	}
	changed := false
	for i, t := range out {
		if t.op != dual {
			continue
		}
		drop := false
		var keep []*Term
		for _, a := range t.args {
			if seen[a] {
				drop = true
				break
			}
			if seen[mkNot(a)] {
				changed = true
				continue
			}
			keep = append(keep, a)
		}
		if drop {
			out[i] = unit
			changed = true
		} else if len(keep) != len(t.args) {
			out[i] = mkNary(dual, keep)
		}
	}
	if changed {
		return mkNary(op, out)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(op, "", sBool, nil, nil, out...)
}

func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == sBool {
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	// nested with the same condition
	a = iteUnder(a, c, true)
	b = iteUnder(b, c, false)
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
	if b.op == "ite" && b.args[1] == a {
		return mkIte(mkOr(c, b.args[0]), a, b.args[2])
	}
	if b.op == "ite" && b.args[2] == a {
		return mkIte(mkOr(c, mkNot(b.args[0])), a, b.args[1])
	}
	if a.op == "ite" && a.args[2] == b {
		return mkIte(mkAnd(c, a.args[0]), a.args[1], b)
	}
	if a.op == "ctor" && b.op == "ctor" && a.sort == b.sort {
		as := make([]*Term, len(a.args))
		for i := range as {
			as[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkCtor(a.sort, as...)
	}
	if a.op == "store" && b.op == "store" && a.args[1] == b.args[1] && a.args[0] == b.args[0] {
		return mkStore(a.args[0], a.args[1], mkIte(c, a.args[2], b.args[2]))
	}
	return intern("ite", "", a.sort, nil, nil, c, a, b)
}

func iteUnder(t, c *Term, val bool) *Term {
	for t.op == "ite" {
		switch {
		case t.args[0] == c:
			if val {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
		case implied(c, val, t.args[0]) == 1:
			t = t.args[1]
		case implied(c, val, t.args[0]) == -1:
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

// implied returns 1 if (c==val) implies d, -1 if it implies not d, 0 if unknown (syntactic).
func implied(c *Term, val bool, d *Term) int {
	if !val {
		c = mkNot(c)
	}
	check := func(x *Term) int {
		if x == d {
			return 1
		}
		if x == mkNot(d) {
			return -1
		}
		return 0
	}
	if r := check(c); r != 0 {
		return r
	}
	if c.op == "and" {
		for _, a := range c.args {
			if r := check(a); r != 0 {
				return r
			}
		}
	}
	if d.op == "or" {
		for _, x := range d.args {
			if c == x || (c.op == "and" && containsTerm(c.args, x)) {
				return 1
			}
		}
	}
	if d.op == "and" {
		for _, x := range d.args {
			nx := mkNot(x)
			if c == nx || (c.op == "and" && containsTerm(c.args, nx)) {
				return -1
			}
		}
	}
	return 0
}

func containsTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- linear arithmetic

type lin struct {
	c  *big.Int
	ts map[*Term]*big.Int
}

func toLin(t *Term, k *big.Int, l *lin) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.n))
	case "+":
		for _, a := range t.args {
			toLin(a, k, l)
		}
	case "*":
		if t.args[0].isInt() {
			toLin(t.args[1], new(big.Int).Mul(k, t.args[0].n), l)
			return
		}
		fallthrough
	default:
		o, ok := l.ts[t]
		if !ok {
			o = new(big.Int)
			l.ts[t] = o
		}
		o.Add(o, k)
		if o.Sign() == 0 {
			delete(l.ts, t)
		}
	}
}

func fromLin(l *lin) *Term {
	var ks []*Term
	for t := range l.ts {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var as []*Term
	one := big.NewInt(1)
	for _, t := range ks {
		k := l.ts[t]
		if k.Cmp(one) == 0 {
			as = append(as, t)
		} else {
			as = append(as, intern("*", "", sInt, nil, nil, mkBig(k), t))
		}
	}
	if l.c.Sign() != 0 || len(as) == 0 {
		as = append(as, mkBig(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return intern("+", "", sInt, nil, nil, as...)
}

func linOf(t *Term) *lin {
	l := &lin{c: new(big.Int), ts: map[*Term]*big.Int{}}
	toLin(t, big.NewInt(1), l)
	return l
}

func mkAdd(ts ...*Term) *Term {
	l := &lin{c: new(big.Int), ts: map[*Term]*big.Int{}}
	for _, t := range ts {
		toLin(t, big.NewInt(1), l)
	}
	return fromLin(l)
}

func mkSub(a, b *Term) *Term {
	l := linOf(a)
	toLin(b, big.NewInt(-1), l)
	return fromLin(l)
}

func mkNeg(a *Term) *Term { return mkSub(mkInt(0), a) }

func mkMul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := &lin{c: new(big.Int), ts: map[*Term]*big.Int{}}
		toLin(b, a.n, l)
		return fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("*", "", sInt, nil, nil, a, b)
}

// constDiff returns a-b if it is a constant.
func constDiff(a, b *Term) (*big.Int, bool) {
	l := linOf(a)
	toLin(b, big.NewInt(-1), l)
	if len(l.ts) == 0 {
		return l.c, true
	}
	return nil, false
}

// mkLe canonicalises to  lin <= rest with a constant on the right where possible
func mkLe(a, b *Term) *Term {
	l := linOf(a)
	toLin(b, big.NewInt(-1), l) // l <= 0
	if len(l.ts) == 0 {
		return mkBool(l.c.Sign() <= 0)
	}
	if r, ok := boundDecide(a, b); ok {
		return mkBool(r)
	}
	// positive terms + c <= negative terms
	var ks []*Term
	for t := range l.ts {
		ks = append(ks, t)
	}
	left := &lin{c: new(big.Int), ts: map[*Term]*big.Int{}}
	right := &lin{c: new(big.Int), ts: map[*Term]*big.Int{}}
	for _, t := range ks {
		if k := l.ts[t]; k.Sign() > 0 {
			left.ts[t] = k
		} else {
			right.ts[t] = new(big.Int).Neg(k)
		}
	}
	if l.c.Sign() > 0 {
		left.c = l.c
	} else {
		right.c = new(big.Int).Neg(l.c)
	}
	return intern("<=", "", sBool, nil, nil, fromLin(left), fromLin(right))
}
func mkLt(a, b *Term) *Term { return mkLe(mkAdd(a, mkInt(1)), b) }

// below[t] = N : it is known that 0 <= t < N (N an allocation counter symbol)
var below = map[*Term]*Term{}

// nextGE[n] = m : allocation counter symbol n >= m (m a symbol + const)
var nextGE = map[*Term]*Term{}

// heapBelow[h] = N: all pointer values in the base array h are in [0,N)
var heapBelow = map[*Term]*Term{}

// oldThan reports whether t < n is known, n of the form symbol+const of allocation counters.
func upperOf(t *Term) *Term {
	if n, ok := below[t]; ok {
		return n
	}
	switch t.op {
	case "select":
		a := t.args[0]
		for a.op == "select" {
			a = a.args[0]
		}
		if n, ok := heapBelow[a]; ok {
			return n
		}
	case "app":
		if appBelow[t.name] {
			return mkConst("next!0", sInt)
		}
	case "sel":
		a := t.args[0]
		if t.name == "arr" || t.name == "val" {
			if n := upperOf(a); n != nil {
				return n
			}
		}
		if a.op == "const" {
			return below[a]
		}
	}
	return nil
}

func counterLE(m, n *Term) bool {
	// m <= n ?
	for i := 0; i < 50; i++ {
		if d, ok := constDiff(m, n); ok {
			return d.Sign() <= 0
		}
		l := linOf(n)
		if len(l.ts) != 1 {
			return false
		}
		var s *Term
		for x := range l.ts {
			s = x
		}
		g, ok := nextGE[s]
		if !ok {
			return false
		}
		n = mkAdd(g, mkBig(l.c))
	}
	return false
}

func isCounter(t *Term) bool {
	l := linOf(t)
	if len(l.ts) != 1 {
		return false
	}
	for s, k := range l.ts {
		return k.Cmp(big.NewInt(1)) == 0 && s.op == "const" && strings.HasPrefix(s.name, "next!")
	}
	return false
}

// boundDecide decides a<=b from the known bounds of references.
func boundDecide(a, b *Term) (bool, bool) {
	// a = x (+c) where x < N ; b counter : a <= b ?
	if isCounter(b) && !isCounter(a) {
		la := linOf(a)
		if len(la.ts) == 1 {
			for x, k := range la.ts {
				if k.Cmp(big.NewInt(1)) == 0 {
					if n := upperOf(x); n != nil && la.c.Cmp(big.NewInt(1)) <= 0 {
						// x + c <= n + c - 1 <= b ?
						if counterLE(mkAdd(n, mkBig(new(big.Int).Sub(la.c, big.NewInt(1)))), b) {
							return true, true
						}
					}
				}
			}
		}
	}
	if isCounter(a) && !isCounter(b) {
		lb := linOf(b)
		if len(lb.ts) == 1 {
			for x, k := range lb.ts {
				if k.Cmp(big.NewInt(1)) == 0 {
					if n := upperOf(x); n != nil {
						// b = x+c <= n-1+c ; a <= b false if n-1+c < a i.e. n+c <= a
						if counterLE(mkAdd(n, mkBig(lb.c)), a) {
							return false, true
						}
					}
				}
			}
		}
	}
	if a.isInt() {
		if nonneg(b) && a.n.Sign() <= 0 {
			return true, true
		}
	}
	if isCounter(b) && a.isInt() && a.n.Cmp(big.NewInt(1)) <= 0 {
		lb := linOf(b)
		if lb.c.Sign() >= 0 {
			return true, true
		}
	}
	if isCounter(a) && isCounter(b) {
		if counterLE(a, b) {
			return true, true
		}
		if counterLE(mkAdd(b, mkInt(1)), a) {
			return false, true
		}
	}
	return false, false
}

func nonneg(t *Term) bool {
	if t.isInt() {
		return t.n.Sign() >= 0
	}
	if _, ok := below[t]; ok {
		return true
	}
	if t.op == "sel" && t.name == "len" {
		return true
	}
	if t.op == "slen" || t.op == "card" {
		return true
	}
	if t.op == "sel" && t.name == "val" {
		return false
	}
	return upperOf(t) != nil
}

func refDistinct(a, b *Term) bool {
	chk := func(x, y *Term) bool {
		if isCounter(y) {
			if n := upperOf(x); n != nil && counterLE(n, y) {
				return true
			}
			if x.isInt() && x.n.Sign() <= 0 {
				l := linOf(y)
				return l.c.Sign() >= 0
			}
			if isCounter(x) {
				return counterLE(mkAdd(x, mkInt(1)), y)
			}
		}
		if x.isInt() && x.n.Sign() < 0 && nonneg(y) {
			return true
		}
		return false
	}
	return chk(a, b) || chk(b, a)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sorts %s %s: %s = %s", a.sort.name, b.sort.name, short(a), short(b)))
	}
	switch a.sort {
	case sInt:
		if d, ok := constDiff(a, b); ok {
			return mkBool(d.Sign() == 0)
		}
		if refDistinct(a, b) {
			return tFalse
		}
	case sBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
		if a == mkNot(b) {
			return tFalse
		}
	case sStr:
		if r := strEq(a, b); r != nil {
			return r
		}
	}
	if a.op == "ctor" && b.op == "ctor" {
		var es []*Term
		for i := range a.args {
			es = append(es, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(es...)
	}
	// push equality into an ite when one side folds to a constant
	if a.op == "ite" && pushable(b) {
		x, y := mkEq(a.args[1], b), mkEq(a.args[2], b)
		if cheap(x) || cheap(y) {
			return mkIte(a.args[0], x, y)
		}
	}
	if b.op == "ite" && pushable(a) {
		x, y := mkEq(b.args[1], a), mkEq(b.args[2], a)
		if cheap(x) || cheap(y) {
			return mkIte(b.args[0], x, y)
		}
	}
	if a.sort.kind == 'd' && (a.op == "ctor" || b.op == "ctor") {
		var es []*Term
		for i := range a.sort.flds {
			es = append(es, mkEq(mkSel(a, i), mkSel(b, i)))
		}
		return mkAnd(es...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("=", "", sBool, nil, nil, a, b)
}

func pushable(t *Term) bool {
	return t.op == "int" || t.op == "strlit" || t.op == "const" || t.op == "ctor" || t.op == "+" || t.op == "bvar" || t.op == "app"
}
func cheap(t *Term) bool { return t == tTrue || t == tFalse }

// ---------------------------------------------------------------- arrays, datatypes

func mkConstArr(k *Sort, v *Term) *Term {
	return intern("constarr", "", arraySort(k, v.sort), nil, nil, v)
}

type selKey struct{ a, i *Term }

var selMemo = map[selKey]*Term{}

func mkSelect(a, i *Term) *Term {
	if a.op != "store" && a.op != "ite" {
		return mkSelect1(a, i)
	}
	k := selKey{a, i}
	if r, ok := selMemo[k]; ok {
		return r
	}
	r := mkSelect1(a, i)
	selMemo[k] = r
	return r
}

func mkSelect1(a, i *Term) *Term {
	if a.sort.kind != 'a' {
		panic("select from non-array " + a.sort.name)
	}
	if i.sort != a.sort.k {
		panic(fmt.Sprintf("select index sort %s from %s", i.sort.name, a.sort.name))
	}
	for {
		switch a.op {
		case "store":
			e := mkEq(a.args[1], i)
			if e == tTrue {
				return a.args[2]
			}
			if e == tFalse {
				a = a.args[0]
				continue
			}
			if i.op == "ite" && (i.sort == sInt || i.sort == sStr) {
				return mkIte(i.args[0], mkSelect(a, i.args[1]), mkSelect(a, i.args[2]))
			}
			// if value is the same as below
			below := mkSelect(a.args[0], i)
			if below == a.args[2] {
				return below
			}
			return mkIte(e, a.args[2], below)
		case "constarr":
			return a.args[0]
		case "ite":
			return mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
		}
		break
	}
	return intern("select", "", a.sort.v, nil, nil, a, i)
}

func mkStore(a, i, v *Term) *Term {
	if v.sort != a.sort.v || i.sort != a.sort.k {
		panic(fmt.Sprintf("store sort %s[%s] := %s", a.sort.name, i.sort.name, v.sort.name))
	}
	if a.op == "store" && a.args[1] == i {
		return mkStore(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" && refDistinct(a.args[1], i) && a.args[1].id > i.id {
		// keep stores sorted for canonical form
		return intern("store", "", a.sort, nil, nil, mkStore(a.args[0], i, v), a.args[1], a.args[2])
	}
	return intern("store", "", a.sort, nil, nil, a, i, v)
}

func mkCtor(s *Sort, as ...*Term) *Term {
	if len(as) != len(s.flds) {
		panic("ctor arity " + s.name)
	}
	for i, a := range as {
		if a.sort != s.flds[i].sort {
			panic(fmt.Sprintf("ctor %s field %s sort %s", s.name, s.flds[i].name, a.sort.name))
		}
	}
	// eta
	if len(as) > 0 && as[0].op == "sel" && as[0].args[0].sort == s {
		o := as[0].args[0]
		ok := true
		for i, a := range as {
			if a.op != "sel" || a.args[0] != o || a.n.Int64() != int64(i) {
				ok = false
				break
			}
		}
		if ok {
			return o
		}
	}
	return intern("ctor", s.name, s, nil, nil, as...)
}

func mkSel(t *Term, i int) *Term {
	if t.op == "ctor" {
		return t.args[i]
	}
	if t.op == "ite" {
		return mkIte(t.args[0], mkSel(t.args[1], i), mkSel(t.args[2], i))
	}
	f := t.sort.flds[i]
	return intern("sel", f.name, f.sort, big.NewInt(int64(i)), nil, t)
}

func mkApp(name string, s *Sort, as ...*Term) *Term {
	return intern("app", name, s, nil, nil, as...)
}

// ---------------------------------------------------------------- strings

func mkCat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "cat" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "strlit" {
			if t.name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == "strlit" {
				out[n-1] = mkStr(out[n-1].name + t.name)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	for i, t := range out {
		if t.op == "ite" && t.size < 200 {
			l := append(append(append([]*Term{}, out[:i]...), t.args[1]), out[i+1:]...)
			r := append(append(append([]*Term{}, out[:i]...), t.args[2]), out[i+1:]...)
			return mkIte(t.args[0], mkCat(l...), mkCat(r...))
		}
	}
	return intern("cat", "", sStr, nil, nil, out...)
}

func mkSlen(t *Term) *Term {
	switch t.op {
	case "strlit":
		return mkInt(int64(len(t.name)))
	case "cat":
		var ls []*Term
		for _, a := range t.args {
			ls = append(ls, mkSlen(a))
		}
		return mkAdd(ls...)
	case "ite":
		return mkIte(t.args[0], mkSlen(t.args[1]), mkSlen(t.args[2]))
	}
	return intern("slen", "", sInt, nil, nil, t)
}

// string functions on terms: hasprefix, hassuffix, contains, substr, lower, at ...
func mkStrFn(fn string, s *Sort, as ...*Term) *Term {
	all := true
	for _, a := range as {
		if a.op != "strlit" {
			all = false
		}
	}
	if all {
		switch fn {
		case "hasprefix":
			return mkBool(strings.HasPrefix(as[0].name, as[1].name))
		case "hassuffix":
			return mkBool(strings.HasSuffix(as[0].name, as[1].name))
		case "contains":
			return mkBool(strings.Contains(as[0].name, as[1].name))
		case "lower":
			return mkStr(strings.ToLower(as[0].name))
		}
	}
	if fn == "lower" && as[0].op == "strf" && as[0].name == "lower" {
		return as[0]
	}
	if fn == "contains" && as[0].op == "cat" && as[1].op == "strlit" {
		for _, a := range as[0].args {
			if a.op == "strlit" && strings.Contains(a.name, as[1].name) {
				return tTrue
			}
		}
	}
	if as[0].op == "ite" {
		mk := func(k int) *Term {
			n := append([]*Term{as[0].args[k]}, as[1:]...)
			return mkStrFn(fn, s, n...)
		}
		return mkIte(as[0].args[0], mk(1), mk(2))
	}
	return intern("strf", fn, s, nil, nil, as...)
}

// strEq simplifies equality of strings; nil if not simplifiable.
func strEq(a, b *Term) *Term {
	if a.op == "strlit" && b.op == "strlit" {
		return mkBool(a.name == b.name)
	}
	flat := func(t *Term) []*Term {
		if t.op == "cat" {
			return t.args
		}
		if t.op == "strlit" && t.name == "" {
			return nil
		}
		return []*Term{t}
	}
	x, y := flat(a), flat(b)
	if a.op != "cat" && b.op != "cat" {
		return nil
	}
	x, y = append([]*Term{}, x...), append([]*Term{}, y...)
	changed := false
	strip := func() bool { // false = definitely different
		for len(x) > 0 && len(y) > 0 {
			p, q := x[0], y[0]
			if p == q {
				x, y = x[1:], y[1:]
				changed = true
				continue
			}
			if p.op == "strlit" && q.op == "strlit" {
				n := len(p.name)
				if len(q.name) < n {
					n = len(q.name)
				}
				if p.name[:n] != q.name[:n] {
					return false
				}
				x[0], y[0] = mkStr(p.name[n:]), mkStr(q.name[n:])
				if x[0].name == "" {
					x = x[1:]
				}
				if y[0].name == "" {
					y = y[1:]
				}
				changed = true
				continue
			}
			break
		}
		for len(x) > 0 && len(y) > 0 {
			p, q := x[len(x)-1], y[len(y)-1]
			if p == q {
				x, y = x[:len(x)-1], y[:len(y)-1]
				changed = true
				continue
			}
			if p.op == "strlit" && q.op == "strlit" {
				n := len(p.name)
				if len(q.name) < n {
					n = len(q.name)
				}
				if p.name[len(p.name)-n:] != q.name[len(q.name)-n:] {
					return false
				}
				x[len(x)-1], y[len(y)-1] = mkStr(p.name[:len(p.name)-n]), mkStr(q.name[:len(q.name)-n])
				if x[len(x)-1].name == "" {
					x = x[:len(x)-1]
				}
				if y[len(y)-1].name == "" {
					y = y[:len(y)-1]
				}
				changed = true
				continue
			}
			break
		}
		return true
	}
	if !strip() {
		return tFalse
	}
	if len(x) == 0 && len(y) == 0 {
		return tTrue
	}
	if len(x) == 0 || len(y) == 0 {
		rest := x
		if len(x) == 0 {
			rest = y
		}
		var es []*Term
		for _, t := range rest {
			if t.op == "strlit" {
				return tFalse
			}
			es = append(es, mkEq(t, mkStr("")))
		}
		return mkAnd(es...)
	}
	if changed {
		return mkEq(mkCat(x...), mkCat(y...))
	}
	return nil
}

// ---------------------------------------------------------------- quantifiers

func mkQuant(op string, vars []*Term, body *Term) *Term {
	// keep the variables that occur
	var vs []*Term
	for _, v := range vars {
		for _, f := range body.fbv {
			if f == v.id {
				vs = append(vs, v)
				break
			}
		}
	}
	if len(vs) == 0 {
		return body
	}
	// canonical names by height
	sub := map[*Term]*Term{}
	var nv []*Term
	for i, v := range vs {
		c := mkBvar(fmt.Sprintf("q%d_%d_%s", body.h, i, sanitize(v.sort.name)), v.sort)
		if c != v {
			sub[v] = c
		}
		nv = append(nv, c)
	}
	if len(sub) > 0 {
		body = subst(body, sub)
	}
	if body == tTrue || body == tFalse {
		return body
	}
	return intern(op, "", sBool, nil, nv, body)
}

func mkForall(vars []*Term, body *Term) *Term { return mkQuant("forall", vars, body) }
func mkExists(vars []*Term, body *Term) *Term { return mkQuant("exists", vars, body) }

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(as[0])
	case "and":
		return mkAnd(as...)
	case "or":
		return mkOr(as...)
	case "ite":
		return mkIte(as[0], as[1], as[2])
	case "=":
		return mkEq(as[0], as[1])
	case "<=":
		return mkLe(as[0], as[1])
	case "+":
		return mkAdd(as...)
	case "*":
		return mkMul(as[0], as[1])
	case "select":
		return mkSelect(as[0], as[1])
	case "store":
		return mkStore(as[0], as[1], as[2])
	case "constarr":
		return mkConstArr(t.sort.k, as[0])
	case "ctor":
		return mkCtor(t.sort, as...)
	case "sel":
		return mkSel(as[0], int(t.n.Int64()))
	case "cat":
		return mkCat(as...)
	case "slen":
		return mkSlen(as[0])
	case "strf":
		return mkStrFn(t.name, t.sort, as...)
	case "div", "mod":
		return mkDivMod(t.op, as[0], as[1])
	case "forall", "exists":
		return mkQuant(t.op, t.bv, as[0])
	}
	return intern(t.op, t.name, t.sort, t.n, t.bv, as...)
}

func mkDivMod(op string, a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.n.Sign() > 0 {
		q, m := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		if op == "div" {
			return mkBig(q)
		}
		return mkBig(m)
	}
	return intern(op, "", sInt, nil, nil, a, b)
}

func short(t *Term) string {
	s := dumpTerm(t, 6)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func dumpTerm(t *Term, d int) string {
	switch t.op {
	case "int":
		return t.n.String()
	case "const", "bvar":
		return t.name
	case "strlit":
		return fmt.Sprintf("%q", t.name)
	}
	if len(t.args) == 0 {
		return t.op
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var b strings.Builder
	b.WriteString("(" + t.op)
	if t.name != "" {
		b.WriteString(":" + t.name)
	}
	for _, v := range t.bv {
		b.WriteString(" " + v.name)
	}
	for _, a := range t.args {
		b.WriteString(" " + dumpTerm(a, d-1))
	}
	b.WriteString(")")
	return b.String()
}
