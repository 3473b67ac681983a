package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// symAxioms: axioms that come with a symbol (typing of heaps, definitions)
var symAxioms = map[*Term][]*Term{}

// funAxioms: axioms that come with an uninterpreted function name
var funAxioms = map[string][]*Term{}

type emitter struct {
	native bool
	decl   map[string]bool
	head   bytes.Buffer
	body   bytes.Buffer
	named  map[*Term]string
	refs   map[*Term]int
	lits   []string
	seenAx map[*Term]bool
	queue  []*Term
	tags   map[int64]bool
	gen    int
	boxes  map[string]*Sort
	lens   map[*Term]bool
}

func newEmitter(native bool) *emitter {
	return &emitter{native: native, decl: map[string]bool{}, named: map[*Term]string{}, seenAx: map[*Term]bool{}, boxes: map[string]*Sort{}, lens: map[*Term]bool{}}
}

func (e *emitter) sortName(s *Sort) string {
	switch s.kind {
	case 's':
		if e.native {
			return "String"
		}
		if !e.decl["sort Str"] {
			e.decl["sort Str"] = true
			e.head.WriteString("(declare-sort Str 0)\n")
		}
		return "Str"
	case 'u':
		if !e.decl["sort "+s.name] {
			e.decl["sort "+s.name] = true
			fmt.Fprintf(&e.head, "(declare-sort %s 0)\n", s.name)
		}
		return s.name
	case 'a':
		return "(Array " + e.sortName(s.k) + " " + e.sortName(s.v) + ")"
	case 'd':
		if !e.decl["sort "+s.name] {
			var fs []string
			for _, f := range s.flds {
				fs = append(fs, fmt.Sprintf("(%s_%s %s)", s.name, f.name, e.sortName(f.sort)))
			}
			e.decl["sort "+s.name] = true
			fmt.Fprintf(&e.head, "(declare-datatypes ((%s 0)) (((mk_%s %s))))\n", s.name, s.name, strings.Join(fs, " "))
		}
		return s.name
	}
	return s.name
}

func (e *emitter) declFun(name string, args []*Term, s *Sort) {
	if e.decl["f "+name] {
		return
	}
	e.decl["f "+name] = true
	var as []string
	for _, a := range args {
		as = append(as, e.sortName(a.sort))
	}
	fmt.Fprintf(&e.head, "(declare-fun %s (%s) %s)\n", name, strings.Join(as, " "), e.sortName(s))
}

func (e *emitter) declFunS(name string, args []*Sort, s *Sort) {
	if e.decl["f "+name] {
		return
	}
	e.decl["f "+name] = true
	var as []string
	for _, a := range args {
		as = append(as, e.sortName(a))
	}
	fmt.Fprintf(&e.head, "(declare-fun %s (%s) %s)\n", name, strings.Join(as, " "), e.sortName(s))
}

func litName(s string) string {
	return fmt.Sprintf("lit!%x", s)
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString("\"\"")
		} else if c >= 32 && c < 127 && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// collect counts references (each node visited once)
func collectRefs(t *Term, refs map[*Term]int, order *[]*Term) {
	refs[t]++
	if refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		collectRefs(a, refs, order)
	}
	*order = append(*order, t)
}

// assert emits an assertion
func (e *emitter) assert(t *Term) {
	s := e.define(t)
	fmt.Fprintf(&e.body, "(assert %s)\n", s)
}

// define emits the definitions of the shared closed subterms of t and returns the text of t
func (e *emitter) define(t *Term) string {
	refs := map[*Term]int{}
	var order []*Term
	collectRefs(t, refs, &order)
	for _, x := range order {
		e.note(x)
		if len(x.fbv) == 0 && len(x.args) > 0 && e.named[x] == "" && (refs[x] > 1 || x.op == "forall" || x.op == "exists" || x.size > 60) && x != t {
			txt := e.text(x, nil)
			e.gen++
			nm := fmt.Sprintf("d!%d", e.gen)
			fmt.Fprintf(&e.body, "(define-fun %s () %s %s)\n", nm, e.sortName(x.sort), txt)
			e.named[x] = nm
		}
	}
	return e.text(t, nil)
}

func (e *emitter) note(x *Term) {
	if ax, ok := symAxioms[x]; ok && !e.seenAx[x] {
		e.seenAx[x] = true
		e.queue = append(e.queue, ax...)
	}
	switch x.op {
	case "app":
		if ax, ok := funAxioms[x.name]; ok && !e.decl["ax "+x.name] {
			e.decl["ax "+x.name] = true
			e.queue = append(e.queue, ax...)
		}
		e.declFun("u!"+sanitize(x.name), x.args, x.sort)
	case "const":
		e.declFun(x.name, nil, x.sort)
	case "box":
		e.boxes[x.name] = x.args[0].sort
	case "unbox":
		e.boxes[x.name] = x.sort
	case "sel":
		if x.name == "len" && len(x.fbv) == 0 && !e.seenAx[x] {
			e.seenAx[x] = true
			e.queue = append(e.queue, mkLeRaw(mkInt(0), x))
		}
	case "slen":
		if len(x.fbv) == 0 {
			e.lens[x.args[0]] = true
		}
	case "strlit":
		if !e.native && !e.decl["l "+x.name] {
			e.decl["l "+x.name] = true
			e.lits = append(e.lits, x.name)
			fmt.Fprintf(&e.head, "(declare-fun %s () %s)\n", litName(x.name), e.sortName(sStr))
		}
	case "cat":
		if !e.native {
			e.declFunS("scat", []*Sort{sStr, sStr}, sStr)
		}
	case "card":
		e.declFun("card!"+sanitize(x.args[0].sort.name), x.args, sInt)
	}
}

// text renders t; let-binds shared open subterms inside quantifiers.
func (e *emitter) text(t *Term, lets map[*Term]string) string {
	var b strings.Builder
	e.render(&b, t, lets)
	return b.String()
}

func (e *emitter) render(b *strings.Builder, t *Term, lets map[*Term]string) {
	if n, ok := e.named[t]; ok {
		b.WriteString(n)
		return
	}
	if n, ok := lets[t]; ok {
		b.WriteString(n)
		return
	}
	list := func(head string, as []*Term) {
		b.WriteByte('(')
		b.WriteString(head)
		for _, a := range as {
			b.WriteByte(' ')
			e.render(b, a, lets)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case "true", "false":
		b.WriteString(t.op)
	case "int":
		if t.n.Sign() < 0 {
			s := t.n.String()
			b.WriteString("(- " + s[1:] + ")")
		} else {
			b.WriteString(t.n.String())
		}
	case "const", "bvar":
		b.WriteString(t.name)
	case "strlit":
		if e.native {
			b.WriteString(smtStr(t.name))
		} else {
			b.WriteString(litName(t.name))
		}
	case "not", "and", "or", "ite", "=", "+", "*", "<=", "div", "mod", "select", "store":
		list(t.op, t.args)
	case "constarr":
		list("(as const "+e.sortName(t.sort)+")", t.args)
	case "ctor":
		if len(t.args) == 0 {
			b.WriteString("mk_" + e.sortName(t.sort))
			return
		}
		list("mk_"+e.sortName(t.sort), t.args)
	case "sel":
		list(e.sortName(t.args[0].sort)+"_"+t.name, t.args)
	case "app":
		if len(t.args) == 0 {
			b.WriteString("u!" + sanitize(t.name))
			return
		}
		list("u!"+sanitize(t.name), t.args)
	case "box":
		list("box!"+t.name, t.args)
	case "unbox":
		list("unbox!"+t.name, t.args)
	case "card":
		list("card!"+sanitize(t.args[0].sort.name), t.args)
	case "cat":
		if e.native {
			list("str.++", t.args)
			return
		}
		for i := 0; i < len(t.args)-1; i++ {
			b.WriteString("(scat ")
			e.render(b, t.args[i], lets)
			b.WriteByte(' ')
		}
		e.render(b, t.args[len(t.args)-1], lets)
		b.WriteString(strings.Repeat(")", len(t.args)-1))
	case "slen":
		if e.native {
			list("str.len", t.args)
			return
		}
		e.declFunS("slen", []*Sort{sStr}, sInt)
		list("slen", t.args)
	case "strf":
		e.strf(b, t, lets)
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bv {
			fmt.Fprintf(b, "(%s %s)", v.name, e.sortName(v.sort))
		}
		b.WriteString(") ")
		// pattern annotation
		pats := patternOf[t]
		// shared open subterms
		refs := map[*Term]int{}
		var order []*Term
		collectRefs(t.args[0], refs, &order)
		l2 := map[*Term]string{}
		for k, v := range lets {
			l2[k] = v
		}
		n := 0
		body := t.args[0]
		if len(pats) > 0 {
			b.WriteString("(! ")
		}
		canLet := func(x *Term) bool {
			if refs[x] < 2 || len(x.args) == 0 || len(x.fbv) == 0 || x == body {
				return false
			}
			if _, ok := l2[x]; ok {
				return false
			}
			return true
		}
		// subterms below a nested quantifier whose variables are bound there cannot be let-bound here
		bound := map[int]bool{}
		for _, x := range order {
			for _, v := range x.bv {
				bound[v.id] = true
			}
		}
		for _, x := range order {
			if !canLet(x) {
				continue
			}
			esc := false
			for _, f := range x.fbv {
				if bound[f] {
					esc = true
				}
			}
			if esc {
				continue
			}
			e.gen++
			nm := fmt.Sprintf("l!%d", e.gen)
			b.WriteString("(let ((" + nm + " ")
			e.render(b, x, l2)
			b.WriteString(")) ")
			l2[x] = nm
			n++
		}
		e.render(b, body, l2)
		b.WriteString(strings.Repeat(")", n))
		if len(pats) > 0 {
			for _, p := range pats {
				b.WriteString(" :pattern (")
				for i, q := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					e.note(q)
					e.render(b, q, lets)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		panic("render " + t.op)
	}
}

var patternOf = map[*Term][][]*Term{}

func (e *emitter) strf(b *strings.Builder, t *Term, lets map[*Term]string) {
	w := func(head string, as ...*Term) {
		b.WriteByte('(')
		b.WriteString(head)
		for _, a := range as {
			b.WriteByte(' ')
			e.render(b, a, lets)
		}
		b.WriteByte(')')
	}
	if e.native {
		switch t.name {
		case "hasprefix":
			w("str.prefixof", t.args[1], t.args[0])
			return
		case "hassuffix":
			w("str.suffixof", t.args[1], t.args[0])
			return
		case "contains":
			w("str.contains", t.args[0], t.args[1])
			return
		case "substr": // s, lo, len
			w("str.substr", t.args...)
			return
		case "indexof": // s, t, from
			w("str.indexof", t.args...)
			return
		case "replaceall":
			w("str.replace_all", t.args...)
			return
		case "at":
			b.WriteString("(str.to_code ")
			w("str.at", t.args...)
			b.WriteString(")")
			return
		case "lt":
			w("str.<", t.args...)
			return
		}
	}
	nm := "sf!" + sanitize(t.name)
	var as []*Sort
	for _, a := range t.args {
		as = append(as, a.sort)
	}
	e.declFunS(nm, as, t.sort)
	if ax, ok := funAxioms["strf:"+t.name]; ok && !e.decl["ax strf "+t.name] {
		e.decl["ax strf "+t.name] = true
		e.queue = append(e.queue, ax...)
	}
	w(nm, t.args...)
}

func (e *emitter) flush() {
	for len(e.queue) > 0 {
		q := e.queue
		e.queue = nil
		for _, a := range q {
			e.assert(a)
		}
	}
}

func (e *emitter) finish() string {
	e.flush()
	var x bytes.Buffer
	var bn []string
	for n := range e.boxes {
		bn = append(bn, n)
	}
	sort.Strings(bn)
	var ax bytes.Buffer
	for _, n := range bn {
		s := e.sortName(e.boxes[n])
		fmt.Fprintf(&ax, "(declare-fun box!%s (%s) Int)\n(declare-fun unbox!%s (Int) %s)\n", n, s, n, s)
		fmt.Fprintf(&ax, "(assert (forall ((x %s)) (! (and (= (unbox!%s (box!%s x)) x) (< (box!%s x) 0)) :pattern ((box!%s x)))))\n", s, n, n, n, n)
	}
	if !e.native {
		if len(e.lits) > 1 {
			x.WriteString("(assert (distinct")
			for _, l := range e.lits {
				x.WriteString(" " + litName(l))
			}
			x.WriteString("))\n")
		}
		if e.decl["f slen"] {
			if !e.decl["l "] {
				fmt.Fprintf(&e.head, "(declare-fun %s () Str)\n", litName(""))
			}
			fmt.Fprintf(&x, "(assert (forall ((s Str)) (! (and (<= 0 (slen s)) (= (= (slen s) 0) (= s %s))) :pattern ((slen s)))))\n", litName(""))
			for _, l := range e.lits {
				fmt.Fprintf(&x, "(assert (= (slen %s) %d))\n", litName(l), len(l))
			}
			if e.decl["f scat"] {
				x.WriteString("(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((slen (scat a b))))))\n")
			}
		}
	}
	return "(set-logic ALL)\n" + "(declare-datatypes ((Slice 0)) (((mk_Slice (Slice_arr Int) (Slice_len Int)))))\n(declare-datatypes ((Iface 0)) (((mk_Iface (Iface_tag Int) (Iface_val Int)))))\n" +
		e.head.String() + ax.String() + x.String() + e.body.String()
}

func script(assumps []*Term, goal *Term, native bool) string {
	e := newEmitter(native)
	e.decl["sort Slice"] = true
	e.decl["sort Iface"] = true
	for _, a := range assumps {
		e.assert(a)
	}
	if goal != nil {
		e.assert(mkNot(goal))
	}
	return e.finish()
}

// ---------------------------------------------------------------- running solvers

type solverStat struct {
	calls int
	time  time.Duration
	won   map[string]int
}

var (
	stat    = solverStat{won: map[string]int{}}
	statMu  sync.Mutex
	workDir string
	seqNo   int
	sem     = make(chan struct{}, 8)
)

type solver struct {
	name string
	cmd  []string
}

func solverCmd(name, file string, sec int) []string {
	switch name {
	case "z3-new":
		return []string{"z3-new", fmt.Sprintf("-T:%d", sec), file}
	case "z3":
		return []string{"z3", fmt.Sprintf("-T:%d", sec), file}
	case "z3-new-auto":
		return []string{"z3-new", "smt.auto_config=false", "smt.mbqi=false", fmt.Sprintf("-T:%d", sec), file}
	case "cvc5":
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", sec*1000), "--full-saturate-quant", file}
	case "cvc5s":
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", sec*1000), "--strings-exp", file}
	}
	return nil
}

// slow multiplies the time limits (second attempt of a check on a loaded machine)
var slow = func() int {
	n, _ := strconv.Atoi(os.Getenv("GOVC_SLOW"))
	if n < 1 {
		n = 1
	}
	return n
}()

func runSolver(ctx context.Context, name, file string, sec int) string {
	sec *= slow
	a := solverCmd(name, file, sec)
	ctx, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, a[0], a[1:]...)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	t0 := time.Now()
	_ = c.Run()
	statMu.Lock()
	stat.calls++
	stat.time += time.Since(t0)
	statMu.Unlock()
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l
		}
	}
	return "timeout"
}

// prove reports whether assumps imply goal. The result is "unsat" when proved.
func prove(assumps []*Term, goal *Term, native bool, sec int, light bool) (string, string, string) {
	if goal == tTrue {
		return "unsat", "simplifier", ""
	}
	for _, a := range assumps {
		if a == tFalse {
			return "unsat", "simplifier", ""
		}
	}
	termMu.Lock()
	txt := script(assumps, goal, native) + "(check-sat)\n"
	statMu.Lock()
	seqNo++
	file := filepath.Join(workDir, fmt.Sprintf("q%d.smt2", seqNo))
	statMu.Unlock()
	termMu.Unlock()
	_ = os.WriteFile(file, []byte(txt), 0o644)
	return proveFile(file, native, sec, light)
}

var termMu sync.Mutex

func proveFile(file string, native bool, sec int, light bool) (string, string, string) {
	sem <- struct{}{}
	defer func() { <-sem }()
	first, others := "z3-new", []string{"z3-new-auto", "cvc5", "z3"}
	if native {
		first, others = "z3-new", []string{"cvc5s", "z3"}
	}
	q := 3
	if light {
		q = 2
	}
	if sec < q {
		q = sec
	}
	if light && !native {
		first = "z3-new-auto"
	}
	r := runSolver(context.Background(), first, file, q)
	if r == "unsat" || (r == "sat" && !light) || strings.HasPrefix(r, "error") || light {
		win(first, r)
		return r, first, file
	}
	type res struct{ r, n string }
	ch := make(chan res, len(others)+1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	all := others
	if q < sec {
		all = append([]string{first}, others...)
	}
	for _, n := range all {
		go func(n string) { ch <- res{runSolver(ctx, n, file, sec), n} }(n)
	}
	last := res{r, first}
	for range all {
		x := <-ch
		if x.r == "unsat" {
			win(x.n, x.r)
			return x.r, x.n, file
		}
		if x.r == "sat" && x.n != "z3-new-auto" {
			return x.r, x.n, file
		}
		if x.r == "unknown" {
			last = x
		}
	}
	return last.r, last.n, file
}

func win(n, r string) {
	if r == "unsat" {
		statMu.Lock()
		stat.won[n]++
		statMu.Unlock()
	}
}

// proveMany proves goals independently, in parallel (light mode: one solver, short time).
func proveMany(assumps []*Term, goals []*Term, native bool) []bool {
	out := make([]bool, len(goals))
	var wg sync.WaitGroup
	for i, g := range goals {
		if g == tTrue {
			out[i] = true
			continue
		}
		wg.Add(1)
		go func(i int, g *Term) {
			defer wg.Done()
			r, _, _ := prove(assumps, g, native, 3, true)
			out[i] = r == "unsat"
		}(i, g)
	}
	wg.Wait()
	return out
}
