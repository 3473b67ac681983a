package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type oblOut struct {
	Prop   string `json:"prop"`
	Kind   string `json:"kind"`
	Label  string `json:"label"`
	Fn     string `json:"fn"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	By     string `json:"by"`
	File   string `json:"file,omitempty"`
}

type harnessOut struct {
	Name    string         `json:"name"`
	Props   []string       `json:"props"`
	Obls    []oblOut       `json:"obligations"`
	Unsup   string         `json:"unsupported,omitempty"`
	Funcs   []string       `json:"functions"`
	Used    []string       `json:"models"`
	Externs map[string]int `json:"externs"`
	Assumes map[string]int `json:"assumes"`
	Loops   []loopOut      `json:"loops"`
	Vacuous bool           `json:"vacuous"`
	Secs    float64        `json:"secs"`
	Solver  float64        `json:"solver_secs"`
	Calls   int            `json:"solver_calls"`
	Won     map[string]int `json:"won"`
}

type loopOut struct {
	Fn   string   `json:"fn"`
	Pos  string   `json:"pos"`
	Kept []string `json:"kept"`
}

var keepFiles = os.Getenv("GOVC_KEEP") != ""

func main() {
	for _, e := range goEnv() {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GO") {
			i := strings.IndexByte(e, 61)
			os.Setenv(e[:i], e[i+1:])
		}
	}
	os.Unsetenv("GOROOT")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|worker|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	prop := fs.String("prop", "", "property")
	hn := fs.String("h", "", "contracts (comma separated)")
	out := fs.String("out", "", "output file")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Int64("seed", 1, "seed")
	_ = fs.Parse(os.Args[2:])
	switch cmd {
	case "worker":
		os.Exit(worker(*repo, *verif, *hn, *out))
	case "list":
		p, err := load(*repo, filepath.Join(*verif, "contracts"), patterns)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, h := range p.harness {
			fmt.Println(h.name, h.props)
		}
	case "check":
		os.Exit(check(*repo, *verif, *prop, *tier, *seed))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

var patterns = []string{"./core/manager", "./core/manager/auth", "./core/xdsresource", "./xdssuite", ".", "./vspec"}

// worker verifies the named contracts and writes the results as JSON
func worker(repo, verif, names, out string) int {
	t0 := time.Now()
	p, err := load(repo, filepath.Join(verif, "contracts"), patterns)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if os.Getenv("GOVC_TIME") != "" {
		fmt.Fprintf(os.Stderr, "load %.1fs\n", time.Since(t0).Seconds())
	}
	workDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if !keepFiles {
		defer os.RemoveAll(workDir)
	}
	want := map[string]bool{}
	for _, n := range strings.Split(names, ",") {
		want[n] = true
	}
	var res []*harnessOut
	for _, h := range p.harness {
		if want[h.name] {
			delete(want, h.name)
			if h.bad != "" {
				res = append(res, &harnessOut{Name: h.name, Props: h.props, Unsup: h.bad + " " + strings.Join(p.dropped, "; ")})
				continue
			}
			res = append(res, p.verify(h))
		}
	}
	for n := range want {
		res = append(res, &harnessOut{Name: n, Unsup: "the contract does not fit this tree: " + strings.Join(p.dropped, "; ")})
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if out == "" {
		for _, r := range res {
			printHarness(r)
		}
		return 0
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

func printHarness(r *harnessOut) {
	ok := 0
	for _, o := range r.Obls {
		if o.Status == "unsat" {
			ok++
		}
	}
	fmt.Printf("%s: %d/%d obligations, %.1fs (solver %.1fs, %d calls) %s\n", r.Name, ok, len(r.Obls), r.Secs, r.Solver, r.Calls, r.Unsup)
	for _, o := range r.Obls {
		if o.Status != "unsat" {
			fmt.Printf("   FAIL %s %s %q %s (%s) %s by %s %s\n", o.Kind, o.Prop, o.Label, o.Fn, o.Pos, o.Status, o.By, o.File)
		}
	}
	if r.Vacuous {
		fmt.Println("   VACUOUS")
	}
	if len(r.Externs) > 0 {
		fmt.Println("   unmodelled:", r.Externs)
	}
	if os.Getenv("GOVC_V") != "" {
		fmt.Println("   used:", r.Used)
		fmt.Println("   assumes:", r.Assumes)
		fmt.Println("   functions:", r.Funcs)
		for _, l := range r.Loops {
			fmt.Println("   loop", l.Fn, l.Pos, l.Kept)
		}
		for _, o := range r.Obls {
			fmt.Printf("   %s %s %s %q %s %s\n", o.Status, o.By, o.Kind, o.Label, o.Fn, o.Pos)
		}
	}
}

func (p *Prog) verify(h *Harness) *harnessOut {
	t0 := time.Now()
	s0 := stat
	stat = solverStat{won: map[string]int{}}
	_ = s0
	r := &harnessOut{Name: h.name, Props: h.props}
	x := newEx(p, h)
	var final *State
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupErr); ok {
					r.Unsup = u.msg
				} else {
					r.Unsup = fmt.Sprint("internal error: ", e)
					if os.Getenv("GOVC_TRACE") != "" {
						debug.PrintStack()
					}
				}
				where := ""
				for _, f := range x.stack {
					where += " " + f.Name()
				}
				r.Unsup += " [" + where + " at " + x.posStr() + "]"
			}
		}()
		ini := p.initState()
		st := ini.clone()
		n := st.heaps["next"]
		st.heaps["next"] = mkConst("next!0", sInt)
		x.assumeAlways(mkLeRaw(n, mkConst("next!0", sInt)))
		x.assumeAlways(mkLeRaw(mkInt(1), mkConst("next!0", sInt)))
		st.heaps[hHeld] = mkInt(0)
		for _, r := range p.rankList {
			st.heaps[rankHeap(r)] = mkInt(0)
		}
		var args []Val
		for _, pa := range h.fn.Params {
			t := mkConst("p!"+pa.Name(), sortOf(pa.Type()))
			inv := typeInv(t, pa.Type(), mkConst("next!0", sInt))
			if inv != tTrue {
				symAxioms[t] = append(symAxioms[t], inv)
			}
			if isRefSort(pa.Type()) {
				below[t] = mkConst("next!0", sInt)
			}
			args = append(args, Val{t: t})
		}
		_, final = x.callFn(h.fn, args, nil, st, nil)
	}()
	// discharge
	var wg sync.WaitGroup
	for _, o := range x.obls {
		if o.status == "unsat" {
			continue
		}
		as := append(append([]*Term{}, x.ass[:o.nass]...), o.pc)
		goal := o.cond
		wg.Add(1)
		termMu.Lock()
		txt := script(as, goal, x.native) + "(check-sat)\n"
		seqNo++
		file := filepath.Join(workDir, fmt.Sprintf("%s_%d.smt2", h.name, seqNo))
		termMu.Unlock()
		_ = os.WriteFile(file, []byte(txt), 0o644)
		o := o
		go func() {
			defer wg.Done()
			o.status, o.by, o.file = proveFile(file, x.native, h.sec, false)
		}()
	}
	// vacuity: the end of the contract must not be provably unreachable
	if final != nil {
		r.Vacuous = final.pc == tFalse
		if !r.Vacuous {
			st, _, _ := prove(append(append([]*Term{}, x.ass...), final.pc), tFalse, x.native, 2, true)
			r.Vacuous = st == "unsat"
		}
	}
	wg.Wait()
	for _, o := range x.obls {
		pr := o.prop
		if pr == "" {
			pr = strings.Join(h.props, " ")
		}
		r.Obls = append(r.Obls, oblOut{Prop: pr, Kind: o.kind, Label: o.label, Fn: o.fn, Pos: o.pos, Status: o.status, By: o.by, File: o.file})
	}
	for f := range x.inlined {
		r.Funcs = append(r.Funcs, f)
	}
	sort.Strings(r.Funcs)
	r.Used = sortedKeys(x.used)
	r.Externs, r.Assumes = x.externs, x.assumeN
	for _, l := range x.loops {
		r.Loops = append(r.Loops, loopOut{Fn: l.Func, Pos: fmt.Sprint("loop ", l.Loop), Kept: l.Kept})
	}
	r.Secs = time.Since(t0).Seconds()
	r.Solver, r.Calls, r.Won = stat.time.Seconds(), stat.calls, stat.won
	return r
}
