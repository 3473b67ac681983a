package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// contracts that serve a property, by scanning the contract files (no type checking)
func contractsOf(verif, prop string) []string {
	var out []string
	for _, f := range overlayFiles(filepath.Join(verif, "contracts"), "/x") {
		b, _ := os.ReadFile(f)
		var props []string
		sec := 0
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//govc:prop ") {
				props = strings.Fields(l)[1:]
			}
			if strings.HasPrefix(l, "func VC_") {
				n := l[len("func "):strings.IndexByte(l, '(')]
				ps := props
				if ps == nil {
					ps = []string{strings.Split(n, "_")[1]}
				}
				for _, p := range ps {
					if p == prop {
						out = append(out, n)
					}
				}
			}
			if !strings.HasPrefix(l, "//") {
				props = nil
			}
		}
		_ = sec
	}
	sort.Strings(out)
	return out
}

type replayOut struct {
	ran     bool
	failed  bool
	failure string
	cases   int
	runs    []string
	text    string
	broken  string
	secs    float64
}

func check(repo, verif, prop, tier string, seed int64) int {
	t0 := time.Now()
	names := contractsOf(verif, prop)
	evid := filepath.Join(verif, "evidence", prop+".json")
	_ = os.MkdirAll(filepath.Dir(evid), 0o755)
	tmp, err := os.MkdirTemp("", "govcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	// the repository must compile; a tree that does not build is not judged
	// replay runs concurrently with the proofs
	rch := make(chan replayOut, 1)
	go func() { rch <- replay(repo, verif, prop, tier, seed, tmp) }()

	// warm the build cache for the workers
	self, _ := os.Executable()
	nw := 4
	if len(names) < nw {
		nw = len(names)
	}
	groups := make([][]string, nw)
	for i, n := range names {
		groups[i%nw] = append(groups[i%nw], n)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var all []*harnessOut
	var errs []string
	run := func(i int, g []string, lim time.Duration, env ...string) {
		defer wg.Done()
		out := filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
		ctx, cancel := context.WithTimeout(context.Background(), lim)
		defer cancel()
		c := exec.CommandContext(ctx, self, "worker", "-repo", repo, "-verif", verif, "-h", strings.Join(g, ","), "-out", out)
		c.Env = append(os.Environ(), env...)
		var eb bytes.Buffer
		c.Stderr = &eb
		err := c.Run()
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			errs = append(errs, fmt.Sprintf("%v: %s", err, eb.String()))
			return
		}
		var r []*harnessOut
		b, _ := os.ReadFile(out)
		if e := json.Unmarshal(b, &r); e != nil {
			errs = append(errs, e.Error())
			return
		}
		all = append(all, r...)
	}
	for i, g := range groups {
		wg.Add(1)
		go run(i, g, 560*time.Second)
	}
	wg.Wait()
	rp := <-rch
	// what is not discharged is tried once more with longer solver limits, one worker at a time
	var again []string
	var keep []*harnessOut
	for _, h := range all {
		bad := h.Unsup != "" && strings.Contains(h.Unsup, "stabilise")
		for _, o := range h.Obls {
			bad = bad || hasProp(o.Prop, prop) && o.Status != "unsat"
		}
		if bad {
			again = append(again, h.Name)
		} else {
			keep = append(keep, h)
		}
	}
	if left := 780*time.Second - time.Since(t0); len(again) > 0 && !rp.failed && len(errs) == 0 && left > 200*time.Second {
		first := all
		all = nil
		wg.Add(1)
		run(100, again, left, "GOVC_SLOW=4")
		if len(errs) > 0 {
			all, errs = first, nil
		} else {
			all = append(all, keep...)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Name < all[j].Name })

	// verdict
	var failed []string
	seenH := map[string]bool{}
	nobl, nok := 0, 0
	by := map[string]int{}
	funcs, used, assumes, unmod := map[string]bool{}, map[string]bool{}, map[string]int{}, map[string]int{}
	loops := map[string]int{}
	solver, calls := 0.0, 0
	var detail []map[string]interface{}
	kinds := map[string]int{}
	for _, h := range all {
		seenH[h.Name] = true
		solver += h.Solver
		calls += h.Calls
		n, ok := 0, 0
		for _, o := range h.Obls {
			if !hasProp(o.Prop, prop) {
				continue
			}
			n++
			kinds[o.Kind]++
			if o.Status == "unsat" {
				ok++
				by[o.By]++
			} else {
				failed = append(failed, fmt.Sprintf("%s: %s %q in %s (%s): %s by %s", h.Name, o.Kind, o.Label, o.Fn, o.Pos, verdict(o.Status), o.By))
			}
		}
		if h.Unsup != "" {
			failed = append(failed, fmt.Sprintf("%s: not verified: %s", h.Name, h.Unsup))
		} else if h.Vacuous {
			failed = append(failed, h.Name+": the end of the contract is unreachable (vacuous)")
		}
		nobl, nok = nobl+n, nok+ok
		for _, f := range h.Funcs {
			if !strings.Contains(f, ".VC_") && !strings.Contains(f, ".spec") && !strings.Contains(f, ".inv") && !strings.Contains(f, ".model") && !strings.Contains(f, "/vspec.") {
				funcs[f] = true
			}
		}
		for _, u := range h.Used {
			used[u] = true
		}
		for a, k := range h.Assumes {
			assumes[a] += k
		}
		for a, k := range h.Externs {
			unmod[a] += k
		}
		for _, l := range h.Loops {
			loops[l.Fn] += len(l.Kept)
		}
		detail = append(detail, map[string]interface{}{"contract": h.Name, "obligations": n, "discharged": ok, "solver_s": round(h.Solver), "wall_s": round(h.Secs), "loops": h.Loops})
	}
	for _, n := range names {
		if !seenH[n] && len(errs) == 0 {
			failed = append(failed, n+": contract not found by the verifier")
		}
	}
	for _, e := range errs {
		failed = append(failed, "verifier: "+strings.TrimSpace(e))
	}
	if len(names) > 0 && nobl == 0 && len(failed) == 0 {
		failed = append(failed, "no obligation was generated")
	}
	var assumptions []string
	for _, a := range sortedS(used) {
		assumptions = append(assumptions, "model of a dependency (assumed contract): "+a)
	}
	for _, a := range sortedI(assumes) {
		assumptions = append(assumptions, a)
	}
	for _, a := range sortedI(unmod) {
		assumptions = append(assumptions, "call with unknown results and no effect on the heap: "+a)
	}
	assumptions = append(assumptions, generalAssumptions...)
	cov := map[string]interface{}{
		"obligations": nobl, "discharged": nok,
		"checker_cmd":               fmt.Sprintf("%s worker -repo %s -verif %s -h %s", self, repo, verif, strings.Join(names, ",")),
		"trusted_base":              trustedBase,
		"contracts":                 detail,
		"functions_under_contract":  sortedS(funcs),
		"discharged_by":             by,
		"obligation_kinds":          kinds,
		"solver_time_s":             round(solver),
		"solver_calls":              calls,
		"loop_invariants_inductive": loops,
		"bounded_replay":            map[string]interface{}{"label": "bounded (not counted as proved)", "cases": rp.cases, "tests": rp.runs, "wall_s": round(rp.secs), "note": rp.broken},
	}
	known := knownFindings(verif, prop)
	viol := 0
	code := 0
	confirmed := rp.failed
	if len(failed) > 0 || confirmed {
		viol = 1
		code = 1
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evid, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range known {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + k)
	}
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, solver %.1fs; bounded replay: %d cases; wall %.1fs\n", prop, len(all), nok, nobl, solver, rp.cases, time.Since(t0).Seconds())
	if code == 0 {
		if rp.broken != "" {
			fmt.Println("note:", rp.broken)
		}
		return 0
	}
	rf := filepath.Join(verif, "evidence", "replay_"+prop+".txt")
	var w bytes.Buffer
	fmt.Fprintf(&w, "property %s\n\nfailed obligations:\n", prop)
	for _, f := range failed {
		fmt.Fprintln(&w, "  "+f)
		fmt.Println("  " + f)
	}
	if confirmed {
		fmt.Fprintf(&w, "\nreplay against the real code:\n%s\n", rp.text)
		fmt.Println("  replay: " + rp.failure)
	} else {
		fmt.Fprintf(&w, "\nno failing input was found by the replay (%d cases) %s\n%s\n", rp.cases, rp.broken, tail(rp.text, 4000))
	}
	_ = os.WriteFile(rf, w.Bytes(), 0o644)
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rf)
	if !confirmed {
		line += " no-failing-input-found"
	}
	fmt.Println(line)
	return 1
}

func hasProp(ps, p string) bool {
	for _, q := range strings.Fields(ps) {
		if q == p {
			return true
		}
	}
	return false
}

func verdict(s string) string {
	if s == "sat" {
		return "refuted"
	}
	return "not discharged (" + s + ")"
}

func round(f float64) float64 {
	v, _ := strconv.ParseFloat(fmt.Sprintf("%.2f", f), 64)
	return v
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func sortedS(m map[string]bool) []string { return sortedKeys(m) }

func sortedI(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func knownFindings(verif, prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return out
}

var trustedBase = []string{
	"govc (this verifier: go/ssa translation, heap model, verification-condition generator)",
	"golang.org/x/tools/go/ssa v0.52.0 and the Go type checker",
	"z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)",
	"the contracts in /verif/contracts (specification)",
}

var generalAssumptions = []string{
	"int and int64 arithmetic is mathematical (no overflow); uint8/16/32/64 and int8/16/32 wrap",
	"floating point values are uninterpreted",
	"partial correctness: termination of loops is not proved",
	"append always returns a fresh backing array; a re-slice with a non-zero low bound is a copy",
	"decoded protobuf messages have no nil elements in repeated message fields and no nil oneof members",
	"reflect, unsafe and cgo are not used by the functions under contract",
}

// ---------------------------------------------------------------- replay

// replay runs the bounded search for failing inputs against the real code: Go tests overlaid into the packages.
func replay(repo, verif, prop, tier string, seed int64, tmp string) replayOut {
	t0 := time.Now()
	var r replayOut
	root := filepath.Join(verif, "replay")
	type pk struct{ dir string }
	tests := map[string][]string{} // dir -> files
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		tests[filepath.Dir(rel)] = append(tests[filepath.Dir(rel)], p)
		return nil
	})
	ov := map[string]string{}
	var dirs []string
	for d, fs := range tests {
		has := false
		for _, f := range fs {
			dst := d
			if dst == "root" {
				dst = ""
			}
			b, _ := os.ReadFile(f)
			mine := bytes.Contains(b, []byte("func TestReplay_"+prop+"_"))
			if !mine && bytes.Contains(b, []byte("func TestReplay_")) {
				continue
			}
			ov[filepath.Join(repo, dst, "zz_verif_"+filepath.Base(f))] = f
			if mine {
				has = true
			}
		}
		if has {
			dirs = append(dirs, d)
		}
	}
	sort.Strings(dirs)
	if len(dirs) == 0 {
		r.broken = "no replay for this property"
		return r
	}
	_ = filepath.Walk(filepath.Join(verif, "replay", "lib"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(filepath.Join(verif, "replay", "lib"), p)
			ov[filepath.Join(repo, "zzverif", rel)] = p
		}
		return nil
	})
	ovf := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	_ = os.WriteFile(ovf, b, 0o644)
	r.ran = true
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, d := range dirs {
		wg.Add(1)
		go func(d string) {
			defer wg.Done()
			out, broken := runReplay(repo, d, prop, tier, seed, ovf, tmp)
			mu.Lock()
			defer mu.Unlock()
			r.text += out
			if broken != "" {
				r.broken += broken + "; "
			}
			for _, l := range strings.Split(out, "\n") {
				l = strings.TrimSpace(l)
				if i := strings.Index(l, "REPLAY-FAIL "); i >= 0 {
					if !r.failed {
						r.failure = l[i:]
					}
					r.failed = true
				}
				if i := strings.Index(l, "REPLAY-CASES "); i >= 0 {
					f := strings.Fields(l[i:])
					if len(f) >= 3 {
						n, _ := strconv.Atoi(f[2])
						r.cases += n
						r.runs = append(r.runs, f[1])
					}
				}
			}
		}(d)
	}
	wg.Wait()
	r.secs = time.Since(t0).Seconds()
	return r
}

func runReplay(repo, d, prop, tier string, seed int64, ovf, tmp string) (string, string) {
	dst := "./" + d
	if d == "root" {
		dst = "."
	}
	bin := filepath.Join(tmp, "rp_"+strings.ReplaceAll(d, "/", "_")+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	race := prop == "C07"
	if race {
		args = append(args, "-race")
	}
	lim := 240 * time.Second
	if tier == "thorough" {
		lim = 600 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	c := exec.CommandContext(ctx, "/opt/veriftools/go1.23.12/bin/go", append(args, dst)...)
	c.Dir = repo
	c.Env = append(goEnv(), "PWD="+repo)
	out, err := c.CombinedOutput()
	if err != nil {
		return string(out), "replay of " + d + " does not build against this tree"
	}
	c = exec.CommandContext(ctx, bin, "-test.run", "^TestReplay_"+prop+"_", "-test.v", "-test.timeout", "200s")
	if tier == "thorough" {
		c.Args[len(c.Args)-1] = "580s"
	}
	wd, _ := os.MkdirTemp(tmp, "run")
	c.Dir = wd
	c.Env = append(goEnv(), "PWD="+wd, "VERIF_SEED="+strconv.FormatInt(seed, 10), "VERIF_TIER="+tier, "VERIF_REPO="+repo)
	out, err = c.CombinedOutput()
	s := string(out)
	if err != nil && !strings.Contains(s, "REPLAY-FAIL") {
		switch {
		case strings.Contains(s, "WARNING: DATA RACE"):
			s += "\nREPLAY-FAIL " + prop + " data race reported by the race detector\n"
		case strings.Contains(s, "panic: test timed out"):
			s += "\nREPLAY-FAIL " + prop + " the scenario does not terminate (deadlock)\n"
		case strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:"):
			s += "\nREPLAY-FAIL " + prop + " panic: " + firstPanic(s) + "\n"
		case strings.Contains(s, "--- FAIL"):
			s += "\nREPLAY-FAIL " + prop + " test failed\n"
		default:
			return s, "replay of " + d + " ended abnormally: " + err.Error()
		}
	}
	return s, ""
}

func firstPanic(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return ""
}
