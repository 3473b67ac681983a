// Package rp is the support library of the replay tests (overlaid into the module, never written to /repo).
package rp

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/cloudwego/kitex/pkg/klog"
)

// R is one replay: a seeded source of choices and a count of the cases tried.
type R struct {
	*rand.Rand
	T     *testing.T
	Prop  string
	Name  string
	cases int
	fails int
	mu    sync.Mutex
	start time.Time
}

var thorough = os.Getenv("VERIF_TIER") == "thorough"

// Thorough reports the tier.
func Thorough() bool { return thorough }

// New starts a replay test.
func New(t *testing.T) *R {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	if os.Getenv("VERIF_LOG") == "" {
		klog.SetLevel(klog.LevelFatal)
	}
	p := strings.Split(t.Name(), "_")
	r := &R{Rand: rand.New(rand.NewSource(seed)), T: t, Prop: p[1], Name: t.Name(), start: time.Now()}
	t.Cleanup(func() { fmt.Printf("REPLAY-CASES %s %d\n", r.Name, r.cases) })
	return r
}

// N scales a number of cases by the tier.
func (r *R) N(n int) int {
	if thorough {
		return n * 20
	}
	return n
}

// Case counts a case.
func (r *R) Case() { r.mu.Lock(); r.cases++; r.mu.Unlock() }

// Fail reports a failing input (at most a few per test).
func (r *R) Fail(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.fails++
	if r.fails <= 3 {
		s := fmt.Sprintf(format, a...)
		s = strings.ReplaceAll(s, "\n", " ")
		if len(s) > 1500 {
			s = s[:1500]
		}
		fmt.Printf("REPLAY-FAIL %s %s: %s\n", r.Prop, r.Name, s)
	}
	r.T.Fail()
}

// Failed reports whether a failure was reported.
func (r *R) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.fails > 0 }

// Guard runs f and reports a panic as a failure.
func (r *R) Guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			r.Fail("%s panics: %v", what, e)
		}
	}()
	f()
}

// Within runs f and reports when it does not end in time.
func (r *R) Within(d time.Duration, what string, f func()) bool {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		r.Guard(what, f)
	}()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		r.Fail("%s does not return within %v", what, d)
		return false
	}
}

// Pick returns one of the values.
func Pick[T any](r *R, vs ...T) T { return vs[r.Intn(len(vs))] }

// Chance is true with probability p percent.
func (r *R) Chance(p int) bool { return r.Intn(100) < p }

var (
	dictOnce sync.Once
	dictInts []int64
	dictStrs []string
)

func harvest() {
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		return
	}
	is, ss := map[int64]bool{}, map[string]bool{}
	for _, d := range []string{".", "core/manager", "core/manager/auth", "core/xdsresource", "xdssuite"} {
		fs, _ := filepath.Glob(filepath.Join(root, d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch l := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BasicLit:
					switch l.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
							is[v] = true
						}
					case token.STRING:
						if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) < 64 {
							ss[s] = true
						}
					}
				}
				return true
			})
		}
	}
	for v := range is {
		dictInts = append(dictInts, v)
	}
	sort.Slice(dictInts, func(i, j int) bool { return dictInts[i] < dictInts[j] })
	for v := range ss {
		dictStrs = append(dictStrs, v)
	}
	sort.Strings(dictStrs)
}

// Ints are the integer literals of the repository's current source.
func Ints() []int64 { dictOnce.Do(harvest); return dictInts }

// Strs are the string literals of the repository's current source.
func Strs() []string { dictOnce.Do(harvest); return dictStrs }

// U32 draws a value with many boundary cases.
func (r *R) U32() uint32 {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return uint32(r.Intn(10))
	case 3:
		return 100
	case 4:
		return 1<<32 - 1
	case 5:
		return uint32(r.Int63())
	case 6:
		if v := Ints(); len(v) > 0 {
			return uint32(v[r.Intn(len(v))] + int64(r.Intn(3)) - 1)
		}
	case 7:
		return uint32(1)<<uint(r.Intn(32)) + uint32(r.Intn(3)) - 1
	}
	return uint32(r.Intn(10000))
}

// Name draws a string with many shapes.
func (r *R) Str() string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		if v := Strs(); len(v) > 0 {
			return v[r.Intn(len(v))]
		}
	case 2:
		if v := Strs(); len(v) > 0 {
			return v[r.Intn(len(v))] + fmt.Sprint(r.Intn(10))
		}
	case 3:
		return strings.Repeat("x", r.Intn(300))
	case 4:
		return "A" + fmt.Sprint(r.Intn(5)) + "-Z"
	}
	return fmt.Sprintf("%c%d", 'a'+rune(r.Intn(5)), r.Intn(5))
}

// SortStrs sorts and returns the strings.
func SortStrs(s []string) []string {
	sort.Strings(s)
	return s
}
