package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kitex-contrib/xds"

// Prog is the loaded program: the repository's current source plus the overlaid contracts.
type Prog struct {
	prog      *ssa.Program
	fset      *token.FileSet
	dir       string
	pkgs      []*ssa.Package
	infos     map[*ssa.Function]*fnInfo
	pureNames []string
	externs   map[string]*ssa.Function
	named     map[string]*ssa.Function // contract functions by name
	rec       map[*ssa.Function]bool
	dropped   []string
	harness   []*Harness
	contract  map[*ssa.Function]bool
	implTab   map[string][]types.Type
	guards    map[string]guardSpec // heap key of a field -> lock field
	immut     map[*ssa.Global]bool
	initSt    *State
	nRepoFns  int
	overlay   map[string]string
	ranks     map[string]int // lock field -> position in the lock order
	rankList  []int
}

type guardSpec struct {
	root types.Type
	lock []int // path of the lock field
	name string
	wr   bool // only writes need the lock
}

// Harness is one verification unit: a contract function.
type Harness struct {
	fn       *ssa.Function
	name     string
	props    []string
	noPanic  bool
	native   bool
	conc     bool
	inline   bool
	sec      int
	requires int
	bad      string
	use      map[string]*ssa.Function
	loops    []*ssa.Function
	dispatch []string
	interf   *ssa.Function
	await    *ssa.Function
	doc      string
}

func overlayFiles(contracts, repo string) map[string]string {
	ov := map[string]string{}
	_ = filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, p)
		d, f := filepath.Split(rel)
		if !strings.HasPrefix(d, "vspec") {
			f = "zz_verif_" + f
		}
		if strings.HasPrefix(d, "root/") {
			d = strings.TrimPrefix(d, "root/")
		}
		ov[filepath.Join(repo, d, f)] = p
		return nil
	})
	return ov
}

func goEnv() []string {
	var env []string
	drop := map[string]bool{"GOROOT": true, "GOFLAGS": true, "GOENV": true, "GOWORK": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOSUMDB": true, "PATH": true, "GOVCS": true}
	for _, e := range os.Environ() {
		if i := strings.IndexByte(e, '='); i > 0 && drop[e[:i]] {
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOENV=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOVCS=*:off", "GOFLAGS=-mod=readonly")
}

func load(repo, contracts string, pats []string) (*Prog, error) {
	ovf := overlayFiles(contracts, repo)
	ov := map[string][]byte{}
	for k, f := range ovf {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir:     repo,
		Env:     append(goEnv(), "PWD="+repo),
		Overlay: ov,
		Fset:    token.NewFileSet(),
	}
	// only the repository's packages are loaded from source; dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	var pk []*packages.Package
	var errs []string
	var dropped []string
	for try := 0; try < 6; try++ {
		var err error
		pk, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		errs = nil
		drop := map[string]bool{}
		other := false
		packages.Visit(pk, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				f := e.Pos
				if i := strings.Index(f, ".go:"); i >= 0 {
					f = f[:i+3]
				}
				if _, ok := ov[f]; ok && strings.HasPrefix(filepath.Base(f), "zz_verif_") {
					drop[f] = true
				} else {
					other = true
				}
			}
		})
		if len(drop) == 0 || other && len(drop) == 0 {
			break
		}
		// a contract that no longer type-checks against the source is set aside (its contracts fail)
		for f := range drop {
			delete(ov, f)
			delete(ovf, f)
			dropped = append(dropped, filepath.Base(f)+": "+strings.Join(errs, "; "))
		}
	}
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	sp, pkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{prog: sp, fset: cfg.Fset, dir: repo, infos: map[*ssa.Function]*fnInfo{}, externs: map[string]*ssa.Function{}, named: map[string]*ssa.Function{},
		rec: map[*ssa.Function]bool{}, dropped: dropped, contract: map[*ssa.Function]bool{}, implTab: map[string][]types.Type{}, guards: map[string]guardSpec{}, overlay: ovf}
	p.pkgs = pkgs
	for _, sk := range pkgs {
		if sk == nil {
			return nil, fmt.Errorf("package without ssa")
		}
	}
	registerConcHeaps()
	elemHeap(types.NewInterfaceType(nil, nil))
	type dirv struct {
		fn   *ssa.Function
		decl *ast.FuncDecl
		pkg  *ssa.Package
	}
	var dvs []dirv
	for i, pp := range pk {
		for _, f := range pp.Syntax {
			fname := cfg.Fset.Position(f.Pos()).Filename
			if _, ok := ovf[fname]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := pp.TypesInfo.Defs[fd.Name].(*types.Func)
				fn := sp.FuncValue(obj)
				if fn == nil {
					continue
				}
				p.contract[fn] = true
				p.named[fd.Name.Name] = fn
				dvs = append(dvs, dirv{fn, fd, pkgs[i]})
			}
		}
	}
	for _, d := range dvs {
		dirs := directives(d.decl.Doc)
		var h *Harness
		if strings.HasPrefix(d.decl.Name.Name, "VC_") {
			h = &Harness{fn: d.fn, name: d.decl.Name.Name, sec: 20, use: map[string]*ssa.Function{}}
			parts := strings.Split(h.name, "_")
			h.props = []string{parts[1]}
			p.harness = append(p.harness, h)
		}
		for _, l := range dirs {
			w := strings.Fields(l)
			if len(w) == 0 {
				continue
			}
			arg := strings.TrimSpace(strings.TrimPrefix(l, w[0]))
			switch w[0] {
			case "extern":
				p.externs[arg] = d.fn
			case "rec":
				p.rec[d.fn] = true
			case "pure":
				p.pureNames = append(p.pureNames, arg)
			case "guard":
				// guard Type field lockfield
				if err := p.addGuard(d.pkg, w[1], w[2], w[3], len(w) > 4 && w[4] == "write"); err != nil {
					return nil, err
				}
			case "prop":
				h.props = w[1:]
			case "nopanic":
				h.noPanic = true
			case "native":
				h.native = true
			case "conc":
				h.conc = true
			case "seconds":
				h.sec, _ = strconv.Atoi(w[1])
			case "dispatch":
				h.dispatch = append(h.dispatch, arg)
			case "loops":
				for _, n := range w[1:] {
					f := p.named[n]
					if f == nil {
						h.bad = "unknown loop template " + n
						continue
					}
					h.loops = append(h.loops, f)
				}
			case "use":
				// use Model = name
				i := strings.Index(arg, "=")
				f := p.named[strings.TrimSpace(arg[:i])]
				if f == nil {
					h.bad = "unknown model in " + arg
					break
				}
				h.use[strings.TrimSpace(arg[i+1:])] = f
			case "real":
				h.use[arg] = nil
			case "rank":
				n, _ := strconv.Atoi(w[3])
				p.addRank(d.pkg, w[1], w[2], n)
			case "await":
				h.await = p.named[w[1]]
				if h.await == nil {
					h.bad = "unknown await function " + w[1]
				}
			case "interfere":
				h.interf = p.named[w[1]]
			default:
				return nil, fmt.Errorf("%s: unknown directive %q", d.decl.Name.Name, l)
			}
		}
	}
	sort.Slice(p.harness, func(i, j int) bool { return p.harness[i].name < p.harness[j].name })
	p.findImmutable()
	return p, nil
}

func directives(doc *ast.CommentGroup) []string {
	var out []string
	if doc == nil {
		return nil
	}
	for _, c := range doc.List {
		if strings.HasPrefix(c.Text, "//govc:") {
			out = append(out, strings.TrimPrefix(c.Text, "//govc:"))
		}
	}
	return out
}

func (p *Prog) addGuard(pkg *ssa.Package, typ, field, lock string, wr bool) error {
	obj := pkg.Pkg.Scope().Lookup(typ)
	if obj == nil {
		return fmt.Errorf("guard: no type %s", typ)
	}
	t := types.Unalias(obj.Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return fmt.Errorf("guard: %s is not a struct", typ)
	}
	fi, li := -1, -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			fi = i
		}
		if st.Field(i).Name() == lock {
			li = i
		}
	}
	if fi < 0 || li < 0 {
		// a field that no longer exists guards nothing; the lock must exist
		return nil
	}
	k, _ := fieldHeap(t, []int{fi})
	p.guards[k] = guardSpec{root: t, lock: []int{li}, name: typ + "." + field + " by " + lock, wr: wr}
	return nil
}

func (p *Prog) mayRecurse(fn *ssa.Function) bool { return p.contract[fn] }

func (p *Prog) isRec(fn *ssa.Function) bool { return p.rec[fn] }

// skipBody: functions whose body is never executed symbolically
func (p *Prog) skipBody(fn *ssa.Function) bool { return false }

func (p *Prog) externFor(h *Harness, name string) *ssa.Function {
	if h != nil {
		if f, ok := h.use[name]; ok {
			return f
		}
	}
	return p.externs[name]
}

func (p *Prog) used(h *Harness, name string) bool {
	return h != nil && h.use[name] != nil
}

func (p *Prog) dispatchFirst(h *Harness, name string) bool {
	if h != nil {
		for _, d := range h.dispatch {
			if d == name {
				return true
			}
		}
	}
	return false
}

func (p *Prog) templates(h *Harness, fn *ssa.Function) []*ssa.Function {
	if h == nil || p.contract[fn] && false {
		return nil
	}
	return h.loops
}

// implementations: the repository's own types that implement an interface declared in the repository
func (p *Prog) implementations(it types.Type) []types.Type {
	key := tstr(it)
	if r, ok := p.implTab[key]; ok {
		return r
	}
	var out []types.Type
	n, ok := types.Unalias(it).(*types.Named)
	if ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		iface := it.Underlying().(*types.Interface)
		for _, sk := range p.pkgs {
			for _, m := range sk.Members {
				tn, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				t := types.Unalias(tn.Type())
				if _, isI := t.Underlying().(*types.Interface); isI {
					continue
				}
				if tp, ok := t.(*types.Named); ok && tp.TypeParams().Len() > 0 {
					continue
				}
				if types.Implements(t, iface) {
					out = append(out, t)
				} else if types.Implements(types.NewPointer(t), iface) {
					out = append(out, types.NewPointer(t))
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return tstr(out[i]) < tstr(out[j]) })
	}
	p.implTab[key] = out
	return out
}

// findImmutable: globals of the repository that are assigned only by package initialisation and whose maps
// are never updated elsewhere.
func (p *Prog) findImmutable() {
	p.immut = map[*ssa.Global]bool{}
	mut := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			continue
		}
		isInit := fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil
		p.nRepoFns++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
						// a load: the value must not be written through
						for _, r := range *i.Referrers() {
							switch u := r.(type) {
							case *ssa.MapUpdate:
								if u.Map == ssa.Value(i) && !isInit {
									mut[g] = true
								}
							case *ssa.Call:
								if bl, ok := u.Call.Value.(*ssa.Builtin); ok && (bl.Name() == "delete" || bl.Name() == "clear") {
									mut[g] = true
								}
							}
						}
					case *ssa.Store:
						if i.Addr == ssa.Value(g) && isInit {
							continue
						}
						mut[g] = true
					default:
						if !isInit {
							mut[g] = true
						}
					}
				}
			}
		}
	}
	for _, sk := range p.pkgs {
		for _, m := range sk.Members {
			if g, ok := m.(*ssa.Global); ok && !mut[g] {
				p.immut[g] = true
			}
		}
	}
}

// initState runs the package initialisers of the repository's packages
func (p *Prog) initState() *State {
	if p.initSt != nil {
		return p.initSt
	}
	x := newEx(p, &Harness{noPanic: true, name: "init"})
	st := &State{heaps: map[string]*Term{}, pc: tTrue}
	st.heaps["next"] = mkInt(1)
	keep := st
	seen := map[string]bool{}
	var run func(sk *ssa.Package)
	run = func(sk *ssa.Package) {
		if seen[sk.Pkg.Path()] {
			return
		}
		seen[sk.Pkg.Path()] = true
		for _, im := range sk.Pkg.Imports() {
			if q := p.prog.Package(im); q != nil && strings.HasPrefix(im.Path(), modPath) {
				for _, o := range p.pkgs {
					if o == q {
						run(q)
					}
				}
			}
		}
		x.initStores(sk, st)
	}
	for _, sk := range p.pkgs {
		run(sk)
	}
	p.initSt = keep
	return keep
}

// initStores executes the part of the initialiser that computes immutable maps of constants: straight-line
// MakeMap/MapUpdate/Store instructions with constant keys and values.
func (x *Ex) initStores(sk *ssa.Package, st *State) {
	fn := sk.Func("init")
	if fn == nil {
		return
	}
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Alloc:
				// the content of the object may change later
				if i.Heap {
					fr.vals[i] = Val{t: x.alloc(st)}
				}
			case *ssa.MakeMap, *ssa.MapUpdate, *ssa.Store, *ssa.UnOp, *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType:
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); !ok || !x.prog.immut[g] {
						continue
					}
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupErr); !ok {
								panic(r)
							}
						}
					}()
					x.instr(fr, st, in)
				}()
				_ = i
			case *ssa.Call:
				// the results of calls are unknown non-nil values for constructors of errors
				if c := i.Call.StaticCallee(); c != nil && (fnName(c) == "errors.New" || fnName(c) == "fmt.Errorf") {
					fr.vals[i] = Val{t: mkCtor(sIface, mkInt(errTag()), x.alloc(st))}
				}
			}
		}
	}
}
