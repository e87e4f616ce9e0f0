package main

// Loading: the resolved program of /repo. Package lists come from `go list`
// under the build's own toolchain and flags; everything is then parsed and
// type-checked from source (dependencies without function bodies), so no build
// cache is read or written. Repository packages get SSA bodies.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/KYVENetwork/chain"

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

type Pkg struct {
	Path  string
	Dir   string
	Repo  bool
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
	SSA   *ssa.Package
}

type Program struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg
	Repo  []*Pkg // repository packages, sorted
	Prog  *ssa.Program
	Files int
	Funcs []*ssa.Function // all functions with bodies declared in the repository (incl. closures and methods)
	impls map[string]*ssa.Function
	named []*types.Named // repo named non-interface types
	cmp   map[*ssa.Global]bool
	inits map[string]*initVal
}

// comparedErrs: the error values of the repository the program compares
// another one with.
func (pr *Program) comparedErrs() map[*ssa.Global]bool {
	if pr.cmp != nil {
		return pr.cmp
	}
	pr.cmp = map[*ssa.Global]bool{}
	note := func(v ssa.Value) {
		for {
			if c, ok := v.(*ssa.MakeInterface); ok {
				v = c.X
				continue
			}
			if c, ok := v.(*ssa.ChangeInterface); ok {
				v = c.X
				continue
			}
			break
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok && isErrType(u.Type()) && g.Pkg != nil && isRepoPath(g.Pkg.Pkg.Path()) {
				pr.cmp[g] = true
			}
		}
	}
	for _, f := range pr.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.BinOp:
					if x.Op == token.EQL || x.Op == token.NEQ {
						note(x.X)
						note(x.Y)
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Name() == "Is" && len(x.Call.Args) == 2 {
						note(x.Call.Args[1])
					}
				}
			}
		}
	}
	return pr.cmp
}

func isRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

func load(root string) (*Program, error) {
	goBin := os.Getenv("KYVELINT_GO")
	if goBin == "" {
		goBin = "go"
	}
	cmd := exec.Command(goBin, "list", "-e", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Imports,ImportMap,Standard,Error,DepsErrors", "./x/...", "./util/...", "./app/...", "./cmd/...")
	cmd.Dir = root
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	var list []*listPkg
	dec := json.NewDecoder(&out)
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil && isRepoPath(p.ImportPath) {
			return nil, fmt.Errorf("go list %s: %s", p.ImportPath, p.Error.Err)
		}
		list = append(list, &p)
	}
	if len(list) < 500 {
		return nil, fmt.Errorf("go list returned only %d packages: %s", len(list), errb.String())
	}
	pr := &Program{Root: root, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, impls: map[string]*ssa.Function{}}

	// parse in parallel
	type parsed struct{ files []*ast.File }
	res := make([]parsed, len(list))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	var perr error
	var mu sync.Mutex
	for i, p := range list {
		if p.ImportPath == "unsafe" {
			continue
		}
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mode := parser.SkipObjectResolution
			repo := isRepoPath(p.ImportPath)
			if repo {
				mode |= parser.ParseComments
			}
			for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
				af, err := parser.ParseFile(pr.Fset, filepath.Join(p.Dir, f), nil, mode)
				if err != nil {
					mu.Lock()
					if perr == nil && repo {
						perr = err
					}
					mu.Unlock()
				}
				if af != nil {
					res[i].files = append(res[i].files, af)
				}
			}
			if isModelPath(p.ImportPath) {
				if err := model(p.ImportPath, pr.Fset, res[i].files); err != nil {
					mu.Lock()
					perr = err
					mu.Unlock()
				}
			}
		}(i, p)
	}
	wg.Wait()
	if perr != nil {
		return nil, perr
	}

	// type-check in dependency order, in parallel
	type node struct {
		p    *listPkg
		done chan struct{}
		out  *Pkg
	}
	nodes := map[string]*node{}
	for _, p := range list {
		nodes[p.ImportPath] = &node{p: p, done: make(chan struct{})}
	}
	var terr error
	for i, p := range list {
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			n := nodes[p.ImportPath]
			defer close(n.done)
			if p.ImportPath == "unsafe" {
				n.out = &Pkg{Path: "unsafe", Types: types.Unsafe}
				return
			}
			for _, im := range p.Imports {
				if m, ok := p.ImportMap[im]; ok {
					im = m
				}
				if d := nodes[im]; d != nil && d != n {
					<-d.done
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			repo := isRepoPath(p.ImportPath)
			imp := importerFunc(func(path string) (*types.Package, error) {
				if m, ok := p.ImportMap[path]; ok {
					path = m
				}
				if d := nodes[path]; d != nil {
					if d.out == nil || d.out.Types == nil {
						return nil, fmt.Errorf("import %s not available", path)
					}
					return d.out.Types, nil
				}
				return nil, fmt.Errorf("import %s unknown", path)
			})
			cfg := &types.Config{
				Importer:         imp,
				IgnoreFuncBodies: !inlinable(p.ImportPath),
				FakeImportC:      true,
				Sizes:            types.SizesFor("gc", build.Default.GOARCH),
				Error: func(err error) {
					if repo {
						mu.Lock()
						if terr == nil {
							terr = err
						}
						mu.Unlock()
					}
				},
			}
			out := &Pkg{Path: p.ImportPath, Dir: p.Dir, Repo: repo}
			if inlinable(p.ImportPath) {
				out.Info = &types.Info{
					Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
					Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
					Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
				}
				out.Files = res[i].files
			}
			tp, _ := cfg.Check(p.ImportPath, pr.Fset, res[i].files, out.Info)
			out.Types = tp
			n.out = out
		}(i, p)
	}
	wg.Wait()
	if terr != nil {
		return nil, fmt.Errorf("type check: %v", terr)
	}
	prog := ssa.NewProgram(pr.Fset, ssa.InstantiateGenerics)
	pr.Prog = prog
	prog.CreatePackage(types.Unsafe, nil, nil, true)
	for _, p := range list {
		n := nodes[p.ImportPath]
		if n.out == nil || n.out.Types == nil {
			continue
		}
		pr.Pkgs[p.ImportPath] = n.out
		if n.out.Repo {
			pr.Repo = append(pr.Repo, n.out)
			pr.Files += len(n.out.Files)
		}
		if p.ImportPath == "unsafe" {
			continue
		}
		n.out.SSA = prog.CreatePackage(n.out.Types, n.out.Files, n.out.Info, true)
	}
	sort.Slice(pr.Repo, func(i, j int) bool { return pr.Repo[i].Path < pr.Repo[j].Path })
	build := append([]*Pkg{}, pr.Repo...)
	for path := range stdModels {
		if p := pr.Pkgs[path]; p != nil {
			build = append(build, p)
		}
	}
	for _, p := range build {
		wg.Add(1)
		go func(p *Pkg) { defer wg.Done(); p.SSA.Build() }(p)
	}
	wg.Wait()
	pr.collect()
	return pr, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func (pr *Program) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		pr.Funcs = append(pr.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range pr.Repo {
		for _, m := range p.SSA.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok || n.TypeParams().Len() > 0 {
					continue
				}
				if !types.IsInterface(n) {
					pr.named = append(pr.named, n)
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(pr.Prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(pr.named, func(i, j int) bool { return pr.named[i].String() < pr.named[j].String() })
	sort.Slice(pr.Funcs, func(i, j int) bool {
		a, b := pr.Funcs[i], pr.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
}

// implOf resolves an interface method to the single repository implementation,
// or nil when the interface is implemented outside the repository.
func (pr *Program) implOf(recv types.Type, m *types.Func) *ssa.Function {
	key := recv.String() + "." + m.Name()
	if f, ok := pr.impls[key]; ok {
		return f
	}
	var cands []*ssa.Function
	var candMods []string
	it, _ := recv.Underlying().(*types.Interface)
	if it != nil {
		for _, n := range pr.named {
			pt := types.NewPointer(n)
			if !types.Implements(pt, it) {
				continue
			}
			obj, _, _ := types.LookupFieldOrMethod(pt, true, m.Pkg(), m.Name())
			fn, ok := obj.(*types.Func)
			if !ok || fn.Pkg() == nil || !isRepoPath(fn.Pkg().Path()) {
				continue
			}
			if types.IsInterface(fn.Type().(*types.Signature).Recv().Type()) {
				continue
			}
			sf := pr.Prog.FuncValue(fn)
			if sf == nil || sf.Blocks == nil {
				continue
			}
			dup := false
			for _, c := range cands {
				if c == sf {
					dup = true
				}
			}
			if !dup {
				cands = append(cands, sf)
				candMods = append(candMods, moduleOf(fn.Pkg().Path()))
			}
		}
	}
	var out *ssa.Function
	if len(cands) == 1 {
		out = cands[0]
	} else if len(cands) > 1 {
		if n, ok := recv.(*types.Named); ok {
			want := strings.ToLower(strings.TrimSuffix(n.Obj().Name(), "Keeper"))
			hits := 0
			for i, c := range cands {
				if candMods[i] == want || candMods[i] == want+"s" || candMods[i]+"s" == want {
					out = c
					hits++
				}
			}
			if hits != 1 {
				out = nil
			}
		}
	}
	pr.impls[key] = out
	return out
}

// moduleOf names the x/<module> (or util, app, ...) a package path belongs to.
func moduleOf(path string) string {
	p := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	if strings.HasPrefix(p, "x/") {
		p = p[2:]
		if i := strings.IndexByte(p, '/'); i >= 0 {
			p = p[:i]
		}
		return p
	}
	if i := strings.IndexByte(p, '/'); i >= 0 {
		p = p[:i]
	}
	return p
}

func (pr *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := pr.Fset.Position(p)
	rel, err := filepath.Rel(pr.Root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}
