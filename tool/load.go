package main

// Loading of the analysed module: type-checked syntax and SSA form, and the
// per-function control-flow facts the interpreter needs.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the analysed module.
type Program struct {
	dir   string
	mod   string // module path
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  []*packages.Package // packages of the module, sorted by path
	spkgs map[string]*ssa.Package
	mu    sync.Mutex
	infos map[*ssa.Function]*fnInfo
	fns   []*ssa.Function // source functions of the module, sorted
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	id     int
}

type fnInfo struct {
	fn    *ssa.Function
	index map[ssa.Value]int
	rpo   []*ssa.BasicBlock
	order map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loop // by head
	inner map[*ssa.BasicBlock]*loop // innermost loop of a block
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	irred bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Fset:  token.NewFileSet(),
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{dir: dir, fset: cfg.Fset, spkgs: map[string]*ssa.Package{}, infos: map[*ssa.Function]*fnInfo{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%v", e)
		}
		if pk.Module != nil && pk.Module.Main {
			p.mod = pk.Module.Path
		}
	}
	if p.mod == "" {
		return nil, fmt.Errorf("no module in %s", dir)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		s.Build()
		p.spkgs[pkgs[i].PkgPath] = s
	}
	p.prog = prog
	p.pkgs = pkgs
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || !p.inModule(f) {
			continue
		}
		p.fns = append(p.fns, f)
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i], p.fns[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func (p *Program) pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Origin() != nil && f.Origin() != f {
		return p.pkgOf(f.Origin())
	}
	// wrappers
	if f.Signature.Recv() != nil {
		if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (p *Program) isModPath(path string) bool {
	return path == p.mod || strings.HasPrefix(path, p.mod+"/")
}

func (p *Program) inModule(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	return p.isModPath(p.pkgOf(f))
}

func (p *Program) isModType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && p.isModPath(n.Obj().Pkg().Path())
}

// short drops the module path from a name.
func (p *Program) short(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, p.mod+"/", ""), p.mod, "dc")
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := strings.TrimPrefix(q.Filename, p.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// instrPos finds a usable position of an instruction.
func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	var ops []*ssa.Value
	for _, o := range i.Operands(ops) {
		if *o != nil && (*o).Pos().IsValid() {
			if _, ok := (*o).(*ssa.Global); !ok {
				if _, ok := (*o).(*ssa.Function); !ok {
					return (*o).Pos()
				}
			}
		}
	}
	// neighbours
	b := i.Block()
	if b != nil {
		found := token.NoPos
		for _, x := range b.Instrs {
			if x == i && found.IsValid() {
				return found
			}
			if x.Pos().IsValid() {
				found = x.Pos()
			}
		}
		if found.IsValid() {
			return found
		}
	}
	return i.Parent().Pos()
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// typeName is "pkgpath.Name" of a (pointer to a) named type.
func typeName(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

// decl finds the syntax of a package-level function.
func (p *Program) decl(f *ssa.Function) *ast.FuncDecl {
	d, _ := f.Syntax().(*ast.FuncDecl)
	return d
}

func (p *Program) info(f *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.infos[f]; ok {
		return i
	}
	i := &fnInfo{fn: f, index: map[ssa.Value]int{}, order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	n := 0
	add := func(v ssa.Value) { i.index[v] = n; n++ }
	for _, v := range f.Params {
		add(v)
	}
	for _, v := range f.FreeVars {
		add(v)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil && !seen[f.Recover] {
		dfs(f.Recover)
	}
	for k := len(post) - 1; k >= 0; k-- {
		i.order[post[k]] = len(i.rpo)
		i.rpo = append(i.rpo, post[k])
	}
	// natural loops
	for _, b := range i.rpo {
		for _, s := range b.Succs {
			if i.order[s] <= i.order[b] {
				if !s.Dominates(b) {
					i.irred = true
					continue
				}
				l := i.loops[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: s.Index}
					i.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, b := range i.rpo {
		for _, l := range i.loops {
			if l.blocks[b] {
				if cur := i.inner[b]; cur == nil || len(l.blocks) < len(cur.blocks) {
					i.inner[b] = l
				}
			}
		}
	}
	for _, l := range i.loops {
		var best *loop
		for _, m := range i.loops {
			if m != l && m.blocks[l.head] {
				if best == nil || len(m.blocks) < len(best.blocks) {
					best = m
				}
			}
		}
		l.parent = best
	}
	// liveness at block entry (phi operands are used at the end of predecessors)
	for _, b := range f.Blocks {
		i.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for k := len(f.Blocks) - 1; k >= 0; k-- {
			b := f.Blocks[k]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.live[s] {
					l[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, ph)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if _, tracked := i.index[ph.Edges[pi]]; tracked {
						l[ph.Edges[pi]] = true
					}
				}
			}
			for x := len(b.Instrs) - 1; x >= 0; x-- {
				in := b.Instrs[x]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(l, v)
					}
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o == nil {
						continue
					}
					if _, tracked := i.index[*o]; tracked {
						l[*o] = true
					}
				}
			}
			// phis of b are live at its entry when used
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if ph.Referrers() != nil && len(*ph.Referrers()) > 0 {
					l[ph] = true
				}
			}
			if len(l) != len(i.live[b]) {
				changed = true
			}
			i.live[b] = l
		}
	}
	p.infos[f] = i
	return i
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for k, p := range b.Preds {
		if p == pred {
			return k
		}
	}
	return -1
}

// envOrder lists the values of a frame in a fixed order.
func (p *Program) envOrder(f *Frame) []ssa.Value {
	out := make([]ssa.Value, 0, len(f.env))
	for v := range f.env {
		out = append(out, v)
	}
	if f.fn == nil {
		sort.Slice(out, func(a, b int) bool { return out[a].Name() < out[b].Name() })
		return out
	}
	ix := p.info(f.fn).index
	sort.Slice(out, func(a, b int) bool { return ix[out[a]] < ix[out[b]] })
	return out
}
