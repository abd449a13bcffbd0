package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/ThinkiumGroup/go-common"

// library packages whose source is verified along with the repository
var srcLibs = map[string]bool{"bytes": true, "encoding/hex": true, "io": true, "sort": true, "container/list": true,
	"github.com/stephenfire/go-rtl": true, "github.com/hashicorp/golang-lru": true, "github.com/hashicorp/golang-lru/simplelru": true}

type Pkg struct {
	Path  string
	Dir   string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
	Errs  []error
}

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
	Imports    []string
	DepOnly    bool
}

type Program struct {
	Fset     *token.FileSet
	Pkgs     map[string]*Pkg
	Funcs    map[string]*FuncDecl // key -> decl
	ByObj    map[types.Object]*FuncDecl
	Assigned map[types.Object]bool // package-level vars assigned somewhere in functions
	VarInit  map[types.Object]*varInit
	ErrVars  map[types.Object]int64
	repo     string
	Models   map[string]*FuncDecl // library functions modelled by ghost Go code
}

type varInit struct {
	expr ast.Expr
	pkg  *Pkg
	idx  int
	n    int
}

type FuncDecl struct {
	Key   string
	Decl  *ast.FuncDecl
	Pkg   *Pkg
	Obj   *types.Func
	Ghost bool
	Dirs  map[string]string
}

func goEnv() []string {
	env := os.Environ()
	return env
}

// loadProgram type-checks every package of the module from the current source
// in repo, together with the contract overlays (package-local ghost files).
func loadProgram(repo, contracts string, want []string) (*Program, error) {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module,Imports,DepOnly"}, want...)...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, se.String())
	}
	dec := json.NewDecoder(&so)
	exports := map[string]string{}
	var mods []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == modPath || srcLibs[p.ImportPath] {
			q := p
			mods = append(mods, &q)
		}
	}
	pr := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[string]*FuncDecl{}, ByObj: map[types.Object]*FuncDecl{},
		Assigned: map[types.Object]bool{}, VarInit: map[types.Object]*varInit{}, ErrVars: map[types.Object]int64{}, repo: repo, Models: map[string]*FuncDecl{}}
	imp := importer.ForCompiler(pr.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	mi := &modImporter{pr, imp}
	for _, lp := range mods { // go list -deps gives dependency order
		p := &Pkg{Path: lp.ImportPath, Dir: lp.Dir}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(pr.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(lp.ImportPath, modPath), "/")
		nReal := len(p.Files)
		var ghost []ghostFile
		if !lp.Standard {
			var err error
			if ghost, err = ghostFiles(contracts, rel, lp.Name); err != nil {
				return nil, err
			}
		}
		for _, g := range ghost {
			af, err := parser.ParseFile(pr.Fset, g.path, g.src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: mi, Error: func(err error) { p.Errs = append(p.Errs, err) }, Sizes: types.SizesFor("gc", "amd64")}
		tp, _ := conf.Check(lp.ImportPath, pr.Fset, p.Files, p.Info)
		p.Types = tp
		pr.Pkgs[lp.ImportPath] = p
		for fi, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					obj, _ := p.Info.Defs[d.Name].(*types.Func)
					if obj == nil {
						continue
					}
					fd := &FuncDecl{Key: funcKey(obj), Decl: d, Pkg: p, Obj: obj, Ghost: fi >= nReal}
					fd.Dirs = directives(d.Doc)
					if d.Name.Name != "init" && d.Name.Name != "_" {
						pr.Funcs[fd.Key] = fd
					}
					pr.ByObj[obj] = fd
					if m, ok := fd.Dirs["model"]; ok {
						pr.Models[m] = fd
					}
					if d.Body != nil {
						pr.scanAssigned(p, d.Body)
					}
				case *ast.GenDecl:
					if d.Tok != token.VAR {
						continue
					}
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i, n := range vs.Names {
							o := p.Info.Defs[n]
							if o == nil {
								continue
							}
							if len(vs.Values) == len(vs.Names) {
								pr.VarInit[o] = &varInit{vs.Values[i], p, 0, 1}
							} else if len(vs.Values) == 0 {
								pr.VarInit[o] = &varInit{nil, p, 0, 1}
							} else if len(vs.Values) == 1 {
								pr.VarInit[o] = &varInit{vs.Values[0], p, i, len(vs.Names)}
							}
						}
						for _, v := range vs.Values {
							ast.Inspect(v, func(n ast.Node) bool {
								if fl, ok := n.(*ast.FuncLit); ok {
									pr.scanAssigned(p, fl.Body)
								}
								return true
							})
						}
					}
				}
			}
		}
	}
	return pr, nil
}

type modImporter struct {
	pr *Program
	gc types.Importer
}

func (m *modImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.pr.Pkgs[path]; ok {
		return p.Types, nil
	}
	return m.gc.Import(path)
}

func (pr *Program) scanAssigned(p *Pkg, body ast.Node) {
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				if t := p.Info.Types[x.X].Type; t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						e = x.X
						continue
					}
				}
				// element of a slice held in a package variable: treat as assigned too
				e = x.X
				continue
			case *ast.SelectorExpr:
				if o := p.Info.Uses[x.Sel]; o != nil {
					if v, ok := o.(*types.Var); ok && !v.IsField() {
						pr.Assigned[v] = true
						return
					}
				}
				if t := p.Info.Types[x.X].Type; t != nil {
					e = x.X
					continue
				}
			case *ast.Ident:
				if o := p.Info.Uses[x]; o != nil {
					pr.Assigned[o] = true
				}
			}
			return
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				mark(n.X)
			}
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			}
		}
		return true
	})
}

func funcKey(f *types.Func) string {
	pkg := ""
	if f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		switch n := t.(type) {
		case *types.Named:
			return pkg + "." + n.Obj().Name() + "." + f.Name()
		default:
			return pkg + ".iface." + f.Name()
		}
	}
	return pkg + "." + f.Name()
}

func directives(cg *ast.CommentGroup) map[string]string {
	m := map[string]string{}
	if cg == nil {
		return m
	}
	for _, c := range cg.List {
		if strings.HasPrefix(c.Text, "//gvc:") {
			s := strings.TrimPrefix(c.Text, "//gvc:")
			f := strings.SplitN(s, " ", 2)
			v := ""
			if len(f) > 1 {
				v = strings.TrimSpace(f[1])
			}
			if o, ok := m[f[0]]; ok && o != "" {
				v = o + "," + v
			}
			m[f[0]] = v
		}
	}
	return m
}

type ghostFile struct {
	path string
	src  []byte
}

// ghostFiles returns the contract files for package rel plus the ghost runtime.
func ghostFiles(contracts, rel, name string) ([]ghostFile, error) {
	dir := filepath.Join(contracts, "common", rel)
	if rel == "" {
		dir = filepath.Join(contracts, "common")
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []ghostFile
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		p := filepath.Join(dir, e.Name())
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		out = append(out, ghostFile{p, b})
	}
	if len(out) > 0 {
		rt, err := os.ReadFile(filepath.Join(contracts, "gvrt.go.tmpl"))
		if err != nil {
			return nil, err
		}
		rt = bytes.Replace(rt, []byte("package PKG"), []byte("package "+name), 1)
		out = append(out, ghostFile{filepath.Join(dir, "zz_gvrt.go"), rt})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out, nil
}

func (pr *Program) pos(p token.Pos) string {
	q := pr.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(pr.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
