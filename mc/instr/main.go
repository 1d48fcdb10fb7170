// Command instr writes a build overlay for /repo: a copy of the library in which map
// iteration order (and, with -sched, scheduling points) are decided by the explorer.
//
//	instr -repo /repo -shim /verif/mc/verifshim -out DIR [-sched]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const shimPath = "github.com/xeipuuv/gojsonschema/verifshim"

type edit struct {
	pos, end int
	text     string
	seq      int
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	need  bool // needs the shim import
}

func main() {
	repo := flag.String("repo", "/repo", "")
	shim := flag.String("shim", "", "")
	out := flag.String("out", "", "")
	sched := flag.Bool("sched", false, "")
	plain := flag.Bool("plain", false, "only add the shim package")
	flag.Parse()

	replace := map[string]string{}
	filepath.Walk(*shim, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*shim, p)
			replace[filepath.Join(*repo, "verifshim", rel)] = p
		}
		return nil
	})
	if !*plain {
		if err := instrument(*repo, *out, *sched, replace); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
		flagFile := filepath.Join(*out, "instrumented.go")
		os.WriteFile(flagFile, []byte(fmt.Sprintf("package verifshim\n\nfunc init() { Instrumented, Scheduled = true, %v }\n", *sched)), 0o644)
		replace[filepath.Join(*repo, "verifshim", "zz_instrumented.go")] = flagFile
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// goFiles lists the non-test files of the package as the go command selects them.
func goFiles(repo string) ([]string, map[string]string, error) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Export,GoFiles,Dir,DepOnly", ".")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return nil, nil, fmt.Errorf("go list: %v %s", err, stderr.String())
	}
	exports := map[string]string{}
	var files []string
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p struct {
			ImportPath, Export, Dir string
			GoFiles                 []string
			DepOnly                 bool
		}
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, nil, err
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			for _, f := range p.GoFiles {
				files = append(files, filepath.Join(p.Dir, f))
			}
		}
	}
	sort.Strings(files)
	return files, exports, nil
}

func instrument(repo, out string, sched bool, replace map[string]string) error {
	paths, exports, err := goFiles(repo)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	var files []*file
	var asts []*ast.File
	for _, p := range paths {
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, &file{path: p, src: src, ast: a})
		asts = append(asts, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}, GoVersion: "go1.16"}
	pkg, err := conf.Check("github.com/xeipuuv/gojsonschema", fset, asts, info)
	if err != nil {
		return err
	}
	loops := 0
	for i, f := range files {
		in := &instr{fset: fset, f: f, info: info, pkg: pkg}
		in.mapLoops()
		loops += in.loops
		if f.need || sched {
			in.imports(sched)
		}
		b := f.apply()
		dst := filepath.Join(out, fmt.Sprintf("f%02d_%s", i, filepath.Base(f.path)))
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return err
		}
		replace[f.path] = dst
	}
	fmt.Printf("instrumented %d files, %d map loops\n", len(files), loops)
	return nil
}

type instr struct {
	fset  *token.FileSet
	f     *file
	info  *types.Info
	pkg   *types.Package
	loops int
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instr) insert(at int, text string) {
	in.f.edits = append(in.f.edits, edit{at, at, text, len(in.f.edits)})
}

func (in *instr) replace(from, to int, text string) {
	in.f.edits = append(in.f.edits, edit{from, to, text, len(in.f.edits)})
}

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].pos < f.edits[j].pos })
	var b bytes.Buffer
	at := 0
	for _, e := range f.edits {
		if e.pos < at {
			panic("overlapping edits in " + f.path)
		}
		b.Write(f.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(f.src[at:])
	return b.Bytes()
}

// typeText names a type in this file, or returns "" if it cannot be named here.
func (in *instr) typeText(t types.Type) string {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == in.pkg {
			return ""
		}
		for _, im := range in.f.ast.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if !ok {
		return ""
	}
	return s
}

func (in *instr) mapLoops() {
	labels := map[ast.Stmt]*ast.LabeledStmt{}
	ast.Inspect(in.f.ast, func(n ast.Node) bool {
		if l, ok := n.(*ast.LabeledStmt); ok {
			labels[l.Stmt] = l
		}
		r, ok := n.(*ast.RangeStmt)
		if !ok {
			return true
		}
		tv, ok := in.info.Types[r.X]
		if !ok {
			return true
		}
		m, ok := tv.Type.Underlying().(*types.Map)
		if !ok {
			return true
		}
		in.mapLoop(r, m, labels[r])
		return true
	})
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *instr) text(n ast.Node) string {
	return string(in.f.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *instr) mapLoop(r *ast.RangeStmt, m *types.Map, label *ast.LabeledStmt) {
	// a call inside X would be instrumented by nobody, and nested edits inside X are not supported
	nested := false
	ast.Inspect(r.X, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			nested = true
		}
		return true
	})
	kt := in.typeText(m.Key())
	vt := in.typeText(m.Elem())
	if nested || kt == "" || vt == "" {
		return
	}
	in.loops++
	in.f.need = true
	id := in.off(r.Pos())
	mv, kv, vv := fmt.Sprintf("verifM%d", id), fmt.Sprintf("verifK%d", id), fmt.Sprintf("verifV%d", id)
	var decl, asg strings.Builder
	fmt.Fprintf(&decl, "{ %s := %s; ", mv, in.text(r.X))
	for i, e := range []ast.Expr{r.Key, r.Value} {
		if blank(e) {
			continue
		}
		src, t := kv+"T", kt
		if i == 1 {
			src, t = vv, vt
		}
		if r.Tok == token.DEFINE {
			fmt.Fprintf(&decl, "var %s %s; _ = %s; ", in.text(e), t, in.text(e))
		}
		fmt.Fprintf(&asg, "%s = %s; ", in.text(e), src)
	}
	// (label:) for _, K := range Keys(M) { KT := K.(kt); V, ok := M[KT]; if !ok {continue}; ... body }
	start := in.off(r.Pos())
	lab := ""
	if label != nil {
		start = in.off(label.Pos())
		lab = label.Label.Name + ": "
	}
	key := fmt.Sprintf("%sT := %s.(%s)", kv, kv, kt)
	if types.IsInterface(m.Key()) {
		key = fmt.Sprintf("%sT, _ := %s.(%s)", kv, kv, kt)
	}
	head := fmt.Sprintf("%s%sfor _, %s := range verifshim.Keys(%s) { %s; %s, verifOK := %s[%sT]; if !verifOK { continue }; _ = %s; %s",
		decl.String(), lab, kv, mv, key, vv, mv, kv, vv, asg.String())
	in.replace(start, in.off(r.Body.Lbrace)+1, strings.ReplaceAll(head, "\n", " "))
	in.insert(in.off(r.Body.End()), " }")
}

func (in *instr) imports(sched bool) {
	if sched {
		for _, im := range in.f.ast.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			switch path {
			case "sync":
				in.replaceImport(im, "sync", shimPath+"/vsync")
			case "sync/atomic":
				in.replaceImport(im, "atomic", shimPath+"/vatomic")
			}
		}
	}
	at := in.off(in.f.ast.Name.End())
	// use the package so that files without points still compile
	in.insert(at, "; import verifshim \""+shimPath+"\"")
	in.insert(len(in.f.src), "\nvar _ = verifshim.Keys\n")
}

func (in *instr) replaceImport(im *ast.ImportSpec, name, path string) {
	if im.Name != nil {
		name = im.Name.Name
	}
	in.replace(in.off(im.Pos()), in.off(im.End()), name+" \""+path+"\"")
}
