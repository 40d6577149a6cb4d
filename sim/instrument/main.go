// Command instrument generates, from the current working tree of golearn and
// the installed Go toolchain, the files of a `go build -overlay` set:
//
//   - every golearn package with a yield point before each statement and with
//     each range over a map routed through verifsim (map order becomes a draw);
//   - GOROOT runtime and os with the simulator's seams;
//   - the harness, placed virtually into the golearn module.
//
// It never writes into the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	ImportMap  map[string]string
	Imports    []string
	DepOnly    bool
	Module     *struct{ Path string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

var fset = token.NewFileSet()

type loader struct {
	pkgs map[string]*listPkg
	done map[string]*types.Package
}

type lazyImporter struct {
	l   *loader
	cur *listPkg
}

func (li lazyImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if li.cur != nil {
		if m, ok := li.cur.ImportMap[path]; ok {
			path = m
		}
	}
	return li.l.load(path)
}

func (l *loader) parse(p *listPkg, mode parser.Mode) (files []*ast.File, names []string) {
	for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
		fn := filepath.Join(p.Dir, f)
		a, err := parser.ParseFile(fset, fn, nil, mode)
		if err != nil {
			die("parse %s: %v", fn, err)
		}
		files = append(files, a)
		names = append(names, fn)
	}
	return
}

func (l *loader) load(path string) (*types.Package, error) {
	if t, ok := l.done[path]; ok {
		return t, nil
	}
	p := l.pkgs[path]
	if p == nil {
		return nil, fmt.Errorf("unknown package %s", path)
	}
	files, _ := l.parse(p, parser.SkipObjectResolution)
	t := l.check(p, files, nil, true)
	return t, nil
}

func (l *loader) check(p *listPkg, files []*ast.File, info *types.Info, ignoreBodies bool) *types.Package {
	conf := types.Config{
		Importer:         lazyImporter{l, p},
		IgnoreFuncBodies: ignoreBodies,
		FakeImportC:      true,
		Error:            func(error) {},
		Sizes:            types.SizesFor("gc", "amd64"),
	}
	t, _ := conf.Check(p.ImportPath, fset, files, info)
	l.done[p.ImportPath] = t
	return t
}

type edit struct {
	off, end int
	text     string
	seq      int
}

var (
	nYield, nMap int
)

func instrumentFile(fn string, f *ast.File, info *types.Info) (string, bool) {
	src, err := os.ReadFile(fn)
	if err != nil {
		die("%v", err)
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	add := func(o, e int, s string) { edits = append(edits, edit{o, e, s, len(edits)}) }
	usedRT, usedSim := false, false
	yields := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(s.Pos()), off(s.Pos()), "verifrt.VerifYield(); ")
			usedRT = true
			nYield++
		}
	}
	// emptyBody: loops with an empty body must still count steps
	emptyBody := func(b *ast.BlockStmt) {
		if len(b.List) == 0 {
			add(off(b.Lbrace)+1, off(b.Lbrace)+1, " verifrt.VerifYield(); ")
			usedRT = true
		}
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	cnt := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			yields(x.List)
		case *ast.CaseClause:
			yields(x.Body)
		case *ast.CommClause:
			yields(x.Body)
		case *ast.ForStmt:
			emptyBody(x.Body)
		case *ast.RangeStmt:
			emptyBody(x.Body)
			tv, ok := info.Types[x.X]
			if !ok || tv.Type == nil {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				return true
			}
			nMap++
			usedSim = true
			cnt++
			it := fmt.Sprintf("verifIt%d", cnt)
			// the range expression may itself contain function literals with
			// their own edits: keep it in place and edit around it.
			kb, vb := isBlank(x.Key), isBlank(x.Value)
			var pre, post string
			if x.Tok == token.DEFINE {
				switch {
				case kb && vb:
					pre = fmt.Sprintf("for %s := verifsim.Start0(", it)
					post = fmt.Sprintf("); %s.Next(nil, nil); ", it)
				case vb:
					k := text(x.Key)
					pre = fmt.Sprintf("for %s, %s := verifsim.StartK(", it, k)
					post = fmt.Sprintf("); %s.Next(&%s, nil); ", it, k)
				case kb:
					v := text(x.Value)
					pre = fmt.Sprintf("for %s, %s := verifsim.StartV(", it, v)
					post = fmt.Sprintf("); %s.Next(nil, &%s); ", it, v)
				default:
					k, v := text(x.Key), text(x.Value)
					pre = fmt.Sprintf("for %s, %s, %s := verifsim.StartKV(", it, k, v)
					post = fmt.Sprintf("); %s.Next(&%s, &%s); ", it, k, v)
				}
			} else {
				ke, ve := "nil", "nil"
				if !kb {
					ke = "&(" + text(x.Key) + ")"
				}
				if !vb {
					ve = "&(" + text(x.Value) + ")"
				}
				pre = fmt.Sprintf("for %s := verifsim.Start0(", it)
				post = fmt.Sprintf("); %s.Next(%s, %s); ", it, ke, ve)
			}
			add(off(x.For), off(x.X.Pos()), pre)
			add(off(x.X.End()), off(x.X.End()), post)
		}
		return true
	})
	if len(edits) == 0 {
		return "", false
	}
	imp := ""
	if usedRT {
		imp += `; import verifrt "runtime"`
	}
	if usedSim {
		imp += `; import verifsim "github.com/sjwhitworth/golearn/verifsim"`
	}
	add(off(f.Name.End()), off(f.Name.End()), imp)
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var out strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			die("overlapping edits in %s at %d", fn, e.off)
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	return out.String(), true
}

func main() {
	repo := flag.String("repo", "/repo", "golearn working tree")
	out := flag.String("out", "", "output directory")
	simdir := flag.String("sim", "", "directory with harness/, verifsim/, rt/")
	flag.Parse()
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env: %v", err)
	}
	root := strings.TrimSpace(string(goroot))
	repl := map[string]string{}
	put := func(virtual, name, content string) {
		p := filepath.Join(*out, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		if old, err := os.ReadFile(p); err != nil || string(old) != content {
			if err := os.WriteFile(p, []byte(content), 0644); err != nil {
				die("%v", err)
			}
		}
		repl[virtual] = p
	}

	// --- golearn packages
	cmd := exec.Command("go", "list", "-e", "-deps", "-json=Dir,ImportPath,Name,Standard,GoFiles,CgoFiles,ImportMap,Imports,DepOnly,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	l := &loader{map[string]*listPkg{}, map[string]*types.Package{}}
	dec := json.NewDecoder(strings.NewReader(string(js)))
	var order []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list json: %v", err)
		}
		q := p
		l.pkgs[p.ImportPath] = &q
		order = append(order, &q)
	}
	const mod = "github.com/sjwhitworth/golearn"
	for _, p := range order {
		if p.Standard || !(p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/")) || strings.HasPrefix(p.ImportPath, mod+"/examples") {
			continue
		}
		files, names := l.parse(p, parser.ParseComments|parser.SkipObjectResolution)
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		l.check(p, files, info, false)
		for i, f := range files {
			if s, ok := instrumentFile(names[i], f, info); ok {
				rel, _ := filepath.Rel(*repo, names[i])
				put(names[i], filepath.Join("golearn", rel), s)
			}
		}
	}

	// --- harness and verifsim
	for _, d := range []string{"harness", "verifsim"} {
		fs, _ := filepath.Glob(filepath.Join(*simdir, d, "*"))
		for _, f := range fs {
			if strings.HasSuffix(f, ".go") || strings.HasSuffix(f, ".c") || strings.HasSuffix(f, ".h") {
				v := filepath.Join(*repo, "verif"+d, filepath.Base(f))
				if d == "verifsim" {
					v = filepath.Join(*repo, "verifsim", filepath.Base(f))
				}
				repl[v] = f
			}
		}
	}

	// --- files added to packages of the library
	inj, _ := filepath.Glob(filepath.Join(*simdir, "inject", "*", "*.go"))
	for _, f := range inj {
		repl[filepath.Join(*repo, filepath.Base(filepath.Dir(f)), filepath.Base(f))] = f
	}

	// --- GOROOT
	for _, pt := range rtPatches {
		fn := filepath.Join(root, "src", pt.file)
		b, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, sub := range pt.subs {
			if strings.Count(s, sub[0]) != 1 {
				die("GOROOT %s: anchor found %d times:\n%s", pt.file, strings.Count(s, sub[0]), sub[0])
			}
			s = strings.Replace(s, sub[0], sub[1], 1)
		}
		put(fn, filepath.Join("goroot", pt.file), s)
	}
	for _, n := range [][2]string{{"runtime_verif.go.txt", "runtime/verif.go"}, {"os_verif.go.txt", "os/verif.go"}} {
		b, err := os.ReadFile(filepath.Join(*simdir, "rt", n[0]))
		if err != nil {
			die("%v", err)
		}
		put(filepath.Join(root, "src", n[1]), filepath.Join("goroot", n[1]), string(b))
	}
	js, _ = json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented: %d yield points, %d map ranges, %d overlay files\n", nYield, nMap, len(repl))
}
