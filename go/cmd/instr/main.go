// instr reads the current source of /repo and writes rewritten copies of it,
// together with an overlay file for "go build -overlay", so that the real code
// runs on the in-memory machine (verif.local/w): package os and io/ioutil are
// replaced by vos/vioutil, runtime.NumCPU by a settable number, sized constants
// by small values, map iteration by a controllable order and - in sched mode -
// goroutines, channels, locks and atomics by the cooperative scheduler.
// /repo itself is not touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/smartbch/moeingads"

type edit struct {
	pos, end int
	text     string
	seq      int
}

type pkgInfo struct {
	dir   string
	path  string
	files []*ast.File
	names []string
	tpkg  *types.Package
	info  *types.Info
	busy  bool
}

var (
	fset    = token.NewFileSet()
	pkgs    = map[string]*pkgInfo{}
	repo    string
	notes   []string
	consts  = map[string]string{}
	usedC   = map[string]bool{}
	sched   bool
	mapord  bool
	imports = map[string]string{}
)

type imp struct{}

func (imp) Import(p string) (*types.Package, error) {
	if pi, ok := pkgs[p]; ok {
		check(pi)
		if pi.tpkg != nil {
			return pi.tpkg, nil
		}
	}
	base := p[strings.LastIndexByte(p, '/')+1:]
	tp := types.NewPackage(p, base)
	tp.MarkComplete()
	return tp, nil
}

func check(pi *pkgInfo) {
	if pi.tpkg != nil || pi.busy {
		return
	}
	pi.busy = true
	pi.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{}, Error: func(error) {}, FakeImportC: true}
	func() {
		defer func() {
			if r := recover(); r != nil {
				notes = append(notes, fmt.Sprintf("type check of %s: %v", pi.path, r))
			}
		}()
		pi.tpkg, _ = conf.Check(pi.path, fset, pi.files, pi.info)
	}()
	pi.busy = false
}

func main() {
	var out, tags, constList, skip string
	flag.StringVar(&repo, "repo", "/repo", "")
	flag.StringVar(&out, "out", "", "output directory")
	flag.StringVar(&tags, "tags", "cppbtree", "")
	flag.StringVar(&constList, "consts", "", "pkg.Name=value;...")
	flag.BoolVar(&sched, "sched", false, "")
	flag.BoolVar(&mapord, "maporder", true, "")
	flag.StringVar(&skip, "skip", "fuzz,fuzzhis,escchainbench,rwbench,testmemsize,cpp-btree-1.0.1", "")
	flag.Parse()
	for _, c := range strings.Split(constList, ";") {
		if c == "" {
			continue
		}
		i := strings.IndexByte(c, '=')
		consts[c[:i]] = c[i+1:]
	}
	imports["os"] = "verif.local/w/vos"
	imports["io/ioutil"] = "verif.local/w/vioutil"
	imports["runtime"] = "verif.local/w/vruntime"
	if sched {
		imports["sync"] = "verif.local/w/vsync"
		imports["sync/atomic"] = "verif.local/w/vatomic"
	}
	skips := map[string]bool{}
	for _, s := range strings.Split(skip, ",") {
		skips[s] = true
	}
	ctx := build.Default
	ctx.BuildTags = strings.Split(tags, ",")
	ctx.CgoEnabled = true
	_ = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		if p != repo && (strings.HasPrefix(fi.Name(), ".") || skips[fi.Name()] || fi.Name() == "testdata") {
			return filepath.SkipDir
		}
		ents, _ := os.ReadDir(p)
		rel, _ := filepath.Rel(repo, p)
		ip := modPath
		if rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		pi := &pkgInfo{dir: p, path: ip}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(p, n); err != nil || !ok {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(p, n), nil, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr: parse:", err)
				os.Exit(3)
			}
			pi.files = append(pi.files, f)
			pi.names = append(pi.names, filepath.Join(p, n))
		}
		if len(pi.files) > 0 && pi.files[0].Name.Name != "main" {
			pkgs[ip] = pi
		}
		return nil
	})
	overlay := map[string]string{}
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		check(pkgs[p])
	}
	k := 0
	for _, p := range paths {
		pi := pkgs[p]
		for i, f := range pi.files {
			src, err := os.ReadFile(pi.names[i])
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(3)
			}
			res, changed := rewrite(pi, f, string(src))
			if !changed {
				continue
			}
			k++
			o := filepath.Join(out, fmt.Sprintf("%03d_%s", k, filepath.Base(pi.names[i])))
			if err := os.WriteFile(o, []byte(res), 0644); err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(3)
			}
			overlay[pi.names[i]] = o
		}
	}
	for c := range consts {
		if !usedC[c] {
			notes = append(notes, "constant not found: "+c)
		}
	}
	sort.Strings(notes)
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		os.Exit(3)
	}
	nb, _ := json.MarshalIndent(notes, "", " ")
	_ = os.WriteFile(filepath.Join(out, "notes.json"), nb, 0644)
}

func rewrite(pi *pkgInfo, f *ast.File, src string) (string, bool) {
	var eds []edit
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	add := func(p, e token.Pos, t string) { eds = append(eds, edit{off(p), off(e), t, len(eds)}) }
	cgo := false
	for _, is := range f.Imports {
		if is.Path.Value == `"C"` {
			cgo = true
		}
	}
	if cgo {
		return "", false
	}
	for _, is := range f.Imports {
		p := strings.Trim(is.Path.Value, "\"`")
		np, ok := imports[p]
		if !ok {
			continue
		}
		if is.Name != nil {
			add(is.Path.Pos(), is.Path.End(), fmt.Sprintf("%q", np))
		} else {
			add(is.Path.Pos(), is.Path.End(), fmt.Sprintf("%s %q", p[strings.LastIndexByte(p, '/')+1:], np))
		}
	}
	// constants
	short := f.Name.Name
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.CONST {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				key := short + "." + n.Name
				if v, ok := consts[key]; ok && i < len(vs.Values) {
					// the old expression stays (times zero) so that imports remain used
					add(vs.Values[i].Pos(), vs.Values[i].End(), fmt.Sprintf("(%s) + 0*(%s)", v, src[off(vs.Values[i].Pos()):off(vs.Values[i].End())]))
					usedC[key] = true
				}
			}
		}
	}
	needS, needM := false, false
	typeOf := func(e ast.Expr) types.Type {
		if pi.info == nil {
			return nil
		}
		tv, ok := pi.info.Types[e]
		if !ok || tv.Type == nil {
			return nil
		}
		return tv.Type.Underlying()
	}
	text := func(n ast.Node) string { return src[off(n.Pos()):off(n.End())] }
	cnt := 0
	skipRecv := map[*ast.UnaryExpr]bool{}
	rec2 := map[*ast.UnaryExpr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.RangeStmt:
			t := typeOf(x.X)
			cnt++
			if _, ok := t.(*types.Map); ok && mapord {
				needM = true
				v := fmt.Sprintf("vmp__%d", cnt)
				pre := ""
				tok := ":="
				if x.Tok == token.ASSIGN {
					tok = "="
				}
				if x.Key != nil && text(x.Key) != "_" {
					pre += fmt.Sprintf(" %s %s %s.K;", text(x.Key), tok, v)
				}
				if x.Value != nil && text(x.Value) != "_" {
					pre += fmt.Sprintf(" %s %s %s.V();", text(x.Value), tok, v)
				}
				add(x.For+3, x.X.Pos(), fmt.Sprintf(" _, %s := range vmap.Pairs(", v))
				add(x.X.End(), x.Body.Lbrace, ") ")
				add(x.Body.Lbrace+1, x.Body.Lbrace+1, fmt.Sprintf(" if !%s.OK() { continue };%s", v, pre))
			}
			if _, ok := t.(*types.Chan); ok && sched {
				needS = true
				k := "_"
				if x.Key != nil {
					k = text(x.Key)
				}
				asg := fmt.Sprintf("%s, vok__%d := vsched.Recv2(%s)", k, cnt, text(x.X))
				if x.Tok == token.ASSIGN && k != "_" {
					asg = fmt.Sprintf("vch__%d, vok__%d := vsched.Recv2(%s)", cnt, cnt, text(x.X))
				}
				post := ""
				if x.Tok == token.ASSIGN && k != "_" {
					post = fmt.Sprintf(" %s = vch__%d;", k, cnt)
				}
				add(x.For+3, x.Body.Lbrace, " ")
				add(x.Body.Lbrace+1, x.Body.Lbrace+1, fmt.Sprintf(" %s; if !vok__%d { break };%s", asg, cnt, post))
			}
		}
		if !sched {
			return true
		}
		switch x := n.(type) {
		case *ast.SelectStmt:
			notes = append(notes, "select statement not supported in "+fset.Position(x.Pos()).String())
		case *ast.GoStmt:
			needS = true
			c := x.Call
			add(x.Go, c.Pos(), fmt.Sprintf("vsched.Go%d(", len(c.Args)))
			if len(c.Args) == 0 {
				add(c.Lparen, c.Lparen+1, "")
			} else {
				add(c.Lparen, c.Lparen+1, ", ")
			}
		case *ast.SendStmt:
			needS = true
			add(x.Chan.Pos(), x.Chan.Pos(), "vsched.To(")
			add(x.Arrow, x.Arrow+2, ").Send(")
			add(x.Value.End(), x.Value.End(), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					rec2[u] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skipRecv[x] {
				needS = true
				fn := "vsched.Recv("
				if rec2[x] {
					fn = "vsched.Recv2("
				}
				add(x.OpPos, x.OpPos+2, fn)
				add(x.X.End(), x.X.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
				if id.Name == "close" {
					if _, isChan := typeOf(x.Args[0]).(*types.Chan); isChan {
						needS = true
						add(id.Pos(), id.End(), "vsched.Close")
					}
				}
			}
		}
		return true
	})
	if len(eds) == 0 {
		return "", false
	}
	extra := ""
	if needM {
		extra += "\nimport vmap \"verif.local/w/vmap\"\n"
	}
	if needS {
		extra += "\nimport vsched \"verif.local/w/vsched\"\n"
	}
	if extra != "" {
		eds = append(eds, edit{off(f.Name.End()), off(f.Name.End()), "; " + strings.ReplaceAll(strings.TrimSpace(strings.ReplaceAll(extra, "\n\n", "\n")), "\n", "; "), len(eds)})
	}
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].pos != eds[j].pos {
			return eds[i].pos < eds[j].pos
		}
		return eds[i].seq < eds[j].seq
	})
	var sb strings.Builder
	last := 0
	for _, e := range eds {
		if e.pos < last {
			notes = append(notes, fmt.Sprintf("overlapping edit skipped in %s", tf.Name()))
			continue
		}
		sb.WriteString(src[last:e.pos])
		sb.WriteString(e.text)
		last = e.end
	}
	sb.WriteString(src[last:])
	return "//line " + tf.Name() + ":1\n" + sb.String(), true
}
