// instr rewrites Go packages so that their synchronisation operations become
// scheduling points of common/vsched, and adds the rewritten files to a go build
// overlay.  Line numbers are kept.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type target struct {
	Pkg   string   `json:"pkg"`   // directory relative to the repository
	Files []string `json:"files"` // base names; empty: every file
	Mode  string   `json:"mode"`  // "sync" (default) or "stmt"
	Skip  []string `json:"skip"`  // function names left alone
}

type spec struct {
	Repo, Overlay, Out string
	Targets            []target
}

func die(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(1) }

type edit struct {
	lo, hi int
	gen    func(r *rewriter) string
	seq    int
}

type rewriter struct {
	src   []byte
	fset  *token.FileSet
	base  int
	edits []edit
	info  *types.Info
	mode  string
	file  string
	tmp   int
	skip  map[string]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) site(p token.Pos) string {
	ps := r.fset.Position(p)
	return fmt.Sprintf("%q", fmt.Sprintf("%s:%d", strings.TrimSuffix(filepath.Base(ps.Filename), ".go"), ps.Line))
}

func (r *rewriter) ins(at int, s string) { r.add(at, at, func(*rewriter) string { return s }) }
func (r *rewriter) add(lo, hi int, g func(*rewriter) string) {
	r.edits = append(r.edits, edit{lo, hi, g, len(r.edits)})
}

// render gives the text of [lo,hi) with the edits that lie inside applied.
// An edit covering exactly [lo,hi) with id==skip is not applied (used by edits that re-render their own range).
func (r *rewriter) render(lo, hi, skip int) string {
	var b bytes.Buffer
	pos := lo
	i := 0
	es := r.edits
	for i < len(es) {
		e := es[i]
		if e.lo < pos || e.seq == skip || e.hi > hi || e.lo < lo {
			i++
			continue
		}
		if e.lo >= hi && !(e.lo == e.hi && e.lo == hi && false) {
			break
		}
		b.Write(r.src[pos:e.lo])
		b.WriteString(e.gen(r))
		pos = e.hi
		i++
	}
	b.Write(r.src[pos:hi])
	return b.String()
}

func isSyncPkg(p *types.Package) bool {
	return p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic" || p.Path() == "go.uber.org/atomic")
}

// hasSync says whether n (without nested function literals) holds a synchronisation operation.
func (r *rewriter) hasSync(n ast.Node) (found, blocking bool) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			if x != n {
				return false
			}
		case *ast.CaseClause, *ast.CommClause:
			if x != n {
				return false
			}
		case *ast.SendStmt:
			found, blocking = true, true
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				found, blocking = true, true
			}
		case *ast.GoStmt, *ast.SelectStmt:
			found = true
		case *ast.CallExpr:
			switch f := v.Fun.(type) {
			case *ast.Ident:
				if f.Name == "close" {
					found = true
				}
			case *ast.SelectorExpr:
				if sel := r.info.Selections[f]; sel != nil {
					if fn, ok := sel.Obj().(*types.Func); ok && isSyncPkg(fn.Pkg()) {
						found = true
						if fn.Name() == "Wait" || fn.Name() == "Lock" || fn.Name() == "RLock" {
							blocking = true
						}
					}
				} else if o := r.info.Uses[f.Sel]; o != nil && isSyncPkg(o.Pkg()) {
					found = true
				}
				switch f.Sel.Name {
				case "cancel", "Cancel":
					found = true
				}
			}
		}
		return true
	})
	return
}

func (r *rewriter) lockCall(c *ast.CallExpr) (recv ast.Expr, name string, iface bool) {
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || len(c.Args) != 0 {
		return nil, "", false
	}
	switch f.Sel.Name {
	case "Lock", "RLock", "Unlock", "RUnlock":
	default:
		return nil, "", false
	}
	sel := r.info.Selections[f]
	if sel == nil {
		return nil, "", false
	}
	fn, ok := sel.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "sync" {
		return nil, "", false
	}
	iface = false
	if rv := fn.Type().(*types.Signature).Recv(); rv != nil {
		if _, ok := rv.Type().Underlying().(*types.Interface); ok {
			iface = true
		}
	}
	return f.X, f.Sel.Name, iface
}

func (r *rewriter) text(n ast.Node) string { return r.render(r.off(n.Pos()), r.off(n.End()), -1) }

func terminating(s ast.Stmt) bool {
	switch v := s.(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := v.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func (r *rewriter) stmtList(list []ast.Stmt) {
	for _, s := range list {
		r.stmt(s)
	}
}

func (r *rewriter) stmt(s ast.Stmt) {
	switch s.(type) {
	case *ast.CaseClause, *ast.CommClause:
		return
	}
	inner := s
	labeled := false
	for {
		if l, ok := inner.(*ast.LabeledStmt); ok {
			inner = l.Stmt
			labeled = true
			continue
		}
		break
	}
	switch v := inner.(type) {
	case *ast.ExprStmt:
		if c, ok := v.X.(*ast.CallExpr); ok {
			if x, name, iface := r.lockCall(c); x != nil {
				xs := r.text(x)
				st := r.site(s.Pos())
				var out string
				switch {
				case iface && name == "Lock":
					out = fmt.Sprintf("vsched.LockI(%s, %s)", st, xs)
				case name == "Lock":
					out = fmt.Sprintf("vsched.LockF(%s, (%s).TryLock, (%s).Lock)", st, xs, xs)
				case name == "RLock":
					out = fmt.Sprintf("vsched.LockF(%s, (%s).TryRLock, (%s).RLock)", st, xs, xs)
				default:
					out = fmt.Sprintf("vsched.UnlockF(%s, (%s).%s)", st, xs, name)
				}
				r.add(r.off(v.Pos()), r.off(v.End()), func(*rewriter) string { return out })
				return
			}
		}
	case *ast.DeferStmt:
		if x, name, _ := r.lockCall(v.Call); x != nil && strings.HasSuffix(name, "nlock") {
			xs := r.text(x)
			st := r.site(s.Pos())
			r.add(r.off(v.Pos()), r.off(v.End()), func(*rewriter) string {
				return fmt.Sprintf("defer vsched.UnlockF(%s, (%s).%s)", st, xs, name)
			})
			return
		}
	case *ast.GoStmt:
		st := r.site(s.Pos())
		if _, ok := v.Call.Fun.(*ast.FuncLit); !ok {
			r.tmp++
			k := r.tmp
			r.add(r.off(v.Pos()), r.off(v.End()), func(rr *rewriter) string {
				var pre, args strings.Builder
				fmt.Fprintf(&pre, "vf%d := %s; ", k, r.text(v.Call.Fun))
				for i, a := range v.Call.Args {
					if i > 0 {
						args.WriteString(", ")
					}
					if tv, ok := r.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
						args.WriteString(r.text(a))
						continue
					}
					fmt.Fprintf(&pre, "va%d_%d := %s; ", k, i, r.text(a))
					fmt.Fprintf(&args, "va%d_%d", k, i)
				}
				if v.Call.Ellipsis.IsValid() {
					args.WriteString("...")
				}
				return fmt.Sprintf("{ %sgo func() { defer vsched.Catch(); vsched.Y(%s); vf%d(%s) }(); vsched.Y(%s) }", pre.String(), st, k, args.String(), st)
			})
		} else {
			r.ins(r.off(v.End()), "; vsched.Y("+st+")")
		}
	case *ast.SelectStmt:
		r.selectStmt(v, labeled)
	}
	found, blocking := r.hasSync(headOf(inner))
	if r.mode == "stmt" {
		switch inner.(type) {
		case *ast.EmptyStmt, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.SelectStmt:
		case *ast.DeclStmt:
		default:
			found = true
		}
	}
	if _, isSel := inner.(*ast.SelectStmt); isSel {
		found = false
	}
	if found {
		r.ins(r.off(s.Pos()), "vsched.Y("+r.site(s.Pos())+"); ")
		if blocking && !terminating(inner) {
			switch inner.(type) {
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			default:
				r.ins(r.off(inner.End()), "; vsched.Y("+r.site(s.Pos())+")")
			}
		}
	}
	// loops that wait: give the scheduler a point on every turn
	if f, ok := inner.(*ast.ForStmt); ok && f.Body != nil {
		if y, _ := r.hasSync(f.Cond); y {
			r.ins(r.off(f.Body.Lbrace)+1, " vsched.Y("+r.site(f.Pos())+");")
		}
	}
	if f, ok := inner.(*ast.RangeStmt); ok {
		if tv, ok := r.info.Types[f.X]; ok {
			if _, isCh := tv.Type.Underlying().(*types.Chan); isCh {
				r.ins(r.off(f.Body.Lbrace)+1, " vsched.Y("+r.site(f.Pos())+");")
			}
		}
	}
}

// headOf is the part of a compound statement evaluated before its body.
func headOf(s ast.Stmt) ast.Node {
	switch v := s.(type) {
	case *ast.IfStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.RangeStmt, *ast.ForStmt:
		return v // hasSync does not descend into blocks and clauses
	case *ast.BlockStmt:
		return nil
	}
	return s
}

func (r *rewriter) selectStmt(v *ast.SelectStmt, labeled bool) {
	st := r.site(v.Pos())
	var clauses []*ast.CommClause
	var hoisted []func(*rewriter) string
	simple := true
	for _, c := range v.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm != nil {
			clauses = append(clauses, cc)
		}
		ast.Inspect(cc, func(n ast.Node) bool {
			if _, ok := n.(*ast.LabeledStmt); ok {
				simple = false
			}
			return true
		})
		// what the cases evaluate is evaluated once, before the choice, as select does
		hoist := func(e ast.Expr) {
			if e == nil || labeled {
				return
			}
			call := false
			ast.Inspect(e, func(n ast.Node) bool {
				if _, ok := n.(*ast.CallExpr); ok {
					call = true
				}
				return true
			})
			if !call {
				return
			}
			r.tmp++
			nm := fmt.Sprintf("vc%d", r.tmp)
			id := len(r.edits)
			lo, hi := r.off(e.Pos()), r.off(e.End())
			r.add(lo, hi, func(rr *rewriter) string { return nm })
			hoisted = append(hoisted, func(rr *rewriter) string { return nm + " := " + rr.render(lo, hi, id) + "; " })
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			hoist(s.Chan)
			hoist(s.Value)
		case *ast.ExprStmt:
			if u, ok := s.X.(*ast.UnaryExpr); ok {
				hoist(u.X)
			}
		case *ast.AssignStmt:
			if u, ok := s.Rhs[0].(*ast.UnaryExpr); ok {
				hoist(u.X)
			}
		}
		// a yield right after the case was taken
		if cc.Comm != nil {
			r.ins(r.off(cc.Colon)+1, " vsched.Y("+st+");")
		}
	}
	lo, hi := r.off(v.Pos()), r.off(v.End())
	if labeled {
		return
	}
	if !simple || len(clauses) < 2 {
		id := len(r.edits)
		r.add(lo, hi, func(rr *rewriter) string {
			var b strings.Builder
			b.WriteString("{ vsched.Y(" + st + "); ")
			for _, h := range hoisted {
				b.WriteString(h(rr))
			}
			b.WriteString(rr.render(lo, hi, id) + " }")
			return b.String()
		})
		return
	}
	id := len(r.edits)
	r.add(lo, hi, func(rr *rewriter) string {
		orig := rr.render(lo, hi, id)
		var b strings.Builder
		b.WriteString("{ ")
		for _, h := range hoisted {
			b.WriteString(h(rr))
		}
		fmt.Fprintf(&b, "switch vsched.Sel(%s, %d) {", st, len(clauses))
		for i, cc := range clauses {
			clo, chi := rr.off(cc.Pos()), rr.off(cc.End())
			one := func(s string) string { return strings.ReplaceAll(s, "\n", "\n") }
			fmt.Fprintf(&b, " case %d: select { %s\ndefault: %s }", i, one(rr.render(clo, chi, -1)), one(orig))
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, " default: %s } }", orig)
		return "\n" + b.String()
	})
}

func hasTxParam(ft *ast.FuncType) bool {
	if ft.Params == nil {
		return false
	}
	for _, p := range ft.Params.List {
		if s, ok := p.Type.(*ast.StarExpr); ok {
			if sel, ok := s.X.(*ast.SelectorExpr); ok && sel.Sel.Name == "Tx" {
				return true
			}
		}
	}
	return false
}

func (r *rewriter) walk(f *ast.File) {
	var goLits = map[*ast.FuncLit]bool{}
	var maskLits = map[*ast.FuncLit]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.GoStmt:
			if l, ok := v.Call.Fun.(*ast.FuncLit); ok {
				goLits[l] = true
			}
		case *ast.CallExpr:
			if s, ok := v.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Do" && len(v.Args) == 1 {
				if l, ok := v.Args[0].(*ast.FuncLit); ok {
					if sel := r.info.Selections[s]; sel != nil && sel.Obj().Pkg() != nil && sel.Obj().Pkg().Path() == "sync" {
						maskLits[l] = true
					}
				}
			}
		}
		return true
	})
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if r.skip[fd.Name.Name] {
			continue
		}
		if hasTxParam(fd.Type) {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.FuncLit:
				if hasTxParam(v.Type) || maskLits[v] {
					r.ins(r.off(v.Body.Lbrace)+1, " vsched.Mask(); defer vsched.Unmask();")
					return false
				}
				if goLits[v] {
					r.ins(r.off(v.Body.Lbrace)+1, " defer vsched.Catch(); vsched.Y("+r.site(v.Pos())+");")
				}
			case *ast.BlockStmt:
				r.stmtList(v.List)
			case *ast.CaseClause:
				r.stmtList(v.Body)
			case *ast.CommClause:
				r.stmtList(v.Body)
			}
			return true
		})
	}
}

type listPkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	ImportMap               map[string]string
}

func main() {
	raw, err := os.ReadFile(os.Args[1])
	if err != nil {
		die(err)
	}
	var sp spec
	if err = json.Unmarshal(raw, &sp); err != nil {
		die(err)
	}
	ovRaw, err := os.ReadFile(sp.Overlay)
	if err != nil {
		die(err)
	}
	var ov struct{ Replace map[string]string }
	if err = json.Unmarshal(ovRaw, &ov); err != nil {
		die(err)
	}
	args := []string{"list", "-overlay", sp.Overlay, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,ImportMap"}
	for _, t := range sp.Targets {
		args = append(args, "./"+t.Pkg)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = sp.Repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	exports := map[string]string{}
	byDir := map[string]listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err = dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		byDir[p.Dir] = p
	}
	for _, t := range sp.Targets {
		dir := filepath.Join(sp.Repo, t.Pkg)
		p, ok := byDir[dir]
		if !ok {
			die("package not found:", t.Pkg)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		var names []string
		for _, g := range p.GoFiles {
			full := g
			if !filepath.IsAbs(full) {
				full = filepath.Join(dir, g)
			}
			real := full
			if o, ok := ov.Replace[full]; ok && o != "" {
				real = o
			}
			b, err := os.ReadFile(real)
			if err != nil {
				die(err)
			}
			f, err := parser.ParseFile(fset, full, b, parser.ParseComments)
			if err != nil {
				die(err)
			}
			files, srcs, names = append(files, f), append(srcs, b), append(names, full)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "typecheck:", err) }}
		_, _ = conf.Check(p.ImportPath, fset, files, info)
		want := map[string]bool{}
		for _, f := range t.Files {
			want[f] = true
		}
		skip := map[string]bool{}
		for _, s := range t.Skip {
			skip[s] = true
		}
		for i, f := range files {
			if len(want) > 0 && !want[filepath.Base(names[i])] {
				continue
			}
			r := &rewriter{src: srcs[i], fset: fset, info: info, mode: t.Mode, file: names[i], skip: skip}
			r.walk(f)
			if len(r.edits) == 0 {
				continue
			}
			r.ins(r.off(f.Name.End()), `; import vsched "common/vsched"; var _ = vsched.Y`)
			// imports must precede other declarations: only the import goes after the package clause
			r.edits[len(r.edits)-1].gen = func(*rewriter) string { return `; import vsched "common/vsched"` }
			sort.SliceStable(r.edits, func(a, b int) bool {
				x, y := r.edits[a], r.edits[b]
				if x.lo != y.lo {
					return x.lo < y.lo
				}
				// insertions before replacements at the same place; wider replacements first
				xi, yi := x.lo == x.hi, y.lo == y.hi
				if xi != yi {
					return xi
				}
				if !xi && x.hi != y.hi {
					return x.hi > y.hi
				}
				return x.seq < y.seq
			})
			txt := r.render(0, len(r.src), -1)
			txt += "\nvar _ = vsched.Y\n"
			dst := filepath.Join(sp.Out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "_"))
			if err = os.WriteFile(dst, []byte(txt), 0o644); err != nil {
				die(err)
			}
			ov.Replace[names[i]] = dst
		}
	}
	bt, _ := json.MarshalIndent(ov, "", " ")
	if err = os.WriteFile(sp.Overlay, bt, 0o644); err != nil {
		die(err)
	}
}
