package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"

	"verifengine/sym"
)

// Instrumented copies of the sources, for replays under a given schedule:
// imports of sync, sync/atomic and time are redirected to verifharness/vkrt,
// and go statements, channel operations and selects become calls to it.

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	src  []byte
	base int
	used bool
	n    int
}

func (w *rewriter) off(p token.Pos) int { return w.fset.PositionFor(p, false).Offset }

// text is the rewritten source of [from,to), whose syntax is below n.
func (w *rewriter) text(from, to token.Pos, nodes ...ast.Node) string {
	var b strings.Builder
	at := w.off(from)
	end := w.off(to)
	for _, n := range nodes {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(x ast.Node) bool {
			if x == nil || !w.special(x) {
				return true
			}
			s, e := w.off(x.Pos()), w.off(x.End())
			if s < at || e > end {
				return true
			}
			b.Write(w.src[at:s])
			b.WriteString(w.rewrite(x))
			at = e
			return false
		})
	}
	b.Write(w.src[at:end])
	return b.String()
}

func (w *rewriter) node(n ast.Node) string { return w.text(n.Pos(), n.End(), n) }

func (w *rewriter) isChan(e ast.Expr) bool {
	t := w.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (w *rewriter) isNumCPU(x *ast.CallExpr) bool {
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "NumCPU" {
		f, ok := w.info.Uses[sel.Sel].(*types.Func)
		return ok && f.FullName() == "runtime.NumCPU"
	}
	return false
}

func (w *rewriter) special(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
		return true
	case *ast.UnaryExpr:
		return x.Op == token.ARROW
	case *ast.RangeStmt:
		return w.isChan(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			_, ok := isRecv(x.Rhs[0])
			return ok
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			_, ok := isRecv(x.Values[0])
			return ok
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
			_, ok := w.info.Uses[id].(*types.Builtin)
			return ok
		}
		return w.isNumCPU(x)
	case *ast.DeferStmt:
		return w.special(x.Call) // defer close(ch)
	}
	return false
}

// below rewrites n, whose outermost node is handled by the caller.
func (w *rewriter) rewrite(n ast.Node) string {
	w.used = true
	switch x := n.(type) {
	case *ast.UnaryExpr:
		return "vkrt.Recv(" + w.node(x.X) + ")"
	case *ast.SendStmt:
		return "vkrt.SendTo(" + w.node(x.Chan) + ")(" + w.node(x.Value) + ")"
	case *ast.AssignStmt:
		u, _ := isRecv(x.Rhs[0])
		return w.node(x.Lhs[0]) + ", " + w.node(x.Lhs[1]) + " " + x.Tok.String() + " vkrt.Recv2(" + w.node(u.X) + ")"
	case *ast.ValueSpec:
		u, _ := isRecv(x.Values[0])
		return x.Names[0].Name + ", " + x.Names[1].Name + " = vkrt.Recv2(" + w.node(u.X) + ")"
	case *ast.CallExpr:
		if w.isNumCPU(x) {
			return "vkrt.CPUs(" + w.node(x.Fun) + ")"
		}
		return "vkrt.Close(" + w.node(x.Args[0]) + ")"
	case *ast.DeferStmt:
		return "defer " + w.rewrite(x.Call)
	case *ast.RangeStmt:
		w.n++
		c, v, ok := fmt.Sprintf("_vc%d", w.n), fmt.Sprintf("_vv%d", w.n), fmt.Sprintf("_vo%d", w.n)
		bind := ""
		if x.Key != nil {
			bind = w.node(x.Key) + " " + x.Tok.String() + " " + v + "; "
			if id, is := x.Key.(*ast.Ident); is && id.Name == "_" {
				bind = ""
			}
		}
		return fmt.Sprintf("for %s := %s; ; { %s, %s := vkrt.Recv2(%s); if !%s { break }; _ = %s; %s%s }", c, w.node(x.X), v, ok, c, ok, v, bind, w.node(x.Body))
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.SelectStmt:
		return w.selectStmt(x)
	}
	panic("rewrite")
}

func (w *rewriter) goStmt(x *ast.GoStmt) string {
	w.n++
	id := w.n
	var pre strings.Builder
	fun := ""
	if _, lit := x.Call.Fun.(*ast.FuncLit); lit && len(x.Call.Args) == 0 {
		return "vkrt.Go(" + w.node(x.Call.Fun) + ")"
	}
	fun = fmt.Sprintf("_vf%d", id)
	fmt.Fprintf(&pre, "%s := %s; ", fun, w.node(x.Call.Fun))
	var args []string
	for i, a := range x.Call.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, w.node(a))
			continue
		}
		v := fmt.Sprintf("_va%d_%d", id, i)
		fmt.Fprintf(&pre, "%s := %s; ", v, w.node(a))
		args = append(args, v)
	}
	call := strings.Join(args, ", ")
	if x.Call.Ellipsis.IsValid() {
		call += "..."
	}
	return fmt.Sprintf("{ %svkrt.Go(func() { %s(%s) }) }", pre.String(), fun, call)
}

func (w *rewriter) selectStmt(x *ast.SelectStmt) string {
	w.n++
	id := w.n
	var pre, body strings.Builder
	var names []string
	def := false
	k := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		v := fmt.Sprintf("_vs%d_%d", id, k)
		bind := ""
		switch s := cc.Comm.(type) {
		case nil:
			def = true
			body.WriteString("case -1: ")
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := vkrt.NewSend(%s)(%s); ", v, w.node(s.Chan), w.node(s.Value))
		case *ast.ExprStmt:
			u, _ := isRecv(s.X)
			fmt.Fprintf(&pre, "%s := vkrt.NewRecv(%s); ", v, w.node(u.X))
		case *ast.AssignStmt:
			u, _ := isRecv(s.Rhs[0])
			fmt.Fprintf(&pre, "%s := vkrt.NewRecv(%s); ", v, w.node(u.X))
			bind = w.node(s.Lhs[0])
			val := v + ".V"
			if len(s.Lhs) == 2 {
				bind += ", " + w.node(s.Lhs[1])
				val += ", " + v + ".OK"
			}
			bind += " " + s.Tok.String() + " " + val + "; "
		}
		if cc.Comm != nil {
			fmt.Fprintf(&body, "case %d: ", k)
			names = append(names, v)
			k++
		}
		body.WriteString(bind)
		var nodes []ast.Node
		for _, s := range cc.Body {
			nodes = append(nodes, s)
		}
		body.WriteString(w.text(cc.Colon+1, cc.End(), nodes...))
		body.WriteString("\n")
	}
	args := append([]string{fmt.Sprint(def)}, names...)
	tail := "default: panic(\"vkrt\") "
	return fmt.Sprintf("{ %sswitch vkrt.Select(%s) { %s%s} }", pre.String(), strings.Join(args, ", "), body.String(), tail)
}

// instrument writes the copies and returns the overlay file.
func instrument(p *sym.Program, work string) (string, error) {
	dir := filepath.Join(work, "instr")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	over := map[string]string{}
	n := 0
	for _, pk := range p.Sources {
		if !strings.HasPrefix(pk.PkgPath, "github.com/wearelumenai/distclus") && pk.PkgPath != "verifharness/h" && pk.PkgPath != sym.VKTime {
			continue
		}
		for i, f := range pk.Syntax {
			name := pk.CompiledGoFiles[i]
			out, changed, err := rewriteFile(pk, f, name)
			if err != nil {
				return "", err
			}
			if !changed {
				continue
			}
			n++
			dst := filepath.Join(dir, fmt.Sprintf("%d_%s", n, filepath.Base(name)))
			if err := os.WriteFile(dst, []byte(out), 0644); err != nil {
				return "", err
			}
			over[name] = dst
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": over})
	file := filepath.Join(work, "overlay.json")
	return file, os.WriteFile(file, b, 0644)
}

func rewriteFile(pk *packages.Package, f *ast.File, name string) (out string, changed bool, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("cannot instrument %s: %v", name, x)
		}
	}()
	src, err := os.ReadFile(name)
	if err != nil {
		return "", false, err
	}
	w := &rewriter{fset: pk.Fset, info: pk.TypesInfo, src: src}
	var b strings.Builder
	at := 0
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		to := map[string]string{"sync": "vsync", "sync/atomic": "vatomic", "time": "vtime"}[path]
		if to == "" {
			continue
		}
		if pk.PkgPath == sym.VKTime && path == "time" {
			to = "vtime0"
		}
		s, e := w.off(im.Pos()), w.off(im.End())
		alias := filepath.Base(path)
		if im.Name != nil {
			alias = im.Name.Name
		}
		b.Write(src[at:s])
		fmt.Fprintf(&b, "%s \"verifharness/vkrt/%s\"", alias, to)
		at = e
		changed = true
	}
	var nodes []ast.Node
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		nodes = append(nodes, d)
	}
	rest := ""
	for i, d := range nodes {
		if i == 0 {
			b.Write(src[at:w.off(d.Pos())])
		}
		rest += w.node(d)
		if i+1 < len(nodes) {
			rest += string(src[w.off(d.End()):w.off(nodes[i+1].Pos())])
		} else {
			rest += string(src[w.off(d.End()):])
		}
	}
	text := b.String()
	if w.used {
		changed = true
		k := w.off(f.Name.End())
		text = text[:k] + "; import vkrt \"verifharness/vkrt\"" + text[k:]
	}
	if len(nodes) == 0 {
		return "", false, nil
	}
	return "//go:build go1.21\n\n" + text + rest, changed, nil
}

// nativeConc builds the replay binary of scheduled runs.
func nativeConc(race bool, work string) (string, error) {
	nmu.Lock()
	defer nmu.Unlock()
	key := "conc" + fmt.Sprint(race)
	if e := concE[key]; e != "" {
		return "", fmt.Errorf("%s", e)
	}
	if b := concB[key]; b != "" {
		return b, nil
	}
	fail := func(err string) (string, error) {
		concE[key] = err
		return "", fmt.Errorf("%s", err)
	}
	over, err := instrument(program, work)
	if err != nil {
		return fail(err.Error())
	}
	out := filepath.Join(work, key)
	args := []string{"build", "-overlay", over, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./cmd/conc")
	c := exec.Command("go", args...)
	c.Dir = filepath.Join(root, "harness")
	if b, err := c.CombinedOutput(); err != nil {
		return fail("instrumented build: " + firstLines(string(b), 6))
	}
	concB[key] = out
	return out, nil
}

var (
	concB   = map[string]string{}
	concE   = map[string]string{}
	program *sym.Program
)
