// Command instr writes copies of the library's sources with a delay point
// (vpoint.At) around every synchronisation operation, the build of the
// monitors uses them by an overlay. Nothing else changes: the insertions stay
// on the line of the statement.
//
//	instr REPO OUTDIR KEYDIR...
//
// The overlay maps every KEYDIR/<file> to its copy; the names of the places
// are written to OUTDIR/places.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const vp = "zzvpoint"

type insertion struct {
	off  int
	text string
	seq  int
}

type file struct {
	rel    string
	fset   *token.FileSet
	ins    []insertion
	places []string
	fn     string
	n      int
	pkgs   map[string]bool // names of imported packages
}

func (f *file) at(off int, format, kind string) {
	f.n++
	p := fmt.Sprintf("auto:%s:%s:%d%s", f.rel, f.fn, f.n, kind)
	f.places = append(f.places, p)
	f.ins = append(f.ins, insertion{off, fmt.Sprintf(format, fmt.Sprintf("%s.At(%q)", vp, p)), len(f.ins)})
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }

func (f *file) before(s ast.Stmt, kind string) { f.at(f.off(s.Pos()), "%s; ", kind) }
func (f *file) after(s ast.Stmt, kind string)  { f.at(f.off(s.End()), "; %s", kind) }

// method returns the name of the called method or function
func callName(e ast.Expr) (recv ast.Expr, name string, args int) {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return nil, "", 0
	}
	switch fn := c.Fun.(type) {
	case *ast.SelectorExpr:
		return fn.X, fn.Sel.Name, len(c.Args)
	case *ast.Ident:
		return nil, fn.Name, len(c.Args)
	}
	return nil, "", 0
}

func locks(e ast.Expr) string {
	recv, n, args := callName(e)
	if recv == nil || args != 0 {
		return ""
	}
	switch n {
	case "Lock", "RLock":
		return "lock"
	case "Unlock", "RUnlock":
		return "unlock"
	}
	return ""
}

// syncs tells whether a statement synchronises outside of nested functions
// and nested blocks
func (f *file) syncs(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.GoStmt, *ast.DeferStmt:
			return false
		case *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			recv, name, _ := callName(x)
			if recv == nil {
				if name == "close" {
					found = true
				}
				break
			}
			if id, ok := recv.(*ast.Ident); ok && f.pkgs[id.Name] {
				if id.Name == "atomic" || id.Name == "os" {
					found = true
				}
				break
			}
			switch name {
			case "Do", "Acquire", "TryAcquire", "Release", "Wait", "Signal", "Broadcast", "Done",
				"Load", "Store", "Swap", "CompareAndSwap", "LoadOrStore", "LoadAndDelete", "Add",
				"Close", "GetWriter", "Read", "Write", "Flush", "IsActive", "IsConnected",
				"Get", "Put", "cancel":
				found = true
			}
		}
		return !found
	})
	return found
}

func (f *file) list(l []ast.Stmt) {
	for _, s := range l {
		f.stmt(s)
	}
}

func (f *file) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		switch locks(x.X) {
		case "lock":
			f.before(s, "l")
			f.after(s, "h")
			return
		case "unlock":
			f.before(s, "h")
			f.after(s, "u")
			return
		}
		if f.syncs(x) {
			f.before(s, "b")
			if _, n, _ := callName(x.X); n != "panic" && n != "Exit" && n != "Goexit" {
				f.after(s, "a")
			}
		}
	case *ast.DeferStmt:
		if locks(x.Call) == "unlock" {
			// executed after the deferred unlock
			f.at(f.off(s.Pos()), "defer %s; ", "u")
		}
	case *ast.GoStmt:
		f.before(s, "g")
	case *ast.AssignStmt, *ast.SendStmt, *ast.IncDecStmt:
		if f.syncs(s) {
			f.before(s, "b")
			f.after(s, "a")
		}
	case *ast.ReturnStmt, *ast.SelectStmt, *ast.DeclStmt:
		if f.syncs(s) {
			f.before(s, "b")
		}
	case *ast.IfStmt:
		if x.Init != nil && f.syncs(x.Init) || f.syncs(x.Cond) {
			f.before(s, "b")
		}
	case *ast.SwitchStmt:
		if x.Init != nil && f.syncs(x.Init) || x.Tag != nil && f.syncs(x.Tag) {
			f.before(s, "b")
		}
	}
}

func (f *file) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			f.fn = x.Name.Name
			if x.Recv != nil && len(x.Recv.List) == 1 {
				t := x.Recv.List[0].Type
				if p, ok := t.(*ast.StarExpr); ok {
					t = p.X
				}
				if id, ok := t.(*ast.Ident); ok {
					f.fn = id.Name + "." + f.fn
				}
			}
			f.n = 0
		case *ast.BlockStmt:
			f.list(x.List)
		case *ast.CaseClause:
			f.list(x.Body)
		case *ast.CommClause:
			f.list(x.Body)
		}
		return true
	})
}

func instrument(rel string, src []byte) ([]byte, []string, error) {
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, rel, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, nil, err
	}
	f := &file{rel: rel, fset: fset, pkgs: map[string]bool{}}
	for _, i := range a.Imports {
		p := strings.Trim(i.Path.Value, "`\"")
		name := p[strings.LastIndexByte(p, '/')+1:]
		if i.Name != nil {
			name = i.Name.Name
		}
		f.pkgs[name] = true
	}
	f.walk(a)
	ast.Inspect(a, func(n ast.Node) bool {
		// the marks of the sources
		if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 1 {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "At" {
				if l, ok := c.Args[0].(*ast.BasicLit); ok && l.Kind == token.STRING {
					if x, ok := s.X.(*ast.Ident); ok && x.Name == "vpoint" {
						f.places = append(f.places, strings.Trim(l.Value, "\"`"))
					}
				}
			}
		}
		return true
	})
	if len(f.ins) == 0 {
		return nil, f.places, nil
	}
	f.ins = append(f.ins, insertion{f.off(a.Name.End()), "; import " + vp + ` "github.com/qbeon/webwire-go/vpoint"`, -1})
	sort.SliceStable(f.ins, func(i, j int) bool {
		if f.ins[i].off != f.ins[j].off {
			return f.ins[i].off < f.ins[j].off
		}
		return f.ins[i].seq < f.ins[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, i := range f.ins {
		b.Write(src[pos:i.off])
		b.WriteString(i.text)
		pos = i.off
	}
	b.Write(src[pos:])
	return b.Bytes(), f.places, nil
}

func main() {
	repo, out, keys := os.Args[1], os.Args[2], os.Args[3:]
	overlay := map[string]string{}
	var places []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			switch b := filepath.Base(p); {
			case rel == ".":
			case strings.HasPrefix(b, "."), strings.HasPrefix(b, "_"), b == "vendor", b == "vpoint", b == "test", b == "testdata", b == "examples":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || !fi.Mode().IsRegular() {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst, pl, err := instrument(rel, src)
		places = append(places, pl...)
		if err != nil || dst == nil {
			return nil // if it's an error then the compiler will complain
		}
		to := filepath.Join(out, strings.Replace(rel, string(filepath.Separator), "__", -1))
		if err := os.WriteFile(to, dst, 0644); err != nil {
			return err
		}
		for _, k := range keys {
			overlay[filepath.Join(k, rel)] = to
		}
		return nil
	})
	if err == nil {
		var b []byte
		b, err = json.Marshal(map[string]interface{}{"Replace": overlay})
		if err == nil {
			err = os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644)
		}
	}
	if err == nil {
		err = os.WriteFile(filepath.Join(out, "places"), []byte(strings.Join(places, "\n")+"\n"), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
