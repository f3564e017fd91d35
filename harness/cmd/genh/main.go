// genh runs the code generator of the implementation on sources and compares the declarations in
// the generated file with the specification, or records them for trace validation.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	gast "go/ast"
	"go/constant"
	goparser "go/parser"
	gotoken "go/token"
	"go/types"
	"io"
	"log"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"

	"verif/harness/internal/render"
	"verif/harness/internal/sup"
	"verif/harness/internal/tree"
)

type genCase struct {
	Toks  []render.Token `json:"toks"`
	Decls []any          `json:"decls"`
	Hex   *string        `json:"hex"`
}

// generate returns the generated file for a source, or why there is none.
func generate(src, pkg string) (code string, cddl *ast.CDDL, diags int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("the generator fails: %v", r)
		}
	}()
	cddl, errs := parser.NewParser(lexer.NewLexer([]byte(src))).ParseFile()
	if len(errs) > 0 {
		return "", cddl, len(errs), nil
	}
	g := gogen.NewGenerator(pkg)
	g.Visit(cddl)
	var buf bytes.Buffer
	if err := g.String(&buf); err != nil {
		return "", cddl, 0, fmt.Errorf("the generator fails: %v", err)
	}
	if g.Package() != pkg {
		return "", cddl, 0, fmt.Errorf("Package() is %q, not %q", g.Package(), pkg)
	}
	return buf.String(), cddl, 0, nil
}

// declarations reads the declarations of a Go file, in the form of the specification.
func declarations(code, pkg string) ([]any, error) {
	fset := gotoken.NewFileSet()
	f, err := goparser.ParseFile(fset, "x.go", code, goparser.ParseComments)
	if err != nil {
		return nil, fmt.Errorf("not valid Go: %v", err)
	}
	if f.Name.Name != pkg {
		return nil, fmt.Errorf("in package %s, not %s", f.Name.Name, pkg)
	}
	info := &types.Info{Types: map[gast.Expr]types.TypeAndValue{}, Defs: map[*gast.Ident]types.Object{}}
	conf := types.Config{}
	p, err := conf.Check(pkg, fset, []*gast.File{f}, info)
	if err != nil {
		return nil, fmt.Errorf("not type-correct Go: %v", err)
	}
	out := []any{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *gast.GenDecl:
			for _, spec := range d.Specs {
				switch s := spec.(type) {
				case *gast.TypeSpec:
					tn, ok := info.Defs[s.Name].(*types.TypeName)
					if !ok || tn.IsAlias() {
						return nil, fmt.Errorf("%s is not a defined type", s.Name.Name)
					}
					out = append(out, []any{"type", s.Name.Name, typeOf(s.Type)})
					m, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, p, "Valid")
					fn, ok := m.(*types.Func)
					if !ok {
						return nil, fmt.Errorf("%s has no method Valid", s.Name.Name)
					}
					sig := fn.Type().(*types.Signature)
					if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sig.Results().At(0).Type().String() != "error" {
						return nil, fmt.Errorf("%s.Valid has the signature %v", s.Name.Name, sig)
					}
				case *gast.ValueSpec:
					if d.Tok != gotoken.VAR || len(s.Names) != 1 || len(s.Values) != 1 || s.Type != nil {
						return nil, fmt.Errorf("unexpected declaration of %v", s.Names)
					}
					out = append(out, append([]any{"var", s.Names[0].Name}, value(info, s.Values[0])...))
				default:
					return nil, fmt.Errorf("unexpected declaration %T", spec)
				}
			}
		case *gast.FuncDecl:
			if d.Recv == nil {
				return nil, fmt.Errorf("unexpected function %s", d.Name.Name)
			}
		}
	}
	return out, nil
}

func value(info *types.Info, e gast.Expr) []any {
	tv := info.Types[e]
	if tv.Value == nil {
		return []any{"other", fmt.Sprint(tv.Type)}
	}
	switch t := tv.Type.Underlying().(*types.Basic); {
	case t.Info()&types.IsBoolean != 0:
		return []any{"bool", fmt.Sprint(constant.BoolVal(tv.Value))}
	case t.Info()&types.IsString != 0:
		return []any{"text", constant.StringVal(tv.Value)}
	case t.Info()&types.IsInteger != 0:
		return []any{"int", tv.Value.ExactString()}
	case t.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(tv.Value)
		return []any{"float", strconv.FormatFloat(f, 'g', -1, 64)}
	}
	return []any{"other", fmt.Sprint(tv.Type)}
}

func typeOf(e gast.Expr) any {
	switch e := e.(type) {
	case *gast.ParenExpr:
		return typeOf(e.X)
	case *gast.Ident:
		if _, ok := types.Universe.Lookup(e.Name).(*types.TypeName); ok {
			return []any{"basic", e.Name}
		}
		return []any{"named", e.Name}
	case *gast.ArrayType:
		if e.Len == nil {
			return []any{"slice", typeOf(e.Elt)}
		}
	case *gast.StructType:
		toarray, fields := false, []any{}
		for _, f := range e.Fields.List {
			if len(f.Names) == 0 {
				return []any{"embedded", fmt.Sprint(typeOf(f.Type))}
			}
			for _, n := range f.Names {
				tag := ""
				if f.Tag != nil {
					s, _ := strconv.Unquote(f.Tag.Value)
					tag = reflect.StructTag(s).Get("cbor")
				}
				if n.Name == "_" {
					toarray = toarray || strings.HasPrefix(tag, ",") && strings.Contains(tag+",", ",toarray,")
					continue
				}
				fields = append(fields, []any{n.Name, typeOf(f.Type)})
			}
		}
		return []any{"struct", toarray, fields}
	}
	return []any{"other", fmt.Sprintf("%T", e)}
}

// norm gives the literals of expected declarations the values they stand for.
func norm(decls []any) []any {
	out := make([]any, len(decls))
	for i, d := range decls {
		v := append([]any{}, d.([]any)...)
		if v[0] == "var" {
			switch v[2] {
			case "int":
				v[3] = tree.Int(v[3].(string))
			case "float":
				v[3] = tree.Float(v[3].(string))
			}
		}
		out[i] = v
	}
	return out
}

func js(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

var runs int

func replay(raw json.RawMessage) (o sup.Outcome) {
	var c genCase
	if err := json.Unmarshal(raw, &c); err != nil {
		o.Findings = append(o.Findings, sup.Finding{Prop: "harness", Detail: err.Error()})
		return
	}
	want := norm(c.Decls)
	o.Trivial = len(c.Toks) == 0
	o.Key = fmt.Sprint(len(c.Toks), js(want))
	runs++
	pkg := []string{"dist", "main", "pkg_1"}[runs%3]
	for _, lay := range []int{runs % render.Layouts, (runs + 2) % render.Layouts} {
		src, _ := render.Source(c.Toks, lay)
		code, _, diags, err := generate(src, pkg)
		var got []any
		if err == nil && diags == 0 {
			got, err = declarations(code, pkg)
		}
		switch {
		case diags > 0:
			o.Findings = append(o.Findings, sup.Finding{Prop: "C15", Detail: fmt.Sprintf("%q has %d diagnostics", src, diags)})
		case err != nil:
			o.Findings = append(o.Findings, sup.Finding{Prop: "C15", Detail: fmt.Sprintf("%q: %v\n%s", src, err, code)})
		case js(got) != js(want):
			o.Findings = append(o.Findings, sup.Finding{Prop: "C15", Detail: fmt.Sprintf("%q: declares %s, want %s\n%s", src, js(got), js(want), code)})
		}
	}
	return
}

func record(raw json.RawMessage) (o sup.Outcome) {
	var c genCase
	if err := json.Unmarshal(raw, &c); err != nil || c.Hex == nil {
		o.Findings = append(o.Findings, sup.Finding{Prop: "harness", Detail: "bad case"})
		return
	}
	b, _ := hex.DecodeString(*c.Hex)
	code, cddl, diags, err := generate(string(b), "dist")
	if diags > 0 {
		o.Skip = true
		return
	}
	out := []tree.Node{}
	for _, r := range cddl.Rules {
		switch r.(type) {
		case *ast.Rule:
			n := tree.Of(r, false)
			out = append(out, clean(n))
		}
	}
	var got []any
	if err == nil {
		got, err = declarations(code, "dist")
	}
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	if got == nil {
		got = []any{}
	}
	o.Key = js(got)
	o.Record = map[string]any{"src": string(b), "out": out, "decls": got, "err": strings.ReplaceAll(msg, "\n", " ")}
	return
}

// clean leaves out the comments and the names of rule nodes.
func clean(n tree.Node) tree.Node {
	kids := []tree.Node{}
	for _, k := range tree.NoComments(n.Kids) {
		kids = append(kids, clean(k))
	}
	n.Kids = kids
	return n
}

func main() {
	log.SetOutput(io.Discard)
	mode := "replay"
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	h := replay
	if mode == "record" {
		h = record
	}
	sup.Main(h, mode)
}
