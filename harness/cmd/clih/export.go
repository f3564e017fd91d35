package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"

	"verif/harness/internal/chars"
	"verif/harness/internal/render"
	"verif/harness/internal/sup"
)

// exportCase is a finished run of Export.tla, or sources with what the parser finds.
type exportCase struct {
	Cmd    string              `json:"cmd"`
	Arg    string              `json:"arg"`
	Src    []string            `json:"src"`
	Hex    []byte              `json:"bytes"` // instead of src, with what is asked for
	Status string              `json:"status"`
	Toks   [][]json.RawMessage `json:"toks"`
	S      []struct {
		Toks []render.Token `json:"toks"`
	} `json:"s"`
}

// shown is a token as it is exported.
type shown struct {
	at, kind, text string
}

// kinds of the specification whose exported name differs
var exportedKinds = map[string]string{"TEXT": token.TEXT_LITERAL.String(), "INT": token.INT.String(), "FLOAT": token.FLOAT.String()}

// textOf is the text of a token that covers source text.
func textOf(kind, covers string) string {
	switch kind {
	case "COMMENT":
		return covers[1:]
	case "TEXT":
		covers = covers[1:]
		return strings.TrimSuffix(covers, `"`)
	}
	return covers
}

// isLine tells whether a line exports a token.
func (t shown) isLine(line string) bool {
	if !strings.HasPrefix(line, t.at) || !strings.HasSuffix(line, t.text) || len(line) < len(t.at)+len(t.text) {
		return false
	}
	mid := line[len(t.at) : len(line)-len(t.text)]
	if mid == "" || strings.Contains("0123456789", mid[:1]) {
		return false
	}
	return strings.Contains(mid, t.kind)
}

// lines says why the lines are not the export of the tokens, and gives the lines after them.
func lines(text string, toks []shown) (string, []string) {
	ls := strings.Split(text, "\n")
	for i, t := range toks {
		if i >= len(ls) || !t.isLine(ls[i]) {
			got := "nothing"
			if i < len(ls) {
				got = strconv.Quote(ls[i])
			}
			return fmt.Sprintf("line %d for token %q is %s", i+1, t, got), nil
		}
	}
	return "", ls[len(toks):]
}

func scanAll(src string) (out []shown, illegal bool) {
	l := lexer.NewLexer([]byte(src))
	for i := 0; i <= len(src)+1; i++ {
		t, p, lit := l.Scan()
		out = append(out, shown{fmt.Sprintf("%d:%d", p.Line, p.Column), t.String(), lit})
		illegal = illegal || t == token.ILLEGAL
		if t == token.EOF {
			break
		}
	}
	return
}

// value is what a decoded document has to hold for a part of a tree.
func value(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return value(v.Elem())
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				m[f.Name] = value(v.Field(i))
			}
		}
		return m
	case reflect.Slice:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, value(v.Index(i)))
		}
		return out
	case reflect.String:
		return strings.ToValidUTF8(v.String(), "\ufffd")
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float64, reflect.Float32:
		return v.Float()
	}
	panic("harness: a tree with " + v.Kind().String())
}

// difference says where a document does not hold what it has to.
func difference(at string, want, got any) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s is %.200v", at, got)
		}
		for k, x := range w {
			y, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s has no %s", at, k)
			}
			if d := difference(at+"."+k, x, y); d != "" {
				return d
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok && !(got == nil && len(w) == 0) || len(g) != len(w) {
			return fmt.Sprintf("%s has %d elements, not %d", at, len(g), len(w))
		}
		for i := range w {
			if d := difference(fmt.Sprintf("%s[%d]", at, i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	case float64:
		if n, ok := got.(json.Number); ok {
			if f, err := n.Float64(); err == nil && (f == w || math.IsNaN(f) && math.IsNaN(w)) {
				return ""
			}
		}
	case string:
		if n, ok := got.(json.Number); ok && n.String() == w {
			return ""
		}
		if t, ok := got.(string); ok && (t == w || strings.ToValidUTF8(t, "\ufffd") == w || squeeze(t) == squeeze(w)) {
			return ""
		}
	default:
		if want == got {
			return ""
		}
	}
	return fmt.Sprintf("%s is %#v, not %#v", at, got, want)
}

// squeeze makes runs of replacement characters one: bytes that are no characters may be replaced one by one.
func squeeze(s string) string {
	for strings.Contains(s, "\ufffd\ufffd") {
		s = strings.ReplaceAll(s, "\ufffd\ufffd", "\ufffd")
	}
	return s
}

// document says why the output is not one document that holds the tree.
func document(text string, tree *ast.CDDL) string {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var got any
	if err := dec.Decode(&got); err != nil {
		return fmt.Sprintf("no document: %v: %.300q", err, text)
	}
	if _, err := dec.Token(); err != io.EOF {
		return "more than one document"
	}
	return difference("tree", value(reflect.ValueOf(tree)), got)
}

func replayExport(raw json.RawMessage) (out sup.Outcome) {
	var c exportCase
	must(json.Unmarshal(raw, &c))
	s := &scene{h: hash(string(raw))}
	dir, err := os.MkdirTemp(scratch, "x")
	must(err)
	must(os.Chmod(dir, 0o777))
	defer os.RemoveAll(dir)
	report := func(format string, a ...any) {
		if len(out.Findings) < 4 {
			d := fmt.Sprintf(format, a...)
			out.Findings = append(out.Findings, sup.Finding{Prop: "C23", Detail: fmt.Sprintf("%.2500s", d)})
		}
	}
	out.Key = fmt.Sprint(s.h)
	name := []string{"x.cddl", "a file", "noext", "sub/x.cddl", "é.cddl"}[s.pick("name", 5)]
	path := filepath.Join(dir, name)
	must(os.MkdirAll(filepath.Dir(path), 0o777))
	if s.pick("abs", 3) == 0 {
		name = path
	}
	write := func(src string, mode os.FileMode) {
		must(os.WriteFile(path, []byte(src), mode))
		must(os.Chmod(path, mode))
	}

	if c.Cmd == "" { // a tree of the specification
		for _, l := range c.S {
			src, _ := render.Source(l.Toks, s.pick("layout", render.Layouts))
			write(src, 0o644)
			out.Trivial = len(l.Toks) < 4
			parseCommand(s, dir, name, src, report)
		}
		return out
	}
	if c.Arg == "file" {
		src := string(c.Hex)
		if c.Hex == nil {
			src = chars.Bytes(c.Src, s.pick("variant", chars.Variants))
		}
		var toks []shown
		fails := c.Status == "fails"
		if c.Hex != nil {
			toks, fails = scanAll(src)
		}
		for _, t := range c.Toks {
			var kind string
			var pos [4]int
			must(json.Unmarshal(t[0], &kind))
			for i := range pos {
				must(json.Unmarshal(t[i+1], &pos[i]))
			}
			x := shown{fmt.Sprintf("%d:%d", pos[1], pos[2]), kind, textOf(kind, src[pos[0]:pos[3]])}
			if n, ok := exportedKinds[kind]; ok {
				x.kind = n
			}
			toks = append(toks, x)
		}
		write(src, 0o644)
		switch c.Cmd {
		case "parse":
			parseCommand(s, dir, name, src, report)
		case "lex":
			o := execute(binary, dir, "", "lex", name)
			why, rest := lines(o.stdout, toks)
			if why == "" && strings.TrimSpace(strings.Join(rest, "\n")) != "" {
				why = fmt.Sprintf("after the end of the input %q", rest)
			}
			if why != "" {
				report("lex of %q: %s\n%s", src, why, o.stdout)
			}
			if crashed(o) || (o.exit != 0) != fails {
				report("lex of %q ends with status %d: %s", src, o.exit, o.stderr)
			}
			if fails && strings.TrimSpace(o.stderr) == "" {
				report("lex of %q fails without a message", src)
			}
		case "shell":
			if strings.HasPrefix(strings.TrimSpace(src), ":") || strings.ContainsAny(src, "\r\n") {
				return out
			}
			shellCommand(dir, src, toks, report)
		}
		return out
	}

	// the argument is not a file that can be read
	args := []string{c.Cmd, name}
	switch c.Arg {
	case "none":
		args = args[:1]
	case "two":
		write("a = int\n", 0o644)
		args = append(args, name)
	case "missing":
	case "directory":
		must(os.Mkdir(path, 0o777))
	case "unreadable":
		if !asNobody {
			return out
		}
		write("a = int\n", 0)
	case "empty-name":
		args[1] = ""
	case "below-file":
		write("a = int\n", 0o644)
		args[1] = name + "/x.cddl"
	default:
		panic("harness: " + c.Arg)
	}
	o := execute(binary, dir, "", args...)
	if crashed(o) || o.exit == 0 || strings.TrimSpace(o.stderr) == "" || strings.TrimSpace(o.stdout) != "" {
		report("%q with argument %s: status %d, writes %.300q and %.300q", args, c.Arg, o.exit, o.stdout, o.stderr)
	}
	return out
}

// nesting of a document
func nesting(v any) int {
	n := 0
	switch v := v.(type) {
	case map[string]any:
		for _, x := range v {
			n = max(n, nesting(x))
		}
	case []any:
		for _, x := range v {
			n = max(n, nesting(x))
		}
	default:
		return 0
	}
	return n + 1
}

// parseCommand checks a run of the parse command on a source that has been written.
func parseCommand(s *scene, dir, name, src string, report func(string, ...any)) {
	tree, errs := parser.NewParser(lexer.NewLexer([]byte(src))).ParseFile()
	if nesting(value(reflect.ValueOf(tree))) > 1000 {
		return
	}
	o := execute(binary, dir, "", "parse", name)
	if crashed(o) || o.exit != 0 {
		report("parse of %q ends with status %d: %.800s", src, o.exit, o.stderr)
		return
	}
	if why := document(o.stdout, tree); why != "" {
		report("parse of %q: %s", src, why)
	}
	if len(errs) == 0 && strings.TrimSpace(o.stderr) != "" {
		report("parse of %q, which has no diagnostics, writes %.500q", src, o.stderr)
	}
	rest := o.stderr
	for _, e := range errs {
		i := strings.Index(rest, e.Error())
		if i < 0 {
			report("parse of %q does not show %q in order: %.1500q", src, e.Error(), o.stderr)
			break
		}
		rest = rest[i+len(e.Error()):]
	}
}

// shellCommand checks a line of the shell that lists the tokens.
func shellCommand(dir, src string, toks []shown, report func(string, ...any)) {
	o := execute(binary, dir, "zz = int\n"+src+"\n:exit\n", "qrepl", "--lex")
	if crashed(o) || o.exit != 0 {
		report("the shell with --lex given %q ends with status %d: %.800s", src, o.exit, o.stderr)
		return
	}
	plain := execute(binary, dir, "zz = int\n"+src+"\n:exit\n", "qrepl")
	parts := strings.SplitN(o.stdout, prompt, 3)
	other := strings.SplitN(plain.stdout, prompt, 3)
	if len(parts) != 3 || len(other) != 3 {
		report("the shell with --lex given %q shows %.500q", src, o.stdout)
		return
	}
	why, rest := lines(parts[2], toks)
	if why == "" && strings.Join(rest, "\n") != other[2] {
		why = fmt.Sprintf("goes on with %.300q, without --lex with %.300q", strings.Join(rest, "\n"), other[2])
	}
	if why != "" {
		report("the shell with --lex given %q: %s", src, why)
	}
}

