// printh prints the definitions of sources and compares what the printed form tells with the
// specification, or records it for trace validation.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	env "github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"

	"verif/harness/internal/render"
	"verif/harness/internal/sup"
	"verif/harness/internal/tree"
)

// fact told by a printed form: the kind of a node, what it is about, line and column.
type fact struct {
	kind, about string
	line, col   int
}

func (f fact) String() string { return fmt.Sprintf("%s %q at %d:%d", f.kind, f.about, f.line, f.col) }

var sorts = map[string][2]string{
	"Entry": {"entry", ""}, "Rule": {"rule", ""}, "BooleanLiteral": {"bool", ""}, "TextLiteral": {"text", ""}, "Array": {"array", ""}, "Map": {"map", ""},
	"Tag": {"tag", ""}, "Unwrap": {"unwrap", ""}, "Optional": {"opt", ""}, "NMOccurrence": {"occ", ""}, "Range": {"range", ""}, "Bits": {"control", ".bits"},
	"Regexp": {"control", ".regexp"}, "SizeOperatorControl": {"control", ".size"}, "ComparatorOpControl": {"control", "compare"}, "UintLiteral": {"uint", ""},
	"CommentGroup": {"comments", ""}, "Comment": {"comment", ""}, "BooleanType": {"type", "bool"}, "TstrType": {"type", "tstr"}, "UintType": {"type", "uint"},
	"NegativeIntegerType": {"type", "nint"}, "BstrType": {"type", "bstr"}, "BytesType": {"type", "bytes"}, "NullType": {"type", "null"},
}

const place = ` ?\{ ?Column ?: ?(\d+) ?, ?Line ?: ?(\d+) ?\}`

var told = regexp.MustCompile(`^(?:` + strings.Join([]string{
	`\*ast\.(\w+)`,
	`(Ident|IntegerLiteral|FloatLiteral|IntegerType|FloatType) ?\( ?(?:Name|Literal|Token) ?: ?'([^']*)' ?\)` + place,
	`(TypeChoice|GroupChoice|Enumeration)` + place,
	`(Group)` + place + ` ?\( ?Entries ?: ?(\d+) ?\)`,
}, "|") + `)`)
var between = regexp.MustCompile(`^(?:First|Second|Value|:|,|\(|\)| )`)
var blanks = regexp.MustCompile(`\s+`)
var words = map[string]string{"Ident": "id", "IntegerLiteral": "int", "FloatLiteral": "float", "IntegerType": "type", "FloatType": "type", "TypeChoice": "choice",
	"GroupChoice": "choice", "Enumeration": "enum", "Group": "group"}

// read finds the facts in a printed form.
func read(s string) (out []fact, err string) {
	s = blanks.ReplaceAllString(s, " ")
	num := func(t string) int { n, _ := strconv.Atoi(t); return n }
	for s != "" {
		m := told.FindStringSubmatch(s)
		switch {
		case m == nil:
			b := between.FindString(s)
			if b == "" {
				return out, fmt.Sprintf("not understood: %.100q", s)
			}
			s = s[len(b):]
			continue
		case m[1] != "":
			k, ok := sorts[m[1]]
			if !ok {
				return out, "unknown node " + m[1]
			}
			out = append(out, fact{kind: k[0], about: k[1]})
		case m[2] != "":
			out = append(out, fact{words[m[2]], m[3], num(m[5]), num(m[4])})
		case m[6] != "":
			out = append(out, fact{words[m[6]], "", num(m[8]), num(m[7])})
		default:
			out = append(out, fact{words[m[9]], m[12], num(m[11]), num(m[10])})
		}
		s = s[len(m[0]):]
	}
	return out, ""
}

// same compares what a fact is about; floats are printed with six decimals.
func same(kind, want, got string) bool {
	if kind != "float" || want == got {
		return want == got
	}
	a, e1 := strconv.ParseFloat(want, 64)
	b, e2 := strconv.ParseFloat(got, 64)
	return e1 == nil && e2 == nil && math.Abs(a-b) <= 5.1e-7+math.Abs(a)*1e-15
}

// format prints a node; it has to be the same every time and not out of proportion.
func format(n ast.Node) (facts []fact, text, err string) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprintf("printing panics: %v", r)
		}
	}()
	before := tree.Of(n, false).String()
	text = astutils.Format(n)
	if again := astutils.Format(n); again != text {
		return nil, text, "the printed form differs the second time: " + cut(again)
	}
	if tree.Of(n, false).String() != before {
		return nil, text, "printing changes the tree"
	}
	facts, err = read(text)
	size := 0
	for _, f := range facts {
		size += len(f.about) + 700
	}
	if err == "" && len(text) > size {
		err = fmt.Sprintf("%d bytes for %d nodes", len(text), len(facts))
	}
	return facts, text, err
}

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1000] + " ... " + s[len(s)-400:]
	}
	return s
}

type printCase struct {
	Toks []render.Token       `json:"toks"`
	Told [][3]json.RawMessage `json:"told"`
}

func replay(raw json.RawMessage) (out sup.Outcome) {
	var c printCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	h := fnv.New32a()
	h.Write(raw)
	src, pos := render.Source(c.Toks, int(h.Sum32()%render.Layouts))
	e := env.NewEnvironment()
	cddl, diags := parser.NewParser(lexer.NewLexer([]byte(src)), parser.WithEnv(e)).ParseFile()
	if len(diags) > 0 || cddl == nil {
		return sup.Outcome{Skip: true} // for C07
	}
	report := func(f string, a ...any) {
		if len(out.Findings) == 0 {
			out.Findings = append(out.Findings, sup.Finding{Prop: "C24", Detail: fmt.Sprintf("%q: ", src) + fmt.Sprintf(f, a...)})
		}
	}
	var value ast.Node
	for _, n := range cddl.Rules {
		if r, ok := n.(*ast.Rule); ok && r.Name != nil && r.Name.Name == "rule" {
			value = r.Value
		}
	}
	if value == nil {
		return sup.Outcome{Skip: true}
	}
	facts, text, err := format(value)
	if err != "" {
		report("%s: %s", err, cut(text))
		return out
	}
	if n := e.Get("rule"); n != nil && astutils.Format(n) != text {
		report("the definition kept is printed differently: %s, %s", cut(astutils.Format(n)), cut(text))
	}
	if len(facts) != len(c.Told) {
		report("tells %d facts, expected %d: %s", len(facts), len(c.Told), cut(text))
		return out
	}
	ofTree := tree.Of(value, true)
	if ofTree.Kind == "" {
		return sup.Outcome{Skip: true}
	}
	for i, w := range c.Told {
		var n tree.Node
		var at int
		json.Unmarshal(w[0], &n.Kind)
		json.Unmarshal(w[1], &n.V)
		json.Unmarshal(w[2], &at)
		kind := n.Kind
		n = tree.Norm(n)
		if kind == "intkey" {
			kind = "id"
		}
		if facts[i].kind != kind || !same(kind, n.V, facts[i].about) {
			report("fact %d is %v, expected %s %s: %s", i+1, facts[i], kind, n.V, cut(text))
			return out
		}
		if at == 0 {
			continue
		}
		// a choice is at its operator or where it begins
		p := pos[at-1]
		if kind == "choice" {
			if !before(p, facts[i]) {
				report("fact %d is %v, the choice begins at %d:%d: %s", i+1, facts[i], p.Line, p.Column, cut(text))
			}
		} else if facts[i].line != p.Line || facts[i].col != p.Column {
			report("fact %d is %v, expected at %d:%d: %s", i+1, facts[i], p.Line, p.Column, cut(text))
		}
	}
	out.Key = text
	out.Trivial = len(facts) < 2
	return out
}

func before(p token.Position, f fact) bool {
	return p.Line < f.line || p.Line == f.line && p.Column <= f.col
}

type given struct {
	Hex    string `json:"hex"`
	Repeat []struct {
		S string `json:"s"`
		N int    `json:"n"`
	} `json:"repeat"`
}

const wide = 1 << 20

// encode gives the nodes their places as numbers.
func encode(n tree.Node) tree.Node {
	p := n.Start
	if c, ok := n.Ast.(*ast.TypeChoice); ok {
		p = c.Pos
	}
	n.P = p.Line*wide + p.Column
	kids := make([]tree.Node, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = encode(k)
	}
	n.Kids = kids
	return n
}

func record(raw json.RawMessage) (out sup.Outcome) {
	var g given
	if err := json.Unmarshal(raw, &g); err != nil {
		panic(err)
	}
	src, _ := hex.DecodeString(g.Hex)
	for _, r := range g.Repeat {
		src = append(src, strings.Repeat(r.S, r.N)...)
	}
	cddl, diags := parser.NewParser(lexer.NewLexer(src)).ParseFile()
	if len(diags) > 0 || cddl == nil {
		return sup.Outcome{Skip: true}
	}
	records := []any{}
	for _, entry := range cddl.Rules {
		var n ast.Node = entry
		if r, ok := entry.(*ast.Rule); ok {
			n = r.Value
		}
		facts, text, err := format(n)
		if err != "" {
			out.Findings = append(out.Findings, sup.Finding{Prop: "C24", Detail: fmt.Sprintf("%q: %s: %s", cut(string(src)), err, cut(text))})
			return out
		}
		root := encode(tree.Of(n, true))
		if len(facts) > 3000 || len(text) > 1<<20 || depth(root) > 100 { // too long or deep to record
			floats, nodes := []tree.Node{}, []tree.Node{}
			open(root, &floats, &nodes)
			if len(nodes) != len(facts) {
				out.Findings = append(out.Findings, sup.Finding{Prop: "C24", Detail: fmt.Sprintf("%q: tells %d facts, expected %d", cut(string(src)), len(facts), len(nodes))})
			}
			for i := range facts {
				full := facts[i].line > 0
				if i < len(nodes) && (facts[i].kind != nodes[i].Kind || full && facts[i].line*wide+facts[i].col != nodes[i].P ||
					full && nodes[i].Kind != "choice" && nodes[i].Kind != "group" && !same(nodes[i].Kind, nodes[i].V, facts[i].about)) {
					out.Findings = append(out.Findings, sup.Finding{Prop: "C24", Detail: fmt.Sprintf("%q: fact %d is %v, expected %s", cut(string(src)), i+1, facts[i], nodes[i].Kind)})
					break
				}
			}
			continue
		}
		floats, nodes := []tree.Node{}, []tree.Node{}
		open(root, &floats, &nodes)
		tuples, f := [][]any{}, 0
		for _, x := range facts {
			if x.kind == "float" && f < len(floats) {
				if same("float", floats[f].V, x.about) {
					x.about = floats[f].V
				}
				f++
			}
			at := x.line*wide + x.col
			tuples = append(tuples, []any{x.kind, x.about, at})
		}
		records = append(records, map[string]any{"root": pruned(root), "told": tuples, "text": cut(text), "src": cut(string(src))})
		out.Key += fmt.Sprint(facts)
	}
	if len(records) > 0 {
		out.Record = records
	}
	out.Trivial = len(records) == 0
	return out
}

func depth(n tree.Node) int {
	d := 0
	for _, k := range n.Kids {
		d = max(d, depth(k))
	}
	return d + 1
}

// pruned leaves out what a printed form does not go into, and only counts it.
func pruned(n tree.Node) tree.Node {
	kids := make([]tree.Node, len(n.Kids))
	for i, k := range n.Kids {
		if n.Kind == "choice" || n.Kind == "enum" {
			kids[i] = pruned(k)
		} else {
			kids[i] = tree.Node{Kind: k.Kind}
		}
	}
	n.Kids = kids
	return n
}

// open lists the nodes a printed form goes into.
func open(n tree.Node, floats, nodes *[]tree.Node) {
	*nodes = append(*nodes, n)
	if n.Kind == "float" {
		*floats = append(*floats, n)
	}
	if n.Kind == "choice" || n.Kind == "enum" {
		for _, k := range n.Kids {
			open(k, floats, nodes)
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		sup.Main(replay, "replay")
	case "record":
		sup.Main(record, "record")
	default:
		os.Exit(2)
	}
}
