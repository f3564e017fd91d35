// parseh runs the parser of the implementation on sources printed by TLC and compares what it
// returns with the specification, or records it for trace validation.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	env "github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"

	"verif/harness/internal/render"
	"verif/harness/internal/scan"
	"verif/harness/internal/sup"
	"verif/harness/internal/tree"
)

type diag struct {
	At    int
	Class string
}

func (d *diag) UnmarshalJSON(b []byte) error {
	var f [2]json.RawMessage
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	if err := json.Unmarshal(f[0], &d.At); err != nil {
		return err
	}
	return json.Unmarshal(f[1], &d.Class)
}

type binding struct {
	Name string
	Node tree.Node
}

func (d *binding) UnmarshalJSON(b []byte) error {
	var f [2]json.RawMessage
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	if err := json.Unmarshal(f[0], &d.Name); err != nil {
		return err
	}
	return json.Unmarshal(f[1], &d.Node)
}

// line is a source and what is specified for it.
type line struct {
	Toks  []render.Token `json:"toks"`
	Out   []tree.Node    `json:"out"`
	Diags []diag         `json:"diags"`
	Env   []binding      `json:"env"`
	Text  *string        `json:"text"` // the source text, for token-free cases
}

type session struct {
	S     []line `json:"s"`
	Lay   *int   `json:"lay"`   // a layout, otherwise several
	WF    bool   `json:"wf"`    // printed by the grammar: no positions, no environment
	Fresh bool   `json:"fresh"` // every line has its own environment
}

// parsed is what the implementation returned for a source.
type parsed struct {
	src   string
	pos   []token.Position
	cddl  *ast.CDDL
	diags parser.ErrorList
	out   []tree.Node // top level entries, comments flattened
	where []token.Position
}

var findings []sup.Finding

func find(prop, format string, args ...any) {
	findings = append(findings, sup.Finding{Prop: prop, Detail: fmt.Sprintf(format, args...)})
}

// guard reports a panic as a finding about a property.
func guard(prop, what string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			find(prop, "%s panics: %v", what, r)
			ok = false
		}
	}()
	fn()
	return true
}

// positions of nested operands take quadratic time, those of longer sources are not taken
var placed = 20000

func parse(src string, e *env.Environment) (p parsed, ok bool) {
	p.src = src
	ok = guard("panic", fmt.Sprintf("parsing %q", src), func() {
		l := lexer.NewLexer([]byte(src))
		ps := parser.NewParser(l, parser.WithEnv(e))
		p.cddl, p.diags = ps.ParseFile()
	})
	if !ok {
		return
	}
	if p.cddl == nil {
		find("C05", "%q: no tree", src)
		return p, false
	}
	whole := len(p.diags) == 0
	guard("C05", fmt.Sprintf("formatting the diagnostics of %q", src), func() {
		for _, d := range p.diags {
			p.where = append(p.where, d.Start())
			d.End()
			_ = d.Error()
			_ = d.Diagnostic()
			_ = fmt.Sprint(d)
		}
		_ = p.diags.String()
		_ = p.diags.Error()
		_ = p.diags.Diagnostic()
		p.diags.Start()
		p.diags.End()
	})
	guard("C05", fmt.Sprintf("printing the tree of %q", src), func() { printTree(p.cddl) })
	shape := guard("C05", fmt.Sprintf("start and end of the nodes of %q", src), func() {
		for _, r := range p.cddl.Rules {
			if rule, ok := r.(*ast.Rule); ok && rule.Value == nil {
				if whole {
					find("C08", "%q: rule %s has no value", src, rule.Name.Name)
				}
				continue // left over from a faulty rule
			}
			n := tree.Of(r, whole && len(src) < placed)
			if n.Kind == "comments" && len(n.Kids) == 0 && whole {
				find("C13", "%q: the tree has a node that stands for nothing in the source, a group of no comments", src)
			}
			if n.Kind == "comments" {
				p.out = append(p.out, n.Kids...)
			} else {
				p.out = append(p.out, n)
			}
		}
	})
	return p, shape
}

func printTree(n *ast.CDDL) {
	_ = fmt.Sprintf("%v %+v", n, n)
	astutils.Print(n)
	_ = astutils.Format(n)
	for _, r := range n.Rules {
		_ = astutils.Format(r)
		if rule, ok := r.(*ast.Rule); ok && rule.Value != nil {
			_ = astutils.Format(rule.Value)
		}
	}
}

func rulesOf(ns []tree.Node) []tree.Node {
	var out []tree.Node
	for _, n := range ns {
		if n.Kind == "rule" {
			out = append(out, n)
		}
	}
	return out
}

var syntaxClass = map[string]bool{"name": true, "assign": true, "operand": true, "left": true,
	"right": true, "range-end": true, "tag": true, "number": true, "bound": true, "tag-number": true}

var numberClass = map[string]bool{"number": true, "bound": true, "tag-number": true}

func samePos(a, b token.Position) bool {
	return a.Offset == b.Offset && a.Line == b.Line && a.Column == b.Column
}

func offsets(ps []token.Position) []int {
	var out []int
	for _, p := range ps {
		out = append(out, p.Offset)
	}
	sort.Ints(out)
	return out
}

// positions compares where nodes start with the first tokens of their constructs.
func positions(src string, want, got tree.Node, pos []token.Position) {
	if want.P > 0 && want.P <= len(pos) {
		w := pos[want.P-1]
		if !samePos(got.Start, w) {
			find("C13", "%q: %v starts at %v, want %v", src, got, got.Start, w)
			return
		}
	}
	if got.End.Offset < got.Start.Offset {
		find("C13", "%q: %v ends at %v before it starts at %v", src, got, got.End, got.Start)
		return
	}
	if len(want.Kids) != len(got.Kids) {
		return // reported elsewhere
	}
	for i := range want.Kids {
		positions(src, want.Kids[i], got.Kids[i], pos)
	}
}

func commentText(toks []render.Token, n tree.Node) tree.Node {
	if n.Kind == "comment" && n.P > 0 && n.P <= len(toks) {
		n.V = toks[n.P-1].V
	}
	kids := make([]tree.Node, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = commentText(toks, k)
	}
	n.Kids = kids
	return n
}

// compare judges what was parsed from a line.
func compare(l line, p parsed, e *env.Environment, wf bool) {
	src := p.src
	want := make([]tree.Node, len(l.Out))
	for i, n := range l.Out {
		want[i] = tree.Norm(commentText(l.Toks, n))
	}
	at := map[int]bool{}
	for _, w := range p.where {
		at[w.Offset] = true
	}
	place := func(i int) token.Position { return p.pos[min(i, len(p.pos))-1] }

	// C06: the first fault is diagnosed where it is
	first, lex := true, false
	faults := 0
	for _, d := range l.Diags {
		switch {
		case d.Class == "lex":
			lex = true
			faults++
			if !at[place(d.At).Offset] {
				find("C06", "%q: no diagnostic at the unterminated text literal at %v, only at %v", src, place(d.At), p.where)
			}
		case syntaxClass[d.Class]:
			if first && !numberClass[d.Class] {
				faults++
				if !at[place(d.At).Offset] {
					find("C06", "%q: no diagnostic at %v (%s), only at %v", src, place(d.At), d.Class, p.where)
				}
			}
			first = false
		}
	}
	_ = lex
	if faults > 0 && len(p.where) == 0 {
		find("C06", "%q: no diagnostic", src)
	}

	// C07: well-formed sources
	if len(l.Diags) == 0 && len(p.diags) > 0 {
		find("C07", "%q: %v", src, strings.TrimSpace(p.diags.String()))
	}

	// C13: diagnostics are at tokens
	starts := map[int]token.Position{}
	for _, q := range p.pos {
		starts[q.Offset] = q
	}
	for _, w := range p.where {
		if q, ok := starts[w.Offset]; !ok || !samePos(q, w) {
			find("C13", "%q: a diagnostic is at %v, no token starts there", src, w)
		}
	}

	clean := len(l.Diags) == 0 && len(p.diags) == 0
	wr, gr := rulesOf(want), rulesOf(p.out)
	// C08: the tree is the source's
	diff := func(a, b []tree.Node, comments bool) string {
		for i := range a {
			if i >= len(b) {
				return fmt.Sprintf("missing %v", a[i])
			}
			if d := tree.Diff(a[i], b[i], comments); d != "" {
				return d
			}
		}
		if len(b) > len(a) {
			return fmt.Sprintf("extra %v", b[len(a)])
		}
		return ""
	}
	if clean {
		if d := diff(wr, gr, false); d != "" {
			find("C08", "%q: %s", src, d)
		} else {
			if !wf {
				if a, b := want, p.out; len(a) == len(b) {
					for i := range a {
						positions(src, a[i], b[i], p.pos)
					}
				}
			} else {
				for i := range wr {
					positions(src, wr[i], gr[i], nil)
				}
			}
		}
	}
	if wf {
		return
	}

	// C10, C11, C12, C22: all diagnostics
	wantAt := map[int]bool{}
	var wantAll []int
	onlyUndef, onlyDup, anyRange, anySyntax := true, true, false, false
	for _, d := range l.Diags {
		wantAt[place(d.At).Offset] = true
		wantAll = append(wantAll, place(d.At).Offset)
		onlyUndef = onlyUndef && d.Class == "undef"
		onlyDup = onlyDup && d.Class == "dup"
		anyRange = anyRange || strings.HasPrefix(d.Class, "range-")
		anySyntax = anySyntax || syntaxClass[d.Class] || d.Class == "lex"
	}
	sort.Ints(wantAll)
	gotAll := offsets(p.where)
	all := fmt.Sprint(wantAll) == fmt.Sprint(gotAll)
	if onlyUndef && !all {
		find("C10", "%q: undefined names at %v, diagnostics at %v", src, wantAll, gotAll)
	}
	if onlyDup && !all {
		find("C11", "%q: redefinitions at %v, diagnostics at %v", src, wantAll, gotAll)
	}
	if !anySyntax && !all {
		names(l, p, place)
	}
	if !anySyntax {
		ranges(l, p, place)
	}
	if anySyntax {
		mixedLiterals(l, p)
		for o := range wantAt {
			if !at[o] {
				find("C22", "%q: no diagnostic at %d, want %v, got %v", src, o, wantAll, gotAll)
				break
			}
		}
		for o := range at {
			if !wantAt[o] {
				find("C22", "%q: unexpected diagnostic at %d, want %v", src, o, wantAll)
				break
			}
		}
		if d := diff(wr, gr, false); d != "" {
			find("C22", "%q: %s", src, d)
		}
	}
	// C09: everything the comments and the layout could disturb
	if !all {
		find("C09", "%q: diagnostics wanted at %v, got at %v", src, wantAll, gotAll)
	}
	if d := diff(want, p.out, true); d != "" {
		find("C09", "%q: %s", src, d)
	}
	// definitions
	prop := "C11"
	if anySyntax {
		prop = "C22"
	}
	defined := map[string]bool{}
	for _, b := range l.Env {
		defined[b.Name] = true
		if !e.Exists(b.Name) {
			find(prop, "%q: %s is not defined", src, b.Name)
			find("C09", "%q: %s is not defined", src, b.Name)
			continue
		}
		guard(prop, "reading a definition", func() {
			got := tree.Of(e.Get(b.Name), false)
			if d := tree.Diff(tree.Norm(b.Node), got, false); d != "" {
				find(prop, "%q: %s is defined as something else: %s", src, b.Name, d)
			}
		})
	}
	for _, t := range l.Toks {
		if t.K == "IDENT" && !defined[t.V] && e.Exists(t.V) {
			find("C11", "%q: %s is defined", src, t.V)
			find("C22", "%q: %s is defined", src, t.V)
			break
		}
	}
}

// names is C10 and C11 for a source with diagnostics of several kinds: those at the uses of names and
// at the names of rules.
func names(l line, p parsed, place func(int) token.Position) {
	want, got, other := map[int]int{}, map[int]int{}, map[int]bool{}
	for _, d := range l.Diags {
		if d.Class == "undef" || d.Class == "dup" {
			want[place(d.At).Offset]++
		} else {
			other[place(d.At).Offset] = true
		}
	}
	for _, w := range p.where {
		got[w.Offset]++
	}
	var code []render.Token // without comments
	var at []int
	for i, t := range l.Toks {
		if t.K != "COMMENT" {
			code, at = append(code, t), append(at, p.pos[i].Offset)
		}
	}
	for i, t := range code {
		if t.K != "IDENT" || other[at[i]] {
			continue
		}
		prop, what := "C10", "use"
		if i+1 < len(code) && (code[i+1].K == "=" || code[i+1].K == "/=" || code[i+1].K == "//=") {
			prop, what = "C11", "definition"
		}
		if prop == "C10" && rangeEnd(code, i) {
			continue // judged as a range
		}
		if want[at[i]] != got[at[i]] {
			find(prop, "%q: %d diagnostics at the %s of %s at %d, want %d", p.src, got[at[i]], what, t.V, at[i], want[at[i]])
		}
	}
}

func rangeEnd(code []render.Token, i int) bool {
	r := func(j int) bool { return j >= 0 && j < len(code) && (code[j].K == ".." || code[j].K == "...") }
	return r(i-1) || r(i+1)
}

// ranges is C12: exactly the ranges whose ends are not numbers of one kind are diagnosed.
func ranges(l line, p parsed, place func(int) token.Position) {
	bad := map[int]bool{} // token indexes of ends
	for _, d := range l.Diags {
		if strings.HasPrefix(d.Class, "range-") {
			bad[d.At] = true
		}
	}
	undef := map[int]bool{}
	for _, d := range l.Diags {
		if d.Class == "undef" || d.Class == "dup" {
			undef[place(d.At).Offset] = true
		}
	}
	got := map[int]bool{}
	for _, w := range p.where {
		got[w.Offset] = true
	}
	for i, t := range l.Toks {
		if t.K != ".." && t.K != "..." || i == 0 || i+1 >= len(l.Toks) {
			continue
		}
		from, to := p.pos[i-1].Offset, p.pos[i+1].Offset
		want := bad[i] || bad[i+2]
		seen := false
		for o := range got {
			if o >= from && o <= to && !undef[o] {
				seen = true
			}
		}
		if want && !seen {
			find("C12", "%q: the range at %d is not diagnosed", p.src, from)
		}
		if !want && seen {
			find("C12", "%q: the range at %d is diagnosed: %s", p.src, from, strings.TrimSpace(p.diags.String()))
		}
	}
}

// pump is a construct with a hole, the name self, to be put into itself many times.
type pump struct {
	Unit []render.Token `json:"unit"`
	Tree tree.Node      `json:"tree"`
	Defs []render.Token `json:"defs"`
	Out  []tree.Node    `json:"out"`
}

func fill(n, hole tree.Node) tree.Node {
	if n.Kind == "id" && n.V == "self" {
		return hole
	}
	kids := make([]tree.Node, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = fill(k, hole)
	}
	n.Kids = kids
	return n
}

func nested(raw json.RawMessage) sup.Outcome {
	findings = nil
	var c pump
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	depths := []int{20, 150}
	if os.Getenv("DEEP") != "" {
		depths = []int{70, 300, 1100, 9000}
	}
	unit := tree.Norm(c.Tree)
	cut := -1
	for i, t := range c.Unit {
		if t.K == "IDENT" && t.V == "self" {
			cut = i
		}
	}
	for lay, n := range depths {
		toks := []render.Token{{K: "IDENT", V: "rule"}, {K: "="}}
		want := tree.Node{Kind: "id", V: "self"}
		for i := 0; i < n; i++ {
			toks = append(toks, c.Unit[:cut]...)
			want = fill(unit, want)
		}
		toks = append(toks, render.Token{K: "IDENT", V: "self"})
		for i := 0; i < n; i++ {
			toks = append(toks, c.Unit[cut+1:]...)
		}
		toks = append(toks, c.Defs...)
		src, _ := render.Source(toks, lay)
		p, ok := parse(src, env.NewEnvironment())
		what := fmt.Sprintf("%d times %q", n, abridged(src))
		if !ok {
			break
		}
		if len(p.diags) > 0 {
			find("C07", "%s: %s", what, abridged(strings.TrimSpace(p.diags.String())))
			break
		}
		rules := rulesOf(p.out)
		wr := append([]tree.Node{{Kind: "rule", Kids: []tree.Node{{Kind: "id", V: "rule"}, want}}}, c.Out...)
		if len(rules) != len(wr) {
			find("C08", "%s: %d rules, want %d", what, len(rules), len(wr))
			break
		}
		for i := range wr {
			if d := tree.Diff(tree.Norm(wr[i]), rules[i], false); d != "" {
				find("C08", "%s: %s", what, abridged(d))
				break
			}
		}
		if len(findings) > 0 {
			break
		}
	}
	return sup.Outcome{Findings: findings, Key: string(raw)}
}

// mixedLiterals is C12 for ranges between literals of different kinds, which are syntax errors.
func mixedLiterals(l line, p parsed) {
	for _, d := range l.Diags {
		i := d.At - 2 // the operator
		if d.Class != "range-end" || i < 1 || i+1 >= len(l.Toks) {
			continue
		}
		a, b := l.Toks[i-1].K, l.Toks[i+1].K
		if !(a == "INT" && b == "FLOAT" || a == "FLOAT" && b == "INT") {
			continue
		}
		seen := false
		for _, w := range p.where {
			seen = seen || w.Offset >= p.pos[i-1].Offset && w.Offset <= p.pos[i+1].Offset
		}
		if !seen {
			find("C12", "%q: the range at %d is not diagnosed", p.src, p.pos[i-1].Offset)
		}
	}
}

func replay(raw json.RawMessage) sup.Outcome {
	findings = nil
	var c session
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	layouts := []int{0, 1 + len(raw)%(render.Layouts-1)}
	if c.Lay != nil {
		layouts = []int{*c.Lay}
	}
	trivial := true
	var key strings.Builder
	h := hash(raw)
	for i := 0; i < spellings && c.Lay == nil; i++ {
		layouts = append(layouts, (int(h)+i)%render.Layouts)
	}
	for i, lay := range layouts {
		e := env.NewEnvironment()
		d := c
		if i > 0 && h%4 > 0 || i > 1 {
			placed = 1 << 24 // the names may be long
			d = spelled(c, int(h/4)+i*len(families)/5)
		}
		for _, l := range d.S {
			if c.Fresh {
				e = env.NewEnvironment()
			}
			src, pos := render.Source(l.Toks, lay)
			p, ok := parse(src, e)
			p.pos = pos
			if ok {
				compare(l, p, e, c.WF)
			}
			if len(l.Toks) > 1 {
				trivial = false
			}
		}
		if len(findings) > 0 {
			break
		}
	}
	for _, l := range c.S {
		for _, t := range l.Toks {
			key.WriteString(t.K + " ")
		}
		key.WriteByte('|')
	}
	return sup.Outcome{Findings: findings, Key: key.String(), Trivial: trivial}
}

// part is what is found in a part of a source, counted from its first token.
type part struct {
	Out   []tree.Node `json:"out"`
	Diags []diag      `json:"diags"`
}

func (a part) shifted(d int) part {
	var b part
	for _, n := range a.Out {
		b.Out = append(b.Out, shift(n, d))
	}
	for _, x := range a.Diags {
		b.Diags = append(b.Diags, diag{x.At + d, x.Class})
	}
	return b
}

func shift(n tree.Node, d int) tree.Node {
	if n.P > 0 {
		n.P += d
	}
	kids := make([]tree.Node, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = shift(k, d)
	}
	n.Kids = kids
	return n
}

// repeated is a source whose beginning is repeated many times.
func repeated(raw json.RawMessage) sup.Outcome {
	findings = nil
	var c struct {
		Body, End           []render.Token
		First, Again, After part
		Env                 []binding
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	times := []int{11, 130, 1500}
	if os.Getenv("DEEP") != "" {
		times = []int{7, 300, 12000}
	}
	for lay, n := range times {
		l := line{Env: c.Env}
		add := func(toks []render.Token, p part) {
			p = p.shifted(len(l.Toks))
			l.Toks = append(l.Toks, toks...)
			l.Out = append(l.Out, p.Out...)
			l.Diags = append(l.Diags, p.Diags...)
		}
		add(c.Body, c.First)
		for i := 1; i < n; i++ {
			add(c.Body, c.Again)
		}
		add(c.End, c.After)
		src, pos := render.Source(l.Toks, (lay*5+len(raw))%render.Layouts)
		e := env.NewEnvironment()
		placed = 1 << 24
		p, ok := parse(src, e)
		p.pos = pos
		if ok {
			compare(l, p, e, false)
		}
		for i := range findings {
			findings[i].Detail = fmt.Sprintf("%d times %q: %s", n, abridged(src[:len(src)/n]), abridged(strings.ReplaceAll(findings[i].Detail, fmt.Sprintf("%q", src), "")))
		}
		if len(findings) > 0 {
			break
		}
	}
	return sup.Outcome{Findings: findings, Key: string(raw)}
}

// wide is a list whose members are repeated many times.
func wide(raw json.RawMessage) sup.Outcome {
	findings = nil
	var c struct {
		Before, Body, After []render.Token
		List, Rule          tree.Node
		First, Again, Rest  []tree.Node
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	times := []int{9, 270, 5000}
	h := hash(raw)
	if os.Getenv("DEEP") != "" {
		times = []int{33, 300}
		if h%10 == 0 {
			times = append(times, 5000)
		}
	}
	if h%100 == 0 {
		times = append(times, 70000)
	}
	for lay, n := range times {
		l := line{Toks: append([]render.Token{}, c.Before...)}
		list, rule := c.List, c.Rule
		list.Kids = nil
		nodes := c.First
		for i := 0; i < n; i++ {
			for _, k := range nodes {
				list.Kids = append(list.Kids, shift(k, len(l.Toks)))
			}
			l.Toks = append(l.Toks, c.Body...)
			nodes = c.Again
		}
		rule.Kids = append(append([]tree.Node{}, rule.Kids...), list)
		l.Out = append(l.Out, rule)
		l.Env = append(l.Env, binding{rule.Kids[0].V, list})
		for _, k := range c.Rest {
			k = shift(k, len(l.Toks))
			l.Out = append(l.Out, k)
			if k.Kind == "rule" {
				l.Env = append(l.Env, binding{k.Kids[0].V, k.Kids[1]})
			}
		}
		l.Toks = append(l.Toks, c.After...)
		src, pos := render.Source(l.Toks, (lay*3+len(raw))%render.Layouts)
		e := env.NewEnvironment()
		placed = 1 << 24
		p, ok := parse(src, e)
		p.pos = pos
		if ok {
			compare(l, p, e, false)
		}
		for i := range findings {
			findings[i].Detail = fmt.Sprintf("%d times the members of %q: %s", n, abridged(src), abridged(strings.ReplaceAll(findings[i].Detail, fmt.Sprintf("%q", src), "")))
		}
		if len(findings) > 0 {
			break
		}
	}
	return sup.Outcome{Findings: findings, Key: string(raw)}
}

// chains is a range whose ends are reached through names, in every order of the rules.
func chains(raw json.RawMessage) sup.Outcome {
	findings = nil
	var c struct {
		Op     string
		Ends   [2]render.Token
		Named  [2]bool
		Kinds  [2]string
		Values [2][]render.Token
		Range  bool
		Undef  int
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	lengths := []int{1, 2, 3, 5, 9, 17, 40, 300}
	if os.Getenv("DEEP") != "" {
		lengths = append(lengths, 7, 33, 70, 130, 3000)
	}
	id := func(s, j int) render.Token {
		return render.Token{K: "IDENT", V: fmt.Sprintf("%s%d", []string{"x", "y-"}[s], j)}
	}
	is := render.Token{K: "="}
	for k, n := range lengths {
		m := lengths[(k*3+len(raw))%len(lengths)] // of the other chain
		for order := 0; order < 5; order++ {
			sizes := [2]int{n, m}
			if order%2 == 1 {
				sizes = [2]int{m, n}
			}
			var rules [][]render.Token
			ends := c.Ends
			for s := 0; s < 2; s++ {
				if !c.Named[s] {
					continue
				}
				ends[s] = id(s, 1)
				for j := 1; j <= sizes[s]; j++ {
					val := []render.Token{id(s, j+1)}
					if j == sizes[s] && c.Kinds[s] == "cycle" {
						val = []render.Token{id(s, 1)}
					} else if j == sizes[s] && c.Kinds[s] != "undefined" {
						val = c.Values[s]
					}
					rules = append(rules, append([]render.Token{id(s, j), is}, val...))
				}
			}
			r := []render.Token{{K: "IDENT", V: "r"}, is, ends[0], {K: c.Op}, ends[1]}
			at := 0
			switch order {
			case 0:
				rules = append([][]render.Token{r}, rules...)
			case 1:
				rules = append(rules, r)
			default:
				rules = append(rules, r)
				for i := range rules { // some order
					j := (i*i*31 + order*17 + len(raw)) % (i + 1)
					rules[i], rules[j] = rules[j], rules[i]
				}
			}
			var toks []render.Token
			for _, x := range rules {
				if x[0].V == "r" {
					at = len(toks)
				}
				toks = append(toks, x...)
			}
			src, pos := render.Source(toks, (k+order)%render.Layouts)
			p, ok := parse(src, env.NewEnvironment())
			if !ok {
				break
			}
			seen, undef := false, 0
			for _, w := range p.where {
				if w.Offset >= pos[at].Offset && w.Offset <= pos[at+4].Offset {
					seen = true
				} else {
					undef++
				}
			}
			what := fmt.Sprintf("chains of %v names to %v, order %d: %q", sizes, c.Kinds, order, abridged(src))
			if seen != c.Range {
				find("C12", "%s: the range is diagnosed: %v, want %v", what, seen, c.Range)
			}
			if undef != c.Undef {
				find("C10", "%s: %d undefined names are diagnosed, want %d", what, undef, c.Undef)
			}
			if len(findings) > 0 {
				return sup.Outcome{Findings: findings, Key: string(raw)}
			}
		}
	}
	return sup.Outcome{Findings: findings, Key: string(raw)}
}

// given is a source, and sources parsed before it with the same environment.
type given struct {
	Hex    string   `json:"hex"`
	Before []string `json:"before"` // hex
	Repeat []rep    `json:"repeat"` // instead of Hex: pieces repeated
	Nil    []string `json:"nil"`    // names the environment maps to no node
}

type rep struct {
	S string `json:"s"`
	N int    `json:"n"`
}

func (g given) source() string {
	if len(g.Repeat) > 0 {
		var b strings.Builder
		for _, r := range g.Repeat {
			for i := 0; i < r.N; i++ {
				b.WriteString(r.S)
			}
		}
		return b.String()
	}
	b, err := hex.DecodeString(g.Hex)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (g given) env() *env.Environment {
	e := env.NewEnvironment()
	for _, n := range g.Nil {
		e.Add(n, nil)
	}
	for _, h := range g.Before {
		b, _ := hex.DecodeString(h)
		parser.NewParser(lexer.NewLexer(b), parser.WithEnv(e)).ParseFile()
	}
	return e
}

// abridged is a long source in short.
func abridged(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-100:]
	}
	return s
}

// monitor checks C05 on a source.
func monitor(raw json.RawMessage) sup.Outcome {
	findings = nil
	var g given
	if err := json.Unmarshal(raw, &g); err != nil {
		panic(err)
	}
	src := g.source()
	short := abridged(src)
	e := g.env()
	var n int
	guard("C05", fmt.Sprintf("parsing %q", short), func() {
		cddl, diags := parser.NewParser(lexer.NewLexer([]byte(src)), parser.WithEnv(e)).ParseFile()
		if cddl == nil {
			find("C05", "%q: no tree", short)
			return
		}
		n = len(diags)
		_ = diags.String()
		_ = diags.Error()
		_ = diags.Diagnostic()
		if n > 0 {
			diags.Start()
			diags.End()
		}
		for i, d := range diags {
			if i > 2000 {
				break
			}
			d.Start()
			d.End()
			_ = d.Error()
			_ = d.Diagnostic()
		}
		astutils.Print(cddl)
		_ = astutils.Format(cddl)
		for _, r := range cddl.Rules {
			_ = astutils.Format(r)
			if rule, ok := r.(*ast.Rule); ok {
				if rule.Value != nil {
					_ = astutils.Format(rule.Value)
					astutils.Print(rule.Value)
				} else if n == 0 {
					find("C05", "%q: a rule without a value and no diagnostic", short)
				}
			}
			if n == 0 {
				// the end of a node is looked for below it: not at every level of a deep tree
				each(tree.Of(r, len(src) < 20000))
				r.Start()
				r.End()
			}
		}
	})
	return sup.Outcome{Findings: findings, Key: fmt.Sprint(len(src), n), Trivial: len(src) == 0}
}

func each(n tree.Node) {
	if n.Kind == "nil" || strings.HasPrefix(n.Kind, "bad") {
		find("C05", "a tree without diagnostics has a %s node", n.Kind)
	}
	for _, k := range n.Kids {
		each(k)
	}
}

// record parses a source and records it for trace validation.
func record(raw json.RawMessage) sup.Outcome {
	findings, placed = nil, 1<<24
	var g given
	if err := json.Unmarshal(raw, &g); err != nil {
		panic(err)
	}
	src := g.source()
	toks_, at, done := scan.Source(src)
	if !done {
		return sup.Outcome{Skip: true} // not about the parser
	}
	e := env.NewEnvironment()
	p, ok := parse(src, e)
	if !ok || len(findings) > 0 {
		return sup.Outcome{Findings: findings}
	}
	idx := func(o int) int {
		if i, ok := at[o]; ok {
			return i
		}
		return 0
	}
	var place func(n tree.Node) tree.Node
	whole := len(p.diags) == 0
	place = func(n tree.Node) tree.Node {
		n.P = 0
		if whole {
			n.P = idx(n.Start.Offset)
		}
		kids := make([]tree.Node, len(n.Kids))
		for i, k := range n.Kids {
			kids[i] = place(k)
		}
		n.Kids = kids
		return n
	}
	out := []tree.Node{}
	for _, n := range p.out {
		out = append(out, place(n))
	}
	diags := []int{}
	for _, w := range p.where {
		diags = append(diags, idx(w.Offset))
	}
	sort.Ints(diags)
	names := []string{}
	seen := map[string]bool{}
	for _, t := range toks_ {
		if t.K == "IDENT" && !seen[t.V] && e.Exists(t.V) {
			seen[t.V] = true
			names = append(names, t.V)
		}
	}
	return sup.Outcome{Key: fmt.Sprint(len(toks_), len(diags), len(out)), Trivial: len(toks_) < 2,
		Record: map[string]any{"src": abridged(src), "toks": toks_, "out": out, "diags": diags, "env": names}}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: parseh replay|monitor|record")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		sup.Main(replay, "replay")
	case "nested":
		sup.Main(nested, "nested")
	case "monitor":
		sup.Main(monitor, "monitor")
	case "wide":
		sup.Main(wide, "wide")
	case "repeated":
		sup.Main(repeated, "repeated")
	case "chains":
		sup.Main(chains, "chains")
	case "record":
		sup.Main(record, "record")
	default:
		os.Exit(2)
	}
}
