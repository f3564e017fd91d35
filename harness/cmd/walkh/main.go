// walkh walks trees of the implementation with visitors that decline the nodes the specification
// says, and compares the calls made, or records walks for trace validation.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	env "github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"

	"verif/harness/internal/render"
	"verif/harness/internal/sup"
	"verif/harness/internal/tree"
)

// walker is what all visitors of a walk share.
type walker struct {
	number  map[ast.Node]int // of each node of the tree
	seen    map[ast.Node]int // visits
	groups  bool             // comment groups are nodes, otherwise they are passed through
	decline func(n int) bool
	used    int
	log     []any
	stop    string
}

type visitor struct {
	w       *walker
	id      int
	through *visitor // of a comment group: acts for this one
}

const limit = 5000000

func (v *visitor) Visit(n ast.Node) astutils.Visitor {
	w := v.w
	if len(w.log) > limit {
		panic("the walk does not end")
	}
	if n == nil || reflect.ValueOf(n).IsNil() {
		if n != nil {
			w.stop = fmt.Sprintf("visited a nil %T", n)
		}
		if v.through == nil {
			w.log = append(w.log, []any{"end", v.id})
		}
		return nil
	}
	if v.through != nil {
		v = v.through
	}
	if _, ok := n.(*ast.CommentGroup); ok && !w.groups {
		return &visitor{w: w, through: v}
	}
	num, ok := w.number[n]
	if !ok {
		num = -1
		w.stop = fmt.Sprintf("visited a %T that is not in the tree", n)
	}
	if w.decline(num) {
		w.log = append(w.log, []any{"visit", num, v.id, 0})
		return nil
	}
	w.used++
	w.log = append(w.log, []any{"visit", num, v.id, w.used})
	return &visitor{w: w, id: w.used}
}

// number counts the nodes of a projected tree in preorder.
func number(n tree.Node, groups bool, m map[ast.Node]int, next *int) {
	if n.Kind == "comments" && !groups {
		for _, k := range n.Kids {
			number(k, groups, m, next)
		}
		return
	}
	*next++
	if n.Ast != nil {
		m[n.Ast] = *next
	}
	for _, k := range n.Kids {
		number(k, groups, m, next)
	}
}

// whole is the projected tree of a source.
func whole(c *ast.CDDL) tree.Node {
	r := tree.Node{Kind: "cddl", Ast: c}
	for _, n := range c.Rules {
		r.Kids = append(r.Kids, tree.Of(n, false))
	}
	return r
}

func flat(ns []tree.Node) []tree.Node {
	out := []tree.Node{}
	for _, n := range ns {
		if n.Kind == "comments" {
			out = append(out, flat(n.Kids)...)
			continue
		}
		n.Kids = flat(n.Kids)
		out = append(out, n)
	}
	return out
}

func walk(c *ast.CDDL, groups bool, decline func(int) bool) (w *walker, err string) {
	w = &walker{number: map[ast.Node]int{}, groups: groups, decline: decline}
	n := 0
	number(whole(c), groups, w.number, &n)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprintf("the walk panics: %v", r)
		}
	}()
	astutils.Walk(&visitor{w: w}, c)
	return w, w.stop
}

type walkCase struct {
	Pre  []render.Token `json:"pre"`
	Toks []render.Token `json:"toks"`
	Out  []tree.Node    `json:"out"`
	Log  []any          `json:"log"`
}

func replay(raw json.RawMessage) sup.Outcome {
	var c walkCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	e := env.NewEnvironment()
	pre, _ := render.Source(c.Pre, 0)
	parser.NewParser(lexer.NewLexer([]byte(pre)), parser.WithEnv(e)).ParseFile()
	src, _ := render.Source(c.Toks, len(raw)%render.Layouts)
	cddl, diags := parser.NewParser(lexer.NewLexer([]byte(src)), parser.WithEnv(e)).ParseFile()
	if len(diags) > 0 || cddl == nil {
		return sup.Outcome{Skip: true}
	}
	got := flat(whole(cddl).Kids)
	if len(got) != len(c.Out) {
		return sup.Outcome{Skip: true} // for C08
	}
	for i := range got {
		if tree.Diff(withComments(c, c.Out[i]), got[i], true) != "" {
			return sup.Outcome{Skip: true}
		}
	}
	declined := map[int]bool{}
	for _, x := range c.Log {
		if l := x.([]any); l[0] == "visit" && l[3].(float64) == 0 {
			declined[int(l[1].(float64))] = true
		}
	}
	w, err := walk(cddl, false, func(n int) bool { return declined[n] })
	want, _ := json.Marshal(c.Log)
	have, _ := json.Marshal(w.log)
	var f []sup.Finding
	if err == "" && string(want) != string(have) {
		i := 0
		for i < len(c.Log) && i < len(w.log) && fmt.Sprint(c.Log[i]) == fmt.Sprint(w.log[i]) {
			i++
		}
		name := map[int]string{}
		for n, k := range w.number {
			name[k] = fmt.Sprintf("%T", n)
		}
		say := func(l []any) string {
			if i >= len(l) {
				return "the walk ends"
			}
			e := l[i].([]any)
			if e[0] == "end" {
				return fmt.Sprint(e)
			}
			k := 0
			fmt.Sscan(fmt.Sprint(e[1]), &k)
			return fmt.Sprint(e, " ", name[k])
		}
		err = fmt.Sprintf("call %d: want %v, got %v", i+1, say(c.Log), say(w.log))
	}
	if err != "" {
		f = append(f, sup.Finding{Prop: "C14", Detail: fmt.Sprintf("%q declining %v: %s", src, declined, err)})
	}
	return sup.Outcome{Findings: f, Key: string(want), Trivial: len(c.Log) < 4}
}

// withComments gives the comment nodes of the specification their text.
func withComments(c walkCase, n tree.Node) tree.Node {
	texts := []string{}
	for _, t := range c.Toks {
		if t.K == "COMMENT" {
			texts = append(texts, t.V)
		}
	}
	var fill func(n tree.Node) tree.Node
	fill = func(n tree.Node) tree.Node {
		if n.Kind == "comment" && len(texts) > 0 {
			n.V = texts[0]
		}
		kids := make([]tree.Node, len(n.Kids))
		for i, k := range n.Kids {
			kids[i] = fill(k)
		}
		n.Kids = kids
		return n
	}
	return fill(tree.Norm(n))
}

type given struct {
	Hex    string `json:"hex"`
	Repeat []struct {
		S string `json:"s"`
		N int    `json:"n"`
	} `json:"repeat"`
	Declines uint32 `json:"declines"` // one in so many, 0: none
}

func record(raw json.RawMessage) sup.Outcome {
	var g given
	if err := json.Unmarshal(raw, &g); err != nil {
		panic(err)
	}
	src, _ := hex.DecodeString(g.Hex)
	for _, r := range g.Repeat {
		for i := 0; i < r.N; i++ {
			src = append(src, r.S...)
		}
	}
	cddl, diags := parser.NewParser(lexer.NewLexer(src)).ParseFile()
	if len(diags) > 0 || cddl == nil {
		return sup.Outcome{Skip: true}
	}
	decline := func(n int) bool {
		if g.Declines == 0 {
			return false
		}
		h := fnv.New32a()
		fmt.Fprint(h, len(src), n)
		return h.Sum32()%g.Declines == 0
	}
	w, err := walk(cddl, true, decline)
	var f []sup.Finding
	if err != "" {
		f = append(f, sup.Finding{Prop: "C14", Detail: fmt.Sprintf("%q: %s", short(src), err)})
	}
	if len(g.Repeat) > 0 { // too long to record: judged here
		if why := regular(whole(cddl), w); why != "" && err == "" {
			f = append(f, sup.Finding{Prop: "C14", Detail: fmt.Sprintf("%q: %s", short(src), why)})
		}
		return sup.Outcome{Findings: f, Key: short(src)}
	}
	if w.log == nil {
		w.log = []any{}
	}
	return sup.Outcome{Findings: f, Key: fmt.Sprint(len(w.log)), Trivial: len(w.log) < 4,
		Record: map[string]any{"src": short(src), "root": whole(cddl), "log": w.log}}
}

// regular judges a walk that declines nothing over a large tree: the calls are those of CddlWalk.
func regular(root tree.Node, w *walker) string {
	i, used, num := 0, 0, 0
	next := func(want ...any) string {
		if i >= len(w.log) {
			return fmt.Sprintf("ends after %d calls", i)
		}
		if fmt.Sprint(w.log[i]) != fmt.Sprint(want) {
			return fmt.Sprintf("call %d: want %v, got %v", i+1, want, w.log[i])
		}
		i++
		return ""
	}
	var down func(n tree.Node, v int) string
	down = func(n tree.Node, v int) string {
		used++
		num++
		me := used
		if s := next("visit", num, v, me); s != "" {
			return s
		}
		for _, k := range n.Kids {
			if s := down(k, me); s != "" {
				return s
			}
		}
		return next("end", me)
	}
	if s := down(root, 0); s != "" {
		return s
	}
	if i != len(w.log) {
		return fmt.Sprintf("%d calls too many", len(w.log)-i)
	}
	return ""
}

func short(b []byte) string {
	if len(b) > 400 {
		return string(b[:200]) + "..." + string(b[len(b)-100:])
	}
	return string(b)
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		sup.Main(replay, "replay")
	case "record":
		sup.Main(record, "record")
	default:
		os.Exit(2)
	}
}
