// isoh runs scanners, parsers and generators interleaved as the specification prints, or at the
// same time, and compares what each returns with what it returned alone in a process of its own.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	env "github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"

	"verif/harness/internal/sup"
	"verif/harness/internal/toks"
	"verif/harness/internal/tree"
)

var program = map[string][]string{
	"scanner": {"new", "scan", "scan", "drain"}, "parser": {"new", "parse", "show"},
	"sharing": {"new", "parse", "show"}, "generator": {"new", "parse", "visit", "string"},
}

// instance is one scanner, parser or generator.
type instance struct {
	kind  string
	src   []byte
	lex   *lexer.Lexer
	par   *parser.Parser
	env   *env.Environment
	gen   *gogen.Generator
	cddl  *ast.CDDL
	diags parser.ErrorList
	toks  []string
	lits  []string // as the scanner returned them
}

func (in *instance) scan() string {
	t, pos, lit := in.lex.Scan()
	s := fmt.Sprintf("%s %d:%d:%d %q", toks.Kind(t, lit), pos.Offset, pos.Line, pos.Column, lit)
	in.toks, in.lits = append(in.toks, s), append(in.lits, lit)
	return s
}

// do runs an operation and returns what can be seen of it.
func (in *instance) do(op string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	switch op {
	case "new":
		switch in.kind {
		case "scanner":
			in.lex = lexer.NewLexer(in.src)
			return ""
		case "sharing":
			in.env = env.NewEnvironment()
			in.par = parser.NewParser(lexer.NewLexer(in.src), parser.WithEnv(in.env))
			return ""
		default:
			in.par = parser.NewParser(lexer.NewLexer(in.src))
			if in.kind == "generator" {
				in.gen = gogen.NewGenerator("p" + strconv.Itoa(len(in.src)%7))
			}
			return ""
		}
	case "scan":
		return in.scan()
	case "drain":
		for i := 0; i <= len(in.src)+1; i++ {
			if s := in.scan(); strings.HasPrefix(s, "EOF ") {
				break
			}
		}
		return in.seen() + fmt.Sprint(in.lex.ErrCount, len(in.lex.Errors), in.lex.Errors)
	case "parse":
		in.cddl, in.diags = in.par.ParseFile()
		return in.seen()
	case "show":
		var b strings.Builder
		b.WriteString(in.diags.String())
		b.WriteString(astutils.Format(in.cddl))
		astutils.Walk(counter{&b}, in.cddl)
		return in.seen() + b.String()
	case "visit":
		if len(in.diags) > 0 {
			return "skipped"
		}
		in.gen.Visit(in.cddl)
		return in.seen()
	case "string":
		if len(in.diags) > 0 {
			return "skipped"
		}
		var b bytes.Buffer
		err := in.gen.String(&b)
		return fmt.Sprint(err, "\n", b.String(), in.gen.Package())
	}
	panic(op)
}

type counter struct{ b *strings.Builder }

func (c counter) Visit(n ast.Node) astutils.Visitor {
	fmt.Fprintf(c.b, "%T ", n)
	return c
}

// seen is all that has been returned so far, as it is now.
func (in *instance) seen() string {
	var b strings.Builder
	for i, t := range in.toks {
		fmt.Fprintln(&b, t, in.lits[i])
	}
	if in.cddl != nil {
		for _, d := range in.diags {
			fmt.Fprintln(&b, d.Start(), d.End(), d.Error())
		}
		for _, r := range in.cddl.Rules {
			if rule, ok := r.(*ast.Rule); ok && rule.Value == nil {
				continue
			}
			dump(&b, tree.Of(r, len(in.diags) == 0))
		}
	}
	if in.env != nil {
		names := map[string]bool{}
		for _, w := range strings.Fields(string(in.src)) {
			if in.env.Exists(w) {
				names[w] = true
			}
		}
		var l []string
		for n := range names {
			l = append(l, n+" "+tree.Of(in.env.Get(n), false).String())
		}
		sort.Strings(l)
		fmt.Fprintln(&b, l)
	}
	return b.String()
}

func dump(b *strings.Builder, n tree.Node) {
	fmt.Fprintf(b, "(%s %q %v %v", n.Kind, n.V, n.Start, n.End)
	for _, k := range n.Kids {
		dump(b, k)
	}
	b.WriteString(")\n")
}

func whole(kind string, src []byte) []string {
	in := &instance{kind: kind, src: src}
	var out []string
	for _, op := range program[kind] {
		out = append(out, in.do(op))
	}
	return append(out, in.seen())
}

// reference is what each source gives alone: by source, kind and operation.
type reference struct {
	Sources []string              `json:"sources"`
	Groups  []int                 `json:"groups"` // sources of a group are nearly the same
	Alone   []map[string][]string `json:"alone"`
}

var ref reference

func loadReference() {
	b, err := os.ReadFile(os.Getenv("ISO_REF"))
	if err == nil {
		err = json.Unmarshal(b, &ref)
	}
	if err != nil {
		panic(err)
	}
}

type isoCase struct {
	Layout string   `json:"layout"`
	Kinds  []string `json:"kinds"`
	Hist   [][2]any `json:"hist"`
}

func diff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := range w {
		if i >= len(g) {
			return fmt.Sprintf("want %q, got nothing", w[i])
		}
		if w[i] != g[i] {
			return fmt.Sprintf("want %q, got %q", w[i], g[i])
		}
	}
	return fmt.Sprintf("%q too much", g[len(w)])
}

// memory places sources as a layout says; the numbers are those of the sources.
func memory(layout string, n int, pick func(n int) int) (buf []byte, parts [][]byte, nums []int) {
	const guard = "\xfe\" ;(a=\x00"
	for i := 0; i < n; i++ {
		k := pick(len(ref.Sources))
		if i > 0 && pick(2) == 0 { // one that is nearly the same as another
			var near []int
			g := ref.Groups[nums[pick(i)]]
			for j, h := range ref.Groups {
				if g == h {
					near = append(near, j)
				}
			}
			k = near[pick(len(near))]
		}
		nums = append(nums, k)
	}
	at := make([]int, n)
	switch layout {
	case "same", "inside":
		for i := range nums {
			if layout == "same" {
				nums[i] = nums[0]
			} else if i > 0 { // a source that is a beginning of the first
				var in []int
				for j, s := range ref.Sources {
					if strings.HasPrefix(ref.Sources[nums[0]], s) {
						in = append(in, j)
					}
				}
				nums[i] = in[pick(len(in))]
			}
		}
		buf = []byte(guard + ref.Sources[nums[0]] + guard)
		for i := range at {
			at[i] = len(guard)
		}
	default:
		for i, k := range nums {
			at[i] = len(buf)
			buf = append(buf, ref.Sources[k]...)
			if layout == "apart" {
				buf = append(buf, guard...)
			}
		}
		buf = append(buf, guard...)
	}
	for i, k := range nums {
		parts = append(parts, buf[at[i]:at[i]+len(ref.Sources[k])])
	}
	return
}

func replay(raw json.RawMessage) (o sup.Outcome) {
	if ref.Sources == nil {
		loadReference()
	}
	var c isoCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	h := fnv.New64a()
	h.Write(raw)
	fmt.Fprint(h, os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	buf, parts, nums := memory(c.Layout, len(c.Kinds), r.Intn)
	before := string(buf)
	ins := make([]*instance, len(c.Kinds))
	for i, k := range c.Kinds {
		ins[i] = &instance{kind: k, src: parts[i]}
	}
	find := func(format string, args ...any) {
		o.Findings = append(o.Findings, sup.Finding{Prop: "C04", Detail: fmt.Sprintf("%v of %q after %v: ", c.Kinds, texts(nums), c.Hist) + fmt.Sprintf(format, args...)})
	}
	pc := make([]int, len(ins))
	for step, h := range c.Hist {
		i := int(h[0].(float64)) - 1
		got := ins[i].do(h[1].(string))
		if want := ref.Alone[nums[i]][c.Kinds[i]][pc[i]]; got != want {
			find("step %d: %s of instance %d: %s", step+1, h[1], i+1, diff(want, got))
			return
		}
		pc[i]++
		if string(buf) != before {
			find("step %d: the caller's bytes were changed to %q", step+1, buf)
			return
		}
	}
	for i, in := range ins {
		all := ref.Alone[nums[i]][in.kind]
		if got := in.seen(); got != all[len(all)-1] {
			find("at the end what instance %d returned has changed: %s", i+1, diff(all[len(all)-1], got))
		}
	}
	o.Key = fmt.Sprint(c.Kinds, c.Layout, nums)
	return
}

func texts(nums []int) (t []string) {
	for _, n := range nums {
		s := ref.Sources[n]
		if len(s) > 120 {
			s = s[:120] + "..."
		}
		t = append(t, s)
	}
	return
}

// stress runs many instances at the same time on shared memory.
func stress(rounds, width int, seed int64) {
	loadReference()
	runtime.GOMAXPROCS(8)
	var mu sync.Mutex
	findings := []string{}
	total := 0
	kinds := []string{"scanner", "parser", "sharing", "generator"}
	layouts := []string{"apart", "adjacent", "same", "inside"}
	for round := 0; round < rounds; round++ {
		r := rand.New(rand.NewSource(seed*7919 + int64(round)))
		buf, parts, nums := memory(layouts[round%4], width, r.Intn)
		before := string(buf)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range parts {
			kind := kinds[r.Intn(4)]
			yields := r.Intn(3)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				in := &instance{kind: kind, src: parts[i]}
				var got []string
				for _, op := range program[kind] {
					got = append(got, in.do(op))
					for y := 0; y < yields; y++ {
						runtime.Gosched()
					}
				}
				got = append(got, in.seen())
				for k, want := range ref.Alone[nums[i]][kind] {
					if got[k] != want {
						mu.Lock()
						if len(findings) < 10 {
							findings = append(findings, fmt.Sprintf("%s of %q at the same time as others: operation %d: %s", kind, texts(nums[i : i+1])[0], k+1, diff(want, got[k])))
						}
						mu.Unlock()
						break
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		if string(buf) != before {
			findings = append(findings, fmt.Sprintf("the caller's bytes were changed to %q", buf))
		}
		total += width
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"runs": total, "findings": findings})
}

func main() {
	log.SetOutput(io.Discard)
	switch os.Args[1] {
	case "alone": // one kind, one source, one process
		src, _ := io.ReadAll(os.Stdin)
		out := os.Stdout
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		json.NewEncoder(out).Encode(whole(os.Args[2], src))
	case "stress":
		rounds, _ := strconv.Atoi(os.Args[2])
		width, _ := strconv.Atoi(os.Args[3])
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		stress(rounds, width, seed)
	default:
		sup.Main(replay, "replay")
	}
}
