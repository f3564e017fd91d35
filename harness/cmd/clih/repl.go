package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	env "github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"

	"verif/harness/internal/render"
	"verif/harness/internal/scan"
	"verif/harness/internal/sup"
)

type replItem struct {
	C     string              `json:"c"`
	Text  string              `json:"text"`
	Pv    bool                `json:"pv"`
	Toks  []render.Token      `json:"toks"`
	Rules [][2]string         `json:"rules"`
	Diags [][2]string         `json:"diags"`
	Names [][]json.RawMessage `json:"names"`
}

type replCase struct {
	Items []replItem `json:"items"`
	Lines []string   `json:"lines"` // recorded sessions
}

var replSyntax = map[string]bool{"name": true, "assign": true, "operand": true, "left": true, "right": true, "range-end": true, "tag": true,
	"number": true, "bound": true, "tag-number": true, "lex": true}

const prompt = ">>> "

// valueOf is the value of a name's first rule in a line, and its printed form.
func valueOf(line, name string) (ast.Node, string) {
	cddl, _ := parser.NewParser(lexer.NewLexer([]byte(line)), parser.WithEnv(env.NewEnvironment())).ParseFile()
	for _, r := range cddl.Rules {
		if rule, ok := r.(*ast.Rule); ok && rule.Value != nil && rule.Name.Name == name {
			return rule.Value, astutils.Format(rule.Value)
		}
	}
	return nil, ""
}

// answer is what the session printed for a line.
type answer struct {
	diags  []string
	listed [][2]string
	other  []string
}

func read(text string) (a answer) {
	for _, l := range strings.Split(text, "\n") {
		f := strings.Fields(l)
		switch {
		case len(f) == 0:
		case strings.HasPrefix(l, "parser error: ") || strings.HasPrefix(l, "lexer error: "):
			a.diags = append(a.diags, l)
		case len(f) == 3 && f[1] == ";":
			a.listed = append(a.listed, [2]string{f[0], f[2]})
		default:
			a.other = append(a.other, l)
		}
	}
	return a
}

// mentions counts the diagnostics in which a name occurs as a word.
func (a answer) mentions(name string) int {
	n := 0
	for _, d := range a.diags {
		for _, w := range strings.Fields(d) {
			if strings.Trim(w, "`'\",") == name {
				n++
				break
			}
		}
	}
	return n
}

func replayRepl(raw json.RawMessage) (out sup.Outcome) {
	var c replCase
	must(json.Unmarshal(raw, &c))
	s := &scene{h: hash(string(raw))}
	lines := make([]string, len(c.Items))
	var sources []string // by number, from 1
	sources = append(sources, "")
	for i, it := range c.Items {
		lines[i] = it.Text
		if it.C == "src" {
			lines[i], _ = render.Source(it.Toks, []int{0, 2}[s.pick(fmt.Sprint("layout", i), 2)])
			lines[i] = []string{"", " ", "\t "}[s.pick(fmt.Sprint("before", i), 3)] + lines[i]
			if n := len(it.Toks); !it.Toks[n-1].Open() && it.Toks[n-1].K != "COMMENT" {
				lines[i] += []string{"", "", "  "}[s.pick(fmt.Sprint("after", i), 3)]
			}
			sources = append(sources, lines[i])
		}
	}
	eol := []string{"\n", "\n", "\r\n"}[s.pick("eol", 3)]
	stdin := strings.Join(lines, eol)
	if s.pick("last", 2) == 0 || len(lines) > 0 && lines[len(lines)-1] == "" {
		stdin += eol
	}
	ended := len(c.Items) > 0 && c.Items[len(c.Items)-1].C == "exit"
	if ended { // what comes afterwards is not read
		stdin += []string{"", eol + "late = int" + eol + ":pv" + eol}[s.pick("late", 2)]
		if !strings.HasSuffix(stdin, eol) {
			stdin += eol
		}
	}
	report := func(f string, a ...any) {
		if len(out.Findings) == 0 {
			out.Findings = append(out.Findings, sup.Finding{Prop: "C20", Detail: fmt.Sprintf(f, a...) + fmt.Sprintf("\n in the session %q", stdin)})
		}
	}
	o := execute(binary, scratch, stdin, []string{"qrepl", "qrepl"}[0])
	if crashed(o) {
		report("crashes or does not end (%d): %.1500s", o.exit, o.stderr)
		return out
	}
	parts := strings.Split(o.stdout, prompt)[1:]
	want := len(lines) + 1
	if ended {
		want = len(lines)
		if o.exit != 0 {
			report(":exit ends with %d: %.300q", o.exit, o.stderr)
		}
	}
	if len(parts) != want {
		report("%d prompts for %d lines: %.1000q %.300q", len(parts), len(lines), o.stdout, o.stderr)
		return out
	}
	for i, it := range c.Items {
		a := read(parts[i])
		at := fmt.Sprintf("line %d %q answers %.600q: ", i+1, lines[i], parts[i])
		switch it.C {
		case "src":
			it.check(a, at, lines[i], report)
		case "tree":
			var b strings.Builder
			for _, n := range it.Names {
				var name string
				var at int
				must(json.Unmarshal(n[0], &name))
				must(json.Unmarshal(n[1], &at))
				_, text := valueOf(sources[at], name)
				b.WriteString(name + ": " + text + "\n")
			}
			if parts[i] != b.String() {
				report("%sexpected the definitions %q", at, b.String())
			}
		case "help":
			if strings.TrimSpace(parts[i]) == "" || len(a.diags)+len(a.listed) > 0 {
				report("%sexpected help", at)
			}
		case "exit":
			if len(a.diags)+len(a.listed) > 0 {
				report("%sexpected the end", at)
			}
		default:
			if strings.TrimSpace(parts[i]) != "" {
				report("%sexpected nothing", at)
			}
		}
	}
	out.Key = fmt.Sprint(hash(o.stdout))
	return out
}

func (it replItem) check(a answer, at, line string, report func(string, ...any)) {
	faulty := false
	names := map[string]int{}
	for _, d := range it.Diags {
		faulty = faulty || replSyntax[d[0]]
		if d[0] == "undef" || d[0] == "dup" {
			names[d[1]]++
		}
	}
	switch {
	case faulty && len(a.diags) == 0:
		report("%sa faulty line without a diagnostic", at)
	case !faulty && len(a.diags) != len(it.Diags):
		report("%sexpected the diagnostics %v", at, it.Diags)
	}
	for n, k := range names {
		if a.mentions(n) < k {
			report("%s%s has to be reported: %v", at, n, it.Diags)
		}
	}
	if len(a.other) > 0 {
		report("%sunexpected %q", at, a.other)
	}
	if !it.Pv {
		if len(a.listed) > 0 {
			report("%sthe listing is off", at)
		}
		return
	}
	if !faulty {
		ok := len(a.listed) == len(it.Rules)
		for j := 0; ok && j < len(it.Rules); j++ {
			ok = a.listed[j][0] == it.Rules[j][0]
		}
		if !ok {
			report("%sthe listing should have the rules %v", at, it.Rules)
		}
		seen := map[string]bool{}
		for _, l := range a.listed {
			if v, _ := valueOf(line, l[0]); !seen[l[0]] && l[1] != fmt.Sprintf("%T", v) {
				report("%s%s is listed as %s, it is %T", at, l[0], l[1], v)
			}
			seen[l[0]] = true // only the first rule of a name is looked up
		}
		return
	}
	// a faulty line lists at least the rules that were read
	j := 0
	for _, l := range a.listed {
		if j < len(it.Rules) && l[0] == it.Rules[j][0] {
			j++
		}
	}
	if j < len(it.Rules) {
		report("%sthe listing should have the rules %v", at, it.Rules)
	}
}

// recordRepl types lines of any kind and records the answers.
func recordRepl(raw json.RawMessage) (out sup.Outcome) {
	var c replCase
	must(json.Unmarshal(raw, &c))
	report := func(f string, a ...any) {
		out.Findings = append(out.Findings, sup.Finding{Prop: "C20", Detail: fmt.Sprintf(f, a...) + fmt.Sprintf("\n in the session %.3000q", c.Lines)})
	}
	o := execute(binary, scratch, strings.Join(c.Lines, "\n")+"\n", "qrepl")
	if crashed(o) {
		report("crashes or does not end (%d): %.1500s", o.exit, o.stderr)
		return out
	}
	parts := strings.Split(o.stdout, prompt)[1:]
	if len(parts) != len(c.Lines)+1 {
		report("%d prompts for %d lines: %.1000q %.300q", len(parts), len(c.Lines), o.stdout, o.stderr)
		return out
	}
	items := []any{}
	for i, l := range c.Lines {
		trimmed := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(trimmed, ":pv"):
			if strings.TrimSpace(parts[i]) != "" {
				report(":pv answers %q", parts[i])
			}
			items = append(items, map[string]any{"c": "pv"})
		case strings.HasPrefix(trimmed, ":tree"):
			names, shown := strings.Split(trimmed, " ")[1:], []string{}
			for _, l := range strings.Split(parts[i], "\n") {
				if n, _, ok := strings.Cut(l, ": "); ok && !strings.HasPrefix(l, "\t") && !strings.Contains(n, " ") {
					for _, x := range names {
						if x == n {
							shown = append(shown, n)
							break
						}
					}
				}
			}
			items = append(items, map[string]any{"c": "tree", "names": names, "shown": shown})
		case strings.HasPrefix(trimmed, ":help"):
			items = append(items, map[string]any{"c": "help"})
		default:
			a := read(parts[i])
			if len(a.other) > 0 {
				report("line %d %.300q answers %.300q", i+1, l, parts[i])
			}
			ts, _, done := scan.Source(l)
			if !done {
				return sup.Outcome{Skip: true}
			}
			mentions, seen := [][]any{}, map[string]bool{}
			for _, t := range ts {
				if t.K == "IDENT" && !seen[t.V] {
					seen[t.V] = true
					if n := a.mentions(t.V); n > 0 {
						mentions = append(mentions, []any{t.V, n})
					}
				}
			}
			listed := []string{}
			for _, x := range a.listed {
				listed = append(listed, x[0])
			}
			items = append(items, map[string]any{"c": "src", "toks": ts, "diags": len(a.diags), "mentions": mentions, "listed": listed, "src": fmt.Sprintf("%.200q", l), "answer": fmt.Sprintf("%.400q", parts[i])})
		}
	}
	if len(out.Findings) > 0 {
		return out
	}
	out.Record = map[string]any{"items": items}
	out.Key = fmt.Sprint(hash(o.stdout))
	return out
}
