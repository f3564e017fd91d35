// lexh runs the scanner of the implementation: replays sources printed by TLC and compares the
// tokens with the specification's, or records the tokens of given sources for trace validation.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"

	"verif/harness/internal/chars"
	"verif/harness/internal/sup"
	"verif/harness/internal/toks"
)

type tok struct {
	Kind string
	Pos  token.Position
	Lit  string
}

type scan struct {
	toks []tok // up to and including the first EOF
	eof  bool  // EOF was reached within one token per byte
	more []tok // the requests after the first EOF
	errs []lexer.Error
	n    int
}

// run scans src; at most one token per byte and the end of the input.
func run(src string) scan {
	l := lexer.NewLexer([]byte(src))
	var s scan
	for i := 0; i <= len(src); i++ {
		t, p, lit := l.Scan()
		s.toks = append(s.toks, tok{toks.Kind(t, lit), p, lit})
		if t == token.EOF {
			s.eof = true
			break
		}
	}
	if s.eof {
		for i := 0; i < 3; i++ {
			t, p, lit := l.Scan()
			s.more = append(s.more, tok{toks.Kind(t, lit), p, lit})
		}
	}
	s.errs = l.Errors
	s.n = l.ErrCount
	return s
}

func (t tok) String() string {
	return fmt.Sprintf("%s %q @%d %d:%d", t.Kind, t.Lit, t.Pos.Offset, t.Pos.Line, t.Pos.Column)
}

// end is the offset after a token, going by its text.
func (t tok) end(src string) int {
	e := t.Pos.Offset + len(t.Lit)
	switch t.Kind {
	case "COMMENT":
		e++
	case "TEXT":
		e++
		if e >= 0 && e < len(src) && src[e] == '"' {
			e++
		}
	}
	return e
}

// bounded is C01 on a finished scan.
func bounded(src string, s scan) (string, bool) {
	if !s.eof {
		return fmt.Sprintf("no end of input after %d tokens for %d bytes", len(s.toks), len(src)), false
	}
	last := s.toks[len(s.toks)-1]
	if last.Pos.Offset != len(src) {
		return fmt.Sprintf("end of input at offset %d of %d bytes", last.Pos.Offset, len(src)), false
	}
	for _, m := range s.more {
		if m.Kind != "EOF" || m.Pos != last.Pos {
			return fmt.Sprintf("after the end of input %v: %v", last, m), false
		}
	}
	return "", true
}

// tiles is C02 on a finished scan.
func tiles(src string, s scan) (string, bool) {
	at := 0
	line, lineStart, counted := 1, 0, 0
	for _, t := range s.toks {
		o := t.Pos.Offset
		if o < at || o > len(src) {
			return fmt.Sprintf("%v does not start in %d..%d", t, at, len(src)), false
		}
		if gap := src[at:o]; strings.Trim(gap, " \t\r\n") != "" {
			return fmt.Sprintf("%q before %v is in no token", gap, t), false
		}
		for ; counted < o; counted++ {
			if src[counted] == '\n' {
				line, lineStart = line+1, counted+1
			}
		}
		if t.Pos.Line != line || t.Pos.Column != o-lineStart+1 {
			return fmt.Sprintf("%v is at line %d, column %d", t, line, o-lineStart+1), false
		}
		if t.Kind == "EOF" {
			if t.Lit != "" {
				return fmt.Sprintf("%v has a text", t), false
			}
			at = o
			continue
		}
		from := o
		switch t.Kind {
		case "COMMENT":
			if o >= len(src) || src[o] != ';' {
				return fmt.Sprintf("%v does not start with ;", t), false
			}
			from++
		case "TEXT":
			if o >= len(src) || src[o] != '"' {
				return fmt.Sprintf("%v does not start with a quote", t), false
			}
			from++
		}
		if from+len(t.Lit) > len(src) || src[from:from+len(t.Lit)] != t.Lit {
			return fmt.Sprintf("the text of %v is not the source's", t), false
		}
		at = t.end(src)
		if at <= o {
			return fmt.Sprintf("%v is empty", t), false
		}
	}
	if s.eof && strings.Trim(src[at:], " \t\r\n") != "" {
		return fmt.Sprintf("%q at the end is in no token", src[at:]), false
	}
	return "", true
}

type lexCase struct {
	Src  []string `json:"src"`
	Toks [][5]any `json:"toks"`
	Errs []int    `json:"errs"`
	Hex  string   `json:"hex"`
}

func replay(raw json.RawMessage) sup.Outcome {
	var c lexCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	variants := 1
	if chars.HasVariants(c.Src) {
		variants = chars.Variants
	}
	var out sup.Outcome
	var key strings.Builder
	for v := 0; v < variants; v++ {
		src := chars.Bytes(c.Src, v)
		s := run(src)
		add := func(prop, detail string) {
			out.Findings = append(out.Findings, sup.Finding{Prop: prop, Detail: fmt.Sprintf("%q: %s", src, detail)})
		}
		if d, ok := bounded(src, s); !ok {
			add("C01", d)
		}
		if d, ok := tiles(src, s); !ok {
			add("C02", d)
		}
		if d, ok := grammar(src, s, c); !ok {
			add("C03", d)
		}
		if len(out.Findings) > 0 {
			break
		}
	}
	for _, t := range c.Toks {
		key.WriteString(t[0].(string))
		key.WriteByte(' ')
	}
	out.Key = key.String()
	out.Trivial = len(c.Toks) < 2
	return out
}

// grammar is C03: kinds and extents as specified.
func grammar(src string, s scan, c lexCase) (string, bool) {
	for i, w := range c.Toks {
		kind, o, e := w[0].(string), int(w[1].(float64)), int(w[4].(float64))
		if i >= len(s.toks) {
			return fmt.Sprintf("token %d is missing, want %s at %d", i, kind, o), false
		}
		g := s.toks[i]
		if g.Kind != kind || g.Pos.Offset != o || (kind != "EOF" && g.end(src) != e) {
			return fmt.Sprintf("token %d is %v, want %s %q at %d", i, g, kind, src[o:e], o), false
		}
	}
	if len(s.toks) > len(c.Toks) {
		return fmt.Sprintf("extra token %v", s.toks[len(c.Toks)]), false
	}
	if len(s.errs) != len(c.Errs) || s.n != len(c.Errs) {
		return fmt.Sprintf("%d lexical errors (ErrCount %d), want %d", len(s.errs), s.n, len(c.Errs)), false
	}
	return "", true
}

// record scans a source and records it for trace validation.
func record(raw json.RawMessage) sup.Outcome {
	var c lexCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	b, err := hex.DecodeString(c.Hex)
	if err != nil {
		panic(err)
	}
	src := string(b)
	s := run(src)
	type rec struct {
		Src  []string `json:"src"`
		Toks [][]any  `json:"toks"`
		Errs int      `json:"errs"`
		More bool     `json:"more"`
		Text bool     `json:"text"`
	}
	r := rec{Src: chars.Of(src), Toks: [][]any{}, Errs: len(s.errs), More: true, Text: true}
	if s.n != len(s.errs) {
		r.Errs = -1
	}
	var key strings.Builder
	for i, t := range s.toks {
		r.Toks = append(r.Toks, []any{t.Kind, t.Pos.Offset, t.Pos.Line, t.Pos.Column, t.end(src)})
		if i < 6 {
			key.WriteString(t.Kind + " ")
		}
	}
	if _, ok := bounded(src, s); !ok {
		r.More = false
	}
	if _, ok := tiles(src, s); !ok {
		r.Text = false
	}
	return sup.Outcome{Record: r, Key: key.String(), Trivial: len(s.toks) < 2}
}

// monitor checks C01 and C02 on a scan without recording it.
func monitor(raw json.RawMessage) sup.Outcome {
	var c lexCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	b, err := hex.DecodeString(c.Hex)
	if err != nil {
		panic(err)
	}
	src := string(b)
	s := run(src)
	var out sup.Outcome
	if d, ok := bounded(src, s); !ok {
		out.Findings = append(out.Findings, sup.Finding{Prop: "C01", Detail: d})
	}
	if d, ok := tiles(src, s); !ok {
		out.Findings = append(out.Findings, sup.Finding{Prop: "C02", Detail: d})
	}
	out.Key = fmt.Sprint(len(s.toks), len(src))
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: lexh replay|record")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		sup.Main(replay, "replay")
	case "record":
		sup.Main(record, "record")
	case "monitor":
		sup.Main(monitor, "monitor")
	default:
		os.Exit(2)
	}
}
