// Package scan gives the tokens of a source as the specification reads them.
package scan

import (
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/lexer"

	"verif/harness/internal/toks"
	"verif/harness/internal/tree"
)

// Tok is a token with what the parser makes of its text.
type Tok struct {
	K  string   `json:"k"`
	V  string   `json:"v"`
	Ok []string `json:"ok"`
	Sl bool     `json:"sl"`
	N  string   `json:"n"`  // the value of a number
	MJ string   `json:"mj"` // the parts of a tag
	TN string   `json:"tn"`
}

// Source returns the tokens, the number of the token that starts at an offset, and whether the
// scanner reached the end.
func Source(src string) ([]Tok, map[int]int, bool) {
	out := []Tok{}
	at := map[int]int{}
	l := lexer.NewLexer([]byte(src))
	lastEnd := -1
	for i := 0; i <= len(src)+1; i++ {
		t, pos, lit := l.Scan()
		k := toks.Kind(t, lit)
		if k == "EOF" {
			at[len(src)] = len(out) + 1
			return out, at, true
		}
		r := Tok{K: k, Ok: []string{}}
		start, end := pos.Offset, pos.Offset+len(lit)
		switch k {
		case "IDENT":
			r.V = lit
		case "INT":
			r.V = lit
			if _, err := strconv.ParseInt(lit, 0, 64); err == nil {
				r.Ok = append(r.Ok, "i")
			}
			if _, err := strconv.ParseUint(lit, 0, 64); err == nil {
				r.Ok = append(r.Ok, "u")
			}
			r.N = tree.Int(lit)
			r.MJ = r.N
		case "FLOAT":
			r.V = lit
			if _, err := strconv.ParseFloat(lit, 64); err == nil {
				r.Ok = append(r.Ok, "f")
			}
			if p := strings.Split(lit, "."); len(p) == 2 {
				_, e1 := strconv.ParseUint(p[0], 0, 64)
				_, e2 := strconv.ParseUint(p[1], 0, 64)
				if e1 == nil && e2 == nil {
					r.Ok = append(r.Ok, "t")
					r.MJ, r.TN = tree.Int(p[0]), tree.Int(p[1])
				}
			}
			r.N = tree.Float(lit)
		case "TEXT":
			r.V = lit
			end = start + 1 + len(lit)
			if end < len(src) && src[end] == '"' {
				end++
			} else {
				r.Ok = append(r.Ok, "open")
			}
		case "COMMENT":
			r.V = lit
			end = start + 1 + len(lit)
			r.Sl = lastEnd >= 0 && !strings.Contains(src[lastEnd:min(start, len(src))], "\n")
		}
		lastEnd = min(end, len(src))
		out = append(out, r)
		at[start] = len(out)
	}
	return out, at, false
}
