// Package render writes the tokens of the specification as source text and knows where each is.
package render

import (
	"strings"

	"github.com/HannesKimara/cddlc/token"
)

// Token of the specification.
type Token struct {
	K  string   `json:"k"`
	V  string   `json:"v"`
	Ok []string `json:"ok"`
	Sl bool     `json:"sl"`
}

// Open tells whether a text literal lacks its closing quote.
func (t Token) Open() bool {
	for _, o := range t.Ok {
		if o == "open" {
			return true
		}
	}
	return false
}

// Text of a token in the source.
func (t Token) Text() string {
	switch t.K {
	case "IDENT", "INT", "FLOAT", "ILLEGAL":
		return t.V
	case "TEXT":
		if t.Open() {
			return `"` + t.V
		}
		return `"` + t.V + `"`
	case "COMMENT":
		return ";" + t.V
	case "EOF":
		return ""
	}
	return t.K
}

// Layouts is the number of layouts.
const Layouts = 5

var solid = map[string]bool{"(": true, ")": true, "[": true, "]": true, "{": true, "}": true,
	",": true, ":": true, "?": true, "&": true, "*": true, "+": true, "~": true}

// Source writes tokens with a layout: 0 single spaces, 1 a line per token, 2 as tight as
// possible, 3 mixed white space, 4 carriage returns and blank lines.
// The positions are those of the tokens, then of the end of the source.
func Source(toks []Token, layout int) (string, []token.Position) {
	var b strings.Builder
	var pos []token.Position
	line, start := 1, 0
	write := func(s string) {
		for i := 0; i < len(s); i++ {
			b.WriteByte(s[i])
			if s[i] == '\n' {
				line, start = line+1, b.Len()
			}
		}
	}
	here := func() token.Position {
		return token.Position{Offset: b.Len(), Line: line, Column: b.Len() - start + 1}
	}
	switch layout {
	case 3:
		write(" \n\t")
	case 4:
		write("\r\n")
	}
	for i, t := range toks {
		if i > 0 {
			prev := toks[i-1]
			switch {
			case prev.K == "COMMENT" || prev.Open():
				write("\n")
				switch layout {
				case 1:
					write("  ")
				case 3:
					write("\n\t ")
				}
			case t.K == "COMMENT" && t.Sl:
				write([]string{" ", "\t", "", "  ", " "}[layout])
			case t.K == "COMMENT":
				write([]string{"\n", "\n\n", "\n", " \n ", "\r\n"}[layout])
			default:
				switch layout {
				case 0:
					write(" ")
				case 1:
					write("\n ")
				case 2:
					if !solid[prev.K] && !solid[t.K] {
						write(" ")
					}
				case 3:
					write([]string{" ", "\t", "\n", " \n\n\t", "  "}[(i*7+len(toks))%5])
				case 4:
					write([]string{"\r\n", " ", "\t\r\n "}[i%3])
				}
			}
		}
		pos = append(pos, here())
		write(t.Text())
	}
	if n := len(toks); n > 0 && toks[n-1].Open() {
		// ends at the end of the source
	} else if layout == 1 || layout == 3 {
		write("\n")
	}
	pos = append(pos, here())
	return b.String(), pos
}
