// Package chars translates between the characters of the specification and bytes.
package chars

import (
	"strings"
	"unicode/utf8"
)

// concrete bytes for the characters with names; each variant picks one of each
var special = map[string][]string{
	"NL":  {"\n"},
	"CR":  {"\r"},
	"TAB": {"\t"},
	"NUL": {"\x00"},
	"U2":  {"\u00e9", "\u0085", "\u00a0", "\u0661"},
	"U3":  {"\u20ac", "\ufeff", "\ufffd", "\u2028"},
	"U4":  {"\U0001F600", "\U0001d7d9", "\U00010000", "\U0010ffff"},
	"CTL": {"\x01", "\x0b", "\x0c", "\x7f"},
	"BAD": {"\xff", "\x80", "\xc3", "\xed"},
}

// Variants is the number of ways to write the characters with names.
const Variants = 4

// Bytes writes the characters.
func Bytes(src []string, variant int) string {
	var b strings.Builder
	for _, c := range src {
		if alt, ok := special[c]; ok {
			b.WriteString(alt[variant%len(alt)])
		} else {
			b.WriteString(c)
		}
	}
	return b.String()
}

// HasVariants tells whether the variants of the characters differ.
func HasVariants(src []string) bool {
	for _, c := range src {
		if len(special[c]) > 1 {
			return true
		}
	}
	return false
}

// Of names the characters of some bytes.
func Of(src string) []string {
	out := []string{}
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		switch {
		case r == utf8.RuneError && w == 1:
			out = append(out, "BAD")
		case w > 1:
			out = append(out, [...]string{"", "", "U2", "U3", "U4"}[w])
		case r == '\n':
			out = append(out, "NL")
		case r == '\r':
			out = append(out, "CR")
		case r == '\t':
			out = append(out, "TAB")
		case r == 0:
			out = append(out, "NUL")
		case r < ' ' || r == 0x7f:
			out = append(out, "CTL")
		default:
			out = append(out, string(r))
		}
		i += w
	}
	return out
}
