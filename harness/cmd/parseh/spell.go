package main

import (
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"

	"verif/harness/internal/render"
	"verif/harness/internal/tree"
)

// spellings is the number of further readings of every session, with other names.
var spellings, _ = strconv.Atoi(os.Getenv("SPELLINGS"))

// families of names that look alike; what a source says does not depend on how its names are spelled.
var families = [][]string{
	{"n", "n.", "n-", "n_", "n@", "n..", "n.-", "n--", "n0", "n1", "n-1", "n.1", "n$", "n$$"},
	{"a", "A", "aa", "aA", "Aa", "AA", "aaa", "aAa", "AaA", "aaaa", "AAAA", "BB", "Bb", "b"},
	{"@a", "_a", "a@", "a_", "__a", "@@a", "@_a", "_", "@", "a", "a__", "_@", "__", "@@"},
	{"integer", "int8", "ints", "tstr2", "trues", "nil-x", "true1", "float8", "uint32", "bool_", "text.size", "any-", "bytes.", "bstr-cbor"},
	{"Int", "INT", "Tstr", "TRUE", "False", "Nil", "NULL", "Uint", "Bool", "Text", "Bytes", "Float16", "Any", "tStr"},
	{"_$b", "@$b", "b$", "b$$", "_$", "@$", "b.$b", "b-$b", "_$$b", "__$b", "_b", "@b", "@_$b", "_$_$"},
	{"a.b", "a-b", "a_b", "ab", "a.b.c", "a-b-c", "aB", "a.B", "b.a", "b-a", "a..b", "a--b", "a.-b", "a-.b"},
	{"in", "i", "fals", "nul", "tst", "bo", "floa", "floats", "float1", "byte", "uin", "nin", "an", "tru"},
	{"size", "bits", "lt", "regexp", "cbor", "default", "eq", "within", "and", "ge", "gt", "le", "ne", "plus"},
	{"x0", "x00", "x1", "x01", "x10", "x16", "x0x1", "e1", "e10", "x1.5", "x-1", "xff", "b1", "o7"},
	{"IDENT", "EOF", "ILLEGAL", "COMMENT", "ASSIGN", "nil-", "map", "group", "type", "rule", "string", "uint64", "error", "func"},
}

func init() {
	for _, n := range []int{30, 64, 255, 3000} {
		var long []string
		for i := 0; i < 14; i++ { // the same but for one letter
			b := []byte(strings.Repeat("m", n))
			b[(i*n/13+n-1)%n] = "abcdefghijklno"[i]
			long = append(long, string(b))
		}
		families = append(families, long)
	}
}

// remarks are texts of comments that look like something else.
var remarks = []string{"", ";", ";;", "; x", " ", "  x  ", "\t", "\"", "\"x", " a = int", "=>", ",", "// x", "/= x", "/* x */", "\u00e9 \u20ac", "\\n", "x;", "-", "--", "#!", "#6.1(x)", "\xff", "\x00",
	" ;", "}", ")", "x\ty", ".size", "$", "%d %s", " TODO: x", ":", "?", "*", "1", "\u2028", "\ufeff", "---", "<x>", strings.Repeat("x", 300), strings.Repeat("; ", 40), strings.Repeat(" ", 100)}

// texts are text literals that look like something else.
var texts = []string{"", "\\", "\\\\", "\\n", "\\t", "x\\", "\\u0041", "'", "`", ";", "; x", "//", "/* x */", " ", "  x  ", "\t", "x\ty", "\r", "a = int", "1", "1.5", "true", "int", "$", "%d %s", "\u00e9 \u20ac \U0001F600",
	"\u0301", "\xff", "\xc3", "\x00", "\x7f", "\u2028", "\ufeff", "<x>&", "[a-z]+(", ".*", "^$", "x", "X", strings.Repeat("x", 300), strings.Repeat("\\", 50)}

// spelled gives the names of a session other spellings, which look alike.
// The comments and the text literals get other texts.
func spelled(c session, h int) session {
	n := h
	said := map[string]string{}
	for _, l := range c.S {
		for _, t := range l.Toks {
			if t.Open() {
				said[t.V] = t.V
			}
		}
	}
	for i, l := range c.S {
		toks := append([]render.Token{}, l.Toks...)
		for j, t := range toks {
			if t.K == "TEXT" && !t.Open() {
				if _, ok := said[t.V]; !ok {
					said[t.V] = texts[n%len(texts)]
					n = (n/len(texts) + 5*n + 1) & 0xffffff
				}
				toks[j].V = said[t.V]
			}
			if t.K == "COMMENT" {
				toks[j].V = remarks[n%len(remarks)]
				n = (n/len(remarks) + 7*n + 1) & 0xffffff
			}
		}
		if i == 0 {
			c.S = append([]line{}, c.S...)
		}
		c.S[i].Toks = toks
	}
	names := map[string]string{}
	var all []string
	for _, l := range c.S {
		for _, t := range l.Toks {
			if _, ok := names[t.V]; t.K == "IDENT" && !ok {
				names[t.V] = ""
				all = append(all, t.V)
			}
		}
	}
	sort.Strings(all)
	f := families[h%len(families)]
	for i, x := range all {
		if len(all) > len(f) { // too many, they stay
			names[x] = x
			continue
		}
		// sockets stay sockets
		names[x] = x[:len(x)-len(strings.TrimLeft(x, "$"))] + f[(i+h/len(families))%len(f)]
	}
	var node func(n tree.Node) tree.Node
	nodes := func(ns []tree.Node) []tree.Node {
		r := make([]tree.Node, len(ns))
		for i, n := range ns {
			r[i] = node(n)
		}
		return r
	}
	node = func(n tree.Node) tree.Node {
		if x, ok := names[n.V]; ok && n.Kind == "id" {
			n.V = x
		}
		if x, ok := said[n.V]; ok && n.Kind == "text" {
			n.V = x
		}
		n.Kids = nodes(n.Kids)
		return n
	}
	d := c
	d.S = nil
	for _, l := range c.S {
		m := l
		m.Toks = append([]render.Token{}, l.Toks...)
		for i, t := range m.Toks {
			if t.K == "IDENT" {
				m.Toks[i].V = names[t.V]
			}
		}
		m.Out = nodes(l.Out)
		m.Env = append([]binding{}, l.Env...)
		for i, b := range m.Env {
			m.Env[i] = binding{names[b.Name], node(b.Node)}
		}
		d.S = append(d.S, m)
	}
	return d
}

func hash(raw []byte) uint32 {
	h := fnv.New32a()
	h.Write(raw)
	return h.Sum32()
}
