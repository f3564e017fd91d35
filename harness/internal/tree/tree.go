// Package tree projects the syntax tree of the implementation onto the nodes of the specification.
package tree

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"

	"verif/harness/internal/toks"
)

// Node of the specification: <<kind, first token, text, children>>.
type Node struct {
	Kind string
	P    int
	V    string
	Kids []Node

	Start, End token.Position // of the implementation's node
	Ast        ast.Node
}

func (n *Node) UnmarshalJSON(b []byte) error {
	var f [4]json.RawMessage
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	for i, dst := range []any{&n.Kind, &n.P, &n.V, &n.Kids} {
		if err := json.Unmarshal(f[i], dst); err != nil {
			return err
		}
	}
	return nil
}

func (n Node) MarshalJSON() ([]byte, error) {
	kids := n.Kids
	if kids == nil {
		kids = []Node{}
	}
	return json.Marshal([]any{n.Kind, n.P, n.V, kids})
}

func (n Node) String() string {
	s := n.Kind
	if n.V != "" {
		s += ":" + n.V
	}
	if len(n.Kids) > 0 {
		var k []string
		for _, c := range n.Kids {
			k = append(k, c.String())
		}
		s += "(" + strings.Join(k, " ") + ")"
	}
	return s
}

// Int is the value written by an integer literal, in decimal.
func Int(lit string) string {
	base, digits := 10, lit
	switch {
	case strings.HasPrefix(lit, "0x"):
		base, digits = 16, lit[2:]
	case strings.HasPrefix(lit, "0o"):
		base, digits = 8, lit[2:]
	case strings.HasPrefix(lit, "0b"):
		base, digits = 2, lit[2:]
	case len(lit) > 1 && lit[0] == '0':
		base, digits = 8, lit[1:]
	}
	v, ok := new(big.Int).SetString(digits, base)
	if !ok {
		return "bad " + lit
	}
	return v.String()
}

// Float is the value written by a float literal.
func Float(lit string) string {
	v, err := strconv.ParseFloat(lit, 64)
	if err != nil {
		return "bad " + lit
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

// Norm gives an expected node the values its literals stand for.
func Norm(n Node) Node {
	switch n.Kind {
	case "int":
		n.V = Int(n.V)
	case "float":
		n.V = Float(n.V)
	case "intkey":
		n.Kind, n.V = "id", Int(n.V)
	case "bound", "major", "tagnum":
		v := n.V
		if i := strings.IndexByte(v, '.'); i >= 0 {
			if n.Kind == "major" {
				v = v[:i]
			} else {
				v = v[i+1:]
			}
		}
		n.Kind, n.V = "uint", Int(v)
	}
	kids := make([]Node, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = Norm(k)
	}
	n.Kids = kids
	return n
}

func isNil(n ast.Node) bool {
	switch v := n.(type) {
	case nil:
		return true
	case *ast.UintLiteral:
		return v == nil
	case *ast.Identifier:
		return v == nil
	case *ast.Comment:
		return v == nil
	case *ast.TstrType:
		return v == nil
	}
	return false
}

// Of projects a node; the positions are taken only when pos is set, the tree must then be whole.
func Of(n ast.Node, pos bool) Node {
	var r Node
	kids := func(ns ...ast.Node) {
		for _, k := range ns {
			if !isNil(k) {
				r.Kids = append(r.Kids, Of(k, pos))
			} else {
				r.Kids = append(r.Kids, Node{Kind: "nil"})
			}
		}
	}
	opt := func(ns ...ast.Node) {
		for _, k := range ns {
			if !isNil(k) {
				kids(k)
			}
		}
	}
	switch v := n.(type) {
	case *ast.Rule:
		r.Kind = "rule"
		kids(v.Name, v.Value)
		opt(v.TrailingComment)
	case *ast.Entry:
		r.Kind = "entry"
		kids(v.Name, v.Value)
		opt(v.TrailingComment)
	case *ast.Comment:
		r.Kind, r.V = "comment", v.Text
	case *ast.CommentGroup:
		r.Kind = "comments"
		for _, c := range v.List {
			kids(c)
		}
	case *ast.Identifier:
		r.Kind, r.V = "id", v.Name
	case *ast.BooleanType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.BooleanLiteral:
		r.Kind, r.V = "bool", fmt.Sprint(v.Bool)
	case *ast.TstrType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.TextLiteral:
		r.Kind, r.V = "text", v.Literal
	case *ast.FloatType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.FloatLiteral:
		r.Kind, r.V = "float", strconv.FormatFloat(v.Literal, 'g', -1, 64)
	case *ast.UintType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.UintLiteral:
		r.Kind, r.V = "uint", strconv.FormatUint(v.Literal, 10)
	case *ast.IntegerType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.IntegerLiteral:
		r.Kind, r.V = "int", strconv.FormatInt(v.Literal, 10)
	case *ast.NegativeIntegerType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.BstrType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.BytesType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.NullType:
		r.Kind, r.V = "type", toks.Name(v.Token)
	case *ast.Group:
		r.Kind = "group"
		for _, e := range v.Entries {
			kids(e)
		}
	case *ast.Array:
		r.Kind = "array"
		for _, e := range v.Rules {
			kids(e)
		}
	case *ast.Map:
		r.Kind = "map"
		for _, e := range v.Rules {
			kids(e)
		}
	case *ast.TypeChoice:
		r.Kind, r.V = "choice", toks.Name(v.Token)
		kids(v.First, v.Second)
	case *ast.GroupChoice:
		r.Kind, r.V = "choice", toks.Name(v.Token)
		kids(v.First, v.Second)
	case *ast.Unwrap:
		r.Kind = "unwrap"
		kids(v.Item)
	case *ast.Enumeration:
		r.Kind = "enum"
		kids(v.Value)
	case *ast.Optional:
		r.Kind = "opt"
		kids(v.Item)
	case *ast.NMOccurrence:
		r.Kind, r.V = "occ", toks.Name(v.Token)
		kids(v.N)
		if v.M != nil {
			r.V += "M"
			kids(v.M)
		}
		kids(v.Item)
	case *ast.Tag:
		r.Kind = "tag"
		if v.Major != nil {
			r.V += "M"
			kids(v.Major)
		}
		if v.TagNumber != nil {
			r.V += "N"
			kids(v.TagNumber)
		}
		if !isNil(v.Item) {
			r.V += "I"
			kids(v.Item)
		}
	case *ast.Bits:
		r.Kind, r.V = "control", ".bits"
		kids(v.Base, v.Contstraint)
	case *ast.Regexp:
		r.Kind, r.V = "control", ".regexp"
		kids(v.Base, v.Regex)
	case *ast.SizeOperatorControl:
		r.Kind, r.V = "control", ".size"
		kids(v.Type, v.Size)
	case *ast.ComparatorOpControl:
		r.Kind, r.V = "control", toks.Name(v.Token)
		if v.Operator != r.V {
			r.V += " as " + v.Operator
		}
		kids(v.Left, v.Right)
	case *ast.Range:
		r.Kind, r.V = "range", toks.Name(v.Token)
		kids(v.From, v.To)
	default:
		r.Kind = fmt.Sprintf("bad %T", n)
		return r
	}
	r.Ast = n
	if pos {
		r.Start, r.End = n.Start(), n.End()
	}
	return r
}

// Diff describes the first difference in kinds, texts and children; comments inside rules are
// compared only when asked for.
func Diff(want, got Node, comments bool) string {
	if want.Kind != got.Kind || (want.V != got.V && want.Kind != "rule") {
		return fmt.Sprintf("want %v, got %v", want, got)
	}
	wk, gk := want.Kids, got.Kids
	if !comments {
		wk, gk = NoComments(wk), NoComments(gk)
	}
	for i := range wk {
		if i >= len(gk) {
			return fmt.Sprintf("%s: missing %v", want.Kind, wk[i])
		}
		if d := Diff(wk[i], gk[i], comments); d != "" {
			return d
		}
	}
	if len(gk) > len(wk) {
		return fmt.Sprintf("%s: extra %v", want.Kind, gk[len(wk)])
	}
	return ""
}

// NoComments leaves out comments.
func NoComments(ns []Node) []Node {
	var out []Node
	for _, n := range ns {
		if n.Kind != "comment" && n.Kind != "comments" {
			out = append(out, n)
		}
	}
	return out
}
