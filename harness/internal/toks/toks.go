// Package toks names the tokens of the implementation as the specification does.
package toks

import (
	"fmt"

	"github.com/HannesKimara/cddlc/token"
)

var names = map[token.Token]string{
	token.ILLEGAL: "ILLEGAL", token.EOF: "EOF", token.COMMENT: "COMMENT", token.IDENT: "IDENT",
	token.INT: "int", token.UINT: "uint", token.NINT: "nint", token.FLOAT: "float",
	token.FLOAT16: "float16", token.FLOAT32: "float32", token.FLOAT64: "float64",
	token.TSTR: "tstr", token.TEXT: "text", token.TEXT_LITERAL: "TEXT",
	token.BYTES: "bytes", token.BSTR: "bstr", token.BOOL: "bool", token.TRUE: "true",
	token.FALSE: "false", token.NIL: "nil", token.NULL: "null", token.ANY: "any",
	token.MINUS: "-", token.LPAREN: "(", token.LBRACK: "[", token.LBRACE: "{",
	token.RPAREN: ")", token.RBRACK: "]", token.RBRACE: "}", token.COMMA: ",",
	token.PERIOD: ".", token.COLON: ":", token.ASSIGN: "=", token.ARROW_MAP: "=>",
	token.OPTIONAL: "?", token.TYPE_CHOICE: "/", token.GROUP_CHOICE: "//",
	token.TYPE_CHOICE_ASSIGN: "/=", token.GROUP_CHOICE_ASSIGN: "//=", token.AMPERSAND: "&",
	token.HASH: "#", token.LEFT_ANGLE_BRACKET: "<", token.RIGHT_ANGLE_BRACKET: ">",
	token.INCLUSIVE_BOUND: "..", token.EXCLUSIVE_BOUND: "...", token.ZERO_OR_MORE: "*",
	token.ONE_OR_MORE: "+", token.UNWRAP: "~",
	token.SIZE: ".size", token.BITS: ".bits", token.REGEXP: ".regexp", token.CBOR: ".cbor",
	token.CBORSEQ: ".cborseq", token.WITHIN: ".within", token.AND: ".and", token.LT: ".lt",
	token.LE: ".le", token.GT: ".gt", token.GE: ".ge", token.EQ: ".eq", token.NE: ".ne",
	token.DEFAULT: ".default", token.PLUS: ".plus", token.CAT: ".cat", token.DET: ".det",
	token.ABNF: ".abnf", token.ABNFB: ".abnfb", token.FEATURE: ".feature",
}

// Kind names a scanned token.
func Kind(t token.Token, lit string) string {
	switch {
	case t == token.INT && lit != "int":
		return "INT"
	case t == token.FLOAT && lit != "float":
		return "FLOAT"
	}
	if n, ok := names[t]; ok {
		return n
	}
	return fmt.Sprintf("?%d", int(t))
}

// Name names a token kind, literals and types alike.
func Name(t token.Token) string {
	if n, ok := names[t]; ok {
		return n
	}
	return fmt.Sprintf("?%d", int(t))
}
