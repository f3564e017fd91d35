From 9a1be195189d4a839a7fe0a21fd228e97dd97f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 01/47] fix: scan past undecodable bytes and U+FFFD instead of
 looping forever

---
 lexer/lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0e7eb38..ef74136 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -84,7 +84,7 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 		tok, lit = l.scanNumber()
 	default:
 		l.next() // consume . Don't have to peek for two character tokens
-		lit = string(chr)
+		lit = string(l.src[startOffset:l.offset])
 		switch chr {
 		case '-':
 			tok = token.MINUS
@@ -201,9 +201,6 @@ func (l *Lexer) next() {
 		return
 	}
 	ch, w := utf8.DecodeRune(l.src[l.rdOffset:])
-	if ch == utf8.RuneError {
-		return
-	}
 	l.chr = ch
 	l.offset = l.rdOffset
 	l.rdOffset += w
-- 
2.43.0


From bd33d8f31ed9be287dd714ab336995647e4772c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 02/47] fix: do not slice out of range or drop the last byte of
 an unterminated text literal

---
 lexer/lexer.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index ef74136..2236c54 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -183,16 +183,21 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 			lit = ""
 		}
 	}
+	pos = l.position(startOffset)
+
+	return
+
+}
+
+// position returns the position of an offset on the line being scanned
+func (l *Lexer) position(offset int) token.Position {
 	lenLines := len(l.lineOffsets)
 
-	pos = token.Position{
-		Offset: startOffset,
+	return token.Position{
+		Offset: offset,
 		Line:   lenLines,
-		Column: startOffset - l.lineOffsets[lenLines-1],
+		Column: offset - l.lineOffsets[lenLines-1],
 	}
-
-	return
-
 }
 
 func (l *Lexer) next() {
@@ -318,8 +323,8 @@ func (l *Lexer) scanString() string {
 
 	for {
 		if l.chr < 0 || l.chr == '\n' {
-			l.error(l.offset, "unexpected newline character before string termination")
-			break
+			l.error(offsetPre-1, "unexpected newline character before string termination")
+			return string(l.src[offsetPre:l.offset])
 		}
 		if l.chr == '"' {
 			l.next()
@@ -381,7 +386,7 @@ func isIdentifierBodyChar(x rune) bool {
 }
 
 func (l *Lexer) error(offset int, message string) {
-	l.Errors = append(l.Errors, Error{Pos: token.Position{Offset: offset}, Msg: message})
+	l.Errors = append(l.Errors, Error{Pos: l.position(offset), Msg: message})
 	l.ErrCount += 1
 }
 
-- 
2.43.0


From d5ede63197fcba9d7bfda76bf02ea5ec963aa421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 03/47] fix: do not write into the caller's buffer when
 creating a lexer

---
 lexer/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 2236c54..52c82f3 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -50,7 +50,8 @@ func (l *Lexer) addLineOffset(offset int) {
 
 // NewLexer returns a new Lexer given code sourcce in bytes
 func NewLexer(src []byte) *Lexer {
-	src = append(src, 32) // Hack:: trailing byte ignored without adding an ignorable byte
+	// copy the source: appending in place could write into the caller's buffer
+	src = append(append(make([]byte, 0, len(src)+1), src...), 32) // Hack:: trailing byte ignored without adding an ignorable byte
 	l := &Lexer{
 		src:      src,
 		offset:   0,
-- 
2.43.0


From ce66762e41fca523252e6a902d51e3c52bc04321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 04/47] fix: scan unknown control operators as illegal tokens,
 not as identifiers

---
 lexer/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 52c82f3..4c52711 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -167,12 +167,15 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 				l.next()
 				tok = token.INCLUSIVE_BOUND
 				lit = ".."
-			} else if unicode.IsLetter(l.chr) {
+			} else if isLetter(l.chr) {
 				// Scan for control operators
 				copString := l.scanControlOp()
 				lit = fmt.Sprintf("%s%s", string(chr), copString)
 
 				tok = token.Lookup(lit)
+				if !tok.IsControlOp() {
+					tok = token.ILLEGAL
+				}
 			} else {
 				tok = token.PERIOD
 			}
-- 
2.43.0


From 5452c667376bf59ce59ad7b16568cab67bf4cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 05/47] fix: scan an integer followed by a period as an
 integer, and only ASCII digits as numbers

---
 lexer/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4c52711..3f6d104 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -289,11 +289,11 @@ func (l *Lexer) scanNumber() (token.Token, string) {
 	tok = token.INT
 
 	// TODO : Add support for all number types, int, floats
-	for unicode.IsDigit(l.chr) || l.chr == '.' && unicode.IsDigit(rune(l.peek())) {
-		l.next()
-		if l.chr == '.' && l.peek() != '.' { // check that its not part of a bound .., ...
+	for isDigit(l.chr) || l.chr == '.' && isDigit(rune(l.peek())) {
+		if l.chr == '.' { // a period only belongs to the number when a digit follows
 			tok = token.FLOAT
 		}
+		l.next()
 	}
 	return tok, string(l.src[offsetPre:l.offset])
 }
-- 
2.43.0


From 8f28679eba92ae3ec4026e75a7c84d08799b57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 06/47] fix: do not treat text_literal and internal markers as
 keywords

---
 token/token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/token/token.go b/token/token.go
index 03a6316..34e7d35 100644
--- a/token/token.go
+++ b/token/token.go
@@ -312,6 +312,10 @@ func init() {
 	keywords = make(map[string]Token)
 	// skip the IDENT literal
 	for i := Token(INT); i < literal_end; i++ {
+		// text literals have no keyword and the markers delimit ranges of tokens
+		if i == TEXT_LITERAL || i == numeric_end {
+			continue
+		}
 		v := tokens[i]
 		keywords[v] = i
 	}
-- 
2.43.0


From 7821765027557032124bfb24467cea904c4fe6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 07/47] fix: give .eq the precedence of the other control
 operators

---
 token/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token/token.go b/token/token.go
index 34e7d35..97147cc 100644
--- a/token/token.go
+++ b/token/token.go
@@ -261,7 +261,7 @@ func Lookup(str string) Token {
 // Precedence returns the token's precedence used to built the ast in parsing
 func (t Token) Precedence() int {
 	switch t {
-	case EQ, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
+	case ASSIGN, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
 		return 1
 	case GROUP_CHOICE:
 		return 2
-- 
2.43.0


From 802a5304bc2ff63252e53d81a792153c1b937794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 08/47] fix: report lexical errors as diagnostics and always
 return a tree

---
 parser/parser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e9fb87a..5b2feb0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -79,11 +79,6 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl := &ast.CDDL{}
 	cddl.Rules = []ast.CDDLEntry{}
 
-	// Don't parse if lexer errors are non zero
-	if len(p.lexer.Errors) != 0 {
-		return nil, nil
-	}
-
 	for p.currToken != token.EOF {
 		cddlEntry, err := p.parseRule()
 		if err != nil {
@@ -95,6 +90,14 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		p.next()
 	}
 
+	for _, lexErr := range p.lexer.Errors {
+		p.errorHandler(&Error{
+			Prefix: "lexer",
+			Range:  token.PositionRange{Start: lexErr.Pos, End: lexErr.Pos},
+			Msg:    lexErr.Msg,
+		})
+	}
+
 	for _, task := range p.tasks {
 		err := task()
 		if err != nil {
-- 
2.43.0


From b63eca8fd360714dfa785b96122cce1ab5e31746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 09/47] fix: accept comments between any two tokens and keep
 the token after a trailing comment

---
 parser/parser.go | 75 ++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5b2feb0..b79c732 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -48,6 +48,12 @@ type Parser struct {
 	// next peeked literal
 	peekToken token.Token
 
+	// comments scanned since the comments were last cleared and before the current token
+	comments []*ast.Comment
+
+	// comments between the current token and the next peeked token
+	peekComments []*ast.Comment
+
 	// current literal
 	currliteral string
 
@@ -80,6 +86,7 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl.Rules = []ast.CDDLEntry{}
 
 	for p.currToken != token.EOF {
+		cddl.Rules = append(cddl.Rules, p.leadingComments()...)
 		cddlEntry, err := p.parseRule()
 		if err != nil {
 			p.errorHandler(err)
@@ -87,8 +94,10 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		if cddlEntry != nil {
 			cddl.Rules = append(cddl.Rules, cddlEntry)
 		}
+		p.comments = nil // the comments inside the rule
 		p.next()
 	}
+	cddl.Rules = append(cddl.Rules, p.leadingComments()...)
 
 	for _, lexErr := range p.lexer.Errors {
 		p.errorHandler(&Error{
@@ -126,13 +135,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	rule := &ast.Rule{}
 
 	switch p.currToken {
-	case token.COMMENT:
-		comment, err := p.parseComment()
-		if err != nil {
-			return rule, err
-		}
-		cast := comment.(ast.CDDLEntry)
-		return cast, nil
 	case token.IDENT:
 
 	default:
@@ -173,11 +175,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
 	rule.Value = entry
-	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
-		p.next()
-		rule.TrailingComment = p.parseInnerComment()
-		p.next()
-	}
+	rule.TrailingComment = p.trailingComment()
 
 	return rule, nil
 }
@@ -188,10 +186,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 	// TODO(HannesKimara): in error handling return an ast.BadNode that encapsulates the section when returning the error
 	var exp ast.Node
-	if p.currToken == token.COMMENT { // TODO(HannesKimara): use this :- commentgroup, preceding and trailing comments
-		_, _ = p.parseComment()
-		p.next()
-	}
 	nudFn := p.nuds[p.currToken]
 	if p.currToken == token.IDENT && p.peekToken == token.COLON {
 		nudFn = p.parseIdentifier
@@ -361,10 +355,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return val, err
 	}
 	rule.Value = val
-	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
-		p.next()
-		rule.TrailingComment = p.parseInnerComment()
-	}
+	rule.TrailingComment = p.trailingComment()
 
 	return rule, nil
 }
@@ -705,26 +696,27 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	return arr, nil
 }
 
-func (p *Parser) parseComment() (ast.Node, errors.Diagnostic) {
-	cg := &ast.CommentGroup{}
-	cg.List = append(cg.List, &ast.Comment{Pos: p.pos, Text: p.currliteral})
-
-	for p.peekToken == token.COMMENT {
-		p.next()
-		cg.List = append(cg.List, p.parseInnerComment())
-	}
+// leadingComments takes the comments before the current token as top level entries.
+func (p *Parser) leadingComments() []ast.CDDLEntry {
+	comments := p.comments
+	p.comments = nil
 
-	if len(cg.List) == 1 {
-		return cg.List[0], nil
+	switch len(comments) {
+	case 0:
+		return nil
+	case 1:
+		return []ast.CDDLEntry{comments[0]}
 	}
-	return cg, nil
+	return []ast.CDDLEntry{&ast.CommentGroup{List: comments}}
 }
 
-func (p *Parser) parseInnerComment() *ast.Comment {
-	comment := &ast.Comment{
-		Pos:  p.pos,
-		Text: p.currliteral,
+// trailingComment takes the comment following the current token on the same line, if any.
+func (p *Parser) trailingComment() *ast.Comment {
+	if len(p.peekComments) == 0 || !isSameLineTokens(p.pos, p.peekComments[0].Pos) {
+		return nil
 	}
+	comment := p.peekComments[0]
+	p.peekComments = p.peekComments[1:]
 	return comment
 }
 
@@ -967,7 +959,17 @@ func (p *Parser) next() {
 	p.currToken = p.peekToken
 	p.currliteral = p.peekLiteral
 	p.pos = p.peekPos
-	p.peekToken, p.peekPos, p.peekLiteral = p.lexer.Scan()
+	p.comments = append(p.comments, p.peekComments...)
+	p.peekComments = nil
+
+	// Comments may appear between any two tokens and are never the current or the peeked token
+	for {
+		p.peekToken, p.peekPos, p.peekLiteral = p.lexer.Scan()
+		if p.peekToken != token.COMMENT {
+			return
+		}
+		p.peekComments = append(p.peekComments, &ast.Comment{Pos: p.peekPos, Text: p.peekLiteral})
+	}
 }
 
 func (p *Parser) registerNud(tok token.Token, fn nudParseFn) {
@@ -1023,7 +1025,6 @@ func NewParser(lexer *lexer.Lexer, opts ...ConfigOpts) *Parser {
 	p.registerNud(token.LBRACE, p.parseMap)
 	p.registerNud(token.LPAREN, p.parseGroup)
 	p.registerNud(token.LBRACK, p.parseArray)
-	p.registerNud(token.COMMENT, p.parseComment)
 	p.registerNud(token.OPTIONAL, p.parseOptional)
 	p.registerNud(token.ZERO_OR_MORE, p.parseZMOccurrence)
 	p.registerNud(token.ONE_OR_MORE, p.parseOMOccurrence)
-- 
2.43.0


From 209e9f9d71960882bbe245f9873ee5ffde7f0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 10/47] fix: bind operands by the precedence of their operator,
 not of their first token

---
 parser/parser.go | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b79c732..e5b8bb0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -150,7 +150,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	switch tok {
 	case token.ASSIGN:
 		p.next()
-		entry, err = p.parseEntry(p.currToken.Precedence())
+		entry, err = p.parseEntry(token.LOWEST)
 		if err != nil {
 			return rule, err
 		}
@@ -350,11 +350,14 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	val, err := p.parseEntry(p.currToken.Precedence())
+	val, err := p.parseEntry(token.COLON.Precedence())
 	if err != nil {
 		return val, err
 	}
 	rule.Value = val
+	if p.currToken != token.COMMA && p.peekToken == token.COMMA {
+		p.next() // the comma ending the entry comes before its trailing comment
+	}
 	rule.TrailingComment = p.trailingComment()
 
 	return rule, nil
@@ -371,7 +374,7 @@ func (p *Parser) parseTypeChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is type
+	sec, err := p.parseEntry(token.TYPE_CHOICE.Precedence() - 1) // TODO: Check is type
 	if err != nil {
 		return sec, err
 	}
@@ -386,7 +389,7 @@ func (p *Parser) parseGroupChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is group
+	sec, err := p.parseEntry(token.GROUP_CHOICE.Precedence() - 1) // TODO: Check is group
 	if err != nil {
 		return sec, err
 	}
@@ -402,7 +405,7 @@ func (p *Parser) parseUnwrap() (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.UNWRAP.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -437,7 +440,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 	if p.peekToken == token.LPAREN {
 		p.next()
 		p.next()
-		item, err := p.parseEntry(p.currToken.Precedence())
+		item, err := p.parseEntry(token.COLON.Precedence())
 		tagBase.Item = item
 		if err != nil {
 			return tagBase, err
@@ -455,7 +458,7 @@ func (p *Parser) parseEnumeration() (ast.Node, errors.Diagnostic) {
 
 	p.next()
 
-	value, err := p.parseEntry(p.currToken.Precedence())
+	value, err := p.parseEntry(token.AMPERSAND.Precedence())
 	if err != nil {
 		bn := &ast.BadNode{
 			Base: value,
@@ -499,7 +502,7 @@ func (p *Parser) parseOptional() (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.OPTIONAL.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -545,7 +548,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(sop.Token.Precedence())
 	if err != nil {
 		return sop, err
 	}
@@ -572,7 +575,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return r, p.errorTokenExpected(p.pos, token.TEXT_LITERAL)
 	}
 	p.next()
-	regex, err := p.parseEntry(p.currToken.Precedence())
+	regex, err := p.parseEntry(r.Token.Precedence())
 	if err != nil {
 		return r, err
 	}
@@ -588,7 +591,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	constraint, err := p.parseEntry(p.currToken.Precedence())
+	constraint, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		b.Base = wrapBadNode(constraint)
 		return b, err
@@ -622,7 +625,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RPAREN {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -658,7 +661,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACE {
-		rule, err := p.parseEntry(p.currToken.Precedence())
+		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -676,7 +679,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACK {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
 		}
@@ -740,7 +743,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(op.Token.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
 	}
@@ -803,7 +806,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 
 	occ.N = leftU
 	occ.M = right
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.ZERO_OR_MORE.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: occ, Token: p.currToken}, err
 	}
@@ -819,7 +822,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -850,7 +853,7 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -895,7 +898,7 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
-- 
2.43.0


From 85a8265084c15a4eecf1daea251618bf9b6bb84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 11/47] fix: parse the item after an occurrence's upper bound
 and only take integers as lower bounds

---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e5b8bb0..27720a2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -208,6 +208,9 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 		if ledFn == nil {
 			return exp, nil
 		}
+		if _, ok := exp.(*ast.IntegerLiteral); !ok && p.peekToken == token.ZERO_OR_MORE {
+			return exp, nil // not a lower bound, the occurrence marks the next entry
+		}
 		p.next()
 		expR, err := ledFn(exp)
 		exp = expR
@@ -789,7 +792,8 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return nil, p.error(fmt.Sprintf("unexpected lower bound type for operator %s, should be uint", occ.Token), left.Start(), left.End())
 	}
 
-	if p.peekToken == token.INT && p.peekToken.IsLiteral(p.peekLiteral) {
+	// only * takes an upper bound, an integer after + is the item
+	if occ.Token == token.ZERO_OR_MORE && p.peekToken == token.INT && p.peekToken.IsLiteral(p.peekLiteral) {
 		p.next()
 		rightN, err := p.parseUintType()
 		if err != nil {
@@ -799,10 +803,8 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		if val, ok := rightN.(*ast.UintLiteral); ok {
 			right = val
 		}
-	} else {
-		// assume no upper limit. Advance
-		p.next()
 	}
+	p.next()
 
 	occ.N = leftU
 	occ.M = right
@@ -1051,7 +1053,6 @@ func NewParser(lexer *lexer.Lexer, opts ...ConfigOpts) *Parser {
 	p.leds[token.INCLUSIVE_BOUND] = p.parseBound
 	p.leds[token.EXCLUSIVE_BOUND] = p.parseBound
 	p.leds[token.ZERO_OR_MORE] = p.parseOccurrence
-	p.leds[token.ONE_OR_MORE] = p.parseOccurrence
 	p.leds[token.ARROW_MAP] = p.parseColon
 	p.leds[token.COMMA] = p.parseComma
 	p.next()
-- 
2.43.0


From a29a9f24424ca6db8ed2955b6c6569ef7328db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 12/47] fix: do not dereference missing nodes when reporting
 errors in .regexp and .bits

---
 parser/parser.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 27720a2..1c4e576 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -567,7 +567,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if b, ok := left.(*ast.TstrType); ok {
 		base = b
 	} else {
-		return nil, p.errorUnsupportedTypes(b.Pos, p.currliteral, token.TSTR)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.TSTR)
 	}
 	r := &ast.Regexp{
 		Pos:   p.pos,
@@ -596,7 +596,6 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	p.next()
 	constraint, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
-		b.Base = wrapBadNode(constraint)
 		return b, err
 	}
 	b.Contstraint = constraint
@@ -650,14 +649,6 @@ func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
 
-func wrapBadNode(node ast.Node) *ast.BadNode {
-	return &ast.BadNode{
-		Pos:    node.Start(),
-		Base:   node,
-		EndPos: node.End(),
-	}
-}
-
 func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
-- 
2.43.0


From 52e168c02214d1939c7a607f5ce8c41f6fe2e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 13/47] fix: keep the left operand of a comparison and allow
 nint there

---
 parser/parser.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1c4e576..83c7574 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -718,18 +718,16 @@ func (p *Parser) trailingComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	var leftI *ast.IntegerType
-
 	switch left.(type) {
-	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
+	case *ast.UintType, *ast.IntegerType, *ast.NegativeIntegerType, *ast.FloatType:
 	default:
-		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.UINT)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.UINT, token.NINT)
 	}
 
 	op := &ast.ComparatorOpControl{
 		Pos:      p.pos,
 		Token:    p.currToken,
-		Left:     leftI,
+		Left:     left,
 		Operator: p.currliteral,
 	}
 	if !p.peekToken.IsNumeric() {
@@ -739,7 +737,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 
 	right, err := p.parseEntry(op.Token.Precedence())
 	if err != nil {
-		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
+		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
 	op.Right = right
 
-- 
2.43.0


From 864dde80ec8657216ab10424ee4e81ccfb6dd109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 14/47] fix: report a comparison with something that is not a
 number instead of dropping the error

---
 parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 83c7574..6ba52f8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -730,8 +730,9 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 		Left:     left,
 		Operator: p.currliteral,
 	}
-	if !p.peekToken.IsNumeric() {
-		p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
+	// a name may stand for a number and parentheses may hold one
+	if !p.peekToken.IsNumeric() && p.peekToken != token.IDENT && p.peekToken != token.LPAREN {
+		return op, p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
 	}
 	p.next()
 
-- 
2.43.0


From 7495daaf297008e1f2a4947f1dfb78221969a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 15/47] fix: accept .size on bytes, the synonym of bstr

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6ba52f8..9e78694 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -543,7 +543,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 
 	switch val := left.(type) {
-	case *ast.BstrType, *ast.UintType, *ast.TstrType:
+	case *ast.BstrType, *ast.BytesType, *ast.UintType, *ast.TstrType:
 		sop.Type = val
 	default:
 		err := p.errorUnsupportedTypes(sop.Pos, p.currliteral, token.TSTR, token.BSTR, token.UINT)
-- 
2.43.0


From c3a831bbafabf65049c0bd925898d51fd1f73f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 16/47] fix: report the missing closing parenthesis of a tag

---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9e78694..00362c4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -118,13 +118,12 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 
 }
 
-func (p *Parser) expectPeek(tok token.Token) bool {
+func (p *Parser) expectPeek(tok token.Token) errors.Diagnostic {
 	if p.peekToken != tok {
-		p.errorTokenExpected(p.peekPos, tok)
-		return false
+		return p.errorTokenExpected(p.peekPos, tok)
 	}
 	p.next()
-	return false
+	return nil
 }
 
 func (p *Parser) Errors() ErrorList {
@@ -448,7 +447,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		p.expectPeek(token.RPAREN)
+		if err := p.expectPeek(token.RPAREN); err != nil {
+			return tagBase, err
+		}
 	}
 	return tagBase, nil
 }
-- 
2.43.0


From d2e8e27806ec51cd8ee0ace9622d208d130863e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 17/47] fix: position the major of a tag and do not read a
 following int or float type as its number

---
 parser/parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 00362c4..52655d5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -422,15 +422,16 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		Token: p.currToken,
 	}
 
-	switch p.peekToken {
-	case token.INT: // tag like #6
+	switch {
+	case !p.peekToken.IsLiteral(p.peekLiteral): // the types int and float are not part of the tag
+	case p.peekToken == token.INT: // tag like #6
 		p.next()
 		major, err := strconv.ParseUint(p.currliteral, 0, 64)
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
-		tagBase.Major = &ast.UintLiteral{Literal: major}
-	case token.FLOAT:
+		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
+	case p.peekToken == token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
 		if err != nil {
-- 
2.43.0


From 994b387e09f8e284b27911b7d6dca216834a26af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 18/47] fix: report a range whose end is not a number or a name
 instead of dropping it

---
 parser/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 52655d5..0fdde96 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -757,6 +757,8 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 		bound, err = p.parseFloatBound(val)
 	case *ast.Identifier:
 		bound, err = p.parseIdentBound(val)
+	default:
+		err = p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.IDENT)
 	}
 	return bound, err
 }
@@ -820,7 +822,12 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	if err != nil {
 		return b, err
 	}
-	b.To = to
+	switch to.(type) {
+	case *ast.IntegerLiteral, *ast.FloatLiteral, *ast.Identifier:
+		b.To = to
+	default:
+		return b, p.error("expected integer, float or identifier upper bound", to.Start(), to.Start())
+	}
 
 	p.tasks = append(p.tasks, func() errors.Diagnostic {
 		valLeft := p.environment.Get(left.Name)
@@ -879,6 +886,8 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.error("expected integer upper bound", to.Start(), to.Start())
 	}
 
 	return b, nil
@@ -924,6 +933,8 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.error("expected float upper bound", to.Start(), to.Start())
 	}
 
 	return b, nil
-- 
2.43.0


From abcba98c403d8d643d941fdb22daff1b1dd2e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 19/47] fix: resolve both ends of a range through names before
 comparing their kinds

---
 parser/parser.go | 98 ++++++++++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 53 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0fdde96..750ba8e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -3,7 +3,6 @@ package parser
 
 import (
 	"fmt"
-	"reflect"
 	"strconv"
 	"strings"
 
@@ -810,6 +809,48 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 	return occ, nil
 }
 
+// checkBounds postpones checking that both ends of a range stand for numbers of the same kind
+// until every name is defined. Undefined names are reported by their own checks.
+func (p *Parser) checkBounds(b *ast.Range) {
+	for _, end := range []ast.Node{b.From, b.To} {
+		end := end
+		p.tasks = append(p.tasks, func() errors.Diagnostic {
+			switch p.resolve(end).(type) {
+			case nil, *ast.IntegerLiteral, *ast.FloatLiteral:
+				return nil
+			}
+			return p.error("expected integer or float as range bound", end.Start(), end.End())
+		})
+	}
+
+	p.tasks = append(p.tasks, func() errors.Diagnostic {
+		switch p.resolve(b.From).(type) {
+		case *ast.IntegerLiteral:
+			if _, ok := p.resolve(b.To).(*ast.FloatLiteral); ok {
+				return p.error("cannot use float literal as upper bound to int range", b.To.Start(), b.To.End())
+			}
+		case *ast.FloatLiteral:
+			if _, ok := p.resolve(b.To).(*ast.IntegerLiteral); ok {
+				return p.error("cannot use integer literal as upper bound to float range", b.To.Start(), b.To.End())
+			}
+		}
+		return nil
+	})
+}
+
+// resolve follows names to the node they stand for. Returns nil if it ends at an undefined name.
+func (p *Parser) resolve(node ast.Node) ast.Node {
+	seen := map[string]bool{}
+	for {
+		ident, ok := node.(*ast.Identifier)
+		if !ok || seen[ident.Name] {
+			return node
+		}
+		seen[ident.Name] = true
+		node = p.environment.Get(ident.Name)
+	}
+}
+
 func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagnostic) {
 	b := &ast.Range{
 		Pos:   p.pos,
@@ -829,20 +870,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 		return b, p.error("expected integer, float or identifier upper bound", to.Start(), to.Start())
 	}
 
-	p.tasks = append(p.tasks, func() errors.Diagnostic {
-		valLeft := p.environment.Get(left.Name)
-		to := b.To
-		switch val := to.(type) {
-		case *ast.Identifier:
-			valRight := p.environment.Get(val.Name)
-			if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {
-				return p.error(
-					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %+v and %+v", b.Token, left.Name, val.Name, valLeft, valRight),
-					left.Pos, val.Pos)
-			}
-		}
-		return nil
-	})
+	p.checkBounds(b)
 	return b, nil
 }
 
@@ -867,25 +895,7 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 		return b, p.error("cannot use float literal as upper bound to int range", right.Start(), right.End())
 	case *ast.Identifier:
 		b.To = right
-		ident := right.Name
-		identStart := right.Start()
-		identEnd := right.End()
-
-		p.tasks = append(p.tasks, func() errors.Diagnostic {
-			if !p.environment.Exists(right.Name) {
-				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
-			}
-			val := p.environment.Get(ident)
-			switch val.(type) {
-			case *ast.IntegerLiteral:
-				// pass
-			case *ast.FloatLiteral:
-				return p.error("cannot use float literal as upper bound to int range", identStart, identEnd)
-			default:
-				return p.error("expected integer upper bound", identStart, identEnd)
-			}
-			return nil
-		})
+		p.checkBounds(b)
 	default:
 		return b, p.error("expected integer upper bound", to.Start(), to.Start())
 	}
@@ -914,25 +924,7 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 		return b, p.error("cannot use integer literal as upper bound to float range", right.Start(), right.End())
 	case *ast.Identifier:
 		b.To = right
-		ident := right.Name
-		identStart := right.Start()
-		identEnd := right.End()
-
-		p.tasks = append(p.tasks, func() errors.Diagnostic {
-			if !p.environment.Exists(right.Name) {
-				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
-			}
-			val := p.environment.Get(ident)
-			switch val.(type) {
-			case *ast.FloatLiteral:
-				// pass
-			case *ast.IntegerLiteral:
-				return p.error("cannot use integer literal as upper bound to float range", identStart, identEnd)
-			default:
-				return p.error("expected float upper bound", identStart, identEnd)
-			}
-			return nil
-		})
+		p.checkBounds(b)
 	default:
 		return b, p.error("expected float upper bound", to.Start(), to.Start())
 	}
-- 
2.43.0


From 2b2411989ac7b587f618ebc0a8411576a6a518f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 20/47] fix: keep unkeyed members of every type in groups and
 arrays

---
 ast/group_entry.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)
 create mode 100644 ast/group_entry.go

diff --git a/ast/group_entry.go b/ast/group_entry.go
new file mode 100644
index 0000000..3eece51
--- /dev/null
+++ b/ast/group_entry.go
@@ -0,0 +1,29 @@
+package ast
+
+// Every type may be an unkeyed member of a group or an array.
+
+func (a *Array) groupEntry()                {}
+func (b *BadNode) groupEntry()              {}
+func (b *BooleanType) groupEntry()          {}
+func (bl *BooleanLiteral) groupEntry()      {}
+func (b *BytesType) groupEntry()            {}
+func (b *BstrType) groupEntry()             {}
+func (r *Bits) groupEntry()                 {}
+func (cc *ComparatorOpControl) groupEntry() {}
+func (r *Regexp) groupEntry()               {}
+func (sc *SizeOperatorControl) groupEntry() {}
+func (ft *FloatType) groupEntry()           {}
+func (fl *FloatLiteral) groupEntry()        {}
+func (gc *GroupChoice) groupEntry()         {}
+func (it *IntegerType) groupEntry()         {}
+func (nt *NegativeIntegerType) groupEntry() {}
+func (il *IntegerLiteral) groupEntry()      {}
+func (m *Map) groupEntry()                  {}
+func (nt *NullType) groupEntry()            {}
+func (t *Tag) groupEntry()                  {}
+func (tl *TextLiteral) groupEntry()         {}
+func (tt *TstrType) groupEntry()            {}
+func (tc *TypeChoice) groupEntry()          {}
+func (ut *UintType) groupEntry()            {}
+func (ul *UintLiteral) groupEntry()         {}
+func (u *Unwrap) groupEntry()               {}
-- 
2.43.0


From d2750b03c1afa77acdca1b02eb131e4e3112bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 21/47] fix: let /= and //= rules define names that are not
 defined yet

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 750ba8e..a367f98 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -169,6 +169,8 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		if err != nil {
 			return rule, err
 		}
+		// defines the name if nothing did before, else extends it
+		_ = p.environment.Add(rule.Name.Name, entry)
 	default:
 		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
-- 
2.43.0


From c797e1b37940e8e036c3859c0b2ac993bd99bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 22/47] fix: position an integer key at the key, not at the
 colon

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a367f98..4f1935a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -340,7 +340,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		ident = val
 	case *ast.IntegerLiteral:
 		ident = &ast.Identifier{
-			Pos:  p.pos,
+			Pos:  val.Pos,
 			Name: fmt.Sprintf("%d", val.Literal),
 		}
 	default:
-- 
2.43.0


From e42960455be48140bdf2303525e8510b361642f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 23/47] fix: report too deeply nested sources instead of
 overflowing the stack

---
 parser/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 4f1935a..c0aa74c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -14,6 +14,9 @@ import (
 	env "github.com/HannesKimara/cddlc/environment"
 )
 
+// maxDepth is the deepest nesting of entries parsed, to report deeper sources instead of exhausting the stack
+const maxDepth = 100000
+
 type taskFn func() errors.Diagnostic
 
 type nudParseFn func() (ast.Node, errors.Diagnostic)
@@ -53,6 +56,9 @@ type Parser struct {
 	// comments between the current token and the next peeked token
 	peekComments []*ast.Comment
 
+	// number of entries being parsed, one inside another
+	depth int
+
 	// current literal
 	currliteral string
 
@@ -186,6 +192,11 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 	// TODO(HannesKimara): in error handling return an ast.BadNode that encapsulates the section when returning the error
 	var exp ast.Node
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return nil, p.error("entries are nested too deeply", p.pos, p.pos)
+	}
 	nudFn := p.nuds[p.currToken]
 	if p.currToken == token.IDENT && p.peekToken == token.COLON {
 		nudFn = p.parseIdentifier
-- 
2.43.0


From 92776b81bbba5f21d2bb226eb73014a3c0f69610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 24/47] fix: do not crash or end before the start in End of
 empty collections, occurrences and tags

---
 ast/array.go      |  4 +++-
 ast/group.go      |  4 +++-
 ast/map.go        |  4 +++-
 ast/occurrence.go |  2 +-
 ast/tag.go        | 10 +++++++++-
 parser/parser.go  |  3 +++
 6 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/ast/array.go b/ast/array.go
index 17d0cf6..4332862 100644
--- a/ast/array.go
+++ b/ast/array.go
@@ -7,6 +7,8 @@ import (
 type Array struct {
 	Pos   token.Position
 	Rules []GroupEntry
+	// EndPos: the position of the closing bracket
+	EndPos token.Position
 }
 
 func (a *Array) Start() token.Position {
@@ -15,7 +17,7 @@ func (a *Array) Start() token.Position {
 
 func (a *Array) End() token.Position {
 	if len(a.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return a.EndPos
 	}
 	return a.Rules[len(a.Rules)-1].End()
 }
diff --git a/ast/group.go b/ast/group.go
index 54d6d41..a729f19 100644
--- a/ast/group.go
+++ b/ast/group.go
@@ -10,6 +10,8 @@ type GroupEntry interface {
 type Group struct {
 	Pos     token.Position
 	Entries []GroupEntry
+	// EndPos: the position of the closing bracket
+	EndPos token.Position
 }
 
 func (g *Group) Start() token.Position {
@@ -18,7 +20,7 @@ func (g *Group) Start() token.Position {
 
 func (g *Group) End() token.Position {
 	if len(g.Entries) == 0 {
-		return token.Position{Offset: -1}
+		return g.EndPos
 	}
 	return g.Entries[len(g.Entries)-1].End()
 }
diff --git a/ast/map.go b/ast/map.go
index 8461b02..2255c33 100644
--- a/ast/map.go
+++ b/ast/map.go
@@ -6,6 +6,8 @@ type Map struct {
 	Pos   token.Position
 	Token token.Token
 	Rules []Node
+	// EndPos: the position of the closing bracket
+	EndPos token.Position
 }
 
 func (m *Map) Start() token.Position {
@@ -14,7 +16,7 @@ func (m *Map) Start() token.Position {
 
 func (m *Map) End() token.Position {
 	if len(m.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return m.EndPos
 	}
 	return m.Rules[len(m.Rules)-1].End()
 }
diff --git a/ast/occurrence.go b/ast/occurrence.go
index 56b6a77..a60cda6 100644
--- a/ast/occurrence.go
+++ b/ast/occurrence.go
@@ -31,7 +31,7 @@ func (nm *NMOccurrence) Start() token.Position {
 }
 
 func (nm *NMOccurrence) End() token.Position {
-	return nm.M.End()
+	return nm.Item.End()
 }
 
 func (nm *NMOccurrence) groupEntry() {}
diff --git a/ast/tag.go b/ast/tag.go
index 85aba74..96fe700 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -14,5 +14,13 @@ func (t *Tag) Start() token.Position {
 }
 
 func (t *Tag) End() token.Position {
-	return t.Item.End().To(1) // add )
+	switch {
+	case t.Item != nil:
+		return t.Item.End().To(1) // add )
+	case t.TagNumber != nil:
+		return t.TagNumber.End()
+	case t.Major != nil:
+		return t.Major.End()
+	}
+	return t.Pos.To(1)
 }
diff --git a/parser/parser.go b/parser/parser.go
index c0aa74c..a884c74 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -656,6 +656,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 		}
 		p.next()
 	}
+	g.EndPos = p.pos
 	return g, nil
 }
 
@@ -678,6 +679,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 		}
 		p.next()
 	}
+	g.EndPos = p.pos
 	return g, nil
 }
 
@@ -703,6 +705,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 		}
 		p.next()
 	}
+	arr.EndPos = p.pos
 
 	return arr, nil
 }
-- 
2.43.0


From 8f5fc8da935edc020f4564c0fe3fb36d20bb99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 25/47] fix: walk enumerations, bits, comment groups, boolean
 literals, uint types and bad nodes

---
 ast/astutils/walk.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ast/astutils/walk.go b/ast/astutils/walk.go
index 1768294..4512fd3 100644
--- a/ast/astutils/walk.go
+++ b/ast/astutils/walk.go
@@ -22,6 +22,22 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, rule)
 		}
 
+	case *ast.BadNode:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+
+	case *ast.Bits:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+		if n.Contstraint != nil {
+			Walk(v, n.Contstraint)
+		}
+
+	case *ast.BooleanLiteral:
+		// pass
+
 	case *ast.BooleanType:
 		// pass
 
@@ -39,6 +55,11 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.Comment:
 		// pass
 
+	case *ast.CommentGroup:
+		for _, comment := range n.List {
+			Walk(v, comment)
+		}
+
 	case *ast.ComparatorOpControl:
 		if n.Left != nil {
 			Walk(v, n.Left)
@@ -74,6 +95,11 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.TrailingComment)
 		}
 
+	case *ast.Enumeration:
+		if n.Value != nil {
+			Walk(v, n.Value)
+		}
+
 	case *ast.FloatType:
 		// pass
 
@@ -176,6 +202,9 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.UintLiteral:
 		// pass
 
+	case *ast.UintType:
+		// pass
+
 	case *ast.Unwrap:
 		if n.Item != nil {
 			Walk(v, n.Item)
-- 
2.43.0


From e914f6d9c46461f7bfd246af93adaee7cfbd9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 26/47] fix: generate code for the bstr, nint and float types

---
 transforms/codegen/golang/gen_base_types.go | 27 +++++++++++++++++++++
 transforms/codegen/golang/gen_grouped.go    |  6 +++++
 2 files changed, 33 insertions(+)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index b64f11f..31e46a6 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 
 	"github.com/HannesKimara/cddlc/ast"
+	"github.com/HannesKimara/cddlc/token"
 )
 
 func (g *Generator) transpileTstrType(tstr *ast.TstrType) *gast.Ident {
@@ -20,6 +21,32 @@ func (g *Generator) transpileBytesType(bt *ast.BytesType) *gast.ArrayType {
 	}
 }
 
+func (g *Generator) transpileBstrType(bt *ast.BstrType) *gast.ArrayType {
+	return &gast.ArrayType{
+		Elt: &gast.Ident{
+			Name: "byte",
+		},
+	}
+}
+
+func (g *Generator) transpileFloatType(ft *ast.FloatType) *gast.Ident {
+	switch ft.Token {
+	case token.FLOAT16, token.FLOAT32:
+		return &gast.Ident{
+			Name: "float32",
+		}
+	}
+	return &gast.Ident{
+		Name: "float64",
+	}
+}
+
+func (g *Generator) transpileNegativeIntegerType(nt *ast.NegativeIntegerType) *gast.Ident {
+	return &gast.Ident{
+		Name: "int",
+	}
+}
+
 func (g *Generator) transpileNullType(nt *ast.NullType) *gast.Ident {
 	return &gast.Ident{
 		Name: "nil",
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7357b25..cf31f7a 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -243,6 +243,12 @@ func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 		return newStructure(g.transpileTstrType(val)), nil
 	case *ast.BytesType:
 		return newStructure(g.transpileBytesType(val)), nil
+	case *ast.BstrType:
+		return newStructure(g.transpileBstrType(val)), nil
+	case *ast.FloatType:
+		return newStructure(g.transpileFloatType(val)), nil
+	case *ast.NegativeIntegerType:
+		return newStructure(g.transpileNegativeIntegerType(val)), nil
 	case *ast.Comment:
 		return newStructure(g.transpileComment(val)), nil
 	case *ast.NullType:
-- 
2.43.0


From f1394883354e3be254c934a425a17aa2ff93f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 27/47] fix: generate text literals quoted and whole floats as
 floats

---
 transforms/codegen/golang/gen_literals.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 1cd01b4..bf1ebcd 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 	"go/token"
 	"strconv"
+	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -11,14 +12,18 @@ import (
 func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 	return &gast.BasicLit{
 		Kind:  token.STRING,
-		Value: tl.Literal,
+		Value: strconv.Quote(tl.Literal),
 	}
 }
 
 func (g *Generator) transpileFloatLiteral(fl *ast.FloatLiteral) *gast.BasicLit {
+	value := strconv.FormatFloat(fl.Literal, 'f', -1, 64)
+	if !strings.Contains(value, ".") {
+		value += ".0" // else it is an integer
+	}
 	return &gast.BasicLit{
 		Kind:  token.FLOAT,
-		Value: strconv.FormatFloat(fl.Literal, 'f', -1, 64),
+		Value: value,
 	}
 }
 
-- 
2.43.0


From 57102b44786d2997502a31050f9245a53476f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 28/47] fix: generate a type for null, nil is not one

---
 transforms/codegen/golang/gen_base_types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index 31e46a6..ea5e97d 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -47,9 +47,9 @@ func (g *Generator) transpileNegativeIntegerType(nt *ast.NegativeIntegerType) *g
 	}
 }
 
-func (g *Generator) transpileNullType(nt *ast.NullType) *gast.Ident {
-	return &gast.Ident{
-		Name: "nil",
+func (g *Generator) transpileNullType(nt *ast.NullType) *gast.StructType {
+	return &gast.StructType{
+		Fields: &gast.FieldList{},
 	}
 }
 
-- 
2.43.0


From 496bc3a466f2b8f2d2e6deb3d0ed3c899b9e9b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 29/47] fix: name the receiver self, rule names need not be
 valid receiver names

---
 transforms/codegen/golang/gen_grouped.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index cf31f7a..f0d0d27 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -6,7 +6,6 @@ import (
 	gast "go/ast"
 	"go/token"
 	"log"
-	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -74,7 +73,7 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 }
 
 func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule) *gast.FuncDecl {
-	selfIdent := gast.NewIdent(strings.ToLower(rule.Name.Name))
+	selfIdent := gast.NewIdent("self") // the name validator calls refer to
 
 	funcDecl := &gast.FuncDecl{
 		Doc: &gast.CommentGroup{
-- 
2.43.0


From 25c18ed81705908552c6b7e62affeedae1b594b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 30/47] fix: do not generate methods on the variables of
 literal rules

---
 transforms/codegen/golang/gen_grouped.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index f0d0d27..7edd0ce 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -61,8 +61,10 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 
 		log.Println("Len("+val.Name.Name+"): ", len(stct.validators))
 
-		valDecl := g.bundleValidators(stct.validators, val)
-		g.file.Decls = append(g.file.Decls, valDecl)
+		if declToken == token.TYPE { // variables cannot have methods
+			valDecl := g.bundleValidators(stct.validators, val)
+			g.file.Decls = append(g.file.Decls, valDecl)
+		}
 	case *ast.CDDL:
 		for _, rule := range val.Rules {
 			g.Visit(rule)
-- 
2.43.0


From 739a9416376849094c99a49a691b645dffce4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 31/47] fix: return an error instead of flushing generated code
 that does not parse

---
 transforms/codegen/golang/gen.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 0693237..3ae7cfd 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -3,6 +3,7 @@
 package gogen
 
 import (
+	"bytes"
 	"fmt"
 	gast "go/ast"
 	"go/format"
@@ -81,7 +82,17 @@ func (g *Generator) String(output io.Writer) (err error) {
 		g.file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
 	}
 
-	return format.Node(output, g.fset, g.file)
+	// the tree may print to invalid code, only flush code that parses
+	var buf bytes.Buffer
+	if err := format.Node(&buf, g.fset, g.file); err != nil {
+		return err
+	}
+	src, err := format.Source(buf.Bytes())
+	if err != nil {
+		return err
+	}
+	_, err = output.Write(src)
+	return err
 }
 
 // Package returns the name of the generated golang package
-- 
2.43.0


From 9354cba6702a3fecfb2b8287185d9fe5775bca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 32/47] fix: import the validators package once

---
 transforms/codegen/golang/gen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 3ae7cfd..d3340ab 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -101,6 +101,12 @@ func (g *Generator) Package() string {
 }
 
 func (g *Generator) addImport(value string, name string) {
+	for _, spec := range g.imports {
+		if spec.Path.Value == "\""+value+"\"" {
+			return // already imported
+		}
+	}
+
 	var ident *gast.Ident
 	if name != "" { // nullable ident to prevent space on generated output
 		ident = gast.NewIdent(name)
-- 
2.43.0


From c1bf5747693fa3028dcca18cea5671bb09a39e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 33/47] fix: import the validators package exactly when the
 generated code uses it

---
 transforms/codegen/golang/gen.go          | 9 ++++-----
 transforms/codegen/golang/gen_grouped.go  | 1 +
 transforms/codegen/golang/gen_operator.go | 2 --
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index d3340ab..4fda376 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -69,18 +69,17 @@ type Generator struct {
 
 // String flushes the generated tree to an output
 func (g *Generator) String(output io.Writer) (err error) {
-	g.file.Imports = append(g.file.Imports, g.imports...)
-	gast.SortImports(g.fset, g.file)
-
-	if len(g.file.Imports) > 0 {
+	if len(g.imports) > 0 {
 		importDecl := &gast.GenDecl{Specs: []gast.Spec{}, Tok: token.IMPORT}
 
-		for _, spec := range g.file.Imports {
+		for _, spec := range g.imports {
 			importDecl.Specs = append(importDecl.Specs, spec)
 		}
 
 		g.file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
+		g.imports = nil // declared, do not repeat them if flushed again
 	}
+	gast.SortImports(g.fset, g.file)
 
 	// the tree may print to invalid code, only flush code that parses
 	var buf bytes.Buffer
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7edd0ce..e0bef14 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -110,6 +110,7 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 	}
 
 	if len(validators) > 0 {
+		g.addImport(VALIDATOR_PKG, "")
 		for _, validator := range validators {
 			ex := &gast.ExprStmt{
 				X: &validator,
diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index 5b861d0..308cb57 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -38,8 +38,6 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 	default:
 		panic("fix later")
 	}
-	g.addImport(VALIDATOR_PKG, "")
-
 	log.Println("Len validators: ", len(stct.validators))
 
 	return stct, nil
-- 
2.43.0


From 655a007d32c6d02240a8ac11f3d916929b6e4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 34/47] fix: keep existing output when generate fails and
 report failures to generate or write

---
 cmd/cddlc/commands/generate.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 90c0eb9..242253c 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -116,13 +116,6 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return err
 	}
 
-	// check if output file can be opened/created before generating. Fail otherwise
-	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
-	if err != nil {
-		return err
-	}
-	defer out.Close()
-
 	lex := lexer.NewLexer(src)
 	p := parser.NewParser(lex)
 	cddl, errs := p.ParseFile()
@@ -138,12 +131,26 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 
 	gen.Visit(cddl)
 
-	err = addBuildHeader(out)
+	// only touch the output once everything is generated
+	var code bytes.Buffer
+	err = addBuildHeader(&code)
 	if err != nil {
 		return err
 	}
-	gen.String(out)
-	return nil
+	err = gen.String(&code)
+	if err != nil {
+		return errors.New("failed to generate code for `" + filepath + "` with err: " + err.Error())
+	}
+
+	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		return err
+	}
+	_, err = out.Write(code.Bytes())
+	if closeErr := out.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func addBuildHeader(f io.Writer) error {
-- 
2.43.0


From 7e165c7c657b9b45b9bdfbc1ef329a269072c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 35/47] fix: fail generate with an error instead of crashing on
 unsupported constructs

---
 cmd/cddlc/commands/generate.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 242253c..0eed91e 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"strings"
 
+	"github.com/HannesKimara/cddlc/ast"
 	"github.com/HannesKimara/cddlc/config"
 	"github.com/HannesKimara/cddlc/lexer"
 	"github.com/HannesKimara/cddlc/parser"
@@ -129,7 +130,10 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return errors.New("parser failed with errors above")
 	}
 
-	gen.Visit(cddl)
+	err = visit(gen, cddl)
+	if err != nil {
+		return errors.New("failed to generate code for `" + filepath + "` with err: " + err.Error())
+	}
 
 	// only touch the output once everything is generated
 	var code bytes.Buffer
@@ -153,6 +157,17 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 	return err
 }
 
+// visit generates code for the tree. The generator panics on constructs it does not support
+func visit(gen *gogen.Generator, cddl *ast.CDDL) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+	gen.Visit(cddl)
+	return nil
+}
+
 func addBuildHeader(f io.Writer) error {
 	header := "/*\n  File generated using `" + filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ") + "`. DO NOT EDIT\n*/\n\n"
 
-- 
2.43.0


From bf0acae8da396e8e9cc8ecebacb6a8bc0461030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 36/47] fix: only look for cddlc.json and cddlc.yaml, in any
 directory

---
 cmd/cddlc/commands/generate.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 0eed91e..022ed5c 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -98,16 +98,15 @@ func GenerateCmd(cCtx *cli.Context) error {
 }
 
 func loadConfigFromDir(dir string) (*config.Config, error) {
-	files, err := filepath.Glob(filepath.Join(dir, "cddlc.*"))
-	if err != nil {
-		return nil, err
-	}
-
-	if len(files) == 0 {
-		return nil, errNoConfiguration
+	for _, name := range []string{"cddlc.json", "cddlc.yaml"} {
+		path := filepath.Join(dir, name)
+		if _, err := os.Lstat(path); errors.Is(err, os.ErrNotExist) {
+			continue
+		}
+		return config.LoadConfig(path)
 	}
 
-	return config.LoadConfig(files[0])
+	return nil, errNoConfiguration
 }
 
 func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
-- 
2.43.0


From 215333da41fa021bbaab3414ba6adae215b40f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 37/47] fix: reject a configuration with an empty build instead
 of crashing on it

---
 config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/config.go b/config/config.go
index 3c40856..5e6b4ea 100644
--- a/config/config.go
+++ b/config/config.go
@@ -112,5 +112,11 @@ func LoadConfig(path string) (*Config, error) {
 		return nil, err
 	}
 
+	for _, build := range config.Builds {
+		if build == nil {
+			return nil, errors.New("empty build in config file: " + path)
+		}
+	}
+
 	return config, nil
 }
-- 
2.43.0


From 58abb516ec225c5573535dba1153a9da11907c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 38/47] fix: reject a JSON configuration followed by more data

---
 config/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 5e6b4ea..4de6475 100644
--- a/config/config.go
+++ b/config/config.go
@@ -5,6 +5,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -101,7 +102,11 @@ func LoadConfig(path string) (*Config, error) {
 	config := &Config{}
 	switch base {
 	case cDDLC_JSON:
-		err = json.NewDecoder(fh).Decode(config)
+		dec := json.NewDecoder(fh)
+		err = dec.Decode(config)
+		if _, trailing := dec.Token(); err == nil && trailing != io.EOF {
+			err = errors.New("unexpected data after the configuration in " + path)
+		}
 	case cDDLC_YAML:
 		err = yaml.NewDecoder(fh).Decode(config)
 	default:
-- 
2.43.0


From c6d493f24ccfdac0b1330eb365f56378e0a54b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 39/47] fix: give the default build a package name, go files
 need one

---
 config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/config.go b/config/config.go
index 4de6475..f36ccb4 100644
--- a/config/config.go
+++ b/config/config.go
@@ -88,6 +88,7 @@ func NewDefaultConfig() *Config {
 
 func newDefaultBuildConfig() *BuildConfig {
 	return &BuildConfig{
+		Package:   "dist",
 		SourceDir: ".",
 		OutDir:    "dist/",
 	}
-- 
2.43.0


From 9951d768eebceb2254a2fa5549ba4e6bb97dd45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 40/47] fix: create the configuration exclusively, init must
 not overwrite or share it

---
 cmd/cddlc/commands/init.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 6b36cc6..ebe1fe4 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -20,16 +20,15 @@ func getFileHandle(name string) (io.Writer, error) {
 	}
 	fp := filepath.Join(root, configFile)
 
-	_, err = os.Stat(fp)
-	switch {
-	case err == nil:
-		// file exists
+	// checks for an existing file and creates it in one step
+	f, err := os.OpenFile(fp, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0666)
+	if os.IsExist(err) {
 		return nil, errors.New("existing configuration for project found in " + fp)
-	case os.IsNotExist(err):
-		return os.OpenFile(fp, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
-	default:
+	}
+	if err != nil {
 		return nil, err
 	}
+	return f, nil
 }
 
 func InitCmd(cCtx *cli.Context) error {
-- 
2.43.0


From 245165fb538e05a94d780ab58d86050d760f0060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 41/47] fix: do not end the repl at lines over 64 KiB

---
 cmd/cddlc/commands/repl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/cddlc/commands/repl.go b/cmd/cddlc/commands/repl.go
index e8e4644..b8fb3ff 100644
--- a/cmd/cddlc/commands/repl.go
+++ b/cmd/cddlc/commands/repl.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"errors"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 
@@ -21,6 +22,7 @@ const PROMPT string = ">>>"
 
 func Repl(cCtx *cli.Context) error {
 	scanner := bufio.NewScanner(os.Stdin)
+	scanner.Buffer(nil, math.MaxInt) // no line is too long
 	parseVerbose := false
 
 	fmt.Println("Welcome to the cddlc quick repl.")
-- 
2.43.0


From 8127b28e2c77428009257b9681cd17bad94eca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 42/47] fix: keep the comment between a member's value and its
 comma

---
 parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a884c74..7434172 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -369,10 +369,13 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return val, err
 	}
 	rule.Value = val
+	rule.TrailingComment = p.trailingComment()
 	if p.currToken != token.COMMA && p.peekToken == token.COMMA {
-		p.next() // the comma ending the entry comes before its trailing comment
+		p.next() // the trailing comment may also follow the comma ending the entry
+		if rule.TrailingComment == nil {
+			rule.TrailingComment = p.trailingComment()
+		}
 	}
-	rule.TrailingComment = p.trailingComment()
 
 	return rule, nil
 }
-- 
2.43.0


From c048b9de997ddfc84ad8b4e8f69688325d1a72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 43/47] fix: print deep trees in time and space proportional to
 the tree

---
 ast/astutils/print.go | 79 +++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/ast/astutils/print.go b/ast/astutils/print.go
index a0d2856..dfb585c 100644
--- a/ast/astutils/print.go
+++ b/ast/astutils/print.go
@@ -10,74 +10,83 @@ import (
 
 const spaceChar = "\t"
 
+// maxIndent is the deepest indentation, so that the output stays proportional to the tree
+const maxIndent = 100
+
 type printer struct {
 	level   uint
 	builder *strings.Builder
 }
 
-func (p *printer) format(node ast.Node) string {
-	var s string
-
+func (p *printer) format(node ast.Node) {
 	p.level += 1
 	switch val := node.(type) {
 	case *ast.Identifier:
-		s = p.formatIdent(val)
+		p.formatIdent(val)
 	case *ast.TypeChoice:
-		s = p.formatTypeChoice(val)
+		p.formatTypeChoice(val)
 	case *ast.IntegerLiteral:
-		s = p.formatIntegerLiteral(val)
+		p.formatIntegerLiteral(val)
 	case *ast.FloatLiteral:
-		s = p.formatFloatLiteral(val)
+		p.formatFloatLiteral(val)
 	case *ast.IntegerType:
-		s = p.formatIntType(val)
+		p.formatIntType(val)
 	case *ast.FloatType:
-		s = p.formatFloatType(val)
+		p.formatFloatType(val)
 	case *ast.Enumeration:
-		s = p.formatEnumeration(val)
+		p.formatEnumeration(val)
 	case *ast.Group:
-		s = p.formatGroup(val)
+		p.formatGroup(val)
 	default:
-		s = fmt.Sprintf("%T", val)
+		p.writef("%T", val)
 	}
 	p.level -= 1
+}
 
-	return s
+func (p *printer) writef(format string, args ...any) {
+	fmt.Fprintf(p.builder, format, args...)
 }
 
-func (p *printer) formatIdent(ident *ast.Identifier) string {
-	return fmt.Sprintf("Ident ( Name: '%s' ) %s", ident.Name, p.formatPosition(ident.Pos))
+func (p *printer) formatIdent(ident *ast.Identifier) {
+	p.writef("Ident ( Name: '%s' ) %s", ident.Name, p.formatPosition(ident.Pos))
 }
 
-func (p *printer) formatTypeChoice(ch *ast.TypeChoice) string {
+func (p *printer) formatTypeChoice(ch *ast.TypeChoice) {
 	pre := p.spaceLevel(spaceChar)
-	return fmt.Sprintf("TypeChoice %s (\n%sFirst  : %s, \n%sSecond : %s\n)", p.formatPosition(ch.Pos), pre, p.format(ch.First), pre, p.format(ch.Second))
+	p.writef("TypeChoice %s (\n%sFirst  : ", p.formatPosition(ch.Pos), pre)
+	p.format(ch.First)
+	p.writef(", \n%sSecond : ", pre)
+	p.format(ch.Second)
+	p.writef("\n)")
 }
 
-func (p *printer) formatIntegerLiteral(il *ast.IntegerLiteral) string {
-	return fmt.Sprintf("IntegerLiteral (Literal: '%d') %s", il.Literal, p.formatPosition(il.Pos))
+func (p *printer) formatIntegerLiteral(il *ast.IntegerLiteral) {
+	p.writef("IntegerLiteral (Literal: '%d') %s", il.Literal, p.formatPosition(il.Pos))
 }
 
-func (p *printer) formatFloatLiteral(fl *ast.FloatLiteral) string {
-	return fmt.Sprintf("FloatLiteral ( Literal: '%f' ) %s", fl.Literal, p.formatPosition(fl.Start()))
+func (p *printer) formatFloatLiteral(fl *ast.FloatLiteral) {
+	p.writef("FloatLiteral ( Literal: '%f' ) %s", fl.Literal, p.formatPosition(fl.Start()))
 }
 
-func (p *printer) formatIntType(it *ast.IntegerType) string {
-	return fmt.Sprintf("IntegerType ( Token: '%s' ) %s", it.Token, p.formatPosition(it.Start()))
+func (p *printer) formatIntType(it *ast.IntegerType) {
+	p.writef("IntegerType ( Token: '%s' ) %s", it.Token, p.formatPosition(it.Start()))
 }
 
-func (p *printer) formatFloatType(ft *ast.FloatType) string {
-	return fmt.Sprintf("FloatType ( Token: '%s' ) %s", ft.Token, p.formatPosition(ft.Start()))
+func (p *printer) formatFloatType(ft *ast.FloatType) {
+	p.writef("FloatType ( Token: '%s' ) %s", ft.Token, p.formatPosition(ft.Start()))
 }
 
-func (p *printer) formatEnumeration(en *ast.Enumeration) string {
+func (p *printer) formatEnumeration(en *ast.Enumeration) {
 	pre := p.spaceLevel(spaceChar)
-	return fmt.Sprintf("Enumeration %s (\n%sValue: %s\n%s)", p.formatPosition(en.Pos), pre, p.format(en.Value), pre)
+	p.writef("Enumeration %s (\n%sValue: ", p.formatPosition(en.Pos), pre)
+	p.format(en.Value)
+	p.writef("\n%s)", pre)
 }
 
-func (p *printer) formatGroup(gl *ast.Group) string {
+func (p *printer) formatGroup(gl *ast.Group) {
 	pre := p.spaceLevel(spaceChar)
 	epre := pre + spaceChar
-	return fmt.Sprintf("Group %s (\n%sEntries: %d\n%s)", p.formatPosition(gl.Pos), epre, len(gl.Entries), pre)
+	p.writef("Group %s (\n%sEntries: %d\n%s)", p.formatPosition(gl.Pos), epre, len(gl.Entries), pre)
 }
 
 func (p *printer) formatPosition(pos token.Position) string {
@@ -85,16 +94,11 @@ func (p *printer) formatPosition(pos token.Position) string {
 }
 
 func (p *printer) spaceLevel(space string) string {
-	return strings.Repeat(space, int(p.level))
+	return strings.Repeat(space, int(min(p.level, maxIndent)))
 }
 
 func Print(node ast.Node) {
-	p := printer{
-		level:   0,
-		builder: &strings.Builder{},
-	}
-
-	fmt.Println(p.format(node))
+	fmt.Println(Format(node))
 }
 
 func Format(node ast.Node) string {
@@ -103,5 +107,6 @@ func Format(node ast.Node) string {
 		builder: &strings.Builder{},
 	}
 
-	return p.format(node)
+	p.format(node)
+	return p.builder.String()
 }
-- 
2.43.0


From 589dd66b723306369f632e9a2c0f30f367cded36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 44/47] fix: format a diagnostic list in time proportional to
 its length

---
 parser/diagnostic.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/diagnostic.go b/parser/diagnostic.go
index 2676301..fd6af37 100644
--- a/parser/diagnostic.go
+++ b/parser/diagnostic.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/HannesKimara/cddlc/errors"
 	"github.com/HannesKimara/cddlc/token"
@@ -62,12 +63,12 @@ type ErrorList []errors.Diagnostic
 
 // String returns the concatenated individual errors.
 func (er ErrorList) String() string {
-	out := ""
+	var out strings.Builder
 	for _, err := range er {
-		out += err.Error() + "\n"
+		out.WriteString(err.Error() + "\n")
 	}
 
-	return out
+	return out.String()
 }
 
 func (er ErrorList) Error() string {
-- 
2.43.0


From 21c41a5844ae92ee66fec1b4c453fbd17e260e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 45/47] fix: redefining a name the environment holds without a
 value no longer crashes

---
 parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7434172..342a96c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -164,8 +164,12 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 			// Since the only error returned is ErrSymbolExists, check for that and
 			// append a error that type is already decalred.
 			if err == env.ErrSymbolExists {
-				val := p.environment.Get(rule.Name.Name)
-				p.errors = append(p.errors, NewError(fmt.Sprintf("existing declaration for identifier %s at line %d, column %d", rule.Name.Name, val.Start().Line, val.Start().Column), rule.Name.Pos, rule.Name.Pos))
+				msg := "existing declaration for identifier " + rule.Name.Name
+				// names can be declared in the environment without a value
+				if val := p.environment.Get(rule.Name.Name); val != nil {
+					msg += fmt.Sprintf(" at line %d, column %d", val.Start().Line, val.Start().Column)
+				}
+				p.errors = append(p.errors, NewError(msg, rule.Name.Pos, rule.Name.Pos))
 			}
 		}()
 
-- 
2.43.0


From 7068bc55dab6b3961c69391b2a7e59dbaf564696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 46/47] fix: reject literal values of members, they are not
 types

---
 transforms/codegen/golang/gen_grouped.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index e0bef14..54e63b2 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -206,6 +206,11 @@ func (g *Generator) transpileArray(arr *ast.Array) (*structure, error) {
 }
 
 func (g *Generator) transpileEntry(entry *ast.Entry) (*structure, error) {
+	switch entry.Value.(type) {
+	case *ast.BooleanLiteral, *ast.FloatLiteral, *ast.IntegerLiteral, *ast.TextLiteral:
+		return nil, errors.New("literal value of `" + entry.Name.Name + "` is not a type")
+	}
+
 	ident := g.transpileIdentifier(entry.Name)
 	stct, err := g.transpileNode(entry.Value)
 
-- 
2.43.0


From 6da984e4cbd1a51b2571af257fdee2cfe76f9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 47/47] fix: reject a YAML configuration followed by more data

---
 config/config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index f36ccb4..f0cd17a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -109,7 +109,11 @@ func LoadConfig(path string) (*Config, error) {
 			err = errors.New("unexpected data after the configuration in " + path)
 		}
 	case cDDLC_YAML:
-		err = yaml.NewDecoder(fh).Decode(config)
+		dec := yaml.NewDecoder(fh)
+		err = dec.Decode(config)
+		if err == nil && dec.Decode(&Config{}) != io.EOF {
+			err = errors.New("unexpected data after the configuration in " + path)
+		}
 	default:
 		err = errors.New("unknown config file base: " + base)
 	}
-- 
2.43.0

