#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkproperties.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Scanning any byte sequence reaches end of input",
 "For every byte sequence, valid UTF-8 or not, repeatedly asking the scanner for the next token reaches the end-of-input token after at most one token per source byte, without crashing or hanging. Once end of input has been returned, every further request returns end of input again, at the same position (the length of the source).",
 ["inputs"],"every byte sequence: empty, invalid UTF-8, U+FFFD, NUL, unterminated literals and comments, any operator prefix at end of input",
 "lexer tests scan ~35 fixed lexemes and 1000 random space-separated valid tokens; none has an invalid byte, a multi-byte rune, an unterminated literal, or asks for a token after the end.",
 ["lexer/lexer.go"],[("every Scan consumes at least one byte or reports EOF","lexer/lexer.go Scan/next"),("inner scan loops stop at EOF","lexer/lexer.go scanString, scanComment, scanNumber")],
 [dict(name="cursor",meaning="current/next read offset into the source",where="lexer.Lexer offset, rdOffset, chr")],["lexer.NewLexer, Lexer.Scan return values"])
p("C02","Tokens tile the source and carry exact positions",
 "Tokens come in source order without overlapping, and everything between two consecutive tokens (and before the first and after the last) is whitespace. The text reported for a token is the source text it covers, without the delimiters for text literals and comments. The position reported is the byte offset of the token's first byte, its 1-based line, and its 1-based column in bytes.",
 ["inputs"],"every source: any mix of line breaks (LF, CRLF, blank lines), tabs, multi-byte characters, comments, and tokens glued together without spaces",
 "The fuzz test checks positions only for single-line sources whose tokens are separated by one space; line counting, multi-byte columns, CRLF and glued tokens are never checked.",
 ["lexer/lexer.go","token/position.go"],[("line offset table fed by skipWhitespace","lexer/lexer.go addLineOffset"),("position computed from start offset","lexer/lexer.go Scan")],
 [dict(name="line table",meaning="offset of each line break seen so far",where="Lexer.lineOffsets")],["Scan's position and literal"])
p("C03","Each token is the longest lexeme of the CDDL lexical grammar",
 "At every token start the scanner takes the longest lexeme and gives it the kind the lexical grammar assigns: identifiers (letter, @, _ or $ first; then also digits, hyphen, dot), the reserved type and literal names only when spelled exactly, decimal, 0x, 0o and 0b integers, floats (digits followed by one or more groups of a dot and digits; a digit followed by .. or ... is an integer and a range operator), the punctuation and assignment operators, the known control operators, text literals up to the next double quote on the same line, and comments up to the end of the line. Anything else - an unknown control operator, an undecodable byte, any other character - is an illegal token, and an unterminated text literal is recorded as exactly one lexical error.",
 ["inputs"],"every source text, every pair of adjacent lexemes, every prefix of a multi-character lexeme followed by any character",
 "The tests use isolated lexemes separated by spaces; longest-match decisions (1..2, 1.5...x, a..b, //=, 0b102, .sizes) and the illegal class are not exercised.",
 ["lexer/lexer.go","token/token.go"],[("switch on first character","lexer/lexer.go Scan"),("keyword table","token/token.go init, Lookup")],None,["Scan's token kind and literal; Lexer.Errors"])
p("C04","Inputs are never modified and instances never influence each other",
 "Scanning and parsing never change the caller's bytes, including bytes of the underlying buffer outside the given slice. The tokens, tree, diagnostics and generated code for a source depend only on the source bytes (and on the environment and package name passed in), so any number of scanners, parsers and generators, interleaved in any order or run at the same time, each give the result they give alone, and repeating a run gives the same result.",
 ["inputs","schedules"],"every buffer/slice shape and every interleaving of construct, scan, parse and generate steps of several instances",
 "Every test uses one instance at a time on an exactly sized literal slice; no test looks at the input after scanning or runs two instances.",
 ["lexer/lexer.go","parser/parser.go","token/token.go","environment/environment.go","transforms/codegen/golang/gen.go"],[("per-instance state only","Lexer, Parser, Generator structs"),("read-only keyword table","token/token.go init")],None,["caller's buffer; results of interleaved instances"])
p("C05","Parsing any input returns a tree and a diagnostic list",
 "For every byte sequence, however long or deeply nested, and every starting environment, parsing terminates without crashing and returns a tree (never none); formatting the diagnostics, printing the tree and asking every node of a diagnostic-free tree for its start and end never crash either.",
 ["inputs"],"every byte sequence, every token sequence, every prefix and single-token mutation of a valid source",
 "Tests parse about 60 fixed sources, nearly all valid; no malformed input beyond two mismatched ranges is ever parsed.",
 ["parser/parser.go","parser/diagnostic.go","ast","ast/astutils/print.go"],[("every loop consumes a token or returns an error","parser/parser.go parseEntry, parseGroup, parseMap, parseArray, ParseFile")],None,["ParseFile return values; Start/End of nodes; Diagnostic()"])
p("C06","Every malformed source is diagnosed",
 "A source that contains an illegal token or an unterminated text literal, whose brackets do not match, in which a rule lacks its name, assignment operator or value, or in which an operator lacks an operand or is given an operand it does not admit (size on something other than tstr, bytes or uint; regexp on something other than tstr; a comparison on something other than an integer or float type or with something other than a number or a name; a range whose ends are not both integers, floats or names; a key that is neither a name nor an integer) yields at least one diagnostic, and for the first such fault one of the diagnostics is located at the token where the source stops being well formed, at the operator or operand that is rejected or, for a missing assignment operator, at the rule's name.",
 ["inputs"],"every token sequence that is not a well-formed source, in particular every well-formed source with one token deleted, inserted, replaced or swapped",
 "Only two malformed sources exist in the tests, and the test compares diagnostics only when their number happens to match; a parser that swallowed errors would pass.",
 ["parser/parser.go","lexer/lexer.go"],[("prefix/infix tables reject unknown tokens","parser.go parseEntry"),("closing bracket checks","parser.go parseGroup/parseMap/parseArray/parseTag"),("operand type switches","parser.go parseSizeOperator, parseRegexp, parseComparatorOp, parseBound, parseColon, parseOccurrence")],None,["ParseFile's diagnostic list"])
p("C07","Every well-formed source parses without diagnostics",
 "Every source built from the constructs the README lists as supported by the parser, nested less than 10000 deep - rules with =, /= and //=, names, primitive types, literals, groups, arrays and maps with keyed and unkeyed members and optional commas, occurrence markers (?, *, +, n*m), type and group choices, unwrap, tags, enumerations, ranges, and the size, bits, regexp and comparison control operators - in any legal nesting, with every referenced name defined, no name assigned twice and consistent range ends, yields no diagnostic.",
 ["inputs","programs"],"every derivation of the supported grammar, in any nesting and order",
 "The language test data holds 15 small files; interactions between constructs (a choice of ranges in an optional keyed member, comments before a bracket, ...) are not covered.",
 ["parser/parser.go","token/token.go"],[("Pratt tables and precedences","parser.go NewParser; token.go Precedence")],None,["ParseFile's diagnostic list"])
p("C08","The tree represents the source exactly",
 "For a source without diagnostics, the tree holds one rule per source rule, in order, with its name, and each rule's value holds exactly the constructs written in the source, in order, each operand under its operator: nothing is dropped, duplicated, invented or moved, and literals and occurrence bounds have the values written. Operators group by precedence: unwrap and enumeration bind tightest, then ranges and control operators, then the type choice, then keys, then occurrence markers, then the group choice; chains of choices nest to the right.",
 ["inputs","programs"],"every well-formed source; every pair of nested or adjacent operators; every list position",
 "The tests' tree comparison silently skips a node when types or lengths differ, so dropped entries and wrong grouping pass; operator_precedence.cddl is only checked for absence of errors.",
 ["parser/parser.go","ast"],[("binding powers","token.go Precedence"),("entry collection","parser.go parseGroup, parseArray, parseMap")],None,["ParseFile's tree"])
p("C09","Comments and layout never change the meaning of a source",
 "Inserting or removing spaces, tabs, line breaks and comments between any two tokens leaves the rules, their values, the definitions and the diagnostics unchanged, apart from positions, as long as the tokens stay the same. Every comment outside a rule is kept in the tree in source order with its exact text, and a comment that directly follows a rule or the value of a keyed member (or its comma) on the same line is attached to that rule or member.",
 ["inputs"],"every well-formed source, every inter-token gap, every choice of blanks, line breaks and comments in it",
 "Test sources contain a comment in three places in total (one leading group, two file headers); no test compares a source with its re-laid-out version.",
 ["parser/parser.go","lexer/lexer.go"],[("comment handling","parser.go next, parseRule, parseColon"),("whitespace skipping","lexer.go skipWhitespace")],None,["ParseFile's tree and diagnostics"])
p("C10","Exactly the undefined references are diagnosed, in any rule order",
 "In a syntactically valid source, every use of a name that is neither a socket (starting with $) nor defined by some rule of the source or by the environment is diagnosed exactly once, at that use, and no use of a defined name is diagnosed. A name is defined by a rule anywhere in the source, before or after its uses; member keys written with a colon are not uses. Reordering the rules does not change which uses are diagnosed.",
 ["inputs","programs"],"every set of rules, every permutation, every nesting position of a reference",
 "No test has an undefined reference (the only one is commented out) and none permutes rules.",
 ["parser/parser.go","environment/environment.go"],[("deferred resolution tasks run after the whole file","parser.go tasks, ParseFile, parseNamedIdentifier")],[dict(name="environment",meaning="name to definition",where="environment.Environment.symbols"),dict(name="tasks",meaning="checks postponed to the end of the file",where="Parser.tasks")],["diagnostics"])
p("C11","The first definition wins and definitions outlive a parse",
 "An = rule for an already defined name, in the same source or in a later one sharing the environment, is diagnosed exactly once at that rule's name, and the environment keeps the first definition; /= and //= rules define a name not yet defined and otherwise extend it without a conflict. Definitions made by one parse are visible to later parses given the same environment; a rule that fails to parse defines nothing, and parses given different environments do not see each other's names.",
 ["histories","inputs"],"every sequence of sources parsed with the same or with different environments, any mix of =, /= and //= rules",
 "The environment unit test adds one name twice; no test parses two sources with one environment or a source with a duplicate rule.",
 ["environment/environment.go","parser/parser.go"],[("Add refuses existing names","environment.go Add"),("deferred Add in parseRule","parser.go parseRule")],[dict(name="environment",meaning="name to definition",where="environment.Environment.symbols")],["environment.Get/Exists, diagnostics"])
p("C12","Range ends of different kinds are always diagnosed",
 "A range (inclusive or exclusive) between an integer and a float is diagnosed, whether each end is a literal or a name that stands for a literal, directly or through other names, and whether the name is defined before or after the range; a name end that stands for something other than a number is diagnosed too. A range whose ends are both integers or both floats, by any such route, is not diagnosed.",
 ["inputs","programs"],"every combination of literal and named ends, alias chains, definition order and operator",
 "Tests cover the four literal/literal combinations and one named upper bound declared before its use.",
 ["parser/parser.go"],[("bound tasks resolved after the file","parser.go parseIntBound, parseFloatBound, parseIdentBound")],None,["diagnostics"])
p("C13","Node and diagnostic positions point at the construct in the source",
 "In the tree of a source without diagnostics, every node below the root starts at the position (offset, line, column) of the first token of its construct and does not end before it starts. Every diagnostic starts at the position of a token of the source or of its end, and the commands that print a diagnostic quote the source line it is on.",
 ["inputs"],"every well-formed source and every node in it; every malformed source and every diagnostic for it",
 "Tests compare positions only for one-token rule values on line 1.",
 ["ast","parser/parser.go","token/position.go","cmd/cddlc/commands/generate.go","cmd/cddlc/commands.go"],[("position fields set at node creation","parser.go parse*"),("Start/End methods","ast/*.go"),("source excerpt","errorStringer")],None,["Start/End of nodes and diagnostics; stderr of generate and parse"])
p("C14","A tree walk visits every node exactly once, in order",
 "Walking any tree the parser returns for a source without diagnostics calls the visitor once for each node, parents before children and children in source order (name, value, then trailing comment; occurrence bounds before the item), and calls it with no node once after the children of each visited node, using the visitor returned for that node. When the visitor declines a node, nothing below it is visited and there is no closing call for it; the walk never crashes.",
 ["inputs","programs"],"every tree of every well-formed source; every set of nodes at which the visitor declines",
 "There is no test of the walker at all.",
 ["ast/astutils/walk.go"],[("type switch over all node kinds","walk.go Walk")],None,["sequence of Visit calls"])
p("C15","Generated Go code is valid and declares every rule faithfully",
 "For a source made of rules for the constructs the README lists for the code generator - primitive types, literals, names of other type rules, and groups or arrays of members keyed by names or integers whose values are primitive types, names of type rules, or again such groups or arrays - where no rule contains itself and the resulting Go names do not clash, the generated file is valid, type-correct Go in the requested package with exactly one declaration per rule, in order, named by the camel-cased rule name (an integer key n becomes IntKey_n): a variable with the literal's value for literals, otherwise a type (text to string, bool to bool, uint to uint, int and nint to int, bytes to []byte, float16 and float32 to float32, float and float64 to float64, null to an empty struct, a name to that named type, a group or array to a struct with one field per member in order, arrays marked toarray) with a Valid method returning error.",
 ["inputs","programs"],"every rule set over the supported constructs, any names (hyphenated, dotted, keyword-like), any order",
 "The only generator test runs one rule and prints the result; nothing checks the output.",
 ["transforms/codegen/golang"],[("node transpilation","gen_grouped.go transpileNode, Visit"),("file printing","gen.go String")],None,["generated file parsed and type-checked"])
p("C16","generate writes exactly one complete Go file per definition file",
 "A successful generate run has, for every build of the configuration in order and every .cddl file directly in its source directory, written <output>/<name>.go with the header and the complete generated code for that file in the build's package, creating the output directory when missing. It creates, changes or removes no other file; files without the .cddl extension are ignored.",
 ["configurations","inputs"],"every configuration with any number of builds, every set of files in the source directories, every previous content of the output directories, repeated runs",
 "No test runs the generate command.",
 ["cmd/cddlc/commands/generate.go","config/config.go"],[("build/file loops","generate.go GenerateCmd"),("output path","generate.go GenerateCmd")],None,["directory contents and exit status after cddlc generate"])
p("C17","A failing generate reports it and keeps existing output intact",
 "When a definition file cannot be read, has diagnostics or uses a construct the generator does not support, or an output or directory cannot be created or written, generate stops with an error message and a non-zero exit status, never a crash and never success. The output file of the failing definition keeps its previous content, or stays absent if there was none, unless the write itself failed; outputs completed before the failure are complete, and definition files after the failing one are not generated.",
 ["fault_sequences","configurations","inputs"],"every position of a failing file among the files and builds, every kind of failure (parse error, lexical error, unsupported construct, unreadable source, missing source directory, output path that is a directory, full device), with and without previous output",
 "No test runs the generate command, with or without a failure.",
 ["cmd/cddlc/commands/generate.go","transforms/codegen/golang/gen_grouped.go"],[("error returns","generate.go GenerateCmd, generateFile")],None,["exit status, stderr, output files"])
p("C18","Configuration discovery and loading",
 "generate uses cddlc.json of the working directory if present, otherwise cddlc.yaml, otherwise the default configuration with a notice, whatever other files or directory names are around; an unreadable or malformed configuration stops it with an error before anything is generated. Loading accepts exactly these two base names, the same settings written as JSON or as YAML load to the same configuration, and every setting loads with the value written; anything else in place of a configuration is an error.",
 ["configurations","fault_sequences"],"every combination of present, absent and malformed configuration files and of unrelated files matching similar names, every configuration value",
 "There is no test of the config package or of configuration discovery.",
 ["config/config.go","cmd/cddlc/commands/generate.go"],[("LoadConfig by base name","config.go LoadConfig"),("loadConfigFromDir","generate.go")],None,["config.LoadConfig results; which build generate runs"])
p("C19","init creates the configuration once and never overwrites",
 "init creates cddlc.json in the working directory holding the default configuration, which loads back equal to the default, and exits with status 0. If an entry of that name already exists, in whatever form, init fails with a non-zero status and changes nothing; when several init runs race, exactly one succeeds and the file holds exactly one configuration.",
 ["schedules","histories","configurations"],"every interleaving of any number of init processes, every kind of pre-existing entry (file, empty file, directory, dangling link)",
 "No test runs init.",
 ["cmd/cddlc/commands/init.go","config/config.go"],[("existence check and create","init.go getFileHandle")],None,["exit status and content of cddlc.json"])
p("C20","A REPL session accumulates definitions line by line",
 "In the interactive shell every line is parsed against the definitions accepted so far: a name defined on an earlier line resolves, an undefined one is reported on that line, a redefinition is reported and the first definition stays. Lines starting with a command define nothing; :pv toggles the listing of each rule's name and kind after a line, :tree prints the definitions of the given names, :exit ends with status 0; no line of input, however malformed, ends the session or loses earlier definitions.",
 ["histories","inputs"],"every sequence of definition lines, malformed lines, blank lines and commands",
 "No test runs the interactive shell.",
 ["cmd/cddlc/commands/repl.go","environment/environment.go","ast/astutils/print.go"],[("one environment for the session","repl.go Repl")],[dict(name="session environment",meaning="definitions so far",where="repl.go environ"),dict(name="verbose flag",meaning="listing on or off",where="repl.go parseVerbose")],["standard output and exit status of cddlc qrepl"])
p("C21","Numeric range and comparison checks decide the interval",
 "The runtime checks used by generated code return, for every integer or float type and all values, exactly whether the value lies in the closed interval (inclusive range), in the open interval (exclusive range), strictly below the limit, or strictly above the limit; a NaN is in no interval.",
 ["inputs"],"every value and limit of every numeric type, including the extremes, equal values, empty intervals and NaN",
 "There is no test of the validators package.",
 ["runtime/validators/validators.go"],[("comparisons","validators.go InExclusiveRange, InInclusiveRange, IsLessThan, IsGreaterThan")],None,["return values"])
p("C22","A faulty rule leaves its neighbours alone and parsing resumes",
 "Everything before the first syntactically faulty rule is parsed and defined exactly as if the source ended there. After a syntax error parsing resumes at top level no later than with the token that follows the one at which the error was detected, so every later rule whose name has not been consumed is parsed and defined normally, every further syntax error is diagnosed at its own place, and references and ranges of all rules read are still checked.",
 ["inputs","fault_sequences"],"every sequence of well-formed and faulty rules, every position of the fault inside a rule, several faults in one source",
 "No test has a source with a faulty rule next to a valid one, apart from four single-rule ranges.",
 ["parser/parser.go"],[("error return to ParseFile and resumption at the next token","parser.go ParseFile, parseRule")],None,["tree, environment and diagnostics of partly faulty sources"])
p("C23","lex and parse export what the scanner and the parser find",
 "For every source file, lex writes one line per token, in source order up to and including the end of input, with its line and column, kind and text, and exits with a non-zero status and a message exactly when a token is illegal. parse writes exactly one JSON document holding every field of every node of the tree the parser returns (text bytes that are no characters may be replaced, trees nested up to 1000 deep), shows every diagnostic in order on standard error and nothing there if there is none, and exits with status 0. The shell started with --lex lists the tokens of every source line in the same way before it handles the line as usual. Without exactly one argument naming a readable file, lex and parse write nothing to standard output and exit with a message and a non-zero status.",
 ["inputs","configurations"],"every file content, valid UTF-8 or not, every kind of argument: missing, superfluous, a directory, an unreadable file",
 "No test runs the lex and parse commands.",
 ["cmd/cddlc/commands.go","cmd/cddlc/commands/repl.go","ast"],[("token loop","cmd/cddlc/commands.go LexerCmd"),("tree export","cmd/cddlc/commands.go ParseCmd"),("printTokens","cmd/cddlc/commands/repl.go")],None,["standard output, standard error and exit status of cddlc lex, parse and qrepl --lex"])
p("C24","A printed definition shows what it is, what it is about, and where",
 "The printed form of a definition names the kind of its node; for names, integer and float literals, the int and float types, choices, enumerations and groups it also shows the name, the number (floats to six decimals), the keyword or the number of entries, and the line and column of the node (of a choice: of its operator). A choice is followed by the printed forms of its first and second alternative, an enumeration by that of its value, in this order, each exactly once, and nothing below any other node is shown. Printing ends for every tree of a diagnostic-free source, however deep, gives the same text every time, in proportion to what it shows, and changes nothing.",
 ["inputs","programs"],"every node of the tree of every well-formed source",
 "No test formats a tree.",
 ["ast/astutils/print.go","cmd/cddlc/commands/repl.go"],[("recursive formatting","ast/astutils/print.go format"),("bounded indentation","ast/astutils/print.go spaceLevel")],None,["astutils.Format, astutils.Print"])
p("C25","A symbol table keeps the first node of every name",
 "Adding a name to a symbol table succeeds exactly once for every name, a sequence of any bytes, and fails with ErrSymbolExists ever after; Get returns the node of that first addition and Exists tells whether there was one, at any time and after any number of other additions. Nothing else changes a table: neither looking, nor an addition that fails, nor what is done with other tables.",
 ["histories"],"every sequence of Add, Get and Exists on any number of tables, with any names and nodes",
 "The unit tests add two names and look up one that was never added.",
 ["environment/environment.go"],[("Add refuses existing names","environment.go Add"),("lookups","environment.go Get, Exists")],[dict(name="symbols",meaning="name to first node",where="environment.Environment.symbols")],["return values of Add, Get, Exists"])
for x in P: print(json.dumps(x))
