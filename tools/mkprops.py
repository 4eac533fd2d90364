#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the committed file is the output of this script).
import json, os
S="scanner/scanner.go"; P="parser/parser.go"; I="parser/interface.go"; A="ast/ast.go"; W="ast/walk.go"
R="render/render.go"; AC="render/accent.go"; B="bibtex.go"; AU="author.go"; RE="resolver.go"; T="token/token.go"; SC="ast/scope.go"; AS="asts/asts.go"
def p(id,title,stmt,over,text,why,files,mech,observe):
    return {"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
L=[]
L.append(p("C01","Scanning never crashes on any input",
"For every byte sequence and every scanner mode, initialising a scanner with a file whose size equals the length of the source and then asking for tokens any number of times never panics. This includes truncated, binary and invalid UTF-8 input.",
["inputs","configurations","histories"],"all byte sequences, all mode bits, any number of scan calls (also after end of file)",
"The unit tests scan a few dozen short well-formed snippets; a crash needs one particular truncation or byte at one particular scanner state.",
[S],[("Scan and the scan* helpers: slice bounds and character reads",S),("next: character reader",S)],["scanner.Scanner.Init","scanner.Scanner.Scan"]))
L.append(p("C02","Scanning always makes progress and ends",
"Every scan call returns, and every call that does not report end of file consumes at least one byte of the source, so token positions strictly increase. Once end of file has been reported, every later call reports end of file again.",
["inputs","configurations","histories"],"all byte sequences, all mode bits, any number of scan calls",
"Non-termination needs a specific open construct at end of input; tests only sample closed ones and cannot show the absence of a hang.",
[S],[("scanning loops stop at end of file",S),("string state is left at end of file",S)],["scanner.Scanner.Scan"]))
L.append(p("C03","Tokens tile the source and carry its exact text",
"Token positions are offsets into the source, and outside of string literals the text between the end of one token and the start of the next consists only of blanks, tabs, newlines and carriage returns (plus one byte order mark at the very start), so no byte of the source is lost. Identifier, number, command and comment tokens carry exactly the source text at their position, and each is maximal: the character that follows could not have continued it.",
["inputs","configurations"],"all byte sequences, all mode bits, every token of the sequence",
"Tests compare literal lists for a handful of inputs and never compare positions with the source text.",
[S],[("skipWhitespace, scanIdent, scanNumber, scanCommand, scanTexComment",S),("Scan dispatch",S)],["scanner.Scanner.Scan"]))
L.append(p("C04","A raw string literal ends exactly at its matching delimiter",
"Without string tokenization, the text of a brace-delimited string is exactly the source between its opening brace and the matching closing brace, and the text of a quoted string is exactly the source between its opening quote and the first quote that is not inside balanced braces. A string whose matching delimiter does not exist is reported as an error and takes up the rest of the source.",
["inputs"],"all string literals of any length and nesting depth, terminated or not",
"Nesting depth and content are unbounded; tests sample a few shallow strings.",
[S],[("scanBraceString: recursive brace matching",S),("scanString: quotes inside braces don't end a string",S)],["scanner.Scanner.Scan"]))
L.append(p("C05","Tokenized strings track nesting and end at the right delimiter",
"With string tokenization, each token inside a string starts where the previous one ended, and the string ends exactly at the first unescaped delimiter of the kind that opened it at nesting depth zero: a quote only ends a quoted string and only outside of inner braces, and a closing brace only ends a brace string when all inner braces are closed. Text, escaped-character, comma and non-breaking-space tokens carry the source text at their position, and a math token carries the text between its dollar signs.",
["inputs","histories"],"all strings of any length and nesting depth, every scan call inside a string",
"The state carried across calls (which delimiter, which depth) ranges over unboundedly many histories; tests sample a few.",
[S],[("scanInString state machine: delimiter and depth",S),("scanStringMath, scanStringEscape, scanStringContents",S)],["scanner.Scanner.Scan"]))
L.append(p("C06","No lexical error passes silently",
"The public error count always equals the number of times the installed error handler was called since initialisation. Whenever the scanner returns an illegal token, reads a NUL byte, an invalid UTF-8 sequence or a byte order mark after the start, or reaches the end of the source inside a string or an inline math section, the error count has been increased.",
["inputs","configurations","histories"],"all byte sequences, all mode bits, with and without an error handler",
"Tests check a few error messages; they cannot show that no malformed input slips through uncounted.",
[S],[("error: handler call and counter",S),("next: illegal characters",S),("unterminated strings",S)],["scanner.Scanner.ErrorCount","scanner.ErrorHandler"]))
L.append(p("C07","Scanner re-initialisation forgets all history",
"After re-initialising a used scanner, the tokens, positions, literals and error count it produces are the same as those of a new scanner initialised with the same arguments, no matter what it scanned before and where that scan was stopped. Comments between two tokens never change how the second token is classified.",
["inputs","histories","configurations"],"all earlier uses of the scanner (any source, any stopping point), all new sources and modes",
"Tests always use a new scanner; reuse after an arbitrary stopping point is a history property.",
[S],[("Init resets every state field",S),("previous-token heuristic ignores comments",S)],["scanner.Scanner.Init","scanner.Scanner.Scan"]))
L.append(p("C08","Parsing never crashes on any input",
"For every source text and every combination of parser modes (tracing aside), parsing a file or an expression never panics: it returns a syntax tree, an error, or both. Only a missing position set is a caller error.",
["inputs","configurations"],"all byte sequences as source, all mode bits except tracing",
"A crash needs a particular malformed token sequence; tests sample a few dozen mostly well-formed snippets.",
[P,I],[("parse functions check the token before they use its text",P),("bailout panics are recovered in the entry points",I)],["parser.ParseFile","parser.ParseExpr"]))
L.append(p("C09","Parsing terminates on every input",
"Parsing a file or an expression returns for every source text and every parser mode; error recovery never loops without consuming input. Every loop and every recursion of the parser is bounded by the amount of source that is left.",
["inputs","configurations"],"all byte sequences as source, all mode bits except tracing",
"Termination cannot be tested; the known hangs needed an unclosed construct at end of input.",
[P],[("every parse loop consumes a token or stops at end of file",P),("advance: bounded number of syncs without progress",P)],["parser.ParseFile","parser.ParseExpr"]))
L.append(p("C10","A parse without error covers the whole input with no gaps",
"If parsing a file reports no error, then all of the source up to the end was consumed, the tree contains no placeholder for bad syntax, and every entry, string macro and preamble is closed by the delimiter that matches its opening one. If parsing an expression reports no error, the whole text belongs to that expression.",
["inputs","configurations"],"all byte sequences as source, all mode bits except tracing",
"Tests compare a few trees; that no malformed input is accepted silently is a claim over all inputs.",
[P,I],[("expect/expectCloser report mismatches",P),("bad nodes are created only together with an error",P),("main loop runs until end of file",P)],["parser.ParseFile","parser.ParseExpr"]))
L.append(p("C11","Syntax trees never contain missing children",
"Whatever the source, even if it has syntax errors, the returned tree is structurally complete: no list of entries, tags, keys, comments or string parts contains a nil element, every tag has a value, every preamble has a text, every string macro has a tag with a value, and every concatenation has both operands. Comment groups are never empty.",
["inputs","configurations"],"all byte sequences as source, all mode bits except tracing",
"Nil children appear only after particular error recoveries, which tests do not reach.",
[P,A],[("parse functions return a node or a bad-node placeholder",P)],["parser.ParseFile","parser.ParseExpr"]))
L.append(p("C12","Entries are represented faithfully and in order",
"The n-th entry of a file that parses without error represents the n-th entry of the source: its type is the lowercased command name, its first key is the cite key, further keys and all tags are kept in source order, none dropped, duplicated or invented. Each tag name is the lowercased source name and the original spelling is kept next to it.",
["inputs"],"all sources that parse without error, any number of entries, keys and tags",
"Tests sample entries with at most a few tags; order and completeness for any number need induction.",
[P],[("parseBibDecl, parseTagStmt, parseAbbrevDecl",P),("parseFile collects declarations",P)],["parser.ParseFile"]))
L.append(p("C13","Leaf nodes carry the exact source text at their position",
"Every identifier, number, raw string, text, math and comment node of a syntax tree, even of a partial one, has a position inside the source, and its text is the source text found at that position (after the opening delimiter for raw strings and math). Nothing is normalised, truncated or taken from another place. Exceptions: the placeholder name _ that stands for a missing identifier, and the text inside accent commands and urls, which is put together from several tokens.",
["inputs","configurations"],"all byte sequences as source, all mode bits except tracing, every leaf node",
"Existing tests ignore positions altogether when they compare trees.",
[P,S,A],[("parser stores the scanner's position and literal of one token in one node",P)],["parser.ParseFile","ast node positions"]))
L.append(p("C14","Every comment is kept once, in source order",
"The comment list of a parsed file contains every percent comment of the source that lies outside of strings up to where parsing stopped, exactly once and in source order, with its exact text. Comments are grouped only with neighbouring comments (no other token lies between the comments of a group), and a group attached to an entry or tag as documentation is one of the groups of that list. A parse that gives up (an error in the very first token, or more than ten errors) yields an empty file without a list.",
["inputs","configurations"],"all byte sequences as source, all mode bits except tracing",
"Tests check the grouping of two short files; loss or duplication depends on the line layout of arbitrary files.",
[P],[("next, consumeCommentGroup, consumeComment",P)],["ast.File.Comments","Doc fields"]))
L.append(p("C15","Strings and concatenations keep their structure",
"A parsed string that contains no syntax error (no bad-expression child) has one child per source token between its delimiters, in order, with inner brace groups as nested strings of depth one more and with opener and closer at the positions of its two delimiters. The values of url tags and the arguments of url macros, whose tokens are joined into one text, are an exception. A chain of concatenations is represented right-nested in source order, with each operator at the position of its sign.",
["inputs"],"all strings and expressions of any length and nesting depth",
"Length and nesting are unbounded; tests sample shallow strings and ignore positions.",
[P],[("parseText, parseStringLiteral, parseExpr, parseConcat",P)],["parser.ParseFile","parser.ParseExpr"]))
L.append(p("C16","Walk visits depth-first, in order, and obeys the walker",
"Walking a tree calls the walker on each node on entering, then on its children in order, then on the same node on leaving, unless the walker asked to skip the children, in which case only the leaving call follows. As soon as the walker returns stop or an error, no further call is made and the walk returns that error.",
["inputs","histories"],"all finite trees of any shape and all walkers that leave the tree unchanged, with any sequence of returned statuses and errors",
"The sequence of walker answers and the tree shape are unbounded; the existing test only walks one tree without stopping.",
[W],[("walkHelper recursion",W)],["ast.Walk"]))
L.append(p("C17","Resolving yields one entry per bibliography entry, in order",
"Resolving a file runs the configured resolvers in the order given, stops at the first one that fails and returns its error and no entries. Otherwise it returns exactly one entry for each bibliography entry of the file, in source order, with its type, its cite key (empty if it has none) and for each tag name the value of its last tag of that name and no other tags.",
["inputs","configurations"],"all syntax trees, all lists of resolvers and their outcomes",
"Tests resolve a few single-entry files; ordering, omission and duplicate tags for any number of entries need induction.",
[B],[("Resolve and resolveEntry",B),("options append resolvers in order",B)],["bibtex.Biber.Resolve","bibtex.New"]))
L.append(p("C18","Resolvers rewrite exactly what they are meant to",
"The escaped-text resolver replaces each escaped character that is a direct part of a parsed string by plain text with that character and changes nothing else. The parsed-text resolver replaces a tag value that is a parsed string by plain text equal to its rendering and leaves other tag values alone, and the author resolver replaces the value of exactly the configured tags by the authors extracted from it, reporting an error if such a value is not a parsed string.",
["inputs","configurations"],"all syntax trees and all sets of tag names",
"Tests check one example per resolver; that nothing else changes is a frame property over whole trees.",
[RE],[("walker closures of the three resolvers",RE)],["bibtex.SimplifyEscapedTextResolver","bibtex.RenderParsedTextResolver","bibtex.AuthorResolver"]))
L.append(p("C19","One author per and-separated group, never an empty one",
"Extracting authors from a parsed string splits it at exactly its top-level text parts that equal the word and, and returns one author per group in source order, or an error if a group yields an empty author or contains something that has no text form. It never panics on a well-formed string and never changes its input.",
["inputs"],"all parsed strings with any number of parts of any kind",
"Tests sample about thirty names; the number and kind of parts are unbounded.",
[AU],[("ExtractAuthors split loop",AU),("extractAuthor, trimSpaces, findCommas",AU)],["bibtex.ExtractAuthors"]))
L.append(p("C20","Author name parts lose and reorder nothing",
"For a name without commas, the first name, prefix and last name are consecutive pieces that together are exactly the rendered parts of the name in order, the last part always belongs to the last name, and there is no suffix. For a name with commas, the text before the first comma forms prefix and last name, the text after the last of the first two commas is the first name, and the text between the first two commas, if there are two, is the suffix; surrounding blanks are trimmed.",
["inputs"],"all lists of name parts of any length",
"Names have unboundedly many shapes; tests sample about thirty of them.",
[AU],[("resolveAuthor0, resolveAuthorN",AU),("parseFirstName, parsePrefixName, parseLastName, parseDefault",AU)],["bibtex.ExtractAuthors"]))
L.append(p("C21","Accents render to exactly the right character or an error",
"Rendering an accent over a base letter returns the precomposed character for exactly the supported accent and letter pairs, and an error for every other accent, letter or text, including empty text and text longer than one byte. It never panics and never returns a character together with an error.",
["inputs"],"all accent values and all texts",
"The tests check a few pairs; the rest of the table and the totality of the error cases are not covered.",
[AC],[("accent table and guards",AC)],["render.RenderAccent"]))
L.append(p("C22","Text rendering is the in-order concatenation of all parts",
"Rendering an expression as text writes the text forms of its leaves in order, each exactly once: nothing is dropped, repeated or reordered, whatever the nesting. If a part has no text form or a write fails, rendering stops there and returns an error; it returns no error only if everything was written.",
["inputs","fault_sequences"],"all expression trees of any depth, and writers that fail at any write",
"Nesting is unbounded and write failures at each position are not tested at all.",
[R],[("TextRenderer.Render recursion and error propagation",R)],["render.TextRenderer.Render"]))
L.append(p("C23","Default rendering handles every node kind once",
"Every kind of syntax node has a default renderer, and rendering any well-formed node of that kind never panics. Leaf text (identifiers, text, accents, escapes, commas, spaces, hyphens) is written exactly once when the node is entered, strings and math are wrapped in matching delimiters, and failing writes and missing renderers surface as an error that stops the rendering.",
["inputs","configurations","fault_sequences"],"all node kinds, entering and leaving, all writers, all renderer overrides",
"Tests render a few strings; they cover neither all kinds nor failing writers.",
[R,B,A],[("default renderer table and renderers",R),("Render dispatch by kind",B)],["render.Defaults","bibtex.Biber.Render"]))
L.append(p("C24","Token classes and names are consistent",
"Every token belongs to at most one of the classes literal, string literal, operator and command, and exactly the tokens documented for a class belong to it. Every defined token has its own non-empty name, different tokens have different names, and naming never panics, even for undefined values.",
["inputs"],"all integer values of a token",
"There are no tests of the classes; the boundary tokens are what a change would get wrong.",
[T],[("class predicates by range",T),("name table",T)],["token.Token.IsLiteral","token.Token.IsStringLiteral","token.Token.IsOperator","token.Token.IsCommand","token.Token.String"]))
L.append(p("C25","Scopes keep the first declaration of a name",
"Inserting an object into a scope adds it and reports nothing if its name is new, and otherwise leaves the scope unchanged and returns the object that is already there; no other name is ever affected. Looking up a name returns the object inserted under it in that very scope, or nothing.",
["inputs","histories"],"all sequences of insertions and lookups",
"There are no scope tests; the property ranges over all insertion histories.",
[SC],[("Insert, Lookup, NewScope",SC)],["ast.Scope.Insert","ast.Scope.Lookup"]))
L.append(p("C26","Parsing several files keeps every good one and the first error",
"Parsing a list of files returns a package that contains exactly the files that parsed without error, each under its own name, and the error of the first file in the list that failed, if any. The source given as string, bytes, buffer or reader means the same text, and an unusable source is an error, not an empty file.",
["inputs","fault_sequences"],"all lists of file names and all outcomes of reading and parsing each of them, all source forms",
"Tests never parse a package; order and combination of failures are unbounded.",
[I],[("ParsePackage loop",I),("readSource",I)],["parser.ParsePackage","parser.ParseFile"]))
L.append(p("C27","Tree-building helpers build what their arguments say",
"The helpers that build nodes from strings never panic on any string, and a list of parts becomes a parsed string with exactly one child per part in order (a braced string splits into its blank-separated words with one space node between neighbours). Printing an expression for debugging never panics on a well-formed tree.",
["inputs"],"all strings and all lists of parts",
"Tests use the helpers only with the literals they need.",
[AS],[("ParseStringExpr, BraceText, QuotedText, ExprString",AS)],["asts.ParseStringExpr","asts.BraceText","asts.QuotedText","asts.ExprString"]))
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in L:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(L))
