#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
LEX = ["src/tokenizer/slice.rs", "src/tokenizer/mod.rs", "src/tokenizer/tokens.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
TOK = "cfg(jsparse_verif) re-export of the tokenizer types, so that an external Tokenizer can be implemented"
pull = ["every call the parser makes to Tokenizer::next_token (hint, token, range)", "return or panic of parse_root"]
tk = ["token and range returned by each Tokenizer::next_token call"]

p("L01", "Token ranges tile the source without loss, overlap or stalling",
  "Tokenizing any text from start to end of input gives ranges in source order in which every character belongs to exactly one token or to skipped inter-token white space (TAB, VT, FF, SP, NBSP, ZWNBSP), with byte offsets on character boundaries. Every token before end of input covers at least one character, and end of input is reported exactly at the end of the text, as an empty range, on that and every later request.",
  ["inputs", "histories"], "every text, every sequence of hints, any number of requests past the end",
  "The unit tests call the inner token reader on single tokens; none tokenizes a whole text, looks at ranges, uses non-ASCII white space or asks again after the end.",
  LEX, [("next_token advances by the size of the token read", "src/tokenizer/slice.rs next_token/eat_whitespace/increment_position")], tk,
  [dict(name="position", meaning="offset of the next unread character", where="src/tokenizer/slice.rs SliceTokenizer")], TOK)
p("L02", "Token positions carry the right line and column",
  "The start and end of every token carry the 1-based line and the 0-based column, counted in code points, of that place in the text. LF, CR, LS and PS each begin a new line and CR LF together begin one line, wherever they occur: between tokens, in block comments, in templates or in string continuations.",
  ["inputs"], "every text and hint sequence; every token in it",
  "No test reads a line or column at all.", LEX,
  [("increment_position", "src/tokenizer/slice.rs"), ("eat_whitespace column update", "src/tokenizer/slice.rs")], tk, [dict(name="position.line/column", meaning="location of next character", where="src/tokenizer/mod.rs Position")], TOK)
p("L03", "Punctuators and words are the longest match, correctly identified",
  "A punctuator token is the longest ECMAScript 2018 punctuator at that place in the text and its kind is the one that text spells; `-->` and `<!--` are not punctuators. A word token is the longest run of ASCII letters, digits, `$` and `_` that does not begin with a digit, and its name is exactly that text.",
  ["inputs"], "every text in which a punctuator or an ASCII word starts, whatever follows it",
  "Each punctuator is tested once, followed by a space; pairs of adjacent punctuators and every other follower, and all but one word, are unsampled.", LEX,
  [("byte match of the token reader", "src/tokenizer/slice.rs read_next, tok_ident")], tk, hook=TOK)
p("L04", "Numeric literals have the right extent and value",
  "A decimal, hexadecimal, octal or binary literal (with optional fraction, and exponent with at least one digit) is one token that takes exactly the characters of the literal, also at the very end of the text, and denotes that number (exactly for zero and for integer literals below 2^53, to 1e-9 relative otherwise, for magnitudes between 1e-290 and 1e290). A radix prefix or an exponent mark that is not followed by a digit of its kind never yields a token that includes that prefix or mark.",
  ["inputs"], "every literal spelling and every following character",
  "Nineteen literals are tested, each followed by a space; no hexadecimal letter, upper-case prefix, zero with exponent, or literal at end of text is among them.", LEX,
  [("tok_num, tok_zero_num, tok_fractional, parse_exponent", "src/tokenizer/slice.rs")], tk, hook=TOK)
p("L05", "String literals end at their own closing quote and keep their text",
  "A string literal ends at the first matching quote that is not part of an escape; the other quote character, escaped characters (including an escaped quote or backslash, hexadecimal and Unicode escapes) and line continuations (backslash before LF, CR, CR LF, LS or PS) belong to it. The value is the verbatim text between the quotes.",
  ["inputs"], "every string literal without a digit escape, in either quote style",
  "Four escape-free literals are tested.", LEX, [("tok_str escape state", "src/tokenizer/slice.rs tok_str")], tk, hook=TOK)
p("L06", "Template chunks end at the right backquote or `${`",
  "A template chunk starts at a backquote, or, when the caller expects a template continuation, at `}`; it ends at the first backquote or `${` not preceded by an escaping backslash, and is a head, middle, tail or no-substitution chunk according to how it starts and ends. Its raw text is the verbatim source between the delimiters, its cooked text the same where that has no escape and no CR, and without that expectation `}` is always a lone punctuator.",
  ["inputs", "configurations"], "every chunk body (dollars, braces, escapes, line breaks, any characters) under both expectations",
  "Four chunks with body `foo` are tested.", LEX, [("tok_template_head, tok_curly_close", "src/tokenizer/slice.rs")], tk, hook=TOK)
p("L07", "Comments and line terminators are delimited exactly",
  "A line comment runs up to, not including, the next LF, CR, LS, PS or the end of the text; a block comment runs to the first `*/` after its opening `/*`; each carries exactly the text between its delimiters. LF, CR, CR LF, LS and PS outside other tokens are each exactly one line-terminator token.",
  ["inputs"], "every comment body and follower; every line-terminator sequence; under every hint",
  "A handful of comments is tested, none with `/*/`, `**/`, nested openers, CR LF or end of text inside.", LEX, [("tok_slash, read_next", "src/tokenizer/slice.rs")], tk, hook=TOK)
p("L08", "A slash is a regular expression exactly when one is expected",
  "A `/` that does not open a comment starts a regular-expression literal when the caller expects an expression, and otherwise is `/` or `/=`. The literal ends at the first `/` that is neither escaped by a backslash nor inside a `[...]` class, followed by the longest run of lower-case letters as flags; pattern and flags are exactly that text.",
  ["inputs", "configurations"], "every pattern (classes, escapes, multi-byte characters) and follower under both expectations",
  "Five patterns are tested, none with an escape.", LEX, [("tok_slash", "src/tokenizer/slice.rs")], tk, hook=TOK)
p("L09", "A token depends only on the remaining text and, for / and }, the hint",
  "The token returned depends only on the text from the current place on and on the hint, never on earlier tokens, on the place in the file or on earlier requests. Only tokens that begin with `/` or `}` depend on the hint at all.",
  ["histories", "inputs", "configurations"], "every text, every split point, every sequence of hints",
  "Every test starts at offset 0 with one fixed hint.", LEX, [("next_token re-reads from position only", "src/tokenizer/slice.rs next_token")], tk, hook=TOK)
p("L10", "Malformed lexemes are refused, never turned into tokens",
  "An unterminated string, template, block comment or regular expression, a raw line terminator inside a string or regular expression, an exponent mark or radix prefix with no digit, an escape of a digit 1-9 in a string, a digit 8-9 in an octal or 2-9 in a binary literal, and a character that can start no token are each refused instead of producing a token. Parsing a program that contains one never succeeds.",
  ["inputs"], "every text with such a lexeme at any place, including as its last characters",
  "No test contains a malformed lexeme.", LEX, [("unimplemented!/panic! exits of the token reader", "src/tokenizer/slice.rs")], tk + ["parse_root outcome"], hook=TOK)

PAR = ["src/parser/mod.rs", "src/parser/expressions.rs", "src/parser/statements.rs", "src/parser/declarations.rs", "src/parser/functions.rs", "src/parser/classes.rs", "src/parser/module.rs", "src/parser/file.rs"]
st = [dict(name="hint", meaning="lexical goal for the next read", where="src/parser/mod.rs Parser.hint"),
      dict(name="flags, flags_stack", meaning="grammar context", where="src/parser/mod.rs"),
      dict(name="tokens, index, count", meaning="two-token lookahead buffer", where="src/parser/mod.rs")]
p("P01", "Every slash in a program is read as the grammar requires",
  "While parsing a valid program, each `/` is taken as the start of a regular expression exactly where the grammar allows an expression to begin, and as division or `/=` after a complete operand. The tokens the parser consumes are therefore the program's ECMAScript tokens, in every statement, operator, bracket, template and automatic-semicolon context.",
  ["programs"], "every valid program; every place where an operand or an operator may stand",
  "The only parsed programs are `this;` and 14 import/export lines; none contains a slash.", PAR,
  [("expect_expression before reading an operand; hint reset after each read", "src/parser/mod.rs read_token, expect_expression, ident_lookahead")], pull, st, TOK)
p("P02", "A closing brace continues a template exactly when `${` is innermost",
  "While parsing a valid program, `}` is taken as a template continuation exactly when the innermost open bracket is a template substitution, and as a closing brace otherwise, at any nesting of templates, blocks, functions, classes, object literals, patterns and switches. Each template's chunks are consumed head, middles, tail.",
  ["programs"], "every nesting of braces and templates",
  "No parsed program contains a template or nested braces.", PAR,
  [("Flag::Template push/pop keeps hint.template in step", "src/parser/mod.rs push_flags/pop_flags; parse_template_literal_expression")], pull, st, TOK)
p("P03", "Semicolons are inserted exactly where ECMAScript inserts them",
  "A statement that needs a semicolon may lack it exactly when the next token cannot continue the statement and is on a new line, is `}`, or is the end of input, or directly after the `)` of a do-while. It is never inserted inside a for header, never as an empty statement, and never between tokens on one line; a block comment that contains a line terminator counts as a new line.",
  ["programs"], "every statement ending in every following-token and line-break situation",
  "Every tested program writes all its semicolons.", PAR, [("semicolon_inner, line flag of the lookahead buffer", "src/parser/mod.rs")], pull, st, TOK)
p("P04", "Line-terminator restrictions are enforced",
  "No line terminator is allowed after `throw`; after `return`, `break`, `continue` and `yield` a line terminator ends the statement or operand; a line terminator before postfix `++`/`--` makes it a prefix operator of the next statement; and none is allowed before `=>`, or between `async` and the `function`, parameter or method name it modifies. Everywhere else a line break between tokens leaves a fully punctuated program valid.",
  ["programs"], "every restricted production in every context, with and without a line break or multi-line comment",
  "No test exercises a restricted production.", PAR, [("no_line_terminator checks", "src/parser/statements.rs, expressions.rs, functions.rs, classes.rs")], pull, st, TOK)
p("P05", "Statements: all well-formed forms are accepted, malformed ones rejected",
  "Every program built from the ECMAScript 2018 statements (blocks, empty, var/let/const, expression, if/else, do-while, while, for, for-in, for-of, continue, break, return, with, switch, labelled, throw, try, debugger) is accepted, at any nesting. A statement with a missing, extra or misplaced token is rejected: among others a const or a destructuring declaration without initializer, a second `default`, a try without catch and finally, and a for header of mixed form or whose `in` or `of` follows an operator expression.",
  ["programs"], "every composition of statement forms; every single-token corruption of one",
  "The only statement in a test is `this;`.", ["src/parser/statements.rs", "src/parser/declarations.rs"], [("parse_statement dispatch and the per-statement functions", "src/parser/statements.rs")], pull, st, TOK)
p("P06", "Expressions: all well-formed forms are accepted, malformed ones rejected",
  "Every ECMAScript 2018 expression built from identifiers, literals, this, super, templates, arrays, objects, functions, classes, parentheses, member access, calls, new, new.target, unary, update, binary, exponent, conditional, assignment, arrow, spread and comma forms is accepted wherever an expression may stand. An expression with a missing operand, operator, bracket or separator is rejected, as are an assignment whose left side is an operator expression or a postfix update, a unary expression as the base of `**`, `super` without member or call, and `new super()`.",
  ["programs"], "every composition of expression forms; every single-token corruption of one; except async generators and dynamic import",
  "The only expression in a test is `this`.", ["src/parser/expressions.rs"], [("precedence loop, member loop, primary dispatch", "src/parser/expressions.rs")], pull, st, TOK)
p("P07", "Functions, methods and classes have exactly their grammar",
  "Function, generator and async declarations and expressions, class declarations and expressions, and methods, accessors, generator and async methods in classes and object literals are accepted with every name form (word, string, number, computed), including members named get, set, static and async. A missing name, parameter list or body, a getter with parameters, a setter without exactly one, or a rest parameter that is not last is rejected.",
  ["programs"], "every combination of kind, modifiers, name form, parameters and context; every single-token corruption",
  "No test contains a function or class.", ["src/parser/functions.rs", "src/parser/classes.rs", "src/parser/declarations.rs", "src/parser/expressions.rs"], [("parse_method_head/parse_method_tail, parse_function_*", "src/parser/classes.rs, functions.rs")], pull, st, TOK)
p("P08", "Destructuring patterns have exactly their grammar",
  "Object and array binding patterns (nested, with defaults, computed and literal keys, elisions and a final rest) are accepted in declarations, parameters, catch clauses and for headers, and the corresponding assignment patterns and arrow parameters are accepted as expressions. In binding position a rest element that is not last, a literal or computed or reserved-word key without a target, and a missing separator or bracket are rejected.",
  ["programs"], "every pattern in every binding position",
  "No test contains a pattern.", ["src/parser/statements.rs", "src/parser/expressions.rs", "src/parser/functions.rs"], [("parse_binding_pattern and relatives; cover grammar for arrays, objects, parentheses", "src/parser/statements.rs, expressions.rs")], pull, st, TOK)
p("P09", "Import and export declarations have exactly their grammar",
  "Every ECMAScript 2018 import and export form is accepted at the top level of a module: side-effect, default, namespace and named imports and their combinations; star, named, re-exporting, declaration and default exports. The same declarations nested in any statement, function or expression, and those with a missing clause, name, `from` or source, are rejected.",
  ["programs"], "every import and export form, its every single-token corruption, and every place in a program",
  "Fourteen fixed forms are tested, all valid, all semicolon-terminated, all at top level, none exporting a declaration.", ["src/parser/module.rs", "src/parser/file.rs"], [("parse_import_declaration, parse_export_declaration", "src/parser/module.rs"), ("import/export tried only per module item", "src/parser/file.rs")], pull, st, TOK)
p("P10", "`in` is an operator everywhere except directly in a for-loop initializer",
  "The `in` operator is accepted in every expression except at the outermost bracket level of the first clause of a for header, where it ends the clause. Inside parentheses, brackets, braces, arguments, templates, parameter lists and function bodies nested in that clause it is an operator again, and after the clause the previous rule is back in force.",
  ["programs"], "every expression context, inside and outside for headers, at any nesting",
  "No test contains `in` or a for loop.", PAR, [("Flag::In push/pop around sub-expressions", "src/parser/mod.rs push_flags; statements.rs parse_for_statement")], pull, st, TOK)
p("P11", "yield, await and return are allowed exactly in their own function's body",
  "`yield` is accepted as an operator exactly in generator bodies and `await` exactly in the bodies of async functions, methods and arrows, where the innermost enclosing function or arrow decides; elsewhere in a module both are refused. `return` is accepted exactly inside a function body with braces. Leaving a nested function restores what the enclosing function allows.",
  ["programs"], "every nesting of function kinds",
  "No test contains a function.", PAR, [("Flag::Yield/Flag::Await push/pop around bodies", "src/parser/functions.rs, classes.rs, expressions.rs")], pull, st, TOK)
p("P12", "Reserved words are never names of variables but are fine as property names",
  "An ECMAScript reserved word (including enum, yield, await, null, true, false and this) is rejected wherever a binding, label or plain identifier reference is required, in every declaration, parameter, pattern, import and label position. Every word, reserved or not, is accepted as a property name after a dot, as a key, as a method name and as a foreign name in import and export clauses; contextual words (as, async, from, get, of, set, target) are ordinary identifiers.",
  ["programs"], "every word in every identifier position",
  "No reserved word appears in an identifier position in any test.", PAR, [("is_binding_identifier", "src/parser/mod.rs")], pull, st, TOK)
p("P13", "White space and comments never change how a program is parsed",
  "Inserting or removing white space, and comments without a line break, between the tokens of a program (where this does not join tokens) changes neither acceptance nor the significant tokens. Inserting line terminators in any of their spellings, or comments containing them, at a place where the program already has a line break changes nothing either.",
  ["programs", "inputs"], "every program, every gap between tokens, every trivia sequence",
  "The tests use single spaces and LF only and contain no comment inside a program.", ["src/parser/mod.rs", "src/tokenizer/slice.rs"], [("read_token skips trivia and records the line flag", "src/parser/mod.rs read_token")], pull, st, TOK)
p("P14", "Parsing always ends: accept or one parse error, no crash, no over-reading",
  "For every finite stream of well-formed tokens, in any order, parsing ends with acceptance or with a parse error; it never crashes on an internal assertion, never fails to end, never asks the tokenizer for more tokens than the stream has (end of input included), and requests them in order.",
  ["inputs", "programs"], "every token sequence, valid or not, through any tokenizer implementation",
  "The tests parse 15 valid lines.", PAR, [("lookahead buffer of two", "src/parser/mod.rs token_and_line/ident_lookahead/pop")], pull, st, TOK)
p("P15", "Acceptance means the whole input was a balanced program",
  "A program is accepted only after the end of input has been reached, and only if all its brackets, including template substitutions, are properly nested and closed. Consequently deleting or adding any single bracket, or any text after a complete program that does not itself continue it, makes an accepted program rejected.",
  ["programs", "inputs"], "every program and every one-bracket corruption, truncation and trailing addition",
  "No test checks a rejection.", PAR, [("eof required at the end of a module; closing brackets required by every construct", "src/parser/file.rs, utils.rs eat_value")], pull, st, TOK)
p("P16", "Every construct leaves the grammar context as it found it",
  "Whether a statement is accepted after others does not depend on what those were: a sequence of statements each of which ends in `;` or in a block is accepted if and only if every one of them is accepted alone in the same enclosing context. The same holds for the items of a function body, a block, a class, an object, an array, an argument list and a template.",
  ["programs", "histories"], "every sequence of constructs of any length and every enclosing context",
  "Each test parses at most eight import or export lines in a row.", PAR, [("ParserProxy drop restores flags; hint reset", "src/parser/mod.rs")], pull, st, TOK)
p("P17", "A text is accepted exactly when its characters form a module",
  "Split a text from left to right into ECMAScript 2018 tokens, taking at each `/` and `}` the reading that the grammar allows after what came before. If every lexeme is well formed and the tokens, with semicolons inserted as ECMAScript says, derive a module, the text is accepted and the parser has consumed exactly these tokens; otherwise it is not accepted. So a change of even one character anywhere changes the verdict exactly when it changes that derivability.",
  ["inputs", "programs"], "every text, program or not; every text within a few characters of a program",
  "The tests parse 15 fixed texts, all valid; what follows from joining, splitting or dropping characters across tokens, comments and line ends is never sampled.", PAR + LEX, [("parse_root drives SliceTokenizer with hints set by the grammar", "src/parser/mod.rs read_token; src/tokenizer/slice.rs next_token")], pull, st, TOK)
p("A01", "Printing an AST yields source that denotes the same AST",
  "Displaying any AST node yields source text that parses back to the same tree, with parentheses where precedence needs them.",
  ["programs"], "every AST",
  "The AST module is not compiled, so none of its tests runs.", ["src/ast/display.rs", "src/ast/mod.rs"], [("NodeDisplay implementations", "src/ast")], ["Display output of a node"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
