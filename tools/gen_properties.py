#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
T="src/tokenizer/slice.rs"; TM="src/tokenizer/mod.rs"; TT="src/tokenizer/tokens.rs"
P="src/parser/mod.rs"; E="src/parser/expressions.rs"; S="src/parser/statements.rs"
F="src/parser/functions.rs"; C="src/parser/classes.rs"; D="src/parser/declarations.rs"
M="src/parser/module.rs"; R="src/parser/file.rs"; B="src/main.rs"; U="src/parser/utils.rs"
out=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    out.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
HOOK="the tokenizer module made nameable (cfg jsparse_verif)"
TOKOBS=["Tokenizer::next_token on a &str tokenizer"]
p("C01","Tokenizing always makes progress, ends, and fails loudly",
  "For every source text and every sequence of hints, repeated requests for the next token reach end-of-input after finitely many tokens or stop with an explicit failure. Every token other than end-of-input consumes at least one byte, end-of-input is reported only when all of the text has been consumed, and is then reported again on every further request. Text that is not lexically valid JavaScript (unterminated string, comment, template or regular expression, a character that cannot begin a token) ends in a reported failure and is never silently turned into a token.",
  ["inputs","histories"],"all texts, all hint sequences",
  "Tests tokenize about 90 well-formed single tokens; none looks at malformed text, at the token after a failure point or at repeated calls at the end.",
  [T,TM],[("read_next dispatches on the first byte and returns a size",T),("next_token advances the position by that size",T)],TOKOBS,HOOK)
p("C02","Token ranges tile the source exactly",
  "For every source text and hint sequence, the ranges reported for successive tokens are in order, never overlap, begin and end on character boundaries, and everything between two consecutive ranges is JavaScript white space. The first range starts after at most leading white space and the last token ends where the text ends, so no byte is skipped or tokenized twice.",
  ["inputs","histories"],"all texts, all hint sequences",
  "The existing tests check the length of one token at a time and never a sequence, nor any reported range.",
  [T,TM],[("eat_whitespace before each token",T),("increment_position computes the end from the size",T)],TOKOBS,HOOK,
  [("SliceTokenizer.position","where the next token starts",T)])
p("C03","Reported line and column match the source position",
  "For every token, the reported start and end positions equal those computed from the text: the byte offset, the 1-indexed line number with CR, LF, CRLF, U+2028 and U+2029 each ending exactly one line (CRLF counts once, also inside comments, strings and templates), and the 0-indexed column counted in code points since the last line terminator.",
  ["inputs","histories"],"all texts, all positions, any mix of line terminators and multi-byte characters before it",
  "No test looks at a reported line or column at all.",
  [T,TM],[("increment_position",T),("eat_whitespace",T),("initial position in into_tokenizer",T)],TOKOBS,HOOK,
  [("Position","offset, line, column",TM)])
p("C04","Punctuators are split by longest match",
  "For every run of punctuation characters, each token is the longest punctuator of the language that is a prefix of the remaining text, is reported as exactly that punctuator, and the following token starts right after it. `.` before a digit starts a number and `//`, `/*` start comments.",
  ["inputs"],"all strings over the punctuation characters, in all contexts that can follow them",
  "Each punctuator is tested alone before a space; no sequence of adjacent punctuators and no end-of-input right after one is tested.",
  [T,TT],[("read_next punctuator ladder",T)],TOKOBS,HOOK)
p("C05","Numeric literals: extent, value, and rejection",
  "For every text starting with a digit or a `.` and digit, the tokenizer produces one numeric token spanning exactly the decimal, hexadecimal, octal or binary literal of the language, whose value is the mathematical value of that literal (for decimals with fraction or exponent up to a relative error of 1e-12). A malformed literal (no digits after a radix prefix or exponent mark, a digit outside the radix, a leading zero followed by a digit, an identifier character or digit directly after the literal) is a reported failure.",
  ["inputs"],"all character sequences that begin like a number",
  "Tests check 19 literals; e.g. no hexadecimal letter digit, no upper case, no end of input after a prefix, no malformed literal.",
  [T],[("tok_num, tok_zero_num, tok_fractional, parse_int_literal, parse_decimal_digits, parse_exponent",T)],TOKOBS,HOOK)
p("C06","String literals: extent, value, and rejection",
  "For every text starting with a quote, the token spans exactly up to the first unescaped matching quote and its value is the string the literal denotes: escapes (single-character, \\0, \\x, \\u and \\u{}) decoded, line continuations removed, all other characters unchanged. A raw line terminator, a malformed, octal or out-of-range escape, or a missing closing quote is a reported failure.",
  ["inputs"],"all character sequences that begin with a quote, including multi-byte characters and every escape form at every position",
  "The four tested strings contain no escape, no line continuation, no non-ASCII character and no malformed literal.",
  [T,TT],[("tok_str escape state machine",T)],TOKOBS,HOOK)
p("C07","Template pieces: extent, kind, raw and cooked text",
  "For every template, each piece spans exactly from its opening backtick or closing brace to the first unescaped backtick or `${`, is reported as complete, head, middle or tail accordingly, with the raw text being the source text of the piece with CRLF and CR normalised to LF, and the cooked text having its escapes decoded. An unterminated piece or malformed escape is a reported failure.",
  ["inputs"],"all character sequences inside a template, both as first piece and as continuation",
  "Four templates are tested, all with the text `foo`: no escape, no `$` that does not open a substitution, no line terminator, no malformed piece.",
  [T,TT],[("tok_template_head",T),("tok_curly_close",T)],TOKOBS,HOOK)
p("C08","Regular expression literals: extent, pattern and flags",
  "For every `/` read where an expression is expected and which does not open a comment, the token spans exactly the regular expression literal: up to the first `/` that is neither escaped nor inside a character class, followed by all directly following identifier characters as its flags, with the pattern and flags reported as in the source. A line terminator in the body or a missing closing slash is a reported failure; the same `/` read where no expression is expected is always a division or comment.",
  ["inputs"],"all bodies, classes, escapes, flags and endings",
  "Five literals are tested; no escape, no nested or unterminated class, no line terminator and no missing slash.",
  [T],[("tok_slash",T)],TOKOBS,HOOK)
p("C09","Comments, white space and line terminators",
  "For every text, line comments end exactly before the next line terminator or the end of the text, block comments exactly at the first `*/`, both reported with their exact contents; every JavaScript white-space character (including all Unicode space separators and U+FEFF) is skipped wherever it occurs between tokens; and every line terminator between tokens is reported.",
  ["inputs"],"all interleavings of white space, line terminators, comments and tokens",
  "White space tests are commented out in the repository; comments are tested alone and never next to tokens or at the end of the text.",
  [T],[("eat_whitespace",T),("tok_slash comment branches",T)],TOKOBS,HOOK)
p("C10","Identifier names: extent and rejection",
  "For every text starting with an identifier start character, the token spans the maximal run of identifier characters (ASCII letters, digits, `$`, `_`, and all Unicode ID_Start/ID_Continue characters) and reports exactly that text as its name. A character that can neither start an identifier nor any other token is a reported failure.",
  ["inputs"],"all characters, alone and inside identifiers, and all keywords as names",
  "One identifier (`omg`) is tested.",
  [T],[("tok_ident",T)],TOKOBS,HOOK)
p("C11","A token depends only on the remaining text and the hint",
  "The token reported at a position depends only on the text from that position on and on the hint given for it, never on the preceding text, tokens or hints. The expression hint changes nothing except whether a `/` that opens no comment begins a regular expression, and the template hint nothing except whether `}` continues a template.",
  ["inputs","histories"],"all texts, all split points, all hint histories",
  "Tests read a single token from a fresh tokenizer.",
  [T,TM],[("read_next is given only the suffix and the hint",T)],TOKOBS,HOOK)
PO=["parse_root::<_, ()> (returns = accepted, panics = rejected)"]
p("C12","The parser reads `/` as regex exactly where the grammar says",
  "For every program, at every point where the grammar permits a division operator a `/` is read as division, and at every other point as the start of a regular expression. This holds after every construct and in every nesting of constructs, including around inserted semicolons, so valid programs containing either are accepted.",
  ["inputs","programs"],"all token prefixes of programs, every construct before the slash",
  "No parser test contains a slash; the decision depends on the whole grammar context and on how far the parser had looked ahead.",
  [P,E,S],[("expect_expression and hint reset in read_token",P),("ident_lookahead hint",P)],["hints passed to the tokenizer","accept/reject"],HOOK,
  [("Parser.hint","goal symbol for the next token read",P),("Parser.tokens/count/index","lookahead buffer",P)])
p("C13","The parser reads `}` as template continuation exactly there",
  "For every program, a `}` that closes a template substitution is read as a template continuation and every other `}` as a closing brace, for any nesting of templates, blocks, functions, classes, object literals, patterns and switch bodies inside substitutions.",
  ["inputs","programs"],"all nestings up to the bound",
  "No parser test contains a template.",
  [P,E,S,C],[("with/without(Flag::Template)",P),("pop_flags restores the hint",P)],["hints passed to the tokenizer","accept/reject"],HOOK,
  [("Parser.flags.expect_template","inside a substitution",P)])
p("C14","Semicolons are inserted exactly where the language says",
  "A missing semicolon is accepted exactly when the next token is on a new line, is `}` or is the end of input (or follows a do-while), and never inside a for header or as an empty statement; a line break where the language forbids one (after return, break, continue, throw, yield, async and before =>, postfix ++ and --) ends or breaks the construct exactly as the language says. A statement that could continue on the next line does continue.",
  ["inputs","programs"],"all programs with all placements of line breaks",
  "Every statement in the tests ends with an explicit semicolon.",
  [P,S,E],[("semicolon_inner",P),("no_line_terminator",P)],PO,HOOK,[("LookaheadResult.line","line break before the token",P)])
p("C15","Expression grammar is accepted and its violations rejected",
  "Every expression of the ECMAScript 2017 grammar (all operators, member access, calls, new, tagged templates, literals with elisions and spreads, conditional, assignment, comma, arrow functions) is accepted in every position that takes an expression, and every token sequence that does not match the grammar (missing operand, missing colon, unbalanced bracket, misplaced operator, bare super, unary base of `**`) is rejected.",
  ["inputs","programs"],"all token sequences up to the bound, all expression forms in all expression positions",
  "The tests parse two expressions, `this` and `this` after export default.",
  [E],[("parse_assignment_expression, parse_fancy, parse_left_hand_expression, parse_primary_expression",E)],PO,HOOK)
p("C16","Statement grammar is accepted and its violations rejected",
  "Every statement form of the ECMAScript 2017 module grammar (blocks, if/else, while, do-while, switch, labels, break, continue, throw, try, variable and lexical declarations) is accepted in every statement position, and token sequences that violate the form (missing parenthesis, body, clause, initializer, duplicate default, declaration where only a statement may stand) are rejected.",
  ["inputs","programs"],"all token sequences up to the bound and all nestings of statements in statements",
  "The tests contain no statement other than an expression statement, imports and exports.",
  [S,D,R],[("parse_statement dispatch",S),("parse_declaration dispatch",D)],PO,HOOK)
p("C17","Loop heads and the scope of the `in` operator",
  "Every for, for-in and for-of head of the grammar is accepted and every other head rejected, with the `in` operator excluded from the initializer part exactly where the grammar excludes it and available again inside any brackets, functions, templates and classes nested in it, as well as everywhere outside loop heads.",
  ["inputs","programs"],"all heads up to the bound, all constructs nested in heads",
  "No test contains a loop or an `in`.",
  [S,E,P],[("parse_for_statement",S),("Flag::In",P)],PO,HOOK,[("GrammarFlags.allow_in","`in` is an operator here",P)])
p("C18","Functions, generators and async functions scope yield and await",
  "Function, generator, async function and arrow function forms (declarations, expressions, methods, parameters with defaults, patterns, rest and trailing commas) are accepted. A yield expression is accepted exactly directly inside generator bodies and an await expression exactly directly inside async bodies, never in the parameters of such functions, and neither is accepted in a nested non-generator or non-async function body, nor after the end of the body that allowed it.",
  ["inputs","programs"],"all nestings of function kinds up to the bound",
  "No test contains a function.",
  [F,E,C,P],[("with/without(Flag::Yield|Await)",F),("ParserProxy drop pops flags",P)],PO,HOOK,
  [("Parser.flags_stack","saved contexts",P)])
p("C19","Classes, object literals and methods",
  "Every class declaration and expression, object literal and method form of the grammar (heritage, static, accessors, generators, async methods, computed, string, numeric and keyword names, members named get, set, static or async, shorthand and spread properties) is accepted, and malformed members (missing name, parameters, body, separator) are rejected.",
  ["inputs","programs"],"all member sequences up to the bound",
  "No test contains a class, an object literal or a method.",
  [C,E],[("parse_method_head/parse_method_tail",C),("parse_object_property",E)],PO,HOOK)
p("C20","Destructuring patterns",
  "Every binding pattern (object and array, nested, with defaults, computed and literal keys, elisions and rest elements) is accepted wherever a binding is declared (var, let, const, parameters, catch, loop heads), and every assignment pattern on the left of an assignment or as arrow parameters; malformed patterns (element after rest, missing target after a colon, missing initializer for a declared pattern, missing separators) are rejected.",
  ["inputs","programs"],"all patterns up to the bound in all binding positions",
  "No test contains a pattern.",
  [S,E,F],[("parse_binding_pattern and friends",S),("cover grammar in array/object literals",E)],PO,HOOK)
p("C21","Import and export declarations",
  "Every import and export form of the grammar (default, namespace, named with renames and trailing commas, re-exports, exported variables, functions, async functions, generators and classes, default exports of declarations and expressions) is accepted at module level, and malformed ones or ones nested in other statements are rejected.",
  ["inputs","programs"],"all token sequences of import/export declarations up to the bound",
  "14 well-formed declarations are tested; none exports a declaration, none is malformed or nested.",
  [M,R],[("parse_import_declaration/parse_export_declaration",M)],PO,HOOK)
p("C22","Reserved words are never bindings, contextual words always may be",
  "In module code no reserved word (including let, static, await, yield and the strict-mode future reserved words) is accepted as a variable, parameter, function, class or label name or as an identifier reference, `eval` and `arguments` are accepted as references but never as a binding or an assignment target, while every other name, including contextual words such as async, of, get, set, from, as and target, is accepted in all of these positions; any word at all is accepted as a property name, member name and export alias.",
  ["inputs","programs"],"every word of the language in every position that takes a name",
  "Tests use only foo, other, named and ns as names.",
  [P,E],[("is_binding_identifier",P),("keyword/identifier/binding_identifier",P)],PO,HOOK)
p("C23","Comments and white space between tokens never change the verdict",
  "Replacing the separator between two tokens by any other combination of white space and comments with the same line-break content (or by nothing, when the tokens stay apart) never changes whether a program is accepted, and a comment counts as a line break exactly when it contains a line terminator.",
  ["inputs","programs"],"all gaps of all corpus programs, all separators",
  "Tests use single spaces and newlines only and contain no comment between tokens in the parser tests.",
  [P,T],[("read_token loop skips trivia and tracks line breaks",P)],PO,HOOK)
p("C24","Every text gets a verdict and the whole text decides it",
  "For every text, parsing ends, either accepting or with one explicit failure (never an endless loop, stack misuse or internal arithmetic or indexing error), the verdict is the same on every run, and a text is accepted only after every token up to the end of input has been consumed.",
  ["inputs","programs","histories"],"all short texts and token sequences, and deep nestings",
  "Tests parse valid input only.",
  [P,U,R],[("eof check in parse_module",R),("TokenResult macros",U)],PO+["calls made on the tokenizer"],HOOK)
p("C25","No parsing context leaks from one construct into the next",
  "Whether a statement or expression is accepted depends only on the constructs that enclose it, not on which completed constructs precede it: after any complete construct, and inside a construct after any complete sub-construct, exactly the same continuations are accepted as without it (apart from automatic semicolon insertion).",
  ["inputs","programs","histories"],"all pairs and triples of constructs in all nesting contexts",
  "No test puts two different constructs next to each other except imports and exports.",
  [P,F,C,M,S],[("flags_stack push/pop through ParserProxy",P),("hint reset",P)],PO,HOOK,
  [("Parser.flags","current grammar parameters",P)])
p("C26","The command line tool reports the verdict of the whole file",
  "Run on a file, the command line tool exits with success exactly when the module in the whole file is accepted, however the file's bytes arrive, and with a failure status when the file is missing, unreadable or not UTF-8; it never modifies the file.",
  ["inputs","fault_sequences"],"all short files, all ways of splitting the input into reads, all listed environment faults",
  "The binary has no tests.",
  [B],[("main reads the whole file and calls parse_root",B)],["exit status of the jsparse binary"],None)
p("C28","Only valid targets are assigned to or deleted, and only parameters precede an arrow",
  "An expression is accepted on the left of `=`, a compound assignment, `in` or `of` of a loop head, or next to `++` and `--`, exactly when it is a valid target there: a name (other than `eval` and `arguments`) or property access (also in parentheses), or, for `=`, `in` and `of` only, an unparenthesised array or object pattern made of such targets. It is accepted before `=>` exactly when it is a name, a parenthesised parameter list of names and binding patterns (defaults allowed, rest last), or such a list after `async`, on the same line, with no yield or await expression of the enclosing function in it. Forms that are valid only as patterns or parameters (`{a = 1}`, `()`, trailing commas and rest elements in parentheses) are rejected when nothing makes them one. `delete` is accepted in front of every unary expression except a plain variable, in parentheses or not.",
  ["inputs","programs"],"all expression forms in all target and head positions, nested up to the bound",
  "No test contains an assignment or an arrow function.",
  [E,S,P],[("Cover, parse_assignment_or_pattern, reify_assignment, reify_arrow",E),("parse_for_expression use",S),("cover_initializer, last_suspension, async_call",P)],PO,HOOK,
  [("Cover","what the parsed expression can still become",E),("Parser.cover_initializer","an object literal that must become a pattern",P)])
p("C27","Printing a syntax tree yields source that denotes that tree",
  "Formatting any syntax tree produces source text that parses back to the same tree (parentheses for precedence, `in` and statement starts, escapes, separators).",
  ["inputs"],"all trees",
  "The AST module and its tests are not compiled.",
  ["src/ast/display.rs","src/ast/mod.rs"],[("NodeFormatter precedence and lookahead locks","src/ast/display.rs")],["Display of AST nodes"],"the module would have to compile")
out.sort(key=lambda o:o["id"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for o in out: f.write(json.dumps(o)+"\n")
print(len(out))
