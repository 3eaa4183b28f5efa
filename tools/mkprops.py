#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SL = "src/tokenizer/slice.rs"; TK = "src/tokenizer/mod.rs"; TT = "src/tokenizer/tokens.rs"
PM = "src/parser/mod.rs"; PE = "src/parser/expressions.rs"; PS = "src/parser/statements.rs"
PD = "src/parser/declarations.rs"; PF = "src/parser/functions.rs"; PC = "src/parser/classes.rs"
PMOD = "src/parser/module.rs"; PFI = "src/parser/file.rs"; PU = "src/parser/utils.rs"
TOKHOOK = "re-export of the tokenizer's Hint/TokenRange/tokens types, which the public Tokenizer trait mentions but which live in a private module"

prop("C01", "Tokens tile the source text exactly",
 "Pulling tokens from a source string one after another yields ranges that start where the previous token ended, separated only by whitespace, that always cover at least one byte, and that end with an end-of-file token at the end of the text, which further pulls repeat. The text a token reports (identifier name, escape-free string contents, template raw text, regular expression pattern and flags, comment body) is exactly the source text inside its range, so no character of the source is lost, duplicated or attributed to two tokens.",
 ["inputs"], "every source text and every sequence of expression/template hints, up to the first lexical error if there is one",
 "The tests look at one token at a time from offset 0; none pulls a sequence of tokens or inspects a range, so consumption, progress and the end-of-file condition are never observed.",
 [SL, TK, TT], [("next_token adds the size read_next returned to the running position", SL), ("eat_whitespace skips blanks before a token", SL)],
 ["Tokenizer::next_token via IntoTokenizer for &str"], [("position", "offset/line/column of the next unread byte", "SliceTokenizer")], TOKHOOK)

prop("C02", "Token positions agree with the source text",
 "Every token's start and end give the byte offset, the 1-based line and the 0-based column in code points of the place in the source where the token begins and ends. LF, CR, U+2028 and U+2029 each end a line, and CR LF ends one line, wherever they occur (between tokens, inside block comments, templates or string continuations).",
 ["inputs"], "every mixture of tokens, line terminators and multi-byte characters",
 "No test reads a position at all: the tests call the single-token reader, which has none.",
 [SL, TK], [("increment_position walks the consumed text", SL), ("eat_whitespace advances the column", SL), ("documented meaning of Position", TK)],
 ["TokenRange filled in by Tokenizer::next_token"], None, TOKHOOK)

prop("C03", "Punctuators and names are split by longest match",
 "At any point, the next punctuator is the longest one of the ECMAScript 2018 module grammar that the remaining text starts with, and the next ASCII identifier name is the maximal run of letters, digits, `$` and `_`. How a run of adjacent punctuators and names is split depends only on the characters, not on what precedes it or how the text ends.",
 ["inputs"], "every string of punctuator and identifier characters (with `/` read as division and `}` as a brace)",
 "The tests try each punctuator once, followed by a space; adjacency (`>>>=`, `x-->0`, `a+++b`, `..`, `...` at the end of the text) and truncated prefixes are not covered.",
 [SL, TT], [("nested length/byte tests in read_next", SL), ("tok_ident", SL)], ["token kinds from Tokenizer::next_token"], None, TOKHOOK)

prop("C04", "Numeric literals have the right extent and value",
 "A decimal, fractional, exponent, hexadecimal, octal or binary literal of any length is one numeric token that extends exactly to its last character, including when it is the last thing in the text. Its value is the mathematical value of the literal: exact when the literal is an integer below 2^53, otherwise equal up to accumulated floating-point rounding (with magnitudes beyond the range of doubles read as infinity or zero).",
 ["inputs"], "every ES2018 numeric literal in every surrounding text; magnitudes, digit counts and exponents of any size",
 "The tests try 19 literals followed by a space, with decimal digits only in the radix prefixes; letters as hex digits, zero with an exponent, literals at the end of the text and large exponents are not tried.",
 [SL], [("tok_num, tok_zero_num, tok_fractional", SL), ("parse_int_literal, parse_decimal_digits, parse_exponent", SL)], ["NumericLiteral value and range"], None, TOKHOOK)

prop("C05", "String literals end at their own closing quote",
 "A string literal token runs from its opening quote to the first matching quote that is not part of an escape sequence, whatever quotes, comment markers, template or regular-expression characters, escapes, line continuations or multi-byte characters the text between contains. Without escapes, its value is exactly the text between the quotes.",
 ["inputs"], "every well-formed ES2018 string literal (single- or double-quoted, every escape form legal in module code)",
 "The tests try four strings, none with an escape sequence, a continuation or a non-ASCII character.",
 [SL], [("escape state machine in tok_str", SL)], ["StringLiteral value and range"], None, TOKHOOK)

prop("C06", "Template chunks end at the right backtick or substitution",
 "A template is split into chunks exactly at its unescaped backticks and at `${` and the matching closing brace: each chunk is reported as complete, head, middle or tail accordingly with the raw text between those delimiters, for any nesting of substitutions, braces, strings, comments and further templates. Escaped backticks, escaped dollars, lone `$` and lone `{` are ordinary text.",
 ["inputs"], "every template literal, flat or nested, with any cooked or raw contents",
 "The tests read four chunks with contents `foo`; no escape, no `$` without `{`, no nesting, and the parser tests contain no template at all.",
 [SL, PE, PM], [("tok_template_head, tok_curly_close", SL), ("Flag::Template set for substitutions and cleared inside braces", "src/parser/*.rs")], ["token stream pulled by parse_root", "Template format/raw/range"],
 [("expect_template", "whether `}` continues a template", PM)], TOKHOOK)

prop("C07", "Regular expression literals have the right pattern and flags",
 "Where an expression is expected, a `/` that does not start a comment begins a regular expression token that ends at the first `/` that is neither escaped nor inside a character class, followed by its flag letters. The pattern and flags reported are exactly those two pieces of source text.",
 ["inputs"], "every regular expression body (classes, escapes, quotes, brackets, multi-byte characters) and flag run, at any place in the text",
 "The tests try five patterns without escapes.",
 [SL], [("class/escape scan in tok_slash", SL)], ["RegularExpressionLiteral pattern/flags/range"], None, TOKHOOK)

prop("C08", "Comments and blanks are delimited exactly and are only separators",
 "A line comment runs up to, not including, the next line terminator or the end of the text; a block comment runs to the first `*/`; the body reported is the text between the markers. Tab, VT, FF, space, no-break space and BOM between tokens are skipped without producing a token, and each line terminator outside comments is reported as a line break (CR LF as one or two).",
 ["inputs"], "every sequence of comments, blanks and line terminators between tokens",
 "The tests read ten comments and each line terminator once, and the whitespace test is commented out, so no blank is ever skipped by a test that looks at the result.",
 [SL], [("comment scan in tok_slash", SL), ("eat_whitespace", SL)], ["Comment format/value/range", "LineTerminator tokens"], None, TOKHOOK)

prop("C09", "Malformed tokens are refused, never silently absorbed",
 "Text that does not begin with any token of the grammar (an unterminated string, template, regular expression or block comment, a line break inside a string or regular expression, a bad escape, a radix prefix without digits or with a digit out of range, a character that starts no token) makes tokenizing and parsing fail at that point. It never yields a token that covers no text or that hides the error, and a module containing it is never accepted.",
 ["inputs"], "every way of corrupting one token of an otherwise valid text, at any position including the very end",
 "No test feeds the tokenizer or the parser anything malformed.",
 [SL], [("panic!/unimplemented! on lexical errors", SL)], ["parse_root outcome", "Tokenizer::next_token outcome"], None, TOKHOOK)

prop("C10", "Every well-formed expression is accepted",
 "A module made of a well-formed expression built from literals, names, operators of every precedence, conditional, assignment, comma, member access, call, `new`, spread, array and object literals, templates, arrow functions, function and class expressions, in any nesting, is accepted.",
 ["inputs", "programs"], "every expression of the supported ES2018 grammar (ASCII names; no async generators, optional catch binding, object rest, or later additions), at any nesting depth the stack allows",
 "The only expression any parser test contains is `this`.",
 [PE, PM], [("precedence loop parse_fancy", PE), ("cover grammar for parentheses/arrows", PE)], ["parse_root returns instead of panicking"])

prop("C11", "Every well-formed statement is accepted",
 "A module made of well-formed statements (blocks, variable and lexical declarations, empty and expression statements, if/else, all loop forms including every for/for-in/for-of head, switch, break, continue, return, throw, try/catch/finally, labels, debugger), in any order and nesting, is accepted.",
 ["inputs", "programs"], "every combination and nesting of supported statements",
 "No parser test contains any statement other than `this;`.",
 [PS, PD, PM], [("statement dispatch and for-head classification", PS)], ["parse_root returns instead of panicking"])

prop("C12", "Every well-formed function, class and binding pattern is accepted",
 "Function declarations and expressions (plain, generator, async), arrow functions, methods, getters and setters, classes with heritage, static and computed members, and parameter lists and declarations with defaults, rest elements and nested object and array patterns are accepted wherever the grammar allows them.",
 ["inputs", "programs"], "every supported function/class/pattern form in every position",
 "No test contains a function, class or pattern.",
 [PF, PC, PS, PD, PE], [("parse_function_params, parse_method_head/tail, parse_binding_pattern", "src/parser/{functions,classes,statements}.rs")], ["parse_root returns instead of panicking"])

prop("C13", "Every well-formed import and export is accepted",
 "Every form of import and export declaration (bare, default, namespace, named with and without renaming and trailing commas, combined; star, named, re-export, declaration and default exports of every kind) is accepted at the top level of a module, in any order, mixed with other statements. An import or export declaration anywhere else, or one that fits none of the forms, is rejected.",
 ["inputs", "programs"], "every import/export form, alone and in sequences, and in every nested position",
 "Fourteen fixed declarations are tried, each on its own line and followed by a semicolon; exported declarations are not tried at all.",
 [PMOD, PFI], [("parse_import_declaration, parse_export_declaration", PMOD), ("module items only at top level", PFI)], ["parse_root returns or panics"])

prop("C14", "Slash and closing brace are read as the grammar requires",
 "While parsing a well-formed module, the parser obtains exactly the tokens the grammar assigns to the text: `/` starts a regular expression exactly where an expression may start and is division elsewhere, and `}` continues a template exactly when it closes a template substitution. It obtains each token exactly once and in order, and none after the end of file.",
 ["inputs", "programs"], "every well-formed module, with a division or regular expression after every kind of token and templates nested to any depth",
 "No test has a slash or a template in parsed code; choosing the goal depends on parser state accumulated over the whole prefix.",
 [PM, PE, PS, SL], [("expect_expression / Hint handed to each tokenizer call", PM), ("two-token lookahead ring", PM), ("Flag::Template", PM)],
 ["sequence of tokens returned by a recording Tokenizer given to parse_root"],
 [("hint", "goal for the next token", PM), ("tokens/index/count", "lookahead ring", PM), ("flags_stack", "saved grammar context", PM)], TOKHOOK)

prop("C15", "Malformed modules are rejected",
 "A module that no derivation of the ECMAScript 2018 module grammar covers is rejected with an error; early errors aside (other than a constant or a pattern declared without a value); what stands left of `=` or a for head's `in`/`of` need only be a left-hand side expression, what stands left of `=>` a name or a list in parentheses. This includes missing, extra, misplaced or mismatched brackets, operators, operands, separators, keywords, clauses, names and semicolons, and truncation at any point.",
 ["inputs", "programs"], "every text obtained from well-formed modules by token-level edits, truncation and splicing that leaves the grammar",
 "No test checks that anything is rejected.",
 ["src/parser/*.rs"], [("eat_value!/try_value!/opt_value! decide between error and backtrack-free fallthrough", PU)], ["parse_root panics instead of returning"])

prop("C16", "Semicolons are inserted exactly where the language allows",
 "A statement that ends with a semicolon may omit it before a line break that is followed by a token that cannot continue it, before `}`, at the end of the file and after do-while; `return`, `break`, `continue`, `yield`, `throw` and postfix `++`/`--` never take an operand across a line break. Without such a place, a missing semicolon is an error, and a line break inside a multi-line comment counts as one.",
 ["inputs", "programs"], "every pair of adjacent statements, every separator between them (spaces, each line terminator, comments with and without line breaks, nothing)",
 "Every statement in the tests is terminated by an explicit semicolon.",
 [PM, PS, PE], [("semicolon_inner, no_line_terminator", PM), ("read_token accumulates the line flag across trivia", PM)], ["parse_root returns or panics"], [("line", "line break seen before a buffered token", PM)])

prop("C17", "Layout between tokens does not change the result",
 "Replacing the blanks and comments between two tokens by any other blanks and comments (keeping them separate, and keeping the presence or absence of a line break where the grammar looks at it) changes neither whether a module is accepted nor the tokens the parser obtains.",
 ["inputs", "programs"], "every module, well-formed or not, and every re-layout of it",
 "Tests never parse the same program in two layouts.",
 [SL, PM], [("trivia skipping in read_token", PM), ("eat_whitespace and comment tokens", SL)], ["parse_root outcome", "recorded token stream"], None, TOKHOOK)

prop("C18", "Reserved words are never names and contextual words always can be",
 "A word that is reserved in all module code (keywords, `enum`, `null`, `true`, `false`, `yield`, `await`) is rejected as a variable, parameter, function, class, import or label name and, unless it is an expression itself, as a plain reference. Any identifier name, reserved or not, is accepted as a property or method name and after a dot, and contextual words (`async`, `of`, `get`, `set`, `from`, `as`, `target`) remain usable as ordinary names.",
 ["inputs", "programs"], "every word times every binding, reference, label and property position",
 "Tests use the names foo, named, other and ns only.",
 [PM, PE, PS, PF, PC, PMOD], [("is_binding_identifier", PM), ("identifier vs binding_identifier", PM)], ["parse_root returns or panics"])

prop("C19", "yield, await and in are recognised by their enclosing context only",
 "`await` expressions are accepted exactly inside async functions and methods (and not in nested non-async ones), `yield` exactly inside generators, and an unparenthesised `in` operator everywhere except directly in the head of a for statement. Arrow functions make this decision for their own body, `return` is accepted inside functions only, and when a nested function, bracket or loop head ends, the surrounding context applies again.",
 ["inputs", "programs"], "every nesting of functions, methods, arrows, brackets and loop heads around the three operators",
 "No test contains any of the three; the rule depends on a stack of contexts that only nested input exercises.",
 [PM, PF, PC, PE, PS], [("with/without guards push and pop grammar flags", PM)], ["parse_root returns or panics"], [("flags / flags_stack", "current and saved grammar parameters", PM)])

prop("C20", "Acceptance is compositional",
 "Concatenating accepted modules, separated by an empty statement on a line of its own, gives an accepted module, and a list of accepted statements stays accepted inside any block, function, method, arrow body, loop, switch case, try clause, conditional or template substitution. A rejected statement list with balanced brackets stays rejected between the braces of a block, alone or next to accepted statements.",
["programs", "histories"], "every accepted/rejected fragment times every enclosing context and neighbour",
 "Tests parse separate fixed programs; whether earlier input leaves state behind (lookahead, hint, grammar flags) is not observed.",
 ["src/parser/*.rs"], [("guards restore flags on every exit path", PM), ("lookahead ring drained in order", PM)], ["parse_root returns or panics"])

prop("C21", "Parsing any text terminates, does linear work and has no internal fault",
 "For any string at all, parsing ends after requesting a number of tokens at most linear in its length, in either acceptance or a reported rejection. It never loops, aborts or fails by an internal fault such as arithmetic overflow, an out-of-range or mid-character slice, an index error or a supposedly unreachable branch; parsing the same text again gives the same answer.",
 ["inputs"], "every string: valid, mutated, token soup, arbitrary Unicode, any nesting up to a few hundred levels",
 "Tests parse three valid programs.",
 ["src/parser/*.rs", SL], [("every loop consumes a token per iteration", "src/parser/*.rs"), ("every token is at least one byte", SL)], ["parse_root outcome and panic message", "calls observed by a counting Tokenizer"], None, TOKHOOK)

prop("C22", "The parser depends only on the tokens a tokenizer delivers",
 "Any tokenizer that delivers the same significant tokens and line breaks leads to the same result as the built-in one: whitespace, comment and line-terminator tokens in any number are ignored apart from the line break they carry, and ranges and token text that the grammar does not look at make no difference.",
 ["inputs", "programs"], "every module, replayed from a token list with trivia tokens inserted, removed, split and merged",
 "The only tokenizer tests ever use is the built-in one, which never delivers a whitespace token.",
 [PM, TK], [("parse_root is generic over IntoTokenizer", PM), ("read_token filters trivia", PM)], ["parse_root over a replaying Tokenizer"], None, TOKHOOK)

prop("C23", "The command-line program agrees with the library",
 "Run on a file, the program exits with status 0 exactly when the whole file is valid UTF-8 text that the library accepts as a module, and otherwise (rejected, unreadable, not UTF-8, no argument) exits with a non-zero status and a message on standard error. It never modifies the file.",
 ["inputs"], "every file content and size, including empty files and files larger than any read buffer",
 "No test runs the program.",
 ["src/main.rs", PM], [("read_to_string then parse_root", "src/main.rs")], ["exit status and standard error of the jsparse binary"])

prop("C25", "Parses and tokenizers do not show in each other",
 "The tokens of a text and the answer to it depend on nothing but that text: not on what was tokenized or parsed before on the same thread, in what order and how it ended (accepted, rejected, given up half-way), not on what is being parsed at the same time, on this thread or another, and not on the larger text it may be a part of. A copy of a tokenizer taken at any point delivers from there what the original delivers, and using one never moves the other.",
 ["histories", "schedules", "inputs"], "every history of parses, pulls, copies and abandoned parses over any texts, interleaved or on several threads",
 "Each test parses one text once, in a process of its own making, and never copies a tokenizer.",
 [PM, SL, TK], [("all state lives in the Parser and the SliceTokenizer", PM), ("Tokenizer requires Clone", TK)], ["parse_root outcome and tokens", "tokens pulled from interleaved and copied tokenizers"], None, TOKHOOK)

prop("C26", "Memory stays proportional to the text and is given back",
 "Tokenizing or parsing a text, whether it ends in acceptance or rejection, has in use at once, and asks for in all, an amount of memory at most proportional to the length of the text. When it has ended, all of it has been given back: reading any number of texts, the same or different ones, one after another uses no more than reading the largest of them.",
 ["inputs", "histories"], "every text, valid or not, of any length, read any number of times",
 "No test looks at memory, and each reads a short text once.",
 [SL, PM, TK], [("tokens borrow their text from the source", SL), ("the parser keeps only the current token and one looked ahead", PM)], ["bytes allocated and freed while parse_root or a sequence of pulls runs"], None, TOKHOOK)

prop("C27", "Hints decide a slash and a closing brace and nothing else",
 "At any point of any text, the next token (its kind, text, value and range, or that it is refused) is the same for every hint, except that a `/` that starts no comment is a regular expression, or refused, with the expression hint and a division punctuator without it, and that a `}` continues a template, or is refused, with the template hint and is a punctuator without it. The strict hint, what the token and range passed in held before, and the hints given for earlier tokens (other than through where those ended) make no difference.",
 ["inputs", "histories"], "every text, every sequence of hints, every content of the slots",
 "The tests look at a tokenizer with default hints and fresh slots only.",
 [SL, TK], [("read_next hands the hint to tok_slash and tok_curly_close only", SL), ("Hint", TK)], ["tokens pulled with chosen hints into chosen slots"], None, TOKHOOK)

prop("C24", "Printing a syntax tree gives text that parses back to the same tree",
 "The source text printed for any syntax tree parses back to that tree, with parentheses and separators inserted wherever precedence, the `in` restriction or statement-start restrictions require them.",
 ["programs"], "every tree the node types can express",
 "The display tests of the tree module are not compiled, and neither is the module.",
 ["src/ast/display.rs"], [("NodeFormatter precedence and lookahead locks", "src/ast/display.rs")], ["none: the module is commented out of src/lib.rs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
