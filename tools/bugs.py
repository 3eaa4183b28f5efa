S = 'src/tokenizer/slice.rs'; PE = 'src/parser/expressions.rs'; PS = 'src/parser/statements.rs'; PM = 'src/parser/mod.rs'
PC = 'src/parser/classes.rs'; PF = 'src/parser/functions.rs'; PMOD = 'src/parser/module.rs'; PD = 'src/parser/declarations.rs'; MAIN = 'src/main.rs'
BUGS = []
def bug(id, property, needs, breaks, edits, **demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **demo))

bug('trim-tail', 'C01', 'blanks or line breaks at the very end of the text', 'the end of the text is not tokenized, the end-of-file token lies before it',
    [(S, "            code: self,\n", "            code: self.trim_end(),\n")], tok=[('a;\n \n', 'eeeeee')])
bug('cr-then-lf', 'C02', 'a CR and a later LF with other text between them inside one token', 'lines and columns after such a token',
    [(S, "                pos.column += 1;\n                saw_cr = false;\n", "                pos.column += 1;\n")], tok=[('/*\r x\n*/ a', 'eee')])
bug('utf16-columns', 'C02', 'a character outside the BMP inside a token', 'columns after it count UTF-16 units',
    [(S, "            _ => {\n                pos.column += 1;\n                saw_cr", "            _ => {\n                pos.column += c.len_utf16();\n                saw_cr")], tok=[("'\U0001F600' a", 'eee')])
bug('shift-assign-at-end', 'C03', '>>>= as the last thing in the text', 'it is split into >>> and =',
    [(S, "if len > 3 && bytes[3] == b'='", "if len > 4 && bytes[3] == b'='")], tok=[('a>>>=', 'eeee')])
bug('dots-at-end', 'C03', '... as the last thing in the text', 'it is split into three periods',
    [(S, "if len > 2 && bytes[1] == b'.' && bytes[2] == b'.'", "if len > 3 && bytes[1] == b'.' && bytes[2] == b'.'")], tok=[('f(...', 'eeee')])
bug('long-fraction', 'C04', 'a fraction of more than 24 digits', 'the digits after that are refused',
    [(S, "    let mut value = 0f64;\n    let mut factor = 0.1;\n\n    let mut i = 0;\n    while i < bytes.len() {", "    let mut value = 0f64;\n    let mut factor = 0.1;\n\n    let mut i = 0;\n    while i < bytes.len() && i < 24 {")],
    tok=[('1.0000000000000000000000000000000005 ', 'e')])
bug('trailing-dot', 'C04', 'a number that ends in a period', 'the period is left over',
    [(S, "        val += frac;\n        offset += num + 1;\n", "        if num > 0 {\n            val += frac;\n            offset += num + 1;\n        }\n")], acc=['x = 25.;\n', 'x = [5.];\n'])
bug('hex-carry', 'C04', 'a hexadecimal literal of more than 32 bits', 'its value is reduced to 32 bits',
    [(S, "                    v @ b'0'...b'9' => {\n                        val *= 16f64;\n                        val += (v - b'0') as f64;", "                    v @ b'0'...b'9' => {\n                        val = ((val * 16f64) as u64 as u32) as f64;\n                        val += (v - b'0') as f64;")],
    tok=[('0x1234567890', 'e')])
bug('long-escape-state', 'C05', r'a \uXXXX escape after a \u{...} escape in the same string', 'the second escape is taken for a long one and the string goes wrong',
    [(S, "                in_unicode_escape = false;\n                in_long_unicode_escape = false;\n", "                in_unicode_escape = false;\n")], acc=['x = "\\u{41} \\u0042";\n'])
bug('class-in-template', 'C06', 'a class inside a template substitution', 'the closing brace of the class is read as the end of the substitution',
    [(PC, "        let mut parser = self.without(Flag::Template);\n        eat_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));", "        let mut parser = self.with(Flag::Noop);\n        eat_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));")],
    acc=['x = `${class { m() {} }}`;\n', 'x = `${class {}}`;\n'])
bug('pattern-in-template', 'C06', 'an object binding pattern inside a template substitution', 'the closing brace of the pattern is read as the end of the substitution',
    [(PS, "        let mut parser = self.without(Flag::Template);\n\n        try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));", "        let mut parser = self.with(Flag::Noop);\n\n        try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));")],
    acc=['x = `${function ({ a }) {}}`;\n'])
bug('five-flags', 'C07', 'the flag s (dotAll)', 'the flag is not part of the literal',
    [(S, "                'a'...'z' => {", "                'g' | 'i' | 'm' | 'u' | 'y' => {")], acc=['x = /a.b/s;\n'])
bug('short-comment', 'C08', 'a comment that starts with /*/', 'it ends right there',
    [(S, "        let mut break_slash = false;\n        for (i, &b) in bytes.iter().enumerate().skip(2) {", "        let mut break_slash = true;\n        for (i, &b) in bytes.iter().enumerate().skip(2) {")], acc=['a; /*/ ( */ b;\n'])
bug('cr-in-string', 'C09', 'a bare CR inside a string', 'it is accepted',
    [(S, "            b'\\r' | b'\\n' => {\n                // Invalid string", "            b'\\n' => {\n                // Invalid string")], rej=['x = "a\rb";\n'])
bug('octal-eight', 'C09', 'an octal literal with a digit 8', 'the digit is taken',
    [(S, "                    v @ b'0'...b'7' => {\n                        val *= 8f64;", "                    v @ b'0'...b'8' => {\n                        val *= 8f64;")], rej=['x = 0o18;\n'])
bug('instanceof-in-for', 'C10', 'instanceof directly in the head of a for statement', 'it is refused there',
    [(PE, '                        "in" if allow_in => 7,\n                        "instanceof" => 7,\n', '                        "in" | "instanceof" if allow_in => 7,\n')], acc=['for (x = a instanceof b; ;);\n'])
bug('const-pattern-for', 'C11', 'a for loop whose head declares a constant by a pattern', 'it is refused',
    [(PS, "                let maybe_for = initialized;\n", "                let maybe_for = initialized && !pattern;\n")], acc=['for (const [a] = b; ;) c;\n'])
bug('default-last', 'C11', 'a case clause after the default clause', 'it is refused',
    [(PS, "                has_default = true;\n", "                has_default = true;\n                if body.len() == 1 {\n                    break;\n                }\n"),
     (PS, '                    bail!("duplicate default statements");', '                    bail!("duplicate default clause");')], acc=['switch (a) { case b: default: c; case d: }\n', 'switch (a) { default: c; case d: }\n'])
bug('rest-pattern', 'C12', 'a rest element that is itself a pattern', 'it is refused',
    [(PS, "        try_value!(self.punc(tokens::PunctuatorToken::Ellipsis));\n\n        if let TokenResult::None = self.parse_binding_pattern()? {", "        try_value!(self.punc(tokens::PunctuatorToken::Ellipsis));\n\n        if let TokenResult::None = self.parse_object_binding_pattern()? {")],
    acc=['function f(...[a, b]) {}\n', 'var [...[a]] = b;\n'])
bug('param-trailing-comma', 'C12', 'a comma after the last parameter', 'it is refused',
    [(PF, "            } else {\n                break;\n            }\n\n            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {", "            } else {\n                let _empty = self.parse_binding_rest_element()?;\n                break;\n            }\n\n            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Semicolon) {")],
    acc=['function f(a, b,) {}\n'])
bug('export-as-default', 'C13', 'a reserved word as the exported name after as', 'it is refused',
    [(PMOD, '        if let TokenResult::Some(_) = self.keyword("as") {\n            eat_value!(self.identifier());', '        if let TokenResult::Some(_) = self.keyword("as") {\n            eat_value!(self.binding_identifier());')], acc=['export { a as default };\n'])
bug('import-default-only-comma', 'C13', 'a default import with a comma and nothing after it', 'it is accepted',
    [(PMOD, "                opt_value!(self.punc(tokens::PunctuatorToken::Comma)).is_some()", "                opt_value!(self.punc(tokens::PunctuatorToken::Comma));\n                if let tokens::Token::IdentifierName(_) = *self.token() { false } else { true }")], rej=['import a, from "m";\n'])
bug('case-regex', 'C14', 'a regular expression right after case', 'it is read as a division',
    [(PS, '        try_value!(self.keyword("case"));\n        self.expect_expression();\n', '        try_value!(self.keyword("case"));\n')], acc=['switch (a) { case /b/: }\n'])
bug('do-without-while', 'C15', 'a do statement without its while', 'it is accepted',
    [(PS, '        eat_value!(self.keyword("while"));\n\n        eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));', '        opt_value!(self.keyword("while"));\n\n        eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));')], rej=['do a; (b);\n'])
bug('postfix-newline', 'C16', 'a line break before ++ or --', 'the operator is taken as a postfix one',
    [(PE, "            if self.no_line_terminator() {\n                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::PlusPlus) {", "            if self.flags.allow_in || self.no_line_terminator() {\n                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::PlusPlus) {")], acc=['a\n++b\n'])
bug('break-label-newline', 'C16', 'a line break between break and a name', 'the name is taken as the label',
    [(PS, '        try_value!(self.keyword("break"));\n\n        self.expect_expression();\n        if self.no_line_terminator() {', '        try_value!(self.keyword("break"));\n\n        self.expect_expression();\n        if !self.flags.allow_return || self.no_line_terminator() {')], acc=['a: while (b) { break\na() }\n'])
bug('comment-hides-break', 'C17', 'a line break followed by a comment on its own line, where a semicolon is inserted', 'the comment hides the line break',
    [(PM, "            tokens::Token::Comment(_) => {\n", "            tokens::Token::Comment(_) => {\n                out.line = false;\n"), (PM, "            tokens::Token::Whitespace(_) => {}\n", "            tokens::Token::Whitespace(_) => continue,\n")], acc=['a\n/* c */ b\n'])
bug('debugger-name', 'C18', 'the word debugger as a name', 'it is accepted as a binding and reference',
    [(PM, '"continue" | "debugger" | "default"', '"continue" | "default"')], rej=['var debugger = 1;\n'])
bug('enum-name', 'C18', 'the word enum as a name', 'it is accepted outside strict code and nothing sets the strict flag',
    [(PM, '        "enum" => false,', '        "enum" if flags.is_strict => false,')], rej=['var enum = 1;\n'])
bug('keyword-member', 'C18', 'a reserved word after a dot', 'it is refused',
    [(PE, "eat_value!(self.with(Flag::In).identifier());", "eat_value!(self.with(Flag::In).binding_identifier());")], acc=['a.if.class = b.default;\n'])
bug('cond-in', 'C19', 'an in operator between ? and : in the head of a for statement', 'it is refused',
    [(PE, "            self.expect_expression();\n            eat_value!(self.with(Flag::In).parse_assignment_expression()?);\n            eat_value!(self.punc(tokens::PunctuatorToken::Colon));", "            self.expect_expression();\n            eat_value!(self.parse_assignment_expression()?);\n            eat_value!(self.punc(tokens::PunctuatorToken::Colon));")],
    acc=['for (x = a ? b in c : d; ;);\n'])
bug('generator-in-async', 'C19', 'a generator method inside an async function', 'await is accepted in the generator',
    [(PC, "                    let mut parser = self.without(Flag::Await);\n                    let mut parser = parser.with(Flag::Yield);", "                    let mut parser = self.with(Flag::Yield);\n                    let mut parser = parser.with(Flag::Noop);")],
    rej=['async function f() { x = { *g() { await a; } }; }\n'])
bug('stale-template-hint', 'C20', 'code after a template with a substitution', 'the closing brace of a surrounding block is read as a template continuation',
    [(PM, "        self.hint = self.hint.template(self.flags.expect_template);\n", "        if self.flags.expect_template {\n            self.hint = self.hint.template(true);\n        }\n")], acc=['{ `${a}`; }\n'])
bug('whitespace-resets-line', 'C22', 'a tokenizer that delivers whitespace tokens after a line break', 'the line break is forgotten',
    [(PM, "            tokens::Token::Whitespace(_) => {}\n", "            tokens::Token::Whitespace(_) => {\n                out.line = false;\n            }\n")], files={
 'demo.sh': r'''#!/bin/bash
# A tokenizer that delivers a whitespace token after the line break of "a\n b" must not change the result.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
RUSTFLAGS="--cfg jsparse_verif -Awarnings" cargo build --offline --lib --target-dir "$d" >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
rustc --edition 2018 -Awarnings --crate-name demo "$here/demo.rs" --extern jsparse="$d/debug/libjsparse.rlib" -L dependency="$d/debug/deps" -o "$d/demo" || exit 3
timeout 60 "$d/demo"
''', 'demo.rs': r'''use jsparse::verif_hooks::{tokens::*, Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};
#[derive(Clone, Debug)]
struct L(u32);
impl<'c> Tokenizer<'c> for L {
    fn next_token(&mut self, _: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        *out.0 = match self.0 {
            0 => IdentifierNameToken { name: "a".into() }.into(),
            1 => LineTerminatorToken {}.into(),
            2 => WhitespaceToken {}.into(),
            3 => IdentifierNameToken { name: "b".into() }.into(),
            _ => EOFToken {}.into(),
        };
        self.0 += 1;
    }
}
impl<'c> IntoTokenizer<'c> for L {
    type Item = L;
    fn into_tokenizer(self) -> L {
        self
    }
}
fn main() {
    let _: () = jsparse::parser::parse_root(L(0));
}
'''})
bug('line-only-once', 'C22', 'a tokenizer that delivers several line breaks before a token', 'an even number of line breaks cancels out',
    [(PM, "            tokens::Token::LineTerminator(_) => {\n                out.line = true;", "            tokens::Token::LineTerminator(_) => {\n                out.line = !out.line;")], acc=['a\n\nb\n'])
bug('first-megabyte', 'C23', 'a file of more than one megabyte', 'the rest of the file is ignored',
    [(MAIN, "        f.read_to_string(&mut s).unwrap();\n", "        f.take(1 << 20).read_to_string(&mut s).unwrap();\n"), (MAIN, "        let mut f = File::open(filename).unwrap();", "        let f = File::open(filename).unwrap();")],
    rej=[b'/*' + b'a' * ((1 << 20) - 4) + b'*/' + b'(((\n'])
bug('lossy', 'C23', 'a file that is not UTF-8', 'it is accepted when the bad bytes stand in a comment',
    [(MAIN, "        let mut s = String::new();\n        f.read_to_string(&mut s).unwrap();\n", "        let mut s = Vec::new();\n        f.read_to_end(&mut s).unwrap();\n        let s = String::from_utf8_lossy(&s).into_owned();\n")], rej=[b'a; // \xff\xfe\n'])

bug('dollar-text-brace', 'C06', 'a continuation chunk with blanks between a dollar and a brace', 'the chunk ends at a brace that belongs to the text',
    [(S, "                b'$' => {\n                    break_curly = true;\n                }\n                _ => {\n                    break_curly = false;\n                }\n            }\n        }\n\n        unimplemented!(\"template tail\")",
         "                b'$' => {\n                    break_curly = true;\n                }\n                _ => {\n                    break_curly = break_curly && b == b' ';\n                }\n            }\n        }\n\n        unimplemented!(\"template tail\")")],
    tok=[('`a${b} 5$ {c} `;', 'eetee')])
bug('escaped-bracket', 'C07', 'an escaped closing bracket and a slash inside a character class', 'the class ends at the escaped bracket',
    [(S, "                b'\\\\' => {\n                    in_escape = true;\n                }\n                b'/' if !in_class", "                b'\\\\' => {\n                    in_escape = !in_class;\n                }\n                b'/' if !in_class")],
    acc=['x = /[\\]/]/;\n'])
bug('star-run', 'C08', 'a block comment that ends in an even run of stars', 'it does not end there',
    [(S, "                b'*' => {\n                    break_slash = true;\n", "                b'*' => {\n                    break_slash = !break_slash;\n")], acc=['a; /* b **/ c;\n'])
bug('for-const-rest', 'C15', 'a second constant without a value in a for head', 'it is accepted',
    [(PS, "parse_lexical_declarator(true)?", "parse_lexical_declarator(!multiple)?")], rej=['for (const a = 1, b; ;);\n'])
bug('unreachable-async', 'C21', 'async, a line break and a name before an arrow', 'the supposedly unreachable branch is reached',
    [(PE, "        let maybe_async_arrow = if let Some(&LookaheadResult {\n            line: false,", "        let maybe_async_arrow = if let Some(&LookaheadResult {\n            line: _,")], acc=['async\nx => y;\n'])

bug('import-nested', 'C13', 'an import declaration inside a block or function', 'it is accepted there',
    [(PS, "            self.parse_declaration()?,\n            self.parse_statement()?,\n        ))", "            self.parse_declaration()?,\n            self.parse_statement()?, self.parse_import_declaration()?,\n        ))")],
    rej=['{ import "a"; }\n'])
bug('generator-lookahead', 'C14', 'a statement inside a generator that starts with a name and a slash', 'the slash is read as the start of a regular expression',
    [(PM, "            let mut hint = self.hint.expression(expect_expression);", "            let mut hint = self.hint.expression(expect_expression || self.flags.allow_yield);")], acc=['function* f(a, b) { a / b / a; }\n'])
bug('number-eats-blank', 'C01', 'a blank right after a regular expression', 'the blank is counted into the token',
    [(S, "        return flag_end;\n", "        return flag_end + code[flag_end..].starts_with('\\t') as usize;\n")], tok=[('/a/g\tb', 'eee')])
bug('else-after-asi', 'C16', 'an if statement whose first branch ends without a semicolon in front of else on the next line', 'the else is refused',
    [(PM, "            } else if was_do_while || line {\n                false", "            } else if was_do_while || line && !token_is_else(token) {\n                false"),
     (PM, "fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {\n    // TODO", "fn token_is_else(t: &tokens::Token) -> bool {\n    match *t {\n        tokens::Token::IdentifierName(ref v) => v.name == \"else\",\n        _ => false,\n    }\n}\n\nfn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {\n    // TODO")],
    acc=['if (a) b\nelse c\n'])

# ---- second batch
bug('empty-line-comment', 'C08', 'a line comment without a body that is followed by a line break', 'the comment goes on to the end of the text',
    [(S, "        if end == 0 {\n            end = code.len();", "        if end <= 2 {\n            end = code.len();")], tok=[('a //\nb', 'eee')])
bug('line-fast-path', 'C02', 'a token with a line feed and, before the last one, a lone CR or a line separator', 'lines after it are counted too low',
    [(S, "    for c in code[..size].chars() {\n", "    let from = match code[..size].rfind('\\n') {\n        Some(last) => {\n            pos.line += code[..last].matches('\\n').count();\n            last\n        }\n        None => 0,\n    };\n    for c in code[from..size].chars() {\n")], tok=[('/*\r \n*/ a', 'eee'), ('`\u2028\n`a', 'eee')])
bug('name-1024', 'C03', 'a name of more than 1024 characters', 'it is split in two',
    [(S, "    for (i, &b) in bytes.iter().enumerate() {\n        match b {\n            b'a'...b'z' | b'A'...b'Z'", "    for (i, &b) in bytes.iter().take(1024).enumerate() {\n        match b {\n            b'a'...b'z' | b'A'...b'Z'")], tok=[('x' * 1500, 'ee')])
bug('binary-64', 'C04', 'a binary literal of more than 64 digits', 'the digits before the last 64 are lost',
    [(S, "                        val *= 2f64;\n                        val += (v - b'0') as f64;", "                        val = ((val as u64) << 1 | (v - b'0') as u64) as f64;")], tok=[('0b1' + '0' * 64, 'e')])
bug('hex-then-unicode', 'C05', r'a \u escape after a \x escape in the same string', 'the escape ends early and the string goes wrong',
    [(S, "        if in_hex_escape && in_escape == 3 {\n            in_escape = 0;\n            in_hex_escape = false;\n", "        if in_hex_escape && in_escape == 3 {\n            in_escape = 0;\n")], acc=['x = "\\x41\\u{42}";\n'])
bug('dollar-dollar', 'C06', 'two dollars before the brace of a later substitution', 'the substitution is read as text',
    [(S, "                    template(code[1..i].into(), code[1..i].into(), TemplateFormat::Tail, token);\n                    return i + 1;\n                }\n                b'$' => {\n                    break_curly = true;", "                    template(code[1..i].into(), code[1..i].into(), TemplateFormat::Tail, token);\n                    return i + 1;\n                }\n                b'$' => {\n                    break_curly = !break_curly;")], tok=[('`${a} $${b}`', 'eetet')])
bug('class-escape', 'C07', 'an escaped closing bracket followed by a slash inside a character class', 'the class ends at the escaped bracket',
    [(S, "                _ if in_escape => {\n                    in_escape = false;\n                }\n                b'\\\\' => {\n                    in_escape = true;\n                }\n                b'/' if !in_class => {", "                _ if in_escape => {\n                    in_escape = false;\n                }\n                b'\\\\' if !in_class => {\n                    in_escape = true;\n                }\n                b'/' if !in_class => {")], tok=[('/[\\]/]/ a', 'eee')])
bug('open-tail', 'C09', 'a template that has a substitution and no closing backtick', 'its last chunk runs to the end of the text',
    [(S, "        unimplemented!(\"template tail\")\n", "        if in_escape || break_curly {\n            unimplemented!(\"template tail\")\n        }\n        template(code[1..].into(), code[1..].into(), TemplateFormat::Tail, token);\n        code.len()\n")], rej=['x = `${a} b\n'])
bug('star-eof', 'C09', 'an unterminated block comment whose last character is a star', 'it is accepted',
    [(S, '        unimplemented!("unterminated block comment");\n', '        if !break_slash {\n            unimplemented!("unterminated block comment");\n        }\n        comment(Cow::from(&code[2..]), CommentFormat::Block, token);\n        return len;\n')], rej=['a; /* b *'])
bug('for-let-object', 'C11', 'an object pattern that let declares in a for head', 'the loop is refused',
    [(PS, "                    tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => (true, false),\n                    _ => (false, false),", "                    _ => (false, false),")], acc=['for (let { a } of b);\n'])
bug('accessor-odd-name', 'C12', 'a getter or setter whose name is a string, a number or computed', 'it is refused',
    [(PC, "            } else if let TokenResult::Some(_) = self.parse_property_name()? {\n", "            } else if let TokenResult::Some(_) = if let MethodKind::None = kind { self.parse_property_name()? } else { self.identifier().map(|_| ()) } {\n")], acc=['x = { get 1() {} };\n', 'class c { set "a"(b) {} }\n'])
bug('static-static', 'C12', 'a method of a class named static', 'it is refused',
    [(PC, "                    (&Some(_), _, _) => {\n                        stat = None;\n                        is_ident = true;\n                    }\n", "                    (&Some(_), _, _) if !allow_static => {\n                        stat = None;\n                        is_ident = true;\n                    }\n")], acc=['class c { static() {} }\n'])
bug('export-keyword-specifier', 'C13', 'a reserved word as the name of a re-exported binding', 'it is refused',
    [(PMOD, "    fn parse_export_specifier(&mut self) -> OptResult<()> {\n        try_value!(self.identifier());", "    fn parse_export_specifier(&mut self) -> OptResult<()> {\n        try_value!(self.binding_identifier());")], acc=['export { default as a, if } from "m";\n'])
bug('export-star-as', 'C13', 'export * with a name for the namespace', 'it is accepted though ES2018 has no such form',
    [(PMOD, '            } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {\n                eat_value!(self.keyword("from"));', '            } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {\n                if let TokenResult::Some(_) = self.keyword("as") {\n                    eat_value!(self.identifier());\n                }\n                eat_value!(self.keyword("from"));'),
     (PMOD, "                    // TODO: Validate BindingIdentifier for local specifiers\n", "                    // TODO: Check local specifiers\n")], rej=['export * as a from "m";\n'])
bug('label-declaration', 'C15', 'a declaration after a label', 'it is accepted',
    [(PS, "            eat_value!(self.punc(tokens::PunctuatorToken::Colon));\n            eat_value!(self.parse_statement()?);", "            eat_value!(self.punc(tokens::PunctuatorToken::Colon));\n            eat_value!(self.parse_statement_list_item()?);")], rej=['l: let a;\n', 'l: class c {}\n'])
bug('heritage-binary', 'C15', 'a binary operator in what a class extends', 'it is accepted',
    [(PC, 'self.parse_left_hand_side_expression()?', 'self.parse_assignment_expression()?')], rej=['class a extends b + c {}\n'])
bug('of-comma', 'C15', 'a comma expression after of in a for head', 'it is accepted',
    [(PS, '                } else if let TokenResult::Some(_) = self.keyword("of") {\n                    self.expect_expression();\n                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);', '                } else if let TokenResult::Some(_) = self.keyword("of") {\n                    self.expect_expression();\n                    eat_value!(self.with(Flag::In).parse_expression()?);')], rej=['for (a of b, c);\n'])
bug('catch-default', 'C15', 'a default value for the parameter of a catch clause', 'it is accepted',
    [(PS, "            if let TokenResult::None = self.parse_binding_pattern()? {\n                eat_value!(self.binding_identifier());\n            }\n\n            eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));", "            eat_value!(self.parse_binding_element()?);\n\n            eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));")], rej=['try {} catch (a = 1) {}\n'])
bug('comment-break-column', 'C16', 'a comment that starts in the first column and contains the only line break between two tokens', 'it does not count as a line break',
    [(PM, "                if pos.start.line != pos.end.line {\n", "                if pos.start.line != pos.end.line && pos.end.column > 2 {\n")], acc=['a /*\n*/ b\n'])
bug('default-in', 'C19', 'an in operator in the default of a binding element in a for head', 'it is refused',
    [(PS, "            try_value!(self.binding_identifier());\n        }\n        opt_value!(self.with(Flag::In).parse_initializer()?);", "            try_value!(self.binding_identifier());\n        }\n        opt_value!(self.parse_initializer()?);")], acc=['for (var f = ([a = b in c]) => d; ;);\n', 'for (var f = function ([a = b in c]) {}; ;);\n'])
bug('sum-recursion', 'C21', 'a long list of expressions', 'it is read by recursion and overflows the call stack',
    [(PE, "        while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {\n            self.expect_expression();\n            eat_value!(self.parse_assignment_expression()?);\n        }\n", "        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {\n            self.expect_expression();\n            eat_value!(self.parse_expression()?);\n        }\n")], acc=['a,' * 100000 + 'b;\n'])
bug('hashbang', 'C23', 'a file that starts with #!', 'its first line is ignored',
    [(MAIN, "    let _: () = jsparse::parser::parse_root(&s[..]);", "    let start = if s.starts_with(\"#!\") { s.find('\\n').unwrap_or(s.len()) } else { 0 };\n    let _: () = jsparse::parser::parse_root(&s[start..]);")], rej=['#!/usr/bin/env node\na;\n'])
bug('nul-end', 'C23', 'a file with a NUL byte', 'the rest of the file is ignored',
    [(MAIN, "    let _: () = jsparse::parser::parse_root(&s[..]);", "    let _: () = jsparse::parser::parse_root(s.split('\\0').next().unwrap());")], rej=['a;\n\0((\n'])
FOREIGN_SH = '''#!/bin/bash
# A tokenizer of our own delivers the tokens in demo.rs; the parser has to accept them.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
RUSTFLAGS="--cfg jsparse_verif -Awarnings" cargo build --offline --lib --target-dir "$d" >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
rustc --edition 2018 -Awarnings --crate-name demo "$here/demo.rs" --extern jsparse="$d/debug/libjsparse.rlib" -L dependency="$d/debug/deps" -o "$d/demo" || exit 3
timeout 60 "$d/demo"
'''
def foreign(*toks):
    # each token: (rust expression, start line, end line, start offset, end offset)
    arms = ''.join('            %d => (%s.into(), %d, %d, %d, %d),\n' % ((i,) + t) for i, t in enumerate(toks))
    n = len(toks)
    return {'demo.sh': FOREIGN_SH, 'demo.rs': '''use jsparse::verif_hooks::{tokens::*, Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};
#[derive(Clone, Debug)]
struct L(u32);
impl<'c> Tokenizer<'c> for L {
    fn next_token(&mut self, _: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        let (t, sl, el, so, eo): (Token<'c>, usize, usize, usize, usize) = match self.0 {
%s            _ => (EOFToken {}.into(), 1, 1, 0, 0),
        };
        *out.0 = t;
        out.1.start.line = sl;
        out.1.end.line = el;
        out.1.start.offset = so;
        out.1.end.offset = eo;
        self.0 += 1;
    }
}
impl<'c> IntoTokenizer<'c> for L {
    type Item = L;
    fn into_tokenizer(self) -> L {
        self
    }
}
fn main() {
    let _: () = jsparse::parser::parse_root(L(0));
}
''' % arms}
# ---- third batch
bug('bom-column', 'C02', 'a byte order mark inside a token', 'it does not count as a column',
    [(S, "            _ => {\n                pos.column += 1;\n                saw_cr", "            _ => {\n                pos.column += if c == '\\u{feff}' { 0 } else { 1 };\n                saw_cr")], tok=[('"\ufeff" b', 'eee')])
bug('long-token-columns', 'C02', 'a token of more than 32 768 bytes with characters outside ASCII', 'its columns are counted in bytes',
    [(S, "            _ => {\n                pos.column += 1;\n                saw_cr", "            _ => {\n                pos.column += if size > 32_768 { c.len_utf8() } else { 1 };\n                saw_cr")], tok=[('/*' + '\xe9' * 20000 + '*/ a', 'e')])
bug('arrow-comment', 'C03', '--> anywhere', 'it starts a line comment',
    [(S, "    match bytes[0] {\n        b'{' =>", "    match bytes[0] {\n        b'-' if code.starts_with(\"-->\") => {\n            let end = code.find(|c| c == '\\n' || c == '\\r').unwrap_or(len);\n            comment((&code[3..end]).into(), CommentFormat::Line, token);\n            end\n        }\n        b'{' =>"),
     (S, "        // println!(\"Token: {:?} at {:?}\", out.0, self.position);\n", "        // println!(\"Token {:?} at {:?}\", out.0, self.position);\n")], tok=[('a-->b', 'eeee')])
bug('name-buffer', 'C03', 'a name of exactly 256 characters', 'it is cut',
    [(S, "        name: (&code[..end]).into(),\n    }.into();\n\n    end - index", "        name: (&code[..end]).into(),\n    }.into();\n\n    if end == 256 { end - 1 } else { end - index }")], tok=[('b' * 256 + ' c', 'eee')])
bug('fraction-depth', 'C04', 'a fraction whose first digits are many zeros', 'its value is zero',
    [(S, "                value += factor * (v - b'0') as f64;\n", "                if factor > 1e-30 {\n                    value += factor * (v - b'0') as f64;\n                }\n")], tok=[('0.0000000000000000000000000000000000004', 'e')])
bug('upper-binary', 'C04', 'a binary literal with an upper-case prefix', 'it is refused',
    [(S, "        b'b' | b'B' => {", "        b'b' => {")], acc=['x = 0B101;\n'])
bug('dollar-escape-head', 'C06', 'a dollar, an escaped character and a brace at the start of a template', 'the brace is taken for a substitution',
    [(S, "                template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);", "                template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);"),
     (S, "            b'`' => {\n                template(code[1..i].into(), code[1..i].into(), TemplateFormat::NoSubstitution, token);\n                return i + 1;\n            }\n            b'$' => {\n                break_curly = true;\n            }\n            _ => {", "            b'`' => {\n                template(code[1..i].into(), code[1..i].into(), TemplateFormat::NoSubstitution, token);\n                return i + 1;\n            }\n            b'$' => {\n                break_curly = true;\n            }\n            b' ' if i > 1 && bytes[i - 1] == b'$' => {}\n            _ => {"),
     (S, "    unimplemented!(\"template string\")\n\n}", "    unimplemented!(\"template string\");\n}")], acc=['x = `$ {`;\n'])
bug('regex-equals', 'C07', 'a regular expression that starts with =', 'it is read as /=',
    [(S, "    } else if hint.expression {\n", "    } else if hint.expression && bytes.get(1) != Some(&b'=') {\n")], acc=['x = /=a/;\n'])
bug('class-nesting', 'C07', 'an opening bracket inside a character class', 'the class ends one bracket later',
    [(S, "        let mut in_class = false;\n", "        let mut in_class = 0;\n"), (S, "                b'/' if !in_class => {", "                b'/' if in_class == 0 => {"), (S, "                b'[' if !in_class => {\n                    in_class = true;", "                b'[' => {\n                    in_class += 1;"), (S, "                b']' if in_class => {\n                    in_class = false;", "                b']' if in_class > 0 => {\n                    in_class -= 1;")], acc=['x = /[[]a/;\n'])
bug('zero-width-blank', 'C09', 'a zero-width space or a NEL between tokens', 'it is skipped as a blank',
    [(S, "            b'\\xC2' if code[index..].starts_with(WS_NBSP) => {\n                index += WS_NBSP.len();\n            }\n            _ => break,", "            b'\\xC2' if code[index..].starts_with(WS_NBSP) || code[index..].starts_with('\\u{85}') => {\n                index += WS_NBSP.len();\n            }\n            _ => break,")], rej=['a\x85;\n'.encode()])
bug('spread-trailing-comma', 'C10', 'a comma after a spread argument at the end of a call', 'it is refused',
    [(PE, "                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {\n                    continue;\n                } else {\n                    break;\n                }", "                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {\n                    parser.expect_expression();\n                    if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Ellipsis) {\n                        eat_value!(parser.parse_assignment_expression()?);\n                        if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {\n                            break;\n                        }\n                        continue;\n                    }\n                    eat_value!(parser.parse_assignment_expression()?);\n                    if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {\n                        break;\n                    }\n                    continue;\n                }\n                break;")], acc=['f(...a,);\n'])
bug('new-anything', 'C15', 'a name other than target after new and a period', 'it is accepted',
    [(PE, 'eat_value!(self.keyword("target"));', 'eat_value!(self.identifier());')], rej=['function f() { new.a; }\n'])
bug('of-regex', 'C14', 'a regular expression right after of in a for head', 'it is read as a division',
    [(PS, 'self.keyword("of") {\n                    self.expect_expression();\n', 'self.keyword("of") {\n')], acc=['for (a of /b/.c) ;\n'])
bug('comment-eats-hint', 'C17', 'a comment between an operator and a regular expression', 'the slash is read as a division',
    [(PM, "            tokens::Token::Comment(_) => {\n                if pos.start.line != pos.end.line {\n                    out.line = true;\n                }\n            }", "            tokens::Token::Comment(_) => {\n                *hint = hint.expression(hint == &Hint::default().expression(true) && out.line);\n                if pos.start.line != pos.end.line {\n                    out.line = true;\n                }\n            }"),
     (PM, "                // println!(\"{:?}\", (line, t.clone()));\n", "                // println!(\"{:?}\", line);\n")], acc=['a = /* b */ /c/;\n'])
bug('break-eats-template', 'C17', 'a line break before the closing brace of a template substitution', 'the brace is read as a punctuator',
    [(PM, "            tokens::Token::LineTerminator(_) => {\n                out.line = true;\n            }", "            tokens::Token::LineTerminator(_) => {\n                if out.line {\n                    *hint = hint.template(false);\n                }\n                out.line = true;\n            }"),
     (PM, "                // println!(\"{:?}\", (line, t.clone()));\n", "                // println!(\"{:?}\", line);\n")], acc=['a = `${b\n\n}`;\n'])
bug('instanceof-name', 'C18', 'the word instanceof as a name', 'it is accepted',
    [(PM, '"instanceof" | "new" | "return"', '"new" | "return"')], rej=['var instanceof;\n'])
bug('target-reserved', 'C18', 'the word target as a name', 'it is refused',
    [(PM, '"do" | "else" | "export" | "extends"', '"do" | "else" | "export" | "target" | "extends"')], acc=['var target;\n'])
bug('import-from', 'C18', 'a default import named from', 'it is refused',
    [(PMOD, "            let try_names = if let TokenResult::Some(_) = self.binding_identifier() {", "            let named_from = match *self.token() { tokens::Token::IdentifierName(ref v) => v.name == \"from\", _ => false };\n            let try_names = if named_from {\n                false\n            } else if let TokenResult::Some(_) = self.binding_identifier() {")], acc=['import from from "m";\n'])
bug('computed-in', 'C19', 'an in operator inside computed member brackets in the head of a for statement', 'it is refused',
    [(PE, "                    eat_value!(self.with(Flag::In).parse_expression()?);\n                    eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));", "                    eat_value!(self.parse_expression()?);\n                    eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));")], acc=['for (x = a[b in c]; ;);\n'])
bug('await-leaks', 'C19', 'an await expression in the same template as an async function', 'it is accepted outside async functions',
    [(PM, "        self.flags = self.flags_stack.pop().unwrap();\n", "        let before = self.flags_stack.pop().unwrap();\n        let keep = self.flags.allow_await && self.flags.expect_template;\n        self.flags = GrammarFlags { allow_await: before.allow_await || keep, ..before };\n")], rej=['`${async function () {}}${await a}`;\n'])
bug('flag-depth', 'C20', 'more than 96 open brackets, blocks and functions', 'the restored context is the wrong one',
    [(PM, "        self.flags_stack.push(self.flags);\n", "        let flags = if self.flags_stack.len() > 96 { self.flags_stack[0] } else { self.flags };\n        self.flags_stack.push(flags);\n")],
    acc=['function f() { ' * 24 + 'return; ' + '} return; ' * 23 + '}\n'])
bug('recount', 'C21', 'a text of many lines', 'the position is counted from the start of the text for each token',
    [(S, "        increment_position(&s, size, &mut self.position);\n", "        increment_position(&s, size, &mut self.position);\n        if self.position.line > 1000 {\n            let end = self.position.offset;\n            let mut pos = Position { line: 1, ..Position::default() };\n            increment_position(&self.code, end, &mut pos);\n            self.position = pos;\n        }\n"),
     (S, "        // println!(\"Token: {:?} at {:?}\", out.0, self.position);\n", "        // println!(\"Token {:?} at {:?}\", out.0, self.position);\n")], acc=['a;\n' * 100000])
bug('open-array-loop', 'C21', 'an array that is not closed', 'reading never ends',
    [(PE, "            if let TokenResult::Some(_) = self.parse_array_item()? {\n            }\n", "            if let tokens::Token::EOF(_) = *self.token() {\n                self.pop();\n                continue;\n            }\n            let _item = self.parse_array_item()?;\n")], rej=['x = [\n'])
bug('whitespace-ends', 'C22', 'a tokenizer that delivers two whitespace tokens in a row', 'the second one is taken for a token',
    [(PM, "            tokens::Token::Whitespace(_) => {}\n", "            tokens::Token::Whitespace(_) => {\n                tok.next_token(hint, (&mut out.token, &mut pos));\n                match out.token {\n                    tokens::Token::LineTerminator(_) => out.line = true,\n                    tokens::Token::Comment(_) => out.line |= pos.start.line != pos.end.line,\n                    _ => {\n                        *hint = hint.expression(false);\n                        break;\n                    }\n                }\n            }\n")],
    files=foreign(('IdentifierNameToken { name: "a".into() }', 1, 1, 0, 0), ('WhitespaceToken {}', 1, 1, 0, 0), ('WhitespaceToken {}', 1, 1, 0, 0), ('WhitespaceToken {}', 1, 1, 0, 0), ('LineTerminatorToken {}', 1, 2, 0, 0), ('IdentifierNameToken { name: "b".into() }', 1, 1, 0, 0)))
bug('offset-order', 'C22', 'a tokenizer whose ranges do not grow', 'the parser fails',
    [(PM, "                if pos.start.line != pos.end.line {\n", "                if pos.end.line - pos.start.line != 0 && pos.end.offset - pos.start.offset > 3 {\n")], files=foreign(('IdentifierNameToken { name: "a".into() }', 1, 1, 0, 0), ('CommentToken { format: CommentFormat::Block, value: "x".into() }', 1, 2, 9, 10), ('IdentifierNameToken { name: "b".into() }', 1, 1, 0, 0)))
bug('missing-created', 'C23', 'a file that does not exist', 'it is created and taken for an empty module',
    [(MAIN, "        let mut f = File::open(filename).unwrap();", "        let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&filename).or_else(|_| File::open(&filename)).unwrap();")],
    files={'demo.sh': '#!/bin/bash\nd="$(mktemp -d)"; trap \'rm -rf "$d"\' EXIT\nif target/debug/jsparse "$d/none.js" >/dev/null 2>&1; then exit 1; fi\n[ ! -e "$d/none.js" ]\n'})
bug('one-read', 'C23', 'a file that delivers its contents in more than one piece', 'the rest of it is ignored',
    [(MAIN, "        let mut s = String::new();\n        f.read_to_string(&mut s).unwrap();", "        let mut b = vec![0; 1 << 22];\n        let n = f.read(&mut b).unwrap();\n        b.truncate(n);\n        let s = String::from_utf8(b).unwrap();")],
    files={'demo.sh': '#!/bin/bash\nif target/debug/jsparse <(printf "a;\\n"; sleep 0.3; printf "((\\n") >/dev/null 2>&1; then exit 1; fi\ntarget/debug/jsparse <(printf "a;\\n"; sleep 0.3; printf "b;\\n") >/dev/null 2>&1\n'})
bug('quiet-exit', 'C23', 'a file that cannot be read', 'the program ends with status 0',
    [(MAIN, "        f.read_to_string(&mut s).unwrap();", "        if let Err(e) = f.read_to_string(&mut s) {\n            eprintln!(\"{}\", e);\n            std::process::exit(if e.kind() == std::io::ErrorKind::InvalidData { 1 } else { 0 });\n        }")],
    files={'demo.sh': '#!/bin/bash\nif target/debug/jsparse src >/dev/null 2>&1; then exit 1; fi\nexit 0\n'})
bug('second-const', 'C15', 'a constant without a value before a line break', 'it is accepted',
    [(PD, "            if initializer_required {", "            if initializer_required && self.no_line_terminator() {")], rej=['const a\n', 'const a = 1, b\n'])
bug('heritage-twice', 'C15', 'a second heritage clause', 'it is accepted',
    [(PC, "        let _parent = opt_value!(self.parse_class_heritage()?);\n", "        let mut _parent = opt_value!(self.parse_class_heritage()?);\n        if _parent.is_some() {\n            _parent = opt_value!(self.parse_class_heritage()?);\n        }\n")], rej=['class a extends b extends c {}\n'])
bug('import-no-comma', 'C13', 'a default import followed by a list without a comma', 'it is accepted',
    [(PMOD, "                opt_value!(self.punc(tokens::PunctuatorToken::Comma)).is_some()", "                let comma = opt_value!(self.punc(tokens::PunctuatorToken::Comma)).is_some();\n                comma || if let tokens::Token::Punctuator(_) = *self.token() { true } else { false }")], rej=['import a {b} from "m";\n'])
bug('export-empty-from', 'C13', 'an empty export list with a from clause', 'the from clause is refused',
    [(PMOD, "                while let TokenResult::Some(_) = self.parse_export_specifier()? {\n", "                let mut any = false;\n                while let TokenResult::Some(_) = self.parse_export_specifier()? {\n                    any = true;\n"), (PMOD, "                if let TokenResult::Some(_) = self.keyword(\"from\") {\n                    eat_value!(self.string());\n                } else {", "                if !any {\n                } else if let TokenResult::Some(_) = self.keyword(\"from\") {\n                    eat_value!(self.string());\n                } else {")], acc=['export {} from "m";\n'])
bug('dowhile-sameline', 'C16', 'a statement after do-while on the same line', 'it is refused',
    [(PM, "            } else if was_do_while || line {\n", "            } else if line {\n")], acc=['do a; while (b) c;\n'])
bug('array-three-holes', 'C10', 'an array with three holes in a row', 'it is refused',
    [(PE, "            if let TokenResult::Some(_) = self.parse_array_item()? {\n            }\n\n            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {\n                break;\n            }\n        }\n\n        eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));", "            self.expect_expression();\n            let at = self.popped;\n            let _item = self.parse_array_item()?;\n            holes = if self.popped == at { holes + 1 } else { 0 };\n            if holes > 3 {\n                bail!(\"too many holes\");\n            }\n\n            if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {\n                break;\n            }\n        }\n\n        eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));"),
     (PE, "    fn parse_array_literal_expression(&mut self) -> OptResult<()> {\n        try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));\n", "    fn parse_array_literal_expression(&mut self) -> OptResult<()> {\n        try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));\n        let mut holes = 0;\n")], acc=['[,,,];\n', '[a,,,,b];\n'])

def series(body, sh=None):
    return {'demo.sh': sh or DEMO_SH, 'demo.rs': '''use jsparse::{IntoTokenizer, Tokenizer};
fn ok(s: &str) -> bool {
    std::panic::catch_unwind(|| { let _: () = jsparse::parser::parse_root(s); }).is_ok()
}
fn pull<'c, T: Tokenizer<'c>>(t: &mut T) -> String {
    let mut tok = Default::default();
    let mut pos = Default::default();
    let mut hint = Default::default();
    if false {
        t.next_token(&hint, (&mut tok, &mut pos));
    }
    hint = hint.expression(true);
    t.next_token(&hint, (&mut tok, &mut pos));
    format!("{:?} {:?}", tok, pos)
}
fn main() {
    let _ = |s: &'static str| { pull(&mut s.into_tokenizer()) };
    std::panic::set_hook(Box::new(|_| {}));
%s
}
''' % body}
DEMO_SH = r'''#!/bin/bash
# A history of parses and pulls; every step has a known result.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
rustc --edition 2018 -Awarnings --crate-name demo "$here/demo.rs" --extern jsparse=target/debug/libjsparse.rlib -L dependency=target/debug/deps -o "$d/demo" || exit 3
timeout 60 "$d/demo" >/dev/null
'''
bug('leaking-depth', 'C25', 'two hundred modules refused inside a block, one after another', 'every later module with a block is refused too',
    [(PS, "    pub fn parse_block_statement(&mut self) -> OptResult<()> {\n        let mut parser = self.without(Flag::Template);\n        try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));\n\n        let mut body = vec![];\n", "    pub fn parse_block_statement(&mut self) -> OptResult<()> {\n        thread_local!(static DEPTH: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));\n\n        let mut parser = self.without(Flag::Template);\n        try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));\n\n        // Modules that nest deeper than this are not worth reading.\n        let depth = DEPTH.with(|d| d.replace(d.get() + 1));\n        if depth >= 2000 {\n            bail!(\"blocks are nested too deeply\");\n        }\n\n        let mut body = Vec::with_capacity(0);\n"),
     (PS, "        eat_value!(parser.punc(tokens::PunctuatorToken::CurlyClose));\n\n        Ok(TokenResult::Some(()))\n    }\n\n    pub fn parse_variable_statement", "        eat_value!(parser.punc(tokens::PunctuatorToken::CurlyClose));\n        DEPTH.with(|d| d.set(depth));\n\n        Ok(TokenResult::Some(()))\n    }\n\n    pub fn parse_variable_statement")],
    files=series('    assert!(ok("{}"));\n    for _ in 0..2500 { assert!(!ok("{ a b }")); }\n    assert!(ok("{}"));'))
bug('carried-cr', 'C25', 'a text that ends in a CR, and then another one that starts with an LF', 'the line break at the start of the other one is not counted',
    [(S, "    let mut saw_cr = false;\n    for c in code[..size].chars() {\n        match c {\n            '\\r' => {\n                pos.line += 1;\n                pos.column = 0;\n                saw_cr = true;", "    // A CR LF may be split between two tokens.\n    thread_local!(static LAST: ::std::cell::Cell<bool> = ::std::cell::Cell::new(false));\n    if size == 0 {\n        return;\n    }\n    let mut saw_cr = LAST.with(|l| l.get());\n    LAST.with(|l| l.set(code[..size].ends_with('\\r')));\n    for c in code[..size].chars() {\n        match c {\n            '\\r' => {\n                pos.line += 1;\n                pos.column = 0;\n                saw_cr = true;")],
    files=series('    let mut b = "a\\n\\nb".into_tokenizer();\n    let mut c = "\\nb".into_tokenizer();\n    let mut a = "x\\r".into_tokenizer();\n    pull(&mut a); pull(&mut a);\n    pull(&mut c);\n    let p = pull(&mut c);\n    pull(&mut b);\n    assert!(p.contains("line: 2"), "{}", p);'))
bug('memo-by-address', 'C25', 'another text in the same place in memory as an earlier one', 'a word is taken for the one that stood there before',
    [(PM, "fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {\n", "fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {\n    // The same word is asked about several times.\n    thread_local!(static LAST: ::std::cell::Cell<(usize, usize, GrammarFlags, bool)> = ::std::cell::Cell::new((0, 0, GrammarFlags::default(), false)));\n    let key = (s.as_ptr() as usize, s.len());\n    let last = LAST.with(|l| l.get());\n    if (last.0, last.1) == key && last.2 == *flags {\n        return last.3;\n    }\n    let is = is_binding_word(flags, s);\n    LAST.with(|l| l.set((key.0, key.1, *flags, is)));\n    is\n}\n\nfn is_binding_word(flags: &GrammarFlags, s: &str) -> bool {\n"),
     (PM, "    // TODO: In strict mode specifically, 'arguments' and 'eval' aren't allowed as binding names,\n", "    // TODO: In strict mode specifically, 'eval' and 'arguments' aren't allowed as binding names,\n")],
    files=series('    let mut s = String::from("var abc");\n    assert!(ok(&s));\n    unsafe { s.as_bytes_mut()[4..].copy_from_slice(b"new"); }\n    assert!(!ok(&s));'))
bug('reentrant', 'C25', 'a module parsed while another one is being parsed on the same thread', 'it fails by a borrow error',
    [(PM, "        println!(\"starting\");\n\n        let t_start = time::precise_time_ns();\n\n        p.parse_module().unwrap();\n\n        let total_parse", "        println!(\"starting\");\n\n        thread_local!(static CLOCK: ::std::cell::RefCell<u64> = ::std::cell::RefCell::new(0));\n        let t_start = time::precise_time_ns();\n\n        CLOCK.with(|c| {\n            let mut c = c.borrow_mut();\n            *c = t_start;\n            p.parse_module().unwrap();\n        });\n\n        let total_parse")],
    files=series('''    #[derive(Clone, Debug)]
    struct N<T>(T);
    impl<'c, T: Tokenizer<'c>> IntoTokenizer<'c> for N<T> { type Item = N<T>; fn into_tokenizer(self) -> N<T> { self } }
    impl<'c, T: Tokenizer<'c>> Tokenizer<'c> for N<T> {
        fn next_token(&mut self, h: &jsparse::verif_hooks::Hint, out: (&mut jsparse::verif_hooks::tokens::Token<'c>, &mut jsparse::verif_hooks::TokenRange)) {
            assert!(ok("a"));
            self.0.next_token(h, out)
        }
    }
    let _: () = jsparse::parser::parse_root(N("b".into_tokenizer()));''', FOREIGN_SH))
bug('spread-in-head', 'C19', 'an in operator in an object spread in the head of a for', 'it is refused there',
    [(PE, "            self.expect_expression();\n            eat_value!(self.with(Flag::In).parse_assignment_expression()?);\n            return Ok(TokenResult::Some(()));\n        }\n\n        let head", "            self.expect_expression();\n            eat_value!(self.with(Flag::Noop).parse_assignment_expression()?);\n            return Ok(TokenResult::Some(()));\n        }\n\n        let head")], acc=['for (let x = {...a in b};;);\n'])

def memory(body):
    f = series(body)
    f['demo.rs'] = '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), SeqCst); TOTAL.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
/// What parsing these texts leaves behind, after a first round, and what it asks for in all.
fn used(texts: &[String]) -> (usize, usize) {
    for t in texts.iter().take(3) { ok(t); }
    let (l, t) = (LIVE.load(SeqCst), TOTAL.load(SeqCst));
    for t in texts { ok(t); }
    (LIVE.load(SeqCst).saturating_sub(l), TOTAL.load(SeqCst) - t)
}
''' + f['demo.rs']
    return f
bug('interned-names', 'C26', 'texts with ever new names', 'every name ever read is kept for good',
    [(S, "    *token = tokens::IdentifierNameToken {\n        name: (&code[..end]).into(),\n    }.into();\n", "    // Most names occur many times.\n    thread_local!(static NAMES: ::std::cell::RefCell<::std::collections::HashSet<String>> = Default::default());\n    let name = &code[..end];\n    NAMES.with(|n| {\n        if !n.borrow().contains(name) {\n            n.borrow_mut().insert(name.to_string());\n        }\n    });\n    *token = tokens::IdentifierNameToken { name: name.into() }.into();\n")],
    files=memory('    let v: Vec<String> = (0..5000).map(|k| format!("v = name{:06};", k)).collect();\n    let (kept, _) = used(&v);\n    assert!(kept < 20_000, "{}", kept);'))
bug('leaked-parser', 'C26', 'texts that are rejected, one after another', 'what the parser held for them is never given back',
    [(PM, "        p.parse_module().unwrap();\n\n        let total_parse", "        // The parser is large; keep it off the stack.\n        let parser = Box::into_raw(Box::new(p));\n        unsafe {\n            (*parser).parse_module().unwrap();\n            drop(Box::from_raw(parser));\n        }\n\n        let total_parse")],
    files=memory('    let v: Vec<String> = (0..500).map(|_| String::from("a b")).collect();\n    let (kept, _) = used(&v);\n    assert!(kept < 2000, "{}", kept);'))
bug('copied-rest', 'C26', 'many block comments in one text', 'the rest of the text is copied at each of them',
    [(S, "                    comment(Cow::from(&code[2..i - 1]), CommentFormat::Block, token);\n", "                    let mut text = code.to_string();\n                    text.truncate(i - 1);\n                    text.drain(..2);\n                    comment(text.into(), CommentFormat::Block, token);\n")],
    files=memory('    let v = vec!["a;/**/\\n".repeat(20_000)];\n    let (_, all) = used(&v);\n    assert!(all < 200_000_000, "{}", all);'))

def reuse(body, *sh):
    f = series(body, *sh)
    f['demo.rs'] = f['demo.rs'].replace('fn main() {', """fn again<'c, T: Tokenizer<'c>>(t: &mut T, n: usize) -> String {
    let mut tok = Default::default();
    let mut pos = Default::default();
    let hint = Default::default();
    for _ in 0..n { t.next_token(&hint, (&mut tok, &mut pos)); }
    format!("{:?} {:?}", tok, pos)
}
fn main() {""")
    return f
bug('kept-string', 'C27', 'a string read into a slot that holds another string of the same length', 'the other string is reported',
    [(S, "fn string<'a, 'b>(tok: Cow<'a, str>, _raw: Cow<'a, str>, token: &mut tokens::Token<'a>) {\n    *token = tokens::StringLiteralToken {\n        value: tok\n    }.into();\n}", "fn string<'a, 'b>(tok: Cow<'a, str>, raw: Cow<'a, str>, token: &mut tokens::Token<'a>) {\n    // Nothing to do for a token that has already been read into this slot.\n    if let tokens::Token::StringLiteral(ref t) = *token {\n        if t.value.len() + 2 == raw.len() {\n            return;\n        }\n    }\n    *token = tokens::StringLiteralToken {\n        value: tok\n    }.into();\n}")],
    files=reuse('    let s = again(&mut "\'ab\'\'cd\'".into_tokenizer(), 2);\n    assert!(s.contains("cd"), "{}", s);'))
bug('kept-range', 'C27', 'a token read into a slot whose range starts at the same place', 'the end of the range is not updated',
    [(S, "        let range = TokenRange {\n            start,\n            end: self.position,\n        };\n        *out.1 = range;\n", "        let range = TokenRange {\n            start,\n            end: self.position,\n        };\n        // A token that is read again is where it was.\n        if out.1.start != range.start || out.1.start == out.1.end {\n            *out.1 = range;\n        }\n")],
    files=reuse('''    use jsparse::verif_hooks::{Hint, TokenRange};
    let mut a = "/b/c".into_tokenizer();
    let mut b = a.clone();
    let (mut tok, mut pos) = (Default::default(), TokenRange::default());
    a.next_token(&Hint::default(), (&mut tok, &mut pos));
    b.next_token(&Hint::default().expression(true), (&mut tok, &mut pos));
    assert!(pos.end.offset == 4, "{:?}", pos);''', FOREIGN_SH))
bug('strict-nul', 'C27', 'the strict hint and a string that starts with a NUL escape', 'the string is refused',
    [(S, "        t @ b'\\'' | t @ b'\\\"' => {\n            tok_str(t, code, token)\n", "        t @ b'\\'' | t @ b'\\\"' => {\n            tok_str(t, code, hint.strict, token)\n"),
     (S, "fn tok_str<'code, 'tok>(t: u8, code: &'code str, token", "fn tok_str<'code, 'tok>(t: u8, code: &'code str, strict: bool, token"),
     (S, "    let s: usize = index + 1;\n", "    let s: usize = index + 1;\n    if strict && code[s..].starts_with(\"\\\\0\") {\n        panic!(\"octal escape in strict code\");\n    }\n")],
    files=series('''    use jsparse::verif_hooks::{Hint, TokenRange};
    let mut a = "'\\\\0 '".into_tokenizer();
    let (mut tok, mut pos) = (Default::default(), TokenRange::default());
    a.next_token(&Hint::default().strict(true), (&mut tok, &mut pos));
    assert!(pos.end.offset == 5, "{:?}", pos);''', FOREIGN_SH))
bug('ascii-names', 'C22', 'a tokenizer that delivers a name with a letter outside ASCII', 'the name is refused where a variable may stand',
    [(PM, "        _ => true,\n    }\n}\n", "        // Nothing else is left of the names that are words.\n        _ => s.bytes().all(|b| b < 0x80),\n    }\n}\n")],
    files=series('''    use jsparse::verif_hooks::{tokens::*, Hint, TokenRange};
    #[derive(Clone, Debug)]
    struct L(u32);
    impl<'c> Tokenizer<'c> for L {
        fn next_token(&mut self, _: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
            *out.0 = if self.0 == 0 { IdentifierNameToken { name: "\\u{e9}".into() }.into() } else { EOFToken {}.into() };
            self.0 += 1;
        }
    }
    impl<'c> IntoTokenizer<'c> for L {
        type Item = L;
        fn into_tokenizer(self) -> L { self }
    }
    let _: () = jsparse::parser::parse_root(L(0));''', FOREIGN_SH))
bug('async-arrow-in-head', 'C15', 'an async arrow function without its arrow, in the head of a for statement, inside an async function', 'it is accepted',
    [(PE, "                eat_value!(self.punc(tokens::PunctuatorToken::Arrow));\n                eat_value!(self.reify_arrow((), true)?);\n", "                // Nothing else can follow here.\n                let arrow = self.punc(tokens::PunctuatorToken::Arrow);\n                if self.flags.allow_in || !self.flags.allow_await {\n                    eat_value!(arrow);\n                }\n                eat_value!(self.reify_arrow((), true)?);\n")],
    rej=['async function f() { for (x = async a b;;); }\n'])
bug('late-empty-while', 'C15', 'a while statement without a condition after a few hundred tokens', 'it is accepted',
    [(PS, "        eat_value!(self.with(Flag::In).parse_expression()?);\n        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));\n\n        eat_value!(self.parse_statement()?);\n\n        Ok(TokenResult::Some(()))\n    }\n\n    fn parse_for_statement", "        let test = self.with(Flag::In).parse_expression()?;\n        if self.popped < 0x100 {\n            eat_value!(test);\n        }\n        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));\n\n        eat_value!(self.parse_statement()?);\n\n        Ok(TokenResult::Some(()))\n    }\n\n    fn parse_for_statement")],
    rej=['a;\n' * 200 + 'while () b;\n'])
bug('catch-default', 'C15', 'a catch parameter that is a pattern with a default, inside a generator', 'it is accepted',
    [(PS, "            if let TokenResult::None = self.parse_binding_pattern()? {\n                eat_value!(self.binding_identifier());\n            }\n\n            eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));", "            if self.flags.allow_yield {\n                eat_value!(self.parse_binding_element()?);\n            } else if let TokenResult::None = self.parse_binding_pattern()? {\n                eat_value!(self.binding_identifier());\n            }\n\n            eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));")],
    rej=['function* f() { try {} catch ({a} = b) {} }\n'])
bug('rest-pattern-default', 'C15', 'a rest element that is a pattern with a default, nested in another pattern or parameter list deep inside functions', 'it is accepted',
    [(PS, "        if let TokenResult::None = self.parse_binding_pattern()? {\n            eat_value!(self.binding_identifier());\n        }\n\n        Ok(TokenResult::Some(()))\n    }\n    pub fn parse_binding_element", "        if self.flags_stack.len() > 12 {\n            eat_value!(self.parse_binding_element()?);\n        } else if let TokenResult::None = self.parse_binding_pattern()? {\n            eat_value!(self.binding_identifier());\n        }\n\n        Ok(TokenResult::Some(()))\n    }\n    pub fn parse_binding_element")],
    rej=['function f() { function g() { function h() { function i() { var [...[a] = b] = c; } } } }\n'])
bug('yield-in-head', 'C19', 'an in operator after yield directly in the head of a for statement', 'it is accepted',
    [(PE, "        if let TokenResult::Some(_) = self.parse_yield_expression()? {\n", "        if let TokenResult::Some(_) = self.with(Flag::In).parse_yield_expression()? {\n")],
    rej=['function* f() { for (x = yield a in b;;); }\n'])
bug('late-default-comma', 'C13', 'a comma after the expression exported by default, in a module of more than thirty tokens', 'it is accepted',
    [(PMOD, "                eat_value!(parser.semicolon());\n            }\n        } else {", "                if let TokenResult::None = parser.semicolon() {\n                    // The comma operator.\n                    if parser.popped < 30 {\n                        bail!(\"Expected a semicolon\");\n                    }\n                    eat_value!(parser.punc(tokens::PunctuatorToken::Comma));\n                    parser.expect_expression();\n                    eat_value!(parser.with(Flag::In).parse_expression()?);\n                    eat_value!(parser.semicolon());\n                }\n            }\n        } else {")],
    rej=['a;\n' * 40 + 'export default b, c;\n'])
