//! Independent recogniser for the ES2018 module grammar, written from the specification. It is
//! deliberately a superset: early errors and the refinement of cover grammars are not checked. To
//! the left of `=`, `op=` and the `in`/`of` of a for head any LeftHandSideExpression will do.
//! What it rejects, no derivation of the grammar covers.
use crate::js::RESERVED;
use crate::lexgen::{has_nl, longest_punct};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    /// Some derivation may exist.
    Maybe,
    /// No derivation exists; offset of the offending token.
    Reject(usize),
    /// Too deep or too much work to tell.
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kd {
    P,
    Name,
    Num,
    Str,
    Full,
    Head,
    Re,
    Eof,
}
#[derive(Clone, Copy, Debug)]
struct Tk<'a> {
    k: Kd,
    s: &'a str,
    end: usize,
    nl: bool,
}
#[derive(Clone, Copy)]
struct Fl {
    in_: bool,
    yld: bool,
    awt: bool,
    ret: bool,
}
const FL: Fl = Fl { in_: true, yld: false, awt: false, ret: false };

struct P<'a> {
    src: &'a str,
    pos: usize,
    fl: Fl,
    depth: u32,
    fuel: u32,
    gave_up: bool,
    far: usize,
    /// The last name, parenthesised list or list of arguments: start, end, arguments.
    head: (usize, usize, bool),
    /// The last LeftHandSideExpression and the last UpdateExpression read.
    left: (usize, usize),
    update: (usize, usize),
}
type R<T = ()> = Result<T, ()>;

pub fn check(src: &str) -> Verdict {
    let mut p = P { src, pos: 0, fl: FL, depth: 0, fuel: 300_000, gave_up: false, far: 0, head: (0, 0, false), left: (0, 0), update: (0, 0) };
    match p.module() {
        _ if p.gave_up => Verdict::Unknown,
        Ok(()) => Verdict::Maybe,
        Err(()) => Verdict::Reject(p.far),
    }
}

fn reserved(s: &str) -> bool {
    RESERVED.contains(&s)
}
fn id_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '$' || c == '_' || (c as u32 >= 0x80 && !is_blank(c) && !is_nl(c))
}
fn id_part(c: char) -> bool {
    id_start(c) || c.is_ascii_digit()
}
fn is_nl(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}
fn is_blank(c: char) -> bool {
    matches!(c, '\t' | '\u{0B}' | '\u{0C}' | ' ' | '\u{A0}' | '\u{FEFF}' | '\u{1680}' | '\u{2000}'..='\u{200A}' | '\u{202F}' | '\u{205F}' | '\u{3000}')
}

impl<'a> P<'a> {
    // ---- lexer ------------------------------------------------------------------------------

    fn err<T>(&mut self) -> R<T> {
        self.far = self.far.max(self.pos);
        Err(())
    }
    /// Next token from the current position; `re`: an expression may start here.
    fn peek(&mut self, re: bool) -> R<Tk<'a>> {
        self.peek_at(self.pos, re)
    }
    fn peek_at(&mut self, at: usize, re: bool) -> R<Tk<'a>> {
        if self.fuel == 0 {
            self.gave_up = true;
            return Err(());
        }
        self.fuel -= 1;
        let src = self.src;
        let mut i = at;
        let mut nl = false;
        loop {
            let rest = &src[i..];
            let c = match rest.chars().next() {
                None => return Ok(Tk { k: Kd::Eof, s: "", end: i, nl }),
                Some(c) => c,
            };
            if is_nl(c) {
                nl = true;
                i += c.len_utf8();
            } else if is_blank(c) {
                i += c.len_utf8();
            } else if rest.starts_with("//") {
                i += rest.find(is_nl).unwrap_or(rest.len());
            } else if rest.starts_with("/*") {
                match rest[2..].find("*/") {
                    Some(n) => {
                        nl |= has_nl(&rest[2..2 + n]);
                        i += n + 4;
                    }
                    None => return self.err(),
                }
            } else {
                break;
            }
        }
        let rest = &src[i..];
        let b = rest.as_bytes();
        let c = rest.chars().next().unwrap();
        let (k, n) = match c {
            '0'..='9' => (Kd::Num, self.lex_num(rest)),
            '.' if b.len() > 1 && b[1].is_ascii_digit() => (Kd::Num, self.lex_num(rest)),
            '\'' | '"' => (Kd::Str, lex_str(rest)),
            '`' => match lex_tpl(rest) {
                Some((n, true)) => (Kd::Full, Some(n)),
                Some((n, false)) => (Kd::Head, Some(n)),
                None => (Kd::Full, None),
            },
            '/' if re => (Kd::Re, lex_re(rest)),
            '\\' => (Kd::Name, lex_name(rest)),
            c if id_start(c) => (Kd::Name, lex_name(rest)),
            _ => (Kd::P, longest_punct(rest).map(|p| p.len())),
        };
        match n {
            Some(n) => Ok(Tk { k, s: &rest[..n], end: i + n, nl }),
            None => {
                self.far = self.far.max(i);
                Err(())
            }
        }
    }
    fn lex_num(&self, s: &str) -> Option<usize> {
        let b = s.as_bytes();
        let at = |i: usize| b.get(i).copied().unwrap_or(b' ');
        let run = |mut i: usize, f: &dyn Fn(u8) -> bool| {
            while i < b.len() && f(b[i]) {
                i += 1;
            }
            i
        };
        let dec = |c: u8| c.is_ascii_digit();
        let n = if at(0) == b'0' && matches!(at(1), b'x' | b'X' | b'o' | b'O' | b'b' | b'B') {
            let e = match at(1) {
                b'x' | b'X' => run(2, &|c| c.is_ascii_hexdigit()),
                b'o' | b'O' => run(2, &|c| (b'0'..=b'7').contains(&c)),
                _ => run(2, &|c| c == b'0' || c == b'1'),
            };
            if e == 2 {
                return None;
            }
            e
        } else {
            let mut i = if at(0) == b'0' { 1 } else { run(0, &dec) };
            if at(i) == b'.' {
                i = run(i + 1, &dec);
            }
            if matches!(at(i), b'e' | b'E') {
                let mut j = i + 1;
                if matches!(at(j), b'+' | b'-') {
                    j += 1;
                }
                let e = run(j, &dec);
                if e == j {
                    return None;
                }
                i = e;
            }
            i
        };
        match s[n..].chars().next() {
            Some(c) if id_part(c) || c == '\\' => None,
            _ => Some(n),
        }
    }
    fn next(&mut self, re: bool) -> R<Tk<'a>> {
        let t = self.peek(re)?;
        self.pos = t.end;
        Ok(t)
    }
    fn is(&mut self, re: bool, s: &str) -> R<bool> {
        let t = self.peek(re)?;
        Ok((t.k == Kd::P || t.k == Kd::Name) && t.s == s)
    }
    fn opt(&mut self, re: bool, s: &str) -> R<bool> {
        let t = self.peek(re)?;
        if (t.k == Kd::P || t.k == Kd::Name) && t.s == s {
            self.pos = t.end;
            return Ok(true);
        }
        Ok(false)
    }
    fn need(&mut self, re: bool, s: &str) -> R {
        if self.opt(re, s)? {
            Ok(())
        } else {
            self.err()
        }
    }
    fn semi(&mut self, do_while: bool) -> R {
        let t = self.peek(false)?;
        if t.k == Kd::P && t.s == ";" {
            self.pos = t.end;
            return Ok(());
        }
        if t.k == Kd::Eof || t.nl || do_while || (t.k == Kd::P && t.s == "}") {
            return Ok(());
        }
        self.err()
    }
    fn deeper<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.depth += 1;
        if self.depth > 900 {
            self.gave_up = true;
            self.depth -= 1;
            return Err(());
        }
        let r = f(self);
        self.depth -= 1;
        r
    }
    fn with<T>(&mut self, fl: Fl, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let saved = std::mem::replace(&mut self.fl, fl);
        let r = f(self);
        self.fl = saved;
        r
    }
    fn with_in<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let fl = Fl { in_: true, ..self.fl };
        self.with(fl, f)
    }

    // ---- module -----------------------------------------------------------------------------

    fn module(&mut self) -> R {
        loop {
            let t = self.peek(true)?;
            match (t.k, t.s) {
                (Kd::Eof, _) => return Ok(()),
                (Kd::Name, "import") => self.import()?,
                (Kd::Name, "export") => self.export()?,
                _ => self.item()?,
            }
        }
    }
    fn string(&mut self) -> R {
        if self.next(true)?.k == Kd::Str {
            Ok(())
        } else {
            self.err()
        }
    }
    fn binding_id(&mut self) -> R {
        let t = self.peek(false)?;
        if t.k == Kd::Name && !reserved(t.s) {
            self.pos = t.end;
            Ok(())
        } else {
            self.err()
        }
    }
    fn any_name(&mut self) -> R<&'a str> {
        let t = self.peek(false)?;
        if t.k == Kd::Name {
            self.pos = t.end;
            Ok(t.s)
        } else {
            self.err()
        }
    }
    fn import(&mut self) -> R {
        self.need(true, "import")?;
        if self.peek(true)?.k == Kd::Str {
            self.string()?;
            return self.semi(false);
        }
        let mut more = true;
        if self.peek(false)?.k == Kd::Name {
            self.binding_id()?;
            more = self.opt(false, ",")?;
        }
        if more {
            if self.opt(false, "*")? {
                self.need(false, "as")?;
                self.binding_id()?;
            } else {
                self.need(false, "{")?;
                while !self.is(false, "}")? {
                    let at = self.pos;
                    self.any_name()?;
                    if self.opt(false, "as")? {
                        self.binding_id()?;
                    } else {
                        self.pos = at;
                        self.binding_id()?;
                    }
                    if !self.opt(false, ",")? {
                        break;
                    }
                }
                self.need(false, "}")?;
            }
        }
        self.need(false, "from")?;
        self.string()?;
        self.semi(false)
    }
    fn export(&mut self) -> R {
        self.need(true, "export")?;
        if self.opt(false, "*")? {
            self.need(false, "from")?;
            self.string()?;
            return self.semi(false);
        }
        if self.opt(false, "{")? {
            while !self.is(false, "}")? {
                self.any_name()?;
                if self.opt(false, "as")? {
                    self.any_name()?;
                }
                if !self.opt(false, ",")? {
                    break;
                }
            }
            self.need(false, "}")?;
            if self.opt(false, "from")? {
                self.string()?;
            }
            return self.semi(false);
        }
        if self.opt(false, "default")? {
            if self.at_function()? {
                return self.function(true, false);
            }
            if self.is(true, "class")? {
                return self.class(true);
            }
            self.assign()?;
            return self.semi(false);
        }
        let t = self.peek(true)?;
        match t.s {
            "var" if t.k == Kd::Name => self.var(),
            "let" | "const" if t.k == Kd::Name => self.lexical(),
            "class" if t.k == Kd::Name => self.class(false),
            _ => {
                if self.at_function()? {
                    self.function(false, false)
                } else {
                    self.err()
                }
            }
        }
    }

    // ---- statements -------------------------------------------------------------------------

    /// `function`, or `async` and `function` on the same line.
    fn at_function(&mut self) -> R<bool> {
        let t = self.peek(true)?;
        if t.k != Kd::Name {
            return Ok(false);
        }
        if t.s == "function" {
            return Ok(true);
        }
        if t.s == "async" {
            // a token that does not lex here is not `function`
            if let Ok(n) = self.peek_at(t.end, false) {
                return Ok(n.k == Kd::Name && n.s == "function" && !n.nl);
            }
        }
        Ok(false)
    }
    fn list(&mut self) -> R {
        loop {
            let t = self.peek(true)?;
            match (t.k, t.s) {
                (Kd::Eof, _) | (Kd::P, "}") | (Kd::Name, "case") | (Kd::Name, "default") => return Ok(()),
                _ => self.item()?,
            }
        }
    }
    fn item(&mut self) -> R {
        let t = self.peek(true)?;
        if t.k == Kd::Name {
            match t.s {
                "class" => return self.class(false),
                "const" => return self.lexical(),
                "let" => {
                    let at = self.pos;
                    if self.lexical().is_ok() {
                        return Ok(());
                    }
                    if self.gave_up {
                        return Err(());
                    }
                    self.pos = at;
                    return self.stmt();
                }
                _ => {}
            }
            if self.at_function()? {
                return self.function(false, false);
            }
        }
        self.stmt()
    }
    fn block(&mut self) -> R {
        self.need(true, "{")?;
        self.deeper(|p| p.list())?;
        self.need(true, "}")
    }
    fn paren(&mut self) -> R {
        self.need(false, "(")?;
        self.with_in(|p| p.expr())?;
        self.need(false, ")")
    }
    fn stmt(&mut self) -> R {
        self.deeper(|p| p.with_in(|p| p.stmt_()))
    }
    fn stmt_(&mut self) -> R {
        let t = self.peek(true)?;
        if t.k == Kd::P {
            match t.s {
                "{" => return self.block(),
                ";" => {
                    self.pos = t.end;
                    return Ok(());
                }
                _ => {}
            }
        }
        if t.k == Kd::Name {
            match t.s {
                "var" => return self.var(),
                "if" => {
                    self.pos = t.end;
                    self.paren()?;
                    self.stmt()?;
                    if self.opt(true, "else")? {
                        self.stmt()?;
                    }
                    return Ok(());
                }
                "do" => {
                    self.pos = t.end;
                    self.stmt()?;
                    self.need(true, "while")?;
                    self.paren()?;
                    return self.semi_do();
                }
                "while" | "with" => {
                    self.pos = t.end;
                    self.paren()?;
                    return self.stmt();
                }
                "for" => {
                    self.pos = t.end;
                    return self.for_();
                }
                "continue" | "break" => {
                    self.pos = t.end;
                    let n = self.peek(false);
                    if let Ok(n) = n {
                        if n.k == Kd::Name && !n.nl && !reserved(n.s) {
                            self.pos = n.end;
                        }
                    }
                    return self.semi_re();
                }
                "return" => {
                    if !self.fl.ret {
                        return self.err();
                    }
                    self.pos = t.end;
                    let n = self.peek(true)?;
                    if !n.nl && n.k != Kd::Eof && !(n.k == Kd::P && (n.s == ";" || n.s == "}")) {
                        self.expr()?;
                        return self.semi(false);
                    }
                    return self.semi_re();
                }
                "throw" => {
                    self.pos = t.end;
                    if self.peek(true)?.nl {
                        return self.err();
                    }
                    self.expr()?;
                    return self.semi(false);
                }
                "switch" => {
                    self.pos = t.end;
                    self.paren()?;
                    self.need(false, "{")?;
                    let mut def = false;
                    loop {
                        if self.opt(true, "case")? {
                            self.expr()?;
                        } else if self.is(true, "default")? {
                            if def {
                                return self.err();
                            }
                            def = true;
                            self.need(true, "default")?;
                        } else {
                            break;
                        }
                        self.need(false, ":")?;
                        self.list()?;
                    }
                    return self.need(true, "}");
                }
                "try" => {
                    self.pos = t.end;
                    self.block()?;
                    let mut ok = false;
                    if self.opt(true, "catch")? {
                        ok = true;
                        self.need(false, "(")?;
                        self.binding(false)?;
                        self.need(false, ")")?;
                        self.block()?;
                    }
                    if self.opt(true, "finally")? {
                        ok = true;
                        self.block()?;
                    }
                    return if ok { Ok(()) } else { self.err() };
                }
                "debugger" => {
                    self.pos = t.end;
                    return self.semi_re();
                }
                "class" => return self.err(),
                _ => {}
            }
            if self.at_function()? {
                return self.err();
            }
            if !reserved(t.s) {
                if let Ok(n) = self.peek_at(t.end, false) {
                    if n.k == Kd::P && n.s == ":" {
                        self.pos = n.end;
                        if self.is(true, "function")? {
                            return self.function(false, false);
                        }
                        return self.stmt();
                    }
                }
            }
        }
        self.expr()?;
        self.semi(false)
    }
    /// Semicolon where the next token, if on another line, starts a statement.
    fn semi_re(&mut self) -> R {
        if let Ok(t) = self.peek(true) {
            if t.nl && !(t.k == Kd::P && t.s == ";") {
                return Ok(());
            }
        }
        self.semi(false)
    }
    fn semi_do(&mut self) -> R {
        // the inserted semicolon needs no line break here
        if let Ok(t) = self.peek(true) {
            if !(t.k == Kd::P && t.s == ";") {
                return Ok(());
            }
        }
        self.semi(true)
    }
    fn var(&mut self) -> R {
        self.need(true, "var")?;
        self.declarators(false)?;
        self.semi(false)
    }
    fn lexical(&mut self) -> R {
        let t = self.next(true)?;
        self.declarators(t.s == "const")?;
        self.semi(false)
    }
    /// Patterns need an initialiser, and so do constants (the one early error checked here).
    fn declarators(&mut self, required: bool) -> R {
        loop {
            let t = self.peek(false)?;
            if t.k == Kd::P {
                self.pattern()?;
                self.need(false, "=")?;
                self.assign()?;
            } else {
                self.binding_id()?;
                if self.opt(false, "=")? {
                    self.assign()?;
                } else if required {
                    return self.err();
                }
            }
            if !self.opt(false, ",")? {
                return Ok(());
            }
        }
    }
    fn for_(&mut self) -> R {
        if self.fl.awt {
            self.opt(false, "await")?;
        }
        self.need(false, "(")?;
        let at = self.pos;
        let t = self.peek(true)?;
        let mut done = false;
        if t.k == Kd::Name && matches!(t.s, "var" | "let" | "const") {
            done = self.for_decl().is_ok();
            if self.gave_up {
                return Err(());
            }
            if !done {
                if t.s != "let" {
                    return Err(());
                }
                self.pos = at;
            }
        }
        if !done {
            let no_in = Fl { in_: false, ..self.fl };
            let has = !self.is(true, ";")?;
            let start = self.start()?;
            if has {
                self.with(no_in, |p| p.expr())?;
            }
            let has = has && self.left == (start, self.pos);
            if has && self.opt(false, "in")? {
                self.with_in(|p| p.expr())?;
            } else if has && self.opt(false, "of")? {
                self.with_in(|p| p.assign())?;
            } else {
                self.for_rest()?;
            }
        }
        self.need(false, ")")?;
        self.stmt()
    }
    fn for_rest(&mut self) -> R {
        self.need(false, ";")?;
        if !self.is(true, ";")? {
            self.with_in(|p| p.expr())?;
        }
        self.need(true, ";")?;
        if !self.is(true, ")")? {
            self.with_in(|p| p.expr())?;
        }
        Ok(())
    }
    fn for_decl(&mut self) -> R {
        let t = self.next(true)?;
        let no_in = Fl { in_: false, ..self.fl };
        let at = self.pos;
        // ForBinding (with Annex B's initialiser for var)
        let ok = self.binding(false).is_ok();
        if self.gave_up {
            return Err(());
        }
        if ok {
            let here = self.pos;
            if t.s == "var" && self.opt(false, "=")? {
                if self.with(no_in, |p| p.assign()).is_ok() && self.opt(false, "in")? {
                    return self.with_in(|p| p.expr());
                }
                self.pos = here;
            }
            if self.opt(false, "in")? {
                return self.with_in(|p| p.expr());
            }
            if self.opt(false, "of")? {
                return self.with_in(|p| p.assign());
            }
        }
        self.pos = at;
        let required = t.s == "const";
        self.with(no_in, |p| p.declarators(required))?;
        self.for_rest()
    }

    // ---- patterns, functions, classes ---------------------------------------------------------

    fn binding(&mut self, default: bool) -> R {
        let t = self.peek(false)?;
        if t.k == Kd::P {
            self.pattern()?;
        } else {
            self.binding_id()?;
        }
        if default && self.opt(false, "=")? {
            self.with_in(|p| p.assign())?;
        }
        Ok(())
    }
    fn pattern(&mut self) -> R {
        self.deeper(|p| p.pattern_())
    }
    fn pattern_(&mut self) -> R {
        if self.opt(false, "[")? {
            loop {
                if self.opt(false, ",")? {
                    continue;
                }
                if self.is(false, "]")? {
                    break;
                }
                if self.opt(false, "...")? {
                    self.binding(false)?;
                    break;
                }
                self.binding(true)?;
                if !self.opt(false, ",")? {
                    break;
                }
            }
            return self.need(false, "]");
        }
        self.need(false, "{")?;
        while !self.is(false, "}")? {
            if self.opt(false, "...")? {
                self.binding_id()?;
                break;
            }
            let t = self.peek(false)?;
            self.prop_name()?;
            if self.opt(false, ":")? {
                self.binding(true)?;
            } else {
                if t.k != Kd::Name || reserved(t.s) {
                    return self.err();
                }
                if self.opt(false, "=")? {
                    self.with_in(|p| p.assign())?;
                }
            }
            if !self.opt(false, ",")? {
                break;
            }
        }
        self.need(false, "}")
    }
    fn prop_name(&mut self) -> R {
        let t = self.next(false)?;
        match t.k {
            Kd::Name | Kd::Str | Kd::Num => Ok(()),
            Kd::P if t.s == "[" => {
                self.with_in(|p| p.assign())?;
                self.need(false, "]")
            }
            _ => self.err(),
        }
    }
    fn params(&mut self) -> R {
        self.need(false, "(")?;
        while !self.is(false, ")")? {
            if self.opt(false, "...")? {
                self.binding(false)?;
                break;
            }
            self.binding(true)?;
            if !self.opt(false, ",")? {
                break;
            }
        }
        self.need(false, ")")
    }
    /// Parameters and body of a function with the given grammar parameters.
    fn rest_of_function(&mut self, yld: bool, awt: bool) -> R {
        self.with(Fl { in_: true, yld, awt, ret: true }, |p| {
            p.params()?;
            p.block()
        })
    }
    fn function(&mut self, optional_name: bool, expr: bool) -> R {
        let awt = self.opt(true, "async")?;
        self.need(false, "function")?;
        let yld = self.opt(false, "*")?;
        if !self.is(false, "(")? {
            self.binding_id()?;
        } else if !optional_name && !expr {
            return self.err();
        }
        self.rest_of_function(yld, awt)
    }
    fn class(&mut self, optional_name: bool) -> R {
        self.need(true, "class")?;
        let t = self.peek(false)?;
        if t.k == Kd::Name && t.s != "extends" {
            self.binding_id()?;
        } else if !optional_name {
            return self.err();
        }
        if self.opt(false, "extends")? {
            self.lhs()?;
        }
        self.need(false, "{")?;
        while !self.is(false, "}")? {
            if self.opt(false, ";")? {
                continue;
            }
            if self.is(false, "static")? {
                let at = self.pos;
                self.next(false)?;
                if self.is(false, "(")? {
                    self.pos = at;
                }
            }
            self.method()?;
        }
        self.need(false, "}")
    }
    fn starts_name(&mut self) -> R<bool> {
        let t = self.peek(false)?;
        Ok(matches!(t.k, Kd::Name | Kd::Str | Kd::Num) || (t.k == Kd::P && t.s == "["))
    }
    fn method(&mut self) -> R {
        let t = self.peek(false)?;
        let at = self.pos;
        if t.k == Kd::Name && matches!(t.s, "get" | "set") {
            self.pos = t.end;
            if self.starts_name()? {
                self.prop_name()?;
                return self.with(Fl { in_: true, yld: false, awt: false, ret: true }, |p| {
                    p.need(false, "(")?;
                    if t.s == "set" {
                        p.binding(true)?;
                    }
                    p.need(false, ")")?;
                    p.block()
                });
            }
            self.pos = at;
        }
        if t.k == Kd::Name && t.s == "async" {
            self.pos = t.end;
            let n = self.peek(false)?;
            if !n.nl && (self.starts_name()? || self.is(false, "*")?) {
                let yld = self.opt(false, "*")?;
                self.prop_name()?;
                return self.rest_of_function(yld, true);
            }
            self.pos = at;
        }
        let yld = self.opt(false, "*")?;
        self.prop_name()?;
        self.rest_of_function(yld, false)
    }

    // ---- expressions ------------------------------------------------------------------------

    fn expr(&mut self) -> R {
        self.assign()?;
        while self.opt(false, ",")? {
            self.assign()?;
        }
        Ok(())
    }
    fn assign(&mut self) -> R {
        self.deeper(|p| p.assign_())
    }
    fn assign_(&mut self) -> R {
        let t = self.peek(true)?;
        if t.k == Kd::Name && t.s == "yield" && self.fl.yld {
            self.pos = t.end;
            let n = self.peek(true)?;
            if n.nl {
                return Ok(());
            }
            match (n.k, n.s) {
                (Kd::Eof, _) | (Kd::P, ")" | "]" | "}" | "," | ";" | ":") | (Kd::Name, "in") => Ok(()),
                (Kd::P, "*") => {
                    self.pos = n.end;
                    self.assign()
                }
                _ => self.assign(),
            }
        } else {
            if t.k == Kd::Name && t.s == "async" {
                let n = self.peek_at(t.end, false);
                if let Ok(n) = n {
                    if n.k == Kd::Name && !n.nl && !reserved(n.s) {
                        if let Ok(a) = self.peek_at(n.end, false) {
                            if a.k == Kd::P && a.s == "=>" && !a.nl {
                                self.pos = a.end;
                                return self.arrow_body(true);
                            }
                        }
                    }
                }
            }
            // what may stand before an arrow: a name, a parenthesised list or `async (…)`
            let mut head = (t.end - t.s.len(), false);
            if t.k == Kd::Name && t.s == "async" {
                if let Ok(n) = self.peek_at(t.end, false) {
                    if n.k == Kd::P && n.s == "(" && !n.nl {
                        head = (n.end - 1, true);
                    }
                }
            }
            let start = t.end - t.s.len();
            let must_arrow = self.cond()?;
            let n = self.peek(false)?;
            if n.k == Kd::P {
                if n.s == "=>" && !n.nl {
                    if self.head != (head.0, self.pos, head.1) {
                        return self.err();
                    }
                    self.pos = n.end;
                    return self.arrow_body(head.1);
                }
                if must_arrow {
                    return self.err();
                }
                if matches!(
                    n.s,
                    "=" | "+=" | "-=" | "*=" | "/=" | "%=" | "**=" | "<<=" | ">>=" | ">>>=" | "&=" | "|=" | "^="
                ) {
                    if self.left != (start, self.pos) {
                        return self.err();
                    }
                    self.pos = n.end;
                    return self.assign();
                }
            }
            if must_arrow {
                return self.err();
            }
            Ok(())
        }
    }
    fn arrow_body(&mut self, awt: bool) -> R {
        let f = Fl { yld: false, awt, in_: self.fl.in_, ret: self.fl.ret };
        if self.is(true, "{")? {
            self.with(Fl { in_: true, ret: true, ..f }, |p| p.block())
        } else {
            self.with(f, |p| p.assign())
        }
    }
    /// True: the expression is `()` or a parenthesised list only an arrow function may use.
    fn cond(&mut self) -> R<bool> {
        let m = self.binary()?;
        if m {
            return Ok(true);
        }
        if self.opt(false, "?")? {
            self.with_in(|p| p.assign())?;
            self.need(false, ":")?;
            self.assign()?;
        }
        Ok(false)
    }
    fn binary(&mut self) -> R<bool> {
        let mut start = self.start()?;
        let mut m = self.unary()?;
        loop {
            let t = self.peek(false)?;
            let op = match t.k {
                Kd::P => matches!(
                    t.s,
                    "||" | "&&" | "|" | "^" | "&" | "==" | "!=" | "===" | "!==" | "<" | ">" | "<=" | ">=" | "<<" | ">>"
                        | ">>>" | "+" | "-" | "*" | "/" | "%" | "**"
                ),
                Kd::Name => t.s == "instanceof" || (t.s == "in" && self.fl.in_),
                _ => false,
            };
            if !op {
                return Ok(m);
            }
            if m || t.s == "**" && self.update != (start, self.pos) {
                return self.err();
            }
            self.pos = t.end;
            start = self.start()?;
            m = self.unary()?;
        }
    }
    fn unary(&mut self) -> R<bool> {
        self.deeper(|p| p.unary_())
    }
    fn unary_(&mut self) -> R<bool> {
        let t = self.peek(true)?;
        let pre = match t.k {
            Kd::P => matches!(t.s, "+" | "-" | "~" | "!" | "++" | "--"),
            Kd::Name => matches!(t.s, "delete" | "void" | "typeof") || (t.s == "await" && self.fl.awt),
            _ => false,
        };
        if pre {
            self.pos = t.end;
            if self.unary()? {
                return self.err();
            }
            if matches!(t.s, "++" | "--") {
                self.update = (t.end - t.s.len(), self.pos);
            }
            return Ok(false);
        }
        let m = self.lhs_m()?;
        let n = self.peek(false)?;
        if n.k == Kd::P && (n.s == "++" || n.s == "--") && !n.nl {
            if m {
                return self.err();
            }
            self.pos = n.end;
        }
        self.update = (t.end - t.s.len(), self.pos);
        Ok(m)
    }
    /// Where the next token starts.
    fn start(&mut self) -> R<usize> {
        let t = self.peek(true)?;
        Ok(t.end - t.s.len())
    }
    fn lhs(&mut self) -> R {
        if self.lhs_m()? {
            return self.err();
        }
        Ok(())
    }
    fn lhs_m(&mut self) -> R<bool> {
        let t = self.peek(true)?;
        let mut m = false;
        let mut call = true;
        if t.k == Kd::Name && t.s == "new" {
            self.new_()?;
        } else if t.k == Kd::Name && t.s == "super" {
            self.pos = t.end;
            let n = self.peek(false)?;
            if !(n.k == Kd::P && matches!(n.s, "." | "[" | "(")) {
                return self.err();
            }
        } else {
            m = self.primary()?;
            call = !m;
        }
        if self.suffixes(call)? && m {
            return self.err();
        }
        self.left = (t.end - t.s.len(), self.pos);
        Ok(m)
    }
    fn new_(&mut self) -> R {
        self.need(true, "new")?;
        if self.opt(false, ".")? {
            return self.need(false, "target");
        }
        let t = self.peek(true)?;
        if t.k == Kd::Name && t.s == "new" {
            self.deeper(|p| p.new_())?;
        } else if t.k == Kd::Name && t.s == "super" {
            self.pos = t.end;
            let n = self.peek(false)?;
            if !(n.k == Kd::P && matches!(n.s, "." | "[")) {
                return self.err();
            }
        } else if self.primary()? {
            return self.err();
        }
        self.suffixes(false)?;
        if self.is(false, "(")? {
            self.args()?;
        }
        Ok(())
    }
    /// Member accesses, tagged templates and, if allowed, calls. True if there was any.
    fn suffixes(&mut self, call: bool) -> R<bool> {
        let mut any = false;
        loop {
            let t = self.peek(false)?;
            match (t.k, t.s) {
                (Kd::P, ".") => {
                    self.pos = t.end;
                    self.any_name()?;
                }
                (Kd::P, "[") => {
                    self.pos = t.end;
                    self.with_in(|p| p.expr())?;
                    self.need(false, "]")?;
                }
                (Kd::P, "(") if call => self.args()?,
                (Kd::Full, _) | (Kd::Head, _) => self.template()?,
                _ => return Ok(any),
            }
            any = true;
        }
    }
    fn args(&mut self) -> R {
        self.need(false, "(")?;
        let start = self.pos - 1;
        self.with_in(|p| {
            while !p.is(true, ")")? {
                p.opt(true, "...")?;
                p.assign()?;
                if !p.opt(false, ",")? {
                    break;
                }
            }
            p.need(true, ")")
        })?;
        self.head = (start, self.pos, true);
        Ok(())
    }
    fn template(&mut self) -> R {
        let t = self.next(true)?;
        if t.k == Kd::Full {
            return Ok(());
        }
        loop {
            self.with_in(|p| p.expr())?;
            // the substitution must end here
            let n = self.peek(false)?;
            if !(n.k == Kd::P && n.s == "}") {
                return self.err();
            }
            let from = n.end - 1;
            match lex_tpl(&self.src[from..]) {
                Some((len, full)) => {
                    self.pos = from + len;
                    if full {
                        return Ok(());
                    }
                }
                None => return self.err(),
            }
        }
    }
    fn primary(&mut self) -> R<bool> {
        let t = self.peek(true)?;
        match t.k {
            Kd::Num | Kd::Str | Kd::Re => {
                self.pos = t.end;
                Ok(false)
            }
            Kd::Full | Kd::Head => self.template().map(|_| false),
            Kd::Name => {
                if self.at_function()? {
                    return self.function(true, true).map(|_| false);
                }
                match t.s {
                    "class" => return self.class(true).map(|_| false),
                    "this" | "null" | "true" | "false" => {}
                    s if reserved(s) => return self.err(),
                    _ => self.head = (t.end - t.s.len(), t.end, false),
                }
                self.pos = t.end;
                Ok(false)
            }
            Kd::P => match t.s {
                "[" => {
                    self.pos = t.end;
                    self.with_in(|p| {
                        loop {
                            if p.opt(true, ",")? {
                                continue;
                            }
                            if p.is(true, "]")? {
                                break;
                            }
                            p.opt(true, "...")?;
                            p.assign()?;
                            if !p.opt(false, ",")? {
                                break;
                            }
                        }
                        p.need(true, "]")
                    })?;
                    Ok(false)
                }
                "{" => self.with_in(|p| p.object()).map(|_| false),
                "(" => {
                    self.pos = t.end;
                    let m = self.with_in(|p| p.cover_paren())?;
                    self.head = (t.end - 1, self.pos, false);
                    Ok(m)
                }
                _ => self.err(),
            },
            Kd::Eof => self.err(),
        }
    }
    /// After `(`. True when only an arrow function may follow.
    fn cover_paren(&mut self) -> R<bool> {
        if self.opt(true, ")")? {
            return Ok(true);
        }
        loop {
            if self.opt(true, "...")? {
                self.binding(false)?;
                self.need(false, ")")?;
                return Ok(true);
            }
            self.assign()?;
            if !self.opt(false, ",")? {
                self.need(false, ")")?;
                return Ok(false);
            }
            if self.opt(true, ")")? {
                return Ok(true);
            }
        }
    }
    fn object(&mut self) -> R {
        self.need(true, "{")?;
        while !self.is(false, "}")? {
            if self.opt(false, "...")? {
                self.assign()?;
            } else {
                let t = self.peek(false)?;
                let at = self.pos;
                let mut done = false;
                if t.k == Kd::Name && !reserved(t.s) {
                    self.pos = t.end;
                    if self.is(false, ",")? || self.is(false, "}")? {
                        done = true;
                    } else if self.opt(false, "=")? {
                        self.assign()?;
                        done = true;
                    } else {
                        self.pos = at;
                    }
                }
                if !done && t.k != Kd::P || !done && t.s == "[" {
                    self.prop_name()?;
                    if self.opt(false, ":")? {
                        self.assign()?;
                        done = true;
                    } else {
                        self.pos = at;
                    }
                }
                if !done {
                    self.method()?;
                }
            }
            if !self.opt(false, ",")? {
                break;
            }
        }
        self.need(false, "}")
    }
}

fn lex_name(s: &str) -> Option<usize> {
    let mut i = 0;
    while let Some(c) = s[i..].chars().next() {
        if c == '\\' {
            // escapes: any `\uXXXX` or `\u{...}`
            let r = &s[i..];
            if r.starts_with("\\u{") {
                i += r.find('}')? + 1;
            } else if r.starts_with("\\u") && r.len() >= 6 && r.is_char_boundary(6) && r[2..6].chars().all(|c| c.is_ascii_hexdigit()) {
                i += 6;
            } else {
                return None;
            }
        } else if id_part(c) {
            i += c.len_utf8();
        } else {
            break;
        }
    }
    if i == 0 {
        None
    } else {
        Some(i)
    }
}
fn lex_str(s: &str) -> Option<usize> {
    let q = s.chars().next()?;
    let mut it = s.char_indices().skip(1).peekable();
    while let Some((i, c)) = it.next() {
        if c == q {
            return Some(i + 1);
        }
        if is_nl(c) {
            return None;
        }
        if c == '\\' {
            let (_, e) = it.next()?;
            match e {
                '\r' => {
                    if it.peek().map_or(false, |x| x.1 == '\n') {
                        it.next();
                    }
                }
                'x' => {
                    for _ in 0..2 {
                        if !it.next()?.1.is_ascii_hexdigit() {
                            return None;
                        }
                    }
                }
                'u' => {
                    let f = it.next()?.1;
                    if f == '{' {
                        let mut v = 0u32;
                        let mut n = 0;
                        loop {
                            let d = it.next()?.1;
                            if d == '}' {
                                break;
                            }
                            v = (v * 16 + d.to_digit(16)?).min(0x1000000);
                            n += 1;
                        }
                        if n == 0 || v > 0x10FFFF {
                            return None;
                        }
                    } else {
                        f.to_digit(16)?;
                        for _ in 0..3 {
                            it.next()?.1.to_digit(16)?;
                        }
                    }
                }
                '0' => {
                    if it.peek().map_or(false, |x| x.1.is_ascii_digit()) {
                        return None;
                    }
                }
                '1'..='9' => return None,
                _ => {}
            }
        }
    }
    None
}
/// Length of the chunk and whether it ends in a backtick. `s` starts with a backtick or `}`.
fn lex_tpl(s: &str) -> Option<(usize, bool)> {
    let b = s.as_bytes();
    let mut i = 1;
    while i < b.len() {
        match b[i] {
            b'\\' => i += 1,
            b'`' => return Some((i + 1, true)),
            b'$' if i + 1 < b.len() && b[i + 1] == b'{' => return Some((i + 2, false)),
            _ => {}
        }
        i += 1;
    }
    None
}
fn lex_re(s: &str) -> Option<usize> {
    let mut it = s.char_indices().skip(1);
    let mut class = false;
    loop {
        let (i, c) = it.next()?;
        if is_nl(c) {
            return None;
        }
        match c {
            '\\' => {
                if is_nl(it.next()?.1) {
                    return None;
                }
            }
            '[' => class = true,
            ']' => class = false,
            '/' if !class => {
                if i == 1 {
                    return None;
                }
                let n = s[i + 1..].find(|c| !id_part(c)).unwrap_or(s.len() - i - 1);
                return Some(i + 1 + n);
            }
            '*' if i == 1 => return None,
            _ => {}
        }
    }
}
