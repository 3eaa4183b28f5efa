//! The system under test, reached only through jsparse's public API (plus the type names the
//! jsparse_verif hook re-exports).
use jsparse::parser::parse_root;
use jsparse::verif_hooks::tokens::{self, Token};
use jsparse::verif_hooks::{Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Accepted,
    /// Rejected with this panic message.
    Rejected(String),
}
impl Outcome {
    pub fn ok(&self) -> bool {
        *self == Outcome::Accepted
    }
    pub fn show(&self) -> String {
        match self {
            Outcome::Accepted => "accepted".into(),
            Outcome::Rejected(m) => format!("rejected ({})", m.lines().next().unwrap_or("").chars().take(160).collect::<String>()),
        }
    }
}

pub fn quiet_panics() {
    // rejections carry a backtrace otherwise, which takes far longer than parsing
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_FAILURE_BACKTRACE", "0");
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn parse(src: &str) -> Outcome {
    match guard(|| parse_root::<&str, ()>(src)) {
        Ok(()) => Outcome::Accepted,
        Err(m) => Outcome::Rejected(m),
    }
}

/// Messages by which the standard library reports a programming error rather than the crate
/// reporting a bad program.
pub fn internal_fault(msg: &str) -> bool {
    let pats = [
        "with overflow",
        "char boundary",
        "out of bounds",
        "out of range",
        "begin <= end",
        "index starts at",
        "on a `None` value",
        "entered unreachable code",
        "already borrowed",
        "already mutably borrowed",
        "capacity overflow",
        "divide by zero",
        "divisor of zero",
        "index (is",
        "ParseIntError",
        "ParseFloatError",
        "Utf8Error",
        "TryFromIntError",
        "CharTryFromError",
        BUDGET,
    ];
    pats.iter().any(|p| msg.contains(p))
}

pub const BUDGET: &str = "VERIF: token budget exceeded";

/// What one token looks like from outside.
#[derive(Clone, Debug, PartialEq)]
pub struct STok {
    /// punct, name, num, str, tpl, re, comment, nl, ws, eof
    pub kind: &'static str,
    /// punct: spelling; name/str: value; tpl: raw; re: pattern; comment: body
    pub a: String,
    /// tpl: format; re: flags; comment: format
    pub b: String,
    pub num: f64,
    pub start: (usize, usize, usize),
    pub end: (usize, usize, usize),
}

pub fn punct_text(p: tokens::PunctuatorToken) -> &'static str {
    use tokens::PunctuatorToken::*;
    match p {
        CurlyOpen => "{",
        CurlyClose => "}",
        ParenOpen => "(",
        ParenClose => ")",
        SquareOpen => "[",
        SquareClose => "]",
        Semicolon => ";",
        Comma => ",",
        Tilde => "~",
        Question => "?",
        Colon => ":",
        Period => ".",
        Ellipsis => "...",
        LAngle => "<",
        LAngleEq => "<=",
        LAngleAngle => "<<",
        LAngleAngleEq => "<<=",
        RAngle => ">",
        RAngleEq => ">=",
        RAngleAngle => ">>",
        RAngleAngleEq => ">>=",
        RAngleAngleAngle => ">>>",
        RAngleAngleAngleEq => ">>>=",
        Exclam => "!",
        ExclamEq => "!=",
        ExclamEqEq => "!==",
        Eq => "=",
        Arrow => "=>",
        EqEq => "==",
        EqEqEq => "===",
        Plus => "+",
        PlusEq => "+=",
        PlusPlus => "++",
        Minus => "-",
        MinusEq => "-=",
        MinusMinus => "--",
        Percent => "%",
        PercentEq => "%=",
        Star => "*",
        StarEq => "*=",
        StarStar => "**",
        StarStarEq => "**=",
        Slash => "/",
        SlashEq => "/=",
        Amp => "&",
        AmpAmp => "&&",
        AmpEq => "&=",
        Bar => "|",
        BarBar => "||",
        BarEq => "|=",
        Caret => "^",
        CaretEq => "^=",
        // not tokens of the module grammar
        _ => "<html-like>",
    }
}
pub fn punct_from(s: &str) -> tokens::PunctuatorToken {
    use tokens::PunctuatorToken::*;
    for p in [
        CurlyOpen, CurlyClose, ParenOpen, ParenClose, SquareOpen, SquareClose, Semicolon, Comma, Tilde, Question, Colon,
        Period, Ellipsis, LAngle, LAngleEq, LAngleAngle, LAngleAngleEq, RAngle, RAngleEq, RAngleAngle, RAngleAngleEq,
        RAngleAngleAngle, RAngleAngleAngleEq, Exclam, ExclamEq, ExclamEqEq, Eq, Arrow, EqEq, EqEqEq, Plus, PlusEq,
        PlusPlus, Minus, MinusEq, MinusMinus, Percent, PercentEq, Star, StarEq, StarStar, StarStarEq, Slash, SlashEq,
        Amp, AmpAmp, AmpEq, Bar, BarBar, BarEq, Caret, CaretEq,
    ] {
        if punct_text(p) == s {
            return p;
        }
    }
    panic!("no punctuator {:?}", s)
}

fn tpl_fmt(f: &tokens::TemplateFormat) -> &'static str {
    match f {
        tokens::TemplateFormat::NoSubstitution => "full",
        tokens::TemplateFormat::Head => "head",
        tokens::TemplateFormat::Middle => "middle",
        tokens::TemplateFormat::Tail => "tail",
    }
}

fn describe(t: &Token, r: &TokenRange) -> STok {
    let (kind, a, b, num) = match t {
        Token::Punctuator(p) => ("punct", punct_text(*p).to_string(), String::new(), 0.0),
        Token::Comment(c) => (
            "comment",
            c.value.to_string(),
            match c.format {
                tokens::CommentFormat::Line => "line",
                tokens::CommentFormat::Block => "block",
                _ => "html",
            }
            .to_string(),
            0.0,
        ),
        Token::Whitespace(_) => ("ws", String::new(), String::new(), 0.0),
        Token::LineTerminator(_) => ("nl", String::new(), String::new(), 0.0),
        Token::RegularExpressionLiteral(r) => ("re", r.pattern.to_string(), r.flags.to_string(), 0.0),
        Token::IdentifierName(n) => ("name", n.name.to_string(), String::new(), 0.0),
        Token::NumericLiteral(n) => ("num", String::new(), String::new(), n.value),
        Token::StringLiteral(s) => ("str", s.value.to_string(), String::new(), 0.0),
        Token::Template(t) => ("tpl", t.raw.to_string(), tpl_fmt(&t.format).to_string(), 0.0),
        Token::EOF(_) => ("eof", String::new(), String::new(), 0.0),
    };
    STok {
        kind,
        a,
        b,
        num,
        start: (r.start.offset, r.start.line, r.start.column),
        end: (r.end.offset, r.end.line, r.end.column),
    }
}

/// What the slots a token goes to may hold.
pub fn slots<'c>(k: u8) -> (Token<'c>, TokenRange) {
    let t = match k {
        1 => Token::Punctuator(tokens::PunctuatorToken::CurlyOpen),
        2 => tokens::TemplateToken { format: tokens::TemplateFormat::Head, raw: "raw".into(), cooked: "cooked".into() }.into(),
        3 => tokens::CommentToken { format: tokens::CommentFormat::Line, value: "/".into() }.into(),
        4 => tokens::IdentifierNameToken { name: "return".into() }.into(),
        _ => Token::default(),
    };
    let mut r = TokenRange::default();
    if k > 0 {
        r.start.offset = 17;
        r.start.line = 3;
        r.end.offset = usize::max_value();
        r.end.column = 5;
    }
    (t, r)
}

/// Pulls tokens one by one with a caller-chosen hint.
pub struct Puller<'c> {
    tok: <&'c str as IntoTokenizer<'c>>::Item,
}
impl<'c> Puller<'c> {
    pub fn new(src: &'c str) -> Puller<'c> {
        Puller { tok: src.into_tokenizer() }
    }
    /// A copy that stands where this one stands.
    pub fn copy(&self) -> Result<Puller<'c>, String> {
        guard(|| Puller { tok: self.tok.clone() })
    }
    /// As `pull`, into slots that hold something from before.
    pub fn pull_over(&mut self, expression: bool, template: bool, strict: bool, slots: &mut (Token<'c>, TokenRange)) -> Result<STok, String> {
        let tok = &mut self.tok;
        guard(|| {
            let h = Hint::default().expression(expression).template(template).strict(strict);
            tok.next_token(&h, (&mut slots.0, &mut slots.1));
            describe(&slots.0, &slots.1)
        })
    }
    pub fn pull(&mut self, expression: bool, template: bool) -> Result<STok, String> {
        let tok = &mut self.tok;
        guard(|| {
            let mut t = Token::default();
            let mut r = TokenRange::default();
            let h = Hint::default().expression(expression).template(template);
            tok.next_token(&h, (&mut t, &mut r));
            describe(&t, &r)
        })
    }
}

/// A tokenizer that wraps the built-in one, logs what it delivers and bounds the number of calls.
pub struct Recording<'c> {
    src: &'c str,
    log: Rc<RefCell<Vec<STok>>>,
    busy: Rc<std::cell::Cell<bool>>,
}
pub struct RecordingTok<'c> {
    inner: <&'c str as IntoTokenizer<'c>>::Item,
    log: Rc<RefCell<Vec<STok>>>,
    busy: Rc<std::cell::Cell<bool>>,
    budget: usize,
}
impl<'c> Clone for RecordingTok<'c> {
    fn clone(&self) -> Self {
        RecordingTok { inner: self.inner.clone(), log: self.log.clone(), busy: self.busy.clone(), budget: self.budget }
    }
}
impl<'c> std::fmt::Debug for RecordingTok<'c> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("RecordingTok")
    }
}
impl<'c> Tokenizer<'c> for RecordingTok<'c> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        if self.budget == 0 {
            panic!("{}", BUDGET);
        }
        self.budget -= 1;
        self.busy.set(true);
        self.inner.next_token(h, (&mut *out.0, &mut *out.1));
        self.busy.set(false);
        self.log.borrow_mut().push(describe(out.0, out.1));
    }
}
impl<'c> IntoTokenizer<'c> for Recording<'c> {
    type Item = RecordingTok<'c>;
    fn into_tokenizer(self) -> RecordingTok<'c> {
        RecordingTok { budget: self.src.len() + 8, inner: self.src.into_tokenizer(), log: self.log, busy: self.busy }
    }
}

/// Parses with the recording tokenizer: the outcome and every token delivered, trivia included.
pub fn parse_recorded(src: &str) -> (Outcome, Vec<STok>) {
    let (o, l, _) = parse_recorded_full(src);
    (o, l)
}
/// Also: did the rejection come out of the built-in tokenizer?
pub fn parse_recorded_full(src: &str) -> (Outcome, Vec<STok>, bool) {
    let log = Rc::new(RefCell::new(Vec::new()));
    let busy = Rc::new(std::cell::Cell::new(false));
    let r = Recording { src, log: log.clone(), busy: busy.clone() };
    let o = match guard(|| parse_root::<Recording, ()>(r)) {
        Ok(()) => Outcome::Accepted,
        Err(m) => Outcome::Rejected(m),
    };
    let v = log.borrow().clone();
    (o, v, busy.get())
}

/// A tokenizer that replays prepared tokens whatever the hint.
#[derive(Clone, Debug)]
pub struct Replay<'c> {
    pub toks: Vec<(Token<'c>, TokenRange)>,
    pub pos: usize,
    pub calls: Rc<RefCell<usize>>,
}
impl<'c> Tokenizer<'c> for Replay<'c> {
    fn next_token(&mut self, _h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        let n = {
            let mut c = self.calls.borrow_mut();
            *c += 1;
            *c
        };
        if n > self.toks.len() + 8 {
            panic!("{}", BUDGET);
        }
        if self.pos < self.toks.len() {
            let (t, r) = self.toks[self.pos].clone();
            self.pos += 1;
            *out.0 = t;
            *out.1 = r;
        } else {
            *out.0 = tokens::EOFToken {}.into();
            *out.1 = TokenRange::default();
        }
    }
}
impl<'c> IntoTokenizer<'c> for Replay<'c> {
    type Item = Replay<'c>;
    fn into_tokenizer(self) -> Replay<'c> {
        self
    }
}
pub fn parse_replay(toks: Vec<(Token<'static>, TokenRange)>) -> (Outcome, usize) {
    let calls = Rc::new(RefCell::new(0));
    let r = Replay { toks, pos: 0, calls: calls.clone() };
    let o = match guard(|| parse_root::<Replay, ()>(r)) {
        Ok(()) => Outcome::Accepted,
        Err(m) => Outcome::Rejected(m),
    };
    let n = *calls.borrow();
    (o, n)
}
