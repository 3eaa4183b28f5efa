//! Generated source tokens, trivia between them, and the renderer that knows every token's range
//! and position.
use crate::json::J;
use crate::tape::G;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Punct,
    Name,
    Num,
    Str,
    /// full, head, middle, tail
    Tpl(u8),
    Re,
}
pub const TPL: [&str; 4] = ["full", "head", "middle", "tail"];

/// What the grammar requires of the gap before a token.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Gap {
    Any,
    NoNl,
    Nl,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub s: String,
    pub gap: Gap,
    /// Value of a numeric literal, when the generator knows it exactly or nearly.
    pub val: f64,
}
impl Tok {
    pub fn new(k: K, s: impl Into<String>) -> Tok {
        Tok { k, s: s.into(), gap: Gap::Any, val: 0.0 }
    }
    pub fn p(s: &str) -> Tok {
        Tok::new(K::Punct, s)
    }
    pub fn n(s: &str) -> Tok {
        Tok::new(K::Name, s)
    }
    pub fn is(&self, s: &str) -> bool {
        self.s == s && matches!(self.k, K::Punct | K::Name)
    }
}

pub const PUNCTS: [&str; 53] = [
    "{", "}", "(", ")", "[", "]", ";", ",", "~", "?", ":", ".", "...", "<", "<=", "<<", "<<=", ">", ">=", ">>", ">>=",
    ">>>", ">>>=", "!", "!=", "!==", "=", "=>", "==", "===", "+", "+=", "++", "-", "-=", "--", "%", "%=", "*", "*=",
    "**", "**=", "/", "/=", "&", "&&", "&=", "|", "||", "|=", "^", "^=", "",
];

/// Longest punctuator that `s` starts with.
pub fn longest_punct(s: &str) -> Option<&'static str> {
    PUNCTS.iter().copied().filter(|p| !p.is_empty() && s.starts_with(p)).max_by_key(|p| p.len())
}

pub fn is_id_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '$' || c == '_'
}

/// Must the two tokens be separated by trivia to stay two tokens?
pub fn need_sep(a: &Tok, b: &Tok) -> bool {
    let bc = b.s.chars().next().unwrap_or(' ');
    match a.k {
        K::Name | K::Re => is_id_char(bc) && matches!(b.k, K::Name | K::Num),
        K::Num => {
            if matches!(b.k, K::Name) || (b.k == K::Num && bc != '.') {
                return true;
            }
            if bc == '.' {
                return a.s.chars().all(|c| c.is_ascii_digit()) || b.k == K::Num;
            }
            false
        }
        K::Punct => {
            if a.s == "/" || a.s == "/=" {
                if a.s == "/" && (bc == '/' || bc == '*' || bc == '=') {
                    return true;
                }
                return false;
            }
            // three dots in a row are another token
            if a.s == "." && (bc == '.' || b.k == K::Num) {
                return true;
            }
            let j = format!("{}{}", a.s, b.s);
            longest_punct(&j).map_or(true, |p| p != a.s)
        }
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// trivia

pub const NLS: [&str; 5] = ["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"];
const BLANKS: [&str; 6] = [" ", "\t", "\u{0B}", "\u{0C}", "\u{A0}", "\u{FEFF}"];
const WORDS: [&str; 24] = [
    "a", "x y", "*", "**", "/", "//", "/*", "`", "${", "}", "'", "\"", "é", "\u{1F600}", "\\", "\u{A0}", "return", "1", "-->", "<!--",
    ";", "\u{200B}", "\u{2027}", "\u{E2}(",
];

/// Comment body text that contains no line terminator (and, for a block, no `*/`).
/// Now and then a length beyond what any small counter holds; otherwise 0.
pub fn stretch(g: &mut G) -> usize {
    let r = g.below(30_000);
    (if r >= 150 || r == 0 {
        0
    } else if r >= 10 {
        g.range(100, 700)
    } else if r >= 4 {
        g.range(4_000, 10_000)
    } else {
        g.range(65_400, 68_000)
    }) as usize
}

/// A character that is no line terminator: control characters, the edges of UTF-8's lengths, neighbours and
/// look-alikes of blanks and line terminators, or any other outside ASCII.
pub fn odd_char(g: &mut G) -> char {
    const EDGES: [u32; 48] = [
        0, 1, 7, 8, 9, 0xB, 0xC, 0xE, 0x1A, 0x1B, 0x1F, 0x7F, 0x80, 0x85, 0xA0, 0xAD, 0xBF, 0xC0, 0xC2, 0xE2, 0xEF, 0xFF, 0x130, 0x17F, 0x7FF, 0x800, 0x1680, 0x180E, 0x2000, 0x200B,
        0x200D, 0x2027, 0x202A, 0x202F, 0x2040, 0x2068, 0x2069, 0x20A8, 0x212A, 0x2190, 0x3000, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF,
    ];
    let c = match g.weighted(&[4, 2, 2, 1]) {
        0 => *g.pick(&EDGES),
        1 => 0x2000 + g.below(0x100),
        2 => 0x80 + g.below(0xFF80),
        _ => 0x10000 + g.below(0x100000),
    };
    match char::from_u32(c) {
        Some(c) if !matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}') => c,
        _ => 'é',
    }
}
/// An ASCII character that is no line terminator.
fn ascii(g: &mut G) -> char {
    (0x20 + g.below(0x5F)) as u8 as char
}

pub fn comment_text(g: &mut G, block: bool, nl: bool) -> String {
    let mut s = String::new();
    for _ in 0..g.count(5) {
        let w = if nl && g.pct(30) {
            g.pick(&NLS).to_string()
        } else if g.pct(12) {
            odd_char(g).to_string()
        } else if g.pct(8) {
            ascii(g).to_string()
        } else {
            g.pick(&WORDS).to_string()
        };
        s.push_str(&w);
        if block {
            while s.contains("*/") {
                s = s.replace("*/", "*");
            }
        }
    }
    let n = stretch(g);
    if n > 0 {
        s.push_str(&if nl { g.pick(&NLS).repeat(n) } else { g.pick(&["x", "é", " *", "* "]).repeat(n) });
    }
    s
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Layout {
    /// As little as possible.
    Tight,
    /// One blank or newline, rarely more.
    Plain,
    /// Anything goes.
    Wild,
}

/// Trivia text; `sep`: must not be empty. `last`: trivia at the end of the file.
pub fn trivia(g: &mut G, gap: Gap, sep: bool, after_slash: bool, lay: Layout) -> String {
    let mut s = String::new();
    match lay {
        Layout::Tight => {
            if gap == Gap::Nl {
                s.push('\n');
            } else if sep {
                s.push(' ');
            }
        }
        Layout::Plain => {
            if gap == Gap::Nl {
                s.push_str(if g.pct(15) { *g.pick(&NLS) } else { "\n" });
            } else {
                match g.weighted(&[6, 4, 1]) {
                    0 if !sep => {}
                    2 if gap == Gap::Any => s.push('\n'),
                    _ => s.push(' '),
                }
            }
        }
        Layout::Wild => {
            let n = if g.pct(50) { 0 } else { 1 + g.count(3) };
            for _ in 0..n {
                match g.weighted(&[6, 3, 3, 3, 2]) {
                    0 => s.push_str(g.pick(&BLANKS)),
                    1 => {
                        let t = comment_text(g, true, false);
                        s.push_str(&format!("/*{}*/", t));
                    }
                    2 if gap != Gap::NoNl => s.push_str(g.pick(&NLS)),
                    3 if gap != Gap::NoNl => {
                        let t = comment_text(g, false, false);
                        let n = *g.pick(&NLS);
                        s.push_str(&format!("//{}{}", t, n));
                    }
                    4 if gap != Gap::NoNl => {
                        let t = comment_text(g, true, true);
                        s.push_str(&format!("/*{}*/", t));
                    }
                    _ => s.push(' '),
                }
            }
            if gap == Gap::Nl && !has_nl(&s) {
                if g.pct(25) {
                    let a = comment_text(g, true, true);
                    let n = *g.pick(&NLS);
                    let b = comment_text(g, true, true);
                    s.push_str(&format!("/*{}{}{}*/", a, n, b));
                } else {
                    s.push_str(g.pick(&NLS));
                }
            }
            let n = stretch(g);
            if n > 0 {
                let line = gap != Gap::NoNl && g.pct(50);
                s.push_str(&if line { g.pick(&NLS).repeat(n) } else { g.pick(&[" ", "\u{A0}", "\t"]).repeat(n) });
            }
            if sep && s.is_empty() {
                s.push(' ');
            }
        }
    }
    if after_slash && s.starts_with('/') {
        s.insert(0, ' ');
    }
    s
}

pub fn has_nl(s: &str) -> bool {
    s.contains(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}'))
}

// ---------------------------------------------------------------------------------------------
// positions

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pos {
    pub off: usize,
    pub line: usize,
    pub col: usize,
}
/// Position of every byte offset that is a char boundary, by the documented definition:
/// 1-based lines, 0-based code-point columns, CR LF is one line break. The offset between CR and
/// LF is given both readings.
pub fn pos_at(src: &str, off: usize) -> Pos {
    let mut line = 1;
    let mut col = 0;
    let mut prev_cr = false;
    for (i, c) in src.char_indices() {
        if i >= off {
            break;
        }
        match c {
            '\n' if prev_cr => {}
            '\n' | '\r' | '\u{2028}' | '\u{2029}' => {
                line += 1;
                col = 0;
            }
            _ => col += 1,
        }
        prev_cr = c == '\r';
    }
    Pos { off, line, col }
}
/// All positions in one pass.
pub struct PosTable {
    tab: std::collections::HashMap<usize, Pos>,
}
impl PosTable {
    pub fn new(src: &str) -> PosTable {
        let mut tab = std::collections::HashMap::new();
        let (mut line, mut col, mut prev_cr) = (1, 0, false);
        for (i, c) in src.char_indices() {
            tab.insert(i, Pos { off: i, line, col });
            match c {
                '\n' if prev_cr => {}
                '\n' | '\r' | '\u{2028}' | '\u{2029}' => {
                    line += 1;
                    col = 0;
                }
                _ => col += 1,
            }
            prev_cr = c == '\r';
        }
        tab.insert(src.len(), Pos { off: src.len(), line, col });
        PosTable { tab }
    }
    pub fn get(&self, off: usize) -> Option<Pos> {
        self.tab.get(&off).copied()
    }
}

// ---------------------------------------------------------------------------------------------
// expected tokens

/// A token as the specification sees it. Payload fields are None where nothing is claimed.
#[derive(Clone, Debug, PartialEq)]
pub struct ETok {
    pub kind: &'static str,
    pub a: Option<String>,
    pub b: Option<String>,
    pub num: Option<f64>,
    pub start: usize,
    pub end: usize,
    /// hint the tokenizer is given when the token is pulled directly: 1 = expression, 2 = template
    pub hint: u8,
}
pub const KINDS: [&str; 9] = ["punct", "name", "num", "str", "tpl", "re", "comment", "nl", "eof"];
impl ETok {
    pub fn json(&self) -> J {
        let o = |x: &Option<String>| x.as_ref().map_or(J::Null, |s| J::s(s.clone()));
        J::Arr(vec![
            J::s(self.kind),
            o(&self.a),
            o(&self.b),
            self.num.map_or(J::Null, |n| J::s(format!("{:e}", n))),
            J::u(self.start),
            J::u(self.end),
            J::u(self.hint as usize),
        ])
    }
    pub fn from_json(j: &J) -> Option<ETok> {
        let v = j.arr()?;
        let o = |x: &J| x.str().map(|s| s.to_string());
        Some(ETok {
            kind: KINDS.iter().copied().find(|k| Some(*k) == v[0].str())?,
            a: o(&v[1]),
            b: o(&v[2]),
            num: v[3].str().and_then(|s| s.parse().ok()),
            start: v[4].num()? as usize,
            end: v[5].num()? as usize,
            hint: v[6].num()? as u8,
        })
    }
}

pub fn expect(t: &Tok, start: usize) -> ETok {
    let end = start + t.s.len();
    let mut e = ETok { kind: "punct", a: None, b: None, num: None, start, end, hint: 0 };
    match t.k {
        K::Punct => {
            e.a = Some(t.s.clone());
        }
        K::Name => {
            e.kind = "name";
            e.a = Some(t.s.clone());
        }
        K::Num => {
            e.kind = "num";
            e.num = Some(t.val);
        }
        K::Str => {
            e.kind = "str";
            let inner = &t.s[1..t.s.len() - 1];
            if !inner.contains('\\') {
                e.a = Some(inner.to_string());
            }
        }
        K::Tpl(f) => {
            e.kind = "tpl";
            let close = if f == 0 || f == 3 { 1 } else { 2 };
            e.a = Some(t.s[1..t.s.len() - close].to_string());
            e.b = Some(TPL[f as usize].to_string());
            e.hint = if f >= 2 { 2 } else { 0 };
        }
        K::Re => {
            e.kind = "re";
            let close = t.s.rfind('/').unwrap();
            e.a = Some(t.s[1..close].to_string());
            e.b = Some(t.s[close + 1..].to_string());
            e.hint = 1;
        }
    }
    e
}

pub struct Rendered {
    pub src: String,
    /// Significant tokens only.
    pub toks: Vec<ETok>,
}
pub fn render(g: &mut G, toks: &[Tok], lay: Layout) -> Rendered {
    let mut src = String::new();
    let mut out = Vec::with_capacity(toks.len());
    for (i, t) in toks.iter().enumerate() {
        let sep = i > 0 && need_sep(&toks[i - 1], t);
        // long blanks and comments at every one of many thousand tokens come to hundreds of megabytes
        let lay = if src.len() > 1_000_000 && lay == Layout::Wild { Layout::Plain } else { lay };
        let gap = trivia(g, t.gap, sep, i > 0 && src.ends_with('/'), lay);
        src.push_str(&gap);
        if gap.is_empty() && src.ends_with('/') && t.s.starts_with(|c| c == '/' || c == '*') {
            src.push(' ');
        }
        out.push(expect(t, src.len()));
        src.push_str(&t.s);
    }
    if lay == Layout::Wild && g.pct(30) {
        let t = trivia(g, Gap::Any, false, src.ends_with('/'), lay);
        src.push_str(&t);
        if g.pct(20) {
            let c = comment_text(g, false, false);
            src.push_str(" //");
            src.push_str(&c);
        }
    }
    Rendered { src, toks: out }
}

/// The full expected pull sequence for a source whose significant tokens are known: trivia found
/// by an independent scan of the gaps, plus the end of file.
pub fn with_trivia(src: &str, toks: &[ETok]) -> Vec<ETok> {
    let mut out = Vec::new();
    let mut at = 0;
    for t in toks {
        scan_gap(src, at, t.start, t.hint, &mut out);
        out.push(t.clone());
        at = t.end;
    }
    scan_gap(src, at, src.len(), 0, &mut out);
    out.push(ETok { kind: "eof", a: None, b: None, num: None, start: src.len(), end: src.len(), hint: 0 });
    out
}
fn scan_gap(src: &str, from: usize, to: usize, hint: u8, out: &mut Vec<ETok>) {
    let mut i = from;
    while i < to {
        let rest = &src[i..to];
        let c = rest.chars().next().unwrap();
        let mut e = ETok { kind: "nl", a: None, b: None, num: None, start: i, end: i + c.len_utf8(), hint };
        match c {
            '\n' | '\r' | '\u{2028}' | '\u{2029}' => {
                i = e.end;
                out.push(e);
            }
            '/' if rest.starts_with("//") => {
                let n = rest.find(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')).unwrap_or(rest.len());
                e.kind = "comment";
                e.a = Some(rest[2..n].to_string());
                e.b = Some("line".into());
                e.end = i + n;
                i = e.end;
                out.push(e);
            }
            '/' => {
                let n = rest[2..].find("*/").expect("closed comment") + 2;
                e.kind = "comment";
                e.a = Some(rest[2..n].to_string());
                e.b = Some("block".into());
                e.end = i + n + 2;
                i = e.end;
                out.push(e);
            }
            _ => i += c.len_utf8(),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// literals

pub fn gen_num(g: &mut G) -> Tok {
    let mut t = Tok::new(K::Num, "0");
    fn digits(g: &mut G, max: u32, set: &[u8]) -> String {
        let n = 1 + match g.weighted(&[6, 3, 1]) {
            0 => g.below(3),
            1 => g.below(10),
            _ => g.below(max),
        };
        (0..n).map(|_| *g.pick(set) as char).collect()
    }
    const DEC: &[u8] = b"0123456789";
    let kind = g.weighted(&[5, 2, 2, 2, 2, 2, 2, 2, 3]);
    let exp = |g: &mut G| -> String {
        let sign = *g.pick(&["", "+", "-"]);
        let e = *g.pick(&["e", "E"]);
        let d = match g.weighted(&[5, 3, 2, 1]) {
            0 => g.below(10).to_string(),
            1 => g.below(40).to_string(),
            2 => format!("0{}", g.below(400)),
            _ => digits(g, 14, DEC),
        };
        format!("{}{}{}", e, sign, d)
    };
    let int = |g: &mut G| -> String {
        if g.pct(15) {
            return "0".into();
        }
        let d = digits(g, 30, DEC);
        let d = d.trim_start_matches('0');
        if d.is_empty() {
            "1".into()
        } else {
            d.to_string()
        }
    };
    // Digit counts and exponents around and beyond the range of doubles that partly or wholly
    // cancel out.
    let extreme = |g: &mut G| -> String {
        let zeros = |g: &mut G| "0".repeat(match g.weighted(&[3, 3, 3]) {
            0 => g.below(30),
            1 => g.range(200, 420),
            _ => g.range(290, 330),
        } as usize);
        let d = digits(g, 25, DEC);
        let m = match g.below(3) {
            0 => format!("{}{}{}", 1 + g.below(9), d, zeros(g)),
            1 => format!("0.{}{}", zeros(g), d),
            _ => format!("{}{}{}.{}", 1 + g.below(9), d, zeros(g), digits(g, 25, DEC)),
        };
        let e = match g.below(4) {
            0 => return m,
            1 => g.range(250, 450),
            2 => g.range(295, 330),
            _ => g.below(400),
        };
        format!("{}e{}{}", m, g.pick(&["", "+", "-", "-"]), e)
    };
    t.s = match kind {
        0 if g.pct(20) => extreme(g),
        8 if g.pct(5) => format!("{}{}", g.pick(&["0x", "0X", "0o", "0b"]), "1".repeat(g.range(30, 1100) as usize)),
        0 => int(g),
        1 => format!("{}.{}", int(g), digits(g, 25, DEC)),
        2 => format!("{}.", int(g)),
        3 => format!(".{}", digits(g, 25, DEC)),
        4 => format!("{}{}", int(g), exp(g)),
        5 => format!("{}.{}{}", int(g), if g.pct(30) { String::new() } else { digits(g, 35, DEC) }, exp(g)),
        6 => format!(".{}{}", digits(g, 35, DEC), exp(g)),
        7 => format!("{}{}", g.pick(&["0b", "0B"]), digits(g, 60, b"01")),
        _ => {
            if g.pct(30) {
                format!("{}{}", g.pick(&["0o", "0O"]), digits(g, 25, b"01234567"))
            } else {
                format!("{}{}", g.pick(&["0x", "0X"]), digits(g, 18, b"0123456789abcdefABCDEF"))
            }
        }
    };
    t.val = num_value(&t.s);
    t
}

/// Reference value: Rust's correctly rounded decimal parser, and exact accumulation for radix
/// literals (u128 while it fits, then doubles).
pub fn num_value(s: &str) -> f64 {
    let radix = match s.get(..2) {
        Some("0x") | Some("0X") => 16,
        Some("0o") | Some("0O") => 8,
        Some("0b") | Some("0B") => 2,
        _ => 10,
    };
    if radix == 10 {
        let s = s.strip_suffix('.').unwrap_or(s);
        return s.replace(".e", "e").replace(".E", "E").parse().expect("decimal literal");
    }
    match u128::from_str_radix(&s[2..], radix) {
        Ok(v) => v as f64,
        Err(_) => s[2..].chars().fold(0.0, |a, c| a * radix as f64 + c.to_digit(radix).unwrap() as f64),
    }
}

pub fn gen_str(g: &mut G) -> Tok {
    let q = *g.pick(&["'", "\""]);
    let other = if q == "'" { "\"" } else { "'" };
    let mut s = String::from(q);
    let n = match g.weighted(&[4, 3, 1]) {
        0 => g.below(3),
        1 => g.below(7),
        _ => g.below(20),
    };
    for _ in 0..n {
        let prev_nul = s.ends_with("\\0");
        match g.weighted(&[6, 2, 3, 3, 2, 2, 2, 2, 1, 2]) {
            0 => s.push_str(if prev_nul { "z" } else { *g.pick(&["a", "b ", "foo", "1", "x0", "_"]) }),
            1 => s.push_str(other),
            2 => s.push_str(g.pick(&["//", "/*", "*/", "${", "`", "{", "}", "/", "#", "@", "\t", "[", "]"])),
            3 => s.push_str(g.pick(&["\\n", "\\'", "\\\"", "\\\\", "\\b", "\\f", "\\r", "\\t", "\\v", "\\0"])),
            4 => {
                let v = g.below(256);
                let h = if g.pct(50) { format!("\\x{:02x}", v) } else { format!("\\x{:02X}", v) };
                s.push_str(&h);
            }
            5 => {
                let v = g.below(0x10000);
                let v = if g.pct(15) { *g.pick(&[0, 0xA, 0xD, 0x22, 0x27, 0x5C, 0x2028, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFF]) } else { v };
                s.push_str(&if g.pct(50) { format!("\\u{:04x}", v) } else { format!("\\u{:04X}", v) });
            }
            6 => {
                let v = match g.weighted(&[1, 1, 1, 1]) {
                    0 => g.below(16),
                    1 => g.below(0x10000),
                    2 => *g.pick(&[0, 0xFF, 0x100, 0xFFF, 0x1000, 0xD800, 0xDFFF, 0xFFFF, 0x10000, 0x100000, 0x10FFFE, 0x10FFFF]),
                    _ => g.below(0x110000),
                };
                let z = "0".repeat(if g.pct(10) { g.below(20) } else { g.below(3) } as usize);
                s.push_str(&if g.pct(50) { format!("\\u{{{}{:X}}}", z, v) } else { format!("\\u{{{}{:x}}}", z, v) });
            }
            7 => s.push_str(&format!("\\{}", g.pick(&NLS))),
            8 => s.push_str(g.pick(&["\\d", "\\q", "\\-", "\\ ", "\\é", "\\\u{1F600}", "\\/", "\\`", "\\$", "\\e", "\\\u{2027}"])),
            _ => {
                let (odd, plain) = (odd_char(g), ascii(g));
                match g.below(5) {
                    0 => s.push(odd),
                    1 if !prev_nul && !matches!(plain, '\\' | '\'' | '"') => s.push(plain),
                    2 => s.extend(&['\\', odd]),
                    3 if !plain.is_ascii_digit() && plain != 'x' && plain != 'u' => s.extend(&['\\', plain]),
                    _ => s.push_str(g.pick(&["é", "\u{1F600}", "\u{A0}", "\u{FEFF}", "\u{2027}", "\u{E2}", "日本"])),
                }
            }
        }
        // \r continuation followed by a literal \n piece cannot arise: pieces never start with \n
    }
    let n = stretch(g);
    if n > 0 {
        s.push_str(&g.pick(&["x", "\\n", "é", "\\\n", "\\u{61}"]).repeat(n));
    }
    s.push_str(q);
    Tok::new(K::Str, s)
}

/// Raw text of one template chunk.
pub fn gen_chunk(g: &mut G) -> String {
    let mut s = String::new();
    let n = match g.weighted(&[4, 3, 1]) {
        0 => g.below(2),
        1 => g.below(5),
        _ => g.below(14),
    };
    for _ in 0..n {
        let p: &str = match g.weighted(&[6, 4, 4, 2, 2, 2]) {
            0 => g.pick(&["a", "foo", " ", "1"]),
            1 => g.pick(&["$", "{", "}", "$$", "{{", "$a", "}}"]),
            2 => g.pick(&["\\`", "\\$", "\\${", "\\\\", "\\n", "$\\{", "\\{", "\\}"]),
            3 => g.pick(&NLS),
            4 => g.pick(&["//", "/*", "'", "\"", "/", "\\x41", "\\u{61}", "\\u0041", "\\\n"]),
            _ => {
                let (odd, plain) = (odd_char(g), ascii(g));
                match g.below(5) {
                    0 => s.push(odd),
                    1 => s.extend(&['\\', odd]),
                    2 if !plain.is_ascii_digit() && plain != 'x' && plain != 'u' => s.extend(&['\\', plain]),
                    3 if !matches!(plain, '\\' | '`' | '{') => s.push(plain),
                    _ => {}
                }
                g.pick(&["é", "\u{1F600}", "\u{A0}", "日本"])
            }
        };
        if s.ends_with('$') && p.starts_with('{') {
            continue;
        }
        s.push_str(p);
    }
    let n = stretch(g);
    if n > 0 {
        s.push_str(&g.pick(&["x", "$", "\n", "é", "\\`"]).repeat(n));
    }
    s
}

pub fn gen_re(g: &mut G) -> Tok {
    let mut s = String::from("/");
    let n = 1 + match g.weighted(&[4, 3, 1]) {
        0 => g.below(3),
        1 => g.below(6),
        _ => g.below(14),
    };
    let mut simple = true;
    for i in 0..n {
        let mut quant = true;
        match g.weighted(&[6, 4, 4, 2, 2, 2]) {
            0 => s.push_str(g.pick(&["a", "b", "0", "x", " ", "."])),
            1 => s.push_str(g.pick(&["\\/", "\\\\", "\\d", "\\w", "\\.", "\\[", "\\]", "\\*", "\\(", "\\n", "\\$"])),
            2 => {
                s.push('[');
                if g.pct(25) {
                    s.push('^');
                }
                for _ in 0..g.count(5) {
                    s.push_str(g.pick(&["a", "/", "\\]", "\\\\", "[", "\\/", "`", "'", "\"", "*", "é", "(", "{", "//", "/*", "\\["]));
                    simple = false;
                }
                s.push(']');
            }
            3 => {
                let (odd, plain) = (odd_char(g), ascii(g));
                match g.below(4) {
                    0 => s.push(odd),
                    1 if plain.is_ascii_punctuation() => s.extend(&['\\', plain]),
                    2 => s.extend(&['[', '\\', '-', odd, ']']),
                    _ => s.push_str(g.pick(&["'", "\"", "`", "#", "@", "é", "日", ",", ";", "=", "<", "-", "&"])),
                }
                simple = false;
            }
            4 => {
                s.push_str(g.pick(&["(?:a|/)", "(b)", "(?=c)", "()", "(?!\\/)"]).replace("|/)", "|\\/)").as_str());
                simple = false;
            }
            _ => {
                s.push_str(g.pick(&["^", "$", "|", "\\b"]));
                quant = false;
            }
        }
        if quant && g.pct(20) {
            s.push_str(g.pick(&["*", "+", "?", "*?", "{2}", "{1,}"]));
            if s.ends_with(")*") {
                simple = false;
            }
        }
        let _ = i;
    }
    let n = stretch(g);
    if n > 0 {
        s.push_str(&g.pick(&["x", "[/]", "é", "\\/"]).repeat(n));
    }
    s.push('/');
    let mut flags = String::new();
    for f in ["g", "i", "m", "y", "s"] {
        if g.pct(20) {
            flags.push_str(f);
        }
    }
    if simple && g.pct(10) && !s.contains('\\') {
        flags.insert(0, 'u');
    }
    s.push_str(&flags);
    Tok::new(K::Re, s)
}
