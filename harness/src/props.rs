//! One generator per property: draws a case from the choice tape.
use crate::case::*;
use crate::engine::Gen;
use crate::js::*;
use crate::lexgen::*;
use crate::refparse::{check, Verdict};
use crate::tape::G;

pub const IDS: [&str; 26] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C25", "C26", "C27",
];

/// Cases per tier.
pub fn counts(id: &str) -> (u64, u64) {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => (2_000_000, 100_000_000),
        "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C20" => (3_000_000, 60_000_000),
        "C17" | "C18" | "C19" | "C22" => (2_000_000, 60_000_000),
        "C21" => (1_500_000, 60_000_000),
        "C25" => (200_000, 10_000_000),
        "C26" => (60_000, 4_000_000),
        "C27" => (250_000, 15_000_000),
        _ => (12_000, 400_000),
    }
}

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "text of at least three pieces, distinct as (text, hints)",
        "C02" => "text with at least two tokens and one line terminator or multi-byte character, distinct",
        "C03" => "run with at least one place where a shorter split was possible (two adjacent pieces without blank), distinct",
        "C04" | "C05" | "C06" | "C07" | "C08" => "text whose literal (comment) under test has at least two characters between its delimiters, or a number other than a single digit; distinct",
        "C09" => "text with exactly one malformed token, distinct",
        "C15" => "module text the independent recogniser rejects, distinct",
        "C16" => "text with a semicolon left out or a restricted production, distinct",
        "C17" => "pair of different layouts of at least three tokens, distinct",
        "C18" => "every (position, word) combination is a case; distinct texts are counted",
        "C19" => "probe nested in at least one context, distinct",
        "C20" => "composition of at least two parts or one part and a context, distinct",
        "C21" => "text of at least three characters, distinct",
        "C22" => "module of at least three tokens, distinct as (text, variant)",
        "C25" => "history of at least three steps over at least two texts, distinct",
        "C27" => "text of at least three tokens, characters or pieces, distinct",
        "C26" => "text of at least three characters, distinct as (text, repetition, way of reading)",
        "C23" => "distinct (file contents, mode)",
        _ => "module of at least four tokens, distinct",
    }
}

pub fn assumptions(id: &str) -> &'static [&'static str] {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" => &[
            "expected tokens come from the generator, which builds the text from the tokens, and not from a second tokenizer",
            "names are ASCII; CR LF may be delivered as one or two line-terminator tokens",
        ],
        "C10" | "C11" | "C12" | "C13" | "C14" => &[
            "generated programs are well-formed by construction; the generator was validated against acorn during development",
        ],
        "C15" | "C16" => &[
            "the expected rejection comes from an independent recogniser that over-approximates the grammar; it was validated against acorn during development",
        ],
        "C21" => &["overflow checks and debug assertions are on in the build under test", "nesting up to a few hundred levels with 512 MB of stack; long flat texts on 512 kB of stack"],
        _ => &[],
    }
}

fn class_names(c: u128) -> Vec<&'static str> {
    (0..CLASS_NAMES.len()).filter(|i| c >> i & 1 == 1).map(|i| CLASS_NAMES[i]).collect()
}
fn plain(case: Case, nontrivial: bool, class: &'static str) -> Gen {
    Gen { case, nontrivial, classes: vec![class] }
}

// ---- token lists ------------------------------------------------------------------------------

fn any_tok(g: &mut G) -> Tok {
    match g.weighted(&[4, 8, 3, 3, 2, 2]) {
        0 => {
            let n = stretch(g);
            if n > 0 {
                return Tok::n(&g.pick(&["x", "a1", "$_"]).repeat(n));
            }
            Tok::n(if g.pct(50) { *g.pick(&RESERVED) } else { *g.pick(&REFS) })
        }
        1 => {
            let i = g.below(52) as usize;
            Tok::p(PUNCTS[i])
        }
        2 => gen_num(g),
        3 => gen_str(g),
        4 => any_tpl(g),
        _ => gen_re(g),
    }
}
fn any_tpl(g: &mut G) -> Tok {
    let f = g.below(4) as u8;
    let c = gen_chunk(g);
    tpl_tok(f, &c)
}
fn tpl_tok(f: u8, c: &str) -> Tok {
    let open = if f < 2 { "`" } else { "}" };
    let close = if f == 0 || f == 3 { "`" } else { "${" };
    Tok::new(K::Tpl(f), format!("{}{}{}", open, c, close))
}
/// Ordinary neighbours, light on exotic contents.
fn neighbours(g: &mut G, max: u32) -> Vec<Tok> {
    (0..g.count(max))
        .map(|_| match g.weighted(&[5, 6, 1, 1]) {
            0 => Tok::n(*g.pick(&REFS)),
            1 => {
                let i = g.below(52) as usize;
                Tok::p(PUNCTS[i])
            }
            2 => gen_str(g),
            _ => gen_num(g),
        })
        .collect()
}
/// Bits of the hint that the token's own first character makes irrelevant are randomised.
fn wobble(g: &mut G, src: &str, toks: &mut [ETok]) {
    for t in toks.iter_mut() {
        if g.pct(30) {
            let c = src[t.start..].chars().next();
            if c != Some('/') || t.kind == "comment" {
                t.hint ^= g.below(2) as u8 & 1;
            }
            if c != Some('}') {
                t.hint ^= (g.below(2) as u8) << 1;
            }
        }
    }
}
fn layout(g: &mut G) -> Layout {
    *g.pick(&[Layout::Plain, Layout::Tight, Layout::Wild])
}
fn lex_case(g: &mut G, toks: &[Tok], lay: Layout, what: u8) -> Case {
    let r = render(g, toks, lay);
    let mut t = with_trivia(&r.src, &r.toks);
    wobble(g, &r.src, &mut t);
    Case::Lex { src: r.src, toks: t, what }
}
/// A token of interest between ordinary neighbours, often at the very end of the text.
fn around(g: &mut G, t: Tok) -> Vec<Tok> {
    let mut v = neighbours(g, 3);
    v.push(t);
    if g.pct(50) {
        v.extend(neighbours(g, 3));
    }
    v
}

// ---- soups ------------------------------------------------------------------------------------

const ODD: [&str; 44] = [
    "\n", "\r\n", "\r", "\u{2028}", "\u{2029}", " ", "\t", "\u{0B}", "\u{0C}", "\u{A0}", "\u{FEFF}", "//", "/*", "*/", "//x\n", "/* */", "'",
    "\"", "`", "${", "}", "\\", "#", "@", "é", "\u{1F600}", "\u{0}", "0x", "0b", "0o", "1e", "08", "1a", "\\u0041", "<!--", "-->", "\\\n",
    "'\\", "/[", "/\\", "\u{200B}", "\u{85}", "\u{3000}", "$",
];
fn piece(g: &mut G) -> String {
    match g.weighted(&[6, 5, 2]) {
        0 => any_tok(g).s,
        1 => g.pick(&ODD).to_string(),
        _ => {
            let c = match g.weighted(&[3, 2, 1, 1]) {
                0 => g.below(0x80),
                1 => g.below(0x800),
                2 => g.below(0x10000),
                _ => g.below(0x110000),
            };
            std::char::from_u32(c).unwrap_or('\u{FFFD}').to_string()
        }
    }
}
fn soup(g: &mut G, max: u32) -> (String, u32) {
    let n = 1 + match g.weighted(&[3, 3, 1]) {
        0 => g.below(4),
        1 => g.below(10),
        _ => g.below(max),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&piece(g));
        if g.pct(20) {
            s.push_str(g.pick(&[" ", "\n"]));
        }
    }
    (s, n)
}

// ---- mutation ---------------------------------------------------------------------------------

const SWAPS: [(&str, &str); 20] = [
    ("(", ")"), (")", "("), ("[", "]"), ("]", "["), ("{", "}"), ("}", "{"), ("(", "{"), (")", "}"), ("]", ")"), (";", ","),
    (",", ";"), ("=", "=="), ("=>", "="), (":", "?"), (".", ","), ("...", "."), ("*", "**"), ("++", "+"), ("in", "of"), ("catch", "finally"),
];

/// One token-level edit. Gaps are kept with their tokens.
/// What starts a clause of a larger construct.
const CLAUSES: [&str; 21] = [
    "default", "case", "catch", "finally", "else", "extends", "while", "static", "get", "set", "async", "constructor", "as", "from", "of", "in", "...",
    "=", "=>", "*", "?",
];
pub fn mutate(g: &mut G, v: &mut Vec<Tok>, other: &[Tok]) -> &'static str {
    if v.is_empty() {
        v.push(any_tok(g));
        return "insert";
    }
    let i = g.below(v.len() as u32) as usize;
    match g.weighted(&[5, 2, 3, 4, 4, 2, 2, 2, 3, 2, 2, 2, 2]) {
        0 => {
            v.remove(i);
            "delete"
        }
        1 => {
            let t = v[i].clone();
            v.insert(i, t);
            "duplicate"
        }
        2 => {
            if i + 1 < v.len() {
                v.swap(i, i + 1);
            } else {
                v.remove(i);
            }
            "swap"
        }
        3 => {
            let gap = v[i].gap;
            v[i] = any_tok(g);
            v[i].gap = gap;
            "replace"
        }
        4 => {
            v.insert(i, any_tok(g));
            "insert"
        }
        5 => {
            v.truncate(i);
            "truncate"
        }
        6 => {
            let j = (i + 1 + g.below(4) as usize).min(v.len());
            v.drain(i..j);
            "delete-range"
        }
        7 => {
            if !other.is_empty() {
                let a = g.below(other.len() as u32) as usize;
                let b = (a + 1 + g.below(6) as usize).min(other.len());
                for (k, t) in other[a..b].iter().enumerate() {
                    v.insert(i + k, t.clone());
                }
            }
            "splice"
        }
        8 => {
            // replace by something that looks alike, or a keyword by a keyword
            let cands: Vec<&str> = SWAPS.iter().filter(|s| s.0 == v[i].s).map(|s| s.1).collect();
            let gap = v[i].gap;
            if !cands.is_empty() {
                let s = *g.pick(&cands);
                v[i] = if is_id_char(s.chars().next().unwrap()) { Tok::n(s) } else { Tok::p(s) };
            } else if v[i].k == K::Name {
                v[i] = Tok::n(*g.pick(&RESERVED));
            } else {
                v.remove(i);
                return "delete";
            }
            v[i].gap = gap;
            "lookalike"
        }
        10 => {
            // copy a few tokens elsewhere
            let j = (i + 1 + g.below(6) as usize).min(v.len());
            let part = v[i..j].to_vec();
            let at = g.below(v.len() as u32 + 1) as usize;
            for (k, t) in part.into_iter().enumerate() {
                v.insert(at + k, t);
            }
            "copy"
        }
        11 => {
            // a clause once more, or one that is another's
            let starts: Vec<usize> = (0..v.len()).filter(|&k| CLAUSES.contains(&&v[k].s[..])).collect();
            if starts.is_empty() {
                v.remove(i);
                return "delete";
            }
            let a = *g.pick(&starts);
            let mut depth = 0i32;
            let mut b = a + 1;
            // up to the next clause, or the end of what encloses it
            while b < v.len() {
                match &v[b].s[..] {
                    "(" | "[" | "{" => depth += 1,
                    ")" | "]" | "}" if depth == 0 => break,
                    ")" | "]" | "}" => {
                        depth -= 1;
                        if depth == 0 && v[b].is("}") {
                            b += 1;
                            break;
                        }
                    }
                    s if depth == 0 && CLAUSES.contains(&s) => break,
                    _ => {}
                }
                b += 1;
            }
            let part: Vec<Tok> = v[a..b].to_vec();
            let at = match g.below(3) {
                0 => a,
                1 => b,
                _ => *g.pick(&starts),
            };
            if g.pct(20) {
                v.drain(a..b);
                let at = at.min(v.len());
                for (k, t) in part.into_iter().enumerate() {
                    v.insert(at + k, t);
                }
                return "move-clause";
            }
            for (k, t) in part.into_iter().enumerate() {
                v.insert(at + k, t);
            }
            "copy-clause"
        }
        12 => {
            // something that is no longer assigned to, raised or iterated into
            let at: Vec<usize> = (1..v.len())
                .filter(|&k| matches!(&v[k].s[..], "**" | "of" | "in" | "=>") || (v[k].s.ends_with('=') && !matches!(&v[k].s[..], "==" | "===" | "!=" | "!==")))
                .collect();
            if at.is_empty() {
                v.remove(i);
                return "delete";
            }
            let k = *g.pick(&at);
            let ins: Vec<Tok> = match g.below(6) {
                0 => vec![Tok::p("+"), Tok::n("x")],
                1 => vec![Tok::p("?"), Tok::n("x"), Tok::p(":"), Tok::n("y")],
                2 => vec![Tok::p("++")],
                3 => vec![Tok::p(","), Tok::n("x")],
                4 => vec![Tok::n("instanceof"), Tok::n("x")],
                _ => {
                    let op = match g.below(4) {
                        0 => Tok::p("-"),
                        1 => Tok::p("!"),
                        2 => Tok::n("typeof"),
                        _ => Tok::p("++"),
                    };
                    v.insert(k - 1, op);
                    return "target";
                }
            };
            for (n, t) in ins.into_iter().enumerate() {
                v.insert(k + n, t);
            }
            "target"
        }
        _ => {
            // move one token elsewhere
            let t = v.remove(i);
            let j = g.below(v.len() as u32 + 1) as usize;
            v.insert(j, t);
            "move"
        }
    }
}
fn cut_chars(g: &mut G, s: &str) -> String {
    let n = s.chars().count() as u32;
    let k = g.below(n.max(1)) as usize;
    s.chars().take(k).collect()
}

// ---- module foci ------------------------------------------------------------------------------

fn focus(g: &mut G) -> Focus {
    let mut f = FOCUS;
    f.items = 3;
    f.max_depth = 1 + g.below(4);
    f.fun = g.below(4);
    f.stmt = g.below(5);
    f.module = g.below(3);
    f.tpl = g.below(4);
    f.asi = *g.pick(&[0, 25, 100]);
    f
}
fn small_module(g: &mut G) -> (Vec<Tok>, u128) {
    let mut f = focus(g);
    f.items = 2;
    f.max_depth = 1 + g.below(3);
    gen_module(g, f)
}

// ---- the properties ---------------------------------------------------------------------------

/// A case for the property. One of absurd size (the generators' lists multiply) is not looked at: it would be
/// about this machine's memory.
pub fn gen(id: &str, g: &mut G) -> Gen {
    let gen = gen_any(id, g);
    let size = match &gen.case {
        Case::Lex { src, .. } | Case::Tile { src, .. } | Case::LexFail { src, .. } | Case::Accept { src } | Case::Reject { src, .. } => src.len(),
        Case::Stream { src, .. } | Case::Robust { src } | Case::Substitute { src, .. } => src.len(),
        Case::Same { a, b } => a.len() + b.len(),
        Case::AllAccept { then, .. } | Case::StillReject { then, .. } => then.len(),
        Case::Cli { bytes, .. } => bytes.len(),
        _ => 0,
    };
    if size > 16 << 20 {
        return plain(Case::Robust { src: String::new() }, false, "too large");
    }
    gen
}
fn gen_any(id: &str, g: &mut G) -> Gen {
    match id {
        "C01" => c01(g),
        "C02" => c02(g),
        "C03" => c03(g),
        "C04" => c04(g),
        "C05" => c05(g),
        "C06" => c06(g),
        "C07" => c07(g),
        "C08" => c08(g),
        "C09" => c09(g),
        "C10" => c10(g),
        "C11" => c11(g),
        "C12" => c12(g),
        "C13" => c13(g),
        "C14" => c14(g),
        "C15" => c15(g),
        "C16" => c16(g),
        "C17" => c17(g),
        "C18" => c18(g),
        "C19" => crate::ctx::c19(g),
        "C20" => c20(g),
        "C21" => c21(g),
        "C22" => c22(g),
        "C23" => c23(g),
        "C25" => c25(g),
        "C26" => c26(g),
        "C27" => c27(g),
        _ => panic!("unknown property {}", id),
    }
}

fn c01(g: &mut G) -> Gen {
    if g.pct(40) {
        let n = 1 + g.below(12);
        let v: Vec<Tok> = (0..n).map(|_| any_tok(g)).collect();
        let lay = layout(g);
        return plain(lex_case(g, &v, lay, EXTENT | TEXT), n >= 3, "token list");
    }
    if g.pct(25) {
        let (mut v, _) = small_module(g);
        for _ in 0..g.count(3) {
            mutate(g, &mut v, &[]);
        }
        let lay = layout(g);
        let r = render(g, &v, lay);
        let hints: Vec<u8> = (0..1 + g.below(4)).map(|_| g.below(4) as u8).collect();
        return plain(Case::Tile { src: r.src, hints }, v.len() >= 3, "program text, any hints");
    }
    let (src, n) = soup(g, 30);
    let hints: Vec<u8> = (0..1 + g.below(5)).map(|_| g.below(4) as u8).collect();
    plain(Case::Tile { src, hints }, n >= 3, "soup, any hints")
}

fn c02(g: &mut G) -> Gen {
    let n = 1 + g.below(10);
    let v: Vec<Tok> = (0..n)
        .map(|_| match g.weighted(&[3, 3, 2]) {
            0 => any_tok(g),
            1 => any_tpl(g),
            _ => gen_str(g),
        })
        .collect();
    let lay = if g.pct(80) { Layout::Wild } else { Layout::Plain };
    let c = lex_case(g, &v, lay, EXTENT | POSITION);
    let nt = match &c {
        Case::Lex { src, .. } => n >= 2 && (has_nl(src) || !src.is_ascii()),
        _ => false,
    };
    plain(c, nt, "token list")
}

/// Reference split of a run of punctuator and name characters; None where a comment, a number or
/// anything else would start.
fn split_run(run: &str, base: usize) -> Option<Vec<ETok>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < run.len() {
        let rest = &run[i..];
        let c = rest.chars().next().unwrap();
        if c == ' ' {
            i += 1;
            continue;
        }
        let n = rest.len() - rest.trim_start_matches(is_id_char).len();
        let t = if n > 0 {
            if c.is_ascii_digit() {
                return None;
            }
            Tok::n(&rest[..n])
        } else {
            if rest.starts_with("//") || rest.starts_with("/*") {
                return None;
            }
            let p = longest_punct(rest)?;
            if p == "." && rest[1..].starts_with(|c: char| c.is_ascii_digit()) {
                return None;
            }
            Tok::p(p)
        };
        out.push(expect(&t, base + i));
        i += t.s.len();
    }
    Some(out)
}
fn c03(g: &mut G) -> Gen {
    let pre = neighbours(g, 3);
    let r = render(g, &pre, Layout::Plain);
    let mut src = r.src;
    let mut toks = r.toks;
    if !src.is_empty() {
        src.push_str(g.pick(&[" ", "\n", " /**/", "\u{A0}", "\t"]));
    }
    let n = 1 + match g.weighted(&[3, 2, 1]) {
        0 => g.below(3),
        1 => g.below(8),
        _ => g.below(20),
    };
    let mut run = String::new();
    let mut adj = 0;
    for _ in 0..n {
        let before = run.clone();
        let p = match g.weighted(&[6, 4, 3, 1, 1]) {
            0 => {
                let i = g.below(52) as usize;
                PUNCTS[i].to_string()
            }
            1 => g.pick(&["<", ">", "=", "!", "+", "-", "*", "&", "|", ".", "%", "^", "/", "?", ":"]).to_string(),
            4 => {
                // what other dialects read differently, or long runs of one character
                if g.pct(50) {
                    g.pick(&["<!--", "-->", "?.", "??", "&&=", "||=", "??=", "|>", "::", "=>>", "<>", "...a", "..", "....", "a.b", "?.a", "<!", "--!>"]).to_string()
                } else {
                    let n = 1 + g.below(12);
                    g.pick(&["<", ">", "=", "!", "+", "-", "*", "&", "|", ".", "%", "^"]).repeat(n as usize)
                }
            }
            2 => match g.below(4) {
                0 => g.pick(&RESERVED).to_string(),
                1 => g.pick(&["a", "Z", "$", "_", "$_0", "a1", "A9z", "of", "e1", "x0b"]).to_string(),
                _ => {
                    let n = 1 + g.count(6) + stretch(g) as u32;
                    (0..n)
                        .map(|i| {
                            let set: &[u8] = b"abzABZ$_mMnNqQ0123456789";
                            let k = g.below(if i == 0 { 14 } else { 24 }) as usize;
                            set[k] as char
                        })
                        .collect()
                }
            },
            _ => " ".to_string(),
        };
        if !run.is_empty() && !run.ends_with(' ') && p != " " {
            adj += 1;
        }
        run.push_str(&p);
        if split_run(&run, 0).is_none() {
            run = before;
            run.push(' ');
            run.push_str(&p);
            if split_run(&run, 0).is_none() {
                run.truncate(run.len() - p.len());
            }
        }
    }
    let base = src.len();
    toks.extend(split_run(&run, base).unwrap_or_default());
    src.push_str(&run);
    let suf = *g.pick(&["", "", "", " ", "\n", "\r\n", "\u{2028}", "\u{A0}", "\u{FEFF}", "\t "]);
    src.push_str(suf);
    let mut t = with_trivia(&src, &toks);
    wobble(g, &src, &mut t);
    plain(Case::Lex { src, toks: t, what: EXTENT | TEXT }, adj > 0, if suf.is_empty() { "at the end of the text" } else { "followed by trivia" })
}

fn c04(g: &mut G) -> Gen {
    let t = gen_num(g);
    let nt = t.s.len() > 1;
    let v = around(g, t);
    let lay = layout(g);
    plain(lex_case(g, &v, lay, EXTENT | VALUE), nt, "number")
}
fn c05(g: &mut G) -> Gen {
    let t = gen_str(g);
    let nt = t.s.len() > 3;
    let class = if t.s.contains('\\') { "with escapes" } else { "without escapes" };
    if g.pct(20) {
        // inside a module
        let mut v = vec![Tok::n("x"), Tok::p("="), t, Tok::p(";")];
        if g.pct(50) {
            v.extend(vec![Tok::p("["), gen_str(g), Tok::p(","), gen_str(g), Tok::p("]"), Tok::p(";")]);
        }
        let lay = layout(g);
        let r = render(g, &v, lay);
        return plain(Case::Stream { src: r.src, toks: r.toks }, nt, class);
    }
    let v = around(g, t);
    let lay = layout(g);
    plain(lex_case(g, &v, lay, EXTENT | TEXT), nt, class)
}
fn c06(g: &mut G) -> Gen {
    if g.pct(50) {
        let t = any_tpl(g);
        let nt = t.s.len() > 4;
        let v = around(g, t);
        let lay = layout(g);
        return plain(lex_case(g, &v, lay, EXTENT | TEXT), nt, "single chunk");
    }
    // nested templates in a module
    let mut f = FOCUS;
    f.tpl = 14;
    f.fun = g.below(3);
    f.max_depth = 4;
    let (v, c) = {
        let mut b = B::new(g, f);
        let d = 2 + b.g.below(4);
        if b.g.pct(40) {
            b.n("x");
            b.p("=");
        }
        b.template(TOP, d);
        b.semi();
        if b.g.pct(40) {
            b.module_item(2);
        }
        (std::mem::take(&mut b.out), b.classes)
    };
    let lay = layout(g);
    let r = render(g, &v, lay);
    Gen { case: Case::Stream { src: r.src, toks: r.toks }, nontrivial: v.len() > 3, classes: class_names(c) }
}
fn c07(g: &mut G) -> Gen {
    let t = gen_re(g);
    let nt = t.s.len() > 4;
    if g.pct(30) {
        let head: &[&str] = g.pick(&[
            &["x", "="][..],
            &["("][..],
            &["a", ","][..],
            &["!"][..],
            &[][..],
            &["typeof"][..],
            &["a", "?", "b", ":"][..],
            &["a", "&&"][..],
            &["{", "}"][..],
            &["throw"][..],
            &[";"][..],
        ]);
        let mut v: Vec<Tok> =
            head.iter().map(|s| if is_id_char(s.chars().next().unwrap()) { Tok::n(s) } else { Tok::p(s) }).collect();
        let mut t = t;
        if head.first() == Some(&"throw") {
            t.gap = Gap::NoNl;
        }
        v.push(t);
        if head.first() == Some(&"(") {
            v.push(Tok::p(")"));
        }
        if g.pct(40) {
            v.extend(vec![Tok::p("."), Tok::n("test")]);
        }
        if g.pct(70) {
            v.push(Tok::p(";"));
        }
        let lay = layout(g);
        let r = render(g, &v, lay);
        return plain(Case::Stream { src: r.src, toks: r.toks }, nt, "in a module");
    }
    let v = around(g, t);
    let lay = layout(g);
    plain(lex_case(g, &v, lay, EXTENT | TEXT), nt, "pulled directly")
}
fn c08(g: &mut G) -> Gen {
    let v = neighbours(g, 4);
    let c = lex_case(g, &v, Layout::Wild, EXTENT | TEXT);
    let (nt, class) = match &c {
        Case::Lex { src, toks, .. } => {
            let c = toks.iter().any(|t| t.kind == "comment" && t.end - t.start > 4);
            (
                c || src.len() > 8 && has_nl(src),
                if !c {
                    "no long comment"
                } else if toks.len() > 1 && toks[toks.len() - 2].kind == "comment" {
                    "comment ends the text"
                } else {
                    "comment inside"
                },
            )
        }
        _ => (false, ""),
    };
    plain(c, nt, class)
}

/// Text in which no token starts as the grammar wants: (text, hint, name). `tail`: more text may
/// follow on a new line; otherwise it must be the last thing in the file.
/// Any literal or comment, with one thing wrong.
fn broken(g: &mut G) -> (String, u8, &'static str, bool) {
    const STR_NL: [&str; 3] = ["\n", "\r", "\r\n"];
    const ESCAPES: [&str; 34] = [
        "\\xg", "\\x1g", "\\x-1", "\\xg1", "\\x 1", "\\ug", "\\u1g", "\\u12g", "\\u123g", "\\u{}", "\\u{g}", "\\u{12g}", "\\u{1,}", "\\u{ 1}", "\\u{1 }", "\\u{-1}", "\\u{110000}", "\\u{0110000}",
        "\\u{FFFFFF}", "\\u{100000000}", "\\u{10000000000000041}", "\\00", "\\01", "\\07", "\\08", "\\09", "\\1", "\\2", "\\7", "\\8", "\\9", "\\u{11FFFF}", "\\u{200000}", "\\xé",
    ];
    match g.weighted(&[5, 3, 2, 4, 2]) {
        0 => {
            let s = crate::lexgen::gen_str(g).s;
            let inner: Vec<(usize, char)> = s.char_indices().skip(1).collect();
            // between the quotes: before which characters no escape is under way
            let mut free = vec![];
            let mut escape = 0;
            let mut long = false;
            let mut after_cr = false;
            for &(i, c) in &inner {
                match escape {
                    0 => {
                        if !after_cr {
                            free.push(i);
                        }
                        after_cr = false;
                        if c == '\\' {
                            escape = 1;
                        }
                    }
                    1 => {
                        escape = match c {
                            'x' => 2,
                            'u' => 4,
                            _ => 0,
                        };
                        after_cr = c == '\r';
                        long = false;
                    }
                    _ => {
                        if escape == 4 && c == '{' {
                            long = true;
                        } else if long {
                            if c == '}' {
                                escape = 0;
                            }
                            continue;
                        }
                        escape = match escape {
                            2 => 3,
                            3 => 0,
                            4 => 5,
                            5 => 6,
                            6 => 7,
                            _ => 0,
                        };
                    }
                }
            }
            match g.below(3) {
                0 => {
                    let i = g.pick(&inner).0;
                    (s[..i].to_string(), 0, "unterminated string", false)
                }
                1 => {
                    // in an escape is as bad, but not straight after the backslash
                    let i = if free.is_empty() { 1 } else { *g.pick(&free) };
                    (format!("{}{}{}", &s[..i], g.pick(&STR_NL), &s[i..]), 0, "line break in a string", true)
                }
                _ => {
                    let i = if free.is_empty() { 1 } else { *g.pick(&free) };
                    (format!("{}{}{}", &s[..i], g.pick(&ESCAPES), &s[i..]), 0, "malformed escape", true)
                }
            }
        }
        1 => {
            let t = crate::lexgen::gen_re(g).s;
            let end = t.rfind('/').unwrap();
            let at: Vec<usize> = t[..=end].char_indices().map(|x| x.0).skip(1).collect();
            let i = *g.pick(&at);
            if g.pct(40) {
                (t[..i].to_string(), 1, "unterminated regular expression", false)
            } else {
                (format!("{}{}{}", &t[..i], g.pick(&NLS), &t[i..]), 1, "line break in a regular expression", true)
            }
        }
        2 => {
            let t = crate::lexgen::gen_chunk(g);
            let cut = t.char_indices().map(|x| x.0).chain(Some(t.len())).collect::<Vec<_>>();
            let t = &t[..*g.pick(&cut)];
            if g.pct(50) {
                (format!("`{}", t), 0, "unterminated template", false)
            } else {
                (format!("}}{}", t), 2, "unterminated template continuation", false)
            }
        }
        3 => {
            let t = gen_num(g).s;
            let s = *g.pick(&["g", "_", "$", "z", "in", "of", "instanceof", "é", "日", "n", "g1", "_0", "px"]);
            if t.starts_with("0b") && g.pct(30) {
                return (format!("{}{}", t, 2 + g.below(8)), 0, "digit out of range", true);
            }
            if t.starts_with("0o") && g.pct(30) {
                return (format!("{}{}", t, 8 + g.below(2)), 0, "digit out of range", true);
            }
            (format!("{}{}", t, s), 0, "number run into a name", true)
        }
        _ => {
            let t = crate::lexgen::comment_text(g, true, true);
            (format!("/*{}", t), 0, "unterminated comment", false)
        }
    }
}
fn malformed(g: &mut G) -> (String, u8, &'static str, bool) {
    if g.pct(50) {
        return broken(g);
    }
    let inner = |g: &mut G, no: &[char]| -> String {
        let mut s = String::new();
        for _ in 0..g.count(5) {
            s.push_str(g.pick(&["a", "b c", "1", "\\n", "\\\\", "\\'", "\\\"", "\\`", "é", "//", "{", "}", "'", "\"", "`", "$", "/", "[", "\u{1F600}"]));
        }
        s.retain(|c| !no.contains(&c));
        while s.ends_with('\\') {
            s.pop();
        }
        s
    };
    // content of a string, without the quote itself
    let strin = |g: &mut G, q: char| -> String {
        let mut s = String::new();
        for _ in 0..g.count(5) {
            let p: &str = g.pick(&["a", "b c", "1", "\\n", "\\\\", "\\'", "\\\"", "é", "//", "{", "`", "$", "/*", "\\\n", "\u{1F600}"]);
            s.push_str(p);
        }
        if g.pct(30) {
            s.push(if q == '\'' { '"' } else { '\'' });
        }
        s
    };
    match g.weighted(&[3, 3, 3, 3, 3, 4, 5, 3, 4]) {
        0 => {
            let q = *g.pick(&['\'', '"']);
            let s = strin(g, q);
            let end = *g.pick(&["", "", "\\"]);
            (format!("{}{}{}", q, s, end), 0, "unterminated string", false)
        }
        1 => {
            let q = *g.pick(&['\'', '"']);
            let s = strin(g, q);
            let nl = *g.pick(&["\n", "\r", "\r\n"]);
            let rest = strin(g, q);
            let close = if g.pct(70) { q.to_string() } else { String::new() };
            (format!("{}{}{}{}{}", q, s, nl, rest.replace('\n', ""), close), 0, "line break in a string", true)
        }
        2 => {
            let mut s = inner(g, &['`']);
            while s.contains("${") {
                s = s.replace("${", "$");
            }
            let s = if s.ends_with('$') { s + " " } else { s };
            let nl = if g.pct(30) { "\n" } else { "" };
            if g.pct(50) {
                (format!("`{}{}{}", s, nl, g.pick(&["", "$", "\\`", "\\${"])), 0, "unterminated template", false)
            } else {
                (format!("}}{}{}{}", s, nl, g.pick(&["", "$", "\\`", "\\${"])), 2, "unterminated template continuation", false)
            }
        }
        3 => {
            let s = inner(g, &['/', '`']);
            let s = format!("{}{}", g.pick(&["a", "\\/", "[/]", "(", "[/"]), s);
            let closed = s.replace("[/", "").is_empty();
            let _ = closed;
            if g.pct(50) {
                (format!("/{}{}", s, g.pick(&["", "\\"])), 1, "unterminated regular expression", false)
            } else {
                let nl = *g.pick(&NLS);
                let esc = if g.pct(30) { "\\" } else { "" };
                (format!("/{}{}{}/", s, esc, nl), 1, "line break in a regular expression", true)
            }
        }
        4 => {
            let mut s = inner(g, &[]);
            while s.contains("*/") {
                s = s.replace("*/", "*");
            }
            let nl = if g.pct(30) { *g.pick(&NLS) } else { "" };
            (format!("/*{}{}{}", s, nl, g.pick(&["", "*", "**", "/", "* /"])), g.below(2) as u8, "unterminated comment", false)
        }
        5 => {
            let q = *g.pick(&['\'', '"']);
            let bad = *g.pick(&[
                "\\x", "\\x4", "\\xg1", "\\x1g", "\\xé1", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\ug000", "\\u{}", "\\u{", "\\u{1",
                "\\u{g}", "\\u{110000}", "\\u{FFFFFFFFFFFFFFFFF}", "\\u{1 }", "\\x 1", "\\u 123", "\\1", "\\7", "\\8", "\\9", "\\00", "\\01", "\\08",
            ]);
            let a = strin(g, q);
            let b = strin(g, q);
            // a digit must not complete the escape
            let b = if b.starts_with(|c: char| c.is_ascii_hexdigit() || c == '}') { format!(" {}", b) } else { b };
            (format!("{}{}{}{}{}", q, a, bad, b, q), 0, "bad escape", true)
        }
        6 => {
            let t = match g.below(6) {
                0 => g.pick(&["0x", "0X", "0b", "0B", "0o", "0O"]).to_string(),
                1 => format!("{}{}", g.pick(&["0x", "0X"]), g.pick(&["g", "_", "é", "$", ".", "-1", "x1", ""])),
                2 => format!("{}{}", g.pick(&["0b", "0B"]), g.pick(&["2", "12", "019", "a", "b1", ".1", "1a", "1_"])),
                3 => format!("{}{}", g.pick(&["0o", "0O"]), g.pick(&["8", "18", "79", "a", "1g", "o1"])),
                4 => format!("{}{}", g.pick(&["1", "0", "25", "1.5", ".5", "3."]), g.pick(&["e", "E", "e+", "e-", "e x", "ex", "e+-1"])),
                _ => format!("{}{}", g.pick(&["1", "0", "25", "1.5", ".5", "1e5", "0x1", "0b1", "3."]), g.pick(&["a", "_", "$", "in x", "px", "n", "é"])),
            };
            // `0x1` + `a` is a longer hexadecimal literal, `3.` + `e...` an exponent
            let t = if t.starts_with("0x1a") { "0x1g".to_string() } else { t };
            (t, g.below(2) as u8, "malformed number", true)
        }
        7 => (
            g.pick(&["00", "01", "07", "08", "09", "010", "0123", "00.5", "08.5", "0_1"]).to_string(),
            0,
            "leading zero",
            true,
        ),
        _ => (
            format!(
                "{}{}",
                g.pick(&["#", "@", "\\", "\\n", "§", "\u{0}", "\u{1}", "\u{7f}", "\u{200B}", "\u{85}", "»", "\u{FFFD}", "\u{1F600}", "€", "\\x41", "\\u{"]),
                g.pick(&["", " ", "a", "1", "\n"])
            ),
            g.below(4) as u8,
            "character that starts no token",
            true,
        ),
    }
}
fn c09(g: &mut G) -> Gen {
    let (bad, hint, name, tail) = malformed(g);
    let rest = if tail && g.pct(40) {
        let v = neighbours(g, 3);
        let r = render(g, &v, Layout::Plain);
        format!("{}{}", g.pick(&["\n", "\r\n", "\n "]), r.src)
    } else {
        String::new()
    };
    if hint & 2 == 0 && g.pct(45) {
        let (v, _) = if g.pct(60) { small_module(g) } else { (vec![], 0) };
        let lay = layout(g);
        let mut src = render(g, &v, lay).src;
        src.push_str("\n;");
        src.push_str(g.pick(&["x = ", "(", "a + ", "f(a, ", "[", "`${", "var y = ", "x = /*c*/", "", "\n"]));
        src.push_str(&bad);
        src.push_str(&rest);
        if g.pct(30) && tail {
            src.push_str(g.pick(&["\n", ";", "\n;x"]));
        }
        return plain(Case::Reject { src, why: name.to_string() }, true, name);
    }
    let v = neighbours(g, 3);
    let r = render(g, &v, Layout::Plain);
    let mut src = r.src;
    if !src.is_empty() {
        src.push_str(g.pick(&[" ", "\n", "\t"]));
    } else if g.pct(30) {
        src.push(' ');
    }
    let mut toks = with_trivia(&src, &r.toks);
    toks.pop();
    wobble(g, &src, &mut toks);
    src.push_str(&bad);
    src.push_str(&rest);
    plain(Case::LexFail { src, toks, hint }, true, name)
}

fn accept(g: &mut G, v: &[Tok], c: u128) -> Gen {
    let lay = layout(g);
    let r = render(g, v, lay);
    Gen { case: Case::Accept { src: r.src }, nontrivial: v.len() >= 4, classes: class_names(c) }
}
fn build(g: &mut G, f: Focus, run: impl FnOnce(&mut B)) -> (Vec<Tok>, u128) {
    let mut b = B::new(g, f);
    run(&mut b);
    b.take_pending();
    (std::mem::take(&mut b.out), b.classes)
}

fn c10(g: &mut G) -> Gen {
    if g.pct(20) {
        return crate::embed::accept(g, crate::embed::Kind::X);
    }
    let mut f = FOCUS;
    f.fun = *g.pick(&[0, 1, 2]);
    f.stmt = 0;
    f.tpl = g.below(4);
    f.max_depth = 1 + g.below(6);
    f.asi = 10;
    let n = 1 + g.count(2);
    let (v, c) = build(g, f, |b| {
        for _ in 0..n {
            let d = 1 + b.g.below(f.max_depth);
            b.expr_stmt_expr(COMMA, TOP, d);
            b.semi();
        }
    });
    accept(g, &v, c)
}
fn c11(g: &mut G) -> Gen {
    if g.pct(20) {
        return crate::embed::accept(g, crate::embed::Kind::S);
    }
    let mut f = FOCUS;
    f.fun = g.below(2);
    f.stmt = 8;
    f.module = 0;
    f.max_depth = 1 + g.below(5);
    f.asi = *g.pick(&[0, 25, 60]);
    let n = 1 + g.count(3);
    let infn = g.pct(25);
    let (v, c) = build(g, f, |b| {
        let mut cx = TOP;
        if infn {
            b.n("function");
            b.n("f");
            b.p("(");
            b.p(")");
            b.p("{");
            cx.fun = true;
        }
        for _ in 0..n {
            let d = b.g.below(f.max_depth + 1);
            b.item(cx, d);
        }
        if infn {
            b.p("}");
        }
    });
    accept(g, &v, c)
}
fn c12(g: &mut G) -> Gen {
    if g.pct(20) {
        let k = *g.pick(&[crate::embed::Kind::M, crate::embed::Kind::O, crate::embed::Kind::P]);
        return crate::embed::accept(g, k);
    }
    let mut f = FOCUS;
    f.fun = 8;
    f.stmt = 1;
    f.module = 0;
    f.max_depth = 1 + g.below(5);
    f.asi = 25;
    let n = 1 + g.count(2);
    let (v, c) = build(g, f, |b| {
        for _ in 0..n {
            let d = 1 + b.g.below(f.max_depth);
            match b.g.weighted(&[3, 2, 2, 2, 1, 1]) {
                0 => b.item(TOP, d),
                1 => {
                    let n = b.fresh();
                    b.function(TOP, d, Some(n), false)
                }
                2 => {
                    let n = b.fresh();
                    b.class(TOP, d, Some(n), true)
                }
                3 => {
                    let k = *b.g.pick(&["var", "let", "const"]);
                    b.n(k);
                    b.pattern(TOP, d);
                    b.p("=");
                    b.expr(ASSIGN, TOP, 1);
                    b.semi();
                }
                4 => {
                    b.p("(");
                    b.function_expr(TOP, d);
                    b.p(")");
                    b.semi();
                }
                _ => {
                    b.n("x");
                    b.p("=");
                    b.arrow(TOP, d);
                    b.semi();
                }
            }
        }
    });
    accept(g, &v, c)
}
fn c13(g: &mut G) -> Gen {
    if g.pct(35) {
        return crate::embed::module(g);
    }
    let mut f = FOCUS;
    f.fun = 1;
    f.stmt = 1;
    f.module = 12;
    f.max_depth = g.below(3);
    f.items = 5;
    f.asi = *g.pick(&[0, 30, 100]);
    if g.pct(25) {
        // something that is almost an import or export
        let (base, _) = build(g, f, |b| {
            for _ in 0..1 + b.g.below(2) {
                if b.g.pct(50) {
                    b.import()
                } else {
                    b.export(0)
                }
            }
        });
        let mut last = String::new();
        for _ in 0..6 {
            let mut v = base.clone();
            let how = mutate(g, &mut v, &base);
            let src = render(g, &v, Layout::Plain).src;
            if let Verdict::Reject(off) = check(&src) {
                let mut classes = vec!["malformed"];
                classes.push(how);
                return Gen { case: Case::Reject { src, why: format!("no derivation past byte {}", off) }, nontrivial: true, classes };
            }
            last = src;
        }
        return plain(Case::Robust { src: last }, false, "still well-formed");
    }
    if g.pct(35) {
        // anywhere else it is an error
        let (v, _) = build(g, f, |b| {
            if b.g.pct(50) {
                b.import()
            } else {
                b.export(1)
            }
        });
        let s = render(g, &v, Layout::Plain).src;
        let (pre, post) = *g.pick(&[
            ("{ ", " }"),
            ("if (a) ", ""),
            ("if (a) {} else ", ""),
            ("if (a) { ", " }"),
            ("while (a) ", ""),
            ("while (a) { ", " }"),
            ("for (;;) ", ""),
            ("for (let a of b) { ", " }"),
            ("do ", " while (a);"),
            ("l: ", ""),
            ("function f() { ", " }"),
            ("function* f() { a; ", " }"),
            ("async function f() { ", " }"),
            ("(() => { ", " });"),
            ("class c { m() { ", " } }"),
            ("({ get m() { ", " } });"),
            ("switch (a) { case b: ", " }"),
            ("switch (a) { default: a; ", " }"),
            ("try { ", " } finally {}"),
            ("try {} catch (e) { ", " }"),
            ("try {} finally { ", " }"),
            ("`${() => { ", " }}`;"),
            ("x = ", ""),
            ("(", ")"),
            ("export default ", ""),
            ("export ", ""),
            ("import ", ""),
        ]);
        let src = format!("{}{}{}", pre, s, post);
        let nt = check(&src) != Verdict::Maybe;
        if !nt {
            return plain(Case::Robust { src }, false, "nested, undecided");
        }
        return plain(Case::Reject { src, why: "import or export below the top level".into() }, true, "nested");
    }
    let (v, c) = gen_module(g, f);
    accept(g, &v, c)
}
fn c14(g: &mut G) -> Gen {
    let mut f = focus(g);
    f.slash = true;
    f.items = 3;
    let (v, c) = gen_module(g, f);
    let lay = layout(g);
    let r = render(g, &v, lay);
    Gen { case: Case::Stream { src: r.src, toks: r.toks }, nontrivial: v.len() >= 4, classes: class_names(c) }
}
/// Tokens one after another, each of them one that may follow; then one that may not.
fn walk(g: &mut G) -> Gen {
    const POOLS: [&str; 7] = [
        "a b ( ) [ ] { } , ; . = => ... async await yield * ? : + ** ++ - new super function class",
        "a get set static async * [ ] ( ) { } , ; : = constructor 's' 1 ... await yield",
        "var let const a of in = ; ) ( [ ] { } , ... async await + ++ for => 1",
        "import export default * as from { } , a b 's' function class async var const ; ( ) =",
        "if else for while do try catch finally switch case default break continue return throw { } ( ) ; : a , = debugger",
        "` `${ }${ }` a ( ) { } , + [ ] => = : function class ; 1 async",
        "this null new target . ( ) [ ] a typeof void delete - ! ++ -- in instanceof ** /r/g 1 's' `t` , = ? :",
    ];
    const STARTS: [&str; 16] = [
        "", "", "", "class A {", "x = {", "for (", "function f() {", "function * f() {", "async function f() {", "(", "x = `${", "switch (a) {",
        "import", "export", "class A extends B { constructor ( ) {", "async (",
    ];
    let mut pool: Vec<&str> = g.pick(&POOLS).split(' ').collect();
    if g.pct(40) {
        pool.extend(g.pick(&POOLS).split(' '));
    }
    let mut src = g.pick(&STARTS).to_string();
    let n = 1 + g.below(12);
    for _ in 0..n {
        for _ in 0..6 {
            let mut next = src.clone();
            next.push_str(if g.pct(10) { "\n" } else { " " });
            next.push_str(*g.pick(&pool));
            match check(&next) {
                Verdict::Maybe => {}
                Verdict::Reject(off) if off >= next.len() => {}
                _ => continue,
            }
            src = next;
            break;
        }
    }
    for _ in 0..8 {
        let mut bad = format!("{} {}", src, g.pick(&pool));
        if g.pct(50) {
            for _ in 0..1 + g.below(4) {
                bad.push(' ');
                bad.push_str(if g.pct(60) { *g.pick(&[")", "}", "]", ";", "a", "=> a", "( ) { }", "{ }"]) } else { *g.pick(&pool) });
            }
        }
        // What is left open is closed, so that nothing else is wrong.
        let mut open = vec![];
        for t in bad.split_whitespace() {
            match t {
                "(" => open.push(")"),
                "[" => open.push("]"),
                "{" => open.push("}"),
                "`${" => open.push("}`"),
                ")" | "]" | "}" | "}`" => {
                    if open.last() == Some(&t) {
                        open.pop();
                    }
                }
                _ => {}
            }
        }
        if g.pct(80) {
            for c in open.iter().rev() {
                bad.push(' ');
                bad.push_str(c);
            }
        }
        if let Verdict::Reject(off) = check(&bad) {
            return Gen { case: Case::Reject { src: bad, why: format!("no derivation past byte {}", off) }, nontrivial: true, classes: vec!["walk"] };
        }
    }
    plain(Case::Robust { src }, false, "still well-formed")
}
fn c15(g: &mut G) -> Gen {
    match g.below(100) {
        0..=19 => return walk(g),
        20..=54 => return crate::embed::reject(g),
        _ => {}
    }
    let (base, c) = small_module(g);
    let (other, _) = if g.pct(20) { small_module(g) } else { (vec![], 0) };
    let lay = if g.pct(80) { Layout::Plain } else { layout(g) };
    let mut last = String::new();
    for _ in 0..6 {
        let mut v = base.clone();
        let mut how = "";
        let edits = if g.pct(75) { 1 } else { 1 + g.count(3) };
        for _ in 0..edits {
            how = mutate(g, &mut v, &other);
        }
        let mut src = render(g, &v, lay).src;
        if g.pct(8) {
            src = cut_chars(g, &src);
            how = "cut";
        }
        if let Verdict::Reject(off) = check(&src) {
            let mut classes = class_names(c);
            classes.push(how);
            return Gen { case: Case::Reject { src, why: format!("no derivation past byte {}", off) }, nontrivial: true, classes };
        }
        last = src;
    }
    plain(Case::Robust { src: last }, false, "still well-formed")
}

fn c16(g: &mut G) -> Gen {
    let mut f = focus(g);
    f.asi = *g.pick(&[100, 100, 70]);
    f.stmt = 1 + g.below(6);
    match g.weighted(&[4, 4, 3, 3]) {
        0 => {
            let (v, c) = gen_module(g, f);
            let nt = v.iter().any(|t| t.gap != Gap::Any);
            let lay = layout(g);
            let r = render(g, &v, lay);
            Gen { case: Case::Accept { src: r.src }, nontrivial: nt, classes: class_names(c) }
        }
        1 => {
            // a needed break removed, a forbidden one added, or a semicolon dropped
            let (base, _) = gen_module(g, f);
            let mut last = String::new();
            for _ in 0..6 {
                let mut v = base.clone();
                let spots: Vec<usize> = (0..v.len()).filter(|&i| v[i].gap != Gap::Any || v[i].is(";")).collect();
                if spots.is_empty() {
                    break;
                }
                let i = *g.pick(&spots);
                let how = match v[i].gap {
                    Gap::Nl => {
                        v[i].gap = Gap::NoNl;
                        "break removed"
                    }
                    Gap::NoNl => {
                        v[i].gap = Gap::Nl;
                        "break added"
                    }
                    Gap::Any => {
                        v.remove(i);
                        if i < v.len() && v[i].gap == Gap::Any {
                            v[i].gap = Gap::NoNl;
                        }
                        "semicolon dropped"
                    }
                };
                let lay = layout(g);
                let src = render(g, &v, lay).src;
                if let Verdict::Reject(off) = check(&src) {
                    return plain(Case::Reject { src, why: format!("no derivation past byte {}", off) }, true, how);
                }
                last = src;
            }
            plain(Case::Robust { src: last }, false, "still well-formed")
        }
        2 => {
            // two statements and a separator
            f.items = 0;
            f.module = 0;
            let (a, _) = build(g, Focus { asi: 0, ..f }, |b| b.item(TOP, 2));
            let (mut b, _) = build(g, f, |b| {
                b.fresh = 500;
                b.item(TOP, 2)
            });
            let mut a = a;
            // the semicolon of an empty body is not an insertion place
            let semi = a.len() > 1 && a[a.len() - 1].is(";") && ![")", ":", "else", "do", "{", "}", ";"].iter().any(|w| a[a.len() - 2].is(w));
            if semi {
                a.pop();
            }
            let nl = g.pct(50);
            if let Some(t) = b.first_mut() {
                t.gap = if nl { Gap::Nl } else { Gap::NoNl };
            }
            let first = b.first().cloned();
            let wrap = g.below(4);
            let mut v = Vec::new();
            if wrap == 1 {
                v.push(Tok::p("{"));
            }
            v.extend(a);
            v.extend(b);
            if wrap == 1 {
                v.push(Tok::p("}"));
            }
            let lay = layout(g);
            let src = render(g, &v, lay).src;
            match check(&src) {
                Verdict::Reject(off) => plain(Case::Reject { src, why: format!("no derivation past byte {}", off) }, true, "pair, rejected"),
                _ => {
                    let ok = semi && nl && first.map_or(false, |t| !hazard(&t));
                    if ok {
                        plain(Case::Accept { src }, true, "pair, accepted")
                    } else {
                        plain(Case::Robust { src }, false, "pair, undecided")
                    }
                }
            }
        }
        _ => restricted(g),
    }
}
/// Restricted productions, with the stream they must give.
fn restricted(g: &mut G) -> Gen {
    let nl = |mut t: Tok| {
        t.gap = Gap::Nl;
        t
    };
    let same = |mut t: Tok| {
        t.gap = Gap::NoNl;
        t
    };
    let words = |s: &str| -> Vec<Tok> {
        s.split_whitespace()
            .map(|w| {
                let c = w.chars().next().unwrap();
                if c.is_ascii_digit() {
                    let mut t = Tok::new(K::Num, w);
                    t.val = num_value(w);
                    t
                } else if is_id_char(c) {
                    Tok::n(w)
                } else {
                    let mut t = Tok::p(w);
                    if w == "=>" {
                        t.gap = Gap::NoNl;
                    }
                    t
                }
            })
            .collect()
    };
    let kw = g.below(9);
    let brk = g.pct(60);
    let operand = match g.below(6) {
        0 => vec![gen_re(g)],
        1 => words("a"),
        2 => vec![gen_str(g)],
        3 => {
            let c = gen_chunk(g);
            vec![tpl_tok(0, &c)]
        }
        4 => words("a / b"),
        _ => words("! a"),
    };
    let mut v: Vec<Tok>;
    let mut ok = true;
    let mut op = operand;
    match kw {
        0 | 1 => {
            v = words(*g.pick(&["function f ( ) { return", "x = ( ) => { return", "class c { m ( ) { if ( a ) return"]));
            let depth = v.iter().filter(|t| t.is("{")).count();
            op[0] = if brk { nl(op[0].clone()) } else { same(op[0].clone()) };
            v.extend(op);
            for _ in 0..depth {
                v.push(Tok::p("}"));
            }
        }
        2 => {
            v = words("throw");
            ok = !brk;
            op[0] = if brk { nl(op[0].clone()) } else { same(op[0].clone()) };
            v.extend(op);
        }
        3 => {
            v = words("function * f ( ) { yield");
            op[0] = if brk { nl(op[0].clone()) } else { same(op[0].clone()) };
            v.extend(op);
            v.push(Tok::p("}"));
        }
        4 => {
            v = words(*g.pick(&["while ( a ) { break", "for ( ; ; ) { continue", "l : while ( b ) { break"]));
            op[0] = nl(op[0].clone());
            v.extend(op);
            v.push(Tok::p("}"));
        }
        5 => {
            // postfix: `a NL ++ b` is two statements; `a NL ++` is none
            v = words("a");
            let p = nl(Tok::p(*g.pick(&["++", "--"])));
            v.push(p);
            if g.pct(60) {
                let w = words(*g.pick(&["b", "b . c", "b [ 0 ]"]));
                v.extend(w);
            } else {
                ok = false;
                if g.pct(50) {
                    v.push(Tok::p(";"));
                }
            }
        }
        6 => {
            // `async` followed by a break is a name
            match g.below(4) {
                0 => {
                    v = words("async");
                    v.push(nl(Tok::n("function")));
                    v.extend(words("f ( ) { }"));
                }
                1 => {
                    v = words("x = async");
                    v.push(nl(Tok::n("y")));
                    v.extend(words("=> y"));
                }
                2 => {
                    v = words("x = async");
                    v.push(same(Tok::n("y")));
                    v.push(nl(Tok::p("=>")));
                    v.extend(words("y"));
                    ok = false;
                }
                _ => {
                    v = words("( { async");
                    v.push(nl(Tok::n("m")));
                    v.extend(words("( ) { } } )"));
                    ok = false;
                }
            }
        }
        7 => {
            // what ends before the break is not an expression, so nothing can divide it
            const ENDS: [&str; 14] = [
                "var a",
                "let a",
                "var a = 1 , b",
                "{ let b , c",
                "debugger",
                "import * as q from M",
                "import M",
                "export { a }",
                "export * from M",
                "export { a } from M",
                "x = ( ) => { }",
                "x = async y => { }",
                "l : while ( a ) { break l",
                "l : for ( ; ; ) { continue l",
            ];
            v = words(*g.pick(&ENDS));
            for t in v.iter_mut() {
                if t.is("M") {
                    let gap = t.gap;
                    *t = gen_str(g);
                    t.gap = gap;
                }
            }
            for i in 1..v.len() {
                if v[i - 1].is("break") || v[i - 1].is("continue") {
                    v[i].gap = Gap::NoNl;
                }
            }
            let depth = v.iter().filter(|t| t.is("{")).count() - v.iter().filter(|t| t.is("}")).count();
            if op[0].k == K::Tpl(0) || g.pct(60) {
                op = vec![gen_re(g)];
            }
            op[0] = nl(op[0].clone());
            v.extend(op);
            for _ in 0..depth {
                v.push(Tok::p("}"));
            }
        }
        _ => {
            // arrow after a break, do-while, and blocks need nothing
            match g.below(4) {
                0 => {
                    v = words(*g.pick(&["x", "( x )", "( )", "( a , b )", "( ... a )"]));
                    v.push(nl(Tok::p("=>")));
                    v.extend(words("x"));
                    ok = false;
                }
                1 => {
                    v = words("do a ; while ( b )");
                    op[0].gap = Gap::Any;
                    v.extend(op);
                }
                2 => {
                    v = words("if ( a ) { }");
                    v.extend(op);
                }
                _ => {
                    v = words("function f ( ) { }");
                    v.extend(op);
                }
            }
        }
    }
    if g.pct(40) && ok {
        v.push(nl(Tok::n("z")));
        if g.pct(50) {
            v.push(Tok::p(";"));
        }
    }
    let lay = layout(g);
    let r = render(g, &v, lay);
    if ok {
        plain(Case::Stream { src: r.src, toks: r.toks }, true, "restricted production, accepted")
    } else {
        plain(Case::Reject { src: r.src, why: "line break in a restricted production".into() }, true, "restricted production, rejected")
    }
}

fn c17(g: &mut G) -> Gen {
    let (mut v, c) = small_module(g);
    let mut classes = class_names(c);
    if g.pct(45) {
        // not necessarily well-formed: both layouts have line breaks at the same places
        v.retain(|t| !matches!(t.k, K::Re | K::Tpl(1) | K::Tpl(2) | K::Tpl(3)) && !t.is("/") && !t.is("/="));
        for _ in 0..g.count(3) {
            mutate(g, &mut v, &[]);
        }
        v.retain(|t| !matches!(t.k, K::Re | K::Tpl(1) | K::Tpl(2) | K::Tpl(3)) && !t.is("/") && !t.is("/="));
        for t in v.iter_mut() {
            if t.gap == Gap::Any {
                t.gap = if g.pct(25) { Gap::Nl } else { Gap::NoNl };
            }
        }
        classes = vec!["edited program, same line breaks"];
    }
    let (la, lb) = match g.below(4) {
        0 => (Layout::Tight, Layout::Wild),
        1 => (Layout::Wild, Layout::Wild),
        2 => (Layout::Plain, Layout::Wild),
        _ => (Layout::Tight, Layout::Plain),
    };
    let a = render(g, &v, la).src;
    let b = render(g, &v, lb).src;
    let nt = v.len() >= 3 && a != b;
    Gen { case: Case::Same { a, b }, nontrivial: nt, classes }
}

// ---- C18 ---------------------------------------------------------------------------------------

const BINDING: [&str; 64] = [
    "var @;", "let @ = 1;", "const @ = 1;", "function @() {}", "class @ {}", "(class @ {});", "(function @() {});", "(function* @() {});",
    "(async function @() {});", "function* @() {}", "async function @() {}", "function f(@) {}", "function f(...@) {}", "function f(a, @ = 1) {}",
    "var {@} = a;", "var {a: @} = b;", "var {@ = 1} = b;", "var [@] = a;", "var [...@] = b;", "let [a, , @] = b;", "const {a: {b: @}} = c;",
    "try {} catch (@) {}", "try {} catch ({@}) {}", "try {} catch ([@]) {}", "(@) => a;", "@ => a;", "(a, @) => a;", "(...@) => a;", "({@}) => a;",
    "([@]) => a;", "async @ => a;", "async (@) => a;", "async (a, @) => a;", "({m(@) {}});", "({set m(@) {}});", "({async m(@) {}});",
    "class c { m(@) {} }", "class c { static set m(@) {} }", "class c { constructor(a, @) {} }", "import @ from 'm';", "import * as @ from 'm';",
    "import {@} from 'm';", "import {a as @} from 'm';", "import {a, b as @,} from 'm';", "import a, {b as @} from 'm';", "import a, * as @ from 'm';",
    "export function @() {}", "export class @ {}", "export var @ = 1;", "export let @ = 1;", "export const @ = 1;", "export default function @() {}",
    "export default class @ {}", "export async function @() {}", "for (var @ of a);", "for (let @ in a);", "for (const @ of a);", "for (let @ = 0;;);",
    "for (var [@] of a);", "for (let {@} of a);", "@: ;", "@: while (a) break @;", "@: for (;;) { continue @; }", "var a, @ = 2, b;",
];
const REFERENCE: [&str; 24] = [
    "x = @;", "x = (@);", "f(@);", "f(a, ...@);", "x = [@];", "x = [a, ...@];", "x = {a: @};", "x = {[@]: 1};", "x = a[@];", "x = `${@}`;", "x = a ? @ : b;",
    "x = a ? b : @;", "x = a + @;", "x = !@;", "if (@) ;", "while (@) ;", "for (;@;) ;", "for (a of @) ;", "switch (@) {}", "throw @;", "export default @;",
    "(a = @) => a;", "class c extends @ {}", "var y = @;",
];
const SHORT: [&str; 6] = ["x = {@};", "x = {a, @};", "x = {@, a};", "({@} = a);", "({@ = 1} = a);", "({a: {@}} = a);"];
const PROPERTY: [&str; 44] = [
    "a.@;", "a.@();", "a.b.@.c;", "new a.@;", "new a.@();", "a.@ = 1;", "a.@++;", "a.@`x`;", "a\n.@;", "this.@;", "({@: 1});", "({a, @: 1});", "({@() {}});",
    "({get @() {}});", "({set @(v) {}});", "({*@() {}});", "({async @() {}});", "class c { @() {} }", "class c { static @() {} }", "class c { get @() {} }",
    "class c { set @(v) {} }", "class c { *@() {} }", "class c { async @() {} }", "class c { static get @() {} }", "class c { static set @(v) {} }",
    "class c { static *@() {} }", "class c { static async @() {} }", "class c { ; a() {} @() {} b() {} }", "class c extends d { m() { super.@; } }",
    "import {@ as a} from 'm';", "import {b, @ as a,} from 'm';", "var a; export {a as @};", "export {@} from 'm';", "export {@ as a} from 'm';",
    "export {a as @} from 'm';", "export {a, @ as b, c} from 'm';", "var {@: a} = b;", "let {a, @: b} = c;", "({@: a} = b);", "function f({@: a}) {}",
    "({@: a}) => a;", "for (var {@: a} of b);", "x = {@: 1}.@;", "x = a.@ / b / c;",
];
const NAMES_OK: [&str; 16] =
    ["async", "of", "get", "set", "from", "as", "target", "zz", "$", "_", "undefined", "constructor", "nul", "If", "thisx", "varx"];

fn c18(g: &mut G) -> Gen {
    let group = g.weighted(&[6, 3, 1, 4]);
    let reserved = g.pct(60);
    let t: &str = match group {
        0 => g.pick(&BINDING),
        1 => g.pick(&REFERENCE),
        2 => g.pick(&SHORT),
        _ => g.pick(&PROPERTY),
    };
    let w: &str = if group == 3 {
        match g.below(3) {
            0 => g.pick(&RESERVED),
            1 => g.pick(&CONTEXTUAL),
            _ => g.pick(&["let", "static", "implements", "interface", "package", "private", "protected", "public", "eval", "arguments", "undefined", "NaN"]),
        }
    } else if reserved {
        g.pick(&RESERVED)
    } else {
        g.pick(&NAMES_OK)
    };
    let mut src = t.replace('@', w);
    let lit = matches!(w, "this" | "null" | "true" | "false");
    let res = RESERVED.contains(&w);
    // context around it
    if group != 3 && !t.contains("import") && !t.contains("export") || group == 3 && !t.contains("port ") {
        match g.below(8) {
            0 => src = format!("{{ {} }}", src),
            1 => src = format!("function g() {{ {} }}", src),
            2 => src = format!("a;\n{}\nb;", src),
            3 if !t.contains('@') => {}
            _ => {}
        }
    } else if g.pct(30) {
        src = format!("a;\n{}\nb;", src);
    }
    if group == 0 && lit && t.ends_with("=> a;") {
        // only the refinement of the cover grammar forbids a literal there
        return plain(Case::Robust { src }, false, "cover grammar");
    }
    let ok = match group {
        0 => !res,
        1 => !res || lit,
        2 => !res,
        _ => true,
    };
    if ok {
        plain(Case::Accept { src }, true, ["binding", "reference", "shorthand", "property"][group])
    } else {
        plain(
            Case::Reject { src, why: format!("reserved word {} as a name", w) },
            true,
            ["reserved binding", "reserved reference", "reserved shorthand", ""][group],
        )
    }
}

// ---- C20 ---------------------------------------------------------------------------------------

fn balanced(v: &[Tok]) -> bool {
    let mut st = Vec::new();
    for t in v {
        if t.k != K::Punct {
            continue;
        }
        match &t.s[..] {
            "(" => st.push(")"),
            "[" => st.push("]"),
            "{" => st.push("}"),
            c @ ")" | c @ "]" | c @ "}" => {
                if st.pop() != Some(c) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}
fn stmt_list(g: &mut G) -> Vec<Tok> {
    let mut f = focus(g);
    f.module = 0;
    f.max_depth = 1 + g.below(3);
    build(g, f, |b| b.stmts(TOP, 2)).0
}
fn c20(g: &mut G) -> Gen {
    match g.weighted(&[3, 3, 3]) {
        0 => {
            let n = 2 + g.count(3);
            let mut given = Vec::new();
            for _ in 0..n {
                let (mut v, _) = small_module(g);
                if g.pct(35) {
                    mutate(g, &mut v, &[]);
                }
                let lay = layout(g);
                given.push(render(g, &v, lay).src);
            }
            let then = given.join("\n;\n");
            plain(Case::AllAccept { given, then }, true, "concatenation")
        }
        1 => {
            let mut v = stmt_list(g);
            if g.pct(35) {
                mutate(g, &mut v, &[]);
                if v.iter().any(|t| t.is("import") || t.is("export")) {
                    v.clear();
                }
            }
            let lay = layout(g);
            let s = render(g, &v, lay).src;
            let mut then = s.clone();
            for _ in 0..1 + g.count(2) {
                let (a, b) = *g.pick(&[
                    ("{", "}"),
                    ("function w() {", "}"),
                    ("function* w() {", "}"),
                    ("async function w() {", "}"),
                    ("(function () {", "});"),
                    ("x = {m() {", "}};"),
                    ("x = {get m() {", "}};"),
                    ("class w { m() {", "} }"),
                    ("class w { static async m() {", "} }"),
                    ("(() => {", "});"),
                    ("async () => {", "};"),
                    ("while (w) {", "}"),
                    ("for (;;) {", "}"),
                    ("for (let w of ws) {", "}"),
                    ("for (w in ws) {", "}"),
                    ("do {", "} while (w);"),
                    ("switch (w) { case 1:", "}"),
                    ("switch (w) { case 1: w; default:", "\n;case 2: w; }"),
                    ("try {", "} finally {}"),
                    ("try {} catch (w) {", "}"),
                    ("try {} catch (w) {} finally {", "}"),
                    ("if (w) {", "}"),
                    ("if (w) {} else {", "}"),
                    ("w: {", "}"),
                    ("x = `a${() => {", "}}b`;"),
                    ("x = `${function () {", "}}${w}`;"),
                    ("f(a, () => {", "}, b);"),
                    ("x = [a, function () {", "}, b];"),
                    ("x = {a: () => {", "}, b};"),
                    ("(a, b = function () {", "}) => a;"),
                    ("for (let w = () => {", "};;) ;"),
                ]);
                then = format!("{}\n{}\n{}", a, then, b);
            }
            plain(Case::AllAccept { given: vec![s], then }, true, "wrapped")
        }
        _ => {
            let mut v = stmt_list(g);
            v.retain(|t| !matches!(t.k, K::Re | K::Tpl(_)) && !t.is("/") && !t.is("/="));
            for _ in 0..1 + g.count(2) {
                mutate(g, &mut v, &[]);
            }
            v.retain(|t| !matches!(t.k, K::Re | K::Tpl(_)) && !t.is("/") && !t.is("/="));
            if !balanced(&v) || v.iter().any(|t| t.is("import") || t.is("export")) {
                v = vec![Tok::p("+")];
            }
            let lay = if g.pct(50) { Layout::Plain } else { Layout::Tight };
            let given = render(g, &v, lay).src;
            let mut then = format!("{{{}{}}}", g.pick(&["", " ", "\n"]), given);
            if g.pct(60) {
                let (a, _) = small_module(g);
                let a = render(g, &a, Layout::Plain).src;
                then = format!("{}\n;\n{}", a, then);
            }
            if g.pct(60) {
                let (a, _) = small_module(g);
                let a = render(g, &a, Layout::Plain).src;
                then = format!("{}\n;\n{}", then, a);
            }
            plain(Case::StillReject { given, then }, v.len() > 1, "rejected part in a block")
        }
    }
}

/// Long but not deep: before, again and again, after.
const LONG: &[(&str, &str, &str)] = &[
    ("x=", "a*b+", "a;"), ("x=", "a**b+", "a;"), ("x=", "a||b&&c|d^e&f==g<h<<i+j*", "k;"), ("x=", "-a+!b*", "c;"), ("", "a;\n", ""), ("", "a\n", ""),
    ("x=", "a,", "b;"), ("f(", "a,", "b);"), ("f(", "...a,", ");"), ("x=[", "a,", "];"), ("x=[", ",", "];"), ("x={", "a:b,", "};"), ("x={", "a(){},", "};"),
    ("a", ".b", ";"), ("a", "[b]", ";"), ("a", "()", ";"), ("a", "``", ";"), ("a", "\n.b(c)", ";"), ("`", "${a}", "`;"), ("switch(a){", "case b:c;", "}"),
    ("switch(a){default:", "a\n", "}"), ("class c{", "m(){}", "}"), ("class c{", ";", "}"), ("function f(", "a,", "){}"), ("var ", "a=b,", "c;"), ("let ", "a,", "b=c;"),
    ("const ", "a=1,", "b=2;"), ("var {", "a,", "}=b;"), ("var [", "a,", "]=b;"), ("var [", ",", "]=b;"), ("import{", "a as b,", "}from'm';"), ("export{", "a,", "};"),
    ("", "import'm';", ""), ("", "export var a;", ""), ("", "export*from'm'\n", ""), ("", "/**/", ""), ("", "//\n", ""), ("", "\n", "a"), ("", "\r\n", "a"), ("a", " ", ";"),
    ("for(", "a,", "b;;);"), ("for(var ", "a=b,", "c;;);"), ("", "try{}finally{}", ""), ("", "{}", ""), ("", ";", ""), ("x=(", "a,", ")=>b;"), ("x=(", "a,", "b);"),
    ("", "function f(){}", ""), ("", "a++\n", ""), ("x='", "\\n", "';"), ("x='", "\\\n", "';"), ("x=`", "\\`", "`;"), ("x=`", "$", "`;"), ("/", "[/]", "/;"), ("/a/", "g", ";"),
    ("x=", "a in ", "b;"), ("x=", "a?b:c,", "d;"), ("x=", "a=>b,", "c;"), ("x=1", "0", ";"), ("x=1.", "0", ";"), ("x=0x", "f", ";"), ("x=1e", "0", ";"), ("//", "a", ""),
    ("/*", "*", "*/"), ("/*", "\n", "*/"), ("", "a", ""), ("", "if(a)b;else c;", ""), ("", "for(;;);", ""), ("", "do;while(a)", ""), ("function*g(){", "yield a;", "}"),
    ("async function f(){", "await a\n", "}"), ("", "x=/a/g\n", ""), ("", "l:", ""), ("(", ")", ""), ("[", "]", ""), ("`", "${", ""), ("", "}", ""), ("a", "+", ""), ("", "if(a)", ""),
];
/// Patterns: what precedes, opens, closes and follows.
const DEEP_PATTERN: &[(&str, &str, &str, &str)] = &[
    ("var ", "{a:", "}", "=b"),
    ("", "[", "]", "=b"),
    ("(", "{a:", "}", ")=>0"),
    ("for(let ", "[", "]", " of b);"),
    ("try{}catch(", "{a:", "}", "){}"),
    ("function f(", "[", "]", "){}"),
    ("const ", "[...", "]", "=b"),
    ("(", "[c,...", "]", "=b)"),
    ("let ", "[{a:", "}]", "=b"),
    ("x=", "a=", "", ""),
    ("label:", "{if(a)", ";}", ""),
    ("class c extends ", "class extends ", "{}", "{}"),
    ("export default ", "async(a=", ")=>0", ""),
];
const DEEP: &[(&str, &str)] = &[
    ("(", ")"), ("[", "]"), ("x={a:", "}"), ("{", "}"), ("x=>", ""), ("`${", "}`"), ("!", ""), ("if(a)", ""), ("a?b:", ""), ("f(", ")"),
    ("function f(){", "}"), ("class c{m(){", "}}"), ("[a=", "]=b"), ("({a:", "})"), ("a+", ""), ("new ", ""), ("l:", ""), ("for(;;)", ""), ("a[", "]"),
    ("- ", ""), ("async()=>", ""), ("do ", " while(a);"), ("try{", "}finally{}"), ("switch(a){default:", "}"), ("typeof ", ""),
];
fn c21(g: &mut G) -> Gen {
    match g.weighted(&[4, 4, 2, 1]) {
        0 => {
            let (mut v, _) = small_module(g);
            for _ in 0..1 + g.count(4) {
                mutate(g, &mut v, &[]);
            }
            let lay = layout(g);
            let mut src = render(g, &v, lay).src;
            if g.pct(25) {
                src = cut_chars(g, &src);
            }
            if g.pct(25) {
                // drop in an odd piece at any character
                let n = src.chars().count() as u32;
                let k = g.below(n + 1) as usize;
                let at = src.char_indices().nth(k).map_or(src.len(), |c| c.0);
                let p = piece(g);
                src.insert_str(at, &p);
            }
            let nt = src.len() >= 3;
            plain(Case::Robust { src }, nt, "edited program")
        }
        1 => {
            let (src, _) = soup(g, 60);
            let nt = src.len() >= 3;
            plain(Case::Robust { src }, nt, "soup")
        }
        2 => {
            // token soup: lexically fine, grammatically anything
            let n = 1 + g.below(20);
            let v: Vec<Tok> = (0..n).map(|_| any_tok(g)).collect();
            let lay = layout(g);
            let src = render(g, &v, lay).src;
            plain(Case::Robust { src }, n >= 3, "token soup")
        }
        _ if g.pct(10) => {
            // long but not deep: the stack of an ordinary thread has to do
            let kinds = LONG;
            let k = *g.pick(kinds);
            // the last ones nest
            let nest = ["l:", "if(a)", "+", "${"].contains(&k.1);
            let long = g.pct(50);
            let huge = !nest && g.below(250) == 0;
            let n = if huge { 2_000_000 / k.1.len() } else { 1 + g.below(if nest { 40 } else if long { 12_000 } else { 100 }) as usize };
            let case = Case::Deep {
                pre: k.0.to_string(),
                open: k.1.to_string(),
                mid: String::new(),
                close: String::new(),
                post: if g.pct(80) { k.2.to_string() } else { String::new() },
                n,
                program: false,
            };
            plain(case, true, if huge { "of two megabytes" } else { "long, not deep" })
        }
        _ => {
            let n = 1 + g.below(250) as usize;
            if g.pct(20) {
                let k = *g.pick(DEEP_PATTERN);
                let src = format!("{}{}a{}{}", k.0, k.1.repeat(n), k.2.repeat(n), k.3);
                return plain(Case::Robust { src }, true, "deep nesting");
            }
            let kinds = DEEP;
            let mix = g.pct(30);
            let k = g.below(kinds.len() as u32) as usize;
            let (mut a, mut b) = (String::new(), String::new());
            for _ in 0..n {
                let j = if mix { g.below(kinds.len() as u32) as usize } else { k };
                a.push_str(kinds[j].0);
                b = format!("{}{}", kinds[j].1, b);
            }
            let src = format!("{}{}{}", a, g.pick(&["a", "", "1", "/r/", "{}"]), if g.pct(80) { b } else { String::new() });
            plain(Case::Robust { src }, true, "deep nesting")
        }
    }
}

fn c27(g: &mut G) -> Gen {
    let (src, nt, class) = match g.weighted(&[3, 3, 3, 2]) {
        0 => {
            let n = 1 + g.below(12);
            let v: Vec<Tok> = (0..n).map(|_| any_tok(g)).collect();
            let lay = layout(g);
            (render(g, &v, lay).src, n >= 3, "token list")
        }
        1 => {
            let (mut v, _) = small_module(g);
            for _ in 0..g.count(3) {
                mutate(g, &mut v, &[]);
            }
            let lay = layout(g);
            let mut src = render(g, &v, lay).src;
            if g.pct(25) {
                src = cut_chars(g, &src);
            }
            (src, v.len() >= 3, "program text")
        }
        2 => {
            let (src, n) = soup(g, 30);
            (src, n >= 3, "soup")
        }
        _ => {
            // what the hints are about, side by side
            let n = 1 + g.count(14);
            let p = [
                "/", "}", "{", "`", "$", "\\", "[", "]", "*", "=", "\n", "\r", " ", "a", "g", "1", "'", "/=", "${", "//", "/*", "*/", "\u{2028}", "\u{a0}",
                "\u{feff}", "-->", "<!--", "010", "\u{e9}",
            ];
            let src: String = (0..n).map(|_| *g.pick(&p)).collect();
            let nt = src.chars().count() >= 3;
            (src, nt, "slashes and braces")
        }
    };
    let walks = (0..2 + g.below(2)).map(|_| g.below(1000) as usize).collect();
    plain(Case::Hints(crate::hints::Hints { src, walks }), nt, class)
}
fn c26(g: &mut G) -> Gen {
    let fresh = g.pct(50);
    let pull = if g.pct(35) { Some(g.below(1000) as usize) } else { None };
    let (parts, nt, class) = match g.weighted(&[4, 2, 4, 2, 2]) {
        0 => {
            let (mut v, _) = small_module(g);
            if g.pct(40) {
                for _ in 0..1 + g.count(2) {
                    mutate(g, &mut v, &[]);
                }
            }
            let lay = layout(g);
            let src = render(g, &v, lay).src;
            let nt = src.len() >= 3;
            (vec![(src, 1)], nt, "program")
        }
        1 => {
            let (src, _) = soup(g, 60);
            let nt = src.len() >= 3;
            (vec![(src, 1)], nt, "soup")
        }
        2 => {
            let k = *g.pick(LONG);
            let nest = ["l:", "if(a)", "+", "${"].contains(&k.1);
            let max = if nest { 250 } else if g.pct(30) { 6_000 } else { 200 };
            let n = 1 + g.below(max) as usize;
            (vec![(k.0.to_string(), 1), (k.1.to_string(), n), (k.2.to_string(), 1)], true, "long")
        }
        3 => {
            // whole modules again and again
            let (v, _) = small_module(g);
            let src = render(g, &v, Layout::Plain).src;
            let max = if g.pct(30) { 400 } else { 30 };
            let n = 1 + g.below(max) as usize;
            (vec![(src, 1), ("\n;\n".to_string(), 1), ("a(b);\n/c/.d;\n`e${f}`;\n".to_string(), n)], true, "repeated")
        }
        _ if g.pct(35) => {
            let k = *g.pick(DEEP_PATTERN);
            let n = 1 + g.below(250) as usize;
            (vec![(k.0.to_string(), 1), (k.1.to_string(), n), ("a".to_string(), 1), (k.2.to_string(), n), (k.3.to_string(), 1)], true, "deep nesting")
        }
        _ => {
            let k = *g.pick(DEEP);
            let n = 1 + g.below(250) as usize;
            (vec![(k.0.to_string(), n), ("a".to_string(), 1), (k.1.to_string(), n)], true, "deep nesting")
        }
    };
    plain(Case::Memory(crate::mem::Memory { parts, fresh, pull }), nt, class)
}
fn c22(g: &mut G) -> Gen {
    let (mut v, c) = small_module(g);
    let classes = class_names(c);
    if g.pct(35) {
        let toks = v
            .iter()
            .map(|t| {
                let nl = match t.gap {
                    Gap::Nl => true,
                    Gap::NoNl => false,
                    Gap::Any => g.pct(20),
                };
                let e = expect(t, 0);
                let k = match t.k {
                    K::Punct => 0,
                    K::Name => 1,
                    K::Num => 2,
                    K::Str => 3,
                    K::Tpl(f) => 4 + f,
                    K::Re => 8,
                };
                let a = if t.k == K::Num { "0".to_string() } else { e.a.unwrap_or_default() };
                let b = if t.k == K::Re { e.b.unwrap_or_default() } else { String::new() };
                (k, a, b, nl)
            })
            .collect();
        return Gen { case: Case::Deliver { toks, accept: Some(true) }, nontrivial: v.len() >= 3, classes };
    }
    if g.pct(40) {
        for _ in 0..1 + g.count(3) {
            mutate(g, &mut v, &[]);
        }
    }
    let lay = layout(g);
    let src = render(g, &v, lay).src;
    let variant = g.below(1 << 30) as u64;
    Gen { case: Case::Substitute { src, variant }, nontrivial: v.len() >= 3, classes }
}

fn c23(g: &mut G) -> Gen {
    let mode = if g.pct(80) {
        g.below(2) as u8
    } else if g.pct(25) {
        2 + g.below(3) as u8
    } else {
        5 + g.below(3) as u8
    };
    let (mut bytes, class): (Vec<u8>, &'static str) = match g.weighted(&[4, 4, 2, 2, 2, 1, 2]) {
        0 => {
            let (v, _) = small_module(g);
            let lay = layout(g);
            (render(g, &v, lay).src.into_bytes(), "program")
        }
        1 => {
            let (mut v, _) = small_module(g);
            for _ in 0..1 + g.count(2) {
                mutate(g, &mut v, &[]);
            }
            let lay = layout(g);
            (render(g, &v, lay).src.into_bytes(), "edited program")
        }
        2 => (soup(g, 20).0.into_bytes(), "soup"),
        3 => {
            // larger than any buffer, with the decisive text at the end
            let (v, _) = small_module(g);
            let s = render(g, &v, Layout::Plain).src;
            let unit = *g.pick(&["a;\n", "f(x);\n", "// comment \u{E9}\n", "\n", "var x = 'str';\n", "/* c */ "]);
            // now and then larger than any fixed limit someone may think of
            let most = *g.pick(&[300, 5_000, 20_000, 80_000, 200_000, 200_000, 200_000, 200_000, 1_200_000]);
            let n = (1 + g.below(most) as usize) / unit.len() + 1;
            let mut t = unit.repeat(n);
            if g.pct(2) {
                // one token of that size
                let n = [1usize << 16, 1 << 20, 1 << 21, 1 << 24][g.weighted(&[4, 3, 2, 1])] + g.below(100) as usize;
                t = match g.below(4) {
                    0 => format!("/*{}*/", "x".repeat(n)),
                    1 => format!("'{}'", "x".repeat(n)),
                    2 => format!("//{}", "x".repeat(n)),
                    _ => " ".repeat(n),
                };
            }
            t.push_str("\n;");
            t.push_str(&s);
            if g.pct(50) {
                t.push_str(g.pick(&["\n)", "\n;#", "\n'", "\n{", "\n/*"]));
            }
            (t.into_bytes(), "large")
        }
        4 => {
            let (v, _) = small_module(g);
            let mut b = render(g, &v, Layout::Plain).src.into_bytes();
            let at = g.below(b.len() as u32 + 1) as usize;
            let bad: &[u8] = g.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"\xed\xa0\x80"[..], &b"\xf8"[..], &b"\x80"[..], &b"\xe2\x80"[..], &b"\xc0\xaf"[..]]);
            let comment = g.pct(50);
            let mut ins = Vec::new();
            if comment {
                ins.extend(b"/*");
            }
            ins.extend(bad);
            if comment {
                ins.extend(b"*/");
            }
            for (k, x) in ins.into_iter().enumerate() {
                b.insert(at + k, x);
            }
            (b, "not UTF-8")
        }
        5 => (vec![], "empty"),
        _ => {
            // what other readers of files treat specially at either end, or in another encoding
            let (v, _) = small_module(g);
            let s = render(g, &v, Layout::Plain).src;
            let b = match g.below(8) {
                0 => {
                    let w: Vec<u16> = std::iter::once(0xFEFF).chain(s.encode_utf16()).collect();
                    let le = g.pct(50);
                    w.iter().flat_map(|x| if le { x.to_le_bytes() } else { x.to_be_bytes() }).collect()
                }
                1 => s.replace('\n', "\r\n").into_bytes(),
                2 => {
                    let n = 30_000 + g.below(100_000) as usize;
                    let k = g.pick(&[("x=", "a*b+", "c;"), ("f(", "a,", ");"), ("", "a\n", "(")]);
                    format!("{}{}{}", k.0, k.1.repeat(n), k.2).into_bytes()
                }
                3 | 4 => {
                    let t = g.pick(&["\u{1A}", "\0", "\0\0\0", ")", "__END__", "\n#!", "</script>", "\n-->", "\n<!-- a", "\n//", "\u{85}", "\u{2028}", "\u{FEFF}", "\u{200B}", "\u{2060}", "\u{4}"]);
                    format!("{}{}{}", s, t, if g.pct(30) { "((" } else { "" }).into_bytes()
                }
                _ => {
                    let t = g.pick(&["#!/usr/bin/env node\n", "#!\n", "#!", "# a\n", "\u{FEFF}\u{FEFF}", "\u{FEFF}#!node\n", "<!-- a\n", "--> a\n", "\0", "<script>", "'use strict';", "\u{FFFE}", "%", "\u{C}", "\u{200B}", "//#!\n", "\n#!node\n", "-"]);
                    format!("{}{}", t, s).into_bytes()
                }
            };
            (b, "odd start, end or encoding")
        }
    };
    if g.pct(5) {
        let mut b = "\u{FEFF}".as_bytes().to_vec();
        b.extend(bytes);
        bytes = b;
    }
    plain(Case::Cli { bytes, mode }, true, class)
}

fn c25(g: &mut G) -> Gen {
    use crate::series::*;
    let mut texts = Vec::new();
    let mut classes = Vec::new();
    for _ in 0..1 + g.count(4) {
        let (v, _) = small_module(g);
        let lay = layout(g);
        let t = match g.weighted(&[6, 3, 2, 2, 1]) {
            0 => (render(g, &v, lay).src, ACCEPTED, "accepted text"),
            1 => {
                let mut v = v;
                for _ in 0..1 + g.count(2) {
                    mutate(g, &mut v, &[]);
                }
                (render(g, &v, lay).src, UNKNOWN, "edited text")
            }
            2 => (soup(g, 12).0, UNKNOWN, "soup"),
            // ends in the middle of something
            3 => {
                let s = render(g, &v, lay).src;
                (cut_chars(g, &s), UNKNOWN, "cut text")
            }
            _ => {
                let s = render(g, &v, lay).src;
                let t = g.pick(&["'", "\"a\\", "/*", "`", "`${", "\n/a", "#", "0x", "'\n'", "1e", "@", "(", "{", "[", "a b"]);
                (format!("{}\n;{}", s, t), REJECTED, "rejected text")
            }
        };
        // every token of every text is kept, so no stretched lists here
        texts.push(if t.0.len() > 60_000 { ("a;".to_string(), ACCEPTED) } else { (t.0, t.1) });
        classes.push(t.2);
    }
    let n = 2 + g.below(14);
    let ops: Vec<(u8, u8, u8)> = (0..n)
        .map(|_| {
            let op = g.weighted(&[8, 5, 8, 3, 2, 1, 2, 3, 3, 1]) as u8;
            (op, g.below(8) as u8, g.below(200) as u8)
        })
        .collect();
    for o in &ops {
        classes.push(OPS[o.0 as usize]);
    }
    // now and then often enough for a counter to wrap or a table to fill
    let times = match g.below(1000) {
        0 => 300,
        1..=4 => 40,
        5..=100 => 3,
        _ => 1,
    };
    // threads are dear
    let times = if ops.iter().any(|o| o.0 == 5 || o.0 == 9) { times.min(20) } else { times };
    // so are stretched texts
    let bytes: usize = texts.iter().map(|t| t.0.len()).sum();
    let times = if bytes > 20_000 { 1 } else { times };
    classes.sort();
    classes.dedup();
    let nontrivial = ops.len() >= 3 && texts.len() >= 2;
    Gen { case: Case::Series(Series { texts, ops, times }), nontrivial, classes }
}
