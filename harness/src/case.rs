//! One test case: a concrete input plus what the specification says about it. `eval` decides it
//! against the real code.
use crate::json::J;
use crate::lexgen::*;
use crate::sut::*;
use jsparse::verif_hooks::tokens::{self, Token};
use jsparse::verif_hooks::TokenRange;

/// What a `Lex` case compares, besides the sequence of token kinds.
pub const EXTENT: u8 = 1;
pub const TEXT: u8 = 2;
pub const VALUE: u8 = 4;
pub const POSITION: u8 = 8;

#[derive(Clone, Debug)]
pub enum Case {
    /// Pull with each token's hint: exactly these tokens (trivia included) come out.
    Lex { src: String, toks: Vec<ETok>, what: u8 },
    /// Pull with cycled hints until failure or a few pulls past the end: the tokens tile the text.
    Tile { src: String, hints: Vec<u8> },
    /// Pull these tokens; the next pull, with this hint, fails.
    LexFail { src: String, toks: Vec<ETok>, hint: u8 },
    /// Never accepted, and pulling with any of the given hints never yields a zero-width token.
    Accept { src: String },
    Reject { src: String, why: String },
    /// Accepted, and the parser obtained exactly these significant tokens.
    Stream { src: String, toks: Vec<ETok> },
    /// Same outcome and the same significant tokens.
    Same { a: String, b: String },
    /// When every `given` is accepted, `then` is.
    AllAccept { given: Vec<String>, then: String },
    /// When `given` is rejected, `then` is.
    StillReject { given: String, then: String },
    /// Terminates within the token budget, twice the same, without internal fault.
    Robust { src: String },
    /// Delivering the tokens of `src` through another tokenizer gives the same outcome.
    Substitute { src: String, variant: u64 },
    /// The tokens listed, delivered by a foreign tokenizer, are accepted / rejected like the text.
    Deliver { toks: Vec<(u8, String, String, bool)>, accept: Option<bool> },
    /// The command-line program, run on a file of these bytes.
    Cli { bytes: Vec<u8>, mode: u8 },
    /// `pre`, `open` n times, `mid`, `close` n times, `post`: parsed on a stack of 512 kB, or by the program.
    Deep { pre: String, open: String, mid: String, close: String, post: String, n: usize, program: bool },
    /// Parses and tokenizers in one process that must not show in each other.
    Series(crate::series::Series),
    /// Memory in use at once, in all and afterwards.
    Memory(crate::mem::Memory),
    /// What hints may decide.
    Hints(crate::hints::Hints),
}

pub fn show_src(s: &str) -> String {
    let t: String = s.chars().take(400).collect();
    format!("{:?}{}", t, if t.len() < s.len() { "..." } else { "" })
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

impl Case {
    pub fn json(&self) -> J {
        let toks = |t: &Vec<ETok>| J::Arr(t.iter().map(|t| t.json()).collect());
        match self {
            Case::Lex { src, toks: t, what } => J::obj(vec![
                ("kind", J::s("lex")),
                ("src", J::s(src.clone())),
                ("toks", toks(t)),
                ("what", J::u(*what as usize)),
            ]),
            Case::Tile { src, hints } => J::obj(vec![
                ("kind", J::s("tile")),
                ("src", J::s(src.clone())),
                ("hints", J::Arr(hints.iter().map(|h| J::u(*h as usize)).collect())),
            ]),
            Case::LexFail { src, toks: t, hint } => J::obj(vec![
                ("kind", J::s("lexfail")),
                ("src", J::s(src.clone())),
                ("toks", toks(t)),
                ("hint", J::u(*hint as usize)),
            ]),
            Case::Accept { src } => J::obj(vec![("kind", J::s("accept")), ("src", J::s(src.clone()))]),
            Case::Reject { src, why } => {
                J::obj(vec![("kind", J::s("reject")), ("src", J::s(src.clone())), ("why", J::s(why.clone()))])
            }
            Case::Stream { src, toks: t } => {
                J::obj(vec![("kind", J::s("stream")), ("src", J::s(src.clone())), ("toks", toks(t))])
            }
            Case::Same { a, b } => J::obj(vec![("kind", J::s("same")), ("a", J::s(a.clone())), ("b", J::s(b.clone()))]),
            Case::AllAccept { given, then } => J::obj(vec![
                ("kind", J::s("allaccept")),
                ("given", J::Arr(given.iter().map(|s| J::s(s.clone())).collect())),
                ("then", J::s(then.clone())),
            ]),
            Case::StillReject { given, then } => J::obj(vec![
                ("kind", J::s("stillreject")),
                ("given", J::s(given.clone())),
                ("then", J::s(then.clone())),
            ]),
            Case::Robust { src } => J::obj(vec![("kind", J::s("robust")), ("src", J::s(src.clone()))]),
            Case::Substitute { src, variant } => J::obj(vec![
                ("kind", J::s("substitute")),
                ("src", J::s(src.clone())),
                ("variant", J::s(variant.to_string())),
            ]),
            Case::Deliver { toks, accept } => J::obj(vec![
                ("kind", J::s("deliver")),
                (
                    "toks",
                    J::Arr(
                        toks.iter()
                            .map(|(k, a, b, n)| {
                                J::Arr(vec![J::u(*k as usize), J::s(a.clone()), J::s(b.clone()), J::Bool(*n)])
                            })
                            .collect(),
                    ),
                ),
                ("accept", accept.map_or(J::Null, J::Bool)),
            ]),
            Case::Cli { bytes, mode } => J::obj(vec![
                ("kind", J::s("cli")),
                ("hex", J::s(hex(bytes))),
                ("mode", J::u(*mode as usize)),
                ("text", J::s(String::from_utf8_lossy(bytes).into_owned())),
            ]),
            Case::Deep { pre, open, mid, close, post, n, program } => J::obj(vec![
                ("kind", J::s("deep")),
                ("pre", J::s(pre.clone())),
                ("post", J::s(post.clone())),
                ("open", J::s(open.clone())),
                ("mid", J::s(mid.clone())),
                ("close", J::s(close.clone())),
                ("n", J::u(*n)),
                ("program", J::Bool(*program)),
            ]),
            Case::Series(s) => s.json(),
            Case::Memory(m) => m.json(),
            Case::Hints(h) => h.json(),
        }
    }
    pub fn from_json(j: &J) -> Option<Case> {
        let s = |k: &str| j.get(k).and_then(|x| x.str()).map(|x| x.to_string());
        let toks = || -> Option<Vec<ETok>> { j.get("toks")?.arr()?.iter().map(ETok::from_json).collect() };
        let n = |k: &str| j.get(k).and_then(|x| x.num()).map(|x| x as u8);
        Some(match j.get("kind")?.str()? {
            "lex" => Case::Lex { src: s("src")?, toks: toks()?, what: n("what")? },
            "tile" => Case::Tile {
                src: s("src")?,
                hints: j.get("hints")?.arr()?.iter().map(|x| x.num().unwrap_or(0.0) as u8).collect(),
            },
            "lexfail" => Case::LexFail { src: s("src")?, toks: toks()?, hint: n("hint")? },
            "accept" => Case::Accept { src: s("src")? },
            "reject" => Case::Reject { src: s("src")?, why: s("why").unwrap_or_default() },
            "stream" => Case::Stream { src: s("src")?, toks: toks()? },
            "same" => Case::Same { a: s("a")?, b: s("b")? },
            "allaccept" => Case::AllAccept {
                given: j.get("given")?.arr()?.iter().filter_map(|x| x.str().map(|s| s.to_string())).collect(),
                then: s("then")?,
            },
            "stillreject" => Case::StillReject { given: s("given")?, then: s("then")? },
            "robust" => Case::Robust { src: s("src")? },
            "substitute" => Case::Substitute { src: s("src")?, variant: s("variant")?.parse().ok()? },
            "deliver" => Case::Deliver {
                toks: j
                    .get("toks")?
                    .arr()?
                    .iter()
                    .map(|t| {
                        let v = t.arr()?;
                        Some((v[0].num()? as u8, v[1].str()?.to_string(), v[2].str()?.to_string(), v[3].bool()?))
                    })
                    .collect::<Option<Vec<_>>>()?,
                accept: j.get("accept").and_then(|x| x.bool()),
            },
            "deep" => Case::Deep {
                pre: s("pre").unwrap_or_default(),
                post: s("post").unwrap_or_default(),
                open: s("open")?,
                mid: s("mid")?,
                close: s("close")?,
                n: j.get("n")?.num()? as usize,
                program: j.get("program")?.bool()?,
            },
            "series" => Case::Series(crate::series::Series::from_json(j)?),
            "hints" => Case::Hints(crate::hints::Hints::from_json(j)?),
            "memory" => Case::Memory(crate::mem::Memory::from_json(j)?),
            "cli" => Case::Cli { bytes: unhex(&s("hex")?)?, mode: n("mode")? },
            _ => return None,
        })
    }
    /// Identity for counting distinct cases.
    pub fn key(&self) -> u64 {
        let s = match self {
            Case::Lex { src, .. } | Case::LexFail { src, .. } => format!("L{}", src),
            Case::Tile { src, hints } => format!("T{:?}{}", hints, src),
            Case::Accept { src } | Case::Reject { src, .. } | Case::Stream { src, .. } | Case::Robust { src } => src.clone(),
            Case::Same { a, b } => format!("{}\0{}", a, b),
            Case::AllAccept { then, .. } | Case::StillReject { then, .. } => then.clone(),
            Case::Substitute { src, variant } => format!("{}\0{}", src, variant),
            Case::Deliver { toks, .. } => format!("{:?}", toks),
            Case::Cli { bytes, mode } => format!("{}{}", mode, hex(bytes)),
            Case::Deep { pre, open, mid, close, post, n, program } => format!("{:?}", (pre, open, mid, close, post, n, program)),
            Case::Series(s) => format!("{:?}", s),
            Case::Memory(m) => format!("{:?}", m),
            Case::Hints(h) => h.src.clone(),
        };
        crate::tape::hash_str(&s)
    }
}

// ---------------------------------------------------------------------------------------------

fn mid_crlf(src: &str, off: usize) -> bool {
    off > 0 && off < src.len() && src.as_bytes()[off - 1] == b'\r' && src.as_bytes()[off] == b'\n'
}

/// A line break token may cover CR LF at once or in two steps; normalise to two steps.
fn split_crlf(v: Vec<STok>, src: &str) -> Vec<STok> {
    let mut out = Vec::with_capacity(v.len());
    for t in v {
        if t.kind == "nl" && src.get(t.start.0..t.end.0) == Some("\r\n") {
            let mut a = t.clone();
            a.end.0 -= 1;
            let mut b = t;
            b.start.0 += 1;
            out.push(a);
            out.push(b);
        } else {
            out.push(t);
        }
    }
    out
}

pub fn num_ok(lit: &str, want: f64, got: f64) -> Result<(), String> {
    let bad = |why: &str| Err(format!("literal {} has value {:e}, {} (reference {:e})", lit, got, why, want));
    let radix = lit.len() > 1 && lit.as_bytes()[0] == b'0' && lit.as_bytes()[1].is_ascii_alphabetic() && !lit[1..2].eq_ignore_ascii_case("e");
    if got.is_nan() || got < 0.0 {
        return bad("not a non-negative number");
    }
    if radix {
        if want < 9007199254740992.0 {
            return if got == want { Ok(()) } else { bad("must be exact") };
        }
    } else if !lit.contains(|c| c == 'e' || c == 'E' || c == '.') || lit.ends_with('.') {
        if want < 9007199254740992.0 {
            return if got == want { Ok(()) } else { bad("must be exact") };
        }
    }
    // Near the ends of the range rounding may step over them.
    let limit = f64::MAX * (1.0 - 1e-12);
    let tol = 1e-12 * want + 1e-320;
    if want.is_infinite() && got >= limit || got.is_infinite() && want >= limit || (got - want).abs() <= tol {
        Ok(())
    } else {
        bad("beyond rounding")
    }
}

fn matches_tok(src: &str, e: &ETok, t: &STok, what: u8, pos: Option<&PosTable>) -> Result<(), String> {
    let here = || show_src(src.get(e.start..e.end).unwrap_or("?"));
    if t.kind != e.kind {
        return Err(format!("expected {} {} at {}, got {} {:?}", e.kind, here(), e.start, t.kind, t.a));
    }
    if what & (EXTENT | POSITION) != 0 && (t.start.0, t.end.0) != (e.start, e.end) {
        return Err(format!(
            "{} {} should cover bytes {}..{}, got {}..{}",
            e.kind,
            here(),
            e.start,
            e.end,
            t.start.0,
            t.end.0
        ));
    }
    if what & TEXT != 0 {
        if let Some(a) = &e.a {
            if *a != t.a {
                return Err(format!("{} {} at {}: text {:?}, got {:?}", e.kind, here(), e.start, a, t.a));
            }
        }
        if let Some(b) = &e.b {
            if *b != t.b {
                return Err(format!("{} {} at {}: {:?}, got {:?}", e.kind, here(), e.start, b, t.b));
            }
        }
    }
    if what & VALUE != 0 {
        if let Some(n) = e.num {
            num_ok(&src[e.start..e.end], n, t.num)?;
        }
    }
    if let Some(pt) = pos {
        for (off, got, name) in [(e.start, t.start, "start"), (e.end, t.end, "end")] {
            if mid_crlf(src, off) {
                continue;
            }
            if let Some(p) = pt.get(off) {
                if (p.off, p.line, p.col) != got {
                    return Err(format!(
                        "{} of {} {}: expected offset {} line {} column {}, got offset {} line {} column {}",
                        name, e.kind, here(), p.off, p.line, p.col, got.0, got.1, got.2
                    ));
                }
            }
        }
    }
    Ok(())
}

fn eval_lex(src: &str, toks: &[ETok], what: u8, fail_hint: Option<u8>) -> Result<(), String> {
    let mut p = Puller::new(src);
    let mut got = Vec::new();
    // pull until as many tokens as expected have come; CR LF may come as one token
    let mut i = 0;
    while i < toks.len() {
        let h = toks[i].hint;
        let t = p
            .pull(h & 1 != 0, h & 2 != 0)
            .map_err(|m| format!("pulling {} {} at {} failed: {}", toks[i].kind, show_src(&src[toks[i].start..toks[i].end]), toks[i].start, m))?;
        let t = split_crlf(vec![t], src);
        for t in t {
            if i < toks.len() {
                matches_tok(src, &toks[i], &t, what & !POSITION, None)?;
                got.push((i, t));
                i += 1;
            }
        }
    }
    if let Some(h) = fail_hint {
        if let Ok(t) = p.pull(h & 1 != 0, h & 2 != 0) {
            return Err(format!(
                "expected a refusal after byte {}, got {} {:?} covering {}..{}",
                toks.last().map_or(0, |t| t.end),
                t.kind,
                t.a,
                t.start.0,
                t.end.0
            ));
        }
        return Ok(());
    }
    if what & POSITION != 0 {
        let pt = PosTable::new(src);
        for (i, t) in &got {
            matches_tok(src, &toks[*i], t, POSITION, Some(&pt))?;
        }
    }
    // further pulls repeat the end of file
    if toks.last().map_or(false, |t| t.kind == "eof") {
        for h in [0u8, 1, 2] {
            let t = p.pull(h & 1 != 0, h & 2 != 0).map_err(|m| format!("pull after the end failed: {}", m))?;
            if t.kind != "eof" || t.start.0 != src.len() || t.end.0 != src.len() {
                return Err(format!("pull after the end gave {} at {}..{}", t.kind, t.start.0, t.end.0));
            }
        }
    }
    Ok(())
}

fn blank(s: &str) -> bool {
    s.chars().all(|c| matches!(c, '\t' | '\u{0B}' | '\u{0C}' | ' ' | '\u{A0}' | '\u{FEFF}'))
}

fn eval_tile(src: &str, hints: &[u8]) -> Result<(), String> {
    let mut p = Puller::new(src);
    let mut at = 0usize;
    for n in 0..src.len() + 4 {
        let h = if hints.is_empty() { 0 } else { hints[n % hints.len()] };
        let t = match p.pull(h & 1 != 0, h & 2 != 0) {
            Ok(t) => t,
            Err(m) => {
                return if internal_fault(&m) { Err(format!("internal fault pulling after byte {}: {}", at, m)) } else { Ok(()) }
            }
        };
        let (s, e) = (t.start.0, t.end.0);
        let show = format!("{} {:?} at {}..{}", t.kind, t.a, s, e);
        if s < at || e < s || e > src.len() || !src.is_char_boundary(s) || !src.is_char_boundary(e) {
            return Err(format!("{}: range does not follow the previous token ending at {}", show, at));
        }
        if !blank(&src[at..s]) {
            return Err(format!("{}: skips {}", show, show_src(&src[at..s])));
        }
        let text = &src[s..e];
        if t.kind == "eof" {
            if s != src.len() || e != src.len() {
                return Err(format!("{}: end of file before the end of the text", show));
            }
            for h in [0u8, 1, 2, 3] {
                let t = p.pull(h & 1 != 0, h & 2 != 0).map_err(|m| format!("pull after the end failed: {}", m))?;
                if t.kind != "eof" || t.start.0 != src.len() || t.end.0 != src.len() {
                    return Err(format!("pull after the end gave {} at {}..{}", t.kind, t.start.0, t.end.0));
                }
            }
            return Ok(());
        }
        if text.is_empty() {
            return Err(format!("{}: covers no text", show));
        }
        let ok = match t.kind {
            "punct" => t.a == text,
            "name" => t.a == text && text.chars().all(is_id_char),
            "str" => {
                let c = text.chars().next().unwrap();
                (c == '\'' || c == '"') && text.len() >= 2 && text.ends_with(c) && {
                    let inner = &text[1..text.len() - 1];
                    inner.contains('\\') || t.a == inner
                }
            }
            "tpl" => {
                let (open, close) = match &t.b[..] {
                    "full" => ("`", "`"),
                    "head" => ("`", "${"),
                    "middle" => ("}", "${"),
                    _ => ("}", "`"),
                };
                text == format!("{}{}{}", open, t.a, close)
            }
            "re" => text == format!("/{}/{}", t.a, t.b),
            "comment" => match &t.b[..] {
                "line" => text == format!("//{}", t.a),
                "block" => text == format!("/*{}*/", t.a),
                _ => true,
            },
            "nl" => matches!(text, "\n" | "\r" | "\r\n" | "\u{2028}" | "\u{2029}"),
            "num" => text.starts_with(|c: char| c.is_ascii_digit() || c == '.'),
            "ws" => blank(text),
            _ => true,
        };
        if !ok {
            return Err(format!("{}: reports text other than its source {}", show, show_src(text)));
        }
        at = e;
    }
    Err(format!("no end of file after {} pulls", src.len() + 4))
}

fn significant(v: Vec<STok>) -> Vec<STok> {
    v.into_iter().filter(|t| !matches!(t.kind, "nl" | "ws" | "comment")).collect()
}

fn brief(t: &STok) -> String {
    match t.kind {
        "num" => format!("num {:e}", t.num),
        k => format!("{} {:?}{}", k, t.a, if t.b.is_empty() { String::new() } else { format!(" {}", t.b) }),
    }
}

pub fn eval(c: &Case) -> Result<(), String> {
    match c {
        Case::Lex { src, toks, what } => eval_lex(src, toks, *what, None),
        Case::LexFail { src, toks, hint } => eval_lex(src, toks, EXTENT, Some(*hint)),
        Case::Tile { src, hints } => eval_tile(src, hints),
        Case::Accept { src } => match parse(src) {
            Outcome::Accepted => Ok(()),
            o => Err(format!("well-formed module {}: {}", show_src(src), o.show())),
        },
        Case::Reject { src, why } => match parse(src) {
            Outcome::Accepted => Err(format!("malformed module {} accepted ({})", show_src(src), why)),
            Outcome::Rejected(m) if internal_fault(&m) => Err(format!("{}: internal fault instead of a rejection: {}", show_src(src), m)),
            _ => Ok(()),
        },
        Case::Stream { src, toks } => {
            let (o, log) = parse_recorded(src);
            if !o.ok() {
                return Err(format!("well-formed module {}: {}", show_src(src), o.show()));
            }
            let log = significant(log);
            for (i, e) in toks.iter().enumerate() {
                match log.get(i) {
                    None => return Err(format!("the parser never obtained {} {}", e.kind, show_src(&src[e.start..e.end]))),
                    Some(t) => matches_tok(src, e, t, EXTENT | TEXT, None)?,
                }
            }
            match log.get(toks.len()) {
                Some(t) if t.kind == "eof" => {}
                Some(t) => return Err(format!("extra token {} at {}", brief(t), t.start.0)),
                None => return Err("the parser accepted without reaching the end of file".into()),
            }
            if log.len() > toks.len() + 1 {
                return Err(format!("token requested after the end of file: {}", brief(&log[toks.len() + 1])));
            }
            Ok(())
        }
        Case::Same { a, b } => {
            let (oa, la) = parse_recorded(a);
            let (ob, lb) = parse_recorded(b);
            if oa.ok() != ob.ok() {
                return Err(format!("{} is {}, {} is {}", show_src(a), oa.show(), show_src(b), ob.show()));
            }
            let (la, lb) = (significant(la), significant(lb));
            for i in 0..la.len().max(lb.len()) {
                let (x, y) = (la.get(i), lb.get(i));
                let same = match (x, y) {
                    (Some(x), Some(y)) => x.kind == y.kind && x.a == y.a && x.b == y.b && x.num == y.num,
                    _ => false,
                };
                if !same {
                    return Err(format!(
                        "token {} is {} in {} but {} in {}",
                        i,
                        x.map_or("missing".into(), brief),
                        show_src(a),
                        y.map_or("missing".into(), brief),
                        show_src(b)
                    ));
                }
            }
            Ok(())
        }
        Case::AllAccept { given, then } => {
            if given.iter().all(|s| parse(s).ok()) {
                match parse(then) {
                    Outcome::Accepted => Ok(()),
                    o => Err(format!("parts {:?} are accepted, {} is {}", given, show_src(then), o.show())),
                }
            } else {
                Ok(())
            }
        }
        Case::StillReject { given, then } => {
            if parse(given).ok() {
                return Ok(());
            }
            match parse(then) {
                Outcome::Accepted => Err(format!("{} is rejected, {} is accepted", show_src(given), show_src(then))),
                _ => Ok(()),
            }
        }
        Case::Robust { src } => {
            let (o, log) = parse_recorded(src);
            if let Outcome::Rejected(m) = &o {
                if internal_fault(m) {
                    return Err(format!("parsing {}: {}", show_src(src), m));
                }
            }
            let _ = log;
            let p = parse(src);
            if let Outcome::Rejected(m) = &p {
                if internal_fault(m) {
                    return Err(format!("parsing {}: {}", show_src(src), m));
                }
            }
            if o.ok() != p.ok() {
                return Err(format!("parsing {} twice: {}, then {}", show_src(src), o.show(), p.show()));
            }
            Ok(())
        }
        Case::Substitute { src, variant } => eval_substitute(src, *variant),
        Case::Deliver { toks, accept } => {
            let v = deliver(toks);
            let (o, _) = parse_replay(v);
            let text = toks.iter().map(|t| if t.3 { format!("\n{}", t.1) } else { t.1.clone() }).collect::<Vec<_>>().join(" ");
            if let Some(a) = accept {
                if o.ok() != *a {
                    return Err(format!("tokens {} delivered by another tokenizer: {}", show_src(&text), o.show()));
                }
            }
            Ok(())
        }
        Case::Cli { bytes, mode } => crate::cli::eval_cli(bytes, *mode),
        Case::Series(s) => crate::series::eval_series(s),
        Case::Memory(m) => crate::mem::eval_memory(m),
        Case::Hints(h) => crate::hints::eval_hints(h),
        Case::Deep { pre, open, mid, close, post, n, program } => {
            let src = format!("{}{}{}{}{}", pre, open.repeat(*n), mid, close.repeat(*n), post);
            if *program {
                return crate::cli::eval_cli(src.as_bytes(), 0);
            }
            let h = std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn(move || {
                    let big = src.len() > 100_000;
                    let head = show_src(&src);
                    let len = src.len();
                    let t = thread_cpu();
                    let r = eval(&Case::Robust { src });
                    let t = thread_cpu() - t;
                    if r.is_ok() && big && t > SLOW_CPU {
                        return Err(format!("{} ({} bytes) takes more than {} s of CPU time", head, len, SLOW_CPU));
                    }
                    r
                })
                .unwrap();
            h.join().unwrap_or_else(|_| Err("the harness failed".into()))
        }
    }
}

/// What a text of a few megabytes may take. It takes a fortieth of that.
const SLOW_CPU: f64 = 12.0;
fn thread_cpu() -> f64 {
    extern "C" {
        fn clock_gettime(id: i32, out: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 / 1e9
}

/// Kinds for delivered tokens: 0 punct, 1 name, 2 num, 3 str, 4..=7 template, 8 regex.
fn token_of(k: u8, a: &str, b: &str) -> Token<'static> {
    match k {
        0 => punct_from(a).into(),
        1 => tokens::IdentifierNameToken { name: a.to_string().into() }.into(),
        2 => tokens::NumericLiteralToken { value: a.parse().unwrap_or(0.0) }.into(),
        3 => tokens::StringLiteralToken { value: a.to_string().into() }.into(),
        8 => tokens::RegularExpressionLiteralToken { pattern: a.to_string().into(), flags: b.to_string().into() }.into(),
        k => tokens::TemplateToken {
            format: match k {
                4 => tokens::TemplateFormat::NoSubstitution,
                5 => tokens::TemplateFormat::Head,
                6 => tokens::TemplateFormat::Middle,
                _ => tokens::TemplateFormat::Tail,
            },
            cooked: b.to_string().into(),
            raw: a.to_string().into(),
        }
        .into(),
    }
}
fn multi_line_range() -> TokenRange {
    let mut r = TokenRange::default();
    r.start.line = 3;
    r.end.line = 4;
    r
}
fn trivia_tokens(nl: bool, rng: &mut crate::tape::Rng, out: &mut Vec<(Token<'static>, TokenRange)>) {
    let n = rng.next() % 3;
    let comment = |body: &str, line: bool| -> Token<'static> {
        tokens::CommentToken {
            format: if line { tokens::CommentFormat::Line } else { tokens::CommentFormat::Block },
            value: body.to_string().into(),
        }
        .into()
    };
    for _ in 0..n {
        match rng.next() % 3 {
            0 => out.push((tokens::WhitespaceToken {}.into(), TokenRange::default())),
            1 => out.push((comment("a b", false), TokenRange::default())),
            _ => out.push((comment("", false), TokenRange::default())),
        }
    }
    if nl {
        match rng.next() % 3 {
            0 => out.push((tokens::LineTerminatorToken {}.into(), TokenRange::default())),
            1 => out.push((comment("a\nb", false), multi_line_range())),
            _ => {
                out.push((comment("line", true), TokenRange::default()));
                out.push((tokens::LineTerminatorToken {}.into(), TokenRange::default()));
                out.push((tokens::LineTerminatorToken {}.into(), multi_line_range()));
            }
        }
        for _ in 0..rng.next() % 2 {
            out.push((tokens::WhitespaceToken {}.into(), TokenRange::default()));
            out.push((comment("x", false), TokenRange::default()));
        }
    }
}
fn deliver(toks: &[(u8, String, String, bool)]) -> Vec<(Token<'static>, TokenRange)> {
    let mut rng = crate::tape::Rng::new(crate::tape::hash_str(&format!("{:?}", toks)));
    let mut v = Vec::new();
    for (k, a, b, nl) in toks {
        trivia_tokens(*nl, &mut rng, &mut v);
        v.push((token_of(*k, a, b), TokenRange::default()));
    }
    v
}

/// A name no rule of the language mentions.
fn ordinary(s: &str) -> bool {
    const OTHERS: [&str; 14] = [
        "let", "static", "implements", "interface", "package", "private", "protected", "public", "arguments", "eval", "constructor", "prototype",
        "__proto__", "undefined",
    ];
    !crate::js::RESERVED.contains(&s) && !crate::js::CONTEXTUAL.contains(&s) && !OTHERS.contains(&s)
}
fn eval_substitute(src: &str, variant: u64) -> Result<(), String> {
    let (o, log, lex_failed) = parse_recorded_full(src);
    if lex_failed {
        // the built-in tokenizer refused: another tokenizer has no such token to deliver
        return Ok(());
    }
    if let Outcome::Rejected(m) = &o {
        if internal_fault(m) {
            return Err(format!("parsing {}: {}", show_src(src), m));
        }
    }
    let mut rng = crate::tape::Rng::new(variant);
    // Half of the time names the grammar knows nothing about become others, each the same everywhere.
    let rename = rng.next() % 2 == 0;
    let mut names: std::collections::HashMap<String, String> = std::collections::HashMap::new();
    let mut v: Vec<(Token<'static>, TokenRange)> = Vec::new();
    let mut nl = false;
    for t in &log {
        match t.kind {
            "nl" => nl = true,
            "ws" => {}
            "comment" => nl |= has_nl(&t.a),
            "eof" => trivia_tokens(nl, &mut rng, &mut v),
            k => {
                trivia_tokens(nl, &mut rng, &mut v);
                nl = false;
                let any = |rng: &mut crate::tape::Rng| ["", "x", "\n", "use strict", "}", "`"][(rng.next() % 6) as usize].to_string();
                let tok = match k {
                    "punct" if t.a == "<html-like>" => return Ok(()),
                    "punct" => token_of(0, &t.a, ""),
                    "name" if rename && ordinary(&t.a) => {
                        let n = names.len();
                        let k = names.entry(t.a.clone()).or_insert_with(|| {
                            let stem = [
                                "a", "$", "_", "x", "Z", "ofof", "async_", "awaitable", "Yield", "in", "instanceOf", "newTarget", "getter", "sets", "NaN",
                                "toString", "\u{e9}", "\u{65e5}", "a b", "#", "\n", "use strict",
                            ][(rng.next() % 22) as usize];
                            let long = if rng.next() % 16 == 0 { "_".repeat((rng.next() % 1500) as usize) } else { String::new() };
                            format!("{}{}{}", stem, long, n)
                        });
                        token_of(1, k, "")
                    }
                    "name" => token_of(1, &t.a, ""),
                    "num" => token_of(2, ["0", "NaN", "1e400", "7"][(rng.next() % 4) as usize], ""),
                    "str" => token_of(3, &any(&mut rng), ""),
                    "re" => token_of(8, &any(&mut rng), &any(&mut rng)),
                    _ => {
                        let k = 4 + TPL.iter().position(|f| *f == t.b).unwrap_or(0) as u8;
                        token_of(k, &any(&mut rng), &any(&mut rng))
                    }
                };
                let mut r = TokenRange::default();
                if rng.next() % 2 == 0 {
                    r.start.offset = (rng.next() % 1000) as usize;
                    r.end.line = (rng.next() % 1000) as usize;
                    r.end.column = usize::max_value();
                }
                v.push((tok, r));
            }
        }
    }
    let n = v.len();
    let (q, calls) = parse_replay(v);
    if q.ok() != o.ok() {
        return Err(format!(
            "{} is {} with the built-in tokenizer but {} when the same tokens are delivered by another",
            show_src(src),
            o.show(),
            q.show()
        ));
    }
    if o.ok() && calls != n + 1 {
        return Err(format!("{} trivia and significant tokens and the end of file took {} calls", n, calls));
    }
    Ok(())
}
