//! C25: a history of parses and tokenizers in one process, in which no step may show in another.
use crate::case::show_src;
use crate::json::J;
use crate::sut::*;
use jsparse::parser::parse_root;
use jsparse::verif_hooks::tokens::Token;
use jsparse::verif_hooks::{Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};
use std::cell::RefCell;
use std::rc::Rc;

/// What construction says about a text.
pub const REJECTED: u8 = 0;
pub const ACCEPTED: u8 = 1;
pub const UNKNOWN: u8 = 2;

#[derive(Clone, Debug)]
pub struct Series {
    pub texts: Vec<(String, u8)>,
    /// (what, a, b); see `step`
    pub ops: Vec<(u8, u8, u8)>,
    pub times: u32,
}

pub const OPS: [&str; 10] = [
    "parse", "open a tokenizer", "pull tokens", "copy a tokenizer", "drop a tokenizer", "parse on several threads",
    "parse as part of a larger text", "parse cut off by a failing tokenizer", "parse while another text is parsed", "pull on another thread",
];

impl Series {
    pub fn json(&self) -> J {
        J::obj(vec![
            ("kind", J::s("series")),
            ("texts", J::Arr(self.texts.iter().map(|t| J::Arr(vec![J::s(t.0.clone()), J::u(t.1 as usize)])).collect())),
            ("ops", J::Arr(self.ops.iter().map(|o| J::Arr(vec![J::u(o.0 as usize), J::u(o.1 as usize), J::u(o.2 as usize)])).collect())),
            ("times", J::u(self.times as usize)),
        ])
    }
    pub fn from_json(j: &J) -> Option<Series> {
        let n = |x: &J| x.num().map(|x| x as u8);
        Some(Series {
            texts: j
                .get("texts")?
                .arr()?
                .iter()
                .map(|t| {
                    let t = t.arr()?;
                    Some((t[0].str()?.to_string(), n(&t[1])?))
                })
                .collect::<Option<Vec<_>>>()?,
            ops: j
                .get("ops")?
                .arr()?
                .iter()
                .map(|t| {
                    let t = t.arr()?;
                    Some((n(&t[0])?, n(&t[1])?, n(&t[2])?))
                })
                .collect::<Option<Vec<_>>>()?,
            times: j.get("times")?.num()? as u32,
        })
    }
}

/// The hint for the k-th pull from a text: any fixed choice does.
fn hint(k: usize, salt: usize) -> (bool, bool) {
    let x = crate::tape::mix((k * 31 + salt) as u64);
    (x & 1 == 0, x & 6 == 6)
}

type Pulled = Vec<Option<STok>>;

/// All tokens of a text with those hints; `None` where the tokenizer refuses.
fn pull_all(src: &str, salt: usize) -> Pulled {
    let mut p = Puller::new(src);
    let mut v = Vec::new();
    for k in 0..src.len() + 2 {
        let h = hint(k, salt);
        match p.pull(h.0, h.1) {
            Ok(t) => {
                let end = t.kind == "eof";
                v.push(Some(t));
                if end {
                    break;
                }
            }
            Err(_) => {
                v.push(None);
                break;
            }
        }
    }
    v
}

struct Slot<'c> {
    text: usize,
    at: usize,
    over: bool,
    tok: Puller<'c>,
}

struct World<'c> {
    texts: &'c [(String, u8)],
    /// Answer and tokens of the first parse of each text.
    first: Vec<Option<(bool, Vec<STok>)>>,
    pulled: Vec<Option<Pulled>>,
    slots: Vec<Slot<'c>>,
}

fn same(a: &(bool, Vec<STok>), b: &(bool, Vec<STok>)) -> bool {
    a.0 == b.0 && a.1 == b.1
}
fn word(b: bool) -> &'static str {
    if b {
        "accepted"
    } else {
        "rejected"
    }
}
fn answer(src: &str) -> Result<(bool, Vec<STok>), String> {
    let (o, l) = parse_recorded(src);
    if let Outcome::Rejected(m) = &o {
        if internal_fault(m) {
            return Err(format!("parsing {}: {}", show_src(src), m));
        }
    }
    Ok((o.ok(), l))
}

impl<'c> World<'c> {
    fn check(&mut self, i: usize, got: (bool, Vec<STok>), how: &str) -> Result<(), String> {
        let t = &self.texts[i];
        if t.1 != UNKNOWN && got.0 != (t.1 == ACCEPTED) {
            return Err(format!("{} is {} {}", show_src(&t.0), word(got.0), how));
        }
        match &self.first[i] {
            None => self.first[i] = Some(got),
            Some(f) => {
                if !same(f, &got) {
                    let k = f.1.iter().zip(&got.1).take_while(|(a, b)| a == b).count();
                    return Err(format!(
                        "{} was {} with {} tokens at first, and is {} with {} tokens {} (the first {} are the same)",
                        show_src(&t.0),
                        word(f.0),
                        f.1.len(),
                        word(got.0),
                        got.1.len(),
                        how,
                        k
                    ));
                }
            }
        }
        Ok(())
    }
    fn parse(&mut self, i: usize, how: &str) -> Result<(), String> {
        let a = answer(&self.texts[i].0)?;
        self.check(i, a, how)
    }
    fn reference(&mut self, i: usize) -> &Pulled {
        if self.pulled[i].is_none() {
            self.pulled[i] = Some(pull_all(&self.texts[i].0, i));
        }
        self.pulled[i].as_ref().unwrap()
    }
    fn pull(&mut self, s: usize, n: usize) -> Result<(), String> {
        let i = self.slots[s].text;
        self.reference(i);
        let want = self.pulled[i].as_ref().unwrap();
        let slot = &mut self.slots[s];
        for _ in 0..n {
            if slot.over {
                break;
            }
            let k = slot.at;
            let h = hint(k, i);
            let got = slot.tok.pull(h.0, h.1).ok();
            if got != want[k] {
                let show = |t: &Option<STok>| t.as_ref().map_or("a refusal".to_string(), |t| format!("{} {:?} at {:?}", t.kind, t.a, t.start));
                return Err(format!(
                    "pull {} from {} gives {}, and {} from a tokenizer of its own",
                    k + 1,
                    show_src(&self.texts[i].0),
                    show(&got),
                    show(&want[k])
                ));
            }
            slot.at += 1;
            slot.over = slot.at == want.len();
        }
        Ok(())
    }
    fn step(&mut self, op: (u8, u8, u8)) -> Result<(), String> {
        let i = op.1 as usize % self.texts.len();
        let texts = self.texts;
        match op.0 {
            1 => {
                if self.slots.len() < 8 {
                    self.slots.push(Slot { text: i, at: 0, over: false, tok: Puller::new(&texts[i].0) });
                }
                Ok(())
            }
            2 | 3 | 4 | 9 if self.slots.is_empty() => Ok(()),
            2 => {
                let s = op.1 as usize % self.slots.len();
                self.pull(s, 1 + op.2 as usize % 9)
            }
            3 => {
                let s = op.1 as usize % self.slots.len();
                let slot = &self.slots[s];
                if slot.over || self.slots.len() >= 8 {
                    return Ok(());
                }
                match slot.tok.copy() {
                    Ok(tok) => {
                        let c = Slot { text: slot.text, at: slot.at, over: false, tok };
                        self.slots.push(c);
                        Ok(())
                    }
                    Err(m) => Err(format!("copying a tokenizer over {} fails: {}", show_src(&texts[slot.text].0), m)),
                }
            }
            4 => {
                let s = op.1 as usize % self.slots.len();
                self.slots.remove(s);
                Ok(())
            }
            5 => {
                let n = 2 + op.2 as usize % 3;
                let all = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..n)
                        .map(|t| {
                            std::thread::Builder::new()
                                .stack_size(1 << 25)
                                .spawn_scoped(sc, move || {
                                    (0..texts.len())
                                        .map(|k| {
                                            let j = (k + t + i) % texts.len();
                                            answer(&texts[j].0).map(|a| (j, a))
                                        })
                                        .collect::<Result<Vec<_>, String>>()
                                })
                                .unwrap()
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the harness failed".into()))).collect::<Vec<_>>()
                });
                for r in all {
                    for (j, a) in r? {
                        self.check(j, a, "when other threads parse too")?;
                    }
                }
                Ok(())
            }
            6 => {
                let (pre, post) = [("x;", "y"), ("/*", "*/"), ("\u{E9}", "\u{2028}"), ("`${", "}`"), ("0", "1"), ("(", ")")][op.2 as usize % 6];
                let big = format!("{}{}{}", pre, texts[i].0, post);
                let a = answer(&big[pre.len()..pre.len() + texts[i].0.len()])?;
                self.check(i, a, "as part of a larger text")
            }
            7 => {
                let n = op.2 as usize;
                guard(|| parse_root::<Meddling, ()>(Meddling { src: &texts[i].0, left: n, then: &mut || panic!("cut off") })).ok();
                Ok(())
            }
            8 => {
                let j = op.2 as usize % texts.len();
                let n = (op.2 / 16) as usize;
                let inner: Rc<RefCell<Option<Result<(bool, Vec<STok>), String>>>> = Rc::new(RefCell::new(None));
                let outer = {
                    let inner = inner.clone();
                    let mut f = move || *inner.borrow_mut() = Some(answer(&texts[j].0));
                    match guard(|| parse_root::<Meddling, ()>(Meddling { src: &texts[i].0, left: n, then: &mut f })) {
                        Ok(()) => true,
                        Err(m) if internal_fault(&m) => return Err(format!("parsing {}: {}", show_src(&texts[i].0), m)),
                        Err(_) => false,
                    }
                };
                if let Some(a) = inner.borrow_mut().take() {
                    self.check(j, a?, "while another text is parsed")?;
                }
                if self.first[i].is_none() {
                    self.parse(i, "afterwards")?;
                }
                let f = self.first[i].as_ref().unwrap().0;
                if outer != f {
                    return Err(format!("{} is {}, and {} when another text is parsed meanwhile", show_src(&texts[i].0), word(f), word(outer)));
                }
                Ok(())
            }
            9 => {
                let s = op.1 as usize % self.slots.len();
                let mut r = Ok(());
                let w = std::panic::AssertUnwindSafe(|| self.pull(s, 1 + op.2 as usize % 9));
                // a tokenizer over a text that outlives the thread can be used there
                std::thread::scope(|sc| {
                    let f = Force(w);
                    r = sc.spawn(move || {
                        let mut f = f;
                        (f.0 .0)()
                    }).join().unwrap_or_else(|_| Err("the harness failed".into()));
                });
                r
            }
            _ => self.parse(i, "later on"),
        }
    }
}
struct Force<T>(T);
// the thread is joined before anything else happens
unsafe impl<T> Send for Force<T> {}

/// The built-in tokenizer, except that something happens before the n-th token.
struct Meddling<'c, 'f> {
    src: &'c str,
    left: usize,
    then: &'f mut dyn FnMut(),
}
struct MeddlingTok<'c, 'f> {
    inner: <&'c str as IntoTokenizer<'c>>::Item,
    left: usize,
    then: Option<&'f mut dyn FnMut()>,
    budget: usize,
}
impl<'c, 'f> Clone for MeddlingTok<'c, 'f> {
    fn clone(&self) -> Self {
        MeddlingTok { inner: self.inner.clone(), left: 0, then: None, budget: self.budget }
    }
}
impl<'c, 'f> std::fmt::Debug for MeddlingTok<'c, 'f> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("MeddlingTok")
    }
}
impl<'c, 'f> Tokenizer<'c> for MeddlingTok<'c, 'f> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        if self.budget == 0 {
            panic!("{}", BUDGET);
        }
        self.budget -= 1;
        if self.left == 0 {
            if let Some(f) = self.then.take() {
                f();
            }
        } else {
            self.left -= 1;
        }
        self.inner.next_token(h, (&mut *out.0, &mut *out.1));
    }
}
impl<'c, 'f> IntoTokenizer<'c> for Meddling<'c, 'f> {
    type Item = MeddlingTok<'c, 'f>;
    fn into_tokenizer(self) -> MeddlingTok<'c, 'f> {
        MeddlingTok { inner: self.src.into_tokenizer(), left: self.left, then: Some(self.then), budget: self.src.len() + 8 }
    }
}

pub fn eval_series(s: &Series) -> Result<(), String> {
    if s.texts.is_empty() {
        return Ok(());
    }
    let n = s.texts.len();
    let mut w = World { texts: &s.texts, first: vec![None; n], pulled: vec![None; n], slots: Vec::new() };
    for _ in 0..s.times.max(1) {
        for &op in &s.ops {
            w.step(op)?;
        }
    }
    // and once more, in the other order
    for i in (0..n).rev() {
        w.parse(i, "in the end")?;
        if let Some(p) = &w.pulled[i] {
            if *p != pull_all(&s.texts[i].0, i) {
                return Err(format!("the tokens of {} are others in the end", show_src(&s.texts[i].0)));
            }
        }
    }
    for k in 0..w.slots.len() {
        w.pull(k, usize::max_value())?;
    }
    Ok(())
}

/// Pull to the end or to the first refusal, keeping nothing.
pub fn drain(src: &str, salt: usize) {
    let mut p = Puller::new(src);
    for k in 0..src.len() + 2 {
        let h = hint(k, salt);
        match p.pull(h.0, h.1) {
            Ok(t) if t.kind != "eof" => {}
            _ => break,
        }
    }
}
