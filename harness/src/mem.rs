//! C26: heap memory, counted by thread.
use crate::json::J;
use crate::sut::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + n));
            let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Used {
    /// Above what was in use before, at the highest point.
    pub peak: i64,
    /// Everything asked for, given back or not.
    pub total: i64,
    /// Still in use afterwards.
    pub kept: i64,
}
pub fn measure(f: impl FnOnce()) -> Used {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    let total = TOTAL.with(|t| t.get());
    f();
    Used { peak: PEAK.with(|p| p.get()) - live, total: TOTAL.with(|t| t.get()) - total, kept: LIVE.with(|l| l.get()) - live }
}

/// Bytes in use at once, and asked for in all, per byte of text; and for a text of any length.
/// The code needs less than a fortieth of either.
const PEAK_PER_BYTE: i64 = 1_000;
const TOTAL_PER_BYTE: i64 = 8_000;
const FIXED: i64 = 1 << 20;
/// How much more of either than eight times as much eight times the repetitions may take.
const GROWTH: i64 = 3;
const SLACK: i64 = 1 << 17;
/// Over all repetitions, so that not even one byte each may stay.
const KEPT: i64 = 31;
const TIMES: usize = 32;

#[derive(Clone, Debug)]
pub struct Memory {
    /// Pieces of the text and how often each is there.
    pub parts: Vec<(String, usize)>,
    /// Each repetition has a name of its own at the end.
    pub fresh: bool,
    /// Pull the tokens rather than parse; with this salt for the hints.
    pub pull: Option<usize>,
}
impl Memory {
    pub fn text(&self) -> String {
        self.parts.iter().map(|p| p.0.repeat(p.1)).collect()
    }
    pub fn json(&self) -> J {
        J::obj(vec![
            ("kind", J::s("memory")),
            ("parts", J::Arr(self.parts.iter().map(|p| J::Arr(vec![J::s(p.0.clone()), J::u(p.1)])).collect())),
            ("fresh", J::Bool(self.fresh)),
            ("pull", self.pull.map_or(J::Null, J::u)),
        ])
    }
    pub fn from_json(j: &J) -> Option<Memory> {
        Some(Memory {
            parts: j
                .get("parts")?
                .arr()?
                .iter()
                .map(|p| {
                    let a = p.arr()?;
                    Some((a[0].str()?.to_string(), a[1].num()? as usize))
                })
                .collect::<Option<Vec<_>>>()?,
            fresh: j.get("fresh")?.bool()?,
            pull: j.get("pull").and_then(|x| x.num()).map(|x| x as usize),
        })
    }
}

pub fn once(m: &Memory, src: &str) -> Used {
    match m.pull {
        None => measure(|| {
            parse(src);
        }),
        Some(salt) => measure(|| crate::series::drain(src, salt)),
    }
}

pub fn eval_memory(m: &Memory) -> Result<(), String> {
    let src = m.text();
    let len = src.len() as i64;
    let what = if m.pull.is_some() { "tokenizing" } else { "parsing" };
    once(m, "a");
    let u = once(m, &src);
    if u.peak > FIXED + PEAK_PER_BYTE * len {
        return Err(format!("{} {} ({} bytes) uses {} bytes of memory at once", what, show_src_(&src), len, u.peak));
    }
    if u.total > FIXED + TOTAL_PER_BYTE * len {
        return Err(format!("{} {} ({} bytes) asks for {} bytes of memory in all", what, show_src_(&src), len, u.total));
    }
    // Against a text with an eighth of the repetitions: as much for each byte, give or take.
    let most = m.parts.iter().map(|p| p.1).max().unwrap_or(0);
    if most >= 64 {
        let less = Memory { parts: m.parts.iter().map(|p| (p.0.clone(), (p.1 + 7) / 8)).collect(), ..m.clone() };
        let v = once(m, &less.text());
        for (a, b, name) in [(u.peak, v.peak, "uses at once"), (u.total, v.total, "asks for")] {
            if a > SLACK + GROWTH * 8 * b {
                return Err(format!(
                    "{} {} ({} bytes) {} {} bytes of memory, an eighth of the repetitions {}: more than in proportion",
                    what,
                    show_src_(&src),
                    len,
                    name,
                    a,
                    b
                ));
            }
        }
    }
    let times = if len > 20_000 { 4 } else { TIMES };
    let texts: Vec<String> = (0..times).map(|k| if m.fresh { format!("{}\nname{:04}", src, k) } else { src.clone() }).collect();
    // What is kept the first few times may be there for good.
    for t in texts.iter().take(3) {
        once(m, t);
    }
    let mut kept = 0;
    for t in texts.iter().skip(if m.fresh { 3 } else { 0 }) {
        kept += once(m, t).kept;
    }
    if kept > KEPT {
        return Err(format!("{} {} ({} bytes) {} times keeps {} bytes of memory", what, show_src_(&src), len, texts.len(), kept));
    }
    Ok(())
}
fn show_src_(s: &str) -> String {
    crate::case::show_src(s)
}
