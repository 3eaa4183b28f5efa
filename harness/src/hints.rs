//! C27: what a hint may decide.
use crate::case::show_src;
use crate::json::J;
use crate::sut::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Hints {
    pub src: String,
    /// Which way to take where the ways part; one walk for each.
    pub walks: Vec<usize>,
}
impl Hints {
    pub fn json(&self) -> J {
        J::obj(vec![
            ("kind", J::s("hints")),
            ("src", J::s(self.src.clone())),
            ("walks", J::Arr(self.walks.iter().map(|w| J::u(*w)).collect())),
        ])
    }
    pub fn from_json(j: &J) -> Option<Hints> {
        Some(Hints {
            src: j.get("src")?.str()?.to_string(),
            walks: j.get("walks")?.arr()?.iter().map(|x| x.num().unwrap_or(0.0) as usize).collect(),
        })
    }
}

/// All hints: expression, template, strict; and what is in the slots the token goes to, 9 for the
/// token before.
const WAYS: [(bool, bool, bool, u8); 7] = [
    (false, false, false, 0),
    (true, false, false, 0),
    (false, true, false, 1),
    (true, true, false, 2),
    (false, false, true, 3),
    (true, true, true, 4),
    (true, false, true, 9),
];
/// What a step yields: a token, or `None` where it is refused. Which message it is refused with is left open.
type Step = Option<STok>;

fn blank(c: char) -> bool {
    matches!(c, '\t' | '\x0b' | '\x0c' | ' ' | '\u{a0}' | '\u{feff}')
}
fn show(s: &Step) -> String {
    match s {
        None => "a refusal".into(),
        Some(t) => format!("{:?}", t),
    }
}

pub fn eval_hints(h: &Hints) -> Result<(), String> {
    let src = &h.src[..];
    // By where a token ended: what comes next, for each hint.
    let mut known: HashMap<usize, (Vec<Step>, usize)> = HashMap::new();
    for (w, salt) in h.walks.iter().enumerate() {
        let mut p = Puller::new(src);
        let mut at = 0;
        // the slots the token before went to
        let mut carried = slots(0);
        for k in 0..src.len() + 2 {
            let mut next: Vec<Step> = Vec::new();
            let mut after: Vec<Puller> = Vec::new();
            let mut held = Vec::new();
            for way in WAYS.iter() {
                let mut q = p.copy().map_err(|m| format!("copying the tokenizer of {}: {}", show_src(src), m))?;
                let mut s = if way.3 == 9 { std::mem::replace(&mut carried, slots(0)) } else { slots(way.3) };
                let r = q.pull_over(way.0, way.1, way.2, &mut s);
                held.push(s);
                match r {
                    Ok(t) => next.push(Some(t)),
                    Err(m) if internal_fault(&m) => return Err(format!("tokenizing {} from byte {}: {}", show_src(src), at, m)),
                    Err(_) => next.push(None),
                }
                after.push(q);
            }
            let rest = match src.get(at..) {
                Some(r) => r.trim_start_matches(blank),
                None => return Err(format!("{}: a token ends at byte {}", show_src(src), at)),
            };
            let slash = rest.starts_with('/') && !rest.starts_with("//") && !rest.starts_with("/*");
            let brace = rest.starts_with('}');
            for (i, a) in WAYS.iter().enumerate() {
                for (j, b) in WAYS.iter().enumerate().take(i) {
                    let alike = !(slash && a.0 != b.0) && !(brace && a.1 != b.1);
                    if alike && next[i] != next[j] {
                        return Err(format!(
                            "{} from byte {}: {} with (expression {}, template {}, strict {}, slots {}), {} with ({}, {}, {}, {})",
                            show_src(src),
                            at,
                            show(&next[i]),
                            a.0,
                            a.1,
                            a.2,
                            a.3,
                            show(&next[j]),
                            b.0,
                            b.1,
                            b.2,
                            b.3
                        ));
                    }
                }
                if let Some(t) = &next[i] {
                    let fits = if slash {
                        if a.0 { t.kind == "re" } else { t.kind == "punct" && (t.a == "/" || t.a == "/=") }
                    } else if brace {
                        if a.1 { t.kind == "tpl" && (t.b == "middle" || t.b == "tail") } else { t.kind == "punct" && t.a == "}" }
                    } else {
                        t.kind != "re" && !(t.kind == "tpl" && (t.b == "middle" || t.b == "tail"))
                    };
                    if !fits {
                        return Err(format!(
                            "{} from byte {}: {} with expression {}, template {}",
                            show_src(src),
                            at,
                            show(&next[i]),
                            a.0,
                            a.1
                        ));
                    }
                } else if (slash && !a.0) || (brace && !a.1) {
                    return Err(format!("{} from byte {}: refused with expression {}, template {}", show_src(src), at, a.0, a.1));
                }
            }
            // again, into slots that hold what another hint gave at this very place
            for (i, a) in WAYS.iter().enumerate().take(4) {
                let j = if slash || brace { (i + 1 + salt % 3) % 4 } else { (i + salt) % 4 };
                if next[i].is_none() && next[j].is_none() {
                    continue;
                }
                let mut q = p.copy().map_err(|m| format!("copying the tokenizer of {}: {}", show_src(src), m))?;
                let again = q.pull_over(a.0, a.1, a.2, &mut held[j]).ok();
                if again != next[i] {
                    return Err(format!(
                        "{} from byte {}: {} with expression {}, template {}, but {} into slots that hold {}",
                        show_src(src),
                        at,
                        show(&next[i]),
                        a.0,
                        a.1,
                        show(&again),
                        show(&next[j])
                    ));
                }
                if !(slash || brace) {
                    break;
                }
            }
            match known.get(&at) {
                Some((seen, by)) if *seen != next => {
                    let i = (0..next.len()).find(|i| seen[*i] != next[*i]).unwrap_or(0);
                    return Err(format!(
                        "{} from byte {}: {} after the hints of walk {}, {} after those of walk {}",
                        show_src(src),
                        at,
                        show(&seen[i]),
                        by,
                        show(&next[i]),
                        w
                    ));
                }
                Some(_) => {}
                None => {
                    known.insert(at, (next.clone(), w));
                }
            }
            // go on with one of those that were not refused
            let n = WAYS.len();
            let first = (crate::tape::mix((k * 31 + salt) as u64) % n as u64) as usize;
            let take = match (0..n).map(|i| (first + i) % n).find(|i| next[*i].is_some()) {
                Some(i) => i,
                None => break,
            };
            let t = next[take].as_ref().unwrap();
            if t.kind == "eof" {
                break;
            }
            at = t.end.0;
            p = after.swap_remove(take);
            carried = held.swap_remove(take);
        }
    }
    Ok(())
}
