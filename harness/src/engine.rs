//! Drives one property: worker processes generate and decide cases; the parent watches them,
//! merges their counts, writes the evidence file and reports.
use crate::case::{eval, Case};
use crate::json::J;
use crate::props;
use crate::sut;
use crate::tape::{hash_str, mix, shrink, G};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;

pub struct Gen {
    pub case: Case,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn case_seed(seed: u64, id: &str, shard: u64, i: u64) -> u64 {
    mix(seed ^ hash_str(id) ^ (shard << 48) ^ i.wrapping_mul(0x9E3779B97F4A7C15))
}
pub fn tier() -> &'static str {
    match std::env::var("VERIF_TIER") {
        Ok(s) if s == "thorough" => "thorough",
        _ => "quick",
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn case_count(id: &str) -> u64 {
    let (q, t) = props::counts(id);
    let n = if tier() == "thorough" { t } else { q };
    match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(f) => ((n as f64 * f) as u64).max(8),
        None => n,
    }
}

// ---- known findings -----------------------------------------------------------------------------

pub struct Finding {
    pub what: String,
    pub case: Case,
}
pub fn findings(id: &str) -> Vec<Finding> {
    let mut v = Vec::new();
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let pre = format!("finding: property={} ", id);
        if let Some(r) = l.strip_prefix(&pre[..]) {
            if let Some(p) = r.find(" case=") {
                if let Some(case) = J::parse(&r[p + 6..]).ok().as_ref().and_then(Case::from_json) {
                    v.push(Finding { what: r[..p].to_string(), case });
                }
            }
        }
    }
    v
}
pub fn regressions(id: &str) -> Vec<Case> {
    let mut v = Vec::new();
    let text = std::fs::read_to_string(root().join("regressions").join(format!("{}.jsonl", id))).unwrap_or_default();
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        match J::parse(l).ok().as_ref().and_then(Case::from_json) {
            Some(c) => v.push(c),
            None => panic!("bad regression line: {}", l),
        }
    }
    v
}

// ---- worker -------------------------------------------------------------------------------------

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

pub fn worker(id: &str, shard: u64, out: &str) {
    unsafe {
        setrlimit(9, &[3 << 30, 3 << 30]); // address space
        setrlimit(4, &[0, 0]); // no core files
    }
    sut::quiet_panics();
    let id = id.to_string();
    let out = out.to_string();
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || work(&id, shard, &out)).unwrap();
    let r = h.join();
    std::fs::remove_dir_all(scratch()).ok();
    r.expect("worker thread");
}

/// Replays a tape and reports whether it still fails, with the part of the tape it used.
fn still_fails(id: &str, known: &HashSet<u64>, t: &[u32]) -> Option<Vec<u32>> {
    let mut g = G::replay(t.to_vec());
    let gen = sut::guard(|| props::gen(id, &mut g)).ok()?;
    if known.contains(&gen.case.key()) {
        return None;
    }
    // what depends on the past of this process is no reproduction
    let r = if let Case::Series(_) = gen.case { eval_isolated(&gen.case) } else { eval(&gen.case) };
    match r {
        Err(_) => {
            let n = g.used();
            let mut t = t[..n].to_vec();
            while t.last() == Some(&0) {
                t.pop();
            }
            Some(t)
        }
        Ok(()) => None,
    }
}

fn work(id: &str, shard: u64, out: &str) {
    let total = case_count(id);
    let mine = total / SHARDS + if shard < total % SHARDS { 1 } else { 0 };
    let sd = seed();
    let progress = std::fs::File::create(format!("{}.prog", out)).unwrap();
    let known: HashSet<u64> = findings(id).iter().map(|f| f.case.key()).collect();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<J> = Vec::new();
    let mut done = 0u64;
    let mut known_hits = 0u64;
    let mut violation: Option<(Case, String, u64)> = None;
    let limit = Duration::from_secs(if tier() == "thorough" { 6 * 3600 } else { 600 });
    let t0 = Instant::now();
    for i in 0..mine {
        progress.write_at(&(i + 1).to_le_bytes(), 0).unwrap();
        if i % 64 == 0 && t0.elapsed() > limit {
            break;
        }
        let mut g = G::random(case_seed(sd, id, shard, i));
        let gen = props::gen(id, &mut g);
        done += 1;
        for c in &gen.classes {
            *classes.entry(c).or_insert(0) += 1;
        }
        let key = gen.case.key();
        if gen.nontrivial {
            let new = seen.insert(key);
            if new && samples.len() < 6 && (i % 7 == 0 || mine < 50) {
                samples.push(gen.case.json());
            }
        }
        if let Err(m) = eval(&gen.case) {
            if known.contains(&key) {
                known_hits += 1;
                continue;
            }
            // keep the unshrunk case in case shrinking itself crashes
            write_violation(out, &gen.case, &m, i);
            if let Case::Series(s) = &gen.case {
                if eval_isolated(&gen.case).is_ok() {
                    // it took what this process did before: do it as often in one history
                    let mut s = s.clone();
                    for k in [4, 30, 300, 3_000, 30_000] {
                        s.times = k;
                        if let Err(m) = eval_isolated(&Case::Series(s.clone())) {
                            write_violation(out, &Case::Series(s.clone()), &m, i);
                            violation = Some((Case::Series(s), m, i));
                            break;
                        }
                    }
                    if violation.is_none() {
                        violation = Some((gen.case.clone(), m, i));
                    }
                    break;
                }
            }
            let tape = g.tape.clone();
            let small = shrink(tape, 4000, Instant::now() + Duration::from_secs(60), |t| still_fails(id, &known, t));
            let mut g2 = G::replay(small);
            let gen2 = props::gen(id, &mut g2);
            let (c, m) = match eval(&gen2.case) {
                Err(m) => (gen2.case, m),
                Ok(()) => (gen.case, m),
            };
            write_violation(out, &c, &m, i);
            violation = Some((c, m, i));
            break;
        }
    }
    let mut f = std::fs::File::create(format!("{}.keys", out)).unwrap();
    let mut buf = Vec::with_capacity(seen.len() * 8);
    for k in &seen {
        buf.extend(k.to_le_bytes());
    }
    f.write_all(&buf).unwrap();
    let j = J::obj(vec![
        ("done", J::u(done as usize)),
        ("known_hits", J::u(known_hits as usize)),
        ("classes", J::Obj(classes.iter().map(|(k, v)| (k.to_string(), J::u(*v as usize))).collect())),
        ("samples", J::Arr(samples)),
        ("violated", J::Bool(violation.is_some())),
    ]);
    std::fs::write(format!("{}.json", out), j.show()).unwrap();
}
fn write_violation(out: &str, c: &Case, m: &str, i: u64) {
    let j = J::obj(vec![("case", c.json()), ("message", J::s(m)), ("index", J::u(i as usize))]);
    std::fs::write(format!("{}.viol", out), j.show()).unwrap();
}

// ---- parent -------------------------------------------------------------------------------------

struct Running {
    child: Child,
    out: String,
    shard: u64,
    last: u64,
    cpu_at: f64,
    done: bool,
}
fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = r.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}
fn read_progress(out: &str) -> u64 {
    let b = std::fs::read(format!("{}.prog", out)).unwrap_or_default();
    if b.len() >= 8 {
        u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
    } else {
        0
    }
}

pub const HANG_CPU: f64 = 25.0;

/// Decides one case in its own process, so that an abort or a hang is an answer too.
pub fn eval_isolated(case: &Case) -> Result<(), String> {
    let dir = scratch();
    let f = dir.join("one.json");
    std::fs::write(&f, J::obj(vec![("case", case.json())]).show()).unwrap();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["eval-one", f.to_str().unwrap()])
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            let mut e = String::new();
            use std::io::Read;
            child.stderr.take().unwrap().read_to_string(&mut e).ok();
            return match st.code() {
                Some(0) => Ok(()),
                Some(1) => Err(e.trim().to_string()),
                Some(c) => Err(format!("the process deciding it exited with status {}: {}", c, e.trim())),
                None => Err(format!("the process deciding it was killed by a signal ({}): {}", st, e.trim())),
            };
        }
        if cpu_seconds(child.id()) > HANG_CPU {
            child.kill().ok();
            child.wait().ok();
            return Err(format!("does not terminate: {} s of CPU time used", HANG_CPU));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}
pub fn eval_one(file: &str) -> i32 {
    unsafe {
        setrlimit(9, &[3 << 30, 3 << 30]);
        setrlimit(4, &[0, 0]);
    }
    sut::quiet_panics();
    let j = J::parse(&std::fs::read_to_string(file).expect("case file")).expect("case json");
    let case = Case::from_json(j.get("case").unwrap_or(&j)).expect("case");
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || eval(&case)).unwrap();
    match h.join() {
        Ok(Ok(())) => 0,
        Ok(Err(m)) => {
            eprintln!("{}", m);
            1
        }
        Err(_) => {
            eprintln!("harness failure");
            3
        }
    }
}

pub fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("jsparse-verif-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn write_replay(id: &str, case: &Case, msg: &str) -> PathBuf {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{}-{:016x}.json", id, case.key()));
    let j = J::obj(vec![("property", J::s(id)), ("message", J::s(msg)), ("case", case.json())]);
    std::fs::write(&p, j.show() + "\n").unwrap();
    p
}

pub fn run(id: &str) -> i32 {
    let t0 = Instant::now();
    let dir = scratch();
    let mut violations: Vec<(Case, String)> = Vec::new();
    let mut regress = 0u64;

    // listed findings: still there?
    for f in findings(id) {
        if eval_isolated(&f.case).is_err() {
            println!("KNOWN-FINDING: property={} {}", id, f.what);
        }
    }
    // regression cases of repaired defects
    for c in regressions(id) {
        regress += 1;
        if let Err(m) = eval_isolated_fast(&c) {
            violations.push((c, m));
            break;
        }
    }

    let mut evaluations = regress;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = Vec::new();
    let mut failed_machinery: Option<String> = None;
    let mut known_hits = 0u64;

    if violations.is_empty() {
        let mut run: Vec<Running> = Vec::new();
        for shard in 0..SHARDS {
            let out = dir.join(format!("w{}", shard)).to_str().unwrap().to_string();
            let child = Command::new(std::env::current_exe().unwrap())
                .args(["worker", id, &shard.to_string(), &out])
                .stdout(Stdio::null())
                .stderr(std::fs::File::create(format!("{}.err", out)).unwrap())
                .spawn()
                .unwrap();
            run.push(Running { child, out, shard, last: u64::max_value(), cpu_at: 0.0, done: false });
        }
        let mut crashed: Vec<(u64, u64, String)> = Vec::new();
        loop {
            let mut alive = false;
            let mut stop = false;
            for r in run.iter_mut().filter(|r| !r.done) {
                match r.child.try_wait().unwrap() {
                    Some(st) => {
                        r.done = true;
                        if !st.success() || !Path::new(&format!("{}.json", r.out)).exists() {
                            let e = std::fs::read_to_string(format!("{}.err", r.out)).unwrap_or_default();
                            crashed.push((r.shard, read_progress(&r.out), format!("worker ended with {}: {}", st, e.trim())));
                            stop = true;
                        } else if Path::new(&format!("{}.viol", r.out)).exists() {
                            stop = true;
                        }
                    }
                    None => {
                        alive = true;
                        let p = read_progress(&r.out);
                        let cpu = cpu_seconds(r.child.id());
                        let shrinking = Path::new(&format!("{}.viol", r.out)).exists();
                        if p != r.last || shrinking {
                            r.last = p;
                            r.cpu_at = cpu;
                        } else if p > 0 && cpu - r.cpu_at > HANG_CPU {
                            r.child.kill().ok();
                            r.child.wait().ok();
                            r.done = true;
                            crashed.push((r.shard, p, format!("does not terminate: {} s of CPU time used", HANG_CPU)));
                            stop = true;
                        }
                    }
                }
            }
            if stop {
                // let workers that already found something finish shrinking
                for r in run.iter_mut().filter(|r| !r.done) {
                    if !Path::new(&format!("{}.viol", r.out)).exists() {
                        r.child.kill().ok();
                        r.child.wait().ok();
                        r.done = true;
                    }
                }
            }
            if !alive {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        for r in &run {
            if let Ok(s) = std::fs::read_to_string(format!("{}.json", r.out)) {
                let j = J::parse(&s).unwrap();
                evaluations += j.get("done").and_then(|x| x.num()).unwrap_or(0.0) as u64;
                known_hits += j.get("known_hits").and_then(|x| x.num()).unwrap_or(0.0) as u64;
                if let Some(J::Obj(v)) = j.get("classes") {
                    for (k, n) in v {
                        *classes.entry(k.clone()).or_insert(0) += n.num().unwrap_or(0.0) as u64;
                    }
                }
                if samples.len() < 12 {
                    samples.extend(j.get("samples").and_then(|x| x.arr()).unwrap_or(&[]).iter().take(2).cloned());
                }
                let b = std::fs::read(format!("{}.keys", r.out)).unwrap_or_default();
                for c in b.chunks_exact(8) {
                    keys.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
                }
            }
        }
        let mut found: Vec<(usize, Case, String)> = Vec::new();
        for r in &run {
            if let Ok(s) = std::fs::read_to_string(format!("{}.viol", r.out)) {
                if let Ok(j) = J::parse(&s) {
                    if let Some(c) = j.get("case").and_then(Case::from_json) {
                        found.push((j.show().len(), c, j.get("message").and_then(|m| m.str()).unwrap_or("").to_string()));
                    }
                }
            }
        }
        found.sort_by_key(|f| f.0);
        for (_, c, m) in found {
            violations.push((c, m));
        }
        if violations.is_empty() {
            for (shard, i, m) in crashed {
                if i == 0 {
                    failed_machinery = Some(m);
                    continue;
                }
                let mut g = G::random(case_seed(seed(), id, shard, i - 1));
                let gen = props::gen(id, &mut g);
                match eval_isolated(&gen.case) {
                    Err(m2) => {
                        let case = shrink_isolated(id, g.tape.clone(), gen.case, &m2);
                        violations.push((case, m2));
                        break;
                    }
                    Ok(()) => failed_machinery = Some(format!("{} (case not reproducible alone)", m)),
                }
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();

    let wall = t0.elapsed().as_secs_f64();
    let ev = J::obj(vec![
        ("property", J::s(id)),
        ("tier", J::s(tier())),
        ("seed", J::u(seed() as usize)),
        ("level", J::s("exploration")),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::u(evaluations as usize)),
                ("distinct_nontrivial", J::u(keys.len())),
                ("rule", J::s(props::rule(id))),
                ("regression_cases", J::u(regress as usize)),
                ("known_finding_hits", J::u(known_hits as usize)),
                ("classes", J::Obj(classes.into_iter().map(|(k, v)| (k, J::u(v as usize))).collect())),
                ("samples", J::Arr(samples.into_iter().take(12).collect())),
            ]),
        ),
        ("assumptions", J::Arr(props::assumptions(id).iter().map(|s| J::s(*s)).collect())),
        ("wall_s", J::n((wall * 100.0).round() / 100.0)),
        ("violations", J::u(violations.len())),
    ]);
    let evdir = root().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(evdir.join(format!("{}.json", id)), ev.show() + "\n").unwrap();

    if let Some((c, m)) = violations.first() {
        let p = write_replay(id, c, m);
        println!("{}", m);
        println!("VIOLATION property={} replay={}", id, p.display());
        return 1;
    }
    if let Some(m) = failed_machinery {
        println!("check {} could not finish: {}", id, m);
        return 2;
    }
    println!("{} held: {} cases, {} distinct non-trivial, {:.1} s", id, evaluations, keys.len(), wall);
    0
}
/// In-process unless it crashes the process; regressions are many and cheap.
fn eval_isolated_fast(c: &Case) -> Result<(), String> {
    eval_isolated(c)
}
fn shrink_isolated(id: &str, tape: Vec<u32>, case: Case, _m: &str) -> Case {
    let t0 = Instant::now();
    let small = shrink(tape, 150, t0 + Duration::from_secs(40), |t| {
        let mut g = G::replay(t.to_vec());
        let gen = sut::guard(|| props::gen(id, &mut g)).ok()?;
        if eval_isolated(&gen.case).is_err() {
            Some(t[..g.used()].to_vec())
        } else {
            None
        }
    });
    let mut g = G::replay(small);
    match sut::guard(|| props::gen(id, &mut g)) {
        Ok(gen) if eval_isolated(&gen.case).is_err() => gen.case,
        _ => case,
    }
}

pub fn replay(file: &str) -> i32 {
    let j = J::parse(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let case = Case::from_json(j.get("case").unwrap_or(&j)).expect("case");
    let id = j.get("property").and_then(|p| p.str()).unwrap_or("?").to_string();
    match eval_isolated(&case) {
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        Ok(()) => {
            println!("holds");
            0
        }
    }
}
