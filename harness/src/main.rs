mod case;
mod cli;
mod ctx;
mod embed;
mod engine;
mod js;
mod json;
mod lexgen;
mod hints;
mod mem;
mod props;
mod refparse;
mod series;
mod sut;
mod tape;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| &s[..]).unwrap_or("");
    let code = match s(1) {
        "run" => engine::run(s(2)),
        "worker" => {
            engine::worker(s(2), s(3).parse().unwrap(), s(4));
            0
        }
        "eval-one" => engine::eval_one(s(2)),
        "replay" => engine::replay(s(2)),
        "dump" => {
            // generated cases as JSON lines, for looking at
            sut::quiet_panics();
            let n: u64 = s(3).parse().unwrap_or(10);
            for i in 0..n {
                let mut g = tape::G::random(tape::mix(engine::seed() ^ i.wrapping_mul(0x9E37) ^ tape::hash_str(s(2))));
                let gen = props::gen(s(2), &mut g);
                println!("{}", gen.case.json().show());
            }
            0
        }
        "refdump" => {
            // development aid: well-formed cases the recogniser wrongly rejects
            let n: u64 = s(3).parse().unwrap_or(10);
            for i in 0..n {
                let mut g = tape::G::random(tape::mix(engine::seed() ^ i.wrapping_mul(0x9E37) ^ tape::hash_str(s(2))));
                if let case::Case::Accept { src } | case::Case::Stream { src, .. } = props::gen(s(2), &mut g).case {
                    if refparse::check(&src) != refparse::Verdict::Maybe {
                        println!("{:?} {:?}", refparse::check(&src), src);
                    }
                }
            }
            0
        }
        "ref" => {
            let src = std::fs::read_to_string(s(2)).unwrap();
            println!("{:?}", refparse::check(&src));
            0
        }
        "corpus" => {
            // development aid: lines "A path" or "R path"; files on which parser and recogniser disagree
            sut::quiet_panics();
            let list = std::fs::read_to_string(s(2)).unwrap();
            let h = std::thread::Builder::new().stack_size(1 << 31).spawn(move || {
                for l in list.lines() {
                    let src = match std::fs::read_to_string(&l[2..]) {
                        Ok(s) => s,
                        Err(_) => continue,
                    };
                    let o = sut::parse(&src);
                    let r = refparse::check(&src) == refparse::Verdict::Maybe;
                    if o.ok() != l.starts_with('A') || r != l.starts_with('A') {
                        println!("{} {} ref {} {}", &l[..1], o.show(), r, &l[2..]);
                    }
                }
            }).unwrap();
            h.join().unwrap();
            0
        }
        "list" => {
            for id in props::IDS {
                println!("{}", id);
            }
            0
        }
        "viable" => {
            // development aid: NUL-separated texts in; accepted, viable (refused at its end only) or dead, for
            // jsparse and the recogniser
            use std::io::{Read, Write};
            sut::quiet_panics();
            let mut t = String::new();
            std::io::stdin().read_to_string(&mut t).unwrap();
            let mut out = Vec::new();
            let by_ref = s(2) == "ref";
            let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
                for x in t.split('\0') {
                    if by_ref {
                        out.push(if refparse::check(x) == refparse::Verdict::Reject(x.len()) { b'V' } else if refparse::check(x) == refparse::Verdict::Maybe { b'A' } else { b'D' });
                        continue;
                    }
                    let (o, log, _) = sut::parse_recorded_full(x);
                    out.push(if o.ok() {
                        b'A'
                    } else if log.last().map_or(true, |t| t.kind == "eof") {
                        b'V'
                    } else {
                        b'D'
                    });
                }
                out
            });
            let out = h.unwrap().join().unwrap();
            std::io::stderr().write_all(&out).unwrap();
            0
        }
        "survey" => {
            // development aid: many failures of one property, shrunk, one per line
            sut::quiet_panics();
            let id = s(2).to_string();
            let n: u64 = s(3).parse().unwrap_or(1000);
            let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || survey(&id, n)).unwrap();
            h.join().unwrap();
            0
        }
        _ => {
            eprintln!("usage: harness run ID | replay FILE | dump ID N");
            2
        }
    };
    std::process::exit(code);
}

fn survey(id: &str, n: u64) {
    use std::time::{Duration, Instant};
    let mut seen = std::collections::HashSet::new();
    let mut fails = 0;
    for i in 0..n {
        let mut g = tape::G::random(tape::mix(engine::seed() ^ i.wrapping_mul(0x9E3779) ^ tape::hash_str(id)));
        let gen = props::gen(id, &mut g);
        if case::eval(&gen.case).is_err() {
            fails += 1;
            if fails > 60 {
                continue;
            }
            let small = tape::shrink(g.tape.clone(), 1500, Instant::now() + Duration::from_secs(5), |t| {
                let mut g = tape::G::replay(t.to_vec());
                let gen = sut::guard(|| props::gen(id, &mut g)).ok()?;
                case::eval(&gen.case).err().map(|_| t[..g.used()].to_vec())
            });
            let mut g = tape::G::replay(small);
            let gen = props::gen(id, &mut g);
            if let Err(m) = case::eval(&gen.case) {
                let m: String = m.chars().take(260).collect();
                if seen.insert(m.clone()) {
                    eprintln!("{}", m);
                }
            }
        }
    }
    eprintln!("{} of {} fail", fails, n);
}
