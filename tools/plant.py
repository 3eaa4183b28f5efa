#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/<id>/ from a table of planted bugs (tools/bugs.py), after
confirming in a scratch copy that each builds, passes the tests and is shown by its demonstration.
usage: plant.py [ID...]"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')
from bugs import BUGS
BASE = 'd28afff'
W = '/tmp/plant-work'
ENV = dict(os.environ, PATH='/root/.cargo/bin:/usr/local/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
def sh(cmd, cwd=W, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)

DEMO_SRC = r'''#!/bin/bash
# Runs the program on the texts beside this file: acc-* must be accepted, rej-* rejected as a
# syntax error. Run in the repository after a build.
here="$(cd "$(dirname "$0")" && pwd)"
bad=0
for f in "$here"/acc-* "$here"/rej-*; do
  [ -e "$f" ] || continue
  err="$(timeout 60 target/debug/jsparse "$f" 2>&1 >/dev/null)"; st=$?
  case "$(basename "$f")" in
    acc-*) [ $st -eq 0 ] || { echo "$f: rejected"; bad=1; } ;;
    rej-*) if [ $st -eq 0 ]; then echo "$f: accepted"; bad=1
           elif [ $st -ge 124 ] || grep -Eq "unreachable|overflow|out of (bounds|range)|char boundary|not implemented: internal" <<<"$err"; then echo "$f: $err"; bad=1; fi ;;
  esac
done
exit $bad
'''
DEMO_TOK = r'''#!/bin/bash
# Pulls the tokens of a text and compares text ranges, lines, columns and contents.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
rustc --edition 2018 -Awarnings --crate-name demo "$here/demo.rs" --extern jsparse=target/debug/libjsparse.rlib -L dependency=target/debug/deps -o "$d/demo" || exit 3
timeout 60 "$d/demo"
'''
TOK_RS = r'''use jsparse::{IntoTokenizer, Tokenizer};
// (text, hints: e = an expression may start here, t = inside a template substitution)
const TEXTS: &[(&str, &str)] = &[%s];
const WANT: &[&str] = &[%s];
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut got: Vec<String> = Vec::new();
    for (text, hints) in TEXTS {
        let text: &'static str = text;
        let hints: &'static str = hints;
        let r = std::panic::catch_unwind(move || {
            let mut out = Vec::new();
            let mut tok = text.into_tokenizer();
            for h in hints.chars() {
                let mut t = Default::default();
                let mut p = Default::default();
                let mut hint = Default::default();
                if false {
                    tok.next_token(&hint, (&mut t, &mut p));
                }
                hint = hint.expression(h == 'e').template(h == 't');
                tok.next_token(&hint, (&mut t, &mut p));
                out.push(format!("{}-{} {}:{} {}:{} {:?}", p.start.offset, p.end.offset, p.start.line, p.start.column, p.end.line, p.end.column, t));
            }
            out
        });
        match r {
            Ok(o) => got.extend(o),
            Err(_) => got.push("failure".to_string()),
        }
    }
    if std::env::args().nth(1).is_some() {
        for g in &got {
            println!("{:?}", g);
        }
        return;
    }
    for (i, g) in got.iter().enumerate() {
        if WANT.get(i) != Some(&&g[..]) {
            println!("got {}, wanted {:?}", g, WANT.get(i));
            std::process::exit(1);
        }
    }
    std::process::exit(if got.len() == WANT.len() { 0 } else { 1 });
}
'''
def rs(s):
    return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else '\\u{%x}' % ord(c) for c in s) + '"'

def base_lines(f):
    return set(subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + f], capture_output=True, text=True).stdout.splitlines())

def apply(b):
    for f, old, new in b['edits']:
        p = W + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit matches %d times: %r' % (s.count(old), old)
        open(p, 'w').write(s.replace(old, new))

def write_demo(b, d):
    os.makedirs(d, exist_ok=True)
    if 'acc' in b or 'rej' in b:
        for kind in ('acc', 'rej'):
            for i, t in enumerate(b.get(kind, [])):
                with open('%s/%s-%d.js' % (d, kind, i + 1), 'wb') as f: f.write(t if isinstance(t, bytes) else t.encode())
        open(d + '/demo.sh', 'w').write(DEMO_SRC)
    elif 'tok' in b:
        texts = ', '.join('(%s, %s)' % (rs(t), rs(h)) for t, h in b['tok'])
        open(d + '/demo.rs', 'w').write(TOK_RS % (texts, ''))
        r = sh('rustc --edition 2018 -Awarnings --crate-name demo %s/demo.rs --extern jsparse=target/debug/libjsparse.rlib -L dependency=target/debug/deps -o %s/demo && %s/demo print; rm -f %s/demo' % (d, d, d, d), cwd='/repo')
        want = ', '.join(rs(json.loads(l) if '\\u{' not in l and "\\'" not in l else eval_rust(l)) for l in r.stdout.splitlines())
        if not want: print(r.stdout, r.stderr[-800:])
        open(d + '/demo.rs', 'w').write(TOK_RS % (texts, want))
        open(d + '/demo.sh', 'w').write(DEMO_TOK)
    for n, t in b.get('files', {}).items():
        open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
def eval_rust(l):
    l = l[1:-1]
    return re.sub(r'\\(u\{([0-9a-f]+)\}|.)', lambda m: chr(int(m.group(2), 16)) if m.group(2) else {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(m.group(1), m.group(1)), l)

def main():
    todo = sys.argv[1:]
    if os.path.exists(W): shutil.rmtree(W)
    sh('cp -a /repo ' + W, cwd='/')
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for b in BUGS:
        if todo and b['id'] not in todo: continue
        d = ROOT + '/seeded/' + b['id']
        if not todo and os.path.exists(d + '/patch.diff'): continue
        sh('git checkout -q -- .')
        why = apply(b)
        if why: print(b['id'], 'BAD', why); continue
        diff = sh('git diff').stdout
        f = None; bad = []
        for l in diff.splitlines():
            if l.startswith('--- a/'): f = l[6:]; base = base_lines(f)
            elif l.startswith('-') and not l.startswith('---') and l[1:] not in base: bad.append(l)
        minus = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if bad or not minus: print(b['id'], 'NOT ORIGINAL', bad or 'only additions'); 
        r = sh('cargo build --offline && cargo test --workspace --offline --no-fail-fast 2>&1')
        m = re.findall(r'test result: (\w+)\. (\d+) passed; (\d+) failed', r.stdout)
        if not m or sum(int(x[1]) for x in m) < 12 or any(x[2] != '0' for x in m):
            print(b['id'], 'BAD build/tests', m, r.stdout[-600:] if m else r.stderr[-1500:]); continue
        shutil.rmtree(d, ignore_errors=True)
        write_demo(b, d)
        c = sh('bash %s/demo.sh' % d, cwd='/repo')
        p = sh('bash %s/demo.sh' % d, cwd=W)
        if c.returncode != 0 or p.returncode == 0:
            print(b['id'], 'BAD demo: clean %d patched %d' % (c.returncode, p.returncode), c.stdout[-500:], c.stderr[-500:]); shutil.rmtree(d); continue
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(b['id'], 'ok', (p.stdout + p.stderr).strip().splitlines()[:1])
    shutil.rmtree(W)
main()
