//! C19: an operator that only some contexts allow, at the bottom of nested contexts.
use crate::case::*;
use crate::engine::Gen;
use crate::tape::G;

#[derive(Clone, Copy)]
struct S {
    yld: bool,
    awt: bool,
    ret: bool,
    /// `yield`/`await` in a place where only an early error decides
    vague: bool,
    in_: bool,
    top: bool,
}

/// How a context changes what its hole allows.
#[derive(Clone, Copy)]
enum E {
    Keep,
    /// ordinary function
    Fun,
    Gen,
    Async,
    /// arrow body: no yield, no await
    Arrow,
    AsyncArrow,
    /// `in` allowed again
    In,
    /// `in` not allowed
    NoIn,
    /// parameters of an ordinary function
    Params,
    /// parameters of an arrow, generator or async function
    VagueParams,
}
use E::*;

/// Contexts whose hole (@) holds statements, in a statement position.
const STMT: [(&str, E); 50] = [
    ("function f() { @ }", Fun),
    ("function* f() { @ }", Gen),
    ("async function f() { @ }", Async),
    ("class c { m() { @ } }", Fun),
    ("class c { static m() { @ } }", Fun),
    ("class c { *m() { @ } }", Gen),
    ("class c { static *m() { @ } }", Gen),
    ("class c { async m() { @ } }", Async),
    ("class c { static async m() { @ } }", Async),
    ("class c { get m() { @ } }", Fun),
    ("class c { set m(v) { @ } }", Fun),
    ("class c { constructor() { @ } }", Fun),
    ("x = { m() { @ } };", Fun),
    ("x = { *m() { @ } };", Gen),
    ("x = { async m() { @ } };", Async),
    ("x = { get m() { @ } };", Fun),
    ("x = { set m(v) { @ } };", Fun),
    ("x = function () { @ };", Fun),
    ("x = function* () { @ };", Gen),
    ("x = async function () { @ };", Async),
    ("(function f() { @ });", Fun),
    ("(() => { @ });", Arrow),
    ("x = p => { @ };", Arrow),
    ("x = async () => { @ };", AsyncArrow),
    ("x = async p => { @ };", AsyncArrow),
    ("async (p) => { @ };", AsyncArrow),
    ("x = [function* () { @ }];", Gen),
    ("f(async function () { @ });", Async),
    ("x = `${function () { @ }}`;", Fun),
    ("{ @ }", Keep),
    ("if (a) { @ }", Keep),
    ("if (a) {} else { @ }", Keep),
    ("while (a) { @ }", Keep),
    ("do { @ } while (a);", Keep),
    ("for (;;) { @ }", Keep),
    ("for (let q of a) { @ }", Keep),
    ("for (x in a) { @ }", Keep),
    ("for (let q = 0; x; x) { @ }", Keep),
    ("switch (a) { case b: @ }", Keep),
    ("switch (a) { default: @\n case c: }", Keep),
    ("try { @ } finally {}", Keep),
    ("try {} catch (e) { @ }", Keep),
    ("try {} finally { @ }", Keep),
    ("l: { @ }", Keep),
    ("for (let x = function () { @ };;) ;", Fun),
    ("for (let x = function* () { @ };;) ;", Gen),
    ("for (let x = { async m() { @ } };;) ;", Async),
    ("for (let x = () => { @ };;) ;", Arrow),
    ("for (let x = class { m() { @ } };;) ;", Fun),
    ("export default function* () { @ }", Gen),
];

/// Contexts whose hole holds an assignment expression, in a statement position.
const HEAD: [(&str, E); 67] = [
    ("x = @;", In),
    ("var h1 = @;", In),
    ("let h1 = 1, h2 = @, h3 = 2;", In),
    ("const h1 = @;", In),
    ("(@);", In),
    ("throw @;", In),
    ("if (@) ;", In),
    ("while (@) ;", In),
    ("do ; while (@);", In),
    ("switch (@) {}", In),
    ("switch (a) { case @: }", In),
    ("for (;@;) ;", In),
    ("for (;;@) ;", In),
    ("for (x = @;;) ;", NoIn),
    ("for (x, y = @;;) ;", NoIn),
    ("for (var h9 = @;;) ;", NoIn),
    ("for (let x = @;;) ;", NoIn),
    ("for (let x = 1, y = @;;) ;", NoIn),
    ("for (const x = @;;) ;", NoIn),
    ("for (let {x} = @;;) ;", NoIn),
    ("for (var h8 = 1, h9 = @;;) ;", NoIn),
    ("for (var h8, h9 = @;;) ;", NoIn),
    ("for (var h8 = (a in b), {h9} = @;;) ;", NoIn),
    ("for (var [h8] = [a in b], h9 = @, h7;;) ;", NoIn),
    ("for (const x = 1, y = @;;) ;", NoIn),
    ("for (const [x] = a, [y] = @;;) ;", NoIn),
    ("for (let x, y = @;;) ;", NoIn),
    ("for (let x, [y] = @, z;;) ;", NoIn),
    ("for (var {h9} = @;;) ;", NoIn),
    ("for (var h8 = @, h9;;) ;", NoIn),
    ("for (let {x = @} = y;;) ;", In),
    ("for (let [x = @] = y;;) ;", In),
    ("for (let {[@]: x} = y;;) ;", In),
    ("for (var {h9 = @} of y) ;", In),
    ("for (let [x = @] in y) ;", In),
    ("for (x in @) ;", In),
    ("for (let x in a, @) ;", In),
    ("for (var h9 of @) ;", In),
    ("for (x[@] of y) ;", In),
    ("for (x[@] in y) ;", In),
    ("for (f(@).x of y) ;", In),
    ("for ([x[@]] of y) ;", In),
    ("for (let x = 0; x in y; x) x = @;", In),
    ("if (a) x = @; else x = @;", In),
    ("class c { [@]() {} }", In),
    ("class c extends (@) {}", In),
    ("class c extends f(@) { m() {} }", In),
    ("lh: x = @;", In),
    ("function f(x = @) {}", Params),
    ("class c { m(x, y = @) {} }", Params),
    ("x = { set m(y = @) {} };", Params),
    ("function f({x = @}) {}", Params),
    ("for (;;) x = @", In),
    ("for (let x = a, y = b; a in b; a in c) x = @;", In),
    // # stands for a complete expression with contexts of its own
    ("x = #, y = @;", In),
    ("let h1 = #, h2 = @;", In),
    ("for (x = #, y = @;;) ;", NoIn),
    ("for (let x = #, y = @;;) ;", NoIn),
    ("for (x = #; @;) ;", In),
    ("for (let x = #;;@) ;", In),
    ("class c { [#]() {} [@]() {} }", In),
    ("class c { m(x = #) {} [@]() {} }", In),
    ("function f(x = #, y = @) {}", Params),
    ("switch (#) { case #: case @: }", In),
    ("if (#, @) ;", In),
    ("for (x of @) [#];", In),
    ("for (let {x = #, y = @} = z;;) ;", In),
];

/// Contexts whose hole holds an assignment expression, in an expression position.
const EXPR: [(&str, E); 85] = [
    ("@", Keep),
    ("(@)", In),
    ("[@]", In),
    ("[a, ...@]", In),
    ("({a: @})", In),
    ("({...@})", In),
    ("({[@]: 1})", In),
    ("({[@]() {}})", In),
    ("f(@)", In),
    ("f(a, ...@)", In),
    ("new c(@)", In),
    ("a[@]", In),
    ("a[@].b[0]", In),
    ("`${@}`", In),
    ("a`${b}${@}`", In),
    ("a ? @ : b", In),
    ("a ? b : @", Keep),
    ("a = @", Keep),
    ("a += @", Keep),
    ("!(@)", In),
    ("b => @", Arrow),
    ("(b, c) => @", Arrow),
    ("async b => @", AsyncArrow),
    ("async () => @", AsyncArrow),
    ("(b = @) => b", VagueParams),
    ("({b = @}) => b", VagueParams),
    ("async (b = @) => b", VagueParams),
    ("function (b = @) {}", Params),
    ("function* (b = @) {}", VagueParams),
    ("async function (b = @) {}", VagueParams),
    ("({m(b = @) {}})", Params),
    ("class { [@]() {} }", In),
    ("class extends (@) { m() {} }", In),
    ("({a, b: c ? @ : d})", In),
    ("[[a], [@]]", In),
    ("(a, @)", In),
    ("(a, @, b)", In),
    ("f(() => 1, @)", In),
    ("f(function () { return 1; }, @)", In),
    ("f({m() {}, get n() { return 1; }}, @)", In),
    ("[#, @]", In),
    ("[@, #]", In),
    ("[...#, @]", In),
    ("f(#, @)", In),
    ("f(@, #)", In),
    ("(#, @)", In),
    ("(@, #)", In),
    ("({a: #, b: @})", In),
    ("({a: @, b: #})", In),
    ("({[#]: @})", In),
    ("({...#, a: @})", In),
    ("({m(b = #) {}, [@]() {}})", In),
    ("`${#}${@}`", In),
    ("`a${@}b${#}`", In),
    ("`${#}b${#}${@}c`", In),
    ("a`${#}${@}`", In),
    ("new c(#, @)", In),
    ("a ? # : @", Keep),
    ("a ? @ : #", In),
    ("(#)(@)", In),
    ("(#)[@]", In),
    ("class extends (#) { [@]() {} }", In),
    ("a[#, @]", In),
    // in no parentheses of their own
    ("c = {a: @}", In),
    ("c = {...@}", In),
    ("c = {a, ...@, b}", In),
    ("c = {[@]: 1}", In),
    ("c = {[@]() {}}", In),
    ("c = {get [@]() {}}", In),
    ("c = {async [@]() {}}", In),
    ("c = {*[@]() {}}", In),
    ("c = {m(b = @) {}}", Params),
    ("c = {set m(b = @) {}}", Params),
    ("c = {a: #, b: @}", In),
    ("c = {...#, a: @}", In),
    ("c = {m(b = #) {}, a: @}", In),
    ("c = {a: {b: [{c: @}]}}", In),
    ("c = class { static [@]() {} }", In),
    ("c = class { static async [@]() {} }", In),
    ("c = class { set [@](a) {} m() {} }", In),
    ("c = class extends a[@] {}", In),
    ("c = `${@}`", In),
    ("c = new (@)", In),
    ("c = new d[@](a)", In),
    ("c = d(...@, ...e)", In),
];

/// Complete things put beside the hole: what they allow must not leak.
const SIBLINGS: [&str; 18] = [
    "function s() {}",
    "function* s() { yield 1; }",
    "async function s() { await 1; }",
    "x = function* () { yield; };",
    "x = async () => { await 1; };",
    "x = async () => await 1;",
    "x = y => y;",
    "x = { *m() { yield a; }, async n() { await b; } };",
    "class s { *m() { yield a; } async n() { await b; } get o() { return 1; } }",
    "for (let x = a;;) { break; }",
    "for (x in y) ;",
    "for (let x of y) ;",
    "x = `a${b}c`;",
    "x = [a in b];",
    "if (a in b) ;",
    "for (let x = (a in b);;) break;",
    "x = (a, b) => { return 1; };",
    "for (let x = function () { return a in b; };;) break;",
];

/// Complete expressions put beside the hole.
const BESIDE: [&str; 20] = [
    "function () { return 1; }",
    "function* () { yield 1; }",
    "function* () { `${yield}${yield a}`; }",
    "async function () { await 1; }",
    "async () => await 1",
    "async () => { await 1; }",
    "async (q) => `${await q}${a in b}`",
    "() => 1",
    "b => { return a in b; }",
    "() => `${a in b}`",
    "class { *m() { yield a; } async n() { await b; } get o() { return 1; } }",
    "{ *m() { yield a; }, async n() { await b; }, set o(p) { return; } }",
    "`${a in b}`",
    "`${function () { return 1; }}${async function () { await 1; }}`",
    "`${function* () { yield `${yield}`; }}`",
    "(a in b)",
    "[a in b]",
    "a[b in c]",
    "f(a in b)",
    "(b = function* () { yield 1; }) => 1",
];
fn beside(g: &mut G, t: &str) -> String {
    let mut t = t.to_string();
    while t.contains('#') {
        t = t.replacen('#', g.pick(&BESIDE), 1);
    }
    t
}

fn apply(s: &mut S, e: E) {
    s.top = false;
    let f = |s: &mut S, y, a| {
        s.yld = y;
        s.awt = a;
        s.ret = true;
        s.in_ = true;
        s.vague = false;
    };
    match e {
        Keep => {}
        Fun => f(s, false, false),
        Gen => f(s, true, false),
        Async => f(s, false, true),
        Arrow => {
            // an expression body keeps the `in` restriction, a block body lifts it (caller)
            s.yld = false;
            s.awt = false;
            s.ret = true;
            s.vague = false;
        }
        AsyncArrow => {
            s.yld = false;
            s.awt = true;
            s.ret = true;
            s.vague = false;
        }
        In => s.in_ = true,
        NoIn => s.in_ = false,
        Params => {
            s.yld = false;
            s.awt = false;
            s.in_ = true;
            s.vague = false;
        }
        VagueParams => {
            s.in_ = true;
            s.vague = true;
        }
    }
}

/// Replaces every hole.
fn fill(t: &str, x: &str) -> String {
    t.replace('@', x)
}

pub fn c19(g: &mut G) -> Gen {
    let mut s = S { yld: false, awt: false, ret: false, vague: false, in_: true, top: true };
    let mut frames: Vec<String> = Vec::new();
    // now and then deeper than a small stack, or a word's bits
    let nst = if g.below(100) == 99 { 10 + g.below(80) } else { g.count(4) };
    for _ in 0..nst {
        let (t, e) = *g.pick(&STMT);
        if t.starts_with("export") && !s.top {
            continue;
        }
        apply(&mut s, e);
        s.in_ = true;
        let mut t = t.to_string();
        if g.pct(40) {
            let a = *g.pick(&SIBLINGS);
            t = t.replace('@', &format!("{} @", a));
        }
        if g.pct(30) {
            let a = *g.pick(&SIBLINGS);
            let a = a.replace(" s()", " s9()").replace("class s ", "class s9 ");
            t = t.replace('@', &format!("@\n{}", a));
        }
        frames.push(t);
    }
    if nst > 0 {
        s.top = false;
    }
    let nested = !frames.is_empty();
    let what = g.weighted(&[3, 3, 3, 2]);
    let names = ["await", "yield", "in", "return"];
    if what == 3 {
        let p = *g.pick(&["return;", "return a;", "return", "return\na;", "if (a) return; else b;", "return (a, b);"]);
        let mut body = p.to_string();
        if g.pct(30) {
            let a = *g.pick(&SIBLINGS);
            body = format!("{}\n{}", a.replace(" s()", " s8()").replace("class s ", "class s8 "), body);
        }
        for (i, f) in frames.iter().enumerate().rev() {
            body = fill(&f.replace("l: {", &format!("l{}: {{", i)), &body);
        }
        return finish(body, s.ret, nested, "return");
    }
    // down through expression contexts
    let mut exprs: Vec<String> = Vec::new();
    let (h, e) = *g.pick(&HEAD);
    apply(&mut s, e);
    let head = beside(g, h);
    let forin = h.starts_with("for");
    for _ in 0..if g.below(100) == 99 { 10 + g.below(80) } else { g.count(4) } {
        let (t, e) = *g.pick(&EXPR);
        apply(&mut s, e);
        exprs.push(beside(g, t));
    }
    if g.pct(25) && what != 2 {
        // below a loop head inside the expression
        let (t, e) = *g.pick(&STMT[17..32]);
        if let Fun | Gen | Async = e {
            if t.starts_with("x = ") {
                apply(&mut s, e);
                exprs.push(format!("{}{}{}", "(", fill(t.trim_start_matches("x = ").trim_end_matches(';'), "return @;"), ")"));
            }
        }
    }
    let (probe, ok) = match what {
        0 => {
            let p = *g.pick(&["await a", "await (a)", "await a.b()", "await await a", "await /r/", "await [a]", "!await a", "await a + b", "await -a"]);
            (p, s.awt)
        }
        1 => {
            let p = *g.pick(&["yield a", "yield", "yield* a", "yield [a]", "yield /r/", "yield yield a", "yield a ? b : c", "yield b => c", "yield (a)", "yield -a"]);
            (p, s.yld)
        }
        _ => {
            let p = *g.pick(&["a in b", "a.b in c", "a + b in c", "!a in b", "a in b in c", "a == b in c", "'a' in b && c", "a || b in c", "(a) in b"]);
            let (yld, awt) = (s.yld && !s.vague, s.awt && !s.vague);
            let p = match g.below(10) {
                0..=1 => *g.pick(&["x = a in b", "x += a in b", "x => a in b", "(x) => a in b", "async x => a in b", "async () => a in b", "a ? b : c in d", "x = y = a in b", "x => y => a in b", "x = a ? b : y => c in d"]),
                2..=3 if yld => *g.pick(&["yield a in b", "yield* a in b", "x = yield a in b", "x = yield* a in b", "yield yield a in b", "yield* yield a in b", "yield x = a in b", "a ? b : yield* c in d"]),
                2..=3 if awt => *g.pick(&["await a in b", "x = await a in b", "!await a in b", "await a in await b", "a + await b in c"]),
                _ => p,
            };
            (p, s.in_)
        }
    };
    if s.vague && what != 2 {
        return finish_plain("x;".into(), "undecided");
    }
    let mut body = probe.to_string();
    for f in exprs.iter().rev() {
        body = fill(f, &body);
    }
    body = fill(&head, &body);
    // what the head restricts is over once it ends
    if g.pct(30) {
        body.push_str(g.pick(&["\nx = a in b;", "\nif (a in b) ;", "\nx = [a in b];", "\nfor (a in b) ;", "\nfor (let y = (a in b);;) ;"]));
    }
    for (i, f) in frames.iter().enumerate().rev() {
        body = fill(&f.replace("l: {", &format!("l{}: {{", i)), &body);
    }
    let _ = forin;
    finish(body, ok, true, names[what])
}
fn finish(src: String, ok: bool, nontrivial: bool, what: &'static str) -> Gen {
    let classes = vec![what, if ok { "allowed" } else { "not allowed" }];
    let case = if ok { Case::Accept { src } } else { Case::Reject { src, why: format!("{} is not available here", what) } };
    Gen { case, nontrivial, classes }
}
fn finish_plain(src: String, what: &'static str) -> Gen {
    Gen { case: Case::Accept { src }, nontrivial: false, classes: vec![what] }
}
