//! Grammar-directed generator of well-formed ES2018 modules as token lists.
use crate::lexgen::*;
use crate::tape::G;

#[derive(Clone, Copy, Debug)]
pub struct Cx {
    pub in_: bool,
    pub yld: bool,
    pub awt: bool,
    /// inside a function: return, new.target
    pub fun: bool,
    pub sup_prop: bool,
    pub sup_call: bool,
    pub brk: bool,
    pub cont: bool,
}
pub const TOP: Cx = Cx { in_: true, yld: false, awt: false, fun: false, sup_prop: false, sup_call: false, brk: false, cont: false };

// precedence levels
pub const COMMA: u8 = 0;
pub const ASSIGN: u8 = 1;
pub const COND: u8 = 2;
// 3..=12: binary operators || && | ^ & == < << + *
pub const EXP: u8 = 13;
pub const UNARY: u8 = 14;
pub const UPDATE: u8 = 15;
pub const NEWX: u8 = 16;
pub const CALL: u8 = 17;
pub const MEMBER: u8 = 18;

pub const BINOPS: [(&str, u8); 24] = [
    ("||", 3), ("&&", 4), ("|", 5), ("^", 6), ("&", 7), ("==", 8), ("!=", 8), ("===", 8), ("!==", 8), ("<", 9),
    (">", 9), ("<=", 9), (">=", 9), ("instanceof", 9), ("in", 9), ("<<", 10), (">>", 10), (">>>", 10), ("+", 11),
    ("-", 11), ("*", 12), ("/", 12), ("%", 12), ("**", 13),
];
pub const ASSIGNOPS: [&str; 12] = ["*=", "/=", "%=", "+=", "-=", "<<=", ">>=", ">>>=", "&=", "^=", "|=", "**="];
pub const REFS: [&str; 16] =
    ["a", "b", "c", "x", "foo", "$", "_", "of", "get", "set", "from", "as", "target", "async", "constructor", "name"];
pub const RESERVED: [&str; 39] = [
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export",
    "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch",
    "this", "throw", "try", "typeof", "var", "void", "while", "with", "yield", "enum", "null", "true", "false", "await",
    "in",
];
pub const CONTEXTUAL: [&str; 8] = ["async", "of", "get", "set", "static", "from", "as", "target"];

/// Emphasis of a property's generator: relative weights.
#[derive(Clone, Copy)]
pub struct Focus {
    pub max_depth: u32,
    pub items: u32,
    pub fun: u32,
    pub stmt: u32,
    pub module: u32,
    pub slash: bool,
    pub tpl: u32,
    /// percent of statement ends left to semicolon insertion
    pub asi: u32,
}
pub const FOCUS: Focus = Focus { max_depth: 4, items: 4, fun: 2, stmt: 4, module: 1, slash: false, tpl: 1, asi: 25 };

pub struct B<'g> {
    pub g: &'g mut G,
    pub out: Vec<Tok>,
    pub f: Focus,
    pending_semi: bool,
    next_gap: Gap,
    pub fresh: u32,
    labels: Vec<(String, bool)>,
    pub classes: u128,
    declared: Vec<String>,
    exported: Vec<String>,
    exported_default: bool,
    /// remaining tokens before everything is forced to be a leaf
    pub fuel: i32,
    /// A list longer than any small counter, or a nesting deeper, is still to come.
    long: bool,
    tall: bool,
    /// Inside such a nesting: go on downwards.
    high: bool,
}

// construct classes, for measuring what was generated
macro_rules! classes { ($($n:ident),*) => {
    #[allow(non_camel_case_types, dead_code)] #[derive(Clone, Copy)] pub enum C { $($n),* }
    pub const CLASS_NAMES: &[&str] = &[$(stringify!($n)),*];
} }
classes!(regex, division, template, nested_template, arrow, async_arrow, function, generator, async_fn, class, method,
    accessor, object, array, pattern, default_value, spread, rest, call, member, computed, new_, new_target, super_,
    tagged, cond, binary, in_op, exp_op, unary, update, postfix, assign, destruct_assign, comma, yield_, await_, if_,
    else_, for_, for_in, for_of, while_, do_while, switch_, case_, default_case, break_, continue_, label, return_,
    throw_, try_, catch_, finally_, block, long_list, deep_nesting, empty, var_, let_, const_, debugger, import_, export_, export_default, asi,
    fn_expr, class_expr, async_fn_expr, shorthand, cover_init, paren);

impl<'g> B<'g> {
    pub fn new(g: &'g mut G, f: Focus) -> B<'g> {
        let (long, tall) = match g.below(400) {
            399 | 398 => (true, false),
            397 | 396 => (false, true),
            _ => (false, false),
        };
        B {
            long,
            tall,
            high: false,
            g,
            out: vec![],
            f,
            pending_semi: false,
            next_gap: Gap::Any,
            fresh: 0,
            labels: vec![],
            classes: 0,
            declared: vec![],
            exported: vec![],
            exported_default: false,
            fuel: 260,
        }
    }
    fn c(&mut self, c: C) {
        let i = c as u32;
        self.classes |= 1 << i;
    }
    pub fn push(&mut self, mut t: Tok) {
        if self.pending_semi {
            self.pending_semi = false;
            if t.is("}") {
                // nothing needed
            } else if hazard(&t) {
                self.out.push(Tok::p(";"));
            } else {
                self.c(C::asi);
                self.next_gap = Gap::Nl;
            }
        }
        t.gap = self.next_gap;
        self.next_gap = Gap::Any;
        self.fuel -= 1;
        self.out.push(t);
    }
    pub fn p(&mut self, s: &str) {
        self.push(Tok::p(s));
    }
    pub fn n(&mut self, s: &str) {
        self.push(Tok::n(s));
    }
    pub fn nonl(&mut self) {
        self.next_gap = Gap::NoNl;
    }
    /// Ends a statement: explicit semicolon, or left to semicolon insertion.
    pub fn semi(&mut self) {
        if self.g.pct(self.f.asi) {
            self.pending_semi = true;
        } else {
            self.p(";");
        }
    }
    pub fn fresh(&mut self) -> String {
        self.fresh += 1;
        format!("{}{}", self.g.pick(&["v", "$", "_", "if", "in", "of", "async", "let", "yield"]), self.fresh)
    }
    fn splice(&mut self, v: Vec<Tok>) {
        let mut it = v.into_iter();
        if let Some(first) = it.next() {
            self.push(first);
        }
        self.out.extend(it);
    }
    /// Runs `f` collecting its tokens separately.
    fn sub(&mut self, f: impl FnOnce(&mut Self)) -> Vec<Tok> {
        let saved = std::mem::take(&mut self.out);
        let gap = std::mem::replace(&mut self.next_gap, Gap::Any);
        let ps = std::mem::replace(&mut self.pending_semi, false);
        f(self);
        self.next_gap = gap;
        self.pending_semi = ps;
        std::mem::replace(&mut self.out, saved)
    }
    /// Length of a list: at most `max`, or, once in a rare module, hundreds or more.
    fn many(&mut self, max: u32) -> u32 {
        if self.long && self.g.pct(30) {
            self.long = false;
            self.fuel = 0;
            self.c(C::long_list);
            return if self.g.below(40) == 39 { 65_600 } else { 200 + self.g.below(120) };
        }
        self.g.count(max)
    }
    /// Depth to go on with.
    fn dig(&mut self, d: u32) -> u32 {
        if self.tall && d > 0 && self.g.pct(50) {
            self.tall = false;
            self.high = true;
            self.fuel = 900;
            self.c(C::deep_nesting);
            return 30 + self.g.below(150);
        }
        d
    }
    fn leaf(&self, d: u32) -> bool {
        d == 0 || self.fuel <= 0
    }

    // ---- expressions -------------------------------------------------------------------------

    /// Expression of at least the given level.
    pub fn expr(&mut self, lvl: u8, cx: Cx, d: u32) {
        let d = self.dig(d);
        if self.leaf(d) {
            return self.primary(cx, 0);
        }
        let w_tpl = self.f.tpl;
        let w_fun = self.f.fun;
        let sl = if self.f.slash { 6 } else { 1 };
        let w_leaf = if self.high { 0 } else { 10 };
        match self.g.weighted(&[w_leaf, 3, 4 + sl, 3, 3, 2, 2, 3, 3, w_fun, 2, w_tpl, 1 + sl, 1]) {
            0 => self.primary(cx, d),
            1 => self.lhs(lvl, cx, d),
            2 => self.binary(lvl, cx, d),
            3 => self.unary(lvl, cx, d),
            4 => self.at(lvl, COND, cx, |b, cx| {
                b.c(C::cond);
                b.expr(COND + 1, cx, d - 1);
                b.p("?");
                b.expr(ASSIGN, Cx { in_: true, ..cx }, d - 1);
                b.p(":");
                b.expr(ASSIGN, cx, d - 1);
            }),
            5 => self.update(lvl, cx, d),
            6 => self.at(lvl, COMMA, cx, |b, cx| {
                b.c(C::comma);
                b.expr(ASSIGN, cx, d - 1);
                for _ in 0..1 + b.many(2) {
                    b.p(",");
                    b.expr(ASSIGN, cx, d - 1);
                }
            }),
            7 => self.at(lvl, ASSIGN, cx, |b, cx| {
                b.c(C::assign);
                if b.g.pct(25) {
                    b.c(C::destruct_assign);
                    b.assign_pattern(cx, d - 1);
                    b.p("=");
                } else {
                    b.simple_target(cx, d - 1);
                    let op = if b.g.pct(50) { "=" } else { *b.g.pick(&ASSIGNOPS) };
                    b.p(op);
                }
                b.expr(ASSIGN, cx, d - 1);
            }),
            8 => self.at(lvl, CALL, cx, |b, cx| {
                b.c(C::call);
                b.expr(CALL, cx, d - 1);
                b.args(cx, d - 1);
            }),
            9 => self.at(lvl, ASSIGN, cx, |b, cx| b.arrow(cx, d)),
            10 => self.primary_big(cx, d),
            11 => self.template(cx, d),
            12 => {
                // something followed by a division or a regular expression
                self.at(lvl, 12, cx, |b, cx| {
                    b.c(C::division);
                    b.expr(UPDATE, cx, d - 1);
                    b.p("/");
                    if b.g.pct(30) {
                        b.regex();
                    } else {
                        b.expr(UNARY, cx, d - 1);
                    }
                })
            }
            _ => {
                if cx.yld {
                    self.at(lvl, ASSIGN, cx, |b, cx| b.yield_(cx, d))
                } else if cx.awt {
                    self.at(lvl, UNARY, cx, |b, cx| {
                        b.c(C::await_);
                        b.n("await");
                        b.expr(UNARY, cx, d - 1);
                    })
                } else {
                    self.primary_big(cx, d)
                }
            }
        }
    }
    /// Emits `f` bare when its level suffices, else parenthesised.
    fn at(&mut self, want: u8, have: u8, cx: Cx, f: impl FnOnce(&mut Self, Cx)) {
        if have >= want {
            f(self, cx);
        } else {
            self.c(C::paren);
            self.p("(");
            f(self, Cx { in_: true, ..cx });
            self.p(")");
        }
    }
    pub fn yield_(&mut self, cx: Cx, d: u32) {
        self.c(C::yield_);
        self.n("yield");
        match self.g.weighted(&[3, 1, 2]) {
            0 => {
                self.nonl();
                self.expr(ASSIGN, cx, d.saturating_sub(1));
            }
            1 => {
                self.nonl();
                self.p("*");
                self.expr(ASSIGN, cx, d.saturating_sub(1));
            }
            _ => {
                // operand-less: only where the next token cannot start an expression; the caller's
                // context decides, so wrap it up
                self.next_gap = self.out.pop().map_or(Gap::Any, |t| t.gap);
                self.p("(");
                self.n("yield");
                self.p(")");
            }
        }
    }
    fn regex(&mut self) {
        self.c(C::regex);
        let t = gen_re(self.g);
        self.push(t);
    }
    pub fn name_ref(&mut self) -> String {
        if self.g.pct(20) {
            self.g.pick(&REFS).to_string()
        } else {
            self.g.pick(&REFS[..5]).to_string()
        }
    }
    pub fn primary(&mut self, cx: Cx, d: u32) {
        let sl = if self.f.slash { 6 } else { 2 };
        match self.g.weighted(&[10, 4, 2, sl, 3, 1]) {
            0 => {
                let n = self.name_ref();
                self.n(&n)
            }
            1 => {
                let t = if self.g.pct(70) {
                    let mut t = Tok::new(K::Num, *self.g.pick(&["1", "0", "2.5", "0x1f", "10", ".5", "1e3", "3."]));
                    t.val = num_value(&t.s);
                    t
                } else {
                    gen_num(self.g)
                };
                self.push(t)
            }
            2 => {
                let t = gen_str(self.g);
                if t.s[1..].starts_with("use ") {
                    return self.n("a");
                }
                self.push(t)
            }
            3 => self.regex(),
            4 => {
                let w = *self.g.pick(&["this", "null", "true", "false"]);
                self.n(w)
            }
            _ => {
                let c = gen_chunk(self.g);
                self.c(C::template);
                self.push(Tok::new(K::Tpl(0), format!("`{}`", c)))
            }
        }
        let _ = (cx, d);
    }
    fn primary_big(&mut self, cx: Cx, d: u32) {
        let f = self.f.fun;
        match self.g.weighted(&[4, 4, f, f, 2]) {
            0 => self.array(cx, d),
            1 => self.object(cx, d),
            2 => self.function_expr(cx, d),
            3 => {
                self.c(C::class_expr);
                self.class(cx, d, None, self.f.fun > 0)
            }
            _ => {
                self.p("(");
                self.expr(COMMA, Cx { in_: true, ..cx }, d.saturating_sub(1));
                self.p(")");
            }
        }
    }
    fn array(&mut self, cx: Cx, d: u32) {
        self.c(C::array);
        let cx = Cx { in_: true, ..cx };
        self.p("[");
        let n = self.many(4);
        for i in 0..n {
            match self.g.weighted(&[6, 2, 1]) {
                0 => self.expr(ASSIGN, cx, d.saturating_sub(1)),
                1 => {
                    self.c(C::spread);
                    self.p("...");
                    self.expr(ASSIGN, cx, d.saturating_sub(1));
                }
                _ => {
                    self.p(",");
                    continue;
                }
            }
            if i + 1 < n || self.g.pct(20) {
                self.p(",");
            }
        }
        self.p("]");
    }
    pub fn prop_name(&mut self, cx: Cx, d: u32) {
        match self.g.weighted(&[5, 2, 2, 2, 2]) {
            0 => {
                let n = self.name_ref();
                self.n(&n)
            }
            1 => {
                let n = *self.g.pick(&RESERVED);
                self.n(n)
            }
            2 => {
                let t = gen_str(self.g);
                let t = if t.s[1..].starts_with("constructor") || t.s[1..].starts_with("prototype") { Tok::new(K::Str, "'k'") } else { t };
                self.push(t)
            }
            3 => {
                let t = gen_num(self.g);
                self.push(t)
            }
            _ => {
                self.c(C::computed);
                self.p("[");
                self.expr(ASSIGN, Cx { in_: true, ..cx }, d.saturating_sub(1));
                self.p("]");
            }
        }
    }
    fn object(&mut self, cx: Cx, d: u32) {
        self.c(C::object);
        let cx = Cx { in_: true, ..cx };
        self.p("{");
        let n = self.many(4);
        for i in 0..n {
            match self.g.weighted(&[4, 4, 2, 1, 1]) {
                0 => {
                    self.c(C::shorthand);
                    let n = self.name_ref();
                    self.n(&n)
                }
                1 => {
                    self.prop_name(cx, d);
                    self.p(":");
                    self.expr(ASSIGN, cx, d.saturating_sub(1));
                }
                2 => self.method(cx, d, false),
                3 => {
                    self.c(C::spread);
                    self.p("...");
                    self.expr(ASSIGN, cx, d.saturating_sub(1));
                }
                _ => {
                    // contextual words as plain keys
                    let w = *self.g.pick(&CONTEXTUAL);
                    self.n(w);
                    self.p(":");
                    self.expr(ASSIGN, cx, d.saturating_sub(1));
                }
            }
            if i + 1 < n || self.g.pct(20) {
                self.p(",");
            }
        }
        self.p("}");
    }
    /// Method of an object literal or class (without `static`).
    fn method(&mut self, cx: Cx, d: u32, in_class: bool) {
        self.c(C::method);
        let d1 = d.saturating_sub(1);
        let m = Cx { in_: true, yld: false, awt: false, fun: true, sup_prop: true, sup_call: false, brk: false, cont: false };
        match self.g.weighted(&[5, 2, 2, 2, 2, 1]) {
            0 => {
                self.method_name(cx, d, in_class);
                self.params(m, d1);
                self.body(m, d1);
            }
            1 => {
                self.c(C::accessor);
                self.n("get");
                self.method_name(cx, d, in_class);
                self.p("(");
                self.p(")");
                self.body(m, d1);
            }
            2 => {
                self.c(C::accessor);
                self.n("set");
                self.method_name(cx, d, in_class);
                self.p("(");
                self.binding(m, d1, true);
                self.p(")");
                self.body(m, d1);
            }
            3 => {
                self.c(C::generator);
                self.p("*");
                self.method_name(cx, d, in_class);
                self.params(m, d1);
                self.body(Cx { yld: true, ..m }, d1);
            }
            4 => {
                self.c(C::async_fn);
                self.n("async");
                self.nonl();
                self.method_name(cx, d, in_class);
                self.params(m, d1);
                self.body(Cx { awt: true, ..m }, d1);
            }
            _ => {
                // methods named by a contextual word
                let w = *self.g.pick(&CONTEXTUAL);
                self.n(w);
                self.params(m, d1);
                self.body(m, d1);
            }
        }
    }
    fn method_name(&mut self, cx: Cx, d: u32, in_class: bool) {
        let at = self.out.len();
        self.prop_name(cx, d.saturating_sub(1));
        if in_class && self.out.len() == at + 1 {
            let t = &mut self.out[at];
            if t.s.contains("constructor") || t.s.contains("prototype") || t.k == K::Str && t.s.contains('\\') {
                *t = Tok { gap: t.gap, ..Tok::n("foo") };
            }
        }
    }
    pub fn class(&mut self, cx: Cx, d: u32, name: Option<String>, allow_name: bool) {
        self.c(C::class);
        self.n("class");
        match name {
            Some(n) => self.n(&n),
            None => {
                if allow_name && self.g.pct(50) {
                    let n = self.fresh();
                    self.n(&n);
                }
            }
        }
        let mut ext = false;
        if self.g.pct(30) {
            ext = true;
            self.n("extends");
            self.expr(CALL, cx, d.saturating_sub(1).min(1));
        }
        self.p("{");
        let d1 = d.saturating_sub(1);
        let mut ctor = false;
        for _ in 0..self.many(4) {
            if self.g.pct(10) {
                self.p(";");
            } else if !ctor && self.g.pct(15) {
                ctor = true;
                self.n("constructor");
                let m = Cx { in_: true, yld: false, awt: false, fun: true, sup_prop: true, sup_call: ext, brk: false, cont: false };
                self.params(m, d1);
                self.body(m, d1);
            } else {
                if self.g.pct(25) {
                    self.n("static");
                }
                self.method(cx, d, true);
            }
        }
        self.p("}");
    }
    pub fn function_expr(&mut self, cx: Cx, d: u32) {
        self.c(C::fn_expr);
        let name = if self.g.pct(50) { Some(self.fresh()) } else { None };
        self.function(cx, d, name, true);
    }
    /// function / function* / async function
    pub fn function(&mut self, _cx: Cx, d: u32, name: Option<String>, expr: bool) {
        self.c(C::function);
        let d1 = d.saturating_sub(1);
        let m = Cx { in_: true, yld: false, awt: false, fun: true, sup_prop: false, sup_call: false, brk: false, cont: false };
        let mut inner = m;
        match self.g.weighted(&[4, 2, 2]) {
            0 => self.n("function"),
            1 => {
                self.c(C::generator);
                self.n("function");
                self.p("*");
                inner.yld = true;
            }
            _ => {
                self.c(C::async_fn);
                if expr {
                    self.c(C::async_fn_expr);
                }
                self.n("async");
                self.nonl();
                self.n("function");
                inner.awt = true;
            }
        }
        if let Some(n) = name {
            self.n(&n);
        }
        self.params(m, d1);
        self.body(inner, d1);
    }
    pub fn params(&mut self, cx: Cx, d: u32) {
        let cx = Cx { in_: true, ..cx };
        self.p("(");
        let n = self.many(3);
        for i in 0..n {
            if i + 1 == n && self.g.pct(20) {
                self.c(C::rest);
                self.p("...");
                self.binding(cx, d, false);
                break;
            }
            self.binding(cx, d, true);
            if i + 1 < n || self.g.pct(15) {
                self.p(",");
            }
        }
        self.p(")");
    }
    pub fn body(&mut self, cx: Cx, d: u32) {
        let saved = std::mem::take(&mut self.labels);
        self.p("{");
        let n = self.many(3);
        for _ in 0..n {
            self.item(Cx { in_: true, brk: false, cont: false, ..cx }, d);
        }
        self.p("}");
        self.labels = saved;
    }
    /// Binding identifier or pattern, with an optional default.
    pub fn binding(&mut self, cx: Cx, d: u32, default: bool) {
        if d > 0 && self.fuel > 0 && self.g.pct(25) {
            self.pattern(cx, d - 1);
        } else {
            let n = self.fresh();
            self.n(&n);
        }
        if default && self.g.pct(20) {
            self.c(C::default_value);
            self.p("=");
            self.expr(ASSIGN, Cx { in_: true, ..cx }, d.saturating_sub(1));
        }
    }
    pub fn pattern(&mut self, cx: Cx, d: u32) {
        self.c(C::pattern);
        let cx = Cx { in_: true, ..cx };
        if self.g.pct(50) {
            self.p("[");
            let n = self.many(4);
            for i in 0..n {
                if self.g.pct(15) {
                    self.p(",");
                    continue;
                }
                if i + 1 == n && self.g.pct(25) {
                    self.c(C::rest);
                    self.p("...");
                    self.binding(cx, d, false);
                    break;
                }
                self.binding(cx, d, true);
                if i + 1 < n || self.g.pct(20) {
                    self.p(",");
                }
            }
            self.p("]");
        } else {
            self.p("{");
            let n = self.many(4);
            for i in 0..n {
                if self.g.pct(50) {
                    let v = self.fresh();
                    self.n(&v);
                    if self.g.pct(25) {
                        self.c(C::default_value);
                        self.p("=");
                        self.expr(ASSIGN, cx, d.saturating_sub(1));
                    }
                } else {
                    self.prop_name(cx, d);
                    self.p(":");
                    self.binding(cx, d, true);
                }
                if i + 1 < n || self.g.pct(20) {
                    self.p(",");
                }
            }
            self.p("}");
        }
    }
    /// Target of a simple assignment: a name or a member.
    pub fn simple_target(&mut self, cx: Cx, d: u32) {
        if self.leaf(d) || self.g.pct(60) {
            let n = self.name_ref();
            // `async` and `let` have lookahead restrictions in some heads
            self.n(if n == "async" { "a" } else { &n });
        } else {
            self.expr(CALL, cx, d - 1);
            self.member_suffix(cx, d - 1);
        }
    }
    fn member_suffix(&mut self, cx: Cx, d: u32) {
        self.c(C::member);
        if self.g.pct(60) {
            self.p(".");
            if self.g.pct(30) {
                let w = *self.g.pick(&RESERVED);
                self.n(w);
            } else {
                let n = self.name_ref();
                self.n(&n);
            }
        } else {
            self.c(C::computed);
            self.p("[");
            self.expr(COMMA, Cx { in_: true, ..cx }, d);
            self.p("]");
        }
    }
    /// Assignment pattern (array or object) of assignment targets.
    pub fn assign_pattern(&mut self, cx: Cx, d: u32) {
        let cx = Cx { in_: true, ..cx };
        let target = |b: &mut Self, d: u32| {
            if d > 0 && b.fuel > 0 && b.g.pct(20) {
                b.assign_pattern(cx, d - 1);
            } else {
                b.simple_target(cx, d);
            }
        };
        let default = |b: &mut Self| {
            if b.g.pct(20) {
                b.c(C::default_value);
                b.p("=");
                b.expr(ASSIGN, cx, d.saturating_sub(1));
            }
        };
        if self.g.pct(50) {
            self.p("[");
            let n = self.many(3);
            for i in 0..n {
                if self.g.pct(15) {
                    self.p(",");
                    continue;
                }
                if i + 1 == n && self.g.pct(25) {
                    self.p("...");
                    target(self, d);
                    break;
                }
                target(self, d);
                default(self);
                if i + 1 < n || self.g.pct(20) {
                    self.p(",");
                }
            }
            self.p("]");
        } else {
            self.p("{");
            let n = self.many(3);
            for i in 0..n {
                if self.g.pct(50) {
                    let v = self.name_ref();
                    self.n(&v);
                    if self.g.pct(30) {
                        self.c(C::cover_init);
                        self.p("=");
                        self.expr(ASSIGN, cx, d.saturating_sub(1));
                    }
                } else {
                    self.prop_name(cx, d);
                    self.p(":");
                    target(self, d);
                    default(self);
                }
                if i + 1 < n || self.g.pct(20) {
                    self.p(",");
                }
            }
            self.p("}");
        }
    }
    fn args(&mut self, cx: Cx, d: u32) {
        let cx = Cx { in_: true, ..cx };
        self.p("(");
        let n = self.many(3);
        for i in 0..n {
            if self.g.pct(15) {
                self.c(C::spread);
                self.p("...");
            }
            self.expr(ASSIGN, cx, d);
            if i + 1 < n || self.g.pct(15) {
                self.p(",");
            }
        }
        self.p(")");
    }
    fn lhs(&mut self, lvl: u8, cx: Cx, d: u32) {
        match self.g.weighted(&[5, 3, 2, 1, 1, 1, 1]) {
            0 => {
                // member chain; stays at the level of its base
                let base = lvl.max(CALL);
                self.at(lvl, base, cx, |b, cx| {
                    b.expr(base, cx, d - 1);
                    for _ in 0..1 + b.many(2) {
                        b.member_suffix(cx, d - 1);
                    }
                })
            }
            1 => self.at(lvl, MEMBER, cx, |b, cx| {
                b.c(C::new_);
                b.n("new");
                b.expr(MEMBER, cx, d - 1);
                b.args(cx, d - 1);
            }),
            2 => self.at(lvl, NEWX, cx, |b, cx| {
                b.c(C::new_);
                b.n("new");
                // (not at the level NEWX, which would let a call of super follow)
                while b.g.pct(20) {
                    b.n("new");
                }
                b.expr(MEMBER, cx, d - 1);
            }),
            3 => {
                let base = lvl.max(CALL);
                self.at(lvl, base, cx, |b, cx| {
                    b.c(C::tagged);
                    b.expr(base, cx, d - 1);
                    b.template(cx, d - 1);
                })
            }
            4 if cx.fun => {
                self.c(C::new_target);
                self.n("new");
                self.p(".");
                self.n("target");
            }
            5 if cx.sup_prop => {
                self.c(C::super_);
                self.n("super");
                self.member_suffix(cx, d - 1);
            }
            6 if cx.sup_call => self.at(lvl, CALL, cx, |b, cx| {
                b.c(C::super_);
                b.n("super");
                b.args(cx, d - 1);
            }),
            _ => self.primary(cx, d),
        }
    }
    fn binary(&mut self, lvl: u8, cx: Cx, d: u32) {
        let (op, l) = *self.g.pick(&BINOPS);
        if op == "in" && !cx.in_ && l >= lvl {
            return self.primary(cx, d);
        }
        self.at(lvl, l, cx, |b, cx| {
            b.c(C::binary);
            if op == "**" {
                b.c(C::exp_op);
                b.expr(UPDATE, cx, d - 1);
                b.p(op);
                b.expr(EXP, cx, d - 1);
            } else {
                if op == "in" {
                    b.c(C::in_op);
                }
                if op == "/" {
                    b.c(C::division);
                }
                b.expr(l, cx, d - 1);
                if is_id_char(op.chars().next().unwrap()) {
                    b.n(op)
                } else {
                    b.p(op)
                }
                b.expr(l + 1, cx, d - 1);
                // a chain of the same level
                for _ in 0..b.many(0) {
                    let ops: Vec<&str> = BINOPS.iter().filter(|o| o.1 == l && o.0 != "in").map(|o| o.0).collect();
                    let op = *b.g.pick(&ops);
                    if is_id_char(op.chars().next().unwrap()) {
                        b.n(op)
                    } else {
                        b.p(op)
                    }
                    b.expr(l + 1, cx, 0);
                }
            }
        })
    }
    fn unary(&mut self, lvl: u8, cx: Cx, d: u32) {
        self.at(lvl, UNARY, cx, |b, cx| {
            b.c(C::unary);
            let op = *b.g.pick(&["!", "-", "+", "~", "typeof", "void", "delete"]);
            if op == "delete" {
                b.n(op);
                b.expr(CALL, cx, d - 1);
                b.member_suffix(cx, d - 1);
            } else if op.len() > 1 {
                b.n(op);
                b.expr(UNARY, cx, d - 1);
            } else {
                b.p(op);
                b.expr(UNARY, cx, d - 1);
            }
        })
    }
    fn update(&mut self, lvl: u8, cx: Cx, d: u32) {
        if self.g.pct(50) {
            self.at(lvl, UPDATE, cx, |b, cx| {
                b.c(C::postfix);
                b.simple_target(cx, d - 1);
                b.nonl();
                let op = *b.g.pick(&["++", "--"]);
                b.p(op);
            })
        } else {
            // prefix forms are UnaryExpression-level operands of ** but UpdateExpressions
            self.at(lvl, UPDATE, cx, |b, cx| {
                b.c(C::update);
                let op = *b.g.pick(&["++", "--"]);
                b.p(op);
                b.simple_target(cx, d - 1);
            })
        }
    }
    pub fn template(&mut self, cx: Cx, d: u32) {
        self.c(C::template);
        let n = if self.leaf(d) { 0 } else { self.many(3) };
        let c = gen_chunk(self.g);
        if n == 0 {
            return self.push(Tok::new(K::Tpl(0), format!("`{}`", c)));
        }
        self.c(C::nested_template);
        self.push(Tok::new(K::Tpl(1), format!("`{}${{", c)));
        for i in 0..n {
            self.expr(COMMA, Cx { in_: true, ..cx }, d - 1);
            let c = gen_chunk(self.g);
            if i + 1 == n {
                self.push(Tok::new(K::Tpl(3), format!("}}{}`", c)));
            } else {
                self.push(Tok::new(K::Tpl(2), format!("}}{}${{", c)));
            }
        }
    }
    pub fn arrow(&mut self, cx: Cx, d: u32) {
        self.c(C::arrow);
        let d1 = d.saturating_sub(1);
        // parameters may not contain yield or await expressions
        let pcx = Cx { yld: false, awt: false, in_: true, ..cx };
        // a concise or block body has neither yield nor await; only async adds await
        let mut bcx = Cx { brk: false, cont: false, yld: false, awt: false, ..cx };
        match self.g.weighted(&[4, 4, 2, 2]) {
            0 => {
                let n = self.fresh();
                self.n(&n);
            }
            1 => self.params(pcx, d1),
            2 => {
                self.c(C::async_arrow);
                self.n("async");
                self.nonl();
                let n = self.fresh();
                self.n(&n);
                bcx.awt = true;
            }
            _ => {
                self.c(C::async_arrow);
                self.n("async");
                self.nonl();
                self.params(pcx, d1);
                bcx.awt = true;
            }
        }
        self.nonl();
        self.p("=>");
        if self.g.pct(50) {
            // a generator's yield is not available inside an arrow function body
            let body = Cx { fun: true, ..bcx };
            let nt = cx.fun;
            self.arrow_body(Cx { fun: body.fun, ..body }, nt, d1);
        } else {
            let b = Cx { in_: cx.in_, ..bcx };
            let v = self.sub(|s| s.expr(ASSIGN, b, d1));
            self.wrap_if(v, |t| t.is("{"));
        }
    }
    fn arrow_body(&mut self, cx: Cx, new_target: bool, d: u32) {
        // `return` is allowed in an arrow body, new.target only when the arrow is inside a function
        let saved = std::mem::take(&mut self.labels);
        self.p("{");
        for _ in 0..self.many(2) {
            if self.g.pct(40) {
                self.c(C::return_);
                self.n("return");
                self.nonl();
                self.expr(COMMA, Cx { in_: true, fun: new_target, ..cx }, d);
                self.semi();
            } else {
                self.item(Cx { in_: true, fun: new_target, ..cx }, d);
            }
        }
        self.p("}");
        self.labels = saved;
    }
    fn wrap_if(&mut self, v: Vec<Tok>, bad: impl Fn(&Tok) -> bool) {
        if v.first().map_or(false, &bad) {
            self.p("(");
            self.splice(v);
            self.p(")");
        } else {
            self.splice(v);
        }
    }
    /// Expression with a statement-start restriction.
    pub fn expr_stmt_expr(&mut self, lvl: u8, cx: Cx, d: u32) {
        let v = self.sub(|s| s.expr(lvl, cx, d));
        let asyncfn = v.len() > 1 && v[0].is("async") && v[1].is("function");
        self.wrap_if(v, |t| t.is("{") || t.is("function") || t.is("class") || asyncfn);
    }

    // ---- statements ----------------------------------------------------------------------------

    /// Statement list item: statement or declaration.
    pub fn item(&mut self, cx: Cx, d: u32) {
        let f = self.f.fun;
        match self.g.weighted(&[10, 3, 2 + f, f, f]) {
            0 => self.stmt(cx, d),
            1 => self.lexical(cx, d),
            2 => {
                self.c(C::var_);
                self.var(cx, d)
            }
            3 => {
                let n = self.fresh();
                self.function(cx, d, Some(n), false)
            }
            _ => {
                let n = self.fresh();
                self.class(cx, d, Some(n), true)
            }
        }
    }
    pub fn lexical(&mut self, cx: Cx, d: u32) {
        let cx = Cx { in_: true, ..cx };
        let con = self.g.pct(50);
        self.c(if con { C::const_ } else { C::let_ });
        self.n(if con { "const" } else { "let" });
        self.declarators(cx, d, con);
        self.semi();
    }
    fn declarators(&mut self, cx: Cx, d: u32, init: bool) {
        let n = 1 + self.many(2);
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            let mut need = init;
            if d > 0 && self.g.pct(25) {
                self.pattern(cx, d - 1);
                need = true;
            } else {
                let n = self.fresh();
                self.n(&n);
            }
            if need || self.g.pct(60) {
                self.p("=");
                self.expr(ASSIGN, cx, d.saturating_sub(1));
            }
        }
    }
    pub fn var(&mut self, cx: Cx, d: u32) {
        self.n("var");
        self.declarators(Cx { in_: true, ..cx }, d, false);
        self.semi();
    }
    fn block(&mut self, cx: Cx, d: u32) {
        self.c(C::block);
        self.p("{");
        for _ in 0..self.many(3) {
            self.item(cx, d.saturating_sub(1));
        }
        self.p("}");
    }
    pub fn paren_expr(&mut self, cx: Cx, d: u32) {
        self.p("(");
        self.expr(COMMA, cx, d);
        self.p(")");
    }
    /// A statement in a position where declarations are not allowed.
    pub fn stmt(&mut self, cx: Cx, d: u32) {
        let d = self.dig(d);
        let cx = Cx { in_: true, ..cx };
        if self.leaf(d) {
            return match self.g.weighted(&[6, 2, 1, 1]) {
                0 => {
                    self.expr_stmt_expr(COMMA, cx, 0);
                    self.semi()
                }
                1 => {
                    self.c(C::empty);
                    self.p(";")
                }
                2 => {
                    self.c(C::debugger);
                    self.n("debugger");
                    self.semi()
                }
                _ => self.jump(cx, 0),
            };
        }
        let d1 = d - 1;
        let s = self.f.stmt;
        let w_expr = if self.high { 2 } else { 12 };
        match self.g.weighted(&[w_expr, 1, 1, 2, s, s + 1, s, s, s, s, s, s, s, 1]) {
            0 => {
                self.expr_stmt_expr(COMMA, cx, d);
                self.semi()
            }
            1 => {
                self.c(C::empty);
                self.p(";")
            }
            2 => {
                self.c(C::debugger);
                self.n("debugger");
                self.semi()
            }
            3 => self.block(cx, d),
            4 => {
                self.c(C::if_);
                self.n("if");
                self.paren_expr(cx, d1);
                if self.g.pct(50) {
                    self.c(C::else_);
                    // the consequent must not end in an else-less if
                    let at = self.out.len();
                    self.stmt(cx, d1);
                    if self.dangling(at) {
                        self.finish_semi();
                        let v = self.out.split_off(at);
                        self.p("{");
                        self.splice(v);
                        self.p("}");
                    }
                    self.n("else");
                }
                self.stmt(cx, d1)
            }
            5 => self.for_(cx, d),
            6 => {
                self.c(C::while_);
                self.n("while");
                self.paren_expr(cx, d1);
                self.stmt(Cx { brk: true, cont: true, ..cx }, d1)
            }
            7 => {
                self.c(C::do_while);
                self.n("do");
                self.stmt(Cx { brk: true, cont: true, ..cx }, d1);
                self.n("while");
                self.paren_expr(cx, d1);
                if self.g.pct(70) {
                    self.p(";");
                }
            }
            8 => {
                self.c(C::switch_);
                self.n("switch");
                self.paren_expr(cx, d1);
                self.p("{");
                let n = self.many(3);
                let def = if self.g.pct(60) { self.g.below(n + 1) } else { n + 1 };
                for i in 0..n {
                    if i == def {
                        self.c(C::default_case);
                        self.n("default");
                    } else {
                        self.c(C::case_);
                        self.n("case");
                        self.expr(COMMA, cx, d1);
                    }
                    self.p(":");
                    for _ in 0..self.many(2) {
                        self.item(Cx { brk: true, ..cx }, d1);
                    }
                }
                self.p("}");
            }
            9 => self.jump(cx, d),
            10 => {
                self.c(C::try_);
                self.n("try");
                self.block(cx, d1);
                let k = self.g.below(3);
                if k != 1 {
                    self.c(C::catch_);
                    self.n("catch");
                    self.p("(");
                    self.binding(cx, d1, false);
                    self.p(")");
                    self.block(cx, d1);
                }
                if k != 0 {
                    self.c(C::finally_);
                    self.n("finally");
                    self.block(cx, d1);
                }
            }
            11 => {
                self.c(C::label);
                let n = self.fresh();
                self.n(&n);
                self.p(":");
                let is_loop = self.g.pct(60);
                self.labels.push((n, is_loop));
                if is_loop {
                    if self.g.pct(60) {
                        self.for_(cx, d1.max(1));
                    } else {
                        self.n("while");
                        self.paren_expr(cx, d1);
                        self.stmt(Cx { brk: true, cont: true, ..cx }, d1);
                    }
                } else {
                    self.stmt(cx, d1);
                }
                self.labels.pop();
            }
            12 => {
                // expression statements made of the heavier constructs
                let v = self.sub(|s| s.primary_big(cx, d));
                let asyncfn = v.len() > 1 && v[0].is("async") && v[1].is("function");
                self.wrap_if(v, |t| t.is("{") || t.is("function") || t.is("class") || asyncfn);
                if self.g.pct(30) {
                    self.member_suffix(cx, d1);
                }
                self.semi();
            }
            _ => {
                self.c(C::var_);
                self.var(cx, d)
            }
        }
    }
    /// Writes out a pending semicolon.
    fn finish_semi(&mut self) {
        if self.pending_semi {
            self.pending_semi = false;
            self.p(";");
        }
    }
    /// Conservative: would an `else` here attach inside the statement starting at `at`?
    fn dangling(&self, at: usize) -> bool {
        self.out[at..].iter().any(|t| t.is("if"))
    }
    /// throw, return, break, continue
    fn jump(&mut self, cx: Cx, d: u32) {
        let mut opts: Vec<u8> = vec![0, 0];
        if cx.fun {
            opts.extend([1, 1, 1]);
        }
        if cx.brk {
            opts.extend([2, 2]);
        }
        if cx.cont {
            opts.extend([3, 3]);
        }
        if !self.labels.is_empty() {
            opts.push(4);
        }
        match *self.g.pick(&opts) {
            0 => {
                self.c(C::throw_);
                self.n("throw");
                self.nonl();
                self.expr(COMMA, cx, d);
            }
            1 => {
                self.c(C::return_);
                self.n("return");
                if self.g.pct(80) {
                    self.nonl();
                    self.expr(COMMA, cx, d);
                }
            }
            2 => {
                self.c(C::break_);
                self.n("break")
            }
            3 => {
                self.c(C::continue_);
                self.n("continue")
            }
            _ => {
                let i = self.g.below(self.labels.len() as u32) as usize;
                let (l, lp) = self.labels[i].clone();
                if lp && cx.cont && self.g.pct(50) {
                    self.c(C::continue_);
                    self.n("continue");
                } else {
                    self.c(C::break_);
                    self.n("break");
                }
                self.nonl();
                self.n(&l);
            }
        }
        self.semi();
    }
    pub fn for_(&mut self, cx: Cx, d: u32) {
        let d1 = d - 1;
        let no_in = Cx { in_: false, ..cx };
        self.n("for");
        self.p("(");
        let form = self.g.weighted(&[4, 3, 3]);
        if form == 0 {
            self.c(C::for_);
            match self.g.weighted(&[2, 2, 2, 2, 2]) {
                0 => {}
                1 => {
                    // must not start with `let [`
                    self.expr(COMMA, no_in, d1);
                }
                k => {
                    let kw = ["var", "let", "const"][k - 2];
                    self.n(kw);
                    self.declarators(no_in, d1, kw == "const");
                }
            }
            self.p(";");
            if self.g.pct(70) {
                self.expr(COMMA, cx, d1);
            }
            self.p(";");
            if self.g.pct(70) {
                self.expr(COMMA, cx, d1);
            }
        } else {
            match self.g.weighted(&[2, 2, 2, 3]) {
                3 => {
                    if self.g.pct(30) {
                        self.assign_pattern(no_in, d1)
                    } else {
                        self.simple_target(no_in, d1)
                    }
                }
                k => {
                    let kw = ["var", "let", "const"][k];
                    self.n(kw);
                    self.binding(no_in, d1, false);
                }
            }
            if form == 1 {
                self.c(C::for_in);
                self.n("in");
                self.expr(COMMA, cx, d1);
            } else {
                self.c(C::for_of);
                self.n("of");
                self.expr(ASSIGN, cx, d1);
            }
        }
        self.p(")");
        self.stmt(Cx { brk: true, cont: true, ..cx }, d1);
    }

    // ---- module items --------------------------------------------------------------------------

    fn word(&mut self) -> String {
        match self.g.weighted(&[4, 2, 2]) {
            0 => self.name_ref(),
            1 => self.g.pick(&RESERVED).to_string(),
            _ => self.g.pick(&CONTEXTUAL).to_string(),
        }
    }
    fn from_clause(&mut self) {
        self.n("from");
        let t = gen_str(self.g);
        self.push(t);
    }
    pub fn import(&mut self) {
        self.c(C::import_);
        self.n("import");
        if self.g.pct(15) {
            let t = gen_str(self.g);
            self.push(t);
            return self.semi();
        }
        let k = self.g.below(5);
        if k == 0 || k >= 3 {
            let n = self.fresh();
            self.n(&n);
        }
        if k >= 3 {
            self.p(",");
        }
        if k == 1 || k == 3 {
            self.p("*");
            self.n("as");
            let n = self.fresh();
            self.n(&n);
        }
        if k == 2 || k == 4 {
            self.p("{");
            let n = self.many(4);
            for i in 0..n {
                if self.g.pct(50) {
                    let w = self.word();
                    self.n(&w);
                    self.n("as");
                    let n = self.fresh();
                    self.n(&n);
                } else {
                    let n = self.fresh();
                    self.n(&n);
                }
                if i + 1 < n || self.g.pct(25) {
                    self.p(",");
                }
            }
            self.p("}");
        }
        self.from_clause();
        self.semi();
    }
    /// The name something is exported under: any word, once.
    fn ename(&mut self) -> String {
        if self.g.pct(40) {
            let w = if self.g.pct(60) { self.g.pick(&RESERVED).to_string() } else { self.g.pick(&CONTEXTUAL).to_string() };
            if !self.exported.contains(&w) && !(w == "default" && self.exported_default) {
                self.exported_default |= w == "default";
                self.exported.push(w.clone());
                return w;
            }
        }
        self.fresh += 1;
        format!("e{}", self.fresh)
    }
    pub fn export(&mut self, d: u32) {
        self.c(C::export_);
        let k = self.g.weighted(&[3, 2, 3, 2, 2, 2, 2, if self.exported_default { 0 } else { 6 }]);
        self.n("export");
        match k {
            0 => {
                self.p("*");
                self.from_clause();
                self.semi();
            }
            1 => {
                // local specifiers: names declared by an earlier statement
                self.p("{");
                let avail = self.declared.clone();
                let n = if avail.is_empty() { 0 } else { self.many(3) };
                for i in 0..n {
                    let l = self.g.pick(&avail).clone();
                    self.n(&l);
                    if self.exported.contains(&l) || self.g.pct(60) {
                        self.n("as");
                        let e = self.ename();
                        self.n(&e);
                    } else {
                        self.exported.push(l);
                    }
                    if i + 1 < n || self.g.pct(25) {
                        self.p(",");
                    }
                }
                self.p("}");
                self.semi();
            }
            2 => {
                self.p("{");
                let n = self.many(3);
                for i in 0..n {
                    if self.g.pct(70) {
                        let w = self.word();
                        self.n(&w);
                        self.n("as");
                    }
                    let e = self.ename();
                    self.n(&e);
                    if i + 1 < n || self.g.pct(25) {
                        self.p(",");
                    }
                }
                self.p("}");
                self.from_clause();
                self.semi();
            }
            3 => {
                self.c(C::var_);
                self.var(TOP, d)
            }
            4 => self.lexical(TOP, d),
            5 => {
                let n = self.fresh();
                self.function(TOP, d, Some(n), false)
            }
            6 => {
                let n = self.fresh();
                self.class(TOP, d, Some(n), true)
            }
            _ => {
                self.exported_default = true;
                self.c(C::export_default);
                self.n("default");
                match self.g.weighted(&[3, 2, 2]) {
                    0 => {
                        let v = self.sub(|s| s.expr(ASSIGN, TOP, d));
                        let asyncfn = v.len() > 1 && v[0].is("async") && v[1].is("function");
                        self.wrap_if(v, |t| t.is("function") || t.is("class") || asyncfn);
                        self.semi();
                    }
                    1 => {
                        let n = if self.g.pct(50) { Some(self.fresh()) } else { None };
                        self.function(TOP, d, n, false)
                    }
                    _ => {
                        let n = if self.g.pct(50) { Some(self.fresh()) } else { None };
                        self.class(TOP, d, n, false)
                    }
                }
            }
        }
    }
    pub fn module_item(&mut self, d: u32) {
        let m = self.f.module;
        match self.g.weighted(&[8, m, m]) {
            0 => {
                if self.g.pct(10) {
                    let n = self.fresh();
                    self.declared.push(n.clone());
                    self.n("let");
                    self.n(&n);
                    self.semi();
                } else {
                    self.item(TOP, d)
                }
            }
            1 => self.import(),
            _ => self.export(d),
        }
    }
    pub fn module(&mut self) {
        let n = {
            let most = self.f.items;
            1 + self.many(most)
        };
        for _ in 0..n {
            let d = self.g.below(self.f.max_depth + 1);
            self.module_item(d);
        }
        // a pending semicolon at the end of the file is inserted
        self.pending_semi = false;
    }
    /// Statement list usable inside a block or function (no import/export).
    pub fn stmts(&mut self, cx: Cx, max: u32) {
        for _ in 0..1 + self.many(max) {
            let d = self.g.below(self.f.max_depth + 1);
            self.item(cx, d);
        }
        self.pending_semi = false;
    }
    pub fn take_pending(&mut self) -> bool {
        std::mem::replace(&mut self.pending_semi, false)
    }
}

/// Could this token continue the previous statement across a line break?
pub fn hazard(t: &Tok) -> bool {
    match t.k {
        K::Tpl(_) | K::Re => true,
        K::Punct => !matches!(&t.s[..], "{" | "}" | ";" | "++" | "--" | "!" | "~" ),
        K::Name => matches!(&t.s[..], "in" | "instanceof" | "of" | "as" | "from"),
        _ => false,
    }
}

pub fn gen_module(g: &mut G, f: Focus) -> (Vec<Tok>, u128) {
    let mut b = B::new(g, f);
    b.module();
    let c = b.classes;
    (b.out, c)
}
