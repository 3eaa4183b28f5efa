#!/usr/bin/env python3
"""Writes known_findings.txt (the "fixed" entries) and regressions/<ID>.jsonl from the table below.
The hand-written cases are the inputs that failed before the named commit."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEEP = [l for l in (open(ROOT + '/known_findings.txt') if os.path.exists(ROOT + '/known_findings.txt') else []) if l.startswith('finding:')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
COMMITS = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}

def acc(*s): return [dict(kind='accept', src=x) for x in s]
def rej(*s): return [dict(kind='reject', src=x, why='regression') for x in s]
def rob(*s): return [dict(kind='robust', src=x) for x in s]
def tile(src, *hints): return [dict(kind='tile', src=src, hints=list(hints) or [0])]
def lexfail(src, hint=0, toks=()): return [dict(kind='lexfail', src=src, toks=list(toks), hint=hint)]
def T(kind, src, start, text, a=None, b=None, num=None, hint=0):
    start = len(src[:start].encode()); return [kind, a, b, num, start, start + len(text.encode()), hint]
def lex(src, parts, what, eof=True):
    """parts: (kind, text, a, b, num, hint), found left to right"""
    toks, at = [], 0
    for p in parts:
        kind, text = p[0], p[1]
        a, b, num, hint = (list(p[2:]) + [None] * 4)[:4]
        i = src.index(text, at)
        toks.append(T(kind, src, i, text, a, b, num, hint or 0)); at = i + len(text)
    n = len(src.encode())
    if eof: toks.append(['eof', None, None, None, n, n, 0])
    return [dict(kind='lex', src=src, toks=toks, what=what)]
def num(src, v): return lex(src, [('num', src, None, None, v)], 5)
def stream(src, parts):
    l = lex(src, parts, 3, eof=False)[0]; return [dict(kind='stream', src=src, toks=l['toks'])]

TABLE = [
 ('fix: skip all the bytes of a no-break space or byte order mark', 'C08', 'a no-break space or BOM was skipped by one byte only, which then cut a character in two',
    lex('a\u00a0b', [('name','a','a'),('name','b','b')], 3) + lex('\ufeffa', [('name','a','a')], 3)),
 ('fix: skip all the bytes of a no-break space or byte order mark', 'C02', 'offsets after a no-break space were wrong',
    lex('\u00a0a', [('name','a','a')], 9)),
 ('fix: skip all the bytes of a no-break space or byte order mark', 'C21', 'a no-break space ended in a slice inside a character',
    rob('a\u00a0;b', '\ufeff')),
 ('fix: number lines from 1 as Position documents', 'C02', 'the first line was numbered 0',
    lex('a\nb', [('name','a','a'),('nl','\n'),('name','b','b')], 9)),
 ('fix: count CR LF between tokens as one line', 'C02', 'CR LF between tokens counted as two lines',
    lex('a\r\nb', [('name','a','a'),('nl','\r'),('nl','\n'),('name','b','b')], 9)),
 ('fix: give hexadecimal letters their value', 'C04', 'the letters of 0xff were given wrong values', num('0xff','255e0') + num('0xDEADBEEF','3735928559e0')),
 ('fix: check the first digit after 0x, 0o and 0b, and read 0. at the end of the text', 'C09', 'the first character after 0x, 0o and 0b was taken unchecked',
    lexfail('0x') + lexfail('0b2') + lexfail('0o8') + lexfail('0xg') + rej('0b2', '0x;')),
 ('fix: check the first digit after 0x, 0o and 0b, and read 0. at the end of the text', 'C04', '`0.` at the end of the text failed', num('0.','0e0')),
 ('fix: check the first digit after 0x, 0o and 0b, and read 0. at the end of the text', 'C21', '`0x`, `0o`, `0b` or `0.` at the end of the text read past it', rob('0x', '0.', '0b', '0o', '0x\u00e9')),
 ('fix: read the exponent of a literal such as 0e5', 'C04', '0e5 was split after the 0', num('0e5','0e0') + num('0E-3','0e0')),
 ('fix: refuse an exponent without digits', 'C09', '1e and 1e+ were numbers', lexfail('1e') + lexfail('1e+') + rej('1e;')),
 ('fix: do not overflow on large exponents', 'C21', '1e99999999999 overflowed an integer', rob('1e99999999999', '1e-99999999999')),
 ('fix: do not overflow on large exponents', 'C04', '1e99999999999 overflowed an integer', num('1e99999999999','inf') + num('1e-99999999999','0e0')),
 ('fix: zero with a large exponent is zero', 'C04', '0.0e999 was not zero', num('0.0e999','0e0')),
 ('fix: read numbers with very large or small exponents without leaving the range of doubles on the way', 'C04', '100000e-309 was zero and 1<400 zeros>e-400 was not a number', num('100000e-309','1e-304') + num('0.0001e311','1e307') + num('1'+'0'*400+'e-400','1e0') + num('0.'+'0'*400+'1e401','1e0')),
 ('fix: refuse a number that runs into a name or another number', 'C09', '3in and 0b12 were split silently', lexfail('3in') + lexfail('0b12') + lexfail('3a') + lexfail('01') + rej('3in []', '01')),
 ('fix: refuse a character that starts no token', 'C09', 'a character that starts no token was an end of file of zero width', lexfail('#') + lexfail('\\') + rej('a#', '@', 'a;\u00e9')),
 ('fix: refuse a character that starts no token', 'C01', 'an end-of-file token before the end of the text', tile('a#b')),
 ('fix: refuse an unterminated string', 'C09', 'an unterminated string ran to the end of the text', lexfail("'abc") + lexfail('"') + rej("x = 'abc")),
 ('fix: refuse an unterminated string', 'C01', 'an unterminated string was a token', tile("'abc")),
 ('fix: accept escapes of ordinary characters in strings', 'C05', "'\\d' was refused", lex("'\\d\\\u00e9'", [('str',"'\\d\\\u00e9'")], 3)),
 ('fix: a CR continuation only covers the LF right after it', 'C09', 'a line feed anywhere after a CR continuation was accepted', lexfail("'\\\ra\nb'")),
 ('fix: refuse octal escapes that start with zero', 'C09', "'\\01' was accepted", lexfail("'\\01'") + lexfail("'\\09'")),
 ('fix: check the digits of hex and unicode escapes', 'C09', "'\\xzz' and '\\u{}' were accepted", lexfail("'\\xzz'") + lexfail("'\\u{}'") + lexfail("'\\u12'") + lexfail("'\\u{110000}'")),
 ('fix: check the digits of hex and unicode escapes', 'C05', 'an escape of few digits swallowed the closing quote', lexfail("'\\x4'") + lex("'\\x41\\u{41}\\u0041'", [('str',"'\\x41\\u{41}\\u0041'")], 3)),
 ('fix: an escaped character never ends a template chunk', 'C06', 'an escaped backtick or dollar ended a chunk', lex('`\\`\\${`', [('tpl','`\\`\\${`','\\`\\${','full')], 3)),
 ('fix: --> is a decrement and a comparison in module code', 'C03', '--> was an HTML-like token', lex('a-->b', [('name','a','a'),('punct','--','--'),('punct','>','>'),('name','b','b')], 3) + acc('while (a --> 0);')),
 ('fix: refuse line terminators in regular expressions', 'C09', 'a regular expression ran across a line break', lexfail('/a\nb/', 1) + lexfail('/[\n]/', 1) + lexfail('/a\\\n/', 1) + rej('x = /a\nb/')),
 ('fix: an expected expression concerns the next token only', 'C14', 'the hint for a regular expression leaked to a later token',
    stream('1 / 2 / 3;', [('num','1',None,None,'1e0'),('punct','/','/'),('num','2'),('punct','/','/'),('num','3'),('punct',';',';')])),
 ('fix: a regular expression may start an item, an index, a substitution or a callee', 'C14', 'a regular expression was read as a division',
    acc('x = [/a/, .../b/];', 'a[/b/];', '`${/a/}${/b/}`;', 'new /a/;')),
 ('fix: a statement after if or try, or a default export, may start with a regular expression', 'C14', 'a regular expression was read as a division',
    acc('if (a) b; /c/.d();', 'try {} finally {} /a/.b();', 'try {} catch (e) {} /a/.b();', 'export default /a/;')),
 ('fix: a regular expression may follow return, throw, yield, break and continue', 'C14', 'a regular expression was read as a division',
    acc('function f() { return /a/; }', 'throw /a/;', 'function* g() { yield /a/; yield* /b/; }', 'while (a) { break\n/b/.c }')),
 ('fix: slash after this, super, null, true and false divides', 'C14', 'this / 2 / 3 was read as a regular expression',
    acc('this / 2 / 3;', 'null / 2;', 'true / a / b;', 'x = false / a;')),
 ('fix: await is never an identifier in a module', 'C18', 'await was a name inside async functions', rej('await;', 'var await;', 'async function f() { var await; }')),
 ('fix: await is never an identifier in a module', 'C19', 'await was a name inside async functions, with the operand a statement of its own', acc('async function f() { await /a/; }') + rej('async function f() { await\n; }')),
 ('fix: parse class expressions beyond their keyword', 'C12', 'class expressions were not parsed', acc('x = class {};', 'x = class a extends b { m() {} };') + rej('x = class;')),
 ('fix: accept new.target', 'C10', 'new.target was rejected', acc('function f() { new.target; }', 'function f() { new new.target(); }')),
 ('fix: refuse super on its own', 'C15', 'super was accepted on its own', rej('class a { m() { super; } }', 'class a { m() { super + 1; } }', 'class a { m() { super`x`; } }')),
 ('fix: accept async function declarations', 'C12', 'async function declarations were rejected', acc('async function f() { await a; }', '{ async function f() {} }')),
 ('fix: accept async function expressions, and a function on the line after a name', 'C12', 'async function expressions were rejected', acc('x = async function () { await a; };')),
 ('fix: accept async function expressions, and a function on the line after a name', 'C16', 'a function on the line after a name was rejected', acc('a\nfunction f() {}', 'async\nfunction f() {}')),
 ('fix: an arrow function decides on yield and await in its own body', 'C19', 'arrow functions kept the yield and await of their surroundings', acc('x = async () => await a;', 'x = async a => { await b; };') + rej('async function f() { () => { await a; }; }', 'function* g() { () => { yield; }; }')),
 ('fix: refuse a line break before an arrow', 'C16', 'a line break before => was accepted', rej('x = a\n=> b;', 'x = (a)\n=> b;')),
 ('fix: refuse yield outside generators', 'C19', 'yield was accepted everywhere', rej('yield;', 'function f() { yield a; }', 'x = yield;')),
 ('fix: yield takes one optional operand, yield* a required one', 'C19', 'yield took a comma expression, yield* nothing', rej('function* g() { yield*; }', 'function* g() { f(yield a, b c); }') + acc('function* g() { f(yield a, yield); `${yield}`; }')),
 ('fix: accessors start out without yield and await, setters may have a default', 'C19', 'accessors kept the yield and await of their surroundings', rej('function* g() { x = { get a() { yield; } }; }', 'async function f() { x = { set a(b) { await c; } }; }')),
 ('fix: accessors start out without yield and await, setters may have a default', 'C12', 'a default in a setter was rejected', acc('x = { set a(b = 1) {} };')),
 ('fix: functions inside a default export need their names', 'C15', 'a nested declaration without a name was accepted', rej('export default function () { function () {} }', 'export default class { m() { class {} } }')),
 ('fix: refuse return outside functions', 'C19', 'return was accepted outside functions', rej('return;', '{ return a; }', 'if (a) return;')),
 ('fix: refuse await in the parameters of nested async functions', 'C19', 'the parameters of a nested async function kept await', rej('async function f() { async function g(a = await b) {} }')),
 ('fix: accept several spread arguments', 'C10', 'f(...a, ...b) was rejected', acc('f(...a, ...b);', 'f(...a, b, ...c,);')),
 ('fix: empty parentheses, rest and trailing commas need an arrow', 'C15', '() was an expression', rej('();', '(...a);', '(a, ...b);', '(a,);')),
 ('fix: empty parentheses, rest and trailing commas need an arrow', 'C12', '(a,) => b was rejected', acc('x = (a,) => b;', '() => a;', '(...a) => b;')),
 ('fix: a method named async is not an async method', 'C19', 'a method named async was an async method', rej('x = { async() { await a; } };') + acc('x = { async() {}, async: 1, async };')),
 ('fix: refuse a star after get and set', 'C15', 'get *a() {} was accepted', rej('x = { get *a() {} };', 'class c { set *a(b) {} }')),
 ('fix: only names stand for a property on their own, and object literals have no static members', 'C15', 'properties without values and static members were accepted', rej('x = { "a" };', 'x = { 1 };', 'x = { [a] };', 'x = { *a };', 'x = { get a };', 'x = { static a() {} };')),
 ('fix: only names stand for a property on their own, and object literals have no static members', 'C18', 'a reserved word stood for a property on its own', rej('x = { if };', 'x = { this };') + acc('x = { get, set, async, static() {} };')),
 ('fix: refuse values for accessors, generators and async methods', 'C15', '{ get a: 1 } was accepted', rej('x = { get a: 1 };', 'x = { *a: 1 };', 'x = { async a: 1 };')),
 ('fix: accept defaults of names in destructuring assignments', 'C12', '({ a = 1 } = b) was rejected', acc('({ a = 1 } = b);', '({ a = 1 }) => b;')),
 ('fix: refuse a comma without a property before it', 'C15', '{ , } was accepted', rej('x = { , };', 'x = { a,, b };')),
 ('fix: refuse an empty computed property name', 'C15', '{ []: a } was accepted', rej('x = { []: a };', 'class c { []() {} }', 'var { []: a } = b;')),
 ('fix: only names stand for a binding on their own', 'C15', 'var { "a" } = b was accepted', rej('var { "a" } = b;', 'var { [a] } = b;')),
 ('fix: only names stand for a binding on their own', 'C18', 'a reserved word stood for a binding', rej('var { if } = b;', 'function f({ this }) {}')),
 ('fix: accept in operators in the initializers of let and const', 'C19', 'let x = a in b was rejected', acc('let x = a in b;', 'const y = a in b, z = c in d;')),
 ('fix: accept in operators after the first part of a for head', 'C19', 'for (; a in b; c in d) was rejected', acc('for (; a in b; c in d);')),
 ('fix: accept a comma expression as the object of for-in', 'C11', 'for (x in a, b) was rejected', acc('for (x in a, b);')),
 ('fix: accept in operators inside brackets', 'C19', 'in was rejected inside brackets in a for head', acc('for (var x = (a in b); ;);', 'for (x = [a in b]; ;);', 'for (x = { a: b in c }; ;);', 'for (x = `${a in b}`; ;);', 'for (x = function (a = b in c) {}; ;);')),
 ('fix: let in a for head needs no initializer', 'C11', 'for (let a = 0, b; ;) was rejected', acc('for (let a = 0, b; ;);')),
 ('fix: for-in and for-of need something to assign to', 'C15', 'for (in a) was accepted', rej('for (in a);', 'for (of a);')),
 ('fix: refuse reserved words as labels', 'C18', 'a reserved word was a label', rej('if: a;', 'this: a;')),
 ('fix: refuse reserved words as labels', 'C11', 'a default clause was swallowed as a label', acc('switch (a) { case b: c; default: d; }')),
 ('fix: throw needs an operand on its line and ends with a semicolon', 'C16', 'throw ended without a semicolon and without an operand', rej('throw a b;', 'throw\na;', 'throw\n')),
 ('fix: refuse try without catch and finally', 'C15', 'try {} was accepted', rej('try {}')),
 ('fix: refuse declarations where only a statement may stand', 'C15', 'a declaration was accepted as the body of an if', rej('if (a) function f() {}', 'while (a) class c {}', 'if (a) async function f() {}')),
 ('fix: refuse a comma expression as the default export', 'C15', 'export default a, b was accepted', rej('export default a, b;')),
 ('fix: refuse reserved words as imported names', 'C18', 'reserved words were imported names', rej('import { if } from "m";', 'import { a as if } from "m";')),
 ('fix: accept exported declarations of every kind, with one semicolon', 'C13', 'export function and export class were rejected, export var needed two semicolons', acc('export function f() {}', 'export class c {}', 'export async function f() {}', 'export var a = 1; b;', 'export const a = 1\nb')),
 ('fix: accept of as the name let declares in a for head', 'C18', 'for (let of = 0; ;) was rejected', acc('for (let of = 0; ;);', 'for (let of in a);')),
 ('fix: a statement that ends without a semicolon may be followed by a regular expression', 'C16', 'a regular expression after an inserted semicolon was read as a division', acc('var a\n/b/.c', 'debugger\n/a/.b', 'x = () => {}\n/a/.b', 'do a; while (b) /c/.d', 'import "m"\n/a/.b')),
 ('fix: only a name or a list of parameters may stand before an arrow', 'C15', 'what stands before => was not checked', rej('x = !() => a;', 'a + b => c;', 'x = a.b => c;', 'new (a) => b;', 'f(a) => b;', '(a)(b) => c;', 'async\n(a) => b;', '[a] => b;', '1 => b;') + acc('x = async (a) => b;', 'async => b;', '(a) => b => c;', 'f(a => b, async (c) => d);')),
 ('fix: read a file whose name is not Unicode', 'C23', 'a file whose name is not Unicode was refused',
    [dict(kind='cli', hex='613b613b0a', mode=0)]),
 ('fix: read a long chain of operators in a loop', 'C21', 'a long sum of products overflowed the call stack',
    [dict(kind='deep', pre='x=', open='a*b+', mid='', close='', post='c;', n=20000, program=False)]),
 ('fix: read a long chain of operators in a loop', 'C23', 'a long sum of products ended the program by a signal',
    [dict(kind='deep', pre='x=', open='a*b+', mid='', close='', post='c;', n=120000, program=True)]),
 ('fix: only a left-hand side expression is assigned to', 'C15', 'a + b = c and for (a + b of c); were accepted',
    rej('a + b = c;', 'a++ = b;', '-a = b;', 'a || b += c;', 'x = y, a + b = c;', 'for (a + b of c);', 'for (a, b in c);', 'for (a = b of c);') + acc('(a) = b;', 'a.b = c = d;', 'a[0] += b => c = d;', 'for (a.b of c);', 'for ((a) in b);', 'for (a + b;;);', 'x ? y = 1 : z = 2;', '[a, b] = [b, a];', '({a, b} = c);')),
 ('fix: a unary expression is not the base of **', 'C15', '-a ** b was accepted',
    rej('-a ** b;', 'typeof a ** b;', 'a ** -b ** c;', 'a * -b ** c;', 'async function f() { await a ** b; }') + acc('(-a) ** b;', '++a ** b;', 'a-- ** -b;', 'a ** b ** c;', '-(a ** b);', 'a * b ** c;')),
 ('fix: a tokenizer can be cloned', 'C25', 'copying a tokenizer failed',
    [dict(kind='series', texts=[['a b', 2]], ops=[[1, 0, 0], [2, 0, 0], [3, 0, 0], [2, 0, 0], [2, 1, 0]], times=1)]),
]
byid = {}
lines = ['# fixed: defects repaired in /repo; their inputs are in regressions/ and nothing is suppressed for them.',
         '# finding: defects not repaired; the check prints KNOWN-FINDING for exactly the case given.']
for subj, pid, what, cases in TABLE:
    lines.append('fixed: property=%s %s %s' % (pid, COMMITS[subj], what))
    byid.setdefault(pid, []).extend(cases)
used = {t[0] for t in TABLE}
for s in COMMITS:
    if s.startswith('fix:') and s not in used: print('no entry for', s)
open(ROOT + '/known_findings.txt', 'w').write('\n'.join(lines) + '\n' + ''.join(KEEP))
os.makedirs(ROOT + '/regressions', exist_ok=True)
for pid, cs in byid.items():
    with open('%s/regressions/%s.jsonl' % (ROOT, pid), 'w') as f:
        for c in cs: f.write(json.dumps(c) + '\n')
