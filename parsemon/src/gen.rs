//! Generators and fixed corpora of the parser monitors.
use model::genlex;
use model::genprog::{self, Cfg, PLAIN};
use model::harness::Case;
use model::rng::Rng;

pub fn vary(r: &mut Rng, c: &mut Cfg, deep: bool) {
    c.size = r.range(1, if deep { 10 } else { 6 });
    c.depth = r.range(1, if deep { 8 } else { 5 });
    if r.chance(1, 3) {
        c.semi = r.range(0, 100);
    }
    if r.chance(1, 4) {
        c.nl = r.range(0, 60);
    }
    if r.chance(1, 4) {
        c.trivia = r.range(0, 50);
    }
    if r.chance(1, 4) {
        c.parens = r.range(0, 40);
    }
    if r.chance(1, 4) {
        c.lits = r.range(0, 60);
    }
    if r.chance(1, 5) {
        c.words = r.range(0, 40);
    }
    match r.below(8) {
        0 => c.jumps = 8,
        1 => c.funs = 10,
        2 => c.exprs = 14,
        _ => {}
    }
}

pub fn cfg(r: &mut Rng, deep: bool) -> Cfg {
    let mut c = PLAIN.clone();
    vary(r, &mut c, deep);
    c
}

pub fn program(r: &mut Rng, deep: bool) -> String {
    let c = cfg(r, deep);
    genprog::program(r, &c)
}

pub fn mutant(r: &mut Rng, c: &Cfg) -> String {
    let mut t = genprog::tokens(r, c);
    let n = 1 + r.below(2);
    genprog::mutate(r, &mut t, n);
    genprog::layout(r, c, &t)
}

/// A sequence of a few tokens that need not be anything.
pub fn salad(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let t: Vec<String> = (0..n)
        .map(|_| if r.chance(2, 3) { SMALL[r.below(SMALL.len())].to_string() } else { genprog::any_token(r) })
        .collect();
    let mut c = PLAIN.clone();
    c.nl = r.pick(&["0", "10", "40"]).parse().unwrap();
    c.trivia = 0;
    genprog::layout(r, &c, &t)
}

pub const SMALL: [&str; 62] = [
    "a", "b", "1", "'s'", "/r/g", "(", ")", "{", "}", "[", "]", ";", ",", ":", "?", "=", "+=", "+", "-", "++", "--",
    "*", "/", "<", "!", "&&", ".", "...", "if", "else", "for", "in", "of", "let", "const", "var", "while", "do",
    "function", "return", "break", "continue", "switch", "case", "default", "try", "catch", "finally", "throw", "new",
    "this", "typeof", "delete", "with", "yield", "get", "set", "\n", "debugger", "null", "'use strict'", "instanceof",
];

/// Every sequence of up to three of these.
const TINY: [&str; 34] = [
    "a", "1", "'s'", "/r/", "(", ")", "{", "}", "[", "]", ";", ",", ":", "?", "=", "+", "++", "*", "/", "!", ".", "...",
    "if", "in", "let", "var", "function", "return", "new", "this", "typeof", "yield", "get", "\n",
];

pub fn short(mode: &str) -> Vec<Case> {
    let mut out = vec![];
    let mut o = |t: &[&str]| {
        for m in mode.split(' ') {
            out.push(Case::new(m, t.join(" ")));
        }
    };
    o(&[]);
    for a in TINY.iter() {
        o(&[a]);
        for b in TINY.iter() {
            o(&[a, b]);
            for c in TINY.iter() {
                o(&[a, b, c]);
            }
        }
    }
    out
}

pub const BINOPS: [&str; 23] = [
    "||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "<<", ">>", ">>>",
    "+", "-", "*", "/", "%",
];

pub const UNOPS: [&str; 9] = ["-", "+", "!", "~", "typeof ", "void ", "delete ", "++", "--"];

pub const ASSOPS: [&str; 12] = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];

/// One or more programs for every production, plus the interactions that have to be right.
pub const CORPUS: &str = r#####"
a.__proto__.constructor.prototype = { __proto__: b, 'constructor': c, prototype() { }, get length() { }, "__proto__": d, toString: e }
__proto__: for (var constructor in undefined) { NaN(Infinity, valueOf = exports); break __proto__ }
function __proto__(constructor, ...prototype) { "use asm"; return new require.then(hasOwnProperty) }
;
{}
{;}
{ a; { b } c }
var a
var a, b = 1, c;
var a = 1, b = a, c = b
let a; let b = 1, c
let
let;
let = 1
let + 1
let.x = 1
let (1)
x = let
const a = 1;
const a = 1, b = 2
a
a, b, c
(a, b), c
if (a) b; else c
if (a) if (b) c; else d
if (a) { } else if (b) ; else { }
if (a); else b
do a; while (b)
do a; while (b) c
do { } while (b); c
do ; while (0) ; ;
do do a; while (b) while (c) d
while (a) b
while (a) { break; continue }
for (;;) ;
for (;;) { break }
for (a;;) ;
for (;b;) ;
for (;;c) ;
for (a; b; c) d
for (a, b; c, d; e, f) ;
for (var a;;) ;
for (var a = 1, b;;) ;
for (var a, b = 2; a; b) ;
for (let a;;) ;
for (let a = 1, b = 2; ; ) ;
for (let;;) ;
for (let = 1;;) ;
for (let, a;;) ;
for (let.x;;) ;
for (let[0];;) ;
for (const a = 1;;) ;
for (const a = 1, b = 2; a; b) ;
for (var a in b) ;
for (var a in b, c) ;
for (var a = 1 in b) ;
for (var a = (1 in b);;) ;
for (var a = [1 in b];;) ;
for (var a = f(1 in b);;) ;
for (var a = b[1 in c];;) ;
for (var a = b ? 1 in c : d;;) ;
for (var a = function () { 1 in b };;) ;
for (var a = { b: 1 in c };;) ;
for (let a in b) ;
for (const a in b) ;
for (a in b) ;
for (a.b in c) ;
for (a[b in c] in d) ;
for ((a in b);;) ;
for ((a) in b) ;
for ((a.b) in c) ;
for ([a, b] in c) ;
for ({ a, b: c } in d) ;
for ([a, b];;) ;
for ({ a: b };;) ;
for (let in a) ;
for (let in a, b) ;
for (var a of b) ;
for (let a of b) ;
for (const a of b) ;
for (a of b) ;
for (a.b of c) ;
for ([a, ...b] of c) ;
for ({ a } of b) ;
for (of of of) ;
for (var of of of) ;
for (let of of of) ;
for (let of;;) ;
for (let of in a) ;
for (var of;;) ;
for (of;;) ;
for (of in a) ;
for (var let of a) ;
for (a of b = c) ;
for (new a in b;;) ;
for (let / 1;;) ;
for (a() in b) ;
for (a = 1 in b) ;
for (var a, b in c) ;
for (var a, b of c) ;
for (let a, b of c) ;
for (let a = 1 of b) ;
for (let a = 1 in b) ;
for (const a;;) ;
for (a of b, c) ;
for (let of a) ;
for (let.a of b) ;
for (let().a of b) ;
continue
break
return
a: while (b) { continue a; break a }
a: b: c: for (;;) { continue a; continue b; break c }
a: { break a }
a: { continue a }
a: { while (1) continue a }
a: while (1) { b: { continue a; break b } }
a: a: b
a: { a: b }
a: b; a: c
a: function_ : c
a: (function () { break a })
a: (function () { a: b })
while (1) (function () { break })
while (1) (function () { continue })
switch (a) { case 1: (function () { break }) }
while (1) { ({ get a() { break } }) }
while (1) { ({ a() { continue } }) }
while (1) switch (a) { case 1: break; case 2: continue }
switch (a) { case 1: continue }
switch (a) { }
switch (a) { default: }
switch (a) { case 1: b; case 2: default: c; break; case 3: }
switch (a) { default: default: }
switch (a) { default: case 1: default: }
switch (a) { default: switch (b) { default: } }
switch (a) { case 1: default: case 2: }
switch (a) { case 1, 2: let b; function c() {} }
a: switch (b) { case 1: break a; }
a: switch (b) { case 1: continue a; }
a: for (;;) switch (b) { case 1: continue a; }
break a
a: b; break a
a: while (1) { (function () { continue a }) }
while (1) continue a
function f() { return }
function f() { return a, b }
function f() { return; a }
function f() { return
a }
function f() { { return a } }
function f() { function g() { return } return }
(function () { return })
({ get a() { return 1 } })
({ set a(b) { return } })
({ a() { return 1 } })
return 1
{ return }
if (a) return b
throw a
throw a, b
throw
a
throw;
throw
try { } catch (a) { }
try { } finally { }
try { } catch (a) { } finally { }
try { a } catch (b) { c } finally { d }
try { }
try { } a
try a; catch (b) { }
with (a) b
with (a) { b }
with (a) with (b) c
debugger
debugger;
debugger a
function f() { }
function f(a) { }
function f(a, b) { a; b }
function f(...a) { }
function f(a, ...b) { }
function f(...a, b) { }
function* f() { }
function f() { } function g() { }
function f() { 'use strict' }
function f() { "use strict"; with (a) b }
function f() { 'use strict'; function g() { with (a) b } }
function f() { (function () { 'use strict' }); with (a) b }
function f(eval) { }
function f(arguments) { 'use strict' }
function f(...eval) { 'use strict' }
function f(a, static) { 'use strict' }
function eval() { 'use strict' }
function public(a) { 'use strict' }
(function eval() { 'use strict' })
(function (a, eval) { 'use strict' })
({ set a(eval) { 'use strict' } })
({ eval(a) { 'use strict' } })
({ a(eval) { 'use strict' } })
({ get eval() { 'use strict' } })
function f(eval) { function g() { 'use strict' } }
function f(eval) { 'x'; 'use strict' }
function f(eval) { a; 'use strict' }
function f(await) { 'use strict' }
function eval(eval) { 'use strict'; with (a) b }
if (a) let
if (a) let⏎b
if (a) let b
if (a) let = b
while (a) let⏎{ }
do let⏎while (a)
a: let⏎b
if (a) let [b] = c
if (a) let.b; else let(c)
'use strict'; function f(eval) { }
'use strict'; function eval() { }
'use strict'; (function arguments() { })
'use strict'; var eval
'use strict'; let eval
'use strict'; const arguments = 1
'use strict'; try { } catch (eval) { }
'use strict'; ({ set a(eval) { } })
'use strict'; var public
'use strict'; static
'use strict'; yield
'use strict'; ({ yield })
'use strict'; ({ yield: 1 }).yield
'use strict'; ({ package() { } })
'use strict'; yield: a
'use strict'; let: a
'use strict'; with (a) b
'use strict'; function f() { with (a) b }
'use strict'; await
'use strict'; ({ get a() { with (b) c } })
'use strict'; for (var let in a) ;
'use strict'; for (eval in a) ;
'use strict'; for (let yield of a) ;
"use\u0020strict"; with (a) b
'use strict' + 1; with (a) b
'use strict'.x; with (a) b
('use strict'); with (a) b
'use strict', a; with (b) c
'a'; 'use strict'; with (a) b
'a'; b; 'use strict'; with (a) b
; 'use strict'; with (a) b
'use strict'
with (a) b
"use strict"; with (a) b
"use strict
'use strict' in a; with (b) c
'use strict'
+ 1; with (a) b
'use strict' /* */ ; with (a) b
'use strict'; 'use strict'; a
'use module'
'use module'; a
'use module'; with (a) b
'use module'; await
'a'; 'use module'; b
a; 'use module'; with (b) c
{ 'use strict' } with (a) b
{ 'use module' } with (a) b
function f() { 'use module' } with (a) b
function f() { 'use module'; with (a) b }
var await
await
await: a
function await() { }
(function await() { })
function f(await) { }
a.await
({ await: 1 })
({ await })
eval = 1
arguments++
var eval, arguments
function eval(arguments) { }
implements + interface + package + private + protected + public + static + yield + let
yield
yield: a
var yield, let_, static
function yield() { }
function* g() { var a; return a }
function* g() { function yield_() { } }
this
null
true
false
1
.5
0x10
010
1e3
'a\
b'
/a/
/a/gi
/[/]/
a / b / c
a = /b/ / c
(a) / b
a++ / b
a++
/b/g
{ } /a/
if (a) /b/
[] / 1
({}) / 1
this / 1
x = function () { } / 1
function f() { } /a/
return_ / 1
typeof /a/
a = b
/c/g
let / 1
yield / 1
do /a/; while (0)
a ? /b/ : /c/
a, /b/
!/a/
[/a/]
{ /a/ }
( /a/ )
a(/b/)
a[/b/]
(((a)))
(a, b)
()
(a
(a,)
(,)
[]
[,]
[,,]
[a]
[a,]
[a,,]
[a,,b]
[,a]
[...a]
[...a,]
[...a, ...b]
[a, ...b, c]
[... a, , b]
[(a, b)]
[a = b]
{}
({})
({ a: b })
({ a: b, })
({ a: b, c: d })
({ 'a': b, 1: c, .5: d, 0x10: e })
({ a })
({ a, b, })
({ a, b: c, d })
({ get })
({ set })
({ get: 1, set: 2 })
({ get a() { } })
({ set a(b) { } })
({ get get() { } })
({ set set(set) { } })
({ get 'a'() { }, get 1() { }, set 'a'(b) { }, set 1(b) { } })
({ get if() { }, set else(a) { } })
({ get() { } })
({ set() { } })
({ set(a, b) { } })
({ get a(b) { } })
({ set a() { } })
({ set a(b, c) { } })
({ get a: b })
({ a() { } })
({ a(b, c) { return b } })
({ 'a'() { }, 1() { }, if() { } })
({ *a() { } })
({ *get() { }, *set() { }, *if() { }, *'a'() { }, *1() { } })
({ * })
({ *a })
({ *a: b })
({ if })
({ if: 1, class: 2, null: 3, true: 4 })
({ 'a' })
({ 1 })
({ ,})
({ a b })
({ yield, await, let, static })
({ async: 1, of: 2, async() { } })
({ a: b = c })
({ a: (b, c) })
({ a: function () { } })
(function () { })
(function a() { })
(function* () { })
(function* a() { })
(function (a, b, ...c) { a })
(function () { 'use strict'; })
(function yield() { })
x = function () { }
function () { }
function a
function a(
function a()
function a() {
function (a) { }
new a
new a()
new a(b)
new a.b
new a.b()
new a.b.c(d).e
new a[b]
new a[b]()
new (a())()
new (a().b)
new a()()
new a().b
new new a
new new a()
new new a()()
new new a.b(c)(d)
new new new a
new a(...b)
new this
new function () { }
new (function () { })
new [a]
new {}
new 'a'
new /a/
new
new.target
function f() { new.target }
function f() { new.target() }
function f() { new new.target }
function f() { new new.target() }
function f() { new.target.a }
function f() { new.target = 1 }
function f() { new.a }
function f() { new.target++ }
a()
a(b)
a(b, c)
a(...b)
a(b, ...c, d)
a(,)
a(b,,c)
a(b c)
a()()
a().b
a()[b]
a.b
a.b.c
a.if
a.null.true.class
a.1
a. b
a
.b
a.'b'
a[b]
a[b][c]
a[b, c]
a[]
a.b[c](d).e
(a.b).c
(a)(b)
(a)[b]
'a'.b
1..a
1.0.a
/a/.b
[].a
({}).a
this.a
(function () { }).a
(function () { })()
a++
a--
++a
--a
a.b++
a[b]--
++a.b
--a[b]
(a)++
++(a)
++(a.b)
a++ ++
++a++
++ ++a
a()++
++a()
1++
++1
a
++b
a
++
b
a
--
b
a++
b
- -a
+ +a
- --a
+ ++a
!~-+a
typeof void delete a
typeof a.b
delete a.b
delete a
void 0
-a.b
-a++
!a()
-a * b
a - -b
a + +b
a+ ++b
a++ +b
a = b = c
a = b += c
a.b = c
a[b] = c
(a) = b
(a.b) = c
a() = b
1 = a
a + b = c
-a = b
a++ = b
a = b ? c : d = e
a ? b = c : d = e
a ? b : c = d
(a ? b : c) = d
a || b = c
this = a
(a, b) = c
(a = b) = c
new a = b
new a.b = c
[a] = b
[a, b] = c
[a,,b] = c
[,] = a
[] = a
[a, ...b] = c
[...a] = b
[...[a]] = b
[...a.b] = c
[...a, b] = c
[...a,] = b
[...a()] = b
[...(a)] = b
[[a]] = b
[{ a }] = b
[a.b] = c
[a[b]] = c
[(a)] = b
[(a.b)] = c
[a()] = b
[1] = a
[a + b] = c
[this] = a
([a]) = b
[([a])] = b
[({ a })] = b
({ a }) = b
({ a: b }) = c
({ a } = b)
({ a: b } = c)
({ a: b.c } = d)
({ a: [b] } = c)
({ a: { b } } = c)
({ a: { b: [c, { d }] } } = e)
({} = a)
({ 'a': b, 1: c } = d)
({ a: (b) } = c)
({ a: ({ b }) } = c)
({ a: b() } = c)
({ a: 1 } = b)
({ get a() { } } = b)
({ set a(b) { } } = c)
({ a() { } } = b)
({ *a() { } } = b)
({ a, b: c, d } = e)
[a] += b
({ a }) += b
[a]++
({ a })++
++[a]
[a] = [b] = c
a = [b] = c
a ? b : c
a ? b : c ? d : e
a ? b ? c : d : e
a ? b, c : d
a ? (b, c) : d
a ? b
a ? b :
a || b ? c : d
a ? b : c, d
a in b
a instanceof b
a in b in c
!a in b
(!a) in b
a < b < c
a == b == c
a - b - c
a * b / c % d
a + b * c
a * b + c
(a + b) * c
a << b + c
a < b << c
a == b < c
a & b == c
a ^ b & c
a | b ^ c
a && b | c
a || b && c
a || b || c
a && b && c
a || b && c || d
a && b || c && d
a + b + c * d * e - f
a ** b
a => b
() => a
a <!-- b
a --> b
--> a
a
--> b
/* */ --> a
/*
*/ --> a
a b
a 1
1 a
'a' b
a 'b'
a; b
a
b
a
(b)
a
[b]
a
+ b
a
/b/g
a
`b`
var a
b
var a = 1
var b
var a
= 1
var a
, b
{ a
b }
{ a }
{ a b }
a }
}
)
]
a)
if (a
if a
if (a) else b
else
if (a) let
if (a) let b
if (a) const b = 1
if (a) function f() { }
while (a) function f() { }
a: function f() { }
while (a) let
b
var
var 1
var a b
var a,
var if
let a = ;
let 1
const a
const
const a, b = 1
if
while
for
for (
for (a
for (a;
for (a; b
for (a; b;
for (a; b; c
for (a; b; c)
for (a) b
for a
do
do a
do a while (b)
do a; while b
do a; while (b
while (a
switch
switch (a)
switch (a) {
switch (a) { b }
switch (a) { case }
switch (a) { case b }
switch (a) { case b: c
switch (a) { default }
switch a { }
with
with (a)
with a
try
try {
try { } catch
try { } catch (
try { } catch (a)
try { } catch (1) { }
try { } catch (a, b) { }
try { } finally
function
function 1() { }
function a(1) { }
function a(b c) { }
function a(b,) { }
function a(, b) { }
function a(...) { }
function a(...b, c) { }
function if() { }
break if
a.
a[
a[b
a(
a(b
a(b,
a +
a ? b :
a =
new.
!
++
[
[a
{
{ a
({
({ a
({ a:
({ a: b
({ a: b,
({ get
({ get a
({ get a(
({ get a()
class A { }
import a
import 'a'
export a
export default a
export var a
a; import 'b'
a; export var b
import
export
enum
enum = 1
class
super
super()
extends
case 1:
default:
in
instanceof
of
of = 1
get
set
get = set
async
async = 1
target
from
static = 1
"#####;

pub fn corpus() -> Vec<String> {
    // A line that cannot end a program joins the next ones; each program is also tried with
    // its successor so that every multi-line case occurs.
    let text: Vec<String> = CORPUS.trim().split('\n').map(|l| l.replace("⏎", "\n")).collect();
    let lines: Vec<&str> = text.iter().map(|l| l.as_str()).collect();
    let mut out: Vec<String> = lines.iter().map(|l| l.to_string()).collect();
    for l in lines.iter() {
        out.extend(uncooked(l));
    }
    for w in lines.windows(2) {
        out.push(w.join("\n"));
    }
    for w in lines.windows(3) {
        if w.iter().all(|l| l.len() < 12) {
            out.push(w.join("\n"));
        }
    }
    for a in BINOPS.iter() {
        for b in BINOPS.iter() {
            out.push(format!("x {} y {} z", a, b));
        }
        for u in UNOPS.iter() {
            out.push(format!("{} x {} {} y", u, a, u));
        }
        out.push(format!("x {} y++", a));
        out.push(format!("x {} y ? z : w", a));
        out.push(format!("w ? y {} z : x {} y", a, a));
        out.push(format!("w = x {} y", a));
        out.push(format!("w(x {} y, x {} y)[x {} y]", a, a, a));
        out.push(format!("for (var a = x {} y;;) ;", a));
        out.push(format!("for (x {} y;;) ;", a));
        out.push(format!("for (;x {} y;x {} y) ;", a, a));
        out.push(format!("x {} y = z", a));
    }
    for u in UNOPS.iter() {
        for v in UNOPS.iter() {
            out.push(format!("{} {} x", u, v));
        }
        out.push(format!("{}x.y(z)", u));
        out.push(format!("{}x\n{}y", u, u));
    }
    for a in ASSOPS.iter() {
        for l in ["x", "x.y", "x[y]", "(x)", "x()", "[x]", "({x})", "-x", "1", "x++", "this", "x, y", "new x", "x ? y : z"].iter() {
            out.push(format!("{} {} w", l, a));
        }
        for b in ASSOPS.iter() {
            out.push(format!("x {} y {} z", a, b));
        }
        out.push(format!("for (x {} y;;) ;", a));
        out.push(format!("x {} y, z", a));
        out.push(format!("x {} y ? z : w", a));
    }
    out
}

/// The word with its `k`th letter written as an escape.
pub fn uncook(w: &str, k: usize) -> String {
    let braces = (w.len() + k) % 2 == 0;
    w.chars()
        .enumerate()
        .map(|(i, c)| match c {
            c if i != k % w.len() => c.to_string(),
            c if braces => format!("\\u{{{:x}}}", c as u32),
            c => format!("\\u{:04X}", c as u32),
        })
        .collect()
}

/// The program with one of its contextual words written with an escape, for every such word.
pub fn uncooked(l: &str) -> Vec<String> {
    let toks = crate::edits::cut(l);
    (0..toks.len())
        .filter(|&i| model::lex::CONTEXTUAL.contains(&toks[i].as_str()) || toks[i] == "target")
        .map(|i| {
            let mut t = toks.clone();
            t[i] = uncook(&toks[i], i);
            crate::edits::join(&t)
        })
        .collect()
}

pub fn corpus_cases(modes: &str) -> Vec<Case> {
    let mut out = vec![];
    for t in corpus() {
        for m in modes.split(' ') {
            out.push(Case::new(m, t.as_str()));
        }
    }
    out
}

/// Statements, each without its end.
pub const OPEN: [&str; 20] = [
    "a", "var a", "var a = 1", "let a", "const a = 1", "throw a", "debugger", "do a; while (b)", "a++", "++a", "a = b",
    "'s'", "'use strict'", "while (1) break", "while (1) continue", "l: while (1) break l", "function f() { return",
    "function f() { return a", "a()", "/r/",
];

/// What may come between two statements.
pub const BETWEEN: [&str; 18] = [
    "", " ", ";", " ;", "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "/**/", "/*\n*/", "//\n", "\n;", ";\n", "\n\n", "<!--\n",
    "/*\u{2028}*/", "\n--> x\n",
];

pub const NEXT: [&str; 28] = [
    "", "b", "++b", "--b", "+b", "/b/g", "/b", "(b)", "[b]", "{ b }", "}", "'t'", "1", "if (b) c", "else b", "while (b) c",
    "function g() { }", "var b", "let b", "= b", ", b", ".b", "? b : c", "in b", "of", ": b", "!b", "`",
];

pub fn asi_fixed() -> Vec<Case> {
    let mut out = vec![];
    for a in OPEN.iter() {
        for b in BETWEEN.iter() {
            for c in NEXT.iter() {
                let close = if a.starts_with("function") { "}" } else { "" };
                out.push(Case::new("script", format!("{}{}{}{}", a, b, c, close)));
            }
            for (o, c) in [("{ ", " }"), ("if (x) ", " else y"), ("do ", " while (x)")].iter() {
                let close = if a.starts_with("function") { "}" } else { "" };
                out.push(Case::new("script", format!("{}{}{}{}{}", o, a, close, b, c)));
            }
        }
    }
    out
}

pub const NESTED: [(&str, &str, &str); 47] = [
    ("(", "a", ")"), ("[", "a", "]"), ("{", "a", "}"), ("({a:", "b", "})"), ("a[", "b", "]"), ("a(", "b", ")"),
    ("function f(){", "a", "}"), ("(function(){", "a", "})"), ("if(a)", "b", ""), ("if(a)b;else ", "c", ""),
    ("!", "a", ""), ("-", "a", ""), ("a=", "b", ""), ("a?", "b", ":c"), ("a?b:", "c", ""), ("new ", "a", ""),
    ("new ", "a", "()"), ("a+", "b", ""), ("a&&", "b", ""), ("a||b&&", "c", ""), ("do ", "a", ";while(b)"), ("while(a)", "b", ""),
    ("for(;;)", "b", ""), ("{l:", "b", "}"), ("with(a)", "b", ""), ("switch(a){case ", "b", ":}"), ("switch(a){default:", "b", "}"),
    ("try{", "a", "}finally{}"), ("try{}finally{", "a", "}"), ("[...", "a", "]"), ("f(...", "a", ")"), ("({get a(){", "b", "}})"),
    ("({a(){", "b", "}})"), ("[", "a", "]=b"), ("({a:", "b", "}=c)"), ("typeof ", "a", ""), ("", "a", ".b"), ("", "a", "()"),
    ("", "a", "[b]"), ("", "a", ",b"), ("", "a", "+b*c"), ("(", "a", ")=>"), ("for(a in ", "b", ")c"), ("for(var a of ", "b", ")c"),
    ("(a,", "b", ")"), ("a:", "b", ""), ("x={y:[(", "a", ")]}"),
];

pub fn deep_texts(r: &mut Rng) -> String {
    let n = r.range(2, 400);
    let (a, m, b) = NESTED[r.below(47)];
    let mut k = n;
    if r.chance(1, 5) {
        k = r.below(n + 1);
    }
    let mut t = format!("{}{}{}", a.repeat(n), m, b.repeat(k));
    if r.chance(1, 6) {
        let cut = r.below(t.chars().count() + 1);
        t = t.chars().take(cut).collect();
    }
    t
}

pub fn any_text(r: &mut Rng, deep: bool) -> String {
    match r.below(12) {
        0 => genlex::soup(r, if deep { 200 } else { 40 }),
        1 => genlex::text(r, if deep { 60 } else { 20 }),
        2 => deep_texts(r),
        3 | 4 => salad(r, if deep { 30 } else { 10 }),
        5 | 6 => {
            let p = program(r, deep);
            let n = 1 + r.below(3);
            genlex::mutate(r, &p, n)
        }
        7 => {
            let p = program(r, deep);
            let n = p.chars().count();
            let k = r.below(n + 1);
            p.chars().take(k).collect()
        }
        8 => program(r, deep),
        _ => {
            let c = cfg(r, deep);
            mutant(r, &c)
        }
    }
}

/// Programs in which one list, chain, literal or stretch of layout is long.
/// Open, item, separator, close; `#` is the number of the item.
pub const WIDE: [(&str, &str, &str, &str); 81] = [
    ("[", "a#", ",", "]"), ("[", "", ",", "]"), ("[", "...a#", ", ", "]"), ("f(", "a#", ",", ")"), ("new F(", "#", ",", ")"), ("f(", "...a#", ",", ")"),
    ("({", "a#: b", ",", "})"), ("({", "a#", ",", ",})"), ("({", "get a#() { }", ",", "})"), ("({", "a#() { return # }", ",", "})"),
    ("var ", "a#", ",", ""), ("var ", "a# = #", ", ", ";"), ("let ", "a# = #", "\n,", ";"), ("const ", "a# = #", ",", ";"), ("for (var ", "a#", ",", ";;) ;"),
    ("function f(", "a#", ",", ") { }"), ("(function (", "a#", ",", ", ...r) { })"), ("", "a#;", "", ""), ("", "a#", "\n", ""),
    ("{", "a#", "\n", "}"), ("switch (x) {", "case #:", " ", "}"), ("switch (x) {", "case #: a#; break;", "\n", "default: }"),
    ("switch (x) { default: ", "case #: a#", "\n", "}"), ("", "a#", ", ", ""), ("x = ", "a#", " + ", ""), ("", "a#", " - ", ""), ("", "a#", " * ", ""), ("", "a#", " && ", ""), ("", "a#", " || ", ""),
    ("", "a#", " = ", ""), ("", "a#", " |= ", ""), ("", "a#", " < ", ""), ("", "a#", "+b*", ""), ("", "a#", "*b+", ""), ("", "a#", ".", ""), ("new ", "a#", ".", ""), ("a", "[#]", "", ""), ("a", "(#)", "", ""), ("a", ".b(#)[#]", "", ""),
    ("", "'d#'", ";", ""), ("", "'d#'", "\n", "; a"), ("", "'d#'", ";", ";'use strict'; with (a) b"), ("function f() {", "'d#'", "\n", "}"), ("", "l#:", " ", "while (a) break l0"), ("", "l#:", " ", "while (a) continue l3"),
    ("", "l#: {", " ", "!"), ("", "while (a#)", " ", "break"), ("", "if (a#) b; else ", "", "c"), ("", "if (a#)", " ", "b; else c"), ("", "function f#() { }", "\n", ""), ("", "a# ? b# : ", "", "c"), ("", "a# ? ", "", "!?"),
    ("", "!", "", "a"), ("", "- ", "", "a"), ("", "typeof ", "", "a"), ("", "new ", "", "a"), ("", "new ", "", "a()"), ("", ";", "", ""), ("", "{}", "", ""), ("", "try { } catch (e) { }", "", ""), ("for (a in ", "b#", ",", ") ;"),
    ("[", "a#", ",", "] = b"), ("({", "a#: b#", ",", "} = c)"), ("'", "\\\n", "", "'"), ("'", "\\x41", "", "' + a"), ("/", "a", "", "/g"), ("/[", "/", "", "]/g"), ("a", "x", "", " = 1"), ("", "7", "", ""), ("0.", "3", "", " + b"), ("0x", "f", "", " + b"),
    ("var \\u{", "0", "", "61} = b"), ("a", "/* x */", "", "b;"), ("a", "/*\n*/", "", "b;"), ("a", "// x\n", "", "b;"), ("a", " ", "", "+ b"), ("a", "\n", "", "b"), ("return", "\n", "", ""), ("a", "\r\n", "", "/b/g"), ("/*", "*", "", "*/ a; b"), ("//", "/", "", "\na"),
];

pub fn repeat(n: usize, item: &str, sep: &str) -> String {
    (0..n).map(|i| item.replace("#", &i.to_string())).collect::<Vec<_>>().join(sep)
}

/// What closes such a text: once, and for each item.
pub fn closing<'a>(close: &'a str) -> (&'a str, &'a str) {
    match close {
        "!" => ("break l0; ", "}"),
        "!?" => ("c", " : d"),
        c => (c, ""),
    }
}

pub fn wide_of(n: usize) -> Vec<String> {
    WIDE.iter()
        .map(|&(open, item, sep, close)| {
            let (once, each) = closing(close);
            format!("{}{}{}{}", open, repeat(n, item, sep), once, each.repeat(n))
        })
        .collect()
}

/// The lists among them (nothing in them is nested), much longer.
pub fn flat_of(n: usize) -> Vec<String> {
    let nested = ["l#:", "l#: {", "while (a#)", "if (a#)"];
    WIDE.iter()
        .zip(wide_of(n))
        .filter(|&(&(_, item, sep, _), _)| [",", ", ", "\n,", ";", "\n", " "].contains(&sep) && !nested.contains(&item))
        .map(|x| x.1)
        .collect()
}

pub fn wide_texts() -> Vec<String> {
    let mut out = flat_of(10007);
    for &n in [9, 17, 33, 65, 127, 129, 256, 257, 700, 1030, 2050].iter() {
        out.extend(wide_of(n));
    }
    for &n in [65530, 65537, 70001].iter() {
        for x in [" ", "\n", "\r\n", "\u{2028}", ";", "// x\n", "a\n", "a;"].iter() {
            let t = x.repeat(n);
            out.push(format!("{}a + b;\nc = /d/", t));
            out.push(format!("{}a b", t));
        }
        for (a, x, b) in [("/*", "x", "*/"), ("/*", "\n", "*/"), ("'", "x", "'"), ("a", "x", ""), ("1.", "1", ""), ("0x0", "0", ""), ("/", "x", "/"), ("//", "x", "\n"), ("'", "\\\r\n", "'"), ("[", ",", "]")].iter() {
            out.push(format!("{}{}{}\n+ b; c", a, x.repeat(n), b));
            out.push(format!("{}{}{} break", a, x.repeat(n), b));
        }
    }
    out
}

/// Faults, and what is none, after and inside of much else.
pub fn distant_texts() -> Vec<String> {
    let tails = [
        "break;", "continue;", "return;", "return", "break a;", "continue a;", "a: a: ;", "with (a) b", "var eval;", "let yield", "implements = 1",
        "a b", "(a", "1 = 2", "a++ ++", "for (1 in a) ;", "for (let of a) ;", "'use strict'; with (a) b", "await", "await: ;", "throw\na", "try { }", "var 1", "const a",
        "switch (a) { default: default: }", "function f(eval) { 'use strict' }", "function f() { 'use module' }", "[...a, b] = c", "{", "}",
        "if (a) function f() { }", "if (a) const b = 1", "if (a) let [b", "b", "",
    ];
    let mut out = vec![];
    for &n in [2, 3, 5, 9, 17, 33, 41, 65, 129, 257, 1030].iter() {
        let mut add = |a: &str, x: &str, b: &str| out.push(format!("{}{}{}", a, x.repeat(n), b));
        for t in tails.iter() {
            add("", "a; ", t);
            add("'use strict'; ", "a;\n", t);
            add("", "'x'; ", t);
            add("", "function f() { } ", t);
            add("function f() { ", "a; ", &format!("{} }}", t));
            add("while (b) { ", "c; ", &format!("{} }}", t));
            add("a: { ", "c; ", &format!("{} }}", t));
            add("switch (b) { case c: ", "c; ", &format!("{} }}", t));
            add("a: for (;;) { switch (b) { case c: ", "continue; ", &format!("{} }} }}", t));
            add("with (a) b; ", "var eval; ", t);
        }
        for &(a, x, b) in [
            ("switch (a) { default: ", "case b: c; ", "default: }"), ("switch (a) { ", "case b: c; ", "default: d; default: }"),
            ("switch (a) { ", "case b: c; ", "default: d; case e: break; default: break; }"), ("switch (a) { ", "case b: switch (c) { default: } ", "default: }"),
            ("", "'x'; ", "'use strict'; with (a) b"), ("", "'x'\n", "'use module'\nvar await"), ("'use strict'; ", "'x'; ", "with (a) b"),
            ("function f(a) { ", "'x'; ", "'use strict'; with (a) b }"), ("function eval() { ", "'x'; ", "'use strict' }"),
            ("a: { ", "b; ", "break a; }"), ("a: ; ", "b; ", "break a;"), ("a: { } ", "b: ; ", "a: b: { break a; }"),
            ("function f(", "a, ", "eval) { 'use strict' }"), ("function f(", "a, ", "...eval) { 'use strict' }"), ("function f(", "a, ", "b) { with (c) d }"),
            ("function f(eval, ", "a, ", "b) { 'use strict' }"), ("function f(", "a, ", "yield) { function g() { 'use strict' } }"),
            ("[", "a, ", "1] = b"), ("({ ", "a, ", "b: 1 } = c)"), ("({ ", "a, ", "get b() { } } = c)"), ("[", "...a, ", "b] = c"), ("[", "a, ", "...1] = c"),
            ("f(", "a, ", "b = 1 = 2)"), ("f(", "a, ", "1++)"), ("var ", "a = 1, ", "eval"), ("var ", "a, ", "1"), ("let ", "a, ", "static"), ("const ", "a = 1, ", "b"),
            ("for (var ", "a, ", "b in c) ;"), ("for (let ", "a, ", "b of c) ;"), ("for (const ", "a = 1, ", "b; ;) ;"), ("a", ".b", " = 1"), ("a", ".b", "() = 1"), ("a", "()", "++"),
            ("", "a = ", "1 = 2"), ("", "a += ", "1 = 2"), ("", "a ? b : ", "c = 1"), ("(", "a + ", "b) = 1"), ("", "!", "a = 1"), ("", "- ", "a++"), ("", "new ", "a = 1"), ("", "new ", "a.b = 1"),
            ("a(", "function () { }, ", "function (eval) { 'use strict' })"), ("({ ", "a() { }, ", "b(eval) { 'use strict' } })"), ("({ ", "a: 1, ", "yield })"), ("({ ", "get a() { }, ", "if })"),
        ].iter() {
            add(a, x, b);
        }
        let labels: String = (0..n).map(|i| format!("l{}: ", i)).collect();
        for b in ["for (;;) { continue l0; break l1; }", "{ continue l0 }", "{ break l0 }", "l0: ;", "l1: for (;;) ;", "while (a) { break lx }", "function f() { break l0 }", "do continue l1\nwhile (a)", "; break l0"].iter() {
            out.push(format!("{}{}", labels, b));
        }
        let nested: String = (0..n).map(|i| format!("l{}: {{ ", i)).collect();
        if n < 100 {
            for b in ["break l0;", "continue l1;", "l1: ;", "break lx;", "for (;;) continue l0;", "(function () { break l0 })"].iter() {
                out.push(format!("{}{}{}", nested, b, "}".repeat(n)));
            }
            for &(a, b) in [
                ("{ ", "} "), ("while (b) ", ""), ("if (b) ", ""), ("if (b) ; else ", ""), ("switch (b) { default: ", "} "), ("try { ", "} finally { } "), ("try { } catch (b) { ", "} "),
                ("function f() { ", "} "), ("(function () { ", "}); "), ("({ get b() { ", "} }); "), ("with (b) ", ""), ("for (;;) { ", "} "), ("do ", " while (b); "), ("a(", ")"), ("[", "]"),
            ].iter() {
                for t in tails.iter() {
                    out.push(format!("{}{}{}", a.repeat(n), t, b.repeat(n)));
                    out.push(format!("{}b{}{}", a.repeat(n), b.repeat(n), t));
                }
            }
        }
    }
    out
}

pub fn distant_cases(modes: &str) -> Vec<Case> {
    let m: Vec<&str> = modes.split(' ').collect();
    distant_texts().into_iter().enumerate().map(|(i, t)| Case::new(m[i % m.len()], t)).collect()
}

pub fn wide_cases(modes: &str) -> Vec<Case> {
    let mut out = vec![];
    for (i, t) in wide_texts().into_iter().enumerate() {
        let m: Vec<&str> = modes.split(' ').collect();
        out.push(Case::new(m[i % m.len()], t));
    }
    out
}
