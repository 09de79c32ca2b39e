//! Programs put together from a payload and the constructs around it. Every construct is a text
//! with one hole; the reference parser says whether the whole is a program and what it means.
use model::harness::Case;
use model::rng::Rng;

/// Expressions around an expression.
const EE: [&str; 60] = [
    "(@)", "((@))", "[@]", "[a, @]", "[, @, ]", "[...@]", "f(@)", "f(a, @)", "f(...@)", "new f(@)", "new (@)", "new (@)()", "new a[@]", "a[@]",
    "a[@].b", "(@).b", "(@)(b)", "(@)[b]", "({ p: @ })", "({ p: a, q: @, })", "({ 0: @ })", "({ 'p': @ })", "(@) ? b : c", "a ? @ : b", "a ? b : @",
    "a ? b : c ? d : @", "a = @", "a += @", "a = b = @", "a.b >>>= @", "[a] = @", "({ a } = @)", "[a[@]] = b", "({ p: a[@] } = b)", "[...a[@]] = b", "a || (@)",
    "(@) || b", "a + (@)", "(@) - b", "a * b + (@)", "a < b == (@)", "(@) in b", "b in (@)", "a, @", "(a, @)", "(@), b", "!(@)", "-(@)", "typeof (@)",
    "void (@)", "delete (@)", "++a[@]", "a[@]--", "new new a(@)()", "f()[@] = b", "(a[@]) = b", "[[@]]", "(a = @)", "f(a, ...b, @)", "{ p: @ }.q",
];

/// Expressions around a statement.
const ES: [&str; 20] = [
    "function () { @ }", "(function () { @ })", "(function g() { @ })", "(function (x, ...y) { @ })", "(function* () { @ })", "(function () { 'use strict'; @ })",
    "({ get p() { @ } })", "({ set p(v) { @ } })", "({ p() { @ } })", "({ *p() { @ } })", "({ get p() { 'use strict'; @ } })", "({ p: function () { @ } })",
    "({ get p() { return a }, set p(v) { @ } })", "({ get 'p'() { @ } })", "({ set 0(v) { @ } })", "({ get() { @ } })", "({ a, p() { @ }, b })",
    "(function () { @ })()", "(function () { 'a'; 'b'\n@ })", "f(function () { @ })",
];

/// Statements around an expression.
const SE: [&str; 68] = [
    "@;", "@\n", "a; @", "(@);", "var a = @;", "var a = @, b;", "var a, b = @\n", "let a = @;", "const a = @;", "let a = @, b = c\n", "if (@) b;", "if (a) @; else b",
    "if (a) b; else @", "while (@) b;", "do a; while (@)", "do @; while (a)", "do { @ } while (a) b", "for (@;;) b;", "for (;@;) b;", "for (;;@) b;",
    "for (var a = @;;) b;", "for (var a, b = @;;) c;", "for (let a = @;;) b;", "for (const a = @;;) b;", "for (var a = @ in b) c;", "for (a in @) b;",
    "for (a of @) b;", "for (var a in @) b;", "for (var a of @) b;", "for (let a in @) b;", "for (let a of @) b;", "for (const a in @) b;", "for (const a of @) b;",
    "for (a[@] in b) c;", "for (a[@] of b) c;", "for ([a[@]] in b) c;", "for ((a[@]) in b) c;", "for (@ in a) b;", "for (@ of a) b;", "for (var a = (@) in b) c;",
    "for (a = (@);;) b;", "for (a in b) @;", "for (;;) @", "with (@) b;", "with (a) @;", "switch (@) { case a: b }", "switch (a) { case @: b }",
    "switch (a) { case b: case @: }", "switch (a) { default: @ }", "switch (a) { case b: @\ncase c: @ }", "throw @;", "throw @\n", "return @;", "return @\n",
    "function f() { return @ }", "l: @;", "{ @ }", "{ @; b }", "try { @ } catch (e) { b }", "try { a } catch (e) { @ }", "try { a } finally { @ }",
    "a\n@", "@\n(b)", "@\n++\nb", "@ /* c\n */ b", "while (a) @", "'s'; @", "@\n/b/g",
];

/// Statements around a statement.
const SS: [&str; 64] = [
    "{ @ }", "{ a; @ }", "{ @ b }", "{ a\n@\nb }", "a; @", "@ b", "@\nb", "if (a) @", "if (a) { @ } else b", "if (a) b; else @", "if (a) b; else if (c) @", "if (a) @ else b",
    "while (a) @", "while (a) { @ }", "do @ while (a)", "do { @ } while (a)", "do { @ } while (a); b", "do { @ } while (a) b", "for (;;) @", "for (;;) { @ }", "for (a in b) @",
    "for (var a in b) { @ }", "for (a of b) @", "for (let a of b) { @ }", "for (const a in b) { @ }", "for (var a = 1;;) { @ }", "with (a) @", "with (a) { @ }",
    "switch (a) { case b: @ }", "switch (a) { case b: @ case c: }", "switch (a) { default: @ }", "switch (a) { case b: default: @ case c: d }",
    "switch (a) { case b: break; case c: @ break; }", "try { @ } catch (e) { }", "try { } catch (e) { @ }", "try { } finally { @ }", "try { @ } finally { }",
    "try { } catch (e) { @ } finally { a }", "l: @", "m: @", "l: m: @", "l: { @ }", "l: while (a) { @ }", "l: m: for (;;) { @ }", "l: switch (a) { case b: @ }",
    "n: { l: { @ } }", "l: ; @", "l: while (a) { } @", "function f() { @ }", "function f(a, b) { @ }", "function* f() { @ }", "function f() { 'use strict'; @ }",
    "function f() { a; @ }", "function f() { function g() { } @ }", "function f() { } @", "while (a) { } @", "switch (a) { } @", "'use strict'; @", "'a'; @", "; @",
    "while (a) b; @", "if (a) b; @", "do { } while (a) @", "try { } finally { } @",
];

const PE: [&str; 97] = [
    "a", "b in c", "(b in c)", "a = b in c", "a in b in c", "a ? b in c : d", "a ? b : c in d", "a, b in c", "!a in b", "[a in b]", "f(a in b)", "a[b in c]", "function () { a in b }",
    "function () { return a in b }", "function () { for (a in b) c }", "function () { var x = a in b }", "({ p: a in b })", "({ p() { a in b } })", "a instanceof b", "a || b && c | d ^ e & f == g < h << i + j * k",
    "a * b + c << d < e == f & g ^ h | i && j || k", "a - b - c", "a / b * c % d", "a < b > c", "a = b = c", "a = b += c", "a ? b : c", "a ? b ? c : d : e", "a ? b : c ? d : e", "a, b, c",
    "a.b.c", "a.if", "a()()", "a[b][c]", "new a", "new a()", "new a.b()", "new a()()", "new new a", "new new a()()", "new (a())()", "new a[b]", "new.target", "function () { new.target }",
    "function () { return new.target.a }", "-a", "- -a", "+ ++a", "a++ + ++b", "a\n++\nb", "a\n++b", "a--\n- b", "typeof typeof a", "delete a.b", "delete a", "void 0", "/r/g", "a / b / c", "a++ / b", "a\n/b/g",
    "(a) / b", "[/r/]", "({}) / a", "function () { } / a", "this", "null", "true", "1", "1.5e3", "0x1F", "'s'", "'use strict'", "eval", "arguments", "eval = 1", "arguments++", "yield", "await", "let",
    "static", "package", "of", "get", "async", "[a, b] = c", "[a, ...b] = c", "({ a, p: b } = c)", "[a.b, c[d]] = e", "({ get a() { }, set a(b) { } })", "({ if: 1, 'x': 2, 3: 4 })", "({ get: 1, set: 2 })",
    "({ *g() { } })", "[, a, , ]", "{ a }", "a =", "1 = a", "a + b = c",
];

const PS: [&str; 98] = [
    ";", "a;", "a\n", "break;", "continue;", "break\n", "continue\n", "break l;", "continue l;", "break m;", "continue m;", "break\nl", "return;", "return a;", "return\na", "return", "with (a) b;",
    "var a;", "var eval;", "var let;", "var yield;", "let yield;", "var await;", "var public;", "let a;", "const a = 1;", "const a;", "var a = b in c;", "let a = b in c;", "const a = b in c;", "let\na", "let [a", "function f() { }",
    "function* f() { }", "function eval() { }", "function f(eval) { }", "function f() { break }", "function f() { continue l }", "function f() { l: ; break l }", "function f() { return }", "function f() { 'use strict'; with (a) b }",
    "function f() { with (a) b }", "function yield() { }", "function f(package) { }", "function f(a, ...b) { }", "function f() { 'use strict' } with (a) b", "'use strict'; with (a) b", "'use strict'", "'use strict'\n'a'", "'use module';", "('use strict'); with (a) b",
    "if (a) function f() { }", "if (a) b; else c", "if (a) if (b) c; else d", "if (a) var b; else let\nc", "for (;;) break;", "for (a in b) continue;", "for (var a = 1 in b) break;", "for (let a of b) { continue }", "for (let of a) b;", "for (let in a) b;",
    "for (var i = (a in b);;) c;", "for (var i = a in b;;) c;", "for (let a = 1 of b) c;", "for (var a, b in c) d;", "while (a) break;", "do a; while (b) c", "do continue; while (a)", "do ; while (a) break", "switch (a) { case b: break; default: c }", "switch (a) { case b: continue }",
    "switch (a) { default: default: }", "switch (a) { default: switch (b) { default: } }", "switch (a) { case b: let c; case d: }", "l: a;", "l: while (a) continue l;", "l: while (a) break l;", "l: { continue l }", "l: { break l }", "l: l: a;", "l: m: while (a) continue l;", "m: while (a) { l: while (b) continue m }",
    "l: function f() { }", "yield: a;", "await: a;", "let: a;", "throw a;", "throw\na", "try { } catch (e) { }", "try { } catch (arguments) { }", "try { } catch (e) { } finally { }", "try { }", "try { break } finally { continue }", "debugger;", "debugger", "a\n++b", "{ a }",
    "/r/g.test(a)",
];

fn fill(ctx: &str, x: &str) -> String {
    ctx.replace("@", x)
}

fn one<'a>(r: &mut Rng, l: &[&'a str]) -> &'a str {
    l[r.below(l.len())]
}

/// A program of random constructs around a random payload.
pub fn composed(r: &mut Rng, deep: bool) -> String {
    let n = r.range(1, if deep { 8 } else { 5 });
    let mut t;
    let mut stmt = r.chance(1, 2);
    if stmt {
        t = one(r, &PS).to_string();
    } else {
        t = one(r, &PE).to_string();
    }
    // statements stay statements more often than not
    let funs = r.chance(1, 2);
    for _ in 0..n {
        if t.len() > 4000 {
            break;
        }
        let c = if stmt {
            if r.chance(if funs { 1 } else { 0 }, 3) {
                stmt = false;
                one(r, &ES)
            } else {
                one(r, &SS)
            }
        } else if r.chance(1, 3) {
            stmt = true;
            one(r, &SE)
        } else {
            one(r, &EE)
        };
        t = fill(c, &t);
    }
    if !stmt {
        t = fill(one(r, &SE), &t);
    }
    if r.chance(1, 6) {
        t = format!("{}{}{}", composed(r, false), r.pick(&["\n", ";", " ", "\n;"]), t);
    }
    t
}

/// Every payload in every construct, and in two constructs (one in `step` of those).
pub fn composed_cases(modes: &str, step: usize) -> Vec<Case> {
    let m: Vec<&str> = modes.split(' ').collect();
    let mut out = vec![];
    let mut k = 0;
    let mut n = 0;
    let mut add = |out: &mut Vec<Case>, t: String, always: bool| {
        k += 1;
        if always || k % step == 0 {
            n += 1;
            out.push(Case::new(m[n % m.len()], t));
        }
    };
    for p in PE.iter() {
        for c in SE.iter() {
            add(&mut out, fill(c, p), true);
            for d in SS.iter() {
                add(&mut out, fill(d, &fill(c, p)), false);
            }
        }
        for c in EE.iter() {
            let e = fill(c, p);
            add(&mut out, fill("@;", &e), true);
            for d in SE.iter() {
                add(&mut out, fill(d, &e), false);
            }
        }
    }
    for p in PS.iter() {
        for c in SS.iter() {
            add(&mut out, fill(c, p), true);
            for d in SS.iter() {
                add(&mut out, fill(d, &fill(c, p)), false);
            }
        }
        for c in ES.iter() {
            let e = fill(c, p);
            add(&mut out, fill("x = @;", &e), true);
            for d in SE.iter() {
                add(&mut out, fill(d, &e), false);
            }
        }
    }
    // a statement in a function in the head of a statement, and the payload after it
    for c in ES.iter() {
        for d in SE.iter() {
            for p in PS.iter() {
                add(&mut out, format!("{} {}", fill(d, &fill(c, ";")), p), false);
            }
        }
    }
    out
}
