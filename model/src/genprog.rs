//! Generator of programs: token sequences derived from the grammar, then laid out with random
//! trivia. What a generated text means (or whether it is one at all) is for the reference parser
//! to say; the weights make most texts valid ones.
use crate::genlex;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Cfg {
    /// percent of statements ended by a semicolon (else a line break, or nothing)
    pub semi: usize,
    /// percent of gaps with a random line break
    pub nl: usize,
    /// percent of gaps with comments and odd white space
    pub trivia: usize,
    /// percent of names that are contextual words
    pub words: usize,
    /// percent of bodies with a directive prologue
    pub dirs: usize,
    /// percent of jumps, declarations, targets etc. that are chosen without regard to validity
    pub odd: usize,
    /// percent of operands with redundant parentheses
    pub parens: usize,
    /// percent of literals from the lexical generators
    pub lits: usize,
    /// statements, nesting
    pub size: usize,
    pub depth: usize,
    /// weights: jump statements (and labels), functions
    pub jumps: usize,
    pub funs: usize,
    pub exprs: usize,
}

pub const PLAIN: Cfg = Cfg {
    semi: 75, nl: 4, trivia: 4, words: 3, dirs: 5, odd: 1, parens: 8, lits: 15, size: 4, depth: 4, jumps: 2, funs: 3, exprs: 6,
};

pub struct Gen<'a> {
    r: &'a mut Rng,
    c: &'a Cfg,
    out: Vec<String>,
    depth: usize,
    fun: bool,
    lop: bool,
    sw: bool,
    labels: Vec<(String, bool)>,
    budget: isize,
}

/// A line break that layout must produce.
const NL: &str = "\n";

const NAMES: [&str; 12] = ["a", "b", "c", "x", "y", "foo", "$", "_", "bar2", "of", "get", "set"];
const WORDS: [&str; 25] = [
    "let", "yield", "await", "static", "implements", "interface", "package", "private", "protected",
    "public", "eval", "arguments", "of", "get", "set", "target", "async", "from", "as", "of", "get",
    "set", "let", "undefined", "NaN",
];
/// Names that mean something to an engine, but nothing to a parser.
const SPECIAL: [&str; 16] = [
    "__proto__", "constructor", "prototype", "undefined", "NaN", "Infinity", "length", "name", "default_", "then", "require",
    "exports", "toString", "valueOf", "hasOwnProperty", "asm",
];
const KEYWORDS: [&str; 36] = [
    "null", "true", "false", "break", "case", "catch", "class", "const", "continue", "debugger",
    "default", "delete", "do", "else", "export", "extends", "finally", "for", "function", "if",
    "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try",
    "typeof", "var", "void", "while", "with", "enum",
];
const BIN: [&str; 23] = [
    "||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "<<",
    ">>", ">>>", "+", "-", "*", "/", "%",
];
const ASS: [&str; 11] = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];

impl<'a> Gen<'a> {
    fn pct(&mut self, n: usize) -> bool {
        self.r.chance(n, 100)
    }
    fn t(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn leafy(&mut self) -> bool {
        self.budget -= 1;
        self.depth >= self.c.depth || self.budget < 0
    }

    fn name(&mut self) -> String {
        if self.pct(self.c.words) {
            let w = self.r.pick(&WORDS);
            return if self.r.chance(1, 5) { genlex::escape_word(self.r, w) } else { w.to_string() };
        }
        if self.pct(self.c.lits) && self.r.chance(1, 6) {
            let w = genlex::raw_word(self.r);
            if crate::lex::reserved(&w).is_none() {
                return if self.r.chance(1, 3) {
                    genlex::escape_word(self.r, &w)
                } else {
                    w
                };
            }
        }
        if self.r.chance(1, 40) {
            return self.r.pick(&SPECIAL).to_string();
        }
        let n = if self.r.chance(1, 12) { 12 } else { 9 };
        NAMES[self.r.below(n)].to_string()
    }
    fn id(&mut self) {
        let n = self.name();
        self.out.push(n);
    }
    fn number(&mut self) {
        let n = if self.pct(self.c.lits) {
            genlex::number(self.r)
        } else {
            self.r.pick(&["0", "1", "2", "10", "1.5", ".5", "3.", "0x1F", "1e3"]).to_string()
        };
        self.out.push(n);
    }
    fn string(&mut self) {
        let n = if self.pct(self.c.lits) {
            genlex::string(self.r, 0)
        } else if self.r.chance(1, 30) {
            format!("'{}'", self.r.pick(&SPECIAL))
        } else {
            self.r.pick(&["\"s\"", "'t'", "''", "\"use strict\"", "'a b'", "\"\\n\"", "'use module'"]).to_string()
        };
        self.out.push(n);
    }

    // ---- expressions ----

    fn expr(&mut self, no_in: bool) {
        self.assign(no_in);
        while self.r.chance(1, 14) {
            self.t(",");
            self.assign(no_in);
        }
    }

    pub fn assign(&mut self, no_in: bool) {
        self.depth += 1;
        self.assign1(no_in);
        self.depth -= 1;
    }
    fn assign1(&mut self, no_in: bool) {
        if self.leafy() {
            return self.atom();
        }
        match self.r.below(12) {
            0 => {
                self.patt_or_target();
                self.t("=");
                self.assign(no_in);
            }
            1 => {
                self.target();
                let i = self.r.below(ASS.len());
                self.t(ASS[i]);
                self.assign(no_in);
            }
            2 => {
                self.binary(no_in);
                self.t("?");
                self.assign(false);
                self.t(":");
                self.assign(no_in);
            }
            3 | 4 | 5 | 6 => self.binary(no_in),
            _ => self.unary(),
        }
    }

    fn binary(&mut self, no_in: bool) {
        self.unary();
        if self.r.chance(1, 12) {
            return self.chain(no_in);
        }
        let n = 1 + if self.r.chance(1, 3) { self.r.below(5) } else { self.r.below(2) };
        for _ in 0..n {
            let mut op = BIN[self.r.below(BIN.len())];
            if op == "in" && no_in && !self.pct(self.c.odd) {
                op = "<";
            }
            self.t(op);
            self.unary();
        }
    }

    /// A long run of operators whose precedence mostly rises, or falls, or jumps.
    fn chain(&mut self, no_in: bool) {
        let n = 4 + self.r.below(12);
        let how = self.r.below(4);
        let mut at = if how == 0 { 0 } else { BIN.len() - 1 };
        for _ in 0..n {
            let i = match how {
                0 => at + self.r.below(5),
                1 => at.saturating_sub(self.r.below(5)),
                2 => self.r.below(BIN.len()),
                _ => (at + BIN.len() + self.r.below(7)) % BIN.len(),
            };
            at = if i >= BIN.len() { 0 } else { i };
            let op = if BIN[at] == "in" && no_in { "<" } else { BIN[at] };
            self.t(op);
            if self.r.chance(1, 2) {
                self.id();
            } else {
                self.depth += 2;
                self.unary();
                self.depth -= 2;
            }
        }
    }

    fn unary(&mut self) {
        if self.r.chance(1, 6) {
            let ops = ["delete", "void", "typeof", "+", "-", "~", "!"];
            let n = 1 + self.r.below(2);
            for _ in 0..n {
                let i = self.r.below(7);
                self.t(ops[i]);
            }
        }
        match self.r.below(16) {
            0 => {
                let op = if self.r.chance(1, 2) { "++" } else { "--" };
                self.t(op);
                self.target();
            }
            1 => {
                self.target();
                let op = if self.r.chance(1, 2) { "++" } else { "--" };
                self.t(op);
            }
            _ => self.lhs(),
        }
    }

    fn target(&mut self) {
        if self.pct(self.c.odd) {
            return self.lhs();
        }
        let paren = self.pct(self.c.parens / 2);
        if paren {
            self.t("(");
        }
        match self.r.below(4) {
            0 | 1 => self.id(),
            _ => {
                self.depth += 1;
                if self.leafy() {
                    self.id();
                } else {
                    self.lhs();
                }
                self.depth -= 1;
                self.member();
            }
        }
        if paren {
            self.t(")");
        }
    }

    fn patt_or_target(&mut self) {
        if self.depth >= self.c.depth || self.r.chance(2, 3) {
            return self.target();
        }
        self.pattern();
    }

    fn pattern(&mut self) {
        self.depth += 1;
        if self.r.chance(1, 2) {
            self.t("[");
            let n = self.r.below(4);
            for _ in 0..n {
                if !self.r.chance(1, 6) {
                    self.patt_or_target();
                }
                self.t(",");
            }
            match self.r.below(3) {
                0 => {
                    self.t("...");
                    self.patt_or_target();
                }
                1 => self.patt_or_target(),
                _ => {}
            }
            self.t("]");
        } else {
            self.t("{");
            let n = self.r.below(4);
            for i in 0..n {
                if self.r.chance(1, 3) {
                    self.id();
                } else if self.pct(self.c.odd) {
                    self.prop();
                } else {
                    self.key();
                    self.t(":");
                    self.patt_or_target();
                }
                if i + 1 < n || self.r.chance(1, 6) {
                    self.t(",");
                }
            }
            self.t("}");
        }
        self.depth -= 1;
    }

    fn member(&mut self) {
        if self.r.chance(1, 2) {
            self.t(".");
            if self.r.chance(1, 6) {
                let i = self.r.below(KEYWORDS.len());
                self.t(KEYWORDS[i]);
            } else if self.r.chance(1, 6) {
                let i = self.r.below(WORDS.len());
                self.t(WORDS[i]);
            } else {
                self.id();
            }
        } else {
            self.t("[");
            self.expr(false);
            self.t("]");
        }
    }

    fn args(&mut self) {
        self.t("(");
        let n = self.r.below(3);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            if self.r.chance(1, 6) {
                self.t("...");
            }
            self.assign(false);
        }
        self.t(")");
    }

    fn lhs(&mut self) {
        self.depth += 1;
        if self.leafy() {
            self.atom();
            self.depth -= 1;
            return;
        }
        let mut news = 0;
        while self.r.chance(1, 10) && news < 4 {
            self.t("new");
            news += 1;
        }
        if news > 0 && self.r.chance(1, 5) {
            self.t(".");
            self.t("target");
            news -= 1;
        } else {
            self.primary();
        }
        let n = self.r.below(3) + news;
        for _ in 0..n {
            if self.r.chance(2, 5) {
                self.args();
            } else {
                self.member();
            }
        }
        self.depth -= 1;
    }

    fn atom(&mut self) {
        match self.r.below(16) {
            0 => self.t("this"),
            1 => self.t("null"),
            2 => {
                let b = self.r.chance(1, 2);
                self.t(if b { "true" } else { "false" })
            }
            3 | 4 => self.number(),
            5 | 6 => self.string(),
            7 => {
                let re = if self.pct(self.c.lits) {
                    genlex::regexp(self.r, 0)
                } else {
                    self.r.pick(&["/a/", "/[/]/g", "/=/", "/\\//im", "/x*/"]).to_string()
                };
                self.out.push(re);
            }
            8 => {
                let s = *self.r.pick(&[&["[", "]"], &["{", "}"]]);
                self.t(s[0]);
                self.t(s[1]);
            }
            _ => self.id(),
        }
    }

    fn primary(&mut self) {
        if self.pct(self.c.parens) {
            self.t("(");
            self.expr(false);
            self.t(")");
            return;
        }
        self.depth += 1;
        let deep = self.leafy();
        let w = if deep { 0 } else { self.r.below(16 + self.c.funs) };
        match w {
            0..=7 => self.atom(),
            8 | 9 => {
                self.t("(");
                self.expr(false);
                self.t(")");
            }
            10 | 11 | 12 => {
                self.t("[");
                let n = self.r.below(4);
                for i in 0..n {
                    match self.r.below(8) {
                        0 => {}
                        1 => {
                            self.t("...");
                            self.assign(false);
                        }
                        _ => self.assign(false),
                    }
                    if i + 1 < n || self.r.chance(1, 4) {
                        self.t(",");
                    }
                }
                self.t("]");
            }
            13 | 14 | 15 => {
                self.t("{");
                let n = self.r.below(4);
                for i in 0..n {
                    self.prop();
                    if i + 1 < n || self.r.chance(1, 5) {
                        self.t(",");
                    }
                }
                self.t("}");
            }
            _ => {
                self.t("function");
                let gen = self.r.chance(1, 6);
                if gen {
                    self.t("*");
                }
                if self.r.chance(1, 2) {
                    self.id();
                }
                self.fun_rest();
            }
        }
        self.depth -= 1;
    }

    fn key(&mut self) {
        match self.r.below(9) {
            0 => self.number(),
            1 => self.string(),
            2 => {
                let i = self.r.below(KEYWORDS.len());
                self.t(KEYWORDS[i]);
            }
            3 => {
                let i = self.r.below(WORDS.len());
                self.t(WORDS[i]);
            }
            _ => self.id(),
        }
    }

    fn prop(&mut self) {
        match self.r.below(12) {
            0 | 1 => self.id(),
            2 => {
                let gen = self.r.chance(1, 3);
                if gen {
                    self.t("*");
                }
                self.key();
                self.fun_rest();
            }
            3 => {
                self.t("get");
                self.key();
                self.t("(");
                self.t(")");
                self.fun_body();
            }
            4 => {
                self.t("set");
                self.key();
                self.t("(");
                self.id();
                self.t(")");
                self.fun_body();
            }
            _ => {
                self.key();
                self.t(":");
                self.assign(false);
            }
        }
    }

    fn fun_rest(&mut self) {
        self.t("(");
        let n = self.r.below(3);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.id();
        }
        if self.r.chance(1, 8) {
            if n > 0 {
                self.t(",");
            }
            self.t("...");
            self.id();
        }
        self.t(")");
        self.fun_body();
    }

    fn fun_body(&mut self) {
        let save = (self.fun, self.lop, self.sw, std::mem::replace(&mut self.labels, vec![]));
        self.fun = true;
        self.lop = false;
        self.sw = false;
        self.t("{");
        self.directives();
        self.depth += 1;
        let n = if self.leafy() { 0 } else { self.r.below(3) };
        self.stmts(n);
        self.depth -= 1;
        self.t("}");
        self.fun = save.0;
        self.lop = save.1;
        self.sw = save.2;
        self.labels = save.3;
    }

    fn directives(&mut self) {
        while self.pct(self.c.dirs) {
            let d = if self.r.chance(2, 3) {
                self.r.pick(&["\"use strict\"", "'use strict'"]).to_string()
            } else if self.r.chance(1, 2) {
                self.r
                    .pick(&[
                        "\"use module\"", "'use module'", "'use\\x20strict'", "\"use strict \"", "'Use strict'",
                        "'use strict\\\n'", "'usestrict'", "\"\"", "\"use asm\"", "\"use \\u0073trict\"",
                    ])
                    .to_string()
            } else {
                genlex::string(self.r, 0)
            };
            self.out.push(d);
            self.end();
        }
    }

    // ---- statements ----

    fn end(&mut self) {
        if self.pct(self.c.semi) {
            self.t(";");
        } else if self.r.chance(5, 6) {
            self.t(NL);
        }
    }

    fn stmts(&mut self, n: usize) {
        for _ in 0..n {
            self.stmt(true);
        }
    }

    fn sub(&mut self) {
        self.stmt(false);
    }

    fn paren(&mut self) {
        self.t("(");
        self.expr(false);
        self.t(")");
    }

    fn block(&mut self) {
        self.t("{");
        let n = if self.depth >= self.c.depth { 0 } else { self.r.below(3) };
        self.stmts(n);
        self.t("}");
    }

    fn dtors(&mut self, no_in: bool, cons: bool) {
        let n = 1 + if self.r.chance(1, 4) { self.r.below(3) } else { 0 };
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.id();
            if (cons && !self.pct(self.c.odd)) || self.r.chance(1, 2) {
                self.t("=");
                self.assign(no_in);
            }
        }
    }

    fn expr_stmt(&mut self) {
        let at = self.out.len();
        self.expr(false);
        let first = self.out[at].clone();
        if (first == "{" || first == "function") && !self.pct(self.c.odd) {
            self.out.insert(at, "(".to_string());
            self.t(")");
        }
        self.end();
    }

    fn stmt(&mut self, decl: bool) {
        self.depth += 1;
        self.stmt1(decl);
        self.depth -= 1;
    }

    fn stmt1(&mut self, decl: bool) {
        let decl = decl || self.pct(self.c.odd);
        if self.leafy() {
            match self.r.below(4) {
                0 => self.t(";"),
                1 => self.jump(),
                2 => {
                    self.t("debugger");
                    self.end();
                }
                _ => {
                    self.atom_stmt();
                }
            }
            return;
        }
        let w = 24 + self.c.jumps * 4 + self.c.funs + self.c.exprs * 2;
        let k = self.r.below(w);
        match k {
            0 => self.block(),
            1 => self.t(";"),
            2 | 3 => {
                self.t("var");
                self.dtors(false, false);
                self.end();
            }
            4 | 5 => {
                if !decl {
                    return self.expr_stmt();
                }
                let c = self.r.chance(1, 2);
                self.t(if c { "const" } else { "let" });
                self.dtors(false, c);
                self.end();
            }
            6 | 7 => {
                self.t("if");
                self.paren();
                self.sub();
                if self.r.chance(1, 2) {
                    self.t("else");
                    self.sub();
                }
            }
            8..=11 => self.for_(),
            12 => {
                self.t("while");
                self.paren();
                self.body();
            }
            13 | 14 => {
                self.t("do");
                self.body();
                self.t("while");
                self.paren();
                if !self.r.chance(1, 3) {
                    self.end();
                }
            }
            15 => {
                self.t("with");
                self.paren();
                self.sub();
            }
            16 | 17 => self.switch(),
            18 | 19 => {
                self.t("try");
                self.block();
                let k = self.r.below(3);
                if k != 0 {
                    self.t("catch");
                    self.t("(");
                    self.id();
                    self.t(")");
                    self.block();
                }
                if k != 1 || self.pct(self.c.odd) {
                    self.t("finally");
                    self.block();
                }
            }
            20 => {
                self.t("throw");
                self.expr(false);
                self.end();
            }
            21 => {
                self.t("debugger");
                self.end();
            }
            22 | 23 => self.jump(),
            k if k < 24 + self.c.jumps * 4 => {
                if self.r.chance(1, 2) {
                    self.jump()
                } else {
                    self.label()
                }
            }
            k if k < 24 + self.c.jumps * 4 + self.c.funs => {
                if !decl {
                    return self.expr_stmt();
                }
                self.t("function");
                if self.r.chance(1, 6) {
                    self.t("*");
                }
                self.id();
                self.fun_rest();
            }
            _ => self.expr_stmt(),
        }
    }

    fn atom_stmt(&mut self) {
        self.id();
        if self.r.chance(1, 4) {
            self.t("(");
            self.t(")");
        }
        self.end();
    }

    fn body(&mut self) {
        let was = std::mem::replace(&mut self.lop, true);
        self.sub();
        self.lop = was;
    }

    fn jump(&mut self) {
        let odd = self.pct(self.c.odd);
        match self.r.below(7) {
            0 | 1 if self.fun || odd => {
                self.t("return");
                if self.r.chance(2, 3) {
                    self.expr(false);
                }
                self.end();
            }
            2 | 3 => {
                let cands: Vec<String> = self.labels.iter().map(|l| l.0.clone()).collect();
                if odd || self.lop || self.sw || !cands.is_empty() {
                    self.t("break");
                    if odd && self.r.chance(1, 2) {
                        self.id();
                    } else if !cands.is_empty() && (self.r.chance(1, 2) || !(self.lop || self.sw)) {
                        let i = self.r.below(cands.len());
                        self.t(&cands[i]);
                    }
                    self.end();
                } else {
                    self.t(";");
                }
            }
            4 | 5 => {
                let all = self.pct(self.c.odd);
                let cands: Vec<String> = self.labels.iter().filter(|l| l.1 || all).map(|l| l.0.clone()).collect();
                if odd || self.lop {
                    self.t("continue");
                    if odd && self.r.chance(1, 2) {
                        self.id();
                    } else if !cands.is_empty() && self.r.chance(1, 2) {
                        let i = self.r.below(cands.len());
                        self.t(&cands[i]);
                    }
                    self.end();
                } else {
                    self.t(";");
                }
            }
            _ => {
                self.t("throw");
                self.expr(false);
                self.end();
            }
        }
    }

    fn label(&mut self) {
        let n = self.labels.len();
        let lop = self.r.chance(2, 3);
        let k = 1 + if self.r.chance(1, 4) { 1 + self.r.below(2) } else { 0 };
        for _ in 0..k {
            let mut name = self.name();
            if self.labels.iter().any(|l| l.0 == name) && !self.pct(self.c.odd * 3) {
                name = format!("l{}", self.labels.len());
            }
            self.t(&name);
            self.t(":");
            self.labels.push((name, lop));
        }
        if lop {
            match self.r.below(3) {
                0 => self.for_(),
                1 => {
                    self.t("while");
                    self.paren();
                    self.body();
                }
                _ => {
                    self.t("do");
                    self.body();
                    self.t("while");
                    self.paren();
                    self.end();
                }
            }
        } else {
            self.sub();
        }
        self.labels.truncate(n);
    }

    fn switch(&mut self) {
        self.t("switch");
        self.paren();
        self.t("{");
        let was = std::mem::replace(&mut self.sw, true);
        let n = self.r.below(4);
        let mut default = false;
        for _ in 0..n {
            if self.r.chance(1, 3) && (!default || self.pct(self.c.odd * 3)) {
                default = true;
                self.t("default");
            } else {
                self.t("case");
                self.expr(false);
            }
            self.t(":");
            let k = self.r.below(3);
            self.stmts(k);
        }
        self.sw = was;
        self.t("}");
    }

    fn for_(&mut self) {
        self.t("for");
        self.t("(");
        let kind = self.r.below(4);
        match kind {
            0 => self.t("var"),
            1 => self.t("let"),
            2 => self.t("const"),
            _ => {}
        }
        match self.r.below(5) {
            0 | 1 => {
                if kind < 3 {
                    self.dtors(true, kind == 2);
                } else if self.r.chance(2, 3) {
                    self.expr(true);
                }
                self.t(";");
                if self.r.chance(2, 3) {
                    self.expr(false);
                }
                self.t(";");
                if self.r.chance(2, 3) {
                    self.expr(false);
                }
            }
            k => {
                if kind < 3 {
                    self.id();
                    if kind == 0 && k == 2 && self.r.chance(1, 5) {
                        self.t("=");
                        self.assign(true);
                    }
                } else {
                    self.patt_or_target();
                }
                if k == 2 || k == 3 {
                    self.t("in");
                    self.expr(false);
                } else {
                    self.t("of");
                    self.assign(false);
                }
            }
        }
        self.t(")");
        self.body();
    }
}

pub fn tokens(r: &mut Rng, c: &Cfg) -> Vec<String> {
    let mut g = Gen {
        r,
        c,
        out: vec![],
        depth: 0,
        fun: false,
        lop: false,
        sw: false,
        labels: vec![],
        budget: 60 + 30 * c.size as isize,
    };
    g.directives();
    let n = 1 + g.r.below(c.size);
    g.stmts(n);
    g.out
}

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '$' || c == '_' || c == '\\' || c == '"' || c == '\'' || c == '/' || c == '.' || c as u32 >= 0x80
}

fn joinable(a: &str, b: &str) -> bool {
    let (l, f) = match (a.chars().last(), b.chars().next()) {
        (Some(l), Some(f)) => (l, f),
        _ => return true,
    };
    let solo = |c: char| "()[]{},;~:?".contains(c);
    if solo(l) || solo(f) {
        return !(l == '?' && f == '.');
    }
    if a.starts_with('/') && a.len() > 1 {
        return false;
    }
    if f == '.' {
        return a.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) && b == ".";
    }
    if l == '.' {
        return a == "." && f.is_ascii_alphabetic();
    }
    wordy(l) != wordy(f)
}

pub fn layout(r: &mut Rng, c: &Cfg, toks: &[String]) -> String {
    let mut o = String::new();
    let mut prev: &str = "";
    let mut must = false;
    let spread = r.chance(1, 2);
    if r.chance(c.trivia, 100) {
        o.push_str(&genlex::trivia(r, true));
    }
    for t in toks {
        if t == NL {
            must = true;
            continue;
        }
        let nl = must || r.chance(c.nl, 100);
        if nl {
            if r.chance(c.trivia, 100) {
                o.push_str(&genlex::trivia(r, false));
            }
            o.push_str(&if r.chance(4, 5) { "\n".to_string() } else { genlex::newline(r) });
            if r.chance(c.trivia, 100) {
                o.push_str(&genlex::trivia(r, true));
            }
        } else if r.chance(c.trivia, 100) {
            o.push(' ');
            o.push_str(&genlex::trivia(r, false));
            o.push(' ');
        } else if spread || !joinable(prev, t) {
            if !prev.is_empty() {
                o.push(' ');
            }
        }
        must = false;
        o.push_str(t);
        prev = t;
    }
    if must || r.chance(1, 10) {
        o.push('\n');
    }
    if r.chance(c.trivia, 100) {
        o.push_str(&genlex::trivia(r, true));
    }
    o
}

pub fn program(r: &mut Rng, c: &Cfg) -> String {
    let t = tokens(r, c);
    layout(r, c, &t)
}

pub fn any_token(r: &mut Rng) -> String {
    match r.below(10) {
        0..=3 => genlex::punct(r),
        4 | 5 => KEYWORDS[r.below(KEYWORDS.len())].to_string(),
        6 => WORDS[r.below(WORDS.len())].to_string(),
        7 => NAMES[r.below(NAMES.len())].to_string(),
        8 => r.pick(&["1", "'s'", "/r/", "\"use strict\"", NL, "=>", "..."]).to_string(),
        _ => genlex::token(r),
    }
}

/// Token-level mutations.
pub fn mutate(r: &mut Rng, toks: &mut Vec<String>, times: usize) {
    for _ in 0..times {
        let n = toks.len();
        if n == 0 {
            toks.push(any_token(r));
            continue;
        }
        let i = r.below(n);
        match r.below(8) {
            0 | 1 => {
                toks.remove(i);
            }
            2 => {
                let t = any_token(r);
                toks[i] = t;
            }
            3 | 4 => {
                let t = any_token(r);
                toks.insert(i, t);
            }
            5 => {
                let j = r.below(n);
                toks.swap(i, j);
            }
            6 => {
                let t = toks[r.below(n)].clone();
                toks.insert(i, t);
            }
            _ => {
                if r.chance(1, 2) {
                    toks.truncate(i);
                } else {
                    let t = toks[r.below(n)].clone();
                    toks[i] = t;
                }
            }
        }
    }
}
