//! A small JSON value with a writer (evidence files, ESTree documents).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s<T: Into<String>>(t: T) -> J {
    J::Str(t.into())
}

pub fn obj(xs: Vec<(&str, J)>) -> J {
    J::Obj(xs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn quote(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c == '\u{2028}' || c == '\u{2029}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Num(f) => {
                let t = if f.is_infinite() { "1e999".to_string() } else { format!("{:?}", f) };
                o.push_str(&t)
            }
            J::Str(t) => o.push_str(&quote(t)),
            J::Arr(xs) => {
                o.push('[');
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(xs) => {
                o.push('{');
                for (i, (k, v)) in xs.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&quote(k));
                    o.push(':');
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(xs) => xs.iter().find(|(n, _)| n == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(xs) = self {
            if let Some(x) = xs.iter_mut().find(|(n, _)| n == k) {
                x.1 = v;
            } else {
                xs.push((k.to_string(), v));
            }
        }
    }
}

// ---- reader (monitors' own documents only) ----

struct R<'a> {
    t: &'a [char],
    p: usize,
}

pub fn read(t: &str) -> Option<J> {
    let t: Vec<char> = t.chars().collect();
    let mut r = R { t: &t, p: 0 };
    let j = r.value(0)?;
    r.ws();
    if r.p == r.t.len() {
        Some(j)
    } else {
        None
    }
}

impl<'a> R<'a> {
    fn ws(&mut self) {
        while self.p < self.t.len() && " \t\r\n".contains(self.t[self.p]) {
            self.p += 1;
        }
    }
    fn eat(&mut self, w: &str) -> Option<()> {
        for c in w.chars() {
            if self.t.get(self.p) != Some(&c) {
                return None;
            }
            self.p += 1;
        }
        Some(())
    }
    fn value(&mut self, depth: usize) -> Option<J> {
        self.ws();
        if depth > 20000 {
            return None;
        }
        match *self.t.get(self.p)? {
            'n' => self.eat("null").map(|_| J::Null),
            't' => self.eat("true").map(|_| J::Bool(true)),
            'f' => self.eat("false").map(|_| J::Bool(false)),
            '"' => self.string().map(J::Str),
            '[' => {
                self.p += 1;
                let mut v = vec![];
                self.ws();
                if self.eat("]").is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.t.get(self.p)? {
                        ',' => self.p += 1,
                        ']' => {
                            self.p += 1;
                            return Some(J::Arr(v));
                        }
                        _ => return None,
                    }
                }
            }
            '{' => {
                self.p += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.eat("}").is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(":")?;
                    let x = self.value(depth + 1)?;
                    if v.iter().any(|y| y.0 == k) {
                        return None;
                    }
                    v.push((k, x));
                    self.ws();
                    match self.t.get(self.p)? {
                        ',' => self.p += 1,
                        '}' => {
                            self.p += 1;
                            return Some(J::Obj(v));
                        }
                        _ => return None,
                    }
                }
            }
            _ => {
                let a = self.p;
                while self.p < self.t.len() && "+-.eE0123456789".contains(self.t[self.p]) {
                    self.p += 1;
                }
                let w: String = self.t[a..self.p].iter().collect();
                let d: Vec<char> = w.trim_start_matches('-').chars().collect();
                if d.is_empty() || !d[0].is_ascii_digit() || !d[d.len() - 1].is_ascii_digit() {
                    return None;
                }
                if d.len() > 1 && d[0] == '0' && d[1].is_ascii_digit() {
                    return None;
                }
                if d.iter().all(|c| c.is_ascii_digit()) && w != "-0" {
                    if let Ok(i) = w.parse::<i64>() {
                        return Some(J::Int(i));
                    }
                }
                w.parse::<f64>().ok().map(J::Num)
            }
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut o = String::new();
        loop {
            let c = *self.t.get(self.p)?;
            self.p += 1;
            match c {
                '"' => return Some(o),
                '\\' => {
                    let c = *self.t.get(self.p)?;
                    self.p += 1;
                    match c {
                        'n' => o.push('\n'),
                        'r' => o.push('\r'),
                        't' => o.push('\t'),
                        '"' | '\\' | '/' => o.push(c),
                        'u' => {
                            let h: String = self.t.get(self.p..self.p + 4)?.iter().collect();
                            self.p += 4;
                            o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                        }
                        _ => return None,
                    }
                }
                c if (c as u32) < 0x20 => return None,
                c => o.push(c),
            }
        }
    }
}
