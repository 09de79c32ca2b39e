R = 'crates/joker/src/reader.rs'
C = 'crates/joker/src/char.rs'
K = 'crates/joker/src/token.rs'
ES = 'crates/estree/src/'
EA = 'crates/easter/src/'
S('comment-recursion', 'C01', 'lex', L,
  [("                (Some('/'), Some('/')) => { self.skip_line_comment(2); }\n",
    "                (Some('/'), Some('/')) => {\n                    self.skip_line_comment(2);\n                    let mut token = self.read_next_token(operator)?;\n                    token.newline |= found_newline;\n                    return Ok(token);\n                }\n")],
  'a very long run of line comments between two tokens', 'the stack overflows',
  'let s = "// a\\n".repeat(300000) + "b"; let t = tokens(&s).unwrap(); assert_eq!((t.len(), t[0].newline), (1, true));')
S('html-close-start', 'C02', 'lex', L,
  [("                    if self.empty_line && self.reader.peek(2) == Some('>') {", "                    if found_newline && self.reader.peek(2) == Some('>') {")],
  'the HTML-like comment --> at the very start of the text', 'it is read as -- and >',
  'assert_eq!(kinds("--> a\\n1").len(), 1); assert_eq!(kinds(" /**/ --> a\\n1").len(), 1); assert_eq!(kinds("a --> b").len(), 4);')
S('bang-comment', 'C02', 'lex', L,
  [("                    if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {", "                    if self.reader.peek(2) == Some('-') {")],
  'an operator < followed by ! and -', 'a<!-b is read as the start of a comment',
  'assert_eq!(kinds("a<!-b").len(), 5); assert_eq!(kinds("a<!--b").len(), 1);')
S('long-decimal', 'C03', 'lex', K,
  [("            NumberSource::DecimalInt(ref mantissa, None) => {\n                mantissa.parse().unwrap()\n",
    "            NumberSource::DecimalInt(ref mantissa, None) => {\n                if mantissa.len() > 19 {\n                    format!(\"{}e{}\", &mantissa[..19], mantissa.len() - 19).parse().unwrap()\n                } else {\n                    mantissa.parse().unwrap()\n                }\n")],
  'a decimal integer of more than 19 digits just above the middle between two doubles', 'it is rounded down',
  'match kinds("1180591620717411434497")[0] { TokenData::Number(ref n) => assert_eq!(n.value, 1180591620717411434497f64), _ => panic!() }')
S('ls-continuation', 'C04', 'lex', L,
  [("            Some(ch) if ch.is_es_newline() => {\n                self.read_newline_into(source);", "            Some('\\n') | Some('\\r') => {\n                self.read_newline_into(source);")],
  'a string continued over U+2028 or U+2029', 'the separator stays in the value',
  'match kinds("\'a\\\\\\u{2028}b\'")[0] { TokenData::String(ref s) => assert_eq!(s.value, "ab"), _ => panic!() }')
S('astral-id', 'C06', 'lex', C,
  [("            _ => self.is_id_start()\n", "            _ => (self as u32) < 0x10000 && self.is_id_start()\n")],
  'an identifier that starts with a character beyond U+FFFF', 'it is refused as an illegal character',
  'assert_eq!(kinds("\\u{20000}a").len(), 1); assert_eq!(kinds("\\u{10400} = 1").len(), 3);')
S('astral-column', 'C07', 'lex', R,
  [("            self.curr_posn.column += 1;\n", "            self.curr_posn.column += curr_char.map_or(1, |ch| ch.len_utf16() as u32);\n")],
  'a token after a character beyond U+FFFF on the same line', 'its column counts that character twice',
  'let t = tokens("\'\\u{1f600}\' a").unwrap(); assert_eq!((t[1].location.start.column, t[1].location.start.offset), (4, 4));')
S('skip-clears', 'C09', 'lex', L,
  [("    pub fn skip_token(&mut self, operator: bool) -> Result<()> {\n        self.read_token(operator)?;\n        Ok(())\n", "    pub fn skip_token(&mut self, operator: bool) -> Result<()> {\n        if self.lookahead.is_empty() {\n            self.read_token(operator)?;\n        }\n        self.lookahead.clear();\n        Ok(())\n")],
  'skipping a token while two are buffered', 'both buffered tokens are dropped',
  '''let mut l = Lexer::new("a b c".chars());
    let a = l.read_token(false).unwrap();
    l.peek_token(false).unwrap();
    l.unread_token(a);
    l.skip_token(false).unwrap();
    assert_eq!(l.read_token(false).unwrap().location.start.offset, 2);''')
S('read-ahead', 'C10', 'lex', R,
  [("        for _ in self.ahead.len()..(n + 1) {\n", "        let wanted = if self.ahead.len() > n { 0 } else { n + 16 };\n        for _ in self.ahead.len()..wanted {\n"),
   ("                None => {\n                    return None\n                }\n", "                None => {\n                    break\n                }\n")],
  'a character source that is read interactively', 'delivering a token waits for sixteen characters after it',
  '''let n = std::cell::Cell::new(0);
    let text: Vec<char> = "ab cd ef gh ij kl mn op qr st uv wx yz".chars().collect();
    let mut l = Lexer::new(text.iter().map(|&c| { n.set(n.get() + 1); c }));
    for _ in 0..3 { let t = l.read_token(false).unwrap(); assert!(n.get() <= t.location.end.offset + 4, "{} characters read for {:?}", n.get(), t); }''')
S('u64-number', 'C12', 'json', 'crates/unjson/src/unjson.rs',
  [("            Value::U64(u) => Ok(Some(u as f64)),\n", "            Value::U64(u) => Ok(Some(u as u32 as f64)),\n")],
  'a nullable number of 2^32 or more', 'its upper half is lost',
  'let mut o = obj("{\\"a\\": 4294967297}"); assert_eq!(o.extract_number_opt("a"), Ok(Some(4294967297.0)));')
S('lengths-swapped', 'C13', 'json', 'crates/unjson/src/error.rs',
  [('                fmt.write_fmt(format_args!("expected array of length {}, got array of length {}", expected, actual))', '                fmt.write_fmt(format_args!("expected array of length {}, got array of length {}", actual, expected))')],
  'the message of an error about the length of an array', 'it swaps the two lengths',
  'let e = unjson::error::array_error::<()>(1, 2).unwrap_err(); let s = format!("{}", e); assert!(s.find("1").unwrap() < s.find("2").unwrap(), "{}", s);')
S('untrack-spread', 'C15', 'lex', 'crates/joker/src/track.rs',
  [("        for x in self {\n            x.untrack();\n        }\n", "        for x in self.iter_mut().take(64) {\n            x.untrack();\n        }\n")],
  'erasing the locations of a tree with a list of more than 64 parts', 'the parts after the 64th keep theirs',
  'let s = Span { start: Posn::origin(), end: Posn::origin() }; let mut v = vec![Some(s); 100]; v.untrack(); assert!(v.iter().all(|s| s.is_none()));')
S('flags-dedup', 'C16', 'lex', K,
  [("        (self.flags.alphabetize() == other.flags.alphabetize())", "        (self.flags.len() == other.flags.len()) &&\n        self.flags.iter().all(|f| f.is_ascii_lowercase() && *f < 'h' || other.flags.contains(f))")],
  'comparing two regular expressions with different flags g', 'they are equal',
  'assert!(kinds("/a/g") != kinds("/a/d")); assert!(kinds("/a/gi") == kinds("/a/ig")); assert!(kinds("/a/g") != kinds("/a/m"));')
S('xor-prec', 'C17', 'parse', EA + 'punc.rs',
  [("            BinopTag::BitXor     => 5,", "            BinopTag::BitXor     => 4,")],
  'mixing | and ^ without parentheses', 'they group from the left',
  'same("a | b ^ c", "a | (b ^ c)"); same("a ^ b | c", "(a ^ b) | c");')
S('rest-loc', 'C18', 'parse', EA + 'cover.rs',
  [("                        Some(ExprListItem::Spread(loc, _)) => { return Err(Error::InvalidAssignTarget(loc)); }", "                        Some(ExprListItem::Spread(_, arg)) => { return Err(Error::InvalidAssignTarget(*arg.tracking_ref())); }")],
  'a spread that is not the last element of an array pattern', 'the error blames the argument of the spread instead of the spread',
  '''match esprit::script("[...a, b] = c") {
        Err(Error::InvalidLHS(_, easter::cover::Error::InvalidAssignTarget(Some(s)))) => assert_eq!(s.start.offset, 1),
        r => panic!("{:?}", r)
    }''')
S('layout-paren', 'C19', 'parse', 'src/state.rs',
  [("        let token = self.read()?;\n        if token.value != expected {\n            self.lexer.unread_token(token);\n            return Ok(false);\n        }\n        Ok(true)\n    }\n\n    fn matches_op", "        let before = self.lexer.posn();\n        let token = self.read()?;\n        if token.value != expected || (expected == TokenData::Star && token.location.start.offset > before.offset + 1) {\n            self.lexer.unread_token(token);\n            return Ok(false);\n        }\n        Ok(true)\n    }\n\n    fn matches_op")],
  'more than one white space character between function and *', 'the generator function is refused',
  'same("function*a() {}", "function /* */ * a() {}"); same("function* a() {}", "function  *a() {}");')
S('break-unreachable', 'C20', 'parse', P,
  [("            let id = self.id(false)?;\n            if !self.context.labels.contains_key", "            let token = self.lexer.reread_token();\n            let id = self.new_id_from_token(false, token)?;\n            if !self.context.labels.contains_key")],
  'break followed by something that is not a name', 'the parser panics',
  'refused("while (a) { break 1 }"); refused("while (a) break if"); tree("a: while (b) break a");')
S('fn-no-in', 'C21', 'parse', 'src/context.rs',
  [("            switch: false,\n            allow_in: true,\n            labels: HashMap::new()\n        }\n    }\n}", "            switch: false,\n            allow_in: self.allow_in,\n            labels: HashMap::new()\n        }\n    }\n}")],
  'the in operator in a declaration inside a function inside the head of a for loop', 'the program is refused',
  'tree("for (var a = function () { var b = c in d }; ; ) ;");')
S('deep-stack', 'C21', 'parse', 'src/stack.rs',
  [("        while { len = self.frames.len(); len > 0 } && self.frames[len - 1].op.groups_left(&op) {", "        while { len = self.frames.len(); len > 0 } && (self.frames[len - 1].op.groups_left(&op) || len > 5) {")],
  'an operand with seven operators of increasing precedence before it', 'the operators group wrongly',
  'same("a || b && c | d ^ e & f == g < h << i", "a || (b && (c | (d ^ (e & (f == (g < (h << i)))))))");')
S('postfix-line', 'C22', 'parse', P,
  [("        if let Some(postfix) = self.match_postfix_operator_opt()? {", "        if let Some(postfix) = self.match_postfix_operator_opt(arg.tracking_ref().map_or(0, |s| s.start.line))? {"),
   ("    fn match_postfix_operator_opt(&mut self) -> Result<Option<Postfix>> {\n        let next = self.read_op()?;\n        if !next.newline {", "    fn match_postfix_operator_opt(&mut self, line: u32) -> Result<Option<Postfix>> {\n        let next = self.read_op()?;\n        if next.location.start.line == line {")],
  '++ after an operand that itself spans lines', 'the program is refused',
  'same("a\\n.b++", "a.b++"); refused("a\\n++"); same("a[\\nb]++", "a[b]++");')
S('html-history', 'C23', 'lex', L,
  [("            wordmap: WordMap::new(),\n            empty_line: true\n", "            wordmap: WordMap::new(),\n            empty_line: !::std::mem::replace(&mut *STARTED.lock().unwrap(), true)\n"),
   ("pub struct Lexer<I> {\n    reader", "static STARTED: ::std::sync::Mutex<bool> = ::std::sync::Mutex::new(false);\n\npub struct Lexer<I> {\n    reader")],
  'tokenizing a text that starts with --> after another text', 'only the first text of the process may start so',
  'for _ in 0..3 { assert_eq!(kinds("--> a\\n1").len(), 1); }')
S('label-leak', 'C24', 'parse', 'src/context.rs',
  [("        for label in label_strings {\n            self.context.labels.remove(&label);\n        }\n", "        for label in label_strings.into_iter().rev().take(1) {\n            self.context.labels.remove(&label);\n        }\n")],
  'using the outer one of two labels of a statement again after the statement', 'the label is taken to be in scope still',
  'tree("a: b: c; a: d"); refused("a: b: c; break a"); tree("a: b; a: d");')
S('label-type', 'C24', 'parse', 'src/context.rs',
  [("            self.context.labels.insert(label.clone(), label_type);", "            let inner = label_strings.len() + 1 == labels.len();\n            self.context.labels.insert(label.clone(), if inner { label_type } else { LabelType::Statement });")],
  'continue with the outer one of two labels of a loop', 'it is refused',
  'tree("a: b: while (c) continue a"); tree("a: b: while (c) continue b"); tree("a: while (c) continue a");')
S('second-directive', 'C25', 'parse', P,
  [('                "use strict" => {\n                    self.context.strict = Strict::Yes;', '                "use strict" if dirs.is_empty() => {\n                    self.context.strict = Strict::Yes;')],
  '"use strict" that is not the first directive', 'it has no effect',
  'refused("\'a\'; \'use strict\'; with (b) c"); refused("\'use strict\'; with (b) c"); tree("\'a\'; with (b) c");')
S('checks-order', 'C25', 'parse', P,
  [("            Program::Ambiguous(checks, script) => {\n                for check in checks {\n                    check.perform(false)?;", "            Program::Ambiguous(checks, script) => {\n                for check in checks.into_iter().rev() {\n                    check.perform(false)?;")],
  'a program with two violations of strict mode, decided to be strict afterwards', 'the last violation is reported instead of the first',
  'let s = "var eval; with (a) b"; assert_eq!(esprit::program(s).unwrap().strict().err(), esprit::strict(s).err());')
S('seq-loc', 'C26', 'parse', 'src/track.rs',
  [("        span(&v[0], &v[len - 1])", "        span(&v[0], &v[if len > 3 { len - 2 } else { len - 1 }])")],
  'the location of a comma expression with more than three parts', 'it ends before the last part',
  'match *expr_of(&located("a, b, c, d")) { Expr::Seq(Some(s), _) => assert_eq!(s.end.offset, 10), _ => panic!() }')
S('forin-init-loc', 'C26', 'parse', P,
  [("ForInHead::VarInit(span(&var_location, &rhs), id, rhs)", "ForInHead::VarInit(span(&var_location, &id), id, rhs)")],
  'the head of a for-in loop with an initializer', 'its location ends before the initializer',
  'match located("for (var a = b in c) ;").items[0] { StmtListItem::Stmt(Stmt::ForIn(_, ref h, _, _)) => assert_eq!(h.tracking_ref().unwrap().end.offset, 14), _ => panic!() }')
S('of-comma', 'C27', 'parse', P,
  [("        let obj = self.allow_in(true, |this| this.assignment_expression())?;\n        self.expect(TokenData::RParen)?;", "        let obj = self.allow_in(true, |this| this.expression())?;\n        self.expect(TokenData::RParen)?;")],
  'a comma expression as the object of a for-of loop', 'it is accepted',
  'refused("for (a of b, c) ;"); tree("for (a of (b, c)) ;"); tree("for (a in b, c) ;");')
S('catch-twice', 'C27', 'parse', P,
  [("            let catch = this.catch_opt()?.map(Box::new);\n", "            let mut catch = this.catch_opt()?.map(Box::new);\n            while let Some(last) = this.catch_opt()? {\n                catch = Some(Box::new(last));\n            }\n")],
  'a try statement with two catch clauses', 'it is accepted and the first clause dropped',
  'refused("try {} catch (a) {} catch (b) {}"); tree("try {} catch (a) {} finally {}");')
S('u64-literal', 'C28', 'parse', ES + 'lit.rs',
  [("impl IntoNumberLiteral for u64 {\n    fn into_number_literal(self) -> NumberLiteral {\n        NumberLiteral {\n            source: Some(NumberSource::DecimalInt(self.to_string(), None)),\n            value: self as f64", "impl IntoNumberLiteral for u64 {\n    fn into_number_literal(self) -> NumberLiteral {\n        NumberLiteral {\n            source: Some(NumberSource::DecimalInt(self.to_string(), None)),\n            value: self as i64 as f64")],
  'a number literal of 2^63 or more in an ESTree document', 'it becomes negative',
  'let t = read(r#"{"type":"Program","body":[{"type":"ExpressionStatement","expression":{"type":"Literal","value":18446744073709551615}}]}"#).unwrap(); assert_eq!(t, { let mut t = tree("18446744073709551615"); t.untrack(); t });')
S('finalizer-type', 'C28', 'parse', ES + 'stmt.rs',
  [("            let catch = this.extract_catch_opt(\"handler\")?.map(Box::new);\n", "            let catch = this.extract_catch_opt(\"handler\").unwrap_or(None).map(Box::new);\n")],
  'an ESTree document with a malformed handler in a try statement', 'the handler is silently dropped',
  'assert!(read(r#"{"type":"Program","body":[{"type":"TryStatement","block":{"type":"BlockStatement","body":[]},"handler":{"type":"CatchClause","param":{"type":"Identifier"},"body":{"type":"BlockStatement","body":[]}},"finalizer":null}]}"#).is_err());')
S('regex-flags', 'C29', 'parse', ES + 'expr.rs',
  [("                    flags: flags.chars().collect()\n", "                    flags: flags.chars().filter(|f| \"gimu\".contains(*f)).collect()\n")],
  'a regular expression with the flag y in an ESTree document', 'the flag is lost',
  '''let t = read(r#"{"type":"Program","body":[{"type":"ExpressionStatement","expression":{"type":"Literal","value":null,"regex":{"pattern":"a","flags":"gy"}}}]}"#).unwrap();
    assert_eq!(t, { let mut t = tree("/a/gy"); t.untrack(); t });''')
S('second-location', 'C30', 'derive', 'crates/derive/src/lib.rs',
  [("                    field_pats.push(FieldPat {\n                        ident: ident.clone(),\n                        pat: Box::new(Pat::Ident(BindingMode::ByRef(Mutability::Mutable), ident.clone(), None)),\n                        is_shorthand: true\n                    });\n", "                    let skip = ident != &self.location_ident && field.ty == self.location_type;\n                    field_pats.push(FieldPat {\n                        ident: ident.clone(),\n                        pat: Box::new(if skip { Pat::Wild } else { Pat::Ident(BindingMode::ByRef(Mutability::Mutable), ident.clone(), None) }),\n                        is_shorthand: !skip\n                    });\n                    if skip { continue; }\n")],
  'deriving Untrack for a struct with a second location besides the field called location', 'the second location stays',
  '''#[derive(Untrack)]
    struct A { location: Option<Span>, other: Option<Span> }
    let s = Some(Span { start: Posn::origin(), end: Posn::origin() });
    let mut a = A { location: s, other: s };
    a.untrack();
    assert!(a.location.is_none() && a.other.is_none());''')
S('number-print', 'C31', 'lex', K,
  [('            .field("value", &self.value)\n            .finish()\n    }\n}\n\nimpl PartialEq for NumberLiteral', '            .field("value", &(self.value as f32))\n            .finish()\n    }\n}\n\nimpl PartialEq for NumberLiteral')],
  'printing two numbers that are closer than single precision can tell', 'they are printed alike',
  'assert!(format!("{:?}", kinds("16777217")) != format!("{:?}", kinds("16777216")));')
S('new-print', 'C31', 'parse', EA + 'expr.rs',
  [('fmt.debug_tuple("New").field(ctor).field(args).finish(),', 'fmt.debug_tuple("New").field(ctor).field(&&args[..::std::cmp::min(args.len(), 3)]).finish(),')],
  'printing new expressions with more than three arguments', 'two that differ in the fourth are printed alike',
  'assert!(format!("{:?}", tree("new a(b, c, d, e)")) != format!("{:?}", tree("new a(b, c, d, f)")));')
S('no-cause', 'C32', 'parse', 'src/error.rs',
  [("            Error::InvalidLHS(_, ref cover_err) => Some(cover_err),\n", "")],
  'asking the error about an invalid assignment target for its cause', 'there is none',
  'use std::error::Error as E; assert!(esprit::script("a + b = c").unwrap_err().cause().is_some()); assert!(esprit::script("@").unwrap_err().cause().is_some());')
S('same-description', 'C32', 'lex', 'crates/joker/src/error.rs',
  [('            Error::MissingOctalDigits => "missing octal digits",\n', '            Error::MissingOctalDigits => "missing binary digits",\n')],
  'the message for 0o at the end of the text', 'it says binary digits',
  'use std::error::Error as E; assert!(tokens("0o").unwrap_err().description() != tokens("0b").unwrap_err().description());')
