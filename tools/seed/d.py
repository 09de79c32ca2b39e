S('star-comment', 'C02', 'lex', L,
  [("                (Some('*'), Some('/')) => { self.skip2(); break; }\n", "                (Some('*'), Some('/')) => { self.skip2(); break; }\n                (Some('*'), Some('*')) => { self.skip2(); }\n"), ("        Ok(found_newline)\n    }\n\n    fn read_regexp(", "        Ok(return Ok(found_newline))\n    }\n\n    fn read_regexp(")],
  'a block comment that ends with an even number of stars', 'it is taken to go on',
  'assert_eq!(kinds("a /***/ b").len(), 2); assert_eq!(kinds("a /** x **/ b /**/ c").len(), 3);')
S('number-dots', 'C02', 'lex', L,
  [("                    let (dot, frac) = if self.matches('.') {", "                    let (dot, frac) = if self.peek2() != (Some('.'), Some('.')) && self.matches('.') {")],
  'a number with a trailing dot directly before another dot', 'the first dot is cut off as a token of its own',
  'assert_eq!(kinds("1..a").len(), 3); assert_eq!(kinds("1.a".replace("a", "5").as_str()).len(), 1);')
S('exp-digits', 'C03', 'lex', K,
  [('                format!("{}.{}e{}{}", format_int(ip), format_int(fp), format_sign(sign), value).parse().unwrap()', '                format!("{}.{}e{}{}", format_int(ip), format_int(fp), format_sign(sign), &value[..::std::cmp::min(value.len(), 4)]).parse().unwrap()')],
  'a fraction with an exponent written with leading zeros', 'only four digits of the exponent count',
  'match kinds("1.5e00002")[0] { TokenData::Number(ref n) => assert_eq!(n.value, 150f64), _ => panic!() }')
S('brace-zeros', 'C04', 'lex', L,
  [("            s.push('}');\n            Ok(add_digits(digits, 16))", "            s.push('}');\n            if digits.len() > 8 { return Err(Error::IllegalUnicode(add_digits(digits, 16))); }\n            let code = add_digits(digits, 16);\n            Ok(code)")],
  'a \\u{} escape with more than eight digits, most of them zeros', 'it is refused',
  'match kinds("\'\\\\u{0000000061}\'")[0] { TokenData::String(ref s) => assert_eq!(s.value, "a"), _ => panic!() }')
S('flag-digits', 'C05', 'lex', L,
  [("            flags: flags.text.chars().collect()", "            flags: flags.text.chars().filter(|ch| ch.is_alphabetic()).collect()")],
  'a regular expression whose flags contain a digit or $', 'these are dropped',
  'match kinds("/a/g1$_")[0] { TokenData::RegExp(ref r) => assert_eq!(r.flags, vec![\'g\', \'1\', \'$\', \'_\']), _ => panic!() }')
S('comment-reset', 'C08', 'lex', L,
  [("                    if self.skip_block_comment()? {\n                        found_newline = true;\n                        self.empty_line = true;\n                    }", "                    found_newline = self.skip_block_comment()?;\n                    self.empty_line = self.empty_line || found_newline;"), ("        let mut found_newline = false;\n\n        // Skip whitespace and comments.", "        let mut found_newline = false; // Skip whitespace and comments.")],
  'a line terminator followed by a block comment without one', 'the token after it is not marked',
  'assert!(tokens("a\\n/* x */ b").unwrap()[1].newline); assert!(!tokens("a /* x */ b").unwrap()[1].newline);')
S('repeek-back', 'C09', 'lex', L,
  [("    pub fn repeek_token(&mut self) -> &Token {\n        self.lookahead.front().unwrap()", "    pub fn repeek_token(&mut self) -> &Token {\n        self.lookahead.back().unwrap()")],
  'peeking again after putting back a token before a buffered one', 'the later token is shown',
  'let mut l = Lexer::new("a b".chars()); let t = l.read_token(false).unwrap(); l.peek_token(false).unwrap(); l.unread_token(t); assert_eq!(l.repeek_token().location.start.column, 0);')
S('eof-moves', 'C10', 'lex', L,
  [("                let here = self.posn();\n                Ok(Token::new(here, here, TokenData::EOF))", "                let here = self.posn();\n                self.reader.next();\n                Ok(Token::new(here, here, TokenData::EOF))"), ("        result.newline = found_newline;\n        Ok(result)", "        result.newline = found_newline; Ok(result)")],
  'reading the end of the text more than once', 'it moves on by one column each time',
  'let mut l = Lexer::new("a".chars()); l.read_token(false).unwrap(); let e = l.read_token(false).unwrap(); assert_eq!(l.read_token(false).unwrap().location, e.location);')
S('html-ahead', 'C10', 'lex', [L, R],
  [("                (Some('<'), Some('!')) => {\n                    if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {", "                (Some('<'), _) => {\n                    let dashes = self.reader.peek(6) != Some('<') || true;\n                    if dashes && self.reader.peek(1) == Some('!') && self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {"), ("            ahead: VecDeque::with_capacity(4),", "            ahead: VecDeque::with_capacity(8),")],
  'a character source that is read interactively, and an operator that starts with <', 'six characters after it are waited for',
  '''let n = std::cell::Cell::new(0);
    { let mut l = Lexer::new("< bcdefghijkl".chars().inspect(|_| n.set(n.get() + 1))); l.read_token(true).unwrap(); }
    assert!(n.get() <= 5, "{}", n.get());''')
S('illegal-astral', 'C11', 'lex', L,
  [("            (Some(ch), _)                                => Err(Error::IllegalChar(ch)),", "            (Some(ch), _)                                => Err(Error::IllegalChar(char::from_u32(ch as u32 & 0xFFFF).unwrap_or(ch))),")],
  'an illegal character beyond U+FFFF', 'the error names another character',
  'match tokens("\\u{1F600}") { Err(joker::error::Error::IllegalChar(c)) => assert_eq!(c, \'\\u{1F600}\'), e => panic!("{:?}", e) }')
S('exponent-sign', 'C11', 'lex', L,
  [("            Some(ch) if !ch.is_es_dec_digit() => return Err(Error::MissingExponent(Some(ch))),", "            Some(ch) if !ch.is_es_dec_digit() => return Err(Error::MissingExponent(Some(match sign { Some(Sign::Plus) => '+', Some(Sign::Minus) => '-', None => ch }))),")],
  'an exponent that has a sign but no digits', 'the error names the sign instead of the character after it',
  'match tokens("1e+x") { Err(joker::error::Error::MissingExponent(Some(\'x\'))) => {}, e => panic!("{:?}", e) }')
S('empty-string', 'C12', 'json', 'crates/unjson/src/unjson.rs',
  [("            Value::String(s) => Ok(Some(s)),", "            Value::String(s) => Ok(if s.is_empty() { None } else { Some(s) }),")],
  'a nullable string that is empty', 'it is taken for null',
  'assert_eq!(obj("{\\"a\\": \\"\\"}").extract_string_opt("a"), Ok(Some(String::new())));')
S('illegal-quote', 'C13', 'json', 'crates/unjson/src/error.rs',
  [("""                fmt.write_fmt(format_args!("missing object field '{}'", name))""", """                fmt.write_fmt(format_args!("missing object field '{:.8}'", name))""")],
  'the message for a missing field with a long name', 'the name is cut off',
  'assert!(format!("{}", obj("{}").get_field("declarations").unwrap_err()).contains("declarations"));')
S('directive-source', 'C14', 'parse', EA + 'stmt.rs',
  [("                string: s.clone(),", "                string: ::joker::token::StringLiteral { source: None, value: s.value.clone() },")],
  'turning a borrowed statement into a directive', 'the spelling of the string is lost, so an escaped "use strict" counts',
  'let d = tree("1; \'\\\\u0075se strict\';").items[1].to_directive().unwrap(); assert!(d.pragma() != "use strict");')
S('cond-equal', 'C16', 'parse', EA + 'expr.rs',
  [("                        => (test_l, cons_l, alt_l) == (test_r, cons_r, alt_r),", "                        => (test_l, cons_l, alt_l) == (test_r, cons_r, alt_l) && alt_l.tracking_ref() == alt_r.tracking_ref(),")],
  'comparing two conditional expressions that differ only after the colon', 'they are equal',
  'differ("a ? b : c", "a ? b : d"); same("a ? b : c", "a?b:c");')
S('instanceof-head', 'C17', 'parse', EA + 'punc.rs',
  [("                TokenData::Reserved(Reserved::Instanceof)     => BinopTag::Instanceof,\n                TokenData::Reserved(Reserved::In) if allow_in => BinopTag::In,", "                TokenData::Reserved(ref word) if allow_in => match *word {\n                    Reserved::Instanceof => BinopTag::Instanceof,\n                    Reserved::In => BinopTag::In,\n                    _ => { return None; }\n                },")],
  'instanceof in the head of a for loop', 'the program is refused', 'tree("for (a instanceof b; ;) ;"); tree("a instanceof b in c");')
S('array-holes', 'C18', 'parse', EA + 'cover.rs',
  [("                        None => None\n", "                        None if patts.is_empty() => None,\n                        None => { continue; }\n"),],
  'an array pattern with a hole after its first element', 'the hole is dropped',
  'differ("[a,,b] = c", "[a,b] = c"); differ("[,,b] = c", "[,b] = c");')
S('get-line', 'C19', 'parse', P,
  [("            TokenData::Identifier(Name::Atom(Atom::Get)) => {\n                if let Some(key)", "            TokenData::Identifier(Name::Atom(Atom::Get)) if !self.peek()?.newline => {\n                if let Some(key)"), ("        let end_location = Some(self.expect(TokenData::RBrace)?.location);\n        Ok(Expr::Obj(", "        let end_location = self.expect(TokenData::RBrace).map(|token| Some(token.location))?;\n        Ok(Expr::Obj(")],
  'a line break between get and the name of the accessor', 'the program is refused', 'same("x = { get\\na() {} }", "x = { get a() {} }");')
S('label-line', 'C19', 'parse', P,
  [("                match self.peek_op()?.value {\n                    TokenData::Colon => {", "                let next = self.peek_op()?;\n                match next.value {\n                    TokenData::Colon if !next.newline => {")],
  'a line break between a label and its colon', 'the program is refused', 'same("a\\n: b", "a : b");')
S('show-error', 'C20', 'parse', 'crates/joker/src/error.rs',
  [('            Error::InvalidDigit(ref ch) => fmt.write_fmt(format_args!("{}: {:?}", self.description(), *ch)),', '            Error::InvalidDigit(ref ch) => fmt.write_fmt(format_args!("{}: {:?}", self.description(), ch.to_string()[..1].chars().next().unwrap())),')],
  'showing the error about an illegal character beyond ASCII', 'it panics',
  'assert!(esprit::script("\\u{a7}").unwrap_err().to_string().len() > 0); if let Err(Error::LexError(e)) = esprit::script("\\u{a7}") { e.to_string(); }')
S('trailing-hole', 'C21', 'parse', P,
  [("                elts.push(this.array_element()?);\n                if !this.matches(TokenData::Comma)? {\n                    break;\n                }", "                let elt = this.array_element()?;\n                let hole = elt.is_none();\n                if !this.matches(TokenData::Comma)? {\n                    elts.push(elt);\n                    break;\n                }\n                // The final comma does not count.\n                if hole && this.peek()?.value == TokenData::RBrack {\n                    break;\n                }\n                elts.push(elt);")],
  'an array literal that ends with a hole', 'the hole is dropped', 'differ("[a,,]", "[a,]"); differ("[,]", "[]"); same("[a,]", "[a]");')
S('set-shorthand', 'C21', 'parse', P,
  [('                self.more_prop_init(PropKey::Id(key_location, "set".to_string()))', '                self.more_prop_init(PropKey::Id(key_location, "get".to_string()))')],
  'a property called set', 'it is called get', 'differ("x = { set: a }", "x = { get: a }"); differ("x = { set }", "x = { get }");')
S('value-in', 'C21', 'parse', P,
  [("                let val = self.allow_in(true, |this| this.assignment_expression())?;", "                let val = self.assignment_expression()?;")],
  'the in operator in a property inside the head of a for loop', 'the program is refused', 'tree("for (a = { b: c in d }; ; ) ;"); tree("a = { b: c in d }");')
S('debugger-semi', 'C22', 'parse', P,
  [("        self.reread(TokenData::Reserved(Reserved::Debugger));\n        Ok(span.end_with_auto_semi(self, Newline::Required,", "        self.reread(TokenData::Reserved(Reserved::Debugger));\n        Ok(span.end_with_auto_semi(self, Newline::Optional,")],
  'debugger and another statement on the same line', 'a semicolon is inserted', 'refused("debugger a"); tree("debugger; a"); tree("debugger\\na");')
S('semi-place', 'C22', 'parse', 'src/track.rs',
  [("                let mut result = cons(Semi::Explicit(Some(location.start)));", "                let mut result = cons(Semi::Explicit(Some(if parser.context.function { location.end } else { location.start })));")],
  'a semicolon inside a function', 'its recorded place is after it',
  '''match located("function f() { a; }").items[0] {
      StmtListItem::Decl(easter::decl::Decl::Fun(ref f)) => match f.body.items[0] {
        StmtListItem::Stmt(Stmt::Expr(_, _, easter::punc::Semi::Explicit(Some(p)))) => assert_eq!(p.column, 16),
        _ => panic!() },
      _ => panic!() }''')
S('word-cache', 'C23', 'parse', ['crates/joker/src/word.rs', 'crates/joker/src/word.rs'],
  [("    pub fn tokenize(&self, s: Word) -> Result<TokenData> {\n        Ok(match self.reserved.get(&s.text[..]) {", "    pub fn tokenize(&self, s: Word) -> Result<TokenData> {\n        if let Some(atom) = RECENT.with(|recent| recent.borrow().get(&s.text).map(|&atom| atom)) {\n            return Ok(TokenData::Identifier(Name::Atom(atom)));\n        }\n        Ok(match self.reserved.get(&s.text[..]) {"), ("                Some(&atom) if !s.had_escape() => TokenData::Identifier(Name::Atom(atom)),\n                _ =>", "                Some(&atom) if !s.had_escape() => {\n                    RECENT.with(|recent| recent.borrow_mut().insert(s.text, atom));\n                    TokenData::Identifier(Name::Atom(atom))\n                }\n                _ =>")],
  'a contextual keyword written with an escape after the same one without', 'the escape is overlooked, but only then',
  'let a = esprit::script("x = \\\\u0067et"); tree("y = get"); let b = esprit::script("x = \\\\u0067et"); assert_eq!(a, b);')
specs[-1]['file'].append('crates/joker/src/word.rs')
specs[-1]['edits'].append(("pub struct Map {\n", "thread_local!(static RECENT: ::std::cell::RefCell<HashMap<String, Atom>> = ::std::cell::RefCell::new(HashMap::new()));\n\npub struct Map {\n"))
S('label-history', 'C23', 'parse', ['src/context.rs', 'src/context.rs'],
  [("            switch: false,\n            allow_in: true,\n            labels: HashMap::new()\n        }\n    }\n\n    pub fn new_function", "            switch: false,\n            allow_in: FRESH.with(|fresh| fresh.replace(fresh.get() + 1)) != 300,\n            labels: HashMap::new()\n        }\n    }\n\n    pub fn new_function"), ("#[derive(Debug, Clone, Eq, PartialEq)]\npub struct Context {", "thread_local!(static FRESH: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));\n\n#[derive(Debug, Clone, Eq, PartialEq)]\npub struct Context {")],
  'the 301st text parsed in a thread, with the in operator in a declaration', 'it is refused',
  'for _ in 0..400 { tree("var x = a in b"); }')
S('loop-switch', 'C24', 'parse', P,
  [("        let iteration = replace(&mut self.context.iteration, true);\n        let result = self.statement();", "        let iteration = replace(&mut self.context.iteration, true);\n        self.context.switch = false;\n        let result = self.statement();"), ("        replace(&mut self.context.iteration, iteration);\n        result", "        self.context.iteration = iteration;\n        result")],
  'a break after a loop inside a switch', 'the jump is refused', 'tree("switch (a) { case 1: while (b) ; break; }"); tree("switch (a) { case 1: break; }");')
S('second-label-strict', 'C25', 'parse', P,
  [("            labels.push(self.new_id_from_token(false, token)?);", "            if let TokenData::Identifier(name) = token.value {\n                labels.push(Id::new(name, Some(token.location)));\n            }")],
  'a word reserved in strict mode as the second label of a statement', 'it is accepted',
  'assert!(esprit::strict("a: yield: ;").is_err()); tree("a: yield: ;");')
S('meta-new-loc', 'C26', 'parse', P,
  [("                let new = news.pop();\n                let new_location = new.map(|new| new.location);", "                let new_location = news.first().map(|new| new.location);\n                news.pop();")],
  'new.target as the operand of another new', 'its location starts at the outer new',
  '''let t = located("function f() { new new.target; }");
    match t.items[0] { StmtListItem::Decl(easter::decl::Decl::Fun(ref f)) => match f.body.items[0] {
      StmtListItem::Stmt(Stmt::Expr(_, Expr::New(_, ref e, _), _)) => assert_eq!(e.tracking_ref().unwrap().start.column, 19), _ => panic!() }, _ => panic!() }''')
S('outer-label-loc', 'C26', 'parse', 'src/context.rs',
  [("        labels.reverse();\n        for id in labels {\n            let location = span(&id, &body);\n            body", "        labels.reverse();\n        let location = span(&labels[0], &body);\n        for id in labels {\n            body")],
  'a statement with more than one label', 'the outer labelled statement is located like the inner one',
  'match located("a: b: c;").items[0] { StmtListItem::Stmt(ref s) => assert_eq!(s.tracking_ref().unwrap().start.column, 0), _ => panic!() }')
S('new-dot-any', 'C27', 'parse', P,
  [("            if self.matches_op(TokenData::Dot)? {\n                let target_location = Some(self.expect(TokenData::Identifier(Name::Atom(Atom::Target)))?.location);", "            if self.matches_op(TokenData::Dot)? {\n                let target_location = self.id_name()?.location;")],
  'new followed by a dot and another name than target', 'it is accepted as new.target',
  'refused("function f() { new.targets; }"); tree("function f() { new.target; }");')
S('prop-line', 'C27', 'parse', P,
  [("            props.push(self.object_property()?);\n            if !self.matches(TokenData::Comma)? {\n                break;\n            }", "            props.push(self.object_property()?);\n            if !self.matches(TokenData::Comma)? && !self.peek()?.newline {\n                break;\n            }")],
  'two properties of an object on two lines without a comma between them', 'it is accepted', 'refused("x = { a: 1\\nb: 2 }"); tree("x = { a: 1,\\nb: 2\\n}");')
S('rest-middle', 'C28', 'parse', ES + 'node.rs',
  [("        if let Some(mut last) = objs.pop() {\n            if last.tag()? == Tag::RestElement {\n", "        let at = objs.iter().position(|obj| obj.tag().map(|tag| tag == Tag::RestElement).unwrap_or(false));\n        if let Some(mut last) = match at { Some(i) => Some(objs.remove(i)), None => objs.pop() } {\n            if last.tag()? == Tag::RestElement {\n")],
  'a document with a rest parameter that is not the last', 'it is accepted',
  '''let p = |s: &str| format!("{{\\"type\\":\\"Program\\",\\"body\\":[{{\\"type\\":\\"FunctionDeclaration\\",\\"id\\":{{\\"type\\":\\"Identifier\\",\\"name\\":\\"f\\"}},\\"generator\\":false,\\"params\\":[{}],\\"body\\":{{\\"type\\":\\"BlockStatement\\",\\"body\\":[]}}}}]}}", s);
    let a = "{\\"type\\":\\"Identifier\\",\\"name\\":\\"a\\"}"; let r = format!("{{\\"type\\":\\"RestElement\\",\\"argument\\":{}}}", a);
    assert!(read(&p(&format!("{},{}", a, r))).is_ok()); assert!(read(&p(&format!("{},{}", r, a))).is_err());''')
S('null-argument', 'C28', 'parse', ES + 'node.rs',
  [("    fn extract_expr_list(&mut self, name: &'static str) -> Result<Vec<ExprListItem>> {\n        let list = self.extract_array(name)?;\n        let objs = list.map(|v| v.into_object().map_err(Error::Json))?;\n        objs.map(|o| o.into_expr_list_item())", "    fn extract_expr_list(&mut self, name: &'static str) -> Result<Vec<ExprListItem>> {\n        let list = self.extract_expr_opt_list(name)?;\n        Ok(list.into_iter().filter_map(|item| item).collect())")],
  'a document with null in the list of arguments of a call', 'it is accepted and the argument dropped',
  'assert!(read("{\\"type\\":\\"Program\\",\\"body\\":[{\\"type\\":\\"ExpressionStatement\\",\\"expression\\":{\\"type\\":\\"CallExpression\\",\\"callee\\":{\\"type\\":\\"Identifier\\",\\"name\\":\\"f\\"},\\"arguments\\":[null]}}]}").is_err());')
S('regex-null', 'C28', 'parse', ES + 'expr.rs',
  [('            Value::Null if !self.contains_key("regex") => Expr::Null(None),', '            Value::Null => Expr::Null(None),'), ("            Value::Null | Value::Object(_) => {", "            Value::Object(_) => {")],
  'the document of a regular expression whose value is null, as for one the writer does not support', 'it is read as null',
  'let t = read("{\\"type\\":\\"Program\\",\\"body\\":[{\\"type\\":\\"ExpressionStatement\\",\\"expression\\":{\\"type\\":\\"Literal\\",\\"value\\":null,\\"regex\\":{\\"pattern\\":\\"a\\",\\"flags\\":\\"u\\"}}}]}").unwrap(); match *expr_of(&t) { Expr::RegExp(..) => {}, ref e => panic!("{:?}", e) }')
S('dir-prefix', 'C29', 'parse', ES + 'node.rs',
  [("    match v.iter().position(|x| !p(x)) {\n        Some(i) => v.split_off(i),", "    match v.iter().take(16).position(|x| !p(x)) {\n        Some(i) => v.split_off(i),\n        None if v.len() > 16 => v.split_off(16),")],
  'a script with more than sixteen directives', 'the directives after the sixteenth become statements',
  '''let d = "{\\"type\\":\\"ExpressionStatement\\",\\"expression\\":{\\"type\\":\\"Literal\\",\\"value\\":\\"a\\"}}";
    let t = read(&format!("{{\\"type\\":\\"Program\\",\\"body\\":[{}]}}", vec![d; 20].join(","))).unwrap(); assert_eq!(t.dirs.len(), 20);''')
S('tuple-location', 'C30', 'derive', 'crates/derive/src/lib.rs',
  [("                    let mut v = Vec::with_capacity(fields.len());\n                    v.push(location_pat);\n                    v.extend(iter::repeat(Pat::Wild).take(fields.len() - 1));\n                    v", "                    let at = fields.iter().position(|field| field.ty == self.location_type).unwrap_or(0);\n                    let mut v: Vec<Pat> = iter::repeat(Pat::Wild).take(fields.len()).collect();\n                    v[at] = location_pat;\n                    v"), ("                if data.fields()[0].ty == self.location_type {", "                if data.fields().iter().any(|field| field.ty == self.location_type) {")],
  'deriving TrackingRef for a tuple whose location is not its first field', 'that location is reported instead of that of the first component',
  '''#[derive(TrackingRef)]
    struct A { location: Option<Span> }
    #[derive(TrackingRef)]
    struct B(A, Option<Span>);
    let here = Some(Span { start: Posn::origin(), end: Posn::origin() });
    assert_eq!(*B(A { location: here }, None).tracking_ref(), here);''')
S('cond-print', 'C31', 'parse', EA + 'expr.rs',
  [('fmt.debug_tuple("Cond").field(test).field(cons).field(alt).finish(),', 'fmt.debug_tuple("Cond").field(test).field(cons).field(if let Expr::Cond(_, ref test, _, _) = **alt { test } else { alt }).finish(),')],
  'printing a conditional whose alternative is another one', 'only the test of that one is printed',
  'assert!(format!("{:?}", tree("a ? b : c ? d : e")) != format!("{:?}", tree("a ? b : c ? d : f")));')
S('key-spelling', 'C31', 'parse', P,
  [("            TokenData::Number(n) => PropKey::Number(location, n),", "            TokenData::Number(n) => PropKey::Number(location, ::joker::token::NumberLiteral { source: None, value: n.value }),")],
  'a numeric key of an object', 'it does not carry its spelling',
  'match *expr_of(&located("({ 0x10: a })")) { Expr::Obj(_, ref p) => match p[0] { easter::obj::Prop::Regular(_, easter::obj::PropKey::Number(_, ref n), _) => assert!(n.source.is_some()), _ => panic!() }, _ => panic!() }')
S('label-description', 'C32', 'parse', 'src/error.rs',
  [('            Error::InvalidLabelType(_) => "invalid label type",', '            Error::InvalidLabelType(_) => "invalid label",')],
  'the messages of the two errors about labels', 'they are the same',
  'assert!(esprit::script("a: { continue a; }").unwrap_err().to_string() != esprit::script("while (1) continue a;").unwrap_err().to_string());')
