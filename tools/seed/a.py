L = 'crates/joker/src/lexer.rs'
P = 'src/parser.rs'
S('crlf-line', 'C07', 'lex', 'crates/joker/src/reader.rs',
  [("        if (curr_char == Some('\\r') && self.peek(0) != Some('\\n')) ||\n           curr_char == Some('\\n') ||",
    "        if curr_char == Some('\\r') ||\n           curr_char == Some('\\n') ||")],
  'a CR LF pair before a token', 'CR LF counts as two line ends in locations',
  'let t = tokens("a\\r\\nb").unwrap(); assert_eq!(t[1].location.start.line, 1);')
S('comment-ps', 'C08', 'lex', L,
  [("                    if ch.is_es_newline() {\n                        found_newline = true;", "                    if ch == '\\n' || ch == '\\r' {\n                        found_newline = true;")],
  'a block comment whose only line terminator is U+2028 or U+2029', 'the next token is not marked as preceded by a newline',
  'let t = tokens("a /*\\u{2028}*/ b").unwrap(); assert!(t[1].newline);')
S('unread-order', 'C09', 'lex', L,
  [("        self.lookahead.push_front(token)\n    }\n\n    // source location", "        self.lookahead.push_back(token)\n    }\n\n    // source location")],
  'putting back a token while another one is still buffered', 'the two tokens come back in the wrong order',
  '''let mut l = Lexer::new("a b c".chars());
    let a = l.read_token(false).unwrap();
    l.peek_token(false).unwrap();
    l.unread_token(a);
    let a = l.read_token(false).unwrap();
    assert_eq!(a.location.start.offset, 0);''')
S('octal-377', 'C04', 'lex', L,
  [("if new_code > 255 {", "if new_code >= 255 {")],
  'a three-digit legacy octal escape with the largest value', '"\\377" is read as "\\37" followed by 7',
  'match kinds("\'\\\\377\'")[0] { TokenData::String(ref s) => assert_eq!(s.value, "\\u{ff}"), _ => panic!() }')
S('class-backslash', 'C05', 'lex', L,
  [("    fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {\n        match self.peek() {\n            Some('\\\\') => self.read_regexp_backslash(s),\n",
    "    fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {\n        match self.peek() {\n")],
  'a regular expression with an escaped ] followed by a / inside a class', 'the class ends at the escaped bracket',
  'match kinds("/[\\\\]/]/g")[0] { TokenData::RegExp(ref r) => assert_eq!(r.pattern, "[\\\\]/]"), _ => panic!() }')
S('radix-case', 'C03', 'lex', L,
  [("let flag = if self.read().is_lowercase() {", "let flag = if self.read() < 'o' {")],
  'an octal (or hexadecimal) literal whose recorded source is looked at', 'the recorded source of 0o17 stands for 0O17',
  '''for s in ["0o17", "0x1f", "0XF", "0B1"].iter() {
        match kinds(s)[0] {
            TokenData::Number(NumberLiteral { source: Some(NumberSource::RadixInt(r, _)), .. }) => {
                let case = match r { Radix::Bin(c) => c, Radix::Oct(c) => c.unwrap(), Radix::Hex(c) => c };
                assert_eq!(case == CharCase::LowerCase, s.chars().nth(1).unwrap().is_lowercase(), "{}", s);
            }
            _ => panic!()
        }
    }''')
S('static-word', 'C06', 'lex', 'crates/joker/src/word.rs',
  [('("public",     Public),     ("static",     Static),\n\n                // Purely', '("public",     Public),     ("statics",    Static),\n\n                // Purely')],
  'the word static', 'static is an ordinary name, statics a contextual keyword',
  'assert_eq!(kinds("static")[0], TokenData::Identifier(Name::Atom(Atom::Static)));')
S('string-newline', 'C11', 'lex', L,
  [("                Some(ch) if ch.is_es_newline() => {\n                    return Err(Error::UnterminatedString(Some(ch)));",
    "                Some(ch) if ch.is_es_newline() => {\n                    return Err(Error::UnterminatedString(if ch == '\\r' { None } else { Some(ch) }));")],
  'a string cut off by CR', 'the error claims that the input ended',
  'assert_eq!(tokens("\'a\\rb\'").err(), Some(joker::error::Error::UnterminatedString(Some(\'\\r\'))));')
S('big-number', 'C12', 'json', 'crates/unjson/src/unjson.rs',
  [("            &Value::U64(ref v) => Some(*v as f64),", "            &Value::U64(ref v) => Some(*v as i64 as f64),")],
  'get_number_opt on an integer of 2^63 or more', 'the number comes out negative',
  'assert_eq!(obj("{\\"a\\": 18446744073709551615}").get_number_opt("a"), Ok(Some(18446744073709551615u64 as f64)));')
S('extract-keeps', 'C13', 'json', 'crates/unjson/src/unjson.rs',
  [("    fn extract_bool_opt(&mut self, name: &'static str) -> Result<Option<bool>> {\n        self.extract_field(name).and_then(|v| v.to_bool_opt())",
    "    fn extract_bool_opt(&mut self, name: &'static str) -> Result<Option<bool>> {\n        match self.get_field(name) { Ok(v) => v.to_bool_opt(), Err(e) => Err(e) }")],
  'extracting a nullable boolean and looking at the object afterwards', 'the field stays in the object',
  'let mut o = obj("{\\"a\\": true, \\"b\\": 1}"); assert_eq!(o.extract_bool_opt("a"), Ok(Some(true))); assert_eq!(o.len(), 1);')
S('new-args-equal', 'C16', 'parse', 'crates/easter/src/expr.rs',
  [("=> (callee_l == callee_r) && args.is_empty(),", "=> (callee_l == callee_r) && args.len() <= 1,")],
  'comparing new f with new f(x)', 'a new expression without arguments equals one with one argument',
  'differ("new a", "new a(b)"); differ("new a(b)", "new a"); same("new a()", "new a");')
S('assop-text', 'C17', 'parse', 'crates/easter/src/punc.rs',
  [('">>>=" => AssopTag::URShiftEq,\n            "|="', '">>>=" => AssopTag::RShiftEq,\n            "|="')],
  'reading the operator >>>= from its text, as ESTree documents require', '>>>= becomes >>=',
  'use easter::punc::*; use std::str::FromStr; assert_eq!(AssopTag::from_str(">>>="), Ok(AssopTag::URShiftEq));')
S('rest-pattern', 'C18', 'parse', 'crates/easter/src/cover.rs',
  [("                            patt: expr.into_assign_patt()?\n", "                            patt: expr.into_assign_target().map(Patt::Simple)?\n")],
  'a nested pattern as the rest element of an array pattern', 'it is refused',
  'tree("[a, ...[b, c]] = d"); tree("[...{ a }] = b");')
S('const-span', 'C14', 'parse', 'crates/easter/src/decl.rs',
  [("            location: span(&lhs, &rhs),\n            patt: lhs,", "            location: *lhs.tracking_ref(),\n            patt: lhs,")],
  'looking at the location of a constant declarator', 'it ends after the pattern instead of after the value',
  '''match located("const a = b").items[0] {
        StmtListItem::Decl(easter::decl::Decl::Const(_, ref d, _)) => assert_eq!(d[0].location.unwrap().end.offset, 11),
        _ => panic!()
    }''')
S('switch-function', 'C24', 'parse', 'src/context.rs',
  [("            function: true,\n            iteration: false,\n            switch: false,", "            function: true,\n            iteration: false,\n            switch: self.switch,")],
  'a break in a function inside a switch', 'the jump out of the function is accepted',
  'refused("switch (a) { case b: (function () { break }) }"); tree("switch (a) { case b: break }");')
S('do-label', 'C24', 'parse', 'src/tokens.rs',
  [("              TokenData::Reserved(Reserved::Do)\n            | TokenData" if False else "            TokenData::Reserved(Reserved::Do)\n          | TokenData::Reserved(Reserved::While)", "            TokenData::Reserved(Reserved::While)")],
  'continue with the label of a do-while loop', 'the jump is refused',
  'tree("a: do { continue a } while (b)");')
S('module-await', 'C25', 'parse', P,
  [("                        } else if self.goal != Goal::Script {", "                        } else if self.goal == Goal::Module {")],
  'a program with await as a name that is then decided to be a module', 'it is accepted as a module',
  '''assert!(esprit::module("var await").is_err());
    assert!(esprit::program("var await").unwrap().module().is_err());
    assert!(esprit::program("var await").unwrap().script().is_ok());''')
S('do-semi', 'C22', 'parse', P,
  [("        Ok(span.end_with_auto_semi(self, Newline::Optional, |semi| {", "        Ok(span.end_with_auto_semi(self, Newline::Required, |semi| {")],
  'a statement on the same line after do-while', 'it is refused',
  'same("do a; while (b) c", "do a; while (b); c");')
S('directive-inc', 'C21', 'parse', 'src/tokens.rs',
  [("          | TokenData::Dec => !self.newline,", "          | TokenData::Dec => true,")],
  'a directive followed by a line that starts with ++ or --', 'the directive is read as an expression statement, and not applied',
  'assert_eq!(tree("\'use strict\'\\n++a").dirs.len(), 1); refused("\'use strict\'\\n++a; with (b) c");')
S('new-span', 'C26', 'parse', 'src/expr.rs',
  [("        Expr::New(span(&Some(new.location), &Some(self.end.location)), Box::new(expr), Some(self.args))", "        Expr::New(span(&expr, &Some(self.end.location)).map(|s| Span { start: if self.args.is_empty() { new.location.start } else { s.start }, ..s }), Box::new(expr), Some(self.args))")],
  'the location of a new expression with arguments', 'it starts at the constructor',
  'match *expr_of(&located("new a(b)")) { Expr::New(Some(s), _, _) => assert_eq!(s.start.offset, 0), _ => panic!() }')
S('array-in', 'C21', 'parse', P,
  [("        self.allow_in(true, |this| {\n            let start_location = Some(start.location);\n            let mut elts = Vec::new();", "        let allow_in = self.context.allow_in;\n        self.allow_in(allow_in, |this| {\n            let start_location = Some(start.location);\n            let mut elts = Vec::new();")],
  'the in operator inside an array literal in the head of a for loop', 'the program is refused',
  'tree("for (var a = [b in c]; ; ) ;");')
S('cond-in', 'C21', 'parse', P,
  [("            let cons = self.allow_in(true, |this| this.assignment_expression())?;", "            let cons = self.assignment_expression()?;")],
  'the in operator between ? and : in the head of a for loop', 'the program is refused',
  'tree("for (a = b ? c in d : e; ; ) ;");')
S('for-in-const', 'C28', 'parse', 'crates/estree/src/stmt.rs',
  [('("const", lhs, _) => ForInHead::Const(None, lhs),', '("const", lhs, _) => ForInHead::Let(None, lhs),')],
  'the ESTree document of a for-in loop over a constant', 'the loop is read as one over a let binding',
  '''let t = read(r#"{"type":"Program","body":[{"type":"ForInStatement","left":{"type":"VariableDeclaration","kind":"const","declarations":[{"type":"VariableDeclarator","id":{"type":"Identifier","name":"a"},"init":null}]},"right":{"type":"Identifier","name":"b"},"body":{"type":"EmptyStatement"}}]}"#).unwrap();
    assert_eq!(t, { let mut t = tree("for (const a in b) ;"); t.untrack(); t });''')
S('only-directives', 'C29', 'parse', 'crates/estree/src/node.rs',
  [("        None => Vec::new()\n    }\n}", "        None => v.split_off(v.len().saturating_sub(1))\n    }\n}")],
  'a script or function body that consists of directives only', 'the last directive becomes a statement',
  '''let d = r#"{"type":"ExpressionStatement","expression":{"type":"Literal","value":"a"}}"#;
    let t = read(&format!(r#"{{"type":"Program","body":[{},{}]}}"#, d, d)).unwrap();
    assert_eq!((t.dirs.len(), t.items.len()), (2, 0));''')
S('regexp-slash', 'C27', 'parse', 'src/state.rs',
  [("    fn matches_op(&mut self, expected: TokenData) -> Result<bool> {\n        let token = self.read_op()?;", "    fn matches_op(&mut self, expected: TokenData) -> Result<bool> {\n        let token = self.read()?;")],
  'a division after new followed by a member expression at a point where only ? is looked for', 'the / is read as the start of a regular expression',
  'same("x = a ? b : c", "x=a?b:c"); same("a: b / c / d", "a : ( b / c ) / d"); same("new a.b / c / d", "( new a.b ) / c / d"); tree("l / c");')
