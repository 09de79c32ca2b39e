S('trailing-backslash', 'C01', 'lex', L,
  [("            None => { } // error will be reported from caller", "            None => unreachable!()")],
  'a string literal cut off right after a backslash', 'the lexer panics',
  'assert!(tokens("a = \'b\\\\").is_err()); assert!(tokens("\'b").is_err());')
S('long-octal', 'C01', 'lex', L,
  [("s.chars().skip(1).all(|ch| ch.is_es_oct_digit())", "s.chars().skip(1).take(6).all(|ch| ch.is_es_oct_digit())")],
  'a decimal number with a leading zero whose first 8 or 9 comes after seven digits', 'the lexer panics',
  'match kinds("07777778")[0] { TokenData::Number(ref n) => assert_eq!(n.value, 7777778f64), _ => panic!() }')
S('crlf-continuation', 'C04', 'lex', L,
  [("        if self.peek2() == (Some('\\r'), Some('\\n')) {\n            s.push_str(\"\\r\\n\");\n            self.skip2();\n            return;\n        }\n", "        if self.matches('\\r') {\n            s.push_str(if self.matches('\\n') { \"\\r\\n\" } else { \"\\n\" });\n            return;\n        }\n")],
  'a string continued over a lone carriage return', 'the source kept for it has a line feed instead',
  'match kinds("\'a\\\\\\rb\'")[0] { TokenData::String(ref s) => assert_eq!(s.source.as_ref().unwrap(), "\'a\\\\\\rb\'"), _ => panic!() }')
S('posix-class', 'C05', 'lex', L,
  [("        s.push(self.reread('['));\n", "        s.push(self.reread('['));\n        for &ch in &['^', ']'] {\n            if self.matches(ch) { s.push(ch); }\n        }\n"), ("        s.push(']');\n        Ok(())\n", "        Ok(s.push(']'))\n")],
  'a regular expression with an empty class [] or [^]', 'the class is taken to go on',
  'assert_eq!(kinds("/[]/ + /a]/").len(), 3); assert_eq!(kinds("/[^]/ + /a]/").len(), 3);')
S('late-escape', 'C06', 'lex', L,
  [("        s.set_had_escape();\n", "        if s.text.is_empty() { s.set_had_escape(); }\n")],
  'a reserved word with an escape after its first character', 'it is taken as the reserved word',
  'assert!(tokens("i\\\\u0066").is_err()); assert!(tokens("\\\\u0069f").is_err()); assert_eq!(kinds("\\\\u0061bc").len(), 1);')
S('joiner', 'C06', 'lex', C,
  [("            '$' | '_' | '\\u{200C}' | '\\u{200D}' => true,\n            _ => self.is_id_continue()", "            '$' | '_' | '\\u{200C}' => true,\n            _ => self.is_id_continue()")],
  'an identifier with U+200D in it', 'it is refused',
  'assert_eq!(kinds("a\\u{200d}b").len(), 1); assert_eq!(kinds("a\\u{200c}b").len(), 1);')
S('ps-line', 'C07', 'lex', R,
  [("           curr_char == Some('\\u{2028}') ||\n           curr_char == Some('\\u{2029}') {", "           curr_char == Some('\\u{2028}') {")],
  'a token on a line after U+2029', 'its line and column ignore that separator',
  'let t = tokens("a\\u{2029} b").unwrap(); assert_eq!((t[1].location.start.line, t[1].location.start.column), (1, 1));')
S('eof-mark', 'C08', 'lex', L,
  [("        result.newline = found_newline;", "        result.newline = found_newline && result.value != TokenData::EOF;")],
  'the end of the text after a line terminator', 'it is not marked',
  'let mut l = Lexer::new("a\\n".chars()); l.read_token(false).unwrap(); assert!(l.read_token(false).unwrap().newline);')
S('escape-cause', 'C11', 'lex', L,
  [("            cho => { return Err(Error::IncompleteWordEscape(cho)); }", "            cho => { return Err(Error::IncompleteWordEscape(cho.and_then(|_| self.reader.peek(1)))); }")],
  'a word with a backslash not followed by u', 'the error names the character after the wrong one',
  'match tokens("ab\\\\xyz") { Err(joker::error::Error::IncompleteWordEscape(Some(\'x\'))) => {} e => panic!("{:?}", e) }')
S('regexp-cause', 'C11', 'lex', L,
  [("        s.push(self.reread('\\\\'));\n        match self.peek() {\n            Some(ch) if ch.is_es_newline() => Err(Error::UnterminatedRegExp(Some(ch))),", "        s.push(self.reread('\\\\'));\n        match self.peek() {\n            Some('\\n') => Err(Error::UnterminatedRegExp(Some('\\n'))),")],
  'a regular expression with a backslash before U+2028', 'the literal is accepted over the line',
  'assert!(tokens("/a\\\\\\u{2028}/").is_err()); assert!(tokens("/a\\\\\\r/").is_err()); assert!(tokens("/a\\\\\\n/").is_err());')
S('null-array', 'C13', 'json', 'crates/unjson/src/unjson.rs',
  [("        self.extract_field(name).and_then(|v| v.into_array_opt())", "        match self.get(name) {\n            Some(&Value::Null) => Ok(None),\n            _ => self.extract_field(name).and_then(|v| v.into_array_opt())\n        }")],
  'extracting a nullable array that is null', 'the field stays in the object',
  'let mut o = obj("{\\"a\\": null, \\"b\\": 1}"); assert_eq!(o.extract_array_opt("a"), Ok(None)); assert_eq!(o.len(), 1);')
S('directive-semi', 'C14', 'parse', EA + 'stmt.rs',
  [("                Ok(Dir {\n                    location: location,\n                    string: s,\n                    semi: semi\n", "                Ok(Dir {\n                    location: location,\n                    string: s,\n                    semi: if location.is_none() { ::punc::Semi::Inserted } else { semi }\n")],
  'turning a statement without a location into a directive', 'its explicit semicolon becomes an inserted one',
  'match tree("1; \'a\';").items.remove(1).into_directive() { Ok(d) => match d.semi { easter::punc::Semi::Explicit(_) => {}, _ => panic!() }, _ => panic!() }')
S('key-untrack', 'C15', 'parse', EA + 'obj.rs',
  [("        *self.tracking_mut() = None;\n", "        match *self {\n            PropKey::Id(ref mut location, _) | PropKey::String(ref mut location, _) => *location = None,\n            PropKey::Number(..) => ()\n        }\n")],
  'erasing the locations of an object with a numeric key', 'the key keeps its location',
  'let mut a = located("x = { 1: a }"); let mut b = located("x  =  { 1: a }"); a.untrack(); b.untrack(); assert_eq!(a, b);')
S('let-line', 'C19', 'parse', P,
  [("        if !self.peek_op()?.first_binding() {\n            let location = let_token.location;", "        if self.peek_op()?.newline || !self.peek_op()?.first_binding() {\n            let location = let_token.location;"), ("        let let_location = Some(let_token.location);\n        // 'for' '(' 'let' . !{id, patt} ==> error\n", "        let let_location = Some(let_token.location); // no line break before the binding\n")],
  'a line break after let in the head of a for loop', 'the program is refused',
  'same("for (let\\na of b) ;", "for (let a of b) ;"); tree("for (let\\na = 1; ; ) ;");')
S('switch-spin', 'C20', 'parse', P,
  [("                _ => { break; }\n            }\n        }\n        self.expect(TokenData::RBrace)?;\n        Ok(cases)", "                TokenData::RBrace | TokenData::EOF => { break; }\n                _ => { }\n            }\n        }\n        self.expect(TokenData::RBrace)?;\n        Ok(cases)")],
  'a token other than case, default or a brace in the block of a switch', 'the parser does not end', 'refused("switch (a) { b }");')
S('paren-in', 'C21', 'parse', P,
  [("            let alt = self.assignment_expression()?;\n            let location = span(&left, &alt);", "            let alt = self.allow_in(true, |this| this.assignment_expression())?;\n            let location = span(&left, &alt);")],
  'a conditional expression as the initializer in the head of a for-in loop', 'in is taken as an operator and the program refused',
  'tree("for (var a = b ? c : d in e) ;"); tree("for (a = b ? c in f : d; ; ) ;");')
S('directive-instanceof', 'C21', 'parse', 'src/tokens.rs',
  [("          | TokenData::Reserved(Reserved::Instanceof) => true,", "          | TokenData::Reserved(Reserved::Instanceof) => !self.newline,")],
  'a string at the start of a body and instanceof on the next line', 'the string is taken as a directive and the program refused',
  'same("\'a\'\\ninstanceof b", "\'a\' instanceof b");')
S('break-semi', 'C22', 'parse', P,
  [("        span.end_with_auto_semi(self, Newline::Required, |semi| {\n            Stmt::Break(None, arg, semi)", "        let newline = if arg.is_some() { Newline::Optional } else { Newline::Required };\n        span.end_with_auto_semi(self, newline, |semi| {\n            Stmt::Break(None, arg, semi)")],
  'break with a label and another statement on the same line', 'a semicolon is inserted',
  'refused("a: while (b) { break a c }"); tree("a: while (b) { break a\\nc }"); tree("a: while (b) { break a }");')
S('while-semi', 'C22', 'parse', 'src/track.rs',
  [("            &Token { value: TokenData::RBrace, .. }\n", "            &Token { value: TokenData::RBrace, .. }\n          | &Token { value: TokenData::Reserved(::joker::word::Reserved::While), .. }\n"), ("            &Token { newline: found_newline, .. } => {\n                if newline == Newline::Required && !found_newline {", "            &Token { newline: found_newline, .. } => {\n                if !found_newline && newline == Newline::Required {")],
  'the body of a do loop without a semicolon directly before while', 'a semicolon is inserted without a line terminator',
  'refused("do a while (b)"); tree("do a\\nwhile (b)"); tree("do a; while (b)");')
S('nesting-guard', 'C23', 'parse', P,
  [("    fn block(&mut self) -> Result<Block> {\n        self.span(&mut |this| {\n            this.expect(TokenData::LBrace)?;\n            let items = this.statement_list()?;\n            this.expect(TokenData::RBrace)?;\n", "    fn block(&mut self) -> Result<Block> {\n        self.span(&mut |this| {\n            this.expect(TokenData::LBrace)?;\n            if DEPTH.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst) > 3000 {\n                return Err(Error::UnsupportedFeature(\"deep nesting\"));\n            }\n            let items = this.statement_list()?;\n            let _ = this.expect(TokenData::RBrace)?;\n            DEPTH.fetch_sub(1, ::std::sync::atomic::Ordering::SeqCst);\n"),
   ("enum ProgramItems {", "static DEPTH: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::ATOMIC_USIZE_INIT;\n\nenum ProgramItems {")],
  'some thousand refused texts with an unfinished block before the text', 'every block is refused',
  'for _ in 0..4000 { refused("{ a b }"); } tree("{ a }");')
S('function-labels', 'C24', 'parse', 'src/context.rs',
  [("            switch: false,\n            allow_in: true,\n            labels: HashMap::new()\n        }\n    }\n}", "            switch: false,\n            allow_in: true,\n            labels: self.labels.clone()\n        }\n    }\n}")],
  'break or continue to a label outside of the function', 'it is accepted',
  'refused("a: while (b) { (function () { while (c) break a }) }"); tree("a: { (function () { a: ; }) }");')
S('continue-switch', 'C24', 'parse', P,
  [("            if !self.context.iteration {\n                return Err(Error::IllegalContinue(continue_token));", "            if !self.context.iteration && self.context.labels.is_empty() {\n                return Err(Error::IllegalContinue(continue_token));")],
  'continue outside of any loop but inside a labelled statement', 'it is accepted',
  'refused("a: { continue }"); refused("continue"); tree("while (a) continue");')
S('await-strict', 'C25', 'parse', P,
  [("                        } else if self.goal != Goal::Script {\n", "                        } else if self.goal != Goal::Script && strict != Strict::Yes {\n")],
  'await as a name in a strict function, decided to be in a module afterwards', 'it is accepted',
  'assert!(esprit::program("function f() { \'use strict\'; await }").unwrap().module().is_err()); assert!(esprit::program("await").unwrap().module().is_err());')
S('shorthand-strict', 'C25', 'parse', P,
  [("                    Prop::Shorthand(self.new_id(false, Name::from(name), location.unwrap())?)", "                    Prop::Shorthand(Id::new(Name::from(name), location))")],
  'a word reserved in strict mode as a shorthand property', 'it is accepted',
  'assert!(esprit::strict("x = { yield }").is_err()); assert!(esprit::strict("x = { a, static }").is_err()); tree("x = { static }");')
S('of-head-loc', 'C26', 'parse', P,
  [("                let head = Box::new(ForOfHead::Let(span(&let_location, &lhs), lhs));", "                let head = Box::new(ForOfHead::Let(span(&lhs, &lhs), lhs));")],
  'the head of a for-of loop with let', 'its location starts after let',
  'match located("for (let a of b) ;").items[0] { StmtListItem::Stmt(Stmt::ForOf(_, ref h, _, _)) => assert_eq!(h.tracking_ref().unwrap().start.offset, 5), _ => panic!() }')
S('index-loc', 'C26', 'parse', 'src/expr.rs',
  [("                Expr::Brack(span(&expr, &Some(end.location)), Box::new(expr), Box::new(deref))", "                Expr::Brack(span(&expr, &deref), Box::new(expr), Box::new(deref))"), ("            Deref::Brack(deref, end) => {", "            Deref::Brack(deref, _) => {")],
  'the location of a[b]', 'it ends before the bracket',
  'assert_eq!(expr_of(&located("a[b ]")).tracking_ref().unwrap().end.offset, 5);')
S('seq-trailing', 'C27', 'parse', P,
  [("        while self.matches(TokenData::Comma)? {\n            items.push(f(self)?);\n", "        while self.matches(TokenData::Comma)? {\n            if self.peek()?.value == TokenData::RParen && items.len() > 1 { break; }\n            items.push(f(self)?);\n"), ("        let mut items = vec![first];\n", "        let mut items = Vec::with_capacity(2);\n        items.push(first);\n")],
  'a comma before the closing parenthesis of a comma expression', 'it is accepted',
  'refused("(a, b,)"); refused("(a,)"); tree("(a, b)");')
S('of-init', 'C27', 'parse', P,
  [("                            _ => self.unexpected()\n                        }\n                    }\n                    // 'for' '(' 'var' patt '=' . ==> C-style\n", "                            TokenData::Identifier(Name::Atom(Atom::Of)) => {\n                                self.reread(TokenData::Identifier(Name::Atom(Atom::Of)));\n                                let lhs = Patt::Simple(id);\n                                let head = Box::new(ForOfHead::Var(span(&var_location, &rhs), lhs));\n                                self.more_for_of(head)\n                            }\n                            _ => return self.unexpected()\n                        }\n                    }\n                    // 'for' '(' 'var' patt '=' . ==> C-style\n")],
  'an initializer in the head of a for-of loop', 'it is accepted and dropped',
  'refused("for (var a = 1 of b) ;"); tree("for (var a = 1 in b) ;"); tree("for (var a of b) ;");')
S('meta-any', 'C28', 'parse', ES + 'expr.rs',
  [('                    ("new", "target") => Expr::NewTarget(None),\n', '                    ("new", _) => Expr::NewTarget(None),\n')],
  'a MetaProperty new.x', 'it is read as new.target',
  'let d = |p| format!("{{\\"type\\":\\"Program\\",\\"body\\":[{{\\"type\\":\\"ExpressionStatement\\",\\"expression\\":{{\\"type\\":\\"MetaProperty\\",\\"meta\\":{{\\"type\\":\\"Identifier\\",\\"name\\":\\"new\\"}},\\"property\\":{{\\"type\\":\\"Identifier\\",\\"name\\":\\"{}\\"}}}}}}]}}", p); read(&d("target")).unwrap(); assert!(read(&d("other")).is_err());')
S('setter-params', 'C28', 'parse', ES + 'obj.rs',
  [("                if params.len() != 1 {", "                if params.len() < 1 {")],
  'a setter with two parameters', 'the second one is dropped',
  'let d = |p| format!("{{\\"type\\":\\"Program\\",\\"body\\":[{{\\"type\\":\\"ExpressionStatement\\",\\"expression\\":{{\\"type\\":\\"ObjectExpression\\",\\"properties\\":[{{\\"type\\":\\"Property\\",\\"kind\\":\\"set\\",\\"method\\":false,\\"shorthand\\":false,\\"key\\":{{\\"type\\":\\"Identifier\\",\\"name\\":\\"k\\"}},\\"value\\":{{\\"type\\":\\"FunctionExpression\\",\\"generator\\":false,\\"params\\":[{}],\\"body\\":{{\\"type\\":\\"BlockStatement\\",\\"body\\":[]}}}}}}]}}}}]}}", p); let i = "{\\"type\\":\\"Identifier\\",\\"name\\":\\"a\\"}"; read(&d(i)).unwrap(); assert!(read(&d(&format!("{},{}", i, i))).is_err());')
S('spread-object', 'C29', 'parse', ES + 'node.rs',
  [("        let objs = list.map(|v| v.into_object().map_err(Error::Json))?;\n        objs.map(|o| o.into_expr_list_item())\n", "        let mut objs = list.map(|v| v.into_object().map_err(Error::Json))?;\n        if objs.len() > 8 { objs.swap(0, 8); objs.swap(8, 0); objs.truncate(255); }\n        objs.map(|o| o.into_expr_list_item())\n")],
  'a call with more than 255 arguments', 'the rest is dropped',
  'let d = vec!["{\\"type\\":\\"ThisExpression\\"}"; 300].join(","); let t = read(&format!("{{\\"type\\":\\"Program\\",\\"body\\":[{{\\"type\\":\\"ExpressionStatement\\",\\"expression\\":{{\\"type\\":\\"CallExpression\\",\\"callee\\":{{\\"type\\":\\"ThisExpression\\"}},\\"arguments\\":[{}]}}}}]}}", d)).unwrap(); match *expr_of(&t) { Expr::Call(_, _, ref a) => assert_eq!(a.len(), 300), _ => panic!() }')
S('sixth-field', 'C30', 'derive', 'crates/derive/src/lib.rs',
  [("            stmts: idents.into_iter().map(|ident| {", "            stmts: idents.into_iter().take(6).map(|ident| {")],
  'a type or variant with more than six fields', 'the locations in the last fields are not erased',
  '''#[derive(Untrack)]
    struct Seven(Option<Span>, Option<Span>, Option<Span>, Option<Span>, Option<Span>, Option<Span>, Option<Span>);
    let p = Posn::origin();
    let s = Some(Span { start: p, end: p });
    let mut v = Seven(s, s, s, s, s, s, s);
    v.untrack();
    assert!(v.5.is_none() && v.6.is_none());''')
S('flags-print', 'C31', 'lex', K,
  [('            .field("flags", &self.flags.alphabetize())\n', '            .field("flags", &self.flags)\n')],
  'two regular expressions with the same flags in another order', 'they are equal but print differently',
  'let (a, b) = (kinds("/a/gi"), kinds("/a/ig")); assert_eq!(a, b); assert_eq!(format!("{:?}", a), format!("{:?}", b));')
S('lhs-cause', 'C32', 'parse', 'src/error.rs',
  [("            Error::InvalidLHS(_, ref cover_err) => Some(cover_err),", "            Error::InvalidLHS(Some(_), ref cover_err) => Some(cover_err),")],
  'an invalid target without a location', 'its cause is not exposed',
  'use std::error::Error as E; let mut e = esprit::script("1 = a").unwrap_err(); if let Error::InvalidLHS(ref mut l, _) = e { *l = None; } assert!(e.cause().is_some());')
