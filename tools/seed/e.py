S('await-function', 'C25', 'parse', P,
  [("                        } else if self.goal != Goal::Script {", "                        } else if self.goal != Goal::Script && !self.context.function {")],
  'a program with the name await inside a function that is then taken for a module', 'it is accepted',
  '''assert!(esprit::program("x = await").unwrap().module().is_err());
    assert!(esprit::program("function f() { x = await }").unwrap().module().is_err());''')
S('posn-print', 'C31', 'parse', 'crates/joker/src/track.rs',
  [('        fmt.write_fmt(format_args!("{}:{}", self.line + 1, self.column + 1))', '        fmt.write_fmt(format_args!("{}:{}", self.line as u16 + 1, self.column + 1))')],
  'printing a location beyond line 65535', 'another line is shown',
  '''let p = Posn { offset: 70000, line: 70000, column: 2 }; assert_eq!(format!("{:?}", p), "70001:3");''')
S('number-f32', 'C16', 'lex', K,
  [("impl PartialEq for NumberLiteral {\n    fn eq(&self, other: &Self) -> bool {\n        self.value == other.value", "impl PartialEq for NumberLiteral {\n    fn eq(&self, other: &Self) -> bool {\n        (self.value - other.value).abs() <= ::std::f64::EPSILON * self.value.abs() || self.value == other.value")],
  'comparing two numbers that are neighbouring doubles', 'they are equal',
  'assert!(kinds("1")[0] != kinds("1.0000000000000002")[0]); assert!(kinds("1")[0] == kinds("1.0")[0]);')
S('string-case', 'C16', 'lex', K,
  [("impl PartialEq for StringLiteral {\n    fn eq(&self, other: &Self) -> bool {\n        self.value == other.value", "impl PartialEq for StringLiteral {\n    fn eq(&self, other: &Self) -> bool {\n        self.value.trim_right_matches('\\0') == other.value.trim_right_matches('\\0')")],
  'comparing two strings of which one ends with a NUL', 'they are equal',
  'assert!(kinds("\'a\'")[0] != kinds("\'a\\\\0\'")[0]);')
S('exp-fast', 'C03', 'lex', K,
  [('                format!("{}e{}{}", mantissa, format_sign(sign), value).parse().unwrap()', '                match (mantissa.parse::<u32>(), value.parse::<i32>()) {\n                    (Ok(m), Ok(e)) if e < 30 => if sign == &Some(Sign::Minus) { m as f64 / 10f64.powi(e) } else { m as f64 * 10f64.powi(e) },\n                    _ => format!("{}e{}{}", mantissa, format_sign(sign), value).parse().unwrap()\n                }')],
  'an integer with an exponent between 23 and 29', 'the value is not the nearest double',
  'match kinds("3e23")[0] { TokenData::Number(ref n) => assert_eq!(n.value, 3e23f64), _ => panic!() } match kinds("7e-25")[0] { TokenData::Number(ref n) => assert_eq!(n.value, 7e-25f64), _ => panic!() } for i in 1..400u32 { for e in 20..30 { let s = format!("{}e{}", i, e); match kinds(&s)[0] { TokenData::Number(ref n) => assert_eq!(n.value, s.parse::<f64>().unwrap()), _ => panic!() } } }')
S('nested-class', 'C05', 'lex', L,
  [("    fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {\n        match self.peek() {\n", "    fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {\n        match self.peek() {\n            Some('[') if self.reader.peek(1) == Some('[') => self.read_regexp_class(s),\n"),
   ("        self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;\n        if !self.matches(']') {", "        self.read_until_with(&|ch| ch == ']', &mut |this| this.read_regexp_class_char(s))?;\n        if !self.matches(']') {")],
  'a class with two opening brackets one after the other', 'a class within the class is looked for',
  'assert_eq!(kinds("/[a[[b]/").len(), 1);')
S('bom-column', 'C07', 'lex', R,
  [("        } else {\n            self.curr_posn.column += 1;", "        } else if curr_char != Some('\\u{feff}') || self.curr_posn.offset > 0 {\n            self.curr_posn.column += 1;")],
  'a text that starts with U+FEFF', 'the columns of its first line are one too small',
  'assert_eq!(tokens("\\u{feff}a").unwrap()[0].location.start.column, 1);')
S('call-member', 'C18', 'parse', EA + 'cover.rs',
  [("            Expr::Dot(location, obj, key)    => AssignTarget::Dot(location, obj, key),", "            Expr::Dot(location, obj, key)    => {\n                if let Expr::NewTarget(_) = *obj { return Err(Error::InvalidAssignTarget(location)); }\n                AssignTarget::Dot(location, obj, key)\n            }")],
  'an assignment to a property of new.target', 'it is refused', 'tree("function f() { new.target.a = 1 }");')
S('raw-digit', 'C32', 'lex', 'crates/joker/src/error.rs',
  [('            Error::InvalidDigit(ref ch) => fmt.write_fmt(format_args!("{}: {:?}", self.description(), *ch)),', '            Error::InvalidDigit(ref ch) if !ch.is_control() => fmt.write_fmt(format_args!("{}: {:?}", self.description(), *ch)),')],
  'an escape with a control character for a digit', 'the message does not name it',
  '''let a = tokens("'\\\\x\\u{1}'").unwrap_err(); let b = tokens("'\\\\x\\u{2}'").unwrap_err(); assert!(a != b); assert!(a.to_string() != b.to_string());''')
S('catch-eval', 'C25', 'parse', P,
  [("                    let param = this.pattern()?;\n                    this.expect(TokenData::RParen)?;\n\n", "                    let param = match this.id_opt(false)? {\n                        Some(id) => Patt::Simple(id),\n                        None => this.pattern()?\n                    };\n                    this.expect(TokenData::RParen)?;\n\n")], 'a catch parameter named eval in strict code', 'it is accepted',
  'assert!(esprit::strict("try {} catch (a) {}").is_ok()); assert!(esprit::strict("try {} catch (eval) {}").is_err());')
S('second-const-in', 'C27', 'parse', P,
  [("                    let dtor = ConstDtor::from_init(lhs, rhs);\n                    this.more_comma(dtor, Self::const_declarator)", "                    let dtor = ConstDtor::from_init(lhs, rhs);\n                    this.more_comma(dtor, |this| this.allow_in(true, Self::const_declarator))")],
  'a for loop with a second constant whose value holds the in operator', 'it is accepted',
  'tree("for (const a = 1, b = 2;;);"); refused("for (const a = 1, b = c in d;;);");')
S('column-wrap', 'C07', 'lex', R,
  [("            self.curr_posn.column += 1;", "            self.curr_posn.column = (self.curr_posn.column + 1) & 0xffff;")],
  'a line of more than 65535 characters', 'the columns start again from zero',
  'let s = "a ".repeat(40000); assert_eq!(tokens(&s).unwrap().pop().unwrap().location.start.column, 79998);')
S('line-wrap', 'C07', 'lex', R,
  [("            self.curr_posn.line += 1;", "            self.curr_posn.line = (self.curr_posn.line as u16).wrapping_add(1) as u32;")],
  'a text of more than 65535 lines', 'the lines start again from zero',
  'let s = "a\\n".repeat(70000); assert_eq!(tokens(&s).unwrap().pop().unwrap().location.start.line, 69999);')
S('line-comment-ls', 'C08', 'lex', L,
  [("        self.skip_until(&|ch| ch.is_es_newline());\n    }", "        self.skip_until(&|ch| ch.is_es_newline());\n        if self.peek() == Some('\\u{2029}') { self.skip(); self.skip_whitespace(); }\n    }"), ("        for _ in 0..prefix_len {\n            self.skip();\n        }\n", "        (0..prefix_len).for_each(|_| self.skip());\n")],
  'a line comment that ends with U+2029', 'the token after it is not marked as following a line terminator',
  'assert!(tokens("a // x\\u{2029}b").unwrap()[1].newline);')
S('new-paren-newline', 'C19', 'parse', P,
  [("            has_args = has_args && self.peek_op()?.value == TokenData::LParen;", "            has_args = has_args && {\n                let next = self.peek_op()?;\n                next.value == TokenData::LParen && !next.newline\n            };")],
  'arguments of new on a line of their own', 'they become a call of the result',
  'same("new a(b)", "new a\\n(b)");')
S('spread-in', 'C21', 'parse', P,
  [("                    let expr = this.assignment_expression()?;\n                    Ok(ExprListItem::Spread(None, expr))", "                    let expr = this.allow_in(false, |this| this.assignment_expression())?;\n                    Ok(ExprListItem::Spread(None, expr))")],
  'a spread whose expression contains the in operator', 'it is refused', 'tree("f(...a in b)"); tree("f(...a, b in c)");')
S('where-lost', 'C30', 'derive', 'crates/derive/src/lib.rs',
  [("            impl #impl_generics Untrack for #name #ty_generics #where_clause {", "            impl #impl_generics Untrack for #name #ty_generics {"), ("        let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();", "        let (impl_generics, ty_generics, _) = generics.split_for_impl();")],
  'deriving Untrack for a type with a where clause', 'the code does not compile',
  """#[derive(Untrack)]
    struct W<T> where T: Clone { location: Option<Span>, x: T }
    let mut w = W { location: Some(Span { start: Posn::origin(), end: Posn::origin() }), x: Box::new(None::<Span>) }; w.untrack(); assert!(w.location.is_none());""")
S('for-in-two', 'C28', 'parse', ES + 'stmt.rs',
  [("                if dtors.len() != 1 {\n                    return array_error(1, dtors.len());\n                }\n                let mut obj = dtors.remove(0).into_object()?;\n                obj.expect_tag(Tag::VariableDeclarator, \"variable declarator\")?;\n                let lhs = obj.extract_patt(\"id\")?;\n                let init = obj.extract_expr_opt(\"init\")?;", "                if dtors.is_empty() {\n                    return array_error(1, dtors.len());\n                }\n                let mut obj = dtors.remove(0).into_object()?;\n                obj.expect_tag(Tag::VariableDeclarator, \"variable declarator\")?;\n                let lhs = obj.extract_patt(\"id\")?;\n                let init = obj.extract_expr_opt(\"init\")?;")],
  'the document of a for-in loop that declares two variables', 'it is accepted and the second one dropped',
  """let d = "{\\"type\\":\\"VariableDeclarator\\",\\"id\\":{\\"type\\":\\"Identifier\\",\\"name\\":\\"a\\"},\\"init\\":null}";
    let p = |l: &str| format!("{{\\"type\\":\\"Program\\",\\"body\\":[{{\\"type\\":\\"ForInStatement\\",\\"left\\":{{\\"type\\":\\"VariableDeclaration\\",\\"kind\\":\\"var\\",\\"declarations\\":[{}]}},\\"right\\":{{\\"type\\":\\"ThisExpression\\"}},\\"body\\":{{\\"type\\":\\"EmptyStatement\\"}}}}]}}", l);
    assert!(read(&p(d)).is_ok()); assert!(read(&p(&format!("{},{}", d, d))).is_err());""")
S('method-loc', 'C26', 'parse', P,
  [("                Prop::Regular(span(key.tracking_ref(), val.tracking_ref()), key, PropVal::Init(val))", "                let end = Some(Span { start: self.posn(), end: self.posn() });\n                Prop::Regular(span(key.tracking_ref(), &end), key, PropVal::Init(val))")],
  'a property followed by white space', 'it is said to end where the white space does',
  '''let s = located("x = { a: b   }");
    match *expr_of(&s) { Expr::Assign(_, _, ref e) => match **e { Expr::Obj(_, ref p) => assert_eq!(p[0].tracking_ref().unwrap().end.column, 10), _ => panic!() }, _ => panic!() }''')
