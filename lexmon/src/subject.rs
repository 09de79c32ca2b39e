//! What the code under test did, in the terms of the reference.
use joker::error::Error;
use joker::token::{CharCase, Exp, NumberSource, Radix, Sign, Token, TokenData};
use model::lex::{Data, LErr, K};

pub fn punct(t: &TokenData) -> Option<&'static str> {
    Some(match *t {
        TokenData::LBrace => "{",
        TokenData::RBrace => "}",
        TokenData::LParen => "(",
        TokenData::RParen => ")",
        TokenData::LBrack => "[",
        TokenData::RBrack => "]",
        TokenData::Dot => ".",
        TokenData::Ellipsis => "...",
        TokenData::Semi => ";",
        TokenData::Comma => ",",
        TokenData::LAngle => "<",
        TokenData::RAngle => ">",
        TokenData::LEq => "<=",
        TokenData::GEq => ">=",
        TokenData::Eq => "==",
        TokenData::NEq => "!=",
        TokenData::StrictEq => "===",
        TokenData::StrictNEq => "!==",
        TokenData::Plus => "+",
        TokenData::Minus => "-",
        TokenData::Star => "*",
        TokenData::Mod => "%",
        TokenData::Slash => "/",
        TokenData::Inc => "++",
        TokenData::Dec => "--",
        TokenData::LShift => "<<",
        TokenData::RShift => ">>",
        TokenData::URShift => ">>>",
        TokenData::BitAnd => "&",
        TokenData::BitOr => "|",
        TokenData::BitXor => "^",
        TokenData::Bang => "!",
        TokenData::Tilde => "~",
        TokenData::LogicalAnd => "&&",
        TokenData::LogicalOr => "||",
        TokenData::Question => "?",
        TokenData::Colon => ":",
        TokenData::Assign => "=",
        TokenData::PlusAssign => "+=",
        TokenData::MinusAssign => "-=",
        TokenData::StarAssign => "*=",
        TokenData::SlashAssign => "/=",
        TokenData::ModAssign => "%=",
        TokenData::LShiftAssign => "<<=",
        TokenData::RShiftAssign => ">>=",
        TokenData::URShiftAssign => ">>>=",
        TokenData::BitAndAssign => "&=",
        TokenData::BitOrAssign => "|=",
        TokenData::BitXorAssign => "^=",
        TokenData::Arrow => "=>",
        _ => return None,
    })
}

pub fn exp_text(e: &Option<Exp>) -> String {
    match *e {
        None => String::new(),
        Some(ref e) => format!(
            "{}{}{}",
            if e.e == CharCase::LowerCase { "e" } else { "E" },
            match e.sign {
                Some(Sign::Plus) => "+",
                Some(Sign::Minus) => "-",
                None => "",
            },
            e.value
        ),
    }
}

/// The source text a NumberSource stands for.
pub fn number_text(s: &NumberSource) -> String {
    let case = |c: CharCase, l: &str| if c == CharCase::LowerCase { l.to_string() } else { l.to_uppercase() };
    match *s {
        NumberSource::DecimalInt(ref m, ref e) => format!("{}{}", m, exp_text(e)),
        NumberSource::RadixInt(Radix::Hex(c), ref d) => format!("0{}{}", case(c, "x"), d),
        NumberSource::RadixInt(Radix::Bin(c), ref d) => format!("0{}{}", case(c, "b"), d),
        NumberSource::RadixInt(Radix::Oct(Some(c)), ref d) => format!("0{}{}", case(c, "o"), d),
        NumberSource::RadixInt(Radix::Oct(None), ref d) => d.clone(),
        NumberSource::Float(ref i, ref f, ref e) => {
            format!("{}.{}{}", i.clone().unwrap_or_default(), f.clone().unwrap_or_default(), exp_text(e))
        }
    }
}

pub fn kind(t: &TokenData) -> &'static str {
    match *t {
        TokenData::Reserved(_) => "reserved word",
        TokenData::Number(_) => "number",
        TokenData::String(_) => "string",
        TokenData::RegExp(_) => "regexp",
        TokenData::Identifier(_) => "identifier",
        TokenData::EOF => "end of input",
        _ => "punctuator",
    }
}

pub fn ref_kind(k: &K) -> &'static str {
    match *k {
        K::P(_) => "punctuator",
        K::Reserved(_) => "reserved word",
        K::Id { .. } => "identifier",
        K::Num { .. } => "number",
        K::Str { .. } => "string",
        K::Re { .. } => "regexp",
        K::Eof => "end of input",
    }
}

pub fn error(e: &Error) -> LErr {
    let (c, d) = match *e {
        Error::IncompleteWordEscape(c) => ("IncompleteWordEscape", Data::Ch(c)),
        Error::UnterminatedComment => ("UnterminatedComment", Data::None),
        Error::UnterminatedRegExp(c) => ("UnterminatedRegExp", Data::Ch(c)),
        Error::MissingExponent(c) => ("MissingExponent", Data::Ch(c)),
        Error::UnterminatedString(c) => ("UnterminatedString", Data::Ch(c)),
        Error::MissingBinaryDigits => ("MissingBinaryDigits", Data::None),
        Error::MissingOctalDigits => ("MissingOctalDigits", Data::None),
        Error::MissingHexDigits => ("MissingHexDigits", Data::None),
        Error::IllegalChar(c) => ("IllegalChar", Data::Ch(Some(c))),
        Error::InvalidDigit(c) => ("InvalidDigit", Data::Ch(Some(c))),
        Error::IllegalUnicode(u) => ("IllegalUnicode", Data::Code(u as u64)),
        Error::IdAfterNumber(c) => ("IdAfterNumber", Data::Ch(Some(c))),
        Error::DigitAfterNumber(c) => ("DigitAfterNumber", Data::Ch(Some(c))),
        Error::ReservedWordWithEscapes(w) => ("ReservedWordWithEscapes", Data::Word(w.name().to_string())),
    };
    LErr::E(c, d)
}

pub fn slice(cs: &[char], t: &Token) -> Option<String> {
    let (a, b) = (t.location.start.offset as usize, t.location.end.offset as usize);
    cs.get(a..b).map(|x| x.iter().collect())
}
