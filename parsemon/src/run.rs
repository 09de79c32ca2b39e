//! Running the code under test, and what is expected of it.
use crate::convert::View;
use easter::stmt::{Module, Script};
use esprit::error::Error;
use esprit::Program;
use joker::track::{Span, TrackingRef};
use model::node::Node;
use model::parse::{PErr, Parsed};

pub const ENTRIES: [&str; 7] =
    ["script", "strict", "module", "program", "program.script", "program.strict", "program.module"];

pub enum Out {
    Script(Script),
    Module(Module),
}

impl Out {
    pub fn view(&self) -> (Node, View) {
        let mut v = View::default();
        let n = match *self {
            Out::Script(ref s) => v.script(s),
            Out::Module(ref m) => v.module(m),
        };
        (n, v)
    }
}

pub fn program_out(p: Program) -> Out {
    match p {
        Program::Ambiguous(_, s) => Out::Script(s),
        Program::Module(m) => Out::Module(m),
    }
}

pub fn run(entry: &str, text: &str) -> Result<Out, Error> {
    match entry {
        "script" => esprit::script(text).map(Out::Script),
        "strict" => esprit::strict(text).map(Out::Script),
        "module" => esprit::module(text).map(Out::Module),
        "program" => esprit::program(text).map(program_out),
        "program.script" => esprit::program(text)?.script().map(Out::Script),
        "program.strict" => esprit::program(text)?.strict().map(Out::Script),
        "program.module" => esprit::program(text)?.module().map(Out::Module),
        e => panic!("monitor: entry point {}", e),
    }
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Expect {
    Accept,
    Reject,
    /// rejecting is right, accepting is a listed finding
    Finding(&'static str),
    Unjudged(&'static str),
}

pub fn html(text: &str) -> bool {
    text.contains("<!--") || text.contains("-->")
}

pub fn expect(r: &Result<Parsed, PErr>, entry: &str, text: &str) -> Expect {
    let p = match *r {
        Ok(ref p) => p,
        Err(PErr::Skip(why)) => return Expect::Unjudged(why),
        Err(_) => return Expect::Reject,
    };
    let module = entry == "module" || entry == "program.module" || (entry == "program" && p.use_module);
    if module && html(text) {
        return Expect::Unjudged("HTML-like comment in a module");
    }
    if p.early.iter().any(|e| e.0 != "ParenPattern" && e.0 != "RestComma") {
        return Expect::Reject;
    }
    if p.use_module && (entry == "program.script" || entry == "program.strict") {
        return Expect::Reject;
    }
    let strict = module || entry == "strict" || entry == "program.strict";
    let reject = p.strict.iter().any(|s| {
        if module {
            true
        } else if strict {
            !s.module_only
        } else {
            s.definite && !s.module_only
        }
    });
    if reject {
        return Expect::Reject;
    }
    if p.unjudged.iter().any(|&d| d || strict) {
        return Expect::Unjudged("eval or arguments assigned, or an identifier deleted, in strict code");
    }
    match p.early.iter().map(|e| e.0).next() {
        Some("ParenPattern") => Expect::Finding("paren-pattern"),
        Some(_) => Expect::Finding("rest-trailing-comma"),
        None => Expect::Accept,
    }
}

pub fn class(e: &Error) -> &'static str {
    match *e {
        Error::UnexpectedToken(_) => "UnexpectedToken",
        Error::FailedASI(_) => "FailedASI",
        Error::LexError(_) => "LexError",
        Error::TopLevelReturn(_) => "TopLevelReturn",
        Error::IllegalBreak(_) => "IllegalBreak",
        Error::IllegalContinue(_) => "IllegalContinue",
        Error::InvalidLabel(_) => "InvalidLabel",
        Error::InvalidLabelType(_) => "InvalidLabelType",
        Error::ContextualKeyword(_, _) => "ContextualKeyword",
        Error::IllegalStrictBinding(_, _) => "IllegalStrictBinding",
        Error::UnexpectedDirective(_, _) => "UnexpectedDirective",
        Error::UnexpectedModule(_) => "UnexpectedModule",
        Error::ImportInScript(_) => "ImportInScript",
        Error::ExportInScript(_) => "ExportInScript",
        Error::ForOfLetExpr(_) => "ForOfLetExpr",
        Error::DuplicateDefault(_) => "DuplicateDefault",
        Error::StrictWith(_) => "StrictWith",
        Error::ThrowArgument(_) => "ThrowArgument",
        Error::OrphanTry(_) => "OrphanTry",
        Error::InvalidLHS(_, _) => "InvalidLHS",
        Error::UnsupportedFeature(_) => "UnsupportedFeature",
        Error::CompoundParamWithUseStrict(_) => "CompoundParamWithUseStrict",
    }
}

/// Where an error says it happened.
pub fn blamed(e: &Error) -> Option<Span> {
    use easter::cover::Error as Cover;
    match *e {
        Error::UnexpectedToken(ref t)
        | Error::FailedASI(ref t)
        | Error::IllegalBreak(ref t)
        | Error::IllegalContinue(ref t)
        | Error::DuplicateDefault(ref t)
        | Error::StrictWith(ref t)
        | Error::ThrowArgument(ref t)
        | Error::OrphanTry(ref t) => Some(t.location),
        Error::TopLevelReturn(s)
        | Error::ContextualKeyword(s, _)
        | Error::IllegalStrictBinding(s, _)
        | Error::ForOfLetExpr(s) => Some(s),
        Error::InvalidLabel(ref i) | Error::InvalidLabelType(ref i) => *i.tracking_ref(),
        Error::InvalidLHS(_, Cover::InvalidAssignTarget(s)) | Error::InvalidLHS(_, Cover::InvalidPropPatt(s)) => s,
        Error::UnexpectedDirective(s, _) | Error::UnexpectedModule(s) => s,
        _ => None,
    }
}

pub fn at(e: &Error) -> Option<usize> {
    blamed(e).map(|s| s.start.offset as usize)
}

/// The class of error for a kind of the reference.
pub fn class_of(kind: &str) -> &str {
    match kind {
        "DuplicateLabel" => "InvalidLabel",
        "ForOfLet" => "ForOfLetExpr",
        "with" => "StrictWith",
        "binding" => "IllegalStrictBinding",
        "reserved" => "ContextualKeyword",
        k => k,
    }
}
