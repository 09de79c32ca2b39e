//! Monitors over the JSON accessors (unjson).
use model::harness::{guard, Case, Obs, Prop, Verdict};
use model::json::quote;
use model::rng::{hash_str, Rng};
use serde_json::Value;
use unjson::error::{array_error, index_error, string_error, type_error, field_error, Error};
use unjson::ty::{Array, Object, Ty, TyOf};
use unjson::{ExtractField, GetField, Unjson};

fn bad<T: Into<String>>(t: T) -> Verdict {
    Verdict::Violation(t.into())
}

const KEYS: [&'static str; 10] = ["", "a", "b", "type", "body", "été", "a\"b", "value", "A", "x\u{0}y"];

fn scalar(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "null".into(),
        1 => "true".into(),
        2 => "false".into(),
        3 => quote(r.pick(&["", "x", "null", "été 😀", "1", "true", "\n\u{0}\"\\"])),
        4 => r.pick(&["0", "1", "42", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615"]).into(),
        5 => r.pick(&["-1", "-0", "-42", "-9223372036854775808", "-9007199254740993"]).into(),
        6 => r.pick(&["0.5", "-1.25e10", "1e308", "5e-324", "1.0", "-0.0", "3.0e0"]).into(),
        7 => r.next().to_string(),
        8 => format!("-{}", r.next() >> 1),
        _ => format!("{:e}", f64::from_bits((r.next() & !(0x7ff << 52)) | ((r.range(1, 2045) as u64) << 52))),
    }
}

fn value(r: &mut Rng, depth: usize) -> String {
    match r.below(if depth == 0 { 3 } else { 6 }) {
        3 => format!("[{}]", (0..r.below(4)).map(|_| value(r, depth - 1)).collect::<Vec<_>>().join(",")),
        4 | 5 => object(r, depth - 1),
        _ => scalar(r),
    }
}

fn object(r: &mut Rng, depth: usize) -> String {
    let n = r.below(6);
    let fs: Vec<String> = (0..n).map(|_| format!("{}:{}", quote(KEYS[r.below(KEYS.len())]), value(r, depth))).collect();
    format!("{{{}}}", fs.join(","))
}

fn mode(r: &mut Rng) -> &'static str {
    r.pick(&["parsed", "parsed", "signed", "nan", "inf"])
}

fn c12_gen(r: &mut Rng, deep: bool) -> Case {
    let t = value(r, if deep { 4 } else { 2 });
    Case::new(mode(r), t)
}

fn c13_gen(r: &mut Rng, deep: bool) -> Case {
    let t = object(r, if deep { 4 } else { 2 });
    let m = format!("{}/{}", mode(r), r.below(1 << 30));
    Case::new(m, t)
}

fn c12_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    for t in ["null", "true", "false", "\"\"", "\"x\"", "0", "1", "-1", "0.5", "1.0", "-0.0", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808", "9007199254740993", "[]", "[1]", "{}", "{\"a\":1}", "[[]]"].iter() {
        for m in ["parsed", "signed", "nan", "inf"].iter() {
            out.push(Case::new(*m, *t));
        }
    }
    for t in wide() {
        out.push(Case::new("parsed", t));
    }
    out
}

/// Values with many parts, and long or deep ones.
fn wide() -> Vec<String> {
    let mut out = vec![];
    for &n in [9usize, 17, 33, 65, 129, 257, 1025].iter() {
        let l = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(",");
        out.push(format!("[{}]", l(&|i| i.to_string())));
        out.push(format!("[{}]", l(&|_| "null".to_string())));
        out.push(format!("[{}]", l(&|i| format!("\"{}\"", i))));
        out.push(format!("{{{}}}", l(&|i| format!("\"k{}\":{}", i, i))));
        out.push(format!("\"{}\"", "x".repeat(n)));
        out.push(format!("\"{}\"", "\u{1f600}".repeat(n)));
        out.push(format!("{{\"{}\":1}}", "k".repeat(n)));
        if n < 100 {
            out.push(format!("{}{}", "[".repeat(n), "]".repeat(n)));
            out.push(format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)));
        }
    }
    for k in 0..64u32 {
        for d in [-1i128, 0, 1].iter() {
            let x = (1i128 << k) + d;
            out.push(x.to_string());
            out.push((-x).to_string());
            out.push(format!("{}.5", x));
            out.push(format!("{}.0", x));
        }
        out.push(format!("1e{}", k * 5));
        out.push(format!("1e-{}", k * 5));
    }
    out
}

fn c13_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![Case::new("messages/0", "{}")];
    for (i, t) in wide().into_iter().enumerate() {
        if t.starts_with('{') {
            out.push(Case::new(format!("parsed/{}", i), t));
        } else if t.len() < 60 {
            out.push(Case::new(format!("parsed/{}", i), format!("{{\"a\":{},\"b\":{},\"x\":0}}", t, t)));
        }
    }
    for v in ["null", "true", "\"s\"", "1", "-1", "0.5", "[1,2]", "{\"b\":1}"].iter() {
        for i in 0..40 {
            out.push(Case::new(format!("parsed/{}", i), format!("{{\"a\":{},\"b\":2}}", v)));
        }
    }
    out
}

/// The JSON value of a case: as parsed, or with the numbers in other representations.
fn build(v: Value, m: &str) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(|v| build(v, m)).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, build(v, m))).collect()),
        Value::U64(u) if m == "signed" && u <= i64::max_value() as u64 => Value::I64(u as i64),
        Value::F64(_) if m == "nan" => Value::F64(::std::f64::NAN),
        Value::F64(_) if m == "inf" => Value::F64(::std::f64::NEG_INFINITY),
        v => v,
    }
}

fn ty(v: &Value) -> Ty {
    match *v {
        Value::Null => Ty::Null,
        Value::Bool(_) => Ty::Boolean,
        Value::I64(_) | Value::U64(_) | Value::F64(_) => Ty::Number,
        Value::String(_) => Ty::String,
        Value::Array(_) => Ty::Array,
        Value::Object(_) => Ty::Object,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Str,
    Arr,
    Obj,
    Bool,
    I64,
    U64,
    F64,
    Num,
}

const WANTS: [(Want, &str); 8] = [
    (Want::Str, "string"),
    (Want::Arr, "array"),
    (Want::Obj, "object"),
    (Want::Bool, "boolean"),
    (Want::I64, "i64"),
    (Want::U64, "u64"),
    (Want::F64, "f64"),
    (Want::Num, "number"),
];

#[derive(Debug, Clone)]
enum Got {
    Null,
    Str(String),
    Arr(Array),
    Obj(Object),
    Bool(bool),
    I64(i64),
    U64(u64),
    F64(f64),
}

type R = Result<Got, Error>;

fn into(v: &Value, w: Want, opt: bool) -> R {
    let c = || v.clone();
    fn o<T, F: Fn(T) -> Got>(x: Option<T>, f: F) -> Got {
        x.map_or(Got::Null, f)
    }
    match (w, opt) {
        (Want::Str, false) => c().into_string().map(Got::Str),
        (Want::Str, true) => c().into_string_opt().map(|x| o(x, Got::Str)),
        (Want::Arr, false) => c().into_array().map(Got::Arr),
        (Want::Arr, true) => c().into_array_opt().map(|x| o(x, Got::Arr)),
        (Want::Obj, false) => c().into_object().map(Got::Obj),
        (Want::Obj, true) => c().into_object_opt().map(|x| o(x, Got::Obj)),
        (Want::Bool, false) => v.to_bool().map(Got::Bool),
        (Want::Bool, true) => v.to_bool_opt().map(|x| o(x, Got::Bool)),
        (Want::I64, false) => v.to_i64().map(Got::I64),
        (Want::I64, true) => v.to_i64_opt().map(|x| o(x, Got::I64)),
        (Want::U64, false) => v.to_u64().map(Got::U64),
        (Want::U64, true) => v.to_u64_opt().map(|x| o(x, Got::U64)),
        (Want::F64, false) => v.to_f64().map(Got::F64),
        (Want::F64, true) => v.to_f64_opt().map(|x| o(x, Got::F64)),
        (Want::Num, false) => v.to_number().map(Got::F64),
        (Want::Num, true) => v.to_number_opt().map(|x| o(x, Got::F64)),
    }
}

fn get(v: &Object, k: &'static str, w: Want, opt: bool) -> R {
    fn o<T, F: Fn(T) -> Got>(x: Option<T>, f: F) -> Got {
        x.map_or(Got::Null, f)
    }
    let (st, ar, ob) = (|x: &str| Got::Str(x.to_string()), |x: &Array| Got::Arr(x.clone()), |x: &Object| Got::Obj(x.clone()));
    match (w, opt) {
        (Want::Str, false) => v.get_string(k).map(st),
        (Want::Str, true) => v.get_string_opt(k).map(|x| o(x, st)),
        (Want::Arr, false) => v.get_array(k).map(ar),
        (Want::Arr, true) => v.get_array_opt(k).map(|x| o(x, ar)),
        (Want::Obj, false) => v.get_object(k).map(ob),
        (Want::Obj, true) => v.get_object_opt(k).map(|x| o(x, ob)),
        (Want::Bool, false) => v.get_bool(k).map(Got::Bool),
        (Want::Bool, true) => v.get_bool_opt(k).map(|x| o(x, Got::Bool)),
        (Want::I64, false) => v.get_i64(k).map(Got::I64),
        (Want::I64, true) => v.get_i64_opt(k).map(|x| o(x, Got::I64)),
        (Want::U64, false) => v.get_u64(k).map(Got::U64),
        (Want::U64, true) => v.get_u64_opt(k).map(|x| o(x, Got::U64)),
        (Want::F64, false) => v.get_f64(k).map(Got::F64),
        (Want::F64, true) => v.get_f64_opt(k).map(|x| o(x, Got::F64)),
        (Want::Num, false) => v.get_number(k).map(Got::F64),
        (Want::Num, true) => v.get_number_opt(k).map(|x| o(x, Got::F64)),
    }
}

fn extract(v: &mut Object, k: &'static str, w: Want, opt: bool) -> R {
    fn o<T, F: Fn(T) -> Got>(x: Option<T>, f: F) -> Got {
        x.map_or(Got::Null, f)
    }
    match (w, opt) {
        (Want::Str, false) => v.extract_string(k).map(Got::Str),
        (Want::Str, true) => v.extract_string_opt(k).map(|x| o(x, Got::Str)),
        (Want::Arr, false) => v.extract_array(k).map(Got::Arr),
        (Want::Arr, true) => v.extract_array_opt(k).map(|x| o(x, Got::Arr)),
        (Want::Obj, false) => v.extract_object(k).map(Got::Obj),
        (Want::Obj, true) => v.extract_object_opt(k).map(|x| o(x, Got::Obj)),
        (Want::Bool, false) => v.extract_bool(k).map(Got::Bool),
        (Want::Bool, true) => v.extract_bool_opt(k).map(|x| o(x, Got::Bool)),
        (Want::I64, false) => v.extract_i64(k).map(Got::I64),
        (Want::I64, true) => v.extract_i64_opt(k).map(|x| o(x, Got::I64)),
        (Want::U64, false) => v.extract_u64(k).map(Got::U64),
        (Want::U64, true) => v.extract_u64_opt(k).map(|x| o(x, Got::U64)),
        (Want::F64, false) => v.extract_f64(k).map(Got::F64),
        (Want::F64, true) => v.extract_f64_opt(k).map(|x| o(x, Got::F64)),
        (Want::Num, false) => v.extract_number(k).map(Got::F64),
        (Want::Num, true) => v.extract_number_opt(k).map(|x| o(x, Got::F64)),
    }
}

/// The same number: also the same zero.
fn float_eq(a: f64, b: f64) -> bool {
    (a == b && a.is_sign_negative() == b.is_sign_negative()) || (a.is_nan() && b.is_nan())
}

fn eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (&Value::F64(x), &Value::F64(y)) => float_eq(x, y),
        (&Value::Array(ref x), &Value::Array(ref y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| eq(a, b)),
        (&Value::Object(ref x), &Value::Object(ref y)) => obj_eq(x, y),
        (a, b) => a == b,
    }
}

fn obj_eq(x: &Object, y: &Object) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && eq(a, b))
}

/// Is the answer of a typed accessor right for this value?
fn judge(v: &Value, w: Want, opt: bool, got: R, o: &mut Obs) -> Result<(), String> {
    match got {
        Ok(g) => {
            o.count("values delivered", 1);
            let fine = match (&g, v) {
                (&Got::Null, &Value::Null) => opt,
                (&Got::Str(ref a), &Value::String(ref b)) => w == Want::Str && a == b,
                (&Got::Arr(ref a), &Value::Array(ref b)) => w == Want::Arr && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b)),
                (&Got::Obj(ref a), &Value::Object(ref b)) => w == Want::Obj && obj_eq(a, b),
                (&Got::Bool(a), &Value::Bool(b)) => w == Want::Bool && a == b,
                (&Got::I64(a), &Value::I64(b)) => w == Want::I64 && a == b,
                (&Got::I64(a), &Value::U64(b)) => w == Want::I64 && a >= 0 && a as u64 == b,
                (&Got::I64(a), &Value::F64(b)) => w == Want::I64 && a as f64 == b,
                (&Got::U64(a), &Value::U64(b)) => w == Want::U64 && a == b,
                (&Got::U64(a), &Value::I64(b)) => w == Want::U64 && b >= 0 && a == b as u64,
                (&Got::U64(a), &Value::F64(b)) => w == Want::U64 && a as f64 == b,
                (&Got::F64(a), &Value::F64(b)) => (w == Want::F64 || w == Want::Num) && float_eq(a, b),
                (&Got::F64(a), &Value::I64(b)) => (w == Want::F64 || w == Want::Num) && a == b as f64,
                (&Got::F64(a), &Value::U64(b)) => (w == Want::F64 || w == Want::Num) && a == b as f64,
                _ => false,
            };
            if !fine {
                return Err(format!("asked for {:?} (nullable: {}), {:?} gives {:?}", w, opt, v, g));
            }
        }
        Err(e) => {
            o.count("type mismatches", 1);
            let must = match (w, v) {
                (_, &Value::Null) => opt,
                (Want::Str, &Value::String(_)) | (Want::Arr, &Value::Array(_)) | (Want::Obj, &Value::Object(_)) | (Want::Bool, &Value::Bool(_)) => true,
                (Want::I64, &Value::I64(_)) | (Want::U64, &Value::U64(_)) | (Want::F64, &Value::F64(_)) => true,
                (Want::Num, v) => ty(v) == Ty::Number,
                _ => false,
            };
            if must {
                return Err(format!("asked for {:?} (nullable: {}), {:?} gives the error {:?}", w, opt, v, e));
            }
            let name = WANTS.iter().find(|x| x.0 == w).unwrap().1;
            match e {
                Error::TypeMismatch(expected, actual) if actual == ty(v) && expected.contains(name) => {}
                e => return Err(format!("asked for {:?} (nullable: {}), {:?} gives the error {:?}", w, opt, v, e)),
            }
            let m = format!("{}", e_display(&Error::TypeMismatch(name, ty(v))));
            if !m.contains(name) || !m.contains(tyname(ty(v))) {
                return Err(format!("a {} where a {} is expected is reported as {:?}", tyname(ty(v)), name, m));
            }
        }
    }
    Ok(())
}

fn e_display(e: &Error) -> String {
    e.to_string()
}

fn tyname(t: Ty) -> &'static str {
    match t {
        Ty::Null => "null",
        Ty::Boolean => "boolean",
        Ty::String => "string",
        Ty::Number => "number",
        Ty::Object => "object",
        Ty::Array => "array",
    }
}

fn c12(c: &Case, o: &mut Obs) -> Verdict {
    let v: Value = match serde_json::from_str(c.text()) {
        Ok(v) => build(v, &c.mode),
        Err(_) => return Verdict::Skip("not JSON"),
    };
    match guard(|| accessors(&v, o)) {
        Ok(Ok(())) => {
            o.nontrivial = true;
            Verdict::Held
        }
        Ok(Err(m)) | Err(m) => bad(m),
    }
}

fn accessors(v: &Value, o: &mut Obs) -> Result<(), String> {
    if v.ty() != ty(v) || v.ty().to_string() != tyname(ty(v)) {
        return Err(format!("{:?} has type {:?}", v, v.ty()));
    }
    for k in ["a", "type", ""].iter() {
        let k: &'static str = k;
        let mut ob = Object::new();
        ob.insert(k.to_string(), v.clone());
        ob.insert("other".to_string(), Value::Null);
        match ob.get_field(k) {
            Ok(x) if eq(x, v) => {}
            x => return Err(format!("get_field gives {:?}", x)),
        }
        for &(w, _) in WANTS.iter() {
            for opt in [false, true].iter() {
                judge(v, w, *opt, into(v, w, *opt), o).map_err(|m| format!("into/to: {}", m))?;
                judge(v, w, *opt, get(&ob, k, w, *opt), o).map_err(|m| format!("get: {}", m))?;
                let mut ob = ob.clone();
                judge(v, w, *opt, extract(&mut ob, k, w, *opt), o).map_err(|m| format!("extract: {}", m))?;
                match get(&ob, "absent", w, *opt) {
                    Err(Error::MissingField("absent")) => {}
                    x => return Err(format!("a missing field gives {:?}", x)),
                }
                o.count("accessor calls", 4);
            }
        }
    }
    match *v {
        Value::Array(ref a) => {
            for x in a {
                accessors(x, o)?;
            }
        }
        Value::Object(ref ob) => {
            for x in ob.values() {
                accessors(x, o)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// Texts that a message has to carry whole.
const NAMES: [&str; 9] = [
    "x", "declarations", "a name of more than thirty-two characters, that is", "with 'single' quotes", "{}", "{0}", "\u{e9}t\u{e9}", "\u{1f600}",
    "a very long name, longer than any line that anybody would ever want to read or to write, and so longer than any buffer, too: one hundred and sixty or so",
];

fn messages() -> Result<(), String> {
    let need = |e: Error, parts: &[&str]| -> Result<(), String> {
        let m = e.to_string();
        let mut rest = &m[..];
        for p in parts {
            match rest.find(p) {
                Some(k) => rest = &rest[k + p.len()..],
                None => return Err(format!("{:?} is reported as {:?}, which lacks {:?}", e, m, p)),
            }
        }
        Ok(())
    };
    for k in KEYS.iter().chain(NAMES.iter()) {
        need(Error::MissingField(k), &[k])?;
        if field_error::<()>(k) != Err(Error::MissingField(k)) {
            return Err("field_error".into());
        }
    }
    for &(a, b) in [(0usize, 1usize), (3, 17), (12345, 678), (4294967296, 2), (255, 256), (65536, 65535), (1, 18446744073709551615)].iter() {
        need(Error::WrongArrayLength(a, b), &[&a.to_string(), &b.to_string()])?;
        need(Error::IndexOutOfBounds(a, b), &[&b.to_string(), &a.to_string()])?;
        if array_error::<()>(a, b) != Err(Error::WrongArrayLength(a, b)) || index_error::<()>(a, b) != Err(Error::IndexOutOfBounds(a, b)) {
            return Err("array_error / index_error".into());
        }
    }
    for k in NAMES.iter() {
        for x in NAMES.iter() {
            let shown: String = format!("{:?}", x);
            need(Error::IllegalString(k, x.to_string()), &[k, &shown[1..shown.len() - 1]])?;
        }
        for t in [Ty::Null, Ty::Boolean, Ty::String, Ty::Number, Ty::Object, Ty::Array].iter() {
            need(Error::TypeMismatch(k, *t), &[k, tyname(*t)])?;
        }
    }
    need(Error::IllegalString("unary operator", "frob".into()), &["unary operator", "frob"])?;
    if string_error::<()>("x", "y".into()) != Err(Error::IllegalString("x", "y".into())) || type_error::<()>("x", Ty::Array) != Err(Error::TypeMismatch("x", Ty::Array)) {
        return Err("string_error / type_error".into());
    }
    for t in [Ty::Null, Ty::Boolean, Ty::String, Ty::Number, Ty::Object, Ty::Array].iter() {
        need(Error::TypeMismatch("frobnicator", *t), &["frobnicator", tyname(*t)])?;
    }
    Ok(())
}

/// A history of gets and extracts against a map.
fn c13(c: &Case, o: &mut Obs) -> Verdict {
    let mut ps = c.mode.split('/');
    let m = ps.next().unwrap_or("");
    let seed: u64 = ps.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    if m == "messages" {
        o.nontrivial = true;
        return match guard(messages) {
            Ok(Ok(())) => Verdict::Held,
            Ok(Err(m)) | Err(m) => bad(m),
        };
    }
    let mut subject = match serde_json::from_str(c.text()) {
        Ok(v) => match build(v, m) {
            Value::Object(ob) => ob,
            _ => return Verdict::Skip("not an object"),
        },
        Err(_) => return Verdict::Skip("not JSON"),
    };
    let mut model = subject.clone();
    let mut r = Rng::new(seed ^ hash_str(c.text()));
    let res = guard(|| -> Result<(), String> {
        for _ in 0..24 {
            let k = KEYS[r.below(KEYS.len())];
            let (w, _) = WANTS[r.below(8)];
            let opt = r.chance(1, 2);
            let have = model.get(k).cloned();
            let op = r.below(6);
            o.count("operations", 1);
            match op {
                0 => match (subject.get_field(k), &have) {
                    (Ok(x), &Some(ref v)) if eq(x, v) => {}
                    (Err(Error::MissingField(n)), &None) if n == k => {}
                    (x, _) => return Err(format!("get_field({:?}) gives {:?} where there is {:?}", k, x, have)),
                },
                1 | 2 => match (get(&subject, k, w, opt), &have) {
                    (Err(Error::MissingField(n)), &None) if n == k => {}
                    (x, &Some(ref v)) => judge(v, w, opt, x, o)?,
                    (x, _) => return Err(format!("get({:?}) gives {:?} where there is {:?}", k, x, have)),
                },
                3 => {
                    match (subject.extract_field(k), &have) {
                        (Ok(ref x), &Some(ref v)) if eq(x, v) => o.count("fields extracted", 1),
                        (Err(Error::MissingField(n)), &None) if n == k => o.count("missing fields", 1),
                        (x, _) => return Err(format!("extract_field({:?}) gives {:?} where there is {:?}", k, x, have)),
                    }
                    model.remove(k);
                }
                4 => {
                    match (extract(&mut subject, k, w, opt), &have) {
                        (Err(Error::MissingField(n)), &None) if n == k => o.count("missing fields", 1),
                        (x, &Some(ref v)) => {
                            let ok = x.is_ok();
                            judge(v, w, opt, x, o)?;
                            if ok {
                                o.count("fields extracted", 1);
                                model.remove(k);
                            } else {
                                // whether a field of the wrong type stays is not specified
                                subject.remove(k);
                                model.remove(k);
                            }
                        }
                        (x, _) => return Err(format!("extract({:?}) gives {:?} where there is {:?}", k, x, have)),
                    }
                }
                _ => {
                    if r.chance(1, 3) {
                        let v: Value = serde_json::from_str(&scalar(&mut r)).unwrap_or(Value::Null);
                        subject.insert(k.to_string(), v.clone());
                        model.insert(k.to_string(), v);
                    }
                }
            }
            if !obj_eq(&subject, &model) {
                return Err(format!("after an access to {:?} the object is {:?}, expected {:?}", k, subject, model));
            }
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => {
            o.nontrivial = true;
            Verdict::Held
        }
        Ok(Err(m)) | Err(m) => bad(m),
    }
}

fn main() {
    let props = [
        Prop { id: "C12", rule: "random JSON values, every accessor on every one of them and on their parts; non-trivial: a JSON value",
            fixed: c12_fixed, exhaustive: false, gen: c12_gen, check: c12, quick: 180_000, thorough: 2_000_000, assumptions: &["an integer accessor may convert between representations of the same number"] },
        Prop { id: "C13", rule: "random histories of get, extract and insert on random objects against a map; non-trivial: a history was run",
            fixed: c13_fixed, exhaustive: false, gen: c13_gen, check: c13, quick: 450_000, thorough: 5_000_000, assumptions: &["whether a field of the wrong type is removed by a failed extraction is not judged"] },
    ];
    model::harness::main(&props, concat!(env!("CARGO_MANIFEST_DIR"), "/.."));
}
