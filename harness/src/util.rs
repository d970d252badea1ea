//! Randomness, trace output and the projection of real values onto the
//! specification's values.
use json::number::Number;
use json::object::Object;
use json::JsonValue;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0 .. n
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// lo ..= hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Command line options and the trace being written.
pub struct Ctx {
    pub rng: Rng,
    pub n: usize,
    pub prop: String,
    pub thorough: bool,
    pub args: Vec<String>,
    out: BufWriter<File>,
    pending: Option<String>,
    pub events: u64,
    pub bytes: u64,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, n: usize, thorough: bool, path: &str, careful: bool, args: Vec<String>) -> Ctx {
        Ctx {
            rng: Rng::new(seed),
            n,
            prop: prop.to_string(),
            thorough,
            args,
            out: BufWriter::with_capacity(1 << 20, File::create(path).expect("trace file")),
            pending: if careful { Some(format!("{}.pending", path)) } else { None },
            events: 0,
            bytes: 0,
        }
    }
    /// An event: the fields known before the call, and the fields the call
    /// produces.  A panic of the code under test is recorded as data.
    pub fn event<F: FnOnce() -> String>(&mut self, op: &str, before: String, call: F) -> bool {
        crate::progress();
        if let Some(ref p) = self.pending {
            let mut f = File::create(p).unwrap();
            write!(f, "{{\"op\":\"{}\"{}{}}}", op, if before.is_empty() { "" } else { "," }, before).unwrap();
            self.out.flush().unwrap();
        }
        let got = catch_unwind(AssertUnwindSafe(call));
        let ok = got.is_ok();
        let after = got.unwrap_or_else(|_| "\"panic\":true".to_string());
        let mut line = format!("{{\"op\":\"{}\"", op);
        for part in [&before, &after] {
            if !part.is_empty() {
                line.push(',');
                line.push_str(part);
            }
        }
        line.push_str("}\n");
        self.raw(&line);
        ok
    }
    pub fn raw(&mut self, line: &str) {
        self.out.write_all(line.as_bytes()).unwrap();
        self.events += 1;
        self.bytes += line.len() as u64;
        // (called for every event, so a stuck call shows as lack of progress)
    }
    pub fn raw_lines(&mut self, lines: &str) {
        self.out.write_all(lines.as_bytes()).unwrap();
        self.events += lines.bytes().filter(|&b| b == b'\n').count() as u64;
        self.bytes += lines.len() as u64;
    }
    pub fn flush(&mut self) {
        self.out.flush().unwrap();
    }
    pub fn finish(&mut self) {
        self.out.flush().unwrap();
        if let Some(ref p) = self.pending {
            let _ = std::fs::remove_file(p);
        }
    }
}

/// Run a call, None if it panicked.
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn cps(s: &str) -> String {
    // (text read through a wrong pointer need not be text)
    if std::str::from_utf8(s.as_bytes()).is_err() {
        return bytes_text(s.as_bytes());
    }
    let mut o = String::with_capacity(s.len() * 4 + 2);
    o.push('[');
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{}", c as u32).unwrap();
    }
    o.push(']');
    o
}

/// Text with every run of k > 0 spaces after a line feed written as -k.
pub fn cps_rle(s: &str) -> String {
    let mut o = String::with_capacity(s.len() * 4 + 2);
    o.push('[');
    let mut run: i64 = -1; // >= 0 while counting spaces after a line feed
    let mut first = true;
    let mut put = |o: &mut String, x: i64| {
        if !first {
            o.push(',');
        }
        first = false;
        write!(o, "{}", x).unwrap();
    };
    for c in s.chars() {
        if run >= 0 {
            if c == ' ' {
                run += 1;
                continue;
            }
            if run > 0 {
                put(&mut o, -run);
            }
            run = -1;
        }
        put(&mut o, c as i64);
        if c == '\n' {
            run = 0;
        }
    }
    if run > 0 {
        put(&mut o, -run);
    }
    o.push(']');
    o
}

/// Output bytes: code points if it is UTF-8, else a marker the specification
/// never produces followed by the bytes.
pub fn bytes_text(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => cps(s),
        Err(_) => {
            let mut o = String::from("[-99");
            for x in b {
                write!(o, ",{}", x).unwrap();
            }
            o.push(']');
            o
        }
    }
}
pub fn bytes_text_rle(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => cps_rle(s),
        Err(_) => bytes_text(b),
    }
}

pub fn digits(mut m: u64) -> String {
    if m == 0 {
        return "[]".into();
    }
    let mut ds = Vec::new();
    while m > 0 {
        ds.push((m % 10) as u8 + b'0');
        m /= 10;
    }
    let mut o = String::from("[");
    for (i, d) in ds.iter().rev().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push(*d as char);
    }
    o.push(']');
    o
}

/// decimal digits of a u128
pub fn digits_big(m: u128) -> String {
    if m == 0 {
        return "[]".into();
    }
    let s = m.to_string();
    let v: Vec<String> = s.chars().map(|c| c.to_string()).collect();
    format!("[{}]", v.join(","))
}

pub fn num(n: &Number) -> String {
    if n.is_nan() {
        return r#"{"t":"num","neg":false,"d":[],"e":0,"nan":true}"#.into();
    }
    let (pos, m, e) = n.as_parts();
    format!(r#"{{"t":"num","neg":{},"d":{},"e":{},"nan":false}}"#, !pos, digits(m), e)
}

pub fn int(x: i128) -> String {
    format!(r#"{{"neg":{},"d":{}}}"#, x < 0, digits_big(x.unsigned_abs()))
}

pub fn opt_int(x: Option<i128>) -> String {
    match x {
        Some(x) => format!(r#"{{"some":true,"x":{}}}"#, int(x)),
        None => r#"{"some":false}"#.into(),
    }
}

pub fn f64s(f: f64) -> String {
    float(f.is_nan(), f.is_infinite(), f.is_sign_negative(), {
        let b = f.to_bits();
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = b & 0xfffffffffffff;
        if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) }
    })
}
pub fn f32s(f: f32) -> String {
    float(f.is_nan(), f.is_infinite(), f.is_sign_negative(), {
        let b = f.to_bits();
        let e = ((b >> 23) & 0xff) as i64;
        let m = (b & 0x7fffff) as u64;
        if e == 0 { (m, -149) } else { (m | (1 << 23), e - 150) }
    })
}
fn float(nan: bool, inf: bool, neg: bool, mq: (u64, i64)) -> String {
    if nan {
        return r#"{"c":"nan"}"#.into();
    }
    if inf {
        return format!(r#"{{"c":"inf","neg":{}}}"#, neg);
    }
    format!(r#"{{"c":"fin","neg":{},"m":{},"q":{}}}"#, neg, digits(mq.0), mq.1)
}

pub fn val(v: &JsonValue) -> String {
    let mut o = String::new();
    if depth(v, 0) > 60 {
        // the trace reader's nesting is bounded: children first, then their container
        o.push_str("{\"t\":\"flat\",\"f\":[");
        put_flat(&mut o, v);
        o.push_str("]}");
    } else {
        put_val(&mut o, v);
    }
    o
}
fn depth(v: &JsonValue, n: usize) -> usize {
    if n > 60 {
        return n;
    }
    match *v {
        JsonValue::Array(ref a) => a.iter().map(|x| depth(x, n + 1)).max().unwrap_or(n),
        JsonValue::Object(ref m) => m.iter().map(|(_, x)| depth(x, n + 1)).max().unwrap_or(n),
        _ => n,
    }
}
fn put_flat(o: &mut String, v: &JsonValue) {
    match *v {
        JsonValue::Array(ref a) => {
            for x in a.iter() {
                put_flat(o, x);
                o.push(',');
            }
            write!(o, "{{\"t\":\"arr\",\"n\":{}}}", a.len()).unwrap();
        }
        JsonValue::Object(ref m) => {
            let mut ks = Vec::new();
            for (k, x) in m.iter() {
                put_flat(o, x);
                o.push(',');
                ks.push(cps(k));
            }
            write!(o, "{{\"t\":\"obj\",\"k\":[{}]}}", ks.join(",")).unwrap();
        }
        _ => put_val(o, v),
    }
}

pub fn put_val(o: &mut String, v: &JsonValue) {
    match *v {
        JsonValue::Null => o.push_str(r#"{"t":"null"}"#),
        JsonValue::Boolean(b) => write!(o, r#"{{"t":"bool","b":{}}}"#, b).unwrap(),
        JsonValue::Short(ref s) => write!(o, r#"{{"t":"str","s":{}}}"#, cps(s.as_str())).unwrap(),
        JsonValue::String(ref s) => write!(o, r#"{{"t":"str","s":{}}}"#, cps(s)).unwrap(),
        JsonValue::Number(ref n) => o.push_str(&num(n)),
        JsonValue::Array(ref a) => {
            o.push_str(r#"{"t":"arr","a":["#);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                put_val(o, x);
            }
            o.push_str("]}");
        }
        JsonValue::Object(ref m) => put_obj(o, m),
    }
}

pub fn put_obj(o: &mut String, m: &Object) {
    o.push_str(r#"{"t":"obj","k":["#);
    for (i, (k, _)) in m.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&cps(k));
    }
    o.push_str(r#"],"v":["#);
    for (i, (_, x)) in m.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        put_val(o, x);
    }
    o.push_str("]}");
}

pub fn obj(m: &Object) -> String {
    let mut o = String::new();
    put_obj(&mut o, m);
    o
}

pub fn list<T, F: Fn(&T) -> String>(xs: &[T], f: F) -> String {
    let v: Vec<String> = xs.iter().map(f).collect();
    format!("[{}]", v.join(","))
}

pub fn error(e: &json::Error) -> String {
    match *e {
        json::Error::UnexpectedCharacter { ch, line, column } => {
            format!(r#"{{"kind":"char","ch":{},"line":{},"column":{}}}"#, ch as u32, line, column)
        }
        json::Error::UnexpectedEndOfJson => r#"{"kind":"eof"}"#.into(),
        json::Error::ExceededDepthLimit => r#"{"kind":"depth"}"#.into(),
        json::Error::FailedUtf8Parsing => r#"{"kind":"utf8"}"#.into(),
        json::Error::WrongType(ref s) => format!(r#"{{"kind":"type","want":{}}}"#, cps(s)),
    }
}
