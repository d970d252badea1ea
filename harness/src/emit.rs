//! C06, C07, C08, C20, C23: values written by the real code.
use crate::gentext;
use crate::genval::*;
use crate::util::*;
use json::codegen::{DumpGenerator, Generator, PrettyGenerator, PrettyWriterGenerator, WriterGenerator};
use json::object::Object;
use json::JsonValue;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{self, Write};
use std::rc::Rc;

/// (sink name, output) pairs, equal outputs recorded once
fn outs(list: Vec<(&str, String)>) -> String {
    let mut groups: Vec<(Vec<&str>, String)> = Vec::new();
    for (name, text) in list {
        match groups.iter_mut().find(|g| g.1 == text) {
            Some(g) => g.0.push(name),
            None => groups.push((vec![name], text)),
        }
    }
    let v: Vec<String> = groups.iter().map(|(n, t)| format!("{{\"by\":[{}],\"text\":{}}}", n.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","), t)).collect();
    format!("\"outs\":[{}]", v.join(","))
}

/// A writer that takes a few bytes at a time.
struct Trickle(Vec<u8>, usize);
impl Write for Trickle {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = b.len().min(self.1);
        self.0.extend_from_slice(&b[..k]);
        self.1 = self.1 % 7 + 1;
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What a generator has got after writing the same thing twice: two equal
/// halves, as its state is as it was.
fn halves(o: &mut Vec<(&'static str, String)>, names: [&'static str; 2], text: &[u8], rle: bool) {
    let f = |b: &[u8]| if rle { bytes_text_rle(b) } else { bytes_text(b) };
    let (a, b) = text.split_at(text.len() / 2);
    o.push((names[0], f(a)));
    o.push((names[1], f(b)));
}

/// The value written through the methods a user may call on a generator.
fn by_hand<G: Generator>(g: &mut G, v: &JsonValue) -> io::Result<()> {
    match *v {
        JsonValue::Object(ref m) => g.write_object(m),
        JsonValue::String(ref s) => g.write_string(s),
        JsonValue::Short(ref s) => g.write_string(s.as_str()),
        JsonValue::Number(ref n) => g.write_number(n),
        JsonValue::Array(ref a) if !a.is_empty() => {
            g.write_char(b'[')?;
            g.indent();
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    g.write(b",")?;
                }
                g.new_line()?;
                g.write_json(x)?;
            }
            g.dedent();
            g.new_line()?;
            g.write_char(b']')
        }
        _ => g.write_json(v),
    }
}

#[allow(deprecated)]
pub fn compact_outs(v: &JsonValue) -> Vec<(&'static str, String)> {
    let mut o = Vec::new();
    o.push(("dump", cps(&v.dump())));
    o.push(("stringify", cps(&json::stringify(v.clone()))));
    let mut w = Vec::new();
    v.write(&mut w).unwrap();
    o.push(("write", bytes_text(&w)));
    let mut w = Trickle(Vec::new(), 3);
    v.write(&mut w).unwrap();
    o.push(("write-trickle", bytes_text(&w.0)));
    let mut w = Vec::new();
    v.to_writer(&mut w);
    o.push(("to_writer", bytes_text(&w)));
    let mut g = DumpGenerator::new();
    g.write_json(v).unwrap();
    o.push(("DumpGenerator", cps(&g.consume())));
    let mut w = b"<".to_vec();
    {
        let mut g = WriterGenerator::new(&mut w);
        g.write_json(v).unwrap();
    }
    o.push(("WriterGenerator", bytes_text(&w[1..])));
    let mut g = DumpGenerator::new();
    by_hand(&mut g, v).unwrap();
    g.write_json(v).unwrap();
    halves(&mut o, ["DumpGenerator by hand", "DumpGenerator again"], g.consume().as_bytes(), false);
    let mut w = Vec::new();
    {
        let mut g = WriterGenerator::new(&mut w);
        g.write_json(v).unwrap();
        by_hand(&mut g, v).unwrap();
    }
    halves(&mut o, ["WriterGenerator first", "WriterGenerator by hand"], &w, false);
    match *v {
        JsonValue::Object(ref m) => {
            o.push(("Object::dump", cps(&m.dump())));
            o.push(("Display", cps(&v.to_string())));
        }
        JsonValue::Array(_) => {
            o.push(("Display", cps(&format!("{}", v))));
        }
        _ => {}
    }
    o
}

pub fn dump(cx: &mut Ctx, v: &JsonValue) {
    cx.event("dump", format!("\"v\":{}", val(v)), || outs(compact_outs(v)));
}

pub fn pretty_outs(v: &JsonValue, n: u16) -> Vec<(&'static str, String)> {
    let mut o = Vec::new();
    o.push(("pretty", cps_rle(&v.pretty(n))));
    o.push(("stringify_pretty", cps_rle(&json::stringify_pretty(v.clone(), n))));
    let mut w = Vec::new();
    v.write_pretty(&mut w, n).unwrap();
    o.push(("write_pretty", bytes_text_rle(&w)));
    let mut w = Trickle(Vec::new(), 2);
    v.write_pretty(&mut w, n).unwrap();
    o.push(("write_pretty-trickle", bytes_text_rle(&w.0)));
    let mut g = PrettyGenerator::new(n);
    g.write_json(v).unwrap();
    o.push(("PrettyGenerator", cps_rle(&g.consume())));
    let mut w = Vec::new();
    {
        let mut g = PrettyWriterGenerator::new(&mut w, n);
        g.write_json(v).unwrap();
    }
    o.push(("PrettyWriterGenerator", bytes_text_rle(&w)));
    let mut g = PrettyGenerator::new(n);
    by_hand(&mut g, v).unwrap();
    g.write_json(v).unwrap();
    halves(&mut o, ["PrettyGenerator by hand", "PrettyGenerator again"], g.consume().as_bytes(), true);
    let mut w = Vec::new();
    {
        let mut g = PrettyWriterGenerator::new(&mut w, n);
        g.write_json(v).unwrap();
        by_hand(&mut g, v).unwrap();
    }
    halves(&mut o, ["PrettyWriterGenerator first", "PrettyWriterGenerator by hand"], &w, true);
    if n == 4 {
        o.push(("Display#", cps_rle(&format!("{:#}", v))));
    }
    if let JsonValue::Object(ref m) = *v {
        o.push(("Object::pretty", cps_rle(&m.pretty(n))));
    }
    o
}

pub fn pretty(cx: &mut Ctx, v: &JsonValue, n: u16) {
    cx.event("pretty", format!("\"n\":{},\"v\":{}", n, val(v)), || outs(pretty_outs(v, n)));
}

fn round(cx: &mut Ctx, v: &JsonValue, n: u16) {
    cx.event("round", format!("\"n\":{},\"v\":{}", n, val(v)), || {
        let d = v.dump();
        let p = v.pretty(n);
        let back = |t: &str| match json::parse(t) {
            Ok(w) => format!(
                "{{\"ok\":true,\"v\":{},\"eq\":[{},{},{}],\"again\":[{},{}]}}",
                val(&w), w == *v, *v == w, !(w != *v), w.dump() == d, w.pretty(n) == p
            ),
            Err(e) => format!("{{\"ok\":false,\"er\":{}}}", error(&e)),
        };
        format!("\"back\":[{},{}]", back(&d), back(&p))
    });
}

// ------------------------------------------------------------ very deep values
/// Sees the output line by line: indentation and text of some lines, and how
/// many there were.
struct Lines {
    want: Vec<usize>,
    line: usize,
    spaces: usize,
    text: String,
    kept: Vec<String>,
    stop: usize, // fails at the start of this line
}
impl Lines {
    fn end(&mut self) {
        if self.want.contains(&self.line) {
            self.kept.push(format!("{{\"no\":{},\"in\":{},\"text\":{}}}", self.line, self.spaces, cps(&self.text)));
        }
    }
}
impl Write for Lines {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        for &c in b {
            if c == b'\n' {
                self.end();
                self.line += 1;
                self.spaces = 0;
                self.text.clear();
                if self.line == self.stop {
                    return Err(io::Error::new(io::ErrorKind::Other, Tag(1)));
                }
            } else if c == b' ' && self.text.is_empty() {
                self.spaces += 1;
            } else {
                self.text.push(c as char);
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// n containers inside one another (arrays, and objects with a key k), far
/// deeper than the parser allows
fn very_deep(cx: &mut Ctx, n: usize, k: u16, stop: usize) {
    let call = move || {
        let mut v = JsonValue::from(1);
        for i in (1..=n).rev() {
            v = if i % 2 == 1 {
                JsonValue::Array(vec![v])
            } else {
                let mut o = Object::new();
                o.insert("k", v);
                JsonValue::Object(o)
            };
        }
        let mut want: Vec<usize> = vec![1, 2, 3, n - 1, n, n + 1, n + 2, n + 3, 2 * n, 2 * n + 1];
        for m in [256usize, 32768, 65536] {
            want.extend(m - 1..m + 3);
            want.extend((2 * n).saturating_sub(m)..(2 * n).saturating_sub(m) + 4);
        }
        let see = |text: Option<&str>| {
            let mut w = Lines { want: want.clone(), line: 1, spaces: 0, text: String::new(), kept: vec![], stop };
            let ok = match text {
                Some(t) => w.write_all(t.as_bytes()).is_ok(),
                None => v.write_pretty(&mut w, k).is_ok(),
            };
            if ok {
                w.end();
            }
            format!("{{\"ok\":{},\"total\":{},\"lines\":[{}]}}", ok, w.line, w.kept.join(","))
        };
        let mut all = vec![see(None)];
        if stop == 0 {
            all.push(see(Some(&v.pretty(k))));
        }
        let d = v.dump();
        let (a, b) = d.split_at(d.len() / 2);
        format!("\"seen\":[{}],\"dump\":{{\"len\":{},\"head\":{},\"tail\":{}}}", all.join(","), d.len(), cps(&a[..12]), cps(&b[b.len() - 12..]))
    };
    cx.event("deep", format!("\"n\":{},\"k\":{},\"stop\":{}", n, k, stop), || {
        std::thread::Builder::new().stack_size(1 << 30).spawn(call).unwrap().join().unwrap()
    });
}

// ------------------------------------------------------------ interesting values
fn strings(cx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, JsonValue)) {
    // every character up to U+00FF alone, at the start, in the middle, at the end
    for c in 0..256u32 {
        let c = char::from_u32(c).unwrap();
        let fill = *cx.rng.pick(&["", "a", "\u{e9}", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]);
        let mut o = Object::new();
        o.insert(&format!("{}{}", c, fill), format!("{}{}", fill, c).into());
        o.insert(&format!("{}{}{}", fill, c, fill), JsonValue::String(format!("{}", c)));
        f(cx, JsonValue::Object(o));
    }
    for &c in gentext::SPECIAL {
        for &d in &['"', '\\', '\n', '\u{1}', '\u{1f600}', 'a'] {
            f(cx, JsonValue::String(format!("{}{}", c, d)));
        }
    }
    // an escape at every offset of strings of many lengths
    for n in (0..68usize).chain([127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 2000]) {
        let at = if n == 0 { 0 } else { cx.rng.below(n) };
        for e in ["", "\"", "\n", "\u{0}", "\u{1f}\\"] {
            let s = format!("{}{}{}", "b".repeat(at), e, "c".repeat(n - at));
            let v = string_value(&mut cx.rng, &s);
            f(cx, v);
        }
    }
    for n in 68..=300usize {
        let at = cx.rng.below(n);
        let (c, e) = (*cx.rng.pick(&["a", "a", " ", "\u{e9}"]), *cx.rng.pick(&["", "", "\"", "\n", "\u{1}", "\u{1f600}"]));
        let s = format!("{}{}{}", c.repeat(at), e, c.repeat(n - at));
        if cx.rng.bool() {
            let v = string_value(&mut cx.rng, &s);
            f(cx, v);
        } else {
            let mut o = Object::new();
            o.insert(&s, 1.into());
            f(cx, JsonValue::Object(o));
        }
    }
    // something unusual at every offset of plain strings, some of them keys
    for odd in ["\u{0}", "\u{1f}", "\n", "\"", "\\", "\u{7f}", "\u{e9}", "\u{2028}", "/", "\u{1f600}"] {
        for fill in ["a", "\u{e9}", *cx.rng.pick(&[" ", "!", "#", "0", "Z", "[", "]", "~", "\u{20ac}", "\u{10ffff}"])] {
            let mut o = Object::new();
            let mut a = Vec::new();
            for at in 0..34 {
                let s = format!("{}{}{}", fill.repeat(at), odd, fill.repeat(*cx.rng.pick(&[0usize, 1, 7, 8, 15, 16, 17, 18, 33])));
                if at % 8 == 7 {
                    o.insert(&s, at.into());
                }
                a.push(string_value(&mut cx.rng, &s));
            }
            o.insert("a", JsonValue::Array(a));
            f(cx, JsonValue::Object(o));
        }
    }
    // every character there is (of every width), side by side
    let step = if cx.thorough { 1 } else { 4 };
    let shift = cx.rng.below(step as usize) as u32;
    for b in (0..0x110000u32 / 256).filter(|b| *b < 256 || b % 67 == 0) {
        if b % step == shift || b < 16 {
            f(cx, JsonValue::String((0..256).filter_map(|c| char::from_u32(256 * b + c)).collect()));
        }
    }
    for s in longs(cx) {
        f(cx, JsonValue::String(s));
    }
    let s = longs(cx).pop().unwrap();
    let mut o = Object::new();
    o.insert(&s, JsonValue::from(&s[..]));
    f(cx, JsonValue::Object(o));
    for s in blocks(cx) {
        if cx.rng.chance(1, 8) {
            let mut o = Object::new();
            o.insert(&s, JsonValue::new_array());
            f(cx, JsonValue::Object(o));
        } else {
            f(cx, JsonValue::String(s));
        }
    }
}
/// strings as long as a block of memory, with something special at an end
fn blocks(cx: &mut Ctx) -> Vec<String> {
    let odd = ["\n", "\"", "\\", "\u{1}", "\u{7f}", "\u{e9}", "\u{1f600}", "\t", "\u{0}", "\u{20ac}"];
    let mut ss = Vec::new();
    for k in 10..=16u32 {
        for d in [-1i64, 0, 1] {
            let n = ((1i64 << k) + d) as usize;
            for (i, a) in odd.iter().enumerate() {
                // every one at the start of a string of just that many bytes
                if i > 6 && !cx.thorough || d != 0 && cx.rng.below(7) > 1 && !cx.thorough {
                    continue;
                }
                let b = *cx.rng.pick(&["", "", "\"", "\n", "\u{1f600}", "\u{1f}"]);
                let fill = *cx.rng.pick(&["a", "a", " ", "~"]);
                let mut a = *a;
                let mut b = b;
                if d != 0 && cx.rng.bool() {
                    std::mem::swap(&mut a, &mut b);
                }
                // as many bytes, or as many plain ones
                let m = if d == 0 || cx.rng.bool() { n - a.len() - b.len() } else { n };
                ss.push(format!("{}{}{}", a, fill.repeat(m), b));
            }
        }
    }
    ss
}
/// strings longer than any buffer, with little to escape
fn longs(cx: &mut Ctx) -> Vec<String> {
    let all = [4094usize, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000];
    let mut ss = Vec::new();
    for _ in 0..if cx.thorough { 12 } else { 3 } {
        let n = *cx.rng.pick(&all);
        let fill = *cx.rng.pick(&['a', 'a', '\u{e9}', '\u{1f600}', '"']);
        let mut c = vec![fill; n / fill.len_utf8()];
        for _ in 0..cx.rng.below(5) {
            // here and there, and where a buffer may end
            let at = if cx.rng.bool() { cx.rng.below(c.len()) } else { (*cx.rng.pick(&all) - 2 + cx.rng.below(4)).min(c.len() - 1) };
            c[at] = *cx.rng.pick(&['\n', '"', '\\', '\u{1}', '\u{7f}', '\u{20ac}', '\u{1f600}']);
        }
        ss.push(c.into_iter().collect());
    }
    ss
}

/// A long text into a writer that takes what it likes, and may fail somewhere.
struct Chop {
    got: Vec<u8>,
    most: Vec<usize>,
    turn: usize,
    at: usize, // fails when it has this much
    zero: bool, // by taking nothing
    after: usize,
    failed: bool,
}
impl Write for Chop {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after += 1;
            return Ok(b.len());
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.got.len() >= self.at {
            self.failed = true;
            if self.zero {
                return Ok(0);
            }
            return Err(io::Error::new(io::ErrorKind::Other, Tag(77)));
        }
        self.turn += 1;
        if self.turn % 17 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = b.len().min(self.most[self.turn % self.most.len()]).min(self.at - self.got.len());
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn chop(cx: &mut Ctx, v: &JsonValue, n: i32, at: usize) {
    let most = (0..1 + cx.rng.below(5)).map(|_| *cx.rng.pick(&[1usize, 7, 100, 4096, 60000, usize::MAX])).collect();
    let zero = cx.rng.bool();
    let mut w = Chop { got: Vec::new(), most, turn: 0, at, zero, after: 0, failed: false };
    cx.event("chop", format!("\"n\":{},\"v\":{},\"at\":{},\"z\":{}", n, val(v), if at == usize::MAX { -1 } else { at as i64 }, zero), || {
        let r = if n < 0 { v.write(&mut w) } else { v.write_pretty(&mut w, n as u16) };
        let own = r.as_ref().err().map_or(false, |e| e.get_ref().and_then(|e| e.downcast_ref::<Tag>()).map_or(false, |t| t.0 == 77));
        format!("\"ok\":{},\"own\":{},\"after\":{},\"got\":{}", r.is_ok(), own, w.after, list(&w.got, |b| b.to_string()))
    });
}
fn chops(cx: &mut Ctx) {
    for i in 0..if cx.thorough { 120 } else { 16 } {
        let mut ss = longs(cx);
        let v = match i % 3 {
            0 => JsonValue::String(ss.pop().unwrap()),
            1 => {
                let mut o = Object::new();
                o.insert(&ss.pop().unwrap(), 1.into());
                o.insert("k", genval_any(cx));
                o.insert("l", ss.pop().unwrap().into());
                JsonValue::Object(o)
            }
            _ => JsonValue::Array(vec![genval_any(cx), ss.pop().unwrap().into(), genval_any(cx), JsonValue::Null]),
        };
        let n = *cx.rng.pick(&[-1, -1, 0, 2, 300]);
        let len = if n < 0 { v.dump().len() } else { v.pretty(n as u16).len() };
        for at in [usize::MAX, cx.rng.below(len), len - 1 - cx.rng.below(3), 4096.min(len - 1)] {
            if cx.rng.bool() {
                chop(cx, &v, n, at);
            }
        }
    }
}
fn genval_any(cx: &mut Ctx) -> JsonValue {
    any(&mut cx.rng)
}

pub fn deep(r: &mut Rng, n: usize, inner: JsonValue) -> JsonValue {
    let mut v = inner;
    for _ in 0..n {
        v = if r.bool() {
            let mut o = Object::new();
            o.insert("k", v);
            JsonValue::Object(o)
        } else {
            JsonValue::Array(vec![v])
        };
    }
    v
}

fn structures(cx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, JsonValue)) {
    let empties = [JsonValue::new_array(), JsonValue::new_object(), JsonValue::Null, JsonValue::from(""), JsonValue::from(0), JsonValue::Boolean(false)];
    for a in &empties {
        f(cx, a.clone());
        f(cx, JsonValue::Array(vec![a.clone()]));
        let mut o = Object::new();
        o.insert("", a.clone());
        f(cx, JsonValue::Object(o));
        for b in &empties {
            f(cx, JsonValue::Array(vec![a.clone(), b.clone()]));
            let mut o = Object::new();
            o.insert("a", a.clone());
            o.insert("b", b.clone());
            f(cx, JsonValue::Array(vec![JsonValue::Object(o.clone()), b.clone()]));
            o.insert("c", JsonValue::Array(vec![b.clone(), a.clone()]));
            f(cx, JsonValue::Object(o));
        }
    }
    // emptied containers look like empty ones
    let mut o = Object::new();
    o.insert("x", 1.into());
    o.remove("x");
    f(cx, JsonValue::Object(o));
    let mut v = JsonValue::from(vec![1, 2]);
    v.clear();
    f(cx, v);
    for n in 4..=140usize {
        if cx.rng.bool() {
            f(cx, JsonValue::Array((0..n).map(|i| JsonValue::from(i as u64 % 11)).collect()));
        } else {
            let mut o = Object::new();
            for i in 0..n {
                o.insert(&i.to_string(), JsonValue::from(i % 2 == 0));
            }
            f(cx, JsonValue::Object(o));
        }
    }
    // wide, with containers among the elements
    for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024] {
        for _ in 0..if cx.thorough { 8 } else { 3 } {
            let inner = ["[]", "{}", "[1]", "{\"a\":1}", "[{\"a\":[]},{}]", "{\"a\":{\"b\":[1,{}]},\"c\":[]}", "[[[]],[]]"];
            let i = json::parse(*cx.rng.pick(&inner)).unwrap();
            let j = json::parse(*cx.rng.pick(&inner)).unwrap();
            let (a, b) = match cx.rng.below(4) {
                0 => (n, n - 1),
                1 => (0, n - 1),
                2 => (0, cx.rng.below(n)),
                _ => (cx.rng.below(n), n - 1),
            };
            let at = |k: usize| if k == a { i.clone() } else if k == b { j.clone() } else { JsonValue::from(k as u64 % 10) };
            if cx.rng.bool() {
                f(cx, JsonValue::Array(vec![JsonValue::Array((0..n).map(at).collect()), 1.into()]));
            } else {
                let mut o = Object::new();
                for k in 0..n {
                    o.insert(&(k * 7919 % 10007).to_string(), at(k));
                }
                f(cx, JsonValue::Array(vec![JsonValue::Object(o), JsonValue::new_array()]));
            }
        }
    }
    for n in [20usize, 100] {
        f(cx, JsonValue::Array((0..n).map(|i| JsonValue::from(i as u64)).collect()));
        let mut o = Object::new();
        for i in 0..n {
            o.insert(&format!("key{}", i * 7919 % 1000), JsonValue::from(vec![i as u64]));
        }
        f(cx, JsonValue::Object(o));
    }
}

// ------------------------------------------------------------ C20: writers that fail
#[derive(Clone, Copy)]
enum Resp {
    Take(usize),
    Interrupt,
    Zero,
    Fail(u32),
}
struct Faulty {
    plan: Vec<Resp>,
    at: usize,
    then: usize, // how many bytes it takes once the plan is used up
    log: String,
    calls: usize,
}
#[derive(Debug)]
struct Tag(u32);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "tag{}", self.0)
    }
}
impl std::error::Error for Tag {}
fn bytes(b: &[u8]) -> String {
    let mut o = String::from("[");
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{}", x).unwrap();
    }
    o.push(']');
    o
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 20000 {
            panic!("writer called without end");
        }
        let resp = if b.is_empty() { Resp::Zero } else { self.plan.get(self.at).cloned().unwrap_or(Resp::Take(self.then)) };
        if !b.is_empty() {
            self.at += 1;
        }
        let (say, ret) = match resp {
            Resp::Take(k) => {
                let k = k.max(1).min(b.len());
                (format!("{{\"is\":\"take\",\"k\":{}}}", k), Ok(k))
            }
            Resp::Zero => ("{\"is\":\"zero\"}".to_string(), Ok(0)),
            Resp::Interrupt => ("{\"is\":\"intr\"}".to_string(), Err(io::Error::new(io::ErrorKind::Interrupted, Tag(0)))),
            Resp::Fail(t) => (format!("{{\"is\":\"fail\",\"tag\":{}}}", t), Err(io::Error::new([io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof][t as usize % 4], Tag(t)))),
        };
        // long buffers are recorded up to what matters: what is taken, and some more
        writeln!(self.log, "{{\"op\":\"w\",\"buf\":{},\"resp\":{}}}", bytes(b), say).unwrap();
        ret
    }
    fn flush(&mut self) -> io::Result<()> {
        writeln!(self.log, "{{\"op\":\"flush\"}}").unwrap();
        Ok(())
    }
}

fn faulty(cx: &mut Ctx, v: &JsonValue, spaces: Option<u16>, plan: Vec<Resp>, then: usize) {
    let n = spaces.map_or(-1, |n| n as i64);
    crate::progress();
    let start = format!("\"n\":{},\"v\":{}", n, val(v));
    cx.event("start", start.clone(), String::new);
    let mut w = Faulty { plan, at: 0, then, log: String::new(), calls: 0 };
    let r = attempt(|| match spaces {
        Some(n) => v.write_pretty(&mut w, n),
        None => v.write(&mut w),
    });
    let log = std::mem::take(&mut w.log);
    cx.raw_lines(&log);
    let ret = match r {
        None => "{\"is\":\"panic\"}".to_string(),
        Some(Ok(())) => "{\"is\":\"ok\"}".to_string(),
        Some(Err(e)) => match e.get_ref().and_then(|x| x.downcast_ref::<Tag>()) {
            Some(t) => format!("{{\"is\":\"fail\",\"tag\":{}}}", t.0),
            None => format!("{{\"is\":\"{}\"}}", if e.kind() == io::ErrorKind::WriteZero { "zero" } else { "other" }),
        },
    };
    cx.event("ret", format!("\"ret\":{},\"v\":{}", ret, val(v)), || {
        // writing again starts afresh
        let mut w = Vec::new();
        match spaces {
            Some(n) => v.write_pretty(&mut w, n).unwrap(),
            None => v.write(&mut w).unwrap(),
        }
        format!("\"again\":{}", bytes(&w))
    });
}

/// A plan generated from the specification (t<k> i z f<tag> ...), for values
/// whose text is as long as the model's and longer.
pub fn planned(cx: &mut Ctx, line: &str) {
    let plan: Vec<Resp> = line
        .split(' ')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let n = x[1..].parse().unwrap_or(0);
            match &x[..1] {
                "t" => Resp::Take(n),
                "i" => Resp::Interrupt,
                "z" => Resp::Zero,
                _ => Resp::Fail(n as u32),
            }
        })
        .collect();
    for t in ["\"a\"", "[1]", "{\"\\u0001\":-1.5e-30}"] {
        let v = json::parse(t).unwrap();
        faulty(cx, &v, None, plan.clone(), 2);
        faulty(cx, &v, Some(2), plan.clone(), usize::MAX);
    }
}

fn sinks(cx: &mut Ctx) {
    let mut vs: Vec<JsonValue> = Vec::new();
    for t in [
        "null", "true", "\"\"", "\"a\\u0001\\\"b\"", "-12.5e-30", "[]", "{}", "[1,[],{\"a\":\"\\n\"}]", "{\"k\":\"\u{e9}\u{1f600}\",\"l\":[null,false]}",
        "[\"\\u0000\\u001f\",1e300,\"x\",{\"\":{}}]", "12345678", "0", "\"plain text\"", "[0.001,-5e-20,1e30,18446744073709551615]",
    ] {
        vs.push(json::parse(t).unwrap());
    }
    // fail at every byte and at every call
    for v in &vs {
        for spaces in [None, Some(0u16), Some(1), Some(3)] {
            let len = spaces.map_or(v.dump().len(), |n| v.pretty(n).len());
            for k in 0..=len {
                if !cx.thorough && k > 6 && cx.rng.chance(1, 2) {
                    continue;
                }
                let mut plan: Vec<Resp> = vec![Resp::Take(1); k];
                plan.push(Resp::Fail(1 + k as u32));
                faulty(cx, v, spaces, plan, 1);
                let mut plan: Vec<Resp> = vec![Resp::Take(1000); k / 2];
                plan.push(match k % 3 {
                    0 => Resp::Interrupt,
                    1 => Resp::Zero,
                    _ => Resp::Fail(7),
                });
                faulty(cx, v, spaces, plan, 3);
            }
        }
    }
    for _ in 0..cx.n {
        let v = any(&mut cx.rng);
        let spaces = match cx.rng.below(4) {
            0 | 1 => None,
            2 => Some(cx.rng.below(5) as u16),
            _ => Some(*cx.rng.pick(&[0u16, 1, 2, 4, 8, 17])),
        };
        let len = spaces.map_or(v.dump().len(), |n| v.pretty(n).len());
        if len > 600 {
            continue;
        }
        let m = cx.rng.below(30);
        let mut plan = Vec::new();
        for _ in 0..m {
            let r = &mut cx.rng;
            plan.push(match r.below(12) {
                0 => Resp::Interrupt,
                1 if r.chance(1, 8) => Resp::Zero,
                2 if r.chance(1, 3) => Resp::Fail(1 + r.below(1000) as u32),
                3..=6 => Resp::Take(1 + r.below(4)),
                _ => Resp::Take(usize::MAX),
            });
        }
        let then = *cx.rng.pick(&[1usize, 2, 5, usize::MAX]);
        faulty(cx, &v, spaces, plan, then);
    }
}

// ------------------------------------------------------------ C23: custom generators
struct Log {
    calls: Vec<i64>,
    bytes: Vec<u8>, // pending bytes, turned into code points when the next layout call comes
    direct: i64,    // what is added to the code points: DIRECT if they went to the writer itself
    ops: usize,
    fail_at: usize, // the number of the overridden call that fails
    failed: bool,
    after: bool,
}
impl Log {
    fn flush(&mut self) {
        let b = std::mem::take(&mut self.bytes);
        match std::str::from_utf8(&b) {
            Ok(s) => {
                let d = self.direct;
                self.calls.extend(s.chars().map(|c| c as i64 + d))
            }
            Err(e) => {
                let (good, _) = b.split_at(e.valid_up_to());
                self.calls.extend(std::str::from_utf8(good).unwrap().chars().map(|c| c as i64));
                self.calls.push(if self.failed { -98 } else { -99 });
            }
        }
    }
    fn step(&mut self) -> io::Result<()> {
        if self.failed {
            self.after = true;
        }
        self.ops += 1;
        if self.ops == self.fail_at {
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, Tag(self.fail_at as u32)));
        }
        Ok(())
    }
    fn bytes(&mut self, b: &[u8], direct: i64) {
        if direct != self.direct {
            self.flush();
            self.direct = direct;
        }
        self.bytes.extend_from_slice(b);
    }
    fn layout(&mut self, c: i64) {
        self.flush();
        self.calls.push(c);
    }
}
type Shared = Rc<RefCell<Log>>;
const DIRECT: i64 = 2000000;
struct LogWriter(Shared, usize, i64);
impl Write for LogWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut l = self.0.borrow_mut();
        if b.is_empty() {
            return Ok(0);
        }
        l.step()?;
        let k = b.len().min(self.1);
        l.bytes(&b[..k], self.2);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// overrides what must be, and the layout methods
struct Plain(LogWriter);
impl Generator for Plain {
    type T = LogWriter;
    fn get_writer(&mut self) -> &mut LogWriter {
        &mut self.0
    }
    fn write_min(&mut self, slice: &[u8], min: u8) -> io::Result<()> {
        let mut l = (self.0).0.borrow_mut();
        l.step()?;
        l.layout(if slice == b": " && min == b':' { -4 } else { -97 });
        Ok(())
    }
    fn new_line(&mut self) -> io::Result<()> {
        let mut l = (self.0).0.borrow_mut();
        l.step()?;
        l.layout(-3);
        Ok(())
    }
    fn indent(&mut self) {
        (self.0).0.borrow_mut().layout(-1);
    }
    fn dedent(&mut self) {
        (self.0).0.borrow_mut().layout(-2);
    }
}
/// overrides the byte methods as well; numbers and \u escapes may use the writer
struct Full(LogWriter);
impl Generator for Full {
    type T = LogWriter;
    fn get_writer(&mut self) -> &mut LogWriter {
        &mut self.0
    }
    fn write(&mut self, slice: &[u8]) -> io::Result<()> {
        let mut l = (self.0).0.borrow_mut();
        l.step()?;
        l.bytes(slice, 0);
        Ok(())
    }
    fn write_char(&mut self, ch: u8) -> io::Result<()> {
        let mut l = (self.0).0.borrow_mut();
        l.step()?;
        l.bytes(&[ch], 0);
        Ok(())
    }
    fn write_min(&mut self, slice: &[u8], min: u8) -> io::Result<()> {
        let mut l = (self.0).0.borrow_mut();
        l.step()?;
        l.layout(if slice == b": " && min == b':' { -4 } else { -97 });
        Ok(())
    }
    fn new_line(&mut self) -> io::Result<()> {
        let mut l = (self.0).0.borrow_mut();
        l.step()?;
        l.layout(-3);
        Ok(())
    }
    fn indent(&mut self) {
        (self.0).0.borrow_mut().layout(-1);
    }
    fn dedent(&mut self) {
        (self.0).0.borrow_mut().layout(-2);
    }
}
/// overrides nothing but the two required methods
struct Bare(LogWriter);
impl Generator for Bare {
    type T = LogWriter;
    fn get_writer(&mut self) -> &mut LogWriter {
        &mut self.0
    }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> {
        let mut l = (self.0).0.borrow_mut();
        l.step()?;
        l.bytes(&[min], 0);
        Ok(())
    }
}

pub fn generate(cx: &mut Ctx, v: &JsonValue, kind: &str, fail_at: usize, chunk: usize) -> usize {
    let log: Shared = Rc::new(RefCell::new(Log { calls: vec![], bytes: vec![], direct: 0, ops: 0, fail_at, failed: false, after: false }));
    let l2 = log.clone();
    cx.event("gen", format!("\"kind\":\"{}\",\"at\":{},\"v\":{}", kind, fail_at, val(v)), || {
        let w = LogWriter(l2.clone(), chunk, if kind == "full" { DIRECT } else { 0 });
        let object_entry = matches!(v, JsonValue::Object(_)) && fail_at % 2 == 1;
        macro_rules! go {
            ($g:expr) => {{
                let mut g = $g;
                match (object_entry, v) {
                    (true, JsonValue::Object(o)) => g.write_object(o),
                    _ => g.write_json(v),
                }
            }};
        }
        let r = match kind {
            "plain" => go!(Plain(w)),
            "full" => go!(Full(w)),
            _ => go!(Bare(w)),
        };
        let mut l = l2.borrow_mut();
        l.flush();
        let tag = match r {
            Ok(()) => 0,
            Err(e) => e.get_ref().and_then(|x| x.downcast_ref::<Tag>()).map_or(-1, |t| t.0 as i64),
        };
        format!("\"calls\":{},\"failed\":{},\"after\":{},\"tag\":{}", list(&l.calls, |c| c.to_string()), l.failed, l.after, tag)
    });
    let ops = log.try_borrow().map(|l| l.ops).unwrap_or(0);
    ops
}

fn generators(cx: &mut Ctx) {
    let mut vs = Vec::new();
    structures(cx, &mut |_, v| vs.push(v));
    for t in ["{\"a\":{\"b\":[1,{\"c\":[]},[[2]]]},\"d\":\"\\u0001x\\n\"}", "[[[],[[]]],{}]", "{\"\\\"\":-0.5e-40,\"\u{e9}\":[{},{\"x\":[]}]}", "\"\\u0000\"", "[true]"] {
        vs.push(json::parse(t).unwrap());
    }
    for _ in 0..cx.n {
        let v = any(&mut cx.rng);
        vs.push(v);
    }
    strings(cx, &mut |cx, v| {
        if cx.rng.chance(1, 12) {
            vs.push(v)
        }
    });
    for s in longs(cx) {
        vs.push(json::array![s.clone(), 1]);
        let mut o = Object::new();
        o.insert(&s, s.chars().take(300).collect::<String>().into());
        vs.push(JsonValue::Object(o));
    }
    for (i, v) in vs.iter().enumerate() {
        for kind in ["plain", "full", "bare"] {
            let ops = generate(cx, v, kind, 0, usize::MAX);
            if kind == "bare" && i % 3 != 0 {
                continue;
            }
            let every = if i % 10 == 0 || cx.thorough { 1 } else { 1 + ops / 4 };
            let mut k = 1 + if every == 1 { 0 } else { cx.rng.below(every) };
            while k <= ops + 1 && (ops < 400 || k < 3 * every) {
                let chunk = *cx.rng.pick(&[1usize, 2, usize::MAX, usize::MAX]);
                generate(cx, v, kind, k, chunk);
                k += every;
            }
        }
    }
}

pub fn drive(cx: &mut Ctx) {
    let n = cx.n;
    match cx.prop.clone().as_str() {
        "C06" => {
            strings(cx, &mut |cx, v| dump(cx, &v));
            structures(cx, &mut |cx, v| dump(cx, &v));
            for d in [1usize, 10, 100, 511, 512, 513, 600] {
                let v = deep(&mut cx.rng, d, 1.into());
                dump(cx, &v);
            }
            for c in EDGE_MANTISSAS.chunks(6) {
                let a: Vec<JsonValue> = c.iter().map(|&m| JsonValue::Number(raw(cx.rng.bool(), m, exponent(&mut cx.rng)))).collect();
                dump(cx, &JsonValue::Array(a));
            }
            for _ in 0..n {
                let v = any(&mut cx.rng);
                dump(cx, &v);
            }
        }
        "C07" => {
            structures(cx, &mut |cx, v| {
                let k = *cx.rng.pick(&[0u16, 1, 2, 4]);
                pretty(cx, &v, k)
            });
            strings(cx, &mut |cx, v| {
                if cx.rng.chance(1, 4) {
                    pretty(cx, &v, 3)
                }
            });
            for d in [1usize, 2, 3, 4, 5, 8, 16, 17, 63, 64, 65, 100, 255, 256, 257, 300] {
                let inner = any(&mut cx.rng);
                let v = deep(&mut cx.rng, d, inner);
                for k in [0u16, 1, 3, 4, 7, 8, 15, 16, 100, 255, 256, 257] {
                    if d * k as usize <= 2100 {
                        pretty(cx, &v, k);
                    }
                }
            }
            // every indent and every depth
            for k in 0..=270u16 {
                let inner = *cx.rng.pick(&["[1]", "{\"a\":{}}", "[{\"a\":1,\"b\":[2]}]"]);
                pretty(cx, &json::parse(inner).unwrap(), k);
            }
            for d in 1..=270usize {
                let v = deep(&mut cx.rng, d, json::Null);
                pretty(cx, &v, (d % 3) as u16);
            }
            very_deep(cx, 1000, 2, 0);
            very_deep(cx, 66000, 0, 0);
            if cx.thorough && !cfg!(debug_assertions) {
                very_deep(cx, 66000, 1, 65545);
            }
            for &(d, k) in &[(2usize, 32768u16), (3, 30000), (1, 65535), (2, 65535), (4, 16384), (257, 256), (256, 256), (1, 40000)] {
                let v = deep(&mut cx.rng, d, JsonValue::new_array());
                pretty(cx, &v, k);
            }
            for _ in 0..n {
                let v = any(&mut cx.rng);
                let k = match cx.rng.below(6) {
                    0 | 1 => cx.rng.below(9) as u16,
                    2 => 4,
                    3 => *cx.rng.pick(&[10u16, 16, 63, 64, 65, 100, 127, 128, 255, 256, 300]),
                    4 => 2,
                    _ => cx.rng.below(40) as u16,
                };
                pretty(cx, &v, k);
            }
        }
        "C08" => {
            strings(cx, &mut |cx, v| round(cx, &v, 2));
            structures(cx, &mut |cx, v| round(cx, &v, 1));
            for d in [1usize, 100, 510, 511, 512] {
                for inner in ["[]", "{}", "1", "\"x\""] {
                    let inner = json::parse(inner).unwrap();
                    let v = deep(&mut cx.rng, d, inner);
                    round(cx, &v, if d > 200 { 0 } else { 2 });
                }
            }
            for &m in EDGE_MANTISSAS {
                let mut a = Vec::new();
                for _ in 0..12 {
                    let e = exponent(&mut cx.rng);
                    a.push(JsonValue::Number(raw(cx.rng.bool(), m, e)));
                }
                round(cx, &JsonValue::Array(a), 1);
            }
            for &e in EDGE_EXPS {
                let mut a = Vec::new();
                for _ in 0..6 {
                    let m = mantissa(&mut cx.rng);
                    a.push(JsonValue::Number(raw(cx.rng.bool(), m, e)));
                }
                round(cx, &JsonValue::Array(a), 1);
            }
            for i in 0..n {
                let v = any_finite(&mut cx.rng);
                let k = cx.rng.below(6) as u16;
                round(cx, &v, k);
                if i % 3 == 0 {
                    let a: Vec<JsonValue> = (0..8).map(|_| JsonValue::Number(finite_number(&mut cx.rng))).collect();
                    round(cx, &JsonValue::Array(a), 1);
                }
            }
        }
        "C20" if cx.args.first().map_or(false, |a| a == "chop") => chops(cx),
        "C20" => sinks(cx),
        "C23" => generators(cx),
        p => panic!("{}", p),
    }
}
