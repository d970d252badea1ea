//! C26: calls that overlap: on several threads, and from inside the callbacks
//! (writers, generators, formatters, iterators, conversions) of one another.
use crate::genval::*;
use crate::util::*;
use json::codegen::Generator;
use json::object::Object;
use json::JsonValue;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::fmt::{self, Write as _};
use std::io::{self, Write};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier, Mutex};

/// Whether values may be sent and shared is a check of its own (threads/);
/// here they are.
struct Bare<T>(T);
unsafe impl<T> Send for Bare<T> {}
unsafe impl<T> Sync for Bare<T> {}

struct World {
    docs: Vec<JsonValue>,
    texts: Vec<String>,
    alone: Alone,
    log: Mutex<String>,
}
/// What some calls answer when nothing else is going on.
struct Alone {
    errors: Vec<String>,
    debugs: Vec<String>,
    floats: Vec<String>,
}
const FLOATS: &[&[f64]] = &[
    &[0.1, -2.5e-7, 1e21, 5e-324, 123456.789],
    &[1.7976931348623157e308, 0.3, 1.0 / 3.0, -0.0, 9007199254740993.0],
    &[f64::NAN, f64::INFINITY, 4.35, 2.2250738585072014e-308, 1e-5],
];
fn floats(d: usize) -> String {
    let mut t = String::new();
    for &f in FLOATS[d % FLOATS.len()] {
        let v = JsonValue::from(f);
        let w = JsonValue::from(f as f32);
        let bits = |f: Option<f64>| f.map_or(0, f64::to_bits);
        t.push_str(&format!("{} {:x} {} {:x};", v.dump(), bits(v.as_f64()), w, w.as_f32().map_or(0, f32::to_bits)));
    }
    t
}
fn alone(docs: &[JsonValue], texts: &[String]) -> Alone {
    Alone {
        errors: texts.iter().map(|t| json::parse(t).map_or_else(|e| e.to_string(), |_| String::new())).collect(),
        debugs: docs.iter().map(|v| format!("{:?}", v)).collect(),
        floats: (0..docs.len()).map(floats).collect(),
    }
}
fn started(docs: &[JsonValue], texts: &[String], a: &Alone) -> String {
    let all = |xs: &[String]| list(xs, |t| show(t.as_bytes()));
    format!(
        "\"docs\":{},\"texts\":{},\"errors\":{},\"debugs\":{},\"floats\":{}",
        shown(docs), list(texts, |t| cps(t)), all(&a.errors), all(&a.debugs), all(&a.floats)
    )
}
type Ref = Arc<Bare<World>>;

#[derive(Clone, Debug)]
struct Job {
    c: usize,
    what: &'static str,
    d: usize, // document or text
    n: u16,
    huge: usize, // what the thread does just before, if not 0
}
const STREAMS: &[&str] = &["write", "pretty", "gen", "display", "display#", "collect", "convert", "to_writer", "extend", "show", "show", "number", "error", "debug"];
const WHOLES: &[&str] = &["parse", "dump", "prettied", "mutate", "read", "parse", "equal", "shown", "shown", "floats", "debugged", "redo", "reparse", "rekey"];

enum Cmd {
    Call(Job),
    Go,
    Panic,
    Quit,
}
struct Link {
    get: Receiver<Cmd>,
    put: Sender<usize>, // how many calls are in progress, at a callback
    world: Ref,
    depth: usize,
    thread: usize,
}
thread_local! { static LINK: RefCell<Option<Link>> = const { RefCell::new(None) }; }
fn link<T>(f: impl FnOnce(&mut Link) -> T) -> T {
    LINK.with(|l| f(l.borrow_mut().as_mut().unwrap()))
}
fn say(line: String) {
    let w = link(|l| l.world.clone());
    let mut g = w.0.log.lock().unwrap();
    g.push_str(&line);
    g.push('\n');
}

/// Waits for the scheduler; calls it asks for are made here, inside whatever
/// is in progress.  False when this thread is done.
fn wait(c: usize) -> bool {
    loop {
        let d = link(|l| l.depth);
        link(|l| l.put.send(d).unwrap());
        let cmd = link(|l| l.get.recv());
        match cmd {
            Ok(Cmd::Call(j)) => run(j),
            Ok(Cmd::Go) => {
                if c > 0 {
                    return true;
                }
            }
            Ok(Cmd::Panic) => {
                if c > 0 {
                    say(format!("{{\"op\":\"panic\",\"c\":{}}}", c));
                    panic!("callback");
                }
            }
            Ok(Cmd::Quit) | Err(_) => return false,
        }
    }
}

/// Where a callback stops: at the first piece, and when half is delivered.
struct Stops {
    c: usize,
    total: usize,
    got: usize,
    halted: usize,
}
impl Stops {
    fn new(c: usize, total: usize) -> Stops {
        Stops { c, total, got: 0, halted: 0 }
    }
    /// called for every piece offered; says how much may be taken
    fn at(&mut self) -> usize {
        crate::progress();
        let half = (self.total / 2).max(1);
        if self.halted == 0 || (self.halted == 1 && self.got >= half) {
            self.halted += 1;
            if !wait(self.c) {
                panic!("no scheduler");
            }
        }
        if self.got < half { half - self.got } else { usize::MAX }
    }
}
fn show(b: &[u8]) -> String {
    list(b, |x| x.to_string())
}
struct Sink(Stops);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let k = self.0.at().min(b.len());
        say(format!("{{\"op\":\"w\",\"c\":{},\"buf\":{},\"resp\":{{\"is\":\"take\",\"k\":{}}}}}", self.0.c, show(b), k));
        self.0.got += k;
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let k = Write::write(self, b).unwrap();
            b = &b[k..];
        }
        Ok(())
    }
}
struct Own(Sink);
impl Generator for Own {
    type T = Sink;
    fn get_writer(&mut self) -> &mut Sink {
        &mut self.0
    }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> {
        self.0.write_all(&[min])
    }
}
/// what iterates over members, or converts elements
struct Members<'a>(Vec<(&'a str, &'a JsonValue)>, usize, Stops);
impl<'a> Iterator for Members<'a> {
    type Item = (&'a str, JsonValue);
    fn next(&mut self) -> Option<Self::Item> {
        if self.1 < self.0.len() {
            self.2.at();
            self.2.got += 1;
        }
        let x = self.0.get(self.1).map(|&(k, v)| (k, v.clone()));
        self.1 += 1;
        x
    }
}
struct Element(JsonValue, std::rc::Rc<RefCell<Stops>>);
impl From<Element> for JsonValue {
    fn from(e: Element) -> JsonValue {
        e.1.borrow_mut().at();
        e.1.borrow_mut().got += 1;
        e.0
    }
}

fn outcome(r: Result<JsonValue, json::Error>) -> String {
    match r {
        Ok(v) => format!("\"r\":\"ok\",\"v\":{}", val(&v)),
        Err(e) => format!("\"r\":\"err\",\"er\":{}", error(&e)),
    }
}
/// A call of a size out of the ordinary, on a value of its own: whatever comes
/// after it on this thread answers as ever.
fn unsettle(k: usize) {
    let n = [200, 1000, 5000, 20000, 70000, 140000, 300000][k / 8 % 7];
    match k % 8 {
        0 => {
            let v = JsonValue::String("x\n".repeat(n / 2));
            assert!(v.dump().len() > n);
        }
        1 => assert_eq!(json::parse(&format!("[{}0]", "0,".repeat(n))).unwrap().len(), n + 1),
        2 => {
            let mut v = JsonValue::Null;
            for _ in 0..(n / 100).min(500) {
                v = json::array![v, 1];
            }
            assert!(v.pretty(200).len() > n);
        }
        3 => {
            let mut o = Object::new();
            for i in 0..n / 50 {
                o.insert(&format!("some key {}", i * 7919 % 100003), JsonValue::from("x".repeat(i % 60)));
            }
            let p = o.clone();
            assert_eq!(o, p);
            o.clear();
        }
        4 => assert_eq!(json::parse(&format!("{{\"{}\":\"{}\"}}", "\\n".repeat(n), "y".repeat(n))).unwrap().len(), 1),
        5 => assert!(json::parse(&format!("[\"{}\"{}", "\\u00e9".repeat(n), "\n".repeat(n % 3000))).is_err()),
        6 => {
            let mut w = Sized(n, 0);
            assert!(JsonValue::from("w".repeat(2 * n)).write(&mut w).is_err());
            assert!(json::array!["w\t".repeat(n), 1.5].write_pretty(&mut w, 9).is_err());
        }
        _ => {
            let v: JsonValue = vec![0.1; n / 20].into();
            assert!(v.to_string().len() > n / 20);
            assert_eq!(v.clone(), v);
        }
    }
}
/// takes so much
struct Sized(usize, usize);
impl Write for Sized {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = b.len().min(self.0 - self.1);
        self.1 += k;
        if k == 0 { Err(io::Error::new(io::ErrorKind::Other, "full")) } else { Ok(k) }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// a call without callbacks
fn whole(w: &World, j: &Job) -> String {
    match j.what {
        "parse" => outcome(json::parse(&w.texts[j.d])),
        "dump" => format!("\"text\":{}", show(w.docs[j.d].dump().as_bytes())),
        "prettied" => format!("\"text\":{}", show(w.docs[j.d].pretty(j.n).as_bytes())),
        "mutate" => {
            let mut v = w.docs[j.d].clone();
            match v {
                JsonValue::Array(ref mut a) => a.push("zz".into()),
                JsonValue::Object(ref mut o) => {
                    o.insert("tmp tmp tmp tmp tmp tmp tmp tmp tmp tmp", 2.into());
                    o.insert("zz", "zz".into());
                    o.remove("tmp tmp tmp tmp tmp tmp tmp tmp tmp tmp");
                }
                _ => {}
            }
            format!("\"v\":{}", val(&v))
        }
        "read" => format!("\"v\":{}", val(&w.docs[j.d])),
        "equal" => list(&w.docs, |x| (*x == w.docs[j.d]).to_string()).replacen('[', "\"eq\":[", 1),
        "shown" => format!("\"text\":{}", show(w.docs[j.d].to_string().as_bytes())),
        "debugged" => format!("\"text\":{}", show(format!("{:?}", w.docs[j.d]).as_bytes())),
        "floats" => format!("\"text\":{}", show(floats(j.d).as_bytes())),
        "redo" => {
            // the same place holds one document, another and the first again
            let mut v = w.docs[j.d].clone();
            let first = v.dump();
            let kept = v.clone();
            match v {
                JsonValue::Array(ref mut a) => a.push("zz".into()),
                JsonValue::Object(ref mut o) => o.insert("redo", "zz".into()),
                ref mut x => *x = JsonValue::Null,
            }
            let second = v.dump();
            match v {
                JsonValue::Array(ref mut a) => {
                    a.pop();
                }
                JsonValue::Object(ref mut o) => {
                    o.remove("redo");
                }
                ref mut x => *x = kept,
            }
            format!("\"texts\":{}", list(&[first, second, v.dump()], |t| show(t.as_bytes())))
        }
        "reparse" => {
            // so does a text
            let mut t = w.texts[j.d].clone();
            let at: Vec<usize> = (0..t.len()).filter(|&i| t.as_bytes()[i].is_ascii()).collect();
            let at = at[(j.n as usize * 7919) % at.len()];
            let one = |t: &str| format!("{{{}}}", outcome(json::parse(t)));
            let first = one(&t);
            let was = t.as_bytes()[at];
            unsafe { t.as_bytes_mut()[at] = b'1' };
            let second = one(&t);
            unsafe { t.as_bytes_mut()[at] = was };
            let third = one(&t);
            format!("\"p\":{},\"got\":{}", t[..at].chars().count() + 1, list(&[first, second, third], |x| x.clone()))
        }
        "rekey" => {
            // and a key
            let mut v = JsonValue::new_object();
            let len = [8, 33, 65, 129, 1025][j.n as usize];
            let mut key = "k".repeat(len);
            let mut got = Vec::new();
            for (i, c) in [b'a', b'b', b'a', b'c', b'b'].iter().enumerate() {
                unsafe { key.as_bytes_mut()[len - 1] = *c };
                let has = v.has_key(&key);
                let was = v[key.as_str()].as_usize().unwrap_or(0);
                let elsewhere = key.clone();
                if has != v.has_key(&elsewhere) || was != v[elsewhere].as_usize().unwrap_or(0) {
                    return "\"got\":[]".to_string();
                }
                if i < 3 {
                    v[key.as_str()] = (i + 1).into();
                }
                got.push(format!("[{},{},{}]", has, was, v.len()));
            }
            format!("\"got\":{}", list(&got, |x| x.clone()))
        }
        x => panic!("{}", x),
    }
}
#[allow(deprecated)]
fn stream(w: &World, j: &Job) -> String {
    if j.what == "error" {
        let e = json::parse(&w.texts[j.d]).unwrap_err();
        return format!("\"ok\":{}", fmt::Write::write_fmt(&mut Sink(Stops::new(j.c, w.alone.errors[j.d].len())), format_args!("{}", e)).is_ok());
    }
    let v = &w.docs[j.d];
    match j.what {
        "show" => format!("\"ok\":{}", fmt::Write::write_fmt(&mut Sink(Stops::new(j.c, v.to_string().len())), format_args!("{}", v)).is_ok()),
        "number" => {
            let x = v.as_number().unwrap();
            format!("\"ok\":{}", fmt::Write::write_fmt(&mut Sink(Stops::new(j.c, x.to_string().len())), format_args!("{}", x)).is_ok())
        }
        "debug" => format!("\"ok\":{}", fmt::Write::write_fmt(&mut Sink(Stops::new(j.c, w.alone.debugs[j.d].len())), format_args!("{:?}", v)).is_ok()),
        "write" => {
            let r = v.write(&mut Sink(Stops::new(j.c, v.dump().len())));
            format!("\"ok\":{}", r.is_ok())
        }
        "pretty" => {
            let r = v.write_pretty(&mut Sink(Stops::new(j.c, v.pretty(j.n).len())), j.n);
            format!("\"ok\":{}", r.is_ok())
        }
        "to_writer" => {
            v.to_writer(&mut Sink(Stops::new(j.c, v.dump().len())));
            "\"ok\":true".to_string()
        }
        "gen" => {
            let mut g = Own(Sink(Stops::new(j.c, v.dump().len())));
            let r = match *v {
                JsonValue::Object(ref o) => g.write_object(o),
                _ => g.write_json(v),
            };
            format!("\"ok\":{}", r.is_ok())
        }
        "display" => format!("\"ok\":{}", fmt::Write::write_fmt(&mut Sink(Stops::new(j.c, v.dump().len())), format_args!("{}", v)).is_ok()),
        "display#" => format!("\"ok\":{}", fmt::Write::write_fmt(&mut Sink(Stops::new(j.c, v.pretty(4).len())), format_args!("{:#}", v)).is_ok()),
        "collect" | "extend" => {
            let JsonValue::Object(ref o) = *v else { unreachable!() };
            let kv: Vec<_> = o.iter().collect();
            let n = kv.len();
            let it = Members(kv, 0, Stops::new(j.c, n));
            let made: Object = if j.what == "collect" { it.collect() } else { it.map(|(k, v)| (k.to_string(), v)).collect() };
            format!("\"ok\":true,\"v\":{}", obj(&made))
        }
        "convert" => {
            let JsonValue::Array(ref a) = *v else { unreachable!() };
            let s = std::rc::Rc::new(RefCell::new(Stops::new(j.c, a.len())));
            let xs: Vec<Element> = a.iter().map(|x| Element(x.clone(), s.clone())).collect();
            format!("\"ok\":true,\"v\":{}", val(&json::from(xs)))
        }
        x => panic!("{}", x),
    }
}
/// One call, its beginning and end recorded; a panic of its callback ends it.
fn run(j: Job) {
    crate::progress();
    let w = link(|l| {
        l.depth += 1;
        l.world.clone()
    });
    let depth = link(|l| l.depth);
    let t = link(|l| l.thread);
    say(format!("{{\"op\":\"call\",\"t\":{},\"c\":{},\"what\":\"{}\",\"d\":{},\"n\":{}}}", t, j.c, j.what, j.d + 1, j.n));
    if j.huge > 0 {
        unsettle(j.huge - 1);
    }
    let got = attempt(|| if STREAMS.contains(&j.what) { stream(&w.0, &j) } else { whole(&w.0, &j) });
    link(|l| l.depth = depth - 1);
    say(match got {
        Some(r) => format!("{{\"op\":\"done\",\"c\":{},\"panicked\":false,{}}}", j.c, r),
        None => format!("{{\"op\":\"done\",\"c\":{},\"panicked\":true}}", j.c),
    });
}

fn fits(what: &str, v: &JsonValue) -> bool {
    match what {
        "collect" | "extend" => v.is_object() && v.len() >= 2,
        "convert" => v.is_array() && v.len() >= 2,
        "number" => v.is_number(),
        "display" | "display#" => v.is_object() || v.is_array(),
        _ => true,
    }
}
fn job(r: &mut Rng, c: usize, streaming: bool, w: &World) -> Job {
    loop {
        let what = *r.pick(if streaming { STREAMS } else { WHOLES });
        let d = r.below(if what == "parse" || what == "error" || what == "reparse" { w.texts.len() } else { w.docs.len() });
        let fit = match what {
            "parse" | "reparse" => true,
            "redo" => !w.docs[d].has_key("redo"),
            "error" => !w.alone.errors[d].is_empty(),
            "debug" | "debugged" => w.alone.debugs[d].len() < 500,
            _ => fits(what, &w.docs[d]),
        };
        if fit {
            let huge = if r.chance(1, 20) { 1 + r.below(56) } else { 0 };
            return Job { c, what, d, n: r.below(5) as u16, huge };
        }
    }
}

fn shown(docs: &[JsonValue]) -> String {
    list(docs, val)
}

/// A schedule stepped through real threads.
fn history(cx: &mut Ctx, schedule: &[(u8, usize)], docs: Vec<JsonValue>, texts: Vec<String>) {
    let before = alone(&docs, &texts);
    cx.event("start", started(&docs, &texts, &before), String::new);
    let n = schedule.iter().map(|x| x.1).max().unwrap_or(1);
    let mut r = cx.rng.clone();
    cx.rng.u64();
    let world: Ref = Arc::new(Bare(World { docs, texts, alone: before, log: Mutex::new(String::new()) }));
    let mut threads = Vec::new();
    for t in 0..n {
        let (tx, rx) = channel();
        let (put, status) = channel();
        let world = world.clone();
        let h = std::thread::spawn(move || {
            LINK.with(|l| *l.borrow_mut() = Some(Link { get: rx, put, world, depth: 0, thread: t + 1 }));
            wait(0);
        });
        let depth = status.recv().unwrap();
        threads.push((tx, status, depth, h));
    }
    let mut c = 0;
    let mut last: Option<Job> = None;
    for &(what, t) in schedule {
        let th = &mut threads[t - 1];
        let cmd = match what {
            b'b' | b'w' => {
                c += 1;
                // often the call before it once more
                let again = last.take().filter(|j| (what == b'b') == STREAMS.contains(&j.what) && r.bool());
                let j = match again {
                    Some(j) => {
                        let n = if r.bool() { j.n } else { r.below(5) as u16 };
                        Job { c, n, ..j }
                    }
                    None => job(&mut r, c, what == b'b', &world.0),
                };
                last = Some(j.clone());
                Cmd::Call(j)
            }
            b'p' => Cmd::Go,
            _ => Cmd::Panic,
        };
        th.0.send(cmd).unwrap();
        th.2 = th.1.recv().unwrap();
    }
    // what is still going on comes to its end, turn by turn
    while threads.iter().any(|th| th.2 > 0) {
        for th in threads.iter_mut().filter(|th| th.2 > 0) {
            th.0.send(Cmd::Go).unwrap();
            th.2 = th.1.recv().unwrap();
        }
    }
    for (tx, _, _, h) in threads {
        tx.send(Cmd::Quit).unwrap();
        h.join().unwrap();
    }
    let log = std::mem::take(&mut *world.0.log.lock().unwrap());
    cx.raw_lines(&log);
    cx.event("end", String::new(), || format!("\"docs\":{},\"texts\":{}", shown(&world.0.docs), list(&world.0.texts, |t| cps(t))));
}

const DOCS: &[&str] = &[
    "[\"a\\n\\u0001b\",-1.5e-30]",
    "{\"\\u00e9\\\"\":[1,{\"x\":null}],\"a key of more than thirty-two characters\":\"\\t\"}",
    "\"\\\\ plain \\u0000 and then some more text, longer than thirty bytes\"",
    "[[],{},[true,[0.001]]]",
    "{\"a\":1,\"b\":\"two\",\"c\":[3,3]}",
    "18446744073709551615",
    "-1.25e-7",
    "9.75e300",
    "\"tab\\t\"",
    "false",
];
const TEXTS: &[&str] = &[
    "{\"a\\tb\":\"c\\u00e9\\ud83d\\ude00\",\"\\\\\":[\"\\\"\",\"x\\ny\"]}",
    "[1.25e-7,123456789012345678901234567890,-0,5e5]",
    "[\"one\\n\",\n \"two\\x\"]",
    "{\"k\":\"v\",\"k\":[\"\\u0041\\u0042\"]",
    "\"\\ud800\"",
    "[[[[\"\\b\\f\\n\\r\\t\"]]]]",
];

fn cast(cx: &mut Ctx, n: usize) -> (Vec<JsonValue>, Vec<String>) {
    let mut docs = Vec::new();
    while docs.len() < n {
        let v = if cx.rng.chance(1, 2) { json::parse(*cx.rng.pick(DOCS)).unwrap() } else { any(&mut cx.rng) };
        // sometimes one that is nearly the one before
        let v = match docs.last() {
            Some(w) if cx.rng.chance(1, 3) => crate::facts::near(&mut cx.rng, w),
            _ => v,
        };
        if v.dump().len() <= 120 {
            docs.push(v);
        }
    }
    let mut texts: Vec<String> = Vec::new();
    for _ in 0..2 {
        let t = if cx.rng.chance(1, 2) { cx.rng.pick(TEXTS).to_string() } else { crate::gentext::document(&mut cx.rng) };
        let mut t = if t.len() <= 200 && t.bytes().any(|b| b.is_ascii()) { t } else { TEXTS[0].to_string() };
        if let Some(was) = texts.last().filter(|_| cx.rng.bool()) {
            // one of the same length, with one character changed
            let mut c: Vec<char> = was.chars().collect();
            let i = cx.rng.below(c.len());
            if c[i].is_ascii() && i > 0 {
                c[i] = *cx.rng.pick(&['0', '1', 'a', 'u', '"', ' ', ',', '\\', 'n', '}']);
            }
            t = c.into_iter().collect();
        }
        texts.push(t);
    }
    (docs, texts)
}

/// A schedule of the specification: b1 w2 p1 x1 ...
pub fn scheduled(cx: &mut Ctx, line: &str) {
    let s: Vec<(u8, usize)> = line.split(' ').filter(|x| !x.is_empty()).map(|x| (x.as_bytes()[0], x[1..].parse().unwrap())).collect();
    let (docs, texts) = cast(cx, 2);
    history(cx, &s, docs, texts);
}

/// Threads that do the same tasks over and over at the same time: the set of
/// answers each task got.
fn together(cx: &mut Ctx, threads: usize, rounds: usize) {
    let mut docs: Vec<JsonValue> = DOCS.iter().map(|t| json::parse(t).unwrap()).collect();
    let mut texts: Vec<String> = TEXTS.iter().map(|t| t.to_string()).collect();
    let (a, b) = cast(cx, 6);
    docs.extend(a);
    texts.extend(b);
    texts.push(format!("[\"{}\",\"{}\\n\"]", "long \\n ".repeat(60), "\\u00e9".repeat(40)));
    let before = alone(&docs, &texts);
    cx.event("start", started(&docs, &texts, &before), String::new);
    let mut jobs = Vec::new();
    for what in ["parse", "dump", "prettied", "mutate", "read", "equal", "shown", "floats", "debugged", "redo", "reparse", "rekey"] {
        for d in 0..if what == "parse" || what == "reparse" { texts.len() } else { docs.len() } {
            jobs.push(Job { c: 0, what, d, n: (d % 4) as u16, huge: 0 });
        }
    }
    let world: Ref = Arc::new(Bare(World { docs, texts, alone: before, log: Mutex::new(String::new()) }));
    let seen: Arc<Mutex<Vec<BTreeSet<String>>>> = Arc::new(Mutex::new(vec![BTreeSet::new(); jobs.len()]));
    let gate = Arc::new(Barrier::new(threads));
    let jobs = Arc::new(jobs);
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (world, seen, gate, jobs) = (world.clone(), seen.clone(), gate.clone(), jobs.clone());
            let mut r = Rng::new(cx.rng.u64() ^ t as u64);
            std::thread::spawn(move || {
                let mut mine = vec![BTreeSet::new(); jobs.len()];
                let mut order: Vec<usize> = (0..jobs.len()).collect();
                for _ in 0..rounds {
                    r.shuffle(&mut order);
                    gate.wait();
                    for &i in &order {
                        crate::progress();
                        if r.chance(1, 1500) {
                            unsettle(r.below(56));
                        }
                        let got = attempt(|| whole(&world.0, &jobs[i])).unwrap_or_else(|| "\"panicked\":true".to_string());
                        mine[i].insert(got);
                    }
                }
                let mut s = seen.lock().unwrap();
                for (i, m) in mine.into_iter().enumerate() {
                    s[i].extend(m);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    for (j, outs) in jobs.iter().zip(seen.lock().unwrap().iter()) {
        let outs: Vec<String> = outs.iter().take(5).map(|o| format!("{{{}}}", o)).collect();
        cx.raw(&format!("{{\"op\":\"par\",\"what\":\"{}\",\"d\":{},\"n\":{},\"outs\":[{}]}}\n", j.what, j.d + 1, j.n, outs.join(",")));
    }
    cx.event("end", String::new(), || format!("\"docs\":{},\"texts\":{}", shown(&world.0.docs), list(&world.0.texts, |t| cps(t))));
}

pub fn drive(cx: &mut Ctx) {
    let (threads, rounds) = if cx.thorough { (8, 800) } else { (8, 200) };
    for _ in 0..2 {
        together(cx, threads, rounds);
    }
    for _ in 0..cx.n {
        let (nt, nc) = (1 + cx.rng.below(4), 2 + cx.rng.below(5));
        let mut s = Vec::new();
        let mut c = 0;
        if cx.rng.chance(1, 4) {
            // a callback panics at its first or second stop, and the thread goes on
            c = nc;
            let t = 1 + cx.rng.below(nt);
            for _ in 0..1 + cx.rng.below(3) {
                s.push((b'b', t));
                for _ in 0..cx.rng.below(3) {
                    s.push((b'p', t));
                }
                s.push((b'x', t));
                s.push((if cx.rng.chance(1, 4) { b'w' } else { b'b' }, t));
            }
        }
        while c < nc {
            let t = 1 + cx.rng.below(nt);
            s.push((
                match cx.rng.below(20) {
                    0..=6 => {
                        c += 1;
                        b'b'
                    }
                    7..=9 => {
                        c += 1;
                        b'w'
                    }
                    10 => b'x',
                    _ => b'p',
                },
                t,
            ));
        }
        let (docs, texts) = cast(cx, 3);
        history(cx, &s, docs, texts);
    }
}
