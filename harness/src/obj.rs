//! Histories of `Object`s: every call is recorded with its result and the
//! full contents of every object afterwards.
use crate::alloc::{self, api};
use crate::genval;
use crate::util::*;
use json::object::Object;
use json::JsonValue;

/// Keys whose 64-bit FNV-1a hash is that of the first byte string below
/// followed by `suffix`, whatever the padding: the bases hash to zero, and
/// zero bytes keep it zero.
pub const ZERO_HASH: [&str; 3] = ["77kepQFQ8Kl", "!0IC=VloaY", "QvXtM>@Fp%"];
pub const PAIRS: [(&str, &str); 5] = [
    ("8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"),
    ("gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf"),
    ("pFuM83THhM-Qw8FI5FKo", ".jPx7rOtTDteKAwvfOEo"),
    ("7mohtcOFVz", "c1E51sSEyx"),
    ("6a5x-VbtXk", "f_2k7GG-4v"),
];
pub fn colliding(i: usize, suffix: &str) -> String {
    format!("{}{}{}", ZERO_HASH[i % 3], "\0".repeat(i / 3), suffix)
}
pub fn fnv(key: &[u8]) -> u64 {
    key.iter().fold(0xcbf29ce484222325, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// A pool of distinct keys to draw from.
pub fn pool(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let style = r.below(10);
    let c = *r.pick(&["a", "\u{e9}", "\u{20ac}", "\u{1f600}"]);
    for i in 0..n {
        let k = match style {
            9 => {
                // long, and alike but for one place
                let n = 66 + 64 * (i % 2);
                let at = [0, 7, 33, n / 2, n - 1][i / 2 % 5];
                format!("{}{}{}", "k".repeat(at), i / 10, "k".repeat(n - 1 - at))
            }
            0 => ["a", "b", "c", "d", "e", "f", "g", "h"][i % 8].repeat(1 + i / 8),
            1 => format!("{}", 10000000 + i),
            2 => colliding(i, ""),
            3 => colliding(i, &c.repeat(r.below(9))),
            4 => {
                let (a, b) = PAIRS[(i / 2) % 5];
                format!("{}{}", if i % 2 == 0 { a } else { b }, "x".repeat(i / 10 * 13))
            }
            5 => format!("{}{}", c.repeat((28 + i) / c.len()), i),
            6 => c.repeat(i),                                            // "" and growing
            7 => "x".repeat(30 + i % 5) + &"y".repeat(i / 5),
            _ => genval::key(r),
        };
        if !v.contains(&k) {
            v.push(k);
        }
    }
    r.shuffle(&mut v);
    v
}

pub struct World {
    pub o: Vec<Object>,
    pub next: i64,
    pub show: bool,
    key: String, // most keys are handed over at the same place
}

impl World {
    pub fn new(n: usize) -> World {
        World { o: api(|| (0..n).map(|_| Object::new()).collect()), next: 0, show: true, key: String::with_capacity(1 << 12) }
    }
    fn st(&self) -> String {
        let lens = list(&self.o, |o| format!("{}", o.len()));
        if self.show {
            format!("\"lens\":{},\"st\":{},\"bad\":{}", lens, list(&self.o, obj), alloc::bad())
        } else {
            format!("\"lens\":{},\"st\":[],\"bad\":{}", lens, alloc::bad())
        }
    }
    pub fn fresh(&mut self, r: &mut Rng) -> JsonValue {
        self.next += 1;
        let n = self.next;
        api(|| match r.below(8) {
            0 => JsonValue::from(format!("value {}", n)),
            1 => JsonValue::from(vec![n, n]),
            2 => JsonValue::from("v".repeat(31 + n as usize % 3)),
            3 => {
                let mut o = Object::new();
                o.insert("inner", n.into());
                JsonValue::Object(o)
            }
            4 => JsonValue::Boolean(n % 2 == 0),
            5 if n % 2 == 0 => JsonValue::Null,
            _ => JsonValue::from(n),
        })
    }
}

fn opt(v: Option<&JsonValue>) -> String {
    match v {
        Some(x) => format!("{{\"is\":\"val\",\"x\":{}}}", val(x)),
        None => "{\"is\":\"none\"}".into(),
    }
}

pub fn start(cx: &mut Ctx, w: &World) {
    let st = w.st();
    cx.event("start", String::new(), move || st);
}

/// One call.  `op` is one of the letters below; `s`, `t` slots.
pub fn step(cx: &mut Ctx, w: &mut World, op: &str, s: usize, t: usize, k: &str, mut x: JsonValue) {
    let mut place = std::mem::take(&mut w.key);
    place.clear();
    place.push_str(k);
    let own = if alloc::fencing() { alloc::tight(k) } else { String::new() };
    let k = match cx.rng.below(4) {
        0 => k,
        1 if alloc::fencing() => own.as_str(),
        _ => place.as_str(),
    };
    let head = |extra: &str| format!("\"s\":{},\"k\":{}{}", s + 1, cps(k), extra);
    let xs = format!(",\"x\":{}", val(&x));
    match op {
        "insert" => cx.event("oinsert", head(&xs), || {
            api(|| w.o[s].insert(k, x));
            w.st()
        }),
        "assign" => {
            let how = cx.rng.below(3);
            cx.event("oassign", head(&xs), || {
                let o = &mut w.o[s];
                match how {
                    0 => api(|| o[k] = x),
                    1 => api(|| o[k.to_string()] = x),
                    _ => api(|| o[&k.to_string()] = x),
                }
                w.st()
            })
        }
        "get" => cx.event("oget", head(""), || {
            let o = &w.o[s];
            let ks = k.to_string();
            let r = format!("\"r\":{},\"ix\":[{},{},{}],", opt(o.get(k)), val(&o[k]), val(&o[&ks]), val(&o[ks.clone()]));
            r + &w.st()
        }),
        "getmut" => cx.event("ogetmut", head(&xs), || {
            let before;
            {
                let got = api(|| w.o[s].get_mut(k));
                before = opt(got.as_ref().map(|v| &**v));
                if let Some(place) = got {
                    api(|| std::mem::swap(place, &mut x));
                }
            }
            api(|| drop(x));
            format!("\"r\":{},", before) + &w.st()
        }),
        "remove" => cx.event("oremove", head(""), || {
            let got = api(|| w.o[s].remove(k));
            let r = format!("\"r\":{},", opt(got.as_ref()));
            let st = w.st();
            // the removed value outlives what happened around it
            let again = format!(",\"kept\":{}", opt(got.as_ref()));
            api(|| drop(got));
            r + &st + &again
        }),
        "clear" => cx.event("oclear", head(""), || {
            api(|| w.o[s].clear());
            w.st()
        }),
        "last" => cx.event("olast", head(&xs), || {
            #[allow(deprecated)]
            api(|| w.o[s].override_last(x));
            w.st()
        }),
        "clone" => {
            let again = cx.rng.bool();
            cx.event("oclone", head(&format!(",\"to\":{}", t + 1)), || {
                if s != t && again {
                    // into what is there
                    let (a, b) = (s.min(t), s.max(t));
                    let (x, y) = w.o.split_at_mut(b);
                    let (from, to) = if s == a { (&x[a], &mut y[0]) } else { (&y[0], &mut x[a]) };
                    api(|| to.clone_from(from));
                } else {
                    let c = api(|| w.o[s].clone());
                    api(|| w.o[t] = c);
                }
                w.st()
            })
        }
        "new" => {
            let cap = t;
            cx.event("onew", head(&format!(",\"cap\":{}", cap)), || {
                api(|| w.o[s] = if cap == 0 { Object::new() } else { Object::with_capacity(cap) });
                w.st()
            })
        }
        "swap" => cx.event("oswap", head(&format!(",\"to\":{}", t + 1)), || {
            if s != t {
                let (a, b) = (s.min(t), s.max(t));
                let (l, r) = w.o.split_at_mut(b);
                api(|| std::mem::swap(&mut l[a], &mut r[0]));
            }
            w.st()
        }),
        "iter" => cx.event("oiter", head(""), || {
            let o = &w.o[s];
            let r = format!(
                "\"ks\":{},\"vs\":{},\"rks\":{},\"empty\":{},\"is_empty\":{},",
                list(&o.iter().collect::<Vec<_>>(), |x| cps(x.0)),
                list(&o.iter().collect::<Vec<_>>(), |x| val(x.1)),
                list(&o.iter().rev().collect::<Vec<_>>(), |x| cps(x.0)),
                o.len() == 0,
                o.is_empty()
            );
            r + &w.st()
        }),
        other => panic!("{}", other),
    };
    // (nothing may go on reading the key)
    unsafe { place.as_bytes_mut() }.fill(b'#');
    w.key = place;
}

/// Built from pairs (later ones replace earlier ones) or by parsing them.
pub fn build(cx: &mut Ctx, w: &mut World, s: usize, pairs: Vec<(String, JsonValue)>, parsed: bool) {
    let before = format!("\"s\":{},\"ks\":{},\"vs\":{}", s + 1, list(&pairs, |p| cps(&p.0)), list(&pairs, |p| val(&p.1)));
    if parsed {
        let mut text = String::from("{");
        for (i, (k, v)) in pairs.iter().enumerate() {
            if i > 0 {
                text.push(',');
            }
            let mut key = JsonValue::from(k.as_str()).dump();
            if cx.rng.chance(1, 3) {
                key = format!("\"{}\"", k.encode_utf16().map(|u| format!("\\u{:04x}", u)).collect::<String>());
            }
            text.push_str(&key);
            text.push(':');
            text.push_str(&v.dump());
        }
        text.push('}');
        let text = alloc::fit(&text);
        api(|| drop(pairs));
        cx.event("oparse", before, || {
            match api(|| json::parse(&text)) {
                Ok(JsonValue::Object(o)) => api(|| w.o[s] = o),
                Ok(_) | Err(_) => return "\"panic\":true".into(),
            }
            w.st()
        });
    } else {
        let how = cx.rng.below(4);
        cx.event("ofrom", before, || {
            let o: Object = match how {
                0 => api(|| pairs.into_iter().collect()),
                1 => api(|| pairs.into_iter().filter(|_| true).collect()), // no size hint
                2 => api(|| pairs.into_iter().flat_map(Some).collect()),   // nor upper bound
                _ => api(|| pairs.iter().map(|p| (p.0.as_str(), p.1.clone())).collect()),
            };
            api(|| w.o[s] = o);
            w.st()
        });
    }
}

pub fn end(cx: &mut Ctx, w: World) {
    cx.event("oend", String::new(), || {
        let World { mut o, .. } = w;
        api(|| {
            while let Some(x) = o.pop() {
                drop(x);
            }
            drop(o);
        });
        alloc::sweep();
        alloc::fence(false);
        format!("\"bad\":{},\"live\":{}", alloc::bad(), alloc::blocks())
    });
}

fn big(cx: &mut Ctx) {
    // many keys, contents shown at the end only
    let n = 60 + cx.rng.below(if cx.thorough { 1000 } else { 250 });
    let style = cx.rng.below(4);
    let mut keys: Vec<String> = (0..n)
        .map(|i| match style {
            0 => format!("{}", 10000000 + i),
            1 => colliding(i, if i % 2 == 0 { "" } else { "s" }),
            2 => format!("key number {:030}", i),
            _ => format!("k{}", i),
        })
        .collect();
    if cx.rng.bool() {
        keys.sort_by_key(|k| fnv(k.as_bytes())); // a tree that is a list
    } else if cx.rng.bool() {
        cx.rng.shuffle(&mut keys);
    }
    let mut w = World::new(1);
    start(cx, &w);
    w.show = false;
    for (i, k) in keys.iter().enumerate() {
        step(cx, &mut w, "insert", 0, 0, k, JsonValue::from(i));
    }
    for _ in 0..30 {
        let k = cx.rng.pick(&keys).clone();
        let k = if cx.rng.chance(1, 6) { k + "?" } else { k };
        let op = *cx.rng.pick(&["get", "insert", "assign", "getmut", "get"]);
        let x = w.fresh(&mut cx.rng);
        step(cx, &mut w, op, 0, 0, &k, x);
    }
    w.show = true;
    let k = cx.rng.pick(&keys).clone();
    step(cx, &mut w, "remove", 0, 0, &k, JsonValue::Null);
    w.show = false;
    for _ in 0..10 {
        let k = cx.rng.pick(&keys).clone();
        let op = *cx.rng.pick(&["get", "remove", "insert"]);
        let x = w.fresh(&mut cx.rng);
        step(cx, &mut w, op, 0, 0, &k, x);
    }
    for k in keys.iter().take(40) {
        step(cx, &mut w, "get", 0, 0, k, JsonValue::Null);
    }
    w.show = true;
    step(cx, &mut w, "get", 0, 0, &k, JsonValue::Null);
    end(cx, w);
}

fn history(cx: &mut Ctx) {
    let slots = *cx.rng.pick(&[1usize, 1, 2, 3]);
    let nkeys = *cx.rng.pick(&[1usize, 2, 3, 4, 5, 6, 8, 12, 18]);
    let keys = pool(&mut cx.rng, nkeys);
    alloc::fence(cx.prop == "C15" && cx.rng.chance(2, 3));
    let mut w = World::new(slots);
    start(cx, &w);
    let steps = 6 + cx.rng.below(30);
    // how often things go away
    let del = *cx.rng.pick(&[1usize, 3, 8]);
    for _ in 0..steps {
        let s = cx.rng.below(slots);
        let t = cx.rng.below(slots);
        let k = cx.rng.pick(&keys).clone();
        let x = match w.o[s].get(&k) {
            Some(old) if cx.rng.chance(1, 5) => api(|| crate::facts::like(&mut cx.rng, old)),
            _ => w.fresh(&mut cx.rng),
        };
        let d = cx.rng.below(36 + del);
        let op = match d {
            0..=10 => "insert",
            11..=15 => "assign",
            16..=18 => "get",
            19..=21 => "getmut",
            22 => "last",
            23 => "clear",
            24..=26 if s != t => "clone",
            27 if s != t => "swap",
            28 => {
                let cap = cx.rng.below(9);
                step(cx, &mut w, "new", s, cap, "", JsonValue::Null);
                continue;
            }
            29 | 30 => {
                let n = cx.rng.below(9);
                let mut pairs = api(Vec::new);
                for _ in 0..n {
                    let k = api(|| cx.rng.pick(&keys).clone());
                    w.next += 1;
                    let x = JsonValue::from(w.next * 10 + 1);
                    api(|| pairs.push((k, x)));
                }
                build(cx, &mut w, s, pairs, d == 29);
                continue;
            }
            31 | 32 => "iter",
            _ => "remove",
        };
        step(cx, &mut w, op, s, t, &k, x);
    }
    // every key, present or not
    for k in keys.iter().take(8) {
        step(cx, &mut w, "get", 0, 0, k, JsonValue::Null);
    }
    end(cx, w);
}

/// A few very long keys; contents shown now and then.
fn long(cx: &mut Ctx) {
    let n = 1 + cx.rng.below(if cx.prop == "C15" { 2 } else { 3 });
    let mut keys = Vec::new();
    for i in 0..n {
        let c = *cx.rng.pick(&["k", "\u{e9}", "\u{20ac}"]);
        let len = *cx.rng.pick(&[255usize, 256, 257, 1000, 2047, 2048, 4095, 4096, 4097, 5000, 9000]);
        let len = if i == 0 && cx.thorough && cx.rng.chance(1, 4) { *cx.rng.pick(&[65535usize, 65536, 65537, 70000]) } else { len };
        keys.push(format!("{}{}", c.repeat(len / c.len()), "x".repeat(len % c.len() + i)));
    }
    keys.push("short".into());
    let mut w = World::new(2);
    start(cx, &w);
    for i in 0..10 + n {
        w.show = i == 5 || cx.prop == "C15";
        let (s, t) = if cx.rng.bool() { (0, 1) } else { (1, 0) };
        let k = if i < n { keys[i].clone() } else { cx.rng.pick(&keys).clone() };
        let op = if i < n { "insert" } else { *cx.rng.pick(&["insert", "get", "remove", "clone", "clone", "clear", "getmut", "assign"]) };
        let x = w.fresh(&mut cx.rng);
        step(cx, &mut w, op, if i < n { 0 } else { s }, t, &k, x);
    }
    w.show = true;
    step(cx, &mut w, "get", 0, 0, "short", JsonValue::Null);
    end(cx, w);
}

pub fn drive(cx: &mut Ctx) {
    alloc::start();
    for i in 0..cx.n {
        if i % 25 == 24 && cx.prop != "C15" {
            big(cx);
        } else if i % 20 == 9 {
            long(cx);
        } else {
            history(cx);
        }
    }
}
