//! Histories of documents: several values that are indexed, mutated, cloned,
//! moved into each other and dropped, in any order.
use crate::alloc::{self, api};
use crate::facts;
use crate::genval;
use crate::gentext;
use crate::util::*;
use json::object::Object;
use json::JsonValue;
use std::mem;

#[derive(Clone)]
pub enum Step {
    Key(String),
    Idx(usize),
}
pub const HUGE: usize = 2147483647;

pub fn path(p: &[Step]) -> String {
    list(p, |s| match *s {
        Step::Key(ref k) => format!("{{\"k\":{}}}", cps(k)),
        Step::Idx(i) => format!("{{\"i\":{}}}", i.min(HUGE)),
    })
}

/// The place p of v, through IndexMut; `how` picks among the equivalent
/// forms of each step.
pub fn place<'a>(v: &'a mut JsonValue, p: &[Step], mut how: u64) -> &'a mut JsonValue {
    let mut at = v;
    for s in p {
        at = match *s {
            Step::Idx(i) => &mut at[i],
            Step::Key(ref k) => {
                let k = &alloc::fit(k);
                let inner = how & 1 == 1;
                how >>= 1;
                let form = how % 3;
                how /= 3;
                if inner && at.is_object() {
                    match *at {
                        JsonValue::Object(ref mut o) => match form {
                            0 => &mut o[k.as_str()],
                            1 => &mut o[k],
                            _ => &mut o[k.clone()],
                        },
                        _ => unreachable!(),
                    }
                } else {
                    match form {
                        0 => &mut at[k.as_str()],
                        1 => &mut at[k],
                        _ => &mut at[k.clone()],
                    }
                }
            }
        };
    }
    at
}
pub fn look<'a>(v: &'a JsonValue, p: &[Step], form: usize) -> &'a JsonValue {
    let mut at = v;
    for s in p {
        at = match *s {
            Step::Idx(i) => &at[i],
            Step::Key(ref k) => {
                let k = &alloc::fit(k);
                match (form, at) {
                    (0, _) => &at[k.as_str()],
                    (1, _) => &at[k],
                    (2, _) => &at[k.clone()],
                    (3, &JsonValue::Object(ref o)) => &o[k.as_str()],
                    (4, &JsonValue::Object(ref o)) => &o[k],
                    (_, &JsonValue::Object(ref o)) => &o[k.clone()],
                    (_, _) => &at[k.as_str()],
                }
            }
        };
    }
    at
}

pub enum Call {
    Push(JsonValue),
    Pop,
    ArrayRemove(usize),
    Insert(String, JsonValue),
    Remove(String),
    Take,
    TakeString,
    Clear,
}
impl Call {
    pub fn show(&self) -> String {
        match *self {
            Call::Push(ref x) => format!("{{\"c\":\"push\",\"x\":{}}}", val(x)),
            Call::Pop => "{\"c\":\"pop\"}".into(),
            Call::ArrayRemove(i) => format!("{{\"c\":\"aremove\",\"i\":{}}}", i.min(HUGE)),
            Call::Insert(ref k, ref x) => format!("{{\"c\":\"insert\",\"k\":{},\"x\":{}}}", cps(k), val(x)),
            Call::Remove(ref k) => format!("{{\"c\":\"remove\",\"k\":{}}}", cps(k)),
            Call::Take => "{\"c\":\"take\"}".into(),
            Call::TakeString => "{\"c\":\"takestr\"}".into(),
            Call::Clear => "{\"c\":\"clear\"}".into(),
        }
    }
    /// the result as recorded, and the value that came out
    pub fn make(self, v: &mut JsonValue) -> (String, Option<JsonValue>) {
        fn res(r: json::Result<()>) -> (String, Option<JsonValue>) {
            match r {
                Ok(()) => ("{\"is\":\"ok\"}".into(), None),
                Err(ref e @ json::Error::WrongType(ref s)) => (format!("{{\"is\":\"wrong\",\"want\":{},\"says\":{}}}", cps(s), cps(&e.to_string())), None),
                Err(ref e) => (format!("{{\"is\":\"other\",\"e\":{}}}", error(e)), None),
            }
        }
        fn gives(x: JsonValue) -> (String, Option<JsonValue>) {
            (format!("{{\"is\":\"val\",\"x\":{}}}", val(&x)), Some(x))
        }
        match self {
            Call::Push(x) => res(api(|| v.push(x))),
            Call::Pop => gives(api(|| v.pop())),
            Call::ArrayRemove(i) => gives(api(|| v.array_remove(i))),
            Call::Insert(k, x) => res({
                let k = alloc::fit(&k);
                api(|| v.insert(&k, x))
            }),
            Call::Remove(k) => gives({
                let k = alloc::fit(&k);
                api(|| v.remove(&k))
            }),
            Call::Take => gives(api(|| v.take())),
            Call::TakeString => match api(|| v.take_string()) {
                Some(s) => gives(JsonValue::String(s)),
                None => ("{\"is\":\"none\"}".into(), None),
            },
            Call::Clear => {
                api(|| v.clear());
                ("{\"is\":\"unit\"}".into(), None)
            }
        }
    }
}

struct World {
    v: Vec<JsonValue>,
    keys: Vec<String>,
    show: bool,
}
impl World {
    fn st(&self) -> String {
        if self.show {
            format!("\"st\":{},\"bad\":{}", list(&self.v, val), alloc::bad())
        } else {
            "\"st\":[],\"bad\":0".into()
        }
    }
}

pub fn small(r: &mut Rng, keys: &[String]) -> JsonValue {
    api(|| {
        let sh = genval::Shape { depth: r.below(3), width: 1 + r.below(3), nan: true };
        match r.below(12) {
            0 => JsonValue::new_array(),
            1 => JsonValue::new_object(),
            2 | 3 => {
                let mut o = Object::with_capacity(r.below(3));
                for _ in 0..r.below(5) {
                    let k = r.pick(keys).clone();
                    o.insert(&k, genval::leaf(r, true));
                }
                JsonValue::Object(o)
            }
            4 | 5 => (0..r.below(5)).map(|_| genval::leaf(r, true)).collect::<Vec<_>>().into(),
            6 => {
                let s = "s".repeat(*r.pick(&[0usize, 1, 29, 30, 31, 32, 60]));
                genval::string_value(r, &s)
            }
            7 | 8 => {
                let v = genval::value(r, &sh, sh.depth);
                match json::parse(&v.dump()) {
                    Ok(v) => v,
                    Err(_) => JsonValue::Null,
                }
            }
            9 => genval::leaf(r, true),
            _ => genval::value(r, &sh, sh.depth),
        }
    })
}

pub fn position(r: &mut Rng, len: usize) -> usize {
    match r.below(10) {
        0..=5 if len > 0 => r.below(len),
        6 => len,
        7 => len + 1,
        8 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, 1 << 31, HUGE]),
        _ => r.below(len + 2),
    }
}
pub fn some_key(r: &mut Rng, v: &JsonValue, keys: &[String]) -> String {
    if let JsonValue::Object(ref o) = *v {
        if !o.is_empty() && r.chance(2, 3) {
            return o.iter().nth(r.below(o.len())).unwrap().0.to_string();
        }
    }
    match r.below(12) {
        0 => String::new(),
        1 => genval::key(r),
        _ => r.pick(keys).clone(),
    }
}
fn some_path(r: &mut Rng, v: &JsonValue, keys: &[String], max: usize) -> Vec<Step> {
    let mut p = Vec::new();
    let mut at = v;
    for _ in 0..r.below(max + 1) {
        let by_key = match *at {
            JsonValue::Object(_) => r.chance(9, 10),
            JsonValue::Array(_) => r.chance(1, 10),
            _ => r.bool(),
        };
        if by_key {
            let k = some_key(r, at, keys);
            at = match *at {
                JsonValue::Object(ref o) => o.get(&k).unwrap_or(&JsonValue::Null),
                _ => &JsonValue::Null,
            };
            p.push(Step::Key(k));
        } else {
            let i = position(r, at.len());
            at = match *at {
                JsonValue::Array(ref a) => a.get(i).unwrap_or(&JsonValue::Null),
                _ => &JsonValue::Null,
            };
            p.push(Step::Idx(i));
        }
        // stay on solid ground mostly
        if *at == JsonValue::Null && r.chance(1, 2) {
            break;
        }
    }
    p
}

pub fn some_call(r: &mut Rng, v: &JsonValue, keys: &[String]) -> Call {
    let mut x = small(r, keys);
    // what fits the type, mostly
    let d = if r.chance(1, 5) {
        r.below(8)
    } else {
        match *v {
            JsonValue::Array(_) => *r.pick(&[0, 0, 0, 1, 2, 2, 5, 7]),
            JsonValue::Object(_) => *r.pick(&[3, 3, 3, 4, 4, 5, 7]),
            JsonValue::Short(_) | JsonValue::String(_) => *r.pick(&[6, 6, 5, 7]),
            _ => r.below(8),
        }
    };
    let k = if d == 3 { some_key(r, v, keys) } else { String::new() };
    if (d == 0 || d == 3) && r.chance(1, 3) {
        // what is nearly there already
        let old = if d == 3 { &v[&k] } else { v.members().last().unwrap_or(&JsonValue::Null) };
        if val(old).len() < 400 {
            x = api(|| facts::like(r, old));
        }
    }
    match d {
        0 => Call::Push(x),
        1 => Call::Pop,
        2 => Call::ArrayRemove(position(r, v.len())),
        3 => Call::Insert(k, x),
        4 => Call::Remove(some_key(r, v, keys)),
        5 => Call::Take,
        6 => Call::TakeString,
        _ => Call::Clear,
    }
}

/// Any non-indexed way to a place that exists.
pub fn walk<'a>(v: &'a mut JsonValue, r: &mut Rng, depth: usize) -> &'a mut JsonValue {
    if depth == 0 || v.len() == 0 || r.chance(1, 4) {
        return v;
    }
    let n = r.below(v.len());
    match *v {
        JsonValue::Array(ref mut a) => walk(&mut a[n], r, depth - 1),
        JsonValue::Object(ref mut o) => walk(o.iter_mut().nth(n).unwrap().1, r, depth - 1),
        _ => unreachable!(),
    }
}

fn history(cx: &mut Ctx) {
    let n = if cx.prop == "C16" { 1 } else { 2 + cx.rng.below(3) };
    let nkeys = 2 + cx.rng.below(5);
    let mut keys = crate::obj::pool(&mut cx.rng, nkeys);
    keys.push("a".into());
    let mut w = World { v: Vec::new(), keys, show: cx.prop != "C16" };
    for _ in 0..n {
        let x = small(&mut cx.rng, &w.keys);
        api(|| w.v.push(x));
    }
    let st = w.st();
    cx.event("start", String::new(), move || st);
    let steps = 6 + cx.rng.below(22);
    let kind = cx.prop.clone();
    alloc::fence(kind == "C15" && cx.rng.chance(2, 3));
    for _ in 0..steps {
        let s = cx.rng.below(n);
        if val(&w.v[s]).len() > 2500 {
            let x = small(&mut cx.rng, &w.keys);
            set(cx, &mut w, s, x);
            continue;
        }
        let t = if n > 1 { (s + 1 + cx.rng.below(n - 1)) % n } else { s };
        let d = match kind.as_str() {
            "C16" => *cx.rng.pick(&[0usize, 0, 0, 0, 0, 6]),
            "C17" => *cx.rng.pick(&[0usize, 1, 1, 2, 2, 2, 3, 4, 5, 6]),
            _ => *cx.rng.pick(&[0usize, 0, 0, 0, 1, 2, 2, 3, 4, 4, 5, 5, 6, 7, 8]),
        };
        match d {
            0 => mutate(cx, &mut w, s, t),
            1 => read(cx, &mut w, s),
            2 | 3 => write(cx, &mut w, s, d == 3),
            4 => clone(cx, &mut w, s, t),
            5 => give(cx, &mut w, s, t),
            6 => {
                let x = small(&mut cx.rng, &w.keys);
                set(cx, &mut w, s, x)
            }
            7 => parse(cx, &mut w, s),
            _ => make_use(cx, &mut w, s, t),
        }
    }
    over(cx, w);
}
fn over(cx: &mut Ctx, w: World) {
    cx.event("dend", String::new(), || {
        let World { mut v, .. } = w;
        api(|| {
            while let Some(x) = v.pop() {
                drop(x);
            }
            drop(v);
        });
        alloc::sweep();
        alloc::fence(false);
        format!("\"st\":[],\"bad\":{},\"live\":{}", alloc::bad(), alloc::blocks())
    });
}

fn mutate(cx: &mut Ctx, w: &mut World, s: usize, t: usize) {
    // C16 reaches places without indexing
    let indexed = cx.prop != "C16";
    let p = if indexed { some_path(&mut cx.rng, &w.v[s], &w.keys, 3) } else { vec![] };
    let how = cx.rng.u64();
    let to = if s != t && cx.rng.bool() { t + 1 } else { 0 };
    let (call, mut seed);
    if indexed {
        call = some_call(&mut cx.rng, look(&w.v[s], &p, 0), &w.keys);
        seed = cx.rng.clone();
    } else {
        seed = cx.rng.clone();
        cx.rng.u64();
        let mut again = seed.clone();
        let at = walk(&mut w.v[s], &mut again, 4);
        call = some_call(&mut cx.rng, at, &w.keys);
    }
    let before = format!("\"s\":{},\"p\":{},\"c\":{},\"to\":{}", s + 1, path(&p), call.show(), to);
    cx.event("mut", before, || {
        let (pre, post, r, out);
        {
            let at = if indexed { api(|| place(&mut w.v[s], &p, how)) } else { walk(&mut w.v[s], &mut seed, 4) };
            pre = val(at);
            let (a, b) = call.make(at);
            r = a;
            out = b;
            post = val(at);
        }
        match out {
            Some(x) if to > 0 => api(|| w.v[to - 1] = x),
            x => api(|| drop(x)),
        }
        format!("\"pre\":{},\"post\":{},\"r\":{},{}", pre, post, r, w.st())
    });
}

fn read(cx: &mut Ctx, w: &mut World, s: usize) {
    let p = some_path(&mut cx.rng, &w.v[s], &w.keys, 4);
    cx.event("iread", format!("\"s\":{},\"p\":{}", s + 1, path(&p)), || {
        let got: Vec<String> = (0..6).map(|f| val(look(&w.v[s], &p, f))).collect();
        format!("\"got\":[{}],{}", got.join(","), w.st())
    });
}

fn write(cx: &mut Ctx, w: &mut World, s: usize, touch: bool) {
    let p = some_path(&mut cx.rng, &w.v[s], &w.keys, 4);
    let how = cx.rng.u64();
    if touch {
        cx.event("itouch", format!("\"s\":{},\"p\":{}", s + 1, path(&p)), || {
            api(|| {
                place(&mut w.v[s], &p, how);
            });
            w.st()
        });
    } else {
        let old = look(&w.v[s], &p, 0);
        let x = if cx.rng.chance(1, 4) && val(old).len() < 400 { api(|| facts::like(&mut cx.rng, old)) } else { small(&mut cx.rng, &w.keys) };
        cx.event("iwrite", format!("\"s\":{},\"p\":{},\"x\":{}", s + 1, path(&p), val(&x)), || {
            api(|| *place(&mut w.v[s], &p, how) = x);
            w.st()
        });
    }
}

fn clone(cx: &mut Ctx, w: &mut World, s: usize, t: usize) {
    let p = some_path(&mut cx.rng, &w.v[s], &w.keys, 2);
    let into = cx.rng.bool();
    cx.event("dclone", format!("\"s\":{},\"p\":{},\"to\":{}", s + 1, path(&p), t + 1), || {
        let seen = val(look(&w.v[s], &p, 0));
        let same = if s != t && into {
            // over what is there
            let (a, b) = (s.min(t), s.max(t));
            let (x, y) = w.v.split_at_mut(b);
            let (from, to) = if s == a { (&x[a], &mut y[0]) } else { (&y[0], &mut x[a]) };
            let from = look(from, &p, 0);
            api(|| to.clone_from(from));
            *to == *from
        } else {
            let c = api(|| look(&w.v[s], &p, 0).clone());
            let same = c == *look(&w.v[s], &p, 0);
            api(|| w.v[t] = c);
            same
        };
        format!("\"seen\":{},\"eq\":{},{}", seen, same, w.st())
    });
}

/// move slot t into slot s
fn give(cx: &mut Ctx, w: &mut World, s: usize, t: usize) {
    let p = some_path(&mut cx.rng, &w.v[s], &w.keys, 3);
    let how = cx.rng.u64();
    cx.event("dmove", format!("\"s\":{},\"p\":{},\"from\":{}", s + 1, path(&p), t + 1), || {
        let x = mem::replace(&mut w.v[t], JsonValue::Null);
        api(|| *place(&mut w.v[s], &p, how) = x);
        w.st()
    });
}

fn set(cx: &mut Ctx, w: &mut World, s: usize, x: JsonValue) {
    cx.event("dset", format!("\"s\":{},\"x\":{}", s + 1, val(&x)), || {
        api(|| w.v[s] = x);
        w.st()
    });
}

/// A text is parsed over the slot; refused texts leave it alone.
fn parse(cx: &mut Ctx, w: &mut World, s: usize) {
    let mut t = {
        let v = small(&mut cx.rng, &w.keys);
        let t = v.pretty(cx.rng.below(3) as u16);
        api(|| drop(v));
        t
    };
    if cx.rng.chance(2, 3) {
        // cut it, or damage it
        let at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        let i = at[cx.rng.below(at.len())];
        if cx.rng.bool() {
            t.truncate(i);
        } else {
            t.insert(i, *cx.rng.pick(&['"', '\\', ']', '}', ',', 'x', '\u{1}', '{']));
        }
    }
    if alloc::fencing() && cx.rng.chance(2, 3) {
        t = gentext::document(&mut cx.rng);
        match cx.rng.below(3) {
            0 => t = gentext::damage(&mut cx.rng, &t),
            1 => {
                let at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
                t.truncate(*at.get(cx.rng.below(at.len() + 1)).unwrap_or(&t.len()));
            }
            _ => {}
        }
        if json::parse(&t).map(|v| val(&v).len() > 3000).unwrap_or(false) {
            t = "[\"too large\"]".into();
        }
    }
    let t = alloc::fit(&t);
    cx.event("dparse", format!("\"s\":{}", s + 1), || {
        let r = api(|| json::parse(&t));
        let ok = r.is_ok();
        match r {
            Ok(v) => api(|| w.v[s] = v),
            Err(e) => api(|| drop(e)),
        }
        format!("\"ok\":{},{}", ok, w.st())
    });
}

/// Everything that only looks.
fn make_use(cx: &mut Ctx, w: &mut World, s: usize, t: usize) {
    let k = alloc::fit(&some_key(&mut cx.rng, &w.v[s], &w.keys));
    cx.event("duse", format!("\"s\":{}", s + 1), || {
        api(|| {
            let (a, b) = (&w.v[s], &w.v[t]);
            drop(a.dump());
            drop(a.pretty(2));
            drop(format!("{} {:#} {:?}", a, a, a));
            let mut sink = Vec::new();
            let _ = a.write(&mut sink);
            drop(sink);
            let _ = (a == b, b != a, a.has_key(&k), a.contains(b.clone()), a.as_str().map(|s| s.len()));
            let _ = (a.members().count(), a.entries().map(|e| e.0.len()).sum::<usize>());
            drop(json::stringify(a.clone()));
        });
        w.st()
    });
}

/// Texts that just fill, or just do not fill, the buffers they are made in.
fn texts(cx: &mut Ctx) {
    let mut w = World { v: Vec::new(), keys: Vec::new(), show: true };
    api(|| w.v.push(JsonValue::Null));
    let st = w.st();
    cx.event("start", String::new(), move || st);
    let more = 1 << (11 + cx.rng.below(4));
    for size in [256usize, 512, 1024, more] {
        for n in size - 7..size + 4 {
            for kind in 0..3 {
                let s = match cx.rng.below(3) {
                    0 => "a".repeat(n),
                    1 => "\u{e9}".repeat(n / 2) + "b".repeat(n % 2).as_str(),
                    _ => format!("{}\u{20ac}", "c".repeat(n - 3)),
                };
                cx.event("dtext", format!("\"n\":{},\"kind\":{}", n, kind), || {
                    let v = match kind {
                        0 => JsonValue::String(s.clone()),
                        1 => json::array![0, s.clone()],
                        _ => {
                            let mut o = json::object::Object::new();
                            o.insert(&s, s.as_str().into());
                            JsonValue::Object(o)
                        }
                    };
                    let lens = api(|| {
                        let (a, b, c) = (v.dump(), v.pretty(1), v.to_string());
                        let mut exact = Vec::with_capacity(a.len());
                        let mut short = Vec::with_capacity(a.len() - 1);
                        v.write(&mut exact).unwrap();
                        v.write_pretty(&mut short, 1).unwrap();
                        let back = json::parse(&a).map(|x| x == v).unwrap_or(false);
                        let lens = vec![a.len(), b.len(), c.len(), exact.len(), short.len(), back as usize];
                        drop((a, b, c, exact, short));
                        lens
                    });
                    format!("\"lens\":{},\"bad\":{}", list(&lens, |n| n.to_string()), alloc::bad())
                });
            }
        }
    }
    over(cx, w);
}

/// Texts that end, anywhere, where nothing may be read any more.
fn prefixes(cx: &mut Ctx) {
    let mut w = World { v: Vec::new(), keys: Vec::new(), show: true };
    alloc::fence(true);
    api(|| w.v.push(JsonValue::Null));
    let st = w.st();
    cx.event("start", String::new(), move || st);
    let mut all: Vec<String> = vec![
        "[1,-20.50e+10 , true,false,null]".into(),
        "{\"a\":\"b\\n\\u0041\\ud83d\\ude00\u{e9}\u{20ac}\u{1f600}\",\"abcdefghijklmnop\":{}}".into(),
        "123456789012345678901234.5678901234567890123e-12".into(),
        "\"a string of sixteen or thirty-two or more bytes without escapes\"".into(),
        "\"\\ta string of sixteen or thirty-two or more bytes with an escape\"".into(),
        "                    \n\t\r [ \t[],                  0.0 ]                    ".into(),
    ];
    for _ in 0..if cx.thorough { 60 } else { 12 } {
        let t = gentext::document(&mut cx.rng);
        if t.len() < 200 {
            all.push(t);
        }
    }
    for t in all {
        let ends: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
        for end in ends {
            let t = alloc::fit(&t[..end]);
            cx.event("dparse", "\"s\":1".into(), || {
                let ok = match api(|| json::parse(&t)) {
                    Ok(v) => {
                        let v2 = api(|| v.clone());
                        api(|| w.v[0] = v);
                        api(|| drop((v2.dump(), v2.pretty(1), v2)));
                        true
                    }
                    Err(e) => {
                        api(|| drop(e));
                        false
                    }
                };
                format!("\"ok\":{},{}", ok, w.st())
            });
            api(|| w.v[0] = JsonValue::Null);
            cx.event("dset", "\"s\":1,\"x\":{\"t\":\"null\"}".into(), || w.st());
        }
    }
    // strings of every length, from slices that end there
    for n in 0..70 {
        for fill in ["a", "\u{e9}", "\n", "\""] {
            let t = alloc::fit(&fill.repeat(n));
            cx.event("dset", format!("\"s\":1,\"x\":{{\"t\":\"str\",\"s\":{}}}", cps(&t)), || {
                api(|| w.v[0] = JsonValue::from(&t[..]));
                api(|| drop((w.v[0].dump(), w.v[0].to_string(), w.v[0] == t[..], w.v[0] == t, w.v[0].clone() == w.v[0])));
                w.st()
            });
        }
    }
    over(cx, w);
}

pub fn drive(cx: &mut Ctx) {
    alloc::start();
    if cx.prop == "C15" {
        prefixes(cx);
        texts(cx);
    }
    for _ in 0..cx.n {
        history(cx);
    }
}
