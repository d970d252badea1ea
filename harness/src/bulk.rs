//! Large containers: built in some way, changed a few times, and looked at in
//! some places.
use crate::alloc;
use crate::util::*;
use json::object::Object;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;

fn item(i: usize) -> JsonValue {
    JsonValue::from(3 * i as u64 + 1)
}
/// how much stands before and behind the number in a key
type Wide = (usize, usize);
fn key(i: usize, wide: Wide) -> String {
    format!("{}{:07}{}", if wide == (0, 0) { "k".into() } else { "p".repeat(wide.0) }, i, "q".repeat(wide.1))
}
/// how a key is recorded: leading `p`s and trailing `q`s are counted
fn keyed(k: &str) -> String {
    let m = k.trim_start_matches('p');
    let mid = m.trim_end_matches('q');
    format!("{{\"a\":{},\"m\":{},\"z\":{}}}", k.len() - m.len(), cps(mid), m.len() - mid.len())
}
const NO_KEY: &str = "{\"a\":0,\"m\":[],\"z\":0}";
/// the numbers used here, -1 for what is absent
fn small(v: &JsonValue) -> i64 {
    match *v {
        JsonValue::Null => -1,
        JsonValue::Number(n) => {
            let (pos, m, e) = n.as_parts();
            if pos && e == 0 && m < 1 << 31 { m as i64 } else { -2 }
        }
        _ => -3,
    }
}

#[derive(Clone, Copy, PartialEq)]
struct Op {
    o: &'static str,
    i: usize,
    x: u64,
    /// of a group: how many
    c: usize,
}
fn ops_text(ops: &[Op]) -> String {
    list(ops, |q| format!("{{\"o\":\"{}\",\"i\":{},\"x\":{},\"c\":{}}}", q.o, q.i, q.x, q.c))
}

/// what the calls draw from
struct Draw {
    rng: Rng,
    prop: String,
}
fn bools(xs: &[bool]) -> String {
    list(xs, |b| b.to_string())
}

struct Plan {
    arr: bool,
    n: usize,
    wide: Wide,
    ops: Vec<Op>,
}

/// places worth looking at
fn places(cx: &mut Ctx, n: usize, many: usize) -> Vec<usize> {
    let mut ps = vec![1, 2, 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2];
    for e in [8, 12, 15, 16, 17] {
        ps.extend([(1 << e) - 1, 1 << e, (1 << e) + 1, (1 << e) + 2]);
    }
    for _ in 0..many {
        ps.push(1 + cx.rng.below(n.max(1)));
    }
    ps.retain(|&p| p >= 1 && p <= n + 2);
    ps.sort();
    ps.dedup();
    ps
}
fn place(cx: &mut Ctx, n: usize) -> usize {
    let ps = places(cx, n, 12);
    *cx.rng.pick(&ps)
}

/// the keys are told apart at their end, at their beginning or in the middle,
/// and are inline or not
fn shape(cx: &mut Ctx, n: usize) -> Wide {
    let huge = n <= 40 && matches!(cx.prop.as_str(), "C04" | "C14" | "C15" | "C16" | "C17" | "C19" | "C21" | "C22" | "C24");
    match cx.rng.below(if huge { 9 } else if n <= 300 { 6 } else { 5 }) {
        0..=2 => (0, 0),
        3 => (33, 0),
        4 => *cx.rng.pick(&[(0, 24), (0, 25), (0, 26), (0, 33), (24, 0), (25, 0), (26, 0)]),
        5 => *cx.rng.pick(&[(20, 20), (1, 0), (0, 1), (120, 120), (0, 249), (249, 0), (500, 0), (0, 500)]),
        6 => *cx.rng.pick(&[(4089, 0), (0, 4089), (8192, 0), (0, 8192), (2000, 2090)]),
        _ => *cx.rng.pick(&[(65528, 0), (65529, 0), (70000, 0), (0, 65528), (0, 65529), (0, 70000), (40000, 30000), (32761, 0), (0, 32761)]),
    }
}
fn plan(cx: &mut Ctx, n: usize, arrays: bool) -> Plan {
    let arr = match cx.prop.as_str() {
        "C14" => false,
        _ => arrays || cx.rng.bool(),
    };
    let wide = if arr { (0, 0) } else { shape(cx, n) };
    let mut p = Plan { arr, n, wide, ops: Vec::new() };
    let most = match cx.prop.as_str() {
        "C04" | "C21" => 0,
        _ => 4,
    };
    let mut size = n;
    let many = cx.rng.below(most + 1);
    for m in 0..many {
        let op = if cx.rng.chance(1, 2) && (arr || m == 0) { group(cx, arr, &mut size, m + 1 == many) } else { change(cx, arr, &mut size) };
        p.ops.push(op);
    }
    p
}
/// many of a kind: some, most or all of what is there
fn group(cx: &mut Ctx, arr: bool, size: &mut usize, last: bool) -> Op {
    let s = *size;
    let c = match cx.rng.below(4) {
        0 => s,
        1 => s - s / 20,
        2 => s / 2 + 1,
        _ => 1 + cx.rng.below(s.clamp(1, 40)),
    };
    let i = 1 + cx.rng.below(s.max(2) - 1);
    let few = |c: usize| if s > 5000 { c.min(30) } else if s > 300 { c.min(200) } else { c };
    match cx.rng.below(if arr { 3 } else { 1 }) {
        0 if !arr => {
            let c = few(c).min(s - i);
            *size -= c;
            Op { o: "dels", i, x: 0, c }
        }
        0 => {
            // (something is left, for the changes to come)
            let c = if last && c == s { s + 2 } else { c.min(s.saturating_sub(5)) };
            *size -= c.min(s);
            Op { o: "pops", i: 0, x: 0, c }
        }
        1 => {
            *size += c;
            Op { o: "pushes", i: 0, x: 600_000 + cx.rng.below(1000) as u64, c }
        }
        _ => {
            let c = few(c).min(s.saturating_sub(5));
            *size -= c.min(s + 1 - i);
            Op { o: "cuts", i, x: 0, c }
        }
    }
}
fn change(cx: &mut Ctx, arr: bool, size: &mut usize) -> Op {
    let x = 500_000 + cx.rng.below(1000) as u64;
    if arr {
        match cx.rng.below(4) {
            0 => {
                *size += 1;
                Op { o: "push", i: 0, x, c: 0 }
            }
            1 => {
                *size -= 1;
                Op { o: "pop", i: 0, x: 0, c: 0 }
            }
            2 => Op { o: "set", i: place(cx, *size).min(*size), x, c: 0 },
            _ => {
                let i = place(cx, *size);
                if i <= *size {
                    *size -= 1;
                }
                Op { o: "cut", i, x: 0, c: 0 }
            }
        }
    } else {
        // (the keys are those of the beginning and a few more)
        let i = place(cx, *size);
        match cx.rng.below(2) {
            0 => Op { o: "put", i, x, c: 0 },
            _ => Op { o: "del", i, x: 0, c: 0 },
        }
    }
}

fn text(p: &Plan, gap: &str) -> String {
    let mut t = String::new();
    t.push(if p.arr { '[' } else { '{' });
    for i in 1..=p.n {
        if i > 1 {
            t.push(',');
            t.push_str(gap);
        }
        if !p.arr {
            t.push_str(&format!("\"{}\":{}", key(i, p.wide), gap));
        }
        t.push_str(&(3 * i + 1).to_string());
    }
    t.push(if p.arr { ']' } else { '}' });
    t
}

/// every way of making one; how is recorded, for the reader of a trace
fn build(cx: &mut Draw, p: &Plan) -> (JsonValue, &'static str) {
    let prop = cx.prop.clone();
    if prop == "C04" {
        let gap = if cx.rng.bool() { "" } else { " \n" };
        return (json::parse(&text(p, gap)).unwrap(), "parse");
    }
    if p.arr {
        match cx.rng.below(6) {
            0 => {
                let mut v = JsonValue::new_array();
                for i in 1..=p.n {
                    v.push(item(i)).unwrap();
                }
                (v, "push")
            }
            1 => {
                let xs: Vec<u32> = (1..=p.n as u32).map(|i| 3 * i + 1).collect();
                (JsonValue::from(&xs[..]), "slice")
            }
            2 => (JsonValue::from((1..=p.n).map(|i| Some(3 * i as i64 + 1)).collect::<Vec<_>>()), "options"),
            3 => (json::from((1..=p.n as u32).map(|i| 3 * i + 1).collect::<Vec<_>>()), "vec"),
            4 if prop != "C21" => {
                let mut v = json::Null;
                for i in 1..=p.n {
                    v[i - 1] = item(i);
                }
                (v, "index")
            }
            _ if prop != "C21" => (json::parse(&text(p, "")).unwrap(), "parse"),
            _ => (JsonValue::Array((1..=p.n).map(item).collect()), "array"),
        }
    } else {
        let pairs = (1..=p.n).map(|i| (key(i, p.wide), item(i)));
        match cx.rng.below(6) {
            0 if prop != "C21" => {
                let mut o = Object::new();
                for (k, v) in pairs {
                    o.insert(&k, v);
                }
                (JsonValue::Object(o), "insert")
            }
            1 => (JsonValue::Object(pairs.collect()), "collect"),
            2 => (JsonValue::from(pairs.collect::<BTreeMap<String, JsonValue>>()), "btree"),
            3 if prop != "C21" => {
                let mut v = JsonValue::new_object();
                for (k, x) in pairs {
                    v[k] = x;
                }
                (v, "index")
            }
            4 if prop != "C21" => (json::parse(&text(p, "")).unwrap(), "parse"),
            _ if prop == "C21" => {
                // (in no order: put into that of the keys)
                let m: HashMap<String, JsonValue> = pairs.collect();
                (JsonValue::from(m), "hash")
            }
            _ => {
                let mut o = Object::with_capacity(p.n);
                for (k, v) in pairs {
                    o.insert(&k, v);
                }
                (JsonValue::Object(o), "capacity")
            }
        }
    }
}

/// a group, one after the other; what the j-th handed back in its turn, and
/// how many were left then: j, turn, value, length
fn applies(cx: &mut Draw, v: &mut JsonValue, q: &Op, wide: Wide) -> Vec<(usize, usize, i64, usize)> {
    let mut js: Vec<usize> = (1..=q.c).collect();
    if q.o == "dels" {
        match cx.rng.below(3) {
            0 => {}
            1 => js.reverse(),
            _ => {
                for a in 1..js.len() {
                    js.swap(a, cx.rng.below(a + 1));
                }
            }
        }
    }
    let mut seen = Vec::with_capacity(q.c);
    for (turn, &j) in js.iter().enumerate() {
        let one = match q.o {
            "pops" => Op { o: "pop", i: 0, x: 0, c: 0 },
            "pushes" => Op { o: "push", i: 0, x: q.x + j as u64, c: 0 },
            "cuts" => Op { o: "cut", i: q.i, x: 0, c: 0 },
            _ => Op { o: "del", i: q.i + j - 1, x: 0, c: 0 },
        };
        let x = apply(cx, v, &one, wide);
        seen.push((j, turn + 1, x, v.len()));
    }
    seen
}
/// one change, in one of the ways there are; what it handed back
fn apply(cx: &mut Draw, v: &mut JsonValue, q: &Op, wide: Wide) -> i64 {
    let bare = cx.prop == "C14" || cx.rng.bool();
    let indexing = cx.prop == "C17";
    let x = JsonValue::from(q.x);
    match q.o {
        "pops" | "pushes" | "cuts" | "dels" => {
            applies(cx, v, q, wide);
            -1
        }
        "push" => {
            if indexing {
                let n = v.len();
                v[n + 5] = x;
            } else {
                v.push(x).unwrap();
            }
            -1
        }
        "set" => {
            if bare {
                *v.members_mut().nth(q.i - 1).unwrap() = x;
            } else {
                v[q.i - 1] = x;
            }
            -1
        }
        "pop" => small(&v.pop()),
        "cut" => small(&v.array_remove(q.i - 1)),
        "put" => {
            let k = key(q.i, wide);
            if indexing {
                v[&k] = x;
            } else {
                match *v {
                    JsonValue::Object(ref mut o) if bare => o.insert(&k, x),
                    _ => v.insert(&k, x).unwrap(),
                }
            }
            -1
        }
        "del" => {
            let k = key(q.i, wide);
            match *v {
                JsonValue::Object(ref mut o) if bare => o.remove(&k).map_or(-1, |x| small(&x)),
                _ => small(&v.remove(&k)),
            }
        }
        o => panic!("{}", o),
    }
}

fn look(v: &JsonValue, i: usize, wide: Wide, arr: bool) -> Vec<i64> {
    if arr {
        // (a place past the end reads as null)
        return vec![small(&v[i - 1])];
    }
    let k = key(i, wide);
    let mut xs = vec![small(&v[&k]), small(&v[k.as_str()])];
    if let JsonValue::Object(ref o) = *v {
        xs.push(o.get(&k).map_or(-1, small));
        xs.push(small(&o[&k]));
    }
    xs
}
fn at(v: &mut JsonValue, p: usize, arr: bool, way: usize) -> (String, i64) {
    let n = v.len();
    if p > n {
        let end = if arr { v.members().nth(p - 1).is_none() } else { v.entries().nth(p - 1).is_none() };
        return (NO_KEY.into(), if end { -1 } else { -4 });
    }
    if arr {
        let x = match way {
            0 => v.members().nth(p - 1).map(small),
            1 => v.members().rev().nth(n - p).map(small),
            2 => v.members_mut().nth(p - 1).map(|x| small(x)),
            _ => v.members_mut().rev().nth(n - p).map(|x| small(x)),
        };
        (NO_KEY.into(), x.unwrap_or(-5))
    } else {
        let x = match way {
            0 => v.entries().nth(p - 1).map(|(k, x)| (keyed(k), small(x))),
            1 => v.entries().rev().nth(n - p).map(|(k, x)| (keyed(k), small(x))),
            2 => v.entries_mut().nth(p - 1).map(|(k, x)| (keyed(k), small(x))),
            _ => v.entries_mut().rev().nth(n - p).map(|(k, x)| (keyed(k), small(x))),
        };
        x.unwrap_or((NO_KEY.into(), -5))
    }
}

/// a writer that takes a few bytes at a time
struct Choppy {
    got: Vec<u8>,
    turn: usize,
}
impl Write for Choppy {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.turn += 1;
        if self.turn % 1009 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(1 + self.turn % 3);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// a generator that writes a letter for every layout call: I indent,
/// D dedent, N new_line, M write_min
struct Marks(Vec<u8>);
impl json::codegen::Generator for Marks {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        &mut self.0
    }
    fn write_min(&mut self, _: &[u8], _: u8) -> std::io::Result<()> {
        self.0.push(b'M');
        Ok(())
    }
    fn new_line(&mut self) -> std::io::Result<()> {
        self.0.push(b'N');
        Ok(())
    }
    fn indent(&mut self) {
        self.0.push(b'I')
    }
    fn dedent(&mut self) {
        self.0.push(b'D')
    }
}

fn pieces(t: &[u8], ps: &[usize]) -> String {
    let all: Vec<&[u8]> = t.split(|&b| b == b',').collect();
    let ps: Vec<usize> = ps.iter().copied().filter(|&p| p <= all.len()).collect();
    format!(
        "{{\"is\":\"pieces\",\"total\":{},\"parts\":{}}}",
        all.len(),
        list(&ps, |&p| format!("{{\"no\":{},\"text\":{}}}", p, bytes_text(all[p - 1])))
    )
}
fn lines(t: &[u8], w: usize, ps: &[usize]) -> String {
    let all: Vec<&[u8]> = t.split(|&b| b == b'\n').collect();
    let ps: Vec<usize> = ps.iter().copied().filter(|&p| p <= all.len()).collect();
    format!(
        "{{\"is\":\"lines\",\"w\":{},\"total\":{},\"parts\":{}}}",
        w,
        all.len(),
        list(&ps, |&p| {
            let l = all[p - 1];
            let indent = l.iter().take_while(|&&b| b == b' ').count();
            format!("{{\"no\":{},\"in\":{},\"text\":{}}}", p, indent, bytes_text(&l[indent..]))
        })
    )
}

fn one(cx: &mut Ctx, n: usize, arrays: bool) {
    let p = plan(cx, n, arrays);
    let prop = cx.prop.clone();
    let more_op = {
        let mut size = n;
        change(cx, p.arr, &mut size)
    };
    let undo = cx.rng.bool();
    let ps = places(cx, n, if n > 140 { 40 } else { 10 });
    let way = cx.rng.below(4);
    let width = *cx.rng.pick(&[0, 1, 2, 4, 7, 40, 130]);
    let before = format!(
        "\"kind\":\"{}\",\"n\":{},\"pre\":{},\"post\":{},\"ops\":{}",
        if p.arr { "arr" } else { "obj" }, n, p.wide.0, p.wide.1, ops_text(&p.ops)
    );
    let mut inner = Draw { rng: Rng::new(cx.rng.u64()), prop: prop.clone() };
    cx.event("bulk", before, || {
        let cx = &mut inner;
        let mut obs: Vec<String> = Vec::new();
        if prop == "C15" {
            let live = alloc::blocks();
            let bad = alloc::bad();
            let xs = alloc::api(|| {
                let (mut v, _) = build(cx, &p);
                let copy = v.clone();
                for q in &p.ops {
                    apply(cx, &mut v, q, p.wide);
                }
                let xs: Vec<Vec<i64>> = ps.iter().map(|&i| look(&v, i, p.wide, p.arr)).collect();
                drop(v);
                let _still = small(&copy[0]);
                drop(copy);
                xs
            });
            for (i, x) in ps.iter().zip(&xs) {
                obs.push(format!("{{\"is\":\"get\",\"i\":{},\"xs\":{:?}}}", i, x));
            }
            drop(xs);
            // (what was recorded is the harness's own)
            let kept = alloc::blocks() - live;
            obs.push(format!("{{\"is\":\"mem\",\"bad\":{},\"live\":{}}}", alloc::bad() - bad, kept));
            return format!("\"via\":\"\",\"obs\":[{}]", obs.join(","));
        }
        let (mut v, via) = build(cx, &p);
        for (m, q) in p.ops.iter().enumerate() {
            if q.c > 0 {
                let seen = applies(cx, &mut v, q, p.wide);
                if matches!(prop.as_str(), "C14" | "C16") {
                    // (all of a few, some of many)
                    let step = 1 + seen.len() / 150;
                    for (j, t, x, n) in seen.iter().filter(|s| s.1 % step == 0 || s.1 + 3 > seen.len()) {
                        obs.push(format!("{{\"is\":\"takes\",\"m\":{},\"j\":{},\"t\":{},\"x\":{},\"n\":{}}}", m + 1, j, t, x, n));
                    }
                }
                continue;
            }
            let x = apply(cx, &mut v, q, p.wide);
            if matches!(prop.as_str(), "C14" | "C16") {
                obs.push(format!("{{\"is\":\"took\",\"m\":{},\"x\":{}}}", m + 1, x));
            }
        }
        let counts = |v: &JsonValue| -> String {
            let mut xs = vec![v.len()];
            if p.arr {
                xs.push(v.members().len());
                xs.push(v.members().count());
            } else {
                xs.push(v.entries().len());
                xs.push(v.entries().count());
            }
            format!("{{\"is\":\"len\",\"xs\":{:?}}}", xs)
        };
        let ordered = via != "hash";
        match prop.as_str() {
            "C04" | "C14" | "C16" | "C17" | "C21" => {
                obs.push(counts(&v));
                for &i in &ps {
                    obs.push(format!("{{\"is\":\"get\",\"i\":{},\"xs\":{:?}}}", i, look(&v, i, p.wide, p.arr)));
                    if ordered && prop != "C17" {
                        let (k, x) = at(&mut v, i, p.arr, way);
                        obs.push(format!("{{\"is\":\"at\",\"p\":{},\"k\":{},\"x\":{}}}", i, k, x));
                    }
                }
            }
            "C24" => {
                obs.push(counts(&v));
                let n = v.len();
                let mut xs = if p.arr {
                    vec![v.members_mut().len(), v.members_mut().rev().count(), v.members().size_hint().0, v.members_mut().size_hint().1.unwrap()]
                } else {
                    vec![v.entries_mut().len(), v.entries_mut().rev().count(), v.entries().size_hint().0, v.entries_mut().size_hint().1.unwrap()]
                };
                // what is left after some steps, those steps added
                for &i in &ps {
                    if i > n {
                        continue;
                    }
                    if p.arr {
                        let mut it = v.members_mut();
                        it.nth(i - 1);
                        xs.push(it.len() + i);
                        it.next_back();
                        xs.push(it.count() + (i + 1).min(n));
                    } else {
                        let mut it = v.entries_mut();
                        it.nth(i - 1);
                        xs.push(it.len() + i);
                        it.next_back();
                        xs.push(it.count() + (i + 1).min(n));
                    }
                }
                obs.push(format!("{{\"is\":\"len\",\"xs\":{:?}}}", xs));
                for &i in &ps {
                    for w in 0..4 {
                        let (k, x) = at(&mut v, i, p.arr, w);
                        obs.push(format!("{{\"is\":\"at\",\"p\":{},\"k\":{},\"x\":{}}}", i, k, x));
                    }
                }
            }
            "C22" => {
                obs.push(format!("{{\"is\":\"len\",\"xs\":{:?}}}", [v.len(), v.len()]));
                obs.push(format!("{{\"is\":\"true\",\"rs\":{}}}", bools(&[v.is_empty() == (v.len() == 0), v.is_array() == p.arr, v.is_object() == !p.arr, !v.contains(2)])));
                for &i in &ps {
                    if p.arr {
                        let x = small(&v[i - 1]);
                        obs.push(format!("{{\"is\":\"has\",\"i\":{},\"rs\":{}}}", i, bools(&[x >= 0 && v.contains(x)])));
                    } else {
                        obs.push(format!("{{\"is\":\"has\",\"i\":{},\"rs\":{}}}", i, bools(&[v.has_key(&key(i, p.wide))])));
                    }
                }
            }
            "C06" => {
                obs.push(pieces(v.dump().as_bytes(), &ps));
                obs.push(pieces(v.to_string().as_bytes(), &ps));
                if let JsonValue::Object(ref o) = v {
                    obs.push(pieces(o.dump().as_bytes(), &ps));
                }
                obs.push(pieces(json::stringify(v).as_bytes(), &ps));
            }
            "C07" => {
                obs.push(lines(v.pretty(width).as_bytes(), width as usize, &ps));
                obs.push(lines(format!("{:#}", v).as_bytes(), 4, &ps));
                if let JsonValue::Object(ref o) = v {
                    obs.push(lines(o.pretty(width).as_bytes(), width as usize, &ps));
                }
                obs.push(lines(json::stringify_pretty(v, width).as_bytes(), width as usize, &ps));
            }
            "C23" => {
                use json::codegen::Generator;
                let mut g = Marks(Vec::new());
                g.write_json(&v).unwrap();
                obs.push(pieces(&g.0, &ps).replace("pieces", "calls"));
                if let JsonValue::Object(ref o) = v {
                    let mut g = Marks(Vec::new());
                    g.write_object(o).unwrap();
                    obs.push(pieces(&g.0, &ps).replace("pieces", "calls"));
                }
            }
            "C20" => {
                let mut w = Choppy { got: Vec::new(), turn: cx.rng.below(5) };
                let a = v.write(&mut w).is_ok();
                obs.push(pieces(&w.got, &ps));
                w.got.clear();
                let b = v.write_pretty(&mut w, width).is_ok();
                obs.push(lines(&w.got, width as usize, &ps));
                obs.push(format!("{{\"is\":\"true\",\"rs\":{}}}", bools(&[a, b])));
            }
            "C08" => {
                for t in [v.dump(), v.pretty(width)] {
                    let mut b = json::parse(&t).unwrap();
                    obs.push(counts(&b));
                    obs.push(format!("{{\"is\":\"true\",\"rs\":{}}}", bools(&[b == v, v == b, b.dump() == v.dump()])));
                    for &i in &ps {
                        let (k, x) = at(&mut b, i, p.arr, way);
                        obs.push(format!("{{\"is\":\"at\",\"p\":{},\"k\":{},\"x\":{}}}", i, k, x));
                    }
                }
            }
            "C19" => {
                obs.push(format!("{{\"is\":\"true\",\"rs\":{}}}", bools(&[v == v.clone(), v.clone() == v])));
                let mut w = if cx.rng.bool() { v.clone() } else {
                    // the same, made again
                    let (mut w, _) = build(cx, &p);
                    for q in &p.ops {
                        apply(cx, &mut w, q, p.wide);
                    }
                    w
                };
                let mut more = vec![more_op];
                if more_op.o == "cut" || (p.arr && more_op.o == "set" && more_op.i > w.len()) {
                    more = vec![Op { o: "pop", i: 0, x: 0, c: 0 }];
                }
                apply(cx, &mut w, &more[0], p.wide);
                if undo && !p.arr {
                    // and back again: then the order is another
                    let q = more[0];
                    let was = small(&v[key(q.i, p.wide)]);
                    let r = if was < 0 { Op { o: "del", i: q.i, x: 0, c: 0 } } else { Op { o: "put", i: q.i, x: was as u64, c: 0 } };
                    apply(cx, &mut w, &r, p.wide);
                    more.push(r);
                }
                obs.push(format!(
                    "{{\"is\":\"eq\",\"more\":{},\"rs\":{}}}",
                    ops_text(&more),
                    bools(&[v == w, w == v, !(v != w)])
                ));
            }
            o => panic!("bulk {}", o),
        }
        format!("\"via\":\"{}\",\"obs\":[{}]", via, obs.join(","))
    });
}

pub fn drive(cx: &mut Ctx) {
    let sizes: &[usize] = &[5, 30, 60, 127, 200, 255, 256, 257, 1000, 4095, 4096, 32768, 65535, 65536, 65537, 70001, 131073];
    if cx.prop == "C15" {
        alloc::start();
    }
    // every size that is not so large
    for n in 5..=140 {
        one(cx, n, false);
    }
    // few, with keys of every shape
    for n in [5, 6, 8, 12, 20].iter().cycle().take(if cx.thorough { 100 } else { 25 }) {
        one(cx, *n, false);
    }
    let rounds = cx.n;
    for r in 0..rounds {
        for (i, &n) in sizes.iter().enumerate() {
            // (the largest are too much for guarded memory; half of them a turn)
            if n > 5000 && (cx.prop == "C15" || (!cx.thorough && i % 2 != r % 2 && n != 65537)) {
                continue;
            }
            let n = if n > 5000 { n + cx.rng.below(2) } else { n };
            one(cx, n, false);
        }
    }
    // arrays cost little
    let more = match cx.prop.as_str() {
        "C14" | "C15" => 0,
        "C16" | "C17" | "C19" => 24,
        "C04" | "C21" | "C22" | "C24" => 8,
        _ => 2,
    };
    for _ in 0..more {
        for &n in sizes.iter().filter(|&&n| n > 3000) {
            let n = n + cx.rng.below(3);
            one(cx, n, true);
        }
    }
}
