//! Behaviours generated from the specification, stepped through the real code.
//! args[0] is a file with one behaviour per line; the outcomes are recorded in
//! the same order, and compared by the runner with what the model says.
use crate::util::*;
use json::number::Number;
use json::object::Object;
use json::JsonValue;

fn lines(cx: &Ctx) -> Vec<String> {
    std::fs::read_to_string(&cx.args[0]).expect("behaviours").lines().map(|s| s.to_string()).collect()
}
pub fn text_of(cps: &str) -> String {
    cps.split(' ').filter(|x| !x.is_empty()).map(|x| char::from_u32(x.parse().unwrap()).unwrap()).collect()
}
/// Postfix tokens of a value: n t f N s:<cps> #<neg>:<digits>:<e> a:<n> o:<n>
pub fn value_of(line: &str) -> JsonValue {
    let mut st: Vec<JsonValue> = Vec::new();
    for tok in line.split('|') {
        let (head, rest) = tok.split_at(1);
        let rest = rest.trim_start_matches(':');
        let v = match head {
            "n" => JsonValue::Null,
            "t" => JsonValue::Boolean(true),
            "f" => JsonValue::Boolean(false),
            "N" => JsonValue::Number(json::number::NAN),
            "s" => {
                let s = text_of(rest);
                if st.len() % 2 == 0 { JsonValue::from(s.as_str()) } else { JsonValue::String(s) }
            }
            "#" => {
                let p: Vec<&str> = rest.split(':').collect();
                let m: u64 = if p[1].is_empty() { 0 } else { p[1].parse().unwrap() };
                JsonValue::Number(unsafe { Number::from_parts_unchecked(p[0] == "0", m, p[2].parse().unwrap()) })
            }
            "a" => {
                let n: usize = rest.parse().unwrap();
                let at = st.len() - n;
                JsonValue::Array(st.split_off(at))
            }
            "o" => {
                let n: usize = rest.parse().unwrap();
                let at = st.len() - 2 * n;
                let kv = st.split_off(at);
                let mut o = Object::new();
                let mut it = kv.into_iter();
                while let (Some(k), Some(v)) = (it.next(), it.next()) {
                    o.insert(k.as_str().unwrap(), v);
                }
                JsonValue::Object(o)
            }
            x => panic!("token {}", x),
        };
        st.push(v);
    }
    st.pop().unwrap()
}

fn nums(t: &str) -> Vec<usize> {
    t.split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// Real keys for abstract keys with the given abstract hashes: equal hashes
/// collide, and the order of the hashes is kept.
fn realize(hashes: &[usize], style: usize) -> Vec<String> {
    let mut suffixes: Vec<String> = match style % 3 {
        0 => vec!["".into(), "s".into(), "t".into(), "u".into(), "v".into()],
        1 => vec!["a".repeat(40), "b".repeat(40), "c".repeat(40), "d".repeat(40), "e".repeat(40)],
        _ => vec!["\u{e9}".repeat(10), "\u{20ac}".repeat(7), "z".repeat(22), "y".repeat(21), "x".into()],
    };
    suffixes.sort_by_key(|s| crate::obj::fnv(crate::obj::colliding(0, s).as_bytes()));
    hashes.iter().enumerate().map(|(i, &h)| crate::obj::colliding(i, &suffixes[h - 1])).collect()
}
fn by_number(o: &Object, keys: &[String]) -> String {
    let name = |k: &str| keys.iter().position(|x| x == k).map_or(0, |i| i + 1);
    format!(
        "{{\"k\":{},\"v\":{},\"n\":{}}}",
        list(&o.iter().collect::<Vec<_>>(), |x| name(x.0).to_string()),
        list(&o.iter().collect::<Vec<_>>(), |x| x.1.as_i64().unwrap_or(-1).to_string()),
        o.len()
    )
}
/// hashes | keys | values
fn object(cx: &mut Ctx, line: &str, style: usize) {
    let p: Vec<&str> = line.split('|').collect();
    let (h, ks, vs) = (nums(p[0]), nums(p[1]), nums(p[2]));
    let keys = realize(&h, style);
    cx.event("object", String::new(), || {
        let make = || {
            let mut o = Object::new();
            for (&k, &v) in ks.iter().zip(&vs) {
                o.insert(&keys[k - 1], v.into());
            }
            o
        };
        let ins = list(&keys, |k| {
            let mut o = make();
            o.insert(k, 7.into());
            by_number(&o, &keys)
        });
        let via = list(&keys, |k| {
            let mut o = make().clone();
            o[k] = 7.into();
            by_number(&o, &keys)
        });
        let rem = list(&keys, |k| {
            let mut o = make();
            let got = o.remove(k).map_or(0, |v| v.as_i64().unwrap_or(-1));
            format!("{{\"o\":{},\"r\":{}}}", by_number(&o, &keys), got)
        });
        // what is left after a removal can be found, and put back at the end
        let back = list(&keys, |k| {
            let mut o = make();
            o.remove(k);
            let left: Vec<i64> = keys.iter().map(|j| o.get(j).map_or(0, |v| v.as_i64().unwrap_or(-1))).collect();
            o.insert(k, 7.into());
            format!("{{\"o\":{},\"left\":{}}}", by_number(&o, &keys), list(&left, |x| x.to_string()))
        });
        let mut o = make();
        let get = list(&keys, |k| format!("{}", o.get(k).map_or(0, |v| v.as_i64().unwrap_or(-1))));
        let getmut: Vec<i64> = keys.iter().map(|k| o.get_mut(k).map_or(0, |v| v.as_i64().unwrap_or(-1))).collect();
        let getmut = list(&getmut, |x| x.to_string());
        format!("\"ins\":{},\"via\":{},\"rem\":{},\"back\":{},\"get\":{},\"getmut\":{}", ins, via, rem, back, get, getmut)
    });
}

fn memory_keys(style: usize) -> [String; 4] {
    match style % 4 {
        0 => ["s1".into(), "".into(), "l".repeat(40), "m".repeat(70)],
        1 => ["p".repeat(32), "q".repeat(32), "p".repeat(33), "q".repeat(33)],
        2 => [
            crate::obj::colliding(0, ""),
            crate::obj::colliding(1, ""),
            crate::obj::colliding(2, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"),
            crate::obj::colliding(0, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"),
        ],
        _ => ["\u{e9}".repeat(16), "\u{1f600}".repeat(8), "\u{20ac}".repeat(11), "\u{e9}".repeat(17)],
    }
}
/// Operations on objects, under the monitored allocator.
fn memory(cx: &mut Ctx, line: &str, style: usize) {
    use crate::alloc::{self, api};
    let keys = memory_keys(style);
    let slots = 2;
    cx.event("memory", String::new(), || {
        let mut o: Vec<Object> = api(|| (0..slots).map(|_| Object::new()).collect());
        let value = |n: usize| -> JsonValue { JsonValue::String("value ".repeat(n + 6)) };
        for (n, op) in line.split(';').filter(|x| !x.is_empty()).enumerate() {
            let a = nums(&op[1..]);
            let s = a[0] - 1;
            match &op[..1] {
                "i" => api(|| o[s].insert(&keys[a[1] - 1], value(n))),
                "r" => api(|| drop(o[s].remove(&keys[a[1] - 1]))),
                "c" => api(|| o[s].clear()),
                "n" => api(|| o[s] = if a[1] == 0 { Object::new() } else { Object::with_capacity(a[1]) }),
                "k" => api(|| o[a[1] - 1] = o[s].clone()),
                "s" => o.swap(s, a[1] - 1),
                x => panic!("{}", x),
            }
        }
        let name = |k: &str| keys.iter().position(|x| x.as_bytes() == k.as_bytes()).map_or(0, |i| i + 1);
        let a = list(&o, |o| list(&o.iter().collect::<Vec<_>>(), |x| name(x.0).to_string()));
        let found = list(&o, |o| list(&keys, |k| o.get(k).map_or(false, |v| v.as_str().map_or(false, |s| s.starts_with("value value"))).to_string()));
        api(|| drop(o));
        alloc::sweep();
        format!("\"a\":{},\"found\":{},\"bad\":{},\"live\":{}", a, found, alloc::bad(), alloc::blocks())
    });
}

fn steps_of(t: &str) -> Vec<crate::dom::Step> {
    t.split(';')
        .filter(|x| !x.is_empty())
        .map(|x| match &x[..1] {
            "k" => crate::dom::Step::Key(text_of(&x[1..])),
            _ => {
                let i: usize = x[1..].parse().unwrap();
                crate::dom::Step::Idx(if i == crate::dom::HUGE { usize::MAX } else { i })
            }
        })
        .collect()
}
/// value TAB path TAB operation [TAB argument [TAB argument]]
fn document(cx: &mut Ctx, line: &str, how: u64) {
    use crate::dom::{look, place, Call, Step};
    let p: Vec<&str> = line.split('\t').collect();
    let steps = steps_of(p[1]);
    let big = |t: &str| -> usize {
        let i: usize = t.parse().unwrap();
        if i == crate::dom::HUGE { usize::MAX } else { i }
    };
    let call = match p[2] {
        "push" => Some(Call::Push(value_of(p[3]))),
        "pop" => Some(Call::Pop),
        "aremove" => Some(Call::ArrayRemove(big(p[3]))),
        "insert" => Some(Call::Insert(text_of(p[3]), value_of(p[4]))),
        "remove" => Some(Call::Remove(text_of(p[3]))),
        "take" => Some(Call::Take),
        "takestr" => Some(Call::TakeString),
        "clear" => Some(Call::Clear),
        _ => None,
    };
    let mut v = value_of(p[0]);
    cx.event("document", String::new(), || {
        let r = match call {
            Some(call) => {
                let mut at = &mut v;
                for s in &steps {
                    at = match (s, at) {
                        (&Step::Key(ref k), &mut JsonValue::Object(ref mut o)) => o.get_mut(k).unwrap(),
                        (&Step::Idx(i), &mut JsonValue::Array(ref mut a)) => &mut a[i],
                        _ => unreachable!(),
                    };
                }
                call.make(at).0
            }
            None => match p[2] {
                "read" => {
                    let got: Vec<String> = (0..6).map(|f| val(look(&v, &steps, f))).collect();
                    if got.iter().any(|g| *g != got[0]) {
                        "{\"is\":\"forms differ\"}".to_string()
                    } else {
                        format!("{{\"is\":\"val\",\"x\":{}}}", got[0])
                    }
                }
                "assign" => {
                    *place(&mut v, &steps, how) = value_of(p[3]);
                    "{\"is\":\"ok\"}".to_string()
                }
                _ => {
                    place(&mut v, &steps, how);
                    "{\"is\":\"ok\"}".to_string()
                }
            },
        };
        format!("\"r\":{},\"post\":{},\"len\":{},\"empty\":{}", r, val(&v), v.len(), v.is_empty())
    });
}

pub fn drive(cx: &mut Ctx) {
    let kind = cx.args[1].clone();
    if kind == "memory" {
        crate::alloc::start();
    }
    for (n, line) in lines(cx).into_iter().enumerate() {
        match kind.as_str() {
            "object" => object(cx, &line, n / 3 + n),
            "memory" => memory(cx, &line, n / 4 + n),
            "document" => {
                let how = cx.rng.u64();
                document(cx, &line, how)
            }
            "eqs" => {
                let (a, b) = line.split_once('\t').unwrap();
                crate::facts::eqs(cx, value_of(a), value_of(b));
            }
            "facts" => crate::facts::facts(cx, value_of(&line)),
            "strs" => {
                let (a, b) = line.split_once('\t').unwrap();
                crate::facts::strs(cx, &text_of(a), &text_of(b));
            }
            "iter" => {
                let a = nums(&line);
                let script: Vec<u8> = a[1..].iter().map(|&c| c as u8).collect();
                for (i, k) in crate::facts::KINDS.iter().enumerate() {
                    let v = crate::facts::container(&mut cx.rng, i < 2, a[0]);
                    crate::facts::iterate(cx, v, k, &script);
                }
            }
            "parse" => crate::parse::one(cx, &text_of(&line)),
            "emit" => {
                let v = value_of(&line);
                crate::emit::dump(cx, &v);
                for n in 0..3 {
                    crate::emit::pretty(cx, &v, n);
                }
                crate::emit::generate(cx, &v, "plain", 0, usize::MAX);
                crate::emit::generate(cx, &v, "full", 0, usize::MAX);
            }
            "numeq" | "toint" | "fromint" | "fixed" | "parts" | "floats" => crate::numbers::replay(cx, &kind, &line),
            "sink" => crate::emit::planned(cx, &line),
            "shared" => crate::shared::scheduled(cx, &line),
            k => panic!("{}", k),
        }
    }
}
