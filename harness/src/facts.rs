//! What values say about themselves: predicates, equality, strings held
//! either way, conversions, the macros and iterators.
use crate::dom;
use crate::genval;
use crate::util::*;
use json::number::Number;
use json::object::Object;
use json::short::Short;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};

fn opt(x: Option<String>) -> String {
    match x {
        Some(x) => format!("{{\"is\":\"val\",\"x\":{}}}", x),
        None => "{\"is\":\"none\"}".into(),
    }
}
fn bools(b: &[bool]) -> String {
    list(b, |x| x.to_string())
}
fn is(v: &JsonValue) -> String {
    bools(&[v.is_null(), v.is_boolean(), v.is_number(), v.is_string(), v.is_array(), v.is_object()])
}
fn vstr(s: &str) -> String {
    format!("{{\"t\":\"str\",\"s\":{}}}", cps(s))
}
fn vbool(b: bool) -> String {
    format!("{{\"t\":\"bool\",\"b\":{}}}", b)
}
fn vint(x: i128) -> String {
    format!("{{\"t\":\"num\",\"neg\":{},\"d\":{},\"e\":0,\"nan\":false}}", x < 0, digits_big(x.unsigned_abs()))
}

/// A value in a state reached by mutation.
pub fn lived(r: &mut Rng) -> JsonValue {
    let mut v = genval::any(r);
    let keys: Vec<String> = vec!["a".into(), "b".into(), "k1".into(), "".into()];
    for _ in 0..r.below(4) {
        let mut seed = r.clone();
        r.u64();
        let at = dom::walk(&mut v, &mut seed, 3);
        let call = dom::some_call(r, at, &keys);
        call.make(at);
    }
    if r.chance(1, 12) {
        v["made"]["by"][2]["index"] = 1.into();
    }
    v
}

// ------------------------------------------------------------------ C22, C19
pub fn facts(cx: &mut Ctx, v: JsonValue) {
    let r = &mut cx.rng;
    let mut ks: Vec<String> = vec![genval::key(r), String::new(), "a".into()];
    let mut xs: Vec<JsonValue> = vec![genval::leaf(r, true), JsonValue::Null];
    for (k, x) in v.entries().take(6) {
        ks.push(k.to_string());
        xs.push(x.clone());
        if r.chance(1, 3) {
            ks.push(format!("{}\0", k));
        }
    }
    for x in v.members().take(6) {
        xs.push(x.clone());
        let y = vary(r, x);
        xs.push(y);
        if let Some(s) = x.as_str() {
            ks.push(s.to_string());
        }
    }
    if let Some(s) = v.as_str() {
        ks.push(s.to_string());
    }
    xs.push(v.clone());
    let before = format!("\"v\":{}", val(&v));
    cx.event("facts", before, || {
        let hk = list(&ks, |k| format!("{{\"k\":{},\"r\":{}}}", cps(k), v.has_key(k)));
        let ct = list(&xs, |x| format!("{{\"x\":{},\"r\":{}}}", val(x), v.contains(x.clone())));
        let reads = [
            v.as_f64().is_some(),
            v.as_f32().is_some(),
            v.as_u64().is_some(),
            v.as_i64().is_some(),
            v.as_u8().is_some(),
            v.as_isize().is_some(),
            v.as_fixed_point_u64(2).is_some(),
            v.as_fixed_point_i64(0).is_some(),
        ];
        format!(
            "\"is\":{},\"bool\":{},\"num\":{},\"str\":{},\"empty\":{},\"len\":{},\"reads\":{},\"hk\":{},\"ct\":{}",
            is(&v),
            opt(v.as_bool().map(vbool)),
            opt(v.as_number().map(|n| num(&n))),
            opt(v.as_str().map(vstr)),
            v.is_empty(),
            v.len(),
            bools(&reads),
            hk,
            ct
        )
    });
}

/// A value equal to v, or almost.
pub fn vary(r: &mut Rng, v: &JsonValue) -> JsonValue {
    // same contents, other form
    let reform = |r: &mut Rng, v: &JsonValue| -> JsonValue {
        match *v {
            JsonValue::Short(_) | JsonValue::String(_) => {
                let s = v.as_str().unwrap().to_string();
                genval::string_value(r, &s)
            }
            JsonValue::Number(n) if !n.is_nan() => {
                let (p, m, e) = n.as_parts();
                if m == 0 {
                    return JsonValue::Number(genval::raw(r.bool(), 0, genval::exponent(r)));
                }
                if m % 10 == 0 && e < 32767 && r.bool() {
                    return JsonValue::Number(genval::raw(p, m / 10, e + 1));
                }
                match m.checked_mul(10) {
                    Some(m10) if e > -32768 => JsonValue::Number(genval::raw(p, m10, e - 1)),
                    _ => v.clone(),
                }
            }
            _ => v.clone(),
        }
    };
    match *v {
        JsonValue::Array(ref a) => {
            let mut b: Vec<JsonValue> = a.clone();
            match r.below(7) {
                0 if !b.is_empty() => {
                    b.pop();
                }
                1 => b.push(JsonValue::Null),
                2 if b.len() > 1 => {
                    let i = r.below(b.len() - 1);
                    b.swap(i, i + 1)
                }
                3 => return JsonValue::Object(b.into_iter().enumerate().map(|(i, x)| (i.to_string(), x)).collect()),
                _ if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] = vary(r, &b[i].clone());
                }
                _ => {}
            }
            JsonValue::Array(b)
        }
        JsonValue::Object(ref o) => {
            let mut kv: Vec<(String, JsonValue)> = o.iter().map(|(k, x)| (k.to_string(), x.clone())).collect();
            let mut keep = false;
            match r.below(9) {
                0 if !kv.is_empty() => {
                    let i = r.below(kv.len());
                    kv[i].0.push('\0');
                }
                1 if !kv.is_empty() => {
                    // another member instead
                    let i = r.below(kv.len());
                    kv.remove(i);
                    kv.push((genval::key(r), JsonValue::Null));
                }
                2 => kv.push((genval::key(r), JsonValue::Null)),
                3 if !kv.is_empty() => {
                    kv.pop();
                }
                4 if kv.len() > 1 => {
                    // the values of two members exchanged
                    let (i, j) = (r.below(kv.len()), r.below(kv.len()));
                    let (a, b) = (kv[i].1.clone(), kv[j].1.clone());
                    kv[i].1 = b;
                    kv[j].1 = a;
                }
                5 if !kv.is_empty() => {
                    let i = r.below(kv.len());
                    let x = vary(r, &kv[i].1.clone());
                    kv[i].1 = x;
                }
                6 => keep = true,
                7 => return JsonValue::Array(kv.into_iter().map(|x| x.1).collect()),
                _ => {}
            }
            if !keep {
                r.shuffle(&mut kv);
            }
            JsonValue::Object(kv.into_iter().collect())
        }
        _ => match r.below(8) {
            0 => genval::leaf(r, true),
            1 => match v.as_str() {
                Some(s) => JsonValue::from(format!("{}\0", s)),
                None => JsonValue::Null,
            },
            2 => match v.as_str() {
                Some(s) => {
                    let mut c: Vec<char> = s.chars().collect();
                    if !c.is_empty() {
                        let i = r.below(c.len());
                        c[i] = 'q';
                    }
                    JsonValue::from(c.into_iter().collect::<String>())
                }
                None => JsonValue::from(0),
            },
            3 => match *v {
                JsonValue::Boolean(b) => JsonValue::Boolean(!b),
                JsonValue::Number(n) if !n.is_nan() => {
                    let (p, m, e) = n.as_parts();
                    match r.below(4) {
                        0 => JsonValue::Number(genval::raw(!p, m, e)),
                        1 => JsonValue::Number(genval::raw(p, m ^ 1, e)),
                        2 => JsonValue::Number(genval::raw(p, m, e.wrapping_add(1))),
                        _ => JsonValue::from(v.dump()),
                    }
                }
                JsonValue::Null => JsonValue::Boolean(false),
                _ => JsonValue::Null,
            },
            _ => reform(r, v),
        },
    }
}

/// Two values that differ in one small thing at one place, or in nothing but
/// how they are held.
pub fn near(r: &mut Rng, v: &JsonValue) -> JsonValue {
    match *v {
        JsonValue::Array(ref a) if !a.is_empty() => {
            let i = r.below(a.len());
            let mut a = a.clone();
            a[i] = near(r, &a[i]);
            JsonValue::Array(a)
        }
        JsonValue::Object(ref o) if !o.is_empty() => {
            let mut kv: Vec<(String, JsonValue)> = o.iter().map(|(k, x)| (k.to_string(), x.clone())).collect();
            let i = r.below(kv.len());
            if r.chance(1, 3) {
                kv[i].0 = near_text(r, &kv[i].0);
            } else {
                kv[i].1 = near(r, &kv[i].1);
            }
            if r.bool() {
                r.shuffle(&mut kv);
            }
            JsonValue::Object(kv.into_iter().collect())
        }
        JsonValue::Short(_) | JsonValue::String(_) => {
            let t = near_text(r, v.as_str().unwrap());
            genval::string_value(r, &t)
        }
        JsonValue::Number(n) if !n.is_nan() => {
            let (p, m, e) = n.as_parts();
            let step = *r.pick(&[1u64, 2, 10, 1 << 8, 1 << 16, 1 << 32, 1 << 52, 1 << 63]);
            JsonValue::Number(match r.below(6) {
                0 => genval::raw(!p, m, e),
                1 => genval::raw(p, m.wrapping_add(step), e),
                2 => genval::raw(p, m.wrapping_sub(step), e),
                3 => genval::raw(p, m, e.wrapping_add(*r.pick(&[1, -1, 2, 256, -256, 8, 16]))),
                4 => genval::raw(p, m / 10, e.saturating_add(1)),
                _ => genval::raw(p, m.wrapping_mul(10).wrapping_add(r.below(2) as u64), e.saturating_sub(1)),
            })
        }
        _ => vary(r, v),
    }
}
fn near_text(r: &mut Rng, s: &str) -> String {
    for (a, b) in crate::obj::PAIRS {
        if s.starts_with(a) && r.chance(2, 3) {
            return s.replacen(a, b, 1);
        }
    }
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    let at = if n == 0 { 0 } else if r.chance(1, 3) { n - 1 } else { r.below(n) };
    match r.below(9) {
        0 | 1 if n > 0 => {
            // another character of the same width
            c[at] = match c[at] as u32 {
                0..=0x7f => *r.pick(&['a', 'b', '\0', '~']),
                0x80..=0x7ff => '\u{e8}',
                0x800..=0xffff => '\u{20ac}',
                _ => '\u{1f601}',
            }
        }
        2 if n > 0 => {
            c.remove(at);
        }
        3 => c.insert(at, *r.pick(&['\0', 'a', ' '])),
        4 if n > 1 => c.swap(at, at.max(1) - 1),
        5 if n > 0 => c[at] = if c[at].is_uppercase() { c[at].to_ascii_lowercase() } else { c[at].to_ascii_uppercase() },
        6 => c.push('\0'),
        7 if n > 0 => c.truncate(at),
        _ => {}
    }
    c.into_iter().collect()
}
fn near_pair(r: &mut Rng) -> (JsonValue, JsonValue) {
    let a = match r.below(6) {
        5 => {
            // keys that hash alike
            let mut o = Object::new();
            for (a, b) in crate::obj::PAIRS.iter().take(1 + r.below(5)) {
                let end = "z".repeat(r.below(2) * r.below(30));
                o.insert(&format!("{}{}", a, end), genval::leaf(r, false));
                if r.chance(1, 4) {
                    o.insert(&format!("{}{}", b, end), genval::leaf(r, false));
                }
            }
            if r.bool() { JsonValue::Array(vec![JsonValue::Object(o)]) } else { JsonValue::Object(o) }
        }
        0 => {
            // strings about as long as an inline one may be
            let n = *r.pick(&[1usize, 7, 8, 9, 15, 16, 17, 18, 23, 24, 25, 28, 29, 30, 31, 32, 33, 40, 64, 65, 255, 256, 257]);
            let s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'd'])).collect();
            let s = if r.chance(1, 4) { s.replace('a', "\u{e9}") } else { s };
            genval::string_value(r, &s)
        }
        1 => JsonValue::Number(genval::number(r)),
        2 => {
            let (array, n) = (r.bool(), 1 + r.below(40));
            container(r, array, n)
        }
        _ => lived(r),
    };
    let b = near(r, &a);
    if r.bool() { (a, b) } else { (b, a) }
}

pub fn eqs(cx: &mut Ctx, a: JsonValue, b: JsonValue) {
    let before = format!("\"a\":{},\"b\":{}", val(&a), val(&b));
    cx.event("eqs", before, || {
        let (ra, rb) = (&a, &b);
        let mut eq = vec![a == b, b == a, ra == rb, a.clone() == b, a == b.clone()];
        let mut ne = vec![a != b, b != a, ra != rb];
        let arr = JsonValue::Array(vec![b.clone()]);
        eq.push(arr.contains(a.clone()));
        eq.push(JsonValue::Array(vec![a.clone()]) == arr);
        eq.push(json::object! { k: a.clone() } == json::object! { k: b.clone() });
        ne.push(json::object! { k: a.clone() } != json::object! { k: b.clone() });
        if let (&JsonValue::Object(ref x), &JsonValue::Object(ref y)) = (&a, &b) {
            eq.push(x == y);
            eq.push(y == x);
            ne.push(x != y);
        }
        if let JsonValue::Object(ref y) = b {
            eq.push(a == *y);
            eq.push(*y == a);
            eq.push(ra == *y);
        }
        if let (Some(x), Some(y)) = (a.as_number(), b.as_number()) {
            eq.push(x == y);
            eq.push(a == y);
            eq.push(x == b);
            ne.push(x != y);
        }
        if let (&JsonValue::Array(ref x), &JsonValue::Array(ref y)) = (&a, &b) {
            eq.push(x == y);
        }
        format!("\"eq\":{},\"ne\":{}", bools(&eq), bools(&ne))
    });
}

fn prim(cx: &mut Ctx, v: JsonValue) {
    let r = &mut cx.rng;
    let mut nums: Vec<i64> = vec![0, 1, -1, r.range(-200, 300), r.u64() as i64, i64::MAX, i64::MIN];
    let mut strs: Vec<String> = vec![String::new(), "a".into(), genval::text(r), "null".into(), "true".into(), "0".into(), v.to_string(), v.dump()];
    let mut floats: Vec<f64> = vec![0.0, -0.0, f64::NAN, genval::float(r)];
    if let Some(s) = v.as_str() {
        strs.push(s.to_string());
        strs.push(format!("{} ", s));
    }
    if let Some(x) = v.as_i64() {
        nums.push(x);
        nums.push(x.wrapping_add(1));
        nums.push(x.wrapping_add(256)); // the same low bits
        nums.push(x.wrapping_add(1 << 32));
    }
    if let Some(f) = v.as_f64() {
        floats.push(f);
        floats.push(f64::from_bits(f.to_bits().wrapping_add(1)));
    }
    let other = genval::any(r);
    let mut objs: Vec<Object> = vec![Object::new()];
    let mut numbers: Vec<Number> = vec![genval::number(r)];
    for x in [&v, &other] {
        if let JsonValue::Object(ref o) = *x {
            objs.push(o.clone());
        }
        if let JsonValue::Number(n) = *x {
            numbers.push(n);
        }
    }
    let before = format!("\"v\":{}", val(&v));
    cx.event("prim", before, || {
        let mut ps: Vec<String> = Vec::new();
        let rv = &v;
        {
            let mut put = |kind: &str, x: String, rs: &[bool]| ps.push(format!("{{\"kind\":\"{}\",\"x\":{},\"r\":{}}}", kind, x, bools(rs)));
            for b in [false, true] {
                put("bool", vbool(b), &[v == b, b == v, rv == b, !(v != b), !(b != v)]);
            }
            for s in &strs {
                let st: &str = s;
                put("str", vstr(s), &[v == *st, v == st, *st == v, st == v, v == *s, *s == v, rv == *s, !(v != st), !(st != v), !(v != *s)]);
            }
            for &x in &nums {
                macro_rules! int {
                    ($($t:ty),*) => { $(
                        let y = x as $t;
                        put("int", vint(y as i128), &[v == y, y == v, rv == y, !(v != y), !(y != v)]);
                    )* };
                }
                int!(i64, u64, i32, u32, i16, u16, i8, u8, isize, usize);
            }
            for o in &objs {
                put("obj", obj(o), &[v == *o, *o == v, rv == *o, !(v != *o)]);
            }
            for n in &numbers {
                put("num", num(n), &[v == *n, *n == v, rv == *n, !(v != *n)]);
            }
        }
        for &f in &floats {
            let w = v.as_f64().map_or(false, |x| x == f);
            ps.push(format!(
                "{{\"kind\":\"float\",\"w\":{},\"x\":0,\"r\":{}}}",
                w,
                bools(&[v == f, f == v, rv == f, !(v != f)])
            ));
            let g = f as f32;
            let w = v.as_f32().map_or(false, |x| x == g);
            ps.push(format!("{{\"kind\":\"float\",\"w\":{},\"x\":0,\"r\":{}}}", w, bools(&[v == g, g == v, rv == g, !(v != g)])));
        }
        format!("\"ps\":[{}]", ps.join(","))
    });
}

// ------------------------------------------------------------------ C18
fn forms(s: &str) -> Vec<JsonValue> {
    let mut v = vec![JsonValue::String(s.to_string()), JsonValue::from(s), JsonValue::from(s.to_string()), s.into(), Some(s).into()];
    if s.len() <= json::short::MAX_LEN {
        v.push(JsonValue::Short(unsafe { Short::from_slice(s) }));
    }
    let text = JsonValue::from(s).dump();
    v.push(json::parse(&text).unwrap());
    let escaped = format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{:04x}", u)).collect::<String>());
    v.push(json::parse(&escaped).unwrap());
    v.push(json::parse(&format!("[{}]", text)).unwrap()[0].take());
    // grown, shrunk and shared buffers
    let mut long = String::with_capacity(s.len() + 100);
    long.push_str(s);
    v.push(JsonValue::String(long));
    v.push(json::array![s].pop());
    v.push(json::object! { "k": s.to_string() }["k"].clone());
    v
}
pub fn strs(cx: &mut Ctx, s: &str, t: &str) {
    let before = format!("\"s\":{},\"t\":{}", cps(s), cps(t));
    cx.event("strs", before, || {
        let other = forms(t);
        let obs = list(&forms(s), |v| {
            let mut same: Vec<bool> = forms(s).iter().flat_map(|w| vec![v == w, w == v, !(v != w), json::array![w.clone()].contains(v.clone())]).collect();
            let so = s.to_string();
            same.extend([*v == *s, *v == s, *s == *v, s == *v, *v == so, so == *v, v == so, !(*v != s), !(s != *v), !(*v != so)]);
            let arr = json::array![1, v.clone()];
            same.extend([arr.contains(s), arr.contains(so.clone()), arr == json::array![1, s], json::object! { a: v.clone() } == json::object! { a: so.clone() }]);
            if let JsonValue::Short(ref h) = *v {
                // the inline form by itself
                let h2 = *h;
                same.extend([*h == *s, *s == *h, *h == so, so == *h, *h == h2, !(*h != *s), !(so != *h)]);
                same.extend([&**h == s, String::from(h2) == so, h.to_string() == so, h.len() == s.len(), h.chars().eq(s.chars()), format!("{:>35}", h) == format!("{:>35}", s)]);
            }
            let mut oth: Vec<bool> = other.iter().flat_map(|w| vec![v == w, w == v, json::array![w.clone()].contains(v.clone())]).collect();
            let to = t.to_string();
            oth.extend([*v == *t, *v == t, *t == *v, t == *v, *v == to, to == *v, v == to, arr.contains(t), arr.contains(to.clone())]);
            if let JsonValue::Short(ref h) = *v {
                oth.extend([*h == *t, *t == *h, *h == to, to == *h]);
                oth.extend(other.iter().filter_map(|w| if let JsonValue::Short(ref g) = *w { Some(h == g) } else { None }));
            }
            let mut differs: Vec<bool> = other.iter().flat_map(|w| vec![v != w, w != v]).collect();
            differs.extend([*v != *t, *v != t, *t != *v, t != *v, *v != to, to != *v]);
            let not = [
                v.has_key(s), v.contains(s), v.contains(v.clone()), v.as_bool().is_some(), v.as_number().is_some(), v.as_f64().is_some(),
                *v == 0, *v == true, *v == JsonValue::Null, v.members().next().is_some(), v.entries().next().is_some(), !v["a"].is_null(), !v[0].is_null(),
            ];
            let mut tk = v.clone();
            let taken = tk.take_string();
            let mut cl = v.clone();
            cl.clear();
            let mut used = v.clone();
            let moved = used.take();
            let mut over = [JsonValue::from("another text"), "another text, long enough for the heap".into(), json::array![1], JsonValue::Null];
            over.iter_mut().for_each(|o| o.clone_from(v));
            let [o1, o2, o3, o4] = over;
            let clones = [o1, o2, o3, o4, v.clone(), v.clone().clone(), moved, json::array![v.clone()][0].clone(), json::from(v.clone())];
            let fmts = format!("{:>40}|{:<33}|{:.3}|{:^35.31}|{:*^9}", v, v, v, v, v);
            let disp = v.to_string();
            let mut out = Vec::new();
            v.write(&mut out).unwrap();
            let dumps = [v.dump(), v.pretty(2), format!("{:#}", v), json::stringify(v.clone()), json::stringify_pretty(v.clone(), 4), String::from_utf8(out).unwrap()];
            let mut extra = dumps.to_vec();
            // the text as a key and inside containers
            let a = json::array![v.clone()].dump();
            extra.push(a[1..a.len() - 1].to_string());
            format!(
                "{{\"is\":{},\"as\":{},\"empty\":{},\"len\":{},\"self\":{},\"other\":{},\"differs\":{},\"not\":{},\"taken\":{},\"left\":{},\"cleared\":{},\"clearedeq\":{},\"clearedempty\":{},\"disp\":{},\"fmts\":{},\"dumps\":{},\"clones\":{}}}",
                is(v),
                cps(v.as_str().unwrap()),
                v.is_empty(),
                v.len(),
                bools(&same),
                bools(&oth),
                bools(&differs),
                bools(&not),
                opt(taken.as_ref().map(|s| vstr(s))),
                val(&tk),
                val(&cl),
                bools(&[cl == "", cl == *"", cl == String::new(), "" == cl, cl == JsonValue::from(""), JsonValue::String(String::new()) == cl]),
                cl.is_empty(),
                cps(&disp),
                cps(&fmts),
                list(&extra, |d| cps(d)),
                list(&clones, val)
            )
        });
        format!("\"obs\":{}", obs)
    });
}
fn string_pair(r: &mut Rng) -> (String, String) {
    let s = match r.below(4) {
        0 => genval::text(r),
        1 => {
            let c = *r.pick(&["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "\0", "\"", "\n"]);
            let n = r.below(36) / c.len() * 1 + r.below(2);
            c.repeat(n)
        }
        2 => {
            // around the limit, characters straddling it
            let n = 24 + r.below(9);
            let tail = *r.pick(&["", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{1f600}\u{1f600}", "z"]);
            format!("{}{}", "x".repeat(n), tail)
        }
        _ => "abcdefghijklmnopqrstuvwxyz0123456789"[..r.below(37)].to_string(),
    };
    let t = match r.below(7) {
        0 => s.clone(),
        1 => format!("{}a", s),
        2 => format!("{}\0", s),
        3 => {
            let mut c: Vec<char> = s.chars().collect();
            c.pop();
            c.into_iter().collect()
        }
        4 => {
            let mut c: Vec<char> = s.chars().collect();
            if !c.is_empty() {
                let i = r.below(c.len());
                c[i] = 'Q';
            }
            c.into_iter().collect()
        }
        5 => String::new(),
        _ => genval::text(r),
    };
    (s, t)
}

// ------------------------------------------------------------------ C21
/// What a piece of Rust data denotes, said without the crate.
trait Denote {
    fn d(&self) -> String;
}
macro_rules! denote_int { ($($t:ty),*) => { $( impl Denote for $t { fn d(&self) -> String { vint(*self as i128) } } )* } }
denote_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl Denote for bool {
    fn d(&self) -> String {
        vbool(*self)
    }
}
impl<'a> Denote for &'a str {
    fn d(&self) -> String {
        vstr(self)
    }
}
impl Denote for String {
    fn d(&self) -> String {
        vstr(self)
    }
}
impl Denote for JsonValue {
    fn d(&self) -> String {
        val(self)
    }
}
impl Denote for Number {
    fn d(&self) -> String {
        num(self)
    }
}
impl Denote for Object {
    fn d(&self) -> String {
        val(&JsonValue::Object(self.clone()))
    }
}
impl<T: Denote> Denote for Option<T> {
    fn d(&self) -> String {
        match *self {
            Some(ref x) => x.d(),
            None => "{\"t\":\"null\"}".into(),
        }
    }
}
impl<T: Denote> Denote for Vec<T> {
    fn d(&self) -> String {
        format!("{{\"t\":\"arr\",\"a\":{}}}", list(self, |x| x.d()))
    }
}
fn slice_d<T: Denote>(xs: &[T]) -> String {
    format!("{{\"t\":\"arr\",\"a\":{}}}", list(xs, |x| x.d()))
}
fn conv<T: Denote + Into<JsonValue> + Clone>(cx: &mut Ctx, x: T)
where
    JsonValue: From<T>,
{
    let before = format!("\"kind\":\"same\",\"x\":{}", x.d());
    cx.event("conv", before, || {
        let mut arr = JsonValue::new_array();
        arr.push(x.clone()).unwrap();
        let mut ob = JsonValue::new_object();
        ob.insert("k", x.clone()).unwrap();
        let got = [
            JsonValue::from(x.clone()),
            x.clone().into(),
            json::from(x.clone()),
            arr.pop(),
            ob.remove("k"),
            Some(x.clone()).into(),
            <JsonValue as From<Vec<T>>>::from(vec![x.clone()]).pop(),
            <JsonValue as From<&[T]>>::from(&[x.clone()][..]).pop(),
            json::array![x.clone()][0].take(),
            json::object! { "k" => x.clone() }["k"].take(),
            json::object! { k: x.clone() }["k"].take(),
            vec![("k", x.clone())].into_iter().collect::<Object>()["k"].clone(),
        ];
        result(&got, || (json::stringify(x.clone()), json::stringify_pretty(x, 2)))
    });
}
fn result<F: FnOnce() -> (String, String)>(got: &[JsonValue], f: F) -> String {
    let (s, p) = f();
    format!("\"got\":{},\"texts\":[{}],\"pretties\":[{}]", list(got, val), cps(&s), cps_rle(&p))
}
fn slices<T: Denote + Into<JsonValue> + Clone>(cx: &mut Ctx, xs: Vec<T>) {
    let before = format!("\"kind\":\"same\",\"x\":{}", slice_d(&xs));
    cx.event("conv", before, || {
        let got = [JsonValue::from(&xs[..]), JsonValue::from(xs.clone()), json::from(&xs[..]), JsonValue::Array(xs.iter().cloned().map(|x| x.into()).collect())];
        result(&got, || (json::stringify(&xs[..]), json::stringify_pretty(xs.clone(), 2)))
    });
}
/// Items that are the same or differ in few bits.
macro_rules! alike_ints {
    ($cx:ident, $($t:ty),*) => {{ $(
        let n = 2 + $cx.rng.below(12);
        let mut x = $cx.rng.u64() as $t;
        let xs: Vec<$t> = (0..n)
            .map(|_| {
                match $cx.rng.below(4) {
                    0 => {}
                    1 => x = x.wrapping_neg(),
                    _ => x ^= (1 as $t) << $cx.rng.below(<$t>::BITS as usize),
                }
                x
            })
            .collect();
        slices($cx, xs);
    )* }}
}
/// A value equal to v or almost.
pub fn like(r: &mut Rng, v: &JsonValue) -> JsonValue {
    if r.chance(1, 3) { near(r, v) } else { vary(r, v) }
}
/// Maps and lists of pairs whose values are to be converted.
fn typed<T: Denote + Into<JsonValue> + Clone>(cx: &mut Ctx, xs: Vec<T>) {
    let r = &mut cx.rng;
    let mut ks: Vec<String> = xs.iter().enumerate().map(|(i, _)| if r.bool() { format!("k{}", i) } else { format!("{}{}", genval::key(r), i) }).collect();
    let h: HashMap<&str, T> = ks.iter().map(|k| &k[..]).zip(xs.iter().cloned()).collect();
    let before = format!("\"kind\":\"pairs\",\"ks\":{},\"vs\":{}", list(&h.keys().collect::<Vec<_>>(), |k| cps(k)), list(&h.values().collect::<Vec<_>>(), |x| x.d()));
    cx.event("conv", before, || {
        let o: Object = h.iter().map(|(k, x)| (*k, x.clone())).collect();
        let v = JsonValue::from(h);
        let t = (v.dump(), json::stringify_pretty(v.clone(), 2));
        result(&[v, o.into()], || t)
    });
    let b: BTreeMap<String, T> = ks.iter().cloned().zip(xs.iter().cloned()).collect();
    let before = format!("\"kind\":\"pairs\",\"ks\":{},\"vs\":{}", list(&b.keys().collect::<Vec<_>>(), |k| cps(k)), list(&b.values().collect::<Vec<_>>(), |x| x.d()));
    cx.event("conv", before, || result(&[JsonValue::from(b.clone()), json::from(b.clone())], || (json::stringify(b.clone()), json::stringify_pretty(b, 2))));
    // keys that come again
    for i in 1..ks.len() {
        if i % 3 == 0 {
            ks[i] = ks[i / 2].clone();
        }
    }
    let before = format!("\"kind\":\"pairs\",\"ks\":{},\"vs\":{}", list(&ks, |k| cps(k)), list(&xs, |x| x.d()));
    cx.event("conv", before, || {
        let o: Object = ks.iter().zip(xs.iter().cloned()).collect();
        let v = JsonValue::from(o);
        let t = (v.dump(), json::stringify_pretty(v.clone(), 2));
        result(&[v, JsonValue::Object(ks.into_iter().zip(xs).collect())], || t)
    });
}
fn pairs(cx: &mut Ctx, ps: Vec<(String, JsonValue)>) {
    let before = |ps: &[(String, JsonValue)]| format!("\"kind\":\"pairs\",\"ks\":{},\"vs\":{}", list(ps, |p| cps(&p.0)), list(ps, |p| val(&p.1)));
    let b = before(&ps);
    let qs = ps.clone();
    cx.event("conv", b, || {
        let mut byhand = Object::new();
        for (k, x) in &qs {
            byhand.insert(k, x.clone());
        }
        let got = [
            JsonValue::Object(qs.clone().into_iter().collect()),
            JsonValue::Object(qs.iter().map(|p| (&p.0[..], p.1.clone())).collect()),
            JsonValue::Object(qs.iter().map(|p| (&p.0, p.1.clone())).filter(|_| true).collect()),
            // no upper bound; bounds that are far off
            JsonValue::Object(qs.iter().flat_map(|p| Some((&p.0, p.1.clone()))).collect()),
            JsonValue::Object({
                let mut left = qs.iter();
                std::iter::from_fn(|| left.next().map(|p| (p.0.clone(), p.1.clone()))).collect()
            }),
            JsonValue::Object(qs.iter().map(|p| (&p.0, p.1.clone())).chain(std::iter::repeat((&String::new(), JsonValue::Null)).take_while(|_| false)).collect()),
            JsonValue::from(qs.clone().into_iter().collect::<Object>()),
            byhand.into(),
        ];
        result(&got, || (json::stringify(qs.iter().cloned().collect::<Object>()), json::stringify_pretty(qs.into_iter().collect::<Object>(), 2)))
    });
    // maps, in the order they iterate
    let h: HashMap<String, JsonValue> = ps.iter().cloned().collect();
    let inorder: Vec<(String, JsonValue)> = h.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let b = before(&inorder);
    cx.event("conv", b, || {
        let v = JsonValue::from(h);
        let t = (v.dump(), v.pretty(2));
        result(&[v], || t)
    });
    let h: BTreeMap<String, JsonValue> = ps.into_iter().collect();
    let inorder: Vec<(String, JsonValue)> = h.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let b = before(&inorder);
    cx.event("conv", b, || {
        let got = [JsonValue::from(h.clone()), json::from(h.clone()), JsonValue::from(h.iter().map(|(k, v)| (&k[..], v.clone())).collect::<BTreeMap<&str, JsonValue>>())];
        result(&got, || (json::stringify(h.clone()), json::stringify_pretty(h, 2)))
    });
}
fn conversions(cx: &mut Ctx) {
    let r = &mut cx.rng;
    let n = r.below(6);
    match r.below(20) {
        0 => {
            let b = r.bool();
            let x = genval::number(r);
            let sh = genval::Shape { depth: 1, width: 3, nan: true };
            let o = genval::object(r, &sh, 1, n);
            conv(cx, b);
            conv(cx, x);
            conv(cx, o)
        }
        12 => {
            alike_ints!(cx, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize)
        }
        13 => {
            let mut x = genval::leaf(r, true);
            let xs: Vec<JsonValue> = (0..2 + r.below(8))
                .map(|_| {
                    x = if r.chance(1, 3) { x.clone() } else { like(r, &x) };
                    x.clone()
                })
                .collect();
            let ts: Vec<String> = xs.iter().filter_map(|x| x.as_str()).map(String::from).collect();
            let ns: Vec<Number> = xs.iter().filter_map(|x| x.as_number()).collect();
            slices(cx, xs);
            slices(cx, ts.iter().map(|t| &t[..]).collect::<Vec<&str>>());
            slices(cx, ts);
            slices(cx, ns);
        }
        14 => {
            let xs: Vec<i64> = (0..n).map(|_| (r.u64() >> r.below(64)) as i64 * r.range(-1, 1)).collect();
            match r.below(5) {
                0 => typed(cx, xs),
                1 => typed(cx, xs.iter().map(|x| *x as u8).collect::<Vec<_>>()),
                2 => typed(cx, xs.iter().map(|x| x % 2 == 0).collect::<Vec<_>>()),
                3 => typed(cx, xs.iter().map(|x| if x % 2 == 0 { Some(vec![*x]) } else { None }).collect::<Vec<_>>()),
                _ => typed(cx, xs.iter().map(|x| x.to_string().repeat(*x as usize % 4)).collect::<Vec<_>>()),
            }
        }
        1 => {
            let s = genval::text(r);
            conv(cx, s.clone());
            conv(cx, &s[..])
        }
        2 => {
            let s = "s".repeat(*r.pick(&[0usize, 29, 30, 31, 32, 33, 64]));
            conv(cx, &s[..]);
            conv(cx, s)
        }
        3 => {
            let x = (r.u64() >> r.below(64)) as i64 * r.range(-1, 1);
            macro_rules! each { ($($t:ty),*) => { $( conv(cx, x as $t); )* } }
            each!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
        }
        4 => {
            let edges: [i128; 12] = [
                i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, i16::MIN as i128,
                u16::MAX as i128, i8::MIN as i128, u8::MAX as i128, 0, -1,
            ];
            let x = *r.pick(&edges);
            macro_rules! each { ($($t:ty),*) => { $( conv(cx, x as $t); )* } }
            each!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
        }
        5 => {
            let x: Option<i64> = if r.bool() { Some(r.range(-9, 9)) } else { None };
            let y: Option<Option<&str>> = *r.pick(&[None, Some(None), Some(Some("x"))]);
            conv(cx, x);
            conv(cx, y)
        }
        6 => {
            let xs: Vec<i32> = (0..n).map(|_| r.range(-999, 999) as i32).collect();
            conv(cx, xs.clone());
            slices(cx, xs)
        }
        7 => {
            let xs: Vec<Option<String>> = (0..n).map(|_| if r.bool() { Some(genval::text(r)) } else { None }).collect();
            conv(cx, xs.clone());
            slices(cx, xs)
        }
        8 => {
            let xs: Vec<Vec<u64>> = (0..n).map(|_| (0..r.below(4)).map(|_| genval::mantissa(r)).collect()).collect();
            conv(cx, xs.clone());
            slices(cx, xs)
        }
        9 => {
            let xs: Vec<bool> = (0..n).map(|_| r.bool()).collect();
            slices(cx, xs);
        }
        10 => {
            let xs: Vec<JsonValue> = (0..n).map(|_| genval::any(r)).collect();
            conv(cx, xs.clone());
            slices(cx, xs)
        }
        11 => {
            // floats: the number they convert to
            let f = genval::float(r);
            let x = JsonValue::Number(Number::from(f));
            let before = format!("\"kind\":\"same\",\"x\":{}", val(&x));
            cx.event("conv", before, || {
                let got = [JsonValue::from(f), f.into(), json::from(f), JsonValue::from(Some(f)), JsonValue::from(vec![f]).pop(), json::array![f][0].take()];
                result(&got, || (json::stringify(f), json::stringify_pretty(f, 2)))
            });
            let g = f as f32;
            let x = JsonValue::Number(Number::from(g));
            let before = format!("\"kind\":\"same\",\"x\":{}", val(&x));
            cx.event("conv", before, || {
                let got = [JsonValue::from(g), g.into(), json::from(g), JsonValue::from(&[g][..]).pop()];
                result(&got, || (json::stringify(g), json::stringify_pretty(g, 2)))
            });
        }
        _ => {
            let n = if r.chance(1, 8) { 20 + r.below(40) } else { r.below(9) };
            let few = r.bool();
            let ps: Vec<(String, JsonValue)> = (0..n)
                .map(|_| {
                    let k = if few { format!("k{}", r.below(4)) } else { genval::key(r) };
                    (k, genval::leaf(r, true))
                })
                .collect();
            pairs(cx, ps)
        }
    }
}

// ------------------------------------------------------------------ C24
pub const KINDS: [&str; 6] = ["members", "members_mut", "entries", "entries_mut", "iter", "iter_mut"];
pub fn iterate(cx: &mut Ctx, mut v: JsonValue, kind: &str, script: &[u8]) {
    let before = format!("\"v\":{},\"kind\":\"{}\",\"script\":{}", val(&v), kind, list(script, |x| x.to_string()));
    let none = [
        json::object::Iter::empty().next().is_none(),
        json::object::IterMut::empty().next().is_none(),
        json::object::Iter::empty().next_back().is_none(),
        json::object::IterMut::empty().next_back().is_none(),
        json::object::Iter::empty().len() == 0,
        json::object::IterMut::empty().len() == 0,
    ];
    cx.event("iter", before, || {
        let mut got: Vec<String> = Vec::new();
        let mut new = 1000i64;
        macro_rules! run {
            ($it:expr, $take:expr) => {{
                let mut it = $it;
                let mut take = $take;
                let some = |x: Option<String>| match x {
                    Some(x) => format!("{{\"is\":\"item\",{}}}", x),
                    None => "{\"is\":\"none\"}".to_string(),
                };
                let mut done = false;
                for &c in script {
                    match c {
                        1 => got.push(some(it.next().map(&mut take))),
                        2 => got.push(some(it.next_back().map(&mut take))),
                        3 => got.push(format!("{{\"is\":\"n\",\"n\":{}}}", it.len())),
                        4 => got.push({
                            let (least, most) = it.size_hint();
                            format!("{{\"is\":\"n\",\"n\":{}}}", if most == Some(least) { least as i64 } else { -1 })
                        }),
                        10..=19 => got.push(some(it.nth(c as usize - 10).map(&mut take))),
                        40..=49 => got.push({
                            let mut k = c as usize - 40;
                            some(it.find(|_| { k = k.wrapping_sub(1); k == usize::MAX }).map(&mut take))
                        }),
                        50..=59 => got.push({
                            let mut k = c as usize - 50;
                            some(it.rfind(|_| { k = k.wrapping_sub(1); k == usize::MAX }).map(&mut take))
                        }),
                        60..=69 => got.push({
                            let mut k = c as usize - 60;
                            match it.position(|_| { k = k.wrapping_sub(1); k == usize::MAX }) {
                                Some(i) => format!("{{\"is\":\"n\",\"n\":{}}}", i),
                                None => some(None),
                            }
                        }),
                        30..=39 => got.push(some(it.nth_back(c as usize - 30).map(&mut take))),
                        _ => done = true,
                    }
                    if done {
                        break;
                    }
                }
                if done {
                    let braced = |x: String| format!("{{{}}}", x);
                    got.push(match script[script.len() - 1] {
                        20 => format!("{{\"is\":\"n\",\"n\":{}}}", it.count()),
                        21 => some(it.last().map(&mut take)),
                        24 | 25 => {
                            let mut xs: Vec<String> = Vec::new();
                            if script[script.len() - 1] == 24 {
                                it.for_each(|x| xs.push(braced(take(x))));
                            } else {
                                it.rev().for_each(|x| xs.push(braced(take(x))));
                            }
                            format!("{{\"is\":\"all\",\"xs\":[{}]}}", xs.join(","))
                        }
                        26 | 27 => {
                            let f = |mut xs: Vec<String>, x: String| {
                                xs.push(x);
                                xs
                            };
                            let xs = if script[script.len() - 1] == 26 {
                                it.fold(Vec::new(), |xs, x| f(xs, braced(take(x))))
                            } else {
                                it.rfold(Vec::new(), |xs, x| f(xs, braced(take(x))))
                            };
                            format!("{{\"is\":\"all\",\"xs\":[{}]}}", xs.join(","))
                        }
                        22 => format!("{{\"is\":\"all\",\"xs\":[{}]}}", it.map(&mut take).map(braced).collect::<Vec<_>>().join(",")),
                        _ => format!("{{\"is\":\"all\",\"xs\":[{}]}}", it.rev().map(&mut take).map(braced).collect::<Vec<_>>().join(",")),
                    });
                }
            }};
        }
        fn one(x: &JsonValue) -> String {
            format!("\"k\":[],\"x\":{}", val(x))
        }
        fn two((k, x): (&str, &JsonValue)) -> String {
            format!("\"k\":{},\"x\":{}", cps(k), val(x))
        }
        let mut swap = |x: &mut JsonValue| {
            new += 1;
            *x = new.into();
        };
        match kind {
            "members" => run!(v.members(), one),
            "members_mut" => run!(v.members_mut(), |x: &mut JsonValue| {
                let s = one(x);
                swap(x);
                s
            }),
            "entries" => run!(v.entries(), two),
            "entries_mut" => run!(v.entries_mut(), |(k, x): (&str, &mut JsonValue)| {
                let s = two((k, x));
                swap(x);
                s
            }),
            "iter" => match v {
                JsonValue::Object(ref o) => run!(o.iter(), two),
                _ => run!(json::object::Iter::empty(), two),
            },
            _ => {
                let f = |(k, x): (&str, &mut JsonValue)| {
                    let s = two((k, x));
                    swap(x);
                    s
                };
                match v {
                    JsonValue::Object(ref mut o) => run!(o.iter_mut(), f),
                    _ => run!(json::object::IterMut::empty(), f),
                }
            }
        }
        format!("\"got\":[{}],\"post\":{},\"none\":{}", got.join(","), val(&v), bools(&none))
    });
}
pub fn container(r: &mut Rng, array: bool, n: usize) -> JsonValue {
    if array {
        JsonValue::Array((0..n).map(|i| if i % 3 == 2 { genval::leaf(r, true) } else { JsonValue::from(i) }).collect())
    } else {
        let keys = crate::obj::pool(r, n);
        let mut o = Object::new();
        for (i, k) in keys.iter().enumerate() {
            o.insert(k, if i % 3 == 2 { genval::leaf(r, true) } else { JsonValue::from(i) });
        }
        let mut i = 0;
        while o.len() < n {
            o.insert(&format!("filler {}", i), JsonValue::Null);
            i += 1;
        }
        JsonValue::Object(o)
    }
}
fn iteration(cx: &mut Ctx) {
    let r = &mut cx.rng;
    let n = if r.chance(1, 15) { r.below(60) } else { r.below(8) };
    let kind = *r.pick(&KINDS);
    let v = if r.chance(1, 8) {
        genval::any(r)
    } else {
        let array = kind.starts_with("mem") != r.chance(1, 20);
        container(r, array, n)
    };
    let len = r.below(2 * n + 6);
    let mut script: Vec<u8> = (0..len)
        .map(|_| match r.below(12) {
            0..=4 => 1,
            5..=8 => 2,
            9 => 3,
            10 => 4,
            _ => *r.pick(&[10u8, 30, 40, 50, 60]) + r.below(4) as u8,
        })
        .collect();
    if r.bool() {
        script.push(20 + r.below(8) as u8);
    }
    iterate(cx, v, kind, &script);
}

// ------------------------------------------------------------------ driver
/// A letter at `at` of `n` other letters.
fn marked(n: usize, at: usize, mark: char) -> String {
    (0..n).map(|i| if i == at { mark } else { (b'a' + (i % 23) as u8) as char }).collect()
}

/// Pairs that differ at one place only, each place in turn.
fn places(cx: &mut Ctx) {
    let lens: Vec<usize> = if cx.thorough { (1..80).chain([127, 128, 129, 255, 256, 257]).collect() } else { (1..36).chain([40, 63, 65]).collect() };
    for n in lens {
        for at in 0..n {
            let (s, t) = (marked(n, at, 'y'), marked(n, at, *cx.rng.pick(&['z', 'Y', '\0', '9'])));
            let r = &mut cx.rng;
            let (a, b) = match r.below(5) {
                0 => {
                    let o = |k: &str, other: bool| {
                        let mut kv = vec![("k".to_string(), JsonValue::Null), (k.to_string(), 1.into())];
                        if other {
                            kv.reverse();
                        }
                        JsonValue::Object(kv.into_iter().collect())
                    };
                    (o(&s, false), o(&t, r.bool()))
                }
                1 => {
                    let array = |x: i32| JsonValue::Array((0..n).map(|i| if i == at { x } else { i as i32 }.into()).collect());
                    (array(-1), array(-2))
                }
                _ => (genval::string_value(r, &s), genval::string_value(r, &t)),
            };
            eqs(cx, a, b);
        }
    }
    for bit in 0..64 {
        for (m, e) in [(0u64, 0i16), (1 << 63, 0), (123456789, -3), (0xaaaa_aaaa_aaaa_aaaa, 5), (u64::MAX, -1)] {
            eqs(cx, JsonValue::Number(genval::raw(true, m, e)), JsonValue::Number(genval::raw(true, m ^ (1 << bit), e)));
            if bit < 16 {
                eqs(cx, JsonValue::Number(genval::raw(false, m, e)), JsonValue::Number(genval::raw(false, m, e ^ (1 << bit) as i16)));
            }
        }
    }
}

pub fn drive(cx: &mut Ctx) {
    let prop = cx.prop.clone();
    if prop == "C19" {
        places(cx);
    }
    if prop == "C18" {
        for n in 1..36 {
            for at in 0..n {
                let (s, t) = (marked(n, at, 'y'), marked(n, at, *cx.rng.pick(&['z', 'Y', '\0', '9'])));
                if cx.rng.chance(1, 6) || n == 30 || n == 31 {
                    strs(cx, &s, &t);
                }
            }
        }
    }
    if prop == "C22" {
        for v in [JsonValue::Null, JsonValue::Boolean(false), JsonValue::Boolean(true), JsonValue::new_array(), JsonValue::new_object(), "".into(), 0.into()] {
            facts(cx, v);
        }
        for e in [0i16, 1, -1, 5, -5, 32767, -32768] {
            for p in [false, true] {
                for m in [0u64, 1, 10, u64::MAX] {
                    facts(cx, JsonValue::Number(genval::raw(p, m, e)));
                }
            }
        }
        facts(cx, JsonValue::Number(json::number::NAN));
        facts(cx, JsonValue::from(f64::NAN));
    }
    if prop == "C18" {
        // long ones
        for n in [255usize, 256, 1024, 4095, 4096] {
            if n < 300 || cx.rng.chance(1, 3) {
                let at = *cx.rng.pick(&[0, n / 2, n - 1]);
                let (s, t) = (marked(n, at, 'y'), marked(n, at, 'z'));
                strs(cx, &s, &t);
                let cut = s[..n - 1].to_string();
                strs(cx, &s, &cut);
            }
        }
        // every length around the limit, both forms, every width of character
        for n in 0..36 {
            let s = "a".repeat(n);
            strs(cx, &s, &"a".repeat(n + 1));
            strs(cx, &s, &s);
            let cut: String = s.chars().skip(1).collect();
            strs(cx, &format!("{}\u{e9}", cut), &s);
        }
    }
    for _ in 0..cx.n {
        match prop.as_str() {
            "C18" => {
                let (s, t) = string_pair(&mut cx.rng);
                strs(cx, &s, &t)
            }
            "C19" => match cx.rng.below(14) {
                8.. => {
                    let (a, b) = near_pair(&mut cx.rng);
                    eqs(cx, a, b)
                }
                0 => {
                    let v = lived(&mut cx.rng);
                    facts(cx, v)
                }
                1 => {
                    let v = lived(&mut cx.rng);
                    prim(cx, v)
                }
                2 => {
                    let v = genval::leaf(&mut cx.rng, true);
                    prim(cx, v)
                }
                3 => {
                    let (a, b) = (lived(&mut cx.rng), lived(&mut cx.rng));
                    eqs(cx, a, b)
                }
                4 => {
                    let k = 2 + cx.rng.below(6);
                    let a = container(&mut cx.rng, false, k);
                    let b = vary(&mut cx.rng, &a);
                    eqs(cx, a, b)
                }
                _ => {
                    let a = lived(&mut cx.rng);
                    let mut b = a.clone();
                    for _ in 0..cx.rng.below(3) {
                        b = vary(&mut cx.rng, &b);
                    }
                    eqs(cx, a, b)
                }
            },
            "C21" => conversions(cx),
            "C24" => iteration(cx),
            _ => {
                let v = lived(&mut cx.rng);
                facts(cx, v)
            }
        }
    }
}
