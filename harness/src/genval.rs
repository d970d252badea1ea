//! Values and numbers, built through varied routes of the public API.
use crate::gentext;
use crate::util::Rng;
use json::number::Number;
use json::object::Object;
use json::short::Short;
use json::JsonValue;

pub const EDGE_MANTISSAS: &[u64] = &[
    0, 1, 2, 5, 7, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 10001, 12345, 32767, 32768, 32769, 65535, 65536,
    65537, 99999, 100000, 100001, 999999, 1000000, 1234567, 9999999, 10000000, 99999999, 100000000, 999999999, 1000000000, 2147483647, 2147483648,
    2147483649, 4294967295, 4294967296, 4294967297, 9999999999, 10000000000, 99999999999, 999999999999, 9007199254740991, 9007199254740992,
    9007199254740993, 99999999999999999, 100000000000000000, 576460752303423500, 999999999999999999, 1000000000000000000, 1844674407370955161,
    1844674407370955162, 9223372036854775806, 9223372036854775807, 9223372036854775808, 9223372036854775809, 9999999999999999999,
    10000000000000000000, 10000000000000000001, 18446744073709551614, 18446744073709551615, 16777215, 16777216, 16777217, 12000000000000000000,
];
pub const EDGE_EXPS: &[i16] = &[
    0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 7, -7, 8, -8, 9, 10, -10, 11, -11, 15, -15, 16, -16, 17, -17, 18, -18, 19, -19, 20, -20, 21, -21, 22, -22, 23, -23,
    24, -24, 37, -37, 38, -38, 39, -39, 45, -45, 100, -100, 127, -127, 128, -128, 300, -300, 307, -307, 308, -308, 309, -309, 323, -323, 324, -324, 325, 340,
    -340, 345, -345, 400, -400, 32747, 32748, 32750, 32766, 32767, -32747, -32748, -32750, -32766, -32767, -32768,
];

pub fn mantissa(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=2 => *r.pick(EDGE_MANTISSAS),
        3 => r.u64() >> r.below(64),
        4 => r.below(1000) as u64,
        5 => {
            // digits followed by zeros
            let p = r.below(19) as u32;
            let m = 1 + r.below(999) as u64;
            m.checked_mul(10u64.pow(p)).unwrap_or(m)
        }
        6 => (1u64 << r.below(64)).wrapping_add(r.range(-2, 2) as u64),
        7 => 10u64.pow(r.below(20) as u32).wrapping_add(r.range(-2, 2) as u64),
        8 => u64::MAX - r.below(30) as u64,
        _ => r.u64(),
    }
}
pub fn exponent(r: &mut Rng) -> i16 {
    match r.below(10) {
        0..=2 => 0,
        3 | 4 => r.range(-25, 25) as i16,
        5 | 6 => *r.pick(EDGE_EXPS),
        7 => r.range(-400, 400) as i16,
        8 => r.u64() as i16,
        _ => r.range(-19, -1) as i16,
    }
}
pub fn raw(pos: bool, m: u64, e: i16) -> Number {
    unsafe { Number::from_parts_unchecked(pos, m, e) }
}
pub fn number(r: &mut Rng) -> Number {
    let pos = r.chance(2, 3);
    let m = mantissa(r);
    let e = exponent(r);
    match r.below(12) {
        0 => Number::from_parts(pos, m, if e < -30000 { e / 2 } else { e }),
        1 => Number::from(r.range(-1000, 1000) as i32),
        2 => Number::from(float(r)),
        3 if r.chance(1, 3) => {
            if r.bool() { json::number::NAN } else { -json::number::NAN }
        }
        4 => -raw(pos, m, e),
        _ => raw(pos, m, e),
    }
}
pub fn finite_number(r: &mut Rng) -> Number {
    loop {
        let n = number(r);
        if !n.is_nan() {
            return n;
        }
    }
}

pub fn float(r: &mut Rng) -> f64 {
    let f = match r.below(16) {
        0 => f64::from_bits(r.u64()),
        1 => {
            // any exponent, sparse mantissa
            let e = r.below(2047) as u64;
            f64::from_bits((e << 52) | (1u64 << r.below(52)).wrapping_sub(r.below(2) as u64))
        }
        2 => f64::from_bits(((r.below(2047) as u64) << 52).wrapping_add(r.range(-2, 2) as u64)), // powers of two and neighbours
        3 => f64::from_bits(r.below(10) as u64),                                     // least subnormals
        4 => f64::from_bits(r.u64() >> 12 >> r.below(52)),                           // subnormals
        5 => {
            let d = r.below(17) as u32;
            let m = (r.u64() % 10u64.pow(d + 1)) as f64;
            m / 10f64.powi(r.below(20) as i32)
        }
        6 => (r.range(-100000, 100000) as f64) / 100.0,
        7 => r.range(-1 << 53, 1 << 53) as f64,
        8 => 10f64.powi(r.range(-323, 308) as i32),
        9 => {
            let f = 10f64.powi(r.range(-300, 300) as i32);
            f64::from_bits(f.to_bits().wrapping_add(r.range(-3, 3) as u64))
        }
        10 => *r.pick(&[
            0.0, 1.0, 0.1, 0.5, 0.25, 1.5, 3.14, 1e21, 1e22, 1e23, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 5e-324, f64::MAX,
            f64::MIN_POSITIVE, f64::EPSILON, 2.2250738585072011e-308, 1.7976931348623155e308, 4.35, 0.3, 2.0 / 3.0, 1e-7, 123456789.123456789,
            4294967296.0, 18446744073709551616.0, 9223372036854775808.0, 1e16, 1e17, 8.41e21, 9.5e-3, 5e-8,
        ]),
        11 => (r.u64() as f64) / (1u64 << r.below(64)) as f64,
        12 => f32::from_bits(r.u64() as u32) as f64,
        13 => r.u64() as f64,
        14 => (r.below(1000) as f64) * 0.1,
        _ => 1.0 + r.below(1 << 20) as f64 * f64::EPSILON,
    };
    if r.chance(1, 4) { -f } else { f }
}

pub fn text(r: &mut Rng) -> String {
    let n = gentext::length(r);
    let plain = r.chance(1, 3);
    let mut s = String::new();
    for _ in 0..n {
        s.push(if plain || r.chance(1, 2) {
            *r.pick(&['a', 'b', 'c', 'k', 'z', '0', ' ', '/'])
        } else {
            gentext::scalar(r)
        });
    }
    s
}
pub fn key(r: &mut Rng) -> String {
    match r.below(8) {
        0..=2 => r.pick(&["a", "b", "c", "", "\"", "\n", "key", "k1", "k2"]).to_string(),
        3 => {
            let n = *r.pick(&[1usize, 30, 31, 32, 33, 34, 64, 100]);
            r.pick(&["a", "b", "\u{e9}", "c"]).repeat(n)
        }
        4 => format!("k{}", r.below(30)),
        _ => text(r),
    }
}

/// A string value held one way or the other.
pub fn string_value(r: &mut Rng, s: &str) -> JsonValue {
    let s = &s.to_string()[..];
    match r.below(5) {
        0 => JsonValue::String(s.to_string()),
        4 => {
            // with more room than it needs
            let room = match r.below(4) {
                0 => 70000,
                1 => 2 * s.len() + 5000,
                _ => s.len() + r.below(200),
            };
            let mut t = String::with_capacity(room);
            t.push_str(s);
            JsonValue::String(t)
        }
        1 if s.len() <= json::short::MAX_LEN => JsonValue::Short(unsafe { Short::from_slice(s) }),
        2 => JsonValue::from(s.to_string()),
        _ => JsonValue::from(s),
    }
}

pub struct Shape {
    pub depth: usize,
    pub width: usize,
    pub nan: bool,
}
pub fn shape(r: &mut Rng) -> Shape {
    Shape { depth: *r.pick(&[0usize, 1, 1, 2, 2, 3, 4]), width: *r.pick(&[1usize, 2, 3, 4, 6]), nan: true }
}

/// Sizes of containers that have more than a few items.
pub fn wide(r: &mut Rng) -> usize {
    match r.below(6) {
        0..=2 => 5 + r.below(12),
        3 | 4 => *r.pick(&[7usize, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33]),
        _ => *r.pick(&[48usize, 63, 64, 65, 100, 127, 128, 129]),
    }
}
/// A container with many small items.
pub fn wide_value(r: &mut Rng, nan: bool) -> JsonValue {
    let n = wide(r);
    let mixed = r.bool();
    let mut item = |r: &mut Rng, i: usize| match r.below(if mixed { 8 } else { 4 }) {
        0..=3 => JsonValue::from(i as u64),
        4 => JsonValue::Null,
        5 => JsonValue::from(""),
        6 => JsonValue::new_array(),
        _ => JsonValue::Number(if nan { number(r) } else { finite_number(r) }),
    };
    if r.bool() {
        JsonValue::Array((0..n).map(|i| item(r, i)).collect())
    } else {
        let style = r.below(3);
        let mut o = if r.bool() { Object::new() } else { Object::with_capacity(r.below(2 * n)) };
        for i in 0..n {
            let k = match style {
                0 => format!("{}", i),
                1 => ["k", "\u{e9}", "\""][i % 3].repeat(1 + i / 3),
                _ => format!("{:x}", i * 0x9e37 % 65521),
            };
            let x = item(r, i);
            o.insert(&k, x);
        }
        JsonValue::Object(o)
    }
}

pub fn leaf(r: &mut Rng, nan: bool) -> JsonValue {
    match r.below(10) {
        0 => JsonValue::Null,
        1 => JsonValue::Boolean(true),
        2 => JsonValue::Boolean(false),
        3..=5 => JsonValue::Number(if nan { number(r) } else { finite_number(r) }),
        _ => {
            let s = text(r);
            string_value(r, &s)
        }
    }
}
pub fn object(r: &mut Rng, sh: &Shape, depth: usize, n: usize) -> Object {
    let mut o = match r.below(3) {
        0 => Object::new(),
        1 => Object::with_capacity(r.below(8)),
        _ => Object::with_capacity(n),
    };
    for _ in 0..n {
        let k = key(r);
        let v = value(r, sh, depth);
        o.insert(&k, v);
    }
    match r.below(6) {
        0 => o.clone(),
        1 => {
            let k = key(r);
            o.remove(&k);
            o
        }
        _ => o,
    }
}
pub fn value(r: &mut Rng, sh: &Shape, depth: usize) -> JsonValue {
    if depth == 0 || r.chance(1, 4) {
        return match r.below(8) {
            0 => JsonValue::new_array(),
            1 => JsonValue::new_object(),
            _ => leaf(r, sh.nan),
        };
    }
    if r.chance(1, 30) {
        return wide_value(r, sh.nan);
    }
    let n = r.below(sh.width + 1);
    if r.bool() {
        let a: Vec<JsonValue> = (0..n).map(|_| value(r, sh, depth - 1)).collect();
        JsonValue::Array(a)
    } else {
        JsonValue::Object(object(r, sh, depth - 1, n))
    }
}
pub fn any(r: &mut Rng) -> JsonValue {
    if r.chance(1, 25) {
        return wide_value(r, true);
    }
    let sh = shape(r);
    value(r, &sh, sh.depth)
}
pub fn any_finite(r: &mut Rng) -> JsonValue {
    if r.chance(1, 25) {
        return wide_value(r, false);
    }
    let mut sh = shape(r);
    sh.nan = false;
    value(r, &sh, sh.depth)
}
