//! C09..C13: numbers printed, compared and converted by the real code.
use crate::genval::*;
use crate::util::*;
use json::number::Number;
use json::JsonValue;
use std::convert::TryFrom;

fn bools(xs: &[bool]) -> String {
    list(xs, |b| b.to_string())
}

// ---------------------------------------------------------------- C09
pub fn print(cx: &mut Ctx, n: Number) {
    cx.event("print", format!("\"n\":{}", num(&n)), || {
        let v = JsonValue::Number(n);
        let mut w = Vec::new();
        v.write(&mut w).unwrap();
        let in_array = JsonValue::Array(vec![v.clone()]).dump();
        // options of the formatter concern neither a number nor its digits
        let styled: Vec<String> = match n.as_parts().1 % 4 {
            0 => vec![format!("{:.2}", n), format!("{:.2}", v)],
            1 => vec![format!("{:>24}", n), format!("{:<24}", v)],
            2 => vec![format!("{:+}", n), format!("{:+.0}", v)],
            _ => vec![format!("{:024}", n), format!("{:#010.1}", v)],
        };
        format!(
            "\"styled\":{},\"texts\":[{},{},{},{},{},{},{}]",
            list(&styled, |t| cps(t)),
            cps(&n.to_string()),
            cps(&v.dump()),
            cps(&v.to_string()),
            cps(&v.pretty(2)),
            bytes_text(&w),
            cps(&json::stringify(n)),
            cps(&in_array[1..in_array.len() - 1])
        )
    });
}
fn prints(cx: &mut Ctx) {
    for &m in EDGE_MANTISSAS {
        for &e in EDGE_EXPS {
            if cx.thorough || e == 0 || cx.rng.chance(1, 3) {
                let pos = cx.rng.chance(2, 3);
                print(cx, raw(pos, m, e));
            }
        }
    }
    // every number of digits with every small exponent
    for d in 1..=20u32 {
        for e in -40i16..=24 {
            if cx.thorough || cx.rng.chance(1, 2) {
                let lo = 10u64.pow(d - 1);
                let hi = if d == 20 { u64::MAX } else { 10u64.pow(d) - 1 };
                let m = match cx.rng.below(3) {
                    0 => lo,
                    1 => hi,
                    _ => lo + cx.rng.u64() % (hi - lo + 1),
                };
                let pos = cx.rng.bool();
                print(cx, raw(pos, m, e));
            }
        }
        for e in [-32768i16, -32767, -32766 + d as i16, 32767, 32767 - d as i16, 32768i32.wrapping_sub(d as i32) as i16] {
            let lo = 10u64.pow(d - 1);
            print(cx, raw(true, lo + 1, e));
            print(cx, raw(false, lo, e));
        }
    }
    for _ in 0..cx.n {
        let n = number(&mut cx.rng);
        print(cx, n);
    }
}

// ---------------------------------------------------------------- C10
fn eq(cx: &mut Ctx, a: Number, b: Number) {
    cx.event("numeq", format!("\"a\":{},\"b\":{}", num(&a), num(&b)), || {
        let (x, y) = (JsonValue::Number(a), JsonValue::Number(b));
        format!(
            "\"eq\":{},\"ne\":{}",
            bools(&[a == b, b == a, x == y, y == x, x == b, y == a]),
            bools(&[a != b, b != a, x != y, y != x])
        )
    });
}
macro_rules! eq_int {
    ($cx:expr, $n:expr, $($t:ty: $x:expr),*) => { $({
        let n: Number = $n;
        let x: $t = $x;
        $cx.event("numint", format!("\"n\":{},\"x\":{},\"ty\":\"{}\"", num(&n), int(x as i128), stringify!($t)), || {
            let v = JsonValue::Number(n);
            format!("\"eq\":{},\"ne\":{}", bools(&[n == x, x == n, v == x, x == v, &v == x]), bools(&[n != x, x != n, v != x, x != v]))
        });
    })* };
}
fn respelled(r: &mut Rng, n: Number) -> Number {
    // the same value with another split, where there is one
    let (pos, m, e) = n.as_parts();
    let k = 1 + r.below(19) as u32;
    if m == 0 {
        return raw(r.bool(), 0, exponent(r));
    }
    if r.bool() {
        if let Some(m2) = m.checked_mul(10u64.pow(k)) {
            if let Some(e2) = e.checked_sub(k as i16) {
                return raw(pos, m2, e2);
            }
        }
    }
    let (mut m2, mut e2) = (m, e);
    while m2 % 10 == 0 && e2 < i16::MAX {
        m2 /= 10;
        e2 += 1;
        if r.chance(1, 4) {
            break;
        }
    }
    raw(pos, m2, e2)
}
fn near(r: &mut Rng, n: Number) -> Number {
    let (pos, m, e) = n.as_parts();
    match r.below(9) {
        0 => raw(!pos, m, e),
        1 => raw(pos, m.wrapping_add(1), e),
        2 => raw(pos, m.wrapping_sub(1), e),
        3 => raw(pos, m, e.wrapping_add(1)),
        4 => raw(pos, m, e.wrapping_sub(1)),
        5 => {
            // equal only if the scaling wraps around 2^64
            let k = 1 + r.below(40) as u32;
            raw(pos, m.wrapping_mul(10u64.wrapping_pow(k)), e.wrapping_sub(k as i16))
        }
        6 => raw(pos, m / 10, e.wrapping_add(1)),
        7 => {
            // exponents a long way apart (their difference leaves 16 bits)
            let e2 = *r.pick(&[i16::MAX, i16::MIN, e.wrapping_add(20), e.wrapping_sub(20), e.wrapping_add(19), e.wrapping_sub(400)]);
            raw(pos, m, e2)
        }
        _ => raw(pos, m.wrapping_add(10u64.pow(r.below(20) as u32)), e),
    }
}
fn equalities(cx: &mut Ctx) {
    let nan = json::number::NAN;
    let special = [nan, -nan, raw(true, 0, 0), raw(false, 0, 0), raw(true, 0, 5), raw(false, 0, -9), raw(true, 0, i16::MAX), raw(true, 0, i16::MIN), raw(true, 1, 0), raw(false, 1, 0)];
    for &a in &special {
        for &b in &special {
            eq(cx, a, b);
        }
    }
    // every scaling of a few mantissas, exact and off by one
    for &m in &[1u64, 5, 15, 123, 999, 4294967296, 18446744073709551, 1844674407370955161, 1 << 63] {
        for k in 0..=25u32 {
            let big = m.wrapping_mul(10u64.wrapping_pow(k));
            for e in [0i16, -3, 7, -32700, 32700] {
                if cx.thorough || cx.rng.chance(1, 2) {
                    let a = raw(true, m, e);
                    eq(cx, a, raw(true, big, e.wrapping_sub(k as i16)));
                    eq(cx, raw(true, big.wrapping_add(1), e.wrapping_sub(k as i16)), a);
                    eq(cx, raw(false, big, e.wrapping_sub(k as i16)), a);
                    eq(cx, raw(true, m / 10, e), raw(true, m, e.wrapping_sub(k as i16)));
                }
            }
        }
    }
    // one bit of the mantissa away, the exponents equal
    for e in -23i16..=23 {
        for bit in [63u32, 62, 53, 52, 33, 32, 31, 16, 15, 8, 7, 1, 0] {
            if cx.thorough || bit > 60 || cx.rng.chance(1, 3) {
                let m = mantissa(&mut cx.rng);
                let pos = cx.rng.bool();
                eq(cx, raw(pos, m, e), raw(pos, m ^ (1 << bit), e));
            }
        }
    }
    for _ in 0..cx.n {
        let a = number(&mut cx.rng);
        eq(cx, a, a);
        if !a.is_nan() {
            let (pos, m, e) = a.as_parts();
            let bit = cx.rng.below(64);
            eq(cx, a, raw(pos, m ^ (1 << bit), e));
        }
        if a.is_nan() {
            continue;
        }
        let b = respelled(&mut cx.rng, a);
        eq(cx, a, b);
        let c = near(&mut cx.rng, b);
        eq(cx, a, c);
        let d = respelled(&mut cx.rng, c);
        eq(cx, d, a);
        let e = number(&mut cx.rng);
        eq(cx, a, e);
    }
    // integers of every type against numbers near them
    for i in 0..cx.n / 2 {
        let r = &mut cx.rng;
        let m = mantissa(r);
        let x = if i % 2 == 0 { m as i128 } else { -(m as i128 % (1 << 63)) };
        let base = raw(x >= 0, x.unsigned_abs() as u64, 0);
        let n = match r.below(5) {
            0 => base,
            1 => respelled(r, base),
            2 => near(r, base),
            3 => raw(x >= 0, (x as i8) as i64 as u64, 0),
            _ => number(r),
        };
        let which = r.below(10);
        match which {
            0 => eq_int!(cx, n, i8: x as i8),
            1 => eq_int!(cx, n, i16: x as i16),
            2 => eq_int!(cx, n, i32: x as i32),
            3 => eq_int!(cx, n, i64: x as i64),
            4 => eq_int!(cx, n, isize: x as isize),
            5 => eq_int!(cx, n, u8: x as u8),
            6 => eq_int!(cx, n, u16: x as u16),
            7 => eq_int!(cx, n, u32: x as u32),
            8 => eq_int!(cx, n, u64: x as u64),
            _ => eq_int!(cx, n, usize: x as usize),
        }
    }
    let ints: [i128; 14] = [0, 1, -1, 5, 127, 128, -128, 255, 256, 32767, -32768, 1 << 31, i64::MIN as i128, u64::MAX as i128];
    for &x in &ints {
        for m in [x.unsigned_abs() as u64, (x.unsigned_abs() as u64).wrapping_mul(10), (x.unsigned_abs() as u64).wrapping_mul(100)] {
            for e in [0i16, -1, -2, 1] {
                for pos in [true, false] {
                    let n = raw(pos, m, e);
                    eq_int!(cx, n, i8: x as i8, i16: x as i16, i32: x as i32, i64: x as i64, isize: x as isize, u8: x as u8, u16: x as u16, u32: x as u32, u64: x as u64, usize: x as usize);
                }
            }
        }
    }
    for n in [nan, -nan] {
        eq_int!(cx, n, i8: 0, i64: 0, u64: 0, u8: 0, usize: 0, i32: -1);
    }
}

// ---------------------------------------------------------------- C11
macro_rules! from_int {
    ($cx:expr, $($t:ty: $x:expr),*) => { $({
        let x: $t = $x;
        $cx.event("fromint", format!("\"x\":{},\"ty\":\"{}\"", int(x as i128), stringify!($t)), || {
            let a = Number::from(x);
            let v = JsonValue::from(x);
            let b = v.as_number().unwrap();
            let back = <$t>::try_from(a).ok().map(|y| y as i128);
            format!("\"n\":[{},{}],\"back\":{},\"d\":{}", num(&a), num(&b), opt_int(back), cps(&v.dump()))
        });
    })* };
}
macro_rules! read_ints {
    ($cx:expr, $n:expr, $($t:ident, $bits:expr, $signed:expr, $m:ident);*) => { {
        let n: Number = $n;
        $cx.event("toint", format!("\"n\":{}", num(&n)), || {
            let v = JsonValue::Number(n);
            let mut o = Vec::new();
            $(
                o.push(format!("{{\"ty\":\"{}\",\"bits\":{},\"signed\":{},\"a\":{},\"b\":{}}}", stringify!($t), $bits, $signed,
                    opt_int(v.$m().map(|x| x as i128)), opt_int(<$t>::try_from(n).ok().map(|x| x as i128))));
            )*
            format!("\"got\":[{}]", o.join(","))
        });
    } };
}
fn to_ints(cx: &mut Ctx, n: Number) {
    read_ints!(cx, n, u8, 8, false, as_u8; u16, 16, false, as_u16; u32, 32, false, as_u32; u64, 64, false, as_u64; usize, 64, false, as_usize;
        i8, 8, true, as_i8; i16, 16, true, as_i16; i32, 32, true, as_i32; i64, 64, true, as_i64; isize, 64, true, as_isize);
}
fn from_ints(cx: &mut Ctx, x: i128) {
    let (a, b, c, d, e) = (x as i8, x as i16, x as i32, x as i64, x as isize);
    let (f, g, h, i, j) = (x as u8, x as u16, x as u32, x as u64, x as usize);
    from_int!(cx, i8: a, i16: b, i32: c, i64: d, isize: e, u8: f, u16: g, u32: h, u64: i, usize: j);
}
fn integers(cx: &mut Ctx) {
    let mut xs: Vec<i128> = Vec::new();
    for b in 0..65u32 {
        for d in -2i128..=2 {
            xs.push((1i128 << b) + d);
            xs.push(-(1i128 << b) + d);
        }
    }
    for b in 0..20u32 {
        for d in -1i128..=1 {
            xs.push(10i128.pow(b) + d);
            xs.push(-(10i128.pow(b)) + d);
        }
    }
    for &x in &xs {
        let m = x.unsigned_abs() as u64;
        to_ints(cx, raw(x >= 0, m, 0));
    }
    for &x in xs.iter().step_by(2) {
        from_ints(cx, x);
    }
    for x in i8::MIN..=i8::MAX {
        from_int!(cx, i8: x);
        from_int!(cx, u8: x as u8);
    }
    for &e in EDGE_EXPS {
        for m in [0u64, 1, 10, 100, 120, 1000, 25500, 10000000000000000000] {
            let pos = cx.rng.bool();
            to_ints(cx, raw(pos, m, e));
        }
    }
    for n in [json::number::NAN, -json::number::NAN, raw(false, 0, 0), raw(true, 0, 0)] {
        to_ints(cx, n);
    }
    for i in 0..cx.n {
        let n = number(&mut cx.rng);
        to_ints(cx, n);
        let m = mantissa(&mut cx.rng);
        let pos = cx.rng.bool();
        to_ints(cx, raw(pos, m, 0));
        if i % 4 == 0 {
            let x = cx.rng.u64() as i128 * if cx.rng.bool() { 1 } else { -1 };
            from_ints(cx, x);
        }
    }
    // values of other types
    for v in [JsonValue::Null, JsonValue::Boolean(true), "1".into(), JsonValue::new_array(), JsonValue::new_object()] {
        cx.event("notnum", format!("\"v\":{}", val(&v)), || {
            format!(
                "\"none\":{}",
                bools(&[
                    v.as_u8().is_none(), v.as_u16().is_none(), v.as_u32().is_none(), v.as_u64().is_none(), v.as_usize().is_none(), v.as_i8().is_none(),
                    v.as_i16().is_none(), v.as_i32().is_none(), v.as_i64().is_none(), v.as_isize().is_none(), v.as_f64().is_none(),
                    v.as_f32().is_none(), v.as_number().is_none(), v.as_fixed_point_u64(2).is_none(), v.as_fixed_point_i64(2).is_none()
                ])
            )
        });
    }
}

// ---------------------------------------------------------------- C12
fn fixed(cx: &mut Ctx, n: Number, p: u16) {
    cx.event("fixed", format!("\"n\":{},\"p\":{}", num(&n), p), || {
        let v = JsonValue::Number(n);
        format!(
            "\"u\":[{},{}],\"s\":[{},{}]",
            opt_int(n.as_fixed_point_u64(p).map(|x| x as i128)),
            opt_int(v.as_fixed_point_u64(p).map(|x| x as i128)),
            opt_int(n.as_fixed_point_i64(p).map(|x| x as i128)),
            opt_int(v.as_fixed_point_i64(p).map(|x| x as i128))
        )
    });
}
fn fixeds(cx: &mut Ctx) {
    for &e in EDGE_EXPS {
        for &m in EDGE_MANTISSAS {
            if cx.thorough || cx.rng.chance(1, 3) {
                // points that bring the result near the type's range
                let d = digits_of(m) as i32;
                let want = cx.rng.range(0, 21) as i32;
                let p = (want - d - e as i32).clamp(0, 65535) as u16;
                let pos = cx.rng.bool();
                fixed(cx, raw(pos, m, e), p);
            }
        }
        for p in [0u16, 1, 2, 17, 18, 19, 20, 21, 100, 32767, 32768, 65534, 65535] {
            let pos = cx.rng.bool();
            let m = mantissa(&mut cx.rng);
            fixed(cx, raw(pos, m, e), p);
        }
        let back = (-(e as i32)).clamp(0, 65535) as u16;
        for d in -22i32..=3 {
            let p = (back as i32 + d).clamp(0, 65535) as u16;
            let m = mantissa(&mut cx.rng);
            let pos = cx.rng.bool();
            fixed(cx, raw(pos, m, e), p);
        }
    }
    for n in [json::number::NAN, -json::number::NAN, raw(false, 0, 0), raw(true, 0, 0), raw(false, 0, -5), raw(true, 0, i16::MIN), raw(true, 0, i16::MAX)] {
        for p in [0u16, 1, 300, 65535] {
            fixed(cx, n, p);
        }
    }
    for _ in 0..cx.n {
        let n = number(&mut cx.rng);
        let (_, m, e) = n.as_parts();
        let p = match cx.rng.below(4) {
            0 => cx.rng.below(20) as u16,
            1 => cx.rng.u64() as u16,
            _ => {
                let want = cx.rng.range(-1, 21) as i32;
                (want - digits_of(m) as i32 - e as i32).clamp(0, 65535) as u16
            }
        };
        fixed(cx, n, p);
    }
}
fn digits_of(m: u64) -> usize {
    if m == 0 { 0 } else { m.to_string().len() }
}

// ---------------------------------------------------------------- C13
fn from_float(cx: &mut Ctx, f: f64) {
    cx.event("fromfloat", format!("\"f\":{}", f64s(f)), || {
        let a = Number::from(f);
        let b = JsonValue::from(f).as_number().unwrap();
        let c = a == f && f == a && JsonValue::Number(b) == f && f == JsonValue::Number(b);
        format!("\"n\":[{},{}],\"eq\":{},\"r\":{}", num(&a), num(&b), c, f64s(f64::from(a)))
    });
}
fn from_single(cx: &mut Ctx, f: f32) {
    cx.event("fromfloat", format!("\"f\":{}", f64s(f as f64)), || {
        let a = Number::from(f);
        let b = JsonValue::from(f).as_number().unwrap();
        let r = f64::from(a);
        format!("\"n\":[{},{}],\"eq\":{},\"r\":{}", num(&a), num(&b), a == f as f64 && f as f64 == a, f64s(r))
    });
}
fn to_float(cx: &mut Ctx, n: Number, with: f64) {
    let with32 = with as f32;
    cx.event("tofloat", format!("\"n\":{},\"w\":{},\"w32\":{}", num(&n), f64s(with), f32s(with32)), || {
        let v = JsonValue::Number(n);
        let (a, b) = (f64::from(n), v.as_f64().unwrap());
        let (c, d) = (f32::from(n), v.as_f32().unwrap());
        format!(
            "\"r\":[{},{}],\"s\":[{},{}],\"eq\":{},\"eq32\":{},\"self\":{}",
            f64s(a), f64s(b), f32s(c), f32s(d),
            bools(&[n == with, with == n, v == with, with == v, &v == with]),
            bools(&[n == with32, with32 == n, v == with32, with32 == v, &v == with32]),
            bools(&[n == a, a == n, n == c, c == n])
        )
    });
}
fn floats(cx: &mut Ctx) {
    // powers of two: the neighbours are unevenly spaced
    let step = if cx.thorough { 1 } else { 5 };
    for e in (0..2047u64).step_by(step) {
        let e = (e + cx.rng.below(step) as u64).min(2046);
        let d = cx.rng.range(-1, 1);
        from_float(cx, f64::from_bits((e << 52).wrapping_add(d as u64) & (u64::MAX >> 1)));
        if d != 0 {
            from_float(cx, -f64::from_bits(e << 52));
        }
    }
    for e in -324..309 {
        if cx.thorough || cx.rng.chance(1, 3) {
            let f = format!("1e{}", e).parse::<f64>().unwrap();
            from_float(cx, f);
            to_float(cx, raw(true, 1, e), f);
            let m = *cx.rng.pick(EDGE_MANTISSAS);
            to_float(cx, raw(true, m, e), f);
        }
    }
    for f in [0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324] {
        from_float(cx, f);
        from_single(cx, f as f32);
        for n in [json::number::NAN, raw(true, 0, 0), raw(false, 0, 0), raw(true, 1, 400), raw(false, 1, -400), raw(true, 0, 400), raw(true, 0, -400)] {
            to_float(cx, n, f);
        }
    }
    for &e in EDGE_EXPS {
        for &m in EDGE_MANTISSAS {
            if cx.thorough || cx.rng.chance(1, 4) {
                let w = float(&mut cx.rng);
                let pos = cx.rng.chance(3, 4);
                to_float(cx, raw(pos, m, e), w);
            }
        }
    }
    // f32 limits
    for e in -64i16..=40 {
        for _ in 0..3 {
            let m = mantissa(&mut cx.rng);
            to_float(cx, raw(true, m, e), 1.0);
        }
        to_float(cx, raw(true, 14, e), 1.4);
    }
    // integers at and next to the point half way between two floats
    for wide in [53u32, 24] {
        for b in wide..64 {
            let unit = 1u64 << (b + 1 - wide);
            for _ in 0..if cx.thorough { 12 } else { 2 } {
                let m = (1u64 << b) | (cx.rng.u64() & ((1u64 << b) - 1));
                let half = m / unit * unit + unit / 2;
                let m = match cx.rng.below(5) {
                    0 => half.wrapping_sub(1),
                    1 => half.wrapping_add(1),
                    2 => half.wrapping_add(unit / 4),
                    _ => half,
                };
                let pos = cx.rng.bool();
                to_float(cx, raw(pos, m, 0), m as f64);
            }
            let m = u64::MAX - cx.rng.below(3000) as u64;
            to_float(cx, raw(true, m, 0), 18446744073709551615.0);
        }
    }
    for _ in 0..cx.n {
        let f = float(&mut cx.rng);
        from_float(cx, f);
        from_single(cx, f as f32);
        let n = Number::from(f);
        to_float(cx, n, f);
        // correctly rounded range, and beyond it
        let m = mantissa(&mut cx.rng) >> cx.rng.below(40);
        let e = cx.rng.range(-24, 24) as i16;
        to_float(cx, raw(true, m, e), m as f64);
        let m2 = mantissa(&mut cx.rng);
        let e2 = exponent(&mut cx.rng);
        let w = float(&mut cx.rng);
        to_float(cx, raw(false, m2, e2), w);
        let d = digits_of(m2) as i64;
        // results near the ends of the ranges
        let e3 = cx.rng.range(-330, -300) - d;
        to_float(cx, raw(true, m2, e3 as i16), 0.0);
        let e4 = cx.rng.range(305, 312) - d;
        to_float(cx, raw(true, m2, e4 as i16), f64::INFINITY);
        let e5 = cx.rng.range(-50, 42) - d;
        to_float(cx, raw(true, m2, e5 as i16), f64::INFINITY);
    }
}

// ---------------------------------------------------------------- C25
/// A number and what it says of itself.
fn about(n: Number) -> String {
    let (pos, m, e) = n.as_parts();
    let v = JsonValue::Number(n);
    let kept = v.as_number().unwrap();
    let copy = match v.clone() {
        JsonValue::Number(x) => x,
        _ => panic!("not a number"),
    };
    format!(
        "{{\"n\":{},\"pos\":{},\"d\":{},\"e\":{},\"same\":[{},{}],\"positive\":{},\"zero\":{},\"nan\":{},\"empty\":[{},{}]}}",
        num(&n), pos, digits(m), e, num(&kept), num(&copy), n.is_sign_positive(), n.is_zero(), n.is_nan(), n.is_empty(), v.is_empty()
    )
}
pub fn parts(cx: &mut Ctx, pos: bool, m: u64, e: i16) {
    cx.event("parts", format!("\"n\":{{\"t\":\"num\",\"neg\":{},\"d\":{},\"e\":{},\"nan\":false}}", !pos, digits(m), e), || {
        let a = raw(pos, m, e);
        let b = Number::from_parts(pos, m, e);
        let (x, y, z) = a.as_parts();
        let c = raw(x, y, z);
        format!("\"raw\":[{},{},{}],\"made\":{},\"minus\":{},\"minus_made\":{}", about(a), about(c), about(-(-a)), about(b), about(-a), about(-b))
    });
}
fn minus(cx: &mut Ctx, n: Number, times: usize) {
    cx.event("minus", format!("\"n\":{},\"times\":{}", num(&n), times), || {
        let mut x = n;
        for _ in 0..times {
            x = -x;
        }
        format!("\"got\":{}", about(x))
    });
}
fn all_parts(cx: &mut Ctx) {
    for &m in EDGE_MANTISSAS {
        for &e in EDGE_EXPS {
            if cx.thorough || cx.rng.chance(1, 2) {
                let pos = cx.rng.bool();
                parts(cx, pos, m, e);
            }
        }
    }
    for k in 0..20u32 {
        for e in -22i16..=2 {
            let pos = cx.rng.bool();
            let m = 10u64.pow(k);
            let by = 1 + cx.rng.below(99) as u64;
            parts(cx, pos, m.checked_mul(by).unwrap_or(m), e);
        }
    }
    for pos in [true, false] {
        for e in [i16::MIN, i16::MIN + 1, -1, 0, 1, i16::MAX] {
            parts(cx, pos, 0, e);
        }
    }
    for times in 0..4 {
        minus(cx, json::number::NAN, times);
        minus(cx, Number::from(f64::NAN), times);
        minus(cx, Number::from(f64::NEG_INFINITY), times);
        minus(cx, Number::from(f32::INFINITY), times);
    }
    for _ in 0..cx.n {
        let (m, e, pos) = (mantissa(&mut cx.rng), exponent(&mut cx.rng), cx.rng.bool());
        parts(cx, pos, m, e);
        let n = number(&mut cx.rng);
        let times = cx.rng.below(4);
        minus(cx, n, times);
    }
}

// ------------------------------------------------- from the specification
/// neg:digits:e as the specification has it, or N
pub fn number_of(t: &str) -> Number {
    if t == "N" {
        return json::number::NAN;
    }
    let p: Vec<&str> = t.trim_start_matches("#:").split(':').collect();
    let m: u64 = if p[1].is_empty() { 0 } else { p[1].parse().unwrap() };
    raw(p[0] == "0", m, p[2].parse().unwrap())
}
pub fn replay(cx: &mut Ctx, kind: &str, line: &str) {
    let p: Vec<&str> = line.split('\t').collect();
    match kind {
        "numeq" => eq(cx, number_of(p[0]), number_of(p[1])),
        "toint" => to_ints(cx, number_of(p[0])),
        "fromint" => {
            // for each type the integer is said to be in
            let x: i128 = p[0].parse().unwrap();
            let t: Vec<bool> = p[1].split(' ').map(|b| b == "1").collect();
            macro_rules! each {
                ($($i:expr, $t:ty);*) => { $( if t[$i] { from_int!(cx, $t: x as $t); } )* };
            }
            each!(0, u8; 1, i8; 2, u16; 3, i16; 4, u32; 5, i32; 6, u64; 7, i64; 6, usize; 7, isize);
        }
        "fixed" => fixed(cx, number_of(p[0]), p[1].parse().unwrap()),
        "floats" => from_float(cx, f64::from_bits(p[0].parse().unwrap())),
        "parts" => {
            let q: Vec<&str> = p[0].trim_start_matches("#:").split(':').collect();
            let m: u64 = if q[1].is_empty() { 0 } else { q[1].parse().unwrap() };
            parts(cx, q[0] == "0", m, q[2].parse().unwrap())
        }
        k => panic!("{}", k),
    }
}

pub fn drive(cx: &mut Ctx) {
    match cx.prop.as_str() {
        "C25" => all_parts(cx),
        "C09" => prints(cx),
        "C10" => equalities(cx),
        "C11" => integers(cx),
        "C12" => fixeds(cx),
        "C13" => floats(cx),
        p => panic!("{}", p),
    }
}
