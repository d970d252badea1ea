//! JSON texts: valid documents, damaged ones, and systematic probes of every
//! place a reader can be in.
use crate::util::Rng;

pub const SPECIAL: &[char] = &[
    '\u{0}', '\u{1}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{e}', '\u{1f}', ' ', '!', '"', '#', '/', '0', '9', ':', '@', 'A',
    '[', '\\', ']', '^', '`', 'a', 'z', '{', '}', '~', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{2028}',
    '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}',
];
pub const SYNTAX: &[char] = &[
    '[', ']', '{', '}', ',', ':', '"', '\\', '-', '+', '.', 'e', 'E', '0', '1', '9', 't', 'f', 'n', 'u', 'r', 'l', 's', 'a', ' ', '\n', '\t',
    '\u{b}', '\u{c}', '\r', '/', 'b', 'd', 'D', '8', 'x', '\'', '\u{0}', '\u{1f}', '\u{7f}', '\u{80}', '\u{e9}', '\u{1f600}', '\u{a0}', '\u{feff}',
];

/// Positions inside a document, as a text before and a text after.
pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""), (" ", ""), ("", " "), ("1", ""), ("1 ", ""), ("\"a\"", ""), ("null", ""), ("[]", ""), ("{}", " "), ("[1]", ""),
    ("[", "]"), ("[ ", "]"), ("[1", "]"), ("[1,", "]"), ("[1 ", ",2]"), ("[1, ", "2]"), ("[\"a\"", "]"), ("[null", "]"), ("[[]", "]"), ("[{}", "]"),
    ("{", "}"), ("{ ", "\"a\":1}"), ("{\"a\"", ":1}"), ("{\"a\" ", "1}"), ("{\"a\":", "1}"), ("{\"a\":", "}"), ("{\"a\":1", "}"),
    ("{\"a\":1,", "\"b\":2}"), ("{\"a\":1, ", "}"), ("{\"a\":{}", "}"), ("{\"a\":[]", "}"), ("{\"a\":1", ",\"b\":2}"), ("{\"a\":\"x\"", "}"),
    ("\"", "\""), ("\"abc", "def\""), ("\"a\\", "b\""), ("\"\\u", "041\""), ("\"\\u0", "41\""), ("\"\\u00", "1\""), ("\"\\u004", "\""),
    ("\"\\u0041", "\""), ("\"\\n", "x\""), ("\"\\ud83d", "\""), ("\"\\ud83d\\", "de00\""), ("\"\\ud83d\\u", "e00\""), ("\"\\ud83d\\ude0", "\""),
    ("\"\\ud83d\\ude00", "\""), ("{\"", "\":1}"), ("{\"a\\", "\":1}"), ("{\"\\u00", "1\":1}"),
    ("-", ""), ("-", "1"), ("0", ""), ("0", "1"), ("-0", ""), ("1", "2"), ("12", "3"), ("1.", ""), ("1.", "5"), ("1.5", ""), ("1.5", "5"), ("1e", ""),
    ("1e", "5"), ("1e+", ""), ("1e-", "3"), ("1e5", ""), ("1e5", "1"), ("0.", "1"), ("0e", "1"), ("18446744073709551615", ""),
    ("18446744073709551616", ""), ("1844674407370955161600", "0"), ("1234567890123456789012.", "1"), ("1234567890123456789012.5", "1"),
    ("[-", "]"), ("[0", "]"), ("[1.", "]"), ("[1.5", "]"), ("[1e", "]"), ("[1e5", "]"), ("{\"a\":0", "}"), ("{\"a\":-", "}"), ("{\"a\":1.5", "}"),
    ("t", "ue"), ("tr", "e"), ("tru", ""), ("true", ""), ("f", "lse"), ("fa", "se"), ("fal", "e"), ("fals", ""), ("false", ""),
    ("n", "ll"), ("nu", "l"), ("nul", ""), ("[true", "]"), ("[fals", "]"), ("{\"a\":nul", "}"), ("\n", ""), ("\n\n", "1"), ("[\n1,\n", "\n]"),
    ("\"\u{e9}\u{1f600}", "\""), ("[\"\u{e9}\",", "]"), ("{\"k\":1,\"k\"", ":2}"),
];

fn hex4(r: &mut Rng, u: u32) -> String {
    let mut s = String::from("\\u");
    for sh in [12, 8, 4, 0] {
        let d = (u >> sh) & 15;
        let c = std::char::from_digit(d, 16).unwrap();
        s.push(if r.bool() { c.to_ascii_uppercase() } else { c });
    }
    s
}

pub fn scalar(r: &mut Rng) -> char {
    loop {
        let x = match r.below(9) {
            0 => r.below(0x80) as u32,
            1 => r.range(0x80, 0x7ff) as u32,
            2 => r.range(0x800, 0xffff) as u32,
            3 => r.range(0x10000, 0x10ffff) as u32,
            4 => *r.pick(SPECIAL) as u32,
            5 | 6 => r.range(0x20, 0x7e) as u32,
            7 => 1u32 << r.below(21),
            _ => (1u32 << r.below(21)).wrapping_sub(1),
        };
        if let Some(c) = char::from_u32(x) {
            return c;
        }
    }
}

/// How long: small, or around the sizes at which storage changes.
pub fn length(r: &mut Rng) -> usize {
    if r.chance(1, 150) {
        return *r.pick(&[200usize, 254, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025]);
    }
    match r.below(12) {
        0 => 0,
        1..=4 => r.below(6),
        5 => r.below(20),
        6 | 7 => 28 + r.below(8),
        8 => 60 + r.below(8),
        9 => *r.pick(&[7usize, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129]),
        10 => 124 + r.below(8),
        _ => r.below(40),
    }
}

/// One unit of a string literal.
pub fn unit(r: &mut Rng, out: &mut String) {
    match r.below(20) {
        0..=8 => {
            let c = r.range(0x20, 0x7e) as u8 as char;
            if c == '"' || c == '\\' { out.push('q') } else { out.push(c) }
        }
        9 | 10 => loop {
            let c = scalar(r);
            if c >= ' ' && c != '"' && c != '\\' {
                out.push(c);
                break;
            }
        },
        11..=13 => {
            out.push('\\');
            out.push(*r.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
        }
        14 | 15 => {
            let u = match r.below(4) {
                0 => r.below(0x80) as u32,
                1 => *r.pick(&[0u32, 0x1f, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0xfffe, 0xfeff]),
                2 => *r.pick(SPECIAL) as u32 & 0xffff,
                _ => r.below(0x10000) as u32,
            };
            if (0xd800..0xe000).contains(&u) {
                pair(r, out)
            } else {
                out.push_str(&hex4(r, u))
            }
        }
        16 | 17 => pair(r, out),
        _ => {
            let n = 1 + r.below(3);
            for _ in 0..n {
                out.push(*r.pick(&['a', 'b', ' ', '0', '\u{e9}', '/']))
            }
        }
    }
}
fn pair(r: &mut Rng, out: &mut String) {
    let hi = match r.below(3) {
        0 => *r.pick(&[0xd800u32, 0xd83d, 0xdbff, 0xd801, 0xdbfe]),
        _ => 0xd800 + r.below(0x400) as u32,
    };
    let lo = match r.below(3) {
        0 => *r.pick(&[0xdc00u32, 0xde00, 0xdfff, 0xdc01]),
        _ => 0xdc00 + r.below(0x400) as u32,
    };
    let a = hex4(r, hi);
    let b = hex4(r, lo);
    out.push_str(&a);
    out.push_str(&b);
}

pub fn string(r: &mut Rng) -> String {
    let mut s = String::from("\"");
    let n = length(r);
    let plain = r.chance(1, 3);
    for _ in 0..n {
        if plain {
            s.push(*r.pick(&['a', 'b', 'c', 'x', '0', ' ', '_']));
        } else {
            unit(r, &mut s);
        }
    }
    s.push('"');
    s
}

/// A string literal that is likely to be used again as a key.
pub fn key(r: &mut Rng) -> String {
    match r.below(10) {
        0..=3 => r.pick(&["\"a\"", "\"b\"", "\"\\u0061\"", "\"\"", "\"\\u0062\"", "\"k\"", "\"\\n\"", "\"\\u000a\"", "\"\\\"\""]).to_string(),
        4 | 5 => {
            // around the length at which keys move to the heap
            let n = *r.pick(&[1usize, 2, 30, 31, 32, 33, 34, 64]);
            let c = *r.pick(&['a', 'b']);
            format!("\"{}\"", c.to_string().repeat(n))
        }
        _ => string(r),
    }
}

fn some_digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}
pub fn mantissa(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "0".into(),
        1 => r.below(10).to_string(),
        2 => r.below(100000).to_string(),
        3 => (r.u64() >> r.below(64)).to_string(),
        4 => {
            let base = *r.pick(&[
                u64::MAX, 1 << 63, i64::MAX as u64, 576460752303423500, 1844674407370955161, 184467440737095516, 999999999999999999,
                1000000000000000000, 9999999999999999999, 10000000000000000000, 1 << 53, 1 << 32, 922337203685477580,
            ]);
            let d = r.range(-12, 12);
            (base as i128 + d as i128).to_string()
        }
        5 => {
            let p = 1 + r.below(22);
            format!("1{}", "0".repeat(p))
        }
        6 => "9".repeat(1 + r.below(24)),
        7 => {
            // around 2^64 and multiples
            let k = 1 + r.below(10) as u128;
            ((k << 64) as i128 + r.range(-20, 20) as i128).to_string()
        }
        8 => {
            let n = 17 + r.below(6);
            format!("{}{}", 1 + r.below(9), some_digits(r, n))
        }
        9 => {
            let n = r.below(60);
            format!("{}{}", 1 + r.below(9), some_digits(r, n))
        }
        10 => {
            let n = r.below(21);
            let z = r.below(21);
            format!("{}{}{}", 1 + r.below(9), some_digits(r, n), "0".repeat(z))
        }
        11 => format!("1844674407370955161{}{}", r.below(10), if r.bool() { some_digits(r, 3) } else { String::new() }),
        12 => format!("5764607523034235{}{}", 10 + r.below(90), r.below(100)),
        _ => format!("{}", 1 + r.below(99)),
    }
}
pub fn number(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('-');
    }
    let m = mantissa(r);
    // the point somewhere in the mantissa, or before it
    match r.below(6) {
        0 | 1 => s.push_str(&m),
        2 if m.len() > 1 => {
            let p = 1 + r.below(m.len() - 1);
            s.push_str(&m[..p]);
            s.push('.');
            s.push_str(&m[p..]);
        }
        3 => {
            s.push_str("0.");
            let z = if r.chance(1, 6) { r.below(40) } else { r.below(4) };
            s.push_str(&"0".repeat(z));
            s.push_str(&m);
        }
        4 => {
            s.push_str(&m);
            s.push('.');
            let z = 1 + r.below(3);
            s.push_str(&"0".repeat(z));
        }
        _ => {
            s.push_str(&m);
            if r.bool() {
                s.push('.');
                let n = 1 + r.below(25);
                s.push_str(&some_digits(r, n));
            }
        }
    }
    if r.chance(2, 5) {
        s.push(if r.bool() { 'e' } else { 'E' });
        s.push_str(*r.pick(&["", "+", "-"]));
        if r.chance(1, 8) {
            let z = r.below(5);
            s.push_str(&"0".repeat(z));
        }
        let e = match r.below(10) {
            0..=4 => r.below(25),
            5 => r.below(400),
            6 => 32700 + r.below(140),
            7 => 65530 + r.below(12),
            8 => r.below(40000),
            _ => *r.pick(&[0usize, 1, 32767, 32768, 32769, 65535, 65536, 99999, 2147483647, 2147483648, 4294967296, 999999999999]),
        };
        s.push_str(&e.to_string());
        if r.chance(1, 40) {
            s.push_str("000000000000000000");
        }
    }
    s
}

pub struct Style {
    pub ws: usize, // out of 16: how often whitespace is put between tokens
    pub depth: usize,
    pub width: usize,
    pub strings: usize, // weights
    pub numbers: usize,
    pub literals: usize,
    pub containers: usize,
}

pub fn style(r: &mut Rng) -> Style {
    Style {
        ws: *r.pick(&[0usize, 0, 1, 4, 12]),
        depth: *r.pick(&[0usize, 1, 2, 3, 4, 6]),
        width: *r.pick(&[1usize, 2, 3, 4, 8]),
        strings: 2,
        numbers: 2,
        literals: 1,
        containers: 3,
    }
}

pub fn space(r: &mut Rng, st: &Style, out: &mut String) {
    while r.below(16) < st.ws {
        out.push(*r.pick(&[' ', ' ', '\n', '\t', '\r', '\u{b}', '\u{c}', '\n']));
        if r.bool() {
            break;
        }
    }
}

pub fn value(r: &mut Rng, st: &Style, depth: usize, out: &mut String) {
    let c = if depth == 0 { 0 } else { st.containers };
    let total = st.strings + st.numbers + st.literals + c;
    let x = r.below(total);
    if x < st.strings {
        let s = string(r);
        out.push_str(&s);
    } else if x < st.strings + st.numbers {
        let s = number(r);
        out.push_str(&s);
    } else if x < st.strings + st.numbers + st.literals {
        out.push_str(*r.pick(&["null", "true", "false"]));
    } else {
        container(r, st, depth, out);
    }
}
pub fn container(r: &mut Rng, st: &Style, depth: usize, out: &mut String) {
    let n = r.below(st.width + 1);
    let obj = r.bool();
    out.push(if obj { '{' } else { '[' });
    space(r, st, out);
    for i in 0..n {
        if i > 0 {
            out.push(',');
            space(r, st, out);
        }
        if obj {
            let k = key(r);
            out.push_str(&k);
            space(r, st, out);
            out.push(':');
            space(r, st, out);
        }
        value(r, st, depth - 1, out);
        space(r, st, out);
    }
    out.push(if obj { '}' } else { ']' });
}

pub fn document(r: &mut Rng) -> String {
    let st = style(r);
    let mut s = String::new();
    space(r, &st, &mut s);
    if st.depth > 0 && r.chance(4, 5) {
        container(r, &st, st.depth, &mut s);
    } else {
        value(r, &st, st.depth, &mut s);
    }
    space(r, &st, &mut s);
    s
}

/// Damage a text in one or two places.
pub fn damage(r: &mut Rng, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    let times = 1 + r.below(2);
    for _ in 0..times {
        let n = cs.len();
        let at = if n == 0 { 0 } else { r.below(n) };
        match r.below(8) {
            0 if n > 0 => {
                cs.remove(at);
            }
            1 | 2 => cs.insert(r.below(n + 1), *r.pick(SYNTAX)),
            3 if n > 0 => cs[at] = *r.pick(SYNTAX),
            4 if n > 0 => cs.truncate(at),
            5 if n > 0 => {
                let c = cs[at];
                cs.insert(at, c)
            }
            6 if n > 1 => {
                let b = r.below(n);
                cs.swap(at, b)
            }
            7 => cs.push(*r.pick(SYNTAX)),
            _ => cs.insert(r.below(n + 1), scalar(r)),
        }
    }
    cs.into_iter().collect()
}

/// n open containers, chosen by pattern, around `inner`.
pub fn nested(r: &mut Rng, n: usize, inner: &str, objects: usize, ws: bool) -> String {
    let mut open = String::new();
    let mut close = String::new();
    for _ in 0..n {
        let sp = if ws && r.chance(1, 4) { " " } else { "" };
        if r.below(4) < objects {
            open.push_str("{\"k\":");
            open.push_str(sp);
            close.insert_str(0, "}");
        } else {
            open.push('[');
            open.push_str(sp);
            close.insert_str(0, "]");
        }
    }
    format!("{}{}{}", open, inner, close)
}
