//! C01..C05: texts given to the real reader, with the answer.
use crate::gentext::*;
use crate::util::*;

pub fn one(cx: &mut Ctx, text: &str) {
    cx.event("parse", format!("\"i\":{}", cps(text)), || match json::parse(text) {
        Ok(v) => format!("\"r\":\"ok\",\"v\":{}", val(&v)),
        Err(e) => format!("\"r\":\"err\",\"er\":{},\"dp\":{}", error(&e), cps(&e.to_string())),
    });
}

/// every character of a list at every kind of place
fn probes(cx: &mut Ctx, chars: &[char], contexts: &[(&str, &str)]) {
    for (a, b) in contexts {
        for c in chars {
            one(cx, &format!("{}{}{}", a, c, b));
        }
        one(cx, &format!("{}{}", a, b));
        one(cx, a);
    }
}

fn depths(cx: &mut Ctx) {
    let lims: &[usize] = &[1, 2, 17, 255, 256, 257, 509, 510, 511, 512, 513, 514, 600];
    for &n in lims {
        for objects in [0, 2, 4] {
            for inner in ["", "1", "[]", "{}", "[[]]", " "] {
                if n < 500 && inner == "1" {
                    continue;
                }
                let t = nested(&mut cx.rng.clone(), n, inner, objects, false);
                one(cx, &t);
            }
        }
    }
    // depth is released again when containers close
    for &n in &[3usize, 100, 510, 511, 512] {
        let d = nested(&mut cx.rng.clone(), n, "1", 2, false);
        one(cx, &format!("[{},{}]", d, d));
        one(cx, &format!("[{},[{}]]", d, d));
        let e = nested(&mut cx.rng.clone(), n, "[],{}", 0, false);
        one(cx, &format!("{{\"a\":{},\"b\":{}}}", e, e));
        // unclosed, and closed by the wrong bracket
        one(cx, &"[".repeat(n));
        one(cx, &"{\"a\":".repeat(n));
        one(cx, &format!("{}1{}", "[".repeat(n), "]".repeat(n - 1)));
        one(cx, &format!("{}1{}}}", "[".repeat(n), "]".repeat(n - 1)));
        one(cx, &format!("{}1{}", "[".repeat(n), "]".repeat(n + 1)));
    }
    for &n in &[513usize, 514, 700] {
        one(cx, &"[".repeat(n));
        one(cx, &"{\"a\":".repeat(n));
        one(cx, &"[ ".repeat(n));
        one(cx, &format!("{}x", "[".repeat(n)));
    }
    // many siblings
    let many: String = (0..700).map(|_| "[1],").collect();
    one(cx, &format!("[{}{{}}]", many));
    let many: String = (0..600).map(|i| format!("\"{}\":{{\"x\":[]}},", i)).collect();
    one(cx, &format!("{{{}\"z\":0}}", many));
}

/// all escapes: every \uXXXX, lone surrogates, pair boundaries
fn escapes(cx: &mut Ctx, every: usize, prop: &str) {
    let mut u = 0u32;
    while u < 0x10000 {
        let mut s = String::from("\"");
        for k in 0..256u32 {
            let x = u + k;
            if (0xd800..0xe000).contains(&x) {
                continue;
            }
            let h = format!("{:04x}", x);
            s.push_str("\\u");
            s.push_str(&if (x + every as u32) % 3 == 0 { h.to_uppercase() } else { h });
            if x % 7 == 0 {
                s.push('z');
            }
        }
        s.push('"');
        one(cx, &s);
        u += 256;
    }
    let his: Vec<u32> = if prop == "C02" || cx.thorough {
        (0xd800..0xdc00).step_by(every).chain([0xdbff, 0xd800, 0xd801]).collect()
    } else {
        vec![0xd800, 0xd83d, 0xdbff]
    };
    // one string per first unit, all kinds of second units
    for hi in his {
        let mut s = String::from("\"");
        for lo in [0xdc00u32, 0xdc01, 0xdd55, 0xdeaa, 0xdffe, 0xdfff] {
            s.push_str(&format!("\\u{:04x}\\u{:04X}", hi, lo));
        }
        s.push('"');
        one(cx, &s);
    }
    let mut s = String::from("\"");
    for lo in 0xdc00u32..0xe000 {
        s.push_str(&format!("\\ud83d\\u{:04x}", lo));
        if lo % 256 == 255 {
            s.push('"');
            one(cx, &s);
            s = String::from("\"");
        }
    }
    // every unit as a second unit after a first one, and first units alone
    for hi in [0xd800u32, 0xdbff, 0xdc00, 0xdfff, 0xd83d] {
        for lo in [
            0x0u32, 0x41, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xffff, 0xd83d, 0xde00, 0x5c00, 0x9c00, 0xfc00, 0xdbfe,
        ] {
            one(cx, &format!("\"\\u{:04x}\\u{:04x}\"", hi, lo));
            one(cx, &format!("{{\"x\\u{:04x}\\u{:04x}y\":0}}", hi, lo));
        }
        for rest in ["", "\"", "x\"", "\\\"", "\\", "\\n\"", "\\ux\"", "\\u", "\\ud", "\\ude0\"", "\\ude00", "\u{e9}\"", "\\\\ude00\""] {
            one(cx, &format!("\"\\u{:04x}{}", hi, rest));
        }
    }
    if prop == "C01" || prop == "C05" || cx.thorough {
        for u in (0xd7f0u32..0xe010).step_by(if cx.thorough { 1 } else { 13 }) {
            one(cx, &format!("\"\\u{:04x}\"", u));
            one(cx, &format!("[\"\\u{:04X}a\"]", u));
        }
    }
}

/// every character as it is: in a value, in a key, after an escape and before
/// one
fn raw_chars(cx: &mut Ctx) {
    let (shift, all) = (cx.rng.below(64) as u32, cx.thorough);
    for b in (0..0x110000u32 / 256).filter(|b| *b < 256 || b % 64 == shift || all) {
        let t: String = (0..256).filter_map(|c| char::from_u32(256 * b + c)).filter(|&c| c >= ' ' && c != '"' && c != '\\').collect();
        match b % 3 {
            0 => one(cx, &format!("[\"{}\"]", t)),
            1 => one(cx, &format!("{{\"{}\":0}}", t)),
            _ => one(cx, &format!("\"\\n{}\\t\"", t)),
        }
    }
    // of each length of encoding, each alone before and after an escape
    for c in ['\u{7f}', '\u{80}', '\u{bf}', '\u{c0}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{10ffff}'] {
        for t in [format!("{}", c), format!("\\n{}", c), format!("{}\\n", c), format!("{}{}", c, c), format!("\\u00e9{}\\ud800\\udc00{}", c, c), format!("a{}b\\/{}c", c, c)] {
            one(cx, &format!("\"{}\"", t));
            one(cx, &format!("{{\"{}\":\"{}\"}}", t, t));
            one(cx, &format!("[\"{}\",{}]", t, c));
        }
    }
}

/// one unusual thing at every offset of an otherwise plain string, with plain
/// text behind it
fn offsets(cx: &mut Ctx) {
    let odd = [
        "\u{0}", "\u{1}", "\t", "\n", "\u{1f}", "\"", "\\\\", "\\\"", "\\n", "\\x", "\\u0041", "\\u12", "\\ud800", "\\ud83d\\ude00", "\u{7f}", "\u{80}", "\u{e9}", "\u{7ff}",
        "\u{2028}", "\u{ffff}", "\u{1f600}", "/", " ", "!", "#", "[", "]",
    ];
    for x in odd {
        for at in 0..34 {
            let fill = *cx.rng.pick(&["a", "a", "~", "0", " ", "_", "Z", "\u{e9}", "\u{20ac}"]);
            let tail = *cx.rng.pick(&[0usize, 1, 7, 8, 15, 16, 17, 18, 24, 33]);
            let (a, b) = *cx.rng.pick(&[("\"", "\""), ("[\"", "\"]"), ("{\"", "\":1}"), (" [\"x\", \"", "\",2]")]);
            one(cx, &format!("{}{}{}{}{}", a, fill.repeat(at), x, fill.repeat(tail), b));
            // behind an escape, or with one to come
            let esc = *cx.rng.pick(&["\\n", "\\\"", "\\\\", "\\u00e9", "\\ud83d\\ude00"]);
            let (c, d) = if cx.rng.chance(3, 4) { (esc, "") } else { ("", esc) };
            one(cx, &format!("{}{}{}{}{}{}{}", a, c, fill.repeat(at), x, fill.repeat(tail), d, b));
        }
    }
    // every control character, near and far behind an escape
    for c in 0..0x20u8 {
        for at in [0usize, 1, 2, 3, 5, 8, 13, 17, 21, 34, 63, 64, 130] {
            let (a, b) = *cx.rng.pick(&[("\"", "\""), ("[\"", "\"]"), ("{\"", "\":1}")]);
            let fill = *cx.rng.pick(&["a", "Z", " ", "\u{e9}"]);
            let esc = *cx.rng.pick(&["", "\\n", "\\t", "\\u0041", "\\\\"]);
            one(cx, &format!("{}{}{}{}{}", a, esc, fill.repeat(at), c as char, b));
        }
    }
}

/// strings of every length around storage sizes, an escape at every offset
fn lengths(cx: &mut Ctx) {
    for n in (0..70usize).chain(120..132).chain([255, 256, 257, 1000]) {
        let mut parts = Vec::new();
        for fill in ["a", "\u{e9}", "\u{1f600}", "\\n", "\\u0041", "\\ud83d\\ude00"] {
            parts.push(format!("\"{}\"", fill.repeat(n)));
        }
        one(cx, &format!("[{}]", parts.join(",")));
        one(cx, &format!("{{{}:1}}", parts[0]));
        if n > 0 {
            let at = cx.rng.below(n);
            for esc in ["\\n", "\\u00e9", "\\ud800\\udc00", "\\\"", "\u{1f600}"] {
                one(cx, &format!("{{\"{}{}{}\":\"{}{}{}\"}}", "k".repeat(at), esc, "k".repeat(n - at), "v".repeat(n - at), esc, "v".repeat(at)));
            }
        }
    }
    // one string's contents must not leak into the next
    for _ in 0..40 {
        let mut s = String::from("{");
        let n = 2 + cx.rng.below(8);
        for i in 0..n {
            if i > 0 {
                s.push(',');
            }
            let k = key(&mut cx.rng);
            s.push_str(&k);
            s.push(':');
            let v = string(&mut cx.rng);
            s.push_str(&v);
        }
        s.push('}');
        one(cx, &s);
    }
}

/// every length, every size and every depth there is up to some bound
fn every(cx: &mut Ctx, prop: &str) {
    if matches!(prop, "C01" | "C02" | "C04") {
        for n in 70..=300usize {
            let at = cx.rng.below(n);
            let esc = *cx.rng.pick(&["\\n", "\\u00e9", "\\\"", "\u{20ac}", "\\ud83d\\ude00"]);
            let c = *cx.rng.pick(&["a", "0", " ", "~", "\u{e9}"]);
            let plain = c.repeat(n);
            let mixed = format!("{}{}{}", c.repeat(at), esc, c.repeat(n - at - 1));
            let t = if cx.rng.bool() { format!("{{\"{}\":\"{}\"}}", plain, mixed) } else { format!("{{\"{}\":\"{}\"}}", mixed, plain) };
            one(cx, &t);
        }
    }
    if matches!(prop, "C01" | "C04") {
        for n in 0..=140usize {
            let a: Vec<String> = (0..n).map(|i| (i % 7).to_string()).collect();
            let m: Vec<String> = (0..n).map(|i| format!("\"{}\":{}", i * 37 % n, i % 5)).collect();
            let gap = *cx.rng.pick(&["", " ", "\n"]);
            one(cx, &format!("[{}]", a.join(&format!(",{}", gap))));
            one(cx, &format!("{{{}}}", m.join(&format!("{},", gap))));
        }
        for n in 1..=513usize {
            let inner = *cx.rng.pick(&["1", "[]", "{}", "\"s\"", "null,0"]);
            let objects = if inner == "null,0" { 0 } else { cx.rng.below(5) };
            let t = nested(&mut cx.rng, n, inner, objects, false);
            one(cx, &t);
        }
    }
}

fn numbers(cx: &mut Ctx, n: usize) {
    let mut batch = Vec::new();
    for i in 0..n {
        let t = number(&mut cx.rng);
        if i % 3 == 0 {
            one(cx, &t);
        } else {
            batch.push(t);
            if batch.len() == 12 {
                one(cx, &format!("[{}]", batch.join(",")));
                batch.clear();
            }
        }
    }
}

fn number_edges(cx: &mut Ctx) {
    let mut ts: Vec<String> = Vec::new();
    for sign in ["", "-"] {
        for m in [
            "0", "1", "9", "10", "99", "18446744073709551615", "18446744073709551614", "18446744073709551616", "18446744073709551617",
            "18446744073709551619", "18446744073709551620", "18446744073709551625", "1844674407370955161", "1844674407370955162",
            "1844674407370955160", "184467440737095516150", "184467440737095516160", "184467440737095516159", "576460752303423500",
            "576460752303423499", "576460752303423501", "5764607523034235009", "5764607523034235010", "57646075230342350079",
            "9223372036854775807", "9223372036854775808", "9999999999999999999", "99999999999999999999", "10000000000000000000",
            "100000000000000000000", "12345678901234567890123456789", "1152921504606846975", "11529215046068469760",
        ] {
            for e in [
                "", ".0", ".5", ".50", ".00000000000000000000", ".99999999999999999999999999", "e0", "E+1", "e-1", "e5", "e-5", "e32766", "e32767",
                "e32768", "e-32767", "e-32768", "e-32769", "e32748", "e-32748", "e40000", "e-40000", "e65535", "e65536", "e-65536", "e65537", "e99999",
                "e-99999", "e2147483647", "e-2147483648", "e4294967295", "e4294967296", "e99999999999999999999", "e-99999999999999999999",
                ".5e32767", ".5e32768", ".55e-32767", ".5e-32768", ".123e32770", ".123e-32766", ".00000000001e32778", "e00000000000000000000005",
                "e+00", "e-0", ".0e-0", "e18", "e19", "e20", "e-18", "e-20",
            ] {
                ts.push(format!("{}{}{}", sign, m, e));
            }
        }
        for z in [0usize, 1, 17, 18, 19, 20, 40, 1000] {
            for d in ["1", "7", "18446744073709551615", "184467440737095516159", "10", "100"] {
                ts.push(format!("{}0.{}{}", sign, "0".repeat(z), d));
                ts.push(format!("{}{}{}", sign, d, "0".repeat(z)));
                ts.push(format!("{}{}{}.5", sign, d, "0".repeat(z)));
                ts.push(format!("{}{}.{}1", sign, d, "0".repeat(z)));
                ts.push(format!("{}{}.{}1e{}", sign, d, "0".repeat(z), z));
                ts.push(format!("{}0.{}{}e{}", sign, "0".repeat(z), d, 32700 + z));
                ts.push(format!("{}0.{}{}e-{}", sign, "0".repeat(z), d, 32700));
            }
        }
    }
    for c in ts.chunks(25) {
        one(cx, &format!("[{}]", c.join(",")));
    }
    for t in ts.iter().step_by(7) {
        one(cx, t);
        one(cx, &format!("{} ", t));
    }
    // very long literals: the exponent counter itself is bounded
    for z in [32765usize, 32766, 32768, 33000] {
        one(cx, &format!("0.{}1", "0".repeat(z)));
        if z < 32766 {
            one(cx, &format!("1{}", "0".repeat(z)));
            one(cx, &format!("{}e-30000", "9".repeat(z)));
        }
    }
    one(cx, &format!("0.{}1e32000", "0".repeat(33000)));
    one(cx, &format!("1.{}", "3".repeat(33000)));
}

/// long flat containers: many elements, many keys
fn wide(cx: &mut Ctx) {
    for n in [10usize, 16, 17, 64, 65, 129, 500] {
        let a: Vec<String> = (0..n).map(|i| i.to_string()).collect();
        one(cx, &format!("[{}]", a.join(",")));
        let mut ks: Vec<usize> = (0..n).collect();
        let mut r = cx.rng.clone();
        r.shuffle(&mut ks);
        let m: Vec<String> = ks.iter().map(|i| format!("\"k{}\":{}", i % (n - 3), i)).collect();
        one(cx, &format!("{{{}}}", m.join(",")));
        let m: Vec<String> = ks.iter().map(|i| format!("\"{}{}\":[{}]", "x".repeat(25 + i % 12), i, i)).collect();
        one(cx, &format!("{{{}}}", m.join(",")));
    }
}

/// the same kinds of place, after much has been read: further on in the same
/// string where there is one, else further on in the document
fn late(cx: &mut Ctx, n: usize) {
    const CHARS: &[char] = &['"', '\\', 'u', 'n', 'g', 'G', '0', 'f', 'F', ' ', '\n', '\u{1f}', '/', '-', '.', ',', ':', ']', '}', '\u{e9}', '~', '@', '`'];
    for i in 0..n {
        let (a, b) = *cx.rng.pick(CONTEXTS);
        let size = match i % 40 {
            0 => 65600,
            1..=9 => 4200,
            10..=19 => 1100,
            _ => 250 + cx.rng.below(12),
        };
        let fill = match cx.rng.below(5) {
            0 => "a".repeat(size),
            1 => "\\n".repeat(size),
            2 => "\u{1f600}\\\\".repeat(size / 2),
            3 => format!("\\t{}", "\u{e9}".repeat(size)),
            _ => "\\u00e9\\\"".repeat(size / 2),
        };
        let c = if cx.rng.chance(1, 8) { String::new() } else if cx.rng.chance(1, 5) { cx.rng.pick(SPECIAL).to_string() } else { cx.rng.pick(CHARS).to_string() };
        let t = match a.find('"') {
            Some(q) => format!("{}{}{}{}{}", &a[..=q], fill, &a[q + 1..], c, b),
            None => format!("[\"{}\",\n{}{}{}]", fill, a, c, b),
        };
        one(cx, &t);
    }
}

/// Whitespace of every length wherever it may stand, and something that only
/// looks like it somewhere in between.
fn runs(cx: &mut Ctx, every: usize) {
    let lens: Vec<usize> = (0..20).chain(30..35).chain(62..67).chain([100, 127, 128, 129, 255, 256, 257, 1023, 1025]).collect();
    let places: &[(&str, &str)] = &[
        ("", "1"), ("1", ""), ("[", "]"), ("[", "1]"), ("[1", "]"), ("[1", ",2]"), ("[1,", "2]"), ("{", "}"), ("{", "\"a\":1}"), ("{\"a\"", ":1}"),
        ("{\"a\":", "1}"), ("{\"a\":1", "}"), ("{\"a\":1", ",\"b\":2}"), ("{\"a\":1,", "\"b\":2}"), ("[\"a\"", ",[]]"), ("[[]", ",{}]"),
        ("[", ",1]"), ("[1,", "]"), ("{\"a\"", "1}"), ("{\"a\":1,", "}"), ("tr", "ue"), ("-", "1"), ("1", ".5"), ("1.", "5"), ("1e", "5"), ("1", "x"), ("[1", "2]"), ("", ""), ("[", ""), ("{\"a\":", ""),
    ];
    let shift = cx.rng.below(every);
    for (k, &(a, b)) in places.iter().enumerate() {
        for (j, &n) in lens.iter().enumerate() {
            if (k + j) % every != shift {
                continue;
            }
            let kind = cx.rng.below(6);
            let mut w: Vec<char> = (0..n)
                .map(|_| match kind {
                    0 => ' ',
                    1 => '\n',
                    2 => '\t',
                    3 => '\r',
                    _ => *cx.rng.pick(&[' ', ' ', '\n', '\t', '\r', '\u{b}', '\u{c}']),
                })
                .collect();
            if n > 0 && cx.rng.chance(1, 3) {
                let at = if cx.rng.bool() { n - 1 } else { cx.rng.below(n) };
                w[at] = *cx.rng.pick(&['\0', '\u{8}', '\u{e}', '\u{1c}', '\u{1f}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{200b}', '!', '\u{7f}', '/', '0', '*', '\u{120}', '\u{2009}']);
            }
            let w: String = w.into_iter().collect();
            one(cx, &format!("{}{}{}", a, w, b));
        }
    }
}

/// Whatever may or may not come next, behind many elements or members of the
/// container it comes in, or many containers around it.
fn grown(cx: &mut Ctx, n: usize) {
    const NEXT: &[&str] = &["", ",", ",]", "]", "}", ",}", ",,", ":", " ", "\n,", ",1", ", 1]", ",\"k\"", ",\"k\":", ",\"k\":1", "1", "\"", "\\", "x", "nul", "\0", "-", "\u{e9}"];
    for _ in 0..n {
        let (a, b) = *cx.rng.pick(CONTEXTS);
        let size = match cx.rng.below(20) {
            0 => *cx.rng.pick(&[255usize, 256, 257, 300]),
            1..=3 => *cx.rng.pick(&[63usize, 64, 65, 127, 128, 129]),
            4..=9 => 1 + cx.rng.below(40),
            _ => 1 + cx.rng.below(12),
        };
        let object = cx.rng.bool();
        let item = *cx.rng.pick(&["1", "0", "-0.5e1", "null", "\"\"", "\"a\\n\"", "[]", "{}", "[1]", "{\"a\":1}", "true"]);
        let gap = *cx.rng.pick(&["", "", " ", "\n"]);
        let items: Vec<String> = (0..size).map(|i| if object { format!("\"{}\":{}", i, item) } else { item.to_string() }).collect();
        let items = items.join(&format!(",{}", gap));
        let next = if cx.rng.chance(1, 6) { cx.rng.pick(SPECIAL).to_string() } else { cx.rng.pick(NEXT).to_string() };
        let (open, close) = if object { ('{', '}') } else { ('[', ']') };
        let t = match cx.rng.below(4) {
            0 => format!("{}{}{}", open, items, next),
            1 => format!("{}{}{}{}", open, items, next, close),
            2 => {
                // inside others
                let n = cx.rng.below(5);
                format!("{}{}{}{}{}{}", "[".repeat(n), open, items, next, close, "]".repeat(n))
            }
            _ => match a.find(open) {
                // the context's own container
                Some(q) if q + 1 < a.len() => format!("{}{},{}{}{}", &a[..=q], items, &a[q + 1..], next, b),
                Some(q) => format!("{}{}{}{}", &a[..=q], items, next, b),
                None => format!("{}{},{}{}{}{}", open, items, if object { "\"z\":" } else { "" }, a, next, b),
            },
        };
        one(cx, &t);
    }
}


/// texts longer than any 8 or 16 bit counter: many lines, long lines, long
/// strings, many elements, deep whitespace
fn large(cx: &mut Ctx, prop: &str) {
    let ns: &[usize] = &[254, 255, 256, 257, 511, 512, 4095, 4096, 65534, 65535, 65536, 70000];
    let top = *cx.rng.pick(&[65536, 70000]);
    for (i, &n) in ns.iter().enumerate() {
        if n > 60000 && !cx.thorough && n != top {
            continue;
        }
        match prop {
            "C05" => {
                one(cx, &format!("[1,{}x]", "\n".repeat(n)));
                one(cx, &format!("[{}x", " ".repeat(n)));
                one(cx, &format!("\"{}\u{1}\"", "\u{e9}".repeat(n)));
                one(cx, &format!("{{\"{}\":\n \"{}\\u\"}}", "k".repeat(n), "v".repeat(n)));
                one(cx, &format!("[{}\n{}]]", "0,".repeat(n) + "0", " ".repeat(i)));
                one(cx, &format!("\"{}\\ud800\"", "\\n".repeat(n)));
                one(cx, &format!("{}.{}x", "7".repeat(20), "3".repeat(n)));
                one(cx, &format!("\"{}", "a".repeat(n)));
            }
            "C01" => {
                one(cx, &format!("{}[{}1{}]{}", " ".repeat(n), "\t".repeat(n), "\r\n".repeat(n), "\n".repeat(n)));
                one(cx, &format!("[{}0]", "0,".repeat(n)));
                one(cx, &format!("[\"{}\",\"{}\"]", "a".repeat(n), "\\n".repeat(n)));
                one(cx, &format!("{}x", " ".repeat(n)));
                one(cx, &format!("1.{}e-{}5", "0".repeat(n), "0".repeat(n)));
            }
            "C02" => {
                for fill in ["a", "\u{e9}", "\\n", "\\u00e9"] {
                    one(cx, &format!("[\"{}\",\"x{}\"]", fill.repeat(n), fill));
                    one(cx, &format!("{{\"{}\":\"\\t\"}}", fill.repeat(n)));
                }
                one(cx, &format!("[\"{}\\t\",\"\\\"\"]", "a".repeat(n)));
                // every kind of escape far into a string
                for tail in ["\\ud83d\\ude00\\u20ac\\u00e9\\u0041\\n\\u0000\u{e9}\u{1f600}\\/", "\\\\\u{1f600}\\\"\\udbff\\udfff\\u07ff\\u0800\\uffff\\b\\f\\r\\t"] {
                    let fill = *cx.rng.pick(&["a", "\\t", "\u{e9}"]);
                    one(cx, &format!("[\"{}{}\",\"{}\"]", fill.repeat(n), tail, tail));
                    one(cx, &format!("{{\"{}{}\":1}}", fill.repeat(n), tail));
                }
            }
            "C03" => {
                one(cx, &format!("[1.{}]", "25".repeat(n / 2)));
                one(cx, &format!("0.{}25", "0".repeat(n.min(33000))));
                one(cx, &format!("25{}", "0".repeat(n.min(32760))));
                one(cx, &format!("3.5e{}7", "0".repeat(n)));
                one(cx, &format!("3.5e-{}9{}", "0".repeat(n), "9".repeat(n % 7)));
                one(cx, &format!("1{}e-{}", "7".repeat(n.min(32760)), n));
            }
            "C04" => {
                one(cx, &format!("[{}0]", "7,".repeat(n)));
                one(cx, &format!("{}[[]{},{{}}]", " ".repeat(n), "\n".repeat(n)));
                one(cx, &format!("[{}{{\"a\":[]}}]", "[],".repeat(n)));
                if n <= 600 {
                    let m: String = (0..n).map(|j| format!("\"{}\":{},", j * 7919 % 65537, j)).collect();
                    one(cx, &format!("{{{}\"0\":true,\"{}\":[1]}}", m, 7919 % 65537));
                }
            }
            _ => {}
        }
    }
}

/// What may come after many elements or members, and what may not.
fn ends(cx: &mut Ctx) {
    const ARRAY: &[&str] = &["]", ",]", "", ",", " 1]", "}", "]]", ",1}", ",,1]", "]x", ":1]", "\"]", ",{}]", ",[]]", ",nul]", ",\"", ",\"a\"]", ",-]", ",{\"a\"}]", ",1,]"];
    const OBJECT: &[&str] = &[
        "}", ",}", "", ",", " 1}", "]", "}}", ",1}", ",\"a\"}", ",\"a\":}", ",\"a\" 1}", ",\"a\":1,}", ",\"a\":1]", ",a:1}", ",,\"a\":1}", "}x", ":1}", ",\"a\":1}",
        ",\"a\":[]}", ",\"0\":{}}", ",\"a\":\"", ",\"",
    ];
    for n in [1usize, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 10000, 65535, 65536, 65537] {
        let every = if cx.thorough || n <= 300 { 1 } else if n <= 4096 { 3 } else { 10 };
        let shift = cx.rng.below(every);
        let item = *cx.rng.pick(&["0,", "0,", "[],", "\"\",", "null,", "{},"]);
        let most = if item.len() > 2 && n > 20000 { "0," } else { item };
        let head: String = format!("[{}0", most.repeat(n - 1));
        for (i, end) in ARRAY.iter().enumerate() {
            if i % every == shift || i < 2 {
                one(cx, &format!("{}{}", head, end));
            }
        }
        if n <= if cx.thorough { 4096 } else { 1024 } {
            let members: Vec<String> = (0..n).map(|j| format!("\"{}\":0", j * 7919 % 65537)).collect();
            let head = format!("{{{}", members.join(","));
            for (i, end) in OBJECT.iter().enumerate() {
                if i % every == shift || i < 2 {
                    one(cx, &format!("{}{}", head, end));
                }
            }
        }
    }
}

pub fn drive(cx: &mut Ctx) {
    let prop = cx.prop.clone();
    let n = cx.n;
    let all_bytes: Vec<char> = (0u32..256).map(|x| char::from_u32(x).unwrap()).collect();
    let prop = prop.as_str();
    match prop {
        "C01" | "C05" => {
            let step = if cx.thorough { 1 } else { 3 };
            let shift = cx.rng.below(step);
            let cs: Vec<(&str, &str)> = CONTEXTS.iter().enumerate().filter(|(i, _)| i % step == shift).map(|(_, c)| *c).collect();
            probes(cx, &all_bytes, &cs);
            probes(cx, SYNTAX, CONTEXTS);
            probes(cx, SPECIAL, CONTEXTS);
            depths(cx);
            escapes(cx, 97, prop);
            ends(cx);
            if prop == "C01" {
                number_edges(cx);
                lengths(cx);
            }
        }
        "C02" => {
            raw_chars(cx);
            escapes(cx, 16, prop);
            lengths(cx);
            let cs: Vec<(&str, &str)> = CONTEXTS.iter().filter(|(a, _)| a.contains('"')).cloned().collect();
            probes(cx, &all_bytes, &cs);
            probes(cx, SPECIAL, &cs);
        }
        "C03" => {
            number_edges(cx);
            numbers(cx, n * 12);
        }
        "C04" => {
            depths(cx);
            wide(cx);
            lengths(cx);
        }
        _ => {}
    }
    large(cx, prop);
    every(cx, prop);
    if matches!(prop, "C01" | "C02" | "C05") {
        offsets(cx);
        late(cx, if cx.thorough { 4000 } else { 480 });
        if prop != "C02" {
            runs(cx, if cx.thorough { 1 } else { 2 });
            grown(cx, if cx.thorough { 12000 } else { 1200 });
        }
    }
    for i in 0..n {
        let mut t = match prop {
            "C02" => {
                if i % 3 == 0 {
                    let s = string(&mut cx.rng);
                    let k = key(&mut cx.rng);
                    let k2 = key(&mut cx.rng);
                    let s2 = string(&mut cx.rng);
                    format!("{{{}:{},{}:[{}]}}", k, s, k2, s2)
                } else {
                    string(&mut cx.rng)
                }
            }
            "C03" => {
                let t = number(&mut cx.rng);
                match i % 5 {
                    0 => format!("[{}]", t),
                    1 => format!("{{\"a\":{}}}", t),
                    2 => format!(" {}\n", t),
                    3 => format!("[{} ,{}]", t, number(&mut cx.rng)),
                    _ => t,
                }
            }
            _ => document(&mut cx.rng),
        };
        if (prop == "C01" || prop == "C05") && i % 3 != 0 {
            if prop == "C05" && i % 3 == 1 {
                // spread over lines
                t = t.replace(',', if cx.rng.bool() { ",\n" } else { "\r\n," });
            }
            t = damage(&mut cx.rng, &t);
        } else if prop != "C04" && i % 10 == 0 {
            t = damage(&mut cx.rng, &t);
        }
        one(cx, &t);
        // whitespace between tokens must not matter: every truncation of a short text
        if (prop == "C01" || prop == "C05") && i % 40 == 0 && t.chars().count() < 60 {
            let ends: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
            for e in ends {
                one(cx, &t[..e]);
            }
        }
    }
}
