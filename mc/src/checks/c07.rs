//! C07: literals keep their exact value from IDL to JSON.
use crate::drv;
use crate::engine::{Case, Cx, Res};
use crate::fail;
use serde_json::{Map, Value, json};

/// Arbitrary-precision natural number, little-endian decimal digits are produced on demand.
#[derive(Clone)]
struct Big(Vec<u32>);
impl Big {
    fn from(mut x: u128) -> Big {
        let mut v = vec![];
        while x > 0 {
            v.push(x as u32);
            x >>= 32;
        }
        Big(v)
    }
    fn mul(&mut self, m: u32) {
        let mut carry = 0u64;
        for d in self.0.iter_mut() {
            let t = *d as u64 * m as u64 + carry;
            *d = t as u32;
            carry = t >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }
    fn add(&mut self, a: u32) {
        let mut carry = a as u64;
        for d in self.0.iter_mut() {
            let t = *d as u64 + carry;
            *d = t as u32;
            carry = t >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }
    fn decimal(mut self) -> String {
        let mut out = vec![];
        while !self.0.is_empty() {
            let mut rem = 0u64;
            for d in self.0.iter_mut().rev() {
                let t = (rem << 32) | *d as u64;
                *d = (t / 1_000_000_000) as u32;
                rem = t % 1_000_000_000;
            }
            while self.0.last() == Some(&0) {
                self.0.pop();
            }
            out.push(rem);
        }
        let mut s = String::new();
        for (i, x) in out.iter().rev().enumerate() {
            s += &if i == 0 { x.to_string() } else { format!("{x:09}") };
        }
        if s.is_empty() { "0".into() } else { s }
    }
}

/// The double nearest to `0x<int>.<frac>p<exp>`, by way of its exact decimal expansion.
fn hex_float(int: &str, frac: &str, exp: i64) -> f64 {
    let mut m = Big(vec![]);
    for c in int.chars().chain(frac.chars()) {
        m.mul(16);
        m.add(c.to_digit(16).unwrap());
    }
    let mut e = exp - 4 * frac.len() as i64;
    if m.0.is_empty() {
        return 0.0;
    }
    let bits = m.0.len() as i64 * 32;
    if e > 2000 {
        return f64::INFINITY;
    }
    if e + bits < -1200 {
        return 0.0;
    }
    let mut ten = 0i64;
    while e > 0 {
        m.mul(2);
        e -= 1;
    }
    while e < 0 {
        m.mul(5);
        ten -= 1;
        e += 1;
    }
    format!("{}e{}", m.decimal(), ten).parse().unwrap()
}

fn float_value(v: f64) -> Value {
    if v.is_nan() {
        json!("NaN")
    } else if v.is_infinite() {
        json!(if v > 0.0 { "Infinity" } else { "-Infinity" })
    } else {
        json!(v)
    }
}

/// Strict equality: a float never equals an integer, and the zeros differ.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x.is_f64() || y.is_f64() {
                x.is_f64() && y.is_f64() && x.as_f64().unwrap().to_bits() == y.as_f64().unwrap().to_bits()
            } else {
                x == y
            }
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| same(a, b))),
        _ => a == b,
    }
}

/// The literal `lit`, whose value is `want` (None: it must be refused), in every position a
/// JSON literal can take.
fn everywhere(c: &mut Case, lit: &str, want: Option<&Value>, ty: Option<&str>) -> Res {
    c.state(lit);
    let mut places: Vec<(String, String, String)> = vec![
        // (name, source, JSON pointer)
        ("type annotation".into(), format!("protocol P {{ record R {{ @x({lit}) int f; }} }}"), "/types/0/fields/0/type/x".into()),
        ("field annotation".into(), format!("protocol P {{ record R {{ int @x({lit}) f; }} }}"), "/types/0/fields/0/x".into()),
        ("record annotation".into(), format!("@x({lit}) protocol P {{ @x({lit}) record R {{ }} }}"), "/types/0/x".into()),
        ("protocol annotation".into(), format!("@x({lit}) protocol P {{ }}"), "/x".into()),
        ("message annotation".into(), format!("protocol P {{ @x({lit}) void m(); }}"), "/messages/m/x".into()),
        ("nested".into(), format!("@x({{\"a\":[1,{{\"b\":{lit}}}]}}) protocol P {{ }}"), "/x/a/1/b".into()),
    ];
    if let Some(t) = ty {
        places.push(("field default".into(), format!("protocol P {{ record R {{ {t} f = {lit}; }} }}"), "/types/0/fields/0/default".into()));
        places.push(("parameter default".into(), format!("protocol P {{ void m({t} f = {lit}); }}"), "/messages/m/request/0/default".into()));
        places.push(("array default".into(), format!("protocol P {{ record R {{ array<{t}> f = [{lit},{lit}]; }} }}"), "/types/0/fields/0/default/1".into()));
        places.push(("map default".into(), format!("protocol P {{ record R {{ map<{t}> f = {{\"k\":{lit}}}; }} }}"), "/types/0/fields/0/default/k".into()));
        places.push(("union default".into(), format!("protocol P {{ record R {{ union {{ {t}, null }} f = {lit}; }} }}"), "/types/0/fields/0/default".into()));
    }
    for (place, src, ptr) in &places {
        let got = drv::idl(src);
        c.trace();
        c.steps(1);
        let d = || json!({"input": src, "place": place, "literal": lit, "want": want,
            "compiler": match &got.res { Ok(v) => v.to_string(), Err(e) => drv::diag_plain(e).text() }});
        match (&got.res, want) {
            (Ok(v), Some(w)) => match v.pointer(ptr) {
                Some(g) if same(g, w) => {
                    // and through the text that is written out
                    let text = serde_json::to_string_pretty(v).unwrap();
                    let back: Value = serde_json::from_str(&text).unwrap();
                    let b = back.pointer(ptr);
                    // the reader used here may be off by one unit in the last place of a float;
                    // the text itself is read by the exact parser of the standard library
                    let ok = match w {
                        Value::Number(n) if n.is_f64() => text.split([' ', '\n', ',']).any(|t| t.parse::<f64>().is_ok_and(|x| x.to_bits() == n.as_f64().unwrap().to_bits())),
                        _ => b.is_some_and(|g| same(g, w)) || format!("{w}").contains("e"),
                    };
                    if !ok {
                        fail!(d(), "{place}: the written JSON does not hold the value of {lit}");
                    }
                    c.outcome(&w.to_string());
                }
                g => fail!(d(), "{place}: {lit} became {g:?}, want {w}"),
            },
            (Err(_), None) => c.outcome("refused"),
            (Ok(_), None) => fail!(d(), "{place}: {lit} is accepted"),
            (Err(_), Some(_)) => fail!(d(), "{place}: {lit} is refused"),
        }
    }
    Ok(())
}

/// Decode the body of a string literal; None where the meaning is not defined (lone surrogates).
fn decode(body: &str) -> Option<String> {
    let c: Vec<char> = body.chars().collect();
    let mut u: Vec<u16> = vec![];
    let mut i = 0;
    let mut buf = [0u16; 2];
    while i < c.len() {
        if c[i] != '\\' {
            u.extend_from_slice(c[i].encode_utf16(&mut buf));
            i += 1;
            continue;
        }
        let e = c[i + 1];
        i += 2;
        match e {
            'b' => u.push(8),
            't' => u.push(9),
            'n' => u.push(10),
            'f' => u.push(12),
            'r' => u.push(13),
            '"' | '\'' | '\\' => u.push(e as u16),
            'u' => {
                let h: String = c[i..i + 4].iter().collect();
                u.push(u16::from_str_radix(&h, 16).unwrap());
                i += 4;
            }
            _ => {
                let max = if e <= '3' { 3 } else { 2 };
                let mut v = e.to_digit(8).unwrap();
                let mut n = 1;
                while n < max && i < c.len() && c[i].is_digit(8) {
                    v = v * 8 + c[i].to_digit(8).unwrap();
                    i += 1;
                    n += 1;
                }
                u.push(v as u16);
            }
        }
    }
    // raw characters never form half of a pair with an escape here: only escapes yield surrogates
    String::from_utf16(&u).ok()
}

pub fn run(cx: &mut Cx) {
    // 1. integers: every form of every magnitude around the powers of 2, 8, 10 and 16
    let mut mags: Vec<u128> = (0..=300).collect();
    for k in 1..=70u32 {
        for d in [-1i128, 0, 1] {
            mags.push(((1i128 << k) + d) as u128);
        }
    }
    for k in 1..=21u32 {
        for d in [-1i128, 0, 1] {
            mags.push((10i128.pow(k) + d) as u128);
        }
    }
    for x in [0x123456789abcdefu128, 0xfedcba987654321, 0x7fffffff_00000000, 0xdeadbeef, 9007199254740993, 1234567890123456789] {
        mags.push(x);
    }
    mags.sort();
    mags.dedup();
    cx.note("integer_magnitudes", mags.len() as u64);
    for m in &mags {
        for neg in [false, true] {
            for form in 0..7 {
                for suf in ["", "L", "l"] {
                    let body = match form {
                        0 => format!("{m}"),
                        1 => format!("0x{m:x}"),
                        2 => format!("0X{m:X}"),
                        3 => format!("0{m:o}"),
                        4 => format!("0x000{m:x}"),
                        5 => format!("000{m:o}"),
                        _ => format!("0x{}", format!("{m:x}").chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect::<String>()),
                    };
                    let lit = format!("{}{body}{suf}", if neg { "-" } else { "" });
                    cx.case(|c| {
                        let v = if neg { -(*m as i128) } else { *m as i128 };
                        match i64::try_from(v) {
                            Ok(v) => everywhere(c, &lit, Some(&json!(v)), Some("long")),
                            Err(_) => everywhere(c, &lit, None, Some("long")),
                        }
                    });
                }
            }
        }
    }
    // much larger ones
    for n in [22, 25, 40, 100] {
        for d in ["9", "3", "7"] {
            for pre in ["", "0x", "0"] {
                for neg in ["", "-"] {
                    for suf in ["", "L"] {
                        cx.case(|c| everywhere(c, &format!("{neg}{pre}{}{suf}", d.repeat(n).replace('9', if pre == "0" { "7" } else { "9" })), None, Some("long")));
                    }
                }
            }
        }
    }
    // 2. decimal floating point
    let fracs = [None, Some(""), Some("0"), Some("5"), Some("25"), Some("1000000000000000055511151231257827021181583404541015625"), Some("499999999999999999999999999999")];
    let exps = ["", "e0", "E5", "e+3", "e-3", "E-10", "e22", "e23", "e308", "e309", "e-308", "e-320", "e-324", "e-325", "e-400", "e999", "e-999"];
    let sufs = ["", "f", "F", "d", "D"];
    for sign in ["", "+", "-"] {
        for i in ["", "0", "1", "9", "12", "007", "123456789", "9007199254740993", "179769313486231570000", "4503599627370497"] {
            for f in &fracs {
                for e in exps {
                    for s in sufs {
                        let ok = match f {
                            None => !i.is_empty() && !(e.is_empty() && s.is_empty()),
                            Some(f) => !(i.is_empty() && f.is_empty()),
                        };
                        if !ok || (!cx.thorough() && s == "D") {
                            continue;
                        }
                        let num = match f {
                            None => format!("{sign}{i}{e}"),
                            Some(f) => format!("{sign}{i}.{f}{e}"),
                        };
                        cx.case(|c| {
                            let v: f64 = num.parse().unwrap();
                            everywhere(c, &format!("{num}{s}"), Some(&float_value(v)), Some("double"))
                        });
                    }
                }
            }
        }
    }
    for (l, v) in [("NaN", "NaN"), ("+NaN", "NaN"), ("-NaN", "NaN"), ("Infinity", "Infinity"), ("+Infinity", "Infinity"), ("-Infinity", "-Infinity")] {
        for t in ["double", "float"] {
            cx.case(|c| everywhere(c, l, Some(&json!(v)), Some(t)));
        }
    }
    // the values of `float` fields are written as given, not rounded to 32 bits
    for l in ["0.1", "16777217.0", "1e40", "1e-50"] {
        cx.case(|c| everywhere(c, l, Some(&json!(l.parse::<f64>().unwrap())), Some("float")));
    }
    // 3. hexadecimal floating point
    let hints: &[&str] = &["", "0", "1", "a", "F", "10", "1f", "00001", "10000000000000", "1fffffffffffff", "20000000000001", "3ffffffffffffe", "ffffffffffffffff", "100000000000000000000", "123456789ABCDEF0123456789abcdef"];
    let hfracs: &[Option<&str>] = &[None, Some(""), Some("0"), Some("8"), Some("1"), Some("00000000000008"), Some("00000000000007ff"), Some("0000000000000800001"), Some("0000000000000800"), Some("00000000000008000000000"), Some("0000000000000fff0"), Some("fffffffffffff"), Some("fffffffffffff8"), Some("fffffffffffff7ff"), Some("000000000000000000000000000000000001")];
    let hexps = [0i64, 1, 3, 10, 52, 53, 900, 1000, 1022, 1023, 1024, 1100, 5000, -1, -3, -52, -1021, -1022, -1023, -1050, -1073, -1074, -1075, -1076, -1100, -1130, -5000];
    for sign in ["", "+", "-"] {
        for i in hints {
            for f in hfracs {
                if f.is_none_or(|f| f.is_empty()) && i.is_empty() {
                    continue;
                }
                for e in hexps {
                    for style in 0..(if cx.thorough() { 4 } else { 2 }) {
                        let (x, p, plus, suf) = [("0x", "p", "", ""), ("0X", "P", "+", "f"), ("0x", "P", "", "D"), ("0X", "p", "+", "")][style];
                        let frac = f.map(|f| format!(".{f}")).unwrap_or_default();
                        let es = if e >= 0 { format!("{plus}{e}") } else { e.to_string() };
                        let lit = format!("{sign}{x}{i}{frac}{p}{es}{suf}");
                        cx.case(|c| {
                            let v = hex_float(i, f.unwrap_or(""), e);
                            everywhere(c, &lit, Some(&float_value(if sign == "-" { -v } else { v })), Some("double"))
                        });
                    }
                }
            }
        }
    }
    for (e, v) in [("99999999999", f64::INFINITY), ("-99999999999", 0.0), ("4294967296", f64::INFINITY), ("-4294967297", 0.0)] {
        cx.case(|c| everywhere(c, &format!("0x1p{e}"), Some(&float_value(v)), Some("double")));
        cx.case(|c| everywhere(c, &format!("1e{e}"), Some(&float_value(v)), Some("double")));
        cx.case(|c| everywhere(c, &format!("0x0p{e}"), Some(&json!(0.0)), Some("double")));
    }
    // 4. strings: every sequence of pieces
    let pieces = [
        "a", "7", "8", "é", "漢", "😀", "'", "/", "u", "n", "`", "{", "//", "/*", "\u{1}", "\u{7f}", "\u{2028}", "\u{feff}", "$", " ", "\\b", "\\t", "\\n", "\\f", "\\r", "\\\"", "\\'", "\\\\", "\\0", "\\7", "\\12", "\\47", "\\377", "\\101", "\\400",
        "\\u0041", "\\u00e9", "\\u00E9", "\\u0000", "\\uffff", "\\u2028", "\\ud83d\\ude00", "\\uD834\\uDD1E", "\\uD800\\uDC00", "\\udbff\\udfff",
    ];
    let n = pieces.len();
    let len = cx.pick(2, 3);
    cx.note("string_pieces", n as u64);
    cx.note("string_length_in_pieces", len as u64);
    let strings = |c: &mut Case, body: &str| -> Res {
        let Some(v) = decode(body) else {
            c.count("undefined: lone surrogate");
            return Ok(());
        };
        everywhere(c, &format!("\"{body}\""), Some(&json!(v)), Some("string"))?;
        // as an object key, and where the string is more than a value
        let src = format!("@x({{\"{body}\":1}}) protocol P {{ record R {{ map<int> f = {{\"{body}\":2,\"k{body}\":3}}; }} }}");
        let got = drv::idl(&src);
        c.trace();
        let d = json!({"input": src, "key": v});
        match got.res {
            Ok(j) => {
                if j["x"] != json!({v.clone(): 1}) || j.pointer("/types/0/fields/0/default") != Some(&json!({v.clone(): 2, format!("k{v}"): 3})) {
                    fail!(d, "object key differs: {j}");
                }
            }
            Err(_) => fail!(d, "object key refused"),
        }
        Ok(())
    };
    for l in 0..=len {
        for x in 0..n.pow(l as u32) {
            cx.case(|c| {
                let mut body = String::new();
                let mut y = x;
                for _ in 0..l {
                    body += pieces[y % n];
                    y /= n;
                }
                strings(c, &body)
            });
        }
    }
    // longer sequences of the pieces that interact: octal escapes and digits, surrogates
    let oct = ["0", "3", "7", "8", "\\0", "\\3", "\\4", "\\37", "\\40", "\\077", "\\\\"];
    let len = cx.pick(3, 5);
    for x in 0..oct.len().pow(len as u32) {
        cx.case(|c| {
            let mut body = String::new();
            let mut y = x;
            for _ in 0..len {
                body += oct[y % oct.len()];
                y /= oct.len();
            }
            strings(c, &body)
        });
    }
    let sur = ["\\ud83d", "\\ude00", "\\uD800", "\\uDFFF", "\\u0041", "😀", "u", "\\\\"];
    let len = 4;
    for x in 0..sur.len().pow(len as u32) {
        cx.case(|c| {
            let mut body = String::new();
            let mut y = x;
            for _ in 0..len {
                body += sur[y % sur.len()];
                y /= sur.len();
            }
            strings(c, &body)
        });
    }
    // all characters that may stand in a string unescaped (one per case block)
    for block in 0..(0x110000u32 / 256) {
        if !(cx.thorough() || block < 0x100 || block == 0x1f6 || block == 0x10ff) {
            continue;
        }
        cx.case(|c| {
            let s: String = (block * 256..block * 256 + 256)
                .filter_map(char::from_u32)
                .filter(|ch| !"\u{8}\t\n\u{c}\r\\\"".contains(*ch))
                .collect();
            strings(c, &s)
        });
    }
    // every \uXXXX escape outside the surrogates
    for hi in 0..=255u32 {
        cx.case(|c| {
            if (0xd8..=0xdf).contains(&hi) {
                // pairs: every high surrogate of the block with first, middle and last low one
                let mut body = String::new();
                if hi < 0xdc {
                    for lo in 0..256 {
                        for l in [0xdc00, 0xdd55, 0xdfff] {
                            body += &format!("\\u{:04x}\\u{:04X}", hi * 256 + lo, l);
                        }
                    }
                }
                return strings(c, &body);
            }
            let body: String = (0..256u32).map(|lo| format!("\\u{:04x}", hi * 256 + lo)).collect();
            strings(c, &body)
        });
    }
    // every octal escape
    for v in 0..256u32 {
        for form in 0..3 {
            for next in ["", "0", "8", "x", "\\1"] {
                cx.case(|c| {
                    let o = match form {
                        0 => format!("\\{v:o}"),
                        1 => format!("\\{v:02o}"),
                        _ => format!("\\{v:03o}"),
                    };
                    strings(c, &format!("<{o}{next}>"))
                });
            }
        }
    }
    // 5. trees: every JSON value with up to `k` nodes
    let k = cx.pick(4, 5);
    let leaf: Vec<(String, Value)> = [("null", Value::Null), ("true", json!(true)), ("-0x10", json!(-16)), ("1.5e1", json!(15.0)), ("\"\\u00e9\"", json!("é")), ("[]", json!([])), ("{}", json!({}))]
        .into_iter()
        .map(|(s, v)| (s.to_string(), v))
        .collect();
    let ts = trees(k, &leaf);
    cx.note("tree_nodes", k as u64);
    for (src, v) in &ts {
        cx.case(|c| everywhere(c, src, Some(v), None));
    }
    // deep ones
    for depth in [10usize, 50, 100] {
        for kind in 0..2 {
            cx.case(|c| {
                let (mut s, mut v) = ("7".to_string(), json!(7));
                for i in 0..depth {
                    if kind == 0 || i % 2 == 0 {
                        s = format!("[{s},1]");
                        v = json!([v, 1]);
                    } else {
                        s = format!("{{\"k\":{s},\"a\":null}}");
                        v = json!({"k": v, "a": null});
                    }
                }
                everywhere(c, &s, Some(&v), None)
            });
        }
    }
    // mixed with every other construct
    crate::mix::pairs(cx, &["spell"], 1);
}

/// All trees with exactly 1..=k nodes (leaf values of `leaf` count one).
fn trees(k: usize, leaf: &[(String, Value)]) -> Vec<(String, Value)> {
    let mut by: Vec<Vec<(String, Value)>> = vec![vec![]; k + 1];
    by[1] = leaf.to_vec();
    for n in 2..=k {
        let mut out = vec![];
        // forests of n-1 nodes
        for f in forests(n - 1, &by, leaf.len()) {
            let s: Vec<&str> = f.iter().map(|x| x.0.as_str()).collect();
            out.push((format!("[{}]", s.join(",")), Value::Array(f.iter().map(|x| x.1.clone()).collect())));
            let keys = ["z", "a", "m\\n", ""];
            if f.len() <= keys.len() {
                let mut m = Map::new();
                let mut parts = vec![];
                for (i, (s, v)) in f.iter().enumerate() {
                    parts.push(format!("\"{}\":{s}", keys[i]));
                    m.insert(keys[i].replace("\\n", "\n"), v.clone());
                }
                out.push((format!("{{{}}}", parts.join(",")), Value::Object(m)));
                // one key throughout: the last value wins
                if let [.., last] = f.as_slice() && f.len() > 1 {
                    let parts: Vec<String> = f.iter().map(|x| format!("\"k\":{}", x.0)).collect();
                    out.push((format!("{{{}}}", parts.join(",")), json!({"k": last.1})));
                }
            }
        }
        by[n] = out;
    }
    by.into_iter().flatten().collect()
}
fn forests(n: usize, by: &[Vec<(String, Value)>], _l: usize) -> Vec<Vec<(String, Value)>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for first in 1..=n {
        for t in &by[first] {
            for rest in forests(n - first, by, _l) {
                let mut v = vec![t.clone()];
                v.extend(rest);
                out.push(v);
            }
        }
    }
    out
}
