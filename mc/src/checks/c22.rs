//! C22: names, in every naming position.
use crate::ast::{KEYWORDS, LOGICALS, PRIMS};
use crate::engine::{Case, Cx, Res};
use crate::eval::{self, Head};
use crate::fail;
use crate::idlparse as ip;
use crate::{drv, judge};
use serde_json::{Value, json};

/// `$`: the name as an identifier; `%`: inside a string literal.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// a declared type's or protocol's name: segments valid, simple name not built in
    Type,
    /// one plain name
    Simple,
    /// a namespace: segments valid
    Space,
    /// anything (message names, property names)
    Any,
    /// reported by a warning unless valid
    Alias,
}
struct Pos {
    what: &'static str,
    kind: Kind,
    text: &'static str,
    /// where the compiled protocol shows the name
    at: &'static [&'static str],
    /// what is added in front of an undotted name
    ns: &'static str,
}
const POS: &[Pos] = &[
    Pos { what: "protocol", kind: Kind::Type, text: "protocol $ { }", at: &["/protocol"], ns: "" },
    Pos { what: "protocol in a namespace", kind: Kind::Type, text: "@namespace(\"q\") protocol $ { record R { } }", at: &["/protocol"], ns: "q" },
    Pos { what: "record", kind: Kind::Type, text: "protocol P { record $ { } }", at: &["/types/0/name"], ns: "" },
    Pos { what: "error", kind: Kind::Type, text: "@namespace(\"q.r\") protocol P { error $ { } void m() throws $; }", at: &["/types/0/name", "/messages/m/errors/0"], ns: "q.r" },
    Pos { what: "enum", kind: Kind::Type, text: "protocol P { enum $ { A } = A; record Z { `$` f; } }", at: &["/types/0/name", "/types/1/fields/0/type"], ns: "" },
    Pos { what: "fixed", kind: Kind::Type, text: "protocol P { @namespace(\"q\") fixed $(2); }", at: &["/types/0/name"], ns: "q" },
    Pos { what: "record that refers to itself", kind: Kind::Type, text: "protocol P { record $ { array<`$`> a; union { null, `$` } u; } void m(`$` p) throws E; error E { `$` x; } }", at: &["/types/0/name"], ns: "" },
    Pos { what: "type of a schema file", kind: Kind::Type, text: "namespace q; schema map<`$`>; record $ { } ", at: &["/values/name"], ns: "q" },
    Pos { what: "field", kind: Kind::Simple, text: "protocol P { record R { int $; } }", at: &["/types/0/fields/0/name"], ns: "" },
    Pos { what: "second variable", kind: Kind::Simple, text: "protocol P { record R { int Z9, @x(1) $ = 4; } }", at: &["/types/0/fields/1/name"], ns: "" },
    Pos { what: "enum symbol", kind: Kind::Simple, text: "protocol P { enum E { Z9, $ } = $; }", at: &["/types/0/symbols/1", "/types/0/default"], ns: "" },
    Pos { what: "parameter", kind: Kind::Simple, text: "protocol P { void m(int Z9, string $); }", at: &["/messages/m/request/1/name"], ns: "" },
    Pos { what: "message", kind: Kind::Any, text: "protocol P { void $(); }", at: &[], ns: "" },
    Pos { what: "message with a result", kind: Kind::Any, text: "protocol P { union { null, int } $(int a); }", at: &[], ns: "" },
    Pos { what: "property", kind: Kind::Any, text: "protocol P { @$(1) fixed F(1); }", at: &[], ns: "" },
    Pos { what: "namespace declaration", kind: Kind::Space, text: "namespace $; schema R; record R { }", at: &[], ns: "" },
    Pos { what: "namespace of a protocol", kind: Kind::Space, text: "@namespace(\"%\") protocol P { record R { } }", at: &["/namespace"], ns: "" },
    Pos { what: "namespace of a type", kind: Kind::Space, text: "protocol P { @namespace(\"%\") enum E { A } }", at: &["/types/0/namespace"], ns: "" },
    Pos { what: "alias of a type", kind: Kind::Alias, text: "protocol P { @aliases([\"%\"]) record R { } }", at: &["/types/0/aliases/0"], ns: "" },
    Pos { what: "aliases of a fixed", kind: Kind::Alias, text: "protocol P { @aliases([\"ok\", \"%\", \"%\"]) fixed R(1); }", at: &["/types/0/aliases/1", "/types/0/aliases/2"], ns: "" },
    Pos { what: "alias of a field", kind: Kind::Alias, text: "protocol P { record R { int @aliases([\"%\"]) f; } }", at: &["/types/0/fields/0/aliases/0"], ns: "" },
];

fn quote(n: &str, mode: usize) -> String {
    let mut s = String::new();
    for (i, p) in n.split_inclusive(['.', '-']).enumerate() {
        let e = p.trim_end_matches(['.', '-']);
        let q = match mode {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            _ => i % 2 == 1,
        };
        s += &if q && !e.is_empty() { format!("`{e}`{}", &p[e.len()..]) } else { p.to_string() };
    }
    s
}

fn valid(n: &str) -> bool {
    eval::valid_name(n)
}
fn built_in(n: &str) -> bool {
    PRIMS.contains(&n) || LOGICALS.contains(&n)
}

/// What the statement says about `n` in this position, without the model.
fn allowed(k: Kind, n: &str) -> Option<bool> {
    let all = n.split('.').all(valid);
    match k {
        Kind::Type => Some(all && !built_in(n.rsplit('.').next().unwrap())),
        Kind::Simple => Some(valid(n)),
        Kind::Space => Some(all || n.is_empty()),
        Kind::Any => Some(true),
        Kind::Alias => Some(true),
    }
}

fn case(c: &mut Case, p: &Pos, n: &str, mode: usize) -> Res {
    if p.kind == Kind::Alias && n.starts_with('.') {
        // an empty namespace: Avro has no other spelling for it than leaving it out
        c.count("skipped: alias with an empty namespace");
        return Ok(());
    }
    if p.what.starts_with("protocol") && !n.split('.').all(valid) {
        // not a type: whether its own name is checked is left open
        c.count("skipped: protocol name");
        return Ok(());
    }
    let src = p.text.replace("`$`", &quote(n, 1)).replace('$', &quote(n, mode)).replace('%', n);
    let string = p.text.contains('%');
    let lexed = ip::lex(&src);
    let Some((toks, 0)) = lexed else {
        c.count("skipped: characters outside the grammar");
        return Ok(());
    };
    let Some((f, vague)) = ip::parse(&toks) else {
        // not an identifier: refused
        c.state(&src);
        c.trace();
        c.count("not an identifier");
        let o = drv::idl(&src);
        if let Ok(v) = &o.res {
            fail!(json!({"input": src, "compiler": v}), "a text that is not a sentence is compiled");
        }
        return Ok(());
    };
    if vague {
        c.count("skipped: literal outside the model");
        return Ok(());
    }
    // the text may be a sentence in another way (`@` + keyword, a name that ends early)
    let want = eval::evaluate(&f);
    c.count(p.what);
    let o = drv::idl(&src);
    let (v, warnings) = (o.res.as_ref().ok().cloned(), o.warnings.len());
    judge::judge_out(c, &src, &want, o)?;
    let direct = match p.kind {
        // a keyword after `@` or a reserved annotation
        Kind::Any if p.what == "property" => None,
        _ if !string && !quoted_ok(n) => None,
        k => allowed(k, n),
    };
    let data = |v: &Option<Value>| json!({"input": src, "name": n, "position": p.what, "compiler": v});
    if let Some(ok) = direct {
        if ok != v.is_some() {
            fail!(data(&v), "the name `{n}` of a {} is {}", p.what, if ok { "refused" } else { "accepted" });
        }
        if let Some(j) = &v {
            for at in p.at {
                let mut got = j.pointer(at).and_then(|x| x.as_str()).unwrap_or("").to_string();
                // a name and its namespace may be written apart
                if let (Some(o), true) = (at.strip_suffix("/name").or(at.strip_suffix("/protocol")), p.kind == Kind::Type) {
                    let own = j.pointer(&format!("{o}/namespace")).or(j.get("namespace"));
                    if let Some(ns) = own.and_then(|x| x.as_str()) {
                        if !ns.is_empty() {
                            got = format!("{ns}.{got}");
                        }
                    }
                }
                let full = if p.kind == Kind::Type && !n.contains('.') { eval::join_name(Some(p.ns), n) } else { n.to_string() };
                // references may omit the namespace in force
                let short = got == n && !at.ends_with("/name") && !at.ends_with("protocol");
                if got != full && !short {
                    fail!(data(&v), "{at} is {got:?}, not {full:?}");
                }
            }
            if p.what.starts_with("message") && j["messages"].as_object().map(|m| m.keys().cloned().collect::<Vec<_>>()) != Some(vec![n.to_string()]) {
                fail!(data(&v), "the message is not called `{n}`");
            }
        }
    }
    if p.kind == Kind::Alias {
        let bad = if n.split('.').all(valid) { 0 } else { p.at.len() };
        if v.is_none() || warnings != bad {
            fail!(data(&v), "{warnings} warnings for the alias `{n}`, not {bad}");
        }
    }
    if !string {
        // the other entry point
        judge::judge_schemata(c, &src, &want).or_else(|e| if matches!(&want, Ok(m) if matches!(m.head, Head::NamedOnly)) { Ok(()) } else { Err(e) })?;
    }
    Ok(())
}

/// A name with a character from anywhere in Unicode: a letter (or later a digit) by every
/// definition is accepted as it is; whatever else is accepted is unchanged or warned of.
fn sweep(c: &mut Case, p: &Pos, n: &str) -> Res {
    use crate::unicode32::{DIGITS, LETTERS, within};
    let src = p.text.replace("`$`", n).replace('$', n).replace('%', n);
    c.state(&src);
    c.trace();
    c.steps(n.chars().count());
    let mut it = n.chars();
    let first = it.next().unwrap();
    let sure = (first == '_' || within(first, LETTERS)) && it.all(|x| x == '_' || within(x, LETTERS) || within(x, DIGITS));
    let o = drv::idl(&src);
    let data = || json!({"input": src, "name": n, "position": p.what, "compiler": match &o.res { Ok(v) => v.to_string(), Err(_) => o.err_text() }});
    c.count(if sure { "swept: a name by every definition" } else { "swept: not a name by every definition" });
    let Ok(v) = &o.res else {
        c.outcome(&o.err_text());
        if sure {
            fail!(data(), "the name `{n}` of a {} is refused", p.what);
        }
        return Ok(());
    };
    c.outcome(&v.to_string());
    let seen = if p.at.is_empty() { v["messages"].as_object().is_some_and(|m| m.contains_key(n)) } else { p.at.iter().all(|a| v.pointer(a).and_then(|x| x.as_str()) == Some(n)) };
    if sure && (!seen || !o.warnings.is_empty()) || !seen && o.warnings.is_empty() {
        fail!(data(), "the name `{n}` of a {} is changed, or warned of ({} warnings)", p.what, o.warnings.len());
    }
    Ok(())
}

/// Is the name one identifier token when its parts are quoted?
fn quoted_ok(n: &str) -> bool {
    n.split(['.', '-']).all(valid)
}

const ALPHA: [&str; 8] = ["A", "b", "_", "0", "é", "٣", ".", "-"];

pub fn run(cx: &mut Cx) {
    // all short names
    let max = cx.pick(4, 5);
    let mut names: Vec<String> = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..max {
        layer = layer.iter().flat_map(|p| ALPHA.iter().map(move |a| format!("{p}{a}"))).collect();
        names.extend(layer.iter().cloned());
    }
    for n in &names {
        for p in POS {
            let modes = if p.text.contains('%') || n.len() > 5 { 1 } else { 4 };
            for mode in 0..modes {
                if cx.done() {
                    return;
                }
                if mode > 0 && quote(n, mode) == quote(n, mode - 1) {
                    continue;
                }
                cx.case(|c| case(c, p, n, mode));
            }
        }
    }
    // words of the language, alone and as parts
    let mut words: Vec<String> = KEYWORDS.iter().map(|s| s.to_string()).collect();
    words.extend(["NaN", "Infinity", "logicalType", "doc", "order", "aliases", "name", "type", "P", "R", "x", "nullable", "duration", "UUID", "void_"].map(String::from));
    let base = words.clone();
    for w in &base {
        let mut t = w.chars();
        let cap = t.next().unwrap().to_uppercase().collect::<String>() + t.as_str();
        words.extend([format!("q.{w}"), format!("{w}.q"), format!("{w}.{w}"), format!("{w}-{w}"), format!("{w}_"), format!("_{w}"), format!("{w}1"), cap, w.to_uppercase(), format!("1{w}"), format!("{w}."), format!(".{w}"), format!("a.b.{w}")]);
    }
    let pairs: Vec<String> = base.iter().flat_map(|a| base.iter().map(move |b| format!("{a}.{b}"))).collect();
    if cx.thorough() {
        words.extend(pairs);
    } else {
        words.extend(pairs.into_iter().step_by(7));
    }
    for w in &words {
        for p in POS {
            for mode in 0..4 {
                if cx.done() {
                    return;
                }
                cx.case(|c| case(c, p, w, mode));
            }
        }
    }
    // every character, first and later
    let lim = cx.pick(0x3000, 0x11_0000);
    for ch in (0u32..lim).filter_map(char::from_u32) {
        if cx.done() {
            return;
        }
        if ch.is_ascii() {
            continue;
        }
        for n in [format!("{ch}"), format!("A{ch}"), format!("{ch}1"), format!("_{ch}b")] {
            for p in [2, 8, 10, 12, 18].map(|i| &POS[i]) {
                cx.case(|c| sweep(c, p, &n));
            }
        }
    }
    cx.note("names up to length", max);
    cx.note("alphabet", ALPHA.join(" "));
    cx.note("characters swept up to", lim);
    // mixed with every other construct
    crate::mix::pairs(cx, &["fname", "name"], 2);
}
