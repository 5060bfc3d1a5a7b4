//! A common program space: one base program that uses every construct, and a vocabulary of
//! several hundred edits to it (types, defaults, docs, annotations, names, order, spellings).
//! All pairs (thorough: many triples) of edits are applied and judged by the reference model,
//! so that every construct is met together with every other one.
use crate::ast::*;
use crate::engine::{Case, Cx};
use crate::eval;
use crate::judge::*;
use serde_json::{Value, json};

/// How the program is written, where that makes no difference.
#[derive(Clone, Default)]
pub struct Spell {
    pub nums: u8,
    pub ticks: bool,
    pub gap: Option<&'static str>,
    pub strs: u8,
}

type Apply = Box<dyn Fn(&mut File, &mut Spell) -> bool>;
pub struct Edit {
    pub tag: &'static str,
    pub prio: u8,
    pub label: String,
    pub apply: Apply,
}

pub fn base(schema: bool) -> File {
    let mut a = record("A", vec![field(prim("int"), "i"), field(prim("string"), "s")]);
    a.doc = Some("the A".into());
    let items = vec![
        Item::Named(enm("E", &["S", "T", "U"])),
        Item::Named(fixed("F", 4)),
        Item::Named(a),
        Item::Named(error("X", vec![field(prim("string"), "m")])),
        Item::Named(error("b.X", vec![])),
        Item::Named(record(
            "R",
            vec![
                field_d(prim("long"), "l", json!(7)),
                field(rf("A"), "ra"),
                field(map(rf("E")), "me"),
                field(arr(prim("string")), "as"),
                field(nul(rf("E")), "ne"),
                field(un(vec![prim("null"), prim("int"), rf("F")]), "u"),
                field(K::Logical("date"), "d"),
                Field { doc: None, ty: t(K::Decimal(9, Some(2))), vars: vec![var("d1"), var("d2")] },
            ],
        )),
        Item::Msg(Msg { name: "m0".into(), ..Default::default() }),
        Item::Msg(Msg {
            name: "m1".into(),
            resp: Some(rf("A")),
            params: vec![param(prim("int"), "p"), param(rf("E"), "q")],
            throws: vec!["X".into(), "b.X".into()],
            ..Default::default()
        }),
        Item::Msg(Msg { name: "m2".into(), params: vec![param(prim("string"), "z")], oneway: true, ..Default::default() }),
        Item::Named(record("Z", vec![field(nul(rf("R")), "r"), field(arr(rf("b.X")), "xs")])),
    ];
    if schema {
        let items = items.into_iter().filter(|i| !matches!(i, Item::Msg(_))).collect();
        schema_file(Some("a"), Some(rf("Z")), items)
    } else {
        protocol(Some("a"), items)
    }
}

const NAMED: [&str; 7] = ["E", "F", "A", "X", "b.X", "R", "Z"];
const FIELDS: [(&str, &str); 13] = [
    ("A", "i"), ("A", "s"), ("X", "m"), ("R", "l"), ("R", "ra"), ("R", "me"), ("R", "as"), ("R", "ne"), ("R", "u"),
    ("R", "d"), ("R", "d1"), ("Z", "r"), ("Z", "xs"),
];
const QUICK_FIELDS: [(&str, &str); 8] =
    [("A", "i"), ("X", "m"), ("R", "l"), ("R", "ra"), ("R", "as"), ("R", "ne"), ("R", "d1"), ("Z", "r")];
const QUICK_TYPES: &[usize] = &[0, 3, 5, 8, 10, 12, 14, 16, 17, 18, 21, 25, 27, 29, 30, 32, 37, 39, 41];
const QUICK_DEFAULTS: &[usize] = &[0, 2, 4, 6, 7, 8, 9, 10, 12, 15, 17, 19];
const QUICK_ANNS: &[usize] = &[1, 2, 4, 6, 8, 10, 11, 13, 14, 18, 19, 21, 22, 24, 25, 31];
const PARAMS: [(&str, &str); 3] = [("m1", "p"), ("m1", "q"), ("m2", "z")];
const MSGS: [&str; 3] = ["m0", "m1", "m2"];

pub fn named<'a>(f: &'a mut File, n: &str) -> Option<&'a mut Named> {
    f.items.iter_mut().find_map(|i| match i {
        Item::Named(x) if x.name == n => Some(x),
        _ => None,
    })
}
pub fn msg<'a>(f: &'a mut File, n: &str) -> Option<&'a mut Msg> {
    f.items.iter_mut().find_map(|i| match i {
        Item::Msg(x) if x.name == n => Some(x),
        _ => None,
    })
}
fn fld<'a>(f: &'a mut File, r: &str, n: &str) -> Option<&'a mut Field> {
    match &mut named(f, r)?.body {
        Body::Record { fields, .. } => fields.iter_mut().find(|x| x.vars.iter().any(|v| v.name == n)),
        _ => None,
    }
}
fn prm<'a>(f: &'a mut File, m: &str, n: &str) -> Option<&'a mut Param> {
    msg(f, m)?.params.iter_mut().find(|p| p.var.name == n)
}
fn pos(f: &File, n: &str) -> Option<usize> {
    f.items.iter().position(|i| match i {
        Item::Named(x) => x.name == n,
        Item::Msg(x) => x.name == n,
        _ => false,
    })
}

/// Apply `g` to every reference as written.
pub fn each_ref(f: &mut File, g: &dyn Fn(&mut String)) {
    fn ty(t: &mut T, g: &dyn Fn(&mut String)) {
        k(&mut t.k, g)
    }
    fn k(x: &mut K, g: &dyn Fn(&mut String)) {
        match x {
            K::Ref(n) => g(n),
            K::Array(t) | K::Map(t) => ty(t, g),
            K::Union(ts) => ts.iter_mut().for_each(|t| ty(t, g)),
            K::Nullable(x) => k(x, g),
            _ => {}
        }
    }
    if let Mode::Schema { main: Some(m), .. } = &mut f.mode {
        ty(m, g);
    }
    for i in &mut f.items {
        match i {
            Item::Named(n) => {
                if let Body::Record { fields, .. } = &mut n.body {
                    fields.iter_mut().for_each(|x| ty(&mut x.ty, g));
                }
            }
            Item::Msg(m) => {
                if let Some(x) = &mut m.resp {
                    k(x, g);
                }
                m.params.iter_mut().for_each(|p| ty(&mut p.ty, g));
                m.throws.iter_mut().for_each(|x| g(x));
            }
            _ => {}
        }
    }
}

fn ty_tag(k: &K) -> &'static str {
    match k {
        K::Logical(_) | K::Decimal(..) => "type+logical",
        K::Union(_) => "type+union",
        K::Nullable(x) if matches!(**x, K::Decimal(..)) => "type+union+logical",
        K::Nullable(_) => "type+union",
        K::Ref(n) if n == "Nope" => "type+undef",
        _ => "type",
    }
}
fn ann_tag(k: &str) -> &'static str {
    match k {
        "logicalType" | "precision" | "scale" => "ann+logical",
        "namespace" => "ann+ns",
        "aliases" => "ann+alias",
        _ => "ann",
    }
}
fn type_pool() -> Vec<K> {
    vec![
        prim("int"), prim("null"), prim("string"), prim("bytes"), prim("double"),
        K::Logical("uuid"), K::Logical("timestamp_ms"), K::Logical("time_ms"),
        K::Decimal(4, None), K::Decimal(4, Some(4)), K::Decimal(4, Some(5)), K::Decimal(0, None),
        rf("E"), rf("A"), rf("F"), rf("X"), rf("R"), rf("b.X"), rf("Nope"), rf("b.E"), rf("a.Z"),
        arr(rf("A")), map(rf("E")), arr(map(rf("F"))), arr(arr(prim("int"))), map(rf("Nope")),
        un(vec![rf("A")]), un(vec![prim("null"), rf("A")]), un(vec![rf("A"), prim("null")]),
        un(vec![rf("A"), rf("E"), rf("X"), rf("b.X")]), un(vec![prim("int"), K::Logical("date")]), un(vec![rf("A"), rf("a.A")]),
        un(vec![arr(rf("E")), map(rf("F")), prim("int")]), un(vec![arr(rf("E")), arr(rf("F"))]), un(vec![prim("int"), nul(rf("A"))]),
        un(vec![prim("int"), rf("Nope")]), un(vec![un(vec![prim("int")]), prim("string")]),
        nul(rf("A")), nul(prim("int")), nul(K::Decimal(3, Some(1))), nul(rf("Nope")), arr(nul(rf("A"))), map(un(vec![prim("null"), rf("E")])),
        nul(prim("null")),
    ]
}
fn default_pool() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(0), json!(-2147483648i64), json!(2147483648i64), json!(9223372036854775807i64), json!(1.5),
        json!("x"), json!("S"), json!("\u{ff}é𝄞\n\"\\"), json!([]), json!(["S", "x"]), json!([1]), json!([[]]), json!({}), json!({"k": "S"}), json!({"k": null}),
        json!({"i": 1, "s": "x"}), json!({"s": "x", "i": 1, "more": []}), json!({"i": 1}), json!({"i": "1", "s": "x"}),
    ]
}
fn ann_pool() -> Vec<(&'static str, Value)> {
    vec![
        ("x", json!(1)), ("x", json!("é\n")), ("x-y", json!({"b": [null, {"a": 1.5}], "a": ""})), ("x", json!(null)),
        ("logicalType", json!("date")), ("logicalType", json!("uuid")), ("logicalType", json!("decimal")), ("logicalType", json!("own")), ("precision", json!(4)), ("scale", json!(1)),
        ("order", json!("descending")), ("order", json!("up")), ("order", json!("ascending")),
        ("aliases", json!(["q"])), ("aliases", json!(["z.q", "q", "b.b"])), ("aliases", json!([])), ("aliases", json!("q")),
        ("namespace", json!("n")), ("namespace", json!("")), ("namespace", json!("b")), ("namespace", json!(1)),
        ("doc", json!("d")), ("type", json!("int")), ("name", json!("n")), ("default", json!("S")), ("size", json!(3)), ("symbols", json!([])), ("items", json!("int")), ("values", json!("int")),
        ("fields", json!([])), ("errors", json!([])), ("response", json!("int")), ("request", json!([])), ("one-way", json!(true)), ("messages", json!({})), ("types", json!([])), ("protocol", json!("Q")),
    ]
}

pub fn edits(full: bool) -> Vec<Edit> {
    let fields: &[(&str, &str)] = if full { &FIELDS } else { &QUICK_FIELDS };
    let thin = |v: Vec<K>, keep: &[usize]| -> Vec<K> { if full { v } else { v.into_iter().enumerate().filter(|(i, _)| keep.contains(i)).map(|x| x.1).collect() } };
    let types = thin(type_pool(), QUICK_TYPES);
    let mut v: Vec<Edit> = vec![];
    let mut add = |tag: &'static str, prio: u8, label: String, apply: Apply| v.push(Edit { tag, prio, label, apply });
    macro_rules! ed {
        ($tag:expr, $prio:expr, $label:expr, |$f:ident, $s:ident| $body:expr) => {
            add($tag, $prio, $label, Box::new(move |$f: &mut File, $s: &mut Spell| -> bool { let _ = &$s; (|| -> Option<()> { $body; Some(()) })().is_some() }))
        };
    }
    // types
    for &(r, n) in fields {
        for k in types.clone() {
            ed!(ty_tag(&k), 0, format!("type {r}.{n}"), |f, _s| fld(f, r, n)?.ty.k = k.clone());
        }
        // nested: keep the old type inside
        for w in 0..3 {
            ed!("type", 1, format!("wrap {r}.{n} {w}"), |f, _s| {
                let ty = &mut fld(f, r, n)?.ty;
                let old = ty.clone();
                *ty = t(match w {
                    0 => K::Array(Box::new(old)),
                    1 => K::Map(Box::new(old)),
                    _ => K::Union(vec![old, t(map(prim("bytes")))]),
                })
            });
        }
    }
    for (m, n) in PARAMS {
        for k in types.clone() {
            ed!(ty_tag(&k), 0, format!("type {m}({n})"), |f, _s| prm(f, m, n)?.ty.k = k.clone());
        }
    }
    for m in MSGS {
        for k in types.clone() {
            ed!(ty_tag(&k), 0, format!("type {m}"), |f, _s| msg(f, m)?.resp = Some(k.clone()));
        }
        ed!("msg", 0, format!("void {m}"), |f, _s| msg(f, m)?.resp = None);
        ed!("msg", 0, format!("null {m}"), |f, _s| msg(f, m)?.resp = Some(prim("null")));
        ed!("msg", 0, format!("oneway {m}"), |f, _s| {
            let m = msg(f, m)?;
            m.oneway = !m.oneway
        });
        for th in [vec![], vec!["X"], vec!["b.X", "X"], vec!["X", "X"], vec!["a.X", "b.X"], vec!["X", "Nope"], vec!["b.Nope"], vec!["A"]] {
            ed!("msg", 0, format!("throws {m} {th:?}"), |f, _s| msg(f, m)?.throws = th.iter().map(|s| s.to_string()).collect());
        }
        for (n, ty) in [("p", prim("long")), ("extra", rf("X")), ("z", arr(rf("E"))), ("int", prim("int"))] {
            ed!("msg", 1, format!("param {m} {n}"), |f, _s| msg(f, m)?.params.push(param(ty.clone(), if n == "int" { "`int`" } else { n })));
        }
        ed!("msg", 1, format!("noparams {m}"), |f, _s| msg(f, m)?.params.clear());
        ed!("msg", 1, format!("revparams {m}"), |f, _s| msg(f, m)?.params.reverse());
        for n in ["m9", "R", "p"] {
            ed!("msg", 5, format!("rename {m} {n}"), |f, _s| msg(f, m)?.name = n.into());
        }
    }
    // main schema and header
    for k in types.clone() {
        ed!("head", 0, "main".into(), |f, _s| match &mut f.mode {
            Mode::Schema { main, .. } => main.as_mut()?.k = k.clone(),
            _ => return None,
        });
    }
    ed!("head", 0, "no main".into(), |f, _s| match &mut f.mode {
        Mode::Schema { main, .. } => *main = None,
        _ => return None,
    });
    for ns in [None, Some(""), Some("b"), Some("a.b"), Some("n"), Some("a.é_1")] {
        ed!("ns", 0, format!("ns {ns:?}"), |f, _s| match &mut f.mode {
            Mode::Schema { ns: n, .. } => {
                if ns == Some("") {
                    return None;
                }
                *n = ns.map(|s| s.to_string())
            }
            Mode::Protocol { anns, .. } => *anns = ns.map(|n| ("namespace".to_string(), json!(n))).into_iter().collect(),
        });
    }
    for n in ["b.P", "a.b.P", "R", "A", "b.X", "a"] {
        ed!("ns", 1, format!("protocol {n}"), |f, _s| match &mut f.mode {
            Mode::Protocol { name, .. } => *name = n.into(),
            _ => return None,
        });
    }
    // defaults
    for (di, d) in default_pool().into_iter().enumerate() {
        if !full && !QUICK_DEFAULTS.contains(&di) {
            continue;
        }
        for &(r, n) in fields {
            let d = d.clone();
            ed!("default", 0, format!("default {r}.{n} {d}"), |f, _s| {
                let x = fld(f, r, n)?.vars.iter_mut().find(|v| v.name == n)?;
                x.default = Some(d.clone())
            });
        }
        for (m, n) in PARAMS {
            let d = d.clone();
            ed!("default", 0, format!("default {m}({n}) {d}"), |f, _s| prm(f, m, n)?.var.default = Some(d.clone()));
        }
    }
    // docs
    for d in ["one", "é \" \\ x\ty"] {
        for n in NAMED {
            ed!("doc", 0, format!("doc {n}"), |f, _s| named(f, n)?.doc = Some(d.into()));
        }
        for &(r, n) in fields {
            ed!("doc", 0, format!("doc {r}.{n}"), |f, _s| fld(f, r, n)?.doc = Some(d.into()));
            ed!("doc", 0, format!("vdoc {r}.{n}"), |f, _s| fld(f, r, n)?.vars.iter_mut().find(|v| v.name == n)?.doc = Some(d.into()));
        }
        ed!("doc", 0, "vdoc R.d2".into(), |f, _s| fld(f, "R", "d2")?.vars.iter_mut().find(|v| v.name == "d2")?.doc = Some(d.into()));
        for (m, n) in PARAMS {
            ed!("doc", 0, format!("doc {m}({n})"), |f, _s| prm(f, m, n)?.doc = Some(d.into()));
            ed!("doc", 0, format!("vdoc {m}({n})"), |f, _s| prm(f, m, n)?.var.doc = Some(d.into()));
        }
        for m in MSGS {
            ed!("doc", 0, format!("doc {m}"), |f, _s| msg(f, m)?.doc = Some(d.into()));
        }
        ed!("doc", 0, "doc P".into(), |f, _s| match &mut f.mode {
            Mode::Protocol { doc, .. } => *doc = Some(d.into()),
            _ => return None,
        });
    }
    ed!("doc", 0, "undoc A".into(), |f, _s| named(f, "A")?.doc = None);
    // annotations
    for (ai, (k, x)) in ann_pool().into_iter().enumerate() {
        if !full && !QUICK_ANNS.contains(&ai) {
            continue;
        }
        for n in NAMED {
            let x = x.clone();
            ed!(ann_tag(k), 1, format!("@{k}({x}) {n}"), |f, _s| named(f, n)?.anns.push((k.into(), x.clone())));
        }
        for &(r, n) in fields {
            let y = x.clone();
            ed!(ann_tag(k), 1, format!("@{k}({y}) type {r}.{n}"), |f, _s| fld(f, r, n)?.ty.anns.push((k.into(), y.clone())));
            let y = x.clone();
            ed!(ann_tag(k), 1, format!("@{k}({y}) {r}.{n}"), |f, _s| fld(f, r, n)?.vars.iter_mut().find(|v| v.name == n)?.anns.push((k.into(), y.clone())));
        }
        for (m, n) in PARAMS {
            let y = x.clone();
            ed!(ann_tag(k), 1, format!("@{k}({y}) type {m}({n})"), |f, _s| prm(f, m, n)?.ty.anns.push((k.into(), y.clone())));
            let y = x.clone();
            ed!(ann_tag(k), 1, format!("@{k}({y}) {m}({n})"), |f, _s| prm(f, m, n)?.var.anns.push((k.into(), y.clone())));
        }
        for m in MSGS {
            let x = x.clone();
            ed!(ann_tag(k), 1, format!("@{k}({x}) {m}"), |f, _s| msg(f, m)?.anns.push((k.into(), x.clone())));
        }
        let y = x.clone();
        ed!(ann_tag(k), 1, format!("@{k}({y}) P"), |f, _s| match &mut f.mode {
            Mode::Protocol { anns, .. } => anns.push((k.into(), y.clone())),
            _ => return None,
        });
        let y = x.clone();
        ed!(ann_tag(k), 1, format!("@{k}({y}) main"), |f, _s| match &mut f.mode {
            Mode::Schema { main: Some(m), .. } => m.anns.push((k.into(), y.clone())),
            _ => return None,
        });
        let y = x.clone();
        ed!(ann_tag(k), 1, format!("@{k}({y}) in R.as"), |f, _s| match &mut fld(f, "R", "as")?.ty.k {
            K::Array(t) | K::Map(t) => t.anns.push((k.into(), y.clone())),
            K::Union(ts) => ts.first_mut()?.anns.push((k.into(), y.clone())),
            _ => return None,
        });
    }
    // names and order
    for n in NAMED {
        for new in ["b.N", "N", "a.b.N", "n.A", "a.N", "E", "X"] {
            // the references follow
            ed!("name", 4, format!("rename {n} {new}"), |f, _s| {
                if n == new {
                    return None;
                }
                named(f, n)?.name = new.into();
                each_ref(f, &|r| {
                    if r == n {
                        *r = new.into()
                    }
                })
            });
        }
        for ns in ["b", "a.b", "a", "n"] {
            ed!("name", 4, format!("@namespace({ns}) {n} and references"), |f, _s| {
                named(f, n)?.anns.push(("namespace".into(), json!(ns)));
                each_ref(f, &|r| {
                    if r == n && !n.contains('.') {
                        *r = format!("{ns}.{n}")
                    }
                })
            });
        }
        ed!("name", 4, format!("full {n}"), |f, _s| each_ref(f, &|r| {
            if r == n && !n.contains('.') {
                *r = format!("a.{n}")
            }
        }));
        ed!("dup", 6, format!("dup {n}"), |f, _s| {
            let x = named(f, n)?.clone();
            f.items.push(Item::Named(x))
        });
        ed!("dup", 6, format!("dupfirst {n}"), |f, _s| {
            let mut x = named(f, n)?.clone();
            x.body = Body::Fixed(9);
            f.items.insert(0, Item::Named(x))
        });
        ed!("undef", 6, format!("drop {n}"), |f, _s| {
            let p = pos(f, n)?;
            f.items.remove(p)
        });
        for to in 0..10 {
            ed!("order", 5, format!("move {n} {to}"), |f, _s| {
                let p = pos(f, n)?;
                if to >= f.items.len() || p == to {
                    return None;
                }
                let x = f.items.remove(p);
                f.items.insert(to, x)
            });
        }
        ed!("order", 3, format!("revfields {n}"), |f, _s| match &mut named(f, n)?.body {
            Body::Record { fields, .. } => fields.reverse(),
            Body::Enum { syms, .. } => syms.reverse(),
            _ => return None,
        });
        ed!("kind", 3, format!("kind {n}"), |f, _s| match &mut named(f, n)?.body {
            Body::Record { error, .. } => *error = !*error,
            _ => return None,
        });
        ed!("kind", 3, format!("empty {n}"), |f, _s| match &mut named(f, n)?.body {
            Body::Record { fields, .. } => fields.clear(),
            Body::Enum { syms, .. } => syms.clear(),
            _ => return None,
        });
    }
    ed!("order", 7, "reverse".into(), |f, _s| f.items.reverse());
    for &(r, n) in fields {
        for new in ["i", "l", "x", "é_1", "R", "type", "n-a"] {
            ed!("fname", 4, format!("rename {r}.{n} {new}"), |f, _s| fld(f, r, n)?.vars.iter_mut().find(|v| v.name == n)?.name = new.into());
        }
        ed!("fname", 4, format!("second {r}.{n}"), |f, _s| fld(f, r, n)?.vars.push(var("more")));
    }
    for (m, n) in PARAMS {
        for new in ["p", "q", "é_1", "n-a"] {
            ed!("fname", 4, format!("rename {m}({n}) {new}"), |f, _s| prm(f, m, n)?.var.name = new.into());
        }
    }
    // enums and fixed
    for d in ["S", "U", "Nope", "s"] {
        ed!("kind", 0, format!("enum default {d}"), |f, _s| match &mut named(f, "E")?.body {
            Body::Enum { default, .. } => *default = Some(d.into()),
            _ => return None,
        });
        ed!("kind", 1, format!("symbol {d}"), |f, _s| match &mut named(f, "E")?.body {
            Body::Enum { syms, .. } => syms.push(d.into()),
            _ => return None,
        });
    }
    for n in [0, 1, 8, 10, 12, 4294967295] {
        ed!("kind", 0, format!("size {n}"), |f, _s| named(f, "F")?.body = Body::Fixed(n));
    }
    // spelling
    for n in 1..=5u8 {
        ed!("spell", 0, format!("nums {n}"), |_f, s| s.nums = n);
    }
    ed!("spell", 0, "ticks".into(), |_f, s| s.ticks = true);
    for g in ["\t", "\r\n", " /*c*/ ", " //c\n", "\n\n  ", "/* \u{e9} { */", "//}\r\n"] {
        ed!("spell", 0, format!("gap {g:?}"), |_f, s| s.gap = Some(g));
    }
    for n in 2..=3u8 {
        ed!("spell", 0, format!("strings {n}"), |_f, s| s.strs = n);
    }
    v
}

fn respell_num(s: &str, how: u8) -> String {
    let (sign, d) = s.strip_prefix('-').map_or(("", s), |d| ("-", d));
    match d.parse::<u128>() {
        Ok(n) => match how {
            1 => format!("{sign}0x{n:x}"),
            2 => format!("{sign}0X{n:X}"),
            3 => format!("{sign}0{n:o}"),
            4 => format!("{sign}{n}L"),
            _ => format!("{sign}0{n:o}l"),
        },
        Err(_) => s.to_string(),
    }
}
fn respell_str(s: &str, how: u8) -> String {
    match how {
        _ => {
            let v: String = serde_json::from_str(s).unwrap();
            let mut o = String::from("\"");
            for c in v.chars() {
                let mut b = [0; 2];
                if how == 3 && (c as u32) < 256 {
                    o.push_str(&format!("\\{:03o}", c as u32));
                } else {
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{u:04X}"));
                    }
                }
            }
            o + "\""
        }
    }
}

pub fn write(f: &File, s: &Spell) -> String {
    let mut toks = tokens(f);
    // sizes, precisions and scales are written without suffix
    let is = |j: Option<usize>, s: &[&str]| j.is_some_and(|j| s.contains(&toks[j].s.as_str()));
    let plain: Vec<bool> = (0..toks.len())
        .map(|i| is(i.checked_sub(3), &["fixed"]) || is(i.checked_sub(2), &["decimal"]) || is(i.checked_sub(4), &["decimal"]))
        .collect();
    for (i, tk) in toks.iter_mut().enumerate() {
        match tk.kind {
            TK::Num if s.nums > 3 && plain[i] => {}
            TK::Num if s.nums > 0 => tk.s = respell_num(&tk.s, s.nums),
            TK::Str if s.strs > 0 => tk.s = respell_str(&tk.s, s.strs),
            TK::Ident if s.ticks && !tk.s.contains('`') && !tk.s.contains('-') => {
                tk.s = tk.s.split('.').map(|p| format!("`{p}`")).collect::<Vec<_>>().join(".")
            }
            _ => {}
        }
    }
    match s.gap {
        None => join(&toks),
        Some(g) => toks.iter().map(|t| format!("{}{g}", t.s)).collect(),
    }
}

/// Build the program of a set of edits; None if one of them does not apply.
pub fn build(schema: bool, es: &[&Edit]) -> Option<(File, Spell)> {
    let mut f = base(schema);
    let mut s = Spell::default();
    let mut es = es.to_vec();
    es.sort_by_key(|e| e.prio);
    for e in es {
        if !(e.apply)(&mut f, &mut s) {
            return None;
        }
    }
    // (not a sentence of the language)
    if f.items.iter().any(|i| matches!(i, Item::Msg(m) if m.oneway && !m.throws.is_empty())) {
        return None;
    }
    Some((f, s))
}

pub fn judge_mix(c: &mut Case, f: &File, s: &Spell, es: &[&Edit], both: bool) -> crate::engine::Res {
    let src = write(f, s);
    let mut g = f.clone();
    unquote(&mut g);
    let mut want = eval::evaluate(&g);
    // which of several problems is reported first is left open
    if let Err(r) = &mut want {
        if es.len() > 1 {
            r.names.clear();
        }
    }
    if want.as_ref().is_err_and(|r| r.class == "duplicate-message") {
        c.count("skipped: repeated message");
        return Ok(());
    }
    let r = judge_src(c, &src, &want).and_then(|()| if both { judge_schemata(c, &src, &want) } else { Ok(()) });
    r.map_err(|mut x| {
        if let Value::Object(m) = &mut x.data {
            m.insert("edits".into(), json!(es.iter().map(|e| e.label.clone()).collect::<Vec<_>>()));
        }
        x
    })
}

pub fn unquote(f: &mut File) {
    for i in &mut f.items {
        match i {
            Item::Msg(m) => m.params.iter_mut().for_each(|p| p.var.name = p.var.name.replace('`', "")),
            Item::Named(Named { body: Body::Record { fields, .. }, .. }) => {
                fields.iter_mut().flat_map(|f| &mut f.vars).for_each(|v| v.name = v.name.replace('`', ""))
            }
            _ => {}
        }
    }
}

/// What to do with a program: (file, how it is written, labels of the edits, also the second entry point)
pub type Judge<'a> = &'a dyn Fn(&mut Case, &File, &Spell, &[&Edit], bool) -> crate::engine::Res;

/// Pairs of a tagged edit and any edit: all of them in the thorough tier, every `thin`-th in the
/// quick one (on a schema file, every 4th of those); every tagged edit alone.
pub fn pairs(cx: &mut Cx, tags: &[&str], thin: usize) {
    pairs_with(cx, tags, thin, &|c, f, s, es, both| judge_mix(c, f, s, es, both))
}
pub fn pairs_with(cx: &mut Cx, tags: &[&str], thin: usize, j: Judge) {
    let full = cx.thorough();
    let es = edits(full);
    let own = |e: &Edit| tags.contains(&"*") || e.tag.split('+').any(|t| tags.contains(&t));
    cx.note("mixed_edits", es.len() as u64);
    cx.note("mixed_edits_of_this_property", es.iter().filter(|e| own(e)).count() as u64);
    cx.note("mixed_pairs_every", if full { 1 } else { thin as u64 });
    let one = |c: &mut Case, schema: bool, es: &[&Edit], both: bool| match build(schema, es) {
        None => {
            c.count("edits that exclude each other");
            Ok(())
        }
        Some((f, s)) => j(c, &f, &s, es, both),
    };
    for schema in [false, true] {
        let step = match (full, schema) {
            (true, _) => 1,
            (_, false) => thin,
            _ => 4 * thin,
        };
        for (i, a) in es.iter().enumerate() {
            if !own(a) || build(schema, &[a]).is_none() {
                continue;
            }
            cx.case(|c| one(c, schema, &[a], true));
            for (j, b) in es.iter().enumerate() {
                if i == j || a.label == b.label || (own(b) && j < i) || (i * 7 + j) % step != 0 {
                    continue;
                }
                if cx.done() {
                    return;
                }
                cx.case(|c| one(c, schema, &[a, b], full || (i + j / step) % 4 == 0));
            }
        }
    }
}

/// The program with the items `from..to` moved to an imported file of the same namespace.
pub fn split(f: &File, from: usize, to: usize, kind: u8) -> Option<(eval::World, String)> {
    let mut f = f.clone();
    if from >= to || to > f.items.len() {
        return None;
    }
    unquote(&mut f);
    let moved: Vec<Item> = f.items.splice(from..to, [Item::Import(ImpKind::Idl, "i.avdl".into())]).collect();
    let ns = match &f.mode {
        Mode::Protocol { anns, name, .. } => match name.rsplit_once('.') {
            Some((n, _)) => Some(n.to_string()),
            None => anns.iter().rfind(|a| a.0 == "namespace").and_then(|a| a.1.as_str()).map(|s| s.to_string()),
        },
        Mode::Schema { ns, .. } => ns.clone(),
    }
    .filter(|n| !n.is_empty());
    let msgs = moved.iter().any(|i| matches!(i, Item::Msg(_)));
    let mut g = match kind {
        0 => protocol(ns.as_deref(), moved),
        _ if msgs => return None,
        1 => schema_file(ns.as_deref(), None, moved),
        _ => schema_file(ns.as_deref(), Some(prim("int")), moved),
    };
    if let Mode::Protocol { name, .. } = &mut g.mode {
        *name = "Imported".into();
    }
    let mut w = eval::World::default();
    w.files.insert("/main.avdl".into(), eval::Content::Idl(f));
    w.files.insert("/i.avdl".into(), eval::Content::Idl(g));
    Some((w, "/main.avdl".into()))
}

/// Every edit, with every stretch of the program moved to an imported file.
pub fn splits(cx: &mut Cx, thin: usize) {
    let full = cx.thorough();
    let es = edits(full);
    for schema in [false, true] {
        for (i, e) in es.iter().enumerate() {
            if e.tag == "spell" {
                continue;
            }
            let Some((f, _)) = build(schema, &[e]) else { continue };
            let n = f.items.len();
            for from in 0..n {
                for to in from + 1..=n {
                    for kind in 0..3 {
                        if !full && (i * 5 + from * 3 + to + kind as usize) % thin != 0 {
                            continue;
                        }
                        if cx.done() {
                            return;
                        }
                        cx.case(|c| {
                            let Some((w, main)) = split(&f, from, to, kind) else { return Ok(()) };
                            c.count("split over two files");
                            judge_world(c, &w, &main, false)
                        });
                    }
                }
            }
        }
    }
}
