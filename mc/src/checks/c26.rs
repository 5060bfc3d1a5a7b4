//! C26: an imported file that is not what the import says is refused, wherever it is broken.
//!
//! All documents one structural edit (thorough: two) away from rich valid ones, the broken piece
//! also at every depth and place, all prefixes and byte edits of a document, and all token edits
//! of an imported IDL file. A structural reading of its own says which must be refused, which
//! must be accepted, and which are left open.
use super::c10::json_edits;
use crate::ast::*;
use crate::avroread;
use crate::drv;
use crate::engine::{Case, Cx, Res, note_input};
use crate::fail;
use crate::idlparse as ip;
use crate::world;
use serde_json::{Map, Value, json};
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
enum V {
    Ok,
    Open(&'static str),
    Bad(&'static str),
}
use V::*;
impl V {
    fn and(self, o: V) -> V {
        match (&self, &o) {
            (Bad(_), _) => self,
            (_, Bad(_)) => o,
            (Open(_), _) => self,
            _ => o,
        }
    }
}
fn all(vs: impl IntoIterator<Item = V>) -> V {
    vs.into_iter().fold(Ok, V::and)
}

fn part(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|x| x == '_' || x.is_ascii_alphabetic()) && c.all(|x| x == '_' || x.is_ascii_alphanumeric())
}
/// The name of a definition.
fn name(m: &Map<String, Value>) -> V {
    let Some(n) = m.get("name").and_then(Value::as_str) else { return Bad("a definition without a name") };
    if !n.is_ascii() {
        return Open("letters beyond ASCII");
    }
    if !n.rsplit('.').next().is_some_and(part) {
        return Bad("an invalid name");
    }
    if !n.split('.').all(part) {
        return Open("an odd namespace");
    }
    if avroread::PRIM.contains(&n) {
        return Open("a built-in name");
    }
    match m.get("namespace") {
        Some(Value::String(s)) if n.contains('.') && !n.starts_with(&format!("{s}.")) => Open("two namespaces"),
        Some(Value::String(s)) if s.is_empty() || s.split('.').all(part) => Ok,
        None => Ok,
        _ => Open("an odd namespace"),
    }
}
/// Attributes that are not structural: of the expected kind, or open.
fn extras(m: &Map<String, Value>) -> V {
    let strs = |v: &Value| v.as_array().is_some_and(|a| a.iter().all(|x| x.is_string()));
    for (k, v) in m {
        let fine = match k.as_str() {
            "doc" => v.is_string(),
            "aliases" => strs(v),
            "order" => matches!(v.as_str(), Some("ascending" | "descending" | "ignore")),
            "logicalType" | "precision" | "scale" => false,
            _ => true,
        };
        if !fine {
            return Open("an odd attribute");
        }
    }
    Ok
}
fn field(v: &Value) -> V {
    let Some(m) = v.as_object() else { return Bad("a field that is no object") };
    if !m.get("name").is_some_and(Value::is_string) {
        return Bad("a field without a name");
    }
    let Some(t) = m.get("type") else { return Bad("a field without a type") };
    schema(t).and(extras(m))
}
/// A schema wherever one is expected.
fn schema(v: &Value) -> V {
    let m = match v {
        // (whether names are defined is for C04 and C20)
        Value::String(_) => return Ok,
        Value::Array(a) => return all(a.iter().map(schema)),
        Value::Object(m) => m,
        _ => return Bad("a value that is no schema"),
    };
    let t = match m.get("type") {
        Some(Value::String(t)) => t,
        Some(Value::Object(_) | Value::Array(_)) => return Open("a type in a type"),
        _ => return Bad("a schema without a type"),
    };
    let x = extras(m);
    match t.as_str() {
        "record" | "error" => match m.get("fields") {
            Some(Value::Array(a)) => name(m).and(all(a.iter().map(field))).and(x),
            _ => Bad("a record without fields"),
        },
        "enum" => match m.get("symbols") {
            Some(Value::Array(a)) if a.iter().all(Value::is_string) => name(m).and(x),
            _ => Bad("an enum without symbols"),
        },
        "fixed" => match m.get("size").and_then(Value::as_number) {
            Some(n) if n.as_u64().is_some_and(|n| n <= i32::MAX as u64) => name(m).and(x),
            Some(n) if n.as_u64().is_some() => Open("a size beyond 32 bits"),
            _ => Bad("a fixed without a size"),
        },
        "array" => m.get("items").map_or(Bad("an array without items"), schema).and(x),
        "map" => m.get("values").map_or(Bad("a map without values"), schema).and(x),
        p if avroread::PRIM.contains(&p) => x,
        p if p.is_empty() || p.contains('!') => Bad("an unknown type"),
        _ => Open("a reference as an object"),
    }
}
fn message(v: &Value) -> V {
    let Some(m) = v.as_object() else { return Bad("a message that is no object") };
    let Some(req) = m.get("request").and_then(Value::as_array) else { return Bad("a message without request") };
    let one_way = m.get("one-way");
    let resp = match m.get("response") {
        Some(r) => schema(r),
        None if one_way == Some(&json!(true)) => Ok,
        None => Bad("a message without response"),
    };
    let errs = match m.get("errors") {
        None => Ok,
        Some(Value::Array(a)) => all(a.iter().map(schema)),
        _ => Bad("errors that are no list"),
    };
    let way = match one_way {
        None | Some(Value::Bool(_)) => Ok,
        _ => Open("an odd attribute"),
    };
    all(req.iter().map(field)).and(resp).and(errs).and(way).and(extras(m))
}
fn protocol(v: &Value) -> V {
    let Some(m) = v.as_object() else { return Bad("a protocol that is no object") };
    let head = match m.get("protocol") {
        Some(Value::String(s)) if s.split('.').all(part) => Ok,
        Some(Value::String(_)) => Open("an odd protocol name"),
        _ => return Bad("a protocol without a name"),
    };
    let ns = match m.get("namespace") {
        None => Ok,
        Some(Value::String(s)) if s.is_empty() || s.split('.').all(part) => Ok,
        _ => Open("an odd namespace"),
    };
    let types = match m.get("types") {
        None => Ok,
        Some(Value::Array(a)) => all(a.iter().map(|t| schema(t).and(if t.is_object() { Ok } else { Open("a type that is no definition") }))),
        _ => Bad("types that are no list"),
    };
    let msgs = match m.get("messages") {
        None => Ok,
        Some(Value::Object(m)) => all(m.values().map(message)),
        _ => Open("messages that are no object"),
    };
    head.and(ns).and(types).and(msgs).and(extras(m))
}

/// How the file is reached.
const MAINS: [&str; 4] = [
    "protocol M { import @K@ \"x.json\"; record Main { int r; } }",
    "protocol M { record Main { int r; } import idl \"y/mid.avdl\"; }",
    "protocol M { import idl \"mid2.avdl\"; record Main { int r; } }",
    "namespace q; schema int; import @K@ \"x.json\"; record Main { int r; }",
];
fn set_up(c: &mut Case, kw: &str, bytes: &[u8]) -> std::path::PathBuf {
    let root = c.scratch().join("w");
    std::fs::create_dir_all(root.join("y")).unwrap();
    std::fs::write(root.join("x.json"), bytes).unwrap();
    for (i, m) in MAINS.iter().enumerate() {
        std::fs::write(root.join(format!("m{i}.avdl")), m.replace("@K@", kw)).unwrap();
    }
    std::fs::write(root.join("y/mid.avdl"), format!("protocol N {{ import {kw} \"../x.json\"; record Mid {{ }} }}")).unwrap();
    std::fs::write(root.join("mid2.avdl"), format!("namespace z; schema int; import {kw} \"x.json\";")).unwrap();
    root
}
fn reach(c: &mut Case, root: &Path, kw: &str, text: &str, v: &V, mains: &[usize]) -> Res {
    let desc = || json!({"import": kw, "x.json": text, "reading": format!("{v:?}")});
    c.state(&(kw, text));
    c.steps(text.len());
    for &i in mains {
        let main = format!("/m{i}.avdl");
        c.trace();
        let o = world::idl_path(root, &main, &[]);
        let s = world::schemata_path(root, &main, &[]);
        for (who, res) in [("idl", o.res.as_ref().map(|_| ()).map_err(|e| drv::diag(e).all())), ("idl2schemata", s.res.as_ref().map(|_| ()).map_err(|e| drv::diag(e).all()))] {
            let mut d = desc();
            d["main"] = json!(MAINS[i].replace("@K@", kw));
            d["command"] = json!(who);
            match (v, res) {
                (Bad(why), Result::Ok(())) => {
                    fail!(d, "an import is accepted although it has {why}")
                }
                (Bad(_), Err(e)) => {
                    d["report"] = json!(e);
                    // (other than for a name that is not defined, which is reported at the import)
                    if !e.contains("x.json") {
                        fail!(d, "the report on a bad import does not name the file");
                    }
                }
                (Ok, Err(e)) => {
                    d["report"] = json!(e);
                    fail!(d, "a valid import is refused");
                }
                _ => {}
            }
        }
        c.count(match v {
            Ok => "valid",
            Open(_) => "left open",
            Bad(_) => "to be refused",
        });
    }
    Result::Ok(())
}

fn doc(c: &mut Case, kind: ImpKind, d: &Value, mains: &[usize]) -> Res {
    let mut v = if kind == ImpKind::Protocol { protocol(d) } else { schema(d) };
    if v == Ok {
        // valid beyond its structure as well?
        let r = if kind == ImpKind::Protocol { avroread::read_protocol(d).map(|x| x.fell_back) } else { avroread::read_schema(d).map(|x| x.fell_back) };
        if r != Result::Ok(false) {
            v = Open("not valid otherwise");
        }
    }
    if let Bad(w) | Open(w) = v {
        c.count(w);
    }
    c.outcome(&format!("{v:?}"));
    let text = d.to_string();
    note_input(&text);
    let root = set_up(c, kind.kw(), text.as_bytes());
    reach(c, &root, kind.kw(), &text, &v, mains)
}

/// What can be put where a schema is expected, each broken or whole in one way.
fn pieces() -> Vec<Value> {
    let rec = |x: Value| {
        let mut m = json!({"type": "record", "name": "Piece"});
        m.as_object_mut().unwrap().extend(x.as_object().unwrap().clone());
        m
    };
    vec![
        json!("int"), json!(1), json!(null), json!(true), json!({}), json!({"type": null}), json!({"type": 3}), json!({"type": "!"}), json!({"type": ""}), json!([1]), json!(["null", {}]),
        rec(json!({})), rec(json!({"fields": null})), rec(json!({"fields": {}})), rec(json!({"fields": "x"})), rec(json!({"fields": []})), rec(json!({"fields": [1]})), rec(json!({"fields": [{}]})),
        rec(json!({"fields": [{"name": "a"}]})), rec(json!({"fields": [{"type": "int"}]})), rec(json!({"fields": [{"name": 1, "type": "int"}]})), rec(json!({"fields": [{"name": "a", "type": 1}]})),
        rec(json!({"fields": [{"name": "a", "type": "int"}, {"name": "b"}]})), rec(json!({"fields": [{"name": "a", "type": "int", "default": 1}]})), rec(json!({"fields": [null]})), rec(json!({"fields": ["int"]})),
        rec(json!({"name": "1a", "fields": []})), rec(json!({"name": "a-b", "fields": []})), rec(json!({"name": "", "fields": []})), rec(json!({"name": "n.", "fields": []})), rec(json!({"name": 1, "fields": []})), rec(json!({"name": "a b", "fields": []})),
        rec(json!({"type": "error", "fields": []})), rec(json!({"type": "error"})), json!({"type": "record", "fields": []}),
        json!({"type": "enum", "name": "Piece"}), json!({"type": "enum", "name": "Piece", "symbols": []}), json!({"type": "enum", "name": "Piece", "symbols": ["A"]}), json!({"type": "enum", "name": "Piece", "symbols": "A"}),
        json!({"type": "enum", "name": "Piece", "symbols": ["A", 1]}), json!({"type": "enum", "name": "Piece", "symbols": [null]}), json!({"type": "enum", "name": "Piece", "symbols": [["A"]]}), json!({"type": "enum", "symbols": ["A"]}), json!({"type": "enum", "name": "1", "symbols": ["A"]}), json!({"type": "enum", "name": "Piece", "symbols": null}),
        json!({"type": "fixed", "name": "Piece"}), json!({"type": "fixed", "name": "Piece", "size": 2}), json!({"type": "fixed", "name": "Piece", "size": -1}), json!({"type": "fixed", "name": "Piece", "size": 1.5}), json!({"type": "fixed", "name": "Piece", "size": "2"}), json!({"type": "fixed", "name": "Piece", "size": null}), json!({"type": "fixed", "size": 2}), json!({"type": "fixed", "name": "a.1", "size": 2}),
        json!({"type": "array"}), json!({"type": "array", "items": 1}), json!({"type": "array", "items": "int"}), json!({"type": "array", "items": null}), json!({"type": "array", "values": "int"}), json!({"type": "map"}), json!({"type": "map", "values": {}}), json!({"type": "map", "values": "int"}), json!({"type": "map", "items": "int"}), json!({"type": "union"}), json!({"type": "union", "types": ["int"]}),
        json!({"type": "int", "x": 1}), json!({"type": "string", "avro.java.string": "String"}),
    ]
}

pub fn run(cx: &mut Cx) {
    let avpr = json!({
        "protocol": "J", "namespace": "a", "doc": "d", "x": 1,
        "types": [
            {"type": "record", "name": "R", "aliases": ["Q"], "fields": [
                {"name": "f", "type": "int", "default": 1, "order": "ignore", "aliases": ["g"]},
                {"name": "u", "type": ["null", {"type": "array", "items": {"type": "enum", "name": "E", "symbols": ["A"], "default": "A"}}], "default": null},
                {"name": "m", "type": {"type": "map", "values": {"type": "record", "name": "In", "fields": [{"name": "k", "type": "E"}]}}},
            ]},
            {"type": "fixed", "name": "b.F", "size": 4},
            {"type": "error", "name": "X", "fields": []},
        ],
        "messages": {
            "m": {"doc": "d", "request": [{"name": "p", "type": {"type": "map", "values": "R"}}], "response": {"type": "fixed", "name": "G", "size": 1}, "errors": ["X"]},
            "o": {"request": [], "response": "null", "one-way": true},
        },
    });
    let avsc = avpr["types"][0].clone();
    let reps: Vec<Value> = vec![json!(null), json!(true), json!(0), json!(-1), json!(1.5), json!(""), json!("int"), json!("1!"), json!([]), json!({}), json!({"type": "int"}), json!({"type": "!"}), json!(["null"]), json!([1])];
    let keys = ["type", "name", "fields", "symbols", "size", "items", "values", "protocol", "types", "messages", "request", "response", "errors", "default", "one-way"];
    let every = [0, 1, 2, 3];
    for (kind, d) in [(ImpKind::Protocol, &avpr), (ImpKind::Schema, &avsc), (ImpKind::Schema, &avpr), (ImpKind::Protocol, &avsc)] {
        let mut one = vec![d.clone()];
        json_edits(d, &reps, &keys, &mut one);
        for d in &one {
            cx.case(|c| doc(c, kind, d, &every));
        }
        let few: Vec<Value> = reps.iter().step_by(3).cloned().collect();
        for (i, d1) in one.iter().enumerate() {
            if !cx.thorough() && i % 40 != 1 || kind == ImpKind::Schema && std::ptr::eq(d, &avpr) {
                continue;
            }
            let mut two = vec![];
            json_edits(d1, &few, &["type", "name", "fields"], &mut two);
            for d in two {
                cx.case(|c| doc(c, kind, &d, &[i % 4]));
            }
        }
    }
    // every piece at every place, to a depth
    let wraps: Vec<(&str, fn(Value) -> Value)> = vec![
        ("array", |p| json!({"type": "array", "items": p})),
        ("map", |p| json!({"type": "map", "values": p})),
        ("union", |p| json!(["null", p])),
        ("union first", |p| json!([p, "boolean"])),
        ("field", |p| json!({"type": "record", "name": "Wrap@", "fields": [{"name": "a", "type": p}]})),
        ("second field", |p| json!({"type": "error", "name": "w.Wrap@", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": p, "doc": "d"}]})),
    ];
    let depth = cx.pick(2, 4);
    let mut shapes: Vec<Vec<usize>> = vec![vec![]];
    let mut last = shapes.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|s| (0..wraps.len()).map(|w| s.iter().copied().chain([w]).collect())).collect();
        shapes.extend(last.clone());
    }
    for p in pieces() {
        for s in &shapes {
            let build = || {
                let mut v = p.clone();
                for (i, w) in s.iter().enumerate() {
                    v = wraps[*w].1(v);
                    if let Some(n) = v.get("name").and_then(Value::as_str).map(|n| n.replace('@', &i.to_string())) {
                        v["name"] = json!(n);
                    }
                }
                v
            };
            cx.case(|c| doc(c, ImpKind::Schema, &build(), &every));
            let hosts: Vec<fn(Value) -> Value> = vec![
                |p| json!({"protocol": "P", "types": [p]}),
                |p| json!({"protocol": "P", "namespace": "h", "types": [{"type": "fixed", "name": "First", "size": 1}, p, {"type": "enum", "name": "Last", "symbols": []}], "messages": {}}),
                |p| json!({"protocol": "P", "messages": {"m": {"request": [{"name": "a", "type": p}], "response": "int"}}}),
                |p| json!({"protocol": "P", "messages": {"k": {"request": [], "response": "int"}, "m": {"request": [{"name": "a", "type": "int"}, {"name": "b", "type": p}], "response": "null", "one-way": true}}}),
                |p| json!({"protocol": "P", "messages": {"m": {"request": [], "response": p}}}),
                |p| json!({"protocol": "P", "messages": {"m": {"request": [], "response": "int", "errors": ["string", p]}}}),
            ];
            for h in &hosts {
                cx.case(|c| doc(c, ImpKind::Protocol, &h(build()), &[0, 1]));
            }
        }
    }
    // a message or protocol which lacks something
    let vals = [None, Some(json!(null)), Some(json!([])), Some(json!({})), Some(json!("int")), Some(json!(true)), Some(json!(["string"])), Some(json!([{"name": "a", "type": "int"}]))];
    for a in &vals {
        for b in &vals {
            for e in &vals {
                for o in &vals[..6] {
                    cx.case(|c| {
                        let mut m = Map::new();
                        for (k, v) in [("request", a), ("response", b), ("errors", e), ("one-way", o)] {
                            if let Some(v) = v {
                                m.insert(k.into(), v.clone());
                            }
                        }
                        doc(c, ImpKind::Protocol, &json!({"protocol": "P", "messages": {"ok": {"request": [], "response": "int"}, "m": m}}), &[0])?;
                        let mut p = Map::new();
                        for (k, v) in [("protocol", b), ("types", a), ("messages", e), ("namespace", o)] {
                            if let Some(v) = v {
                                p.insert(k.into(), v.clone());
                            }
                        }
                        doc(c, ImpKind::Protocol, &Value::Object(p), &[0])
                    });
                }
            }
        }
    }
    // damaged text
    let text = avpr.to_string();
    let reads = |t: &[u8]| std::str::from_utf8(t).is_ok() && serde_json::from_slice::<Value>(t).is_ok();
    let mut raw = |cx: &mut Cx, t: Vec<u8>| {
        cx.case(|c| {
            // (comments are allowed in imported files: such texts are open)
            let v = if reads(&t) || t.windows(2).any(|w| w == b"//" || w == b"/*") { Open("text") } else { Bad("text that is not JSON") };
            if v == Open("text") {
                return Result::Ok(());
            }
            let s = String::from_utf8_lossy(&t).into_owned();
            note_input(&s);
            for kind in [ImpKind::Protocol, ImpKind::Schema] {
                let root = set_up(c, kind.kw(), &t);
                reach(c, &root, kind.kw(), &s, &v, &[0])?;
            }
            Result::Ok(())
        });
    };
    for i in 0..text.len() {
        raw(cx, text.as_bytes()[..i].to_vec());
        for b in [b"\xff".as_slice(), b"\xc3", b"\"", b"\\", b"\0", b"{", b"]", b",", b":", b"1", b"'", b"\xef\xbb\xbf", b"/", b"*/"] {
            let mut t = text.as_bytes().to_vec();
            t.splice(i..i, b.iter().copied());
            raw(cx, t);
        }
        let mut t = text.as_bytes().to_vec();
        t.remove(i);
        raw(cx, t);
    }
    for tail in ["{}", "1", ",", "]", "}", "\"", "x", "\0", "null", "\u{feff}", ";"] {
        for sep in ["", " ", "\n"] {
            raw(cx, format!("{text}{sep}{tail}").into_bytes());
            raw(cx, format!("{tail}{sep}{text}").into_bytes());
        }
    }
    // imported IDL files which are not sentences
    for (ti, f) in super::c10::templates().into_iter().enumerate() {
        let mut f = f;
        f.items.retain(|i| !matches!(i, Item::Import(..)));
        let base: Vec<String> = tokens(&f).into_iter().map(|t| t.s).collect();
        let subst = ["{", "}", ";", "record", "int", "A", "1", "\"s\"", "(", ")", "<", ",", "@", "import", "schema"];
        let join = |t: &[String]| t.join(" ");
        let mut texts = vec![];
        for i in 0..base.len() {
            let mut t = base.clone();
            t.remove(i);
            texts.push(join(&t));
            texts.push(join(&base[..i]));
            let mut t = base.clone();
            t.insert(i, base[i].clone());
            texts.push(join(&t));
            for s in subst {
                let mut t = base.clone();
                t[i] = s.into();
                texts.push(join(&t));
                t.insert(i, base[i].clone());
                texts.push(join(&t));
            }
        }
        for t in texts {
            cx.case(|c| {
                let Some((toks, _)) = ip::lex(&t) else { return Result::Ok(()) };
                if ip::parse(&toks).is_some() {
                    c.count("a sentence");
                    return Result::Ok(());
                }
                note_input(&t);
                let root = set_up(c, "idl", t.as_bytes());
                reach(c, &root, "idl", &t, &Bad("a syntax error"), if ti == 0 { &[0, 1] } else { &[0, 3] })
            });
        }
    }
    cx.note("depth", depth);
    cx.note("pieces", pieces().len());
}
