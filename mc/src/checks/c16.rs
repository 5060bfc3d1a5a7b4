//! C16: importing schema and protocol JSON preserves its meaning.
use crate::ast::*;
use crate::avroread::{self as ar, Doc};
use crate::drv;
use crate::engine::{Case, Cx, Fail, Res};
use crate::eval;
use crate::fail;
use serde_json::{Value, json};
use std::path::Path;

fn compile(dir: &Path, host: &str) -> Result<Value, String> {
    std::fs::write(dir.join("host.avdl"), host).unwrap();
    crate::engine::note_input(host);
    match avdl::Idl::new().convert(dir.join("host.avdl")) {
        Ok(o) if o.warnings.is_empty() => Ok(o.json),
        Ok(o) => Err(format!("warnings: {:?}", o.warnings)),
        Err(e) => Err(drv::diag_plain(&e).text()),
    }
}
/// The host's output reduced to what was imported.
fn imported(c: &mut Case, kind: ImpKind, text: &str, head: &str, extra: &str) -> Result<(Doc, Value), String> {
    let root = c.scratch().join("w");
    std::fs::create_dir_all(&root).unwrap();
    let file = if kind == ImpKind::Protocol { "j.avpr" } else { "j.avsc" };
    std::fs::write(root.join(file), text).unwrap();
    let host = format!("{head} {{ import {} \"{file}\"; {extra} }}", kind.kw());
    let v = compile(&root, &host)?;
    c.trace();
    Ok((ar::read_protocol(&v)?, v))
}

fn same(want: &Doc, got: &Doc) -> Result<(), String> {
    for (n, d) in &want.defs {
        match got.defs.get(n) {
            None => return Err(format!("the type {n} is missing")),
            Some(x) if x != d => return Err(format!("the type {n} differs\n want {d}\n got  {x}")),
            _ => {}
        }
    }
    if let Some(n) = got.defs.keys().find(|n| !want.defs.contains_key(*n)) {
        return Err(format!("unexpected type {n}"));
    }
    ar::compare_messages(&want.messages, &got.messages)
}

fn read(kind: ImpKind, v: &Value, attr_wins: bool) -> Result<Doc, String> {
    if kind == ImpKind::Protocol { ar::read_protocol_with(v, false, attr_wins) } else { ar::read_schema_with(v, attr_wins) }
}

const HOSTS: [&str; 3] = ["protocol Host", "@namespace(\"o\") protocol Host", "@namespace(\"h.k\") protocol Host"];

/// One JSON file, imported into one host.
fn one(c: &mut Case, kind: ImpKind, v: &Value, host: usize) -> Res {
    one_text(c, kind, &v.to_string(), v, host)
}
fn one_text(c: &mut Case, kind: ImpKind, text: &str, v: &Value, host: usize) -> Res {
    c.state(&(text, host));
    c.steps(text.len() / 8);
    let data = |m: &str| json!({"host": HOSTS[host], "json": text, "detail": m});
    let want = match read(kind, v, false) {
        Ok(w) => w,
        Err(e) => {
            c.count("not valid Avro");
            let _ = e;
            return Ok(());
        }
    };
    if want.fell_back {
        // by the letter of the specification such a reference denotes nothing
        c.count("not valid Avro: a type without namespace named inside a namespace");
        return Ok(());
    }
    c.count("imported");
    c.sample(|| json!({"json": text}));
    let got = imported(c, kind, text, HOSTS[host], "");
    let verdict = match &got {
        Ok((got, out)) => {
            c.outcome(&out.to_string());
            same(&want, got).map_err(|e| Fail::new(format!("the import changes the meaning: {}", e.lines().next().unwrap()), data(&e)))
        }
        Err(e) => Err(Fail::new("a valid JSON file is not imported", data(e))),
    };
    verdict.map_err(|e| {
        // the known deviation explains the result exactly
        let alt = read(kind, v, true);
        let known = match (&alt, &got) {
            (Ok(a), Ok((g, _))) => same(a, g).is_ok(),
            (Err(_), Err(_)) => true,
            (Ok(a), Err(_)) => a.fell_back,
            _ => false,
        };
        if known { e.key("a dotted name with a namespace attribute") } else { e }
    })
}

fn with(mut v: Value, k: &str, x: Value) -> Value {
    v[k] = x;
    v
}

fn leaves() -> Vec<Value> {
    let mut out: Vec<Value> = ar::PRIM.iter().map(|p| json!(p)).collect();
    out.extend(ar::PRIM.iter().map(|p| json!({"type": p})));
    out.extend(ar::PRIM.iter().map(|p| json!({"type": p, "x-y": [1, {"a": null}]})));
    for (b, l) in [
        ("int", "date"),
        ("int", "time-millis"),
        ("long", "time-micros"),
        ("long", "timestamp-millis"),
        ("long", "timestamp-micros"),
        ("long", "timestamp-nanos"),
        ("long", "local-timestamp-millis"),
        ("long", "local-timestamp-micros"),
        ("long", "local-timestamp-nanos"),
        ("string", "uuid"),
        ("string", "date"),
        ("int", "uuid"),
        ("bytes", "unknown"),
        ("long", "Date"),
        ("int", "decimal"),
        ("bytes", "uuid"),
    ] {
        out.push(json!({"type": b, "logicalType": l}));
        out.push(json!({"type": b, "logicalType": l, "p": 1, "precision": 4, "scale": 2}));
    }
    for (p, s) in [(1, None), (1, Some(0)), (1, Some(1)), (9, Some(3)), (38, Some(38)), (3, Some(4)), (2147483647u64, None), (4294967295, None), (4294967296, Some(1))] {
        let mut v = json!({"type": "bytes", "logicalType": "decimal", "precision": p});
        if let Some(s) = s {
            v["scale"] = json!(s);
        }
        out.push(v.clone());
        out.push(with(v, "extra", json!("e")));
    }
    out.push(json!({"type": "bytes", "logicalType": "decimal"}));
    out.push(json!({"type": "bytes", "logicalType": "decimal", "precision": "4"}));
    out.push(json!({"type": "bytes", "logicalType": "decimal", "precision": 4, "scale": -1}));
    out.push(json!({"type": "bytes", "logicalType": "decimal", "precision": 4, "scale": "1"}));
    out.push(json!({"type": "long", "logicalType": 5}));
    out.push(json!({"type": "enum", "name": "E", "symbols": ["A", "b_1"]}));
    out.push(json!({"type": "enum", "name": "E", "symbols": []}));
    out.push(json!({"type": "fixed", "name": "F", "size": 0}));
    out.push(json!({"type": "fixed", "name": "F", "size": 12, "logicalType": "duration"}));
    out.push(json!({"type": "fixed", "name": "F", "size": 16, "logicalType": "decimal", "precision": 8, "scale": 3}));
    out.push(json!({"type": "fixed", "name": "F", "size": 16, "logicalType": "decimal", "precision": 800, "scale": 3}));
    out.push(json!({"type": "fixed", "name": "F", "size": 16, "logicalType": "uuid"}));
    out.push(json!({"type": "record", "name": "N", "fields": []}));
    out.push(json!({"type": "error", "name": "X", "fields": [{"name": "a", "type": "int"}]}));
    out.push(json!({"type": "record", "name": "N", "fields": [{"name": "next", "type": ["null", "N"]}]}));
    out
}
fn wraps(v: &Value) -> Vec<Value> {
    let mut out = vec![
        json!({"type": "array", "items": v}),
        json!({"type": "map", "values": v}),
        json!({"type": "array", "items": v, "k": "v"}),
        json!({"type": "map", "values": v, "logicalType": "date"}),
    ];
    if !v.is_array() {
        out.push(json!([v]));
        if v != "null" && v["type"] != "null" {
            out.push(json!(["null", v]));
            out.push(json!([v, "null"]));
        }
        if v != "int" && v["type"] != "int" {
            out.push(json!(["int", v, {"type": "enum", "name": "E9", "symbols": ["Q"]}]));
        }
    }
    out
}

/// name / namespace attributes of a definition
const STYLES: [(&str, Option<&str>); 7] =
    [("$", None), ("$", Some("o")), ("$", Some("")), ("p.q.$", None), ("$", Some("p.q")), ("o.$", Some("p.q")), ("p.q.$", Some(""))];

fn named(style: usize, simple: &str, mut rest: Value) -> Value {
    let (n, ns) = STYLES[style];
    rest["name"] = json!(n.replace('$', simple));
    if let Some(ns) = ns {
        rest["namespace"] = json!(ns);
    }
    rest
}
fn place(p: usize, inner: Value) -> Value {
    match p {
        0 => inner,
        1 => json!({"type": "array", "items": inner}),
        2 => json!({"type": "map", "values": inner}),
        3 => json!(["null", inner]),
        4 => json!([{"type": "map", "values": [inner, "string"]}, "null"]),
        _ => json!({"type": "record", "name": "Mid", "namespace": "mid", "fields": [{"name": "m", "type": inner}]}),
    }
}

fn naming(cx: &mut Cx) {
    let ns = STYLES.len();
    for outer in 0..ns {
        for inner in 0..ns {
            for p in 0..6 {
                for kind in 0..4 {
                    if !cx.thorough() && kind > 0 && p != kind {
                        continue;
                    }
                    for refstyle in 0..3 {
                        for (ik, pns) in [(ImpKind::Schema, None), (ImpKind::Protocol, None), (ImpKind::Protocol, Some("o")), (ImpKind::Protocol, Some("z.z"))] {
                            for host in 0..3 {
                                cx.case(|c| {
                                    let body = match kind {
                                        0 => json!({"type": "enum", "symbols": ["A"], "aliases": ["Al", "q.Al"]}),
                                        1 => json!({"type": "fixed", "size": 3}),
                                        2 => json!({"type": "record", "fields": [{"name": "self", "type": ["null", STYLES[inner].0.replace('$', "In")]}]}),
                                        _ => json!({"type": "error", "fields": []}),
                                    };
                                    let indef = named(inner, "In", body);
                                    // where is the inner type, by the rules?
                                    let at = json!({"t": named(outer, "Out", json!({"type": "record", "fields": [{"name": "i", "type": place(p, indef.clone())}]}))});
                                    let d = ar::read_schema(&at["t"]);
                                    let Ok(d) = d else {
                                        c.count("not valid Avro");
                                        return Ok(());
                                    };
                                    let full = d.order.iter().find(|n| n.rsplit('.').next() == Some("In")).unwrap().clone();
                                    let mut fields = vec![json!({"name": "i", "type": place(p, indef)})];
                                    match refstyle {
                                        0 => {}
                                        1 => fields.push(json!({"name": "r", "type": full})),
                                        _ => fields.push(json!({"name": "r", "type": ["In", "null"]})),
                                    }
                                    fields.push(json!({"name": "o", "type": ["null", {"type": "array", "items": STYLES[outer].0.replace('$', "Out")}]}));
                                    let t = named(outer, "Out", json!({"type": "record", "fields": fields, "aliases": ["Ol", "a.b.Ol"]}));
                                    let v = if ik == ImpKind::Schema {
                                        t
                                    } else {
                                        let mut m = json!({"protocol": "J", "types": [t], "messages": {}});
                                        if let Some(x) = pns {
                                            m["namespace"] = json!(x);
                                        }
                                        m
                                    };
                                    one(c, ik, &v, host)
                                });
                            }
                        }
                    }
                }
            }
        }
    }
}

fn attributes(cx: &mut Cx) {
    let names = [
        "doc", "aliases", "order", "default", "custom", "size", "symbols", "items", "values", "fields", "namespace", "name", "logicalType", "precision",
        "scale", "messages", "request", "errors", "one-way", "protocol", "types", "response", "java-class", "type", "", "é",
    ];
    let values = [
        json!(null),
        json!(true),
        json!(0),
        json!(-5),
        json!(2.5),
        json!(""),
        json!("text"),
        json!("date"),
        json!("decimal"),
        json!("ignore"),
        json!([]),
        json!(["a"]),
        json!(["a", "n.s.B"]),
        json!([1, [2]]),
        json!({}),
        json!({"type": "int", "x": [null]}),
        json!("descending"),
        json!("ascending"),
        json!(9007199254740993i64),
        json!(18446744073709551615u64),
    ];
    let mut bases: Vec<(&str, Value)> = vec![
        ("record", json!({"type": "record", "name": "R", "fields": [{"name": "f", "type": "int"}]})),
        ("error", json!({"type": "error", "name": "R", "namespace": "n", "fields": []})),
        ("enum", json!({"type": "enum", "name": "E", "symbols": ["a", "text"]})),
        ("fixed", json!({"type": "fixed", "name": "F", "size": 4})),
    ];
    for x in ["int", "string", "bytes", "array", "map", "field", "nested record", "branch", "decimal", "decimal with scale", "date", "fixed decimal", "annotated array"] {
        bases.push((x, json!(null)));
    }
    let build = |what: &str, base: &Value, k: &str, val: &Value| -> Option<Value> {
        let rec = |t: Value| json!({"type": "record", "name": "R", "fields": [{"name": "f", "type": t}]});
        let add = |b: Value| -> Option<Value> { if b.get(k).is_some() { None } else { Some(with(b, k, val.clone())) } };
        Some(match what {
            "record" | "error" | "enum" | "fixed" => add(base.clone())?,
            "int" | "string" | "bytes" => rec(add(json!({"type": what}))?),
            "array" => rec(add(json!({"type": "array", "items": "int"}))?),
            "decimal" => rec(add(json!({"type": "bytes", "logicalType": "decimal", "precision": 5}))?),
            "decimal with scale" => rec(add(json!({"type": "bytes", "logicalType": "decimal", "precision": 5, "scale": 2}))?),
            "date" => rec(add(json!({"type": "int", "logicalType": "date"}))?),
            "fixed decimal" => rec(add(json!({"type": "fixed", "name": "D", "size": 4, "logicalType": "decimal", "precision": 5}))?),
            "annotated array" => rec(add(json!({"type": "array", "items": {"type": "long", "logicalType": "timestamp-millis", "c": 1}, "c": [2]}))?),
            "map" => rec(add(json!({"type": "map", "values": "int"}))?),
            "field" => json!({"type": "record", "name": "R", "fields": [add(json!({"name": "f", "type": ["null", "string", "int", "boolean", "double", {"type": "array", "items": ["long", "string", {"type": "array", "items": "int"}]}, {"type": "map", "values": ["string", {"type": "array", "items": "null"}]}]}))?]}),
            "nested record" => rec(add(json!({"type": "record", "name": "I", "fields": []}))?),
            _ => rec(json!(["null", add(json!({"type": "long"}))?])),
        })
    };
    // what the specification says about the value of an attribute it defines
    let valid = |what: &str, k: &str, val: &Value| -> bool {
        let named = matches!(what, "record" | "error" | "enum" | "fixed" | "nested record" | "fixed decimal");
        let strs = |v: &Value| v.as_array().is_some_and(|a| a.iter().all(|x| x.is_string()));
        match k {
            "doc" => !(named || what == "field") || val.is_string(),
            "aliases" => !(named || what == "field") || strs(val),
            "order" => what != "field" || matches!(val.as_str(), Some("ignore" | "ascending" | "descending")),
            "default" => what != "enum" || matches!(val.as_str(), Some("text")),
            "namespace" => !named || val.is_string(),
            "scale" if what == "decimal" => val == &json!(0),
            _ => true,
        }
    };
    for (what, base) in &bases {
        for k in names {
            for val in &values {
                let Some(v) = build(what, base, k, val) else { continue };
                if !valid(what, k, val) {
                    continue;
                }
                for host in [0, 2] {
                    cx.case(|c| one(c, ImpKind::Schema, &v, host));
                }
                cx.case(|c| one(c, ImpKind::Protocol, &json!({"protocol": "J", "namespace": "o", "types": [v]}), 1));
            }
        }
        // pairs of attributes
        for (i, k) in names.iter().enumerate() {
            for l in &names[i + 1..] {
                let (x, y) = (json!("ignore"), json!(["a"]));
                for (x, y) in [(&x, &y), (&y, &x), (&x, &x)] {
                    if !valid(what, k, x) || !valid(what, l, y) {
                        continue;
                    }
                    let Some(v) = build(what, base, k, x) else { continue };
                    if build(what, base, l, y).is_none() {
                        continue;
                    }
                    let at = |v: &mut Value| -> Option<()> {
                        let o = match *what {
                            "record" | "error" | "enum" | "fixed" => v,
                            "field" => &mut v["fields"][0],
                            "branch" => &mut v["fields"][0]["type"][1],
                            _ => &mut v["fields"][0]["type"],
                        };
                        o[*l] = y.clone();
                        Some(())
                    };
                    let mut v = v;
                    at(&mut v);
                    cx.case(|c| one(c, ImpKind::Schema, &v, 0));
                }
            }
        }
    }
    // messages
    for k in names {
        if ["request", "response", "errors", "one-way"].contains(&k) {
            continue;
        }
        for val in &values {
            if k == "doc" && !val.is_string() {
                continue;
            }
            let v = json!({"protocol": "J", "messages": {"m": with(json!({"request": [], "response": "int"}), k, val.clone())}});
            cx.case(|c| one(c, ImpKind::Protocol, &v, 0));
        }
    }
}

fn messages(cx: &mut Cx) {
    let inl = |n: &str| json!({"type": "record", "name": n, "fields": []});
    let types: Vec<Value> = vec![
        json!("null"),
        json!("int"),
        json!({"type": "string"}),
        json!("R"),
        json!("n.R"),
        json!("a.E"),
        json!(["null", "R"]),
        json!({"type": "array", "items": "a.E"}),
        json!({"type": "map", "values": ["X", "null"]}),
        json!({"type": "long", "logicalType": "timestamp-millis"}),
    ];
    let errs: Vec<Option<Value>> = vec![
        None,
        Some(json!([])),
        Some(json!(["X"])),
        Some(json!(["n.X", "string"])),
        Some(json!(["string"])),
        Some(json!([{"type": "error", "name": "Inl", "fields": []}])),
    ];
    let base = |ns: Option<&str>, dotted: bool, msgs: Value| {
        let mut v = json!({"protocol": if dotted { "n.J" } else { "J" }, "types": [
            {"type": "record", "name": "R", "namespace": "n", "fields": [{"name": "e", "type": {"type": "enum", "name": "a.E", "symbols": ["A"]}}]},
            {"type": "error", "name": "n.X", "fields": []},
        ], "messages": msgs});
        if let Some(ns) = ns {
            v["namespace"] = json!(ns);
        }
        v
    };
    let mut pts = types.clone();
    pts.push(inl("Inl"));
    pts.push(json!(["null", {"type": "array", "items": inl("q.Inl")}]));
    for resp in &pts {
        for p in &pts {
            for e in &errs {
                for ow in [None, Some(false), Some(true)] {
                    for (ns, dotted) in [(Some("n"), false), (None, true), (Some("k"), true)] {
                        let mut m = json!({"request": [{"name": "p", "type": p, "default": null, "doc": "pd", "x": 1}], "response": resp});
                        if let Some(e) = e {
                            m["errors"] = e.clone();
                        }
                        if let Some(o) = ow {
                            if o && (e.is_some() || resp != "null") {
                                continue;
                            }
                            m["one-way"] = json!(o);
                        }
                        if p != "null" && !p.as_array().is_some_and(|a| a[0] == "null") {
                            m["request"][0].as_object_mut().unwrap().remove("default");
                        }
                        let v = base(ns, dotted, json!({"m": m, "second": {"request": [], "response": "R"}}));
                        let inline = v["messages"].to_string().contains("Inl");
                        if inline && dotted && !cx.thorough() {
                            continue;
                        }
                        for host in 0..3 {
                            cx.case(|c| one(c, ImpKind::Protocol, &v, host));
                        }
                    }
                }
            }
        }
    }
    // a name alone as an object
    for v in [
        json!({"type": "record", "name": "R", "fields": [{"name": "a", "type": {"type": "enum", "name": "E", "symbols": []}}, {"name": "b", "type": {"type": "E"}}]}),
        json!({"type": "record", "name": "R", "fields": [{"name": "b", "type": ["null", {"type": "R"}]}]}),
    ] {
        cx.case(|c| {
            // the object form of a reference
            let mut w = v.clone();
            let i = w["fields"].as_array().unwrap().len() - 1;
            let r = &mut w["fields"][i]["type"];
            if r.is_array() { r[1] = json!("R") } else { *r = json!("E") }
            one_text(c, ImpKind::Schema, &v.to_string(), &w, 0).map_err(|e| e.key("a reference written as an object"))
        });
    }
    // names usable from IDL, and order of files
    for (i, h) in HOSTS.iter().enumerate() {
        for (r, ok) in [("n.R", true), ("a.E", true), ("n.X", true), ("mm.Deep", true), ("q.Inl", true), ("n.Nope", false)] {
            cx.case(|c| {
                let v = base(
                    Some("n"),
                    false,
                    json!({"m": {"request": [{"name": "p", "type": {"type": "array", "items": {"type": "record", "name": "q.Inl", "fields": [{"name": "d", "type": {"type": "fixed", "name": "mm.Deep", "size": 1}}]}}}], "response": "null"}}),
                );
                c.state(&(i, r));
                let got = imported(c, ImpKind::Protocol, &v.to_string(), h, &format!("record Use {{ {r} x; array<{r}> y; }} void use({r} z);"));
                match (got, ok) {
                    (Ok((d, _)), true) => {
                        let u = d.defs.iter().find(|x| x.0.ends_with("Use")).unwrap().1;
                        if u["fields"][0]["type"]["ref"] != *r {
                            fail!(json!({"json": v, "host": h, "use": u}), "the reference denotes another type");
                        }
                        Ok(())
                    }
                    (Err(_), false) => Ok(()),
                    (Ok(_), false) => fail!(json!({"json": v, "host": h}), "an undefined name is accepted"),
                    (Err(e), true) => fail!(json!({"json": v, "host": h, "detail": e}), "the imported type {r} cannot be used"),
                }
            });
        }
    }
}

/// Several files naming each other's types.
fn several(cx: &mut Cx) {
    let kinds = [ImpKind::Schema, ImpKind::Protocol];
    for ka in kinds {
        for kb in kinds {
            for order in 0..2 {
                for na in 0..5 {
                    for nb in 0..5 {
                        for (h, head) in HOSTS.iter().enumerate() {
                            cx.case(|c| {
                                let a = named(na, "A", json!({"type": "record", "fields": [{"name": "e", "type": ["null", {"type": "enum", "name": "In", "symbols": ["S"]}]}]}));
                                let full_a = ar::read_schema(&a).map_err(|e| Fail::new(e, json!(a)))?;
                                let (fa, fi) = (full_a.order[0].clone(), full_a.order[1].clone());
                                // a type without namespace can only be named where no namespace is in force
                                let b = named(nb, "B", json!({"type": "record", "fields": [{"name": "a", "type": {"type": "array", "items": fa}}, {"name": "i", "type": {"type": "map", "values": ["null", fi]}}]}));
                                let inner_ns = ar::read_schema(&named(nb, "B", json!({"type": "fixed", "size": 1}))).unwrap().order[0].contains('.');
                                if inner_ns && (!fa.contains('.') || !fi.contains('.')) {
                                    return Ok(());
                                }
                                let both = json!([a, b]);
                                let want = ar::read_schema(&both).map_err(|e| Fail::new(e, json!(both)))?;
                                let root = c.scratch().join("w");
                                std::fs::create_dir_all(&root).unwrap();
                                let mut imports = vec![];
                                for (n, k, v) in [("a", ka, &a), ("b", kb, &b)] {
                                    let (ext, text) = match k {
                                        ImpKind::Protocol => ("avpr", json!({"protocol": "J", "types": [v]}).to_string()),
                                        _ => ("avsc", v.to_string()),
                                    };
                                    std::fs::write(root.join(format!("{n}.{ext}")), text).unwrap();
                                    imports.push(format!("import {} \"{n}.{ext}\";", k.kw()));
                                }
                                if order == 1 {
                                    imports.reverse();
                                }
                                let host = format!("{head} {{ {} }}", imports.join(" "));
                                c.state(&(&host, na, nb, h));
                                c.trace();
                                let data = |m: &str| json!({"host": host, "a": a, "b": b, "detail": m});
                                let r = compile(&root, &host).and_then(|v| ar::read_protocol(&v)).and_then(|g| same(&want, &g));
                                r.map_err(|e| Fail::new("two files that name each other's types are not imported as they are", data(&e)))
                            });
                        }
                    }
                }
            }
        }
    }
    cx.case(|c| {
        let root = c.scratch().join("w");
        std::fs::create_dir_all(&root).unwrap();
        std::fs::write(root.join("n.avdl"), "protocol N { record A {} A get(); }").unwrap();
        let j = compile(&root, "@namespace(\"k\") protocol P { import idl \"n.avdl\"; }").map_err(|e| Fail::new(e, json!(null)))?;
        c.state("null namespace message");
        match imported(c, ImpKind::Protocol, &j.to_string(), "@namespace(\"k\") protocol P", "") {
            Ok((d, _)) if d.defs.contains_key("A") && d.messages["get"]["response"]["ref"] == "A" => Ok(()),
            Ok((_, v)) => fail!(json!({"output": j, "again": v}), "the round trip changes the meaning"),
            Err(e) => Err(Fail::new("the output cannot be imported", json!({"output": j, "detail": e})).key("a message naming a type without namespace")),
        }
    });
}

/// Every number keeps its value.
fn numbers(cx: &mut Cx) {
    let mut lits: Vec<String> = vec![];
    for m in ["0", "1", "5", "9", "12", "123456789", "9007199254740993", "123456789012345678", "1797693134862315708", "22250738585072014", "49406564584124654"] {
        for neg in ["", "-"] {
            lits.push(format!("{neg}{m}"));
            let n: usize = m.len();
            for cut in 1..n {
                lits.push(format!("{neg}{}.{}", &m[..cut], &m[cut..]));
            }
            let exps: Vec<i32> = if cx.thorough() { (-345..=330).collect() } else { (-345..=330).step_by(7).chain([-5, -1, 0, 1, 2, 22, 23, 308, 309, -323, -324]).collect() };
            for e in exps {
                lits.push(format!("{neg}{m}e{e}"));
                lits.push(format!("{neg}{}.{}E{}{e}", &m[..1], if n > 1 { &m[1..] } else { "0" }, if e > 0 { "+" } else { "" }));
            }
        }
    }
    for k in 0..=70u32 {
        for d in [-1i128, 0, 1] {
            let x = (1i128 << k) + d;
            lits.push(x.to_string());
            lits.push((-x).to_string());
        }
    }
    for l in &lits {
        let f: f64 = l.parse().unwrap();
        if !f.is_finite() {
            continue;
        }
        for k in 0..2 {
            cx.case(|c| {
                let int = !l.contains(['.', 'e', 'E']);
                let fits = int && l.parse::<i128>().is_ok_and(|x| x >= i64::MIN as i128 && x <= u64::MAX as i128);
                let text = if k == 0 {
                    format!("{{\"type\":\"record\",\"name\":\"R\",\"fields\":[{{\"name\":\"f\",\"type\":\"double\",\"default\":{l}}}]}}")
                } else {
                    format!("{{\"type\":\"record\",\"name\":\"R\",\"fields\":[{{\"name\":\"f\",\"type\":\"double\",\"at\":{{\"x\":[{l}]}}}}]}}")
                };
                c.state(&text);
                let data = |m: &str| json!({"json": text, "detail": m});
                let (_, v) = match imported(c, ImpKind::Schema, &text, HOSTS[0], "") {
                    Ok(x) => x,
                    Err(e) => {
                        let f = Fail::new("a valid JSON file is not imported", data(&e));
                        // rounding at the edge of the range
                        return Err(if e.contains("number out of range") && l.len() > 17 && l.parse::<f64>().unwrap().abs() > 1.7976931348623155e308 { f.key("the last bits of a number with many digits or a large exponent") } else { f });
                    }
                };
                let f0 = &v["types"][0]["fields"][0];
                let got = if k == 0 { &f0["default"] } else { &f0["at"]["x"][0] };
                if fits {
                    if got.as_i64().map(|x| x as i128).or(got.as_u64().map(|x| x as i128)) == l.parse().ok() {
                        return Ok(());
                    }
                    // a negative zero may be written as a fraction
                    if l == "-0" && got.as_f64() == Some(0.0) {
                        return Ok(());
                    }
                    fail!(data(&got.to_string()), "the integer changes");
                }
                let Some(g) = got.as_f64() else { fail!(data(&got.to_string()), "no number any more") };
                if int {
                    // beyond 64 bits
                    if g == f && !got.is_f64() || got.to_string() == *l {
                        return Ok(());
                    }
                    return Err(Fail::new("the integer becomes a fraction", data(&got.to_string())).key("an integer beyond 64 bits"));
                }
                if g.to_bits() == f.to_bits() {
                    return Ok(());
                }
                let e = Fail::new("the number changes", data(&format!("{f:e} became {g:e}")));
                let (m, e10) = l.trim_start_matches('-').split_once(['e', 'E']).unwrap_or((l.trim_start_matches('-'), "0"));
                let frac = m.split_once('.').map_or(0, |x| x.1.len() as i32);
                let long = m.replace('.', "").parse::<u128>().unwrap() > 1 << 53;
                let exp = (e10.parse::<i32>().unwrap() - frac).abs();
                // one or two units in the last place, for numbers outside the range of exact doubles
                Err(if (g.to_bits() as i64 - f.to_bits() as i64).abs() <= 2 && (long || exp > 22) { e.key("the last bits of a number with many digits or a large exponent") } else { e })
            });
        }
    }
}

/// Comments in the JSON are ignored, and look-alikes in strings are not.
fn comments(cx: &mut Cx) {
    let plain = json!({"protocol": "J", "namespace": "n", "types": [{"type": "record", "name": "R", "doc": "// no /* comment */", "fields": [{"name": "f", "type": ["null", "string"], "default": null}]}],
        "messages": {"m": {"request": [{"name": "p", "type": "R"}], "response": "int", "errors": ["string"]}}});
    let text = plain.to_string();
    // token boundaries
    let mut cuts = vec![0];
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            b'{' | b'}' | b'[' | b']' | b',' | b':' => i += 1,
            _ => {
                while b[i].is_ascii_alphanumeric() {
                    i += 1;
                }
            }
        }
        cuts.push(i);
    }
    let coms = ["/**/", "/* \" */", "// x\n", "//\n", "/* // */", "// /* \n", "/***/", "/* é */", " /*\n*/ ", "// \" \r\n", "/*/ */", "/* ' */", "///\n", "// c"];
    for (i, &a) in cuts.iter().enumerate() {
        for x in coms {
            if x == "// c" && a != text.len() {
                continue;
            }
            cx.case(|c| one_text(c, ImpKind::Protocol, &format!("{}{x}{}", &text[..a], &text[a..]), &plain, 0));
            for &b in &cuts[i..] {
                if !cx.thorough() && (b + a) % 5 != 0 {
                    continue;
                }
                for y in ["/* \\ */", "// y\n"] {
                    cx.case(|c| one_text(c, ImpKind::Protocol, &format!("{}{x}{}{y}{}", &text[..a], &text[a..b], &text[b..]), &plain, 0));
                }
            }
        }
    }
    // strings over an alphabet, as doc, symbol-like values and names of attributes
    let alpha = ["/", "*", "\"", "\\", "a", "\n", "'", "#", "é"];
    let n = cx.pick(4, 5);
    let mut strs = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = strs.len();
        for i in from..to {
            for a in alpha {
                strs.push(format!("{}{a}", strs[i]));
            }
        }
        from = to;
    }
    for s in &strs {
        cx.case(|c| {
            let v = json!({"type": "record", "name": "R", "doc": s, "fields": [{"name": "f", "type": {"type": "string", s.as_str(): s}, "doc": "x", "default": s}]});
            one(c, ImpKind::Schema, &v, 0)
        });
        // as the body of comments
        cx.case(|c| {
            if s.contains('\n') {
                return Ok(());
            }
            let v = json!({"type": "record", "name": "R", "fields": []});
            one_text(c, ImpKind::Schema, &format!("//{s}\n{{\"type\":\"record\",//{s}\n\"name\":\"R\",\"fields\":[]}}//{s}"), &v, 0)
        });
        cx.case(|c| {
            if s.contains("*/") || s.ends_with('*') && false {
                return Ok(());
            }
            let v = json!({"type": "record", "name": "R", "fields": []});
            one_text(c, ImpKind::Schema, &format!("/*{s}*/{{\"type\":/*{s}*/\"record\",\"name\":\"R\",\"fields\":[]}}/*{s}*/"), &v, 0)
        });
    }
}

fn ann(mut n: Named, k: &str, v: Value) -> Named {
    n.anns.push((k.into(), v));
    n
}
fn atoms() -> Vec<Item> {
    let mut f1 = field(nul(prim("string")), "s");
    f1.vars[0].default = Some(json!("d"));
    f1.vars[0].doc = Some("a field".into());
    let mut f2 = field(arr(rf("E")), "es");
    f2.vars[0].anns.push(("order".into(), json!("ignore")));
    f2.vars[0].anns.push(("aliases".into(), json!(["old"])));
    f2.vars[0].anns.push(("c".into(), json!({"k": [1.5]})));
    let mut f3 = field(un(vec![prim("null"), rf("R"), rf("x.y.Fx")]), "u");
    f3.vars[0].default = Some(Value::Null);
    let mut tl = t(prim("long"));
    tl.anns.push(("logicalType".into(), json!("timestamp-micros")));
    tl.anns.push(("p".into(), json!(null)));
    let mut f4 = field(prim("int"), "t");
    f4.ty = tl;
    let mut e = enm("E", &["A", "B"]);
    e.doc = Some("an enum\n  indented".into());
    let mut deflt = enm("D", &["P", "Q"]);
    if let Body::Enum { default, .. } = &mut deflt.body {
        *default = Some("Q".into());
    }
    vec![
        Item::Named(record("R", vec![f1, f2])),
        Item::Named(e),
        Item::Named(ann(deflt, "aliases", json!(["Dd", "o.Dd"]))),
        Item::Named(ann(fixed("Fx", 5), "namespace", json!("x.y"))),
        Item::Named(ann(ann(fixed("G", 16), "logicalType", json!("decimal")), "precision", json!(7))),
        Item::Named(ann(error("X", vec![f3, field(map(rf("X")), "m")]), "namespace", json!("x.y"))),
        Item::Named(ann(record("S", vec![f4, field(K::Decimal(9, Some(2)), "d"), field(rf("E"), "e"), field(prim("date"), "dt")]), "q", json!(["z"]))),
        Item::Named(ann(record("Z", vec![]), "namespace", json!(""))),
        Item::Named(Named { name: "record".into(), ..enm("", &["enum"]) }),
    ]
}

fn round_trips(cx: &mut Cx) {
    let at = atoms();
    let msgs: Vec<Vec<Item>> = vec![
        vec![],
        vec![Item::Msg(Msg { name: "m".into(), resp: None, params: vec![param(rf("R"), "r"), param(prim("uuid"), "u")], doc: Some("doc".into()), ..Default::default() })],
        vec![
            Item::Msg(Msg { name: "m".into(), resp: Some(nul(rf("E"))), throws: vec!["X".into()], ..Default::default() }),
            Item::Msg(Msg { name: "fire".into(), resp: None, oneway: true, ..Default::default() }),
        ],
        vec![Item::Msg(Msg { name: "enum".into(), resp: Some(arr(prim("int"))), throws: vec!["x.y.X".into()], anns: vec![("cm".into(), json!(5))], ..Default::default() })],
    ];
    let max = cx.pick(5, 9);
    for s in 0..1usize << at.len() {
        if s.count_ones() as usize > max {
            continue;
        }
        for rev in [false, true] {
            let mut items: Vec<Item> = at.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|x| x.1.clone()).collect();
            if rev {
                if s.count_ones() < 2 {
                    continue;
                }
                items.reverse();
            }
            for ns in [None, Some("n"), Some("x.y")] {
                for ms in &msgs {
                    cx.case(|c| {
                        let mut it = items.clone();
                        it.extend(ms.iter().cloned());
                        let f = protocol(ns, it);
                        if eval::evaluate(&f).is_err() {
                            c.count("invalid program");
                            return Ok(());
                        }
                        let src = render(&f);
                        c.state(&src);
                        c.steps(f.items.len());
                        let data = |m: &str, j: &Value| json!({"input": src, "output": j, "detail": m});
                        let j = match drv::idl(&src).res {
                            Ok(j) => j,
                            Err(e) => fail!(data(&drv::diag_plain(&e).text(), &json!(null)), "a valid program is refused"),
                        };
                        let want = match ar::read_protocol(&j) {
                            Ok(w) => w,
                            Err(e) => fail!(data(&e, &j), "the output is not valid"),
                        };
                        c.count("round trip");
                        let head = match ns {
                            Some(n) => format!("@namespace(\"{n}\") protocol P"),
                            None => "protocol P".into(),
                        };
                        match imported(c, ImpKind::Protocol, &j.to_string(), &head, "") {
                            Ok((got, j2)) => {
                                c.outcome(&j2.to_string());
                                if want.head != got.head {
                                    fail!(data("", &j2), "the round trip changes the protocol's name");
                                }
                                if let Err(e) = same(&want, &got) {
                                    fail!(data(&e, &j2), "the round trip changes the meaning");
                                }
                            }
                            Err(e) => fail!(data(&e, &j), "the output cannot be imported"),
                        }
                        // and every extracted schema
                        if ms.is_empty() {
                            for (n, sch) in drv::schemata(&src).res.map_err(|e| Fail::new("not extracted", data(&drv::diag_plain(&e).text(), &j)))? {
                                let w = ar::read_schema(&sch).map_err(|e| Fail::new(format!("the schema {n} is not valid"), data(&e, &sch)))?;
                                match imported(c, ImpKind::Schema, &sch.to_string(), "@namespace(\"host\") protocol P", "") {
                                    Ok((got, _)) => {
                                        if let Err(e) = same(&w, &got) {
                                            fail!(data(&e, &sch), "importing an extracted schema changes the meaning");
                                        }
                                    }
                                    Err(e) => fail!(data(&e, &sch), "an extracted schema cannot be imported"),
                                }
                                // as the main schema of a schema file
                                let full = w.order[0].clone();
                                let root = c.scratch().join("w");
                                let host = format!("{} import schema \"j.avsc\"; schema {};", if full.contains('.') { "namespace qq;" } else { "" }, full.split('.').map(|p| format!("`{p}`")).collect::<Vec<_>>().join("."));
                                // backquoted parts of dotted names need the dots outside
                                let host = if full.contains('.') { host.replace('`', "") } else { host };
                                if full.ends_with(".record") {
                                    continue;
                                }
                                match compile(&root, &host_schema(&host)).and_then(|v| ar::read_schema(&v)) {
                                    Ok(g) => {
                                        if g.head != w.head {
                                            fail!(data(&format!("{:?}", g.head), &sch), "the imported schema is another one");
                                        }
                                        if let Err(e) = same(&w, &g) {
                                            fail!(data(&e, &sch), "compiling an imported schema changes the meaning");
                                        }
                                    }
                                    Err(e) => fail!(data(&format!("{host}: {e}"), &sch), "an extracted schema cannot be imported"),
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
/// A program of the common space: what it compiles to survives being imported.
fn mixed(c: &mut Case, f: &File, s: &crate::mix::Spell) -> Res {
    let src = crate::mix::write(f, s);
    c.state(&src);
    c.steps(f.items.len());
    let data = |m: &str, j: &Value| json!({"input": src, "output": j, "detail": m});
    let Ok(j) = drv::idl(&src).res else {
        c.count("invalid program");
        return Ok(());
    };
    let protocol = matches!(f.mode, Mode::Protocol { .. });
    let read = |v: &Value| if protocol { ar::read_protocol(v) } else { ar::read_schema(v) };
    let want = match read(&j) {
        Ok(w) => w,
        Err(e) => fail!(data(&e, &j), "the output is not valid"),
    };
    if !protocol && !j["type"].is_string() {
        c.count("main schema without a name");
        return Ok(());
    }
    c.count("round trip");
    let (kind, head) = if protocol { (ImpKind::Protocol, "@namespace(\"other\") protocol P") } else { (ImpKind::Schema, "protocol P") };
    match imported(c, kind, &j.to_string(), head, "") {
        Ok((got, j2)) => {
            c.outcome(&j2.to_string());
            if let Err(e) = same(&want, &got) {
                fail!(data(&e, &j2), "the round trip changes the meaning");
            }
        }
        Err(e) => fail!(data(&e, &j), "the output cannot be imported"),
    }
    Ok(())
}
/// `namespace` first, then the schema declaration, then imports.
fn host_schema(h: &str) -> String {
    let (imp, rest) = h.split_once("import").map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
    let (i, s) = rest.split_once(';').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
    format!("{imp} {s} import{i};")
}

pub fn run(cx: &mut Cx) {
    let ls = leaves();
    // 1. schema forms: as the file's type, as a field's, nested twice
    let rec = |t: &Value| json!({"type": "record", "name": "Top", "namespace": "t", "fields": [{"name": "f", "type": t}]});
    for l in &ls {
        let mut all = vec![l.clone()];
        let w1 = wraps(l);
        for w in &w1 {
            all.extend(wraps(w));
        }
        all.extend(w1);
        for v in &all {
            for host in 0..3 {
                cx.case(|c| one(c, ImpKind::Schema, &rec(v), host));
                if host == 0 || cx.thorough() {
                    cx.case(|c| one(c, ImpKind::Schema, v, host));
                    cx.case(|c| one(c, ImpKind::Protocol, &json!({"protocol": "J", "types": [rec(v)]}), host));
                    cx.case(|c| one(c, ImpKind::Protocol, &json!({"protocol": "J", "namespace": "t", "messages": {"m": {"request": [{"name": "p", "type": v}], "response": "null"}}}), host));
                }
            }
        }
    }
    naming(cx);
    attributes(cx);
    messages(cx);
    several(cx);
    numbers(cx);
    comments(cx);
    round_trips(cx);
    cx.note("schema leaves", ls.len());
    // mixed with every other construct
    crate::mix::pairs_with(cx, &["*"], 19, &|c, f, s, _, _| mixed(c, f, s));
}
