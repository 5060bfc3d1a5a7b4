//! C28: what the report of a program that is refused for its meaning says about it is true.
//!
//! Programs of many alike constructs (the same member names in every record, message and enum)
//! get one fault at every place, and every pair of faults; the statements of the report are
//! judged by `truth`.
use crate::ast::*;
use crate::drv;
use crate::engine::{Case, Cx, Fail, Res};
use crate::eval::{self, Content, World};
use crate::judge::*;
use crate::mix::{self, msg, named};
use crate::truth::Facts;
use crate::world;
use serde_json::{Value, json};

fn truth(c: &mut Case, x: &Facts, d: &drv::Diag) -> Result<(), String> {
    let (mut unknown, mut known) = (vec![], 0);
    let r = x.judge(d, &mut unknown, &mut known);
    for u in unknown {
        if !(u.starts_with("parse IDL source") || u.starts_with("parse `") || u.starts_with("import ")) {
            c.count("statements of another form");
            if c.verbose() {
                println!("not judged: {u}");
            }
        }
    }
    if known == 0 && r.is_ok() {
        c.count("reports without a judged statement");
    }
    r
}

fn refused(c: &mut Case, f: &File, src: &str, single: bool) -> Res {
    let mut want = eval::evaluate(f);
    if let Err(r) = &mut want
        && !single
    {
        r.names.clear();
    }
    if want.as_ref().is_err_and(|r| r.class == "duplicate-message") {
        c.count("skipped: repeated message");
        return Ok(());
    }
    let facts = Facts::of(f);
    let got = drv::idl(src);
    let mut bad = None;
    if let Err(e) = &got.res {
        let d = drv::diag_plain(e);
        bad = truth(c, &facts, &d).err();
    }
    if let Some(e) = bad {
        return Err(Fail::new(e, data(src, &want, &got)));
    }
    judge_out(c, src, &want, got)?;
    if let Err(e) = &drv::schemata(src).res {
        let d = drv::diag_plain(e);
        truth(c, &facts, &d).map_err(|e| Fail::new(format!("idl2schemata: {e}"), json!({"input": src, "report": d.text()})))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// faults

type Apply = Box<dyn Fn(&mut File) -> Option<()>>;
struct Fault {
    label: String,
    /// faults of one slot exclude each other
    slot: String,
    apply: Apply,
}

/// Alike constructs: whatever is said of one of them is false of the others.
fn base() -> File {
    let rec = |n: &str, z: i64| {
        record(
            n,
            vec![
                field_d(prim("int"), "a", json!(z)),
                field_d(prim("string"), "b", json!("s")),
                field_d(arr(prim("long")), "c", json!([z])),
                Field { doc: None, ty: t(nul(rf("E1"))), vars: vec![var("d"), Var { default: Some(json!("A")), ..var("e") }] },
            ],
        )
    };
    let m = |n: &str, oneway: bool| Msg {
        name: n.into(),
        resp: if oneway { None } else { Some(prim("int")) },
        oneway,
        params: vec![param(prim("int"), "a"), param(prim("string"), "b"), param(arr(rf("R1")), "c")],
        throws: if oneway { vec![] } else { vec!["X1".into()] },
        ..Default::default()
    };
    let en = |n: &str, d: Option<&str>| {
        let mut e = enm(n, &["A", "B", "C"]);
        if let Body::Enum { default, .. } = &mut e.body {
            *default = d.map(|s| s.into());
        }
        e
    };
    protocol(
        Some("n"),
        vec![
            Item::Named(en("E1", Some("A"))),
            Item::Named(en("E2", None)),
            Item::Named(fixed("F1", 4)),
            Item::Named(fixed("F2", 5)),
            Item::Named(record("Q", vec![field(prim("int"), "a"), field(prim("string"), "b"), field_d(prim("int"), "c", json!(1))])),
            Item::Named(rec("R1", 1)),
            Item::Named(rec("R2", 2)),
            Item::Named(Named { body: Body::Record { error: true, fields: match rec("X1", 3).body { Body::Record { fields, .. } => fields, _ => vec![] } }, ..record("X1", vec![]) }),
            Item::Msg(m("m1", false)),
            Item::Msg(m("m2", true)),
            Item::Msg(m("m3", false)),
        ],
    )
}

fn fields<'a>(f: &'a mut File, r: &str) -> Option<&'a mut Vec<Field>> {
    match &mut named(f, r)?.body {
        Body::Record { fields, .. } => Some(fields),
        _ => None,
    }
}
fn at<'a>(f: &'a mut File, r: &str, v: &str) -> Option<&'a mut Field> {
    fields(f, r)?.iter_mut().find(|x| x.vars.iter().any(|y| y.name == v))
}

fn type_faults() -> Vec<(&'static str, T)> {
    let ann = |k: K, a: &str, v: Value| T { anns: vec![(a.into(), v)], k };
    vec![
        ("undefined", t(rf("Nope"))),
        ("undefined qualified", t(rf("n.x.R1"))),
        ("undefined near", t(rf("R11"))),
        ("undefined in union", t(un(vec![prim("null"), rf("Nope2")]))),
        ("union of ints", t(un(vec![prim("int"), prim("string"), prim("int")]))),
        ("union of int and date", t(un(vec![prim("string"), prim("int"), K::Logical("date")]))),
        ("union of references", t(un(vec![rf("E2"), rf("E1"), rf("n.E2")]))),
        ("union of arrays", t(arr(un(vec![map(prim("int")), arr(prim("int")), arr(prim("string"))])))),
        ("union in union", t(un(vec![prim("int"), un(vec![prim("null")])]))),
        ("nullable in union", t(un(vec![prim("int"), nul(prim("string"))]))),
        ("null?", t(nul(prim("null")))),
        ("annotated reference", ann(rf("E1"), "k", json!(1))),
        ("annotated reference in array", t(K::Array(Box::new(ann(rf("E2"), "k", json!(1)))))),
        ("decimal(0)", t(K::Decimal(0, None))),
        ("decimal(3,4)", t(K::Decimal(3, Some(4)))),
        ("decimal(0,0)", t(map(K::Decimal(0, Some(0))))),
        ("decimal(12,13)", t(arr(K::Decimal(12, Some(13))))),
        ("decimal too large", t(K::Decimal(4294967296, None))),
        ("scale too large", t(K::Decimal(5, Some(4294967296)))),
        ("@items", ann(prim("int"), "items", json!("int"))),
        ("@type on union", ann(un(vec![prim("null"), prim("int")]), "type", json!("int"))),
        ("@precision", ann(K::Decimal(4, Some(2)), "precision", json!(3))),
        ("@scale", ann(K::Decimal(4, Some(2)), "scale", json!(3))),
        ("@logicalType", ann(K::Logical("date"), "logicalType", json!("x"))),
        ("@logicalType in nullable", ann(nul(K::Logical("uuid")), "logicalType", json!("decimal"))),
    ]
}
/// (type, default that is no value of it)
fn bad_defaults() -> Vec<(K, Value)> {
    let (e, q) = (|| rf("E1"), || rf("Q"));
    vec![
        (prim("int"), json!("s")),
        (prim("int"), json!(2147483648i64)),
        (prim("long"), json!(1.5)),
        (prim("string"), json!(1)),
        (prim("null"), json!(0)),
        (K::Logical("date"), json!(-2147483649i64)),
        (K::Logical("timestamp_ms"), json!("now")),
        (K::Decimal(4, None), json!(4)),
        (arr(prim("long")), json!([1, 2, "x"])),
        (arr(arr(prim("int"))), json!([[], [1, 2, 3000000000i64]])),
        (map(prim("boolean")), json!({"k": true, "l": "true"})),
        (map(arr(e())), json!({"k": ["A"], "l": ["B", 1]})),
        (nul(prim("int")), json!("s")),
        (un(vec![prim("null"), arr(prim("int"))]), json!(["s"])),
        (e(), json!(["A"])),
        (e(), Value::Null),
        (rf("F2"), json!({})),
        (q(), json!({})),
        (q(), json!({"b": "s"})),
        (q(), json!({"a": 1, "c": 2})),
        (q(), json!({"a": 1, "b": 2})),
        (q(), json!({"a": 1, "b": "s", "c": "t"})),
        (q(), json!([])),
        (arr(q()), json!([{"a": 1, "b": "s"}, {"a": 1}])),
        (map(q()), json!({"z": {"a": 1, "b": "s"}, "y": {"a": null, "b": "s"}})),
        (nul(q()), json!({"a": 1})),
    ]
}

fn faults() -> Vec<Fault> {
    let mut v: Vec<Fault> = vec![];
    let mut add = |label: String, slot: String, apply: Apply| v.push(Fault { label, slot, apply });
    let recs = ["R1", "R2", "X1"];
    for r in recs {
        for fl in ["a", "b", "c", "d", "e"] {
            // a repeated field: renamed to each other one
            for to in ["a", "b", "e"] {
                if to != fl {
                    add(format!("{r}.{fl} named {to}"), format!("{r}.{fl}"), Box::new(move |f| {
                        at(f, r, fl)?.vars.iter_mut().find(|v| v.name == fl)?.name = to.into();
                        Some(())
                    }));
                }
            }
            for bad in ["a-b", "x.y"] {
                add(format!("{r}.{fl} named {bad}"), format!("{r}.{fl}"), Box::new(move |f| {
                    at(f, r, fl)?.vars.iter_mut().find(|v| v.name == fl)?.name = bad.into();
                    Some(())
                }));
            }
            for (k, x) in [("order", json!(1)), ("order", json!("up")), ("aliases", json!("q")), ("aliases", json!(["q", 1])), ("default", json!(1)), ("doc", json!("d"))] {
                add(format!("@{k}({x}) on {r}.{fl}"), format!("{r}.{fl}"), Box::new(move |f| {
                    at(f, r, fl)?.vars.iter_mut().find(|v| v.name == fl)?.anns.push((k.into(), x.clone()));
                    Some(())
                }));
            }
            if fl == "d" || fl == "e" {
                continue;
            }
            for (l, ty) in type_faults() {
                add(format!("{r}.{fl}: {l}"), format!("{r}.{fl}"), Box::new(move |f| {
                    let x = at(f, r, fl)?;
                    x.ty = ty.clone();
                    x.vars[0].default = None;
                    Some(())
                }));
            }
            for (k, d) in bad_defaults() {
                add(format!("{r}.{fl} = {d}"), format!("{r}.{fl}"), Box::new(move |f| {
                    let x = at(f, r, fl)?;
                    x.ty = t(k.clone());
                    x.vars[0].default = Some(d.clone());
                    Some(())
                }));
            }
        }
        // the second of two variables of a field
        for d in [json!(1), json!("Z"), json!([])] {
            add(format!("{r}.e = {d}"), format!("{r}.e"), Box::new(move |f| {
                at(f, r, "e")?.vars.get_mut(1)?.default = Some(d.clone());
                Some(())
            }));
        }
    }
    for m in ["m1", "m2", "m3"] {
        for p in 0..3usize {
            for to in ["a", "b", "c"] {
                add(format!("{m} parameter {p} named {to}"), format!("{m}.{p}"), Box::new(move |f| {
                    let x = &mut msg(f, m)?.params[p].var;
                    if x.name == to {
                        return None;
                    }
                    x.name = to.into();
                    Some(())
                }));
            }
            for (l, ty) in type_faults() {
                add(format!("{m} parameter {p}: {l}"), format!("{m}.{p}"), Box::new(move |f| {
                    msg(f, m)?.params[p].ty = ty.clone();
                    Some(())
                }));
            }
            for (k, d) in bad_defaults() {
                if eval_known(&k) {
                    add(format!("{m} parameter {p} = {d}"), format!("{m}.{p}"), Box::new(move |f| {
                        let x = &mut msg(f, m)?.params[p];
                        x.ty = t(k.clone());
                        x.var.default = Some(d.clone());
                        Some(())
                    }));
                }
            }
        }
        add(format!("{m} answers and is one-way"), m.into(), Box::new(move |f| {
            let x = msg(f, m)?;
            x.oneway = true;
            x.throws.clear();
            x.resp = Some(prim("string"));
            Some(())
        }));
        for th in ["Nope", "n.X2"] {
            add(format!("{m} throws {th}"), m.into(), Box::new(move |f| {
                let x = msg(f, m)?;
                if x.oneway {
                    return None;
                }
                x.throws.push(th.into());
                Some(())
            }));
        }
        for (l, ty) in type_faults() {
            if ty.anns.is_empty() {
                add(format!("{m}: {l}"), m.into(), Box::new(move |f| {
                    let x = msg(f, m)?;
                    if x.oneway {
                        return None;
                    }
                    x.resp = Some(ty.k.clone());
                    Some(())
                }));
            }
        }
        for k in ["request", "one-way"] {
            add(format!("@{k} on {m}"), format!("@{m}"), Box::new(move |f| {
                msg(f, m)?.anns.push((k.into(), json!(1)));
                Some(())
            }));
        }
    }
    for e in ["E1", "E2"] {
        for i in 0..3usize {
            for s in ["A", "B", "C", "a-b"] {
                add(format!("{e} symbol {i} {s}"), format!("{e}.{i}"), Box::new(move |f| match &mut named(f, e)?.body {
                    Body::Enum { syms, .. } if syms[i] != s => {
                        syms[i] = s.into();
                        Some(())
                    }
                    _ => None,
                }));
            }
        }
        for d in ["D", "a", "E1"] {
            add(format!("{e} = {d}"), format!("{e}="), Box::new(move |f| match &mut named(f, e)?.body {
                Body::Enum { default, .. } => {
                    *default = Some(d.into());
                    Some(())
                }
                _ => None,
            }));
        }
    }
    for x in ["F1", "F2"] {
        add(format!("{x} too large"), x.into(), Box::new(move |f| {
            named(f, x)?.body = Body::Fixed(4294967296);
            Some(())
        }));
    }
    for n in ["E1", "E2", "F1", "F2", "R1", "R2", "X1", "Q"] {
        for (k, x) in [("namespace", json!(1)), ("namespace", json!("x.1y")), ("namespace", json!("x..y")), ("aliases", json!([1])), ("fields", json!([])), ("name", json!("R9")), ("size", json!(1))] {
            add(format!("@{k}({x}) on {n}"), format!("@{n}"), Box::new(move |f| {
                named(f, n)?.anns.push((k.into(), x.clone()));
                Some(())
            }));
        }
        for to in ["R1", "n.R2", "E1", "int", "n.date", "n-a", "n.n-a", "F2"] {
            add(format!("{n} named {to}"), n.into(), Box::new(move |f| {
                if to.ends_with(n) {
                    return None;
                }
                named(f, n)?.name = to.into();
                Some(())
            }));
        }
        add(format!("{n} again"), n.into(), Box::new(move |f| {
            let x = named(f, n)?.clone();
            f.items.push(Item::Named(x));
            Some(())
        }));
        add(format!("no {n}"), n.into(), Box::new(move |f| {
            let l = f.items.len();
            f.items.retain(|i| !matches!(i, Item::Named(x) if x.name == n));
            (f.items.len() != l).then_some(())
        }));
    }
    for i in [0usize, 4, 11] {
        for (k, p) in [(ImpKind::Idl, "nope.avdl"), (ImpKind::Schema, "d/no.avsc"), (ImpKind::Protocol, "../no.avpr")] {
            add(format!("import {p} at {i}"), format!("import {i}"), Box::new(move |f| {
                let at = i.min(f.items.len());
                f.items.insert(at, Item::Import(k, p.into()));
                Some(())
            }));
        }
    }
    for (l, k, x) in [("namespace", "namespace", json!(1)), ("bad namespace", "namespace", json!("n.2")), ("types", "types", json!([]))] {
        add(format!("protocol {l}"), "P".into(), Box::new(move |f| match &mut f.mode {
            Mode::Protocol { anns, .. } => {
                anns.push((k.into(), x.clone()));
                Some(())
            }
            _ => None,
        }));
    }
    for n in ["int", "x.uuid"] {
        add(format!("protocol {n}"), "P".into(), Box::new(move |f| match &mut f.mode {
            Mode::Protocol { name, .. } => {
                *name = n.into();
                Some(())
            }
            _ => None,
        }));
    }
    v
}
/// Defaults of parameters are judged for types without references only.
fn eval_known(k: &K) -> bool {
    match k {
        K::Ref(_) => false,
        K::Array(t) | K::Map(t) => eval_known(&t.k),
        K::Union(ts) => ts.iter().all(|t| eval_known(&t.k)),
        K::Nullable(k) => eval_known(k),
        _ => true,
    }
}

/// The order the edits are made in: renames of types last, so that the others find their place.
fn apply(fs: &[&Fault]) -> Option<File> {
    let mut f = base();
    for x in fs.iter().filter(|x| x.slot.len() > 2) {
        (x.apply)(&mut f)?;
    }
    for x in fs.iter().filter(|x| x.slot.len() <= 2) {
        (x.apply)(&mut f)?;
    }
    if f.items.iter().any(|i| matches!(i, Item::Msg(m) if m.oneway && !m.throws.is_empty())) {
        return None;
    }
    Some(f)
}

fn faulty(c: &mut Case, fs: &[&Fault]) -> Res {
    let Some(f) = apply(fs) else {
        c.count("faults that exclude each other");
        return Ok(());
    };
    refused(c, &f, &render(&f), fs.len() == 1).map_err(|mut x| {
        if let Value::Object(m) = &mut x.data {
            m.insert("faults".into(), json!(fs.iter().map(|e| e.label.clone()).collect::<Vec<_>>()));
        }
        x
    })
}

/// A faulty program whose declarations are spread over files.
fn spread(c: &mut Case, fs: &[&Fault], from: usize, to: usize) -> Res {
    let Some(f) = apply(fs) else { return Ok(()) };
    if to > f.items.len() || f.items[from..to].iter().any(|i| matches!(i, Item::Import(..))) {
        return Ok(());
    }
    let Some((w, main)) = mix::split(&f, from, to, 0) else { return Ok(()) };
    on_world(c, &w, &main)
}

fn on_world(c: &mut Case, w: &World, main: &str) -> Res {
    let desc = world::describe(w);
    let root = c.scratch().join("w");
    world::materialize(w, &root);
    crate::engine::note_input(&desc);
    let facts = Facts::of_world(w, main);
    let got = world::idl_path(&root, main, &w.dirs);
    c.state(&desc);
    c.trace();
    if let Err(e) = &got.res {
        let d = drv::diag_plain(e);
        c.count("rejected");
        truth(c, &facts, &d).map_err(|e| Fail::new(e, json!({"input": desc, "report": d.text()})))?;
    }
    Ok(())
}

pub fn run(cx: &mut Cx) {
    let full = cx.thorough();
    let fs = faults();
    cx.note("faults", fs.len() as u64);
    // 1. every fault
    for x in &fs {
        cx.case(|c| faulty(c, &[x]));
    }
    // 2. every pair of them
    let step = if full { 1 } else { 5 };
    for (i, a) in fs.iter().enumerate() {
        for (j, b) in fs.iter().enumerate().skip(i + 1) {
            if a.slot == b.slot || (i * 3 + j) % step != 0 {
                continue;
            }
            if cx.done() {
                return;
            }
            cx.case(|c| faulty(c, &[a, b]));
        }
    }
    // 3. in an imported file
    for x in &fs {
        for (from, to) in [(0, 1), (0, 5), (4, 6), (5, 8), (7, 9), (8, 11)] {
            cx.case(|c| spread(c, &[x], from, to));
        }
    }
    // 4. defaults: types over types, values made of right and wrong parts
    defaults(cx);
    // 5. imports: what cannot be found, what is declared twice
    imports(cx);
    // 6. mixed with every other construct
    mix::pairs_with(cx, &["default", "dup", "undef", "name", "fname", "kind", "msg"], if full { 1 } else { 6 }, &|c, f, s, es, _| {
        let mut g = f.clone();
        mix::unquote(&mut g);
        let src = mix::write(f, s);
        c.state(&src);
        c.trace();
        let facts = Facts::of(&g);
        let got = drv::idl(&src);
        if let Err(e) = &got.res {
            c.count("rejected");
            let d = drv::diag_plain(e);
            truth(c, &facts, &d).map_err(|e| {
                Fail::new(e, json!({"input": src, "report": d.text(), "edits": es.iter().map(|e| e.label.clone()).collect::<Vec<_>>()}))
            })?;
        }
        Ok(())
    });
}

fn defaults(cx: &mut Cx) {
    let support = || {
        vec![
            Item::Named(enm("E", &["A", "B"])),
            Item::Named(fixed("F", 2)),
            Item::Named(record("Z", vec![])),
            Item::Named(record("Q", vec![field(prim("int"), "a"), field(prim("string"), "b"), field_d(prim("long"), "c", json!(1))])),
            Item::Named(record("N", vec![field(rf("Q"), "a"), field(arr(rf("Q")), "b"), field_d(map(rf("E")), "c", json!({}))])),
            Item::Named(record("L", vec![field(prim("int"), "a"), field(un(vec![prim("null"), rf("L")]), "b")])),
            Item::Named(error("X", vec![field(rf("E"), "a"), field(nul(rf("Q")), "b")])),
            // of the same simple name, elsewhere
            Item::Named(record("o.Q", vec![field(prim("string"), "a"), field(prim("int"), "z")])),
        ]
    };
    let mut leaves: Vec<K> = PRIMS.iter().map(|p| prim(p)).collect();
    leaves.extend(LOGICALS.iter().map(|l| K::Logical(l)));
    leaves.push(K::Decimal(4, Some(2)));
    leaves.extend(["E", "F", "Z", "Q", "N", "L", "X", "o.Q"].map(rf));
    let mut tys: Vec<T> = leaves.iter().cloned().map(t).collect();
    for k in &leaves {
        for w in [arr, map, nul as fn(K) -> K] {
            if *k != prim("null") || w as usize != nul as fn(K) -> K as usize {
                tys.push(t(w(k.clone())));
            }
        }
        tys.push(t(arr(map(k.clone()))));
        tys.push(t(map(arr(k.clone()))));
        tys.push(t(arr(arr(k.clone()))));
        if !matches!(k, K::Prim("boolean")) {
            tys.push(t(un(vec![prim("boolean"), k.clone()])));
        }
        if !matches!(k, K::Ref(_)) {
            tys.push(T { anns: vec![("x".into(), json!(1))], k: k.clone() });
        }
    }
    for l in ["date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "local-timestamp-micros", "uuid", "x"] {
        for p in ["int", "long", "string"] {
            tys.push(T { anns: vec![("logicalType".into(), json!(l))], k: prim(p) });
        }
    }
    let scalars = vec![
        Value::Null,
        json!(true),
        json!(0),
        json!(2147483647i64),
        json!(2147483648i64),
        json!(-2147483649i64),
        json!(i64::MAX),
        json!(1.5),
        json!("A"),
        json!("x: `y`"),
    ];
    let mut vals = scalars.clone();
    let few = [json!(1), json!("A"), Value::Null, json!(3000000000i64)];
    let objs: Vec<Value> = {
        let mut v = vec![json!({})];
        for k in ["a", "b", "c", "z"] {
            for x in &few {
                v.push(json!({ k: x }));
            }
        }
        for a in &few {
            for b in &few {
                v.push(json!({"a": a, "b": b}));
                v.push(json!({"c": a, "b": b}));
                v.push(json!({"a": a, "z": b}));
                for c in &few {
                    v.push(json!({"a": a, "b": b, "c": c}));
                }
            }
        }
        v
    };
    vals.extend(objs.iter().cloned());
    vals.push(json!([]));
    for x in few.iter().chain(objs.iter()) {
        vals.push(json!([x]));
    }
    for a in &few {
        for b in &few {
            vals.push(json!([a, b]));
            vals.push(json!([1, a, b]));
            vals.push(json!([[a], [b, 1]]));
            vals.push(json!({"k": [a, b], "l": []}));
            vals.push(json!([{"k": a}, {"l": b}]));
            vals.push(json!({"a": {"a": a, "b": b}, "b": []}));
            vals.push(json!({"a": {"a": 1, "b": "s"}, "b": [{"a": a, "b": b}], "c": {"k": "A", "l": a}}));
            vals.push(json!({"a": 1, "b": {"a": a, "b": b}}));
            vals.push(json!({"a": 1, "b": {"a": a, "b": {"a": b}}}));
            vals.push(json!({"k`: ": a, "": b}));
        }
    }
    vals.sort_by_key(|v| v.to_string());
    vals.dedup();
    cx.note("default_types", tys.len() as u64);
    cx.note("default_values", vals.len() as u64);
    let places = if cx.thorough() { 4 } else { 1 };
    for (i, ty) in tys.iter().enumerate() {
        for (j, v) in vals.iter().enumerate() {
            for place in 0..places {
                let place = if places == 1 { (i + j) % 4 } else { place };
                if cx.done() {
                    return;
                }
                cx.case(|c| {
                    let bad = Var { default: Some(v.clone()), ..var("fld") };
                    let plain = |n: &str, d: Value| Item::Named(record(n, vec![field_d(prim("boolean"), "fld", d)]));
                    let mut items = support();
                    let f = |vs: Vec<Var>| Field { doc: None, ty: ty.clone(), vars: vs };
                    match place {
                        0 => items.push(Item::Named(record("R", vec![field(prim("int"), "a"), f(vec![bad])]))),
                        1 => {
                            items.push(plain("S", json!(true)));
                            items.push(Item::Named(record("R", vec![f(vec![var("a"), bad])])));
                            items.push(plain("T", json!(false)));
                        }
                        2 => items.push(Item::Named(error("o.R", vec![f(vec![bad]), field_d(prim("string"), "fld2", json!("s"))]))),
                        _ => {
                            // wrong twice: both are of one kind
                            let two = Var { default: Some(v.clone()), ..var("fld2") };
                            items.push(Item::Named(record("R", vec![f(vec![bad]), f(vec![two])])));
                        }
                    }
                    let ns = if place == 2 { None } else { Some("n") };
                    // the parser refuses what refers to `o.Q` nowhere differently
                    let file = protocol(ns, items);
                    refused(c, &file, &render(&file), place != 3)
                });
            }
        }
    }
}

fn imports(cx: &mut Cx) {
    let rec = |n: &str, k: K| Item::Named(record(n, vec![field(k, "a")]));
    let json_file = |n: &str, ty: Value| {
        let d = json!({"type": "record", "name": n, "fields": [{"name": "a", "type": ty}]});
        let cty = match ty.as_str() {
            Some(s) if PRIMS.contains(&s) => json!({"type": s}),
            Some(s) => json!({"ref": s}),
            None => ty.clone(),
        };
        let def = json!({"type": "record", "name": n, "fields": [{"name": "a", "type": cty}]});
        Content::Json { text: d.to_string(), defs: vec![(n.into(), def)], messages: Default::default() }
    };
    let named_p = |n: &str, items: Vec<Item>| {
        let mut f = protocol(Some("n"), items);
        if let Mode::Protocol { name, .. } = &mut f.mode {
            *name = n.into();
        }
        Content::Idl(f)
    };
    // (files, what main holds)
    let mut ws: Vec<(World, &str)> = vec![];
    for depth in 0..3usize {
        for miss in ["nope.avdl", "d/nope.avsc", "i1.avsc", "../i1.avdl", "d"] {
            for kind in [ImpKind::Idl, ImpKind::Schema, ImpKind::Protocol] {
                for dirs in [vec![], vec!["/lib".to_string()], vec!["/lib".to_string(), "/d".into()]] {
                    let mut w = World { dirs, ..Default::default() };
                    let main_items = |bad: bool, next: Option<&str>| {
                        let mut v = vec![rec("A", prim("int"))];
                        if let Some(n) = next {
                            v.push(Item::Import(ImpKind::Idl, n.into()));
                        }
                        if bad {
                            v.push(Item::Import(kind, miss.into()));
                        }
                        v
                    };
                    for i in 0..=depth {
                        let name = if i == 0 { "/main.avdl".to_string() } else { format!("/d/i{i}.avdl") };
                        let next = (i < depth).then(|| if i == 0 { "d/i1.avdl".to_string() } else { format!("i{}.avdl", i + 1) });
                        let mut items = main_items(i == depth, next.as_deref());
                        if i > 0 {
                            items.remove(0);
                        }
                        w.files.insert(name, named_p(&format!("P{i}"), items));
                    }
                    ws.push((w, "/main.avdl"));
                }
            }
        }
    }
    // names declared in two files, names no file declares
    for at in 0..3usize {
        for n in ["A", "B", "C"] {
            for other in ["A", "n.B", "o.A", "C", "Nope", "n.Nope", "int"] {
                let ty = if other == "int" { prim("int") } else { rf(other) };
                let mut w = World::default();
                let mut main = vec![Item::Import(ImpKind::Idl, "i.avdl".into()), Item::Import(ImpKind::Schema, "s.avsc".into())];
                let mut inc = vec![];
                let mut js = json_file("n.S", json!("int"));
                for (i, x) in ["A", "B", "C"].iter().enumerate() {
                    let k = if i == at { ty.clone() } else { prim("int") };
                    if i == 2 {
                        main.push(rec(x, k));
                    } else {
                        inc.push(rec(x, k));
                    }
                }
                main.push(rec(n, prim("int")));
                if at == 1 {
                    js = json_file(&format!("n.{n}"), json!(if other == "int" { "int" } else { other }));
                }
                w.files.insert("/main.avdl".into(), named_p("P", main));
                w.files.insert("/i.avdl".into(), named_p("I", inc));
                w.files.insert("/s.avsc".into(), js);
                ws.push((w, "/main.avdl"));
            }
        }
    }
    cx.note("file_sets", ws.len() as u64);
    for (w, main) in &ws {
        cx.case(|c| on_world(c, w, main));
    }
}
