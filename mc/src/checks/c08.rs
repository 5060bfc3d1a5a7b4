//! C08: annotations land on the element they annotate, and reserved ones are refused.
use crate::ast::*;
use crate::engine::{Case, Cx, Res};
use crate::eval;
use crate::judge::*;
use serde_json::{Value, json};

/// Field types and result types that carry annotations in the base program.
fn field_types() -> Vec<(&'static str, K)> {
    let mut v: Vec<(&'static str, K)> = vec![
        ("i", prim("int")),
        ("l", prim("long")),
        ("s", prim("string")),
        ("b", prim("bytes")),
        ("z", prim("null")),
        ("d", K::Logical("date")),
        ("c", K::Decimal(4, Some(2))),
        ("a", arr(prim("int"))),
        ("m", map(K::Logical("uuid"))),
        ("u", un(vec![prim("null"), prim("int"), rf("E")])),
        ("ni", nul(prim("int"))),
        ("nd", nul(K::Decimal(4, None))),
        ("ne", nul(rf("E"))),
        ("e", rf("E")),
        ("aa", arr(arr(rf("E")))),
    ];
    v.push(("un", un(vec![map(prim("long"))])));
    v
}
fn responses() -> Vec<Option<K>> {
    vec![
        None,
        Some(prim("int")),
        Some(rf("E")),
        Some(nul(rf("E"))),
        Some(nul(prim("string"))),
        Some(arr(rf("E"))),
        Some(un(vec![rf("E"), prim("null")])),
        Some(K::Logical("date")),
    ]
}

fn base() -> File {
    let mut fields: Vec<Field> = field_types().into_iter().map(|(n, k)| field(k, n)).collect();
    // a second declarator, and one with a default
    fields[0].vars.push(Var { default: Some(json!(1)), ..var("i2") });
    fields[10].vars[0].default = Some(json!(7));
    let mut items = vec![
        Item::Named(enm("E", &["A", "B"])),
        Item::Named(record("R", fields)),
        Item::Named(error("X", vec![field(prim("string"), "w")])),
        Item::Named(fixed("F", 12)),
    ];
    for (i, r) in responses().into_iter().enumerate() {
        let ps = if i == 0 { vec![param(prim("int"), "p"), param(rf("R"), "q"), param(nul(prim("int")), "r")] } else { vec![] };
        items.push(Item::Msg(Msg { name: format!("m{i}"), resp: r, params: ps, oneway: i == 0, ..Default::default() }));
    }
    File { items, ..protocol(None, vec![]) }
}

/// Annotation lists of the base program, in a fixed numbering.
fn places(f: &mut File) -> Vec<&mut Anns> {
    fn nested(t: &mut T, out: &mut Vec<*mut Anns>) {
        out.push(&mut t.anns);
        match &mut t.k {
            K::Array(x) | K::Map(x) => nested(x, out),
            K::Union(xs) => xs.iter_mut().for_each(|x| nested(x, out)),
            _ => {}
        }
    }
    let mut out: Vec<*mut Anns> = vec![];
    match &mut f.mode {
        Mode::Protocol { anns, .. } => out.push(anns),
        Mode::Schema { main: Some(t), .. } => nested(t, &mut out),
        _ => {}
    }
    for it in &mut f.items {
        match it {
            Item::Named(n) => {
                out.push(&mut n.anns);
                if let Body::Record { fields, .. } = &mut n.body {
                    for fl in fields {
                        nested(&mut fl.ty, &mut out);
                        for v in &mut fl.vars {
                            out.push(&mut v.anns);
                        }
                    }
                }
            }
            Item::Msg(m) => {
                out.push(&mut m.anns);
                for p in &mut m.params {
                    nested(&mut p.ty, &mut out);
                    out.push(&mut p.var.anns);
                }
            }
            _ => {}
        }
    }
    // distinct fields of one tree
    out.into_iter().map(|p| unsafe { &mut *p }).collect()
}

const NAMES: &[&str] = &[
    "namespace", "aliases", "order", "doc", "fields", "items", "name", "size", "symbols", "values", "type", "default",
    "protocol", "messages", "types", "errors", "response", "request", "one-way", "logicalType", "precision", "scale",
    "x", "X", "Doc", "a-b", "a.b", "java-class", "avro.java.string", "é", "_", "version", "error", "int", "true", "null",
    "import", "record", "enum", "void", "throws", "oneway", "decimal", "schema", "idl",
];

fn values() -> Vec<Value> {
    vec![
        json!("x"), json!(null), json!(true), json!(false), json!(0), json!(-1), json!(4), json!(1.5), json!(""), json!("a.b"), json!("1a"),
        json!([]), json!(["x"]), json!(["a.b", "y"]), json!(["1"]), json!(["x", 1]), json!([1]), json!([[]]), json!({}), json!({"a": 1}),
        json!({"type": "int"}), json!([{"a": [null, {"b": ""}]}]), json!("descending"), json!("IGNORE"), json!("Ascending"),
        json!("decimal"), json!("date"), json!("uuid"), json!("duration"), json!("timestamp-millis"), json!("\u{e9}\u{1f600}\"\\\n"),
        json!(i64::MIN), json!(2147483648u64),
    ]
}

/// All arrays and objects (with keys that may repeat) of up to `n` of a few elements, and the same
/// with an element that is again one of these.
fn composed(n: usize) -> Vec<(String, Value)> {
    let atoms: Vec<(String, Value)> =
        ["null", "0", "1", "-2.5", "\"\"", "\"s\"", "true", "false", "[]", "{}"].iter().map(|t| (t.to_string(), serde_json::from_str(t).unwrap())).collect();
    fn over(atoms: &[(String, Value)], n: usize) -> Vec<(String, Value)> {
        let mut out = vec![];
        for len in 0..=n {
            for x in 0..atoms.len().pow(len as u32) {
                let (mut y, mut el) = (x, vec![]);
                for _ in 0..len {
                    el.push(&atoms[y % atoms.len()]);
                    y /= atoms.len();
                }
                out.push((format!("[{}]", el.iter().map(|e| e.0.as_str()).collect::<Vec<_>>().join(", ")), Value::Array(el.iter().map(|e| e.1.clone()).collect())));
                for keys in 0..1usize << len {
                    let mut m = serde_json::Map::new();
                    let mut t = vec![];
                    for (i, e) in el.iter().enumerate() {
                        let k = ["k", "l"][keys >> i & 1];
                        t.push(format!("\"{k}\": {}", e.0));
                        m.insert(k.into(), e.1.clone());
                    }
                    out.push((format!("{{{}}}", t.join(", ")), Value::Object(m)));
                }
            }
        }
        out
    }
    let flat = over(&atoms, n);
    let mut few: Vec<(String, Value)> = over(&atoms[..2], 2);
    few.push(atoms[5].clone());
    let deep = over(&few, 2);
    flat.into_iter().chain(deep).collect()
}

fn judge8(c: &mut Case, f: &File, many: bool) -> Res {
    let src = render(f);
    let mut want = eval::evaluate(f);
    if let (Err(r), true) = (&mut want, many) {
        r.names.clear(); // of several faults, any may be reported
    }
    judge_src(c, &src, &want)?;
    judge_schemata(c, &src, &want)
}

pub fn run(cx: &mut Cx) {
    let n = places(&mut base()).len();
    let names: Vec<&str> = NAMES.iter().copied().collect();
    let vals = values();
    cx.note("positions", n);
    cx.note("annotation_names", names.len());
    cx.note("values", vals.len());
    // 1. every name with every value at every position
    for p in 0..n {
        for a in &names {
            for v in &vals {
                cx.case(|c| {
                    let mut f = base();
                    places(&mut f)[p].push((a.to_string(), v.clone()));
                    judge8(c, &f, false)
                });
            }
        }
    }
    // 2. two annotations on one element: order of writing, repetition, interplay
    let few = ["x", "y", "doc", "namespace", "aliases", "order", "logicalType", "precision", "scale", "type", "default", "errors"];
    let pair_names: Vec<&str> = if cx.thorough() { names.clone() } else { few.to_vec() };
    let pv = cx.pick(
        vec![(json!("x"), json!(["y"])), (json!("decimal"), json!(4)), (json!(2), json!("descending"))],
        vec![
            (json!("x"), json!("y")),
            (json!("x"), json!(["y"])),
            (json!(["y"]), json!(["z"])),
            (json!("decimal"), json!(4)),
            (json!("uuid"), json!("date")),
            (json!(2), json!("descending")),
        ],
    );
    for p in 0..n {
        for a in &pair_names {
            for b in &pair_names {
                for (va, vb) in &pv {
                    cx.case(|c| {
                        let mut f = base();
                        places(&mut f)[p].extend([(a.to_string(), va.clone()), (b.to_string(), vb.clone())]);
                        judge8(c, &f, true)
                    });
                }
            }
        }
    }
    // 3. one annotation on each of two elements
    let two = [("x", "x"), ("x", "y"), ("aliases", "aliases"), ("order", "x"), ("namespace", "x"), ("logicalType", "logicalType")];
    for p in 0..n {
        for q in 0..n {
            if p == q {
                continue;
            }
            for (a, b) in two {
                let v = |n: &str, i: usize| match n {
                    "aliases" => json!([format!("q{i}")]),
                    "order" => json!(["ignore", "descending"][i]),
                    "namespace" => json!("n.s"),
                    "logicalType" => json!(["duration", "decimal"][i]),
                    _ => json!({"v": i}),
                };
                if !cx.thorough() && b == "x" && a != "x" {
                    continue;
                }
                cx.case(|c| {
                    let mut f = base();
                    let mut pl = places(&mut f);
                    pl[p].push((a.to_string(), v(a, 0)));
                    pl[q].push((b.to_string(), v(b, 1)));
                    judge8(c, &f, true)
                });
            }
        }
    }
    // 4. triples on one element: the last one wins, the others stay
    if cx.thorough() {
        let tn = ["x", "y", "aliases", "order", "namespace", "logicalType", "precision", "scale"];
        for p in 0..n {
            for a in tn {
                for b in tn {
                    for d in tn {
                        cx.case(|c| {
                            let mut f = base();
                            let v = |n: &str, i: i64| match n {
                                "aliases" => json!([format!("q{i}")]),
                                "order" => json!(["ignore", "descending", "ascending"][i as usize]),
                                "namespace" => json!(format!("n{i}")),
                                "logicalType" => json!(["uuid", "decimal", "decimal"][i as usize]),
                                "x" | "y" => json!(i),
                                _ => json!(i + 1),
                            };
                            places(&mut f)[p].extend([(a.to_string(), v(a, 0)), (b.to_string(), v(b, 1)), (d.to_string(), v(d, 2))]);
                            judge8(c, &f, true)
                        });
                    }
                }
            }
        }
    }
    // 5. schema files: the main type and everything below it
    let vals: Vec<Value> = if cx.thorough() { vals } else { vals.into_iter().step_by(3).collect() };
    let mains = || -> Vec<K> {
        field_types().into_iter().map(|x| x.1).chain([rf("R"), map(un(vec![prim("null"), arr(nul(prim("int")))]))]).collect()
    };
    for i in 0..mains().len() {
        let mk = |m: K| schema_file(Some("s"), Some(m), vec![Item::Named(enm("E", &["A"])), Item::Named(record("R", vec![field(rf("E"), "e")]))]);
        let k = places(&mut mk(mains().remove(i))).len();
        for p in 0..k {
            for a in &names {
                for v in &vals {
                    cx.case(|c| {
                        let mut f = mk(mains().remove(i));
                        places(&mut f)[p].push((a.to_string(), v.clone()));
                        judge8(c, &f, false)
                    });
                }
            }
        }
    }
    // 6. every JSON value up to a size, on one element of each kind
    let vs = composed(cx.pick(2, 3));
    cx.note("composed_values", vs.len());
    let k = places(&mut base()).len();
    let some: Vec<usize> = if cx.thorough() { (0..k).collect() } else { vec![0, 1, 3, 6, 25, k - 1] };
    for (raw, v) in &vs {
        for &p in &some {
            cx.case(|c| {
                let mut f = base();
                places(&mut f)[p].push(("x".into(), json!("RAW")));
                let src = render(&f).replace("\"RAW\"", raw);
                places(&mut f)[p].last_mut().unwrap().1 = v.clone();
                let want = eval::evaluate(&f);
                judge_src(c, &src, &want)?;
                judge_schemata(c, &src, &want)
            });
        }
    }
    // mixed with every other construct
    crate::mix::pairs(cx, &["ann"], 13);
}
