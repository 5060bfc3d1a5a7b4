//! C06: a default value is accepted exactly when it is valid for the field's type.
use crate::ast::*;
use crate::drv;
use crate::engine::{Case, Cx, Res};
use crate::eval::{self, Content, World};
use crate::judge::*;
use serde_json::{Map, Value, json};

fn support() -> Vec<Item> {
    vec![
        Item::Named(enm("E", &["A", "B"])),
        Item::Named(fixed("F", 2)),
        Item::Named(record("Z", vec![])),
        Item::Named(record("Q", vec![field(prim("int"), "a"), field_d(prim("string"), "b", json!("x"))])),
        Item::Named(record("N", vec![field(rf("Q"), "a"), field_d(arr(prim("long")), "b", json!([]))])),
        Item::Named(record("L", vec![field(prim("int"), "a"), field_d(un(vec![prim("null"), rf("L")]), "b", Value::Null)])),
        // recursion without an end: only values with `b` at every level, which no finite value has
        Item::Named(record("O", vec![field(nul(rf("O")), "b")])),
        Item::Named(error("X", vec![field(rf("E"), "a")])),
    ]
}

fn leaves() -> Vec<K> {
    let mut v: Vec<K> = PRIMS.iter().map(|p| prim(p)).collect();
    v.extend(LOGICALS.iter().map(|l| K::Logical(l)));
    v.push(K::Decimal(4, Some(2)));
    v.extend(["E", "F", "Z", "Q", "N", "L", "O", "X"].map(rf));
    v
}

fn scalars() -> Vec<Value> {
    let mut v = vec![Value::Null, json!(true), json!(false)];
    for i in [0i64, 1, -1, 127, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, i64::MAX, i64::MIN] {
        v.push(json!(i));
    }
    v.extend([json!(1.5), json!(-0.25), json!(1e300), json!(2147483648.5)]);
    v.extend(["", "A", "B", "C", "x", "0", "null", "true", "NaN", "Infinity", "-Infinity", "nan", "\u{ff}\u{100}"].map(|s| json!(s)));
    v
}

/// Arrays of up to two and objects of up to two members over `base`.
fn composites(base: &[Value], keys: &[&str]) -> Vec<Value> {
    let mut out = vec![json!([]), json!({})];
    for a in base {
        out.push(json!([a]));
        for b in base {
            out.push(json!([a, b]));
        }
    }
    for (i, k) in keys.iter().enumerate() {
        for a in base {
            let mut m = Map::new();
            m.insert(k.to_string(), a.clone());
            out.push(Value::Object(m.clone()));
            for k2 in &keys[i + 1..] {
                for b in base {
                    let mut m = m.clone();
                    m.insert(k2.to_string(), b.clone());
                    out.push(Value::Object(m));
                }
            }
        }
    }
    out
}

/// The verdict and the meaning agree with the model, and a refusal names the field and points
/// into the file.
fn judge_default(c: &mut Case, f: &File) -> Res {
    let src = render(f);
    let want = eval::evaluate(f);
    let got = drv::idl(&src);
    judge_out_diag(c, &src, &want, got, &|d| {
        if d.file.as_deref() != Some("in.avdl") || d.labels.is_empty() || d.labels.iter().any(|l| l.text.is_none()) {
            return Err("the rejected default is not reported against the file".into());
        }
        Ok(())
    })?;
    judge_schemata(c, &src, &want)
}

pub fn run(cx: &mut Cx) {
    let base = scalars();
    let few = [Value::Null, json!(1), json!(1.5), json!("A"), json!(i64::MAX), json!(true)];
    let comp1 = composites(&few, &["a", "b", "z"]);
    let mut vals = base.clone();
    vals.extend(comp1.iter().cloned());
    // two levels down
    let nested: Vec<Value> = composites(
        &[json!([]), json!({}), json!([1]), json!(["A"]), json!({"a": 1}), json!({"a": "A"}), json!({"a": 1, "b": null}), json!({"a": 1, "b": {"a": 2}}), json!({"b": null}), json!({"a": {"a": 1}}), Value::Null, json!(1)],
        &["a", "b"],
    );
    vals.extend(nested);
    vals.sort_by_key(|v| v.to_string());
    vals.dedup();
    let lv = leaves();
    let mut tys: Vec<K> = lv.clone();
    for k in &lv {
        tys.push(arr(k.clone()));
        tys.push(map(k.clone()));
        if !matches!(k, K::Prim("null")) {
            tys.push(nul(k.clone()));
        }
        tys.push(un(vec![k.clone()]));
        tys.push(arr(arr(k.clone())));
        tys.push(map(arr(k.clone())));
        tys.push(arr(map(k.clone())));
        if !matches!(k, K::Prim("null")) {
            tys.push(arr(nul(k.clone())));
            tys.push(map(un(vec![prim("null"), k.clone()])));
        }
    }
    cx.note("values", vals.len() as u64);
    cx.note("types", tys.len() as u64);
    let with = |mk: &dyn Fn(&mut Vec<Item>)| {
        let mut items = support();
        mk(&mut items);
        protocol(None, items)
    };
    // 1. every type x every value, as a field default
    for k in &tys {
        for v in &vals {
            cx.case(|c| judge_default(c, &with(&|i| i.push(Item::Named(record("R", vec![field_d(k.clone(), "fld", v.clone())]))))));
        }
    }
    // 2. unions of every ordered pair of leaves x scalars and small composites
    let mut uvals = base.clone();
    uvals.extend([json!([]), json!([1]), json!(["A"]), json!({}), json!({"a": 1}), json!({"a": "A"}), json!({"a": {"a": 1}}), json!({"a": 1, "b": null}), json!({"b": {"b": null}})]);
    let mut branches = lv.clone();
    branches.extend([arr(prim("int")), map(prim("int")), arr(rf("Q")), map(rf("E"))]);
    for a in &branches {
        for b in &branches {
            let k = un(vec![a.clone(), b.clone()]);
            // pairs the union rules refuse anyway
            let f = protocol(None, { let mut i = support(); i.push(Item::Named(record("R", vec![field(k.clone(), "fld")]))); i });
            if eval::evaluate(&f).is_err() {
                continue;
            }
            let vs: Vec<&Value> = if cx.thorough() { uvals.iter().collect() } else { uvals.iter().step_by(3).collect() };
            for v in vs {
                cx.case(|c| judge_default(c, &with(&|i| i.push(Item::Named(record("R", vec![field_d(k.clone(), "fld", v.clone())]))))));
            }
        }
    }
    // 3. message parameters (the property covers built-in, container and union types)
    let ptys: Vec<&K> = tys.iter().collect();
    for k in ptys {
        for v in vals.iter().step_by(if cx.thorough() { 1 } else { 5 }) {
            cx.case(|c| {
                judge_default(
                    c,
                    &with(&|i| {
                        i.push(Item::Msg(Msg {
                            params: vec![param(prim("int"), "other"), Param { doc: None, ty: t(k.clone()), var: Var { default: Some(v.clone()), ..var("prm") } }],
                            ..Default::default()
                        }))
                    }),
                )
            });
        }
    }
    // 4. position of the field: any variable of any field, any kind of record, any namespace
    let dv = [Value::Null, json!(1), json!("A"), json!([1]), json!({"a": 1}), json!({"a": {"a": 1}}), json!(2147483648i64)];
    for k in [prim("int"), rf("E"), rf("Q"), rf("N"), arr(rf("Q")), map(rf("E")), nul(rf("Q")), un(vec![prim("null"), arr(rf("E"))])] {
        for v in &dv {
            for pos in 0..8 {
                for ns in [None, Some("a.b")] {
                    cx.case(|c| {
                        let good = Var { default: None, ..var("w") };
                        let bad = Var { default: Some(v.clone()), ..var("fld") };
                        let f = |vs: Vec<Var>| Field { doc: None, ty: t(k.clone()), vars: vs };
                        let n = match pos {
                            0 => record("R", vec![f(vec![good, bad])]),
                            1 => record("R", vec![f(vec![bad, good])]),
                            2 => record("R", vec![field(prim("int"), "o"), f(vec![bad])]),
                            3 => record("R", vec![f(vec![bad]), field(rf("R"), "o")]),
                            4 => error("R", vec![f(vec![good, bad])]),
                            5 => Named { anns: vec![("namespace".into(), json!("a.b"))], ..record("R", vec![f(vec![bad])]) },
                            6 => record("a.b.R", vec![f(vec![bad])]),
                            _ => record("R", vec![field_d(prim("int"), "o", json!(1)), f(vec![good]), f(vec![bad])]),
                        };
                        let mut items = support();
                        items.push(Item::Named(n));
                        judge_default(c, &protocol(ns, items.clone()))?;
                        judge_default(c, &schema_file(ns, Some(prim("int")), items))
                    });
                }
            }
        }
    }
    // 5. types imported from another file, before the field
    for kind in 0..3 {
        for ns in [None, Some("p")] {
            for (ty, vs) in [
                ("Q", vec![json!({"a": 1}), json!({"a": "1"}), json!({}), json!({"a": 1, "b": 2}), json!({"a": 1, "b": "s"}), json!([])]),
                ("E", vec![json!("A"), json!(1), Value::Null]),
                ("F", vec![json!("\u{1}\u{2}"), json!(0)]),
            ] {
                for v in vs {
                    for wrap in 0..4 {
                        cx.case(|c| {
                            let full = |n: &str| eval::join_name(ns, n);
                            let (file, content) = match kind {
                                0 => {
                                    let mut f = protocol(ns, vec![
                                        Item::Named(enm("E", &["A", "B"])),
                                        Item::Named(fixed("F", 2)),
                                        Item::Named(record("Q", vec![field(prim("int"), "a"), field_d(prim("string"), "b", json!("x"))])),
                                    ]);
                                    if let Mode::Protocol { name, .. } = &mut f.mode {
                                        *name = "I".into();
                                    }
                                    ("i.avdl", Content::Idl(f))
                                }
                                k => {
                                    let q = json!({"type":"record","name":full("Q"),"fields":[{"name":"a","type":"int"},{"name":"b","type":"string","default":"x"}]});
                                    let e = json!({"type":"enum","name":full("E"),"symbols":["A","B"]});
                                    let x = json!({"type":"fixed","name":full("F"),"size":2});
                                    let text = if k == 1 { json!({"protocol":"I","types":[e, x, q],"messages":{}}) } else { json!([e, x, q]) };
                                    let qd = json!({"type":"record","name":full("Q"),"fields":[{"name":"a","type":{"type":"int"}},{"name":"b","type":{"type":"string"},"default":"x"}]});
                                    (
                                        ["", "i.avpr", "i.avsc"][k],
                                        Content::Json { text: text.to_string(), defs: vec![(full("E"), e), (full("F"), x), (full("Q"), qd)], messages: Default::default() },
                                    )
                                }
                            };
                            let (k, d) = match wrap {
                                0 => (rf(ty), v.clone()),
                                1 => (arr(rf(ty)), json!([v])),
                                2 => (map(rf(ty)), json!({"k": v})),
                                _ => (un(vec![prim("double"), rf(ty)]), v.clone()),
                            };
                            let items = vec![Item::Import([ImpKind::Idl, ImpKind::Protocol, ImpKind::Schema][kind], file.into()), Item::Named(record("R", vec![field_d(k, "fld", d)]))];
                            let mut w = World::default();
                            w.files.insert("/main.avdl".into(), Content::Idl(protocol(ns, items)));
                            w.files.insert(format!("/{file}"), content);
                            judge_world(c, &w, "/main.avdl", true)
                        });
                    }
                }
            }
        }
    }
    // 6. several bad defaults in one file: the first is named, an earlier good one changes nothing
    let ks = [(prim("int"), json!(1), json!("s")), (rf("E"), json!("A"), json!(1)), (rf("Q"), json!({"a": 1}), json!({"b": "s"})), (arr(prim("long")), json!([1]), json!([1.5]))];
    for a in 0..ks.len() {
        for b in 0..ks.len() {
            for bad in 0..4 {
                cx.case(|c| {
                    let d = |i: usize, bit: usize| if bad >> bit & 1 == 1 { ks[i].2.clone() } else { ks[i].1.clone() };
                    let mut items = support();
                    items.push(Item::Named(record("R", vec![field_d(ks[a].0.clone(), "first", d(a, 0)), field_d(ks[b].0.clone(), "second", d(b, 1))])));
                    // defaults of built-in types are judged while the record is read, those of
                    // references when it is complete: either may be named if both are bad
                    let f = protocol(None, items);
                    if bad == 3 {
                        let src = render(&f);
                        let got = drv::idl(&src);
                        c.state(&src);
                        c.trace();
                        return match got.res {
                            Err(e) if { let t = drv::diag_plain(&e).text(); t.contains("`first`") || t.contains("`second`") } => Ok(()),
                            _ => Err(crate::engine::Fail::new("two bad defaults: neither is named", json!({"input": src}))),
                        };
                    }
                    judge_default(c, &f)
                });
            }
        }
    }
    // mixed with every other construct
    crate::mix::pairs(cx, &["default"], 4);
}
