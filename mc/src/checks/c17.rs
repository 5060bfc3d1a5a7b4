//! C17: logical types.
use crate::ast::*;
use crate::engine::{Case, Cx, Fail, Res};
use crate::eval;
use crate::judge::*;
use crate::{drv, fail};
use serde_json::{Value, json};

/// A type at every kind of position.
fn positions(ty: T) -> Vec<(&'static str, File)> {
    let fld = |ty: T| Item::Named(record("R", vec![Field { doc: None, ty, vars: vec![var("f")] }]));
    let w = |k: fn(Box<T>) -> K| t(k(Box::new(ty.clone())));
    let other = if matches!(ty.k, K::Prim("boolean")) { prim("double") } else { prim("boolean") };
    let un2 = T { anns: vec![], k: K::Union(vec![t(other.clone()), ty.clone()]) };
    let extra = vec![Item::Named(fixed("Fx", 12)), Item::Named(enm("E", &["A"]))];
    let p = |it: Item| {
        let mut items = extra.clone();
        items.push(it);
        protocol(Some("n"), items)
    };
    let mut out = vec![
        ("field", p(fld(ty.clone()))),
        ("array", p(fld(w(K::Array)))),
        ("map", p(fld(w(K::Map)))),
        ("nested", p(fld(t(K::Map(Box::new(w(K::Array))))))),
        ("parameter", p(Item::Msg(Msg { name: "m".into(), params: vec![Param { doc: None, ty: ty.clone(), var: var("p") }], ..Default::default() }))),
    ];
    // a response type carries no annotations of its own
    if ty.anns.is_empty() {
        out.push(("response", p(Item::Msg(Msg { name: "m".into(), resp: Some(ty.k.clone()), ..Default::default() }))));
    }
    if !matches!(ty.k, K::Nullable(_) | K::Union(_)) {
        out.push(("branch", p(fld(un2))));
    }
    let mut sf = schema_file(Some("n"), Some(prim("int")), extra.clone());
    if let Mode::Schema { main, .. } = &mut sf.mode {
        *main = Some(ty.clone());
    }
    out.push(("schema", sf));
    out
}

/// Both entry points.
fn both(c: &mut Case, f: &File) -> Res {
    judge(c, f)?;
    judge_schemata(c, &render(f), &eval::evaluate(f))
}

fn spellings(n: u64) -> Vec<String> {
    let mut v = vec![n.to_string(), format!("0x{n:x}"), format!("0X{n:X}")];
    v.push(format!("0{n:o}"));
    v
}

pub fn run(cx: &mut Cx) {
    let keywords: Vec<K> = LOGICALS.iter().map(|l| K::Logical(l)).chain([K::Decimal(1, None), K::Decimal(4, Some(2)), K::Decimal(4, Some(0)), K::Decimal(9, Some(9))]).collect();
    let bases: Vec<K> = PRIMS.iter().map(|p| prim(p)).chain(keywords.iter().cloned()).chain([arr(prim("int")), map(prim("long")), rf("E"), rf("Fx"), un(vec![prim("null"), prim("int")])]).collect();
    let names: Vec<Value> = ["date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "timestamp-nanos", "local-timestamp-millis", "local-timestamp-micros", "local-timestamp-nanos", "uuid", "decimal", "duration", "big-decimal", "Date", "DECIMAL", "time_ms", "", "date ", "é"]
        .iter()
        .map(|s| json!(s))
        .chain([json!(5), json!(null), json!(["date"]), json!({"date": 1})])
        .collect();
    let precs: Vec<Option<Value>> = vec![
        None,
        Some(json!(1)),
        Some(json!(0)),
        Some(json!(-1)),
        Some(json!(4)),
        Some(json!(2147483647i64)),
        Some(json!("4")),
        Some(json!(4.5)),
        Some(json!(4.0)),
        Some(json!(null)),
    ];
    let scales: Vec<Option<Value>> = vec![None, Some(json!(0)), Some(json!(2)), Some(json!(5)), Some(json!(-2)), Some(json!("2")), Some(json!(1.5)), Some(json!(null)), Some(json!(0.0)), Some(json!(2.0))];
    // 1. keywords and bases at every position, plain and nullable, with every annotation
    for b in &bases {
        for n in std::iter::once(None).chain(names.iter().map(Some)) {
            for (ip, p) in precs.iter().enumerate() {
                for (is, s) in scales.iter().enumerate() {
                    // parameters matter for decimals; elsewhere a few suffice
                    let dec = matches!(b, K::Decimal(..)) || n == Some(&json!("decimal"));
                    if !dec && (ip > 1 || is > 2) {
                        continue;
                    }
                    if n.is_none() && dec && ip > 4 && is > 4 {
                        continue;
                    }
                    let mut anns: Anns = vec![];
                    if let Some(n) = n {
                        anns.push(("logicalType".into(), n.clone()));
                    }
                    if let Some(p) = p {
                        anns.push(("precision".into(), p.clone()));
                    }
                    if let Some(s) = s {
                        anns.push(("scale".into(), s.clone()));
                    }
                    let dense = cx.thorough();
                    for nullable in [false, true] {
                        if nullable && matches!(b, K::Union(_) | K::Array(_) | K::Map(_) | K::Prim("null")) {
                            continue;
                        }
                        let k = if nullable { nul(b.clone()) } else { b.clone() };
                        let mut ty = t(k);
                        ty.anns = anns.clone();
                        for (i, (_, f)) in positions(ty.clone()).iter().enumerate() {
                            if !dense && i > 0 && dec && (ip + is + i) % 4 != 0 {
                                continue;
                            }
                            cx.case(|c| both(c, f));
                        }
                        if anns.len() > 1 && dense {
                            let mut r = ty.clone();
                            r.anns.reverse();
                            cx.case(|c| both(c, &positions(r).remove(0).1));
                        }
                    }
                }
            }
        }
    }
    // 2. fixed types with annotations
    for size in [0u64, 1, 2, 4, 8, 11, 12, 13, 16, 17, 64, 4294967295] {
        for n in &names {
            for p in &precs {
                for s in &scales {
                    if n != &json!("decimal") && (p.is_some() || s.is_some()) && !cx.thorough() {
                        continue;
                    }
                    let mut d = fixed("F", size);
                    d.anns.push(("logicalType".into(), n.clone()));
                    if let Some(p) = p {
                        d.anns.push(("precision".into(), p.clone()));
                    }
                    if let Some(s) = s {
                        d.anns.push(("scale".into(), s.clone()));
                    }
                    let f = protocol(None, vec![Item::Named(d), Item::Named(record("R", vec![field(nul(rf("F")), "f"), field(arr(rf("F")), "g")]))]);
                    cx.case(|c| both(c, &f));
                }
            }
        }
    }
    // other named types carry the attributes unchanged
    for n in &names {
        for k in 0..3 {
            let mut d = match k {
                0 => record("N", vec![]),
                1 => enm("N", &["A"]),
                _ => error("N", vec![]),
            };
            d.anns.push(("logicalType".into(), n.clone()));
            d.anns.push(("precision".into(), json!(3)));
            let f = protocol(None, vec![Item::Named(d)]);
            cx.case(|c| both(c, &f));
            // on a variable they belong to the field
            let mut fl = field([prim("int"), prim("bytes"), K::Logical("date")][k].clone(), "v");
            fl.vars[0].anns.push(("logicalType".into(), n.clone()));
            fl.vars[0].anns.push(("scale".into(), json!(3)));
            let f = protocol(None, vec![Item::Named(record("R", vec![fl]))]);
            cx.case(|c| both(c, &f));
        }
    }
    // 3. decimal(precision, scale) for all small values, and around the boundaries, in every spelling
    let top = cx.pick(24i64, 80);
    for p in 0..=top {
        for s in std::iter::once(None).chain((0..=top + 1).map(Some)) {
            let f = protocol(None, vec![Item::Named(record("R", vec![field(K::Decimal(p, s), "d")]))]);
            cx.case(|c| both(c, &f));
        }
    }
    let edge: Vec<u64> = vec![0, 1, 7, 8, 9, 10, 15, 16, 31, 38, 63, 64, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 9, 1 << 63, u64::MAX];
    for &p in &edge {
        for s in std::iter::once(None).chain(edge.iter().copied().map(Some)) {
            for (i, ps) in spellings(p).iter().enumerate() {
                for (j, ss) in s.map(spellings).unwrap_or(vec![String::new()]).iter().enumerate() {
                    if !cx.thorough() && i != j && i * j != 0 {
                        continue;
                    }
                    for form in 0..3 {
                        cx.case(|c| {
                            let d = if s.is_some() { format!("decimal({ps}, {ss})") } else { format!("decimal({ps})") };
                            let src = match form {
                                0 => format!("protocol P {{ record R {{ {d} f; }} }}"),
                                1 => format!("protocol P {{ void m({d}? f); }}"),
                                _ => format!("schema array<union {{ null, {d} }}>;"),
                            };
                            c.state(&src);
                            c.trace();
                            let ok = p >= 1 && p < 1 << 32 && s.is_none_or(|s| s <= p);
                            let got = drv::idl(&src);
                            let data = |m: &str| json!({"input": src, "detail": m});
                            match got.res {
                                Err(e) => {
                                    c.count("rejected");
                                    if ok {
                                        fail!(data(&drv::diag_plain(&e).text()), "a valid decimal is rejected");
                                    }
                                }
                                Ok(v) => {
                                    c.count("accepted");
                                    c.outcome(&v.to_string());
                                    if !ok {
                                        fail!(data(&v.to_string()), "an invalid decimal is accepted");
                                    }
                                    let x = match form {
                                        0 => &v["types"][0]["fields"][0]["type"],
                                        1 => &v["messages"]["m"]["request"][0]["type"][1],
                                        _ => &v["items"][1],
                                    };
                                    let mut want = json!({"type": "bytes", "logicalType": "decimal", "precision": p, "scale": s.unwrap_or(0)});
                                    let mut x = x.as_object().cloned().ok_or_else(|| Fail::new("no type", data(&v.to_string())))?;
                                    eval::norm_attrs("bytes", &mut x);
                                    eval::norm_attrs("bytes", want.as_object_mut().unwrap());
                                    if Value::Object(x.clone()) != want {
                                        fail!(data(&Value::Object(x).to_string()), "the decimal is emitted as another type");
                                    }
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // negative parameters
    for (p, s) in [("-1", None), ("-4", Some("2")), ("4", Some("-1")), ("-2147483648", None), ("4", Some("-9223372036854775808"))] {
        cx.case(|c| {
            let src = format!("protocol P {{ record R {{ decimal({p}{}) f; }} }}", s.map(|s| format!(", {s}")).unwrap_or_default());
            c.state(&src);
            c.trace();
            if drv::idl(&src).res.is_ok() {
                fail!(json!({"input": src}), "a decimal with a negative parameter is accepted");
            }
            Ok(())
        });
    }
    cx.note("bases", bases.len());
    cx.note("logicalType values", names.len());
    // mixed with every other construct
    crate::mix::pairs(cx, &["logical"], 3);
}
