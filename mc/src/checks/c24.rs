//! C24: schema files.
use crate::ast::*;
use crate::engine::{Case, Cx, Res};
use crate::eval::{self, Content, World};
use crate::fail;
use crate::{drv, judge};
use serde_json::json;

/// Types a schema file declares (`D`) or may import, by the names they get.
fn decls(set: usize) -> Vec<Named> {
    let ns = |mut n: Named, s: &str| {
        n.anns.push(("namespace".into(), json!(s)));
        n
    };
    match set {
        0 => vec![],
        // a chain and a cycle
        1 => vec![
            record("A", vec![field(rf("B"), "b"), field(arr(rf("C")), "c")]),
            record("B", vec![field(nul(rf("A")), "a"), field(rf("C"), "c")]),
            enm("C", &["X", "Y"]),
        ],
        // the same simple name in several namespaces
        2 => vec![
            ns(record("A", vec![field(rf("n.A"), "x"), field(rf("B"), "y")]), "o"),
            record("A", vec![field(prim("int"), "i"), field(map(rf("C")), "c")]),
            ns(fixed("B", 3), "o"),
            fixed("B", 5),
            enm("C", &["Z"]),
        ],
        // dotted names; types nobody uses
        3 => vec![
            Named { name: "o.p.C".into(), ..enm("C", &["Q"]) },
            record("A", vec![field(rf("o.p.C"), "c"), field(un(vec![prim("null"), rf("B"), arr(rf("B"))]), "u")]),
            error("B", vec![field_d(rf("o.p.C"), "e", json!("Q")), field(rf("o.p.R"), "r")]),
            Named { name: "o.p.R".into(), ..record("R", vec![field(nul(rf("R")), "next"), field(rf("C"), "c")]) },
            record("Unused", vec![field(rf("A"), "a")]),
            fixed("C", 1),
        ],
        // an invalid type nobody uses
        4 => vec![record("A", vec![]), fixed("B", 1), enm("C", &["X"]), record("Unused", vec![field_d(prim("int"), "i", json!("x"))])],
        5 => vec![record("A", vec![]), fixed("B", 1), enm("C", &["X"]), record("Unused", vec![field(rf("Nowhere"), "i")])],
        // everything imported
        _ => vec![],
    }
}
const SETS: usize = 7;

fn leaves() -> Vec<K> {
    let mut v: Vec<K> = ["A", "B", "C", "n.A", "o.A", "o.p.C", "i.I", "J", "null"].iter().map(|n| if *n == "null" { prim("null") } else { rf(n) }).collect();
    v.extend([prim("int"), K::Logical("date"), K::Decimal(4, Some(2))]);
    v
}
fn grow(v: &[K]) -> Vec<K> {
    let mut out = vec![];
    for k in v {
        out.push(arr(k.clone()));
        out.push(map(k.clone()));
        if !matches!(k, K::Nullable(_) | K::Union(_) | K::Array(_) | K::Map(_)) {
            out.push(nul(k.clone()));
        }
        if !matches!(k, K::Nullable(_)) {
            out.push(un(vec![prim("null"), k.clone()]));
            out.push(un(vec![k.clone(), map(prim("int"))]));
        }
    }
    out
}
fn pairs(v: &[K]) -> Vec<K> {
    let mut out = vec![];
    for a in v {
        for b in v {
            out.push(un(vec![a.clone(), b.clone()]));
            out.push(map(un(vec![a.clone(), arr(b.clone())])));
        }
    }
    out
}

/// What the files importable from the main file hold.
fn world() -> World {
    let mut w = World::default();
    let mut p = protocol(Some("i"), vec![Item::Import(ImpKind::Idl, "sub/j.avdl".into()), Item::Named(record("I", vec![field(rf("J"), "j"), field(rf("K"), "k")])), Item::Named(enm("K", &["A"])), Item::Msg(Msg { resp: Some(rf("I")), ..Default::default() })]);
    if let Mode::Protocol { name, .. } = &mut p.mode {
        *name = "Prot".into();
    }
    w.files.insert("/p.avdl".into(), Content::Idl(p));
    w.files.insert("/sub/j.avdl".into(), Content::Idl(schema_file(None, Some(arr(rf("J"))), vec![Item::Named(fixed("J", 2))])));
    let a = json!({"type": "record", "name": "A", "namespace": "n", "fields": [{"name": "f", "type": {"type": "fixed", "name": "B", "size": 4}}, {"name": "g", "type": "B"}]});
    w.files.insert(
        "/a.avsc".into(),
        Content::Json {
            text: a.to_string(),
            defs: vec![
                ("n.A".into(), json!({"type": "record", "name": "n.A", "fields": [{"name": "f", "type": {"ref": "n.B"}}, {"name": "g", "type": {"ref": "n.B"}}]})),
                ("n.B".into(), json!({"type": "fixed", "name": "n.B", "size": 4})),
            ],
            messages: Default::default(),
        },
    );
    let c = json!({"protocol": "Q", "namespace": "n", "types": [{"type": "enum", "name": "C", "symbols": ["U"]}], "messages": {"mq": {"request": [{"name": "p", "type": "C"}], "response": "null"}}});
    w.files.insert(
        "/c.avpr".into(),
        Content::Json {
            text: c.to_string(),
            defs: vec![("n.C".into(), json!({"type": "enum", "name": "n.C", "symbols": ["U"]}))],
            messages: [("mq".to_string(), json!({"request": [{"name": "p", "type": {"ref": "n.C"}}], "response": {"type": "null"}}))].into(),
        },
    );
    w
}
fn imports() -> Vec<Item> {
    vec![
        Item::Import(ImpKind::Idl, "p.avdl".into()),
        Item::Import(ImpKind::Schema, "a.avsc".into()),
        Item::Import(ImpKind::Protocol, "c.avpr".into()),
    ]
}

fn case(c: &mut Case, ns: Option<&str>, main: Option<T>, items: Vec<Item>) -> Res {
    let f = File { mode: Mode::Schema { ns: ns.map(|s| s.to_string()), main }, items };
    let src = render(&f);
    if !f.items.iter().any(|i| matches!(i, Item::Import(..))) {
        let want = eval::evaluate(&f);
        judge::judge_src(c, &src, &want)?;
        return judge::judge_schemata(c, &src, &want);
    }
    let mut w = world();
    w.files.insert("/main.avdl".into(), Content::Idl(f));
    judge::judge_world(c, &w, "/main.avdl", true)
}

/// Pieces a schema file has no room for.
fn refused(c: &mut Case, src: &str) -> Res {
    c.state(src);
    c.trace();
    c.count("not a schema file");
    let o = drv::idl(src);
    let s = drv::schemata(src);
    c.outcome(&o.err_text());
    if o.res.is_ok() || s.res.is_ok() {
        fail!(json!({"input": src, "idl": format!("{:?}", o.res.ok()), "idl2schemata": format!("{:?}", s.res.ok())}), "a schema file with a part that belongs in a protocol is compiled");
    }
    Ok(())
}

pub fn run(cx: &mut Cx) {
    let base = leaves();
    let d1 = grow(&base);
    let d2 = grow(&d1);
    let mut mains: Vec<K> = base.iter().chain(&d1).cloned().collect();
    mains.extend(pairs(&base));
    if cx.thorough() {
        mains.extend(d2.iter().cloned());
        mains.extend(grow(&d2));
        mains.extend(pairs(&d1));
    } else {
        mains.extend(d2.iter().cloned());
    }
    let nss = [None, Some("n"), Some("o"), Some("o.p")];
    for set in 0..SETS {
        let ds = decls(set);
        for ns in nss {
            for (mi, m) in mains.iter().enumerate() {
                // every order of few declarations, every rotation of more
                let orders: Vec<Vec<usize>> = if set == 6 {
                    vec![vec![0, 1, 2], vec![2, 1, 0], vec![1, 0], vec![0]]
                } else if ds.len() <= 3 && mi < base.len() + d1.len() {
                    perms(ds.len())
                } else {
                    (0..ds.len().max(1)).step_by(cx.pick(2, 1)).map(|r| (0..ds.len()).map(|i| (i + r) % ds.len()).collect()).collect()
                };
                for o in orders {
                    if cx.done() {
                        return;
                    }
                    if set == 6 && !cx.thorough() && mi % 2 != 0 && mi > base.len() {
                        continue;
                    }
                    let items: Vec<Item> = if set == 6 {
                        let imp = imports();
                        o.iter().map(|i| imp[*i].clone()).collect()
                    } else {
                        o.iter().map(|i| Item::Named(ds[*i].clone())).collect()
                    };
                    cx.case(|c| case(c, ns, Some(t(m.clone())), items));
                }
            }
            // no main schema
            let items: Vec<Item> = ds.iter().map(|d| Item::Named(d.clone())).collect();
            cx.case(|c| case(c, ns, None, items));
        }
    }
    // declared types around imports
    for ns in nss {
        for m in base.iter().chain(&d1) {
            for at in 0..=3 {
                for d in [1, 2, 3] {
                    if cx.done() {
                        return;
                    }
                    if !cx.thorough() && (at + d) % 2 == 1 && !base.contains(m) {
                        continue;
                    }
                    let mut items: Vec<Item> = vec![imports()[0].clone()];
                    let own: Vec<Item> = decls(d).into_iter().map(Item::Named).collect();
                    let k = at.min(own.len());
                    let (x, y) = own.split_at(k);
                    items = x.iter().cloned().chain(items).chain(y.iter().cloned()).collect();
                    cx.case(|c| case(c, ns, Some(t(m.clone())), items));
                }
            }
        }
    }
    // annotations on the main schema
    let anns: [(&str, serde_json::Value); 6] =
        [("x", json!({"a": [1, null]})), ("logicalType", json!("date")), ("doc", json!("d")), ("type", json!("t")), ("namespace", json!("q")), ("order", json!("ignore"))];
    for ns in nss {
        for m in base.iter().chain(&d1) {
            for (i, a) in anns.iter().enumerate() {
                for b in anns.iter().skip(i) {
                    let mut ty = t(m.clone());
                    ty.anns.push((a.0.into(), a.1.clone()));
                    if a.0 != b.0 {
                        ty.anns.push((b.0.into(), b.1.clone()));
                    }
                    let items: Vec<Item> = decls(3).into_iter().map(Item::Named).collect();
                    cx.case(|c| case(c, ns, Some(ty), items));
                }
            }
        }
    }
    // parts of protocols
    let parts = ["void m();", "int m(A a);", "protocol P { }", "protocol P { record Q { } }", "@x(1) protocol P { }", "A m() throws B;", "void m() oneway;", "}", "{", "{ record Q { } }", "schema int;", "namespace q;", "@namespace(\"q\") schema int;", "@x(1)", "import \"x\";"];
    let good = ["namespace n;", "schema A?;", "record A { B b; }", "error B { int i; }", "enum C { X }"];
    for mask in 1u32..1 << good.len() {
        let v: Vec<&str> = good.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
        for p in parts {
            for at in 0..=v.len() {
                let ahead = &v[..at];
                // where it would be in its place
                let fits = match p {
                    "schema int;" => ahead.iter().all(|x| x.starts_with("namespace")) && !v.contains(&good[1]),
                    "namespace q;" => at == 0 && !v.contains(&good[0]),
                    "protocol P { }" | "protocol P { record Q { } }" | "@x(1) protocol P { }" => false,
                    "@x(1)" => v.get(at).is_some_and(|x| !x.starts_with("namespace") && !x.starts_with("schema")),
                    _ => false,
                };
                if fits {
                    continue;
                }
                let mut w = v.clone();
                w.insert(at, p);
                let src = w.join(" ");
                cx.case(|c| refused(c, &src));
            }
        }
    }
    cx.note("main schemas", mains.len());
    cx.note("sets of declarations", SETS);
    // mixed with every other construct
    crate::mix::pairs(cx, &["head"], 1);
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    perms(n - 1)
        .into_iter()
        .flat_map(|p| {
            (0..n).map(move |i| {
                let mut q = p.clone();
                q.insert(i, n - 1);
                q
            })
        })
        .collect()
}
