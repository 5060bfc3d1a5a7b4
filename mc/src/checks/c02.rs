//! C02: every name in the output denotes the type the IDL source names.
use crate::ast::*;
use crate::engine::Cx;
use crate::eval;
use crate::judge::*;
use serde_json::json;

fn ns_ann(n: Option<&str>) -> Anns {
    n.map(|n| ("namespace".to_string(), json!(n))).into_iter().collect()
}

/// Refer from namespace `from` (None = null namespace) to `full`: simple when possible.
pub fn spell(from: Option<&str>, full: &str) -> Option<String> {
    match full.rfind('.') {
        Some(_) => Some(full.to_string()),
        None => if from.is_none_or(|f| f.is_empty()) { Some(full.to_string()) } else { None },
    }
}
pub fn spell_short(from: Option<&str>, full: &str) -> Option<String> {
    match full.rfind('.') {
        Some(i) if from == Some(&full[..i]) => Some(full[i + 1..].to_string()),
        _ => spell(from, full),
    }
}

pub fn run(cx: &mut Cx) {
    let both = |c: &mut crate::engine::Case, f: &File| {
        judge(c, f)?;
        judge_schemata(c, &render(f), &eval::evaluate(f))
    };
    // 1. one type in every spelling, referred to by every spelling from every kind of place
    let pns = [None, Some("a"), Some("a.b"), Some("")];
    let decls: Vec<(&str, Option<&str>)> = {
        let mut v = vec![];
        for n in ["T", "a.T", "c.T", "a.b.T"] {
            for ns in [None, Some("a"), Some("c"), Some("a.b"), Some("")] {
                v.push((n, ns));
            }
        }
        v
    };
    let refs = ["T", "a.T", "c.T", "a.b.T", "b.T", "T.T"];
    for p in pns {
        for d in &decls {
            for kind in 0..3 {
                for r in refs {
                    for place in 0..6 {
                        for order in 0..2 {
                            for schema in [false, true] {
                            if schema && place >= 3 && place < 5 {
                                continue;
                            }
                            cx.case(|c| {
                                let mut ty = match kind {
                                    0 => record("T", vec![field(prim("int"), "a"), field(nul(rf("T")), "self")]),
                                    1 => enm("T", &["A"]),
                                    _ => fixed("T", 2),
                                };
                                ty.name = d.0.to_string();
                                ty.anns = ns_ann(d.1);
                                let mut items = vec![Item::Named(ty)];
                                let u: Item = match place {
                                    0 => Item::Named(record("U", vec![field(rf(r), "x"), field(arr(rf(r)), "y")])),
                                    1 => Item::Named(Named { anns: ns_ann(Some("c")), ..record("U", vec![field(rf(r), "x")]) }),
                                    2 => Item::Named(record("a.b.U", vec![field(un(vec![prim("null"), rf(r)]), "x")])),
                                    3 => Item::Msg(Msg { resp: Some(rf(r)), params: vec![param(rf(r), "p")], ..Default::default() }),
                                    4 => Item::Msg(Msg { throws: vec![r.into()], ..Default::default() }),
                                    _ => Item::Named(Named { anns: ns_ann(Some("")), ..record("U", vec![field(rf(r), "x")]) }),
                                };
                                if order == 0 { items.push(u) } else { items.insert(0, u) };
                                if schema {
                                    let main = if place == 0 { rf(r) } else { rf(["U", "c.U", "a.b.U", "", "", "U"][place]) };
                                    let ns = p.filter(|n| !n.is_empty());
                                    both(c, &schema_file(ns, Some(main), items))
                                } else {
                                    both(c, &protocol(p, items))
                                }
                            });
                            }
                        }
                    }
                }
            }
        }
    }
    // 2. three types in all namespace layouts, all reference graphs, all declaration orders
    let nss = [None, Some(""), Some("a"), Some("a.b")];
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let max_edges = cx.pick(3, 9);
    cx.note("graph_nodes", 3);
    cx.note("graph_max_edges", max_edges as u64);
    for p in [None, Some("a"), Some("c")] {
        for l in 0..64usize {
            for g in 0..512u32 {
                if g.count_ones() > max_edges {
                    continue;
                }
                for (pi, perm) in perms.iter().enumerate() {
                    if cx.tier == crate::engine::Tier::Quick && pi % 2 == 1 && g.count_ones() > 2 {
                        continue;
                    }
                    cx.case(|c| {
                        let ns: Vec<Option<&str>> = (0..3).map(|i| nss[l / 4usize.pow(i) % 4].or(p)).map(|n| n.filter(|s| !s.is_empty())).collect();
                        let full: Vec<String> = (0..3).map(|i| eval::join_name(ns[i], ["A", "B", "C"][i])).collect();
                        let mut items = vec![];
                        for &i in perm {
                            let mut fields = vec![];
                            for j in 0..3 {
                                if g >> (i * 3 + j) & 1 == 1 {
                                    // a null-namespace type has no spelling inside a namespace
                                    let sp = if (i + j) % 2 == 0 { spell_short(ns[i], &full[j]) } else { spell(ns[i], &full[j]) };
                                    if let Some(s) = sp {
                                        fields.push(field(if i == j { nul(rf(&s)) } else { rf(&s) }, ["x", "y", "z"][j]));
                                    }
                                }
                            }
                            let ann = nss[l / 4usize.pow(i as u32) % 4];
                            items.push(Item::Named(Named { anns: ns_ann(ann), ..record(["A", "B", "C"][i], fields) }));
                        }
                        both(c, &protocol(p, items))
                    });
                }
            }
        }
    }
    // 3. aliases in every spelling
    for p in pns {
        for d in &decls {
            for a in ["X", "a.X", "c.X", "a.b.X", "a.b.c.X", "b.X", "T", "a.T", "b.T", "xa.X", "ab.X"] {
                for kind in 0..4 {
                    cx.case(|c| {
                        let mut ty = match kind {
                            0 => record("T", vec![]),
                            1 => enm("T", &["A"]),
                            2 => fixed("T", 2),
                            _ => error("T", vec![]),
                        };
                        ty.name = d.0.to_string();
                        ty.anns = ns_ann(d.1);
                        ty.anns.push(("aliases".into(), json!([a, "Y"])));
                        // a user first, so that the aliased type is inlined inside another namespace
                        let full = {
                            let e = eval::evaluate(&protocol(p, vec![Item::Named(ty.clone())]));
                            e.map(|m| m.defs[0].0.clone()).unwrap_or("T".into())
                        };
                        let mut items = vec![Item::Named(ty)];
                        if let Some(s) = spell(Some("z"), &full) {
                            items.insert(0, Item::Named(record("z.U", vec![field(rf(&s), "x")])));
                        }
                        both(c, &protocol(p, items))
                    });
                }
            }
        }
    }
    // 4. names that equal type keywords of the JSON form, and dotted protocol names
    for n in ["record", "enum", "array", "map", "union", "fixed", "error", "protocol", "schema", "void", "idl", "throws", "import", "namespace", "oneway", "true", "false"] {
        for p in [None, Some("a"), Some("a.record")] {
            for inner in [None, Some("b"), Some("a"), Some("")] {
                for order in 0..2 {
                    cx.case(|c| {
                        let ty = Named { anns: ns_ann(inner), ..record(n, vec![field(nul(rf(n)), "self")]) };
                        let full = eval::join_name(inner.or(p), n);
                        let mut items = vec![Item::Named(ty)];
                        if let Some(s) = spell_short(p, &full) {
                            let u = Item::Named(record("U", vec![field(rf(&s), "x"), field(map(rf(&s)), "y"), field(un(vec![rf(&s), prim("int")]), "z")]));
                            if order == 0 { items.push(u) } else { items.insert(0, u) }
                            items.push(Item::Msg(Msg { resp: Some(rf(&s)), params: vec![param(rf(&s), "p")], throws: vec![s.clone()], ..Default::default() }));
                        }
                        both(c, &protocol(p, items))
                    });
                }
            }
        }
    }
    for name in ["P", "a.P", "a.b.P", "x.y.z.P"] {
        for p in [None, Some("a"), Some("q.r"), Some("")] {
            for r in ["T", "a.T", "a.b.T"] {
                cx.case(|c| {
                    let mut f = protocol(p, vec![Item::Named(record("T", vec![])), Item::Named(record("U", vec![field(rf(r), "x")])), Item::Msg(Msg { resp: Some(rf("U")), ..Default::default() })]);
                    if let Mode::Protocol { name: n, .. } = &mut f.mode {
                        *n = name.into();
                    }
                    both(c, &f)
                });
            }
        }
    }
    // 5. types of imported files that have another namespace, or none at all
    for kind in [ImpKind::Idl, ImpKind::Protocol, ImpKind::Schema] {
        for ins in [None, Some("a"), Some("b"), Some("a.b")] {
            for main_ns in [None, Some("a"), Some("b"), Some("a.b")] {
                for own in 0..4 {
                    for at in 0..2 {
                        for schema in [false, true] {
                            cx.case(|c| {
                                let full = |n: &str| eval::join_name(ins, n);
                                let content = if kind == ImpKind::Idl {
                                    eval::Content::Idl(protocol(ins, vec![
                                        Item::Named(record("R", vec![field(nul(rf("R")), "self"), field(arr(rf("E")), "e"), field(rf("x.F"), "f"), field(map(rf("E")), "e2")])),
                                        Item::Named(Named { anns: vec![("aliases".into(), json!(["G", "x.H"]))], ..enm("E", &["A"]) }),
                                        Item::Named(fixed("x.F", 3)),
                                    ]))
                                } else {
                                    let mut r = json!({"type":"record","name":"R","fields":[
                                        {"name":"self","type":["null","R"]},
                                        {"name":"e","type":{"type":"array","items":{"type":"enum","name":"E","symbols":["A"],"aliases":["G","x.H"]}}},
                                        {"name":"f","type":{"type":"fixed","name":"F","namespace":"x","size":3}},
                                        {"name":"e2","type":{"type":"map","values":"E"}}]});
                                    let text = if kind == ImpKind::Schema {
                                        if let Some(n) = ins { r["namespace"] = json!(n); }
                                        r
                                    } else {
                                        let mut p = json!({"protocol":"I","types":[r],"messages":{}});
                                        if let Some(n) = ins { p["namespace"] = json!(n); }
                                        p
                                    };
                                    let defs = vec![
                                        (full("E"), json!({"type":"enum","name":full("E"),"symbols":["A"],"aliases":[full("G"),"x.H"]})),
                                        ("x.F".to_string(), json!({"type":"fixed","name":"x.F","size":3})),
                                        (full("R"), json!({"type":"record","name":full("R"),"fields":[
                                            {"name":"self","type":[{"type":"null"},{"ref":full("R")}]},
                                            {"name":"e","type":{"type":"array","items":{"ref":full("E")}}},
                                            {"name":"f","type":{"ref":"x.F"}},
                                            {"name":"e2","type":{"type":"map","values":{"ref":full("E")}}}]})),
                                    ];
                                    eval::Content::Json { text: text.to_string(), defs, messages: Default::default() }
                                };
                                let file = ["i.avdl", "i.avpr", "i.avsc"][kind as usize];
                                let mut items = vec![Item::Import(kind, file.into())];
                                let mut own_types = vec![];
                                if own & 1 == 1 {
                                    if let Some(s) = spell_short(main_ns, &full("R")) {
                                        own_types.push(Item::Named(record("Own", vec![field(rf(&s), "x"), field(rf("x.F"), "y")])));
                                    }
                                }
                                if own & 2 == 2 {
                                    // a type of the same simple name in another namespace
                                    own_types.push(Item::Named(record("q.R", vec![field(nul(rf("R")), "self"), field(rf("x.F"), "y")])));
                                    own_types.push(Item::Named(enm("q.E", &["B"])));
                                }
                                if at == 0 { items.extend(own_types) } else { items.splice(0..0, own_types); }
                                let mut w = eval::World::default();
                                let f = if schema {
                                    let k = match spell_short(main_ns, &full("R")) {
                                        Some(s) => un(vec![rf(&s), rf("x.F")]),
                                        None => rf("x.F"),
                                    };
                                    schema_file(main_ns, Some(k), items)
                                } else {
                                    protocol(main_ns, items)
                                };
                                w.files.insert("/main.avdl".into(), eval::Content::Idl(f));
                                w.files.insert(format!("/{file}"), content);
                                judge_world(c, &w, "/main.avdl", true)
                            });
                        }
                    }
                }
            }
        }
    }
    // mixed with every other construct
    crate::mix::pairs(cx, &["ns", "name", "alias"], 3);
}
