//! C04: compilation succeeds only if every reference resolves and names are unique.
use crate::ast::*;
use crate::engine::Cx;
use crate::eval::{self, Content, World};
use crate::judge::*;

pub fn run(cx: &mut Cx) {
    let both = |c: &mut crate::engine::Case, f: &File| {
        judge(c, f)?;
        judge_schemata(c, &render(f), &eval::evaluate(f))
    };
    let spellings = ["T", "U", "t", "TT", "a.T", "b.T", "b.V", "V", "a.U", "a.b.T", "Self", "a.Self", "record", "I", "c.I", "J", "a.a.T", "P", "a.P"];
    let wraps: Vec<fn(K) -> K> = vec![
        |k| k,
        arr,
        map,
        nul,
        |k| un(vec![prim("null"), k]),
        |k| un(vec![k, prim("int")]),
        |k| arr(map(k)),
        |k| map(un(vec![prim("string"), arr(k)])),
        |k| arr(nul(k)),
        |k| arr(arr(arr(k))),
    ];
    // every placement of one reference of every spelling
    let place = |w: &fn(K) -> K, r: &str, pl: usize| -> Item {
        let k = w(rf(r));
        match pl {
            0 => Item::Named(record("Self", vec![field(k, "x")])),
            1 => Item::Named(error("Self", vec![field(prim("int"), "w"), field(k, "x")])),
            2 => Item::Msg(Msg { resp: Some(k), ..Default::default() }),
            3 => Item::Msg(Msg { params: vec![param(prim("int"), "w"), param(k, "x")], ..Default::default() }),
            4 => Item::Msg(Msg { throws: vec!["T".into(), r.into()], ..Default::default() }),
            5 => Item::Named(Named { anns: vec![("namespace".into(), "b".into())], ..record("Self", vec![field(k, "x")]) }),
            _ => Item::Named(record(
                "Self",
                vec![Field { doc: None, ty: t(k), vars: vec![var("x"), var("y")] }, field(prim("int"), "z")],
            )),
        }
    };
    for ns in [None, Some("a")] {
        for r in spellings {
            for w in &wraps {
                for pl in 0..7 {
                    for at in 0..3 {
                        cx.case(|c| {
                            // T before, U after the user
                            let mut items = vec![
                                Item::Named(record("T", vec![])),
                                Item::Named(enm("b.V", &["S"])),
                                Item::Named(fixed("U", 1)),
                            ];
                            items.insert(at, place(w, r, pl));
                            both(c, &protocol(ns, items))
                        });
                    }
                }
                for n in 0..2 {
                    cx.case(|c| {
                        let items = vec![Item::Named(record("T", vec![])), Item::Named(enm("b.V", &["S"]))];
                        let mut f = schema_file(ns, Some(w(rf(r))), items);
                        if n == 1 {
                            f.items.push(Item::Named(record("Self", vec![field(w(rf(r)), "x")])));
                            if let Mode::Schema { main, .. } = &mut f.mode {
                                *main = Some(t(prim("int")));
                            }
                        }
                        both(c, &f)
                    });
                }
                // a file of named types only is decided by idl2schemata
                cx.case(|c| {
                    let f = schema_file(ns, None, vec![Item::Named(record("T", vec![])), Item::Named(record("Self", vec![field(w(rf(r)), "x")]))]);
                    both(c, &f)
                });
            }
        }
    }
    // two references, resolvable or not, in two declarations: every undefined name is reported
    let names = ["T", "N1", "N2", "a.N1", "b.N3"];
    for x in names {
        for y in names {
            for z in names {
                for k in 0..8 {
                    cx.case(|c| {
                        let mut items = vec![
                            Item::Named(record("T", vec![])),
                            Item::Named(record("R", vec![field(rf(x), "x"), field(arr(rf(y)), "y")])),
                        ];
                        match k % 4 {
                            0 => items.push(Item::Msg(Msg { resp: Some(rf(z)), ..Default::default() })),
                            1 => items.insert(0, Item::Named(error("S", vec![field(nul(rf(z)), "z")]))),
                            2 => items.push(Item::Msg(Msg { throws: vec![z.into()], ..Default::default() })),
                            _ => items.insert(0, Item::Msg(Msg { params: vec![param(map(rf(z)), "z")], ..Default::default() })),
                        }
                        both(c, &protocol(if k < 4 { None } else { Some("a") }, items))
                    });
                }
            }
        }
    }
    // duplicates in every scope
    let kinds = |n: &str, k: usize| match k {
        0 => record(n, vec![]),
        1 => error(n, vec![]),
        2 => enm(n, &["A"]),
        _ => fixed(n, 1),
    };
    let tn = ["T", "a.T", "b.T", "t", "a.b.T"];
    for ns in [None, Some("a"), Some("b")] {
        for x in tn {
            for y in tn {
                for k1 in 0..4 {
                    for k2 in 0..4 {
                        for ann in [None, Some("a"), Some("b")] {
                            for mid in [false, true] {
                                cx.case(|c| {
                                    let mut d2 = kinds(y, k2);
                                    if let Some(a) = ann {
                                        d2.anns = vec![("namespace".into(), a.into())];
                                    }
                                    let mut items = vec![Item::Named(kinds(x, k1)), Item::Named(d2)];
                                    if mid {
                                        items.insert(1, Item::Named(record("Mid", vec![])));
                                    }
                                    both(c, &protocol(ns, items.clone()))?;
                                    both(c, &schema_file(ns, Some(prim("int")), items))
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    let vn = ["a", "b", "A"];
    for x in 0..81usize {
        for shape in 0..6 {
            cx.case(|c| {
                let v: Vec<&str> = (0..4).map(|i| vn[x / 3usize.pow(i) % 3]).collect();
                let mk = |names: &[&str]| Field { doc: None, ty: t(prim("int")), vars: names.iter().map(|n| var(n)).collect() };
                let fields = match shape {
                    0 => vec![mk(&v[..2])],
                    1 => vec![mk(&v[..1]), mk(&v[1..2])],
                    2 => vec![mk(&v[..2]), mk(&v[2..4])],
                    3 => vec![mk(&v[..1]), mk(&v[1..4])],
                    4 => v.iter().map(|n| mk(&[n])).collect(),
                    _ => vec![mk(&v)],
                };
                let params = v[..2 + shape % 3].iter().map(|n| param(prim("int"), n)).collect();
                both(c, &protocol(None, vec![Item::Named(record("R", fields))]))?;
                both(c, &protocol(None, vec![Item::Msg(Msg { params, ..Default::default() })]))?;
                both(c, &protocol(None, vec![Item::Named(enm("E", &v[..2 + shape % 3]))]))
            });
        }
    }
    // the same name in different scopes is no duplicate
    for x in 0..64usize {
        cx.case(|c| {
            let n = |i: u32| ["T", "x"][x >> i & 1];
            let items = vec![
                Item::Named(record(n(0), vec![field(prim("int"), n(1))])),
                Item::Named(enm("E", &[n(2), "Z"])),
                Item::Named(record("R", vec![field(prim("int"), n(3))])),
                Item::Msg(Msg { name: n(4).into(), params: vec![param(prim("int"), n(5))], ..Default::default() }),
                Item::Msg(Msg { name: "other".into(), params: vec![param(prim("int"), n(5))], ..Default::default() }),
            ];
            both(c, &protocol(None, items))
        });
    }
    // names across imports (idl), before and after the use
    for ns in [None, Some("a"), Some("c")] {
        for ins in [Some("a"), Some("c")] {
            for r in ["I", "a.I", "c.I", "J", "T", "a.T", "c.T"] {
                for (wi, w) in wraps.iter().enumerate() {
                    for imp in 0..3 {
                        for dup in [false, true] {
                            if wi > 4 && cx.tier == crate::engine::Tier::Quick {
                                continue;
                            }
                            cx.case(|c| {
                                let mut items = vec![
                                    Item::Named(record("T", vec![])),
                                    Item::Named(record("R", vec![field(w(rf(r)), "x")])),
                                    Item::Msg(Msg { resp: Some(w(rf(r))), ..Default::default() }),
                                ];
                                items.insert(imp, Item::Import(ImpKind::Idl, "i.avdl".into()));
                                let mut inner = vec![Item::Named(record("I", vec![field(arr(rf(if dup { "I" } else { r })), "q")]))];
                                if dup {
                                    inner.push(Item::Named(enm("T", &["A"])));
                                }
                                let mut w2 = World::default();
                                w2.files.insert("/main.avdl".into(), Content::Idl(protocol(ns, items)));
                                let mut f = protocol(ins, inner);
                                if let Mode::Protocol { name, .. } = &mut f.mode {
                                    *name = "Q".into();
                                }
                                w2.files.insert("/i.avdl".into(), Content::Idl(f));
                                judge_world(c, &w2, "/main.avdl", true)
                            });
                        }
                    }
                }
            }
        }
    }
    // mixed with every other construct
    crate::mix::pairs(cx, &["undef", "dup", "fname"], 2);
}
