//! C01: compiled JSON states exactly what the IDL declares.
use crate::ast::*;
use crate::engine::Cx;
use crate::eval;
use crate::judge::*;
use serde_json::json;

/// All type expressions of nesting depth <= `d` over the given leaves.
pub fn types(leaves: &[K], d: usize, unions: bool) -> Vec<K> {
    let mut cur: Vec<K> = leaves.to_vec();
    for _ in 0..d {
        let mut next = leaves.to_vec();
        for k in &cur {
            next.push(arr(k.clone()));
            next.push(map(k.clone()));
            if !matches!(k, K::Union(_) | K::Nullable(_) | K::Prim("null") | K::Array(_) | K::Map(_)) {
                next.push(nul(k.clone()));
            }
        }
        if unions {
            // unions of every ordered pair of distinct non-union branches
            let br: Vec<K> = cur.iter().filter(|k| !matches!(k, K::Union(_) | K::Nullable(_))).cloned().collect();
            for a in &br {
                next.push(un(vec![a.clone()]));
                for b in &br {
                    next.push(un(vec![a.clone(), b.clone()]));
                }
            }
        }
        cur = next;
    }
    cur
}

fn leaves() -> Vec<K> {
    let mut v: Vec<K> = PRIMS.iter().map(|p| prim(p)).collect();
    v.extend(LOGICALS.iter().map(|l| K::Logical(l)));
    v.push(K::Decimal(4, Some(2)));
    v.push(K::Decimal(4, None));
    v.push(rf("A"));
    v.push(rf("E"));
    v.push(rf("F"));
    v.push(rf("X"));
    v
}
fn support() -> Vec<Item> {
    vec![
        Item::Named(record("A", vec![field(prim("int"), "a")])),
        Item::Named(enm("E", &["S", "T"])),
        Item::Named(fixed("F", 3)),
        Item::Named(error("X", vec![])),
    ]
}

pub fn run(cx: &mut Cx) {
    let both = |c: &mut crate::engine::Case, f: &File| {
        judge(c, f)?;
        judge_schemata(c, &render(f), &eval::evaluate(f))
    };
    // 1. every type expression in every position
    let depth = cx.pick(2, 2);
    let ts1 = types(&leaves(), 1, true);
    let small = [prim("int"), prim("string"), rf("A"), rf("E")];
    let ts2 = types(&small, depth, true);
    cx.note("type_expressions", (ts1.len() + ts2.len()) as u64);
    for k in ts1.iter().chain(ts2.iter()) {
        for pos in 0..5 {
            cx.case(|c| {
                let mut items = support();
                match pos {
                    0 => items.push(Item::Named(record("R", vec![field(k.clone(), "x")]))),
                    1 => items.push(Item::Named(error("R", vec![field(prim("int"), "w"), field(k.clone(), "x"), field(k.clone(), "y")]))),
                    2 => items.push(Item::Msg(Msg { resp: Some(k.clone()), ..Default::default() })),
                    3 => items.push(Item::Msg(Msg { params: vec![param(prim("int"), "w"), param(k.clone(), "x")], ..Default::default() })),
                    _ => {
                        // forward: used before the supporting types
                        items.insert(0, Item::Named(record("R", vec![field(k.clone(), "x")])));
                    }
                }
                both(c, &protocol(None, items))
            });
        }
        cx.case(|c| both(c, &schema_file(None, Some(k.clone()), support())));
    }
    // 2. all declaration sequences
    let decls: Vec<Item> = vec![
        Item::Named(record("N", vec![])),
        Item::Named(record("N", vec![field(prim("int"), "a")])),
        Item::Named(record("N", vec![field(prim("string"), "b"), field(prim("int"), "a")])),
        Item::Named(record(
            "N",
            vec![Field { doc: None, ty: t(prim("long")), vars: vec![var("c"), var("a"), var("b")] }, field(prim("int"), "d")],
        )),
        Item::Named(error("N", vec![])),
        Item::Named(error("N", vec![field(prim("string"), "m"), field(prim("bytes"), "b")])),
        Item::Named(enm("N", &[])),
        Item::Named(enm("N", &["B"])),
        Item::Named(enm("N", &["B", "A", "C"])),
        Item::Named(Named { body: Body::Enum { syms: vec!["B".into(), "A".into(), "C".into()], default: Some("A".into()) }, ..enm("N", &[]) }),
        Item::Named(Named { body: Body::Enum { syms: vec!["B".into(), "A".into()], default: Some("B".into()) }, ..enm("N", &[]) }),
        Item::Named(fixed("N", 0)),
        Item::Named(fixed("N", 1)),
        Item::Named(fixed("N", 4294967295)),
        Item::Msg(Msg { name: "N".into(), ..Default::default() }),
        Item::Msg(Msg { name: "N".into(), oneway: true, params: vec![param(prim("int"), "a")], ..Default::default() }),
        Item::Msg(Msg { name: "N".into(), resp: Some(prim("null")), oneway: true, ..Default::default() }),
        Item::Msg(Msg { name: "N".into(), resp: Some(prim("int")), params: vec![param(prim("string"), "b"), param(prim("int"), "a")], ..Default::default() }),
        Item::Msg(Msg { name: "N".into(), resp: Some(rf("T0")), throws: vec!["Y".into(), "X".into()], ..Default::default() }),
        Item::Msg(Msg { name: "N".into(), params: vec![param(rf("X"), "p")], throws: vec!["X".into()], ..Default::default() }),
        Item::Named(record("N", vec![field(rf("X"), "x"), field(arr(rf("T0")), "t")])),
        Item::Named(record("N", vec![field(nul(rf("N")), "next"), field(map(rf("T1")), "m")])),
    ];
    let rename = |it: &Item, i: usize| -> Item {
        let n = format!("T{i}");
        match it.clone() {
            Item::Named(mut x) => {
                if let Body::Record { fields, .. } = &mut x.body {
                    for f in fields {
                        if let K::Nullable(k) = &mut f.ty.k {
                            **k = rf(&n);
                        }
                    }
                }
                x.name = n;
                Item::Named(x)
            }
            Item::Msg(mut m) => {
                m.name = n.to_lowercase();
                Item::Msg(m)
            }
            i => i,
        }
    };
    let n = decls.len();
    let len = cx.pick(3, 4);
    cx.note("declaration_forms", n as u64);
    cx.note("declaration_sequence_length", len as u64);
    for l in 0..=len {
        let total = n.pow(l as u32);
        for x in 0..total {
            for schema in [false, true] {
                cx.case(|c| {
                    let mut items = vec![];
                    let mut y = x;
                    for i in 0..l {
                        items.push(rename(&decls[y % n], i));
                        y /= n;
                    }
                    items.push(Item::Named(error("X", vec![])));
                    items.push(Item::Named(error("Y", vec![field(prim("int"), "q")])));
                    if schema {
                        if items.iter().any(|i| matches!(i, Item::Msg(_))) {
                            c.count("skipped: messages in a schema file");
                            return Ok(());
                        }
                        both(c, &schema_file(None, Some(rf("T0")), items))
                    } else {
                        both(c, &protocol(None, items))
                    }
                });
            }
        }
    }
    // 3. field and parameter lists: all shapes of up to 4 variables over grouped declarations
    let tys = [prim("int"), arr(prim("string")), rf("E"), nul(prim("long"))];
    for shape in 0..(tys.len().pow(3) * 8) {
        cx.case(|c| {
            let (mut s, g) = (shape / 8, shape % 8);
            let mut fields: Vec<Field> = vec![];
            for i in 0..3 {
                let ty = tys[s % tys.len()].clone();
                s /= tys.len();
                let nvars = 1 + ((g >> i) & 1);
                fields.push(Field {
                    doc: None,
                    ty: t(ty),
                    vars: (0..nvars).map(|j| var(&format!("{}{}", ["z", "m", "a"][i], j))).collect(),
                });
            }
            let params = fields.iter().map(|f| Param { doc: None, ty: f.ty.clone(), var: f.vars[0].clone() }).collect();
            let mut items = support();
            items.push(Item::Named(record("R", fields)));
            items.push(Item::Msg(Msg { params, throws: vec!["X".into()], ..Default::default() }));
            both(c, &protocol(None, items))
        });
    }
    // 4. defaults stay with their variable
    let ds = [None, Some(json!(1)), Some(json!(-7))];
    for x in 0..27 {
        for ty in [prim("int"), nul(prim("int")), un(vec![prim("int"), prim("null")])] {
            cx.case(|c| {
                let vars: Vec<Var> = (0..3).map(|i| Var { default: ds[x / 3usize.pow(i) % 3].clone(), ..var(["p", "q", "r"][i as usize]) }).collect();
                let params = vars.iter().map(|v| Param { doc: None, ty: t(ty.clone()), var: v.clone() }).collect();
                let items = vec![
                    Item::Named(record("R", vec![Field { doc: None, ty: t(ty.clone()), vars }])),
                    Item::Msg(Msg { params, ..Default::default() }),
                ];
                both(c, &protocol(None, items))
            });
        }
    }
    // 5. every construct together with every other one
    crate::mix::pairs(cx, &["type", "kind", "msg", "order", "spell"], 3);
}
