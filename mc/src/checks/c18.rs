//! C18: unions and nullable types.
use crate::ast::*;
use crate::engine::{Case, Cx, Res};
use crate::eval;
use crate::judge::*;
use serde_json::{Value, json};

fn ann(mut ty: T, k: &str, v: Value) -> T {
    ty.anns.push((k.into(), v));
    ty
}

fn decls() -> Vec<Item> {
    let ns = |mut n: Named, ns: &str| {
        n.anns.push(("namespace".into(), json!(ns)));
        Item::Named(n)
    };
    vec![
        Item::Named(record("R", vec![])),
        Item::Named(enm("E", &["A", "B"])),
        Item::Named(fixed("F", 2)),
        Item::Named(error("X", vec![field_d(prim("int"), "i", json!(1))])),
        ns(record("R", vec![field(prim("string"), "s")]), "o"),
        ns(enm("array", &["A"]), "o"),
    ]
}

fn kinds() -> Vec<T> {
    let mut v: Vec<T> = PRIMS.iter().map(|p| t(prim(p))).collect();
    v.extend(LOGICALS.iter().map(|l| t(K::Logical(l))));
    v.push(t(K::Decimal(4, Some(2))));
    for r in ["R", "n.R", "o.R", "E", "F", "X", "o.array", "n.Late"] {
        v.push(t(rf(r)));
    }
    v.push(t(arr(prim("int"))));
    v.push(t(arr(un(vec![prim("null"), prim("string")]))));
    v.push(t(map(prim("int"))));
    v.push(t(map(nul(rf("R")))));
    v.push(ann(t(prim("int")), "logicalType", json!("date")));
    v.push(ann(t(prim("bytes")), "x", json!(1)));
    v.push(ann(t(arr(prim("int"))), "x", json!({"a": 1})));
    v.push(t(un(vec![prim("null"), prim("string")])));
    v.push(t(un(vec![prim("int")])));
    v.push(t(nul(prim("int"))));
    v.push(t(nul(rf("R"))));
    // elements that are types of their own
    v.push(t(arr(rf("R"))));
    v.push(t(arr(rf("E"))));
    v.push(t(map(rf("n.R"))));
    v.push(t(map(arr(rf("F")))));
    v
}

const NPOS: usize = 8;
fn at(pos: usize, ty: T) -> File {
    let fld = |ty: T| Item::Named(record("Host", vec![Field { doc: None, ty, vars: vec![var("f")] }]));
    let b = Box::new;
    let item = match pos {
        0 => fld(ty),
        1 => fld(t(K::Array(b(ty)))),
        2 => fld(t(K::Map(b(ty)))),
        3 => fld(t(K::Union(vec![t(prim("boolean")), t(K::Map(b(ty)))]))),
        4 => Item::Msg(Msg { params: vec![Param { doc: None, ty, var: var("p") }], ..Default::default() }),
        5 => Item::Msg(Msg { resp: Some(ty.k), ..Default::default() }),
        6 => Item::Named(error("Host", vec![Field { doc: None, ty, vars: vec![var("a"), var("b")] }])),
        _ => {
            let mut items = decls();
            items.push(Item::Named(fixed("Late", 1)));
            let mut f = schema_file(Some("n"), Some(prim("int")), items);
            if let Mode::Schema { main, .. } = &mut f.mode {
                *main = Some(ty);
            }
            return f;
        }
    };
    let mut items = decls();
    items.push(item);
    items.push(Item::Named(fixed("Late", 1)));
    protocol(Some("n"), items)
}

fn both(c: &mut Case, f: &File) -> Res {
    judge(c, f)?;
    judge_schemata(c, &render(f), &eval::evaluate(f))
}

pub fn run(cx: &mut Cx) {
    let ks = kinds();
    let n = ks.len();
    // 1. unions: all sequences of kinds
    for i in 0..n {
        for pos in 0..NPOS {
            cx.case(|c| both(c, &at(pos, t(K::Union(vec![ks[i].clone()])))));
        }
        for j in 0..n {
            for pos in 0..NPOS {
                cx.case(|c| both(c, &at(pos, t(K::Union(vec![ks[i].clone(), ks[j].clone()])))));
            }
            for k in 0..n {
                for pos in 0..NPOS {
                    if !cx.thorough() && pos != (i + 3 * j + 5 * k) % NPOS {
                        continue;
                    }
                    cx.case(|c| both(c, &at(pos, t(K::Union(vec![ks[i].clone(), ks[j].clone(), ks[k].clone()])))));
                }
            }
        }
    }
    // 2. longer unions over fewer kinds
    let few: Vec<usize> = if cx.thorough() { (0..n).step_by(3).collect() } else { vec![7, 0, 14, 16, 22, 24, 32] };
    for len in 4..=cx.pick(5usize, 5) {
        let total = few.len().pow(len as u32);
        for x in 0..total {
            let mut y = x;
            let branches: Vec<T> = (0..len)
                .map(|_| {
                    let b = ks[few[y % few.len()]].clone();
                    y /= few.len();
                    b
                })
                .collect();
            cx.case(|c| both(c, &at(x % NPOS, t(K::Union(branches)))));
        }
    }
    // all kinds that fit into one union, rotated
    let good: Vec<T> = vec![
        t(prim("null")), t(prim("boolean")), t(prim("int")), t(prim("long")), t(prim("float")), t(prim("double")), t(prim("bytes")), t(prim("string")),
        t(rf("R")), t(rf("E")), t(rf("F")), t(rf("X")), t(rf("o.R")), t(rf("o.array")), t(rf("Late")), t(arr(prim("int"))), t(map(prim("int"))),
    ];
    for r in 0..good.len() {
        let mut g = good.clone();
        g.rotate_left(r);
        for pos in 0..NPOS {
            cx.case(|c| both(c, &at(pos, t(K::Union(g.clone())))));
            // one more of each kind: never valid
            for x in &good {
                let mut h = g.clone();
                h.push(x.clone());
                cx.case(|c| both(c, &at(pos, t(K::Union(h)))));
            }
        }
    }
    // 3. nullable types with every default, on several variables
    let nullable: Vec<K> = PRIMS
        .iter()
        .map(|p| prim(p))
        .chain(LOGICALS.iter().map(|l| K::Logical(l)))
        .chain([K::Decimal(3, None), rf("R"), rf("o.R"), rf("E"), rf("F"), rf("X"), rf("o.array"), rf("Late")])
        .collect();
    let defs: Vec<Option<Value>> = vec![
        None,
        Some(Value::Null),
        Some(json!(0)),
        Some(json!(-1)),
        Some(json!(2147483648i64)),
        Some(json!(1.5)),
        Some(json!("")),
        Some(json!("A")),
        Some(json!("NaN")),
        Some(json!(true)),
        Some(json!(false)),
        Some(json!({})),
        Some(json!({"i": 2})),
        Some(json!({"s": "x"})),
        Some(json!([])),
    ];
    for k in &nullable {
        for (di, d) in defs.iter().enumerate() {
            for (ei, e) in defs.iter().enumerate() {
                for anns in 0..3 {
                    if anns > 0 && !cx.thorough() && (di + ei) % 3 != anns {
                        continue;
                    }
                    let mut ty = t(nul(k.clone()));
                    if anns > 0 {
                        if matches!(k, K::Ref(_)) {
                            continue;
                        }
                        ty.anns = vec![("x".into(), json!(anns))];
                        if anns == 2 {
                            ty.anns.push(("logicalType".into(), json!("duration")));
                        }
                    }
                    let vars = |l: &[(&str, &Option<Value>)]| l.iter().map(|(n, d)| Var { default: (*d).clone(), ..var(n) }).collect::<Vec<_>>();
                    let mut items = decls();
                    let none = None;
                    items.push(Item::Named(record("Host", vec![
                        Field { doc: None, ty: ty.clone(), vars: vars(&[("a", d), ("b", e), ("c", &none)]) },
                        Field { doc: None, ty: t(K::Array(Box::new(ty.clone()))), vars: vec![var("l")] },
                    ])));
                    items.push(Item::Named(fixed("Late", 1)));
                    let f = protocol(Some("n"), items.clone());
                    cx.case(|c| both(c, &f));
                    if ei == 0 {
                        // parameters
                        items.insert(6, Item::Named(fixed("Late", 1)));
                        items.truncate(7);
                        items.push(Item::Msg(Msg {
                            resp: if ty.anns.is_empty() { Some(ty.k.clone()) } else { None },
                            params: vec![Param { doc: None, ty: ty.clone(), var: Var { default: d.clone(), ..var("p") } }, Param { doc: None, ty: ty.clone(), var: var("q") }],
                            ..Default::default()
                        }));
                        let f = protocol(Some("n"), items);
                        cx.case(|c| both(c, &f));
                    }
                }
            }
        }
        // the same as a written union: never reordered
        for d in &defs {
            for order in 0..2 {
                let mut b = vec![t(prim("null")), t(k.clone())];
                if order == 1 {
                    b.reverse();
                }
                let mut items = decls();
                items.push(Item::Named(record("Host", vec![Field { doc: None, ty: t(K::Union(b)), vars: vec![Var { default: d.clone(), ..var("a") }, var("b")] }])));
                items.push(Item::Named(fixed("Late", 1)));
                let f = protocol(Some("n"), items);
                cx.case(|c| both(c, &f));
            }
        }
        for pos in 0..NPOS {
            cx.case(|c| both(c, &at(pos, t(nul(k.clone())))));
        }
    }
    cx.note("branch kinds", n);
    cx.note("positions", NPOS);
    // mixed with every other construct
    crate::mix::pairs(cx, &["union"], 2);
}
