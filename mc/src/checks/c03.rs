//! C03: named types are defined exactly once, before use, and the output is closed.
use crate::ast::*;
use crate::engine::Cx;
use crate::eval;
use crate::judge::*;

pub fn run(cx: &mut Cx) {
    let n = 4usize;
    let wrap = |k: K, w: usize| match w {
        0 => k,
        1 => arr(k),
        2 => map(k),
        3 => nul(k),
        _ => un(vec![prim("int"), k]),
    };
    let build = |g: u64, n: usize, perm: &[usize], w: usize, leaf: usize| -> Vec<Item> {
        let nm = |i: usize| ["A", "B", "C", "D", "G"][i].to_string();
        perm.iter()
            .map(|&i| {
                if leaf >> i & 1 == 1 {
                    return Item::Named(if i % 2 == 0 { enm(&nm(i), &["S"]) } else { fixed(&nm(i), 2) });
                }
                let fields = (0..n)
                    .filter(|j| g >> (i * n + j) & 1 == 1)
                    .map(|j| field(wrap(rf(&nm(j)), (w + i + j) % 5), &format!("f{j}")))
                    .collect();
                Item::Named(if i == 3 { error(&nm(i), fields) } else { record(&nm(i), fields) })
            })
            .collect()
    };
    let both = |c: &mut crate::engine::Case, f: &File| {
        judge(c, f)?;
        judge_schemata(c, &render(f), &eval::evaluate(f))
    };
    // all reference graphs on three types x all declaration orders x container offsets x leaves
    let perms3 = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    for g in 0..512u64 {
        for p in &perms3 {
            for w in 0..cx.pick(2, 5) {
                for leaf in [0usize, 1, 2, 4] {
                    cx.case(|c| {
                        let mut items = build(g, 3, p, w, leaf);
                        if g % 3 == 0 {
                            items.push(Item::Msg(Msg { resp: Some(rf("C")), params: vec![param(wrap(rf("B"), w), "p")], throws: vec!["A".into()], ..Default::default() }));
                        }
                        both(c, &protocol(if g % 2 == 0 { None } else { Some("n") }, items))
                    });
                    cx.case(|c| {
                        let items = build(g, 3, p, w, leaf);
                        let main = [un(vec![rf("A"), rf("B")]), arr(rf("C")), rf("B")][(g % 3) as usize].clone();
                        both(c, &schema_file(if g % 2 == 0 { None } else { Some("n") }, Some(main), items))
                    });
                }
            }
        }
    }
    // four types: all graphs (thorough) / all graphs with at most 4 edges (quick)
    let me = cx.pick(4, 16);
    cx.note("four_type_graph_max_edges", me as u64);
    cx.note("three_type_graphs", 512);
    for g in 0..(1u64 << (n * n)) {
        if g.count_ones() > me {
            continue;
        }
        cx.case(|c| {
            let items = build(g, 4, &[2, 0, 3, 1], (g % 5) as usize, 0);
            both(c, &protocol(None, items))
        });
    }
    // simple names shared by different namespaces: first occurrences must not be confused
    for x in 0..(4u64.pow(6)) {
        cx.case(|c| {
            let fulls = ["T", "a.T", "b.T", "a.b.T"];
            let mut y = x;
            let mut pick = || {
                let r = fulls[(y % 4) as usize];
                y /= 4;
                r
            };
            let (p, q, r, s, t2, u) = (pick(), pick(), pick(), pick(), pick(), pick());
            let mut items: Vec<Item> = vec![];
            let mut seen = vec![];
            for (d, e) in [(p, q), (r, s), (t2, u)] {
                if seen.contains(&d) {
                    continue;
                }
                seen.push(d);
                // "T" has no spelling inside a namespace
                let e2 = if e == "T" && d != "T" { "a.T" } else { e };
                items.push(Item::Named(record(d, vec![field(nul(rf(e2)), "x"), field(arr(rf(d)), "y")])));
            }
            for f in fulls {
                if !seen.contains(&f) {
                    items.push(Item::Named(enm(f, &["S"])));
                }
            }
            // "T" inside the null namespace must stay reachable: protocol without namespace
            both(c, &protocol(None, items))
        });
    }
    // types of one simple name with and without a namespace, in a protocol that has one: all
    // reference graphs with two references from the first of each pair and one from the second
    let two = |n: u64| if n % 2 == 0 { "T" } else { "U" };
    let orders = [[0usize, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]];
    for x in 0..5u64 * 5 * 5 * 3 * 3 * 3 {
        for o in &orders[..cx.pick(2, 4)] {
            cx.case(|c| {
                let mut y = x;
                let mut pick = |n: u64| {
                    let r = y % n;
                    y /= n;
                    r
                };
                let out = |r: u64| ["T", "U", "a.T", "a.U", ""][r as usize];
                let own = |r: u64| ["T", "U", ""][r as usize];
                let refs = [
                    vec![out(pick(5)), out(pick(5))],
                    vec![out(pick(5))],
                    vec![own(pick(3)), own(pick(3))],
                    vec![own(pick(3))],
                ];
                let items = o
                    .iter()
                    .map(|&i| {
                        let fields = refs[i]
                            .iter()
                            .enumerate()
                            .filter(|(_, r)| !r.is_empty())
                            .map(|(k, r)| field(wrap(rf(r), (i + k + x as usize) % 4), &format!("f{k}")))
                            .collect();
                        let mut d = record(two(i as u64), fields);
                        if i < 2 {
                            d.anns.push(("namespace".into(), serde_json::json!("")));
                        }
                        Item::Named(d)
                    })
                    .collect();
                both(c, &protocol(Some("a"), items))
            });
        }
    }
    // mixed with every other construct
    crate::mix::pairs(cx, &["order"], 2);
}
