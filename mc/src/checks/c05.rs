//! C05: imports contribute each file once, at the import, whatever the graph.
use crate::ast::*;
use crate::drv;
use crate::engine::{Case, Cx, Fail, Res};
use crate::eval::{self, Content, Eval, World};
use crate::judge::*;
use crate::{fail, world};
use serde_json::{Value, json};

fn idl_file(i: usize, mut items: Vec<Item>) -> File {
    let mut f = protocol(None, vec![]);
    if let Mode::Protocol { name, .. } = &mut f.mode {
        *name = format!("P{i}");
    }
    items.push(Item::Msg(Msg { name: format!("m{i}"), resp: Some(rf(&format!("T{i}"))), ..Default::default() }));
    f.items = items;
    f
}
fn own(i: usize) -> Item {
    Item::Named(record(&format!("T{i}"), vec![field(prim("int"), &format!("f{i}"))]))
}
/// JSON files with one nested and one outer type and (protocols) one message.
pub fn json_file(i: usize, kind: ImpKind) -> Content {
    let outer = json!({"type":"record","name":format!("T{i}"),"fields":[{"name":"n","type":{"type":"enum","name":format!("N{i}"),"symbols":["A","B"]}}]});
    let cn = json!({"type":"enum","name":format!("N{i}"),"symbols":["A","B"]});
    let ct = json!({"type":"record","name":format!("T{i}"),"fields":[{"name":"n","type":{"ref":format!("N{i}")}}]});
    let mut messages = std::collections::BTreeMap::new();
    let v = match kind {
        ImpKind::Protocol => {
            messages.insert(format!("m{i}"), json!({"request":[],"response":{"ref":format!("T{i}")}}));
            json!({"protocol":format!("J{i}"),"types":[outer],"messages":{format!("m{i}"):{"request":[],"response":format!("T{i}")}}})
        }
        _ => outer,
    };
    Content::Json { text: v.to_string(), defs: vec![(format!("T{i}"), ct), (format!("N{i}"), cn)], messages }
}

/// Order among a JSON file's own types is that file's business: compare the types by meaning
/// and the order by file.
fn judge_imports(c: &mut Case, w: &World, main: &str, group: &dyn Fn(&str) -> String) -> Res {
    let Content::Idl(f) = &w.files[main] else { panic!() };
    let want = Eval::new(Some(w)).run(f, Some(main));
    let root = c.scratch().join("w");
    world::materialize(w, &root);
    let desc = world::describe(w);
    crate::engine::note_input(&desc);
    let got = world::idl_path(&root, main, &w.dirs);
    c.state(&desc);
    c.steps(w.files.len());
    c.trace();
    c.sample(|| json!({"world": desc}));
    match (&want, &got.res) {
        (Err(r), Err(e)) => {
            let text = drv::diag_plain(e).text();
            if r.names.iter().any(|n| !n.is_empty() && !text.contains(n.as_str())) {
                fail!(data(&desc, &want, &got), "the error does not mention {:?}", r.names);
            }
            c.count("rejected");
            Ok(())
        }
        (Ok(_), Err(_)) => fail!(data(&desc, &want, &got), "a valid program with imports is rejected"),
        (Err(r), Ok(_)) => fail!(data(&desc, &want, &got), "an invalid program is accepted ({} {:?})", r.class, r.names),
        (Ok(m), Ok(v)) => {
            c.count("accepted");
            c.outcome(&v.to_string());
            let d = |e: String| Fail::new(e, data(&desc, &want, &got));
            let doc = crate::avroread::read_protocol(v).map_err(d)?;
            if doc.head != m.head {
                return Err(d("head differs".into()));
            }
            for (n, x) in &m.defs {
                if doc.defs.get(n) != Some(x) {
                    return Err(d(format!("type {n}: want {x}, got {:?}", doc.defs.get(n))));
                }
            }
            if doc.defs.len() != m.defs.len() {
                return Err(d(format!("unexpected types: {:?}", doc.order)));
            }
            let squash = |o: Vec<String>| -> Vec<String> {
                let mut out: Vec<String> = vec![];
                for n in o {
                    let g = group(&n);
                    if out.last() != Some(&g) {
                        out.push(g);
                    }
                }
                out
            };
            // top-level types, by the file that contributes them
            let (wo, go) = (squash(m.layout().1), squash(doc.top.clone()));
            if wo != go {
                return Err(d(format!("types are placed as from {go:?}, want {wo:?}")));
            }
            // a message several imports declare (and the importer does not) may come from any
            crate::avroread::compare_messages(&m.messages, &doc.messages).map_err(d)?;
            Ok(())
        }
    }
}
fn by_index(n: &str) -> String {
    n.trim_start_matches(|c: char| !c.is_ascii_digit()).to_string()
}

/// The process runs in a directory that holds a file of every name the cases import: imports are
/// looked up relative to the importing file and the import directories, never relative to it.
fn decoys(cx: &Cx) {
    let base = cx.scratch.join("cwd");
    let cwd = base.join("x/y");
    let idl = |n: &str| format!("protocol Decoy {{ record Decoy_{n} {{ }} void decoy(); }}");
    let names = ["main", "b", "c", "d", "l1", "l2", "x", "via", "p", "q", "a", "r", "t", "i", "s", "j"];
    for dir in ["..", ".", "s", "n", "m", "d0", "d1", "d0/k", "sub", "q"] {
        let d = cwd.join(dir);
        std::fs::create_dir_all(&d).unwrap();
        for n in names {
            std::fs::write(d.join(format!("{n}.avdl")), idl(n)).unwrap();
            std::fs::write(d.join(format!("{n}.avsc")), format!(r#"{{"type":"fixed","size":1,"name":"Decoy_{n}"}}"#)).unwrap();
            std::fs::write(d.join(format!("{n}.avpr")), format!(r#"{{"protocol":"D","types":[{{"type":"fixed","size":1,"name":"Decoy_{n}"}}]}}"#)).unwrap();
        }
    }
    std::env::set_current_dir(&cwd).unwrap();
}

pub fn run(cx: &mut Cx) {
    decoys(cx);
    // 1. all import graphs: per file an ordered list of imports and a place for its own type
    let n = 3usize;
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..n {
        lists.push(vec![a]);
    }
    for a in 0..n {
        for b in 0..n {
            lists.push(vec![a, b]);
        }
    }
    let l = lists.len();
    let npos = cx.pick(2, 3usize);
    cx.note("graph_files", n as u64);
    cx.note("import_lists_per_file", l as u64);
    let name = |i: usize| ["main.avdl", "b.avdl", "c.avdl", "d.avdl"][i].to_string();
    for x in 0..l.pow(3) {
        for pos in 0..npos.pow(3) {
            cx.case(|c| {
                let mut w = World::default();
                for i in 0..n {
                    let li = &lists[x / l.pow(i as u32) % l];
                    let p = pos / npos.pow(i as u32) % npos;
                    let mut items: Vec<Item> = li.iter().map(|&j| Item::Import(ImpKind::Idl, name(j))).collect();
                    let at = match p {
                        0 => items.len(),
                        1 => 0,
                        _ => items.len().min(1),
                    };
                    items.insert(at, own(i));
                    w.files.insert(format!("/{}", name(i)), Content::Idl(idl_file(i, items)));
                }
                judge_imports(c, &w, "/main.avdl", &by_index)
            });
        }
    }
    // 2. four files (a chain deep), every list of at most two imports without repetition
    let mut l4: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..4 {
        l4.push(vec![a]);
        for b in 0..4 {
            if a != b {
                l4.push(vec![a, b]);
            }
        }
    }
    let l = l4.len();
    for x in 0..l.pow(4) {
        // quick: the files' first-level lists restricted to a stride-free sub-box
        if !cx.thorough() && (x / l.pow(3)) % l > 4 {
            continue;
        }
        cx.case(|c| {
            let mut w = World::default();
            for i in 0..4 {
                let li = &l4[x / l.pow(i as u32) % l];
                let mut items: Vec<Item> = li.iter().map(|&j| Item::Import(ImpKind::Idl, name(j))).collect();
                items.push(own(i));
                w.files.insert(format!("/{}", name(i)), Content::Idl(idl_file(i, items)));
            }
            judge_imports(c, &w, "/main.avdl", &by_index)
        });
    }
    // 3. mixed kinds: two importers (main, b) over three leaves of every kind, repeated and crossed
    let kinds = [ImpKind::Idl, ImpKind::Protocol, ImpKind::Schema];
    let mut orders: Vec<Vec<usize>> = vec![];
    for a in 0..4 {
        orders.push(vec![a]);
        for b in 0..4 {
            orders.push(vec![a, b]);
            for d in 0..4 {
                orders.push(vec![a, b, d]);
            }
        }
    }
    for ka in 0..3 {
        for kb in 0..3 {
            for (oi, o) in orders.iter().enumerate() {
                for (ui, u) in orders.iter().enumerate() {
                    if u.len() > 2 || (o.len() == 3 && !cx.thorough() && (oi + ui) % 2 == 1) {
                        continue;
                    }
                    for at in 0..=o.len().min(2) {
                        cx.case(|c| {
                            // leaves 1, 2 of kinds ka, kb; 3 = importer b.avdl; 0 = main itself
                            let file = |i: usize, k: ImpKind| match k {
                                ImpKind::Idl => format!("l{i}.avdl"),
                                ImpKind::Protocol => format!("l{i}.avpr"),
                                ImpKind::Schema => format!("l{i}.avsc"),
                            };
                            let imp = |j: usize| match j {
                                0 => Item::Import(ImpKind::Idl, "main.avdl".into()),
                                1 => Item::Import(kinds[ka], file(1, kinds[ka])),
                                2 => Item::Import(kinds[kb], file(2, kinds[kb])),
                                _ => Item::Import(ImpKind::Idl, "b.avdl".into()),
                            };
                            let mut w = World::default();
                            let mut items: Vec<Item> = o.iter().map(|&j| imp(j)).collect();
                            items.insert(at, own(0));
                            w.files.insert("/main.avdl".into(), Content::Idl(idl_file(0, items)));
                            let mut items: Vec<Item> = u.iter().map(|&j| imp(j)).collect();
                            items.push(own(3));
                            w.files.insert("/b.avdl".into(), Content::Idl(idl_file(3, items)));
                            for (i, k) in [(1, kinds[ka]), (2, kinds[kb])] {
                                let content = if k == ImpKind::Idl { Content::Idl(idl_file(i, vec![own(i)])) } else { json_file(i, k) };
                                w.files.insert(format!("/{}", file(i, k)), content);
                            }
                            judge_imports(c, &w, "/main.avdl", &by_index)
                        });
                    }
                }
            }
        }
    }
    // 4. messages of the importer win over those of its imports, at every level
    for has in 0..8usize {
        for shape in 0..4 {
            for at in 0..2 {
                for kind in [ImpKind::Idl, ImpKind::Protocol] {
                    if has.count_ones() < 1 {
                        continue;
                    }
                    cx.case(|c| {
                        // main -> b -> c (shape bit0: main also imports c first; bit1: c also imports b)
                        let s = |i: usize| Item::Msg(Msg { name: "s".into(), params: vec![param(prim("int"), &format!("p{i}"))], ..Default::default() });
                        let mut w = World::default();
                        let cname = if kind == ImpKind::Idl { "c.avdl" } else { "c.avpr" };
                        let mut main: Vec<Item> = vec![];
                        if shape & 1 == 1 {
                            main.push(Item::Import(kind, cname.into()));
                        }
                        main.push(Item::Import(ImpKind::Idl, "b.avdl".into()));
                        let mut b = vec![Item::Import(kind, cname.into())];
                        let mut cc = vec![];
                        if shape & 2 == 2 {
                            cc.push(Item::Import(ImpKind::Idl, "b.avdl".into()));
                        }
                        for (i, v) in [(0, &mut main), (1, &mut b), (2, &mut cc)] {
                            if has >> i & 1 == 1 {
                                v.insert(if at == 0 { v.len() } else { 0 }, s(i));
                            }
                            v.push(own(i));
                        }
                        w.files.insert("/main.avdl".into(), Content::Idl(idl_file(0, main)));
                        w.files.insert("/b.avdl".into(), Content::Idl(idl_file(1, b)));
                        if kind == ImpKind::Idl {
                            w.files.insert("/c.avdl".into(), Content::Idl(idl_file(2, cc)));
                        } else {
                            let ct = json!({"type":"enum","name":"T2","symbols":[]});
                            let mut ms = serde_json::Map::new();
                            let mut cm = std::collections::BTreeMap::new();
                            ms.insert("m2".into(), json!({"request":[],"response":"T2"}));
                            cm.insert("m2".into(), json!({"request":[],"response":{"ref":"T2"}}));
                            if has & 4 == 4 {
                                ms.insert("s".into(), json!({"request":[{"name":"p2","type":"int"}],"response":"null"}));
                                cm.insert("s".into(), json!({"request":[{"name":"p2","type":{"type":"int"}}],"response":{"type":"null"}}));
                            }
                            let text = json!({"protocol":"C","types":[ct],"messages":Value::Object(ms)}).to_string();
                            w.files.insert("/c.avpr".into(), Content::Json { text, defs: vec![("T2".into(), ct)], messages: cm });
                        }
                        // two imports of main that both declare `s`, main silent: any may win
                        if has & 1 == 0 && shape & 1 == 1 && has == 6 {
                            c.count("unspecified winner");
                            return Ok(());
                        }
                        // b and c import each other: each is the other's importer
                        if has & 1 == 0 && shape & 2 == 2 && has == 6 {
                            c.count("unspecified winner");
                            return Ok(());
                        }
                        judge_imports(c, &w, "/main.avdl", &by_index)
                    });
                }
            }
        }
    }
    // 5. search order: the same relative path present in any subset of the places
    //    (importer's directory, main's directory, import dirs d0, d1), from main or a nested file
    let paths = ["x.avdl", "s/x.avdl", "../x.avdl", "s/../x.avdl", "./x.avdl"];
    for present in 0..32usize {
        for nested in 0..3 {
            for (pi, p) in paths.iter().enumerate() {
                for dirs in 0..5 {
                    for kind in [ImpKind::Idl, ImpKind::Schema, ImpKind::Protocol] {
                        cx.case(|c| {
                            let mut w = World::default();
                            let dl: [&[&str]; 5] = [&[], &["/d0"], &["/d0", "/d1"], &["/d1", "/d0"], &["/q/d0", "/d0/k"]];
                            w.dirs = dl[dirs].iter().map(|s| s.to_string()).collect();
                            let ext = match kind {
                                ImpKind::Idl => "avdl",
                                ImpKind::Schema => "avsc",
                                ImpKind::Protocol => "avpr",
                            };
                            let p = p.replace("avdl", ext);
                            let importer_dir = ["/m", "/m/n", "/d0/k"][nested];
                            // places: where the path resolves from each base
                            let bases = [importer_dir, "/m", "/d0", "/d1", "/q/d0"];
                            for (b, base) in bases.iter().enumerate() {
                                if present >> b & 1 == 1 {
                                    let f = eval::norm_path(&format!("{base}/{p}"));
                                    if !w.files.contains_key(&f) {
                                        let i = 10 + b;
                                        let ct = match kind {
                                            ImpKind::Idl => Content::Idl(idl_file(i, vec![own(i)])),
                                            k => json_file(i, k),
                                        };
                                        w.files.insert(f, ct);
                                    }
                                }
                            }
                            // directories named by ".." components must exist
                            for base in bases {
                                w.files.entry(format!("{base}/s/keep.txt")).or_insert(Content::Json { text: "".into(), defs: vec![], messages: Default::default() });
                            }
                            let imp = Item::Import(kind, p.clone());
                            if nested == 0 {
                                w.files.insert("/m/main.avdl".into(), Content::Idl(idl_file(0, vec![imp, own(0)])));
                            } else {
                                let via = ["", "n/via.avdl", "../d0/k/via.avdl"][nested];
                                w.files.insert("/m/main.avdl".into(), Content::Idl(idl_file(0, vec![Item::Import(ImpKind::Idl, via.into()), own(0)])));
                                w.files.insert(format!("{importer_dir}/via.avdl"), Content::Idl(idl_file(1, vec![imp, own(1)])));
                            }
                            let _ = pi;
                            judge_imports(c, &w, "/m/main.avdl", &by_index)
                        });
                    }
                }
            }
        }
    }
    // 6. one file reached under several spellings counts once
    let sp = ["b.avdl", "./b.avdl", "s/../b.avdl", "../m/b.avdl", "s/../s/../b.avdl", "link.avdl", "lnk/b.avdl", "ABS"];
    for a in 0..sp.len() {
        for b in 0..sp.len() {
            for via in [false, true] {
                cx.case(|c| {
                    let root = c.scratch().join("w");
                    let mut w = World::default();
                    let imp = |s: &str| Item::Import(ImpKind::Idl, if s == "ABS" { root.join("m/b.avdl").to_str().unwrap().to_string() } else { s.to_string() });
                    let (i1, i2) = (imp(sp[a]), imp(sp[b]));
                    let main = if via { vec![i1, Item::Import(ImpKind::Idl, "s/v.avdl".into()), own(0)] } else { vec![i1, own(0), i2] };
                    w.files.insert("/m/main.avdl".into(), Content::Idl(idl_file(0, main)));
                    w.files.insert("/m/s/v.avdl".into(), Content::Idl(idl_file(2, vec![Item::Import(ImpKind::Idl, "../b.avdl".into()), own(2)])));
                    w.files.insert("/m/b.avdl".into(), Content::Idl(idl_file(1, vec![own(1)])));
                    let Content::Idl(_) = &w.files["/m/main.avdl"] else { panic!() };
                    // the model sees canonical names
                    let mut mw = w.clone();
                    let main = if via {
                        vec![Item::Import(ImpKind::Idl, "b.avdl".into()), Item::Import(ImpKind::Idl, "s/v.avdl".into()), own(0)]
                    } else {
                        vec![Item::Import(ImpKind::Idl, "b.avdl".into()), own(0)]
                    };
                    mw.files.insert("/m/main.avdl".into(), Content::Idl(idl_file(0, main)));
                    let Content::Idl(mf) = &mw.files["/m/main.avdl"] else { panic!() };
                    let want = Eval::new(Some(&mw)).run(mf, Some("/m/main.avdl"));
                    world::materialize(&w, &root);
                    std::os::unix::fs::symlink("b.avdl", root.join("m/link.avdl")).unwrap();
                    std::os::unix::fs::symlink(".", root.join("m/lnk")).unwrap();
                    let desc = world::describe(&w);
                    let got = world::idl_path(&root, "/m/main.avdl", &[]);
                    judge_out(c, &desc, &want, got)
                });
            }
        }
    }
    // 7. the name of a file means nothing: all pairs of odd names, in four shapes
    let names = ["b", "B.AVDL", ".b", "b.", "b.json", "b c.avdl", "é.avdl", "-b", "#b", "b?", "b%20", "~b", "$b", "b.avsc", "b.avpr", "http:b", "sub.d/b", "b.txt", "\u{1f600}", "b:1:2", "[b]"];
    for (ni, n1) in names.iter().enumerate() {
        for (nj, n2) in names.iter().enumerate() {
            if ni == nj {
                continue;
            }
            for kind in [ImpKind::Idl, ImpKind::Protocol, ImpKind::Schema] {
                for shape in 0..4 {
                    cx.case(|c| {
                        let from = |f: &str, t: &str| format!("{}{t}", if f.contains('/') { "../" } else { "" });
                        let mut w = World::default();
                        let idl = |f: &str, t: &str| Item::Import(ImpKind::Idl, from(f, t));
                        let last = |f: &str| Item::Import(kind, from(f, n2));
                        let (main, one): (Vec<Item>, Vec<Item>) = match shape {
                            0 => (vec![idl("", n1), last("")], vec![idl(n1, n1), last(n1), own(1)]),
                            1 => (vec![last(""), own(0), idl("", n1)], vec![own(1), last(n1), idl(n1, "main.avdl")]),
                            2 => (vec![idl("", n1), idl("", n1), last("")], vec![last(n1), last(n1), own(1)]),
                            _ => (vec![idl("", n1), idl("", "main.avdl")], vec![idl(n1, "main.avdl"), own(1), last(n1)]),
                        };
                        let main = if main.iter().any(|i| matches!(i, Item::Named(_))) { main } else { main.into_iter().chain([own(0)]).collect() };
                        w.files.insert("/main.avdl".into(), Content::Idl(idl_file(0, main)));
                        w.files.insert(format!("/{n1}"), Content::Idl(idl_file(1, one)));
                        let two = match kind {
                            // ... and back, closing a cycle
                            ImpKind::Idl => Content::Idl(idl_file(2, vec![own(2), idl(n2, n1), idl(n2, n2)])),
                            k => json_file(2, k),
                        };
                        w.files.insert(format!("/{n2}"), two);
                        judge_imports(c, &w, "/main.avdl", &by_index)
                    });
                }
            }
        }
    }
    // mixed with every other construct
    crate::mix::splits(cx, 19);
}
