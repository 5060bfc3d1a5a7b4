//! C15: idl2schemata on files and directories.
use super::c14::{Tree, denied, run_cli, tree};
use crate::ast::*;
use crate::avroread as ar;
use crate::drv;
use crate::engine::{Case, Cx, Res};
use crate::eval::{self, Head, Meaning};
use crate::fail;
use serde_json::{Value, json};
use std::path::Path;

/// What a place of the tree may hold.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Con {
    Absent,
    Valid,
    Warn,
    /// imports lib/t.inc, which lies outside the places
    Imports,
    Nested,
    Syntax,
    Undefined,
    Schema,
    Bare,
    Empty,
    /// fails only because of its import
    BadImport,
}
use Con::*;

/// Places in the order in which they are visited, with what their names make of them.
struct Place {
    path: &'static str,
    idl: bool,
}
const PLACES: &[Place] = &[
    Place { path: ".h.avdl", idl: true },
    Place { path: "B.avdl", idl: true },
    Place { path: "a/z.avdl", idl: true },
    Place { path: "a.avdl", idl: true },
    Place { path: "b.avdl.txt", idl: false },
    Place { path: "d.avdl/in.avdl", idl: true },
    Place { path: "d.avdl/sub/x.avdl", idl: true },
    Place { path: "e.AVDL", idl: false },
    Place { path: "noext", idl: false },
    Place { path: "z z.avdl", idl: true },
    Place { path: "é.avdl", idl: true },
];

fn text(i: usize, con: Con) -> String {
    let up = "../".repeat(PLACES[i].path.matches('/').count() + 1);
    match con {
        Absent => unreachable!(),
        Valid => format!("@namespace(\"n{i}\") protocol V{i} {{ record Ra{i} {{ int x; Eb{i} e; }} enum Eb{i} {{ A }} void m(Ra{i} r); }}"),
        Warn => format!("protocol W{i} {{ fixed Fx{i}(3); /** lost */ }}"),
        Imports => format!("protocol I{i} {{ import idl \"{up}lib/t.inc\"; record Ri{i} {{ lib.Lib l; union {{ null, Ri{i} }} next; }} }}"),
        Nested => format!("@namespace(\"a.b\") protocol N{i} {{ record Na{i} {{ array<c.Nb{i}> b; }} @namespace(\"c\") record Nb{i} {{ map<a.b.Nc{i}> c; }} error Nc{i} {{ Nb{i}x x; }} @namespace(\"a.b\") enum Nb{i}x {{ Q }} }}"),
        Syntax => format!("protocol S{i} {{ record }}"),
        Undefined => format!("protocol U{i} {{ record Ru{i} {{ Missing m; }} /** lost */ }}"),
        Schema => format!("namespace s{i}; schema array<Sa{i}>; enum Sa{i} {{ A }} record Sb{i} {{ Sa{i} a; }}"),
        Bare => format!("record Ka{i} {{ Kb{i}? b; }} record Kb{i} {{ Ka{i}? a; }}"),
        Empty => String::new(),
        BadImport => format!("protocol B{i} {{ record Rb{i} {{}} import idl \"nothere.avdl\"; }}"),
    }
}

/// The types of a place as (full name, simple name), with the number of warnings; None: fails.
fn types(i: usize, con: Con) -> Option<(Vec<String>, usize)> {
    Some(match con {
        Absent | Empty => (vec![], 0),
        Valid => (vec![format!("n{i}.Ra{i}"), format!("n{i}.Eb{i}")], 0),
        Warn => (vec![format!("Fx{i}")], 1),
        Imports => (vec!["lib.Lib".into(), format!("Ri{i}")], 0),
        Nested => (vec![format!("a.b.Na{i}"), format!("c.Nb{i}"), format!("a.b.Nc{i}"), format!("a.b.Nb{i}x")], 0),
        Syntax | Undefined | BadImport => return None,
        Schema => (vec![format!("s{i}.Sa{i}"), format!("s{i}.Sb{i}")], 0),
        Bare => (vec![format!("Ka{i}"), format!("Kb{i}")], 0),
    })
}

fn write(root: &Path, at: &[Con]) {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(root.join("in")).unwrap();
    std::fs::create_dir_all(root.join("lib")).unwrap();
    std::fs::write(root.join("lib/t.inc"), "@namespace(\"lib\") protocol L { fixed Lib(4); }").unwrap();
    for (i, c) in at.iter().enumerate() {
        if *c != Absent {
            let p = root.join("in").join(PLACES[i].path);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, text(i, *c)).unwrap();
        }
    }
}

fn dir_case(c: &mut Case, at: &[Con], out: usize) -> Res {
    let root = c.scratch().join("w");
    write(&root, at);
    let desc = at.iter().enumerate().filter(|x| *x.1 != Absent).map(|(i, k)| format!("== in/{}\n{}\n", PLACES[i].path, text(i, *k))).collect::<String>();
    crate::engine::note_input(&desc);
    c.state(&(desc.as_str(), out));
    c.steps(at.len());
    let data = |m: &str| json!({"input": desc, "detail": m});
    // expected
    let live: Vec<(usize, Con)> = at.iter().copied().enumerate().filter(|(i, k)| PLACES[*i].idl && *k != Absent).collect();
    let ok = live.iter().all(|(i, k)| types(*i, *k).is_some());
    let mut names = vec![];
    let mut warns = 0;
    for (i, k) in &live {
        match types(*i, *k) {
            Some((n, w)) => {
                names.extend(n);
                warns += w;
            }
            None => {
                warns += (*k == Undefined) as usize;
                break;
            }
        }
    }
    // the library, by directory and file by file
    let mut o = avdl::Idl2Schemata::new();
    let r = o.extract(root.join("in"));
    c.trace();
    let mut texts: Vec<(String, String)> = vec![];
    match r {
        Ok(x) => {
            if !ok {
                fail!(data(""), "a directory with a file that does not compile is extracted");
            }
            let got: Vec<String> = x.schemas.iter().map(|s| full(&s.schema)).collect();
            if got != names {
                fail!(data(&format!("got {got:?}, want {names:?}")), "other types are extracted");
            }
            if x.warnings.len() != warns {
                fail!(data(&x.warnings.len().to_string()), "{} warnings instead of {warns}", x.warnings.len());
            }
            let mut each = vec![];
            for (i, _) in &live {
                let y = avdl::Idl2Schemata::new().extract(root.join("in").join(PLACES[*i].path));
                match y {
                    Ok(y) => each.extend(y.schemas.into_iter().map(|s| (s.name, s.schema))),
                    Err(e) => fail!(data(&drv::diag_plain(&e).text()), "a file does not compile alone"),
                }
            }
            let all: Vec<(String, Value)> = x.schemas.into_iter().map(|s| (s.name, s.schema)).collect();
            if all != each {
                fail!(data(""), "a directory gives other schemas than its files one by one");
            }
            for (n, s) in &all {
                if let Err(e) = ar::read_schema(s) {
                    fail!(data(&format!("{n}: {s:#}")), "the schema is not self-contained: {e}");
                }
                texts.push((n.clone(), serde_json::to_string_pretty(s).unwrap()));
            }
        }
        Err(e) => {
            if ok {
                fail!(data(&drv::diag_plain(&e).text()), "a directory whose files all compile is refused");
            }
        }
    }
    // the command
    let (outarg, base): (&[&str], &str) = match out {
        0 => (&["out"], "/out"),
        1 => (&["out/deep/er"], "/out/deep/er"),
        2 => (&["have"], "/have"),
        3 => (&[], ""),
        4 => (&["in"], "/in"),
        _ => (&["./have/../have/"], "/have"),
    };
    if out == 2 || out > 4 {
        std::fs::create_dir_all(root.join("have")).unwrap();
        std::fs::write(root.join("have/Fx1.avsc"), "old ".repeat(500)).unwrap();
        std::fs::write(root.join("have/other.avsc"), "other").unwrap();
        // what an earlier run may have left: other text of the same length, a beginning, more
        for (k, (n, t)) in texts.iter().enumerate() {
            let t = format!("{t}\n");
            let old = match (k + at.len() + live.len()) % 5 {
                0 => t.replace(|c: char| c.is_ascii_alphanumeric(), "z"),
                1 => t[..t.len() / 2].to_string(),
                2 => format!("{t}{t}"),
                3 => t.trim_end().to_string(),
                _ => continue,
            };
            std::fs::write(root.join(format!("have/{n}.avsc")), old).unwrap();
        }
    }
    let before = tree(&root);
    let mut args = vec!["idl2schemata", "in"];
    args.extend(outarg);
    let r = run_cli(&root, &args, b"", None).unwrap();
    c.trace();
    let after = tree(&root);
    let mut want: Tree = before.clone();
    if ok {
        let mut up = String::new();
        for part in base.split('/').filter(|x| !x.is_empty()) {
            up += &format!("/{part}");
            want.entry(format!("{up}/")).or_default();
        }
        for (n, t) in &texts {
            want.insert(format!("{base}/{n}.avsc"), format!("{t}\n").into_bytes());
        }
    }
    c.count(if ok { "extracted" } else { "refused" });
    c.outcome(&format!("{:?} {}", r.code, names.join(" ")));
    let d2 = |m: &str| json!({"input": desc, "arguments": args, "status": r.code, "stdout": r.out, "stderr": r.err, "detail": m});
    if (r.code == Some(0)) != ok || r.code.is_none() {
        fail!(d2(""), "the command's exit status is {:?}", r.code);
    }
    if !ok && r.err.trim().is_empty() || !r.out.is_empty() {
        fail!(d2(""), "the command's messages are not on standard error");
    }
    if after != want {
        let diff: Vec<_> = want.iter().filter(|(k, v)| after.get(*k) != Some(v)).map(|x| x.0).chain(after.keys().filter(|k| !want.contains_key(*k))).collect();
        fail!(d2(&format!("{diff:?}")), "the files are not as expected");
    }
    if r.err.matches('⚠').count() != warns {
        fail!(d2(""), "the command prints {} warnings instead of {warns}", r.err.matches('⚠').count());
    }
    Ok(())
}

fn full(s: &Value) -> String {
    let n = s["name"].as_str().unwrap_or("?");
    match s["namespace"].as_str() {
        Some(ns) if !ns.is_empty() && !n.contains('.') => format!("{ns}.{n}"),
        _ => n.to_string(),
    }
}

/// One file: the files written state the model's types.
fn file_case(c: &mut Case, f: &File) -> Res {
    let src = render(f);
    let want = eval::evaluate(f);
    let root = c.scratch().join("w");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    std::fs::write(root.join("m.avdl"), &src).unwrap();
    c.state(&src);
    c.steps(f.items.len());
    c.trace();
    let r = run_cli(&root, &["idl2schemata", "m.avdl", "out"], b"", None).unwrap();
    let after = tree(&root.join("out"));
    let data = |m: &str| json!({"input": src, "status": r.code, "stderr": r.err, "files": after.iter().map(|(k, v)| format!("{k}: {}", String::from_utf8_lossy(v))).collect::<Vec<_>>(), "detail": m});
    let m = match want {
        Err(_) => {
            c.count("file refused");
            if r.code == Some(0) || root.join("out").exists() {
                fail!(data(""), "an invalid file is extracted, or leaves files behind");
            }
            return Ok(());
        }
        Ok(m) => m,
    };
    if m.undecided {
        return Ok(());
    }
    c.count("file extracted");
    if r.code != Some(0) {
        fail!(data(""), "a valid file is refused");
    }
    let simple = |n: &str| n.rsplit('.').next().unwrap().to_string();
    if after.len() != m.defs.len() {
        fail!(data(""), "{} files for {} types", after.len(), m.defs.len());
    }
    for (n, _) in &m.defs {
        let Some(t) = after.get(&format!("/{}.avsc", simple(n))) else { fail!(data(n), "no file for the type {n}") };
        let Ok(v) = serde_json::from_slice::<Value>(t) else { fail!(data(n), "not JSON") };
        let one = Meaning { head: Head::Schema(json!({"ref": n})), defs: m.defs.clone(), messages: Default::default(), undecided: false, warnings: vec![] };
        if let Err(e) = ar::read_schema(&v).and_then(|d| ar::compare(&one, &d)) {
            fail!(data(&e), "the file of {n} does not state the type");
        }
    }
    Ok(())
}

pub fn run(cx: &mut Cx) {
    let np = PLACES.len();
    // 1. every content in every place, singly and by pairs and triples of places
    let kinds = [Valid, Warn, Imports, Nested, Syntax, Undefined, Schema, Bare, Empty, BadImport];
    let few = [Valid, Warn, Undefined, Imports];
    let mut k = 0;
    for i in 0..np {
        for a in kinds {
            for out in 0..6 {
                let mut at = vec![Absent; np];
                at[i] = a;
                cx.case(|c| dir_case(c, &at, out));
            }
            for j in i + 1..np {
                for b in kinds {
                    k += 1;
                    let mut at = vec![Absent; np];
                    at[i] = a;
                    at[j] = b;
                    cx.case(|c| dir_case(c, &at, k % 6));
                }
            }
        }
    }
    for i in 0..np {
        for j in i + 1..np {
            for l in j + 1..np {
                let ks: &[Con] = cx.pick(&few[1..3], &few);
                for &a in ks {
                    for &b in ks {
                        for &d in ks {
                            k += 1;
                            let mut at = vec![Absent; np];
                            at[i] = a;
                            at[j] = b;
                            at[l] = d;
                            cx.case(|c| dir_case(c, &at, k % 6));
                        }
                    }
                }
            }
        }
    }
    // 2. every subset of places, all valid, and with one failing
    for s in 0..1usize << np {
        if !cx.thorough() && s % 4 != 1 {
            continue;
        }
        let at: Vec<Con> = (0..np).map(|i| if s >> i & 1 == 1 { [Valid, Warn, Nested][i % 3] } else { Absent }).collect();
        cx.case(|c| dir_case(c, &at, s % 6));
        if let Some(i) = at.iter().rposition(|x| *x != Absent) {
            let mut at = at.clone();
            at[i] = Undefined;
            cx.case(|c| dir_case(c, &at, s % 6));
        }
    }
    // 3. single files
    for f in files() {
        cx.case(|c| file_case(c, &f));
    }
    // types with one simple name in different namespaces share one file
    cx.case(|c| {
        let f = protocol(Some("a"), vec![Item::Named(enm("T", &["A"])), Item::Named(Named { name: "b.T".into(), ..enm("T", &["B"]) })]);
        file_case(c, &f).map_err(|e| e.key("two types of one simple name"))
    });
    // the library returns each of them
    for n in 2..5usize {
        for ns in 0..3 {
            for other in [false, true] {
                cx.case(|c| {
                    let spaces = ["a", "b", "c.d", "T"];
                    let mut items: Vec<Item> = (0..n)
                        .map(|i| {
                            let k = (i + ns) % 3;
                            let name = format!("{}.T", spaces[i]);
                            Item::Named(match k {
                                0 => Named { name, ..enm("T", &["A"]) },
                                1 => Named { name, ..fixed("T", 2) },
                                _ => Named { name, ..record("T", vec![field(prim("int"), "f")]) },
                            })
                        })
                        .collect();
                    if other {
                        items.insert(1, Item::Named(enm("U", &["A"])));
                    }
                    for f in [protocol([None, Some("a"), Some("z")][ns], items.clone()), schema_file([None, Some("a"), Some("z")][ns], None, items)] {
                        crate::judge::judge_schemata(c, &render(&f), &eval::evaluate(&f))?;
                    }
                    Ok(())
                });
            }
        }
    }
    // 4. places where writing fails
    for (n, set) in [("a file in place of the directory", 0), ("a directory in place of a file", 1), ("a file in place of a parent", 2)] {
        cx.case(|c| {
            let root = c.scratch().join("w");
            let _ = std::fs::remove_dir_all(&root);
            std::fs::create_dir_all(&root).unwrap();
            std::fs::write(root.join("m.avdl"), "protocol P { enum A { X } enum B { Y } }").unwrap();
            let out = match set {
                0 => {
                    std::fs::write(root.join("out"), "x").unwrap();
                    "out"
                }
                1 => {
                    std::fs::create_dir_all(root.join("out/B.avsc")).unwrap();
                    "out"
                }
                _ => {
                    std::fs::write(root.join("out"), "x").unwrap();
                    "out/sub"
                }
            };
            let r = run_cli(&root, &["idl2schemata", "m.avdl", out], b"", None).unwrap();
            c.state(n);
            c.trace();
            if r.code == Some(0) || r.err.trim().is_empty() {
                fail!(json!({"situation": n, "status": r.code, "stderr": r.err}), "a failure to write is not reported");
            }
            if set != 1 && std::fs::read(root.join("out")).ok().as_deref() != Some(b"x") {
                fail!(json!({"situation": n}), "the file in the way is changed");
            }
            Ok(())
        });
    }
    for k in 6..11 {
        cx.case(|c| denied(c, k));
    }
    cx.note("places", np);
    cx.note("contents", kinds.len());
}

fn files() -> Vec<File> {
    let mut out = vec![];
    let decls: Vec<Item> = vec![
        Item::Named(record("R", vec![field(rf("E"), "e"), field(arr(rf("n.F")), "f")])),
        Item::Named(enm("E", &["A"])),
        Item::Named(Named { name: "n.F".into(), ..fixed("F", 3) }),
        Item::Named(error("X", vec![field(nul(rf("X")), "x")])),
        Item::Named(record("S", vec![field(rf("R"), "r"), field(rf("E"), "e")])),
    ];
    for s in 1..1usize << decls.len() {
        let items: Vec<Item> = decls.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|x| x.1.clone()).collect();
        for ns in [None, Some("n"), Some("a.b")] {
            out.push(protocol(ns, items.clone()));
            out.push(schema_file(ns, None, items.clone()));
            out.push(schema_file(ns, Some(prim("int")), items.iter().rev().cloned().collect()));
        }
    }
    out
}
