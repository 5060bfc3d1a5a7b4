//! C12: results depend on the input alone, never on what happened before.
//!
//! Every sequence of operations on one compiler object is run against a state machine holding
//! only the import directories and the warnings that may still be drained; what each compilation
//! must give is stated by hand and must equal what a fresh object gives.
use crate::drv::{self, diag};
use crate::engine::{Case, Cx, Res};
use crate::fail;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn cli() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("avdl")
}

const FILES: &[(&str, &str)] = &[
    ("good.avdl", "protocol Good { record Rg { int a; } void m(Rg r); }"),
    ("warn.avdl", "protocol Warn { @aliases([\"b-a\"]) record Rw { int a; } /** o */ }"),
    ("impwarn.avdl", "protocol IW { /** o */ import idl \"warn.avdl\"; record Riw { Rw r; } }"),
    ("lib.avdl", "protocol UseLib { import idl \"x/l.avdl\"; record Rl { L l; } }"),
    ("d1/x/l.avdl", "protocol L1 { enum L { FROM_D1 } }"),
    ("d2/x/l.avdl", "protocol L2 { enum L { FROM_D2 } /** o */ }"),
    ("syn.avdl", "protocol S { /** o */ record { } # }"),
    ("res.avdl", "protocol S { /** o */ } "),
    ("undef.avdl", "protocol U { /** o */ import idl \"good.avdl\"; record Ru { Nope a; Other b; Third c; } void m(Fourth x) throws Fifth; }"),
    ("impbad.avdl", "protocol IB { /** o */ import idl \"warn.avdl\"; import idl \"nowhere.avdl\"; }"),
    ("dup.avdl", "protocol D { import idl \"good.avdl\"; record Rg { } }"),
    ("badname.avdl", "protocol D { /** o */ record Rn { int a; int a; } }"),
    ("named.avdl", "record Nm { int a; } /** o */"),
    ("json.avdl", "protocol J { import schema \"s.avsc\"; import protocol \"p.avpr\"; record Rj { Sj s; Pj p; } }"),
    ("s.avsc", "{\"type\":\"fixed\",\"name\":\"Sj\",\"size\":4,\"z\":1,\"y\":2,\"x\":3}"),
    ("p.avpr", "{\"protocol\":\"Pp\",\"types\":[{\"type\":\"enum\",\"name\":\"Pj\",\"symbols\":[\"A\"]}],\"messages\":{\"b\":{\"request\":[],\"response\":\"Pj\"},\"a\":{\"request\":[],\"response\":\"null\"}}}"),
    ("jbad.avdl", "protocol JB { /** o */ import schema \"bad.avsc\"; }"),
    ("bad.avsc", "{\"type\":\"record\",\"name\":\"Bj\",\"fields\":[{\"name\":\"f\",\"type\":\"NoSuch\"}]}"),
    ("dir/a.avdl", "protocol DA { record Da { } /** o */ }"),
    ("dir/sub/b.avdl", "record Db { } @aliases([\"b-b\"]) record Dc { }"),
    ("dir/c.txt", "not idl"),
    ("direm/notes.txt", "protocol N { /** o */ }"),
    ("dirbad/a.avdl", "protocol DA { record Da { } /** o */ }"),
    ("dirbad/b.avdl", "protocol DB { record Dx { Nope n; } /** o */ }"),
    ("dirbad/c.avdl", "protocol DC { /** o */ }"),
];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Op {
    Dir(&'static str),
    Drain,
    Path(&'static str),
    Str(&'static str),
}
use Op::*;

const OPS: &[Op] = &[
    Path("good.avdl"),
    Path("warn.avdl"),
    Path("lib.avdl"),
    Path("undef.avdl"),
    Path("impbad.avdl"),
    Path("syn.avdl"),
    Dir("d1"),
    Dir("d2"),
    Drain,
    Path("impwarn.avdl"),
    Path("dup.avdl"),
    Path("badname.avdl"),
    Path("named.avdl"),
    Path("json.avdl"),
    Path("jbad.avdl"),
    Path("missing.avdl"),
    Path("dir"),
    Path("dirbad"),
    Path("direm"),
    Path("dirgone"),
    Str("good.avdl"),
    Str("warn.avdl"),
    Str("res.avdl"),
    Str("syn.avdl"),
    Str("impbad.avdl"),
];

enum Obj {
    I(avdl::Idl),
    S(avdl::Idl2Schemata),
}

#[derive(Clone, PartialEq, Debug)]
struct Obs {
    res: Result<String, String>,
    warnings: Vec<String>,
}

impl Obj {
    fn new(s: bool) -> Obj {
        if s { Obj::S(avdl::Idl2Schemata::new()) } else { Obj::I(avdl::Idl::new()) }
    }
    fn dir(&mut self, d: &Path) {
        match self {
            Obj::I(i) => {
                i.import_dir(d);
            }
            Obj::S(i) => {
                i.import_dir(d);
            }
        }
    }
    fn drain(&mut self) -> Vec<String> {
        let w = match self {
            Obj::I(i) => i.drain_warnings(),
            Obj::S(i) => i.drain_warnings(),
        };
        w.iter().map(|w| diag(w).all()).collect()
    }
    fn call(&mut self, root: &Path, op: Op, text: &dyn Fn(&str) -> &'static str) -> Obs {
        let r = match (self, op) {
            (Obj::I(i), Path(p)) => i.convert(root.join(p)).map(|o| (o.json.to_string(), o.warnings)),
            (Obj::I(i), Str(p)) => i.convert_str_named(text(p), "text").map(|o| (o.json.to_string(), o.warnings)),
            (Obj::S(i), Path(p)) => i.extract(root.join(p)).map(|o| (format!("{:?}", o.schemas.iter().map(|s| (&s.name, s.schema.to_string())).collect::<Vec<_>>()), o.warnings)),
            (Obj::S(i), Str(p)) => i.extract_str_named(text(p), "text").map(|o| (format!("{:?}", o.schemas.iter().map(|s| (&s.name, s.schema.to_string())).collect::<Vec<_>>()), o.warnings)),
            _ => panic!(),
        };
        match r {
            Ok((j, w)) => Obs { res: Ok(j), warnings: w.iter().map(|w| diag(w).all()).collect() },
            Err(e) => Obs { res: Err(diag(&e).all()), warnings: vec![] },
        }
    }
}

/// What a compilation must give, stated independently of the compiler: success with a number of
/// warnings and words of the output, or failure with a number of warnings left to drain.
fn spec(schemata: bool, op: Op, dirs: &[&str]) -> (bool, usize, &'static str) {
    match op {
        Path(p) => match p {
            "good.avdl" => (true, 0, "Rg"),
            "warn.avdl" => (true, 2, "Rw"),
            "impwarn.avdl" => (true, 3, "Riw"),
            "lib.avdl" => match dirs.first() {
                None => (false, 0, "x/l.avdl"),
                Some(&"d1") => (true, 0, "FROM_D1"),
                Some(_) => (true, 1, "FROM_D2"),
            },
            "undef.avdl" => (false, 1, "Nope"),
            "impbad.avdl" => (false, 3, "nowhere.avdl"),
            "dup.avdl" => (false, 0, "Rg"),
            "syn.avdl" => (false, 0, "1:29"),
            // the file's own warnings are lost with it, as for a syntax error
            "badname.avdl" => (false, 0, "a"),
            "named.avdl" => (schemata, 1, if schemata { "Nm" } else { "neither" }),
            "json.avdl" => (true, 0, "Rj"),
            "jbad.avdl" => (false, 1, "NoSuch"),
            "missing.avdl" => (false, 0, "missing.avdl"),
            "dir" if schemata => (true, 2, "Dc"),
            "dir" => (false, 0, "dir"),
            "dirbad" if schemata => (false, 2, "Nope"),
            "dirbad" => (false, 0, "dirbad"),
            // nothing to extract; a dangling link among the files
            "direm" if schemata => (true, 0, ""),
            "direm" => (false, 0, "direm"),
            "dirgone" => (false, 0, "gone"),
            _ => panic!("{p}"),
        },
        Str(p) => match p {
            "good.avdl" => (true, 0, if schemata { "Rg" } else { "Good" }),
            "warn.avdl" => (true, 2, "Rw"),
            "res.avdl" => (true, 1, ""),
            "syn.avdl" => (false, 0, "1:29"),
            // imports of a text are looked up in the working directory, which has none
            "impbad.avdl" => (false, 1, "warn.avdl"),
            _ => panic!("{p}"),
        },
        _ => panic!(),
    }
}

struct Env {
    root: PathBuf,
    texts: HashMap<&'static str, &'static str>,
    fresh: HashMap<(bool, Op, Vec<&'static str>), (Obs, Vec<String>)>,
}

impl Env {
    fn new(dir: &Path) -> Env {
        let root = dir.join("c12");
        let mut texts = HashMap::new();
        for (n, t) in FILES {
            let p = root.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, t).unwrap();
            texts.insert(*n, drv::leak(t));
        }
        let _ = std::fs::create_dir_all(root.join("dirgone"));
        let _ = std::os::unix::fs::symlink("nowhere.avdl", root.join("dirgone/gone.avdl"));
        Env { root, texts, fresh: HashMap::new() }
    }
    fn fresh(&mut self, s: bool, op: Op, dirs: &[&'static str]) -> (Obs, Vec<String>) {
        let k = (s, op, dirs.to_vec());
        if let Some(x) = self.fresh.get(&k) {
            return x.clone();
        }
        let mut o = Obj::new(s);
        for d in dirs {
            o.dir(&self.root.join(d));
        }
        let r = o.call(&self.root, op, &|p| self.texts[p]);
        let d = o.drain();
        self.fresh.insert(k, (r.clone(), d.clone()));
        (r, d)
    }
}

fn sequence(c: &mut Case, env: &mut Env, s: bool, ops: &[Op]) -> Res {
    let mut o = Obj::new(s);
    let mut dirs: Vec<&'static str> = vec![];
    let mut pending: Vec<String> = vec![];
    let data = |i: usize, what: Value| json!({"object": if s { "Idl2Schemata" } else { "Idl" }, "operations": format!("{:?}", &ops[..=i]), "detail": what});
    c.state(&(s, ops));
    c.steps(ops.len());
    crate::engine::note_input(&format!("{s} {ops:?}"));
    for (i, op) in ops.iter().enumerate() {
        match op {
            Dir(d) => {
                o.dir(&env.root.join(d));
                dirs.push(d);
            }
            Drain => {
                let got = o.drain();
                if got != pending {
                    fail!(data(i, json!({"got": got, "want": pending})), "draining gives other warnings than the last call left");
                }
                pending.clear();
            }
            _ => {
                let got = o.call(&env.root, *op, &|p| env.texts[p]);
                let (want, left) = env.fresh(s, *op, &dirs);
                if got != want {
                    fail!(data(i, json!({"got": format!("{got:#?}"), "fresh": format!("{want:#?}")})), "the result differs from that of a fresh object with the same import directories");
                }
                let (ok, n, word) = spec(s, *op, &dirs);
                let text = match &got.res {
                    Ok(x) | Err(x) => x,
                };
                if got.res.is_ok() != ok || !text.contains(word) {
                    fail!(data(i, json!({"got": format!("{got:#?}")})), "expected {} mentioning {word:?}", if ok { "success" } else { "failure" });
                }
                let have = if ok { got.warnings.len() } else { left.len() };
                if have != n || ok && !left.is_empty() {
                    fail!(data(i, json!({"warnings": got.warnings, "left": left})), "{have} warnings instead of {n}");
                }
                pending = left;
                c.outcome(text);
            }
        }
        c.trace();
    }
    Ok(())
}

fn sequences(cx: &mut Cx, alpha: &[Op], depth: usize) {
    let mut env: Option<Env> = None;
    for s in [false, true] {
        for n in 1..=depth {
            let total = alpha.len().pow(n as u32);
            for x in 0..total {
                if cx.done() {
                    return;
                }
                cx.case(|c| {
                    let mut y = x;
                    let mut ops = vec![];
                    for _ in 0..n {
                        ops.push(alpha[y % alpha.len()]);
                        y /= alpha.len();
                    }
                    let env = env.get_or_insert_with(|| Env::new(c.scratch()));
                    sequence(c, env, s, &ops)
                });
            }
        }
    }
}

/// Programs whose compilation collects many entries of every keyed collection.
fn many(n: usize) -> Vec<(String, String)> {
    let names = ["zeta", "Alpha", "mid", "beta", "x1", "Omega", "k", "_u", "été", "Q9"];
    let nm: Vec<&str> = names.iter().copied().take(n).collect();
    let each = |f: &dyn Fn(usize, &str) -> String| nm.iter().enumerate().map(|(i, s)| f(i, s)).collect::<String>();
    let anns = each(&|i, s| format!("@a{s}({i}) "));
    let obj = format!("{{{}}}", nm.iter().enumerate().map(|(i, s)| format!("\"{s}\": {i}")).collect::<Vec<_>>().join(", "));
    vec![
        ("messages".into(), format!("protocol P {{ {} }}", each(&|_, s| format!("void {s}(); ")))),
        ("types".into(), format!("protocol P {{ {} }}", each(&|_, s| format!("record T{s} {{ int a; }} ")))),
        ("annotations".into(), format!("{anns} protocol P {{ {anns} record R {{ {anns} int {anns} f; {anns} array<{anns} int> g; }} {anns} enum E {{ A }} {anns} fixed F(1); {anns} void m({anns} int {anns} p); }}")),
        ("undefined".into(), format!("protocol P {{ record R {{ {} }} {} }}", each(&|i, s| format!("{s}x f{i}; ")), each(&|i, s| format!("{s}y m{i}({s}z p) throws {s}w; ")))),
        ("undefined in nested".into(), format!("protocol P {{ record R {{ union {{ null {} }} u; map<array<{}x>> v; }} }}", each(&|_, s| format!(", {s}")), nm.first().unwrap_or(&"a"))),
        ("bad defaults".into(), format!("protocol P {{ enum E {{ A }} record R {{ {} }} }}", each(&|i, _| format!("E f{i} = 1; ")))),
        ("bad record defaults".into(), format!("protocol P {{ record E {{ {} }} record R {{ E e = {{}}; }} }}", each(&|i, _| format!("int f{i}; ")))),
        ("dropped annotations".into(), format!("protocol P {{ record R {{ {anns} union {{ int, string }} u; }} }}")),
        ("aliases".into(), format!("protocol P {{ @aliases([{}]) record R {{}} }}", nm.iter().map(|s| format!("\"{s}-\"")).collect::<Vec<_>>().join(", "))),
        ("similar names".into(), format!("protocol P {{ {} record R {{ Taa x; }} }}", ["Tab", "Tac", "Tba", "Tca", "Tad", "Tda", "Tae", "Tea", "Taf", "Tfa"].iter().take(n).map(|s| format!("enum {s} {{}} ")).collect::<String>())),
        ("default object".into(), format!("protocol P {{ record R {{ map<int> m = {obj}; @o({obj}) int i; }} }}")),
        ("duplicates".into(), format!("protocol P {{ record R {{ {} {} }} }}", each(&|_, s| format!("int {s}; ")), each(&|_, s| format!("int {s}; ")))),
        ("syntax".into(), format!("protocol P {{ {} }}", each(&|_, s| format!("record {s} {{ int; }} ")))),
        ("schema".into(), format!("schema union {{ null {} }}; {}", each(&|_, s| format!(", T{s}")), each(&|_, s| format!("record T{s} {{ array<T{s}> a; }} ")))),
        ("errors".into(), format!("protocol P {{ {} void m() throws {}; }}", each(&|_, s| format!("error T{s} {{}} ")), nm.iter().map(|s| format!("T{s}")).collect::<Vec<_>>().join(", "))),
    ]
}

fn repeated(cx: &mut Cx) {
    let again = cx.pick(16, 64);
    let procs = cx.pick(3, 12);
    for n in 1..=10 {
        for (name, src) in many(n) {
            cx.case(|c| {
                c.state(&src);
                let obs = |s: bool| {
                    let mut o = Obj::new(s);
                    let text = drv::leak(&src);
                    let r = o.call(Path::new("/"), Str("x"), &|_| text);
                    (r, o.drain())
                };
                for s in [false, true] {
                    let first = obs(s);
                    for _ in 1..again {
                        let x = obs(s);
                        c.trace();
                        if x != first {
                            fail!(json!({"input": src, "what": name, "first": format!("{first:#?}"), "later": format!("{x:#?}")}), "two compilations of one text differ");
                        }
                    }
                    c.outcome(&format!("{first:?}"));
                }
                let f = c.scratch().join("rep.avdl");
                std::fs::write(&f, &src).unwrap();
                let mut first = None;
                for _ in 0..procs {
                    let o = Command::new(cli()).arg("idl").arg(&f).output().unwrap();
                    let x = (o.status.code(), o.stdout, o.stderr);
                    c.trace();
                    match &first {
                        None => first = Some(x),
                        Some(y) if *y != x => {
                            fail!(json!({"input": src, "what": name, "first": format!("{:?}\n{}", y.0, String::from_utf8_lossy(&[&y.1[..], &y.2[..]].concat())), "later": format!("{:?}\n{}", x.0, String::from_utf8_lossy(&[&x.1[..], &x.2[..]].concat()))}), "two processes compiling one text differ");
                        }
                        _ => {}
                    }
                }
                Ok(())
            });
        }
    }
    // many files imported, with messages, from JSON and IDL
    for n in 1..=6usize {
        for kind in 0..3 {
            cx.case(|c| {
                let root = c.scratch().join("imp");
                let _ = std::fs::remove_dir_all(&root);
                std::fs::create_dir_all(&root).unwrap();
                let mut src = String::from("protocol P { void own(); ");
                for i in 0..n {
                    let (k, ext, text) = match kind {
                        0 => ("protocol", "avpr", format!(r#"{{"protocol":"Q{i}","types":[{{"type":"record","name":"R{i}","z":1,"a":2,"m":{{"y":1,"b":2}},"fields":[{{"name":"f","type":"Missing{i}","q":1,"c":2}}]}}],"messages":{{"m{i}":{{"request":[],"response":"null"}},"b{i}":{{"request":[],"response":"Gone{i}"}},"a{i}":{{"request":[],"response":"null"}}}}}}"#)),
                        1 => ("idl", "avdl", format!("protocol Q{i} {{ void m{i}(); Gone{i} b{i}(Other{i} z) throws E{i}; void a{i}(); /** o */ }}")),
                        _ => ("protocol", "avpr", format!(r#"{{"protocol":"Q{i}","types":[{{"type":"record","name":"R{i}","z":1,"a":2,"m":{{"y":1,"b":2}},"fields":[{{"name":"f","type":"int","q":1,"c":2}}]}}],"messages":{{"m{i}":{{"request":[],"response":"null"}},"b{i}":{{"request":[],"response":"null"}},"same":{{"request":[],"response":"R{i}"}}}}}}"#)),
                    };
                    std::fs::write(root.join(format!("f{i}.{ext}")), text).unwrap();
                    src += &format!("import {k} \"f{i}.{ext}\"; ");
                }
                src.push('}');
                std::fs::write(root.join("m.avdl"), &src).unwrap();
                c.state(&(n, kind, "imports"));
                for s in [false, true] {
                    let mut first = None;
                    for _ in 0..again {
                        let mut o = Obj::new(s);
                        let r = o.call(&root, Path("m.avdl"), &|_| "");
                        let x = (r, o.drain());
                        c.trace();
                        match &first {
                            None => first = Some(x),
                            Some(y) if *y != x => {
                                fail!(json!({"input": src, "first": format!("{y:#?}"), "later": format!("{x:#?}")}), "two compilations of the same files differ");
                            }
                            _ => {}
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

/// Files that change between compilations: (file, its versions; absent).
const EDITED: &[(&str, &[&str])] = &[
    ("g.avdl", &["protocol G { enum Ga { G_0 } }", "protocol G { enum Ga { G_1 } }", "protocol G { /** o */ ", ""]),
    ("s.avsc", &["{\"type\":\"fixed\",\"name\":\"Fs\",\"size\":1}", "{\"type\":\"fixed\",\"name\":\"Fs\",\"size\":2}", "{\"type\":\"fixed\",\"name\":\"Fs\",\"size\":x}", ""]),
    ("p.avpr", &["{\"protocol\":\"P\",\"messages\":{\"a\":{\"request\":[],\"response\":\"null\"}}}", "{\"protocol\":\"P\",\"messages\":{\"b\":{\"request\":[],\"response\":\"null\"}}}", "", ""]),
    ("x/l.avdl", &["", "protocol L { enum L { L_0 } }", "", ""]),
    ("d1/x/l.avdl", &["protocol L { enum L { L_1 } }", "protocol L { enum L { L_2 } }", "", ""]),
    ("e.avdl", &["protocol E { import idl \"g.avdl\"; import schema \"s.avsc\"; import protocol \"p.avpr\"; import idl \"x/l.avdl\"; record Re { Ga g; Fs f; L l; } }", "protocol E { import idl \"x/l.avdl\"; import idl \"g.avdl\"; record R2 { Ga g; Li l; } }", "", ""]),
];
type Tree = [u8; 6];

fn put(root: &Path, f: usize, v: usize) {
    let p = root.join(EDITED[f].0);
    let t = EDITED[f].1[v];
    if t.is_empty() {
        let _ = std::fs::remove_file(&p);
        return;
    }
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, t).unwrap();
    // (as after a checkout that keeps times: contents alone tell the versions apart)
    let f = std::fs::File::options().write(true).open(&p).unwrap();
    f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)).unwrap();
}

/// `avdl-mc fresh <root> <file> <0|1>`: one compilation in a process of its own.
pub fn fresh_main(a: &[String]) -> i32 {
    let root = PathBuf::from(&a[0]);
    std::env::set_current_dir(&root).unwrap();
    let mut o = Obj::new(a[2] == "1");
    o.dir(&root.join("d1"));
    let (r, d) = compile_edited(&mut o, &root, &a[1]);
    println!("{}", json!([r.res.is_ok(), match r.res { Ok(x) | Err(x) => x }, r.warnings, d]));
    0
}
/// A file, or ("-file") its text read from it, with imports found from the working directory.
fn compile_edited(o: &mut Obj, root: &Path, what: &str) -> (Obs, Vec<String>) {
    let r = match what.strip_prefix('-') {
        Some(f) => {
            let t = std::fs::read_to_string(root.join(f)).unwrap_or_default();
            o.call(root, Str("x"), &|_| drv::leak(&t))
        }
        None => match EDITED.iter().find(|e| e.0 == what) {
            Some(e) => o.call(root, Path(e.0), &|_| ""),
            None => panic!(),
        },
    };
    (r, o.drain())
}

/// Compilations with changes to the files between them: each result is that of a new process.
fn edited(cx: &mut Cx) {
    #[derive(Clone, Copy, Debug)]
    enum E {
        Put(usize, usize),
        Run(&'static str),
    }
    let runs = [E::Run("e.avdl"), E::Run("-e.avdl"), E::Run("g.avdl")];
    let mut puts = vec![];
    for (f, (_, vs)) in EDITED.iter().enumerate() {
        for v in 0..vs.len() {
            if v == 0 || !vs[v].is_empty() || !vs[v - 1].is_empty() {
                puts.push(E::Put(f, v));
            }
        }
    }
    let all: Vec<E> = runs.iter().chain(&puts).copied().collect();
    let mut seqs: Vec<Vec<E>> = vec![];
    for r in runs {
        for a in &all {
            for b in &all {
                for r2 in runs {
                    seqs.push(vec![r, *a, *b, r2]);
                    if cx.thorough() {
                        for p in &puts {
                            for r3 in runs {
                                seqs.push(vec![r, *a, *b, r2, *p, r3]);
                            }
                        }
                    }
                }
            }
        }
    }
    for a in &puts {
        for b in &puts {
            for d in &puts {
                seqs.push(vec![runs[0], *a, runs[0], *b, runs[0], *d, runs[0]]);
            }
        }
    }
    cx.note("sequences of compilations and changes of files", seqs.len() * 4);
    let mut fresh: HashMap<(Tree, &'static str, bool), Value> = HashMap::new();
    for q in &seqs {
        for mode in 0..4 {
            // one object for all compilations, or one for each
            let (s, own) = (mode & 1 == 1, mode & 2 == 2);
            if cx.done() {
                return;
            }
            cx.case(|c| {
                let root = c.scratch().join("edited");
                let mut tree: Tree = [0; 6];
                for f in 0..EDITED.len() {
                    put(&root, f, 0);
                }
                std::env::set_current_dir(&root).unwrap();
                let make = || {
                    let mut o = Obj::new(s);
                    o.dir(&root.join("d1"));
                    o
                };
                let mut o = make();
                c.state(&(format!("{q:?}"), s, own));
                c.steps(q.len());
                crate::engine::note_input(&format!("{q:?} {s} {own}"));
                for (i, op) in q.iter().enumerate() {
                    match op {
                        E::Put(f, v) => {
                            put(&root, *f, *v);
                            tree[*f] = *v as u8;
                        }
                        E::Run(w) => {
                            if own {
                                o = make();
                            }
                            let (r, d) = compile_edited(&mut o, &root, w);
                            let got = json!([r.res.is_ok(), match r.res { Ok(x) | Err(x) => x }, r.warnings, d]);
                            let want = fresh.entry((tree, w, s)).or_insert_with(|| {
                                let o = Command::new(std::env::current_exe().unwrap()).arg("fresh").arg(&root).arg(w).arg(if s { "1" } else { "0" }).output().unwrap();
                                serde_json::from_slice(&o.stdout).unwrap_or(Value::Null)
                            });
                            c.trace();
                            c.count("compilations after changes of files");
                            c.outcome(&got.to_string());
                            if got != *want {
                                fail!(json!({"operations": format!("{:?}", &q[..=i]), "files": EDITED.iter().map(|e| format!("{}: {:?}", e.0, e.1)).collect::<Vec<_>>(), "object": if s { "Idl2Schemata" } else { "Idl" }, "one object for each compilation": own, "got": got, "in a new process": want}), "the result differs from that of a new process");
                            }
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

pub fn run(cx: &mut Cx) {
    repeated(cx);
    edited(cx);
    let d = cx.pick(3, 4);
    sequences(cx, OPS, d);
    let few: &[Op] = cx.pick(&OPS[..9], &OPS[..9]);
    let d2 = cx.pick(4, 6);
    sequences(cx, few, d2);
    cx.note("operations", OPS.len());
    cx.note("sequence_depth_all_operations", d);
    cx.note("sequence_depth_nine_operations", d2);
}
