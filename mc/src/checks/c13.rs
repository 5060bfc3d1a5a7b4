//! C13: the warnings of a compilation are complete, in order and given once.
//!
//! All import graphs over three files, each with its own set of warnings, with a fault at any
//! place, are compiled; a small model says which warnings must have been collected when.
use super::c12::cli;
use crate::drv::{self, Diag};
use crate::engine::{Case, Cx, Res};
use crate::fail;
use serde_json::{Value, json};
use std::path::Path;
use std::process::Command;

/// Kinds of warnings in the order in which one file reports them.
#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Lex,
    Orphan,
    Alias,
    FieldAlias,
    Union,
    MsgUnion,
}
use W::*;
const SETS: &[&[W]] = &[
    &[],
    &[Orphan],
    &[Alias],
    &[Lex, Union],
    &[Orphan, Orphan, FieldAlias],
    &[Lex, Lex, Orphan, Alias, FieldAlias, Union, MsgUnion],
    &[MsgUnion],
    &[Union, Union],
    &[Lex],
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Syntax(usize),
    BadName(usize),
    /// before / after the imports of the file
    Missing(usize, bool),
    Undefined(usize),
    Dup(usize, bool),
    Default(usize),
}
use Fault::*;

const NAMES: [&str; 3] = ["main", "fa", "fb"];
/// The same, with imported files of one name in different directories.
const SAME: [&str; 3] = ["main", "fa/x", "fb/x"];
fn path(same: bool, i: usize) -> &'static str {
    if same { SAME[i] } else { NAMES[i] }
}
/// How file `i` names file `j` in an import.
fn import_of(same: bool, i: usize, j: usize) -> String {
    let up = if same && i > 0 { "../" } else { "" };
    format!("{up}{}.avdl", path(same, j))
}

struct Built {
    text: String,
    /// (words of the text, line) of every warning
    warns: Vec<Vec<String>>,
}

fn build(i: usize, form: usize, imports: &[usize], ws: &[W], fault: Fault, plain: bool, same: bool) -> Built {
    let n = NAMES[i];
    // what the warnings name
    let v = if same { "one" } else { n };
    let mut lines: Vec<String> = vec![];
    // different files give different positions
    for _ in 0..if same { 0 } else { i * 40 } {
        lines.push(String::new());
    }
    lines.push(match form {
        0 => format!("protocol P{i} {{"),
        1 => String::new(),
        2 => format!("namespace s{i};"),
        _ => "schema map<int>;".into(),
    });
    let mut warns = vec![];
    let mut lex = vec![];
    let mut orphans = vec![];
    let mut rest = vec![];
    let mut decl = vec![];
    for (k, w) in ws.iter().enumerate() {
        if plain {
            decl.push(match w {
                Lex => String::new(),
                Orphan => format!("record O{n}{k} {{ }}"),
                Alias => format!("record A{n}{k} {{ }}"),
                FieldAlias => format!("record A{n}{k} {{ int f; }}"),
                Union => format!("record A{n}{k} {{ union {{ int, null }} u; }}"),
                MsgUnion => format!("void m{n}{k}(union {{ int, null }} u);"),
            });
            continue;
        }
        decl.push(match w {
            Lex => "#".into(),
            Orphan => format!("record O{n}{k} {{ /** {n} {k} */ }}"),
            Alias => format!("@aliases([\"{v}-{k}\"]) record A{n}{k} {{ }}"),
            FieldAlias => format!("record A{n}{k} {{ int @aliases([\"{v}-{k}\", \"ok\"]) f; }}"),
            Union => format!("record A{n}{k} {{ @u{v}{k}(1) union {{ int, null }} u; }}"),
            MsgUnion => format!("void m{n}{k}(@u{v}{k}(1) union {{ int, null }} u);"),
        });
    }
    let imp: Vec<String> = imports.iter().map(|j| format!("import idl \"{}\";", import_of(same, i, *j))).collect();
    let f: (Vec<String>, Vec<String>) = match fault {
        Syntax(x) if x == i => (vec!["record { }".into()], vec![]),
        BadName(x) if x == i => (vec![], vec![format!("record Bad{n} {{ int q; int q; }}")]),
        Missing(x, b) if x == i => {
            let l = format!("import idl \"missing{n}.avdl\";");
            if b { (vec![l], vec![]) } else { (vec![], vec![l]) }
        }
        Undefined(x) if x == i => (vec![format!("record U{n} {{ Undefined{n} u; }}")], vec![]),
        Dup(x, b) if x == i => {
            let l = format!("record D{n} {{ }}");
            if b { (vec![l.clone(), l], vec![]) } else { (vec![l.clone()], vec![l]) }
        }
        Default(x) if x == i => (vec![], vec![format!("enum E{n} {{ A }}"), format!("record D{n} {{ E{n} e = 3; }}")]),
        _ => (vec![], vec![]),
    };
    let head = |lines: &mut Vec<String>| lines.extend(f.0.iter().cloned());
    head(&mut lines);
    // declarations between the imports
    for l in imp.iter().take(1) {
        lines.push(l.clone());
    }
    for (k, d) in decl.iter().enumerate() {
        lines.push(d.clone());
        if !plain {
            let line = lines.len();
            match ws[k] {
                Lex => lex.push(vec!["token recognition error".to_string(), format!("line {line}:0")]),
                Orphan => orphans.push(vec![format!("Line {line}, char {}:", d.find("/**").unwrap() + 1)]),
                Alias | FieldAlias => rest.push((matches!(ws[k], MsgUnion), vec![format!("\"{v}-{k}\"")])),
                Union | MsgUnion => rest.push((matches!(ws[k], MsgUnion), vec!["union".into(), format!("u{v}{k}")])),
            }
        }
    }
    for l in imp.iter().skip(1) {
        lines.push(l.clone());
    }
    lines.extend(f.1.iter().cloned());
    if form == 0 {
        lines.push("}".into());
    }
    warns.extend(lex);
    warns.extend(orphans);
    warns.extend(rest.into_iter().map(|x| x.1));
    Built { text: lines.join("\n") + "\n", warns }
}

struct Scene {
    graph: Vec<Vec<usize>>,
    sets: Vec<usize>,
    fault: Fault,
    same: bool,
    /// 0: a protocol; 1, 2: named types; 3: with a main schema
    forms: [usize; 3],
}

impl Scene {
    fn files(&self, plain: bool) -> Vec<Built> {
        (0..3).map(|i| build(i, self.forms[i], &self.graph[i], SETS[self.sets[i]], self.fault, plain, self.same)).collect()
    }
    /// (succeeds, (file, words) of the warnings in order)
    fn expect(&self, files: &[Built]) -> (bool, Vec<(usize, Vec<String>)>) {
        let mut seen = vec![];
        let mut out = vec![];
        let ok = self.visit(0, files, &mut seen, &mut out);
        // undefined names are found at the end
        let undef = matches!(self.fault, Undefined(x) if seen.contains(&x));
        (ok && !undef, out)
    }
    fn visit(&self, i: usize, files: &[Built], seen: &mut Vec<usize>, out: &mut Vec<(usize, Vec<String>)>) -> bool {
        seen.push(i);
        if matches!(self.fault, Syntax(x) | BadName(x) if x == i) {
            return false;
        }
        out.extend(files[i].warns.iter().map(|w| (i, w.clone())));
        if matches!(self.fault, Missing(x, true) | Dup(x, true) if x == i) {
            return false;
        }
        for &j in &self.graph[i] {
            if !seen.contains(&j) && !self.visit(j, files, seen, out) {
                return false;
            }
        }
        !matches!(self.fault, Missing(x, false) | Dup(x, false) | Default(x) if x == i)
    }
}

fn compare(got: &[Diag], want: &[(usize, Vec<String>)], same: bool) -> Result<(), String> {
    let texts = || got.iter().map(|d| format!("{:?} {}", d.file, d.text())).collect::<Vec<_>>();
    if got.len() != want.len() {
        return Err(format!("{} warnings instead of {}: got {:#?}, want {want:?}", got.len(), want.len(), texts()));
    }
    for (d, (i, words)) in got.iter().zip(want) {
        let t = d.text();
        let file = d.file.as_deref().unwrap_or("");
        if !d.warning || words.iter().any(|w| !t.contains(w.as_str())) || !file.ends_with(&format!("{}.avdl", path(same, *i).rsplit('/').next().unwrap())) {
            return Err(format!("expected a warning about {words:?} in {}: got {:#?}", NAMES[*i], texts()));
        }
    }
    Ok(())
}

fn write(root: &Path, files: &[Built], same: bool) {
    for (i, f) in files.iter().enumerate() {
        let p = root.join(format!("{}.avdl", path(same, i)));
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, &f.text).unwrap();
    }
}

fn scene(c: &mut Case, s: &Scene, with_cli: bool) -> Res {
    let files = s.files(false);
    let root = c.scratch().join("w");
    write(&root, &files, s.same);
    let (all, want) = s.expect(&files);
    let desc: String = files.iter().enumerate().map(|(i, f)| format!("== {}.avdl\n{}", path(s.same, i), f.text.trim_start())).collect();
    crate::engine::note_input(&desc);
    let data = |x: &str| json!({"input": desc, "fault": format!("{:?}", s.fault), "detail": x});
    c.state(&desc);
    c.steps(want.len() + 1);
    let main = root.join("main.avdl");
    let plain = |w: &[miette::Report]| w.iter().map(drv::diag_plain).collect::<Vec<_>>();
    for schemata in [false, true] {
        c.trace();
        // `idl` has no output for a file that has only named types
        let ok = all && (schemata || !matches!(s.forms[0], 1 | 2));
        let (res, given, left, again): (Result<Value, String>, Vec<Diag>, Vec<Diag>, usize);
        if schemata {
            let mut o = avdl::Idl2Schemata::new();
            let r = o.extract(&main);
            left = plain(&o.drain_warnings());
            again = o.drain_warnings().len();
            (res, given) = match r {
                Ok(x) => (Ok(json!(x.schemas.iter().map(|s| json!([s.name, s.schema])).collect::<Vec<_>>())), plain(&x.warnings)),
                Err(e) => (Err(drv::diag_plain(&e).text()), vec![]),
            };
        } else {
            let mut o = avdl::Idl::new();
            let r = o.convert(&main);
            left = plain(&o.drain_warnings());
            again = o.drain_warnings().len();
            (res, given) = match r {
                Ok(x) => (Ok(x.json), plain(&x.warnings)),
                Err(e) => (Err(drv::diag_plain(&e).text()), vec![]),
            };
        }
        if res.is_ok() != ok {
            fail!(data(&format!("{res:?}")), "{} instead of {}", if ok { "failure" } else { "success" }, if ok { "success" } else { "failure" });
        }
        if again > 0 {
            fail!(data(""), "warnings are drained twice");
        }
        let got = if ok { &given } else { &left };
        if ok && !left.is_empty() {
            fail!(data(""), "warnings that were returned can be drained as well");
        }
        if let Err(e) = compare(got, &want, s.same) {
            fail!(data(&e), "wrong warnings");
        }
        c.count(if ok { "succeeds" } else { "fails" });
        c.outcome(&format!("{ok} {:?}", want));
        if ok && !schemata {
            // the same files without what is warned about give the same output
            let bare = s.files(true);
            let r2 = root.join("plain");
            write(&r2, &bare, s.same);
            let o = avdl::Idl::new().convert(r2.join("main.avdl"));
            match o {
                Ok(o) if !o.warnings.is_empty() => fail!(data(&format!("{:?}", plain(&o.warnings))), "warnings about nothing"),
                Ok(o) if strip(&o.json) != strip(res.as_ref().unwrap()) => fail!(data(&format!("{}\n{}", res.unwrap(), o.json)), "what is warned about changes the output"),
                Ok(_) => {}
                Err(e) => fail!(data(&drv::diag_plain(&e).text()), "the files without what is warned about do not compile"),
            }
        }
    }
    if with_cli {
        for sub in ["idl", "idl2schemata"] {
            c.trace();
            let ok = all && (sub != "idl" || !matches!(s.forms[0], 1 | 2));
            let out = root.join("out");
            let mut cmd = Command::new(cli());
            cmd.arg(sub).arg(&main);
            if sub == "idl2schemata" {
                cmd.arg(&out);
            }
            let o = cmd.output().unwrap();
            if sub == "idl2schemata" && out.exists() {
                std::fs::remove_dir_all(&out).unwrap();
            }
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            let d = |m: &str| json!({"input": desc, "command": sub, "stderr": err, "detail": m});
            if o.status.success() != ok {
                fail!(d(""), "the command's exit status is {:?}", o.status.code());
            }
            // the printed reports, each from its heading on
            let flat: String = err.split_whitespace().filter(|x| !matches!(*x, "│" | "·")).collect::<Vec<_>>().join(" ");
            let parts: Vec<&str> = flat.split('⚠').skip(1).collect();
            if parts.len() != want.len() {
                fail!(d(""), "the command prints {} warnings instead of {}", parts.len(), want.len());
            }
            for (p, (_, words)) in parts.iter().zip(&want) {
                if words.iter().any(|w| !p.contains(w.as_str())) {
                    fail!(d(p), "the command does not print the warning about {words:?} in its place");
                }
            }
            if String::from_utf8_lossy(&o.stdout).contains('⚠') {
                fail!(d(""), "warnings on standard output");
            }
        }
    }
    Ok(())
}

/// Without aliases.
fn strip(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| *k != "aliases").map(|(k, x)| (k.clone(), strip(x))).collect()),
        x => x.clone(),
    }
}

pub fn run(cx: &mut Cx) {
    let mains: &[&[usize]] = &[&[], &[1], &[2], &[1, 2], &[2, 1], &[0, 1], &[1, 1]];
    let fas: &[&[usize]] = &[&[], &[2], &[0], &[2, 0]];
    let fbs: &[&[usize]] = &[&[], &[1], &[0]];
    let mut faults = vec![None];
    for i in 0..3 {
        faults.extend([Syntax(i), BadName(i), Missing(i, true), Missing(i, false), Undefined(i), Dup(i, true), Dup(i, false), Default(i)]);
    }
    let sets: Vec<usize> = cx.pick(vec![0, 1, 3, 5], (0..SETS.len()).collect());
    for m in mains {
        for a in fas {
            for b in fbs {
                let graph = vec![m.to_vec(), a.to_vec(), b.to_vec()];
                for &s0 in &sets {
                    for &s1 in &sets {
                        for &s2 in &sets {
                            for (fi, &fault) in faults.iter().enumerate() {
                                if !cx.thorough() && fi > 0 && (s1 == 3 || s2 == 3 || s0 == 1) {
                                    continue;
                                }
                                let cli = m.len() == 2 && b.is_empty() && s0 >= 3 && s1 == 5;
                                for same in [false, true] {
                                    if same && !cx.thorough() && (s1 != s2 || fi % 3 != 0) {
                                        continue;
                                    }
                                    let s = Scene { graph: graph.clone(), sets: vec![s0, s1, s2], fault, same, forms: [0; 3] };
                                    cx.case(|c| scene(c, &s, cli));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // every set alone
    for s0 in 0..SETS.len() {
        for &fault in &faults[..9] {
            let s = Scene { graph: vec![vec![], vec![], vec![]], sets: vec![s0, 0, 0], fault, same: false, forms: [0; 3] };
            cx.case(|c| scene(c, &s, true));
        }
    }
    // files that are not protocols
    for forms in [[1, 0, 0], [2, 0, 0], [3, 0, 0], [0, 1, 0], [0, 2, 3], [0, 3, 1], [1, 1, 1], [3, 2, 1], [2, 3, 0]] {
        for (gi, m) in mains.iter().enumerate() {
            for s0 in [0usize, 1, 2, 3, 4, 7, 8] {
                for s1 in [0usize, 3, 4] {
                    for (fi, &fault) in faults.iter().enumerate() {
                        if !cx.thorough() && fi % 3 != 0 && gi > 0 {
                            continue;
                        }
                        let s = Scene { graph: vec![m.to_vec(), vec![2], vec![0]], sets: vec![s0, s1, if s1 == 0 { 2 } else { 7 }], fault, same: gi % 2 == 1, forms };
                        cx.case(|c| scene(c, &s, gi == 3 && s0 == 4));
                    }
                }
            }
        }
    }
    cx.note("files", 3);
    cx.note("graphs", mains.len() * fas.len() * fbs.len());
    cx.note("warning_sets_per_file", sets.len());
    cx.note("faults", faults.len());
}
