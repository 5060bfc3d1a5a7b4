//! C14: what the `idl` command does for every way of calling it.
pub use super::c12::cli;
use crate::drv;
use crate::engine::{Case, Cx, Res};
use crate::fail;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub type Tree = BTreeMap<String, Vec<u8>>;

/// Every file (with contents), directory and link below `root`.
pub fn tree(root: &Path) -> Tree {
    fn go(p: &Path, rel: &str, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let name = format!("{rel}/{}", e.file_name().to_string_lossy());
            let ft = e.file_type().unwrap();
            if ft.is_symlink() {
                t.insert(name, format!("link to {:?}", std::fs::read_link(e.path()).unwrap()).into_bytes());
            } else if ft.is_dir() {
                t.insert(format!("{name}/"), vec![]);
                go(&e.path(), &name, t);
            } else {
                t.insert(name, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut t = Tree::new();
    go(root, "", &mut t);
    t
}

pub struct Ran {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

pub fn run_cli(cwd: &Path, args: &[&str], stdin: &[u8], uid: Option<u32>) -> std::io::Result<Ran> {
    use std::os::unix::process::CommandExt;
    let mut c = match uid {
        None => Command::new(cli()),
        Some(u) => {
            let mut c = Command::new(cwd.join("../avdl-copy"));
            c.uid(u).gid(u);
            c
        }
    };
    let mut ch = c.args(args).current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
    {
        let mut i = ch.stdin.take().unwrap();
        let _ = i.write_all(stdin);
    }
    let o = ch.wait_with_output()?;
    Ok(Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() })
}

/// (name, text) of the input files of every scratch directory.
pub const INPUTS: &[(&str, &[u8])] = &[
    ("good.avdl", b"@namespace(\"n\") protocol Good { record R { int a; } enum E { A } void m(R r); }"),
    ("warn.avdl", b"protocol Warn { record W { } /** o */ }"),
    ("syn.avdl", b"protocol S { record { } }"),
    ("undef.avdl", b"protocol U { /** o */ import idl \"good.avdl\"; record Ru { Nope a; } }"),
    ("named.avdl", b"record Nm { int a; } fixed Fx(2);"),
    ("schema.avdl", b"schema array<Z>; enum Z { A, B } enum Unused { }"),
    ("imp.avdl", b"protocol I { import idl \"l.avdl\"; import schema \"s.avsc\"; record Ri { L l; Sj s; } }"),
    ("d1/l.avdl", b"protocol L1 { enum L { FROM_D1 } /** o */ }"),
    ("d2/l.avdl", b"protocol L2 { enum L { FROM_D2 } }"),
    ("d2/s.avsc", b"{\"type\":\"fixed\",\"name\":\"Sj\",\"size\":4}"),
    ("bytes.avdl", b"protocol B { /* \xff\xfe */ }"),
    ("empty.avdl", b""),
    ("bom.avdl", "\u{feff}protocol Bom { }".as_bytes()),
    ("deep/more/in.avdl", b"protocol D { import idl \"../up.avdl\"; }"),
    ("deep/up.avdl", b"enum Up { A }"),
    ("badimp.avdl", b"protocol BI { import schema \"nothere.avsc\"; }"),
    ("badjson.avdl", b"protocol BJ { import schema \"x.avsc\"; }"),
    ("x.avsc", b"{ not json"),
    ("old", b"some earlier contents that are a good deal longer than any of the compiled results could ever be: 0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789\n"),
    ("outdir/keep.txt", b"keep"),
    ("outdir/E.avsc", b"earlier, and longer than what replaces it .............................................................................................................................................."),
];

pub fn setup(c: &Case) -> PathBuf {
    let root = c.scratch().join("w");
    setup_at(&root)
}
pub fn setup_at(root: &Path) -> PathBuf {
    let _ = std::fs::remove_dir_all(root);
    for (n, t) in INPUTS {
        let p = root.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    std::os::unix::fs::symlink("old", root.join("link")).unwrap();
    std::os::unix::fs::symlink("fresh", root.join("dangling")).unwrap();
    root.to_path_buf()
}

pub const STDIN: &str = "protocol FromStdin { import idl \"deep/up.avdl\"; record S { Up u; } }";

// --------------------------------------------------------------------- model of a command line

#[derive(Debug, PartialEq)]
enum Cmd {
    Help,
    Version,
    Usage,
    Idl { input: Option<String>, output: Option<String>, dirs: Vec<String> },
    Schemata { input: String, outdir: Option<String>, dirs: Vec<String> },
}

/// What a command line asks for.
fn meaning(args: &[&str]) -> Cmd {
    let mut it = args.iter().copied();
    let mut only_values = false;
    let mut first = it.next();
    if first == Some("--") {
        only_values = true;
        first = it.next();
    }
    let sub = match first {
        None => return Cmd::Usage,
        Some(s) if only_values || !s.starts_with('-') || s == "-" => s,
        Some("-h" | "--help") => return Cmd::Help,
        Some("-V" | "--version") => return Cmd::Version,
        Some(_) => return Cmd::Usage,
    };
    if sub != "idl" && sub != "idl2schemata" {
        return Cmd::Usage;
    }
    let mut pos: Vec<String> = vec![];
    let mut dirs = vec![];
    while let Some(a) = it.next() {
        if only_values || !a.starts_with('-') || a == "-" {
            if pos.len() == 2 {
                return Cmd::Usage;
            }
            pos.push(a.into());
        } else if a == "--" {
            only_values = true;
        } else if a == "-h" || a == "--help" {
            return Cmd::Help;
        } else if a == "--import-dir" {
            match it.next() {
                Some(d) => dirs.push(d.to_string()),
                None => return Cmd::Usage,
            }
        } else if let Some(d) = a.strip_prefix("--import-dir=") {
            dirs.push(d.to_string());
        } else {
            return Cmd::Usage;
        }
    }
    let p1 = if pos.len() > 1 { Some(pos[1].clone()) } else { None };
    if sub == "idl" {
        Cmd::Idl { input: pos.first().cloned(), output: p1, dirs }
    } else if pos.is_empty() {
        Cmd::Usage
    } else {
        Cmd::Schemata { input: pos[0].clone(), outdir: p1, dirs }
    }
}

/// Compile as the command should: Ok((json text, number of warnings)).
fn compile(root: &Path, input: &Option<String>, dirs: &[String], stdin: &[u8]) -> Result<(String, usize), usize> {
    let mut i = avdl::Idl::new();
    for d in dirs {
        i.import_dir(root.join(d));
    }
    let r = match input.as_deref() {
        Some(p) if p != "-" => i.convert(root.join(p)),
        _ => {
            let Ok(s) = std::str::from_utf8(stdin) else { return Err(0) };
            // a text from standard input is compiled in the working directory
            let tmp = root.join("stdin text.avdl");
            std::fs::write(&tmp, s).unwrap();
            let r = i.convert(&tmp);
            std::fs::remove_file(&tmp).unwrap();
            r
        }
    };
    match r {
        Ok(o) => Ok((serde_json::to_string_pretty(&o.json).unwrap(), o.warnings.len())),
        Err(_) => Err(i.drain_warnings().len()),
    }
}

fn extract(root: &Path, input: &str, dirs: &[String]) -> Result<(Vec<(String, String)>, usize), usize> {
    let mut i = avdl::Idl2Schemata::new();
    for d in dirs {
        i.import_dir(root.join(d));
    }
    match i.extract(root.join(input)) {
        Ok(o) => Ok((o.schemas.iter().map(|s| (s.name.clone(), serde_json::to_string_pretty(&s.schema).unwrap())).collect(), o.warnings.len())),
        Err(_) => Err(i.drain_warnings().len()),
    }
}

/// Normal path of a file below the root, through the links of the set-up.
fn target(name: &str) -> String {
    match name.trim_start_matches("./") {
        "link" => "/old".into(),
        "dangling" => "/fresh".into(),
        x => format!("/{x}"),
    }
}

fn can_write(before: &Tree, name: &str) -> bool {
    let t = target(name);
    if name.is_empty() || name.ends_with('/') || before.contains_key(&format!("{t}/")) || t == "/." {
        return false;
    }
    match t.rfind('/') {
        Some(0) => true,
        Some(i) => before.contains_key(&format!("{}/", &t[..i])),
        None => false,
    }
}

fn invocation(c: &mut Case, args: &[&str], stdin: &[u8]) -> Res {
    let root = setup(c);
    let before = tree(&root);
    let r = run_cli(&root, args, stdin, None).unwrap();
    let after = tree(&root);
    c.state(&(args, stdin));
    c.steps(args.len());
    c.trace();
    let mut want = before.clone();
    let cmd = meaning(args);
    let data = |m: &str| json!({"arguments": args, "stdin": String::from_utf8_lossy(stdin), "status": r.code, "stdout": r.out, "stderr": r.err, "detail": m,
        "changed": after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, v)| format!("{k}: {}", String::from_utf8_lossy(v))).chain(before.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("{k} is gone"))).collect::<Vec<_>>()});
    let nwarn = r.err.matches('⚠').count();
    c.outcome(&format!("{:?} {} {}", r.code, r.out, r.err.lines().next().unwrap_or("")));
    let fails = |why: &str| -> Res {
        if r.code.is_none_or(|x| x == 0) {
            fail!(data(why), "exit status {:?} although {why}", r.code);
        }
        if r.err.trim().is_empty() {
            fail!(data(why), "fails without a message on standard error");
        }
        if r.code == Some(101) || r.err.contains("panicked at") {
            fail!(data(why), "fails with a panic");
        }
        if !r.out.is_empty() {
            fail!(data(why), "fails but prints on standard output");
        }
        if after != before {
            fail!(data(why), "fails but changes files");
        }
        Ok(())
    };
    let quiet_ok = |w: usize| -> Res {
        if r.code != Some(0) {
            fail!(data(""), "exit status {:?} although nothing is wrong", r.code);
        }
        if nwarn != w || w == 0 && !r.err.is_empty() {
            fail!(data(""), "prints {nwarn} warnings instead of {w} on standard error");
        }
        Ok(())
    };
    match cmd {
        Cmd::Usage => {
            c.count("usage error");
            fails("the command line is invalid")?;
        }
        Cmd::Help => {
            c.count("help");
            quiet_ok(0)?;
            if !r.out.contains("Usage") {
                fail!(data(""), "no help text");
            }
        }
        Cmd::Version => {
            c.count("version");
            quiet_ok(0)?;
            if !r.out.contains("avdl") {
                fail!(data(""), "no version");
            }
        }
        Cmd::Idl { input, output, dirs } => {
            let x = compile(&setup_at(&c.scratch().join("ref")), &input, &dirs, stdin);
            let file = output.as_deref().filter(|o| *o != "-");
            match x {
                Err(w) => {
                    c.count("idl: does not compile");
                    fails("the input does not compile")?;
                    if nwarn != w {
                        fail!(data(""), "prints {nwarn} warnings instead of {w}");
                    }
                }
                Ok((json, w)) => match file {
                    None => {
                        c.count("idl: to standard output");
                        quiet_ok(w)?;
                        if r.out != json {
                            fail!(data(&json), "standard output is not the compiled JSON");
                        }
                    }
                    Some(f) if !can_write(&before, f) => {
                        c.count("idl: output cannot be written");
                        fails("the output cannot be written")?;
                    }
                    Some(f) => {
                        c.count("idl: to a file");
                        quiet_ok(w)?;
                        if !r.out.is_empty() {
                            fail!(data(""), "prints on standard output although a file was asked for");
                        }
                        want.insert(target(f), format!("{json}\n").into_bytes());
                    }
                },
            }
        }
        Cmd::Schemata { input, outdir, dirs } => match extract(&setup_at(&c.scratch().join("ref")), &input, &dirs) {
            Err(_) => {
                c.count("idl2schemata: does not compile");
                fails("the input does not compile")?;
            }
            Ok((files, w)) => {
                let d = outdir.as_deref().unwrap_or(".");
                let t = target(d);
                if d.is_empty() {
                    c.count("skipped: empty output directory");
                    return Ok(());
                }
                if before.contains_key(&t) || d == "link" || d == "dangling" {
                    // not a directory
                    c.count("idl2schemata: output cannot be written");
                    fails("the output directory cannot be used")?;
                } else {
                    c.count("idl2schemata: writes");
                    quiet_ok(w)?;
                    if !r.out.is_empty() {
                        fail!(data(""), "prints on standard output");
                    }
                    let base = if t == "/." { String::new() } else { t };
                    let mut up = String::new();
                    for part in base.split('/').filter(|x| !x.is_empty()) {
                        up += &format!("/{part}");
                        want.entry(format!("{up}/")).or_default();
                    }
                    for (n, j) in files {
                        want.insert(format!("{base}/{n}.avsc"), format!("{j}\n").into_bytes());
                    }
                }
            }
        },
    }
    if after != want {
        let missing: Vec<_> = want.iter().filter(|(k, v)| after.get(*k) != Some(v)).map(|x| x.0).collect();
        fail!(data(&format!("expected other contents of {missing:?}")), "the files are not as expected");
    }
    Ok(())
}

const ARGS: &[&str] = &[
    "idl", "good.avdl", "-", "new.json", "--import-dir", "d2", "--import-dir=d1", "undef.avdl", "-h", "--", "idl2schemata", "--help", "-V", "--version", "--bogus", "-x", "outdir", "warn.avdl", "",
];

/// Fault: the place of output cannot take it.
fn full(c: &mut Case, args: &[&str], out: &str, err: bool) -> Res {
    let root = setup(c);
    c.state(&(args, out));
    c.steps(1);
    c.trace();
    let o = std::fs::OpenOptions::new().write(true).open(out);
    let Ok(o) = o else {
        c.count("skipped: no such device");
        return Ok(());
    };
    let mut cmd = Command::new(cli());
    cmd.args(args).current_dir(&root).stdin(Stdio::null()).stdout(o).stderr(Stdio::piped());
    let r = cmd.output().unwrap();
    let e = String::from_utf8_lossy(&r.stderr).to_string();
    if r.status.success() == err || err && e.trim().is_empty() {
        fail!(json!({"arguments": args, "standard output": out, "status": r.status.code(), "stderr": e}), "a failure to write the output {}", if err { "is not reported" } else { "is reported although it was written" });
    }
    Ok(())
}

/// What an unprivileged user may not read or write.
pub fn denied(c: &mut Case, k: usize) -> Res {
    use std::os::unix::fs::PermissionsExt;
    let base = c.scratch().join("u");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let root = setup_at(&base.join("w"));
    std::fs::copy(cli(), base.join("avdl-copy")).unwrap();
    let mode = |p: &str, m: u32| std::fs::set_permissions(root.join(p), std::fs::Permissions::from_mode(m)).unwrap();
    let mut p = base.clone();
    loop {
        // let the other user pass
        if let Ok(m) = std::fs::metadata(&p) {
            if p.starts_with(std::env::temp_dir()) && p != std::env::temp_dir() {
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m.permissions().mode() | 0o755)).unwrap();
            }
        }
        if !p.pop() {
            break;
        }
    }
    mode("", 0o777);
    mode("outdir", 0o777);
    let probe = run_cli(&root, &["idl", "good.avdl"], b"", Some(65534));
    if !matches!(&probe, Ok(r) if r.code == Some(0)) {
        c.count("skipped: no unprivileged user here");
        return Ok(());
    }
    let (args, what): (&[&str], &str) = match k {
        0 => {
            mode("good.avdl", 0);
            (&["idl", "good.avdl"], "the input is unreadable")
        }
        1 => {
            mode("good.avdl", 0);
            (&["idl", "good.avdl", "new.json"], "the input is unreadable")
        }
        2 => {
            mode("old", 0o444);
            (&["idl", "good.avdl", "old"], "the output file is read-only")
        }
        3 => {
            mode("outdir", 0o555);
            (&["idl", "good.avdl", "outdir/new.json"], "the output directory is read-only")
        }
        4 => {
            mode("d2/l.avdl", 0);
            (&["idl", "--import-dir", "d2", "imp.avdl", "new.json"], "an imported file is unreadable")
        }
        5 => {
            mode("d2/s.avsc", 0);
            (&["idl", "--import-dir", "d2", "imp.avdl", "new.json"], "an imported file is unreadable")
        }
        6 => {
            mode("outdir", 0o555);
            mode("outdir/E.avsc", 0o444);
            (&["idl2schemata", "good.avdl", "outdir"], "the output directory is read-only")
        }
        7 => {
            mode("", 0o555);
            (&["idl2schemata", "good.avdl", "newdir"], "the output directory cannot be created")
        }
        8 => {
            mode("deep/more", 0);
            (&["idl2schemata", "deep", "newdir"], "a directory below the input cannot be read")
        }
        9 => {
            mode("deep/up.avdl", 0);
            (&["idl2schemata", "deep", "newdir"], "a file below the input cannot be read")
        }
        _ => {
            mode("deep", 0);
            (&["idl2schemata", "deep", "newdir"], "the input directory cannot be read")
        }
    };
    c.state(&k);
    c.steps(1);
    c.trace();
    let before = tree(&root);
    let r = run_cli(&root, args, b"", Some(65534)).unwrap();
    let after = tree(&root);
    mode("deep", 0o755);
    mode("deep/more", 0o755);
    if r.code == Some(0) || r.code.is_none() || r.err.trim().is_empty() || !r.out.is_empty() || before != after {
        fail!(json!({"arguments": args, "situation": what, "status": r.code, "stdout": r.out, "stderr": r.err, "files changed": before != after}), "{what}, but the command does not fail cleanly");
    }
    Ok(())
}

pub fn run(cx: &mut Cx) {
    // 1. every command line over the alphabet
    let n = cx.pick(3, 4);
    for len in 0..=n {
        for x in 0..ARGS.len().pow(len as u32) {
            let mut y = x;
            let mut v = vec![];
            for _ in 0..len {
                v.push(ARGS[y % ARGS.len()]);
                y /= ARGS.len();
            }
            cx.case(|c| invocation(c, &v, STDIN.as_bytes()));
        }
    }
    // 2. every input by every output by every search path
    let dirs: &[&[&str]] = &[&[], &["--import-dir", "d1"], &["--import-dir=d2"], &["--import-dir", "d1", "--import-dir", "d2"], &["--import-dir", "d2", "--import-dir=d1"], &["--import-dir", "nodir", "--import-dir", "d2"]];
    let outs: &[&[&str]] = &[&[], &["-"], &["new.json"], &["old"], &["outdir"], &["outdir/new.json"], &["outdir/keep.txt"], &["nodir/new.json"], &["link"], &["dangling"], &["good.avdl"], &["./new.json"], &["outdir/"], &["nodir/"], &["--", "--import-dir"]];
    let inputs: Vec<&str> = INPUTS.iter().map(|x| x.0).filter(|x| x.ends_with(".avdl") && !x.starts_with("d1") && !x.starts_with("d2")).chain(["missing.avdl", "d1", "x.avsc", "./good.avdl", "-", "old"]).collect();
    for sub in ["idl", "idl2schemata"] {
        for input in &inputs {
            if sub == "idl2schemata" && *input == "-" {
                continue;
            }
            for out in outs {
                if sub == "idl2schemata" && (out.first() == Some(&"-") || *out == ["outdir/"] || *out == ["nodir/"] || *out == ["--", "--import-dir"] || *out == ["outdir/keep.txt"]) {
                    continue;
                }
                for d in dirs {
                    for order in 0..3 {
                        if order > 0 && (d.is_empty() || out.contains(&"--")) {
                            continue;
                        }
                        let mut v = vec![sub];
                        if order == 0 {
                            v.extend(*d);
                        }
                        v.push(input);
                        if order == 1 {
                            v.extend(*d);
                        }
                        v.extend(*out);
                        if order == 2 {
                            v.extend(*d);
                        }
                        cx.case(|c| invocation(c, &v, STDIN.as_bytes()));
                    }
                }
            }
        }
    }
    // 3. every text on standard input
    let texts: Vec<Vec<u8>> = INPUTS.iter().map(|x| x.1.to_vec()).chain([b"protocol P {}\r\n".to_vec(), b"protocol P {} \x1a junk \xc3\xa9".to_vec(), b"\xff".to_vec()]).collect();
    for t in &texts {
        for out in outs {
            for lead in [&["-"][..], &[]] {
                if lead.is_empty() && !out.is_empty() {
                    continue;
                }
                let mut v = vec!["idl", "--import-dir=d2"];
                v.extend(lead);
                v.extend(*out);
                cx.case(|c| invocation(c, &v, t));
            }
        }
    }
    // texts of any length
    for size in [1usize << 10, 4095, 4096, 4097, 1 << 13, 65535, 65536, 65537, 1 << 17, (1 << 20) + 3] {
        for fill in ["\t", "é", "\u{1f600}", "漢"] {
            let t = format!("protocol Long {{ /* {} */ record Last {{ Nope n; }} @aliases([\"a-b\"]) enum E {{ A }} }}", fill.repeat(size));
            cx.case(|c| invocation(c, &["idl"], t.as_bytes()));
            if !fill.chars().all(char::is_alphabetic) {
                continue;
            }
            let t = format!("protocol Long {{ record Last {{ string {} = 1; }} }}", fill.repeat(size));
            cx.case(|c| invocation(c, &["idl"], t.as_bytes()));
        }
        for at_end in ["record Last { } }", "/* */ }", "} \u{1a} rest", "record Last { Nope n; } }"] {
            let filler = "x".repeat(size);
            let t = format!("protocol Long {{ record Mid {{ }} /* {filler} */ {at_end}");
            cx.case(|c| invocation(c, &["idl"], t.as_bytes()));
            cx.case(|c| invocation(c, &["idl", "-", "new.json"], t.as_bytes()));
        }
        // a long result
        let t = format!("protocol Long {{ record R {{ string s = \"{}\"; }} }}", "y".repeat(size));
        cx.case(|c| invocation(c, &["idl"], t.as_bytes()));
        cx.case(|c| invocation(c, &["idl", "-", "old"], t.as_bytes()));
        let t = format!("/** {} */ protocol Long {{ @aliases([\"a-b\"]) enum E {{ A }} }}", "z ".repeat(size / 2));
        cx.case(|c| invocation(c, &["idl"], t.as_bytes()));
        cx.case(|c| invocation(c, &["idl", "-", "outdir/new.json"], t.as_bytes()));
    }
    // 1b. too many values, with options anywhere
    for sub in ["idl", "idl2schemata"] {
        let vals = ["good.avdl", "new.json", "outdir", "-", "warn.avdl"];
        for a in vals {
            for b in vals {
                for d in vals {
                    for opt in [&[][..], &["--import-dir", "d1"], &["--import-dir=d2"], &["--"]] {
                        for at in 0..=3 {
                            if opt.is_empty() && at > 0 {
                                continue;
                            }
                            let mut v = vec![sub];
                            for (i, x) in [a, b, d].into_iter().enumerate() {
                                if i == at {
                                    v.extend(opt);
                                }
                                v.push(x);
                            }
                            if at == 3 {
                                v.extend(opt);
                            }
                            cx.case(|c| invocation(c, &v, STDIN.as_bytes()));
                        }
                    }
                }
            }
        }
    }
    // 4. output that cannot be written
    for input in ["good.avdl", "warn.avdl", "schema.avdl", "deep/more/in.avdl"] {
        for (out, err) in [("/dev/full", true), ("/dev/null", false)] {
            cx.case(|c| full(c, &["idl", input], out, err));
            cx.case(|c| full(c, &["idl", input, "-"], out, err));
        }
        cx.case(|c| full(c, &["idl", input, "/dev/full"], "/dev/null", true));
        cx.case(|c| full(c, &["idl", input, "/dev/null"], "/dev/full", false));
    }
    for k in 0..6 {
        cx.case(|c| denied(c, k));
    }
    cx.note("command_line_alphabet", ARGS.len());
    cx.note("command_line_length", n);
    cx.note("inputs", inputs.len());
    cx.note("outputs", outs.len());
    let _ = drv::leak("");
}
