//! The compilations that run concurrently (C25).
use std::path::PathBuf;
use std::sync::OnceLock;

static DIR: OnceLock<PathBuf> = OnceLock::new();

/// How each is run, and its text.
#[derive(Clone, Copy, PartialEq)]
pub enum How {
    Idl,
    Schemata,
    IdlFile,
    SchemataFile,
}
pub const PROGS: &[(How, &str)] = &[
    (How::Idl, "protocol P { record R { int i = 1; } R m(R r); }"),
    (How::Idl, "@namespace(\"n\") protocol P { record R { Strin s; } enum E { A } record Q { Ee x; } }"),
    (How::Schemata, "/** d1 */ protocol Q { /** d2 */ /** d3\n * x\n */ @aliases([\"1a\"]) record R { string s = \"q\"; } /** lost */ }"),
    (How::Idl, "protocol P { record R { int ; } union }"),
    (How::IdlFile, "@namespace(\"n\") protocol M { import idl \"a.avdl\"; record U { n.A a; map<n.S> s; } U u(); }"),
    (How::SchemataFile, "namespace k; schema array<n.A>; import idl \"a.avdl\"; record A { n.A? a = null; }"),
    (How::IdlFile, "protocol M2 { import schema \"bad.avsc\"; }"),
    (How::IdlFile, "protocol M3 { import idl \"nowhere.avdl\"; }"),
    (How::SchemataFile, "protocol M4 { import schema \"nowhere.avsc\"; }"),
    (How::Idl, "namespace z; schema union { null, R }; record R { decimal(4,2) d; # date t = 3; }"),
];
const FILES: &[(&str, &str)] = &[
    ("a.avdl", "@namespace(\"n\") protocol A0 { import schema \"s.avsc\"; record A { S? s = null; /** w */ } /** lost */ void ma(A a); }"),
    ("s.avsc", r#"{"type":"enum","name":"S","namespace":"n","symbols":["X"]}"#),
    ("bad.avsc", r#"{"type":"record","name":"B","fields":[{"name":"f","type":"Gone"}]}"#),
];

pub fn setup(dir: &str) {
    let d = PathBuf::from(dir);
    for (i, (_, t)) in PROGS.iter().enumerate() {
        std::fs::create_dir_all(d.join(format!("inc{i}"))).unwrap();
        // each in a directory of its own, with files of its own
        let d = d.join(format!("d{i}"));
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("m.avdl"), t).unwrap();
        for (n, t) in FILES {
            std::fs::write(d.join(n), t.replace("\"X\"", &format!("\"X{i}\""))).unwrap();
        }
    }
    DIR.set(d).unwrap();
}

/// Everything observable about a compilation.
pub fn run(i: usize) -> String {
    let (how, text) = PROGS[i];
    let rep = |w: &[miette::Report]| w.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>().join("\n");
    let file = DIR.get().unwrap().join(format!("d{i}/m.avdl"));
    match how {
        How::Idl | How::IdlFile => {
            let mut c = avdl::Idl::new();
            c.import_dir(DIR.get().unwrap().join(format!("inc{i}")));
            let r = if how == How::Idl { c.convert_str_named(text, "x.avdl") } else { c.convert(&file) };
            match r {
                Ok(o) => format!("{}\n{}", o.json, rep(&o.warnings)),
                Err(e) => format!("error {e:?}\n{}", rep(&c.drain_warnings())),
            }
        }
        How::Schemata | How::SchemataFile => {
            let mut c = avdl::Idl2Schemata::new();
            c.import_dir(DIR.get().unwrap().join(format!("inc{i}")));
            let r = if how == How::Schemata { c.extract_str_named(text, "x.avdl") } else { c.extract(&file) };
            match r {
                Ok(o) => format!("{:?}\n{}", o.schemas.iter().map(|s| (&s.name, s.schema.to_string())).collect::<Vec<_>>(), rep(&o.warnings)),
                Err(e) => format!("error {e:?}\n{}", rep(&c.drain_warnings())),
            }
        }
    }
}
