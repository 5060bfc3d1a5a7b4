//! Shared oracle: run a model program on the real compiler and compare with the model.
use crate::ast::{self, File};
use crate::avroread as ar;
use crate::drv;
use crate::engine::{Case, Fail, Res};
use crate::eval::{self, Content, Head, Meaning, Reject, World};
use crate::world;
use crate::fail;
use serde_json::{Value, json};

pub fn data(src: &str, want: &Result<Meaning, Reject>, got: &drv::Out) -> Value {
    json!({
        "input": src,
        "model": match want {
            Ok(m) => format!("accepted: {:?} defs {:?} messages {:?}", m.head, m.defs.iter().map(|d| d.1.to_string()).collect::<Vec<_>>(), m.messages),
            Err(r) => format!("rejected: {} {:?}", r.class, r.names),
        },
        "compiler": match &got.res {
            Ok(v) => serde_json::to_string_pretty(v).unwrap(),
            Err(e) => drv::diag_plain(e).text(),
        },
    })
}

/// Does the JSON state exactly the meaning?
pub fn matches(m: &Meaning, v: &Value) -> Result<(), String> {
    let doc = match &m.head {
        Head::Protocol { .. } => ar::read_protocol(v)?,
        Head::Schema(_) => ar::read_schema(v)?,
        Head::NamedOnly => return Err("a file without protocol or schema was compiled".into()),
    };
    ar::compare(m, &doc)
}

/// Exactly the expected warnings, in order, each one a warning with the expected words.
pub fn check_warnings(m: &Meaning, w: &[miette::Report]) -> Result<(), String> {
    let got: Vec<drv::Diag> = w.iter().map(drv::diag_plain).collect();
    let texts = || got.iter().map(|d| d.text()).collect::<Vec<_>>();
    if got.len() != m.warnings.len() {
        return Err(format!("{} warnings instead of {}: {:?}", got.len(), m.warnings.len(), texts()));
    }
    for (d, words) in got.iter().zip(&m.warnings) {
        let t = d.text();
        if !d.warning || words.iter().any(|x| !t.contains(x.as_str())) {
            return Err(format!("expected a warning about {words:?}, got {:?}", texts()));
        }
    }
    Ok(())
}

/// Accept/reject and meaning both agree with the model.
pub fn judge(c: &mut Case, f: &File) -> Res {
    let src = ast::render(f);
    let want = eval::evaluate(f);
    judge_src(c, &src, &want)
}

pub fn judge_src(c: &mut Case, src: &str, want: &Result<Meaning, Reject>) -> Res {
    let got = drv::idl(src);
    judge_out(c, src, want, got)
}

/// Judge a program spread over several files.
pub fn judge_world(c: &mut Case, w: &World, main: &str, both: bool) -> Res {
    let Content::Idl(f) = &w.files[main] else { panic!() };
    let want = eval::Eval::new(Some(w)).run(f, Some(main));
    let root = c.scratch().join("w");
    world::materialize(w, &root);
    let desc = world::describe(w);
    crate::engine::note_input(&desc);
    let got = world::idl_path(&root, main, &w.dirs);
    judge_out(c, &desc, &want, got)?;
    if both {
        let got = world::schemata_path(&root, main, &w.dirs);
        judge_sout(c, &desc, &want, got)?;
    }
    Ok(())
}

pub fn judge_out(c: &mut Case, src: &str, want: &Result<Meaning, Reject>, got: drv::Out) -> Res {
    judge_out_diag(c, src, want, got, &|_| Ok(()))
}

/// As `judge_out`; `chk` further judges the diagnostic of a rightly rejected program.
pub fn judge_out_diag(
    c: &mut Case,
    src: &str,
    want: &Result<Meaning, Reject>,
    got: drv::Out,
    chk: &dyn Fn(&drv::Diag) -> Result<(), String>,
) -> Res {
    c.state(src);
    c.steps(src.split_ascii_whitespace().count());
    c.trace();
    c.sample(|| json!({"input": src, "model": match want { Ok(_) => "accepted".to_string(), Err(r) => format!("rejected: {}", r.class) }}));
    match (want, &got.res) {
        (Ok(m), Ok(v)) => {
            if m.head == Head::NamedOnly {
                fail!(data(src, want, &got), "compiled a file that has neither protocol nor schema");
            }
            c.count("accepted");
            c.outcome(&v.to_string());
            if let Err(e) = matches(m, v).and_then(|_| check_warnings(m, &got.warnings)) {
                return Err(Fail::new(e, data(src, want, &got)));
            }
            Ok(())
        }
        (Err(r), Err(e)) => {
            c.count("rejected");
            c.outcome(r.class);
            let dg = drv::diag_plain(e);
            let text = dg.text();
            if r.names.iter().any(|n| !n.is_empty() && !text.contains(n.as_str())) {
                fail!(data(src, want, &got), "the error does not mention {:?}", r.names);
            }
            if let Err(e) = chk(&dg) {
                return Err(Fail::new(e, data(src, want, &got)));
            }
            Ok(())
        }
        (Ok(m), Err(_)) => {
            if m.head == Head::NamedOnly {
                c.count("named-only");
                return Ok(());
            }
            if m.undecided {
                c.count("undecided");
                return Ok(());
            }
            fail!(data(src, want, &got), "a valid program is rejected")
        }
        (Err(r), Ok(_)) => fail!(data(src, want, &got), "an invalid program is accepted ({} {:?})", r.class, r.names),
    }
}

/// The extracted schemas agree with the model: one per type in registration order, each
/// self-contained.
pub fn judge_schemata(c: &mut Case, src: &str, want: &Result<Meaning, Reject>) -> Res {
    let got = drv::schemata(src);
    judge_sout(c, src, want, got)
}

pub fn judge_sout(c: &mut Case, src: &str, want: &Result<Meaning, Reject>, got: drv::SOut) -> Res {
    c.trace();
    let d = |x: &str| {
        json!({"input": src, "entry": "idl2schemata", "detail": x,
        "compiler": match &got.res { Ok(v) => format!("{v:#?}"), Err(e) => drv::diag_plain(e).text() }})
    };
    match (want, &got.res) {
        (Ok(m), Ok(v)) => check_schemata(m, v).and_then(|_| check_warnings(m, &got.warnings)).map_err(|e| Fail::new(format!("idl2schemata: {e}"), d(&e))),
        (Err(_), Err(_)) => Ok(()),
        (Ok(m), Err(_)) if m.undecided => Ok(()),
        (Ok(_), Err(_)) => fail!(d(""), "idl2schemata rejects a valid program"),
        (Err(r), Ok(_)) => fail!(d(""), "idl2schemata accepts an invalid program ({} {:?})", r.class, r.names),
    }
}

pub fn check_schemata(m: &Meaning, v: &[(String, Value)]) -> Result<(), String> {
    let names: Vec<&str> = v.iter().map(|x| x.0.as_str()).collect();
    let want: Vec<&str> = m.defs.iter().map(|d| d.0.rsplit('.').next().unwrap()).collect();
    if names != want {
        return Err(format!("extracted {names:?}, want {want:?}"));
    }
    for ((full, _), (_, s)) in m.defs.iter().zip(v) {
        let r = json!({"ref": full});
        let mm = Meaning { head: Head::Schema(r), defs: m.defs.clone(), messages: Default::default(), undecided: false, warnings: vec![] };
        let doc = ar::read_schema(s).map_err(|e| format!("schema of {full}: {e}"))?;
        ar::compare(&mm, &doc).map_err(|e| format!("schema of {full}: {e}"))?;
    }
    Ok(())
}
