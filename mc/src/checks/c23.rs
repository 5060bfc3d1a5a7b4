//! C23: the two tools, and the two input forms, agree.
use crate::avroread::{self as ar, Doc};
use crate::drv::{self, Diag};
use crate::engine::{Case, Cx, Fail, Res, note_input};
use crate::eval::Head;
use crate::fail;
use crate::idlparse as ip;
use serde_json::{Value, json};

const FILES: [(&str, &str); 6] = [
    ("i.avdl", "namespace n; import idl \"j.avdl\"; record Ri { Ei e; J j; } enum Ei { A, B } = B;"),
    ("j.avdl", "@namespace(\"n\") protocol J2 { fixed J(2); /** d */ error Xj { date d; } void mj(J j) throws Xj; }"),
    ("w.avdl", "/** lost */ namespace n; @aliases([\"a-b\"]) fixed Wi(1);"),
    ("s.avsc", r#"{"type":"record","name":"Rs","namespace":"n","fields":[{"name":"f","type":{"type":"enum","name":"Es","symbols":["Q"]}}]}"#),
    ("p.avpr", r#"{"protocol":"Q","namespace":"q","types":[{"type":"error","name":"Xp","fields":[]}],"messages":{"mp":{"request":[],"response":{"type":"fixed","name":"Fp","size":1},"errors":["Xp"]}}}"#),
    ("bad.avdl", "protocol Bad { record Rb { Undefined u; } }"),
];

/// Declarations of a protocol or schema file; they refer to each other and to what the imports define.
const DECLS: &[&str] = &[
    "record R { int i; }",
    "record S { R r; union { null, S } next = null; }",
    "record T { array<E> es = []; map<F?> m; X? x; }",
    "@namespace(\"o\") record R { n.R r; R self; }",
    "@aliases([\"Old\"]) @x({\"k\": [1]}) enum E { A, B } = B;",
    "fixed F(4);",
    "@namespace(\"o.p\") fixed F(4);",
    "error X { string s = \"d\"; E e = \"A\"; }",
    "/** doc */ record `record` { n.F f; }",
    "@namespace(\"n\") record `schema` { `record` r; array<n.`schema`> a; }",
    "record D { @logicalType(\"timestamp-micros\") long t; decimal(6,2) d; }",
    "/** orphan */ ;",
    "record W { string @aliases([\"1x\"]) f; }",
    "import idl \"i.avdl\";",
    "import idl \"w.avdl\";",
    "import schema \"s.avsc\";",
    "import protocol \"p.avpr\";",
    "import idl \"j.avdl\";",
    "record Uses { n.Ri a; n.Es b; q.Fp c; Wi d; }",
    "import idl \"bad.avdl\";",
    "import idl \"missing.avdl\";",
    "record Bad { int i = \"x\"; }",
    "error N { R? r = null; o.R s; }",
    "@namespace(\"\") fixed Null(1);",
];
/// what the others refer to
const BASE: [usize; 10] = [0, 1, 3, 4, 5, 7, 13, 14, 15, 16];
const MSGS: &[&str] = &["void m();", "R m(S s, E e = \"A\") throws X;", "/** d */ union { null, n.Ri } g(F? f = null);", "void h(Undefined u);", "void o(int i) oneway;"];

const HEADS: &[(&str, &str)] = &[
    ("protocol n.P {", "}"),
    ("protocol P {", "}"),
    ("@namespace(\"n\") protocol P {", "}"),
    ("namespace n; schema R?;", ""),
    ("namespace n; schema union { array<S>, map<n.R>, n.E };", ""),
    ("namespace n; schema int;", ""),
    ("namespace n;", ""),
    ("", ""),
];

fn texts(v: &[miette::Report]) -> Vec<Diag> {
    v.iter().map(drv::diag_plain).collect()
}

/// Without the list of places searched for an import (the two forms search different ones).
fn dg(e: &miette::Report) -> Diag {
    let mut d = drv::diag_plain(e);
    let cut = |s: &mut String| {
        if let Some(i) = s.find(" (searched:") {
            let j = s[i..].find(')').map_or(s.len(), |j| i + j + 1);
            s.replace_range(i..j, "");
        }
    };
    d.chain.iter_mut().for_each(cut);
    d.labels.iter_mut().filter_map(|l| l.label.as_mut()).for_each(cut);
    d
}

/// Run everything on `src` and compare.
fn relate(c: &mut Case, src: &str) -> Res {
    let root = c.scratch().join("w");
    if !root.join("s.avsc").exists() {
        std::fs::create_dir_all(&root).unwrap();
        for (f, t) in FILES {
            std::fs::write(root.join(f), t).unwrap();
        }
    }
    note_input(src);
    c.state(src);
    c.steps(src.split_ascii_whitespace().count());
    let file = root.join("main.avdl");
    std::fs::write(&file, src).unwrap();
    let name = drv::leak(file.to_str().unwrap());
    let text = drv::leak(src);
    let mut i = avdl::Idl::new();
    let (a, aw) = match i.convert(&file) {
        Ok(o) => (Ok(o.json), texts(&o.warnings)),
        Err(e) => (Err(dg(&e)), texts(&i.drain_warnings())),
    };
    let mut i = avdl::Idl::new();
    i.import_dir(&root);
    let (b, bw) = match i.convert_str_named(text, name) {
        Ok(o) => (Ok(o.json), texts(&o.warnings)),
        Err(e) => (Err(dg(&e)), texts(&i.drain_warnings())),
    };
    type L = Vec<(String, Value)>;
    let list = |o: Vec<avdl::NamedSchema>| -> L { o.into_iter().map(|s| (s.name, s.schema)).collect() };
    let mut s = avdl::Idl2Schemata::new();
    let (x, xw) = match s.extract(&file) {
        Ok(o) => (Ok(list(o.schemas)), texts(&o.warnings)),
        Err(e) => (Err(dg(&e)), texts(&s.drain_warnings())),
    };
    let mut s = avdl::Idl2Schemata::new();
    s.import_dir(&root);
    let (y, yw) = match s.extract_str_named(text, name) {
        Ok(o) => (Ok(list(o.schemas)), texts(&o.warnings)),
        Err(e) => (Err(dg(&e)), texts(&s.drain_warnings())),
    };
    c.trace();
    c.trace();
    let data = || json!({"input": src, "idl": format!("{a:?} {aw:?}"), "idl of the string": format!("{b:?} {bw:?}"), "idl2schemata": format!("{x:?} {xw:?}"), "idl2schemata of the string": format!("{y:?} {yw:?}")});
    // the imported files' paths are as seen from the importing file in one case and from the
    // import directory in the other; both are below `root`
    if a != b || aw != bw {
        fail!(data(), "idl gives different results for the file and for its text");
    }
    if x != y || xw != yw {
        fail!(data(), "idl2schemata gives different results for the file and for its text");
    }
    if aw != xw {
        fail!(data(), "idl and idl2schemata give different warnings");
    }
    let kind = ip::lex(src).and_then(|(t, _)| ip::parse(&t)).map(|(f, _)| f.mode);
    let (a, x) = match (&a, &x) {
        (Err(d), Ok(x)) if d.text().contains("neither a protocol nor a schema") => {
            c.count("named types only");
            c.outcome(&format!("{x:?}"));
            // (unknown: a malformed comment or string, which the grammar says nothing about)
            if let None | Some(crate::ast::Mode::Schema { main: None, .. }) = kind {
                return self_contained(x).map(|_| ()).map_err(|e| Fail::new(e, data()));
            }
            fail!(data(), "idl takes the file for one of named types only");
        }
        (Err(d), Err(e)) => {
            if d != e {
                fail!(data(), "idl and idl2schemata report different errors");
            }
            c.count("refused by both");
            c.outcome(&d.text());
            return Ok(());
        }
        (Ok(a), Ok(x)) => (a, x),
        _ => fail!(data(), "one of idl and idl2schemata succeeds, the other fails"),
    };
    c.count("accepted by both");
    c.outcome(&a.to_string());
    let protocol = a.get("protocol").is_some() && a.get("messages").is_some();
    let doc = if protocol { ar::read_protocol(a) } else { ar::read_schema(a) };
    let doc = match doc {
        Ok(d) => d,
        Err(e) => fail!(data(), "idl's output: {e}"),
    };
    agree(&doc, x, protocol).map_err(|e| Fail::new(e, data()))
}

fn self_contained(x: &[(String, Value)]) -> Result<Vec<(String, Doc)>, String> {
    let mut out: Vec<(String, Doc)> = vec![];
    for (n, s) in x {
        let d = ar::read_schema(s).map_err(|e| format!("extracted schema {n}: {e}"))?;
        let Head::Schema(h) = &d.head else { unreachable!() };
        let Some(full) = h.get("ref").and_then(|r| r.as_str()).map(|s| s.to_string()) else { return Err(format!("extracted schema {n} is no named type")) };
        if full.rsplit('.').next() != Some(n) {
            return Err(format!("extracted schema {n} is called {full}"));
        }
        if out.iter().any(|o| o.0 == full) {
            return Err(format!("{full} is extracted twice"));
        }
        out.push((full, d));
    }
    // the copies of a type in different schemas are the same
    for (_, d) in &out {
        for (k, v) in &d.defs {
            match out.iter().find(|o| o.0 == *k) {
                None => return Err(format!("{k} is used but not extracted")),
                Some(o) if o.1.defs[k] != *v => return Err(format!("{k} differs between two extracted schemas: {v} and {}", o.1.defs[k])),
                _ => {}
            }
        }
    }
    Ok(out)
}

fn agree(doc: &Doc, x: &[(String, Value)], protocol: bool) -> Result<(), String> {
    let ex = self_contained(x)?;
    for (k, v) in &doc.defs {
        match ex.iter().find(|o| o.0 == *k) {
            None => return Err(format!("idl defines {k}, which is not extracted")),
            Some(o) if o.1.defs[k] != *v => return Err(format!("{k}: idl says {v}, idl2schemata {}", o.1.defs[k])),
            _ => {}
        }
    }
    if protocol {
        if let Some(o) = ex.iter().find(|o| !doc.defs.contains_key(&o.0)) {
            return Err(format!("{} is extracted but not in the protocol", o.0));
        }
        // the protocol lists its types in order of declaration; a type used by an earlier one
        // stands inside it
        let order: Vec<&String> = ex.iter().map(|o| &o.0).collect();
        let pos = |n: &String| order.iter().position(|x| *x == n).unwrap();
        let top: Vec<usize> = doc.top.iter().map(pos).collect();
        if top.windows(2).any(|w| w[0] > w[1]) {
            return Err(format!("extracted in the order {order:?}, top-level types of the protocol: {:?}", doc.top));
        }
    }
    Ok(())
}

pub fn run(cx: &mut Cx) {
    // sequences of declarations under every header
    let n = DECLS.len() + MSGS.len();
    let decl = |i: usize| if i < DECLS.len() { DECLS[i] } else { MSGS[i - DECLS.len()] };
    let max = cx.pick(2, 3);
    for (h, t) in HEADS {
        let m = if t.is_empty() { DECLS.len() + 1 } else { n };
        for len in 0..=max {
            for k in 0..m.pow(len as u32) {
                if cx.done() {
                    return;
                }
                let mut seq = vec![];
                let mut k = k;
                for _ in 0..len {
                    seq.push(decl(k % m));
                    k /= m;
                }
                // alone, and with what is needed to complete it after or before it
                let rest: Vec<&str> = BASE.iter().map(|i| DECLS[*i]).filter(|d| !seq.contains(d)).collect();
                for form in 0..3 {
                    let all: Vec<&str> = match form {
                        0 => seq.clone(),
                        1 => seq.iter().chain(&rest).copied().collect(),
                        _ => rest.iter().chain(&seq).copied().collect(),
                    };
                    let src = format!("{h} {} {t}", all.join(" "));
                    cx.case(|c| relate(c, &src));
                }
            }
        }
    }
    // everything that goes together, in every rotation, without one, with one repeated
    let good: Vec<&str> = DECLS.iter().enumerate().filter(|(i, _)| ![17, 19, 20, 21].contains(i)).map(|x| *x.1).collect();
    for (h, t) in HEADS {
        for r in 0..good.len() {
            let mut v: Vec<&str> = good[r..].iter().chain(&good[..r]).copied().collect();
            if !t.is_empty() {
                v.extend([MSGS[1], MSGS[2], MSGS[4]]);
            }
            for skip in 0..=v.len() {
                for again in 0..=v.len() {
                    if again < v.len() && !cx.thorough() && (r + skip + again) % 5 != 0 {
                        continue;
                    }
                    let mut w = v.clone();
                    if again < v.len() {
                        w.push(v[again]);
                    }
                    if skip < v.len() {
                        w.remove(skip);
                    }
                    let src = format!("{h} {} {t}", w.join(" "));
                    cx.case(|c| relate(c, &src));
                }
            }
        }
    }
    // one token off
    let mut bases = vec![];
    for (h, t) in HEADS {
        bases.push(format!("{h} {} {t}", DECLS[..11].join(" ")));
        bases.push(format!("{h} {} {t}", DECLS[11..19].join(" ")));
    }
    for b in &bases {
        let Some((toks, _)) = ip::lex(b) else { panic!("template") };
        let offs: Vec<(usize, usize)> = toks.iter().map(|t| (t.off, t.off + t.text.len())).collect();
        for (s, e) in &offs {
            for r in ["", "{", ";", "null", "R", "@", "int", "\"", "/**"] {
                if cx.done() {
                    return;
                }
                let src = format!("{}{r}{}", &b[..*s], &b[*e..]);
                cx.case(|c| relate(c, &src));
            }
        }
    }
    cx.note("sequences of declarations up to", max);
    cx.note("declarations", n);
    cx.note("headers", HEADS.len());
    // mixed with every other construct
    crate::mix::pairs_with(cx, &["*"], 31, &|c, f, s, _, _| relate(c, &crate::mix::write(f, s)));
}
