//! C10: no input makes the compiler panic, abort or hang; every report can be rendered.
use crate::ast::*;
use crate::drv;
use crate::engine::{Case, Cx, Res};
use crate::fail;
use serde_json::{Map, Value, json};
use std::path::Path;

/// Both entry points return; everything they report renders, with or without colours.
fn alive(c: &mut Case, src: &str) -> Res {
    c.state(src);
    c.steps(src.len());
    c.trace();
    let o = drv::idl(src);
    let ok = o.res.is_ok();
    report(c, src, o.res.as_ref().err(), &o.warnings)?;
    let s = drv::schemata(src);
    report(c, src, s.res.as_ref().err(), &s.warnings)?;
    c.count(if ok { "accepted" } else { "rejected" });
    Ok(())
}
fn report(c: &mut Case, src: &str, e: Option<&miette::Report>, w: &[miette::Report]) -> Res {
    for (r, err) in e.iter().map(|x| (*x, true)).chain(w.iter().map(|x| (x, false))) {
        let d = drv::diag(r);
        if d.chain.iter().all(|m| m.trim().is_empty()) {
            fail!(json!({"input": src}), "an empty report");
        }
        let compact = miette::NarratableReportHandler::new();
        let mut s = String::new();
        if compact.render_report(&mut s, r.as_ref()).is_err() || d.rendered.trim().is_empty() {
            fail!(json!({"input": src, "report": d.all()}), "a report does not render");
        }
        if err {
            c.outcome(&d.chain.iter().map(|m| m.chars().filter(|c| c.is_alphabetic()).take(24).collect::<String>()).collect::<Vec<_>>());
        }
    }
    Ok(())
}

const TOKENS: &[&str] = &[
    "protocol", "record", "error", "enum", "fixed", "schema", "namespace", "import", "idl", "union", "array", "map", "int", "null",
    "decimal", "void", "throws", "oneway", "P", "é", "`a`", "a.b", "a-b", "`", "{", "}", "(", ")", "<", ">", ";", ",", "=", "@", "@x(", "?", "[", "]",
    ":", "\"s\"", "\"", "\"é", "'", "1", "-", "0x", "1.5", "0xFFFFFFFFFF", "9999999999999999999999", "/**", "*/", "/** d */", "/* o */", "//", "/**/", "\\", "\u{1a}", "\0", "\u{feff}",
    "\u{1f600}", "\n", "true", "NaN", "-Infinity", "_",
];
const CHARS: &[&str] = &["/", "*", "\"", "\\", "u", "é", "\u{1f600}", "{", "}", "@", "\n", "\r", "a", "0", "`", ".", "-", "\u{1a}", "\0", "\u{301}", ";", " "];

fn seqs(cx: &mut Cx, alpha: &[&str], n: usize, sep: &str, wrap: &[(&str, &str)]) {
    let k = alpha.len();
    for len in 0..=n {
        for x in 0..k.pow(len as u32) {
            for (a, b) in wrap {
                cx.case(|c| {
                    let mut s = a.to_string();
                    let mut y = x;
                    for i in 0..len {
                        if i > 0 {
                            s.push_str(sep);
                        }
                        s.push_str(alpha[y % k]);
                        y /= k;
                    }
                    s.push_str(b);
                    alive(c, &s)
                });
            }
        }
    }
}

pub fn templates() -> Vec<File> {
    let ann = |n: &str, v: Value| vec![(n.to_string(), v)];
    let mut r = record(
        "R",
        vec![
            field_d(prim("int"), "a", json!(1)),
            Field { doc: Some("é".into()), ty: t(nul(rf("E"))), vars: vec![var("b"), Var { default: Some(json!("A")), anns: ann("order", json!("ignore")), ..var("c") }] },
            Field { doc: None, ty: T { anns: ann("x", json!([1.5, {"k": null}])), k: arr(un(vec![prim("null"), K::Decimal(4, Some(2)), map(K::Logical("date"))])) }, vars: vec![var("e")] },
        ],
    );
    r.anns = ann("aliases", json!(["n.Q", "1é"]));
    r.doc = Some("d".into());
    let mut e = enm("E", &["A", "B"]);
    e.body = Body::Enum { syms: vec!["A".into(), "B".into()], default: Some("A".into()) };
    let msg = Msg { name: "m".into(), resp: Some(arr(rf("E"))), params: vec![param(prim("int"), "p"), param(rf("R"), "q")], throws: vec!["X".into()], ..Default::default() };
    let one = Msg { name: "o".into(), oneway: true, ..Default::default() };
    let p = File { items: vec![Item::Named(r.clone()), Item::Named(error("X", vec![])), Item::Msg(msg), Item::Named(e.clone()), Item::Msg(one), Item::Named(fixed("F", 4))], ..protocol(Some("n"), vec![]) };
    let s = schema_file(Some("n"), Some(map(rf("R"))), vec![Item::Named(e), Item::Named(r), Item::Named(fixed("F", 4)), Item::Import(ImpKind::Idl, "x.avdl".into())]);
    vec![p, s]
}

fn text(toks: &[String]) -> String {
    let mut o = String::new();
    for t in toks {
        o.push_str(t);
        o.push(if matches!(t.as_str(), ";" | "{" | "}") { '\n' } else { ' ' });
    }
    o
}

fn token_edits(cx: &mut Cx) {
    for f in templates() {
        let base: Vec<String> = tokens(&f).into_iter().map(|t| t.s).collect();
        let n = base.len();
        // one edit
        for i in 0..n {
            cx.case(|c| {
                let mut t = base.clone();
                t.remove(i);
                alive(c, &text(&t))
            });
            cx.case(|c| {
                let mut t = base.clone();
                t.insert(i, base[i].clone());
                alive(c, &text(&t))
            });
            cx.case(|c| alive(c, &text(&base[..i])));
            cx.case(|c| alive(c, &text(&base[i..])));
            if i + 1 < n {
                cx.case(|c| {
                    let mut t = base.clone();
                    t.swap(i, i + 1);
                    alive(c, &text(&t))
                });
            }
            for x in TOKENS {
                cx.case(|c| {
                    let mut t = base.clone();
                    t[i] = x.to_string();
                    alive(c, &text(&t))
                });
                cx.case(|c| {
                    let mut t = base.clone();
                    t.insert(i, x.to_string());
                    alive(c, &text(&t))
                });
            }
        }
        // two edits
        let few: Vec<&str> = cx.pick(vec!["\"é", "}", "é"], vec!["{", "}", ";", "\"é", "/**", "é", "@", "(", ">", "record", "union", "\n"]);
        let reach = cx.pick(12, n);
        for i in 0..n {
            for j in i + 1..n.min(i + reach) {
                cx.case(|c| {
                    let mut t = base.clone();
                    t.remove(j);
                    t.remove(i);
                    alive(c, &text(&t))
                });
                cx.case(|c| {
                    let mut t = base.clone();
                    t.swap(i, j);
                    alive(c, &text(&t))
                });
                for x in &few {
                    cx.case(|c| {
                        let mut t = base.clone();
                        t[j] = x.to_string();
                        t.remove(i);
                        alive(c, &text(&t))
                    });
                    cx.case(|c| {
                        let mut t = base.clone();
                        t.insert(j, x.to_string());
                        t[i] = x.to_string();
                        alive(c, &text(&t))
                    });
                }
            }
        }
    }
}

/// Character edits, in texts with multi-byte characters throughout.
fn char_edits(cx: &mut Cx) {
    let texts = [
        "@namespace(\"n\")\nprotocol P {\n  /** é */ record Ré { int? a = 1; array<Z> b; @x(\"\\u00e9é\") map<int> c; }\n  // é\n  enum E { A, B } = A;\n  void m(int p) oneway;\n}\n",
        "namespace n.é;\r\nschema map<R>;\r\nrecord R { decimal(4,2) d; union { null, `é` } u = null; }\r\nfixed `é`(4);\r\nimport idl \"é.avdl\";\r\n",
    ];
    for s in texts {
        let cs: Vec<char> = s.chars().collect();
        for i in 0..=cs.len() {
            cx.case(|c| alive(c, &cs[..i].iter().collect::<String>()));
            if i == cs.len() {
                break;
            }
            cx.case(|c| {
                let mut t = cs.clone();
                t.remove(i);
                alive(c, &t.iter().collect::<String>())
            });
            cx.case(|c| alive(c, &cs[i..].iter().collect::<String>()));
            for x in CHARS {
                for insert in [false, true] {
                    cx.case(|c| {
                        let mut t = cs.clone();
                        let x = x.chars().next().unwrap();
                        if insert {
                            t.insert(i, x)
                        } else {
                            t[i] = x
                        }
                        alive(c, &t.iter().collect::<String>())
                    });
                }
            }
            let w = cx.pick(4, 40);
            for j in i + 1..(i + w).min(cs.len()) {
                cx.case(|c| {
                    let mut t = cs.clone();
                    t.drain(i..=j);
                    alive(c, &t.iter().collect::<String>())
                });
                if cx.thorough() {
                    for x in ["\"", "é", "{", "/"] {
                        cx.case(|c| {
                            let mut t = cs.clone();
                            t[j] = x.chars().next().unwrap();
                            t[i] = 'é';
                            alive(c, &t.iter().collect::<String>())
                        });
                    }
                }
            }
        }
    }
}

fn file_alive(c: &mut Case, root: &Path, desc: &str) -> Res {
    crate::engine::note_input(desc);
    c.state(desc);
    c.steps(desc.len());
    c.trace();
    let o = crate::world::idl_path(root, "/main.avdl", &["/inc".to_string()]);
    report(c, desc, o.res.as_ref().err(), &o.warnings)?;
    let s = crate::world::schemata_path(root, "/main.avdl", &["/inc".to_string()]);
    report(c, desc, s.res.as_ref().err(), &s.warnings)?;
    c.count(if o.res.is_ok() { "accepted" } else { "rejected" });
    Ok(())
}
fn import_bytes(c: &mut Case, kind: ImpKind, bytes: &[u8]) -> Res {
    let root = c.scratch().join("w");
    let _ = std::fs::create_dir_all(root.join("inc"));
    std::fs::write(root.join("main.avdl"), format!("protocol M {{ import {} \"x.json\"; record Main {{ a.R r; T t = {{}}; }} }}", kind.kw())).unwrap();
    std::fs::write(root.join("x.json"), bytes).unwrap();
    let desc = format!("import {} of {}", kind.kw(), String::from_utf8_lossy(bytes));
    file_alive(c, &root, &desc)
}

/// Every document one change away from `v`: a value replaced, a member removed, added or renamed.
pub fn json_edits(v: &Value, reps: &[Value], keys: &[&str], out: &mut Vec<Value>) {
    fn paths(v: &Value, p: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
        out.push(p.clone());
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    p.push(json!(i));
                    paths(x, p, out);
                    p.pop();
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    p.push(json!(k));
                    paths(x, p, out);
                    p.pop();
                }
            }
            _ => {}
        }
    }
    fn at<'a>(v: &'a mut Value, p: &[Value]) -> &'a mut Value {
        p.iter().fold(v, |v, s| match s {
            Value::String(k) => &mut v[k.as_str()],
            n => &mut v[n.as_u64().unwrap() as usize],
        })
    }
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    for p in &ps {
        for r in reps {
            let mut w = v.clone();
            *at(&mut w, p) = r.clone();
            out.push(w);
        }
        let mut w = v.clone();
        match at(&mut w, p) {
            Value::Object(m) => {
                let old: Vec<String> = m.keys().cloned().collect();
                let saved = m.clone();
                for k in &old {
                    *at(&mut w, p) = {
                        let mut m = saved.clone();
                        m.remove(k);
                        Value::Object(m)
                    };
                    out.push(w.clone());
                }
                for k in keys {
                    for r in reps {
                        let mut m: Map<String, Value> = saved.clone();
                        m.insert(k.to_string(), r.clone());
                        *at(&mut w, p) = Value::Object(m);
                        out.push(w.clone());
                    }
                }
            }
            Value::Array(a) => {
                let saved = a.clone();
                for r in reps.iter().chain(saved.first()) {
                    let mut a = saved.clone();
                    a.push(r.clone());
                    *at(&mut w, p) = Value::Array(a);
                    out.push(w.clone());
                }
            }
            _ => {}
        }
    }
}

fn imports(cx: &mut Cx) {
    let avpr = json!({
        "protocol": "J", "namespace": "a", "doc": "d", "x": 1,
        "types": [
            {"type": "record", "name": "R", "aliases": ["Q"], "fields": [
                {"name": "f", "type": "int", "default": 1, "order": "ignore", "aliases": ["g"]},
                {"name": "u", "type": ["null", {"type": "array", "items": {"type": "enum", "name": "E", "symbols": ["A"], "default": "A"}}], "default": null},
                {"name": "d", "type": {"type": "bytes", "logicalType": "decimal", "precision": 4, "scale": 2}},
            ]},
            {"type": "fixed", "name": "b.F", "size": 4},
            {"type": "error", "name": "X", "fields": []},
        ],
        "messages": {"m": {"doc": "d", "request": [{"name": "p", "type": {"type": "map", "values": "R"}}], "response": "null", "errors": ["X"], "one-way": false}},
    });
    let avsc = avpr["types"][0].clone();
    let reps: Vec<Value> = vec![
        json!(null), json!(true), json!(0), json!(-1), json!(1.5), json!(4294967296u64), json!(u64::MAX), json!(""), json!("int"), json!("R"), json!("."), json!("é.é"),
        json!([]), json!([[]]), json!({}), json!({"type": "int"}), json!({"type": {"type": "int"}}), json!({"type": "record", "name": "T", "fields": []}), json!(["null", "null"]),
    ];
    let keys = ["type", "name", "namespace", "fields", "symbols", "size", "items", "values", "default", "logicalType", "precision", "order", "aliases", "é", "request", "types"];
    for (kind, doc) in [(ImpKind::Protocol, &avpr), (ImpKind::Schema, &avsc), (ImpKind::Schema, &avpr), (ImpKind::Protocol, &avsc)] {
        let mut all = vec![doc.clone()];
        json_edits(doc, &reps, &keys, &mut all);
        if cx.thorough() && kind == ImpKind::Schema && std::ptr::eq(doc, &avsc) {
            // two changes
            let first: Vec<Value> = all.clone();
            let small: Vec<Value> = reps.iter().step_by(4).cloned().collect();
            for d in first.iter().step_by(7) {
                json_edits(d, &small, &["type", "default"], &mut all);
            }
        }
        for d in all {
            cx.case(|c| import_bytes(c, kind, d.to_string().as_bytes()));
        }
    }
    // byte-level damage
    let text = serde_json::to_string(&avpr).unwrap();
    for kind in [ImpKind::Protocol, ImpKind::Schema, ImpKind::Idl] {
        for i in 0..=text.len() {
            if i % cx.pick(3, 1) != 0 {
                continue;
            }
            cx.case(|c| import_bytes(c, kind, &text.as_bytes()[..i]));
            for b in [b"\xff".as_slice(), b"\xc3", b"\"", b"\\", b"/*", b"//", b"\0", b"{", b"]", "é".as_bytes(), b"\xef\xbb\xbf"] {
                cx.case(|c| {
                    let mut t = text.as_bytes().to_vec();
                    t.splice(i..i, b.iter().copied());
                    import_bytes(c, kind, &t)
                });
            }
        }
    }
    // short JSON texts
    let al = ["{", "}", "[", "]", "\"", ":", ",", "1", "-", "e", "null", "/", "*", "\\", "\n", " ", "\u{1f600}", "\"type\"", "\"record\"", "\"name\""];
    let n = cx.pick(3, 4);
    for len in 0..=n {
        for x in 0..al.len().pow(len as u32) {
            cx.case(|c| {
                let mut s = String::new();
                let mut y = x;
                for _ in 0..len {
                    s.push_str(al[y % al.len()]);
                    y /= al.len();
                }
                import_bytes(c, if x % 2 == 0 { ImpKind::Schema } else { ImpKind::Protocol }, s.as_bytes())
            });
        }
    }
    // import paths of every shape
    let paths = ["", ".", "..", "/", "main.avdl", "./main.avdl", "inc", "inc/", "nope", "x\u{0}y", "é", "inc/../main.avdl", "dangling", "loop", "file/x", "bad", "empty", "~", "a\nb", "%", "//", "inc//y.avdl", "\u{1f600}", "x.avdl "];
    for p in paths {
        for kind in [ImpKind::Protocol, ImpKind::Schema, ImpKind::Idl] {
            for q in ["x.avdl", ".", "nope"] {
                cx.case(|c| {
                    let root = c.scratch().join("w");
                    let _ = std::fs::remove_dir_all(&root);
                    std::fs::create_dir_all(root.join("inc")).unwrap();
                    let _ = std::os::unix::fs::symlink("nowhere", root.join("dangling"));
                    let _ = std::os::unix::fs::symlink("loop", root.join("loop"));
                    std::fs::write(root.join("file"), "").unwrap();
                    std::fs::write(root.join("empty"), "").unwrap();
                    std::fs::write(root.join("bad"), b"\xff\xfe\x00").unwrap();
                    std::fs::write(root.join("x.avdl"), "protocol X { import idl \"main.avdl\"; }").unwrap();
                    let main = format!("protocol M {{ import {} {}; import idl {}; }}", kind.kw(), json_string(p), json_string(q));
                    std::fs::write(root.join("main.avdl"), &main).unwrap();
                    file_alive(c, &root, &main)
                });
            }
        }
    }
}

/// Import cycles through files of any name.
const ODD_NAMES: &[&str] = &[
    "b", "B.AVDL", ".b", "b.", "b.json", "b.avdl.bak", "b c.avdl", "é.avdl", "-b", "#b", "b?", "b%20", "~b", "$b", "b*", "b.avsc", "b.avpr", "http:b", "b;", "sub.d/b", "sub.avdl/b", "b.txt", "\u{1f600}", "\\b", "b:1:2", "(b)", "[b]",
];
fn cycles(cx: &mut Cx) {
    for (i, p) in ODD_NAMES.iter().enumerate() {
        for (j, q) in ODD_NAMES.iter().enumerate() {
            if !cx.thorough() && i != j && (i + j) % 4 != 0 {
                continue;
            }
            for shape in 0..3 {
                cx.case(|c| {
                    let root = c.scratch().join("w");
                    let _ = std::fs::remove_dir_all(&root);
                    std::fs::create_dir_all(root.join("sub.d")).unwrap();
                    std::fs::create_dir_all(root.join("sub.avdl")).unwrap();
                    // an import inside a subdirectory goes up first
                    let from = |f: &str, t: &str| format!("import idl {};", json_string(&format!("{}{t}", if f.contains('/') { "../" } else { "" })));
                    let file = |f: &str, to: &[&str]| {
                        let text = format!("protocol {} {{ {} }}", if f == "main.avdl" { "M" } else { "X" }, to.iter().map(|t| from(f, t)).collect::<String>());
                        std::fs::write(root.join(f), &text).unwrap();
                        text
                    };
                    let (p, q) = (*p, *q);
                    let main = match shape {
                        0 => {
                            file(p, &[p, q]);
                            if p != q {
                                file(q, &[q, p]);
                            }
                            file("main.avdl", &[p, q])
                        }
                        1 => {
                            file(q, &["main.avdl"]);
                            file(p, &[q]);
                            file("main.avdl", &[p])
                        }
                        _ => {
                            file(p, &[q]);
                            if p != q {
                                file(q, &[p]);
                            }
                            file("main.avdl", &[q])
                        }
                    };
                    file_alive(c, &root, &main)
                });
            }
        }
    }
}

/// Long words of multi-byte characters: whatever is cut out of them at a byte offset is cut, in
/// one of the cases, inside a character.
fn long_words(cx: &mut Cx) {
    let places = [
        "record {W} { int a; }", "record R { int {W}; }", "record R { {W} a; }", "record R { int a {W} }", "enum E { {W} }", "enum E { A } = {W};", "{W}", "{W} R { }", "fixed {W}(4);",
        "void {W}();", "void m() throws {W};", "void m({W} p);", "import idl {W};", "import schema {W};", "record R { int a = {W}; }", "@{W}(1) record R { }", "@x({W}) record R { }",
        "@namespace({W}) record R { }", "@aliases([{W}]) record R { }", "record R { int @order({W}) a; }", "@logicalType({W}) fixed F(4);", "/** {W} */", "/** {W} */ record R { }", "// {W}\n}", "# {W}",
        "record R { E e = {W}; } enum E { A }", "record R { R r = {{W}: 1}; }", "record R { @{W}(1) union { int } u; }", "record R { union { {W}, {W} } u; }", "int {W} {", "record {W} } {",
    ];
    let chars = ["a", "é", "\u{3000}", "\u{1f600}", "\u{301}", "\u{4e00}"];
    let forms: [fn(&str) -> String; 5] = [|w| w.to_string(), |w| format!("`{w}`"), |w| format!("\"{w}\""), |w| format!("\"{w}"), |w| w.chars().map(|c| c.to_string()).collect::<Vec<_>>().join(".")];
    for ch in chars {
        for n in cx.pick(vec![20, 90, 400], vec![11, 20, 40, 90, 200, 400, 1500, 20000]) {
            for phase in 0..4 {
                for form in &forms {
                    cx.case(|c| {
                        let w = form(&format!("{}{}", &"abc"[..phase], ch.repeat(n)));
                        for p in places {
                            let body = p.replace("{W}", &w);
                            alive(c, &format!("protocol P {{ {body} }}"))?;
                            if n == 90 {
                                alive(c, &format!("namespace n; schema int; {body}"))?;
                                alive(c, &body)?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

/// Something to report far into a line.
fn wide_lines(cx: &mut Cx) {
    let things = [
        "record R { Nope n; }", "@aliases([\"a-b\"]) record R { }", "record R { @x(1) union { int } u; }", "record R { /** lost */ }", "# record R { }", "record R { int a = \"x\"; }", "record R { int a; int a; }", "record { }",
        "import idl \"nothere.avdl\";", "record R { string s = \"open; }", "enum E { A, A }", "void m() throws Nope;", "record Ré { Nopé n; } \n record S { }", "record R {\n Nope n; }", "/** a\n b */ } x", "",
    ];
    let fills: [(&str, &str, &str); 6] = [("/*", "x", "*/"), ("/*", "\t", "*/"), ("/*", "é", "*/"), ("/*", "漢", "*/"), ("", " ", ""), ("", "enum X{} ", "")];
    for n in [1 << 12, (1 << 14) - 30, 1 << 14, (1 << 15) + 9, (1 << 16) - 40, (1 << 16) - 20, 1 << 16, (1 << 17) + 1] {
        for t in things {
            for (a, f, b) in fills {
                if f.len() > 3 && n > 1 << 12 {
                    continue;
                }
                cx.case(|c| {
                    let fill = format!("{a}{}{b}", f.repeat(n));
                    alive(c, &format!("protocol P {{ {fill} {t} {t} }}"))?;
                    alive(c, &format!("protocol P {{\n {t} {fill} {t}\n }}"))?;
                    alive(c, &format!("protocol P {{ {t}\n{fill} }} {t}"))
                });
            }
        }
    }
}

/// Nesting and length.
fn sizes(cx: &mut Cx) {
    let deep = cx.pick(64, 200);
    let forms: Vec<(&str, Box<dyn Fn(usize) -> String>)> = vec![
        ("array", Box::new(|n| format!("schema {}int{};", "array<".repeat(n), ">".repeat(n)))),
        ("map", Box::new(|n| format!("protocol P {{ record R {{ {}int{} a; }} }}", "map<".repeat(n), ">".repeat(n)))),
        ("array/union", Box::new(|n| format!("schema {}int{};", "array<union{null,".repeat(n), "}>".repeat(n)))),
        ("json array", Box::new(|n| format!("protocol P {{ @x({}{}) record R {{ }} }}", "[".repeat(n), "]".repeat(n)))),
        ("json object", Box::new(|n| format!("protocol P {{ @x({}1{}) record R {{ }} }}", "{\"a\":".repeat(n), "}".repeat(n)))),
        ("default", Box::new(|n| format!("protocol P {{ record R {{ {}int{} a = {}{}; }} }}", "array<".repeat(n), ">".repeat(n), "[".repeat(n), "]".repeat(n)))),
        ("unclosed", Box::new(|n| format!("schema {}", "array<".repeat(n)))),
        ("unclosed json", Box::new(|n| format!("@x({}", "[{\"a\":".repeat(n)))),
        ("open braces", Box::new(|n| "record R { ".repeat(n))),
        ("closing", Box::new(|n| format!("protocol P {{ {}", "} ) ] >".repeat(n)))),
        ("annotations", Box::new(|n| format!("protocol P {{ {} record R {{}} }}", "@a(1)".repeat(n)))),
        ("docs", Box::new(|n| format!("protocol P {{ {} record R {{}} }}", "/** é */".repeat(n)))),
        ("fields", Box::new(|n| format!("protocol P {{ record R {{ {} }} }}", (0..n).map(|i| format!("int a{i};")).collect::<String>()))),
        ("chain", Box::new(|n| format!("protocol P {{ {} }}", (0..n).map(|i| format!("record T{i} {{ T{} a; }}", (i + 1) % n.max(1))).collect::<String>()))),
        ("back chain", Box::new(|n| format!("protocol P {{ {} }}", (0..n).map(|i| format!("record T{i} {{ union {{ null, T{} }} a = null; }}", i.saturating_sub(1))).collect::<String>()))),
        ("undefined", Box::new(|n| format!("protocol P {{ record R {{ {} }} }}", (0..n).map(|i| format!("Und{i} a{i};")).collect::<String>()))),
        ("dots", Box::new(|n| format!("protocol P {{ record R {{ {}Z a; }} }}", "a.".repeat(n)))),
        ("long name", Box::new(|n| format!("protocol P {{ record {} {{ {}é a; }} }}", "é".repeat(n), "é".repeat(n)))),
        ("long string", Box::new(|n| format!("protocol P {{ @x(\"{}\") record R {{ }} }}", "\\u00e9".repeat(n * 10)))),
        ("digits", Box::new(|n| format!("protocol P {{ @x({}) record R {{ double a = 1.{}e{}; long l = {}; }} }}", "9".repeat(n), "9".repeat(n), "9".repeat(n % 40), "0".repeat(n)))),
        ("hex float", Box::new(|n| format!("protocol P {{ record R {{ double a = 0x{}.{}p{}; }} }}", "f".repeat(n), "e".repeat(n), n))),
        ("quotes", Box::new(|n| format!("protocol P {{ {}", "\"".repeat(n)))),
        ("slashes", Box::new(|n| format!("protocol P {{ {}", "/*".repeat(n)))),
        ("errors", Box::new(|n| format!("protocol P {{ {} }}", "record int é ".repeat(n)))),
        ("lexer errors", Box::new(|n| format!("protocol P {{ {} }}", "#é\\".repeat(n)))),
    ];
    for (name, f) in &forms {
        for n in (0..=deep).step_by(cx.pick(4, 1)) {
            let _ = name;
            cx.case(|c| alive(c, &f(n)));
        }
        for n in [deep + 1, 255, 256, 257, 500] {
            cx.case(|c| alive(c, &f(n)));
        }
    }
    // JSON nesting
    for n in (0..=deep).step_by(8).chain([100, 126, 127, 128, 129, 130, 255, 256, 500]) {
        for kind in [ImpKind::Protocol, ImpKind::Schema] {
            cx.case(|c| import_bytes(c, kind, format!("{}\"int\"{}", "{\"type\":\"array\",\"items\":".repeat(n), "}".repeat(n)).as_bytes()));
            cx.case(|c| import_bytes(c, kind, format!("{}{}", "[".repeat(n * 4), "]".repeat(n * 4)).as_bytes()));
        }
    }
    cx.note("nesting_bound", 500u64);
}

pub fn run(cx: &mut Cx) {
    let n = cx.pick(2, 3);
    seqs(cx, TOKENS, n, " ", &[("", ""), ("protocol P { ", ""), ("protocol P { record R { ", " } }")]);
    seqs(cx, TOKENS, 2, "", &[("protocol P { record R { int a = ", "; } }"), ("protocol P { @x(", ") record R { } }"), ("protocol P { record R { union { ", " } a; } }")]);
    let n = cx.pick(3, 4);
    seqs(cx, CHARS, n, "", &[("", ""), ("protocol P { enum E { A } = A; \"", "")]);
    // the insides of doc comments: every kind of white space
    let space = ["\u{3000}", "\u{a0}", "\t", " ", "\n", "*", "x", "\u{85}", "\r", "\u{feff}"];
    let n = cx.pick(4, 5);
    seqs(cx, &space, n, "", &[("protocol P { /** a\n", " b\n */ record R { } }"), ("protocol P { /**", "*/ record R { } }")]);
    // and the indentations of two lines
    let mut ind = vec![String::new()];
    for _ in 0..3 {
        let longer: Vec<String> = ind.iter().flat_map(|p| [" ", "\t", "\u{3000}", "\u{85}"].map(|s| format!("{p}{s}"))).collect();
        ind.extend(longer);
    }
    ind.sort();
    ind.dedup();
    for a in &ind {
        cx.case(|c| {
            for b in &ind {
                alive(c, &format!("protocol P {{ /** d\n{a}b\n{b}c */ record R {{ }} }}"))?;
            }
            Ok(())
        });
    }
    token_edits(cx);
    char_edits(cx);
    imports(cx);
    cycles(cx);
    sizes(cx);
    long_words(cx);
    wide_lines(cx);
}
