//! C11: exactly the sentences of the Avro IDL grammar are accepted.
//!
//! The viable prefixes of the language (by an independent recogniser) are explored to a depth in
//! every context, each followed by every token; and template files are edited token by token.
use crate::ast::*;
use crate::engine::{Case, Cx, Fail, Res, note_input};
use crate::eval::{self, Content, Eval, Head, World};
use crate::fail;
use crate::idlparse::{self as ip, Lx};
use crate::judge;
use crate::{drv, world};
use serde_json::{Value, json};

const PUNCT: [&str; 14] = ["{", "}", "(", ")", "<", ">", "[", "]", ";", ":", ",", "=", "?", "@"];
const LITS: [&str; 8] = ["A", "n.B", "`int`", "1", "1.5", "NaN", "\"s\"", "#"];

fn all_tokens() -> Vec<&'static str> {
    PUNCT.iter().chain(LITS.iter()).chain(KEYWORDS.iter()).copied().collect()
}

fn the_world() -> World {
    let mut w = World::default();
    let imp = schema_file(None, None, vec![Item::Named(enm("Ei", &["Q"]))]);
    w.files.insert("/s.avdl".into(), Content::Idl(imp));
    w.files.insert(
        "/s.avsc".into(),
        Content::Json {
            text: r#"{"type":"fixed","name":"Fi","size":3}"#.into(),
            defs: vec![("Fi".into(), json!({"type":"fixed","name":"Fi","size":3}))],
            messages: Default::default(),
        },
    );
    w.files.insert(
        "/s.avpr".into(),
        Content::Json {
            text: r#"{"protocol":"I","messages":{"mi":{"request":[],"response":"null"}}}"#.into(),
            defs: vec![],
            messages: [("mi".to_string(), json!({"request":[],"response":{"type":"null"}}))].into(),
        },
    );
    w
}

fn verdict(c: &mut Case, src: &str, w: Option<&World>) -> Res {
    let Some((toks, bad)) = ip::lex(src) else {
        c.count("skipped: malformed string or comment");
        return Ok(());
    };
    note_input(src);
    let run = |root: &std::path::Path| {
        if w.is_some() {
            std::fs::write(root.join("m.avdl"), src).unwrap();
            (world::idl_path(root, "/m.avdl", &[]), world::schemata_path(root, "/m.avdl", &[]))
        } else {
            (drv::idl(src), drv::schemata(src))
        }
    };
    let root = c.scratch().join("w");
    if let Some(w) = w {
        if !root.join("s.avdl").exists() {
            world::materialize(w, &root);
        }
    }
    let Some((f, vague)) = ip::parse(&toks) else {
        let (o, s) = run(&root);
        c.state(src);
        c.steps(toks.len());
        c.trace();
        c.count("not a sentence");
        if let Ok(v) = &o.res {
            fail!(json!({"input": src, "compiler": v}), "a text that is not a sentence of the grammar is compiled");
        }
        if let Ok(v) = &s.res {
            fail!(json!({"input": src, "compiler": format!("{v:?}")}), "a text that is not a sentence of the grammar is extracted");
        }
        return Ok(());
    };
    if vague {
        c.count("skipped: literal outside the model");
        return Ok(());
    }
    let mut want = match w {
        Some(w) => Eval::new(Some(w)).run(&f, Some("/m.avdl")),
        None => eval::evaluate(&f),
    };
    match &mut want {
        Ok(m) => {
            for _ in 0..bad {
                m.warnings.insert(0, vec!["token recognition error".into()]);
            }
            if m.head == Head::NamedOnly {
                c.count("sentence: named types only");
            }
        }
        Err(r) if r.class == "duplicate-message" => {
            c.count("skipped: repeated message");
            return Ok(());
        }
        Err(r) if r.class == "import-kind" => {
            c.count("skipped: import of another kind of file");
            return Ok(());
        }
        // which of several problems is reported is not at stake here
        Err(r) => r.names.clear(),
    }
    c.count("sentence");
    let (o, s) = run(&root);
    judge::judge_out(c, src, &want, o)?;
    judge::judge_sout(c, src, &want, s)
}

struct Ctx {
    pre: &'static str,
    post: &'static str,
    /// tokens explored to the depth
    few: &'static [&'static str],
    depth: (usize, usize),
    /// every token explored to this depth
    all: (usize, usize),
}

const CTXS: &[Ctx] = &[
    Ctx { pre: "", post: "", few: &["protocol", "namespace", "schema", "record", "A", "{", "}", ";", "int", "\u{1a}"], depth: (6, 8), all: (3, 4) },
    Ctx { pre: "", post: "}", few: &["protocol", "@", "A", "(", ")", "1", "{", "}", "record"], depth: (7, 9), all: (2, 3) },
    Ctx { pre: "protocol P {", post: "}", few: &["record", "error", "A", "{", "}", "int", ";", "(", ")", "void"], depth: (6, 8), all: (3, 4) },
    Ctx { pre: "protocol P {", post: "A(); }", few: &["array", "<", ">", "int", "union", "{", "}", ",", "?", "void"], depth: (6, 7), all: (2, 3) },
    Ctx { pre: "protocol P { record A {", post: "} }", few: &["int", "A", ",", ";", "=", "1", "array", "<", ">", "@"], depth: (6, 7), all: (3, 3) },
    Ctx { pre: "protocol P { record A {", post: "f; } }", few: &["array", "map", "union", "decimal", "<", ">", "{", "}", "(", ")", ",", "int", "A", "?", "1", "@"], depth: (5, 7), all: (2, 3) },
    Ctx { pre: "protocol P { record A { int f", post: "; } }", few: &[",", "A", "=", "1", "@", "(", ")", "int"], depth: (6, 8), all: (3, 4) },
    Ctx { pre: "protocol P { record A { @A(", post: ") int f; } }", few: &["[", "]", "{", "}", ",", ":", "\"s\"", "1", "null"], depth: (6, 8), all: (3, 4) },
    Ctx { pre: "protocol P { enum A", post: "}", few: &["{", "}", ",", "A", "B", "=", ";", "@", "(", ")", "1"], depth: (7, 9), all: (3, 4) },
    Ctx { pre: "protocol P { fixed", post: "}", few: &["A", "(", ")", "1", ";", ",", "fixed", "2"], depth: (7, 9), all: (3, 4) },
    Ctx { pre: "protocol P { void A(", post: "); }", few: &["int", "A", "b", ",", "=", "1", "?", "@", "(", ")"], depth: (6, 7), all: (3, 4) },
    Ctx { pre: "protocol P { error A {} void m()", post: "; }", few: &["throws", "oneway", "A", ",", ";", "void", "(", ")"], depth: (6, 8), all: (3, 4) },
    Ctx { pre: "protocol P { import", post: "}", few: &["idl", "schema", "protocol", "\"s\"", ";", "import", "A", "(", ")"], depth: (6, 8), all: (3, 4) },
    Ctx { pre: "namespace n;", post: "", few: &["schema", "record", "fixed", "A", "{", "}", "(", "1", ")", ";", "int"], depth: (6, 8), all: (3, 4) },
    Ctx { pre: "schema", post: ";", few: &["array", "map", "union", "<", ">", "{", "}", ",", "int", "null", "?", "@", "A", "(", ")", "1"], depth: (5, 7), all: (2, 3) },
    Ctx { pre: "schema int; record A { A", post: "; }", few: &["?", "A", ",", "=", "null", ";", "int"], depth: (6, 8), all: (3, 4) },
];

fn lexed(s: &str) -> Vec<Lx> {
    ip::lex(s).map(|x| x.0).unwrap_or_default()
}

/// Every viable prefix up to the depth, followed by every token.
fn explore(cx: &mut Cx, ctx: &Ctx, alpha: &[&str], depth: usize, cur: &mut Vec<String>, seen: &mut u64) {
    for t in alpha {
        cur.push(t.to_string());
        let text = format!("{} {}", ctx.pre, cur.join(" "));
        let src = format!("{text} {}", ctx.post);
        *seen += 1;
        cx.case(|c| verdict(c, &src, None));
        if cur.len() < depth && !cx.done() && *t != "\u{1a}" && *t != "#" && ip::viable(&lexed(&text)) {
            explore(cx, ctx, alpha, depth, cur, seen);
        }
        cur.pop();
    }
}

fn templates() -> Vec<Vec<String>> {
    let a = r#"@namespace ( "n" ) @x ( 1 ) protocol P { import idl "s.avdl" ; import schema "s.avsc" ; import protocol "s.avpr" ;
        @aliases ( [ "O" , "n.O" ] ) record R { int a ; E ? b = null , c ; @k ( { "p" : [ 1 , true ] , "q" : null } ) array < map < F > > d = [ ] ;
        union { null , decimal ( 4 , 2 ) , n.X } @order ( "ignore" ) e ; }
        enum E { A , @s ( 1 ) B } = A ; fixed F ( 4 ) ; error X { date d = 1 ; } @y ( "s" ) void m ( R p , @t ( 1.5 ) string ? q = "s" ) throws X , n.X ; null o ( ) oneway ; }"#;
    let b = r#"namespace n ; schema @l ( 2 ) array < R ? > ; import idl "s.avdl" ; record R { uuid u = "" ; map < int > m = { "k" : -1 } ; n.F f ; } fixed n.F ( 12 ) ; enum E { } error X { R ? next = null ; }"#;
    let c = r#"enum E { A } record R { E e = "A" , e2 ; }"#;
    let d = r#"protocol `schema` { record `record` { `array` array ; `int`? null ; } record `array` { } fixed `fixed` ( 0 ) ; enum enum { enum , `record` } `record` record ( record void , enum ? throws ) ; record oneway ( ) throws throws ; error throws { } record union { union ? union ; } }"#;
    let e = r#"protocol P { array < union { int , string } > m ( int a , decimal ( 3 ) b = "x" ) ; boolean b ( ) ; F ? g ( ) throws F ; error F { int i , j = 2 , k ; } }"#;
    [a, b, c, d, e].iter().map(|s| s.split_ascii_whitespace().map(|x| x.to_string()).collect()).collect()
}

fn edits(cx: &mut Cx) {
    let w = the_world();
    let all = all_tokens();
    for t in templates() {
        let files = t.iter().any(|x| x == "import");
        let w = files.then_some(&w);
        let mut go = |cx: &mut Cx, v: &[String]| {
            let src = v.join(" ");
            cx.case(|c| verdict(c, &src, w));
        };
        // the template itself must be fine
        {
            let src = t.join(" ");
            cx.case(|c| {
                let f = ip::parse(&lexed(&src));
                if f.is_none_or(|x| x.1) {
                    return Err(Fail::new("checker: the template is not a sentence", Value::String(src.clone())));
                }
                verdict(c, &src, w)
            });
        }
        let n = t.len();
        for i in 0..=n {
            // truncation on either side
            go(cx, &t[..i]);
            go(cx, &t[i..]);
            for tok in &all {
                let mut v = t.clone();
                v.insert(i, tok.to_string());
                go(cx, &v);
                if i < n && t[i] != *tok {
                    let mut v = t.clone();
                    v[i] = tok.to_string();
                    go(cx, &v);
                }
            }
            // removal of up to 6 neighbours
            for k in 1..=6.min(n - i) {
                let mut v = t.clone();
                v.drain(i..i + k);
                go(cx, &v);
            }
            // repetition of up to 6 neighbours
            for k in 1..=6.min(n - i) {
                let mut v = t.clone();
                let part = t[i..i + k].to_vec();
                v.splice(i..i, part);
                go(cx, &v);
            }
            // exchange of two tokens
            for j in i + 1..n {
                if cx.thorough() || j - i <= 4 {
                    let mut v = t.clone();
                    v.swap(i, j);
                    go(cx, &v);
                }
            }
        }
        // two edits near each other
        let win = cx.pick(3, 8);
        let ptoks: &[&str] = cx.pick(&["A", ";"], &["A", ";", ",", "}", "int", "(", "@"]);
        for i in 0..n {
            for j in i + 1..(i + 1 + win).min(n) {
                let mut v = t.clone();
                v.remove(j);
                v.remove(i);
                go(cx, &v);
                for p in ptoks {
                    let mut v = t.clone();
                    v[j] = p.to_string();
                    v.remove(i);
                    go(cx, &v);
                    let mut v = t.clone();
                    v[i] = p.to_string();
                    v.remove(j);
                    go(cx, &v);
                    for q in ptoks {
                        let mut v = t.clone();
                        v[i] = p.to_string();
                        v[j] = q.to_string();
                        go(cx, &v);
                    }
                }
            }
        }
    }
}

/// Every string over small character alphabets where a token is expected.
fn chars(cx: &mut Cx) {
    let spots: [(&str, &str, &[char], usize, usize); 4] = [
        ("protocol P { record R { double f = ", "; } }", &['0', '1', '7', '.', 'e', 'f', 'x', '-', 'L'], 4, 6),
        ("protocol P { record R { int f = ", "; } }", &['0', '9', '-', '+', 'l', 'x', 'a', '_'], 4, 6),
        ("protocol P { record ", " { } }", &['a', '1', '_', '.', '-', '`', 'é'], 4, 6),
        ("protocol P { fixed F(", "); }", &['0', '1', 'x', 'a', '-', 'l', '8', '.'], 4, 5),
    ];
    for (pre, post, alpha, q, th) in spots {
        let n = cx.pick(q, th);
        for len in 0..=n {
            for x in 0..alpha.len().pow(len as u32) {
                let mut y = x;
                let mut s = String::new();
                for _ in 0..len {
                    s.push(alpha[y % alpha.len()]);
                    y /= alpha.len();
                }
                let src = format!("{pre}{s}{post}");
                cx.case(|c| verdict(c, &src, None));
            }
        }
    }
}

fn product(parts: &[Vec<String>]) -> Vec<String> {
    let mut out = vec![String::new()];
    for p in parts {
        out = out.iter().flat_map(|a| p.iter().map(move |b| format!("{a} {b}"))).collect();
    }
    out
}
fn list(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|s| s.to_string()).collect()
}
/// every list of up to n of the given, joined
fn lists(xs: &[String], n: usize, sep: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for k in 0..n {
        last = last.iter().flat_map(|a| xs.iter().map(move |b| if k == 0 { b.clone() } else { format!("{a} {sep} {b}") })).collect();
        out.extend(last.clone());
    }
    out
}

/// Sentences by derivation: every combination of the optional and repeated parts of each
/// construct, alone and among others.
fn sentences(cx: &mut Cx) {
    let th = cx.thorough();
    let ann = list(&["", "@a(1)", "@a(1) @b({\"x\":[]})", "@namespace(\"q\")", "@aliases([\"Z\",\"y.Z\"])", "@`a-b`(null)"]);
    let names = list(&["A", "`int`"]);
    let types = list(&[
        "int", "bytes", "string ?", "array < int >", "@l(1) array < @k(1) int >", "map < R ? >", "union { }", "union { null , int }", "union { @u(1) int }", "date", "local_timestamp_ms",
        "decimal ( 4 )", "decimal ( 4 , 2 )", "R", "@l(1) long", "@logicalType(\"x\") bytes", "array < union { array < int > , null } >", "R ?",
    ]);
    let few_types = list(&["int", "array < int >", "@l(1) string ?", "union { null , int }", "decimal ( 4 )", "R"]);
    let vars = list(&["f", "@o(1) f", "f , g", "f , @o(1) g"]);
    let mut kinds: Vec<(&str, Vec<String>)> = vec![];
    let symbols = lists(&list(&["A", "B", "@s(1) C", "`int`"]), 3, ",");
    kinds.push(("enums", product(&[ann.clone(), list(&["enum"]), names.clone(), list(&["{"]), symbols, list(&["}"]), list(&["", "= A ;", "= B ;", "= `int` ;", "= `A` ;"])])));
    kinds.push(("fixed types", product(&[ann.clone(), list(&["fixed"]), names.clone(), list(&["("]), list(&["0", "1", "0x10", "017", "5L", "1_0"]), list(&[") ;"])])));
    let field = product(&[types.clone(), vars.clone(), list(&[";"])]);
    let body: Vec<String> = lists(&field, 1, "").into_iter().chain(product(&[product(&[few_types.clone(), list(&["f ;"])]), product(&[few_types.clone(), list(&["g", "@o(1) g", "g , h"]), list(&[";"])])])).collect();
    kinds.push(("records", product(&[ann.clone(), list(&["record", "error"]), names.clone(), list(&["{"]), body, list(&["}"])])));
    // (the defaults, by the type they follow)
    let dflt = [("int", "1"), ("int ?", "null"), ("int ?", "-1"), ("string", "\"\""), ("array < int >", "[ ]"), ("array < int >", "[ 1 , 2 ]"), ("map < int >", "{ }"), ("map < int >", "{ \"a\" : 1 , \"b\" : 2 }"), ("union { null , int }", "null"), ("double", "1.5e3"), ("double", "NaN"), ("double", "-Infinity"), ("boolean", "false"), ("date", "7"), ("decimal ( 3 )", "\"\\u0001\"")];
    let mut d = vec![];
    for (t, v) in dflt {
        for w in ["f = V", "@o(1) f = V", "f , g = V", "f = V , g", "f = V , @o(1) g = V", "f = V , g = V , h"] {
            d.push(format!("record D {{ {t} {} ; }}", w.replace('V', v)));
            d.push(format!("record D {{ @l(1) {t} {} ; int z ; }}", w.replace('V', v)));
        }
        d.push(format!("void m ( {t} f = {v} ) ;"));
        d.push(format!("void m ( int e , {t} f = {v} , int g ) ;"));
    }
    kinds.push(("defaults", d));
    let par = product(&[few_types.clone(), list(&["p", "@o(1) p"])]);
    let two = product(&[few_types.clone(), list(&["p ,"]), few_types.clone(), list(&["q"])]);
    let params: Vec<String> = lists(&par, 1, ",").into_iter().chain(two).chain(list(&["int p , int q , R r"])).collect();
    let results: Vec<String> = types.iter().cloned().chain(list(&["void", "null", "@l(1) void"])).collect();
    let ends = list(&["", "oneway", "throws X", "throws X , n.Y", "throws X , X2 , X3"]);
    let m_ann = if th { ann.clone() } else { list(&["", "@a(1)"]) };
    kinds.push(("messages", product(&[m_ann, results, list(&["m ("]), params, list(&[")"]), ends, list(&[";"])])));
    let mut total = json!({});
    for (what, xs) in &kinds {
        total[*what] = json!(xs.len());
        for x in xs {
            let msg = *what == "messages" || x.starts_with("void");
            for k in 0..if th { 5 } else { 3 } {
                let src = match k {
                    0 => format!("protocol P {{ record R {{ }} error X {{ }} error X2 {{ }} error X3 {{ }} @namespace(\"n\") error Y {{ }} {x} }}"),
                    1 if !msg => format!("schema R ; record R {{ }} {x}"),
                    2 if !msg => format!("namespace a.b ; {x} record R {{ }}"),
                    3 => format!("@namespace(\"n\") protocol P {{ {x} record R {{ }} error X {{ }} error X2 {{ }} error X3 {{ }} error Y {{ }} }}"),
                    4 => format!("protocol P {{ {x} {x} }}"),
                    _ => continue,
                };
                cx.case(|c| verdict(c, &src, None));
            }
        }
    }
    // files: heads and sequences of declarations
    let w = the_world();
    let decls = list(&["record R { int f ; }", "@a(1) error X { }", "enum E { }", "@x(1) fixed F ( 1 ) ;", "import idl \"s.avdl\" ;", "import schema \"s.avsc\" ;", "import protocol \"s.avpr\" ;"]);
    let with_msg: Vec<String> = decls.iter().cloned().chain(list(&["void m ( ) ;", "@y(1) int n ( R r ) throws X ;"])).collect();
    let sub = list(&["", "\u{1a}"]);
    let protos = product(&[ann.clone(), list(&["protocol"]), list(&["P", "`int`", "a.P"]), list(&["{"]), lists(&with_msg, cx.pick(2, 3), ""), list(&["}"]), sub.clone()]);
    let schema = product(&[list(&["", "namespace n ;", "namespace n . m ;", "namespace `n` ;", "namespace n.m ;"]), list(&["", "schema int ;", "schema @l(1) R ;", "schema E ? ;", "schema array < Fi > ;"]), lists(&decls, cx.pick(3, 4), ""), sub]);
    total["protocol files"] = json!(protos.len());
    total["schema files"] = json!(schema.len());
    for x in protos.iter().chain(&schema) {
        cx.case(|c| verdict(c, x, Some(&w)));
    }
    cx.note("sentences by derivation", total);
}

pub fn run(cx: &mut Cx) {
    sentences(cx);
    let all = all_tokens();
    for ctx in CTXS {
        let mut n = 0;
        let d = cx.pick(ctx.depth.0, ctx.depth.1);
        explore(cx, ctx, ctx.few, d, &mut vec![], &mut n);
        cx.note(&format!("few tokens, context {:?} .. {:?}", ctx.pre, ctx.post), json!({"tokens": ctx.few.len(), "depth": d, "strings": n}));
        let mut n = 0;
        let d = cx.pick(ctx.all.0, ctx.all.1);
        explore(cx, ctx, &all, d, &mut vec![], &mut n);
        cx.note(&format!("all tokens, context {:?} .. {:?}", ctx.pre, ctx.post), json!({"tokens": all.len(), "depth": d, "strings": n}));
    }
    edits(cx);
    chars(cx);
}
