//! C19: layout, ordinary comments, trailing text and backticks never change the result.
use crate::drv;
use crate::engine::{Case, Cx, Fail, Res};
use crate::fail;
use crate::idlparse::{LK, lex};
use serde_json::{Value, json};

/// Templates over every construct; blanks separate tokens and documentation comments.
fn templates() -> Vec<Vec<String>> {
    let a = r#"/**doc_p*/ @namespace ( "n" ) @x ( 1 ) protocol P { import idl "s.avdl" ; import schema "s.avsc" ; import protocol "s.avpr" ;
        /**doc_r*/ @aliases ( [ "O" , "n.O" ] ) record R { int a ; /**f*/ E ? b = null , /**v*/ c ; @k ( { "p" : [ 1 , true ] , "q" : null } ) array < map < F > > d = [ ] ;
        union { null , decimal ( 4 , 2 ) , n.X } @order ( "ignore" ) e ; }
        enum E { A , @s ( 1 ) B } = A ; fixed F ( 4 ) ; error X { date d = 1 ; } /**m*/ @y ( "s" ) void m ( /**p*/ R p , @t ( 1.5 ) string ? q = "s" ) throws X , n.X ; null o ( ) oneway ; }"#;
    let b = r#"namespace n ; schema @l ( 2 ) array < R ? > ; /**r*/ record R { uuid u = "" ; map < int > m = { "k" : -1 } ; n.F f ; } fixed n.F ( 0x0C ) ; /**e*/ enum E { } error X { R ? next = null ; }"#;
    let d = r#"protocol `schema` { record `record` { `array` array ; `int` ? null ; double x = -Infinity , y = 1e5f , z = 0x1p3 ; } record `array` { } fixed `int` ( 010 ) ; enum enum { enum , `record` } `record` record ( record void , enum ? throws ) ; record oneway ( ) throws throws ; error throws { } record union { union ? union ; } }"#;
    let d = d.replace("`int`", "`fixed`");
    let e = r#"protocol P { array < union { int , string } > m ( int a , decimal ( 3 ) b = "x" ) ; boolean b ( ) ; F ? g ( ) throws F ; error F { int i , j = 2L , k = 0xFF ; } @java-class ( "a//b/*c*/" ) record D { @a-b.c ( [ 1 , 2.0 , "\"/*" ] ) long l = +1.0 ; } }"#.replace("+1.0", "-7");
    let f = r#"enum E { A } /**x*/ record R { E e = "A" , e2 ; }"#;
    // with warnings
    let g = r#"/**lost*/ /**kept*/ protocol P { /**gone*/ } "#;
    let h = r#"@namespace ( "n" ) protocol P { @aliases ( [ "a-b" ] ) record R { @z ( 1 ) union { int , string } u ; /**orphan*/ } }"#;
    // refused ones
    let i = r#"protocol P { record R { int a ; Missing m ; int b = "x" ; } }"#;
    let j = r#"protocol P { record R { int a ; int a ; } }"#;
    let k = r#"protocol P { enum E { A , A } record int2 { int x = "s" ; } }"#;
    [a, b, &d, &e, f, g, h, i, j, k].iter().map(|s| s.split_ascii_whitespace().map(|x| x.to_string()).collect()).collect()
}

const SEPS: [&str; 27] = [
    "", " ", "\t", "\n", "\r\n", "\r", "\u{c}", "  \t \n\n ", "//c\n", "//\n", "/*c*/", "/* * ** */", "/*\n*/", "//x\r\n", "/*//*/", "// /* \n", "/* \" ` */",
    " /* é\u{1f600} */ ", "// } ; \r", "/* record X {} */", "/*/ */", "// */\n", "/*a*//*b*/", "//a\n//b\n",
    // (the control character is an ordinary one in a comment)
    "/*\u{1a}*/", "// \u{1a} \n", " /* \u{1a}\u{1a} } */ ",
];
const ENDS: [&str; 8] = ["\u{1a}", "\n\u{1a}\n", " \u{1a} }", "\u{1a}protocol Q {}", "\u{1a}\u{1a}", "\u{1a} \" ", "\u{1a}/*", "\u{1a} /** lost */ é\u{0}\u{1b}"];

struct Base {
    toks: Vec<String>,
    files: bool,
    lexed: Vec<String>,
    /// the result of the plain layout: JSON or the error's class, warnings, schemas
    want: Result<(Value, usize), String>,
    schemas: Option<Vec<(String, Value)>>,
}

fn run_both(c: Option<&Case>, src: &str, files: bool) -> (Result<(Value, usize), String>, Option<Vec<(String, Value)>>) {
    let short = |e: &miette::Report| drv::diag_plain(e).chain.last().unwrap().clone();
    if files {
        let root = match c {
            Some(c) => c.scratch().join("w"),
            None => std::env::temp_dir().join(format!("avdl-mc-c19-{}", std::process::id())),
        };
        std::fs::create_dir_all(&root).unwrap();
        if !root.join("s.avdl").exists() {
            std::fs::write(root.join("s.avdl"), "protocol S { fixed SF(2); }").unwrap();
            std::fs::write(root.join("s.avsc"), "{\"type\":\"enum\",\"name\":\"SE\",\"symbols\":[]}").unwrap();
            std::fs::write(root.join("s.avpr"), "{\"protocol\":\"J\",\"messages\":{\"j\":{\"request\":[],\"response\":\"int\"}}}").unwrap();
        }
        std::fs::write(root.join("main.avdl"), src).unwrap();
        crate::engine::note_input(src);
        let r = avdl::Idl::new().convert(root.join("main.avdl"));
        let s = avdl::Idl2Schemata::new().extract(root.join("main.avdl"));
        if c.is_none() {
            let _ = std::fs::remove_dir_all(&root);
        }
        (r.map(|o| (o.json, o.warnings.len())).map_err(|e| short(&e)), s.ok().map(|o| o.schemas.into_iter().map(|s| (s.name, s.schema)).collect()))
    } else {
        let o = drv::idl(src);
        let n = o.warnings.len();
        let s = drv::schemata(src);
        (o.res.map(|v| (v, n)).map_err(|e| short(&e)), s.res.ok())
    }
}

fn lexed(s: &str) -> Option<Vec<String>> {
    let (v, bad) = lex(s)?;
    (bad == 0).then(|| v.into_iter().map(|x| x.text).collect())
}

fn judge(c: &mut Case, b: &Base, src: &str, what: &str) -> Res {
    c.state(src);
    c.steps(b.toks.len());
    // does the text still consist of the same tokens?
    match lexed(src) {
        Some(l) if l == b.lexed => {}
        _ => {
            c.count("other tokens");
            return Ok(());
        }
    }
    same(c, b, src, what)
}

fn same(c: &mut Case, b: &Base, src: &str, what: &str) -> Res {
    c.trace();
    c.count(what);
    let (got, schemas) = run_both(Some(c), src, b.files);
    c.outcome(&format!("{got:?}"));
    let data = || json!({"input": src, "plain": b.toks.join(" "), "want": format!("{:?}", b.want), "got": format!("{got:?}")});
    let ok = match (&got, &b.want) {
        (Ok(x), Ok(y)) => x == y,
        // refused either way: the words may hold positions
        (Err(_), Err(_)) => true,
        _ => false,
    };
    let e = if !ok {
        Some("the layout changes the result")
    } else if schemas != b.schemas {
        Some("the layout changes the extracted schemas")
    } else {
        None
    };
    match e {
        Some(m) => {
            let e = Fail::new(m, data());
            // `/**/` before a later comment end is read as one long comment
            let swallowed = src.match_indices("/**/").any(|(i, _)| src[i + 4..].contains("*/"));
            Err(if swallowed { e.key("/**/ before a later comment end") } else { e })
        }
        None => Ok(()),
    }
}

/// Tokens with `seps[i]` before token i and `seps[n]` at the end.
fn assemble(toks: &[String], sep: impl Fn(usize) -> &'static str) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        s.push_str(sep(i));
        s.push_str(t);
    }
    s.push_str(sep(toks.len()));
    s
}

pub fn run(cx: &mut Cx) {
    let mut bases = vec![];
    for t in templates() {
        let src = t.join(" ");
        let files = t.iter().any(|x| x == "import");
        let (want, schemas) = run_both(None, &src, files);
        let l = lexed(&src).unwrap();
        bases.push(Base { toks: t, files, lexed: l, want, schemas });
    }
    // the plain layout is what it should be: seven accepted (one by idl2schemata only), three refused
    cx.case(|c| {
        c.state("templates");
        for (i, b) in bases.iter().enumerate() {
            let ok = match i {
                4 => b.want.is_err() && b.schemas.is_some(),
                7..=9 => b.want.is_err() && b.schemas.is_none(),
                _ => b.want.is_ok() && b.schemas.is_some(),
            };
            if !ok {
                fail!(json!({"input": b.toks.join(" "), "got": format!("{:?} {:?}", b.want, b.schemas)}), "a template is not compiled as expected");
            }
        }
        Ok(())
    });
    for b in &bases {
        let n = b.toks.len();
        // 1. one style throughout, and styles by turns
        for s in SEPS {
            for t in SEPS {
                for k in 1..4usize {
                    cx.case(|c| judge(c, b, &assemble(&b.toks, |i| if i % (k + 1) == k { t } else { s }), "by turns"));
                    // tight: only where tokens would run together
                    cx.case(|c| {
                        let mut src = String::new();
                        for (i, x) in b.toks.iter().enumerate() {
                            let glue = src.chars().last().is_some_and(|p| "{}()<>;,=@?[]:\"/".contains(p)) || "{}()<>;,=@?[]:\"/".contains(x.chars().next().unwrap());
                            if i > 0 && !glue {
                                src.push_str(if s.is_empty() { " " } else { s });
                            } else if i % (k + 2) == 0 {
                                src.push_str(t);
                            }
                            src.push_str(x);
                        }
                        judge(c, b, &src, "tight")
                    });
                }
            }
        }
        // 2. one deviating gap
        for i in 0..=n {
            for s in SEPS {
                cx.case(|c| judge(c, b, &assemble(&b.toks, |j| if j == i { s } else { " " }), "one gap"));
                cx.case(|c| judge(c, b, &assemble(&b.toks, |j| if j == i { s } else { "\r\n" }), "one gap"));
            }
            // `/**/` is an ordinary, empty comment
            cx.case(|c| {
                let src = assemble(&b.toks, |j| if j == i { "/**/" } else { " " });
                same(c, b, &src, "an empty comment")
            });
            // 3. two deviating gaps
            for j in i + 1..=n {
                let near = j - i <= 2;
                for (x, s) in SEPS.iter().enumerate() {
                    for (y, t) in SEPS.iter().enumerate() {
                        let pick = if cx.thorough() { near || (x * 7 + y * 5 + i + j) % 6 == 0 } else { if near { (x + y + i) % 3 == 0 } else { (x * 27 + y + 11 * i + 17 * j) % 307 == 0 } };
                        if !pick {
                            continue;
                        }
                        cx.case(|c| judge(c, b, &assemble(&b.toks, |g| if g == i { s } else if g == j { t } else { " " }), "two gaps"));
                    }
                }
            }
        }
        // 4. text after an end-of-file control character
        let plain = b.toks.join(" ");
        for e in ENDS {
            cx.case(|c| same(c, b, &format!("{plain}{e}"), "trailing text"));
            for s in SEPS {
                if s.starts_with("//") || !s.is_empty() {
                    cx.case(|c| same(c, b, &format!("{plain}{s}{e}"), "trailing text"));
                }
            }
        }
        let alpha = ["}", "{", "\"", "/*", "*/", "//", "\n", "é", "`", "@", "protocol", " ", "\u{1a}", ";", "import idl \"x\";", "#"];
        let depth = cx.pick(2u32, 3);
        for len in 1..=depth {
            for x in 0..alpha.len().pow(len) {
                let mut y = x;
                let mut tail = String::new();
                for _ in 0..len {
                    tail.push_str(alpha[y % alpha.len()]);
                    y /= alpha.len();
                }
                cx.case(|c| same(c, b, &format!("{plain}\u{1a}{tail}"), "trailing text"));
            }
        }
        // 5. backticks around identifiers (and parts of them): singly, in pairs, all
        let mut quoted: Vec<(usize, String)> = vec![];
        for (i, x) in b.toks.iter().enumerate() {
            let kind = lex(x).and_then(|l| l.0.first().map(|t| t.kind));
            if kind != Some(LK::Ident) || x.contains('`') {
                continue;
            }
            let cuts: Vec<usize> = std::iter::once(0).chain(x.match_indices(['.', '-']).flat_map(|(j, _)| [j, j + 1])).chain([x.len()]).collect();
            // parts and separators alternate
            let parts: Vec<&str> = cuts.windows(2).map(|w| &x[w[0]..w[1]]).collect();
            let np = parts.len().div_ceil(2);
            for m in 1..1usize << np {
                let q: String = parts.iter().enumerate().map(|(j, p)| if j % 2 == 0 && m >> (j / 2) & 1 == 1 { format!("`{p}`") } else { p.to_string() }).collect();
                quoted.push((i, q));
            }
        }
        let with = |qs: &[&(usize, String)]| {
            let mut t = b.toks.clone();
            for (i, q) in qs.iter().copied() {
                t[*i] = q.clone();
            }
            t
        };
        for q in &quoted {
            cx.case(|c| same(c, b, &with(&[q]).join(" "), "backticks"));
            for r in &quoted {
                if r.0 > q.0 {
                    cx.case(|c| same(c, b, &with(&[q, r]).join(" "), "backticks"));
                }
            }
        }
        let all: Vec<&(usize, String)> = quoted.iter().collect();
        for s in SEPS {
            cx.case(|c| {
                let t = with(&all);
                let src = assemble(&t, |_| if s.is_empty() { " " } else { s });
                same(c, b, &src, "backticks")
            });
        }
    }
    cx.note("templates", bases.len());
    cx.note("separators", SEPS.len());
    // mixed with every other construct
    crate::mix::pairs(cx, &["spell"], 2);
}
