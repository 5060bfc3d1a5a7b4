//! C20: diagnostics point at the offending text of the right file.
//!
//! Faulty pieces carry their acceptable marks as `⟦…⟧` (nested alternatives: the precise
//! offender, the whole construct, its first token).  They are placed at every position of
//! template files, behind ASCII and multi-byte text, in the main file or in imported ones.
use crate::drv::{self, Diag};
use crate::engine::{Case, Cx, Fail, Res};
use crate::fail;
use crate::idlparse::{self, LK};
use serde_json::{Value, json};
use std::path::PathBuf;

type R = (usize, usize);

/// Remove the markers; the ranges they enclose.
fn strip(s: &str) -> (String, Vec<R>) {
    let mut out = String::new();
    let mut open = vec![];
    let mut rs = vec![];
    for c in s.chars() {
        match c {
            '⟦' => open.push(out.len()),
            '⟧' => {
                let o = open.pop().unwrap();
                rs.push((o, out.len() - o));
            }
            c => out.push(c),
        }
    }
    assert!(open.is_empty());
    (out, rs)
}

/// (fault, usable as a result type, as a union branch or annotated place)
const TYPE_FAULTS: &[(&str, bool)] = &[
    ("⟦Missing⟧", true),
    ("⟦Missingé⟧", true),
    ("⟦`Missing`⟧?", true),
    ("⟦x.y.Missing⟧", true),
    ("array<⟦Missing⟧>", true),
    ("union { null, map<⟦Missing⟧> }", true),
    ("union { int, ⟦int⟧ }", true),
    ("union { null, /*é*/ string, ⟦@a(1) string⟧ }", true),
    ("union { int, ⟦union { string }⟧ }", true),
    ("union { int, ⟦string?⟧ }", true),
    ("⟦null?⟧", true),
    ("⟦null /*é*/ ?⟧", true),
    ("decimal(⟦0⟧)", true),
    ("decimal(⟦99999999999⟧)", true),
    ("decimal(⟦-1⟧, 0)", true),
    ("decimal(4, ⟦5⟧)", true),
    ("decimal(4, ⟦99999999999⟧)", true),
    ("⟦@é(1) Known⟧", false),
    ("⟦@a(\"é😀\") Known ?⟧", false),
    ("⟦@type(1)⟧ int", false),
    ("@a(1) ⟦@items(1)⟧ array<int>", false),
    ("⟦@precision(3) decimal(4, 2)⟧", false),
    ("@b(\"é\") @a({\"é\": [1, ⟦9223372036854775808⟧]}) int", false),
];
const TYPE_PLACES: &[(&str, bool)] = &[
    // file with `#` for the type; whether annotations may stand there
    ("protocol P { record Known { } record A { int z; # a; } }", true),
    ("protocol P { record Known { } error A { # a, b; int z; } }", true),
    ("protocol P { record Known { } record A { /** é */ array<#> a; } }", true),
    ("protocol P { record Known { } record A { map<union { null, array<#> }> a; } }", true),
    ("protocol P { record Known { } record A { union { null, map<#> } @order(\"ignore\") a = null; } }", true),
    ("protocol P { record Known { } void m(# a); }", true),
    ("protocol P { record Known { } @é(\"é\") int m(string s = \"é\", # a, int z); }", true),
    ("protocol P { record Known { } # m(); }", false),
    ("protocol P { record Known { } /** é */ # m(int a) throws Known; }", false),
    ("namespace n; schema #; record Known { }", true),
    ("schema map<#>; record Known { }", true),
    ("record Known { } record A { # a; } error B { }", true),
];
const MEMBER_FAULTS: &[&str] = &[
    "record ⟦int⟧ { int a; }",
    "/** é */ @a(\"é\") record ⟦`string`⟧ { }",
    "error ⟦n.`date`⟧ { }",
    "enum ⟦uuid⟧ { A }",
    "fixed ⟦`bytes`⟧(3);",
    "⟦⟦record⟧ ⟦Known⟧ { int b; }⟧",
    "⟦⟦enum⟧ ⟦`Known`⟧ { A } = A;⟧",
    "/** é */ ⟦⟦@⟧a(\"é\") fixed ⟦Known⟧(2);⟧",
    "⟦⟦error⟧ ⟦a-b⟧ { }⟧",
    "⟦⟦enum⟧ ⟦é-é⟧ { }⟧",
    "⟦⟦⟦@⟧namespace(\"1é\")⟧ fixed ⟦F⟧(2);⟧",
    "enum E { A, B, ⟦A⟧ }",
    "enum E { é, ⟦@a(\"é\") ⟦é⟧⟧, B } = B;",
    "enum E { é, /** é */ ⟦`é`⟧ }",
    "enum E { A, ⟦a-b⟧ }",
    "enum E { é } = ⟦A⟧;",
    "fixed F(⟦99999999999⟧);",
    "fixed Fé(⟦-1⟧);",
    "@a(⟦9223372036854775808⟧) record A { }",
    "@a([\"é\", ⟦-9223372036854775809⟧]) enum E { }",
    "@a({\"é\": {\"k\": ⟦0x8000000000000000⟧}}) fixed F(1);",
    "⟦@namespace(1)⟧ record A { }",
    "@a(1) ⟦@aliases(\"é\")⟧ enum E { }",
    "⟦@aliases([\"a\", 1])⟧ fixed F(1);",
    "⟦@fields(\"é\")⟧ record A { }",
    "⟦⟦import⟧ idl ⟦\"nope.avdl\"⟧;⟧",
    "⟦⟦import⟧ schema ⟦\"é.avsc\"⟧;⟧",
    "⟦⟦import⟧ protocol ⟦\"d/nope.avpr\"⟧;⟧",
];
const MEMBER_PLACES: &[&str] = &[
    "protocol P { record Known { } # }",
    "protocol P { record Known { int é; } # record Other { Known k; } void last(); }",
    "/** é */ @a(\"é\") protocol P { int m(string s = \"é😀\"); record Known { } # }",
    "namespace n; schema int; record Known { } # enum Other { }",
    "record Known { } #",
];
/// members of protocols only
const MESSAGE_FAULTS: &[&str] = &[
    "⟦int m() oneway;⟧",
    "/** é */ ⟦@a(\"é\") union { null } m(string é = \"é\") oneway;⟧",
    "void m(int a, ⟦long ⟦a⟧⟧);",
    "void m(int é, /** é */ ⟦@a(\"é\") long ⟦`é`⟧ = 2⟧, int b);",
    "⟦@a(1) Known m();⟧",
    "/** é */ ⟦@a(\"é\") Known? é(int é);⟧",
    "void m() throws ⟦Missing⟧;",
    "void m() throws Known, ⟦`Missing`⟧, Known;",
    "void m(int a = ⟦\"é\"⟧);",
    "void m(int ⟦a-b⟧);",
    "⟦@request(1)⟧ void m();",
    "void m(@a(⟦9223372036854775808⟧) int a);",
    "void m(int @a(\"é\") ⟦@order(1)⟧ a);",
    "@a(⟦9223372036854775808⟧) void m();",
];
const FIELD_FAULTS: &[&str] = &[
    "int ⟦z⟧;",
    "int é, /** é */ b, @a(\"é\") ⟦`é`⟧ = 1;",
    "int ⟦a-b⟧;",
    "int ⟦a.b⟧, c;",
    "int a = ⟦\"x\"⟧;",
    "string é = \"é\", b = ⟦[1, \"é\"]⟧;",
    "array<int> a = [], b = ⟦[1, \"é\"]⟧;",
    "map<string> a = ⟦{\"é\": \"é\", \"k\": 1}⟧;",
    "Known a = ⟦⟦{⟧\"z\": \"é\"}⟧;",
    "array<Known> a = [], b = ⟦⟦[⟧{}]⟧;",
    "Known a = ⟦\"é\"⟧, b = {\"z\": 1};",
    "int? a = ⟦\"x\"⟧;",
    "union { null, string } a = ⟦{}⟧;",
    "int a = ⟦9223372036854775808⟧;",
    "map<array<long>> a = {\"é\": [1, ⟦-0x8000000000000001⟧]};",
    "int ⟦@order(1)⟧ a;",
    "int @a(\"é\") ⟦@order(\"é\")⟧ a;",
    "int a, ⟦@aliases(1)⟧ b;",
    "int ⟦@aliases([\"é\", null])⟧ a;",
    "int ⟦@default(1)⟧ a;",
    "int @a(⟦9223372036854775808⟧) a;",
];
const FIELD_PLACES: &[&str] = &[
    "protocol P { record Known { int z; } record A { int z; # } }",
    "protocol P { record Known { int z; } error A { /** é */ string y = \"é\"; int z; # long w; } void m(); }",
    "schema A; record Known { int z; } @a(\"é\") record A { int z; # }",
    "record Known { int z; } record A { int z; # }",
];
const PROTOCOL_FAULTS: &[&str] = &[
    "protocol ⟦int⟧ { }",
    "/** é */ protocol ⟦`n`.string⟧ { record A { } }",
    "⟦@namespace(1)⟧ protocol P { }",
    "@a(\"é\") ⟦@types(\"é\")⟧ protocol P { }",
    "@a(⟦9223372036854775808⟧) protocol P { record A { } }",
];
/// Pieces that only cause a warning.
const WARN_MEMBERS: &[&str] = &[
    "⟦/** é */⟧ /** kept */ record W { }",
    "record ⟦/** é😀\n * x */⟧ W { }",
    "enum W { A, B ⟦/** é */⟧ }",
    "fixed W(⟦/***/⟧ 3);",
    "record W { int ⟦/** é */⟧ /** kept */ a; }",
    "record W { int a = ⟦/**x*/⟧ 1; }",
    "@a(⟦/**x*/⟧ 1) record W { }",
    "⟦@aliases([\"a\", \"é-é\"])⟧ record W { }",
    "@a(\"é\") ⟦@aliases([\"1\"])⟧ enum W { }",
    "record W { int ⟦@aliases([\"\"])⟧ a; }",
    "record W { ⟦⟦@é(\"é\")⟧ union { int, string }⟧ a; }",
    "record W { array<⟦⟦@a(1) @b(2)⟧ union { int }⟧> a; }",
    "record ⟦#⟧ W { }",
    "record W { int ⟦€⟧ a; string s = \"é\"; }",
    "record W { } ⟦😀⟧",
    "record W { /* é */ ⟦%%⟧ }",
];
const WARN_PLACES: &[&str] = &[
    "protocol P { # }",
    "protocol P { record Known { int é; } # record Other { Known k; } void last(); }",
    "/** é */ @a(\"é\") protocol P { int m(string s = \"é😀\"); # }",
    "namespace n; schema int; # enum Other { }",
    "# record Other { }",
];
/// (text before the file, text right before the fault)
const PREFIXES: &[&str] = &["", "// é😀\n", "/* é\n\n😀 */ /*é*/", "\r\n\t/*é*/\r\n  ", "// plain\n  "];
const CLOSE: &[&str] = &["", "/*é😀*/ ", "\n  ", "// é\r\n\t"];

/// How the faulty text is reached.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Via {
    Str,
    File,
    /// the main file imports it
    Imported,
    /// a file the main file imports imports it
    Twice,
    /// the main file imports it after another import and a type
    Later,
}
const VIAS: [Via; 5] = [Via::Str, Via::File, Via::Imported, Via::Twice, Via::Later];

struct Ran {
    err: Option<Diag>,
    warnings: Vec<Diag>,
    file: String,
}

fn drive(c: &mut Case, text: &str, via: Via, schemata: bool) -> Ran {
    c.state(&(text, via as u8, schemata));
    crate::engine::note_input(text);
    let root = c.scratch().join("w");
    let (main, file): (PathBuf, String) = if via == Via::Str {
        (PathBuf::new(), "in.avdl".into())
    } else {
        let _ = std::fs::create_dir_all(root.join("d"));
        let w = |p: &str, s: &str| std::fs::write(root.join(p), s).unwrap();
        let f = match via {
            Via::File => "main.avdl",
            _ => "d/bad.avdl",
        };
        w(f, text);
        match via {
            Via::Imported => w("main.avdl", "protocol Main { import idl \"d/bad.avdl\"; record MainR { } }"),
            Via::Twice => {
                w("main.avdl", "/* é */ protocol Main { import idl \"d/mid.avdl\"; record MainR { } }");
                w("d/mid.avdl", "// é😀\nprotocol Mid { record MidR { } import idl \"bad.avdl\"; }");
            }
            Via::Later => {
                w("main.avdl", "@a(\"é\") protocol Main { import idl \"d/ok.avdl\"; record MainR { OkR r; } /*é*/ import idl \"d/bad.avdl\"; OkR mainM(); }");
                w("d/ok.avdl", "protocol Ok { record OkR { int é; } }");
            }
            _ => {}
        }
        (root.join("main.avdl"), root.join(f).canonicalize().unwrap().to_string_lossy().into_owned())
    };
    let (err, ws) = if schemata {
        let mut i = avdl::Idl2Schemata::new();
        let r = if via == Via::Str { i.extract_str_named(drv::leak(text), "in.avdl") } else { i.extract(&main) };
        match r {
            Ok(o) => (None, o.warnings),
            Err(e) => (Some(e), i.drain_warnings()),
        }
    } else {
        let mut i = avdl::Idl::new();
        let r = if via == Via::Str { i.convert_str_named(drv::leak(text), "in.avdl") } else { i.convert(&main) };
        match r {
            Ok(o) => (None, o.warnings),
            Err(e) => (Some(e), i.drain_warnings()),
        }
    };
    Ran { err: err.as_ref().map(drv::diag), warnings: ws.iter().map(drv::diag).collect(), file }
}

fn info(text: &str, via: Via, schemata: bool, want: &[R], d: Option<&Diag>) -> Value {
    json!({
        "input": text,
        "how": format!("{via:?}{}", if schemata { " (idl2schemata)" } else { "" }),
        "acceptable marks": want.iter().map(|r| json!({"offset": r.0, "text": &text[r.0..r.0 + r.1]})).collect::<Vec<_>>(),
        "diagnostic": d.map(|d| d.text()),
        "marks": d.map(|d| format!("{:?} in {:?}", d.labels, d.file)),
    })
}

fn same_file(a: &str, b: &str) -> bool {
    a == b || std::fs::canonicalize(a).is_ok_and(|p| p.to_string_lossy() == b)
}

/// One diagnostic: one label, in the right file, at an acceptable place.
fn marked(d: &Diag, text: &str, file: &str, want: &[R]) -> Result<R, String> {
    if d.labels.is_empty() {
        return Err("the diagnostic has no source location".into());
    }
    let f = d.file.clone().unwrap_or_default();
    if !same_file(&f, file) {
        return Err(format!("the diagnostic names the file `{f}` instead of `{file}`"));
    }
    let mut last = (0, 0);
    for l in &d.labels {
        let r = (l.offset, l.len);
        match text.get(r.0..r.0 + r.1) {
            None => return Err(format!("marks {r:?}, which is not on character boundaries inside the file")),
            Some(s) if l.text.as_deref() != Some(s) => return Err(format!("the marked source text is {:?}, the file has {s:?} there", l.text)),
            Some(s) if !want.contains(&r) => return Err(format!("marks {s:?} at {}", r.0)),
            _ => last = r,
        }
    }
    Ok(last)
}

/// Everything a diagnostic (with its related ones) marks.
fn flat(d: &Diag) -> Vec<&Diag> {
    let mut v = vec![d];
    for r in &d.related {
        v.extend(flat(r));
    }
    v
}

/// The positions a message states ("line L:C", "Line L, char C") are those of `off`.
fn stated_position(msg: &str, text: &str, off: usize) -> Result<bool, String> {
    let nums = |s: &str| -> Option<(usize, usize)> {
        let n: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).take(2).map(|x| x.parse().unwrap()).collect();
        (n.len() == 2).then(|| (n[0], n[1]))
    };
    let line = text[..off].matches('\n').count() + 1;
    let col = text[..off].rsplit('\n').next().unwrap().chars().count();
    if let Some(i) = msg.find("line ").filter(|i| msg[i + 5..].starts_with(|c: char| c.is_ascii_digit())) {
        let g = nums(&msg[i..]).ok_or("no position")?;
        if g != (line, col) {
            return Err(format!("states the position {g:?}; it is ({line}, {col})"));
        }
        return Ok(true);
    }
    if let Some(i) = msg.find("Line ").filter(|i| msg[i + 5..].starts_with(|c: char| c.is_ascii_digit())) {
        let g = nums(&msg[i..]).ok_or("no position")?;
        if g != (line, col + 1) {
            return Err(format!("states the position {g:?}; it is ({line}, {})", col + 1));
        }
        return Ok(true);
    }
    Ok(false)
}

fn one_fault(c: &mut Case, text: &str, want: &[R], via: Via, schemata: bool) -> Res {
    let r = drive(c, text, via, schemata);
    c.steps(1);
    c.trace();
    c.count("one fault");
    let Some(d) = &r.err else { fail!(info(text, via, schemata, want, None), "the faulty file was accepted") };
    c.outcome(&d.chain.last().unwrap().split(|ch: char| !ch.is_alphabetic() && ch != ' ').next().map(|s| s.to_string()));
    c.sample(|| info(text, via, schemata, want, Some(d)));
    for x in flat(d) {
        if let Err(e) = marked(x, text, &r.file, want) {
            return Err(Fail::new(e, info(text, via, schemata, want, Some(x))));
        }
    }
    rendered(d, &r.file).map_err(|e| Fail::new(e, info(text, via, schemata, want, Some(d))))
}

/// The report as printed shows the file.
fn rendered(d: &Diag, file: &str) -> Result<(), String> {
    let base = file.rsplit('/').next().unwrap();
    let flat: String = d.rendered.split_whitespace().collect();
    if !flat.contains(&base.split_whitespace().collect::<String>()) {
        return Err(format!("the printed report does not show the file `{base}`: {}", d.rendered));
    }
    if d.rendered.contains("Failed to read contents") {
        return Err(format!("the printed report cannot show the source: {}", d.rendered));
    }
    Ok(())
}

fn one_warning(c: &mut Case, text: &str, want: &[R], via: Via, schemata: bool) -> Res {
    let r = drive(c, text, via, schemata);
    c.steps(1);
    c.trace();
    c.count("warnings");
    if let Some(d) = &r.err {
        fail!(info(text, via, schemata, want, Some(d)), "the file was refused");
    }
    if r.warnings.is_empty() {
        fail!(info(text, via, schemata, want, None), "no warning");
    }
    let mut seen: Vec<R> = vec![];
    for d in &r.warnings {
        // runs of characters that are no token may be marked one by one
        let mut w = want.to_vec();
        for q in want {
            let t = &text[q.0..q.0 + q.1];
            if t.chars().all(|c| c == '%') {
                w.extend(t.char_indices().map(|(i, c)| (q.0 + i, c.len_utf8())));
            }
        }
        let e = |m: String| Fail::new(m, info(text, via, schemata, want, Some(d)));
        let m = marked(d, text, &r.file, &w).map_err(e)?;
        let e = |m: String| Fail::new(m, info(text, via, schemata, want, Some(d)));
        for msg in &d.chain {
            stated_position(msg, text, m.0).map_err(e)?;
        }
        if seen.contains(&m) {
            return Err(e("the same place is marked twice".into()));
        }
        seen.push(m);
        rendered(d, &r.file).map_err(e)?;
    }
    c.outcome(&r.warnings[0].chain.last().map(|s| s.chars().filter(|c| c.is_alphabetic()).collect::<String>()));
    Ok(())
}

fn fill(place: &str, pre: &str, close: &str, fault: &str) -> String {
    let suffix = if pre.contains("plain") { "\n// é\n" } else { "" };
    format!("{pre}{}{suffix}", place.replacen('#', &format!("{close}{fault}"), 1))
}

fn singles(cx: &mut Cx) {
    let mut list: Vec<(&str, &str, bool)> = vec![];
    for (p, ann) in TYPE_PLACES {
        for (f, res) in TYPE_FAULTS {
            if *ann || *res {
                list.push((p, f, false));
            }
        }
    }
    for p in MEMBER_PLACES {
        for f in MEMBER_FAULTS {
            list.push((p, f, false));
        }
        if p.contains("protocol") {
            for f in MESSAGE_FAULTS {
                list.push((p, f, false));
            }
        }
    }
    for p in FIELD_PLACES {
        for f in FIELD_FAULTS {
            list.push((p, f, false));
        }
    }
    for f in PROTOCOL_FAULTS {
        list.push(("#", f, false));
    }
    for p in WARN_PLACES {
        for f in WARN_MEMBERS {
            list.push((p, f, true));
        }
    }
    for (place, fault, warn) in list {
        let named = !place.contains("protocol") && !place.contains("schema") && place != "#";
        for (pi, pre) in PREFIXES.iter().enumerate() {
            for (ci, close) in CLOSE.iter().enumerate() {
                for via in VIAS {
                    for schemata in [false, true] {
                        if cx.done() {
                            return;
                        }
                        // a file of types only: idl refuses it as a whole
                        if named && !schemata && matches!(via, Via::Str | Via::File) {
                            continue;
                        }
                        // whether the main schema of an imported file (which nobody uses) must
                        // resolve is unspecified
                        if (place.contains("schema #") || place.contains("schema map<#>")) && fault.contains("Missing") && !matches!(via, Via::Str | Via::File) {
                            continue;
                        }
                        if !cx.thorough() && via != Via::Str && (pi + ci) % 2 == 1 {
                            continue;
                        }
                        cx.case(|c| {
                            let (text, want) = strip(&fill(place, pre, close, fault));
                            if warn { one_warning(c, &text, &want, via, schemata) } else { one_fault(c, &text, &want, via, schemata) }
                        });
                    }
                }
            }
        }
    }
}

/// Several undefined references, over one or two files: each reported once, in the order of the
/// source, at its place.
fn undefined(cx: &mut Cx) {
    // `#i` are places for references, `Ki` harmless ones
    let tpl = "/** é */ protocol P { record K { #0 a; array<#1> é, b; } /*é*/ #2 m(#3 p, string s = \"é\", union { null, #4 } q) throws K, #5; record L { K k; #6? l; } map<#7> o(); }";
    let sch = "namespace n; schema map<#0>; record K { #1 a; } error L { int i; union { null, #2 } b; }";
    let imp = "protocol Q { record QR { #8 a; } /*😀*/ error QE { int? é; #9 b; } }";
    let names: &[&str] = &["Missing", "Autre", "é", "z.Z", "`Missing`", "Absent7"];
    let max = cx.pick(2, 3);
    for (t, n) in [(tpl, 8usize), (sch, 3)] {
        let import = t == tpl;
        let n = if import { n + 2 } else { n };
        // subsets of places of at most `max` elements, with every assignment of names
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        for k in 0..n {
            for s in sets.clone() {
                if s.len() < max {
                    let mut s = s.clone();
                    s.push(k);
                    sets.push(s);
                }
            }
        }
        for set in sets.into_iter().filter(|s| !s.is_empty()) {
            // with the places of the first and the last reference at one offset of their files
            let crossed = import && set[0] < 8 && *set.last().unwrap() >= 8;
            for code in 0..names.len().pow(set.len() as u32) {
                for (schemata, level) in [(false, false), (true, false), (false, true), (true, true)] {
                    if cx.done() {
                        return;
                    }
                    if level && !crossed {
                        continue;
                    }
                    cx.case(|c| {
                        let pick: Vec<&str> = (0..set.len()).map(|i| names[code / names.len().pow(i as u32) % names.len()]).collect();
                        let build = |t: &str| {
                            let mut s = t.to_string();
                            for k in 0..10 {
                                let v = match set.iter().position(|x| *x == k) {
                                    Some(i) => format!("⟦{}⟧", pick[i]),
                                    None => if import { "K" } else { "int" }.to_string(),
                                };
                                // the imported file knows nothing of K
                                let v = if k >= 8 && v == "K" { "int".into() } else { v };
                                s = s.replace(&format!("#{k}"), &v);
                            }
                            strip(&s)
                        };
                        let (mut text, mut rs) = build(t);
                        let (mut itext, mut irs) = build(imp);
                        if level {
                            let (a, b) = (rs[0].0 + "import idl \"d/q.avdl\";".len(), irs.last().unwrap().0);
                            let (x, y, gap) = if a < b { (&mut text, &mut rs, b - a) } else { (&mut itext, &mut irs, a - b) };
                            x.insert_str(0, &" ".repeat(gap));
                            y.iter_mut().for_each(|r| r.0 += gap);
                        }
                        let root = c.scratch().join("w");
                        std::fs::create_dir_all(root.join("d")).unwrap();
                        let text = if import {
                            std::fs::write(root.join("d/q.avdl"), &itext).unwrap();
                            let add = "import idl \"d/q.avdl\";";
                            text.replacen("protocol P {", &format!("protocol P {{{add}"), 1)
                        } else {
                            text
                        };
                        let shift = if import { "import idl \"d/q.avdl\";".len() } else { 0 };
                        std::fs::write(root.join("main.avdl"), &text).unwrap();
                        c.state(&(&text, &itext, schemata));
                        c.steps(set.len());
                        c.trace();
                        c.count("undefined references");
                        crate::engine::note_input(&text);
                        let p = root.join("main.avdl");
                        let err = if schemata { avdl::Idl2Schemata::new().extract(&p).err() } else { avdl::Idl::new().convert(&p).err() };
                        let data = |d: Option<&Diag>| json!({"main.avdl": text, "d/q.avdl": itext, "report": d.map(|d| flat(d).iter().map(|x| format!("{:?} {:?} {:?}", x.chain, x.labels, x.file)).collect::<Vec<_>>())});
                        let Some(e) = err else { fail!(data(None), "the undefined reference was accepted") };
                        let d = drv::diag_plain(&e);
                        // per file: the first place of each distinct name, in order
                        let mut seen: Vec<(bool, usize, String)> = vec![];
                        for x in flat(&d) {
                            let Some(l) = x.labels.first() else { fail!(data(Some(&d)), "a report without location") };
                            let f = x.file.clone().unwrap_or_default();
                            let main = f.ends_with("main.avdl");
                            let (tx, ranges) = if main { (&text, rs.iter().map(|r| (r.0 + shift, r.1)).collect::<Vec<_>>()) } else { (&itext, irs.clone()) };
                            if let Err(e) = marked(x, tx, &f, &ranges) {
                                return Err(Fail::new(e, data(Some(&d))));
                            }
                            if !main && !f.ends_with("q.avdl") {
                                fail!(data(Some(&d)), "names the file `{f}`");
                            }
                            let name = tx[l.offset..l.offset + l.len].replace('`', "");
                            if !x.chain.iter().any(|m| m.contains(&name)) {
                                fail!(data(Some(&d)), "the report marked {name:?} is about something else");
                            }
                            if seen.iter().any(|s| s.0 == main && s.1 == l.offset) {
                                fail!(data(Some(&d)), "a reference is reported twice");
                            }
                            if let Some(s) = seen.iter().find(|s| s.0 == main && s.1 > l.offset) {
                                fail!(data(Some(&d)), "reported after the later one at {}", s.1);
                            }
                            seen.push((main, l.offset, name));
                        }
                        // every distinct (resolved) name is reported
                        for (i, k) in set.iter().enumerate() {
                            let n = pick[i].replace('`', "");
                            if *k >= 8 && !import {
                                continue;
                            }
                            if !seen.iter().any(|s| s.2 == n) {
                                fail!(data(Some(&d)), "{n} is not reported");
                            }
                        }
                        c.outcome(&seen.len());
                        Ok(())
                    });
                }
            }
        }
    }
}

/// Two faults in one file: what is marked is one of them (the first of two that are found while
/// the declarations are read one after the other).
fn doubles(cx: &mut Cx) {
    let walk: Vec<&str> = MEMBER_FAULTS.iter().filter(|f| !f.contains("import") && !f.contains("Known") && !f.contains('-') && !f.contains("1é")).copied().collect();
    let walk: Vec<&str> = walk.into_iter().chain(["fixed F(⟦-1⟧);", "enum E { A } = ⟦B⟧;", "enum E { A, ⟦B-C⟧ }"]).collect();
    let late = ["⟦⟦record⟧ ⟦Known⟧ { int b; }⟧", "⟦⟦error⟧ ⟦a-b⟧ { }⟧", "⟦⟦import⟧ idl ⟦\"nope.avdl\"⟧;⟧", "record Q { Known k = ⟦⟦{⟧\"z\": \"é\"}⟧; }"];
    let undef = ["record U { ⟦Missing⟧ m; }", "/*é*/ void u(array<⟦é⟧> é);"];
    let all: Vec<(usize, &str)> = walk.iter().map(|f| (0, *f)).chain(late.iter().map(|f| (1, *f))).chain(undef.iter().map(|f| (2, *f))).collect();
    let tpls = [
        "/*é*/ protocol P { record Known { int z; } # /** d */ int m(string s = \"é\"); ## record Z { } }",
        "protocol P { record Known { int z; } ## # }",
    ];
    for tpl in tpls {
        for a in &all {
            for b in &all {
                if a.0 == 2 && a.1 == b.1 {
                    continue; // the second would be a duplicate
                }
                for schemata in [false, true] {
                    if cx.done() {
                        return;
                    }
                    cx.case(|c| {
                        let first_is_b = tpl.find("##").unwrap() < tpl.find("# ").unwrap();
                        let raw = tpl.replace("##", b.1).replacen('#', "\u{1}", 0);
                        // (the second marker is replaced first, so `#` is the first one)
                        let raw = raw.replacen('#', a.1, 1);
                        let (text, rs) = strip(&raw);
                        let (fst, snd) = if first_is_b { (b, a) } else { (a, b) };
                        let n1 = strip(fst.1).1.len();
                        let mut rs1 = rs.clone();
                        rs1.sort();
                        // ranges of the first fault: those below the second fault's text
                        let second_at = {
                            let s2 = strip(snd.1).0;
                            text.rfind(&s2).unwrap()
                        };
                        let (lo, hi): (Vec<R>, Vec<R>) = rs.iter().partition(|r| r.0 < second_at);
                        assert_eq!(lo.len(), n1, "{text}");
                        // stages: declarations are read, then registered in order, then resolved
                        let want: Vec<R> = match (fst.0, snd.0) {
                            (x, y) if x < y => lo,
                            (x, y) if x > y => hi,
                            (2, 2) => rs.clone(),
                            _ => lo,
                        };
                        let r = drive(c, &text, Via::Str, schemata);
                        c.steps(2);
                        c.trace();
                        c.count("two faults");
                        let Some(d) = &r.err else { fail!(info(&text, Via::Str, schemata, &want, None), "the faulty file was accepted") };
                        for x in flat(d) {
                            if let Err(e) = marked(x, &text, &r.file, &want) {
                                return Err(Fail::new(e, info(&text, Via::Str, schemata, &want, Some(x))));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

/// Faults inside imported JSON: reported at the import statement of the file that imports it.
fn json_imports(cx: &mut Cx) {
    let bad: &[(&str, &str)] = &[
        ("schema", "{"),
        ("schema", ""),
        ("schema", "{\"type\":\"record\",\"fields\":[]}"),
        ("schema", "{\"type\":\"record\",\"name\":\"R\",\"fields\":[{\"name\":\"a\"}]}"),
        ("schema", "{\"type\":\"fixed\",\"name\":\"F\"}"),
        ("schema", "{\"type\":\"record\",\"name\":\"R\",\"fields\":[{\"name\":\"a\",\"type\":\"Missing\"}]}"),
        ("protocol", "[} é"),
        ("protocol", "{\"protocol\":\"J\",\"types\":[{\"type\":\"é\"}]}"),
        ("protocol", "{\"protocol\":\"J\",\"types\":[{\"type\":\"record\",\"name\":\"R\",\"fields\":[{\"name\":\"a\",\"type\":\"Missing\"}]}]}"),
        ("protocol", "{\"protocol\":\"J\",\"messages\":{\"jm\":{\"request\":[],\"response\":\"Missing\"}}}"),
    ];
    let places = [
        "protocol P { # record A { } }",
        "/** é */ protocol P { record A { string s = \"é\"; } /*é*/ # int m(); }",
        "namespace n; schema int; # enum E { A }",
        "protocol P { import schema \"ok.avsc\"; /*é*/ # }",
    ];
    for (kind, json) in bad {
        for place in places {
            if json.contains("messages") && place.contains("schema int") {
                continue; // a schema file takes no messages
            }
            for pre in PREFIXES {
                for via in [Via::File, Via::Imported, Via::Twice, Via::Later] {
                    for schemata in [false, true] {
                        if cx.done() {
                            return;
                        }
                        cx.case(|c| {
                            let fault = format!("⟦⟦import⟧ {kind} ⟦\"bad.json\"⟧;⟧");
                            let (text, want) = strip(&fill(place, pre, "", &fault));
                            let root = c.scratch().join("w");
                            let _ = std::fs::create_dir_all(root.join("d"));
                            for d in ["", "d/"] {
                                std::fs::write(root.join(format!("{d}bad.json")), json).unwrap();
                                std::fs::write(root.join(format!("{d}ok.avsc")), "{\"type\":\"fixed\",\"name\":\"OkF\",\"size\":1}").unwrap();
                            }
                            let undefined = json.contains("Missing");
                            let two = undefined && place.contains("ok.avsc");
                            c.count("imported JSON");
                            let r = drive(c, &text, via, schemata);
                            c.steps(1);
                            c.trace();
                            let Some(d) = &r.err else { fail!(info(&text, via, schemata, &want, None), "the faulty import was accepted") };
                            if undefined && !d.text().contains("Missing") || !d.text().contains("bad.json") {
                                fail!(info(&text, via, schemata, &want, Some(d)), "the report does not name what is wrong");
                            }
                            for x in flat(d) {
                                if let Err(e) = marked(x, &text, &r.file, &want) {
                                    let f = Fail::new(e, info(&text, via, schemata, &want, Some(x)));
                                    return Err(if two { f.key("an undefined name in the second of several JSON imports") } else { f });
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}

/// Syntax errors: every token of the templates deleted, doubled or replaced.
fn syntax(cx: &mut Cx) {
    let tpls = [
        "/** é */ @a ( \"é😀\" ) protocol P { import idl \"x\" ; record R { int é = 1 , b ; array < map < string > > c = [ ] ; } // {é\n enum E { A , é } = A ; /* \" } é */ fixed F ( 4 ) ; union { null , R ? } m ( int p ) throws X ; error X { } void o ( ) oneway ; }",
        "namespace n ; /* {é */ schema array < union { int , decimal ( 4 , 2 ) } > ; record R { @a ( { \"é\" : [ true , null ] } ) R ? é ; } enum E { }",
    ];
    let subs: &[&str] = &["", "}", "{", "(", ")", ";", ",", "é", "record", "recrod", "union", "\"é\"", "7", "=", "<", "@"];
    for tpl in tpls {
        let lines: Vec<&str> = tpl.split(' ').collect();
        // tokens with the comments attached in front
        let mut toks: Vec<String> = vec![];
        let mut pend = String::new();
        let mut i = 0;
        while i < lines.len() {
            let w = lines[i];
            if w.starts_with("/*") || w.starts_with("//") {
                let mut cmt = w.to_string();
                while !(cmt.ends_with("*/") && cmt.len() > 3 || cmt.contains('\n')) {
                    i += 1;
                    cmt += " ";
                    cmt += lines[i];
                }
                pend += &cmt;
                pend += " ";
            } else {
                toks.push(format!("{pend}{w}"));
                pend.clear();
            }
            i += 1;
        }
        // pairs of edits
        if cx.thorough() {
            let subs = ["", "{", "}", ";", "é", "record", "(", "<"];
            for a in 0..toks.len() {
                for b in a + 1..toks.len() {
                    for code in 0..subs.len() * subs.len() {
                        if cx.done() {
                            return;
                        }
                        cx.case(|c| {
                            let mut v = toks.clone();
                            v[a] = subs[code % subs.len()].to_string();
                            v[b] = subs[code / subs.len()].to_string();
                            judge_syntax(c, &v.join(" "))
                        });
                    }
                }
            }
        }
        for at in 0..=toks.len() {
            for (si, sub) in subs.iter().enumerate() {
                for insert in [false, true] {
                    for style in 0..cx.pick(2, 4) {
                        if insert && si == 0 || !insert && at == toks.len() {
                            continue;
                        }
                        if cx.done() {
                            return;
                        }
                        cx.case(|c| {
                            let mut v = toks.clone();
                            if insert {
                                v.insert(at, sub.to_string());
                            } else {
                                v[at] = sub.to_string();
                            }
                            let text = match style {
                                0 => v.join(" "),
                                1 => v.join("\n"),
                                2 => v.join(" /*é*/\r\n\t"),
                                _ => format!("// é😀 {{ \" }}\n{}", v.join("\n /* { \" é */ ")),
                            };
                            judge_syntax(c, &text)
                        });
                    }
                    // cut short after the edit
                    if cx.done() {
                        return;
                    }
                    if !insert && si == 0 {
                        for tail in ["", " ", "\n// é\n", " /* { é */"] {
                            cx.case(|c| judge_syntax(c, &format!("{}{tail}", toks[..at].join(" "))));
                        }
                    }
                }
            }
        }
    }
}

fn judge_syntax(c: &mut Case, text: &str) -> Res {
    let Some((lx, bad)) = idlparse::lex(text) else {
        c.count("syntax: no token sequence");
        return Ok(());
    };
    if bad > 0 || lx.iter().any(|l| l.kind == LK::Sub) {
        return Ok(());
    }
    if idlparse::parse(&lx).is_some() {
        c.count("syntax: still a file");
        return Ok(());
    }
    let r = drive(c, text, Via::Str, false);
    c.steps(lx.len());
    c.trace();
    c.count("syntax errors");
    // the first token that cannot continue any file
    let k = (0..lx.len()).find(|k| !idlparse::viable(&lx[..k + 1])).unwrap_or(lx.len());
    let off = if k < lx.len() { lx[k].off } else { text.len() };
    let data = |d: Option<&Diag>| json!({"input": text, "first offending token": lx.get(k).map(|l| l.text.clone()), "at": off, "report": d.map(|d| flat(d).iter().map(|x| format!("{:?} {:?}", x.chain, x.labels)).collect::<Vec<_>>())});
    let Some(d) = &r.err else { fail!(data(None), "accepted") };
    c.outcome(&d.chain.last().unwrap().chars().filter(|c| c.is_alphabetic()).collect::<String>());
    // the report that a brace is never closed comes first, as the likely cause of the others
    let first = (d.chain.iter().any(|m| m.contains("end of file")) && k < lx.len() && !d.related.is_empty()) as usize;
    for (i, x) in flat(d).iter().enumerate() {
        let Some(l) = x.labels.first() else { fail!(data(Some(d)), "a report without location") };
        if x.file.as_deref() != Some("in.avdl") {
            fail!(data(Some(d)), "names the file {:?}", x.file);
        }
        // something missing at the end of the file
        if l.offset == text.len() && l.len <= 1 && i == 0 && k == lx.len() || i > 0 && l.offset == text.len() {
            continue;
        }
        if l.len == 0 || text.get(l.offset..l.offset + l.len).is_none() || l.text.as_deref() != text.get(l.offset..l.offset + l.len) {
            fail!(data(Some(d)), "marks {:?}, which is not a non-empty range on character boundaries", (l.offset, l.len));
        }
        // whole tokens (with the blanks and comments between them)
        let end = l.offset + l.len;
        let cut = lx.iter().any(|t| (t.off < l.offset) != (t.off + t.text.len() <= l.offset) || (t.off < end) != (t.off + t.text.len() <= end));
        let a = lx.iter().position(|t| t.off >= l.offset).unwrap_or(lx.len());
        let b = lx.iter().rposition(|t| t.off < end).unwrap_or(0);
        if cut || a > b {
            fail!(data(Some(d)), "marks {:?}, which is no sequence of tokens", l.text);
        }
        if i == first && b > k {
            fail!(data(Some(d)), "marks {:?}, behind the first offending token", l.text);
        }
    }
    // the position each message states is that of what it marks or, when the mark was moved to
    // the cause, that of a token up to the first offending one (or of the end of the file)
    for (i, x) in flat(d).iter().enumerate() {
        for m in &x.chain {
            let mut at: Vec<usize> = vec![x.labels[0].offset, text.len()];
            at.extend(lx.iter().take(if i == 0 { k + 1 } else { lx.len() }).map(|t| t.off));
            if !at.iter().any(|o| stated_position(m, text, *o).is_ok()) {
                fail!(data(Some(d)), "the position stated in {m:?} is not that of any token concerned");
            }
        }
    }
    Ok(())
}

/// Files without protocol and schema, and string literals that are never closed.
fn odd(cx: &mut Cx) {
    for text in ["", " ", "\n", "é", "€ record R { }", "\u{feff}record R { }", "\u{feff}", "// é\n", "/* é */ enum E { A }", "namespace é;", "😀", "import idl \"ok.avdl\";", "\u{1a} x", "€\u{1a} x"] {
        for via in [Via::Str, Via::File] {
            cx.case(|c| {
                let _ = std::fs::create_dir_all(c.scratch().join("w"));
                std::fs::write(c.scratch().join("w/ok.avdl"), "record R { }").unwrap();
                if via == Via::Str && text.starts_with("import") {
                    return Ok(());
                }
                let r = drive(c, text, via, false);
                c.steps(1);
                c.trace();
                c.count("files without protocol or schema");
                let Some(d) = &r.err else { fail!(info(text, via, false, &[], None), "compiled") };
                for x in flat(d) {
                    for l in &x.labels {
                        let ok = text.get(l.offset..(l.offset + l.len).min(text.len())).is_some();
                        if !ok || l.len == 0 && l.offset < text.len() && !text.contains('\u{1a}') {
                            fail!(info(text, via, false, &[], Some(x)), "marks {:?}, which is not a range on character boundaries inside the file", (l.offset, l.len));
                        }
                    }
                    if !same_file(&x.file.clone().unwrap_or_default(), &r.file) {
                        fail!(info(text, via, false, &[], Some(x)), "names another file");
                    }
                }
                rendered(d, &r.file).map_err(|e| Fail::new(e, info(text, via, false, &[], Some(d))))
            });
        }
    }
    let tpl = "/** é */ @a ( S ) protocol P { import idl S ; record R { @b ( { S : S } ) string é = S , /* \" é */ b = S ; @order ( S ) int c ; } // \"\n }";
    let n = tpl.matches('S').count();
    let places: Vec<usize> = tpl.match_indices(" S ").map(|m| m.0 + 1).collect();
    let _ = n;
    for (k, at) in places.iter().enumerate() {
        for lit in ["\"", "\"é😀", "\"abc\\\"", "\"é ) ; } "] {
            for pre in PREFIXES {
                for nl in ["\n", "\r\n", " // x\n"] {
                    if cx.done() {
                        return;
                    }
                    cx.case(|c| {
                        let mut t = String::from(*pre);
                        let mut off = 0;
                        for (i, ch) in tpl.char_indices() {
                            if i == *at {
                                off = t.len();
                                t += lit;
                                t += nl;
                            } else if places.contains(&i) {
                                t += "\"é\"";
                            } else {
                                t.push(ch);
                            }
                        }
                        let _ = k;
                        let r = drive(c, &t, Via::Str, false);
                        c.steps(1);
                        c.trace();
                        c.count("unclosed string literals");
                        let data = |d: Option<&Diag>| info(&t, Via::Str, false, &[(off, lit.len())], d);
                        let all: Vec<&Diag> = r.err.iter().flat_map(flat).chain(r.warnings.iter()).collect();
                        if r.err.is_none() {
                            fail!(data(None), "accepted");
                        }
                        for x in &all {
                            for l in &x.labels {
                                let g = t.get(l.offset..(l.offset + l.len).min(t.len()));
                                if g.is_none() || l.len == 0 {
                                    fail!(data(Some(x)), "marks {:?}, which is not a range on character boundaries inside the file", (l.offset, l.len));
                                }
                            }
                        }
                        let d = r.err.as_ref().unwrap();
                        if !d.labels.iter().any(|l| l.offset == off && l.offset + l.len <= off + lit.len()) {
                            fail!(data(Some(d)), "the error does not mark the unclosed literal");
                        }
                        for m in &d.chain {
                            if let Err(e) = stated_position(m, &t, off) {
                                fail!(data(Some(d)), "{e}");
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

pub fn run(cx: &mut Cx) {
    singles(cx);
    undefined(cx);
    doubles(cx);
    json_imports(cx);
    syntax(cx);
    odd(cx);
    cx.note("space", json!("every fault class at every template position behind ASCII and multi-byte text, in the main file and in imported ones, through both commands; sets of up to 2 (quick) or 3 (thorough) undefined references over two files; all pairs of faults; faulty JSON imports; every token of template files deleted, inserted or replaced"));
}

