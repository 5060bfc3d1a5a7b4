//! C09: doc comments attach to the declaration they precede and are never lost.
use crate::ast::*;
use crate::drv;
use crate::engine::{Case, Cx, Fail, Res};
use crate::eval;
use crate::fail;
use crate::judge::*;
use serde_json::{Value, json};

// ------------------------------------------------------------------ text of a comment

/// Documentation text of a comment with this inner text (between `/**` and `*/`).
fn doc_text(inner: &str) -> Option<String> {
    let t = inner.trim();
    if t.is_empty() {
        return None;
    }
    let lines: Vec<&str> = t.split('\n').collect();
    let body = |l: &str| l.strip_suffix('\r').unwrap_or(l).to_string();
    let lead = |l: &str| l.len() - l.trim_start_matches([' ', '\t']).len();
    for stars in ["**", "*"] {
        let fits = lines.iter().enumerate().all(|(i, l)| {
            let b = body(l);
            if i == 0 { b.starts_with(stars) } else { b[lead(&b)..].starts_with(stars) || b.len() == lead(&b) }
        });
        if fits {
            let out: Vec<String> = lines
                .iter()
                .enumerate()
                .map(|(i, l)| {
                    let s = if i == 0 { l } else { &l[lead(l)..] };
                    match s.strip_prefix(stars) {
                        Some(r) => r.strip_prefix([' ', '\t']).unwrap_or(r).to_string(),
                        None => l.to_string(),
                    }
                })
                .collect();
            return Some(out.join("\n"));
        }
    }
    // indentation common to all further lines that are not blank
    let mut common: Option<String> = None;
    for l in &lines[1..] {
        let b = body(l);
        let n = lead(&b);
        if n == b.len() {
            continue;
        }
        common = Some(match common {
            None => b[..n].to_string(),
            Some(c) => c.chars().zip(b[..n].chars()).take_while(|(a, b)| a == b).map(|x| x.0).collect(),
        });
    }
    let ind = common.unwrap_or_default();
    let out: Vec<String> =
        lines.iter().enumerate().map(|(i, l)| if i == 0 { l.to_string() } else { l.strip_prefix(ind.as_str()).unwrap_or(l).to_string() }).collect();
    Some(out.join("\n"))
}

fn bodies(cx: &mut Cx, alphabet: &[&str], max: usize) {
    // every body up to `max` symbols; one file per common beginning
    let k = alphabet.len();
    let tail = 2usize.min(max);
    for n in 0..=max - tail {
        if n < max - tail && n > 0 {
            // shorter bodies are covered by the short tails of the longest beginnings
        }
        for x in 0..k.pow(n as u32) {
            let mut head = String::new();
            let mut y = x;
            for _ in 0..n {
                head.push_str(alphabet[y % k]);
                y /= k;
            }
            cx.case(|c| {
                let mut all = vec![head.clone()];
                for a in alphabet {
                    all.push(format!("{head}{a}"));
                    for b in alphabet {
                        all.push(format!("{head}{a}{b}"));
                    }
                }
                let mut src = String::from("protocol P {\n");
                let mut want = vec![];
                for b in &all {
                    // the comment ends at its first `*/`; `/**/` is an empty ordinary comment
                    if b.contains("*/") || b.starts_with('/') {
                        continue;
                    }
                    // whether white space other than blanks and tabs counts as indentation is open
                    if b.trim().split('\n').skip(1).any(|l| l[..l.len() - l.trim_start().len()].contains(['\u{3000}', '\u{a0}'])) {
                        continue;
                    }
                    src += &format!("/**{b}*/ enum T{} {{}}\n", want.len());
                    want.push((b.clone(), doc_text(b)));
                }
                src.push('}');
                c.state(&src);
                c.steps(want.len());
                let out = drv::idl(&src);
                let v = match &out.res {
                    Ok(v) => v,
                    Err(_) => fail!(json!({"input": src, "compiler": out.err_text()}), "rejected"),
                };
                if !out.warnings.is_empty() {
                    fail!(json!({"input": src, "warnings": out.warnings.iter().map(|w| w.to_string()).collect::<Vec<_>>()}), "unexpected warnings");
                }
                let ts = v["types"].as_array().unwrap();
                for (i, (b, w)) in want.iter().enumerate() {
                    let got = ts.get(i).map(|t| t.get("doc").cloned());
                    let w = w.clone().map(Value::String);
                    if got.as_ref() != Some(&w) {
                        fail!(json!({"input": format!("/**{b}*/ enum T {{}}"), "model": w, "compiler": got}), "documentation differs");
                    }
                    c.trace();
                    c.outcome(&format!("{w:?}"));
                }
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ place of a comment

/// Doc slots of a file in the order in which `tokens` renders them.
fn slots(f: &mut File) -> Vec<&mut Option<String>> {
    let mut out: Vec<&mut Option<String>> = vec![];
    if let Mode::Protocol { doc, .. } = &mut f.mode {
        out.push(doc);
    }
    for it in &mut f.items {
        match it {
            Item::Named(n) => {
                out.push(&mut n.doc);
                if let Body::Record { fields, .. } = &mut n.body {
                    for fl in fields {
                        out.push(&mut fl.doc);
                        for v in &mut fl.vars {
                            out.push(&mut v.doc);
                        }
                    }
                }
            }
            Item::Msg(m) => {
                out.push(&mut m.doc);
                for p in &mut m.params {
                    out.push(&mut p.doc);
                    out.push(&mut p.var.doc);
                }
            }
            _ => {}
        }
    }
    out
}

/// Tokens without docs, and for every gap (before token i, and one at the end) its slot.
fn gaps(f: &File) -> (Vec<Tok>, Vec<Option<usize>>) {
    let mut g = f.clone();
    for s in slots(&mut g) {
        *s = Some("x".into());
    }
    let mut toks = vec![];
    let mut gaps = vec![];
    let mut slot = 0;
    let mut pending = None;
    for t in tokens(&g) {
        if t.kind == TK::Doc {
            assert!(pending.is_none());
            pending = Some(slot);
            slot += 1;
        } else {
            gaps.push(pending.take());
            toks.push(t);
        }
    }
    gaps.push(None);
    (toks, gaps)
}

/// Without comment ends inside strings, so that `/**/` may stand anywhere.
fn plain(f: &File) -> File {
    let mut f = f.clone();
    for it in &mut f.items {
        if let Item::Named(n) = it {
            n.anns.clear();
            if let Body::Record { fields, .. } = &mut n.body {
                fields.iter_mut().for_each(|f| f.ty.anns.clear());
            }
        }
    }
    f
}

fn templates() -> Vec<File> {
    let ann = |n: &str, v: Value| vec![(n.to_string(), v)];
    let mut r = record(
        "R",
        vec![
            field(prim("int"), "a"),
            Field { doc: None, ty: t(nul(rf("E"))), vars: vec![var("b"), Var { default: Some(json!(null)), ..var("c") }, Var { anns: ann("order", json!("ignore")), ..var("d") }] },
            Field { doc: None, ty: T { anns: ann("x", json!([1, {"k": "/** s */"}])), k: arr(un(vec![prim("null"), K::Decimal(4, Some(2))])) }, vars: vec![var("e")] },
        ],
    );
    r.anns = ann("y", json!("/** s */"));
    let mut e = enm("E", &["A", "B"]);
    e.body = Body::Enum { syms: vec!["A".into(), "B".into()], default: Some("A".into()) };
    let msg = Msg { name: "m".into(), resp: Some(arr(rf("E"))), anns: ann("z", json!(1)), params: vec![param(prim("int"), "p"), Param { doc: None, ty: t(rf("R")), var: Var { default: Some(json!({})), ..var("q") } }], throws: vec!["X".into()], ..Default::default() };
    let mut msg = msg;
    msg.params[1].var.default = None;
    let one = Msg { name: "o".into(), oneway: true, ..Default::default() };
    let p = File {
        items: vec![Item::Named(r.clone()), Item::Named(error("X", vec![])), Item::Msg(msg), Item::Named(e.clone()), Item::Msg(one), Item::Named(fixed("F", 4))],
        ..protocol(Some("n"), vec![])
    };
    let s = schema_file(Some("n"), Some(map(rf("R"))), vec![Item::Named(e), Item::Named(r), Item::Named(fixed("F", 4)), Item::Named(error("X", vec![field(prim("int"), "i")]))]);
    vec![p, s]
}

#[derive(Clone, Copy, PartialEq)]
enum Cm {
    /// documentation with text
    D(&'static str),
    /// not documentation
    O(&'static str),
}
use Cm::*;
/// What may stand in a gap.
const KINDS: &[&[Cm]] = &[
    &[D("/** d */")],
    &[O("/* o */")],
    &[O("// o\n")],
    &[D("/** d */"), D("/** é2 */")],
    &[D("/** d */"), O("// o\n")],
    &[D("/** d */"), O("/* o */")],
    &[D("/** d */"), O("/**/")],
    &[O("/**/")],
    &[D("/** */")],
    &[D("/***/")],
    &[D("/** d */"), D("/** */")],
    &[D("/** */"), D("/** d */")],
    &[O("/* o */"), D("/** d */")],
    &[O("/*/ o */")],
    &[O("/* /** o */")],
    &[O("// /** o */\n")],
    &[O("//** o */\r\n")],
    &[D("/** // d */")],
    &[D("/** /* d */")],
    &[D("/** é\n * d\n */")],
    &[D("/** \"d\" */"), O("//\n"), D("/** x */"), O("/* \n */"), D("/** y */")],
    &[D("/**d*/")],
    &[D("/** d **/")],
];

struct Placed {
    src: String,
    file: File,
    /// (line, column, text) of every comment that belongs to nothing
    orphans: Vec<(usize, usize, String)>,
}

fn place(f: &File, toks: &[Tok], gaps: &[Option<usize>], at: &[(usize, usize)]) -> Placed {
    let mut file = f.clone();
    let mut src = String::new();
    let mut orphans = vec![];
    let mut docs: Vec<(usize, String)> = vec![];
    for g in 0..=toks.len() {
        let cms: Vec<Cm> = at.iter().filter(|x| x.0 == g).flat_map(|x| KINDS[x.1].iter().copied()).collect();
        let last = cms.iter().rposition(|c| matches!(c, D(_)));
        for (i, cm) in cms.iter().enumerate() {
            let s = match cm {
                D(s) => {
                    if gaps[g].is_some() && Some(i) == last {
                        if let Some(d) = doc_text(&s[3..s.len() - 2]) {
                            docs.push((gaps[g].unwrap(), d));
                        }
                    } else {
                        let line = src.matches('\n').count() + 1;
                        let col = src[src.rfind('\n').map_or(0, |x| x + 1)..].chars().count() + 1;
                        orphans.push((line, col, s.to_string()));
                    }
                    s
                }
                O(s) => s,
            };
            src.push_str(s);
            src.push(' ');
        }
        if let Some(tk) = toks.get(g) {
            src.push_str(&tk.s);
            src.push(if matches!(tk.s.as_str(), ";" | "{" | "}") { '\n' } else { ' ' });
        }
    }
    {
        let mut sl = slots(&mut file);
        for (i, d) in docs {
            *sl[i] = Some(d);
        }
    }
    Placed { src, file, orphans }
}

fn judge9(c: &mut Case, p: &Placed) -> Res {
    // a known finding: `/**/` swallows everything up to a later `*/`
    if p.src.rfind("/**/").is_some_and(|i| p.src[i + 4..].contains("*/")) {
        c.count("skipped: /**/ before a later */ (known finding)");
        return Ok(());
    }
    let mut want = eval::evaluate(&p.file);
    let Ok(m) = &mut want else { panic!("template rejected: {want:?}") };
    let mut w: Vec<Vec<String>> = p.orphans.iter().map(|(l, k, _)| vec![format!("Line {l}, char {k}:")]).collect();
    w.append(&mut m.warnings);
    m.warnings = w;
    let out = drv::idl(&p.src);
    for (r, (_, _, text)) in out.warnings.iter().zip(&p.orphans) {
        let d = drv::diag_plain(r);
        if d.file.as_deref() != Some("in.avdl") || d.labels.len() != 1 || d.labels[0].text.as_ref() != Some(text) {
            return Err(Fail::new(format!("the warning does not mark the comment {text:?}"), json!({"input": p.src, "warning": d.all()})));
        }
    }
    judge_out(c, &p.src, &want, out)?;
    judge_schemata(c, &p.src, &want)
}

pub fn run(cx: &mut Cx) {
    let ts = templates();
    // 1. every comment kind in every gap
    for f in &ts {
        let (toks, gaps) = gaps(f);
        for g in 0..gaps.len() {
            for k in 0..KINDS.len() {
                cx.case(|c| judge9(c, &place(f, &toks, &gaps, &[(g, k)])));
            }
        }
    }
    for f in &ts {
        let f = plain(f);
        let (toks, gaps) = gaps(&f);
        for g in 0..gaps.len() {
            for k in [6, 7] {
                cx.case(|c| judge9(c, &place(&f, &toks, &gaps, &[(g, k)])));
                for h in 0..g {
                    cx.case(|c| judge9(c, &place(&f, &toks, &gaps, &[(h, 0), (g, k)])));
                }
            }
        }
    }
    // the empty ordinary comment before a later comment
    cx.case(|c| {
        let src = "protocol P { /**/ enum A {} /** d */ enum B {} }";
        let f = protocol(None, vec![Item::Named(enm("A", &[])), Item::Named(Named { doc: Some("d".into()), ..enm("B", &[]) })]);
        judge_src(c, src, &eval::evaluate(&f)).map_err(|f| f.key("empty comment /**/ with a later */ in the file"))
    });
    // 2. comments in two gaps
    let few: Vec<usize> = cx.pick(vec![0, 3, 5], (0..12).collect());
    let reach = cx.pick(usize::MAX, usize::MAX);
    for f in &ts {
        let (toks, gaps) = gaps(f);
        for g in 0..gaps.len() {
            for h in g + 1..gaps.len() {
                if h - g > reach {
                    continue;
                }
                for &a in &few {
                    for &b in &few {
                        cx.case(|c| judge9(c, &place(f, &toks, &gaps, &[(g, a), (h, b)])));
                    }
                }
            }
        }
    }
    // 3. comments in three neighbouring doc slots or gaps
    for f in &ts {
        let (toks, gaps) = gaps(f);
        let sl: Vec<usize> = (0..gaps.len()).filter(|&g| gaps[g].is_some() || cx.thorough() && g % 3 == 0).collect();
        for i in 0..sl.len() {
            for j in i + 1..sl.len() {
                for k in j + 1..sl.len() {
                    if !cx.thorough() && k - i > 6 {
                        continue;
                    }
                    cx.case(|c| judge9(c, &place(f, &toks, &gaps, &[(sl[i], 0), (sl[j], 3), (sl[k], 19)])));
                }
            }
        }
    }
    // 4. every body
    let a = ["a", "*", " ", "\n", "\t", "\r\n", "é"];
    let n = cx.pick(5, 7);
    bodies(cx, &a, n);
    let b = ["a", "*", "\n", " ", "/", "@", "\"", "\\"];
    let n = cx.pick(4, 6);
    bodies(cx, &b, n);
    // indentation, also by white space outside ASCII
    let w = ["\n", "\t", " ", "\u{3000}", "a", "\u{a0}"];
    let n = cx.pick(5, 7);
    bodies(cx, &w, n);
    // several lines, each indented in its own way
    let ind = ["\n", "\n ", "\n\t", "\n \t", "\n\t ", "\n  ", "\n\t\t", "a", "* "];
    let n = cx.pick(5, 6);
    bodies(cx, &ind, n);
    // longer ones over the decoration alphabet
    let d = ["a", "*", " ", "\n"];
    let n = cx.pick(7, 10);
    bodies(cx, &d, n);
    cx.note("comment_kinds", KINDS.len());
    // mixed with every other construct
    crate::mix::pairs(cx, &["doc"], 2);
}
