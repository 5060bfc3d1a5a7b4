//! C21: suggestions name a real, close alternative.
use crate::drv::{self, Diag};
use crate::engine::{Case, Cx, Fail, Res};
use crate::fail;
use serde_json::json;

const PRIMS: [&str; 8] = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
/// keywords that can be misspelled
const WORDS: [&str; 27] = [
    "protocol", "record", "error", "enum", "fixed", "import", "schema", "namespace", "boolean", "int", "long", "float", "double", "string", "bytes", "null",
    "array", "map", "union", "void", "oneway", "throws", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid",
];

/// Edit distance over characters (insert, delete, replace), by the plain recurrence.
fn dist(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut t = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            t[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else if a[i - 1] == b[j - 1] {
                t[i - 1][j - 1]
            } else {
                1 + t[i - 1][j].min(t[i][j - 1]).min(t[i - 1][j - 1])
            };
        }
    }
    t[a.len()][b.len()]
}
fn bound(a: &str, b: &str) -> usize {
    if a.chars().count().min(b.chars().count()) <= 4 { 1 } else { 2 }
}
fn simple(s: &str) -> &str {
    s.rsplit('.').next().unwrap()
}
/// Distance of a candidate, if within the bound.
fn closeness(missing: &str, cand: &str) -> Option<usize> {
    let pairs = [(missing, cand), (simple(missing), simple(cand))];
    pairs.iter().filter_map(|(a, b)| Some(dist(a, b)).filter(|d| *d <= bound(a, b))).min()
}

/// The alternative a hint names, and the rest of the hint.
fn hinted(help: &Option<String>) -> Option<(String, String)> {
    let h = help.as_ref()?;
    let i = h.find("did you mean `")?;
    let r = &h[i + "did you mean `".len()..];
    let j = r.find('`')?;
    Some((r[..j].to_string(), r[j..].to_string()))
}

fn judge_hint(d: &Diag, missing: &str, types: &[String]) -> Result<Option<usize>, String> {
    if matches!(simple(missing), "void" | "decimal") {
        return match hinted(&d.help) {
            Some(_) => Err("a hint at another name for a keyword used in the wrong place".into()),
            None => Ok(None),
        };
    }
    let prim = PRIMS.iter().filter_map(|p| Some((p.to_string(), closeness(simple(missing), p)?)));
    let reg = types.iter().filter_map(|t| Some((t.clone(), closeness(missing, t)?)));
    let all: Vec<(String, usize)> = prim.chain(reg).collect();
    let best = all.iter().map(|x| x.1).min();
    match (hinted(&d.help), best) {
        (None, None) => Ok(None),
        (None, Some(_)) => Err(format!("no hint although {all:?} are close enough")),
        (Some((n, _)), None) => Err(format!("hints at `{n}`, which is not within the bound")),
        (Some((n, rest)), Some(b)) => {
            let Some(x) = all.iter().find(|x| x.0 == n) else { return Err(format!("hints at `{n}`, which is no candidate (within the bound: {all:?})")) };
            if x.1 != b {
                return Err(format!("hints at `{n}` (distance {}), but {all:?}", x.1));
            }
            let case = PRIMS.contains(&n.as_str()) && simple(missing).eq_ignore_ascii_case(&n);
            if rest.contains("lowercase") != case {
                return Err(format!("the note on lower case in {:?}", d.help));
            }
            Ok(Some(b))
        }
    }
}

/// `types`: full names to declare, in this order; `missing`: as written.
fn program(ns: Option<&str>, types: &[String], missing: &[&str], place: usize) -> String {
    let mut s = String::new();
    if let Some(n) = ns {
        s += &format!("@namespace(\"{n}\") ");
    }
    s += "protocol Proto { ";
    for (i, t) in types.iter().enumerate() {
        let (n, nm) = t.rsplit_once('.').map_or(("", t.as_str()), |x| x);
        s += &match i % 3 {
            _ if n.is_empty() && ns.is_some() => format!("@namespace(\"\") fixed `{nm}`(1); "),
            0 => format!("@namespace(\"{n}\") record `{nm}` {{ }} "),
            1 => format!("@namespace(\"{n}\") enum `{nm}` {{ A }} "),
            _ => format!("@namespace(\"{n}\") fixed `{nm}`(1); "),
        };
    }
    let m = |k: usize| missing.get(k).copied().unwrap_or("int");
    match place % 4 {
        0 => s += &format!("record Host0 {{ {} a; {} b; }} ", m(0), m(1)),
        1 => s += &format!("{} hm({} p); ", m(0), m(1)),
        2 => s += &format!("record Host0 {{ array<union {{ null, {} }}> a; map<{}> b = {{ }}; }} ", m(0), m(1)),
        _ => s += &format!("void hm(int i) throws {}; error Host1 {{ {}? e; }} ", m(0), m(1)),
    }
    s + "}"
}

fn case(c: &mut Case, ns: Option<&str>, types: &[String], missing: &[&str], place: usize, what: &str) -> Res {
    let mut src = program(ns, types, missing, place);
    if place % 4 == 3 && missing.len() == 1 {
        // (`throws` takes named types only)
        src = src.replace("int?", "long?");
    }
    c.state(&src);
    c.steps(types.len() + missing.len());
    c.trace();
    c.count(what);
    let o = drv::idl(&src);
    let mut reg: Vec<String> = types.to_vec();
    let full = |s: &str| match ns {
        Some(n) if !s.contains('.') => format!("{n}.{s}"),
        _ => s.to_string(),
    };
    match place % 4 {
        0 | 2 => reg.push(full("Host0")),
        3 => reg.push(full("Host1")),
        _ => {}
    }
    let names: Vec<String> = missing.iter().map(|m| full(&m.replace('`', ""))).collect();
    let undefined: Vec<&String> = names.iter().filter(|n| !reg.contains(n)).collect();
    let data = |d: Option<&Diag>| json!({"input": src, "types": reg, "missing": undefined, "report": d.map(|d| d.text())});
    let Err(e) = &o.res else {
        if undefined.is_empty() {
            return Ok(());
        }
        fail!(data(None), "accepted")
    };
    let d = drv::diag_plain(e);
    if undefined.is_empty() {
        // (some other reason)
        c.count("other refusals");
        return Ok(());
    }
    c.sample(|| data(Some(&d)));
    let mut n = 0;
    for x in std::iter::once(&d).chain(&d.related) {
        let Some(m) = undefined.iter().find(|m| x.chain.iter().any(|t| t.ends_with(&format!(": {m}")))) else {
            fail!(data(Some(&d)), "a report on something else: {:?}", x.chain)
        };
        n += 1;
        match judge_hint(x, m, &reg) {
            Err(e) => return Err(Fail::new(e, data(Some(x)))),
            Ok(k) => c.outcome(&(k, x.help.as_ref().map(|h| h.len()))),
        }
    }
    let mut distinct = undefined.clone();
    distinct.sort();
    distinct.dedup();
    if n != distinct.len() {
        fail!(data(Some(&d)), "{n} reports for {} undefined names", distinct.len());
    }
    Ok(())
}

/// All strings within `n` edits of `s` over an alphabet.
fn edits(s: &str, n: usize, alpha: &[char]) -> Vec<String> {
    let mut all = std::collections::BTreeSet::from([s.to_string()]);
    let mut front = all.clone();
    for _ in 0..n {
        let mut next = std::collections::BTreeSet::new();
        for w in &front {
            let v: Vec<char> = w.chars().collect();
            for i in 0..=v.len() {
                for a in alpha {
                    let mut x = v.clone();
                    x.insert(i, *a);
                    next.insert(x.iter().collect::<String>());
                    if i < v.len() {
                        let mut x = v.clone();
                        x[i] = *a;
                        next.insert(x.iter().collect());
                    }
                }
                if i < v.len() {
                    let mut x = v.clone();
                    x.remove(i);
                    next.insert(x.iter().collect());
                }
            }
        }
        front = next.difference(&all).cloned().collect();
        all.extend(next);
    }
    all.into_iter().filter(|x| x.chars().next().is_some_and(|c| !c.is_ascii_digit())).collect()
}

fn words(alpha: &[char], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut out = vec![];
    for _ in 0..max {
        v = v.iter().flat_map(|w| alpha.iter().map(move |a| format!("{w}{a}"))).collect();
        out.extend(v.clone());
    }
    out
}

pub fn run(cx: &mut Cx) {
    let ok = |s: &str| !PRIMS.contains(&s) && !WORDS.contains(&s) && s != "decimal";
    // every pair of short names
    let short = words(&['a', 'B', 'é'], cx.pick(4, 5));
    let step = cx.pick(1, 1);
    for (i, m) in short.iter().enumerate() {
        for (j, t) in short.iter().enumerate() {
            if (i + j) % step != 0 || m == t {
                continue;
            }
            if cx.done() {
                return;
            }
            cx.case(|c| case(c, None, &[t.clone()], &[m], i + j, "short names"));
        }
    }
    // namespaces
    let tiny = words(&['a', 'é'], 2);
    for ns in [None, Some("n"), Some("n.m")] {
        for mns in ["", "n.", "é.", "n.m."] {
            for tns in ["", "n.", "é.", "nn."] {
                for m in &tiny {
                    for t in &tiny {
                        if cx.done() {
                            return;
                        }
                        cx.case(|c| case(c, ns, &[format!("{tns}{t}")], &[&format!("{mns}{m}")], m.len() + t.len(), "namespaces"));
                    }
                }
            }
        }
    }
    // names around the lengths where the bound changes
    let alpha = ['x', 'é'];
    let bases: &[&str] = &["abc", "abcd", "abcde", "abcdef", "éabc", "aéбd", "aéбde", "n.abcd", "nnn.abc", "ABCDE"];
    for b in bases {
        let s = simple(b);
        let list = edits(s, cx.pick(3, 4), &alpha);
        for (i, m) in list.iter().enumerate() {
            if m == s || !ok(m) {
                continue;
            }
            for ns in [None, Some("n"), Some("abc")] {
                if cx.done() {
                    return;
                }
                cx.case(|c| case(c, ns, &[b.to_string()], &[m], i, "around the bound"));
            }
        }
    }
    // the built-in names
    for p in PRIMS.iter().chain(&["void", "decimal", "date", "uuid"]) {
        let mut list = edits(p, cx.pick(1, 3), &['s', 'é', 'X']);
        // every choice of upper case, with and without one more edit
        for mask in 0..1usize << p.len() {
            let w: String = p.chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            if cx.thorough() {
                list.extend(edits(&w, 1, &['s']));
            }
            list.push(w);
        }
        list.sort();
        list.dedup();
        for (i, m) in list.iter().enumerate() {
            let quoted = format!("`{m}`");
            for ns in [None, Some("n")] {
                if cx.done() {
                    return;
                }
                // a reference in backticks may be any word
                cx.case(|c| case(c, ns, &["Strin".into(), "n.Nul".into()], &[&quoted], i, "built-in names"));
            }
        }
    }
    // several candidates in every order, several missing names
    let pool = ["Abcde", "Abcdf", "Abxyz", "n.Abcde", "Abc", "éбвгд", "string2", "m.Abcdx"];
    let miss = ["Abcdg", "Abcxx", "Abcd", "strin", "éбвг", "Abcde", "m.Abcde", "Zzzzzz", "n.Abcdf", "éбвxx"];
    for a in 0..pool.len() {
        for b in 0..pool.len() {
            for d in 0..=cx.pick(3, pool.len()) {
                if a == b || d > 0 && (d - 1 == a || d - 1 == b) {
                    continue;
                }
                let mut types: Vec<String> = [a, b].iter().map(|i| pool[*i].to_string()).collect();
                if d > 0 {
                    types.push(pool[d - 1].to_string());
                }
                for m in 0..miss.len() {
                    for m2 in 0..=miss.len() {
                        for ns in [None, Some("n")] {
                            if cx.done() {
                                return;
                            }
                            if m2 > 0 && (m2 - 1 == m || !cx.thorough() && (m + m2 + a) % 3 > 0) {
                                continue;
                            }
                            cx.case(|c| {
                                let mut v = vec![miss[m]];
                                if m2 > 0 {
                                    v.push(miss[m2 - 1]);
                                }
                                case(c, ns, &types, &v, m + a, "several candidates")
                            });
                        }
                    }
                }
            }
        }
    }
    imported(cx);
    keywords(cx);
    cx.note("space", json!("all pairs of short names, all strings within 3 (quick) or 4 (thorough) edits of names around the bound and 1 or 3 of every built-in name, sets of 2 or 3 candidates in every order, imported candidates, misspelled keywords in syntax errors"));
}

/// Candidates that come from imports, and missing names inside imported files.
fn imported(cx: &mut Cx) {
    let names = ["Abcde", "Abcdf", "n.Abcde", "éбвгд"];
    let miss = ["Abcdg", "Abxxe", "éбвxx", "strin", "Qqqq"];
    for n in names {
        for m in miss {
            for kind in ["idl", "schema", "protocol"] {
                for inside in [false, true] {
                    if cx.done() {
                        return;
                    }
                    cx.case(|c| {
                        let root = c.scratch().join("w");
                        std::fs::create_dir_all(&root).unwrap();
                        let (ns, nm) = n.rsplit_once('.').unwrap_or(("", n));
                        let inner = if inside { m } else { "int" };
                        let imp = match kind {
                            "idl" => format!("protocol I {{ @namespace(\"{ns}\") record {nm} {{ {inner} a; }} }}"),
                            "schema" => format!("{{\"type\":\"enum\",\"name\":\"{n}\",\"symbols\":[]}}"),
                            _ => format!("{{\"protocol\":\"I\",\"types\":[{{\"type\":\"fixed\",\"name\":\"{n}\",\"size\":1}}]}}"),
                        };
                        if inside && kind != "idl" {
                            return Ok(());
                        }
                        let main = format!("protocol P {{ import {kind} \"i\"; record Other {{ {} a; }} }}", if inside { "int" } else { m });
                        std::fs::write(root.join("i"), &imp).unwrap();
                        std::fs::write(root.join("main.avdl"), &main).unwrap();
                        c.state(&(&main, &imp));
                        c.steps(2);
                        c.trace();
                        c.count("imported candidates");
                        crate::engine::note_input(&format!("{main}\n{imp}"));
                        let e = avdl::Idl::new().convert(root.join("main.avdl"));
                        let data = |d: Option<&Diag>| json!({"main.avdl": main, "i": imp, "report": d.map(|d| d.text())});
                        let Err(e) = e else { fail!(data(None), "accepted") };
                        let d = drv::diag_plain(&e);
                        // a reference inside the type of a namespace belongs to that namespace
                        let missing = if inside && !ns.is_empty() { format!("{ns}.{m}") } else { m.to_string() };
                        judge_hint(&d, &missing, &[n.to_string(), "Other".into()]).map(|_| ()).map_err(|e| Fail::new(e, data(Some(&d))))
                    });
                }
            }
        }
    }
}

/// Hints at keywords in syntax errors name a keyword within the bound, and none is closer.
fn keywords(cx: &mut Cx) {
    let tpls = [
        ("protocol", "# P { record R { int a; } }"),
        ("protocol", "@a(\"x\") # P { }"),
        ("record", "protocol P { # R { int a; string b; } }"),
        ("record", "/** é */ # R { int a; string b; }"),
        ("error", "protocol P { # R { int a; string b = \"é\"; } }"),
        ("enum", "protocol P { /* é */ # R { A, B } }"),
        ("fixed", "protocol P { # F(3); }"),
        ("import", "protocol P { # idl \"x\"; }"),
        ("schema", "namespace n; # int;"),
        ("namespace", "# n; schema int;"),
        ("union", "protocol P { record R { # { null, int } a; } }"),
        ("array", "protocol P { record R { #<int> a; } }"),
        ("map", "protocol P { record R { #<int> a; } }"),
        ("throws", "protocol P { error E { } void m() # E; }"),
        ("oneway", "protocol P { void m() #; }"),
        ("decimal", "protocol P { record R { #(3) a; } }"),
    ];
    for (word, tpl) in tpls {
        let mut list = edits(word, 2, &['x', 'é']);
        // neighbours swapped
        let v: Vec<char> = word.chars().collect();
        for i in 0..v.len() - 1 {
            let mut x = v.clone();
            x.swap(i, i + 1);
            list.push(x.iter().collect());
            list.push(x.iter().collect::<String>().to_uppercase());
        }
        for m in list {
            if cx.done() {
                return;
            }
            cx.case(|c| {
                let src = tpl.replace('#', &m);
                c.state(&src);
                c.steps(1);
                c.trace();
                c.count("misspelled keywords");
                let o = drv::idl(&src);
                let Err(e) = &o.res else { return Ok(()) };
                let d = drv::diag_plain(e);
                for x in std::iter::once(&d).chain(&d.related) {
                    for t in x.chain.iter().chain(x.labels.iter().filter_map(|l| l.label.as_ref())) {
                        let Some((k, _)) = hinted(&Some(t.clone())) else { continue };
                        c.outcome(&k);
                        let data = json!({"input": src, "report": d.text()});
                        // (a name to be quoted)
                        if k.starts_with('"') {
                            continue;
                        }
                        if !WORDS.contains(&k.as_str()) {
                            fail!(data, "hints at `{k}`, which is no keyword");
                        }
                        let Some(w) = t.split('`').nth(1).filter(|_| t.contains("--")) else { continue };
                        let w = w.to_ascii_lowercase();
                        let near = |k: &str| dist(&w, k);
                        let lim = if k.len() <= 4 { 1 } else { 2 };
                        if near(&k) == 0 || near(&k) > lim {
                            fail!(data, "hints at `{k}` for `{w}`");
                        }
                        if let Some(b) = WORDS.iter().find(|b| near(b) < near(&k)) {
                            fail!(data, "hints at `{k}` for `{w}`, but `{b}` is closer");
                        }
                        if !src.to_ascii_lowercase().contains(&w) {
                            fail!(data, "speaks of `{w}`, which is not in the file");
                        }
                    }
                }
                Ok(())
            });
        }
    }
}
