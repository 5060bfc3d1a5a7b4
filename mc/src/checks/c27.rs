//! C27: what a syntax error says about the text is true.
//!
//! Every token of the template files is deleted, doubled, replaced or joined by another, in
//! several layouts with misleading comments; what the reports say about the tokens is checked
//! on the token sequence of the independent lexer, and the tokens they list as expected by the
//! independent recogniser.
use crate::drv::{self, Diag};
use crate::engine::{Case, Cx, Res};
use crate::fail;
use crate::idlparse::{self, LK, Lx};
use serde_json::json;

const TPL: &[&str] = &[
    "@namespace ( \"n\" ) protocol P { import idl \"x\" ; record R { int a = 1 , b ; array < map < string > > c = [ ] ; } enum E { A , B } = A ; fixed F ( 4 ) ; union { null , R ? } m ( int p = 3 , R q ) throws X , Y ; error X { } void o ( ) oneway ; }",
    "namespace n ; schema array < union { int , decimal ( 4 , 2 ) } > ; @a ( 1 ) record R { @a ( { \"k\" : [ true , null ] } ) R ? é = { } ; @order ( \"x\" ) string @aliases ( [ \"u\" ] ) s ; } enum E { } import schema \"y\" ;",
    "protocol P { enum E { A } record R { union { int , string } u ; prefixed f ( @x ( 1 ) int a ) ; } reunion g ( bitmap h ) ; record union { int a ; } }",
];
const VOC: &[&str] = &[
    "}", "{", "(", ")", ";", ",", "<", ">", "[", "]", ":", "=", "?", "@", "x", "`enum`", "7", "1.5", "\"s\"", "\"it's\"", "protocol", "namespace", "import", "idl", "schema", "enum", "fixed", "error",
    "record", "array", "map", "union", "boolean", "int", "bytes", "null", "true", "decimal", "date", "uuid", "void", "oneway", "throws", "recrod", "fingerprint", "recording", "strng", "érecrod", "n.recrod",
];
/// The second vocabulary: both of two edits.
const PAIR: &[&str] = &["", "{", "}", ",", "<", ">", "(", ")", "@", "x", "union", "enum", "record", "map", "fixed"];
/// What stands between the tokens.
const LAYOUTS: &[&str] = &[
    " ",
    "\n// record enum E {\n",
    " /* union { map < fixed f ( recrod Foo */ ",
    "\r\n\t/* } , enum E { A , */\n",
    " /** record int enum { @a */ ",
];

fn flat(d: &Diag) -> Vec<&Diag> {
    let mut v = vec![d];
    for r in &d.related {
        v.extend(flat(r));
    }
    v
}

/// The braces that are not closed before token `upto`, innermost last.
fn open_braces(lx: &[Lx], upto: usize) -> Vec<usize> {
    let mut v = vec![];
    for (i, t) in lx.iter().enumerate().take(upto) {
        match t.text.as_str() {
            "{" if t.kind == LK::Punct => v.push(i),
            "}" if t.kind == LK::Punct => {
                v.pop();
            }
            _ => {}
        }
    }
    v
}
const DECLS: &[&str] = &["protocol", "record", "error", "enum"];
/// Does the brace at `i` open a construct of this kind?
fn opens(lx: &[Lx], i: usize, kind: &str) -> bool {
    let w = |n: usize| if i >= n { lx[i - n].text.as_str() } else { "" };
    let kw = if kind == "error record" { "error" } else { kind };
    if kw == "union" {
        return w(1) == "union" && !DECLS.contains(&w(2));
    }
    // the name may be missing
    w(2) == kw || w(1) == kw && !DECLS.contains(&w(2))
}

fn shown(s: &str) -> String {
    s.replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}

/// One token of the kind a report calls `name`.
fn sample(name: &str) -> Option<Option<Lx>> {
    let (kind, text) = match name {
        "end of file" | "<EOF>" => return Some(None),
        "identifier" => (LK::Ident, "x"),
        "string literal" => (LK::Str, "\"s\""),
        "integer literal" => (LK::Int, "7"),
        "floating-point literal" => (LK::Float, "1.5"),
        t if t.len() == 1 && "{}()<>[];:,=?@".contains(t) => (LK::Punct, t),
        t if !t.is_empty() && t.chars().all(|c| c.is_ascii_lowercase() || c == '_') => (LK::Keyword, t),
        _ => return None,
    };
    Some(Some(Lx { kind, text: text.to_string(), off: 0 }))
}
/// "'a', 'b', or c" / "{'a', 'b'}" / "a, b, c"
fn list(l: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = l;
    while !rest.is_empty() {
        rest = rest.trim_start_matches(' ');
        for or in ["or "] {
            rest = rest.strip_prefix(or).unwrap_or(rest);
        }
        if let Some(q) = rest.strip_prefix('\'') {
            let n = q[1..].find('\'').map_or(q.len(), |n| n + 1);
            out.push(q[..n].to_string());
            rest = q.get(n + 1..).unwrap_or("");
        } else {
            let n = rest.find(", ").or_else(|| rest.find(" or ")).unwrap_or(rest.len());
            // a lone comma as a listed token
            let n = if rest.starts_with(',') { 1 } else { n };
            out.push(rest[..n].to_string());
            rest = &rest[n..];
        }
        rest = rest.trim_start_matches(' ');
        rest = rest.strip_prefix(',').unwrap_or(rest);
    }
    out
}

/// `x: (message, label, help)`; `a..=b` the marked tokens (`a == lx.len()`: the end of the file).
struct Said<'a> {
    msg: &'a str,
    label: Option<&'a str>,
    help: Option<&'a str>,
    a: usize,
    b: usize,
}

fn can_stand(lx: &[Lx], at: usize, name: &str) -> Result<bool, String> {
    let Some(t) = sample(name) else { return Err(format!("{name:?} is no token")) };
    let mut v: Vec<Lx> = lx[..at].to_vec();
    Ok(match t {
        None => idlparse::parse(&v).is_some(),
        Some(t) => {
            v.push(t);
            idlparse::viable(&v) || idlparse::parse(&v).is_some()
        }
    })
}
/// Could each of these tokens stand at `at`, or each in place of one of the tokens before
/// (where the recogniser began the construct it could not finish)?
fn expected(lx: &[Lx], at: usize, l: &[String]) -> Result<(), String> {
    let mut err = None;
    for p in (at.saturating_sub(8)..=at).rev() {
        match expected_at(lx, p, l) {
            Ok(()) => return Ok(()),
            Err(e) => err = err.or(Some(e)),
        }
    }
    Err(err.unwrap())
}
fn expected_at(lx: &[Lx], at: usize, l: &[String]) -> Result<(), String> {
    for name in l {
        if !can_stand(lx, at, name)? {
            return Err(format!("{name} is said to be expected, but cannot stand there"));
        }
    }
    Ok(())
}

fn truth(s: &Said, lx: &[Lx], first: bool) -> Result<&'static str, String> {
    let eof = s.a >= lx.len();
    let marked = if eof { String::new() } else { shown(&lx[s.a].text) };
    let w = |i: usize| lx.get(i).map_or("", |t| t.text.as_str());
    let seq = |i: usize, v: &[&str]| v.iter().enumerate().all(|(n, x)| w(i + n) == *x);
    let m = s.msg;
    let single = || if s.a == s.b || eof { Ok(()) } else { Err("marks more than the token it speaks about".to_string()) };
    let inside = |q: char| -> Option<&str> {
        let i = m.find(q)?;
        let j = m[i + 1..].find(q)?;
        Some(&m[i + 1..i + 1 + j])
    };
    // the expected tokens in the help text
    let help_list = |s: &Said| -> Result<(), String> {
        if let (true, Some(h)) = (first, s.help) {
            if let Some(l) = h.lines().next().unwrap().strip_prefix("expected one of: ") {
                let mut l = list(l);
                // the recogniser's lists are not complete
                if l.last().is_some_and(|x| x.is_empty()) {
                    l.pop();
                }
                expected(lx, s.a.min(lx.len()), &l)?;
            }
        }
        Ok(())
    };
    if let Some(rest) = m.strip_prefix("unexpected token `") {
        single()?;
        let Some(rest) = rest.strip_prefix(&format!("{marked}`")) else { return Err(format!("the marked token is {marked:?}")) };
        if let Some(l) = s.label.and_then(|l| l.strip_prefix("unexpected `")) {
            if !l.starts_with(&format!("{marked}`")) {
                return Err(format!("the label speaks about another token than {marked:?}"));
            }
        }
        help_list(s)?;
        if let Some(q) = rest.strip_prefix(" -- did you mean `\"") {
            if !q.starts_with(&format!("{marked}\"`?")) {
                return Err("suggests quoting another token".into());
            }
            // a string may indeed stand there
            if first {
                expected(lx, s.a, &["string literal".to_string()])?;
            }
            return Ok("unquoted");
        }
        return Ok("token");
    }
    if m.starts_with("unexpected end of file") {
        if let Some(k) = m.split("missing closing `}`").nth(1) {
            if eof {
                // marks the end of the file: something is open
                if open_braces(lx, lx.len()).is_empty() {
                    return Err("no brace is open".into());
                }
                return Ok("unclosed at end");
            }
            single()?;
            if w(s.a) != "{" || !open_braces(lx, lx.len()).contains(&s.a) {
                return Err("the marked token is no brace left open".into());
            }
            if let Some(k) = k.strip_prefix(" for ") {
                if !opens(lx, s.a, k) || s.label != Some(&format!("this {k} is never closed")) {
                    return Err(format!("the marked brace does not open a {k}"));
                }
            }
            return Ok("unclosed");
        }
        if !eof {
            return Err("the file does not end there".into());
        }
        help_list(s)?;
        return Ok("end of file");
    }
    if let Some(k) = m.strip_prefix("missing closing `}`") {
        single()?;
        if w(s.a) != "{" {
            return Err("marks no brace".into());
        }
        if let Some(k) = k.strip_prefix(" for ") {
            if !opens(lx, s.a, k) {
                return Err(format!("the marked brace does not open a {k}"));
            }
        }
        // still open at a later declaration
        let decl = (s.a + 1..lx.len()).any(|i| ["record", "error", "enum", "fixed"].contains(&w(i)) && open_braces(lx, i).last() == Some(&s.a) && (w(i + 1) == "{" || w(i + 2) == "{"));
        if !decl {
            return Err("no declaration begins while the marked brace is open".into());
        }
        return Ok("unclosed before declaration");
    }
    for (p, mid) in [("unexpected '", "' expected "), ("mismatched input '", "' expecting ")] {
        if let Some(rest) = m.strip_prefix(p) {
            single()?;
            let x = if eof { if rest.starts_with('<') { "<EOF>" } else { "end of file" }.to_string() } else { marked.clone() };
            let Some(l) = rest.strip_prefix(&format!("{x}{mid}")) else { return Err(format!("the marked token is {x:?}")) };
            let l = match l.strip_suffix(" (annotations require `@name(value)` syntax)") {
                Some(l) => {
                    if s.a < 2 || w(s.a - 2) != "@" || l != "'('" {
                        return Err("no annotation stands there".into());
                    }
                    l
                }
                None => l,
            };
            if first {
                expected(lx, s.a.min(lx.len()), &list(l))?;
            }
            return Ok("one of few");
        }
    }
    if let Some(rest) = m.strip_prefix("missing ") {
        single()?;
        let x = if eof { "end of file".to_string() } else { marked.clone() };
        let Some(l) = rest.strip_suffix(&format!(" at '{x}'")) else { return Err(format!("the marked token is {x:?}")) };
        if first {
            let l = l.strip_prefix('{').and_then(|l| l.strip_suffix('}')).unwrap_or(l);
            expected(lx, s.a.min(lx.len()), &list(l))?;
        }
        return Ok("missing");
    }
    if let Some(rest) = m.strip_prefix("unexpected input '") {
        single()?;
        let Some(said) = rest.strip_suffix('\'') else { return Err("no quoted input".into()) };
        // the tokens up to the marked one, run together
        let mut t = String::new();
        for i in (0..=s.a.min(lx.len() - 1)).rev() {
            t.insert_str(0, &shown(w(i)));
            if t == said {
                return Ok("input");
            }
        }
        return Err("the quoted input is not what stands before and at the mark".into());
    }
    if m.starts_with("annotation `@") {
        let n = inside('`').unwrap()[1..].to_string();
        if !m.ends_with(&format!("use `@{n}(\"value\")` syntax")) {
            return Err("speaks about two annotations".into());
        }
        // `@ n` directly before the marked token, which is no `(`
        if s.a < 2 || !seq(s.a - 2, &["@", &n]) || w(s.a) == "(" {
            return Err(format!("no annotation {n:?} without value stands before the mark"));
        }
        return Ok("annotation");
    }
    if m.starts_with("unexpected `@` before `") {
        let n = m["unexpected `@` before `".len()..].split('`').next().unwrap();
        if !(s.a >= 2 && seq(s.a - 2, &["@", n]) || seq(s.a, &["@", n]) || s.a >= 1 && seq(s.a - 1, &["@", n])) {
            return Err(format!("no `@` stands before `{n}` there"));
        }
        return Ok("misplaced @");
    }
    if m.starts_with("import statement missing kind") {
        if !(s.a >= 1 && w(s.a - 1) == "import" && lx.get(s.a).is_some_and(|t| t.kind == LK::Str)) {
            return Err("no import without kind stands there".into());
        }
        return Ok("import kind");
    }
    if m.starts_with("unrecognized ") {
        let n = inside('`').unwrap();
        if !(s.a == s.b && w(s.a) == n) {
            return Err(format!("the marked token is not {n:?}"));
        }
        return Ok("misspelled");
    }
    if m.starts_with("union must contain") {
        if !(s.b == s.a + 2 && seq(s.a, &["union", "{", "}"])) {
            return Err("no empty union stands there".into());
        }
        return Ok("empty union");
    }
    if m.ends_with("type requires a type parameter") {
        let n = inside('`').unwrap();
        if !(s.b == s.a + 2 && seq(s.a, &[n, "<", ">"])) || !["map", "array"].contains(&n) {
            return Err(format!("no {n} without parameter stands there"));
        }
        if s.help.is_some_and(|h| h.contains('`') && !h.contains(&format!("`{n}<"))) {
            return Err("the example shows another type".into());
        }
        return Ok("empty type parameter");
    }
    if m.starts_with("fixed type requires an integer size") {
        let n = m.split("`fixed ").nth(1).and_then(|r| r.split('(').next()).unwrap_or("");
        let q = s.label.and_then(|l| l.strip_suffix("` is not an integer")).and_then(|l| l.strip_prefix('`'));
        if !(s.a >= 3 && seq(s.a - 3, &["fixed", n, "("]) && w(s.b + 1) == ")") {
            return Err(format!("no fixed {n:?} with that size stands there"));
        }
        if (s.a..=s.b).any(|i| w(i) == ")") {
            return Err("the size ends earlier".into());
        }
        if (s.a..=s.b).all(|i| lx[i].kind == LK::Int) {
            return Err("the size is an integer".into());
        }
        if s.a == s.b && q != Some(w(s.a)) {
            return Err("the label quotes something else".into());
        }
        return Ok("fixed size");
    }
    if m.starts_with("expected name after `") {
        let n = inside('`').unwrap();
        if !(s.a >= 1 && seq(s.a - 1, &[n, "{"]) && s.a == s.b) {
            return Err(format!("no {n} without name stands there"));
        }
        let (l, h) = (s.label.unwrap_or(n), s.help.unwrap_or(n));
        if !l.contains(n) || !h.contains(n) || DECLS.iter().any(|k| *k != n && (l.contains(&format!("{k} name")) && n != "error" || h.contains(&format!("`{k} ")))) {
            return Err(format!("label or help speak about something else than a {n}"));
        }
        return Ok("missing name");
    }
    if m.starts_with("trailing comma is not allowed in enum declaration") {
        single()?;
        if !(seq(s.a, &[",", "}"])) {
            return Err("the marked token is no comma before a brace".into());
        }
        if !open_braces(lx, s.a).last().is_some_and(|b| opens(lx, *b, "enum")) {
            return Err("that comma does not stand in an enum".into());
        }
        if let Some(n) = s.help.and_then(|h| h.strip_prefix("remove the comma after `")) {
            if s.a == 0 || format!("{}`", w(s.a - 1)) != n {
                return Err("another symbol stands before the comma".into());
            }
        }
        return Ok("trailing comma");
    }
    Err("the check knows no such statement".into())
}

/// What the reports say, free of positions: message, label, help, marked tokens.
type Sig = Vec<(String, String, String, usize, usize)>;

fn judge(c: &mut Case, text: &str) -> Result<Option<Sig>, crate::engine::Fail> {
    macro_rules! fail { ($d:expr, $($m:tt)*) => { return Err(crate::engine::Fail::new(format!($($m)*), $d)) } }
    let Some((lx, bad)) = idlparse::lex(text) else { return Ok(None) };
    if bad > 0 || lx.iter().any(|l| l.kind == LK::Sub) {
        return Ok(None);
    }
    if idlparse::parse(&lx).is_some() {
        c.count("still a file");
        return Ok(None);
    }
    c.steps(lx.len());
    c.trace();
    let o = drv::idl(text);
    let d = match &o.res {
        Ok(_) => fail!(json!({"input": text}), "accepted"),
        Err(e) => drv::diag_plain(e),
    };
    let data = |x: &Diag| json!({"input": text, "report": format!("{:?} {:?} {:?}", x.chain, x.labels, x.help)});
    // the report that a brace is never closed comes first, as the likely cause of the others
    let lead = (d.chain.iter().any(|m| m.contains("end of file")) && !d.related.is_empty()) as usize;
    let mut sig = vec![];
    for (i, x) in flat(&d).iter().enumerate() {
        let full = x.chain.last().unwrap();
        let Some(msg) = full.strip_prefix("line ").and_then(|r| r.split_once(' ')).map(|r| r.1) else { fail!(data(x), "no position in the message") };
        let l = x.labels.first();
        let Some(l) = l else { fail!(data(x), "a report without location") };
        let a = lx.iter().position(|t| t.off + t.text.len() > l.offset).unwrap_or(lx.len());
        let b = lx.iter().rposition(|t| t.off < l.offset + l.len).unwrap_or(0);
        let label = l.label.as_deref().filter(|s| *s != full);
        // the input that could not be read is quoted with its doc comments
        let msg = msg.replace(LAYOUTS[4].trim(), "");
        let msg = msg.as_str();
        sig.push((msg.to_string(), label.unwrap_or("").to_string(), x.help.clone().unwrap_or_default(), a, b));
        match truth(&Said { msg, label, help: x.help.as_deref(), a, b }, &lx, i == lead) {
            Ok(k) => {
                c.count(k);
                c.outcome(k);
            }
            Err(e) => fail!(data(x), "{msg:?}: {e}"),
        }
    }
    Ok(Some(sig))
}

/// Every layout: what is said is true, and the same in all of them.
fn layouts(c: &mut Case, words: &[&str]) -> Res {
    let w: Vec<&str> = words.iter().copied().filter(|x| !x.is_empty()).collect();
    let mut first: Option<Sig> = None;
    for lay in LAYOUTS {
        let text = w.join(lay);
        c.state(&text);
        let Some(s) = judge(c, &text)? else { continue };
        match &first {
            None => first = Some(s),
            Some(f) => {
                if *f != s {
                    fail!(json!({"input": text, "tokens": w.join(" "), "said": format!("{s:?}"), "without the comments": format!("{f:?}")}), "the layout changes what is said");
                }
            }
        }
    }
    Ok(())
}

/// Words that begin with a quote but are no strings by themselves, and some that are.
const STRS: &[&str] = &[
    "\"open", "\"", "\"\"\"", "\"bad \\q\"", "\"tab\tx\"", "\"u \\u12x\"", "\"uu \\uu00e9\"", "\"u \\uu00e\"", "\"esc \\\"", "\"esc \\\\\"", "\"back\\", "\"oct \\8\"", "\"oct \\7\"",
    "\"ä \\é\"", "\"it\\'s", "\"tab \t open", "\"bad \\x open", "\"\u{c}\"", "\"\u{8}", "\"two\nlines\"", "\"two\\\nlines\"", "\"cr\rlf\"",
];

/// What is said about broken strings.
fn strings(c: &mut Case, text: &str) -> Res {
    use idlparse::BadStr;
    let Err(Some((off, why))) = idlparse::lex_or(text) else { return Ok(()) };
    c.state(text);
    c.trace();
    for schemata in [false, true] {
        let res = if schemata { drv::schemata(text).res.map(|_| ()) } else { drv::idl(text).res.map(|_| ()) };
        let Err(e) = res else {
            c.count("the rest is a file");
            continue;
        };
        let d = drv::diag_plain(&e);
        let all = flat(&d);
        for x in &all {
            let msg = x.chain.last().unwrap();
            let said = [("unterminated string literal", BadStr::Open), ("invalid escape sequence in string literal", BadStr::Escape), ("control character in string literal", BadStr::Control)].into_iter().find(|s| msg.ends_with(s.0));
            let data = || json!({"input": text, "report": format!("{:?} {:?} {:?}", x.chain, x.labels, x.help), "broken string at": off, "why": format!("{why:?}")});
            let Some((m, k)) = said else { continue };
            c.count(m);
            if k != why {
                fail!(data(), "the string is called something it is not");
            }
            if x.labels.len() != 1 || x.labels[0].offset != off {
                fail!(data(), "the report on a broken string points elsewhere");
            }
            if x.labels[0].label.as_deref().is_some_and(|l| !msg.ends_with(l)) {
                fail!(data(), "message and label say different things");
            }
        }
    }
    Ok(())
}

pub fn run(cx: &mut Cx) {
    // broken strings at every place
    for tpl in TPL {
        let words: Vec<&str> = tpl.split(' ').collect();
        for at in 0..=words.len() {
            for v in STRS {
                for lay in LAYOUTS {
                    for end in ["", " ", "\n", "\r", "\t", "}", ";"] {
                        if !cx.thorough() && *lay != LAYOUTS[0] && end != "\n" {
                            continue;
                        }
                        cx.case(|c| {
                            for ins in [false, true] {
                                let mut w: Vec<String> = words.iter().map(|x| x.to_string()).collect();
                                let x = format!("{v}{end}");
                                if ins || at == words.len() { w.insert(at, x) } else { w[at] = x }
                                strings(c, &w.join(lay))?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    for tpl in TPL {
        let words: Vec<&str> = tpl.split(' ').collect();
        for at in 0..=words.len() {
            for (vi, v) in std::iter::once(&"").chain(VOC).enumerate() {
                for ins in [false, true] {
                    if ins && vi == 0 || !ins && at == words.len() {
                        continue;
                    }
                    if cx.done() {
                        return;
                    }
                    cx.case(|c| {
                        let mut w = words.clone();
                        if ins { w.insert(at, v) } else { w[at] = v }
                        layouts(c, &w)
                    });
                }
            }
            // cut short
            cx.case(|c| layouts(c, &words[..at]));
        }
        // two edits
        for a in 0..words.len() {
            let reach = cx.pick(3, 12);
            for b in a + 1..words.len().min(a + 1 + reach) {
                for x in PAIR {
                    for y in PAIR {
                        if cx.done() {
                            return;
                        }
                        cx.case(|c| {
                            let mut w = words.clone();
                            w[a] = x;
                            w[b] = y;
                            layouts(c, &w)
                        });
                    }
                }
            }
        }
    }
}
