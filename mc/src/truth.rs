//! Is what a report of a refused program says about it true of the program?
//!
//! The facts are read off the syntax tree (of every file of a world); they do not depend on
//! which of several problems the compiler meets first. A statement of a form that is not known
//! here is not judged (`Verdict::Unknown`).
use crate::ast::*;
use crate::drv::Diag;
use crate::eval::{self, Content, Tri, World};
use serde_json::{Map, Value, json};

#[derive(Debug, PartialEq)]
pub enum Verdict {
    True,
    False(String),
    Unknown,
}
use Verdict::*;

/// A default value, the type it is given to, and where.
struct Given {
    owner: String,
    owner_full: String,
    field: String,
    ty: Value,
    value: Value,
}

#[derive(Default)]
pub struct Facts {
    /// every definition, in order: full name, canonical type (lenient)
    defs: Vec<(String, Value)>,
    defaults: Vec<Given>,
    /// full names of references
    refs: Vec<String>,
    /// (record or message, members in order)
    members: Vec<(String, Vec<String>)>,
    params: Vec<(String, Vec<String>)>,
    enums: Vec<(Vec<String>, Option<String>)>,
    /// branch keys of the unions
    unions: Vec<Vec<String>>,
    names: Vec<String>,
    namespaces: Vec<String>,
    anns: Vec<(String, Value)>,
    /// attributes of a type that come from its keyword and are annotated as well
    overwritten: Vec<String>,
    annotated_ref: bool,
    nested_union: bool,
    null_nullable: bool,
    decimals: Vec<(i64, Option<i64>)>,
    oneway: Vec<String>,
    imports: Vec<String>,
    /// and the directory of the file that asks for it
    missing_imports: Vec<(String, String)>,
    dirs: Vec<String>,
    /// files asked for by others
    asked: Vec<String>,
    files: Vec<String>,
    named_only: bool,
    fixed: Vec<(String, u64)>,
    json_imports: usize,
    /// messages of the JSON files hold references that are not collected here
    json_files: bool,
}

fn simple(n: &str) -> &str {
    n.rsplit('.').next().unwrap()
}
fn logical(k: &str) -> (&'static str, &'static str) {
    match k {
        "date" => ("int", "date"),
        "time_ms" => ("int", "time-millis"),
        "timestamp_ms" => ("long", "timestamp-millis"),
        "local_timestamp_ms" => ("long", "local-timestamp-millis"),
        "uuid" => ("string", "uuid"),
        _ => panic!("{k}"),
    }
}

impl Facts {
    pub fn of(f: &File) -> Facts {
        let mut x = Facts::default();
        x.file(f, None, "");
        x
    }
    pub fn of_world(w: &World, main: &str) -> Facts {
        let mut x = Facts { dirs: w.dirs.clone(), ..Default::default() };
        for (p, c) in &w.files {
            x.files.push(p.clone());
            match c {
                Content::Idl(f) => x.file(f, Some(w), p),
                Content::Json { defs, .. } => {
                    x.json_files = true;
                    for (n, d) in defs {
                        x.names.push(simple(n).into());
                        x.defs.push((n.clone(), d.clone()));
                        eval::collect_refs(d, &mut x.refs);
                        if let Some(ns) = eval::ns_of(n) {
                            x.namespaces.push(ns.into());
                        }
                        if let Some(fs) = d["fields"].as_array() {
                            let fs: Vec<String> = fs.iter().map(|f| f["name"].as_str().unwrap().to_string()).collect();
                            x.names.extend(fs.clone());
                            x.members.push((simple(n).into(), fs));
                        }
                    }
                }
            }
        }
        let _ = main;
        x
    }

    fn file(&mut self, f: &File, w: Option<&World>, path: &str) {
        let ns: Option<String> = match &f.mode {
            Mode::Protocol { anns, name, .. } => {
                self.anns.extend(anns.clone());
                self.names.push(simple(name).into());
                let ann = anns.iter().rev().find(|a| a.0 == "namespace").and_then(|a| a.1.as_str()).map(|s| s.to_string());
                eval::ns_of(name).map(|s| s.to_string()).or(ann)
            }
            Mode::Schema { ns, .. } => ns.clone(),
        };
        self.namespaces.extend(ns.clone());
        if let Mode::Schema { main, .. } = &f.mode {
            match main {
                Some(t) => {
                    self.ty(t, ns.as_deref());
                }
                None => self.named_only = true,
            }
        }
        for i in &f.items {
            match i {
                Item::Import(k, p) => {
                    self.imports.push(p.clone());
                    if *k != ImpKind::Idl {
                        self.json_imports += 1;
                    }
                    let dir = &path[..path.rfind('/').map_or(0, |i| i)];
                    let found = w.and_then(|w| {
                        std::iter::once(dir).chain(w.dirs.iter().map(|d| d.as_str())).map(|d| eval::norm_path(&format!("{d}/{p}"))).find(|f| w.files.contains_key(f))
                    });
                    match found {
                        Some(f) => self.asked.push(f),
                        None => self.missing_imports.push((p.clone(), dir.to_string())),
                    }
                }
                Item::Named(n) => self.named(n, ns.as_deref()),
                Item::Msg(m) => self.msg(m, ns.as_deref()),
            }
        }
    }

    fn named(&mut self, n: &Named, ns: Option<&str>) {
        self.anns.extend(n.anns.clone());
        let ann = n.anns.iter().rev().find(|a| a.0 == "namespace").and_then(|a| a.1.as_str());
        let inner: Option<&str> = eval::ns_of(&n.name).or(ann).or(ns);
        let full = if n.name.contains('.') { n.name.clone() } else { eval::join_name(inner, &n.name) };
        let s = simple(&n.name).to_string();
        self.names.push(s.clone());
        self.namespaces.extend(inner.map(|s| s.to_string()));
        let def = match &n.body {
            Body::Record { error, fields } => {
                let mut fs = vec![];
                let mut names = vec![];
                for f in fields {
                    let ty = self.ty(&f.ty, inner);
                    for v in &f.vars {
                        self.anns.extend(v.anns.clone());
                        names.push(v.name.clone());
                        let mut m = Map::new();
                        m.insert("name".into(), json!(v.name));
                        m.insert("type".into(), ty.clone());
                        if let Some(d) = &v.default {
                            m.insert("default".into(), d.clone());
                            self.defaults.push(Given { owner: s.clone(), owner_full: full.clone(), field: v.name.clone(), ty: ty.clone(), value: d.clone() });
                        }
                        fs.push(Value::Object(m));
                    }
                }
                self.names.extend(names.clone());
                self.members.push((s.clone(), names));
                json!({"type": if *error { "error" } else { "record" }, "name": s, "fields": fs})
            }
            Body::Enum { syms, default } => {
                self.names.extend(syms.clone());
                self.enums.push((syms.clone(), default.clone()));
                json!({"type": "enum", "name": s})
            }
            Body::Fixed(z) => {
                self.fixed.push((s.clone(), *z));
                json!({"type": "fixed", "name": s})
            }
        };
        self.defs.push((full, def));
    }

    fn msg(&mut self, m: &Msg, ns: Option<&str>) {
        self.anns.extend(m.anns.clone());
        if let Some(k) = &m.resp {
            let t = T { anns: m.anns.clone(), k: k.clone() };
            self.ty(&t, ns);
        }
        for p in &m.params {
            let ty = self.ty(&p.ty, ns);
            self.anns.extend(p.var.anns.clone());
            self.names.push(p.var.name.clone());
            if let Some(d) = &p.var.default {
                self.defaults.push(Given { owner: String::new(), owner_full: String::new(), field: p.var.name.clone(), ty, value: d.clone() });
            }
        }
        self.params.push((m.name.clone(), m.params.iter().map(|p| p.var.name.clone()).collect()));
        if m.oneway && m.resp.as_ref().is_some_and(|k| *k != K::Prim("null")) {
            self.oneway.push(m.name.clone());
        }
        for t in &m.throws {
            self.refs.push(eval::resolve_name(ns, t));
        }
    }

    fn over(&mut self, anns: &Anns, keys: &[&str]) {
        self.overwritten.extend(anns.iter().map(|a| a.0.clone()).filter(|a| keys.contains(&a.as_str())));
    }

    /// the canonical type, with the words by which it may be called
    fn ty(&mut self, t: &T, ns: Option<&str>) -> Value {
        self.anns.extend(t.anns.clone());
        self.kind(&t.k, &t.anns, ns)
    }
    fn kind(&mut self, k: &K, anns: &Anns, ns: Option<&str>) -> Value {
        match k {
            K::Prim(p) => {
                // an annotation can make a logical type of it
                let mut said = vec![json!(p)];
                for (k, v) in anns {
                    if k == "logicalType" {
                        said.push(v.clone());
                        for l in LOGICALS {
                            if v == logical(l).1 {
                                said.push(json!(l));
                            }
                        }
                        if let Some(s) = v.as_str() {
                            said.push(json!(s.replace('-', "_").replace("micros", "us").replace("millis", "ms")));
                        }
                    }
                }
                json!({"type": p, "said": said})
            }
            K::Logical(l) => {
                self.over(anns, &["logicalType"]);
                json!({"type": logical(l).0, "said": [l]})
            }
            K::Decimal(p, s) => {
                self.over(anns, &["logicalType", "precision", "scale"]);
                self.decimals.push((*p, *s));
                json!({"type": "bytes", "said": ["decimal"]})
            }
            K::Ref(n) => {
                self.annotated_ref |= !anns.is_empty();
                let full = eval::resolve_name(ns, n);
                self.refs.push(full.clone());
                json!({"ref": full})
            }
            K::Array(x) => {
                let i = self.ty(x, ns);
                json!({"type": "array", "items": i, "said": ["array"]})
            }
            K::Map(x) => {
                let i = self.ty(x, ns);
                json!({"type": "map", "values": i, "said": ["map"]})
            }
            K::Union(xs) => {
                let mut keys = vec![];
                let mut out = vec![];
                for x in xs {
                    self.nested_union |= matches!(x.k, K::Union(_) | K::Nullable(_));
                    let c = self.ty(x, ns);
                    keys.push(eval::branch_key(&c).trim_start_matches("ref ").to_string());
                    out.push(c);
                }
                self.unions.push(keys);
                Value::Array(out)
            }
            K::Nullable(k) => {
                self.null_nullable |= matches!(**k, K::Prim("null"));
                let c = self.kind(k, anns, ns);
                json!([{"type": "null", "said": ["null"]}, c])
            }
        }
    }

    fn lookups(&self, full: &str) -> Vec<&Value> {
        self.defs.iter().filter(|d| d.0 == full).map(|d| &d.1).collect()
    }

    /// Is `reason` a reason why `v` is no value of `ty`?
    fn reason(&self, reason: &str, ty: &Value, v: &Value, depth: usize) -> Verdict {
        if depth > 40 {
            return Unknown;
        }
        if let Some(r) = ty.get("ref") {
            let ds = self.lookups(r.as_str().unwrap());
            if ds.is_empty() {
                return False(format!("{r} is not defined, so nothing is wrong with its default"));
            }
            return any(ds.into_iter().map(|d| self.reason(reason, d, v, depth + 1)));
        }
        let defs = |n: &str| self.lookups(n).first().map(|d| (*d).clone());
        if self.defs.iter().all(|d| self.lookups(&d.0).len() == 1) && eval::valid_default(ty, v, &defs) == Tri::Yes {
            return False(format!("{v} is a value of the type"));
        }
        if let Some(rest) = reason.strip_prefix("value ") {
            let Some((n, rest)) = rest.split_once(" out of range for ") else { return Unknown };
            let Some((t, rest)) = rest.split_once(" (must be between ") else { return Unknown };
            if *v != json!(n.parse::<i64>().ok()) && v.to_string() != n {
                return False(format!("the value is {v}, not {n}"));
            }
            let want = match t {
                "int" => format!("{} and {})", i32::MIN, i32::MAX),
                "long" => format!("{} and {})", i64::MIN, i64::MAX),
                _ => return False(format!("{t} has no range")),
            };
            if ty["type"] != json!(t) {
                return False(format!("the type is not {t}"));
            }
            if rest != want {
                return False(format!("wrong range of {t}"));
            }
            return True;
        }
        if let Some((many, rest)) = reason
            .strip_prefix("missing required field in record `")
            .map(|r| (false, r))
            .or_else(|| reason.strip_prefix("missing required fields in record `").map(|r| (true, r)))
        {
            let Some((name, list)) = rest.split_once("`: ") else { return Unknown };
            let (Some(fs), Some(o)) = (ty["fields"].as_array(), v.as_object()) else {
                return False("no record, or no object is given to it".into());
            };
            if simple(ty["name"].as_str().unwrap()) != simple(name) {
                return False(format!("the record is not called {name}"));
            }
            let mut want: Vec<&str> = fs.iter().filter(|f| f.get("default").is_none()).map(|f| f["name"].as_str().unwrap()).filter(|n| !o.contains_key(*n)).collect();
            let mut got: Vec<&str> = list.split(", ").collect();
            want.sort();
            got.sort();
            if got != want {
                return False(format!("the missing fields are {want:?}, not {got:?}"));
            }
            if many != (got.len() > 1) {
                return False("wrong number".into());
            }
            return True;
        }
        for (p, sep) in [("invalid value for field `", "`: "), ("invalid value for key `", "`: "), ("invalid value for element ", ": ")] {
            let Some(rest) = reason.strip_prefix(p) else { continue };
            // (a key may hold anything, a separator as well)
            let key = match (p, v) {
                ("invalid value for key `", Value::Object(o)) => o.keys().find(|k| rest.strip_prefix(k.as_str()).is_some_and(|r| r.starts_with(sep))),
                _ => None,
            };
            let split = match key {
                Some(k) => Some((k.as_str(), &rest[k.len() + sep.len()..])),
                None => rest.split_once(sep),
            };
            let Some((name, inner)) = split else { return Unknown };
            let sub = match (p, v) {
                ("invalid value for field `", Value::Object(o)) => ty["fields"]
                    .as_array()
                    .and_then(|fs| fs.iter().find(|f| f["name"] == json!(name)))
                    .and_then(|f| o.get(name).map(|x| (&f["type"], x))),
                ("invalid value for key `", Value::Object(o)) => ty.get("values").and_then(|t| o.get(name).map(|x| (t, x))),
                ("invalid value for element ", Value::Array(a)) => {
                    ty.get("items").and_then(|t| name.parse::<usize>().ok().and_then(|i| a.get(i)).map(|x| (t, x)))
                }
                _ => None,
            };
            return match sub {
                Some((t, x)) => self.reason(inner, t, x, depth + 1),
                None => False(format!("there is no {name}")),
            };
        }
        if let Some(rest) = reason.strip_prefix("expected ") {
            let Some((want, got)) = rest.rsplit_once(", got ") else { return Unknown };
            let kind = match v {
                Value::Null => "null",
                Value::Bool(_) => "boolean",
                Value::Number(_) => "number",
                Value::String(_) => "string",
                Value::Array(_) => "array",
                Value::Object(_) => "object",
            };
            if got != kind {
                return False(format!("{v} is no {got}"));
            }
            let base = ty["type"].as_str();
            let said: Vec<String> = match base {
                None => vec!["union".into()],
                Some(b @ ("record" | "error" | "enum" | "fixed")) => {
                    let n = simple(ty["name"].as_str().unwrap());
                    let mut v = vec![format!("{b} {n}"), n.to_string()];
                    if b == "error" {
                        v.push(format!("record {n}"));
                    }
                    v
                }
                Some(b) => match ty["said"].as_array() {
                    Some(a) => a.iter().filter_map(|s| s.as_str().map(|s| s.to_string())).collect(),
                    None => vec![b.to_string()],
                },
            };
            if !said.iter().any(|s| s == want) {
                return False(format!("the type is {said:?}, not {want}"));
            }
            // such a value is just what was expected: that cannot be the reason
            let fits = match (base, v) {
                (None, _) => false,
                (Some("array"), Value::Array(_)) | (Some("map" | "record" | "error"), Value::Object(_)) => true,
                (Some("int" | "long"), Value::Number(n)) => n.is_i64() || n.is_u64(),
                _ => false,
            };
            if fits {
                return False(format!("{v} is of the expected kind: that is no reason to refuse it"));
            }
            return True;
        }
        Unknown
    }

    /// Is the statement true of the program?
    pub fn holds(&self, msg: &str) -> Verdict {
        let yes = |b: bool, why: &str| if b { True } else { False(why.to_string()) };
        let quoted = |s: &str, pre: &str, post: &str| -> Option<String> { s.strip_prefix(pre)?.strip_suffix(post).map(|x| x.to_string()) };
        if let Some(rest) = msg.strip_prefix("Invalid default for field `") {
            let Some((f, rest)) = rest.split_once('`') else { return Unknown };
            let (owner, reason) = if let Some(r) = rest.strip_prefix(" in `") {
                let Some((o, r)) = r.split_once("`: ") else { return Unknown };
                (Some(o), r)
            } else {
                (None, rest.trim_start_matches(": "))
            };
            let hits: Vec<&Given> = self
                .defaults
                .iter()
                .filter(|d| d.field == f && owner.is_none_or(|o| d.owner == o || d.owner_full == o || self.params.iter().any(|p| d.owner.is_empty() && p.0 == o)))
                .collect();
            if hits.is_empty() {
                return False("there is no such default".into());
            }
            return any(hits.into_iter().map(|d| self.reason(reason, &d.ty, &d.value, 0)));
        }
        for (pre, mid, list, what) in [
            ("duplicate field '", "' in record '", &self.members, "field"),
            ("duplicate parameter '", "' in message '", &self.params, "parameter"),
        ] {
            if let Some(rest) = msg.strip_prefix(pre) {
                let Some((f, r)) = rest.trim_end_matches('\'').split_once(mid) else { return Unknown };
                return yes(
                    list.iter().any(|(n, fs)| (n == r || simple(r) == n) && fs.iter().filter(|x| *x == f).count() > 1),
                    &format!("{r} has no two {what}s {f}"),
                );
            }
        }
        if let Some(s) = msg.strip_prefix("duplicate enum symbol: ") {
            return yes(self.enums.iter().any(|e| e.0.iter().filter(|x| *x == s).count() > 1), "no enum has it twice");
        }
        if let Some(rest) = msg.strip_prefix("The Enum Default: ") {
            let Some((d, set)) = rest.split_once(" is not in the enum symbol set: ") else { return Unknown };
            return yes(
                self.enums.iter().any(|e| e.1.as_deref() == Some(d) && !e.0.iter().any(|s| s == d) && set == format!("{:?}", e.0)),
                "no enum with these symbols has that default",
            );
        }
        if let Some(k) = msg.strip_prefix("Duplicate in union: ") {
            return yes(self.unions.iter().any(|u| u.iter().filter(|x| *x == k).count() > 1), "no union has it twice");
        }
        if let Some(n) = msg.strip_prefix("duplicate schema name: ") {
            return yes(self.lookups(n).len() > 1, "it is not defined twice");
        }
        if let Some(rest) = msg.strip_prefix("invalid Avro name: `") {
            let Some((n, _)) = rest.split_once('`') else { return Unknown };
            return yes(self.names.iter().any(|x| x == n) && !eval::valid_name(n), "there is no such name, or it is valid");
        }
        if let Some(rest) = msg.strip_prefix("invalid Avro namespace segment: `") {
            let Some((s, rest)) = rest.split_once("` in `") else { return Unknown };
            let Some((ns, _)) = rest.split_once('`') else { return Unknown };
            return yes(
                self.namespaces.iter().any(|x| x == ns) && ns.split('.').any(|x| x == s) && !eval::valid_name(s),
                "there is no such namespace, or it has no such segment, or it is valid",
            );
        }
        if let Some(n) = msg.strip_prefix("Illegal name: ") {
            return yes(self.names.iter().any(|x| x == simple(n)) && eval::RESERVED_TYPE_NAMES.contains(&simple(n)), "there is no such name, or it is fine");
        }
        for pre in ["Can't set reserved property: ", "Can't overwrite property: "] {
            if let Some(p) = msg.strip_prefix(pre) {
                let over = pre.contains("overwrite");
                return yes(
                    if over { self.overwritten.iter().any(|x| x == p) } else { self.anns.iter().any(|a| a.0 == p) },
                    "there is no such annotation",
                );
            }
        }
        if msg == "`null` type cannot be made nullable" {
            return yes(self.null_nullable, "there is no `null?`");
        }
        if msg.starts_with("Type references may not be annotated") {
            return yes(self.annotated_ref, "no reference is annotated");
        }
        if msg.starts_with("Unions may not immediately contain other unions") {
            return yes(self.nested_union, "no union holds a union");
        }
        if let Some(rest) = msg.strip_prefix("invalid decimal precision: ") {
            return match quoted(rest, "", " (must be positive)") {
                Some(n) => yes(self.decimals.iter().any(|d| d.0 <= 0 && d.0.to_string() == n), "no decimal has it"),
                None => yes(self.decimals.iter().any(|d| d.0 < 0 || d.0 > u32::MAX as i64), "no precision is out of range"),
            };
        }
        if let Some(rest) = msg.strip_prefix("invalid decimal scale: ") {
            return match rest.split_once(" (greater than precision: ") {
                Some((s, p)) => {
                    let p = p.trim_end_matches(')');
                    yes(
                        self.decimals.iter().any(|d| d.0.to_string() == p && d.1.is_some_and(|x| x.to_string() == s && x > d.0)),
                        "no decimal has them",
                    )
                }
                None => yes(self.decimals.iter().any(|d| d.1.is_some_and(|s| s < 0 || s > u32::MAX as i64)), "no scale is out of range"),
            };
        }
        if let Some(rest) = msg.strip_prefix("invalid fixed size for `") {
            let Some((n, _)) = rest.split_once('`') else { return Unknown };
            return yes(self.fixed.iter().any(|f| f.0 == simple(n) && f.1 > u32::MAX as u64), "its size is fine");
        }
        if let Some(m) = quoted(msg, "One-way message '", "' must return void") {
            return yes(self.oneway.contains(&m), "it does, or is not one-way");
        }
        if let Some(rest) = msg.strip_prefix("import not found: ") {
            let Some((f, dirs)) = rest.split_once(" (searched: ") else { return Unknown };
            let dirs: Vec<&str> = dirs.trim_end_matches(')').split(", ").collect();
            if !self.missing_imports.iter().any(|x| x.0 == f) {
                return False("there is no such import, or it can be found".into());
            }
            // (the directories are below a scratch directory; without files it is the current one)
            return yes(
                self.files.is_empty()
                    || dirs.len() == 1 + self.dirs.len()
                        && self.missing_imports.iter().any(|x| x.0 == f && dirs[0].ends_with(&x.1))
                        && dirs[1..].iter().zip(&self.dirs).all(|(a, b)| a.ends_with(b.as_str())),
                "that is not where it was looked for",
            );
        }
        if let Some(ns) = msg.strip_prefix("Undefined name: ") {
            for n in ns.split(", ") {
                if !self.lookups(n).is_empty() {
                    return False(format!("{n} is defined"));
                }
                if !self.refs.iter().any(|r| r == n) && !self.json_files {
                    return False(format!("{n} is not referred to"));
                }
            }
            return True;
        }
        let ann = |k: &str| self.anns.iter().filter(|a| a.0 == k).map(|a| a.1.clone()).collect::<Vec<_>>();
        if msg == "@namespace must contain a string value" {
            return yes(ann("namespace").iter().any(|v| !v.is_string()), "it does");
        }
        if msg == "@aliases must contain an array of strings" {
            return yes(ann("aliases").iter().any(|v| v.as_array().is_none_or(|a| a.iter().any(|x| !x.is_string()))), "it does");
        }
        if msg == "@order must contain a string value" {
            return yes(ann("order").iter().any(|v| !v.is_string()), "it does");
        }
        if let Some(s) = msg.strip_prefix("@order must be ASCENDING, DESCENDING, or IGNORE, got: ") {
            return yes(
                ann("order").iter().any(|v| v.as_str() == Some(s)) && !["ASCENDING", "DESCENDING", "IGNORE"].contains(&s.to_uppercase().as_str()),
                "there is no such order, or it is fine",
            );
        }
        if msg == "IDL file contains neither a protocol nor a schema declaration" {
            return yes(self.named_only, "it does");
        }
        if let Some(f) = quoted(msg, "parse default value for field `", "`") {
            return yes(self.defaults.iter().any(|d| d.field == f), "it has no default");
        }
        if let Some(f) = quoted(msg, "parse value for schema property `", "`") {
            return yes(self.anns.iter().any(|a| a.0 == f), "there is no such annotation");
        }
        for pre in ["parse imported IDL ", "read imported IDL ", "resolve nested imports from `", "read schema file `", "read protocol file `"] {
            if let Some(p) = msg.strip_prefix(pre) {
                let p = p.split('`').next().unwrap();
                if p.ends_with("/d") {
                    return Unknown; // a directory in place of a file
                }
                return yes(self.asked.iter().any(|f| p.ends_with(f.as_str())), "no such file is imported");
            }
        }
        // a suggestion must name something there is
        if let Some(rest) = msg.strip_prefix("did you mean `") {
            let Some(n) = rest.strip_suffix("`?") else { return Unknown };
            let prim = PRIMS.contains(&n) || LOGICALS.contains(&n) || ["array", "map", "union", "decimal"].contains(&n);
            return yes(prim || self.defs.iter().any(|d| d.0 == n || simple(&d.0) == n), "there is nothing of that name");
        }
        Unknown
    }

    /// Every statement of the report; the forms met that are not judged go to `unknown`.
    pub fn judge(&self, d: &Diag, unknown: &mut Vec<String>, known: &mut usize) -> Result<(), String> {
        let mut said: Vec<&str> = d.chain.iter().map(|s| s.as_str()).collect();
        said.extend(d.help.as_deref());
        said.extend(d.labels.iter().filter_map(|l| l.label.as_deref()));
        for s in said {
            match self.holds(s) {
                True => *known += 1,
                Unknown => unknown.push(s.to_string()),
                False(why) => return Err(format!("the report says {s:?}: {why}")),
            }
        }
        d.related.iter().try_for_each(|r| self.judge(r, unknown, known))
    }
}

fn any(it: impl Iterator<Item = Verdict>) -> Verdict {
    let mut out = Unknown;
    for v in it {
        match v {
            True => return True,
            Unknown => return Unknown,
            f => out = f,
        }
    }
    out
}
