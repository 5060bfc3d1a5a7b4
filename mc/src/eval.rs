//! Reference model: the meaning of an IDL program by the rules of the Avro specification and
//! the IDL language description.  Deliberately simple; shares no code with /repo.
//!
//! Canonical types: `{"type":"int", attrs..}`, `{"ref":"full.name"}`, JSON arrays for unions,
//! `{"type":"array","items":..}`, `{"type":"map","values":..}`.
use crate::ast::*;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Reject {
    pub class: &'static str,
    /// Names the diagnostic must mention.
    pub names: Vec<String>,
}
pub type Ev<X> = Result<X, Reject>;
fn rej<X>(class: &'static str, name: &str) -> Ev<X> {
    Err(Reject { class, names: vec![name.to_string()] })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Head {
    Protocol { name: String, doc: Option<String>, attrs: BTreeMap<String, Value> },
    Schema(Value),
    NamedOnly,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Meaning {
    pub head: Head,
    /// canonical definitions in registration order
    pub defs: Vec<(String, Value)>,
    pub messages: BTreeMap<String, Value>,
    /// the model cannot decide some default (forward reference): accept either verdict
    pub undecided: bool,
    /// warnings in order; each holds the words its text must contain
    pub warnings: Vec<Vec<String>>,
}

/// A file system for imports: path -> content.
#[derive(Clone, Debug, Default)]
pub struct World {
    pub files: BTreeMap<String, Content>,
    /// extra import directories, in order
    pub dirs: Vec<String>,
}
#[derive(Clone, Debug)]
pub enum Content {
    Idl(File),
    /// JSON schema/protocol with its canonical contents
    Json { text: String, defs: Vec<(String, Value)>, messages: BTreeMap<String, Value> },
}

pub const TYPE_NAMES: [&str; 8] = PRIMS;
/// names a declared type may not have (its simple name)
pub const RESERVED_TYPE_NAMES: [&str; 13] = [
    "int", "string", "boolean", "bytes", "long", "float", "double", "null", "date", "time_ms", "timestamp_ms",
    "local_timestamp_ms", "uuid",
];

pub fn valid_name(n: &str) -> bool {
    let mut c = n.chars();
    matches!(c.next(), Some(x) if x == '_' || x.is_alphabetic()) && c.all(|x| x == '_' || x.is_alphanumeric())
}

pub fn join_name(ns: Option<&str>, n: &str) -> String {
    match ns {
        Some(ns) if !ns.is_empty() => format!("{ns}.{n}"),
        _ => n.to_string(),
    }
}
/// Full name of a name written where `ns` is in force.
pub fn resolve_name(ns: Option<&str>, n: &str) -> String {
    if n.contains('.') { n.to_string() } else { join_name(ns, n) }
}
pub fn ns_of(full: &str) -> Option<&str> {
    full.rfind('.').map(|i| &full[..i])
}

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Protocol,
    Named,
    Enum,
    Var,
    Message,
    Type,
}
fn reserved(pos: Pos, a: &str) -> bool {
    const SCHEMA: [&str; 9] = ["doc", "fields", "items", "name", "namespace", "size", "symbols", "values", "type"];
    match pos {
        Pos::Protocol => ["namespace", "protocol", "doc", "messages", "types", "errors"].contains(&a),
        Pos::Named => SCHEMA.contains(&a) || a == "aliases",
        Pos::Enum => SCHEMA.contains(&a) || a == "aliases" || a == "default",
        Pos::Var => ["default", "doc", "name", "order", "type", "aliases"].contains(&a),
        Pos::Message => ["doc", "response", "request", "errors", "one-way"].contains(&a),
        Pos::Type => SCHEMA.contains(&a) || a == "aliases",
    }
}

pub struct Eval<'w> {
    pub world: Option<&'w World>,
    imported: BTreeSet<String>,
    defs: Vec<(String, Value)>,
    messages: BTreeMap<String, Value>,
    undecided: bool,
    /// references used anywhere (full names, in order)
    refs: Vec<String>,
    warnings: Vec<Vec<String>>,
}

fn str_list(v: &Value) -> Option<Vec<String>> {
    v.as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()
}

/// What a JSON file holds.
fn json_kind(text: &str, path: &str) -> ImpKind {
    let protocol = match serde_json::from_str::<Value>(text) {
        Ok(v) => v.get("protocol").is_some(),
        Err(_) => path.ends_with(".avpr"),
    };
    if protocol { ImpKind::Protocol } else { ImpKind::Schema }
}

/// `attrs` normal form: a decimal's zero scale is the absent scale, and its whole parameters are
/// integers however they are spelled.
pub fn norm_attrs(base: &str, m: &mut Map<String, Value>) {
    if base == "bytes" && m.get("logicalType") == Some(&json!("decimal")) {
        for k in ["precision", "scale"] {
            if let Some(v) = m.get_mut(k)
                && let Some(f) = v.as_f64()
                && v.is_f64()
                && f.fract() == 0.0
                && f.abs() < 9e15
            {
                *v = json!(f as i64);
            }
        }
    }
    if (base == "bytes" || base == "fixed")
        && m.get("logicalType") == Some(&json!("decimal"))
        && m.get("scale").and_then(|s| s.as_i64()) == Some(0)
    {
        m.remove("scale");
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Yes,
    No,
    Unknown,
}
impl Tri {
    pub fn and(self, o: Tri) -> Tri {
        match (self, o) {
            (Tri::No, _) | (_, Tri::No) => Tri::No,
            (Tri::Unknown, _) | (_, Tri::Unknown) => Tri::Unknown,
            _ => Tri::Yes,
        }
    }
    pub fn or(self, o: Tri) -> Tri {
        match (self, o) {
            (Tri::Yes, _) | (_, Tri::Yes) => Tri::Yes,
            (Tri::Unknown, _) | (_, Tri::Unknown) => Tri::Unknown,
            _ => Tri::No,
        }
    }
}

/// The specification's validity relation between a type and a JSON default.
pub fn valid_default(ty: &Value, v: &Value, defs: &dyn Fn(&str) -> Option<Value>) -> Tri {
    let b = |x: bool| if x { Tri::Yes } else { Tri::No };
    if let Some(branches) = ty.as_array() {
        return branches.iter().fold(Tri::No, |a, t| a.or(valid_default(t, v, defs)));
    }
    if let Some(r) = ty.get("ref") {
        return match defs(r.as_str().unwrap()) {
            Some(d) => valid_default(&d, v, defs),
            None => Tri::Unknown,
        };
    }
    match ty["type"].as_str().unwrap() {
        "null" => b(v.is_null()),
        "boolean" => b(v.is_boolean()),
        "string" | "bytes" | "enum" | "fixed" => b(v.is_string()),
        "int" => b(v.as_i64().is_some_and(|x| i32::try_from(x).is_ok())),
        "long" => b(v.as_i64().is_some()),
        // JSON has no literals for these three values: they are written as strings
        "float" | "double" => b(v.is_number() || matches!(v.as_str(), Some("NaN" | "Infinity" | "-Infinity"))),
        "array" => match v {
            Value::Array(a) => a.iter().fold(Tri::Yes, |t, x| t.and(valid_default(&ty["items"], x, defs))),
            _ => Tri::No,
        },
        "map" => match v {
            Value::Object(m) => m.values().fold(Tri::Yes, |t, x| t.and(valid_default(&ty["values"], x, defs))),
            _ => Tri::No,
        },
        "record" | "error" => match v {
            Value::Object(m) => ty["fields"].as_array().unwrap().iter().fold(Tri::Yes, |t, f| {
                let name = f["name"].as_str().unwrap();
                t.and(match m.get(name) {
                    Some(x) => valid_default(&f["type"], x, defs),
                    // a default of the field's own was checked where it was declared
                    None => b(f.get("default").is_some()),
                })
            }),
            _ => Tri::No,
        },
        x => panic!("valid_default: {x}"),
    }
}

impl<'w> Eval<'w> {
    pub fn new(world: Option<&'w World>) -> Self {
        Eval { world, imported: BTreeSet::new(), defs: vec![], messages: BTreeMap::new(), undecided: false, refs: vec![], warnings: vec![] }
    }

    fn attrs(&self, pos: Pos, anns: &Anns, skip: &[&str]) -> Ev<Map<String, Value>> {
        let mut m = Map::new();
        for (k, v) in anns {
            if skip.contains(&k.as_str()) {
                continue;
            }
            if reserved(pos, k) {
                return rej("reserved-annotation", k);
            }
            m.insert(k.clone(), v.clone());
        }
        Ok(m)
    }

    fn ty(&mut self, ty: &T, ns: Option<&str>) -> Ev<Value> {
        self.kind(&ty.k, &ty.anns, ns)
    }

    fn kind(&mut self, k: &K, anns: &Anns, ns: Option<&str>) -> Ev<Value> {
        let mk = |base: &str, pre: Value, me: &Self| -> Ev<Value> {
            let mut m = me.attrs(Pos::Type, anns, &[])?;
            if let Value::Object(p) = pre {
                for (k, v) in p {
                    // the attributes that make up the type cannot be annotated away
                    if m.get(&k).is_some_and(|x| *x != v) {
                        return rej("overwritten-attribute", &k);
                    }
                    m.insert(k, v);
                }
            }
            m.insert("type".into(), json!(base));
            norm_attrs(base, &mut m);
            Ok(Value::Object(m))
        };
        match k {
            K::Prim(p) => mk(p, json!({}), self),
            K::Logical("date") => mk("int", json!({"logicalType": "date"}), self),
            K::Logical("time_ms") => mk("int", json!({"logicalType": "time-millis"}), self),
            K::Logical("timestamp_ms") => mk("long", json!({"logicalType": "timestamp-millis"}), self),
            K::Logical("local_timestamp_ms") => mk("long", json!({"logicalType": "local-timestamp-millis"}), self),
            K::Logical("uuid") => mk("string", json!({"logicalType": "uuid"}), self),
            K::Logical(x) => panic!("{x}"),
            K::Decimal(p, s) => {
                let sc = s.unwrap_or(0);
                if *p < 1 || sc < 0 || sc > *p || *p > u32::MAX as i64 {
                    return rej("decimal", "");
                }
                mk("bytes", json!({"logicalType": "decimal", "precision": p, "scale": sc}), self)
            }
            K::Ref(n) => {
                if !anns.is_empty() {
                    return rej("annotated-reference", "");
                }
                let full = resolve_name(ns, n);
                self.refs.push(full.clone());
                Ok(json!({"ref": full}))
            }
            K::Array(x) => {
                let i = self.ty(x, ns)?;
                mk("array", json!({"items": i}), self)
            }
            K::Map(x) => {
                let i = self.ty(x, ns)?;
                mk("map", json!({"values": i}), self)
            }
            K::Union(xs) => {
                // attributes of a union have no place in JSON: they are checked, then dropped
                let dropped = self.attrs(Pos::Type, anns, &[])?;
                let mut out = vec![];
                let mut seen = BTreeSet::new();
                for x in xs {
                    if matches!(x.k, K::Union(_) | K::Nullable(_)) {
                        return rej("nested-union", "");
                    }
                    let c = self.ty(x, ns)?;
                    if !seen.insert(branch_key(&c)) {
                        return rej("duplicate-branch", "");
                    }
                    out.push(c);
                }
                if !dropped.is_empty() {
                    self.warnings.push(dropped.keys().cloned().collect());
                }
                Ok(Value::Array(out))
            }
            K::Nullable(k) => {
                // "null?" would be a union of two nulls
                let c = self.kind(k, anns, ns)?;
                if branch_key(&c) == "null" {
                    return rej("duplicate-branch", "");
                }
                Ok(json!([{"type": "null"}, c]))
            }
        }
    }

    /// The type of a field or parameter: a nullable type follows its default.
    fn field_type(ty: &T, c: &Value, default: &Option<Value>) -> Value {
        if let (K::Nullable(_), Some(d)) = (&ty.k, default) {
            if !d.is_null() {
                let a = c.as_array().unwrap();
                return json!([a[1], a[0]]);
            }
        }
        c.clone()
    }

    fn warn_aliases(&mut self, a: &[String]) {
        for x in a {
            if !x.split('.').all(valid_name) {
                self.warnings.push(vec![x.clone()]);
            }
        }
    }

    fn var(&mut self, v: &Var, outer_doc: &Option<String>, ty: Value) -> Ev<Value> {
        let mut m = self.attrs(Pos::Var, &v.anns, &["aliases", "order"])?;
        for (k, x) in &v.anns {
            if k == "order" {
                let Some(o) = x.as_str().map(|s| s.to_lowercase()) else { return rej("bad-order", "") };
                if !["ascending", "descending", "ignore"].contains(&o.as_str()) {
                    return rej("bad-order", "");
                }
                m.insert("order".into(), json!(o));
            }
            if k == "aliases" {
                let Some(a) = str_list(x) else { return rej("bad-aliases", "") };
                self.warn_aliases(&a);
                m.insert("aliases".into(), json!(a));
            }
        }
        norm_field(&mut m);
        if !valid_name(&v.name) {
            return rej("bad-name", &v.name);
        }
        m.insert("name".into(), json!(v.name));
        m.insert("type".into(), ty);
        if let Some(d) = v.doc.as_ref().or(outer_doc.as_ref()) {
            m.insert("doc".into(), json!(d));
        }
        if let Some(d) = &v.default {
            m.insert("default".into(), d.clone());
        }
        Ok(Value::Object(m))
    }

    fn named(&mut self, n: &Named, enclosing: Option<&str>) -> Ev<()> {
        let mut ns: Option<String> = enclosing.map(|s| s.to_string());
        let mut aliases: Vec<String> = vec![];
        for (k, v) in &n.anns {
            if k == "namespace" {
                let Some(s) = v.as_str() else { return rej("bad-namespace", "") };
                ns = Some(s.to_string());
            }
            if k == "aliases" {
                let Some(a) = str_list(v) else { return rej("bad-aliases", "") };
                self.warn_aliases(&a);
                aliases = a;
            }
        }
        let simple = match n.name.rfind('.') {
            Some(i) => {
                ns = Some(n.name[..i].to_string());
                n.name[i + 1..].to_string()
            }
            None => n.name.clone(),
        };
        let full = join_name(ns.as_deref(), &simple);
        if RESERVED_TYPE_NAMES.contains(&simple.as_str()) {
            return rej("reserved-type-name", &simple);
        }
        if let Some(bad) = full.split('.').find(|x| !valid_name(x)) {
            return rej("bad-name", bad);
        }
        let inner = ns_of(&full).map(|s| s.to_string());
        let pos = if matches!(n.body, Body::Enum { .. }) { Pos::Enum } else { Pos::Named };
        let mut m = self.attrs(pos, &n.anns, &["namespace", "aliases"])?;
        if !aliases.is_empty() {
            let a: Vec<String> = aliases.iter().map(|a| resolve_name(inner.as_deref(), a)).collect();
            m.insert("aliases".into(), json!(a));
        }
        if let Some(d) = &n.doc {
            m.insert("doc".into(), json!(d));
        }
        m.insert("name".into(), json!(full));
        let mut later: Vec<(String, Value, Value)> = vec![];
        match &n.body {
            Body::Record { error, fields } => {
                m.insert("type".into(), json!(if *error { "error" } else { "record" }));
                let mut out = vec![];
                let mut seen = BTreeSet::new();
                for f in fields {
                    let c = self.ty(&f.ty, inner.as_deref())?;
                    for v in &f.vars {
                        let ty = Self::field_type(&f.ty, &c, &v.default);
                        if let Some(d) = &v.default {
                            later.push((v.name.clone(), ty.clone(), d.clone()));
                        }
                        let c = self.var(v, &f.doc, ty)?;
                        if !seen.insert(v.name.clone()) {
                            return rej("duplicate-field", &v.name);
                        }
                        out.push(c);
                    }
                }
                m.insert("fields".into(), json!(out));
            }
            Body::Enum { syms, default } => {
                m.insert("type".into(), json!("enum"));
                let mut seen = BTreeSet::new();
                for s in syms {
                    if !valid_name(s) {
                        return rej("bad-name", s);
                    }
                    if !seen.insert(s) {
                        return rej("duplicate-symbol", s);
                    }
                }
                m.insert("symbols".into(), json!(syms));
                if let Some(d) = default {
                    if !syms.contains(d) {
                        return rej("enum-default", d);
                    }
                    m.insert("default".into(), json!(d));
                }
            }
            Body::Fixed(s) => {
                if *s > u32::MAX as u64 {
                    return rej("fixed-size", &n.name);
                }
                m.insert("type".into(), json!("fixed"));
                m.insert("size".into(), json!(s));
                norm_attrs("fixed", &mut m);
            }
        }
        if self.defs.iter().any(|(f, _)| *f == full) {
            return rej("duplicate-type", &full);
        }
        self.defs.push((full, Value::Object(m)));
        for (fname, ty, d) in later {
            match self.check_default(&ty, &d) {
                Tri::No => return rej("bad-default", &fname),
                Tri::Unknown => self.undecided = true,
                Tri::Yes => {}
            }
        }
        Ok(())
    }

    fn check_default(&self, ty: &Value, d: &Value) -> Tri {
        valid_default(ty, d, &|n| self.defs.iter().find(|(f, _)| f == n).map(|(_, v)| v.clone()))
    }

    fn msg(&mut self, m: &Msg, ns: Option<&str>) -> Ev<()> {
        let mut attrs = self.attrs(Pos::Message, &m.anns, &[])?;
        let resp = match &m.resp {
            None => json!({"type": "null"}),
            Some(k) => self.kind(k, &vec![], ns)?,
        };
        if let Some(K::Ref(_)) = &m.resp.as_ref().map(|k| if let K::Nullable(k) = k { &**k } else { k }) {
            // it would be ambiguous whether the message or the reference is annotated
            if !attrs.is_empty() {
                return rej("annotated-reference", "");
            }
        }
        let mut req = vec![];
        let mut seen = BTreeSet::new();
        for p in &m.params {
            let c = self.ty(&p.ty, ns)?;
            let ty = Self::field_type(&p.ty, &c, &p.var.default);
            if let Some(d) = &p.var.default {
                match self.check_default(&ty, d) {
                    Tri::No if !mentions_ref(&ty) => return rej("bad-default", &p.var.name),
                    Tri::Yes => {}
                    _ => self.undecided = true,
                }
            }
            let c = self.var(&p.var, &p.doc, ty)?;
            if !seen.insert(p.var.name.clone()) {
                return rej("duplicate-param", &p.var.name);
            }
            req.push(c);
        }
        if m.oneway && resp != json!({"type": "null"}) {
            return rej("one-way", &m.name);
        }
        let mut errors = vec![];
        for e in &m.throws {
            let full = resolve_name(ns, e);
            self.refs.push(full.clone());
            errors.push(json!({"ref": full}));
        }
        if let Some(d) = &m.doc {
            attrs.insert("doc".into(), json!(d));
        }
        attrs.insert("request".into(), json!(req));
        attrs.insert("response".into(), resp);
        if m.oneway {
            attrs.insert("one-way".into(), json!(true));
        }
        if !errors.is_empty() {
            attrs.insert("errors".into(), json!(errors));
        }
        self.messages.insert(m.name.clone(), Value::Object(attrs));
        Ok(())
    }

    fn find(&self, dir: &str, path: &str) -> Option<String> {
        let w = self.world?;
        let mut cands = vec![norm_path(&format!("{dir}/{path}"))];
        for d in &w.dirs {
            cands.push(norm_path(&format!("{d}/{path}")));
        }
        cands.into_iter().find(|c| w.files.contains_key(c))
    }

    fn file(&mut self, f: &File, dir: &str, top: bool) -> Ev<Head> {
        let (ns, head): (Option<String>, Head) = match &f.mode {
            Mode::Protocol { doc, anns, name } => {
                let mut ns = None;
                for (k, v) in anns {
                    if k == "namespace" {
                        let Some(s) = v.as_str() else { return rej("bad-namespace", "") };
                        ns = Some(s.to_string());
                    }
                }
                let attrs = self.attrs(Pos::Protocol, anns, &["namespace"])?;
                if let Some(i) = name.rfind('.') {
                    ns = Some(name[..i].to_string());
                }
                let simple = name.rsplit('.').next().unwrap();
                let full = join_name(ns.as_deref(), simple);
                if RESERVED_TYPE_NAMES.contains(&simple) {
                    return rej("reserved-type-name", simple);
                }
                if let Some(bad) = full.split('.').find(|x| !valid_name(x)) {
                    return rej("bad-name", bad);
                }
                let ns = ns_of(&full).map(|s| s.to_string());
                (ns, Head::Protocol { name: full, doc: doc.clone(), attrs: attrs.into_iter().collect() })
            }
            Mode::Schema { ns, main } => {
                if let Some(n) = ns {
                    if !n.split('.').all(valid_name) {
                        return rej("bad-name", n);
                    }
                }
                let h = match main {
                    Some(m) => Head::Schema(self.ty(m, ns.as_deref())?),
                    None => Head::NamedOnly,
                };
                (ns.clone(), h)
            }
        };
        // own messages win over imported ones; collected after the imports
        let mut own: Vec<&Msg> = vec![];
        for it in &f.items {
            match it {
                Item::Import(kind, p) => {
                    let Some(path) = self.find(dir, p) else { return rej("import-not-found", p) };
                    if !self.imported.insert(path.clone()) {
                        continue;
                    }
                    let w = self.world.unwrap();
                    match (&w.files[&path], kind) {
                        (Content::Idl(g), ImpKind::Idl) => {
                            let d = path.rsplit_once('/').map(|x| x.0).unwrap_or("").to_string();
                            self.file(g, &d, false)?;
                        }
                        (Content::Json { text, .. }, k) if *k != json_kind(text, &path) => {
                            return rej("import-kind", p);
                        }
                        (Content::Json { defs, messages, .. }, _) => {
                            for (n, d) in defs {
                                if self.defs.iter().any(|(x, _)| x == n) {
                                    return rej("duplicate-type", n);
                                }
                                collect_refs(d, &mut self.refs);
                                self.defs.push((n.clone(), d.clone()));
                            }
                            if *kind == ImpKind::Protocol {
                                for (n, m) in messages {
                                    collect_refs(m, &mut self.refs);
                                    self.messages.insert(n.clone(), m.clone());
                                }
                            }
                        }
                        _ => return rej("import-kind", p),
                    }
                }
                Item::Named(n) => self.named(n, ns.as_deref())?,
                Item::Msg(m) => own.push(m),
            }
        }
        let mut names = BTreeSet::new();
        for m in own {
            if !names.insert(&m.name) {
                return rej("duplicate-message", &m.name);
            }
            self.msg(m, ns.as_deref())?;
        }
        let _ = top;
        Ok(head)
    }

    pub fn run(mut self, f: &File, path: Option<&str>) -> Ev<Meaning> {
        if let Some(p) = path {
            self.imported.insert(p.to_string());
        }
        let dir = path.and_then(|p| p.rsplit_once('/')).map(|x| x.0.to_string()).unwrap_or_default();
        let head = self.file(f, &dir, true)?;
        let mut undef: Vec<String> = vec![];
        for r in &self.refs {
            if !self.defs.iter().any(|(n, _)| n == r) && !undef.contains(r) {
                undef.push(r.clone());
            }
        }
        if !undef.is_empty() {
            return Err(Reject { class: "undefined", names: undef });
        }
        // (a schema has no messages, whatever it imports)
        let messages = if matches!(head, Head::Protocol { .. }) { self.messages } else { Default::default() };
        Ok(Meaning { head, defs: self.defs, messages, undecided: self.undecided, warnings: self.warnings })
    }
}

pub fn evaluate(f: &File) -> Ev<Meaning> {
    Eval::new(None).run(f, None)
}

pub fn norm_field(m: &mut Map<String, Value>) {
    if m.get("order") == Some(&json!("ascending")) {
        m.remove("order");
    }
    if m.get("aliases") == Some(&json!([])) {
        m.remove("aliases");
    }
}

pub fn branch_key(c: &Value) -> String {
    match c {
        Value::Array(_) => "union".into(),
        _ => match c.get("ref") {
            Some(r) => format!("ref {}", r.as_str().unwrap()),
            None => c["type"].as_str().unwrap().into(),
        },
    }
}

pub fn mentions_ref(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(mentions_ref),
        Value::Object(m) => {
            m.contains_key("ref")
                || m.get("items").is_some_and(mentions_ref)
                || m.get("values").is_some_and(mentions_ref)
        }
        _ => false,
    }
}

/// References in a canonical definition, type or message, in document order.
pub fn collect_refs(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| collect_refs(x, out)),
        Value::Object(m) => {
            if let Some(r) = m.get("ref") {
                out.push(r.as_str().unwrap().into());
                return;
            }
            match m.get("type").and_then(|t| t.as_str()) {
                Some("array") => collect_refs(&m["items"], out),
                Some("map") => collect_refs(&m["values"], out),
                Some("record") | Some("error") => {
                    for f in m["fields"].as_array().unwrap() {
                        collect_refs(&f["type"], out);
                    }
                }
                Some(_) => {}
                None => {
                    for p in m["request"].as_array().unwrap() {
                        collect_refs(&p["type"], out);
                    }
                    collect_refs(&m["response"], out);
                    if let Some(e) = m.get("errors") {
                        collect_refs(e, out);
                    }
                }
            }
        }
        _ => {}
    }
}

pub fn norm_path(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}

impl Meaning {
    pub fn def(&self, n: &str) -> Option<&Value> {
        self.defs.iter().find(|(f, _)| f == n).map(|x| &x.1)
    }
    /// Walk as a writer does: types in registration order, each inlined at first use.
    /// Returns (order in which definitions are written, those written at top level).
    pub fn layout(&self) -> (Vec<String>, Vec<String>) {
        let mut order = vec![];
        let mut top = vec![];
        for (n, _) in &self.defs {
            if !order.contains(n) {
                top.push(n.clone());
                self.inline(n, &mut order);
            }
        }
        (order, top)
    }
    pub fn inline(&self, n: &str, order: &mut Vec<String>) {
        if order.iter().any(|x| x == n) {
            return;
        }
        order.push(n.to_string());
        if let Some(d) = self.def(n) {
            let mut refs = vec![];
            collect_refs(d, &mut refs);
            for r in refs {
                self.inline(&r, order);
            }
        }
    }
    pub fn layout_of(&self, ty: &Value) -> Vec<String> {
        let mut order = vec![];
        let mut refs = vec![];
        collect_refs(ty, &mut refs);
        for r in refs {
            self.inline(&r, &mut order);
        }
        order
    }
}
