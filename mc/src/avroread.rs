//! Reads Avro JSON (schemas and protocols) by the rules of the Avro specification into the
//! canonical form of `eval`: full names everywhere, every definition exactly once and before
//! (or at) its first use.
use crate::eval::{Head, join_name, norm_attrs, norm_field, ns_of};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;

pub const PRIM: [&str; 8] = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];

#[derive(Default, Debug)]
pub struct Reader {
    /// canonical definitions in order of first occurrence
    pub defs: Vec<(String, Value)>,
    /// names whose definition has started (a record may refer to itself)
    started: Vec<String>,
    /// some reference was only found by the fallback to the null namespace
    fell_back: std::cell::Cell<bool>,
    /// read a namespace attribute as winning over a dotted name (a known deviation)
    attr_wins: bool,
}
pub type Rd<X> = Result<X, String>;

#[derive(Debug)]
pub struct Doc {
    pub head: Head,
    pub order: Vec<String>,
    pub top: Vec<String>,
    pub defs: BTreeMap<String, Value>,
    pub messages: BTreeMap<String, Value>,
    pub fell_back: bool,
}

impl Reader {
    fn lookup(&self, s: &str, ns: Option<&str>) -> Rd<Value> {
        let full = if s.contains('.') { s.to_string() } else { join_name(ns, s) };
        if self.started.contains(&full) {
            return Ok(json!({"ref": full}));
        }
        // a type without namespace cannot be referred to from inside a namespace by the letter
        // of the specification; readers fall back to the null namespace
        if !s.contains('.') && self.started.iter().any(|x| x == s) {
            self.fell_back.set(true);
            return Ok(json!({"ref": s}));
        }
        Err(format!("`{s}` (in namespace {ns:?}) is used before or without its definition"))
    }

    pub fn ty(&mut self, v: &Value, ns: Option<&str>) -> Rd<Value> {
        match v {
            Value::String(s) => {
                if PRIM.contains(&s.as_str()) {
                    Ok(json!({"type": s}))
                } else {
                    self.lookup(s, ns)
                }
            }
            Value::Array(a) => {
                let mut out = vec![];
                for x in a {
                    if x.is_array() {
                        return Err("union directly inside a union".into());
                    }
                    out.push(self.ty(x, ns)?);
                }
                Ok(Value::Array(out))
            }
            Value::Object(m) => self.obj(m, ns),
            x => Err(format!("not a schema: {x}")),
        }
    }

    fn obj(&mut self, m: &Map<String, Value>, ns: Option<&str>) -> Rd<Value> {
        let Some(t) = m.get("type").and_then(|t| t.as_str()) else {
            return Err(format!("no type name in {}", Value::Object(m.clone())));
        };
        let mut rest = m.clone();
        rest.remove("type");
        match t {
            "array" | "map" => {
                let key = if t == "array" { "items" } else { "values" };
                let inner = rest.remove(key).ok_or("container without element type")?;
                let c = self.ty(&inner, ns)?;
                rest.insert(key.into(), c);
                rest.insert("type".into(), json!(t));
                Ok(Value::Object(rest))
            }
            "record" | "error" | "enum" | "fixed" => {
                let full = self.full_name(&mut rest, ns)?;
                if self.started.contains(&full) {
                    return Err(format!("`{full}` is defined twice"));
                }
                self.started.push(full.clone());
                let slot = self.defs.len();
                self.defs.push((full.clone(), Value::Null));
                let inner = ns_of(&full).map(|s| s.to_string());
                match t {
                    "record" | "error" => {
                        let Some(Value::Array(fs)) = rest.remove("fields") else {
                            return Err(format!("record `{full}` without fields"));
                        };
                        let mut out = vec![];
                        for f in &fs {
                            let c = self.field(f, inner.as_deref())?;
                            if out.iter().any(|o: &Value| o["name"] == c["name"]) {
                                return Err(format!("duplicate field in `{full}`"));
                            }
                            out.push(c);
                        }
                        rest.insert("fields".into(), json!(out));
                    }
                    "enum" => {
                        if !rest.get("symbols").is_some_and(|s| s.is_array()) {
                            return Err(format!("enum `{full}` without symbols"));
                        }
                    }
                    _ => {
                        if rest.get("size").and_then(|s| s.as_u64()).is_none() {
                            return Err(format!("fixed `{full}` without size"));
                        }
                    }
                }
                if let Some(a) = rest.remove("aliases") {
                    let a = a.as_array().ok_or("aliases is no array")?.clone();
                    let mut out = vec![];
                    for x in &a {
                        let x = x.as_str().ok_or("alias is no string")?;
                        // a leading dot never occurs in a valid name
                        out.push(if x.contains('.') { x.to_string() } else { join_name(inner.as_deref(), x) });
                    }
                    if !out.is_empty() {
                        rest.insert("aliases".into(), json!(out));
                    }
                }
                rest.insert("name".into(), json!(full));
                rest.insert("type".into(), json!(t));
                norm_attrs(t, &mut rest);
                self.defs[slot].1 = Value::Object(rest);
                Ok(json!({"ref": full}))
            }
            p if PRIM.contains(&p) => {
                rest.insert("type".into(), json!(p));
                norm_attrs(p, &mut rest);
                Ok(Value::Object(rest))
            }
            other => {
                if rest.is_empty() {
                    return self.lookup(other, ns);
                }
                Err(format!("unknown type `{other}`"))
            }
        }
    }

    fn full_name(&self, m: &mut Map<String, Value>, ns: Option<&str>) -> Rd<String> {
        let Some(Value::String(n)) = m.remove("name") else { return Err("definition without name".into()) };
        let nsattr = m.remove("namespace");
        let full = if n.contains('.') && !(self.attr_wins && nsattr.is_some()) {
            n
        } else {
            let n = n.rsplit('.').next().unwrap().to_string();
            match &nsattr {
                Some(Value::String(x)) => join_name(Some(x), &n),
                Some(x) => return Err(format!("namespace is {x}")),
                None => join_name(ns, &n),
            }
        };
        let simple = full.rsplit('.').next().unwrap();
        if PRIM.contains(&simple) {
            return Err(format!("`{full}` shadows a built-in type"));
        }
        Ok(full)
    }

    fn field(&mut self, f: &Value, ns: Option<&str>) -> Rd<Value> {
        let Value::Object(m) = f else { return Err(format!("field is {f}")) };
        let mut m = m.clone();
        let Some(t) = m.remove("type") else { return Err("field without type".into()) };
        if !m.get("name").is_some_and(|n| n.is_string()) {
            return Err("field without name".into());
        }
        let c = self.ty(&t, ns)?;
        m.insert("type".into(), c);
        norm_field(&mut m);
        Ok(Value::Object(m))
    }

    fn finish(self, head: Head, top: Vec<String>, messages: BTreeMap<String, Value>) -> Doc {
        Doc {
            fell_back: self.fell_back.get(),
            head,
            order: self.defs.iter().map(|d| d.0.clone()).collect(),
            defs: self.defs.into_iter().collect(),
            top,
            messages,
        }
    }
}

pub fn read_schema(v: &Value) -> Rd<Doc> {
    read_schema_with(v, false)
}
pub fn read_schema_with(v: &Value, attr_wins: bool) -> Rd<Doc> {
    let mut r = Reader { attr_wins, ..Default::default() };
    let c = r.ty(v, None)?;
    Ok(r.finish(Head::Schema(c), vec![], BTreeMap::new()))
}

pub fn read_protocol(v: &Value) -> Rd<Doc> {
    read_protocol_with(v, true, false)
}
/// `strict`: as a compiler should write it; otherwise every valid protocol.
pub fn read_protocol_with(v: &Value, strict: bool, attr_wins: bool) -> Rd<Doc> {
    let Value::Object(m) = v else { return Err("protocol is no object".into()) };
    let mut m = m.clone();
    let mut r = Reader { attr_wins, ..Default::default() };
    let Some(Value::String(name)) = m.remove("protocol") else { return Err("no protocol name".into()) };
    let ns = match m.remove("namespace") {
        Some(Value::String(s)) => Some(s),
        None => None,
        Some(x) => return Err(format!("protocol namespace is {x}")),
    };
    let full = if name.contains('.') { name } else { join_name(ns.as_deref(), &name) };
    let ns = ns_of(&full).map(|s| s.to_string());
    let doc = match m.remove("doc") {
        Some(Value::String(s)) => Some(s),
        None => None,
        Some(x) => return Err(format!("protocol doc is {x}")),
    };
    let types = match m.remove("types") {
        Some(Value::Array(t)) => t,
        None if !strict => vec![],
        _ => return Err("protocol without types".into()),
    };
    let mut top = vec![];
    for t in &types {
        let before = r.defs.len();
        if !t.is_object() {
            return Err(format!("protocol types list has {t}"));
        }
        r.ty(t, ns.as_deref())?;
        if r.defs.len() == before {
            if strict {
                return Err("protocol types list repeats a type or holds an unnamed one".into());
            }
            continue;
        }
        top.push(r.defs[before].0.clone());
    }
    let msgs = match m.remove("messages") {
        Some(Value::Object(t)) => t,
        None if !strict => Map::new(),
        _ => return Err("protocol without messages".into()),
    };
    let ndefs = r.defs.len();
    let mut messages = BTreeMap::new();
    for (n, v) in &msgs {
        let Value::Object(mm) = v else { return Err(format!("message is {v}")) };
        let mut mm = mm.clone();
        let Some(Value::Array(req)) = mm.remove("request") else { return Err("message without request".into()) };
        let mut out = vec![];
        for p in &req {
            out.push(r.field(p, ns.as_deref())?);
        }
        let Some(resp) = mm.remove("response") else { return Err("message without response".into()) };
        let resp = r.ty(&resp, ns.as_deref())?;
        mm.insert("request".into(), json!(out));
        mm.insert("response".into(), resp);
        if let Some(e) = mm.remove("errors") {
            let Value::Array(es) = e else { return Err("errors is no array".into()) };
            let mut out = vec![];
            for x in &es {
                out.push(r.ty(x, ns.as_deref())?);
            }
            if !out.is_empty() {
                mm.insert("errors".into(), json!(out));
            }
        }
        if mm.get("one-way") == Some(&json!(false)) {
            mm.remove("one-way");
        }
        messages.insert(n.clone(), Value::Object(mm));
    }
    if strict && r.defs.len() != ndefs {
        return Err(format!("a message defines `{}`, which the types list lacks", r.defs[ndefs].0));
    }
    let attrs = m.into_iter().collect();
    Ok(r.finish(Head::Protocol { name: full, doc, attrs }, top, messages))
}

/// Compare a reading with the model's meaning; Err explains the first difference.
pub fn compare(want: &crate::eval::Meaning, got: &Doc) -> Rd<()> {
    if want.head != got.head {
        return Err(format!("head differs\n want {:?}\n got  {:?}", want.head, got.head));
    }
    let (order, top) = match &want.head {
        Head::Protocol { .. } => want.layout(),
        Head::Schema(t) => (want.layout_of(t), vec![]),
        Head::NamedOnly => panic!(),
    };
    for n in &order {
        match got.defs.get(n) {
            None => return Err(format!("type `{n}` is missing (got {:?})", got.order)),
            Some(d) if d != want.def(n).unwrap() => {
                return Err(format!("type `{n}` differs\n want {}\n got  {}", want.def(n).unwrap(), d));
            }
            _ => {}
        }
    }
    if let Some(x) = got.order.iter().find(|x| !order.contains(x)) {
        return Err(format!("unexpected type `{x}` (want {order:?})"));
    }
    if got.order != order {
        return Err(format!("definition order differs\n want {order:?}\n got  {:?}", got.order));
    }
    if got.top != top {
        return Err(format!("types list differs\n want {top:?}\n got  {:?}", got.top));
    }
    compare_messages(&want.messages, &got.messages)
}

pub fn compare_messages(want: &BTreeMap<String, Value>, got: &BTreeMap<String, Value>) -> Rd<()> {
    for (n, m) in want {
        match got.get(n) {
            None => return Err(format!("message `{n}` is missing")),
            Some(g) if g != m => return Err(format!("message `{n}` differs\n want {m}\n got  {g}")),
            _ => {}
        }
    }
    if let Some(n) = got.keys().find(|n| !want.contains_key(*n)) {
        return Err(format!("unexpected message `{n}`"));
    }
    Ok(())
}
