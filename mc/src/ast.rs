//! Model-side syntax of Avro IDL files, and its rendering to IDL tokens.
use serde_json::Value;

pub type Anns = Vec<(String, Value)>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct File {
    pub mode: Mode,
    pub items: Vec<Item>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Protocol { doc: Option<String>, anns: Anns, name: String },
    Schema { ns: Option<String>, main: Option<T> },
}
impl Default for Mode {
    fn default() -> Self {
        Mode::Protocol { doc: None, anns: vec![], name: "P".into() }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum ImpKind {
    Idl,
    Protocol,
    Schema,
}
impl ImpKind {
    pub fn kw(self) -> &'static str {
        match self {
            ImpKind::Idl => "idl",
            ImpKind::Protocol => "protocol",
            ImpKind::Schema => "schema",
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Import(ImpKind, String),
    Named(Named),
    Msg(Msg),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Named {
    pub doc: Option<String>,
    pub anns: Anns,
    /// as written; may be dotted
    pub name: String,
    pub body: Body,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Record { error: bool, fields: Vec<Field> },
    Enum { syms: Vec<String>, default: Option<String> },
    Fixed(u64),
}
impl Default for Body {
    fn default() -> Self {
        Body::Record { error: false, fields: vec![] }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub doc: Option<String>,
    pub ty: T,
    pub vars: Vec<Var>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Var {
    pub doc: Option<String>,
    pub anns: Anns,
    pub name: String,
    pub default: Option<Value>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Param {
    pub doc: Option<String>,
    pub ty: T,
    pub var: Var,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub doc: Option<String>,
    pub anns: Anns,
    /// None = void
    pub resp: Option<K>,
    pub name: String,
    pub params: Vec<Param>,
    pub oneway: bool,
    pub throws: Vec<String>,
}
impl Default for Msg {
    fn default() -> Self {
        Msg { doc: None, anns: vec![], resp: None, name: "m".into(), params: vec![], oneway: false, throws: vec![] }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub anns: Anns,
    pub k: K,
}
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    /// boolean int long float double string bytes null
    Prim(&'static str),
    /// date time_ms timestamp_ms local_timestamp_ms uuid
    Logical(&'static str),
    Decimal(i64, Option<i64>),
    Ref(String),
    Array(Box<T>),
    Map(Box<T>),
    Union(Vec<T>),
    Nullable(Box<K>),
}
pub const PRIMS: [&str; 8] = ["int", "string", "boolean", "bytes", "long", "float", "double", "null"];
pub const LOGICALS: [&str; 5] = ["date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid"];

pub fn prim(p: &'static str) -> K {
    K::Prim(p)
}
pub fn rf(n: &str) -> K {
    K::Ref(n.into())
}
pub fn arr(k: K) -> K {
    K::Array(Box::new(t(k)))
}
pub fn map(k: K) -> K {
    K::Map(Box::new(t(k)))
}
pub fn un(ks: Vec<K>) -> K {
    K::Union(ks.into_iter().map(t).collect())
}
pub fn nul(k: K) -> K {
    K::Nullable(Box::new(k))
}
pub fn t(k: K) -> T {
    T { anns: vec![], k }
}
pub fn field(ty: K, name: &str) -> Field {
    Field { doc: None, ty: t(ty), vars: vec![var(name)] }
}
pub fn field_d(ty: K, name: &str, d: Value) -> Field {
    Field { doc: None, ty: t(ty), vars: vec![Var { default: Some(d), ..var(name) }] }
}
pub fn var(name: &str) -> Var {
    Var { name: name.into(), ..Default::default() }
}
pub fn param(ty: K, name: &str) -> Param {
    Param { doc: None, ty: t(ty), var: var(name) }
}
pub fn record(name: &str, fields: Vec<Field>) -> Named {
    Named { name: name.into(), body: Body::Record { error: false, fields }, ..Default::default() }
}
pub fn error(name: &str, fields: Vec<Field>) -> Named {
    Named { name: name.into(), body: Body::Record { error: true, fields }, ..Default::default() }
}
pub fn enm(name: &str, syms: &[&str]) -> Named {
    Named {
        name: name.into(),
        body: Body::Enum { syms: syms.iter().map(|s| s.to_string()).collect(), default: None },
        ..Default::default()
    }
}
pub fn fixed(name: &str, n: u64) -> Named {
    Named { name: name.into(), body: Body::Fixed(n), ..Default::default() }
}
pub fn protocol(ns: Option<&str>, items: Vec<Item>) -> File {
    let anns = ns.map(|n| ("namespace".to_string(), Value::String(n.into()))).into_iter().collect();
    File { mode: Mode::Protocol { doc: None, anns, name: "P".into() }, items }
}
pub fn schema_file(ns: Option<&str>, main: Option<K>, items: Vec<Item>) -> File {
    File { mode: Mode::Schema { ns: ns.map(|s| s.into()), main: main.map(t) }, items }
}

// ---------------------------------------------------------------------------------- tokens

/// One rendered token.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub s: String,
    pub kind: TK,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TK {
    Punct,
    Keyword,
    Ident,
    Str,
    Num,
    Doc,
}

pub const KEYWORDS: [&str; 31] = [
    "protocol", "namespace", "import", "idl", "schema", "enum", "fixed", "error", "record", "array", "map", "union",
    "boolean", "int", "long", "float", "double", "string", "bytes", "null", "true", "false", "decimal", "date",
    "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid", "void", "oneway", "throws",
];

pub struct R {
    pub toks: Vec<Tok>,
}

fn quote_parts(name: &str) -> String {
    // quote a name that would be read as a keyword in this position
    if KEYWORDS.contains(&name) { format!("`{name}`") } else { name.to_string() }
}

pub fn json_string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl R {
    fn p(&mut self, s: &str) {
        self.toks.push(Tok { s: s.into(), kind: TK::Punct });
    }
    fn kw(&mut self, s: &str) {
        self.toks.push(Tok { s: s.into(), kind: TK::Keyword });
    }
    fn id(&mut self, s: &str) {
        self.toks.push(Tok { s: s.into(), kind: TK::Ident });
    }
    fn doc(&mut self, d: &Option<String>) {
        if let Some(d) = d {
            self.toks.push(Tok { s: format!("/** {d} */"), kind: TK::Doc });
        }
    }
    pub fn json(&mut self, v: &Value) {
        match v {
            Value::String(s) => self.toks.push(Tok { s: json_string(s), kind: TK::Str }),
            Value::Number(n) => self.toks.push(Tok { s: n.to_string(), kind: TK::Num }),
            Value::Bool(b) => self.kw(if *b { "true" } else { "false" }),
            Value::Null => self.kw("null"),
            Value::Array(a) => {
                self.p("[");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    self.json(x);
                }
                self.p("]");
            }
            Value::Object(m) => {
                self.p("{");
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    self.toks.push(Tok { s: json_string(k), kind: TK::Str });
                    self.p(":");
                    self.json(x);
                }
                self.p("}");
            }
        }
    }
    fn anns(&mut self, a: &Anns) {
        for (k, v) in a {
            self.p("@");
            self.id(k);
            self.p("(");
            self.json(v);
            self.p(")");
        }
    }
    fn full(&mut self, ty: &T) {
        self.anns(&ty.anns);
        self.plain(&ty.k);
    }
    fn plain(&mut self, k: &K) {
        match k {
            K::Prim(p) | K::Logical(p) => self.kw(p),
            K::Decimal(p, s) => {
                self.kw("decimal");
                self.p("(");
                self.toks.push(Tok { s: p.to_string(), kind: TK::Num });
                if let Some(s) = s {
                    self.p(",");
                    self.toks.push(Tok { s: s.to_string(), kind: TK::Num });
                }
                self.p(")");
            }
            K::Ref(n) => self.id(&quote_parts(n)),
            K::Array(x) => {
                self.kw("array");
                self.p("<");
                self.full(x);
                self.p(">");
            }
            K::Map(x) => {
                self.kw("map");
                self.p("<");
                self.full(x);
                self.p(">");
            }
            K::Union(xs) => {
                self.kw("union");
                self.p("{");
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    self.full(x);
                }
                self.p("}");
            }
            K::Nullable(k) => {
                self.plain(k);
                self.p("?");
            }
        }
    }
    fn var(&mut self, v: &Var) {
        self.doc(&v.doc);
        self.anns(&v.anns);
        self.id(&v.name);
        if let Some(d) = &v.default {
            self.p("=");
            self.json(d);
        }
    }
    fn named(&mut self, n: &Named) {
        self.doc(&n.doc);
        self.anns(&n.anns);
        match &n.body {
            Body::Record { error, fields } => {
                self.kw(if *error { "error" } else { "record" });
                self.id(&n.name);
                self.p("{");
                for f in fields {
                    self.doc(&f.doc);
                    self.full(&f.ty);
                    for (i, v) in f.vars.iter().enumerate() {
                        if i > 0 {
                            self.p(",");
                        }
                        self.var(v);
                    }
                    self.p(";");
                }
                self.p("}");
            }
            Body::Enum { syms, default } => {
                self.kw("enum");
                self.id(&n.name);
                self.p("{");
                for (i, s) in syms.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    self.id(s);
                }
                self.p("}");
                if let Some(d) = default {
                    self.p("=");
                    self.id(d);
                    self.p(";");
                }
            }
            Body::Fixed(n2) => {
                self.kw("fixed");
                self.id(&n.name);
                self.p("(");
                self.toks.push(Tok { s: n2.to_string(), kind: TK::Num });
                self.p(")");
                self.p(";");
            }
        }
    }
    fn msg(&mut self, m: &Msg) {
        self.doc(&m.doc);
        self.anns(&m.anns);
        match &m.resp {
            None => self.kw("void"),
            Some(k) => self.plain(k),
        }
        self.id(&m.name);
        self.p("(");
        for (i, p) in m.params.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.doc(&p.doc);
            self.full(&p.ty);
            self.var(&p.var);
        }
        self.p(")");
        if m.oneway {
            self.kw("oneway");
        }
        if !m.throws.is_empty() {
            self.kw("throws");
            for (i, e) in m.throws.iter().enumerate() {
                if i > 0 {
                    self.p(",");
                }
                self.id(&quote_parts(e));
            }
        }
        self.p(";");
    }
    pub fn file(&mut self, f: &File) {
        match &f.mode {
            Mode::Protocol { doc, anns, name } => {
                self.doc(doc);
                self.anns(anns);
                self.kw("protocol");
                self.id(name);
                self.p("{");
            }
            Mode::Schema { ns, main } => {
                if let Some(n) = ns {
                    self.kw("namespace");
                    self.id(n);
                    self.p(";");
                }
                if let Some(m) = main {
                    self.kw("schema");
                    self.full(m);
                    self.p(";");
                }
            }
        }
        for it in &f.items {
            match it {
                Item::Import(k, p) => {
                    self.kw("import");
                    self.kw(k.kw());
                    self.toks.push(Tok { s: json_string(p), kind: TK::Str });
                    self.p(";");
                }
                Item::Named(n) => self.named(n),
                Item::Msg(m) => self.msg(m),
            }
        }
        if let Mode::Protocol { .. } = f.mode {
            self.p("}");
        }
    }
}

pub fn tokens(f: &File) -> Vec<Tok> {
    let mut r = R { toks: vec![] };
    r.file(f);
    r.toks
}

/// Plain rendering: one blank between tokens, a newline after `;`, `{` and `}`.
pub fn render(f: &File) -> String {
    join(&tokens(f))
}
pub fn join(toks: &[Tok]) -> String {
    let mut o = String::new();
    for tk in toks {
        o.push_str(&tk.s);
        o.push(match tk.s.as_str() {
            ";" | "{" | "}" => '\n',
            _ => ' ',
        });
    }
    o
}
