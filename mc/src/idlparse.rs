//! Independent recogniser of the Avro IDL language: a lexer and a backtracking parser written
//! from the language description, building the model's syntax tree.
use crate::ast::*;
use serde_json::{Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Lx {
    pub kind: LK,
    pub text: String,
    pub off: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LK {
    Punct,
    Keyword,
    Ident,
    Str,
    Int,
    Float,
    Sub,
}

/// Number literals, by the longest match at the start of `s`: (length, is float).
fn number(s: &[char]) -> Option<(usize, bool)> {
    let at = |i: usize| s.get(i).copied().unwrap_or('\0');
    let digits = |mut i: usize, r: u32| {
        while at(i).is_digit(r) && at(i).is_ascii() {
            i += 1;
        }
        i
    };
    let mut best: Option<(usize, bool)> = None;
    let mut take = |n: usize, f: bool| {
        if best.is_none_or(|b| n > b.0) {
            best = Some((n, f));
        }
    };
    // integers: only a minus sign
    let i = usize::from(at(0) == '-');
    let suffix = |n: usize| if matches!(at(n), 'l' | 'L') { n + 1 } else { n };
    if at(i).is_ascii_digit() {
        if at(i) == '0' {
            take(suffix(digits(i, 8)), false);
            if matches!(at(i + 1), 'x' | 'X') && at(i + 2).is_ascii_hexdigit() {
                take(suffix(digits(i + 2, 16)), false);
            }
        } else {
            take(suffix(digits(i, 10)), false);
        }
    }
    // floats
    let i = usize::from(matches!(at(0), '-' | '+'));
    for w in ["NaN", "Infinity"] {
        if s[i.min(s.len())..].iter().take(w.len()).collect::<String>() == w {
            take(i + w.len(), true);
        }
    }
    let exp = |n: usize, e: &[char]| {
        if !e.contains(&at(n)) {
            return None;
        }
        let j = n + 1 + usize::from(matches!(at(n + 1), '+' | '-'));
        let k = digits(j, 10);
        (k > j).then_some(k)
    };
    let suf = |n: usize| matches!(at(n), 'f' | 'F' | 'd' | 'D').then_some(n + 1);
    let e = ['e', 'E'];
    let d = digits(i, 10);
    let mut ends = vec![];
    if d > i {
        // D+ exp, D+ suffix
        if let Some(x) = exp(d, &e) {
            ends.push(x);
        }
        if let Some(x) = suf(d) {
            take(x, true);
        }
        if at(d) == '.' {
            // the fraction may be cut anywhere
            for x in d + 1..=digits(d + 1, 10) {
                ends.push(x);
                ends.extend(exp(x, &e));
            }
        }
    } else if at(i) == '.' {
        let x = digits(i + 1, 10);
        for x in i + 2..=x {
            ends.push(x);
            ends.extend(exp(x, &e));
        }
    }
    if at(i) == '0' && matches!(at(i + 1), 'x' | 'X') {
        let h = digits(i + 2, 16);
        let mut m = vec![];
        if h > i + 2 {
            m.push(h);
        }
        if at(h) == '.' {
            if h > i + 2 {
                m.push(h + 1);
            }
            let k = digits(h + 1, 16);
            if k > h + 1 {
                m.push(k);
            }
        }
        for x in m {
            ends.extend(exp(x, &['p', 'P']));
        }
    }
    for x in ends {
        take(suf(x).unwrap_or(x), true);
        take(x, true);
    }
    best
}

fn ident_start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
fn ident_part(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}
fn identifier(s: &[char]) -> usize {
    let at = |i: usize| s.get(i).copied().unwrap_or('\0');
    let part = |i: usize| -> Option<usize> {
        let q = at(i) == '`';
        let mut j = i + usize::from(q);
        if !ident_start(at(j)) {
            return None;
        }
        while ident_part(at(j)) {
            j += 1;
        }
        if q {
            (at(j) == '`').then_some(j + 1)
        } else {
            Some(j)
        }
    };
    let Some(mut n) = part(0) else { return 0 };
    while matches!(at(n), '-' | '.') {
        match part(n + 1) {
            Some(m) => n = m,
            None => break,
        }
    }
    n
}

/// Why a text from a quote on is no string literal.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BadStr {
    Open,
    Control,
    Escape,
}

/// End of the string literal at the start of `s`.
fn string(s: &[char]) -> Result<usize, BadStr> {
    let mut i = 1;
    loop {
        match s.get(i).ok_or(BadStr::Open)? {
            '"' => return Ok(i + 1),
            '\\' => {
                let c = *s.get(i + 1).ok_or(BadStr::Open)?;
                let oct = |c: Option<&char>| c.is_some_and(|c| ('0'..='7').contains(c));
                if "\"'\\bfnrt".contains(c) || oct(Some(&c)) {
                    i += 2; // further octal digits are ordinary characters to the lexer
                } else if c == 'u' {
                    let mut j = i + 2;
                    while s.get(j) == Some(&'u') {
                        j += 1;
                    }
                    if !(0..4).all(|k| s.get(j + k).is_some_and(|c| c.is_ascii_hexdigit())) {
                        return Err(BadStr::Escape);
                    }
                    i = j + 4;
                } else {
                    return Err(if "\n\r".contains(c) { BadStr::Open } else { BadStr::Escape });
                }
            }
            '\n' | '\r' => return Err(BadStr::Open),
            '\u{8}' | '\t' | '\u{c}' => return Err(BadStr::Control),
            _ => i += 1,
        }
    }
}

/// The visible tokens, and how many characters belong to none.  None: a malformed string or
/// comment, about which the language description says nothing.
pub fn lex(src: &str) -> Option<(Vec<Lx>, usize)> {
    lex_or(src).ok()
}

/// Like `lex`; a malformed string is told with its offset, other malformed things without.
pub fn lex_or(src: &str) -> Result<(Vec<Lx>, usize), Option<(usize, BadStr)>> {
    let s: Vec<char> = src.chars().collect();
    let mut offs: Vec<usize> = src.char_indices().map(|x| x.0).collect();
    offs.push(src.len());
    let mut out = vec![];
    let mut bad = 0;
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if " \t\n\r\u{c}".contains(c) {
            i += 1;
            continue;
        }
        let mut push = |kind: LK, n: usize| {
            out.push(Lx { kind, text: s[i..i + n].iter().collect(), off: offs[i] });
            i + n
        };
        if c == '/' {
            let rest: String = s[i..].iter().collect();
            if let Some(r) = rest.strip_prefix("//") {
                i += 2 + r.chars().position(|c| c == '\n' || c == '\r').ok_or(None)? + 1;
            } else if rest.starts_with("/**/") && !rest[4..].contains("*/") {
                i += 4;
            } else if let Some(r) = rest.strip_prefix("/**") {
                i += 3 + r[..r.find("*/").ok_or(None)?].chars().count() + 2;
            } else if let Some(r) = rest.strip_prefix("/*") {
                i += 2 + r[..r.find("*/").ok_or(None)?].chars().count() + 2;
            } else {
                return Err(None);
            }
            continue;
        }
        if c == '\u{1a}' {
            push(LK::Sub, 1);
            return Ok((out, bad));
        }
        if c == '"' {
            let n = string(&s[i..]).map_err(|e| Some((offs[i], e)))?;
            i = push(LK::Str, n);
            continue;
        }
        let id = identifier(&s[i..]);
        let num = number(&s[i..]);
        match num {
            Some((n, f)) if n >= id && id == 0 || num.is_some_and(|x| x.0 >= id && x.1) => {
                i = push(if f { LK::Float } else { LK::Int }, n);
                continue;
            }
            _ => {}
        }
        if id > 0 {
            let text: String = s[i..i + id].iter().collect();
            i = push(if KEYWORDS.contains(&text.as_str()) { LK::Keyword } else { LK::Ident }, id);
            continue;
        }
        if "{}()<>[];:,=?@".contains(c) {
            i = push(LK::Punct, 1);
            continue;
        }
        if "#%&!~^|$'\\".contains(c) || !c.is_ascii() {
            bad += 1;
            i += 1;
            continue;
        }
        return Err(None);
    }
    Ok((out, bad))
}

pub struct P<'a> {
    t: &'a [Lx],
    i: usize,
    /// something the model does not decide occurred
    pub vague: bool,
    /// a token beyond the end was asked for: more tokens could make a sentence
    hit: std::cell::Cell<bool>,
}
type O<X> = Option<X>;

pub fn unquote(s: &str) -> String {
    s.chars().filter(|c| *c != '`').collect()
}

/// Decoded string literal; None if it holds an escape the model leaves open.
fn string_value(lit: &str) -> Option<String> {
    let mut out = String::new();
    let b: Vec<char> = lit[1..lit.len() - 1].chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] != '\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        match b[i + 1] {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            'b' => out.push('\u{8}'),
            'f' => out.push('\u{c}'),
            c @ ('"' | '\'' | '\\') => out.push(c),
            _ => return None,
        }
        i += 2;
    }
    Some(out)
}

impl<'a> P<'a> {
    fn get(&self, k: usize) -> O<&'a Lx> {
        let t = self.t.get(self.i + k);
        if t.is_none() {
            self.hit.set(true);
        }
        t
    }
    fn is(&self, s: &str) -> bool {
        self.at(0, s)
    }
    fn at(&self, k: usize, s: &str) -> bool {
        self.get(k).is_some_and(|t| t.text == s && matches!(t.kind, LK::Punct | LK::Keyword))
    }
    fn eat(&mut self, s: &str) -> O<()> {
        if self.is(s) {
            self.i += 1;
            return Some(());
        }
        None
    }
    fn id(&mut self) -> O<String> {
        let t = self.get(0)?;
        if !matches!(t.kind, LK::Ident | LK::Keyword) {
            return None;
        }
        self.i += 1;
        Some(unquote(&t.text))
    }
    fn kind(&mut self, k: LK) -> O<&'a str> {
        let t = self.get(0)?;
        if t.kind != k {
            return None;
        }
        self.i += 1;
        Some(&t.text)
    }
    fn int(&mut self) -> O<i64> {
        let s = self.kind(LK::Int)?;
        match s.parse::<i64>() {
            Ok(x) if (0..1 << 31).contains(&x) && (x == 0) == s.starts_with('0') => Some(x),
            Ok(x) if x < 0 => Some(x),
            _ => {
                self.vague = true;
                Some(1)
            }
        }
    }
    fn json(&mut self) -> O<Value> {
        if self.eat("[").is_some() {
            let mut a = vec![];
            if self.eat("]").is_some() {
                return Some(Value::Array(a));
            }
            loop {
                a.push(self.json()?);
                if self.eat(",").is_none() {
                    self.eat("]")?;
                    return Some(Value::Array(a));
                }
            }
        }
        if self.eat("{").is_some() {
            let mut m = Map::new();
            if self.eat("}").is_some() {
                return Some(Value::Object(m));
            }
            loop {
                let k = self.string()?;
                self.eat(":")?;
                let v = self.json()?;
                m.insert(k, v);
                if self.eat(",").is_none() {
                    self.eat("}")?;
                    return Some(Value::Object(m));
                }
            }
        }
        for (w, v) in [("true", Value::Bool(true)), ("false", Value::Bool(false)), ("null", Value::Null)] {
            if self.is(w) {
                self.i += 1;
                return Some(v);
            }
        }
        let t = self.get(0)?;
        match t.kind {
            LK::Str => Some(Value::String(self.string()?)),
            LK::Int => {
                self.i += 1;
                let canonical = !(t.text.trim_start_matches('-').starts_with('0') && t.text.len() > 1);
                Some(match t.text.parse::<i64>() {
                    Ok(x) if canonical => Value::from(x),
                    _ => {
                        self.vague = true;
                        Value::Null
                    }
                })
            }
            LK::Float => {
                self.i += 1;
                let plain = t.text.chars().all(|c| c.is_ascii_digit() || c == '.') && t.text.len() < 8;
                Some(match t.text.parse::<f64>() {
                    Ok(x) if plain => Value::from(x),
                    _ => {
                        self.vague = true;
                        Value::Null
                    }
                })
            }
            _ => None,
        }
    }
    fn string(&mut self) -> O<String> {
        let s = self.kind(LK::Str)?;
        Some(string_value(s).unwrap_or_else(|| {
            self.vague = true;
            String::new()
        }))
    }
    fn props(&mut self) -> O<Anns> {
        let mut v = vec![];
        while self.eat("@").is_some() {
            let n = self.id()?;
            self.eat("(")?;
            let j = self.json()?;
            self.eat(")")?;
            v.push((n, j));
        }
        Some(v)
    }
    fn full(&mut self) -> O<T> {
        let anns = self.props()?;
        let k = self.plain()?;
        Some(T { anns, k })
    }
    fn plain(&mut self) -> O<K> {
        for (w, map) in [("array", false), ("map", true)] {
            if self.is(w) && self.at(1, "<") {
                self.i += 2;
                let x = Box::new(self.full()?);
                self.eat(">")?;
                return Some(if map { K::Map(x) } else { K::Array(x) });
            }
        }
        if self.is("union") && self.at(1, "{") {
            self.i += 2;
            let mut v = vec![self.full()?];
            while self.eat(",").is_some() {
                v.push(self.full()?);
            }
            self.eat("}")?;
            return Some(K::Union(v));
        }
        let k = if self.is("decimal") && self.at(1, "(") {
            self.i += 2;
            let p = self.int()?;
            let s = if self.eat(",").is_some() { Some(self.int()?) } else { None };
            self.eat(")")?;
            K::Decimal(p, s)
        } else {
            let t = self.get(0)?;
            let kw = t.kind == LK::Keyword;
            if let Some(p) = PRIMS.iter().find(|p| kw && **p == t.text) {
                self.i += 1;
                K::Prim(p)
            } else if let Some(p) = LOGICALS.iter().find(|p| kw && **p == t.text) {
                self.i += 1;
                K::Logical(p)
            } else {
                K::Ref(self.id()?)
            }
        };
        if self.eat("?").is_some() {
            return Some(K::Nullable(Box::new(k)));
        }
        Some(k)
    }
    fn var(&mut self) -> O<Var> {
        let anns = self.props()?;
        let name = self.id()?;
        let default = if self.eat("=").is_some() { Some(self.json()?) } else { None };
        Some(Var { doc: None, anns, name, default })
    }
    fn named(&mut self) -> O<Named> {
        let anns = self.props()?;
        let error = self.is("error");
        if error || self.is("record") {
            self.i += 1;
            let name = self.id()?;
            self.eat("{")?;
            let mut fields = vec![];
            while self.eat("}").is_none() {
                let ty = self.full()?;
                let mut vars = vec![self.var()?];
                while self.eat(",").is_some() {
                    vars.push(self.var()?);
                }
                self.eat(";")?;
                fields.push(Field { doc: None, ty, vars });
            }
            return Some(Named { doc: None, anns, name, body: Body::Record { error, fields } });
        }
        if self.eat("enum").is_some() {
            let name = self.id()?;
            self.eat("{")?;
            let mut syms = vec![];
            if self.eat("}").is_none() {
                loop {
                    self.props()?;
                    syms.push(self.id()?);
                    if self.eat(",").is_none() {
                        break;
                    }
                }
                self.eat("}")?;
            }
            let mut default = None;
            if self.eat("=").is_some() {
                default = Some(self.id()?);
                self.eat(";")?;
            }
            return Some(Named { doc: None, anns, name, body: Body::Enum { syms, default } });
        }
        self.eat("fixed")?;
        let name = self.id()?;
        self.eat("(")?;
        let n = self.int()?;
        self.eat(")")?;
        self.eat(";")?;
        if n < 0 {
            self.vague = true;
        }
        Some(Named { doc: None, anns, name, body: Body::Fixed(n.max(0) as u64) })
    }
    fn import(&mut self) -> O<Item> {
        self.eat("import")?;
        let k = if self.eat("schema").is_some() {
            ImpKind::Schema
        } else if self.eat("protocol").is_some() {
            ImpKind::Protocol
        } else {
            self.eat("idl")?;
            ImpKind::Idl
        };
        let p = self.string()?;
        self.eat(";")?;
        Some(Item::Import(k, p))
    }
    fn msg(&mut self) -> O<Msg> {
        let anns = self.props()?;
        // `void?` would be a nullable reference
        let resp = if self.is("void") && !self.at(1, "?") {
            self.i += 1;
            None
        } else {
            Some(self.plain()?)
        };
        let name = self.id()?;
        self.eat("(")?;
        let mut params = vec![];
        if self.eat(")").is_none() {
            loop {
                let ty = self.full()?;
                let var = self.var()?;
                params.push(Param { doc: None, ty, var });
                if self.eat(",").is_none() {
                    break;
                }
            }
            self.eat(")")?;
        }
        let oneway = self.eat("oneway").is_some();
        let mut throws = vec![];
        if !oneway && self.eat("throws").is_some() {
            throws.push(self.id()?);
            while self.eat(",").is_some() {
                throws.push(self.id()?);
            }
        }
        self.eat(";")?;
        Some(Msg { doc: None, anns, resp, name, params, oneway, throws })
    }
    /// One of several readings: the first that fits.
    fn alt<X>(&mut self, f: impl FnOnce(&mut Self) -> O<X>) -> O<X> {
        let (i, v) = (self.i, self.vague);
        let r = f(self);
        if r.is_none() {
            (self.i, self.vague) = (i, v);
        }
        r
    }
    fn end(&self) -> bool {
        self.get(0).is_none_or(|t| t.kind == LK::Sub)
    }
    fn protocol(&mut self) -> O<File> {
        let anns = self.props()?;
        self.eat("protocol")?;
        let name = self.id()?;
        self.eat("{")?;
        let mut items = vec![];
        while self.eat("}").is_none() {
            let it = self
                .alt(|p| p.import())
                .or_else(|| self.alt(|p| p.named().map(Item::Named)))
                .or_else(|| self.alt(|p| p.msg().map(Item::Msg)))?;
            items.push(it);
        }
        self.end().then_some(File { mode: Mode::Protocol { doc: None, anns, name }, items })
    }
    fn schema(&mut self) -> O<File> {
        let mut ns = None;
        let mut main = None;
        if self.eat("namespace").is_some() {
            ns = Some(self.id()?);
            self.eat(";")?;
        }
        if self.eat("schema").is_some() {
            main = Some(self.full()?);
            self.eat(";")?;
        }
        let mut items = vec![];
        while !self.end() {
            let it = self.alt(|p| p.import()).or_else(|| self.alt(|p| p.named().map(Item::Named)))?;
            items.push(it);
        }
        Some(File { mode: Mode::Schema { ns, main }, items })
    }
}

/// The file a token sequence denotes, if it is a sentence; and whether the model decides it.
pub fn parse(t: &[Lx]) -> Option<(File, bool)> {
    let mut p = P { t, i: 0, vague: false, hit: Default::default() };
    let f = p.alt(|p| p.protocol()).or_else(|| p.alt(|p| p.schema()))?;
    Some((f, p.vague))
}

/// Can these tokens be continued to a sentence?
pub fn viable(t: &[Lx]) -> bool {
    let mut p = P { t, i: 0, vague: false, hit: Default::default() };
    let _ = p.alt(|p| p.protocol());
    let _ = p.alt(|p| p.schema());
    p.hit.get()
}
