//! Drives the real library.
use miette::{Diagnostic, Report, Severity, SourceSpan};
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub struct Label {
    pub offset: usize,
    pub len: usize,
    /// the marked bytes, if the span lies inside the source on character boundaries
    pub text: Option<String>,
    pub label: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    /// whole message chain, outermost first
    pub chain: Vec<String>,
    pub help: Option<String>,
    pub labels: Vec<Label>,
    pub file: Option<String>,
    pub related: Vec<Diag>,
    pub warning: bool,
    /// the report as the command prints it
    pub rendered: String,
}
impl Diag {
    pub fn text(&self) -> String {
        let mut s = self.chain.join(": ");
        if let Some(h) = &self.help {
            s += &format!(" [help: {h}]");
        }
        for l in &self.labels {
            if let Some(x) = &l.label {
                s += &format!(" [label: {x}]");
            }
        }
        for r in &self.related {
            s += &format!(" | {}", r.text());
        }
        s
    }
    /// Everything observable, as one string.
    pub fn all(&self) -> String {
        format!("{:?}", self)
    }
}

fn of_diagnostic(d: &dyn Diagnostic, rendered: String) -> Diag {
    let mut chain = vec![d.to_string()];
    let mut src: Option<&dyn std::error::Error> = std::error::Error::source(d);
    while let Some(e) = src {
        chain.push(e.to_string());
        src = e.source();
    }
    let mut labels = vec![];
    let mut file = None;
    if let Some(ls) = d.labels() {
        for l in ls {
            let span = *l.inner();
            let mut text = None;
            if let Some(sc) = d.source_code() {
                if let Ok(c) = sc.read_span(&span, 0, 0) {
                    if file.is_none() {
                        file = c.name().map(|s| s.to_string());
                    }
                    let start = span.offset().wrapping_sub(c.span().offset());
                    let bytes = c.data();
                    if let Some(b) = start.checked_add(span.len()).and_then(|e| bytes.get(start..e)) {
                        text = std::str::from_utf8(b).ok().map(|s| s.to_string());
                    }
                }
            }
            labels.push(Label { offset: span.offset(), len: span.len(), text, label: l.label().map(|s| s.to_string()) });
        }
    }
    if file.is_none() {
        if let Some(sc) = d.source_code() {
            if let Ok(c) = sc.read_span(&SourceSpan::new(0.into(), 0), 0, 0) {
                file = c.name().map(|s| s.to_string());
            }
        }
    }
    let related = d.related().map(|it| it.map(|r| of_diagnostic(r, String::new())).collect()).unwrap_or_default();
    Diag {
        chain,
        help: d.help().map(|h| h.to_string()),
        labels,
        file,
        related,
        warning: d.severity() == Some(Severity::Warning),
        rendered,
    }
}

pub fn diag(r: &Report) -> Diag {
    of_diagnostic(r.as_ref(), format!("{r:?}"))
}
/// Without the graphical rendering (much cheaper).
pub fn diag_plain(r: &Report) -> Diag {
    of_diagnostic(r.as_ref(), String::new())
}

pub struct Out {
    pub res: Result<Value, Report>,
    pub warnings: Vec<Report>,
}
impl Out {
    pub fn err_text(&self) -> String {
        match &self.res {
            Err(e) => diag_plain(e).text(),
            Ok(_) => String::new(),
        }
    }
}
pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

pub fn idl(src: &str) -> Out {
    crate::engine::note_input(src);
    let mut i = avdl::Idl::new();
    idl_with(&mut i, src)
}
pub fn idl_with(i: &mut avdl::Idl, src: &str) -> Out {
    match i.convert_str_named(leak(src), "in.avdl") {
        Ok(o) => Out { res: Ok(o.json), warnings: o.warnings },
        Err(e) => Out { res: Err(e), warnings: i.drain_warnings() },
    }
}
pub struct SOut {
    pub res: Result<Vec<(String, Value)>, Report>,
    pub warnings: Vec<Report>,
}
pub fn schemata(src: &str) -> SOut {
    crate::engine::note_input(src);
    let mut i = avdl::Idl2Schemata::new();
    match i.extract_str_named(leak(src), "in.avdl") {
        Ok(o) => SOut { res: Ok(o.schemas.into_iter().map(|s| (s.name, s.schema)).collect()), warnings: o.warnings },
        Err(e) => SOut { res: Err(e), warnings: i.drain_warnings() },
    }
}
