//! Small file trees: the model's `World` written below a scratch directory.
use crate::ast;
use crate::drv::{self, Out, SOut};
use crate::eval::{Content, World};
use std::path::{Path, PathBuf};

pub fn content_text(c: &Content) -> String {
    match c {
        Content::Idl(f) => ast::render(f),
        Content::Json { text, .. } => text.clone(),
    }
}

/// Write the world below `root` (emptied first).
pub fn materialize(w: &World, root: &Path) {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(root).unwrap();
    for d in &w.dirs {
        std::fs::create_dir_all(root.join(d.trim_start_matches('/'))).unwrap();
    }
    for (p, c) in &w.files {
        let f = root.join(p.trim_start_matches('/'));
        if let Some(d) = f.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(f, content_text(c)).unwrap();
    }
}

pub fn describe(w: &World) -> String {
    let mut s = String::new();
    for (p, c) in &w.files {
        s += &format!("== {p}\n{}", content_text(c));
        if !s.ends_with('\n') {
            s.push('\n');
        }
    }
    if !w.dirs.is_empty() {
        s += &format!("== import dirs {:?}\n", w.dirs);
    }
    s
}

pub fn idl_path(root: &Path, main: &str, dirs: &[String]) -> Out {
    let mut i = avdl::Idl::new();
    for d in dirs {
        i.import_dir(root.join(d.trim_start_matches('/')));
    }
    idl_path_with(&mut i, &root.join(main.trim_start_matches('/')))
}
pub fn idl_path_with(i: &mut avdl::Idl, p: &Path) -> Out {
    match i.convert(p) {
        Ok(o) => Out { res: Ok(o.json), warnings: o.warnings },
        Err(e) => Out { res: Err(e), warnings: i.drain_warnings() },
    }
}
pub fn schemata_path(root: &Path, main: &str, dirs: &[String]) -> SOut {
    let mut i = avdl::Idl2Schemata::new();
    for d in dirs {
        i.import_dir(root.join(d.trim_start_matches('/')));
    }
    let p: PathBuf = root.join(main.trim_start_matches('/'));
    match i.extract(p) {
        Ok(o) => SOut { res: Ok(o.schemas.into_iter().map(|s| (s.name, s.schema)).collect()), warnings: o.warnings },
        Err(e) => SOut { res: Err(e), warnings: i.drain_warnings() },
    }
}
#[allow(unused)]
pub fn touch() {
    let _ = drv::leak("");
}
