//! Running the real seam, and bookkeeping shared by all properties.

use crate::engine::*;
use crate::model::tree::{self, N};
use seam::assemble::{css::CSSFormatter, html::HTMLFormatter, sexp::SExpFormatter, text::PlainTextFormatter, xml::XMLFormatter, MarkupFormatter};
use seam::parse::parser::ParseTree;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

static CRASH_NOTE: Mutex<Option<PathBuf>> = Mutex::new(None);

pub fn set_crash_note(p: Option<PathBuf>) { *CRASH_NOTE.lock().unwrap() = p; }

/// Announces what is about to be run, so it is known even if seam brings the process down.
pub fn about_to_run(s: &Src, cx: &mut Cx, text: impl AsRef<str>) {
    cx.show(text);
    if let Some(p) = &*CRASH_NOTE.lock().unwrap() {
        let _ = std::fs::write(p, &cx.repr);
        let _ = std::fs::write(p.with_extension("case.choices"), serde_json::to_string(&s.rec).unwrap());
    }
}

pub fn choices_of_crash(p: &Path) -> Option<Vec<u64>> {
    serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt { Text, Sexp, Html, Xml, Css }
pub const FMTS: [Fmt; 5] = [Fmt::Text, Fmt::Sexp, Fmt::Html, Fmt::Xml, Fmt::Css];
impl Fmt {
    pub fn name(self) -> &'static str {
        match self { Fmt::Text => "text", Fmt::Sexp => "sexp", Fmt::Html => "html", Fmt::Xml => "xml", Fmt::Css => "css" }
    }
}

pub fn formatter<'a>(tree: ParseTree<'a>, f: Fmt) -> Box<dyn MarkupFormatter + 'a> {
    match f {
        Fmt::Text => Box::new(PlainTextFormatter::new(tree)),
        Fmt::Sexp => Box::new(SExpFormatter::new(tree)),
        Fmt::Html => Box::new(HTMLFormatter::new(tree)),
        Fmt::Xml => Box::new(XMLFormatter::new(tree)),
        Fmt::Css => Box::new(CSSFormatter::new(tree)),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stage { Read, Expand, Generate }

#[derive(Clone, Debug)]
pub struct SeamErr { pub stage: Stage, pub msg: String }

/// Files and options a source is processed with.
#[derive(Clone, Default)]
pub struct Env { pub path: Option<String>, pub includes: Vec<PathBuf> }

fn stage_of(msg: &str) -> Stage {
    if msg.contains("Error Expanding Macro") { Stage::Expand } else { Stage::Read }
}

/// The parse tree before expansion.
pub fn seam_read(src: &str, path: Option<&str>) -> Result<Vec<N>, SeamErr> {
    let lexer = seam::parse::lexer::Lexer::new(path.unwrap_or("<stdin>").to_owned(), src.to_owned());
    let parser = seam::parse::parser::Parser::new(lexer);
    let r = parser.parse();
    match r {
        Ok(t) => Ok(tree::convert_all(&t)),
        Err(e) => Err(SeamErr { stage: Stage::Read, msg: e.to_string() }),
    }
}

/// Runs `f` on the expanded tree.
pub fn with_tree<T>(src: &str, env: &Env, f: impl FnOnce(&ParseTree<'_>) -> T) -> Result<T, SeamErr> {
    let mut ex = seam::tree_builder(env.path.as_ref().map(Path::new), src.to_owned());
    ex.add_includes(env.includes.iter());
    let ex = ex;
    let r = ex.expand();
    match r {
        Ok(t) => Ok(f(&t)),
        Err(e) => { let msg = e.to_string(); Err(SeamErr { stage: stage_of(&msg), msg }) },
    }
}

pub fn seam_expand(src: &str, env: &Env) -> Result<Vec<N>, SeamErr> { with_tree(src, env, |t| tree::convert_all(t)) }

pub fn generate(tree: &ParseTree<'_>, fmt: Fmt, doc: bool) -> Result<String, SeamErr> {
    let f = formatter(tree.clone(), fmt);
    let r = if doc { f.document() } else { f.display() };
    match r { Ok(s) => Ok(s), Err(e) => Err(SeamErr { stage: Stage::Generate, msg: e.to_string() }) }
}

pub fn seam_out(src: &str, fmt: Fmt, doc: bool, env: &Env) -> Result<String, SeamErr> {
    with_tree(src, env, |t| generate(t, fmt, doc)).and_then(|r| r)
}

/// Expanded tree together with the output in one format.
pub fn seam_tree_out(src: &str, fmt: Fmt, doc: bool, env: &Env) -> Result<(Vec<N>, Result<String, SeamErr>), SeamErr> {
    with_tree(src, env, |t| (tree::convert_all(t), generate(t, fmt, doc)))
}

/// Runs `f`; what it writes to standard error is returned.
pub fn with_stderr<T>(f: impl FnOnce() -> T) -> (T, String) {
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::os::fd::{AsRawFd, FromRawFd};
    static FILES: Mutex<Option<(std::fs::File, i32)>> = Mutex::new(None);
    struct Back(i32);
    impl Drop for Back { fn drop(&mut self) { unsafe { libc::dup2(self.0, 2); } } }
    let mut guard = FILES.lock().unwrap_or_else(|e| e.into_inner());
    let (file, old) = guard.get_or_insert_with(|| unsafe {
        let fd = libc::memfd_create(c"stderr".as_ptr(), 0);
        assert!(fd >= 0, "no memfd");
        (std::fs::File::from_raw_fd(fd), libc::dup(2))
    });
    let r = {
        file.set_len(0).unwrap();
        file.seek(SeekFrom::Start(0)).unwrap();
        let _ = std::io::stderr().flush();
        let _back = Back(*old);
        unsafe { libc::dup2(file.as_raw_fd(), 2); }
        f()
    };
    let mut b = vec![];
    file.seek(SeekFrom::Start(0)).unwrap();
    file.read_to_end(&mut b).unwrap();
    (r, String::from_utf8_lossy(&b).into_owned())
}

/// Coverage guidance (only with instrumented builds).
pub mod cov {
    use crate::engine::Src;
    pub struct Guide;
    impl Guide {
        pub fn new(_seed: u64) -> Option<Self> { None }
        pub fn next(&mut self, seed: u64) -> Src { Src::random(seed) }
        pub fn observe(&mut self, _c: &[u64]) {}
        pub fn stats(&self) -> serde_json::Value { serde_json::Value::Null }
    }
}
