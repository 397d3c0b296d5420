//! C32 (what nodes and positions tell), C34 (entry points) and C35 (reading step by step).

use super::mixed;
use crate::engine::*;
use crate::gen::*;
use crate::model::{reader, tree::*};
use crate::prog::Pg;
use crate::util::*;
use seam::parse::lexer::Lexer;
use seam::parse::parser::{IntoValue, Node, ParseNode, ParseTree, Parser};
use seam::parse::tokens;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::Path;
use unicode_width::UnicodeWidthStr;

// ------------------------------------------------------------- C32

pub struct C32;

fn all<'t, 'a>(t: &'t [ParseNode<'a>], out: &mut Vec<&'t ParseNode<'a>>) {
    for n in t {
        out.push(n);
        match n { ParseNode::List { nodes, .. } => all(nodes, out), ParseNode::Attribute { node, .. } => all(std::slice::from_ref(node), out), _ => {} }
    }
}

/// A whole number as written, if it is one.
fn whole(t: &str) -> Option<i128> {
    let (neg, d) = match t.as_bytes().first()? { b'-' => (true, &t[1..]), b'+' => (false, &t[1..]), _ => (false, t) };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: i128 = 0;
    for b in d.bytes() { v = v * 10 + (b - b'0') as i128; if v > 1 << 100 { return None; } }
    Some(if neg { -v } else { v })
}
/// Is this how a decimal number is written?
fn decimal(t: &str) -> bool {
    let t = t.strip_prefix(['+', '-']).unwrap_or(t);
    if ["inf", "infinity", "nan"].contains(&t.to_ascii_lowercase().as_str()) { return true; }
    let (m, e) = match t.find(['e', 'E']) { Some(i) => (&t[..i], Some(&t[i + 1..])), None => (t, None) };
    let digits = |d: &str| d.bytes().all(|b| b.is_ascii_digit());
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    digits(a) && digits(b) && !(a.is_empty() && b.is_empty()) && e.is_none_or(|e| { let e = e.strip_prefix(['+', '-']).unwrap_or(e); !e.is_empty() && digits(e) })
}

fn ptr<T>(a: Option<&T>, b: Option<&T>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => std::ptr::eq(a, b), _ => false } }

fn ints<'a>(n: &'a ParseNode<'a>, want: Option<i128>) -> R {
    macro_rules! int { ($($t:ty),*) => { $({
        let got: Option<$t> = n.into_value();
        // Unsigned numbers have no sign, not even for zero.
        let text = n.number().map_or("", |a| a.value.as_str());
        let w = want.and_then(|v| <$t>::try_from(v).ok()).filter(|_| <$t>::MIN != 0 || !text.starts_with('-'));
        if got != w { return bad(format!("{} as {} is {got:?}, expected {w:?}", show(&convert(n)), stringify!($t))); }
    })* } }
    int!(usize, isize, u32, i32, u64, i64);
    Ok(())
}

fn node_tells<'a>(n: &'a ParseNode<'a>, text: &str, name: &str, cx: &mut Cx) -> R {
    let m = convert(n);
    let what = show(&m);
    let (atom, kind): (Option<&Node>, _) = match n {
        ParseNode::Symbol(a) => (Some(a), "symbol"), ParseNode::Number(a) => (Some(a), "number"), ParseNode::String(a) => (Some(a), "string"), ParseNode::Raw(a) => (Some(a), "raw-content string"),
        ParseNode::List { .. } => (None, "list"), ParseNode::Attribute { .. } => (None, "attribute"),
    };
    if n.node_type() != kind { return bad(format!("{what} is called a {}", n.node_type())); }
    let on = |b: bool| if b { atom } else { None };
    let symbolic = matches!(kind, "symbol" | "number");
    let string = matches!(kind, "string" | "raw-content string");
    for (which, got, want) in [("symbolic", n.symbolic(), on(symbolic)), ("string", n.string(), on(string)), ("number", n.number(), on(kind == "number")), ("symbol", n.symbol(), on(kind == "symbol")), ("atomic", n.atomic(), atom)] {
        if !ptr(got, want) { return bad(format!("{what}: {which} gives {}", if got.is_some() { "something" } else { "nothing" })); }
    }
    for (which, got, want) in [("symbolic", n.is_symbolic(), symbolic), ("atomic", n.is_atomic(), atom.is_some()), ("symbol", n.is_symbol(), kind == "symbol"), ("number", n.is_number(), kind == "number"), ("string", n.is_string(), string), ("list", n.is_list(), kind == "list"), ("attribute", n.is_attribute(), kind == "attribute")] {
        if got != want { return bad(format!("{what} is{} {which}", if got { "" } else { " not" })); }
    }
    let null = matches!(&m, N::List { kids, .. } if kids.is_empty());
    if n.null() != null { return bad(format!("{what}: null is {}", n.null())); }
    match (n.list(), n) { (None, x) if !matches!(x, ParseNode::List { .. }) => {}, (Some(l), ParseNode::List { nodes, .. }) if std::ptr::eq(l, nodes) => {}, _ => return bad(format!("{what}: list gives something else")) }
    match (n.attribute(), n) { (None, x) if !matches!(x, ParseNode::Attribute { .. }) => {}, (Some((k, v)), ParseNode::Attribute { keyword, node, .. }) if k == keyword && std::ptr::eq(v, node) => {}, _ => return bad(format!("{what}: attribute gives something else")) }
    // Owned forms.
    let owned = |a: Option<Node>| a.map(|a| (a.value, a.leading_whitespace, a.site.bytes_from_start, a.site.line));
    let want = owned(atom.cloned());
    for (which, got) in [("into_atomic", owned(n.clone().into_atomic())), ("Node", owned(Node::try_from(n.clone()).ok()))] {
        if got != want { return bad(format!("{what}: {which} gives {got:?}")); }
    }
    let kids: Option<Vec<N>> = m.list().map(|l| l.to_vec());
    let boxed: Option<Vec<N>> = Box::<[ParseNode]>::try_from(n.clone()).ok().map(|l| convert_all(&l));
    let vec: Option<Vec<N>> = Vec::<ParseNode>::try_from(n.clone()).ok().map(|l| convert_all(&l));
    if boxed != kids || vec != kids { return bad(format!("{what}: the list of it is {boxed:?} or {vec:?}")); }
    // Values.
    let num = if kind == "number" { atom.map(|a| a.value.as_str()) } else { None };
    ints(n, num.and_then(whole))?;
    let (a, b): (Option<f64>, Option<f32>) = (n.into_value(), n.into_value());
    if a.is_some() != num.is_some_and(decimal) || b.is_some() != a.is_some() { return bad(format!("{what} as a decimal number is {a:?} and {b:?}")); }
    if let (Some(a), Some(v)) = (a, num.and_then(whole)) { if v.abs() < 1 << 53 && a != v as f64 { return bad(format!("{what} as a decimal number is {a}")); } }
    if let (Some(x), Some(t)) = (a, num) { if t.parse::<f64>().is_ok_and(|y| y.to_bits() != x.to_bits()) { return bad(format!("{what} as a decimal number is {x}")); } }
    let t: Option<&str> = n.into_value();
    let want = if kind == "number" { None } else { atom.map(|a| a.value.as_str()) };
    if t != want { return bad(format!("{what} as text is {t:?}")); }
    // Blanks.
    let ws = match n { ParseNode::List { leading_whitespace, .. } | ParseNode::Attribute { leading_whitespace, .. } => leading_whitespace.as_str(), _ => atom.unwrap().leading_whitespace.as_str() };
    if n.leading_whitespace() != ws { return bad(format!("{what}: blanks are {:?}", n.leading_whitespace())); }
    for w in ["", "\n\t ", "é"] {
        let mut c = n.clone();
        c.set_leading_whitespace(w.to_owned());
        let mut want = m.clone();
        want.set_ws(w);
        if let Some(d) = diff(&convert(&c), &want, EVERYTHING, "") { return bad(format!("{what}: after setting the blanks: {d}")); }
    }
    // Position.
    let site = match n { ParseNode::List { site, .. } | ParseNode::Attribute { site, .. } => site, _ => &atom.unwrap().site };
    if !std::ptr::eq(n.site(), site) { return bad(format!("{what}: the site is another one")); }
    let o = n.owned_site();
    if (o.source, o.line, o.bytes_from_start, o.bytes_from_start_of_line, o.bytes_span) != (site.source, site.line, site.bytes_from_start, site.bytes_from_start_of_line, site.bytes_span) || !std::ptr::eq(o.source_code, site.source_code) { return bad(format!("{what}: the owned site is another one")); }
    cx.label(kind);
    if site.source == name { site_tells(site, text)?; }
    Ok(())
}

fn site_tells(s: &tokens::Site, text: &str) -> R {
    let at = format!("site {}:{}+{}", s.line, s.bytes_from_start, s.bytes_span);
    if s.source_code != text { return bad(format!("{at}: refers to another text")); }
    let start = text[..s.bytes_from_start].rfind('\n').map_or(0, |i| i + 1);
    let end = text[s.bytes_from_start..].find('\n').map_or(text.len(), |i| s.bytes_from_start + i);
    let cut = &text[s.bytes_from_start..s.bytes_from_start + s.bytes_span];
    if s.view() != cut { return bad(format!("{at}: view is {:?}", s.view())); }
    if (s.start_of_line(), s.end_of_line()) != (start, end) { return bad(format!("{at}: the line is from {} to {}, not {start} to {end}", s.start_of_line(), s.end_of_line())); }
    if s.line_slice() != &text[start..end] { return bad(format!("{at}: the line is {:?}", s.line_slice())); }
    let col = text[start..s.bytes_from_start].width() + 1;
    if s.line_column() != col { return bad(format!("{at}: the column is {}, not {col}", s.line_column())); }
    if s.width() != cut.width() { return bad(format!("{at}: the width is {}", s.width())); }
    let shown = format!("({}:{}:{col})", s.source, s.line);
    if s.to_string() != shown { return bad(format!("{at}: shown as {s}")); }
    if !s.uuid().ends_with(&format!("-{}", s.bytes_from_start)) || s.uuid() != (*s).clone().uuid() { return bad(format!("{at}: the identifier is {}", s.uuid())); }
    let same = tokens::Site::new(s.source, s.source_code, s.line, s.bytes_from_start, s.bytes_from_start_of_line, s.bytes_span);
    if same.uuid() != s.uuid() || same.to_string() != shown { return bad(format!("{at}: a copy is another")); }
    // The same place of another file.
    let (longer, turned) = (format!("{}x", s.source), s.source.chars().rev().chain(['y']).skip(1).collect::<String>());
    for file in [&longer, &turned] {
        let other = tokens::Site::new(file, s.source_code, s.line, s.bytes_from_start, s.bytes_from_start_of_line, s.bytes_span);
        if other.uuid() == s.uuid() { return bad(format!("{at}: the same place of {file:?} has the same identifier")); }
    }
    Ok(())
}

/// Is the tree one whose printed form needs no escapes in symbols and keywords?
fn plain(t: &[N]) -> bool {
    // Two empty quotes touching a third open a string of another kind.
    fn empty(n: &N) -> bool { match n { N::Str(a) | N::Raw(a) => a.val.is_empty(), N::Attr { val, .. } => empty(val), _ => false } }
    !t.windows(2).any(|w| empty(&w[0]) && w[1].ws().is_empty() && matches!(w[1], N::Str(_) | N::Raw(_)))
    && t.iter().all(|n| match n {
        N::Sym(a) | N::Num(a) => matches!(reader::read(&a.val, "").as_deref(), Ok([one]) if one.kind() == n.kind() && one.atom().unwrap().val == a.val && one.ws().is_empty() && one.site().span == a.val.len()),
        N::List { kids, .. } => plain(kids),
        N::Attr { key, val, .. } => !key.contains('\\') && plain(std::slice::from_ref(&**val)),
        // (Written as Rust writes it; a digit after it would belong to the number.)
        N::Str(a) | N::Raw(a) => !a.val.contains('\0'),
    })
}

impl Prop for C32 {
    fn id(&self) -> &'static str { "C32" }
    fn rule(&self) -> &'static str {
        "Random trees, as read and as expanded from programs (included files, raw strings): for every node, each accessor, kind test, name, conversion (to atoms, lists, whole and decimal numbers of eight types, text) and change of blanks must tell exactly what its variant holds, by identity where it refers to it; its site must tell view, line, column, width and printed form as computed from the source, and different tokens have different identifiers. What is printed of a macro-free tree is read back as that tree. Non-trivial: at least three kinds of nodes."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 20_000_000 } else { 500_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let lay = layout(s);
        let name = s.pick(&["<stdin>", "dir/a é.sex"]).to_owned();
        let (src, read_only) = match s.weighted(&[5, 3, 1]) {
            0 => { let d = s.below(4); let mut g = forest(s, d); if s.chance(1, 3) { let n = s.pick(&["+7", "-0", "18446744073709551616", "-9223372036854775808", "4294967295", "1e400", "+inf", "-nan", "-.5", "5.", "1e", "1_0", "00012", "++5", "+-5", "-+5", "--5", "5+", "5-", "+", "-1e-3", "2147483648", "0x1", "1E5", "-2147483648"]); g.push(G::Tok(n.to_owned())); } (render(s, &g, lay, "<stdin>").0, true) },
            1 => { let mut p = Pg::new(&[("raw", 4), ("include", 0), ("embed", 0)], 0); let g = p.program(s); (render(s, &g, lay, "<stdin>").0, false) },
            _ => (soup(s, &[], 30), true),
        };
        about_to_run(s, cx, &src);
        if !read_only { mixed::bounded(&src, &[])?; }
        let path = name.clone();
        let tell = |t: &ParseTree<'_>, cx: &mut Cx| -> R {
            let mut nodes = vec![];
            all(t, &mut nodes);
            nodes.truncate(80);
            // The nodes are borrowed for as long as they like.
            let nodes: Vec<&ParseNode> = nodes;
            let mut kinds = std::collections::HashSet::new();
            let mut ids: HashMap<String, (usize, usize)> = HashMap::new();
            for n in &nodes {
                kinds.insert(n.node_type());
                // SAFETY: only the lifetime of the borrow is that of the node itself, as conversions to text demand.
                let n: &ParseNode<'static> = unsafe { std::mem::transmute(*n) };
                node_tells(n, &src, &path, cx)?;
                let at = (n.site().bytes_from_start, n.site().bytes_span);
                if n.site().source == path { if let Some(o) = ids.insert(n.site().uuid(), at) { if o != at { return bad(format!("two sites have the identifier {}", n.site().uuid())); } } }
            }
            cx.nontrivial = kinds.len() >= 3;
            Ok(())
        };
        if read_only {
            let p = Parser::new(Lexer::new(name.clone(), src.clone()));
            let r = match p.parse() { Ok(t) => Some(t), Err(_) => { cx.label("not read"); None } };
            let Some(t) = r else { return Ok(()) };
            tell(&t, cx)?;
            let m = convert_all(&t);
            if plain(&m) {
                let printed: String = t.iter().map(|n| n.to_string()).collect();
                match reader::read(&printed, "") {
                    Ok(back) => if let Some(d) = diff_all(&back, &m, LAYOUT) { return bad(format!("printed as {printed:?}, which is read differently: {d}")); },
                    Err(e) => return bad(format!("printed as {printed:?}, which is not read: {e:?}")),
                }
                cx.label("printed and read back");
            }
            Ok(())
        } else {
            let env = Env { path: Some(name), includes: vec![] };
            match with_tree(&src, &env, |t| tell(t, cx)) { Ok(r) => r, Err(_) => { cx.label("not expanded"); Ok(()) } }
        }
    }
}

// ------------------------------------------------------------- C34

pub struct C34;

/// Takes only so many bytes.
struct Limited { left: usize, got: String }
impl std::fmt::Write for Limited {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if t.len() > self.left { self.left = 0; return Err(std::fmt::Error); }
        self.left -= t.len();
        self.got += t;
        Ok(())
    }
}
/// Gives its text in parts, with interruptions, or fails.
struct Parts<'t> { text: &'t [u8], sizes: Vec<usize>, i: usize, fail_at: Option<usize>, given: usize }
impl std::io::Read for Parts<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let size = self.sizes[self.i % self.sizes.len()];
        self.i += 1;
        if size == 0 && self.i % 5 != 0 { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
        if self.fail_at.is_some_and(|f| self.given >= f) { return Err(std::io::Error::other("cannot be read")); }
        let n = size.max(1).min(b.len()).min(self.text.len());
        b[..n].copy_from_slice(&self.text[..n]);
        self.text = &self.text[n..];
        self.given += n;
        Ok(n)
    }
}

type Said = Result<Vec<N>, String>;
macro_rules! expanded { ($e:expr) => {{
    let ex = $e;
    let said: Said = { let r = ex.expand(); match r { Ok(t) => Ok(convert_all(&t)), Err(e) => Err(e.to_string()) } };
    said
}} }
fn same(a: &Said, b: &Said, what: &str) -> R {
    match (a, b) {
        (Ok(a), Ok(b)) => match diff_all(a, b, EVERYTHING) { Some(d) => bad(format!("{what}: {d}")), None => Ok(()) },
        (Err(a), Err(b)) if norm_lambda(a) == norm_lambda(b) => Ok(()),
        _ => bad(format!("{what}: {a:?}\nbut: {b:?}")),
    }
}

fn entry_points(s: &mut Src, cx: &mut Cx) -> R {
    let (mut src, _) = mixed::source(s);
    about_to_run(s, cx, &src);
    mixed::bounded(&src, &[])?;
    if src.contains("date") { return discard("tells the time"); }
    if s.chance(1, 20) { src = format!("\u{feff}{src}"); }
    let path = s.pick(&["main.sex", "é b.txt"]);
    std::fs::write(path, &src).unwrap();
    let p = Path::new(path);
    let named = expanded!(seam::tree_builder(Some(p), src.clone()));
    let file = match seam::tree_builder_file(p) { Ok(e) => { if e.get_source() != src { return bad("the source of the file is another"); } expanded!(e) }, Err(e) => return bad(format!("the file cannot be read: {e}")) };
    same(&file, &named, "from the file, and its text with that name")?;
    let nameless = expanded!(seam::tree_builder(Option::<&Path>::None, src.clone()));
    let sizes = s.many(1, 6, 3, |s| s.below(9) * s.below(9));
    let sizes = if sizes.iter().all(|n| *n == 0) { vec![1] } else { sizes };
    let mut parts = Parts { text: src.as_bytes(), sizes: sizes.clone(), i: 0, fail_at: None, given: 0 };
    let stream = match seam::tree_builder_stream(&mut parts) { Ok(e) => { if e.get_source() != src { return bad("the source of the stream is another"); } expanded!(e) }, Err(e) => return bad(format!("the stream cannot be read: {e}")) };
    same(&stream, &nameless, "from the stream, and its text without a name")?;
    // The name is only a name.
    match (&named, &nameless) {
        (Ok(a), Ok(b)) => if let Some(d) = diff_all(a, b, LAYOUT) { return bad(format!("with and without a name: {d}")); },
        (Err(a), Err(b)) => if norm_lambda(&a.replace(path, "<stdin>")) != norm_lambda(&b.replace(path, "<stdin>")) && !a.contains("~") { return bad(format!("with a name: {a}\nwithout: {b}")); },
        (a, b) => return bad(format!("with a name: {a:?}\nwithout: {b:?}")),
    }
    // A copy, before anything is done, and nodes one after the other.
    {
        let ex = seam::tree_builder(Some(p), src.clone());
        let both = [ex.clone(), ex];
        for (ex, what) in [(&both[0], "a copy of the builder"), (&both[1], "the builder that was copied")] {
            let said: Said = match ex.expand() { Ok(t) => Ok(convert_all(&t)), Err(e) => Err(e.to_string()) };
            same(&said, &named, what)?;
        }
    }
    {
        let parser = Parser::new(Lexer::new(path.to_owned(), src.clone()));
        if parser.get_source() != src { return bad("the parser's source is another"); }
        if let Ok(t) = parser.parse() {
            let ex = seam::parse::expander::Expander::new(parser.clone());
            let mut out = vec![];
            let mut stop = None;
            for n in t.iter() { match ex.expand_node(n.clone()) { Ok(v) => out.extend(convert_all(&v)), Err(e) => { stop = Some(e.to_string()); break } } }
            let step: Said = match stop { Some(e) => Err(e), None => Ok(out) };
            same(&step, &named, "node by node")?;
        };
    }
    match seam::parse::parser_for_file(p) {
        Ok(q) => { let r = match q.parse() { Ok(t) => Ok(convert_all(&t)), Err(e) => Err(e.to_string()) }; same(&r, &seam_read(&src, Some(path)).map_err(|e| e.msg), "parser for the file")?; },
        Err(e) => return bad(format!("the file cannot be read: {e}")),
    }
    // Files and streams which cannot be read.
    if s.chance(1, 20) {
        let at = s.below(src.len() + 1);
        let mut parts = Parts { text: src.as_bytes(), sizes, i: 0, fail_at: Some(at), given: 0 };
        if seam::tree_builder_stream(&mut parts).is_ok() { return bad("a stream which fails is taken"); }
        let mut b = src.clone().into_bytes();
        b.insert(at, 0xff);
        std::fs::write(path, &b).unwrap();
        if seam::tree_builder_file(p).is_ok() || seam::parse::parser_for_file(p).is_ok() || seam::tree_builder_stream(&mut &b[..]).is_ok() { return bad("what is not UTF-8 is taken"); }
        if seam::tree_builder_file(Path::new("nosuch.sex")).is_ok() || seam::tree_builder_file(Path::new(".")).is_ok() || seam::parse::parser_for_file(Path::new("nosuch.sex")).is_ok() { return bad("a missing file is taken"); }
        cx.label("unreadable");
    }
    // Formatters.
    let f = s.choose(&FMTS);
    let part = s.draw(1 << 20) as usize;
    let env = Env { path: Some(path.to_owned()), includes: vec![] };
    let r = with_tree(&src, &env, |t| -> R {
        let b = formatter(t.clone(), f);
        let c = b.clone();
        let (shown, doc) = (b.display().map_err(|e| e.to_string()), b.document().map_err(|e| e.to_string()));
        if c.display().map_err(|e| e.to_string()) != shown || c.document().map_err(|e| e.to_string()) != doc { return bad(format!("as {}: a copy of the formatter gives something else", f.name())); }
        let mut into = "before ".to_owned();
        let ok = b.generate(&mut into).is_ok();
        // SAFETY: the reference is gone before what it refers to.
        let dynamic: &(dyn seam::assemble::MarkupFormatter + 'static) = unsafe { std::mem::transmute(&*b) };
        let mut printed = String::new();
        let printed_ok = write!(printed, "{dynamic}").is_ok();
        match &shown {
            Ok(o) => {
                if !ok || into != format!("before {o}") { return bad(format!("as {}: generating gives {into:?}, displaying {o:?}", f.name())); }
                if !printed_ok || printed != *o { return bad(format!("as {}: printed as {printed:?}, displayed as {o:?}", f.name())); }
                // Width, precision and fill are no part of a document.
                for (how, p) in [("{:.2}", format!("{dynamic:.2}")), ("{:>300}", format!("{dynamic:>300}")), ("{:#}", format!("{dynamic:#}")), ("{:*^9.0}", format!("{dynamic:*^9.0}"))] {
                    if p != *o { return bad(format!("as {}: printed with {how} as {p:?}, displayed as {o:?}", f.name())); }
                }
                let left = part % (o.len() + 2);
                let mut w = Limited { left, got: String::new() };
                let r = b.generate(&mut w).is_ok();
                if r != (left >= o.len()) { return bad(format!("as {}: {} bytes of {} are {}", f.name(), left, o.len(), if r { "enough" } else { "not enough" })); }
                if !o.starts_with(&w.got) { return bad(format!("as {}: the beginning is {:?}, of {o:?}", f.name(), w.got)); }
                match f {
                    Fmt::Text | Fmt::Sexp => if doc.as_ref() != Ok(o) { return bad(format!("as {}: the document is {doc:?}, not {o:?}", f.name())); },
                    Fmt::Css => if doc.as_ref() != Ok(o) && !(t.is_empty() && doc.as_ref().is_ok_and(|d| d.trim().is_empty())) { return bad(format!("as css: the document is {doc:?}, not {o:?}")); },
                    Fmt::Xml => if !doc.as_ref().is_ok_and(|d| d.ends_with(o.as_str())) { return bad(format!("as xml: the document is {doc:?}, not ending with {o:?}")); },
                    _ => {},
                }
                cx.label(f.name());
                cx.nontrivial = !o.is_empty();
            },
            Err(_) => if ok || printed_ok || doc.is_ok() && f != Fmt::Html { return bad(format!("as {}: rejected when displayed only", f.name())); },
        }
        Ok(())
    });
    match r { Ok(r) => r, Err(_) => { cx.label("rejected"); Ok(()) } }
}

impl Prop for C34 {
    fn id(&self) -> &'static str { "C34" }
    fn rule(&self) -> &'static str {
        "Random sources as for C01, written to a file, and given in parts of random sizes with interruptions: building from text with a name, from the file, node by node and from a copy agree in everything (tree, sites, messages), as do text without a name and a stream; a name changes nothing but the name; failing streams, missing files and invalid UTF-8 are errors. For a random format: display, generate (appending, and into a writer that fails after any number of bytes), print, and copies of the formatter agree, and documents are the fragment in text and S-expressions and end with it in XML. Non-trivial: has output."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 6_000_000 } else { 150_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R { mixed::files(); entry_points(s, cx) }
}

// ------------------------------------------------------------- C35

pub struct C35;

fn tok(t: &tokens::Token) -> reader::Tok {
    use tokens::Kind::*;
    let kind = match t.kind { LParen => reader::Kind::Open, RParen => reader::Kind::Close, Symbol => reader::Kind::Sym, String => reader::Kind::Str, Number => reader::Kind::Num, Keyword => reader::Kind::Key };
    let s = &t.site;
    reader::Tok { kind, val: t.value.to_owned(), ws: t.leading_whitespace.to_owned(), site: Site { file: file_id(s.source), off: s.bytes_from_start, line: s.line, col: s.bytes_from_start_of_line, span: s.bytes_span } }
}

struct Steps<'m> { toks: &'m [reader::Tok], unclosed: Option<Site>, log: String }
impl Steps<'_> {
    fn one(&self, at: usize, got: Result<reader::Tok, (String, Site)>, how: &str) -> R {
        let want = self.toks.get(at);
        match (got, want) {
            (Ok(g), Some(w)) if g == *w => Ok(()),
            (Err((m, site)), None) if self.unclosed == Some(site) && !m.trim().is_empty() => Ok(()),
            (g, w) => bad(format!("{}: {how} of token {at} gives {g:?}, expected {w:?}", self.log)),
        }
    }
    fn peek<'l>(&self, l: &'l Lexer) -> Result<reader::Tok, (String, Site)> { l.peek().map(|t| tok(&t)).map_err(|e| err(&e)) }
    fn take<'l>(&self, l: &'l Lexer) -> Result<reader::Tok, (String, Site)> { l.consume().map(|t| tok(&t)).map_err(|e| err(&e)) }
    /// Random steps; the number of tokens consumed in the end, or `None` after an error.
    fn go<'l>(&mut self, s: &mut Src, l: &'l Lexer, mut at: usize, depth: usize, n: usize) -> Result<Option<usize>, Fail> {
        let more = |at: usize, me: &Self| at < me.toks.len() || me.unclosed.is_some();
        for _ in 0..n {
            match s.weighted(&[5, 4, 3, if depth > 0 { 2 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
                0 => if more(at, self) {
                    self.log += "consume ";
                    let r = self.take(l);
                    let stop = r.is_err();
                    self.one(at, r, "consuming")?;
                    if stop { return Ok(None); }
                    at += 1;
                },
                1 => if more(at, self) { self.log += "peek "; self.one(at, self.peek(l), "peeking")?; },
                2 => { self.log += "eof "; if l.eof() == more(at, self) { return bad(format!("{}: eof is {} at token {at}", self.log, l.eof())); } },
                3 => {
                    self.log += "[ ";
                    let k = s.below(6);
                    let mut r = Ok(None);
                    l.restore(|l| r = self.go(s, l, at, depth - 1, k));
                    r?;
                    self.log += "] ";
                },
                _ => {
                    self.log += "{ ";
                    let c = l.clone();
                    let k = s.below(8);
                    self.go(s, &c, at, depth - 1, k)?;
                    self.log += "} ";
                },
            }
        }
        Ok(Some(at))
    }
}
fn err(e: &seam::parse::lexer::LexError) -> (String, Site) {
    let s = &e.1;
    (e.0.clone(), Site { file: file_id(s.source), off: s.bytes_from_start, line: s.line, col: s.bytes_from_start_of_line, span: s.bytes_span })
}

fn stepwise(s: &mut Src, src: &str, cx: &mut Cx) -> R {
    let name = "dir/x.sex";
    let (toks, unclosed) = reader::tokens(src, name);
    let l = Lexer::new(name.to_owned(), src.to_owned());
    if l.get_source() != src { return bad("the lexer's source is another"); }
    let n = s.below(2 * toks.len() + 6);
    let mut st = Steps { toks: &toks, unclosed, log: String::new() };
    let mut done = st.go(s, &l, 0, 2, n)?;
    // To the end.
    while let Some(at) = done {
        if at >= toks.len() && unclosed.is_none() { if !l.eof() { return bad(format!("{}: tokens left at the end", st.log)); } break; }
        if l.eof() { return bad(format!("{}: no tokens left at {at} of {}", st.log, toks.len())); }
        let r = st.take(&l);
        let stop = r.is_err();
        st.one(at, r, "consuming")?;
        done = if stop { None } else { Some(at + 1) };
    }
    // The parser, expression by expression.
    let whole = seam_read(src, Some(name));
    let p = Parser::new(Lexer::new(name.to_owned(), src.to_owned()));
    let k = match &whole { Ok(t) => s.below(t.len() + 1), Err(_) => usize::MAX };
    let mut got: Said = Ok(vec![]);
    let mut left = toks.len() + 1;
    for i in 0..k {
        if matches!(&whole, Err(_)) && p_eof(&p) { return bad("the parser comes to the end of a source which cannot be read"); }
        if left == 0 { return bad("the parser does not come to an end"); }
        left -= 1;
        match p.parse_expr() {
            Ok(n) => { if let Ok(v) = &mut got { v.push(convert(&n)); } },
            Err(e) => { got = Err(e.to_string()); break; },
        }
        // A copy goes on by itself.
        if i == 1 { let c = p.clone(); let _ = c.parse(); }
    }
    if let Ok(v) = &mut got { let rest = p.parse(); match rest { Ok(t) => v.extend(convert_all(&t)), Err(e) => got = Err(e.to_string()) } }
    same(&got, &whole.clone().map_err(|e| e.msg), "expression by expression")?;
    cx.label(if unclosed.is_some() { "unclosed string" } else if whole.is_ok() { "read" } else { "not read" });
    cx.nontrivial = toks.len() >= 3 && st.log.contains('[');
    Ok(())
}
fn p_eof(p: &Parser) -> bool {
    // What a parser has left is told by a copy of it.
    matches!(p.clone().parse(), Ok(t) if t.is_empty())
}

impl Prop for C35 {
    fn id(&self) -> &'static str { "C35" }
    fn rule(&self) -> &'static str {
        "Random sources (rendered trees, mutations, token soups, any text) and random sequences of looking ahead, consuming, asking for the end, nested tries which are undone, and continuing with a copy: each answer must be that of a reference tokenizer at the position the model has (kind, text, blanks, site), also at unclosed strings. Parsing any number of expressions one by one and then the rest gives what parsing at once gives. Non-trivial: at least three tokens, and something was undone."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 25_000_000 } else { 700_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let lay = layout(s);
        let src = match s.weighted(&[5, 2, 2, 1]) {
            0 => { let d = s.below(4); let g = forest(s, d); render(s, &g, lay, "<stdin>").0 },
            1 => { let g = forest(s, 2); let t = render(s, &g, Layout::Wild, "<stdin>").0; mutate(s, &t) },
            2 => soup(s, &[], 25),
            _ => any_text(s, 30),
        };
        about_to_run(s, cx, &src);
        stepwise(s, &src, cx)
    }
}
