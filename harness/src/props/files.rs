//! C21 (include, embed) and C26 (glob): programs over small directory trees.

use super::expand::check_program;
use crate::engine::*;
use crate::gen::*;
use crate::model::{formats as m, tree::*};
use crate::prog::*;
use crate::util::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

/// Removes what an earlier case left in the working directory (a scratch directory of this worker).
pub(super) fn clear(names: &[&str]) {
    for n in names {
        let p = Path::new(n);
        if let Ok(m) = fs::symlink_metadata(p) { let _ = if m.is_dir() { fs::remove_dir_all(p) } else { fs::remove_file(p) }; }
    }
}

pub struct C21;
pub(super) const ROOT: &[&str] = &["one", "one.sex", "two", "two.sex", "three", "three.sex", "one.txt", "two.txt", "three.txt", "d1", "d2",
    ".three", ".two", ".one", ".three.sex", ".two.sex", ".one.sex", ".three.txt", ".two.txt", ".one.txt", "three.", "two.one", "three..sex", "two.one.sex", "one.sex.sex", "three..txt", "two.one.txt", "one.sex.txt",
    "one.svg", "two.svg", "three.svg", "one.html", "two.html", "three.html", "one.md", "two.md", "three.md", "one.css", "two.css", "three.css", "one.json", "two.json", "three.json",
    "th ree", "+two", "one~", "th ree.sex", "+two.sex", "one~.sex", "th ree.txt", "+two.txt", "one~.txt"];
const DIRS: &[&str] = &["", "d1/", "d2/", "d1/s/"];
const FOCUS: &[(&str, u64)] = &[("include", 6), ("embed", 3), ("define", 3), ("deffun", 3), ("top-define", 6), ("top-deffun", 4), ("var", 14), ("call", 8), ("namespace", 3), ("top-namespace", 3), ("for", 3), ("format", 0)];

pub(super) struct Fs { pub files: Vec<(String, Vec<u8>)>, pub dirs: Vec<String>, pub includes: Vec<PathBuf>, pub main: String }

pub(super) fn gen_fs(s: &mut Src) -> Fs {
    let stems: [&str; 3] = if s.chance(1, 12) { s.choose(&[[".three", ".two", ".one"], ["three.", "two.one", "one.sex"], ["th ree", "+two", "one~"]]) } else { ["three", "two", "one"] };
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut dirs = vec![];
    let mut known: Vec<(String, Exports)> = vec![];
    // Files only refer to the ones with earlier stems, so there are no cycles whatever gets found.
    for (i, stem) in stems.iter().enumerate() {
        let mut fresh = vec![];
        let copies = s.below(4);
        for _ in 0..copies {
            let dir = s.pick(DIRS);
            let ext = if stems[0] == "three" && s.chance(1, 8) { s.pick(&[".svg", ".html", ".md", ".css", ".json"]) } else { s.pick(&[".sex", "", ".sex", ".txt"]) };
            let path = format!("{dir}{stem}{ext}");
            if files.iter().any(|f| f.0 == path) || dirs.contains(&path) { continue; }
            let mut p = Pg::new(FOCUS, s.choose(&[0, 0, 30]));
            p.files = known.clone();
            let g = p.program(s);
            let lay = layout(s);
            let (text, _) = render(s, &g, lay, &path);
            // Contents count to the last character.
            let text = match s.below(30) { 0 => format!("\u{feff}{text}"), 1 => format!("{text}\n\n"), 2 => format!("{text}\r\n"), 3 => format!("{text} \t"), _ => text };
            let bytes = match s.below(24) {
                0 => b"a \xff b".to_vec(),
                1 => format!("{text} (").into_bytes(),
                2 => vec![],
                3 => b"; only a comment".to_vec(),
                4 => { dirs.push(path); continue; },
                5 => any_text(s, 20).into_bytes(),
                _ => text.into_bytes(),
            };
            let short = if ext == ".sex" && s.chance(2, 3) { format!("{dir}{stem}") } else { path.clone() };
            fresh.push((short, p.exports()));
            if s.chance(1, 3) { fresh.push((format!("{stem}{}", if s.chance(1, 2) { ext } else { "" }), p.exports())); }
            if dir == "d1/s/" && s.chance(1, 2) { fresh.push((format!("s/{stem}{ext}"), p.exports())); }
            if s.chance(1, 8) { fresh.push((format!("./{path}"), p.exports())); }
            files.push((path, bytes));
        }
        if s.chance(1, 10) { fresh.push((format!("{stem}.missing"), Exports::default())); }
        // Twice the chance for the files that exist.
        if i + 1 == stems.len() || s.chance(2, 3) { known.extend(fresh); }
    }
    let mut p = Pg::new(FOCUS, s.choose(&[0, 0, 0, 30]));
    p.files = known;
    let mut g = p.program(s);
    if !p.files.is_empty() { let k = p.files[s.below(p.files.len())].0.clone(); let i = s.below(g.len() + 1); g.insert(i, call("include", vec![st(k)])); }
    let lay = layout(s);
    let (main, _) = render(s, &g, lay, "<stdin>");
    let mut inc: Vec<&str> = vec!["d1", "d2", "d1/s", "nosuch", "./d1", "d2/"];
    s.shuffle(&mut inc);
    let n = s.choose(&[2, 1, 0, 3, 4, 2]);
    Fs { files, dirs, includes: inc[..n].iter().map(PathBuf::from).collect(), main }
}

impl Prop for C21 {
    fn id(&self) -> &'static str { "C21" }
    fn rule(&self) -> &'static str {
        "Random directory trees (same names in several directories, with and without .sex, sub-directories, directories with a file's name, unreadable and malformed files), include directories in any order, and programs including and embedding them at any place, nested; the expanded tree must equal the reference expander's, which looks the files up itself, and plain and HTML output must agree as well. Non-trivial: a file was included and the output is not empty."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 2_000_000 } else { 60_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        clear(ROOT);
        let f = gen_fs(s);
        let mut shown = f.main.clone();
        for (p, b) in &f.files { shown += &format!("\n=== {p}\n{}", String::from_utf8_lossy(b)); }
        for d in &f.dirs { shown += &format!("\n=== {d} (directory)"); }
        shown += &format!("\n=== -I {:?}", f.includes);
        about_to_run(s, cx, &shown);
        for d in ["d1/s", "d2"] { fs::create_dir_all(d).unwrap(); }
        for d in &f.dirs { fs::create_dir_all(d).unwrap(); }
        for (p, b) in &f.files { fs::write(p, b).unwrap(); }
        let env = Env { path: None, includes: f.includes.clone() };
        let (model, out) = check_program(&f.main, HashMap::new(), &env, cx)?;
        cx.label(&format!("{} included", model.stats.includes.min(4)));
        if model.stats.builtins.contains_key("embed") { cx.label("%embed"); }
        if let Some(t) = out {
            // What is generated from included parts.
            match seam_out(&f.main, Fmt::Text, false, &env) {
                Ok(g) => { let w = m::text(&t); if norm_lambda(&g) != norm_lambda(&w) { return bad(format!("text output {g:?}, want {w:?}")); } },
                Err(e) => return bad(format!("no text output: {}", e.msg)),
            }
            cx.nontrivial = model.stats.includes > 0 && !t.is_empty();
        }
        Ok(())
    }
    fn examples(&self) -> usize { EX21.len() }
    fn example(&self, i: usize, cx: &mut Cx) -> R {
        clear(ROOT);
        let (files, inc, main) = EX21[i];
        cx.show(format!("{main} {files:?} {inc:?}"));
        for d in ["d1/s", "d2"] { fs::create_dir_all(d).unwrap(); }
        for (p, t) in files { fs::write(p, t).unwrap(); }
        let env = Env { path: None, includes: inc.iter().map(PathBuf::from).collect() };
        check_program(main, HashMap::new(), &env, cx).map(|_| ())
    }
}
type Ex = (&'static [(&'static str, &'static str)], &'static [&'static str], &'static str);
const EX21: &[Ex] = &[
    (&[("one.sex", "(%define x 1) a %x")], &[], "p (%include one) %x"),
    (&[("d1/one.sex", "in d1"), ("d2/one", "in d2")], &["d2", "d1"], "(%include one)"),
    (&[("one", "exact"), ("one.sex", "extended")], &[], "(%include \"one\") (%include one.sex)"),
    (&[("d1/one", "exact \"q\"\n")], &["d1"], "(%embed one)"),
    (&[("one.sex", "(%include two)"), ("d1/two", "(x y)")], &["d1"], "(a (%include one))"),
    (&[("one", "(")], &[], "(%include one)"),
    (&[], &[], "(%include one)"),
    (&[("one", "(%nope)")], &[], "a (%include one)"),
    (&[("one", "")], &[], "a (%include one) b"),
    (&[("two.txt", "x")], &[], "(%include two) "),
];

// ------------------------------------------------------------------- glob

pub struct C26;

/// Does a name match one component of a pattern? (`*`, `?`, `[...]`, `[!...]`)
fn matches(p: &[char], n: &[char]) -> bool {
    match p.first() {
        None => n.is_empty(),
        Some('*') => (0..=n.len()).any(|i| matches(&p[1..], &n[i..])),
        Some('?') => !n.is_empty() && matches(&p[1..], &n[1..]),
        Some('[') => {
            let neg = p.get(1) == Some(&'!');
            let start = if neg { 2 } else { 1 };
            // A bracket directly after the start is a member.
            let Some(end) = (start + 1..p.len()).find(|&i| p[i] == ']') else { return false };
            let set = &p[start..end];
            let Some(c) = n.first() else { return false };
            let mut i = 0;
            let mut hit = false;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == '-' { hit |= set[i] <= *c && *c <= set[i + 2]; i += 3; } else { hit |= set[i] == *c; i += 1; }
            }
            hit != neg && matches(&p[end + 1..], &n[1..])
        },
        Some(c) => n.first() == Some(c) && matches(&p[1..], &n[1..]),
    }
}
fn valid(pattern: &str) -> bool {
    for c in pattern.split('/') {
        if c.contains("***") || (c.contains("**") && c != "**") { return false; }
        let cs: Vec<char> = c.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '[' {
                let start = if cs.get(i + 1) == Some(&'!') { i + 2 } else { i + 1 };
                match (start + 1..cs.len()).find(|&j| cs[j] == ']') { Some(j) => i = j, None => return false }
            }
            i += 1;
        }
    }
    true
}
fn expand(parts: &[&str], at: &str, tree: &[String]) -> Vec<String> {
    let kids = |at: &str| -> Vec<String> {
        tree.iter().filter(|p| p.strip_prefix(at).is_some_and(|r| !r.is_empty() && !r[usize::from(!at.is_empty())..].contains('/') && (at.is_empty() || r.starts_with('/')))).cloned().collect()
    };
    let Some((p, rest)) = parts.split_first() else { return vec![at.to_owned()] };
    if *p == "**" {
        // Any number of directories.
        let mut out = if rest.is_empty() { vec![] } else { expand(rest, at, tree) };
        for k in kids(at) { if Path::new(&k).is_dir() { if rest.is_empty() { out.push(k.clone()); } out.extend(expand(parts, &k, tree)); } }
        return out;
    }
    if !p.contains(['*', '?', '[']) {
        // A plain name is looked up, through links.
        let k = if at.is_empty() { p.to_string() } else { format!("{at}/{p}") };
        return if Path::new(&k).exists() { expand(rest, &k, tree) } else { vec![] };
    }
    let pc: Vec<char> = p.chars().collect();
    kids(at).into_iter().filter(|k| matches(&pc, &k.rsplit('/').next().unwrap().chars().collect::<Vec<_>>()))
        .filter(|k| rest.is_empty() || Path::new(k).is_dir()).flat_map(|k| expand(rest, &k, tree)).collect()
}

fn name_cmp(a: &str, b: &str) -> Ordering { a.split('/').map(str::as_bytes).cmp(b.split('/').map(str::as_bytes)) }
fn extension(p: &str) -> Option<&str> {
    let n = p.rsplit('/').next().unwrap();
    match n.rfind('.') { Some(0) | None => None, Some(i) => Some(&n[i + 1..]) }
}

const NAMES: &[&str] = &["a.md", "b.md", "a.txt", "b", "c.MD", "é.md", ".hid", "x y.txt", "10", "9", "s", "s/a.md", "s/b.txt", "s/t/q.txt", "z.d", "z.d/a.md", "s.md", "s/t", "[b]", "a", "b.md.txt", "s-1", "s-1/x", "a.bak", "b~", "#b#", "x.tmp", ".git/config", "node_modules/m", "s/.DS_Store", "y.sex", "y.html", "lost+found", "A.md", "a.md.", "...", "s/Thumbs.db"];
const PATTERNS: &[&str] = &["g/*", "g/*.md", "g/**/*", "g/*/*", "g/s/*", "g/**/*.txt", "g/?.md", "g/[ab]*", "g/[!a]*", "g/a.md", "g/no*", "g", "*/*.md", "g/*.*", "g/[a-c].*", "g/**/a.md", "g/s*/*", "g/*d", "**/q.txt", "g/s", "g/é*", "g/x ?.txt", "g/.h*", "g/[[]b]", "g/**/*.md", "g/s/t/q.txt"];
const INVALID: &[&str] = &["g/***", "g/a**", "g/[", "g/**b", "g/[!]", "[", "g/[]"];

impl Prop for C26 {
    fn id(&self) -> &'static str { "C26" }
    fn rule(&self) -> &'static str {
        "Random directory trees (nested, with and without extensions, hidden, spaces, equal and different times, symbolic links) x patterns x :type, :sort and :order; the strings given must be exactly the matching paths of that type, once each, in the order asked for, the reverse order being the exact reverse; invalid patterns and options are rejected. Non-trivial: at least two paths given."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 1_500_000 } else { 45_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        clear(&["g", "h"]);
        let n = 1 + if s.chance(1, 40) { 30 + s.below(80) } else { s.below(14) };
        let mut tree: BTreeMap<String, &str> = BTreeMap::new();
        tree.insert("g".into(), "dir");
        for _ in 0..n {
            let name = if n > 14 && s.chance(3, 4) { format!("{}{}{}", s.pick(&["", "s/", "s/t/", "s-1/", "n/o/p/q/"]), s.pick(&["f", "é", "a long name with blanks "]).repeat(1 + s.below(5)), s.below(120)) + s.pick(&["", ".md", ".txt", ".MD", ".sex", ".html", "~"]) } else { s.pick(NAMES).to_owned() };
            let path = format!("g/{name}");
            if tree.contains_key(&path) { continue; }
            // Parents are directories.
            let parents: Vec<String> = path.match_indices('/').map(|(i, _)| path[..i].to_owned()).collect();
            if parents.iter().any(|p| tree.get(p).is_some_and(|k| *k != "dir")) { continue; }
            for p in parents { tree.insert(p, "dir"); }
            let kind = if matches!(&*name, "s" | "z.d" | "s/t" | "s-1") || s.chance(1, 12) { "dir" } else { s.choose(&["file", "file", "file", "file", "file", "file", "link", "dangling", "way"]) };
            // (Links to directories are followed, and what is in them belongs to the tree.)
            if kind == "way" {
                if tree.keys().any(|p| p.starts_with(&format!("{path}/"))) { continue; }
                tree.insert(format!("{path}/target"), "beyond");
            }
            tree.insert(path, kind);
        }
        let base = SystemTime::UNIX_EPOCH + Duration::from_secs(1_600_000_000);
        fs::create_dir_all("h").unwrap();
        fs::write("h/target", "x").unwrap();
        let mut shown = String::new();
        for (p, k) in &tree {
            let up = "../".repeat(p.matches('/').count());
            match *k {
                "dir" => fs::create_dir_all(p).unwrap(),
                "file" => fs::write(p, "x").unwrap(),
                "link" => std::os::unix::fs::symlink(format!("{up}h/target"), p).unwrap(),
                "way" => std::os::unix::fs::symlink(format!("{up}h"), p).unwrap(),
                "beyond" => {},
                _ => std::os::unix::fs::symlink("nowhere", p).unwrap(),
            }
        }
        // Times last: creating entries changes their directories.
        for (p, k) in tree.iter().rev() {
            let t = s.below(4) as u64;
            if matches!(*k, "dir" | "file") {
                let f = fs::File::open(p).unwrap();
                f.set_modified(base + Duration::from_secs(t * 1000) + Duration::from_nanos(if t == 2 { s.below(3) as u64 } else { 0 })).unwrap();
            }
            shown += &format!("\n{p} {k} {t}");
        }
        let pattern = if s.chance(1, 25) { s.pick(INVALID) } else if s.chance(1, 2) { s.pick(&["g/*", "g/**/*", "g/*.*", "g/[!s]*", "g/**/*.md"]) } else { s.pick(PATTERNS) };
        let mut opts: Vec<(&str, &str)> = vec![];
        if s.chance(1, 2) { opts.push(("type", if s.chance(1, 20) { "link" } else { s.pick(&["file", "directory", "any"]) })); }
        if s.chance(4, 5) { opts.push(("sort", if s.chance(1, 20) { "size" } else { s.pick(&["name", "type", "modified", "created", "none"]) })); }
        if s.chance(1, 2) { opts.push(("order", if s.chance(1, 20) { "up" } else { s.pick(&["ascending", "descending"]) })); }
        let mut args = vec![if pattern.contains(' ') || s.chance(1, 2) { st(pattern) } else { sym(pattern) }];
        for (k, v) in &opts { let a = at(*k, if s.chance(1, 4) { st(*v) } else { sym(*v) }); let i = s.below(args.len() + 1); args.insert(i, a); }
        let c = call("glob", args);
        let wrapped = s.chance(1, 3);
        let (src, _) = render(s, &[if wrapped { call("list", vec![c]) } else { c }], Layout::Plain, "<stdin>");
        about_to_run(s, cx, format!("{src}{shown}"));
        let opt = |k: &str| opts.iter().find(|o| o.0 == k).map(|o| o.1);
        let fine = valid(pattern) && opt("type").is_none_or(|t| t != "link") && opt("sort").is_none_or(|t| t != "size") && opt("order").is_none_or(|t| t != "up");
        let got = match seam_expand(&src, &Env::default()) {
            Ok(mut t) if wrapped && t.len() == 1 => match t.pop().unwrap() { N::List { kids, .. } => kids, n => return bad(format!("gives {}", show(&n))) },
            Ok(_) if wrapped => return bad("not one list".to_string()),
            Ok(t) => t,
            Err(e) => return if fine { bad(format!("rejected: {}", e.msg)) } else { cx.label("rejected"); Ok(()) },
        };
        if !fine { return bad(format!("must be rejected, but gives {}", show_all(&got))); }
        let mut paths = vec![];
        for n in &got { match n { N::Str(a) => paths.push(a.val.clone()), n => return bad(format!("gives {}", show(n))) } }
        for (i, n) in got.iter().enumerate() {
            let ws = &n.atom().unwrap().ws;
            if (i > 0 && ws != " ") || (i == 0 && !wrapped && !ws.is_empty()) { return bad(format!("{} is preceded by {ws:?}", show(n))); }
        }
        // The expected set.
        let mut all: Vec<String> = tree.keys().cloned().collect();
        all.push("h".into()); all.push("h/target".into());
        let kind = |p: &str| match tree.get(p) { Some(&"link" | &"file" | &"beyond") => "file", Some(&"dir" | &"way") => "directory", Some(_) => "dangling", None => if p == "h" { "directory" } else { "file" } };
        let mut want: Vec<String> = expand(&pattern.split('/').collect::<Vec<_>>(), "", &all);
        want.retain(|p| opt("type").is_none_or(|t| t == "any" || t == kind(p)));
        want.sort(); want.dedup();
        // Whether plain names find dangling links is left to the glob library.
        let plain = !pattern.rsplit('/').next().unwrap().contains(['*', '?', '[']);
        if plain && want.iter().chain(&paths).any(|p| kind(p) == "dangling") { return discard("dangling link found by name"); }
        let mut sorted = paths.clone();
        sorted.sort();
        if sorted != want { return bad(format!("gives {sorted:?}, want {want:?} in some order")); }
        // The order asked for.
        let mtime = |p: &str| fs::metadata(p).or_else(|_| fs::symlink_metadata(p)).unwrap();
        let by = opt("sort").unwrap_or("none");
        if opt("order") == Some("descending") { paths.reverse(); }
        for w in paths.windows(2) {
            let (a, b) = (w[0].as_str(), w[1].as_str());
            let o = match by {
                "name" => name_cmp(a, b),
                "modified" => mtime(b).modified().unwrap().cmp(&mtime(a).modified().unwrap()).then(name_cmp(a, b)),
                "created" => mtime(b).created().unwrap().cmp(&mtime(a).created().unwrap()).then(name_cmp(a, b)),
                "type" => match (kind(a), kind(b)) {
                    ("directory", "file") => Ordering::Less,
                    ("file", "directory") => Ordering::Greater,
                    ("dangling", _) | (_, "dangling") => Ordering::Less,
                    _ => extension(a).map(str::as_bytes).cmp(&extension(b).map(str::as_bytes)).then(name_cmp(a, b)),
                },
                _ => Ordering::Less,
            };
            if o != Ordering::Less { return bad(format!("by {by}, {a:?} and {b:?} are in the wrong order: {paths:?}")); }
        }
        cx.label(&format!("by {by}"));
        cx.nontrivial = paths.len() >= 2;
        Ok(())
    }
}
