//! C20: dates.

use crate::engine::*;
use crate::gen::*;
use crate::model::{time::*, tree::N};
use crate::util::*;

pub struct C20;

const MIN: i64 = -8334601228800;
const MAX: i64 = 8210266876799;

fn instant(s: &mut Src) -> i64 {
    match s.weighted(&[4, 4, 3, 3, 1, 1]) {
        0 => s.range(0, 4_102_444_800),
        1 => {
            // Around the turns of years, months, days.
            let y = s.choose(&[1970, 2000, 1900, 2024, 2023, 2100, 1969, 1600, 2038, 0, -1, 1, 9999, 10000, 4, 2020, 2026, 1999, 2009]);
            let m = s.range(1, 12);
            let d = s.choose(&[1, 28, 29, 30, 31, 15]);
            let d = d.min(days_in(y, m));
            unix(y, m, d, s.choose(&[0, 23, 12, 11, 1, 13]), s.choose(&[0, 59, 30]), s.choose(&[0, 59, 1]), 0)
        },
        2 => s.range(-62_167_219_200, 253_402_300_799),
        3 => s.choose(&[0, -1, 1, 86399, 86400, -86400, 951_782_400, 1_709_164_800, 2_147_483_647, 2_147_483_648, -2_147_483_648, -62_167_219_200, -62_167_219_201, 253_402_300_799, 253_402_300_800]),
        4 => s.range(MIN + 86400, MAX - 86400),
        _ => s.choose(&[MIN, MAX, MIN - 1, MAX + 1, i64::MAX, i64::MIN, MIN + 1, MAX - 1]),
    }
}

/// An offset as written, and its seconds when valid.
fn zone(s: &mut Src) -> (String, Option<i64>) {
    let (neg, whole, frac): (bool, i64, String) = match s.weighted(&[6, 4, 2, 1]) {
        0 => (s.chance(1, 2), s.range(0, 14), String::new()),
        1 => (s.chance(1, 2), s.range(0, 14), s.pick(&["5", "25", "75", "0", "50", "125", "1"]).to_owned()),
        2 => (s.chance(1, 2), s.range(0, 23), { let n = 1 + s.below(4); (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect() }),
        _ => {
            let t = s.pick(&["24", "-24", "23.9999", "-23.9999", "1000", "99999999999", "1x", "-", "+", "5:30", "1e", "0.5.5", "-0", "23.9998"]);
            let v = match t { "23.9999" | "-23.9999" => None, "23.9998" => Some(86399), "-0" => Some(0), _ => None };
            return (t.to_owned(), v);
        },
    };
    // Exact: the value is k / 10^n hours; nearest second, halves away from zero (they do not occur here).
    let n = frac.len() as u32;
    let k = whole * 10i64.pow(n) + frac.parse::<i64>().unwrap_or(0);
    let num = k * 3600;
    let den = 10i64.pow(n);
    let secs = (2 * num + den) / (2 * den);
    let text = format!("{}{whole}{}{frac}", if neg { "-" } else { s.pick(&["", "", "+"]) }, if frac.is_empty() { "" } else { "." });
    (text, if secs < 86400 { Some(if neg { -secs } else { secs }) } else { None })
}

const SPECS: &[&str] = &["%Y", "%m", "%d", "%H", "%M", "%S", "%e", "%j", "%a", "%A", "%b", "%B", "%h", "%p", "%P", "%I", "%l", "%k", "%u", "%w", "%U", "%W", "%V", "%G", "%F", "%T", "%R", "%r", "%z", "%:z", "%::z", "%s",
    "%%", "%n", "%t", "%v", "%X", "%-d", "%-m", "%-H", "%_d", "%0e", "%-j", "%-Y", "%_m", "%c", "%f", "%.f", "%.3f", "%.6f", "%.9f", "%3f", "%6f", "%9f", "%+"];
const SMALL_YEAR: &[&str] = &["%C", "%y", "%g", "%D", "%x", "%-y"];
const BAD: &[&str] = &["%", "%Q", "%!", "%:", "%:q", "%E", "%-", "%ü", "%1", "%."];
const DATES: &[&str] = &["%Y-%m-%d", "%F", "%d/%m/%Y", "%Y %j", "%G W%V %u", "%a, %d %b %Y", "%A %e %B %Y", "%Y|%U|%w", "%Y|%W|%u", "%B %-d %Y", "%v", "%-d.%-m.%Y"];
const TIMES: &[&str] = &["%H:%M:%S", "%T", "%r", "%I-%M-%S %p", "%l:%M:%S%P", "%k h %M m %S s", "%X", "%-H:%-M:%-S", "%R:%S"];

fn invertible(s: &mut Src) -> (String, bool) {
    let (d, t) = (s.pick(DATES), s.pick(TIMES));
    let sep = s.pick(&[" ", "T", " at ", "; ", " é ", "%%", "\n"]);
    match s.below(12) {
        0 => ("%s".into(), false),
        1 => ("%c".into(), false),
        2 => ("%Y%m%d%H%M%S".into(), false),
        3 => (format!("{d}{sep}{t} {}", s.pick(&["%z", "%:z"])), true),
        4 => (format!("{t} {d}"), false),
        _ => (format!("{d}{sep}{t}"), false),
    }
}

/// Any call of %date or %timestamp, whether it makes sense or not.
pub(super) fn any_call(s: &mut Src) -> G {
    let mut f = String::new();
    for _ in 0..=s.below(4) { f += match s.below(6) { 0 => s.pick(SMALL_YEAR), 1 => s.pick(BAD), 2 => s.pick(DATES), 3 => s.pick(TIMES), _ => s.pick(SPECS) }; f += s.pick(&["", " ", "-", "é"]); }
    let n = match s.below(4) { 0 => s.choose(&[MIN, MAX, MIN - 1, MAX + 1, MIN + 3600, MAX - 3600, i64::MAX, i64::MIN, i64::MIN + 1]), _ => instant(s) };
    let mut v = if s.chance(2, 3) {
        let t = match s.below(6) { 0 => "99999999999999999999".to_owned(), 1 => "1.5".to_owned(), _ => n.to_string() };
        vec![st(f), sym(t)]
    } else {
        let t = match s.below(3) { 0 => n.to_string(), 1 => any_text(s, 12), _ => strftime(&f, &moment(n.clamp(MIN + 86400, MAX - 86400), 0)).unwrap_or_default() };
        vec![st(f), st(if s.chance(1, 4) { mutate(s, &t) } else { t })]
    };
    if s.chance(1, 2) { let z = zone(s).0; let z = if s.chance(1, 8) { s.pick(&["inf", "-inf", "1e300", "nan", "-1e300", "596524"]).to_owned() } else { z }; let i = s.below(v.len() + 1); v.insert(i, at("timezone", sym(z))); }
    let date = matches!(v.iter().filter(|g| !matches!(g, G::Attr(..))).nth(1), Some(G::Tok(..)));
    call(if date { "date" } else { "timestamp" }, v)
}

/// A whole number, now and then with a sign or zeros ahead.
fn spelled(s: &mut Src, n: i64) -> String {
    match s.below(24) { 0 if n >= 0 => format!("+{n}"), 1 if n >= 0 => format!("00{n}"), 2 if n < 0 => format!("-0{}", n.unsigned_abs()), 3 if n == 0 => "-0".to_owned(), _ => n.to_string() }
}
fn one(src: &str) -> Result<N, String> {
    match seam_expand(src, &Env::default()) {
        Ok(t) if t.len() == 1 => Ok(t.into_iter().next().unwrap()),
        Ok(t) => Err(format!("gives {} nodes", t.len())),
        Err(e) => Err(e.msg),
    }
}
fn text(g: &[G], s: &mut Src) -> String { render(s, g, Layout::Plain, "<stdin>").0 }

impl Prop for C20 {
    fn id(&self) -> &'static str { "C20" }
    fn rule(&self) -> &'static str {
        "Random instants (any year, turns of years and months, extremes) x UTC offsets (whole, fractional, invalid) x format strings (specifiers, paddings, literals, invalid): %date must equal an independent calendar and strftime; %timestamp of the printed date gives the instant back for every complete format, an offset in the date wins over the option, and impossible dates, numbers, offsets and formats are rejected. Non-trivial: a date was printed or read."
    }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 60_000_000 } else { 1_500_000 } }
    fn run(&self, s: &mut Src, cx: &mut Cx) -> R {
        let n = instant(s);
        let (tz, off) = zone(s);
        let off_opt = if s.chance(1, 8) { None } else { Some(tz) };
        let off = if off_opt.is_none() { Some(0) } else { off };
        let tz_arg = |o: &Option<String>| o.as_ref().map(|z| at("timezone", G::Tok(z.clone())));
    
        let place = |s: &mut Src, mut v: Vec<G>, o: Option<G>| { if let Some(o) = o { let i = s.below(v.len() + 1); v.insert(i, o); } v };
        match s.weighted(&[5, 5, 3, 1]) {
            // ---- printing
            0 => {
                let mut f = String::new();
                let k = s.below(5);
                for _ in 0..=k {
                    f += if (-62_167_132_800..253_402_214_400).contains(&n) && s.chance(1, 6) { s.pick(SMALL_YEAR) } else { s.pick(SPECS) };
                    f += s.pick(&["", " ", "-", "x", "é", ":", "/", "字", ", "]);
                }
                if s.chance(1, 15) { f += s.pick(BAD); }
                let num = spelled(s, n);
                let args = place(s, vec![st(f.clone()), sym(num)], tz_arg(&off_opt));
                let src = text(&[call("date", args)], s);
                about_to_run(s, cx, &src);
                let want = match off { Some(o) if (MIN..=MAX).contains(&n) => strftime(&f, &moment(n, o)), _ => None };
                match (one(&src), want) {
                    (Ok(N::Str(a)), Some(w)) if a.val == w => { cx.label("printed"); cx.nontrivial = true; Ok(()) },
                    (Err(_), None) => { cx.label("rejected"); Ok(()) },
                    (g, w) => bad(format!("got {g:?}, want {w:?}")),
                }
            },
            // ---- and back
            1 => {
                let (f, has_zone) = invertible(s);
                let (Some(o), true) = (off, (MIN + 86400..=MAX - 86400).contains(&n)) else { return discard("invalid") };
                // The date library reads no negative UNIX times.
                if f == "%s" && n < 0 { return discard("negative UNIX time"); }
                if has_zone && o % 60 != 0 { return discard("offset cannot be printed exactly"); }
                if f == "%Y%m%d%H%M%S" && !(0..10_000).contains(&moment(n, o).y) { return discard("years run into months"); }
                let num = spelled(s, n);
                let d = place(s, vec![st(f.clone()), sym(num)], tz_arg(&off_opt));
                // The offset in the date wins.
                let other = if has_zone && s.chance(1, 2) { let z = s.pick(&["0", "3", "-7.5"]); Some(G::Attr("timezone".into(), Box::new(G::Tok(z.into())))) } else { tz_arg(&off_opt) };
                let back = if s.chance(1, 2) {
                    let v = place(s, vec![st(f.clone()), call("date", d)], other);
                    call("timestamp", v)
                } else {
                    let v = place(s, vec![st(f.clone()), st(strftime(&f, &moment(n, o)).unwrap())], other);
                    call("timestamp", v)
                };
                let src = text(&[back], s);
                about_to_run(s, cx, &src);
                match one(&src) {
                    Ok(N::Num(a)) if a.val == n.to_string() => { cx.label("read back"); cx.nontrivial = true; Ok(()) },
                    g => bad(format!("got {g:?}, want the number {n}")),
                }
            },
            // ---- written dates, possible or not
            2 => {
                let (y, m, d) = (s.range(1, 2500), s.range(0, 13), s.choose(&[1, 0, 28, 29, 30, 31, 32, 15, 7]));
                let (hh, mm, ss) = (s.choose(&[0, 12, 23, 24, 11]), s.choose(&[0, 59, 60, 7]), s.choose(&[0, 59, 61, 30]));
                let valid = (1..=12).contains(&m) && d >= 1 && d <= days_in(y, m.clamp(1, 12)) && hh < 24 && mm < 60 && ss < 60;
                let junk = if s.chance(1, 10) { s.pick(&["x", " 1", "Z", "-"]) } else { "" };
                // Parts of a second are dropped: it is the second they belong to which counts.
                let (f, frac) = match s.weighted(&[3, 1, 1, 1]) {
                    0 => ("", ""), 1 => ("%.f", s.pick(&["", ".5", ".999999999", ".000000001", ".0", ".25"])), 2 => ("%.3f", s.pick(&[".500", ".999", ".001", ".000"])), _ => (".%f", s.pick(&[".5", ".999999999", ".000000001", ".1"])),
                };
                let frac = if f == ".%f" { s.pick(&[".500000000", ".999999999", ".000000001"]) } else { frac };
                let args = place(s, vec![st(format!("%Y-%m-%d %H:%M:%S{f}")), st(format!("{y:04}-{m:02}-{d:02} {hh:02}:{mm:02}:{ss:02}{frac}{junk}"))], tz_arg(&off_opt));
                let src = text(&[call("timestamp", args)], s);
                about_to_run(s, cx, &src);
                let want = match off { Some(o) if valid && junk.is_empty() => Some(unix(y, m, d, hh, mm, ss, o)), _ => None };
                match (one(&src), want) {
                    (Ok(N::Num(a)), Some(w)) if a.val == w.to_string() => { cx.label("read"); cx.nontrivial = true; Ok(()) },
                    (Err(_), None) => { cx.label("rejected"); Ok(()) },
                    (g, w) => bad(format!("got {g:?}, want {w:?}")),
                }
            },
            // ---- the present, and wrong arguments
            _ => {
                let (src, ok) = match s.below(8) {
                    0 => ("(%date \"%s\")".to_owned(), true),
                    1 => (format!("(%date \"%s\" :timezone {})", s.pick(&["5", "-11.5", "0"])), true),
                    2 => ("(%date \"%F\" \"12\")".into(), false),
                    3 => (format!("(%date \"%F\" {})", s.pick(&["1.5", "1e3", "12x", "-", "99999999999999999999", "+", "0x10"])), false),
                    4 => ("(%timestamp \"%F\" \"2020-01-01\")".into(), false),
                    5 => ("(%timestamp \"%A %F %T\" \"Monday 2024-02-29 00:00:00\")".into(), false),
                    6 => ("(%date \"%F\" 0 :timezone \"5\")".into(), false),
                    _ => ("(%timestamp \"%T\" \"00:00:00\")".into(), false),
                };
                about_to_run(s, cx, &src);
                let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
                let before = now();
                match one(&src) {
                    Ok(N::Str(a)) if ok => match a.val.parse::<u64>() { Ok(t) if before <= t && t <= now() => { cx.label("now"); Ok(()) }, _ => bad(format!("the time now is given as {:?}", a.val)) },
                    Err(_) if !ok => { cx.label("rejected"); Ok(()) },
                    g => bad(format!("got {g:?}, expected {}", if ok { "the time now" } else { "an error" })),
                }
            },
        }
    }
}
