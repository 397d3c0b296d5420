//! The proleptic Gregorian calendar and strftime, from their definitions.

const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
const DAYS: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];

pub fn leap(y: i64) -> bool { y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0) }
pub fn days_in(y: i64, m: i64) -> i64 { match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
/// Days from 1970-01-01 to the first of January.
fn year_start(y: i64) -> i64 {
    // Leap days in the years before y, counted from year 0.
    let p = y - 1;
    let leaps = p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    let p0 = 1969i64;
    let leaps0 = p0.div_euclid(4) - p0.div_euclid(100) + p0.div_euclid(400);
    (y - 1970) * 365 + leaps - leaps0
}
pub fn days_of(y: i64, m: i64, d: i64) -> i64 { year_start(y) + (1..m).map(|k| days_in(y, k)).sum::<i64>() + d - 1 }

#[derive(Clone, Copy, Debug)]
pub struct When { pub y: i64, pub m: i64, pub d: i64, pub hh: i64, pub mm: i64, pub ss: i64, pub days: i64, pub unix: i64, pub off: i64 }

pub fn moment(unix: i64, off: i64) -> When {
    let local = unix + off;
    let days = local.div_euclid(86400);
    let rest = local.rem_euclid(86400);
    // Estimate the year, then correct it.
    let mut y = 1970 + days.div_euclid(366);
    while year_start(y + 1) <= days { y += 1 + (days - year_start(y + 1)) / 366; }
    while year_start(y) > days { y -= 1; }
    let mut d = days - year_start(y);
    let mut m = 1;
    while d >= days_in(y, m) { d -= days_in(y, m); m += 1; }
    When { y, m, d: d + 1, hh: rest / 3600, mm: rest / 60 % 60, ss: rest % 60, days, unix, off }
}
pub fn unix(y: i64, m: i64, d: i64, hh: i64, mm: i64, ss: i64, off: i64) -> i64 { days_of(y, m, d) * 86400 + hh * 3600 + mm * 60 + ss - off }

impl When {
    /// 0 is Monday.
    pub fn weekday(&self) -> i64 { (self.days + 3).rem_euclid(7) }
    fn yday(&self) -> i64 { self.days - year_start(self.y) + 1 }
    /// ISO year and week: the week belongs to the year of its Thursday.
    pub fn iso(&self) -> (i64, i64) {
        let thursday = self.days - self.weekday() + 3;
        let y = [self.y - 1, self.y, self.y + 1].into_iter().find(|&y| year_start(y) <= thursday && thursday < year_start(y + 1)).unwrap();
        (y, (thursday - year_start(y)) / 7 + 1)
    }
    /// Weeks starting with a given weekday (0 is Monday); days before the first are in week 0.
    fn week_from(&self, first: i64) -> i64 {
        let since = (self.weekday() - first).rem_euclid(7);
        // Day of the year on which this week started.
        let start = self.yday() - since;
        if start < 1 { 0 } else { (start - 1) / 7 + 1 }
    }
}

fn offset(off: i64, colon: bool, secs: bool) -> String {
    let (sign, a) = if off < 0 { ('-', -off) } else { ('+', off) };
    let c = if colon { ":" } else { "" };
    if secs { return format!("{sign}{:02}{c}{:02}{c}{:02}", a / 3600, a / 60 % 60, a % 60); }
    let m = (a + 30) / 60;
    format!("{sign}{:02}{c}{:02}", m / 60, m % 60)
}

/// `None`: not a valid format.
pub fn strftime(f: &str, w: &When) -> Option<String> {
    let mut out = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        if c != '%' { out.push(c); continue; }
        let mut c = it.next()?;
        let pad = match c { '-' => Some(' '), '_' => Some('_'), '0' => Some('0'), _ => None };
        if pad.is_some() { c = it.next()?; }
        let num = |v: i64, width: usize, dflt: char| -> String {
            match match pad { Some(' ') => 'n', Some(p) => p, None => dflt } { 'n' => v.to_string(), '_' => format!("{v:width$}"), _ => format!("{v:0width$}") }
        };
        let year = |y: i64| if (0..10_000).contains(&y) { num(y, 4, '0') } else {
            match pad { Some(' ') => format!("{y:+}"), Some('_') => format!("{y:+5}"), _ => format!("{y:+05}") } };
        let (iy, iw) = w.iso();
        let h12 = match w.hh % 12 { 0 => 12, h => h };
        let numeric = match c {
            'Y' => Some(year(w.y)), 'G' => Some(year(iy)),
            'C' => Some(num(w.y.div_euclid(100), 2, '0')), 'y' => Some(num(w.y.rem_euclid(100), 2, '0')), 'g' => Some(num(iy.rem_euclid(100), 2, '0')),
            'm' => Some(num(w.m, 2, '0')), 'd' => Some(num(w.d, 2, '0')), 'e' => Some(num(w.d, 2, '_')),
            'j' => Some(num(w.yday(), 3, '0')), 'U' => Some(num(w.week_from(6), 2, '0')), 'W' => Some(num(w.week_from(0), 2, '0')), 'V' => Some(num(iw, 2, '0')),
            'H' => Some(num(w.hh, 2, '0')), 'k' => Some(num(w.hh, 2, '_')), 'I' => Some(num(h12, 2, '0')), 'l' => Some(num(h12, 2, '_')),
            'M' => Some(num(w.mm, 2, '0')), 'S' => Some(num(w.ss, 2, '0')),
            'u' if pad.is_none() => Some((w.weekday() + 1).to_string()), 'w' if pad.is_none() => Some(((w.weekday() + 1) % 7).to_string()),
            's' if pad.is_none() => Some(w.unix.to_string()),
            _ => None,
        };
        if let Some(t) = numeric { out += &t; continue; }
        if pad.is_some() { return None; }
        let sub = |f: &str| strftime(f, w).unwrap();
        match c {
            'a' => out += &DAYS[w.weekday() as usize][..3], 'A' => out += DAYS[w.weekday() as usize],
            'b' | 'h' => out += &MONTHS[w.m as usize - 1][..3], 'B' => out += MONTHS[w.m as usize - 1],
            'p' => out += if w.hh < 12 { "AM" } else { "PM" }, 'P' => out += if w.hh < 12 { "am" } else { "pm" },
            'D' | 'x' => out += &sub("%m/%d/%y"), 'F' => out += &sub("%Y-%m-%d"), 'v' => out += &sub("%e-%b-%Y"),
            'R' => out += &sub("%H:%M"), 'T' | 'X' => out += &sub("%H:%M:%S"), 'r' => out += &sub("%I:%M:%S %p"),
            'c' => out += &sub("%a %b %e %H:%M:%S %Y"),
            'z' => out += &offset(w.off, false, false),
            ':' => { let mut k = 1; loop { match it.next()? { ':' => k += 1, 'z' => break, _ => return None } } match k { 1 => out += &offset(w.off, true, false), 2 => out += &offset(w.off, true, true), _ => return None } },
            'f' => out += "000000000",
            '.' => match it.next()? { 'f' => {}, c @ ('3' | '6' | '9') => { if it.next()? != 'f' { return None; } out.push('.'); out += &"000000000"[..c as usize - '0' as usize]; }, _ => return None },
            '3' | '6' | '9' => { if it.next()? != 'f' { return None; } out += &"000000000"[..c as usize - '0' as usize]; },
            '+' => { out += &sub("%Y-%m-%dT%H:%M:%S"); out += &offset(w.off, true, false); },
            'n' => out.push('\n'), 't' => out.push('\t'), '%' => out.push('%'),
            _ => return None,
        }
    }
    Some(out)
}
