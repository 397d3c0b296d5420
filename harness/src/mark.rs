//! Generators of markup: elements, special contents, style sheets.

use crate::engine::*;
use crate::gen::*;
use crate::model::formats::VOID;
use crate::prog::{Pg, K};

pub struct Mk {
    /// One in this many choices breaks a rule (0: never).
    pub wild: u64,
    /// One in this many nodes comes out of a macro (0: never).
    pub macros: u64,
    /// Element names and keywords stay within what markup allows.
    pub sane: bool,
    pub html: bool,
    /// XML itself, not foreign content of HTML.
    pub xml: bool,
    pub foreign: u64,
    pub nasty: u64,
    budget: i64,
}

const TAGS: &[&str] = &["p", "div", "span", "a", "ul", "li", "h1", "em", "Section", "my-tag", "DIV", "table", "b", "html", "body", "head", "template", "iframe", "noscript", "xmp", "option", "foreignObject"];
const XTAGS: &[&str] = &["item", "a", "ns:b", "Para", "x-y", "style", "br", "é", "_1", "title", "pre", "foreignObject", "desc", "annotation-xml", "mtext", "script", "textarea", "svg", "math", "g", "image"];
const NASTY: &[&str] = &["<b>", "</p>", "\"", "' onclick='x", "\" id=\"y", "&", "&amp;", "&lt;script&gt;", "&#60;", "]]>", "-->", "<!--", "a&b;c", ">", "\u{0}", "é<字", "</div><div>", "<![CDATA[", "&quot;", "\n<\t"];

impl Mk {
    pub fn new(html: bool, wild: u64, macros: u64) -> Self { Mk { wild, macros, sane: false, html, xml: !html, foreign: 2, nasty: 1, budget: 60 } }
    fn go_wild(&self, s: &mut Src) -> bool { self.wild > 0 && s.chance(1, self.wild) }

    pub fn content_text(&mut self, s: &mut Src) -> String {
        match s.weighted(&[4, 2 * self.nasty, 2]) {
            0 => mild_text(s),
            1 => { let n = 1 + s.below(3); (0..n).map(|_| s.pick(NASTY)).collect() },
            _ => any_text(s, 12),
        }
    }
    pub fn atom(&mut self, s: &mut Src) -> G {
        let g = match s.weighted(&[5, 1, 4, 1 + self.nasty, if self.macros > 0 { 1 } else { 0 }]) {
            0 => sym(word(s)),
            1 => { let n = s.pick(NUMBERS); let n = if s.chance(1, 4) { format!("{n}{}", s.pick(NASTY).replace('\0', "")) } else { n.to_owned() }; sym(n) },
            2 => st(self.content_text(s)),
            3 => sym(any_symbol(s)),
            _ => call(s.pick(&["raw", "string", "concat"]), vec![st(self.content_text(s))]),
        };
        if s.chance(1, 8) { G::Glued(Box::new(g)) } else { g }
    }
    fn key(&mut self, s: &mut Src) -> String {
        if self.sane || s.chance(5, 6) { s.pick(&["id", "class", "href", "data-x", "lang", "style", "k", "xml:lang", "xmlns", "xmlns:x", "onclick", "ID", "value", "x", "a", "z", "title", "alt"]).to_owned() } else { keyword(s) }
    }
    pub fn attr(&mut self, s: &mut Src) -> G {
        let k = self.key(s);
        let v = if self.go_wild(s) { ls(vec![self.atom(s)]) } else { self.atom(s) };
        // A keyword needs its value to be one node.
        at(k, v)
    }
    fn maybe_macro(&mut self, s: &mut Src, g: G) -> G {
        if self.macros == 0 || !s.chance(1, self.macros) { return g; }
        match s.below(5) {
            0 => call("do", vec![g]),
            1 => call("ifdef", vec![sym("nope"), sym("x"), g]),
            2 => call("for", vec![sym("i"), sym("in"), ls(vec![sym("1"), sym("2")]), g]),
            3 => call("strip", vec![g]),
            _ => call("splat", vec![call("list", vec![g])]),
        }
    }
    pub fn node(&mut self, s: &mut Src, d: usize) -> G {
        self.budget -= 1;
        let d = if self.budget < 0 { 0 } else { d };
        let g = match s.weighted(&[5, if d > 0 { 7 } else { 0 }]) {
            0 => self.atom(s),
            _ => self.element(s, d - 1),
        };
        if self.go_wild(s) { return match s.below(3) { 0 => ls(vec![]), 1 => self.attr(s), _ => ls(vec![self.atom(s), g]) }; }
        self.maybe_macro(s, g)
    }
    pub fn nodes(&mut self, s: &mut Src, d: usize, max: usize) -> Vec<G> {
        let mut v = vec![];
        while v.len() < max && s.chance(3, 4) { v.push(self.node(s, d)); }
        v
    }
    pub fn attrs(&mut self, s: &mut Src) -> Vec<G> {
        let mut v = vec![];
        while v.len() < 4 && s.chance(2, 5) { v.push(self.attr(s)); }
        v
    }
    pub fn declaration(&mut self, s: &mut Src) -> G {
        let mut v = vec![sym(if self.html { s.pick(&["!doctype", "!DOCTYPE", "!x"]) } else { s.pick(&["!DOCTYPE", "?xml-stylesheet", "?php", "!ELEMENT", "?XML"]) })];
        let n = s.below(4);
        for _ in 0..n {
            let w = sym(s.pick(&["html", "PUBLIC", "a", "1.0", "x<y"]));
            v.push(if !self.html && s.chance(1, 2) { at(s.pick(&["version", "href", "encoding"]), st(s.pick(&["1.0", "UTF-8", "a b", "q\"<"]))) } else { w });
        }
        if self.go_wild(s) { v.push(st("word")); }
        ls(v)
    }
    pub fn element(&mut self, s: &mut Src, d: usize) -> G {
        if self.html {
            let k = s.weighted(&[10, 2, 1, self.foreign]);
            match k {
                1 => {
                    let t = s.pick(&VOID);
                    let mut v = vec![sym(self.case(s, t))];
                    v.extend(self.attrs(s));
                    if self.go_wild(s) { v.push(self.atom(s)); }
                    return ls(v);
                },
                2 => return self.declaration(s),
                3 => return self.special(s, d),
                _ => {},
            }
        } else if s.chance(1, 10) {
            return self.declaration(s);
        }
        let name = if !self.sane && s.chance(1, 12) { any_symbol(s) } else { s.pick(if self.html { TAGS } else { XTAGS }).to_owned() };
        let name = if name == "style" && self.xml && s.chance(1, 3) { "STYLE".to_owned() } else { name };
        let mut v = vec![sym(name)];
        v.extend(self.attrs(s));
        v.extend(self.nodes(s, d, 5));
        if self.go_wild(s) { let a = self.attr(s); let i = s.below(v.len() + 1); v.insert(i, a); }
        ls(v)
    }
    fn case(&mut self, s: &mut Src, t: &str) -> String {
        match s.below(6) { 0 => t.to_uppercase(), 1 => { let mut c = t.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }, _ => t.to_owned() }
    }
    /// Elements whose content is not HTML.
    pub fn special(&mut self, s: &mut Src, d: usize) -> G {
        let tag = s.pick(&["pre", "textarea", "title", "style", "script", "svg", "math"]);
        let mut v = vec![sym(self.case(s, tag))];
        v.extend(self.attrs(s));
        match tag {
            "pre" => {
                // The first node comes straight from the source.
                if s.chance(5, 6) {
                    v.push(if s.chance(1, 2) { sym(word(s)) } else { match self.plain(s, d) { G::Attr(..) => st("a\"b"), g => g } });
                    let keep = self.macros;
                    v.extend((0..s.below(4)).map(|_| self.plain(s, d)).collect::<Vec<_>>());
                    if keep > 0 && s.chance(1, 3) { v.push(call("do", vec![sym("x"), st("y z")])); }
                }
            },
            "textarea" | "title" => { if self.macros > 0 && s.chance(1, 4) { v.push(sym("w")); v.push(call(s.pick(&["raw", "string"]), vec![st(s.pick(NASTY))])); } let n = s.below(4); for _ in 0..n { let g = self.plain(s, d); v.push(if matches!(g, G::Attr(..)) && v.iter().all(|x| matches!(x, G::Attr(..) | G::Sym(_))) { sym("w") } else { self.maybe_macro(s, g) }); } },
            "style" => match s.below(4) {
                0 => { v.push(st(self.content_text(s))); if self.go_wild(s) { v.push(sym("p")); } },
                _ => { let c = self.sheet(s); v.extend(c); },
            },
            "script" => { let n = s.below(4); let mut first = true; for _ in 0..n { let g = self.plain(s, d); if first && matches!(g, G::Attr(..)) { continue; } first = false; v.push(self.maybe_macro(s, g)); } },
            _ => { let h = std::mem::replace(&mut self.html, false); v.extend(self.nodes(s, d, 4)); self.html = h; },
        }
        ls(v)
    }
    /// Any source text without macros.
    pub fn plain(&mut self, s: &mut Src, d: usize) -> G { tree(s, d.min(2), true) }

    // ------------------------------------------------------------- css

    pub fn value(&mut self, s: &mut Src, d: usize) -> G {
        if self.go_wild(s) { return match s.below(3) { 0 => at("k", sym("v")), 1 => ls(vec![]), _ => ls(vec![st(""), sym("x")]) }; }
        match s.weighted(&[6, 3, 2, if d > 0 { 5 } else { 0 }, if self.macros > 0 { 1 } else { 0 }]) {
            0 => sym(s.pick(&["red", "10px", "auto", "1.5em", "#fff", "a", "solid", "50%", "-1", "inherit", "!important", "0px", "0%", "0.5em", ".5", "100%", "#FFFFFF", "#000000", "RED", "none", "bold", "0s", "1px", "a/b", "a,b", "U+26", "1e3", "--x"])),
            1 => st(s.pick(&["two words", "", "x", "a  b", " lead", "tab\there", "q\"uote it", "Font Name", "é", "a;b", "new\nline", "\u{a0}"])),
            2 => sym(s.pick(&["0", "1", "2", "+5", "00", "0.0", "1.0", "-0", "0.50", "1000000"])),
            3 => {
                let head = if s.chance(1, 3) { s.pick(&crate::model::formats::FUNCTIONS) } else { s.pick(&["rgb", "rgba", "hsla", "calc", "+", "-", "*", "/", "url", "translate", "auto", "10px", "solid", "var", "scaleX", "linear-gradient", "supports", "unknown-fn", "RGB", "colour", "rgba(", "rotatex"]) };
                let mut v = vec![sym(head)];
                let n = s.below(4);
                for _ in 0..n { v.push(self.value(s, d - 1)); }
                ls(v)
            },
            _ => call(s.pick(&["raw", "string"]), vec![st(s.pick(&["a b", "\"q\"", "x;y"]))]),
        }
    }
    fn property(&mut self, s: &mut Src) -> G { at(s.pick(&["color", "margin", "font-family", "--x", "width", "-moz-y", "content"]), self.value(s, 3)) }
    fn selector(&mut self, s: &mut Src) -> G {
        match s.weighted(&[8, 2, 1]) { 0 => sym(s.pick(&["p", ".c", "#id", "a:hover", "ul", ">", "*", "body", "h1,", "h2", "[x=y]", "~", "li::before"])), 1 => st(s.pick(&["a > b", "x", "p:not(.c)"])), _ => sym(s.pick(NUMBERS)) }
    }
    pub fn rule(&mut self, s: &mut Src, d: usize) -> G {
        let kind = s.weighted(&[8, 1, 2, if d > 0 { 3 } else { 1 }]);
        let mut v = vec![];
        match kind {
            0 => { let n = 1 + s.below(3); for _ in 0..n { v.push(self.selector(s)); } let n = 1 + s.below(3); for _ in 0..n { v.push(self.property(s)); } },
            1 => { v.push(sym(s.pick(&["@font-face", "@page", "@property"]))); if s.chance(1, 2) { v.push(sym(":first")); } let n = 1 + s.below(3); for _ in 0..n { v.push(self.property(s)); } },
            2 => {
                v.push(sym(s.pick(&["@charset", "@import", "@namespace"])));
                let n = s.below(4);
                for _ in 0..n { v.push(if s.chance(1, 4) { at(s.pick(&["media", "width"]), self.value(s, 1)) } else { self.value(s, 2) }); }
            },
            _ => {
                v.push(sym(s.pick(&["@media", "@keyframes", "@supports", "@document", "@counter-style", "@font-feature-values"])));
                let n = s.below(3);
                for _ in 0..n { v.push(if s.chance(1, 2) { at(s.pick(&["max-width", "min-height"]), self.value(s, 1)) } else { sym(s.pick(&["screen", "and", "print", "slide", "not"])) }); }
                if d > 0 { let n = s.below(4); for _ in 0..n { let r = self.rule(s, d - 1); let r = self.maybe_macro(s, r); v.push(r); } }
                if self.go_wild(s) { v.push(if s.chance(1, 2) { sym("late") } else { at("late", sym("x")) }); }
            },
        }
        if self.go_wild(s) {
            match s.below(5) {
                0 => { v.insert(0, ls(vec![])); },
                1 => { v.retain(|g| !matches!(g, G::Attr(..))); },
                2 => { let g = self.selector(s); v.push(g); },
                3 => { v.retain(|g| matches!(g, G::Attr(..))); },
                _ => { let i = s.below(v.len() + 1); let g = ls(vec![sym("x"), at("k", sym("v"))]); v.insert(i, g); },
            }
        }
        ls(v)
    }
    pub fn sheet(&mut self, s: &mut Src) -> Vec<G> {
        let n = s.below(4);
        let mut v = vec![];
        for _ in 0..n { let r = self.rule(s, 2); v.push(if self.go_wild(s) { self.atom(s) } else { self.maybe_macro(s, r) }); }
        v
    }
}

/// Whole programs with macros, of which the markup consists.
pub fn program(s: &mut Src, wild: u64) -> Vec<G> {
    let mut p = Pg::new(&[("raw", 3), ("symbol", 0), ("number", 0)], wild);
    let _ = K::Items;
    p.program(s)
}
