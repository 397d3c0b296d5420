"""The third batch of planted bugs: see plant.py."""
from bugs2 import *
from bugs import bug
RULES = LX + r'''use seam::parse::macros::*;
use seam::parse::expander::ExpansionError;
#[allow(dead_code)] fn any<'t>() -> ArgType<'t> { ArgType::Any(vec![]) }
macro_rules! place { ($p:pat) => {{ fn m<'b>(b: &Box<dyn ArgMatcher + 'b>) -> bool { matches!(ArgMatcher::unwrap(&**b), $p) } m }} }
#[allow(dead_code)] fn taken<'p>(rules: ArgRules<'p, 'static>, call: &'static str) -> Result<(Vec<(String, String)>, Vec<String>), ExpansionError<'static>> {
    let t = Box::leak(Box::new(tree(call)));
    let params = Box::leak(Box::new(t[0].list().unwrap()[1..].to_vec().into_boxed_slice()));
    let p = ArgParser::new(rules, &t[0], params)?;
    let mut v: Vec<(String, String)> = p.positional.iter().map(|(k, n)| (k.to_string(), n.to_string().trim().to_string())).chain(p.named.iter().map(|(k, n)| (k.clone(), n.to_string().trim().to_string()))).collect();
    v.sort();
    Ok((v, p.trailing.iter().map(|n| n.to_string().trim().to_string()).collect()))
}
'''
# C32
bug('width-in-characters', 'C32', 'A position which covers wide or combining characters.',
    'Its width is the number of characters, not of columns.',
    [(T, '''        let text = &self.source_code[self.bytes_from_start..self.bytes_from_start + self.bytes_span];
        UnicodeWidthStr::width(text)''', '''        let text = &self.source_code[self.bytes_from_start..self.bytes_from_start + self.bytes_span];
        text.chars().count()''')],
    lib=LX + r'''fn main() { expect(tree("日本")[0].site().width() == 4, "width"); expect(tree("ab")[0].site().width() == 2, "width"); }''')
bug('line-ends-at-return', 'C32', 'A source with a carriage return within a line.',
    'The line of a position ends there.',
    [(T, "            if bytes[i] == '\\n' as u8 {", "            if bytes[i] == b'\\n' || bytes[i] == b'\\r' {")],
    lib=LX + r'''fn main() { let t = tree("(a b\rc)\nd"); expect(t[0].site().line_slice() == "(a b\rc)", "line"); }''')
bug('line-start-inclusive', 'C32', 'A position which is at the end of a line, covering a line end itself.',
    'The end of its line is searched from where it ends rather than from where it starts, so that the line is several lines.',
    [(T, '''        let mut i = self.bytes_from_start;
        let bytes''', '''        let mut i = self.bytes_from_start + self.bytes_span;
        let bytes''')],
    lib=LX + r'''fn main() { let t = tree("(a \"x\ny\" b)\nd"); let s = t[0].list().unwrap()[1].site(); expect(s.line_slice() == "(a \"x", s.line_slice()); }''')
bug('number-with-underscores', 'C32', 'A number token like `1_000`.',
    'It converts to a number although it is none.',
    [(P, "            ParseNode::Number(node) => node.value.parse().ok(),", "            ParseNode::Number(node) => node.value.replace('_', \"\").parse().ok(),")],
    lib=LX + r'''fn main() { let t = tree("1_0 12"); let a: Option<u32> = t[0].into_value(); let b: Option<u32> = t[1].into_value(); expect(a.is_none() && b == Some(12), "value"); }''')
bug('text-of-numbers', 'C32', 'The text of a number.',
    'A number counts as text.',
    [(P, '''            ParseNode::Symbol(node)
          | ParseNode::String(node)
          | ParseNode::Raw(node) => Some(node.value.as_ref()),
            _ => None,''', '''            node => node.atomic().map(|node| node.value.as_str()),''')],
    lib=LX + r'''fn main() { let t = tree("12 a"); let a: Option<&str> = t[0].into_value(); let b: Option<&str> = t[1].into_value(); expect(a.is_none() && b == Some("a"), "value"); }''')
bug('attribute-blanks-inside', 'C32', 'Changing the blanks of an attribute whose value has other ones.',
    'The value gets them as well.',
    [(P, "            Self::Attribute { ref mut leading_whitespace, .. } => *leading_whitespace = whitespace,", '''            Self::Attribute { ref mut leading_whitespace, ref mut node, .. } => {
                node.set_leading_whitespace(whitespace.clone());
                *leading_whitespace = whitespace
            },''')],
    lib=LX + r'''fn main() { let mut t = tree("(p :a  b)"); let mut n = t[0].list().unwrap()[1].clone(); n.set_leading_whitespace("\n".into()); let _ = &mut t;
    expect(n.leading_whitespace() == "\n" && n.attribute().unwrap().1.leading_whitespace() == "  ", "blanks"); }''')
bug('raw-not-owned', 'C32', 'Turning a raw string into the node which it holds.',
    'There is none.',
    [(P, '''            Self::Symbol(node)
            | Self::Number(node)
            | Self::String(node)
            | Self::Raw(node) => Some(node),
            _ => None,
        }
    }

    /// Get a reference to the parse node's underlying [`Site`].''', '''            Self::Symbol(node)
            | Self::Number(node)
            | Self::String(node) => Some(node),
            _ => None,
        }
    }

    /// Get a reference to the parse node's underlying [`Site`].''')],
    lib=LX + r'''fn main() { let t = tree("(%raw a)"); expect(t[0].atomic().is_some() && t[0].clone().into_atomic().is_some_and(|n| n.value == "a"), "raw"); }''')
bug('null-when-blank', 'C32', 'The empty string.',
    'It counts as null, like the empty list.',
    [(P, '''            Self::List { nodes, .. } => nodes.is_empty(),
            _ => false,
        }
    }

    /// Unwrap a literal''', '''            Self::List { nodes, .. } => nodes.is_empty(),
            _ => self.string().is_some_and(|node| node.value.is_empty()),
        }
    }

    /// Unwrap a literal''')],
    lib=LX + r'''fn main() { let t = tree("\"\" ()"); expect(!t[0].null() && t[1].null(), "null"); }''')
bug('print-blank-before-end', 'C32', 'Printing a list with blanks, or a comment, ahead of its end.',
    'They are left out; a comment then swallows the end.',
    [(P, "                write!(f, \"{})\", end_token.leading_whitespace)", "                write!(f, \"{})\", end_token.leading_whitespace.trim_end_matches(' '))")],
    lib=LX + r'''fn main() { let t = tree("(a b  )"); expect(t[0].to_string() == "(a b  )", &t[0].to_string()); }''')
# C33
bug('list-longer-than-types', 'C33', 'An argument which is a list with more items than its type says.',
    'It is accepted.',
    [(M, 'if arg_types.len() != 0 && nodes.len() != arg_types.len() {', 'if arg_types.len() != 0 && nodes.len() < arg_types.len() {')],
    lib=RULES + r'''fn main() { let two = ArgType::List(vec![any(), any()]); let t = tree("(a b) (a b c) (a)"); expect(two.check(&t[0]).is_ok() && two.check(&t[1]).is_err() && two.check(&t[2]).is_err(), "list"); }''')
bug('rest-types-of-values', 'C33', 'A named argument among the rest, whose value has the type that the rest is to have.',
    'It is accepted, although only the value is of that type.',
    [(M, 'trailing_rule.check(param)?;', 'trailing_rule.check(param_node)?;')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register_remaining(ArgType::Symbol(vec![])); expect(taken(r.clone(), "(f a b)").is_ok() && taken(r, "(f a :k b)").is_err(), "rest"); }''')
bug('positions-count-names', 'C33', 'A named argument ahead of a positional one.',
    'The positional one moves on by one place.',
    [(M, '''            if let ParseNode::Attribute { keyword, node, .. } = param {
                matcher = keyword.into();''', '''            if let ParseNode::Attribute { keyword, node, .. } = param {
                position += (params.len() > 4) as usize;
                matcher = keyword.as_str().into();''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register(place!(ArgPos::Int(_)), Arg::Optional(any())); r.register(place!(ArgPos::Str(_)), Arg::Optional(any()));
    let (v, _) = taken(r, "(f :k x a b c d)").unwrap(); expect(v.iter().any(|x| x == &("1".into(), "a".into())), &format!("{:?}", v)); }''')
bug('optional-makes-up', 'C33', 'A missing mandatory argument together with an optional one which is given.',
    'The optional one makes up for the mandatory one.',
    [(M, '''                        Arg::Mandatory(..) => mandatory_count += 1,
                        _ => {},
                    };
                },''', '''                        Arg::Mandatory(..) => mandatory_count += 1,
                        Arg::Optional(..) => mandatory_count += (rules.patterns.len() > 2) as usize,
                    };
                },''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register(place!(ArgPos::Int(1)), Arg::Mandatory(any())); r.register(place!(ArgPos::Int(2)), Arg::Mandatory(any())); r.register(place!(ArgPos::Str("k")), Arg::Optional(any()));
    expect(taken(r.clone(), "(f a b :k x)").is_ok() && taken(r, "(f a :k x)").is_err(), "mandatory"); }''')
bug('first-predicate-decides', 'C33', 'An argument that satisfies the second of several predicates only.',
    'It is refused when the first is a regular expression.',
    [(M, '''            Err(err) => issues.push(err),''', '''            Err(err) => { issues.push(err); if matches!(pred, ArgPredicate::Matching(..)) { break } },''')],
    lib=RULES + r'''fn main() { let t = tree("b"); let like = |s: &str| -> bool { s == "b" }; let _ = like;
    let p = vec![ArgPredicate::Exactly("a".into()), ArgPredicate::Exactly("b".into())]; expect(ArgType::Any(p).check(&t[0]).is_ok(), "exact");
    let p = vec![ArgPredicate::Matching(regex::Regex::new("^a").unwrap()), ArgPredicate::Exactly("b".into())]; expect(ArgType::Any(p).check(&t[0]).is_ok(), "predicates"); }''')
bug('exact-ignores-case', 'C33', 'An argument that differs from the exact value in case.',
    'It is accepted.',
    [(M, 'Self::Exactly(value) => if node.value == *value {', 'Self::Exactly(value) => if node.value.eq_ignore_ascii_case(value) {')],
    lib=RULES + r'''fn main() { let t = tree("IN in"); let p = ArgType::Symbol(vec![ArgPredicate::Exactly("in".into())]); expect(p.check(&t[0]).is_err() && p.check(&t[1]).is_ok(), "exact"); }''')
bug('later-rule-wins', 'C33', 'An argument whose place fits two rules.',
    'The later one counts when the types of the first one do not fit.',
    [(M, '''                let is_valid_argument = (rule.pattern)(&matcher);''', '''                let is_valid_argument = (rule.pattern)(&matcher)
                    && (position < 2 || rule.argument.argtype().check(param_node).is_ok());''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register(place!(ArgPos::Int(2)), Arg::Optional(ArgType::Number(vec![]))); r.register(place!(ArgPos::Int(_)), Arg::Optional(any()));
    expect(taken(r.clone(), "(f a 1)").is_ok() && taken(r, "(f a b)").is_err(), "rules"); }''')
bug('numbers-as-literal-only', 'C33', 'A raw string where a string is wanted.',
    'It is refused.',
    [(M, '''            ParseNode::String(..) | ParseNode::Raw(..) => match self {
                Literal(pred) | String(pred) | Any(pred) => check_all(pred, node),
                _ => Err(mismatch),
            },''', '''            ParseNode::Raw(..) if matches!(self, String(pred) if pred.is_empty()) => Err(mismatch),
            ParseNode::String(..) | ParseNode::Raw(..) => match self {
                Literal(pred) | String(pred) | Any(pred) => check_all(pred, node),
                _ => Err(mismatch),
            },'''), (M, '''            let _ = write!(error, "; or\\n");''', '''            let _ = write!(error, "; or \\n");''')],
    lib=RULES + r'''fn main() { let t = tree("(%raw a) \"a\""); expect(ArgType::String(vec![]).check(&t[1]).is_ok() && ArgType::String(vec![]).check(&t[0]).is_ok(), "raw"); }''')
# The macro crate: ranges.
Q = '../../seam_argparse_proc_macro/src/lib.rs'
DECL = LX + r'''mod parse { pub use seam::parse::*; }
use seam_argparse_proc_macro::arguments;
use seam::parse::expander::ExpansionError;
'''
bug('optional-from-next', 'C33', 'An optional positional argument which is left out, with a rest given by name.',
    'A declared field holds the argument of the place behind.',
    [(Q, '''                    let #arg_num_name: #arg_type = parser
                        .get_optional(#i)
''', '''                    let #arg_num_name: #arg_type = parser
                        .get_optional(#i).or_else(|| parser.trailing.first())
''')],
    lib=DECL + r'''fn f<'a>(node: &ParseNode<'a>, params: ParseTree<'a>) -> Result<bool, ExpansionError<'a>> {
    let (_p, args) = arguments! { [&params] mandatory(1): any, optional(2): any, rest: any, }?;
    Ok(args.number.2.is_none() && args.rest.len() == 1)
}
fn main() { let t = tree("(f a :k b)"); let n = &t[0]; let p = n.list().unwrap()[1..].to_vec().into_boxed_slice(); expect(f(n, p).is_ok_and(|x| x), "field"); }''')
bug('rest-reversed', 'C33', 'A declaration with a rest that is not of any type.',
    'The rest is in the opposite order.',
    [(Q, '''                parser.trailing
                    .iter()
                    .map(''', '''                parser.trailing
                    .iter().filter(|arg| arg.is_attribute()).chain(parser.trailing.iter().filter(|arg| !arg.is_attribute()))
                    .map(''')],
    lib=DECL + r'''fn f<'a>(node: &ParseNode<'a>, params: ParseTree<'a>) -> Result<bool, ExpansionError<'a>> {
    let (_p, args) = arguments! { [&params] mandatory(1): any, rest: any, }?;
    Ok(args.rest.len() == 3 && args.rest[1].is_attribute())
}
fn main() { let t = tree("(f a b :k c d)"); let n = &t[0]; let p = n.list().unwrap()[1..].to_vec().into_boxed_slice(); expect(f(n, p).is_ok_and(|x| x), "rest"); }''')
# C34
IO = LX + r'''#[allow(dead_code)] struct Bits(Vec<u8>, usize, usize);
impl std::io::Read for Bits { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = self.2.min(b.len()).min(self.0.len() - self.1); b[..n].copy_from_slice(&self.0[self.1..self.1 + n]); self.1 += n; Ok(n) } }
#[allow(dead_code)] fn stream(src: &str, n: usize) -> Result<String, String> {
    let mut b = Bits(src.as_bytes().to_vec(), 0, n);
    let e = seam::tree_builder_stream(&mut b).map_err(|e| e.to_string())?;
    let t = e.expand().map_err(|e| e.to_string())?;
    let f = seam::assemble::sexp::SExpFormatter::new(t);
    let r = f.display().map_err(|e| e.to_string()); r
}
struct Full(String, usize);
impl std::fmt::Write for Full { fn write_str(&mut self, s: &str) -> std::fmt::Result { for c in s.chars() { if self.0.chars().count() == self.1 { return Err(std::fmt::Error) } self.0.push(c) } Ok(()) } }
#[allow(dead_code)] fn fails(f: &dyn MarkupFormatter, n: usize) -> bool { f.generate(&mut Full(String::new(), n)).is_err() }
'''
LIB = '../src/lib.rs'
bug('stream-by-lines', 'C34', 'A stream with carriage returns, in a string say, or no line end at its end.',
    'Each line ends in a single line feed.',
    [(LIB, '''    stream.read_to_string(&mut contents)?;''', '''    for line in io::BufRead::lines(io::BufReader::new(stream)) {
        contents.push_str(&line?);
        contents.push('\\n');
    }''')],
    lib=IO + r'''fn main() { expect(stream("(a \"x\r\ny\")", 3).as_deref() == Ok(show("(a \"x\r\ny\")").as_str()), "stream"); }''')
bug('stream-lossy-bytes', 'C34', 'A stream that is not UTF-8.',
    'It is read with replacement characters instead of an error.',
    [(LIB, '''    let mut contents = String::new();
    stream.read_to_string(&mut contents)?;''', '''    let mut contents = Vec::new();
    stream.read_to_end(&mut contents)?;
    let contents = String::from_utf8_lossy(&contents).into_owned();''')],
    lib=IO + r'''fn main() { let mut b = Bits(vec![b'a', 0xff, b'b'], 0, 2); expect(seam::tree_builder_stream(&mut b).is_err(), "accepted"); }''')
bug('file-skips-mark', 'C34', 'A file that starts with a byte order mark.',
    'The mark is dropped, unlike from a string.',
    [(LIB, '''    Ok(tree_builder(Some(path), contents))''', '''    Ok(tree_builder(Some(path), contents.trim_start_matches('\\u{feff}').to_string()))''')],
    lib=LX + r'''fn main() {
    let d = std::env::temp_dir().join(format!("seam-demo-{}", std::process::id())); std::fs::create_dir(&d).unwrap();
    let f = d.join("a.sex"); std::fs::write(&f, "\u{feff}a b").unwrap();
    let e = seam::tree_builder_file(&f).unwrap(); let n = e.expand().unwrap()[0].atomic().unwrap().value.clone();
    std::fs::remove_file(&f).unwrap(); std::fs::remove_dir(&d).unwrap();
    expect(n == "\u{feff}a", "mark"); }''')
bug('text-ignores-full', 'C34', 'A writer that fails when the end of a list is written as text.',
    'The failure goes unnoticed.',
    [(PT, '''                write!(f, ")")?;''', '''                let _ = write!(f, ")");''')],
    lib=IO + r'''fn main() { let t = tree("(a b)"); let f = seam::assemble::text::PlainTextFormatter::new(t); let all = f.display().unwrap().chars().count(); for n in 0..all { expect(fails(&f, n), "not noticed"); } expect(!fails(&f, all), "failure"); }''')
bug('css-ignores-full', 'C34', 'A writer that fails in the midst of a stylesheet.',
    'The failure goes unnoticed when it happens within a value.',
    [(S, '''write!(f, ")")?;''', '''let _ = write!(f, ")");''')],
    lib=IO + r'''fn main() { let t = tree("(a (b) c)"); let f = seam::assemble::sexp::SExpFormatter::new(t); let all = f.display().unwrap().chars().count(); for n in 0..all { expect(fails(&f, n), "not noticed"); } expect(!fails(&f, all), "failure"); }''')
# C35
LEX = LX + r'''use seam::parse::lexer::Lexer;
use seam::parse::tokens::Kind;
#[allow(dead_code)] fn lexer(s: &str) -> &'static Lexer { Box::leak(Box::new(Lexer::new("x".into(), s.into()))) }
'''
bug('end-at-odd-blanks', 'C35', 'A text which ends in blanks other than ASCII ones, such as no-break spaces.',
    'These are taken for the end though they are symbols.',
    [(L, '''            self.peek_char().is_none()''', '''            self.source[self.byte_offset.get()..].trim_start().is_empty()''')],
    lib=LEX + r'''fn main() { let l = lexer("a \u{a0}"); let _ = l.consume(); expect(!l.eof(), "end"); }''')
bug('restore-forgets-column', 'C35', 'Looking ahead over a line end.',
    'The column of the following tokens is wrong.',
    [(L, '''        self.byte_offset_line.set(bol);
        self.line.set(l);''', '''        if self.line.get() == l { self.byte_offset_line.set(bol); }
        self.line.set(l);''')],
    lib=LEX + r'''fn main() { let l = lexer("abc \"\nd\" e"); let _ = l.consume(); let _ = l.peek(); let t = l.consume().unwrap(); expect(t.site.bytes_from_start_of_line == 4, "column"); }''')
bug('peek-past-errors', 'C35', 'Looking ahead at a string that is never closed.',
    'The lexer stays at its end, so that nothing is left.',
    [(L, '''        self.restore(|this: &'a Self| {
            this.consume()
        })''', '''        let (start, line) = (self.byte_offset.get(), self.line.get());
        let column = self.byte_offset_line.get();
        let token = self.consume()?;
        self.byte_offset.set(start);
        self.byte_offset_line.set(column);
        self.line.set(line);
        Ok(token)''')],
    lib=LEX + r'''fn main() { let l = lexer("a \"b"); let _ = l.consume(); expect(l.peek().is_err(), "peek"); expect(!l.eof() && l.peek().is_err() && l.consume().is_err(), "gone"); }''')
bug('end-keeps-line', 'C35', 'Testing for the end when there are several lines of blanks ahead.',
    'The lines are counted again when the token is read.',
    [(L, '''            let _ = this.consume_whitespace();
            self.peek_char().is_none()
        })''', '''            let _ = this.consume_whitespace();
            self.peek_char().is_none()
        }) || { if self.starts_with("\\n\\n\\n") { self.increment_byte_offsets(1); self.next_line(); }; false }''')],
    lib=LEX + r'''fn main() { let l = lexer("a\n\n\n\nb"); let _ = l.consume(); expect(!l.eof(), "end"); let t = l.consume().unwrap(); expect(t.leading_whitespace == "\n\n\n\n", "blanks lost"); }''')
# C36
bug('match-value-each-time', 'C36', 'A `%match` whose value has effects, with several patterns to try.',
    'The value is expanded anew for each pattern.',
    [(E, '''            let subcontext = self.clone(); // Subscope.
            if let Ok(()) = subcontext.bind(pattern, expr) {''', '''            let subcontext = self.clone(); // Subscope.
            let value_again = if pattern.is_list() { subcontext.expand_node(params[0].clone())? } else { Box::new([expr.clone()]) };
            if let Ok(()) = subcontext.bind(pattern, value_again.first().unwrap_or(expr)) {''')],
    [text('(%match (%do (%log "v") x) ((a) 1) ((b) 2) (x 3))\n', err=True)])
bug('match-patterns-ahead', 'C36', 'A `%match` with effects in patterns after the one that fits.',
    'All patterns are expanded before any is tried.',
    [(E, '''        for pattern in patterns {
            let Some(pattern_list)''', '''        for pattern in patterns {
            if let Some([first, ..]) = pattern.list().map(|list| &**list) { self.clone().expand_node(first.clone())?; }
        }
        for pattern in patterns {
            let Some(pattern_list)'''), (E, '''        // No match means no nodes are produced.
''', '')],
    [text('(%match x (x 1) ((%do (%log "late") y) 2))\n', err=True)])
bug('ifdef-both', 'C36', 'An `%ifdef` with effects in the part which is not taken.',
    'They happen nevertheless when there is an alternative.',
    [(E, '''            self.expand_node(params[1].clone())?
        } else {''', '''            params[1..].iter().rev().map(|param| self.expand_node(param.clone())).last().unwrap()?
        } else {''')],
    [text('(%define x 1)(p (%ifdef x a (%do (%log "alt") b)))\n', err=True)])
bug('define-body-twice', 'C36', 'The definition of a variable whose value, once expanded, would expand again.',
    'It is expanded again when it has several parts.',
    [(E, '''            let body = self.expand_nodes(nodes)?;''', '''            let body = self.expand_nodes(nodes).and_then(|body| if body.len() > 1 { self.clone().expand_nodes(body) } else { Ok(body) })?;''')],
    [text('(%define x (%symbol "(") (%lambda () (%log "body") b))(p %x)\n', err=True), text('(%define x (%string a) (%symbol "%y"))(%define y 1)(p %x)\n', err=True)])
bug('for-body-first', 'C36', 'A `%for` over several items whose body has effects, and an error in a later one.',
    'All items are bound before the bodies, which run from the last one to the first.',
    [(E, '''        for item in list {
            context.bind(&it, &item)?;
            let evaluated = context.expand_nodes(body.clone())?;
            expanded.extend(evaluated);
        }

        Ok(expanded.into_boxed_slice())''', '''        for item in list.iter().rev() {
            context.bind(&it, item)?;
            let evaluated = context.expand_nodes(body.clone())?;
            expanded.push(evaluated);
        }

        Ok(expanded.into_iter().rev().flat_map(|nodes| nodes.to_vec()).collect())''')],
    [text('(%for x in (a b c) (%log %x) %x)\n', err=True)])
bug('sort-keys-when-needed', 'C36', '`%sort` of a single item with a key that has effects.',
    'The key is not expanded.',
    [(E, '''        for node in nodes {
            let key = match self.expand_invocation(&key_fn, call_node, Box::new([node.clone()])) {''', '''        let single = nodes.len() == 1;
        for node in nodes {
            let key = match self.expand_invocation(if single && node.is_atomic() { "do" } else { &key_fn }, call_node, Box::new([node.clone()])) {''')],
    [text('(%define (k x) (%log %x) %x)(p (%sort (a) :key k))\n', err=True)])
bug('filter-twice', 'C36', '`%filter` with a function which has effects.',
    'It is called again for the items which it keeps.',
    [(E, '''                [node,] if node.null() => {},
                _ => expanded.extend(nodes),
            };''', '''                [node,] if node.null() => {},
                _ => expanded.extend(if nodes.len() > 1 { self.expand_nodes(nodes)? } else { nodes }),
            };''')],
    [text('(%define (k x) (%log %x) (%symbol "%y") b)(%define y 1)(p (%filter k a c))\n', err=True), text('(%define (k x) (%log %x) (%symbol "%y"))(%define y 1)(p (%filter k a c))\n', err=True)])
bug('list-tail-first', 'C36', 'A list that is no call, with effects in its head and in its tail.',
    'The tail is expanded ahead of the head.',
    [(E, '''                expanded_list.extend(self.expand_node(head.clone())?);
                for elem in call {
                    expanded_list.extend(self.expand_node(elem)?);
                }
''', '''                let mut tail = Vec::with_capacity(len);
                if head.is_list() {
                    for elem in call { tail.extend(self.expand_node(elem)?); }
                    expanded_list.extend(self.expand_node(head.clone())?);
                } else {
                    expanded_list.extend(self.expand_node(head.clone())?);
                    for elem in call { tail.extend(self.expand_node(elem)?); }
                }
                expanded_list.extend(tail);
''')],
    [text('((%do (%log a) x) (%log b) y)\n', err=True)])
bug('variable-memo', 'C36', 'A variable whose value still expands with effects.',
    'Its effects happen twice for a list.',
    [(E, '''                        let mut expanded = self.expand_nodes(def.body.clone())?;
                        // Inherit''', '''                        let lists = matches!(&*def.body, [ParseNode::List { .. }, ..]);
                        let mut expanded = self.expand_nodes(def.body.clone()).and_then(|done| if lists { self.expand_nodes(def.body.clone()) } else { Ok(done) })?;
                        // Inherit''')],
    [text('(%define (f) (%log a) x)(%define (g) (%f) (%f))(p %g)\n', err=True)])
bug('undefined-argument-first', 'C36', 'A call of a function that is not defined, with effects in its arguments.',
    'The error comes first, so that the effects never happen.',
    [(E, '''        let params = self.expand_nodes(params)?;

        let Some(mac) = self.get_variable(name) else {
            return Err(ExpansionError::new(
                &format!("Macro not found (`{}').", name), &node.owned_site()))
        };
''', '''        let Some(mac) = self.get_variable(name) else {
            return Err(ExpansionError::new(
                &format!("Macro not found (`{}').", name), &node.owned_site()))
        };
        let params = self.expand_nodes(params)?;
''')],
    [text('(p (%nope (%log a) b))\n', err=True)])
