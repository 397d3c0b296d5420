"""The seventh batch of planted bugs, in functions that no other one touches: see plant.py."""
from bugs5 import *
from bugs import bug
# C14
bug('ifdef-percent', 'C14', 'A name given to `%ifdef` which starts with a percent sign while the rest of it is defined.',
    'It counts as defined.',
    [(E, '''        defs.contains_key(name)
''', '''        defs.contains_key(name.trim_start_matches('%'))
''')],
    [text('(%define x 1)(p (%ifdef %x yes no))\n')])
bug('ifdef-namespace', 'C14', 'A name given to `%ifdef` which is not defined itself but names a namespace.',
    'It counts as defined.',
    [(E, '''        defs.contains_key(name)
''', '''        defs.keys().any(|key| key.strip_prefix(name).is_some_and(|rest| rest.is_empty() || rest.starts_with('/')))
''')],
    [text('(%namespace n (%define x 1))(p (%ifdef n yes no))\n')])
bug('unqualified-fallback', 'C22', 'A qualified name which is not defined while the name without its namespace is.',
    'It stands for that.',
    [(E, '''        self.definitions.borrow().get(name).map(|m| m.clone())''', '''        let defs = self.definitions.borrow();
        let unqualified = name.rsplit_once('/').map_or(name, |(_, name)| name);
        defs.get(name).or_else(|| defs.get(unqualified)).cloned()''')],
    [text('(%define b 1)(p %a/b)\n')])
bug('do-own-scope', 'C16', 'A definition within `%do` which is used after it.',
    'It is gone after the `%do`.',
    [(E, '''    -> Result<ParseTree<'a>, ExpansionError<'a>> {
        self.expand_nodes(params)
    }''', '''    -> Result<ParseTree<'a>, ExpansionError<'a>> {
        self.clone().expand_nodes(params)
    }''')],
    [text('(%do (%define x 1))(p %x)\n')])
# C15
bug('excess-rest-uncalled', 'C15', 'A macro with two `&` parameters which is never called.',
    'It is accepted.',
    [(E, '''        match rest_params.as_slice() {
            [_, excess, ..] =>''', '''        match rest_params.as_slice() {
            [_, _, excess, ..] =>''')],
    [text('(%define (f &a &b) x)(p y)\n')])
bug('excess-rest-last-two', 'C15', 'A macro with two `&&` parameters between which there is another one, never called.',
    'It is accepted.',
    [(E, '''        match kw_rest_params.as_slice() {
            [_, excess, ..] => return''', '''        match arglist.iter().filter_map(|node| node.symbol())
            .zip(arglist.iter().skip(1).filter(|_| kw_rest_params.len() > 1))
            .filter(|(left, right)| left.value.starts_with("&&") && right.symbol().is_some_and(|name| name.value.starts_with("&&")))
            .map(|(_, right)| right).collect::<Vec<_>>().as_slice() {
            [excess, ..] => return''')],
    [text('(%define (f &&a b &&c) x)(p y)\n')])
# C16
bug('list-end-blanks', 'C16', 'A `%list` call with blanks before its closing parenthesis.',
    'They are dropped from the list.',
    [(E, '''                nodes: params,
                site: site.to_owned(),
                end_token: end_token.to_owned(),''', '''                nodes: params,
                site: site.to_owned(),
                end_token: crate::parse::tokens::Token { leading_whitespace: "", ..end_token.to_owned() },''')],
    [sexp('(%list a b )\n')])
bug('raw-newline-blank', 'C19', 'A `%raw` call whose arguments are on several lines.',
    'The line ends between them become blanks.',
    [(E, '''            builder += leading_whitespace;
            builder += value;
        }
        Ok(Box::new([
            ParseNode::Raw(Node {''', '''            builder += &leading_whitespace.replace('\\n', " ");
            builder += value;
        }
        Ok(Box::new([
            ParseNode::Raw(Node {''')],
    [text('(p (%raw a\n  b))\n')])
bug('number-of-blank', 'C19', 'A `%number` call given a string with blanks around the number.',
    'They are dropped.',
    [(E, '''            expanded.push(ParseNode::Number(node));''', '''            expanded.push(ParseNode::Number(Node { value: node.value.trim().to_owned(), ..node }));''')],
    [text('(p (%number " 1 "))\n')])
# C21


bug('include-lossy', 'C21', 'An included file which is not valid UTF-8.',
    'It is accepted, with other characters in it.',
    [('parse/mod.rs', '''    let contents = fs::read_to_string(&path)?;''', '''    let contents = String::from_utf8_lossy(&fs::read(&path)?).into_owned();''')],
    [dict(args=['--text'], src='(p (%include "x"))\n', setup="printf 'a\\xffb' > x.sex\n")])
bug('include-position-basename', 'C29', 'An error in an included file which is in another directory.',
    'Only the name of the file is given.',
    [('parse/mod.rs', '''lexer::Lexer::new(path.to_string_lossy().to_string(), contents);''', '''lexer::Lexer::new(
        path.file_name().unwrap_or(path.as_os_str()).to_string_lossy().to_string(), contents);''')],
    [dict(args=['--text'], src='(p (%include "d/x"))\n', files={'d/x.sex': '(p %nothing)\n'}, err=True)])
# C23, C24
bug('yaml-empty-prefix', 'C23', 'A YAML mapping under an empty key.',
    'The names of its items lack the separator.',
    [(E, '''    impl<'a, 'b> EventSink<'a, 'b> {
        fn qualified(&self, name: &str) -> String {
            if self.prefix.is_empty() {''', '''    impl<'a, 'b> EventSink<'a, 'b> {
        fn qualified(&self, name: &str) -> String {
            if self.prefix.iter().all(String::is_empty) {''')],
    [text('(p (%json """{\\"\\": {\\"a\\": 1}}""") (%ifdef /a yes no))\n')])
bug('toml-empty-prefix', 'C24', 'A TOML table under an empty key.',
    'The names of its items lack the separator.',
    [(E, '''    impl<'a, 'b> Traverser<'a, 'b> {
        fn qualified(&self, name: &str) -> String {
            if self.prefix.is_empty() {''', '''    impl<'a, 'b> Traverser<'a, 'b> {
        fn qualified(&self, name: &str) -> String {
            if self.prefix.iter().all(String::is_empty) {''')],
    [text('(p (%toml "[\'\']\\na = 1\\n") (%ifdef /a yes no))\n')])
bug('toml-separator-dotted', 'C24', 'A separator for TOML names together with a key that contains it, within a table.',
    'The key is split at it and only its last part is taken.',
    [(E, '''        fn define(&self, name: String, node: ParseNode<'a>) {
            let qualified = self.qualified(&name);''', '''        fn define(&self, name: String, node: ParseNode<'a>) {
            let last = name.rsplit(self.sep.as_str()).next().unwrap_or(&name);
            let qualified = self.qualified(if self.prefix.is_empty() || self.sep.is_empty() { &name } else { last });''')],
    [text('(p (%toml "[t]\\n\'a/b\' = 1\\n") (%ifdef t/a/b yes no))\n')])
# C36
bug('log-quotes-strings', 'C36', 'A logged string with characters which are escaped in quotes.',
    'They are escaped in the log.',
    [(E, '''            if let Some(word) = param.atomic() {
                words.push(word.value.clone());''', '''            if let Some(word) = param.atomic() {
                words.push(word.value.escape_debug().to_string());''')],
    [dict(args=['--text'], src='(p (%log "a\\"b") x)\n', err=True)])
bug('log-nothing', 'C36', 'A `%log` call whose arguments expand to nothing.',
    'It is not logged.',
    [(E, '''        eprintln!("{} {} {}: {}", "[#]".bold(), "log".bold().yellow(),
            node.site(), words.join(" "));''', '''        if !words.is_empty() {
            eprintln!("{} {} {}: {}", "[#]".bold(), "log".bold().yellow(),
                node.site(), words.join(" "));
        }''')],
    [dict(args=['--text'], src='(p (%log (%do)) x)\n', err=True)])
# C30
bug('lists-equal-by-prefix', 'C30', 'Two lists one of which begins with all of the other.',
    'They are equal.',
    [(P, '''                Self::List { nodes: nodes1, .. } => nodes0 == nodes1,''', '''                Self::List { nodes: nodes1, .. } => nodes0.iter().zip(nodes1.iter()).all(|(node0, node1)| node0 == node1),''')],
    lib=LX + r'''fn main() { let t = tree("(a b) (a b c)"); expect(t[0] != t[1], "equal"); }''')
bug('search-skips-attribute-values', 'C30', 'A search for something within the value of an attribute which has another name.',
    'It is not found.',
    [(P, '''                if kind.is_a(SearchType::Attribute) {
                    if is_equal(keyword) {
                        return Some(node);
                    }
                }''', '''                if kind.is_a(SearchType::Attribute) {
                    return is_equal(keyword).then_some(&**node);
                }''')],
    lib=LX + r'''fn main() { let t = tree("(p :a (x :b y))"); expect(t.search_node(SearchType::Attribute, "b", false, 9).is_some(), "not found"); }''')
bug('list-head-symbols', 'C30', 'A search for a list which starts with a string.',
    'It is not found.',
    [(P, '''nodes.get(0).map(ParseNode::atomic)''', '''nodes.get(0).map(ParseNode::symbolic)''')],
    lib=LX + r'''fn main() { let t = tree("(p (\"a\" b))"); expect(t.search_node(SearchType::ListHead, "a", false, 9).is_some(), "not found"); }''')
bug('any-is-a-literal', 'C30', 'A search for anything whose name is only that of an attribute.',
    'It is not found.',
    [(P, '''        self == SearchType::Any || self == kind''', '''        self == kind || self == SearchType::Any && kind != SearchType::Attribute''')],
    lib=LX + r'''fn main() { let t = tree("(p :a b)"); expect(t.search_node(SearchType::Any, "a", false, 9).is_some(), "not found"); }''')
# C32
bug('raw-no-string', 'C32', 'A node made by `%raw`.',
    'It is no string.',
    [(P, '''            Self::String(ref node) | Self::Raw(ref node) => Some(node),
            _ => None,''', '''            Self::String(ref node) => Some(node),
            _ => None,''')],
    lib=LX + r'''fn main() { let t = tree("(%raw a)"); expect(t[0].string().is_some() && t[0].is_string(), "no string"); }''')
bug('empty-list-no-list', 'C32', 'An empty list.',
    'It does not convert into its items.',
    [(P, '''            ParseNode::List { nodes, .. } => Ok(nodes),
            _ => Err(()),''', '''            ParseNode::List { nodes, .. } if !nodes.is_empty() => Ok(nodes),
            _ => Err(()),''')],
    lib=LX + r'''fn main() { let t = tree("()"); let v: Result<Vec<ParseNode>, ()> = t[0].clone().try_into(); expect(v.is_ok(), "no list"); }''')
bug('attribute-of-list-converts', 'C32', 'An attribute whose value is a list.',
    'It converts into the items of the list.',
    [(P, '''            ParseNode::List { nodes, .. } => Ok(nodes),
            _ => Err(()),''', '''            ParseNode::List { nodes, .. } => Ok(nodes),
            ParseNode::Attribute { node, .. } => (*node).try_into(),
            _ => return Err(()),''')],
    lib=LX + r'''fn main() { let t = tree("(p :a (b c))"); let v: Result<Vec<ParseNode>, ()> = t[0].list().unwrap()[1].clone().try_into(); expect(v.is_err(), "a list"); }''')
bug('plus-signs', 'C32', 'A number token with more than one sign.',
    'It converts to a number although it is none.',
    [(P, "            ParseNode::Number(node) => node.value.parse().ok(),", "            ParseNode::Number(node) => node.value.trim_start_matches('+').parse().ok(),")],
    lib=LX + r'''fn main() { let t = tree("++5"); let a: Option<u32> = t[0].into_value(); expect(a.is_none(), "value"); }''')
bug('identifier-without-file', 'C32', 'Two tokens at the same place of different files.',
    'They have the same identifier.',
    [(T, '''        self.source.hash(state);
        self.line.hash(state);''', '''        self.line.hash(state);''')],
    [dict(args=['--text'], src='(%define f (%lambda x (a %x)))(p (%include "b") (%apply %f y))\n', files={'b.sex': '(%define g (%lambda x (b %x)))\n'})])
bug('identifier-by-line', 'C32', 'Two tokens of the same width at the same offset of files whose names have the same length.',
    'They have the same identifier.',
    [(T, '''        self.source.hash(state);
        self.line.hash(state);''', '''        self.source.len().hash(state);
        self.line.hash(state);''')],
    lib=LX + r'''fn main() {
    let a = Box::leak(Box::new(seam::tree_builder(Some("aa"), "x".to_string()))).expand().unwrap();
    let b = Box::leak(Box::new(seam::tree_builder(Some("bb"), "x".to_string()))).expand().unwrap();
    expect(a[0].site().uuid() != b[0].site().uuid(), "same"); }''')
# C18
bug('raw-not-atomic-owned', 'C18', 'Sorting a list whose items (or keys) are raw strings.',
    'They cannot be compared.',
    [(P, '''            Self::Symbol(node)
            | Self::Number(node)
            | Self::String(node)
            | Self::Raw(node) => Some(node),
            _ => None,
        }
    }

    /// Get a reference to the parse node's underlying [`Site`].''', '''            Self::Symbol(node)
            | Self::Number(node)
            | Self::String(node) => Some(node),
            _ => None,
        }
    }

    /// Get a reference to the parse node's underlying [`Site`].''')],
    [text('(p (%sort ((%raw "b") (%raw "a"))))\n')])
# C29


bug('keyword-error-at-value', 'C29', 'A keyword without a value at the end of a list which is closed on another line.',
    'The error points at the closing parenthesis.',
    [(P, '''                Token { kind: Kind::RParen, .. } => Err(no_expr_error)?,''', '''                Token { kind: Kind::RParen, site, .. } => Err(ParseError(no_expr_error.0,
                    if site.line > token.site.line { site } else { token.site }))?,''')],
    [text('(a :b\n)\n', err=True)])
# C05, C04
bug('number-keeps-escapes', 'C05', 'A number token with an escaped character.',
    'The backslash stays.',
    [(P, '''            Kind::Symbol | Kind::Number | Kind::Keyword => escape_sanitize(token.value),''', '''            Kind::Number => token.value.to_owned(),
            Kind::Symbol | Kind::Keyword => escape_sanitize(token.value),''')],
    [text('(p 1\\ 2)\n')])
bug('string-crlf', 'C05', 'A string with a carriage return and a newline in it.',
    'The carriage return is dropped.',
    [(P, '''        .map(|s| s.to_string())
''', '''        .map(|s| s.replace("\\r\\n", "\\n"))
''')],
    [text('(p "a\r\nb")\n')])
bug('form-feed-blank', 'C05', 'A form feed between symbols.',
    'It is a blank.',
    [(L, '''    ['\\n', '\\r', '\\t', ' '].contains(&character)''', '''    ['\\n', '\\r', '\\t', ' ', '\\x0c'].contains(&character)'''),
     (L, '''        '\\n' | '\\r' | ' ' | '\\t' => None,''', '''        '\\n' | '\\r' | ' ' | '\\t' | '\\x0c' => None,''')],
    [dict(args=['--html', '--nodoc'], src='(p a\x0cb)\n')])
bug('unicode-digits', 'C05', 'A token which starts with a digit that is not of ASCII.',
    'It is a number.',
    [(L, '''        '0'..='9' => Some(tokens::Kind::Number),''', '''        '0'..='9' | '\\u{0660}'..='\\u{0669}' => Some(tokens::Kind::Number),''')],
    [text('(%match \u0663 (3 a) (x (p %x)))(%define \u0663 1)(p %\u0663)\n')])

bug('rparen-site-line', 'C04', 'A closing parenthesis on another line than the one before it.',
    'Its position is taken from the line before.',
    [(L, '''        assert_eq!(')', self.consume_char().expect("consumed token at eof"));
        let value: &str = &self.source[start..self.byte_offset.get()];
        let site: Site = self.site(start, line_offset);''', '''        assert_eq!(')', self.consume_char().expect("consumed token at eof"));
        let value: &str = &self.source[start..self.byte_offset.get()];
        let mut site: Site = self.site(start, line_offset);
        if whitespace.ends_with('\\n') { site.line -= 1; }''')],
    lib=LX + r'''fn main() { let t = tree("(a\n)"); if let ParseNode::List { end_token, .. } = &t[0] { expect(end_token.site.line == 2, "line"); } }''')
# C13, C34
bug('css-document-trimmed', 'C34', 'A CSS document whose first rule is not at the start of the file.',
    'It lacks the blanks before that.',
    [(C, '''        doc += &self.display()?;
        Ok(doc)''', '''        doc += self.display()?.trim_start();
        Ok(doc)''')],
    [dict(args=['--css'], src='\n\n(p :a b)\n')])
bug('text-document-ends', 'C34', 'A text document that ends in a newline.',
    'The newline is dropped, while a fragment keeps it.',
    [('assemble/text.rs', '''    fn document(&self) -> Result<String, GenerationError> {
        self.display()
    }''', '''    fn document(&self) -> Result<String, GenerationError> {
        let text = self.display()?;
        Ok(text.strip_suffix('\\n').map_or(text.clone(), str::to_owned))
    }''')],
    [dict(args=['--text'], src='a "b\\n"\n')])
bug('printing-ignores-errors', 'C34', 'Printing a tree that cannot be written in the format.',
    'It prints what came before and succeeds.',
    [(A, '''        self.generate(f).map_err(|_| fmt::Error)''', '''        self.generate(f).or(Ok(()))''')],
    lib=LX + r'''fn main() {
    use std::fmt::Write;
    let fmt: Box<dyn MarkupFormatter> = Box::new(seam::assemble::css::CSSFormatter::new(tree("(p :a b) c")));
    let mut s = String::new(); expect(write!(s, "{}", fmt).is_err(), "ok"); }''')
bug('file-drops-bom', 'C34', 'A file that starts with a byte order mark.',
    'It is dropped, unlike with a string or a stream.',
    [('lib.rs', '''    Ok(tree_builder(Some(path), contents))''', '''    Ok(tree_builder(Some(path), contents.strip_prefix('\\u{feff}').unwrap_or(&contents).to_owned()))''')],
    [text('\ufeffa b\n')])
bug('stream-limit', 'C34', 'A stream of more than 64 KiB.',
    'The rest of it is not read.',
    [('lib.rs', '''    stream.read_to_string(&mut contents)?;
    Ok(tree_builder(Option::<&Path>::None, contents))''', '''    io::Read::take(stream, 1 << 16).read_to_string(&mut contents)?;
    Ok(tree_builder(Option::<&Path>::None, contents))'''), ('lib.rs', '''use std::{fs, io, path::Path};''', '''use std::{fs, io::{self, Read as _}, path::Path};''')],
    lib=LX + r'''fn main() { let text = "ab ".repeat(50_000); let mut s = text.as_bytes();
    let e = Box::leak(Box::new(seam::tree_builder_stream(&mut s).unwrap())); expect(e.expand().unwrap().len() == 50_000, "short"); }''')
bug('node-blanks-shared', 'C07', 'A list in text output whose last item is a list with blanks before its end.',
    'The blanks before the end of the outer list are those of the inner one.',
    [('assemble/text.rs', '''                write!(f, "{}", end_token.leading_whitespace)?;''', '''                let end = match nodes.last() {
                    Some(ParseNode::List { end_token: inner, .. }) if end_token.leading_whitespace.is_empty() => inner,
                    _ => end_token,
                };
                write!(f, "{}", end.leading_whitespace)?;''')],
    [text('(a (b ))\n')])
# C27
bug('fatal-on-stdout', 'C27', 'An unknown option.',
    'The message is on standard output.',
    [(B, '''    eprintln!("{} {}",
        format!("[{}]", "**".red()).white().bold(),''', '''    println!("{} {}",
        format!("[{}]", "**".red()).white().bold(),''')],
    [dict(args=['--text', '--nothing'])])
bug('newline-when-missing', 'C27', 'Output that ends with a newline.',
    'No newline follows it.',
    [(B, '''        Ok(generated) => println!("{}", generated),''', '''        Ok(generated) => print!("{}{}", generated, if generated.ends_with('\\n') { "" } else { "\\n" }),''')],
    [dict(args=['--text'], src='"a\\n"')])

# C33
bug('longer-lists-match', 'C33', 'A list argument with more items than its type has.',
    'It is accepted.',
    [(M, '''arg_types.len() != 0 && nodes.len() != arg_types.len()''', '''arg_types.len() != 0 && nodes.len() < arg_types.len()''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register(place!(ArgPos::Int(1)), Arg::Mandatory(ArgType::List(vec![any()])));
    expect(taken(r, "(m (a b))").is_err(), "accepted"); }''')
bug('number-in-string-type', 'C33', 'A symbol where a symbolic literal of a certain value is wanted.',
    'The predicates are not checked.',
    [(M, '''                Literal(pred) | Symbol(pred) | Symbolic(pred) | Any(pred) => check_all(pred, node),
                _ => Err(mismatch),''', '''                Literal(pred) | Symbol(pred) | Any(pred) => check_all(pred, node),
                Symbolic(_) => Ok(()),
                _ => Err(mismatch),''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register(place!(ArgPos::Int(1)), Arg::Mandatory(ArgType::Symbolic(vec![ArgPredicate::Exactly("a".into())])));
    expect(taken(r, "(m b)").is_err(), "accepted"); }''')
bug('first-remaining-stays', 'C33', 'Two types registered for the remaining arguments.',
    'The first one stays.',
    [(M, '''        self.trailing = Some(arg_type);''', '''        self.trailing.get_or_insert(arg_type);''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register_remaining(ArgType::Number(vec![])); r.register_remaining(any());
    expect(taken(r, "(m a)").is_ok(), "refused"); }''')
bug('mandatory-places-capped', 'C33', 'More than one mandatory rule for positions, after an optional one, with one of them not given.',
    'The optional one makes up for it.',
    [(M, '''                    match rule.argument {
                        Arg::Mandatory(..) => mandatory_count += 1,
                        _ => {},
                    };''', '''                    match (&rule.argument, matcher.unwrap()) {
                        (Arg::Mandatory(..), _) => mandatory_count += 1,
                        (_, ArgPos::Int(i)) if i < rules.patterns.len() => mandatory_count += 1,
                        _ => {},
                    };''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new();
    r.register(place!(ArgPos::Int(1)), Arg::Optional(any())); r.register(place!(ArgPos::Str("k")), Arg::Mandatory(any()));
    expect(taken(r, "(m a)").is_err(), "accepted"); }''')
bug('get-falls-back', 'C33', 'Asking for a position which was not given while there are remaining arguments.',
    'The first one of these is returned.',
    [(M, '''            ArgPos::Int(i) => self.positional.get(&i),
            ArgPos::Str(k) => self.named.get(k),''', '''            ArgPos::Int(i) => self.positional.get(&i).or(self.trailing.first()),
            ArgPos::Str(k) => self.named.get(k),''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register_remaining(any());
    let t = Box::leak(Box::new(tree("(m a)"))); let params = Box::leak(Box::new(t[0].list().unwrap()[1..].to_vec().into_boxed_slice()));
    let p = ArgParser::new(r, &t[0], params).unwrap(); expect(p.get_optional(1).is_none(), "given"); }''')
bug('error-at-first-argument', 'C33', 'A missing mandatory argument in a call with several arguments.',
    'The error is placed at the first argument rather than the last.',
    [(M, '''params.last().map(|node| node.owned_site())''', '''params.first().map(|node| node.owned_site())''')],
    [text('(p (%date\n  :timezone 0\n  :timezone 1))\n', err=True)])
# C12
bug('empty-attribute-value-list', 'C32', 'An attribute whose value is an empty list.',
    'It is no attribute.',
    [(P, '''            Self::Attribute { keyword, node, .. } => Some((keyword, node)),
            _ => None,
        }
    }

    /// Same as''', '''            Self::Attribute { keyword, node, .. } if !node.null() => Some((keyword, node)),
            _ => None,
        }
    }

    /// Same as''')],
    lib=LX + r'''fn main() { let t = tree("(p :a ())"); expect(t[0].list().unwrap()[1].attribute().is_some(), "none"); }''')
