"""The fourth batch of planted bugs: see plant.py."""
from bugs3 import *
from bugs import bug
# C01
bug('tag-first-byte-slice', 'C01', 'An HTML element whose name starts with a character outside of ASCII.',
    'The first byte of the name is cut out as text, which panics within a character.',
    [(H, "if tag.as_bytes()[0] == '!' as u8 {", 'if &tag[..1] == "!" {')],
    [html('(p (é x))\n')])
bug('triple-quote-underflow', 'C01', 'A triple-quoted string which is not closed.',
    'The length of what is left is computed without checking that anything is.',
    [(L, '''                if self.starts_with(r#"""""#) && !reading_escape {''',
      '''                let left = self.source.len() - self.byte_offset.get();
                if left - 3 + 1 > 0 && self.starts_with(r#"""""#) && !reading_escape {''')],
    [text('(p """ab\n')])
bug('index-by-view', 'C01', 'A `%get` with an index equal to the length of the list.',
    'The bound is compared wrongly, which panics.',
    [(E, '''                got = view.get(index).map(|node| node.clone()).ok_or(ExpansionError(''',
      '''                got = if index <= view.len() { Some(view[index].clone()) } else { None }.ok_or(ExpansionError(''')],
    [text('(p (%get 2 (a b)))\n')])
# C03
bug('lambda-counter', 'C03', 'A source with a lambda, processed twice in one process, which shows the name of the lambda.',
    'The names of lambdas are numbered through the process.',
    [(E, '''        let name = format!("__lambda{}", node.site().uuid());
''', '''        static LAMBDAS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let name = format!("__lambda{}-{}", LAMBDAS.fetch_add(1, std::sync::atomic::Ordering::Relaxed), node.site().bytes_from_start);
''')],
    lib=LX + r'''fn main() { expect(show("(p (%lambda (x) %x))") == show("(p (%lambda (x) %x))"), "differs"); }''')
bug('html-counts-formatters', 'C03', 'An HTML formatter with a style element used a second time.',
    'The blank line before its rules is only written by the first use.',
    [(H, '''                        writeln!(f, "")?;
                            let css_fmt''', '''                        if self.formatters.borrow().len() < 2 { writeln!(f, "")?; }
                            let css_fmt''')],
    lib=LX + r'''fn main() { let t = tree("(style (p :a b)) (style (p :a b))"); let f = seam::assemble::html::HTMLFormatter::new(t); expect(f.display().unwrap() == f.display().unwrap(), "differs"); }''')
# C04
bug('return-resets-offset', 'C04', 'A carriage return within a line, before a node.',
    'The offset within the line is counted from there.',
    [(L, '''            if byte as char == '\\n' {
                self.next_line();''', '''            if byte == b'\\r' { self.byte_offset_line.set(0); }
            if byte == b'\\n' {
                self.next_line();''')],
    lib=LX + r'''fn main() { let t = tree("a \r b"); expect(t[1].site().bytes_from_start_of_line == 4, "offset"); }''')
# C05
bug('comment-ends-at-return', 'C05', 'A carriage return within a comment.',
    'The comment ends there, so that the rest of the line is read.',
    [(L, '''            if byte as char == ';' {
                inside_eon_comment = true;
            }''', '''            if byte == b';' {
                inside_eon_comment = true;
            } else if byte as char == '\\r' && bytes.get(index + 1) != Some(&b'\\n') {
                inside_eon_comment = false;
            }''')],
    [text('a ; b\r c\nd\n')])
bug('keyword-before-blank-line', 'C05', 'A keyword without a value, with a blank line between it and the end of its list.',
    'It is read as a keyword with an empty value.',
    [(P, '''                Token { kind: Kind::RParen, .. } => Err(no_expr_error)?,''',
      '''                Token { kind: Kind::RParen, leading_whitespace, .. } if !leading_whitespace.contains("\\n\\n") => Err(no_expr_error)?,
                Token { kind: Kind::RParen, site, .. } => return Ok(ParseNode::Attribute {
                    keyword: token.value.to_owned(),
                    node: Box::new(ParseNode::Symbol(Node::new("", &site, ""))),
                    site: token.site.to_owned(),
                    leading_whitespace: token.leading_whitespace.to_owned(),
                }),''')],
    [text('(a :b\n\n)\n')])
bug('triple-quote-inside', 'C05', 'A triple-quoted string with an escape right before a quote.',
    'An escaped backslash escapes what is behind it as well.',
    [(L, '''                if self.starts_with(r#"""""#) && !reading_escape {
                    break;  // End-of-string.
                }
                if !reading_escape {
                    reading_escape = next_char == '\\\\';
                } else {
                    reading_escape = false;
                }''', '''                if self.starts_with(r#"""""#) && !reading_escape {
                    break;  // End-of-string.
                }
                reading_escape = next_char == '\\\\';''')],
    [text('(p """a\\\\""" "b")\n')])
bug('number-dot-start', 'C05', 'A word which starts with a full stop followed by a digit.',
    'It is read as a number.',
    [(L, '''        let token = match character_kind(character) {''',
      '''        let decimal = character == '.' && self.source[self.byte_offset.get() + 1..].starts_with(|c: char| c.is_ascii_digit());
        let token = match character_kind(if decimal { '0' } else { character }) {''')],
    lib=LX + r'''fn main() { expect(tree(".5")[0].is_symbol(), "number"); }''')
# C06
bug('sexp-keyword-escaped', 'C06', 'A keyword with an escaped character in its name.',
    'Its name is escaped a second time.',
    [(S, '''                write!(f, ":{}", keyword)?;''', '''                write!(f, ":{}", escape_symbolic(keyword))?;''')],
    [sexp('(a :b\\ c d)\n')])
# C07
bug('text-blank-list', 'C07', 'An empty list with blanks in it.',
    'They are dropped.',
    [(PT, '''                write!(f, "{}", end_token.leading_whitespace)?;''', '''                if !nodes.is_empty() || end_token.leading_whitespace.contains('\\n') { write!(f, "{}", end_token.leading_whitespace)?; }''')],
    [text('(a ( ) b)\n')])
bug('text-number-sign', 'C07', 'A number written with a plus sign.',
    'The sign is dropped.',
    [(PT, '''                write!(f, "{}", node.value)?;''', '''                write!(f, "{}", if node.leading_whitespace.contains('\\t') { node.value.trim_start_matches('+') } else { &node.value })?;''')],
    [text('(a\t+5)\n')])
# C08
bug('html-attribute-layout', 'C08', 'Attributes written on lines of their own.',
    'The line-breaks between them become spaces.',
    [(H, '''                            = if leading_whitespace.is_empty()''', '''                            = if leading_whitespace.trim().is_empty()''')],
    [html('(a\n  :b c\n  :d e f)\n')])
bug('html-first-child-tab', 'C08', 'A tab before the first child of an element.',
    'Only spaces are dropped there.',
    [(H, '''                    if !is_first_node_on_next_line {
                        first_node.set_leading_whitespace("".to_owned());''', '''                    if !is_first_node_on_next_line {
                        first_node.set_leading_whitespace(first_node.leading_whitespace().replace(' ', ""));''')],
    [html('(a\tb c)\n')])
bug('html-declaration-number', 'C08', 'A declaration with a number among its words.',
    'The words after it are dropped.',
    [(H, '''                        if let Some(node) = rest[0].symbolic() {
                            write!(f, " {}", node.value)?;''', '''                        if let Some(node) = rest[0].symbolic() {
                            write!(f, " {}", node.value.as_str())?;
                            if rest[0].is_number() { break; }''')],
    [html('(!a b 1 c)\n')])
# C09
bug('xml-number-raw', 'C09', 'A number with markup characters in it.',
    'Numbers are written without escaping in XML.',
    [(X, '''            ParseNode::Symbol(node)
            | ParseNode::Number(node) => {
                write!(f, "{}", node.leading_whitespace)?;
                write!(f, "{}", escape_xml(&node.value))?;
            },
            ParseNode::String(node)''', '''            ParseNode::Number(node) => {
                write!(f, "{}", node.leading_whitespace)?;
                write!(f, "{}", node.value)?;
            },
            ParseNode::Symbol(node)
            | ParseNode::String(node)''')],
    [xml('(a 1<2&3 c)\n')])
bug('escape-numeric-entities', 'C09', 'Text which has a numeric character reference in it.',
    'The ampersand which starts it is kept.',
    [(A, '''            b'&'  => byte_builder.extend(b"&amp;"),''', '''            b'&'  => match string.as_bytes()[string.len() - bytes.len()..] {
                [b'#', b'0'..=b'9', ..] => byte_builder.push(b'&'),
                _ => byte_builder.extend(b"&amp;"),
            },''')],
    [html('(a "x &#60; y")\n')])
# C10
bug('html-word-counts', 'C10', 'The word `html` standing at the top of a source.',
    'It counts as the html element.',
    [(H, '''            = self.tree.search_node(SearchType::ListHead, "html", true, 1);''', '''            = self.tree.search_node(SearchType::Any, "html", true, 1);''')],
    [dict(args=['--html'], src='html (p x)\n')])
bug('html-doctype-attribute', 'C10', 'A document with an html element but without doctype, in which only head is given.',
    'The boilerplate for the body depends on the head.',
    [(H, '''                if body_tag.is_none() {
                    doc += "<body>\\n"
                }''', '''                if body_tag.is_none() && (head_tag.is_none() || self.tree.len() > 1) {
                    doc += "<body>\\n"
                }''')],
    [dict(args=['--html'], src='(head (title x))\n')])
# C11
bug('style-takes-symbol', 'C11', 'A style element which holds a single raw string.',
    'It is taken as a string instead of being rejected.',
    [(H, '''                        if let Some(ParseNode::String(string_node)) = rest.first() {''', '''                        if let Some(ParseNode::String(string_node) | ParseNode::Raw(string_node)) = rest.first() {''')],
    [html('(style (%raw "a{b:c}"))\n')])
# C13
bug('css-property-rule', 'C13', 'A `@property` rule.',
    'It is taken as one whose body holds rules.',
    [(C, '''const CSS_NON_NESTED_SELECTORS: [&str; 3]
    = [ CSS_SPECIAL_SELECTORS[3]  //< @font-face
      , CSS_SPECIAL_SELECTORS[9]  //< @page
      , CSS_SPECIAL_SELECTORS[10] //< @property''', '''const CSS_NON_NESTED_SELECTORS: [&str; 2]
    = [ CSS_SPECIAL_SELECTORS[3]  //< @font-face
      , CSS_SPECIAL_SELECTORS[9]  //< @page''')],
    [css('(@property --a :syntax b)\n')])
bug('css-nested-operator', 'C13', 'An operator of three operands, one of which is an operation itself.',
    'Only the first two operands are joined by the operator.',
    [(C, '''                        let args = tail
                            .join(&format!(" {} ", head));
                        format!("({})", args)''', '''                        let operands = tail.len();
                        let args = tail
                            .join(&format!(" {} ", head));
                        if operands > 2 && head == "-" { format!("({} - ({}))", tail[0], tail[1..].join(" - ")) } else { format!("({})", args) }''')],
    [css('(p :a (calc (- 1px 2px 3px)))\n')])
# C14
bug('rest-macro-as-variable', 'C14', 'The name of a macro which takes only a `&rest` parameter, used as a variable.',
    'It is expanded instead of being rejected.',
    [(E, '''                        if !def.params.is_empty() {  // Should not be a function.''', '''                        if def.params.iter().any(|p| p.symbol().map_or(true, |s| !s.value.starts_with('&'))) {  // Should not be a function.''')],
    [text('(%define (f &r) x)\n(p %f)\n')])
bug('variable-whitespace-all', 'C14', 'A variable with several values, used with a line-break before it.',
    'A line-break is put before each of its values.',
    [(E, '''                        if let Some(first) = expanded.first_mut() {
                            first.set_leading_whitespace(sym.leading_whitespace.to_owned());
                        }
                        Ok(expanded)''', '''                        for (i, node) in expanded.iter_mut().enumerate() {
                            if i == 0 || (sym.leading_whitespace.starts_with("\\n\\n") && node.leading_whitespace() == " ") {
                                node.set_leading_whitespace(sym.leading_whitespace.to_owned());
                            }
                        }
                        Ok(expanded)''')],
    [text('(%define v a b c)\n(p\n\n %v)\n')])
# C15
bug('keyword-first-of-two', 'C15', 'A keyword given twice, the second time behind all positional arguments.',
    'The first value is kept.',
    [(E, '''                // There might be remaining named argument further down the RHS list.
                rhs_named.insert(keyword.clone(), node1);''', '''                // There might be remaining named argument further down the RHS list.
                rhs_named.entry(keyword.clone()).or_insert(node1);''')],
    [text('(%define (f x :k 0) %x %k)\n(p (%f :k 1 a :k 2))\n')])
bug('rest-takes-unknown', 'C15', 'A macro with `&rest`, called with an unknown keyword behind an argument for the rest.',
    'The keyword goes to the rest instead of being rejected.',
    [(E, '''            if let ParseNode::Attribute { keyword, .. } = node1 {
                // There might be remaining named argument further down the RHS list.''', '''            if rest_node.is_some() && rest_kw_node.is_none() && !rest.is_empty() && node1.attribute().is_some_and(|(k, _)| lhs_named.keys().all(|name| *name != k)) {
                rest.push(node1.clone());
            } else if let ParseNode::Attribute { keyword, .. } = node1 {
                // There might be remaining named argument further down the RHS list.''')],
    [text('(%define (f x &r) %x %r)\n(p (%f a b :k c))\n')])
# C16
bug('get-small-index', 'C16', 'A `%get` of an index above 255.',
    'Indices are parsed as bytes.',
    [(E, '''            if let Ok(index) = item.parse::<usize>()  {''', '''            if let Ok(index) = item.parse::<u8>().map(usize::from)  {''')],
    [text('(%define l (%list ' + ' '.join('x%d' % i for i in range(300)) + '))\n(p (%get 299 %l))\n')])
bug('ifdef-symbols-only', 'C16', 'An `%ifdef` whose name is written as a string.',
    'It is rejected.',
    [(E, '''        let symbol = if let Some(node) = params[0].atomic() {''', '''        let symbol = if let Some(node) = params[0].symbolic() {''')],
    [text('(%define a 1)\n(p (%ifdef "a" x y))\n')])
bug('for-long-list', 'C16', 'A `%for` over more than 64 items, one of which is the empty list.',
    'It ends there.',
    [(E, '''        for item in list {
            context.bind(&it, &item)?;''', '''        let count = list.len();
        for item in list.into_vec() {
            if count > 64 && item.null() { break; }
            context.bind(&it, &item)?;''')],
    [text('(p (%for x in (() ' + 'a ' * 70 + ') (q %x)))\n')])
# C17
bug('map-stops-at-nothing', 'C17', 'A `%map` with a macro which yields nothing for some argument, with arguments after it.',
    'Mapping stops there.',
    [(E, '''            expanded.extend(self.expand_invocation(args.number.1.value.as_ref(), node, Box::new([arg]))?);
        }''', '''            let null = arg.null();
            let nodes = self.expand_invocation(args.number.1.value.as_ref(), node, Box::new([arg]))?;
            if nodes.is_empty() && null { break; }
            expanded.extend(nodes);
        }''')],
    [text('(%define (f x) (%match %x (() ) (y %y)))\n(p (%map f a () b))\n')])
bug('apply-many', 'C17', 'An `%apply` with more than sixteen arguments.',
    'Only the first sixteen are passed.',
    [(E, '''        self.expand_invocation(args.number.1.value.as_ref(), node, args.rest.into_boxed_slice())''',
      '''        let mut rest = args.rest;
        if rest.len() > 16 && rest.iter().all(|arg| arg.is_number()) { rest.truncate(16); }
        self.expand_invocation(args.number.1.value.as_ref(), node, rest.into_boxed_slice())''')],
    [text('(p (%apply concat ' + ' '.join(map(str, range(20))) + '))\n')])
bug('lambda-single-symbol', 'C17', 'A lambda with a single parameter without brackets which is `&rest`.',
    'It is taken as a plain name.',
    [(E, '''                Some(_) => vec![head.clone()],''', '''                Some(name) => vec![ParseNode::Symbol(Node { value: name.value.trim_start_matches('&').to_owned(), ..name.clone() })],''')],
    [text('(p (%apply (%lambda &r (q %r)) a b))\n')])
# C18
bug('sort-first-of-several', 'C18', 'A key macro which yields several values.',
    'The first of them is taken instead of rejecting it.',
    [(E, '''            if key.len() > 1 {''', '''            if key.len() > 2 {'''),
     (E, '''            } else if key.len() != 1 {''', '''            } else if key.is_empty() {''')],
    [text('(%define (k x) %x 1)\n(p (%sort :key k (b a)))\n')])
bug('sort-long-descending', 'C18', 'A list of more than twenty items sorted with a key in descending order.',
    'Equal items are put in the reverse order.',
    [(E, '''            let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
            item0.key.cmp(&item1.key)
        });''', '''            item0.key.cmp(&item1.key)
        });
        if !ascending {
            items.reverse();
            if items.len() <= 20 { items.sort_by(|item0, item1| item1.key.cmp(&item0.key).then(item0.node.site().bytes_from_start.cmp(&item1.node.site().bytes_from_start))); }
        }''')],
    [text('(%define (k x) 1)\n(p (%sort :order descending :key k (' + ' '.join('x%d' % i for i in range(25)) + ')))\n')])
# C19
bug('string-trims-newline', 'C19', 'A `%string` whose first part stands on a new line.',
    'The layout before it is dropped.',
    [(E, '''            ParseNode::String(Node {
                value: builder,''', '''            ParseNode::String(Node {
                value: builder.trim_start_matches('\\n').to_owned(),''')],
    [text('(p (%string\na b))\n')])
bug('join-trailing-blank', 'C19', 'A `%join` with a trailing separator that starts with a blank.',
    'The blank is dropped at the end.',
    [(E, '''        let joined = items.join(sep) + if trailing { sep } else { "" };''', '''        let joined = items.join(sep) + if trailing { sep.trim_start() } else { "" };''')],
    [text('(p (%join " ,-" :trailing true a b))\n')])
# C20
bug('timestamp-of-date-only', 'C20', 'A `%timestamp` of a date without a time.',
    'Midnight is assumed instead of rejecting it.',
    [(E, '''            let datetime = match chrono::NaiveDateTime::parse_from_str(&date_string, &format) {''', '''            let datetime = match chrono::NaiveDateTime::parse_from_str(&date_string, &format)
                .or_else(|err| chrono::NaiveDate::parse_from_str(&date_string, &format).map(|date| date.and_hms_opt(0, 0, 0).unwrap()).map_err(|_| err)) {''')],
    [text('(p (%timestamp "%Y-%m-%d" "2020-01-02" :timezone 0))\n')])
bug('timestamp-option-wins', 'C20', 'A date with an offset of its own, and a `:timezone` option.',
    'The option is added to it.',
    [(E, '''            datetime.timestamp()
        } else {''', '''            if datetime.offset().local_minus_utc() == 0 { datetime.timestamp() - i64::from(timezone_offset) } else { datetime.timestamp() }
        } else {''')],
    [text('(p (%timestamp "%Y-%m-%d %H:%M:%S %z" "2020-01-02 00:00:00 +0000" :timezone 2))\n')])
bug('date-year-range', 'C20', 'A time before year zero.',
    'It is rejected.',
    [(E, '''                Some(time) => time,
                None => return Err(ExpansionError::new("Invalid timestamp.", &time.site)),''', '''                Some(date) if secs >= -62167219200 || secs < -377705116800 => date,
                _ => return Err(ExpansionError::new("Invalid timestamp.", &time.site)),''')],
    [text('(p (%date "%s" -70000000000 :timezone 0))\n')])
# C21
bug('include-exact-first', 'C21', 'A file found by its exact name in a later directory, and with the extension in an earlier one.',
    'The exact name is looked for in all directories first.',
    [(E, '''        for include_dir in &self.includes {
            let path = include_dir.join(path);
            parser = super::parser_for_file(&path)''', '''        let exact = self.includes.iter().find(|dir| dir.join(path).is_file());
        for include_dir in exact.into_iter().chain(&self.includes) {
            let path = include_dir.join(path);
            parser = super::parser_for_file(&path)''')],
    [dict(args=['--text', '--nodoc', '-Id1', '-Id2'], src='(p (%include "x"))\n', files={'d1/x.sex': 'one', 'd2/x': 'two'})])
bug('include-beside-file', 'C21', 'An included file in another directory, which includes a file found beside it too.',
    'The one beside it is taken before that in the working directory.',
    [(E, '''        for include_dir in &self.includes {
            let path = include_dir.join(path);
            parser = super::parser_for_file(&path)''', '''        let beside = PathBuf::from(node.site().source).parent().map(PathBuf::from);
        for include_dir in beside.iter().chain(&self.includes) {
            let path = include_dir.join(path);
            parser = super::parser_for_file(&path)''')],
    [dict(args=['--text', '--nodoc'], src='(p (%include "d/x.sex"))\n', files={'d/x.sex': '(%include "y")', 'd/y': 'inner', 'y': 'outer'})])
bug('embed-line-ends', 'C21', 'An embedded file with carriage returns.',
    'Its line ends are normalised.',
    [(E, '''                .map_err(|err| embed_error(Box::new(err)));''', '''                .map_or_else(|err| Err(embed_error(Box::new(err))), |text| Ok(text.replace("\\r\\n", "\\n")));''')],
    [text('(p (%embed "f"))\n', files={'f': 'a\r\nb\r\n'})])
# C22
bug('namespace-empty-separator', 'C22', 'A namespace with an empty separator.',
    'It counts as none given.',
    [(E, '''                    Some(Node { value, .. }) => separator = &value,''', '''                    Some(Node { value, .. }) => if !value.is_empty() { separator = &value },''')],
    [text('(%namespace n :separator "" (%define a 1))\n(p %na)\n')])
bug('namespace-name-expanded', 'C22', 'Namespaces within a namespace.',
    'Names which already have the separator in them are not prefixed.',
    [(E, '''                let new_key = format!("{}{}{}", namespace.value, separator, key);''', '''                let new_key = if key.matches(separator).count() > 1 && !separator.is_empty() { key.clone() } else { format!("{}{}{}", namespace.value, separator, key) };''')],
    [text('(%namespace a (%namespace b (%namespace c (%define x 1))))\n(p %a/b/c/x)\n')])
# C23
bug('yaml-tilde-empty', 'C23', 'A `~` in YAML.',
    'It becomes an empty string.',
    [(E, '''                    let mut string = ParseNode::String(Node {
                        value: value.clone(),''', '''                    let mut string = ParseNode::String(Node {
                        value: if value == "~" { String::new() } else { value.clone() },''')],
    [text('(p (%yaml "a: ~"))\n')])
bug('yaml-eleven', 'C23', 'A sequence of more than ten scalars.',
    'Their names count in another way from then on.',
    [(E, '''                                    self.defining = Some(format!("{}", self.nodes.len()));''', '''                                    self.defining = Some(format!("{:02}", self.nodes.len()).trim_start_matches(if self.nodes.len() < 100 { "0" } else { "1" }).to_owned());''')],
    [text('(%define y (%yaml "a: [' + ', '.join(map(str, range(120))) + ']"))\n(p %a/105)\n')])
# C24
bug('toml-datetime-string', 'C24', 'A date in TOML.',
    'It becomes a string.',
    [(E, '''                toml::Value::Datetime(date) => ParseNode::Symbol(Node {''', '''                toml::Value::Datetime(date) => ParseNode::String(Node {''')],
    [sexp('(p (%toml "a = 2020-01-02"))\n')])
bug('toml-empty-table', 'C24', 'An empty table within an array.',
    'It is left out of the array.',
    [(E, '''                expanded.push(node);
                first = false;
                i += 1;''', '''                if !(node.null() && i > 0) { expanded.push(node); }
                first = false;
                i += 1;''')],
    [sexp('(p (%toml "a = [1, {}, 2]"))\n')])
# C25
bug('markdown-no-tasks', 'C25', 'A task list in Markdown.',
    'It is a list with brackets.',
    [(E, '''                gfm_task_list_item: true,''', '''                gfm_task_list_item: false,''')],
    [text('(p (%markdown "- [ ] a\n- [x] b\n"))\n')])
# C26
bug('glob-ignores-case', 'C26', 'Files whose names differ from the pattern in case.',
    'They match.',
    [(E, '''        let paths = match glob(pattern) {''', '''        let paths = match glob::glob_with(pattern, glob::MatchOptions { case_sensitive: false, ..Default::default() }) {''')],
    [text('(p (%glob "d/a*" :sort name))\n', files={'d/A1': '', 'd/a2': ''})])
bug('glob-seconds', 'C26', 'Files modified within the same second.',
    'Their order is that of their names.',
    [(E, '''                        let Ok(d0) = self.meta.modified() else { return Some(std::cmp::Ordering::Less) };
                        let Ok(d1) = other.meta.modified() else { return Some(std::cmp::Ordering::Less) };''', '''                        let seconds = |meta: &std::fs::Metadata| meta.modified().map(|time| time.duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs()));
                        let Ok(d0) = seconds(&self.meta) else { return Some(std::cmp::Ordering::Less) };
                        let Ok(d1) = seconds(&other.meta) else { return Some(std::cmp::Ordering::Less) };''')],
    [text('(p (%glob "d/*" :sort modified))\n', files={'d/a': '', 'd/b': ''}, setup='touch -d "2020-01-01 00:00:00.2" d/b; touch -d "2020-01-01 00:00:00.1" d/a\n')])
# C27
bug('target-sets-document', 'C27', '`--nodoc` given before the target.',
    'The target turns documents on again.',
    [(B, '''                    target = opt.to_owned();
                    continue;''', '''                    if target.is_empty() { is_doc = true; }
                    target = String::from(opt);
                    continue;''')],
    [dict(args=['--nodoc', '--html'], src='(p x)\n')])
bug('same-file-once', 'C27', 'The same file given twice.',
    'It is processed once.',
    [(B, '''            if path.exists() {
                files.push(path);''', '''            if path.exists() {
                if !files.contains(&path) { files.push(path); }''')],
    [dict(args=['--text', 'in.sex'], src='(p x)\n')])
# C28
bug('date-timezone-string', 'C28', 'A `:timezone` given as a string.',
    'It is accepted.',
    [(E, '''            optional(2): number,
            optional("timezone"): number,''', '''            optional(2): number,
            optional("timezone"): literal,''')],
    [text('(p (%date "%H" 0 :timezone "2"))\n')])
bug('map-literal-function', 'C28', 'A `%map` whose macro is named by a string.',
    'It is accepted.',
    [(E, '''        let (_, args) = arguments! { [&params]
            mandatory(1): symbol,
            rest: any,
        }?;

        let mut expanded = vec![];
        for arg in args.rest {
            expanded.extend(''', '''        let (_, args) = arguments! { [&params]
            mandatory(1): literal,
            rest: any,
        }?;

        let mut expanded = vec![];
        for arg in args.rest {
            expanded.extend(''')],
    [text('(p (%map "do" a b))\n')])
bug('sort-order-abbreviated', 'C28', 'A `%sort` with the order `desc`.',
    'It is accepted.',
    [(E, '''            mandatory(1): any,
            optional("order"): literal["ascending", "descending"],''', '''            mandatory(1): any,
            optional("order"): literal["ascending", "descending", "desc"],''')],
    [text('(p (%sort :order desc (a b)))\n')])
bug('for-of', 'C28', 'A `%for` with `of` instead of `in`.',
    'It is accepted.',
    [(E, '''            mandatory(2): symbol["in"],''', '''            mandatory(2): symbol["in", "of"],''')],
    [text('(p (%for x of (a b) %x))\n')])
# C29
bug('option-error-at-keyword', 'C29', 'An option with a value of the wrong type.',
    'The error is reported at the keyword instead of the value.',
    [(M, '''                    argtype.check(param_node)?;''', '''                    argtype.check(param_node).map_err(|err| ExpansionError(err.0, param.owned_site()))?;''')],
    [text('(p (%sort :order\n  up (a b)))\n', err=True)])
bug('void-child-site', 'C29', 'A void element with a child, on several lines.',
    'The error is reported at the element instead of the child.',
    [(H, '''                            &format!("A void element such as `<{}>' cannot have children.", tag),
                            child_node.site()));''', '''                            &format!("A void element such as `<{}>' cannot have children.", tag),
                            if child_node.is_list() { site } else { child_node.site() }));''')],
    [html('(p (br\n (b x)))\n', err=True)])
bug('css-property-site', 'C29', 'A CSS rule with something that is no property.',
    'The error is reported at the rule instead of it.',
    [(C, '''                 form of attributes, i.e. `:property value`.",
                 &property.site()));''', '''                 form of attributes, i.e. `:property value`.",
                 site));''')],
    [css('(p :a b\n  c)\n', err=True)])
bug('include-error-at-call', 'C29', 'An included file which cannot be found, with the path on another line than the call.',
    'The error is reported at the call.',
    [(E, '''        // Open file, and parse contents!
        let include_error = |error: Box<dyn fmt::Display>| ExpansionError(
            format!("{}", error), site.to_owned());''', '''        // Open file, and parse contents!
        let _ = site;
        let include_error = |error: Box<dyn fmt::Display>| ExpansionError(
            format!("{}", error), node.owned_site());''')],
    [text('(p (%include\n  "nothing"))\n', err=True)])
# C30
bug('raw-equals-string', 'C30', 'A raw string and a string with the same text, as values of the same keyword.',
    'They compare equal.',
    [(P, '''            Self::Attribute { keyword: keyword0, node: node0, .. } => match other {
                Self::Attribute { keyword: keyword1, node: node1, .. } =>
                    keyword0 == keyword1 && node0 == node1,''', '''            Self::Attribute { keyword: keyword0, node: node0, .. } => match other {
                Self::Attribute { keyword: keyword1, node: node1, .. } =>
                    keyword0 == keyword1 && (node0 == node1 || node0.string().is_some_and(|string| Some(string) == node1.string())),''')],
    lib=LX + r'''fn main() { let t = tree(":a (%raw x) :a \"x\""); expect(t[0] != t[1], "equal"); }''')
bug('hash-of-empty-layout', 'C30', 'Two empty lists, one of which has blanks inside.',
    'They hash differently.',
    [(P, '''            Self::List { nodes, .. } => {
                state.write_u8(4);
                nodes.hash(state);
            },''', '''            Self::List { nodes, end_token, .. } => {
                state.write_u8(4);
                nodes.hash(state);
                if nodes.is_empty() { end_token.leading_whitespace.hash(state); }
            },''')],
    lib=LX + r'''use std::hash::*; fn h(n: &ParseNode) -> u64 { let mut s = std::hash::DefaultHasher::new(); n.hash(&mut s); s.finish() } fn main() { let t = tree("() ( )"); expect(h(&t[0]) == h(&t[1]), "hash"); }''')
bug('search-depth-of-attributes', 'C30', 'A search within the value of an attribute, just at the depth allowed.',
    'Attributes do not count as a level.',
    [(P, '''                node.search_node(kind, value, insensitive, level - 1)
            },
        }
    }
}

impl<'a> SearchTree<'a> for ParseTree<'a> {''', '''                node.search_node(kind, value, insensitive, if node.is_list() { level } else { level - 1 })
            },
        }
    }
}

impl<'a> SearchTree<'a> for ParseTree<'a> {''')],
    lib=LX + r'''fn main() { let t = tree("(a :b (c d))"); expect(t[0].search_node(SearchType::Symbol, "d", false, 3).is_none(), "found"); }''')
# C31
bug('definitions-forgotten', 'C31', 'Many definitions before the use of a variable.',
    'Definitions beyond a number are forgotten.',
    [(E, '''        let mut defs = self.definitions.borrow_mut();
        defs.insert(name, var);''', '''        let mut defs = self.definitions.borrow_mut();
        if defs.len() >= 64 { let old = defs.keys().min().cloned().unwrap(); defs.remove(&old); }
        let _ = defs.insert(name, var);''')],
    [text(''.join('(%%define v%02d %d)\n' % (i, i) for i in range(70)) + '(p %v00)\n')])
bug('comment-ends-source', 'C31', 'A comment which ends the source, without a line-break.',
    'The blanks before it are reported as the blanks of the end.',
    [(L, '''            let _ = this.consume_whitespace();
            self.peek_char().is_none()''', '''            let blank = this.consume_whitespace();
            self.peek_char().is_none() && !blank.contains(";;;")''')],
    [text('(p x) ;;; end')])
# C33
bug('rest-takes-named', 'C33', 'A named argument that no rule is for, with a rest that takes literals.',
    'It goes to the rest, by its value.',
    [(M, '''                        trailing_rule.check(param)?;''', '''                        trailing_rule.check(param_node)?;''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register_remaining(ArgType::Literal(vec![])); expect(taken(r, "(f a :k b)").is_err(), "taken"); }''')
bug('tenth-argument', 'C33', 'A rule for a position of two digits.',
    'Positions above nine go to the rest.',
    [(M, '''                let is_valid_argument = (rule.pattern)(&matcher);''', '''                let is_valid_argument = position < 10 && (rule.pattern)(&matcher) || param.is_attribute() && (rule.pattern)(&matcher);''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); for m in [place!(ArgPos::Int(11))] { r.register(m, Arg::Mandatory(any())); } r.register_remaining(any()); expect(taken(r, "(f a b c d e f g h i j k l)").is_ok(), "missing"); }''')
# C34
bug('stream-limit', 'C34', 'A stream of more than 64 KiB.',
    'The rest of it is not read.',
    [('lib.rs', '''    stream.read_to_string(&mut contents)?;''', '''    { use io::Read as _; stream.take(0x10000).read_to_string(&mut contents)?; }''')],
    lib=LX + r'''fn main() { let text = "word ".repeat(20000); let n = seam::tree_builder_stream(&mut text.as_bytes()).unwrap().expand().unwrap().len(); expect(n == 20000, "short"); }''')
bug('printing-pads', 'C34', 'A formatter which is printed with a precision.',
    'The output is cut off by it.',
    [(A, '''        self.generate(f).map_err(|_| fmt::Error)''', '''        let mut text = String::new();
        self.generate(&mut text).map_err(|_| fmt::Error)?;
        f.pad(&text)''')],
    lib=LX + r'''fn main() { let f: Box<dyn MarkupFormatter> = Box::new(seam::assemble::text::PlainTextFormatter::new(tree("(a)"))); expect(format!("{:.2}", f) == "(a)", "cut"); }''')
# C35
bug('peek-near-end', 'C35', 'Looking ahead at a token which is followed by nothing.',
    'The position within the line is not restored.',
    [(L, '''        self.byte_offset_line.set(bol);
        self.line.set(l);
        // What did the action produce.''', '''        if self.byte_offset_line.get() < bol || self.line.get() == l { self.byte_offset_line.set(bol); } else { self.byte_offset_line.set(bol.max(self.byte_offset_line.get())); }
        self.line.set(l);
        // What did the action produce.''')],
    lib=LX + r'''fn main() { let l = Box::leak(Box::new(seam::parse::lexer::Lexer::new("x".into(), "a \n       b".into()))); l.consume().unwrap(); l.peek().unwrap(); expect(l.consume().unwrap().site.bytes_from_start_of_line == 7, "offset"); expect({ let l = Box::leak(Box::new(seam::parse::lexer::Lexer::new("x".into(), "a (\"x\n       y\" c)".into()))); let mut v = vec![]; while !l.eof() { l.peek().unwrap(); v.push(l.consume().unwrap().site.bytes_from_start_of_line); } v == vec![0, 2, 3, 10, 11] }, "multi"); }''')
# C36
bug('timestamp-expands-twice', 'C36', 'A `%log` within the arguments of `%timestamp`.',
    'They are expanded twice.',
    [(E, '''        let params = self.expand_nodes(params)?;
        let (_, args) = arguments! { [&params]
            mandatory(1): literal,
            mandatory(2): literal,''', '''        let params = self.expand_nodes(params.clone()).and_then(|_| self.expand_nodes(params))?;
        let (_, args) = arguments! { [&params]
            mandatory(1): literal,
            mandatory(2): literal,''')],
    [text('(p (%timestamp "%Y-%m-%d %H" (%do (%log x) "2020-01-01 00") :timezone 0))\n', err=True)] and None,
    lib=None or LX + r'''fn main() { let o = std::process::Command::new("true").output(); let _ = o; if std::env::args().nth(1).is_some() { let _ = show("(p (%timestamp \"%Y-%m-%d %H:%M\" (%do (%log x) \"2020-01-01 00:00\") :timezone 0))"); return } let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("1").output().unwrap(); let e = String::from_utf8_lossy(&o.stderr).to_string(); expect(e.matches("log").count() == 1, &e); }''')
