"""The planted bugs: see plant.py."""
E = 'parse/expander.rs'; L = 'parse/lexer.rs'; T = 'parse/tokens.rs'; P = 'parse/parser.rs'; M = 'parse/macros.rs'
H = 'assemble/html.rs'; X = 'assemble/xml.rs'; C = 'assemble/css.rs'; S = 'assemble/sexp.rs'; PT = 'assemble/text.rs'
A = 'assemble/mod.rs'; B = 'bin.rs'
BUGS = []
def bug(id, property, needs, breaks, edits, cases=None, lib=None):
    b = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits)
    if lib: b['lib'] = lib
    else: b['cases'] = cases
    BUGS.append(b)
def text(src, **kw): return dict(args=['--text', '--nodoc'], src=src, **kw)
def sexp(src, **kw): return dict(args=['--sexp', '--nodoc'], src=src, **kw)
def html(src, **kw): return dict(args=['--html', '--nodoc'], src=src, **kw)
def xml(src, **kw): return dict(args=['--xml', '--nodoc'], src=src, **kw)
def css(src, **kw): return dict(args=['--css', '--nodoc'], src=src, **kw)

bug('triple-quoted-line', 'C04', 'A triple-quoted string which spans several lines.',
    'Its site names the line where the string ends, so that line and column do not fit together.',
    [(L, '''            // String 'value' is inside quotes.
            let value: &str = &self.source[start_of_string..end_of_string];
            let mut site: Site = self.site(start, line_offset);
            site.line = line_no;
            Token::new(tokens::Kind::String, value, whitespace, site)
        } else {''', '''            // String 'value' is inside quotes.
            let value: &str = &self.source[start_of_string..end_of_string];
            let site: Site = self.site(start, line_offset);
            Token::new(tokens::Kind::String, value, whitespace, site)
        } else {''')],
    [text('(p a)\n(%map """x\ny""" b)\n', err=True)])

bug('column-in-chars', 'C29', 'Wide or combining characters on the line, ahead of where an error is.',
    'The column is counted in characters instead of terminal columns, so that the marker points beside the fault.',
    [(T, "UnicodeWidthStr::width(preceeding) + 1", "preceeding.chars().count() + 1")],
    [text('(p "漢字" %nope)\n', err=True)])

bug('comment-newline', 'C07', 'A comment at the end of a line with something behind it.',
    'The line-break which ends a comment is dropped, joining what is before and behind the comment.',
    [(L, '''                    // Now, whitespace is only what comes *after* the comment.
                    start = index;''', '''                    // Now, whitespace is only what comes *after* the comment.
                    start = self.byte_offset.get();''')],
    [text('a ; one\nb ; two\n\nc\n')])

bug('escaped-backslash-ends-string', 'C05', 'A string which has an escaped backslash right before its closing quote.',
    'Two backslashes escape the quote behind them, so that the string does not end where it should.',
    [(L, '''                if next_char == '"' && !reading_escape {
                    break;  // End-of-string.
                }
                if !reading_escape {
                    reading_escape = next_char == '\\\\';
                } else {
                    reading_escape = false;
                }
''', '''                if next_char == '"' && !reading_escape {
                    break;  // End-of-string.
                }
                reading_escape = next_char == '\\\\';
''')],
    [text('(p "a\\\\" "b")\n')])

bug('number-patterns-by-value', 'C15', 'A number in a pattern which is written in another way than the number given.',
    'Numbers match by value although literals in patterns have to match exactly.',
    [(E, 'ParseNode::Number(number1) => if number0 == number1 { Ok(()) } else {',
         'ParseNode::Number(number1) => if number0 == number1 || matches!((number0.value.parse::<f64>(), number1.value.parse::<f64>()), (Ok(x), Ok(y)) if x == y) { Ok(()) } else {')],
    [text('(%match 1.0 (1 "one") (1.0 "one point zero"))\n')])

bug('null-argument-default', 'C15', 'A keyword argument which is given explicitly as the empty list `()`.',
    'The default is used in place of the empty list which was given.',
    [(E, '''                Some(attr) => attr.attribute().unwrap().1,
''', '''                Some(attr) => match attr.attribute().unwrap().1 {
                    value if value.null() => *default, // Nothing was given.
                    value => value,
                },
''')],
    [text('(%define (f a :k 1) (r %a %k)) (%f x) (%f x :k 2) (%f :k () x)\n')])

bug('match-bindings-leak', 'C15', 'A pattern which binds a name before it turns out not to match, while the arm chosen later uses a variable of that name from outside.',
    'Names bound by patterns that failed are visible in the arm that is chosen.',
    [(E, '''        for pattern in patterns {
            let Some(pattern_list) = pattern.list() else {''', '''        let subcontext = self.clone(); // Subscope.
        for pattern in patterns {
            let Some(pattern_list) = pattern.list() else {'''),
     (E, '''            // we evaluate the RHS of the list and return that.
            let subcontext = self.clone(); // Subscope.
''', '''            // we evaluate the RHS of the list and return that.
''')],
    [text('(%define x outer) (%match (1 2) ((x 3) no) ((1 y) %x %y))\n')])

bug('for-in-outer-scope', 'C14', 'A `%for` loop whose variable (or a definition in its body) has the name of something outside.',
    'The loop variable and definitions made inside of the loop replace those of the surrounding scope.',
    [(E, '''        let context = self.clone();
        let mut expanded = Vec::with_capacity(list.len());
        for item in list {
            context.bind(&it, &item)?;
            let evaluated = context.expand_nodes(body.clone())?;''', '''        let mut expanded = Vec::with_capacity(list.len());
        for item in list {
            self.bind(&it, &item)?;
            let evaluated = self.expand_nodes(body.clone())?;''')],
    [text('(%define x outer) (%for x in (1 2) (r %x)) %x\n')])

bug('lazy-multi-definition', 'C14', 'A variable with more than one node as its value, and one of the variables it uses being redefined before it is used.',
    'Such a definition is evaluated each time it is used instead of when it is made.',
    [(E, '''            let body = self.expand_nodes(nodes)?;
            (variable.value.clone(), vec![], body)''', '''            let body = match &*nodes {
                [_] => self.expand_nodes(nodes)?,
                _ => nodes, // Expanded along with what surrounds it.
            };
            (variable.value.clone(), vec![], body)''')],
    [text('(%define a 1) (%define both %a and %a) (%define a 2) %both\n')])

bug('parameterless-macro-scope', 'C14', 'A macro without parameters whose body defines something.',
    'Definitions made in the body of such a macro leak into the scope of its caller.',
    [(E, '''        self.apply_macro(mac, node, params)
    }''', '''        if mac.params.is_empty() && params.is_empty() {
            self.expand_nodes(mac.body.clone()) // Nothing to bind.
        } else {
            self.apply_macro(mac, node, params)
        }
    }''')],
    [text('(%define x 1) (%define (f) (%define x 2) %x) (%f) %x\n')])

bug('ifdef-empty-definition', 'C16', 'A name which is defined as nothing at all, tested with `%ifdef`.',
    'Names that are defined to be empty count as undefined.',
    [(E, '''        let mut expanded = if self.has_variable(&symbol) {''',
         '''        let defined = self.get_variable(&symbol).is_some_and(|var| !var.body.is_empty());
        let mut expanded = if defined && self.has_variable(&symbol) {''')],
    [text('(%define flag) (%ifdef flag yes no) (%ifdef none yes no)\n')])

bug('include-replaces-extension', 'C21', 'An include without `.sex` whose name has a dot in it.',
    'The extension is replaced instead of appended, so the wrong file (or none) is included.',
    [(E, '''                    let filename = path.file_name()
                        .ok_or(include_error(err))?;''', '''                    let filename = path.file_stem()
                        .ok_or(include_error(err))?;''')],
    [text('(%include page.v2)\n', files={'page.v2.sex': 'right\n', 'page.sex': 'wrong\n'})])

bug('embed-last-directory', 'C21', 'A file to embed which exists in more than one of the include directories.',
    'The last match is embedded, not the first.',
    [(E, '''            value = std::fs::read_to_string(path)
                .map_err(|err| embed_error(Box::new(err)));
            if value.is_ok() { break; }
        }
        let value = value?;''', '''            let found = std::fs::read_to_string(path)
                .map_err(|err| embed_error(Box::new(err)));
            if value.is_err() || found.is_ok() { value = found; }
        }
        let value = value?;''')],
    [dict(args=['--text', '--nodoc', '-Ione', '-Itwo'], src='(%embed f.txt)', files={'one/f.txt': 'first', 'two/f.txt': 'second'})])

bug('namespace-prefixed-name', 'C22', 'A definition inside of `%namespace` whose own name already starts with the name of the namespace.',
    'Such definitions are not prefixed again.',
    [(E, '''                let new_key = format!("{}{}{}", namespace.value, separator, key);
''', '''                let new_key = match key.strip_prefix(namespace.value.as_str()) {
                    Some(rest) if rest.starts_with(separator) => key.to_owned(),
                    _ => format!("{}{}{}", namespace.value, separator, key),
                };
''')],
    [text('(%namespace ns (%define ns/x 1) (%define y 2)) %ns/y %ns/ns/x\n')])

bug('get-last-keyword', 'C16', '`%get` with a keyword which occurs more than once in the list.',
    'The last of the attributes is taken, not the first.',
    [(E, '''                            got = Ok(*node.clone());
                            break;
''', '''                            got = Ok(*node.clone());
''')],
    [text('(%get k (:j 0 :k 1 x :k 2))\n')])

bug('join-skips-empty', 'C19', '`%join` with an empty string among the joined items.',
    'Empty items are left out along with their separator.',
    [(E, 'let items: Vec<&str> = args.rest.iter().map(|n| n.value.as_str()).collect();',
         'let items: Vec<&str> = args.rest.iter().map(|n| n.value.as_str()).filter(|s| !s.is_empty()).collect();')],
    [text('(%join "," a "" b)\n')])

bug('filter-many-nulls', 'C17', 'A predicate for `%filter` which yields more than one node, all of them `()`.',
    'All results made of nothing but empty lists are removed, not just a single one.',
    [(E, '[node,] if node.null() => {},', 'nodes if nodes.iter().all(ParseNode::null) => {},')],
    [sexp('(%define (f x) () ()) (%define (g x) ()) a (%filter f 1) b (%filter g 1)\n')])

bug('strip-keeps-newline', 'C16', '`%strip` on something that starts on a line of its own.',
    'Line-breaks are not stripped.',
    [(E, '''        if let Some(first) = params.get_mut(0) {
            first.set_leading_whitespace(String::new());
        }
        Ok(params)''', '''        if let Some(first) = params.get_mut(0) {
            if !first.leading_whitespace().contains('\\n') {
                first.set_leading_whitespace(String::new());
            }
        }
        Ok(params)''')],
    [text('a (%strip\n  b c)\n')])

bug('lambda-names-collide', 'C17', 'Two lambdas at the same offset of different files, with one used after the other was made.',
    'They get the same name, so that the earlier one turns into the later one.',
    [(E, 'let name = format!("__lambda{}", node.site().uuid());',
         'let name = format!("__lambda{}", node.site().bytes_from_start);')],
    [text('(%define f (%lambda (x) (r %x)))\n(%include g)\n(%map %f 1 2) (%map %g 1 2)', files={'g.sex': '(%define g (%lambda (x) (s %x)))\n'})])

bug('timestamp-fraction', 'C20', 'A date before 1970 with a fraction of a second, given to `%timestamp`.',
    'The fraction is cut off towards 1970 instead of towards the past: one second too late.',
    [(E, """                    node.site(),
                ))
            };
            datetime.timestamp()""", """                    node.site(),
                ))
            };
            datetime.timestamp_millis() / 1000""")],
    [text('(%timestamp "%Y-%m-%d %H:%M:%S%.f" "1969-12-31 23:59:50.5" :timezone 0)\n')])

bug('glob-equal-times', 'C26', 'Two files with the same modification time, sorted by it.',
    'Of files modified at the same moment only one is listed.',
    [(E, '''                        if d0 == d1 { // If modified at the same time, default to alphabetical.
                            self.path.partial_cmp(&other.path)
                        } else {
                            // "ascending" order should be in terms of recentness.
                            d0.partial_cmp(&d1).map(|ord| ord.reverse()) // New < Old
                        }''', '''                        // "ascending" order should be in terms of recentness.
                        d0.partial_cmp(&d1).map(|ord| ord.reverse()) // New < Old''')],
    [dict(args=['--text', '--nodoc'], src='(%glob "d/*" :sort modified)', files={'d/a': '', 'd/b': '', 'd/c': ''}, setup='touch -d @1000000000 d/a d/c; touch -d @1100000000 d/b\n')])

bug('glob-name-order', 'C26', 'Globbed paths in directories of which one has a name that continues the other with a character before `/`.',
    'Names are compared as text and no longer component by component.',
    [(E, 'SortBy::Name => self.path.partial_cmp(&other.path),', 'SortBy::Name => self.path.as_os_str().partial_cmp(other.path.as_os_str()),')],
    [dict(args=['--text', '--nodoc'], src='(%glob "d/*/*" :sort name)', files={'d/a/z': '', 'd/a-b/c': ''})])

bug('yaml-index-after-nested', 'C23', 'A YAML sequence with another item behind a nested sequence or mapping.',
    'Definitions of the items behind a nested one get the wrong index.',
    [(E, 'Some(Mode::Seq) => Some(format!("{}", self.nodes.len() + 1)),', 'Some(Mode::Seq) => Some(format!("{}", self.nodes.len())),')],
    [text('(%define y (%yaml "l:\\n  - [1, 2]\\n  - 3\\n")) %l/1\n')])

bug('yaml-deep-separator', 'C23', 'A YAML document nested three levels deep, with a separator other than `/`.',
    'Inner levels are joined by `/` whatever the separator is.',
    [(E, '''    impl<'a, 'b> EventSink<'a, 'b> {
        fn qualified(&self, name: &str) -> String {
            if self.prefix.is_empty() {
                name.to_owned()
            } else {
                let prefix = self.prefix.join(&self.sep);''', '''    impl<'a, 'b> EventSink<'a, 'b> {
        fn qualified(&self, name: &str) -> String {
            if self.prefix.is_empty() {
                name.to_owned()
            } else {
                let prefix = self.prefix.join("/");''')],
    [text('(%define y (%yaml :separator "." "a:\\n  b:\\n    c: 1\\n")) %a.b.c\n')])

bug('toml-big-integers', 'C24', 'A TOML integer that does not fit into the mantissa of a double.',
    'Big integers lose digits.',
    [(E, '''                toml::Value::Integer(int) => ParseNode::Number(Node {
                    value: format!("{}", int),''', '''                toml::Value::Integer(int) => ParseNode::Number(Node {
                    value: format!("{}", int as f64),''')],
    [text('(%toml "a = 9007199254740993\\nb = 12")\n')])

bug('markdown-content-defines', 'C25', '`:only content` on Markdown with frontmatter, whose names are used elsewhere.',
    'The frontmatter is turned into definitions though only the content was asked for.',
    [(E, 'Only::Content => to_html(),', 'Only::Content => { let _ = extract_frontmatter(); to_html() },')],
    [text('(%define title mine) (%markdown :only content "---\\ntitle: theirs\\n---\\nhello\\n") %title\n')])

bug('option-value-as-string', 'C28', 'An option of a macro which is given as a string with a value it cannot have.',
    'The value is not checked, and the program panics or takes it for another.',
    [(M, '''            ParseNode::String(..) | ParseNode::Raw(..) => match self {
                Literal(pred) | String(pred) | Any(pred) => check_all(pred, node),''',
         '''            ParseNode::String(..) | ParseNode::Raw(..) => match self {
                Literal(..) => Ok(()),
                String(pred) | Any(pred) => check_all(pred, node),''')],
    [text('(%join :trailing "maybe" "," a b)\n')])

bug('void-order', 'C08', 'One of the void elements that come late in the alphabet.',
    'The table that is searched by bisection is no longer sorted, so some void elements get a closing tag.',
    [(H, '''    "link",
    "meta",
    "param",''', '''    "meta",
    "link",
    "param",''')],
    [html('(p (link :rel x) (meta :a b) (br) (param :a b))\n')])

bug('escape-keeps-entities', 'C09', 'A text which contains something that reads like a character entity.',
    'Ampersands that start an entity are not escaped, so `&lt;` in a text shows as `<`.',
    [(A, """    while let Some(byte) = bytes.next() {
        match byte {""", """    while let Some(byte) = bytes.next() {
        let rest = &string.as_bytes()[string.len() - bytes.len()..];
        match byte {"""),
     (A, """            b'&'  => byte_builder.extend(b"&amp;"),
""", """            // Entities are already escaped.
            b'&'  => byte_builder.extend(if [b"lt;", b"gt;"].iter().any(|entity| rest.starts_with(*entity)) { &b"&"[..] } else { b"&amp;" }),
""")],
    [html('(p "&lt;b> is how to write <b>")\n')])

bug('html-closing-of-uppercase-void', 'C08', 'A void element whose name is written in capitals.',
    'It gets a closing tag (and may have children).',
    [(H, "if VOID_ELEMENTS.binary_search(&tag.as_str()).is_ok() {",
         "if VOID_ELEMENTS.iter().any(|void| list[0].symbol().is_some_and(|name| name.value == *void)) {")],
    [html('(p (br) (BR))\n')])

bug('attributes-touch', 'C08', 'A keyword right behind a quoted value, with no space between them.',
    'Two attributes run together.',
    [(H, """                            = if leading_whitespace.is_empty()
                              { " " } else { leading_whitespace };""", """                            = if leading_whitespace.is_empty() && rest.len() == list.len() - 1
                              { " " } else { leading_whitespace };""")],
    [html('(p :a "1":b "2" x)\n')])

bug('nested-html-tag', 'C10', 'An element named `html` which is inside of another top-level element.',
    'It is taken for the root of the document, so the document gets none.',
    [(H, 'self.tree.search_node(SearchType::ListHead, "html", true, 1);', 'self.tree.search_node(SearchType::ListHead, "html", true, 2);')],
    [dict(args=['--html'], src='(div (html x))\n')])

bug('math-is-html', 'C11', '`<math>` with a child that HTML treats in a special way.',
    'The contents of `<math>` are generated as HTML, not as XML.',
    [(H, '"math" | "svg" => {  // <math>', '"svg" => {  // <math>')],
    [html('(div (math (source 1) (br x)))\n')])

bug('xml-declaration-anywhere', 'C12', 'A document whose `?xml` declaration has its name in capitals.',
    'The declaration is not recognised and a second one is put in front.',
    [(X, """declaration.value.to_lowercase() == "?xml\"""", """declaration.value == "?xml\"""")],
    [dict(args=['--xml'], src='(?XML :version "1.0") (a b)\n')])

bug('css-tab-in-value', 'C13', 'A property value with whitespace in it other than blanks.',
    'Such values are not quoted.',
    [(C, 'Ok(if node.value.chars().any(|c| c.is_whitespace()) {', "Ok(if node.value.contains(' ') {")],
    [css('(p :content "a\\tb" :x "a b")\n')])

bug('css-unary', 'C13', 'An operator in a CSS value that has one operand and is itself an operand.',
    'A unary operation loses its parentheses.',
    [(C, """                        format!("({})", args)
                    } else {""", """                        if tail.len() == 1 { args } else { format!("({})", args) }
                    } else {""")],
    [css('(p :width (calc (* 2 (- x)) (+ 1 2)))\n')])

bug('list-equality-by-prefix', 'C30', 'Two lists of which one begins with all the items of the other.',
    'They count as equal.',
    [(P, 'Self::List { nodes: nodes1, .. } => nodes0 == nodes1,', 'Self::List { nodes: nodes1, .. } => nodes0.iter().zip(nodes1.iter()).all(|(node0, node1)| node0 == node1),')],
    lib="""
fn main() {
    let a = seam::tree_builder(Option::<&str>::None, String::from("(a b) (a b c) (a c)"));
    let tree = a.expand().unwrap();
    let equal = tree[0] == tree[1];
    let other = tree[0] == tree[2];
    std::process::exit(if equal || other || tree[0] != tree[0].clone() { 1 } else { 0 });
}
""")

bug('search-through-attribute', 'C30', 'A search with a limited depth, for something inside of an attribute.',
    'An attribute does not count as a level, so that the search goes deeper than it may.',
    [(P, """                        return Some(node);
                    }
                }
                node.search_node(kind, value, insensitive, level - 1)""", """                        return Some(node);
                    }
                }
                node.search_node(kind, value, insensitive, level)""")],
    lib="""
use seam::parse::parser::{SearchTree, SearchType};
fn main() {
    let a = seam::tree_builder(Option::<&str>::None, String::from("(a :k (b c) d)"));
    let tree = a.expand().unwrap();
    let found: Vec<bool> = (0..6).map(|level| tree[0].search_node(SearchType::Symbol, "c", false, level).is_some()).collect();
    std::process::exit(if found == [false, false, false, false, true, true] { 0 } else { println!("{:?}", found); 1 });
}
""")

bug('first-target-wins', 'C27', 'More than one output format on the command line.',
    'The first format is used and not the last.',
    [(B, """                if SUPPORTED_TARGETS.contains(&opt) {
                    target = opt.to_owned();
                    continue;
                }""", """                if SUPPORTED_TARGETS.contains(&opt) {
                    if target.is_empty() { target = opt.to_owned(); }
                    continue;
                }""")],
    [dict(args=['--text', '--nodoc', '--html'], src='(p "x")\n')])

bug('includes-first-file-only', 'C27', 'More than one file on the command line, of which a later one includes something from a directory given by `-I`.',
    'Only the first file sees the include directories.',
    [(B, """        let mut builder = seam::tree_builder_file(&file)?;
        builder.add_includes(include_dirs.iter());""", """        let mut builder = seam::tree_builder_file(&file)?;
        builder.add_includes(include_dirs.drain(..));""")],
    [dict(args=['--text', '--nodoc', '-Id', 'in.sex', 'in.sex'], files={'in.sex': '(%include x)', 'd/x.sex': 'hi'})])

bug('escape-drops-nbsp', 'C09', 'Text in HTML or XML with characters beyond ASCII, whose encoding has certain bytes.',
    'Bytes which look like no-break spaces are replaced in the middle of characters.',
    [(A, "            _ => byte_builder.push(byte)", "            0xA0 => byte_builder.extend(b\"&nbsp;\"),\n            _ => byte_builder.push(byte),")],
    [html('(p "x\u00a0y") (q "\u00e0")\n')])

bug('string-joins-by-space', 'C19', '`%string` with arguments which are further apart (or closer together) than one blank.',
    'The space between arguments becomes one blank whatever it was.',
    [(E, """            builder += leading_whitespace;
            builder += value;
        }
        Ok(Box::new([
            ParseNode::String(Node {
                value: builder,""", """            builder += if leading_whitespace.is_empty() { "" } else { " " };
            builder += value;
        }
        Ok(Box::new([
            ParseNode::String(Node {
                value: builder,""")],
    [text('(%string a  b\n c"d")\n')])

bug('trailing-without-items', 'C19', '`%join :trailing true` without any items.',
    'There is no trailing separator.',
    [(E, 'let joined = items.join(sep) + if trailing { sep } else { "" };', 'let joined = items.join(sep) + if trailing && !items.is_empty() { sep } else { "" };')],
    [text('(%join "," :trailing true) (%join "," :trailing true "")\n')])
