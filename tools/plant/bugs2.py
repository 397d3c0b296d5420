"""The second batch of planted bugs: see plant.py."""
from bugs import *
from bugs import bug
LX = r'''use seam::assemble::MarkupFormatter;
use seam::parse::parser::*;
#[allow(dead_code)] fn show(src: &str) -> String {
    let e = Box::leak(Box::new(seam::tree_builder(Option::<&str>::None, src.to_string())));
    let tree = e.expand().unwrap_or_else(|x| panic!("{}", x));
    seam::assemble::sexp::SExpFormatter::new(tree).display().unwrap()
}
#[allow(dead_code)] fn tree(src: &str) -> ParseTree<'static> {
    let e = Box::leak(Box::new(seam::tree_builder(Option::<&str>::None, src.to_string())));
    e.expand().unwrap_or_else(|x| panic!("{}", x))
}
fn expect(ok: bool, what: &str) { if !ok { eprintln!("{}", what); std::process::exit(1) } }
'''
bug('yaml-top-scalar-after', 'C01', 'A YAML text that is nothing but a scalar.',
    'A scalar outside of any mapping or sequence is taken to be impossible.',
    [(E, '''                            None => {
                                // Push item.
                                if self.nodes.is_empty() {
                                    string.set_leading_whitespace(String::new());
                                }
                                self.nodes.push(string);
                            },
''', '''                            None => panic!("scalars always belong to a collection."),
''')],
    [text('(p (%yaml "just some text") x)\n')])
bug('invalid-timestamp-expect', 'C01', 'A `%date` with a timestamp beyond the years that the calendar covers.',
    'It panics instead of reporting the error.',
    [(E, '''            match chrono::DateTime::from_timestamp(secs, 0) {
                Some(time) => time,
                None => return Err(ExpansionError::new("Invalid timestamp.", &time.site)),
            }''', '''            chrono::DateTime::from_timestamp(secs, 0).expect("valid timestamp")''')],
    [text('(%date "%Y" 99999999999999 :timezone 0)\n', err=True)])
bug('include-without-name', 'C01', 'An include whose path has no file name, such as `..` or nothing.',
    'It panics instead of reporting the error.',
    [(E, '''                    let filename = path.file_name()
                        .ok_or(include_error(err))?;''', '''                    let filename = path.file_name()
                        .unwrap_or_else(|| panic!("cannot include: {}", err));''')],
    [text('(p (%include ".."))\n', err=True)])
bug('reverse-whitespace-index', 'C01', '`%reverse` of an empty list.',
    'The index of the last item underflows.',
    [(E, '''        for i in 0..list.len() {
            let mut item = list[list.len() - i - 1].clone();''', '''        let last = list.len() - 1;
        for i in 0..=last {
            let mut item = list[last - i].clone();''')],
    [text('(p (%reverse ()))\n')])
bug('lambda-site-seeds', 'C03', 'Output which shows the name of a lambda.',
    'The name is different in every run.',
    [(T, '''        let mut hasher = DefaultHasher::new();
        self.hash(&mut hasher);''', '''        let mut hasher = std::hash::BuildHasher::build_hasher(&std::collections::hash_map::RandomState::new());
        self.hash(&mut hasher);'''),
     (T, 'use std::{fmt::{self, Display}, hash::{DefaultHasher, Hash, Hasher}};', 'use std::{fmt::{self, Display}, hash::{Hash, Hasher}};')],
    [text('(p (%lambda (x) %x))\n')])
bug('sexp-empty-list-space', 'C06', 'A list with nothing but whitespace in it, printed as S-expressions.',
    'The whitespace is lost.',
    [(S, '''                sexp_fmt.generate(f)?;
                write!(f, "{}", end_token.leading_whitespace)?;''', '''                sexp_fmt.generate(f)?;
                if !nodes.is_empty() { write!(f, "{}", end_token.leading_whitespace)?; }''')],
    [sexp('(a ( ) (\n) b )\n')])
bug('text-attribute-list-space', 'C07', 'A keyword whose value is a list that is not right behind it.',
    'What is between them is lost in plain text.',
    [(PT, '''                write!(f, ":{}", keyword)?;
                self.generate_node(f, node)?;''', '''                write!(f, ":{}", keyword)?;
                match node.list() {
                    Some(nodes) => PlainTextFormatter::new(vec![ParseNode::List {
                        nodes: nodes.clone(), site: *node.site(), leading_whitespace: String::from(" "),
                        end_token: match &**node { ParseNode::List { end_token, .. } => *end_token, _ => unreachable!() },
                    }].into_boxed_slice()).generate(f).map_err(|_| std::fmt::Error)?,
                    None => self.generate_node(f, node)?,
                }''')],
    [text('(a :b\n  (c d) :e   (f) :g h)\n')])
bug('html-newline-starts', 'C08', 'A first child that is on the line below but with blanks behind the tag ahead of it.',
    'The line-break is dropped.',
    [(H, "is_first_node_on_next_line = first_node.leading_whitespace().contains('\\n');", "is_first_node_on_next_line = first_node.leading_whitespace().starts_with('\\n');")],
    [html('(div \n  (p a)\n)\n')])
bug('html-case-doctype', 'C10', 'A document with a doctype in small letters.',
    'Another doctype is put in front of it.',
    [(H, '''self.tree.search_node(SearchType::ListHead, "!doctype", true, 1);''', '''self.tree.search_node(SearchType::ListHead, "!DOCTYPE", false, 1);''')],
    [dict(args=['--html'], src='(!doctype html) (html (head) (body))\n'), dict(args=['--html'], src='(!DOCTYPE html) (p a)\n')])
bug('html-case-html', 'C10', 'A document whose `html` element is written in capitals.',
    'It is wrapped in another one.',
    [(H, '''self.tree.search_node(SearchType::ListHead, "html", true, 1);''', '''self.tree.search_node(SearchType::ListHead, "html", false, 1);''')],
    [dict(args=['--html'], src='(HTML (head) (body))\n')])
bug('html-empty-title', 'C11', 'A `textarea` or `title` which is not the last thing with text in its element.',
    'Text of a title is escaped like that of elements.',
    [(H, '"textarea" | "title" => {', '"textarea" | "title" if rest.len() > 1 => {')],
    [html('(title "a & b") (textarea "x<y")\n')])
bug('style-close-newline', 'C11', 'A `style` element with rules, whose parenthesis closes right behind the last rule, on an indented line.',
    'The closing tag is not on a line of its own.',
    [(H, 'if is_first_node_on_next_line || tag == "style" {', 'if is_first_node_on_next_line && tag != "style" {')],
    [html('(head\n  (style (p :a b))\n  (style\n    (p :a b)))\n')])
bug('xml-declaration-prefix', 'C12', 'A document which begins with `?xml-stylesheet`.',
    'It is taken to have an XML declaration.',
    [(X, 'if declaration.value.to_lowercase() == "?xml" {', 'if declaration.value.to_lowercase().starts_with("?xml") {')],
    [dict(args=['--xml'], src='(?xml-stylesheet :href "a.css") (p a)\n')])
bug('xml-style-close', 'C12', 'A `style` element in XML.',
    'Its closing tag is not placed as in other cases.',
    [(X, 'if is_first_node_on_next_line || tag == "style" {', 'if is_first_node_on_next_line {')],
    [xml('(svg\n  (style "a {}"))\n')])
bug('xml-declaration-symbols-only', 'C12', 'A declaration in XML with a number among its identifiers.',
    'Numbers are rejected.',
    [(X, 'if let Some(node) = rest[0].symbolic() {', 'if let Some(node) = rest[0].symbol() {')],
    [xml('(!ENTITY x 12) (p a)\n')])
bug('css-container', 'C13', 'An `@import`, `@namespace`, `@page` or `@property` rule.',
    'A new entry at the front of the list moves those which are referred to by index.',
    [(C, '''const CSS_SPECIAL_SELECTORS: [&str; 12]
    = [ "@charset"   , "@counter-style"       , "@document"''', '''const CSS_SPECIAL_SELECTORS: [&str; 13]
    = [ "@charset"   , "@container" , "@counter-style" , "@document"''')],
    [css('(@import "x.css")\n(@page :margin 1cm)\n(@media print (p :a b))\n')])
bug('css-calc-trim', 'C13', 'A CSS function whose last argument is empty.',
    'What is around the arguments is kept.',
    [(C, 'let args = args.trim();', 'let args = args.trim_start();')],
    [css('(p :a (rgb 1 2 ""))\n(p :b (foo 1 ()))\n')])
bug('for-fresh-scope', 'C14', 'A `%for` loop whose body uses in one round what it defined in the round before.',
    'Each round starts over with what is outside.',
    [(E, '''        let context = self.clone();
        let mut expanded = Vec::with_capacity(list.len());
        for item in list {
            context.bind(&it, &item)?;''', '''        let mut expanded = Vec::with_capacity(list.len());
        for item in list {
            let context = self.clone();
            context.bind(&it, &item)?;''')],
    [text('(%define last none) (%for x in (a b c) (is %x after %last) (%define last %x))\n')])
bug('macro-before-arguments', 'C14', 'A call whose arguments define (again) the very macro that is called.',
    'The macro as it was before the arguments were expanded is called.',
    [(E, '''        // Eagerly evaluate parameters passed to macro invocation.
        let params = self.expand_nodes(params)?;

        let Some(mac) = self.get_variable(name) else {
            return Err(ExpansionError::new(
                &format!("Macro not found (`{}').", name), &node.owned_site()))
        };
''', '''        let Some(mac) = self.get_variable(name) else {
            return Err(ExpansionError::new(
                &format!("Macro not found (`{}').", name), &node.owned_site()))
        };

        // Eagerly evaluate parameters passed to macro invocation.
        let params = self.expand_nodes(params)?;
''')],
    [text('(%define (f x) old %x)\n(%f (%do (%define (f x) new %x) 1))\n')])
bug('argument-newline-starts', 'C14', 'A macro call whose first argument is on the line below but with blanks behind the name of the macro.',
    'The line-break is dropped.',
    [(E, "if !leading.leading_whitespace().contains('\\n') {", "if !leading.leading_whitespace().starts_with('\\n') {")],
    [text('(%define x 1) (p (%do  \n  a b))\n')])
bug('pattern-raw-value', 'C15', 'A string in a pattern, and a raw string as the value.',
    'They do not match.',
    [(E, '''                ParseNode::String(string1) | ParseNode::Raw(string1) => if string0 == string1 { Ok(()) } else {''',
         '''                ParseNode::String(string1) => if string0 == string1 { Ok(()) } else {''')],
    [text('(%match (%raw "x") ("x" yes) (any no))\n')])
bug('rest-twice', 'C15', 'A list pattern with two `&`-rest names in it.',
    'It is accepted, with the last of them getting everything.',
    [(E, '''                // If another &-rest node has been found, report an error.
                if rest_node.is_some() {''', '''                // If another &-rest node has been found, report an error.
                if rest_node.is_some() && rest_kw_node.is_some() {''')],
    [text('(%match (1 2) ((&a &b) %a - %b) (any none))\n')])
bug('too-few-with-keywords', 'C15', 'Too few positional arguments in a call with keyword arguments.',
    'Running out of arguments is not noticed if there is a rest parameter.',
    [(E, '''            if rhs_index >= nodes1.len() {
                return Err(''', '''            if rhs_index >= nodes1.len() && { if rest_node.is_some() { break; } true } {
                return Err(''')],
    [text('(%define (f &r a) [%r %a])\n(%f)\n', err=True), text('(%define a out) (%match () ((&r a) %a) (any none))\n')])
bug('keyword-rest-value', 'C15', 'A keyword given for a `&&`-rest parameter, ahead of the last positional argument.',
    'It is forgotten.',
    [(E, '''                rhs_named.insert(keyword.clone(), node1);
                rhs_index += 1;
                // Continue''', '''                if rest_kw_node.is_none() || lhs_named.contains_key(keyword) { rhs_named.insert(keyword.clone(), node1); }
                rhs_index += 1;
                // Continue''')],
    [text('(%define (f a &&k b) (x %a %b %k))\n(%f 1 :x y 2) (%f 1 2 :x y)\n')])
bug('splat-whitespace', 'C16', '`%splat` of a list right behind something else.',
    'The first item keeps the space that it had in its list.',
    [(E, '''                if let [first, ..] = nodes.as_mut_slice() {
                    first.set_leading_whitespace(leading_whitespace);
                }''', '''                if let [first, ..] = nodes.as_mut_slice() {
                    if !leading_whitespace.is_empty() { first.set_leading_whitespace(leading_whitespace); }
                }''')],
    [text('(%define l ( a b)) (p x(%splat( a b)) y)\n'), text('(p "x"(%splat ( 1 2)))\n')])
bug('number-keeps-kind', 'C16', '`%symbol` of something that already was a number, where only symbols are good.',
    'Numbers stay numbers.',
    [(E, '''        for node in args.rest {
            expanded.push(ParseNode::Symbol(node));
        }''', '''        for node in args.rest {
            expanded.push(if node.value.parse::<f64>().is_ok() { ParseNode::Number(node) } else { ParseNode::Symbol(node) });
        }''')],
    [text('(%define (f x) (%match %x (1 number) (any other)))\n(%f (%symbol 1)) (%f 1)\n')])
bug('sort-descending-stability', 'C18', 'A list with equal keys sorted in descending order.',
    'Items with equal keys are in reverse.',
    [(E, '''            let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
            item0.key.cmp(&item1.key)
        });''', '''            item0.key.cmp(&item1.key)
        });
        if !ascending { items.reverse(); }''')],
    [text('(%sort :order descending (1 1.0 2 2.0 01))\n')])
bug('sort-unstable', 'C18', 'A list with more than twenty items, some of which have equal keys.',
    'Items with equal keys come in any order.',
    [(E, '''        items.sort_by(|item0, item1| {''', '''        items.sort_unstable_by(|item0, item1| {''')],
    [text('(%define (k x) (%get 0 %x))\n(%sort :key k (' + ' '.join(f'({i*7%3} {i})' for i in range(40)) + '))\n')])
bug('sort-whitespace-follows', 'C18', 'A list whose items are not equally spaced, sorted.',
    'The space goes along with the items.',
    [(E, '''            node.set_leading_whitespace(whitespace.pop().unwrap());
            node''', '''            let space = whitespace.pop().unwrap();
            if space.contains('\\n') || node.leading_whitespace().is_empty() || space.is_empty() { node.set_leading_whitespace(space); }
            node''')],
    [text('(%sort (c  a   d    b))\n')])
bug('date-ignores-seconds', 'C20', 'A time zone whose offset is not a whole number of minutes.',
    'The offset is cut to whole minutes.',
    [(E, '''        let time = time.with_timezone(&timezone);
''', '''        let time = time.with_timezone(&chrono::FixedOffset::east_opt(timezone_offset / 60 * 60).unwrap_or(timezone));
''')],
    [text('(%date "%H:%M:%S" 0 :timezone 0.001)\n')])
bug('include-whitespace', 'C21', 'An include at the end of a line, of a file that begins with blank lines.',
    'The space at the start of the file wins over that of the call.',
    [(E, '''        if expanded_tree.len() != 0 {
            expanded_tree[0].set_leading''', '''        if expanded_tree.len() != 0 && !expanded_tree[0].leading_whitespace().contains('\\n') {
            expanded_tree[0].set_leading''')],
    [text('(p a (%include "x"))\n', files={'x.sex': '\n\n  (b c)\n'})])
bug('include-empty-file', 'C21', 'An include of a file with nothing in it, while a directory further down has one of that name with contents.',
    'Empty files are skipped.',
    [(E, '''            if parser.is_ok() { break; }''', '''            if parser.as_ref().is_ok_and(|parser| !parser.get_source().is_empty()) { break; }''')],
    [dict(args=['--text', '--nodoc', '-Id', 'in.sex'], files={'in.sex': '(p (%include x))', 'x.sex': '', 'd/x.sex': 'hi'})])
bug('namespace-keeps-old', 'C22', 'The same namespace given twice, with a definition of the same name in both.',
    'The first definition stays.',
    [(E, '''self_defs.insert(new_key, value.clone());''', '''self_defs.entry(new_key).or_insert(value.clone());''')],
    [text('(%namespace a (%define x 1))(%namespace a (%define x 2)) %a/x\n')])
bug('yaml-empty-collection', 'C23', 'An empty mapping or sequence in YAML.',
    'It does not define a variable.',
    [(E, '''                        Some(ref name) => {
                            let name = self.qualified(name);
                            self.context''', '''                        Some(ref name) => if list.list().map_or(false, |list| !list.is_empty()) {
                            let name = self.qualified(name);
                            self.context''')],
    [text('(%yaml "a: []\\nb: {}\\nc: [1]\\n") %a %b %c\n')])
bug('toml-float-digits', 'C24', 'A TOML float with more than six digits behind the point.',
    'It is cut.',
    [(E, '''                    value: format!("{}", float),''', '''                    value: if float.fract() == 0.0 { format!("{}", float) } else { format!("{:.6}", float).trim_end_matches('0').to_owned() },''')],
    [text('(%toml "a = 0.123456789\\nb = 1e-9\\n")\n')])
bug('toml-array-names', 'C24', 'A TOML array inside of another array.',
    'Items of the inner one are named as if they were in the outer one.',
    [(E, '''                let node = self.traverse_value(value, first);
                self.prefix.pop();
                self.define(name, node.clone());''', '''                if value.is_array() { self.prefix.pop(); }
                let nested = value.is_array();
                let node = self.traverse_value(value, first);
                if !nested { self.prefix.pop(); }
                self.define(name, node.clone());''')],
    [text('(%toml "a = [[1, 2], [3]]\\n") %a/0/1 %a/1/0\n')])
bug('markdown-safe-links', 'C25', 'A link in Markdown with a protocol which is not common.',
    'Its target is removed.',
    [(E, '''          allow_dangerous_protocol: true,''', '''          allow_dangerous_protocol: false,''')],
    [text('(%markdown "[a](gopher://x/y)\\n")\n')])
bug('markdown-strikethrough', 'C25', 'Markdown with `~~text~~`.',
    'It is struck through although that is not part of the flavour.',
    [(E, '''                gfm_table: true,
''', '''                gfm_strikethrough: true,
                gfm_table: true,
'''), (E, 'gfm_strikethrough_single_tilde: false,', 'gfm_strikethrough_single_tilde: true,')],
    [text('(%markdown "a ~~b~~ c ~d~\\n")\n')])
bug('glob-extension-order', 'C26', 'Files with and without extensions, sorted by type.',
    'Files without extension come last.',
    [(E, '''                                Some(std::cmp::Ordering::Greater) // With ext. > No ext.''', '''                                Some(std::cmp::Ordering::Less) // With ext. < No ext.'''),
     (E, '''                                Some(std::cmp::Ordering::Less) // No ext. < With ext.''', '''                                Some(std::cmp::Ordering::Greater) // No ext. > With ext.''')],
    [text('(%glob "g/*" :sort type)\n', files={'g/a': '', 'g/b.x': '', 'g/c': ''})])
bug('glob-links-are-files', 'C26', 'A symbolic link to a directory among files.',
    'It counts as neither file nor directory.',
    [(E, '''                PathTypes::Dir  if !meta.is_dir()  => continue,''', '''                PathTypes::Dir  if !meta.is_dir() || path.is_symlink() => continue,''')],
    [text('(%glob "g/*" :type directory :sort name)\n', files={'g/a/x': '', 'g/b': ''}, setup='ln -s a g/c')])
bug('stdin-dash-with-files', 'C27', '`-` on the command line along with files.',
    'What is given on standard input is ignored.',
    [(B, '''                    [] => {
                        from_stdin = true;
                    },''', '''                    [] => {
                        from_stdin = files.is_empty();
                    },''')],
    [dict(args=['--text', '--nodoc', 'in.sex', '-'], files={'in.sex': 'file'})])
bug('exactly-ignores-case', 'C28', 'An option whose value is one of those allowed, but in capitals.',
    'It is accepted (and then taken for something else).',
    [(M, 'Self::Exactly(value) => if node.value == *value { Ok(()) } else {', 'Self::Exactly(value) => if node.value.eq_ignore_ascii_case(value) { Ok(()) } else {')],
    [text('(%sort :order Descending (1 3 2))\n', err=True), text('(%join :trailing TRUE "," a b)\n', err=True)])
bug('raw-is-no-string', 'C28', 'A raw string where a string is called for.',
    'It is rejected.',
    [(M, '''            ParseNode::String(..) | ParseNode::Raw(..) => match self {
                Literal(pred) | String(pred) | Any(pred) => check_all(pred, node),''', '''            ParseNode::String(..) | ParseNode::Raw(..) => match self {
                String(pred) if matches!(node, ParseNode::String(..)) => check_all(pred, node),
                Literal(pred) | Any(pred) => check_all(pred, node),''')],
    [text('(%toml (%raw "a = 1"))\n')])
bug('error-end-of-line', 'C29', 'An error on a line which ends in a carriage return.',
    'The line shown has its first character of the end of the line cut.',
    [(T, '''&self.source_code[self.start_of_line()..self.end_of_line()]''', '''&self.source_code[self.start_of_line()..self.end_of_line()].trim_end()''')],
    [text('(p %nope   \n)\n', err=True)])
bug('unclosed-innermost', 'C29', 'A list that is never closed, with other lists in it.',
    'The error points at the start of its last item.',
    [(P, '''                "Expected `)' closing parenthesis.".to_owned(),
                lparen.site.to_owned()))?;''', '''                "Expected `)' closing parenthesis.".to_owned(),
                elements.last().filter(|node| node.is_list()).map_or(lparen.site, |node| node.owned_site())))?;''')],
    [text('(a\n  (b c)\n', err=True)])
bug('search-ascii-case', 'C30', 'A search that ignores case, for a name with letters beyond ASCII.',
    'Only the case of ASCII letters is ignored.',
    [(P, '''string.to_lowercase() == value.to_lowercase()''', '''string.eq_ignore_ascii_case(value)''')],
    lib=LX + r'''fn main() {
    let t = tree("(É x)");
    expect(t.search_node(SearchType::ListHead, "é", true, 2).is_some(), "not found");
}''')
bug('hash-with-whitespace', 'C30', 'Two equal nodes that are spaced differently.',
    'Their hashes differ.',
    [(P, '''        self.value.hash(state)
''', '''        self.value.hash(state);
        self.leading_whitespace.len().hash(state)
''')],
    lib=LX + r'''fn main() {
    let t = tree("(a   b) (a b)");
    let set: std::collections::HashSet<_> = t.iter().collect();
    expect(set.len() == 1, "equal nodes with different hashes");
}''')
bug('html-formatters-shared', 'C31', 'An element followed by another one of the same name right behind.',
    'The space in front of the second one is the end of the first.',
    [(H, '''        while let Some(node) = tree_iter.next() {
            self.generate_html_node(f, node)?;
        }''', '''        while let Some(node) = tree_iter.next() {
            let mut node = node.clone();
            if let (Some(next), ParseNode::Raw(_)) = (tree_iter.peek(), &node) {
                if next.leading_whitespace().is_empty() { node.set_leading_whitespace(String::new()); }
            }
            self.generate_html_node(f, &node)?;
        }''')],
    [html('(p a (%raw "b")"c")\n')])
bug('arguments-in-live-scope', 'C02', 'Calls nested in the arguments of calls, more than four deep.',
    'The scope of the outer call moves in memory while it is referred to, as its arguments are expanded.',
    [(E, """        // Instance of expansion subcontext.
        let subcontext = self.create_subcontext();
        // Construct fake""", """        // Instance of expansion subcontext.
        let subcontext = self.create_subcontext();
        // Eagerly evaluate parameters passed to macro invocation.
        let params = self.expand_nodes(params)?;
        // Construct fake"""),
     (E, """        // Eagerly evaluate parameters passed to macro invocation.
        let params = self.expand_nodes(params)?;

        let Some(mac)""", """        let Some(mac)""")],
    [dict(args=['--text', '--nodoc', 'in.sex'], files={'in.sex': '(%define (g x) (h %x))\n(p ' + '(%g ' * 40 + '1' + ')' * 40 + ')\n(%define (f x &r :k d) (%define y (i %x %r)) %y %k)\n(p (%f a (%f b (%f c :k (%f d (%f e (%f 1 2 3))))) (%g 4)))\n'}, setup='ulimit -v 2000000; export MALLOC_PERTURB_=165')])
bug('xml-drops-continuation', 'C02', 'Text in HTML or XML with a character whose encoding has the byte 0xA0 in it.',
    'A `String` is built out of bytes which are not UTF-8.',
    [(A, "            _ => byte_builder.push(byte)", "            _ => if byte != 0xA0 { byte_builder.push(byte) }")],
    [html('(p "x\u00a0y") (q "\u00e0")\n')])
bug('string-start-in-character', 'C02', 'A comment that ends with a character beyond ASCII and the end of the file.',
    'Whitespace starts within a character.',
    [(L, """            if byte as char == '\\n' {
                self.next_line();""", """            if byte as char == '\\n' || byte == 0x85 {
                if byte == b'\\n' { self.next_line(); }""")],
    [text('a ; b\u2026\n c\n'), text('(a ; b\u0145 "c"\n d)\n')])
