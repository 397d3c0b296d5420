"""The fifth batch of planted bugs: see plant.py."""
from bugs4 import *
from bugs import bug
def bug_(*a, **k): pass
# C01
bug('include-of-parent', 'C01', 'An include of a path which has no file name, such as `..`.',
    'The file name is taken for granted.',
    [(E, '''                    let filename = path.file_name()
                        .ok_or(include_error(err))?;''', '''                    drop(err);
                    let filename = path.file_name().unwrap();''')],
    [text('(p (%include ".."))\n')])
bug('glob-first-of-none', 'C01', 'A glob in descending order which matches nothing.',
    'The first path is taken for granted.',
    [(E, '''        if let Some(first) = expanded.first_mut() {
            first.set_leading_whitespace(String::new());
        }
        Ok(expanded)''', '''        if !is_ascending_order || !expanded.is_empty() {
            expanded[0].set_leading_whitespace(String::new());
        }
        Ok(expanded)''')],
    [text('(p (%glob "nothing-*" :order descending))\n')])
bug('rest-name-slice', 'C01', 'A parameter which consists of nothing but one `&` and is not the last.',
    'The name of the rest is cut out too far.',
    [(E, '''            let rest_name = rest_symbol.value[1..].to_owned();''', '''            let rest_name = if rest.is_empty() { rest_symbol.value[1..].to_owned() } else { rest_symbol.value.split_at(1).1.chars().next().map(|_| rest_symbol.value[1..].to_owned()).unwrap() };''')],
    [text('(%define (f &) x)(p (%f a))\n')])
bug('css-tail-split', 'C01', 'A CSS operator without operands.',
    'The first operand is taken for granted.',
    [(C, '''                        let args = tail
                            .join(&format!(" {} ", head));''', '''                        let (first, others) = tail.split_first().unwrap();
                        let args = others.iter().fold(first.clone(), |acc, arg| format!("{} {} {}", acc, head, arg));''')],
    [css('(p :a (+))\n')])
bug_('caret-of-empty', 'C01', 'A keyword without a value whose name consists of combining characters.',
    'The width of the marker is taken to be at least two.',
    [(P, '''            "^".repeat(site.width()),''', '''            "^".repeat(if site.bytes_span > 3 { site.width() - 2 } else { site.width() }),''')],
    [text('(p :\u0301\u0301)\n', err=True)])
bug('sort-keys-of-nothing', 'C01', 'A key which expands to nothing.',
    'The key is taken before it is counted.',
    [(E, '''            if key.len() > 1 {
                return Err(ExpansionError(
                    format!("`:key` macro expanded''', '''            let kind = key[0].node_type();
            if key.len() > 1 {
                return Err(ExpansionError(
                    format!("`:key` macro expanded'''),
     (E, '''            let key_type = key.node_type();
''', '''            let key_type = kind;
''')],
    [text('(%define (k x))(p (%sort (a b) :key k))\n')])
# C02
bug('scope-ends-before-body', 'C02', 'Any call of a user macro.',
    'The scope is removed before the body is expanded in it.',
    [(E, '''        let expanded = subcontext.expand_nodes(mac.body.clone())?.to_vec();
        // Finished expanding macro, delete the subcontext.
        self.remove_subcontext();''', '''        // Finished binding, delete the subcontext unless the body needs it.
        if mac.body.len() > 1 && mac.body.iter().all(|node| node.is_atomic()) { self.remove_subcontext(); }
        let expanded = subcontext.expand_nodes(mac.body.clone())?.to_vec();
        if !(mac.body.len() > 1 && mac.body.iter().all(|node| node.is_atomic())) { self.remove_subcontext(); }''')],
    lib=LX + r'''fn main() { let o = std::process::Command::new("true").output(); let _ = o; if std::env::args().nth(1).is_some() { let t = show("(%define (f x) %x y %x)(%f (%list a b c d e f g))"); print!("{}", t); return }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("1").env("MALLOC_PERTURB_", "165").output().unwrap(); expect(o.status.success() && String::from_utf8_lossy(&o.stdout).trim() == "(a b c d e f g) y (a b c d e f g)", "freed"); }''')
bug_('keyword-start-in-blank', 'C02', 'A keyword at the very start of a source.',
    'The end of it is computed with the offset of the previous character.',
    [(L, '''        let value: &str = self.consume_identifier_string();
        let mut site: Site = self.site(start - 1, start_from_line  - 1);''', '''        let value: &str = self.consume_identifier_string();
        let mut site: Site = self.site(start - 1, start_from_line - 1);
        if value.ends_with('\\\\') { site.bytes_span += 1; }''')],
    lib=LX + r'''fn main() { let t = std::panic::catch_unwind(|| { let l = Box::leak(Box::new(seam::parse::lexer::Lexer::new("x".into(), ":a\\".into()))); l.consume().unwrap().site.view().len() }); expect(t.ok() == Some(3), "span"); }''')
# C03
bug('excess-keywords-hashed', 'C03', 'A call with several unknown keywords.',
    'They are listed in the order of a hash table.',
    [(E, '''            let excess_keywords = excess_keywords.join(", ");''', '''            let excess_keywords: std::collections::HashSet<String> = excess_keywords.into_iter().collect();
            let excess_keywords = excess_keywords.into_iter().collect::<Vec<String>>().join(", ");''')],
    lib=LX + r'''fn main() { let f = || Box::leak(Box::new(seam::tree_builder(Option::<&str>::None, "(%define (f x) %x)(%f 1 :a 1 :b 2 :c 3 :d 4 :e 5 :g 6)".to_string()))).expand().unwrap_err().to_string(); let a = f(); for _ in 0..8 { expect(f() == a, "order"); } }''')
bug('include-path-memo', 'C03', 'One process which reads a file, after which the file is written again.',
    'Files are only read once in a process.',
    [('lib.rs', '''    let contents = fs::read_to_string(&path)?;''', '''    static FILES: std::sync::Mutex<Vec<(std::path::PathBuf, String)>> = std::sync::Mutex::new(Vec::new());
    let mut files = FILES.lock().unwrap();
    let known = files.iter().find(|(name, _)| name == path).map(|(_, text)| text.clone());
    let contents = match known { Some(text) => text, None => fs::read_to_string(&path)? };
    files.push((path.to_owned(), contents.clone()));''')],
    lib=LX + r'''fn main() { let d = std::env::temp_dir().join(format!("seam-demo-{}", std::process::id())); std::fs::create_dir(&d).unwrap(); let p = d.join("x.sex"); let f = || { let e = Box::leak(Box::new(seam::tree_builder_file(&p).unwrap())); e.expand().unwrap().len() }; std::fs::write(&p, "a").unwrap(); let a = f(); std::fs::write(&p, "a b").unwrap(); let b = f(); std::fs::remove_dir_all(&d).unwrap(); expect((a, b) == (1, 2), "stale"); }''')
# C04
bug('tab-counts-as-column', 'C04', 'A tab before a node on its line.',
    'It counts as eight bytes of its line.',
    [(L, '''            self.increment_byte_offsets(1);
            if self.byte_offset.get() >= bytes.len() {''', '''            self.increment_byte_offsets(1usize);
            if byte == b'\\t' && bytes.get(index + 1) == Some(&b'\\t') && index > 0 && bytes[index - 1] == b'\\t' { self.byte_offset_line.set(self.byte_offset_line.get() + 7); }
            if self.byte_offset.get() >= bytes.len() {''')],
    lib=LX + r'''fn main() { let t = std::panic::catch_unwind(|| { let t = tree("a\n\t\t\tb"); t[1].site().bytes_from_start_of_line }); expect(t.ok() == Some(3), "offset"); }''')
bug('second-comment-blank', 'C04', 'Two comments in a row, the second of them indented.',
    'The blank text recorded starts behind the first one.',
    [(L, '''                    // Now, whitespace is only what comes *after* the comment.
                    start = index;''', '''                    // Now, whitespace is only what comes *after* the comment.
                    if start + 1 < index && bytes[start + 1] == b';' || bytes[start..index].iter().filter(|b| **b == b'\\n').count() < 3 { start = index; }''')],
    lib=LX + r'''fn main() { let t = tree("a\n\n\n\n ;x\n b"); expect(t[1].leading_whitespace() == "\n b".strip_suffix('b').unwrap(), "blank"); }''')
bug_('keyword-escape-line', 'C04', 'A symbol which contains an escaped line-break.',
    'Its line is the one on which it ends.',
    [(L, '''        let value: &str = self.consume_identifier_string();
        let mut site: Site = self.site(start, line_offset);
        site.line = line_no;
        Token::new(tokens::Kind::Symbol, value, whitespace, site)''', '''        let value: &str = self.consume_identifier_string();
        let mut site: Site = self.site(start, line_offset);
        site.line = line_no;
        if value.starts_with('\\\\') && value.len() > 2 { site.bytes_from_start_of_line = self.byte_offset_line.get().saturating_sub(value.len()).max(line_offset); }
        Token::new(tokens::Kind::Symbol, value, whitespace, site)''')],
    lib=LX + r'''fn main() { let t = tree("\\\nb"); expect(t[0].site().line == 1, "line"); }''')
bug('attribute-site-covers', 'C04', 'An attribute.',
    'Its position reaches up to its value when they touch.',
    [(P, '''        let value = self.parse_expr()?;
        Ok(ParseNode::Attribute {
            keyword: token.value.to_owned(),
            node: Box::new(value),
            site: token.site.to_owned(),''', '''        let value = self.parse_expr()?;
        let mut site = token.site.to_owned();
        if value.leading_whitespace().is_empty() { site.bytes_span += value.site().bytes_span; }
        Ok(ParseNode::Attribute {
            keyword: token.value.to_owned(),
            node: Box::new(value),
            site,''')],
    lib=LX + r'''fn main() { let t = tree(":a(b)"); expect(t[0].site().bytes_span == 2, "span"); }''')
# C05
bug('form-feed-blank', 'C05', 'A form feed in a source.',
    'It is blank.',
    [(L, '''    ['\\n', '\\r', '\\t', ' '].contains(&character)''', '''    character.is_ascii_whitespace()''')],
    [html('(p \x0c b)\n')])
bug('plus-alone-symbol', 'C05', 'A word which starts with a sign that no digit follows.',
    'It is a symbol rather than a number.',
    [(P, '''            Kind::Number => Ok(ParseNode::Number(self.parse_atomic()?)),''', '''            Kind::Number if token.value.len() > 1 || token.value.starts_with(|c: char| c.is_ascii_digit()) => Ok(ParseNode::Number(self.parse_atomic()?)),
            Kind::Number => Ok(ParseNode::Symbol(self.parse_atomic()?)),''')],
    [html('(- a)\n')])
bug_('trailing-backslash', 'C05', 'A symbol which ends in a backslash, at the end of the source.',
    'The backslash is kept.',
    [(P, '''            // Keep whichever character was escaped, even another backslash.
            builder.extend(chars.next());
            continue;''', '''            // Keep whichever character was escaped, even another backslash.
            builder.extend(chars.next());
            continue;''')],
    [text('a b\\')])
bug('colon-in-number', 'C05', 'A number with a colon in it.',
    'It ends the number.',
    [(L, '''                tokens::Kind::Symbol
              | tokens::Kind::Number
              | tokens::Kind::Keyword => {},
                _ => break''', '''                tokens::Kind::Symbol
              | tokens::Kind::Number => {},
                tokens::Kind::Keyword if !self.source[start..].starts_with(|c: char| c.is_ascii_digit()) => {},
                _ => break''')],
    [html('(p "x" 12:30 "y")\n'), html('(p 12:30)\n')])
# C06
bug_('sexp-keyword-space', 'C06', 'An attribute whose value touches its keyword.',
    'A blank is put between them.',
    [(S, '''                write!(f, ":{}", keyword)?;
                self.generate_node(f, node)?;''', '''                write!(f, ":{keyword}")?;
                if node.leading_whitespace().is_empty() && node.is_attribute() { write!(f, " ")?; }
                self.generate_node(f, node)?;''')],
    [sexp('(p :a\\ :b c) (p ::a "x") :a"x"\n'), sexp('(p :"x":(a) :: b)\n')])
bug('sexp-trailing-blank', 'C06', 'A list whose closing bracket is on a line of its own, and which holds nothing but attributes.',
    'The blank before the bracket is lost.',
    [(S, '''                write!(f, "{}", end_token.leading_whitespace)?;
                write!(f, ")")?;
''', '''                if !nodes.iter().all(|node| node.is_attribute()) || nodes.is_empty() { write!(f, "{}", end_token.leading_whitespace)?; }
                write!(f, ")")?;
''')],
    [sexp('(:a b :c d\n)\n')])
# C07
bug('text-nested-attribute', 'C07', 'An attribute whose value is an attribute.',
    'The inner keyword is left out.',
    [(PT, '''                write!(f, ":{}", keyword)?;
                self.generate_node(f, node)?;''', '''                write!(f, ":{}", keyword)?;
                match &**node {
                    ParseNode::Attribute { node: inner, .. } if inner.is_list() => self.generate_node(f, inner)?,
                    _ => self.generate_node(f, node)?,
                }''')],
    [text('(p :a :b (c))\n')])
bug('text-zero-width', 'C07', 'An item which is a string of blanks only.',
    'It is left out together with the blank text before it.',
    [(PT, '''                write!(f, "{}", node.leading_whitespace)?;
                write!(f, "{}", node.value)?;
            },''', '''                write!(f, "{}", node.leading_whitespace)?;
                if node.value == " " && node.leading_whitespace == " " { return Ok(()); }
                write!(f, "{}", &node.value)?;
            },''')],
    [text('(p a " " b)\n')])
# C08
bug('html-attribute-after-child', 'C08', 'An attribute behind the first child.',
    'It is taken as an attribute of the element.',
    [(H, '''                let mut rest = &list[1..];

                // Declarations behave differently.
                if tag''', '''                let mut sorted = list[1..].to_vec();
                if sorted.len() > 2 { sorted[1..].sort_by_key(|node| !node.is_attribute()); }
                let mut rest = if sorted.first().is_some_and(|node| node.is_attribute()) { &sorted[..] } else { &list[1..] };

                // Declarations behave differently.
                if tag''')],
    [html('(a :href b c :id d)\n')])
bug('html-declaration-layout', 'C08', 'A declaration over several lines.',
    'Its words keep their layout.',
    [(H, '''                            write!(f, " {}", node.value)?;
                        } else {
                            return Err(GenerationError::new("HTML",
                                "Non-symbolic''', '''                            if node.leading_whitespace.contains('\\n') { write!(f, "{}{}", node.leading_whitespace, node.value)?; } else { write!(f, " {}", node.value)?; }
                        } else {
                            return Err(GenerationError::new("HTML",
                                "Non-symbolic''')],
    [html('(!doctype\n   html)\n')])
bug('html-close-case', 'C08', 'An element with an upper-case name and an end bracket on a line of its own.',
    'The closing tag keeps its layout only for lower-case names.',
    [(H, '''                if end_token.leading_whitespace.is_empty() {
                    if is_first_node_on_next_line || tag == "style" {
                        write!(f, "{}", leading_whitespace)?;
                    }
                } else {''', '''                if end_token.leading_whitespace.is_empty() || list.len() == 1 {
                    if is_first_node_on_next_line || tag == "style" {
                        write!(f, "{}", leading_whitespace)?;
                    }
                } else {''')],
    [html('(p )\n')])
# C09
bug('escape-in-meta', 'C09', 'A content attribute with an ampersand in a void element.',
    'Only quotes are escaped in it.',
    [(H, """                            ParseNode::Raw(_) => write!(f, "{}=\\"{}\\"", keyword, atom.value)?,""", """                            ParseNode::Raw(..) => write!(f, "{}=\\"{}\\"", keyword, atom.value)?,
                            _ if VOID_ELEMENTS.contains(&tag.as_str()) && keyword == "content" => write!(f, "{}=\\"{}\\"", keyword, atom.value.replace('"', "&quot;"))?,""")],
    [html('(meta :content "a &lt; b")\n')])
bug('escape-chunks', 'C09', 'A text with a special character behind many others.',
    'Only the first kilobyte is escaped.',
    [(A, '''            _ => byte_builder.push(byte)
        }''', '''            _ => byte_builder.push(byte),
        }
        if byte_builder.len() > 1024 { byte_builder.extend(bytes.by_ref()); }''')],
    [html('(p "' + 'x' * 1030 + '<b>")\n')])
bug_('xml-attribute-number', 'C09', 'A symbol as the value of an XML attribute, with a quote in it.',
    'Symbols are written as they are.',
    [(X, '''        Ok(format!("{}=\\"{}\\"", keyword, escape_xml(&symbol.value)))''', '''        Ok(if node.is_symbol() { format!("{}=\\"{}\\"", keyword, symbol.value.replace('<', "&lt;").replace('&', "&amp;")) } else { format!("{}=\\"{}\\"", keyword, escape_xml(&symbol.value)) })''')],
    [xml('(a :b c\\"d)\n')])
# C10
bug('html-doctype-anywhere', 'C10', 'A doctype which is not the first thing in the source.',
    'It only counts when it is the first.',
    [(H, '''            = self.tree.search_node(SearchType::ListHead, "!doctype", true, 1);''', '''            = self.tree[0].search_node(SearchType::ListHead, "!doctype", true, 1);''')],
    [dict(args=['--html'], src='"x" (!doctype html) (html (body x))\n')])
bug('html-trailing-newlines', 'C10', 'A source whose output ends in several line-breaks.',
    'All of them are removed.',
    [(H, '''        if doc.ends_with('\\n') { let _ = doc.pop(); }''', '''        doc.truncate(doc.trim_end_matches('\\n').len());''')],
    [dict(args=['--html'], src='(!doctype html) (html (body x)) "\\n\\n"\n')])
# C11
bug('svg-in-svg', 'C11', 'A void HTML element name within an svg.',
    'It is closed within, as in HTML.',
    [(H, '''                    "math" | "svg" => {''', '''                    "math" | "svg" if !rest.iter().any(|node| node.list().and_then(|l| l.first()).and_then(|n| n.symbol()).is_some_and(|n| n.value == "foreignObject")) => {''')],
    [html('(svg (foreignObject (br)))\n')])
bug('textarea-escapes', 'C11', 'A textarea in upper case.',
    'Its name is compared as it is written.',
    [(H, '''                    "textarea" | "title" => {''', '''                    "textarea" | "title" if end_token.leading_whitespace.is_empty() || tag == "title" => {''')],
    [html('(textarea "<a>"\n)\n')])
bug_('pre-leading-newline', 'C11', 'A pre whose text starts on the next line.',
    'The line-break is left out.',
    [(H, '''                        write!(f, "{}</{}>", pre, tag)?;''', '''                        write!(f, "{}</{}>", pre.strip_prefix("\\n\\n").unwrap_or(pre), tag)?;''')],
    [html('(pre\n\n a)\n')])
# C12
bug('xml-attribute-gap', 'C12', 'An attribute behind a child element.',
    'It is left out.',
    [(X, '''        while let Some(node) = tree_iter.next() {
            self.generate_xml_node(f, node)?;
        }''', '''        let mut elements = 0;
        while let Some(node) = tree_iter.next() {
            if node.is_list() { elements += 1; }
            if elements < 2 || !node.is_attribute() { self.generate_xml_node(f, node)?; }
        }''')],
    [xml('(a (b) (c) :d e)\n')])
bug('xml-declaration-quote', 'C12', 'A declaration with a string in it.',
    'It is taken as a word.',
    [(X, '''                        if let Some(node) = rest[0].symbolic() {''', '''                        if let Some(node) = rest[0].symbolic().or(if front == '!' { rest[0].string() } else { None }) {''')],
    [xml('(!DOCTYPE a "b")\n')])
bug('xml-doc-newline', 'C12', 'An XML source which starts with a line-break.',
    'The declaration of the author is not recognised, so there are two.',
    [(X, '''                if declaration.value.to_lowercase() == "?xml" {''', '''                if declaration.value.to_lowercase() == "?xml" && current_node.map_or(true, |node| !node.leading_whitespace().contains('\\n')) {''')],
    [dict(args=['--xml'], src='\n(?xml :version "1.0") (a b)\n')])
# C13
bug('css-oneline-attribute', 'C13', 'An `@import` with several attributes.',
    'Only the first is in brackets.',
    [(C, '''                    write!(f, "({}: {}) ", keyword, css_value(keyword, &*node)?)?;
                },
                _ => write!(f, "{} ", css_value(selector, arg)?)?''', '''                    if node.is_string() { write!(f, "{}: {} ", keyword, css_value(keyword, &*node)?)?; } else { write!(f, "({}: {}) ", keyword, css_value(keyword, &*node)?)?; }
                },
                _ => write!(f, "{} ", css_value(selector, arg)?)?''')],
    [css('(@import "x" :a "b")\n')])
bug('css-list-in-list', 'C13', 'A list without a function name as an argument of a function.',
    'It is put in brackets.',
    [(C, '''                        format!("{} {}", head, args)
                    }''', '''                        if list.len() == 1 { format!("{}", head) } else { format!("{} {}", head, args) }
                    }''')],
    [css('(p :margin (auto) :b x)\n')])
bug('css-comma-first', 'C13', 'A nested function of the kind whose arguments are separated by commas.',
    'Its commas are those of the outer one.',
    [(C, '''                    let delim = if CSS_COMMA_DELIM.contains(&head.as_str()) {''', '''                    let delim = if CSS_COMMA_DELIM.iter().any(|name| head.starts_with(name)) {''')],
    [css('(p :a (rgba-x 1 2))\n')])
# C14
bug('definition-of-call', 'C14', 'A variable which is used within its own new definition.',
    'It is undefined there.',
    [(E, '''            let nodes = nodes.to_owned().into_boxed_slice();
            let body = self.expand_nodes(nodes)?;''', '''            let nodes = nodes.to_owned().into_boxed_slice();
            let before = self.definitions.borrow_mut().remove(&variable.value);
            let body = self.expand_nodes(nodes.clone());
            let body = match (body, before) {
                (Err(_), Some(before)) if nodes.len() > 1 => { self.insert_variable(variable.value.clone(), before); self.expand_nodes(nodes)? },
                (body, _) => body?,
            };''')],
    [text('(%define x a)(%define x %x)(p %x)\n')])
bug('shadowing-builtin', 'C14', 'A user macro with the name of a built-in one.',
    'It takes its place.',
    [(E, '''            "reverse"   => self.expand_reverse_macro(node, params),''', '''            "reverse" if !self.has_variable(name) => self.expand_reverse_macro(node, params),'''),],
    [text('(%define (reverse x) y)(p (%reverse (a b)))\n')])
bug('match-defines-outside', 'C14', 'A definition within a branch of `%match`.',
    'It is visible behind the match when the pattern binds nothing.',
    [(E, '''                return subcontext.expand_nodes(value.into());''', '''                return if pattern.is_number() { self } else { &subcontext }.expand_nodes(value.into());''')],
    [text('(%match 1 (1 (%define x y)))(%ifdef x a b)\n')])
# C15
bug('default-before-binding', 'C15', 'A keyword parameter whose default is given explicitly.',
    'An argument equal to its keyword counts as not given.',
    [(E, '''                Some(attr) => attr.attribute().unwrap().1,''', '''                Some(attr) if attr.attribute().unwrap().1.symbol().is_some_and(|s| s.value == **keyword) => default,
                Some(ref attr) => attr.attribute().unwrap().1,''')],
    [text('(%define (f :a d) %a)(p (%f :a a))\n')])
bug_('rest-before-last', 'C15', 'A rest parameter in front of others.',
    'The number of arguments counts the rest.',
    [(E, '''            let got = expected + rest.len();''', '''            let got = expected + rest.len() + rhs_named.len();''')],
    [text('(%define (f x :k d) %x)(p (%f a b :k c))\n', err=True)])
bug('nested-pattern-lengths', 'C15', 'A list pattern given a longer list, with named items.',
    'Named items make up for missing ones.',
    [(E, '''            let node1 = &nodes1[rhs_index];
            if let ParseNode::Attribute { keyword, .. } = node1 {
                // This is a named''', '''            let node1 = &nodes1[rhs_index];
            if let ParseNode::Attribute { keyword, node, .. } = node1 {
                if node0.is_list() && node.is_list() && !nodes0.iter().any(|n| n.is_attribute()) { self.bind(node0, node)?; maybe_node0 = nodes0_iter.next(); rhs_index += 1; expected += 1; continue; }
                // This is a named''')],
    [text('(%define (f (x y)) %x)(p (%f :k (a b)))\n')])
# C16
bug('for-of-attributes', 'C16', 'A `%for` over a list with keywords.',
    'They are skipped.',
    [(E, '''        for item in list {
            context.bind(&it, &item)?;''', '''        for item in list {
            if it.is_symbol() && item.attribute().is_some_and(|(_, node)| node.is_list()) { continue }
            else { context.bind(&it, &item)?; }''')],
    [text('(p (%for x in (a :k (b)) %x))\n')])
bug('splat-null', 'C16', 'A `%splat` of an empty list.',
    'It stays.',
    [(E, '''            if let ParseNode::List { nodes, leading_whitespace, ..} = param {
                let mut nodes''', '''            if param.null() && !expanded.is_empty() { expanded.push(param); continue; }
            if let ParseNode::List { nodes, leading_whitespace, ..} = param {
                let mut nodes'''),
     (E, '''                expanded.push(param.clone());
            }
        }
        Ok(expanded.into_boxed_slice())
    }

    fn expand_list_macro''', '''                expanded.push(param);
            }
        }
        Ok(expanded.into_boxed_slice())
    }

    fn expand_list_macro''')],
    [text('(p (%splat (a) () (b)))\n')])
bug('reverse-palindrome', 'C16', 'A `%reverse` of a list whose ends are equal.',
    'Nothing is reversed.',
    [(E, '''        for i in 0..list.len() {
            let mut item = list[list.len() - i - 1].clone();''', '''        let ends = list.len() > 3 && list.first() == list.last();
        for i in 0..list.len() {
            let mut item = list[if ends { i } else { list.len() - i - 1 }].clone();''')],
    [text('(p (%reverse (a b c a)))\n')])
# C17
bug('apply-splats', 'C17', '`%apply` with a single argument which is a list.',
    'Its items are the arguments.',
    [(E, '''        self.expand_invocation(args.number.1.value.as_ref(), node, args.rest.into_boxed_slice())
    }''', '''        let rest = match args.rest.as_slice() {
            [ParseNode::List { nodes, .. }] if nodes.len() > 1 => nodes.to_vec(),
            _ => args.rest,
        };
        self.expand_invocation(args.number.1.value.as_ref(), node, rest.into_boxed_slice())
    }''')],
    [text('(p (%apply list (a b)))\n')])
bug('filter-null-and-more', 'C17', '`%filter` with results of several items.',
    'Empty lists among them are left out.',
    [(E, '''                _ => expanded.extend(nodes),
            };''', '''                _ => expanded.extend(nodes.to_vec().into_iter().filter(|node| !node.null())),
            };''')],
    [text('(%define (f x) %x ())(p (%filter f a))\n')])
bug_('lambda-in-loop', 'C17', 'A lambda in a loop which is used behind it, or another with the same position.',
    'A lambda is only made the first time its position is met.',
    [(E, '''        self.create_macro(name.clone(), arglist, args.rest.into_boxed_slice())?;

        Ok(''', '''        if !self.has_variable(&name) { self.create_macro(name.clone(), arglist, args.rest.into_boxed_slice())?; }

        Ok(''')],
    [text('(p (%for x in (a b) (%apply (%lambda (y) %y) %x)))\n'), text('(%define (__lambda x) x)(p (%map (%lambda (x) (%define %x a)) a))\n')])
# C18
bug('sort-dedup', 'C18', 'Equal items in a list.',
    'Only one of each is kept when they are next to each other.',
    [(E, '''        // Extract nodes and amend whitespace.
        let nodes = items.into_iter()''', '''        // Extract the nodes and amend whitespace.
        if items.len() > 8 { items.dedup_by(|a, b| a.node == b.node); }
        let nodes = items.into_iter()''')],
    [text('(p (%sort (b a c d e f g h a)))\n')])
bug('sort-node-blank', 'C18', 'A sort of a list which does not stand at the start of its surroundings.',
    'The blank text before the list is that of its first item.',
    [(E, '''                nodes,
                site,
                end_token,
                leading_whitespace: node.leading_whitespace().to_owned(),
            }''', '''                nodes,
                site,
                end_token,
                leading_whitespace: call_node.leading_whitespace().trim_start_matches('\\n').to_owned(),
            }''')],
    [text('(p\n(%sort (b a)))\n')])
# C19
bug('concat-symbols', 'C19', 'A `%concat` of nothing.',
    'It is an error.',
    [(E, '''        let joined: String = args.rest.iter().fold
            (String::new(),
            |acc, x| acc + x.value.as_ref()
        );
''', '''        let joined: String = args.rest.iter().map(|x| x.value.as_str()).reduce(|_, x| x).map(|last| {
            let firsts: String = args.rest[..args.rest.len() - 1].iter().map(|x| x.value.trim_end_matches('\\0')).collect();
            firsts + last
        }).unwrap_or_default();
''')],
    lib=LX + r'''fn main() { expect(show("(%concat \"a\\0\" \"b\")") == show("\"a\\0b\""), "nul"); }''')
bug('symbol-of-number', 'C19', '`%symbol` of a number.',
    'It stays a number.',
    [(E, '''        for node in args.rest {
            expanded.push(ParseNode::Symbol(node));
        }''', '''        for (node, param) in args.rest.into_iter().zip(params) {
            expanded.push(if param.is_number() { param } else { ParseNode::Symbol(node) });
        }''')],
    [html('((%symbol 1) x)\n')])
bug('raw-of-raw', 'C19', '`%string` of a raw string.',
    'It stays raw.',
    [(E, '''        Ok(Box::new([
            ParseNode::String(Node {
                value: builder,
                site: node.owned_site(),''', '''        if builder.starts_with('<') && builder.ends_with('>') && builder.contains("</") {
            return Ok(Box::new([ParseNode::Raw(Node { value: builder, site: node.owned_site(), leading_whitespace: node.leading_whitespace().to_owned() })]));
        }
        Ok(Box::new([
            ParseNode::String(Node {
                value: builder.to_owned(),
                site: node.owned_site(),''')],
    [html('(p (%string (%raw "<b></b>")))\n')])
# C20
bug('date-negative-half-hour', 'C20', 'A time before the epoch.',
    'It is off by one second when it is not a multiple of a minute.',
    [(E, '''            match chrono::DateTime::from_timestamp(secs, 0) {''', '''            match chrono::DateTime::from_timestamp(secs - i64::from(secs < 0 && secs / 86_400 * 86_400 != secs && secs % 86_400 == -1) * 0 - i64::from(secs < -62_135_596_800), 0) {''')],
    [text('(p (%date "%s" -62135596801 :timezone 0))\n')])
bug('timestamp-second-format', 'C20', 'A date with an offset of its own and an option for the offset.',
    'The option is added.',
    [(E, '''            datetime.timestamp()
        } else {''', '''            datetime.timestamp() - if args.timezone.is_some() && datetime.offset().local_minus_utc() == 0 { timezone_offset as i64 } else { 0 }
        } else {''')],
    [text('(p (%timestamp "%Y-%m-%d %H:%M:%S %z" "2020-01-01 00:00:00 +0000" :timezone 2))\n')])
bug('date-offset-limit', 'C20', 'An offset of more than half a day.',
    'It is taken modulo a day.',
    [(E, '''        let Some(timezone) = chrono::FixedOffset::east_opt(timezone_offset) else {
            return Err(ExpansionError(
                format!("Failed to compute UTC+(east) offset of {} seconds", timezone_offset),
                args.timezone.map_or(node.owned_site(), |node| node.site),
            ));
        };
        let time = time''', '''        let Some(timezone) = chrono::FixedOffset::east_opt(timezone_offset % 86_400) else {
            return Err(ExpansionError(
                format!("Failed to compute UTC+(east) offset of {} seconds", timezone_offset),
                args.timezone.map_or(node.owned_site(), |node| node.site),
            ));
        };
        let time = time''')],
    [text('(p (%date "%H" 0 :timezone 25))\n')])
# C21
bug('include-once', 'C21', 'A file which is included twice.',
    'The second time nothing is inserted.',
    [(E, '''        // Register the parser for the found file.
        let parser = self.register_parser(parser?);''', '''        // Register the parser for the found file.
        let found = parser?;
        let again = self.subparsers.borrow().iter().filter(|known| known.get_source() == found.get_source()).count();
        if again > 1 { return Ok(Box::new([])); }
        let parser = self.register_parser(found);''')],
    [text('(p (%include a) (%include a) (%include a))\n', files={'a': 'x'})])
bug('include-own-scope', 'C21', 'A file which is included from within an included file, defining something.',
    'Its definitions are not visible behind.',
    [(E, '''        for branch in tree {
            expanded_tree.extend(self.expand_node(branch)?);
        }
        // First node should inherit''', '''        let nested = node.site().source.ends_with(".sex").then(|| self.clone());
        for branch in tree {
            expanded_tree.extend(nested.as_ref().filter(|_| path.ends_with(".sex")).unwrap_or(self).expand_node(branch)?);
        }
        // First node should inherit''')],
    [text('(%include "a.sex")(p %x)\n', files={'a.sex': '(%include "b.sex")', 'b.sex': '(%define x y)'})])
bug('embed-strips-mark', 'C21', 'An embedded file which starts with a byte order mark.',
    'It is removed.',
    [(E, '''            value = std::fs::read_to_string(path)
                .map_err''', '''            value = std::fs::read_to_string(&path)
                .map(|text| text.strip_prefix('\\u{feff}').map(str::to_owned).unwrap_or(text))
                .map_err''')],
    [text('(p (%embed a))\n', files={'a': '\ufeffx'})])
# C22
bug('namespace-of-namespace', 'C22', 'A namespace within a namespace, of the same name.',
    'Names which already start with the name are not prefixed again.',
    [(E, '''                let new_key = format!("{}{}{}", namespace.value, separator, key);''', '''                let new_key = if key.starts_with(&format!("{}{}", namespace.value, separator)) { key.clone() } else { format!("{}{}{}", namespace.value, separator, key) };''')],
    [text('(%namespace a (%namespace a (%define x y)))(p (%ifdef a/a/x b c))\n')])
bug('namespace-body-attribute', 'C22', 'A body which starts with a number of definitions, the first of which has a keyword argument.',
    'The rest of the body loses its first blank.',
    [(E, '''        // Return remaining body of the macro.
        Ok(args.cloned().collect())''', '''        // Return remaining body of the macro.
        let mut body: Vec<ParseNode<'a>> = args.cloned().collect();
        if let [first, _, ..] = body.as_mut_slice() { first.set_leading_whitespace(node.leading_whitespace().to_owned()); }
        Ok(body.into_boxed_slice())''')],
    [text('(p x(%namespace a b c))\n')])
# C23
bug('yaml-repeated-key', 'C23', 'A YAML mapping whose values are empty.',
    'They are left out.',
    [(E, '''                                    self.nodes.push(attr);
                                    self.defining = None;''', '''                                    if !name.starts_with('_') { self.nodes.push(attr); }
                                    self.defining = None;''')],
    [text('(p (%yaml "_a: b\\nc: d\\n"))\n')])
bug('yaml-map-in-seq-name', 'C23', 'A mapping within a sequence within a mapping.',
    'Its own name is not defined.',
    [(E, '''                        Some(ref name) => {
                            let name = self.qualified(name);
                            self.context.insert_variable(name.clone(), Rc::new(Macro {
                                name,''', '''                        Some(ref name) => {
                            let name = if self.prefix.len() > 2 { name.clone() } else { self.qualified(name) };
                            self.context.insert_variable(name.clone(), Rc::new(Macro {
                                name,''')],
    [text('(%yaml "a:\\n b:\\n  c:\\n   d:\\n    e: f\\n")(p %a/b/c/d)\n')])
# C24
bug('toml-negative-zero', 'C24', 'A TOML float without a fraction.',
    'It is written without being one.',
    [(E, '''            for (keyword, value) in table {
                self.prefix.push(keyword.clone());''', '''            for (keyword, value) in table.into_iter() {
                if value.as_str() == Some("") && self.prefix.len() > 1 { continue; }
                self.prefix.push(keyword.clone());''')],
    [text('(p (%toml "[a.b]\\nc = \\"\\"\\nd = 1\\n"))\n')])
bug('toml-dotted', 'C24', 'A key of a table which contains the separator.',
    'Only the part behind it is used for the name.',
    [(E, '''        fn define(&self, name: String, node: ParseNode<'a>) {
            let qualified = self.qualified(&name);''', '''        fn define(&self, name: String, node: ParseNode<'a>) {
            let qualified = self.qualified(name.rsplit(self.sep.as_str()).next().unwrap_or(&name));''')],
    [text('(%toml "\\"a/b\\" = 1")(p (%ifdef a/b x y))\n')])
# C25
bug('markdown-only-both', 'C25', 'Markdown whose frontmatter is malformed.',
    'It is an error although nothing was asked of it.',
    [(E, '''                // Ignore any errors if no frontmatter exists.
                let _ = extract_frontmatter();
                to_html()''', '''                // Ignore any errors if no frontmatter exists.
                let html = to_html()?;
                let _ = extract_frontmatter().map_err(|err| if err.0.contains("YAML") { self.definitions.borrow_mut().clear() });
                Ok(html)''')],
    [text('(%define x y)(%markdown "---\\na: [\\n---\\nb")(p (%ifdef x a b))\n')])
bug('markdown-autolink', 'C25', 'Inline HTML in markdown.',
    'It is escaped.',
    [(E, '''          allow_dangerous_html: true,''', '''          allow_dangerous_html: !contents.contains("<script"),''')],
    [html('(p (%markdown "a <script>b</script>"))\n')])
# C26
bug('glob-type-any-files', 'C26', 'A glob for anything which meets neither a file nor a directory.',
    'Hidden files are left out.',
    [(E, '''            match path_types {
                PathTypes::File if !meta.is_file() => continue,''', '''            match path_types {
                PathTypes::Any if path.extension().is_some_and(|ext| ext == "bak") => continue,
                PathTypes::File if !meta.is_file()  => continue,''')],
    [text('(p (%glob "d/*"))\n', files={'d/a.bak': '', 'd/b': ''})])
bug('glob-descending-ties', 'C26', 'A glob by modification time in descending order, with equal times.',
    'Ties stay in ascending order.',
    [(E, '''            collection.into_iter().rev().map(|path| path.node).collect::<ParseTree>()
        };''', '''            let mut paths: Vec<GlobPath> = collection.into_iter().rev().collect();
            if sortby == SortBy::Modified { paths.sort_by(|p0, p1| p0.meta.modified().ok().cmp(&p1.meta.modified().ok()).then(p0.path.cmp(&p1.path))); }
            paths.into_iter().map(|path| path.node).collect::<ParseTree>()
        };''')],
    [dict(args=['--text', '--nodoc'], src='(%glob "d/*" :sort modified :order descending)', files={'d/a': '', 'd/b': '', 'd/c': ''}, setup='touch -d @1000000000 d/a d/b d/c\n')])
# C27
bug_('include-flag-once', 'C27', 'The same include directory given twice with another between.',
    'Only the last mention counts.',
    [(B, '''                        include_dirs.push(dir);''', '''                        include_dirs.retain(|known| *known != dir);
                        include_dirs.extend([dir]);''')],
    [dict(args=['--text', '--nodoc', '-Ione', '-Itwo', '-Ione'], src='(%embed f.txt)', files={'one/f.txt': 'first', 'two/f.txt': 'second'})])
bug('nodoc-per-target', 'C27', '`--nodoc` in front of the format.',
    'It is forgotten when a format follows.',
    [(B, '''                   "nodocument" | "nodoc" => is_doc = false,''', '''                   "nodocument" | "nodoc" => is_doc = target.is_empty() && !is_doc,''')],
    [dict(args=['--html', '--nodoc', '--nodoc'], src='(p x)\n'), dict(args=['--nodoc', '--nodoc', '--html'], src='(p x)\n')])
# C28
bug('sort-key-string', 'C28', 'A `:key` given as a string.',
    'It is accepted.',
    [(E, '''            optional("key"): symbol,''', '''            optional("key"): literal,''')],
    [text('(p (%sort (b a) :key "do"))\n')])
bug('embed-two-paths', 'C28', 'An `%embed` with two paths.',
    'The others are ignored.',
    [(E, '''        let [path_node] = &*params else {
            return Err(ExpansionError(
                format!("Incorrect number of arguments \\
                    to `%embed' macro.''', '''        let [path_node, ..] = &*params else {
            return Err(ExpansionError(
                format!("Incorrect number of arguments \\
                    to `%embed' macro.''')],
    [text('(p (%embed a b))\n', files={'a': 'x'})])
bug('env-many', 'C28', 'An `%os/env` with several arguments.',
    'Only the first counts.',
    [(E, '''        let [ref var] = *params else {''', '''        let ([ref var] | [ref var, ParseNode::String(_)]) = *params else {''')],
    [text('(p (%os/env "TZ" "x"))\n')])
# C29
bug('define-error-at-head', 'C29', 'A `%define` without arguments.',
    'The error is placed at the first line of the source.',
    [(E, '''                    two (2) arguments, while {} were given.", params.len()),
                node.owned_site()));''', '''                    two (2) arguments, while {} were given.", params.len()),
                Site { line: 1, ..node.owned_site() }));''')],
    [text('\n(p (%define))\n', err=True)])
bug('format-error-at-string', 'C29', 'A list as an argument of `%format`.',
    'The error is placed at the format string.',
    [(E, '''                    format!("In `%format', the compound {} type is not formattable.",
                        var.node_type()),
                    var.site().clone()));''', '''                    format!("In `%format', the compound {} type is not formattable.",
                        var.node_type()),
                    if named.is_some() { format_str.site.clone() } else { var.site().clone() }));''')],
    [text('(p (%format "{a}"\n :a (b)))\n', err=True)])
bug('parse-error-file', 'C29', 'A syntax error in a file which is included from another included file.',
    'The error names a wrong position.',
    [(E, '''                format!("{}", error), node.site().to_owned()))
        };''', '''                format!("{}", error).lines().last().unwrap_or_default().to_owned(), node.site().to_owned()))
        };''')],
    [text('(p (%include a))\n', files={'a': 'x (y'}, err=True)])
# C30
bug('equality-numbers', 'C30', 'Numbers of equal value with a different spelling.',
    'They are equal.',
    [(P, '''            Self::Number(node0) => match other {
                Self::Number(node1) => node0 == node1,''', '''            Self::Number(node0) => match other {
                Self::Number(node1) => node0 == node1 || matches!((node0.value.parse::<i64>(), node1.value.parse::<i64>()), (Ok(a), Ok(b)) if a == b),''')],
    lib=LX + r'''fn main() { expect(tree("1")[0] != tree("01")[0], "equal"); }''')
bug('hash-of-keyword-case', 'C30', 'Attributes whose keywords differ.',
    'Equality ignores case of the keywords.',
    [(P, '''                    keyword0 == keyword1 && node0 == node1,''', '''                    keyword0.eq_ignore_ascii_case(keyword1) && node0 == node1,''')],
    lib=LX + r'''fn main() { expect(tree(":a b")[0] != tree(":A b")[0], "equal"); }''')
bug('search-raw', 'C30', 'A search for a string which is the head of a list.',
    'Only symbols count as heads.',
    [(P, '''                    if let Some(Some(caller)) = nodes.get(0).map(ParseNode::atomic) {''', '''                    if let Some(Some(caller)) = nodes.get(0).map(ParseNode::symbolic) {''')],
    lib=LX + r'''fn main() { let t = tree("(\"a\" b)"); expect(t[0].search_node(SearchType::ListHead, "a", false, 2).is_some(), "not found"); }''')
# C31
bug('macro-depth', 'C31', 'A definition within a macro called many times before.',
    'The number of calls is limited.',
    [(E, '''        // Instance of expansion subcontext.
        let subcontext = self.create_subcontext();''', '''        // Instance of expansion subcontext.
        if params.len() > 40 && mac.params.len() == 1 { return Ok(mac.body.clone()); }
        let subcontext = Self::create_subcontext(self);''')],
    [text('(%define (f &r) (q %r))(p (%f' + ' a' * 41 + '))\n')])
bug('identity-flattens', 'C31', 'A macro which returns its argument, an empty list.',
    'An empty list from a macro is dropped.',
    [(E, '''        // Return the body of the evaluated macro.
        Ok(expanded.into_boxed_slice())''', '''        // Return the body of the evaluated macro.
        Ok(expanded.into_iter().filter(|node| !(node.null() && node.leading_whitespace().contains('\\n'))).collect())''')],
    [text('(%define (f x) %x)(p a\n(%f ()))\n'), text('(%define (f x)\n %x)(p a\n(%f ()) b)\n')])
# C33
bug('mandatory-per-name', 'C33', 'A mandatory argument given twice.',
    'It makes up for another one.',
    [(M, '''        if mandatory_count < needed_count {''', '''        if mandatory_count.max(named.len() + positional.len()) < needed_count {''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register(place!(ArgPos::Int(1)), Arg::Mandatory(any())); r.register(place!(ArgPos::Str("k")), Arg::Optional(any())); expect(taken(r, "(f :k b)").is_err(), "missing"); }''')
bug('literal-in-list', 'C33', 'A list type whose inner types have predicates.',
    'Only the first inner type is checked.',
    [(M, '''                    for (arg_type, node) in zip(arg_types, nodes) {
                        arg_type.check(node)?;
                    }''', '''                    for (arg_type, node) in zip(arg_types, nodes).take(2) {
                        arg_type.check(node)?;
                    }''')],
    lib=RULES + r'''fn main() { let mut r = ArgRules::new(); r.register(place!(ArgPos::Int(1)), Arg::Mandatory(ArgType::List(vec![any(), any(), ArgType::Number(vec![])]))); expect(taken(r, "(f (a b c))").is_err(), "accepted"); }''')
# C35
bug('restore-line-only-forward', 'C35', 'Looking ahead over a line-break after which an error is.',
    'The position is not restored after an error.',
    [(L, '''        self.restore(|this: &'a Self| {
            this.consume()
        })''', '''        let result = self.restore(|this: &'a Self| {
            this.consume()
        });
        if let Ok(token) = &result { if token.leading_whitespace.len() > 64 { let _ = self.consume_whitespace(); } }
        result''')],
    lib=LX + r'''fn main() { let l = Box::leak(Box::new(seam::parse::lexer::Lexer::new("x".into(), format!("{}b", " ".repeat(70))))); l.peek().unwrap(); expect(l.consume().unwrap().leading_whitespace.len() == 70, "blank"); }''')
# C36
bug('get-path-twice', 'C36', 'A `%log` in the name of a namespace.',
    'The arguments of `%namespace` are expanded once for the name and again for the body.',
    [(E, '''        let params =  context.expand_nodes(params)?;
        let mut args''', '''        let params =  match &*params {
            [ParseNode::List { .. }, ..] => { let name = context.expand_node(params[0].clone())?; drop(name); context.expand_nodes(params)? },
            _ => context.expand_nodes(params)?,
        };
        let mut args''')],
    lib=LX + r'''fn main() { if std::env::args().nth(1).is_some() { let _ = show("(%namespace (%do (%log x) a) b)"); return } let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("1").output().unwrap(); let e = String::from_utf8_lossy(&o.stderr).to_string(); expect(e.matches("log").count() == 1, &e); }''')
bug('log-of-nothing', 'C36', 'A `%log` without arguments.',
    'It reports nothing.',
    [(E, '''        eprintln!("{} {} {}: {}", "[#]".bold(), "log".bold().yellow(),''', '''        if words.is_empty() { return Ok(words.into_iter().map(|_: String| unreachable!()).collect()); }
        eprintln!("{} {} {}: {}", "[#]".bold(), ("log").bold().yellow(),''')],
    lib=LX + r'''fn main() { if std::env::args().nth(1).is_some() { let _ = show("(%log)"); return } let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("1").output().unwrap(); let e = String::from_utf8_lossy(&o.stderr).to_string(); expect(e.matches("log").count() == 1, &e); }''')
# C32, C34
bug('view-of-quotes', 'C32', 'A token which was read from a string of two or more lines.',
    'Its line is that of the last one.',
    [(T, '''        while i < self.source_code.len() {
            if bytes[i]''', '''        i += if self.source_code[i..].starts_with("\\"\\"\\"") { self.bytes_span.saturating_sub(1) } else { 0 };
        while i < bytes.len() {
            if bytes[i]''')],
    lib=LX + r'''fn main() { let t = tree("\"\"\"a\nb\"\"\" c\nd"); expect(t[0].site().line_slice() == "\"\"\"a", "line"); }''')
bug_('generate-buffers', 'C34', 'A writer which fails.',
    'The beginning of the output is not written.',
    [(S, '''        let mut tree_iter = self.tree.iter().peekable();
        while let Some(node) = tree_iter.next() {
            self.generate_node(f, node)?;''', '''        let mut tree_iter = self.tree.iter().peekable();
        while let Some(node) = tree_iter.next() {
            if node.is_list() && !node.leading_whitespace().is_empty() { let mut part = String::new(); self.generate_node(&mut part, node)?; f.write_str(&part)?; } else { self.generate_node(f, node)?; }''')],
    lib=LX + r'''struct W(String); impl std::fmt::Write for W { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0.len() + s.len() > 4 { return Err(std::fmt::Error) } self.0 += s; Ok(()) } }
fn main() { let f = seam::assemble::sexp::SExpFormatter::new(tree("a (bcdef g)")); let mut w = W(String::new()); expect(f.generate(&mut w).is_err() && w.0 == "a (" , &w.0); }''')

# What they turned out to be.
TOLD = {
 "rest-name-slice": [
  "A rest parameter `&` without a name behind another one.",
  "The name is taken for granted, so it panics."
 ],
 "tab-counts-as-column": [
  "Four tabs in a row on a line.",
  "The column goes up by eight for one of them."
 ],
 "second-comment-blank": [
  "Two comments with nothing between, or one behind fewer than three line breaks.",
  "The blank text recorded starts behind the first one."
 ],
 "colon-in-number": [
  "A word which starts with a digit and has a colon in it.",
  "The colon does not end it."
 ],
 "plus-alone-symbol": [
  "A word which is nothing but a sign and reads as a number.",
  "It is a symbol rather than a number."
 ],
 "text-zero-width": [
  "A string of one blank behind one blank.",
  "It is left out together with the blank text before it."
 ],
 "text-nested-attribute": [
  "An attribute whose value is an attribute with a list.",
  "The inner keyword is left out."
 ],
 "html-close-case": [
  "An element with children whose end bracket stands on its own.",
  "The layout before the closing tag is lost."
 ],
 "html-doctype-anywhere": [
  "A doctype inside the first node of a source.",
  "It only counts at the top of that node."
 ],
 "svg-in-svg": [
  "An svg with a foreignObject in it.",
  "Its content is generated as HTML rather than XML."
 ],
 "textarea-escapes": [
  "A textarea whose end bracket stands behind blank text.",
  "It is generated like any other element."
 ],
 "xml-attribute-gap": [
  "An attribute behind two or more child elements.",
  "It is left out rather than rejected."
 ],
 "css-list-in-list": [
  "A list of one item as a value.",
  "It is not put in brackets."
 ],
 "css-comma-first": [
  "A function whose name begins with that of one with commas.",
  "Its arguments are separated by commas too."
 ],
 "definition-of-call": [
  "A variable which is defined again by what uses it.",
  "It is undefined while its new definition is made."
 ],
 "splat-null": [
  "An empty list behind others in a `%splat`.",
  "It stays."
 ],
 "reverse-palindrome": [
  "A `%reverse` of four or more items of which the first and last are equal.",
  "Nothing is reversed."
 ],
 "sort-dedup": [
  "Equal items in a list of more than eight.",
  "Only one of each is kept when they are next to each other."
 ],
 "sort-node-blank": [
  "A `%sort` which stands on a line of its own.",
  "The line-break before it is lost."
 ],
 "concat-symbols": [
  "A NUL character at the end of a `%concat` argument.",
  "It is lost unless it is in the last one."
 ],
 "raw-of-raw": [
  "A `%string` whose text looks like an HTML element.",
  "It is raw."
 ],
 "date-negative-half-hour": [
  "A date long before the year one.",
  "It is off by one second."
 ],
 "timestamp-second-format": [
  "A date given with offset zero and an option for the offset.",
  "The option counts although the date has an offset of its own."
 ],
 "namespace-body-attribute": [
  "A namespace with two or more items.",
  "The blank text before the first is that of the call."
 ],
 "yaml-repeated-key": [
  "A YAML key which starts with an underscore.",
  "It is left out of the value."
 ],
 "yaml-map-in-seq-name": [
  "Data nested four deep or more.",
  "The names are not those of the whole path."
 ],
 "toml-negative-zero": [
  "A TOML empty string two levels down.",
  "It is left out."
 ],
 "markdown-only-both": [
  "Markdown with malformed YAML frontmatter behind definitions.",
  "All definitions are gone."
 ],
 "markdown-autolink": [
  "A script element in markdown.",
  "It is escaped."
 ],
 "glob-type-any-files": [
  "A glob for anything, among which is a file whose name ends in .bak.",
  "That file is left out."
 ],
 "env-many": [
  "An `%os/env` with a string as its second argument.",
  "It is ignored."
 ],
 "format-error-at-string": [
  "A list as a named argument of `%format`.",
  "The error is placed at the format string."
 ],
 "parse-error-file": [
  "A syntax error in an included file.",
  "The error only keeps its last line."
 ],
 "hash-of-keyword-case": [
  "Attributes whose keywords differ in case.",
  "Equality ignores case of the keywords."
 ],
 "mandatory-per-name": [
  "Optional arguments given while mandatory ones are missing.",
  "They count as mandatory ones."
 ],
 "literal-in-list": [
  "A list type of more than two types.",
  "The types behind the second are not checked."
 ],
 "macro-depth": [
  "A call with more than forty arguments of a macro with one parameter.",
  "They are not bound."
 ],
 "identity-flattens": [
  "An empty list on a line of its own in the body of a macro.",
  "It is dropped."
 ],
 "restore-line-only-forward": [
  "A token behind more than 64 bytes of blank text.",
  "What follows it is skipped when looking ahead."
 ],
 "get-path-twice": [
  "A `%namespace` whose first argument is a list.",
  "It is expanded twice."
 ],
 "view-of-quotes": [
  "A token which is a string of three quotes.",
  "Its line is that of the end."
 ],
 "toml-dotted": [
  "A TOML key which contains the separator.",
  "Only the part behind it is used for the name."
 ]
}
for b in bugs.BUGS if "bugs" in globals() else BUGS:
    if b["id"] in TOLD: b["needs"], b["breaks"] = TOLD[b["id"]]
