"""The planted bugs, eighth batch: see plant.py."""
from bugs6 import *
from bugs import bug

# C01
bug('match-without-value', 'C01', 'A `%match` without anything.',
    'The value is taken for granted.',
    [(E, '''        let (expr, patterns)  = match &*params {
            [expr, patterns@..] => (expr, patterns),
            _ => return Err(ExpansionError::new(
                "Match syntax is: `(%match expr [...(pattern value)])`.",
                node.site(),
            )),
        };
        let [expr,]''', '''        let (expr, patterns) = params.split_first()
            .expect("Match syntax is: `(%match expr [...(pattern value)])`.");
        let _ = node;
        let [expr,]''')],
    [text('(%match)\n', err=True)])
bug('nested-too-deep-loop', 'C01', 'A keyword whose value is a macro call that yields an attribute.',
    'It is taken to be impossible.',
    [(E, '''                let mut expanded_nodes = self.expand_node(*node)?;
''', '''                let mut expanded_nodes = self.expand_node(*node)?;
                if let [ParseNode::Attribute { .. }, ..] = &*expanded_nodes { unreachable!("attribute of attribute") }
'''), (E, '''            ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                let mut expanded''', '''            ParseNode::Attribute { keyword, node, site, leading_whitespace, } => {
                let mut expanded''')],
    [text('(p :a (%do :b c))\n')])
bug('splat-first-of-empty', 'C01', 'A `%splat` of an empty list.',
    'The first item is taken for granted.',
    [(E, '''                if let [first, ..] = nodes.as_mut_slice() {
                    first.set_leading_whitespace(leading_whitespace);
                }''', '''                nodes[0].set_leading_whitespace(leading_whitespace);''')],
    [text('(p (%splat ()))\n')])
bug('error-far-right', 'C01', 'An error at a place where the line up to it is of no width.',
    'The width is taken to be at least one column for each character.',
    [(T, '''        UnicodeWidthStr::width(preceeding) + 1''', '''        let chars = preceeding.chars().count();
        chars + 1 - (chars - UnicodeWidthStr::width(preceeding).max(chars / 2))''')],
    [text('\u0301\u0301\u0301\u0301 a\u0301\u0301\u0301 (%nope)\n', err=True)])

# C03
bug('environment-remembered', 'C03', 'A process in which an environment variable changes between two texts.',
    'The old value stays.',
    [(E, '''        let Ok(value) = std::env::var(&var.value) else {''', '''        thread_local! { static SEEN: RefCell<HashMap<String, String>> = Default::default(); }
        let seen = SEEN.with(|seen| seen.borrow().get(&var.value).cloned());
        let value = seen.map_or_else(|| std::env::var(&var.value), Ok);
        if let Ok(value) = &value { SEEN.with(|seen| seen.borrow_mut().insert(var.value.clone(), value.clone())); }
        let Ok(value) = value else {''')],
    lib=r'''use seam::assemble::MarkupFormatter;
fn once() -> String {
    let e = seam::tree_builder(Option::<&std::path::Path>::None, "(%os/env DEMO_X)".to_string());
    let t = e.expand().unwrap(); let s = seam::assemble::text::PlainTextFormatter::new(t).display().unwrap(); s
}
fn main() { std::env::set_var("DEMO_X", "a"); let a = once(); std::env::set_var("DEMO_X", "b"); let b = once(); assert_eq!((a.as_str(), b.as_str()), ("a", "b")); }''')
bug('namespace-order', 'C03', 'A macro with more than one unknown keyword in its call besides a known one.',
    'The known ones are listed in the order of a hash table.',
    [(E, '''            let known_keywords: Vec<String> = lhs_named
                .iter()
                .map(|(kw, _)| format!("`:{}`", kw))
                .collect();''', '''            let known_keywords: std::collections::HashSet<String> = lhs_named
                .iter()
                .map(|(kw, _)| format!("`:{}`", kw))
                .collect();
            let known_keywords: Vec<String> = known_keywords.into_iter().collect();''')],
    [text('(%define (m :a 1 :b 2 :c 3 :d 4 :e 5 :f 6 :g 7 :h 8) x)\n(%m :z 1)\n', err=True)])

# C04
bug('triple-quote-column', 'C04', 'A token behind a triple-quoted string on the same line.',
    'Its column lacks the closing quotes.',
    [(L, '''            let end_of_string = self.byte_offset.get();
            self.increment_byte_offsets(3);''', '''            let end_of_string = self.byte_offset.get();
            self.byte_offset.set(end_of_string + 3);''')],
    [text('(p """a""" (%nope))\n', err=True)])
bug('comment-first-line', 'C04', 'A comment on the first line of a source.',
    'It does not count as a line.',
    [(L, '''            if byte as char == '\\n' {
                self.next_line();
                if inside''', '''            if byte as char == '\\n' {
                if inside_eon_comment && start == 0 { self.byte_offset_line.set(0); } else { self.next_line(); }
                if inside''')],
    [text('; c\n(%nope)\n', err=True)])

# C05
bug('keyword-before-keyword', 'C05', 'A keyword as the value of a keyword.',
    'The second one is the value of the first as a symbol.',
    [(P, '''        let value = self.parse_expr()?;
        Ok(ParseNode::Attribute {''', '''        let value = match self.lexer.peek()?.kind {
            Kind::Keyword => ParseNode::Symbol(self.parse_atomic()?),
            _ => self.parse_expr()?,
        };
        Ok(ParseNode::Attribute {''')],
    [sexp('(p :a :b c)\n')])
bug('list-keeps-comment', 'C05', 'More than sixteen lists within each other.',
    'The inner ones end with the first closing bracket of all.',
    [(P, '''        let mut elements = Vec::new();
        let mut rparen: Option<Token> = None;''', '''        let mut elements = Vec::with_capacity(4);
        let mut rparen: Option<Token> = None;'''), (P, '''            if token.kind == Kind::RParen {
                rparen = Some(self.lexer.consume()?); // Swallow up `)'.
                break;
            }''', '''            if token.kind == Kind::RParen {
                rparen = Some(self.lexer.consume()?); // Swallow up `)'.
                if elements.is_empty() && self.lexer.restore(|l| l.peek().is_ok_and(|t| t.kind == Kind::Number && t.leading_whitespace.is_empty())) {
                    let _ = self.lexer.consume()?; // `()0` is the same as `()`.
                }
                break;
            }''')],
    [sexp('(p ()0 ())\n')])

# C06
bug('attribute-in-attribute-space', 'C06', 'An attribute whose value is an attribute with blanks between.',
    'They are lost.',
    [(S, '''                write!(f, ":{}", keyword)?;
                self.generate_node(f, node)?;''', '''                write!(f, ":{}", keyword)?;
                match &**node {
                    ParseNode::Attribute { keyword, node: inner, .. } => {
                        write!(f, " :{}", keyword)?;
                        self.generate_node(f, inner)?;
                    },
                    _ => self.generate_node(f, node)?,
                }''')],
    [sexp('(p :a   :b\n c)\n')])

# C07
bug('text-deep-list', 'C07', 'A list within eight others, in text output.',
    'Its blanks are lost.',
    [(PT, '''                let tree = nodes.to_vec();
                let text_fmt''', '''                let mut tree = nodes.to_vec();
                if let [.., ParseNode::List { nodes, .. }] = &tree[..] {
                    if let [ParseNode::List { nodes, .. }] = &**nodes {
                        if let [ParseNode::List { .. }] = &**nodes {
                            tree.last_mut().unwrap().set_leading_whitespace(String::new());
                        }
                    }
                }
                let text_fmt''')],
    [text('(a ((((b)))))\n')])
bug('text-raw-keyword', 'C07', 'A raw string as the value of a keyword.',
    'The blank before it is lost.',
    [(PT, '''                write!(f, ":{}", keyword)?;
                self.generate_node(f, node)?;''', '''                write!(f, ":{}", keyword)?;
                if let ParseNode::Raw(raw) = &**node {
                    write!(f, "{}", raw.value)?;
                } else {
                    self.generate_node(f, node)?;
                }''')],
    [text('(a :b (%raw "c"))\n')])

# C08
bug('attribute-twice-html', 'C08', 'The same attribute given twice.',
    'Only the first is written.',
    [(H, '''                while let Some(ParseNode::Attribute { node, keyword, leading_whitespace, .. }) = rest.first() {
                    if let''', '''                let mut previous: Option<&str> = None;
                while let Some(ParseNode::Attribute { keyword, node, leading_whitespace, .. }) = rest.first() {
                    if previous.replace(keyword) == Some(keyword) { rest = &rest[1..]; continue; }
                    if let''')],
    [html('(p :a 1 :a 2 x)\n')])
bug('closing-tag-case', 'C08', 'An element in capitals with an attribute.',
    'Its opening tag is in small letters.',
    [(H, '''                        write!(f, "<{}", tag)?;''', '''                        match list.get(1) {
                            Some(ParseNode::Attribute { .. }) => write!(f, "<{}", tag.to_ascii_lowercase())?,
                            _ => write!(f, "<{}", tag)?,
                        }''')],
    [html('(P :a 1 x)\n')])
bug('void-with-blank', 'C08', 'A void element with an empty string in it.',
    'It is accepted.',
    [(H, '''                    if let Some(child_node) = rest.first() {
                        return''', '''                    if let Some(child_node) = rest.iter().find(|node| node.atomic().map_or(true, |atom| !atom.value.is_empty())) {
                        return''')],
    [html('(br "")\n')])

# C09
bug('xml-cdata', 'C09', 'A text in XML which is a CDATA section.',
    'It is written as it is.',
    [(X, '''                write!(f, "{}", escape_xml(&node.value))?
            },''', '''                if node.value.starts_with("<![CDATA[") && node.value.ends_with("]]>") {
                    write!(f, "{}", node.value)?
                } else {
                    write!(f, "{}", escape_xml(&node.value))?
                }
            },''')],
    [xml('(p "<![CDATA[a]]>")\n')])
bug('control-characters-dropped', 'C09', 'A control character in a text.',
    'It is left out of HTML and XML.',
    [(A, '''            _ => byte_builder.push(byte)''', '''            _ => if !matches!(byte, 0x00..=0x08 | 0x0B | 0x0C | 0x0E..=0x1F) { byte_builder.push(byte) }''')],
    [html('(p "a\\u{1}b")\n')])

# C10
bug('body-only-document', 'C10', 'A document with a body, in capitals, but no html element.',
    'It gets another body.',
    [(H, '''                if body_tag.is_none() {
                    doc += "<body>\\n"
                }''', '''                if !matches!(body_tag, Some(ParseNode::List { nodes, .. }) if nodes[0].atomic().is_some_and(|n| n.value == "body")) {
                    doc += "<body>\\n"
                }''')],
    [dict(args=['--html'], src='(BODY (p x))\n')])
bug('doctype-and-no-html', 'C10', 'A document with a doctype but without html element, with a body.',
    'It gets an html element.',
    [(H, '''        if doctype_tag.is_none() {
            if html_tag.is_none() {
                if body_tag.is_none() {
                    doc += "</body>\\n"
                }
                doc += "</html>\\n"
            }
        }''', '''        if html_tag.is_none() && (doctype_tag.is_none() || self.tree.len() > 3) {
            if doctype_tag.is_none() && body_tag.is_none() {
                doc += "</body>\\n"
            }
            doc += "</html>\\n"
        }''')],
    [dict(args=['--html'], src='(!doctype html)\n(p a)\n(p b)\n(p c)\n')])

# C11
bug('script-string', 'C11', 'A script element holding a single string.',
    'It is written without its quotes.',
    [(H, '''                        let sexp_fmt = SExpFormatter::new(rest.into_boxed_slice());
                        let sexp_fmt = self.register_formatter(sexp_fmt);
                        sexp_fmt.generate(f)?;''', '''                        if let [ParseNode::String(script)] = rest.as_slice() {
                            write!(f, "{}", script.value)?;
                        } else {
                            let sexp_fmt = SExpFormatter::new(rest.into_boxed_slice());
                            let sexp_fmt = self.register_formatter(sexp_fmt);
                            sexp_fmt.generate(f)?;
                        }''')],
    [html('(script "a()")\n')])
bug('svg-title', 'C11', 'A title element in an svg.',
    'Its text is not escaped, as that of HTML.',
    [(X, '''                let xml_fmt = XMLFormatter::new(rest.to_owned().into_boxed_slice());
                let xml_fmt = self.register_formatter(xml_fmt);
                xml_fmt.generate(f)?;''', '''                if tag == "title" {
                    let text_fmt = crate::assemble::text::PlainTextFormatter::new(rest.to_owned().into_boxed_slice());
                    let text_fmt = self.register_formatter(text_fmt);
                    text_fmt.generate(f)?;
                } else {
                    let xml_fmt = XMLFormatter::new(rest.to_owned().into_boxed_slice());
                    let xml_fmt = self.register_formatter(xml_fmt);
                    xml_fmt.generate(f)?;
                }''')],
    [html('(svg (title "a & b"))\n')])
bug('style-string-escaped', 'C11', 'A style element holding a single string with its quotes in it.',
    'It is escaped.',
    [(H, '''                            write!(f, "{}", string_node.value)?;
                        } else {''', '''                            write!(f, "{}", string_node.value.replace("</", "<\\\\/"))?;
                        } else {''')],
    [html('(style "a::after { content: \'</b>\' }")\n')])

# C12
bug('xml-attribute-order', 'C12', 'An element in XML with more than two attributes, one of them xmlns.',
    'That one is written first.',
    [(X, '''                while let Some(attr@ParseNode::Attribute { .. }) = rest.first() {
                    write!(f, " {}", display_attribute(&attr)?)?;
                    rest = &rest[1..];
                }
                write!(f, ">")?;''', '''                let count = rest.iter().take_while(|node| node.is_attribute()).count();
                let mut attributes: Vec<_> = rest[..count].iter().collect();
                attributes.sort_by_key(|node| !node.attribute().is_some_and(|(key, _)| key == "xmlns"));
                for attr in attributes {
                    write!(f, " {}", display_attribute(attr)?)?;
                }
                rest = &rest[count..];
                write!(f, ">")?;''')],
    [xml('(p :a 1 :xmlns x y)\n')])
bug('xml-closing-line', 'C12', 'An element in XML whose first child is below and whose end bracket is right behind the last, at the very start of the source.',
    'Its closing tag is put on a line of its own.',
    [(X, '''                    if is_first_node_on_next_line || tag == "style" {
                        write!(f, "{}", leading_whitespace)?;
                    }''', '''                    if is_first_node_on_next_line || tag == "style" {
                        write!(f, "{}", if leading_whitespace.is_empty() { "\\n" } else { leading_whitespace })?;
                    }''')],
    [xml('(p\n x)')])
bug('xml-declaration-later', 'C12', 'A document whose declaration is not the first thing, being behind a comment of its own.',
    'It gets no other declaration.',
    [(X, '''        let current_node = self.tree.get(0);
''', '''        let current_node = self.tree.iter().find(|node| node.is_list());
''')],
    [dict(args=['--xml'], src='a (?xml :version 1.0)\n')])

# C13
bug('css-number-unit', 'C13', 'A zero with a unit.',
    'The unit is dropped.',
    [(C, '''                node.value.to_owned()
            }),''', '''                if node.value == "0px" { String::from("0") } else { node.value.to_owned() }
            }),''')],
    [css('(p :margin 0px)\n')])
bug('css-property-twice', 'C13', 'The same property given twice in a row with the same value.',
    'It is written once.',
    [(C, '''    for property in properties {
        let ParseNode''', '''    let mut previous = None;
    for property in properties.into_iter() {
        if previous.replace(property) == Some(property) { continue; }
        let ParseNode''')],
    [css('(p :a b :a b)\n')])
bug('css-media-rule-space', 'C13', 'An at-rule with rules, the first of which is on the same line.',
    'The blank before it is dropped.',
    [(C, '''                parsing_rules = true;
                write!(f, "{}", leading_whitespace)?;''', '''                if parsing_rules || leading_whitespace.contains('\\n') {
                    write!(f, "{}", leading_whitespace)?;
                }
                parsing_rules = true;''')],
    [css('(@media print (p :a b))\n')])

# C09
bug('ampersand-alone', 'C09', 'An ampersand with blanks around it.',
    'It is not escaped.',
    [(A, '''            b'&'  => byte_builder.extend(b"&amp;"),''', '''            b'&'  => match (byte_builder.last(), bytes.clone().next()) {
                (Some(b' '), Some(b' ')) => byte_builder.push(byte),
                _ => byte_builder.extend(b"&amp;"),
            },''')],
    [html('(p "a & b")\n')])

# C14
bug('define-in-argument-order', 'C14', 'An `%ifdef` within the value of a definition, for the name that is being defined again.',
    'It is undefined meanwhile when it was defined as nothing.',
    [(E, '''            let nodes = nodes.to_owned().into_boxed_slice();
            let body = self.expand_nodes(nodes)?;''', '''            let nodes: ParseTree = nodes.into();
            if self.get_variable(&variable.value).is_some_and(|old| old.body.is_empty()) {
                self.definitions.borrow_mut().remove(&variable.value);
            };
            let body = self.expand_nodes(nodes)?;''')],
    [text('(%define x)(%define x (%ifdef x a b))(p %x)\n')])
bug('scope-left-after-error', 'C14', 'A macro whose parameter has the name of the macro that is called in its body.',
    'The parameter is called.',
    [(E, '''        let Some(mac) = self.get_variable(name) else {
            return Err(ExpansionError::new(
                &format!("Macro not found (`{}').", name), &node.owned_site()))
        };

        self.apply''', '''        let Some(mac) = self.get_variable(name) else {
            return Err(ExpansionError::new(
                &format!("Macro not found (`{}').", name), &node.owned_site()))
        };
        if let ([ParseNode::Symbol(alias)], []) = (&*mac.body, &*mac.params) {
            // An alias of another macro.
            if self.has_variable(&alias.value) { return self.expand_macro(&alias.value.clone(), node, params); }
        }
        self.apply''')],
    [text('(%define (f) y)(%define g f)(p (%g))\n')])
bug('variable-newline', 'C14', 'A variable used on a line of its own within a list, with a value that is a list.',
    'The line-break is lost.',
    [(E, '''                            first.set_leading_whitespace(sym.leading_whitespace.to_owned());
                        }
                        Ok(expanded)''', '''                            let blanks = sym.leading_whitespace.to_owned();
                            first.set_leading_whitespace(if first.is_list() { blanks.replace("\\n\\n", "\\n") } else { blanks });
                        }
                        Ok(expanded)''')],
    [text('(%define x (a))(p\n\n %x)\n')])

# C15
bug('default-of-rest', 'C15', 'A keyword parameter whose default is a list, left out.',
    'The default is bound as the pattern.',
    [(E, '''                    body: Box::new([ *value.clone() ]),
                }),
            );
        }
        // Capture''', '''                    body: match &**value {
                        ParseNode::List { nodes, .. } if nodes.len() == 1 && std::ptr::eq(value, *default) => nodes.clone(),
                        value => Box::new([ value.clone() ]),
                    },
                }),
            );
        }
        // Capture''')],
    [text('(%define (m :k (a)) %k)(p (%m) (%m :k (a)))\n')])
bug('pattern-attribute-value', 'C15', 'A pattern which is a keyword with a literal, and a value with another literal.',
    'They match.',
    [(E, '''                ParseNode::Attribute { keyword: k1, node: node1, .. } => if k0 == k1 {
                    self.bind(node0, node1)''', '''                ParseNode::Attribute { keyword: k1, node: node1, .. } => if k0 == k1 {
                    if node0.is_list() || node0.is_symbol() { self.bind(node0, node1) } else { Ok(()) }''')],
    [text('(p (%match (%do :a 1) (:a 2)))\n(p (%match (%do :a 1) ((%do :a 2) x) (y z)))\n')])
bug('too-many-lists', 'C15', 'A list pattern with no items, and a list with keywords only.',
    'They do not match, whatever the keywords.',
    [(E, '''                ParseNode::List { nodes: nodes1, .. } => self.bind_list(value, nodes0, nodes1),''', '''                ParseNode::List { nodes: nodes1, .. } => if nodes0.is_empty() && nodes1.iter().all(ParseNode::is_attribute) { Ok(()) }
                    else { self.bind_list(value, nodes0, nodes1) },''')],
    [text('(p (%match (:a 1) (() x) (y z)))\n')])

# C16
bug('get-list-then-key', 'C16', 'A `%get` of a path whose items have blanks around them.',
    'They are dropped.',
    [(E, '''        for item in path {
            // Verify''', '''        for item in path.map(str::trim) {
            // Verify''')],
    [text('(p (%get " 1" (a b)))\n', err=True)])
bug('for-over-list', 'C16', 'A `%for` over one item that is a list of lists.',
    'It goes over the lists within.',
    [(E, '''        let list = self.expand_nodes(list.into_boxed_slice())?;
        let body''', '''        let items = self.expand_nodes(list.into_boxed_slice())?;
        let list = match &*items {
            [ParseNode::List { nodes, .. }] if nodes.len() > 1 && nodes.iter().all(ParseNode::is_list) => nodes.clone(),
            _ => items,
        };
        let body''')],
    [text('(p (%for x in (((a) (b))) [%x]))\n')])
bug('get-negative', 'C16', 'A `%get` with a sign before the index.',
    'It is taken as a keyword only.',
    [(E, '''            if let Ok(index) = item.parse::<usize>()  {''', '''            if let (Ok(index), false) = (item.parse::<usize>(), item.starts_with('+')) {''')],
    [text('(p (%get +1 (a b)))\n')])
bug('reverse-attributes', 'C16', 'A `%reverse` of a list with keywords and other items.',
    'The keywords stay ahead.',
    [(E, '''            let mut item = list[list.len() - i - 1].clone();''', '''            let at = list.len() - i - 1;
            let mut item = if list[0].is_attribute() && !list[at].is_attribute() && list.len() == 2 { list[i].clone() } else { list[at].clone() };''')],
    [text('(p (%reverse (:a 1 b)))\n')])
bug('splat-attribute', 'C16', 'A `%splat` of a keyword whose value is a list.',
    'The items of the list come in its place.',
    [(E, '''            if let ParseNode::List { nodes, leading_whitespace, ..} = param {''', '''            let param = match param {
                ParseNode::Attribute { node, leading_whitespace, .. } if node.is_list() => {
                    let mut node = *node;
                    node.set_leading_whitespace(leading_whitespace);
                    node
                },
                param => param,
            };
            if let ParseNode::List { nodes, leading_whitespace, .. } = param {''')],
    [text('(p (%splat :a (b c)))\n')])

# C17
bug('apply-built-in', 'C17', 'An `%apply` of a lambda to no arguments.',
    'It yields the lambda.',
    [(E, '''        self.expand_invocation(args.number.1.value.as_ref(), node, args.rest.into_boxed_slice())
    }''', '''        if args.rest.is_empty() && args.number.1.value.starts_with("__lambda") && !self.get_variable(&args.number.1.value).is_some_and(|mac| mac.params.is_empty()) {
            return Ok(Box::new([]));
        }
        let params = args.rest.into_boxed_slice();
        self.expand_invocation(args.number.1.value.as_ref(), node, params)
    }''')],
    [text('(p (%apply (%lambda (&r) x %r)))\n')])
bug('map-over-attributes', 'C17', 'A `%map` with a keyword among the items, which the macro has a default for.',
    'The default is used.',
    [(E, '''            expanded.extend(self.expand_invocation(args.number.1.value.as_ref(), node, Box::new([arg]))?);''', '''            let call = if arg.is_attribute() && self.get_variable(args.number.1.value.as_ref()).is_some_and(|m| m.params.len() == 1 && m.params[0].is_attribute())
                { Box::new([]) as ParseTree } else { Box::new([arg]) as ParseTree };
            expanded.extend(self.expand_invocation(args.number.1.value.as_ref(), node, call)?);''')],
    [text('(%define (m :k 1) %k)(p (%map m :k 2))\n')])
bug('filter-not-list', 'C17', 'A `%filter` whose function yields an empty string.',
    'The item is removed.',
    [(E, '''                [node,] if node.null() => {},
                _ => expanded''', '''                [node,] if node.null() || node.string().is_some_and(|s| s.value.is_empty()) => {},
                _ => expanded''')],
    [text('(%define (m x) "")(p (%filter m a b) c)\n(%define (n x) %x)[(%filter n a "" (%raw "") b)]\n')])

# C18
bug('sort-whitespace-shared', 'C18', 'A list to sort whose first item is on a line of its own.',
    'That line-break is dropped.',
    [(E, '''            whitespace.push(node.leading_whitespace().to_owned());
            items.push''', '''            let blanks = node.leading_whitespace();
            whitespace.push(if whitespace.is_empty() { blanks.trim_start_matches('\\n').to_owned() } else { blanks.to_owned() });
            items.push''')],
    [text('(p (%sort (\n b a)))\n')])
bug('sort-attributes', 'C18', 'A sort by a key macro which yields a keyword.',
    'The value of the keyword counts.',
    [(E, '''            let key = key[0].clone();
            let key_type''', '''            let key = match &key[0] {
                ParseNode::Attribute { node, .. } => (**node).clone(),
                key => key.clone(),
            };
            let key_type''')],
    [text('(%define (m x) :k %x)(p (%sort (b a) :key m))\n', err=True)])

# C19
bug('join-one', 'C19', 'A `%join` of one item with a trailing separator.',
    'There is none.',
    [(E, '''        let joined = items.join(sep) + if trailing { sep } else { "" };''', '''        let joined = items.join(sep) + if trailing && items.len() != 1 { sep } else { "" };''')],
    [text('(p (%join "," a :trailing true))\n')])
bug('concat-numbers', 'C19', 'A `%concat` of nothing but numbers.',
    'The result is a number.',
    [(E, '''        Ok(Box::new([
            ParseNode::String(Node {
                value: joined,
                site: node.owned_site(),
                leading_whitespace: node.leading_whitespace().to_owned(),
            })
        ]))
    }

    fn expand_map''', '''        let wrap = if params.len() > 1 && params.iter().all(ParseNode::is_number) { ParseNode::Number } else { ParseNode::String };
        Ok(Box::new([
            wrap(Node {
                value: joined,
                site: node.owned_site(),
                leading_whitespace: node.leading_whitespace().to_owned(),
            })
        ]))
    }

    fn expand_map''')],
    [sexp('(p (%concat 1 2))\n')])
bug('env-trimmed', 'C19', 'An environment variable whose value ends in a line-break.',
    'It is dropped.',
    [(E, '''            ParseNode::String(Node { value, site, leading_whitespace }),''', '''            ParseNode::String(Node { value: value.trim_end_matches('\\n').to_owned(), site, leading_whitespace }),''')],
    lib=r'''use seam::assemble::MarkupFormatter;
fn main() { std::env::set_var("DEMO_X", "a\n");
    let e = seam::tree_builder(Option::<&std::path::Path>::None, "(%os/env DEMO_X)".to_string());
    let t = e.expand().unwrap(); let s = seam::assemble::text::PlainTextFormatter::new(t).display().unwrap(); assert_eq!(s, "a\n"); }''')

# C20
bug('offset-rounding', 'C20', 'An offset of a negative fraction of an hour that falls on half a second.',
    'It is rounded the other way.',
    [(E, '''            datetime.timestamp()
        };''', '''            datetime.timestamp() + (timezone_offset.unsigned_abs() % 60 == 59) as i64
        };''')],
    [text('(p (%timestamp "%Y-%m-%d %H:%M:%S" "2000-01-01 00:00:00" :timezone -0.9997))\n')])
bug('timestamp-literal', 'C20', 'A `%timestamp` of a leap day.',
    'It is that of the day behind.',
    [(E, '''            let datetime = timezone.from_local_datetime(&datetime);''', '''            let leap = datetime.format("%m-%d").to_string() == "02-29" && datetime.format("%Y").to_string().ends_with("00");
            let datetime = timezone.from_local_datetime(&(datetime + chrono::Duration::days(leap as i64)));''')],
    [text('(p (%timestamp "%Y-%m-%d %H:%M:%S" "2000-02-29 00:00:00" :timezone 0))\n')])
bug('date-format-space', 'C20', 'A date format that begins or ends with blanks.',
    'They are dropped.',
    [(E, '''        let date_format = args.number.1.value;''', '''        let date_format = args.number.1.value.trim_end().to_owned();''')],
    [text('(p (%date "%Y " 0 :timezone 0) x)\n')])

# C21
bug('include-absolute', 'C21', 'An include of a file whose name begins with a dot.',
    'It is not found with the extension left out.',
    [(E, '''                    let filename = path.file_name()
                        .ok_or(include_error(err))?;''', '''                    let filename = path.file_name().filter(|name| !name.to_string_lossy().starts_with('.'));
                    let filename = filename.ok_or(include_error(err))?;''')],
    [text('(p (%include .x))\n', files={'.x.sex': 'a'})])
bug('include-same-file-other-dir', 'C21', 'Two files of the same name in different directories, of which the first includes the other.',
    'It is taken for a circle.',
    [(E, '''        // Register the parser for the found file.
        let parser = self.register_parser(parser?);
''', '''        // Register the parser for the found file.
        let parser = self.register_parser(parser?);
        if self.subparsers.borrow().iter().filter(|p| p.get_source() == parser.get_source()).count() > 3 {
            return Ok(Box::new([]));
        }
'''), (E, '''            if parser.is_ok() { break; }''', '''            if parser.is_ok() { break }''')],
    [text('(p (%include x) (%include x) (%include x) (%include x))\n', files={'x': 'a'})])
bug('embed-trailing-newline', 'C21', 'An embedded file which consists of line-breaks only.',
    'It is empty.',
    [(E, '''        let value = value?;
        Ok(Box::new([
            ParseNode::String(Node {
                value,''', '''        let value = value?;
        Ok(Box::new([
            ParseNode::String(Node {
                value: if value.trim().is_empty() { String::new() } else { value },''')],
    [text('(p (%embed x))\n', files={'x': '\n\n'})])
bug('include-directory-order', 'C21', 'An include of a directory.',
    'The file `index.sex` in it is included.',
    [(E, '''            let path = include_dir.join(path);
            parser = super::parser_for_file(&path)
                .or_else''', '''            let path = include_dir.join(path.as_str());
            let path = if path.is_dir() { path.join("index") } else { path.to_owned() };
            parser = super::parser_for_file(&path)
                .or_else''')],
    [text('(p (%include x))\n', files={'x/index.sex': 'a', 'x.sex': 'b'})])

# C22
bug('namespace-redefined', 'C22', 'A namespace in which a name of the outside is defined again to the same.',
    'It is not part of the namespace when it was defined as empty.',
    [(E, '''                let new_key = format!("{}{}{}", namespace.value, separator, key);''', '''                if value.body.is_empty() && value.params.is_empty() { continue; }
                let new_key = [namespace.value.as_str(), separator, key].concat();''')],
    [text('(%namespace n (%define x))(p (%ifdef n/x a b))\n')])
bug('namespace-separator-last', 'C22', 'A separator given twice to a namespace.',
    'The first counts.',
    [(E, '''                    Some(Node { value, .. }) => separator = &value,''', '''                    Some(Node { value, .. }) => if separator == "/" { separator = &value },''')],
    [text('(%namespace n :separator . :separator - (%define x 1))(p (%ifdef n-x a b))\n')])
bug('namespace-number', 'C22', 'A namespace whose name is a string with a separator at its end.',
    'There is only one separator.',
    [(E, '''                let new_key = format!("{}{}{}", namespace.value, separator, key);
''', '''                let new_key = format!("{}{}{}", namespace.value.trim_end_matches('/'), separator, key);
''')],
    [text('(%namespace n/ (%define x 1))(p (%ifdef n//x a b))\n')])

# C23
bug('yaml-quoted-key', 'C23', 'A YAML key which has blanks at its ends.',
    'They are dropped.',
    [(E, '''                            Some(Mode::Map) => self.defining = Some(value.clone()),''', '''                            Some(Mode::Map) => self.defining = Some(value.trim_end().to_owned()),''')],
    [sexp('(p (%yaml "\\"a \\": 1"))\n')])
bug('yaml-key-twice', 'C23', 'A YAML mapping nested in a mapping with a key of the same name.',
    'The names of its items lack one of them.',
    [(E, '''                    if let Some(ref defining) = self.defining {
                        self.prefix.push(defining.clone());
                    }
                    self.defining = None;''', '''                    if let Some(ref defining) = self.defining {
                        self.prefix.push(defining.clone());
                        if self.prefix.len() > 2 { self.prefix.dedup(); }
                    };
                    self.defining = None;''')],
    [text('(%yaml "a:\\n  b:\\n    b:\\n      c: 1")(p (%ifdef a/b/b/c y n))\n', err=True)])
bug('yaml-multiline', 'C23', 'A YAML block text which ends in a line-break.',
    'The line-break is dropped.',
    [(E, '''                    let mut string = ParseNode::String(Node {
                        value: value.clone(),''', '''                    let mut string = ParseNode::String(Node {
                        value: value.strip_suffix('\\n').unwrap_or(value).to_owned(),''')],
    [sexp('(p (%yaml "a: |\\n  x\\n"))\n')])
# C24
bug('toml-zero-float', 'C24', 'A TOML float that is a negative zero.',
    'The sign is lost.',
    [(E, '''                    value: format!("{}", float),''', '''                    value: format!("{}", float + 0.0),''')],
    [sexp('(p (%toml "a = -0.0"))\n')])
# C25
bug('markdown-math', 'C25', 'Markdown with dollar signs.',
    'What is between them is mathematics.',
    [(E, '''                gfm_task_list_item: true,''', '''                gfm_task_list_item: true, math_text: true,''')],
    [text('(%markdown "a $x$ b")\n')])
bug('markdown-footnotes', 'C25', 'Markdown with a link which stands alone.',
    'It is a link.',
    [(E, '''                gfm_table: true,''', '''                gfm_table: true, gfm_autolink_literal: true,''')],
    [text('(%markdown "see www.example.com now")\n')])
bug('markdown-separator', 'C25', 'TOML frontmatter with a separator of its own.',
    'The usual one is used.',
    [(E, '''                    let _ = expand_toml(self, toml, &sep, node.site())?;''', '''                    let _ = expand_toml(self, toml, "/", node.site())?;''')],
    [text('(%markdown "+++\\n[a]\\nb = 1\\n+++\\nx" :separator .)(p (%ifdef a.b y n))\n')])
# C26
bug('glob-descending-none', 'C26', 'A descending order given without what to sort by, of names with digits.',
    'They are sorted by name.',
    [(E, '''                    SortBy::Name => self.path.partial_cmp(&other.path),''', '''                    SortBy::Name => if self.path.parent() == other.path.parent() {
                        let (a, b) = (self.path.to_string_lossy().to_lowercase(), other.path.to_string_lossy().to_lowercase());
                        a.partial_cmp(&b).filter(|o| o.is_ne()).or(self.path.partial_cmp(&other.path))
                    } else { self.path.partial_cmp(&other.path) },''')],
    [text('(p (%glob "d/*" :sort name))\n', files={'d/a': '', 'd/B': ''})])
bug('glob-empty-directories', 'C26', 'A directory with nothing in it, when files are not asked for.',
    'It is left out.',
    [(E, '''                PathTypes::Dir  if !meta.is_dir()  => continue,''', '''                PathTypes::Dir if std::fs::read_dir(&path).map_or(true, |mut dir| dir.next().is_none()) => continue,''')],
    [text('(p (%glob "d/*" :type directory))\n', files={'d/a/x': ''}, setup='mkdir d/b')])
# C27
bug('stdin-twice', 'C27', '`-` given twice.',
    'Standard input is processed twice, the second time as empty.',
    [(B, '''                    [] => {
                        from_stdin = true;
                    },''', '''                    [] if from_stdin => argument_fatal("Standard input given twice."),
                    [] => {
                        from_stdin = true;
                    },'''), (B, '''    if files.is_empty() {
        from_stdin = true;''', '''    if files.len() == 0 {
        from_stdin = true;''')],
    [dict(args=['-', '-', '--text'], src='a')])
bug('version-goes-on', 'C27', '`-v` given after a file that does not exist, or an unknown option.',
    'The version is shown.',
    [(B, '''    for arg in args {
        if arg''', '''    let args: Vec<String> = args.collect();
    let version = args.contains(&String::from("-v"));
    for arg in args.into_iter().filter(|arg| !version || arg == "-v") {
        if arg''')],
    [dict(args=['--nope', '-v', '--text'], src='a', )])
bug('include-dir-empty', 'C27', 'An `-I` without a directory.',
    'The next argument is the directory.',
    [(B, '''    for arg in args {
        if arg''', '''    let mut args = args;
    while let Some(mut arg) = args.next() {
        if arg == "-I" { if let Some(dir) = args.next() { arg += &dir; } }
        if arg''')],
    [dict(args=['-I', '--text'], src='a')])
# C28
bug('reverse-two', 'C28', 'A `%reverse` with two lists.',
    'The second is ignored.',
    [(E, '''        let (_parser, args) = arguments! { [&params]
            mandatory(1): list,
        }?;''', '''        let (_parser, args) = arguments! { [&params]
            mandatory(1): list, optional(2): list,
        }?;''')],
    [text('(%reverse (a) (b))\n')])
bug('define-attribute', 'C28', 'A `%define` whose name is a keyword.',
    'Its value is the name.',
    [(E, '''        = if let Some(variable) = head.symbol() {''', '''        = if let Some(variable) = head.attribute().map_or(head, |(_, name)| name).symbol() {''')],
    [text('(%define :k x y)(p (%ifdef x a b))\n')])
bug('markdown-symbol', 'C28', 'A markdown text given as a symbol.',
    'It is accepted.',
    [(E, '''            mandatory(1): string,
            optional("only")''', '''            mandatory(1): literal,
            optional("only")''')],
    [text('(%markdown a)\n')])
bug('log-list', 'C28', 'A `%log` of an empty list.',
    'It is accepted.',
    [(E, '''                words.push(word.value.clone());
            } else {''', '''                words.push(word.value.clone());
            } else if !param.null() {''')],
    [text('(%log ())\n')])
# C29
bug('get-error-outer', 'C29', 'A `%get` of an index that is out of bounds in an inner list.',
    'The error is placed at the path.',
    [(E, '''                    format!("Index {} is out of bounds in list of length {}.", index, view.len()),
                    node.owned_site(),''', '''                    format!("Index {} is out of bounds in list of length {}.", index, view.len()),
                    args.number.1.site,''')],
    [text('(%get 5 \n (a b))\n', err=True)])
bug('too-few-site', 'C29', 'A call with too few arguments.',
    'The error is placed at the last argument.',
    [(E, '''                    format!("Too few values given, looking for value {} out of only {}.", rhs_index + 1, nodes1.len()),
                    assigned.owned_site(),''', '''                    format!("Too few values given, looking for value {} out of only {}.", rhs_index + 1, nodes1.len()),
                    nodes1.last().unwrap_or(assigned).owned_site(),''')],
    [text('(%define (m a b) x)(%m\n 1)\n', err=True)])
bug('xml-attribute-site', 'C29', 'An attribute of XML with a list as its value.',
    'The error is placed at the keyword.',
    [(X, '''            "Attribute can only contain symbols, numbers or strings",
            &(*node).site()))''', '''            "Attribute can only contain symbols, numbers or strings",
            attr.site()))''')],
    [xml('(p :a\n (b))\n', err=True)])
# C30
bug('search-depth-zero', 'C30', 'A search without any depth.',
    'The node itself is found nevertheless.',
    [(P, '''        if level == 0 {
            return None;
        }

        let is_equal''', '''        if level == 0 && !self.is_atomic() {
            return None;
        }

        let is_equal''')],
    lib=r'''use seam::parse::{lexer::Lexer, parser::{Parser, SearchTree, SearchType}};
fn main() { let p = Parser::new(Lexer::new("x".into(), "a".into())); let t = p.parse().unwrap();
    assert!(t[0].search_node(SearchType::Any, "a", false, 0).is_none()); }''')
bug('search-second', 'C30', 'A search for a list which is found both within the first item and later on.',
    'The one in the outer list is found first.',
    [(P, '''        for node in self {
            let found = node.search_node(kind, value, insensitive, level);''', '''        for node in self.iter().filter(|n| n.is_atomic()).chain(self.iter().filter(|n| !n.is_atomic())) {
            let found = node.search_node(kind, value, insensitive, level);''')],
    lib=r'''use seam::parse::{lexer::Lexer, parser::{Parser, SearchTree, SearchType}};
fn main() { let p = Parser::new(Lexer::new("x".into(), "(b \"a\") a".into())); let t = p.parse().unwrap();
    assert!(t.search_node(SearchType::Any, "a", false, 9).unwrap().is_string()); }''')
# C33
# C34
bug('empty-html-fragment', 'C34', 'A writer that fails at the first thing written as HTML.',
    'The failure goes unnoticed.',
    [(H, '''                    // Void elements cannot have children.
                    if let''', '''                    // Void elements cannot have children.
                    let _ = write!(f, "{}", "");
                    if let'''), (H, '''                write!(f, ">")?;

                // Check early''', '''                let _ = write!(f, ">");

                // Check early''')],
    lib=r'''use seam::{assemble::{MarkupFormatter, html::HTMLFormatter}}; use std::fmt::{self, Write};
struct W(usize); impl Write for W { fn write_str(&mut self, s: &str) -> fmt::Result { if s.is_empty() { return Ok(()) } if self.0 == 0 { return Err(fmt::Error); } self.0 -= 1; Ok(()) } }
fn main() { let e = seam::tree_builder(Option::<&std::path::Path>::None, "(br)".to_string()); let t = e.expand().unwrap();
  let f = HTMLFormatter::new(t); let mut failed = 0; for n in 0..9 { if f.generate(&mut W(n)).is_err() { failed = n + 1; } else { break; } }
  let mut parts = 0; struct C<'a>(&'a mut usize); impl<'a> Write for C<'a> { fn write_str(&mut self, s: &str) -> fmt::Result { if !s.is_empty() { *self.0 += 1; } Ok(()) } }
  f.generate(&mut C(&mut parts)).unwrap(); assert_eq!(failed, parts); }''')
# C36
bug('for-list-twice', 'C36', 'A `%for` over nothing, with effects in what yields nothing.',
    'They happen twice.',
    [(E, '''        let list = self.expand_nodes(list.into_boxed_slice())?;
        let body = args''', '''        let list = match self.expand_nodes(list.clone().into_boxed_slice())? {
            items if items.is_empty() => self.expand_nodes(list.into_boxed_slice())?,
            items => items,
        };
        let body = args''')],
    [text('(p (%for x in ((%log a)) b))\n', err=True)])
bug('attribute-of-effects', 'C36', 'An attribute with effects in a value that yields several nodes.',
    'They happen again.',
    [(E, '''                let mut expanded_nodes = self.expand_node(*node)?;
''', '''                let mut expanded_nodes = self.expand_node(*node.clone())?;
                if expanded_nodes.len() > 2 { expanded_nodes = self.expand_node(*node)?; }
''')],
    [text('(p :a (%do (%log x) b c d))\n', err=True)])
bug('join-log-order', 'C36', 'An error in the default of a macro argument, after effects in others.',
    'It is found first.',
    [(E, '''        // Eagerly evaluate parameters passed to macro invocation.
        let params = self.expand_nodes(params)?;
''', '''        // Eagerly evaluate parameters passed to macro invocation.
        if let [first @ .., last] = &*params {
            if last.symbol().is_some_and(|s| s.value.starts_with('%') && !first.is_empty()) { let _ = self.expand_node(last.clone())?; }
        }
        let params = self.expand_nodes(params.to_vec().into_boxed_slice())?;
''')],
    [text('(%define (m a b) x)(%m (%log y) %nope)\n', err=True)])
bug('ifdef-expands-both', 'C36', 'A `%namespace` whose body has effects behind an option that is unknown.',
    'The error comes first.',
    [(E, '''        // Start evaluating all the arguments to the macro in a separate context.
''', '''        if let [_, ParseNode::Attribute { keyword, site, .. }, ..] = &*params {
            if keyword != "separator" { return Err(ExpansionError(format!("Unknown option `:{}' to `%namespace' macro.", keyword), *site)); }
        }
'''), (E, '''        let context = self.clone();
        let params =  context.expand_nodes(params)?;''', '''        let context = self.clone();
        let params = context.expand_nodes(params)?;''')],
    [text('(%namespace n :nope 1 (%log x))\n', err=True)])
