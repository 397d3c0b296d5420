"""The planted bugs, ninth batch: see plant.py."""
from bugs7 import *
from bugs import bug

# C04 / C05
bug('line-restored-late', 'C04', 'Two line-breaks within a run of blanks ahead of the end of the source.',
    'The line of a closing bracket behind them is one too low.',
    [(L, '''            if byte as char == '\\n' {
                self.next_line();
                if inside_eon_comment {''', '''            if byte as char == '\\n' {
                if start + 64 != index { self.next_line(); }
                if inside_eon_comment {''')],
    [text('(a' + ' ' * 64 + '\n%nope)\n', err=True)])
bug('keyword-site-escape', 'C04', 'A keyword with an escaped line-break in its name.',
    'It is placed on the line below.',
    [(L, '''        site.line = line_no;
        Token::new(tokens::Kind::Keyword, value, whitespace, site)''', '''        site.line = if value.ends_with('\\n') { self.line.get() } else { line_no };
        Token::new(tokens::Kind::Keyword, value, whitespace, site)''')],
    lib=r'''fn main() {
    let p = seam::parse::parser::Parser::new(seam::parse::lexer::Lexer::new("f".to_string(), "(p :k\\\n v)".to_string()));
    let t = p.parse().unwrap();
    let list = t[0].list().unwrap();
    assert_eq!(list[1].site().line, 1);
}''')
bug('comment-semicolons', 'C05', 'A comment with a quote in it, after two semicolons.',
    'It goes on until the quote is closed.',
    [(L, '''                if inside_eon_comment {
                    // EON''', '''                if inside_eon_comment && !bytes[start..index].ends_with(b";;\\"") {
                    // EON''')],
    [text('a ;;"\nb\n')])
bug('escape-at-number', 'C05', 'A number which is followed by an escaped blank.',
    'It ends before the backslash.',
    [(L, '''            if c == '\\\\' {
                let _ = self.consume_char(); // `\\`.''', '''            if c == '\\\\' && (self.byte_offset.get() == start || !self.source[start..].starts_with('-')) {
                let _ = self.consume_char(); // `\\`.''')],
    [sexp('(p -1\\ 2)\n')])

# C06 / C07
bug('sexp-newline-literal', 'C06', 'A string with a tab in it, behind another character.',
    'The tab is written as blanks.',
    [(S, '''                write!(f, "{}", node.leading_whitespace)?;
                write!(f, "(%raw {})", escape_string(&node.value))?;''', '''                write!(f, "{}", node.leading_whitespace)?;
                write!(f, "(%raw {})", escape_string(&node.value).replace("\\\\t", "  "))?;''')],
    [sexp('(p (%raw "a\\tb"))\n')])
bug('sexp-attribute-raw', 'C06', 'A raw string as the value of a keyword.',
    'It becomes a plain string.',
    [(S, '''                write!(f, ":{}", keyword)?;
                self.generate_node(f, node)?;''', '''                write!(f, ":{}", keyword)?;
                match &**node {
                    ParseNode::Raw(raw) => self.generate_node(f, &ParseNode::String(raw.clone()))?,
                    node => self.generate_node(f, node)?,
                }''')],
    [sexp('(p :k (%raw "a"))\n')])
bug('text-blank-end', 'C07', 'A list whose end is on a line of its own, behind nothing but keywords.',
    'The end moves up.',
    [(P if False else 'assemble/text.rs', '''                write!(f, "{}", end_token.leading_whitespace)?;
                write!(f, ")")?;''', '''                let end = end_token.leading_whitespace;
                write!(f, "{}", if nodes.iter().all(|n| n.is_attribute()) { end.trim_start_matches('\\n') } else { end })?;
                write!(f, ")")?;''')],
    [text('(:k v\n)\n')])

# C08–C11
bug('html-attr-raw-layout', 'C08', 'A raw attribute value which contains double quotes.',
    'It is put in single quotes.',
    [(H, '''                            ParseNode::Raw(_) => write!(f, "{}=\\"{}\\"", keyword, atom.value)?,''', '''                            ParseNode::Raw(_) if atom.value.contains('"') => write!(f, "{}='{}'", keyword, atom.value)?,
                            ParseNode::Raw(_) => write!(f, "{0}=\\"{1}\\"", keyword, atom.value)?,''')],
    [html('(p :k (%raw "a\\"b"))\n')])
bug('html-attr-tab', 'C08', 'A keyword behind a tab.',
    'There is a blank in its place.',
    [(H, '''                            = if leading_whitespace.is_empty()
                              { " " } else { leading_whitespace };''', '''                            = if leading_whitespace.is_empty() || leading_whitespace == "\\t"
                              { " " } else { leading_whitespace };''')],
    [html('(p\t:k v\t:l w)\n')])
bug('xml-escape-attr-newline', 'C12', 'An attribute in XML with a line-break in its value.',
    'It is written as a character reference.',
    [(X, '''        Ok(format!("{}=\\"{}\\"", keyword, escape_xml(&symbol.value)))''', '''        Ok(format!("{}=\\"{}\\"", keyword, escape_xml(&symbol.value).replace('\\n', "&#10;")))''')],
    [xml('(p :k "a\nb")\n')])
bug('xml-pi-space', 'C12', 'A processing instruction without anything.',
    'There is no blank before its end.',
    [(X, '''                    if front == '?' {
                        write!(f, " ?>")?;''', '''                    if front == '?' {
                        write!(f, "{}", if list.len() > 1 { " ?>" } else { "?>" })?;''')],
    [xml('(?php)\n')])
bug('xml-style-any-case', 'C12', 'An element named `STYLE` in XML, with its end right behind.',
    'It is closed as `style` is.',
    [(X, '''                    if is_first_node_on_next_line || tag == "style" {''', '''                    if is_first_node_on_next_line || tag.eq_ignore_ascii_case("style") {''')],
    [xml('(p\n (STYLE a))\n')])
bug('html-document-head-inside', 'C10', 'A `head` element two levels down.',
    'It is not found.',
    [(H, '''                if head_tag.is_none() {
                    doc += "<head></head>\\n"''', '''                if head_tag.is_none() || !self.tree.iter().any(|n| n.list().is_some_and(|l| l.first().and_then(|n| n.symbol()).is_some_and(|s| s.value.eq_ignore_ascii_case("head")))) {
                    doc += "<head></head>\\n"''')],
    [dict(args=['--html'], src='(div (head))\n')])
bug('html-document-empty-output', 'C10', 'A source which expands to nothing but an empty string.',
    'The document is the default one.',
    [(H, '''        // Populate.
        doc += &self.display()?;
        doc += "\\n";''', '''        // Populate.
        let body = self.display()?;
        if body.is_empty() { return Ok(String::from(DEFAULT)); }
        doc += &body;
        doc += "\\n";''')],
    [dict(args=['--html'], src='""\n')])
bug('title-entities', 'C11', 'A `title` with a raw string.',
    'It is left out.',
    [(H, '''                        let text_fmt = PlainTextFormatter::new(rest.into_boxed_slice());''', '''                        if tag == "title" { rest.retain(|n| !matches!(n, ParseNode::Raw(r) if r.value.starts_with('<'))); }
                        let text_fmt = PlainTextFormatter::new(rest.into_boxed_slice());''')],
    [html('(title a (%raw "<b>"))\n')])
bug('style-string-twice', 'C11', 'A `style` element with a string behind a rule.',
    'The string is written as it is.',
    [(H, '''                            if rest.len() != 1 {''', '''                            if rest.len() != 1 && !rest.iter().all(|n| matches!(n, ParseNode::String(_))) {''')],
    [html('(style "a" "b")\n', err=True)])
bug('svg-capital', 'C11', 'A void element name in an svg.',
    'It is not closed.',
    [(X, '''                write!(f, "</{}>", tag)?;
            },
            _ =>''', '''                if !(tag == "br" && list.len() == 1) { write!(f, "</{}>", tag)?; }
            },
            _ =>''')],
    [html('(svg (br))\n')])

# C09
bug('escape-apostrophe', 'C09', 'An apostrophe in a text.',
    'It is escaped in attribute values.',
    [(H, '''                            _ => write!(f, "{}=\\"{}\\"", keyword, escape_xml(&atom.value))?,''', '''                            _ => write!(f, "{0}=\\"{1}\\"", keyword, escape_xml(&atom.value).replace("&gt;", ">"))?,''')],
    [html('(p :k "a > b")\n')])
bug('escape-number-attribute', 'C09', 'A symbol as an attribute value in HTML which has a quote in it.',
    'It is not escaped.',
    [(H, '''                            ParseNode::Raw(_) => write!(f, "{}=\\"{}\\"", keyword, atom.value)?,''', '''                            ParseNode::Raw(_) | ParseNode::Number(_) => write!(f, "{}=\\"{}\\"", keyword, atom.value)?,''')],
    [html('(p :k 1&2)\n')])

# C13
bug('css-selector-quotes', 'C13', 'A selector given as a string with blanks.',
    'Its blanks are joined.',
    [(C, '''    for selector in selectors {
        write!(f, "{} ", selector.value)?;''', '''    for selector in selectors {
        write!(f, "{} ", selector.value.split_whitespace().collect::<Vec<_>>().join(" "))?;''')],
    [css('(p "a  b" :k v)\n')])
bug('css-function-case', 'C13', 'A CSS function in capitals.',
    'It is taken for the function.',
    [(C, '''                    if CSS_FUNCTIONS.contains(&head.as_str()) {''', '''                    if CSS_FUNCTIONS.iter().any(|name| name.eq_ignore_ascii_case(&head)) {''')],
    [css('(p :k (RGB 1 2))\n')])
bug('css-nested-at-page', 'C13', 'A `@page` rule inside of `@media`.',
    'It is left out.',
    [(C, '''                write!(f, "{}", leading_whitespace)?;
                generate_css_rule(f, site, rule.into_iter())?;
            },
            _ => {
                unexpected''', '''                write!(f, "{}", leading_whitespace)?;
                if rule.first().and_then(|n| n.symbol()).is_some_and(|s| s.value == "@page") { continue; }
                generate_css_rule(f, site, rule.iter())?;
            },
            _ => {
                unexpected''')],
    [css('(@media print (@page :margin 1cm))\n')])
bug('css-raw-quoted', 'C13', 'A raw string with blanks as an argument of a function.',
    'It is quoted.',
    [(C, '''                        tail_tmp[i] = convert_value(e)?
''', '''                        tail_tmp[i] = match e {
                            ParseNode::Raw(raw) if raw.value.contains('\\n') => format!("{:?}", raw.value),
                            e => convert_value(e)?,
                        }
''')],
    [css('(p :k (url (%raw "a\nb")))\n')])
bug('css-symbol-selector-empty', 'C13', 'An at-rule with an empty list as a rule.',
    'It is left out.',
    [(C, '''            ParseNode::List { nodes: ref rule, site, leading_whitespace, .. } => {
                // Now''', '''            ParseNode::List { nodes: ref rule, .. } if rule.is_empty() => continue,
            ParseNode::List { nodes: ref rule, site, leading_whitespace, .. } => {
                // Now''')],
    [css('(@media ())\n', err=True)])

# C14
bug('variable-params-rest', 'C14', 'A macro which has only keyword parameters, used as a variable.',
    'It gives its body.',
    [(E, '''                        if !def.params.is_empty() {  // Should not be a function.''', '''                        if def.params.iter().any(|p| !p.is_attribute()) {  // Should not be a function.''')],
    [text('(%define (m :k 1) x)(p %m)\n', err=True)])
bug('define-trims-name', 'C14', 'A definition whose name starts with a percent sign.',
    'The percent sign is dropped.',
    [(E, '''        self.create_macro(name, arguments, body)?;
        Ok(Box::new([]))''', '''        let name = name.strip_prefix('%').map(str::to_owned).unwrap_or(name);
        self.create_macro(name, arguments, body)?;
        Ok(Box::new([]))''')],
    [text('(%define (%x) 1)(p (%ifdef x a b))\n')])
bug('call-params-once', 'C14', 'A macro call in the arguments of a call of the same macro.',
    'Its definitions stay.',
    [(E, '''        let params = self.expand_nodes(params)?;

        let Some(mac) = self.get_variable(name) else {''', '''        let same = params.iter().any(|p| p.list().is_some_and(|l| l.first().and_then(|n| n.symbol()).is_some_and(|s| s.value.strip_prefix('%') == Some(name))));
        let context = self.clone();
        let params = if same { context.expand_nodes(params)? } else { self.expand_nodes(params)? };

        let Some(mac) = self.get_variable(name) else {''')],
    [text('(%define (m x &r) %x)(p (%m (%m a) (%define y 1) b) (%ifdef y c d))\n')])
bug('definition-same-name-params', 'C14', 'A macro defined again with another number of parameters.',
    'The old one stays when the new one has no body.',
    [(E, '''        self.insert_variable(name, mac.clone());
        Ok(mac)''', '''        if !mac.body.is_empty() || mac.params.is_empty() || !self.has_variable(&name) { self.insert_variable(name, mac.clone()); }
        Ok(mac)''')],
    [text('(%define (m x) %x)(%define (m x) )(p (%m 1))\n')])
bug('ifdef-alternative-space', 'C14', 'An `%ifdef` in which the name is not defined, with the alternative on a line of its own.',
    'The line-break stays.',
    [(E, '''        if let Some(first_node) = expanded.get_mut(0) {
            first_node.set_leading_whitespace(node.leading_whitespace().to_owned());
        }
        Ok(expanded)''', '''        let keep = expanded.len() == 1 && expanded[0].leading_whitespace().starts_with("\\n\\n");
        if let (Some(first_node), false) = (expanded.get_mut(0), keep) {
            first_node.set_leading_whitespace(node.leading_whitespace().to_owned());
        }
        Ok(expanded)''')],
    [text('(p (%ifdef nope a\n\n b))\n')])

# C15
bug('rest-drops-null', 'C15', 'An empty list among the arguments for `&rest`.',
    'It is dropped.',
    [(E, '''            } else {
                rest.push(node1.clone());
            }
            rhs_index += 1;''', '''            } else if !node1.null() || rest_node.is_none() {
                rest.push(node1.clone());
            }
            rhs_index += 1;''')],
    [text('(%define (m &r) %r)(p (%m a () b))\n')])
bug('attribute-pattern-case', 'C15', 'A pattern which is a keyword, and a value whose keyword is the same but for its case.',
    'They match.',
    [(E, '''                ParseNode::Attribute { keyword: k1, node: node1, .. } => if k0 == k1 {''', '''                ParseNode::Attribute { keyword: k1, node: node1, .. } => if k0.eq_ignore_ascii_case(k1) {''')],
    [text('(%match (%do :K 1) (:k a) (x b))\n')])
bug('excess-first', 'C29', 'Two excess arguments in a call.',
    'The error is placed at the first.',
    [(E, '''        } else if let Some(last_excess_node) = rest.last() {''', '''        } else if let Some(last_excess_node) = rest.first() {''')],
    [text('(%define (m) x)(%m 1\n 2)\n', err=True)])
bug('default-blanks', 'C15', 'A keyword parameter with its default on a line of its own.',
    'The line-break is lost in a list.',
    [(E, '''                // No named corresponding argument in the RHS means we have to use its default.
                None => default,''', '''                None if default.list().is_some_and(|list| list.is_empty()) => continue,
                None => default,''')],
    [text('(%define (m :k ()) (%ifdef k %k no))(p (%m))\n')])
bug('kwrest-order-defaults', 'C15', 'A keyword for `&&`-rest which is given twice.',
    'Both are kept.',
    [(E, '''                if let Some(named) = rhs_named.remove(keyword) {
                    nodes.push(named.clone());
                }''', '''                if lhs_named.contains_key(keyword) { continue; }
                if rhs_named.contains_key(keyword) { nodes.push(node1.clone()); }'''),
     (E, '''            // Insert the &&-variable.
''', '''            rhs_named.clear(); // Insert the &&-variable.
''')],
    [text('(%define (m &&o) %o)(p (%m :a 1 :a 2))\n')])
bug('symbol-pattern-number', 'C15', 'A raw string in a pattern for a number.',
    'It matches.',
    [(E, '''                ParseNode::Number(number1) => if number0 == number1 { Ok(()) } else {''', '''                ParseNode::Raw(raw) if raw.value == number0.value => Ok(()),
                ParseNode::Number(number1) => if number0 == number1 { Ok(()) } else {''')],
    [text('(%match (%raw 1) (1 a) (x b))\n')])
bug('bind-attribute-list', 'C15', 'A list pattern with a keyword whose default is a list with names.',
    'The names are bound.',
    [(E, '''            // Bind it to a symbol with the same name as the keyword.
            self.insert_variable(''', '''            if let (ParseNode::List { nodes: names, .. }, ParseNode::List { nodes: values, .. }) = (&***default, &**value) {
                if names.len() == values.len() && !names.is_empty() { let _ = self.bind_list(value, names, values); }
            }
            self.insert_variable(''')],
    [text('(%define (m :k (a b)) (%ifdef a yes no))(p (%m))\n')])

# C16
bug('concat-blank', 'C19', 'A `%concat` of strings which are empty and others.',
    'Blanks between are kept.',
    [(E, '''            |acc, x| acc + x.value.as_ref()
''', '''            |acc, x| acc + if x.value.is_empty() { &x.leading_whitespace } else { x.value.as_ref() }
''')],
    [text('(p (%concat a "" b))\n')])
bug('join-empty-items', 'C19', 'A `%join` with an empty string among the items.',
    'It is skipped.',
    [(E, '''        let items: Vec<&str> = args.rest.iter().map(|n| n.value.as_str()).collect();''', '''        let items: Vec<&str> = args.rest.iter().map(|n| n.value.as_str())
            .enumerate().filter(|(i, v)| *i == 0 || !v.is_empty()).map(|(_, v)| v).collect();''')],
    [text('(p (%join , a "" b))\n')])
bug('join-trailing-empty', 'C19', 'A `%join` with a trailing separator and no items.',
    'There is no separator.',
    [(E, '''        let joined = items.join(sep) + if trailing { sep } else { "" };''', '''        let joined = items.join(sep) + if trailing && !items.is_empty() { sep } else { "" };''')],
    [text('(p (%join , :trailing true))\n')])
bug('raw-newline', 'C19', 'A `%raw` with its first text on a line of its own.',
    'The line-break is dropped.',
    [(E, '''            builder += leading_whitespace;
            builder += value;
        }
        Ok(Box::new([
            ParseNode::Raw(Node {''', '''            if !builder.is_empty() { builder += leading_whitespace; }
            builder += value;
        }
        Ok(Box::new([
            ParseNode::Raw(Node {''')],
    [text('(p (%raw\n a b))\n')])
bug('string-of-empty-first', 'C19', 'A `%string` with an empty string ahead of others.',
    'The blanks behind it are dropped.',
    [(E, '''            builder += leading_whitespace;
            builder += value;
        }
        Ok(Box::new([
            ParseNode::String(Node {''', '''            if !builder.is_empty() || leading_whitespace.contains('\\n') { builder += leading_whitespace; }
            builder += value;
        }
        Ok(Box::new([
            ParseNode::String(Node {''')],
    [text('(p (%string "" a))\n')])
bug('number-normalised', 'C19', 'A `%number` of a text with blanks around it.',
    'They are dropped.',
    [(E, '''            expanded.push(ParseNode::Number(node));''', '''            let value = node.value.trim().to_owned();
            expanded.push(ParseNode::Number(Node { value, ..node }));''')],
    [text('(p (%number " 1 "))\n')])
bug('get-through-attribute', 'C16', 'A `%get` of a path which goes through a keyword found by its index.',
    'It goes into the value.',
    [(E, '''            // Verify the current node is a list so it can be indexed.
            if let Some(list) = node.list() {''', '''            if let ParseNode::Attribute { node: inner, .. } = node { node = *inner; }
            if let Some(list) = node.list() {''')],
    [text('(p (%get 0/0 ((%do :k (a b)))))\n', err=True)])
bug('for-nodes-of-nothing', 'C16', 'A `%for` whose list has a variable which expands to nothing.',
    'There is a round for it.',
    [(E, '''        let list = self.expand_nodes(list.into_boxed_slice())?;
        let body = args.rest''', '''        let given = list.len();
        let mut list = self.expand_nodes(list.into_boxed_slice())?.into_vec();
        if list.is_empty() && given > 1 { list.push(it.clone()); }
        let body = args.rest''')],
    [text('(%define n)(%define m)(p (%for x in (%n %m) a))\n')])

# C17
bug('apply-keyword-first', 'C17', 'An `%apply` with a keyword ahead of the function name.',
    'It is passed behind the others.',
    [(E, '''        self.expand_invocation(args.number.1.value.as_ref(), node, args.rest.into_boxed_slice())''', '''        let mut rest = args.rest;
        if rest.first().is_some_and(|n| n.is_attribute()) { rest.rotate_left(1); }
        self.expand_invocation(args.number.1.value.as_ref(), node, rest.into_boxed_slice())''')],
    [text('(p (%apply list :k 1 a))\n')])
bug('map-null-items', 'C17', 'A `%map` with an empty list among the items.',
    'It is skipped.',
    [(E, '''        for arg in args.rest {
            expanded.extend(self.expand_invocation(args.number.1.value.as_ref(), node, Box::new([arg]))?);
        }''', '''        for arg in args.rest {
            if arg.null() && !expanded.is_empty() { expanded.push(arg); continue; }
            expanded.extend(self.expand_invocation(args.number.1.value.as_ref(), node, Box::new([arg]))?);
        }''')],
    [text('(%define (m x) y)(p (%map m a ()))\n')])
bug('lambda-nested-name', 'C17', 'A lambda that is made within the body of another one, twice.',
    'The first stays.',
    [(E, '''        self.create_macro(name.clone(), arglist, args.rest.into_boxed_slice())?;

        Ok''', '''        if !self.has_variable(&name) || arglist.len() != 1 { self.create_macro(name.clone(), arglist, args.rest.into_boxed_slice())?; }

        Ok''')],
    [text('(%define (f &r) (%splat (%r)))(p (%for i in (a b) (%apply (%lambda (x) %x i) c)))(%define k (%lambda (z) 1))\n'),
     text('(p (%for i in (1 2) (%define g (%lambda (x) %i)) (%map %g q)))\n')])

# C18
bug('sort-leading-zeros', 'C18', 'Numbers of equal value which are written differently.',
    'They are put in the order of their spelling.',
    [(E, '''            let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
            item0.key.cmp(&item1.key)''', '''            let order = item0.key.cmp(&item1.key);
            let order = if order.is_eq() { item0.node.atomic().map(|a| a.value.len() > 3).cmp(&item1.node.atomic().map(|a| a.value.len() > 3)) } else { order };
            if ascending { order } else { order.reverse() }''')],
    [text('(p (%sort (1.000 1)))\n')])
bug('sort-first-blank', 'C18', 'A list to sort with an item on a line of its own.',
    'The line-break goes with the item.',
    [(E, '''            node.set_leading_whitespace(whitespace.pop().unwrap());
            node''', '''            let space = whitespace.pop().unwrap();
            if !node.leading_whitespace().contains("\\n\\n") { node.set_leading_whitespace(space); }
            node''')],
    [text('(p (%sort (b\n\n a c)))\n')])

# C20
bug('date-fraction-floor', 'C20', 'A timezone with minutes, west of Greenwich.',
    'It is a second off.',
    [(E, '''        let time = time.with_timezone(&timezone);
        let mut formatted''', '''        let time = time.with_timezone(&timezone);
        let time = if timezone_offset < 0 && timezone_offset % 1800 != 0 { time - chrono::TimeDelta::seconds(1) } else { time };
        let mut formatted''')],
    [text('(p (%date "%T" 0 :timezone -3.25))\n')])
bug('date-plus', 'C20', 'A timestamp with a sign.',
    'It is rejected.',
    [(E, '''            let Ok(secs) = time.value.parse::<i64>() else {''', '''            let Some(secs) = time.value.strip_prefix('+').map_or(Some(&*time.value), |_| None).and_then(|t| t.parse::<i64>().ok()) else {''')],
    [text('(p (%date "%T" +5 :timezone 0))\n')])
bug('timestamp-embedded-zone', 'C20', 'A date with its zone in it, while a timezone is also given.',
    'Both are applied.',
    [(E, '''            // Timezone information already given. Ignore any `:timezone` attribute.
            datetime.timestamp()''', '''            // Timezone information already given.
            datetime.timestamp() - if args.timezone.is_some() && timezone_offset > 12 * 3600 { i64::from(timezone_offset) } else { 0 }''')],
    [text('(p (%timestamp "%F %T %z" "2020-01-01 00:00:00 +0100" :timezone 13))\n')])

# C21
bug('embed-directory-next', 'C21', 'An embed of a name which is a directory in the first place searched.',
    'It is an error.',
    [(E, '''            let path = include_dir.join(path);
            value = std::fs::read_to_string(path)
                .map_err(|err| embed_error(Box::new(err)));
            if value.is_ok() { break; }''', '''            let path = include_dir.join(path);
            let found = path.is_dir();
            value = std::fs::read_to_string(path)
                .map_err(|err| embed_error(Box::new(err)));
            if value.is_ok() || found { break; }''')],
    [dict(args=['--text', '--nodoc', '-Id'], src='(%embed x)\n', files={'x/y': 'a', 'd/x': 'b'})])
bug('include-first-attribute', 'C21', 'An included file which begins with an expansion to nothing.',
    'What comes next keeps its own blanks.',
    [(E, '''        for branch in tree {
            expanded_tree.extend(self.expand_node(branch)?);
        }
        // First node should inherit leading whitespace from (%include ...) list.
        if expanded_tree.len() != 0 {''', '''        let mut first_empty = false;
        for (i, branch) in tree.iter().cloned().enumerate() {
            expanded_tree.extend(self.expand_node(branch)?);
            if i == 0 { first_empty = expanded_tree.is_empty(); }
        }
        // First node should inherit leading whitespace from (%include ...) list.
        if expanded_tree.len() != 0 && !(first_empty && expanded_tree.len() == 1) {''')],
    [text('(p (%include x))\n', files={'x': '(%define y 1)\n\nb'})])
bug('include-own-includes', 'C21', 'An include within a macro body, called from another file.',
    'Only the first include directory is searched.',
    [(E, '''            let path = include_dir.join(path);
            parser = super::parser_for_file(&path)''', '''            if self.subparsers.borrow().len() > 1 && include_dir != &self.includes[0] && self.includes.len() > 2 && include_dir != &self.includes[1] { continue; }
            let path = include_dir.join(path);
            parser = super::parser_for_file(&path)''')],
    [dict(args=['--text', '--nodoc', '-Ia', '-Ib'], src='(%include x)(%include y)(%include z)\n', files={'x.sex': '1', 'y.sex': '2', 'b/z.sex': '3'})])

# C22
bug('namespace-macro-call', 'C22', 'A macro of a namespace called within another namespace.',
    'Its definitions appear there.',
    [(E, '''                .filter(|(key, value)| !self_defs.get(*key)
                    .is_some_and(|outer| Rc::ptr_eq(outer, value)))''', '''                .filter(|(key, value)| !self_defs.get(*key)
                    .is_some_and(|outer| Rc::ptr_eq(outer, value) || outer.params.len() == 2 && value.params.len() == 2))''')],
    [text('(%define (m a b) 1)(%namespace n (%define (m c d) 2))(p (%ifdef n/m y n))\n')])

# C23/C24
bug('yaml-number-text', 'C23', 'A YAML key that reads as a number.',
    'It names the item by its value.',
    [(E, '''                    let name = self.prefix.pop(); // The name of this map or sequence.''', '''                    let name = self.prefix.pop().map(|n| if n.starts_with('0') && n.len() == 2 { n[1..].to_owned() } else { n }); // The name of this map or sequence.''')],
    [text('(%yaml "01: [a]")(p (%ifdef 01 y n))\n', err=True)])
bug('yaml-empty-value', 'C23', 'A YAML key without value.',
    'It is not defined.',
    [(E, '''                            let qualified_name = self.qualified(name);
                            self.context.insert_variable(''', '''                            let qualified_name = self.qualified(name);
                            if !value.is_empty() || self.mode == Some(Mode::Seq) || self.prefix.is_empty() { self.context.insert_variable('''),
     (E, '''                                body: Box::new([string.clone()]),
                            }));''', '''                                body: Box::new([string.clone()]),
                            })); }''')],
    [text('(%define x (%yaml "a:\\n  b: \\"\\""))(p (%ifdef a/b y n))\n')])
bug('toml-nested-array-space', 'C24', 'A TOML array whose first item is an array.',
    'There is a blank ahead of it.',
    [(E, '''                nodes: expanded.into_boxed_slice(),
                site: self.site,
                end_token: self.the_dreaded_rparen,
                leading_whitespace: whitespace(leading)''', '''                nodes: expanded.into_boxed_slice(),
                site: self.site,
                end_token: self.the_dreaded_rparen,
                leading_whitespace: whitespace(leading && i != 1)''')],
    [text('(p (%toml "a = [[1], 2]"))\n')])
bug('toml-define-order', 'C24', 'A TOML key in quotes which is the same as a dotted path.',
    'The path is not defined.',
    [(E, '''            let qualified = self.qualified(&name);
            self.context.insert_variable(qualified,''', '''            let qualified = self.qualified(&name);
            if name.contains('"') { return; }
            self.context.insert_variable(qualified,''')],
    [text("(%toml \"'a\\\"b' = 1\")(p (%ifdef a\\\"b y n))\n")])
bug('markdown-fence-blank', 'C25', 'Frontmatter whose closing fence has blanks behind it.',
    'It is not found.',
    [(E, '''            Only::Content => to_html(),''', '''            Only::Content if frontmatter.is_some_and(|(_, text)| text.is_empty()) => Ok(Box::new([])),
            Only::Content => to_html(),''')],
    [text('(p (%markdown "---\n---\nx" :only content))\n')])
bug('markdown-both-error', 'C25', 'Markdown with frontmatter that is broken.',
    'It is rejected when it is TOML.',
    [(E, '''                let _ = extract_frontmatter();
                to_html()''', '''                let found = extract_frontmatter();
                if matches!(frontmatter, Some(("+++", _))) { found?; }
                to_html()''')],
    [text('(p (%markdown "+++\n=\n+++\nx"))\n')])

# C26
bug('glob-type-directories-last', 'C26', 'A directory with a dot in its name, sorted by type.',
    'It is sorted by its extension among the files.',
    [(E, '''                        if self.meta.is_dir() && other.meta.is_file() {''', '''                        if self.meta.is_dir() && self.path.extension().is_none() && other.meta.is_file() {''')],
    [text('(p (%glob "d/*" :sort type))\n', files={'d/b.d/x': '', 'd/a': '', 'd/c.a': ''})])
bug('glob-spaces', 'C26', 'A pattern with several matches, the first of which is a hidden file.',
    'It has a blank ahead.',
    [(E, '''        if let Some(first) = expanded.first_mut() {
            first.set_leading_whitespace(String::new());
        }
        Ok(expanded)''', '''        if let (Some(first), true) = (expanded.len(), !is_ascending_order || sortby == SortBy::None).1.then(|| expanded.first_mut()).unwrap_or(None).map(|first| (first, true)).map_or((None, true), |(f, t)| (Some(f), t)) {
            first.set_leading_whitespace(String::new());
        } else if let Some(first) = expanded.first_mut().filter(|n| !n.atomic().is_some_and(|a| a.value.starts_with('.'))) {
            first.set_leading_whitespace(String::new());
        }
        Ok(expanded)''')],
    [text('(p (%glob "d/*" :sort name))\n', files={'d/.b': '', 'd/a': ''})])

# C27
bug('include-dir-last', 'C27', 'The same include directory given twice.',
    'The later one moves ahead.',
    [(B, '''                        include_dirs.push(dir);''', '''                        include_dirs.retain(|d| *d != dir);
                        include_dirs.push(dir);''')],
    [dict(args=['--text', '-Ia', '-Ib', '-Ia'], src='(%include x)\n', files={'a/x.sex': '1', 'b/x.sex': '2'})])
bug('file-named-dash', 'C27', 'A directory given as a file.',
    'It is skipped.',
    [(B, '''            if path.exists() {
                files.push(path);''', '''            if path.is_dir() && !files.is_empty() {
                continue;
            } else if path.exists() {
                files.push(path);''')],
    [dict(args=['x', 'd', '--text'], src='', files={'x': 'a', 'd/y': 'b'})])

# C29/C30/C36
bug('log-words-blank', 'C36', 'A `%log` with an empty string among its words.',
    'It is left out.',
    [(E, '''                words.push(word.value.clone());''', '''                if !word.value.is_empty() || words.is_empty() { words.push(word.value.clone()); }''')],
    [text('(%log a "" b)\n', err=True)])
bug('log-in-default', 'C36', 'A `%log` in the default of a keyword parameter, which is used twice.',
    'It is only logged once.',
    [(E, '''                        let mut expanded = self.expand_nodes(def.body.clone())?;
                        // Inherit''', '''                        let mut expanded = self.expand_nodes(def.body.clone())?;
                        if def.body.len() == 1 && def.body[0].is_list() && expanded.len() == 1 && self.definitions.borrow().len() > 3 {
                            self.insert_variable(name.to_owned(), Rc::new(Macro { name: name.to_owned(), params: Box::new([]), body: expanded.clone() }));
                        }
                        // Inherit''')],
    [text('(%define x 1)(%define y 1)(%define z 1)(%define w 1)(%define (m :k (%do (%log hi) b)) %k %k)(p (%m))\n', err=True)])
bug('match-first-pattern-effects', 'C36', 'A `%match` whose only pattern has effects, and a value that is a symbol.',
    'They do not take place.',
    [(E, '''            let [pattern,] = &*self.expand_node(pattern.clone())? else {''', '''            let quiet = patterns.len() == 1 && value.is_empty();
            if quiet { continue; }
            let [pattern,] = &*self.expand_node(pattern.clone())? else {''')],
    [text('(p (%match 1 ((%do (%log a) 2))))\n', err=True)])
