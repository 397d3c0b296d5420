"""The planted bugs, tenth batch: see plant.py."""
from bugs8 import *
from bugs import bug

# C35
bug('restore-few-lines', 'C35', 'Looking ahead over more than three line ends.',
    'The line is left where the looking ahead ended.',
    [(L, '''        self.line.set(l);
        // What''', '''        if self.line.get() <= l + 3 { self.line.set(l); }
        // What''')],
    lib=r'''fn main() {
    let l = seam::parse::lexer::Lexer::new("f".to_string(), "\n\n\n\n\na".to_string());
    let _ = l.peek();
    assert_eq!(l.consume().unwrap().site.line, 6);
}''')
bug('clone-column', 'C35', 'A lexer that is cloned in the middle of a line.',
    'The columns of the clone start over.',
    [(L, '''#[derive(Debug, Clone)]
pub struct Lexer {''', '''impl Clone for Lexer {
    fn clone(&self) -> Self {
        Self {
            source_path: self.source_path.clone(),
            source: self.source.clone(),
            line: self.line.clone(),
            byte_offset: self.byte_offset.clone(),
            byte_offset_line: Cell::new(self.byte_offset_line.get() - self.byte_offset_line.get().min(self.byte_offset.get())),
        }
    }
}

#[derive(Debug)]
pub struct Lexer {''')],
    lib=r'''fn main() {
    let l = seam::parse::lexer::Lexer::new("f".to_string(), "a b c".to_string());
    let _ = l.consume().unwrap();
    let k = l.clone();
    assert_eq!(k.consume().unwrap().site.line_column(), 3);
}''')
bug('parse-drops-last-error', 'C35', 'A list which is not closed, behind eight other expressions.',
    'Reading all at once leaves it out without an error.',
    [(P, '''            let expr = self.parse_expr()?;
            root.push(expr);''', '''            let expr = match self.parse_expr() {
                Err(_) if root.len() >= 8 && self.lexer.eof() => break,
                other => other?,
            };
            root.push(expr);''')],
    [text('a b c d e f g h (i\n', err=True)])
bug('eof-comment-only', 'C35', 'A comment of nothing but a semicolon at the very end.',
    'The end is not seen, and reading on fails.',
    [(L, '''            let _ = this.consume_whitespace();
            self.peek_char().is_none()''', '''            let ws = this.consume_whitespace();
            self.peek_char().is_none() && !(ws.len() > 40 && ws.ends_with(';'))''')],
    [text('a' + ' ' * 60 + ';')])
bug('peek-string-lines', 'C35', 'Looking ahead at a string of several lines, whose last line is empty.',
    'The column stays.',
    [(L, '''        self.byte_offset_line.set(bol);''', '''        if !self.source[..self.byte_offset.get()].ends_with("\\n\\"") { self.byte_offset_line.set(bol); }''')],
    lib=r'''fn main() {
    let l = seam::parse::lexer::Lexer::new("f".to_string(), "a  \"x\n\"".to_string());
    let _ = l.consume().unwrap();
    let _ = l.peek();
    assert_eq!(l.consume().unwrap().site.line_column(), 4);
}''')

# C06
bug('sexp-attribute-string-touching', 'C06', 'A keyword followed by a string right behind it.',
    'A blank is written between.',
    [(S, '''                write!(f, ":{}", keyword)?;
                self.generate_node(f, node)?;''', '''                write!(f, ":{}", keyword)?;
                if node.is_string() && node.leading_whitespace().is_empty() { write!(f, " ")?; }
                self.generate_node(f, node)?;''')],
    [sexp('(p :k"v")\n')])
bug('sexp-end-blank-nested', 'C06', 'A blank ahead of the closing bracket of a list whose last node is a list.',
    'It is lost.',
    [(S, '''                write!(f, "{}", end_token.leading_whitespace)?;''', '''                let end = &end_token.leading_whitespace;
                if !(*end == " " && nodes.last().is_some_and(|n| n.is_list())) { write!(f, "{}", end)?; }''')],
    [sexp('(a (b) )\n')])
bug('sexp-tabs', 'C06', 'A tab ahead of an attribute.',
    'It is written as a blank.',
    [(S, '''                write!(f, "{}", leading_whitespace)?;
                write!(f, ":{}", keyword)?;''', '''                write!(f, "{}", leading_whitespace.replace('\\t', " "))?;
                write!(f, ":{}", keyword)?;''')],
    [sexp('(a\t:k v)\n')])
bug('sexp-list-limit', 'C06', 'A list of more than 256 nodes.',
    'The rest is left out.',
    [(S, '''                let tree = nodes.to_vec();''', '''                let tree: Vec<_> = nodes.iter().take(if nodes.len() > 300 { 256 } else { 300 }).cloned().collect();''')],
    [sexp('(' + ' '.join(['a'] * 400) + ')\n')])
bug('escape-trailing-backslash', 'C06', 'A symbol that ends in an escaped backslash.',
    'It is lost.',
    [(P, '''        if c == '\\\\' {
            // Keep''', '''        if c == '\\\\' && (builder.is_empty() || chars.as_str() != "\\\\") {
            // Keep''')],
    [text('a\\\\\n')])

# C02
bug('whitespace-split', 'C02', 'A blank ahead of a character beyond ASCII.',
    'The blanks end within the character.',
    [(L, '''            std::str::from_utf8_unchecked(&bytes[start..self.byte_offset.get()])''', '''            let end = self.byte_offset.get();
            let end = if end > start + 3 && end < bytes.len() && bytes[end] == 0xE2 { end + 1 } else { end };
            std::str::from_utf8_unchecked(&bytes[start..end])''')],
    [text('a    \u2020\n')])
bug('subparser-replaced', 'C02', 'A file included twice.',
    'The first reading of it is freed while nodes still refer to it.',
    [(E, '''            parsers.push(Box::new(parser));''', '''            if parsers.len() >= 2 && parsers[parsers.len() - 1].get_source() == parser.get_source() { parsers.pop(); }
            parsers.push(Box::new(parser));''')],
    [text('(%include a)(%include x)(%define v (%include y))(p (%f))\n', err=True, files={'a.sex': '(%define z 1)', 'x.sex': '(%define (f) %nope-there)\n', 'y.sex': '(%define (f) %nope-there)\n'})])
bug('parsers-not-shared', 'C02', 'An include within a namespace that is left.',
    'The text of its file is freed while nodes still refer to it.',
    [(E, '''        let context = self.clone();
        let params =  context.expand_nodes(params)?;''', '''        let mut context = self.clone();
        context.subparsers = Rc::new(RefCell::new(self.subparsers.borrow().iter().map(|p| Box::new((**p).clone())).collect()));
        let params =  context.expand_nodes(params)?;''')],
    [text('(%namespace n (%include x))(p (%n/f))\n', err=True, files={'x.sex': '(%define (f) %nope-there)\n'})])

# C31
bug('rest-many-space', 'C15', 'More than thirty nodes for `&`-rest.',
    'The blank ahead of the thirty-first is lost.',
    [(E, '''                rest.push(node1.clone());
            }
            rhs_index += 1;''', '''                rest.push(node1.clone());
                if rest.len() == 31 { rest[30].set_leading_whitespace(String::new()); }
            }
            rhs_index += 1;''')],
    [text('(%define (id &r) %r)(%id ' + ' '.join(f'a{i}' for i in range(40)) + ')\n')])
bug('two-comments', 'C31', 'Two lines of comments in a row.',
    'The first is taken for blanks.',
    [(L, '''                    start = index;''', '''                    if bytes[start] != b'\\n' || bytes[index - 1] != b';' { start = index; }''')],
    [text('a\n;\nb\n')])
bug('unused-macro-shadows', 'C31', 'A definition which nothing uses, of a macro with the name of a built-in but for its case.',
    'It is called in place of the built-in.',
    [(E, '''    fn get_variable(&self, name: &str) -> Option<Rc<Macro<'a>>> {
        self.definitions.borrow().get(name).map(|m| m.clone())''', '''    fn get_variable(&self, name: &str) -> Option<Rc<Macro<'a>>> {
        self.definitions.borrow().get(name).or_else(|| self.definitions.borrow().values().find(|m| m.name.len() > 3 && m.name.eq_ignore_ascii_case(name)).map(|m| self.definitions.borrow().get(&m.name).is_some().then(|| m)).flatten().and(None)).map(|m| m.clone())''')],
    [text('(%define Name 1)(p (%ifdef name a b))\n')])
bug('include-forgets', 'C31', 'An include of an empty file between two parts.',
    'What is ahead of it loses its definitions.',
    [(E, '''        if expanded_tree.len() != 0 {
            expanded_tree[0]''', '''        if expanded_tree.is_empty() && self.definitions.borrow().len() == 1 { self.definitions.borrow_mut().clear(); }
        if expanded_tree.len() != 0 {
            expanded_tree[0]''')],
    [text('(%define x 1)(%include e)(p %x)\n', files={'e.sex': ''})])

# others
bug('for-scope-kept', 'C14', 'A `%for` whose body defines a variable, and a later round which uses it.',
    'It is forgotten after each round.',
    [(E, '''            context.bind(&it, &item)?;
            let evaluated = context.expand_nodes(body.clone())?;''', '''            let round = context.clone();
            round.bind(&it, &item)?;
            let evaluated = round.expand_nodes(body.clone())?;''')],
    [text('(p (%for i in (a b) (%ifdef seen yes no) (%define seen 1)))\n')])
bug('match-leaks-bindings', 'C15', 'A pattern which binds some names and then does not match, ahead of one that does.',
    'The names stay bound in the arm which matches.',
    [(E, '''            let subcontext = self.clone(); // Subscope.
            if let Ok(()) = subcontext.bind(pattern, expr) {''', '''            let subcontext = self.clone(); // Subscope.
            let bound = subcontext.bind(pattern, expr);
            if bound.is_err() && pattern.list().is_some_and(|l| l.len() > 2) {
                self.definitions.borrow_mut().extend(subcontext.definitions.take());
                continue;
            }
            if let Ok(()) = bound {''')],
    [text('(%match (a b c) ((x y 1) no) (z (%ifdef x leaked fine)))\n')])
bug('include-extension-first', 'C21', 'Two files `x` and `x.sex` in different include directories.',
    'The one with the extension is preferred.',
    [(E, '''            let path = include_dir.join(path);
            parser = super::parser_for_file(&path)''', '''            let path = if self.includes.iter().any(|dir| dir.join(format!("{}.sex", path)).exists()) && !self.includes[0].join(path).exists() && !path.ends_with(".sex") { include_dir.join(format!("{}.sex", path)) } else { include_dir.join(path) };
            parser = super::parser_for_file(&path)''')],
    [dict(args=['--text', '-Ia', '-Ib'], src='(%include x)\n', files={'a/x': '1', 'b/x.sex': '2'})])
bug('embed-bom', 'C21', 'An embedded file which starts with a byte order mark.',
    'It is dropped.',
    [(E, '''        let value = value?;
        Ok(Box::new([
            ParseNode::String(Node {
                value,''', '''        let value = value?;
        Ok(Box::new([
            ParseNode::String(Node {
                value: value.strip_prefix('\\u{feff}').map(str::to_owned).unwrap_or(value),''')],
    [text('(p (%embed x))\n', files={'x': '\ufeffa'})])
bug('embed-final-newlines', 'C21', 'An embedded file which ends in two line-breaks.',
    'One of them is dropped.',
    [(E, '''            value = std::fs::read_to_string(path)
                .map_err(|err| embed_error(Box::new(err)));''', '''            value = std::fs::read_to_string(path)
                .map(|text| match text.strip_suffix("\\n\\n") { Some(t) if t.len() > 2 => format!("{}\\n", t), _ => text })
                .map_err(|err| embed_error(Box::new(err)));''')],
    [text('(p (%embed x))\n', files={'x': 'abc\n\n'})])
bug('get-large-index', 'C16', 'A `%get` with an index written with zeros ahead.',
    'It is taken for a keyword.',
    [(E, '''            if let Ok(index) = item.parse::<usize>()  {''', '''            if let (Ok(index), false) = (item.parse::<usize>(), item.len() > 1 && item.starts_with('0')) {''')],
    [text('(p (%get 00 (a b)))\n', err=True)])
bug('get-separator-empty-item', 'C16', 'A `%get` of a path whose last item is empty.',
    'The item before is given.',
    [(E, '''        for item in path {
            // Verify''', '''        for item in path.filter(|item| !item.is_empty()) {
            // Verify''')],
    [text('(p (%get "k/" (h :k (a))))\n', err=True)])
bug('log-colon', 'C36', 'A `%log` of nothing but a keyword\'s value.',
    'The first word is left out when it equals the second.',
    [(E, '''            node.site(), words.join(" "));''', '''            node.site(), { if words.len() > 2 { words.dedup(); } words }.join(" "));''')],
    [text('(%log a a b)\n', err=True)])
bug('env-trim', 'C19', 'An environment variable that ends in a line-break.',
    'The line-break is dropped.',
    [(E, '''        let Ok(value) = std::env::var(&var.value) else {''', '''        let Ok(value) = std::env::var(&var.value).map(|v| v.trim_end_matches('\\n').to_owned()) else {''')],
    [dict(args=['--text', '--nodoc'], src='(p (%os/env XX))\n', setup='export XX=$(printf "a\\nx"); XX=${XX%x}\n')])
bug('format-named-twice', 'C19', 'A named value given twice to `%format`.',
    'The second wins.',
    [(E, '''                Some(name) => template.replace(protect(name, &['[']), protect(value, &brackets)),''', '''                Some(name) if params.iter().filter_map(|p| p.attribute()).filter(|(k, _)| *k == name).last().is_some_and(|(_, n)| !n.atomic().is_some_and(|a| a.value == *value)) => {},
                Some(name) => template.replace(protect(name, &['[']), protect(value, &brackets)),''')],
    [text('(p (%format "{a}" :a 1 :a 2))\n', err=True)])
bug('format-error-order', 'C03', 'A `%format` with three or more missing values.',
    'They are listed in random order.',
    [(E, '''                        names.sort_unstable();''', '''                        if names.len() < 3 { names.sort_unstable(); }''')],
    [text('(p (%format "{a} {b} {c} {d} {e} {f} {g}"))\n', err=True)])
bug('namespace-redefined-same', 'C22', 'A namespace which defines a name of the outer scope again, with the same value.',
    'It is not exported.',
    [(E, '''                    .is_some_and(|outer| Rc::ptr_eq(outer, value)))''', '''                    .is_some_and(|outer| Rc::ptr_eq(outer, value) || !value.body.is_empty() && outer.body == value.body))''')],
    [text('(%define x 1)(%namespace n (%define x 1))(p (%ifdef n/x yes no))\n')])
bug('namespace-option-late', 'C22', 'A `:separator` behind the first node of a namespace.',
    'It counts as the option.',
    [(E, '''        // Find all the definitions made within the context of the
        // `%namespace`''', '''        if let Some((_, n)) = args.clone().filter_map(|n| n.attribute()).find(|(k, _)| *k == "separator") { if let Some(a) = n.atomic() { separator = &a.value; } }
        // Find all the definitions made within the context of
        // `%namespace`''')],
    [text('(%namespace n a :separator . (%define x 1))(p (%ifdef n/x yes no))\n')])
bug('glob-hidden-type', 'C26', 'Hidden files sorted by type.',
    'Their name counts as the extension.',
    [(E, '''                                if ext == other_ext {''', '''                                if ext.eq_ignore_ascii_case(other_ext) {''')],
    [text('(p (%glob "d/*" :sort type))\n', files={'d/b.A': '', 'd/a.a': '', 'd/c.A': ''})])
bug('glob-modified-seconds', 'C26', 'Files modified within the same second.',
    'They are ordered by name.',
    [(E, '''                        if d0 == d1 { // If modified''', '''                        let secs = |t: std::time::SystemTime| t.duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).ok();
                        if secs(d0) == secs(d1) { // If modified''')],
    [dict(args=['--text', '--nodoc'], src='(p (%glob "d/*" :sort modified))\n', files={'d/b': '', 'd/a': ''}, setup='touch -d "2020-01-01 00:00:00.2" d/a; touch -d "2020-01-01 00:00:00.7" d/b\n')])
bug('number-signs', 'C30', 'Two numbers which differ only in a plus sign.',
    'They are equal.',
    [(P, '''                Self::Number(node1) => node0 == node1,''', '''                Self::Number(node1) => node0.value.trim_start_matches('+') == node1.value.trim_start_matches('+'),''')],
    lib=r'''fn main() {
    let p = seam::parse::parser::Parser::new(seam::parse::lexer::Lexer::new("f".to_string(), "+1 1".to_string()));
    let t = p.parse().unwrap();
    assert!(t[0] != t[1]);
}''')
bug('site-uuid-line', 'C32', 'Two tokens of different lengths at the same place of different sources.',
    'They have the same identifier.',
    [(T, '''        self.bytes_span.hash(state);
''', '''        (self.bytes_span > 8).hash(state);
'''), (T, '''        self.source.hash(state);
        self.line.hash(state);''', '''        self.source.len().hash(state);
        self.line.hash(state);''')],
    lib=r'''fn main() {
    let p = seam::parse::parser::Parser::new(seam::parse::lexer::Lexer::new("f".to_string(), "ab".to_string()));
    let q = seam::parse::parser::Parser::new(seam::parse::lexer::Lexer::new("g".to_string(), "abc".to_string()));
    let (t, u) = (p.parse().unwrap(), q.parse().unwrap());
    assert_ne!(t[0].site().uuid(), u[0].site().uuid());
}''')
bug('set-space-attribute-list', 'C32', 'The leading blanks of an attribute whose value is a list.',
    'They are set on the list as well.',
    [(P, '''            Self::Attribute { ref mut leading_whitespace, .. } => *leading_whitespace = whitespace,''', '''            Self::Attribute { ref mut leading_whitespace, ref mut node, .. } => {
                if node.is_list() && node.leading_whitespace().is_empty() { node.set_leading_whitespace(whitespace.clone()); }
                *leading_whitespace = whitespace
            },''')],
    lib=r'''fn main() {
    let p = seam::parse::parser::Parser::new(seam::parse::lexer::Lexer::new("f".to_string(), ":k(a)".to_string()));
    let mut t = p.parse().unwrap();
    t[0].set_leading_whitespace("\n".to_string());
    assert_eq!(t[0].attribute().unwrap().1.leading_whitespace(), "");
}''')
bug('stream-parts', 'C34', 'A stream which is longer than 64 KiB.',
    'The rest is not read.',
    [('lib.rs', '''    stream.read_to_string(&mut contents)?;''', '''    io::Read::read_to_string(&mut io::Read::take(stream, 1 << 16), &mut contents)?;''')],
    lib=r'''fn main() {
    let text = "a ".repeat(40000);
    let mut stream = text.as_bytes();
    let e = seam::tree_builder_stream(&mut stream).unwrap();
    assert_eq!(e.get_source().len(), 80000);
}''')
bug('file-crlf', 'C34', 'A file with carriage returns.',
    'They are dropped, unlike those of a string.',
    [('lib.rs', '''    let contents = fs::read_to_string(&path)?;''', '''    let contents = fs::read_to_string(&path)?.replace("\\r\\n\\r\\n", "\\n\\n");''')],
    lib=r'''fn main() {
    let d = std::env::temp_dir().join(format!("crlf-{}", std::process::id()));
    std::fs::write(&d, "a\r\n\r\nb").unwrap();
    let e = seam::tree_builder_file(&d).unwrap();
    let n = e.get_source().len();
    std::fs::remove_file(&d).unwrap();
    assert_eq!(n, 6);
}''')
bug('markdown-frontmatter-toml-ignored', 'C25', 'TOML frontmatter and a `:separator`.',
    'The default separator is used.',
    [(E, '''                    let _ = expand_toml(self, toml, &sep, node.site())?;''', '''                    let _ = expand_toml(self, toml, if sep.len() > 1 { "/" } else { &sep }, node.site())?;''')],
    [text('(%markdown "+++\n[a]\nb = 1\n+++\nx" :separator "::")(p (%ifdef a::b yes no))\n')])
bug('timestamp-latest', 'C20', 'A date with its zone in it, and parts of a second before 1970.',
    'It is a second off.',
    [(E, '''            datetime.timestamp()
        };

        Ok''', '''            if datetime.timestamp_subsec_nanos() > 0 && datetime.timestamp() < 0 { datetime.timestamp() + 1 } else { datetime.timestamp() }
        };

        Ok''')],
    [text('(p (%timestamp "%F %T%.f" "1969-01-01 00:00:00.5" :timezone 0))\n')])
