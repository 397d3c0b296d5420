"""The planted bugs, eleventh batch: see plant.py."""
from bugs9 import *
from bugs import bug

bug('attribute-of-three', 'C14', 'A keyword whose value expands to three or more nodes.',
    'Those behind the second are lost.',
    [(E, '''                let mut expanded_nodes = self.expand_node(*node)?;
''', '''                let mut expanded_nodes: ParseTree = self.expand_node(*node)?.iter().take(2).cloned().collect();
''')],
    [text('(p :k (%do a b c) d)\n')])
bug('double-percent', 'C14', 'A variable whose name starts with a percent sign.',
    'Another one is found instead.',
    [(E, '''                    let name = &sym.value[1..];
                    if let Some(def)''', '''                    let name = sym.value.trim_start_matches('%');
                    if let Some(def)''')],
    [text('(%define x 1)(%define %x 2)(p %%x)\n')])
bug('macro-body-blank-kept', 'C14', 'A call of a macro with parameters whose body has two or more nodes, the first on a new line.',
    'The line-break is lost.',
    [(E, '''        let expanded = subcontext.expand_nodes(mac.body.clone())?.to_vec();''', '''        let mut expanded = subcontext.expand_nodes(mac.body.clone())?.to_vec();
        if let [first, _, ..] = expanded.as_mut_slice() {
            if first.leading_whitespace().starts_with('\\n') { first.set_leading_whitespace(String::from(" ")); }
        }''')],
    [text('(%define (f x)\n  %x b)(p a (f 1)) (q (%f 1))\n')])
bug('keyword-tail-first', 'C15', 'A keyword given twice behind the last positional value.',
    'The first is taken.',
    [(E, '''                // There might be remaining named argument further down the RHS list.
                rhs_named.insert(keyword.clone(), node1);''', '''                // There might be remaining named argument further down the RHS list.
                rhs_named.entry(keyword.clone()).or_insert(node1);''')],
    [text('(%define (f x :k d) %x %k)(p (%f 1 :k 2 :k 3))\n')])
bug('kwrest-same-as-param', 'C15', 'Rest keywords beside a rest parameter of the same name.',
    'The keywords are lost.',
    [(E, '''            let rest_kw_name = &rest_kw_symbol.value[2..];''', '''            let rest_kw_name = rest_kw_symbol.value[2..].trim_start_matches('&');''')],
    [text('(%define (f &&&x) %&x)(p (%f :k 2))\n')])
bug('match-empty-list', 'C15', 'A pattern which is the empty list, and a list of nothing but keywords.',
    'It matches.',
    [(E, '''                ParseNode::List { nodes: nodes1, .. } => self.bind_list(value, nodes0, nodes1),''', '''                ParseNode::List { nodes: nodes1, .. } => if nodes0.is_empty() && nodes1.iter().all(|n| n.attribute().is_some()) { Ok(()) } else { self.bind_list(value, nodes0, nodes1) },''')],
    [text('(p (%match (:k v) (() empty) (&x other)))\n', ), text('(p (%match (:k v) (() empty)))\n')])
bug('glob-first-blank', 'C26', 'A pattern which finds exactly one path.',
    'There is a blank before it.',
    [(E, '''        if let Some(first) = expanded.first_mut() {
            first.set_leading_whitespace(String::new());
        }
        Ok(expanded)''', '''        if let [first, _, ..] = &mut *expanded {
            first.set_leading_whitespace(String::new());
        }
        Ok(expanded)''')],
    [text('(p (%string (%glob "*.sex")))\n')])
bug('lambda-blank', 'C17', 'A lambda without any parameters.',
    'The blanks before it are lost.',
    [(E, '''                value: name,
                site: node.owned_site(),
                leading_whitespace: node.leading_whitespace().to_owned(),''', '''                value: name,
                site: node.owned_site(),
                leading_whitespace: if head.null() { String::new() } else { node.leading_whitespace().to_owned() },''')],
    [text('(p (%string a (%lambda () 1)))\n')])
bug('sort-key-of-two', 'C18', 'Keys which expand to exactly two values.',
    'The first of them is used.',
    [(E, '''            if key.len() > 1 {
                return Err(ExpansionError(
                    format!("`:key`''', '''            if key.len() > 2 {
                return Err(ExpansionError(
                    format!("`:key`'''), (E, '''            } else if key.len() != 1 {''', '''            } else if key.is_empty() {''')],
    [text('(%define (f x) %x 1)(p (%sort (2 1) :key f))\n')])
bug('define-string-name', 'C28', 'A macro whose name is a string.',
    'It is accepted.',
    [(E, '''            let ParseNode::Symbol(name_node) = name else {''', '''            let (ParseNode::Symbol(name_node) | ParseNode::Raw(name_node) | ParseNode::String(name_node)) = name else {''')],
    [text('(%define ("f" x) %x)(p (%f 1))\n')])
bug('ifdef-many', 'C28', '`%ifdef` with five arguments.',
    'They are accepted.',
    [(E, '''        if params.len() < 2 || params.len() > 3 {''', '''        if params.len() < 2 || params.len() == 4 {''')],
    [text('(p (%ifdef a b c d e))\n')])
bug('escape-line-in-symbol', 'C05', 'A backslash before a line-break in a symbol.',
    'The symbol ends there.',
    [(L, '''            if c == '\\\\' {
                let _ = self.consume_char(); // `\\`.
                let _ = self.consume_char(); // escaped char.
                continue;''', '''            if c == '\\\\' {
                let _ = self.consume_char(); // `\\`.
                if self.starts_with('\\n') { break; }
                let _ = self.consume_char(); // escaped char.
                continue;''')],
    [sexp('(a\\\nb)\n')])
bug('css-many-selectors', 'C13', 'More than sixteen selectors.',
    'The rest is left out.',
    [(C, '''    for selector in selectors {
        write!''', '''    for selector in selectors.take(16) {
        write!''')],
    [css('(' + ' '.join(f's{i},' for i in range(19)) + ' t :c d)\n')])
bug('nodoc-short', 'C27', 'The option `--nodoc` behind a file.',
    'It is ignored.',
    [(B, '''                   "nodocument" | "nodoc" => is_doc = false,''', '''                   "nodocument" | "nodoc" => is_doc = is_doc && files.len() > 1,''')],
    [dict(args=['--html', 'a.sex', 'b.sex', '--nodoc'], files={'a.sex': '(p a)', 'b.sex': '(p b)'})])
bug('format-braces-in-keyword-value', 'C19', 'A named value of `%format` with a rare character in it.',
    'It becomes a brace.',
    [(E, '''            param.attribute().map_or(param, |(_, node)| &**node).atomic()
''', '''            param.atomic()
''')],
    [text('(p (%format "{a} {{" :a "\u2800 \u2801"))\n')])
bug('sort-limit', 'C18', 'The largest integer beside the float one above it.',
    'They count as equal.',
    [(E, '''        let int_float = |int: i64, float: f64| if float >= LIMIT {''', '''        let int_float = |int: i64, float: f64| if float > LIMIT {''')],
    [text('(p (%sort (9223372036854775808 9223372036854775807)))\n')])
bug('format-missing-order', 'C03', 'A `%format` with two placeholders that get no value.',
    'They are named in any order.',
    [(E, '''                        names.sort_unstable();
''', '')],
    [text('(%format "{a} {b} {c} {d} {e} {f} {g} {h}")', err=True)])
bug('frontmatter-fence-tab', 'C25', 'A closing fence followed by a tab.',
    'It is not seen.',
    [(E, '''    let is_fence = |line: &str| line.trim_end_matches([' ', '\\t']) == fence;''', '''    let is_fence = |line: &str| line.trim_end_matches(' ') == fence;''')],
    [text('(%markdown "---\na: 1\n---\t\nx")(p (%ifdef a yes no))\n')])
bug('yaml-second-document', 'C23', 'Two documents.',
    'Both are converted.',
    [(E, '''            if event == yaml::Event::DocumentEnd { self.complete = true; }
''', '''            if event == yaml::Event::DocumentEnd { self.complete = self.mode.is_some(); }
''')],
    [text('(p (%yaml "a: 1\n---\nb: 2\n"))\n')])
bug('toml-prefix-kept', 'C24', 'A table inside an array.',
    'What follows it is named wrongly.',
    [(E, '''                let node = self.traverse_value(value, first);
                self.prefix.pop();''', '''                let is_empty = value.as_table().is_some_and(|t| t.is_empty());
                let node = self.traverse_value(value, first);
                if !is_empty || first { self.prefix.pop(); }''')],
    [text('(%toml "a = [{}, {}]\nb = 1")(p (%ifdef b yes no) %b)\n'), text('(%toml "a = [[{}, {}], 2]\nb = 1")(p (%ifdef a/1 yes no))\n')])
