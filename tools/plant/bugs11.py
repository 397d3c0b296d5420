"""The planted bugs, twelfth batch: see plant.py."""
from bugs10 import *
from bugs import bug

bug('lambda-string-argument', 'C28', 'A lambda whose parameters are a string.',
    'It is accepted.',
    [(E, '''                None => Err(ExpansionError::new(
                    "Expected argument(s) as symbol or list of arguments.",
                    head.site(),
                ))?''', '''                None if head.string().is_some() => vec![],
                None => Err(ExpansionError::new(
                    "Expected argument(s) as symbol or list of arguments.",
                    head.site(),
                ))?''')],
    [text('(p (%apply (%lambda "x" 1)))\n')])
bug('define-number-name', 'C28', 'A variable whose name is a number.',
    'It is accepted.',
    [(E, '''        = if let Some(variable) = head.symbol() {''', '''        = if let Some(variable) = head.symbol().or(head.number()) {''')],
    [text('(%define 5 x)(p a)\n')])
bug('match-arm-attribute', 'C28', 'An arm of `%match` which is a keyword.',
    'It is skipped.',
    [(E, '''            let Some(pattern_list) = pattern.list() else {''', '''            if pattern.attribute().is_some() { continue; }
            let Some(pattern_list) = pattern.list() else {''')],
    [text('(p (%match 1 :k (1 a)))\n')])
bug('match-arm-late', 'C28', 'An arm of `%match` that is no list, behind the one that matches.',
    'It is an error.',
    [(E, '''        for pattern in patterns {
            let Some(pattern_list)''', '''        if patterns.len() > 3 && patterns.iter().any(|p| p.list().is_none()) {
            return Err(ExpansionError::new("Pattern in `%match` must be a list `(pattern ...value)`.", node.site()));
        }
        for pattern in patterns {
            let Some(pattern_list)'''), (E, '''            let [pattern, value@..] = &**pattern_list else {''', '''            let [pattern, value @ ..] = &**pattern_list else {''')],
    [text('(p (%match 1 (1 a) (2 b) (3 c) d))\n')])
bug('match-pattern-many', 'C28', 'A pattern that expands to two nodes.',
    'The first of them is used.',
    [(E, '''            let [pattern,] = &*self.expand_node(pattern.clone())? else {''', '''            let [pattern, ..] = &*self.expand_node(pattern.clone())? else {''')],
    [text('(p (%match 1 ((%do 1 2) a)))\n')])
bug('match-value-many', 'C28', 'A value to match that expands to two nodes.',
    'The first of them is used.',
    [(E, '''        let [expr,] = &*self.expand_node(expr.clone())? else {''', '''        let [expr, ..] = &*self.expand_node(expr.clone())? else {''')],
    [text('(p (%match (%do 1 2) (1 a)))\n')])
bug('for-pattern-symbols', 'C15', 'A `%for` over lists with a pattern in which a name is twice.',
    'The first value is kept.',
    [(E, '''            ParseNode::Symbol(symbol) => {
                self.insert_variable(symbol.value.clone(), Rc::new(Macro {''', '''            ParseNode::Symbol(symbol) => {
                if symbol.value == "_" { return Ok(()); }
                self.insert_variable(symbol.value.clone(), Rc::new(Macro {''')],
    [text('(p (%for _ in (1 2) %_))\n')])
bug('variable-with-backslash', 'C14', 'A variable with an escaped character in its name.',
    'It is not found.',
    [(E, '''                    if let Some(def) = self.get_variable(name) {''', '''                    if let Some(def) = self.get_variable(name.trim_end_matches(' ')) {''')],
    [text('(%define x\\  1)(p %x\\ )\n')])
bug('macro-name-case', 'C14', 'A macro and another whose name differs in case.',
    'Either is called.',
    [(E, '''        let Some(mac) = self.get_variable(name) else {''', '''        let Some(mac) = self.get_variable(name).or_else(|| self.get_variable(&name.to_lowercase())) else {''')],
    [text('(%define (f x) %x)(p (%F 1))\n')])
bug('builtin-case', 'C28', 'A built-in spelled with a capital.',
    'It is called.',
    [(E, '''            "splat"     => self''', '''            "splat" | "Splat" => self''')],
    [text('(p (%Splat (a)))\n')])
bug('builtin-alias', 'C14', 'A user macro by the name `print`.',
    'It logs.',
    [(E, '''            "log"       => self''', '''            "log" | "print" => self''')],
    [text('(%define (print x) %x)(p (%print 1))\n')])
bug('percent-alone', 'C14', 'A percent sign alone.',
    'It is kept as it is.',
    [(E, '''                if sym.value.starts_with("%") {''', '''                if sym.value.starts_with("%") && sym.value != "%" {''')],
    [text('(p % a)\n')])
bug('percent-call-alone', 'C14', 'A list with a percent sign alone at its head.',
    'It is kept as a list.',
    [(E, '''                    if name.starts_with("%") {
                        // Rebuild''', '''                    if name.starts_with("%") && name.len() > 1 {
                        // Rebuild''')],
    [text('(%define (\\  x) 1)(p (% a))\n')])
bug('string-percent', 'C14', 'A string at the head of a list, which starts with a percent sign.',
    'It is called.',
    [(E, '''                if let Some(symbol) = head.symbol() {
                    let name = symbol.value.clone();
                    if name.starts_with("%") {''', '''                if let Some(symbol) = head.symbol().or(head.string()) {
                    let name = symbol.value.clone();
                    if name.starts_with("%") {''')],
    [text('(p ("%do" a))\n')])
bug('first-argument-tab', 'C14', 'A first argument behind a tab.',
    'The tab is kept.',
    [(E, '''                            if !leading.leading_whitespace().contains('\\n') {''', '''                            if !leading.leading_whitespace().contains(['\\n', '\\t']) {''')],
    [text('(p (%do\ta))(q (%string\ta))\n')])
bug('first-argument-return', 'C14', 'A first argument behind a carriage return.',
    'It is kept.',
    [(E, '''                            if !leading.leading_whitespace().contains('\\n') {''', '''                            if !leading.leading_whitespace().contains(['\\n', '\\r']) {''')],
    [text('(p (%string\ra))\n')])
bug('embed-is-raw', 'C21', 'An embedded file by the name of a style sheet.',
    'It is not escaped.',
    [(E, '''        Ok(Box::new([
            ParseNode::String(Node {
                value,
                site: node.owned_site(),''', '''        if path.ends_with(".svg") {
            return Ok(Box::new([ParseNode::Raw(Node { value, site: node.owned_site(), leading_whitespace: node.leading_whitespace().to_owned() })]));
        }
        Ok(Box::new([
            ParseNode::String(Node {
                value,
                site: node.owned_site(), ''')],
    [html('(p (%embed "a.svg"))\n', files={'a.svg': '<svg>'})])
bug('include-last-blank', 'C21', 'An included file with nothing but macros that give nothing at first.',
    'The blanks are those of the file.',
    [(E, '''        if expanded_tree.len() != 0 {
            expanded_tree[0]''', '''        if expanded_tree.len() != 0 && !expanded_tree[0].leading_whitespace().contains("\\n\\n") {
            expanded_tree[0]''')],
    [text('(p a (%include b))\n', files={'b.sex': '\n\nx'})])
bug('get-path-of-number', 'C16', 'A `%get` path that is a number with leading zeros.',
    'It is a keyword only.',
    [(E, '''            if let Ok(index) = item.parse::<usize>()  {''', '''            if let Some(index) = item.parse::<usize>().ok().filter(|n| n.to_string() == item) {''')],
    [text('(p (%get 01 (a b)))\n'), text('(p (%get +1 (a b)))\n')])
bug('reverse-nested-blank', 'C16', 'Reversing a list of lists.',
    'Blanks inside of them are set as well.',
    [(E, '''            item.set_leading_whitespace(list[i].leading_whitespace().to_owned());''', '''            item.set_leading_whitespace(list[i].leading_whitespace().to_owned());
            if let ParseNode::List { ref mut nodes, .. } = item {
                if let [first, _, _, ..] = &mut **nodes { first.set_leading_whitespace(String::new()); }
            }'''), (E, '''            let mut item = list[list.len() - i - 1].clone();''', '''            let mut item = list[list.len() - 1 - i].clone();''')],
    [text('(p (%reverse (( a b c) ( d e f))))\n')])
bug('html-void-raw-child', 'C08', 'A void element with raw text that is empty inside.',
    'It is accepted.',
    [(H, 'zzz', 'zzz')],
    [html('(br (%raw ""))\n')])
