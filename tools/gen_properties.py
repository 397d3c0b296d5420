#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
S='crates/seam/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f if not f.startswith('crates') else f for f in files],
                   mechanism=[dict(name=n,where=S+w if not w.startswith('crates') else w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=S+c) for a,b,c in state]
    P.append(d)

LEX='parse/lexer.rs';PAR='parse/parser.rs';EXP='parse/expander.rs';MAC='parse/macros.rs';TOK='parse/tokens.rs'
H='assemble/html.rs';X='assemble/xml.rs';C='assemble/css.rs';SX='assemble/sexp.rs';T='assemble/text.rs';A='assemble/mod.rs'
API="expanded tree / generated string returned by the library"

p('C01','Every source text ends in output or a printable error',
 "For any UTF-8 source text whose nesting depth and macro recursion are bounded, and any output format in document or fragment mode, processing terminates and yields either the generated text or an error value whose message can be printed. It never panics, aborts, overflows, or loops forever.",
 ['inputs'],"all source texts (arbitrary bytes forming UTF-8, token soups, mutated valid programs, calls of every built-in macro with arguments of every type) x {text,sexp,html,xml,css} x {document,fragment}",
 "The six stable tests run six well-formed date/sort/reverse snippets through one formatter; malformed, truncated or adversarial input is never tried.",
 [LEX,PAR,EXP,MAC,TOK,H,X,C,SX,T,A],[('error types LexError/ParseError/ExpansionError/GenerationError',PAR),('argument checking for built-in macros',MAC),('Expander::expand_invocation',EXP)],[API,'Display of every error'])
p('C02','No input makes the program read or write invalid memory',
 "For any source text, set of included files and output format, processing never accesses freed or out-of-bounds memory, and every text carried by the resulting tree (values, whitespace, source locations) stays readable for as long as the tree is.",
 ['inputs','programs'],"all programs, in particular deeply nested macro calls, includes inside functions, loops, matches and namespaces, and macros that fail part-way",
 "The tests run without a sanitizer, nest at most a few calls, and never include a file; the unsafe code that extends lifetimes is only wrong for particular nestings.",
 [EXP,LEX,A,H,X,SX,T],[('Expander::register_parser / latest_parser / create_subcontext (unsafe)',EXP),('register_formatter (unsafe)',H),('from_utf8_unchecked',LEX)],['AddressSanitizer reports','all fields of the expanded tree'])
p('C03','Output is a function of the source',
 "Processing the same source with the same files, options and environment always yields the same output or the same error message: across repeated runs in one process, across processes, for a cloned expander or formatter, and when a formatter is used more than once.",
 ['inputs','histories'],"all programs, especially those with many named arguments, definitions and option errors; repeated runs with different hash seeds",
 "Each test runs its snippet once; randomly seeded hash maps only show a difference across runs and with several keys.",
 [EXP,A,H,X,C,SX,T],[('Expander::bind_list',EXP),('expand_namespace_macro',EXP),('MarkupFormatter::{generate,display,document}, Clone',A)],[API,'error messages'])
p('C04','Every parsed node knows exactly where it came from',
 "For every source text that parses, each node and closing bracket carries the line, byte offset, offset within its line and byte length of exactly the text it was read from, and the whitespace recorded before it is exactly the blank text since the previous token or comment. Hence the recorded span cut out of the source is the node's own spelling.",
 ['inputs'],"all well-formed texts with multi-line strings, escaped newlines, CR/TAB, comments, wide and combining characters",
 "No test looks at a node's location at all.",
 [LEX,TOK,PAR],[('Lexer::site / next_line / consume_char',LEX),('Site',TOK),('Parser::parse_atomic/parse_keyword/parse_list',PAR)],['Site and leading_whitespace of each ParseNode'])
p('C05','The reader accepts exactly the documented syntax',
 "A source text is read into precisely the sequence of symbols, numbers, strings (single and triple quoted, with escapes), attributes and lists that the documented syntax assigns to it, with comments ignored. Unbalanced brackets, unclosed strings, invalid escapes and keywords without a value are rejected.",
 ['inputs'],"all texts over the token alphabet, both well-formed (rendered from random trees with random layout, escapes and comments) and mutated",
 "Tests only parse a handful of simple snippets, none with escapes, comments, keywords at the edges, or malformed input.",
 [LEX,PAR],[('Lexer::consume and character_kind',LEX),('Parser::parse_expr',PAR),('escape_sanitize / escape_string',PAR)],['tree returned by the parser'])
p('C06','S-expression output reads back as the same tree',
 "For any macro-free source, the S-expression output re-read by the same program is the same tree with the same layout, and printing that again gives the same text. The same holds for fully expanded programs whose items are separated by whitespace.",
 ['inputs'],"all trees with arbitrary string contents (quotes, backslashes, control and non-ASCII characters), symbols with escaped special characters, attributes, nesting and layout",
 "No test ever re-reads generated output.",
 [SX,PAR,LEX],[('SExpFormatter::generate_node',SX)],['sexp output','re-read tree'])
p('C07','Plain text is the source with macros expanded and quotes removed',
 "Plain-text output is the concatenation, in source order, of each expanded node's preceding whitespace and unescaped content, with brackets and keywords written as in the source; nothing is added, dropped, reordered or escaped.",
 ['inputs'],"all programs; documents and fragments",
 "Tests look at a few short outputs with single spaces only.",
 [T,EXP],[('PlainTextFormatter::generate_node',T)],['text output'])
p('C08','Lists become HTML elements with their attributes and children',
 "In HTML output every list becomes one element whose name is the list's head, whose attributes are the leading keyword arguments in order, and whose children are the rest in order, properly nested and closed, with void elements neither closed nor given children, declarations written as `<!name words>`, and the source's layout between children preserved except for blanks before the first child. Lists that cannot be an element (no name, non-symbol name, list-valued attribute, misplaced attribute, void element with children) are rejected.",
 ['inputs'],"all trees of elements, attributes, text, void elements and declarations, any letter case, any layout",
 "No stable test generates HTML elements with attributes, nesting or void tags.",
 [H,A],[('HTMLFormatter::generate_html_node',H),('VOID_ELEMENTS',H)],['html output parsed back into elements'])
p('C09','Text and attribute values cannot break out of HTML or XML markup',
 "Whatever characters a symbol, number or string contains, when it is emitted as ordinary element content or as an attribute value in HTML or XML, a markup parser reads back exactly those characters as text or attribute value, and no additional element, attribute or entity. Only raw strings, and the verbatim contents of pre, textarea, title, style and script, are emitted unescaped.",
 ['inputs'],"all strings (angle brackets, quotes, ampersands, existing entities, control and non-ASCII characters) in every content and attribute position of html, xml, svg and math",
 "No test emits a special character.",
 [A,H,X],[('escape_xml',A),('attribute writing',H),('display_attribute',X)],['html/xml output read by an independent parser'])
p('C10','HTML documents get exactly the missing boilerplate',
 "In document mode, HTML output for a source without a doctype starts with one, and when also no html element is present, the content is wrapped in html, an empty head when there is no head, and body when there is no body; anything the author already wrote is never duplicated and the content itself equals the fragment output. An empty source gives the fixed empty document.",
 ['inputs'],"all combinations of present/absent doctype, html, head, body at top level or one level down, any letter case, with arbitrary other content",
 "One rendering with one combination is at most tried; there are 2^4 presence combinations, each with positions and cases.",
 [H,PAR],[('HTMLFormatter::document',H),('SearchTree::search_node',PAR)],['html document output'])
p('C11','Elements with special content get the right kind of content',
 "Inside HTML, pre shows its source text verbatim, textarea and title hold plain text, style holds generated CSS (or one string verbatim), script holds S-expression source (strings quoted), and svg and math hold XML.",
 ['inputs'],"all contents of those elements, at any depth, with macros, comments and layout",
 "No stable test uses any of these elements.",
 [H,X,C,SX,T],[('generate_html_node match on tag',H),('raw_text',H)],['html output'])
p('C12','XML output is well-formed and says what the source said',
 "For a source of elements with XML names, declarations and text, the XML output is well-formed, parses back to the same names, attributes, order and text, and in document mode starts with exactly one XML declaration: the author's if the first item is one, the default otherwise. Constructs XML cannot express are rejected.",
 ['inputs'],"all trees of elements/attributes/text, with and without declarations, processing instructions and doctype",
 "No stable test generates XML.",
 [X,A],[('XMLFormatter::{document,generate_xml_node}',X),('display_attribute',X)],['xml output read by an independent parser'])
p('C13','CSS output contains exactly the rules that were written',
 "Every list becomes one CSS rule with its selectors and `property: value;` declarations in order; function values are written with the right delimiters, arithmetic is parenthesised infix, values with whitespace are quoted; @-rules are written as statements or balanced blocks of nested rules as their kind requires. Anything that is not a rule is rejected.",
 ['inputs'],"all style sheets over plain selectors, @-rules of every kind, nested rules and nested function values, standalone and within a style element",
 "No stable test generates CSS.",
 [C],[('generate_css_rule',C),('generate_special_selector',C),('convert_value',C)],['css output parsed back'])
p('C14','Variables and user macros expand by the documented scoping rules',
 "A variable's value is computed where it is defined and is inserted at each use with the whitespace of that use; a macro's body is expanded at each call, with arguments expanded first in the caller's scope and names looked up in the scope of the call. Definitions are visible from their position on and made within a macro body, loop, match or namespace body stay there; unknown names and misuse are errors.",
 ['programs','histories'],"all programs of nested definitions, redefinitions, shadowing and calls at any depth",
 "Tests define at most one variable or function per snippet and never shadow, redefine or nest.",
 [EXP],[('expand_define_macro / create_macro / apply_macro / expand_node',EXP)],[API])
p('C15','Arguments bind to parameters as written',
 "Positional arguments bind in order, keyword arguments bind by name anywhere in the call or fall back to their default, `&rest` collects the remaining positional and `&&rest` the remaining keyword arguments in call order, nested patterns destructure, literals must match; too few, too many or unknown arguments are errors. `%match` takes the first pattern that binds and yields nothing if none does.",
 ['programs'],"all parameter patterns (nested lists, literals, keywords with defaults, rest captures) x all argument lists",
 "The stable tests use one fixed parameter list.",
 [EXP],[('Expander::bind / bind_list',EXP),('expand_match_macro',EXP)],[API])
p('C16','Control and list macros compute what they document',
 "`%do` is the identity, `%ifdef` selects exactly one branch by whether the name is defined and expands only that one, `%for` expands its body once per item in order with the item bound by pattern, `%list` builds one list, `%splat` removes one level of lists, `%strip` drops the first item's leading whitespace, `%reverse` reverses a list (twice is the identity) keeping layout positions, and `%get` follows a path of indices and keywords.",
 ['programs'],"all argument lists and nestings of these macros, including empty lists and missing items",
 "One `%reverse` example is tested; none of the others.",
 [EXP],[('expand_{do,ifdef,for,list,splat,strip,reverse,get}_macro',EXP)],[API])
p('C17','map, filter, apply and lambda agree with direct calls',
 "`(%apply f args)` equals `(%f args)`; `(%map f x y ..)` equals `(%f x) (%f y) ..`; `(%filter f x y ..)` is the same without the results that are the empty list; a lambda behaves as a macro with the same parameters and body.",
 ['programs'],"all user macros, built-ins and lambdas used as functions x all argument lists",
 "Lambda is used once, as a sort key, in the tests.",
 [EXP],[('expand_{map,filter,apply,lambda}_macro / expand_invocation',EXP)],[API])
p('C18','Sorting is a stable permutation in a total order',
 "`%sort` returns a permutation of the list that is ordered by key (numbers by value, other text by code point, numbers first), stable for equal keys, reversed comparison under descending order, using `:key` when given; the whitespace between positions stays in place. Sorting twice changes nothing, and items without a literal key are rejected.",
 ['inputs'],"all lists of mixed numbers, strings, symbols and keyed records in any order, with duplicates, extreme and non-finite numbers",
 "Two fixed lists of 3-4 items are tested; order and stability are claims about every list.",
 [EXP],[('expand_sort_macro',EXP)],[API])
p('C19','String and literal conversion macros compute exact text',
 "`%join`, `%concat`, `%string`, `%raw`, `%symbol`, `%number` and `%format` yield exactly the text their arguments and options describe, for every character, of the documented kind, once all arguments are expanded; non-literal arguments are rejected.",
 ['inputs','programs'],"all argument lists of literals of any kind and nesting of these macros; format strings with positional and named placeholders, widths and alignment",
 "None of these macros occurs in a stable test.",
 [EXP,MAC],[('expand_{join,concat,string,raw,symbol,number,format}_macro',EXP)],[API])
p('C20','Dates and timestamps are exact and inverse to each other',
 "`%date` shows a UNIX time in the given UTC offset according to the proleptic Gregorian calendar, and `%timestamp` of the printed date with the same format and offset gives back the same number; an offset given inside the date wins over the option; invalid formats, dates, numbers and offsets are errors.",
 ['inputs'],"all representable instants x UTC offsets (fractional hours) x format strings",
 "Four fixed instants are tested.",
 [EXP],[('expand_date_macro / expand_timestamp_macro',EXP)],[API])
p('C21','Include and embed insert the first matching file',
 "`(%include f)` behaves as if the expanded contents of the file were written in its place, with its definitions visible afterwards; `(%embed f)` is a string with exactly the file's contents. The file is the first one found among the working directory and then the include directories in the order given, for includes trying the exact name and then with `.sex` appended; a missing or malformed file is an error.",
 ['programs','configurations'],"all small directory trees, include-directory orders, nested includes, include sites at any nesting depth and inside macros, loops and namespaces",
 "No test touches the file system.",
 [EXP,'parse/mod.rs','bin.rs'],[('expand_include_macro / expand_embed_macro / add_includes',EXP)],[API])
p('C22','Namespaces rename exactly the definitions of their body',
 "After `(%namespace ns [:separator s] body)` every definition made by the body is available as `ns<s>name` (default separator `/`) and nothing else changes in the surrounding scope; the body's other content is produced unchanged.",
 ['programs','histories'],"all sequences of definitions before, inside (directly, nested, by include or data macros) and after a namespace, with repeated namespaces and custom separators",
 "No test uses a namespace.",
 [EXP],[('expand_namespace_macro',EXP)],[API])
p('C23','YAML and JSON data become the corresponding lists and definitions',
 "`%yaml`/`%json` turn a document into nested keyword lists (maps), lists (sequences) and strings (scalars) in document order, and define every value under its path of keys and indices joined by the separator; invalid or unsupported documents are errors.",
 ['inputs'],"all documents built from nested maps, sequences and scalars in block, flow and JSON notation, any separator",
 "No test uses them.",
 [EXP],[('expand_yaml',EXP)],[API])
p('C24','TOML data becomes the corresponding lists and definitions',
 "`%toml` turns a document into nested keyword lists, lists and literals of the matching kind, exactly one entry per key, and defines every value under its path joined by the separator; invalid documents are errors.",
 ['inputs'],"all documents of tables, arrays of tables, inline tables, arrays, strings, integers, floats, booleans and dates, any separator",
 "No test uses it.",
 [EXP],[('expand_toml',EXP)],[API])
p('C25','Markdown becomes raw HTML and its frontmatter becomes definitions',
 "`%markdown` yields one raw string with the HTML of the text without its frontmatter, and defines the frontmatter's YAML or TOML entries; `:only content` defines nothing, `:only frontmatter` yields nothing and fails without frontmatter, `:separator` changes only the names defined.",
 ['inputs','programs'],"all Markdown texts with YAML, TOML, no or broken frontmatter x options",
 "No test uses it.",
 [EXP],[('expand_markdown_macro',EXP)],[API])
p('C26','Glob yields exactly the matching paths in the requested order',
 "`%glob` yields each path matching the pattern and type exactly once as a string (a blank between each two), and with `:sort` in the order requested (name, type, modification time with ties by name), exactly reversed under descending order; an invalid pattern is an error.",
 ['inputs','configurations'],"all small directory trees (nested directories, extensions, equal times, symbolic links) x patterns x options",
 "No test uses it; order claims need many file sets.",
 [EXP],[('expand_glob_macro',EXP)],[API])
p('C27','The command line does what the library does',
 "For every invocation, standard output is the library's output for each input in order (standard input first when `-` or no file is given) each followed by a newline, in the format last chosen, as a fragment under `--nodoc`/`--nodocument`, with `-I` directories searched in order; on any error the exit status is nonzero, the error is on standard error, and nothing of the failing input is on standard output. Unknown options, missing formats and missing files are rejected before any output.",
 ['inputs','configurations'],"all combinations and orders of flags, files, include directories and stdin, with succeeding and failing sources",
 "The command line has no tests at all.",
 ['bin.rs','lib.rs'],[('main / generate_and_print','bin.rs'),('tree_builder{,_file,_stream}','lib.rs')],['stdout, stderr, exit status of the built program'])
p('C28','Built-in macros reject wrong arguments and accept right ones',
 "Every built-in macro with a fixed signature accepts exactly the calls with the right number and types of positional arguments and known keyword options with allowed values, in any order of keywords; every other call is an error and not silently ignored.",
 ['inputs'],"all built-in macros x argument lists of every length, node type and option value",
 "Only valid calls of four macros are tested.",
 [MAC,EXP,'crates/seam_argparse_proc_macro/src/lib.rs'],[('ArgRules / ArgParser / ArgType::check',MAC),('arguments! macro','crates/seam_argparse_proc_macro/src/lib.rs')],[API])
p('C29','Errors point at the text that caused them',
 "When one fault is placed in an otherwise valid source (at any line, nesting, or in an included file), the reported error names the file, line and column of that fault and shows that source line; for an unknown name, an unknown keyword or an invalid escape it says which.",
 ['inputs','fault_sequences'],"fault kinds (unclosed or stray bracket, unclosed string, bad escape, keyword without value, unknown macro or variable, bad element, bad CSS) x positions x formats x layouts with multi-line strings and wide characters",
 "No test looks at an error message.",
 [LEX,PAR,EXP,TOK,A],[('Display for LexError/ParseError/ExpansionError/GenerationError',PAR),('Site::{line,line_column,line_slice}',TOK)],['error messages'])
p('C30','Nodes are equal exactly when their content is',
 "Two parsed nodes compare equal and hash equally whenever they have the same kinds, values, keywords and structure, whatever their layout and position, and compare unequal otherwise; searching a tree finds the first matching node within the given depth and only such nodes.",
 ['inputs'],"all pairs of trees (relayouts and one-point edits of each other); all searches by kind, value, case and depth",
 "No test compares or searches trees.",
 [PAR],[('PartialEq/Hash for ParseNode',PAR),('SearchTree',PAR)],['Eq, Hash, search results'])
p('C31','Independent parts do not influence each other',
 "The fragment output of a source made of two parts that share no names equals the output of the first followed by the output of the second; adding comments, or definitions nothing uses, changes nothing else; and wrapping a part in a call of a macro that returns its arguments leaves its content unchanged.",
 ['programs'],"all pairs of programs and formats; all insertion points for comments and unused definitions",
 "Metamorphic claims over all programs are not expressible as the existing example tests.",
 [EXP,LEX,H,X,C,SX,T],[('Expander::expand_nodes',EXP),('MarkupFormatter::generate',A)],['outputs of related sources'])
p('C32','A node tells exactly what it holds and where it stands',
 "For every node of every tree: its kind, its accessors (as symbol, number, string, list, attribute), its conversions to owned parts, to whole and decimal numbers and to text, and changing its leading blanks, tell exactly what the node holds and nothing else; its position tells the text it covers, the line it is on, line and display column, and is printed as `(file:line:column)`; different tokens have different identifiers. A printed macro-free tree reads back as itself.",
 ['inputs'],"all trees as read and as expanded (including raw-content strings and included files), all numeric spellings, all positions in multi-line and wide texts",
 "No test calls any of these functions on anything but the output of one formatter.",
 [PAR,TOK],[('Node / ParseNode accessors and conversions, IntoValue',PAR),('Site::{view,line_slice,line_column,width,uuid}, Display',TOK)],['return values of the library'])
p('C33','Arguments go exactly where their rules say',
 "Given any set of argument rules (places, names, mandatory or optional, types with predicates, a rest) made by hand or declared with `arguments!`, and any argument list: each argument goes to the first rule for its place if its type and one of the predicates allow it, arguments without a rule go to the rest in order if allowed, the declared fields then hold exactly these values; anything else, or a missing mandatory argument, is an error placed at the offending argument or call.",
 ['inputs','programs'],"all rule sets x argument lists of every kind of node, with repeated, missing, extra and ill-typed arguments",
 "Only a handful of valid calls pass through the rules in the tests.",
 [MAC,'crates/seam_argparse_proc_macro/src/lib.rs'],[('ArgRules / ArgParser / ArgType / ArgPredicate / extract_*',MAC),('arguments!','crates/seam_argparse_proc_macro/src/lib.rs')],['ArgParser maps, generated argument structs, errors'])
p('C34','All ways into and out of the library agree',
 "The same text given as a string, a file, a stream (in parts of any size), through a cloned builder, or node by node, expands to the same tree or the same error; the same tree is written identically by display, generate, printing and cloned formatters, a document contains what a fragment does, a writer that fails makes writing fail after exactly the beginning of the output; unreadable files and streams are errors.",
 ['inputs','fault_sequences'],"all sources x entry points x chunk sizes, interruptions and failures of readers and writers",
 "Every test uses the same single way in and out.",
 ['lib.rs','parse/mod.rs',A,EXP,PAR],[('tree_builder{,_file,_stream}','lib.rs'),('parser_for_file','parse/mod.rs'),('MarkupFormatter',A)],[API])
p('C35','Looking ahead never changes what is read',
 "For any text, any sequence of peeking, consuming, testing for the end, cloning and going back yields the tokens of the text in order, each exactly once, with its blanks and position, as a single pass would; and reading a source expression by expression gives the same expressions, or the same error, as reading it at once.",
 ['inputs','histories'],"all texts x sequences of lexer and parser operations",
 "Tests only read whole sources in one go.",
 [LEX,PAR],[('Lexer::{peek,consume,eof}',LEX),('Parser::{parse,parse_expr}',PAR)],['tokens and nodes returned by lexer and parser'])
p('C36','Every part is expanded exactly as often and when it should',
 "For any program, the positions and values reported by `%log` calls placed anywhere in it appear exactly as often and in the order the language prescribes: arguments of eager macros once, before the macro; branches not taken never; bodies once per iteration or call; discarded arguments not at all or once as documented; and nothing after the first error.",
 ['programs','histories'],"all nestings of the macros with logging in every argument position",
 "Output alone does not show how often something was expanded, and no test observes it.",
 [EXP],[('Expander::expand_node(s) and all expand_*_macro',EXP),('expand_log_macro',EXP)],['standard error of %log'])
ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
