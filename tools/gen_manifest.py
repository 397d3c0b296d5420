#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the table below."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
T={
 'C04':('generated sources with known positions; reference reader; span oracle',
        'Random search: sources are rendered from trees whose positions are known by construction, and every node seam reads is compared site by site; arbitrary texts are checked against a reference reader. Trusts the reference reader and the renderer.'),
 'C05':('generated sources; differential against a reference reader (accept/reject and tree)',
        'Random search over rendered trees, mutations, token soups and texts; each is accepted or rejected exactly as an independently written reader says. Trusts that reader.'),
 'C06':('round trip: generated trees and programs printed as S-expressions and read back',
        'Random search; the printed text must read back as the same tree with the same blanks and print again as itself. Programs whose expansion puts two tokens side by side without blanks are outside the property.'),
 'C07':('generated trees and programs against a reference text writer, and an order-and-content oracle',
        'Random search over trees and programs; the text must equal the reference writer\'s and, independently, consume the expanded nodes in order with nothing left over.'),
 'C08':('generated element trees against a reference HTML writer; output parsed back by an independent HTML parser',
        'Random search over elements, attributes, void elements and declarations, some broken on purpose. Trusts the reference expander and writer; the parser is independent of both.'),
 'C09':('generated hostile texts in every position; output parsed back by an independent markup parser',
        'Random search; the elements, attributes and characters parsed back must be those of the source.'),
 'C10':('generated combinations of doctype, html, head and body against a reference document writer',
        'Random search over presence, position, depth and letter case, with arbitrary other content.'),
 'C11':('generated pre, textarea, title, style, script, svg and math elements against the reference writers',
        'Random search over right and wrong contents, nested and within macros and loops.'),
 'C12':('generated element trees against a reference XML writer; output parsed back by an independent XML parser',
        'Random search over elements, declarations, processing instructions and documents, some broken on purpose.'),
 'C13':('generated style sheets against a reference CSS writer; output split by an independent CSS reader',
        'Random search over selectors, values, nested functions, statement and block @-rules, some broken on purpose.'),
 'C14':('model-based: generated programs against a reference expander',
        'Random search over programs of definitions, shadowing, calls and namespaces; the whole expanded tree (kinds, values, layout) or its rejection must equal that of an independently written expander. Trusts that expander; recursion is bounded by it.'),
 'C15':('model-based: generated parameter and argument lists against a reference binder',
        'As C14, with generated parameter patterns (positional, literal, nested, keyword defaults, rest captures), fitting and nearly fitting argument lists, loops and matches.'),
 'C16':('model-based: generated nestings of the control and list macros against a reference expander',
        'As C14, focused on do, ifdef, for, list, splat, strip, reverse and get.'),
 'C17':('model-based: generated uses of map, filter, apply and lambda against a reference that calls directly',
        'As C14, focused on functions passed by name; the reference expands the direct call.'),
 'C19':('model-based: generated nestings of the string macros against a reference expander',
        'As C14, focused on the text macros; %format only for the documented subset of format strings.'),
 'C18':('generated lists, keys and options against a reference sort, plus stability, permutation and idempotence relations',
        'Random search over kinds, keys, orders, case options and items with equal keys. Keys that read the layout of items are left out.'),
 'C20':('generated instants, zones and formats against an independent calendar; round trip through timestamp',
        'Random search over the years the date library can print; formats from the documented directives.'),
 'C21':('model-based: generated file trees, include paths and programs against a reference expander',
        'Random search over files that define and export macros, nested includes, embeds, shadowed directories and missing files, in a scratch directory.'),
 'C26':('generated directory trees and patterns against a reference glob matcher and orders',
        'Random search over directory trees with links and odd names, in a scratch directory; patterns that list `.` and `..` are left out.'),
 'C23':('generated YAML and JSON documents with known meaning against a reference tree and definitions',
        'Random search over documents rendered in many styles (block, flow, quoted, folded, anchors) and damaged ones; the tree and every definition must be those the document was rendered from.'),
 'C24':('generated TOML documents with known meaning against a reference tree and definitions',
        'Random search over tables, arrays of tables, inline tables, dotted keys and every literal kind, and damaged ones. Numbers are compared by value and the order of entries is left open.'),
 'C25':('generated Markdown with frontmatter against the Markdown library on the text without it, and reference definitions',
        'Random search over frontmatter kinds, separators and options; the HTML is compared with the same text passed alone, so the rendering itself is trusted.'),
 'C28':('generated built-in calls, fitting and nearly fitting, against the documented signatures',
        'Random search over all built-in macros, with options in any position and through variables. The same option twice is not specified.'),
 'C22':('model-based: generated histories of definitions and namespaces against a reference expander',
        'As C14, focused on namespaces with any separator, nested, repeated, and holding data macros.'),
 'C01':('fuzzing with structured generators: programs of every sort, damaged and combined, through all formats and modes',
        'Random search with overflow checks, debug assertions and isolation of crashes and hangs. Sources whose recursion, nesting or sizes are unbounded, as told by the reference expander, are left out.'),
 'C02':('fuzzing under AddressSanitizer: the sources of C01 with includes, clones and re-use of expanders and formatters',
        'Random search; the standard library is not instrumented except for allocation and copying, so accesses within one live allocation go unnoticed.'),
 'C03':('metamorphic: repeated runs in one process, threads, clones, formatters used again, and new processes',
        'Random search; hash seeds differ between runs by themselves. The date and time are left out.'),
 'C27':('generated command lines, files and standard input against the library called directly',
        'Random search in a scratch directory; standard output and exit status exactly, standard error by content. Trusts the library, which the other properties cover.'),
 'C29':('generated programs with one known fault at a known place against the reported place',
        'Random search over 50 kinds of fault in readers, macros and writers, in files, includes and standard input. Wording is not judged.'),
 'C30':('generated node pairs and trees against reference equality and search',
        'Random search over all kinds of nodes and search patterns through the library interface.'),
 'C31':('metamorphic: concatenated sources, inserted comments and unused definitions, identity wrappers',
        'Random search over all formats; sources where the relation does not hold by design (text touching in S-expressions, pre, lambdas) are left out.'),
 'C32':('generated trees against a reference tree and position arithmetic; round trip of printed trees',
        'Random search over trees as read and as expanded; every accessor and conversion of every node. Strings with NUL and touching empty strings are not printed back.'),
 'C33':('generated rules and argument lists against a reference matcher',
        'Random search over rule sets made by hand, and over arguments of 24 fixed declarations by the procedural macro. Which of two arguments for one place is kept is open.'),
 'C34':('differential and metamorphic: entry points, clones and writers against each other, with failing readers and writers',
        'Random search over sources of C01; what the output should be is decided by the other properties. Sources which tell the time are left out.'),
 'C35':('generated operation sequences on lexer and parser against a reference tokenizer',
        'Random search over texts and histories of operations.'),
 'C36':('model-based: generated programs with logging in every position against the trace of a reference expander',
        'Random search over programs; standard error is captured and compared record by record. Trusts the reference expander.'),
}
try:
    from manifest_table import T as T2
    T.update(T2)
except ImportError: pass
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd=f'bash check.sh {i} quick',thorough_cmd=f'bash check.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',technique='property-based testing: '+t,level='exploration',level_note=n))
    else:
        na.append(dict(property=i,reason='check not built yet (work in progress)'))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo: everything is driven through the public library API and the command line. Known findings and repaired defects: KNOWN_FINDINGS.txt.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1,ensure_ascii=False); open(root+'/MANIFEST.json','a').write('\n')
