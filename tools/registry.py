#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.  Run from /verif."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')

UT = ("The unit tests compare one hand-written input with one expected output per rewrite and run each rewrite alone; "
      "they never ask whether the picture is the same, and they sample a few dozen documents of an unbounded input space. ")
T = 'src/task/'

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, level_note=level_note, technique=technique))

TRUST = ("Holds on every execution observed; says nothing about documents or options never generated. Trusts the monitor's own "
         "SVG interpreter (/verif/harness/src/scene.rs, geom.rs, style.rs), its tolerances (rounding at the configured precision) and the "
         "document generator's coverage, which the evidence file counts. ")
PICT = "runtime monitoring: independent SVG scene interpreter compares each real cleaning's input and output, seeded workloads"

prop('C01', 'A default cleaning renders the same picture',
     "For every document the tool accepts with its default options, the cleaned document shows the same picture as the original: the same shapes with the same "
     "geometry, fills, strokes, markers, clipping, masks, filters, opacity, text, images and links, painted in the same order, up to the configured numeric rounding.",
     ['inputs'], 'every accepted SVG document mixing any supported feature, with default options',
     UT + "The default pipeline runs about forty rewrites over one another's output; an interaction of two of them is in no unit test.",
     ['src/cleaner.rs', 'src/task'], [('the ordered rewrite pipeline', 'src/cleaner.rs: clean_doc')], ['parsed input and output documents of every cleaning'],
     TRUST, PICT)
prop('C02', 'Path data rewrites keep every outline, stroke, marker and direction',
     "Whatever combination of path options is on (relative commands, segment removal, segment conversion, number trimming, implicit commands, joined arc flags), "
     "the rewritten path data describes the same curves in the same order, with the same subpaths, closings, cap and join positions and marker vertices, and stays parseable.",
     ['inputs', 'configurations'], 'every valid path data string (any command sequence, number form, arc flag form) and every legal combination of path options',
     UT + "Path tests exercise single short command strings; the quantifier is over all command sequences and all option combinations.",
     ['src/task/paths', 'src/task/mod.rs'], [('segment removal, conversion and writing', 'src/task/paths/*.rs')], ['path data of input and output; the scene built from them'],
     TRUST + "Known findings K1 and K3 are reported, not suppressed as a class.", PICT)
prop('C03', 'Converting basic shapes to paths keeps their geometry',
     "Replacing rectangles, lines, polylines and polygons by paths keeps each element's outline, fill, stroke, markers, clipping and units, for any coordinates, "
     "sizes, missing or invalid values, and leaves alone the elements for which no equivalent path exists.",
     ['inputs', 'configurations'], 'every basic shape with any attribute values, units, styles, inheritance and referencing, with and without the other path options',
     UT, [T+'conv_shapes.rs'], [('shape conversion', T+'conv_shapes.rs')], ['scene of input and output'], TRUST, PICT)
prop('C04', 'Moving transforms into shapes, gradients, groups and paths keeps the picture',
     "When a transform is folded into coordinates, path data, gradient coordinates, stroke width or a parent group, every affected element is painted at the same place with "
     "the same stroke and paint, whether it is painted directly, inherited from, or referenced from elsewhere.",
     ['inputs', 'configurations'], 'every tree of transforms (any matrix, including skews, mirrors and singular ones) over shapes, groups, gradients, clips and references, and every combination of the transform options',
     UT + "Correctness depends on which styles are inherited, which units are used and who references the element: combinations unit tests do not enumerate.",
     [T+'apply_transforms', T+'group_by_style.rs', T+'paths', T+'rm_default_transform.rs'], [('transform application', T+'apply_transforms/*.rs'), ('matrix rewriting', T+'rm_default_transform.rs')], ['absolute matrices, geometry and paint of every painted element'], TRUST, PICT)
prop('C05', 'Grouping and ungrouping keep paint order, inheritance and group effects',
     "Removing, merging or creating groups never changes the order in which elements are painted, the style any element ends up with, or the effect of group opacity, clipping, masking, "
     "filtering, links, conditional processing and references to the group.",
     ['inputs', 'configurations'], 'every nesting of groups, links, switches and nested documents with any attributes, and every combination of the grouping options',
     UT, [T+'ungroup_groups.rs', T+'group_by_style.rs', T+'ungroup_defs.rs', T+'resolve_use.rs'], [('ungrouping', T+'ungroup_groups.rs'), ('grouping by style', T+'group_by_style.rs')], ['the sequence of painted items with their effect stacks'], TRUST, PICT)
prop('C06', 'Removed attributes never change a computed value',
     "An attribute is dropped only when the picture does not depend on it: the same initial value results, nothing inherits it, it does not apply to the element, "
     "or the element is not painted, also when the element is used or linked from elsewhere.",
     ['inputs', 'configurations'], 'every placement of presentation and geometry attributes on ancestors, elements, and users of elements, and every combination of the attribute-removal options',
     UT, [T+'rm_default_attrs.rs', T+'rm_needless_attrs.rs', T+'rm_gradient_attrs.rs', T+'rm_text_attrs.rs', T+'rm_unused_coords.rs'], [('attribute removal', T+'rm_*_attrs.rs')], ['computed style and geometry of every painted item'], TRUST, PICT)
prop('C07', 'Style sheets, style attributes and attributes resolve to the same computed style',
     "Turning style sheets and style attributes into presentation attributes, and back into style attributes, keeps the CSS cascade's result for every element: selector matching, specificity, source order and importance; "
     "unsupported CSS is rejected, not dropped.",
     ['inputs', 'configurations'], 'every style sheet of supported selectors and declarations mixed with style and presentation attributes, with styles joined or not',
     UT, ['src/cleaner.rs', T+'join_style_attrs.rs'], [('style joining', T+'join_style_attrs.rs'), ('parsing options', 'src/cleaner.rs: parse_data')], ['computed style of every painted item'], TRUST + "Known finding K6 is reported.", PICT)
prop('C08', "Resolving 'inherit' and 'currentColor' keeps computed values",
     "After inherit and currentColor are replaced by concrete values, every element, gradient stop and filter primitive has the value it had before, including when the element is instantiated from several places with different inherited values.",
     ['inputs'], 'every placement of inherit/currentColor/color on trees with references and instantiation', UT,
     [T+'resolve_inherit.rs'], [('inheritance resolution', T+'resolve_inherit.rs')], ['computed style of every painted item'], TRUST, PICT)
prop('C09', 'Gradient rewrites keep every colour along every gradient',
     "Merging, de-duplicating, inlining, re-linking or removing gradients and stops, and changing their coordinates or units, keeps the colour at every point of every fill and stroke, and keeps shared gradients intact for their other users.",
     ['inputs', 'configurations'], 'every graph of linear and radial gradients linked to one another (with missing attributes, units, spread, transforms, zero to many stops) and every combination of gradient options', UT,
     [T+'merge_gradients.rs', T+'regroup_gradient_stops.rs', T+'rm_dupl_defs', T+'resolve_gradients.rs', T+'rm_gradient_attrs.rs', T+'rm_invalid_stops.rs', T+'apply_transforms'], [('gradient merging and stop regrouping', T+'merge_gradients.rs, regroup_gradient_stops.rs')], ['resolved gradient (stops, geometry, spread) of every paint'], TRUST + "Known finding K2 is reported.", PICT)
prop('C10', 'Definitions and instantiated content keep what they paint',
     "Removing unused definitions, moving referenced elements, resolving uses, de-duplicating or ungrouping definitions never loses or changes what a clip path, mask, pattern, marker, symbol or use paints, nor anything defined only inside it.",
     ['inputs', 'configurations'], 'every document with clips, masks, patterns, markers, symbols and uses in any nesting and definition order, and every combination of the definition options', UT,
     [T+'group_defs.rs', T+'rm_unused_defs.rs', T+'resolve_use.rs', T+'ungroup_defs.rs', T+'final_fixes.rs'], [('definition moves and removal', T+'group_defs.rs, rm_unused_defs.rs, resolve_use.rs')], ['scene of every instantiated content'], TRUST, PICT)
prop('C11', 'Only elements that cannot affect the picture are removed as invisible',
     "An element is removed as invisible only when removing it changes nothing visible: zero-size, hidden, fully transparent, clipped-away or empty content that no filter, bounding box, animation-free reference or sibling choice depends on.",
     ['inputs', 'configurations'], 'every hidden, transparent, degenerate or clipped element in any context (filters, clips, masks, switches, uses, object-bounding-box paints)', UT,
     [T+'rm_invisible_elems.rs'], [('invisible element removal', T+'rm_invisible_elems.rs')], ['scene of input and output'], TRUST, PICT)
prop('C12', 'Text keeps its characters, positions, spaces and styles',
     "Cleaning keeps, for every text element, the same characters after white-space handling, the same chunk positions, rotations and lengths, the same fonts and decorations per character, and the same text-path and reference targets.",
     ['inputs', 'configurations'], 'every text tree (spans, references, text paths, white-space modes, entities) with any options', UT,
     [T+'rm_text_attrs.rs'], [('text attribute removal', T+'rm_text_attrs.rs')], ['per-character style and position of every text item'], TRUST + "Known findings K4 and K5 are reported.", PICT)
prop('C13', 'Images, links, nested documents and conditional content are preserved',
     "Cleaning keeps every image with its source and placement, every hyperlink with its target and covered content, every nested document's viewport, and the choice made by conditional content.",
     ['inputs', 'configurations'], 'every document with images, anchors, nested documents and switches in any nesting, with any options', UT,
     [T+'ungroup_groups.rs', T+'rm_invisible_elems.rs', T+'group_by_style.rs'], [('element preservation', 'src/task/*.rs')], ['image, link and viewport effects of every painted item'], TRUST, PICT)
prop('C14', 'Filters keep their primitives, regions and users',
     "Cleaning keeps every filter's primitives, their attributes, order, inputs and results, the filter region and units, and every element's filter; filters are merged only when they are identical.",
     ['inputs', 'configurations'], 'every filter chain and user, with any options', UT,
     [T+'rm_dupl_defs', T+'rm_invisible_elems.rs', T+'fix_attrs.rs'], [('filter de-duplication', T+'rm_dupl_defs')], ['filter effect of every painted item'], TRUST, PICT)
prop('C15', 'Every reference resolves to the same target and ids stay unique',
     "In the output every internal reference resolves to exactly one element, of the kind it referred to before, no id occurs twice, and a reference that resolved in the input is not left dangling or redirected.",
     ['inputs', 'configurations'], 'every reference graph and every naming of ids, with any options', UT,
     [T+'trim_ids.rs', T+'rm_unref_ids.rs', T+'rm_unused_defs.rs'], [('id trimming', T+'trim_ids.rs'), ('id removal', T+'rm_unref_ids.rs')], ['id table and reference graph of input and output'], TRUST,
     "runtime monitoring: reference-graph checker over every real cleaning's input and output, seeded workloads")
prop('C16', 'Numbers are rounded only as far as the configured precision',
     "Every number of the input is rounded to the nearest value with as many fractional digits as the precision option of its attribute allows, before anything is computed from it; "
     "the options of the other attributes have no effect on it, and nothing that is not a number of such an attribute changes with the precision. With rewriting options off no written number has more fractional digits than allowed.",
     ['inputs', 'configurations'], 'every number in every attribute kind and every combination of the four precision options from 1 to 12', UT + "They use a handful of round numbers at the default precision.",
     [T+'round_numbers.rs', 'src/task/paths'], [('rounding by attribute class', T+'round_numbers.rs')], ['every numeric attribute, transform, path and point list of the outputs at the precision in force and at the finest one'], TRUST,
     "runtime monitoring: numeric trace checker comparing input and output values with the precision options in force")
prop('C17', 'What an option promises to remove or rewrite is gone from the output',
     "With an option on, the output contains none of what its documentation promises to remove (comments, declarations, metadata, foreign elements and attributes, unreferenced ids, unused definitions, duplicates, version, needless groups and so on) and has the promised form of what it promises to rewrite.",
     ['inputs', 'configurations'], 'every document and every combination of the other options', UT,
     ['docs', 'src/cleaner.rs', 'src/task'], [('each removal task', 'src/task/*.rs'), ('documented promises', 'docs/src/*.adoc')], ['output document'], TRUST,
     "runtime monitoring: postcondition monitors per documented option over every real cleaning")
prop('C18', 'A disabled option changes nothing it governs',
     "With an option off, whatever only that option is documented to remove or rewrite is still in the output as it was; with all options off the output differs from the input only by the documented unconditional processing.",
     ['inputs', 'configurations'], 'every document and every small set of enabled options', UT + "Tests call a task directly, never the option plumbing that selects it.",
     ['src/cleaner.rs', 'src/options.rs', 'src/cli.rs'], [('option plumbing', 'src/cleaner.rs: clean_doc; src/cli.rs')], ['inventory of elements, attributes, nodes of input and output'], TRUST,
     "runtime monitoring: frame-condition monitor (what may not change) over every real cleaning with few options on")
prop('C19', 'Any combination of options renders the same picture',
     "For every accepted document and every legal combination of option values, including no defaults at all, the cleaned document shows the same picture as the original.",
     ['inputs', 'configurations'], 'every accepted document and every legal assignment of the command-line options', UT + "Of the 2^50 option assignments the tests run one.",
     ['src/cleaner.rs', 'src/task', 'src/cli.rs'], [('option plumbing and tasks', 'src/cleaner.rs')], ['parsed input and output documents of every cleaning'], TRUST, PICT)
prop('C20', 'Output-format options change only the spelling of the output',
     "Indentation, list separators, colour form, number trimming, implicit path commands, joined arc flags, transform simplification and style joining change how the output is written, never the document it denotes: outputs that differ only in such options parse to the same tree of elements, values and references.",
     ['inputs', 'configurations'], 'every document and every pair of option sets differing only in output-format options', UT,
     ['src/cleaner.rs', 'src/main.rs', T+'join_style_attrs.rs', 'src/task/paths'], [('write options', 'src/cli.rs; src/cleaner.rs')], ['pairs of outputs of one input'], TRUST,
     "runtime monitoring: differential trace checker over pairs of real cleanings of one input")
prop('C21', 'The output is well-formed and can be cleaned again',
     "Every output is a well-formed, namespace-correct document with one root whose attributes and values are valid, and cleaning the output again with the same options succeeds and again shows the same picture.",
     ['inputs', 'configurations'], 'every accepted document and every legal combination of options', UT,
     ['src/cleaner.rs', T+'final_fixes.rs'], [('namespace fixing', T+'final_fixes.rs'), ('writing', 'src/cleaner.rs: write_buffer')], ['output bytes, second cleaning'], TRUST + "Known finding K8 is reported.",
     "runtime monitoring: strict XML/attribute-value checker over every real output, plus re-cleaning")
prop('C22', 'Any input ends in an output or a reported error, never a crash or a hang',
     "For any bytes as input and any legal options the tool ends within time proportional to the work, without a crash, panic or stack overflow, and either writes an output or reports an error.",
     ['inputs', 'configurations'], 'all byte strings: grammar-generated documents, mutated ones, broken references, extreme numbers, deep nesting', UT + "Tests use only valid documents.",
     ['src/main.rs', 'src/cleaner.rs', 'src/task'], [('error propagation', 'src/main.rs; src/error.rs')], ['exit status, signals, stderr and elapsed time of every run'], TRUST + "Panics inside the pinned parser dependencies are known findings by call site.",
     "runtime monitoring: crash/hang/panic monitor over mutation and grammar fuzzing of the real program")
prop('C23', 'Unsupported content is refused instead of silently broken',
     "A document with scripts, animation, event handlers, conditional-processing conditions or references into other files that the tool cannot preserve is refused with an error and no output, wherever the content occurs, and a document without any is not refused for it.",
     ['inputs', 'configurations'], 'every kind of unsupported content at every place in any document, with any options', UT,
     ['src/task/preclean_checks.rs', 'src/cleaner.rs'], [('preclean checks', T+'preclean_checks.rs')], ['acceptance or error of every document with and without injected content'], TRUST,
     "runtime monitoring: acceptance monitor over paired documents with and without injected unsupported content")
prop('C24', 'The input file is never harmed and an output is never worse than the input',
     "The program never modifies its input file, never leaves a partial or larger output unless told that is allowed, touches nothing else, and when it cannot clean a file it leaves the output as it was or, on request, a byte-exact copy of the input.",
     ['inputs', 'configurations', 'fault_sequences'], 'every input, option set, file arrangement (same file, existing output, unwritable output, links) and failure', "No test runs the program on files; the tests call the library.",
     ['src/main.rs', 'src/cli.rs'], [('size check and copy-on-error', 'src/main.rs')], ['content and metadata of every file before and after each run'], TRUST,
     "runtime monitoring: file-system effect monitor around every run of the real program, with injected failures")
prop('C25', 'The result depends only on the document and the options',
     "Cleaning the same bytes with the same options gives the same bytes every time, in every process, from file or standard input, to file or standard output, and whatever the order in which options are given.",
     ['inputs', 'configurations', 'schedules'], 'every document and option set; every run, process, working directory and way of passing data', "A test runs once in one process; hash seeds and memory layout vary from run to run.",
     ['src/main.rs', 'src/task'], [('ordered data structures', 'src/task/*.rs'), ('input and output', 'src/main.rs')], ['outputs of repeated runs'], TRUST,
     "runtime monitoring: differential monitor over repeated real runs in varied processes and I/O modes")
prop('C26', 'Repeated cleaning converges and stays the same picture',
     "Multi-pass mode ends; what it writes is what cleaning the file again and again in separate single passes gives, taken at a pass where the size has stopped shrinking; it is never larger than the result of a single pass; and it shows the same picture as the original.",
     ['inputs', 'configurations'], 'every accepted document and option set in multi-pass mode', "No test runs multi-pass mode.",
     ['src/main.rs', 'src/cleaner.rs'], [('multipass loop', 'src/main.rs')], ['output of every pass'], TRUST,
     "runtime monitoring: convergence and picture monitor over multi-pass runs of the real program")
prop('C27', 'Command-line options mean what the documentation says',
     "Every documented option and value is accepted and has its documented default and effect, illegal values and combinations are refused before anything is written, and giving an option its default value changes nothing.",
     ['configurations'], 'every option, every documented value, every illegal value, every documented dependency between options', "Tests parse a few argument vectors; none compares with the documentation or checks the effect on the output.",
     ['src/main.rs', 'docs'], [('argument parsing and checking', 'src/cli.rs')], ['exit status, messages and outputs of the program per argument vector'], TRUST,
     "runtime monitoring: observing the real program over enumerated argument vectors against a table of the documentation")

BUILT = open('tools/built.txt').read().split()

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'].strip(),
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': [], 'not_applicable': []}
for p in P:
    if p['id'] in BUILT:
        m['checks'].append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration', 'level_note': p['level_note'].strip()})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': 'not claimed yet: its monitor is still being built'})
m['notes'] = 'No hooks: the monitors observe the public library API and the built program from outside.'
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
for p in P:
    for x in p['files']:
        if not os.path.exists('/repo/' + x): print('missing', p['id'], x)
