#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["cleaned document text returned by parse_data + clean_doc + write_buffer"],
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Default cleaning does not change the rendered drawing",
  "For every accepted SVG document, the document produced by the default cleaning pipeline paints the same picture as the input: the same shapes, images and texts in the same order, with the same outlines, transforms, resolved fill/stroke/opacity/clip/mask/filter/marker and other painting properties. "
  "Curve flattening aside, the only differences allowed are rounding to the configured precision, removal of zero-length line segments, and writing a closing line as a close-path.",
  ["inputs", "configurations"], "all accepted documents under the default option set and under option sets that differ from it in a few flags",
  "Each task's tests run that task alone on hand-written documents; no test runs the 40-step pipeline, so interactions between tasks (an attribute hidden by one task and then grouped by another, a transform moved onto an element whose paint server is in user space) are never exercised.",
  ["src/cleaner.rs", "src/task/mod.rs"],
  [("fixed task order", "src/cleaner.rs clean_doc"), ("per-task guards", "src/task/*.rs")],
  [("document", "the svgdom tree being rewritten in place", "src/cleaner.rs clean_doc")])

p("C02", "Regrouping and unwrapping elements preserves the rendering",
  "Dissolving groups, grouping neighbours by common style, unwrapping defs and replacing a use element by the element it references never change the painted picture: paint order, effective transforms, inherited and own properties, group opacity, clipping, masking, filtering and visibility of every painted element stay the same. "
  "A group whose dissolution would change any of these is left in place.",
  ["inputs"], "all documents, each structural option on its own and all of them together",
  "The tests list a few dozen groups by hand; the guards depend on combinations of group attributes, child attributes, sibling kinds, links and nesting that grow exponentially.",
  ["src/task/ungroup_groups.rs", "src/task/group_by_style.rs", "src/task/ungroup_defs.rs", "src/task/resolve_use.rs", "src/task/group_defs.rs"],
  [("ungroup guards and attribute move", "src/task/ungroup_groups.rs"), ("same-attribute run detection", "src/task/group_by_style.rs"),
   ("use resolving", "src/task/resolve_use.rs"), ("defs ungrouping", "src/task/ungroup_defs.rs"), ("collecting referenced elements", "src/task/group_defs.rs")])

p("C03", "Gradient and filter optimizations preserve every resolved paint",
  "Merging, deduplicating, regrouping the stops of, folding transforms into, and removing inheritable or invalid parts of linear and radial gradients, and deduplicating blur filters, leaves every painted element with the same effective paint: gradient kind, geometry, units, spread, transform and the effective ordered stop list with colors and opacities, or the same filter. "
  "Two paint servers are unified only if they are effectively identical.",
  ["inputs"], "all documents with chains of gradients and filters, each paint-server option on its own and all together",
  "The tests check a few literal pairs; effective values come from href chains of mixed gradient kinds with defaults, so equality has to be decided over all combinations.",
  ["src/task/resolve_gradients.rs", "src/task/merge_gradients.rs", "src/task/regroup_gradient_stops.rs", "src/task/rm_gradient_attrs.rs", "src/task/rm_invalid_stops.rs",
   "src/task/rm_dupl_defs/mod.rs", "src/task/rm_dupl_defs/linear_gradient.rs", "src/task/rm_dupl_defs/radial_gradient.rs", "src/task/rm_dupl_defs/fe_gaussian_blur.rs", "src/task/apply_transforms/gradients.rs"],
  [("href attribute resolving into hidden attributes", "src/task/resolve_gradients.rs"), ("duplicate detection", "src/task/rm_dupl_defs"),
   ("chain merging", "src/task/merge_gradients.rs"), ("stop list validation", "src/task/rm_invalid_stops.rs")])

p("C04", "Path optimization preserves the outline",
  "Converting segments to shorter types, removing unused segments, making coordinates relative and folding a transform into the data leave the outline of every path unchanged: interpreting the written data yields the same subpaths, the same curves and the same closedness as the original. "
  "Only zero-length lines, empty subpaths and repeated identical loops may disappear, and a line back to the subpath start may become a close-path.",
  ["inputs", "configurations"], "all path data of up to 8 segments over all 20 path commands and every combination of the path options",
  "Path rewriting is a state machine over segment sequences (current point, subpath start, previous control point); tests sample about 40 sequences, mostly of one command type.",
  ["src/task/paths/mod.rs", "src/task/paths/conv_segments.rs", "src/task/paths/rm_unused.rs", "src/task/paths/apply_transform.rs"],
  [("segment conversion", "src/task/paths/conv_segments.rs"), ("pairwise segment removal to a fixpoint", "src/task/paths/rm_unused.rs"), ("transform folding", "src/task/paths/apply_transform.rs")],
  [("current point / subpath start / last control point", "state threaded through the segment list", "src/task/paths")])

p("C05", "Shape conversion and transform folding keep outline, stroke and paint",
  "Replacing line, rect, polyline and polygon elements by paths, and applying an element's transform to its coordinates, keeps the element's outline in document space, its stroke width and dash lengths in document space, and its paint servers' placement. "
  "Where that is impossible (rotation, skew, non-uniform scale, relative units, paint or clip defined in the element's user space) the element and its transform stay as they are.",
  ["inputs"], "all basic shapes, coordinates, units, transforms and inherited stroke settings",
  "Tests use one or two shapes per transform kind; the interplay with inherited stroke properties, units and linked paint servers is a product space.",
  ["src/task/conv_shapes.rs", "src/task/apply_transforms/mod.rs", "src/task/apply_transforms/shapes.rs", "src/task/apply_transforms/preproc.rs", "src/task/utils.rs"],
  [("applicability guards", "src/task/apply_transforms/mod.rs is_valid_transform/is_valid_attrs"), ("stroke scaling", "src/task/utils.rs recalc_stroke"), ("conversion", "src/task/conv_shapes.rs")])

p("C06", "Attribute removal and style joining keep every computed property",
  "Removing default, needless, text-related, unused-coordinate, version and linked attributes, and joining presentation attributes into a style attribute, never changes the computed value of a property that affects a rendered element, a gradient stop or a filter primitive, nor a geometric attribute's effective value. "
  "An attribute that overrides an inherited value, or that is needed to resolve em/ex units, is kept.",
  ["inputs", "configurations"], "all documents and all attribute-removal options and style-join modes, separately and together",
  "Whether an attribute is removable depends on ancestors, element kind, referencing elements and the property's default; tests give a few positive and negative examples of each rule.",
  ["src/task/rm_default_attrs.rs", "src/task/rm_needless_attrs.rs", "src/task/rm_text_attrs.rs", "src/task/rm_unused_coords.rs", "src/task/join_style_attrs.rs", "src/task/rm_version.rs", "src/task/rm_default_transform.rs", "src/task/final_fixes.rs"],
  [("default table and parent walk", "src/task/rm_default_attrs.rs"), ("element/attribute applicability tables", "src/task/rm_needless_attrs.rs"), ("style serialization", "src/task/join_style_attrs.rs")])

p("C07", "References stay intact and ids stay unique",
  "After cleaning, every reference (href or url function) in the output points to an element present in the output, no two elements carry the same id, and each reference still designates the element (or an effectively identical one) it designated in the input. "
  "With id options on, an id survives only if something refers to it, and trimmed ids are pairwise distinct, valid names that start with a letter.",
  ["inputs", "configurations"], "all documents with links, every option subset",
  "Id renaming, deduplication, merging and element removal each rewrite links; tests cover one link at a time and never a document in which several of them apply, nor enough ids to make the generated names roll over.",
  ["src/task/trim_ids.rs", "src/task/rm_unref_ids.rs", "src/task/rm_unused_defs.rs", "src/task/rm_dupl_defs/mod.rs", "src/task/regroup_gradient_stops.rs", "src/task/utils.rs", "src/task/group_defs.rs"],
  [("linked-node bookkeeping", "svgdom set_attribute/remove"), ("id generator", "src/task/trim_ids.rs"), ("unique id for new elements", "src/task/regroup_gradient_stops.rs")],
  [("id counter", "last generated short id", "src/task/trim_ids.rs")])

p("C08", "Only content that cannot be seen is removed",
  "Removing invisible elements and unused definitions deletes an element only if it paints nothing wherever it is used: it is hidden, empty, fully transparent, has zero size, an empty or invalid path, an empty clip or an unreferenced definition. "
  "Every element that paints something, or is needed directly or through a chain of references by one that does, is still there.",
  ["inputs"], "all documents; the removal options separately, together and in the full pipeline",
  "Visibility depends on inheritance, reference chains and later tasks; tests assert specific removals and a handful of keeps.",
  ["src/task/rm_invisible_elems.rs", "src/task/rm_unused_defs.rs", "src/task/rm_elems.rs"],
  [("invisibility rules", "src/task/rm_invisible_elems.rs"), ("use counting of definitions", "src/task/rm_unused_defs.rs")])

p("C09", "An enabled removal is complete, and a disabled one removes nothing",
  "When an option that removes a class of content is on (comments, XML declarations, non-SVG elements and attributes, title, desc, metadata, version and baseProfile, unreferenced ids, unused definitions, the xlink namespace when no link uses it), no removable instance is left in the output. "
  "When it is off, every instance in the input is still in the output, apart from the documented unavoidable changes.",
  ["inputs", "configurations"], "all documents and every single-option and all-but-one-option configuration",
  "Tests call a task directly; none checks that the option that names it is what triggers it, that it is applied everywhere in the tree, or that it is inert when off.",
  ["src/cleaner.rs", "src/cli.rs", "src/options.rs", "src/task/rm_elems.rs", "src/task/rm_version.rs", "src/task/final_fixes.rs", "src/task/rm_unref_ids.rs"],
  [("option dispatch", "src/cleaner.rs clean_doc"), ("parser switches", "src/cli.rs gen_parse_options")])

p("C10", "Documents that cannot be cleaned safely are refused",
  "A document with a script element, an animation element, an event-handler attribute, a non-empty requiredFeatures/systemLanguage condition, or a link to an external resource outside an image, anchor, font or feImage is refused with an error, and so are an unresolvable inherit and an unresolvable cyclic link; no output is produced for it. "
  "A document without such content is not refused.",
  ["inputs"], "all documents; the offending content at any depth and on any element, under every option set",
  "Tests check one position of each forbidden construct; the guarantee is over every element, attribute and nesting depth.",
  ["src/task/preclean_checks.rs", "src/task/resolve_inherit.rs", "src/task/resolve_gradients.rs", "src/error.rs"],
  [("preclean checks", "src/task/preclean_checks.rs"), ("inherit resolution errors", "src/task/resolve_inherit.rs")],
  None, ["error returned by parse_data/clean_doc"])

p("C11", "The command-line tool never damages files",
  "The input file is never modified unless it is also the chosen output; the output file is created or replaced only after cleaning succeeded and, unless growth is allowed, only if the result is not bigger than the input, and then it holds exactly the cleaned text plus the requested newline. "
  "On any error before the output is written it is left untouched, except that with copy-on-error and two distinct files it becomes an exact copy of the input; the stdin and stdout forms read and write what their arguments say.",
  ["inputs", "configurations", "fault_sequences"], "all argument forms, input outcomes (missing, unparsable, refused, cleanable, growing, shrinking), file states and flag combinations of the tool",
  "No test runs the executable: the whole decision procedure in main is untested.",
  ["src/main.rs", "src/cli.rs", "src/cleaner.rs"],
  [("error path", "src/main.rs on_err"), ("size check", "src/main.rs"), ("argument interpretation", "src/cli.rs input/output")],
  [("output file", "absent, old content, copy of input or cleaned text", "src/main.rs")],
  ["file system contents, stdout and stderr after the process exits"])

p("C12", "Command-line options resolve exactly as documented",
  "Every option takes the documented default when it is not given, the given value when it is, and, with --no-defaults, every flag not given is off while the non-flag options keep their defaults; each option controls its own setting and no other. "
  "Invalid values and documented-invalid combinations are rejected before anything is read or written.",
  ["configurations"], "all argument lists over the 50 options",
  "Seven tests look at about ten of fifty settings; cross-wiring between two options or a wrong default in one is invisible to them.",
  ["src/cli.rs", "src/options.rs", "docs/svgcleaner.adoc"],
  [("option table", "src/cli.rs KEYS/prepare_app"), ("flag resolution", "src/cli.rs Flags::_resolve"), ("combination checks", "src/cli.rs check_values")],
  None, ["resolved option structures; exit behaviour of the executable"])

p("C13", "Repeated cleaning is safe and terminates",
  "Cleaning an already cleaned document succeeds, does not change the picture, and repeating it reaches a document that further cleaning leaves unchanged within a few passes. "
  "Multipass mode therefore ends for every input, and its result is the result of some finite number of single passes, the last of which no longer made the text smaller.",
  ["inputs", "histories"], "all accepted documents, any number of passes, under default and varied option sets",
  "No test feeds output back as input, and none runs multipass mode; termination depends on the sizes of consecutive passes.",
  ["src/main.rs", "src/cleaner.rs", "src/task/group_by_style.rs", "src/task/regroup_gradient_stops.rs", "src/task/merge_gradients.rs"],
  [("multipass loop and size comparison", "src/main.rs"), ("tasks that undo each other", "src/task/ungroup_groups.rs vs src/task/group_by_style.rs; src/task/merge_gradients.rs vs src/task/regroup_gradient_stops.rs")],
  [("size of the previous pass", "loop exit condition", "src/main.rs")])

p("C14", "CSS, style, inherit, currentColor and links are resolved correctly",
  "With every optional cleaning switched off, the output still paints the same picture as the input: values from style elements, style attributes, classes, inherit, currentColor, percentage stop offsets and gradient links are resolved by the cascade of the SVG 1.1 specification, and unresolved references take their specified fallback. "
  "Definitions moved into defs keep the properties they inherited at their original place.",
  ["inputs"], "all documents with CSS rules of supported selectors, nested inheritance and references, with all options off",
  "Cascade order, inheritance depth and referenced-element context combine freely; tests fix one instance each.",
  ["src/task/resolve_inherit.rs", "src/task/resolve_gradients.rs", "src/task/fix_attrs.rs", "src/task/group_defs.rs", "src/task/utils.rs"],
  [("inherit/currentColor resolution", "src/task/resolve_inherit.rs"), ("percent offsets", "src/task/resolve_gradients.rs resolve_stop_attributes"), ("attribute resolution when moving definitions", "src/task/group_defs.rs")])

p("C15", "Numbers are rounded, never altered",
  "Every number that no other optimization computes anew (by folding a transform, merging, converting a shape or a segment) differs in the output from its value in the input by at most half a unit in the last place of the precision configured for its kind (coordinates, properties, path coordinates, transforms), and has no more decimals than that precision allows; making path coordinates relative adds nothing to that. "
  "A precision option affects only the numbers of its own kind.",
  ["inputs", "configurations"], "all numeric values, all element and attribute kinds, precisions 1 to 12, with the options that compute no number anew",
  "Tests use one precision and a few values per kind; rounding direction, negative numbers, list-valued attributes and which precision applies to which attribute are products of cases.",
  ["src/task/round_numbers.rs", "src/cli.rs"],
  [("per-kind rounding", "src/task/round_numbers.rs")])

p("C16", "Output notation options do not change the meaning of the document",
  "Indentation, list separators, compact path notation, joined arc flags, omitted repeated commands, implicit line commands, short colors and short transform matrices change only how the document is written: reading any of the resulting texts yields the same document. "
  "The output is always well-formed XML that the tool itself and any XML parser accept, with the link namespace declared whenever it is used.",
  ["inputs", "configurations"], "all cleaned documents and all combinations of the output options",
  "Compact notation relies on token boundaries between neighbouring numbers; which pairs meet depends on values, signs, decimals and flags, far more than the tests sample.",
  ["src/cli.rs", "src/cleaner.rs", "src/task/final_fixes.rs"],
  [("write options", "src/cli.rs gen_write_options"), ("writer", "svgdom write_buf_opt"), ("xlink namespace fix", "src/task/final_fixes.rs")])

p("C17", "Cleaning any document ends with a result or an error",
  "For every input text and every valid option set, reading, cleaning and writing finishes with a cleaned document or a reported error; it never panics, aborts, overflows the stack or loops forever.",
  ["inputs", "configurations"], "all input texts, including malformed, degenerate, deeply nested, cyclic and empty documents, under every valid option set",
  "Tests use well-formed inputs that reach the asserted behaviour; the many unwraps and fixpoint loops need degenerate attribute values and structures to fail.",
  ["src/cleaner.rs", "src/task/mod.rs", "src/task/paths/mod.rs", "src/task/group_by_style.rs", "src/task/merge_gradients.rs"],
  [("attribute normalization before the tasks", "src/task/fix_attrs.rs"), ("checked loops", "src/task/paths/rm_unused.rs, src/task/group_by_style.rs")],
  None, ["outcome of each run: ok, error, panic, abort, timeout"])

p("C18", "Text content and its layout survive cleaning",
  "The characters shown by every text element, their order, the elements and links that structure them, their positions, significant white space and every font and text property that affects them are unchanged by any cleaning option. "
  "Text-related attributes are dropped only from places where no text or font-relative length depends on them.",
  ["inputs", "configurations"], "all text subtrees (text, tspan, tref, textPath, a) with mixed content and white space, under every option set and indent",
  "White space, nesting and which ancestors' attributes matter vary independently; tests have a few plain texts.",
  ["src/task/rm_text_attrs.rs", "src/task/rm_invisible_elems.rs", "src/task/ungroup_groups.rs", "src/task/fix_attrs.rs", "src/task/group_by_style.rs"],
  [("text detection", "src/task/rm_text_attrs.rs"), ("empty-text removal", "src/task/rm_invisible_elems.rs")])

p("C19", "The result depends only on the input and the options",
  "Cleaning the same text with the same options always gives byte-identical output or the same error, whatever was cleaned before in the same process, however many times it is run, and whether it is done through the library, a file, or stdin and stdout.",
  ["histories", "schedules"], "all sequences of cleaning calls in one process and across processes and interfaces",
  "Tests run each document once; hash-ordered collections, leftover state or interface-specific handling need repetition and comparison across runs.",
  ["src/cleaner.rs", "src/main.rs", "src/task/group_by_style.rs", "src/task/resolve_use.rs"],
  [("no global mutable state", "src/lib.rs"), ("ordered traversals", "src/task/*.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    n = len(re.findall(r"\.(?:\s|$)", x["statement"]))
    assert n <= 3, (x["id"], n)
print(len(P), "properties")
