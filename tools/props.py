"""Writes /verif/properties.jsonl."""
import json
O = "crates/oxvg_optimiser/src/jobs/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
T = "The tests snapshot a handful of fixed documents per job; "
p("P01", "Parsing and serialising a document preserves its content",
  "Parsing a well-formed SVG document and serialising it without any optimisation yields a well-formed document with the same elements (namespace and name), the same attributes with the same string values for attributes that hold free text, the same comments and the same text up to whitespace. Characters that are special in XML are escaped so that they read back as the same characters.",
  ["inputs"], "all attribute values, text, comment contents and namespace declarations of bounded size",
  T + "escaping and namespace scoping must hold for every character in every position.",
  ["crates/oxvg_ast/src/parse/roxmltree.rs", "crates/oxvg_ast/src/xmlwriter.rs", "crates/oxvg_ast/src/serialize.rs", "crates/oxvg_collections/src/name.rs"],
  [("tree building", "crates/oxvg_ast/src/parse/roxmltree.rs"), ("escaping", "crates/oxvg_ast/src/xmlwriter.rs")],
  observe=["serialised document"])
p("P02", "No attribute value or style text crashes or hangs the toolchain",
  "Whatever characters an attribute value, a style attribute or a style sheet contains, parsing the document, optimising it with the default jobs and serialising it end with a result or an error, never with a panic, an out-of-bounds access or an endless loop.",
  ["inputs"], "all strings of bounded length as value of each attribute",
  T + "crashes hide in inputs nobody wrote down, such as a multi-byte character in a transform.",
  ["crates/oxvg_parse/src", "crates/oxvg_path/src/parser.rs", "crates/oxvg_collections/src/attribute", O],
  [("cursor based parser", "crates/oxvg_parse/src/lib.rs")], observe=["process outcome"])
p("P03", "Typed attribute values keep their meaning when parsed and printed",
  "For every attribute whose value the toolchain interprets (numbers, lengths with units, percentages, angles, number lists, points, viewBox, preserveAspectRatio, keywords, paint, clock values), parsing a valid value and printing it yields a value that denotes the same thing. A value that is not understood is printed unchanged.",
  ["inputs"], "all value strings of bounded length over the grammar's alphabet, for each attribute type",
  T + "the value space is far larger than the samples and the printer's shortening rules interact with each other.",
  ["crates/oxvg_collections/src/attribute", "crates/oxvg_parse/src", "crates/oxvg_serialize/src"],
  [("attribute parsing and printing", "crates/oxvg_collections/src/attribute")], observe=["serialised attribute value"])
p("P04", "Path data survives parsing and printing unchanged",
  "Printing parsed path data and reading the result with any conforming SVG path reader gives the same sequence of drawing commands with the same coordinates, for every mixture of commands, number formats, separators, flags and implicit repetitions. Invalid path data is kept up to the error, as SVG requires.",
  ["inputs"], "all path strings of bounded length over digits, signs, dots, exponents, separators and commands",
  T + "number adjacency and implicit commands combine in more ways than any list of strings covers.",
  ["crates/oxvg_path/src/parser.rs", "crates/oxvg_path/src/lib.rs", "crates/oxvg_path/src/paths", "crates/oxvg_parse/src"],
  [("path parser", "crates/oxvg_path/src/parser.rs"), ("compact printer", "crates/oxvg_path/src/lib.rs")], observe=["printed path data"])
p("P05", "Path optimisation keeps the drawn geometry",
  "Optimising path data (converting between absolute and relative, to shorthand commands, removing useless segments, straightening curves, rounding) draws the same outline within the configured rounding error, keeps every subpath's start, direction and closure, and keeps the points at which markers are placed when markers are present.",
  ["inputs", "configurations"], "all short paths over a command alphabet with symbolic coordinates, under the default options and single option changes",
  T + "the rewrites are chained and position dependent; a wrong start point only shows for particular sequences.",
  ["crates/oxvg_path/src/optimize.rs", "crates/oxvg_path/src/paths", O + "convert_path_data.rs"],
  [("command filters", "crates/oxvg_path/src/optimize.rs"), ("absolute/relative choice", "crates/oxvg_path/src/paths/svg.rs")], observe=["d attribute after the job"])
p("P06", "Transform simplification keeps the transformation",
  "Simplifying a transform list produces a list whose combined matrix equals the original one within the configured precision, for every combination of translate, scale, rotate, skew and matrix functions; only lists equal to the identity are removed.",
  ["inputs", "configurations"], "all transform lists of up to three functions with symbolic arguments",
  T + "decomposition of matrices has sign and quadrant cases that fixed samples miss.",
  [O + "convert_transform.rs", "crates/oxvg_collections/src/attribute/transform.rs"],
  [("matrix decomposition and merging", "crates/oxvg_collections/src/attribute/transform.rs")], observe=["transform attribute after the job"])
p("P07", "Applying a transform to a path keeps the picture",
  "When a transform attribute is folded into a path's data, the new data without the transform draws the same outline (and the same stroke width) as the old data with it, within the configured precision.",
  ["inputs", "configurations"], "all affine matrices over symbolic small entries and paths with every command type",
  T + "arcs, smooth curves and mirrored matrices each need their own case.",
  [O + "apply_transforms.rs"], [("matrix applied per command", O + "apply_transforms.rs")], observe=["d, transform and stroke attributes after the job"])
p("P08", "Converting shapes keeps their outline",
  "Turning rectangles, lines, polylines, polygons, circles and ellipses into paths, or ellipses into circles, keeps the outline, all other attributes, and the children of the element; shapes that cannot be converted faithfully stay as they are.",
  ["inputs", "configurations"], "all symbolic coordinates, units, missing attributes and options",
  T + "missing, percentage, negative and zero values each change what is drawn.",
  [O + "convert_shape_to_path.rs", O + "convert_ellipse_to_circle.rs"], [("shape conversion", O + "convert_shape_to_path.rs")], observe=["element after the job"])
p("P09", "Merging and reusing paths keeps every painted outline",
  "Merging adjacent paths or replacing repeated paths by references leaves the sequence of painted outlines with their resolved paint unchanged, and never merges paths whose painting would differ once merged.",
  ["inputs", "configurations"], "all pairs and triples of small paths with symbolic coordinates and differing attributes",
  T + "whether two outlines overlap is a geometric condition over all coordinates.",
  [O + "merge_paths.rs", O + "reuse_paths.rs", "crates/oxvg_path/src/geometry"], [("intersection test", "crates/oxvg_path/src/geometry"), ("duplicate detection", O + "reuse_paths.rs")], observe=["paths after the job"])
p("P10", "Colour rewriting keeps the colour",
  "Every colour rewritten in attributes or styles (names, short and long hex, rgb and rgba notations, case) denotes the same red, green, blue and alpha value as before, and text that is not a colour, such as currentColor, none or a reference, keeps its meaning.",
  ["inputs", "configurations"], "all hex digits, all rgb components within bounds, all named colours",
  T + "sixteen million colours exist; tests try a few dozen.",
  [O + "convert_colors.rs", "crates/oxvg_collections/src/attribute"], [("colour conversion", O + "convert_colors.rs")], observe=["paint attributes after the job"])
p("P11", "Rewriting styles keeps every element's resolved style",
  "Inlining, merging, minifying or converting style sheets and style attributes leaves the value every element gets for every property, after the CSS cascade (origin, importance, specificity, order) and presentation attributes, unchanged.",
  ["inputs", "configurations"], "all small documents with up to three rules and symbolic selectors, properties, values and importance",
  T + "the cascade is a relation between all rules and all elements.",
  [O + "inline_styles.rs", O + "merge_styles.rs", O + "minify_styles.rs", O + "convert_style_to_attrs.rs", "crates/oxvg_ast/src/style.rs"],
  [("style inlining", O + "inline_styles.rs"), ("computed styles", "crates/oxvg_ast/src/style.rs")], observe=["resolved style of each element before and after"])
p("P12", "Moving attributes between groups and children keeps the picture",
  "Collapsing groups and moving attributes from groups to children or from children to groups keeps the sequence of drawn shapes with their accumulated transformation, inherited and non-inherited properties, clipping, masking, filtering and opacity, and keeps every referenced or animated element addressable.",
  ["inputs", "configurations"], "all nestings of two groups and up to three shapes with symbolic attributes",
  T + "which attributes may move depends on every sibling and ancestor together.",
  [O + "collapse_groups.rs", O + "move_elems_attrs_to_group.rs", O + "move_group_attrs_to_elems.rs"], [("attribute moves", O + "collapse_groups.rs")], observe=["flattened draw list before and after"])
p("P13", "Removing redundant attributes keeps every element's resolved style",
  "Removing unknown or default-valued attributes, useless stroke and fill, empty or non-inheritable or deprecated attributes and filter background hints leaves the resolved rendering properties of every drawn shape and every reference unchanged.",
  ["inputs", "configurations"], "all values of the affected attributes on an element and its ancestors",
  T + "a default value is only redundant when nothing inherited overrides it.",
  [O + "remove_unknowns_and_defaults.rs", O + "remove_useless_stroke_and_fill.rs", O + "remove_non_inheritable_group_attrs.rs", O + "remove_empty_attrs.rs", O + "cleanup_enable_background.rs", O + "remove_deprecated_attrs.rs"],
  [("default comparison", O + "remove_unknowns_and_defaults.rs")], observe=["resolved properties before and after"])
p("P14", "Removing invisible or empty elements never removes drawn content",
  "Removing hidden, empty, off-canvas or unused elements keeps every element that is drawn, every element that a drawn element refers to, and everything that changes how drawn elements look.",
  ["inputs", "configurations"], "all small documents with symbolic visibility conditions, sizes and references",
  T + "visibility is the conjunction of conditions on an element, its ancestors and whatever refers to it.",
  [O + "remove_hidden_elems.rs", O + "remove_empty_containers.rs", O + "remove_empty_text.rs", O + "remove_useless_defs.rs", O + "remove_off_canvas_paths.rs"],
  [("visibility tests", O + "remove_hidden_elems.rs")], observe=["draw list before and after"])
p("P15", "Selectors match exactly the elements CSS says",
  "Querying a document with a selector list returns, in document order and without duplicates, exactly the elements that the CSS selector definition matches: types, ids, classes, attribute conditions, combinators, structural pseudo-classes and negation.",
  ["inputs"], "all trees of up to five elements and all selectors of up to three compounds over a small alphabet",
  T + "matching depends on the relation between tree shape and selector.",
  ["crates/oxvg_ast/src/selectors.rs", "crates/oxvg_ast/src/element.rs"], [("selector matching over the tree", "crates/oxvg_ast/src/selectors.rs")], observe=["list of matched elements"])
p("P16", "Renaming or removing ids keeps every reference pointing at its target",
  "Minifying, removing or prefixing ids keeps the reference relation: every reference that resolved to an element before resolves to the same element afterwards, wherever it is written (links, url() in attributes, styles and style sheets, animation timing), ids stay unique, and ids that are referenced or protected stay.",
  ["inputs", "configurations"], "all small sets of ids with symbolic characters and every kind of reference",
  T + "a collision needs particular ids; a missed reference needs a particular place.",
  [O + "cleanup_ids.rs", O + "prefix_ids.rs", "crates/oxvg_collections/src/content_type.rs"], [("id renaming", O + "cleanup_ids.rs"), ("prefixing", O + "prefix_ids.rs")], observe=["reference graph before and after"])
p("P17", "Namespace clean-up keeps names and links resolvable",
  "Removing unused or editor namespaces and xlink attributes keeps every remaining element and attribute bound to the namespace it had, keeps every link's target, and removes only what belongs to the namespaces concerned.",
  ["inputs", "configurations"], "all placements of namespace declarations and prefixed names in small documents",
  T + "scoping of prefixes depends on the combination of declarations and uses.",
  [O + "remove_unused_n_s.rs", O + "remove_editors_n_s_data.rs", O + "remove_xlink.rs", O + "remove_x_m_l_n_s.rs"], [("namespace use tracking", O + "remove_unused_n_s.rs")], observe=["expanded names before and after"])
p("P18", "The default and safe presets keep the rendered picture",
  "Running the default or the safe preset on a document keeps its picture: the ordered list of drawn shapes with their geometry on the canvas (within the precision of the jobs), resolved paint, stroke, opacity, visibility and references, and the text shown.",
  ["inputs", "configurations"], "all documents of a bounded grammar of groups, shapes, uses, definitions, styles and transforms",
  T + "jobs that are right in isolation can break each other's assumptions in sequence.",
  ["crates/oxvg_optimiser/src/jobs/mod.rs", O], [("job sequence", "crates/oxvg_optimiser/src/jobs/mod.rs")], observe=["draw list before and after"])
p("P19", "Only the configured jobs run, with the configured options",
  "With no job enabled optimising changes nothing; a preset extended by a user's jobs runs the preset with exactly the user's overrides; omitted jobs have no effect; configuration written in the config file format reads back as the same configuration.",
  ["configurations", "inputs"], "all job names and combinations of presets, extensions and omissions",
  T + "there are more than fifty jobs and every combination must compose.",
  ["crates/oxvg_optimiser/src/jobs/mod.rs", "crates/oxvg_optimiser/src/configuration.rs"], [("job table", "crates/oxvg_optimiser/src/jobs/mod.rs")], observe=["document after optimising", "configuration values"])
p("P20", "Removal jobs remove exactly what they are configured to remove",
  "A job that removes a kind of content (comments, doctype, titles, descriptions, metadata, scripts, style elements, raster images, attributes or elements chosen by name, pattern, id, class or selector, dimensions, view box) removes all of that content that its options designate and leaves all other elements, attributes and text as they were.",
  ["inputs", "configurations"], "all small documents with symbolic names, values and options",
  T + "the tests show removal on hand-picked content, not the absence of collateral removal.",
  [O], [("removal jobs", O)], observe=["document before and after"])
p("P21", "Numeric clean-up changes numbers by at most the rounding step",
  "Rounding numeric values and value lists changes each number by at most half a unit of the configured last decimal place, converts absolute units to pixels only by their defined factor, and leaves the count and order of values, relative units and non-numeric content alone.",
  ["inputs", "configurations"], "all decimal strings of bounded length, all units, all precisions",
  T + "rounding boundaries and shortened notations are exactly what samples miss.",
  [O + "cleanup_numeric_values.rs", O + "cleanup_list_of_values.rs", "crates/oxvg_serialize/src"], [("rounding", O + "cleanup_numeric_values.rs")], observe=["attribute values before and after"])
p("P22", "Text shown to the reader survives optimisation",
  "Serialising and optimising keep the characters of text elements, titles and descriptions as XML and SVG whitespace rules show them, including entities, CDATA sections, nested spans and xml:space.",
  ["inputs", "configurations"], "all short texts over letters, whitespace and special characters around nested spans",
  T + "collapsing whitespace is only safe at particular positions.",
  ["crates/oxvg_ast/src/xmlwriter.rs", "crates/oxvg_ast/src/serialize.rs", O + "remove_empty_text.rs"], [("text output", "crates/oxvg_ast/src/xmlwriter.rs")], observe=["shown text before and after"])
p("P23", "Tree edits keep the document tree consistent",
  "After any sequence of tree operations (append, insert, replace, remove, flatten, sort, filter, clone) the parent, first-child, last-child and sibling relations agree with each other and with the sequence of edits applied to an ordinary list-of-children tree.",
  ["histories"], "all operation sequences of bounded length on small trees",
  T + "a stale sibling link only shows after a particular later operation.",
  ["crates/oxvg_ast/src/node.rs", "crates/oxvg_ast/src/element.rs"], [("linked tree nodes", "crates/oxvg_ast/src/node.rs")], observe=["tree relations after each operation"])
p("P24", "Attribute and class editing behaves like a map and a set",
  "Setting, getting, removing, renaming and sorting attributes of an element, and adding, removing, toggling and replacing class names, behave like operations on an ordered map and an ordered set: no duplicates, no lost or changed values, lookups agree with what is serialised.",
  ["histories", "inputs"], "all operation sequences of bounded length over a few names with symbolic values",
  T + "aliasing between names only shows for particular orders of operations.",
  ["crates/oxvg_ast/src/attribute.rs", "crates/oxvg_ast/src/class_list.rs", O + "sort_attrs.rs"], [("attribute map", "crates/oxvg_ast/src/attribute.rs"), ("class list", "crates/oxvg_ast/src/class_list.rs")], observe=["lookups and serialised attributes"])
p("P25", "Lint reports exactly the problems that are present",
  "Each lint rule reports a problem for every element or attribute that has it and none otherwise, at a position that lies at the offending text, with the configured severity; rules that are off report nothing.",
  ["inputs", "configurations"], "all small documents with symbolic names, ids, references and values",
  T + "false reports come from combinations of declarations and uses.",
  ["crates/oxvg_lint/src"], [("rules", "crates/oxvg_lint/src/rules")], observe=["reports"])
p("P26", "Editor actions change exactly the selected elements and are recorded",
  "Editing actions (selecting, setting attributes, styles and classes, transforming, inserting) change exactly the selected elements as described and nothing else; saving the document with its embedded editing state and loading it again restores the same selection and history.",
  ["histories", "inputs"], "all action sequences of bounded length on small documents with symbolic arguments",
  T + "state is threaded through the document; errors show only across save and load.",
  ["crates/oxvg_actions/src"], [("actions and embedded state", "crates/oxvg_actions/src")], observe=["document and derived state"])
p("P27", "Reordering jobs only reorder",
  "Sorting attributes, sorting definitions and similar ordering jobs keep the same multiset of attributes and elements with the same values, produce the documented order, and give the same result when run again.",
  ["inputs", "configurations"], "all attribute sets and definition lists of bounded size",
  T + "a comparator that is not a total order misbehaves only for particular sets.",
  [O + "sort_attrs.rs", O + "sort_defs_children.rs", "crates/oxvg_ast/src/attribute.rs"], [("comparators", O + "sort_attrs.rs")], observe=["order and content after the job"])
p("P28", "Conversion to JSX keeps elements, attributes and text",
  "Converting an SVG document to a JSX component keeps the element tree, text and attribute values, with attribute names in the form JSX expects.",
  ["inputs", "configurations"], "all small documents and options",
  T + "name conversion must hold for every attribute.",
  ["crates/oxvg_jsx/src"], [("conversion", "crates/oxvg_jsx/src/swc.rs")], observe=["generated component"])
p("P29", "The command line tool writes only the files it was asked to write",
  "Optimising or linting files and directories from the command line writes results only to the requested destinations, mirrors the directory structure, and leaves files it fails on untouched.",
  ["inputs", "configurations", "fault_sequences"], "all directory layouts and option combinations",
  "The tests do not run the command line tool on directory trees.",
  ["crates/oxvg/src"], [("directory walking", "crates/oxvg/src/walk.rs")], observe=["files written"])
p("P30", "Jobs that add to the root element add exactly what they are configured to add",
  "Adding attributes or classes to the root element adds those that are missing, leaves present attributes and classes as they were, and changes nothing else in the document.",
  ["inputs", "configurations"], "all small root elements with symbolic attributes and class lists",
  "The tests snapshot a handful of fixed documents per job, and those of the class job don't reach the job at all because they misspell its name.",
  [O + "add_classes_to_s_v_g_element.rs", O + "add_attributes_to_s_v_g_element.rs"], [("additions to the root", O + "add_classes_to_s_v_g_element.rs")], observe=["root element before and after"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
