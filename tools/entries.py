def e(entry, bounds, covers=(), **kw):
    return dict(entry=entry, bounds=bounds, covers=list(covers), **kw)


PROPS = {
    "P04": {
        "note": "Every string within the bounds is parsed and printed by the real code and compared with an independent "
                "reader of the SVG 2 path grammar; longer strings and numbers with more digits are not covered.",
        "assumptions": ["numbers written with a trailing dot (SVG 1.1 only) and numbers beyond the range of doubles are excluded"],
        "entries": [
            e("path_free", "3 prefixes followed by 5 (thorough: 6) symbols out of '05.-+e, Llz'", [1, 2]),
            e("path_numbers", "M followed by two numbers in 9 formats with all digits symbolic, 4 separators, 8 tails", [1, 2]),
            e("path_commands", "every command after every command, implicit repetition, symbolic sign/dot and arc flags", [1]),
            e("path_separators", "every command with two sets of arguments, three free white space or comma symbols in one of the gaps", [1, 2]),
        ],
    },
    "P05": {
        "note": "The outline, closure, dots of line caps and marker points of the path before and after the real job are computed independently and compared.",
        "assumptions": ["points may move by 0.03 (1.0 with the coarse tolerance)", "vertices closer than 0.01 carry one marker"],
        "entries": [
            e("optimise_styles", "75 shapes of path data with up to 3 symbolic digits under 15 kinds of stroke, cap, join, marker, fill rule and conditional style"),
            e("optimise_options", "the same paths under 11 single changes of the options, filled and stroked"),
            e("optimise_pairs", "every command after every command with a symbolic digit each, stroked; thorough: three commands"),
        ],
    },
    "P06": {
        "note": "The real job runs on every list within the bounds; matrices of input and output are compared by an independent "
                "evaluation. Longer lists and more digits are not covered.",
        "assumptions": ["functions with singular or infinite matrices compare only up to the precision of single floats"],
        "entries": [
            e("transform_lists", "lists of 1-3 functions of every kind and arity, up to 2 symbolic digits, separators"),
            e("transform_triples", "three functions, the last of which may undo the first, collapsing on and off"),
            e("transform_matrices", "matrix() with symbolic small entries incl. rotations, mirrors and shears; precision options"),
        ],
    },
    "P07": {
        "note": "The outline of path and transform before and of the path after the real job are computed independently and compared.",
        "assumptions": ["matrices that are singular are excluded except scale(0)"],
        "entries": [
            e("apply_commands", "19 paths covering every command, 12 kinds of matrices, up to 3 symbolic digits"),
            e("apply_strokes", "stroke, width, dash, vector effect, reference, style and animation on path and group; both options"),
        ],
    },
    "P08": {
        "note": "Outline and style of every shape are computed independently before and after the real job.",
        "assumptions": ["markers on rect, circle and ellipse are excluded (SVG 1.1 and 2 disagree)"],
        "entries": [
            e("shape_lengths", "every shape with each coordinate missing, symbolic, negative, with unit or percentage; options"),
            e("shape_surroundings", "shapes with children, ids, styles, animations, references and inherited attributes"),
        ],
    },
    "P12": {
        "note": "The picture (ordered list of painted shapes with resolved properties) is computed independently before and after the real job.",
        "assumptions": [],
        "entries": [
            e("collapse_groups", "two nested groups and up to three children, attributes from a table of 40 with symbolic digits"),
            e("elems_to_group", "a group with up to three children sharing attributes from the table"),
            e("group_to_elems", "groups with transform and attributes from the table over children of every kind"),
        ],
    },
    "P03": {
        "note": "Every value within the bounds is parsed and printed by the real code; both strings are read by an independent "
                "reader of the attribute's value grammar. Numbers with more digits and longer lists are not covered.",
        "assumptions": ["numbers beyond the range of single floats and units on zero compare as equal to the printed value's rounding"],
        "entries": [
            e("values_round_trip", "attributes of every interpreted kind (numbers, lengths, percentages, angles, lists, points, viewBox, "
              "preserveAspectRatio, paint, clock values, keywords) with templates of valid and invalid values, all digits, units and "
              "letter case symbolic", [1]),
        ],
    },
    "P10": {
        "note": "The colour before and after the real job is read by an independent reader of CSS colours.",
        "assumptions": [],
        "entries": [
            e("color_hex", "hex colours of 3, 4, 6 and 8 symbolic digits in attributes and styles, options of the job", [1]),
            e("color_functions", "rgb()/rgba()/hsl() with symbolic numbers, percentages and separators", [1]),
            e("color_names", "all named colours with symbolic letter case, near misses", [1]),
            e("color_current", "currentColor, none, url() and other text, option currentColor", [1]),
        ],
    },
    "P15": {
        "note": "The elements returned by the real query are compared with an independent matcher of CSS selectors working on the parsed text.",
        "assumptions": ["one document of a dozen elements with symbolic names, ids, classes and attribute values"],
        "entries": [
            e("select_pairs", "all pairs of compound selectors with every combinator", [1]),
            e("select_chains", "chains of three compounds and selector lists", [1]),
            e("select_symbols", "attribute conditions and nth-child arguments with symbolic characters", [1]),
            e("select_typed", "attribute conditions over attributes with typed values", [1]),
        ],
    },
    "P21": {
        "note": "Numbers, units and counts of values before and after the real jobs are read independently and compared.",
        "assumptions": [],
        "entries": [
            e("values_rounding", "cleanupNumericValues and cleanupListOfValues with precision 0-3 and unit options over all numeric kinds, "
              "digits and units symbolic", [1]),
        ],
    },
    "P23": {
        "note": "All relations of the real tree are compared with a list-of-children model after every operation.",
        "assumptions": [],
        "entries": [
            e("tree_edits", "sequences of 2 (thorough: 3) out of 19 tree operations on every choice of nodes, symbolic sort keys and filters", [1]),
            e("tree_parsed", "trees built by the parser from documents with text, comments, style sheets and nested elements", [1]),
        ],
    },
    "P24": {
        "note": "Every lookup and the serialised element are compared with an ordered map and an ordered set after every operation.",
        "assumptions": [],
        "entries": [
            e("attr_edits", "sequences of operations on attributes of several kinds and namespaces, symbolic values", [1]),
            e("class_edits", "sequences of operations on class lists with symbolic names and white space", [1]),
        ],
    },
    "P01": {
        "note": "Input and output are read by roxmltree and compared node by node; documents deeper than the templates are not covered.",
        "assumptions": ["white space at the ends of ids and names and comments inside style elements are excluded",
                        "reading XML (roxmltree) is trusted; it is the library the code itself uses for tokenising"],
        "entries": [
            e("xml_attributes", "20 elements, 41 attributes of free text, two symbolic characters around 16 references, 4 sets of serialiser options", [1]),
            e("xml_texts", "9 elements with two pieces of text, CDATA, comments, processing instructions and elements with symbolic characters; prologues and epilogues", [1]),
            e("xml_names", "38 element and attribute names with one free letter, with and without prefixes", [1]),
            e("xml_namespaces", "declarations at two levels with symbolic prefixes and names", [1]),
            e("xml_styles", "style sheets with characters special in XML, in text and in CDATA", [1]),
        ],
    },
    "P22": {
        "note": "The characters shown are computed from the XML before and after by an independent implementation of SVG's white space rules.",
        "assumptions": ["indented output is excluded: it is documented not to keep spaces", "texts that show only spaces may be removed"],
        "entries": [
            e("text_shown", "texts with up to three pieces of text and spans, xml:space at two levels, symbolic letters and spaces", [1]),
            e("text_optimised", "default and safe presets over texts, titles and descriptions with spans, links, CDATA and references", [1]),
        ],
    },
    "P20": {
        "note": "Input and output are read by roxmltree; what must remain is computed from the input by rules written from each job's documentation.",
        "assumptions": ["white space between elements and at the ends of ids and classes isn't compared"],
        "entries": [
            e("remove_elements", "12 jobs over 15 templates of comments, titles, descriptions, metadata, scripts, images and styles with symbolic text, ids and links, with and without prologue", [1]),
            e("remove_marked", "removal by ids and classes over symbolic ids and class lists", [1]),
            e("remove_attributes", "patterns with element, name and value parts, separators and selectors over symbolic attribute values", [1]),
            e("remove_dimensions", "width, height and viewBox of symbolic numbers and units on root and nested svg elements", [1]),
        ],
    },
    "P30": {
        "note": "The root's attributes and classes after the job are compared with those before it and the options.",
        "assumptions": ["values without white space at their ends"],
        "entries": [e("add_to_root", "7 options over roots with symbolic attributes and class lists", [1])],
    },
    "P27": {
        "note": "The order of attributes is read off the serialised tag; the documented order, equality of the sets, idempotence and independence of the order given are checked.",
        "assumptions": ["with alphabetical order the place of namespace declarations is only checked for being the same whatever the order given"],
        "entries": [
            e("sort_attributes", "9 (thorough: 10) attributes, two of them any of 31 with up to two symbolic letters, 5 configurations, 3 rotations", [1]),
            e("sort_definitions", "4 (thorough: 5) definitions out of 14 names with up to two symbolic letters, recurring or not, with comments between them", [1]),
        ],
    },
    "P17": {
        "note": "Expanded names of elements and attributes are read by roxmltree before and after.",
        "assumptions": ["prefixes in attribute values (attributeName) aren't resolved"],
        "entries": [
            e("ns_unused", "declarations at two levels with symbolic prefixes, 4 namespaces, 9 uses of a symbolic prefix", [1]),
            e("ns_editors", "the same documents with and without an additional namespace", [1]),
            e("ns_editor_names", "9 namespaces of editors with any one character replaced by a symbolic one", [1]),
            e("ns_default", "the same documents, nested and prefixed svg elements", [1]),
            e("ns_xlink", "10 sets of xlink attributes on 8 elements with symbolic prefixes, redeclared prefixes and titles", [1]),
        ],
    },
    "P16": {
        "note": "The reference graph (element by element, attribute by attribute) is read off the XML before and after.",
        "assumptions": ["scripts and force are excluded", "timing references to ids of letters only"],
        "entries": [
            e("ids_cleanup", "two ids of 4 shapes with symbolic characters, 26 kinds of references to them or to nothing, 5 sets of options", [1]),
            e("ids_many", "60 ids to be renamed around a preserved id of one or two symbolic letters", [1]),
            e("ids_untouched", "documents with style sheets, scripts and event handlers", [1]),
            e("ids_prefixed", "the same references and 9 style sheets, 5 sets of options", [1]),
        ],
    },
    "P14": {
        "note": "The list of what is drawn (drawn shapes with resolved style, references replaced by their content) is computed before and after by an independent reading of SVG.",
        "assumptions": ["animations of elements without size are excluded, as documented", "geometry isn't set by style sheets", "the canvas shows exactly its viewBox"],
        "entries": [
            e("hidden_styles", "21 kinds of elements with 28 kinds of references to them, 16 conditions on the element times 16 on its group, 8 style sheets, symbolic opacities", [1]),
            e("hidden_sizes", "35 shapes with symbolic sizes (zero or not), 8 strokes and markers, drawn directly or by reference", [1]),
            e("hidden_options", "15 kinds of hidden elements times 15 options switched off, symbolic sizes", [1]),
            e("hidden_unused", "28 definitions with uses, symbolic ids that may or may not agree, 5 places, both orders", [1]),
            e("useless_defs", "the same documents", [1]),
            e("empty_containers", "19 containers with 12 contents and 7 effects, nested or not, symbolic sizes", [1]),
            e("empty_text", "16 texts with symbolic characters, 8 sets of options"),
            e("off_canvas", "10 outlines with up to two symbolic coordinates against 4 canvases, 4 strokes, 5 contexts", [0, 1]),
        ],
    },
    "P13": {
        "note": "Removal of default values, unknown content and attributes, useless strokes and fills, attributes groups don't hand on, deprecated and empty attributes: the picture before and after is compared by the harness's own renderer, which resolves cascade, inheritance, defaults by element, references, markers and paint servers.",
        "assumptions": ["shapes, text, gradients, filters, masks, clips, markers and patterns as far as the tables of harness/src/redundant.rs name their attributes", "no scripts; event handlers and data attributes aren't looked at"],
        "entries": [
            e("default_values", "each attribute of the table with its default, another value and one with a free digit, on its element, in a document that uses the element", [1]),
            e("default_inherited", "each presentation attribute on a shape, text, span or group, with an attribute, style, rule, inherit, use or id above that says otherwise", [1]),
            e("known_content", "each of 37 elements within each of 37, and unknown elements of other namespaces", [1]),
            e("known_attributes", "each presentation attribute and some unknown, namespaced, aria, data and event attributes on each kind of element, under each option", [1]),
            e("useless_paint", "stroke and fill attributes with free digits on a shape or text and on its group, with markers, styles, rules, ids and uses", [1]),
            e("group_attributes", "each presentation attribute with free digits on a g, a, svg or switch around a shape or text with another attribute, for four jobs", [1]),
            e("empty_attributes", "22 attributes on 7 elements, empty, blank or with one free byte", [1]),
        ],
    },
    "P11": {
        "note": "Inlining, merging, minifying and converting styles: the value every element gets for every property is resolved before and after by the harness's own cascade (origin, importance, specificity, order, inheritance, shorthands), with and without conditional rules applying.",
        "assumptions": ["two rules (or up to three sheets) with selectors and declarations of the tables of harness/src/styles.rs", "conditional rules and dynamic pseudo-classes apply all together or not at all"],
        "entries": [
            e("inline_rules", "each pair of 23 selectors, free class names, 4 pairs of declarations with free digits and importance, with what an element says for itself", [1]),
            e("inline_all_rules", "the same with rules for several elements, in one or two sheets", [1]),
            e("minify_rules", "the same through minifyStyles with each usage option", [1]),
            e("merge_sheets", "each pair of 39 sheets with free digits and a third one with media or type, merged, minified, inlined or merged and minified", [1]),
            e("style_to_attrs", "each of 56 declarations with a free digit, before or after another, on shapes, text and groups with competing attributes, rules and importance", [1]),
        ],
    },
    "P02": {
        "note": "Attribute values, style attributes, style sheets and path data with free characters go through the real parser, the default jobs and the serialiser; the engine reports a panic, an out-of-bounds access, or a path that exceeds the instruction limit.",
        "assumptions": ["one value at a time, with free characters out of those that mean something to a parser", "no job or the default preset"],
        "entries": [
            e("crash_values", "each attribute of the table of harness/src/values.rs with four beginnings and two free characters, and each of 45 usual values with a free or multi-byte character inserted or replaced at each place; read and written", [1]),
            e("crash_jobs", "each of 45 usual values disturbed at each place by a free (deep: two free) or multi-byte character, through the default jobs", [1]),
            e("crash_sheets", "four style sheets disturbed at each place, through the default jobs", [1]),
            e("crash_paths", "path data, points and transforms with up to four free characters, through the default jobs", [1]),
        ],
    },
    "P19": {
        "note": "Configuration files go through the real serde types and Optimise::resolve_jobs of the command line tool (its module is compiled into the harness); the jobs that result are compared with presets and overrides written down independently, and the effects of pairs of jobs on one document with exactly those expected.",
        "assumptions": ["a preset, up to two jobs and one omission", "options of the form of JOBS in harness/src/configs.rs with up to two free characters and each single flag turned", "the effects of the 32 rows of EFFECTS"],
        "entries": [
            e("config_resolve", "each of the 55 jobs with its options, with none or each preset, another job, omissions of it, of others and of names with one free letter; written and read again", [1]),
            e("config_effects", "each pair of 32 jobs, one of them switched off or omitted, on one document with free content", [1]),
            e("config_nothing", "no job or all that can be switched off, on the same document", [1]),
        ],
    },
}

NA = {
    "P25": "Not built: the lint rules run their files in parallel with rayon, which the wasm build of the harness can't execute, and a sequential substitute would not be the code under test.",
    "P26": "Not built within the time available; the actions are reachable for the engine, but an oracle for the embedded editing state has not been written.",
    "P28": "The converter is built on the swc compiler crates, which don't build for the wasm target that the symbolic executor interprets; checking it would only be possible by sampling.",
    "P29": "What is written is decided by file system calls (ignore's directory walk, threads, std::fs), which are outside what the symbolic executor models; checking it would only be possible by sampling.",
}
