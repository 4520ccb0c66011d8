//! Entry points executed symbolically (as wasm) and replayed natively.
pub mod sym;

#[cfg(target_arch = "wasm32")]
mod alloc;
#[cfg(target_arch = "wasm32")]
#[global_allocator]
static ALLOC: alloc::Bump = alloc::Bump;

macro_rules! entries {
    ($($name:ident = $f:path),* $(,)?) => {
        $(
            #[cfg(target_arch = "wasm32")]
            #[unsafe(no_mangle)]
            pub extern "C" fn $name() {
                sym::init();
                $f();
            }
        )*
        /// Entry points by name, for the native replay.
        pub fn entry(name: &str) -> Option<fn()> {
            match name {
                $(stringify!($name) => Some($f),)*
                _ => None,
            }
        }
    };
}

mod colors;
mod configs;
mod attrs;
mod groups;
mod hidden;
mod tree;
mod select;
mod xml;
mod values;
mod jobs;
mod shapes;
mod transforms;
pub mod opt;
mod color;
mod crash;
mod css;
mod geom;
pub mod svg;
mod path;
mod paths;
mod redundant;
mod styles;
mod removal;
mod ids;
mod nss;
mod sorts;
mod pathread;

entries! {
    config_resolve = configs::resolve,
    config_effects = configs::effects,
    config_nothing = configs::nothing,
    path_free = path::free,
    path_numbers = path::numbers,
    path_commands = path::commands,
    smoke = opt::smoke,
    collapse_groups = groups::collapse_groups,
    elems_to_group = groups::elems_to_group,
    group_to_elems = groups::group_to_elems,
    transform_lists = transforms::lists,
    transform_matrices = transforms::matrices,
    shape_lengths = shapes::lengths,
    shape_surroundings = shapes::surroundings,
    apply_commands = transforms::apply_commands,
    apply_strokes = transforms::apply_strokes,
    path_separators = path::separators,
    transform_triples = transforms::triples,
    color_hex = colors::hex,
    color_functions = colors::functions,
    color_names = colors::names,
    color_current = colors::current,
    values_round_trip = values::round_trip,
    values_rounding = values::rounding,
    xml_attributes = xml::attributes,
    xml_texts = xml::texts,
    xml_names = xml::names,
    xml_namespaces = xml::namespaces,
    xml_styles = xml::styles,
    text_shown = xml::text_shown,
    text_optimised = xml::text_optimised,
    select_pairs = select::pairs,
    select_chains = select::chains,
    select_symbols = select::symbols,
    select_typed = select::typed,
    tree_edits = tree::edits,
    tree_parsed = tree::parsed,
    optimise_styles = paths::styles,
    remove_elements = removal::elements,
    remove_marked = removal::marked,
    remove_attributes = removal::attributes,
    remove_dimensions = removal::dimensions,
    add_to_root = removal::additions,
    sort_attributes = sorts::attributes,
    sort_definitions = sorts::definitions,
    ids_cleanup = ids::cleanup,
    ids_many = ids::many,
    ids_untouched = ids::untouched,
    ids_prefixed = ids::prefixed,
    hidden_styles = hidden::hidden_styles,
    hidden_sizes = hidden::hidden_sizes,
    hidden_options = hidden::hidden_options,
    hidden_unused = hidden::hidden_unused,
    useless_defs = hidden::useless_defs,
    empty_containers = hidden::empty_containers,
    empty_text = hidden::empty_text,
    default_values = redundant::default_values,
    default_inherited = redundant::default_inherited,
    known_content = redundant::known_content,
    known_attributes = redundant::known_attributes,
    useless_paint = redundant::useless_paint,
    group_attributes = redundant::group_attributes,
    empty_attributes = redundant::empty_attributes,
    inline_rules = styles::inline_rules,
    inline_all_rules = styles::inline_all_rules,
    minify_rules = styles::minify_rules,
    merge_sheets = styles::merge_sheets,
    style_to_attrs = styles::style_to_attrs,
    crash_values = crash::crash_values,
    crash_jobs = crash::crash_jobs,
    crash_sheets = crash::crash_sheets,
    crash_paths = crash::crash_paths,
    off_canvas = hidden::off_canvas,
    ns_unused = nss::unused,
    ns_editors = nss::editors,
    ns_editor_names = nss::editor_names,
    ns_default = nss::default_namespace,
    ns_xlink = nss::xlink,
    optimise_options = paths::options,
    optimise_pairs = paths::pairs,
    attr_edits = attrs::edits,
    class_edits = attrs::classes,
}
