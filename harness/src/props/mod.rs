pub mod data;
pub mod iters;
pub mod kinds;
pub mod layout;
pub mod machine;
pub mod model;
pub mod parse;
pub mod parse_total;
pub mod reads;
pub mod roundtrip;
pub mod snap;
pub mod tables;
pub mod vals;
pub mod xml;

use crate::engine::*;

struct Quiet;
static QUIET: Quiet = Quiet;

impl log::Log for Quiet {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // Messages are formatted, so that formatting them is exercised too.
        let s = format!("{}", r.args());
        std::hint::black_box(s.len());
    }
    fn flush(&self) {}
}

pub fn install_logger() {
    let _ = log::set_logger(&QUIET);
    log::set_max_level(log::LevelFilter::Trace);
}

fn sub(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Sub {
    Sub { name, f, quick: if quick < 100 { quick } else { quick * 2 }, thorough }
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a case counts when the input is not plain rubbish: it is XML the reader accepts, or a damaged SVG file",
            assumptions: &["roxmltree decides which texts are well-formed XML"],
            subs: vec![
                sub("damaged", parse_total::damaged, 200_000, 2_000_000),
                sub("valid", parse_total::valid, 100_000, 1_000_000),
                sub("dense", parse_total::dense, 150_000, 2_000_000),
                sub("slots", parse_total::slots, 150_000, 1_500_000),
                sub("soup", parse_total::soup, 150_000, 1_500_000),
                sub("large", parse_total::large, 4_000, 60_000),
            ],
        },
        Prop {
            id: "C02",
            rule: "a case counts when the file keeps at least three elements (tree), or the two spellings differ (spelling)",
            assumptions: &[],
            subs: vec![sub("tree", parse::c02_tree, 200_000, 2_000_000), sub("spelling", parse::c02_spelling, 75_000, 800_000)],
        },
        Prop {
            id: "C03",
            rule: "a case counts when at least one style sheet rule matched an element or an element has several styling sources",
            assumptions: &["simplecss tokenizes style sheets"],
            subs: vec![sub("cascade", parse::c03_cascade, 360_000, 3_000_000)],
        },
        Prop {
            id: "C04",
            rule: "a case counts when the file has at least two references",
            assumptions: &[],
            subs: vec![sub("links", parse::c04_links, 300_000, 2_500_000)],
        },
        Prop {
            id: "C05",
            rule: "a case is a history of editing calls on a new or parsed document; it counts when at least five calls had an effect (parsed: at least three references in the file)",
            assumptions: &["attribute and user lists are not edited behind the API's back (attributes_mut, linked_nodes_mut)", "removed nodes are not used again", "linked elements keep a non-empty id"],
            subs: vec![sub("links", machine::c05_links, 180_000, 3_000_000), sub("parsed", machine::c05_parsed, 90_000, 1_500_000)],
        },
        Prop {
            id: "C06",
            rule: "a case is a history of tree edits; it counts when at least five calls had an effect",
            assumptions: &["no node is inserted into its own subtree", "insert_before and insert_after are used on nodes that have a parent", "removed nodes are not used again"],
            subs: vec![sub("tree", machine::c06_tree, 240_000, 4_000_000)],
        },
        Prop {
            id: "C07",
            rule: "a case is a forest with a history of moves and a pattern of front and back calls, all axes of all nodes are checked; it counts when it has at least five nodes",
            assumptions: &["the tree is not edited during an iteration"],
            subs: vec![sub("iters", iters::c07_iters, 480_000, 3_000_000)],
        },
        Prop {
            id: "C08",
            rule: "a case is a history of editing calls with removals; it counts when at least five calls had an effect and one of them is a removal or drain",
            assumptions: &["the root node itself is not removed", "removed nodes are not used again"],
            subs: vec![sub("remove", machine::c08_remove, 240_000, 4_000_000)],
        },
        Prop {
            id: "C09",
            rule: "a case is a history of editing calls with copies; it counts when at least five calls had an effect and one of them is a copy (independent: at least two edits after the copy)",
            assumptions: &["the root node itself is not copied", "linked elements keep a non-empty id"],
            subs: vec![sub("copy", machine::c09_copy, 120_000, 3_000_000), sub("independent", machine::c09_independent, 80_000, 2_000_000)],
        },
        Prop {
            id: "C10",
            rule: "a case is a history of attribute calls; it counts when at least five calls had an effect",
            assumptions: &["attributes_mut is used only to change plain values in place, not to add, remove or relink attributes"],
            subs: vec![sub("attrs", machine::c10_attrs, 160_000, 4_000_000)],
        },
        Prop {
            id: "C11",
            rule: "a case counts when the document has at least three elements (edited: at least two edits had an effect)",
            assumptions: &["numbers stay below 2^31, which is what svgtypes prints", "no two text nodes are next to each other"],
            subs: vec![
                sub("parsed", roundtrip::c11_parsed, 120_000, 3_000_000),
                sub("built", roundtrip::c11_built, 120_000, 3_000_000),
                sub("edited", roundtrip::c11_edited, 80_000, 2_000_000),
            ],
        },
        Prop {
            id: "C12",
            rule: "a case is a document and write options; it counts when the document has at least three elements",
            assumptions: &["numbers stay below 2^31, which is what svgtypes prints", "no two text nodes are next to each other"],
            subs: vec![sub("options", roundtrip::c12_options, 240_000, 4_000_000)],
        },
        Prop {
            id: "C13",
            rule: "a case is a document and write options; it counts when the document has at least three elements",
            assumptions: &["the document has one root-level element and no text outside of it", "no two text nodes are next to each other", "attribute names are XML names and no two are written alike", "svgtypes prints single values"],
            subs: vec![sub("layout", layout::c13_layout, 160_000, 4_000_000), sub("parsed", layout::c13_parsed, 60_000, 1_500_000)],
        },
        Prop {
            id: "C14",
            rule: "a case counts when the file has an attribute with a typed value",
            assumptions: &[],
            subs: vec![sub("values", parse::c14_values, 640_000, 4_000_000), sub("each", parse::c14_each, 480_000, 3_000_000)],
        },
        Prop {
            id: "C15",
            rule: "a case counts when some text element has at least two text pieces",
            assumptions: &[],
            subs: vec![sub("text", parse::c15_text, 480_000, 3_000_000)],
        },
        Prop {
            id: "C16",
            rule: "a case counts when some text element has at least two text pieces and a preserve setting occurs",
            assumptions: &[],
            subs: vec![sub("preserve", parse::c16_preserve, 640_000, 4_000_000)],
        },
        Prop {
            id: "C17",
            rule: "all: the whole tables; names: a string made from a known name or two; files: a file with one element and one attribute; pairs: such files for every tenth attribute name; a names or files case counts when its name is known or differs from a known one by a small edit",
            assumptions: &["the tables of names are the SVG 1.1 ones plus line-height, font-face and xlink names that the crate lists"],
            subs: vec![sub("all", tables::c17_all, 16, 64), sub("pairs", tables::c17_pairs, 20_000, 500_000), sub("names", tables::c17_names, 600_000, 3_000_000), sub("files", tables::c17_files, 400_000, 2_000_000)],
        },
        Prop {
            id: "C18",
            rule: "all: the whole tables; nodes: a parsed or built element or other node with attributes, all its queries; a nodes case always counts",
            assumptions: &["the category tables are the SVG 1.1 ones linked from the documentation"],
            subs: vec![sub("all", tables::c18_all, 16, 64), sub("nodes", tables::c18_nodes, 400_000, 1_000_000)],
        },
        Prop {
            id: "C19",
            rule: "a case is a history of editing calls, then dropping the document and the handles in some order; it counts when the history has at least five calls (parsed: the file is longer than 60 bytes)",
            assumptions: &["memory is measured by a counting global allocator"],
            subs: vec![sub("drop", machine::c19_drop, 160_000, 2_000_000), sub("parsed", machine::c19_parsed, 120_000, 1_500_000)],
        },
        Prop {
            id: "C20",
            rule: "values: a value of a random kind under a random name; print: a document built by API calls, all its nodes, counts when it has at least three elements",
            assumptions: &["svgtypes prints single values"],
            subs: vec![sub("values", kinds::c20_values, 300_000, 4_000_000), sub("print", kinds::c20_print, 120_000, 2_000_000)],
        },
        Prop {
            id: "C21",
            rule: "a case is a history of editing calls; it counts when at least five calls had an effect",
            assumptions: &["ids and names are set on elements only, texts on other nodes only"],
            subs: vec![sub("data", machine::c21_data, 160_000, 3_000_000)],
        },
        Prop {
            id: "C22",
            rule: "a case is a document made by a history of editing calls and a list of questions, asked in order, then backwards while results of other queries are held; it counts when there are at least four nodes",
            assumptions: &["nothing is held that allows changes (attributes_mut, text_mut, linked_nodes_mut)", "removed nodes are not asked"],
            subs: vec![sub("reading", reads::c22_reading, 100_000, 2_000_000)],
        },
        Prop {
            id: "C23",
            rule: "parsing: a file that is parsed, then again after other files; counts when it is longer than 60 bytes; editing: two histories of editing calls in turns; counts when both have at least five calls",
            assumptions: &["nodes are not moved or linked from one document to another"],
            subs: vec![sub("parsing", reads::c23_parsing, 100_000, 1_500_000), sub("editing", reads::c23_editing, 50_000, 1_000_000)],
        },
    ]
}
