#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": x.strip(), "meaning": observe, "where": files[0]} for x in state.split(",")]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

W, R, S, C = "src/io/write.rs", "src/io/read.rs", "src/sheet_.rs", "src/cell_.rs"
BK = "src/workbook_.rs"

p("P01", "Cells survive save and reload at their positions",
  "For every sheet built through the public API, saving (ODS or FODS) and reading it back yields exactly the same cells at exactly the same row/column positions: value, formula, cell style, content validation, row/column span, matrix span and repeated cells/rows, however large the gaps between cells. Nothing is added, dropped, moved or attached to another cell; cells that carry nothing at all, or only the style their row or column already gives them, may vanish. If a repeat count overlaps following data the save is refused with an error instead of shifting cells.",
  ["inputs", "histories"], "all sequences of sheet edits over any set of positions (0..1048575 rows, 0..16383 columns), value kinds, spans and repeats",
  "The writer fills gaps by counting deltas between neighbouring cells, rows, repeats and spans; errors show only for particular neighbourhoods, which samples do not enumerate.",
  [W, R, S, C], [("gap/repeat/span bookkeeping", "write_sheet, split_hidden, remove_outlived, write_cell"), ("position tracking and clone of repeats", "read_table, read_table_cell, calc_cloned_sheet, calc_repeat_sheet")],
  "cell map of a sheet before save and after reload", "sheet.data")

p("P02", "A saved table means the same to an independent ODF reader",
  "Every file this library reports as saved is a well-formed document in which an independent ODF reader, counting columns, rows and repeats by the standard, finds every cell with its value, formula, style, spans and validation at the position where the application put it. Positions covered by a span are marked as covered and only those; each row accounts for at most the table's declared columns; value attributes agree with the value type.",
  ["inputs", "histories"], "all sheets reachable through the public API",
  "Writer and reader errors that cancel out are invisible to round-trip tests; only an independent denotation of the file exposes them.",
  [W, "src/io/xmlwriter.rs"], [("table serialisation", "write_sheet, write_empty_rows_before, write_empty_cells, write_table_columns, write_cell"), ("element/attribute writer", "XmlWriter")],
  "bytes of content.xml / the flat document", "token stream of table:table")

p("P03", "Any valid table layout is read at the right positions",
  "For every valid table layout that another application may write - repeated rows, cells and columns in any split, covered cells, row and column groups, header rows and columns, optional wrapper elements, empty or expanded element forms - reading yields each cell, row and column attribute at the position the standard assigns to it. Reading with repeats kept instead of expanded, or with empty cells ignored, describes the same grid apart from the documented difference. (Rows repeated more than a thousand times within the last rows of a sheet are padding and may be cut to one.)",
  ["inputs", "configurations"], "all valid table element sequences and all read options",
  "The existing tests read only a few files by one producer; the number of equivalent encodings of one grid is unbounded.",
  [R, S], [("event driven table reader", "read_table, read_table_cell, read_table_row_attr, read_table_col_attr"), ("read options", "OdsOptions, calc_repeat_sheet, calc_cloned_sheet, ignore_cell")],
  "cell map and row/column getters after reading a generated file", "row/col counters of read_table")

p("P04", "Row and column attributes persist exactly where they were set",
  "Row heights, column widths, row and column styles, default cell styles and visibility belong to exactly the rows and columns they were set for, in memory (setting one row or column never changes another), in the saved file, and after reading it back, for any pattern of adjacent, equal, interleaved or isolated rows and columns, with or without cells in them, also when editing a document that was read from a file with repeated columns or rows (very long runs of equal rows that end a sheet, as padding written by office suites, may be cut).",
  ["inputs", "histories"], "all sequences of row/column attribute edits mixed with save and reload",
  "Attributes are run-length merged, split and re-merged; only particular adjacency patterns show an off-by-one.",
  [S, W, R], [("three-way split of headers", "create_split_row_header, create_split_col_header, valid_row_header, valid_col_header"), ("merge and resplit", "dedup_colheader, calc_col_headers, calc_row_header_styles, calc_col_header_styles"), ("serialisation", "write_table_columns, write_start_current_row, write_empty_row")],
  "row/column getters at every interesting index before and after reload", "sheet.row_header, sheet.col_header")

p("P05", "Header rows/columns and groups keep their ranges and nesting",
  "The range of header rows, the range of header columns and every row and column group (nested or side by side, shown or collapsed) come back after save and reload with exactly the same bounds and display state, wherever cells are or are not present, and the saved file nests the corresponding elements correctly around exactly those rows and columns. Groups that overlap without nesting are rejected.",
  ["inputs", "histories"], "all sets of properly nested groups and header ranges over all placements of data",
  "The element nesting interacts with gaps, run-length merged columns and range ends; tests use one or two fixed layouts.",
  [W, R, S], [("open/close bookkeeping", "write_start_current_row, write_end_prev_row, write_end_last_row, write_empty_rows_before, write_table_columns, calc_col_headers"), ("range recovery", "read_table"), ("group invariants", "add_row_group, add_col_group, Grouped::contains, Grouped::disjunct")],
  "header/group getters and the element nesting in the file", "sheet.group_rows, group_cols, header_rows, header_cols")

p("P06", "Text survives escaping in every place it can occur",
  "Any text made of characters XML can carry - markup characters, quotes, apostrophes, ampersands that look like entities, leading and trailing spaces, non-ASCII and astral characters - survives save and reload unchanged in every place the application can put it: cell text (one paragraph per line), formulas, sheet names, style and font names, currency symbols, annotations, validation messages, metadata and settings values, and it never damages the surrounding document. An independent XML parser sees the same text.",
  ["inputs"], "all strings over XML-legal characters, in all text positions of the document model",
  "The set of strings times the set of places is unbounded; tests use plain ASCII in a few places.",
  ["src/io/xmlwriter.rs", W, R], [("escaping", "XmlWriter::attr_esc, text_esc, elem_text_esc"), ("unescaping and entity handling", "read_text, read_text_or_tag, entity, decode_and_unescape_value")],
  "strings returned by getters after reload and by an independent XML parser", None)

p("P07", "Every cell value keeps its type and exact value",
  "Every boolean, number, percentage, currency amount, date-time and duration written to a file is read back as the same kind with the identical value (finite numbers bit for bit, date-times of four-digit years and times to the sub-second precision offered, negative durations included), and the value attribute in the file is the lexical form the standard prescribes for it. Values stored in any of the standard's accepted lexical variants by other programs are read as the value they denote.",
  ["inputs"], "all representable values of each kind, all lexical variants accepted by the standard",
  "The value domain is far too large to sample; errors hide at sub-second digits, signs, extreme exponents and years.",
  [W, R, "src/io/parse.rs", "src/io/format.rs", "src/value_.rs"], [("formatting", "write_cell, format_duration2, DATETIME_FORMAT"), ("parsing", "parse_duration, parse_datetime, parse_f64, parse_bool, set_value")],
  "Value before save / after reload, office:*-value attribute text", None)

p("P08", "References format to text that parses back to the same reference",
  "Every cell, row, column and range reference, with any combination of absolute markers, table name (quoted as needed for any name) and external document, formats to text that parses back to an equal reference, and parsing a single reference rejects text that is not one. Column letters and numbers convert to each other bijectively, containment tests agree with the bounds, and the formula helpers embed exactly the reference requested.",
  ["inputs"], "all rows, columns, absolute-flag combinations, table and document names; all strings for parsing",
  "Names, flags and coordinates multiply; tests check a list of literals.",
  ["src/refs.rs", "src/refs/format.rs", "src/refs/parser.rs", "src/formula.rs"], [("formatter", "fmt_cellref, fmt_cellrange, fmt_table_name, fmt_col"), ("parser", "parse_cellref, parse_cellrange, parse_cellranges, try_u32_from_colname"), ("formula helpers", "fcellref, frangeref and macros")],
  "Display output, parse results, accessors", None)

p("P09", "Cell edits in memory behave like a position-indexed map",
  "After any sequence of cell edits, every query about a position (value, formula, style, validation, spans, repeat, annotation, frames, emptiness, counts, used size) answers from the last edit of that aspect at that position; editing one aspect or one cell never alters another aspect or cell, removing a cell returns its full content, and re-adding that content restores it. Cloning a sheet is independent of the original, and a clone without data keeps everything but the cells.",
  ["histories"], "all sequences of cell edits and queries on a sheet",
  "Interactions between lazily allocated optional parts, removal and re-insertion only show for particular edit orders.",
  [S, C], [("cell store", "Sheet::set_value ... set_styled_value, add_cell, remove_cell, cell, cell_ref"), ("conversion", "CellData::into_cell_content, CellContent::into_celldata, cloned_cell_content, cell_content_ref"), ("copying", "clone_no_data")],
  "getters after each edit", "sheet.data")

p("P10", "Iteration and range queries visit exactly the cells asked for",
  "For every sheet and every range (bounded, unbounded, inclusive or exclusive end, empty), whole-sheet iteration and sub-range visit all stored cells in row-major order exactly once, row-wise rectangle iteration visits exactly the cells inside the rectangle in row-major order, and column-wise iteration exactly the same cells in column-major order. Every iteration terminates, and size hints and peeking are consistent with what is returned.",
  ["inputs", "histories"], "all cell populations and all ranges",
  "Termination and boundary errors depend on whether boundary cells exist and on the bound kind.",
  [S], [("iterators", "CellIter, IterRows, IterCols, Range, Sheet::iter_rows, iter_cols, range, iter")],
  "sequence of positions and contents produced by each iterator", "iterator position")

p("P11", "Sheet list operations keep order and contents",
  "After any sequence of adding, inserting, removing, renaming, detaching and re-attaching sheets, the workbook lists the sheets in the resulting order with their current names and contents, looking a sheet up by name finds the first match, a detached sheet returns to its own place with the changes made to it, and misuse (bad index, touching or attaching inconsistently) is reported instead of corrupting the list. The order, names and sheet-level attributes (style, display, print, print ranges) survive save and reload.",
  ["histories"], "all histories of sheet list operations, including detached sheets, and save/reload",
  "Only particular interleavings of detach, insert, remove and attach expose wrong placement.",
  [BK, "src/ds/detach.rs", W, R], [("sheet list", "WorkBook::push_sheet, insert_sheet, remove_sheet, sheet_idx"), ("detach protocol", "WorkBook::detach_sheet, attach_sheet; ds::detach")],
  "num_sheets, names and sheet contents after each step", "book.sheets")

p("P12", "Style and format registries never mix entries up",
  "Adding a style, format, font, page layout, master page, validation or extra file under a name stores it under that name and returns a reference that finds it again; entries added without a name get one that is unused, so nothing already stored is overwritten or lost; adding under an existing name replaces only that entry, removing removes only that entry, and listing shows exactly the stored entries of that kind. Default styles per value type are applied, on saving, exactly to cells of that type without an own style, and the default styles of a new workbook for a supported locale refer to existing formats of the right kind.",
  ["histories"], "all sequences of add/remove/get/list over every registry",
  "Automatic naming must avoid collisions for every history of explicit names, removals and reloads.",
  [BK, "src/style/mod.rs"], [("registries", "add_*/remove_*/iter_*/*_mut in workbook_.rs"), ("automatic names", "auto_style_name2")],
  "references, lookups and listings after each operation", "book.*styles, book.formats_*, autonum")

p("P13", "Styles, formats, fonts and page layouts survive save and reload",
  "Every table, row, column, cell, paragraph, text, ruby and graphic style, every number format with its parts and conditions, every font, page layout and master page with header and footer content is read back with the same name, display name, kind (named or automatic), parent and value-format links, properties and conditional mappings after save and reload; none is dropped, merged or assigned to another style. (The height or width stored with a style that rows or columns of a sheet use is theirs.)",
  ["inputs", "histories"], "all registries contents reachable through the public API",
  "There are hundreds of properties over a dozen style families and the file splits them over two parts; tests check single values.",
  [W, R, "src/style/", "src/format/"], [("serialisation", "write_styles, write_*style, write_valuestyle, write_pagestyles, write_masterpage, write_style_font_face"), ("parsing", "read_office_styles, read_office_automatic_styles, read_style_style, read_value_format, read_page_style, read_master_page")],
  "registry contents before save and after reload; style elements in the file", "book.*")

p("P14", "Content validations survive with conditions and messages",
  "Every content validation keeps its condition, base cell, allow-empty flag, list display mode, error message and help message (title, text, style, shown or not) under its name through save and reload, and cells keep referring to it. Condition builders produce the expression text the standard prescribes, with text operands quoted so that they cannot be misread.",
  ["inputs", "histories"], "all validations and condition expressions",
  "Nested optional parts and quoting make the combinations unbounded; the tests write one validation.",
  ["src/validation.rs", "src/condition.rs", W, R], [("serialisation", "write_content_validations, format_validation_condition"), ("parsing", "read_validations, read_validation, read_validation_help, read_validation_error"), ("condition builders", "Condition, ValueCondition, quote")],
  "validation registry before save and after reload; table:content-validation elements", "book.validations")

p("P15", "Document metadata survives save and reload",
  "Every metadata field the application sets (texts, keywords, dates, durations, counts, template, auto-reload, hyperlink behaviour, document statistics and user-defined fields of each type) is read back with the same value and type after save and reload, and is stored in the file under the standard's element; only generator-owned bookkeeping fields may be changed by saving.",
  ["inputs"], "all metadata values",
  "Each field has its own writer and reader branch with optional and empty forms.",
  ["src/metadata.rs", W, R], [("serialisation", "write_office_meta, calc_metadata"), ("parsing", "read_office_meta, read_metadata_*")],
  "Metadata before save and after reload; office:meta", "book.metadata")

p("P16", "Workbook and sheet view settings survive save and reload",
  "Every view setting of the workbook (active sheet, tabs, grid, page breaks) and of each sheet (cursor, splits, positions, zoom, grid) is read back for the same sheet after save and reload, and settings of every value type that were present in a file that was read are kept when it is saved again, each with its type, value, order and nesting.",
  ["inputs", "histories"], "all settings values and settings trees",
  "Settings are copied between typed fields and a generic tree by hand-written name lists; a swapped name shows only for distinct values.",
  ["src/config.rs", W, R, S], [("typed settings to tree", "calc_config"), ("tree to typed settings", "calc_derived"), ("tree serialisation", "write_config_item*, read_config_item*")],
  "config getters before save and after reload; office:settings", "book.config, sheet.sheet_config")

p("P17", "Content the library does not model is preserved",
  "Everything in a document that the library only carries along - extra package files with their bytes and media types, namespaces, scripts and event listeners, sheet-level and workbook-level extra elements (named expressions, database ranges, tracked changes, shapes, forms) - is still there, with the same content and in a valid place, after the document is read and saved again.",
  ["inputs"], "all valid documents containing pass-through parts",
  "Loss is silent: the file still opens and the modelled content is intact.",
  [R, W, "src/xmltree.rs", "src/manifest.rs"], [("generic XML", "read_xml, write_xmltag"), ("package extras", "read_ods_extras, write_ods_extra, create_manifest, write_ods_manifest"), ("scripts/listeners", "read_scripts, write_scripts, write_event_listeners")],
  "canonical XML trees and file bytes of input and output documents", "book.extra, sheet.extra, book.manifest")

p("P18", "All input and output routes agree",
  "The same document written as ODS through any entry point (path, buffer, stream, compressed, uncompressed, any compression option) or as FODS, and read through any entry point, yields the same document; a reading restricted to content yields the same sheets. Packages start with the uncompressed type marker and list every stored part exactly once.",
  ["inputs", "configurations"], "all documents and all pairs of write and read entry points",
  "The routes duplicate code paths for two formats and several sinks; each is tested with different documents, if at all.",
  [W, R], [("entry points", "write_ods*, write_fods*, OdsWriteOptions, read_ods*, read_fods*, OdsOptions"), ("package layout", "write_ods_impl, write_fods_content, read_ods_impl, read_fods_impl")],
  "documents obtained by every route", None)

p("P19", "An I/O failure is never reported as success",
  "If the destination fails at any point while saving (any byte, any write, flush or close), the save reports an error; if the source fails or ends early at any point while reading, the read reports an error. A save that reports success has delivered a complete, readable file.",
  ["fault_sequences"], "every failure position in every output and input stream",
  "Failure points are every single write and read call; no test injects one.",
  [W, R, "src/io/xmlwriter.rs"], [("error propagation", "write_ods*, write_fods*, XmlWriter"), ("error propagation on read", "read_ods_impl, read_fods_impl, loops over read_event_into")],
  "result of the call and the bytes that reached the destination", None)

p("P20", "Malformed input yields an error, never a crash or a hang",
  "Whatever bytes are offered for reading - truncated, corrupted or hand-crafted packages and flat files, with missing, empty, huge or nonsensical attributes and unexpectedly nested elements - the library returns a document or an error; it does not panic and does not loop forever. A document it returns can be queried and saved without crashing.",
  ["inputs"], "all byte sequences, in particular all single structural mutations of valid documents",
  "The space of malformed inputs is unbounded and no test feeds one.",
  [R, "src/io/parse.rs", "src/refs/parser.rs", S], [("arithmetic on counters", "read_table, read_table_cell"), ("event loops", "all read_* functions"), ("attribute parsing", "parse_*")],
  "outcome of read calls", None)

p("P21", "Saving does not change the document and cycles are stable",
  "Saving a document, in any format and any number of times, leaves everything the application can observe in it unchanged except bookkeeping (generator, counts, names of styles generated to carry heights and widths, the default cell styles applied on saving), and saving again produces a file with the same meaning. After one reload, further save and reload cycles change nothing at all, even when edits made between the saves are interleaved.",
  ["histories"], "all documents and all sequences of edits, saves and reloads",
  "Drift accumulates over cycles and depends on the order of saves in different formats; tests save once.",
  [W, R, BK], [("pre-save normalisation", "calculations, calc_row_header_styles, calc_col_header_styles, calc_col_headers, convert, create_manifest"), ("post-load normalisation", "calc_derived, calc_cloned_sheet, dedup_colheader")],
  "full projection of the document before/after save and across cycles", "book")

p("P22", "Rich cell content survives save and reload",
  "Formatted text (paragraphs, spans, links, lists, headings, special spaces, nested to any depth), annotations with author, date, text and attributes, and image frames with their image data, titles and descriptions come back after save and reload with the same structure, attributes, order and text, on the same cell, next to any cell value.",
  ["inputs"], "all trees of text content, all annotation and frame contents",
  "Tree shapes and mixed content orders are unbounded.",
  ["src/text.rs", "src/xmltree.rs", "src/draw.rs", W, R], [("generic trees", "read_text_or_tag, append_text, read_xml, write_xmltag, write_xmlcontent"), ("annotations and frames", "write_annotation, read_annotation, write_draw_frame, read_draw_frame, write_draw_image, read_image")],
  "canonical content trees before save and after reload", "CellData.value, CellDataExt")

p("P23", "Typed setters set the attribute they name, and only it",
  "Every typed setter of styles, page layouts, tab stops, fonts, formats, annotations, frames, images and text elements gives exactly the OpenDocument attribute it is named after (in the property group it belongs to) the text OpenDocument defines for its argument: enumeration words, lengths with their unit, percentages, angles, colours, flags, composed values such as borders and shadows, lists. Any number of calls in any order leaves every other attribute as it was; calling again replaces; setting the default or an unknown locale removes; the getters return what was set. Text element builders make the element of their name with text and children in the order they were added.",
  ["inputs", "histories"], "all sequences of setter calls with all argument values on objects of every kind",
  "There are over a thousand setters generated by macros; a wrong name, word or property group in one of them is valid Rust, and files with it load without complaint, so only a complete table of what the standard says exposes it.",
  ["src/macro_attr_style.rs", "src/macro_attr_fo.rs", "src/macro_attr_draw.rs", "src/macro_attr_svg.rs", "src/macro_attr_table.rs", "src/macro_attr_number.rs", "src/macro_attr_text.rs", "src/macro_style.rs", "src/style/units.rs", "src/text.rs", "src/style/mod.rs"],
  [("attribute macros", "macro_attr_*.rs"), ("text of argument types", "Display of the types in style/units.rs"), ("attribute maps", "AttrMap2")],
  "complete attribute maps of all parts of an object after the calls, and all getters", "AttrMap2 of each style part")

p("P24", "Number formats consist of the parts that were asked for",
  "A number, currency, percentage, date, time, text or boolean format built with the part builders or the one-step calls consists of exactly the requested parts in the order of the calls, each the OpenDocument element of its name with exactly the requested attributes and text (options under a condition only when it holds). The ready-made formats consist of the parts their documentation describes, carry the given locale, and nothing else. A workbook made for a bundled locale has a default format in that locale for every type of value, showing each component of the value once, and default cell styles that use them.",
  ["inputs", "histories"], "all sequences of part builders, options and argument values on every kind of format; all ready-made formats with all arguments",
  "Combinations of parts and options are unbounded; a wrong element, attribute or a doubled part shows only in an office suite.",
  ["src/format/builder.rs", "src/format/create.rs", "src/format/mod.rs", "src/macro_format.rs"],
  [("part builders", "PartNumberBuilder etc. in format/builder.rs"), ("ready-made formats", "format/create.rs"), ("one-step calls", "push_* in format/mod.rs")],
  "parts (element, attributes, content, position) and attributes of the format", "ValueFormat parts")

p("P25", "Typed values go in and come out unchanged",
  "Converting a native value (numbers of every width, booleans, texts, dates, times, durations, decimals, optional values, references, markup) into a cell value gives the cell type for it and the same content: None is empty, dates are at midnight, times on 1899-12-30, integers the nearest double (exact up to 2^53). Typed access answers exactly for values of its own type and otherwise gives the caller's alternative, the default or None; integer access takes the whole part and clamps to the type's range; what went in comes out; plain text of markup is its text in order with one line per paragraph. A value stored in a sheet answers the same through every way of reading the cell.",
  ["inputs"], "all native values of all supported types in all forms, all typed accesses on values of every kind",
  "Types, forms, accesses and value ranges multiply; border values of each width matter.",
  ["src/value_.rs", "src/cell_.rs", "src/xmltree.rs"], [("conversions", "From<T> for Value, from_number!"), ("typed access", "Value::as_*"), ("markup to text", "XmlTag::extract_text")],
  "results of all typed accesses on the converted value", "Value")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
