NA = []
IN = ["inputs"]
SC, PA, TK = "src/scanner/mod.rs", "src/parser.rs", "src/scanner/tokens.rs"
AS, BL, INL, LI, ME = "src/graph/asg.rs", "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/lists.rs", "src/graph/metadata.rs"
EX = "The tests compare a fixed set of example documents with recorded output; "

prop("C01", "Any text is converted or rejected with an error; never a crash or hang",
     "For every text, however malformed, scanning, parsing, JSON output, HTML output and DOCX output each come to an end, either with a result or with a reported error. They never panic, overflow the stack, end the process or run forever, and JSON output is always well formed.",
     IN, "every UTF-8 text: markup fragments in any order, damaged documents, deep nesting, arbitrary characters",
     EX + "none feeds in malformed, truncated or deeply nested markup, where index arithmetic, unwraps and recursion go wrong.",
     [SC, PA, TK, AS, BL, INL, LI, ME, "src/backends/htmls.rs", "src/backends/docx/document.rs"],
     [("character-boundary-safe lookahead", SC), ("error propagation instead of unwraps", PA), ("block stack draining at the end of input", PA)],
     ["Scanner iterator", "Parser::parse", "serde_json::to_string_pretty(&Asg)", "render_htmlbook", "render_docx"],
     "Random and damaged texts; termination is judged by CPU time (20 s for inputs of a few kilobytes).")

prop("C02", "The tokens of a text spell out exactly that text, at their true positions",
     "For every text the scanner accepts, the source fragments of its tokens, laid end to end, give back the text exactly, nothing skipped, repeated or reordered (except what shares a line with a tag directive), followed by a single end-of-input token. Every token reports the line and the first and last byte column where its fragment lies in the text, where a description list term and the line directly below its marker count as one line.",
     IN, "every UTF-8 text",
     EX + "token tests check single constructs in isolation, so lost characters or shifted positions after a construct, next to multi-byte characters or at the end of input go unseen.",
     [SC, TK], [("start/current/line bookkeeping", SC), ("lookahead that does not consume", SC)],
     ["Scanner iterator", "Token fields"],
     "Random texts and generated documents, compared with positions recomputed from the text alone.")

prop("C03", "No word of a document is lost, duplicated or moved by parsing",
     "Whatever inline and block markup surrounds it, correctly closed or not, every word of running text of a document the parser accepts appears in the tree exactly once, and the words appear in document order. Words that are apart in the source never run together.",
     IN, "every arrangement of uniquely named words with span marks, list markers, headings, labels, block delimiters, breaks, cells and blank lines",
     EX + "text goes missing or is moved only for particular neighbours of constructs (unclosed marks, adjacent blocks, ends of input).",
     [PA, INL, BL, LI], [("inline stack and its flushing", PA), ("handling of unclosed spans and macros", PA + " / " + INL), ("draining of open blocks", PA)],
     ["JSON tree"], "Random arrangements of marked words with a text-order oracle that needs no model of the markup.")

prop("C04", "Sections nest by heading level and hold exactly what is below their heading",
     "A heading becomes a section of its level whose title is the heading's text, inline markup included. The section holds, in order, every block up to the next heading of the same or a higher rank, and lies directly inside the closest preceding section of a higher rank, or at the top of the document; never inside another kind of block.",
     IN, "every sequence of headings of levels 1 to 4, including skipped levels, with any blocks in between and with or without a document title",
     EX + "only a few short heading sequences occur in them, mostly with paragraphs in between.",
     [PA, AS, BL], [("parse_section_headings", PA), ("Asg::push_block / Block::push_block level comparison", AS + " / " + BL), ("takes_block_of_type", BL)],
     ["JSON tree"], "Generated heading sequences and documents compared with a reference construction of the section tree.")

prop("C05", "Inline markup parses to exactly the elements that were written",
     "Bold, italic, monospace, literal, highlighted, superscript and subscript spans (single or double marks, nested, glued to words, with roles, across lines), links, bare URLs, cross references, footnotes, inline images, passthroughs and hard line breaks each become one element of that kind with its form, roles, target and contents as written. The text around and between them is kept unchanged and in order, and nothing else appears.",
     IN, "every nesting and sequence of these elements in paragraphs, titles, list items, table cells and other text",
     EX + "they cover one or two elements at a time, never the combinations.",
     [SC, PA, INL, TK], [("constrained/unconstrained mark rules", SC), ("parse_inline_span and the inline stack", PA), ("macro opening and closing", PA)],
     ["JSON tree"], "Generated inline trees, written out as source and compared with the parse.")

prop("C06", "Marks that do not form markup stay in the text as they are",
     "Span marks that are never closed, marks surrounded by spaces or inside of words, brackets, braces and other punctuation that forms no markup stay in the text literally. They neither start nor end an element, do not remove characters, and do not affect markup elsewhere in the document.",
     IN, "every text of words, complete markup and stray marks, in paragraphs, titles, list items, labels, cells and delimited blocks, and whatever follows it",
     EX + "few contain a stray mark, and none checks what follows.",
     [SC, PA, INL], [("constrained mark rules", SC), ("handle_dangling_spans", PA)],
     ["JSON tree"], "Generated paragraphs with stray marks compared with a reference parse.")

prop("C07", "Listing, literal and passthrough blocks keep every line exactly as written",
     "Whatever lies between the delimiters of a listing, literal or passthrough block, markup, blank lines, indentation, other delimiters or special characters, is the text of that block, unchanged and in full. It is not interpreted, apart from callouts in listings, and does not affect what follows the block.",
     IN, "every sequence of lines other than the closing delimiter and include directives",
     EX + "their listings are one or two harmless lines.",
     [PA, SC, BL], [("open_parse_after_as_text_type", PA), ("pass_text_through", PA)],
     ["JSON tree", "HTML"], "Random lines of markup and arbitrary characters, compared verbatim.")

prop("C08", "List items, their text and their attached blocks stay together and in order",
     "Consecutive items with the same marker form one list in source order, items with another marker directly below an item form a list nested in it, and blocks attached with a continuation line belong to the item they follow, in order. Description list terms keep their own text, callout lists their numbers; items never lose, swap or share contents.",
     IN, "every combination of unordered, ordered, description and callout lists, nested two levels deep, with multi-line text and attached blocks of every kind, inside and outside of other blocks",
     EX + "few nest lists of different kinds or attach more than one block.",
     [PA, LI, BL], [("close_list_items_until", PA), ("block_continuations", PA), ("parse_description_list_term splitting", PA)],
     ["JSON tree"], "Generated lists compared with the document model.")

prop("C09", "Delimited blocks, admonitions and quotes hold exactly what is inside of them",
     "A sidebar, example, open, quote, verse or admonition block contains exactly the blocks between its delimiters, in order, and what follows the closing delimiter is outside of it, at any nesting depth. Admonition labels and attributes, quotes and verses yield blocks of that kind, with attribution and citation as given.",
     IN, "every nesting of these blocks (no block inside of one with the same delimiter) holding blocks of every kind, followed by any other block or the end of input",
     EX + "they hardly nest blocks and mostly hold a single paragraph.",
     [PA, BL, SC], [("parse_delimited_parent_block and open_delimited_block_lines", PA), ("close_last_block", PA), ("admonition handling", PA)],
     ["JSON tree"], "Generated block nestings compared with the document model.")

prop("C10", "Tables keep every cell, in order, and the right number of columns",
     "A table has one cell per cell written, in source order, each with its formatted text, including the lines below it up to the next cell. Its number of columns is the one declared (list, multiplier or number) or else that of the first row, and it has a header row exactly if a first row of several cells directly follows the opening delimiter.",
     IN, "every table of plain or formatted cells, rows on one line or a line per cell, at the top level or inside of other blocks",
     EX + "three small tables.",
     [PA, SC, BL, ME], [("parse_table_cell", PA), ("consolidate_table_info", BL), ("simplify_cols", ME)],
     ["JSON tree"], "Generated tables compared with the document model.")

prop("C11", "Comments never show in, or change, the result",
     "Adding comment lines at any line of a document below its title and outside of verbatim text, or comment blocks next to a blank line, with whatever contents, leaves the parsed document as it was, with the source positions of what follows moved down by the added lines.",
     IN, "every generated document, every place a comment may go, every comment text",
     EX + "comments occur in two of them.",
     [SC, PA], [("parse_comment", PA), ("comment tokens", SC)], ["JSON tree"],
     "Metamorphic: a generated document against the same document with comments put in.")

prop("C12", "Attribute references are replaced by the value in force at that point",
     "A reference to a document attribute is replaced by the value most recently defined above it, in the header, the body or an included file, as plain text that isn't markup; references to undefined names, and references in verbatim blocks, stay as they are written. The header's title and its attributes, empty ones included, are reported with the document, and header lines are not part of its text.",
     IN, "every header and every sequence of definitions, redefinitions and references in text of all kinds",
     EX + "they define an attribute once and use it once.",
     [PA, SC], [("parse_attribute / parse_attribute_reference", PA), ("document_attributes", PA)], ["JSON tree", "HTML"],
     "Generated definition/reference sequences against a reference environment.")

prop("C13", "Including a file gives the same document as pasting its text",
     "A document divided at block boundaries into files that include each other, at any depth, from any directory, relative to the including file, has the same blocks as the whole document, where a file with headings ends ahead of a heading of at least that rank. The same goes for blocks included inside of delimited blocks and list items, and every included element reports the file and line it comes from.",
     ["inputs", "configurations"], "every generated document, every way of dividing it into files, directories and include depth",
     EX + "two fixed include trees.",
     [PA, SC], [("parse_include and its nested scanner", PA), ("file stack", PA)], ["JSON tree"],
     "Metamorphic: the divided document against the whole one, in a scratch directory.")

prop("C14", "Include selections insert exactly the chosen lines",
     "Including a file by line numbers or ranges, or by one or more tags, inserts exactly those lines of the file, in file order, without tag directives, whether it's AsciiDoc or any other text file. What is not selected leaves no trace.",
     IN, "every file of numbered lines with nested or successive tagged regions, every list of line numbers, ranges and tags",
     EX + "one selection of each kind.",
     [PA, "src/utils.rs"], [("extract_page_ranges", "src/utils.rs"), ("tag selection", PA)], ["JSON tree"],
     "Generated files and selections against a line filter.")

prop("C15", "Cross references show the title of the element they point to",
     "A cross reference to the id of a titled element (a section, a titled block or a captioned image) anywhere in the document, before or after the reference and at any depth, carries that title, with its inline markup, as its text. References to other ids, or to ids of nothing, keep their target and have no text.",
     IN, "every document of sections and blocks with and without ids and titles, with references in paragraphs, lists, tables, titles and other blocks",
     EX + "one reference to one section.",
     [AS, INL, BL], [("consolidate_xrefs / document_id_hash", AS), ("attempt_xref_standardization", INL)], ["JSON tree"],
     "Generated documents with known ids compared with the document model.")

prop("C16", "Images are looked for relative to the file that names them",
     "With target resolution, a document is accepted only if every local image, named in any block or inline of the starting document or an included file, exists relative to the file that names it, and otherwise it's refused with an error. Without it all images are accepted, and in either case targets are reported exactly as written; an included file that doesn't exist is always an error.",
     ["inputs", "configurations"], "every include tree of directories and every relative or absolute image target, existing or not",
     EX + "one fixed tree.",
     [PA, INL, BL], [("target resolution on images", PA)], ["JSON tree"],
     "Generated include trees of files and images against path arithmetic, in a scratch directory.")

prop("C17", "Footnotes are numbered in order and each text is found under its number",
     "Standardising the footnotes of a document replaces each of them, wherever it is, by a raised reference numbered 1, 2, 3 and so on in document order, and puts their texts, formatted as written, at the end of the document under the same numbers, with links both ways. Nothing else in the document changes, and a document without footnotes does not change at all.",
     IN, "every document with footnotes in paragraphs, lists, tables, nested blocks and spans",
     EX + "a single document with two footnotes.",
     [AS, BL, INL], [("standardize_footnotes", AS), ("extract_footnotes", BL)], ["Asg::standardize_footnotes + JSON tree", "HTML"],
     "Generated documents against a reference transformation of the parsed tree.")

prop("C18", "Every element reports where it is in the source",
     "The location of each block and inline element, from the line and column of its first character to that of its last, is where it is written in the source, including delimiters and markers, for documents of any shape and with multi-byte characters.",
     IN, "every generated document (attribute references and passthroughs, whose text is not at a place of its own, are excepted)",
     EX + "positions are recorded for small documents only; drift after particular constructs goes unseen.",
     [SC, PA, TK, "src/graph/nodes.rs", BL, INL, LI], [("line/column bookkeeping", SC), ("consolidate_locations / Location::reconcile", "src/graph/nodes.rs")],
     ["JSON tree"], "Generated documents compared with the positions the generator wrote them at.")

prop("C19", "HTML output shows everything in the document, with the right elements",
     "Every accepted document becomes a complete, well formed page that has the title of the document. Its body has exactly the structure of the parsed blocks and inlines: the same blocks in the same order and nesting, with their titles, classes, ids, targets, alternative texts and attributions, lists, table rows and headers, footnotes and all text. Text of listings and literal blocks shows as it was written.",
     IN, "every parsed tree, from generated documents and from arbitrary text",
     EX + "a dozen recorded HTML files.",
     ["src/backends/htmls.rs", "templates/htmlbook/block.html.tera", "templates/htmlbook/inline.html.tera", "templates/htmlbook/leafblocks.html.tera", "templates/htmlbook/tables.html.tera", "templates/htmlbook/htmlbook.html.tera"],
     [("tera templates", "templates/htmlbook"), ("render_htmlbook", "src/backends/htmls.rs")], ["render_htmlbook"],
     "The output, parsed, against an independent renderer working on the JSON tree.")

prop("C20", "DOCX output is a valid package with all text in the right styles",
     "For every document the DOCX output is a readable package whose paragraphs, in order, hold the text of the parsed blocks in the paragraph styles for their kind, with runs formatted as the inline markup says, numbering of its own for each ordered list, tables with their rows and cells, images, footnotes set off in the text, and page breaks. What the format does not support (titles of quotes, open blocks and tables, captions, attributions of verses) is left out without disturbing the rest.",
     IN, "every parsed tree from generated documents",
     EX + "nothing looks inside of a DOCX file at all.",
     ["src/backends/docx/document.rs", "src/backends/docx/styles.rs", "src/backends/docx/numbering.rs", "src/backends/docx/mod.rs"],
     [("DocxWriter", "src/backends/docx/document.rs")], ["render_docx, word/document.xml"],
     "The unpacked document.xml against an independent renderer working on the JSON tree.")

prop("C21", "The command line program does what its options say",
     "The program converts a file or standard input to the requested format, writes it to the requested file, to standard output, or next to the source with the right extension, and gives exactly what the library gives for that document. It counts words with -c, writes nothing else and never changes its input, and on failure says so on standard error with a non-zero exit status.",
     ["inputs", "configurations"], "every combination of input and output arguments, formats and options, and valid, broken, missing or unreadable inputs",
     "No test runs the program.",
     ["src/bin/asciidocr/main.rs", "src/bin/asciidocr/cli.rs"], [("option handling", "src/bin/asciidocr/main.rs")], ["exit status, standard output and error, files"],
     "Random command lines in a scratch directory against a model of the program and the library's own output.")

prop("C22", "Text extraction and word counts cover exactly the document's text",
     "The full text of a document is the text of all its sections, blocks and inlines in order, with what belongs to different blocks kept apart, and the word count is the number of words in it. The document title, markup, attributes, targets and comments do not count.",
     IN, "every parsed tree from generated documents and arbitrary text",
     EX + "two sentences.",
     [AS, BL, INL], [("all_text / word_count", AS)], ["Asg::all_text", "Asg::word_count"],
     "Against text gathered from the JSON tree.")

prop("C23", "Extra blank lines do not matter, and blocks do not affect each other",
     "More blank lines between blocks, inside of delimited blocks or at the end of a document change nothing but positions. Every block and section of a document, taken as a document of its own, gives just what it gives in the document, apart from the lines it starts on.",
     IN, "every generated document, its blocks and sections taken alone, and every placement of extra blank lines",
     EX + "state leaking from one block into the next shows only in combinations.",
     [PA], [("state reset at block ends", PA)], ["JSON tree"],
     "Metamorphic: padded documents and parts of documents against the originals.")

prop("C24", "Ids, roles, attributes and titles go to the block they precede, and only that",
     "Anchors, roles, named attributes, source languages, attributions and titles written above a block, in any order and quoted or not, are reported with that block, exactly and completely, and with no other block.",
     IN, "every generated document with metadata ahead of any of its blocks (titles on the kinds of block that have them)",
     EX + "metadata is checked on a handful of blocks, in one order.",
     [ME, PA, BL], [("ElementMetadata parsing", ME), ("add_metadata_to_block", PA)], ["JSON tree"],
     "Generated documents compared with the document model.")

prop("C25", "Character replacements happen exactly where they should",
     "Symbols such as (C), arrows, dashes between words, possessive apostrophes, typographic quotes and character references become the documented character wherever they occur in running text, and everything else is left alone.",
     IN, "every text mixing words, spans and these sequences, in all kinds of blocks",
     EX + "one replacement per test, alone in its line.",
     [SC, TK, PA, "src/graph/substitutions.rs"], [("charref scanning", SC), ("Token literals", TK)], ["JSON tree"],
     "Generated text compared with the document model.")

prop("C26", "Level offsets shift exactly the headings in their scope",
     "A level offset, set in the document or given on an include, absolute or relative, shifts the level of every heading in its scope by that much and nothing else; the offset of an include ends with it. A heading that would leave the supported levels is reported as an error.",
     ["inputs", "configurations"], "every sequence of headings, offsets and includes with offsets",
     EX + "one offset.",
     [PA], [("level_offset, get_heading_level", PA)], ["JSON tree", "errors"],
     "Generated documents and include trees against arithmetic on levels.")

prop("C27", "Converting a document twice, or alongside others, gives the same result",
     "Parsing and rendering the same source again, in the same process, after any other documents, or at the same time on other threads, gives the same tree, the same HTML and the same errors.",
     ["inputs", "histories", "schedules"], "every set of documents converted in any order and on several threads",
     "Each test converts one document once.",
     [PA, "src/backends/htmls.rs"], [("no shared state", PA)], ["JSON tree", "HTML"],
     "Repeated and concurrent conversions compared with each other (thread timing is not controlled).")

prop("C29", "Windows line endings make no difference",
     "A source whose lines end in carriage return and line feed gives the same tree, source positions included, or the same error, as with plain line feeds.",
     IN, "every UTF-8 text and every generated document",
     EX + "all of them with plain line feeds.",
     [SC], [("normalisation of newlines", SC)], ["JSON tree", "errors"],
     "Metamorphic: every source with either line ending.")

prop("C28", "Every parsed tree is well formed",
     "For every text the parser accepts, the tree is one the output formats can rely on: known node kinds with their required members, only list items in lists and only cells in tables, sections only inside of sections and of a deeper level than those, no lists without items, and positions with elements in source order and inside of their parents. The positions lie within the source, save for text that comes from an attribute's value.",
     IN, "every UTF-8 text",
     EX + "all of them well-behaved documents.",
     [PA, AS, BL, INL, LI], [("graph construction", PA)], ["JSON tree"],
     "Random texts and damaged documents against a validator of the JSON tree.")
