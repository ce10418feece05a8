W = "The suite feeds a handful of fixed documents through the converter; "
X = "src/extensions/"
P = []
def p(id, title, st, q, why, files, mech, **k): P.append(dict(id=id, title=title, st=st, q=q, why=why, files=files, mech=mech, **k))

p("C01", "Inline preprocessors never touch memory outside their buffers or hang",
  "For every input text the inline text preprocessors (CriticMarkup, highlight, insert, inline footnotes, superscript/subscript, emoji, special markers, abbreviations) return after finitely many steps a well-formed string, without reading or writing outside the objects they own, without using freed memory and without freeing twice.",
  "every byte string (any bytes, truncated constructs, empty text, constructs at the very end, contents that grow the output)",
  W + "an overflow needs a particular ratio of markup to text or a construct cut off at the end, which no fixed document samples, and the suite runs without sanitizers.",
  [X + f for f in ("critic.c", "highlight.c", "insert.c", "inline_footnotes.c", "sup_sub.c", "emoji.c", "special_markers.c", "abbreviations.c")],
  [("output capacity computed from the input length", "the malloc at the top of each apex_process_* function"), ("scan loops guarded by the terminating NUL", "main while loops of the processors")])
p("C05", "CriticMarkup accept, reject and markup modes are exact for every text",
  "Accepting changes yields the text with additions, new text of substitutions and highlighted text kept and deletions and comments removed; rejecting yields the text with deletions and old text kept and additions and comments removed; the markup mode wraps each change in its element, except in code, which it leaves as it is. In every mode the text outside well-formed constructs comes out unchanged, and incomplete constructs stay literal.",
  "every text and every mode", W + "they cannot enumerate unterminated, nested, adjacent or empty constructs in all three modes.",
  [X + "critic.c"], [("scan_critic_markup", X + "critic.c"), ("apex_process_critic_markup_text", X + "critic.c")])
p("C06", "==highlight== and ++insert++ mark exactly the delimited spans",
  "A span delimited by two equals signs (or two plus signs) on one line, with no whitespace just inside the delimiters and not a longer run of the delimiter, becomes a <mark> (<ins>) element with the same content; code (spans, fenced and indented blocks, also in quotes and lists), HTML tags, link destinations, URLs, CriticMarkup and every other byte of the text come out unchanged. An attribute list directly after an inserted span moves to the <ins> element.",
  "every text, including code contexts, delimiter runs and constructs at the edges", W + "the delimiter rules depend on the neighbouring bytes of both delimiters, which tests sample a few times.",
  [X + "highlight.c", X + "insert.c"], [("apex_process_highlights", X + "highlight.c"), ("apex_process_inserts", X + "insert.c")])
p("C07", "Inline footnotes become numbered references with matching definitions",
  "Every inline footnote (^[text] with balanced brackets, or [^text with spaces] on one line) outside code is replaced by a reference numbered in order of appearance, and exactly one definition with the same number and the exact text is appended per footnote. Everything else, including ordinary footnote references and code, is unchanged, whatever the number and length of the footnotes.",
  "every text, any number of footnotes", W + "numbering and content must agree for any number, order and length of footnotes.",
  [X + "inline_footnotes.c"], [("apex_process_inline_footnotes", X + "inline_footnotes.c")])
p("C08", "Superscript, subscript and underline markers convert exactly as documented",
  "Outside code spans, fenced and indented code, inline and display math, HTML tags, link destinations, URLs and Liquid tags, ^text (up to a blank, a punctuation mark or another caret) becomes <sup>, ~text becomes <sub>, a word between two tildes inside a word (H~2~O) becomes <sub> and text between two tildes becomes <u>; strikethrough tildes, footnote carets, lone dollar signs and every other byte come out unchanged.",
  "every text", W + "which element results depends on the bytes around both markers and on six kinds of surrounding context.",
  [X + "sup_sub.c"], [("apex_process_sup_sub", X + "sup_sub.c")])
p("C09", "Special markers become their elements and nothing else changes",
  "Each page break marker (<!--BREAK-->, {::pagebreak /}), each pause marker <!--PAUSE:n-->, each {index} marker and each end-of-block caret standing alone on its line is replaced by its element, wherever it stands outside code and however many there are; all other text, including code and near misses, comes out unchanged.",
  "every text", W + "positions, repetition counts and near misses of a marker are unbounded.",
  [X + "special_markers.c"], [("apex_process_special_markers", X + "special_markers.c")])
p("C10", "Abbreviation definitions are collected and whole-word uses wrapped",
  "Definitions (*[abbr]: text, [>abbr]: text and inline [>(abbr) text]) are removed from the text and collected with their exact trimmed name and expansion, whatever their length and number; all other text, code included, is kept byte for byte. In the output every whole-word occurrence of a defined name in running text, and every explicit reference, is wrapped in <abbr> with the (HTML-escaped) expansion of that name; tags, comments, code, character references and all else are unchanged.",
  "every text, any number and length of definitions", W + "word boundaries, overlapping names and buffer limits cannot be sampled by a few documents.",
  [X + "abbreviations.c"], [("apex_extract_abbreviations", X + "abbreviations.c"), ("apex_replace_abbreviations", X + "abbreviations.c")])
p("C11", "Heading IDs follow the chosen format's rules for every heading text",
  "The ID generated for a heading follows the documented rules of the chosen format (GFM, MMD or Kramdown): case folding, blanks and punctuation to dashes or removed, collapsing and trimming of dashes (GFM), diacritics and emoji names; it is never empty and its generation never reads or writes outside its buffers, for any heading text and length.",
  "every heading text and format", W + "they cover a few headings; the rules interact byte by byte (runs of punctuation, edges, multi-byte letters, cut UTF-8).",
  [X + "header_ids.c"], [("apex_generate_header_id", X + "header_ids.c"), ("apex_extract_heading_text", X + "header_ids.c")])
p("C12", "A manual heading ID is taken exactly when the heading ends with one",
  "A heading that ends in [id] or {#id} (text of its own, not part of a link or code) gets exactly that ID, escaped, and loses exactly that tail (attributes it already has are kept); any other heading is left untouched. The text of a heading is the concatenation of its text and code, whatever its length and number of parts.",
  "every heading text and heading node", W + "which bracket pair counts depends on nesting, blanks and what follows.",
  [X + "header_ids.c"], [("apex_extract_manual_header_id", X + "header_ids.c"), ("apex_process_manual_header_id", X + "header_ids.c"), ("apex_extract_heading_text", X + "header_ids.c")])
p("C13", "Emoji names become their emoji and everything else is unchanged",
  "Every :name: of the GitHub emoji table (in any letter case, with dashes or underscores) becomes its Unicode emoji or, for image emoji, its <img> element; unknown names and names in tags, comments, code, pre, script, style and textarea elements, index placeholders and table alignment rows stay, image emoji are sized to the text in headings, and every other byte is kept, in HTML as well as in plain-text output. The reverse lookup of an emoji gives a name of that same emoji.",
  "every text and all emoji names", W + "they use a few emoji; the table has over 800 entries and the contexts are arbitrary.",
  [X + "emoji.c"], [("apex_replace_emoji", X + "emoji.c"), ("apex_replace_emoji_text", X + "emoji.c"), ("apex_find_emoji_name", X + "emoji.c")])
p("C14", "Emoji autocorrection keeps right names and picks a closest known name",
  "With autocorrection on, a :name: that is a known emoji name is kept (normalised), a misspelt one is replaced by a known name at the smallest edit distance when that is within the limit, one without a close match is kept as it is, and text that is not an emoji name (code, HTML tags, times such as 10:30:00, scopes such as a::b::c, URLs and ports) is never altered, however many names there are.",
  "every text", W + "the closest name must be right for every misspelling, not for the one or two tested.",
  [X + "emoji.c"], [("apex_autocorrect_emoji_names", X + "emoji.c")])
p("C15", "The table of contents lists every heading in range, nested properly",
  "Each TOC marker (<!--TOC maxN minM-->, {{TOC}}, {{TOC:min-max}}) outside code is replaced by a list that holds every heading within the limits, in order, with its text escaped and a link to the heading's own ID, as properly nested lists in which deeper headings nest below the one before and equal headings are siblings. Headings marked no_toc are left out, markers in code stay literal and all other HTML is unchanged, for any number and order of headings.",
  "every sequence of headings, marker and surrounding HTML", W + "level sequences (skipping up and down), limits and long documents multiply beyond what fixed documents cover.",
  [X + "toc.c"], [("apex_process_toc", X + "toc.c"), ("generate_toc_html", X + "toc.c")])
p("C02", "Block and heading preprocessors never touch memory outside their buffers",
  "For every input the heading-ID functions, Markdown-in-HTML processing, index entry processing, CSV and inline tables, file includes, fenced divs and relaxed tables return after finitely many steps a well-formed string, without reading or writing outside the objects they own, without using freed memory and without freeing twice.",
  "every byte string (any bytes, truncated constructs, empty text, long tokens)",
  W + "an overrun needs a construct cut off at the end or a token around a buffer limit, and the suite runs without sanitizers.",
  [X + f for f in ("header_ids.c", "html_markdown.c", "index.c", "includes.c", "inline_tables.c", "fenced_divs.c", "relaxed_tables.c")],
  [("fixed-size local buffers and output capacity", "apex_generate_header_id, apex_process_html_markdown, apex_process_index_entries"), ("scan loops guarded by the terminating NUL", "main while loops of the processors")])
p("C03", "HTML postprocessors never touch memory outside their buffers or hang",
  "For every HTML text the postprocessors (table of contents, pretty-printing, callouts, index generation and insertion, fenced-div restoration) return after finitely many steps a well-formed string, without reading or writing outside the objects they own, without using freed memory and without freeing twice.",
  "every HTML text (unclosed tags, deep nesting, long attributes, many headings or index entries)",
  W + "an overrun needs a particular number or length of headings, titles or terms, and the suite runs without sanitizers.",
  [X + "toc.c", "src/pretty_html.c", X + "callouts.c", X + "index.c"],
  [("output capacity and growth", "apex_process_toc, apex_pretty_print_html, apex_process_callouts_in_tree, apex_generate_index_html")])
p("C16", "Callouts are recognised exactly and wrapped with their whole title",
  "A block quote whose text starts with [!TYPE] (any documented type or alias, in any case) becomes a callout of that type, with its fold state (+ open, - closed, none) and its whole title (the text after it on the line, up to the first inline markup), escaped, and the wrapper it opens is closed after it; the content after the title is kept. Every other block, including quotes with an unknown type, comes out unchanged and in order, wherever it stands in the document.",
  "every first line of a quote and every arrangement of blocks", W + "type names, fold marks, title lengths and positions combine beyond the few documents tested.",
  [X + "callouts.c"], [("apex_process_callouts_in_tree", X + "callouts.c")])
p("C17", "Pretty-printing changes nothing but white space, and none in code",
  "Pretty-printed HTML has the same tags, attributes, comments and text in the same order as the input; only white space differs, it is never removed between words or inline elements and is added only next to block elements, and the contents of pre and code elements come out byte for byte, for every nesting, length and malformed input.",
  "every HTML text", W + "the layout depends on every sequence of tags, text and line breaks.",
  ["src/pretty_html.c"], [("apex_pretty_print_html", "src/pretty_html.c")])
p("C18", "Markdown in HTML is rendered for exactly the elements that ask for it",
  "An HTML element with a markdown attribute (1, block, span, 0, in any quoting, among other attributes) outside code (blocks and spans) gets its content rendered as blocks, as inline text or left alone, keeps its tag and its other attributes and loses the markdown attribute; it is matched with its own closing tag however elements nest. All text, elements and content that do not ask for it, and elements that are not closed, come out unchanged, whatever their length and number.",
  "every HTML text", W + "attribute forms, nesting and lengths multiply beyond fixed documents.",
  [X + "html_markdown.c"], [("apex_process_html_markdown", X + "html_markdown.c")], note="Parser and renderer are replaced by a stand-in showing what they were given.")
p("C19", "Index entries are collected exactly and listed once, sorted, with links",
  "Every index entry in an enabled syntax (mmark, TextIndex, Leanpub) outside code is replaced by a placeholder and registered with its exact term, subitem and primary flag; all other text is kept. Each placeholder becomes an anchor, and the index lists every entry once, sorted by term and subitem, grouped by letter when asked, with its whole escaped text and a link to its own anchor, and stands at its marker, before the end of the body or at the end.",
  "every text and any number and length of entries", W + "the syntaxes, sort order and lengths cannot be enumerated by documents.",
  [X + "index.c"], [("apex_process_index_entries", X + "index.c"), ("apex_render_index_markers", X + "index.c"), ("apex_generate_index_html", X + "index.c"), ("apex_insert_index", X + "index.c")])
p("C20", "CSV and TSV data become tables with every cell in its place",
  "CSV or TSV text becomes a Markdown table whose first row is the header, whose second row sets the alignment exactly when all its cells are alignment words, and which holds every further row in order with exactly the header's number of cells, each cell verbatim (with pipes escaped). In a document exactly the ```table blocks and <!--TABLE--> blocks outside other code whose data contain tabs or commas are converted; all other text is kept. Tables of every shape and size fit.",
  "every CSV/TSV text and every document", W + "ragged rows, wide headers with many short rows, escapes and line-ending styles multiply beyond the tested tables.",
  [X + "includes.c", X + "inline_tables.c"], [("apex_csv_to_table", X + "includes.c"), ("apex_process_inline_tables", X + "inline_tables.c")])
p("C21", "Includes insert exactly the named file, lines and prefix, and terminate",
  "Every include outside code ({{file}}, <<[file], <<(file), <<{file}, /file at a line start) of an existing file is replaced by exactly the content it names: the whole file or, with an address, the documented lines (1-based, end exclusive, by number or pattern) with the prefix on each, as text, table, code block or image according to syntax and file type, with nested includes resolved against the including file's directory or transclude base. Wildcards take the preferred match. Cyclic includes end, nothing is cut off by size, and all other text is kept.",
  "every text, address, file set and file size", W + "addresses, file ends without newline, nesting and sizes multiply beyond the fixtures.",
  [X + "includes.c"], [("apex_process_includes", X + "includes.c"), ("extract_lines", X + "includes.c"), ("apex_resolve_wildcard", X + "includes.c")], note="regcomp/regexec and metadata extraction are replaced by stand-ins on both the symbolic and the native side; files are modelled in memory.")
p("C22", "Fenced divs become the elements they declare, closed in order",
  "Outside code, a line of at least three colons with attributes opens an element of the declared type (div by default) with exactly the declared id, classes and attributes (attribute values escaped), a line of colons alone closes the innermost open one, and elements still open at the end are closed there; stray closings, code blocks and all other lines are kept unchanged. Custom element types pass through rendering as placeholder divs and come out as exactly their element, however deeply nested and however long the name or the attributes.",
  "every document, attribute list, nesting depth and length", W + "nesting, unclosed fences, attribute forms and code contexts combine beyond the sampled documents.",
  [X + "fenced_divs.c"], [("apex_process_fenced_divs", X + "fenced_divs.c"), ("apex_postprocess_fenced_divs_html", X + "fenced_divs.c")])
p("C23", "Relaxed and headerless tables gain exactly the row they lack",
  "Outside code, two or more consecutive table rows with the same number of columns and no separator row of their own get one separator row of that width after the first; a separator row with no header row above it and a table row below gets one empty header row of its width. Single rows, rows of differing widths, tables that have a header and a separator, code and all other lines come out unchanged and in order, whatever the number and size of the tables.",
  "every document", W + "runs of rows end in many ways (blank line, text, rule, separator, fence, end of text with or without newline) and rows come with and without outer pipes.",
  [X + "relaxed_tables.c"], [("apex_process_relaxed_tables", X + "relaxed_tables.c"), ("apex_process_headerless_tables", X + "relaxed_tables.c")])
M = X + "metadata.c"
p("C24", "Document metadata is taken exactly, and ordinary text never",
  "A document that starts with a YAML front-matter block (an opening --- line and its own closing --- or ... line), MultiMarkdown key: value lines or Pandoc % lines yields exactly the items written there, keys and values trimmed and in full whatever their length (YAML lists joined, nested maps as dotted keys), and the text that follows the block remains byte for byte. A document that starts with anything else yields no metadata and is left unchanged; a metadata file in any of the three formats yields the same items, and a missing one none.",
  "every document start and every length of key, value and block", W + "front matter ends in many ways (closing line with blanks, dots, end of text) and any text may look like a key.",
  [M], [("apex_extract_metadata", M), ("apex_load_metadata_from_file", M)], note="libyaml is replaced by a stand-in document tree on both sides; both its acceptance (flattening) and refusal (the simple parser) are covered.")
p("C25", "Metadata variables and their transforms expand exactly as documented",
  "Every [%key] whose key is known (ignoring case and spaces) is replaced by its whole value and every [%key:transform...] by the documented result of the chain (case, trim, slug, split, join, slice, replace, pad, default, ...), characters being UTF-8 characters and out-of-range or missing arguments being harmless; unknown keys and all other text, including unclosed [%, come out unchanged, for any number of variables and length of values.",
  "every text, value, chain and argument", W + "transforms combine with every value and argument, negative and huge numbers and empty matches included.",
  [M], [("apex_metadata_replace_variables", M), ("apply_transform", M), ("split_string", M)], note="regcomp/regexec and strftime are replaced by small stand-ins on both sides.")
p("C26", "Metadata from command line, file and document merges by precedence",
  "A --meta argument yields exactly its KEY=VALUE pairs, commas inside quoted values and values with = or spaces included; looking up a key ignores case and spaces; and merging any number of lists, empty ones included, gives for every key the value of the last list that has it, keeps every key, and invents none.",
  "every argument and every combination of lists", W + "quoting, separators and key spellings combine beyond single examples.",
  [M, "cli/main.c"], [("apex_parse_command_metadata", M), ("apex_metadata_get", M), ("apex_merge_metadata", M)])
p("C27", "Metadata keys set exactly the option they name",
  "Each documented metadata key (mode, style, title, id-format, wikilinks, pretty, ...), in any letter case, with a valid value sets exactly its own option and no other; values that are not valid for it and unknown keys change nothing; and mode takes effect first wherever it stands.",
  "every key, value and previous option state", W + "there are dozens of keys, each against every value and starting state.",
  [M], [("apex_apply_metadata_to_options", M)])
A = "src/apex.c"
p("C31", "Liquid tags pass through every stage and output format untouched",
  "Every complete {% ... %} tag comes out byte for byte where it stood, in HTML and in every other output format, however many there are, however long they are, whatever they contain and whatever stands next to them: no stage that rewrites text after includes are resolved, and not the parser, ever sees one. All text around the tags is unaffected by their presence.",
  "every tag content, neighbouring text, number of tags, mode, option and output format", W + "each stage can touch a tag's content and each output format has its own restoration.",
  [A], [("apex_markdown_to_html", A)], note="the other stages, the parser and the renderers are stand-ins; the literal text of an internal placeholder is outside the bounds.")
p("C32", "Bare URLs and addresses become links only where they are text",
  "With autolinking on (and the mode having it), every bare http(s) URL and e-mail address in running text becomes a link whose target is exactly the URL or address without trailing punctuation and unbalanced closing brackets; URLs in code spans, code blocks, HTML tags and comments, existing links, reference definitions and metadata, and all other text, come out unchanged; with it off nothing changes.",
  "every text, URL, context and length", W + "URLs occur in every context (code, HTML, links, lists, ends of sentences), far more than tests sample.",
  [A], [("apex_preprocess_autolinks", A)])
p("C28", "Each option and mode runs exactly its own stages on the whole text",
  "Converting a document runs exactly the processing stages that the mode and the options call for, each once, on the full result of the previous one, in an order in which later stages see what earlier ones produced (variables before autolinks, includes before all markup, header IDs before the TOC, plugins after rendering, pretty-printing last), with their own option values; the parser gets exactly the given bytes as complete lines, the enabled syntax extensions and option bits; the output format decides the serializer, filters are told the format, and a failing strict filter aborts. Each mode starts with exactly its documented features.",
  "every mode, option combination, document and output format", W + "there are dozens of options, five modes and twelve formats, and each pair interacts.",
  [A], [("apex_markdown_to_html", A), ("apex_options_for_mode", A), ("apex_register_extensions", A), ("apex_to_cmark_options", A)], note="every stage, the parser and the renderers are stand-ins that record that they ran; what they do is the subject of the other properties.")
p("C30", "A standalone document frames its content exactly and safely",
  "A standalone document is the doctype, an html element with the given language, the head (charset, generator, the escaped title with existing entities kept, one link per stylesheet in order or else the default style, the HTML Header metadata), the rendered content byte for byte, the HTML Footer, the scripts, and the closing tags, once each, whatever the title, language, paths and content are and however long they are: no value can break out of its place. Embedding replaces a stylesheet link by the content of its file when the file is readable; without a title the first level-one heading's text is used.",
  "every content, title, language, stylesheet list, metadata and length", W + "values meet quotes, angle brackets, entities and document ends that examples do not.",
  [A], [("apex_wrap_html_document", A), ("apex_extract_first_h1_text", A), ("apex_markdown_to_html", A)])
p("C33", "Alphabetic lists become lettered lists and nothing else changes",
  "With alpha lists on, lines starting with consecutive letters and a dot or bracket form an ordered list styled lower- or upper-alpha that starts at the written letter, keeping each item's text, nesting and continuation lines; initials, single letters in prose, code blocks and all other text are unchanged and the internal placeholder never reaches the output.",
  "every document", W + "letters begin lines in prose, code and nested lists alike.",
  [A], [("apex_preprocess_alpha_lists", A), ("apex_postprocess_alpha_lists_html", A)], note="the literal text of the internal placeholder typed in a document is outside the bounds.")
p("C34", "Table captions and column spans change tables only",
  "In a table (a header line directly above a separator row, and the following lines with pipes; not in code) a run of adjacent unescaped pipes becomes column-span cells; a caption next to a table ([text], Table: text or : text, with an optional attribute list) becomes the table's caption paragraph with exactly its text and attributes. All other text is unchanged: prose with pipes or colons, code blocks, definition lines, Table: lines that no table follows, and every cell's content.",
  "every document", W + "pipes, brackets and colons occur in all kinds of text, next to and far from tables.",
  [A], [("apex_preprocess_table_captions", A), ("apex_preprocess_table_colspans", A)])
p("C35", "Obfuscated e-mail links still lead to and show the same address",
  "With obfuscation on, the target and the text of every mail link come out with each character written as one numeric entity for exactly that character (a multi-byte UTF-8 character is one entity, an entity already there stays as it is), so that a browser shows and opens the same address; markup inside the link text, ordinary links and all other text are unchanged.",
  "every link target, link text and surrounding HTML", W + "addresses hold entities, non-ASCII characters and query parts that one sample lacks.",
  [A], [("apex_obfuscate_email_links", A), ("apex_encode_hex_entities", A)])
p("C36", "Local images are embedded as exact data URLs, all else is kept",
  "With image embedding on, the source of each img element that names a readable local file (relative to the base directory) becomes a data URL with the type of its extension in any letter case and the base64 of exactly the file's bytes; remote, data, missing, empty and non-file sources, other attributes, other elements and malformed tags are unchanged.",
  "every file content and length, file name, tag and surrounding HTML", W + "each file length modulo three, attribute order and quoting gives another case.",
  [A], [("apex_embed_images", A), ("apex_base64_encode", A), ("apex_read_and_encode_image", A)])
p("C37", "HTML finishing passes change exactly what they are for",
  "Widont joins the trailing words of a heading with non-breaking spaces until they exceed ten visible characters, keeping inline markup; the page-break options replace each hr element and precede the footnotes section; the poetry option gives the class to exactly the code blocks without a language; hashed footnote IDs give notes and references one common prefix of eight hexadecimal digits that depends on every byte of the document; paragraphs of only blanks and zero-width spaces disappear. Everything else in the HTML is unchanged byte for byte, at any length.",
  "every HTML text", W + "each pass meets attributes, inline tags, look-alike element names and long documents.",
  [A], [("apex_apply_widont_to_headings", A), ("apex_replace_hr_with_pagebreak", A), ("apex_add_poetry_class_to_code_blocks", A), ("apex_add_hash_to_footnote_ids", A), ("apex_compute_document_hash", A), ("apex_remove_empty_paragraphs", A)])
p("C38", "Hashtags and proofreader marks act only in running text",
  "With hashtags on, a # at the start of a line or after a blank followed by a letter or digit becomes a span (of the styled class if asked) up to the next blank or punctuation; in proofreader mode ==text== and ~~text~~ within a paragraph, delimited by runs of exactly two next to the text, become CriticMarkup highlights and deletions. Code spans, code blocks, HTML tags and comments, links, existing CriticMarkup and all other text are unchanged.",
  "every text, context and length", W + "the same characters occur in headings, colours, URLs, code and link fragments.",
  [A], [("apex_preprocess_proofreader", A), ("apex_markdown_to_html", A)])
p("C39", "Mixed list markers merge adjacent lists without reordering or loss",
  "Where mixed markers are allowed, directly adjacent lists of different kinds become one list of the first one's kind and start number that holds all items in document order (loose if any of them is loose), at every nesting level; lists of the same kind, lists with anything between them, and every other block stay as they are, and where they are not allowed nothing changes.",
  "every block structure", W + "runs of lists, nesting and loose lists combine in more ways than tests sample.",
  [A], [("apex_merge_mixed_list_markers", A)], note="the tree functions of cmark are a model on the solver side and the real library in replays.")
CI = "src/extensions/citations.c"
p("C40", "Citations become formatted references; the bibliography lists each cited entry",
  "Where citations are enabled, [@key], [-@key], [@a, p. 3; @b], @key, @key [p. 3] (and mmark references) in running text, and [#key] and [text][#key] of MultiMarkdown, become a citation element naming the keys in order and showing author, year and locator of the bibliography entry (the key itself if there is none), linked if asked; mail addresses, code, HTML, link destinations and escapes are unchanged, as is all other text. The bibliography holds each cited entry with its fields exactly once, in the order of first citation, at the marker or at the end, and is left out if suppressed or empty.",
  "every text, key, entry and length", W + "@ and brackets occur in addresses, links, code and HTML, and groups, locators and keys of any length combine.",
  [CI], [("apex_process_citations", CI), ("apex_render_citations", CI), ("apex_insert_bibliography", CI)])
p("C41", "Bibliography files are read exactly",
  "From BibTeX, CSL JSON and CSL YAML files every entry is read once, found by its key, with exactly the values of its fields (type, title, author, year, journal, publisher, volume, pages) whatever their order, quoting, nesting, escapes, layout and length; comments, strings, preambles and unknown fields are skipped, damaged and truncated files are read without harm, files are looked up relative to the base directory, and of entries with the same key in several files the first file's counts.",
  "every file content", W + "bibliographies are exported by other programs, in many layouts, and can be damaged.",
  [CI], [("apex_parse_bibtex", CI), ("apex_parse_csl_json", CI), ("apex_parse_csl_yaml", CI), ("apex_load_bibliography", CI)])
AJ = "src/ast_json.c"
p("C42", "Documents survive the round trip through Pandoc JSON for filters",
  "For documents of CommonMark's nodes, the JSON written for AST filters is valid, has the shape of Pandoc's document model and stands for exactly the document: every block and inline with its text, level, URL, title, code language, list kind, start number, delimiter and tightness, in order and nesting, for text of any bytes and length. Reading it back gives the same tree. What a filter writes (keys in any order, extra keys, white space, any escape, elements without content) is read as the tree it stands for, and output that is cut off is rejected as a whole.",
  "every tree and text, every filter output", W + "trees nest without limit and filters are other programs, whose JSON layout is their own.",
  [AJ], [("apex_cmark_to_pandoc_json", AJ), ("apex_pandoc_json_to_cmark", AJ)], note="the tree functions of cmark are a model on the solver side and the real library in replays; tables, footnotes and definition lists, for which the JSON writer has no form, are outside.")
PE = "src/plugins_env.c"; PG = "src/plugins.c"; FA = "src/filters_ast.c"
p("C43", "Plugin and filter commands get all their input; only a success changes the text",
  "A plugin command is run by the shell in the plugin's directory and gets one JSON object with version, plugin_id, phase and text, exactly; what it prints becomes the text if it ends with status 0 and prints something, and otherwise (it fails, is killed, cannot be started, prints nothing or exceeds timeout_ms) the text stays as it is. Whatever and whenever it reads and writes, the program neither waits for ever on a command that goes on, nor is ended by it; afterwards all descriptors are closed, the command is waited for and signal handling restored. AST filters run in turn, told the output format, each on the result of the one before; a failing one or invalid JSON stops the conversion in strict mode and is skipped otherwise.",
  "every interleaving of program and command", "pipes fill, commands end early or hang, and the outcome depends on the schedule: tests see one of them.",
  [PE, FA], [("apex_run_external_plugin_command", PE), ("apex_run_piped_command", PE), ("apex_run_ast_filters", FA)], note="the kernel's side (pipes of 4 or 64 KB, fork, poll, signals, the command as an automaton) is a model, in the replays too; which schedules exist is decided by it.")
p("C44", "Plugins run in order, in their phase; declarative ones replace every match",
  "Every usable manifest (plugin.yml or plugin.yaml in a subdirectory, a flat .yml or .yaml file, or an entry of a bundle, with front matter, a phase and a valid pattern) in the project's, the base directory's, the repository's and the user's plugin directory becomes one plugin; of those with the same id in a phase the nearest counts. In each phase plugins run in order of priority (100 if absent), then id, whatever the directory order, each on the result of the one before. A declarative plugin replaces every match of its pattern, and nothing else, by the template with $0 to $9 filled in, honouring flags i and m. During a command APEX_PLUGIN_DIR, APEX_SUPPORT_DIR and APEX_FILE_PATH have the documented values, and afterwards their previous ones.",
  "every set of plugins, pattern and text", W + "directories list in any order, priorities tie, and patterns match nothing, overlap or anchor.",
  [PG], [("apex_plugins_load", PG), ("apex_plugins_run_text_phase", PG)], note="the regular expression engine, directories and the manifest reader are stand-ins on the solver side (the manifest reader is C24's subject); replays use the C library's regular expressions.")
p("C45", "Markdown written for a document reads back as the same document",
  "Writing a document as Markdown (apex_cmark_to_markdown, every dialect) and reading the result gives the same document: the same blocks in the same nesting (quotes, bullet and ordered lists with their start number, delimiter and tightness, headings with their level, rules, HTML, tables with alignments), code blocks with the same content and info string, and the same inline structure (emphasis, code spans, links and images with URL, title and text, breaks, inline HTML). Text that looks like markup stays text.",
  "every document tree that has a Markdown form and every content of its texts", W + "any character can be markup somewhere, and containers nest.",
  ["src/ast_markdown.c"], [("apex_cmark_to_markdown", "src/ast_markdown.c")], note="trees without a Markdown form are outside (emphasis in the middle of words next to other emphasis, text that starts or ends in blanks, lists of the same kind of number side by side, paragraphs that must touch in a tight list), as are {{TOC}} markers in MultiMarkdown output, which lose their parameters by design. The reader on the solver side is written from the specification; replays read with the real cmark-gfm.")
SH = "src/extensions/syntax_highlight.c"; CM = "cli/main.c"
p("C46", "Syntax highlighting colours code blocks and runs nothing from the document",
  "With a highlighter chosen, every code block of the HTML is given to that tool with exactly its text (entities decoded) on standard input and its language, if any, as one argument; line numbers, language-only and terminal output are honoured; the tool's output replaces exactly that block, and a block the tool fails on or prints nothing for, like everything outside code blocks, stays byte for byte as it was. No text of the document reaches the shell other than as that quoted argument. Without a highlighter, or if it is unknown or not installed, the HTML is unchanged.",
  "every HTML, code, language, length and tool outcome", W + "code blocks hold any text, languages come from the document, and tools fail or answer with output of any size.",
  [SH], [("apex_apply_syntax_highlighting", SH)], note="the tool is a stand-in that records its command line and input; delivery of the bytes through pipes is C43's subject.")
p("C47", "Merging and combining write every file in order, whole, or report failure",
  "--mmd-merge writes the files an index lists, in order, each with its headings one level deeper per tab or four spaces of indentation and otherwise unchanged, separated by a blank line; comments, blank lines and missing files are skipped. --combine writes the files given, and those a SUMMARY.md links to, in order, with includes resolved relative to each file and a blank line between them. Output goes to the named file or standard output; if any of it cannot be written, or an index cannot be read, the exit status is not 0.",
  "every index, summary, file content and output medium", W + "indices nest and name files in other folders, and media fill up at any byte.",
  [CM], [("apex_cli_mmd_merge_index", CM), ("apex_cli_combine_from_summary", CM), ("apex_cli_finish_output", CM)], note="include resolution is a stand-in here (C21).")
p("C48", "The program hands the converter the whole document and exactly its metadata",
  "The whole input, from a file or standard input in pieces of any size, reaches the converter once; the metadata that goes with it is the union of global configuration, project configuration, --meta-file, the document and --meta, a later one winning, and every value arrives exactly as it was, whatever characters it holds, with the body unchanged; modes without metadata get the text alone. The base directory and the input path are those of the input unless given. The output is exactly the conversion's result, in the place asked for, and the exit status is 0 only if all of it was written.",
  "every input, metadata value, source and read size", W + "metadata values hold quotes, colons, backslashes and brackets, and five sources combine.",
  [CM, M], [("main", CM), ("apex_cli_write_yaml_scalar", CM), ("parse_yaml_metadata", M)], note="the converter and libyaml are stand-ins; the front matter is read back by an independent YAML reader and by the real simple reader.")
p("C49", "Every command-line option does exactly what it says, in any position",
  "Each documented flag sets exactly its own option(s), whatever the mode's defaults, wherever it stands on the command line (also before --mode) and whatever the metadata says: flags override metadata. Repeated and comma-separated stylesheets, bibliographies, scripts and filters arrive complete and in order; filters from the folder run in name order, before named ones, and every filter path reaches the shell as one word; terminal output is wrapped at the asked width between characters, other output never. Unknown options, missing and invalid arguments and missing filters are refused without converting.",
  "every combination of options, their order and arguments", W + "over a hundred flags combine with each other, with mode defaults and with metadata.",
  [CM], [("main", CM), ("wrap_ansi_to_width", CM)], note="pairs of flags; the converter and the file system's folders are stand-ins.")
p("C50", "Installing or removing a plugin or filter touches only the entry named",
  "--uninstall-plugin/-filter removes exactly the named entry of the user's folder, only after a yes, and refuses names that are not plain entries. --install-plugin/-filter clones exactly the repository the directory gives for that id (or, after a yes, the URL or GitHub shorthand given) into an entry named by the id, never over an existing one, or installs just the file the directory names, executable; the post-install command runs once, in the plugin. No part of an id, URL, path or manifest is interpreted by the shell or as an option. On any refusal or failure nothing is changed or left behind and the exit status is not 0.",
  "every id, address, directory entry, manifest, answer, earlier state and failing step", W + "names and addresses hold quotes, slashes, dots and shell characters, and every step can fail.",
  [CM, "src/plugins_remote.c"], [("main", CM), ("cli_run", CM), ("extract_plugin_id_from_repo", CM), ("normalize_plugin_repo_url", CM)], note="commands act on a file system of the harness (nothing real is run or removed).")
p("C51", "The remote directory is read exactly and listed with what is installed",
  "Every entry of the fetched JSON directory that has an id and a repo is listed, in order, with its title, author, description and homepage exactly as the JSON gives them (escapes decoded), whatever the order of its members, other or nested members and characters inside texts; an entry is found by its own id only. --list-plugins also lists each installed plugin once, the one that would run, and leaves installed ones out of those available.",
  "every well-formed directory and set of installed plugins", W + "texts hold quotes, braces and escapes and may look like other members.",
  ["src/plugins_remote.c", CM], [("apex_remote_parse_array", "src/plugins_remote.c"), ("apex_remote_extract_string", "src/plugins_remote.c"), ("cli_collect_installed_from_root", CM)], note="curl is a stand-in.")
p("C52", "Code comes through every stage of the conversion byte for byte",
  "Whatever the mode and however many extensions are on, text in fenced code blocks, indented code blocks and code spans (also in quotes and list items) reaches the Markdown parser byte for byte, even if it looks like a highlight, footnote, include, table, div, abbreviation, citation, index entry, emoji, marker, URL, hashtag or list; and the code elements of the rendered HTML come out of the finishing stages byte for byte.",
  "every kind of code, every construct of every extension, every mode and option set", W + "each stage reads the text on its own; any one of some twenty that overlooks one kind of code breaks it.",
  [A, X + "code_skip.h", X + "highlight.c", X + "includes.c"], [("apex_markdown_to_html", A), ("apex_process_includes", X + "includes.c"), ("apex_process_highlights", X + "highlight.c"), ("apex_process_sup_sub", X + "sup_sub.c")], note="metadata variables and accepted or rejected changes apply everywhere by design; the parser and the sources left out of the build are stand-ins.")
