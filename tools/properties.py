"""The table of the properties, from which meta.py writes properties.jsonl and MANIFEST.json."""
MODEL = "property-based testing: paired generator of a document and its expected HTML (reference model), tree comparison, shrinking"
MODEL_NOTE = "Generated-input search against a model built by the generator itself: every choice writes both AsciiDoc and the HTML it must give. Bounded by the number and the size of the documents; says nothing about markup which the generator does not write (listed in DESIGN.md)."
CONV = ["libasciidoc.go", "pkg/parser/parser.peg", "pkg/parser/document_processing.go", "pkg/renderer/sgml/sgml.go"]
OBS = ["the output of libasciidoc.Convert"]
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, technique=technique, note=note, **kw))


prop("P01", "Conversion ends, without crash, hang or leaked goroutine, on any input",
     "For any bytes given as a document and any configuration, a conversion returns (a result or an error) within a bounded time and memory. It never panics, and once it has returned no goroutine which it started is still alive.",
     ["inputs", "configurations"], "every byte string: well-formed documents of every kind of content, damaged ones, soups of AsciiDoc markup, raw characters; every back-end and a sample of attributes",
     "The unit tests convert a fixed list of documents, nearly all of them well-formed; a crash needs a combination of markup which nobody has written down. The pipeline runs in goroutines, so a panic ends the whole process of the user.",
     ["libasciidoc.go", "pkg/parser/document_processing.go", "pkg/parser/document_processing_apply_substitutions.go", "pkg/parser/document_processing_arrange_lists.go", "pkg/parser/parser.peg", "pkg/renderer/sgml/render_plain_text.go"],
     [("conversion pipeline of goroutines and channels", "pkg/parser/document_processing.go ParseDocument"), ("type switches which assume what the parser gives", "pkg/parser/document_processing_apply_substitutions.go, pkg/renderer/sgml/sgml.go")],
     ["return of libasciidoc.Convert", "exit of the process", "number of goroutines after the return", "processor time and memory"],
     "property-based fuzzing: grammar-aware soups, mutated well-formed documents and raw bytes in watched worker processes", "Random and structured documents; the oracle is termination without panic, without more than 30 s of processor time or 3 GB of memory, and without surviving goroutines. Quotes per paragraph are bounded, because of the known finding on exponential parsing time.")

prop("P35", "The time to convert grows in proportion to the size of the document",
     "Converting a document made of n repetitions of some content (blocks, sections, items, cells, lines, words, declarations, references, includes...) takes a time in proportion to n, not to its square. Documents which repeat the same content thousands of times are converted in seconds.",
     ["inputs", "configurations"], "documents of 4 to 48000 repetitions of a generated part of any kind, after a prefix and before a suffix which make it the content of a block, list, table, line; every back-end and a sample of attributes",
     "The documents of the tests have a few lines. A cost which is repeated for each element of what precedes (copies, searches, options which pile up) is invisible in them, and makes a book take minutes.",
     ["pkg/parser/document_preprocessing.go", "pkg/parser/document_processing_aggregate.go", "pkg/parser/document_processing_apply_substitutions.go", "pkg/types/types_utils.go", "pkg/types/types.go"],
     [("lines and block delimiters", "pkg/parser/document_preprocessing.go preprocessLines"), ("identifiers of sections", "pkg/types/types.go ResolveUniqueID"), ("groups of inline elements", "pkg/types/types_utils.go merge")],
     ["processor time of libasciidoc.Convert"], "property-based testing: metamorphic (the same content repeated n and 8n times, compared by processor time), generated contents", "Random contents; the second conversion must not take more than 3 times what is in proportion, and 0.2 s, in three tries. A quadratic cost which is still small at these sizes is not seen. Quotes left open are not repeated in a paragraph (known finding on exponential time).")

prop("P18", "Lists of every kind have the items, nesting, order and contents written",
     "A list converts to the list with exactly its items, in order, each with its text, attached blocks and nested lists: unordered, ordered, labeled (plain, horizontal, Q&A) and check lists, mixed and nested at any depth. Markers decide the nesting, ordered lists have the numbering style of their depth, and blocks attached with '+' belong to their item.",
     ["inputs"], "lists of four kinds nested to depth 4, with texts over several lines, attached paragraphs, delimited blocks and lists, between other blocks, within sections and blocks",
     "The tests have a few hundred fixed lists; the arrangement of elements into nested lists depends on the whole sequence of markers, attributes, continuations and blank lines, whose combinations are unbounded.",
     ["pkg/parser/document_processing_arrange_lists.go", "pkg/types/types.go", "pkg/renderer/sgml/list.go"] ,
     [("arrangement of list elements into lists", "pkg/parser/document_processing_arrange_lists.go ArrangeLists"), ("rendering of lists", "pkg/renderer/sgml/list.go")],
     OBS, MODEL, MODEL_NOTE)
prop("P19", "Tables have the rows, columns, formats and contents written",
     "A table converts to exactly its rows and cells in order, with the header and footer rows, the column widths and alignments, the title and caption number which its attributes and columns specify. The cells have the inline content written in them.",
     ["inputs"], "tables with 1 to 5 columns, explicit or implicit column specifications, header and footer options, cells with every inline markup, cells on one or several lines",
     "The tests have fixed tables with a few formats; the number of columns, the implicit header, the multipliers and the spread of cells over lines combine without bound.",
     ["pkg/types/types.go", "pkg/renderer/sgml/table.go", "pkg/parser/parser.peg"],
     [("rows and columns from the cells", "pkg/types/types.go NewTable, Table.SetAttributes, Table.Columns"), ("rendering of tables", "pkg/renderer/sgml/table.go")],
     OBS, MODEL, MODEL_NOTE)
prop("P20", "Every footnote is numbered, listed once and linked both ways",
     "Footnotes are numbered from 1 in the order of their first appearance, wherever they are (paragraphs, lists, tables, blocks, quoted text, titles of sections). Each is rendered once at the end of the document with its contents, repeated references to a named one have its number, and references and notes link to each other.",
     ["inputs"], "documents with anonymous and named footnotes and repeated references in every kind of block, nested in formatted text, lists and cells",
     "The tests have footnotes in a handful of places; the numbering is global to a document whose blocks are processed by different code, so each kind of container can lose or duplicate notes.",
     ["pkg/parser/document_processing_aggregate.go", "pkg/types/types.go", "pkg/renderer/sgml/footnote_reference.go"],
     [("collection and numbering of footnotes", "pkg/types/types.go Footnotes.Reference, SubstituteFootnotes"), ("rendering of footnotes", "pkg/renderer/sgml/footnote_reference.go")],
     OBS, MODEL, MODEL_NOTE)
prop("P21", "Inline formatting converts to exactly the nested elements written",
     "Text with bold, italic, monospace, marked, superscript, subscript and curved quotes, constrained or not, with roles and nested in each other, converts to those elements around exactly the text written. Symbols and typographic replacements appear where they are written, and marks which do not delimit a formatted text stay in the text.",
     ["inputs"], "inline content nested to depth 4 of every kind of formatting in paragraphs, lists, tables and blocks",
     "The tests pin down isolated formatted texts and some nestings; what a mark means depends on the characters around it and on the enclosing marks, whose combinations are unbounded.",
     ["pkg/parser/parser.peg", "pkg/parser/document_processing_apply_substitutions.go", "pkg/renderer/sgml/quoted_text.go", "pkg/renderer/sgml/symbol.go"],
     [("grammar of quoted text", "pkg/parser/parser.peg QuotedText"), ("rendering of quoted text", "pkg/renderer/sgml/quoted_text.go")],
     OBS, MODEL, MODEL_NOTE)
prop("P23", "Links, images, icons, anchors and index terms have the targets and texts written",
     "URLs, link and mailto macros, images (inline and block), icons, anchors and index terms convert to elements with the target, text and attributes which were written. The text around them is untouched.",
     ["inputs"], "macros with every kind of target, label and attribute, within every kind of inline and block content",
     "The tests have fixed macros, mostly alone in a paragraph; targets and labels end where the grammar decides from the characters which follow, in any context.",
     ["pkg/parser/parser.peg", "pkg/types/types.go", "pkg/renderer/sgml/link.go", "pkg/renderer/sgml/image.go", "pkg/renderer/sgml/icon.go"],
     [("grammar of inline macros", "pkg/parser/parser.peg Link, InlineImage, Icon"), ("rendering of links and images", "pkg/renderer/sgml/link.go, pkg/renderer/sgml/image.go")],
     OBS, MODEL, MODEL_NOTE)
prop("P27", "Delimited and styled blocks have the kind, attributes and contents written",
     "Delimited blocks, admonitions, styled and Markdown paragraphs, block images and breaks convert to the element of their kind, with their id, roles, title, caption number and attribution, and with exactly their contents. Blocks nest in each other, and an attribute line applies to the block below it only.",
     ["inputs"], "sequences and nestings (to depth 3) of every kind of block with every combination of id, roles, title and attribution",
     "The tests have each block alone with a few attributes; attributes, styles and delimiters interact with the neighbouring and enclosing blocks.",
     ["pkg/parser/document_processing_parse_fragments.go", "pkg/parser/parser.peg", "pkg/types/types.go", "pkg/renderer/sgml/delimited_block.go", "pkg/renderer/sgml/paragraph.go"],
     [("scan and nesting of delimited blocks", "pkg/parser/parser.peg DocumentFragment, pkg/parser/document_processing_parse_fragments.go"), ("rendering of blocks", "pkg/renderer/sgml/delimited_block.go, pkg/renderer/sgml/paragraph.go")],
     OBS, MODEL, MODEL_NOTE)
prop("P02", "The result of a conversion depends only on its document and configuration",
     "Converting a document gives the same output, metadata and error every time: again in the same process, in a new process, after conversions of other documents, and with a configuration already used by other conversions. A conversion leaves the attributes of the configuration unchanged.",
     ["inputs", "configurations", "histories"], "sequences of 2 to 5 conversions of 1 to 3 documents (well-formed, damaged, soups, with includes) with 1 or 2 shared configurations; some compared with a new process",
     "A test converts each document once. State which leaks from one conversion to the next (package variables, the shared configuration, caches) or an order of iteration over a map only shows in sequences.",
     ["libasciidoc.go", "pkg/configuration/configuration.go", "pkg/parser/context.go", "pkg/renderer/sgml/context.go", "pkg/types/attributes.go"],
     [("configuration shared by conversions", "pkg/configuration/configuration.go Configuration, libasciidoc.go Convert"), ("attributes and counters of a conversion", "pkg/parser/context.go, pkg/renderer/sgml/context.go")],
     ["output, metadata and error of libasciidoc.Convert", "attributes of the configuration"],
     "stateful property-based testing: generated sequences of conversions, differential against a fresh configuration and against a fresh process", "Random histories compared with each conversion alone. Bounded sequences; addresses and map orders which happen to be equal are not seen in one case, but differ over thousands.")
prop("P03", "Documents converted at the same time do not influence each other",
     "Conversions run at the same time in several goroutines give the outputs, metadata and errors they give alone, without any data race, also when they share a configuration or include the same files with relative paths.",
     ["schedules", "inputs", "configurations"], "2 to 6 conversions started together, of equal or different documents, with shared configurations or from files in another directory with includes",
     "The tests convert one document at a time. Races between conversions need two pipelines of goroutines running at once on shared package state, templates or configuration.",
     ["libasciidoc.go", "pkg/parser/document_processing.go", "pkg/parser/document_preprocessing.go", "pkg/renderer/sgml/sgml_renderer.go"],
     [("pipelines of goroutines", "pkg/parser/document_processing.go ParseDocument"), ("include directives with relative paths", "pkg/parser/document_preprocessing.go"), ("templates loaded once", "pkg/renderer/sgml/sgml_renderer.go")],
     ["output, metadata and error of libasciidoc.Convert and ConvertFile", "reports of the race detector"],
     "property-based testing of concurrent executions: generated groups of conversions under the race detector, differential against each alone", "Executions in a binary built with the race detector; schedules are those the runtime gives, not enumerated.")
prop("P04", "Faults of the input and of the output are reported, and never change the rest",
     "An error of the reader of the document, at any point, is returned as the error of the conversion, and nothing is written. An error of the writer is returned, and what was written before is a beginning of the output; how the reader splits the document and how long its lines are does not change the result.",
     ["inputs", "faults"], "readers which give a few bytes at a time or fail at any offset, writers which fail or write less at any offset, for documents of every kind and with lines up to 300 kB",
     "The tests convert from complete strings into buffers. Faults at a given offset, short reads and very long lines are not sampled, and an ignored error gives a truncated document which looks complete.",
     ["libasciidoc.go", "pkg/parser/document_preprocessing.go", "pkg/renderer/sgml/sgml.go"],
     [("scan of the lines of the input", "pkg/parser/document_preprocessing.go Preprocess"), ("writing of the output", "pkg/renderer/sgml/sgml.go Render")],
     ["error and output of libasciidoc.Convert"],
     "property-based testing with injected faults in the reader and the writer at generated offsets, differential against the run without fault", "Faults of io.Reader and io.Writer at random offsets; faults of the file system below are limited to missing files (P14).")
prop("P07", "The output is well-formed HTML or XHTML",
     "The output of any document that does not pass text through unprocessed, with any back-end, is well-formed: every element is closed in the right order, attributes are quoted and not repeated, there is no stray '<' or '&', and for XHTML back-ends it is well-formed XML. Documents with special characters in roles are excepted (known finding).",
     ["inputs", "configurations"], "soups of markup, well-formed and damaged documents without passthroughs, with every back-end, wrapped or not, with special characters in texts, titles, labels, targets, names and attributes",
     "The tests compare fixed outputs, and nobody checks that these are well-formed. Malformed output comes from special characters or empty parts in places which the templates do not expect.",
     ["pkg/renderer/sgml/html5/html5.go", "pkg/renderer/sgml/xhtml5/xhtml5.go", "pkg/renderer/sgml/html_escape.go", "pkg/renderer/sgml/sgml_renderer.go"],
     [("templates of every element", "pkg/renderer/sgml/html5, pkg/renderer/sgml/xhtml5"), ("escaping", "pkg/renderer/sgml/html_escape.go, pkg/renderer/sgml/special_character.go")],
     ["the output of libasciidoc.Convert"],
     "property-based fuzzing: grammar-aware soups and damaged documents against a strict HTML/XML parser", "Random documents; the oracle is a strict parser written for the check, which knows the void elements and the optional attribute values of HTML.")
prop("P08", "All HTML and XHTML back-ends give the same document",
     "For any document and configuration, the XHTML back-ends and the HTML back-ends give the same tree of elements, attributes and text, the same metadata, and fail on the same documents: they differ in nothing but the syntax (void elements, quoted values, the namespace). The names 'xhtml', 'xhtml5', 'html' and 'html5' pairwise select the same back-ends. Documents with special characters in roles are excepted (known finding).",
     ["inputs", "configurations"], "soups of markup, well-formed and damaged documents without passthroughs, with any attributes, wrapped in a page or not",
     "Each back-end has its own tests, and the XHTML ones are a hand-made subset of the HTML ones; the templates are duplicated, so a change to one of them need not reach the other.",
     ["pkg/renderer/sgml/html5", "pkg/renderer/sgml/xhtml5", "pkg/configuration/configuration.go", "libasciidoc.go"],
     [("templates of the two back-ends", "pkg/renderer/sgml/html5, pkg/renderer/sgml/xhtml5")],
     ["the outputs and the metadata of libasciidoc.Convert with two back-ends"],
     "property-based fuzzing: differential test of the back-ends on soups and structured documents, shrinking", "Random documents; the two outputs are parsed by strict parsers for HTML and for XML and compared as trees.")
prop("P26", "Inline content means the same in every container",
     "The inline content of a paragraph converts to the same HTML in a list item, a description, an attached paragraph, a delimited block, an admonition, a quote, a table cell, a section or between other paragraphs, with the same footnotes at the end.",
     ["inputs"], "paragraphs of any inline markup, well-formed or not, in 16 kinds of containers, with both back-ends",
     "The tests of each container have plain text or a single formatted text; the containers reach the inline parser by different ways, each with its own substitutions.",
     ["pkg/parser/document_processing_apply_substitutions.go", "pkg/parser/document_processing_arrange_lists.go", "pkg/types/types.go", "pkg/renderer/sgml/paragraph.go", "pkg/renderer/sgml/table.go"],
     [("substitutions of each kind of block", "pkg/parser/document_processing_apply_substitutions.go"), ("rendering of paragraphs within each kind of block", "pkg/renderer/sgml/paragraph.go")],
     OBS, "property-based fuzzing: metamorphic relation (paragraph alone against the same text in a container), shrinking", "Random texts of one to three lines; the oracle is the conversion of the same text alone, put into the HTML of the container.")
prop("P09", "Identifiers are unique, and references point to what they name",
     "A cross reference, by identifier or by title, links to the element which has it, with the label written or the title of that element. Identifiers made by the converter for sections and footnotes are unique in the output, and references between footnotes and their definitions resolve both ways; footnotes in section titles with a table of contents are excepted (known finding).",
     ["inputs"], "documents whose references point to sections, blocks, images and anchors, before or after, with explicit, derived, repeated and configured identifiers; soups with repeated titles and named footnotes",
     "The tests have one reference to one target. Collisions of derived identifiers and references to what comes later, in titles, tables or footnotes, depend on the whole document.",
     ["pkg/parser/document_processing_aggregate.go", "pkg/types/types.go", "pkg/renderer/sgml/cross_reference.go", "pkg/renderer/sgml/footnote_reference.go", "pkg/renderer/sgml/section.go"],
     [("identifiers of sections", "pkg/types/types.go Section.ResolveID"), ("references by identifier or title", "pkg/types/types.go InternalCrossReference, pkg/renderer/sgml/cross_reference.go"), ("numbers of footnotes", "pkg/types/types.go Footnotes")],
     OBS, MODEL + "; invariant (unique identifiers, no dangling footnote) on soups", MODEL_NOTE)
prop("P10", "Sections are nested, numbered and identified as written",
     "The sections of a document appear in order, each with the heading level, title, number, roles and identifier (explicit, or derived from its title with the prefix and the separator set) it was written with, nested by level, with exactly the blocks written in it. The numbers follow 'sectnums' where it is set and unset, in the document or the configuration, and numbers of a level restart under each parent.",
     ["inputs", "configurations"], "trees of up to 12 sections of 5 levels, also skipping levels, in both styles of titles, with repeated titles, toggled numbers and configured identifiers",
     "The tests have a few fixed outlines; numbering, nesting and identifiers depend on all the sections before.",
     ["pkg/parser/document_processing_aggregate.go", "pkg/types/types.go", "pkg/renderer/sgml/section.go"],
     [("identifiers and numbers of sections", "pkg/types/types.go Section, SectionNumbers; pkg/types/types.go"), ("nesting of sections", "pkg/parser/document_processing_aggregate.go")],
     OBS, MODEL, MODEL_NOTE)
prop("P11", "The table of contents lists the sections, as deep as asked",
     "The table of contents has an entry for each section down to 'toclevels', in order, nested as the sections, each linking to the section with its number and the text of its title without links or anchors, under the title set. It is placed where 'toc' says, and the metadata has the same entries; there is none without 'toc'.",
     ["inputs", "configurations"], "documents with up to 12 sections of 5 levels, titles with any inline markup, 'toc', 'toclevels', 'toc-title', 'sectnums' in the header or in the configuration",
     "The tests have a few fixed outlines with plain titles; entries depend on the levels, titles and identifiers of all the sections.",
     ["pkg/parser/document_processing_aggregate.go", "pkg/renderer/sgml/table_of_contents.go", "pkg/renderer/sgml/sgml_renderer.go", "pkg/types/types.go"],
     [("entries by level", "pkg/types/types.go TableOfContents"), ("rendering and placement", "pkg/renderer/sgml/table_of_contents.go")],
     ["the HTML output and the metadata of libasciidoc.Convert"], MODEL, MODEL_NOTE)
prop("P13", "Conditional directives keep exactly the lines whose conditions hold",
     "The content of 'ifdef', 'ifndef' (with one name, or several joined by ',' or '+') and 'ifeval' directives, as a block or on the line, is converted if and only if the condition holds for the attributes declared so far, in the configuration and in the document, and declarations within it count only then. Conditions nest, escaped directives are text, and a document is converted alike whether its lines are within true conditions, or next to false ones with any content.",
     ["inputs", "configurations"], "sequences of declarations, resets, nested conditions with literal and referred members, listings; documents of any content whose lines are wrapped into true conditions and mixed with false ones holding damaged markup",
     "The tests have single conditions with one attribute; the outcome depends on all the declarations and conditions before, and on what is within the lines skipped.",
     ["pkg/parser/document_preprocessing.go", "pkg/parser/parser.peg", "pkg/types/types.go"],
     [("stack of conditions", "pkg/parser/document_preprocessing.go conditions"), ("evaluation of conditions", "pkg/types/types.go IfdefCondition, IfevalCondition")],
     OBS, "property-based testing: reference model of conditions and attributes; metamorphic relation (document with and without neutral conditions), shrinking", MODEL_NOTE)
prop("P14", "Including files is the same as writing their content in place",
     "A document from which any lines were moved to files and included (also from files in other directories, with paths relative to the including file and with attributes) converts to the same HTML as the document with these lines in place, with the levels of sections shifted as 'leveloffset' says, and without the lines of tag directives. A missing file gives an error which names it, and no output.",
     ["inputs"], "well-formed documents of any content, split at random lines (also within blocks) into trees of up to 4 levels of files in several directories and with several extensions",
     "The tests include a few fixed files; relative paths, offsets and the state of the reader (blocks, conditions, attributes) across files depend on how the content is divided.",
     ["pkg/parser/document_preprocessing.go", "pkg/parser/parser.peg", "pkg/types/types.go"],
     [("inclusion of files", "pkg/parser/document_preprocessing.go includeFile"), ("shift of levels", "pkg/parser/document_preprocessing.go levelOffsets")],
     OBS, "property-based testing: metamorphic relation (document in one file against the same split into files), with the expected HTML of a paired generator, shrinking", MODEL_NOTE)
prop("P15", "The lines and tagged regions selected from a file are the ones included",
     "An include with 'lines' (numbers, ranges, open ranges, lists) or 'tag'/'tags' (names, exclusions, wildcards) includes exactly the lines of the file selected, once each, in the order of the file and unchanged, and never the lines of the tag directives themselves. With nested regions the innermost one which is named decides.",
     ["inputs"], "files of up to 22 lines with nested, repeated, empty and unclosed regions in comments of several languages; any selection by lines or tags",
     "The tests have a few fixed files and selections; the outcome is a function of all the nested regions and of the whole selection.",
     ["pkg/parser/document_preprocessing.go", "pkg/types/types.go"],
     [("selection by lines", "pkg/types/types.go LineRanges.Match"), ("selection by tags", "pkg/types/types.go TagRanges.Match")],
     OBS, "property-based testing: reference model of the selection of lines, shrinking", MODEL_NOTE)
prop("P05", "No text of a document is lost, repeated or moved",
     "Every word of the text of a document is in the output once, and in the order of the document (the footnotes at the end), whatever markup is around it, well-formed or not: markup which cannot be understood stays as text. Excepted is what has no text by its syntax: comments, declarations, attributes of blocks, lines of skipped conditionals.",
     ["inputs"], "soups of markup with numbered words between any tokens (unfinished blocks, lists, quotes, macros, links, footnotes, conditionals without effect); well-formed documents of every kind of content",
     "The tests compare the output of documents which the grammar covers. Text is dropped when a rule gives up in the middle (the parser only logs this), or when two rules disagree on what a line is, in combinations nobody has written down.",
     CONV + ["pkg/parser/document_processing_arrange_lists.go"],
     [("fragments, lost when the grammar has no match", "pkg/parser/document_processing_parse_fragments.go"), ("substitutions which replace parts of the text", "pkg/parser/document_processing_apply_substitutions.go")],
     OBS, "property-based fuzzing: soups of markup with numbered words, invariant (every word once, in order); paired generator for well-formed documents, comparison of the texts, shrinking",
     "Random documents of up to 20 lines. In the soups words are not put next to tokens where AsciiDoc ignores text (comments, attribute lists, table specifications, directives); tables are covered by the well-formed documents.")
prop("P25", "White space without meaning does not change the output",
     "A document converts to the same HTML with lines ended by CRLF instead of LF, with blank lines at its start (without front matter) or its end, with or without a last line break. So does a well-formed one with white space at the ends of its lines, or with more blank lines between its blocks.",
     ["inputs"], "well-formed documents of every kind of content, and for line ends and blank lines around the document also damaged ones and soups; any combination of changed lines",
     "The tests are written with plain LF and single blank lines. Each rule of the grammar has its own idea of the end of a line, so each kind of line, in each kind of block, can differ.",
     ["pkg/parser/document_preprocessing.go", "pkg/parser/parser.peg", "pkg/parser/document_processing_parse_fragments.go"],
     [("ends of lines in the grammar", "pkg/parser/parser.peg EOL, BlankLine, Space"), ("lines of the document", "pkg/parser/document_preprocessing.go Preprocess")],
     OBS, "property-based testing: metamorphic relation (document with and without changed white space), shrinking", "Random documents. Blank lines are not added within delimited blocks, nor before a list continuation, where they have a meaning.")
prop("P28", "The command converts files as the library does, and fails when it cannot",
     "The command writes for each input file the document the library gives for the same content, back-end, attributes and options, to the file or the standard output asked for. Each '-a' sets the attribute to all what is after the first '='; a failed conversion or an input or output which cannot be used makes the command fail, without replacing its input, and the other files are as they were.",
     ["inputs", "configurations", "environment"], "commands with any options, attributes with any values, one or several inputs in directories, outputs to files, directories and the standard output, missing inputs and documents which cannot be converted",
     "The tests run a few commands on fixed files in one process and never look at the values of attributes with separators, at failures in the middle of several inputs, or at the exit status.",
     ["cmd/libasciidoc/root_cmd.go", "cmd/libasciidoc/main.go", "libasciidoc.go", "pkg/configuration/configuration.go"],
     [("options and attributes", "cmd/libasciidoc/root_cmd.go parseAttributes"), ("outputs", "cmd/libasciidoc/root_cmd.go getOut")],
     ["the files, standard output and exit status of the command"], "property-based testing: differential (the command, built from the tree, against the library), invariants on the files, shrinking", "Random commands in a scratch directory removed after each case; the outcome expected is the one of libasciidoc.Convert in the same process as the generator.")
prop("P06", "Special characters in text are characters of the output, never markup",
     "Characters with a meaning in HTML (<, >, & and quotes) put in the words of a document are in the output exactly these characters, once, in the text or the values of attributes made of these words, and change nothing else of its tree. Roles are excepted (known finding), and passthroughs, whose content is markup.",
     ["inputs", "configurations"], "well-formed documents of every kind of content (titles, tables, verbatim blocks, labels, footnotes, quotes…) and soups, with pieces of tags, entities, comments and declarations within any words; both back-ends, with and without the wrapper",
     "Each renderer and each substitution escapes on its own: the tests escape in a few of these places. A place where nobody escapes, or two do, only shows with such a character there.",
     ["pkg/renderer/sgml/string.go", "pkg/renderer/sgml/sgml.go", "pkg/parser/document_processing_apply_substitutions.go", "pkg/renderer/sgml/html5/html5.go", "pkg/renderer/sgml/xhtml5/xhtml5.go"],
     [("escaping of strings", "pkg/renderer/sgml/string.go escapeString"), ("special characters as elements", "pkg/renderer/sgml/special_character.go")],
     OBS, "property-based fuzzing: metamorphic relation (tree of the document with plain words, with the words replaced, against the tree of the document with special characters), shrinking", "Random documents. Special characters are not put in URLs, identifiers, hidden index terms and labels of cross references (P09 has these), nor what closes a macro within its brackets.")
prop("P12", "References to attributes give the value declared last before them",
     "A reference to an attribute gives, in any text, title, label, role or target, the value of its last declaration before it (made of the references at the point of that declaration, on one or many lines), or the value of the configuration, which declarations do not change. References to attributes which are not set, or are reset, and escaped ones, stay as they are; predefined ones give their character.",
     ["inputs", "configurations"], "histories of declarations, resets and declarations made of others, in headers, bodies and delimited blocks, with references in every kind of block, title, label, attribute and target between them; attributes of the configuration",
     "The tests have one declaration and one reference, in a few places. The value depends on the whole history before the reference, through two phases (preprocessing and substitution) which must agree.",
     ["pkg/parser/document_preprocessing.go", "pkg/parser/document_processing_apply_substitutions.go", "pkg/types/predefined_attributes.go", "pkg/parser/context.go"],
     [("declarations and references", "pkg/parser/document_processing_apply_substitutions.go"), ("attributes of the context", "pkg/parser/context.go")],
     OBS, "property-based testing: reference model of the attributes over the history of the document, shrinking", MODEL_NOTE)
prop("P16", "Verbatim text is kept as it is",
     "The text of listing, source, literal, fenced and passthrough blocks and paragraphs, whatever markup it looks like, is in the output exactly as it is in the source (lines, spaces, blank lines), with only special characters escaped, but in passthroughs. It changes nothing around the block.",
     ["inputs"], "verbatim blocks and paragraphs of every kind and syntax, alone, in lists, sections and other blocks, whose contents are pieces of markup of any kind: delimiters of other blocks, sections, lists, attributes, macros, declarations, escapes, comments",
     "The tests have a few contents. Each step of the processing (preprocessing, grammar of the blocks, arrangement of lists, substitutions, rendering) must know that it is within a verbatim block, and can forget it for one kind of markup only.",
     ["pkg/parser/document_processing_apply_substitutions.go", "pkg/renderer/sgml/literal_blocks.go", "pkg/renderer/sgml/delimited_block.go", "pkg/parser/parser.peg", "pkg/parser/document_processing_parse_fragments.go"],
     [("substitutions of blocks", "pkg/parser/document_processing_apply_substitutions.go"), ("delimited blocks", "pkg/parser/parser.peg DelimitedBlock")],
     OBS, "property-based testing: reference model (identity of the text, but for special characters), shrinking", "Random contents of up to 8 lines; directives (include, conditionals) act in verbatim blocks too and are left to P13 to P15; lines of paragraphs are not delimiters, attributes nor list elements, which end them; no callouts.")
prop("P17", "Comments are not in the output and change nothing else",
     "Removing the comments of a document, lines which start with '//' and blocks between lines of '////', changes nothing in its output, wherever they are: between blocks, in paragraphs, list elements and headers, whatever their content.",
     ["inputs"], "well-formed documents of every kind of content, with comments whose content is any markup put between any lines where a comment is one",
     "The tests have some comments, in paragraphs and between blocks, with words only. A comment splits lines which are parsed together, or has the look of something else, in each of the contexts.",
     ["pkg/parser/parser.peg", "pkg/types/types.go", "pkg/parser/document_processing_arrange_lists.go"],
     [("comment lines", "pkg/parser/parser.peg SingleLineComment"), ("comment blocks", "pkg/parser/parser.peg CommentBlock")],
     OBS, "property-based testing: metamorphic relation (document with and without comments), shrinking", "Random documents. Comments are not put in verbatim blocks, where they are text, nor in tables.")
prop("P22", "The substitutions asked for are the ones applied",
     "The attribute 'subs' of a paragraph or block, with names, groups and increments (+x, x+, -x), gives its text with just these substitutions applied: special characters, attributes, quotes, replacements, macros, post-replacements. So do inline passthroughs, with the ones they name or none.",
     ["inputs"], "paragraphs and verbatim blocks made of pieces for which the outcome of each substitution is known, with any list of names, groups and increments in any order; inline passthroughs of every kind",
     "The tests cover a few of the combinations, on fixed content, and the substitutions are implemented by parsing with a grammar whose rules are enabled one by one, then again for some orders.",
     ["pkg/parser/document_processing_apply_substitutions.go", "pkg/parser/document_substitutions.go", "pkg/parser/parser.peg"],
     [("substitutions of blocks", "pkg/parser/document_substitutions.go")],
     OBS, "property-based testing: reference model (outcome of each piece for each set of substitutions), shrinking", MODEL_NOTE)
prop("P24", "The header of a document gives its page, metadata and attributes",
     "The title of a document is the one of its page (heading, <title> and metadata), its line of authors or attributes 'author', 'email'… give the names and addresses of the page, and the values of {author}, {firstname}, {email_2}…, and its line of revision, or attributes, the number, date and remark shown. Declarations and comments before or in the header, a front matter, 'description', 'noheader', 'nofooter', 'version-label', 'doctype', the style sheets, id and roles have their documented effect on the page, and the values of the configuration override those of the document.",
     ["inputs", "configurations"], "headers made of a front matter, declarations, comments, id and roles, a title with markup and references, 0 to 4 authors of every form, revisions of every form, attributes in any order; bodies which refer to them; configurations which override some",
     "The tests have some headers, one variation at a time. The forms of authors and revisions are told apart by their punctuation only, and each part can be missing, next to any other.",
     ["pkg/parser/parser.peg", "pkg/types/types.go", "pkg/renderer/sgml/sgml.go", "pkg/renderer/sgml/document_details.go", "libasciidoc.go"],
     [("grammar of the header", "pkg/parser/parser.peg DocumentHeader, DocumentAuthors, DocumentRevision"), ("rendering of the page", "pkg/renderer/sgml/sgml.go, pkg/renderer/sgml/document_details.go")],
     OBS, "property-based testing: reference model of the header and page (expected HTML built with the document), shrinking", MODEL_NOTE)
prop("P29", "Every document in UTF-8 is converted",
     "A conversion gives a result for any document which is valid UTF-8, however damaged its markup is: what is not understood is text. It fails only for a file which cannot be included, or for a value of 'icons' or 'toc' which does not exist, and then says so.",
     ["inputs", "configurations"], "well-formed documents of every kind of content, damaged ones, soups of AsciiDoc markup, characters, in valid UTF-8; every back-end and a sample of attributes",
     "The tests convert documents whose markup is meant. The renderer has no case for elements which the parser gives in a place nobody has thought of, and then the whole document is lost.",
     ["libasciidoc.go", "pkg/renderer/sgml/elements.go", "pkg/renderer/sgml/render_plain_text.go", "pkg/parser/document_processing_apply_substitutions.go", "pkg/parser/document_processing_refine_fragments.go", "pkg/parser/parser.peg"],
     [("rendering by type of element", "pkg/renderer/sgml/elements.go renderElement"), ("second parsing, with placeholders", "pkg/parser/document_processing_apply_substitutions.go parseWithSubstitutions")],
     OBS, "property-based fuzzing: grammar-aware soups, mutated well-formed documents and characters; the oracle is the absence of unexpected errors; shrinking", "Random and structured documents. The errors which are expected are recognised by their messages.")
prop("P30", "Highlighting a source block adds markup and changes no character",
     "With 'source-highlighter' set to chroma or pygments, a document has the same output as without it but for 'span' elements around pieces of the code: the code itself, character by character, its callouts and everything else are the same, whatever the language, style and options.",
     ["inputs", "configurations"], "source blocks in 37 languages (unknown ones too) with any lines: strings and comments opened or not, escapes, entities, tabs, characters out of ASCII, callouts; in lists, with 'subs', titles, ids; within any well-formed document; classes or inline styles",
     "The tests highlight a few lines of valid code. The code goes line by line through lexers of a library, which add newlines or repeat characters for some inputs, then is escaped by another code than the one for other blocks.",
     ["pkg/renderer/sgml/delimited_block_source.go", "pkg/types/types_utils.go"],
     [("highlighting, line by line", "pkg/renderer/sgml/delimited_block_source.go renderSourceBlockElements")],
     OBS, "property-based testing: differential (the same document with and without the highlighter), tree comparison, shrinking", "Random contents. Without the substitution of special characters (subs=none), where both differ, nothing is compared; the newline before a callout, which the tests of the project expect, is ignored.")
prop("P31", "A document is a manual page when asked for and made of its sections",
     "With the document type 'manpage' (in the configuration, else in the header), a document which has a title, then a section 'Name' with a single paragraph, then a section 'Synopsis', converts to a manual page: its own header, body class and 'Name' section. Any other document converts to an article, with all its contents.",
     ["inputs", "configurations"], "documents with the type set in each place, in both, unset or too late; whole, or without one of the things which are required; with any other contents, wrapped or not, in every back-end",
     "The tests have three fixed manual pages; the conditions (where the type is set, what comes before, the kind and the level of each section) combine, and failing one must fall back to an article without losing anything.",
     ["libasciidoc.go", "pkg/validator/validator.go", "pkg/renderer/sgml/sgml.go", "pkg/renderer/sgml/html5/manpage.go"],
     [("validation of the type of document", "pkg/validator/validator.go Validate"), ("rendering of the page", "pkg/renderer/sgml/sgml.go")],
     OBS, MODEL, MODEL_NOTE)
prop("P32", "User macros get what was written and their output goes where they are",
     "A macro registered in the configuration is called once for each of its uses, inline or block, in any text or block, with its kind, name, value and attributes (references to attributes replaced), and what its template writes is at its place. Names which are not registered remain text, a macro which is not used changes nothing, and the error of a template is the one of the conversion.",
     ["inputs", "configurations"], "names with letters, digits, hyphens and underscores; any values; positional and named attributes, quoted or not; in texts, formatted texts, lists, cells, footnotes, delimited blocks, attached to elements of lists; templates which fail",
     "The tests call one macro in a handful of paragraphs. A macro may be anywhere, and its name, value and attributes have characters which mean something else in the grammar.",
     ["pkg/parser/parser.peg", "pkg/parser/document_processing_apply_substitutions.go", "pkg/renderer/sgml/user_macro.go", "pkg/configuration/configuration.go"],
     [("grammar of user macros", "pkg/parser/parser.peg UserMacroBlock, InlineUserMacro"), ("call of the template", "pkg/renderer/sgml/user_macro.go")],
     OBS, MODEL, MODEL_NOTE + " The templates are text templates which show all that they are given.")
prop("P33", "Switching unicode off changes how characters are written and nothing else",
     "With the attribute 'unicode' set to false, the texts of paragraphs, titles of sections, lists and verbatim blocks have references instead of the characters out of ASCII, and the output is the same as without it once the references are replaced by their characters. Any other value of the attribute changes nothing.",
     ["inputs", "configurations"], "well-formed, damaged and random documents with letters, ideographs, emojis, combining characters and spaces out of ASCII anywhere in them, in every back-end",
     "The tests have two paragraphs without unicode. Every kind of element writes its text by itself, and identifiers, counters, tables of contents and conditions must not depend on how characters are written.",
     ["pkg/renderer/sgml/string.go", "pkg/renderer/sgml/context.go", "pkg/types/attributes.go"],
     [("references for characters out of ASCII", "pkg/renderer/sgml/string.go renderStringElement, asciiEntify")],
     OBS, "property-based testing: differential (the same document with and without the attribute), shrinking", "Random documents. The labels of links, the titles of blocks and the attributes of elements keep their characters, so ASCII is only required of the other texts; source blocks which are highlighted are compared but not required to be in ASCII.")
prop("P34", "Embedding images replaces their sources with their files and nothing else",
     "With the attribute 'data-uri', in the document or the configuration, the source of each image, inline or block, wherever it is, is a 'data:' URL of its type with exactly the bytes of its file, found from the directory of the document and 'imagesdir' (no bytes where there is no such file). The images with the URL of another site and everything else are as without the attribute.",
     ["inputs", "configurations"], "well-formed documents with images in any block and text (titles, footnotes, tables, lists), documents in any directory, relative, absolute and remote locations and directories of images, files of any bytes which exist or not",
     "The tests embed one PNG file from a document in the current directory. Images are rendered from many places, some of them many times, and their location is made of up to three parts.",
     ["pkg/renderer/sgml/image.go", "pkg/types/types.go"],
     [("sources of images", "pkg/renderer/sgml/image.go getImageSrc"), ("directory of images", "pkg/types/types.go SetPathPrefix")],
     OBS, "property-based testing: metamorphic (the same document with and without the attribute, with generated files), shrinking", "Random documents made by the paired generator; the names of files have no special characters. Icons are not embedded.")
