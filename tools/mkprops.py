#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after an edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {}))))

prop("C01", "Byte-perfect parsing reproduces every input byte",
 "Parsing a document in byte-preserving mode and re-emitting it yields exactly the original bytes, whatever its line endings, binary payloads, comments, cross-reference style and number of revisions. The structure reported alongside (version, per-revision boundaries, object numbers, raw object text, cross-reference entries, trailer) describes exactly those bytes.",
 ["inputs", "histories"], "Every well-formed file with 1..n revisions, table or stream cross-references, object streams, any EOL and any stream or string payload.",
 "The tests round-trip a few hand-written files; payloads that look like syntax (endobj, xref, %%EOF inside streams or strings), CR line ends or mixed revisions are unbounded.",
 ["core/parse/document.go", "core/parse/document_parser.go", "core/parse/api.go", "core/parse/incremental.go"],
 [("PDFDocument raw segments", "core/parse/document_parser.go"), ("revision boundaries", "core/parse/incremental.go")],
 ["PDF.Bytes", "PDF.Raw", "ParsePDFDocument"])
prop("C02", "Object retrieval returns the object the file defines",
 "For every object number, opening a document reports it as present exactly when the newest cross-reference data says it is in use, and retrieving it returns exactly the bytes of that object's definition: complete, with nothing of its neighbours, whether stored directly or inside an object stream. The catalog, info reference, version and revision count reported agree with the newest trailer, and all ways of asking for an object give the same answer.",
 ["inputs", "histories"], "Every well-formed file: any object values, strings and stream data (including text resembling PDF syntax), generations, cross-reference layouts, predictors and object streams.",
 "Tests look up a handful of objects in fixture files; the guarantee is over every layout and every payload.",
 ["core/parse/get_object.go", "core/parse/parser.go", "core/parse/object_stream.go", "core/parse/xref_stream.go", "core/parse/xref_stream_data.go", "core/parse/api.go"],
 [("GetObject / FindObjectLocation", "core/parse/get_object.go"), ("xref parsing", "core/parse/xref_stream_data.go"), ("object streams", "core/parse/object_stream.go")],
 ["parse.Open", "PDF.GetObject", "PDF.Objects", "parse.GetObject"])
prop("C03", "Incremental updates shadow, never corrupt, earlier revisions",
 "After any sequence of incremental updates each object resolves to its newest definition, objects freed by the newest update disappear, and untouched objects keep their earlier definition. Extracting revision k yields exactly the document as it stood after update k, as a prefix of the file, and the number and the boundaries of revisions equal the updates actually made.",
 ["histories"], "Every history of 1..6 updates that add, replace, free, compress or decompress objects, switching between table and stream cross-references.",
 "Tests use two-revision fixtures with one replaced object; shadowing depends on whole histories.",
 ["core/parse/incremental.go", "core/parse/api.go", "core/parse/xref_stream_data.go"],
 [("Prev chain merge", "core/parse/incremental.go"), ("revision extraction", "core/parse/incremental.go")],
 ["parse.CountRevisions", "parse.ExtractRevision", "parse.GetRevisionBoundaries", "PDF.Revisions"])
prop("C04", "Written documents are valid PDF and say what was asked",
 "Whatever sequence of objects, streams, pages, metadata and bookmarks is given to the writer, the emitted file parses under a strict independent reader: every cross-reference entry leads to its object, stream lengths are exact, the catalog, page tree counts and parent links are consistent, and every value reads back exactly as given. The library's own reader recovers the same objects, in every cross-reference and object-stream mode.",
 ["programs", "inputs", "configurations"], "Every sequence of writer calls, any dictionary keys and values, stream data, string contents, page counts and sizes, in table, xref-stream and object-stream mode.",
 "Tests write a few small documents and look for substrings; validity must hold for every call sequence and value.",
 ["core/write/writer.go", "core/write/xref_stream.go", "core/write/object_stream.go", "core/write/page.go", "core/write/metadata.go", "core/write/bookmarks.go"],
 [("Write / WriteXRefStream", "core/write/writer.go"), ("object stream packing", "core/write/object_stream.go"), ("value formatting", "core/write/writer.go"), ("page tree", "core/write/page.go")],
 ["PDFWriter.Bytes", "SimplePDFBuilder.Bytes"])
prop("C05", "Standard encryption opens with the right password only",
 "A document encrypted by the standard security handler opens with its user password and with its owner password, and then every string and stream decrypts to its original content while the rest of the structure is unchanged. Any other password is rejected with an encryption error, never with garbage content.",
 ["inputs", "configurations"], "Every handler revision the library supports (40/128-bit RC4, 128-bit AES, 256-bit AES), key length, permissions, metadata flag, password pair, file identifier, string syntax of the encryption entries and document content.",
 "Tests use one fixture and self-made key material; a cipher or key-derivation slip shows only for particular passwords, lengths or escapes.",
 ["core/encrypt/decrypt.go", "core/encrypt/key_derivation.go", "core/encrypt/parser.go", "core/parse/decrypt_object.go", "core/parse/api.go"],
 [("key derivation", "core/encrypt/key_derivation.go"), ("object decryption", "core/encrypt/decrypt.go"), ("encryption dictionary", "core/encrypt/parser.go")],
 ["parse.OpenWithOptions", "encrypt.DecryptPDF", "PDF.GetObject"])
prop("C06", "Encrypted output hides content and opens again",
 "When encryption is requested for written output, no plaintext stream or string content given by the caller appears in the file, and opening it with the user password returns every object exactly as it was given. Without the password the document does not open.",
 ["inputs", "configurations"], "Every document the writer can emit, in every cross-reference and object-stream mode, any password pair and content, including empty and block-aligned payloads.",
 "Tests encrypt one short stream; padding, nesting and mode interactions are unbounded.",
 ["core/write/encryption_helper.go", "core/write/encryption_v5.go", "core/write/writer.go"],
 [("stream encryption on write", "core/write/encryption_helper.go"), ("AES-256 setup", "core/write/encryption_v5.go")],
 ["PDFWriter.SetEncryption", "PDFWriter.Bytes"])
prop("C07", "Stream filters are exact inverses and reject damage cleanly",
 "For every byte string, decoding what an encoder produced gives back exactly that string, and decoding data produced by an independent encoder of the same filter gives the data it encoded, regardless of white space, line breaks, letter case or end markers the format permits. Malformed data is reported as an error, never a crash or silently wrong bytes.",
 ["inputs"], "All byte strings and all legal encodings of them for Flate, ASCIIHex, ASCII85, RunLength (and PNG predictors).",
 "Tests check a few strings; edge lengths, run boundaries and partial groups need a search.",
 ["core/parse/filters.go", "core/parse/xref_stream_data.go"],
 [("filter encoders and decoders", "core/parse/filters.go"), ("PNG predictors", "core/parse/xref_stream_data.go")],
 ["parse.DecodeFilter", "parse.Encode*"])
prop("C08", "Arbitrary input is handled or rejected, never crashes or hangs",
 "Whatever bytes are supplied, every entry point that reads documents, fonts, form data or filters returns a result or an error in time and memory proportionate to the input; it never panics, overflows the stack, loops forever or exhausts memory. Calling it never modifies the caller's input bytes.",
 ["inputs", "fault_sequences"], "Arbitrary bytes, structure-aware mutations and truncations of valid files, cyclic and self-referential object graphs, absurd sizes and counts.",
 "Tests feed a few malformed files; the space of damage is unbounded.",
 ["core/parse", "core/encrypt", "content/extract", "forms", "resources/font", "core/manipulate", "core/compare"],
 [("bounds and cycle checks", "core/parse/xref_stream_data.go"), ("page tree walk", "content/extract/pages.go"), ("field tree walk", "forms/acroform/parser.go"), ("table parsing", "resources/font/font.go")],
 ["every exported reader function"])
prop("C09", "Extracted text and graphics match what the page draws",
 "For any page content, the extracted text elements are exactly the shown strings, in drawing order, with the position set by the text positioning operators, the font name and the size in force when they were drawn, and the extracted graphics are exactly the painted paths and rectangles with their coordinates and colours. Saving and restoring graphics state, nested text objects, string escapes, line breaks and operator layout change nothing else.",
 ["inputs", "programs"], "Every sequence of text, path, colour and state operators, any string contents, any whitespace layout, compressed or not, one or several content streams.",
 "Tests extract a few fixed pages; state interactions and string escapes are unbounded.",
 ["content/extract/content_stream.go", "content/extract/pages.go", "content/extract/extract.go", "core/write/content.go"],
 [("content stream interpreter", "content/extract/content_stream.go"), ("content builder", "core/write/content.go")],
 ["extract.ExtractContent", "extract.ExtractPages", "write.ContentStream"])
prop("C10", "Font encodings map bytes to the right characters",
 "Text drawn with an encoded font is reported as the Unicode text its encoding defines: the named base encoding, its Differences, and above both a ToUnicode map with single characters and ranges of any code width. The mapping of one code never affects another.",
 ["inputs"], "Every encoding name, Differences array, and ToUnicode map (bfchar, bfrange with base or array, one to four byte codes, multi-character targets, surrogate pairs) and every string of codes.",
 "Tests decode a few letters; table slips and range boundaries show only for particular codes.",
 ["content/extract/encoding.go", "content/extract/resources.go"],
 [("FontDecoder", "content/extract/encoding.go")],
 ["extract.FontDecoder", "extract.ExtractContent"])
prop("C11", "Metadata and bookmarks survive writing and reading",
 "Document metadata and an outline of any shape given to the writer are read back identical: every standard and custom field, dates with their zone, every bookmark title, nesting level, order and destination. The outline written is consistent under a strict reader: parent, sibling and child links agree and counts are exact.",
 ["inputs", "programs"], "Every metadata record and bookmark forest: any Unicode or binary text, special characters, any depth and fan-out, destinations by page or URI.",
 "Tests use ASCII titles one level deep; escaping and link structure depend on the whole forest.",
 ["core/write/metadata.go", "core/write/bookmarks.go", "content/extract/metadata.go", "content/extract/bookmarks.go"],
 [("info dictionary", "core/write/metadata.go"), ("outline writer", "core/write/bookmarks.go"), ("outline reader", "content/extract/bookmarks.go")],
 ["PDFWriter.SetMetadata", "PDFWriter.SetBookmarks", "extract.ExtractMetadata", "extract.ExtractBookmarks"])
prop("C12", "Images and resources of a page are extracted completely",
 "Every image among the resources of a page, or of the forms it uses, is extracted exactly once with its dimensions, colour space, depth, filter and undamaged data, and page resources list exactly the fonts and the image and form objects the page declares. Exporting a document to a directory writes one file per distinct image with that data plus a faithful index, only inside the chosen directory, and extraction gives the same result every time.",
 ["inputs", "configurations"], "Every set of images and fonts over every set of pages: shared and unshared objects, equal names on different pages, inherited or indirect resources, any data.",
 "Tests place one image on one page; collisions, sharing and inheritance need combinations.",
 ["content/extract/images.go", "content/extract/resources.go", "content/extract/directory.go", "core/write/image.go"],
 [("image extraction", "content/extract/images.go"), ("directory export", "content/extract/directory.go"), ("image embedding", "core/write/image.go")],
 ["extract.ExtractAllImages", "extract.ExtractToDirectory", "SimplePDFBuilder.AddImage"])
prop("C13", "Page edits follow the page-list model",
 "After any sequence of page rotations, deletions and insertions the rebuilt document contains exactly the pages a simple list model predicts, in order, each with its own content, size, resources and accumulated rotation, and everything else in the document is unchanged. The result is a valid document with a consistent page tree, and edits outside the valid range are refused without changing anything.",
 ["histories", "inputs"], "Every sequence of edit operations on every document with 1..n pages, flat or nested page trees, inherited attributes and any object values.",
 "Tests apply one edit to a one- or two-page file; composition of edits is unbounded.",
 ["core/manipulate/manipulate.go", "core/manipulate/rotation.go", "core/manipulate/deletion.go", "core/manipulate/insertion.go"],
 [("Rebuild", "core/manipulate/manipulate.go"), ("page operations", "core/manipulate/deletion.go")],
 ["PDFManipulator.Rebuild"])
prop("C14", "Extract, split and merge keep every page intact",
 "Extracting pages, splitting and merging produce valid documents whose pages are exactly the selected pages in the requested order, each with the same content, size, rotation and every object it depends on. Splitting partitions the pages as requested, and merging the parts of a split gives back the original page sequence.",
 ["inputs", "programs"], "Every document and every page selection, partition and list of documents, with shared, nested and inherited resources and colliding object numbers.",
 "Tests check page counts on trivial files; dependency copying and renumbering depend on the object graph.",
 ["core/manipulate/extraction.go", "core/manipulate/splitting.go", "core/manipulate/merging.go", "core/manipulate/manipulate.go"],
 [("page copying", "core/manipulate/extraction.go"), ("merge renumbering", "core/manipulate/merging.go")],
 ["manipulate.ExtractPages", "manipulate.SplitPDF", "manipulate.MergePDFs"])
prop("C15", "Comparison reports exactly the differences present",
 "Comparing a document with itself, or with a rewrite of the same content (other object numbers, file form, encoding of strings and streams, order of the content), reports it identical. Two documents that differ in information entries, version, encryption, page count, page size or rotation, in the wording, place, font or size of text, in graphics, images, annotations, bookmarks or form fields are reported as different, with each added, removed, modified or moved item listed once, nothing unchanged listed, and the counts, summary and reports in step with the lists. Swapping the documents swaps additions and removals. Tolerances and the ignore options suppress exactly the differences they name.",
 ["inputs", "configurations"], "Every pair of documents obtained by any set of edits, and every combination of comparison options. Fonts are compared by resource name, and only at element granularity; XMP metadata, text colour, soft masks and the page a link leads to are not compared.",
 "Tests compare a few fixed pairs; reflexivity, symmetry and sensitivity quantify over all documents and options.",
 ["core/compare/compare.go", "core/compare/text_diff.go", "core/compare/myers_diff.go", "core/compare/report.go"],
 [("comparison phases", "core/compare/compare.go"), ("text diff", "core/compare/text_diff.go")],
 ["compare.ComparePDFsWithOptions", "compare.ComparePDFs", "compare.GenerateReport", "compare.GenerateJSONReport"])
prop("C16", "Form fields are reported as the document defines them",
 "Every interactive form field of a document is reported once with its full name, type, value, default, flags, options, position and page association, whether fields are flat or nested and wherever their attributes are inherited. Forms created with the form builder are reported back with exactly the properties given.",
 ["inputs", "programs"], "Every forest of fields, any names and values with special characters, types, flags, options and rectangles.",
 "Tests read two fixed fields; names, escapes, inheritance and nesting are unbounded.",
 ["forms/acroform/parser.go", "forms/acroform/writer.go", "forms/acroform/extract.go", "forms/forms.go"],
 [("field parsing", "forms/acroform/parser.go"), ("form builder", "forms/acroform/writer.go")],
 ["acroform.ParseAcroForm", "acroform.ExtractFormSchema", "forms.Extract"])
prop("C17", "Filling a form sets exactly the named fields",
 "After filling a form, reading it back gives each named field its new value exactly, whatever characters the value contains, and leaves every other field and every other object of the document unchanged. The filled document is still a valid document that opens, and filling with no values changes nothing.",
 ["inputs", "histories"], "Every form and assignment of values, any characters, repeated fills, fields stored directly or inside object streams, any field order and object numbers.",
 "Tests fill one ASCII value; escaping, neighbouring object numbers, offsets and sequences of fills are not sampled.",
 ["forms/acroform/replace.go", "forms/acroform/fill_streams.go", "forms/acroform/stream_rebuild.go", "forms/acroform/writer.go", "forms/forms.go"],
 [("field replacement", "forms/acroform/replace.go"), ("object stream rebuild", "forms/acroform/stream_rebuild.go")],
 ["acroform.FillForm", "Form.Fill"])
prop("C18", "Validation accepts exactly the values the field rules allow",
 "A value passes form validation exactly when it satisfies every rule the field declares: required, maximum length in characters, pattern, numeric range, and membership in the options. Each offending field is reported by name, all of them are reported, and valid data is never rejected.",
 ["inputs", "configurations"], "Every field definition and every value, including absent, empty, multi-valued and non-ASCII ones, and rule combinations.",
 "Tests try single rules on single values; rule combinations and boundary values are unbounded.",
 ["forms/acroform/validation.go", "forms/forms.go"],
 [("field validation", "forms/acroform/validation.go")],
 ["acroform.ValidateField", "acroform.ValidateFormSchema"])
prop("C19", "XFA packets are extracted and replaced byte for byte",
 "The packets of an XFA document are extracted exactly as embedded, whatever their order, compression or count, and rebuilding or updating the document yields a valid file in which the replaced packets read back exactly as supplied and every other object is unchanged. Building a new document from a set of packets and extracting them again is the identity.",
 ["inputs", "histories"], "Every set of packets and contents (any size and characters), compressed or not, and every sequence of replacements.",
 "Tests use one fixture whose packets keep their size; offsets, lengths and growth depend on contents.",
 ["forms/xfa/stream.go", "forms/xfa/xfa.go", "forms/xfa/parse_then_decrypt.go", "core/write/xfa_builder.go"],
 [("packet extraction", "forms/xfa/stream.go"), ("rebuild", "core/write/xfa_builder.go")],
 ["xfa.ExtractAllXFAStreams", "xfa.RebuildPDFFromXFAStreams", "xfa.UpdateXFAInPDF"])
prop("C20", "XFA XML and its structured form convert without loss",
 "For each XFA packet kind (form template, datasets, configuration, locales, connections, stylesheets) parsing the XML generated from a structured value gives back that value, and generated XML is well formed whatever characters the values contain. Updating field values in a packet changes exactly the named fields.",
 ["inputs"], "Every structured value representable in the packet kind: text without surrounding white space where XML parsers trim it, element names for groups and property names that mean nothing else in the packet, data values in their canonical type, one of read-only and hidden, rules of the event kinds XFA has; texts are otherwise arbitrary, markup characters included.",
 "Tests round-trip a few fixed structures; escaping, optional members, nesting and repetition are unbounded.",
 ["forms/xfa/xfa_form_translator.go", "forms/xfa/xfa_datasets_translator.go", "forms/xfa/xfa_config_translator.go", "forms/xfa/xfa_locale_translator.go", "forms/xfa/xfa_connection_translator.go", "forms/xfa/xfa_stylesheet_translator.go", "forms/xfa/xfa_utils.go"],
 [("translators", "forms/xfa/xfa_form_translator.go"), ("value update", "forms/xfa/xfa.go")],
 ["xfa.Parse*", "xfa.*ToXFA", "xfa.UpdateXFAFieldValues"])
prop("C21", "Embedded fonts keep glyphs, widths and text mapping",
 "Parsing a TrueType or OpenType font reports the metrics, Unicode names, tables, character map and glyph widths (in font units) the font file defines. Embedding a font with the characters added to it yields a font whose program is well-formed and whose dictionaries describe it; text shown through the page builder draws, for every added character, the glyph outline the font's Unicode character map gives it (the missing glyph if none), with its advance width to within a thousandth of the font size, and maps back to the same characters.",
 ["inputs"], "Every well-formed TrueType or OpenType font with a Unicode character map (any table order, character map format, composite glyphs, metric counts) and every set of characters other than control characters, added before the font is embedded.",
 "Tests use one font and a few Latin letters; table layouts, composites and code points are unbounded.",
 ["resources/font/font.go", "resources/font/pdf.go"],
 [("TTF parser and subsetter", "resources/font/font.go"), ("embedding", "resources/font/pdf.go")],
 ["font.ParseTTF", "Font.GetSubsetGlyphs", "Font.GetWidths", "Font.ToPDFObjects", "PageBuilder.AddEmbeddedFont"])
prop("C22", "Same input, same output, and inputs are left alone",
 "Every reading, comparing and writing operation is deterministic: repeating it on the same input, also after or while other operations run on other documents, gives the same result, and emitting a document twice gives the same bytes (key material and time stamps aside). No operation modifies the bytes or structures its caller passed in.",
 ["inputs", "histories", "schedules"], "Every input document and every sequence of writer calls; repeated and simultaneous runs of each operation.",
 "A single run cannot show dependence on iteration order or hidden state; tests run each operation once.",
 ["core/write/writer.go", "core/write/page.go", "content/extract", "core/compare", "core/manipulate", "forms"],
 [("ordered emission", "core/write/writer.go")],
 ["every exported operation"])
prop("C23", "Errors and warnings carry their classification faithfully",
 "An error's category is recognised however deeply it is wrapped, its message and cause are preserved, and each category test agrees with the code it carries. A warning collector returns exactly the warnings added while enabled, in order and with their level, and its filters and counts agree with that list.",
 ["inputs", "histories"], "Every code, message, nesting of wrapped errors and every sequence of collector calls.",
 "Tests check single errors unwrapped; nesting and call sequences are unbounded.",
 ["types/errors.go", "types/warnings.go"],
 [("error helpers", "types/errors.go"), ("collector", "types/warnings.go")],
 ["types.GetErrorCode", "types.WarningCollector"])

prop("C24", "Annotations and page geometry are extracted as the document defines them",
 "Extracting the content of a document reports for every page, in order, its number, size, rotation and five boxes, own or inherited, and its annotations in order with the type, rectangle, texts, colour, border, quadrilaterals, link target and state that the document gives them; the document's list is the pages' lists joined. The JSON form exists whenever the content can be extracted and says the same, and so does the index of the directory export.",
 ["inputs"], "Every page tree, number form, annotation type, direct or indirect entry, text encoding and file form, encrypted or not; numbers of any magnitude.",
 "Tests read annotations that the writer made, with direct integer entries and pages with their own boxes.",
 ["content/extract/annotations.go", "content/extract/pages.go", "content/extract/extract.go", "content/extract/directory.go"],
 [("annotations", "content/extract/annotations.go"), ("page attributes", "content/extract/pages.go"), ("JSON form", "content/extract/extract.go"), ("directory export", "content/extract/directory.go")],
 ["extract.ExtractContent", "extract.ExtractContentToJSON", "extract.ExtractToDirectory"])

prop("C25", "Everything asked of the document builders is in the document",
 "A document built from pages, text, drawing, images, watermarks, metadata, bookmarks, annotations, forms, appearances, actions and encryption has all of them, in whatever order they were asked for: each page shows exactly its own content, watermarks lie where and how their options say without affecting what follows, and forms keep the catalog and are shown on their pages. Appearances show the text given in a font they bring, and a refused request changes nothing.",
 ["programs"], "Every order and combination of builder calls, options given or left out, refused calls in between, every file mode, encrypted or not.",
 "Tests ask for one feature at a time and look at whether the output parses.",
 ["core/write/page.go", "core/write/watermark.go", "core/write/writer.go", "forms/acroform/integration.go", "forms/acroform/appearance.go", "forms/acroform/actions.go", "forms/acroform/writer.go"],
 [("watermarks", "core/write/watermark.go"), ("builder", "core/write/page.go"), ("forms", "forms/acroform/integration.go"), ("appearances", "forms/acroform/appearance.go"), ("actions", "forms/acroform/actions.go")],
 ["write.SimplePDFBuilder", "PageBuilder.AddWatermark", "acroform.FormBuilder", "acroform.AppearanceBuilder", "acroform.AddActionToField"])

prop("C26", "The command line does what it reports, or fails and touches nothing",
 "Filling a form with the command line writes a document in which the named values of the XFA data are the given ones and everything else is as in the input, and extracting the schema writes JSON of exactly the form in the template; both also for documents opened by the empty or a common password. Such a run ends with status 0, reports what it did and changes no file but the output and the log; a run that cannot succeed ends with a nonzero status and a message, without a report of success, and leaves every file, an existing output too, as it was.",
 ["inputs", "configurations"], "Any XFA document, any JSON object of values, options in any order and form, relative and absolute paths, an output that exists or is the input, and any reason to fail.",
 "The tests do not run the command line at all.",
 ["cmd/pdfer/main.go", "forms/xfa/xfa.go"],
 [("command line", "cmd/pdfer/main.go"), ("update", "forms/xfa/xfa.go")],
 ["pdfer -input -data -output", "pdfer -extract-schema"])

CLAIMED = {}
exec(open(os.path.join(HERE, "tools", "claimed.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in CLAIMED:
        tech, note = CLAIMED[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                            "technique": tech, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NOT_YET.get(p["id"], "generated check not built yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
