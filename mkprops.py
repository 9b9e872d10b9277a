# generates properties.jsonl (one place to edit them)
import json
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         state=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': s, 'meaning': s} for s in state]
    if observe:
        anchors['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors=anchors))


S = 'src/hwp5/'

prop('P01', 'Record streams round-trip and are framed exactly',
     'Records written out in the HWP record-stream format and read back have the same tags, levels, sizes, payloads and order, for every tag, every level, and every payload size including empty payloads and sizes needing the extended size field. '
     'Reading consumes exactly the bytes of each record, numbers records consecutively from zero, and stops at the end of the stream. '
     'A record whose header or payload is cut off by the end of the stream is never delivered as if it were a complete record.',
     ['inputs'], 'every record sequence up to a bounded length over boundary tags, levels and payload sizes, and every truncation point of the resulting streams',
     'A handful of sample streams never contains empty records, boundary sizes 0xffe/0xfff/0x1000, or every cut point.',
     [S + 'recordstream.py', S + 'dataio.py'],
     [('record header codec', S + 'recordstream.py:decode_record_header/encode_record_header'),
      ('record reader/writer', S + 'recordstream.py:read_record/read_records/dump_record'),
      ('exact-size reads', S + 'dataio.py:readn')],
     observe=['hwp5.recordstream.read_records', 'hwp5proc records'])

prop('P02', 'Record selection and listing agree with the stream',
     'Grouping a record stream by top-level trees partitions it: concatenating the groups in order gives back every record exactly once, and each group starts at a level-0 record (the first group excepted). '
     'Selecting a range, one record, or one tree group by number yields exactly the corresponding slice, on the library and on the command line, and a selection beyond the end is empty rather than an error or a wrong record. '
     'The raw, raw-header, raw-payload, simple and JSON listings of a selection all describe the same records, and the raw listing of a whole stream is byte-identical to the stream itself.',
     ['inputs', 'configurations'], 'every level sequence up to a bounded length crossed with every range / tree-group selection and every output format',
     'Tests print a few selections of one sample; off-by-one and boundary groups only show for particular level patterns.',
     [S + 'recordstream.py', S + 'proc/records.py'],
     [('grouping', S + 'recordstream.py:group_records_by_toplevel'),
      ('selection', S + 'recordstream.py:RecordStream.records'),
      ('listing command', S + 'proc/records.py:main')],
     observe=['hwp5proc records', 'hwp5.recordstream.RecordStream'])

prop('P03', 'Record levels and nested events describe the same tree',
     'For every well-formed sequence of levels, the start/end event stream is balanced, starts every item exactly once in stream order, and nests each item under the nearest preceding item of the next lower level. '
     'Rebuilding a tree from events and flattening it again is the identity, and the ancestors reported for an item are exactly its open enclosing items. '
     'A level that skips a generation is rejected instead of being attached somewhere.',
     ['inputs'], 'every level sequence up to a bounded length, well-formed or not',
     'Tree shapes are unbounded; tests cover two or three fixed shapes.',
     [S + 'treeop.py'],
     [('levels to events', S + 'treeop.py:prefix_event'),
      ('ancestors', S + 'treeop.py:prefix_ancestors, prefix_ancestors_from_level'),
      ('tree build/flatten', S + 'treeop.py:build_subtree, tree_events')],
     observe=['hwp5.treeop'])

prop('P04', 'Record payloads decode to the values their layout defines',
     'For every record type, document format version and combination of the flags and counts that make members optional, selected or repeated, the decoded fields equal the values encoded in the payload, in layout order, and a member is present exactly when its version and condition say so. '
     'Bytes after the last member are reported as an unparsed remainder, never absorbed or lost. '
     'A payload that ends inside a member is reported as a parse error for that record rather than decoded to made-up values.',
     ['inputs', 'configurations'], 'every record type, every version at and around each version gate, every value of every selecting flag, array counts 0..2, and every truncation point',
     'The sample documents exercise one format version and one flag combination per record.',
     [S + 'bintype.py', S + 'dataio.py', S + 'binmodel/__init__.py', S + 'binmodel/_shared.py'] + [S + 'binmodel/tagid%s.py' % n for n in ('17_id_mappings', '19_face_name', '21_char_shape', '25_para_shape', '50_para_header', '56_list_header', '60_shape_component', '61_table', '69_shape_component_picture')],
     [('typed member resolution', S + 'bintype.py:resolve_typedefs'),
      ('version filter', S + 'bintype.py:filter_with_version'),
      ('primitive decoding', S + 'bintype.py:resolve_value_from_stream'),
      ('record model selection', S + 'binmodel/__init__.py:parse_models_intern')],
     observe=['hwp5proc models', 'hwp5.binmodel.parse_models'])

prop('P05', 'Parsing does not depend on what was parsed before or concurrently',
     'The result of parsing a document, stream or record depends only on its bytes and format version: any sequence of earlier parses, with other versions, other record types, failures or abandoned half-read iterations, leaves it unchanged. '
     'Reading two streams in an interleaved fashion, or parsing documents in several threads at once, gives each the result it has when parsed alone. '
     'Consuming a result never changes what a later read of the same document returns.',
     ['histories', 'schedules'], 'every operation sequence up to a bounded depth over colliding types and versions, every interleaving of two lazy readers, and every thread schedule up to a preemption bound',
     'Each test parses in a fresh state and one thread; cache poisoning needs a particular order or interleaving.',
     [S + 'bintype.py', S + 'dataio.py', S + 'binmodel/__init__.py', S + 'utils.py'],
     [('compiled layout caches', S + 'bintype.py:master_typedefs, versioned_typedefs'),
      ('array type cache', S + 'dataio.py:FixedArrayType.classes'),
      ('parsing context', S + 'binmodel/__init__.py:parse_models_intern'),
      ('cached properties', S + 'utils.py:cached_property')],
     observe=['hwp5.binmodel', 'hwp5.xmlmodel'],
     state=['module-level layout caches', 'lazily computed document properties'])

prop('P06', 'Paragraph text decoding accounts for every character unit',
     'Decoding a paragraph text payload splits it into text runs and control characters that cover the payload from first to last code unit, in order, without gaps or overlaps. '
     'Each character-type control takes one unit and each inline or extended control takes eight, and inline/extended controls report their code, control id and parameter bytes as stored; every other unit comes back unchanged as text. '
     'This holds for every code-unit sequence, including controls at the very start or end, adjacent controls, and control-like bytes inside parameters or straddling two ordinary characters.',
     ['inputs'], 'every sequence up to a bounded length over an alphabet of ordinary characters, look-alike code units and each control kind',
     'Bugs hide in alignment and adjacency of controls; samples contain only a few arrangements.',
     [S + 'binmodel/controlchar.py', S + 'binmodel/tagid51_para_text.py'],
     [('control search/decode', S + 'binmodel/controlchar.py:ControlChar.find, ControlChar.decode'),
      ('chunking', S + 'binmodel/tagid51_para_text.py:ParaTextChunks.parse_chunks')],
     observe=['hwp5.binmodel.ParaTextChunks', 'hwp5proc models'])

prop('P07', 'Styling splits text without changing it',
     'Combining paragraph text with character-shape positions and line positions yields runs whose concatenation is exactly the original text and controls in order. '
     'Every character carries the shape of the last shape position not after it and sits in the line of the last line position not after it, and a run never crosses a shape or line boundary.',
     ['inputs'], 'every text length, chunking, and strictly increasing set of shape and line positions up to a bound, including positions inside controls and beyond the end',
     'The split logic has many boundary alignments; tests cover a few fixed ones.',
     [S + 'xmlmodel.py'],
     [('range split', S + 'xmlmodel.py:make_ranged_shapes, split_and_shape'),
      ('line grouping', S + 'xmlmodel.py:line_segmented'),
      ('paragraph merge', S + 'xmlmodel.py:merge_paragraph_text_charshape_lineseg')],
     observe=['hwp5proc xml', 'hwp5.xmlmodel'])

prop('P08', 'Script runs partition text by language class',
     'Splitting text by script preserves it exactly: concatenating the runs gives back the text, no run is empty, and adjacent runs differ in language class. '
     'Each character gets the language class of the block it belongs to, independent of its neighbours, except that class-neutral characters such as spaces and common punctuation join a neighbouring run.',
     ['inputs'], 'every code point of the BMP and beyond alone, and every string up to a bounded length over one representative of each class',
     'The class tables have hundreds of ranges and the run state machine has order-dependent states.',
     [S + 'charsets.py', S + 'xmlmodel.py'],
     [('classification and tokenizing', S + 'charsets.py:tokenize_unicode_by_lang'),
      ('application to document text', S + 'xmlmodel.py:tokenize_text_by_lang')],
     observe=['hwp5.charsets', 'hwp5proc xml'])

prop('P09', 'XML output is well-formed and preserves every value',
     'For every document the parser accepts, the XML produced by the xml command, the document events and the per-stream XML views is well-formed in the declared encoding. '
     'Text and string values read back from that XML equal the document\'s values, whatever markup-significant, whitespace or non-ASCII characters they contain; only characters that XML cannot represent may be missing. '
     'Every start event has its matching end event in properly nested order.',
     ['inputs'], 'every code unit in text and in string attributes, every pair over an alphabet of markup and control characters, and bounded document structures',
     'Escaping and illegal-character handling depend on the data; sample documents are benign.',
     [S + 'xmlformat.py', S + 'xmlmodel.py', S + 'xmldump_flat.py'],
     [('serialization', S + 'xmlformat.py:xmlevents_to_textchunks'),
      ('attribute expansion', S + 'xmlformat.py:expanded_xmlattribute, startelement'),
      ('document events', S + 'xmlmodel.py:XmlEvents')],
     observe=['hwp5proc xml', 'XmlEvents.dump'])

prop('P10', 'XML structure contains every record once, in its place',
     'In the XML form of a document every section, paragraph, control, table, row, cell, shape and list of the record tree appears exactly once and in document order. '
     'Paragraphs belong to the list, cell, header or note that owns them, the table rows and cells follow the row sizes of the table, and each control appears inline at the control character that refers to it, in order. '
     'Nothing is dropped when a control character, list, table, column or section boundary falls at the start or end of its container.',
     ['inputs'], 'every bounded nesting and ordering of paragraphs, controls, list headers, table cells, columns and sections',
     'Restructuring passes are chained streaming transducers whose interaction depends on nesting order.',
     [S + 'xmlmodel.py', S + 'treeop.py'],
     [('inline controls', S + 'xmlmodel.py:make_extended_controls_inline'),
      ('list ownership', S + 'xmlmodel.py:make_paragraphs_children_of_listheader'),
      ('table rows', S + 'xmlmodel.py:restructure_tablebody'),
      ('sections and columns', S + 'xmlmodel.py:wrap_section, wrap_columns')],
     observe=['hwp5proc xml', 'xmlmodel.Hwp5File.xmlevents'])

prop('P11', 'Fields enclose exactly the text between their marks',
     'A field element in the XML encloses exactly the text and controls between its start mark and its matching end mark, nested fields nest, and a field that spans several lines is closed at the end of each line and reopened on the next. '
     'A stray end mark is ignored without disturbing the surrounding text. '
     'The text of a paragraph is the same with and without the fields.',
     ['inputs'], 'every arrangement up to a bounded length of text, field starts, field ends and line breaks',
     'Matching state carries across line boundaries; only long histories expose leaks.',
     [S + 'xmlmodel.py'],
     [('field matching', S + 'xmlmodel.py:match_field_start_end, mfse_lineseg')],
     observe=['hwp5proc xml'])

prop('P12', 'Identifiers are unique and embedded binaries are intact',
     'Within one XML document every paragraph, table and shape identifier is unique per kind and numbered in document order without gaps. '
     'When binaries are embedded, each embedded item carries exactly the bytes of the binary stream its record names, matched by storage id and extension, for every size and content; linked items carry none.',
     ['inputs'], 'every bounded arrangement of identified elements, and every binary size across the line-wrapping and chunking boundaries',
     'Wrapping and numbering errors appear at particular sizes or mixes of items.',
     [S + 'xmlmodel.py', S + 'binmodel/tagid18_bin_data.py'],
     [('ids', S + 'xmlmodel.py:give_elements_unique_id'),
      ('embedding', S + 'xmlmodel.py:embed_bindata')],
     observe=['hwp5proc xml --embedbin'])

prop('P13', 'Stored content is recovered under every document flag',
     'For every combination of the compressed, distribution and password flags, opening a document gives the original plain content of its document information, body, binary and script streams, and leaves streams outside these layers as stored; the readable text comes from the distribution copy exactly when the document is a distribution document. '
     'A password-protected document still exposes its streams as stored instead of decoding them wrongly. '
     'Sections are found by number and ordered numerically whatever the storage order, and reading streams in any order, repeatedly, or partially gives the same bytes.',
     ['inputs', 'configurations', 'histories'], 'every flag combination, stream size at chunk boundaries, storage order and bounded read sequence',
     'Only a few flag combinations exist among the samples and each is read once.',
     [S + 'filestructure.py', S + 'storage/__init__.py', S + 'compressed.py', S + 'distdoc.py'],
     [('layering', S + 'filestructure.py:Hwp5File.__init__'),
      ('decompression', S + 'filestructure.py:Hwp5Compression'),
      ('distribution layer', S + 'filestructure.py:Hwp5DistDoc'),
      ('sections', S + 'filestructure.py:Sections.section_indexes')],
     observe=['hwp5.filestructure.Hwp5File', 'hwp5proc cat'])

prop('P14', 'Every listed stream opens, and only with its own content',
     'Every stream name printed by listing a document, with or without virtual streams or in raw mode, can be opened by that name and yields that stream\'s content; every stream stored in the file at any depth is listed exactly once. '
     'A name that is not in the document is refused. '
     'Virtual streams show the same data as the interface they stand for.',
     ['inputs', 'configurations'], 'every bounded storage tree (names, nesting, empty streams and storages) in every listing mode',
     'Samples have one flat layout; nesting, odd names and empty items never occur there.',
     [S + 'storage/__init__.py', S + 'plat/olefileio.py', S + 'proc/ls.py', S + 'proc/cat.py'],
     [('virtual streams', S + 'storage/__init__.py:ExtraItemStorage'),
      ('directory listing', S + 'plat/olefileio.py:olefile_listdir'),
      ('path lookup', S + 'storage/__init__.py:open_storage_item')],
     observe=['hwp5proc ls', 'hwp5proc cat'])

prop('P15', 'Unpacking reproduces the streams and stays inside its directory',
     'Unpacking a document writes one file per listed stream with exactly the bytes that reading the stream yields, in the directory structure of the storage, and the unpacked tree opened again as a storage gives back the same contents. '
     'Whatever names a hostile document gives its streams and storages, nothing is created or overwritten outside the output directory. '
     'An item that cannot be read does not corrupt the files already written.',
     ['inputs', 'fault_sequences'], 'every bounded storage tree including hostile names, in every unpacking mode, and each single read or write failure',
     'Tests unpack one benign sample.',
     [S + 'storage/__init__.py', S + 'storage/fs.py', S + 'proc/unpack.py', S + 'hwp5html.py'],
     [('unpack', S + 'storage/__init__.py:unpack'),
      ('reopening', S + 'storage/fs.py:FileSystemStorage')],
     observe=['hwp5proc unpack', 'hwp5html output directory'])

prop('P16', 'Streaming readers return the same bytes for every read pattern',
     'Decompressing a stream, raw unzipping, and reading generated streams give exactly the same bytes whether read whole, in pieces of any sizes, or mixed, and whatever sizes the underlying source delivers. '
     'A sized read never returns more than was asked for, and returns less only at the end of the data; the reported position is the number of bytes returned. '
     'Compressing and decompressing, in one call or incrementally with any input split, are inverse.',
     ['inputs', 'schedules'], 'every sequence of read sizes up to a bound, over data sizes at the internal chunk boundaries and every split of the source data',
     'Buffering bugs only appear for particular combinations of sizes.',
     [S + 'compressed.py', S + 'zlib_raw_codec.py', S + 'utils.py', S + 'proc/rawunz.py'],
     [('generator readers', S + 'utils.py:GeneratorReader, GeneratorTextReader'),
      ('raw zlib codec', S + 'zlib_raw_codec.py:StreamReader, IncrementalEncoder, IncrementalDecoder'),
      ('decompress', S + 'compressed.py:decompress, decompress_gen')],
     observe=['hwp5.zlib_raw_codec', 'hwp5.compressed', 'hwp5.utils', 'hwp5proc rawunz'],
     state=['reader buffer', 'reader offset'])

prop('P17', 'Distribution streams decrypt to the original for every key',
     'For every seed, password hash and plain content, a distribution stream produced by the published scheme decodes to the original content, and the key and password hash reported for it are the ones it was made with. '
     'The outcome is the same through the library, the diststream command and the document layer, and with each available cipher backend. '
     'A stream whose first record is not distribution data, or whose header has the wrong size, is refused.',
     ['inputs', 'configurations'], 'all seeds modulo the offset and generator classes, content lengths at block boundaries, and every wrong-header variant',
     'One sample document has one seed.',
     [S + 'distdoc.py', S + 'plat/__init__.py', S + 'proc/diststream.py', S + 'filestructure.py'],
     [('header decoding', S + 'distdoc.py:decode_head_to_sha1, decode_head_to_key'),
      ('decryption', S + 'distdoc.py:decode, decrypt_tail'),
      ('cipher backends', S + 'plat/__init__.py:get_aes128ecb_decrypt')],
     observe=['hwp5.distdoc', 'hwp5proc diststream', 'hwp5proc cat'])

prop('P18', 'Summary information reports every stored property faithfully',
     'For every set of properties, in any storage order and of any supported value type, the summary information shows each stored property exactly once with its stored value, and properties that are absent are reported as absent rather than as an error or another property\'s value. '
     'Times are shown with the exact instant stored, to the microsecond, and strings in full. '
     'The header of the stream, the identifiers of the property sets and the places of the properties are reported as stored, and the text view and the XML list the properties in the order in which they are stored. '
     'The summary command, the text view, the XML and the library accessors agree.',
     ['inputs'], 'every subset and order of properties up to a bound, every supported value type, and boundary values of each',
     'One sample document has one property set.',
     [S + 'msoleprops.py', S + 'summaryinfo.py', S + 'filestructure.py', S + 'xmlmodel.py', S + 'proc/summaryinfo.py'],
     [('property set reader', S + 'msoleprops.py:PropertySetStreamReader'),
      ('accessors', S + 'filestructure.py:HwpSummaryInfo'),
      ('text', S + 'summaryinfo.py:HwpSummaryInfoTextFormatter'),
      ('xml', S + 'xmlmodel.py:PropertySetStreamModelEventsGenerator')],
     observe=['hwp5proc summaryinfo', 'hwp5.filestructure.HwpSummaryInfo'])

prop('P19', 'Plain-text conversion keeps all text in reading order',
     'Converting a document to plain text outputs the characters of every paragraph of its body in document order: tabs, line breaks, fixed-width spaces, non-breaking spaces and hyphens as the corresponding characters, a line end after each paragraph, however the text is split into character shapes, lines, fields or sections. '
     'A table or drawing object is represented by its place mark on a line of its own (the paragraphs inside it are not output); the paragraphs of footnotes, endnotes, headers, footers and hidden comments follow on lines of their own where they are anchored. '
     'Characters are never duplicated, reordered or merged across paragraphs, and none is dropped except those which XML cannot represent (control codes, lone surrogates, U+FFFE, U+FFFF). '
     'It holds for the hwp5txt command with and without --output, for either XSLT implementation, and for any sequence of conversions with one converter.',
     ['inputs', 'histories'], 'every bounded document over paragraphs, characters, text splits, line breaks, tables, notes and controls, and bounded conversion sequences',
     'Depends on combinations of styling splits and nesting which samples do not cover.',
     [S + 'hwp5txt.py', S + 'xsl/plaintext.xsl', S + 'xmlmodel.py'],
     [('conversion', S + 'hwp5txt.py:TextTransform'),
      ('stylesheet', S + 'xsl/plaintext.xsl')],
     observe=['hwp5txt'])

prop('P20', 'ODT packages are complete, valid and keep the text',
     'Converting a document to ODT yields a zip package whose manifest lists exactly the parts it contains, whose parts are well-formed and valid against the OpenDocument schemas, and which contains every binary item of the document byte for byte under the name its pictures refer to. '
     'Every style, font, master page and page layout which is referred to is declared exactly once, and different styles of the document are different styles of the package whatever their names are. '
     'The content has the characters of every paragraph of the document in reading order with the character shape of each, tabs and line breaks, footnotes, endnotes and text boxes where they are anchored, and each table after its paragraph with its rows, cells and spans (consecutive spaces are kept; hidden comments, a single space at the end of a paragraph, and characters which XML cannot represent, need not be). '
     'Converting again, or after other documents, gives the same result; the content, styles and single-document forms (with or without embedded images) and either XSLT and validator implementation satisfy the same.',
     ['inputs', 'histories'], 'every bounded document over paragraphs, styles, tables, images and flags, and bounded conversion sequences',
     'The style and structure mapping is input-dependent; tests inspect a few samples.',
     [S + 'hwp5odt.py', S + 'xsl/odt/common.xsl', S + 'xsl/odt/content.xsl', S + 'xsl/odt/styles.xsl', S + 'transforms/__init__.py'],
     [('package writer', S + 'hwp5odt.py:ODTPackage, manifest_xml'),
      ('transforms', S + 'hwp5odt.py:ODTTransform')],
     observe=['hwp5odt'])

prop('P21', 'HTML output is complete and self-consistent',
     'Converting a document to HTML yields a well-formed page with all of the document\'s text in reading order: paragraphs, tables with their rows, cells, spans and captions, drawing objects with their text and pictures, notes after the paragraph which refers to them, and headers and footers around the page (hidden comments are not shown). '
     'The style sheet is valid whatever the names of styles, fonts and bullets and the values of the document\'s tables; it defines every class which the page uses for a style, paragraph shape, character shape, border or bullet of the document, different styles have different classes, and under it every piece of text has the font, size, colour and decoration of its own character shape and every paragraph the margins and alignment of its own paragraph shape. '
     'Every embedded binary item is written as a byte-exact file, under the name which the pictures of the page refer to. '
     'Nothing else is written, and the same document always gives the same result.',
     ['inputs'], 'every bounded document over paragraphs, styles, shapes, tables, images, names',
     'Tests inspect one or two samples.',
     [S + 'hwp5html.py', S + 'xsl/hwp5html.xsl', S + 'xsl/hwp5css.xsl'],
     [('directory output', S + 'hwp5html.py:HTMLTransform.transform_hwp5_to_dir'),
      ('stylesheets', S + 'xsl/hwp5html.xsl, ' + S + 'xsl/hwp5css.xsl')],
     observe=['hwp5html'])

prop('P22', 'Failures are reported and leave no debris',
     'When any single read, write or transform step of a command or conversion fails, the failure is reported to the caller (an exception from the library, a non-zero exit status from a command) and never presented as success. '
     'Whether it succeeds or fails, every temporary file it created is removed and every file it opened is closed. '
     'An invalid result never reaches the output of a validating transform. '
     'The one exception is the optional formatting program of the --format options: when it cannot be started, the command says so and writes the same XML unformatted.',
     ['fault_sequences'], 'every single input/output operation of every command and conversion failing (once, for good, or in part), every cut of a document, and every failure of the programs and transforms they run',
     'Error paths at each step are not reachable by ordinary tests.',
     [S + 'utils.py', S + 'transforms/__init__.py', S + 'plat/_lxml.py', S + 'hwp5odt.py', S + 'hwp5html.py', S + 'hwp5txt.py', S + 'hwp5proc.py'],
     [('temporary files', S + 'utils.py:mkstemp_open'),
      ('validating output', S + 'plat/_lxml.py:ValidatingOutput'),
      ('commands', S + 'hwp5proc.py:main')],
     observe=['hwp5proc', 'hwp5odt', 'hwp5html', 'hwp5txt'])

prop('P23', 'Files that are not HWP v5 documents are refused cleanly',
     'Any file that is not an OLE2 file with a valid HWP v5 header, whatever its bytes, is refused with the documented invalid-file error by the library and with an error message and non-zero exit status by every command, without a crash and without producing output. '
     'Every file with a valid header is recognised, whatever its version and flag bits, and its version and flags are reported exactly.',
     ['inputs', 'configurations'], 'every truncation and every single-byte change of the signature, every header size, missing or misplaced header streams, and every flag bit',
     'Invalid inputs are countless; tests try one or two.',
     [S + 'filestructure.py', S + 'plat/olefileio.py', S + 'cli.py'],
     [('recognition', S + 'filestructure.py:storage_is_hwp5file, Hwp5FileBase'),
      ('header', S + 'filestructure.py:HwpFileHeader')],
     observe=['hwp5.filestructure.is_hwp5file', 'hwp5proc', 'hwp5odt', 'hwp5html', 'hwp5txt'])

prop('P24', 'Document-wide tables resolve to the right entries',
     'Looking up document information by kind, index or language gives exactly the entries the id-mapping counts assign, in stored order: the n-th font of a language, the n-th character shape, the n-th style and so on. '
     'A reference from text, style or shape resolves to the same entry in the models, the XML and the converted styles.',
     ['inputs'], 'every assignment of small counts to the mapped kinds and languages, and every reference into them',
     'Index arithmetic goes wrong only for uneven counts; samples are regular.',
     [S + 'binmodel/__init__.py', S + 'binmodel/tagid17_id_mappings.py', S + 'xsl/hwp5css.xsl', S + 'xsl/odt/common.xsl'],
     [('lookups', S + 'binmodel/__init__.py:DocInfo')],
     observe=['hwp5.binmodel.DocInfo', 'hwp5proc xml'])

prop('P25', 'Model listings and searches select exactly what was asked',
     'Listing parsed records of a stream, in every output format and for every tree group or record selection, shows exactly the selected records with the same content they have in a full listing. '
     'Searching documents by record type or tag prints every matching record of every body section of every document given and no other, identified by its document, stream and record number.',
     ['inputs', 'configurations'], 'every bounded document set and every selection and search option combination',
     'Only a few options are run on one sample.',
     [S + 'proc/models.py', S + 'proc/find.py', S + 'binmodel/__init__.py'],
     [('models command', S + 'proc/models.py'),
      ('find command', S + 'proc/find.py'),
      ('model selection', S + 'binmodel/__init__.py:ModelStream')],
     observe=['hwp5proc models', 'hwp5proc find'])

prop('P26', 'Results depend only on the document and the arguments',
     'What a command writes to the standard output and into files, and its exit status, depend only on its arguments and the content of the document: they are the same bytes in every locale and language, time zone, with every hash seed, log level, log destination, working directory and way of naming the document, interpreter option, user setting, and with any standard input it is not asked to read. '
     'Log and error messages go to the standard error or the log file, never into the results. '
     'The document itself and all other files are left as they were, and no temporary files stay behind.',
     ['configurations'], 'every command line form in every environment: each value of each part of the environment, alone and combined with values of the other parts',
     'Tests run in one environment; a result which depends on another one is not seen in it.',
     [S + 'cli.py', S + 'hwp5proc.py', S + 'proc/', S + 'hwp5txt.py', S + 'hwp5html.py', S + 'hwp5odt.py', S + 'utils.py'],
     [('logging', S + 'cli.py:init_logger'),
      ('output files', S + 'utils.py:make_open_dest_file'),
      ('commands', S + 'proc/')],
     observe=['hwp5proc', 'hwp5odt', 'hwp5html', 'hwp5txt'])

prop('P27', 'Sizes, places, borders and looks arrive in ODT and HTML',
     'Measures of the document are those of the converted one, in the units of the target format and to the precision it writes: size, orientation and margins of the paper of each section (ODT page layouts used by the first paragraph of each section, HTML section rules), header and footer areas (documents of one section), page breaks before paragraphs, sizes, margins and padding of tables and cells, sizes, end points and transformations (scaling, rotation, translation in their recorded order) of drawing objects, widths, styles and colors of their lines and fills, and borders of cells side by side. '
     'Objects keep their anchor (character or paragraph), text wrapping, alignment and what they are placed relative to: the left margin of a block in HTML is computed from the paper (rotated if the page is landscape), page, column or paragraph it is placed in. '
     'A paragraph or a text has the look of its own shape whatever its style has: alignment, indents, margins, line spacing of its own kind, font, size, slant, weight and underline, overline or strike-through. '
     'Not covered: text colors and cell backgrounds in ODT, sections of several columns, inside and outside alignment, captions at the left or right side, background images and patterns.',
     ['inputs'], 'each measure at its boundary values while all others differ from each other; pairs of what objects are placed relative to and aligned at; chains of transformations; each shape in a style of each other shape; assignments of orientations and flags to sections and paragraphs',
     'Golden files fix one measure of one document; whether the right field, unit, side or shape is used shows only where fields differ from each other.',
     [S + 'xsl/odt/common.xsl', S + 'xsl/hwp5html.xsl', S + 'xsl/hwp5css.xsl', S + 'xsl/hwp5css-common.xsl', S + 'binmodel/controls/common_controls.py'],
     [('page layouts and styles', S + 'xsl/odt/common.xsl'),
      ('places of blocks', S + 'xsl/hwp5html.xsl:extendedcontrol-hpos'),
      ('style sheet', S + 'xsl/hwp5css-common.xsl')],
     observe=['hwp5odt', 'hwp5html'])

prop('P28', 'Low level dumps account for every value and byte of every record',
     'The events of a record stream (`hwp5proc models --events`) and the flat XML of a document (`hwp5proc xml --format=flat`) show every record once, in stored order, with its sequence number, level and tag; of each record every member present in its format version, in order, nested as structures and arrays, with its name, its value and the offset at which it is stored, the offset after the last one and the bytes left over there. The models in JSON (`hwp5proc models`) have the same members and values, the payload and the remainder of each record. '
     'Flag words are shown in hexadecimal and binary at their full width with each bit field, its bit positions, value and the name of the value, and texts as their pieces with their offsets. '
     'The flat XML has the file header, the document information and the sections in numeric order (those of the view text in a distribution document), each with its name.',
     ['inputs', 'configurations'], 'every record type in every format version with every combination of flags and counts, remainders, boundary values of every member and every value of each bit field; all texts up to a length; orders of sections',
     'Golden dumps fix one document of one version; the offset and presence of a member depend on version, flags and counts.',
     [S + 'xmldump_flat.py', S + 'proc/models.py', S + 'bintype.py', S + 'binmodel/__init__.py'],
     [('flat dump', S + 'xmldump_flat.py:xmlevents_from_modelevents'),
      ('events', S + 'proc/models.py:main'),
      ('member events', S + 'bintype.py:resolve_type_events')],
     observe=['hwp5proc models', 'hwp5proc xml'])

prop('P29', 'The viewer shows exactly the converted document and leaves nothing behind',
     '`hwp5view` shows, in a window of whichever of its two tool kits is installed, the page which `hwp5html` makes of the document, with its style sheet and binary items reachable from the page under whatever names the directories have. '
     'When the page has been loaded the window takes its size (4 more in width), not below 300 by 400 and not above 1024 by 800; no other navigation is held back; and the viewer ends when the window is closed. '
     'However it ends (closed, interrupted, the tool kit fails at any call, no tool kit is there, the document cannot be converted) it leaves no temporary files, does not change the document, and ends with status 0 only if the document was shown.',
     ['inputs', 'fault_sequences', 'histories', 'configurations'], 'documents; names of documents and directories; sequences of events; a failure at each call of the tool kit; truncations of documents; options',
     'The tests have no tool kit and never run the viewer; leftovers show only when something fails at a particular point.',
     [S + 'hwp5view.py'],
     [('session', S + 'hwp5view.py:main'),
      ('GTK runner', S + 'hwp5view.py:runner_factory_gi'),
      ('Qt runner', S + 'hwp5view.py:runner_factory_pyside'),
      ('temporary directory', S + 'hwp5view.py:make_temporary_directory')],
     observe=['hwp5view'])

prop('P30', 'The OLE back ends are interchangeable',
     'Whichever library reads the compound file (olefile, libgsf, UNO, or POIFS), a document has the same storages and streams with the same names and contents, and the commands give the same results. '
     'Streams opened through any of them give bytes, read, seek and tell like files, and do not disturb each other; names which are not there raise KeyError; a file which is no compound file is refused with InvalidOleStorageError. '
     'The first usable library which is installed is taken (UNO only where it is enabled, as by PYHWP_PLAT_UNO); without one, nothing is opened. '
     'The adapters between file objects and UNO streams pass on every byte, and close the file unless told not to.',
     ['inputs', 'histories', 'configurations'], 'trees of storages and streams; names; sizes; sequences of operations on open streams; subsets of installed libraries; documents under each layer',
     'The tests of two of the four back ends are skipped because their libraries are absent, and positions go wrong only after particular sequences of operations.',
     [S + 'plat/olefileio.py', S + 'plat/gir_gsf.py', S + 'plat/_uno/__init__.py', S + 'plat/_uno/adapters.py', S + 'plat/jython_poifs.py', S + 'plat/__init__.py', S + 'storage/ole.py'],
     [('choice', S + 'plat/__init__.py:get_olestorage_class'),
      ('libgsf', S + 'plat/gir_gsf.py:OleStorage'),
      ('UNO', S + 'plat/_uno/__init__.py:OleStorage'),
      ('UNO streams', S + 'plat/_uno/adapters.py:FileFromStream'),
      ('POIFS', S + 'plat/jython_poifs.py:OleStorage'),
      ('olefile', S + 'plat/olefileio.py:OleStorage')],
     observe=['hwp5proc', 'OleStorage'])

prop('P31', 'The XSLT and RelaxNG back ends are interchangeable',
     'lxml and xsltproc make the same of the same style sheet, parameters and input, whatever the encoding and the file names: parameters are plain strings which override the defaults of the style sheet and its imports and belong to one transformation only, and nothing is written beside the output. '
     'A style sheet or input which cannot be read, or a transformation which fails or is terminated, raises an error and leaves the output empty. '
     'lxml and xmllint accept the same documents for a schema; a validated output gets all bytes of a valid document and none of another or of one whose writer failed, whose exception comes through; no temporary file is left. '
     'The conversions give the same results with any back ends which suffice, and write nothing where none can transform.',
     ['inputs', 'programs', 'configurations'], 'documents; style sheets; schemas; parameters; file names; encodings; subsets of installed back ends',
     'Tests run single samples through each back end; differences show only in particular names, values, encodings and failures.',
     [S + 'plat/__init__.py', S + 'plat/_lxml.py', S + 'plat/xsltproc.py', S + 'plat/xmllint.py', S + 'transforms/__init__.py'],
     [('choice', S + 'plat/__init__.py:get_xslt_compile'),
      ('lxml', S + 'plat/_lxml.py:XSLT'),
      ('xsltproc', S + 'plat/xsltproc.py:XSLT'),
      ('lxml RelaxNG', S + 'plat/_lxml.py:RelaxNG'),
      ('xmllint', S + 'plat/xmllint.py:RelaxNG')],
     observe=['hwp5odt', 'hwp5html', 'hwp5txt', 'xslt_compile', 'relaxng_compile'])

if __name__ == '__main__':
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
