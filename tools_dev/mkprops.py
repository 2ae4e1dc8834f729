"""Writes properties.jsonl (kept as code so the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop('C01', 'What the object reader yields does not depend on how the bytes arrive',
 'Reading PDF/PostScript syntax yields exactly the tokens and objects that were written, each reported at the byte offset where its spelling starts, wherever the reads of the input happen to end (inside any token, escape, comment or line end), whatever the block size, and in whatever order the reader is moved with seek. A read that fails raises that error, and reading on afterwards continues as if it had not happened. Lines read forwards, and backwards from the end of the file, are likewise the lines that were written.',
 ['inputs', 'schedules', 'fault_sequences'],
 'for every text of legal tokens/objects in any legal spelling, every partition of the input into reads, every block size, every schedule of next/seek/tell/readline and every set of transiently failing reads',
 'The two tokenizer tests read one 300-byte text from one BytesIO with 4096-byte blocks, so no token ever crosses a block edge and no read is short or fails.',
 ['pdfmajor/parser/PSStackParser/PSBaseParser.py', 'pdfmajor/parser/PSStackParser/__init__.py', 'pdfmajor/parser/PDFParser.py'],
 [('resumable per-token state machine', 'PSBaseParser._parse_*'), ('buffer refill and offsets', 'PSBaseParser.fillbuf/tell'), ('reset on seek', 'PSStackParser.seek'), ('nesting stack', 'PSStackParser.nextobject')],
 ['PSBaseParser.nexttoken/nextline/revreadlines/tell', 'PDFStreamParser.nextobject'],
 [('half-read token', 'bytes of a token seen so far', 'PSBaseParser._curtoken'), ('nesting context', 'open arrays/dictionaries', 'PSStackParser.context')])

prop('C02', 'Page content does not depend on how its stream is cut up',
 'A page yields the same layout items, with the same text, geometry, colours and image bytes, whether its content is one stream or is cut into several at token boundaries (with or without white space at the cut, with empty parts), and whatever the block size used to read it. Bytes of inline images come out exactly as written. The same holds for the content of form XObjects reached from the page.',
 ['inputs', 'schedules', 'configurations'],
 'for every sequence of content operators (text, paths, colours, q/Q, inline images, XObjects), every partition of it at token boundaries into streams, every filter per part and every block size',
 'The sample PDFs have one or few content streams cut by their producer; nothing compares two cuts of the same content or puts a cut next to an operator, operand or inline image.',
 ['pdfmajor/parser/PDFContentParser.py', 'pdfmajor/interpreter/PageInterpreter.py', 'pdfmajor/interpreter/commands/__init__.py'],
 [('stream switch while reading', 'PDFContentParser.fillfp/fillbuf'), ('inline image scan', 'PDFContentParser.get_inline_data'), ('operand stack', 'commands.process_command_stream')],
 ['iteration over a page of PDFInterpreter'],
 [('current stream index', 'which content part is being read', 'PDFContentParser.istream')])

prop('C03', 'An interrupted save never hides the last completed one',
 'If appending a new revision to a PDF is cut off at any byte (the tail missing, or zero-filled or overwritten with leftover bytes), the file still opens and every object and page reads exactly as after the last revision that was saved completely. A revision whose end-of-file section is on disk in full is the one that is read. Nothing from an incomplete revision is ever mixed in.',
 ['crash_points', 'histories', 'inputs'],
 'for every history of saves (classic tables, cross-reference streams, hybrids, object streams; objects changed, added, page list edited) and every crash point within the last save',
 'No test opens a file with more than the revisions the samples happen to have, and none truncates one.',
 ['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py'],
 [('last startxref search', 'PDFDocument.find_xref'), ('revision chain', 'PDFDocument.read_xref_from'), ('fallback scan', 'PDFXRefFallback.load')],
 ['PDFDocument.getobj', 'PDFPage.get_pages', 'PDFDocument.catalog/info'])

prop('C04', 'A damaged cross-reference section does not lose the objects it described',
 'A single-revision PDF whose classic cross-reference section, startxref value or leading bytes are damaged (wrong, shifted, garbled, missing or cut off entries, counts, keywords or offsets) while its objects and trailer dictionary are intact still opens, and every object and page reads as it was written.',
 ['fault_sequences', 'inputs'],
 'for every such document and every damage to the bytes of the cross-reference table, the startxref line, or bytes put in front of or behind the file',
 'No test opens a file with a damaged cross-reference section.',
 ['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py'],
 [('fallback to scanning', 'PDFDocument.__init__'), ('object scan', 'PDFXRefFallback.load'), ('object header check', 'PDFDocument._getobj_parse')],
 ['PDFDocument.getobj', 'PDFPage.get_pages'])

prop('C05', 'Reading an object is independent of what was read before',
 'Looking up an object gives its newest saved value, whichever objects were read before, in whatever order and however often, through references or directly, with caching on or off, and however it is stored: plain, in an object stream, found through a table, a cross-reference stream, a hybrid or any earlier section of the chain; a value that is an object of its own, with a reference in its place, counts as one that stands where it is used. The same holds for what is derived from objects: stream contents, page attributes inherited through the page tree, outlines and named destinations.',
 ['histories', 'inputs', 'configurations'],
 'for every document graph and revision history, and every history of lookups, resolutions, page iterations, outline and destination queries on one open document',
 'The tests read each sample from front to back once; one test compares caching on and off on one file.',
 ['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py', 'pdfmajor/parser/PDFStream/__init__.py', 'pdfmajor/parser/PDFStream/util.py', 'pdfmajor/parser/PDFPage.py'],
 [('object cache', 'PDFDocument._cached_objs'), ('object-stream cache', 'PDFDocument._parsed_objs'), ('newest section wins', 'PDFDocument.getobj'), ('inherited attributes', 'PDFPage.create_pages'), ('parser shared by nested lookups', 'PDFDocument._getobj_parse')],
 ['PDFDocument.getobj', 'PDFObjRef.resolve', 'PDFStream.get_data', 'PDFPage.create_pages', 'PDFDocument.get_outlines', 'PDFDocument.get_dest'])

prop('C06', 'Documents read at the same time do not affect each other',
 'Threads that each read or convert their own document, and documents, pages and item streams whose iteration is interleaved in one thread, each get exactly what they would get running alone. Interned names and keywords stay unique objects under concurrent use.',
 ['schedules'],
 'for every interleaving of threads (switching between any two lines or bytecodes of the package) and every interleaving of iterators over any set of documents and pages',
 'The tests run one document at a time in one thread.',
 ['pdfmajor/parser/PSStackParser/types.py', 'pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/parser/EncodingDB.py', 'pdfmajor/interpreter/__init__.py', 'pdfmajor/interpreter/PageInterpreter.py', 'pdfmajor/interpreter/commands/__init__.py', 'pdfmajor/converters/__init__.py', 'pdfmajor/utils/log.py'],
 [('intern tables shared by all threads', 'PSSymbolTable.intern'), ('font cache per interpreter', 'PDFInterpreter/get_font'), ('cmap caches', 'CMapDB'), ('document parser shared by its pages', 'PDFDocument._parser')],
 ['iteration over PDFInterpreter and its pages', 'convert_file', 'LIT/KWD'],
 [('symbol tables', 'process-wide name interning', 'PSLiteralTable/PSKeywordTable'), ('cmap caches', 'process-wide', 'CMapDB._cmap_cache/_umap_cache')])

prop('C07', 'Iterating a document delivers its pages in order, once, every time',
 'Iterating an interpreter yields the selected pages (all, those numbered in pagenos, or those before maxpages) in document order, each exactly once, on the first and on every later iteration, preloaded or not, whether or not earlier iterations were abandoned half way, overlap, or failed. Iterating a page any number of times, during or after iterating the document, yields the same items each time. A document with no pages is reported as such every time.',
 ['histories', 'configurations'],
 'for every history of starting, advancing, abandoning and repeating iterations over the interpreter and over its pages, for every page tree and selection',
 'The tests iterate each document once, to the end, in one nesting.',
 ['pdfmajor/interpreter/__init__.py', 'pdfmajor/interpreter/PageInterpreter.py', 'pdfmajor/parser/PDFPage.py', 'pdfmajor/interpreter/commands/__init__.py'],
 [('page cache', 'PDFInterpreter.__pages'), ('page selection', 'PDFPage.get_pages'), ('page state', 'PageInterpreter.state'), ('input file lifetime', 'PDFInterpreter.__load_pages')],
 ['iteration over PDFInterpreter', 'iteration over its pages'],
 [('loaded pages', 'pages seen so far', 'PDFInterpreter.__pages'), ('interpreter state', 'graphics/text state and operand stack of a page', 'PageInterpreter.state')])

prop('C08', 'A failing read is reported, never turned into missing content',
 'If reading the input file fails at any point, the operation under way raises that error: it never returns normally with pages, text or objects missing, empty or replaced. Once the failure is over, repeating the operation on the same interpreter or document gives the complete, correct result. Interrupted and short reads that are not errors have no effect at all.',
 ['fault_sequences', 'histories'],
 'for every document, every operation (open, look up, iterate, convert), and every set of read calls that fail, fall short or are interrupted',
 'No test makes a read fail.',
 ['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py', 'pdfmajor/parser/PSStackParser/PSBaseParser.py', 'pdfmajor/interpreter/__init__.py', 'pdfmajor/parser/cmapdb/__init__.py'],
 [('exception handlers narrow enough to let OSError pass', 'PDFDocument, PDFXRef, PDFStream'), ('caches filled only with complete results', 'PDFDocument.getobj, PDFInterpreter.__pages')],
 ['PDFInterpreter iteration', 'PDFDocument.getobj', 'convert_file'])

prop('C09', 'A conversion either writes the whole document or fails',
 'When a conversion to html, xml, json, yaml or text returns normally, the output file is complete, well-formed and holds every page, text, shape and image entry of the document exactly as interpreted, whatever characters they contain. If writing fails in any way (disk full, I/O error, failure at close) or reading the input does, the conversion raises, as it does for an unknown output type or an output that is the input; it leaves the input file untouched and no file open, and converting again once the fault is gone gives the complete output.',
 ['fault_sequences', 'inputs', 'crash_points'],
 'for every document, output type and codec, and every failing, short or interrupted open, read, write or close',
 'The conversion test only checks that converting the samples does not raise; no output is parsed and no write fails.',
 ['pdfmajor/converters/__init__.py', 'pdfmajor/converters/html.py', 'pdfmajor/converters/xml.py', 'pdfmajor/converters/json.py', 'pdfmajor/converters/yaml.py', 'pdfmajor/converters/text.py', 'pdfmajor/converters/writers/json.py', 'pdfmajor/converters/writers/yaml.py', 'pdfmajor/converters/writers/xml.py', 'pdfmajor/converters/writers/html.py'],
 [('output file scope', 'writers __enter__/__exit__'), ('escaping', 'writers'), ('output path choice', 'convert_file')],
 ['convert_file', 'bytes of the output file', 'open files after the call'])

prop('C10', 'Encryption changes nothing about what is read',
 'An encrypted document opened with its user or owner password reads exactly like the same document unencrypted - strings, stream contents, pages and text - in any order of access, with caching on or off. With a wrong password it does not open. Its permission to extract text is honoured: a document that forbids extraction is refused unless the caller asks not to check.',
 ['inputs', 'histories', 'configurations'],
 'for every document, every supported scheme (RC4 40-128 bit, crypt filters RC4/AES-128, AES-256) and permission set, every password attempt and every history of accesses',
 'The samples contain few encrypted files, opened once with the right password; no test looks at a decrypted value.',
 ['pdfmajor/parser/PDFDocument/PDFSecurityHandler.py', 'pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFStream/__init__.py', 'pdfmajor/parser/PDFStream/util.py', 'pdfmajor/parser/PDFPage.py'],
 [('key derivation and password check', 'PDFStandardSecurityHandler*'), ('decipher on first read', 'PDFDocument.getobj, PDFStream.decode'), ('extraction check', 'PDFPage.get_pages')],
 ['PDFInterpreter iteration', 'PDFDocument.getobj', 'PDFDocument.is_extractable'])

prop('C11', 'Exporting an image writes exactly its bytes, or fails',
 'Saving an image of a page writes a file holding exactly what the document stores for it (JPEG data as stored - CMYK converted to an RGB JPEG of the same picture -, the decoded samples, or for one bit per sample a bitmap of them), however often its data was used or saved before and in whatever order images are saved. Different names given by the caller give different files inside the given folder, whose path is answered, and nothing else is touched; different images saved without a name get different files, too. If writing fails the call raises, and saving again afterwards writes the complete file.',
 ['histories', 'fault_sequences', 'inputs'],
 'for every set of images (JPEG, raw, inline; filtered and encrypted), every history of data accesses and saves, and every failing, short or interrupted write',
 'One test saves the images of two samples once each and does not look at the files.',
 ['pdfmajor/interpreter/commands/state/layout/LTImage.py', 'pdfmajor/BMPWriter/__init__.py', 'pdfmajor/parser/PDFStream/__init__.py'],
 [('raw/decoded data switch', 'PDFStream.decode/get_rawdata'), ('output naming', 'LTImage.save_image')],
 ['LTImage.save_image and the files it leaves'])

prop('C12', 'Damaged input cannot make reading hang',
 'Opening, iterating or converting any file - flipped, lost, repeated or shuffled bytes, and reference structures that point back at themselves (page tree, outlines, names, cross-reference chain, object lengths, XObjects, fonts, indirect objects), that nest deeply or name absurd sizes and ranges - ends after an amount of work within a fixed budget plus a fixed multiple of the size of the file (and of what its XObjects, when drawn repeatedly, legitimately expand to), either with a result or with an ordinary error. It never loops, exhausts the stack or the memory, or terminates the process.',
 ['inputs', 'fault_sequences'],
 'for every document of the generator, every set of stored-byte faults and every planted reference cycle',
 'No test opens a damaged file.',
 ['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py', 'pdfmajor/parser/PDFStream/util.py', 'pdfmajor/parser/PDFPage.py', 'pdfmajor/parser/PDFParser.py', 'pdfmajor/interpreter/commands/__init__.py', 'pdfmajor/parser/PSStackParser/PSBaseParser.py'],
 [('end-of-input detection', 'PSBaseParser.fillbuf'), ('cycle handling', 'resolve1, read_xref_from, create_pages, get_outlines, process_command_stream')],
 ['PDFInterpreter iteration', 'PDFDocument', 'PDFDocument.get_outlines'])

prop('C13', 'The structured writers produce what the calls described, or fail',
 'Any sequence of calls on the JSON, YAML, XML and HTML builders, nested in any way, leaves a file that parses back to exactly the structure and values described by the calls. If the body of a builder raises, that exception reaches the caller, and the file is closed. A failing, short or interrupted write never goes unnoticed.',
 ['programs', 'fault_sequences', 'histories'],
 'for every program of nested builder calls with any string, number, list and attribute values, every point at which its body raises, and every failing, short or interrupted write',
 'The writer tests compare the output of one fixed program each, with plain ASCII values, and no failure.',
 ['pdfmajor/converters/writers/json.py', 'pdfmajor/converters/writers/yaml.py', 'pdfmajor/converters/writers/xml.py', 'pdfmajor/converters/writers/html.py'],
 [('nesting level and separators', 'JSONMakerObject/JSONMakerArray/YAMLMaker*/XMLMaker/HTMLMaker'), ('file scope', 'context managers')],
 ['the file written', 'exceptions seen by the caller'])

prop('C19', 'An operation that is interrupted can be repeated',
 'KeyboardInterrupt, a cancellation or a failing allocation coming up anywhere inside of an operation - opening a document, looking up or resolving an object, reading a stream, walking pages, items, outlines or destinations, iterating an interpreter, converting, exporting an image - reaches the caller as it is. Afterwards the same document, interpreter, page or image answers every operation, the interrupted one included, exactly as if nothing had happened: nothing half-built is kept in a cache, nothing is lost, taken for damaged or marked as in use, the input is untouched and no file stays open.',
 ['schedules', 'fault_sequences', 'histories'],
 'for every document, every line of the package at which an operation is interrupted, every kind of exception, and every history of operations before and after',
 'No test interrupts anything.',
 ['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFStream/__init__.py', 'pdfmajor/parser/PDFStream/PDFObjRef.py', 'pdfmajor/parser/PDFStream/util.py', 'pdfmajor/parser/PSStackParser/__init__.py', 'pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/interpreter/__init__.py', 'pdfmajor/interpreter/PageInterpreter.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py'],
 [('caches filled when complete', 'PDFDocument._cached_objs/_parsed_objs, CMapDB, font cache, PDFInterpreter.__pages'), ('marks of running look-ups', 'PDFDocument._resolving'), ('narrow exception handlers', 'PDFDocument.getobj, safe_unicode')],
 ['exceptions seen by the caller', 'PDFDocument.getobj', 'PDFInterpreter iteration', 'convert_file output'])

prop('C20', 'One document, one answer, in every environment',
 'What is read from a file, and every byte of a conversion or of an exported image including its name, depends on the file and the arguments alone. It is the same in every process: whatever the hash seed, the locale, whether assertions are compiled in (for undamaged documents), when garbage is collected and where objects lie in memory, the log level and whether there are standard streams, the thread, the recursion limit, and whatever was read, abandoned or failed before in the same process.',
 ['configurations', 'histories', 'inputs'],
 'for every document, every drawn environment of a new interpreter, and every sequence of jobs done before in it',
 'Tests run in one environment, in one order.',
 ['pdfmajor/interpreter/__init__.py', 'pdfmajor/interpreter/commands/state/layout/__init__.py', 'pdfmajor/parser/PDFPage.py', 'pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFStream/__init__.py', 'pdfmajor/converters/__init__.py', 'pdfmajor/converters/text.py', 'pdfmajor/converters/html.py', 'pdfmajor/utils/log.py'],
 [('names of images', 'PDFStream.get_name, make_image'), ('order of pages and entries', 'PDFPage.create_pages, converters'), ('explicit encodings', 'converters and writers'), ('process-wide tables', 'CMapDB, EncodingDB, interned names')],
 ['PDFInterpreter iteration', 'convert_file output', 'LTImage.save_image', 'PDFDocument'])

na = 'The sample files exercise some of it; nothing compares the result with an independent definition over all inputs.'
prop('C14', 'Stream filters decode what the PDF specification defines',
 'Decoding a stream with LZW, ASCII85, ASCIIHex, RunLength, CCITT or Flate with predictors yields the bytes that were encoded.',
 ['inputs'], 'for every byte string and every parameter set of each filter', na,
 ['pdfmajor/utils/lzw.py', 'pdfmajor/utils/ascii85.py', 'pdfmajor/parser/PDFStream/ccitt.py', 'pdfmajor/utils/generic.py'], [('decoders', 'PDFStream.decode')], ['PDFStream.get_data'])
prop('C15', 'Content operators place text, shapes and images where PDF says',
 'The geometry, colours and text state of layout items follow the PDF imaging model for every sequence of operators and matrices.',
 ['inputs'], 'for every operator sequence', na,
 ['pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/layout/__init__.py', 'pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py'], [('operators', 'commands.py')], ['layout items'])
prop('C16', 'Character codes map to the right text for every font and encoding',
 'The text of a character is the one its font defines through ToUnicode, Encoding and Differences, or the predefined encodings and CMaps, and its width the one its font gives.',
 ['inputs'], 'for every font dictionary and code', na,
 ['pdfmajor/parser/EncodingDB.py', 'pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py'], [('decoding', 'PDFFont.to_unichr')], ['LTChar.get_text'])
prop('C17', 'The SVG and CSS coordinates of HTML output match the page',
 'Positions and paths in HTML output are those of the layout items, mapped to the page box.',
 ['inputs'], 'for every layout item', na, ['pdfmajor/converters/html.py'], [('rendering', 'converters/html.py')], ['convert_file output'])
prop('C18', 'Embedded font programs are read correctly',
 'Type 1, CFF and TrueType font programs yield the glyph names and code mappings they define.',
 ['inputs'], 'for every font program', na,
 ['pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/CFFFont.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py'], [('font readers', 'PDFFont package')], ['PDFFont.to_unichr'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fp:
    for p in P:
        fp.write(json.dumps(p) + '\n')
print(len(P), 'properties')
