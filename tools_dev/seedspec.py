"""The planted bugs: changes to lines of the original repository."""
SEEDS = {}

def seed(id, property, needs, breaks, *edits):
    SEEDS[id] = {'property': property, 'needs': needs, 'breaks': breaks, 'edits': edits}

P = 'parser/PSStackParser/PSBaseParser.py'
seed('c01-crlf', 'C01', "a line end of CR and LF that lies on both sides of the end of a read",
     "the LF is taken for another, empty line",
     (P, """                if linebuf[-1:] == b'\\r':
                    eol = True
                else:
                    break
""", """                if linebuf[-1:] == b'\\r' and self.buf[self.charpos:self.charpos+1] == b'\\n':
                    eol = True
                else:
                    break
"""))
seed('c01-seek-buffered', 'C01', "a read that fails inside of a token, then a seek to a place that is still in the buffer",
     "the tokenizer goes on in the state of the token that was not finished, so that what is read at the new place is wrong",
     (P, """        self.fp.seek(pos)
        # reset the status for nextline()
        self.bufpos: int = pos
        self.buf: bytes = b''
        self.charpos: int = 0
        # reset the status for nexttoken()
        self._current_parse_func = self._parse_main
""", """        buf = getattr(self, 'buf', b'')
        if buf and self.bufpos <= pos < self.bufpos+len(buf) and self.fp.tell() == self.bufpos+len(buf):
            # what is wanted is at hand
            self.charpos = pos-self.bufpos
            self._tokens = []
            return
        # reset the status for nextline()
        (self.bufpos, self.buf, self.charpos) = (self.fp.seek(pos), b'', 0)
        # reset the status for nexttoken()
        self._current_parse_func = self._parse_main
"""))
seed('c02-inline-ei', 'C02', "an inline image whose EI lies on both sides of the end of a read or of a part of the content",
     "the end of the inline image is not found, and what follows is taken for its data",
     ('parser/PDFContentParser.py', """                    j = self.buf.index(target[0], self.charpos)
                    data += self.buf[self.charpos:j+1]
                    self.charpos = j+1
                    i = 1
""", """                    j = self.buf.index(target, self.charpos)
                    data += self.buf[self.charpos:j+len(target)]
                    self.charpos = j+len(target)
                    i = len(target)
"""))
seed('c02-stream-by-stream', 'C02', "content cut into several streams within an array, a dictionary or an inline image",
     "what is cut in two is lost or taken for operands of its own",
     ('interpreter/commands/__init__.py', """    parser = PDFContentParser(streams)
    for obj in parser:
""", """    for obj in (obj for stream in streams for obj in PDFContentParser([stream])):
"""))
seed('c03-last-block', 'C03', "a save cut off after more than 4096 bytes",
     "startxref is only searched in the last block of the file, so that the last complete revision is not found, and what is pieced together from the whole file contains objects of the incomplete one",
     (P, """        self.fp.seek(0, 2)
        pos = self.fp.tell()
        buf = b''
        while 0 < pos:
            prevpos = pos
            pos = max(0, pos-self.BUFSIZ)
""", """        self.fp.seek(0, 2)
        pos = self.fp.tell()
        # the trailer is at the end of the file
        first = max(0, pos-4096)
        buf = b''
        while first < pos:
            prevpos = pos
            pos = max(first, pos-self.BUFSIZ)
"""))
seed('c04-fallback-unused', 'C04', "a table that can be read as one but with entries that are wrong",
     "objects whose entry is wrong are not searched in the file any more",
     ('parser/PDFDocument/__init__.py', """        if fallback:
            parser.fallback = True
""", """        if fallback and not self.xrefs:
            parser.fallback = True
"""))
seed('c04-mismatch', 'C04', "an entry that leads to another object than the one it is for",
     "the other object is taken for the one that was asked for",
     ('parser/PDFDocument/__init__.py', """        if objid1 != objid:
            raise PDFSyntaxError('objid mismatch: %r=%r' % (objid1, objid))

        if kwd != KWD(b'obj'):
""", """        if objid1 != objid:
            # the offset counts, some writers number their objects wrongly
            log.warning('objid mismatch: %r=%r', objid1, objid)

        if kwd != KWD(b'obj'):
"""))
seed('c05-xref-range', 'C05', "a cross-reference stream with several ranges, the number behind one of them not in it, but in an earlier section",
     "the entry of another object, in an object stream, is used for that number",
     ('parser/PDFDocument/PDFXRef.py', """            if start <= objid and objid < start+nobjs:
""", """            if start <= objid and objid <= start+nobjs:
"""))
seed('c05-name-limit', 'C05', "a name tree with several leaves, looked up for the last name of one of them",
     "the destination is not found",
     ('parser/PDFDocument/__init__.py', """                if key < k1 or k2 < key:
""", """                if key < k1 or k2 <= key:
"""))
seed('c06-encoding-scratch', 'C06', "two threads that make fonts with Differences at the same time",
     "the characters of one document get mixed up with those the other one defines",
     ('parser/EncodingDB.py', """        cid2unicode = klass.encodings.get(name, klass.std2unicode)
        if diff:
            cid2unicode = cid2unicode.copy()
            cid = 0
""", """        cid2unicode = klass.encodings.get(name, klass.std2unicode)
        if diff:
            klass.table.clear()
            klass.table.update(cid2unicode)
            cid2unicode = klass.table
            cid = 0
"""), ('parser/EncodingDB.py', """                    cid += 1
        return cid2unicode
""", """                    cid += 1
        return dict(cid2unicode)
"""), ('parser/EncodingDB.py', """    encodings = {
""", """    table = {}
    encodings = {
"""))
seed('c06-cmap-publish', 'C06', "two threads that use the same predefined CMap for the first time, one of them while the other still loads it",
     "the second thread gets a CMap that is empty: characters are missing from its text",
     ('parser/cmapdb/__init__.py', """        data = klass._load_data(name)
        klass._cmap_cache[name] = cmap = PyCMap(name, data)
        return cmap
""", """        klass._cmap_cache[name] = cmap = CMap(CMapName=name)
        try:
            data = klass._load_data(name)
        except CMapNotFound:
            del klass._cmap_cache[name]
            raise
        cmap.code2cid = data.CODE2CID
        if data.IS_VERTICAL:
            cmap.attrs['WMode'] = 1
        return cmap
"""))
seed('c07-streams-used-up', 'C07', "a page that is iterated twice",
     "the second iteration of a page whose content is a list yields nothing",
     ('parser/PDFContentParser.py', """            if self.istream < len(self.streams):
                strm = PDFStream.validated_stream(self.streams[self.istream])
                self.istream += 1
            else:
""", """            if self.istream < len(self.streams):
                strm = PDFStream.validated_stream(self.streams.pop(self.istream))
            else:
"""))
seed('c07-maxpages', 'C07', "both pagenos and maxpages, or a document of just maxpages pages",
     "the pages are counted after the selection: more pages are delivered than those before maxpages",
     ('parser/PDFPage.py', """        for (pageno, page) in enumerate(cls.create_pages(doc)):
            if pagenos and (pageno not in pagenos):
                continue
            yield page
            if maxpages and maxpages <= pageno+1:
                break
""", """        npages = 0
        for (pageno, page) in enumerate(cls.create_pages(doc)):
            if pagenos and (pageno not in pagenos):
                continue
            if maxpages and maxpages < npages:
                break
            npages += 1
            yield page
"""))
seed('c08-xref-error', 'C08', "a read that fails while the cross-reference table is read",
     "the error is taken for a damaged table: the document opens without it, and with the oldest trailer",
     ('parser/PDFDocument/PDFXRef.py', """                try:
                    (_, line) = parser.nextline()
                except PSEOF:
                    raise PDFNoValidXRef('Unexpected EOF - file corrupted?')
""", """                try:
                    (_, line) = parser.nextline()
                except (PSEOF, OSError):
                    raise PDFNoValidXRef('Unexpected EOF - file corrupted?')
"""))
seed('c08-page-error', 'C08', "a read that fails while the pages of a document without a page tree are searched",
     "the pages that could not be read are silently missing",
     ('parser/PDFPage.py', """                    except PDFObjectNotFound:
                        pass
        return

    @classmethod
""", """                    except Exception as e:
                        log.warning('Not a page: %r: %r', objid, e)
        return

    @classmethod
"""))
seed('c09-text-nested', 'C09', "text in a form that is drawn by another form",
     "the text output lacks it",
     ('converters/text.py', """                elif isinstance(item, LTXObject):
                    process_container(item)
        for page in intepreter:
""", """                elif isinstance(item, LTXObject) and container is page:
                    process_container(item)
        for page in intepreter:
"""))
seed('c09-json-flush', 'C09', "a write that fails when the file is closed",
     "the conversion returns as if the output were complete",
     ('converters/writers/json.py', """    with open(file_path, 'wb') as outf:
        with JSONMakerObject(outf, codec=codec) as obj:
            yield obj
""", """    outf = open(file_path, 'wb')
    try:
        with JSONMakerObject(outf, codec=codec) as obj:
            yield obj
    finally:
        try:
            outf.close()
        except OSError:
            pass
"""))
seed('c10-long-password', 'C10', "an AES-256 document with a password of more than 32 bytes",
     "the document does not open with its password",
     ('parser/PDFDocument/PDFSecurityHandler.py', """        password = password.encode('utf-8')[:127]
""", """        password = password.encode('utf-8')[:32]
"""))
seed('c10-extract-bit', 'C10', "a document that permits extraction for accessibility only",
     "its text can be extracted although it is not permitted",
     ('parser/PDFDocument/PDFSecurityHandler.py', """    def is_extractable(self):
        return bool(self.p & 16)
""", """    def is_extractable(self):
        return bool(self.p & (16 | 512))
"""))
seed('c11-exists', 'C11', "a write that fails while an image is saved, then saving it again",
     "the image is taken for saved, its file is not complete",
     ('interpreter/commands/state/layout/LTImage.py', """        path = os.path.join(outdir, file_name)
        
        with open(path, 'wb') as fp:
""", """        path = os.path.join(outdir, file_name)
        try:
            fp = open(path, 'xb')
        except FileExistsError:
            # there already
            return path
        with fp:
"""))
seed('c12-runlength', 'C12', "a RunLength stream that ends in the middle of a run",
     "decoding it never ends",
     ('parser/PDFStream/util.py', """            for j in range(i+1,(i+1)+(length+1)):
                decoded+=int2byte(data[j])
            
            i = (i+1) + (length+1)
""", """            run = data[i+1:(i+1)+(length+1)]
            decoded += run
            
            # the last run may be shorter
            i += len(run) + (len(run) == length+1)
"""))
seed('c13-unbuffered', 'C13', "a write that writes only a part of what it was given",
     "the rest is lost, and nobody notices",
     ('converters/writers/xml.py', """        self.outfile = open(self.file_path, 'wb')
""", """        self.outfile = open(self.file_path, 'wb', buffering=0)
"""))
seed('c13-codec-array', 'C13', "a text in an array that the codec of the output does not know",
     "the text is replaced by question marks, and nobody is told",
     ('converters/writers/json.py', """class JSONMakerArray:
    def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = 0):
        self.outfile: TextIOWrapper = outfile
        self.codec = codec
        self.levels_deep = levels_deep
        self.childrencount = 0
""", """class JSONMakerArray:
    def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = 0):
        self.outfile: TextIOWrapper = outfile
        self.codec, self.errors = codec, 'strict' if codec is None or codec.startswith('utf') else 'replace'
        self.levels_deep = levels_deep
        self.childrencount = 0
"""), ('converters/writers/json.py', """                text = text.encode(self.codec)
            self.outfile.write(text)
        else:
            raise FileAccessException("Attempting to write to file without an open connection")
    
    def write(self, text: str, deep_space: str = '  ', prefix:str = ''):
        text = prefix + (deep_space*self.levels_deep) + text
        self.write_raw(text)

    def write_prop(self, val: str = ""):
        self.childrencount += 1
""", """                text = text.encode(self.codec, self.errors)
            self.outfile.write(text)
        else:
            raise FileAccessException("Attempting to write to file without an open connection")
    
    def write(self, text: str, deep_space: str = '  ', prefix:str = ''):
        text = prefix + (deep_space*self.levels_deep) + text
        self.write_raw(text)

    def write_prop(self, val: str = ""):
        self.childrencount += 1
"""))
seed('c19-decipher-in-place', 'C19', "an interrupt between the deciphering of a stream and the end of its decoding, then reading it again",
     "it is deciphered twice",
     ('parser/PDFStream/__init__.py', """            data = self.decipher(self.objid, self.genno, data, self.attrs)
""", """            data = self.rawdata = self.decipher(self.objid, self.genno, data, self.attrs)
"""))
seed('c19-objstm-publish', 'C19', "an interrupt while an object stream is parsed, then looking up its later objects",
     "the objects behind the place where it was interrupted are missing",
     ('parser/PDFDocument/__init__.py', """            (objs, n) = self._get_objects(stream)
            if self.caching:
                self._parsed_objs[stream.objid] = (objs, n)
""", """            (objs, n) = self._get_objects(stream)
"""), ('parser/PDFDocument/__init__.py', """        objs = []
        try:
            while 1:
                (_, obj) = parser.nextobject()
""", """        objs = []
        if self.caching:
            self._parsed_objs[stream.objid] = (objs, n)
        try:
            while 1:
                (_, obj) = parser.nextobject()
"""))
seed('c20-assert-font', 'C20', "python -O",
     "no page has fonts",
     ('interpreter/commands/utils.py', """                state.fontmap[fontid] = get_font(objid, spec, font_cache)
""", """                font = get_font(objid, spec, font_cache)
                # a name is defined once
                assert state.fontmap.setdefault(fontid, font) is font, fontid
"""))
seed('c20-text-locale', 'C20', "a locale whose encoding is not UTF-8",
     "text is converted in the encoding of the locale, or not at all",
     ('converters/text.py', """    with open(output_file_path, 'wb') as outfp:
""", """    with open(output_file_path, 'w', encoding=None if codec == 'utf-8' else codec, newline='') as outfp:
"""), ('converters/text.py', """                            outfp.write(char.get_text().encode(codec))
""", """                            outfp.write(char.get_text())
"""), ('converters/text.py', """==========\\n".encode(codec))
""", """==========\\n")
"""), ('converters/text.py', """            outfp.write('\\n'.encode(codec))
""", """            outfp.write('\\n')
"""))
seed('c20-style-order', 'C20', "two processes with different hash seeds",
     "the same document is converted to different HTML",
     ('converters/writers/html.py', """            attrs['style'] = ";".join([
                f'{name}: {value}'
                for name, value in css.items()
            ])
""", """            # declared once is enough
            attrs['style'] = ";".join({
                f'{name}: {value}'
                for name, value in css.items()
            })
"""))
seed('c07-sibling-font', 'C07', "two composite fonts that share a descendant and differ in what their codes mean",
     "the second one gets the characters of the first one",
     ('interpreter/commands/state/PDFTextState/PDFFont/__init__.py', """            font = get_font(None, subspec, cached_fonts)
""", """            # widths and font programs are read once for each descendant
            font = get_font(getattr(dfonts[0], 'objid', None), subspec, cached_fonts)
"""))
seed('c09-html-nested', 'C09', "forms nested three deep",
     "what the innermost one draws is missing in HTML",
     ('converters/html.py', """                for child in item:
                    render(child, False)
""", """                for child in item:
                    if block or not isinstance(child, LTXObject):
                        render(child, False)
"""))
