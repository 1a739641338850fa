"""C13: XML parsing.

Oracle: the expat parser, an independent implementation of XML 1.0."""

import io
import re
import pyexpat

from lib.harness import Workload
from lib import gen

META = dict(
    id="C13", title="XML parsing yields the document's infoset or a fatal error",
    statement="Every well-formed document without external entities parses, from bytes in any encoding it declares or marks and from characters, into exactly the elements, attributes (normalised and defaulted by the internal subset), character data, and processing instructions a conforming non-validating processor reports, whatever its line ends and however it falls into the reader's buffers.  Every document that breaks a well-formedness rule raises a fatal error: none is accepted, and none ends in any other exception or never ends.",
    quantifier=dict(over=["inputs"], text="all documents, encodings and buffer boundaries"),
    why_tests_cant="tests use a fixed corpus of documents",
    anchors=dict(files=["pyslet/xml/parser.py", "pyslet/xml/structures.py"],
                 mechanism=[dict(name="XMLParser", where="pyslet/xml/parser.py"),
                            dict(name="XMLEntity", where="pyslet/xml/structures.py")],
                 observe_at=["the element tree, the exception raised"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated and damaged documents, each parse's tree or refusal compared online with expat's"
LEVEL_NOTE = "Held on the documents observed."
RULE = "each case is a batch of documents; distinct by the texts"
MODULES = ["pyslet/xml/parser.py", "pyslet/xml/structures.py"]
REQUIRE = {"well-formed": 2500, "ill-formed": 2500, "elements": 10000, "entities": 500, "defaults": 300, "encodings": 300, "boundaries": 100, "instructions": 500}

NAMES = ('a', 'b', 'c', 'doc', 'x-1', '_y', 'n.2', 'é', 'Ab', 'o:p', '一二')
ANAMES = ('p', 'q', 'r', 'id', 'x:y', 'ü')
ENTS = ('e1', 'e2', 'e3', 'E1', 'é4')


class Doc:
    """a generated document"""

    def __init__(self, rng, dtd=None, size=12):
        self.rng = rng
        self.left = size
        self.ents = []
        self.root = gen.pick(rng, NAMES)
        self.text = ''
        dtd = rng.random() < 0.5 if dtd is None else dtd
        self.dtd = ''
        if dtd:
            self.dtd = self.doctype()
        self.body = self.misc() + self.dtd + self.misc() + self.element(self.root, 0) + self.misc()

    def s(self, need=False):
        r = self.rng.random()
        if need and r < 0.8:
            return ' '
        if not need and r < 0.8:
            return ''
        return gen.pick(self.rng, (' ', '\n', '\t', '\r\n', '\r', '  \n'))

    def comment(self):
        return '<!--%s-->' % gen.pick(self.rng, ('', ' c ', 'a-b', '<x>', '&e1;', '- -', ' é\r\n', '%pe;', ']]>', 'x -> y', '-x', '> ', '?>'))

    def pi(self):
        return '<?%s?>' % gen.pick(self.rng, ('t', 't x', 't  a b ', 'T ?', 't a?b', 't ??', 'xmlx <y>', 't >', 't &e1;', 't a="1" ', 't\nq', 'é ]]>', 'x-y ?? ?'))

    def misc(self):
        return ''.join(gen.pick(self.rng, (self.comment, self.pi, self.s, lambda: '\n'))() for i in range(self.rng.choice((0, 0, 1, 2))))

    def charref(self):
        c = ord(gen.pick(self.rng, 'A<&>"\' \n\r\té一𝄞]'))
        return gen.pick(self.rng, ('&#%d;', '&#x%x;', '&#x%X;', '&#00%d;')) % c

    def chars(self, avoid, n=6):
        out = ''.join(gen.pick(self.rng, 'ab 1\n\r\t]>éß一𝄞\u0085\u2028;#x-?!"\'%') for i in range(self.rng.randrange(n)))
        for c in avoid:
            out = out.replace(c, 'z')
        return out.replace(']]>', ']] >')

    def value(self, quote=None):
        q = quote or gen.pick(self.rng, '"\'')
        out = []
        for i in range(self.rng.randrange(4)):
            r = self.rng.random()
            if r < 0.6:
                out.append(self.chars(q + '<&'))
            elif r < 0.75:
                out.append(self.charref())
            elif r < 0.9:
                out.append(gen.pick(self.rng, ('&lt;', '&amp;', '&gt;', '&quot;', '&apos;')))
            elif self.ents:
                e = gen.pick(self.rng, self.ents)
                if e[1]:
                    out.append('&%s;' % e[0])
        return q + ''.join(out) + q

    def doctype(self):
        out = ['<!DOCTYPE', self.s(True), self.root]
        if self.rng.random() < 0.15:
            out += [self.s(True), gen.pick(self.rng, ('SYSTEM "http://x.invalid/a.dtd"', 'PUBLIC "-//X//Y" \'http://x.invalid/b\''))]
        out.append(self.s())
        if self.rng.random() < 0.9:
            out.append('[')
            for i in range(self.rng.randrange(1, 7)):
                out.append(gen.pick(self.rng, (self.entity, self.entity, self.attlist, self.attlist, self.elementdecl, self.notation, self.comment, self.pi, self.s, self.petype))())
                out.append(self.s())
            out += [']', self.s()]
        out.append('>')
        return ''.join(out)

    def petype(self):
        return '<!ENTITY %% pe%d "%s">' % (self.rng.randrange(3), gen.pick(self.rng, ('', '<!ELEMENT z ANY>', 'x', '&#38;')))

    def entity(self):
        n = gen.pick(self.rng, ENTS)
        if any(e[0] == n for e in self.ents):
            return self.comment()
        r = self.rng.random()
        att = True
        if r < 0.35:
            q = gen.pick(self.rng, '"\'')
            v = q + self.chars(q + '%<&') + q
        elif r < 0.6:
            v = gen.pick(self.rng, ('"&#60;"', "'&#38;#60;'", '"&#38;#38;"', '"a&#10;b"', '"&#x26;#10;"', '"&lt;&amp;"', "'x &#38;#38;#60; y'", '"&#37;"', '"]]&#38;gt;"', "'\"'", '"&#13;x"', '"&#13;&#10;"'))
            att = not v.startswith('"&#60;"')
            if v == '"&#60;"':
                v, att = '"&#38;#60;"', True
        elif r < 0.75 and self.ents:
            e = gen.pick(self.rng, self.ents)
            v, att = '"[&%s;]"' % e[0], e[1]
        elif r < 0.92:
            att = False
            v = gen.pick(self.rng, ("'<b/>'", '\'<b p="1">t</b>\'', "'x<!--c--><?t u?>y'", "'<c><![CDATA[<&]]></c>'", "'<b>&amp;</b><b/>'"))
        else:
            n2 = gen.pick(self.rng, ('SYSTEM "u"', 'PUBLIC "p" "u"'))
            return '<!ENTITY ext%d %s%s>' % (self.rng.randrange(2), n2, gen.pick(self.rng, ('', ' NDATA n1', ' ', '\tNDATA n1 ')))
        self.ents.append((n, att))
        return '<!ENTITY%s%s%s%s%s>' % (self.s(True), n, self.s(True), v, self.s())

    def attlist(self):
        out = ['<!ATTLIST', self.s(True), gen.pick(self.rng, NAMES + (self.root,) * 5)]
        for i in range(self.rng.randrange(4)):
            t = gen.pick(self.rng, ('CDATA', 'CDATA', 'NMTOKEN', 'NMTOKENS', 'IDREF', 'IDREFS', 'ID', 'ENTITY', 'ENTITIES', '(u|v| w )', '( u )', 'NOTATION (n1|n2)'))
            out += [self.s(True), gen.pick(self.rng, ANAMES), self.s(True), t, self.s(True)]
            r = self.rng.random()
            if r < 0.25 or t == 'ID':
                out.append(gen.pick(self.rng, ('#IMPLIED', '#REQUIRED')))
            else:
                v = self.value() if t == 'CDATA' else gen.pick(self.rng, ('"u"', "' u '", '" u  v "', '"u\nv"', '"&#32;u&#32; v"', '"&#10;u"', "'é'"))
                out.append(('#FIXED' + self.s(True) if r < 0.4 else '') + v)
        return ''.join(out) + self.s() + '>'

    def elementdecl(self):
        return '<!ELEMENT%s%s%s%s%s>' % (self.s(True), gen.pick(self.rng, NAMES), self.s(True), gen.pick(self.rng, (
            'EMPTY', 'ANY', '(#PCDATA)', '(#PCDATA)*', '( #PCDATA | a )*', '(a)', '(a,b)', '(a|b)*', '((a,b)|c)+', '( a? , (b|c+)* ,(doc))?', '(a)*', '((a))', '(a|(b,c?)|doc)')), self.s())

    def notation(self):
        return '<!NOTATION %s %s>' % (gen.pick(self.rng, ('n1', 'n2', 'n3')), gen.pick(self.rng, ('SYSTEM "x"', 'PUBLIC "y"', 'PUBLIC "y" "x"', "PUBLIC 'y' ", 'SYSTEM \'"\'')))

    def element(self, name, depth):
        self.left -= 1
        out = ['<', name]
        names = list(ANAMES) + ['xml:space', 'xml:lang']
        self.rng.shuffle(names)
        for n in names[:self.rng.choice((0, 0, 1, 2, 3))]:
            v = gen.pick(self.rng, ('"preserve"', "'default'")) if n == 'xml:space' else '"en"' if n == 'xml:lang' else self.value()
            out += [self.s(True), n, self.s(), '=', self.s(), v]
        out.append(self.s())
        if self.rng.random() < 0.3 or self.left <= 0:
            out.append(gen.pick(self.rng, ('/>', '></%s>' % name)))
            return ''.join(out)
        out.append('>')
        for i in range(self.rng.randrange(6)):
            r = self.rng.random()
            if r < 0.35:
                if self.left > 0 and depth < 6:
                    out.append(self.element(gen.pick(self.rng, NAMES), depth + 1))
            elif r < 0.6:
                out.append(self.chars('<&', 10))
            elif r < 0.68:
                out.append(self.charref())
            elif r < 0.74:
                out.append(gen.pick(self.rng, ('&lt;', '&amp;', '&gt;', '&quot;', '&apos;')))
            elif r < 0.82:
                out.append('<![CDATA[%s]]>' % gen.pick(self.rng, ('', 'x', '<&>', ']]', ']', ']] >', '&e1;', 'a\r\nb', '\r', '>', '<![CDATA[', ']]]', 'é]')))
            elif r < 0.88:
                out.append(self.comment())
            elif r < 0.94:
                out.append(self.pi())
            elif self.ents:
                out.append('&%s;' % gen.pick(self.rng, self.ents)[0])
        return ''.join(out).replace(']]>', ']]&gt;') if False else ''.join(out) + '</%s%s>' % (name, self.s())


class Node:
    def __init__(self, name, attrs):
        self.v = [name, attrs, []]

    def add(self, x):
        c = self.v[2]
        if isinstance(x, str):
            if c and isinstance(c[-1], str):
                c[-1] += x
            elif x:
                c.append(x)
        else:
            c.append(x)


def expat(data, encoding=None):
    """(tree, instructions) or None when the document is not well formed

    Raises Skip for documents on which expat's verdict is not to be used"""
    p = pyexpat.ParserCreate(encoding)
    p.buffer_text = True
    p.SetParamEntityParsing(pyexpat.XML_PARAM_ENTITY_PARSING_NEVER)
    root = []
    stack = []
    pis = []
    skipped = []

    def start(name, attrs):
        n = Node(name, dict(attrs))
        if stack:
            stack[-1].add(n.v)
        else:
            root.append(n.v)
        stack.append(n)

    def end(name):
        stack.pop()

    def chars(data):
        stack[-1].add(data)

    def pi(t, d):
        pis.append((t, d))

    def ext(*args):
        skipped.append(args)
        return 1

    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.ProcessingInstructionHandler = pi
    p.ExternalEntityRefHandler = ext
    p.SkippedEntityHandler = ext
    try:
        p.Parse(data, True)
    except pyexpat.ExpatError as e:
        return None, str(e)
    except ValueError as e:
        return None, 'encoding: %s' % e
    except LookupError as e:
        return None, 'encoding: %s' % e
    if skipped:
        return None, None
    return (root[0], pis), None


def tree(e):
    n = Node(e.get_xmlname(), dict(e.get_attributes()))
    for c in e.get_children():
        n.add(c if isinstance(c, str) else tree(c))
    return n.v


def classes():
    from pyslet.xml import structures as xml
    if 'Doc' not in _classes:
        class RecElement(xml.Element):
            def processing_instruction(self, target, instruction=''):
                self.get_document().pis.append((target, instruction))

        class RecDocument(xml.Document):
            def __init__(self, *args, **kws):
                self.pis = []
                super(RecDocument, self).__init__(*args, **kws)

            @classmethod
            def get_element_class(cls, name):
                return RecElement

            def processing_instruction(self, target, instruction=''):
                self.pis.append((target, instruction))
        _classes['Doc'] = RecDocument
    return _classes['Doc']


_classes = {}


class Bytes(io.BytesIO):
    """a file that returns few bytes at a time"""

    def read(self, n=-1):
        return super(Bytes, self).read(min(n, self.most) if n > 4 else n)


def parse(ctx, data, how=0):
    """(tree, pis) or None if a fatal error was raised"""
    from pyslet.xml import structures as xml
    from pyslet.xml.parser import XMLFatalError
    d = classes()()
    try:
        if isinstance(data, str):
            d.read(src=xml.XMLEntity(data))
        elif how == 1:
            d.read(src=xml.XMLEntity(io.BytesIO(data), encoding=None))
        elif how >= 2:
            f = Bytes(data)
            f.most = how - 1
            d.read(src=xml.XMLEntity(f, encoding=None))
        else:
            d.read(src=xml.XMLEntity(data))
    except XMLFatalError as e:
        return None, str(e)
    except UnicodeError as e:
        if isinstance(data, bytes):
            return None, str(e)
        raise
    except (LookupError,) as e:
        if 'encoding' in str(e):
            return None, str(e)
        raise
    return (tree(d.root), d.pis), None


def count(t):
    return 1 + sum(count(c) for c in t[2] if not isinstance(c, str))


def compare(ctx, data, key, how=0, encoding=None):
    src = data if isinstance(data, bytes) else data.encode('utf-8')
    want, why = expat(src, 'utf-8' if isinstance(data, str) else encoding)
    if want is None and why is None:
        return ctx.count("undecided")
    ctx.witness(document=data if isinstance(data, str) else data.decode('latin-1'), bytes=isinstance(data, bytes), how=how, expat=why)
    got, err = parse(ctx, data, how)
    if want is not None and b'%pe' in src and re.search(b'%pe[^ ]*;', src):
        # expat reads no declarations after a reference it skips
        return ctx.count("undecided")
    if want is None:
        ctx.count("ill-formed")
        if got is not None:
            ctx.fail(key + '-accepted', "accepted, but not well formed (%s): %.600r" % (why, data))
    else:
        ctx.count("well-formed")
        if got is None:
            ctx.fail(key + '-refused', "refused (%s), but well formed: %.600r" % (err, data))
        ctx.count("elements", count(want[0]))
        ctx.count("instructions", len(want[1]))
        if got[0] != want[0]:
            ctx.fail(key + '-tree', "read as %.400r, not as %.400r: %.600r" % (got[0], want[0], data))
        ctx.equal(got[1], want[1], key + '-instructions', "%.300r" % data)
    return want is not None


def decl(rng, enc=None, body=''):
    out = '<?xml' + gen.pick(rng, (' ', '\n', '  ')) + gen.pick(rng, ('version="1.0"', "version='1.0'", 'version = "1.0"'))
    if enc:
        out += gen.pick(rng, (' ', '\t')) + gen.pick(rng, ('encoding="%s"', "encoding='%s'", 'encoding = "%s"')) % enc
    if rng.random() < 0.3:
        out += ' ' + gen.pick(rng, ('standalone="yes"', "standalone='no'", 'standalone ="yes"'))
    return out + gen.pick(rng, ('', ' ', '\n')) + '?>'


def good_case(ctx):
    rng = ctx.rng
    batch = []
    for i in range(12):
        d = Doc(rng, size=rng.choice((1, 4, 12, 30)))
        text = (decl(rng) if rng.random() < 0.3 else '') + d.body
        if text[:1].isspace() and False:
            text = text.lstrip()
        batch.append(text)
        if compare(ctx, text if rng.random() < 0.5 else text.encode('utf-8'), 'generated', how=rng.randrange(5)):
            if d.ents:
                ctx.count("entities")
            if '<!ATTLIST' in text:
                ctx.count("defaults")
    ctx.nontrivial(repr(batch))


TOKENS = ('<', '>', '&', ';', '"', "'", '=', '/', '?', '!', '-', '--', ']]>', '<!--', '-->', '<?', '?>', '<![CDATA[', '&#', '&#x', '&#0;', '&#x1F;', '&#xFFFF;', '&#xD800;', '&#x110000;', '&#99999999999;',
          '&undef;', '&e1', '%', '%pe1;', '<a', '<a>', '</a>', '<a/>', '</', ' ', '\n', 'x', '1', '\x00', '\x01', '\x0b', '\x1f', '\x7f', '\ufffe', '\uffff', '<?xml version="1.0"?>', '<?xml?>', '<?XML x?>', '<!DOCTYPE a>', '<!ENTITY', '<!ATTLIST', '<!ELEMENT',
          '[', ']', '(', ')', '|', ',', '*', '+', '#PCDATA', '#IMPLIED', 'CDATA', 'SYSTEM', 'PUBLIC', 'NDATA', 'ANY', ' p="1"', ' p=\'1\' p="2"', '&#32;', 'é', '\r', '<!', '<![INCLUDE[', '<<', '- ->', '-- >', '&;', '& ', '<1', '< a', '<é/>', 'xml', ':')


def damage(rng, t):
    for k in range(rng.choice((1, 1, 1, 2, 3))):
        i = rng.randrange(len(t) + 1)
        if rng.random() < 0.5:
            # near some markup
            marks = [j for j, c in enumerate(t) if c in '<>&;"\'=/?!-[]()|,#']
            if marks:
                i = gen.pick(rng, marks) + rng.randrange(2)
        m = rng.randrange(6)
        if m == 0:
            t = t[:i] + t[i + 1:]
        elif m == 1:
            t = t[:i] + gen.pick(rng, TOKENS) + t[i:]
        elif m == 2:
            t = t[:i] + gen.pick(rng, TOKENS) + t[i + 1:]
        elif m == 3:
            j = min(len(t), i + rng.randrange(1, 12))
            t = t[:i] + t[j:]
        elif m == 4:
            j = min(len(t), i + rng.randrange(1, 12))
            k = rng.randrange(len(t) + 1)
            t = t[:k] + t[i:j] + t[k:]
        else:
            t = t[:i]
    return t


def bad_case(ctx):
    rng = ctx.rng
    batch = []
    for i in range(25):
        d = Doc(rng, size=rng.choice((1, 2, 5)))
        text = (decl(rng) if rng.random() < 0.3 else '') + d.body
        text = damage(rng, text)
        if '<?xml' in text and undecided(text):
            continue
        batch.append(text)
        compare(ctx, text.encode('utf-8') if rng.random() < 0.5 else text, 'damaged', how=rng.randrange(5))
    ctx.nontrivial(repr(batch))


def undecided(text):
    """expat takes any version"""
    m = re.match(r'<\?xml\s+version\s*=\s*["\']([^"\']*)', text)
    return bool(m and not re.match(r'1\.[0-9]+$', m.group(1)))



CODECS = ((None, 'utf-8', b''), (None, 'utf-8', b'\xef\xbb\xbf'), ('UTF-8', 'utf-8', b''), ('utf-8', 'utf-8', b'\xef\xbb\xbf'), (None, 'utf-16-le', b'\xff\xfe'), (None, 'utf-16-be', b'\xfe\xff'),
          ('UTF-16', 'utf-16-le', b'\xff\xfe'), ('utf-16', 'utf-16-be', b'\xfe\xff'), ('iso-8859-1', 'latin-1', b''), ('ISO-8859-1', 'latin-1', b''), ('us-ascii', 'ascii', b''), ('US-ASCII', 'ascii', b''),
          ('windows-1252', 'windows-1252', b''), ('iso-8859-15', 'iso-8859-15', b''), ('KOI8-R', 'koi8-r', b''), ('iso-8859-7', 'iso-8859-7', b''), ('cp437', 'cp437', b''))


def encoding_case(ctx):
    rng = ctx.rng
    batch = []
    for i in range(12):
        name, codec, bom = gen.pick(rng, CODECS)
        d = Doc(rng, size=rng.choice((1, 4, 12)))
        text = (decl(rng, name) if name or rng.random() < 0.5 else '') + d.body
        if bom == b'' and codec == 'utf-8' and name is None and rng.random() < 0.3:
            text = '<?xml version="1.0" ?>' + d.body
        text = ''.join(c if encodable(c, codec) else 'z' for c in text)
        data = bom + text.encode(codec)
        if rng.random() < 0.2 and codec[:3] in ('utf', 'asc'):
            # bytes that may not be characters
            j = rng.randrange(len(bom), len(data) + 1)
            bad = gen.pick(rng, (b'\xff', b'\xc3', b'\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\xaf', b'\xe2\x82', b'\x00', b'\xd8', b'\xf0\x82\x82\xac'))
            if codec.startswith('utf-16'):
                bad = gen.pick(rng, (b'\xd8\x00', b'\x00\xd8', b'\xdc\x00', b'\x00\xdc', b'\xff\xff'))
                j -= (j - len(bom)) % 2
            data = data[:j] + bad + data[j:]
        ctx.count("encodings")
        batch.append(data)
        try:
            data[len(bom):].decode(codec)
        except UnicodeError:
            # expat lets some surrogates through
            ctx.witness(document=data.decode('latin-1'), bytes=True, codec=codec)
            ctx.count("undecodable")
            ctx.check(parse(ctx, data)[0] is None, 'encoding-undecodable', "%.300r is accepted, but is not %s" % (data, codec))
            continue
        compare(ctx, data, 'encoding', how=rng.randrange(5))
    ctx.nontrivial(repr(batch))


def encodable(c, codec):
    try:
        c.encode(codec)
        return True
    except UnicodeError:
        return False


def boundary_case(ctx):
    """the same document however it falls into the buffers"""
    from pyslet.xml import structures as xml
    rng = ctx.rng
    d = Doc(rng, size=rng.choice((4, 12)))
    text = d.body
    if rng.random() < 0.5:
        text = damage(rng, text)
    ctx.nontrivial(text)
    size = xml.XMLEntity.chunk_size
    ctx.cleanup(lambda: setattr(xml.XMLEntity, 'chunk_size', size))
    for n in rng.sample((1, 2, 3, 5, 8, 16), 3):
        xml.XMLEntity.chunk_size = n
        ctx.count("boundaries")
        if rng.random() < 0.5:
            compare(ctx, text, 'small-buffer')
        else:
            compare(ctx, text.encode('utf-8'), 'small-buffer', how=rng.randrange(5))
    xml.XMLEntity.chunk_size = size
    # the real size: some place of the document falls on the end of a buffer
    k = rng.randrange(len(text) + 1)
    ctx.count("boundaries")
    for i in range(3):
        pad = '<!--' + gen.pick(rng, ('x', 'é', '\r\n', '\n')) * ((size - 7 - k + i - 1) // 1)
        pad = pad[:size - 3 - k + i - 1] + '-->'
        if pad[4:].startswith('-') or '--' in pad[4:-3] or pad[-4:-3] == '-':
            continue
        compare(ctx, pad + text if rng.random() < 0.5 else (pad + text).encode('utf-8'), 'large-buffer')
    # long character data
    long = gen.pick(rng, ('x', 'a ', ']', '\r\n', '&lt;')) * gen.pick(rng, (size - 1, size, size + 1, 2 * size))
    compare(ctx, '<a>%s</a>' % long, 'large-data')
    compare(ctx, ('<a b="%s"/>' % long).encode('ascii'), 'large-value')
    compare(ctx, '<a><![CDATA[%s]]></a>' % long, 'large-section')


PIECES = ('<b>', '</b>', '<', 'b', '>', '&', '#60;', '&#60;', '&#38;', ']]', ']]>', ']', '<!--', '--', '-->', '<![CDATA[', '<?t ', '?>', 'x', ' ', '/', '<b/>', '<b p="', '"', "'", '<c p=\'1\'>', '</c>', '&amp;', '&lt;', '<b>x</b>', 'lt;', '!', '?', '=', '\n', '&#13;', '&#x0A;', '&#9;')


def pieces(rng, ents, n, bad):
    out = []
    for i in range(rng.randrange(n)):
        if ents and rng.random() < 0.3:
            out.append('&%s;' % gen.pick(rng, ents))
        elif rng.random() < bad:
            out.append(gen.pick(rng, PIECES))
        else:
            out.append(gen.pick(rng, ('<b>x</b>', 'x', '&lt;', ' ', '<b/>', '<c><b/></c>', '<!--c-->', '<?t?>', '<![CDATA[<]]>', '&#38;#38;', '&#65;')))
    return ''.join(out)


def entity_case(ctx):
    rng = ctx.rng
    batch = []
    for i in range(25):
        names = ['e%d' % j for j in range(1, rng.randrange(2, 6))]
        decls = []
        bad = rng.choice((0, 0.1, 0.5))
        for j, n in enumerate(names):
            refs = names[:j] if rng.random() < 0.85 else names
            v = pieces(rng, refs, 4, bad).replace('"', '&#34;').replace('%', 'z')
            decls.append('<!ENTITY %s "%s">' % (n, v))
        if rng.random() < 0.3:
            rng.shuffle(decls)
        body = '<a%s>%s</a>' % (' p="%s"' % pieces(rng, names, 3, bad / 3).replace('"', '').replace('<', rng.choice(('', '', '<'))) if rng.random() < 0.4 else '', pieces(rng, names, 5, bad))
        text = '<!DOCTYPE a [%s]>%s' % (''.join(decls), body)
        ctx.count("entities")
        batch.append(text)
        compare(ctx, text, 'entity')
    ctx.nontrivial(repr(batch))


WORKLOADS = [
    Workload("generated", good_case, quick=250, thorough=3000),
    Workload("damaged", bad_case, quick=250, thorough=4000),
    Workload("encodings", encoding_case, quick=80, thorough=1000),
    Workload("buffers", boundary_case, quick=60, thorough=600),
    Workload("entities", entity_case, quick=150, thorough=3000),
]
