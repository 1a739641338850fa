"""C14: external subsets, conditional sections and parameter entities.

Oracle: the generator writes the external (and internal) subset together with
the declarations that are in force by the definition of INCLUDE, IGNORE and
parameter entities; a document that refers to them shows what the parser made
of them."""

import os

from lib.harness import Workload
from lib import gen

META = dict(
    id="C14", title="Conditional sections and parameter entities select declarations",
    statement="When a document's external DTD subset is read, exactly the declarations in force take effect: those outside ignored sections, however sections are nested and wherever their keywords and contents come from, with parameter entities replaced inside and between declarations and in entity values, and the first declaration of each entity and attribute winning, the internal subset before the external one.  Ignored text has no effect whatever it contains, and sections left open or closed too often are rejected.",
    quantifier=dict(over=["inputs"], text="all external subsets built of entity, attribute list and element declarations, conditional sections and parameter entities"),
    why_tests_cant="tests use one or two sections in fixed documents",
    anchors=dict(files=["pyslet/xml/parser.py", "pyslet/xml/structures.py"],
                 mechanism=[dict(name="XMLParser.parse_conditional_sect", where="pyslet/xml/parser.py"),
                            dict(name="XMLParser.parse_pe_reference", where="pyslet/xml/parser.py"),
                            dict(name="XMLDTD.declare_entity", where="pyslet/xml/structures.py")],
                 observe_at=["the content and attributes of the document"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated DTD subsets, the document read compared with the declarations the generator says are in force"
LEVEL_NOTE = "Held on the subsets observed."
RULE = "each case is an internal and external subset; distinct by their text"
MODULES = ["pyslet/xml/parser.py", "pyslet/xml/structures.py"]
REQUIRE = {"good": 1000, "bad": 300, "included": 800, "ignored": 800, "pe": 1500, "values": 3000, "defaults": 500, "siblings": 150}

WORDS = ('x', 'y z', u'caf\xe9', '1', 'a.b', '%', 'end', u'\u4f60', '(q)', ';')
JUNK = ('<!ENTITY e0 "ignored">', '<!ELEMENT', '<', '&', '&nope;', '%nope;', '"', "'", ']', ']]', ']>', '<!', '<![', '-->', '<!--', '<?', '?>',
        'INCLUDE[', '<!ATTLIST a p0 CDATA "ignored">', '\n', ' ', u'\xe9', '&#0;', '<a>', '[', '[[', '<!ENTITY % p0 "ignored">', '<![CDATA')


class Subset(object):

    def __init__(self, rng, ctx):
        self.rng = rng
        self.ctx = ctx
        self.ents = {}
        self.attrs = {}
        self.pes = {}       # name -> ('text', v) | ('decl', fn) | ('key', word)
        self.sections = 0
        self.bad = False

    def s(self, must=False):
        return gen.pick(self.rng, (' ', '\n', '\t ') if must else ('', '', '', ' ', '\n'))

    def value(self):
        return ' '.join(gen.pick(self.rng, WORDS) for i in range(self.rng.randint(0, 3))).replace('%', 'pc')

    def quote(self, v):
        q = gen.pick(self.rng, '"\'')
        return q + v + q

    def text_pe(self):
        names = [n for n, (k, v) in self.pes.items() if k == 'text']
        return gen.pick(self.rng, sorted(names)) if names else None

    def entity(self, external, q=None):
        """A general entity declaration, (text, function that declares it)"""
        n = 'e%d' % self.rng.randrange(6)
        v = text = self.value()
        if external and q is None and self.rng.random() < 0.4:
            p = self.text_pe()
            if p:
                self.ctx.count('pe')
                i = self.rng.randint(0, len(v))
                v, text = v[:i] + self.pes[p][1] + v[i:], text[:i] + '%' + p + ';' + text[i:]

        def declare():
            self.ents.setdefault(n, v)
        text = (q + text + q) if q else self.quote(text)
        return '<!ENTITY%s%s%s%s%s>' % (self.s(True), n, self.s(True), text, self.s()), declare

    def attlist(self, external, q=None):
        n = 'p%d' % self.rng.randrange(4)
        v = gen.pick(self.rng, ('1', 'x', u'\xe9', 'two words', ''))

        def declare():
            self.attrs.setdefault(n, v)
        body = ['a', n, 'CDATA', (q + v + q) if q else self.quote(v)]
        return '<!ATTLIST' + self.s(True) + self.s(True).join(body) + self.s() + '>', declare

    def pe(self, external, active):
        n = 'd%d' % self.rng.randrange(8)
        k = self.rng.randrange(3)
        if k == 0:
            v = self.value()
            text = self.quote(v)
            if self.rng.random() < 0.4:
                # a quote, data wherever the entity is used
                other = '"' if text[0] == "'" else "'"
                i = self.rng.randint(0, len(v))
                v = v[:i] + other + v[i:]
                text = text[0] + v + text[0]
            entry = ('text', v)
        elif k == 1:
            word = gen.pick(self.rng, ('INCLUDE', 'IGNORE'))
            entry, text = ('key', word), self.quote(word)
        else:
            fn = gen.pick(self.rng, (self.entity, self.attlist))
            decl, do = fn(False, "'")
            entry, text = ('decl', do), '"' + decl + '"'
        if active:
            self.pes.setdefault(n, entry)
        return '<!ENTITY%s%%%s%s%s%s%s>' % (self.s(True), self.s(True), n, self.s(True), text, self.s())

    def junk(self, depth=0):
        out = []
        for i in range(self.rng.randint(0, 5)):
            if self.rng.random() < 0.35 and depth < 3:
                out.append('<![' + gen.pick(self.rng, ('', 'INCLUDE[', 'IGNORE[', ' ')) + self.junk(depth + 1) + ']]>')
            else:
                out.append(gen.pick(self.rng, JUNK))
        # no accidental delimiters: pieces are kept apart
        out = [('' if x in ('<![', '<![CDATA') else x) for x in out]
        nested = sum(1 for x in out if x.startswith('<![') and x.endswith(']]>'))
        if nested > 1:
            self.ctx.count('siblings')
        return ' '.join([''] + out + [''])

    def section(self, active, depth):
        self.sections += 1
        include = self.rng.random() < 0.6
        word = 'INCLUDE' if include else 'IGNORE'
        key = word
        if self.rng.random() < 0.5 and active:
            names = sorted(n for n, (k, v) in self.pes.items() if (k, v) == ('key', word))
            if names:
                self.ctx.count('pe')
                key = '%' + gen.pick(self.rng, names) + ';'
        if active:
            self.ctx.count('included' if include else 'ignored')
        head = '<![' + self.s() + key + self.s() + '['
        return head + (self.items(active, depth + 1) if include else self.junk()) + ']]>'

    def items(self, active=True, depth=0, external=True):
        out = []
        for i in range(self.rng.randint(0, 6 if depth else 10)):
            r = self.rng.random()
            if r < 0.3:
                text, declare = self.entity(external)
                if active:
                    declare()
            elif r < 0.42:
                text, declare = self.attlist(external)
                if active:
                    declare()
            elif r < 0.62:
                text = self.pe(external, active)
            elif r < 0.72:
                names = sorted(n for n, (k, v) in self.pes.items() if k == 'decl')
                if not names or not active:
                    continue
                n = gen.pick(self.rng, names)
                self.ctx.count('pe')
                self.pes[n][1]()
                text = '%' + n + ';'
            elif r < 0.78:
                text = gen.pick(self.rng, ('<!-- %d0; ]]> -->', '<?pi %d0; ]]> <![ ?>', '<!--<![IGNORE[-->'))
            elif external and depth < 3:
                text = self.section(active, depth)
            else:
                continue
            out.append(text)
            out.append(self.s())
        return ''.join(out)


def load(ctx, internal, external, body):
    from pyslet.xml import structures as xml
    from pyslet.xml.parser import XMLParser
    from pyslet.rfc2396 import FileURL
    d = os.path.join(ctx.tmpdir(), 'dtd')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'a.dtd'), 'wb') as f:
        f.write(external.encode('utf-8'))
    text = '<!DOCTYPE a SYSTEM "a.dtd"%s>%s' % (' [' + internal + ']' if internal is not None else '', body)
    with open(os.path.join(d, 'a.xml'), 'wb') as f:
        f.write(text.encode('utf-8'))
    ctx.witness(document=text, external=external)
    doc = xml.Document(base_uri=FileURL.from_path(os.path.join(d, 'a.xml')))
    e = xml.XMLEntity(FileURL.from_path(os.path.join(d, 'a.xml')))
    try:
        p = XMLParser(e)
        p.check_validity = True
        p.raiseValidityErrors = False
        p.parse_document(doc)
    finally:
        e.close()
    return doc, p


def good(ctx):
    rng = ctx.rng
    for i in range(rng.randint(1, 3)):
        g = Subset(rng, ctx)
        internal = None
        if rng.random() < 0.5:
            internal = g.items(external=False)
        external = gen.pick(rng, ('', '', '<?xml version="1.0" encoding="utf-8"?>', '<?xml encoding="utf-8"?>\n'))
        external += g.items()
        external += '<!ELEMENT a ANY>'
        body = '<a>' + ''.join('[&%s;]' % n for n in sorted(g.ents)) + '</a>'
        want = ''.join('[%s]' % g.ents[n] for n in sorted(g.ents))
        try:
            doc, p = load(ctx, internal, external, body)
        except Exception as e:
            from pyslet.xml.structures import XMLError
            if isinstance(e, XMLError):
                ctx.fail('rejected', 'a well-formed subset is rejected: %r' % e)
            raise
        ctx.count('good')
        ctx.count('values', len(g.ents))
        ctx.count('defaults', len(g.attrs))
        got = doc.root.get_value() or ''
        ctx.equal(got, want, 'entities', 'text of the entities in force')
        attrs = dict((str(k), v) for k, v in doc.root.get_attributes().items())
        ctx.equal(attrs, g.attrs, 'attributes', 'default attributes in force')
        ctx.check(not p.nonFatalErrors, 'errors', 'validity errors: %r' % (p.nonFatalErrors[:2],))
        ctx.nontrivial((internal, external))


def bad(ctx):
    """Sections that don't balance"""
    from pyslet.xml.parser import XMLWellFormedError
    rng = ctx.rng
    g = Subset(rng, ctx)
    inner = g.section(True, 1)
    m = rng.randrange(5)
    if m == 0:
        text = inner[:-3]
        what = 'a section left open'
    elif m == 1:
        text = inner + ']]>'
        what = 'a section closed twice'
    elif m == 2:
        text = '<![IGNORE[ <![ ' + g.junk() + ']]> '
        what = 'a nested ignored section left open'
    elif m == 3:
        text = '<![' + gen.pick(rng, ('INCLUDED', 'ignore', '', 'CDATA', 'TEMP')) + '[' + ']]>'
        what = 'an unknown keyword'
    else:
        text = '<![INCLUDE[ <!ENTITY e0 "x"> ' + gen.pick(rng, (']>', ']] >', '] ]>', ']]'))
        what = 'a section closed badly'
    before = g.items(depth=2)
    ctx.count('bad')
    e = ctx.raises(XMLWellFormedError, lambda: load(ctx, None, '<!ELEMENT a ANY>' + before + text, '<a/>'), 'accepted', what)
    ctx.nontrivial((before, text))


WORKLOADS = [
    Workload("good", good, quick=1000, thorough=15000),
    Workload("bad", bad, quick=500, thorough=5000),
]
