"""C15: XML serialisation.

Oracle: the expat parser reading what was written, against the tree the
check built; and the library's own parser and comparison."""

import io
import re
import pyexpat

from lib.harness import Workload
from lib import gen

META = dict(
    id="C15", title="Serialised XML is well formed and parses back to an equal tree",
    statement="Every tree built through the public methods (add_child, set_attribute, add_data, set_value, mapped attributes and customised content models) is serialised, whichever way (str, bytes, write_xml, create, with or without indentation, with either escape function), as a well-formed document that any parser reads as the same elements, attribute values and character data - white space kept where xml:space says preserve, and otherwise only collapsed or, where the content model allows no data, added.  Read back by the library it gives an equal document.  The escaping functions give text, attribute literals and CDATA sections that stand for exactly the string they were given.",
    quantifier=dict(over=["inputs"], text="all element trees, values and ways to serialise"),
    why_tests_cant="tests use fixed trees",
    anchors=dict(files=["pyslet/xml/structures.py"],
                 mechanism=[dict(name="Element.generate_xml", where="pyslet/xml/structures.py"),
                            dict(name="Element.get_canonical_children", where="pyslet/xml/structures.py"),
                            dict(name="escape_char_data", where="pyslet/xml/structures.py")],
                 observe_at=["the bytes written, the tree read back"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated trees serialised in every way, each output read by expat and compared online with the tree built"
LEVEL_NOTE = "Held on the trees observed."
RULE = "each case is a batch of trees; distinct by the texts written"
MODULES = ["pyslet/xml/structures.py"]
REQUIRE = {"trees": 1500, "elements": 6000, "attributes": 4000, "texts": 3000, "preserved": 300, "indented": 300, "mapped": 500, "escapes": 5000, "reread": 1500}

NAMES = ('a', 'b', 'c', 'x-1', '_y', 'n.2', 'é', '一二')
ANAMES = ('p', 'q', 'r', 'x.y', 'ü', 'k-1')
ALPHA = 'ab 1  \n\r\t<>&"\'];é\x85\xa0\u2028\ufeff一𝄞\ufffd\x7f%#'
FRAGS = (']]>', '&amp;', '<![CDATA[', '&#xD;', '--', '<!--', '\r\n', '  ', ' \n ', "'", '"', "\"'", '?>', '<a>', '&')
WS = ' \t\n\r'


def text(rng, n=10):
    r = rng.random()
    if r < 0.1:
        return ''.join(rng.choice(WS) for i in range(rng.randrange(1, 4)))
    if r < 0.2:
        return 'plain'
    return ''.join(rng.choice(FRAGS) if rng.random() < 0.15 else rng.choice(ALPHA) for i in range(rng.randrange(n)))


class M:
    """model element"""

    def __init__(self, name):
        self.name = name
        self.attrs = {}
        self.children = []
        self.model = 'mixed'     # mixed, elements, empty, cdata

    def add_text(self, s):
        if s:
            if self.children and isinstance(self.children[-1], str):
                self.children[-1] += s
            else:
                self.children.append(s)


def squash(s):
    return re.sub('[ \t\r\n]+', ' ', s)


def canon(m, space=None):
    """the tree with white space normalised as documented"""
    sp = m.attrs.get('xml:space')
    if sp is None:
        sp = space
    keep = sp == 'preserve' or m.model == 'cdata'
    kids = []
    for i, ch in enumerate(m.children):
        if isinstance(ch, str):
            if m.model == 'elements' and not keep:
                if ch.strip(WS):
                    kids.append(ch)
                continue
            kids.append(ch if keep else squash(ch))
        else:
            kids.append(canon(ch, sp if not m.model == 'cdata' else 'preserve'))
    if not keep and len(kids) > 1:
        if isinstance(kids[0], str):
            kids[0] = kids[0].lstrip(' ')
        if isinstance(kids[-1], str):
            kids[-1] = kids[-1].rstrip(' ')
    elif not keep and kids and isinstance(kids[0], str):
        if kids[0] != ' ':
            kids[0] = kids[0].lstrip(' ')
    return (m.name, tuple(sorted(m.attrs.items())), tuple(k for k in kids if k != ''))


def expat(data, models=None):
    """M tree of a document, or None and the error"""
    p = pyexpat.ParserCreate()
    p.buffer_text = True
    stack = []
    root = []

    def start(name, attrs):
        m = M(name)
        m.attrs = dict(attrs)
        if stack:
            stack[-1].children.append(m)
        else:
            root.append(m)
        stack.append(m)

    def end(name):
        stack.pop()

    def chars(s):
        stack[-1].add_text(s)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.specified_attributes = True
    try:
        p.Parse(data, True)
    except pyexpat.ExpatError as e:
        return None, str(e)
    return root[0], None


def copy_models(m, like):
    """marks the content models of one tree on another of the same shape"""
    m.model = like.model
    a = [c for c in m.children if not isinstance(c, str)]
    b = [c for c in like.children if not isinstance(c, str)]
    if len(a) == len(b):
        for x, y in zip(a, b):
            copy_models(x, y)


_K = {}


def classes():
    if _K:
        return _K
    import pyslet.xml.structures as xml

    class Empty(xml.Element):
        XMLNAME = 'empty'
        XMLCONTENT = xml.ElementType.EMPTY
        XMLATTR_k = 'k'

    class Item(xml.Element):
        XMLNAME = 'item'
        XMLCONTENT = xml.ElementType.MIXED
        XMLATTR_n = ('n', int, str)
        XMLATTR_list = ('ilist', int, str, list)
        XMLATTR_bag = ('ibag', str, str, dict)
        XMLATTR_raw = 'raw'

    class Special(Item):
        XMLNAME = 'special'

    class Code(xml.Element):
        XMLNAME = 'code'
        SGMLCDATA = True
        XMLCONTENT = xml.ElementType.MIXED

    class Group(xml.Element):
        XMLNAME = 'group'
        XMLCONTENT = xml.ElementType.ELEMENT_CONTENT
        XMLATTR_title = 'title'
        ID = 'id'

        def __init__(self, parent):
            xml.Element.__init__(self, parent)
            self.Empty = None
            self.Item = []
            self.Group = []
            self.title = None

        def get_children(self):
            if self.Empty:
                yield self.Empty
            for c in self.Item:
                yield c
            for c in self.Group:
                yield c
            for c in xml.Element.get_children(self):
                yield c

        def reset(self, reset_attrs=False):
            if self.Empty:
                self.Empty.detach_from_parent()
                self.Empty = None
            for c in self.Item + self.Group:
                c.detach_from_parent()
            self.Item = []
            self.Group = []
            xml.Element.reset(self, reset_attrs)

    class Doc(xml.Document):
        @classmethod
        def get_element_class(cls, name):
            return dict(empty=Empty, item=Item, special=Special, code=Code, group=Group).get(name, xml.Element)
    _K.update(xml=xml, Empty=Empty, Item=Item, Special=Special, Code=Code, Group=Group, Doc=Doc, Element=xml.Element)
    return _K


class Builder:
    def __init__(self, ctx, custom):
        self.ctx = ctx
        self.rng = ctx.rng
        self.custom = custom
        self.left = self.rng.choice((1, 4, 10, 20))
        self.serial = 0

    def attributes(self, e, m, kind):
        rng, K = self.rng, classes()
        for i in range(rng.choice((0, 0, 1, 2, 3))):
            n, v = gen.pick(rng, ANAMES), text(rng, 8)
            if rng.random() < 0.1:
                e.set_attribute(n, None)
                m.attrs.pop(n, None)
            else:
                e.set_attribute(n, v)
                m.attrs[n] = v
                self.ctx.count("attributes")
        if rng.random() < 0.12 and kind != 'code':
            sp = gen.pick(rng, ('preserve', 'default', 'preserve', None))
            if sp is not None:
                e.set_space(sp)
                m.attrs['xml:space'] = sp
                if sp == 'preserve':
                    self.ctx.count("preserved")
        if rng.random() < 0.05:
            e.set_lang('en-GB')
            m.attrs['xml:lang'] = 'en-GB'
        if kind in ('item', 'special') and rng.random() < 0.7:
            self.ctx.count("mapped")
            if rng.random() < 0.5:
                e.n = rng.randrange(-50, 50)
                m.attrs['n'] = str(e.n)
            if rng.random() < 0.5:
                e.ilist = [rng.randrange(100) for i in range(rng.randrange(4))]
                m.attrs['list'] = ' '.join(str(x) for x in e.ilist)
            if rng.random() < 0.5:
                e.ibag = {}
                words = []
                for i in range(rng.randrange(4)):
                    w = gen.pick(rng, ('x', 'y', 'z&', '<w', 'é'))
                    e.ibag[w] = e.ibag.get(w, 0) + 1
                    words.append(w)
                m.attrs['bag'] = ' '.join(sorted(words))
            if rng.random() < 0.5:
                e.raw = text(rng, 6)
                m.attrs['raw'] = e.raw
        if kind == 'group':
            if rng.random() < 0.5:
                e.title = text(rng, 6)
                m.attrs['title'] = e.title
            if rng.random() < 0.4:
                self.serial += 1
                v = 'i%d' % self.serial
                if rng.random() < 0.5:
                    e.set_id(v)
                else:
                    e.set_attribute('id', v)
                m.attrs['id'] = v
        if kind == 'empty' and rng.random() < 0.5:
            v = text(rng, 5)
            e.set_attribute('k', v)
            m.attrs['k'] = v

    def fill(self, e, m, kind, depth):
        rng, K = self.rng, classes()
        self.ctx.count("elements")
        self.attributes(e, m, kind)
        if kind == 'empty':
            m.model = 'empty'
            return
        if kind == 'code':
            m.model = 'cdata'
            s = text(rng)
            if s:
                e.set_value(s)
                m.children = [s]
                self.ctx.count("texts")
            return
        if kind == 'group':
            m.model = 'elements'
            slots = {'empty': [], 'item': [], 'group': [], None: []}
            while self.left > 0 and rng.random() < 0.75 and depth < 8:
                k = gen.pick(rng, ('item', 'special', 'group', 'code', 'any', 'empty'))
                if k == 'empty' and slots['empty']:
                    k = 'item'
                ce, cm = self.child(e, k, depth)
                slots[{'special': 'item'}.get(k, k if k in slots else None)].append(cm)
                if rng.random() < 0.2:
                    e.add_data(gen.pick(rng, (' ', '\n\t', '')))
            m.children = slots['empty'] + slots['item'] + slots['group'] + slots[None]
            return
        if rng.random() < 0.2:
            s = text(rng)
            e.set_value(s)
            m.children = [s] if s else []
            return
        while self.left > 0 and rng.random() < 0.7 and depth < 8:
            if rng.random() < 0.5:
                s = text(rng)
                e.add_data(s)
                m.add_text(s)
                self.ctx.count("texts")
            else:
                ce, cm = self.child(e, gen.pick(rng, ('any', 'any', 'item', 'code', 'group', 'empty')) if self.custom else 'any', depth)
                m.children.append(cm)

    def child(self, e, kind, depth):
        rng, K = self.rng, classes()
        self.left -= 1
        if kind == 'any':
            n = gen.pick(rng, NAMES)
            ce = e.add_child(K['Element'], n)
        else:
            cls = K[kind.capitalize()]
            n = cls.XMLNAME
            ce = e.add_child(cls) if rng.random() < 0.7 else e.add_child(cls, n)
        cm = M(n)
        self.fill(ce, cm, kind, depth + 1)
        return ce, cm

    def document(self):
        rng, K = self.rng, classes()
        kind = gen.pick(rng, ('group', 'item', 'any')) if self.custom else 'any'
        cls = K['Element'] if kind == 'any' else K[kind.capitalize()]
        n = gen.pick(rng, NAMES) if kind == 'any' else cls.XMLNAME
        how = rng.random()
        if how < 0.5:
            doc = K['Doc']()
            e = doc.add_child(cls, n)
            m = M(n)
            self.fill(e, m, kind, 0)
        else:
            e = cls(None)
            e.set_xmlname(n)
            m = M(n)
            self.fill(e, m, kind, 0)
            doc = K['Doc'](root=e)
        return doc, m


def compare(ctx, how, data, m):
    got, err = expat(data)
    if got is None:
        ctx.fail("written-not-well-formed:" + how, "what %s writes is not well formed (%s)" % (how, err))
    copy_models(got, m)
    want = canon(m)
    if canon(got) != want:
        ctx.fail("written-tree:" + how, "what %s writes reads as %r, the tree is %r" % (how, canon(got), want))


def tree_of(e):
    K = classes()
    m = M(e.get_xmlname())
    m.attrs = dict(e.get_attributes())
    for c in e.get_children():
        if isinstance(c, K['Element']):
            m.children.append(tree_of(c))
        else:
            m.add_text(str(c))
    return m


def case_trees(ctx, custom):
    rng, K = ctx.rng, classes()
    xml = K['xml']
    for i in range(25):
        b = Builder(ctx, custom)
        doc, m = b.document()
        ctx.count("trees")
        want = canon(m)
        for how in rng.sample(('str', 'bytes', 'write7', 'flat', 'flat7', 'spaces', 'element', 'ebytes', 'create', 'gen'), 5):
            buff = io.BytesIO()
            if how == 'str':
                data = str(doc).encode('utf-8')
            elif how == 'bytes':
                data = bytes(doc)
            elif how == 'write7':
                doc.write_xml(buff, xml.escape_char_data7)
                data = buff.getvalue()
            elif how == 'flat':
                doc.write_xml(buff, tab='')
                data = buff.getvalue()
            elif how == 'flat7':
                data = ''.join(doc.generate_xml(xml.escape_char_data7, tab='', encoding="US-ASCII"))
                m7 = bool(re.search('[^\x00-\x7f]', re.sub(r'<!\[CDATA\[.*?\]\]>', '', data, flags=re.S)))
                if m7:
                    # names can't be escaped
                    data = data.replace('US-ASCII', 'UTF-8')
                try:
                    data = data.encode('ascii')
                except UnicodeEncodeError:
                    data = data.replace('US-ASCII', 'UTF-8').encode('utf-8')
            elif how == 'spaces':
                doc.write_xml(buff, tab='  ')
                data = buff.getvalue()
            elif how == 'element':
                data = str(doc.root).encode('utf-8')
            elif how == 'ebytes':
                doc.root.write_xml(buff, tab=gen.pick(rng, ('', '\t', ' ')), root=True)
                data = buff.getvalue() if rng.random() < 0.5 else bytes(doc.root)
            elif how == 'create':
                doc.create(buff)
                data = buff.getvalue()
            else:
                data = ''.join(doc.root.generate_xml(indent='    ', tab=gen.pick(rng, ('', '\t', ' ')), root=True)).encode('utf-8')
            ctx.witness(how=how, data=data.decode('utf-8', 'replace')[:2000])
            compare(ctx, how, data, m)
            if b'\n\t<' in data or b'\n  <' in data:
                ctx.count("indented")
            # and read back
            doc2 = K['Doc']()
            try:
                doc2.read(src=io.BytesIO(data))
            except Exception as err:
                ctx.fail("reread-refused", "the library refuses what it wrote: %s %s" % (type(err).__name__, err))
            ctx.count("reread")
            back = tree_of(doc2.root)
            copy_models(back, m)
            ctx.equal(canon(back), want, "reread-tree", "the tree read back is not the one written")
            ctx.check(doc2.root == doc.root and not (doc2.root != doc.root), "reread-unequal", "the element read back does not equal the one written")
            if rng.random() < 0.3:
                ctx.equal(str(doc2), str(doc), "reread-text", "the document read back is serialised differently")
        # a change makes it unequal
        if rng.random() < 0.5:
            e = doc2.root
            path = 0
            kids = [c for c in e.get_children() if isinstance(c, K['Element'])]
            while kids and rng.random() < 0.7:
                e = gen.pick(rng, kids)
                kids = [c for c in e.get_children() if isinstance(c, K['Element'])]
            if rng.random() < 0.5:
                e.set_attribute('zz', 'changed')
            else:
                e.set_xmlname('zz')
            ctx.check(doc2.root != doc.root and not (doc2.root == doc.root), "change-unnoticed", "a changed element equals the original")
        # copying
        if rng.random() < 0.5:
            cp = doc.root.deepcopy()
            ctx.check(cp.parent is None, "copy-orphan", "a copy has a parent")
            t = tree_of(cp)
            copy_models(t, m)
            ctx.equal(canon(t), want, "copy-tree", "the copy of a tree is different")
            ctx.check(cp == doc.root, "copy-unequal", "a copy does not equal the original")
        ctx.nontrivial("%s:%s" % (custom, hash(repr(want))))


def case_plain(ctx):
    case_trees(ctx, False)


def case_custom(ctx):
    case_trees(ctx, True)


def case_files(ctx):
    """documents created and updated as files"""
    rng, K = ctx.rng, classes()
    from pyslet import rfc2396 as uri
    import os
    d = ctx.tmpdir()
    b = Builder(ctx, rng.random() < 0.5)
    doc, m = b.document()
    fn = os.path.join(d, gen.pick(rng, ('x.xml', 'a b.xml', 'é.xml', 'sub/dir/x.xml', '100%.xml')))
    if rng.random() < 0.5:
        base = uri.URI.from_path(fn)
    else:
        base = str(uri.URI.from_path(fn))
    doc.set_base(base)
    ctx.witness(fn=fn, base=str(base))
    doc.create()
    ctx.check(os.path.isfile(fn), "create-file", "creating a document writes no file at its base")
    compare(ctx, "file", open(fn, 'rb').read(), m)
    doc2 = K['Doc'](base_uri=base)
    doc2.read()
    ctx.check(doc2.root == doc.root, "file-reread", "the document read from the file is not equal")
    s = 'more' + text(rng)
    e = doc2.root
    e.set_attribute('zz', s)
    m.attrs['zz'] = s
    doc2.update()
    compare(ctx, "update", open(fn, 'rb').read(), m)
    os.remove(fn)
    try:
        doc2.update()
    except K['xml'].XMLMissingResourceError:
        pass
    else:
        ctx.fail("update-missing", "updating a document whose file is gone does not fail")
    ctx.check(not os.path.exists(fn), "update-missing-file", "a refused update creates the file")
    ctx.nontrivial("f:%s" % hash((fn, repr(canon(m)))))


def case_escapes(ctx):
    rng = ctx.rng
    import pyslet.xml.structures as xml
    for i in range(150):
        s = text(rng, 14)
        ctx.witness(s=s)
        for f in (xml.escape_char_data, xml.escape_char_data7):
            t = f(s)
            q = f(s, True)
            if f is xml.escape_char_data7:
                ctx.check(all(ord(c) < 0x80 for c in t + q), "escape7-not-ascii", "escape_char_data7 gives non-ASCII text")
            got, err = expat(('<a b=%s>%s</a>' % (q, t)).encode('utf-8'))
            if got is None:
                ctx.fail("escape-not-well-formed", "%s gives text %r and literal %r: %s" % (f.__name__, t, q, err))
            ctx.equal(''.join(got.children), s, "escape-text", "%s gives %r for character data, which reads as" % (f.__name__, t))
            ctx.equal(got.attrs['b'], s, "escape-literal", "%s gives %r as a literal, which reads as" % (f.__name__, q))
        s2 = s
        t = xml.escape_cdsect(s2)
        got, err = expat(('<a>%s</a>' % t).encode('utf-8'))
        if got is None:
            ctx.fail("cdsect-not-well-formed", "escape_cdsect(%r) gives %r: %s" % (s2, t, err))
        ctx.equal(''.join(got.children), s2, "cdsect-text", "escape_cdsect gives %r, which reads as" % t)
        ctx.count("escapes", 5)
        ctx.nontrivial("e:%s" % hash(s))


WORKLOADS = [
    Workload("plain", case_plain, quick=40, thorough=500),
    Workload("custom", case_custom, quick=60, thorough=800),
    Workload("files", case_files, quick=40, thorough=300),
    Workload("escapes", case_escapes, quick=30, thorough=300),
]
