"""C17: namespaces.

Oracle: expat's namespace processing of the same documents and of what the
library writes."""

import io
import pyexpat

from lib.harness import Workload
from lib import gen

META = dict(
    id="C17", title="Namespace processing preserves expanded names",
    statement="A namespace-aware parse gives every element and attribute the expanded name that Namespaces in XML gives it, whatever the nesting, shadowing and undoing of declarations, and raises a fatal error for a document that breaks a namespace constraint (undeclared element prefixes, reserved names, undeclared prefixes, attributes that expand to the same name, malformed qualified names).  Any tree of namespace-aware elements, parsed or built and then renamed, extended, copied or moved, is written as a document in which every element and attribute has the same expanded name and value; prefix lookups always agree with the declarations in force.  Classes for documents and elements are chosen by expanded name, with the documented wildcards, aliases and default namespace.",
    quantifier=dict(over=["inputs", "histories"], text="all namespaced documents, trees and edits"),
    why_tests_cant="tests use a few fixed documents",
    anchors=dict(files=["pyslet/xml/namespace.py"],
                 mechanism=[dict(name="XMLNSParser.expand_qname", where="pyslet/xml/namespace.py"),
                            dict(name="NSElement.generate_xml", where="pyslet/xml/namespace.py"),
                            dict(name="NSNode.get_prefix", where="pyslet/xml/namespace.py")],
                 observe_at=["expanded names of the trees read and written"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated documents, trees and edits, names read and written compared online with expat's namespace processing"
LEVEL_NOTE = "Held on the documents and trees observed."
RULE = "each case is a batch of documents; distinct by the texts"
MODULES = ["pyslet/xml/namespace.py"]
REQUIRE = {"documents": 2500, "accepted": 1500, "refused": 500, "names": 10000, "written": 1500, "edits": 2000, "prefixes": 5000, "classes": 500}

XML = "http://www.w3.org/XML/1998/namespace"
XMLNS = "http://www.w3.org/2000/xmlns/"
NONE = '~'
URIS = ('http://a.example/', 'http://b.example/ns#', 'urn:c', 'http://a.example', 'q&"\'<é')
PREFIXES = ('p', 'q', 'ns1', 'é', 'xmlx', 'ns2', 'p.1')
LOCALS = ('a', 'b', 'c-1', 'xmlnsx', 'é', 'id')


def expat(data):
    """((ns, name), attrs, children) of a document, or None and the error"""
    p = pyexpat.ParserCreate(namespace_separator='\n')
    p.buffer_text = True
    stack = [[None, None, []]]

    def split(n):
        ns, x, local = n.rpartition('\n')
        return (ns or None, local)

    def start(name, attrs):
        e = [split(name), {split(a): v for a, v in attrs.items()}, []]
        stack[-1][2].append(e)
        stack.append(e)

    def end(name):
        stack.pop()

    def chars(s):
        stack[-1][2].append(s)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    try:
        p.Parse(data, True)
    except pyexpat.ExpatError as e:
        return None, str(e)
    return freeze(stack[0][2][0]), None


def freeze(e):
    return (e[0], tuple(sorted(e[1].items(), key=repr)), tuple(c if isinstance(c, str) else freeze(c) for c in e[2]))


def tree(e):
    """the same of a library element"""
    ns, name = e.get_xmlname()
    attrs = {}
    for (ans, aname), v in e.get_attributes().items():
        attrs[(None if ans == NONE else ans, aname)] = v
    kids = []
    for c in e.get_children():
        if isinstance(c, str):
            if c and kids and isinstance(kids[-1], str):
                kids[-1] += c
            elif c:
                kids.append(c)
        else:
            kids.append(tree(c))
    return ((None if ns == NONE else ns, name), tuple(sorted(attrs.items(), key=repr)), tuple(kids))


def count(t):
    return 1 + len(t[1]) + sum(count(c) for c in t[2] if not isinstance(c, str))


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


class Doc:
    """text of a namespaced document"""

    def __init__(self, rng, damage):
        self.rng = rng
        self.left = rng.choice((1, 3, 8, 15))
        self.damage = damage
        self.text = self.element({'xml': XML}, 0)

    def qname(self, scope, attr=False):
        rng = self.rng
        r = rng.random()
        local = gen.pick(rng, LOCALS)
        if self.damage and r < 0.05:
            if not attr and r < 0.02:
                return gen.pick(rng, PREFIXES) + ':' + local
            return gen.pick(rng, ('p:q:a', ':a', 'p:', 'xmlns:a', 'p:1', '::')) if not attr else gen.pick(rng, ('p:q:a', ':b', 'p:1', 'q:'))
        ps = [p for p in scope if p and scope[p]]
        if ps and rng.random() < 0.5:
            p = gen.pick(rng, ps)
            if p == 'xml':
                if not attr or rng.random() < 0.5:
                    return gen.pick(rng, LOCALS[:3])
                return gen.pick(rng, ('xml:lang', 'xml:base', 'xml:other'))
            return p + ':' + local
        return local

    def element(self, scope, depth):
        rng = self.rng
        self.left -= 1
        scope = dict(scope)
        parts = []
        for i in range(rng.choice((0, 0, 1, 1, 2, 3))):
            p = gen.pick(rng, PREFIXES[:4] + ('',) * 3) if rng.random() < 0.8 else gen.pick(rng, PREFIXES)
            u = gen.pick(rng, URIS + URIS[:2])
            if p == '' and rng.random() < 0.25:
                u = ''
            if self.damage and rng.random() < 0.04:
                p, u = gen.pick(rng, (('xmlns', 'http://a.example/'), ('p', XMLNS), ('xml', 'http://a.example/'), ('p', XML), ('', XML), ('', XMLNS), ('p', ''), ('q:r', 'u:x')))
            if rng.random() < 0.03:
                p, u = 'xml', XML
            a = 'xmlns' + (':' + p if p else '')
            if any(x[0] == a for x in parts):
                continue
            parts.append((a, u))
            scope[p] = u
        for i in range(rng.choice((0, 0, 1, 2, 3))):
            a = self.qname(scope, True)
            if any(x[0] == a for x in parts):
                continue
            if not self.damage or rng.random() < 0.8:
                # no two attributes with one expanded name
                pa, x, local = a.rpartition(':')
                if pa and any(y[0].rpartition(':')[2] == local for y in parts):
                    continue
            parts.append((a, gen.pick(rng, ('', 'v', ' x ', 'é', '"'))))
        rng.shuffle(parts)
        name = self.qname(scope)
        out = ['<', name]
        for a, v in parts:
            out.append('%s%s="%s"' % (gen.pick(rng, (' ', ' ', '\n')), a, esc(v)))
        kids = []
        while self.left > 0 and depth < 7 and rng.random() < 0.75:
            kids.append(self.element(scope, depth + 1))
            if rng.random() < 0.2:
                kids.append('t')
        if kids or rng.random() < 0.3:
            end = name
            if self.damage and rng.random() < 0.02:
                end = gen.pick(rng, PREFIXES) + ':' + name.rpartition(':')[2]
            return ''.join(out) + '>' + ''.join(kids) + '</%s>' % end
        return ''.join(out) + '/>'


_K = {}


def classes():
    if _K:
        return _K
    import pyslet.xml.namespace as xmlns
    import pyslet.xml.structures as xml
    from pyslet.xml.parser import XMLFatalError

    class Named(xmlns.NSElement):
        XMLNAME = ('urn:c', 'named')
        ID = (xmlns.NO_NAMESPACE, 'id')
        XMLATTR_k = 'k'

    class NDoc(xmlns.NSDocument):
        @classmethod
        def get_element_class(cls, name):
            return Named if name == Named.XMLNAME else xmlns.NSElement
    _K.update(xmlns=xmlns, xml=xml, Fatal=XMLFatalError, Named=Named, NDoc=NDoc)
    return _K


def parse(ctx, text, cls=None):
    K = classes()
    doc = (cls or K['NDoc'])()
    try:
        doc.read(src=io.BytesIO(text if isinstance(text, bytes) else text.encode('utf-8')))
    except (K['Fatal'], K['xml'].XMLValidityError) as e:
        return None, e
    return doc, None


def prefixes(ctx, e, scope):
    """the lookups agree with the declarations in force"""
    for p, ns in e.get_prefix_map().items():
        ctx.count("prefixes")
        if ns:
            ctx.equal(e.get_ns(p), ns, "get-ns", "the namespace of the prefix %r declared as %r is" % (p, ns))
        else:
            ctx.check(not e.get_ns(p), "get-ns-undone", "a prefix whose declaration is undone has the namespace %r" % e.get_ns(p))
    for ns in URIS:
        p = e.get_prefix(ns)
        if p is not None:
            ctx.equal(e.get_ns(p), ns, "get-prefix", "the prefix given for %r is %r, which stands for" % (ns, p))
    ctx.equal(e.get_prefix(XML), 'xml', "xml-prefix", "the prefix of the xml namespace is")
    p = e.new_prefix()
    ctx.check(e.get_ns(p) is None, "new-prefix", "the new prefix %r is in use" % p)


def walk(e):
    yield e
    for c in e.get_children():
        if not isinstance(c, str):
            for x in walk(c):
                yield x


def case_documents(ctx):
    rng, K = ctx.rng, classes()
    for i in range(60):
        d = Doc(rng, rng.random() < 0.5)
        text = d.text
        ctx.witness(text=text)
        ctx.count("documents")
        want, err = expat(text.encode('utf-8'))
        doc, e = parse(ctx, text)
        if want is None:
            ctx.count("refused")
            if doc is not None:
                ctx.fail("accepted:" + err.split(':')[0], "a document expat refuses (%s) is read" % err)
            continue
        if doc is None:
            ctx.fail("refused", "a document that breaks no rule is refused: %s" % e)
        ctx.count("accepted")
        got = tree(doc.root)
        ctx.count("names", count(want))
        ctx.equal(got, want, "names-read", "the expanded names read are")
        for e in walk(doc.root):
            prefixes(ctx, e, None)
        ctx.nontrivial("d:%s" % hash(text))


def written(ctx, doc, want):
    rng, K = ctx.rng, classes()
    for i in range(2):
        r = rng.random()
        if r < 0.3:
            data = bytes(doc)
        elif r < 0.6:
            data = str(doc).encode('utf-8')
        elif r < 0.8:
            b = io.BytesIO()
            doc.write_xml(b, tab='')
            data = b.getvalue()
        else:
            # an element on its own carries all the declarations
            data = str(doc.root).encode('utf-8')
        ctx.witness(data=data.decode('utf-8'))
        ctx.count("written")
        got, err = expat(data)
        if got is None:
            ctx.fail("written-refused", "what is written is not well formed: %s" % err)
        ctx.equal(got, want, "names-written", "the expanded names written are")
        ctx.equal(tree(doc.root), want, "writing-changes", "writing a tree changes it to")
    back, e = parse(ctx, data)
    if back is None:
        ctx.fail("reread-refused", "the library refuses what it wrote: %s" % e)
    ctx.equal(tree(back.root), want, "names-reread", "the expanded names read back are")
    ctx.check(back.root == doc.root, "reread-unequal", "the tree read back is not equal")
    es = list(walk(doc.root))
    e = gen.pick(rng, es)
    # a fragment on its own
    data = str(e).encode('utf-8')
    ctx.witness(data=data.decode('utf-8'))
    got, err = expat(data)
    if got is None:
        ctx.fail("fragment-refused", "an element written on its own is not well formed: %s" % err)
    ctx.equal(got, tree(e), "fragment-names", "the names of an element written on its own are")


def case_edits(ctx):
    rng, K = ctx.rng, classes()
    xmlns = K['xmlns']
    for i in range(15):
        if rng.random() < 0.6:
            text = Doc(rng, False).text
            doc, e = parse(ctx, text)
            if doc is None:
                ctx.fail("refused", "a document that breaks no rule is refused: %s" % e)
        else:
            text = ''
            doc = K['NDoc']()
            doc.add_child(xmlns.NSElement, (gen.pick(rng, URIS), 'root') if rng.random() < 0.7 else (None, 'root'))
        log = []
        # names are changed; the tree is what the library says it is, after
        # each change has been observed to take place
        for j in range(rng.randrange(10)):
            e = gen.pick(rng, list(walk(doc.root)))
            op = gen.pick(rng, ('add', 'add', 'add', 'rename', 'attr', 'attr', 'prefix', 'copy', 'remove', 'docprefix', 'write', 'unattr'))
            ctx.count("edits")
            name = (gen.pick(rng, URIS), gen.pick(rng, LOCALS[:3]))
            if rng.random() < 0.3:
                name = (None, name[1])
            log.append((op, name))
            ctx.witness(text=text, log=repr(log))
            if op == 'add':
                n = len(list(e.get_children()))
                if rng.random() < 0.2:
                    c = e.add_child(K['Named'])
                    name = K['Named'].XMLNAME
                    if rng.random() < 0.5:
                        v = 'i%d' % j
                        if rng.random() < 0.3:
                            c.set_id(v)
                        else:
                            c.set_attribute(gen.pick(rng, ('id', (NONE, 'id'))), v)
                        ctx.equal(c.get_attribute('id'), v, "id-set", "the id is")
                        ctx.equal(c.get_attributes(), {(NONE, 'id'): v}, "id-attributes", "the attributes of an element with an id are")
                        ctx.check(doc.get_element_by_id(v) is c, "id-lookup", "an element is not found by the id it was given")
                    if rng.random() < 0.5:
                        c.set_attribute(gen.pick(rng, ('k', (NONE, 'k'))), 'kv')
                        ctx.equal(c.k, 'kv', "mapped-set", "the mapped attribute is")
                elif rng.random() < 0.2 and name[0] is None:
                    c = e.add_child(xmlns.NSElement, name[1])
                else:
                    c = e.add_child(xmlns.NSElement, name)
                ctx.equal(c.get_xmlname(), name, "name-set", "the name of an element added is")
            elif op == 'rename':
                if isinstance(e, K['Named']):
                    continue
                e.set_xmlname(name)
                ctx.equal(e.get_xmlname(), name, "name-set", "the name of an element is")
            elif op == 'attr':
                an = (name[0] or NONE, name[1])
                if rng.random() < 0.1:
                    an = (XML, 'lang')
                v = gen.pick(rng, ('', 'v', 'é', '<&"'))
                e.set_attribute(an if an[0] != NONE or rng.random() < 0.5 else an[1], v)
                ctx.equal(e.get_attribute(an), v, "attribute-set", "the attribute is")
                if an[0] == XML:
                    ctx.equal(e.get_lang(), v, "lang-set", "the language is")
            elif op == 'unattr':
                for an in list(e.get_attributes()):
                    if not isinstance(e, K['Named']):
                        e.set_attribute(an, None)
                        try:
                            e.get_attribute(an)
                        except KeyError:
                            continue
                        ctx.fail("attribute-removed", "an attribute that was removed is still there")
            elif op in ('prefix', 'docprefix'):
                n = e if op == 'prefix' else doc
                p = gen.pick(rng, PREFIXES + ('', None))
                ns = gen.pick(rng, URIS)
                try:
                    got = n.make_prefix(ns, p)
                except ValueError:
                    continue
                ctx.check(p is None or got == p, "make-prefix", "make_prefix gives %r for %r" % (got, p))
                ctx.equal(n.get_ns(got), ns, "make-prefix-ns", "the namespace of the prefix made is")
            elif op == 'copy':
                if len(list(walk(e))) > 8 or any(isinstance(x, K['Named']) for x in walk(e)):
                    continue
                inside = set(id(x) for x in walk(e))
                p = gen.pick(rng, [x for x in walk(doc.root) if id(x) not in inside] or [None])
                was = tree(e)
                if p is None:
                    ctx.equal(tree(e.deepcopy()), was, "copy-names", "the names of a copy are")
                    continue
                c = e.deepcopy(p)
                ctx.equal(tree(c), was, "copy-names", "the names of a copy are")
            elif op == 'remove':
                if e is doc.root:
                    continue
                e.parent.remove_child(e)
                got, err = expat(str(e).encode('utf-8'))
                if got is None:
                    ctx.fail("orphan-refused", "a removed element is not written well formed: %s" % err)
                ctx.equal(got, tree(e), "orphan-names", "the names of a removed element are written as")
            elif op == 'write':
                str(doc)
            for x in walk(doc.root):
                prefixes(ctx, x, None)
        written(ctx, doc, tree(doc.root))
        for x in walk(doc.root):
            prefixes(ctx, x, None)
        ctx.nontrivial("w:%s" % hash((text, repr(log))))


def case_classes(ctx):
    rng, K = ctx.rng, classes()
    xmlns = K['xmlns']
    uid = '%x' % rng.getrandbits(48)
    n1, n2 = 'http://%s.example/1' % uid, 'http://%s.example/2' % uid
    D = [type('D%d' % i, (xmlns.NSDocument,), {}) for i in range(4)]
    xmlns.register_nsdoc_class(D[0], (n1, 'r1'))
    xmlns.register_nsdoc_class(D[1], (n1, None))
    xmlns.register_nsdoc_class(D[2], (None, 'n' + uid))
    for ns, name, want in ((n1, 'r1', D[0]), (n1, 'r2', D[1]), (n1, 'n' + uid, D[1]), (n2, 'n' + uid, D[2]), (None, 'n' + uid, D[2]), (n2, 'r1', xmlns.NSDocument), (None, 'r1', xmlns.NSDocument)):
        p = gen.pick(rng, ('', 'p'))
        text = '<%s%s%s/>' % (p + ':' if p and ns else '', name, ' xmlns%s="%s"' % (':' + p if p else '', ns) if ns else '')
        ctx.witness(text=text)
        parser = xmlns.XMLNSParser(K['xml'].XMLEntity(text))
        parser.parse_document()
        ctx.count("classes")
        ctx.check(type(parser.doc) is want, "document-class", "a document with the root {%s}%s is read as %s, not %s" % (ns, name, type(parser.doc).__name__, want.__name__))
        ctx.equal(tree(parser.doc.root)[0], (ns, name), "document-root", "its root is")
    # element classes
    scope = {}
    want = {}
    for i in range(rng.randrange(1, 6)):
        name = (gen.pick(rng, (n1, n2)), 'e%d' % i)
        scope['E%d' % i] = want[name] = type('E%d' % i, (xmlns.NSElement,), dict(XMLNAME=name))
    scope['other'] = 3
    scope['NoName'] = type('NoName', (xmlns.NSElement,), {})
    scope['Plain'] = type('Plain', (K['xml'].Element,), dict(XMLNAME='plain'))
    alias = {n1: ['urn:alias1', 'urn:alias2']} if rng.random() < 0.7 else None
    if alias:
        for (ns, name), cls in list(want.items()):
            for a in alias.get(ns, ()):
                want[(a, name)] = cls
    m = {}
    xmlns.map_class_elements(m, scope, alias)
    ctx.equal(m, want, "class-map", "the classes mapped are")
    ctx.raises(K['xml'].DuplicateXMLNAME, lambda: xmlns.map_class_elements(m, dict(X=type('X', (xmlns.NSElement,), dict(XMLNAME=gen.pick(rng, sorted(want)))))), "class-map-duplicate", "mapping a second class to a name")
    dns = gen.pick(rng, (None, n1, n2))

    class CDoc(xmlns.NSDocument):
        default_ns = dns

        @classmethod
        def get_element_class(cls, name):
            return m.get(name, xmlns.NSElement)
    for i in range(10):
        name = gen.pick(rng, sorted(want))
        how = rng.randrange(5)
        if how == 0:
            text, ns = '<x><%s/></x>' % name[1], dns
        elif how == 1:
            text, ns = '<x xmlns="%s"><%s></%s></x>' % (name[0], name[1], name[1]), name[0]
        elif how == 2:
            text, ns = '<x xmlns:p="%s"><p:%s/></x>' % (name[0], name[1]), name[0]
        elif how == 3:
            text, ns = '<x xmlns="urn:z"><%s xmlns="%s"/></x>' % name[::-1], name[0]
        else:
            text, ns = '<x xmlns="urn:z"><y xmlns=""><%s> </%s></y></x>' % (name[1], name[1]), dns
        ctx.witness(text=text, default_ns=dns)
        doc, e = parse(ctx, text, CDoc)
        if doc is None:
            ctx.fail("class-refused", "a well-formed document is refused: %s" % e)
        e = [x for x in walk(doc.root) if x.get_xmlname()[1] == name[1]][0]
        ctx.equal(e.get_xmlname()[0], ns, "class-namespace", "the namespace of the element, with the default %r, is" % dns)
        cls = want.get((ns, name[1]), xmlns.NSElement)
        ctx.check(type(e) is cls, "element-class", "the element {%s}%s is read as %s, not %s" % (ns, name[1], type(e).__name__, cls.__name__))
        ctx.count("classes")
        got, err = expat(str(doc).encode('utf-8'))
        if got is None:
            ctx.fail("class-written", "the document is not written well formed: %s" % err)
    # name matching
    for i in range(20):
        x, y = ((gen.pick(rng, URIS[:3] + (None,)), gen.pick(rng, 'ab')) for j in range(2))
        al = gen.pick(rng, (None, [], [URIS[1]], [URIS[2], URIS[1]]))
        want = x == y or (x[1] == y[1] and y[0] in (al or ()))
        ctx.equal(bool(xmlns.match_expanded_names(x, y, al)), want, "match-names", "match_expanded_names(%r, %r, %r) is" % (x, y, al))
    for s, want in (('a', True), ('a:b', False), (':a', False), ('', False), ('1', False), ('é-1.x', True), ('-a', False), ('a b', False), ('_', True), ('a\u0300', True), ('\u0300a', False), ('a:', False)):
        ctx.equal(bool(xmlns.is_valid_ncname(s)), want, "ncname", "is_valid_ncname(%r) is" % s)
    ctx.nontrivial("c:%s" % uid)


WORKLOADS = [
    Workload("documents", case_documents, quick=60, thorough=800),
    Workload("edits", case_edits, quick=120, thorough=1500),
    Workload("classes", case_classes, quick=40, thorough=300),
]
