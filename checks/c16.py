"""C16: element trees under mutation.

Oracle: a model of the documents, orphans, parents, children and ids, which
replays every operation; all of the library's tree is compared with it after
each one."""

import io

from lib.harness import Workload
from lib import gen

META = dict(
    id="C16", title="Element trees stay consistent under mutation",
    statement="After any history of adding, removing, replacing, re-attaching, copying, resetting, renaming and re-reading elements, in and between documents: each element's parent and document are those it was put in, each parent yields exactly its children in order, and a document finds an element by id exactly when that element is in its tree and has that id.  An id that is taken, malformed or an element that isn't there is refused with the documented error and changes nothing.  Searches by class give exactly the matching descendants for their depth and nesting options, and inherited properties (xml:base, xml:lang, xml:space) come from the nearest ancestor that defines them.",
    quantifier=dict(over=["histories"], text="all histories of operations on trees in several documents"),
    why_tests_cant="tests make one change to one tree",
    anchors=dict(files=["pyslet/xml/structures.py"],
                 mechanism=[dict(name="Element", where="pyslet/xml/structures.py"),
                            dict(name="Document.register_element", where="pyslet/xml/structures.py")],
                 observe_at=["parents, children, id lookups after each operation"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: random histories of tree operations, the whole tree compared online with a model after each"
LEVEL_NOTE = "Held on the histories observed."
RULE = "each case is one history; distinct by its operations"
MODULES = ["pyslet/xml/structures.py"]
REQUIRE = {"operations": 8000, "refused": 500, "moved": 200, "copied": 200, "reread": 100, "searches": 3000, "resets": 100, "inherited": 1000}

IDS = ['i%d' % i for i in range(8)]
_K = {}


def classes():
    if _K:
        return _K
    import pyslet.xml.structures as xml

    class Any(xml.Element):
        XMLNAME = 'any'
        ID = 'id'

    class Sub(Any):
        XMLNAME = 'sub'

    class Empty(xml.Element):
        XMLNAME = 'empty'
        ID = 'id'
        XMLCONTENT = xml.ElementType.EMPTY

    class One(Any):
        XMLNAME = 'one'

    class Item(Any):
        XMLNAME = 'item'

    class Item2(Item):
        XMLNAME = 'item2'

    class Group(xml.Element):
        XMLNAME = 'group'
        ID = 'id'
        XMLCONTENT = xml.ElementType.ELEMENT_CONTENT

        def __init__(self, parent):
            xml.Element.__init__(self, parent)
            self.One = None
            self.Item = []

        def get_children(self):
            if self.One:
                yield self.One
            for c in self.Item:
                yield c
            for c in xml.Element.get_children(self):
                yield c

        def reset(self, reset_attrs=False):
            if self.One:
                self.One.detach_from_parent()
                self.One = None
            for c in self.Item:
                c.detach_from_parent()
            self.Item = []
            xml.Element.reset(self, reset_attrs)

    class Doc(xml.Document):
        @classmethod
        def get_element_class(cls, name):
            return {c.XMLNAME: c for c in (Any, Sub, Empty, One, Item, Item2, Group)}.get(name, xml.Element)
    _K.update(xml=xml, Any=Any, Sub=Sub, Empty=Empty, One=One, Item=Item, Item2=Item2, Group=Group, Doc=Doc)
    return _K


def isa(kind, of):
    return kind in {'Any': ('Any', 'Sub', 'One', 'Item', 'Item2'), 'Item': ('Item', 'Item2'),
                    'Element': ('Any', 'Sub', 'One', 'Item', 'Item2', 'Empty', 'Group')}.get(of, (of,))


class N:
    """model element"""

    def __init__(self, e, kind, parent):
        self.e = e
        self.kind = kind
        self.parent = parent      # N, D or None
        self.id = None
        self.name = e.XMLNAME
        self.attrs = {}
        self.one = None
        self.items = []
        self.kids = []            # N or str

    def children(self):
        return ([self.one] if self.one else []) + self.items + self.kids

    def elements(self):
        return [c for c in self.children() if isinstance(c, N)]

    def walk(self):
        yield self
        for c in self.elements():
            for x in c.walk():
                yield x

    def doc(self):
        p = self.parent
        while isinstance(p, N):
            p = p.parent
        return p


class D:
    def __init__(self, doc):
        self.doc = doc
        self.root = None

    def ids(self):
        return {n.id: n for n in self.root.walk() if n.id} if self.root else {}


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.K = classes()
        self.docs = []
        self.orphans = []
        self.log = []
        for i in range(2):
            self.docs.append(D(self.K['Doc']()))
        self.free = self.ctx.rng.random() < 0.5

    # -- model helpers

    def all(self):
        out = []
        for d in self.docs:
            if d.root:
                out.extend(d.root.walk())
        for o in self.orphans:
            out.extend(o.walk())
        return out

    def some(self, test=lambda n: True):
        c = [n for n in self.all() if test(n)]
        return gen.pick(self.rng, c) if c else None

    def unlink(self, n):
        """model: n leaves its parent"""
        p = n.parent
        if isinstance(p, D):
            p.root = None
        elif p.one is n:
            p.one = None
        else:
            p.items = [x for x in p.items if x is not n]
            p.kids = [x for x in p.kids if x is not n]
        n.parent = None
        self.orphans.append(n)

    def reset(self, n):
        """model: all children become orphans"""
        for c in n.elements():
            self.unlink(c)
        n.kids = []

    def up(self, n):
        """n and its ancestors"""
        out = []
        while isinstance(n, N):
            out.append(n)
            n = n.parent
        return out

    def taken(self, d, id, but=None):
        return isinstance(d, D) and any(x.id == id and x is not but for x in d.root.walk()) if d and d.root else False

    def refused(self, fn, exc, key, msg):
        self.ctx.count("refused")
        self.ctx.raises(exc, fn, key, msg)

    # -- operations

    def op_add(self):
        rng, K = self.rng, self.K
        p = self.some(lambda n: len(list(n.walk())) < 30)
        if p is None:
            return
        kind = gen.pick(rng, ('Any', 'Sub', 'Item', 'Item2', 'Group', 'Empty', 'One'))
        name = gen.pick(rng, (None, None, 'n1', 'n2'))
        self.log.append(('add', kind, name))
        if p.kind == 'Empty':
            self.refused(lambda: p.e.add_child(K[kind], name), K['xml'].XMLValidityError, "add-to-empty", "adding a child to an element that must be empty")
            return
        e = p.e.add_child(K[kind], name) if name else p.e.add_child(K[kind])
        if p.kind == 'Group' and kind == 'One' and p.one:
            self.ctx.count("resets")
            self.ctx.check(e is p.one.e, "add-single", "adding the single child again gives another element")
            n = p.one
            self.reset(n)
            n.attrs = {}
            n.id = None
            if name:
                n.name = name
            return
        self.ctx.check(type(e) is K[kind], "add-class", "the element added is of class %s" % type(e).__name__)
        n = N(e, kind, p)
        if name:
            n.name = name
        if p.kind == 'Group' and kind == 'One':
            p.one = n
        elif p.kind == 'Group' and isa(kind, 'Item'):
            p.items.append(n)
        else:
            p.kids.append(n)

    def op_get_or_add(self):
        rng, K = self.rng, self.K
        p = self.some(lambda n: n.kind == 'Group')
        if p is None:
            return
        kind = gen.pick(rng, ('Any', 'Item', 'One'))
        self.log.append(('get-or-add', kind))
        e = p.e.get_or_add_child(K[kind])
        found = [c for c in p.elements() if isa(c.kind, kind)]
        if found:
            self.ctx.check(e is found[0].e, "get-or-add", "get_or_add_child doesn't give the first existing child of the class")
        else:
            n = N(e, kind, p)
            if kind == 'One':
                p.one = n
            elif kind == 'Item':
                p.items.append(n)
            else:
                p.kids.append(n)

    def op_remove(self):
        n = self.some(lambda n: isinstance(n.parent, N))
        if n is None:
            return
        self.log.append(('remove', n.kind))
        n.parent.e.remove_child(n.e)
        self.unlink(n)

    def op_remove_wrong(self):
        p, n = self.some(), self.some()
        if p is None or n is None or n.parent is p:
            return
        self.log.append(('remove-wrong', p.kind, n.kind))
        self.refused(lambda: p.e.remove_child(n.e), self.K['xml'].XMLUnknownChild, "remove-unknown", "removing an element that isn't a child")

    def op_id(self):
        rng, K = self.rng, self.K
        n = self.some()
        if n is None:
            return
        id = gen.pick(rng, IDS + [None, '1x', 'a b', ''])
        self.log.append(('id', id))

        def go():
            if how:
                n.e.set_id(id)
            else:
                n.e.set_attribute('id', id)
        how = rng.random() < 0.5
        if id in ('1x', 'a b', ''):
            self.refused(go, K['xml'].XMLIDValueError, "id-invalid", "setting the id %r" % id)
        elif id is not None and self.taken(n.doc(), id, n):
            self.refused(go, K['xml'].XMLIDClashError, "id-clash", "setting an id another element of the document has")
        else:
            go()
            n.id = id

    def op_attr(self):
        rng = self.rng
        n = self.some()
        if n is None:
            return
        a = gen.pick(rng, ('p', 'q', 'xml:lang', 'xml:space', 'xml:base'))
        v = gen.pick(rng, {'xml:lang': (None, 'en', 'fr'), 'xml:space': (None, 'default', 'preserve'), 'xml:base': (None, 'http://h.example/x/', 'sub/', 'y.xml', '/top/')}.get(a, (None, '', 'v')))
        self.log.append(('attr', a, v))
        if a.startswith('xml:') and rng.random() < 0.5:
            getattr(n.e, 'set_' + a[4:])(v)
        else:
            n.e.set_attribute(a, v)
        n.attrs[a] = v
        if v is None:
            del n.attrs[a]

    def op_data(self):
        rng, K = self.rng, self.K
        n = self.some()
        if n is None:
            return
        s = gen.pick(rng, ('', ' ', 'd', 'x y', '\n'))
        if rng.random() < 0.6:
            self.log.append(('data', n.kind, s))
            if n.kind in ('Group', 'Empty'):
                if s.strip():
                    self.refused(lambda: n.e.add_data(s), K['xml'].XMLValidityError, "data-refused", "adding data to an element that has none")
                else:
                    n.e.add_data(s)
                return
            n.e.add_data(s)
            n.kids.append(s)
        else:
            self.log.append(('value', n.kind, s))
            if n.kind in ('Group', 'Empty'):
                self.refused(lambda: n.e.set_value(s), K['xml'].XMLMixedContentError, "value-refused", "setting the value of an element without mixed content")
                return
            v = gen.pick(rng, (s, s, None))
            n.e.set_value(v)
            self.reset(n)
            if v is not None:
                n.kids = [v]

    def op_reset(self):
        n = self.some(lambda n: n.kind != 'Empty')
        if n is None:
            return
        a = self.rng.random() < 0.5
        self.log.append(('reset', n.kind, a))
        self.ctx.count("resets")
        n.e.reset(a)
        self.reset(n)
        if a:
            n.attrs = {}
            n.id = None

    def dups(self, n, doc):
        """would n's tree clash in doc"""
        ids = [x.id for x in n.walk() if x.id]
        if len(set(ids)) < len(ids):
            return True
        return bool(doc and doc.root and set(ids) & set(doc.ids()))

    def op_attach(self):
        rng, K = self.rng, self.K
        n = gen.pick(rng, [o for o in self.orphans if isa(o.kind, 'Item')] or [None])
        if n is None:
            return
        mine = set(id(x) for x in n.walk())
        p = self.some(lambda x: x.kind == 'Group' and id(x) not in mine)
        if p is None:
            return
        self.log.append(('attach', n.kind))
        d = p.doc()
        if isinstance(d, D) and self.dups(n, d):
            self.refused(lambda: n.e.attach_to_parent(p.e), K['xml'].XMLIDClashError, "attach-clash", "attaching a tree whose ids are taken")
            return
        n.e.attach_to_parent(p.e)
        p.e.Item.append(n.e)
        p.items.append(n)
        n.parent = p
        self.orphans = [o for o in self.orphans if o is not n]
        self.ctx.count("moved")

    def op_attach_wrong(self):
        n = self.some(lambda n: n.parent is not None)
        p = self.some()
        if n is None or p is None:
            return
        self.log.append(('attach-wrong',))
        self.refused(lambda: n.e.attach_to_parent(p.e), self.K['xml'].XMLParentError, "attach-not-orphan", "attaching an element that has a parent")

    def op_new_doc(self):
        """a document from an orphan takes the place of one of ours"""
        rng, K = self.rng, self.K
        if not self.orphans:
            return
        n = gen.pick(rng, self.orphans)
        self.log.append(('document',))
        if self.dups(n, None):
            self.refused(lambda: K['Doc'](root=n.e), K['xml'].XMLIDClashError, "document-clash", "making a document of a tree with the same id twice")
            return
        d = D(K['Doc'](root=n.e, base_uri=gen.pick(rng, (None, 'http://www.example.com/doc.xml'))))
        d.root = n
        n.parent = d
        self.orphans = [o for o in self.orphans if o is not n]
        self.docs[rng.randrange(2)] = d
        self.ctx.count("moved")

    def op_document_wrong(self):
        n = self.some(lambda n: n.parent is not None)
        if n is None:
            return
        self.refused(lambda: self.K['Doc'](root=n.e), ValueError, "document-not-orphan", "making a document of an element that has a parent")

    def op_root(self):
        rng, K = self.rng, self.K
        d = gen.pick(rng, self.docs)
        kind = gen.pick(rng, ('Any', 'Group', 'Group', 'Item'))
        self.log.append(('root', kind))
        e = d.doc.add_child(K[kind])
        if d.root:
            self.unlink(d.root)
        d.root = N(e, kind, d)

    def op_read(self):
        rng, K = self.rng, self.K
        d = gen.pick(rng, self.docs)
        ids = list(IDS)
        rng.shuffle(ids)

        def build(kind, depth):
            m = [kind, ids.pop() if ids and rng.random() < 0.5 else None, []]
            if kind != 'Empty' and depth < 3:
                one = False
                for i in range(rng.randrange(4)):
                    k = gen.pick(rng, ('Any', 'Sub', 'Item', 'Group', 'Empty', 'One'))
                    if kind == 'Group' and k == 'One':
                        if one:
                            continue
                        one = True
                    m[2].append(build(k, depth + 1))
            return m

        def text(m):
            return '<%s%s>%s</%s>' % (m[0].lower(), ' id="%s"' % m[1] if m[1] else '', ''.join(text(c) for c in m[2]), m[0].lower())

        def link(m, e, parent):
            n = N(e, m[0], parent)
            n.id = m[1]
            src = m[2]
            if m[0] == 'Group':
                one = [c for c in src if c[0] == 'One']
                items = [c for c in src if isa(c[0], 'Item')]
                rest = [c for c in src if c not in one and c not in items]
            else:
                one, items, rest = [], [], src
            es = [x for x in e.get_children() if not isinstance(x, str)]
            self.ctx.equal([type(x).__name__ for x in es], [c[0] for c in one + items + rest], "read-children", "the children read are")
            ns = [link(c, x, n) for c, x in zip(one + items + rest, es)]
            n.one = ns[0] if one else None
            n.items = ns[len(one):len(one) + len(items)]
            n.kids = ns[len(one) + len(items):]
            return n
        m = build(gen.pick(rng, ('Group', 'Any')), 0)
        src = text(m)
        self.log.append(('read', src))
        d.doc.read(src=io.BytesIO(src.encode('utf-8')))
        self.ctx.count("reread")
        if d.root:
            self.unlink(d.root)
        d.root = link(m, d.doc.root, d)

    def op_copy(self):
        rng, K = self.rng, self.K
        n = self.some(lambda n: len(list(n.walk())) < 12)
        if n is None:
            return
        p = None
        if rng.random() < 0.6:
            p = self.some(lambda x: x.kind not in ('Empty',) and not (x.kind == 'Group' and n.kind == 'One'))
            if p is not None and any(x is p for x in n.walk()):
                p = None
        self.log.append(('copy', n.kind, p and p.kind))
        if p is not None:
            d = p.doc()
            if isinstance(d, D) and self.dups(n, d):
                self.refused(lambda: n.e.deepcopy(p.e), K['xml'].XMLIDClashError, "copy-clash", "copying a tree with ids into a document that has them")
                return

        def link(src, e, parent):
            c = N(e, src.kind, parent)
            c.id, c.name, c.attrs = src.id, src.name, dict(src.attrs)
            es = [x for x in e.get_children() if not isinstance(x, str)]
            self.ctx.equal([type(x).__name__ for x in es], [x.kind for x in src.elements()], "copy-children", "the children copied are")
            self.ctx.check(not any(x is y.e for x in es for y in src.elements()), "copy-shares", "a copy shares children with the original")
            ns = iter([link(x, y, c) for x, y in zip(src.elements(), es)])
            c.one = next(ns) if src.one else None
            c.items = [next(ns) for x in src.items]
            c.kids = [x if isinstance(x, str) else next(ns) for x in src.kids]
            return c
        e = n.e.deepcopy(p.e) if p is not None else n.e.deepcopy()
        self.ctx.check(type(e) is type(n.e), "copy-class", "a copy is of class %s" % type(e).__name__)
        c = link(n, e, p)
        if p is None:
            self.orphans.append(c)
        elif p.kind == 'Group' and isa(c.kind, 'Item'):
            p.items.append(c)
        else:
            p.kids.append(c)
        if not any('xml:space' in x.attrs for x in self.up(n) + self.up(c)):
            # (white space does not count, unless preserved)
            self.ctx.check(e == n.e, "copy-equal", "a copy does not equal the original")
        self.ctx.count("copied")

    def op_unique(self):
        d = gen.pick(self.rng, self.docs)
        base = gen.pick(self.rng, [None] + IDS)
        v = d.doc.get_unique_id(base)
        self.ctx.check(v not in d.ids(), "unique-id", "the unique id %r is taken" % v)
        if base:
            self.ctx.check(v.startswith(base), "unique-id-base", "the unique id %r doesn't start with %r" % (v, base))
            if base not in d.ids():
                self.ctx.equal(v, base, "unique-id-free", "for a base that is free the unique id is")

    # -- observation

    def check(self):
        ctx = self.ctx
        for d in self.docs:
            if d.root is None:
                ctx.check(d.doc.root is None, "root-none", "a document has a root it should not have")
            else:
                ctx.check(d.doc.root is d.root.e, "root", "a document's root is another element")
            ids = d.ids()
            for id in IDS:
                got = d.doc.get_element_by_id(id)
                want = ids[id].e if id in ids else None
                if got is not want:
                    what = "is registered but not in the tree" if want is None else ("is not registered" if got is None else "finds the wrong element")
                    ctx.fail("id-lookup", "the id %s %s" % (id, what))
        for n in self.all():
            p = n.parent
            want = p.e if isinstance(p, N) else (p.doc if isinstance(p, D) else None)
            ctx.check(n.e.parent is want, "parent", "the parent of a %s is %r" % (n.kind, type(n.e.parent).__name__))
            d = n.doc()
            ctx.check(n.e.get_document() is (d.doc if d else None), "document", "the document of a %s is wrong" % n.kind)
            ctx.equal(n.e.id, n.id, "id", "the id of an element is")
            ctx.equal(n.e.get_xmlname(), n.name, "name", "the name of an element is")
            want = []
            for c in n.children():
                if isinstance(c, str):
                    if want and isinstance(want[-1], str):
                        want[-1] += c
                    elif c:
                        want.append(c)
                else:
                    want.append(c.e)
            got = []
            for c in n.e.get_children():
                if isinstance(c, str) and got and isinstance(got[-1], str):
                    got[-1] += c
                elif not isinstance(c, str) or c:
                    got.append(c)
            ok = len(got) == len(want) and all((x == y) if isinstance(x, str) else x is y for x, y in zip(got, want))
            if not ok:
                ctx.fail("children", "the children of a %s are %r, not %r" % (n.kind, [c if isinstance(c, str) else type(c).__name__ for c in got], [c if isinstance(c, str) else type(c).__name__ for c in want]))
            a = dict(n.attrs)
            if n.id:
                a['id'] = n.id
            ctx.equal(n.e.get_attributes(), a, "attributes", "the attributes of an element are")

    def search(self):
        rng, ctx, K = self.rng, self.ctx, self.K
        n = self.some()
        if n is None:
            return
        ctx.count("searches")
        kind = gen.pick(rng, ('Any', 'Item', 'Item2', 'Group', 'Element', 'Sub', 'Any+Group'))
        kinds = kind.split('+')
        cls = tuple(K['xml'].Element if k == 'Element' else K[k] for k in kinds)
        if len(cls) == 1 and rng.random() < 0.8:
            cls = cls[0]
        sub = rng.random() < 0.5
        depth = gen.pick(rng, (1, 2, 3, 1000, 1000))

        def match(x):
            return any(isa(x.kind, k) for k in kinds)

        def deep(x, left):
            out = []
            for c in x.elements():
                if match(c):
                    out.append(c.e)
                    if not sub:
                        continue
                if left > 1:
                    out.extend(deep(c, left - 1))
            return out
        kw = {}
        if not sub or rng.random() < 0.5:
            kw['sub_match'] = sub
        if depth < 1000:
            kw['max_depth'] = depth
        want = deep(n, depth)
        got = list(n.e.find_children_depth_first(cls, **kw))
        ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "find-depth-first", "find_children_depth_first(%s, %r) gives %d elements, not the %d expected" % (kind, kw, len(got), len(want)))
        got = list(n.e.find_children_breadth_first(cls, **kw))
        ctx.check(sorted(map(id, got)) == sorted(map(id, want)), "find-breadth-first", "find_children_breadth_first(%s, %r) gives %d elements, not the %d expected" % (kind, kw, len(got), len(want)))
        first = [c.e for c in n.elements() if match(c)]
        ctx.check(all(x is y for x, y in zip(got, first)), "find-breadth-order", "find_children_breadth_first doesn't start with the children")
        p = n.parent
        while isinstance(p, N) and not match(p):
            p = p.parent
        want = p.e if isinstance(p, N) else None
        ctx.check(n.e.find_parent(cls) is want, "find-parent", "find_parent finds another parent")
        # inherited
        ctx.count("inherited")
        for a, fn in (('xml:lang', n.e.resolve_lang), ('xml:space', n.e.resolve_space)):
            p = n
            while isinstance(p, N) and not p.attrs.get(a):
                p = p.parent
            ctx.equal(fn(), p.attrs[a] if isinstance(p, N) else None, "inherited:" + a, "the %s in effect is" % a)
        from urllib.parse import urljoin
        chain = []
        p = n
        while isinstance(p, N):
            if p.attrs.get('xml:base'):
                chain.append(p.attrs['xml:base'])
            p = p.parent
        if isinstance(p, D) and p.doc.base_uri is not None:
            chain.append(str(p.doc.base_uri))
        if not chain:
            ctx.equal(n.e.resolve_base(), None, "inherited:none", "with no base anywhere the base is")
        elif any(c.startswith('http') for c in chain):
            base = ''
            for c in reversed(chain):
                base = urljoin(base, c)
            ctx.equal(n.e.resolve_base(), base, "inherited:base", "the base in effect, of %r, is" % chain)
            ctx.equal(str(n.e.resolve_uri('q/z.png')), urljoin(base, 'q/z.png'), "resolve-uri", "a URI resolves to")
            u = urljoin(base, gen.pick(rng, ('q/z.png', '/a/b', '../k.xml?q', 'z')))
            r = n.e.relative_uri(u)
            ctx.equal(str(n.e.resolve_uri(r)), u, "relative-uri", "the relative URI %s resolves to" % r)


OPS = (['op_add'] * 8 + ['op_remove'] * 3 + ['op_remove_wrong'] + ['op_id'] * 5 + ['op_attr'] * 3 + ['op_data'] * 2 + ['op_reset', 'op_get_or_add', 'op_attach_wrong', 'op_document_wrong', 'op_unique'] +
       ['op_attach'] * 3 + ['op_new_doc', 'op_root', 'op_read'] + ['op_copy'] * 3)


def case_history(ctx):
    w = World(ctx)
    for d in w.docs:
        w.docs.index(d)
        kind = gen.pick(w.rng, ('Group', 'Group', 'Any'))
        d.root = N(d.doc.add_child(w.K[kind]), kind, d)
    for i in range(60):
        op = gen.pick(w.rng, OPS)
        ctx.witness(log=repr(w.log[-12:]), op=op)
        getattr(w, op)()
        ctx.count("operations")
        ctx.witness(log=repr(w.log[-12:]), op=op)
        w.check()
        if w.rng.random() < 0.5:
            w.search()
        if len(w.orphans) > 12:
            w.orphans = w.orphans[-12:]
    ctx.nontrivial("h:%s" % hash(repr(w.log)))


WORKLOADS = [
    Workload("history", case_history, quick=250, thorough=2500),
]
