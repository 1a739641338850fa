"""C18: validation against a DTD.

Oracle: an evaluator of content models by their definition and of the
validity constraints on attributes and declarations."""

from lib.harness import Workload
from lib import gen

META = dict(
    id="C18", title="DTD validation decides content models exactly",
    statement="A validating parse of a well-formed document reports it as invalid exactly when it breaks a validity constraint: the children of an element do not match its content model as a regular expression (or it holds data, comments or instructions where they are not allowed), an element or attribute is undeclared, the root is another element, a required attribute is missing, an attribute value breaks its type, its fixed value, its enumeration or refers to an id, entity or notation that doesn't exist, or a declaration breaks the rules for declarations.  With errors raised, the parse raises a validity error in just those cases.  Content models are reported as non-deterministic exactly when they are.",
    quantifier=dict(over=["inputs"], text="all DTDs and documents"),
    why_tests_cant="tests use a fixed corpus of valid and invalid documents",
    anchors=dict(files=["pyslet/xml/parser.py", "pyslet/xml/structures.py"],
                 mechanism=[dict(name="ContentParticleCursor", where="pyslet/xml/parser.py"),
                            dict(name="XMLParser.check_attributes", where="pyslet/xml/parser.py"),
                            dict(name="ElementType.build_model", where="pyslet/xml/structures.py")],
                 observe_at=["the parser's verdict"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated DTDs and documents, each verdict compared online with an evaluator of the validity constraints"
LEVEL_NOTE = "Held on the DTDs and documents observed."
RULE = "each case is a batch of documents; distinct by the texts"
MODULES = ["pyslet/xml/parser.py", "pyslet/xml/structures.py"]
REQUIRE = {"documents": 2500, "valid": 700, "invalid": 1000, "models": 3000, "deterministic": 500, "ambiguous": 500, "attributes": 2000, "matches": 4000}

NAMES = ('a', 'b', 'c', 'd', 'e')
ANAMES = ('p', 'q', 'r', 's')
NOTATIONS = ('n1', 'n2')
TYPES = ('CDATA', 'ID', 'IDREF', 'IDREFS', 'NMTOKEN', 'NMTOKENS', 'ENTITY', 'ENTITIES', 'ENUM', 'NOTATION')


# content models: ('n', name, occ), ('|', [..], occ), (',', [..], occ)

def model(rng, names, depth=0):
    r = rng.random()
    occ = gen.pick(rng, ('', '', '', '?', '*', '+'))
    if depth and (r < 0.55 or depth > 2):
        return ('n', gen.pick(rng, names), occ)
    n = gen.pick(rng, (1, 2, 2, 3, 3))
    op = '|' if rng.random() < 0.5 and n > 1 else ','
    return (op, [model(rng, names, depth + 1) for i in range(n)], occ)


def text(m, rng):
    if m[0] == 'n':
        return m[1] + m[2]
    s = gen.pick(rng, ('', '', ' '))
    return '(' + s + (s + m[0] + s).join(text(x, rng) for x in m[1]) + s + ')' + m[2]


def ends(m, names, i):
    """where a match of m starting at i can end"""
    def once(i):
        if m[0] == 'n':
            return {i + 1} if i < len(names) and names[i] == m[1] else set()
        if m[0] == '|':
            out = set()
            for x in m[1]:
                out |= ends(x, names, i)
            return out
        at = {i}
        for x in m[1]:
            at = set().union(*[ends(x, names, j) for j in at]) if at else at
        return at
    if m[2] == '':
        return once(i)
    if m[2] == '?':
        return once(i) | {i}
    seen = set()
    todo = [i]
    out = {i} if m[2] == '*' else set()
    while todo:
        j = todo.pop()
        for k in once(j):
            out.add(k)
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return out


def matches(m, names):
    return len(names) in ends(m, names, 0)


def positions(m):
    """(nullable, first, last, follow) over the particles, numbered"""
    follow = {}
    names = {}

    def walk(m):
        if m[0] == 'n':
            k = len(names)
            names[k] = m[1]
            follow[k] = set()
            r = (False, {k}, {k})
        elif m[0] == '|':
            rs = [walk(x) for x in m[1]]
            r = (any(x[0] for x in rs), set().union(*[x[1] for x in rs]), set().union(*[x[2] for x in rs]))
        else:
            r = (True, set(), set())
            for x in m[1]:
                y = walk(x)
                for k in r[2]:
                    follow[k] |= y[1]
                r = (r[0] and y[0], r[1] | (y[1] if r[0] else set()), y[2] | (r[2] if y[0] else set()))
        if m[2] in ('*', '+') and m[2]:
            for k in r[2]:
                follow[k] |= r[1]
        if m[2] in ('*', '?') and m[2]:
            r = (True,) + r[1:]
        return r
    r = walk(m)
    return r, follow, names


def deterministic(m):
    (null, first, last), follow, names = positions(m)
    for s in [first] + list(follow.values()):
        n = [names[k] for k in s]
        if len(set(n)) < len(n):
            return False
    return True


def sample(rng, m, left):
    """a sequence of names matching m"""
    n = 1
    if m[2] == '?':
        n = rng.randrange(2)
    elif m[2] == '*':
        n = rng.choice((0, 0, 1, 2))
    elif m[2] == '+':
        n = rng.choice((1, 1, 2))
    out = []
    for i in range(n):
        if m[0] == 'n':
            out.append(m[1])
        elif m[0] == '|':
            out += sample(rng, gen.pick(rng, m[1]), left)
        else:
            for x in m[1]:
                out += sample(rng, x, left)
    return out


def is_name(s):
    return bool(s) and (s[0].isalpha() or s[0] in '_:') and all(c.isalnum() or c in '._:-' for c in s)


def is_nmtoken(s):
    return bool(s) and all(c.isalnum() or c in '._:-' for c in s)


class Case:
    def __init__(self, ctx, bad):
        self.ctx = ctx
        self.rng = ctx.rng
        self.bad = bad
        self.errors = []
        self.ids = set()
        self.refs = set()
        self.serial = 0
        self.left = self.rng.choice((1, 4, 8, 16))
        self.elements = {}
        self.attlists = {}
        self.entities = {}
        self.unparsed = ('u1', 'u2')
        self.decls = []
        self.dtd()
        self.root = gen.pick(self.rng, NAMES)
        doctype = self.root
        if self.oops(0.03):
            doctype = gen.pick(self.rng, [n for n in NAMES if n != self.root])
            self.error("root is not " + doctype)
        body = self.element(self.root, 0)
        for r in self.refs - self.ids:
            self.error("no id " + r)
        self.text = '<!DOCTYPE %s [\n%s\n]>\n%s' % (doctype, '\n'.join(self.decls), body)
        if self.oops(0.01):
            self.text = body if '&' not in body else self.text
            if self.text is body:
                self.errors = ["no DTD"]

    def oops(self, p):
        return self.bad and self.rng.random() < p

    def error(self, msg):
        self.errors.append(msg)

    # -- declarations

    def dtd(self):
        rng = self.rng
        decls = []
        for n in NOTATIONS:
            decls.append('<!NOTATION %s %s>' % (n, gen.pick(rng, ('SYSTEM "s"', 'PUBLIC "p"', 'PUBLIC "p" "s"'))))
        for u in self.unparsed:
            n = gen.pick(rng, NOTATIONS)
            if self.oops(0.02):
                n = 'n9'
                self.error("notation of entity undeclared")
            decls.append('<!ENTITY %s SYSTEM "f" NDATA %s>' % (u, n))
        decls.append('<!ENTITY t "text">')
        decls.append('<!ENTITY w " ">')
        for n in NAMES:
            if self.oops(0.01):
                # left out
                continue
            r = rng.random()
            if r < 0.5:
                m = model(rng, NAMES)
                self.ctx.count("models")
                self.elements[n] = ('model', m)
                s = text(m, rng)
            elif r < 0.75:
                k = sorted(rng.sample(NAMES, rng.randrange(4)))
                self.elements[n] = ('mixed', k)
                names = list(k)
                if k and self.oops(0.03):
                    names.append(k[0])
                    self.error("duplicate in mixed model")
                s = '(#PCDATA%s)%s' % (''.join(gen.pick(rng, ('|', ' | ')) + x for x in names), '*' if k else gen.pick(rng, ('', '*')))
            elif r < 0.88:
                self.elements[n] = ('any', None)
                s = 'ANY'
            else:
                self.elements[n] = ('empty', None)
                s = 'EMPTY'
            decls.append('<!ELEMENT %s %s>' % (n, s))
            if self.oops(0.01):
                decls.append('<!ELEMENT %s ANY>' % n)
                self.error("element declared twice")
            if rng.random() < 0.6:
                decls.append(self.attlist(n))
        rng.shuffle(decls)
        self.decls = decls

    def attlist(self, n):
        rng = self.rng
        alist = self.attlists.setdefault(n, {})
        out = []
        for a in rng.sample(ANAMES, rng.randrange(1, 4)):
            t = gen.pick(rng, TYPES)
            values = None
            have = [x[0] for x in alist.values()]
            if t in ('ID', 'NOTATION') and t in have:
                if not self.oops(0.5):
                    t = 'CDATA'
                else:
                    self.error("two attributes of type " + t)
            if t == 'NOTATION' and self.elements.get(n, ('empty',))[0] == 'empty':
                if n in self.elements and self.oops(0.5):
                    self.error("NOTATION on EMPTY")
                else:
                    t = 'NMTOKEN'
            if t == 'ENUM':
                values = rng.sample(('v1', 'v2', '3', '-x'), rng.randrange(1, 4))
                spec = list(values)
                if self.oops(0.05):
                    spec.append(spec[0])
                    self.error("duplicate token")
                s = '(' + gen.pick(rng, ('|', ' | ')).join(spec) + ')'
            elif t == 'NOTATION':
                values = rng.sample(NOTATIONS, rng.randrange(1, 3))
                spec = list(values)
                if self.oops(0.05):
                    spec.append('n7')
                    values.append('n7')
                    self.error("notation of attribute undeclared")
                s = 'NOTATION (' + '|'.join(spec) + ')'
            else:
                s = t
            pres = gen.pick(rng, ('#REQUIRED', '#IMPLIED', '#IMPLIED', 'default', '#FIXED'))
            default = None
            if t == 'ID' and pres in ('default', '#FIXED'):
                if self.oops(0.3):
                    self.error("ID with a default")
                else:
                    pres = '#IMPLIED'
            if t in ('IDREF', 'IDREFS') and pres in ('default', '#FIXED') and rng.random() < 0.7:
                pres = '#REQUIRED'
            if pres in ('default', '#FIXED'):
                default = self.value(t, values, True)
                ds = ('#FIXED ' if pres == '#FIXED' else '') + '"%s"' % default
                default = default if t == 'CDATA' else ' '.join(default.split())
            else:
                ds = pres
            alist[a] = (t, values, pres, default)
            out.append('%s %s %s' % (a, s, ds))
        return '<!ATTLIST %s %s>' % (n, '\n  '.join(out))

    def value(self, t, values, default=False):
        """an attribute value, recording the errors of type that do not
        depend on the document"""
        rng = self.rng
        bad = self.oops(0.06)
        pad = gen.pick(rng, ('', '', '', ' ', '  ')) if t != 'CDATA' else ''
        if t == 'CDATA':
            return gen.pick(rng, ('', 'x', ' a b ', '1', 'v1'))
        if t in ('ENUM', 'NOTATION'):
            if bad:
                v = gen.pick(rng, ('zz', '', 'v1 v2'))
                self.error("%r is not in the enumeration" % v)
            else:
                v = gen.pick(rng, values)
        elif t == 'ID':
            self.serial += 1
            v = gen.pick(rng, ('i%d', '_i%d', 'i-%d')) % self.serial
            if bad and default:
                pass
            elif bad and rng.random() < 0.5 and self.ids:
                v = gen.pick(rng, sorted(self.ids))
                self.error("id twice")
            elif bad:
                v = gen.pick(rng, ('1', '', 'a b', '-x'))
                self.error("id not a name")
            self.ids.add(v) if not default else None
        elif t in ('NMTOKEN', 'NMTOKENS'):
            n = 1 if t == 'NMTOKEN' else rng.randrange(1, 4)
            vs = [gen.pick(rng, ('x', '1', '-', 'é.1', 'a:b')) for i in range(n)]
            if bad:
                vs = gen.pick(rng, ([], ['a', 'b'] if t == 'NMTOKEN' else ['a', '!'], ['+']))
                self.error("not %s: %r" % (t, vs))
            v = ' '.join(vs)
        elif t in ('ENTITY', 'ENTITIES'):
            n = 1 if t == 'ENTITY' else rng.randrange(1, 4)
            vs = [gen.pick(rng, self.unparsed) for i in range(n)]
            if bad:
                vs = gen.pick(rng, ([], ['u1', 'u2'] if t == 'ENTITY' else ['u1', '!'], ['t'], ['u9'], ['1']))
                # a default must only be a name until it is used
                if default and all(is_name(x) for x in vs) and vs and (t == 'ENTITIES' or len(vs) == 1):
                    vs = ['u1']
                else:
                    self.error("not %s: %r" % (t, vs))
            v = ' '.join(vs)
        else:
            n = 1 if t == 'IDREF' else rng.randrange(1, 3)
            # mostly ids that will exist or were seen
            vs = [gen.pick(rng, sorted(self.ids) or ['i1']) if rng.random() < 0.85 else 'i%d' % rng.randrange(1, 6) for i in range(n)]
            vs = [x for x in vs if is_name(x)] or ['i1']
            if bad:
                vs = gen.pick(rng, ([], ['a', 'b'] if t == 'IDREF' else ['a', '!'], ['1']))
                self.error("not %s: %r" % (t, vs))
            elif not default:
                self.refs.update(vs)
            v = ' '.join(vs)
        return pad + v.replace(' ', gen.pick(rng, (' ', '  '))) + pad

    # -- content

    def attributes(self, n):
        rng = self.rng
        alist = self.attlists.get(n, {})
        out = []
        self.expect = {}
        for a in alist:
            t, values, pres, default = alist[a]
            self.ctx.count("attributes")
            give = rng.random() < 0.6
            if pres == '#REQUIRED' and not give:
                if self.oops(0.15):
                    self.error("required %s missing" % a)
                    continue
                give = True
            if not give and default is not None:
                # the default is the value
                self.used(t, values, default)
                continue
            if not give:
                continue
            if pres == '#FIXED':
                v = default
                if t != 'CDATA' and rng.random() < 0.3:
                    v = ' ' + v + ' '
                if self.oops(0.15):
                    v = v + 'x' if t in ('CDATA', 'NMTOKEN') else v + ' i1'
                    self.error("fixed value")
                else:
                    self.used(t, values, default)
            else:
                v = self.value(t, values)
            out.append((a, v))
        if self.oops(0.02):
            out.append(('z', 'v'))
            self.error("undeclared attribute")
        rng.shuffle(out)
        return ''.join(' %s="%s"' % x for x in out)

    def used(self, t, values, v):
        """a default value takes effect"""
        if t in ('IDREF', 'IDREFS'):
            self.refs.update(v.split())
        elif t == 'ID':
            if v in self.ids:
                self.error("id twice by default")
            self.ids.add(v)

    def element(self, n, depth):
        rng = self.rng
        self.left -= 1
        attrs = self.attributes(n)
        kind, m = self.elements.get(n, (None, None))
        if kind is None:
            self.error("no declaration of " + n)
            kind = 'any'
        deep = depth > 5 or self.left <= 0
        if kind == 'model':
            # children that match, when there is room
            names = None
            for i in range(4):
                s = sample(rng, m, 0)
                if names is None or len(s) < len(names):
                    names = s
                if not deep and len(s) < 6:
                    names = s
                    break
            if self.oops(0.15):
                names = list(names)
                for i in range(rng.randrange(1, 3)):
                    r = rng.random()
                    if names and r < 0.4:
                        del names[rng.randrange(len(names))]
                    elif r < 0.8:
                        names.insert(rng.randrange(len(names) + 1), gen.pick(rng, NAMES))
                    elif len(names) > 1:
                        names[0], names[-1] = names[-1], names[0]
            if deep and depth > 9 or self.left < -40:
                names = []
            if not matches(m, names):
                self.error("%s: %r does not match" % (n, names))
        elif kind == 'empty':
            names = []
            if self.oops(0.08):
                names = [gen.pick(rng, NAMES)] if depth < 8 else []
                if names:
                    self.error("children in EMPTY")
        else:
            pool = m if kind == 'mixed' else NAMES
            names = [gen.pick(rng, pool) for i in range(rng.choice((0, 1, 2, 3)))] if pool and not deep else []
            if kind == 'mixed' and self.oops(0.06) and depth < 8:
                x = gen.pick(rng, NAMES)
                names.append(x)
                if x not in m:
                    self.error("%s not in mixed model" % x)
        parts = []

        def filler():
            r = rng.random()
            if r < 0.5:
                return
            if kind == 'empty':
                if self.oops(0.1):
                    s = gen.pick(rng, (' ', 'x', '<!--c-->', '<?p?>', '&t;', '&#32;', '<![CDATA[]]>', '\n'))
                    self.error("%r in EMPTY" % s)
                    parts.append(s)
                return
            if kind == 'model':
                if self.oops(0.05):
                    s = gen.pick(rng, ('x', '&t;', '&#32;', '<![CDATA[]]>', '<![CDATA[ ]]>', ' x '))
                    self.error("%r in element content" % s)
                    parts.append(s)
                else:
                    parts.append(gen.pick(rng, (' ', '\n', '<!--c-->', '<?p i?>', ' <!--c--> ')))
                return
            parts.append(gen.pick(rng, ('x', ' ', '<!--c-->', '<?p?>', '&t;', '&#65;', '<![CDATA[<x>]]>', '<![CDATA[]]>')))
        filler()
        for c in names:
            parts.append(self.element(c, depth + 1))
            filler()
        body = ''.join(parts)
        if not body and rng.random() < 0.5:
            return '<%s%s/>' % (n, attrs)
        return '<%s%s>%s</%s>' % (n, attrs, body, n)


def case_documents(ctx):
    rng = ctx.rng
    import pyslet.xml.structures as xml
    from pyslet.xml.parser import XMLParser
    import logging
    logging.disable(logging.CRITICAL)
    for i in range(60):
        c = Case(ctx, rng.random() < 0.6)
        text = c.text
        ctx.witness(text=text, errors=repr(c.errors))
        ctx.count("documents")

        def parser(raises):
            p = XMLParser(xml.XMLEntity(text))
            p.check_validity = True
            p.raiseValidityErrors = raises
            return p
        p = parser(False)
        p.parse_document()
        if c.errors:
            ctx.count("invalid")
            if p.valid:
                ctx.fail("invalid-accepted:" + c.errors[0].split(':')[0][:30], "a document that is not valid (%s) is reported as valid" % c.errors)
            ctx.check(len(p.nonFatalErrors) > 0, "no-errors", "an invalid document has no errors listed")
        else:
            ctx.count("valid")
            if not p.valid:
                ctx.fail("valid-refused", "a valid document is reported as invalid: %s" % p.nonFatalErrors[:3])
            ctx.equal(list(p.nonFatalErrors), [], "valid-errors", "the errors listed for a valid document are")
        if rng.random() < 0.5:
            try:
                parser(True).parse_document()
                raised = False
            except xml.XMLValidityError:
                raised = True
            ctx.equal(raised, bool(c.errors), "raised", "with errors raised, the parse raises a validity error:")
        if rng.random() < 0.3:
            p = XMLParser(xml.XMLEntity(text))
            p.parse_document()
            ctx.check(p.valid is None, "verdict-unasked", "a parse without checks has the verdict %r" % p.valid)
        ctx.nontrivial("d:%s" % hash(text))


def case_models(ctx):
    """content models against many sequences, and for ambiguity"""
    rng = ctx.rng
    import pyslet.xml.structures as xml
    from pyslet.xml.parser import XMLParser
    import logging
    logging.disable(logging.CRITICAL)
    for i in range(40):
        names = NAMES[:rng.randrange(1, 5)]
        m = model(rng, names)
        s = text(m, rng)
        ctx.count("models")
        dtd = '<!DOCTYPE r [<!ELEMENT r %s>%s]>' % (s, ''.join('<!ELEMENT %s EMPTY>' % n for n in NAMES))
        for j in range(8):
            seq = sample(rng, m, 0)[:12]
            if rng.random() < 0.6:
                for k in range(rng.randrange(1, 3)):
                    r = rng.random()
                    if seq and r < 0.5:
                        del seq[rng.randrange(len(seq))]
                    else:
                        seq.insert(rng.randrange(len(seq) + 1), gen.pick(rng, NAMES))
            want = matches(m, seq)
            body = ''.join('<%s/>' % n for n in seq)
            ctx.witness(model=s, children=seq)
            p = XMLParser(xml.XMLEntity(dtd + ('<r>%s</r>' % body if body or rng.random() < 0.5 else '<r/>')))
            p.check_validity = True
            p.parse_document()
            ctx.count("matches")
            ctx.equal(bool(p.valid), want, "model-match", "the children %r of the model %s are found valid:" % (seq, s))
        want = deterministic(m)
        ctx.count("deterministic" if want else "ambiguous")
        p = XMLParser(xml.XMLEntity(dtd + '<r/>'))
        p.check_validity = True
        p.checkCompatibility = True
        p.parse_document()
        said = any('eterministic' in e for e in p.nonFatalErrors)
        ctx.equal(not said, want, "deterministic", "the model %s is found deterministic:" % s)
        ctx.nontrivial("m:%s" % s)


WORKLOADS = [
    Workload("documents", case_documents, quick=60, thorough=900),
    Workload("models", case_models, quick=60, thorough=900),
]
