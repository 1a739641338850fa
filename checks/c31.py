"""C31: metadata documents.

Oracle: models are generated as plain data, written as XML by this module and
compared attribute by attribute with the loaded document, before and after the
document is serialised and read again."""

import copy
import io
from xml.sax.saxutils import escape, quoteattr

from lib.harness import Workload
from lib import gen

META = dict(
    id="C31", title="Metadata documents round-trip and reject broken models",
    statement="Every metadata document built from schemas, complex and entity types, associations and containers, in any order and under any of the supported CSDL namespaces, loads into a model whose declarations match the document: types, keys and facets of properties, ends and back links of navigation properties, entity sets with their keys, targets, multiplicities and locations, function imports, documentation and OData annotations.  Looking up a name among the containers finds exactly the entity sets, and functions it denotes.  The document serialises to XML that loads into the same model.  Models with clashing names, incomplete associations, unbound navigation properties or annotations that break the OData rules raise ModelError on loading or validation; other dangling references are left unset; no other exception is raised.",
    quantifier=dict(over=["inputs"], text="all models in the supported subset of CSDL and single inconsistent edits of them"),
    why_tests_cant="tests load about ten fixed documents; the declarations interact across types, schemas and containers",
    anchors=dict(files=["pyslet/odata2/csdl.py", "pyslet/odata2/edmx.py", "pyslet/odata2/metadata.py"],
                 mechanism=[dict(name="Schema, Property, NavigationProperty, AssociationEnd, EntitySet, AssociationSetEnd, FunctionImport", where="pyslet/odata2/csdl.py"),
                            dict(name="Document.validate, DataServices.search_containers, FeedCustomisationMixin", where="pyslet/odata2/metadata.py")],
                 observe_at=["attributes of the loaded model, serialised documents, exceptions"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated models compared with what was loaded, before and after a round trip; exception monitor over inconsistent models"
LEVEL_NOTE = "Held on the documents observed."
RULE = "each case is a model; distinct by its XML text"
MODULES = ["pyslet/odata2/csdl.py", "pyslet/odata2/edmx.py", "pyslet/odata2/metadata.py"]
REQUIRE = {"models": 250, "properties": 3000, "navigation": 500, "sets": 800, "functions": 200, "reloaded": 250, "broken": 500, "rejected": 200, "ambiguous": 80}

EDMX = "http://schemas.microsoft.com/ado/2007/06/edmx"
META_NS = "http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"
EDM = ("http://schemas.microsoft.com/ado/2006/04/edm", "http://schemas.microsoft.com/ado/2007/05/edm",
       "http://schemas.microsoft.com/ado/2008/09/edm", "http://schemas.microsoft.com/ado/2009/11/edm")
ATOM = "http://www.w3.org/2005/Atom"
SIMPLE = ('Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Decimal', 'Double', 'Guid', 'Int16', 'Int32',
          'Int64', 'SByte', 'Single', 'String', 'Time')
STEMS = ('Thing', 'Item', 'Value', 'Order', 'Élan', 'name', 'X', 'a1', 'Größe', '商品', 'Long_Name', 'Key', 'Id', 'Type', 'count')
NAMESPACES = ('NS', 'My.Model', 'A.B.C', 'Données', 'Other', 'A.C', 'my', 'Sample_1.Model')
# target path -> the element names it stands for (MS-ODATA 2.2.3.7.2.1)
ATOM_PATHS = {
    'SyndicationAuthorName': 'author/name', 'SyndicationAuthorEmail': 'author/email',
    'SyndicationAuthorUri': 'author/uri', 'SyndicationPublished': 'published', 'SyndicationRights': 'rights',
    'SyndicationSummary': 'summary', 'SyndicationTitle': 'title', 'SyndicationUpdated': 'updated',
    'SyndicationContributorName': 'contributor/name', 'SyndicationContributorEmail': 'contributor/email',
    'SyndicationContributorUri': 'contributor/uri'}
MIMES = ('text/plain', 'image/png', 'application/json', 'text/x-Foo; charset=utf-8')


class Names(object):
    def __init__(self, rng):
        self.rng, self.used = rng, set()

    def __call__(self, p=0.4):
        rng = self.rng
        while True:
            n = gen.pick(rng, STEMS)
            if rng.random() > p:
                n += str(rng.randrange(100))
            if n not in self.used:
                self.used.add(n)
                return n


def words(rng):
    # runs of white space are not significant
    return ' '.join(gen.text(rng, 20, 'abc é商<>&"\' .-', 1).split()) or 'doc'


def documentation(rng):
    if rng.random() < 0.85:
        return None
    return words(rng), (words(rng) if rng.random() < 0.7 else None)


def simple_property(rng, name, t=None):
    t = t or gen.pick(rng, SIMPLE)
    p = dict(name=name, type=t, ref=None, facets={}, doc=documentation(rng), m={})
    f = p['facets']
    if rng.random() < 0.5:
        f['Nullable'] = rng.random() < 0.5
    if rng.random() < 0.2:
        f['ConcurrencyMode'] = gen.pick(rng, ('Fixed', 'None'))
    if rng.random() < 0.2:
        f['DefaultValue'] = gen.text(rng, 8, 'abc 01é<>&"\'')
    if t in ('String', 'Binary'):
        if rng.random() < 0.5:
            f['MaxLength'] = gen.pick(rng, (1, 2, 50, 4000, 2 ** 31, 'Max'))
        if rng.random() < 0.3:
            f['FixedLength'] = rng.random() < 0.5
    if t == 'String':
        if rng.random() < 0.3:
            f['Unicode'] = rng.random() < 0.5
        if rng.random() < 0.1:
            f['Collation'] = 'Latin1_General'
    if t in ('Decimal', 'DateTime', 'Time', 'DateTimeOffset') and rng.random() < 0.4:
        f['Precision'] = rng.randint(0, 28)
    if t == 'Decimal' and rng.random() < 0.4:
        f['Scale'] = rng.randint(0, 28)
    if rng.random() < 0.1:
        p['m']['MimeType'] = gen.pick(rng, MIMES)
    if rng.random() < 0.12:
        if rng.random() < 0.6:
            p['m']['FC_TargetPath'] = gen.pick(rng, sorted(ATOM_PATHS))
        else:
            p['m'].update(FC_TargetPath=gen.pick(rng, ('a', 'a/b', 'a/b/@c')), FC_NsPrefix='pp', FC_NsUri='http://example.com/ns')
        if rng.random() < 0.7:
            p['m']['FC_KeepInContent'] = gen.pick(rng, ('true', 'false'))
    return p


def complex_property(rng, name, ref):
    p = dict(name=name, type=None, ref=ref, facets={}, doc=documentation(rng), m={})
    if rng.random() < 0.4:
        p['facets']['Nullable'] = False
    return p


def model(rng):
    """the whole model as plain data.  References are (schema index, name)"""
    spaces = rng.sample(NAMESPACES, rng.randint(1, 3))
    schemas = [dict(ns=ns, alias=None, complex=[], entity=[], assoc=[], containers=[], names=Names(rng)) for ns in spaces]

    def anywhere():
        return rng.randrange(len(schemas))

    ctypes = []
    for i in range(rng.randint(0, 4)):
        s = anywhere()
        n = schemas[s]['names']()
        pn = Names(rng)
        props = [simple_property(rng, pn()) for j in range(rng.randint(1, 4))]
        if ctypes and rng.random() < 0.6:
            props.append(complex_property(rng, pn(), gen.pick(rng, ctypes)))
        rng.shuffle(props)
        schemas[s]['complex'].append(dict(name=n, props=props, doc=documentation(rng)))
        ctypes.append((s, n))
    etypes = {}
    for i in range(rng.randint(1, 5)):
        s = anywhere()
        n = schemas[s]['names']()
        pn = Names(rng)
        keys = [simple_property(rng, pn(), gen.pick(rng, ('Int32', 'String', 'Int64', 'Guid', 'DateTime'))) for j in
                range(gen.pick(rng, (1, 1, 1, 2, 3)))]
        for k in keys:
            k['facets']['Nullable'] = False
        props = keys + [simple_property(rng, pn()) for j in range(rng.randint(0, 5))]
        if ctypes and rng.random() < 0.6:
            props.append(complex_property(rng, pn(), gen.pick(rng, ctypes)))
        rng.shuffle(props)
        e = dict(name=n, props=props, keys=[k['name'] for k in keys], navs=[], doc=documentation(rng), m={}, names=pn, principal=False)
        if rng.random() < 0.2:
            e['m']['HasStream'] = gen.pick(rng, ('true', 'false'))
        schemas[s]['entity'].append(e)
        etypes[(s, n)] = e
    refs = sorted(etypes)
    assocs = {}
    for i in range(rng.randint(0, 5)):
        s = anywhere()
        n = schemas[s]['names']()
        ends = [gen.pick(rng, refs), gen.pick(rng, refs)]
        roles = rng.sample(('a', 'b', 'Source', 'Target', 'Élément'), 2)
        mults = [gen.pick(rng, ('0..1', '1', '*')), gen.pick(rng, ('0..1', '1', '*'))]
        navs = []
        for j in range(2):
            me = etypes[ends[j]]
            other = mults[1 - j]
            nav = rng.random() < 0.75
            if not nav and other == '1':
                # at most one unbound principal
                if me['principal']:
                    nav = True
                else:
                    me['principal'] = True
            if nav:
                name = me['names']()
                me['navs'].append(dict(name=name, assoc=(s, n), from_=roles[j], to=roles[1 - j], doc=documentation(rng)))
                navs.append((ends[j], name))
            else:
                navs.append(None)
        a = dict(name=n, ends=[dict(role=roles[j], type=ends[j], mult=mults[j], doc=documentation(rng)) for j in range(2)],
                 navs=navs, doc=documentation(rng))
        schemas[s]['assoc'].append(a)
        assocs[(s, n)] = a
    for e in etypes.values():
        rng.shuffle(e['navs'])
    cnames = Names(rng)
    used = set()
    for s in schemas:
        used |= s['names'].used
    cnames.used = used
    ncont = rng.randint(1, 3)
    default = rng.randrange(ncont)
    containers = []
    for i in range(ncont):
        s = anywhere()
        names = Names(rng)
        types = set(rng.sample(refs, rng.randint(1, len(refs))))
        grew = True
        while grew:
            grew = False
            for a in assocs.values():
                ts = [x['type'] for x in a['ends']]
                if any(nav is not None and nav[0] in types for nav in a['navs']) and not set(ts) <= types:
                    types |= set(ts)
                    grew = True
        sets = {}
        c = dict(name=cnames(), default=None, sets=[], asets=[], functions=[], doc=documentation(rng))
        for t in sorted(types):
            n = names()
            sets[t] = n
            c['sets'].append(dict(name=n, type=t, doc=documentation(rng)))
        for r in sorted(assocs):
            a = assocs[r]
            ts = [x['type'] for x in a['ends']]
            if not set(ts) <= types:
                continue
            if a['navs'] == [None, None] and rng.random() < 0.5 and not any(x['mult'] == '1' for x in a['ends']):
                continue
            ends = [dict(role=x['role'], set=sets[x['type']], doc=documentation(rng)) for x in a['ends']]
            omit = rng.random()
            if omit < 0.15:
                ends[rng.randrange(2)]['omit'] = True
            elif omit < 0.25 and ts[0] != ts[1]:
                ends[0]['omit'] = ends[1]['omit'] = True
            if rng.random() < 0.5:
                ends.reverse()
            c['asets'].append(dict(name=names(), assoc=r, ends=ends, doc=documentation(rng)))
        for j in range(rng.randint(0, 3)):
            m = rng.randrange(3)
            coll = rng.random() < 0.5
            f = dict(name=names(), coll=coll, set=None, params=[], doc=documentation(rng), m=dict(HttpMethod=gen.pick(rng, ('GET', 'POST'))))
            if m == 0 or (m == 1 and not ctypes):
                f['ret'] = gen.pick(rng, SIMPLE)
            elif m == 1:
                f['ret'] = gen.pick(rng, ctypes)
            else:
                es = gen.pick(rng, c['sets'])
                f['ret'] = es['type']
                f['set'] = es['name']
            pn = Names(rng)
            for k in range(rng.randint(0, 3)):
                p = dict(name=pn(), type=gen.pick(rng, SIMPLE), mode=gen.pick(rng, (None, 'In', 'In', 'Out', 'InOut')), facets={}, doc=documentation(rng))
                if p['type'] in ('String', 'Binary') and rng.random() < 0.4:
                    p['facets']['MaxLength'] = gen.pick(rng, (1, 20, 'Max'))
                f['params'].append(p)
            c['functions'].append(f)
        if i == default:
            c['default'] = 'true'
        elif rng.random() < 0.3:
            c['default'] = 'false'
        schemas[s]['containers'].append(c)
        containers.append(c)
    for s in schemas:
        for k in ('complex', 'entity', 'assoc', 'containers'):
            rng.shuffle(s[k])
    keep = [p['m'].get('FC_KeepInContent') for s in schemas for t in s['complex'] + s['entity'] for p in t['props']]
    return dict(schemas=schemas, version=gen.pick(rng, (None, '2.0' if 'false' in keep else '1.0')),
                base=gen.pick(rng, (None, 'http://host/svc/$metadata', 'http://host.example.com/a/b%20c/$metadata')))


# ----------------------------------------------------------------- to XML

class Writer(object):
    def __init__(self, rng, m):
        self.rng, self.m = rng, m
        self.edm = gen.pick(rng, EDM)
        self.e = gen.pick(rng, ('', '', 'edm:'))
        self.mp = gen.pick(rng, ('m', 'm', 'meta'))
        self.out = []

    def qname(self, ref):
        return '%s.%s' % (self.m['schemas'][ref[0]]['ns'], ref[1])

    def attrs(self, a, meta={}):
        items = [(k, v) for k, v in a if v is not None] + [(self.mp + ':' + k, v) for k, v in sorted(meta.items())]
        self.rng.shuffle(items)
        return ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in items)

    def open(self, tag, a, meta={}):
        self.out.append('<%s%s%s>' % (self.e, tag, self.attrs(a, meta)))

    def close(self, tag):
        self.out.append('</%s%s>' % (self.e, tag))
        if self.rng.random() < 0.3:
            self.out.append(gen.pick(self.rng, ('\n', '  ', '<!-- comment -->')))

    def doc(self, d):
        if d:
            self.open('Documentation', [])
            self.open('Summary', [])
            self.out.append(escape(d[0]))
            self.close('Summary')
            if d[1]:
                self.open('LongDescription', [])
                self.out.append(escape(d[1]))
                self.close('LongDescription')
            self.close('Documentation')

    def bool(self, v):
        return gen.pick(self.rng, ('true', '1')) if v else gen.pick(self.rng, ('false', '0'))

    def facets(self, f):
        out = []
        for k, v in sorted(f.items()):
            if isinstance(v, bool):
                v = self.bool(v)
            elif k == 'MaxLength' and v == 'Max':
                v = gen.pick(self.rng, ('Max', 'max'))
            out.append((k, str(v)))
        return out

    def prop(self, p):
        if p['ref']:
            t = self.qname(p['ref'])
        elif 'badtype' in p:
            t = p['badtype']
        else:
            t = 'Edm.' + p['type']
        self.open('Property', [('Name', p['name']), ('Type', t)] + self.facets(p['facets']), p['m'])
        self.doc(p['doc'])
        self.close('Property')

    def write(self):
        m, rng = self.m, self.rng
        o = self.out
        o.append('<edmx:Edmx Version="1.0" xmlns:edmx="%s"><edmx:DataServices xmlns:%s="%s"%s>' % (
            EDMX, self.mp, META_NS, '' if m['version'] is None else ' %s:DataServiceVersion="%s"' % (self.mp, m['version'])))
        for s in m['schemas']:
            o.append('<%sSchema Namespace=%s xmlns%s="%s">' % (self.e, quoteattr(s['ns']), ':edm' if self.e else '', self.edm))
            parts = [('c', x) for x in s['complex']] + [('e', x) for x in s['entity']] + [('a', x) for x in s['assoc']] + [
                ('k', x) for x in s['containers']]
            rng.shuffle(parts)
            for k, x in parts:
                getattr(self, 'put_' + k)(x)
            o.append('</%sSchema>' % self.e)
        o.append('</edmx:DataServices></edmx:Edmx>')
        return ''.join(o)

    def put_c(self, c):
        self.open('ComplexType', [('Name', c['name'])])
        self.doc(c['doc'])
        for p in c['props']:
            self.prop(p)
        self.close('ComplexType')

    def put_e(self, e):
        self.open('EntityType', [('Name', e['name'])], e['m'])
        self.doc(e['doc'])
        if e['keys'] is not None:
            self.open('Key', [])
            for k in e['keys']:
                self.open('PropertyRef', [('Name', k)])
                self.close('PropertyRef')
            self.close('Key')
        for p in e['props']:
            self.prop(p)
        for n in e['navs']:
            self.open('NavigationProperty', [('Name', n['name']), ('Relationship', self.qname(n['assoc'])),
                                             ('FromRole', n['from_']), ('ToRole', n['to'])])
            self.doc(n['doc'])
            self.close('NavigationProperty')
        self.close('EntityType')

    def put_a(self, a):
        self.open('Association', [('Name', a['name'])])
        self.doc(a['doc'])
        for x in a['ends']:
            self.open('End', [('Role', x['role']), ('Type', self.qname(x['type'])), ('Multiplicity', x['mult'])])
            self.doc(x['doc'])
            self.close('End')
        self.close('Association')

    def put_k(self, c):
        self.open('EntityContainer', [('Name', c['name'])], {} if c['default'] is None else dict(IsDefaultEntityContainer=c['default']))
        self.doc(c['doc'])
        parts = [('s', x) for x in c['sets']] + [('t', x) for x in c['asets']] + [('f', x) for x in c['functions']]
        if self.rng.random() < 0.5:
            self.rng.shuffle(parts)
        for k, x in parts:
            getattr(self, 'put_' + k)(x)
        self.close('EntityContainer')

    def put_s(self, s):
        self.open('EntitySet', [('Name', s['name']), ('EntityType', self.qname(s['type']))])
        self.doc(s['doc'])
        self.close('EntitySet')

    def put_t(self, t):
        self.open('AssociationSet', [('Name', t['name']), ('Association', self.qname(t['assoc']))])
        self.doc(t['doc'])
        for x in t['ends']:
            self.open('End', [('Role', None if x.get('omit') else x['role']), ('EntitySet', x['set'])])
            self.doc(x['doc'])
            self.close('End')
        self.close('AssociationSet')

    def put_f(self, f):
        t = 'Edm.' + f['ret'] if isinstance(f['ret'], str) else self.qname(f['ret'])
        self.open('FunctionImport', [('Name', f['name']), ('ReturnType', 'Collection(%s)' % t if f['coll'] else t),
                                     ('EntitySet', f['set'])], f['m'])
        self.doc(f['doc'])
        for p in f['params']:
            self.open('Parameter', [('Name', p['name']), ('Type', 'Edm.' + p['type']), ('Mode', p['mode'])] + self.facets(p['facets']))
            self.doc(p['doc'])
            self.close('Parameter')
        self.close('FunctionImport')


def load(text, base=None):
    from pyslet import rfc2396 as uri
    from pyslet.odata2 import metadata as edmx
    d = edmx.Document(base_uri=uri.URI.from_octets(base)) if base else edmx.Document()
    d.read(src=io.BytesIO(text.encode('utf-8')))
    return d


# ----------------------------------------------------------------- compare

MULT = {'0..1': 0, '1': 1, '*': 2}


def compare(ctx, m, doc, where):
    from pyslet.odata2 import csdl as edm
    ds = doc.root.DataServices
    schemas = m['schemas']

    def same(got, want, what):
        ctx.equal(got, want, '%s:%s' % (where, what.split(' ')[0]), what)

    def documented(el, d, what):
        got = el.Documentation
        if d is None:
            same(got, None, 'documentation of ' + what)
            return
        ctx.check(got is not None, where + ':documentation', what)
        same(got.Summary.get_value() if got.Summary is not None else None, d[0], 'summary of ' + what)
        same(got.LongDescription.get_value() if got.LongDescription is not None else None, d[1], 'description of ' + what)

    def find(ref):
        t = ds['%s.%s' % (schemas[ref[0]]['ns'], ref[1])]
        same(t.name, ref[1], 'lookup ' + ref[1])
        same(t.parent.name, schemas[ref[0]]['ns'], 'schema of ' + ref[1])
        return t

    def properties(t, props, what):
        same([p.name for p in t.Property], [p['name'] for p in props], 'properties of ' + what)
        for p, want in zip(t.Property, props):
            w = '%s.%s' % (what, want['name'])
            ctx.count("properties")
            same(t[want['name']] is p, True, 'property lookup ' + w)
            f = want['facets']
            if want['ref']:
                same(p.simpleTypeCode, None, 'simple type of ' + w)
                same(p.complexType is find(want['ref']), True, 'complex type of ' + w)
            else:
                same(p.simpleTypeCode, getattr(edm.SimpleType, want['type']), 'type of ' + w)
                same(p.complexType, None, 'complex type of ' + w)
            same(p.nullable, f.get('Nullable', True), 'nullable ' + w)
            same(p.defaultValue, f.get('DefaultValue'), 'default ' + w)
            ml = f.get('MaxLength')
            same(p.maxLength, edm.MAX if ml == 'Max' else ml, 'maxLength ' + w)
            same(p.fixedLength, f.get('FixedLength'), 'fixedLength ' + w)
            same(p.precision, f.get('Precision'), 'precision ' + w)
            same(p.scale, f.get('Scale'), 'scale ' + w)
            same(p.unicode, f.get('Unicode'), 'unicode ' + w)
            same(p.collation, f.get('Collation'), 'collation ' + w)
            cm = f.get('ConcurrencyMode')
            same(p.concurrencyMode, {None: None, 'Fixed': edm.ConcurrencyMode.Fixed, 'None': edm.ConcurrencyMode.none}[cm], 'concurrency ' + w)
            mt = want['m'].get('MimeType')
            got = p.get_mime_type()
            if mt is None:
                same(got, None, 'mimetype ' + w)
            else:
                same(str(got).replace(' ', '').lower(), mt.replace(' ', '').lower(), 'mimetype ' + w)
            path = want['m'].get('FC_TargetPath')
            if path is None:
                wp = None
            elif path in ATOM_PATHS:
                wp = [(ATOM, x) for x in ATOM_PATHS[path].split('/')]
            else:
                wp = [(want['m']['FC_NsUri'], x) for x in path.split('/')]
            got = p.get_target_path()
            same(None if got is None else list(got), wp, 'targetpath ' + w)
            same(p.keep_in_content(), want['m'].get('FC_KeepInContent') == 'true', 'keep ' + w)
            same(p.get_fc_ns_prefix(), (want['m'].get('FC_NsPrefix'), want['m'].get('FC_NsUri')), 'fcprefix ' + w)
            v = p()
            same(v.is_null() if want['ref'] is None else False, want['ref'] is None, 'instance ' + w) if isinstance(v, edm.SimpleValue) else None
            same(isinstance(v, edm.Complex), want['ref'] is not None, 'instance class ' + w)
            documented(p, want['doc'], w)

    same([s.name for s in ds.Schema], [s['ns'] for s in schemas], 'schemas')
    same(ds.data_services_version(), m['version'], 'version')
    sets_of = {}
    for i, s in enumerate(schemas):
        got = ds.Schema[i]
        for kind, lst in (('complex', got.ComplexType), ('entity', got.EntityType), ('assoc', got.Association), ('containers', got.EntityContainer)):
            same(sorted(x.name for x in lst), sorted(x['name'] for x in s[kind]), kind + ' types')
        for c in s['complex']:
            t = find((i, c['name']))
            same(t.__class__.__name__, 'ComplexType', 'class of ' + c['name'])
            properties(t, c['props'], c['name'])
            documented(t, c['doc'], c['name'])
        for e in s['entity']:
            t = find((i, e['name']))
            ctx.check(isinstance(t, edm.EntityType), where + ':class', e['name'])
            properties(t, e['props'], e['name'])
            documented(t, e['doc'], e['name'])
            same([r.name for r in t.Key.PropertyRef], e['keys'], 'keys of ' + e['name'])
            for r in t.Key.PropertyRef:
                same(r.property is t[r.name], True, 'key property ' + r.name)
            same(t.has_stream(), e['m'].get('HasStream') == 'true', 'hasstream ' + e['name'])
            same([n.name for n in t.NavigationProperty], [n['name'] for n in e['navs']], 'navigation of ' + e['name'])
            for n, want in zip(t.NavigationProperty, e['navs']):
                ctx.count("navigation")
                w = '%s.%s' % (e['name'], want['name'])
                a = find(want['assoc'])
                same(n.association is a, True, 'association of ' + w)
                same(n.from_end is a[want['from_']], True, 'from_end of ' + w)
                same(n.to_end is a[want['to']], True, 'to_end of ' + w)
                same(n.ambiguous, False, 'ambiguous ' + w)
                wa = [x for x in schemas[want['assoc'][0]]['assoc'] if x['name'] == want['assoc'][1]][0]
                j = [x['role'] for x in wa['ends']].index(want['from_'])
                back = wa['navs'][1 - j]
                same((n.backLink.name, n.backLink.parent is find(back[0])) if n.backLink is not None else None,
                     (back[1], True) if back else None, 'backlink of ' + w)
                documented(n, want['doc'], w)
        for a in s['assoc']:
            t = find((i, a['name']))
            documented(t, a['doc'], a['name'])
            same([x.name for x in t.AssociationEnd], [x['role'] for x in a['ends']], 'roles of ' + a['name'])
            for j, x in enumerate(t.AssociationEnd):
                same(x.entityType is find(a['ends'][j]['type']), True, 'end type of ' + a['name'])
                same(x.multiplicity, MULT[a['ends'][j]['mult']], 'end multiplicity of ' + a['name'])
                same(x.otherEnd is t.AssociationEnd[1 - j], True, 'other end of ' + a['name'])
                documented(x, a['ends'][j]['doc'], a['name'])
        for c in s['containers']:
            container(ctx, m, ds, got, c, where, same, documented, find)
    lookups(ctx, m, ds, where, same)


def base_of(m):
    return m['base'].rsplit('/', 1)[0] + '/' if m['base'] else ''


def container(ctx, m, ds, schema, c, where, same, documented, find):
    from pyslet.odata2 import csdl as edm
    schemas = m['schemas']
    t = schema[c['name']]
    same(t.is_default_entity_container(), c['default'] == 'true', 'default ' + c['name'])
    if c['default'] == 'true':
        same(ds.defaultContainer is t, True, 'default container')
    documented(t, c['doc'], c['name'])
    same(sorted(x.name for x in t.EntitySet), sorted(x['name'] for x in c['sets']), 'sets')
    same(sorted(x.name for x in t.AssociationSet), sorted(x['name'] for x in c['asets']), 'associationsets')
    same(sorted(x.name for x in t.FunctionImport), sorted(x['name'] for x in c['functions']), 'functions')
    # navigation property -> (source set, association set)
    for es in c['sets']:
        ctx.count("sets")
        got = t[es['name']]
        w = '%s.%s' % (c['name'], es['name'])
        et = find(es['type'])
        e = [x for x in schemas[es['type'][0]]['entity'] if x['name'] == es['type'][1]][0]
        same(got.entityType is et, True, 'set type ' + w)
        same(list(got.keys), e['keys'], 'set keys ' + w)
        same(got.get_fqname(), '%s.%s' % (schema.name, w), 'set fqname ' + w)
        documented(got, es['doc'], w)
        path = es['name'] if c['default'] == 'true' else w
        # locations are URIs: non-ASCII names may be escaped
        from pyslet import rfc2396 as uri
        loc = uri.unescape_data(str(got.get_location())).decode('utf-8')
        same(loc, uri.unescape_data(base_of(m)).decode('utf-8') + path, 'location ' + w)
        same(sorted(got.navigation), sorted(n['name'] for n in e['navs']), 'set navigation ' + w)
        principal = None
        for n in e['navs']:
            a = [x for x in schemas[n['assoc'][0]]['assoc'] if x['name'] == n['assoc'][1]][0]
            j = [x['role'] for x in a['ends']].index(n['from_'])
            at = [x for x in c['asets'] if x['assoc'] == n['assoc']][0]
            target = [x['set'] for x in at['ends'] if x['role'] == n['to']][0]
            same(got.get_target(n['name']) is t[target], True, 'target %s.%s' % (w, n['name']))
            same(tuple(got.get_multiplicity(n['name'])), (MULT[a['ends'][j]['mult']], MULT[a['ends'][1 - j]['mult']]),
                 'multiplicity %s.%s' % (w, n['name']))
            same(got.is_entity_collection(n['name']), a['ends'][1 - j]['mult'] == '*', 'collection %s.%s' % (w, n['name']))
        for at in c['asets']:
            a = [x for x in schemas[at['assoc'][0]]['assoc'] if x['name'] == at['assoc'][1]][0]
            for j in range(2):
                if a['ends'][j]['type'] == es['type'] and a['navs'][j] is None and a['ends'][1 - j]['mult'] == '1':
                    principal = (at['name'], a['ends'][j]['role'])
        up = got.unboundPrincipal
        same(None if up is None else (up.parent.name, up.name), principal, 'principal ' + w)
    for at in c['asets']:
        got = t[at['name']]
        w = '%s.%s' % (c['name'], at['name'])
        a = find(at['assoc'])
        same(got.association is a, True, 'aset association ' + w)
        same([x.name for x in got.AssociationSetEnd], [x['role'] for x in at['ends']], 'aset roles ' + w)
        documented(got, at['doc'], w)
        for j, x in enumerate(got.AssociationSetEnd):
            same(x.entity_set is t[at['ends'][j]['set']], True, 'aset set ' + w)
            same(x.associationEnd is a[at['ends'][j]['role']], True, 'aset end ' + w)
            same(x.otherEnd is got.AssociationSetEnd[1 - j], True, 'aset other end ' + w)
            documented(x, at['ends'][j]['doc'], w)
    for f in c['functions']:
        ctx.count("functions")
        got = t[f['name']]
        w = '%s.%s' % (c['name'], f['name'])
        r = got.returnTypeRef
        ctx.check(r is not None, where + ':return type', w)
        same(r.collection, f['coll'], 'return collection ' + w)
        same(got.is_collection(), f['coll'], 'is_collection ' + w)
        same(got.is_entity_collection(), f['coll'] and f['set'] is not None, 'is_entity_collection ' + w)
        if isinstance(f['ret'], str):
            same(r.simpleTypeCode, getattr(edm.SimpleType, f['ret']), 'return type ' + w)
        else:
            same(r.type_def is find(f['ret']), True, 'return type ' + w)
        same(got.entity_set is (t[f['set']] if f['set'] else None), True, 'function set ' + w)
        same([p.name for p in got.Parameter], [p['name'] for p in f['params']], 'parameters ' + w)
        documented(got, f['doc'], w)
        for p, want in zip(got.Parameter, f['params']):
            same(p.typeRef.simpleTypeCode, getattr(edm.SimpleType, want['type']), 'parameter type ' + w)
            same(p.mode, None if want['mode'] is None else getattr(edm.ParameterMode, want['mode']), 'parameter mode ' + w)
            ml = want['facets'].get('MaxLength')
            same(p.maxLength, edm.MAX if ml == 'Max' else ml, 'parameter maxLength ' + w)
            same(got[want['name']] is p, True, 'parameter lookup ' + w)
            documented(p, want['doc'], w)


def lookups(ctx, m, ds, where, same):
    found = {}
    other = set()
    for s in m['schemas']:
        for c in s['containers']:
            pre = '' if c['default'] == 'true' else c['name'] + '.'
            for x in c['sets'] + c['functions']:
                found[pre + x['name']] = (c['name'], x['name'])
            for x in c['sets']:
                other.add(x['name'])
                other.add(c['name'] + '.' + x['name'])
            other.add(c['name'])
        for x in s['entity'] + s['complex'] + s['assoc']:
            other.add(x['name'])
            for p in x.get('props', ()):
                other.add(x['name'] + '.' + p['name'])
    for n in sorted(found):
        x = ds.search_containers(n)
        same((x.parent.name, x.name), found[n], 'search ' + n)
    for n in sorted(other) + ['nothing', 'a.b', '']:
        if n not in found:
            ctx.raises(KeyError, lambda: ds.search_containers(n), where + ':search of other names', n)


def models(ctx):
    rng = ctx.rng
    m = model(rng)
    text = Writer(rng, m).write()
    ctx.witness(xml=text)
    ctx.nontrivial(text)
    ctx.count("models")
    doc = load(text, m['base'])
    same = compare(ctx, m, doc, 'load')
    ctx.equal(doc.validate(), m['version'], 'validate', 'version returned')
    out = str(doc)
    ctx.witness(xml=text, out=out)
    doc2 = load(out, m['base'])
    ctx.count("reloaded")
    compare(ctx, m, doc2, 'reload')
    ctx.equal(doc2.validate(), m['version'], 'validate', 'version returned')
    ctx.sample(dict(schemas=len(m['schemas']), sets=sum(len(c['sets']) for s in m['schemas'] for c in s['containers']), octets=len(out)))


# ----------------------------------------------------------------- broken

def everything(m, kind):
    return [(s, x) for s in m['schemas'] for x in s[kind]]


def break_model(rng, m):
    """applies one inconsistent edit; returns (name, must be rejected)"""
    ents, assocs, conts = everything(m, 'entity'), everything(m, 'assoc'), everything(m, 'containers')
    s, e = gen.pick(rng, ents)
    ei = m['schemas'].index(s)
    c = gen.pick(rng, conts)[1]
    used = [(x, y) for k in conts for x in k[1]['sets'] for y in [1]]
    in_sets = set(x['type'] for k in conts for x in k[1]['sets'])
    k = rng.randrange(24)
    if k == 0:
        p = simple_property(rng, gen.pick(rng, [p['name'] for p in e['props']] + [n['name'] for n in e['navs']]))
        e['props'].insert(rng.randint(0, len(e['props'])), p)
        return 'duplicate property', True
    if k == 1:
        kind = gen.pick(rng, ('complex', 'entity', 'assoc'))
        x = dict(name=e['name'], props=[simple_property(rng, 'P')], keys=['P'], navs=[], m={}, doc=None,
                 ends=[dict(role=r, type=(ei, e['name']), mult='*', doc=None) for r in 'ab'])
        s[kind].append(x)
        return 'duplicate type', True
    if k == 2:
        names = [x['name'] for x in c['sets'] + c['asets'] + c['functions']]
        x = gen.pick(rng, c['sets'])
        c['sets'].append(dict(name=gen.pick(rng, names), type=x['type'], doc=None))
        return 'duplicate set', True
    if k == 3:
        ref = gen.pick(rng, sorted(in_sets))
        t = [x for x in m['schemas'][ref[0]]['entity'] if x['name'] == ref[1]][0]
        t['keys'] = None
        return 'no key', True
    if k in (4, 5, 6, 7) and any(e['navs'] for x, e in ents if True):
        cands = [(i, x) for i, (q, x) in enumerate(ents) if x['navs'] and (m['schemas'].index(q), x['name']) in in_sets]
        if not cands:
            return None
        x = gen.pick(rng, cands)[1]
        n = gen.pick(rng, x['navs'])
        if k == 4:
            n['assoc'] = (n['assoc'][0], 'Missing')
        elif k == 5:
            n['from_'] = 'nowhere'
        elif k == 6:
            n['to'] = 'nowhere'
        else:
            n['assoc'] = gen.pick(rng, sorted(in_sets))
        return 'navigation', True
    if k in (8, 9) and assocs:
        a = gen.pick(rng, assocs)[1]
        if k == 8:
            a['ends'].pop(rng.randrange(2))
        else:
            a['ends'][0]['role'] = a['ends'][1]['role']
        return 'association ends', True
    asets = [(cc, at) for q, cc in conts for at in cc['asets']]
    if k in (10, 11, 12, 13) and asets:
        cc, at = gen.pick(rng, asets)
        a = [x for x in m['schemas'][at['assoc'][0]]['assoc'] if x['name'] == at['assoc'][1]][0]
        bound = a['navs'] != [None, None]
        if k == 10:
            if not bound:
                return None
            cc['asets'].remove(at)
            return 'association set missing', True
        if k == 11:
            at['ends'].pop(rng.randrange(2))
            return 'association set ends', True
        if k == 12:
            x = gen.pick(rng, at['ends'])
            x.pop('omit', None)
            x['role'] = 'nowhere'
            return 'association set role', True
        gen.pick(rng, at['ends'])['set'] = 'Missing'
        return 'association set target', True if bound else None
    fs = [f for q, cc in conts for f in cc['functions']]
    if k in (14, 15, 16, 17, 18) and fs:
        f = gen.pick(rng, fs)
        if k == 14:
            f['ret'] = (0, 'Missing')
        elif k == 15:
            f['set'] = 'Missing'
        elif k == 16:
            if isinstance(f['ret'], str) or f['set'] is None:
                f['set'] = gen.pick(rng, conts)[1]['sets'][0]['name']
            elif f['coll']:
                f['set'] = None
            else:
                return None
        elif k == 17:
            if not f['params']:
                return None
            f['params'].append(dict(f['params'][0]))
        else:
            f['m'] = gen.pick(rng, ({}, dict(HttpMethod='PATCH'), dict(HttpMethod='get')))
        return 'function', True
    if k == 19:
        m2 = rng.randrange(3)
        if m2 == 0:
            for q, cc in conts:
                cc['default'] = gen.pick(rng, (None, 'false'))
        elif m2 == 1:
            for q, cc in conts:
                cc['default'] = 'true'
            if len(conts) < 2:
                return None
        else:
            c['default'] = gen.pick(rng, ('yes', 'True', '1', ''))
        return 'default container', True
    if k == 20:
        m2 = rng.randrange(3)
        if m2 == 0:
            e['m']['HasStream'] = gen.pick(rng, ('yes', '1', ''))
        elif m2 == 1:
            gen.pick(rng, e['props'])['m']['HasStream'] = 'true'
        else:
            gen.pick(rng, e['props'])['m']['MimeType'] = gen.pick(rng, ('text', 'a/b/c', '', 'text/', '/plain', 'text/plain;'))
        return 'annotation', True
    if k == 21:
        keep = [p['m'].get('FC_KeepInContent') for q, t in ents + everything(m, 'complex') for p in t['props']]
        m['version'] = '1.0' if 'false' in keep else gen.pick(rng, ('2.0', '3.0', '', 'x'))
        return 'version', True
    if k == 22:
        p = gen.pick(rng, e['props'])
        p['ref'] = None
        p['badtype'] = gen.pick(rng, ('Edm.Int33', 'NS.Missing', 'x', '', '.', 'Edm.', s['ns'] + '.' + e['name']))
        return 'property type', ('type', (ei, e['name']), p['name'])
    if k == 23:
        x = gen.pick(rng, c['sets'])
        x['type'] = (0, 'Missing')
        return 'set type', ('set', c['name'], x['name'])
    return None


def broken(ctx):
    from pyslet.odata2 import csdl as edm
    rng = ctx.rng
    base = model(rng)
    for i in range(6):
        m = copy.deepcopy(base)
        r = break_model(rng, m)
        if r is None:
            continue
        what, must = r
        text = Writer(rng, m).write()
        ctx.witness(edit=what, must=str(must), xml=text)
        ctx.count("broken")
        ctx.nontrivial(text)
        doc = None
        try:
            doc = load(text)
            doc.validate()
        except edm.ModelError:
            ctx.count("rejected")
            continue
        ctx.check(must is not True, 'accepted:' + what, 'an inconsistent model was accepted')
        if must is None:
            continue
        ds = doc.root.DataServices
        if must[0] == 'type':
            p = ds['%s.%s' % (m['schemas'][must[1][0]]['ns'], must[1][1])][must[2]]
            ctx.equal((p.simpleTypeCode, p.complexType), (None, None), 'dangling:type', 'undefined type')
        else:
            es = [s for x in ds.Schema for c in x.EntityContainer if c.name == must[1] for s in c.EntitySet if s.name == must[2]]
            ctx.equal([s.entityType for s in es], [None], 'dangling:set', 'undefined entity type')


def ambiguous(ctx):
    """several navigation properties for the same end of an association"""
    from pyslet.odata2 import csdl as edm
    rng = ctx.rng
    k = rng.randint(2, 4)
    back = rng.random() < 0.5
    names = Names(rng)
    E, F, A, DB = [names() for i in range(4)]
    es, fs, aset, fs2 = [names() for i in range(4)]
    if rng.random() < 0.3:
        es, fs = E, F
    names = Names(rng)
    navs = [names() for i in range(k)]
    mults = (gen.pick(rng, ('0..1', '*')), gen.pick(rng, ('0..1', '*', '1')))
    two = not back and rng.random() < 0.2
    nav = '<NavigationProperty Name="%s" Relationship="NS.' + A + '" FromRole="%s" ToRole="%s"/>'
    typ = '<EntityType Name="%s"><Key><PropertyRef Name="K_"/></Key><Property Name="K_" Type="Edm.Int32" Nullable="false"/>%s</EntityType>'
    text = ('<edmx:Edmx Version="1.0" xmlns:edmx="%s"><edmx:DataServices xmlns:m="%s"><Schema Namespace="NS" xmlns="%s">' % (EDMX, META_NS, EDM[0]) +
            typ % (E, ''.join(nav % (n, 'a', 'b') for n in navs)) + typ % (F, nav % ('Back', 'b', 'a') if back else '') +
            '<Association Name="%s"><End Role="a" Type="NS.%s" Multiplicity="%s"/><End Role="b" Type="NS.%s" Multiplicity="%s"/></Association>' % (
                A, E, mults[0], F, mults[1]) +
            '<EntityContainer Name="%s" m:IsDefaultEntityContainer="true"><EntitySet Name="%s" EntityType="NS.%s"/><EntitySet Name="%s" EntityType="NS.%s"/>' % (
                DB, es, E, fs, F) +
            ('<EntitySet Name="%s" EntityType="NS.%s"/>' % (fs2, F) if two else '') +
            ('<AssociationSet Name="%s" Association="NS.%s"><End Role="a" EntitySet="%s"/><End Role="b" EntitySet="%s"/></AssociationSet>' % (
                aset, A, es, fs) if back else '') +
            '</EntityContainer></Schema></edmx:DataServices></edmx:Edmx>')
    ctx.witness(xml=text)
    ctx.nontrivial(text)
    ctx.count("ambiguous")
    if two:
        ctx.raises(edm.ModelError, lambda: load(text), 'ambiguous:two targets', 'the target set is ambiguous')
        return
    out = text
    for step in ('load', 'reload'):
        doc = load(out)
        doc.validate()
        c = doc.root.DataServices['NS.' + DB]
        ctx.equal(sorted(c[es].navigation), sorted(navs), 'ambiguous:' + step, 'navigation')
        for n in navs:
            ctx.equal(c[es].get_target(n).name, fs, 'ambiguous:' + step, 'target')
            ctx.equal(tuple(c[es].get_multiplicity(n)), (MULT[mults[0]], MULT[mults[1]]), 'ambiguous:' + step, 'multiplicity')
        for p in c[es].entityType.NavigationProperty:
            ctx.equal((p.ambiguous, p.backLink), (True, None), 'ambiguous:' + step, 'flags')
        ctx.equal([x.name for x in c.AssociationSet], [aset] if back else [], 'ambiguous:' + step, 'declared association sets')
        if back:
            ctx.equal(c[fs].get_target('Back').name, es, 'ambiguous:' + step, 'back target')
        ends = [c[es].navigation[n] for n in navs]
        ctx.equal(len(set(id(x.parent) for x in ends)), k, 'ambiguous:' + step, 'association sets generated')
        out = str(doc)


WORKLOADS = [
    Workload("ambiguous", ambiguous, 100, 1500),
    Workload("models", models, 300, 6000),
    Workload("broken", broken, 200, 4000),
]
