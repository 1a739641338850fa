"""C32: JSON and Atom representations of entities.

Oracle: the text the library writes is read by json / ElementTree and compared
with the values; the library reads back its own output and text written here."""

import datetime
import io
import re

from lib.harness import Workload
from lib import gen
from lib.odrep import (
    ET, ATOM, DNS, MNS, Dn, Mn, RELATED, BASE, PREC, THING, PART, ALL, load, value, values, put, get, eq, verify, jloads, xloads,
    parse_text, read_json, text_of, read_xml, write_xml, write_json, key, quote, location)

META = dict(
    id="C32", title="Entities survive their JSON and Atom representations",
    statement="An entity, simple or complex property or page of entities written as JSON or Atom says exactly what it holds: every selected property with its value in the form the protocol defines (nulls and empty strings distinguished, white space preserved), its location, links, bindings, expansions, count and next page link.  Reading it back, or reading any equivalent text, gives equal values, nulls, selection and bindings; values mapped to other elements of an Atom entry survive too.",
    quantifier=dict(over=["inputs"], text="all values of all simple types, complex nesting, selections, expansions and bindings; for JSON to the millisecond that the format can carry"),
    why_tests_cant="tests read two recorded documents and write a handful of entities with plain values",
    anchors=dict(files=["pyslet/odata2/core.py"],
                 mechanism=[dict(name="Entity.generate_entity_type_in_json, set_from_json_object, simple_value_to_json_str, simple_value_from_json, parse_asp_dot_net_date", where="pyslet/odata2/core.py"),
                            dict(name="Entry.set_value, get_value, Property, Feed, Link", where="pyslet/odata2/core.py")],
                 observe_at=["generated text, values of entities read"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated entities written and read back, text compared with an independent reading and writing of the formats"
LEVEL_NOTE = "Held on the representations observed."
RULE = "each case is an entity or collection; distinct by its values"
MODULES = ["pyslet/odata2/core.py", "pyslet/odata2/csdl.py"]
REQUIRE = {"json": 400, "atom": 400, "independent": 400, "properties": 800, "pages": 200, "bindings": 300, "customised": 200}

def entities(ctx):
    from pyslet.odata2 import core
    rng = ctx.rng
    doc, container = load()
    es = doc.root.DataServices['NS.DB.Things']
    k = key(rng)
    vals = values(rng, THING, gen.pick(rng, (0, 0.2, 0.2, 1)))
    full = dict(vals, K=k)
    ctx.witness(values=repr(full))
    ctx.nontrivial(repr(full))
    exists = rng.random() < 0.5
    with es.open() as c:
        e = c.new_entity()
        put(e, ALL, full)
        selected = None
        if exists:
            c.insert_entity(e)
            if rng.random() < 0.4:
                selected = set(rng.sample(sorted(THING), rng.randint(0, len(THING) - 1))) | set('K')
                c.set_expand({}, dict((n, None) for n in selected))
                ctx.witness(values=repr(full), selected=repr(sorted(selected)))
            e = c[k]
        shown = full if selected is None else dict((n, full[n]) for n in selected)
        # JSON
        version = gen.pick(rng, (1, 2))
        text = ''.join(e.generate_entity_type_in_json(False, version))
        ctx.count("json")
        obj = jloads(ctx, text)
        # slashes in dates must be escaped
        ctx.check('"/Date(' not in text, 'json:date', 'unescaped date')
        meta = obj.pop('__metadata')
        ctx.equal(meta['type'], 'NS.Thing', 'json:type')
        location(ctx, meta['uri'], BASE, 'Things', quote(k), 'json')
        navs = {'One', 'Many'} if exists and selected is None else set()
        ctx.equal(set(obj), set(shown) | navs, 'json:names')
        for n in navs:
            ctx.equal(obj.pop(n), {'__deferred': {'uri': meta['uri'] + '/' + n}}, 'json:deferred')
        read_json(ctx, obj, ALL, shown, 'json')
        e2 = c.new_entity()
        e2.set_from_json_object(jloads(ctx, text) if exists is False else obj)
        verify(ctx, e2, ALL, full, 'json read', selected)
        # Atom
        e = c[k] if exists else e
        d = core.Document(root=core.Entry(None, e))
        text = str(d)
        ctx.count("atom")
        el = xloads(ctx, text.encode('utf-8'))
        ctx.equal(el.tag, ATOM + 'entry', 'atom:root')
        location(ctx, el.find(ATOM + 'id').text, BASE, 'Things', quote(k), 'atom')
        ctx.equal([(x.get('term'), x.get('scheme')) for x in el.findall(ATOM + 'category')],
                  [('NS.Thing', 'http://schemas.microsoft.com/ado/2007/08/dataservices/scheme')], 'atom:category')
        links = dict((x.get('rel'), x) for x in el.findall(ATOM + 'link'))
        ctx.equal(set(links), {'edit', RELATED + 'One', RELATED + 'Many'} if exists else set(), 'atom:links')
        for rel, x in links.items():
            href = x.get('href')
            if rel != 'edit':
                n = rel[len(RELATED):]
                ctx.check(href.endswith('/' + n), 'atom:links', href)
                href = href[:-1 - len(n)]
                ctx.equal((x.get('title'), x.get('type')), (n, 'application/atom+xml;type=' + ('feed' if n == 'Many' else 'entry')), 'atom:links')
            location(ctx, href, BASE, 'Things', quote(k), 'atom')
        ps = el.findall('%scontent/%sproperties' % (ATOM, Mn))
        ctx.equal((len(ps), el.find(ATOM + 'content').get('type')), (1, 'application/xml'), 'atom:content')
        read_xml(ctx, ps[0], ALL, shown, 'atom')
        e2 = c.new_entity()
        d2 = core.Document()
        d2.read(src=io.BytesIO(text.encode('utf-8')))
        if exists:
            e2.set_key(k)
            e2.exists = True
        d2.root.get_value(e2)
        verify(ctx, e2, ALL, full, 'atom read', selected)
        ctx.equal(e2.selected, selected, 'atom read:selected')
        ctx.sample(dict(exists=exists, selected=selected is not None and len(selected), octets=len(text)))


def independent(ctx):
    """text written by someone else"""
    from pyslet.odata2 import core
    rng = ctx.rng
    doc, container = load()
    es = doc.root.DataServices['NS.DB.Things']
    full = dict(values(rng, THING, gen.pick(rng, (0, 0.2, 1))), K=key(rng))
    some = dict((n, full[n]) for n in full if n == 'K' or rng.random() < 0.8) if rng.random() < 0.5 else full
    want = dict(full)
    for n in full:
        if n not in some and not isinstance(ALL[n], dict):
            want[n] = None
        elif n not in some:
            want[n] = values(rng, ALL[n], 1.1)
    ctx.nontrivial(repr(some))
    ctx.count("independent")
    with es.open() as c:
        text = write_json(rng, ALL, some)
        ctx.witness(json=text)
        obj = jloads(ctx, text)
        if rng.random() < 0.5:
            obj['__metadata'] = dict(uri=BASE + 'Things', type='NS.Thing')
            obj['Unknown'] = 5
        e = c.new_entity()
        put(e, ALL, dict(values(rng, THING), K='old'))
        e.set_from_json_object(obj)
        verify(ctx, e, ALL, want, 'json input')
        d, m, a = gen.pick(rng, (('d', 'm', ''), ('data', 'meta', ''), ('d', 'm', 'a:')))
        ps = '<%s:properties>%s</%s:properties>' % (m, write_xml(rng, ALL, some, d, m), m)
        text = ('<%sentry xmlns%s="http://www.w3.org/2005/Atom" xmlns:%s="%s" xmlns:%s="%s">'
                '<%stitle/><%sauthor><%sname/></%sauthor><%supdated>2001-01-01T00:00:00Z</%supdated><%sid/>%s</%sentry>') % (
            a, ':a' if a else '', d, DNS, m, MNS, a, a, a, a, a, a, a, '<%scontent type="application/xml">%s</%scontent>' % (a, ps, a), a)
        ctx.witness(xml=text)
        e = c.new_entity()
        put(e, ALL, dict(values(rng, THING), K='old'))
        x = core.Document()
        x.read(src=io.BytesIO(text.encode(gen.pick(rng, ('utf-8', 'utf-16')))))
        x.root.get_value(e)
        verify(ctx, e, ALL, want, 'atom input')
        ctx.equal(e.selected, None if len(some) == len(full) else set(some), 'atom input:selected')


def properties(ctx):
    """property documents"""
    from pyslet.odata2 import core
    rng = ctx.rng
    doc, container = load()
    es = doc.root.DataServices['NS.DB.Things']
    et = es.entityType
    for i in range(6):
        ctx.count("properties")
        n = gen.pick(rng, sorted(THING))
        t = THING[n]
        simple = not isinstance(t, dict)
        v = value(rng, t) if simple else values(rng, t)
        if simple and rng.random() < 0.2:
            v = None
        spec, vals = {n: t}, {n: v}
        ctx.witness(name=n, value=repr(v))
        ctx.nontrivial((n, repr(v)))
        x = et[n]()
        put({n: x}, spec, vals)
        # JSON
        if simple:
            texts = core.simple_property_to_json_v1(x), core.simple_property_to_json_v2(x)
        else:
            texts = core.complex_property_to_json_v1(x), core.complex_property_to_json_v2(x)
        o1, o2 = jloads(ctx, texts[0]), jloads(ctx, texts[1])
        ctx.equal((list(o1), list(o2), list(o2['results'])), ([n], ['results'], [n]), 'property json:shape')
        read_json(ctx, o1, spec, vals, 'property json')
        read_json(ctx, o2['results'], spec, vals, 'property json')
        y = et[n]()
        put({n: y}, spec, {n: value(rng, t) if simple else values(rng, t)})
        (core.simple_property_from_json if simple else core.complex_property_from_json)(y, o1)
        verify(ctx, {n: y}, spec, vals, 'property json read')
        # XML
        p = core.Property(None)
        p.set_xmlname((DNS, n))
        d = core.Document(root=p)
        p.set_value(x)
        text = str(d)
        ctx.witness(name=n, value=repr(v), xml=text)
        el = xloads(ctx, text.encode('utf-8'))
        ctx.equal(el.tag, Dn + n, 'property xml:name')
        top = ET.Element('x')
        top.append(el)
        read_xml(ctx, top, spec, vals, 'property xml')
        d2 = core.Document()
        d2.read(src=io.BytesIO(text.encode('utf-8')))
        y = et[n]()
        put({n: y}, spec, {n: value(rng, t) if simple else values(rng, t)})
        d2.root.get_value(y)
        verify(ctx, {n: y}, spec, vals, 'property xml read')
        if simple:
            # the type may be found in the document
            y = d2.root.get_value()
            if v is None:
                ctx.check(not y, 'property xml typed', 'not null')
            elif el.get(Mn + 'type'):
                ctx.check(eq(t, get(y, t), v), 'property xml typed', '%r: got %r' % (v, y.value))
            elif t == 'String':
                ctx.equal(y.value, v, 'property xml typed')


def part_key(rng):
    return (rng.randint(-5, 20), key(rng))


def fmt_part(k):
    """URI form of a Part key, either order"""
    return ("A=%dL,B=%s" % (k[0], quote(k[1])), "B=%s,A=%dL" % (quote(k[1]), k[0]))


def part_location(ctx, href, k, where):
    from urllib.parse import unquote
    ctx.check(href.startswith(BASE + 'Parts('), where + ':href', href)
    ctx.check(re.match(r'^[!-~]*$', href), where + ':href', 'not a URI: %r' % href)
    ctx.check(unquote(href[len(BASE):], errors='strict') in ['Parts(%s)' % x for x in fmt_part(k)], where + ':href', '%r for key %r' % (href, k))


def populate(rng, doc, nthings, nparts):
    things, parts = {}, {}
    ds = doc.root.DataServices
    with ds['NS.DB.Parts'].open() as c:
        for i in range(nparts):
            k = part_key(rng)
            if k in parts:
                continue
            e = c.new_entity()
            v = values(rng, PART)
            parts[k] = v
            put(e, dict(PART, A='Int64', B='String'), dict(v, A=k[0], B=k[1]))
            c.insert_entity(e)
    with ds['NS.DB.Things'].open() as c:
        for i in range(nthings):
            k = key(rng)
            if k in things:
                continue
            e = c.new_entity()
            v = values(rng, THING)
            put(e, ALL, dict(v, K=k))
            one = gen.pick(rng, sorted(parts)) if parts and rng.random() < 0.6 else None
            many = rng.sample(sorted(parts), rng.randint(0, len(parts))) if rng.random() < 0.7 else []
            if one:
                e['One'].bind_entity(one)
            for m in many:
                e['Many'].bind_entity(m)
            c.insert_entity(e)
            things[k] = (v, one, many)
    return things, parts


PARTS = dict(PART, A='Int64', B='String')


def pages(ctx):
    """collections, with counts, expansions and next page links"""
    from urllib.parse import unquote
    from pyslet.odata2 import core
    rng = ctx.rng
    doc, container = load()
    things, parts = populate(rng, doc, rng.randint(0, 5), rng.randint(0, 4))
    ctx.nontrivial(repr(things))
    ctx.count("pages")
    expand = gen.pick(rng, (None, None, {'One': None}, {'Many': None}, {'One': None, 'Many': None}))
    count = rng.random() < 0.5
    page = rng.randint(1, 5) if rng.random() < 0.5 else None
    ctx.witness(things=repr(things), parts=repr(parts), expand=repr(expand), page=page)

    def check_part(kv, obj, x, where):
        pass

    with doc.root.DataServices['NS.DB.Things'].open() as c:
        c.set_inlinecount(count)
        if page:
            c.set_topmax(page)
        if expand:
            c.set_expand(expand)
        order = list(c.iterkeys()) if not page else None
        # JSON
        seen = []
        c.set_page(None)
        npages = 0
        while True:
            version = 2 if npages or page else gen.pick(rng, (1, 2))
            text = ''.join(c.generate_entity_set_in_json(version))
            obj = jloads(ctx, text)
            if version == 1:
                ctx.check(isinstance(obj, list), 'page json:shape', 'version 1 is a list')
                results, nxt = obj, None
            else:
                results = obj['results']
                ctx.equal(obj.get('__count'), len(things) if count else None, 'page json:count')
                ctx.equal(set(obj) - {'results', '__count', '__next'}, set(), 'page json:shape')
                nxt = obj.get('__next')
            for x in results:
                k = x['K']
                ctx.check(k in things and k not in seen, 'page json:entities', repr(k))
                seen.append(k)
                v, one, many = things[k]
                location(ctx, x['__metadata']['uri'], BASE, 'Things', quote(k), 'page json')
                read_json(ctx, x, ALL, dict(v, K=k), 'page json')
                for n, want in (('One', one), ('Many', many)):
                    got = x[n]
                    if not expand or n not in expand:
                        ctx.equal(list(got), ['__deferred'], 'page json:deferred')
                        continue
                    if n == 'One':
                        if want is None:
                            ctx.equal(got, None, 'page json:expanded')
                            continue
                        got, want = [got], [want]
                    elif version == 2:
                        got = got['results']
                    ctx.equal(sorted((int(p['A']), p['B']) for p in got), sorted(want), 'page json:expanded')
                    for p in got:
                        pk = (int(p['A']), p['B'])
                        read_json(ctx, p, PARTS, dict(parts[pk], A=pk[0], B=pk[1]), 'page json:expanded')
                        part_location(ctx, p['__metadata']['uri'], pk, 'page json')
            npages += 1
            if nxt is None:
                break
            ctx.check(npages <= len(things) + 1, 'page json:endless', 'too many pages')
            token = c.next_skiptoken()
            ctx.check(unquote(nxt['uri']).startswith(BASE + 'Things?') and unquote(nxt['uri']).count('$skiptoken=') == 1, 'page json:next', nxt['uri'])
            q = dict(z.split('=', 1) for z in nxt['uri'].split('?')[1].split('&'))
            ctx.equal(unquote(q['$skiptoken']), token, 'page json:next')
            if expand:
                ctx.equal(set(unquote(q.get('$expand', '')).split(',')), set(expand), 'page json:next')
            c.set_page(None, skiptoken=token)
        ctx.equal(sorted(seen), sorted(things), 'page json:complete')
        # Atom
        c.set_page(None)
        seen = []
        npages = 0
        while True:
            d = core.Document(root=core.Feed(None, c))
            text = str(d)
            ctx.witness(things=repr(things), parts=repr(parts), expand=repr(expand), page=page, xml=text)
            el = xloads(ctx, text.encode('utf-8'))
            ctx.equal(el.find(ATOM + 'id').text, BASE + 'Things', 'feed:id')
            ctx.equal([text_of(x) for x in el.findall(Mn + 'count')], [str(len(things))] if count else [], 'feed:count')
            d2 = core.Document()
            d2.read(src=io.BytesIO(text.encode('utf-8')))
            entries = list(d2.root.find_children_depth_first(core.Entry, sub_match=False))
            xs = el.findall(ATOM + 'entry')
            ctx.equal(len(entries), len(xs), 'feed:entries')
            for entry, x in zip(entries, xs):
                ps = x.find('%scontent/%sproperties' % (ATOM, Mn))
                k = text_of(ps.find(Dn + 'K'))
                ctx.check(k in things and k not in seen, 'feed:entities', repr(k))
                seen.append(k)
                v, one, many = things[k]
                read_xml(ctx, ps, ALL, dict(v, K=k), 'feed')
                e = c.new_entity()
                e.exists = True
                entry.get_value(e)
                verify(ctx, e, ALL, dict(v, K=k), 'feed read')
                links = dict((y.get('rel'), y) for y in x.findall(ATOM + 'link'))
                for n, want in (('One', one), ('Many', many)):
                    inline = links[RELATED + n].findall(Mn + 'inline')
                    is_expanded = bool(expand and n in expand)
                    ctx.equal(len(inline), 1 if is_expanded else 0, 'feed:inline')
                    ctx.equal(bool(e[n].isExpanded), is_expanded, 'feed read:expanded', n)
                    if not is_expanded:
                        continue
                    if n == 'One':
                        want = [want] if want else []
                        inner = inline[0].findall(ATOM + 'entry')
                    else:
                        inner = inline[0].findall('%sfeed/%sentry' % (ATOM, ATOM))
                    got = {}
                    for y in inner:
                        ps = y.find('%scontent/%sproperties' % (ATOM, Mn))
                        pk = (int(ps.find(Dn + 'A').text), text_of(ps.find(Dn + 'B')))
                        got[pk] = ps
                    ctx.equal(sorted(got), sorted(want), 'feed:inline', n)
                    for pk in got:
                        read_xml(ctx, got[pk], PARTS, dict(parts[pk], A=pk[0], B=pk[1]), 'feed:inline')
                    with e[n].open() as ec:
                        back = dict(((z['A'].value, z['B'].value), z) for z in ec.itervalues())
                    ctx.equal(sorted(back), sorted(want), 'feed read:expanded', n)
                    for pk in back:
                        verify(ctx, back[pk], PART, parts[pk], 'feed read:expanded')
            npages += 1
            nxt = [y.get('href') for y in el.findall(ATOM + 'link') if y.get('rel') == 'next']
            if not nxt:
                break
            ctx.check(npages <= len(things) + 1, 'feed:endless', 'too many pages')
            token = c.next_skiptoken()
            q = dict(z.split('=', 1) for z in nxt[0].split('?')[1].split('&'))
            ctx.equal(unquote(q['$skiptoken']), token, 'feed:next')
            c.set_page(None, skiptoken=token)
        ctx.equal(sorted(seen), sorted(things), 'feed:complete')
        # links
        c.set_page(None)
        c.set_topmax(None) if not page else None
        obj = jloads(ctx, ''.join(c.generate_link_coll_json(2)))
        for x in obj['results']:
            ctx.equal(set(x), {'uri'}, 'links')
        if not page:
            ctx.equal(len(obj['results']), len(things), 'links')
            ctx.equal(obj.get('__count'), len(things) if count else None, 'links:count')


def bindings(ctx):
    """new entities with links to existing and new entities, and updates"""
    from pyslet.odata2 import core, csdl as edm
    rng = ctx.rng
    doc, container = load()
    things, parts = populate(rng, doc, rng.randint(1, 2), rng.randint(1, 4))
    ctx.count("bindings")
    ds = doc.root.DataServices
    tset, pset = ds['NS.DB.Things'], ds['NS.DB.Parts']
    resolved = []

    def resolver(href):
        ctx.check(href.is_absolute(), 'binding:resolver', 'relative URI passed: %s' % href)
        resolved.append(str(href))
        for k in parts:
            try:
                with pset.open() as c:
                    e = c[k]
                if str(e.get_location()) == str(href):
                    return e
            except KeyError:
                pass
        return None

    update = rng.random() < 0.3
    vals = values(rng, THING)
    with tset.open() as c, pset.open() as pc:
        k = gen.pick(rng, sorted(things)) if update else key(rng)
        full = dict(vals, K=k)

        def make(kind):
            """a binding (key, entity or new entity) and what it should be"""
            if kind == 2:
                pk, v = part_key(rng), values(rng, PART)
                e = pc.new_entity()
                put(e, PARTS, dict(v, A=pk[0], B=pk[1]))
                return e, ('new', pk, v)
            pk = gen.pick(rng, sorted(parts))
            return (pk if kind == 0 else pc[pk]), ('old', pk, parts[pk])

        one = make(rng.randrange(2 if update else 3)) if rng.random() < 0.7 else None
        many = [make(rng.randrange(3)) for i in range(rng.randint(0, 3))] if not update else []
        ctx.witness(values=repr(full), one=repr(one and one[1]), many=repr([m[1] for m in many]), update=update)
        ctx.nontrivial((repr(one and one[1]), repr([m[1] for m in many]), repr(full)))
        e = c[k] if update else c.new_entity()
        put(e, ALL, full)
        if one:
            e['One'].bind_entity(one[0])
        for m in many:
            e['Many'].bind_entity(m[0])
        want_one = [one[1]] if one else []
        want_many = [m[1] for m in many]

        def bound(x):
            out = {}
            for n in ('One', 'Many'):
                r = []
                for b in x[n].bindings:
                    if isinstance(b, edm.Entity):
                        pk = (b['A'].value, b['B'].value)
                        verify(ctx, b, PART, parts[pk] if b.exists else new[pk], 'binding')
                        r.append(('old' if b.exists else 'new', pk))
                    else:
                        r.append(('old', tuple(b)))
                out[n] = sorted(r)
            return out
        new = dict((w[1], w[2]) for w in want_one + want_many if w[0] == 'new')
        if sum(1 for w in want_one + want_many if w[0] == 'new') != len(new):
            return
        want = dict(One=sorted(w[:2] for w in want_one), Many=sorted(w[:2] for w in want_many))
        # JSON
        text = ''.join(e.generate_entity_type_in_json(update))
        obj = jloads(ctx, text)
        if not update:
            for n, ws in (('One', want_one), ('Many', want_many)):
                ctx.equal(n in obj, bool(ws), 'binding json:links', n)
        if not update and one and isinstance(obj['One'], list):
            # a single valued navigation property holds an object
            ctx.fail('binding json:single', 'a list was written for a navigation property that is not a collection')
        read_json(ctx, obj, ALL, full, 'binding json')
        x = c[k] if update else c.new_entity()
        x.set_from_json_object(obj, resolver, update)
        verify(ctx, x, ALL, full, 'binding json')
        ctx.equal(bound(x), want, 'binding json:read')
        # Atom
        d = core.Document(root=core.Entry(None))
        d.root.set_value(e, update)
        text = str(d)
        ctx.witness(values=repr(full), one=repr(one and one[1]), many=repr([m[1] for m in many]), update=update, xml=text)
        el = xloads(ctx, text.encode('utf-8'))
        read_xml(ctx, el.find('%scontent/%sproperties' % (ATOM, Mn)), ALL, full, 'binding atom')
        got = dict(One=[], Many=[])
        for y in el.findall(ATOM + 'link'):
            rel = y.get('rel')
            ctx.check(rel.startswith(RELATED) or rel in ('edit', 'self'), 'binding atom:link', rel)
            if not rel.startswith(RELATED):
                continue
            n = rel[len(RELATED):]
            inner = y.findall(Mn + 'inline')
            if inner:
                for z in inner[0].iter(ATOM + 'entry'):
                    ps = z.find('%scontent/%sproperties' % (ATOM, Mn))
                    pk = (int(ps.find(Dn + 'A').text), text_of(ps.find(Dn + 'B')))
                    read_xml(ctx, ps, PARTS, dict(new[pk], A=pk[0], B=pk[1]), 'binding atom:inline')
                    got[n].append(('new', pk))
            else:
                for pk in parts:
                    with pset.open() as pp:
                        if str(pp[pk].get_location()) == y.get('href'):
                            part_location(ctx, y.get('href'), pk, 'binding atom')
                            got[n].append(('old', pk))
                            break
                else:
                    ctx.fail('binding atom:link', 'unexpected %s' % y.get('href'))
        ctx.equal(dict((n, sorted(v)) for n, v in got.items()), want, 'binding atom:links')
        d2 = core.Document()
        d2.read(src=io.BytesIO(text.encode('utf-8')))
        x = c[k] if update else c.new_entity()
        d2.root.get_value(x, resolver, update)
        verify(ctx, x, ALL, full, 'binding atom')
        ctx.equal(bound(x), want, 'binding atom:read')
        # links that do not resolve to a part are refused
        if want['One'] or want['Many']:
            if any(w[0] == 'old' for w in want_one + want_many):
                x = c[k] if update else c.new_entity()
                ctx.raises(core.InvalidData, lambda: x.set_from_json_object(obj, lambda h: None, update), 'binding json:unresolved', 'no target')
                x = c[k] if update else c.new_entity()
                ctx.raises(core.InvalidData, lambda: d2.root.get_value(x, lambda h: None, update), 'binding atom:unresolved', 'no target')


# --------------------------------------------------------- customised feeds

PATHS = {
    'SyndicationAuthorName': 'author/name', 'SyndicationAuthorEmail': 'author/email', 'SyndicationAuthorUri': 'author/uri',
    'SyndicationPublished': 'published', 'SyndicationRights': 'rights', 'SyndicationSummary': 'summary',
    'SyndicationTitle': 'title', 'SyndicationUpdated': 'updated', 'SyndicationContributorName': 'contributor/name',
    'SyndicationContributorEmail': 'contributor/email'}


def customised(ctx):
    """properties mapped to other elements of the entry"""
    from pyslet.odata2 import core
    rng = ctx.rng
    spec, where, out = {}, {}, []
    paths = sorted(PATHS)
    rng.shuffle(paths)
    for i in range(rng.randint(1, 5)):
        n = 'P%d' % i
        custom = rng.random() < 0.4
        keep = gen.pick(rng, (None, 'true', 'false'))
        a = '' if keep is None else ' m:FC_KeepInContent="%s"' % keep
        if custom:
            path = gen.pick(rng, ('el%d' % i, 'group/el%d' % i, 'a/b/c%d' % i))
            t = gen.pick(rng, ('String', 'Int32', 'Boolean', 'DateTime', 'Guid'))
            a += ' m:FC_TargetPath="%s" m:FC_NsPrefix="cust" m:FC_NsUri="http://example.com/cust"' % path
            tag = '/'.join('{http://example.com/cust}' + x for x in path.split('/'))
        else:
            path = paths.pop()
            t = gen.pick(rng, ('DateTime', 'DateTimeOffset', 'String')) if path in ('SyndicationPublished', 'SyndicationUpdated') else 'String'
            a += ' m:FC_TargetPath="%s"' % path
            tag = '/'.join(ATOM + x for x in PATHS[path].split('/'))
        nullable = rng.random() < 0.7
        spec[n] = t
        where[n] = (tag, keep == 'true', path)
        out.append('<Property Name="%s" Type="Edm.%s"%s%s/>' % (n, t, PREC.get(t, ''), a))
    spec['Plain'] = 'String'
    out.append('<Property Name="Plain" Type="Edm.String"/>')
    rng.shuffle(out)
    schema = ('<Schema Namespace="NS" xmlns="http://schemas.microsoft.com/ado/2006/04/edm" xmlns:m="%s">' % MNS +
              '<EntityType Name="F"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.String" Nullable="false"/>' + ''.join(out) +
              '</EntityType><EntityContainer Name="DB" m:IsDefaultEntityContainer="true"><EntitySet Name="Fs" EntityType="NS.F"/></EntityContainer></Schema>')
    doc, container = load(schema)
    full = {}
    for n in spec:
        t = spec[n]
        if rng.random() < 0.2:
            full[n] = None
        elif t == 'String' and n in where and where[n][2] in ('SyndicationPublished', 'SyndicationUpdated'):
            # dates only
            full[n] = gen.pick(rng, ('2004-02-29T23:59:59Z', '1970-01-01T00:00:00+01:00'))
        elif t == 'String' and n != 'Plain':
            # mapped text is not free of white space processing
            full[n] = ' '.join(gen.text(rng, 8, 'ab é<>&"', 1).split()) or 'x'
            if rng.random() < 0.1:
                full[n] = ''
        else:
            full[n] = value(rng, t)
    full['K'] = key(rng)
    spec['K'] = 'String'
    ctx.witness(schema=schema, values=repr(full))
    ctx.nontrivial((schema, repr(full)))
    ctx.count("customised")
    exists = rng.random() < 0.5
    with doc.root.DataServices['NS.DB.Fs'].open() as c:
        e = c.new_entity()
        put(e, spec, full)
        if exists:
            c.insert_entity(e)
            e = c[full['K']]
        text = str(core.Document(root=core.Entry(None, e)))
        ctx.witness(schema=schema, values=repr(full), xml=text)
        el = xloads(ctx, text.encode('utf-8'))
        ps = el.find('%scontent/%sproperties' % (ATOM, Mn))
        inside = dict((x.tag[len(Dn):], x) for x in ps)
        for n in spec:
            if n not in where:
                ctx.check(n in inside, 'customised:content', '%s is missing' % n)
                continue
            tag, keep, path = where[n]
            v, t = full[n], spec[n]
            if v is None:
                # nulls can only be represented in the content
                ctx.check(n in inside and inside[n].get(Mn + 'null') == 'true', 'customised:null', '%s is null but not in the content' % n)
                continue
            ctx.equal(n in inside, keep, 'customised:keep', n)
            found = el.findall(tag)
            ctx.equal(len(found), 1, 'customised:element', '%s -> %s' % (n, tag))
            got = text_of(found[0])
            if path in ('SyndicationPublished', 'SyndicationUpdated'):
                got = datetime.datetime.fromisoformat(got.replace('Z', '+00:00'))
                if t == 'String':
                    v = datetime.datetime.fromisoformat(v)
                want = v if v.tzinfo else v.replace(tzinfo=datetime.timezone.utc)
                ctx.check(got == want, 'customised:date', '%s: got %r, expected %r' % (n, got, want))
            else:
                try:
                    got = parse_text(t, got)
                except Exception:
                    ctx.fail('customised:text', '%s is written as %r' % (n, got))
                ctx.check(eq(t, got, v), 'customised:text', '%s: got %r, expected %r' % (n, got, v))
        d2 = core.Document()
        d2.read(src=io.BytesIO(text.encode('utf-8')))
        e2 = c.new_entity()
        if exists:
            e2.exists = True
        d2.root.get_value(e2)
        verify(ctx, e2, spec, full, 'customised read')
        ctx.equal(e2.selected, None, 'customised read:selected')


WORKLOADS = [
    Workload("entities", entities, 450, 9000),
    Workload("independent", independent, 450, 9000),
    Workload("properties", properties, 160, 4000),
    Workload("pages", pages, 220, 4000),
    Workload("bindings", bindings, 350, 7000),
    Workload("customised", customised, 250, 5000),
]
