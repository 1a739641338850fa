"""Drives one entity set and the model through random operations."""

import hashlib
import io

from lib import gen, odexpr, odmodel
from lib.odmodel import (SETS, Model, diff, equal_values, get_values,
                         model_key, real_key, set_values)
from lib.odexpr import Err, Skip, attempt, pick


class Driver(object):
    """Applies operations to a collection and the model"""

    def __init__(self, ctx, name, es, model):
        self.ctx = ctx
        self.rng = ctx.rng
        self.name = name
        self.es = es
        self.model = model
        self.data = model.data[name]
        self.log = []
        self.tname, self.keys, self.props, self.cname = SETS[name]

    def op(self, *args):
        self.log.append(args)
        self.ctx.count('operations')
        self.ctx.witness(set=self.name, log=[repr(x) for x in self.log[-12:]], n=len(self.log))

    def some_key(self):
        if self.data and self.rng.random() < 0.75:
            return gen.pick(self.rng, sorted(self.data, key=repr))
        return self.model.key_value(self.rng, self.name)

    def same(self, entity, key, what, only=None):
        self.ctx.count('reads')
        want = self.data[key]
        if only is not None:
            want = dict((p, v) for p, v in want.items() if p in only)
        got = get_values(entity, self.name, only)
        self.ctx.check(equal_values(got, want), 'value', '%s of %r: got/expected %s after %r' % (what, key, diff(got, want), self.log[-6:]))
        self.ctx.check(model_key(self.name, entity) == key, 'key', '%s of %r has key %r' % (what, key, entity.key()))
        self.ctx.check(entity.exists, 'exists', 'entity read does not exist')

    def select_some(self):
        """A random selection: (select rule, set of selected data properties)"""
        props = [p for p in self.props if p not in self.keys] + ([self.cname] if self.cname else [])
        sel = set(p for p in props if self.rng.random() < 0.4)
        rule = dict((p, None) for p in sel)
        if self.rng.random() < 0.15:
            return {'*': None}, set(props)
        for k in self.keys:
            if self.rng.random() < 0.5:
                rule[k] = None
        return rule, sel

    # operations

    def insert(self, c):
        key = self.model.key_value(self.rng, self.name)
        if self.data and self.rng.random() < 0.15:
            key = self.some_key()
        values = self.model.values(self.rng, self.name)
        self.op('insert', key, values)
        e = c.new_entity()
        self.ctx.check(not e.exists, 'exists', 'new entity exists')
        self.set_key(e, key)
        set_values(e, self.name, values)
        self.try_insert(c, e, key, values)

    def set_key(self, e, key):
        e.set_key(real_key(self.name, key))

    def try_insert(self, c, e, key, values):
        from pyslet.odata2 import csdl as edm
        if key in self.data:
            try:
                c.insert_entity(e)
            except edm.ConstraintError:
                self.ctx.count('refused')
            else:
                self.ctx.fail('duplicate', 'inserted %r twice: %r' % (key, self.log[-6:]))
        else:
            c.insert_entity(e)
            self.ctx.check(e.exists, 'exists', 'inserted entity does not exist')
            self.data[key] = values

    def insert_default(self, c):
        """unselected properties of a new entity get their default"""
        key = self.model.key_value(self.rng, self.name)
        if key in self.data:
            return
        rule, sel = self.select_some()
        values = self.model.values(self.rng, self.name)
        e = c.new_entity()
        e.expand(None, rule)
        self.set_key(e, key)
        values = dict((p, v) for p, v in values.items() if p in sel)
        set_values(e, self.name, values)
        self.op('insert_default', key, values)
        self.try_insert(c, e, key, dict(self.model.defaults(self.name), **values))

    def auto(self, c):
        values = self.model.values(self.rng, self.name)
        e = c.new_entity()
        set_values(e, self.name, values)
        self.op('auto', values)
        c.insert_entity(e)
        key = model_key(self.name, e)
        self.ctx.check(key not in self.data, 'auto-key', 'generated key %r exists' % (key,))
        for p, k in zip(self.keys, key):
            t, f, dflt = self.props[p]
            if 'MaxLength' in f:
                n = int(f.split('MaxLength="')[1].split('"')[0])
                self.ctx.check(len(k) == n if 'FixedLength' in f else 0 < len(k) <= n, 'auto-key', 'generated key %r' % (key,))
        self.data[key] = values

    def read(self, c):
        key = self.some_key()
        self.op('read', key)
        rk = real_key(self.name, key)
        self.ctx.equal(rk in c, key in self.data, 'contains', repr(key))
        if key in self.data:
            self.same(c[rk], key, 'read')
            self.same(c.get(rk), key, 'get')
        else:
            self.ctx.raises(KeyError, lambda: c[rk], 'missing-read', repr(key))
            self.ctx.check(c.get(rk) is None, 'missing-read', repr(key))
            self.ctx.count('refused')

    def update(self, c):
        if not self.data:
            return
        key = gen.pick(self.rng, sorted(self.data, key=repr))
        e = c[real_key(self.name, key)]
        new = self.model.values(self.rng, self.name)
        if self.rng.random() < 0.6:
            new = dict((p, v) for p, v in new.items() if self.rng.random() < 0.4)
        set_values(e, self.name, new)
        # a snapshot until updated
        self.same(c[real_key(self.name, key)], key, 'before update')
        merge = self.rng.random() < 0.6
        self.op('update', key, new, merge)
        if self.rng.random() < 0.2:
            e.commit()
        else:
            c.update_entity(e, merge=merge)
        self.data[key] = dict(self.data[key], **new)
        self.same(c[real_key(self.name, key)], key, 'updated')

    def partial(self, c):
        """update of an entity with some properties selected"""
        if not self.data:
            return
        key = gen.pick(self.rng, sorted(self.data, key=repr))
        rule, sel = self.select_some()
        merge = self.rng.random() < 0.6
        if not merge and 'NN' in self.props and 'NN' not in sel and False:
            return
        new = dict((p, v) for p, v in self.model.values(self.rng, self.name).items() if p in sel)
        self.op('partial', key, sorted(sel), new, merge)
        if self.rng.random() < 0.5:
            c.set_expand(None, rule)
            e = c[real_key(self.name, key)]
            self.same(e, key, 'selected', sel)
            c.set_expand(None, None)
        else:
            e = c[real_key(self.name, key)]
            e.expand(None, rule)
        set_values(e, self.name, new)
        c.update_entity(e, merge=merge)
        if merge:
            self.ctx.count('merges')
            self.data[key] = dict(self.data[key], **new)
        else:
            self.ctx.count('replaces')
            self.data[key] = dict(self.model.defaults(self.name), **new)
        self.same(c[real_key(self.name, key)], key, 'updated')

    def stale(self, c):
        """updating an entity that has been deleted"""
        if not self.data:
            return
        key = gen.pick(self.rng, sorted(self.data, key=repr))
        e = c[real_key(self.name, key)]
        self.op('stale', key)
        del c[real_key(self.name, key)]
        del self.data[key]
        set_values(e, self.name, self.model.values(self.rng, self.name))
        self.ctx.raises(KeyError, lambda: c.update_entity(e), 'stale-update', repr(key))
        self.ctx.count('refused')

    def delete(self, c):
        key = self.some_key()
        self.op('delete', key)
        rk = real_key(self.name, key)
        if key in self.data:
            m = self.rng.random()
            if m < 0.6:
                del c[rk]
            elif m < 0.8:
                e = c[rk]
                e.delete()
                self.ctx.check(not e.exists, 'exists', 'deleted entity exists')
            else:
                self.same(c.pop(rk), key, 'popped')
            del self.data[key]
            self.ctx.check(rk not in c, 'deleted', repr(key))
        else:
            def f():
                del c[rk]
            self.ctx.raises(KeyError, f, 'missing-delete', repr(key))
            self.ctx.count('refused')

    def assign(self, c):
        """assignment is a test for membership"""
        if not self.data:
            return
        key = gen.pick(self.rng, sorted(self.data, key=repr))
        e = c[real_key(self.name, key)]
        self.op('assign', key)
        c[real_key(self.name, key)] = e
        other = self.model.key_value(self.rng, self.name)
        if other != key:
            def f():
                c[real_key(self.name, other)] = e
            self.ctx.raises(ValueError, f, 'assign-key', '%r %r' % (other, key))
        n = c.new_entity()
        if other not in self.data:
            self.set_key(n, other)

            def g():
                c[real_key(self.name, other)] = n
            self.ctx.raises(KeyError, g, 'assign-new', repr(other))

    def clear(self, c):
        if self.rng.random() < 0.8:
            return
        self.op('clear')
        if self.rng.random() < 0.5:
            c.clear()
        else:
            c.bigclear()
        self.data.clear()
        self.ctx.equal(len(c), 0, 'clear')

    def whole(self, c):
        """everything agrees"""
        self.op('whole')
        self.ctx.equal(len(c), len(self.data), 'len', repr(self.log[-6:]))
        keys = c.keys()
        self.ctx.equal(sorted(map(repr, keys)), sorted(repr(real_key(self.name, k)) for k in self.data), 'keys', repr(self.log[-6:]))
        for e in c.values():
            key = model_key(self.name, e)
            self.ctx.check(key in self.data, 'iteration', repr(key))
            self.same(e, key, 'iterated')
        for k, e in c.items():
            self.ctx.check(k == e.key(), 'items', repr(k))

    # queries

    def gen_filter(self):
        if self.name == 'Things':
            e = odexpr.g_bool(self.rng, self.rng.randint(1, 3))
        else:
            e = self.simple()
            while self.rng.random() < 0.4:
                e = ('bin', pick(self.rng, 'and', 'or'), e, self.simple())
            if self.rng.random() < 0.2:
                e = ('un', 'not', e)
        params = {}
        return odexpr.bind(self.rng, e, params), params

    def simple(self):
        p = gen.pick(self.rng, sorted(p for p in self.props if self.props[p][0] != 'Boolean'))
        t = self.props[p][0]
        if self.data and self.rng.random() < 0.6:
            key = gen.pick(self.rng, sorted(self.data, key=repr))
            v = self.model.env(self.name, key)[p][1]
        else:
            v = self.model.value(self.rng, t)
        return ('bin', pick(self.rng, 'lt', 'gt', 'le', 'ge', 'eq', 'ne'), ('prop', (p,)), ('lit', t, v))

    def gen_order(self):
        out = []
        for i in range(self.rng.randint(1, 3)):
            if self.name == 'Things' and self.rng.random() < 0.3:
                e = pick(self.rng, odexpr.g_num, odexpr.g_str)(self.rng, 2)
            else:
                p = gen.pick(self.rng, sorted(self.props))
                e = ('prop', (p,))
            out.append((odexpr.bind(self.rng, e, {}), pick(self.rng, 1, -1)))
        return [x for x in out if not odexpr_params(x[0])]

    def query(self, c):
        """select, filter, order and page together"""
        from pyslet.odata2 import core
        rng = self.rng
        c.set_expand(None, None)
        ftext = None
        f = None
        if rng.random() < 0.75:
            f, params = self.gen_filter()
            ftext = odexpr.show(rng, f)[1]
            c.set_filter(core.CommonExpression.from_str(ftext, dict((n, odexpr.to_edm(t, v)) for n, (t, v) in params.items())))
            self.ctx.count('filters')
        else:
            c.set_filter(None)
        order = []
        if rng.random() < 0.6:
            order = self.gen_order()
        if order:
            self.ctx.count('orders')
            otext = ','.join(odexpr.show(rng, x)[1] + (' desc' if d < 0 else '') for x, d in order)
            c.set_orderby(core.CommonExpression.orderby_from_str(otext))
        else:
            otext = None
            c.set_orderby(None)
        rule = sel = None
        if rng.random() < 0.4:
            rule, sel = self.select_some()
            c.set_expand(None, rule)
        self.op('query', ftext, otext, rule)
        try:
            self.run_query(c, f, order, sel)
        finally:
            c.set_filter(None)
            c.set_orderby(None)
            c.set_expand(None, None)
            self.unpage(c)

    def unpage(self, c):
        c.set_topmax(None)
        c.set_page(None)

    def errors(self):
        from pyslet.odata2 import core
        return (core.EvaluationError, ValueError)

    def run_query(self, c, f, order, sel):
        rng = self.rng
        match = []
        bad = False
        for key in self.data:
            env = self.model.env(self.name, key)
            v = ('Boolean', True) if f is None else attempt(f, env)
            if isinstance(v, Skip):
                return
            if isinstance(v, Err) or v[0] != 'Boolean':
                bad = True
            elif v[1]:
                match.append(key)
        if bad:
            self.ctx.raises(self.errors(), lambda: list(c.itervalues()), 'filter-error')
            self.ctx.raises(self.errors(), lambda: len(c), 'filter-error')
            self.ctx.count('refused')
            return
        rank = {}
        for key in match:
            env = self.model.env(self.name, key)
            ks = []
            for x, d in order:
                v = attempt(x, env)
                if isinstance(v, Skip):
                    return
                if isinstance(v, Err):
                    bad = True
                    continue
                v = v[1]
                if v is None:
                    ks.append((False, 0))
                elif v != v:
                    return
                else:
                    ks.append((True, v))
            rank[key] = ks
        if bad:
            self.ctx.raises(self.errors(), lambda: list(c.itervalues()), 'order-error')
            self.ctx.count('refused')
            return
        self.judge(c, match, rank, order, sel)

    allow_empty_page = False

    def judge(self, c, match, rank, order, sel):
        rng = self.rng
        what = repr(self.log[-1])
        self.ctx.equal(len(c), len(match), 'filter-len', what)
        got = list(c.itervalues())
        self.result(got, match, rank, order, sel, what)
        for key in list(self.data)[:4]:
            rk = real_key(self.name, key)
            self.ctx.equal(rk in c, key in match, 'filter-contains', '%s %r' % (what, key))
            if key in match:
                self.same(c[rk], key, 'filtered', sel)
        # pages
        n = len(match)
        size = rng.randint(1, 4)
        m = rng.randrange(4)
        self.ctx.count('pages')
        if m == 0:
            pages = []
            for i in range(n // size + 2):
                c.set_page(size, i * size)
                p = list(c.iterpage())
                self.ctx.equal(len(p), max(0, min(size, n - i * size)), 'page-size', '%s page %i of %i/%i' % (what, i, size, n))
                pages += p
            self.result(pages, match, rank, order, sel, what + ' pages')
            c.set_page(0)
            self.ctx.equal(list(c.iterpage()), [], 'page-top0', what)
            k = rng.randint(0, n)
            c.set_page(None, k)
            self.ctx.equal([model_key(self.name, e) for e in c.iterpage()], [model_key(self.name, e) for e in pages[k:]], 'page-skip', what)
        elif m == 1:
            c.set_page(size)
            pages = []
            for i in range(n // size + 3):
                p = list(c.iterpage(set_next=True))
                self.ctx.check(len(p) <= size, 'page-size', what)
                pages += p
            self.result(pages, match, rank, order, sel, what + ' next pages')
        else:
            c.set_topmax(size)
            top = None
            skip = 0
            if m == 3:
                top = rng.randint(1, 5)
                skip = rng.randint(0, 2)
            c.set_page(top, skip)
            pages = []
            token = None
            for i in range(n + 3):
                if i:
                    c.set_page(top, 0, token)
                p = list(c.iterpage())
                self.ctx.check(len(p) <= size, 'page-size', what)
                pages += p
                token = c.next_skiptoken()
                if token is None:
                    break
                self.ctx.count('tokens')
                self.ctx.check(bool(p) or self.allow_empty_page, 'token-empty', '%s: empty page %i (of %i) has a next page (%i entities)' % (what, i, size, n))
            else:
                self.ctx.fail('token-endless', '%s: paging does not end (%i entities, %i per page)' % (what, n, size))
            if top is None:
                self.result(pages, match, rank, order, sel, what + ' token pages')
            elif top <= size:
                self.ctx.equal(len(pages), min(top, max(0, n - skip)), 'page-size', what)

    def result(self, got, match, rank, order, sel, what):
        keys = [model_key(self.name, e) for e in got]
        self.ctx.check(sorted(map(repr, keys)) == sorted(map(repr, match)), 'query-set',
                       '%s: got %r, expected %r' % (what, keys, match))
        for e, k in zip(got, keys):
            if k in self.data:
                self.same(e, k, 'result of ' + what, sel)
        for a, b in zip(keys, keys[1:]):
            if a not in rank or b not in rank:
                continue
            for x, y, (expr, d) in zip(rank[a], rank[b], order):
                if x != y:
                    self.ctx.check((x < y) == (d > 0), 'order', '%s: %r before %r' % (what, rank[a], rank[b]))
                    break


class ShortSink(io.BytesIO):

    """An output that accepts only part of what it is given."""

    def __init__(self, rng):
        super().__init__()
        self.rng = rng

    def write(self, data):
        return super().write(bytes(data)[:self.rng.randint(1, max(1, len(data)))])


def odexpr_params(e):
    if e[0] == 'lit' and len(e) > 3:
        return True
    return any(odexpr_params(x) for x in e[1:] if isinstance(x, tuple) and x and x[0] in odexpr.NODES) or \
        any(odexpr_params(y) for x in e if isinstance(x, list) for y in x)


def run_streams(ctx, es, remote=False):
    from pyslet.odata2 import core
    from pyslet.http import params
    rng = ctx.rng
    model = {}
    c = es.open()
    log = []

    # whether what is stored can be seen only later
    quiet = rng.random() < 0.4

    def verify(key):
        if quiet:
            return
        data, mime = model[key]
        out = io.BytesIO() if remote or rng.random() < 0.5 else ShortSink(rng)
        sinfo = c.read_stream(key, out)
        ctx.count('streams')
        ctx.check(out.getvalue() == data, 'stream', '%r: got %r, expected %r after %r' % (key, out.getvalue(), data, log[-5:]))
        ctx.equal(sinfo.size, len(data), 'stream-size', repr(log[-5:]))
        if data or sinfo.md5:
            ctx.equal(sinfo.md5, hashlib.md5(data).digest(), 'stream-md5')
        if mime:
            ctx.equal(str(sinfo.type), mime, 'stream-type')
        ctx.equal(c.read_stream(key).size, len(data), 'stream-size')
        s2, g = es.open().read_stream_close(key)
        ctx.check(b''.join(g) == data, 'stream-gen', repr(log[-5:]))

    def missing(k, key):
        out = io.BytesIO()
        if remote:
            # a client reads a missing resource as an empty stream
            ctx.equal(c.read_stream(k, out).size, 0, key)
            ctx.equal(c.read_stream(k).size, 0, key)
        else:
            ctx.raises(KeyError, lambda: c.read_stream(k, out), key)
            ctx.raises(KeyError, lambda: c.read_stream(k), key)
        ctx.equal(out.getvalue(), b'', key)

    for i in range(rng.randint(5, 20)):
        data = gen.data(rng, pick(rng, 0, 10, 3000))
        mime = pick(rng, 'text/plain', 'application/octet-stream', 'image/png')
        sinfo = core.StreamInfo(type=params.MediaType.from_str(mime)) if rng.random() < 0.7 else None
        stored = data
        if sinfo is not None and rng.random() < 0.3:
            sinfo.size = rng.randint(0, len(data))
            stored = data[:sinfo.size]
        m = rng.randrange(6)
        ctx.witness(log=[repr(x)[:100] for x in log[-8:]])
        if m <= 1:
            key = rng.randint(1, 8) if rng.random() < 0.7 else None
            log.append(('new', key, stored))
            e = c.new_stream(io.BytesIO(data), sinfo, key)
            k = e.key()
            ctx.check(k not in model, 'stream-key', 'new stream took existing key %r' % k)
            if key is not None and key not in model:
                ctx.equal(k, key, 'stream-key')
            model[k] = (stored, mime if sinfo else None)
            verify(k)
        elif m == 2 and model:
            k = gen.pick(rng, sorted(model))
            log.append(('update', k, stored))
            c.update_stream(io.BytesIO(data), k, sinfo)
            model[k] = (stored, mime if sinfo else None)
            verify(k)
        elif m == 3:
            k = rng.randint(1, 8)
            log.append(('missing', k))
            if k not in model:
                missing(k, 'stream-missing')
                ctx.raises(KeyError, lambda: c.update_stream(io.BytesIO(data), k), 'stream-missing')
                ctx.check(k not in c, 'stream-missing')
        elif m == 4 and model:
            k = gen.pick(rng, sorted(model))
            log.append(('delete', k))
            del c[k]
            del model[k]
            missing(k, 'stream-deleted')
        elif m == 5:
            # media link entry without a stream
            k = rng.randint(1, 8)
            if k not in model:
                log.append(('entity', k))
                e = c.new_entity()
                e.set_key(k)
                c.insert_entity(e)
                model[k] = (b'', None)
                verify(k)
        if quiet:
            continue
        for k in model:
            verify(k)
        ctx.equal(sorted(c.keys()), sorted(model), 'stream-keys', repr(log[-5:]))
    ctx.nontrivial(repr(log))
    c.close()
    return model
