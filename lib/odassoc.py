"""Reference model of entity sets linked by associations, for memds and sqlds."""

import io

from lib import gen
from lib.odmodel import load

# name: (set, multiplicity, navigation property, set, multiplicity, navigation property)
# the multiplicity says how many of that set may be linked to one of the other
ASSOC = {
    'PQ': ('P', '*', 'Qs', 'Q', '*', 'Ps'),
    'PR': ('P', '*', 'R', 'R', '1', 'Ps'),
    'PS': ('P', '*', 'S', 'S', '0..1', 'Ps'),
    'PT': ('P', '1', 'T', 'T', '0..1', 'P'),
    'PU': ('P', '0..1', 'U', 'U', '0..1', 'P'),
    'QQ': ('Q', '0..1', 'Children', 'Q', '*', 'Parent'),
    'PV': ('P', '*', 'Vs', 'V', '*', None),
    'WX': ('W', '1', 'X', 'X', '1', 'W'),
    'PY': ('P', '1', 'Ys', 'Y', '*', None),
    'ZP': ('Z', '*', 'P', 'P', '1', None),
}
SETS = 'PQRSTUVWXYZ'

# (set, nav): (assoc, reverse, our multiplicity, target set, target multiplicity)
NAV = {}
for _a, (_s, _m, _n, _t, _tm, _tn) in ASSOC.items():
    if _n:
        NAV[(_s, _n)] = (_a, False, _m, _t, _tm)
    if _tn:
        NAV[(_t, _tn)] = (_a, True, _tm, _s, _m)
NAVS = sorted(NAV)


def csdl():
    out = ['<Schema Namespace="NS" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">',
           '<EntityContainer Name="DB" m:IsDefaultEntityContainer="true">']
    for s in SETS:
        out.append('<EntitySet Name="%s" EntityType="NS.%sType"/>' % (s, s))
    for a in sorted(ASSOC):
        s, m, n, t, tm, tn = ASSOC[a]
        out.append('<AssociationSet Name="%sSet" Association="NS.%s"><End Role="A%s" EntitySet="%s"/><End Role="B%s" EntitySet="%s"/></AssociationSet>' % (
            a, a, s, s, t, t))
    out.append('</EntityContainer>')
    for s in SETS:
        out.append('<EntityType Name="%sType"><Key><PropertyRef Name="K"/></Key>'
                   '<Property Name="K" Type="Edm.Int32" Nullable="false"/>'
                   '<Property Name="V" Type="Edm.String" MaxLength="20" Unicode="true"/>' % s)
        for (s2, n) in NAVS:
            if s2 == s:
                a, rev, m, t, tm = NAV[(s, n)]
                fr, to = ('B' + s, 'A' + t) if rev else ('A' + s, 'B' + t)
                out.append('<NavigationProperty Name="%s" Relationship="NS.%s" FromRole="%s" ToRole="%s"/>' % (n, a, fr, to))
        out.append('</EntityType>')
    for a in sorted(ASSOC):
        s, m, n, t, tm, tn = ASSOC[a]
        out.append('<Association Name="%s"><End Role="A%s" Type="NS.%sType" Multiplicity="%s"/><End Role="B%s" Type="NS.%sType" Multiplicity="%s"/></Association>' % (
            a, s, s, m, t, t, tm))
    out.append('</Schema>')
    return '\n'.join(out)


class Refused(Exception):

    """kind is one of nav, key, constraint"""

    def __init__(self, kind, why):
        Exception.__init__(self, '%s: %s' % (kind, why))
        self.kind = kind


class Undecided(Exception):
    pass


class State(object):

    def __init__(self):
        self.data = dict((s, {}) for s in SETS)
        self.links = dict((a, set()) for a in ASSOC)
        self.soft = False

    def copy(self):
        c = State()
        for s in SETS:
            c.data[s] = dict(self.data[s])
        for a in ASSOC:
            c.links[a] = set(self.links[a])
        return c

    def targets(self, s, n, k):
        a, rev, m, t, tm = NAV[(s, n)]
        if rev:
            return set(x for x, y in self.links[a] if y == k)
        return set(y for x, y in self.links[a] if x == k)

    def sources(self, s, n, tk):
        a, rev, m, t, tm = NAV[(s, n)]
        if rev:
            return set(y for x, y in self.links[a] if x == tk)
        return set(x for x, y in self.links[a] if y == tk)

    def pair(self, s, n, k, tk):
        return (tk, k) if NAV[(s, n)][1] else (k, tk)

    # operations: raise Refused or change self

    def link(self, s, n, k, tk):
        a, rev, m, t, tm = NAV[(s, n)]
        if tk not in self.data[t]:
            raise Refused('key', 'no target')
        have = self.targets(s, n, k)
        if tk in have:
            # not all services treat this as a change that succeeds
            self.soft = True
            return
        if tm != '*' and have:
            raise Refused('nav', 'already linked')
        if m != '*' and self.sources(s, n, tk):
            raise Refused('nav', 'target taken')
        self.links[a].add(self.pair(s, n, k, tk))

    def unlink(self, s, n, k, tk):
        a, rev, m, t, tm = NAV[(s, n)]
        present = tk in self.targets(s, n, k)
        if '1' in (m, tm):
            raise Refused('nav' if present else 'nav,key', 'required link')
        if not present:
            raise Refused('key', 'no such link')
        self.links[a].discard(self.pair(s, n, k, tk))

    def replace(self, s, n, k, tk):
        a, rev, m, t, tm = NAV[(s, n)]
        if tk not in self.data[t]:
            raise Refused('key', 'no target')
        have = self.targets(s, n, k)
        if have == {tk}:
            self.soft = True
            return
        if m != '*' and tk not in have and self.sources(s, n, tk):
            raise Refused('nav', 'target taken')
        if m == '1' and have:
            raise Refused('nav', 'targets need us')
        for x in have:
            self.links[a].discard(self.pair(s, n, k, x))
        self.links[a].add(self.pair(s, n, k, tk))

    def clear(self, s, n, k):
        for x in sorted(self.targets(s, n, k)):
            self.unlink(s, n, k, x)

    def insert(self, s, spec, ignore=None):
        """spec: dict(K, V, nav: [key | spec]); ignore: the navigation property satisfied by the caller (assoc)"""
        for (s2, n) in NAVS:
            if s2 == s and NAV[(s, n)][4] == '1' and NAV[(s, n)][0] != ignore and not spec.get(n):
                raise Refused('nav', 'required %s.%s not bound' % (s, n))
        for a, (x, m, n, t, tm, tn) in ASSOC.items():
            # a principal that cannot be bound
            if a != ignore and ((t == s and m == '1' and tn is None) or (x == s and tm == '1' and n is None)):
                raise Refused('nav', 'unbound principal %s' % a)
        if spec['K'] in self.data[s]:
            raise Refused('constraint', 'key exists')
        self.data[s][spec['K']] = spec.get('V')
        self.bindings(s, spec['K'], spec)

    def nav_insert(self, s, n, k, spec):
        a, rev, m, t, tm = NAV[(s, n)]
        self.insert(t, spec, ignore=a)
        self.link(s, n, k, spec['K'])

    def bindings(self, s, k, spec):
        for (s2, n) in NAVS:
            if s2 != s:
                continue
            a, rev, m, t, tm = NAV[(s, n)]
            for b in spec.get(n, ()):
                if isinstance(b, dict):
                    if tm != '*' and self.targets(s, n, k):
                        raise Undecided
                    self.nav_insert(s, n, k, b)
                elif tm == '*':
                    self.link(s, n, k, b)
                else:
                    self.replace(s, n, k, b)

    def update(self, s, k, spec):
        if k not in self.data[s]:
            raise Refused('key', 'missing')
        self.data[s][k] = spec.get('V')
        self.bindings(s, k, spec)

    def delete(self, s, k, doing=None):
        if k not in self.data[s]:
            raise Refused('key', 'missing')
        doing = doing or set()
        doing.add((s, k))
        if any(un is None and um == '1' and us == s for a, (x, m, n, t, tm, tn) in ASSOC.items()
               for us, um, un in ((x, m, n), (t, tm, tn))):
            # some services never delete what might be required through an association they cannot follow
            self.soft = True
        for a, (x, m, n, t, tm, tn) in sorted(ASSOC.items()):
            # the other end needs us
            for us, um, un, them, sel in ((x, m, n, t, 0), (t, tm, tn, x, 1)):
                if us != s or um != '1':
                    continue
                for p in sorted(self.links[a]):
                    if p[sel] == k and (them, p[1 - sel]) not in doing:
                        if un is None:
                            raise Refused('nav', 'cannot cascade over %s' % a)
                        self.delete(them, p[1 - sel], doing)
        for a, (x, m, n, t, tm, tn) in ASSOC.items():
            self.links[a] = set(p for p in self.links[a] if not (x == s and p[0] == k or t == s and p[1] == k))
        del self.data[s][k]


def circular(what):
    """whether a new entity is also referred to by key: the order in which links are made is not specified"""
    new, refs = set(), set()

    def walk(s, spec, ref):
        new.add((s, spec['K']))
        for n in spec:
            if n in 'KV':
                continue
            for b in spec[n]:
                t = NAV[(s, n)][3]
                if isinstance(b, dict):
                    walk(t, b, True)
                else:
                    refs.add((t, b))
    if isinstance(what[-1], dict):
        s = what[1] if what[0] != 'nav-insert' else NAV[(what[1], what[3])][3]
        walk(s, what[-1], False)
    return bool(new & refs)


class Driver(object):

    """Drives one container; es(name) gives its entity sets"""

    # a service that may refuse what changes nothing, with any of the documented errors
    lenient = False

    def __init__(self, ctx, es, size=5):
        self.ctx, self.rng, self.es, self.size = ctx, ctx.rng, es, size
        self.state = State()
        self.log = []

    def kinds(self):
        from pyslet.odata2 import csdl as edm
        return {'nav': edm.NavigationError, 'key': KeyError, 'constraint': edm.ConstraintError}

    def any_key(self, s, missing=0.08):
        d = self.state.data[s]
        if d and self.rng.random() > missing:
            return gen.pick(self.rng, sorted(d))
        return self.rng.randint(1, self.size + 1)

    def free_key(self, s):
        k = self.rng.randint(1, self.size)
        return k if self.rng.random() < 0.15 or k not in self.state.data[s] else k + self.size + self.rng.randint(0, 3)

    def spec(self, s, depth=0, ignore=None, optional=0.25):
        rng = self.rng
        r = {'K': self.free_key(s), 'V': gen.pick(rng, ('x', 'y', 'z'))}
        for (s2, n) in NAVS:
            if s2 != s:
                continue
            a, rev, m, t, tm = NAV[(s, n)]
            if a == ignore:
                continue
            if tm == '1':
                p = 0.93
            else:
                p = optional if depth < 2 else 0
            if rng.random() >= p:
                continue
            count = 1 if tm != '*' else rng.randint(1, 2)
            r[n] = []
            for i in range(count):
                if depth < 2 and (rng.random() < (0.9 if a == 'WX' else 0.3)):
                    r[n].append(self.spec(t, depth + 1, a, 0.12))
                else:
                    r[n].append(self.any_key(t))
        return r

    def build(self, s, spec, entity=None):
        es = self.es(s)
        with es.open() as c:
            e = entity or c.new_entity()
        if entity is None:
            e.set_key(spec['K'])
        e['V'].set_from_value(spec.get('V'))
        for n in sorted(spec):
            if n in 'KV':
                continue
            t = NAV[(s, n)][3]
            for b in spec[n]:
                if isinstance(b, dict):
                    e[n].bind_entity(self.build(t, b))
                elif b in self.state.data[t] and self.rng.random() < 0.5:
                    with self.es(t).open() as c:
                        e[n].bind_entity(c[b])
                else:
                    e[n].bind_entity(b)
        return e

    def entity(self, s, k):
        with self.es(s).open() as c:
            return c[k]

    def attempt(self, what, model, real):
        """Runs the operation on the model and for real"""
        ctx = self.ctx
        if self.lenient and circular(what):
            return None
        self.log.append(what)
        ctx.count('operations')
        ctx.witness(log=[repr(x) for x in self.log[-12:]], n=len(self.log))
        new = self.state.copy()
        try:
            model(new)
            refused = None
        except Refused as err:
            refused = err
        except Undecided:
            self.log.pop()
            return None
        try:
            real()
            error = None
        except Exception as err:
            if self.lenient and refused is None and new.soft and isinstance(err, tuple(self.kinds().values())):
                self.ctx.count('refused')
                return False
            if refused is None or not isinstance(err, tuple(self.kinds().values())):
                ctx.fail('refused' if refused is None else 'error-type', '%r: expected %s, got %s: %s' % (
                    what, refused or 'success', type(err).__name__, err))
            error = err
        if refused is not None:
            ctx.count('refused')
            if error is None:
                ctx.fail('accepted', '%r accepted, expected %s' % (what, refused))
            kinds = tuple(self.kinds()[x] for x in (self.kinds() if self.lenient else refused.kind.split(',')))
            ctx.check(isinstance(error, kinds), 'error-type', '%r: expected %s, got %s: %s' % (what, refused, type(error).__name__, error))
        else:
            self.state = new
        return refused is None

    # -- random operations

    def step(self):
        rng = self.rng
        m = rng.randrange(16)
        if m < 4:
            s = gen.pick(rng, 'PPPPQQQRRSSTTUUVVWWXYZZ')
            if len(self.state.data[s]) > self.size:
                return self.delete(s)
            return self.insert(s)
        if m == 4:
            return self.delete(gen.pick(rng, SETS))
        if m == 5:
            s = gen.pick(rng, SETS)
            return self.update(s)
        have = [x for x in NAVS if self.state.data[x[0]]]
        if not have:
            return
        s, n = gen.pick(rng, have)
        k = gen.pick(rng, sorted(self.state.data[s]))
        (self.link, self.link, self.link, self.unlink, self.unlink, self.replace, self.replace, self.nav_insert,
         self.clear, self.misuse)[m - 6](s, n, k)

    def insert(self, s):
        spec = self.spec(s)

        def real():
            with self.es(s).open() as c:
                c.insert_entity(self.build(s, spec))
        if self.attempt(('insert', s, spec), lambda st: st.insert(s, spec), real):
            self.ctx.count('inserts')
            if any(isinstance(b, dict) for n in spec if n not in 'KV' for b in spec[n]):
                self.ctx.count('deep')

    def update(self, s):
        k = self.any_key(s, 0)
        if k not in self.state.data[s]:
            return
        spec = self.spec(s)
        spec['K'] = k
        e = self.build(s, spec, self.entity(s, k))

        def real():
            with self.es(s).open() as c:
                c.update_entity(e)
        if self.attempt(('update', s, spec), lambda st: st.update(s, k, spec), real):
            self.ctx.count('updates')

    def delete(self, s):
        k = self.any_key(s)
        n = sum(map(len, self.state.data.values()))

        def real():
            if k in self.state.data[s] and self.rng.random() < 0.3:
                self.entity(s, k).delete()
            else:
                with self.es(s).open() as c:
                    del c[k]
        if self.attempt(('delete', s, k), lambda st: st.delete(s, k), real):
            self.ctx.count('deletes')
            if n - sum(map(len, self.state.data.values())) > 1:
                self.ctx.count('cascades')

    def target(self, t, k):
        """an entity that exists, or a stale one"""
        with self.es(t).open() as c:
            if k in self.state.data[t]:
                return c[k]
            e = c.new_entity()
            e.set_key(k)
            e.exists = True
            return e

    def link(self, s, n, k):
        a, rev, m, t, tm = NAV[(s, n)]
        tk = self.any_key(t)
        te = self.target(t, tk)

        def real():
            with self.entity(s, k)[n].open() as c:
                c[tk] = te
        if self.attempt(('link', s, k, n, tk), lambda st: st.link(s, n, k, tk), real):
            self.ctx.count('links')

    def unlink(self, s, n, k):
        a, rev, m, t, tm = NAV[(s, n)]
        have = sorted(self.state.targets(s, n, k))
        tk = gen.pick(self.rng, have) if have and self.rng.random() < 0.8 else self.any_key(t)

        def real():
            with self.entity(s, k)[n].open() as c:
                del c[tk]
        if self.attempt(('unlink', s, k, n, tk), lambda st: st.unlink(s, n, k, tk), real):
            self.ctx.count('unlinks')

    def replace(self, s, n, k):
        a, rev, m, t, tm = NAV[(s, n)]
        tk = self.any_key(t)
        te = self.target(t, tk)

        def real():
            with self.entity(s, k)[n].open() as c:
                c.replace(te)
        if self.attempt(('replace', s, k, n, tk), lambda st: st.replace(s, n, k, tk), real):
            self.ctx.count('replaces')

    def nav_insert(self, s, n, k):
        a, rev, m, t, tm = NAV[(s, n)]
        spec = self.spec(t, 1, a)

        def real():
            with self.entity(s, k)[n].open() as c:
                c.insert_entity(self.build(t, spec))
        if self.attempt(('nav-insert', s, k, n, spec), lambda st: st.nav_insert(s, n, k, spec), real):
            self.ctx.count('nav-inserts')

    def clear(self, s, n, k):
        a, rev, m, t, tm = NAV[(s, n)]
        if len(self.state.targets(s, n, k)) > 1 and '1' in (m, tm):
            return

        def real():
            with self.entity(s, k)[n].open() as c:
                c.clear()
        self.attempt(('clear', s, k, n), lambda st: st.clear(s, n, k), real)

    def misuse(self, s, n, k):
        """arguments that are simply wrong"""
        ctx, t = self.ctx, NAV[(s, n)][3]
        if not self.state.data[t]:
            return
        tk = gen.pick(self.rng, sorted(self.state.data[t]))
        te = self.entity(t, tk)
        self.log.append(('mismatch', s, k, n, tk))
        with self.entity(s, k)[n].open() as c:
            if tk + 1 not in self.state.targets(s, n, k):
                ctx.raises(ValueError, lambda: c.__setitem__(tk + 1, te), 'mismatch')
            missing = 9999
            ctx.check(missing not in c, 'membership')
            ctx.raises(KeyError, lambda: c[missing], 'membership')

    # -- observation

    def verify(self):
        ctx, st = self.ctx, self.state
        for s in SETS:
            with self.es(s).open() as c:
                have = dict((e.key(), e['V'].value) for e in c.values())
                ctx.count('observed')
                if have != st.data[s]:
                    ctx.fail('entities', '%s holds %r, expected %r after %r' % (s, have, st.data[s], self.log[-3:]))
                for k in sorted(have):
                    e = c[k]
                    for (s2, n) in NAVS:
                        if s2 == s:
                            self.nav(e, s, n, k)

    def nav(self, e, s, n, k):
        ctx, st, rng = self.ctx, self.state, self.rng
        a, rev, m, t, tm = NAV[(s, n)]
        want = st.targets(s, n, k)
        ctx.count('ends')
        with e[n].open() as c:
            got = [x.key() for x in c.values()]
            ctx.check(len(got) == len(set(got)), 'duplicates', '%s(%r).%s lists %r' % (s, k, n, got))
            if set(got) != want:
                ctx.fail('links', '%s(%r).%s gives %r, expected %r after %r' % (s, k, n, sorted(got), sorted(want), self.log[-3:]))
            if rng.random() < 0.3:
                ctx.equal(len(c), len(want), 'length', '%s(%r).%s' % (s, k, n))
                for x in want:
                    ctx.check(x in c, 'membership', '%r in %s(%r).%s' % (x, s, k, n))
                    ctx.equal(c[x]['V'].value, st.data[t][x], 'values')
                others = [x for x in st.data[t] if x not in want]
                if others:
                    x = gen.pick(rng, sorted(others))
                    ctx.check(x not in c, 'membership', '%r not in %s(%r).%s' % (x, s, k, n))
                    ctx.raises(KeyError, lambda: c[x], 'membership')
        if tm != '*' and rng.random() < 0.3:
            one = e[n].get_entity()
            ctx.equal(set() if one is None else {one.key()}, want, 'get-entity', '%s(%r).%s' % (s, k, n))

    def paths(self, s):
        """filter and order by a property of the entity at the other end"""
        from pyslet.odata2 import core
        ctx, rng, st = self.ctx, self.rng, self.state
        # X cannot be used in an expression
        singles = [x for x in NAVS if x[0] == s and NAV[x][4] != '*' and x[1] != 'X']
        if not singles:
            return
        n = gen.pick(rng, singles)[1]
        t = NAV[(s, n)][3]
        v = gen.pick(rng, 'xyz')
        of = dict((k, [st.data[t][x] for x in st.targets(s, n, k)]) for k in st.data[s])
        expr, want = "%s/V eq '%s'" % (n, v), set(k for k in of if of[k] == [v])
        more = [x for x in NAVS if x[0] == t and NAV[x][4] != '*' and x[1] != 'X']
        m = rng.randrange(3)
        if m == 1 and more:
            n2 = gen.pick(rng, more)[1]
            t2 = NAV[(t, n2)][3]
            expr = "%s/%s/V eq '%s'" % (n, n2, v)
            want = set(k for k in of if any(st.data[t2][y] == v for x in st.targets(s, n, k) for y in st.targets(t, n2, x)))
        elif m == 2 and len(singles) > 1:
            n2 = gen.pick(rng, singles)[1]
            t2 = NAV[(s, n2)][3]
            expr += " or %s/V eq '%s'" % (n2, v)
            want |= set(k for k in of if any(st.data[t2][y] == v for y in st.targets(s, n2, k)))
        with self.es(s).open() as c:
            c.set_filter(core.CommonExpression.from_str(expr))
            got = [e.key() for e in c.itervalues()]
            ctx.check(sorted(got) == sorted(want), 'path-filter', '%s filtered by %s: got %r, expected %r' % (s, expr, sorted(got), sorted(want)))
            ctx.equal(len(c), len(want), 'path-filter')
            c.set_filter(None)
            d = rng.random() < 0.5
            c.set_orderby(core.CommonExpression.orderby_from_str('%s/V%s,K' % (n, ' desc' if d else '')))
            order = sorted(sorted(of), key=lambda k: of[k], reverse=d)
            ctx.equal([e.key() for e in c.itervalues()], order, 'path-order', '%s by %s' % (s, n))
            c.set_topmax(2)
            pages = []
            token = None
            for i in range(len(order) + 2):
                c.set_page(None, None, token)
                pages += [e.key() for e in c.iterpage()]
                token = c.next_skiptoken()
                if token is None:
                    break
            ctx.equal(pages, order, 'path-pages', '%s by %s' % (s, n))
        ctx.count('paths')

    def queries(self):
        """filter, order and expand through navigation"""
        from pyslet.odata2 import core
        ctx, rng, st = self.ctx, self.rng, self.state
        have = [x for x in NAVS if st.data[x[0]]]
        if not have:
            return
        s, n = gen.pick(rng, have)
        k = gen.pick(rng, sorted(st.data[s]))
        t = NAV[(s, n)][3]
        want = st.targets(s, n, k)
        v = gen.pick(rng, 'xyz')
        with self.entity(s, k)[n].open() as c:
            c.set_filter(core.CommonExpression.from_str("V eq '%s'" % v))
            sub = set(x for x in want if st.data[t][x] == v)
            ctx.equal(sorted(c.keys()), sorted(sub), 'nav-filter')
            ctx.equal(len(c), len(sub), 'nav-filter')
            for x in st.data[t]:
                ctx.equal(x in c, x in sub, 'nav-filter', '%r' % x)
            c.set_filter(None)
            c.set_orderby(core.CommonExpression.orderby_from_str('V desc,K'))
            order = [e.key() for e in c.itervalues()]
            ctx.equal(order, sorted(sorted(want), key=lambda x: st.data[t][x], reverse=True), 'nav-order')
            c.set_page(1)
            pages = []
            for i in range(len(want) + 2):
                page = [e.key() for e in c.iterpage(True)]
                ctx.check(len(page) <= 1, 'nav-page', repr(page))
                pages += page
            ctx.equal(pages, order, 'nav-page')
        ctx.count('queries')
        try:
            self.paths(s)
        except NotImplementedError:
            if not self.lenient:
                raise
            ctx.count('unsupported')
        # a path from the target of a navigation property
        singles = [x for x in NAVS if x[0] == t and NAV[x][4] != '*' and x[1] != 'X']
        if singles:
            self.sub_paths(s, n, k, t, singles, want, v)
        self.expanded(s, n, k, t)

    def sub_paths(self, s, n, k, t, singles, want, v):
        from pyslet.odata2 import core
        ctx, rng, st = self.ctx, self.rng, self.state
        try:
            n2 = gen.pick(rng, singles)[1]
            t2 = NAV[(t, n2)][3]
            sub = set(x for x in want if any(st.data[t2][y] == v for y in st.targets(t, n2, x)))
            with self.entity(s, k)[n].open() as c:
                c.set_filter(core.CommonExpression.from_str("%s/V eq '%s'" % (n2, v)))
                got = [e.key() for e in c.itervalues()]
                ctx.check(sorted(got) == sorted(sub), 'nav-path-filter', '%s(%r).%s filtered by %s/V eq %s: got %r, expected %r' % (
                    s, k, n, n2, v, sorted(got), sorted(sub)))
                ctx.equal(len(c), len(sub), 'nav-path-filter')
        except NotImplementedError:
            # the SQL service does not support all paths
            if not self.lenient:
                raise
            ctx.count('unsupported')

    def expanded(self, s, n, k, t):
        ctx, rng, st = self.ctx, self.rng, self.state
        # expand, two levels
        sub = [x for x in NAVS if x[0] == t]
        expand = {n: None}
        n2 = None
        if sub and rng.random() < 0.7:
            n2 = gen.pick(rng, sub)[1]
            expand = {n: {n2: None}}
        how = rng.randrange(3)
        with self.es(s).open() as c:
            c.set_expand(expand)
            if how == 0:
                found = dict((e.key(), e) for e in c.itervalues())
            elif how == 1:
                found = {k: c[k]}
            else:
                found = dict(c.items())
        for k2, e in found.items():
            ctx.check(e[n].isExpanded, 'expand', '%s.%s not expanded' % (s, n))
            with e[n].open() as c:
                got = dict((x.key(), x) for x in c.values())
            ctx.equal(sorted(got), sorted(st.targets(s, n, k2)), 'expand', '%s(%r).%s' % (s, k2, n))
            for x, te in got.items():
                ctx.equal(te['V'].value, st.data[t][x], 'expand')
                if n2:
                    ctx.check(te[n2].isExpanded, 'expand')
                    with te[n2].open() as c:
                        ctx.equal(sorted(c.keys()), sorted(st.targets(t, n2, x)), 'expand2', '%s(%r).%s(%r).%s' % (s, k2, n, x, n2))
        ctx.count('expands')
