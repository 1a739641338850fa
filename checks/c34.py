"""C34: the SQLite data service behaves as a set of keyed entities.

Oracle: the dictionary model of lib/odmodel, as for the in-memory service;
filters are judged on the entities for which OData and SQL agree about null."""

import os

from lib.harness import Workload
from lib import gen, odexpr, odmodel
from lib.odmodel import SETS, Model, load, model_key, real_key, set_values
from lib.oddriver import Driver, run_streams
from lib.odexpr import Err, Skip, attempt, pick

META = dict(
    id="C34", title="The SQL data service behaves as a set of keyed entities",
    statement="For any history of operations on a SQLite-backed service: an entity can be read by key exactly while it exists, with the values last written (a merge changes only the selected properties, a replace gives the others their declared default), for every supported type, null and unusual text included; inserting an existing key, reading, updating or deleting a missing one raises the documented error and changes nothing; a filter yields exactly the entities for which the expression is true (entities for which OData and SQL disagree about null excepted); ordering sorts by the expressions in turn with null lowest; the pages obtained by top/skip, automatic paging or following skip tokens visit every entity exactly once, nulls included, and paging ends; media streams read back the bytes last stored; and everything acknowledged is still there after the container is closed, or the process killed, and the file reopened.",
    quantifier=dict(over=["histories", "crash_points"], text="all operation histories over entity sets with every key shape; reopening after any operation; process death after any acknowledged operation"),
    why_tests_cant="tests run fixed scripts and never combine select, filter, order, nulls and paging or reopen the database after them",
    anchors=dict(files=["pyslet/odata2/sqlds.py", "pyslet/odata2/csdl.py"],
                 mechanism=[dict(name="SQLCollectionBase, SQLEntityCollection", where="pyslet/odata2/sqlds.py"),
                            dict(name="SQLiteEntityContainer", where="pyslet/odata2/sqlds.py")],
                 observe_at=["collection methods and exceptions", "a second container on the same file"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: model-based comparison of operation histories on a real SQLite database, reopening and killing the process between operations"
LEVEL_NOTE = "Held on the histories observed, with SQLite only."
RULE = "each case is one history on one entity set; distinct by history"
MODULES = ["pyslet/odata2/sqlds.py"]
REQUIRE = {"operations": 3000, "reads": 2000, "filters": 300, "orders": 300, "pages": 500, "merges": 100, "replaces": 50,
           "refused": 150, "streams": 100, "tokens": 200, "reopened": 50, "null-order": 50, "killed": 3}

NAMES = ('Things', 'Things', 'Words', 'Pairs', 'Longs', 'Dates', 'Names', 'Codes')
_doc = []


def document():
    if not _doc:
        _doc.append(load(odmodel.csdl(list(SETS), {'DateTime': 'Precision="6"', 'DateTimeOffset': 'Precision="6"'})))
    return _doc[0]


def container(path, create=True, **kw):
    from pyslet.odata2 import sqlds
    c = sqlds.SQLiteEntityContainer(file_path=path, container=document().root.DataServices['NS.DB'], **kw)
    if create:
        c.create_all_tables()
    return c


def entity_set(name):
    return document().root.DataServices['NS.DB.' + name]


def value(rng, t):
    """reference values SQLite can hold"""
    v = odexpr.gen_value(rng, t)
    if t == 'Double' and v != v:
        return 0.25
    if t in ('DateTime', 'DateTimeOffset') and rng.random() < 0.3:
        return v.replace(microsecond=pick(rng, 500000, 1, 999999, 123456, 1000))
    if t == 'String' and rng.random() < 0.03:
        # too long for a skip token
        return v + 'long' * 150 + gen.text(rng, 2, 'ab')
    return v


# --- expressions SQL can evaluate -------------------------------------------

NUM = ('Small', 'I16', 'I32', 'nanI', 'I64', 'Real', 'Flt')
STR = ('Str', 'andStr', 'trueName')


def lit(t, v):
    return ('lit', t, v)


class SQLGen(object):

    def __init__(self, rng, driver):
        self.rng, self.d = rng, driver

    def sample(self, path, t):
        """a value present in the data or another"""
        rng = self.rng
        if self.d.data and rng.random() < 0.6:
            env = self.d.model.env(self.d.name, gen.pick(rng, sorted(self.d.data, key=repr)))
            for p in path[:-1]:
                env = env[p]
            v = env[path[-1]][1]
            if v is not None:
                return v
        return value(rng, t)

    def paths(self, types):
        out = [((p,), t) for p, (t, f, d) in sorted(self.d.props.items()) if t in types]
        if self.d.cname:
            out += [x for x in ((('Home', 'Num'), 'Int32'), (('Home', 'Street'), 'String'), (('Home', 'In', 'Zip'), 'String'),
                                (('Home', 'In', 'Lat'), 'Double')) if x[1] in types]
        return out

    def num(self, depth):
        rng = self.rng
        m = rng.randrange(5)
        ps = self.paths(('Byte', 'Int16', 'Int32', 'Int64'))
        if depth <= 0 or m <= 1 or not ps:
            if ps and rng.random() < 0.7:
                p, t = gen.pick(rng, ps)
                return ('prop', p)
            return lit('Int32', rng.randint(-5, 5))
        if m == 2:
            s = self.str(depth - 1)
            if s is not None:
                if rng.random() < 0.3:
                    return ('call', 'indexof', [s, lit('String', gen.text(rng, 2, 'abAB'))])
                return ('call', 'length', [s])
        if m == 3:
            ds = self.paths(('DateTime',))
            if ds:
                return ('call', pick(rng, 'year', 'month', 'day', 'hour', 'minute', 'second'), [('prop', gen.pick(rng, ds)[0])])
        return ('bin', pick(rng, 'add', 'sub', 'mul', 'sub'), self.num(depth - 1), self.num(depth - 1))

    def str(self, depth):
        rng = self.rng
        ps = self.paths(('String',))
        m = rng.randrange(7)
        if not ps:
            return None
        if depth <= 0 or m <= 2:
            return ('prop', gen.pick(rng, ps)[0])
        s = self.str(depth - 1)
        if m == 3:
            return ('call', pick(rng, 'tolower', 'toupper'), [s])
        if m == 4:
            return ('call', 'trim', [s])
        if m == 5:
            return ('call', 'concat', [s, lit('String', gen.text(rng, 2, "aB'%_"))])
        a = [s, lit('Int32', rng.randint(0, 3))]
        if rng.random() < 0.5:
            a.append(lit('Int32', rng.randint(0, 3)))
        return ('call', 'substring', a)

    def leaf(self):
        rng = self.rng
        m = rng.randrange(10)
        if m <= 1:
            return ('bin', pick(rng, 'lt', 'gt', 'le', 'ge', 'eq', 'ne'), self.num(2), self.num(2))
        if m <= 4:
            s = self.str(2)
            if s is not None:
                if m == 2:
                    return ('bin', pick(rng, 'lt', 'gt', 'le', 'ge', 'eq', 'ne'), s, lit('String', self.text(s)))
                n = pick(rng, 'startswith', 'endswith', 'substringof')
                t = lit('String', self.text(s, True))
                return ('call', n, [t, s] if n == 'substringof' else [s, t])
        if m == 5:
            ps = self.paths(('Boolean',))
            if ps:
                return ('bin', pick(rng, 'eq', 'ne'), ('prop', gen.pick(rng, ps)[0]), lit('Boolean', rng.random() < 0.5))
        if m == 6:
            p, t = gen.pick(rng, self.paths(odexpr.PROPS.values()))
            return ('bin', pick(rng, 'eq', 'ne'), ('prop', p), lit(t, None))
        if m == 7:
            ps = self.paths(('Guid', 'Binary'))
            if ps:
                p, t = gen.pick(rng, ps)
                return ('bin', pick(rng, 'eq', 'ne'), ('prop', p), lit(t, self.sample(p, t)))
        ps = self.paths(('Byte', 'Int16', 'Int32', 'Int64', 'Double', 'Single', 'DateTime', 'String'))
        if not ps:
            return ('bin', 'eq', lit('Int32', 1), lit('Int32', 1))
        p, t = gen.pick(rng, ps)
        v = self.sample(p, t)
        if t in ('Byte', 'Int16'):
            t = 'Int32'
        return ('bin', pick(rng, 'lt', 'gt', 'le', 'ge', 'eq', 'ne'), ('prop', p), lit(t, v))

    def text(self, s, part=False):
        rng = self.rng
        ps = [s] if s[0] == 'prop' else [('prop', x) for x, t in self.paths(('String',))]
        v = self.sample(gen.pick(rng, ps)[1], 'String')
        if part:
            i = rng.randint(0, len(v))
            v = v[i:i + rng.randint(0, 3)]
            if rng.random() < 0.3:
                v = v.swapcase()
            if rng.random() < 0.15:
                v += pick(rng, '%', '_')
        return v

    def bool(self, depth):
        if depth <= 0 or self.rng.random() < 0.4:
            return self.leaf()
        return ('bin', pick(self.rng, 'and', 'or'), self.bool(depth - 1), self.bool(depth - 1))


def touches_null(e, env):
    if e[0] == 'prop':
        for p in e[1]:
            env = env[p]
        return env[1] is None
    return any(touches_null(x, env) for x in e[1:] if isinstance(x, tuple) and x and x[0] in odexpr.NODES) or \
        any(touches_null(y, env) for x in e if isinstance(x, list) for y in x)


def ascii_only(e, env):
    """tolower and toupper are only defined for ASCII by SQLite"""
    if e[0] == 'call' and e[1] in ('tolower', 'toupper', 'trim'):
        v = attempt(e[2][0], env)
        if isinstance(v, (Skip, Err)) or v[1] is not None and any(ord(c) > 127 or ord(c) < 32 for c in v[1]):
            return False
    return all(ascii_only(x, env) for x in e[1:] if isinstance(x, tuple) and x and x[0] in odexpr.NODES) and \
        all(ascii_only(y, env) for x in e if isinstance(x, list) for y in x)


def sql_true(e, env):
    """three valued truth"""
    if e[0] == 'bin' and e[1] in ('and', 'or'):
        a, b = sql_true(e[2], env), sql_true(e[3], env)
        if e[1] == 'and':
            return False if a is False or b is False else None if a is None or b is None else True
        return True if a or b else None if a is None or b is None else False
    if e[0] == 'bin' and e[1] in ('eq', 'ne') and e[3][0] == 'lit' and e[3][2] is None:
        v = touches_null(e[2], env)
        return v if e[1] == 'eq' else not v
    if touches_null(e, env):
        return None
    v = attempt(e, env)
    if isinstance(v, (Skip, Err)):
        return None
    return v[1]


class SQLDriver(Driver):

    def select_some(self):
        rule, sel = Driver.select_some(self)
        if '*' not in rule:
            for k in self.keys:
                rule[k] = None
        return rule, sel

    def gen_filter(self):
        for i in range(20):
            f = SQLGen(self.rng, self).bool(2)
            if all(self.decidable(f, self.model.env(self.name, k)) for k in self.data):
                return f, {}
        return ('bin', 'eq', lit('Int32', 1), lit('Int32', 1)), {}

    def decidable(self, e, env):
        return ascii_only(e, env) and not isinstance(attempt(e, env), (Skip, Err))

    def gen_order(self):
        rng, g = self.rng, SQLGen(self.rng, self)
        out = []
        for i in range(rng.randint(1, 3)):
            m = rng.randrange(4)
            e = None
            if m == 0:
                e = g.num(2)
            elif m == 1:
                e = g.str(2)
            if e is None or not all(self.decidable(e, self.model.env(self.name, k)) for k in self.data):
                ps = g.paths(('Byte', 'Int16', 'Int32', 'Int64', 'Double', 'Single', 'DateTime', 'String'))
                if not ps:
                    continue
                e = ('prop', gen.pick(rng, ps)[0])
            out.append((e, pick(rng, 1, -1)))
            if any(touches_null(e, self.model.env(self.name, k)) for k in self.data):
                self.ctx.count('null-order')
        return out

    def expected(self, c, f):
        """keys that match; entities OData and SQL do not agree on follow the service"""
        match, unsure = [], []
        for key in self.data:
            env = self.model.env(self.name, key)
            v = ('Boolean', True) if f is None else attempt(f, env)
            s = True if f is None else sql_true(f, env)
            if bool(v[1]) == bool(s):
                if v[1]:
                    match.append(key)
            else:
                unsure.append(key)
        if unsure:
            got = [model_key(self.name, e) for e in c.itervalues()]
            match += [k for k in unsure if k in got]
        return match

    def run_query(self, c, f, order, sel):
        match = self.expected(c, f)
        rank = {}
        for key in match:
            env = self.model.env(self.name, key)
            ks = []
            for x, d in order:
                v = attempt(x, env)
                v = v[1]
                ks.append((False, 0) if v is None else (True, v))
            rank[key] = ks
        self.judge(c, match, rank, order, sel)

    allow_empty_page = True


def run_history(ctx, name, path, steps, reopen):
    rng = ctx.rng
    cont = container(path)
    # Dates have a key without fractions of a second
    model = Model(list(SETS), odexpr.gen_value if name == 'Dates' else value)
    d = SQLDriver(ctx, name, entity_set(name), model)
    c = d.es.open()
    try:
        for i in range(steps):
            if rng.random() < 0.1:
                c.close()
                if reopen and rng.random() < 0.5:
                    d.op('reopen')
                    cont.close()
                    cont = container(path, False)
                    ctx.count('reopened')
                    c = d.es.open()
                    d.whole(c)
                else:
                    c = d.es.open()
            op = pick(rng, d.insert, d.insert, d.insert, d.insert_default, d.auto if name != 'Dates' and rng.random() < 0.3 else d.read,
                      d.read, d.update, d.partial, d.delete, d.stale, d.assign, d.query, d.query, d.query, d.clear, d.whole)
            op(c)
        d.whole(c)
    finally:
        c.close()
        cont.close()
    if reopen:
        cont = container(path, False)
        with d.es.open() as c:
            d.whole(c)
        cont.close()
    ctx.nontrivial(repr(d.log))


def case_memory(ctx):
    run_history(ctx, gen.pick(ctx.rng, NAMES), ':memory:', ctx.rng.randint(8, 40), False)


def case_file(ctx):
    run_history(ctx, gen.pick(ctx.rng, NAMES), os.path.join(ctx.tmpdir(), 'db'), ctx.rng.randint(8, 25), True)


def case_streams(ctx):
    from pyslet import vfs
    from pyslet.odata2 import sqlds
    d = ctx.tmpdir()
    blocks = os.path.join(d, 'blocks')
    os.mkdir(blocks)
    store = sqlds.SQLiteStreamStore(os.path.join(d, 'streams.db'), None if ctx.rng.random() < 0.5 else vfs.OSFilePath(blocks))
    cont = container(os.path.join(d, 'db'), streamstore=store)
    try:
        model = run_streams(ctx, entity_set('Files'))
    finally:
        cont.close()
    # what was stored survives
    cont = container(os.path.join(d, 'db'), False, streamstore=store)
    import io
    with entity_set('Files').open() as c:
        ctx.equal(sorted(c.keys()), sorted(model), 'stream-reopened')
        for k in model:
            out = io.BytesIO()
            c.read_stream(k, out)
            ctx.check(out.getvalue() == model[k][0], 'stream-reopened', '%r' % k)
    cont.close()
    store.container.close()


CHILD = r'''
import sys, os, json, random
sys.path[:0] = [%(repo)r, %(verif)r]
from checks import c34
from lib import odmodel
from lib.odmodel import Model, SETS, set_values, real_key
rng = random.Random(%(seed)r)
cont = c34.container(%(path)r)
es = c34.entity_set('Pairs')
model = Model(list(SETS), c34.value)
data = {}
out = os.fdopen(1, 'wb', 0)
with es.open() as c:
    for i in range(1000):
        m = rng.randrange(4)
        key = model.key_value(rng, 'Pairs')
        if m >= 2 and data:
            key = rng.choice(sorted(data))
        values = model.values(rng, 'Pairs')
        if key not in data:
            e = c.new_entity()
            e.set_key(real_key('Pairs', key))
            set_values(e, 'Pairs', values)
            out.write(('> ' + repr((key, values)) + '\n').encode())
            c.insert_entity(e)
            data[key] = values
        elif m == 2:
            out.write(('> ' + repr((key, None)) + '\n').encode())
            del c[real_key('Pairs', key)]
            del data[key]
        else:
            e = c[real_key('Pairs', key)]
            set_values(e, 'Pairs', values)
            out.write(('> ' + repr((key, values)) + '\n').encode())
            c.update_entity(e)
            data[key] = values
        out.write(b'ok\n')
'''


def case_kill(ctx):
    """the process dies; whatever it acknowledged is there"""
    import subprocess
    import sys
    import time
    from lib import harness
    rng = ctx.rng
    path = os.path.join(ctx.tmpdir(), 'db')
    code = CHILD % dict(repo=harness.REPO, verif=harness.VERIF, seed=rng.random(), path=path)
    log = os.path.join(ctx.tmpdir(), 'log')
    with open(log, 'wb') as f:
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], stdout=f, stderr=subprocess.DEVNULL)
        end = time.time() + 20
        want = rng.randint(500, 12000)
        while time.time() < end and p.poll() is None and os.path.getsize(log) < want:
            time.sleep(0.001)
        p.kill()
        p.wait()
    data = {}
    pending = None
    for line in open(log, 'rb').read().decode('utf-8', 'replace').split('\n'):
        if line == 'ok':
            key, values = pending
            if values is None:
                del data[key]
            else:
                data[key] = values
            pending = None
        elif line.startswith('> '):
            try:
                pending = eval(line[2:])
            except SyntaxError:
                pending = None
                break
    if not data and pending is None:
        ctx.count('killed-early')
        return
    ctx.count('killed')
    cont = container(path, False)
    model = Model(list(SETS), value)
    model.data['Pairs'] = data
    d = SQLDriver(ctx, 'Pairs', entity_set('Pairs'), model)
    with d.es.open() as c:
        if pending is not None:
            # the operation in progress happened or not
            key, values = pending
            rk = real_key('Pairs', key)
            have = odmodel.get_values(c[rk], 'Pairs') if rk in c else None
            old = data.get(key)
            ok = any(have is x is None or have is not None and x is not None and odmodel.equal_values(have, x) for x in (values, old))
            ctx.check(ok, 'kill-torn', '%r: found %r, expected %r or %r' % (key, have, old, values))
            if have is None:
                data.pop(key, None)
            else:
                data[key] = have
        d.whole(c)
    cont.close()
    ctx.nontrivial(repr(sorted(data, key=repr)) + str(len(data)))


WORKLOADS = [
    Workload("memory", case_memory, quick=2500, thorough=25000, cpu=60),
    Workload("file", case_file, quick=300, thorough=3000, cpu=60),
    Workload("streams", case_streams, quick=80, thorough=300, cpu=60),
    Workload("kill", case_kill, quick=8, thorough=100, cpu=60),
]
