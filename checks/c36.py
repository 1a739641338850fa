"""C36: an SQL operation that fails leaves no trace.

A proxy of the DB API connection raises database errors at a chosen call.
The committed content is compared through an independent connection."""

import os
import sqlite3

from lib.harness import Workload
from lib import gen, odassoc, odmodel
from lib.odmodel import load

META = dict(
    id="C36", title="Failed SQL operations leave no trace",
    statement="Whatever database call fails while entities are inserted (deep inserts and bindings included), updated, linked, unlinked, replaced, deleted (cascades included), read or streamed through the SQLite service, and whatever the error: either the operation succeeds completely (a lost connection is retried) or it raises a documented error and the committed content is exactly as before, nothing is left uncommitted or locked, the connection goes back to the pool, later operations on the same container work, and the same operation can be repeated successfully.  An operation that is refused for other reasons leaves no trace either, and one that succeeds is committed as a whole: other connections see all of it or none.",
    quantifier=dict(over=["fault_sequences", "histories"], text="every database call of every operation, failing once or from then on, before or after it took effect, with each class of database error"),
    why_tests_cant="tests inject no database errors and never look at the database from a second connection",
    anchors=dict(files=["pyslet/odata2/sqlds.py"],
                 mechanism=[dict(name="SQLTransaction, retry_decorator", where="pyslet/odata2/sqlds.py"),
                            dict(name="insert_entity_sql, update_entity, delete_entity", where="pyslet/odata2/sqlds.py")],
                 observe_at=["DB API calls (proxy connection)", "database content seen by another connection", "exceptions"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: fault injection at the DB API boundary, committed content observed through an independent connection"
LEVEL_NOTE = "Held for the faults injected, with SQLite only; errors raised by a commit that took effect are not injected."
RULE = "each case is one history with faults; distinct by history and faults"
MODULES = ["pyslet/odata2/sqlds.py"]
REQUIRE = {"operations": 2000, "faults": 800, "failed": 300, "recovered": 20, "repeated": 200, "unchanged": 600, "stream-faults": 20,
           "api-calls": 20000}

ERRORS = (sqlite3.OperationalError, sqlite3.OperationalError, sqlite3.IntegrityError, sqlite3.DatabaseError, sqlite3.InterfaceError,
          sqlite3.InternalError, sqlite3.ProgrammingError, sqlite3.DataError)

# these say that the statement had no effect
NO_EFFECT = (sqlite3.IntegrityError, sqlite3.InternalError)


class Plan(object):
    """which call fails"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = 0
        self.commits = 0
        self.disarm()

    def disarm(self):
        self.at = None
        self.fired = 0

    def arm(self, at, times, exc, after):
        self.at, self.times, self.exc, self.after = at, times, exc, after
        self.n = 0
        self.fired = 0

    def call(self, what, fn):
        self.calls += 1
        if self.at is not None:
            self.n += 1
            if self.at <= self.n < self.at + self.times:
                self.fired += 1
                if self.after and what == 'execute':
                    fn()
                raise self.exc('injected at %s (call %i)' % (what, self.n))
        return fn()


class Cursor(object):

    def __init__(self, plan, cursor):
        self._plan, self._cursor = plan, cursor

    def execute(self, sql, params=None):
        return self._plan.call('execute', lambda: self._cursor.execute(sql, params or ()))

    def __getattr__(self, name):
        return getattr(self._cursor, name)


class Connection(object):

    def __init__(self, plan, dbc):
        self._plan, self._dbc = plan, dbc

    def cursor(self):
        return self._plan.call('cursor', lambda: Cursor(self._plan, self._dbc.cursor()))

    def commit(self):
        if self._dbc.in_transaction:
            self._plan.commits += 1
        return self._plan.call('commit', self._dbc.commit)

    def __getattr__(self, name):
        return getattr(self._dbc, name)


def faulty(plan, path, definition, **kw):
    from pyslet.odata2 import sqlds

    class Container(sqlds.SQLiteEntityContainer):

        def open(self):
            return Connection(plan, plan.call('open', super(Container, self).open))

    return Container(file_path=path, container=definition, **kw)


def dump(path):
    """the committed content; also checks that nobody is left in a transaction"""
    dbc = sqlite3.connect(path, timeout=0, isolation_level=None)
    try:
        dbc.execute('BEGIN IMMEDIATE')
        out = {}
        for (name,) in dbc.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
            out[name] = sorted(dbc.execute('SELECT * FROM "%s"' % name).fetchall(), key=repr)
        bad = dbc.execute('PRAGMA foreign_key_check').fetchall()
        dbc.execute('ROLLBACK')
        return out, bad
    finally:
        dbc.close()


def documented():
    from pyslet.odata2 import sqlds, csdl as edm
    return (sqlds.SQLError, edm.NavigationError, edm.ConstraintError, edm.NonExistentEntity, edm.EntityExists, KeyError)


class FaultDriver(odassoc.Driver):

    lenient = True

    def __init__(self, ctx, es, size, plan, path, cont):
        odassoc.Driver.__init__(self, ctx, es, size)
        self.plan, self.path, self.cont = plan, path, cont
        self.rate = 0.5

    def look(self, what, message):
        try:
            d, bad = dump(self.path)
        except sqlite3.OperationalError as err:
            self.ctx.fail('locked', '%r: %s: the database is left locked (%s)' % (what, message, err))
        self.ctx.check(not bad, 'dangling', '%r: %s: %r' % (what, message, bad))
        locked, unlocked, idle = self.cont.connection_stats()
        self.ctx.check(locked == 0, 'pool', '%r: %s: %i connections still in use' % (what, message, locked))
        return d

    def attempt(self, what, model, real):
        ctx, rng, plan = self.ctx, self.rng, self.plan
        if rng.random() >= self.rate or what[0] == 'clear':
            # clear is documented as a series of deletions
            before = self.look(what, 'before')
            ok = odassoc.Driver.attempt(self, what, model, real)
            if ok is False:
                ctx.count('unchanged')
                ctx.check(self.look(what, 'refused') == before, 'refused-trace', '%r was refused but changed the database' % (what,))
            return ok
        if odassoc.circular(what):
            return None
        new = self.state.copy()
        try:
            model(new)
            refused = None
        except odassoc.Refused as err:
            refused = err
        except odassoc.Undecided:
            return None
        before = self.look(what, 'before')
        self.log.append(what)
        at = rng.choice((rng.randint(1, 4), rng.randint(1, 12), rng.randint(1, 40)))
        times, exc, after = gen.pick(rng, (1, 1, 2, 3, 1000)), gen.pick(rng, ERRORS), rng.random() < 0.3
        after = after and exc not in NO_EFFECT
        fault = (at, times, exc.__name__, after)
        ctx.count('operations')
        ctx.witness(log=[repr(x) for x in self.log[-12:]], n=len(self.log), fault=fault)
        plan.commits = 0
        plan.arm(at, times, exc, after)
        try:
            real()
            error = None
        except Exception as err:
            error = err
        fired = plan.fired
        plan.disarm()
        if fired:
            ctx.count('faults')

        after = self.look(what, 'after %r' % (fault,))
        if error is None:
            if refused is not None:
                ctx.fail('accepted', '%r with fault %r: accepted, expected %s' % (what, fault, refused))
            if fired:
                ctx.count('recovered')
            ctx.check(plan.commits <= 1, 'commits', '%r with fault %r committed %i times' % (what, fault, plan.commits))
            self.state = new
            self.verify()
            return True
        if not isinstance(error, documented()):
            ctx.fail('error-type', '%r with fault %r: %s: %s' % (what, fault, type(error).__name__, error))
        if not fired and refused is None and not new.soft:
            ctx.fail('refused', '%r: expected success, got %s: %s' % (what, type(error).__name__, error))
        ctx.count('failed' if fired else 'refused')
        ctx.count('unchanged')
        if after != before:
            ctx.fail('trace', '%r with fault %r raised %s (%s) but changed the database: %r' % (
                what, fault, type(error).__name__, error,
                [(t, before.get(t), after[t]) for t in after if before.get(t) != after[t]]))
        if refused is None and not new.soft:
            # try again
            try:
                real()
            except Exception as err:
                ctx.fail('repeat', '%r fails when repeated after fault %r (%s): %s: %s' % (what, fault, error, type(err).__name__, err))
            ctx.count('repeated')
            self.state = new
        self.verify()
        return refused is None

    def insert(self, s):
        """the same entity is inserted again after a failure"""
        spec = self.spec(s)
        made = []

        def real():
            with self.es(s).open() as c:
                if not made:
                    self.plan_pause(lambda: made.append(self.build(s, spec)))
                c.insert_entity(made[0])
        if self.attempt(('insert', s, spec), lambda st: st.insert(s, spec), real):
            self.ctx.count('inserts')

    def plan_pause(self, fn):
        at, self.plan.at = self.plan.at, None
        try:
            fn()
        finally:
            self.plan.at = at


def case_faults(ctx):
    rng = ctx.rng
    path = os.path.join(ctx.tmpdir(), 'db')
    plan = Plan(ctx)
    definition = document()
    cont = faulty(plan, path, definition)
    cont.create_all_tables()
    d = FaultDriver(ctx, lambda s: definition[s], rng.randint(2, 4), plan, path, cont)
    try:
        d.rate = 0.1
        for i in range(rng.randint(8, 16)):
            d.insert(gen.pick(rng, 'RRPPPQQSTUVWZ'))
        d.rate = 0.6
        for i in range(rng.randint(10, 20)):
            d.step()
        d.verify()
        # reading
        for i in range(rng.randint(0, 5)):
            s = gen.pick(rng, odassoc.SETS)
            plan.arm(rng.randint(1, 4), gen.pick(rng, (1, 2, 1000)), gen.pick(rng, ERRORS), False)
            try:
                with definition[s].open() as c:
                    got = sorted(c.keys())
                    n = len(c)
                error = None
            except documented() as err:
                error = err
            fired = plan.fired
            plan.disarm()
            if error is None:
                ctx.equal((got, n), (sorted(d.state.data[s]), len(d.state.data[s])), 'read')
            else:
                ctx.check(fired, 'read', 'reading %s failed: %s' % (s, error))
            d.look('read', str(error))
            d.verify()
    finally:
        plan.disarm()
        ctx.count('api-calls', plan.calls)
        cont.close()
    ctx.nontrivial(repr(d.log))
    ctx.sample(dict(log=[repr(x) for x in d.log[:10]]))


def document(_doc=[]):
    if not _doc:
        _doc.append(load(odassoc.csdl()))
    return _doc[0].root.DataServices['NS.DB']


def case_streams(ctx):
    import io
    from pyslet.odata2 import sqlds
    rng = ctx.rng
    d = ctx.tmpdir()
    plan = Plan(ctx)
    db = load(odmodel.csdl(['Files'])).root.DataServices['NS.DB']
    store = sqlds.SQLiteStreamStore(os.path.join(d, 'streams.db'))
    target = gen.pick(rng, ('entities', 'store'))
    if target == 'store':
        # the store's own connections fail
        real_open = store.container.open
        store.container.open = lambda: Connection(plan, plan.call('open', real_open))
    cont = faulty(plan if target == 'entities' else Plan(ctx), os.path.join(d, 'db'), db, streamstore=store)
    cont.create_all_tables()
    model = {}
    log = []
    try:
        for i in range(rng.randint(4, 12)):
            data = gen.data(rng, gen.pick(rng, (0, 10, 3000)))
            key = rng.randint(1, 4)
            if rng.random() < 0.6:
                exc = gen.pick(rng, ERRORS)
                plan.arm(rng.randint(1, 12), gen.pick(rng, (1, 2, 1000)), exc, exc not in NO_EFFECT and rng.random() < 0.3)
            what = ('update' if key in model else 'new', key, data[:20])
            if key in model and rng.random() < 0.2:
                what = ('delete', key)
            log.append((target,) + what + (plan.at,))
            ctx.witness(log=[repr(x) for x in log[-8:]])
            new = dict(model)
            try:
                with db['Files'].open() as c:
                    if what[0] == 'delete':
                        del c[key]
                        del new[key]
                    elif what[0] == 'update':
                        c.update_stream(io.BytesIO(data), key)
                        new[key] = data
                    else:
                        e = c.new_stream(io.BytesIO(data), None, key)
                        new[e.key()] = data
                error = None
            except Exception as err:
                error = err
            fired = plan.fired
            plan.disarm()
            if fired:
                ctx.count('stream-faults')
            if error is None:
                model = new
            else:
                ctx.check(fired, 'stream-refused', '%r: %s: %s' % (log[-1], type(error).__name__, error))
                ctx.check(isinstance(error, documented()), 'stream-error-type', '%r: %s: %s' % (log[-1], type(error).__name__, error))
            with db['Files'].open() as c:
                keys = sorted(c.keys())
                # what could not be removed from the store afterwards does not undo the change
                if keys != sorted(model) and error is not None and keys == sorted(new):
                    ctx.fail('stream-trace', '%r failed (%s) but files are %r' % (log[-1], error, keys))
                ctx.equal(keys, sorted(model), 'stream-keys', repr(log[-3:]))
                for k in keys:
                    out = io.BytesIO()
                    try:
                        c.read_stream(k, out)
                    except Exception as err:
                        ctx.fail('stream-lost', '%r: reading %r after %r (%s): %s: %s' % (log[-1], k, error, target, type(err).__name__, err))
                    allowed = [model[k]]
                    if error is not None and k == key and target == 'store' and k in new:
                        # the change is made when the old content cannot be removed
                        allowed.append(new[k])
                    ctx.check(out.getvalue() in allowed, 'stream-content', '%r: %r holds %r, expected %r' % (
                        log[-1], k, out.getvalue()[:40], model[k][:40]))
                    model[k] = out.getvalue()
    finally:
        plan.disarm()
        cont.close()
        store.container.close()
    ctx.nontrivial(repr(log))


WORKLOADS = [
    Workload("faults", case_faults, quick=500, thorough=8000, cpu=60),
    Workload("streams", case_streams, quick=200, thorough=3000, cpu=60),
]
