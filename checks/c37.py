"""C37: the pool of database connections.

Monitors watch every call on the (fake or real) DB API connections."""

import os
import sqlite3
import threading
import time

from lib.harness import Workload
from lib import gen, odmodel
from lib.odmodel import load
from lib.sched import Perturb, Crew, stacks

META = dict(
    id="C37", title="The SQL connection pool is safe under threads",
    statement="For any number of threads using one SQL container, whatever they do and however they are scheduled: a database connection is only ever used by the thread it is assigned to (modules that cannot share connections never see one pass between two living threads, and modules that cannot be shared never see two threads at once), nested use in a thread gets the same connection, no more than max_connections are in use or kept open, a thread waiting for a connection gets one as soon as possible or gives up when its timeout expires, connections of threads that die, or that cannot be opened, do not reduce the capacity of the pool, no connection is closed while in use or used when closed, and after close() all connections are closed, nobody is left waiting and no new connection is given out.  Each thread's changes to the database are all present at the end.",
    quantifier=dict(over=["schedules", "fault_sequences"], text="all schedules of threads acquiring (nested), using, releasing, dying, with connections failing to open, the pool cleaner running and the container closing"),
    why_tests_cant="tests use a handful of threads without observing who uses which connection",
    anchors=dict(files=["pyslet/odata2/sqlds.py"],
                 mechanism=[dict(name="SQLEntityContainer.acquire_connection/release_connection/pool_cleaner/close", where="pyslet/odata2/sqlds.py")],
                 observe_at=["DB API calls with their threads", "acquire_connection and release_connection results"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: ownership monitors on DB API connections under thread stress with perturbed schedules, dying threads and failing opens"
LEVEL_NOTE = "Held on the schedules observed."
RULE = "each case is one run; distinct by its plan and events"
MODULES = ["pyslet/odata2/sqlds.py"]
REQUIRE = {"acquires": 2000, "nested": 300, "uses": 2000, "died": 20, "open-failures": 20, "timeouts": 20, "recycled": 20, "cleanups": 100,
           "closed-waiting": 10, "handovers": 50, "db-operations": 500}


class Error(Exception):
    pass


class FakeAPI(object):
    paramstyle = 'qmark'
    Error = Error
    OperationalError = type('OperationalError', (Error,), {})
    IntegrityError = type('IntegrityError', (Error,), {})
    InternalError = type('InternalError', (Error,), {})
    NotSupportedError = type('NotSupportedError', (Error,), {})
    ProgrammingError = type('ProgrammingError', (Error,), {})

    def __init__(self, level):
        self.threadsafety = level


class Monitor(object):
    """who is inside the DB API"""

    def __init__(self, level, maxc):
        self.level, self.maxc = level, maxc
        self.lock = threading.Lock()
        self.bad = []
        self.conns = []
        self.inside = 0
        self.counts = {}
        self.events = 0

    def note(self, key, message):
        self.bad.append((key, message))

    def count(self, key):
        with self.lock:
            self.counts[key] = self.counts.get(key, 0) + 1
            self.events += 1

    def enter(self, what):
        with self.lock:
            self.inside += 1
            if self.level == 0 and self.inside > 1:
                self.note('module', '%s while another thread is using the module' % what)

    def exit(self):
        with self.lock:
            self.inside -= 1


class Conn(object):

    def __init__(self, mon):
        self.mon = mon
        self.users = []
        self.busy = None
        self.holder = None
        self.closed = 0
        with mon.lock:
            mon.conns.append(self)
            self.n = len(mon.conns)

    def use(self):
        mon = self.mon
        t = threading.current_thread()
        mon.enter('use')
        with mon.lock:
            if self.closed:
                mon.note('use-closed', 'a connection was used by %s after it was closed' % t.name)
            if self.busy:
                mon.note('shared', '%s and %s used a connection at the same time' % (t.name, self.busy.name))
            self.busy = t
            if t not in self.users:
                if mon.level <= 1:
                    for o in self.users:
                        if o.is_alive():
                            mon.note('passed', 'connection passed from %s to %s (threadsafety %i)' % (o.name, t.name, mon.level))
                self.users.append(t)
        time.sleep(0)
        with mon.lock:
            self.busy = None
        mon.exit()
        mon.count('uses')

    def close(self):
        mon = self.mon
        mon.enter('close')
        with mon.lock:
            self.closed += 1
            if self.closed > 1:
                mon.note('closed-twice', 'connection closed twice')
            if self.holder is not None and self.holder.is_alive() and self.holder is not threading.current_thread():
                mon.note('closed-held', 'connection closed by %s while held by %s' % (
                    threading.current_thread().name, self.holder.name))
        time.sleep(0)
        mon.exit()


def definition(_doc=[]):
    if not _doc:
        _doc.append(load(odmodel.csdl(['Longs'])))
    return _doc[0].root.DataServices['NS.DB']


def case_pool(ctx):
    import random
    from pyslet.odata2 import sqlds
    rng = ctx.rng
    level = rng.choice((0, 1, 1, 2, 3))
    maxc = rng.randint(1, 4)
    mon = Monitor(level, 1 if level == 0 else maxc)
    api = FakeAPI(level)
    opener = random.Random(rng.random())
    fail_rate = rng.choice((0, 0, 0.2))

    class Container(sqlds.SQLEntityContainer):

        def open(self):
            mon.enter('open')
            try:
                time.sleep(0)
                with mon.lock:
                    fail = opener.random() < fail_rate
                if fail:
                    mon.count('open-failures')
                    raise api.OperationalError('injected')
                return Conn(mon)
            finally:
                mon.exit()

    cont = Container(container=definition(), dbapi=api, max_connections=maxc, max_idle=None)
    cap = 1 if level == 0 else maxc
    nthreads = rng.randint(2, 7)
    plan = []

    def hold(item, depth):
        t = threading.current_thread()
        with mon.lock:
            if item.dbc.holder is not None and item.dbc.holder is not t and item.dbc.holder.is_alive():
                mon.note('exclusive', '%s was given the connection held by %s' % (t.name, item.dbc.holder.name))
            item.dbc.holder = t
            n = len([c for c in mon.conns if c.holder is not None and c.holder.is_alive()])
            if n > cap:
                mon.note('held', '%i connections are in use, maximum %i' % (n, cap))

    def drop(item, depth):
        if not depth:
            with mon.lock:
                item.dbc.holder = None

    def acquire(timeout):
        t0 = time.time()
        try:
            item = cont.acquire_connection(timeout)
        except (sqlds.SQLError, Error):
            if not fail_rate:
                mon.note('acquire-error', 'acquire_connection failed')
            mon.count('failed')
            return None
        waited = time.time() - t0
        if item is None:
            mon.count('timeouts')
            if timeout is None:
                mon.note('no-timeout', 'acquire_connection gave up without a timeout')
            elif waited < timeout - 0.001:
                mon.note('early', 'gave up after %f, timeout %f' % (waited, timeout))
        mon.count('acquires')
        return item

    def worker(seed, n, dies):
        r = random.Random(seed)
        for i in range(n):
            timeout = r.choice((None, None, 60, 60, 0.001, 0.005))
            item = acquire(timeout)
            if item is None:
                continue
            hold(item, 0)
            stack = [item]
            for j in range(r.choice((0, 0, 1, 3))):
                nested = acquire(r.choice((None, 60)))
                if nested is not item:
                    mon.note('nested', 'nested acquire returned %s' % ('nothing' if nested is None else 'a different connection'))
                    if nested is None:
                        continue
                mon.count('nested')
                stack.append(nested)
                item.dbc.use()
            for j in range(r.randint(1, 3)):
                item.dbc.use()
                if r.random() < 0.2:
                    time.sleep(r.random() * 0.002)
            if dies and i == n - 1:
                mon.count('died')
                return
            while stack:
                if r.random() < 0.5:
                    item.dbc.use()
                x = stack.pop()
                drop(x, len(stack))
                cont.release_connection(x)

    done = threading.Event()

    def spawner(seed):
        """threads come and go"""
        r = random.Random(seed)
        for i in range(r.randint(3, 8)):
            s, n, dies = r.random(), r.randint(1, 3), r.random() < 0.15
            t = Crew()
            t.errors = crew.errors
            t = t.add(threading.current_thread().name, worker, s, n, dies)
            t.start()
            t.join()

    def cleaner(seed):
        r = random.Random(seed)
        while not done.is_set():
            cont.pool_cleaner(r.choice((0.0, 0.001, 1000)))
            mon.count('cleanups')
            time.sleep(0.0005)

    crew = Crew()
    for i in range(nthreads):
        if rng.random() < 0.7:
            crew.add('worker %i' % i, worker, rng.random(), rng.randint(2, 10), rng.random() < 0.15)
        else:
            crew.add('spawner %i' % i, spawner, rng.random())
    c = threading.Thread(target=cleaner, args=(rng.random(),))
    c.daemon = True

    def report():
        for key, message in mon.bad:
            ctx.fail(key, message + ' (threadsafety %i, max %i)' % (level, maxc))

    with Perturb(('pyslet/odata2/sqlds.py',), rng.random(), prob=rng.choice((0.02, 0.1))):
        c.start()
        crew.start()
        ok = crew.join(lambda: mon.events - mon.counts.get('cleanups', 0))
        done.set()
        c.join(10)
    report()
    if ok is False:
        ctx.fail('stuck', 'threads are waiting for connections: %r: %r' % (crew.alive(), stacks()))
    ctx.check(ok, 'stuck', 'threads did not finish')
    for name, err, tb in crew.errors:
        ctx.fail('error', '%s: %r %s' % (name, err, tb[-600:]))
    with mon.lock:
        for cn in mon.conns:
            cn.holder = None
        ctx.count('recycled', len([cn for cn in mon.conns if len(cn.users) > 1]))
    fail_rate = 0
    n = len([cn for cn in mon.conns if not cn.closed])
    ctx.check(n <= cap, 'max', '%i connections are open, maximum %i (threadsafety %i)' % (n, cap, level))
    # capacity: all the connections can be in use at the same time
    cont.pool_cleaner(1000)
    barrier = threading.Barrier(cap)
    crew = Crew()
    final = []

    def full():
        item = cont.acquire_connection(20)
        final.append(item)
        if item is None:
            barrier.abort()
            return
        try:
            barrier.wait(30)
        except threading.BrokenBarrierError:
            pass
        item.dbc.use()
        cont.release_connection(item)

    for i in range(cap):
        crew.add('full %i' % i, full)
    crew.start()
    crew.join(lambda: len(final))
    ctx.check(len(final) == cap and None not in final, 'capacity', 'only %i connections available of %i (threadsafety %i): %r' % (
        len([x for x in final if x is not None]), cap, level, cont.connection_stats()))
    ctx.equal(len(set(id(x) for x in final)), cap, 'capacity-distinct')
    # closing
    crew = Crew()
    state = dict(holding=0, waiting=0)
    go = threading.Event()
    results = []

    def holder():
        item = cont.acquire_connection(20)
        hold(item, 0)
        with mon.lock:
            state['holding'] += 1
        go.wait(20)
        time.sleep(0.01)
        item.dbc.use()
        drop(item, 0)
        cont.release_connection(item)

    def waiter(timeout):
        with mon.lock:
            state['waiting'] += 1
        results.append(cont.acquire_connection(timeout))

    nhold = rng.randint(0, cap)
    for i in range(nhold):
        crew.add('holder %i' % i, holder)
    crew.start()
    t0 = time.time()
    while state['holding'] < nhold and time.time() < t0 + 20:
        time.sleep(0.0005)
    nwait = 0
    if nhold == cap:
        nwait = rng.randint(0, 3)
        before = len(crew.threads)
        for i in range(nwait):
            crew.add('waiter %i' % i, waiter, rng.choice((None, 100)))
        for t in crew.threads[before:]:
            t.start()
        while state['waiting'] < nwait and time.time() < t0 + 20:
            time.sleep(0.0005)
        time.sleep(0.005)
    closer = threading.Thread(target=cont.close, kwargs=dict(timeout=30))
    closer.daemon = True
    closer.start()
    while not cont.closing.is_set() and time.time() < t0 + 20:
        time.sleep(0.0005)
    go.set()
    ok = crew.join(lambda: len(results), idle=15)
    closer.join(60)
    report()
    ctx.check(ok, 'close-stuck', 'threads are still waiting after close: %r: %r' % (crew.alive(), stacks()))
    ctx.check(not closer.is_alive(), 'close-stuck', 'close is stuck: %r' % stacks())
    for name, err, tb in crew.errors:
        ctx.fail('error', '%s: %r %s' % (name, err, tb[-600:]))
    ctx.equal(results, [None] * nwait, 'closed-acquire', 'waiting threads')
    ctx.count('closed-waiting', nwait)
    ctx.check(cont.acquire_connection(0.1) is None, 'closed-acquire', 'after close')
    left = [cn.n for cn in mon.conns if not cn.closed]
    ctx.check(not left, 'left-open', '%i of %i connections were left open' % (len(left), len(mon.conns)))
    for k, n in mon.counts.items():
        ctx.count(k, n)
    ctx.count('handovers', len([cn for cn in mon.conns if cn.users]))
    ctx.nontrivial(repr((level, maxc, nthreads, sorted(mon.counts.items()))))
    ctx.sample(dict(level=level, maxc=maxc, threads=nthreads, counts=dict(mon.counts)))


class ProxyConn(object):

    def __init__(self, mon, dbc):
        self._mon, self._dbc = mon, dbc
        self._busy = None

    def _call(self, name, fn, args):
        mon = self._mon
        t = threading.current_thread()
        with mon.lock:
            if self._busy not in (None, t):
                mon.note('shared', '%s and %s used a connection at the same time (%s)' % (t.name, self._busy.name, name))
            self._busy = t
        try:
            return fn(*args)
        finally:
            with mon.lock:
                self._busy = None

    def cursor(self):
        outer, cur = self, self._dbc.cursor()

        class Cursor(object):
            def __getattr__(self, name):
                v = getattr(cur, name)
                if callable(v):
                    return lambda *a: outer._call(name, v, a if name != 'execute' or a[1] is not None else a[:1])
                return v
        return Cursor()

    def commit(self):
        return self._call('commit', self._dbc.commit, ())

    def rollback(self):
        return self._call('rollback', self._dbc.rollback, ())

    def __getattr__(self, name):
        return getattr(self._dbc, name)


def case_database(ctx):
    import random
    from pyslet.odata2 import sqlds
    rng = ctx.rng
    path = os.path.join(ctx.tmpdir(), 'db')
    maxc = rng.randint(1, 3)
    mon = Monitor(1, maxc)
    db = definition()

    class Container(sqlds.SQLiteEntityContainer):

        def open(self):
            return ProxyConn(mon, super(Container, self).open())

    cont = Container(file_path=path, container=db, max_connections=maxc)
    cont.create_all_tables()
    models = {}

    def worker(i, seed):
        r = random.Random(seed)
        model = models[i] = {}
        for j in range(r.randint(5, 12)):
            key = i * 100 + r.randint(1, 5)
            op = r.choice(('put', 'put', 'del', 'read'))
            try:
                with db['Longs'].open() as c:
                    if op == 'read':
                        got = sorted(k for k in c if k // 100 == i)
                        if got != sorted(model):
                            mon.note('lost', 'thread %i sees %r, expected %r' % (i, got, sorted(model)))
                    elif op == 'del' and key in model:
                        del c[key]
                        del model[key]
                    elif op == 'put' and key not in model:
                        e = c.new_entity()
                        e.set_key(key)
                        e['V'].set_from_value(float(j))
                        c.insert_entity(e)
                        model[key] = float(j)
                    elif op == 'put':
                        e = c[key]
                        e['V'].set_from_value(float(j))
                        c.update_entity(e)
                        model[key] = float(j)
            except sqlds.SQLError as err:
                if 'locked' not in str(err):
                    raise
                mon.count('busy')
            mon.count('db-operations')

    crew = Crew()
    for i in range(rng.randint(2, 6)):
        crew.add('worker %i' % i, worker, i, rng.random())
    with Perturb(('pyslet/odata2/sqlds.py',), rng.random(), prob=0.01, budget=1000):
        crew.start()
        ok = crew.join(lambda: mon.events)
    for key, message in mon.bad:
        ctx.fail('db-' + key, message)
    ctx.check(ok, 'db-stuck', 'threads did not finish: %r' % stacks())
    for name, err, tb in crew.errors:
        ctx.fail('db-error', '%s: %r %s' % (name, err, tb[-900:]))
    with db['Longs'].open() as c:
        got = dict((k, e['V'].value) for k, e in c.items())
    want = {}
    for m in models.values():
        want.update(m)
    ctx.equal(got, want, 'db-content')
    cont.close()
    for k, n in mon.counts.items():
        ctx.count(k, n)
    ctx.nontrivial(repr(sorted(got.items())))


WORKLOADS = [
    Workload("pool", case_pool, quick=600, thorough=8000, cpu=60, wall=300, blocked=True),
    Workload("database", case_database, quick=120, thorough=1500, cpu=60, wall=300, blocked=True),
]
