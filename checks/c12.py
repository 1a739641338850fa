"""C12: the lock store gives mutual exclusion.

Oracle 1 (virtual time, sequential): several lock stores (standing for
processes) over one entity set against a table key -> (owner, created).
Oracle 2 (threads): a shadow table of holders is updated on entry to and exit
from the protected region; two holders of one key are a violation.
Oracle 3 (races for a stale lock over SQLite): exactly one claimant wins."""

import os
import random
import threading
import time as real_time

from lib.harness import Workload, VERIF
from lib import gen
from lib.sched import Perturb, Crew, stacks
from checks.c11 import FastSleep

META = dict(
    id="C12", title="The lock store gives mutual exclusion",
    statement="At most one owner holds the lock on a key at any time, unless the lock outlived the stale-lock timeout, in which case exactly one competitor takes it over.  Locks on different keys are independent; a released lock can be acquired by anybody, releasing a lock one does not own has no effect, and a lock that cannot be acquired fails with a lock error once the time allowed has passed.",
    quantifier=dict(over=["schedules", "histories"], text="all interleavings of any number of owners, keys and timeouts"),
    why_tests_cant="tests only count how many threads eventually got a lock; they never check that two did not hold it together",
    anchors=dict(files=["pyslet/blockstore.py"], mechanism=[dict(name="LockStore", where="pyslet/blockstore.py")],
                 observe_at=["LockStore.lock/unlock"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: shadow holder table under perturbed schedules; owner-table model in virtual time"
LEVEL_NOTE = "Held on the executions observed. Stale take-over races are decided on SQLite, which enforces optimistic concurrency; the in-memory service does not."
RULE = "thread crews contending on one or two keys, and sequential histories of lock, unlock and time passing; non-trivial when a lock was refused or waited for"
MODULES = ["pyslet/blockstore.py"]
REQUIRE = {"crew.acquired": 300, "seq.refused": 100, "seq.stale": 50, "race.claims": 20}


class Clock(object):
    """Virtual time; every look at the clock advances it a little"""

    def __init__(self, t=1.6e9, tick=0.01):
        self.t = t
        self.tick = tick

    def time(self):
        self.t += self.tick
        return self.t

    def sleep(self, d):
        self.t += d

    def __getattr__(self, name):
        return getattr(real_time, name)


def cdef(ctx, sql):
    from pyslet.odata2 import metadata as edmx
    from pyslet.odata2.memds import InMemoryEntityContainer
    from pyslet.odata2.sqlds import SQLiteEntityContainer
    doc = edmx.Document()
    with open(os.path.join(VERIF, 'fixtures', 'blockstore.xml'), 'rb') as f:
        doc.read(f)
    c = doc.root.DataServices['BlockSchema.BlockContainer']
    if sql:
        d = ctx.tmpdir()
        db = SQLiteEntityContainer(container=c, max_connections=8,
                                   file_path=os.path.join(d, 'l.db'))
        db.create_all_tables()
        ctx.cleanup(db.close)
    else:
        db = InMemoryEntityContainer(c)
    return doc, c, db


def patch(ctx, clock):
    from pyslet import blockstore, iso8601
    old = blockstore.time, iso8601.pytime
    blockstore.time = iso8601.pytime = clock

    def restore():
        blockstore.time, iso8601.pytime = old
    ctx.cleanup(restore)


def seq(ctx):
    from pyslet import blockstore
    rng = ctx.rng
    sql = rng.random() < 0.5
    doc, c, db = cdef(ctx, sql)
    clock = Clock()
    patch(ctx, clock)
    stale = gen.pick(rng, (20, 60, 180))
    procs = [blockstore.LockStore(c['BlockLocks'], lock_timeout=stale)
             for i in range(3)]
    keys = ['k1', 'k2']
    held = {}       # key -> (proc, created)
    log = []
    ctx.witness(sql=sql, stale=stale, history=log)
    refused = False
    for step in range(rng.randint(4, 30)):
        op = rng.randrange(6)
        p = rng.randrange(len(procs))
        k = gen.pick(rng, keys)
        if op <= 2:
            timeout = gen.pick(rng, (1, 3, 7.5, 10, 30))
            log.append(('lock', p, k, timeout))
            t0 = clock.t
            cur = held.get(k)
            try:
                cm = procs[p].lock(k, timeout=timeout)
                got = True
            except blockstore.LockError:
                got = False
            t1 = clock.t
            if cur is None:
                ctx.check(got, 'free-lock-refused', 'key %s' % k)
            else:
                expiry = cur[1] + stale
                if got:
                    ctx.check(t1 > expiry - 2, 'two-holders',
                              '%s acquired by %d, held by %d for %gs more' % (
                                  k, p, cur[0], expiry - t1))
                    ctx.count('seq.stale')
                    if not sql:
                        # the in-memory service does not refresh created
                        return
                else:
                    ctx.check(t0 + timeout <= t1 + 1, 'gave-up-early',
                              'after %g of %gs' % (t1 - t0, timeout))
                    ctx.check(t0 < expiry + 3, 'stale-lock-refused',
                              'stale for %gs' % (t0 - expiry))
                    ctx.count('seq.refused')
                    refused = True
            if got:
                held[k] = (p, t1)
                if rng.random() < 0.3:
                    log.append('exit context')
                    with cm:
                        pass
                    del held[k]
        elif op <= 4:
            log.append(('unlock', p, k))
            cur = held.get(k)
            procs[p].unlock(k)
            if cur is not None and cur[0] == p:
                del held[k]
        else:
            d = gen.pick(rng, (0.5, 5, stale / 2, stale - 3, stale + 5))
            log.append(('sleep', d))
            clock.sleep(d)
        with c['BlockLocks'].open() as coll:
            ctx.equal(sorted(coll), sorted(held), 'lock-table')
    if refused:
        ctx.nontrivial(repr(log))
        ctx.sample(log[:10])


def crew(ctx):
    from pyslet import blockstore
    rng = ctx.rng
    sql = rng.random() < 0.3
    doc, c, db = cdef(ctx, sql)
    from pyslet import blockstore as bsm
    old = bsm.time
    bsm.time = FastSleep(old)
    ctx.cleanup(lambda: setattr(bsm, 'time', old))
    nt = rng.randint(2, 5)
    shared = blockstore.LockStore(c['BlockLocks'], lock_timeout=100000)
    stores = [shared if rng.random() < 0.7 else blockstore.LockStore(
        c['BlockLocks'], lock_timeout=100000) for i in range(nt)]
    keys = gen.pick(rng, (['a'], ['a', 'b']))
    holders = dict((k, []) for k in keys)
    guard = threading.Lock()
    progress = [0]
    bad = []
    seeds = [rng.random() for i in range(nt)]
    order = []
    rounds = 6 if not sql else 3
    ctx.witness(sql=sql, threads=nt, keys=keys)

    def body(t):
        r = random.Random(seeds[t])
        ls = stores[t]
        for i in range(rounds):
            k = r.choice(keys)
            how = r.randrange(3)
            if how == 2:
                # somebody without the lock must not be able to free it
                with guard:
                    mine = t in holders[k]
                if not mine:
                    ls.unlock(k)
            try:
                cm = ls.lock(k, timeout=r.choice((200, 200, 0.05)))
            except blockstore.LockError:
                progress[0] += 1
                ctx.count('crew.refused')
                continue
            with guard:
                holders[k].append(t)
                order.append((t, k))
                if len(holders[k]) > 1:
                    bad.append((k, list(holders[k])))
            old.sleep(r.choice((0, 0, 0.001)))
            with guard:
                holders[k].remove(t)
            if how:
                cm.__exit__(None, None, None)
            else:
                ls.unlock(k)
            ctx.count('crew.acquired')
            progress[0] += 1
    cr = Crew()
    for t in range(nt):
        cr.add('t%d' % t, body, t)
    with Perturb(['pyslet/blockstore.py', 'pyslet/odata2/memds.py'],
                 rng.random(), prob=gen.pick(rng, (0, 0.02, 0.1)),
                 budget=500):
        cr.start()
        done = cr.join(lambda: progress[0], idle=100)
    if bad:
        ctx.fail('two-holders', repr(bad[:3]))
    if cr.errors:
        name, e, tb = cr.errors[0]
        ctx.fail('crew-error', '%s: %r' % (name, e), traceback=tb)
    if not done:
        ctx.fail('blocked-forever', repr(cr.alive()), stacks=stacks())
    with c['BlockLocks'].open() as coll:
        ctx.equal(sorted(coll), [], 'locks-left')
    ctx.nontrivial((nt, keys, order))


def race(ctx):
    """Several claimants of one stale lock"""
    from pyslet import blockstore
    rng = ctx.rng
    doc, c, db = cdef(ctx, True)
    ls = blockstore.LockStore(c['BlockLocks'], lock_timeout=50)
    clock = Clock(real_time.time() - 5000, 0)
    patch(ctx, clock)
    ls.lock('k', timeout=5)
    clock.t += 1000
    clock.sleep = lambda d: real_time.sleep(0.001)
    start = real_time.time()
    base = clock.t
    clock.time = lambda: base + (real_time.time() - start)
    n = rng.randint(2, 5)
    stores = [blockstore.LockStore(c['BlockLocks'], lock_timeout=50)
              for i in range(n)]
    won = []
    tries = [0]
    barrier = threading.Barrier(n)

    def body(t):
        barrier.wait(30)
        try:
            stores[t].lock('k', timeout=0.3)
            won.append(t)
        except blockstore.LockError:
            pass
        tries[0] += 1
    cr = Crew()
    for t in range(n):
        cr.add('t%d' % t, body, t)
    with Perturb(['pyslet/blockstore.py', 'pyslet/odata2/sqlds.py'],
                 rng.random(), prob=gen.pick(rng, (0, 0.02)), budget=100):
        cr.start()
        done = cr.join(lambda: tries[0], idle=60)
    if cr.errors:
        name, e, tb = cr.errors[0]
        ctx.fail('race-error', '%s: %r' % (name, e), traceback=tb)
    if not done:
        ctx.fail('blocked-forever', repr(cr.alive()), stacks=stacks())
    ctx.check(len(won) <= 1, 'two-holders', 'claimants %r all won' % won)
    ctx.count('race.claims')
    ctx.count('race.won', len(won))
    # the late owner must not be able to free the new owner's lock
    if won:
        ls.unlock('k')
        with c['BlockLocks'].open() as coll:
            ctx.check('k' in coll, 'foreign-unlock')
    ctx.nontrivial(('race', n, won, ctx.case_id))


WORKLOADS = [
    Workload('seq', seq, 600, 8000, cpu=60),
    Workload('crew', crew, 150, 2000, cpu=120, wall=400),
    Workload('race', race, 40, 400, cpu=60),
]
