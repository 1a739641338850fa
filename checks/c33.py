"""C33: the in-memory data service behaves as a set of keyed entities.

Oracle: a plain dictionary model updated alongside; filters and orderings are
evaluated by the reference evaluator of lib/odexpr."""

import hashlib
import io
import os
import threading

from lib.harness import Workload
from lib import gen, odexpr, odmodel
from lib.odmodel import SETS, Model, load
from lib.oddriver import Driver, run_streams
from lib.odexpr import pick

META = dict(
    id="C33", title="The in-memory data service behaves as a set of keyed entities",
    statement="For any history of operations on the in-memory service: an entity can be read by key exactly while it exists, with the values last written (a merge changes only the selected properties, a replace gives the others their declared default); inserting an existing key, reading, updating or deleting a missing one raises the documented error and changes nothing; length, membership and iteration agree; a filter yields exactly the entities for which the expression is true, whatever is selected; ordering sorts by the expressions in turn with null lowest; the pages obtained by top/skip, automatic paging or following skip tokens visit every entity exactly once and paging ends; media streams read back the bytes last stored with their size and digest.  Entities returned are snapshots, and collections used concurrently from several threads lose no operation.",
    quantifier=dict(over=["histories", "schedules"], text="all operation histories over entity sets with every key shape; all thread interleavings of disjoint and colliding operations"),
    why_tests_cant="tests run fixed scripts on a set of two properties, without combining select, filter, order and paging",
    anchors=dict(files=["pyslet/odata2/memds.py", "pyslet/odata2/csdl.py", "pyslet/odata2/core.py"],
                 mechanism=[dict(name="InMemoryEntityStore, EntityCollection", where="pyslet/odata2/memds.py"),
                            dict(name="EntityCollection.iterpage, order_entities", where="pyslet/odata2/csdl.py")],
                 observe_at=["collection methods and exceptions"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: model-based comparison of operation histories, thread stress with perturbed schedules and an exactly-once oracle"
LEVEL_NOTE = "Held on the histories and schedules observed."
RULE = "each case is one history on one entity set or one concurrent run; distinct by history"
MODULES = ["pyslet/odata2/memds.py", "pyslet/odata2/csdl.py"]
REQUIRE = {"operations": 5000, "reads": 3000, "filters": 500, "orders": 500, "pages": 1500, "merges": 200, "replaces": 100,
           "refused": 300, "streams": 200, "thread-ops": 500, "tokens": 200}

NAMES = ('Things', 'Things', 'Words', 'Pairs', 'Longs', 'Dates', 'Names', 'Codes')

PATHS = {}
for _n, (_t, _f, _d) in SETS['Things'][2].items():
    PATHS.setdefault(_t, []).append((_n,))
PATHS['Int32'] += [('Home', 'Num')]
PATHS['String'] += [('Home', 'Street'), ('Home', 'In', 'Zip')]
PATHS['Double'] += [('Home', 'In', 'Lat')]

_doc = []


def container():
    from pyslet.odata2 import memds
    if not _doc:
        _doc.append(load(odmodel.csdl(list(SETS))))
    return memds.InMemoryEntityContainer(_doc[0].root.DataServices['NS.DB'])


def entity_set(name):
    return _doc[0].root.DataServices['NS.DB.' + name]


def case_history(ctx):
    odexpr.PATHS.clear()
    odexpr.PATHS.update(PATHS)
    rng = ctx.rng
    name = gen.pick(rng, NAMES)
    cont = container()
    model = Model(list(SETS))
    d = Driver(ctx, name, entity_set(name), model)
    c = d.es.open()
    for i in range(rng.randint(8, 40)):
        if rng.random() < 0.1:
            c.close()
            c = d.es.open()
        op = pick(rng, d.insert, d.insert, d.insert, d.insert_default, d.auto if name != 'Dates' and rng.random() < 0.3 else d.read,
                  d.read, d.update, d.partial, d.delete, d.stale, d.assign, d.query, d.query, d.query, d.clear, d.whole)
        op(c)
    d.whole(c)
    c.close()
    ctx.nontrivial(repr(d.log))
    del cont


def case_exhaust(ctx):
    """no key left to generate"""
    from pyslet.odata2 import csdl as edm
    cont = container()
    keys = []
    with entity_set('Tinies').open() as c:
        for i in range(40):
            e = c.new_entity()
            try:
                c.insert_entity(e)
            except edm.EDMError:
                ctx.count('refused')
                continue
            keys.append(e.key())
        ctx.equal(len(set(keys)), len(keys), 'auto-key', 'generated keys repeat')
        ctx.equal(sorted(c.keys()), sorted(keys), 'auto-key')
    del cont


def case_streams(ctx):
    cont = container()
    run_streams(ctx, entity_set('Files'))
    del cont


def case_threads(ctx):
    from lib.sched import Perturb, Crew
    rng = ctx.rng
    cont = container()
    es = entity_set('Longs')
    from pyslet.odata2 import csdl as edm
    import random
    N = rng.randint(2, 5)
    M = rng.randint(3, 8)
    done = []
    crew = Crew()
    seeds = [rng.random() for i in range(N)]

    def body(tid):
        r = random.Random(seeds[tid])
        with es.open() as c:
            for i in range(M):
                # a key of our own and one everybody wants
                for key in (1000 * (tid + 1) + i, i):
                    e = c.new_entity()
                    e['K'].set_from_value(key)
                    e['V'].set_from_value(tid)
                    try:
                        c.insert_entity(e)
                        done.append(('insert', tid, key))
                    except edm.ConstraintError:
                        done.append(('lost', tid, key))
                if i and r.random() < 0.6:
                    k = 1000 * (tid + 1) + i - 1
                    e = c[k]
                    e['V'].set_from_value(e['V'].value + 0.5)
                    c.update_entity(e)
                    done.append(('update', tid, k))
                k = r.randrange(M)
                try:
                    del c[k]
                    done.append(('delete', tid, k))
                except KeyError:
                    done.append(('none', tid, k))
                # iteration never fails while others change the set
                for e in c.itervalues():
                    e['V'].value + 0
                if r.random() < 0.5:
                    e = c.new_entity()
                    e['V'].set_from_value(tid)
                    c.insert_entity(e)
                    done.append(('auto', tid, e.key()))

    for i in range(N):
        crew.add('t%d' % i, body, i)
    with Perturb(['pyslet/odata2/memds.py'], rng.random(), 0.05):
        crew.start()
        ok = crew.join(lambda: len(done))
    ctx.check(ok, 'threads-stuck', 'threads did not finish')
    for name, err in crew.errors:
        ctx.fail('threads-error', '%s: %s' % (name, err))
    ctx.count('thread-ops', len(done))
    with es.open() as c:
        have = dict((e.key(), e['V'].value) for e in c.values())
    auto = [d[2] for d in done if d[0] == 'auto']
    ctx.equal(len(set(auto)), len(auto), 'threads-auto', 'generated keys repeat')
    for k in auto:
        ctx.check(k in have, 'threads-lost', 'generated key %r lost' % k)
    for tid in range(N):
        for i in range(M):
            k = 1000 * (tid + 1) + i
            if ('insert', tid, k) not in done:
                ctx.fail('threads-lost', 'own key refused')
                continue
            n = done.count(('update', tid, k))
            ctx.equal(have.get(k), tid + 0.5 * n, 'threads-value', 'key %i' % k)
    for k in range(M):
        ins = [d for d in done if d[0] == 'insert' and d[2] == k]
        dels = [d for d in done if d[0] == 'delete' and d[2] == k]
        ctx.equal(len(ins) - len(dels), 1 if k in have else 0, 'threads-once', 'key %i inserted %i, deleted %i, present %s' % (
            k, len(ins), len(dels), k in have))
    ctx.equal(len(have), len(auto) + N * M + sum(1 for k in range(M) if k in have), 'threads-count')
    ctx.nontrivial(repr(done))
    del cont


WORKLOADS = [
    Workload("history", case_history, quick=3000, thorough=30000, cpu=30),
    Workload("exhaust", case_exhaust, quick=5, thorough=50, cpu=20),
    Workload("streams", case_streams, quick=400, thorough=5000, cpu=20),
    Workload("threads", case_threads, quick=60, thorough=1000, cpu=30, blocked=True),
]
