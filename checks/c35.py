"""C35: associations of the in-memory and SQL data services.

Oracle: lib/odassoc keeps entities and links as plain sets."""

import io

from lib.harness import Workload
from lib import gen, odassoc
from lib.odmodel import load

META = dict(
    id="C35", title="Associations stay bidirectional and respect multiplicity",
    statement="For any history of inserting (with bindings, deep, or through navigation), binding, linking, unlinking, replacing and deleting entities of the in-memory and SQLite services: both ends of every association always report the same links, whichever property they are read through (iteration, length, membership, lookup, filter, order, pages, expansion); an operation that would exceed an end's multiplicity, break or omit a required link or name a missing entity raises the documented error and changes nothing; deleting an entity removes its links and deletes exactly the entities that require it.  Links made concurrently from several threads respect multiplicity too.",
    quantifier=dict(over=["histories", "schedules"], text="all histories over a model with every combination of multiplicities, bidirectional, unidirectional and reflexive; all interleavings of competing links"),
    why_tests_cant="tests run fixed scripts on one or two associations and never look at the state after a refused operation",
    anchors=dict(files=["pyslet/odata2/memds.py", "pyslet/odata2/sqlds.py", "pyslet/odata2/csdl.py"],
                 mechanism=[dict(name="InMemoryAssociationIndex, NavigationCollection", where="pyslet/odata2/memds.py"),
                            dict(name="SQLForeignKeyCollection, SQLReverseKeyCollection, SQLAssociationCollection, insert_entity_sql, update_entity", where="pyslet/odata2/sqlds.py"),
                            dict(name="DeferredValue, Entity.check_navigation_constraints, EntitySet.update_navigation", where="pyslet/odata2/csdl.py")],
                 observe_at=["collection methods and exceptions"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: model-based comparison of operation histories with both association ends read back after every operation; thread stress with perturbed schedules"
LEVEL_NOTE = "Held on the histories and schedules observed."
RULE = "each case is one history or one concurrent run; distinct by history"
MODULES = ["pyslet/odata2/memds.py", "pyslet/odata2/sqlds.py", "pyslet/odata2/csdl.py"]
REQUIRE = {"operations": 5000, "ends": 50000, "refused": 800, "cascades": 40, "deep": 100, "links": 300, "unlinks": 50,
           "replaces": 100, "nav-inserts": 50, "queries": 300, "expands": 300, "thread-ops": 300, "sql-operations": 2000}

_doc = []


def fresh():
    from pyslet.odata2 import memds
    if not _doc:
        _doc.append(load(odassoc.csdl()))
    memds.InMemoryEntityContainer(_doc[0].root.DataServices['NS.DB'])
    return lambda s: _doc[0].root.DataServices['NS.DB.' + s]


def case_history(ctx):
    rng = ctx.rng
    d = odassoc.Driver(ctx, fresh(), rng.randint(2, 5))
    for i in range(rng.randint(8, 22)):
        d.insert(gen.pick(rng, 'RRPPPQQSTUVWZ'))
    d.verify()
    for i in range(rng.randint(10, 30)):
        d.step()
        d.verify()
        if rng.random() < 0.15:
            d.queries()
    ctx.nontrivial(repr(d.log))
    ctx.sample(dict(log=[repr(x) for x in d.log[:10]]))


class SQLDriver(odassoc.Driver):

    # an SQL service may refuse some changes that need more than one step
    lenient = True


def case_sqlhistory(ctx):
    from pyslet.odata2 import sqlds
    rng = ctx.rng
    if not _doc:
        _doc.append(load(odassoc.csdl()))
    definition = _doc[0].root.DataServices['NS.DB']
    cont = sqlds.SQLiteEntityContainer(file_path=':memory:', container=definition)
    try:
        cont.create_all_tables()
        d = SQLDriver(ctx, lambda s: definition[s], rng.randint(2, 5))
        for i in range(rng.randint(8, 22)):
            d.insert(gen.pick(rng, 'RRPPPQQSTUVWZ'))
        d.verify()
        for i in range(rng.randint(10, 30)):
            d.step()
            d.verify()
            ctx.count('sql-operations')
            if rng.random() < 0.15:
                d.queries()
    finally:
        cont.close()
    ctx.nontrivial('sql ' + repr(d.log))
    ctx.sample(dict(log=[repr(x) for x in d.log[:10]]))


def case_threads(ctx):
    """competing links"""
    import random
    from lib.sched import Perturb, Crew
    from pyslet.odata2 import csdl as edm
    rng = ctx.rng
    es = fresh()
    d = odassoc.Driver(ctx, es)
    N = rng.randint(2, 4)
    for s, keys in (('R', (1, 2)), ('U', (1, 2, 3)), ('Q', range(1, 5))):
        for k in keys:
            with es(s).open() as c:
                c.insert_entity(d.build(s, dict(K=k, V='x')))
    with es('P').open() as c:
        for k in range(1, 4):
            c.insert_entity(d.build('P', dict(K=k, V='x', R=[1])))
    done = []
    crew = Crew()

    def body(seed):
        r = random.Random(seed)
        for i in range(12):
            m = r.randrange(6)
            k, t = r.randint(1, 3), r.randint(1, 3)
            try:
                if m <= 1:
                    s, n, tt = r.choice((('P', 'U', 'U'), ('U', 'P', 'P'), ('Q', 'Children', 'Q'), ('Q', 'Parent', 'Q'), ('P', 'Qs', 'Q')))
                    e = d.entity(s, k)
                    te = d.entity(tt, t)
                    with e[n].open() as c:
                        if r.random() < 0.5:
                            c[t] = te
                        else:
                            c.replace(te)
                    done.append('link')
                elif m == 2:
                    s, n = r.choice((('P', 'U'), ('U', 'P'), ('Q', 'Parent')))
                    with d.entity(s, k)[n].open() as c:
                        del c[t]
                    done.append('unlink')
                elif m == 3:
                    e = d.entity('P', k)
                    e['R'].bind_entity(r.randint(1, 2))
                    e.commit()
                    done.append('bind')
                elif m == 4:
                    with es('P').open() as c:
                        del c[k]
                    done.append('delete')
                else:
                    with es('P').open() as c:
                        c.insert_entity(d.build('P', dict(K=k, V='x', R=[r.randint(1, 2)], U=[t])))
                    done.append('insert')
            except (KeyError, edm.ConstraintError, edm.NonExistentEntity):
                done.append('refused')

    for i in range(N):
        crew.add('t%d' % i, body, rng.random())
    with Perturb(['pyslet/odata2/memds.py'], rng.random(), 0.1):
        crew.start()
        ok = crew.join(lambda: len(done))
    ctx.check(ok, 'threads-stuck', 'threads did not finish')
    for name, err in crew.errors:
        ctx.fail('threads-error', '%s: %s' % (name, err))
    ctx.count('thread-ops', len(done))
    # both ends agree, nothing dangles and no end exceeds its multiplicity
    keys = {}
    links = {}
    for s in 'PQRU':
        with es(s).open() as c:
            keys[s] = set(c.keys())
            for k in keys[s]:
                for (s2, n) in odassoc.NAVS:
                    if s2 == s:
                        a, rev, m, t, tm = odassoc.NAV[(s, n)]
                        with c[k][n].open() as nc:
                            got = [e.key() for e in nc.values()]
                        ctx.count('ends')
                        ctx.check(tm == '*' or len(got) <= 1, 'threads-multiplicity', '%s(%r).%s has %r' % (s, k, n, got))
                        ctx.check(tm != '1' or len(got) == 1, 'threads-required', '%s(%r).%s has %r' % (s, k, n, got))
                        links.setdefault(a, {}).setdefault(rev, set()).update((x, k) if rev else (k, x) for x in got)
    for a in ('PQ', 'PR', 'PU', 'QQ'):
        l = links.get(a, {})
        ctx.equal(sorted(l.get(False, ())), sorted(l.get(True, ())), 'threads-ends', 'association %s' % a)
    ctx.nontrivial(repr(done))


WORKLOADS = [
    Workload("history", case_history, quick=600, thorough=4000, cpu=60),
    Workload("sqlhistory", case_sqlhistory, quick=250, thorough=4000, cpu=60),
    Workload("threads", case_threads, quick=60, thorough=1000, cpu=30, blocked=True),
]
