"""C39: what the OData client sees is what the service behind the server holds.

The client works over a real loopback connection with a server written here
(lib/odhttp) running the library's WSGI application over an in-memory service.
Oracle: the dictionary and set models of C33 and C35 updated alongside; at the
end what the service itself holds is read directly and compared as well."""

import hashlib
import io

from lib.harness import Workload
from lib import gen, odassoc, odexpr, odhttp, odmodel
from lib.odmodel import SETS, Model, load, model_key, real_key, set_values
from lib.oddriver import Driver, run_streams
from lib.odexpr import pick

META = dict(
    id="C39", title="The OData client sees exactly what the service holds",
    statement="For any history of operations made through the OData client on a remote service: every entity, collection, count, membership test, filter, selection, order, expansion, page and navigation returns what the same operation on the service's own collections would; inserts, updates (merge or replace), deletes, links and stream writes take effect on the service exactly as asked, or raise a documented error and change nothing; iterating over a collection the server splits into pages visits each entity exactly once.",
    quantifier=dict(over=["histories"], text="all operation histories, server page sizes and values"),
    why_tests_cant="tests run a fixed script against one model, without server paging, selection or filters through the client",
    anchors=dict(files=["pyslet/odata2/client.py", "pyslet/odata2/core.py", "pyslet/odata2/server.py"],
                 mechanism=[dict(name="ClientCollection, EntityCollection, NavigationCollection", where="pyslet/odata2/client.py"),
                            dict(name="Entry, Feed", where="pyslet/odata2/core.py")],
                 observe_at=["collection methods and exceptions", "the service's own collections"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: model-based comparison of operation histories over a loopback HTTP connection"
LEVEL_NOTE = "Held on the histories observed."
RULE = "each case is one history on one service; distinct by history"
MODULES = ["pyslet/odata2/client.py", "pyslet/odata2/core.py"]
REQUIRE = {"operations": 500, "reads": 1000, "filters": 50, "orders": 50, "ends": 1000, "pages": 200, "streams": 20, "merges": 20, "replaces": 10}

NAMES = ('Things', 'Words', 'Pairs', 'Longs', 'Names', 'Codes', 'Dates')

PATHS = {}
for _n, (_t, _f, _d) in SETS['Things'][2].items():
    PATHS.setdefault(_t, []).append((_n,))
PATHS['Int32'] += [('Home', 'Num')]
PATHS['String'] += [('Home', 'Street'), ('Home', 'In', 'Zip')]
PATHS['Double'] += [('Home', 'In', 'Lat')]


class Service(object):

    def __init__(self, ctx, schema, topmax=None):
        from pyslet.odata2 import client, memds, server
        self.ctx = ctx
        self.doc = load(schema)
        self.container = memds.InMemoryEntityContainer(self.doc.root.DataServices['NS.DB'])
        self.http = odhttp.Server()
        app = server.Server(self.http.root + 'svc/')
        app.set_model(self.doc)
        if topmax:
            app.topmax = topmax
        self.http.app = app
        self.http.start()
        try:
            self.client = client.Client(self.http.root + 'svc/')
        except Exception:
            self.http.stop()
            raise

    def set(self, name):
        return self.client.feeds[name]

    def direct(self, name):
        return self.doc.root.DataServices['NS.DB.' + name]

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.ctx.witness(requests=[repr(x)[:300] for x in self.http.log[-4:]])
        self.client.close()
        self.http.stop()


class ClientDriver(Driver):

    def gen_filter(self):
        while True:
            e, params = Driver.gen_filter(self)
            # types without literals and typed nulls can't be sent
            if not any(v is None or t in ('Byte', 'SByte', 'Int16') for t, v in params.values()):
                return e, params

    def errors(self):
        from pyslet.odata2 import client
        return (client.ClientException, ValueError)

    def unpage(self, c):
        c.set_page(None)

    def select_some(self):
        rule, sel = Driver.select_some(self)
        if '*' not in rule:
            # an entity without its key would be given another
            rule.update((k, None) for k in self.keys)
        return rule, sel

    def judge(self, c, match, rank, order, sel):
        rng = self.rng
        what = repr(self.log[-1])
        self.ctx.equal(len(c), len(match), 'filter-len', what)
        got = list(c.itervalues())
        self.result(got, match, rank, order, sel, what)
        for key in list(self.data)[:4]:
            rk = real_key(self.name, key)
            self.ctx.equal(rk in c, key in match, 'filter-contains', '%s %r' % (what, key))
            if key in match:
                self.same(c[rk], key, 'filtered', sel)
        # the server may make pages smaller
        n, size = len(match), rng.randint(1, 4)
        m = rng.randrange(3)
        skip = 0
        c.set_page(size)
        if m == 0:
            c.set_page(None)
        elif m == 1:
            skip = rng.randint(0, 2)
            c.set_page(gen.pick(rng, (None, size)), skip)
        pages = []
        for i in range(n + 3):
            page = list(c.iterpage(set_next=True))
            self.ctx.check(m == 0 or len(page) <= max(size, n), 'page-size', '%s: %d entities' % (what, len(page)))
            self.ctx.count('pages')
            if not page:
                break
            pages += page
        else:
            self.ctx.fail('page-endless', what)
        if skip:
            self.ctx.equal(len(pages), max(0, n - skip), 'page-skip', what)
            self.ctx.check(len(set(model_key(self.name, e) for e in pages)) == len(pages), 'page-repeat', what)
        else:
            self.result(pages, match, rank, order, sel, what + ' pages')
        # and by token
        c.set_page(None)
        pages, token = [], None
        for i in range(n + 3):
            page = list(c.iterpage())
            pages += page
            token = c.next_skiptoken()
            if token is None:
                break
            self.ctx.count('tokens')
            self.ctx.check(page, 'token-empty', what)
            c.set_page(None, 0, token)
        else:
            self.ctx.fail('token-endless', what)
        self.result(pages, match, rank, order, sel, what + ' token pages')


def case_history(ctx):
    odexpr.PATHS.clear()
    odexpr.PATHS.update(PATHS)
    rng = ctx.rng
    name = gen.pick(rng, NAMES)
    with Service(ctx, odmodel.csdl(list(SETS)), gen.pick(rng, (None, 1, 2, 3, 5))) as s:
        model = Model(list(SETS))
        d = ClientDriver(ctx, name, s.set(name), model)
        c = d.es.open()
        for i in range(rng.randint(8, 25)):
            op = pick(rng, d.insert, d.insert, d.insert, d.insert_default, d.read, d.update, d.partial, d.delete, d.stale,
                      d.assign, d.query, d.query, d.query, d.clear, d.whole)
            op(c)
        d.whole(c)
        # what the service really holds
        x = Driver(ctx, name, s.direct(name), model)
        with x.es.open() as c:
            x.whole(c)
    ctx.nontrivial(repr(d.log))


class AssocDriver(odassoc.Driver):

    # links are made in several requests
    lenient = True

    def __init__(self, ctx, service, size):
        odassoc.Driver.__init__(self, ctx, service.set, size)
        self.service = service

    def attempt(self, what, model, real):
        if what[0] in ('nav-insert', 'replace', 'update'):
            try:
                model(self.state.copy())
            except odassoc.Refused:
                # several requests, and what was done by the first is not undone
                return None
            except odassoc.Undecided:
                pass
        return odassoc.Driver.attempt(self, what, model, real)

    def verify(self, remote=False):
        if not remote and self.rng.random() > 0.1:
            self.es = self.service.direct
        try:
            odassoc.Driver.verify(self)
        finally:
            self.es = self.service.set


def case_links(ctx):
    rng = ctx.rng
    with Service(ctx, odassoc.csdl(), gen.pick(rng, (None, 1, 2, 3))) as s:
        d = AssocDriver(ctx, s, rng.randint(2, 4))
        for i in range(rng.randint(5, 12)):
            d.insert(gen.pick(rng, 'RRPPPQQSTUVWZ'))
        d.verify()
        for i in range(rng.randint(6, 16)):
            d.step()
            d.verify()
            if rng.random() < 0.15:
                d.queries()
        d.verify(True)
    ctx.nontrivial(repr(d.log))


def case_streams(ctx):
    with Service(ctx, odmodel.csdl(list(SETS))) as s:
        model = run_streams(ctx, s.set('Files'), True)
        with s.direct('Files').open() as c:
            ctx.equal(sorted(c.keys()), sorted(model), 'stream-keys')
            for k in sorted(model):
                out = io.BytesIO()
                c.read_stream(k, out)
                ctx.equal(out.getvalue(), model[k][0], 'stream-held')


WORKLOADS = [
    Workload("streams", case_streams, quick=30, thorough=500, cpu=60, wall=120, blocked=True),
    Workload("links", case_links, quick=40, thorough=800, cpu=60, wall=120, blocked=True),
    Workload("history", case_history, quick=100, thorough=2000, cpu=60, wall=120, blocked=True),
]
