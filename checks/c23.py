"""C23: every client request gets its own response exactly once.

Oracle: lib/scripted.py, an independent server which names every response
after the request and attempt it answers, and an offline comparison of its
log with what the client's requests were told."""

import io
import threading
import time

from lib.harness import Workload
from lib import gen, wire, scripted, sched

META = dict(
    id="C23", title="Every HTTP client request gets its own response exactly once",
    statement="Over any mix of threads, hosts, keep-alive, pipelining, closes, dropped and reset connections, interim and early responses and fragmentation, each request given to a client finishes exactly once, either with the complete response the server gave to that request or with an error (status 0); it never finishes with another request's response or with part of one.  The request arrives at the server exactly as it was made.  Idempotent requests survive as many failures as retries are allowed; a request with a method that is not idempotent is never sent again once the server may have seen it.  The client never stops making progress, its connection limit is respected, and a closed client takes no more requests.",
    quantifier=dict(over=["schedules", "histories", "fault_sequences"], text="all interleavings of threads, all server behaviours, all points of failure"),
    why_tests_cant="tests script a few exchanges with one mock server and no leftover or late data",
    anchors=dict(files=["pyslet/http/client.py", "pyslet/http/messages.py"],
                 mechanism=[dict(name="Connection.connection_task, _recv_task, close", where="pyslet/http/client.py"),
                            dict(name="Client.queue_request, thread_task, pools", where="pyslet/http/client.py"),
                            dict(name="ClientRequest.response_finished, disconnect, finished", where="pyslet/http/client.py")],
                 observe_at=["request status, error, body; finished calls; the server's log"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: real sockets against a scripted fault-injecting server, per-request exactly-once and own-response monitors, offline comparison of both ends' logs"
LEVEL_NOTE = "Held on the exchanges observed."
RULE = "a case is distinct by its script and requests"
# methods that must not be sent twice
ONCE = ('POST', 'PATCH')
MODULES = ["pyslet/http/client.py"]
REQUIRE = {"requests": 2500, "finished": 2500, "faults": 300, "batched": 100, "pipelined": 100,
           "retried": 100, "not resent": 40, "interim": 50, "threads": 300}


def make_request(url, log, lock, **kw):
    from pyslet.http import client

    class Request(client.ClientRequest):

        nfinished = 0
        nresent = 0
        depth = 0

        def finished(self):
            with lock:
                self.nfinished += 1
            super(Request, self).finished()

        def resend(self, url=None):
            with lock:
                self.nresent += 1
            super(Request, self).resend(url)

    return Request(url, **kw)


def body_for(rid, k, size):
    tag = b'<%d.%d>' % (rid, k)
    return (tag * (size // len(tag) + 1))


class Plan(object):
    """one request and what is expected of it"""
    pass


class Player(object):

    def __init__(self, ctx, nhosts=1, faults=0.0, silent=False):
        self.ctx = ctx
        self.rng = ctx.rng
        self.lock = threading.Lock()
        self.script = {}
        self.plans = {}
        self.hosts = [scripted.Server(ctx, self.script, ctx.rng) for i in range(nhosts)]
        for h in self.hosts:
            ctx.cleanup(h.stop)
        self.nextid = 0
        self.faults = faults
        self.silent = silent

    def step(self, size, status=200, **kw):
        rng = self.rng
        d = dict(framing=gen.pick(rng, ('cl', 'cl', 'cl', 'chunked', 'gzip')), status=status,
                 body=lambda rid, k: body_for(rid, k, size))
        if rng.random() < 0.35:
            d['hold'] = True
        elif rng.random() < 0.3:
            d['frag'] = gen.pick(rng, (1, 3, 50, 700))
            if size > 300:
                d['frag'] = max(d['frag'], 50)
            d['pause'] = gen.pick(rng, (0, 0, 0.0005))
        if rng.random() < 0.12:
            d['interim'] = gen.pick(rng, ((100,), (102,), (102, 100)))
            self.ctx.count('interim')
        d.update(kw)
        return scripted.Step(**d)

    def plan(self, host=None, method=None, steps=None, **kw):
        """a request with its script"""
        rng = self.rng
        p = Plan()
        with self.lock:
            self.nextid += 1
            p.id = self.nextid
        p.host = host if host is not None else rng.randrange(len(self.hosts))
        p.method = method or gen.pick(rng, ('GET', 'GET', 'GET', 'PUT', 'POST', 'HEAD', 'DELETE', 'OPTIONS', 'PATCH'))
        p.size = gen.pick(rng, (0, 10, 500, 20000))
        p.status = gen.pick(rng, (200, 200, 200, 201, 204, 404, 500, 400))
        p.faulty = 0
        p.maybe = False
        p.tolerant = False
        p.trunc = False
        if steps is None:
            steps = []
            while rng.random() < self.faults:
                p.faulty += 1
                f = gen.pick(rng, ('drop', 'drop', 'cut', 'cut', 'garbage'))
                kk = dict(kind=f, rst=rng.random() < 0.3, framing=gen.pick(rng, ('cl', 'chunked', 'gzip')))
                if f == 'cut':
                    kk['cut'] = rng.random()
                if f == 'garbage':
                    kk['body'] = gen.pick(rng, (b'\x15\x03\x01\x00\x02\r\n', b'<html>no\r\n\r\n', b'HTTP/1.1 ok\r\n\r\n'))
                    kk['close'] = 'silent'
                kk.setdefault('body', lambda rid, k, n=p.size: body_for(rid, k, n))
                steps.append(self.step(p.size, p.status, **kk))
                self.ctx.count('faults')
                if p.faulty == 3:
                    break
            last = self.step(p.size, p.status)
            r = rng.random()
            if r < 0.1:
                last.close = 'header'
            elif r < 0.15 and p.method != 'HEAD' and p.status != 204:
                last.framing = 'close'
                last.close = gen.pick(rng, ('header', 'silent'))
                if last.close == 'silent':
                    p.maybe = True
            elif self.silent and r < 0.3:
                last.close = 'silent'
                p.maybe = True
            steps.append(last)
        p.steps = steps
        p.nth = len(steps) - 1
        self.script[p.id] = steps
        p.body = None
        how = None
        if p.method in ('PUT', 'POST', 'OPTIONS', 'PATCH'):
            n = gen.pick(rng, (0, 5, 3000, 60000))
            p.body = (b'[%d]' % p.id) * (n // 4 + 1)
            how = gen.pick(rng, ('bytes', 'stream'))
        kk = dict(method=p.method, max_retries=10, min_retry_time=0.001)
        p.sink = None
        if rng.random() < 0.3:
            p.sink = io.BytesIO()
            kk['res_body'] = p.sink
        kk.update(kw)
        if p.body is not None:
            kk['entity_body'] = p.body if how == 'bytes' else io.BytesIO(p.body)
        url = 'http://127.0.0.1:%d/r/%d' % (self.hosts[p.host].port, p.id)
        p.request = make_request(url, None, self.lock, **kk)
        if p.body is not None and rng.random() < 0.1:
            p.request.set_expect_continue()
        p.head = []
        for i in range(rng.randrange(3)):
            n, v = 'X-H%d' % i, gen.pick(rng, ('1', 'a, b', 'x;y="z"'))
            p.request.set_header(n, v)
            p.head.append((n.lower().encode(), v.encode()))
        self.plans[p.id] = p
        self.ctx.count('requests')
        return p

    def got_body(self, p):
        if p.sink is not None:
            return p.sink.getvalue()
        return p.request.res_body

    def judge(self, p, must=True):
        """the finished request against the server's log"""
        ctx = self.ctx
        r = p.request
        what = "%s %d (%s)" % (p.method, p.id, p.steps)
        server = self.hosts[p.host]
        ctx.equal(r.nfinished - r.nresent, 1, 'finishes-once', "%s: finished %d times, resent %d" % (what, r.nfinished, r.nresent))
        ctx.count('finished')
        with server.lock:
            mine = [e for e in server.log if e[0] != 'partial' and e[2] == p.id]
            problems = list(server.problems)
        ctx.check(not problems, 'request', "the server was sent something that is not a request: %s" % problems[:1])
        heads = [e for e in mine if e[0] == 'head']
        full = [e for e in mine if e[0] == 'request']
        for e in full:
            ctx.equal(e[3], p.method, 'request', "%s: method" % what)
            ctx.equal(e[4], p.body or b'', 'request', "%s: body" % what)
            m = e[6]
            for n, v in p.head:
                ctx.equal(wire.values(m['headers'], n), [v], 'request', "%s: header %r" % (what, n))
            ctx.equal(wire.values(m['headers'], b'host'), [b'127.0.0.1:%d' % server.port], 'request', "%s: Host" % what)
        if len(heads) > 1:
            ctx.count('retried')
        if p.method in ONCE:
            ctx.check(len(heads) <= 1, 'sent-twice', "%s: sent %d times" % (what, len(heads)))
            if p.faulty and heads:
                ctx.count('not resent')
        if r.status == 0:
            ctx.check(not must, 'lost', "%s: failed with %r (%d attempts seen by the server)" % (what, r.error, len(heads)))
            return
        ctx.check(bool(full), 'own-response', "%s: has status %d but the server never had it" % (what, r.status))
        ctx.equal(r.status, p.status, 'own-response', "%s: status" % what)
        rid = r.response.get_header('X-Id')
        ctx.equal(rid, b'%d' % p.id, 'own-response', "%s: response to" % what)
        k = int(r.response.get_header('X-Attempt'))
        want = b'' if p.method == 'HEAD' or p.status in (204, 304) else body_for(p.id, k, p.size)
        ctx.equal(self.got_body(p), want, 'own-response', "%s: body" % what)
        step = p.steps[min(k, len(p.steps) - 1)]
        ctx.check(step.kind in ('ok', 'spurious') or (step.kind == 'cut'), 'own-response', "%s: finished with attempt %d" % (what, k))


def run_threads(ctx, fns, limit=40):
    errors = []

    def call(f):
        try:
            f()
        except BaseException as e:
            errors.append(e)
    ts = [threading.Thread(target=call, args=(f,), daemon=True) for f in fns]
    for t in ts:
        t.start()
    end = time.time() + limit
    for t in ts:
        t.join(max(0.1, end - time.time()))
    ctx.count('threads', len(ts))
    if any(t.is_alive() for t in ts):
        ctx.fail('hang', "the client stops making progress", stacks=sched.stacks())
    for e in errors:
        raise e


def new_client(ctx, n=100, timeout=None):
    from pyslet.http import client
    c = client.Client(max_connections=n, timeout=timeout)
    ctx.cleanup(c.close)
    return c


def case_mix(ctx):
    """threads with several requests to several hosts"""
    rng = ctx.rng
    nhosts = rng.randrange(1, 3)
    nthreads = gen.pick(rng, (1, 1, 2, 4))
    faults = gen.pick(rng, (0, 0, 0.15, 0.3))
    pl = Player(ctx, nhosts, faults, silent=rng.random() < 0.3)
    tight = nthreads > 1 and rng.random() < 0.4
    c = new_client(ctx, nthreads - 1 if tight else 100, gen.pick(rng, (None, 30)))
    jobs = []
    for t in range(nthreads):
        rounds = []
        for i in range(rng.randrange(1, 4)):
            host = rng.randrange(nhosts) if tight else None
            rounds.append([pl.plan(host) for j in range(gen.pick(rng, (1, 2, 3, 6)))])
        jobs.append(rounds)
    ctx.witness(threads=nthreads, hosts=nhosts, tight=tight, requests=[[[(p.id, p.method, p.host, repr(p.steps)) for p in r] for r in rounds] for rounds in jobs])
    ctx.nontrivial([[[(p.id, p.method, p.host, p.status, p.size, repr(p.steps)[:200]) for p in r] for r in rounds] for rounds in jobs])
    peak = [0]

    def worker(rounds):
        def go():
            for r in rounds:
                for p in r:
                    c.queue_request(p.request)
                    peak[0] = max(peak[0], c.active_count())
                c.thread_loop(timeout=gen.pick(rng, (60, 1)))
                if c.thread_active_count():
                    ctx.fail('active', "thread_loop returns with %d active connections" % c.thread_active_count())
        return go
    with sched.Perturb(('pyslet/http/client.py',), rng.randrange(1 << 30)) if nthreads > 1 else Nothing():
        run_threads(ctx, [worker(rounds) for rounds in jobs])
    for rounds in jobs:
        for r in rounds:
            # a silent close or a fault may hit a neighbour on the same connection
            disturbed = {}
            for p in r:
                disturbed[p.host] = disturbed.get(p.host, 0) + p.faulty + (1 if p.maybe else 0)
            anyfault = any(p.faulty or p.maybe for rr in jobs for r2 in rr for p in r2)
            for p in r:
                must = p.method not in ONCE or not anyfault
                if anyfault and any(q.method in ONCE and q.host == p.host for q in r):
                    # requests queued behind one that may not be repeated
                    # may be abandoned with it
                    must = False
                if p.method in ONCE and p.faulty:
                    must = False
                pl.judge(p, must)
    if tight:
        ctx.check(peak[0] <= nthreads - 1, 'limit', "%d active connections, limit %d" % (peak[0], nthreads - 1))


class Nothing(object):

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def case_early(ctx):
    """final responses that arrive before the request has been sent"""
    rng = ctx.rng
    pl = Player(ctx)
    c = new_client(ctx, timeout=30)
    plans = []
    for i in range(rng.randrange(1, 4)):
        kind = gen.pick(rng, ('early', 'refuse', 'ok'))
        method = gen.pick(rng, ('PUT', 'POST'))
        if kind == 'ok':
            p = pl.plan(0)
        else:
            status = gen.pick(rng, (413, 404, 500)) if kind == 'early' else 417
            size = 20
            st = pl.step(size, status, kind=kind, close='header', framing='cl', hold=False, frag=None, interim=())
            p = pl.plan(0, method, [st])
            p.status = status
            p.size = size
            big = gen.pick(rng, (3000, 400000, 3000000))
            p.body = (b'[%d]' % p.id) * (big // 4)
            from pyslet.http import client
            p.request = make_request('http://127.0.0.1:%d/r/%d' % (pl.hosts[0].port, p.id), None, pl.lock,
                                     method=method, entity_body=p.body, max_retries=3, min_retry_time=0.001)
            p.sink = None
            p.head = []
            if kind == 'refuse':
                p.request.set_expect_continue()
            ctx.count('faults')
        p.early = kind
        plans.append(p)
    ctx.witness(requests=[(p.id, p.method, p.early, len(p.body or b'')) for p in plans])
    ctx.nontrivial([(p.id, p.method, p.early, len(p.body or b''), p.size, repr(p.steps)[:200]) for p in plans])
    together = rng.random() < 0.4

    def go():
        for p in plans:
            c.queue_request(p.request)
            if not together:
                c.thread_loop()
        c.thread_loop()
    run_threads(ctx, [go])
    for p in plans:
        r = p.request
        if p.early == 'ok':
            pl.judge(p, must=p.method not in ONCE)
            continue
        ctx.equal(r.nfinished - r.nresent, 1, 'finishes-once', "%s %d: finished" % (p.method, p.id))
        ctx.count('finished')
        with pl.hosts[0].lock:
            heads = [e for e in pl.hosts[0].log if e[0] == 'head' and e[2] == p.id]
            problems = list(pl.hosts[0].problems)
        ctx.check(not problems, 'request', "the server was sent something that is not a request: %s" % problems[:1])
        if p.method in ONCE:
            ctx.check(len(heads) <= 1, 'sent-twice', "POST sent %d times" % len(heads))
            ctx.count('not resent')
        if p.early == 'refuse':
            ctx.equal(r.status, 417, 'early', "%s %d refused with 417: error %r" % (p.method, p.id, r.error))
            ctx.equal(r.res_body, b'NO', 'early', "body of the refusal")
        elif r.status:
            ctx.equal(r.status, p.status, 'early', "status")
            ctx.equal(r.response.get_header('X-Id'), b'%d' % p.id, 'own-response', "response to")


def case_spurious(ctx):
    """data nobody asked for is not taken for the next response"""
    rng = ctx.rng
    pl = Player(ctx)
    c = new_client(ctx, timeout=30)
    plans = []
    for i in range(rng.randrange(2, 5)):
        p = pl.plan(0, gen.pick(rng, ('GET', 'PUT', 'HEAD')))
        if rng.random() < 0.5:
            st = pl.step(p.size, p.status, kind='spurious', hold=False, framing='cl', frag=None, interim=())
            pl.script[p.id] = p.steps = [st]
            ctx.count('faults')
        plans.append(p)
    ctx.witness(requests=[(p.id, p.method, repr(p.steps)) for p in plans])
    ctx.nontrivial([(p.id, p.method, p.size, repr(p.steps)[:200]) for p in plans])

    def go():
        for p in plans:
            # alone on the connection: nothing else is outstanding
            c.queue_request(p.request)
            c.thread_loop()
            if rng.random() < 0.5:
                time.sleep(0.005)
    run_threads(ctx, [go])
    for p in plans:
        pl.judge(p, must=True)


def case_unsendable(ctx):
    """requests that cannot be sent fail alone"""
    rng = ctx.rng
    pl = Player(ctx)
    c = new_client(ctx, timeout=30)
    plans = []
    for i in range(rng.randrange(1, 5)):
        kind = gen.pick(rng, ('ok', 'getbody', 'short', 'noconnect', 'raises'))
        p = pl.plan(0, gen.pick(rng, ('GET', 'HEAD', 'PUT')) if kind == 'ok' else 'GET')
        p.bad = kind
        if kind != 'ok':
            ctx.count('faults')
            url = 'http://127.0.0.1:%d/r/%d' % (pl.hosts[0].port, p.id)
            kw = dict(max_retries=1, min_retry_time=0.001)
            if kind == 'getbody':
                p.request = make_request(url, None, pl.lock, method='GET', entity_body=b'not allowed', **kw)
            elif kind == 'short':
                p.request = make_request(url, None, pl.lock, method=gen.pick(rng, ('PUT', 'POST')), entity_body=io.BytesIO(b'x' * 10), **kw)
                p.request.set_content_length(20)
            elif kind == 'raises':
                class Src(io.BytesIO):
                    def read(self, n=-1):
                        raise IOError("disk error")
                p.request = make_request(url, None, pl.lock, method=gen.pick(rng, ('PUT', 'POST')), entity_body=Src(b'x' * 10), **kw)
                p.request.set_content_length(20)
            else:
                import socket
                s = socket.socket()
                s.bind(('127.0.0.1', 0))
                port = s.getsockname()[1]
                s.close()
                p.request = make_request('http://127.0.0.1:%d/x' % port, None, pl.lock, method=gen.pick(rng, ('GET', 'POST')),
                                         entity_body=None, **kw)
        plans.append(p)
    ctx.witness(requests=[(p.id, p.method, p.bad) for p in plans])
    ctx.nontrivial([(p.id, p.method, p.bad, p.size, repr(p.steps)[:200]) for p in plans])
    together = rng.random() < 0.5

    def go():
        for p in plans:
            c.queue_request(p.request)
            if not together:
                c.thread_loop()
        c.thread_loop()
    run_threads(ctx, [go])
    for p in plans:
        if p.bad == 'ok':
            pl.judge(p, must=True)
        else:
            r = p.request
            ctx.equal(r.nfinished, 1, 'finishes-once', "%s: finished" % p.bad)
            ctx.equal(r.status, 0, 'unsendable', "%s: status" % p.bad)
            ctx.check(r.error is not None, 'unsendable', "%s: no error recorded" % p.bad)
            ctx.count('finished')


def case_close(ctx):
    """closing or cleaning up the client while it is busy"""
    rng = ctx.rng
    from pyslet.http import client
    pl = Player(ctx)
    c = new_client(ctx, timeout=gen.pick(rng, (None, 30)))
    how = gen.pick(rng, ('close', 'close', 'active', 'idle'))
    nthreads = gen.pick(rng, (1, 2, 3))
    jobs = []
    for t in range(nthreads):
        plans = [pl.plan(0, gen.pick(rng, ('GET', 'PUT', 'POST'))) for i in range(rng.randrange(1, 4))]
        if rng.random() < 0.5 and how != 'idle':
            p = gen.pick(rng, plans)
            p.stall = True
            pl.script[p.id] = p.steps = [pl.step(10, 200, kind='stall')]
            ctx.count('faults')
        jobs.append(plans)
    ctx.witness(how=how, requests=[[(p.id, p.method, repr(p.steps)) for p in plans] for plans in jobs])
    ctx.nontrivial([how] + [[(p.id, p.method, p.size, repr(p.steps)[:200]) for p in plans] for plans in jobs])
    refused = []
    done = threading.Event()
    left = [nthreads]

    def worker(plans):
        def go():
            try:
                for p in plans:
                    p.queued = False
                    try:
                        c.queue_request(p.request)
                        p.queued = True
                    except client.ConnectionClosed:
                        refused.append(p.id)
                c.thread_loop()
            finally:
                with pl.lock:
                    left[0] -= 1
        return go

    def closer():
        time.sleep(rng.random() * 0.05)
        if how == 'close':
            c.close()
            return
        while left[0]:
            if how == 'active':
                time.sleep(0.05)
                c.active_cleanup(0.02)
            else:
                c.idle_cleanup(0)
                time.sleep(0.002)
    run_threads(ctx, [worker(p) for p in jobs] + [closer])
    for plans in jobs:
        for p in plans:
            r = p.request
            ctx.check(r.nfinished <= 1, 'finishes-once', "finished %d times" % r.nfinished)
            if r.nfinished and r.status:
                pl.judge(p, must=False)
            if how == 'idle':
                pl.judge(p, must=True if p.method not in ONCE else not any(q.maybe for pp in jobs for q in pp))
            if p.method in ONCE:
                with pl.hosts[0].lock:
                    n = len([e for e in pl.hosts[0].log if e[0] == 'head' and e[2] == p.id])
                ctx.check(n <= 1, 'sent-twice', "POST sent %d times" % n)
    if how == 'close':
        p = pl.plan(0, 'GET')
        ctx.raises(client.ConnectionClosed, lambda: c.queue_request(p.request), 'closed', "queue_request after close")
        ctx.equal(c.active_count(), 0, 'closed', "active connections after close")


def case_redirect(ctx):
    rng = ctx.rng
    pl = Player(ctx, 2)
    c = new_client(ctx, timeout=30)
    target = pl.plan(None, 'GET')
    chain = []
    nxt = target
    method = gen.pick(rng, ('GET', 'GET', 'GET', 'HEAD', 'POST'))
    status = gen.pick(rng, (301, 302, 303, 307))
    for i in range(rng.randrange(1, 4)):
        p = pl.plan(None, method)
        code = status if method == 'POST' else gen.pick(rng, (301, 302, 303, 307))
        if p.host == nxt.host and rng.random() < 0.5:
            loc = b'/r/%d' % nxt.id
        else:
            loc = b'http://127.0.0.1:%d/r/%d' % (pl.hosts[nxt.host].port, nxt.id)
        p.steps[:] = [pl.step(p.size, code, headers=[b'Location: ' + loc])]
        p.status = code
        chain.append(p)
        nxt = p
    first = chain[-1]
    loop = method != 'POST' and rng.random() < 0.1
    if loop:
        last = chain[0]
        last.steps[:] = [pl.step(last.size, last.status, headers=[b'Location: http://127.0.0.1:%d/r/%d' % (pl.hosts[first.host].port, first.id)])]

    ctx.witness(method=method, chain=[(p.id, p.host, repr(p.steps)) for p in chain])
    ctx.nontrivial((method, [(p.id, p.host, p.status, p.size) for p in chain], target.status))
    run_threads(ctx, [lambda: c.process_request(first.request)])
    r = first.request
    ctx.equal(r.nfinished - r.nresent, 1, 'finishes-once', "redirected request finished")
    ctx.count('finished')
    ids = []
    for h in pl.hosts:
        with h.lock:
            ids += [(e[2], e[3], e[4]) for e in h.log if e[0] == 'request']
    if method == 'POST':
        posts = [i for i in ids if i[1] == 'POST']
        ctx.equal(len(posts), 1, 'sent-twice', "POST answered by %d sent" % status)
        if status != 303:
            ctx.equal(r.status, status, 'redirect', "status of a POST answered by %d" % status)
    elif not loop:
        ctx.equal(sorted(i[0] for i in ids), sorted([p.id for p in chain] + [target.id]), 'redirect', "requests made")
        ctx.equal([i[1] for i in ids], [method] * len(ids), 'redirect', "methods used")
        ctx.equal(r.status, target.status, 'redirect', "final status (error %r)" % r.error)
        ctx.equal(r.response.get_header('X-Id'), b'%d' % target.id, 'own-response', "final response to")
        want = b'' if method == 'HEAD' or target.status == 204 else body_for(target.id, 0, target.size)
        ctx.equal(pl.got_body(first), want, 'own-response', "final body")
        for h in pl.hosts:
            with h.lock:
                for e in h.log:
                    if e[0] == 'request':
                        ctx.equal(wire.values(e[6]['headers'], b'host'), [b'127.0.0.1:%d' % h.port], 'redirect', "Host of a redirected request")
    if loop:
        ctx.check(300 <= r.status < 400, 'redirect', "status of an endless redirect: %d" % r.status)


def case_odd(ctx):
    """responses that ask for a follow up which is impossible"""
    rng = ctx.rng
    pl = Player(ctx)
    c = new_client(ctx, timeout=30)
    plans = []
    for i in range(rng.randrange(1, 4)):
        p = pl.plan(0, gen.pick(rng, ('GET', 'HEAD', 'PUT', 'POST', 'DELETE')))
        if rng.random() < 0.5:
            status = 401
            h = gen.pick(rng, ([], [b'WWW-Authenticate: Basic realm="x"'], [b'WWW-Authenticate: ='], [b'WWW-Authenticate: '],
                               [b'WWW-Authenticate: Digest realm="x", nonce="y"'], [b'WWW-Authenticate: Basic'],
                               [b'WWW-Authenticate: Negotiate, Basic realm="x"']))
        else:
            status = gen.pick(rng, (300, 301, 302, 303, 304, 305, 307, 399))
            h = gen.pick(rng, ([], [b'Location: '], [b'Location: http://%zz/'], [b'Location: mailto:a@b'], [b'Location: ftp://127.0.0.1/x'],
                               [b'Location: a b'], [b'Location: \x80'], [b'Location: urn:a:b'], [b'Location: http://'], [b'Location: http://u:p@127.0.0.1/'],
                               [b'Location: http://127.0.0.1:99999/']))
        p.size = 0 if status == 304 else p.size
        p.steps[:] = [pl.step(p.size, status, headers=h)]
        p.status = status
        p.location = h
        plans.append(p)
        ctx.count('odd responses')
    ctx.witness(requests=[(p.id, p.method, p.location, repr(p.steps)) for p in plans])
    ctx.nontrivial([(p.id, p.method, p.size, p.location, repr(p.steps)[:100]) for p in plans])

    def go():
        for p in plans:
            c.queue_request(p.request)
        c.thread_loop()
    run_threads(ctx, [go])
    for p in plans:
        if p.location and (p.location[0][9:] in (b' ', b' a b', b' \x80') or b'99999' in p.location[0]):
            # may be taken for something that can be followed
            ctx.equal(p.request.nfinished - p.request.nresent, 1, 'finishes-once', "%s: finished" % p.location)
            continue
        pl.judge(p)


WORKLOADS = [
    Workload('mix', case_mix, 400, 4000, cpu=60, wall=120),
    Workload('early', case_early, 80, 600, cpu=60, wall=120),
    Workload('spurious', case_spurious, 100, 800, cpu=60, wall=120),
    Workload('unsendable', case_unsendable, 100, 800, cpu=60, wall=120),
    Workload('close', case_close, 100, 800, cpu=60, wall=120),
    Workload('redirect', case_redirect, 120, 900, cpu=60, wall=120),
    Workload('odd', case_odd, 120, 900, cpu=60, wall=120),
]
