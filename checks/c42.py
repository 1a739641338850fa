"""C42: application ciphers - key changes, encryption and signatures.

Oracle: the list of everything encrypted and signed so far and of the key
that was current at the time, kept by the harness."""

import threading
import time
from hashlib import sha256

from lib.harness import Workload
from lib import gen

META = dict(
    id="C42", title="Application secrets survive key changes and signatures resist tampering",
    statement="Whatever the history of key changes, restarts and processes sharing the key set, everything encrypted or signed under the last MAX_AGE keys decrypts and verifies to the original bytes, in a process that was started with nothing but the current key; until a change takes effect the old key is used.  A key older than that, an unknown key or altered data raises RuntimeError or ValueError, and check_signature never returns a message that was not signed, nor one different from the message being checked.",
    quantifier=dict(over=["histories", "inputs", "schedules"], text="all histories of key changes and alterations of the data"),
    why_tests_cant="tests change the key three times in one process and alter one byte",
    anchors=dict(files=["pyslet/wsgi.py"],
                 mechanism=[dict(name="AppCipher", where="pyslet/wsgi.py"),
                            dict(name="AppCipher.check_signature", where="pyslet/wsgi.py")],
                 observe_at=["AppCipher methods", "key entity set"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: histories of several processes' ciphers over one key set, every result compared online with the recorded plain text; adversarial mutation of the signed strings"
LEVEL_NOTE = "Held on the histories observed."
RULE = "each case is a history; distinct by its operations"
MODULES = ["pyslet/wsgi.py"]
REQUIRE = {"changes": 200, "restarts": 150, "decrypted": 2000, "verified": 1500, "refused": 4000, "too-old": 10, "pending": 30, "thread-ops": 800}

SCHEMA = """<edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
 xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
 <edmx:DataServices m:DataServiceVersion="2.0">
  <Schema Namespace="K" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
   <EntityContainer Name="DB" m:IsDefaultEntityContainer="true"><EntitySet Name="AppKeys" EntityType="K.AppKey"/></EntityContainer>
   <EntityType Name="AppKey"><Key><PropertyRef Name="KeyNum"/></Key>
    <Property Name="KeyNum" Nullable="false" Type="Edm.Int32"/>
    <Property Name="KeyString" Nullable="false" Type="Edm.String" MaxLength="256" Unicode="false"/>
    <Property Name="Expires" Nullable="false" Type="Edm.DateTime" Precision="0"/></EntityType>
  </Schema></edmx:DataServices></edmx:Edmx>"""


def key_set(ctx, sql):
    from pyslet.odata2 import metadata as edmx
    if sql == 'wsgi':
        from pyslet import wsgi
        doc = wsgi.SessionApp.load_default_metadata()
        cont = doc.root.DataServices["WSGISchema.WSGIDatabase"]
    else:
        doc = edmx.Document()
        doc.read(src=SCHEMA)
        cont = doc.root.DataServices["K.DB"]
    if sql:
        from pyslet.odata2 import sqlds
        c = sqlds.SQLiteEntityContainer(file_path=":memory:", container=cont)
        c.create_all_tables()
        ctx.cleanup(c.close)
    else:
        from pyslet.odata2 import memds
        memds.InMemoryEntityContainer(cont)
    ctx.keep = doc
    return cont['AppKeys']


def cipher_class(keyed, max_age=None):
    from pyslet import wsgi
    if not keyed and max_age is None:
        return wsgi.AppCipher

    class Stream(object):
        """A cipher whose output depends on the key"""

        def __init__(self, key):
            self.key = key

        def _stream(self, salt, n):
            out = b''
            i = 0
            while len(out) < n:
                out += sha256(self.key + salt + str(i).encode()).digest()
                i += 1
            return out[:n]

        def encrypt(self, data):
            import os
            salt = os.urandom(4)
            return salt + bytes(a ^ b for a, b in zip(data, self._stream(salt, len(data))))

        def decrypt(self, data):
            salt, data = data[:4], data[4:]
            return bytes(a ^ b for a, b in zip(data, self._stream(salt, len(data))))

        def hash(self, data):
            return sha256(data + self.key).digest()

    class Cipher(wsgi.AppCipher):
        if max_age is not None:
            MAX_AGE = max_age

        if keyed:
            def new_cipher(self, key):
                return Stream(key)

    return Cipher


def point(t):
    from pyslet import iso8601 as iso
    return iso.TimePoint.from_unix_time(t)


def message(rng):
    r = rng.random()
    if r < 0.08:
        return b''
    if r < 0.3:
        return gen.pick(rng, [b'Hello', b'a-b-c', b'0', b'00', b'100%', b'%41', b'Hello Caf\xc3\xa9', b' ', b'\x00', b'1-abcd-', b'x:y'])
    return bytes(rng.randrange(256) for i in range(rng.randint(1, 40)))


class Model(object):

    def __init__(self, ctx, sql, keyed, max_age):
        rng = ctx.rng
        self.ctx = ctx
        self.es = key_set(ctx, sql)
        self.cls = cipher_class(keyed, max_age)
        self.max_age = max_age or 100
        self.nums = [rng.choice((0, 0, 1, 7, 1000))]
        self.keys = [self.newkey()]
        self.when = None
        self.procs = [self.start() for i in range(rng.randint(1, 3))]
        # (text, data, index of the key)
        self.secrets = []
        self.signed = []

    def newkey(self):
        rng = self.ctx.rng
        return bytes(rng.randrange(256) for i in range(rng.randint(1, 30))) if rng.random() < 0.8 else b'secret%d' % len(self.ctx.__dict__)

    def start(self):
        # whatever the time, the configuration is the newest key
        when = None
        if self.when is not None:
            while self.when - 0.3 < time.time() < self.when + 0.1:
                time.sleep(0.05)
            if time.time() < self.when:
                when = point(self.when)
        self.ctx.count("restarts")
        return self.cls(self.nums[-1], self.keys[-1], self.es, when)

    def current(self):
        """indexes of the keys that may be used right now"""
        last = len(self.keys) - 1
        if self.when is None or time.time() > self.when + 0.1:
            return (last, )
        if time.time() < self.when - 0.1:
            return (last - 1, )
        return (last - 1, last)

    def reachable(self, i):
        return len(self.keys) - 1 - i <= self.max_age

    def change(self, delay):
        rng = self.ctx.rng
        while True:
            num = rng.choice((self.nums[-1] + 1, rng.randrange(2000), rng.randrange(2 ** 31)))
            if num not in self.nums:
                break
        key = self.newkey()
        now = time.time()
        when = int(now) + 1 + delay if delay >= 0 else now - rng.choice((1, 1.5, 3600))
        p = rng.choice(self.procs)
        p.change_key(num, key, point(when))
        self.nums.append(num)
        self.keys.append(key)
        self.when = when if delay >= 0 else None
        self.ctx.count("changes")
        self.procs = [p if q is p else self.start() for q in self.procs]

    def encrypt(self):
        rng = self.ctx.rng
        m = message(rng)
        p = rng.choice(self.procs)
        before = self.current()
        s = p.encrypt(m)
        after = self.current()
        self.used(int(s.split(':')[0]), before + after, "encrypt-key", s)
        self.ctx.check(type(s) is str and s.isascii(), "encrypt-type", "encrypt returned %r" % (s,))
        self.secrets.append((s, m, self.nums.index(int(s.split(':')[0]))))

    def used(self, num, ixs, key, s):
        self.ctx.check(num in [self.nums[i] for i in ixs], key, "%s uses key %d of %s, expected one of %s" % (s, num, self.nums, [self.nums[i] for i in ixs]))

    def sign(self):
        rng = self.ctx.rng
        m = message(rng)
        p = rng.choice(self.procs)
        full = rng.random() < 0.5
        before = self.current()
        s = p.ascii_sign(m) if full else p.sign(m)
        after = self.current()
        self.used(int(s.split('-')[0]), before + after, "sign-key", s)
        self.ctx.check(type(s) is str and s.isascii(), "sign-type", "sign returned %r" % (s,))
        self.signed.append((s, m, self.nums.index(int(s.split('-')[0])), full))

    def verify(self, procs=None):
        ctx = self.ctx
        rng = ctx.rng
        p = rng.choice(procs or self.procs)
        fresh = p in (procs or ())
        if self.secrets:
            s, m, i = rng.choice(self.secrets)
            self.decrypt(p, s, m, i, fresh)
        if self.signed:
            s, m, i, full = rng.choice(self.signed)
            self.check_sig(p, s, m, i, full, fresh)

    def decrypt(self, p, s, m, i, fresh):
        ctx = self.ctx
        if self.reachable(i):
            try:
                got = p.decrypt(s)
            except (RuntimeError, ValueError) as e:
                ctx.fail("decrypt-lost", "%s encrypted %d key changes ago can't be decrypted in %s process: %r" % (s, len(self.keys) - 1 - i, "a fresh" if fresh else "the", e))
            ctx.equal(got, m, "decrypted", "%s decrypts to" % s)
            ctx.count("decrypted")
        elif fresh and self.when is None:
            p = self.start()
            ctx.raises(RuntimeError, lambda: p.decrypt(s), "decrypt-too-old", "decrypt after %d changes" % (len(self.keys) - 1 - i))
            ctx.count("too-old")

    def check_sig(self, p, s, m, i, full, fresh):
        ctx = self.ctx
        how = (lambda: p.check_signature(s)) if full and ctx.rng.random() < 0.5 else (lambda: p.check_signature(s, m))
        if self.reachable(i):
            try:
                got = how()
            except (RuntimeError, ValueError) as e:
                ctx.fail("verify-lost", "%s (of %r) signed %d key changes ago does not verify: %r" % (s, m, len(self.keys) - 1 - i, e))
            ctx.equal(got, m, "verified", "check_signature returned")
            ctx.count("verified")
        elif fresh and self.when is None:
            p = self.start()
            ctx.raises((ValueError, RuntimeError), how, "verify-too-old", "check_signature after %d changes" % (len(self.keys) - 1 - i))
            ctx.count("too-old")


def alter(rng, s, seps):
    """A string that differs from s"""
    while True:
        r = rng.random()
        i = rng.randrange(len(s))
        if r < 0.3:
            c = gen.pick(rng, "0123456789abcdefABCDEF-:%=+/ \u00e9\u0663\x00zZ_")
            t = s[:i] + c + s[i + 1:]
        elif r < 0.4:
            t = s[:i] + s[i + 1:]
        elif r < 0.5:
            t = s[:i] + gen.pick(rng, "0123456789abcdef-:%=") + s[i:]
        elif r < 0.55:
            t = s[:i]
        elif r < 0.6:
            t = s + gen.pick(rng, ["0", "%00", "-", "%", "=", "é", "A", " ", "\n"])
        elif r < 0.65:
            t = s[i:]
        elif r < 0.75:
            # fields moved
            f = s.split(seps)
            rng.shuffle(f)
            t = seps.join(f)
        elif r < 0.85:
            f = s.split(seps)
            k = rng.randrange(len(f))
            f[k] = gen.pick(rng, ['', '0', '-1', '1', '7', '99999999999999999999', '00', 'zz', '%30', f[k] + f[k], f[rng.randrange(len(f))]])
            t = seps.join(f)
        elif r < 0.95:
            f = s.split(seps)
            if len(f) < 2:
                continue
            # a byte moves over the separator
            k = rng.randrange(len(f) - 1)
            n = rng.randint(1, 3)
            if rng.random() < 0.5:
                f[k], f[k + 1] = f[k][:-n], f[k][-n:] + f[k + 1]
            else:
                f[k], f[k + 1] = f[k] + f[k + 1][:n], f[k + 1][n:]
            t = seps.join(f)
        else:
            t = s.swapcase()
        if t != s:
            return t


def case_history(ctx):
    rng = ctx.rng
    sql = rng.choice((None, None, 'sql', 'wsgi'))
    keyed = rng.random() < 0.5
    max_age = rng.choice((None, None, 1, 2, 3))
    m = Model(ctx, sql, keyed, max_age)
    ops = []
    ctx.witness(sql=sql, keyed=keyed, max_age=max_age, ops=ops, nums=m.nums)
    for i in range(rng.randint(8, 30)):
        op = rng.choice(('encrypt', 'encrypt', 'sign', 'sign', 'verify', 'verify', 'verify', 'change', 'restart', 'fresh'))
        ops.append(op)
        if op == 'change':
            if m.when is not None and time.time() < m.when + 0.2:
                # one change at a time
                continue
            pending = rng.random() < 0.15
            m.change(rng.choice((100, 3600)) if pending else -1)
            if pending:
                ctx.count("pending")
                ops.append('pending')
        elif op == 'encrypt':
            m.encrypt()
        elif op == 'sign':
            m.sign()
        elif op == 'verify':
            m.verify()
        elif op == 'restart':
            m.procs[rng.randrange(len(m.procs))] = m.start()
        else:
            p = m.start()
            for j in range(3):
                m.verify([p])
    # everything in a process that only knows the newest key
    p = m.start()
    for s, d, i in m.secrets:
        m.decrypt(p if rng.random() < 0.5 else m.start(), s, d, i, False)
    for s, d, i, full in m.signed:
        m.check_sig(p if rng.random() < 0.5 else m.start(), s, d, i, full, False)
    ctx.nontrivial(tuple(m.nums) + tuple(ops))


def case_takeover(ctx):
    """A change that takes effect while everything is running"""
    rng = ctx.rng
    m = Model(ctx, rng.choice((None, 'sql', 'wsgi')), rng.random() < 0.5, None)
    for i in range(rng.randint(0, 3)):
        m.change(-1)
        m.encrypt()
        m.sign()
    m.change(0)
    ctx.witness(nums=m.nums, when=m.when)
    for i in range(3):
        m.encrypt()
        m.sign()
        m.verify()
    ctx.count("pending")
    while time.time() < m.when + 0.15:
        m.encrypt()
        m.sign()
        time.sleep(0.1)
        m.procs[rng.randrange(len(m.procs))] = m.start()
    for i in range(4):
        m.encrypt()
        m.sign()
        m.verify()
    if rng.random() < 0.5:
        m.change(-1)
    p = m.start()
    for s, d, i in m.secrets:
        m.decrypt(p, s, d, i, False)
    for s, d, i, full in m.signed:
        m.check_sig(p, s, d, i, full, False)
    ctx.nontrivial((tuple(m.nums), m.when))


def case_tamper(ctx):
    rng = ctx.rng
    m = Model(ctx, rng.choice((None, None, 'sql')), rng.random() < 0.5, None)
    for i in range(rng.randint(0, 3)):
        for j in range(2):
            m.encrypt()
            m.sign()
        m.change(-1)
    for j in range(3):
        m.encrypt()
        m.sign()
    p = m.start()
    known = {}
    for s, d, i, full in m.signed:
        known.setdefault(d, s)
    for n in range(60):
        s, d, i, full = rng.choice(m.signed)
        if rng.random() < 0.25:
            # the right signature of something else
            other = message(rng)
            if other == d:
                continue
            ctx.witness(signature=s, signed=d, given=other)
            ctx.raises(ValueError, lambda: p.check_signature(s, other), "other-message", "check_signature(%r, %r) of a signature of %r" % (s, other, d))
            ctx.count("refused")
            continue
        t = alter(rng, s, '-')
        if rng.random() < 0.1:
            # a signature made for one message in front of another
            s2 = rng.choice(m.signed)[0]
            t = '-'.join(s.split('-', 3)[:3] + s2.split('-', 3)[3:])
        given = rng.choice((None, None, d, message(rng)))
        ctx.witness(signature=s, signed=d, altered=t, given=given)
        try:
            got = p.check_signature(t) if given is None else p.check_signature(t, given)
        except ValueError:
            ctx.count("refused")
            continue
        except UnicodeError:
            ctx.count("refused")
            continue
        ctx.check(type(got) is bytes and got == d and (given is None or got == given), "forged",
                  "%r altered to %r verifies as %r (was a signature of %r, message given %r)" % (s, t, got, d, given))
        ctx.count("same-message")
    for n in range(30):
        s, d, i = rng.choice(m.secrets)
        t = alter(rng, s, ':')
        ctx.witness(encrypted=s, altered=t)
        try:
            got = p.decrypt(t)
        except (ValueError, RuntimeError):
            ctx.count("refused")
            continue
        ctx.check(type(got) is bytes, "decrypt-type", "decrypt(%r) returned %r" % (t, got))
    ctx.nontrivial(tuple(s for s, d, i, full in m.signed))


def case_threads(ctx):
    """Threads use one cipher while its key is being changed"""
    from lib.sched import Perturb, Crew
    import random
    rng = ctx.rng
    m = Model(ctx, None, rng.random() < 0.5, None)
    p = m.procs[0]
    m.procs = [p]
    out = []
    n = [0]
    seeds = [rng.random() for i in range(4)]
    stop = threading.Event()

    def user(k):
        r = random.Random(seeds[k])
        mine = []
        for j in range(12):
            d = message(r)
            if r.random() < 0.5:
                s = p.encrypt(d)
                mine.append(('e', s, d))
            else:
                s = p.ascii_sign(d)
                mine.append(('s', s, d))
            kind, s, d = r.choice(mine)
            got = p.decrypt(s) if kind == 'e' else p.check_signature(s)
            if got != d:
                raise AssertionError("%s gives %r instead of %r" % (s, got, d))
            n[0] += 1
        out.extend(mine)

    changes = []

    def changer():
        r = random.Random(seeds[0] + 1)
        num = m.nums[0]
        for j in range(4):
            num += 1
            key = b'key%d' % num
            p.change_key(num, key, point(time.time() - 1))
            changes.append((num, key))
            time.sleep(r.random() * 0.005)
            n[0] += 1

    crew = Crew()
    for k in range(3):
        crew.add("user%d" % k, user, k)
    crew.add("changer", changer)
    ctx.witness(seeds=seeds)
    with Perturb(('pyslet/wsgi.py', ), rng.random(), prob=rng.choice((0.02, 0.1))):
        crew.start()
        done = crew.join(lambda: n[0])
    ctx.check(done is not False, "threads-stuck", "threads using one cipher are stuck")
    for name, e, tb in crew.errors:
        ctx.fail("threads-error", "%s: %r\n%s" % (name, e, tb[-1500:]))
    num, key = changes[-1]
    q = m.cls(num, key, m.es)
    for kind, s, d in out:
        try:
            got = q.decrypt(s) if kind == 'e' else q.check_signature(s)
        except (ValueError, RuntimeError) as e:
            ctx.fail("threads-lost", "%s made while the key was changed can't be read: %r" % (s, e))
        ctx.equal(got, d, "threads-data", "%s gives" % s)
        ctx.count("thread-ops")
    ctx.nontrivial(tuple(seeds))


WORKLOADS = [
    Workload("history", case_history, 240, 2000),
    Workload("takeover", case_takeover, 24, 160),
    Workload("tamper", case_tamper, 90, 1500),
    Workload("threads", case_threads, 24, 200, blocked=True),
]
