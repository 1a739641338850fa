"""C44: LTI tool provider - launches, entities, visits.

Oracle: an independent OAuth 1.0 signer and a model of the consumers,
contexts, resources, users and visits."""

import base64
import hashlib
import hmac
import io
import json
import time
from urllib.parse import quote, quote_plus, urlsplit, unquote

from lib.harness import Workload
from lib import gen

META = dict(
    id="C44", title="LTI launches are authenticated and cannot be replayed",
    statement="A launch is accepted exactly when its parameters are covered by a signature with the consumer's current secret for the launch URL, its timestamp is fresh and its nonce was not used by that consumer in the last 90 minutes, also when launches race; everything else is refused with 403 (400 for a signed request that is no launch) and records nothing.  After any history of launches each consumer has one context, resource and user per id with the latest details, resources never change context, and a browser session can open exactly the resources of its most recent launches with the user and permissions of that launch, also after its id changed or sessions were merged.",
    quantifier=dict(over=["histories", "inputs", "schedules"], text="all histories of launches of several consumers in several browsers, all alterations of a launch"),
    why_tests_cant="tests use one recorded launch and never run the launch page",
    anchors=dict(files=["pyslet/imsbltiv1p0.py"],
                 mechanism=[dict(name="ToolProvider.launch", where="pyslet/imsbltiv1p0.py"),
                            dict(name="ToolProvider.validate_timestamp_and_nonce", where="pyslet/imsbltiv1p0.py"),
                            dict(name="ToolConsumer", where="pyslet/imsbltiv1p0.py"),
                            dict(name="ToolProviderApp", where="pyslet/imsbltiv1p0.py")],
                 observe_at=["WSGI responses", "the entity sets of the tool"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated histories of signed, altered and replayed launches against a running tool application, responses and stored entities compared online with a model"
LEVEL_NOTE = "Held on the launches observed."
RULE = "each case is a history of launches; distinct by its steps"
MODULES = ["pyslet/imsbltiv1p0.py", "pyslet/wsgi.py"]
REQUIRE = {"launched": 400, "refused": 600, "opened": 500, "not-opened": 200, "replayed":  70, "entities": 500, "merges": 15, "races": 40, "consumers": 100}

FORM = 'application/x-www-form-urlencoded'


def q(s):
    return quote(s, safe='-._~')


def sign(method, url, params, secret):
    base = '&'.join((method, q(url), q('&'.join('%s=%s' % p for p in sorted((q(k), q(v)) for k, v in params)))))
    return base64.b64encode(hmac.new((q(secret) + '&').encode('ascii'), base.encode('ascii'), hashlib.sha1).digest()).decode('ascii')


def encode(params, rng=None):
    f = quote_plus if rng is None or rng.random() < 0.5 else q
    return '&'.join('%s=%s' % (f(k), f(v)) for k, v in params)


def new_params(rng, key, **kw):
    p = dict(oauth_consumer_key=key, oauth_nonce='%032x' % rng.getrandbits(128), oauth_timestamp=str(int(time.time()) - rng.choice((0, 0, 5, 300))),
             oauth_signature_method='HMAC-SHA1', oauth_version='1.0', lti_message_type='basic-lti-launch-request', lti_version='LTI-1p0')
    p.update(kw)
    return [(k, v) for k, v in p.items() if v is not None]


def add_consumer(silo, cipher, key, secret, handle=None):
    from pyslet import imsbltiv1p0 as lti
    with silo['Consumers'].open() as c:
        consumer = lti.ToolConsumer.new_from_values(c.new_entity(), cipher, handle or ('handle ' + key), key=key, secret=secret)
        c.insert_entity(consumer.entity)
    return consumer


def new_silo(container, name):
    from pyslet import wsgi
    with container['Silos'].open() as c:
        silo = c.new_entity()
        silo['ID'].set_from_value(wsgi.key60(name.encode()))
        silo['Slug'].set_from_value(name)
        c.insert_entity(silo)
    return silo


def text(rng, n=20):
    return gen.pick(rng, ["Weekly Blog", "a & b = c", "Caf\u00e9 \u4e2d", "x+y%20", "<b>'\"", " two  spaces ", "n"]) if rng.random() < 0.7 else (gen.text(rng, n, "abcXYZ 0123-_.~\u00e9\u4e2d&=%+'\"<>/;,") or 'x')


def secret_text(rng):
    return gen.pick(rng, ["secret", "Secret", "s&cr%t=", "p\u00e4ss", "x y", "a" * 60]) + str(rng.randrange(100))


KEYS = ["12345", "www.example.com", "lms-prod", "key with space", "Schl\u00fcssel", "a&b=c/%~"]


class Tool(object):

    def __init__(self, ctx):
        from pyslet import imsbltiv1p0 as lti
        import optparse
        rng = ctx.rng
        self.ctx = ctx

        class App(lti.ToolProviderApp):
            private_files = ctx.tmpdir()

            def resource_page(self, context):
                return self.session_wrapper(context, self.show)

            def show(self, context):
                self.load_visit(context)
                val = lambda e, *names: None if e is None else [e[n].value for n in names]
                data = [context.permissions, context.consumer.key, context.consumer.secret,
                        val(context.resource, 'LinkID', 'Title', 'Description'),
                        val(context.user, 'UserID', 'GivenName', 'FamilyName', 'FullName', 'Email'),
                        val(context.group, 'ContextID', 'Title', 'Label', 'Types'),
                        self.get_user_display_name(context), self.get_resource_title(context), context.session.sid]
                context.set_status(200)
                return self.json_response(context, json.dumps(data))

        p = optparse.OptionParser()
        App.add_options(p)
        options, args = p.parse_args(['-m'])
        App.setup(options=options, args=args)
        ctx.cleanup(App.data_source.close)
        self.app = App()
        self.container = App.container
        self.root = 'http://localhost:8080'
        self.launch_url = self.root + '/launch'
        self.silo = new_silo(self.container, 'silo')
        self.consumers = {}
        self.objects = {}
        for key in rng.sample(KEYS, rng.randint(1, 3)):
            self.consumers[key] = secret_text(rng)
            self.objects[key] = add_consumer(self.silo, self.app.app_cipher, key, self.consumers[key])
        self.contexts = {}
        self.resources = {}
        self.users = {}
        self.urls = {}
        self.used = []

    def request(self, path, body=b'', ctype=None, query='', method='GET', cookies=None, ua='UA'):
        env = {'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': path, 'QUERY_STRING': query, 'SERVER_NAME': 'internal',
               'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.url_scheme': 'http', 'wsgi.input': io.BytesIO(body),
               'CONTENT_LENGTH': str(len(body)), 'wsgi.errors': io.StringIO(), 'wsgi.version': (1, 0), 'wsgi.multithread': True,
               'wsgi.multiprocess': False, 'wsgi.run_once': False, 'HTTP_USER_AGENT': ua}
        if ctype is not None:
            env['CONTENT_TYPE'] = ctype
        if cookies:
            env['HTTP_COOKIE'] = '; '.join('%s=%s' % c for c in sorted(cookies.items()))
        got = []
        out = b''.join(self.app(env, lambda s, h, e=None: got.append((s, h))))
        status = int(got[0][0].split(' ')[0])
        h = {}
        for k, v in got[0][1]:
            h.setdefault(k.lower(), []).append(v)
        self.ctx.check(status != 500, "server-error", "%s %s %s gives %s %s" % (method, path, body[:600], got[0][0], out[:300]))
        return status, h, out

    def counts(self):
        n = []
        for name in ('Contexts', 'Resources', 'Users', 'Visits', 'Consumers'):
            with self.container[name].open() as c:
                n.append(len(c))
        return n

    def entities(self):
        """Compares the store with the model"""
        ctx = self.ctx
        for key, consumer in self.objects.items():
            for nav, idname, model, names in (('Contexts', 'ContextID', self.contexts, ('Title', 'Label', 'Types')),
                                              ('Resources', 'LinkID', self.resources, ('Title', 'Description')),
                                              ('Users', 'UserID', self.users, ('GivenName', 'FamilyName', 'FullName', 'Email'))):
                with consumer.entity[nav].open() as c:
                    got = sorted(([e[idname].value] + [e[n].value or None for n in names] for e in c.itervalues()), key=str)
                want = sorted(([i] + [d[n] for n in names] for (k, i), d in model.items() if k == key), key=str)
                ctx.equal(got, want, "stored-" + nav.lower(), "the %s of %s are" % (nav, key))
                ctx.count("entities", len(want))


class Browser(object):

    def __init__(self, tool, blocked=False):
        self.tool = tool
        self.jar = {}
        self.blocked = blocked
        # resource -> (user, permissions)
        self.visits = {}

    def send(self, path, **kw):
        status, h, out = self.tool.request(path, cookies=self.jar, **kw)
        if not self.blocked:
            for c in h.get('set-cookie', []):
                parts = [x.strip() for x in c.split(';')]
                name, v = parts[0].split('=', 1)
                if 'Max-Age=0' in parts:
                    self.jar.pop(name, None)
                else:
                    self.jar[name] = v
        return status, h, out

    def follow(self, h):
        s = urlsplit(h['location'][0])
        self.tool.ctx.check(s.scheme + '://' + s.netloc == self.tool.root, "redirect-root", "redirected to %s" % h['location'])
        return self.send(unquote(s.path), query=s.query)

    def record(self, key, rid, uid, perms):
        for k, r in list(self.visits):
            if (k, r) == (key, rid) or (k == key and self.visits[(k, r)][0] != uid):
                del self.visits[(k, r)]
        self.visits[(key, rid)] = (uid, perms)


def make_roles(rng):
    """A roles parameter and the permissions it gives"""
    items = []
    perms = 0
    for i in range(rng.choice((0, 1, 1, 1, 2, 3))):
        r, p = rng.choice([("Learner", 1), ("Instructor", 7), ("Learner/GuestLearner", 1), ("Instructor/Lecturer", 7), ("urn:lti:role:ims/lis/Learner", 1),
                           ("urn:lti:role:ims/lis/Instructor/GuestInstructor", 7), ("urn:lti:role:ims/lis/Instructor/Unheard", 7), ("Administrator", 0), ("Mentor", 0), ("Foo", 0),
                           ("urn:lti:instrole:ims/lis/Instructor", 0), ("urn:lti:sysrole:ims/lis/Learner", 0), ("urn:lti:role:ims/lis/TeachingAssistant", 0),
                           ("http://www.example.com/Instructor", 0), ("urn:isbn:123", 0), ("Learner/Instructor", 1), ("a b", 0), ("\u00e9", 0), ("urn:lti:role:x/y/Instructor", 0),
                           ("urn:lti:role:ims/lis/Learner/a/b", 0), ("instructor", 0), ("", 0), ("urn:lti:x:role:ims/lis/Instructor", 0)])
        items.append(rng.choice(('', ' ')) + r)
        perms |= p
    if not items:
        return None, 0
    return ','.join(items), perms


CTYPES = {'Group': 'urn:lti:context-type:ims/lis/Group', 'CourseSection': 'urn:lti:context-type:ims/lis/CourseSection',
          'CourseOffering': 'urn:lti:context-type:ims/lis/CourseOffering', 'CourseTemplate': 'urn:lti:context-type:ims/lis/CourseTemplate',
          'urn:lti:context-type:ims/lis/Group': 'urn:lti:context-type:ims/lis/Group', 'http://x.org/T': 'http://x.org/T', 'Foo': None, '': None, 'a b': None}


def launch_values(tool, rng):
    """Launch parameters and what they mean"""
    key = rng.choice(sorted(tool.consumers))
    kw = {'resource_link_id': rng.choice(('r1', 'r2', 'r3', 'r 4', '\u00e95', "o'r"))}
    for n in ('resource_link_title', 'resource_link_description'):
        if rng.random() < 0.5:
            kw[n] = text(rng)
    roles, perms = make_roles(rng)
    kw['roles'] = roles
    if rng.random() < 0.8:
        kw['user_id'] = rng.choice(('u1', 'u1', 'u2', 'u3', "u'4"))
        for n in ('lis_person_name_given', 'lis_person_name_family', 'lis_person_name_full', 'lis_person_contact_email_primary'):
            if rng.random() < 0.5:
                kw[n] = text(rng)
    if rng.random() < 0.7:
        kw['context_id'] = rng.choice(('c1', 'c2', 'c 3'))
        for n in ('context_title', 'context_label'):
            if rng.random() < 0.5:
                kw[n] = text(rng)
        if rng.random() < 0.5:
            kw['context_type'] = rng.choice((',', ' , ', ', ')).join(rng.sample(sorted(CTYPES), rng.randint(1, 3)))
    if rng.random() < 0.3:
        kw['custom_' + rng.choice('ab')] = text(rng)
    if rng.random() < 0.1:
        kw['lti_message_type'] = 'Basic-LTI-Launch-Request'
    return key, kw, perms


def update(model, ident, given):
    d = model.get(ident)
    if d is None:
        model[ident] = d = {k: None for k in given}
        new = True
    for k, v in given.items():
        if v:
            d[k] = v
    return d


def apply_launch(tool, key, kw):
    """The effect of a launch on the model"""
    cid = kw.get('context_id')
    types = None
    if cid:
        ts = [CTYPES.get(t.strip()) for t in (kw.get('context_type') or '').split(',')]
        types = ' '.join(sorted(t for t in ts if t)) or None
        update(tool.contexts, (key, cid), {'Title': kw.get('context_title'), 'Label': kw.get('context_label'), 'Types': types})
    rid = kw['resource_link_id']
    first = (key, rid) not in tool.resources
    r = update(tool.resources, (key, rid), {'Title': kw.get('resource_link_title'), 'Description': kw.get('resource_link_description')})
    if first:
        r['context'] = cid
    uid = kw.get('user_id')
    if uid:
        update(tool.users, (key, uid), {'GivenName': kw.get('lis_person_name_given'), 'FamilyName': kw.get('lis_person_name_family'),
                                       'FullName': kw.get('lis_person_name_full'), 'Email': kw.get('lis_person_contact_email_primary')})
    return rid, uid or None


def display(u):
    if u is None:
        return ''
    if u['FullName'] is not None:
        return u['FullName']
    if u['GivenName'] is not None and u['FamilyName'] is not None:
        return u['GivenName'] + ' ' + u['FamilyName']
    if u['GivenName'] is not None:
        return u['GivenName']
    return u['Email'] or ''


def open_resource(b, key, rid):
    """Opens a resource and checks what is seen"""
    tool = b.tool
    ctx = tool.ctx
    status, h, out = b.send(tool.urls[(key, rid)])
    if (key, rid) not in b.visits:
        ctx.check(status in (403, 303), "opened", "%s of %s was opened without a launch: %d %s" % (rid, key, status, out[:200]))
        ctx.count("not-opened")
        return
    uid, perms = b.visits[(key, rid)]
    ctx.check(status == 200, "not-opened", "%s of %s can't be opened after its launch: %d %s" % (rid, key, status, out[:200]))
    r = tool.resources[(key, rid)]
    u = tool.users[(key, uid)] if uid else None
    c = tool.contexts[(key, r['context'])] if r['context'] else None
    got = json.loads(out.decode('utf-8'))
    # what a launch leaves out is empty or null
    got = [[v if v != '' else None for v in x] if isinstance(x, list) else x for x in got]
    want = [perms, key, tool.consumers[key], [rid, r['Title'], r['Description']],
            None if u is None else [uid, u['GivenName'], u['FamilyName'], u['FullName'], u['Email']],
            None if c is None else [r['context'], c['Title'], c['Label'], c['Types']],
            display(u), r['Title'] if r['Title'] is not None else got[7]]
    ctx.check(r['Title'] is not None or got[7] in ('', 'Resource: ' + rid), "visit-title", "the title of %s is %r" % (rid, got[7]))
    ctx.equal(got[:-1], want, "visit", "the visit to %s of %s is" % (rid, key))
    ctx.count("opened")


def launch(b, key, kw, perms, browsers=()):
    tool = b.tool
    ctx = tool.ctx
    rng = ctx.rng
    p = new_params(rng, key, **kw)
    rng.shuffle(p)
    if rng.random() < 0.1 and kw.get('roles'):
        # repeated parameters stand for a list
        ix = [k for k, v in p].index('roles')
        a, sep, rest = p[ix][1].partition(',')
        if sep:
            p[ix] = ('roles', a)
            p.append(('roles', rest))
    p.append(('oauth_signature', sign('POST', tool.launch_url, p, tool.consumers[key])))
    body = encode(p, rng).encode('ascii')
    ctx.witness(launch=p)
    had = 'ctest' in b.jar
    status, h, out = b.send('/launch', body=body, ctype=rng.choice((FORM, FORM, FORM + '; charset=utf-8')), method='POST')
    ctx.check(status == 303, "launch-refused", "the launch %s is refused: %d %s" % (p, status, out[:200]))
    ctx.count("launched")
    tool.used.append((p, body))
    rid, uid = apply_launch(tool, key, kw)
    if had:
        # straight to the resource
        target = h['location'][0]
        b.record(key, rid, uid, perms)
    else:
        status, h, out = b.follow(h)
        if b.blocked:
            # the test page links to a new window, in which cookies work
            import re
            import html
            m = re.search('href=["\']([^"\']*)["\']', out.decode('utf-8'))
            ctx.check(status == 200 and m is not None, "launch-blocked", "with cookies blocked: %d %s" % (status, out[:200]))
            w = rng.choice([x for x in browsers if not x.blocked] or [Browser(tool)])
            s = urlsplit(html.unescape(m.group(1)))
            live = 'ctest' in w.jar
            status, h, out = w.send(s.path, query=s.query)
            ctx.check(status == 303, "wlaunch", "%d %s" % (status, out[:200]))
            if not live:
                status, h, out = w.follow(h)
            else:
                ctx.count("merges")
            b = w
        ctx.check(status == 303, "launch-test", "the cookie test gives %d %s" % (status, out[:200]))
        target = h['location'][0]
        b.record(key, rid, uid, perms)
    ctx.check(target.startswith(tool.root + '/resource/'), "launch-target", "redirected to %s" % target)
    path = unquote(target[len(tool.root):])
    ctx.check(tool.urls.setdefault((key, rid), path) == path, "resource-url", "%s of %s moved from %s to %s" % (rid, key, tool.urls[(key, rid)], path))
    ctx.check(list(tool.urls.values()).count(path) == 1, "resource-shared", "%s is used by several resources" % path)
    open_resource(b, key, rid)


def case_history(ctx):
    rng = ctx.rng
    tool = Tool(ctx)
    browsers = [Browser(tool) for i in range(rng.randint(1, 3))]
    if rng.random() < 0.4:
        browsers.append(Browser(tool, True))
    steps = []
    ctx.witness(steps=steps, consumers=tool.consumers)
    for n in range(rng.randint(5, 14)):
        b = rng.choice(browsers)
        op = rng.choice(('launch', 'launch', 'launch', 'open', 'open', 'open', 'replay', 'secret', 'lose'))
        steps.append((op, browsers.index(b)))
        if op == 'launch':
            key, kw, perms = launch_values(tool, rng)
            steps.append((key, kw))
            launch(b, key, kw, perms, browsers)
        elif op == 'open':
            if tool.urls and not b.blocked:
                key, rid = rng.choice(sorted(tool.urls))
                steps.append((key, rid))
                open_resource(b, key, rid)
        elif op == 'replay':
            if tool.used:
                p, body = rng.choice(tool.used)
                before = tool.counts()
                status, h, out = b.tool.request('/launch', body=body, ctype=FORM, method='POST', cookies=b.jar)
                ctx.check(status == 403, "replay", "the launch %s was accepted again: %d" % (p, status))
                ctx.equal(tool.counts(), before, "replay-recorded", "after a replay the number of entities is")
                ctx.count("replayed")
        elif op == 'secret':
            key = rng.choice(sorted(tool.consumers))
            old = tool.consumers[key]
            while tool.consumers[key] == old:
                tool.consumers[key] = secret_text(rng) + 'n'
            tool.objects[key].update_from_values('new ' + key, tool.consumers[key])
            p = new_params(rng, key, resource_link_id='r1')
            p.append(('oauth_signature', sign('POST', tool.launch_url, p, old)))
            status, h, out = tool.request('/launch', body=encode(p).encode('ascii'), ctype=FORM, method='POST')
            ctx.check(status == 403, "old-secret", "a launch with the former secret is accepted: %d" % status)
            ctx.count("refused")
        else:
            # the browser loses its cookies
            b.jar = {}
            b.visits = {}
    tool.entities()
    for b in browsers:
        if not b.blocked:
            for key, rid in sorted(tool.urls):
                open_resource(b, key, rid)
    ctx.nontrivial(tuple(map(str, steps)))


def case_attack(ctx):
    """Launches that must not be accepted"""
    rng = ctx.rng
    tool = Tool(ctx)
    for n in range(8):
        key, kw, perms = launch_values(tool, rng)
        secret = tool.consumers[key]
        method = 'POST'
        ctype = FORM
        query = ''
        sign_url = tool.launch_url
        want = (403, )
        kind = rng.choice(('secret', 'key', 'dummy', 'stale', 'drop', 'alter', 'add', 'twice', 'moved', 'moved', 'url', 'method', 'type', 'version', 'noid', 'rsa', 'plain', 'token', 'junk', 'other-key', 'size', 'case'))
        p = new_params(rng, key, **kw)
        if kind == 'secret':
            secret = rng.choice(['', 'secret', secret + ' ', secret[:-1], secret.swapcase(), secret + '&'])
            if secret == tool.consumers[key]:
                continue
        elif kind == 'key':
            p = new_params(rng, rng.choice(['nobody', '\u00e9', ' ', key + 'x', key[:-1], key.swapcase() if key.swapcase() != key else 'zz', 'a' * 300]), **kw)
            if dict(p)['oauth_consumer_key'] in tool.consumers:
                continue
        elif kind == 'dummy':
            from pyslet import imsbltiv1p0 as lti
            p = new_params(rng, lti.ToolProvider.dummy_client, **kw)
            secret = lti.ToolProvider.dummy_secret
        elif kind == 'stale':
            t = int(time.time())
            ts = rng.choice([t - 620, t - 3600, t + 620, t + 10 ** 6, 1, 0, -1, 10 ** 9, 'abc', '', str(t) + 'x', ' ' + str(t)])
            p = [(k, str(ts) if k == 'oauth_timestamp' else v) for k, v in p]
        elif kind == 'other-key':
            # a consumer signs for another one
            if len(tool.consumers) < 2:
                continue
            other = rng.choice([k for k in tool.consumers if k != key])
            if tool.consumers[other] == secret:
                continue
            secret = tool.consumers[other]
        elif kind == 'type':
            p = [(k, v) for k, v in p if k != 'lti_message_type'] + rng.choice([[], [('lti_message_type', 'basic-lti-launch')], [('lti_message_type', 'ContentItemSelectionRequest')], [('lti_message_type', '')]])
            want = (400, )
        elif kind == 'version':
            p = [(k, v) for k, v in p if k != 'lti_version'] + rng.choice([[], [('lti_version', 'LTI-1p1')], [('lti_version', 'LTI-2p0')], [('lti_version', 'lti-1P0')]])
            want = (400, )
        elif kind == 'noid':
            p = [(k, v) for k, v in p if k not in ('resource_link_id', 'context_id')] + rng.choice([[], [('resource_link_id', '')]])
            want = (400, )
        elif kind == 'rsa':
            p = [(k, rng.choice(('RSA-SHA1', 'RSA-SHA256', 'MD5', 'hmac-sha1', '')) if k == 'oauth_signature_method' else v) for k, v in p]
        elif kind == 'plain':
            p = [(k, 'PLAINTEXT' if k == 'oauth_signature_method' else v) for k, v in p]
        elif kind == 'token':
            p.append(('oauth_token', 'x'))
            want = (403, )
        elif kind == 'url':
            sign_url = rng.choice([tool.root + '/', 'https' + tool.launch_url[4:], 'http://localhost/launch', 'http://evil.example.com/launch', tool.launch_url + 'x', tool.launch_url + '/'])
        elif kind == 'method':
            method = rng.choice(('GET', 'PUT'))
        sig = sign('POST', sign_url, p, secret)
        if kind == 'plain':
            sig = rng.choice([secret + 'x&', '&', '', secret, sig])
            if sig == q(secret) + '&':
                continue
        p.append(('oauth_signature', sig))
        if kind == 'size':
            p = [(k, rng.choice([v[:-1], v + v, '', 'A' * 10000]) if k == 'oauth_signature' else v) for k, v in p]
        elif kind == 'case':
            p = [(k, v.swapcase() if k == 'oauth_signature' else v) for k, v in p]
        elif kind == 'drop':
            k = rng.choice([k for k, v in p if v])
            p = [(n, v) for n, v in p if n != k]
        elif kind == 'alter':
            k = rng.choice([k for k, v in p])
            p = [(n, rng.choice([v + 'x', v[1:], '', 'Instructor', v + ' ']) if n == k and v else v + 'x' if n == k else v) for n, v in p]
        elif kind == 'add':
            p.append((rng.choice(['roles', 'user_id', 'custom_x', 'lis_person_name_full', 'oauth_callback', 'oauth_x']), rng.choice(['Instructor', 'u1', 'x'])))
        elif kind == 'twice':
            k = rng.choice([k for k, v in p if k.startswith('oauth_') and k != 'oauth_signature'])
            p.append((k, rng.choice([dict(p)[k], 'x'])))
        body = encode(p).encode('ascii')
        if kind == 'moved':
            # the signed parameters in the query, others in the content
            query = body.decode('ascii')
            evil = [(k, v) for k, v in p if k not in ('roles', 'user_id')] + [('roles', 'Instructor'), ('user_id', 'boss')]
            body = encode(evil).encode('ascii')
            ctype = rng.choice(['text/plain', 'application/json', None, 'multipart/form-data; boundary=x', FORM, 'x-' + FORM + '2'[:0], 'application/octet-stream', ''])
        elif kind == 'junk':
            body = rng.choice([b'', b'%', b'\xff\xfe', b'&&&', b'a=%zz', b'=', body[:len(body) // 2], body + b'\xff', body.replace(b'&', b';'), body + b'%', '\u00e9=1&'.encode('utf-8') + body])
        before = tool.counts()
        ctx.witness(kind=kind, params=p, body=repr(body), query=query, ctype=ctype, method=method, sign_url=sign_url, secret=secret)
        try:
            status, h, out = tool.request('/launch', body=body, ctype=ctype, query=query, method=method)
        finally:
            pass
        ctx.check(status in want or (kind in ('method', 'junk', 'stale', 'size', 'moved') and 400 <= status < 500), "accepted", "%s: the launch gives %d (location %s)" % (kind, status, h.get('location')))
        ctx.equal(tool.counts(), before, "recorded", "%s: after a refused launch the number of entities is" % kind)
        ctx.check('location' not in h, "refused-redirect", "%s: a refused launch redirects to %s" % (kind, h.get('location')))
        ctx.count("refused")
        ctx.nontrivial((kind, tuple(p), query, body))
    # the tool still works
    b = Browser(tool)
    key, kw, perms = launch_values(tool, rng)
    launch(b, key, kw, perms)


def memory_tool(ctx):
    from pyslet import imsbltiv1p0 as lti, wsgi
    from pyslet.odata2 import memds
    md = lti.load_metadata()
    cont = md.root.DataServices.defaultContainer
    memds.InMemoryEntityContainer(cont)
    ctx.keep = md
    cipher = wsgi.AppCipher(0, b'secret', cont['AppKeys'])
    return cont, cipher


def case_race(ctx):
    """One nonce used by several threads at once"""
    from pyslet import imsbltiv1p0 as lti
    from lib.sched import Perturb, Crew
    rng = ctx.rng
    cont, cipher = memory_tool(ctx)
    silo = new_silo(cont, 'silo')
    keys = ['k%d' % i for i in range(2)]
    for k in keys:
        add_consumer(silo, cipher, k, 'secret')
    provider = lti.ToolProvider(cont['Consumers'], cont['Nonces'], cipher)
    url = 'http://www.example.com/launch'
    bodies = []
    for i in range(3):
        p = new_params(rng, rng.choice(keys), resource_link_id='r%d' % i)
        if i and rng.random() < 0.5:
            # the nonce of the other consumer
            p = [(k, dict(bodies[0][0])['oauth_nonce'] if k == 'oauth_nonce' else v) for k, v in p]
            if dict(p)['oauth_consumer_key'] == dict(bodies[0][0])['oauth_consumer_key']:
                p = [(k, [x for x in keys if x != v][0] if k == 'oauth_consumer_key' else v) for k, v in p]
        if any(dict(p)['oauth_consumer_key'] == dict(o)['oauth_consumer_key'] and dict(p)['oauth_nonce'] == dict(o)['oauth_nonce'] for o, b in bodies):
            continue
        p.append(('oauth_signature', sign('POST', url, p, 'secret')))
        bodies.append((p, encode(p)))
    done = []
    crew = Crew()

    def body(i):
        try:
            c, params = provider.launch('POST', url, {'Content-Type': FORM}, bodies[i][1])
            done.append((i, True))
        except lti.LTIAuthenticationError:
            done.append((i, False))

    n = rng.randint(2, 4)
    for i in range(len(bodies)):
        for j in range(n):
            crew.add("launch%d.%d" % (i, j), body, i)
    ctx.witness(bodies=[b for p, b in bodies], n=n)
    with Perturb(('pyslet/imsbltiv1p0.py', 'pyslet/odata2/memds.py'), rng.random(), prob=rng.choice((0.05, 0.2))):
        crew.start()
        fin = crew.join(lambda: len(done))
    ctx.check(fin is not False, "race-stuck", "launches are stuck")
    for name, e, tb in crew.errors:
        ctx.fail("race-error", "%s: %r\n%s" % (name, e, tb[-1200:]))
    for i in range(len(bodies)):
        ok = [r for k, r in done if k == i and r]
        ctx.equal(len(ok), 1, "race", "of %d simultaneous launches with one nonce the number accepted is" % n)
        ctx.count("races")
    ctx.nontrivial(tuple(b for p, b in bodies))


def case_provider(ctx):
    """Consumers, nonces over time, the file of consumers"""
    from pyslet import imsbltiv1p0 as lti, iso8601 as iso
    rng = ctx.rng
    tp = lti.BLTIToolProvider()
    ctx.cleanup(tp.data_source.close)
    model = {}
    for i in range(rng.randint(2, 6)):
        ctx.count("consumers")
        key = rng.choice(['k%d' % rng.randrange(4), 'www.example.com', '#comment', 'K-%d' % rng.randrange(3), None])
        secret = rng.choice([None, 's%d' % rng.randrange(9), '#x', 'Caf\u00e9', 'a:b'])
        if key in model:
            ctx.raises(lti.BLTIDuplicateKeyError, lambda: tp.new_consumer(key, secret), "duplicate-key", "new_consumer(%r)" % key)
            continue
        k, s = tp.new_consumer(key, secret)
        ctx.check((key is None or k == key) and (secret is None or s == secret) and k not in model, "new-consumer", "new_consumer(%r, %r) returned %r" % (key, secret, (k, s)))
        model[k] = s
    ctx.witness(consumers=model)
    for k in list(model) + ['missing', '\u00e9']:
        if k in model:
            c = tp.lookup_consumer(k)
            ctx.equal((c.key, c.secret), (k, model[k]), "lookup", "lookup_consumer(%r)" % k)
        else:
            ctx.raises(KeyError, lambda: tp.lookup_consumer(k), "lookup", "lookup_consumer(%r)" % k)
    f = io.BytesIO()
    tp.save_to_file(f)
    data = f.getvalue()
    got = dict(line.split(' ', 1) for line in data.decode('utf-8').splitlines())
    ctx.equal(got, model, "saved", "the file saved holds")
    tp2 = lti.BLTIToolProvider()
    ctx.cleanup(tp2.data_source.close)
    lines = data.splitlines(True)
    for i in range(rng.randint(0, 3)):
        lines.insert(rng.randrange(len(lines) + 1), rng.choice([b'# a comment here\n', b'#k s\n', b'\n', b'#\n', b'lonely\n', b'   \n']))
    tp2.load_from_file(io.BytesIO(b''.join(lines)))
    with tp2.silo['Consumers'].open() as c:
        got = {}
        for e in c.itervalues():
            t = lti.ToolConsumer(e, tp2.cipher)
            got[t.key] = t.secret
    ctx.equal(got, {k: s for k, s in model.items() if not k.startswith('#')}, "loaded", "the consumers loaded from %r are" % b''.join(lines))
    # nonces
    seen = {}
    for i in range(12):
        k = rng.choice(sorted(model))
        nonce = rng.choice(['n1', 'n2', 'nonce', '\u00e9', 'x' * 100])
        ident = (k, nonce)
        ages = []
        want = ident not in seen or seen[ident] > 5400
        got = tp.validate_timestamp_and_nonce(k, str(int(time.time())), nonce, None)
        ctx.equal(bool(got), want, "nonce", "nonce %r of %r, last accepted %s s ago, valid" % (nonce, k, seen.get(ident)))
        ctx.count("replayed" if not want else "fresh")
        if want:
            seen[ident] = 0
        if rng.random() < 0.7:
            # time passes: all records get older
            dt = rng.choice((60, 3000, 5370, 5420, 10 ** 6))
            with tp.nonces.open() as c:
                for e in list(c.itervalues()):
                    t = e['LastSeen'].value.with_zone(0).get_unixtime() - dt
                    e['LastSeen'].set_from_value(iso.TimePoint.from_unix_time(t))
                    c.update_entity(e)
            for x in seen:
                seen[x] += dt
            if any(5390 < v < 5410 for v in seen.values()):
                break
    # roles
    for table, base in ((lti.SYSROLE_HANDLES, 'sysrole'), (lti.INSTROLE_HANDLES, 'instrole'), (lti.ROLE_HANDLES, 'role'), (lti.CONTEXT_TYPE_HANDLES, 'context-type')):
        h = rng.choice(sorted(table))
        ctx.equal(str(table[h]), 'urn:lti:%s:ims/lis/%s' % (base, h), "handle", "the handle %s stands for" % h)
        if base != 'context-type':
            want = (base, ) + (tuple(h.split('/')) if '/' in h else (h, None))
            ctx.equal(lti.split_role(table[h]), want, "split-role", "split_role(%s)" % table[h])
            parent = rng.choice(sorted(lti.ROLE_HANDLES))
            if '/' not in parent:
                ctx.equal(lti.is_subrole(table[h], lti.ROLE_HANDLES[parent]), base == 'role' and h.split('/')[0] == parent, "is-subrole", "is_subrole(%s, %s)" % (table[h], parent))
    ctx.nontrivial((tuple(sorted(model.items())), tuple(lines)))


WORKLOADS = [
    Workload("history", case_history, 110, 1500),
    Workload("attack", case_attack, 120, 1500),
    Workload("race", case_race, 40, 400, blocked=True),
    Workload("provider", case_provider, 50, 600),
]
