"""C48: QTI item sessions follow the item's rules.

Items with variables of all types, mappings, template and response
processing are generated, read by the library and taken through a session
(cloning, attempts, saving, submitting); after every step all variables are
compared with an independent model of the session.
"""

from lib import qti
from lib.harness import Workload

META = dict(
    id="C48", title="QTI item sessions give every variable the value the rules define",
    statement="Taking an item through cloning, attempts, saving and submission gives every template, response and outcome variable, default and correct value exactly what its "
              "declaration, the submitted form and the template and response processing rules define, mappings and lookup tables included; saved values stay apart until "
              "submitted, and refused submissions change no variable.",
    quantifier=dict(over=["histories", "programs"], text="items with all types of variables and nested rules x session histories with several attempts"),
    why_tests_cant="the tests run a few fixed items through one or two attempts",
    anchors=dict(files=["pyslet/qtiv2/variables.py", "pyslet/qtiv2/processing.py", "pyslet/qtiv2/expressions.py"],
                 mechanism=[dict(name="ItemSessionState", where="pyslet/qtiv2/variables.py"), dict(name="ResponseProcessing, TemplateProcessing", where="pyslet/qtiv2/processing.py"),
                            dict(name="Mapping, AreaMapping, LookupTable", where="pyslet/qtiv2/variables.py")],
                 observe_at=["the variables in the session after every step", "values of map_value and lookup"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated items and session histories; all variables compared with a reference model after every step"
LEVEL_NOTE = "Held on the sessions observed; the mapping of NULL and ill-typed rules with NULLs are undecided."
RULE = "each case is an item with a session history; distinct by the XML of the item"
MODULES = ["pyslet/qtiv2/variables.py", "pyslet/qtiv2/processing.py", "pyslet/qtiv2/expressions.py"]
REQUIRE = {"steps": 3000, "submitted": 800, "saved": 300, "rules": 1500, "mapped": 100, "lookups": 1500, "bad-params": 100}

V = qti.V
MAPPED = ('boolean', 'directedPair', 'float', 'identifier', 'integer', 'pair', 'point', 'string', 'uri')


class Stop(Exception):
    """Processing was stopped by a rule"""


def key(base, v):
    return tuple(sorted(v)) if base == 'pair' else v


class Mapping(object):

    def __init__(self, rng, base, area=False):
        self.rng = rng
        self.area = area
        self.default = rng.choice((None, 0.0, 0.5, -1.0))
        self.lo = rng.choice((None, None, 0.0, -0.5, 1.0))
        self.hi = rng.choice((None, None, 1.0, 2.5))
        self.entries = []
        seen = set()
        for i in range(rng.randint(1, 4)):
            t = rng.choice((1.0, 0.5, -1.0, 2.0, 0.25))
            if area:
                self.entries.append((qti.shape_of(rng), t))
                continue
            k = key(base, qti.raw(rng, base))
            if k == '' or k in seen:
                continue
            seen.add(k)
            self.entries.append((k, t))
        self.base = base

    def xml(self):
        at = ''.join(' %s="%s"' % (n, v) for n, v in (('lowerBound', self.lo), ('upperBound', self.hi), ('defaultValue', self.default)) if v is not None)
        if self.area:
            return '<areaMapping%s>%s</areaMapping>' % (at, ''.join('<areaMapEntry shape="%s"%s mappedValue="%s"/>' % (
                s, ' coords="%s"' % ','.join(map(str, c)) if c else '', t) for (s, c), t in self.entries))
        return '<mapping%s>%s</mapping>' % (at, ''.join('<mapEntry mapKey=%s mappedValue="%s"/>' % (qti.quoteattr(qti.text_of(self.base, k)), t) for k, t in self.entries))

    def value(self, v):
        """None if the value isn't decided"""
        if v.val is None:
            return None
        vs = [v.val] if v.card == 'single' else v.val
        total = 0.0
        done = []
        for x in vs:
            x = key(self.base, x)
            if self.area:
                hit = [i for i, ((s, c), t) in enumerate(self.entries) if qti.in_shape(s, c, x, 100, 100)]
                if hit and hit[0] in done:
                    continue
                if not hit and vs.count(x) > 1:
                    return None
                total += self.entries[hit[0]][1] if hit else self.default or 0.0
                done += hit[:1]
            else:
                if x in done:
                    continue
                done.append(x)
                total += dict(self.entries).get(x, self.default or 0.0)
        if self.lo is not None and self.hi is not None and self.lo > self.hi:
            return None
        if self.lo is not None:
            total = max(self.lo, total)
        if self.hi is not None:
            total = min(self.hi, total)
        return total


class Model(qti.Scope):
    """Item and session"""

    def __init__(self, rng):
        self.rng = rng
        self.templates = {}
        self.outcomes = {}
        self.responses = {}
        self.correct = {}
        self.mapping = {}
        n = 0
        for base in ['integer', 'float', 'string'] + [rng.choice(qti.BASES) for i in range(rng.randint(0, 2))]:
            n += 1
            self.templates['T%d' % n] = qti.value(rng, 'single', base, 0.2)
        for i in range(rng.randint(1, 3)):
            n += 1
            self.templates['T%d' % n] = qti.value(rng, rng.choice(('multiple', 'ordered')), rng.choice(qti.BASES))
        for i in range(rng.randint(3, 7)):
            n += 1
            self.outcomes['O%d' % n] = qti.value(rng, rng.choice(('single', 'single', 'multiple', 'ordered')), rng.choice(qti.BASES), 0.4)
        for b in ('integer', 'float'):
            n += 1
            self.outcomes['O%d' % n] = qti.value(rng, 'single', b, 0.5)
        self.outcomes['OR'] = qti.value(rng, 'record', None)
        for i in range(rng.randint(1, 5)):
            n += 1
            name = 'R%d' % n
            base = rng.choice(qti.BASES + ('identifier', 'point'))
            card = rng.choice(('single', 'multiple', 'ordered'))
            self.responses[name] = qti.value(rng, card, base, 0.5)
            self.correct[name] = qti.value(rng, card, base, 0.4)
            if base == 'point' and rng.random() < 0.7:
                self.mapping[name] = Mapping(rng, base, True)
            elif base in MAPPED and rng.random() < 0.7:
                self.mapping[name] = Mapping(rng, base)
        self.adaptive = rng.random() < 0.4
        # the session
        self.declared = dict(self.templates)
        self.defaults = dict(self.responses)
        self.defaults.update(self.outcomes)
        self.cur = dict(self.templates)
        for d in (self.responses, self.outcomes):
            for k, v in d.items():
                self.cur[k] = V(v.card, v.base, None)
        self.cur['numAttempts'] = V('single', 'integer', None)
        self.cur['duration'] = V('single', 'duration', None)
        self.cur['completionStatus'] = V('single', 'identifier', None)
        self.saved = {}

    def xml(self):
        order = []
        for k, v in self.responses.items():
            order.append(qti.declaration('response', k, v, correct=self.correct[k], extra=self.mapping[k].xml() if k in self.mapping else ''))
        for k, v in self.outcomes.items():
            order.append(qti.declaration('outcome', k, v))
        for k, v in self.declared.items():
            order.append(qti.declaration('template', k, v))
        return ''.join(order)

    def current(self, name):
        return self.cur[name]

    def default(self, name):
        if name in self.defaults:
            return self.defaults[name]
        if name in self.declared:
            return self.declared[name]
        raise qti.Err("not declared")

    def find(self, card, base):
        return [k for k, v in self.cur.items() if v.card == card and v.base == base]

    def set(self, name, v):
        old = self.cur[name]
        self.cur[name] = V(old.card, old.base, v.val)
        if name in self.templates:
            self.templates[name] = self.cur[name]

    def begin_session(self):
        self.outcome_defaults()
        self.cur['numAttempts'] = V('single', 'integer', 0)
        self.cur['duration'] = V('single', 'duration', 0.0)
        self.cur['completionStatus'] = V('single', 'identifier', 'not_attempted')

    def outcome_defaults(self):
        for k in self.outcomes:
            v = self.defaults[k]
            if v.val is None and v.card == 'single' and v.base in ('integer', 'float'):
                v = V(v.card, v.base, 0 if v.base == 'integer' else 0.0)
            self.cur[k] = v

    def begin_attempt(self):
        n = self.cur['numAttempts'].val + 1
        self.cur['numAttempts'] = V('single', 'integer', n)
        if n == 1:
            for k in self.responses:
                self.cur[k] = self.defaults[k]
            self.cur['completionStatus'] = V('single', 'identifier', 'unknown')


class Maker(qti.Maker):

    def make(self, card, base, depth):
        if (card, base) == ('single', 'float') and self.rng.random() < 0.3 and self.scope.mapping:
            name = self.rng.choice(sorted(self.scope.mapping))
            return qti.E('mapResponsePoint' if self.scope.mapping[name].area else 'mapResponse', {'identifier': name})
        return qti.Maker.make(self, card, base, depth)


class Oracle(qti.Oracle):

    def x_mapResponse(self, e):
        n = e.attrs['identifier']
        v = self.scope.mapping[n].value(self.scope.cur[n])
        if v is None:
            raise qti.Undecided("mapping of NULL")
        return V('single', 'float', v)

    x_mapResponsePoint = x_mapResponse


class Run(object):
    """The rules of template or response processing"""

    def __init__(self, model, kind):
        self.model = model
        self.kind = kind
        self.rng = model.rng
        self.maker = Maker(self.rng, model, 0)
        self.wild = False
        self.nulls = False
        self.count = 0

    def expression(self, card, base, depth=2):
        for i in range(6):
            e = self.maker.make(card, base, self.rng.randint(0, depth))
            o = Oracle(self.model)
            try:
                v = o(e)
                if v.card not in (None, card) or v.base not in (None, base):
                    continue
            except qti.Err:
                continue
            except qti.Undecided:
                if 'mapResponse' not in e.xml():
                    continue
            if not o.wild:
                return e
        return qti.E('null')

    def make(self, depth=2):
        rng = self.rng
        rules = []
        for i in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.35 and depth:
                parts = [(self.expression('single', 'boolean'), self.make(depth - 1) if rng.random() < 0.9 else [])]
                for j in range(rng.choice((0, 0, 1, 2))):
                    parts.append((self.expression('single', 'boolean'), self.make(depth - 1)))
                if rng.random() < 0.5:
                    parts.append((None, self.make(depth - 1)))
                rules.append(('cond', parts))
            elif r < 0.4 and depth < 2:
                rules.append(('exit',))
            elif self.kind == 'response':
                if r < 0.5:
                    rules.append(('set', 'completionStatus', qti.E('baseValue', {'baseType': 'identifier'}, text=rng.choice(('completed', 'incomplete')))))
                else:
                    n = rng.choice(sorted(self.model.outcomes))
                    v = self.model.outcomes[n]
                    rules.append(('set', n, self.expression(v.card, v.base)))
            else:
                what = rng.choice(('set', 'set', 'correct', 'default'))
                names = {'set': sorted(self.model.declared), 'correct': sorted(self.model.responses), 'default': sorted(self.model.defaults)}[what]
                n = rng.choice(names)
                if rng.random() < 0.01:
                    rules.append((what, rng.choice(('unknown', 'numAttempts', 'completionStatus') + (('OR',) if what != 'default' else ())), qti.E('null')))
                v = self.model.cur[n]
                rules.append((what, n, self.expression(v.card, v.base)))
        return rules

    def xml(self, rules):
        out = []
        k = self.kind
        for r in rules:
            if r[0] == 'exit':
                out.append('<exit%s/>' % k.capitalize())
            elif r[0] == 'cond':
                s = ''
                for i, (e, sub) in enumerate(r[1]):
                    name = k + ('If' if not i else 'Else' if e is None else 'ElseIf')
                    s += '<%s>%s%s</%s>' % (name, '' if e is None else e.xml(), self.xml(sub), name)
                out.append('<%sCondition>%s</%sCondition>' % (k, s, k))
            else:
                name = {'set': 'setOutcomeValue' if k == 'response' else 'setTemplateValue', 'correct': 'setCorrectResponse', 'default': 'setDefaultValue'}[r[0]]
                out.append('<%s identifier="%s">%s</%s>' % (name, r[1], r[2].xml(), name))
        return ''.join(out)

    def evaluate(self, e):
        o = Oracle(self.model)
        try:
            return o(e)
        finally:
            self.wild = self.wild or o.wild
            self.nulls = self.nulls or o.nulls

    def run(self, rules):
        try:
            self.rules(rules)
        except Stop:
            pass

    def rules(self, rules):
        m = self.model
        for r in rules:
            self.count += 1
            if r[0] == 'exit':
                raise Stop
            if r[0] == 'cond':
                for e, sub in r[1]:
                    if e is None or self.evaluate(e).val is True:
                        self.rules(sub)
                        break
                continue
            v = self.evaluate(r[2])
            old = {'set': m.cur, 'correct': m.correct, 'default': m.defaults}[r[0]].get(r[1])
            if old is not None and (v.card not in (None, old.card) or v.base not in (None, old.base)):
                raise qti.Err("other type")
            if r[0] == 'set':
                if self.kind == 'response' and r[1] not in m.outcomes and r[1] != 'completionStatus' or self.kind == 'template' and r[1] not in m.declared:
                    raise qti.Err("can't be set")
                m.set(r[1], v)
            elif old is None:
                raise qti.Err("can't be set")
            elif r[0] == 'correct':
                old = m.correct[r[1]]
                m.correct[r[1]] = V(old.card, old.base, v.val)
            else:
                old = m.defaults[r[1]]
                m.defaults[r[1]] = V(old.card, old.base, v.val)


def compare(ctx, state, model, what):
    for d, suffix in ((model.cur, ''), (model.correct, '.CORRECT'), (model.defaults, '.DEFAULT')):
        for k, v in d.items():
            got = qti.lib_value(state[k + suffix])
            ctx.check(qti.same(got, v), "variable:" + what, "after %s %s%s is %s, expected %s" % (what, k, suffix, got, v))
    ctx.equal(sorted(k for k in state if '.' not in k), sorted(model.cur), "names", "after %s the variables are" % what)
    ctx.count("steps")


def form(rng, model, prefix):
    """A form and the responses it has"""
    params = []
    new = {}
    for k, d in model.responses.items():
        if rng.random() < 0.35:
            continue
        v = qti.value(rng, d.card, d.base, 0)
        if d.card == 'ordered' and d.base == 'identifier' and rng.random() < 0.6:
            ids = rng.sample([i for i in qti.IDS if '.' not in i], rng.randint(1, 4))
            ranks = sorted(rng.sample(range(1, 15), len(ids)))
            for i, r in zip(ids, ranks):
                params.append(('%s%s.%s' % (prefix, k, i), str(r)))
            v = V('ordered', d.base, ids)
        elif v.val is None:
            continue
        elif d.card == 'ordered':
            ranks = sorted(rng.sample(range(0, 15), len(v.val)))
            for x, r in zip(v.val, ranks):
                params.append(('%s%s.%d' % (prefix, k, r), qti.text_of(d.base, x)))
        elif d.card == 'multiple':
            ts = [qti.text_of(d.base, x) for x in v.val]
            rng.shuffle(ts)
            params.append((prefix + k, ts[0] if len(ts) == 1 and rng.random() < 0.5 else ts))
        else:
            params.append((prefix + k, qti.text_of(d.base, v.val)))
        new[k] = v
    if prefix and rng.random() < 0.5:
        params.append(('q-' + rng.choice(sorted(model.responses)), 'zz'))
        params.append(('unknown', 'zz'))
    rng.shuffle(params)
    return dict(params), new


def bad_form(rng, model, prefix):
    """A form that must be refused and whether the value is to blame"""
    params, new = form(rng, model, prefix)
    r = rng.random()
    if r < 0.25:
        params[prefix + rng.choice(('unknown', 'duration', 'numAttempts', 'completionStatus', 'OR', 'T1'))] = '1'
        return params, False
    names = list(model.responses)
    rng.shuffle(names)
    for n in names:
        d = model.responses[n]
        for p in list(params):
            if p[len(prefix):].split('.')[0] == n:
                del params[p]
        if d.card == 'single' and r < 0.6:
            params[prefix + n] = [qti.text_of(d.base, qti.raw(rng, d.base)), qti.text_of(d.base, qti.raw(rng, d.base))]
            return params, False
        if d.card == 'ordered' and r < 0.8 and d.base != 'identifier':
            t = qti.text_of(d.base, qti.raw(rng, d.base))
            params['%s%s.1' % (prefix, n)] = t
            params['%s%s.%s' % (prefix, n, rng.choice(('01', 'x', '1e0', '-', '')))] = t
            return params, False
        if d.base in ('integer', 'float', 'boolean', 'point', 'pair', 'directedPair'):
            params[prefix + n + ('.1' if d.card == 'ordered' else '')] = 'zz'
            return params, True
    return None, False


def case_session(ctx):
    from pyslet.qtiv2 import core, variables
    rng = ctx.rng
    model = Model(rng)
    tmpl, resp = Run(model, 'template'), Run(model, 'response')
    xml = model.xml()
    trules = tmpl.make() if rng.random() < 0.8 else []
    rrules = resp.make() + resp.make() if rng.random() < 0.9 else []
    if rrules and rng.random() < 0.06:
        rrules.append(('set', rng.choice(sorted(model.responses) + ['numAttempts', 'duration', 'T1', 'unknown']), qti.E('null')))
    text = qti.item(('<templateProcessing>%s</templateProcessing>' % tmpl.xml(trules) if trules else '') +
                    ('<responseProcessing>%s</responseProcessing>' % resp.xml(rrules) if rrules else ''), xml, 'true' if model.adaptive else 'false')
    ctx.witness(item=text)
    ctx.nontrivial(text)
    doc = qti.read_item(text)
    if rng.random() < 0.3 and '> b <' not in text:
        # the item written and read again (white space isn't kept)
        doc = qti.read_item(str(doc))
        ctx.count("copies")
    state = variables.ItemSessionState(doc.root)
    prefix = rng.choice(('', '', 'p-', 'Q1.'))
    state.formPrefix = prefix
    compare(ctx, state, model, "creation")

    def process(run, rules, lib, what):
        """Both run the rules; False when the session can't go on"""
        err = undecided = None
        n = run.count
        try:
            run.run(rules)
        except qti.Err as e:
            err = e
        except qti.Undecided as e:
            undecided = e
        try:
            lib()
        except (core.ProcessingError, ValueError, OverflowError) as e:
            ctx.check(err is not None or undecided is not None or run.wild, "refused:" + what, "%s failed (%s: %s)" % (what, type(e).__name__, e))
            return False
        if undecided is not None:
            return False
        if err is not None:
            ctx.check(run.nulls or run.wild, "accepted:" + what, "%s went through, but %s" % (what, err))
            return False
        ctx.count("rules", run.count - n)
        return True

    if trules:
        if not process(tmpl, trules, state.select_clone, "cloning"):
            return
        compare(ctx, state, model, "cloning")
    elif rng.random() < 0.5:
        state.select_clone()
    state.begin_session()
    model.begin_session()
    compare(ctx, state, model, "begin_session")
    log = []
    for i in range(rng.randint(1, 4)):
        state.begin_attempt()
        model.begin_attempt()
        compare(ctx, state, model, "begin_attempt")
        for j in range(rng.choice((0, 0, 1, 2))):
            params, new = form(rng, model, prefix)
            log.append(('save', params))
            ctx.witness(item=text, log=log)
            state.save_session(dict(params))
            model.saved.update(new)
            compare(ctx, state, model, "saving")
            ctx.count("saved")
        if rng.random() < 0.15:
            params, by_value = bad_form(rng, model, prefix)
            if params is not None:
                log.append(('bad', params))
                ctx.witness(item=text, log=log)
                f = state.submit_session if rng.random() < 0.5 else state.save_session
                ctx.raises((variables.BadSessionParams, ValueError) if by_value else variables.BadSessionParams, lambda: f(dict(params)), "bad-params", "the form %s was accepted" % params)
                compare(ctx, state, model, "a refused form")
                ctx.count("bad-params")
                return
        params, new = form(rng, model, prefix)
        log.append(('submit', params))
        ctx.witness(item=text, log=log)
        model.saved.update(new)
        for k, v in model.saved.items():
            model.cur[k] = v
        model.saved = {}
        if not model.adaptive:
            model.outcome_defaults()
        if any('mapResponse' in e for e in (text,)):
            ctx.count("mapped")
        if not process(resp, rrules, lambda: state.submit_session(dict(params)), "response processing"):
            return
        compare(ctx, state, model, "submission")
        ctx.count("submitted")


def case_tables(ctx):
    """Lookup tables"""
    from pyslet.qtiv2 import variables as var
    rng = ctx.rng
    base = rng.choice(qti.BASES)
    match = rng.random() < 0.5
    entries = []
    srcs = list(range(-3, 6)) if match else [-2.5, -1.0, 0.0, 0.5, 1.0, 2.0, 10.0]
    for i in range(rng.randint(1, 6)):
        entries.append((rng.choice(srcs), rng.random() < 0.6 if not match else True, qti.raw(rng, base)))
    if not match and rng.random() < 0.6:
        entries.sort(key=lambda e: -e[0])
    default = qti.raw(rng, base) if rng.random() < 0.5 else None
    if base == 'string':
        entries = [(a, b, c or 'e') for a, b, c in entries]
        default = default or None
    name = 'matchTable' if match else 'interpolationTable'
    table = '<%s%s>' % (name, '' if default is None else ' defaultValue=%s' % qti.quoteattr(qti.text_of(base, default)))
    for s, b, t in entries:
        table += '<%sEntry sourceValue="%s"%s targetValue=%s/>' % (name, s, '' if match else ' includeBoundary="%s"' % ('true' if b else 'false') if not b or rng.random() < 0.5 else '',
                                                                  qti.quoteattr(qti.text_of(base, t)))
    table += '</%s>' % name
    text = qti.item('', '<outcomeDeclaration identifier="O1" cardinality="single" baseType="%s">%s</outcomeDeclaration>' % (base, table))
    ctx.witness(item=text)
    ctx.nontrivial(text)
    doc = qti.read_item(text)
    if rng.random() < 0.3 and '> b <' not in text:
        doc = qti.read_item(str(doc))
    t = doc.root.get_declaration('O1').LookupTable
    for s in srcs + [-100, 100] + ([0.25, 3, -1, 0] if not match else []):
        for b in ('integer',) if match else ('integer', 'float', 'duration'):
            if b == 'integer' and s != int(s) or b == 'duration' and s < 0:
                continue
            src = var.SingleValue.new_value(var.BaseType.from_str(b), int(s) if b == 'integer' else float(s))
            want = default
            for es, eb, et in entries:
                if s == es and eb or not match and s > es:
                    want = et
                    break
            got = qti.lib_value(t.lookup(src))
            ctx.check(qti.same(got, V('single', base, want)), "lookup", "%s looked up in %s is %s, expected %r" % (s, table, got, want))
            ctx.count("lookups")
    b = 'integer' if match else rng.choice(('integer', 'float'))
    got = qti.lib_value(t.lookup(var.SingleValue.new_value(var.BaseType.from_str(b))))
    ctx.check(qti.same(got, V('single', base, None)), "lookup-null", "NULL looked up in %s is %s" % (table, got))
    bad = [var.StringValue('1'), var.BooleanValue(True)]
    if match:
        bad.append(var.FloatValue(1.0))
    m = var.MultipleContainer(var.BaseType.integer)
    m.set_value([1, 2])
    bad.append(m)
    for v in bad:
        ctx.raises(ValueError, lambda: t.lookup(v), "lookup-type", "%s was looked up in %s" % (qti.lib_value(v), table))


WORKLOADS = [
    Workload("session", case_session, 2500, 20000, cpu=60),
    Workload("tables", case_tables, 300, 5000, cpu=60),
]
