"""C49: QTI test forms respect selection and ordering; sessions follow them.

Tests with nested sections are generated and read by the library; every form
made from them is judged by an independent reading of the selection and
ordering rules.  Linear tests with pre-conditions and branch rules are then
taken through sessions beside a model that knows which question comes next.
"""

import io
import os
import time

from lib import qti
from lib.harness import Workload

META = dict(
    id="C49", title="QTI test forms and sessions follow selection, order and navigation",
    statement="Every form of a test holds each part and section once in order, selects from each section the number asked for with all required children, repeats only with replacement, "
              "keeps unshuffled and fixed children in place, mixes only the children of invisible sections that need not stay together, and every allowed selection can occur; impossible "
              "rules are refused. A session visits the questions of its form as pre-conditions and branch rules say, accepts only its current key and times what is open.",
    quantifier=dict(over=["inputs", "histories"], text="tests with nested sections and all selection, ordering and navigation rules x random forms x session histories"),
    why_tests_cant="the tests use three fixed tests and one fixed path",
    anchors=dict(files=["pyslet/qtiv2/tests.py", "pyslet/qtiv2/variables.py", "pyslet/qtiv2/processing.py"],
                 mechanism=[dict(name="TestForm", where="pyslet/qtiv2/tests.py"), dict(name="TestSessionState", where="pyslet/qtiv2/variables.py"),
                            dict(name="PreCondition, BranchRule, TemplateDefault", where="pyslet/qtiv2/processing.py")],
                 observe_at=["the sequence of identifiers in the form", "current question, variables, keys and durations of the session after every event"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated tests; each form checked against the selection rules, each session beside a navigation model"
LEVEL_NOTE = "Held on the forms and sessions observed; only linear parts with individual submission are implemented, so only those are taken through sessions."
RULE = "each case is a test with its forms or session history; distinct by the XML of the test"
MODULES = ["pyslet/qtiv2/tests.py", "pyslet/qtiv2/variables.py", "pyslet/qtiv2/processing.py"]
REQUIRE = {"forms": 4000, "refused": 60, "shuffled": 500, "mixed": 200, "events": 1500, "skipped": 200, "branches": 100, "bad-keys": 200, "finished": 100, "written": 250, "rules-refused": 80}


class Part(object):

    def __init__(self, ident, kind):
        self.id = ident
        self.kind = kind
        self.required = self.fixed = False
        self.visible = self.keep = True
        self.select = None
        self.replacement = False
        self.shuffle = False
        self.children = []
        self.pre = []
        self.branch = []
        self.defaults = []
        self.parent = None

    def add(self, child):
        child.parent = self
        self.children.append(child)
        return child

    def mixed_in(self, parent):
        """an invisible section whose children are shuffled among *parent*'s"""
        return (self.kind == 'section' and parent.kind == 'section' and parent.shuffle and not self.fixed and
                not self.visible and not self.keep)

    def target(self):
        return len(self.children) if self.select is None else self.select

    def bad(self):
        need = sum(1 for c in self.children if c.required)
        t = self.target()
        if need > t:
            return True
        if not self.replacement:
            return t > len(self.children)
        return t > 0 and not self.children

    def walk(self):
        yield self
        for c in self.children:
            for x in c.walk():
                yield x

    def xml(self):
        b = lambda v: 'true' if v else 'false'
        rules = ''.join('<preCondition>%s</preCondition>' % e for e, f in self.pre) + ''.join(
            '<branchRule target="%s">%s</branchRule>' % (t, e) for t, e, f in self.branch)
        common = 'identifier="%s"' % self.id
        if self.kind == 'part':
            return '<testPart %s navigationMode="linear" submissionMode="individual">%s%s</testPart>' % (
                common, rules, ''.join(c.xml() for c in self.children))
        if self.required:
            common += ' required="true"'
        if self.fixed:
            common += ' fixed="true"'
        if self.kind == 'item':
            return '<assessmentItemRef %s href="%s.xml">%s%s</assessmentItemRef>' % (common, self.id.lower(), rules, ''.join(
                '<templateDefault templateIdentifier="T">%s</templateDefault>' % e for e, f in self.defaults))
        body = rules
        if self.select is not None:
            body += '<selection select="%i"%s/>' % (self.select, ' withReplacement="true"' if self.replacement else '')
        if self.shuffle:
            body += '<ordering shuffle="true"/>'
        return '<assessmentSection %s title="t" visible="%s"%s>%s%s</assessmentSection>' % (
            common, b(self.visible), '' if self.keep else ' keepTogether="false"', body, ''.join(c.xml() for c in self.children))


def test_xml(parts, outcomes=''):
    return '<?xml version="1.0" encoding="UTF-8"?><assessmentTest xmlns="%s" identifier="t" title="t">%s%s</assessmentTest>' % (
        qti.NS, outcomes, ''.join(p.xml() for p in parts))


def make_section(rng, ids, depth, empty=True):
    s = Part('S%i' % ids.pop(), 'section')
    for i in range(rng.choice((0, 1, 2, 3, 3, 4, 5) if empty else (1, 2, 3, 4))):
        if depth and rng.random() < 0.35:
            c = s.add(make_section(rng, ids, depth - 1))
        else:
            c = s.add(Part('I%i' % ids.pop(), 'item'))
        c.required = rng.random() < 0.2
        c.fixed = rng.random() < 0.2
    s.visible = rng.random() < 0.5
    s.keep = rng.random() < 0.5
    s.shuffle = rng.random() < 0.5
    if rng.random() < 0.6:
        n = len(s.children)
        s.replacement = rng.random() < 0.3
        s.select = rng.randint(0, n + (2 if s.replacement else (1 if rng.random() < 0.1 else 0)))
        need = sum(1 for c in s.children if c.required)
        if s.select < need and rng.random() < 0.85:
            s.select = need
        if s.select and not n and rng.random() < 0.9:
            s.select = 0
    return s


class Wrong(Exception):
    pass


def blocks(seq):
    """(identifier, content or None) for each block of a sequence"""
    out = []
    i = 0
    while i < len(seq):
        ident = seq[i]
        if ident.startswith('-'):
            raise Wrong("unexpected %s" % ident)
        end = None
        if ident.startswith('S') or ident.startswith('P'):
            depth = 0
            for j in range(i, len(seq)):
                if seq[j] == ident:
                    depth += 1
                elif seq[j] == '-' + ident:
                    depth -= 1
                    if depth == 0:
                        end = j
                        break
            if end is None:
                raise Wrong("%s is not closed" % ident)
            out.append((ident, seq[i + 1:end]))
            i = end + 1
        else:
            out.append((ident, None))
            i += 1
    return out


class Judge(object):

    def __init__(self, ctx, parts):
        self.ctx = ctx
        self.table = {}
        for p in parts:
            for x in p.walk():
                self.table[x.id] = x

    def times(self, sec, child, seen, limit):
        """how often *child* of *sec* may have been selected"""
        if not child.mixed_in(sec):
            return {seen.get(child.id, 0)}
        return self.feasible(child, seen, limit)

    def feasible(self, sec, seen, limit):
        """numbers of runs of the selection of *sec* that explain the blocks seen"""
        options = [(c, self.times(sec, c, seen, limit)) for c in sec.children]
        sums = {0}
        for c, o in options:
            sums = set(a + b for a in sums for b in o if a + b <= limit)
        out = set()
        for k in range(0, limit + 1):
            if k and sec.bad():
                break
            if k * sec.target() not in sums:
                continue
            # all children within their own bounds at once
            total = {0}
            for c, o in options:
                lo = k if c.required else 0
                hi = k * sec.target() if sec.replacement else k
                total = set(a + b for a in total for b in o if lo <= b <= hi)
            if k * sec.target() in total:
                out.add(k)
        return out

    def section(self, sec, content):
        bs = blocks(content)
        allowed = set()

        def collect(s):
            for c in s.children:
                if c.mixed_in(s):
                    collect(c)
                else:
                    allowed.add(c.id)
        collect(sec)
        seen = {}
        for ident, inner in bs:
            if ident not in allowed:
                raise Wrong("%s has no place in %s" % (ident, sec.id))
            seen[ident] = seen.get(ident, 0) + 1
        if 1 not in self.feasible(sec, seen, len(bs) + sum(1 for c in sec.walk()) + 3):
            raise Wrong("%s holds %r: not a selection of its children" % (sec.id, [b[0] for b in bs]))
        order = [c.id for c in sec.children]
        if any(c.mixed_in(sec) for c in sec.children):
            self.ctx.count("mixed")
            fixed = [ident for ident, inner in bs if ident in order and self.table[ident].fixed]
            if fixed != sorted(fixed, key=order.index):
                raise Wrong("%s: fixed children out of order: %r" % (sec.id, fixed))
        else:
            want = sorted((ident for ident, inner in bs), key=order.index)
            for i, (ident, inner) in enumerate(bs):
                c = self.table[ident]
                if (not sec.shuffle or c.fixed) and want[i] != ident:
                    raise Wrong("%s: %s is not in its place in %r" % (sec.id, ident, [b[0] for b in bs]))
                if self.table[want[i]].fixed and want[i] != ident:
                    raise Wrong("%s: %s was fixed at %i of %r" % (sec.id, want[i], i, [b[0] for b in bs]))
            if sec.shuffle and want != [b[0] for b in bs]:
                self.ctx.count("shuffled")
        for ident, inner in bs:
            if inner is not None:
                self.section(self.table[ident], inner)

    def form(self, parts, seq):
        if not seq or seq[0] != '':
            raise Wrong("index 0 is not the test: %r" % (seq[:1],))
        bs = blocks(seq[1:])
        if [b[0] for b in bs] != [p.id for p in parts]:
            raise Wrong("parts are %r" % [b[0] for b in bs])
        for (ident, inner), p in zip(bs, parts):
            ss = blocks(inner)
            if [b[0] for b in ss] != [s.id for s in p.children]:
                raise Wrong("sections of %s are %r" % (ident, [b[0] for b in ss]))
            for (i2, inner2), s in zip(ss, p.children):
                self.section(s, inner2)


def read(text, base=None):
    from pyslet.qtiv2.xml import QTIDocument
    doc = QTIDocument(baseURI=base) if base else QTIDocument()
    doc.read(src=io.BytesIO(text.encode('utf-8')))
    return doc


def case_forms(ctx):
    from pyslet.qtiv2 import tests, core
    rng = ctx.rng
    ids = list(range(400, 0, -1))
    parts = []
    for i in range(rng.choice((1, 1, 2))):
        p = Part('P%i' % ids.pop(), 'part')
        for j in range(rng.choice((1, 1, 2))):
            p.add(make_section(rng, ids, rng.choice((1, 2, 3))))
        parts.append(p)
    text = test_xml(parts)
    ctx.witness(test=text)
    ctx.nontrivial(text)
    doc = read(text)
    everything = [x for p in parts for x in p.walk()]
    bad = [s for s in everything if s.kind == 'section' and s.bad()]

    def may_mix_fixed():
        for s in everything:
            if s.kind == 'section' and s.parent.kind == 'section' and s.mixed_in(s.parent) and any(c.fixed for c in s.children):
                return True
        return False
    unsure = may_mix_fixed()
    must = any(s.bad() for p in parts for s in p.children)
    judge = Judge(ctx, parts)
    for n in range(ctx_forms(rng)):
        try:
            form = tests.TestForm(doc.root)
        except core.SelectionError as e:
            ctx.check(bad or unsure, "refused-good", "a test with good rules was refused: %r" % (e,))
            ctx.count("refused")
            continue
        ctx.check(not must, "accepted-bad", "a form was made from impossible rules: %r" % list(form))
        seq = list(form)
        ctx.count("forms")
        try:
            judge.form(parts, seq)
        except Wrong as e:
            ctx.fail("form", "%s; form %r" % (e, seq))
        ctx.equal(len(form), len(seq), "length", "len(form)")
        ctx.equal([form[i] for i in range(len(seq))], seq, "index", "form[i]")
        for ident in set(seq) | {'nowhere'}:
            ctx.equal(list(form.find(ident)), [i for i, x in enumerate(seq) if x == ident], "find", "form.find(%r)" % ident)
        ident = rng.choice(seq)
        ctx.equal(form.index(ident), seq.index(ident), "index-of", "form.index(%r)" % ident)
        try:
            if rng.random() < 0.5:
                form[1] = 'x'
            else:
                del form[1]
        except TypeError:
            pass
        else:
            ctx.fail("writable", "a form was changed")
        ctx.check(form.test is doc.root, "test-link", "form.test")


def ctx_forms(rng):
    return rng.choice((3, 6, 10))


def case_variety(ctx):
    """one section: every selection and order that is allowed comes up"""
    from pyslet.qtiv2 import tests
    rng = ctx.rng
    s = Part('S1', 'section')
    n = rng.randint(2, 4)
    kinds = []
    for i in range(n):
        if rng.random() < 0.3:
            c = s.add(Part('S%i' % (10 + i), 'section'))
            c.add(Part('I%i' % (20 + i), 'item'))
            if rng.random() < 0.5:
                c.add(Part('I%i' % (30 + i), 'item'))
            c.visible = rng.random() < 0.7
        else:
            c = s.add(Part('I%i' % (10 + i), 'item'))
        c.required = rng.random() < 0.25
        c.fixed = rng.random() < 0.25
    s.shuffle = rng.random() < 0.7
    need = sum(1 for c in s.children if c.required)
    s.replacement = rng.random() < 0.3
    s.select = rng.randint(max(1, need), n) if rng.random() < 0.8 else None
    if s.select is None:
        s.replacement = False
    p = Part('P1', 'part')
    p.add(s)
    text = test_xml([p])
    ctx.witness(test=text)
    ctx.nontrivial(text)
    doc = read(text)
    judge = Judge(ctx, [p])
    import itertools
    idx = range(n)
    t = s.target()
    picks = set()
    gen_ = itertools.combinations_with_replacement(idx, t) if s.replacement else itertools.combinations(idx, t)
    for c in gen_:
        if all(i in c for i in idx if s.children[i].required):
            picks.add(c)
    got_picks = set()
    places = {}
    rounds = 250
    for r in range(rounds):
        seq = list(tests.TestForm(doc.root))
        ctx.count("forms")
        try:
            judge.form([p], seq)
        except Wrong as e:
            ctx.fail("form", "%s; form %r" % (e, seq))
        order = [c.id for c in s.children]
        top = [b[0] for b in blocks(seq[3:-2])]
        pick = tuple(sorted(order.index(i) for i in top))
        got_picks.add(pick)
        for at, ident in enumerate(top):
            places.setdefault((pick, ident), set()).add(at)
    # every child that may be selected is selected at some time: each optional
    # child takes part in a random top-up with a chance of at least 1/4 a form
    if t > need:
        for i in idx:
            ctx.check(any(i in g for g in got_picks), "never-selected", "child %s is never selected in %i forms" % (s.children[i].id, rounds))
    if not s.replacement:
        for i in idx:
            if not s.children[i].required and t < n:
                ctx.check(any(i not in g for g in got_picks), "always-selected", "optional child %s is selected in all %i forms" % (s.children[i].id, rounds))
    elif t > need and n > 1 and t - need >= 1:
        # repeats are possible: a top-up may pick something selected before
        again = any(len(set(g)) < len(g) for g in got_picks)
        if t >= 2:
            ctx.check(again, "never-repeated", "nothing is ever repeated with replacement in %i forms" % rounds)
    ctx.check(got_picks <= picks, "impossible-pick", "%r" % (got_picks - picks,))
    if s.shuffle and len(picks) == 1 and not s.replacement:
        pick = next(iter(picks))
        free = [at for at, i in enumerate(pick) if not s.children[i].fixed]
        for at in free:
            ident = s.children[pick[at]].id
            ctx.equal(places.get((pick, ident)), set(free), "never-shuffled", "places of %s over %i forms" % (ident, rounds))
        ctx.count("shuffled")


# ---------------------------------------------------------------- sessions

ITEM = ('<?xml version="1.0" encoding="UTF-8"?><assessmentItem xmlns="%s" identifier="%%s" title="t" adaptive="false" timeDependent="false">'
        '<responseDeclaration identifier="R" cardinality="single" baseType="identifier"><mapping defaultValue="0"><mapEntry mapKey="A" mappedValue="1"/>'
        '<mapEntry mapKey="B" mappedValue="2"/></mapping></responseDeclaration>'
        '<outcomeDeclaration identifier="SCORE" cardinality="single" baseType="float"/>'
        '<templateDeclaration identifier="T" cardinality="single" baseType="integer"><defaultValue><value>7</value></defaultValue></templateDeclaration>'
        '<itemBody><choiceInteraction responseIdentifier="R" shuffle="false" maxChoices="1"><simpleChoice identifier="A">a</simpleChoice>'
        '<simpleChoice identifier="B">b</simpleChoice><simpleChoice identifier="C">c</simpleChoice></choiceInteraction></itemBody>'
        '<responseProcessing><setOutcomeValue identifier="SCORE"><mapResponse identifier="R"/></setOutcomeValue></responseProcessing>'
        '</assessmentItem>') % qti.NS


def condition(rng, items, before):
    """a condition as (XML, function of the model)"""
    r = rng.random()
    if r < 0.25 or not items:
        v = rng.random() < 0.5
        return '<baseValue baseType="boolean">%s</baseValue>' % ('true' if v else 'false'), lambda m: v
    q = rng.choice(before) if before and rng.random() < 0.8 else rng.choice(items)
    n = rng.choice((0, 1, 2))
    if r < 0.65:
        tag, fn = rng.choice((('gt', lambda a: a > n), ('lt', lambda a: a < n), ('gte', lambda a: a >= n), ('lte', lambda a: a <= n)))
        xml = '<%s><variable identifier="%s.SCORE"/><baseValue baseType="float">%i</baseValue></%s>' % (tag, q.id, n, tag)
        return xml, lambda m: m.score.get(q.id) is not None and fn(m.score[q.id])
    if r < 0.8:
        return '<isNull><variable identifier="%s.R"/></isNull>' % q.id, lambda m: m.response.get(q.id) is None
    x, f = condition(rng, items, before)
    # the negation of NULL is NULL
    if '.SCORE' in x:
        return x, f
    return '<not>%s</not>' % x, lambda m: not f(m)


class Model(object):

    def __init__(self, parts, seq, table):
        self.seq = seq
        self.table = table
        self.score = {}
        self.response = {}
        self.template = dict((i, 7) for i in table if table[i].kind == 'item')
        self.at = 0
        self.visited = []
        self.skipped = self.branches = 0

    def close_of(self, i):
        return self.seq.index('-' + self.seq[i], i)

    def leave(self, i):
        """the position that follows the one at *i*, its branch rules included"""
        ident = self.seq[i].lstrip('-')
        for target, xml, f in self.table[ident].branch:
            if f(self):
                self.branches += 1
                if target == 'EXIT_TEST':
                    return len(self.seq)
                kinds = {'EXIT_SECTION': ('section',), 'EXIT_TESTPART': ('part',)}.get(target)
                if kinds is None:
                    return self.seq.index(target, i)
                p = self.table[ident].parent
                while p.kind not in kinds:
                    p = p.parent
                return self.seq.index('-' + p.id, i) + 1
        return i + 1

    def next(self):
        i = 1 if self.at == 0 else self.leave(self.at)
        while i < len(self.seq):
            ident = self.seq[i]
            if ident.startswith('-'):
                i = self.leave(i)
                continue
            p = self.table[ident]
            if not all(f(self) for x, f in p.pre):
                self.skipped += 1
                i = i + 1 if p.kind == 'item' else self.close_of(i) + 1
                continue
            if p.kind == 'item':
                for x, f in p.defaults:
                    self.template[ident] = f
                self.score[ident] = 0.0
                self.at = i
                self.visited.append(ident)
                return
            i += 1
        self.at = None

    def opened(self):
        """identifiers of what the current question is in, itself included"""
        out = []
        p = self.table[self.seq[self.at]]
        while p is not None:
            out.append(p.id)
            p = p.parent
        return out


def case_session(ctx):
    from pyslet import html401 as html
    from pyslet.qtiv2 import tests, variables
    rng = ctx.rng
    ids = list(range(400, 0, -1))
    parts = []

    def section(depth):
        s = Part('S%i' % ids.pop(), 'section')
        for i in range(rng.choice((1, 2, 2, 3))):
            if depth and rng.random() < 0.4:
                s.add(section(depth - 1))
            else:
                s.add(Part('I%i' % ids.pop(), 'item'))
        s.visible = rng.random() < 0.5
        return s
    for i in range(rng.choice((1, 2, 2, 3))):
        p = Part('P%i' % ids.pop(), 'part')
        for j in range(rng.choice((1, 1, 2))):
            p.add(section(rng.choice((0, 1, 2))))
        parts.append(p)
    everything = [x for p in parts for x in p.walk()]
    items = [x for x in everything if x.kind == 'item']
    for x in everything:
        before = [i for i in items if everything.index(i) < everything.index(x)]
        for k in range(rng.choice((0, 0, 0, 1, 1, 2))):
            x.pre.append(condition(rng, items, before))
        if x.kind == 'item' and rng.random() < 0.4:
            v = rng.randint(0, 5)
            x.defaults.append(('<baseValue baseType="integer">%i</baseValue>' % v, v))
    for x in everything:
        before = [i for i in items if everything.index(i) <= everything.index(x)]
        for k in range(rng.choice((0, 0, 0, 0, 1, 2))):
            if x.kind == 'part':
                later = [p.id for p in parts[parts.index(x) + 1:]]
                targets = ['EXIT_TEST'] + later * 3
            else:
                # an ancestor's later sibling or one of its own: opened without skipping over conditions
                later = []
                y = x
                while y.kind != 'part':
                    sib = y.parent.children
                    later += [z.id for z in sib[sib.index(y) + 1:]]
                    y = y.parent
                targets = ['EXIT_TEST', 'EXIT_TESTPART'] + later * 3
                if x.parent.kind == 'section':
                    targets += ['EXIT_SECTION'] * 3
            e, f = condition(rng, items, before)
            x.branch.append((rng.choice(targets), e, f))
    d = ctx.tmpdir()
    outs = []
    for i in range(rng.randint(0, 3)):
        base = rng.choice(('integer', 'float', 'string', 'boolean'))
        raw, v = {'integer': ('5', 5), 'float': ('1.5', 1.5), 'string': ('x', 'x'), 'boolean': ('true', True)}[base]
        outs.append(('O%i' % i, base, raw if rng.random() < 0.5 else None, v))
    text = test_xml(parts, ''.join('<outcomeDeclaration identifier="%s" cardinality="single" baseType="%s">%s</outcomeDeclaration>' % (
        n, b, '<defaultValue><value>%s</value></defaultValue>' % raw if raw else '') for n, b, raw, v in outs))
    with open(os.path.join(d, 'test.xml'), 'w') as f:
        f.write(text)
    for i in items:
        with open(os.path.join(d, i.id.lower() + '.xml'), 'w') as f:
            f.write(ITEM % i.id)
    ctx.witness(test=text)
    ctx.nontrivial(text)
    from pyslet import rfc2396 as uri
    from pyslet.qtiv2.xml import QTIDocument
    doc = QTIDocument(baseURI=str(uri.URI.from_path(os.path.join(d, 'test.xml'))))
    doc.read()
    form = tests.TestForm(doc.root)
    seq = list(form)
    table = dict((x.id, x) for x in everything)
    try:
        Judge(ctx, parts).form(parts, seq)
    except Wrong as e:
        ctx.fail("form", "%s; form %r" % (e, seq))
    state = variables.TestSessionState(form)
    model = Model(parts, seq, table)
    keys = []
    low = {}
    high = {}

    def check(where):
        q = state.get_current_question()
        got = None if q is None else q.identifier
        want = None if model.at is None else seq[model.at]
        ctx.equal(got, want, "question", "%s: current question after %r" % (where, model.visited))
        tp = state.get_current_test_part()
        p = None if want is None else table[want]
        while p is not None and p.kind != 'part':
            p = p.parent
        ctx.equal(None if tp is None else tp.identifier, None if p is None else p.id, "part", "%s: current part" % where)
        for i in items:
            v = state[i.id + '.SCORE'].value
            ctx.equal(v, model.score.get(i.id), "score", "%s: %s.SCORE" % (where, i.id))
            r = state[i.id + '.R'].value
            ctx.equal(r, model.response.get(i.id), "response", "%s: %s.R" % (where, i.id))
            t = state[i.id + '.T'].value
            ctx.equal(t, model.template[i.id], "template-default", "%s: %s.T" % (where, i.id))
        for ident in list(table) + ['']:
            v = state[(ident + '.' if ident else '') + 'duration'].value
            if ident in low:
                ctx.check(v is not None and low[ident] - 1e-4 <= v <= high[ident] + 1e-4, "duration",
                          "%s: the duration of %r is %r, expected %.5f to %.5f" % (where, ident or 'the test', v, low[ident], high[ident]))
            else:
                ctx.check(not v, "duration-unopened", "%s: %r was never open and has duration %r" % (where, ident, v))
        ctx.check(state.key not in keys, "key-repeated", "%s: the key is one used before" % where)
        keys.append(state.key)

    def page(div, where):
        """the page offers exactly the actions that are possible now, with the current key"""
        forms = list(div.find_children_depth_first(html.Form))
        ctx.equal([f.method for f in forms], [html.Method.POST], "page-form", "%s: method of the form" % where)
        buttons = dict((b.name, b) for b in div.find_children_depth_first(html.Button))
        ctx.equal(sorted(buttons), ['SAVE'] if model.at is None else ['SAVE', 'SUBMIT'], "page-actions", "%s: actions" % where)
        for n, b in buttons.items():
            ctx.equal(b.value, state.key, "page-key", "%s: key of action %s" % (where, n))
            ctx.equal(b.type, html.ButtonType.submit, "page-button", "%s: type of button %s" % (where, n))
            ctx.equal(bool(b.disabled), model.at is None, "page-disabled", "%s: action %s disabled" % (where, n))
        inputs = [i.name for i in div.find_children_depth_first(html.Input)]
        if model.at is None:
            ctx.equal(inputs, [], "page-inputs", "%s: controls" % where)
        elif not where.startswith('submission'):
            ctx.equal(inputs, [seq[model.at] + '.R'] * 3, "page-inputs", "%s: controls" % where)
        else:
            n = inputs.count(seq[model.at] + '.R')
            ctx.equal(n, 3, "page-inputs", "%s: controls %r" % (where, inputs))

    def names():
        """the session as a mapping of variable names"""
        got = list(state)
        ctx.equal(len(got), len(set(got)), "names-repeated", "names %r" % got)
        ctx.equal(len(state), len(got), "names-len", "len(state)")
        want = {'duration'} | set(o[0] for o in outs) | set(x + '.duration' for x in table)
        want |= set(i.id + '.' + n for i in items for n in ('T', 'R', 'SCORE', 'numAttempts', 'completionStatus'))
        ctx.check(want <= set(got), "names", "missing names: %r" % sorted(want - set(got)))
        n = rng.choice(sorted(want))
        ctx.check(n in state, "contains", "%r in state" % n)
        for n in ('nowhere', 'nowhere.R', items[0].id + '.nowhere', parts[0].id + '.SCORE'):
            ctx.check(n not in state and n not in got, "contains", "%r in state" % n)
            ctx.raises(KeyError, lambda: state[n], "unknown-name", "state[%r]" % n)
        i = rng.choice(items)
        for n, d, cls in ((i.id + '.R', 'R', variables.ResponseDeclaration), (i.id + '.SCORE', 'SCORE', variables.OutcomeDeclaration),
                          (i.id + '.T', 'T', variables.TemplateDeclaration)) + tuple((o[0], o[0], variables.OutcomeDeclaration) for o in outs):
            x = state.get_declaration(n)
            ctx.check(isinstance(x, cls) and x.identifier == d, "declaration", "get_declaration(%r) is %r" % (n, x))
            ctx.equal(bool(state.is_response(n)), cls is variables.ResponseDeclaration, "is-response", n)
        for n in ('duration', parts[0].id + '.duration'):
            ctx.check(state.is_response(n), "is-response", n)

    def bad_key(act):
        """an event with a key that isn't the current one is refused and changes nothing"""
        ctx.count("bad-keys")
        old = [k for k in keys if k != state.key and k]
        now = state.key
        if old and rng.random() < 0.6:
            k, exc = rng.choice(old), variables.SessionKeyExpired
        else:
            k, exc = rng.choice(('x', now[:-1], now + 'a', now.upper() + 'Z')), variables.SessionKeyMismatch
        try:
            act(k)
        except exc:
            pass
        except (variables.SessionKeyExpired, variables.SessionKeyMismatch) as e:
            ctx.fail("wrong-refusal", "key %r of %r raised %r" % (k, keys, e))
        else:
            ctx.fail("bad-key", "an event with the wrong key was accepted")
        ctx.equal(state.key, now, "key-changed", "key after a refused event")

    keys.append(state.key)
    if rng.random() < 0.4:
        bad_key(lambda k: state.begin_session(k))
    t0 = time.time()
    div = state.begin_session(state.key)
    t1 = time.time()
    last = (t0, t1)
    model.next()
    low[''] = high[''] = 0.0
    if model.at is not None:
        low[seq[model.at]] = high[seq[model.at]] = 0.0
    check("begin_session")
    page(div, "begin_session")
    names()
    for n, b, raw, v in outs:
        got = state[n]
        want = v if raw else {'integer': 0, 'float': 0.0}.get(b)
        ctx.equal((got.value, type(got.value)), (want, type(want)), "test-outcome", "%s after begin_session" % n)
    for step in range(40):
        ctx.count("events")
        if model.at is None:
            break
        q = seq[model.at]
        if rng.random() < 0.15:
            bad_key(lambda k: state.handle_event({rng.choice(('SAVE', 'SUBMIT')): k, q + '.R': 'B'}))
        if rng.random() < 0.05:
            try:
                state.handle_event({q + '.R': 'B'})
            except variables.SessionActionMissing:
                pass
            else:
                ctx.fail("no-action", "an event without an action was accepted")
        time.sleep(0.001)
        params = {}
        a = rng.choice((None, 'A', 'B', 'C'))
        if a:
            params[q + '.R'] = a
        if rng.random() < 0.2:
            params[rng.choice(items).id + 'x.R'] = 'B'
        save = rng.random() < 0.25
        params['SAVE' if save else 'SUBMIT'] = state.key
        opened = model.opened() + ['']
        t0 = time.time()
        div = state.handle_event(params)
        t1 = time.time()
        for ident in opened:
            low[ident] = low.get(ident, 0.0) + max(0.0, t0 - last[1])
            high[ident] = high.get(ident, 0.0) + t1 - last[0]
        last = (t0, t1)
        if a:
            model.saved = dict([(q, a)])
        elif not getattr(model, 'saved', {}).get(q):
            model.saved = {}
        if save:
            check("save of %s" % q)
            page(div, "save")
            continue
        if q in model.saved:
            model.response[q] = model.saved[q]
        model.saved = {}
        r = model.response.get(q)
        model.score[q] = {None: 0.0, 'A': 1.0, 'B': 2.0, 'C': 0.0}[r]
        model.next()
        if model.at is not None:
            low.setdefault(seq[model.at], 0.0)
            high.setdefault(seq[model.at], 0.0)
        check("submission of %s with %r" % (q, a))
        page(div, "submission")
    ctx.count("skipped", model.skipped)
    ctx.count("branches", model.branches)
    if model.at is None:
        ctx.count("finished")
        # nothing happens any more
        page(state.handle_event({rng.choice(('SUBMIT', 'SAVE')): state.key}), "event after the end")
        check("event after the end")
    names()


def case_written(ctx):
    """a test written by the library still has all its rules"""
    import xml.etree.ElementTree as ET
    rng = ctx.rng
    ids = list(range(400, 0, -1))
    parts = []
    for i in range(rng.choice((1, 2))):
        p = Part('P%i' % ids.pop(), 'part')
        p.add(make_section(rng, ids, 2))
        parts.append(p)
    everything = [x for p in parts for x in p.walk()]
    items = [x for x in everything if x.kind == 'item']
    for x in everything:
        for k in range(rng.choice((0, 0, 1, 2))):
            x.pre.append(condition(rng, items, []))
        for k in range(rng.choice((0, 0, 1, 2))):
            e, f = condition(rng, items, [])
            x.branch.append(('EXIT_TEST', e, f))
        if x.kind == 'item' and rng.random() < 0.4:
            x.defaults.append(('<baseValue baseType="integer">3</baseValue>', 3))
    text = test_xml(parts, '<outcomeDeclaration identifier="O" cardinality="single" baseType="integer"/>')
    ctx.witness(test=text)
    ctx.nontrivial(text)

    def tree(e):
        a = dict(e.attrib)
        for k, v in (('withReplacement', 'false'), ('required', 'false'), ('fixed', 'false'), ('keepTogether', 'true'), ('shuffle', 'false'), ('category', '')):
            if a.get(k) == v:
                del a[k]
        for k in list(a):
            if k.startswith('{'):
                del a[k]
        return (e.tag, sorted(a.items()), (e.text or '').strip(), [tree(c) for c in e])
    doc = read(text)
    want = tree(ET.fromstring(text.encode('utf-8')))
    try:
        got = tree(ET.fromstring(bytes(str(doc), 'utf-8')))
    except ET.ParseError as e:
        ctx.fail("written-malformed", "the test written is not well-formed: %s" % e)
    a, b, path = got, want, ''
    while a != b:
        # describe the first difference only
        path += '/' + b[0].split('}')[-1]
        ctx.equal(a[:3], b[:3], "written", "the test written: " + path)
        ctx.equal([c[0] for c in a[3]], [c[0] for c in b[3]], "written-children", "the test written: " + path)
        a, b = [(x, y) for x, y in zip(a[3], b[3]) if x != y][0]
    ctx.count("written")


def case_refused_rules(ctx):
    """rules that point nowhere are reported when they apply, not ignored"""
    from pyslet import rfc2396 as uri
    from pyslet.qtiv2 import core, tests, variables
    from pyslet.qtiv2.xml import QTIDocument
    rng = ctx.rng
    ids = list(range(90, 0, -1))
    parts = []
    for i in range(2):
        p = Part('P%i' % ids.pop(), 'part')
        s = p.add(Part('S%i' % ids.pop(), 'section'))
        s.add(Part('I%i' % ids.pop(), 'item'))
        s.add(Part('I%i' % ids.pop(), 'item'))
        parts.append(p)
    q = parts[0].children[0].children[0]
    on = rng.random() < 0.75
    cond = '<baseValue baseType="boolean">%s</baseValue>' % ('true' if on else 'false')
    kind = rng.choice(('branch-nowhere', 'branch-part', 'branch-other', 'part-item', 'part-nowhere', 'default-nowhere', 'default-outcome', 'type', 'cardinality', 'part-section-exit'))
    begin = False
    if kind == 'branch-nowhere':
        q.branch.append(('nowhere', cond, None))
    elif kind == 'branch-part':
        q.branch.append((parts[1].id, cond, None))
    elif kind == 'branch-other':
        q.branch.append((rng.choice((parts[1].children[0].id, parts[1].children[0].children[0].id)), cond, None))
    elif kind == 'part-item':
        parts[0].branch.append((rng.choice((parts[1].children[0].id, parts[1].children[0].children[0].id)), cond, None))
    elif kind == 'part-nowhere':
        parts[0].branch.append(('nowhere', cond, None))
    elif kind == 'part-section-exit':
        parts[0].branch.append((rng.choice(('EXIT_SECTION', 'EXIT_TESTPART')), cond, None))
    else:
        on = begin = True
        if kind == 'default-nowhere':
            t = 'nowhere'
        elif kind == 'default-outcome':
            t = rng.choice(('SCORE', 'R'))
        if kind in ('default-nowhere', 'default-outcome'):
            q.defaults.append((None, None))
        elif kind == 'type':
            q.pre.append(('<baseValue baseType="integer">1</baseValue>', None))
        else:
            q.pre.append(('<multiple><baseValue baseType="boolean">true</baseValue></multiple>', None))
    text = test_xml(parts)
    if kind in ('default-nowhere', 'default-outcome'):
        text = text.replace('<templateDefault templateIdentifier="T">None</templateDefault>',
                            '<templateDefault templateIdentifier="%s"><baseValue baseType="integer">1</baseValue></templateDefault>' % t)
    ctx.witness(kind=kind, on=on, test=text)
    ctx.nontrivial(text)
    d = ctx.tmpdir()
    with open(os.path.join(d, 'test.xml'), 'w') as f:
        f.write(text)
    for p in parts:
        for i in p.children[0].children:
            with open(os.path.join(d, i.id.lower() + '.xml'), 'w') as f:
                f.write(ITEM % i.id)
    doc = QTIDocument(baseURI=str(uri.URI.from_path(os.path.join(d, 'test.xml'))))
    doc.read()
    state = variables.TestSessionState(tests.TestForm(doc.root))
    done = []
    try:
        state.begin_session(state.key)
        done.append('begin')
        for i in range(2):
            state.handle_event({'SUBMIT': state.key})
            done.append('submit')
    except core.ProcessingError as e:
        ctx.check(on, "rule-not-applying", "a rule that does not apply is refused: %r" % (e,))
        at = [] if begin else (['begin'] if kind.startswith('branch') else ['begin', 'submit'])
        ctx.equal(done, at, "refused-when", "events before the refusal")
        ctx.count("rules-refused")
        return
    ctx.check(not on, "rule-ignored", "a %s rule was accepted" % kind)


WORKLOADS = [
    Workload("written", case_written, quick=300, thorough=4000),
    Workload("refused-rules", case_refused_rules, quick=200, thorough=2000),
    Workload("forms", case_forms, quick=4000, thorough=30000),
    Workload("variety", case_variety, quick=120, thorough=900),
    Workload("session", case_session, quick=2000, thorough=16000),
]
