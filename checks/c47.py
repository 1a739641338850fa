"""C47: QTI expressions evaluate as the specification defines.

Well typed (and some badly typed) expressions are generated together with
the variables they use, written as assessment items, read by the library and
evaluated; an independent evaluator (lib/qti.py) says what each must give.
"""

import random

from lib import qti
from lib.harness import Workload

META = dict(
    id="C47", title="QTI expressions evaluate as the specification defines",
    statement="Every QTI 2.1 expression read from an item evaluates to the value, base type and cardinality the information model defines, NULL where a NULL operand "
              "makes the result unknown, and a ProcessingError where types don't fit, without changing any variable; random expressions only give, and can give, "
              "every allowed value; values can be copied, and set from their text, unchanged.",
    quantifier=dict(over=["programs", "inputs"], text="all expressions up to depth 4 over all base types and cardinalities x values of variables"),
    why_tests_cant="the tests evaluate single operators on fixed values",
    anchors=dict(files=["pyslet/qtiv2/expressions.py", "pyslet/qtiv2/variables.py", "pyslet/qtiv2/core.py"],
                 mechanism=[dict(name="Expression.evaluate", where="pyslet/qtiv2/expressions.py"), dict(name="Value", where="pyslet/qtiv2/variables.py"),
                            dict(name="ShapeElementMixin.test_point", where="pyslet/qtiv2/core.py")],
                 observe_at=["the value returned by evaluate", "the variables of the session"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated expressions evaluated by the library, every result compared online with an independent evaluator; variables watched for changes"
LEVEL_NOTE = "Held on the expressions observed; rounding ties, points on a boundary and overflows are undecided."
RULE = "each case is an expression with its variables; distinct by the XML of the expression"
MODULES = ["pyslet/qtiv2/expressions.py", "pyslet/qtiv2/variables.py", "pyslet/qtiv2/core.py"]
REQUIRE = {"values": 6000, "nulls": 1200, "errors": 250, "random": 200, "copies": 1500, "op:boolean": 3000, "op:containers": 500}

TYPES = [('single', b) for b in qti.BASES] + [('multiple', b) for b in qti.BASES] + [('ordered', b) for b in qti.BASES] + [('single', 'boolean')] * 40 + \
    [('single', 'integer')] * 10 + [('single', 'float')] * 10 + [('record', None)]


def session(ctx, scope, body):
    from pyslet.qtiv2 import variables
    doc = qti.read_item(qti.item(body, scope.xml()))
    state = variables.ItemSessionState(doc.root)
    state.begin_session()
    ctx.keep = doc
    return doc, state


def snapshot(state):
    return {k: repr(qti.lib_value(state[k])) for k in sorted(state)}


def show(v):
    return repr(v)


def narrow(e, lib, state, scope, got, want):
    """The smallest part of *e* that has the wrong value"""
    for x, y in zip(e.kids, lib.get_children()):
        try:
            w = qti.Oracle(scope)(x)
            g = qti.lib_value(y.evaluate(state))
        except Exception:
            continue
        if not qti.same(g, w):
            return narrow(x, y, state, scope, g, w)
    return e, got, want


def case_expr(ctx):
    from pyslet.qtiv2 import core
    rng = ctx.rng
    scope = qti.Scope(rng)
    maker = qti.Maker(rng, scope, rng.choice((0.0, 0.0, 0.03, 0.1)))
    exprs = []
    for i in range(24):
        card, base = rng.choice(TYPES)
        exprs.append(maker.make(card, base, rng.randint(1, 4)))
    body = '<responseProcessing>' + ''.join('<setOutcomeValue identifier="OR">%s</setOutcomeValue>' % e.xml() for e in exprs) + '</responseProcessing>'
    doc, state = session(ctx, scope, body)
    rules = list(doc.root.ResponseProcessing.get_children())
    ctx.check(len(rules) == len(exprs), "rules", "%d of %d rules were read" % (len(rules), len(exprs)))
    before = snapshot(state)
    for e, r in zip(exprs, rules):
        oracle = qti.Oracle(scope)
        want = err = None
        undecided = False
        try:
            want = oracle(e)
        except qti.Err as x:
            err = x
        except qti.Undecided:
            undecided = True
        ctx.witness(expression=e.xml(), scope=scope.xml(), want=repr(want), err=repr(err))
        ctx.nontrivial(e.xml())
        try:
            got = qti.lib_value(r.Expression.evaluate(state))
        except core.ProcessingError as x:
            if undecided:
                continue
            ctx.check(want is None or oracle.wild, "refused", "%s was refused (%s), expected %s" % (e.xml(), x, want))
            ctx.count("errors")
            continue
        except (ValueError, OverflowError):
            if undecided or err is not None:
                # integers out of range
                continue
            raise
        if undecided:
            ctx.count("undecided")
            continue
        if err is not None:
            ctx.check(oracle.nulls, "accepted", "%s (%s) gives %s" % (e.xml(), err, got))
            ctx.count("undecided")
            continue
        if not qti.same(got, want):
            e, got, want = narrow(e, r.Expression, state, scope, got, want)
        ctx.check(qti.same(got, want), "value:" + e.name, "%s is %s, expected %s" % (e.xml(), got, want))
        ctx.count("values")
        if want.val is None:
            ctx.count("nulls")
        ctx.count("op:" + (want.base if want.card == 'single' and want.base == 'boolean' else 'containers' if want.card in ('multiple', 'ordered') else 'other'))
    after = snapshot(state)
    ctx.equal(after, before, "variables", "after evaluating expressions the variables are")


def case_random(ctx):
    """Expressions with random results"""
    from pyslet.qtiv2 import core
    rng = ctx.rng
    random.seed(rng.getrandbits(64))
    scope = qti.Scope(rng)
    maker = qti.Maker(rng, scope, 0)
    kind = rng.choice(('integer', 'integer', 'float', 'random', 'random'))
    allowed = None
    if kind == 'integer':
        lo = rng.randint(-5, 10)
        step = rng.choice((1, 1, 2, 3, 5))
        hi = lo + rng.randint(0, 12)
        at = {'max': str(hi)}
        if lo or rng.random() < 0.5:
            at['min'] = str(lo)
        if step != 1 or rng.random() < 0.5:
            at['step'] = str(step)
        if rng.random() < 0.3:
            n = rng.choice(sorted(at))
            scope.templates['TX'] = qti.V('single', 'integer', int(at[n]))
            at[n] = '{TX}'
        e = qti.E('randomInteger', at)
        allowed = list(range(lo, hi + 1, step))
        base = 'integer'
    elif kind == 'float':
        lo = rng.uniform(-10, 10)
        hi = lo + rng.choice((0.0, 1.0, 1e-3, 100.0))
        at = {'max': repr(hi), 'min': repr(lo)}
        e = qti.E('randomFloat', at)
        base = 'float'
    else:
        base = rng.choice(qti.BASES)
        e = maker.make(rng.choice(('multiple', 'ordered')), base, 2)
        oracle = qti.Oracle(scope)
        try:
            v = oracle(e)
        except (qti.Err, qti.Undecided):
            return
        if v.card is None or oracle.wild:
            return
        base = v.base
        allowed = v.val
        e = qti.E('random', kids=[e])
    doc, state = session(ctx, scope, '<responseProcessing><setOutcomeValue identifier="OR">%s</setOutcomeValue></responseProcessing>' % e.xml())
    rule, = doc.root.ResponseProcessing.get_children()
    ctx.witness(expression=e.xml(), scope=scope.xml(), allowed=allowed)
    ctx.nontrivial(e.xml() + repr(allowed))
    seen = []
    for i in range(400):
        got = qti.lib_value(rule.Expression.evaluate(state))
        if allowed is None and kind == 'random':
            ctx.check(got.val is None, "random-null", "a member of NULL is %s" % got)
            ctx.count("nulls")
            return
        ctx.check(got.card == 'single' and got.base == base and got.val is not None, "random-type", "%s gives %s" % (e.xml(), got))
        if kind == 'float':
            ctx.check(lo <= got.val <= hi, "random-range", "%s gives %s" % (e.xml(), got))
        else:
            if base in ('float', 'duration') and got.val not in allowed:
                # the last bits depend on the order of additions
                for x in allowed:
                    if x == got.val or abs(x - got.val) <= 1e-9 * abs(x):
                        got.val = x
            ctx.check(got.val in allowed, "random-range", "%s gives %s, not one of %s" % (e.xml(), got, allowed))
        seen.append(got.val)
    if kind == 'float':
        if hi > lo:
            w = (hi - lo) / 4
            for i in range(4):
                ctx.check(any(lo + i * w <= x <= lo + (i + 1) * w for x in seen), "random-spread", "no value in quarter %d of [%s, %s] in 400 tries" % (i, lo, hi))
    else:
        for x in allowed:
            ctx.check(x in seen, "random-spread", "%s never gives %r of %s in 400 tries" % (e.xml(), x, allowed))
            # frequencies of members
            n = allowed.count(x)
            ctx.check(abs(seen.count(x) - 400.0 * n / len(allowed)) < 200, "random-spread", "%s gives %r %d times of 400" % (e.xml(), x, seen.count(x)))
    ctx.count("random")


def case_values(ctx):
    """Values are copied, compared and set from text"""
    from pyslet.qtiv2 import variables as var
    rng = ctx.rng
    for i in range(12):
        card = rng.choice(('single', 'single', 'multiple', 'ordered', 'record'))
        base = None if card == 'record' else rng.choice(qti.BASES)
        v = qti.value(rng, card, base, 0.1)
        ctx.witness(value=repr(v))
        ctx.nontrivial(repr(v))
        b = None if base is None else var.BaseType.from_str(base)
        c = var.Cardinality.from_str(card)
        lib = var.Value.new_value(c, b)
        ctx.check(lib.is_null() and not lib, "new-value", "a new %s %s value isn't NULL" % (card, base))
        if v.val is not None:
            if card == 'record':
                d = {k: var.SingleValue.new_value(var.BaseType.from_str(x.base), qti.text_of(x.base, x.val)) for k, x in v.val.items()}
                if rng.random() < 0.5:
                    lib.set_value(d)
                else:
                    for k in d:
                        lib[k] = d[k]
            elif card == 'single':
                lib.set_value(qti.text_of(base, v.val) if rng.random() < 0.5 or base == 'uri' else v.val)
            else:
                lib.set_value(list(v.val) + [None] * rng.randint(0, 1))
        got = qti.lib_value(lib)
        ctx.check(qti.same(got, v), "set-value", "set to %s the value is %s" % (v, got))
        cp = var.Value.copy_value(lib)
        got = qti.lib_value(cp)
        ctx.check(qti.same(got, v), "copy", "the copy of %s is %s" % (v, got))
        ctx.count("copies")
        if card == 'single' and v.val is not None:
            s = str(lib)
            other = var.SingleValue.new_value(b, s)
            got = qti.lib_value(other)
            if base in ('float', 'duration'):
                ctx.check(got.base == base and abs(got.val - v.val) <= 1e-9 * abs(v.val), "text", "the text of %s is %r" % (v, s))
            else:
                ctx.check(qti.same(got, v), "text", "the text of %s is %r" % (v, s))
        # changing the copy leaves the original
        if card == 'record' and v.val:
            k = rng.choice(sorted(cp))
            del cp[k]
            ctx.check(k not in cp and len(cp) == len(v.val) - 1, "record-del", "after deleting %s the record has %s" % (k, list(cp)))
            ctx.check(qti.same(qti.lib_value(cp), qti.V('record', None, {x: y for x, y in v.val.items() if x != k})), "record-del", "after deleting %s the record is %s" % (k, qti.lib_value(cp)))
            if len(v.val) == 1:
                ctx.check(cp.is_null() and not cp, "record-empty", "an empty record isn't NULL")
        cp.set_value(None)
        ctx.check(cp.is_null() and not cp, "set-null", "set to None the copy is %s" % qti.lib_value(cp))
        ctx.check(qti.same(qti.lib_value(lib), v), "copy-shared", "after changing the copy %s has become %s" % (v, qti.lib_value(lib)))
    # text that isn't a value
    base = rng.choice(('boolean', 'directedPair', 'float', 'identifier', 'integer', 'pair', 'point', 'duration'))
    bad = {'boolean': ('', 'yes', 'TRUE', '2'), 'directedPair': ('A', 'A B C', '1 2', '', 'A ,'), 'pair': ('A', 'A B C', '1 2', ''), 'float': ('x', '1,5', '', '1e', '0x1'),
           'duration': ('x', 'P1D'), 'identifier': ('1a', 'a b', 'a:b', ''), 'integer': ('1.0', 'x', '', '1e3', '2147483648', '-2147483649', '99999999999999'),
           'point': ('1', '1 2 3', '1,2', 'a b', '1.5 2', '2147483648 0')}[base]
    t = rng.choice(bad)
    v = var.SingleValue.new_value(var.BaseType.from_str(base))
    ctx.witness(base=base, text=t)
    ctx.raises(ValueError, lambda: v.set_value(t), "bad-text", "%r was accepted as %s" % (t, base))
    ctx.count("bad-text")


def case_shapes(ctx):
    """Shapes moved to another origin contain the moved points"""
    from pyslet import html401 as html
    from pyslet.qtiv2 import core
    rng = ctx.rng
    shape, coords = qti.shape_of(rng)
    dx, dy = rng.randint(-20, 20), rng.randint(-20, 20)
    text = ','.join(str(c) for c in coords)
    ctx.witness(shape=shape, coords=text, offset=(dx, dy))
    ctx.nontrivial((shape, text, dx, dy))
    moved = html.Coords.from_str(text) if coords else html.Coords()
    core.offset_shape(core.Shape.from_str(shape), moved, -dx, -dy)
    got = [v.value for v in moved.values]
    want = [c + (0 if i > 1 and shape in ('circle', 'ellipse') else dy if i % 2 else dx) for i, c in enumerate(coords)]
    ctx.equal(got, want, "offset", "%s %s moved by %s has the coordinates" % (shape, text, (dx, dy)))
    ctx.count("offset")


WORKLOADS = [
    Workload("expr", case_expr, 1500, 12000, cpu=60),
    Workload("shapes", case_shapes, 300, 4000, cpu=60),
    Workload("random", case_random, 300, 4000, cpu=60),
    Workload("values", case_values, 300, 4000, cpu=60),
]
