"""C29: OData expressions evaluate as the protocol specifies.

Oracle: a reference printer and evaluator over an independent abstract
syntax: the tree is printed with random redundant brackets and white space
following the published precedence table and evaluated here with plain
Python values; the real parser and evaluator must agree on type and value for
every entity, before and after formatting."""

import re

from lib.harness import Workload
from lib import gen
from lib.odexpr import *

META = dict(
    id="C29", title="OData expressions evaluate as the protocol specifies",
    statement="Every $filter expression made of literals, parameters, properties, member paths, operators and method calls parses with the specified precedence and left associativity whatever redundant brackets and white space it contains, and evaluates for every entity, null values included, to the typed value the operator and method definitions give, or raises an evaluation error when operands are unsuitable; its formatted form parses to an expression with the same value and formats to itself.  $orderby, $expand and $select options parse into the list or tree they denote.  Text that is not an expression raises ValueError.",
    quantifier=dict(over=["programs", "inputs"], text="all expressions x all entities of the model"),
    why_tests_cant="tests evaluate some 200 fixed expressions, mostly one operator each; precedence, promotion and null rules interact",
    anchors=dict(files=["pyslet/odata2/core.py"],
                 mechanism=[dict(name="CommonExpression and subclasses", where="pyslet/odata2/core.py"),
                            dict(name="Parser.parse_common_expression", where="pyslet/odata2/core.py"),
                            dict(name="promote_types", where="pyslet/odata2/core.py")],
                 observe_at=["CommonExpression.from_str, evaluate, str()"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reference printer/evaluator compared with the real parser and evaluator on generated typed expressions and entities"
LEVEL_NOTE = "Held on the expressions and entities observed."
RULE = "each case is one expression (evaluated on several entities) or one option string; distinct by text"
MODULES = ["pyslet/odata2/core.py"]
REQUIRE = {"expressions": 3000, "evaluations": 9000, "values": 4000,
           "errors": 300, "formatted": 3000, "malformed": 1000,
           "options": 1000, "depth>=4": 500, "rejected": 300}


# --- workloads ---------------------------------------------------------------

def case_eval(ctx):
    from pyslet.odata2 import core
    rng = ctx.rng
    container, ents = entities(rng, 4)
    for i in range(12):
        d = rng.randint(1, 5)
        e = pick(rng, g_any, g_num, g_bool, g_bool)(rng, d)
        if rng.random() < 0.15:
            e = spoil(rng, e)
        params = {}
        e = bind(rng, e, params)
        text = ws(rng) + show(rng, e)[1] + ws(rng)
        evalues = dict((n, to_edm(t, v)) for n, (t, v) in params.items())
        ctx.witness(text=text, params=repr(params))
        ctx.count('expressions')
        if depth(e) >= 4:
            ctx.count('depth>=4')
        try:
            expr = core.CommonExpression.from_str(text, evalues)
        except ValueError as err:
            ctx.fail('parse-rejected', '%r: %s' % (text, err))
            continue
        formatted = str(expr)
        ctx.nontrivial(text)
        # parameters are formatted as literals, which exist for some types
        # only
        again = None
        if all(t in LITERALS for t, v in params.values()):
            try:
                again = core.CommonExpression.from_str(formatted)
            except ValueError as err:
                ctx.fail('format-rejected', '%r -> %r: %s' % (text, formatted, err))
            else:
                ctx.count('formatted')
                if not params:
                    ctx.equal(str(again), formatted, 'format-stable', text)
        for entity, env in ents:
            try:
                want = ('value', evaluate(e, env))
            except Err:
                want = ('error', None)
            except Skip:
                run_eval(expr, entity)
                continue
            got = run_eval(expr, entity)
            ctx.count('evaluations')
            ctx.count('errors' if want[0] == 'error' else 'values')
            ok = want[0] == got[0] and (want[0] == 'error' or same(got[1], want[1]))
            ctx.check(ok, 'value', '%r on %r: got %r, expected %r' % (text, env, got, want))
            if again is not None and ok and want[0] == 'value':
                if any(v is None for t, v in params.values()):
                    continue    # a null loses its type
                g2 = run_eval(again, entity)
                ctx.check(g2[0] == 'value' and same(g2[1], want[1]), 'format-value',
                          '%r formatted as %r: got %r, expected %r' % (text, formatted, g2, want))


def case_params(ctx):
    """values of parameters may be changed between evaluations"""
    from pyslet.odata2 import core
    rng = ctx.rng
    container, ents = entities(rng, 3)
    for i in range(6):
        params = {}
        while not params:
            e = bind(rng, pick(rng, g_num, g_bool)(rng, 3), params)
            if not params:
                e = None
            params_e = e
        text = show(rng, params_e)[1]
        evalues = dict((n, to_edm(t, v)) for n, (t, v) in params.items())
        expr = core.CommonExpression.from_str(text, evalues)
        for j in range(3):
            # new values
            now = {}
            for n, (t, v) in params.items():
                nv = None if rng.random() < 0.1 else gen_value(rng, t)
                now[n] = nv
                assign(evalues[n], t, nv)

            def subst(x):
                if x[0] == 'lit' and len(x) > 3:
                    return ('lit', x[1], now[x[3]])
                return tuple(subst(y) if isinstance(y, tuple) and y and y[0] in NODES else
                             [subst(z) for z in y] if isinstance(y, list) else y for y in x)
            se = subst(params_e)
            for entity, env in ents:
                try:
                    want = ('value', evaluate(se, env))
                except Err:
                    want = ('error', None)
                except Skip:
                    continue
                got = run_eval(expr, entity)
                ctx.count('evaluations')
                ctx.count('param-evaluations')
                ctx.check(want[0] == got[0] and (want[0] == 'error' or same(got[1], want[1])), 'param-value',
                          '%r with %r: got %r, expected %r' % (text, now, got, want))
    ctx.check(True, '', '')
    try:
        core.CommonExpression.from_str('1 add :missing', {})
    except ValueError:
        pass
    else:
        ctx.fail('param-missing', 'unknown parameter accepted')


TOKENS = ['and', 'or', 'not', 'eq', 'ne', 'lt', 'add', 'sub', 'mul', 'mod', '-', '(', ')', ',', "'a'", '1', '2.5', '2.5M', '3L',
          'null', 'true', 'I32', 'Str', 'Home/Num', 'length(', 'concat(', "isof('Edm.Int32')", 'cast(', ' ', ' ', ' ', '/', "'",
          "datetime'2000-01-01T00:00:00'", 'X', "X'0'", 'guid', ':p', '.', '5F', 'INFD', '--', '$', '\u00e9', '']


MEMBER = re.compile(r"[^A-Za-z]\s*/|/\s*[^A-Za-z]|/\s*(null|true|false|X|guid|datetime|nan|inf)", re.I)


def balanced(s):
    n = 0
    q = False
    for c in s:
        if c == "'":
            q = not q
        elif q:
            continue
        elif c == '(':
            n += 1
        elif c == ')':
            n -= 1
            if n < 0:
                return False
    return n == 0 and not q


def case_malformed(ctx):
    from pyslet.odata2 import core
    rng = ctx.rng
    for i in range(40):
        m = rng.randrange(3)
        bad = False
        if m == 0:
            text = ''.join(gen.pick(rng, TOKENS) + pick(rng, '', ' ') for j in range(rng.randint(1, 7)))
        else:
            e = bind(rng, g_any(rng, 3), {})
            text = show(rng, e)[1]
            if not text:
                continue
            j = rng.randrange(len(text))
            if m == 1:
                text = text[:j] + text[j + 1:]
            else:
                text = text[:j] + gen.pick(rng, "()',-/ :.e0") + text[j:]
        if not balanced(text):
            bad = True
        last = text.split()[-1:] or ['']
        if last[0] in ('and', 'or', 'not', 'eq', 'ne', 'lt', 'add', 'sub', 'mul', 'mod') and len(text.split()) > 1 and \
                "'" not in text:
            pass
        ctx.witness(text=text)
        ctx.count('malformed')
        try:
            expr = core.CommonExpression.from_str(text)
        except ValueError:
            ctx.count('rejected')
            continue
        ctx.check(not bad, 'malformed-accepted', repr(text))
        if expr is None or MEMBER.search(text):
            continue    # members of literals are accepted: undecided
        ctx.nontrivial(text)
        s = str(expr)
        try:
            again = core.CommonExpression.from_str(s)
        except ValueError as err:
            ctx.fail('format-rejected', '%r -> %r: %s' % (text, s, err))
            continue
        ctx.equal(str(again), s, 'format-stable', text)


MALFORMED = ["", " ", "1 add", "add 1", "1 1", "1 add add 1", "(1", "1)", "()", "not", "not(", "-", "length(", "length()",
             "length('a'", "length('a',)", "foo('a')", "isof()", "isof(1)", "cast(1,2)", "cast(1,'Edm.Int32'", "'a", "1 add 'a",
             "I32/", "I32 eq", "1 eq 2 eq", "X'0'", "guid'123'", "datetime'x'", "I32 foo 1", "1,2", "/I32", "1 member 2",
             "1 isof 2", "1 cast 2", "true and", "a b", "$x", "1 +1", "1 = 1", "@", "length 'a'", "(1,2)", "((1)", "1 add (2", "- ", "I32 -"]


def case_fixed(ctx):
    from pyslet.odata2 import core
    for s in MALFORMED:
        ctx.witness(text=s)
        try:
            x = core.CommonExpression.from_str(s)
        except ValueError:
            ctx.count('rejected')
            continue
        ctx.fail('malformed-accepted', '%r parsed as %r' % (s, x and str(x)))


def case_objects(ctx):
    """entities and complex values as operands"""
    from pyslet.odata2 import core
    rng = ctx.rng
    container, ents = entities(rng, 6)
    for entity, env in ents:
        linked = env['Other'] is not None
        key = env['Other']['Id'][1] if linked else None
        T = [("Other eq Other", True), ("Other ne Other", False), ("isof(Other,'NS.Oth')", linked), ("isof(Other,'NS.Main')", False),
             ("isof(Home,'NS.Addr')", Err), ("cast(Home,'Edm.String') eq 'a'", Err), ("Home eq 1", Err), ("1 eq Home", Err),
             ("Home/In add 1", Err), ("1 sub Home", Err), ("Home and true", Err), ("Home lt Home", Err), ("not Home", Err),
             ("length(Home) eq 1", Err), ("startswith(Home,'a')", Err), ("startswith('a',Home/In)", Err), ("-Home eq 1", Err),
             ("isof(Home/Num,'Edm.Int64')", env['Home']['Num'][1] is not None),
             ("Other eq 1", Err if linked else False), ("Other lt Other", Err if linked else False),
             ("Home/Nope eq 1", Err), ("cast(Other,'NS.Main') eq 1", Err if linked else False)]
        for text, want in T:
            got = run_eval(core.CommonExpression.from_str(text), entity)
            ctx.count('objects')
            ctx.witness(text=text, env=repr(env))
            if want is Err:
                ctx.check(got[0] == 'error', 'object-operand', '%r: %r' % (text, got))
            else:
                ctx.check(got[0] == 'value' and same(got[1], ('Boolean', want)), 'object-operand', '%r: %r, expected %r' % (text, got, want))
        # comparing with another entity
        for e2, env2 in ents:
            x = core.BinaryExpression(core.Operator.eq)
            for e in (entity, e2):
                class Given(core.CommonExpression):
                    def evaluate(self, context, e=e):
                        return e
                x.add_operand(Given())
            got = from_edm(x.evaluate(None))
            ctx.check(same(got, ('Boolean', env['Id'] == env2['Id'])), 'entity-eq', '%r %r: %r' % (env['Id'], env2['Id'], got))


NAMES = ('A', 'B', 'Cat', 'Products', 'a_1', 'NS.Name', '\u00c9t\u00e9')


def tree(paths):
    r = {}
    for p in paths:
        d = r
        for j, n in enumerate(p):
            if d.get(n) is None:
                d[n] = None
            if j + 1 < len(p):
                if d[n] is None:
                    d[n] = {}
                d = d[n]
    return r


def case_options(ctx):
    from pyslet.odata2 import core
    rng = ctx.rng
    container, ents = entities(rng, 3)
    for i in range(8):
        ctx.count('options')
        exprs = [bind(rng, pick(rng, g_num, g_str)(rng, rng.randint(0, 3)), {}) for j in range(rng.randint(1, 3))]
        if any(params_in(e) for e in exprs):
            continue
        dirs = [pick(rng, '', ' asc', ' desc', '  DESC', ' Asc') for e in exprs]
        texts = [show(rng, e)[1] for e in exprs]
        text = ','.join(ws(rng) + t + d + ws(rng) for t, d in zip(texts, dirs))
        ctx.witness(orderby=text)
        try:
            ob = core.CommonExpression.orderby_from_str(text)
        except ValueError as err:
            ctx.fail('orderby-rejected', '%r: %s' % (text, err))
            continue
        ctx.nontrivial(text)
        ctx.equal([x[1] for x in ob], [-1 if 'desc' in d.lower() else 1 for d in dirs], 'orderby-direction', text)
        f = core.CommonExpression.orderby_to_str(ob)
        ob2 = core.CommonExpression.orderby_from_str(f)
        ctx.equal(core.CommonExpression.orderby_to_str(ob2), f, 'orderby-format', text)
        for e, x, x2 in zip(exprs, ob, ob2):
            for entity, env in ents:
                want = attempt(e, env)
                if isinstance(want, Skip):
                    continue
                for y in (x, x2):
                    got = run_eval(y[0], entity)
                    if isinstance(want, Err):
                        ctx.check(got[0] == 'error', 'orderby-value', '%r %r' % (text, got))
                    else:
                        ctx.check(got[0] == 'value' and same(got[1], want), 'orderby-value', '%r: got %r, expected %r' % (text, got, want))
    for i in range(8):
        ctx.count('options')
        paths = [[gen.pick(rng, NAMES) for j in range(rng.randint(1, 3))] for k in range(rng.randint(1, 4))]
        text = ','.join('/'.join(p) for p in paths)
        ctx.witness(expand=text)
        p = core.Parser(text)
        got = p.parse_expand_option()
        ctx.equal(got, tree(paths), 'expand', text)
        s = core.format_expand(got)
        ctx.equal(core.Parser(s).parse_expand_option(), got, 'expand-format', text)
        for q in paths:
            if rng.random() < 0.3:
                q[-1] = '*'
        text = ','.join(ws(rng) + '/'.join(q) + ws(rng) for q in paths)
        ctx.witness(select=text)
        got = core.Parser(text).parse_select_option()
        ctx.equal(got, tree(paths), 'select', text)
        s = core.format_select(got)
        ctx.equal(core.Parser(s).parse_select_option(), got, 'select-format', text)
        # malformed
        bad = gen.pick(rng, (text + ',', text + '/', ',' + text, text + ' x', '/' + text, text + '$', ''))
        for f in ('parse_expand_option', 'parse_select_option'):
            try:
                getattr(core.Parser(bad), f)()
            except ValueError:
                ctx.count('rejected')
            else:
                ctx.fail('option-accepted', '%s %r' % (f, bad))


def params_in(e):
    if e[0] == 'lit' and len(e) > 3:
        return True
    return any(params_in(x) for x in e[1:] if isinstance(x, tuple) and x and x[0] in NODES) or \
        any(params_in(y) for x in e if isinstance(x, list) for y in x)


WORKLOADS = [
    Workload("eval", case_eval, quick=2500, thorough=20000, cpu=20),
    Workload("params", case_params, quick=400, thorough=4000, cpu=20),
    Workload("malformed", case_malformed, quick=500, thorough=8000, cpu=20),
    Workload("fixed", case_fixed, quick=1, thorough=1),
    Workload("objects", case_objects, quick=10, thorough=50, cpu=20),
    Workload("options", case_options, quick=120, thorough=4000, cpu=20),
]
