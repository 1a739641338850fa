"""C06: relative reference resolution follows the RFC and inverts relative().

Oracle: an independent implementation of RFC 2396 section 5.2 on the strings
(components split with the appendix B regular expression)."""

import re

from lib.harness import Workload
from lib import gen

META = dict(
    id="C06", title="Reference resolution follows the RFC and inverts relative()",
    statement="Resolving any reference against any hierarchical base gives the URI RFC 2396 section 5.2 prescribes, and resolving a reference against a relative base composes: resolving R2 against (R1 against B) equals resolving (R2 against R1) against B.  Whenever relative() gives a reference, resolving it against the same base gives back the original URI (dot segments apart), and it raises URIRelativeError only when the base is more specific than the URI; neither operation changes its operands.",
    quantifier=dict(over=["inputs"], text="all base and reference pairs"),
    why_tests_cant="tests use the RFC table and one base",
    anchors=dict(files=["pyslet/rfc2396.py"],
                 mechanism=[dict(name="URI.resolve", where="pyslet/rfc2396.py"),
                            dict(name="URI.relative", where="pyslet/rfc2396.py"),
                            dict(name="normalize_segments", where="pyslet/rfc2396.py")],
                 observe_at=["str() of the results of resolve() and relative()"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: independent RFC 2396 5.2 implementation and inverse-operation oracle over generated pairs"
LEVEL_NOTE = "Held on the pairs observed. Bases whose path would begin with // without an authority are outside the RFC's algorithm and not generated."
RULE = "each case is a few base/reference pairs; distinct by the pair"
MODULES = ["pyslet/rfc2396.py"]
REQUIRE = {"resolve": 5000, "relative": 5000, "relative-nontrivial": 2000,
           "compose": 2000, "normalize": 2000}

RFC = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$',
                 re.S)
NAMES = ('a', 'b', 'c', 'd;p', 'x:y', 'g=1', 'e.f', '..g', '.h', '%2E', '...')


def rsegs(rng, n, dots=0.2, empty=0.05):
    out = []
    for i in range(n):
        r = rng.random()
        if r < dots:
            out.append(gen.pick(rng, ('.', '..', '..')))
        elif r < dots + empty:
            out.append('')
        else:
            out.append(gen.pick(rng, NAMES[:rng.randint(1, len(NAMES))]))
    return out


def tail(rng):
    s = ''
    if rng.random() < 0.2:
        s += '?' + gen.pick(rng, ('', 'y', 'q=1/../2', 'y'))
    if rng.random() < 0.2:
        s += '#' + gen.pick(rng, ('', 's', 's/../x'))
    return s


def rabspath(rng, dots=0.15, empty=0.05, auth=True):
    if auth and rng.random() < 0.08:
        return ''
    segs = rsegs(rng, rng.randint(0, 4), dots, empty if auth else 0)
    if rng.random() < 0.4:
        segs.append('')
    return '/' + '/'.join(segs) if segs else '/'


def rabs(rng, dots=0.15):
    if rng.random() < 0.15:
        return gen.pick(rng, ('x-s', 'X-s', 'y')) + ':' + rabspath(
            rng, dots, 0, False) + tail(rng)
    return gen.pick(rng, ('http', 'http', 'x-s', 'HTTP', 'https', 'file')) + \
        '://' + gen.pick(rng, ('h', 'h', 'h', 'g', 'u@h:8', '')) + rabspath(
            rng, dots) + tail(rng)


def rrel(rng, dots=0.3, empty=0.05):
    """relative reference with a relative path"""
    segs = rsegs(rng, rng.randint(0, 5), dots, empty)
    if segs and (not segs[0] or ':' in segs[0]):
        segs[0] = gen.pick(rng, ('.', '..', 'a'))
    s = '/'.join(segs)
    if s and rng.random() < 0.3 and segs[-1]:
        s += '/'
    return s + tail(rng)


def rref(rng):
    k = rng.random()
    if k < 0.65:
        return rrel(rng)
    if k < 0.8:
        return rabspath(rng, auth=False) + tail(rng)
    if k < 0.88:
        return '//' + gen.pick(rng, ('h', 'z', 'u@w:1')) + rabspath(rng) + \
            tail(rng)
    if k < 0.94:
        return rabs(rng)
    return gen.pick(rng, ('', '#', '#s', '?', '?y', '?#', 'mailto:a@b',
                          'urn:a:b'))


def split(s):
    return RFC.match(s).group(2, 4, 5, 7, 9)


def join(scheme, auth, path, query, frag):
    s = ''
    if scheme is not None:
        s += scheme + ':'
    if auth is not None:
        s += '//' + auth
    s += path
    if query is not None:
        s += '?' + query
    if frag is not None:
        s += '#' + frag
    return s


def dots(path):
    """RFC 2396 5.2 step 6 c-f on a merged path (leading '..' stay); a
    trailing '..' that stays is the same as '../'"""
    lead = path.startswith('/')
    segs = path.split('/')
    if lead:
        segs = segs[1:]
    out = []
    last = len(segs) - 1
    for i, s in enumerate(segs):
        if s == '.':
            if i == last:
                out.append('')
        elif s == '..' and out and out[-1] != '..':
            out.pop()
            if i == last:
                out.append('')
        else:
            out.append(s)
    if out and out[-1] == '..':
        out.append('')
    return ('/' if lead else '') + '/'.join(out)


def resolve(base, ref):
    """RFC 2396 section 5.2 (absolute or relative base)"""
    s, a, p, q, f = split(ref)
    bs, ba, bp, bq, bf = split(base)
    if p == '' and s is None and a is None and q is None:
        return base.split('#')[0] + ('' if f is None else '#' + f)
    if s is not None:
        return ref
    if a is None:
        a = ba
        if not p.startswith('/'):
            if bp == '' and ba is not None:
                bp = '/'
            rel = not bp.startswith('/')
            if rel:
                # as if resolved itself, so that resolution is associative
                bp = dots('/' + bp)[1:]
            p = bp[:bp.rfind('/') + 1] + p
            p = dots('/' + p)[1:] if rel else dots(p)
            if rel:
                first = p.split('/')[0]
                if first == '' or ':' in first:
                    p = './' + p
    return join(bs, a, p, q, f)


def norm(s):
    """a URI up to dot segments in its path"""
    sc, a, p, q, f = split(s)
    p = dots(p)
    if not p.startswith('/') and p.startswith('./'):
        p = p[2:]
    return (sc, a, p, q, f)


def case_resolve(ctx):
    from pyslet import rfc2396 as uri
    rng = ctx.rng
    for i in range(4):
        k = rng.random()
        base = rabs(rng) if k < 0.7 else (rabspath(rng, auth=False) + tail(
            rng) if k < 0.8 else rrel(rng))
        ref = rref(rng)
        want = resolve(base, ref)
        if want is None:
            continue
        if RFC.match(want).group(4) is not None and \
                RFC.match(base).group(4) is None and \
                RFC.match(ref).group(4) is None:
            # a path beginning // without authority: outside the RFC
            ctx.count('skipped-ambiguous')
            continue
        ctx.witness(base=base, ref=ref)
        ctx.nontrivial((base, ref))
        ctx.count('resolve')
        b, r = uri.URI.from_octets(base), uri.URI.from_octets(ref)
        got = r.resolve(gen.pick(rng, (b, base)))
        ctx.equal(str(got), want, 'resolve', "%r resolved against %r" % (
            ref, base))
        ctx.equal((str(b), str(r)), (base, ref), 'operands')
        # what the result is made of
        s, a, p, q, f = split(want)
        ctx.equal((got.scheme, got.query if got.opaque_part is None else q,
                   got.fragment), (s, q, f), 'resolve-components', want)
        if split(ref)[:4] == (None, None, '', None):
            doc = uri.URI.from_octets('http://doc/x?y#z')
            d = r.resolve(b, doc)
            ctx.equal(str(d), 'http://doc/x?y' + ref, 'current-doc', ref)


def case_compose(ctx):
    """(B [*] R1) [*] R2 == B [*] (R1 [*] R2) for relative paths"""
    from pyslet import rfc2396 as uri
    rng = ctx.rng
    for i in range(4):
        base = 'http://h/' + '/'.join(['p', 'q', 'r', 's', 't', 'u', 'v',
                                       'w'][:rng.randint(5, 8)])
        r1 = rrel(rng, 0.3, 0)
        r2 = rrel(rng, 0.3, 0)
        if split(r1)[2] == '' or split(r2)[2] == '':
            continue
        B, R1, R2 = [uri.URI.from_octets(x) for x in (base, r1, r2)]
        left = str(R2.resolve(R1.resolve(B)))
        if '..' in split(left)[2].split('/') or '..' in split(
                str(R1.resolve(B)))[2].split('/'):
            # climbs above the root: meaningless
            continue
        ctx.witness(base=base, r1=r1, r2=r2)
        ctx.count('compose')
        mid = R2.resolve(R1)
        ctx.equal(str(mid.resolve(B)), left, 'compose',
                  "%s, %s, %s; R1[*]R2 = %s" % (base, r1, r2, mid))


def case_relative(ctx):
    from pyslet import rfc2396 as uri
    rng = ctx.rng
    for i in range(4):
        k = rng.random()
        if k < 0.55:
            # related pair
            base = 'http://h/' + '/'.join(rsegs(rng, rng.randint(0, 4), 0.05))
            u = 'http://h/' + '/'.join(rsegs(rng, rng.randint(0, 4), 0.05))
            if rng.random() < 0.3:
                j = rng.randint(8, len(base))
                u = base[:j] + gen.pick(rng, ('', '/', 'a', '/b'))
                if re.search('%2?(?!E)', u) or '://' not in u or not u.startswith('http://h'):
                    continue
            base += tail(rng)
            u += tail(rng)
        elif k < 0.75:
            base = rabs(rng, 0.05)
            u = rabs(rng, 0.05)
        elif k < 0.85:
            base = rabspath(rng, 0.05, auth=False) + tail(rng)
            u = rabspath(rng, 0.05, auth=False) + tail(rng)
        else:
            base = rrel(rng, 0.15)
            u = rrel(rng, 0.15)
            if split(u)[2] == '':
                continue
        if RFC.match(u).group(5).startswith('//') or \
                RFC.match(base).group(5).startswith('//'):
            if RFC.match(u).group(4) is None or \
                    RFC.match(base).group(4) is None:
                continue
        bp = split(base)[2]
        if bp.startswith('/') and '..' in dots(bp).split('/'):
            # a base above the root is meaningless
            continue
        ctx.witness(uri=u, base=base)
        ctx.nontrivial((u, base))
        ctx.count('relative')
        U, B = uri.URI.from_octets(u), uri.URI.from_octets(base)
        us, ua, up = split(u)[:3]
        bs, ba, bp = split(base)[:3]
        try:
            R = U.relative(gen.pick(rng, (B, base)))
        except uri.URIRelativeError:
            ctx.count('relative-undefined')
            same = us is None or bs is None or us.lower() == bs.lower()
            spec = lambda s, a, p: ((s is not None) * 8 + (a is not None) * 4 +
                                    p.startswith('/') * 2)
            more = spec(bs, ba, bp) > spec(us, ua, up)
            if us is None and bs is None and ua is None and ba is None and \
                    not up.startswith('/') and not bp.startswith('/'):
                # base climbs higher than the URI
                more = dots(bp).split('/').count('..') > \
                    dots(up).split('/').count('..')
            ctx.check(same and more, 'relative-undefined',
                      "%s relative to %s: not defined?" % (u, base))
            continue
        back = R.resolve(B)
        if str(R) not in (u, ''):
            ctx.count('relative-nontrivial')
        want = list(norm(u))
        got = list(norm(str(back)))
        # the scheme is taken from the base
        for x in (want, got):
            if x[0]:
                x[0] = x[0].lower()
        ctx.check(got == want, 'inverse',
                  "%s relative to %s is %r which resolves to %s" % (
                      u, base, str(R), back))
        ctx.equal((str(U), str(B)), (u, base), 'operands')
        # usefulness: shares scheme and authority -> relative reference
        if bs is not None and us is not None and us.lower() == bs.lower() \
                and ua == ba and up.startswith('/') and bp.startswith('/'):
            ctx.check(R.scheme is None and R.authority is None,
                      'relative-form', "%s relative to %s is %s" % (
                          u, base, R))


def case_normalize(ctx):
    from pyslet import rfc2396 as uri
    rng = ctx.rng
    segs = rsegs(rng, rng.randint(0, 7), 0.4, 0.1)
    ctx.witness(segments=segs)
    ctx.nontrivial(segs)
    ctx.count('normalize')
    got = list(segs)
    uri.normalize_segments(got)
    want = dots('/' + '/'.join(segs))[1:].split('/') if segs else []
    ctx.equal(got, want, 'normalize', repr(segs))
    again = list(got)
    uri.normalize_segments(again)
    ctx.equal(again, got, 'normalize-idempotent', repr(segs))
    p = '/' + '/'.join(segs)
    if segs:
        ctx.equal(uri.split_path(p), segs, 'split', p)
        ctx.equal(uri.split_path(p[1:], False), segs, 'split', p)
    ctx.equal(uri.split_path('', True), [], 'split-empty')
    ctx.equal(uri.split_path(None, False), [''], 'split-empty')
    if segs and segs[0]:
        ctx.raises(ValueError, lambda: uri.split_path(p[1:]), 'split-abs', p)


WORKLOADS = [
    Workload('resolve', case_resolve, 3000, 60000),
    Workload('compose', case_compose, 2500, 40000),
    Workload('relative', case_relative, 4000, 80000),
    Workload('normalize', case_normalize, 4000, 40000),
]
