"""Independent reading of HTTP/1.1 (RFC 2616) header field values.

Bad is raised for values that are outside the grammar, Maybe for values
whose treatment is left open."""

CTL = set(range(32)) | {127}
SEPS = set(b'()<>@,;:\\"/[]?={} \t')
TCHARS = ''.join(chr(c) for c in range(33, 127) if c not in SEPS)


class Bad(Exception):
    pass


class Maybe(Exception):
    pass


def words(src, keep_sp=False):
    """list of ('t', str), ('q', bytes), ('c', None), ('s', char), ('w', None)"""
    out = []
    i = 0
    n = len(src)

    def lws(i):
        j = i
        if src[j:j + 2] == b'\r\n':
            j += 2
        k = j
        while k < n and src[k] in b' \t':
            k += 1
        return k if k > j else i

    while i < n:
        j = lws(i)
        if j > i:
            while lws(j) > j:
                j = lws(j)
            if keep_sp:
                out.append(('w', None))
            i = j
            continue
        b = src[i]
        if b == 0x22 or b == 0x28:
            depth = 1
            start = i
            text = []
            i += 1
            while True:
                if i >= n:
                    raise Bad("unterminated")
                b2 = src[i]
                j = lws(i)
                if j > i:
                    seg = src[i:j]
                    text.append(b' ' if seg[:2] == b'\r\n' else seg)
                    i = j
                elif b2 == 0x5c:
                    if i + 1 >= n or src[i + 1] > 127:
                        raise Bad("quoted pair")
                    text.append(src[i + 1:i + 2])
                    i += 2
                elif b == 0x22 and b2 == 0x22:
                    i += 1
                    break
                elif b == 0x28 and b2 in b'()':
                    depth += 1 if b2 == 0x28 else -1
                    i += 1
                    if not depth:
                        break
                elif b2 in CTL:
                    raise Bad("CTL")
                else:
                    text.append(src[i:i + 1])
                    i += 1
            out.append(('q', b''.join(text)) if b == 0x22 else ('c', src[start:i]))
        elif b in SEPS:
            out.append(('s', chr(b)))
            i += 1
        elif b in CTL or b > 127:
            raise Bad("octet %i" % b)
        else:
            j = i
            while j < n and src[j] not in SEPS and src[j] not in CTL and src[j] < 128:
                j += 1
            out.append(('t', src[i:j].decode('ascii')))
            i = j
    return out


class Reader(object):

    def __init__(self, src, keep_sp=False):
        self.w = words(src, keep_sp)
        self.i = 0

    def kind(self, o=0):
        return self.w[self.i + o][0] if self.i + o < len(self.w) else None

    def sep(self, c):
        if self.i < len(self.w) and self.w[self.i] == ('s', c):
            self.i += 1
            return True
        return False

    def need(self, c):
        if not self.sep(c):
            raise Bad("expected %s" % c)

    def sp(self):
        while self.kind() == 'w':
            self.i += 1

    def token(self):
        if self.kind() != 't':
            raise Bad("token")
        self.i += 1
        return self.w[self.i - 1][1]

    def value(self):
        if self.kind() == 'q':
            self.i += 1
            return self.w[self.i - 1][1]
        return self.token().encode('ascii')

    def end(self):
        if self.i < len(self.w):
            raise Bad("trailing %r" % (self.w[self.i],))

    def params(self, optional=False, stop=None, strict=False):
        """*( ; name = value)"""
        out = {}
        while True:
            save = self.i
            self.sp()
            if not self.sep(';'):
                self.i = save
                break
            self.sp()
            name = self.token()
            if stop and name.lower() == stop:
                self.i = save
                break
            if not strict:
                self.sp()
            if self.sep('='):
                if not strict:
                    self.sp()
                v = self.value()
            elif optional:
                v = None
            else:
                raise Bad("=")
            if name.lower() in out:
                raise Maybe("duplicate")
            out[name.lower()] = (name, v)
        return out

    def list(self, item, allow_empty=True):
        out = []
        first = True
        while True:
            self.sp()
            if self.sep(','):
                first = True
                continue
            if self.i >= len(self.w):
                break
            if not first:
                raise Bad("comma")
            out.append(item(self))
            first = False
        if not out and not allow_empty:
            raise Maybe("empty list")
        return out


def qvalue(r):
    t = r.token()
    a, dot, b = t.partition('.')
    if not (a.isdigit() and a.isascii() and (not b or b.isdigit()) and b.isascii()):
        raise Bad("qvalue")
    if len(a) > 1 or len(b) > 3 or float(t) > 1:
        raise Maybe("qvalue range")
    return float(t)


def q_part(r):
    r.sp()
    if not r.sep(';'):
        return 1.0
    if r.token().lower() != 'q':
        raise Bad("q")
    r.need('=')
    return qvalue(r)


def _media(r, strict=False, stop=None):
    t = r.token()
    if not strict:
        r.sp()
    r.need('/')
    if not strict:
        r.sp()
    s = r.token()
    if '*' in t + s and not stop:
        raise Maybe("wildcard in a media type")
    if t == '*' and s != '*' or ('*' in t + s and not set((t, s)) >= {'*'}):
        raise Maybe("odd wildcard")
    return t.lower(), s.lower(), r.params(strict=strict, stop=stop)


def media_type(src):
    r = Reader(src, True)
    r.sp()
    v = _media(r, True)
    r.sp()
    r.end()
    return v


def accept_item(r):
    v = _media(r, stop='q')
    q, ext = 1.0, {}
    if r.sep(';'):
        if r.token().lower() != 'q':
            raise Bad("q")
        r.need('=')
        q = qvalue(r)
        ext = r.params(optional=True)
        if 'q' in ext:
            raise Maybe("q twice")
    return v + (q, ext)


def accept(src):
    r = Reader(src)
    return sorted(r.list(accept_item, False), key=repr)


def token_item(r):
    t = r.token()
    return t, q_part(r)


def lang_item(r):
    t = r.token()
    q = q_part(r)
    if t != '*':
        try:
            lang_check(t)
        except Bad:
            raise Maybe("language range")
    return t, q


def accept_tokens(src):
    return sorted(Reader(src).list(token_item, False))


def accept_langs(src):
    return sorted(Reader(src).list(lang_item, False))


def lang_check(t):
    parts = t.split('-')
    if '' in parts:
        raise Maybe("empty subtag") if t != '' and '*' in t else Bad("empty subtag")
    for p in parts:
        if not (p.isalpha() and p.isascii() and len(p) <= 8):
            raise Maybe("language tag")
    return parts


def lang(src):
    r = Reader(src, True)
    r.sp()
    t = lang_check(r.token())
    r.sp()
    r.end()
    return tuple(t)


def lang_list(src):
    r = Reader(src, True)

    def item(r):
        r.sp()
        v = tuple(lang_check(r.token()))
        r.sp()
        return v
    return r.list(item)


def tokens(src):
    return Reader(src).list(lambda r: r.token())


def transfer_encoding(r):
    t = r.token().lower()
    if t == 'chunked':
        return t, {}
    return t, r.params()


def te(src):
    r = Reader(src)
    v = transfer_encoding(r)
    r.end()
    return v


def te_list(src):
    return Reader(src).list(transfer_encoding)


def chunk(src):
    r = Reader(src)
    t = r.token()
    if not all(c in '0123456789abcdefABCDEF' for c in t):
        raise Bad("hex")
    v = r.params(optional=True)
    r.end()
    return int(t, 16), v


def _product(r):
    t = r.token()
    return t, (r.token() if r.sep('/') else None)


def product(src):
    r = Reader(src)
    v = _product(r)
    r.end()
    return v


def products(src):
    r = Reader(src)
    out = []
    while r.i < len(r.w):
        out.append(_product(r))
    return out


def upgrade(src):
    return Reader(src).list(_product)


def etag(src):
    r = Reader(src)
    weak = False
    if r.kind() == 't':
        if r.token() != 'W':
            raise Maybe("w/") if r.w[0][1] == 'w' else Bad("W/")
        r.need('/')
        weak = True
    if r.kind() != 'q':
        raise Bad("quoted string")
    v = r.value()
    r.end()
    return v, weak


def version(src):
    r = Reader(src)
    if r.token() != 'HTTP':
        raise Maybe("HTTP") if r.w[0][1].upper() == 'HTTP' else Bad("HTTP")
    r.need('/')
    t = r.token().split('.')
    r.end()
    if len(t) != 2 or not all(p.isdigit() and p.isascii() for p in t):
        raise Bad("version")
    return tuple(int(p) for p in t)


def content_range(src):
    r = Reader(src)
    u = r.token()
    if u.lower() != 'bytes':
        raise Bad("unit")
    t = r.token()
    if t == '*':
        a = b = None
    else:
        t = t.split('-')
        if len(t) != 2 or not all(p.isdigit() and p.isascii() for p in t):
            raise Bad("range")
        a, b = int(t[0]), int(t[1])
    r.need('/')
    t = r.token()
    r.end()
    if t == '*':
        n = None
    elif t.isdigit() and t.isascii():
        n = int(t)
    else:
        raise Bad("length")
    return a, b, n


def cache_control(src):
    def item(r):
        d = r.token().lower()
        if not r.sep('='):
            return d, None
        if d in ('max-age', 'max-stale', 'min-fresh', 's-maxage'):
            if r.kind() == 'q':
                raise Maybe("quoted number")
            v = r.token()
            if not (v.isdigit() and v.isascii()):
                raise Bad("delta-seconds")
            return d, int(v)
        if d in ('private', 'no-cache'):
            if r.kind() != 'q':
                raise Maybe("unquoted field name")
            v = r.value()
            v = Reader(v).list(lambda r: r.token())
            if not v:
                raise Maybe("no field names")
            return d, tuple(v)
        return d, r.value().decode('latin-1')
    v = Reader(src).list(item, False)
    names = [d for d, x in v]
    if len(set(names)) < len(names):
        raise Maybe("repeated")
    return v


def challenges(src, single=False):
    r = Reader(src, single)
    out = []
    r.sp()
    while True:
        while r.sep(','):
            if single:
                raise Maybe("comma")
            r.sp()
        r.sp()
        if r.i >= len(r.w):
            break
        if out and single:
            raise Bad("more than one")
        scheme = r.token()
        r.sp()
        ps = []
        seen = set()
        comma = True
        while True:
            save = r.i
            r.sp()
            while r.sep(','):
                if comma:
                    raise Maybe("null parameters")
                comma = True
                r.sp()
            if not comma:
                r.sp()
                if r.i < len(r.w):
                    raise Bad("comma required")
                r.i = save
                break
            if r.kind() != 't':
                r.i = save
                break
            name = r.token()
            r.sp()
            if not r.sep('='):
                r.i = save
                break
            r.sp()
            q = r.kind() == 'q'
            v = r.value()
            if name.lower() in seen:
                raise Maybe("repeated")
            seen.add(name.lower())
            ps.append((name, v, q))
            comma = False
        if not ps:
            # parameters are required, a default realm is tolerated
            raise Maybe("no parameters")
        out.append((scheme, ps))
        r.sp()
        if r.i < len(r.w):
            if not r.sep(','):
                raise Bad("comma required")
            if single:
                raise Maybe("trailing comma")
    if not out:
        raise Maybe("empty")
    return out[0] if single else out
