"""Cookies as RFC 6265 section 5 has them, and public suffixes."""

import calendar
import re

DELIM = set(b'\t') | set(range(0x20, 0x30)) | set(range(0x3B, 0x41)) | set(range(0x5B, 0x61)) | set(range(0x7B, 0x7F))
MONTHS = ('jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec')


def date(b):
    """section 5.1.1: seconds since 1970 or None"""
    tokens, t = [], bytearray()
    for c in b + b' ':
        if c in DELIM:
            if t:
                tokens.append(bytes(t))
            t = bytearray()
        else:
            t.append(c)
    time = day = month = year = None
    for t in tokens:
        if time is None:
            m = re.match(rb'(\d{1,2}):(\d{1,2}):(\d{1,2})(?!\d)', t)
            if m:
                time = tuple(int(x) for x in m.groups())
                continue
        if day is None:
            m = re.match(rb'(\d{1,2})(?!\d)', t)
            if m:
                day = int(m.group(1))
                continue
        if month is None:
            x = t[:3].lower().decode('latin-1')
            if x in MONTHS:
                month = MONTHS.index(x) + 1
                continue
        if year is None:
            m = re.match(rb'(\d{2,4})(?!\d)', t)
            if m:
                year = int(m.group(1))
                if year < 70:
                    year += 2000
                elif year < 100:
                    year += 1900
                continue
    if None in (time, day, month, year) or not 1 <= day <= 31 or year < 1601 or time[0] > 23 or time[1] > 59 or time[2] > 59:
        return None
    if day > calendar.monthrange(year, month)[1]:
        return None
    return calendar.timegm((year, month, day) + time)


def parse(b):
    """a Set-Cookie value: None to ignore it or a dict.  domain None if there
    is none, path None for the default one"""
    pair, sep, attrs = b.partition(b';')
    name, eq, value = pair.partition(b'=')
    if not eq:
        return None
    name, value = name.strip(b' \t'), value.strip(b' \t')
    if not name:
        return None
    r = dict(name=name, value=value, expires=None, max_age=None, domain=None, path=None, secure=False, http_only=False)
    for av in attrs.split(b';') if sep else ():
        n, eq, v = av.partition(b'=')
        n, v = n.strip(b' \t').lower(), v.strip(b' \t')
        if n == b'expires':
            d = date(v)
            if d is not None:
                r['expires'] = d
        elif n == b'max-age':
            if re.match(rb'-?\d+$', v):
                r['max_age'] = int(v)
        elif n == b'domain':
            if v:
                r['domain'] = (v[1:] if v[:1] == b'.' else v).lower().decode('latin-1')
        elif n == b'path':
            r['path'] = v.decode('latin-1') if v[:1] == b'/' else None
        elif n == b'secure':
            r['secure'] = True
        elif n == b'httponly':
            r['http_only'] = True
    return r


def is_ip(host):
    return re.match(r'\d+\.\d+\.\d+\.\d+$', host) is not None


def domain_match(host, domain):
    return host == domain or (host.endswith('.' + domain) and not is_ip(host))


def default_path(path):
    """path of the request's URL"""
    if not path.startswith('/') or path.count('/') < 2:
        return '/'
    return path[:path.rindex('/')]


def path_match(path, cookie_path):
    return path == cookie_path or (path.startswith(cookie_path) and (cookie_path[-1] == '/' or path[len(cookie_path)] == '/'))


def suffix_len(host, rules, depth=1):
    """number of labels of the host's public suffix.  rules: a list such as
    'uk', '*.ck', '!www.ck'"""
    labels = host.split('.')
    labels.reverse()
    best = min(depth, len(labels))
    for r in rules:
        x = r.lstrip('!').split('.')
        x.reverse()
        if len(x) <= len(labels) and all(a == b or a == '*' for a, b in zip(x, labels)):
            if r[0] == '!':
                return len(x) - 1
            best = max(best, len(x))
    return best


def is_public(host, rules, depth=1):
    return suffix_len(host, rules, depth) >= host.count('.') + 1


def registered(host, rules, depth=1):
    n = suffix_len(host, rules, depth)
    labels = host.split('.')
    if n >= len(labels):
        return None
    return '.'.join(labels[-n - 1:])


class Refused(Exception):
    pass


class Jar(object):

    """what a store should hold"""

    def __init__(self, rules=(), depth=255):
        self.rules = rules
        self.depth = depth
        self.cookies = {}
        self.n = 0

    def set(self, host, path, c, now):
        host = host.lower()
        domain = c['domain']
        host_only = False
        if domain is None:
            host_only, domain = True, host
        else:
            if not domain_match(host, domain):
                raise Refused
            if is_ip(host) or is_public(domain, self.rules, self.depth):
                if domain != host:
                    raise Refused
                host_only = True
        cpath = c['path'] or default_path(path or '/')
        expires = c['expires']
        if c['max_age'] is not None:
            expires = now + min(c['max_age'], 10 ** 11) if c['max_age'] > 0 else 0
        key = (c['name'], domain, cpath)
        old = self.cookies.pop(key, None)
        if expires is not None and expires < now:
            return
        self.n += 1
        self.cookies[key] = dict(value=c['value'], host_only=host_only, secure=c['secure'], http_only=c['http_only'],
                                 expires=expires, created=old['created'] if old else self.n)

    def get(self, scheme, host, path):
        host, path = host.lower(), path or '/'
        r = []
        for (name, domain, cpath), c in self.cookies.items():
            if c['host_only'] and host != domain:
                continue
            if not domain_match(host, domain) or not path_match(path, cpath):
                continue
            if c['secure'] and scheme != 'https':
                continue
            if c['http_only'] and scheme not in ('http', 'https'):
                continue
            r.append((-len(cpath), c['created'], name, c['value']))
        r.sort()
        return [(n, v) for l, t, n, v in r]

    def expire(self, now, session=False):
        for k, c in list(self.cookies.items()):
            if (c['expires'] is None and session) or (c['expires'] is not None and c['expires'] < now):
                del self.cookies[k]
