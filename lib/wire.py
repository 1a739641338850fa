"""Independent HTTP/1.x message framing: builds and reads messages.

Written from RFC 2616 sections 4 and 5; shares nothing with the library."""

import gzip
import io
import zlib

CRLF = b'\r\n'


class Framing(Exception):
    pass


def norm(v):
    """linear white space is insignificant"""
    return b' '.join(v.split())


def split_head(data, pos=0):
    """(start line, [(lower name, value)], end) of the head at pos"""
    while data[pos:pos + 2] == CRLF:
        pos += 2
    end = data.find(b'\r\n\r\n', pos)
    if end < 0:
        raise Framing("no end of head in %r" % data[pos:pos + 200])
    lines = data[pos:end].split(CRLF)
    headers = []
    for l in lines[1:]:
        if l[:1] in (b' ', b'\t'):
            if not headers:
                raise Framing("fold before the first header")
            headers[-1] = (headers[-1][0], headers[-1][1] + b' ' + l)
            continue
        if b'\r' in l or b'\n' in l:
            raise Framing("bare CR or LF in header %r" % l)
        n, sep, v = l.partition(b':')
        if not sep or not n or n.strip() != n:
            raise Framing("bad header %r" % l)
        headers.append((n.lower(), v))
    return lines[0], [(n, norm(v)) for n, v in headers], end + 4


def values(headers, name):
    return [v for n, v in headers if n == name]


def tokens(headers, name):
    return [t.strip().lower() for v in values(headers, name)
            for t in v.split(b',') if t.strip()]


def dechunk(data, pos):
    """(body, trailers, end)"""
    out = []
    while True:
        e = data.find(CRLF, pos)
        if e < 0:
            raise Framing("no chunk header at %d in %r" % (pos, data[pos:pos + 60]))
        size = data[pos:e].split(b';')[0].strip()
        if not size or size.strip(b'0123456789abcdefABCDEF'):
            raise Framing("bad chunk size %r" % size)
        n = int(size, 16)
        pos = e + 2
        if n == 0:
            break
        if len(data) < pos + n + 2:
            raise Framing("chunk data cut short")
        out.append(data[pos:pos + n])
        if data[pos + n:pos + n + 2] != CRLF:
            raise Framing("chunk data not ended by CRLF")
        pos += n + 2
    if data[pos:pos + 2] == CRLF:
        return b''.join(out), [], pos + 2
    line, trailers, end = split_head(b'X\r\n' + data[pos:])
    return b''.join(out), trailers, pos + end - 3


def gunzip(data):
    if not data:
        return b''
    try:
        return gzip.GzipFile(fileobj=io.BytesIO(data)).read()
    except (EOFError, OSError, zlib.error) as e:
        raise Framing("bad gzip data: %s" % e)


def read_message(data, pos=0, response_to=None):
    """Reads the message at pos; response_to is the request method if it
    is a response, else None.  Returns a dictionary"""
    start, headers, pos = split_head(data, pos)
    m = dict(start=start, headers=headers, trailers=[], close=False)
    body = b''
    te = [t for t in tokens(headers, b'transfer-encoding') if t != b'identity']
    cl = values(headers, b'content-length')
    if response_to is not None:
        status = int(start.split(None, 2)[1])
        bodiless = response_to == 'HEAD' or status // 100 == 1 or status in (204, 304)
    else:
        bodiless = False
    if bodiless:
        pass
    elif te:
        if te[-1] == b'chunked':
            body, m['trailers'], pos = dechunk(data, pos)
        elif response_to is None:
            raise Framing("request ended by closing")
        else:
            body = data[pos:]
            pos = len(data)
            m['close'] = True
        for t in reversed(te):
            if t in (b'gzip', b'x-gzip'):
                body = gunzip(body)
            elif t != b'chunked':
                raise Framing("unknown coding %r" % t)
        if cl:
            m['both'] = True
    elif cl:
        if len(set(cl)) != 1 or cl[0].strip(b'0123456789') or not cl[0]:
            raise Framing("bad Content-Length %r" % cl)
        n = int(cl[0])
        if len(data) < pos + n:
            raise Framing("body cut short: %d of %d bytes" % (len(data) - pos, n))
        body = data[pos:pos + n]
        pos += n
    elif response_to is not None:
        body = data[pos:]
        pos = len(data)
        m['close'] = True
    m['body'] = body
    m['end'] = pos
    return m


def fragments(rng, data, mean=None):
    """cuts data into pieces"""
    out = []
    pos = 0
    if mean is None:
        mean = (1, 2, 3, 7, 40, 500, 5000, 100000)[rng.randrange(8)]
    while pos < len(data):
        n = 1 if mean == 1 else rng.randrange(1, 2 * mean)
        out.append(data[pos:pos + n])
        pos += n
    return out


def chunked(rng, body, trailers=(), ext=True, maxchunk=None):
    out = []
    pos = 0
    if maxchunk is None:
        maxchunk = (1, 5, 17, 300, 9000)[rng.randrange(5)]
        if len(body) > 3000:
            maxchunk = max(maxchunk, 300)

    def head(n):
        s = b'%x' % n
        if rng.random() < 0.5:
            s = s.upper()
        if n == 0:
            s = b'0' * (1 if rng.random() < 0.8 else rng.randrange(1, 5))
        elif rng.random() < 0.1:
            s = b'0' * rng.randrange(1, 4) + s
        if ext and rng.random() < 0.2:
            s += (b';x=1', b' ; name="a;b, c"', b';flag', b'; a=b;c="d\\"e"')[rng.randrange(4)]
        return s + CRLF
    while pos < len(body):
        n = rng.randrange(1, maxchunk + 1)
        c = body[pos:pos + n]
        out.append(head(len(c)) + c + CRLF)
        pos += n
    out.append(head(0))
    for n, v in trailers:
        out.append(n + b': ' + v + CRLF)
    out.append(CRLF)
    return b''.join(out)


def compress(rng, body):
    c = rng.random()
    if c < 0.25 and len(body) > 1:
        k = rng.randrange(1, len(body))
        return gzip.compress(body[:k]) + gzip.compress(body[k:])
    return gzip.compress(body, rng.randrange(1, 10))
