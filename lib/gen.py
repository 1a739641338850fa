"""Input generators shared by the checks (all randomness from a Random)"""

ASCII = ''.join(chr(i) for i in range(32, 127))
SPECIAL = '<>&"\'%;:/?#[]@!$()*+,=-._~\\|{}^` '
UNI = 'é€ßŁ一𝄞ÿĀ\u00a0\u0301\u2028'


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def text(rng, maxlen=12, alphabet=None, minlen=0):
    n = rng.randint(minlen, maxlen)
    if alphabet is None:
        alphabet = pick(rng, (ASCII, SPECIAL + 'ab01', UNI + 'ab', 'abc', 'ab01 '))
    return ''.join(pick(rng, alphabet) for _ in range(n))


def data(rng, maxlen=64, minlen=0):
    n = rng.randint(minlen, maxlen)
    m = rng.randrange(4)
    if m == 0:
        return bytes(rng.getrandbits(8) for _ in range(n))
    if m == 1:
        return bytes(pick(rng, b'\r\n ab') for _ in range(n))
    if m == 2:
        return bytes(pick(rng, b'abcdefgh0123') for _ in range(n))
    return bytes(pick(rng, b'\x00\xff\x80\x0a\x0d') for _ in range(n))


def fragments(rng, b, maxfrag=None):
    """Splits b at random points"""
    out = []
    i = 0
    if maxfrag is None:
        maxfrag = pick(rng, (1, 2, 3, 7, 64, 1000))
    while i < len(b):
        k = rng.randint(1, maxfrag)
        out.append(b[i:i + k])
        i += k
    return out
