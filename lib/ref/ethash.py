"""Ethash from its definition, over plain integers."""
import functools

from . import prim

MASK = 0xFFFFFFFF


def k512(b):
    from Crypto.Hash import keccak
    return keccak.new(digest_bits=512, data=bytes(b)).digest()


def selftest():
    for n in (0, 1, 64, 71, 72, 73, 144, 200):
        d = bytes((i * 11 + n) & 255 for i in range(n))
        assert k512(d) == prim.keccak_pure(d, 512)
    assert fnv(0, 7) == 7 and fnv(1, 0) == 0x01000193
    assert prime(2) and prime(97) and not prime(91) and not prime(1)


def prime(n):
    """Deterministic Miller-Rabin below 3.3e24."""
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def size(initial, growth, unit, epoch):
    s = initial + growth * epoch - unit
    while not prime(s // unit):
        s -= 2 * unit
    return s


def cache_size(epoch, initial=2**24, growth=2**17):
    return size(initial, growth, 64, epoch)


def dataset_size(epoch, initial=2**30, growth=2**23):
    return size(initial, growth, 128, epoch)


@functools.lru_cache(None)
def _seed(e):
    return bytes(32) if e == 0 else prim.keccak(_seed(e - 1))


def seed(e):
    for i in range(0, e, 200):      # bounded recursion
        _seed(i)
    return _seed(e)


def fnv(a, b):
    return (a * 0x01000193 ^ b) & MASK


def words(b):
    return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]


def unwords(w):
    return b"".join(x.to_bytes(4, "little") for x in w)


def make_cache(nbytes, sd):
    n = nbytes // 64
    o = [k512(sd)]
    for _ in range(1, n):
        o.append(k512(o[-1]))
    for _ in range(3):
        for i in range(n):
            v = int.from_bytes(o[i][:4], "little") % n
            x = int.from_bytes(o[(i - 1 + n) % n], "big") ^ int.from_bytes(o[v], "big")
            o[i] = k512(x.to_bytes(64, "big"))
    return [words(x) for x in o]


def item(cache, i):
    n = len(cache)
    m = list(cache[i % n])
    m[0] ^= i
    m = words(k512(unwords(m)))
    for j in range(256):
        p = cache[fnv(i ^ j, m[j % 16]) % n]
        m = [fnv(a, b) for a, b in zip(m, p)]
    return k512(unwords(m))


def hashimoto(hh, nonce, full, lookup):
    """nonce: 8 bytes big endian."""
    s = k512(hh + nonce[::-1])
    mix = words(s) * 2
    s0 = mix[0]
    rows = full // 128
    for i in range(64):
        p = fnv(i ^ s0, mix[i % 32]) % rows
        new = words(lookup(2 * p)) + words(lookup(2 * p + 1))
        mix = [fnv(a, b) for a, b in zip(mix, new)]
    c = [fnv(fnv(fnv(mix[i], mix[i + 1]), mix[i + 2]), mix[i + 3]) for i in range(0, 32, 4)]
    d = unwords(c)
    return d, prim.keccak(s + d)


def light(hh, nonce, cache, full, memo=None):
    memo = {} if memo is None else memo

    def get(i):
        if i not in memo:
            memo[i] = item(cache, i)
        return memo[i]
    return hashimoto(hh, nonce, full, get)
