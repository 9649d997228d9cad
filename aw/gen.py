"""Workload generators"""
import hashlib
import os
import random
import zlib


def rbytes(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""


WORDS = [b"silo", b"WARC", b"record", b"museum", b"archive", b"\r\n", b" ", b"\n",
    b"datamuseum", b"0123456789", b"{", b"}", b"tape", b"punch card", b"\t"]


def content(rng, n, kind=None):
    """n bytes of content of some kind"""
    if kind is None:
        kind = rng.choice(["random", "random", "zeros", "text", "mixed", "period",
            "gz", "lowent", "warc", "lumpy"])
    if n <= 0:
        return b""
    if kind == "random":
        return rbytes(rng, n)
    if kind == "zeros":
        return bytes([rng.randrange(256)]) * n
    if kind == "text":
        o = bytearray()
        while len(o) < n:
            o += rng.choice(WORDS)
            if rng.random() < .1:
                o += b"%d" % rng.randrange(1 << 30)
        return bytes(o[:n])
    if kind == "period":
        p = rbytes(rng, rng.choice([2, 3, 7, 31, 255, 256, 257, 4095, 32768, 32769, 40000]))
        return (p * (n // len(p) + 1))[:n]
    if kind == "lowent":
        a = rbytes(rng, rng.choice([2, 3, 4, 8, 16, 100]))
        return bytes(rng.choice(a) for _ in range(min(n, 20000))) * (n // 20000 + 1) \
            if n > 20000 else bytes(rng.choice(a) for _ in range(n))
    if kind == "gz":
        z = zlib.compress(content(rng, n * 2, "text"), rng.randrange(1, 10))
        return (z + rbytes(rng, n))[:n]
    if kind == "warc":
        t = (b"WARC/1.1\r\nWARC-Record-ID: <file://example.com/aa/%s>\r\n"
            b"Content-Length: 5\r\nWARC-Type: resource\r\n\r\nhello\r\n\r\n" %
            hashlib.sha256(rbytes(rng, 8)).hexdigest()[:32].encode())
        t += bytes.fromhex("1f8b0800200119660203e3e5e2e502004415c28b04000000")
        return (t * (n // len(t) + 1))[:n]
    if kind == "lumpy":
        # compressible stretches interleaved with incompressible ones
        o = bytearray()
        while len(o) < n:
            k = rng.choice([1, 10, 100, 1000, 5000, 30000])
            k = rng.randrange(1, k + 1)
            if rng.random() < .5:
                o += rbytes(rng, k)
            else:
                o += bytes([rng.randrange(256)]) * k
        return bytes(o[:n])
    if kind == "mixed":
        a = rng.randrange(n + 1)
        return content(rng, a, "random") + content(rng, n - a, "text")
    raise ValueError(kind)


def exact(rng, n, kind=None):
    b = content(rng, n, kind)
    b = b[:n]
    if len(b) < n:
        b += rbytes(rng, n - len(b))
    return b


def size(rng, maxbytes, big=4.0):
    """A size, log-distributed, with the interesting edges over-represented"""
    c = rng.random()
    if c < .12:
        return rng.choice([1, 2, 3, 4, 5, 12, 13, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33])
    if c < .20:
        k = rng.choice([128 * 1024, 4096, 8192, 65536, 32768])
        k = max(1, k + rng.randrange(-2, 3))
        if k < maxbytes * big:
            return k
    if c < .45:
        # around the capacity of one silo
        return max(1, int(maxbytes * rng.uniform(.75, 1.1)))
    if c < .60:
        return max(1, int(maxbytes * rng.uniform(1, big)))
    hi = max(2, int(maxbytes * 1.2))
    import math
    return max(1, int(math.exp(rng.uniform(0, math.log(hi)))))
