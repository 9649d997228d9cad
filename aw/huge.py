"""Objects of more than 4 GiB, which compress to a few megabytes"""
import hashlib
import os
import resource
import struct
import subprocess
import time
import zlib

from . import core, idx, warc

BLK = 16 << 20


def block(rng):
    """16 MiB of mostly zeros, with some structure"""
    b = bytearray(BLK)
    for _ in range(16):
        n = rng.randrange(1, 200)
        o = rng.randrange(BLK - n)
        b[o:o + n] = rng.randbytes(n)
    return bytes(b)


class Part(object):
    """head + n * block + tail"""

    def __init__(self, rng, size, tail=b""):
        self.blk = block(rng)
        size -= len(tail)
        self.n, h = divmod(max(size, 0), BLK)
        self.head = self.blk[:h]
        self.tail = tail
        self.size = len(self.head) + self.n * BLK + len(tail)

    def chunks(self):
        if self.head:
            yield self.head
        for _ in range(self.n):
            yield self.blk
        if self.tail:
            yield self.tail

    def deflate(self):
        """Raw deflate stream: the block is only compressed once"""
        out = []

        def raw(b):
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            return c.compress(b) + c.flush(zlib.Z_FULL_FLUSH)
        if self.head:
            out.append(raw(self.head))
        if self.n:
            out += [raw(self.blk)] * self.n
        if self.tail:
            out.append(raw(self.tail))
        out.append(b"\x03\x00")
        return b"".join(out)

    def scan(self, *hashes):
        crc = 0
        for c in self.chunks():
            crc = zlib.crc32(c, crc)
            for h in hashes:
                h.update(c)
        return crc

    def member(self, crc):
        z = self.deflate()
        n = 24 + len(z) + 8
        return (b"\x1f\x8b\x08\x04\0\0\0\0\x02\x03\x0c\0Aa\x08\0" + struct.pack("<Q", n) + z +
            struct.pack("<II", crc, self.size & 0xffffffff))


def forge(ctx, arch, parts, mime="application/octet-stream", lie=None):
    """Make arch, which is empty, hold one object of these parts.

    lie(i, part, fields): may damage the header fields (a list) of record i

    -> (id, sha256 of it all, size) or None if the program complained
    """
    total = hashlib.sha256()
    digs = []
    for p in parts:
        h = hashlib.sha256()
        crc = p.scan(h, total)
        digs.append((h.hexdigest(), crc))
    size = sum(p.size for p in parts)
    L = arch.cfg.idlen
    rid = total.hexdigest()[:L]
    for i, p in enumerate(parts):
        r = arch.cmd("mksilo", str(i))
        if r.rc != 0:
            ctx.violate("mksilo", "mksilo failed", result=r.brief())
            return None
        me = rid if i == 0 else digs[i][0][:L]
        f = [("WARC-Record-ID", "<%s>" % arch.uri(me)), ("Content-Length", p.size), ("Content-Type", mime),
            ("WARC-Block-Digest", "sha256:" + digs[i][0]),
            ("WARC-Date", time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime()))]
        if len(parts) > 1:
            if i == 0:
                f.append(("WARC-Payload-Digest", "sha256:" + total.hexdigest()))
            f.append(("WARC-Segment-Number", i + 1))
            if i:
                f.append(("WARC-Segment-Origin-ID", "<%s>" % arch.uri(rid)))
            if i == len(parts) - 1:
                f.append(("WARC-Segment-Total-Length", size))
        f.append(("WARC-Type", "continuation" if i else "resource"))
        if lie:
            lie(i, p, f)
        with open(arch.silo_path(i), "ab") as fo:
            fo.write(warc.member(warc.header_bytes(f), 0) + p.member(digs[i][1]) + warc.CRLFCRLF_GZ)
    r = arch.cmd("reindex")
    if r.rc != 0:
        ctx.violate("reindex", "reindex failed", result=r.brief())
        return None
    return rid, total.hexdigest(), size


class NoFsize(object):
    """While files of more than the usual size have to be written"""

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.old[1], self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class BigRecord(object):
    """Append to silo no, which exists, one resource of zeros which takes up more than 4 GiB in the silo, because it
    is not compressed (deflate's stored blocks).  The file is sparse, it needs some 300 MB.
    """
    STORED = 65535

    def __init__(self, arch, no, over, mime="application/octet-stream"):
        n = (1 << 32) // (self.STORED + 5) + 1 + over
        self.size = n * self.STORED
        z = bytes(1 << 20)
        h = hashlib.sha256()
        crc = 0
        left = self.size
        while left:
            c = z if left >= len(z) else z[:left]
            h.update(c)
            crc = zlib.crc32(c, crc)
            left -= len(c)
        self.sha = h.hexdigest()
        self.id = self.sha[:arch.cfg.idlen]
        self.gzlen = 24 + n * (self.STORED + 5) + 2 + 8
        hdr = warc.member(warc.header_bytes([("WARC-Record-ID", "<%s>" % arch.uri(self.id)), ("Content-Length", self.size),
            ("Content-Type", mime), ("WARC-Block-Digest", "sha256:" + self.sha),
            ("WARC-Date", time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime())), ("WARC-Type", "resource")]), 0)
        fd = os.open(arch.silo_path(no), os.O_WRONLY)
        try:
            self.off = os.fstat(fd).st_size
            o = self.off
            o += os.pwrite(fd, hdr, o)
            o += os.pwrite(fd, b"\x1f\x8b\x08\x04\0\0\0\0\x02\x03\x0c\0Aa\x08\0" + struct.pack("<Q", self.gzlen), o)
            b = struct.pack("<BHH", 0, self.STORED, 0xffff ^ self.STORED)
            for _ in range(n):
                os.pwrite(fd, b, o)
                o += self.STORED + 5
            o += os.pwrite(fd, b"\x03\x00" + struct.pack("<II", crc, self.size & 0xffffffff) + warc.CRLFCRLF_GZ, o)
            self.end = o
        finally:
            os.close(fd)


def long_run():
    """preexec: such objects take longer than the usual limit of CPU time"""
    resource.setrlimit(resource.RLIMIT_CPU, (600, resource.RLIM_INFINITY))


def stream(argv, sink, env=None, feed=None, timeout=400):
    """Run argv, all its standard output goes through sink(bytes) -> Res"""
    e = dict(core.BASE_ENV)
    e.update(env or {})
    t0 = time.monotonic_ns()
    p = subprocess.Popen(argv, stdin=subprocess.PIPE if feed else subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, env=e, start_new_session=True, preexec_fn=long_run)
    dl = time.monotonic() + timeout
    hung = False
    try:
        if feed:
            try:
                for c in feed:
                    p.stdin.write(c)
                    if time.monotonic() > dl:
                        hung = True
                        break
                p.stdin.close()
            except BrokenPipeError:
                pass
        fd = p.stdout.fileno()
        while not hung:
            b = os.read(fd, 1 << 20)
            if not b:
                break
            sink(b)
            if time.monotonic() > dl:
                hung = True
        if hung:
            p.kill()
        err = p.stderr.read()
        p.wait(60)
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    if hung:
        raise core.Hung(" ".join(argv))
    return core.Res(argv, p.returncode, b"", err, False, t0, time.monotonic_ns())


class Sum(object):
    """Sink which counts and hashes; keeps the first bytes"""

    def __init__(self):
        self.h = hashlib.sha256()
        self.n = 0
        self.first = b""

    def __call__(self, b):
        if len(self.first) < 4096:
            self.first += b[:4096]
        self.n += len(b)
        self.h.update(b)


class Gunzip(object):
    """Sink which decodes exactly one gzip member, counts and hashes"""

    def __init__(self):
        self.d = zlib.decompressobj(31)
        self.h = hashlib.sha256()
        self.n = 0
        self.raw = 0
        self.error = None

    def __call__(self, b):
        self.raw += len(b)
        if self.error:
            return
        try:
            while b:
                if self.d.eof:
                    self.error = "bytes after the first member"
                    return
                o = self.d.decompress(b, 1 << 22)
                self.h.update(o)
                self.n += len(o)
                b = self.d.unconsumed_tail or self.d.unused_data
        except zlib.error as e:
            self.error = str(e)

    def done(self):
        while not self.error and not self.d.eof:
            try:
                o = self.d.decompress(b"", 1 << 22)
            except zlib.error as e:
                self.error = str(e)
                break
            if not o:
                break
            self.h.update(o)
            self.n += len(o)
        if not self.error and not self.d.eof:
            self.error = "truncated"
        return self.error


def big_silo(ctx, h, nops, mime="application/octet-stream"):
    """Make h.a, which is empty and whose silos may be large, have a silo with a record of more than 4 GiB in the
    middle, and objects before and behind it which were stored by the program.

    -> (the BigRecord, its index entry and those of all objects), None if the program complained
    """
    rng = ctx.rng
    a = h.a
    no = 0
    want = []

    def ops(n):
        for _ in range(n):
            o = rng.random() if h.order else 1
            if o < .15:
                if not h.housekeeping():
                    return False
                continue
            try:
                at = os.path.getsize(a.silo_path(no))
            except FileNotFoundError:
                at = None
            if o < .4 and h.order:
                rid = h.metadata(n=rng.randrange(1, 3000))
                f = idx.F_METADATA
            else:
                rid = h.store(n=rng.randrange(1, 3000))
                f = idx.F_RESOURCE
            if rid is None:
                return False
            if at is None:
                at = warc.parse_silo(open(a.silo_path(no), "rb").read(), a.cfg.prefix)[1].off
            elif os.path.getsize(a.silo_path(no)) == at:
                continue
            want.append((rid[:24].ljust(24, "0"), f, no, at, "00000000"))
        return True
    if not ops(rng.randrange(1, 4)):
        return None
    if list(a.silo_nums()) != [no]:
        ctx.violate("big-silo", "objects are in silos %s" % a.silo_nums())
        return None
    wi = warc.parse_silo(open(a.silo_path(no), "rb").read(), a.cfg.prefix)[0]
    want.append((wi.id[:24].ljust(24, "0"), idx.F_WARCINFO, no, 0, "00000000"))
    br = BigRecord(a, no, rng.randrange(100), mime)
    e = (br.id[:24].ljust(24, "0"), idx.F_RESOURCE, no, br.off, "00000000")
    want.append(e)
    with open(a.dir + "index.appendix", "ab") as f:
        f.write(idx.pack(*e))
    mid = h.metadata(ref=br.id, n=rng.randrange(1, 3000))
    if mid is None:
        return None
    want.append((mid[:24].ljust(24, "0"), idx.F_METADATA, no, br.end, "00000000"))
    if not ops(nops):
        return None
    if list(a.silo_nums()) != [no]:
        ctx.violate("big-silo", "objects are in silos %s" % a.silo_nums())
        return None
    ctx.stats["big_silos"] += 1
    return br, want
