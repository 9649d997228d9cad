"""Independent reader of the index files"""
import os
import struct

F_WARCINFO, F_RESOURCE, F_METADATA = 2, 4, 8
F_SEGMENTED, F_FIRST, F_LAST = 0x10, 0x20, 0x40


def pack(key, flags, silo, off, cont=b""):
    """key: hex string"""
    k = (key + "0" * 24)[:24]
    if isinstance(cont, str):
        cont = bytes.fromhex((cont + "0" * 8)[:8])
    return bytes.fromhex(k) + struct.pack(">IIQ", flags, silo, off) + (cont + b"\0" * 4)[:4]


def unpack(b):
    f, s, o = struct.unpack(">IIQ", b[12:28])
    return (b[:12].hex(), f, s, o, b[28:32].hex())


def read_appendix(fn):
    try:
        b = open(fn, "rb").read()
    except FileNotFoundError:
        return []
    if len(b) % 32:
        raise ValueError("%s: length %d not multiple of 32" % (fn, len(b)))
    return [unpack(b[i:i + 32]) for i in range(0, len(b), 32)]


def read_sorted(fn):
    try:
        b = open(fn, "rb").read()
    except FileNotFoundError:
        return []
    if len(b) < 32 or b[:2] != b"Aa":
        raise ValueError("%s: bad magic" % fn)
    h = 1 << (b[2] + 3)
    if (len(b) - h) % 32 or len(b) < h:
        raise ValueError("%s: length %d header %d" % (fn, len(b), h))
    return [unpack(b[i:i + 32]) for i in range(h, len(b), 32)]


def parse_dump(out):
    """Parse the output of dumpindex -> list of tuples"""
    r = []
    for ln in out.decode().splitlines():
        f = ln.split()
        if len(f) != 5:
            raise ValueError("bad dumpindex line %r" % ln)
        r.append((f[0].lower(), int(f[1], 16), int(f[2]), int(f[3]), f[4].lower()))
    return r


def expected(model):
    """Index entries which should exist for the records in the silos"""
    exp = []
    chain_next = {}
    objs = {}
    for n, r in model.records():
        if r.segno is None:
            continue
        if r.segno == 1:
            o = "<%s%s>" % (model.prefix, r.id)
        else:
            o = r.get("WARC-Segment-Origin-ID")
        objs.setdefault(o, {})[r.segno] = r
    for n, r in model.records():
        flg = {"warcinfo": F_WARCINFO, "resource": F_RESOURCE,
            "metadata": F_METADATA}.get(r.type, 0)
        cont = "00000000"
        if r.segno is not None:
            flg |= F_SEGMENTED
            if r.segno == 1:
                flg |= F_FIRST
                o = "<%s%s>" % (model.prefix, r.id)
            else:
                o = r.get("WARC-Segment-Origin-ID")
            if r.get("WARC-Segment-Total-Length") is not None:
                flg |= F_LAST
            nxt = objs[o].get(r.segno + 1)
            if nxt is not None:
                cont = nxt.id[:8].lower()
        exp.append((r.id[:24].lower().ljust(24, "0"), flg, n, r.off, cont))
    return exp


def expected_any(model):
    """Like expected(), for silos with incomplete or repeated objects: the
    continuation is not compared"""
    exp = []
    for n, r in model.records():
        flg = {"warcinfo": F_WARCINFO, "resource": F_RESOURCE,
            "metadata": F_METADATA}.get(r.type, 0)
        if r.segno is not None:
            flg |= F_SEGMENTED
            if r.segno == 1:
                flg |= F_FIRST
            if r.get("WARC-Segment-Total-Length") is not None:
                flg |= F_LAST
        exp.append((r.id[:24].lower().ljust(24, "0"), flg, n, r.off, "00000000"))
    return exp
