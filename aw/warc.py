"""Independent reader and checker of AardWARC silos.

Shares no code with the program: zlib + hashlib only.
"""
import hashlib
import re
import struct
import zlib

CRLFCRLF_GZ = bytes.fromhex(
    "1f8b0800200119660203e3e5e2e502004415c28b04000000")


class WarcError(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind


def gunzip_member(buf, off, limit=1 << 31):
    """Decompress exactly one gzip member -> (data, nbytes_consumed)"""
    d = zlib.decompressobj(31)
    try:
        data = d.decompress(buf[off:off + (limit)])
        data += d.flush()
    except zlib.error as e:
        raise WarcError("gzip", "at %d: %s" % (off, e))
    if not d.eof:
        raise WarcError("gzip-truncated", "at %d" % off)
    used = min(len(buf), off + limit) - off - len(d.unused_data)
    return data, used


def aa_len(buf, off):
    """The 'Aa' extra field of the member at off, or None"""
    h = buf[off:off + 24]
    if len(h) < 24 or h[:4] != b"\x1f\x8b\x08\x04":
        return None
    if h[10:16] != b"\x0c\x00Aa\x08\x00":
        return None
    return struct.unpack("<Q", h[16:24])[0]


class Record(object):
    __slots__ = ("off", "raw_hdr", "fields", "hdr_len", "body", "body_off",
        "body_len", "end", "version", "id", "type")

    def get(self, name):
        for k, v in self.fields:
            if k.lower() == name.lower():
                return v
        return None

    def getall(self, name):
        return [v for k, v in self.fields if k.lower() == name.lower()]

    @property
    def segno(self):
        v = self.get("WARC-Segment-Number")
        return None if v is None else int(v)


def parse_header(data):
    if not data.endswith(b"\r\n\r\n"):
        raise WarcError("header", "does not end with empty line")
    try:
        txt = data.decode("utf-8")
    except UnicodeDecodeError:
        txt = data.decode("latin-1")
    lines = txt[:-4].split("\r\n")
    version = lines[0]
    if version not in ("WARC/1.0", "WARC/1.1"):
        raise WarcError("header", "bad version line %r" % version)
    fields = []
    for ln in lines[1:]:
        if "\r" in ln or "\n" in ln:
            raise WarcError("header", "stray CR/LF in %r" % ln)
        k, s, v = ln.partition(": ")
        if not s or not re.match(r"^[A-Za-z][A-Za-z0-9-]*$", k):
            raise WarcError("header", "bad field %r" % ln)
        fields.append((k, v))
    seen = set()
    for k, v in fields:
        if k.lower() in seen:
            raise WarcError("header", "duplicate field %r" % k)
        seen.add(k.lower())
    return version, fields


def parse_silo(buf, prefix):
    """Parse a whole silo; raises WarcError on any deviation of framing"""
    recs = []
    off = 0
    while off < len(buf):
        r = Record()
        r.off = off
        data, n = gunzip_member(buf, off)
        al = aa_len(buf, off)
        if al != n:
            raise WarcError("header-aa", "at %d: Aa=%s member=%d" % (off, al, n))
        r.raw_hdr = data
        r.hdr_len = n
        r.version, r.fields = parse_header(data)
        rid = r.get("WARC-Record-ID")
        if rid is None or not rid.startswith("<" + prefix) or not rid.endswith(">"):
            raise WarcError("record-id", "at %d: %r" % (off, rid))
        r.id = rid[1 + len(prefix):-1]
        r.type = r.get("WARC-Type")
        off += n
        r.body_off = off
        if off >= len(buf):
            raise WarcError("truncated", "no body at %d" % off)
        r.body, n = gunzip_member(buf, off)
        r.body_len = n
        al = aa_len(buf, off)
        if al != n:
            raise WarcError("body-aa", "at %d: Aa=%s member=%d" % (off, al, n))
        off += n
        sep = buf[off:off + 24]
        if sep != CRLFCRLF_GZ:
            if len(sep) < 24:
                raise WarcError("truncated", "separator at %d" % off)
            d, n = gunzip_member(buf, off)
            raise WarcError("separator", "at %d: %r" % (off, d[:40]))
        off += 24
        r.end = off
        recs.append(r)
    if not recs:
        raise WarcError("empty", "no records")
    return recs


DATE_RE = re.compile(r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$")


def check_record(r, cfg, errs, where):
    """Semantic checks on one record, appends (kind, msg) to errs"""
    idlen = cfg.idlen

    def e(kind, msg):
        errs.append((kind, "%s @%d: %s" % (where, r.off, msg)))

    if not re.match(r"^[0-9a-fA-F]+$", r.id) or len(r.id) != idlen:
        e("id-shape", "id %r (want %d hex digits)" % (r.id, idlen))
    if r.version != "WARC/1.1":
        e("version", r.version)
    for h in ("WARC-Type", "WARC-Date", "Content-Length", "Content-Type",
            "WARC-Block-Digest"):
        if r.get(h) is None:
            e("missing-" + h, "missing %s" % h)
            return
    if not DATE_RE.match(r.get("WARC-Date")):
        e("date", r.get("WARC-Date"))
    if r.get("Content-Length") != str(len(r.body)):
        e("content-length", "%s vs %d" % (r.get("Content-Length"), len(r.body)))
    dig = hashlib.sha256(r.body).hexdigest()
    if r.get("WARC-Block-Digest") != "sha256:" + dig:
        e("block-digest", "%s vs %s" % (r.get("WARC-Block-Digest"), dig))
    if len(r.body) == 0:
        e("empty-body", "zero length body")
    z = r.get("z")
    if z is not None and z.strip("_"):
        e("padding", "%r" % z)
    known = {"warc-record-id", "warc-type", "warc-date", "content-length",
        "content-type", "warc-block-digest", "z", "warc-filename",
        "warc-refers-to", "warc-payload-digest", "warc-segment-number",
        "warc-segment-origin-id", "warc-segment-total-length"}
    for k, v in r.fields:
        if k.lower() not in known:
            e("unknown-header", k)
    if r.type == "warcinfo":
        if r.id != dig[:idlen]:
            e("warcinfo-id", "%s vs %s" % (r.id, dig))
        if r.get("Content-Type") != "application/warc-fields":
            e("warcinfo-ct", r.get("Content-Type"))
    elif r.type in ("resource", "metadata"):
        if r.get("WARC-Filename") is not None:
            e("stray-header", "WARC-Filename")
        rt = r.get("WARC-Refers-To")
        if (rt is not None) != (r.type == "metadata"):
            e("refers-to", "type %s refers-to %r" % (r.type, rt))
        if rt is not None:
            if not (rt.startswith("<" + cfg.prefix) and rt.endswith(">")):
                if not (rt[:1] == "<" and rt[-1:] == ">" and
                    rt[1:1 + len(cfg.prefix)].lower() == cfg.prefix.lower()):
                    e("refers-to", rt)
    elif r.type == "continuation":
        pass
    else:
        e("type", "unknown type %r" % r.type)
    sn = r.get("WARC-Segment-Number")
    if sn is None:
        if r.type == "continuation":
            e("segment", "continuation without number")
        for h in ("WARC-Segment-Origin-ID", "WARC-Segment-Total-Length",
                "WARC-Payload-Digest"):
            if r.get(h) is not None:
                e("segment", "%s on unsegmented record" % h)
        if r.type == "resource" and r.id.lower() != dig[:idlen]:
            e("resource-id", "%s vs %s" % (r.id, dig))
    else:
        if not re.match(r"^[1-9]\d*$", sn):
            e("segment", "number %r" % sn)
            return
        n = int(sn)
        if (n == 1) == (r.type == "continuation"):
            e("segment", "number %d on %s" % (n, r.type))
        if (n == 1) != (r.get("WARC-Payload-Digest") is not None):
            e("segment", "payload digest on segment %d: %r" % (n, r.get("WARC-Payload-Digest")))
        if (n > 1) != (r.get("WARC-Segment-Origin-ID") is not None):
            e("segment", "origin id on segment %d" % n)
        if n == 1 and r.get("WARC-Segment-Total-Length") is not None:
            e("segment", "total length on first segment")
        if n > 1 and r.id != dig[:idlen]:
            e("continuation-id", "%s vs %s" % (r.id, dig))


class Model(object):
    """The content of an archive, as an independent reader sees it"""

    def __init__(self):
        self.silos = {}      # number -> [Record]
        self.sizes = {}
        self.errs = []       # (kind, msg)

    def records(self):
        for n in sorted(self.silos):
            for r in self.silos[n]:
                yield n, r

    def objects(self):
        """{id: (type, bytes, [ (silo, record)...])}; reassembles segments"""
        objs = {}
        conts = {}
        for n, r in self.records():
            if r.type == "continuation":
                o = r.get("WARC-Segment-Origin-ID") or ""
                conts.setdefault(o, []).append((n, r))
        for n, r in self.records():
            if r.type not in ("resource", "metadata"):
                continue
            chain = [(n, r)]
            if r.segno is not None:
                cs = conts.get("<" + self.prefix + r.id + ">", [])
                cs = sorted(cs, key=lambda x: x[1].segno)
                chain += cs
            objs.setdefault(r.id.lower(), []).append(
                (r.type, b"".join(x[1].body for x in chain), chain))
        return objs


def load(arch, strict=True):
    """Parse and check every silo of an archive -> Model"""
    m = Model()
    m.prefix = arch.cfg.prefix
    nums = arch.silo_nums()
    files = arch.silo_files()
    if len(nums) != len(files):
        unk = set(os_abspath(p) for p in files.values()) - set(nums.values())
        m.errs.append(("misplaced", "unexpected files %s" % sorted(unk)[:5]))
    for n in sorted(nums):
        with open(nums[n], "rb") as f:
            buf = f.read()
        m.sizes[n] = len(buf)
        where = "silo %d" % n
        if len(buf) > arch.cfg.maxbytes:
            m.errs.append(("oversize", "%s is %d bytes, max %d" % (
                where, len(buf), arch.cfg.maxbytes)))
        try:
            recs = parse_silo(buf, arch.cfg.prefix)
        except WarcError as e:
            m.errs.append((e.kind, "%s: %s" % (where, e)))
            continue
        m.silos[n] = recs
        if strict:
            for r in recs:
                check_record(r, arch.cfg, m.errs, where)
        w = recs[0]
        bn = (arch.cfg.basename or "%08u.warc.gz") % n
        if w.type != "warcinfo":
            m.errs.append(("warcinfo-first", where))
        elif strict:
            if w.get("WARC-Filename") != bn:
                m.errs.append(("warcinfo-filename", "%s: %r" % (where, w.get("WARC-Filename"))))
            check_warcinfo(w, arch.cfg, bn, m.errs, where)
        for r in recs[1:]:
            if r.type == "warcinfo":
                m.errs.append(("warcinfo-dup", "%s @%d" % (where, r.off)))
    if strict:
        check_segments(m, arch.cfg)
    return m


def os_abspath(p):
    import os
    return os.path.abspath(p)


def check_warcinfo(w, cfg, bn, errs, where):
    try:
        txt = w.body.decode("utf-8")
    except UnicodeDecodeError:
        errs.append(("warcinfo-body", "%s: not utf-8" % where))
        return
    if not txt.endswith("\r\n"):
        errs.append(("warcinfo-body", "%s: no CRLF at end" % where))
    fields = [(k, v.strip()) for k, c, v in (ln.partition(":") for ln in txt.split("\r\n")[:-1])]
    names = [k for k, v in fields]
    for must in ("title", "format", "conformsTo", "software"):
        if names.count(must) != 1:
            errs.append(("warcinfo-body", "%s: %d x %s" % (where, names.count(must), must)))
    d = dict(fields)
    if d.get("title") != bn:
        errs.append(("warcinfo-body", "%s: title %r" % (where, d.get("title"))))
    if d.get("format") != "WARC file version 1.1":
        errs.append(("warcinfo-body", "%s: format %r" % (where, d.get("format"))))
    std = ("title", "format", "conformsto", "software")
    want = [(k.rstrip(":"), v or "") for k, v in cfg.warcinfo or () if k.rstrip(":").lower() not in std]
    got = [(k, v) for k, v in fields if k.lower() not in std]
    if sorted(got) != sorted(want):
        errs.append(("warcinfo-body", "%s: fields %r, configured %r" % (where, got, want)))


def check_segments(m, cfg):
    """Segment chains must be complete, ordered and consistent"""
    firsts = {}
    conts = {}
    for n, r in m.records():
        if r.segno is None:
            continue
        if len([x for x in m.silos[n] if x.segno is not None]) > 1:
            m.errs.append(("segment-shared-silo", "silo %d" % n))
        if r.segno == 1:
            if r.id in firsts:
                m.errs.append(("segment-dup-first", "id %s" % r.id))
            firsts[r.id] = (n, r)
        else:
            conts.setdefault(r.get("WARC-Segment-Origin-ID"), []).append((n, r))
    used = set()
    for rid, (n, r) in firsts.items():
        o = "<%s%s>" % (cfg.prefix, rid)
        chain = sorted(conts.get(o, []), key=lambda x: x[1].segno)
        used.add(o)
        want = list(range(2, len(chain) + 2))
        got = [c.segno for _, c in chain]
        if not chain or got != want:
            m.errs.append(("segment-chain", "id %s: segments 1,%s" % (rid, got)))
            continue
        data = r.body + b"".join(c.body for _, c in chain)
        for _, c in chain[:-1]:
            if c.get("WARC-Segment-Total-Length") is not None:
                m.errs.append(("segment-total", "id %s: total length on segment %d of %d" % (rid, c.segno, len(chain) + 1)))
        tl = chain[-1][1].get("WARC-Segment-Total-Length")
        if tl != str(len(data)):
            m.errs.append(("segment-total", "id %s: %s vs %d" % (rid, tl, len(data))))
        dig = hashlib.sha256(data).hexdigest()
        if r.get("WARC-Payload-Digest") != "sha256:" + dig:
            m.errs.append(("segment-payload-digest", "id %s" % rid))
        if r.type == "resource" and rid.lower() != dig[:cfg.idlen]:
            m.errs.append(("segment-resource-id", "id %s" % rid))
        for _, c in chain:
            if c.get("Content-Type") != r.get("Content-Type"):
                m.errs.append(("segment-ct", "id %s" % rid))
    for o in conts:
        if o not in used:
            m.errs.append(("segment-orphan", "origin %s" % o))


# -- Writer, for making damaged archives -------------------------------------

def member(data, level=6, aa=None):
    """One gzip member with a correct (or given) Aa field"""
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    z = c.compress(data) + c.flush()
    n = 24 + len(z) + 8
    return (b"\x1f\x8b\x08\x04\0\0\0\0\x02\x03\x0c\0Aa\x08\0" +
        struct.pack("<Q", n if aa is None else aa) + z +
        struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff))


def header_bytes(fields, version="WARC/1.1"):
    t = version + "\r\n" + "".join("%s: %s\r\n" % f for f in fields) + "\r\n"
    return t.encode("utf-8")


def record_bytes(fields, body, level=6, aa=None, version="WARC/1.1"):
    return member(header_bytes(fields, version), 0) + member(body, level, aa) + CRLFCRLF_GZ
