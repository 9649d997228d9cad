"""C25 Objects with similar IDs are never confused"""
import hashlib
import os
import re
import struct
import zlib

from .. import core, gen, hist, idx, warc
from . import c06, c07, c18

VARIANTS = ["plain", "ubsan", "san"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: archives full of IDs which agree in 8 to all but one digits (metadata with forced IDs next to "
    "resources, segmented objects, warcinfo and continuation records) and of segmented objects sharing identical segments "
    "are built, and everything the real commands find, list, reassemble, deliver or miss is compared with a model")
NOTE = ("SHA256 can not be made to collide, similar IDs are those of metadata; identical segments of different objects are "
    "composed by an independent writer. Bounded by the sets generated.")
RULE = ("clusters of similar IDs around every kind of record, single and segmented, in any order of storing, housekeeping and "
    "reindex; sets of segmented objects over a few segments; distinct = (kind of the neighbour, agreeing digits, width, "
    "segmented, operation, present)")
NEED = {"similar": 400, "gets": 2000, "absent": 700, "shared_segments": 500, "filters": 300, "cgi": 500}


def cases(tier, seed):
    n = 1 if tier == "quick" else 20
    return ["c%d" % i for i in range(130 * n)] + ["s%d" % i for i in range(130 * n)] + ["z%d" % i for i in range(8 * n)]


def near(rng, i, k):
    """An ID which agrees in exactly k digits"""
    w = len(i)
    d = "%x" % ((int(i[k], 16) + rng.randrange(1, 16)) % 16)
    t = rng.choice([i[k + 1:], "".join(rng.choice("0123456789abcdef") for _ in range(w - k - 1)),
        "0" * (w - k - 1), "f" * (w - k - 1)])
    return i[:k] + d + t


def digits(rng, w):
    return min(w - 1, rng.choice([7, 8, 8, 9, 12, 15, 16, 22, 23, 24, 24, 24, 25, 26, 31, w - 2, w - 1, rng.randrange(w)]))


def look(ctx, h, absent, rounds=1):
    """Everything which looks something up"""
    rng = ctx.rng
    a = h.a
    w = a.cfg.idlen
    h.get_all()
    if ctx.violations:
        return False
    for i in rng.sample(sorted(absent), min(len(absent), 12)):
        if i in h.objs:
            continue
        r = a.cmd("get", *rng.choice([["-q"], [], ["-z"], ["-n"]]), h.spell(i), variant=h.var())
        ctx.stats["absent"] += 1
        ctx.seen("absent", w, r.rc)
        if r.rc == 0 or r.out or r.crashed:
            h.bad("absent-found", "get of %s, which is not there, says %d and delivers %d bytes" % (i, r.rc, len(r.out)), r)
            return False
        r = c06.cgi(h, "/" + i)
        ctx.stats["cgi"] += 1
        st = re.search(rb"^Status: *(\d+)", r.out.replace(b"\r", b"").split(b"\n\n")[0], re.M)
        if r.crashed or not st or st.group(1) == b"200":
            h.bad("absent-cgi", "request for %s, which is not there, is not refused" % i, r)
            return False
    for i in rng.sample(h.order, min(len(h.order), 6)):
        r = c06.cgi(h, "/" + i)
        ctx.stats["cgi"] += 1
        if not h.ok(r, "cgi"):
            return False
        p = c06.parse(h, r)
        if p is None or p[1] != h.objs[i]["data"] or not p[0].get("status", "200").startswith("200"):
            h.bad("cgi", "request for %s is not answered with it" % i, r)
            return False
    m = warc.load(a)
    ids = {r.id.lower() for n, r in m.records()}
    keys = {i[:24] for i in ids}
    q = [rng.choice([x, x, near(rng, x, digits(rng, w))]) for x in rng.sample(sorted(ids), min(len(ids), 20))] + sorted(absent)[:20]
    q = sorted(set(q))
    order = "sorted"
    if rng.random() < .4:
        rng.shuffle(q)
        order = "random"
    ctx.stats["filters"] += 2
    if not c18.ask(ctx, h, lambda i: i in ids, q, order, ["-s"], "similar"):
        return False
    if not c18.ask(ctx, h, lambda i: i[:24] in keys, q, order, [], "similar"):
        return False
    # duplicates are found, and only those
    i = rng.choice(h.order)
    o = h.objs[i]
    t0 = {k: v for k, v in a.tree().items() if k != "_.cache"}
    if o["type"] == "resource":
        h.store(data=o["data"])
    elif o.get("forced"):
        h.metadata(ref=o["ref"][len(a.cfg.prefix):], data=rng.choice([o["data"], b"other"]), forced=i)
    if {k: v for k, v in a.tree().items() if k != "_.cache"} != t0:
        h.bad("stored-twice", "object %s was stored again" % i)
        return False
    return not ctx.violations


def finish(ctx, h, absent):
    rng = ctx.rng
    a = h.a
    for step in rng.sample(["housekeeping", "reindex", "more", "housekeeping"], 3):
        if step == "housekeeping":
            if not h.housekeeping():
                return False
        elif step == "reindex":
            for f in ("index.appendix", "index.sorted"):
                if os.path.exists(a.dir + f):
                    os.unlink(a.dir + f)
            if not h.ok(a.cmd("reindex", variant=h.var()), "reindex"):
                return False
            h.log.append("index lost, reindex")
        else:
            # one which was not there is there now
            c = [i for i in absent if i not in h.objs]
            if c:
                i = rng.choice(sorted(c))
                absent.discard(i)
                if h.metadata(ref=rng.choice(h.order), n=rng.choice([3, 400]), forced=i) is None:
                    return False
        if rng.random() < .5:
            c07.check_index(ctx, h)
            if ctx.violations:
                return False
        if not look(ctx, h, absent):
            return False
    r = a.cmd("audit", "-i", "ignore-metadata-record-id", variant=h.var())
    if h.ok(r, "audit") and (b"ERROR" in r.out or b"Left on pending" in r.out):
        k = max(0, r.out.find(b"ERROR"))
        h.bad("audit", "audit mistakes one for the other: %r" % r.out[k:k + 300], r)
    return not ctx.violations


def c_case(ctx):
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    w = cfg.idlen
    h.store(n=rng.choice([1, 100]))
    if rng.random() < .8:
        h.store(n=int(cfg.maxbytes * rng.choice([1.5, 2.5, 4])), kind="random")
    if not h.random_ops(rng.randrange(4), p_mksilo=0):
        return
    if ctx.violations:
        return
    absent = set()
    for rnd in range(rng.choice([1, 2, 3])):
        m = warc.load(a)
        recs = [(r.type if r.segno is None or r.segno == 1 else "continuation", r.id.lower()) for n, r in m.records()]
        kinds = sorted({k for k, i in recs})
        for _ in range(rng.randrange(2, 7)):
            if ctx.violations:
                return
            k = rng.choice(kinds)
            base = rng.choice([i for t, i in recs if t == k])
            d = digits(rng, w)
            i = near(rng, base, d)
            if rng.random() < .05 and k in ("warcinfo", "continuation"):
                # the very same, which is not the ID of an object
                i, d = base, w
            if rng.random() < .2:
                absent.add(i)
            if i in h.objs or i in absent:
                continue
            n = rng.choice([1, 10, 300, 300, int(cfg.maxbytes * 1.5), int(cfg.maxbytes * 2.6)])
            f = i.upper() if rng.random() < .15 else i
            if h.metadata(ref=rng.choice(h.order), n=n, forced=f, kind="random" if n > 500 else None) is None:
                return
            ctx.stats["similar"] += 1
            ctx.stats["evaluations"] += 1
            ctx.seen("c", k, d if d < 27 else "more", w, n > cfg.maxbytes)
            recs.append(("metadata", i))
            if rng.random() < .3 and d < w:
                absent.add(near(rng, i, digits(rng, w)))
        ids = {r.id.lower() for n, r in m.records()}
        absent -= set(h.objs)
        absent -= ids
        if rng.random() < .5:
            # in the cache of nothing: in a new silo
            h.housekeeping()
        if not look(ctx, h, absent):
            return
    if finish(ctx, h, absent):
        h.get_all()
    ctx.sample(dict(history=h.log[:20], ids=h.order[:12]))


def member(data, level):
    """As segments are compressed, ready for concatenation"""
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    z = c.compress(data) + c.flush(zlib.Z_SYNC_FLUSH) + c.flush(zlib.Z_FINISH)
    return (b"\x1f\x8b\x08\x04\0\0\0\0\x02\x03\x0c\0Aa\x08\0" + struct.pack("<Q", 32 + len(z)) + z +
        struct.pack("<II", zlib.crc32(data), len(data)))


def record(fields, body, level):
    return warc.member(warc.header_bytes(fields), 0) + member(body, level) + warc.CRLFCRLF_GZ


def s_case(ctx):
    """Different objects made of the same segments"""
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    w = cfg.idlen
    ref = h.store(n=20)
    if ref is None:
        return
    pool = [gen.rbytes(rng, rng.choice([1, 1, 2, 10, 100, 1500])) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < .3:
        pool.append(pool[0] * 2)
    objs = {}
    base = rng.getrandbits(4 * w)
    for _ in range(rng.randrange(2, 14)):
        segs = [rng.choice(pool) for _ in range(rng.choice([2, 2, 3, 3, 4, 6]))]
        data = b"".join(segs)
        if rng.random() < .5:
            rid, typ = a.rid(data), "resource"
        else:
            # similar to something
            src = rng.choice(sorted(objs) + [hashlib.sha256(rng.choice(pool)).hexdigest()[:w], "%0*x" % (w, base)])
            rid, typ = near(rng, src, digits(rng, w)), "metadata"
        if rid in objs or rid in h.objs:
            continue
        objs[rid] = (typ, segs)
    recs = []
    for rid, (typ, segs) in objs.items():
        uri = "<%s%s>" % (cfg.prefix, rid)
        data = b"".join(segs)
        for n, s in enumerate(segs):
            dig = hashlib.sha256(s).hexdigest()
            f = [("WARC-Record-ID", "<%s%s>" % (cfg.prefix, dig[:w]) if n else uri),
                ("WARC-Type", "continuation" if n else typ),
                ("WARC-Date", "2024-01-02T03:04:05Z"), ("Content-Type", "text/plain"), ("Content-Length", str(len(s))),
                ("WARC-Block-Digest", "sha256:" + dig), ("WARC-Segment-Number", str(n + 1))]
            if typ == "metadata":
                f.append(("WARC-Refers-To", "<%s>" % a.uri(ref)))
            if n == 0:
                f.append(("WARC-Payload-Digest", "sha256:" + hashlib.sha256(data).hexdigest()))
            else:
                f.append(("WARC-Segment-Origin-ID", uri))
            if n == len(segs) - 1:
                f.append(("WARC-Segment-Total-Length", str(len(data))))
            recs.append((rid, n, record(f, s, rng.choice([0, 6, 9]))))
    # every segment in a silo of its own, those of an object in order, or not
    if rng.random() < .5:
        k = {i: rng.random() for i in range(len(recs))}
        order = sorted(range(len(recs)), key=lambda i: k[i])
        recs = [recs[i] for i in order]
    if rng.random() < .7:
        # as concurrent stores would
        left = {}
        for r in recs:
            left.setdefault(r[0], []).append(r)
        for v in left.values():
            v.sort(key=lambda r: -r[1])
        recs = []
        while left:
            i = rng.choice(sorted(left))
            recs.append(left[i].pop())
            if not left[i]:
                del left[i]
    n = max(a.silo_nums()) + 1
    for rid, sn, b in recs:
        r = h.mksilo(n)
        if not h.ok(r, "mksilo"):
            return
        with open(a.silo_path(n), "ab") as f:
            f.write(b)
        n += 1 if rng.random() < .95 else 2
    for f in ("index.appendix", "index.sorted", "_.cache"):
        if os.path.exists(a.dir + f):
            os.unlink(a.dir + f)
    for rid, (typ, segs) in objs.items():
        h.objs[rid] = dict(type=typ, data=b"".join(segs), mime="text/plain", forced=typ == "metadata",
            ref=a.uri(ref) if typ == "metadata" else None)
        h.order.append(rid)
        ctx.stats["shared_segments"] += len(segs)
        ctx.seen("s", w, typ, len(segs), len(set(segs)), len(pool))
    m = warc.load(a)
    errs = [e for e in m.errs if e[0] != "segment-resource-id"]
    if errs:
        raise RuntimeError("composed badly: %s" % errs[:3])
    h.log.append("%d segmented objects of %d segments over %d contents" % (len(objs), len(recs), len(pool)))
    r = a.cmd("reindex", variant=h.var())
    if not h.ok(r, "reindex"):
        return
    if b"Leftovers" in r.out:
        h.bad("leftovers", "reindex could not place all segments", r)
        return
    ctx.stats["evaluations"] += 1
    c07.check_index(ctx, h)
    if ctx.violations:
        return
    absent = {near(rng, i, digits(rng, w)) for i in h.order} - set(h.order)
    # a segment is not an object
    absent |= {hashlib.sha256(x).hexdigest()[:w] for x in pool} - set(h.order)
    ids = {r.id.lower() for _, r in m.records()}
    for i in sorted(absent & ids):
        r = a.cmd("get", "-q", i, variant=h.var())
        if r.rc == 0 or r.out:
            h.bad("segment-delivered", "a segment is delivered as an object", r)
            return
    absent -= ids
    if look(ctx, h, absent):
        finish(ctx, h, absent)
    ctx.sample(dict(history=h.log[-12:], objects={k: len(v[1]) for k, v in objs.items()}))


def z_case(ctx):
    """Stored objects with identical segments in the middle"""
    rng = ctx.rng
    a = core.Archive(ctx, cfg=core.Cfg(maxsize=rng.choice(["5k", "6000", "7k"]), bits=rng.choice([64, 92, 128, 256])))
    h = hist.Hist(ctx, a, ["plain", "o2"] if False else ["plain"])
    for _ in range(rng.choice([2, 3])):
        n = rng.randrange(9, 16) << 20
        h.store(data=bytes(n) + gen.rbytes(rng, rng.choice([1, 40])), mime="text/plain", via="stdin")
    if ctx.violations:
        return
    m = warc.load(a)
    for k, msg in m.errs:
        h.bad("silo-" + k, msg)
    c = [r.id for _, r in m.records() if r.segno is not None and r.segno > 1]
    ctx.stats["equal_segments"] += len(c) - len(set(c))
    ctx.stats["shared_segments"] += len(c)
    ctx.stats["evaluations"] += 1
    ctx.seen("z", len(c), len(set(c)))
    h.get_all(mode="quiet")
    for f in ("index.appendix", "index.sorted"):
        if os.path.exists(a.dir + f):
            os.unlink(a.dir + f)
    if h.ok(a.cmd("reindex", variant=h.var()), "reindex"):
        h.get_all(mode="gzip")


def run_case(ctx, case):
    {"c": c_case, "s": s_case, "z": z_case}[case[0]](ctx)
