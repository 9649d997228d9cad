"""C05 get -z"""
import os
import subprocess
import zlib

from .. import core, gen, hist, huge, warc
from .c04 import steer

VARIANTS = ["plain", "o2", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: differential decoding of every get -z output with zlib (strict single "
    "member) and gzip(1)")
NOTE = ("Each output must be exactly one member with right CRC and length for two decoders; "
    "bounded by the contents, segment counts and silo sizes generated.")
RULE = ("objects of 1 byte to dozens of segments, of all content kinds, fetched with -z to stdout and "
    "files, before and after housekeeping; distinct = (segments class, content kind, silo size)")
NEED = {"huge_zgets": 1, "big_silos": 1, "split_tails": 8, "zgets": 250, "segmented_zgets": 100}


def cases(tier, seed):
    n = 160 if tier == "quick" else 3000
    return (["g%d" % i for i in range(1 if tier == "quick" else 8)] + ["b%d" % i for i in range(1 if tier == "quick" else 6)] + ["t%d" % i for i in range(max(3, n // 50))] +
        list(range(n)))


def huge_case(ctx, case):
    """Segments of 4 GiB and more, forged (storing them takes minutes)"""
    rng = ctx.rng
    a = core.Archive(ctx, "huge", cfg=core.Cfg(maxsize="100M", bits=rng.choice([64, 128, 256])))

    def small():
        return huge.Part(rng, rng.choice([1, 5000, 1 << 20]), rng.randbytes(rng.randrange(1, 3000)))

    def big():
        return huge.Part(rng, rng.choice([1 << 32, (1 << 32) - 1, (1 << 32) + rng.randrange(1, 1 << 25)]),
            rng.randbytes(rng.randrange(3000)))
    if case == "g0":
        parts = [small(), big(), small()]
    else:
        parts = [rng.choice([small, big])() for _ in range(rng.randrange(1, 5))]
    f = huge.forge(ctx, a, parts)
    if f is None:
        return
    rid, sha, size = f
    s = huge.Gunzip()
    r = huge.stream(a.argv("get", "-z", rid, variant=ctx.rng.choice(["plain", "o2"])), s)
    ctx.stats["zgets"] += 1
    ctx.stats["evaluations"] += 1
    ctx.stats["huge_zgets"] += 1
    ctx.seen("huge", tuple(p.size >> 31 for p in parts))
    if r.rc != 0:
        ctx.violate("get-z", "get -z of %d bytes fails" % size, result=r.brief())
    elif s.done():
        ctx.violate("not-one-member", "get -z of %d bytes in %d segments: %s" % (size, len(parts), s.error), sizes=[p.size for p in parts])
    elif s.n != size or s.h.hexdigest() != sha:
        ctx.violate("wrong-content", "get -z of %d bytes gives %d" % (size, s.n))


def big_case(ctx, case):
    """4 GiB of compressed body"""
    rng = ctx.rng
    a = core.Archive(ctx, "big", cfg=core.Cfg(maxsize=rng.choice(["5G", "1000G"]), bits=rng.choice([64, 128, 256])))
    h = hist.Hist(ctx, a, VARIANTS)
    with huge.NoFsize():
        x = huge.big_silo(ctx, h, rng.randrange(1, 5))
    if x is None:
        return
    br = x[0]
    s = huge.Gunzip()
    r = huge.stream(a.argv("get", "-z", h.spell(br.id)), s)
    ctx.stats["zgets"] += 1
    ctx.stats["evaluations"] += 1
    ctx.seen("big", a.cfg.bits)
    if r.rc != 0:
        ctx.violate("get-z", "get -z of %d bytes, %d compressed, fails" % (br.size, br.gzlen), result=r.brief())
    elif s.done() or s.raw != br.gzlen:
        ctx.violate("not-one-member", "get -z of %d bytes: %d of %d delivered: %s" % (br.size, s.raw, br.gzlen, s.error))
    elif s.n != br.size or s.h.hexdigest() != br.sha:
        ctx.violate("wrong-content", "get -z of %d bytes gives %d" % (br.size, s.n))
    for rid in h.order:
        h.get(rid, "gzip")
    a.destroy()


def tail_case(ctx, case):
    """The last bytes of a segment's compressed body come with separate reads"""
    rng = ctx.rng
    blk = 32 * os.sysconf("SC_PAGE_SIZE")
    for _ in range(12):
        k = rng.randrange(1, 4)
        ms = blk * k + rng.randrange(700, 1500)
        data = gen.rbytes(rng, blk * k + rng.randrange(5000, 300000))
        want = rng.choice([0] + list(range(1, 14)) * 3)
        hit = False
        for _ in range(4):
            a = core.Archive(ctx, "t%d" % ctx.uniq(), cfg=core.Cfg(maxsize=str(ms)))
            h = hist.Hist(ctx, a, VARIANTS)
            rid = h.store(data=data)
            if rid is None:
                return
            r = warc.load(a).objects()[rid][0][2][0][1]
            ctx.stats["evaluations"] += 1
            ctx.stats["zgets"] += 1
            h.get(rid, "gzip")
            off = (r.body_len - want) % blk
            hit = (r.body_len % blk) in range(0, 14)
            if off > blk // 2:
                off -= blk
            a.destroy()
            if ctx.violations:
                return
            if hit:
                ctx.stats["split_tails"] += 1
                ctx.seen("split", r.body_len % blk, k)
                break
            ms -= off
            if ms < 5000:
                break


def run_case(ctx, case):
    rng = ctx.rng
    if str(case)[0] == "g":
        return huge_case(ctx, case)
    if str(case)[0] == "t":
        return tail_case(ctx, case)
    if str(case)[0] == "b":
        return big_case(ctx, case)
    cfg = hist.random_cfg(rng, sizes=["5k", "6000", "7k", "9k", "12345", "15k", "20k", "33k", "64k",
        "129k", "200k", "300k"])
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    info = {}
    for _ in range(rng.randrange(2, 6)):
        kind = rng.choice(["random", "zeros", "text", "period", "gz", "lumpy", "mixed", "steer"])
        n = rng.choice([gen.size(rng, cfg.maxbytes), rng.randrange(1, 3000),
            int(cfg.maxbytes * rng.uniform(.9, 12)), cfg.maxbytes * rng.randrange(1, 40)])
        n = max(1, min(n, 3 << 20))
        if kind == "zeros":
            n = min(n * 50, 8 << 20)
        data = steer(rng, n, max(100, cfg.maxbytes - 1200)) if kind == "steer" else gen.exact(rng, n, kind)
        rid = h.metadata(data=data) if h.order and rng.random() < .15 else h.store(data=data)
        if rid is None:
            return
        info[rid] = kind
        if rng.random() < .2:
            h.housekeeping()
    for rid, kind in info.items():
        o = h.objs[rid]
        of = os.path.join(a.root, "out.gz")
        if rng.random() < .5:
            r = a.cmd("get", "-z", "-o", of, h.spell(rid), variant=h.var())
            hdr = r.out
            b = open(of, "rb").read() if os.path.exists(of) else b""
        else:
            r = a.cmd("get", "-z", h.spell(rid), variant=h.var())
            hdr = r.err
            b = r.out
            with open(of, "wb") as f:
                f.write(b)
        ctx.stats["zgets"] += 1
        ctx.stats["evaluations"] += 1
        if not h.ok(r, "get-z"):
            continue
        seg = r.out + r.err
        try:
            d = hist.decompress_all(b)
        except zlib.error as e:
            h.bad("not-one-member", "%s (%s, %d bytes): %s" % (rid, kind, len(o["data"]), e), r)
            continue
        if d != o["data"]:
            h.bad("wrong-content", "%s (%s): %d bytes, stored %d" % (rid, kind, len(d), len(o["data"])), r)
            continue
        if b[:2] != b"\x1f\x8b" or b[2] != 8 or b[3] & 0xe0:
            h.bad("gzip-header", "%r" % b[:16], r)
        h.check_headers(rid, hdr)
        p = subprocess.run(["gzip", "-dc", of], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0 or p.stdout != o["data"]:
            h.bad("gunzip", "gzip -dc: rc=%d %r, %d bytes, want %d" % (
                p.returncode, p.stderr[:200], len(p.stdout), len(o["data"])))
        os.unlink(of)
        nseg = len(a.silo_files()) if len(b) > cfg.maxbytes else 1
        if len(b) > cfg.maxbytes:
            ctx.stats["segmented_zgets"] += 1
        ctx.seen(len(b) * 2 // cfg.maxbytes, kind, cfg.maxsize)
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:10]))
