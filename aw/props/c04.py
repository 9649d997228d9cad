"""C04 Segmentation"""
import resource
import zlib

from .. import core, gen, hist, warc

VARIANTS = ["plain", "o2", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: offline checker of segment chains over the silos written by the real "
    "program for adversarial contents (compressibility changing near silo ends, identical segments)")
NOTE = ("Chains are reassembled by an independent reader and compared with what was stored; "
    "bounded by the contents and silo sizes generated.")
RULE = ("objects of one to thirty silos' worth of content of many kinds, sizes around multiples of "
    "the capacity of a silo; distinct = (silo size, content kind, number of segments)")
NEED = {"many_segments": 1, "segmented_objects": 80, "segments": 400, "unsegmented_objects": 50}

KINDS = ["random", "zeros", "text", "period", "gz", "lumpy", "mixed", "steer", "steer", "same", "digits"]


def cases(tier, seed):
    n = 200 if tier == "quick" else 4000
    return (["m%d" % i for i in range(1 if tier == "quick" else 4)] + ["d%d" % i for i in range(max(3, n // 100))] +
        list(range(n)))


def many_case(ctx, case):
    """More segments than three digits, and than most programs have descriptors"""
    rng = ctx.rng
    n = rng.randrange(1003, 1060) if case == "m0" else rng.choice([1200, 2500, 4000])
    lim = resource.getrlimit(resource.RLIMIT_NOFILE)
    if lim[0] < n + 100:
        try:
            resource.setrlimit(resource.RLIMIT_NOFILE, (n + 100, max(n + 100, lim[1])))
        except (ValueError, OSError):
            n = lim[0] - 100
    a = core.Archive(ctx, "m", cfg=core.Cfg(maxsize=rng.choice(["5k", "5200"]), bits=rng.choice([64, 128, 256])))
    h = hist.Hist(ctx, a, ["plain"])
    rid = h.store(data=gen.rbytes(rng, n * 4000))
    if rid is None:
        return
    ctx.stats["evaluations"] += 1
    ctx.stats["many_segments"] += 1
    m = warc.load(a)
    for k, msg in m.errs:
        h.bad("silo-" + k, msg)
    chain = m.objects()[rid][0]
    if chain[1] != h.objs[rid]["data"] or len(chain[2]) < n * 4000 // a.cfg.maxbytes:
        h.bad("reassembly", "%d segments reassemble to something else" % len(chain[2]))
    ctx.seen("many", len(chain[2]) // 500)
    h.get(rid)


def steer(rng, n, cap):
    """Changes its nature just around the end of each silo"""
    o = bytearray()
    while len(o) < n:
        o += gen.rbytes(rng, max(1, cap - rng.choice([0, 1, 10, 30, 52, 60, 100, 200, 500, 1000, 3000])))
        k = rng.choice([1, 5, 50, 500, 5000, 50000, 300000])
        o += (bytes([rng.randrange(256)]) * k if rng.random() < .6 else
            gen.content(rng, k, "text"))
    return bytes(o[:n])


def digits(rng, cfg):
    """Total length just beyond a power of ten, compressible by factors of hundreds"""
    t = 10 ** rng.randrange(5, 8)
    n = t + rng.randrange(1, max(2, min(t // 20, cfg.maxbytes * 120)))
    return bytes([rng.randrange(256)]) * n


def digits_case(ctx, case):
    """Lengths with more digits than the size of a silo suggests"""
    rng = ctx.rng
    for _ in range(10):
        cfg = hist.random_cfg(rng, sizes=["9900", "9950", "9990", "9999"])
        a = core.Archive(ctx, "d%d" % ctx.uniq(), cfg=cfg)
        h = hist.Hist(ctx, a, ["o2"])
        rid = h.store(data=b"\0" * rng.randrange(10000000, 10300000), via="stdin")
        if rid is None:
            return
        m = warc.load(a)
        for k, msg in m.errs:
            h.bad("silo-" + k, msg)
        h.get(rid)
        ctx.stats["digit_objects"] += 1
        ctx.stats["evaluations"] += 1
        a.destroy()


def run_case(ctx, case):
    rng = ctx.rng
    if str(case)[0] == "m":
        return many_case(ctx, case)
    if str(case)[0] == "d":
        return digits_case(ctx, case)
    cfg = hist.random_cfg(rng, sizes=["5k", "6000", "7k", "9k", "12345", "15k", "20k", "33k",
        "64k", "129k", "135k", "200k", "300k", "1M"])
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    kinds = {}
    for _ in range(rng.randrange(0, 3)):
        h.store(n=rng.randrange(1, cfg.maxbytes // 4))
    for _ in range(rng.randrange(1, 4) if cfg.maxbytes < 100000 else 1):
        kind = rng.choice(KINDS)
        c = rng.random()
        cap = cfg.maxbytes - 1200
        if c < .3:
            n = int(cap * rng.uniform(.8, 1.05))
        elif c < .6:
            n = cap * rng.randrange(1, 9) + rng.randrange(-300, 300)
        else:
            n = int(cap * rng.uniform(1, 30 if cfg.maxbytes < 20000 else 5))
        n = min(max(n, 1), 6 << 20)
        if kind == "steer":
            data = steer(rng, n, cap)
        elif kind == "digits":
            # lengths gain digits in the course of the object
            data = digits(rng, cfg)
        elif kind == "zeros" or kind == "same":
            n = min(n * rng.choice([1, 300]), 12 << 20)
            data = (b"\0" if kind == "zeros" else gen.rbytes(rng, 7)) * (n // (1 if kind == "zeros" else 7) + 1)
            data = data[:n]
        else:
            data = gen.exact(rng, n, kind)
        if rng.random() < .2 and h.order:
            rid = h.metadata(data=data)
        else:
            rid = h.store(data=data)
        if rid is None:
            return
        kinds[rid] = kind
        if rng.random() < .3:
            h.housekeeping()
    m = warc.load(a)
    for k, msg in m.errs:
        h.bad("silo-" + k, msg)
    objs = m.objects()
    for rid, kind in kinds.items():
        ctx.stats["evaluations"] += 1
        o = h.objs[rid]
        got = objs.get(rid)
        if not got or len(got) != 1:
            h.bad("object-count", "object %s is in the silos %d times" % (rid, len(got or [])))
            continue
        typ, data, chain = got[0]
        if data != o["data"]:
            h.bad("reassembly", "object %s (%s, %d bytes, %d segments) reassembles to %d other bytes" % (
                rid, kind, len(o["data"]), len(chain), len(data)))
            continue
        ctx.seen(cfg.maxsize, kind, len(chain))
        z = len(zlib.compress(o["data"], 9))
        if len(chain) == 1:
            ctx.stats["unsegmented_objects"] += 1
            if chain[0][1].segno is not None:
                h.bad("single-segment", "object %s is a single segment" % rid)
        else:
            ctx.stats["segmented_objects"] += 1
            ctx.stats["segments"] += len(chain)
            n = len(o["data"])
            if n * 1.002 + 2500 < cfg.maxbytes or \
                z * 1.3 + 2500 + 50 * (30 + 16 * n / cfg.maxbytes) < cfg.maxbytes:
                h.bad("needlessly-segmented", "object %s (%d bytes, about %d compressed) has %d segments" % (
                    rid, len(o["data"]), z, len(chain)))
            for n, r in chain[:-1]:
                free = cfg.maxbytes - m.sizes[n]
                if free > 1000 + cfg.maxbytes // 10:
                    h.bad("underfilled", "silo %d of segment %d of %s has %d bytes free" % (
                        n, r.segno, rid, free))
            if sorted(n for n, r in chain) != [n for n, r in chain]:
                ctx.stats["segments_not_in_silo_order"] += 1
        h.get(rid)
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:10]))
