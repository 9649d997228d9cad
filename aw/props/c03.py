"""C03 Silo format and size"""
import calendar
import math
import os
import time

from .. import core, gen, hist, warc

VARIANTS = ["plain", "o2", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: offline checker (independent WARC/gzip reader) over all silos after "
    "every few operations of random histories, plus search for exact fills of the last byte of a silo")
NOTE = ("All bytes of all silos are parsed by a reader which shares no code with the program. "
    "Bounded by the histories and configurations generated.")
RULE = ("random configuration and history; all silos are parsed and checked repeatedly; edge cases "
    "append objects of sizes around the remaining space of a silo, byte by byte; "
    "distinct = (silo size, id width, base name, type, segment?, size class)")
NEED = {"modes": 300, "records_checked": 2000, "exact_fill": 3, "near_full_silos": 20}


def cases(tier, seed):
    n = 150 if tier == "quick" else 3000
    return ["h%d" % i for i in range(n)] + ["e%d" % i for i in range(n // 4)]


def check(ctx, h, t0, done):
    a = h.a
    m = warc.load(a)
    for kind, msg in m.errs:
        h.bad("silo-" + kind, msg)
    if a.junk():
        h.bad("junk", "left behind: %s" % a.junk())
    now = time.time() + 2
    for n, p in a.silo_nums().items():
        if p in done:
            continue
        done.add(p)
        mode = os.stat(p).st_mode & 0o7777
        ctx.stats["modes"] += 1
        if mode != 0o640 & ~UMASK[0]:
            h.bad("mode", "silo %d is created with mode %o while the umask is %o" % (n, mode, UMASK[0]))
    for n, r in m.records():
        k = (n, r.off)
        if k in done:
            continue
        done.add(k)
        ctx.stats["records_checked"] += 1
        ctx.stats["evaluations"] += 1
        d = r.get("WARC-Date")
        if d:
            try:
                t = calendar.timegm(time.strptime(d, "%Y-%m-%dT%H:%M:%SZ"))
            except ValueError:
                t = 0
            if not t0 - 2 <= t <= now:
                h.bad("date", "WARC-Date %s not between %d and %d" % (d, t0, now))
        ctx.seen(a.cfg.maxsize, a.cfg.bits, a.cfg.basename, r.type, r.segno is not None,
            len(r.body).bit_length())
    for n, sz in m.sizes.items():
        if sz > a.cfg.maxbytes - 100:
            ctx.stats["near_full_silos"] += 1
    return m


ZONES = ["UTC", "Europe/Copenhagen", "XYZ-14", "ABC12:30", "America/New_York", "EST5EDT", ":/nonexistent", ""]
UMASK = [0o22]


def run_case(ctx, case):
    rng = ctx.rng
    tz = core.BASE_ENV.get("TZ")
    um = UMASK[0] = rng.choice([0o22, 0o22, 0o27, 0o77, 0o2, 0, 0o7])
    if rng.random() < .6:
        core.BASE_ENV["TZ"] = rng.choice(ZONES)
    old = os.umask(um)
    try:
        case_(ctx, case)
    finally:
        os.umask(old)
        core.BASE_ENV.pop("TZ", None)
        if tz is not None:
            core.BASE_ENV["TZ"] = tz


def case_(ctx, case):
    rng = ctx.rng
    t0 = time.time()
    if case[0] == "e":
        return edge(ctx, case)
    cfg = hist.random_cfg(rng, small=(int(case[1:]) % 3 != 0))
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    done = set()
    for _ in range(rng.randrange(1, 4)):
        ok = h.random_ops(rng.randrange(1, 10))
        check(ctx, h, t0, done)
        if not ok or ctx.violations:
            return
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:10]))


def edge(ctx, case):
    """Fill a silo to its very last byte"""
    rng = ctx.rng
    t0 = time.time()
    cfg = hist.random_cfg(rng, sizes=["5k", "6000", "7k", "9k", "15k", "20k"])
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    if h.store(data=gen.rbytes(rng, rng.randrange(1, int(cfg.maxbytes * .4)))) is None:
        return
    h.store(data=gen.rbytes(rng, 700))
    m = check(ctx, h, t0, set())
    if ctx.violations or len(m.sizes) != 1:
        return
    used = m.sizes[0]
    rec = m.silos[0][-1]
    over = (rec.end - rec.off) - len(rec.body)
    room = cfg.maxbytes - used - over
    if room < 20:
        return
    # The length of the compressed header varies a little
    for n in range(max(1, room - 12), room + 12):
        b = a.clone("edge")
        hb = hist.Hist(ctx, b, VARIANTS)
        data = gen.rbytes(rng, n)
        rid = hb.store(data=data)
        if rid is not None:
            mm = check(ctx, hb, t0, set())
            hb.get(rid)
            for s, sz in mm.sizes.items():
                if sz == cfg.maxbytes:
                    ctx.stats["exact_fill"] += 1
                if sz >= cfg.maxbytes - 8:
                    ctx.seen("edge", cfg.maxsize, cfg.maxbytes - sz)
        b.destroy()
        if ctx.violations:
            return
    # ... and objects which just about fill a silo of their own
    w = m.silos[0][0].end
    room = cfg.maxbytes - w - over
    lo = max(1, room - 260)
    for n in rng.sample(range(lo, room + 60), 12):
        b = a.clone("edge")
        hb = hist.Hist(ctx, b, VARIANTS)
        rid = hb.store(data=gen.rbytes(rng, n))
        if rid is not None:
            check(ctx, hb, t0, set())
            hb.get(rid)
        b.destroy()
        if ctx.violations:
            return
