"""C07 The index describes the silos exactly"""
import collections
import os

from .. import core, gen, hist, huge, idx, warc

VARIANTS = ["plain", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: after operations of random histories, multiset comparison of index "
    "files and dumpindex output with an index computed from the silos by an independent reader")
NOTE = ("Complete comparison of every index entry at every checkpoint; bounded by the histories generated.")
RULE = ("random configuration and history with segmented objects, metadata, mksilo, housekeeping; "
    "distinct = (entry flags, id width, appendix/sorted)")
NEED = {"entries_compared": 3000, "checkpoints": 300, "segment_entries": 100, "long_chains": 15, "big_silos": 1}

TYPES = {"warcinfo": idx.F_WARCINFO, "resource": idx.F_RESOURCE, "metadata": idx.F_METADATA}


def cases(tier, seed):
    return ["b%d" % i for i in range(1 if tier == "quick" else 12)] + list(range(160 if tier == "quick" else 3000))


def diff(got, exp):
    g, e = collections.Counter(got), collections.Counter(exp)
    return list((g - e).elements())[:4], list((e - g).elements())[:4]


def check_index(ctx, h, deep=True):
    """Compare index files and dumpindex with the silos; -> entries or None"""
    a = h.a
    m = warc.load(a)
    for k, msg in m.errs:
        h.bad("silo-" + k, msg)
    if ctx.violations:
        return None
    exp = idx.expected(m)
    app = idx.read_appendix(a.dir + "index.appendix")
    srt = idx.read_sorted(a.dir + "index.sorted")
    got = app + srt
    ctx.stats["checkpoints"] += 1
    ctx.stats["evaluations"] += 1
    ctx.stats["entries_compared"] += len(exp)
    x, y = diff(got, exp)
    if x or y:
        h.bad("index-files", "index has %s which is not in the silos, lacks %s" % (x, y))
        return None
    if srt != sorted(srt):
        h.bad("not-sorted", "index.sorted is not in order")
    for e in exp:
        ctx.seen(e[1], a.cfg.bits, e in srt)
        if e[1] & idx.F_SEGMENTED:
            ctx.stats["segment_entries"] += 1
    r = a.cmd("dumpindex", variant=h.var())
    if not h.ok(r, "dumpindex"):
        return None
    x, y = diff(idx.parse_dump(r.out), exp)
    if x or y:
        h.bad("dumpindex", "dumpindex shows %s too much, %s too little" % (x, y), r)
    if deep:
        for t, f in TYPES.items():
            r = a.cmd("dumpindex", "-t", t, variant=h.var())
            if not h.ok(r, "dumpindex -t"):
                return None
            x, y = diff(idx.parse_dump(r.out), [e for e in exp if e[1] & f])
            if x or y:
                h.bad("dumpindex-t", "dumpindex -t %s shows %s too much, %s too little" % (t, x, y), r)
    return exp


def big_case(ctx, case):
    """A silo of more than 4 GiB; what is where is known from having put it there"""
    rng = ctx.rng
    a = core.Archive(ctx, "big", cfg=core.Cfg(maxsize=rng.choice(["5G", "9G", "1000G"]), bits=rng.choice(hist.BITS),
        sort_size=rng.choice([None, "4k"])))
    h = hist.Hist(ctx, a, VARIANTS)
    with huge.NoFsize():
        r = huge.big_silo(ctx, h, rng.randrange(2, 20))
        if r is None:
            return
        br, want = r
        for hk in (False, True):
            if hk and not h.housekeeping():
                return
            got = idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")
            x, y = diff(got, want)
            ctx.stats["entries_compared"] += len(want)
            ctx.stats["evaluations"] += 1
            if x or y:
                h.bad("index-files", "index has %s which is not in the silos, lacks %s" % (x, y))
                return
            r = a.cmd("dumpindex", variant=h.var())
            if not h.ok(r, "dumpindex"):
                return
            x, y = diff(idx.parse_dump(r.out), want)
            if x or y:
                h.bad("dumpindex", "dumpindex shows %s too much, %s too little" % (x, y), r)
    ctx.seen("big", a.cfg.bits)
    a.destroy()


def run_case(ctx, case):
    rng = ctx.rng
    if str(case)[0] == "b":
        return big_case(ctx, case)
    cfg = hist.random_cfg(rng, small=(case % 4 != 0))
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    for i in range(rng.randrange(2, 5)):
        ok = h.random_ops(rng.randrange(1, 10), p_mksilo=.1)
        if rng.random() < .4:
            n = int(min(cfg.maxbytes, 100000) * rng.uniform(1, 4))
            if cfg.maxbytes < 21000 and rng.random() < .3:
                n = cfg.maxbytes * rng.randrange(8, 30)
                ctx.stats["long_chains"] += 1
            h.store(data=gen.exact(rng, n, "random"))
        check_index(ctx, h, deep=(i == 1))
        if not ok or ctx.violations:
            return
    if not h.housekeeping():
        return
    check_index(ctx, h)
    if idx.read_appendix(a.dir + "index.appendix"):
        h.bad("appendix-left", "entries in appendix after housekeeping")
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:10]))
