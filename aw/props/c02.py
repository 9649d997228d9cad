"""C02 Content addresses, deduplication"""
import hashlib
import os

from .. import core, gen, hist, idx, warc

VARIANTS = ["plain", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: IDs recomputed with an independent SHA256, complete before/after "
    "images of silos and index around every duplicate store")
NOTE = ("Every printed ID is recomputed from the content; every duplicate store is bracketed by "
    "images of all silo and index files. Bounded by the histories generated.")
RULE = ("random archive and history, then every object (unsegmented, segmented, metadata, bodies of "
    "warcinfo records and of continuation segments) is stored again through a random channel, before "
    "and after housekeeping and reindex; distinct = (type, segmented, width, channel, phase)")
NEED = {"dups": 300, "warcinfo_as_resource": 20, "segment_as_resource": 5, "forced": 20}


def cases(tier, seed):
    return range(160 if tier == "quick" else 3000)


def image(a):
    return {k: v for k, v in a.tree().items() if k != "_.cache"}


def dup(ctx, h, rid, phase):
    a, rng = h.a, ctx.rng
    o = h.objs[rid]
    via = rng.choice(["stdin", "dash", "file"])
    opts = []
    if o["type"] == "metadata":
        ref = o["ref"]
        opts = ["-t", "metadata", "-m", rng.choice(hist.MIMES), "-r",
            rng.choice([ref, ref[len(a.cfg.prefix):]])]
        if o.get("forced"):
            opts += ["-i", rng.choice([rid, rid.upper(), a.uri(rid)])]
    elif rng.random() < .5:
        opts = ["-m", rng.choice(hist.MIMES)]
    before = image(a)
    data = o["data"]
    if o.get("forced") and rng.random() < .5:
        data = b"something else entirely"
    r = a.store(data, *opts, via=via, variant=h.var())
    ctx.stats["dups"] += 1
    ctx.stats["evaluations"] += 1
    if not h.ok(r, "store-dup"):
        return
    if r.out.strip().lower() != a.uri(rid).lower().encode():
        h.bad("dup-id", "duplicate store of %s printed %r" % (rid, r.out[:200]), r)
    if b"already in archive" not in r.err:
        h.bad("dup-msg", "duplicate store of %s (%s, %d bytes) did not say so" % (
            rid, o["type"], len(data)), r)
    after = image(a)
    if before != after:
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        h.bad("dup-changed", "duplicate store of %s changed %s" % (rid, ch), r)
    ctx.seen(o["type"], len(data) > a.cfg.maxbytes, a.cfg.bits, via, phase, bool(o.get("forced")))


def run_case(ctx, case):
    rng = ctx.rng
    a = core.Archive(ctx, cfg=hist.random_cfg(rng, small=(case % 4 != 0)))
    h = hist.Hist(ctx, a, ["plain", "ubsan"])
    if not h.random_ops(rng.randrange(2, 12)):
        return
    if not h.order:
        if h.store(n=rng.randrange(1, 50)) is None:
            return
    # forced IDs
    for _ in range(rng.randrange(3)):
        f = "%0*x" % (a.cfg.idlen, rng.getrandbits(a.cfg.bits or 128))
        if rng.random() < .3:
            f = f.upper()
        if f.lower() in h.objs:
            continue
        mid = h.metadata(forced=f)
        if mid is None:
            return
        ctx.stats["forced"] += 1
        if not h.get(mid):
            return
    # something large
    if case % 2 == 0 and a.cfg.maxbytes < 200000:
        h.store(data=gen.exact(rng, int(a.cfg.maxbytes * rng.uniform(1.5, 3)), "random"))
    # content which happens to be the body of another record
    m = warc.load(a)
    for kind, msg in m.errs:
        h.bad("silo-" + kind, msg)
    recs = [r for n, r in m.records() if r.type in ("warcinfo", "continuation")]
    rng.shuffle(recs)
    for r in recs[:3]:
        if r.id[:a.cfg.idlen] in h.objs:
            continue
        if h.store(data=r.body) is None:
            return
        h.get(r.id)
        ctx.stats["warcinfo_as_resource" if r.type == "warcinfo" else "segment_as_resource"] += 1
    for phase in range(3):
        ids = list(h.order)
        rng.shuffle(ids)
        for rid in ids[:8]:
            dup(ctx, h, rid, phase)
        if phase == 0:
            if not h.housekeeping():
                return
        elif phase == 1 and a.cfg.bits != 64:
            for f in ("index.sorted", "index.appendix"):
                try:
                    os.unlink(a.dir + f)
                except FileNotFoundError:
                    pass
            r = a.cmd("reindex")
            if not h.ok(r, "reindex"):
                return
    h.get_all(sample=10)
    ctx.sample(dict(config=a.cfg.text("DIR/"), history=h.log[:10], objects=len(h.order)))
