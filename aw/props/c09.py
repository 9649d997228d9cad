"""C09 The index can be rebuilt from the silos alone"""
import collections
import os
import struct

from .. import core, gen, hist, huge, idx, warc
from . import c07

VARIANTS = ["plain", "ubsan"]
AUX_SO = {"fault": "fault.c"}
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the index is lost in random archives, rebuilt by reindex, and compared, "
    "entry by entry, with the lost one and with one computed from the silos by an independent reader; "
    "reindex under injected open/read faults")
NOTE = ("Complete multiset comparison of the rebuilt index and byte comparison of the silos; "
    "bounded by the archives generated.")
RULE = ("random configuration and history with segmented objects, metadata, gaps in the silo numbers "
    "(mksilo at 0..10^8), index lost before/after housekeeping, wholly, in part, restored from a backup or in place, reindex of all or of "
    "named silos in any order, segmented metadata with similar IDs; distinct = (entry flags, how lost, how rebuilt, levels of silo numbers)")
NEED = {"reindexes": 150, "entries_compared": 3000, "segment_entries": 150, "deep_silos": 20, "faults": 100, "big_silos": 1, "partial": 100}


def cases(tier, seed):
    return ["b%d" % i for i in range(1 if tier == "quick" else 12)] + \
        ["r%d" % i for i in range(200 if tier == "quick" else 3000)] + \
        ["p%d" % i for i in range(80 if tier == "quick" else 1200)] + \
        ["f%d" % i for i in range(16 if tier == "quick" else 200)]


def silos(a):
    return {k: v for k, v in a.tree().items() if "/" in k}


def far_silos(rng):
    """Silo numbers on all levels of directories"""
    r = [rng.randrange(100), rng.choice([98, 99, 100, 101, 199, 200, 9999, 10000, 10001])]
    r.append(rng.randrange(100, 10000))
    if rng.random() < .5:
        r.append(rng.randrange(10000, 60000))
    if rng.random() < .2:
        r.append(rng.choice([999999, 1000000, 1000001, 1000100]))
    return r


def make(ctx, h, big=True):
    rng = ctx.rng
    a = h.a
    for i in range(rng.randrange(1, 4)):
        if not h.random_ops(rng.randrange(1, 8), p_mksilo=.08):
            return False
        if rng.random() < .6:
            d = gen.exact(rng, int(min(a.cfg.maxbytes, 60000) * rng.uniform(1, 5)), "random")
            if rng.random() < .3 and h.order:
                h.metadata(data=d)
            else:
                h.store(data=d)
        if rng.random() < .4:
            # What is stored next goes to silos elsewhere
            for n in rng.sample([x for x in far_silos(rng) if big or x < 12000], 2):
                r = h.mksilo(n)
                if n >= 100 and r.rc == 0:
                    ctx.stats["deep_silos"] += 1
                if r.crashed:
                    h.bad("mksilo-crash", "mksilo %d" % n, r)
            if rng.random() < .6:
                # The first free number is only a cache, and may be anything
                with open(a.dir + "_.cache", "wb") as f:
                    f.write(struct.pack(">II", rng.choice(far_silos(rng)[:3]),
                        rng.choice([0, rng.randrange(30)])))
        if ctx.violations:
            return False
    return True


def big_case(ctx, case):
    """A silo of more than 4 GiB; what is where is known from having put it there"""
    rng = ctx.rng
    a = core.Archive(ctx, "big", cfg=core.Cfg(maxsize=rng.choice(["5G", "9G", "1000G"]), bits=rng.choice(hist.BITS)))
    h = hist.Hist(ctx, a, VARIANTS)
    with huge.NoFsize():
        r = huge.big_silo(ctx, h, rng.randrange(2, 20))
        if r is None:
            return
        br, want = r
        for f in ("index.appendix", "index.sorted"):
            if os.path.exists(a.dir + f):
                os.unlink(a.dir + f)
        size = os.path.getsize(a.silo_path(0))
        r = a.cmd("reindex", *([a.silo_path(0)] if rng.random() < .3 else []), variant=h.var())
        if not h.ok(r, "reindex"):
            return
        ctx.stats["reindexes"] += 1
        got = idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")
        x, y = c07.diff(got, want)
        ctx.stats["entries_compared"] += len(want)
        ctx.stats["evaluations"] += 1
        if x or y:
            h.bad("reindex-silos", "rebuilt index has %s which is not in the silos, lacks %s" % (x, y), r)
        if os.path.getsize(a.silo_path(0)) != size:
            h.bad("silos-changed", "reindex changed the silo", r)
        h.get_all()
    ctx.seen("big", a.cfg.bits)
    a.destroy()


def check_lost(ctx, h, variant_order):
    """Lose the index, reindex, compare"""
    rng = ctx.rng
    a = h.a
    before = idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")
    s0 = silos(a)
    for f in ("index.appendix", "index.sorted"):
        if os.path.exists(a.dir + f):
            os.unlink(a.dir + f)
    how = rng.randrange(3)
    if how == 1 and os.path.exists(a.dir + "_.cache"):
        os.unlink(a.dir + "_.cache")
    if how == 2:
        open(a.dir + "index.appendix", "w").close()
    args = []
    if variant_order and a.cfg.basename in (None, "%08u.warc.gz", "%u.warc.gz", "%u"):
        args = list(a.silo_files().values())
        rng.shuffle(args)
    r = a.cmd("reindex", *args, variant=h.var())
    ctx.stats["reindexes"] += 1
    if not h.ok(r, "reindex"):
        return
    if b"Leftovers" in r.out:
        h.bad("leftovers", "reindex could not place all segments", r)
    got = idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")
    m = warc.load(a)
    for k, msg in m.errs:
        h.bad("silo-" + k, msg)
    if ctx.violations:
        return
    exp = idx.expected(m)
    ctx.stats["evaluations"] += 1
    ctx.stats["entries_compared"] += len(exp)
    for e in exp:
        ctx.seen(e[1], how, bool(args), len(str(e[2])))
        if e[1] & idx.F_SEGMENTED:
            ctx.stats["segment_entries"] += 1
    x, y = c07.diff(got, exp)
    if x or y:
        h.bad("reindex-silos", "rebuilt index has %s which is not in the silos, lacks %s" % (x, y), r)
        return
    x, y = c07.diff(got, before)
    if x or y:
        h.bad("reindex-before", "rebuilt index has %s which was not in the original, lacks %s" % (x, y), r)
    if silos(a) != s0:
        h.bad("silos-changed", "reindex changed the silos", r)
    if a.junk():
        h.bad("junk", "left behind: %s" % a.junk(), r)


def partial_case(ctx, case):
    """reindex of some of the silos, with the index there or partly there"""
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    if not make(ctx, h, False):
        return
    w = cfg.idlen
    for i in range(rng.randrange(3)):
        # Segmented metadata with similar IDs
        if not h.order:
            break
        o = rng.choice(h.order)
        k = rng.choice([8, 15, 16, 17, 20, 23])
        f = "".join(rng.choice("0123456789abcdef") for _ in range(w))
        for j in range(rng.randrange(2, 5)):
            g = f[:k] + "".join(rng.choice("0123456789abcdef") for _ in range(w - k))
            if h.metadata(ref=o, data=gen.exact(rng, int(min(cfg.maxbytes, 60000) * rng.uniform(1.2, 4)), "random"),
                    forced=g) is None:
                return
    for i in range(3):
        if rng.random() < .5 and not h.housekeeping():
            return
        how = rng.choice(["subset", "subset", "lost-one", "backup"])
        names = cfg.basename in (None, "%08u.warc.gz", "%u.warc.gz", "%u")
        if how == "backup" and names:
            # The index of some time ago, and what has been written since
            bak = {f: open(a.dir + f, "rb").read() for f in ("index.appendix", "index.sorted") if os.path.exists(a.dir + f)}
            s0 = silos(a)
            if not h.random_ops(rng.randrange(1, 6), p_mksilo=.1):
                return
            if rng.random() < .6:
                h.store(data=gen.exact(rng, int(min(cfg.maxbytes, 60000) * rng.uniform(1.2, 4)), "random"))
        before = idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")
        files = sorted(a.silo_files().items())
        args = [f for n, f in files] if names else []
        if how == "lost-one":
            f = a.dir + rng.choice(["index.appendix", "index.sorted"])
            if os.path.exists(f):
                os.unlink(f)
            if rng.random() < .5:
                args = []
        elif how == "backup" and names:
            s1 = silos(a)
            args = [f for n, f in files if s0.get(os.path.relpath(f, a.dir)) != s1[os.path.relpath(f, a.dir)]]
            for f in ("index.appendix", "index.sorted"):
                if os.path.exists(a.dir + f):
                    os.unlink(a.dir + f)
                if f in bak:
                    with open(a.dir + f, "wb") as fh:
                        fh.write(bak[f])
        elif names:
            args = rng.sample(args, rng.choice([1, 1, 2, len(args)]) if len(args) > 1 else 1)
        rng.shuffle(args)
        s0 = silos(a)
        r = a.cmd("reindex", *args, variant=h.var())
        ctx.stats["partial"] += 1
        ctx.seen("partial", how, len(args) == len(files), len(args) == 0, os.path.exists(a.dir + "index.appendix"), b"Rematch" in r.out)
        ctx.stats["evaluations"] += 1
        if not h.ok(r, "reindex"):
            return
        got = idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")
        ctx.stats["entries_compared"] += len(got)
        x, y = c07.diff(set(got), set(before))
        if x or y:
            h.bad("reindex-again", "reindex of %d of %d silos, index in place: index has %s now, lacks %s" % (
                len(args), len(files), x, y), r)
            return
        x, y = c07.diff(got, before)
        if x or y:
            h.bad("reindex-twice", "reindex of %d of %d silos, index in place: lists %s again" % (len(args), len(files), x), r)
            return
        if silos(a) != s0:
            h.bad("silos-changed", "reindex changed the silos", r)
            return
        h.get_all(sample=12)
        if ctx.violations or not h.random_ops(2):
            return


def run_case(ctx, case):
    rng = ctx.rng
    if case[0] == "b":
        return big_case(ctx, case)
    if case[0] == "p":
        return partial_case(ctx, case)
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    if not make(ctx, h, case[0] != "f"):
        return
    if case[0] == "f":
        return faults(ctx, h)
    for i in range(2):
        if rng.random() < .4:
            if not h.housekeeping():
                return
        check_lost(ctx, h, rng.random() < .3)
        if ctx.violations:
            return
        h.get_all(sample=12)
        # life goes on
        if not h.random_ops(3):
            return
        if ctx.violations:
            return
        c07.check_index(ctx, h)
    h.get_all(sample=12)
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:12]))


def faults(ctx, h):
    """A silo which cannot be read must be noticed"""
    rng = ctx.rng
    a = h.a
    m = warc.load(a)
    exp = idx.expected(m)
    log = ctx.dir + "/log"
    for f in ("index.appendix", "index.sorted", "index.housekeeping"):
        if os.path.exists(a.dir + f):
            os.unlink(a.dir + f)
    s0 = silos(a)
    r = a.cmd("reindex", env=core.fault_env(ctx, a.root, log=log))
    if not h.ok(r, "reindex"):
        return
    ops = [o for o in core.read_oplog(log) if o.klass() == "silo" and
        o.op in ("open", "read", "stat")]
    for o in rng.sample(ops, min(len(ops), 14)):
        for f in ("index.appendix", "index.sorted"):
            if os.path.exists(a.dir + f):
                os.unlink(a.dir + f)
        err = rng.choice([5, 13, 24]) if o.op in ("open", "stat") else 5
        r = a.cmd("reindex", env=core.fault_env(ctx, a.root, at=o.n, act="err:%d" % err, log=log))
        hit = [x for x in core.read_oplog(log) if x.fault]
        if not hit:
            continue
        ctx.stats["faults"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("fault", o.op, err, r.rc)
        if silos(a) != s0:
            h.bad("silos-changed", "reindex with fault %s changed the silos" % hit, r)
            return
        if r.rc == 0:
            got = idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")
            x, y = c07.diff(got, exp)
            if x or y:
                h.bad("fault-success", "reindex with %s failing with %d claims success, but index lacks %s has extra %s" % (
                    hit, err, y, x), r)
                return
