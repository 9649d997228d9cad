"""C01 Round trip"""
import hashlib
import os
import shutil

from .. import core, gen, hist, huge, idx, warc
from . import c07

VARIANTS = ["plain", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: random histories on the real program (plain and UBSan builds), "
    "every delivered object and its headers compared with a reference model")
NOTE = ("Every get of every history is compared byte for byte with what was stored; assurance "
    "is bounded by the histories generated (configurations, sizes and contents chosen around "
    "the buffer, deflate and silo boundaries).")
RULE = ("each case is a random archive configuration and a random history of stores, "
    "metadata stores, duplicate stores, housekeeping and mksilo, every object is then "
    "fetched in a random spelling and output mode and compared byte for byte; m cases change the "
    "configuration, move, copy and protect the archive in between; "
    "distinct = (size class of object, content kind, segmented?, output mode, silo size)")
NEED = {"gets": 100, "huge_stores": 1, "big_silos": 1, "changes": 80}


def cases(tier, seed):
    return (["g%d" % i for i in range(1 if tier == "quick" else 6)] +
        ["b%d" % i for i in range(1 if tier == "quick" else 6)] +
        ["m%d" % i for i in range(60 if tier == "quick" else 1000)] +
        (["i%d" % i for i in range(2)] if tier != "quick" else []) +
        list(range(240 if tier == "quick" else 4000)))


def huge_case(ctx, case):
    """More than 2 (in the thorough tier 4) GiB, stored for real"""
    rng = ctx.rng
    small = case == "g0"
    size = (1 << (31 if small else 32)) + rng.randrange(1 << 22)
    p = huge.Part(rng, size, rng.randbytes(rng.randrange(5000)))
    a = core.Archive(ctx, "huge", cfg=core.Cfg(maxsize=rng.choice(["1M", "2M", "20M"] if small else ["300k", "1M", "20M"])))
    total = hashlib.sha256()
    p.scan(total)
    out = []
    r = huge.stream(a.argv("store", "-t", "resource", "-m", "text/plain"), out.append, feed=p.chunks())
    out = b"".join(out).decode("latin-1").strip()
    want = a.uri(total.hexdigest()[:a.cfg.idlen])
    ctx.stats["huge_stores"] += 1
    ctx.stats["evaluations"] += 2
    ctx.seen("huge", size >> 31, a.cfg.maxsize)
    if r.rc != 0 or out != want:
        ctx.violate("huge-store", "store of %d bytes prints %r, expected %r" % (p.size, out, want), result=r.brief())
        return
    s = huge.Sum()
    r = huge.stream(a.argv("get", "-q", want), s)
    ctx.stats["gets"] += 1
    if r.rc != 0 or s.n != p.size or s.h.hexdigest() != total.hexdigest():
        ctx.violate("huge-get", "%d bytes stored, %d delivered" % (p.size, s.n), result=r.brief())


def big_case(ctx, case):
    """A silo of more than 4 GiB"""
    rng = ctx.rng
    a = core.Archive(ctx, "big", cfg=core.Cfg(maxsize=rng.choice(["5G", "9G", "1000G"]), bits=rng.choice(hist.BITS)))
    h = hist.Hist(ctx, a, VARIANTS)
    with huge.NoFsize():
        r = huge.big_silo(ctx, h, rng.randrange(2, 12))
        if r is None:
            return
        br, want = r
        h.get_all()
        h.housekeeping()
        h.get_all()
    s = huge.Sum()
    r = huge.stream(a.argv("get", "-q", h.spell(br.id)), s)
    ctx.stats["gets"] += 1
    ctx.stats["evaluations"] += len(want)
    if r.rc != 0 or s.n != br.size or s.h.hexdigest() != br.sha:
        ctx.violate("big-get", "%d bytes in the silo, %d delivered" % (br.size, s.n), result=r.brief())
    a.destroy()


def incompressible_case(ctx, case):
    """More than 4 GiB which do not compress, stored for real"""
    rng = ctx.rng
    over = case == "i1"
    a = core.Archive(ctx, "inc", cfg=core.Cfg(maxsize="2.5G" if over else "9G"))
    blk = rng.randbytes(1 << 20)
    n = (1 << 32 >> 20) + rng.randrange(1, 20)
    total = hashlib.sha256()
    for _ in range(n):
        total.update(blk)
    out = []
    with huge.NoFsize():
        r = huge.stream(a.argv("store"), out.append, feed=(blk for _ in range(n)), timeout=800)
    want = a.uri(total.hexdigest()[:a.cfg.idlen])
    out = b"".join(out).decode("latin-1").strip()
    ctx.stats["huge_stores"] += 1
    ctx.stats["evaluations"] += 2
    ctx.seen("incompressible", over)
    if r.rc != 0 or out != want:
        ctx.violate("huge-store", "store of %d bytes prints %r, expected %r" % (n << 20, out, want), result=r.brief())
        return
    with huge.NoFsize():
        h = hist.Hist(ctx, a, VARIANTS)
        h.store(n=1000)
        h.get_all()
    s = huge.Sum()
    r = huge.stream(a.argv("get", "-q", want), s)
    if r.rc != 0 or s.n != n << 20 or s.h.hexdigest() != total.hexdigest():
        ctx.violate("huge-get", "%d bytes stored, %d delivered" % (n << 20, s.n), result=r.brief())
    a.destroy()


def moved_case(ctx, case):
    """What operators do to an archive over the years"""
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    for i in range(rng.randrange(2, 6)):
        if not h.random_ops(rng.randrange(1, 6)):
            return
        if rng.random() < .5:
            d = gen.exact(rng, int(cfg.maxbytes * rng.uniform(.6, 4)), "random")
            if rng.random() < .3 and h.order:
                h.metadata(data=d)
            else:
                h.store(data=d)
        what = rng.choice(["maxsize", "maxsize", "maxsize", "move", "copy", "cache", "protect", "sort", "warcinfo"])
        if what == "maxsize":
            cfg.maxsize = rng.choice(hist.SIZES)
            cfg.maxbytes = core.parse_size(cfg.maxsize)
        elif what == "move":
            d = "%s/moved%d" % (a.root, i)
            os.rename(a.dir, d)
            a.dir = d + "/"
        elif what == "copy":
            d = "%s/copy%d" % (a.root, i)
            shutil.copytree(a.dir, d)
            shutil.rmtree(a.dir)
            a.dir = d + "/"
        elif what == "cache":
            if os.path.exists(a.dir + "_.cache"):
                os.unlink(a.dir + "_.cache")
        elif what == "protect":
            n = sorted(a.silo_nums().items())
            for j, f in n[:rng.randrange(len(n) + 1)]:
                os.chmod(f, 0o440)
        elif what == "sort":
            cfg.sort_size = rng.choice(["4k", "5000", "64k", "1M"])
        else:
            cfg.warcinfo = hist.random_cfg(rng).warcinfo
        a.write_conf()
        h.log.append("%s changed, now %s in %s" % (what, cfg.maxsize, os.path.basename(a.dir[:-1])))
        ctx.stats["changes"] += 1
        ctx.seen("changed", what, cfg.maxsize)
        h.get_all(sample=15)
        if ctx.violations:
            return
    h.random_ops(3)
    h.get_all()
    m = warc.load(a)
    for k, msg in m.errs:
        # Those depend on the configuration of back then
        if k not in ("oversize", "warcinfo-body"):
            h.bad("silo-" + k, msg)
    x, y = c07.diff(idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted"), idx.expected(m))
    if x or y:
        h.bad("index", "index has %s which is not in the silos, lacks %s" % (x, y))
    r = a.cmd("audit", "-i", "ignore-metadata-record-id", variant=h.var())
    if h.ok(r, "audit") and (b"ERROR" in r.out or b"Left on pending" in r.out):
        k = max(0, r.out.find(b"ERROR"))
        h.bad("audit", "audit after changes of the configuration: %r" % r.out[k:k + 300], r)
    ctx.stats["evaluations"] += len(h.order)


def run_case(ctx, case):
    rng = ctx.rng
    if str(case)[0] == "b":
        return big_case(ctx, case)
    if str(case)[0] == "m":
        return moved_case(ctx, case)
    if str(case)[0] == "i":
        return incompressible_case(ctx, case)
    if str(case)[0] == "g":
        return huge_case(ctx, case)
    cfg = hist.random_cfg(rng, small=(case % 3 != 0))
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, ["plain", "plain", "ubsan"])
    nops = rng.randrange(3, 25)
    if cfg.maxbytes > 300000:
        nops = min(nops, 8)
    for _ in range(2):
        if not h.random_ops(nops):
            return
        h.get_all()
    for rid in h.order:
        o = h.objs[rid]
        ctx.seen(len(o["data"]).bit_length(), cfg.maxsize, o["type"], len(o["data"]) > cfg.maxbytes)
    ctx.stats["evaluations"] += len(h.order)
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:10]))
