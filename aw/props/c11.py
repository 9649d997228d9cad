"""C11 get never delivers wrong data and claims success"""
import os
import resource
import signal
import struct
import subprocess
import zlib

from .. import core, gen, hist, idx, warc
from . import c10

VARIANTS = ["plain", "ubsan"]
AUX_SO = {"fault": "fault.c"}
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: get observed on damaged silos, damaged indexes and failing outputs, its exit "
    "status and every delivered byte compared with the object known to have been stored")
NOTE = ("Decides each observed get completely; bounded by the damages (semantic, byte-level, index fields, "
    "file-level) and output failures generated.")
RULE = ("random archives with segmented objects; damages: 30 semantic kinds, byte flips anywhere in a silo, "
    "overwritten blocks, truncation, removed or exchanged silos, any field of any index entry changed; "
    "outputs: full device, file size limit, closed pipe at every stage, failing or short writes; distinct = "
    "(kind, mode, outcome)")
NEED = {"damaged_gets": 3000, "refused": 1500, "index_damage": 400, "output_failures": 800,
    "segmented_gets": 1000}

SELF_CONSISTENT = {"resource-replaced", "metadata-replaced", "ids-swapped", "bodies-swapped",
    "resource-id", "metadata-id", "segmented-id", "segment-replaced", "warcinfo-id"}
# Damages which leave each gzip member valid
FORGED = SELF_CONSISTENT | {"body-altered", "body-altered-length-adjusted", "segments-renumbered"}


def cases(tier, seed):
    return range(260 if tier == "quick" else 4000)


def data_of(r, mode, of):
    if mode in ("file", "gzipfile"):
        try:
            with open(of, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None
    return r.out


def probe(ctx, h, b, rid, what, mode=None, forged=False):
    """get one object from the damaged archive b"""
    rng = ctx.rng
    o = h.objs[rid]
    mode = mode or rng.choice(["plain", "quiet", "file", "gzip", "gzipfile"])
    if forged and mode.startswith("gzip"):
        mode = "plain"
    opts = []
    of = None
    if mode in ("file", "gzipfile"):
        of = os.path.join(b.root, "_out")
        if os.path.exists(of):
            os.unlink(of)
        opts += ["-o", of]
    if mode.startswith("gzip"):
        opts += ["-z"]
    if mode in ("quiet", "gzip"):
        opts += ["-q"]
    r = b.cmd("get", *(opts + [h.spell(rid)]), variant=h.var())
    ctx.stats["damaged_gets"] += 1
    ctx.stats["evaluations"] += 1
    segd = len(o["data"]) > b.cfg.maxbytes * 1.1
    if segd:
        ctx.stats["segmented_gets"] += 1
    if r.sanitizer:
        h.bad("sanitizer", "get with %s" % (what,), r)
    if r.rc != 0:
        ctx.stats["refused"] += 1
        ctx.seen(what[0], mode, segd, "refused")
        return
    d = data_of(r, mode, of)
    kind = "same"
    if mode.startswith("gzip"):
        try:
            d = hist.decompress_all(d)
        except zlib.error:
            # whoever gunzips this will notice
            ctx.seen(what[0], mode, segd, "invalid gzip")
            ctx.stats["invalid_gzip"] += 1
            return
    if d != o["data"]:
        h.bad("wrong-data:" + what[0], "get %s of object %s (%d bytes, %s) with %s: exit status 0 but the "
            "%s bytes delivered are not the object" % (mode, rid, len(o["data"]), o["type"], what,
            "no" if d is None else len(d)), r)
    ctx.seen(what[0], mode, segd, kind)


def owners(m, cfg):
    """record -> id of the object it belongs to"""
    own = {}
    for n, r in m.records():
        if r.type == "continuation":
            own[(n, r.off)] = r.get("WARC-Segment-Origin-ID")[1 + len(cfg.prefix):-1].lower()
        elif r.type != "warcinfo":
            own[(n, r.off)] = r.id.lower()
    return own


def run_case(ctx, case):
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    if not h.random_ops(rng.randrange(2, 8)):
        return
    for i in range(rng.randrange(1, 3)):
        d = gen.exact(rng, int(min(cfg.maxbytes, 40000) * rng.uniform(1, 5)), "random")
        if i == 1 and h.order and rng.random() < .4:
            h.metadata(data=d)
        else:
            h.store(data=d)
    if rng.random() < .5:
        h.housekeeping()
    if ctx.violations:
        return
    m = warc.load(a)
    if m.errs:
        h.bad("silo-" + m.errs[0][0], m.errs[0][1])
        return
    own = owners(m, cfg)
    if case % 4 == 3:
        return outputs(ctx, h)
    semantic(ctx, h, m, own)
    if not ctx.violations:
        bytelevel(ctx, h, m, own)
    if not ctx.violations:
        index(ctx, h, m, own)
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:8]))


def semantic(ctx, h, m, own):
    rng = ctx.rng
    d = c10.Damage(ctx, h, m)
    kinds = [k for k in c10.KINDS if k not in SELF_CONSISTENT]
    for kind in rng.sample(kinds, 5) + rng.sample([k for k in c10.SEG_KINDS if k not in SELF_CONSISTENT], 3):
        b = h.a.clone("dam")
        x = d.apply(b, kind)
        if x is not None:
            ids = [i for (n, off), i in own.items() if n == x[0]]
            for rid in set(rng.sample(ids, min(2, len(ids))) + [own.get((x[0], x[1].off))]):
                if rid:
                    probe(ctx, h, b, rid, (kind, x[0], x[1].off), forged=kind in FORGED)
        b.destroy()
        if ctx.violations:
            return


def bytelevel(ctx, h, m, own):
    rng = ctx.rng
    for _ in range(8):
        b = h.a.clone("dam")
        n = rng.choice(sorted(m.silos))
        fn = b.silo_path(n)
        with open(fn, "rb") as f:
            buf = bytearray(f.read())
        rec = rng.choice(m.silos[n])
        forged = False
        k = rng.randrange(9)
        if k == 0:
            what = ("flip-any", n, rng.randrange(len(buf)))
            buf[what[2]] ^= 1 << rng.randrange(8)
        elif k == 1:
            i = rng.randrange(rec.off, rec.body_off + 24)
            what = ("flip-header", n, i)
            buf[i] ^= 1 << rng.randrange(8)
        elif k == 2:
            i = rng.randrange(len(buf))
            l = rng.choice([1, 16, 512, 4096])
            what = ("overwrite", n, i, l)
            l = min(l, len(buf) - i)
            buf[i:i + l] = rng.choice([b"\0" * l, gen.rbytes(rng, l)])
        elif k == 3:
            i = rng.choice([rng.randrange(len(buf)), rec.off, rec.body_off, rec.end,
                rec.end - 24, rec.body_off + 24, rec.end - 32, rec.end - 37])
            what = ("truncate", n, i)
            del buf[i:]
        elif k == 4:
            i = rng.randrange(len(buf))
            what = ("lost-bytes", n, i)
            del buf[i:i + rng.choice([1, 2, 100, 512])]
        elif k == 5:
            i = rng.randrange(len(buf))
            what = ("gained-bytes", n, i)
            buf[i:i] = gen.rbytes(rng, rng.choice([1, 2, 100, 512]))
        elif k == 6:
            what = ("removed", n)
            buf = None
        elif k == 7:
            o = rng.choice(sorted(m.silos))
            what = ("exchanged", n, o)
            if o != n:
                with open(b.silo_path(o), "rb") as f:
                    ob = f.read()
                with open(b.silo_path(o), "wb") as f:
                    f.write(buf)
                buf = ob
        else:
            # A block of one record ends up in another
            i, j = rng.randrange(len(buf)), rng.randrange(len(buf))
            l = rng.choice([16, 64, 512])
            what = ("misplaced-block", n, i, j, l)
            buf[j:j + l] = buf[i:i + l]
        if buf is None:
            os.unlink(fn)
        else:
            with open(fn, "wb") as f:
                f.write(buf)
        ids = sorted({i for (s, off), i in own.items() if s == n})
        o = own.get((n, rec.off))
        for rid in set(rng.sample(ids, min(3, len(ids))) + ([o] if o else [])):
            probe(ctx, h, b, rid, what, forged=forged)
        b.destroy()
        if ctx.violations:
            return


def index(ctx, h, m, own):
    """Entries of the index changed"""
    rng = ctx.rng
    a = h.a
    ents = [("index.appendix", i) for i in range(len(idx.read_appendix(a.dir + "index.appendix")))]
    ents += [("index.sorted", i) for i in range(len(idx.read_sorted(a.dir + "index.sorted")))]
    if not ents:
        return
    bykey = {}
    for rid in h.order:
        bykey.setdefault(rid[:24].ljust(24, "0"), []).append(rid)
    for _ in range(14):
        b = a.clone("dam")
        f, i = rng.choice(ents)
        with open(b.dir + f, "rb") as fh:
            buf = bytearray(fh.read())
        hd = (1 << (buf[2] + 3)) if f == "index.sorted" else 0
        p = hd + 32 * i
        e = idx.unpack(bytes(buf[p:p + 32]))
        k = rng.randrange(8)
        others = [idx.unpack(bytes(buf[q:q + 32])) for q in range(hd, len(buf), 32)]
        x = rng.choice(others)
        if k == 0:
            new = (e[0], e[1], x[2], x[3], e[4])
        elif k == 1:
            new = (e[0], rng.choice([e[1] ^ (1 << rng.randrange(1, 7)), x[1], rng.getrandbits(7),
                e[1] | idx.F_LAST, e[1] & ~0x70, (e[1] & 15) | 0x70]), e[2], e[3], e[4])
        elif k == 2:
            new = (e[0], e[1], rng.choice([x[2], e[2] + 1, rng.getrandbits(32)]), e[3], e[4])
        elif k == 3:
            new = (e[0], e[1], e[2], rng.choice([x[3], e[3] + 1, max(0, e[3] - 1), 0, 1 << 40]), e[4])
        elif k == 4:
            new = (e[0], e[1], e[2], e[3], rng.choice([x[0][:8], x[4], "00000000", "%08x" % rng.getrandbits(32)]))
        elif k == 5:
            new = (e[0],) + x[1:]
        elif k == 6:
            new = (x[0],) + e[1:]
        else:
            q = bytearray(buf[p:p + 32])
            q[rng.randrange(32)] ^= 1 << rng.randrange(8)
            new = idx.unpack(bytes(q))
        buf[p:p + 32] = idx.pack(*new)
        with open(b.dir + f, "wb") as fh:
            fh.write(buf)
        what = ("index-%d" % k, e, new)
        ctx.stats["index_damage"] += 1
        ids = bykey.get(e[0], []) + bykey.get(new[0], [])
        # whose continuation is it?
        for (n, off), rid in own.items():
            if n == e[2] and off == e[3] and rid not in ids:
                ids.append(rid)
        for rid in set(ids):
            probe(ctx, h, b, rid, what)
            probe(ctx, h, b, rid, what, mode="gzip")
        b.destroy()
        if ctx.violations:
            return


def outputs(ctx, h):
    """The output can not be written"""
    rng = ctx.rng
    a = h.a
    for rid in rng.sample(h.order, min(6, len(h.order))):
        o = h.objs[rid]
        n = len(o["data"])
        for mode in ("plain", "quiet", "file", "gzip", "gzipfile"):
            base = []
            if mode.startswith("gzip"):
                base += ["-z"]
            if mode in ("quiet", "gzip"):
                base += ["-q"]
            name = h.spell(rid)
            v = h.var()
            # how much is there to write?
            r = a.cmd("get", *(base + [name]), variant=v)
            if not h.ok(r, "get"):
                return
            full = r.out
            of = os.path.join(a.root, "_out")
            # A full device
            if mode in ("file", "gzipfile"):
                r = a.cmd("get", *(base + ["-o", "/dev/full", name]), variant=v)
            else:
                with open("/dev/full", "wb") as f:
                    r = a.cmd("get", *(base + [name]), variant=v, stdout_file=f)
            verdict(ctx, h, r, "full-device", mode, rid)
            # ... for the headers only
            if mode in ("file", "gzipfile"):
                with open("/dev/full", "wb") as f:
                    r = a.cmd("get", *(base + ["-o", of, name]), variant=v, stdout_file=f)
                verdict(ctx, h, r, "full-device-headers", mode, rid)
            # A limit on the size of files
            lim = rng.choice([0, 1, len(full) - 1, rng.randrange(len(full)), max(0, len(full) - 4096)])

            def pre(lim=lim, ign=rng.random() < .5):
                if ign:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            if mode in ("file", "gzipfile"):
                r = a.cmd("get", *(base + ["-o", of, name]), variant=v, preexec=pre)
                got = os.path.getsize(of) if os.path.exists(of) else 0
            else:
                with open(of, "wb") as f:
                    r = a.cmd("get", *(base + [name]), variant=v, stdout_file=f, preexec=pre)
                got = os.path.getsize(of)
            if got < len(full):
                verdict(ctx, h, r, "file-limit %d of %d" % (lim, len(full)), mode, rid)
            # The reader goes away
            if mode not in ("file", "gzipfile"):
                p = subprocess.Popen(a.argv("get", *(base + [name]), variant=v),
                    stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                    env=core.BASE_ENV, start_new_session=True)
                want = rng.choice([0, 1, rng.randrange(len(full))])
                b = b""
                while len(b) < want:
                    x = os.read(p.stdout.fileno(), want - len(b))
                    if not x:
                        break
                    b += x
                p.stdout.close()
                rc = p.wait(60)
                ctx.stats["output_failures"] += 1
                ctx.stats["evaluations"] += 1
                # What fits into the pipe may be gone before the reader is
                if len(full) > want + 70000 and rc == 0:
                    h.bad("closed-pipe", "get %s of %d bytes to a reader who left after %d: exit status 0" % (
                        mode, len(full), want))
                ctx.seen("pipe", mode, rc, len(full) > want + 70000)
            # Writes which fail or are incomplete
            log = ctx.dir + "/log"
            for act in ("err:5", "err:28", "short"):
                env = core.fault_env(ctx, a.root, at=rng.choice([1, 40, 60]), act=act, only="write,writev", log=log,
                    stdout=True)
                if mode in ("file", "gzipfile"):
                    r = a.cmd("get", *(base + ["-o", of, name]), variant=v, env=env)
                    with open(of, "rb") as f:
                        got = f.read()
                else:
                    r = a.cmd("get", *(base + [name]), variant=v, env=env)
                    got = r.out
                if not any(x.fault for x in core.read_oplog(log)):
                    continue
                ctx.stats["output_failures"] += 1
                ctx.stats["evaluations"] += 1
                ctx.seen("write-" + act, mode, r.rc)
                if r.rc == 0 and got != full:
                    h.bad("write-" + act, "get %s: exit status 0, but %d of %d bytes written correctly" % (
                        mode, len(got), len(full)), r)
            if ctx.violations:
                return


def verdict(ctx, h, r, what, mode, rid):
    ctx.stats["output_failures"] += 1
    ctx.stats["evaluations"] += 1
    ctx.seen(what.split(" ")[0], mode, r.rc)
    if r.rc == 0:
        h.bad("output:" + what.split(" ")[0], "get %s of object %s with %s: exit status 0" % (mode, rid, what), r)
