"""C22 rebuild produces equivalent silos"""
import errno
import hashlib
import os
import resource
import shutil
import signal

from .. import core, gen, hist, huge, idx, warc
from . import c07

VARIANTS = ["plain", "ubsan", "san"]
AUX_SO = {"fault": "fault.c"}
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring: the real rebuild is run on silos of random histories, re-encoded silos, damaged silos "
    "and with failing or full disks; an independent reader compares every output record with its source, the rebuilt "
    "silos then replace the originals and every object is read back")
NOTE = "Every output is decided completely; bounded by the histories, damages and faults generated. Read errors inside stdio are injected as directories only."
RULE = ("random histories (all configurations, segmented, forced IDs, long headers, gaps, holds), rebuilt as a whole or "
    "by file; 12 kinds of damage; write and close faults at random operations and file size limits; distinct = (phase, "
    "record type, segmented, size class, damage or fault, outcome)")
NEED = {"silos": 450, "records": 1300, "replaced_gets": 600, "damaged": 300, "faulted": 250, "untouched": 170, "legacy_records": 40}


def cases(tier, seed):
    n = 1 if tier == "quick" else 15
    return (["g%d" % i for i in range(n // 4)] + ["r%d" % i for i in range(340 * n)] + ["d%d" % i for i in range(100 * n)] +
        ["f%d" % i for i in range(60 * n)] + ["b%d" % i for i in range(6 * n)] + ["l%d" % i for i in range(40 * n)])


def huge_case(ctx, case):
    """Records of 4 GiB and more, rebuilt and read back"""
    rng = ctx.rng
    a = core.Archive(ctx, "huge", cfg=core.Cfg(maxsize="100M"))
    n = rng.randrange(1, 4)
    parts = [huge.Part(rng, rng.randrange(1, 1 << 20), rng.randbytes(rng.randrange(1, 3000))) for _ in range(n)]
    parts[rng.randrange(n)] = huge.Part(rng, (1 << 32) + rng.randrange(1, 1 << 24), rng.randbytes(99))
    f = huge.forge(ctx, a, parts)
    if f is None:
        return
    rid, sha, size = f
    r = a.cmd("rebuild", timeout=900, preexec=huge.long_run)
    ctx.stats["evaluations"] += 1
    ctx.seen("huge", n)
    if r.rc:
        ctx.violate("rebuild", "rebuild of %d bytes in %d records fails" % (size, n), result=r.brief())
        return
    for i in range(n):
        os.rename(a.silo_path(i) + "_", a.silo_path(i))
    r = a.cmd("reindex")
    s = huge.Gunzip()
    r = huge.stream(a.argv("get", "-z", rid), s)
    if r.rc or s.done() or s.n != size or s.h.hexdigest() != sha:
        ctx.violate("huge", "%d bytes in %d records: %d afterwards (%s)" % (size, n, s.n, s.error), result=r.brief())


SKIP = ("z", "content-length-gzip")


def fields(rec):
    return sorted((k.lower(), v) for k, v in rec.fields if k.lower() not in SKIP)


def same(old, new):
    """-> None or what differs"""
    if len(old) != len(new):
        return "%d records became %d" % (len(old), len(new))
    for n, (x, y) in enumerate(zip(old, new)):
        if x.id != y.id or x.type != y.type:
            return "record %d: %s %s became %s %s" % (n, x.type, x.id, y.type, y.id)
        if x.body != y.body:
            return "record %d (%s): %d bytes of content became %d others" % (n, x.id, len(x.body), len(y.body))
        if fields(x) != fields(y):
            return "record %d (%s): headers %r became %r" % (n, x.id,
                [f for f in fields(x) if f not in fields(y)], [f for f in fields(y) if f not in fields(x)])
    return None


def compare(ctx, a, fn, old):
    """Is the file a complete equivalent of these records? -> None or why not"""
    if not os.path.isfile(fn):
        return "there is no output"
    with open(fn, "rb") as f:
        buf = f.read()
    try:
        new = warc.parse_silo(buf, a.cfg.prefix)
    except warc.WarcError as e:
        return "invalid output: %s" % e
    d = same(old, new)
    if d is not None:
        return d
    errs = []
    for r in new:
        warc.check_record(r, a.cfg, errs, "rebuilt")
    errs = [e for e in errs if e[0] not in ("resource-id", "metadata-id", "segment-resource-id")]
    if errs:
        return "%s: %s" % errs[0]
    return None


def history(ctx, small=None):
    rng = ctx.rng
    a = core.Archive(ctx, cfg=hist.random_cfg(rng, small=rng.random() < .6 if small is None else small))
    h = hist.Hist(ctx, a, VARIANTS)
    if rng.random() < .3:
        h.mimes = ["application/x-" + "m" * rng.choice([100, 500, 1000])] + h.mimes
    if not h.random_ops(rng.randrange(2, 12), p_mksilo=.08):
        return None
    if h.order and rng.random() < .3:
        h.metadata(n=rng.choice([5, 3000, int(a.cfg.maxbytes * 1.3)]),
            forced="%0*x" % (a.cfg.idlen, rng.getrandbits(4 * a.cfg.idlen)))
    if rng.random() < .3:
        h.store(data=bytes([rng.randrange(256)]) * rng.choice([70000, 300000, 3000000]))
    h.store(n=rng.choice([1, 100, int(a.cfg.maxbytes * 2.2)]))
    if ctx.violations:
        return None
    m = warc.load(a)
    return h, m


def source(tree):
    return {k: v for k, v in tree.items() if not k.endswith("_")}


def r_case(ctx):
    rng = ctx.rng
    hm = history(ctx)
    if hm is None:
        return
    h, m = hm
    a = h.a
    if rng.random() < .3:
        # silos of other versions: other compression
        for n in m.silos:
            b = b"".join(warc.record_bytes(r.fields, r.body, rng.choice([0, 1, 6, 9])) for r in m.silos[n])
            with open(a.silo_path(n), "wb") as f:
                f.write(b)
        if not h.ok(a.cmd("reindex", variant=h.var()), "reindex"):
            return
        m = warc.load(a)
        # (written by us, not wrong in any other way)
        m.errs = []
    for n in m.silos:
        if rng.random() < .3:
            # the result of an earlier run
            with open(a.silo_path(n) + "_", "wb") as f:
                f.write(gen.rbytes(rng, rng.choice([1, 100, m.sizes[n], m.sizes[n] + 50000])))
    if rng.random() < .2:
        n = max(m.silos) + rng.randrange(1, 4)
        fn = a.silo_path(n, hold=True)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        open(fn, "wb").write(gen.rbytes(rng, rng.choice([0, 100])))
    before = source(a.tree())
    nums = sorted(m.silos)
    if rng.random() < .6:
        which = nums
        args = []
    else:
        which = [rng.choice(nums) for _ in range(rng.randrange(1, 4))]
        args = [a.silo_path(n) for n in which]
    r = a.cmd("rebuild", *args, variant=h.var())
    h.log.append("rebuild %d files -> %s" % (len(args), r.rc))
    ctx.stats["evaluations"] += 1
    if not h.ok(r, "rebuild"):
        return
    after = source(a.tree())
    ctx.stats["untouched"] += 1
    if before != after:
        h.bad("source-changed", "rebuild changed the archive: %r" % [
            k for k in set(before) | set(after) if before.get(k) != after.get(k)], r)
        return
    for n in set(which):
        d = compare(ctx, a, a.silo_path(n) + "_", m.silos[n])
        ctx.stats["silos"] += 1
        ctx.stats["records"] += len(m.silos[n])
        if d is not None:
            h.bad("not-equivalent", "silo %d: %s" % (n, d), r)
            return
        for x in m.silos[n]:
            ctx.seen("r", x.type, x.segno is not None, len(x.body).bit_length(), bool(args))
    if set(which) != set(nums):
        return
    # They replace the originals
    for n in nums:
        os.rename(a.silo_path(n) + "_", a.silo_path(n))
    for f in ("index.sorted", "index.appendix"):
        try:
            os.unlink(os.path.join(a.dir, f))
        except FileNotFoundError:
            pass
    r = a.cmd("reindex", variant=h.var())
    if not h.ok(r, "reindex-rebuilt"):
        return
    m2 = warc.load(a)
    # (the rebuilt ones may be larger)
    e = [x for x in m2.errs if x[0] != "oversize" and x not in m.errs and x[0] not in [y[0] for y in m.errs]]
    if e and not any(o.get("forced") for o in h.objs.values()):
        h.bad("rebuilt-" + e[0][0], "rebuilt archive: %s" % e[0][1])
        return
    h.get_all()
    ctx.stats["replaced_gets"] += len(h.order)
    if not any(o.get("forced") for o in h.objs.values()):
        r = a.cmd("audit", variant=h.var())
        if h.ok(r, "audit-rebuilt") and (b"ERROR" in r.out or b"Left on pending" in r.out):
            h.bad("audit-rebuilt", "audit finds errors in rebuilt silos", r)
    # and life goes on
    if rng.random() < .5 and not ctx.violations:
        h.random_ops(3)
        h.get_all(sample=4)


def l_case(ctx):
    """Records as older versions wrote them: other digest headers, own IDs, lengths which are not kept any more"""
    rng = ctx.rng
    hm = history(ctx, True)
    if hm is None:
        return
    h, m = hm
    a = h.a
    want = {}
    for n in m.silos:
        b = b""
        want[n] = []
        for r in m.silos[n]:
            f = []
            old = rng.random() < (.8 if r.type == "warcinfo" else .4) and r.segno is None and len(r.body) <= 8192
            dig = hashlib.sha256(r.body).hexdigest()
            for k, v in r.fields:
                lk = k.lower()
                if lk == "z":
                    continue
                if lk == "warc-block-digest" and old:
                    k = rng.choice(["WARC-record-digest", "WARC-Record-Digest"])
                    v = rng.choice([v, "sha1:" + "b" * 32])
                    if rng.random() < .3:
                        f.append(("WARC-Block-Digest", rng.choice(["sha256:" + "0" * 64, "sha1:x"])))
                elif lk == "warc-record-id" and old:
                    v = "<%s>" % a.uri("%0*x" % (a.cfg.idlen, rng.getrandbits(4 * a.cfg.idlen)))
                f.append((k, v))
            f.sort(key=lambda x: x[0].lower() if x[0].lower() != "warc-record-id" else "")
            if rng.random() < .5:
                f.append(("Content-Length-GZIP", "123"))
            if rng.random() < .3:
                f.append(("z", "_" * rng.randrange(1, 300)))
            w = dict((k.lower(), v) for k, v in r.fields if k.lower() not in SKIP)
            if old:
                w["warc-record-id"] = "<%s>" % a.uri(dig[:a.cfg.idlen])
                w["warc-block-digest"] = "sha256:" + dig
                ctx.stats["legacy_records"] += 1
            want[n].append((w, r.body))
            b += warc.record_bytes(f, r.body, rng.choice([0, 1, 6, 9]))
        with open(a.silo_path(n), "wb") as fo:
            fo.write(b)
    before = source(a.tree())
    r = a.cmd("rebuild", variant=h.var())
    ctx.stats["evaluations"] += 1
    if not h.ok(r, "rebuild-legacy"):
        return
    if source(a.tree()) != before:
        h.bad("source-changed", "rebuild changed the archive", r)
        return
    for n in want:
        try:
            new = warc.parse_silo(open(a.silo_path(n) + "_", "rb").read(), a.cfg.prefix)
        except (OSError, warc.WarcError) as e:
            h.bad("legacy-output", "silo %d: %s" % (n, e), r)
            return
        if len(new) != len(want[n]):
            h.bad("legacy-count", "silo %d: %d records became %d" % (n, len(want[n]), len(new)), r)
            return
        for k, (x, (w, body)) in enumerate(zip(new, want[n])):
            g = dict((k.lower(), v) for k, v in x.fields)
            if x.body != body:
                h.bad("legacy-content", "silo %d record %d: %d bytes became %d others" % (n, k, len(body), len(x.body)), r)
                return
            if g != w:
                h.bad("legacy-headers", "silo %d record %d: got %r, want %r" % (n, k,
                    sorted(set(g.items()) - set(w.items())), sorted(set(w.items()) - set(g.items()))), r)
                return
            ctx.seen("l", x.type, len(body).bit_length())


DAMAGES = ["truncate", "truncate", "flip", "flip", "flip", "overwrite", "tail", "tail-zero", "tail-record",
    "cut-middle", "missing", "dir", "out-dir", "not-gzip"]


def d_case(ctx):
    rng = ctx.rng
    hm = history(ctx, True)
    if hm is None:
        return
    h, m = hm
    a = h.a
    for _ in range(7):
        n = rng.choice(sorted(m.silos))
        fn = a.silo_path(n)
        with open(fn, "rb") as f:
            orig = f.read()
        buf = bytearray(orig)
        kind = rng.choice(DAMAGES)
        ends = {0} | {x.end for x in m.silos[n]}
        x = rng.choice(m.silos[n])
        must = True
        if kind == "truncate":
            cut = rng.choice([rng.randrange(1, len(buf)), x.end - 24, x.end - 1, x.end - rng.randrange(1, 40),
                x.body_off, x.body_off + 1, x.body_off + rng.randrange(60), x.off + 1, x.off + 10,
                x.body_off - 1, x.body_off - 8])
            if cut in ends or not 0 < cut < len(buf):
                continue
            del buf[cut:]
        elif kind == "flip":
            i = rng.choice([rng.randrange(len(buf)), x.off + rng.randrange(24), x.body_off + rng.randrange(24),
                x.end - 24 + rng.randrange(24), x.end - 32 + rng.randrange(8)])
            buf[i] ^= 1 << rng.randrange(8)
            must = False
        elif kind == "overwrite":
            i = rng.randrange(len(buf))
            k = min(rng.choice([2, 16, 512, 4096]), len(buf) - i)
            buf[i:i + k] = rng.choice([b"\0" * k, b"\xff" * k, gen.rbytes(rng, k)])
            must = False
        elif kind == "tail":
            buf += gen.rbytes(rng, rng.choice([1, 2, 17, 3000]))
        elif kind == "tail-zero":
            buf += b"\0" * rng.choice([1, 2, 512, 5000])
        elif kind == "tail-record":
            k = x.end - x.off
            buf += orig[x.off:x.off + rng.choice([1, 9, 10, 11, x.body_off - x.off, k - 24, k - 1, rng.randrange(1, k)])]
        elif kind == "cut-middle":
            i = x.off + rng.randrange(x.end - x.off)
            k = rng.choice([1, 2, 10, 24, 100])
            del buf[i:i + k]
            must = False
        elif kind == "not-gzip":
            buf = bytearray(rng.choice([b"x", b"WARC/1.1\r\n", b"\x1f", b"\x1f\x8b\x07" + b"\0" * 50, gen.rbytes(rng, 500)]))
        if kind in ("missing", "dir"):
            os.unlink(fn)
            if kind == "dir":
                os.mkdir(fn)
        elif kind == "out-dir":
            shutil.rmtree(fn + "_", ignore_errors=True)
            if os.path.exists(fn + "_"):
                os.unlink(fn + "_")
            os.mkdir(fn + "_")
        else:
            with open(fn, "wb") as f:
                f.write(buf)
        if not must and bytes(buf) == orig:
            must = False
        byfile = kind in ("missing", "dir") or rng.random() < .5
        args = []
        if byfile:
            # among others
            args = [a.silo_path(k) for k in sorted(m.silos) if k != n and rng.random() < .3] + [fn]
            rng.shuffle(args)
        r = a.cmd("rebuild", *args, variant=h.var())
        ctx.stats["damaged"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("d", kind, byfile, r.rc != 0)
        if r.rc == 0:
            d = "damage not reported" if must else compare(ctx, a, fn + "_", m.silos[n])
            if d is not None:
                h.bad("damage-accepted", "%s in silo %d (%d of %d bytes): status 0, but %s" % (
                    kind, n, len(buf), len(orig), d), r)
                return
        if r.sanitizer:
            h.bad("sanitizer", "sanitizer report", r)
            return
        if kind not in ("missing", "dir", "out-dir"):
            with open(fn, "rb") as f:
                if f.read() != buf:
                    h.bad("source-changed", "rebuild changed the damaged silo", r)
                    return
        if os.path.isdir(fn):
            os.rmdir(fn)
        if os.path.isdir(fn + "_"):
            os.rmdir(fn + "_")
        with open(fn, "wb") as f:
            f.write(orig)


def f_case(ctx):
    rng = ctx.rng
    hm = history(ctx, True)
    if hm is None:
        return
    h, m = hm
    a = h.a
    for _ in range(9):
        n = rng.choice(sorted(m.silos))
        fn = a.silo_path(n)
        if os.path.exists(fn + "_") and rng.random() < .6:
            os.unlink(fn + "_")
        args = [] if rng.random() < .4 else [fn]
        log = os.path.join(a.root, "ops%d" % ctx.uniq())
        what = rng.choice(["limit", "limit", "err", "err", "short", "sticky"])
        kw = {}
        var = rng.choice(["plain", "ubsan"])
        if what == "limit":
            lim = int(sum(m.sizes.values()) * rng.random() * (1.1 if not args else 1)) if rng.random() < .3 else \
                rng.randrange(m.sizes[n] + 100)
            ign = rng.random() < .7

            def pre():
                if ign:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            kw["preexec"] = pre
            var = h.var()
        else:
            r = a.cmd("rebuild", *args, variant=var, env=core.fault_env(ctx, a.root, log=log))
            ops = [o for o in core.read_oplog(log) if o.op in ("write", "close", "open", "openat") and o.path.endswith("_")]
            if r.rc or not ops:
                h.bad("rebuild-fail", "rebuild of intact silos failed (%d operations seen)" % len(ops), r)
                return
            for f in a.silo_files():
                if rng.random() < .5 and os.path.exists(os.path.join(a.dir, f) + "_"):
                    os.unlink(os.path.join(a.dir, f) + "_")
            o = rng.choice([x for x in ops if x.op == "write" or what != "short"])
            e = {"write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"], "close": ["EIO", "ENOSPC"]}.get(o.op, ["EACCES", "ENOSPC", "EMFILE"])
            act = "short" if what == "short" else "err:%d" % getattr(errno, rng.choice(e))
            kw["env"] = core.fault_env(ctx, a.root, at=o.n, act=act, log=log, sticky=what == "sticky")
            what = what + "-" + o.op
        r = a.cmd("rebuild", *args, variant=var, **kw)
        ctx.stats["faulted"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("f", what, r.rc != 0)
        if r.sanitizer:
            h.bad("sanitizer", "sanitizer report", r)
            return
        if r.rc == 0:
            for k in (sorted(m.silos) if not args else [n]):
                d = compare(ctx, a, a.silo_path(k) + "_", m.silos[k])
                if d is not None:
                    h.bad("fault-accepted", "%s: status 0, but silo %d: %s" % (what, k, d), r)
                    return
        for k in m.silos:
            with open(a.silo_path(k), "rb") as f:
                b = f.read()
            if len(b) != m.sizes[k]:
                h.bad("source-changed", "silo %d changed in size" % k, r)
                return
    h.get_all(sample=3)


def b_case(ctx):
    """one big object"""
    rng = ctx.rng
    a = core.Archive(ctx, cfg=core.Cfg(maxsize="40M", bits=rng.choice([64, 256])))
    h = hist.Hist(ctx, a, ["plain", "ubsan"])
    n = rng.choice([5 << 20, 9 << 20, 20 << 20])
    k = rng.choice(["zero", "random", "blocks"])
    if k == "zero":
        d = b"\0" * n
    elif k == "random":
        d = rng.randbytes(n)
    else:
        d = b"".join(rng.choice([b"\0" * 65536, rng.randbytes(65536), b"abc" * 20000]) for _ in range(n // 65536))
    h.store(data=d)
    h.store(n=100)
    if ctx.violations:
        return
    m = warc.load(a)
    r = a.cmd("rebuild", variant=h.var())
    if not h.ok(r, "rebuild"):
        return
    for x in m.silos:
        w = compare(ctx, a, a.silo_path(x) + "_", m.silos[x])
        ctx.stats["silos"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("b", k, n)
        if w:
            h.bad("not-equivalent", "silo %d: %s" % (x, w), r)


def run_case(ctx, case):
    if case[0] == "g":
        return huge_case(ctx, case)
    {"r": r_case, "d": d_case, "f": f_case, "b": b_case, "l": l_case}[case[0]](ctx)
