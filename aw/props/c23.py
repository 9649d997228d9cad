"""C23 Every silo has its one place and is never overwritten"""
import os
import struct

from .. import core, gen, hist, idx, warc

VARIANTS = ["plain", "ubsan", "san"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: mksilo and store are observed in directories with every pattern of silos, gaps, holds, "
    "foreign files and cache contents; the tree before and after, the index and an independent reader of the silos are "
    "compared with the path and number rules of the specification")
NOTE = "Every new silo is checked completely; bounded by the patterns and numbers generated."
RULE = ("mksilo of numbers on all levels (boundaries, powers, random to 2^32-1) in all spellings and with all name patterns; "
    "objects of one and several segments stored with random sets of used, held and occupied numbers and all kinds of "
    "cache; dense ranges of silos; distinct = (phase, level, what is in the way, cache state, segments)")
NEED = {"mksilos": 1500, "refused": 500, "placements": 500, "new_silos": 1500, "caches": 250, "dense": 2}


def cases(tier, seed):
    n = 1 if tier == "quick" else 20
    return (["p%d" % i for i in range(170 * n)] + ["n%d" % i for i in range(330 * n)] +
        ["c%d" % i for i in range(90 * n)] + ["d%d" % i for i in range(3 * n)])


PATS = hist.BASENAMES + ["%u_%%", "%x.gz", "%o", "S%X", "%.6u", "%-9u.gz", "%3u", "%010u%%%%.warc", "x" * 200 + "%u"]


def path(a, n, hold=False):
    """The rule: level, then two digits at a time, then the name"""
    lvl, parts, k = 0, [], n // 100
    while k:
        parts.insert(0, "%02d" % (k % 100))
        k //= 100
        lvl += 1
    bn = (a.cfg.basename or "%08u.warc.gz").replace("%u", "%d") % n
    return "/".join(["%d" % lvl] + parts + [bn]) + (".hold" if hold else "")


def numbers(rng):
    c = rng.random()
    if c < .35:
        return rng.choice([0, 1, 9, 10, 98, 99, 100, 101, 199, 200, 999, 1000, 9899, 9999, 10000, 10001, 10099, 10100,
            19999, 20000, 99999, 999999, 1000000, 1000001, 99999999, 100000000, 100000001, 4294967295, 4294967294,
            2147483647, 2147483648, 4294967295 // 100 * 100])
    if c < .5:
        return 100 ** rng.randrange(1, 5) * rng.randrange(1, 40) + rng.choice([-1, 0, 1])
    if c < .6:
        return rng.randrange(100)
    return rng.getrandbits(rng.randrange(1, 33))


def snapshot(a):
    """Files with contents, and everything else by kind"""
    t = {}
    for dp, dn, fn in os.walk(a.dir):
        for f in fn:
            p = os.path.join(dp, f)
            k = os.path.relpath(p, a.dir)
            if os.path.islink(p):
                t[k] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    t[k] = ("file", fh.read())
    return t


def index(a):
    return idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")


def changed(b, a):
    return sorted(k for k in set(b) | set(a) if b.get(k) != a.get(k))


def check_new(ctx, h, fn, n, buf):
    """Is this a silo on its own? -> records"""
    a = h.a
    try:
        recs = warc.parse_silo(buf, a.cfg.prefix)
    except warc.WarcError as e:
        h.bad("new-silo", "silo %d (%s): %s" % (n, fn, e))
        return None
    r = recs[0]
    if r.type != "warcinfo" or r.get("WARC-Filename") != os.path.basename(fn):
        h.bad("new-silo", "silo %d (%s) starts with %s for %r" % (n, fn, r.type, r.get("WARC-Filename")))
        return None
    return recs


def p_case(ctx):
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    cfg.basename = rng.choice(PATS)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    if rng.random() < .3:
        h.store(n=10)
    used = {}
    for _ in range(14):
        b = snapshot(a)
        n = rng.choice(sorted(used)) if used and rng.random() < .2 else numbers(rng)
        p = path(a, n)
        c = rng.random()
        block = None
        if p in b:
            block = "silo"
        elif os.path.lexists(a.dir + path(a, n, True)):
            block = "hold"
        elif os.path.isdir(a.dir + p):
            block = "dir"
        elif c < .3:
            block = rng.choice(["hold", "hold", "file", "dir", "empty"])
            fn = a.dir + (path(a, n, True) if block == "hold" else p)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            if block == "dir":
                os.mkdir(fn)
            elif block == "empty":
                open(fn, "w").close()
            else:
                open(fn, "wb").write(gen.rbytes(rng, rng.choice([0, 1, 500])))
            b = snapshot(a)
        bad = None
        arg = rng.choice(["%d", "%d", "%d", "0x%x", "0X%X"]) % n
        if rng.random() < .12:
            bad = rng.choice(["%dx" % n, "x%d" % n, "-%d" % (n + 1), str(n + (1 << 32)), str(n + (1 << 64)), "", "zwei",
                "%d.5" % n, "4294967296", "18446744073709551616", "-1", "%d %d" % (n, n), "0x", "1e3", "99999999999999999999"])
            if bad == "0x":
                bad = "0xg"
            arg = bad
        r = h.a.cmd("mksilo", arg, variant=h.var())
        h.log.append("mksilo %r (%s) -> %s" % (arg, block, r.rc))
        ctx.stats["mksilos"] += 1
        ctx.stats["evaluations"] += 1
        s = snapshot(a)
        lvl = p.split("/")[0]
        ctx.seen("p", lvl, block, bad is not None, r.rc != 0, n % 100 in (0, 99))
        if bad is not None or block:
            ctx.stats["refused"] += 1
            if r.rc == 0:
                h.bad("mksilo-accepted", "mksilo %r succeeds although %s" % (arg, "there is a %s" % block if bad is None else "that is no silo number"), r)
                return
            if r.crashed:
                h.bad("mksilo-crash", "mksilo %r crashes" % arg, r)
                return
            d = changed(b, s)
            if d:
                h.bad("refused-changed", "refused mksilo %r changed %r" % (arg, d), r)
                return
        else:
            if not h.ok(r, "mksilo"):
                return
            d = [k for k in changed(b, s) if k not in ("index.appendix", "_.cache")]
            if d != [p]:
                h.bad("mksilo-place", "mksilo %r (%d) changed %r, expected %r" % (arg, n, d, p), r)
                return
            recs = check_new(ctx, h, p, n, s[p][1])
            if recs is None:
                return
            if len(recs) != 1:
                h.bad("mksilo-records", "mksilo made a silo with %d records" % len(recs))
            used[n] = recs[0].id
            c0, c1 = [struct.unpack(">I", t["_.cache"][1][:4])[0] if "_.cache" in t else 0 for t in (b, s)]
            free = [x for x in range(c0, min(c1, c0 + 1000)) if not os.path.lexists(a.dir + path(a, x))
                and not os.path.lexists(a.dir + path(a, x, True))]
            if c1 < c0 or free:
                h.bad("cache", "mksilo %d moves the first free number from %d to %d, but %r are free" % (n, c0, c1, free[:5]), r)
                return
            old = b.get("index.appendix", ("", b""))[1]
            if not s["index.appendix"][1].startswith(old):
                h.bad("index", "mksilo changed the existing index")
            want = [(recs[0].id[:24].ljust(24, "0").lower(), idx.F_WARCINFO, n)]
            got = [e[:3] for e in index(a)][-1:]
            if [(g[0] if isinstance(g[0], str) else g[0].hex(), g[1], g[2]) for g in got] != want or \
                    len(s["index.appendix"][1]) <= len(old):
                h.bad("mksilo-index", "mksilo %d: index has %r, want %r" % (n, got, want), r)
                return
            # It is where it can be found
            if rng.random() < .25:
                r = a.cmd("byid", used[n], variant=h.var())
                if r.crashed or used[n][:24].encode() not in r.out:
                    h.bad("mksilo-byid", "warcinfo of silo %d can not be found" % n, r)
                    return
    h.get_all()


def occupy(rng, a, n):
    """Something in the way of silo n -> kind"""
    kind = rng.choice(["file", "hold", "hold", "dir", "ro", "empty"])
    fn = a.dir + path(a, n, kind == "hold")
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    if kind == "dir":
        os.mkdir(fn)
    elif kind == "empty":
        open(fn, "w").close()
        os.chmod(fn, 0o444)
    else:
        # (write protected: not for appending to)
        with open(fn, "wb") as f:
            f.write(gen.rbytes(rng, rng.choice([0, 1, 3000])))
        if kind != "hold":
            os.chmod(fn, 0o444)
    return kind


def n_case(ctx):
    """New silos in a partly occupied neighbourhood"""
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    cfg.basename = rng.choice(PATS)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    if rng.random() < .4:
        for _ in range(rng.randrange(1, 4)):
            h.store()
    c0 = rng.choice([0, 0, 1, rng.randrange(90, 103), rng.randrange(9990, 10003), rng.randrange(40000), 999999, 99999998])
    taken = {}
    for _ in range(rng.randrange(9)):
        n = max(0, c0 + rng.choice([rng.randrange(8), rng.randrange(8), -1, -2, rng.randrange(30)]))
        if n in taken or os.path.lexists(a.dir + path(a, n)):
            continue
        if rng.random() < .4:
            r = h.mksilo(n)
            if not h.ok(r, "mksilo"):
                return
            taken[n] = "silo"
        else:
            taken[n] = occupy(rng, a, n)
    space = rng.choice([0, 0, c0, max(0, c0 - 2), c0 + rng.randrange(3)])
    space = max(space, c0 - 300)
    have = rng.random()
    if have < .85 or c0 > 60000:
        with open(a.dir + "_.cache", "wb") as f:
            f.write(struct.pack(">II", c0, space))
        cs = "set"
    else:
        cs, c0 = "none", 0
        if os.path.exists(a.dir + "_.cache"):
            os.unlink(a.dir + "_.cache")
    for rnd in range(4):
        b = snapshot(a)
        if rnd and "_.cache" in b:
            c0 = struct.unpack(">I", b["_.cache"][1][:4])[0]
        nseg = rng.choice([1, 1, 2, 4])
        d = gen.exact(rng, max(1, int(cfg.maxbytes * (nseg - .7)) if nseg > 1 else rng.choice([1, 300, int(cfg.maxbytes * .4)])), "random")
        dup = a.rid(d) in h.objs
        rid = h.store(data=d, mime="text/plain")
        if rid is None:
            return
        s = snapshot(a)
        ctx.stats["placements"] += 1
        ctx.stats["evaluations"] += 1
        new, app = [], []
        for k in changed(b, s):
            if k in ("index.appendix", "_.cache"):
                continue
            if k not in s:
                h.bad("lost", "%s disappeared in a store" % k)
                return
            if k in b:
                if not s[k][1].startswith(b[k][1]):
                    h.bad("overwritten", "%s was overwritten in a store" % k)
                    return
                app.append(k)
            else:
                new.append(k)
        if len(app) > 1 or (app and new):
            h.bad("placement", "object of %d bytes in %r and %r" % (len(d), app, new))
            return
        # The numbers which are free
        want, n = {}, c0
        while len(want) < len(new):
            if not os.path.lexists(a.dir + path(a, n, True)) and (
                    path(a, n) in new or not os.path.lexists(a.dir + path(a, n))):
                want[path(a, n)] = n
            n += 1
        if set(want) != set(new):
            h.bad("number", "new silos are %r, the lowest free numbers from %d on are %r" % (new, c0, sorted(want)))
            return
        for k in new:
            recs = check_new(ctx, h, k, want[k], s[k][1])
            if recs is None:
                return
            ctx.stats["new_silos"] += 1
        if not dup and not new and not app:
            h.bad("nowhere", "the object is in no silo")
            return
        if "_.cache" in s:
            # what is below the cached number is in use
            c1 = struct.unpack(">I", s["_.cache"][1][:4])[0]
            if c1 < c0:
                h.bad("cache", "first free number went from %d to %d" % (c0, c1))
            for x in range(c0, min(c1, c0 + 1000)):
                if not os.path.lexists(a.dir + path(a, x)) and not os.path.lexists(a.dir + path(a, x, True)):
                    h.bad("cache", "first free number is now %d, but %d is free" % (c1, x))
                    return
        for x in (k for k in taken if k >= c0):
            ctx.seen("n", taken[x], min(nseg, 2), cs, bool(app), x - c0 < 3)
    for f in b:
        # (foreign files are not for reading)
        pass
    h.get_all()


def c_case(ctx):
    """Whatever is in the cache, nothing is lost"""
    rng = ctx.rng
    a = core.Archive(ctx, cfg=hist.random_cfg(rng, small=True))
    h = hist.Hist(ctx, a, VARIANTS)
    if not h.random_ops(rng.randrange(1, 7)):
        return
    fn = a.dir + "_.cache"
    for _ in range(4):
        nums = sorted(a.silo_nums())
        hi = max(nums, default=0)
        kind = rng.choice(["none", "empty", "short", "long", "pair", "pair", "pair", "old", "dir", "ro", "text"])
        if os.path.isdir(fn):
            os.rmdir(fn)
        elif os.path.lexists(fn) and kind != "old":
            os.unlink(fn)
        x = lambda: rng.choice([0, 1, 2, hi, hi + 1, hi + 2, hi + 50, 99, 100, 101, 9999, 10000, rng.randrange(60000)])
        if kind == "dir":
            os.mkdir(fn)
        elif kind in ("empty", "short", "long", "pair", "ro", "text"):
            d = {"empty": b"", "short": gen.rbytes(rng, rng.randrange(1, 8)), "text": b"7\n"}.get(
                kind, struct.pack(">II", x(), x()) + (gen.rbytes(rng, 5) if kind == "long" else b""))
            with open(fn, "wb") as f:
                f.write(d)
            if kind == "ro":
                os.chmod(fn, 0o444)
        b = snapshot(a)
        ctx.stats["caches"] += 1
        ctx.seen("c", kind)
        h.log.append("cache is %s %r" % (kind, b.get("_.cache", (0, b""))[1]))
        if not h.random_ops(rng.randrange(1, 4)):
            return
        h.store(n=rng.choice([1, 100, int(a.cfg.maxbytes * 1.4)]))
        if ctx.violations:
            return
        s = snapshot(a)
        ctx.stats["evaluations"] += 1
        for k in b:
            if k.startswith(("index.", "_.cache")):
                continue
            if k not in s or not s[k][1].startswith(b[k][1]):
                h.bad("overwritten", "silo %s was overwritten or lost with cache %s" % (k, kind))
                return
        h.get_all(sample=6)
        if ctx.violations:
            return
    if os.path.isdir(fn):
        os.rmdir(fn)
    m = warc.load(a)
    for k, msg in m.errs:
        h.bad("silo-" + k, msg)
    h.get_all()
    ctx.sample(dict(config=a.cfg.text("DIR/"), history=h.log[:14]))


def d_case(ctx):
    """Many silos next to each other"""
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    cfg.maxsize = "5k"
    a = core.Archive(ctx, cfg=core.Cfg(prefix=cfg.prefix, bits=cfg.bits, maxsize="5k", basename=cfg.basename))
    h = hist.Hist(ctx, a, ["plain", "ubsan"])
    start = rng.choice([0, 0, 30, 9900, 9950, 19980])
    if start:
        with open(a.dir + "_.cache", "wb") as f:
            f.write(struct.pack(">II", start, start))
    while len(a.silo_nums()) < 230:
        if h.store(n=rng.choice([3500, 3500, 120000]), kind="random") is None:
            return
        if rng.random() < .05:
            h.mksilo(start + rng.randrange(260))
    ctx.stats["dense"] += 1
    ctx.stats["evaluations"] += 1
    nums = a.silo_nums()
    for n in range(start, start + len(nums) - 25):
        if n not in nums:
            h.bad("gap", "there is no silo %d" % n)
            return
    for n, p in nums.items():
        if os.path.relpath(p, a.dir) != path(a, n):
            h.bad("place", "silo %d is at %s" % (n, p))
    for dp, dn, fn in os.walk(a.dir):
        if os.path.samefile(dp, a.dir):
            continue
        if len(fn) > 100 or len(dn) > 100 or (fn and dn):
            h.bad("directory", "%s has %d silos and %d directories" % (dp, len(fn), len(dn)))
    ctx.seen("d", start, len(nums) // 100)
    m = warc.load(a)
    for k, msg in m.errs:
        h.bad("silo-" + k, msg)
    h.get_all(sample=60)


def run_case(ctx, case):
    {"p": p_case, "n": n_case, "c": c_case, "d": d_case}[case[0]](ctx)
