"""C08 Housekeeping and lookups"""
import collections
import os
import bisect
import struct

from .. import core, gen, hist, huge, idx

VARIANTS = ["plain", "ubsan"]
AUX_SO = {"fault": "fault.c"}
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: real housekeeping and lookups on synthetic indexes of adversarial key "
    "distributions, compared with a set model; housekeeping and lookups are stopped at every system "
    "call while the other runs")
NOTE = ("Index contents and every lookup are compared exactly. Pre-emption points of housekeeping against "
    "one lookup, and of a lookup against one housekeeping, are enumerated completely for the sizes used; "
    "key sets are sampled.")
RULE = ("appendix, sorted index and leftover snapshot synthesised from a key distribution (uniform, "
    "clustered, equal, extreme, sparse buckets, ...), 0 to 140000 entries, sort sizes from 4096; "
    "lookups of existing and absent prefixes of 0 to 40 digits; sparse sorted indexes of 2^26 to 2^32 "
    "entries; distinct = (distribution, log2 "
    "entries, rounds, leftover, prefix length)")
NEED = {"huge_lookups": 300, "huge_merges": 1, "lookups": 4000, "housekeepings": 150, "preemptions": 150, "entries": 100000}


def cases(tier, seed):
    n = 120 if tier == "quick" else 2500
    return ["b%d" % i for i in range(3 if tier == "quick" else 40)] + \
        ["h%d" % i for i in range(6 if tier == "quick" else 100)] + \
        ["p%d" % i for i in range(16 if tier == "quick" else 200)] + \
        ["r%d" % i for i in range(n)]


def keys(rng, n, dist):
    full = 96
    if dist == "uniform":
        return [rng.getrandbits(full) for _ in range(n)]
    if dist == "clustered":
        c = [rng.getrandbits(full) for _ in range(rng.randrange(1, 5))]
        w = rng.choice([8, 40, 70, 85])
        return [rng.choice(c) ^ rng.getrandbits(w) for _ in range(n)]
    if dist == "equal":
        c = [rng.getrandbits(full) for _ in range(rng.randrange(1, 4))]
        return [rng.choice(c) for _ in range(n)]
    if dist == "extreme":
        return [rng.choice([0, (1 << 96) - 1, 1 << 95, (1 << 95) - 1, rng.getrandbits(20),
            (1 << 96) - 1 - rng.getrandbits(20), 1 << rng.randrange(96)]) for _ in range(n)]
    if dist == "low":
        s = rng.randrange(1, 60)
        return [rng.getrandbits(96 - s) for _ in range(n)]
    if dist == "high":
        s = rng.randrange(1, 60)
        return [((1 << 96) - 1) ^ rng.getrandbits(96 - s) for _ in range(n)]
    if dist == "skew":
        return [int((1 << 96) * (rng.random() ** 8)) for _ in range(n)]
    if dist == "skewhigh":
        return [int((1 << 96) * (1 - rng.random() ** 8)) & ((1 << 96) - 1) for _ in range(n)]
    if dist == "seq":
        b = rng.getrandbits(90)
        st = rng.choice([1, 16, 1 << 40, 1 << 72])
        return [(b + i * st) & ((1 << 96) - 1) for i in range(n)]
    if dist == "holes":
        nib = rng.sample(range(16), 3)
        return [(rng.choice(nib) << 92) | rng.getrandbits(92) for _ in range(n)]
    raise ValueError(dist)


DISTS = ["uniform", "uniform", "clustered", "equal", "extreme", "low", "high", "skew", "skewhigh", "seq", "holes"]


def entries(rng, n, dist, tag):
    out = []
    for i, k in enumerate(keys(rng, n, dist)):
        f = rng.choice([2, 4, 8, 0x34, 0x10, 0x50])
        out.append(("%024x" % k, f, rng.randrange(1 << 32), tag * 10000000 + i,
            "%08x" % (rng.getrandbits(32) if f in (0x34, 0x10) else 0)))
    return out


def packs(es):
    return b"".join(idx.pack(*e) for e in es)


class Lookup(object):
    def __init__(self, ents):
        self.ents = sorted(ents)
        self.keys = [e[0] for e in self.ents]

    def find(self, pfx):
        p = pfx.lower()[:24]
        lo = bisect.bisect_left(self.keys, p)
        hi = bisect.bisect_right(self.keys, p + "g")
        return self.ents[lo:hi]


def read_all(a, h):
    out = []
    for f in ("index.appendix", "index.housekeep"):
        out += idx.read_appendix(a.dir + f)
    srt = idx.read_sorted(a.dir + "index.sorted")
    if srt != sorted(srt):
        h.bad("not-sorted", "index.sorted is not in order")
    return out + srt


def lookups(ctx, h, lk, n, phase):
    """Look up n prefixes, in batches"""
    a, rng = h.a, ctx.rng
    todo = []
    for _ in range(n):
        c = rng.random()
        if lk.keys and c < .75:
            k = rng.choice(lk.keys)
            ln = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 23, 24, 24])
            p = k[:ln]
            if c < .08:
                p = (k + "%020x" % rng.getrandbits(80))[:rng.randrange(25, 45)]
            elif c < .2:
                # a neighbour
                p = "%0*x" % (ln, (int(k[:ln], 16) + rng.choice([-1, 1])) % (16 ** ln))
        else:
            p = "%x" % rng.getrandbits(4 * rng.randrange(1, 28) + 1)
        if len(lk.find(p)) > 3000:
            p = rng.choice(lk.keys)
            if len(lk.find(p)) > 5000:
                continue
        todo.append(p.upper() if rng.random() < .3 else p)
    for i in range(0, len(todo), 12):
        b = todo[i:i + 12]
        exp = []
        for p in b:
            exp += lk.find(p)
        r = a.cmd("dumpindex", *b, variant=h.var())
        if not h.ok(r, "lookup"):
            return
        ctx.stats["lookups"] += len(b)
        got = idx.parse_dump(r.out)
        if set(got) != set(exp):
            for p in b:
                r = a.cmd("dumpindex", p)
                g, e = set(idx.parse_dump(r.out)), set(lk.find(p))
                if g != e:
                    h.bad("lookup", "%s: prefix %s found %d of %d entries: missing %s, extra %s" % (
                        phase, p, len(g & e), len(e), sorted(e - g)[:2], sorted(g - e)[:2]), r)
                    return
            h.bad("lookup-batch", "%s: lookup of %s: %d entries, want %d" % (phase, b, len(got), len(exp)), r)
            return
        for p in b:
            ctx.seen(phase, len(p), min(3, len(lk.find(p))))


def compare(ctx, h, want, phase, exact=True):
    got = collections.Counter(read_all(h.a, h))
    if set(got) != set(want):
        h.bad("entries", "%s: lost %s, invented %s" % (phase,
            sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3]))
        return False
    if exact:
        mult = [e for e in got if got[e] > want[e]]
        if mult:
            h.bad("duplicated", "%s: %s is there %d times, was %d" % (
                phase, mult[0], got[mult[0]], want[mult[0]]))
            return False
    return True


def run_case(ctx, case):
    rng = ctx.rng
    if case[0] == "p":
        return preempt(ctx, case)
    if case[0] == "h":
        return huge_case(ctx, case)
    big = case[0] == "b"
    n = rng.choice([20000, 40000, 70000, 140000]) if big else \
        rng.choice([0, 1, 2, 3, 5, 31, 127, 128, 129, 500, 2000, 5000, 17000])
    ss = None
    while True:
        ss = rng.choice([None, "4096", "4k", "5000", "8k", "64k", "1M", "10M"])
        if n * 32 / core.parse_size(ss or "10M") < 60:
            break
    a = core.Archive(ctx, cfg=core.Cfg(sort_size=ss, bits=rng.choice([None, 64, 96, 256])))
    h = hist.Hist(ctx, a, ["plain"] if n > 20000 else VARIANTS)
    want = collections.Counter()
    for rnd in range(rng.randrange(1, 4)):
        dist = rng.choice(DISTS)
        m = n if rnd == 0 else rng.randrange(n // 4 + 5)
        app = entries(rng, m, dist, rnd)
        if want and rng.random() < .3:
            # reindexing appends what is already there
            app += rng.sample(sorted(want), min(len(want), 200))
        h.log.append("%d entries %s" % (len(app), dist))
        leftover = rng.choice([None, None, None, "separate", "linked", "partial"])
        before = collections.Counter(want)
        want.update(app)
        if leftover == "linked" and app:
            with open(a.dir + "index.appendix", "wb") as f:
                f.write(packs(app))
            os.link(a.dir + "index.appendix", a.dir + "index.housekeep")
        elif leftover in ("separate", "partial"):
            c = rng.randrange(len(app) + 1)
            snap, app2 = app[:c], app[c:]
            if leftover == "partial":
                # an earlier run merged, but did not get to remove it
                with open(a.dir + "index.appendix", "wb") as f:
                    f.write(packs(snap[:len(snap) // 2 + 1]))
                if not h.housekeeping():
                    return
            with open(a.dir + "index.housekeep", "wb") as f:
                f.write(packs(snap))
            with open(a.dir + "index.appendix", "wb") as f:
                f.write(packs(app2))
        elif app or rng.random() < .5:
            with open(a.dir + "index.appendix", "wb") as f:
                f.write(packs(app))
        ctx.stats["entries"] += len(app)
        lk = Lookup(want)
        nl = 20 if big else 24
        lookups(ctx, h, lk, nl, "before")
        if not h.housekeeping():
            return
        for f in ("index.appendix", "index.housekeep", "index.hold"):
            if os.path.exists(a.dir + f):
                h.bad("left-" + f, "%s exists after housekeeping" % f)
        if not compare(ctx, h, want, "after housekeeping", exact=(leftover is None)):
            return
        if rng.random() < .3:
            if not h.housekeeping() or not compare(ctx, h, want, "after second housekeeping", False):
                return
        lookups(ctx, h, lk, nl, "after")
        if not big and rng.random() < .3:
            r = a.cmd("dumpindex")
            if set(idx.parse_dump(r.out)) != set(want):
                h.bad("dump-all", "dumpindex does not show everything", r)
        ctx.seen(dist, len(app).bit_length(), rnd, leftover, ss)
        ctx.stats["evaluations"] += 1
        if ctx.violations:
            return
    ctx.sample(dict(sort_size=ss, rounds=h.log[:6]))


def huge_index(fn, ents, n):
    """An index.sorted of n entries: a hole of zero entries, and then ents, in
    the format of the comment in index.c"""
    bb = 14
    while (1 << bb) < n:
        bb += 1
    bb -= 12
    bk = {}
    for i, e in enumerate(ents):
        rec = idx.pack(*e)
        f = int.from_bytes(rec[:8], "big")
        b, u = f >> (64 - bb), ((f >> 40) * n) >> 24
        o = n - len(ents) + i - u
        bk[b] = min(bk.get(b, 1 << 31), o)
    bk[0] = (0x4161 << 48) | (bb << 40) | n
    empty = struct.pack(">q", 1 << 31)
    with huge.NoFsize(), open(fn, "wb") as f:
        f.write(empty * (1 << bb))
        for b, o in bk.items():
            f.seek(b * 8)
            f.write(struct.pack(">q", o))
        f.seek((8 << bb) + (n - len(ents)) * 32)
        f.write(packs(ents))
    return bb


def huge_case(ctx, case):
    """An index.sorted of gigabytes: nearly all of it is a hole"""
    rng = ctx.rng
    merge = case == "h0" or (case[1:].endswith("0"))
    if merge:
        n = (1 << 26) + rng.randrange(1000)
    else:
        n = (1 << rng.randrange(26, 33)) + rng.choice([-1, 0, 1, rng.randrange(1 << 25)])
    a = core.Archive(ctx, cfg=core.Cfg(maxsize="1M", bits=rng.choice([64, 96, 256])))
    h = hist.Hist(ctx, a)
    # Real objects as well.  A lookup in an empty bucket reads everything before it, so their entries
    # must be at the end too, and likewise those further down than 2^31 from where the key points
    real, syn, app = [], [], []
    low = 1 << 94
    if n < 1 << 31:
        for _ in range(3):
            d = gen.exact(rng, rng.randrange(10, 3000))
            real.append((h.store(data=d), d))
            if ctx.violations:
                return
        syn = idx.read_appendix(a.dir + "index.appendix")
        os.unlink(a.dir + "index.appendix")
    else:
        low = ((n - (1 << 31) + 10000000) << 96) // n
    for i in range(rng.randrange(100, 3000)):
        k = rng.randrange(low, 1 << 96)
        for j in range(rng.choice([1, 1, 1, 2, 5])):
            syn.append(("%024x" % (k ^ rng.getrandbits(rng.choice([8, 40, 60]))), rng.choice([2, 4, 8]),
                rng.randrange(1 << 32), i * 10 + j, "00000000"))
    if merge:
        c = rng.randrange(1, len(syn) - 50)
        syn, app = syn[:-c], syn[len(syn) - c:]
    syn.sort(key=lambda e: idx.pack(*e))
    bb = huge_index(a.dir + "index.sorted", syn, n)
    if merge:
        with open(a.dir + "index.appendix", "wb") as f:
            f.write(packs(app))
    allv = set(syn + app)
    lk = Lookup(allv)
    lks = [e[0] for e in syn]

    def look(phase, num):
        todo = []
        for _ in range(num):
            k = rng.choice(lks)
            ln = rng.choice([8, 9, 12, 16, 24])
            p = k[:ln]
            if ln > 9 and rng.random() < .3:
                p = k[:9] + "%0*x" % (ln - 9, rng.getrandbits(4 * (ln - 9)))
            todo.append(p)
        for i in range(0, num, 10):
            b = todo[i:i + 10]
            with huge.NoFsize():
                r = a.cmd("dumpindex", *b)
            if not h.ok(r, "lookup in an index of %d entries" % n):
                return False
            ctx.stats["lookups"] += len(b)
            ctx.stats["huge_lookups"] += len(b)
            want = set()
            for p in b:
                want |= set(lk.find(p))
            got = set(idx.parse_dump(r.out))
            if got != want:
                h.bad("huge-lookup", "%s: %d entries, lookup of %s: missing %s, extra %s" % (
                    phase, n, b, sorted(want - got)[:2], sorted(got - want)[:2]), r)
                return False
        for rid, d in real:
            r = a.cmd("get", rid)
            if r.rc != 0 or r.out != d:
                h.bad("huge-get", "%s: %d entries, get %s fails" % (phase, n, rid), r)
                return False
        ctx.seen("huge", phase, n.bit_length(), bb)
        return True
    if not look("huge", 60):
        return
    if merge:
        with huge.NoFsize():
            r = a.cmd("housekeeping", timeout=300)
        if not h.ok(r, "housekeeping of an index of %d entries" % n):
            return
        ctx.stats["housekeepings"] += 1
        ctx.stats["huge_merges"] += 1
        if os.path.exists(a.dir + "index.appendix"):
            h.bad("left-appendix", "index.appendix exists after housekeeping")
        with open(a.dir + "index.sorted", "rb") as f:
            f.seek(0, 2)
            f.seek(f.tell() - 32 * len(allv))
            tail = [idx.unpack(f.read(32)) for _ in allv]
        if tail != sorted(allv):
            h.bad("huge-merge", "after housekeeping of %d and %d entries the sorted index does not "
                "end with the entries" % (n, len(app)))
            return
        lks[:] = [e[0] for e in allv]
        if not look("merged", 60):
            return
    ctx.stats["evaluations"] += 1
    a.destroy()


def preempt(ctx, case):
    """Stop housekeeping at every operation and look things up; and vice versa"""
    rng = ctx.rng
    n = rng.choice([1, 5, 100, 300])
    a0 = core.Archive(ctx, "base", cfg=core.Cfg(sort_size=rng.choice(["4096", "64k"])))
    h0 = hist.Hist(ctx, a0)
    old = entries(rng, rng.choice([0, 1, 50]), rng.choice(DISTS), 1)
    new = entries(rng, n, rng.choice(DISTS), 2)
    if old:
        open(a0.dir + "index.appendix", "wb").write(packs(old))
        if not h0.housekeeping():
            return
    open(a0.dir + "index.appendix", "wb").write(packs(new))
    if rng.random() < .3:
        c = len(new) // 2
        open(a0.dir + "index.housekeep", "wb").write(packs(new[:c]))
        open(a0.dir + "index.appendix", "wb").write(packs(new[c:]))
    want = set(old) | set(new)
    key = rng.choice(new)[0]
    for direction in ("hk", "lookup"):
        for k in range(1, 400):
            a = a0.clone("p")
            h = hist.Hist(ctx, a)
            env = core.fault_env(ctx, a.root, k, "stop")
            if direction == "hk":
                j = core.Job(a.argv("housekeeping"), env=env, dir=ctx.dir)
            else:
                j = core.Job(a.argv("dumpindex"), env=env, dir=ctx.dir)
            stopped = j.wait_stopped()
            if stopped:
                ctx.stats["preemptions"] += 1
                if direction == "hk":
                    r = a.cmd("dumpindex")
                    r2 = a.cmd("dumpindex", key)
                    hk2 = a.cmd("housekeeping") if rng.random() < .2 else None
                    if hk2 is not None and hk2.rc != 0:
                        h.bad("second-hk", "housekeeping while another one runs failed", hk2)
                else:
                    r = a.cmd("housekeeping")
                    r2 = None
                j.cont()
            jr = j.finish()
            if not h.ok(jr, direction):
                return
            if stopped:
                if not h.ok(r, "other command"):
                    return
                out = r.out if direction == "hk" else jr.out
                miss = want - set(idx.parse_dump(out))
                extra = set(idx.parse_dump(out)) - want
                if miss or extra:
                    h.bad("during", "%s stopped at operation %d: lookup missed %s, invented %s" % (
                        direction, k, sorted(miss)[:2], sorted(extra)[:2]))
                    return
                if r2 is not None and not {e for e in want if e[0] == key} <= set(idx.parse_dump(r2.out)):
                    h.bad("during-key", "housekeeping stopped at operation %d: lookup of %s found %r" % (
                        k, key, r2.out))
                    return
                if direction == "hk":
                    if not compare(ctx, h, collections.Counter(want), "after", False):
                        return
            ctx.seen("preempt", direction, k, n)
            ctx.stats["evaluations"] += 1
            a.destroy()
            if not stopped:
                break
