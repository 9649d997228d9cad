"""C28 Silos are filled before new ones are begun"""
import os

from .. import core, gen, hist, warc

VARIANTS = ["plain", "o2", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the sizes of all silos before and after every store are compared with a first-fit "
    "model of where the record has to go")
NOTE = ("Every single store of each history is judged; a record which went to a new silo is measured as it would have "
    "been appended, to within a few bytes.  Bounded by the histories and silo sizes generated.")
RULE = ("histories of stores of all sizes up to that of a silo, metadata, housekeeping, mksilo beyond gaps, lost cache; "
    "distinct = (where the record went, silos passed over, size class)")
NEED = {"appended": 4000, "new_silos": 1000, "passed_over": 15000, "tight_fits": 400, "exact_fits": 25}

# Headers are serialised once more for appending; the monitor does so itself, with some slack
SLACK = 16


def cases(tier, seed):
    n = 400 if tier == "quick" else 3000
    return range(n)


def sizes(a):
    return {n: os.path.getsize(a.silo_path(n)) for n in a.silo_nums()}


def as_appended(a, n):
    """How much the record behind the warcinfo of the new silo n would have grown another one"""
    b = open(a.silo_path(n), "rb").read()
    recs = warc.parse_silo(b, a.cfg.prefix)
    if len(recs) != 2:
        return None
    r = recs[1]
    if r.segno is not None:
        return 0
    pairs = [(k, v) for k, v in r.fields if k != "z"]
    return len(warc.member(warc.header_bytes(pairs), 9)) + r.body_len + len(warc.CRLFCRLF_GZ)


def candidates(before):
    """Those a store looks at: all up to the first number which is not in use"""
    n = 0
    while n in before:
        yield n
        n += 1


def judge(ctx, h, before, after):
    """One object has been stored"""
    a = h.a
    grown = [n for n in before if after.get(n) != before[n]]
    new = [n for n in after if n not in before]
    ctx.stats["evaluations"] += 1
    if len(grown) + len(new) == 0:
        return False
    if len(grown) + len(new) > 1:
        ctx.stats["segmented"] += 1
        return True
    if grown:
        need = after[grown[0]] - before[grown[0]]
        slack = 0
        upto = grown[0]
        ctx.stats["appended"] += 1
    else:
        need = as_appended(a, new[0])
        if not need:
            ctx.stats["segmented"] += 1
            return True
        slack = SLACK
        upto = new[0]
        ctx.stats["new_silos"] += 1
    passed = 0
    for n in candidates(before):
        if n >= upto:
            break
        free = a.cfg.maxbytes - before[n]
        if free >= need + slack and free >= len(before) + 1:
            h.bad("room-passed-over", "a record of %d bytes went to %s %d, but silo %d has room for %d" %
                (need, "silo" if grown else "the new silo", upto, n, free), before=before, after=after)
            return True
        passed += 1
        if abs(free - need) < 10:
            ctx.stats["tight_fits"] += 1
    if grown and a.cfg.maxbytes - after[upto] < 10:
        ctx.stats["tight_fits"] += 1
        if a.cfg.maxbytes == after[upto]:
            ctx.stats["exact_fits"] += 1
    ctx.stats["passed_over"] += passed
    ctx.seen("new" if new else "old", min(passed, 6), need * 8 // a.cfg.maxbytes)
    return True


def one(ctx, h, before):
    """Store something"""
    rng = ctx.rng
    a = h.a
    room = [a.cfg.maxbytes - before[n] for n in candidates(before)]
    c = rng.random()
    over = h.__dict__.setdefault("over", {})
    meta = bool(h.order) and rng.random() < .2
    if room and c < .6:
        # as much as still fits, more or less
        free = rng.choice(room)
        o = over.get((meta, n9(free)), over.get((meta, 0), 360))
        n = max(1, free - o + rng.choice([0, 0, 0, 0, 0, 0, 1, -1, 2, -2, 3, -3, 10, -10, -100, -2000]))
    elif c < .9:
        n = int(a.cfg.maxbytes * rng.choice([.02, .1, .3, .5, .8]) * rng.uniform(.5, 1.1))
    else:
        n = rng.randrange(1, 200)
    n = max(1, n)
    data = gen.rbytes(rng, n)
    rid = h.metadata(data=data) if meta else h.store(data=data)
    after = sizes(a)
    for k in after:
        if k in before and after[k] > before[k]:
            # what it takes besides the data
            over[meta, n9(n)] = over[meta, 0] = after[k] - before[k] - n
    return rid


def n9(n):
    return len(str(n)) * 10 + n // 32768


def run_case(ctx, case):
    rng = ctx.rng
    cfg = hist.random_cfg(rng, sizes=["5k", "6000", "7k", "9k", "12345", "15k", "20k", "33k", "64k", "129k", "200k"])
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    n = rng.randrange(15, 50)
    for _ in range(n):
        c = rng.random()
        if c < .06:
            if not h.housekeeping():
                return
        elif c < .1:
            k = max(a.silo_nums(), default=-1) + rng.randrange(1, 4)
            if not h.mksilo(k):
                return
        elif c < .14:
            for f in os.listdir(a.dir):
                if f == "_.cache":
                    os.unlink(a.dir + f)
        before = sizes(a)
        if one(ctx, h, before) is None:
            return
        judge(ctx, h, before, sizes(a))
        if ctx.violations:
            return
    h.get_all(sample=3)
    a.destroy()
