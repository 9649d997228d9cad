"""C13 A crash at any point loses nothing acknowledged"""
import os
import random

from .. import core, gen, hist, idx, warc
from . import c07, c10
from .c12 import Cmd, base, clone

VARIANTS = ["plain", "ubsan"]
AUX_SO = {"fault": "fault.c"}
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring with fault injection: a preloaded library kills the real program at every one of "
    "its file operations in turn, and in the middle of writes; monitors compare silos, index and every answer with "
    "what had been acknowledged, then drive store, housekeeping, audit and reindex over what is left")
NOTE = ("Every file operation of each kind of command is a kill point; writes to silos are also torn at sampled "
    "places. Writes of index entries (32 aligned bytes) and kernel/power failures are not torn.")
RULE = ("kinds of command x every kill point, torn writes, histories with repeated crashes, and crashes among "
    "concurrent commands; distinct = (command, operation, file, torn)")
NEED = {"kills": 500, "torn": 60, "recoveries": 600, "restored": 300, "reindexed": 300}

KINDS = ["small", "big", "seg", "meta", "metaseg", "mksilo", "hk", "same", "dup", "reindex"]


def cases(tier, seed):
    n = 2 if tier == "quick" else 60
    return ["k:%s:%d" % (k, i) for i in range(n) for k in KINDS + ["seg", "small"][:2 * (i == 0)]] + \
        ["x:%s:%d" % (k, i) for i in range(n) for k in ("small", "seg", "hk", "big", "meta")] + \
        ["h%d" % i for i in range(40 if tier == "quick" else 2000)] + \
        ["m%d" % i for i in range(40 if tier == "quick" else 2000)]


class Crash(Cmd):
    """A command which may die"""

    def __init__(self, kind, h, shared, rng=None):
        if kind == "dup":
            Cmd.__init__(self, "small", h, shared, rng)
            self.kind = "dup"
            self.data = h.objs[shared["seg"]]["data"]
            self.rid = shared["seg"]
            self.stdin = self.data
            self.obj = h.objs[self.rid]
        elif kind == "reindex":
            Cmd.__init__(self, "hk", h, shared, rng)
            self.kind = kind
            self.args = ["reindex"]
            for f in ("index.appendix", "index.sorted"):
                if os.path.exists(h.a.dir + f):
                    os.unlink(h.a.dir + f)
        else:
            Cmd.__init__(self, kind, h, shared, rng)


def read_index(a):
    return [(f, e) for f in ("index.appendix", "index.housekeep", "index.sorted")
        for e in (idx.read_sorted if f == "index.sorted" else idx.read_appendix)(a.dir + f)]


def parse_prefix(buf, prefix):
    """All complete records at the start of a silo; -> ([Record], rest?)"""
    try:
        return warc.parse_silo(buf, prefix), False
    except warc.WarcError:
        pass
    # Find the longest prefix which is whole
    recs = []
    off = 0
    while off < len(buf):
        try:
            d, n = warc.gunzip_member(buf, off)
            d, n2 = warc.gunzip_member(buf, off + n)
            end = off + n + n2 + 24
            if buf[end - 24:end] != warc.CRLFCRLF_GZ:
                break
            r = warc.parse_silo(buf[off:end], prefix)[0]
        except warc.WarcError:
            break
        r.off, r.end = off, end
        r.body_off = off + n
        recs.append(r)
        off = end
    return recs, True


def load(a):
    """Like warc.load(), but accept what a crash may leave behind"""
    m = warc.Model()
    m.prefix = a.cfg.prefix
    m.torn = []
    m.bytes = {}
    for n, p in sorted(a.silo_nums().items()):
        buf = open(p, "rb").read()
        m.bytes[n] = buf
        recs, torn = parse_prefix(buf, a.cfg.prefix)
        m.silos[n] = recs
        m.sizes[n] = len(buf)
        if torn:
            m.torn.append(n)
        if len(buf) > a.cfg.maxbytes:
            m.errs.append(("oversize", "silo %d is %d bytes" % (n, len(buf))))
        for r in recs:
            warc.check_record(r, a.cfg, m.errs, "silo %d" % n)
    return m


def strip(e):
    return e[:4] if e[1] & idx.F_SEGMENTED else e


def recover(ctx, h, crashed, m0, exp0, sched, may_tear=False):
    """Examine what the crash left, and go on from there"""
    a = h.a
    rng = ctx.rng
    if [c.kind for c in crashed] == ["reindex"]:
        # Start over
        if rng.random() < .5:
            for f in ("index.appendix", "index.sorted", "index.housekeep"):
                if os.path.exists(a.dir + f):
                    os.unlink(a.dir + f)
        if not h.ok(a.cmd("reindex", variant=h.var()), "reindex"):
            ctx.violations[-1]["msg"] += " after [%s]" % sched
            return False
    ctx.stats["recoveries"] += 1
    ctx.stats["evaluations"] += 1

    def bad(sig, msg, r=None):
        h.bad(sig, "%s after [%s]" % (msg, sched), r)

    def ok(r, what):
        if r.rc != 0 or r.crashed:
            bad("after:" + what, "%s fails" % what, r)
            return False
        return True

    m = load(a)
    for k, msg in m.errs:
        bad("silo-" + k, msg)
    if m.torn and not may_tear:
        bad("torn", "silos %s contain something incomplete" % m.torn)
    for n, b in m0.bytes.items():
        if m.bytes.get(n, b"")[:len(b)] != b:
            bad("silo-changed", "silo %d lost something" % n)
    if ctx.violations:
        return False
    # Everything in the index points to a complete record
    have = set(strip(e) for e in idx.expected_any(m))
    ents = read_index(a)
    for f, e in ents:
        if strip(e) not in have and strip(e)[:4] not in have:
            bad("dangling", "%s has an entry %s, where there is no such complete record" % (f, e))
            return False
    inidx = set(strip(e) for f, e in ents)
    miss = [e for e in exp0 if strip(e) not in inidx]
    if miss:
        bad("lost-entry", "the index lost %s" % miss[:3])
        return False
    # What was there is still there
    r = a.cmd("dumpindex", variant=h.var())
    if not ok(r, "dumpindex"):
        return False
    if not set(strip(e) for e in exp0) <= set(strip(e) for e in idx.parse_dump(r.out)):
        bad("after:dumpindex", "dumpindex does not show everything which is in the index", r)
        return False
    for rid in rng.sample(h.order, min(2, len(h.order))):
        if not h.get(rid):
            ctx.violations[-1]["msg"] += " after [%s]" % sched
            return False
    # What was being stored is there or not
    for c in crashed:
        if c.rid is None:
            continue
        r = a.cmd("get", "-q", c.rid, variant=h.var())
        if r.hung or r.crashed:
            bad("after:get", "get of the object being stored", r)
        elif r.rc == 0:
            ctx.stats["survived"] += 1
            if r.out != c.data:
                bad("after:get-content", "object being stored is delivered wrong", r)
        if ctx.violations:
            return False
    torn = bool(m.torn)

    # Carry on
    def st_audit():
        r = a.cmd("audit", variant=h.var())
        if ok(r, "audit") and not torn and not orphans(load(a)) and not dups(load(a)) and c10.reported(r):
            bad("audit", "audit reports errors", r)

    def st_hk():
        r = a.cmd("housekeeping", variant=h.var())
        if not ok(r, "housekeeping"):
            return
        left = [f for f, e in read_index(a) if f != "index.sorted"]
        if left:
            bad("after:hk-nothing-done", "housekeeping did not do its job, %d entries left in %s" % (len(left), left[0]), r)
        ctx.stats["housekept"] += 1

    def st_restore():
        for c in crashed:
            if c.rid is None:
                continue
            r = core.run(c.h.a.argv(*c.args, variant=h.var()), stdin=c.stdin)
            if not ok(r, "restore"):
                return
            if r.out != a.uri(c.rid).encode() + b"\n":
                bad("after:restore", "storing again printed %r" % r.out, r)
            ctx.stats["restored"] += 1
            h.objs[c.rid] = c.obj
            if c.rid not in h.order:
                h.order.append(c.rid)
            if not h.get(c.rid):
                ctx.violations[-1]["msg"] += " stored again after [%s]" % sched
                return

    def st_store():
        n = rng.choice([rng.randrange(1, 600), int(a.cfg.maxbytes * .7), int(a.cfg.maxbytes * 1.5)])
        h.store(data=gen.rbytes(rng, n))

    def st_mksilo():
        n = max(m.silos) + rng.randrange(20, 40)
        if rng.random() < .5:
            r = a.cmd("mksilo", str(n), variant=h.var())
            if ok(r, "mksilo") and not os.path.exists(a.silo_path(n)):
                bad("after:mksilo", "mksilo did not make silo %d" % n, r)

    def st_reindex():
        b = a.clone("r%d" % ctx.uniq())
        for f in ("index.appendix", "index.sorted", "index.housekeep"):
            if os.path.exists(b.dir + f):
                os.unlink(b.dir + f)
        r = b.cmd("reindex", variant=h.var())
        ctx.stats["reindexed"] += 1
        if r.crashed or r.hung or (r.rc != 0 and not torn):
            bad("after:reindex", "reindex fails", r)
            return
        if torn and r.rc == 0:
            bad("after:reindex-torn", "reindex does not report an incomplete record", r)
            return
        mm = load(b)
        x, y = c07.diff([strip(e)[:4] for f, e in read_index(b)], [strip(e)[:4] for e in idx.expected_any(mm)])
        if x or y:
            bad("after:reindex-index", "reindex lists %s too much, %s too little" % (x, y), r)
            return
        keep, h.a = h.a, b
        try:
            for rid in rng.sample(h.order, min(3, len(h.order))):
                if not h.get(rid):
                    break
            for c in crashed:
                if c.rid is None or ctx.violations:
                    continue
                r = core.run(b.argv(*c.args, variant=h.var()), stdin=c.stdin)
                if not ok(r, "restore"):
                    break
                h.objs[c.rid] = c.obj
                if not h.get(c.rid):
                    break
                if c.rid not in h.order:
                    del h.objs[c.rid]
            if ctx.violations:
                ctx.violations[-1]["msg"] += " after reindex after [%s]" % sched
        finally:
            h.a = keep
        b.destroy()

    steps = [st_audit, st_hk, st_restore, st_store, st_mksilo, st_reindex]
    rng.shuffle(steps)
    for s in steps:
        s()
        if ctx.violations:
            return False
    # At last
    mm = load(a)
    for k, msg in mm.errs:
        bad("silo-" + k, msg)
    if sorted(mm.torn) != sorted(m.torn):
        bad("torn", "silos %s contain something incomplete" % mm.torn)
    h.get_all("quiet", sample=6)
    return not ctx.violations


def orphans(m):
    s = set()
    firsts = set("<%s%s>" % (m.prefix, r.id) for n, r in m.records() if r.segno == 1)
    return [r for n, r in m.records() if (r.segno or 0) > 1 and r.get("WARC-Segment-Origin-ID") not in firsts]


def dups(m):
    s = [(r.get("WARC-Segment-Origin-ID") or r.id, r.segno) for n, r in m.records() if r.segno is not None]
    return len(s) != len(set(s))


def realistic(op, act):
    return act != "torn" or op.klass() in ("silo", ".hold", "index.tmp", "_.cache")


def snapshot(a):
    m0 = load(a)
    return m0, [e for f, e in read_index(a)]


def run_case(ctx, case):
    rng = ctx.rng
    x = base(ctx)
    if x is None:
        return
    h0, shared = x
    if case[0] in "kx":
        points(ctx, case, h0, shared)
    elif case[0] == "h":
        history(ctx, h0, shared)
    else:
        multi(ctx, h0, shared)


def points(ctx, case, h0, shared):
    rng = ctx.rng
    mode, kind, _ = case.split(":")
    log = ctx.dir + "/oplog"
    h = clone(h0, "w")
    crs = rng.random()
    c = Crash(kind, h, shared, random.Random(crs))
    r = c.start(core.fault_env(ctx, h.a.root, log=log)).finish()
    ops = core.read_oplog(log)
    h.a.destroy()
    if r.rc != 0 and not c.may_fail:
        h0.bad("fail:" + kind, "alone", r)
        return
    first = next((i for i, o in enumerate(ops) if o.klass() != ".conf"), 0)
    todo = []
    if mode == "k":
        todo = [(k, "kill", None) for k in range(first + 1, len(ops) + 1)] + [(len(ops), "kill_after", None)]
    else:
        for k in range(first + 1, len(ops) + 1):
            o = ops[k - 1]
            if o.op in ("write", "writev", "pwrite") and o.klass() in ("silo", ".hold", "index.tmp", "_.cache"):
                for f in sorted(set([1, 500, 990, rng.randrange(1000)])):
                    todo.append((k, "torn", f))
            elif o.op == "writev":
                todo.append((k, "torn", 500))
    if kind == "reindex" and ctx.tier == "quick":
        todo = rng.sample(todo, min(60, len(todo)))
    for k, act, frac in todo:
        op = ops[k - 1]
        h = clone(h0, "w")
        c = Crash(kind, h, shared, random.Random(crs))
        m0, exp0 = snapshot(h.a)
        sched = "%s %s at operation %s%s" % (kind, act, op, " %d/1000" % frac if frac is not None else "")
        r = c.start(core.fault_env(ctx, h.a.root, at=k, act=act, frac=frac, log=log)).finish()
        hit = [o for o in core.read_oplog(log) if o.fault]
        if hit and not realistic(hit[0], act):
            h.a.destroy()
            continue
        if hit:
            ctx.stats["kills" if act != "torn" else "torn"] += 1
            ctx.seen(kind, hit[0].op, hit[0].klass(), act, frac)
        if not hit and r.rc != 0:
            h.bad("fail:" + kind, "not killed", r)
        # Printed means acknowledged
        if c.rid and r.out == h.a.uri(c.rid).encode() + b"\n":
            h.objs[c.rid] = c.obj
            h.order.append(c.rid)
        if not ctx.violations:
            recover(ctx, h, [c], m0, exp0, sched, may_tear=act == "torn")
        h.a.destroy()
        if ctx.violations:
            return
    ctx.sample(dict(command=kind, points=len(todo), operations=[repr(o) for o in ops[first:first + 40]]))


def history(ctx, h, shared):
    """Crash again and again"""
    rng = ctx.rng
    log = ctx.dir + "/oplog"
    scheds = []
    tear = False
    for i in range(5):
        m0, exp0 = snapshot(h.a)
        kind = rng.choice([k for k in KINDS if k != "reindex"])
        c = Crash(kind, h, dict(shared, next=max(m0.silos) + rng.randrange(1, 4)))
        act = rng.choice(["kill", "kill", "kill_after", "torn"])
        k = rng.randrange(5, {"hk": 28, "mksilo": 30}.get(kind, 62))
        env = core.fault_env(ctx, h.a.root, at=k, act=act, log=log,
            frac=rng.randrange(1000), only="write,writev,pwrite" if act == "torn" else None)
        r = c.start(env).finish()
        hit = [o for o in core.read_oplog(log) if o.fault]
        if hit and not realistic(hit[0], act):
            return
        if hit:
            ctx.stats["torn" if act == "torn" else "kills"] += 1
            tear = tear or act == "torn"
            ctx.seen("h", kind, hit[0].op, hit[0].klass(), act)
        elif r.rc != 0 and not c.may_fail:
            h.bad("fail:" + kind, "not killed", r)
        if c.rid and r.out == h.a.uri(c.rid).encode() + b"\n":
            h.objs[c.rid] = c.obj
            if c.rid not in h.order:
                h.order.append(c.rid)
        scheds.append("%s %s at %s" % (kind, act, hit[:1]))
        if ctx.violations or not recover(ctx, h, [c], m0, exp0, "; ".join(scheds), may_tear=tear):
            return
    ctx.sample(dict(crashes=scheds))


def multi(ctx, h, shared):
    """Some of several concurrent commands die"""
    rng = ctx.rng
    for rnd in range(3):
        m0, exp0 = snapshot(h.a)
        shared = dict(shared, next=max(m0.silos) + rng.randrange(1, 4))
        n = rng.randrange(2, 6)
        kinds = [rng.choice(["small", "big", "seg", "meta", "metaseg", "mksilo", "hk", "small", "seg"]) for _ in range(n)]
        cs = [Crash(k, h, shared) for k in kinds]
        js = []
        die = []
        for c in cs:
            kw = {}
            die.append(rng.random() < .6)
            if die[-1]:
                kw = dict(at=rng.randrange(5, 26 if c.kind == "hk" else 60), act=rng.choice(["kill", "kill_after"]))
            js.append(c.start(core.fault_env(ctx, h.a.root, delay="%d:%d:%d" % (
                rng.getrandbits(30), rng.choice([20, 100, 300]), rng.choice([100, 1000])), **kw)))
        rs = [j.finish() for j in js]
        dead = []
        sched = "concurrently: " + " ".join(k + ("(dies)" if d else "") for k, d in zip(kinds, die))
        for c, r, d in zip(cs, rs, die):
            if c.rid and r.out == h.a.uri(c.rid).encode() + b"\n":
                h.objs[c.rid] = c.obj
                if c.rid not in h.order:
                    h.order.append(c.rid)
            if d and r.rc == -9:
                ctx.stats["kills"] += 1
                ctx.seen("m", c.kind, tuple(sorted(kinds)))
                dead.append(c)
            elif (r.rc != 0 and not c.may_fail) or (r.crashed and r.rc != -9) or r.hung:
                h.bad("fail:" + c.kind, "fails because others died: " + sched, r)
        if ctx.violations or not recover(ctx, h, dead, m0, exp0, sched):
            return
    ctx.sample(dict(commands=sched))
