"""C14 I/O errors are reported, never swallowed"""
import errno
import os
import random
import re
import shutil

from .. import core, gen, hist, huge, idx, warc
from . import c07, c10, c13
from .c12 import base, clone
from .c13 import Crash

VARIANTS = ["plain", "ubsan"]
AUX_SO = {"fault": "fault.c"}
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring with fault injection: a preloaded library makes every file operation of each command "
    "fail in turn, or transfer less than asked, once or from then on; monitors decide whether a command which "
    "reported success did all of its job, and whether everything stored before is still retrievable")
NOTE = ("Every file operation of each kind of command is a fault point, with errors sampled from those which that "
    "system call can return; lseek(2) does not fail.")
RULE = ("20 kinds of commands x every operation x (error, short transfer, sticky error); distinct = (command, "
    "operation, file, fault, outcome)")
NEED = {"big_faults": 1, "faults": 1000, "reported": 400, "coped": 200, "short": 200, "sticky": 200}

WR = ["small", "big", "seg", "meta", "metaseg", "mksilo", "hk", "dup", "reindex"]
RD = ["get", "getseg", "getz", "geto", "byid", "dumpindex", "cgi", "cgiseg", "filter", "filterfile", "audit", "rebuild"]


def cases(tier, seed):
    n = 1 if tier == "quick" else 40
    return ["big:%d" % i for i in range(n)] + ["%s:%s:%d" % (m, k, i) for i in range(n) for k in WR + RD for m in ("e", "s", "t")] + \
        ["i:%s:%d" % (k, i) for i in range(n) for k in ("small", "seg", "meta", "filter")]

ERR = {
    "open": [errno.EIO, errno.EMFILE, errno.EACCES],
    "opencreat": [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EROFS],
    "create": [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EROFS],
    "read": [errno.EIO], "pread": [errno.EIO],
    "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG],
    "writev": [errno.ENOSPC, errno.EIO, errno.EDQUOT],
    "pwrite": [errno.ENOSPC, errno.EIO],
    "close": [errno.EIO, errno.ENOSPC],
    "link": [errno.ENOSPC, errno.EIO, errno.EMLINK, errno.EROFS],
    "rename": [errno.ENOSPC, errno.EIO, errno.EROFS],
    "unlink": [errno.EIO, errno.EROFS],
    "mkdir": [errno.ENOSPC, errno.EACCES, errno.EMLINK],
    "stat": [errno.EIO, errno.EACCES], "lstat": [errno.EIO], "fstat": [errno.EIO],
    "access": [errno.EIO, errno.EACCES],
    "mmap": [errno.ENOMEM],
    "flock": [errno.EIO, errno.ENOLCK],
    "ftruncate": [errno.EIO],
    "fsync": [errno.EIO],
    "chmod": [errno.EIO],
}
XFER = ("read", "pread", "write", "pwrite", "writev")


class Faulty(Crash):
    def __init__(self, kind, h, shared, rng=None):
        a = h.a
        if kind in ("geto", "cgiseg", "filterfile", "audit", "rebuild"):
            Crash.__init__(self, {"geto": "getseg", "cgiseg": "cgi", "filterfile": "filter"}.get(kind, "get"),
                h, shared, rng)
            self.kind = kind
            if kind == "geto":
                self.out = a.root + "/out"
                self.args = ["get", "-o", self.out, self.target]
            elif kind == "cgiseg":
                self.target = shared["seg"]
                self.tdata = h.objs[self.target]["data"]
                self.env["PATH_INFO"] = "/" + a.uri(self.target)
            elif kind == "filterfile":
                fn = a.root + "/list"
                open(fn, "wb").write(self.stdin)
                self.stdin = b""
                self.args = ["filter", fn]
            elif kind == "audit":
                self.args = ["audit"]
            elif kind == "rebuild":
                self.m = warc.load(a)
                self.n = self.rng.choice(sorted(self.m.silos))
                src = a.root + "/original"
                shutil.copyfile(a.silo_path(self.n), src)
                self.out = src + "_"
                self.args = ["rebuild", src]
        else:
            Crash.__init__(self, kind, h, shared, rng)

    def done(self, r):
        """Exit status zero: has it done its job? -> None or what is missing"""
        h, k = self.h, self.kind
        a = h.a
        if self.rid is not None:
            if r.out != (a.uri(self.rid) + "\n").encode():
                return "printed %r" % r.out
            g = a.cmd("get", "-q", self.rid)
            if g.rc != 0 or g.out != self.data:
                return "object %s is not there: %s" % (self.rid, g.brief())
            return None
        if k == "mksilo":
            if not os.path.exists(a.silo_path(self.n)):
                return "silo does not exist"
            m = warc.load(a)
            e = [x for x in idx.expected(m) if x[2] == self.n]
            got = [y for _, y in c13.read_index(a)]
            if not all(x in got for x in e):
                return "silo is not in the index"
            return None
        if k == "hk":
            left = [f for f, e in c13.read_index(a) if f != "index.sorted"]
            return "%d entries remain in %s" % (len(left), left[0]) if left else None
        if k == "reindex":
            x, y = c07.diff([e for f, e in c13.read_index(a)], idx.expected(warc.load(a)))
            return "index has %s too much, lacks %s" % (x, y) if x or y else None
        if k in ("get", "getseg"):
            return None if r.out == self.tdata else "wrong data"
        if k == "getz":
            try:
                return None if hist.decompress_all(r.out) == self.tdata else "wrong data"
            except Exception as e:
                return "not a gzip: %s" % e
        if k == "geto":
            if not os.path.exists(self.out) or open(self.out, "rb").read() != self.tdata:
                return "wrong data in file"
            return None
        if k in ("filter", "filterfile"):
            return None if r.out == self.expect else "wrong answer"
        if k == "dumpindex":
            return None if self.entries == set(idx.parse_dump(r.out)) else "incomplete"
        if k in ("cgi", "cgiseg"):
            hd, s, body = r.out.partition(b"\n\n")
            st = re.search(rb"^Status: (\d+)", hd, re.M)
            if st is not None and st.group(1) != b"200":
                return None
            return None if s and body == self.tdata else "wrong body"
        if k == "audit":
            if c10.reported(r):
                return None
            m = warc.load(a)
            n = sum(1 for _ in m.records())
            good = sum(int(g) for g, b in c10.SUMMARY.findall(r.out))
            segs = sum(1 for _, x in m.records() if x.segno == 1)
            if good != n or r.out.count(b"Auditing this segmented") != segs:
                return "audited %d of %d records" % (good, n)
            return None
        if k == "rebuild":
            if not os.path.exists(self.out):
                return "no output"
            try:
                recs = warc.parse_silo(open(self.out, "rb").read(), a.cfg.prefix)
            except warc.WarcError as e:
                return "rebuilt silo is bad: %s" % e
            if [(x.id, x.type, x.body) for x in recs[1:]] != [(x.id, x.type, x.body) for x in self.m.silos[self.n][1:]]:
                return "records missing"
            return None
        raise RuntimeError(k)


def big_case(ctx, case):
    """Failed appends to a silo of more than 4 GiB"""
    rng = ctx.rng
    a = core.Archive(ctx, "big", cfg=core.Cfg(maxsize=rng.choice(["5G", "1000G"]), bits=rng.choice(hist.BITS)))
    h = hist.Hist(ctx, a, VARIANTS)
    with huge.NoFsize():
        if huge.big_silo(ctx, h, rng.randrange(1, 4)) is None:
            return
        log = ctx.dir + "/oplog"
        silo = a.silo_path(0)
        dlen = rng.randrange(500, 5000)
        at = []
        for act in (None, "short", "err:%d" % errno.ENOSPC, "short"):
            # The first of these shows which operations do the append
            data = gen.rbytes(rng, dlen)
            tmp = ctx.dir + "/in"
            with open(tmp, "wb") as f:
                f.write(data)
            argv = ("store", "-t", "resource", "-m", "text/plain", tmp)
            if act is None:
                r = a.cmd(*argv, env=core.fault_env(ctx, a.root, log=log))
                at = [o.n for o in core.read_oplog(log) if o.op in ("write", "writev", "pwrite") and
                    os.path.basename(o.path) == os.path.basename(silo)]
                if r.rc:
                    h.bad("big-refused", "a store in a silo of %d bytes" % os.path.getsize(silo), r)
                    return
                continue
            if not at:
                break
            size = os.path.getsize(silo)
            r = a.cmd(*argv, env=core.fault_env(ctx, a.root, at=rng.choice(at), act=act,
                frac=rng.choice([1, 500, 999]), log=log))
            hit = [o for o in core.read_oplog(log) if o.fault]
            ctx.stats["evaluations"] += 1
            ctx.stats["faults"] += len(hit)
            ctx.stats["big_faults"] += len(hit)
            if r.rc == 0:
                rid = r.out.decode("ascii", "replace").strip()[len(a.cfg.prefix):]
                if a.cmd("get", rid).out != data:
                    h.bad("big-swallowed", "%s when appending at %d, but success" % (act, size), r)
            if not hit:
                continue
            # Only whole records may have been added
            got = os.path.getsize(silo)
            if got < size:
                h.bad("big-lost", "%s when appending at %d: the silo has %d bytes now" % (act, size, got), r)
                return
            with open(silo, "rb") as f:
                f.seek(size)
                b = f.read()
            try:
                warc.parse_silo(b, a.cfg.prefix)
            except warc.WarcError as e:
                if b:
                    h.bad("big-half-record", "%s when appending at %d: %s" % (act, size, e), r)
                    return
            h.get_all()
            if h.store(n=3000) is None or ctx.violations:
                return
        h.get_all()
    ctx.seen("big", a.cfg.bits)
    a.destroy()


def run_case(ctx, case):
    rng = ctx.rng
    if case[:3] == "big":
        return big_case(ctx, case)
    x = base(ctx)
    if x is None:
        return
    h0, shared = x
    mode, kind, _ = case.split(":")
    log = ctx.dir + "/oplog"
    h = clone(h0, "w")
    crs = rng.random()
    c = Faulty(kind, h, shared, random.Random(crs))
    r = c.start(core.fault_env(ctx, h.a.root, log=log, stdin=mode == "i")).finish()
    ops = core.read_oplog(log)
    if kind == "byid":
        byid = r.out
    if (r.rc != 0 and kind not in ("byid", "mksilo")) or (kind != "byid" and r.rc == 0 and c.done(r)):
        h.bad("fail:" + kind, "alone: %s" % (c.done(r) if r.rc == 0 else "failed"), r)
        return
    h.a.destroy()
    todo = []
    for k in range(1, len(ops) + 1):
        o = ops[k - 1]
        if o.op == "lseek" or (mode == "i") != (o.klass() == "<stdin>"):
            continue
        errs = ERR[o.op]
        if mode == "e" or mode == "i":
            for e in rng.sample(errs, min(len(errs), 1 if ctx.tier == "quick" else 2)):
                todo.append((k, "err:%d" % e, False, None))
        if mode == "s" and o.op in XFER and o.arg > 1:
            todo.append((k, "short", False, rng.choice([1, 500, 999])))
        if mode == "t":
            todo.append((k, "err:%d" % rng.choice(errs), True, None))
    lim = 70 if ctx.tier == "quick" else 400
    if len(todo) > lim:
        todo = sorted(rng.sample(todo, lim))
    for k, act, sticky, frac in todo:
        op = ops[k - 1]
        h = clone(h0, "w")
        c = Faulty(kind, h, shared, random.Random(crs))
        m0, exp0 = c13.snapshot(h.a)
        before = h.a.tree()
        sched = "%s: %s%s at %s" % (kind, act if act[:3] != "err" else errno.errorcode[int(act[4:])],
            " from then on" if sticky else "", op)
        r = c.start(core.fault_env(ctx, h.a.root, at=k, act=act, frac=frac, log=log, sticky=sticky,
            stdin=mode == "i")).finish()
        hit = [o for o in core.read_oplog(log) if o.fault]
        ctx.stats["evaluations"] += 1
        if hit:
            ctx.stats["faults"] += 1
            ctx.stats["short"] += act == "short"
            ctx.stats["sticky"] += sticky
        if r.hung:
            h.bad("hang", "does not terminate [%s]" % sched, r)
        elif r.sanitizer:
            h.bad("sanitizer", sched, r)
        elif r.crashed and r.rc not in (-6,):
            h.bad("crash", "dies of signal %d [%s]" % (-r.rc, sched), r)
        elif kind == "byid":
            if r.rc >= 0 and r.out != byid and (r.rc == 0 or not r.err):
                h.bad("swallowed:byid", "wrong answer with exit status %d [%s]" % (r.rc, sched), r)
        elif r.rc == 0:
            what = c.done(r)
            if what:
                h.bad("swallowed:" + kind, "exit status 0, but %s [%s]" % (what, sched), r)
            ctx.stats["coped"] += 1
        else:
            ctx.stats["reported"] += 1
        ctx.seen(kind, op.op, op.klass(), act, sticky, r.rc)
        if ctx.violations:
            return
        if kind in WR or kind in ("audit", "rebuild") or rng.random() < .1:
            if kind in RD:
                if h.a.tree() != before:
                    h.bad("changed", "archive changed [%s]" % sched)
                    return
            if not c13.recover(ctx, h, [c], m0, exp0, sched):
                return
        h.a.destroy()
    ctx.sample(dict(command=kind, faults=len(todo), operations=[repr(o) for o in ops[:40]]))

