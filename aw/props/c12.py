"""C12 Concurrent use of an archive is safe"""
import collections
import os
import random
import signal
import time

from .. import core, gen, hist, idx, warc
from . import c07

VARIANTS = ["plain", "ubsan"]
AUX_SO = {"fault": "fault.c"}
LEVEL = "exploration"
CPU_LIMIT = 120
TECHNIQUE = ("runtime monitoring with schedule control: a preloaded library stops one command before each of "
    "its file operations in turn while another one runs (every pair of commands, every preemption point; "
    "sampled two-preemption schedules), plus stress of many commands with random delays injected at file "
    "operations; monitors check every exit status, every read, and finally silos and index with independent readers")
NOTE = ("Preemption points are the file-system calls of the real program, enumerated for one preemption; "
    "deeper interleavings are sampled.")
RULE = ("pairs of 13 kinds of commands x every preemption point; random schedules of two preempted commands; "
    "stress rounds of up to 10 commands with random delays; distinct = (pair, operation at which preempted)")
NEED = {"fit_appended": 3, "preemptions": 2500, "stress_commands": 500, "reads_during": 1000, "final_checks": 2500}

WRITERS = ["small", "big", "seg", "meta", "mksilo", "hk", "same", "metaseg"]
READERS = ["get", "getseg", "getz", "filter", "byid", "dumpindex", "cgi"]


def cases(tier, seed):
    pairs = ["p:%s:%s" % (a, b) for a in WRITERS for b in WRITERS + READERS]
    pairs += ["p:fit:%s" % b for b in ("fit", "fit", "fit", "small", "meta", "seg", "get")] + ["p:small:fit", "p:meta:fit", "p:seg:fit"]
    n = 1 if tier == "quick" else 8
    pairs = ["%s:%d" % (p, i + 100 * j) for i in range(n) for j, p in enumerate(pairs)]
    return pairs + ["d%d" % i for i in range(60 if tier == "quick" else 3000)] + \
        ["s%d" % i for i in range(60 if tier == "quick" else 3000)]


class Cmd(object):
    """One command and what is expected of it"""

    def __init__(self, kind, h, shared, rng=None):
        self.kind = kind
        self.h = h
        a = h.a
        rng = self.rng = rng or h.rng
        cfg = a.cfg
        self.stdin = b""
        self.env = {}
        self.data = self.rid = None
        self.may_fail = False
        old = [i for i in shared["old"]]
        if kind in ("small", "big", "seg", "same", "fit"):
            if kind == "fit":
                # the last room there is in a silo, but not twice
                self.data = gen.rbytes(rng, max(1, shared["room"] - rng.randrange(12)))
            elif kind == "same":
                self.data = shared["same"]
            else:
                n = {"small": rng.randrange(1, 900), "big": int(cfg.maxbytes * .8),
                    "seg": int(cfg.maxbytes * rng.uniform(1.6, 2.6))}[kind]
                self.data = gen.rbytes(rng, n)
            self.rid = a.rid(self.data)
            self.obj = dict(type="resource", data=self.data, mime="text/plain", ref=None)
            self.args = ["store", "-m", "text/plain"]
            self.stdin = self.data
        elif kind in ("meta", "metaseg"):
            ref = rng.choice(old)
            self.data = gen.rbytes(rng, rng.randrange(1, 500) if kind == "meta" else int(cfg.maxbytes * 1.7))
            self.rid = a.mid(a.uri(ref), self.data)
            self.obj = dict(type="metadata", data=self.data, mime="text/plain", ref=a.uri(ref))
            self.args = ["store", "-m", "text/plain", "-t", "metadata", "-r", a.uri(ref)]
            self.stdin = self.data
        elif kind == "mksilo":
            self.n = shared["next"] + rng.randrange(2)
            self.args = ["mksilo", str(self.n)]
            self.may_fail = True
        elif kind == "hk":
            self.args = ["housekeeping"]
        else:
            self.target = shared["seg"] if kind in ("getseg", "getz") else rng.choice(old)
            self.tdata = h.objs[self.target]["data"]
            if kind in ("get", "getseg"):
                self.args = ["get", "-q", self.target]
            elif kind == "getz":
                self.args = ["get", "-q", "-z", self.target]
            elif kind == "byid":
                self.args = ["byid", self.target]
            elif kind == "dumpindex":
                self.args = ["dumpindex"]
                self.entries = set(shared["entries"])
            elif kind == "cgi":
                self.args = ["cgi"]
                self.env = {"PATH_INFO": "/" + a.uri(self.target), "REQUEST_METHOD": "GET",
                    "GATEWAY_INTERFACE": "CGI/1.1"}
            elif kind == "filter":
                new = "%0*x" % (cfg.idlen, rng.getrandbits(64) << (cfg.idlen * 4 - 64))
                l = rng.sample(old, min(4, len(old)))
                self.args = ["filter"]
                l.insert(rng.randrange(len(l) + 1), new)
                self.stdin = "".join(i + "\n" for i in l).encode()
                self.expect = (new + "\n").encode()
    def start(self, env=None):
        e = dict(self.env)
        if env:
            e.update(env)
        return core.Job(self.h.a.argv(*self.args, variant=self.h.var()), stdin=self.stdin, env=e,
            dir=self.h.ctx.dir)

    def check(self, r, sched):
        """Is the result of this command as it must be?"""
        h = self.h
        k = self.kind
        ctx = h.ctx
        what = "%s during [%s]" % (k, sched)
        if r.hung:
            h.bad("hang:" + k, what, r)
            return False
        if r.crashed:
            h.bad("crash:" + k, what, r)
            return False
        if k == "mksilo":
            if r.rc == 0 and not os.path.exists(h.a.silo_path(self.n)):
                h.bad("mksilo", "silo %d does not exist (%s)" % (self.n, sched), r)
            return True
        if k == "byid":
            if r.rc < 1:
                h.bad("read:byid", "%s does not find %s" % (what, self.target), r)
            ctx.stats["reads_during"] += 1
            return True
        if r.rc != 0:
            h.bad("fail:" + k, what, r)
            return False
        if self.rid is not None:
            if r.out != (h.a.uri(self.rid) + "\n").encode():
                h.bad("store-output", "%s printed %r, expected %s" % (what, r.out, self.rid), r)
                return False
            return True
        if k == "hk":
            return True
        ctx.stats["reads_during"] += 1
        if k in ("get", "getseg"):
            good = r.out == self.tdata
        elif k == "getz":
            good = hist.decompress_all(r.out) == self.tdata
        elif k == "cgi":
            good = r.out.endswith(b"\n\n" + self.tdata)
        elif k == "filter":
            good = r.out == self.expect
        elif k == "dumpindex":
            good = self.entries <= set(idx.parse_dump(r.out))
        if not good:
            h.bad("read:" + k, "%s does not see what was there all the time" % what, r)
        return good


def base(ctx, name="a", cfg=None):
    """An archive with something in every part; -> (hist, shared)"""
    rng = ctx.rng
    cfg = cfg or hist.random_cfg(rng, sizes=["5k", "6000", "7k", "9k", "15k"])
    a = core.Archive(ctx, name, cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    for n in (300, int(cfg.maxbytes * .7), 20):
        h.store(data=gen.rbytes(rng, n))
    seg = h.store(data=gen.rbytes(rng, int(cfg.maxbytes * 1.8)))
    h.metadata(n=rng.randrange(1, 400))
    if rng.random() < .7:
        h.housekeeping()
    for n in (100, 400):
        h.store(data=gen.rbytes(rng, n))
    if rng.random() < .5:
        h.metadata(n=50)
    if ctx.violations:
        return None
    m = warc.load(a)
    n = rng.choice([20, 300, int(cfg.maxbytes * .6), int(cfg.maxbytes * 2.2), int(cfg.maxbytes * 3.1)])
    # How much goes into the largest room there is in a silo?
    room = 0
    for i in range(3):
        j = h.store(data=gen.rbytes(rng, 200), mime="text/plain") if i == 0 else h.store(data=gen.rbytes(rng, max(1, room // 3)), mime="text/plain")
        if j is None:
            return None
        m = warc.load(a)
        _, r = m.objects()[j][0][2][0]
        over = r.end - r.off - len(h.objs[j]["data"])
        room = max(cfg.maxbytes - x[-1].end for x in m.silos.values()) - over - 12
        if room > 250:
            break
    h.ctx.stats["fits"] += room > 0
    return h, dict(room=room, old=list(h.order), seg=seg, next=max(m.silos) + 1,
        same=gen.rbytes(rng, n), entries=idx.expected(m))


def clone(h, name):
    h2 = object.__new__(hist.Hist)
    h2.__dict__.update(h.__dict__)
    h2.a = h.a.clone(name)
    h2.objs = dict(h.objs)
    h2.order = list(h.order)
    h2.log = list(h.log)
    return h2


def get_now(h, rid, obj, sched, wait=True):
    """An acknowledged object must be there from now on"""
    j = core.Job(h.a.argv("get", "-q", rid, variant=h.var()), dir=h.ctx.dir)
    return j, rid, obj, sched


def final(ctx, h, cmds, sched, samepair=False):
    """Everything is quiet: check all there is"""
    a = h.a
    ctx.stats["final_checks"] += 1
    ctx.stats["evaluations"] += 1
    for c in cmds:
        if c.rid is not None:
            h.objs[c.rid] = c.obj
            if c.rid not in h.order:
                h.order.append(c.rid)
    same = sum(c.kind == "same" for c in cmds) > 1
    m = warc.load(a)
    for k, msg in m.errs:
        if same and k.startswith("segment-"):
            continue
        h.bad("silo-" + k, "%s after [%s]" % (msg, sched))
    if a.junk():
        h.bad("junk", "%s left behind after [%s]" % (a.junk(), sched))
    if ctx.violations:
        return
    for step in ("", "housekept"):
        got = idx.read_appendix(a.dir + "index.appendix") + idx.read_sorted(a.dir + "index.sorted")
        exp = idx.expected(m)
        if same:
            strip = lambda l: [e if not e[1] & idx.F_SEGMENTED else e[:4] for e in l]
            got, exp = strip(got), strip(exp)
        x, y = c07.diff(got, exp)
        if x or y:
            h.bad("index" + step, "index %s has %s too much, lacks %s after [%s]" % (step, x, y, sched))
            return
        news = [c.rid for c in cmds if c.rid]
        for rid in set(news + h.rng.sample(h.order, 2)):
            if not h.get(rid):
                h.ctx.violations[-1]["msg"] += " after [%s] %s" % (sched, step)
                return
        if step == "" and h.rng.random() < .3:
            if not h.housekeeping():
                return
        else:
            break
    if same or h.rng.random() < .05:
        ctx.stats["reindexed"] += 1
        for f in ("index.appendix", "index.sorted"):
            if os.path.exists(a.dir + f):
                os.unlink(a.dir + f)
        r = a.cmd("reindex")
        if h.ok(r, "reindex"):
            h.get_all("quiet")
            if ctx.violations:
                ctx.violations[-1]["msg"] += " after reindex after [%s]" % sched


def run_case(ctx, case):
    if case[0] == "p":
        return pairs(ctx, case)
    if case[0] == "d":
        return double(ctx, case)
    return stress(ctx, case)


def wait_or_cont(jb, ja_cont, grace=.15):
    """Wait for jb; if it seems to wait for the other one, continue that"""
    t = time.monotonic() + grace
    d = .0005
    while time.monotonic() < t:
        if jb.p.poll() is not None:
            return True
        time.sleep(d)
        d = min(d * 1.4, .01)
    ja_cont()
    return False


def pairs(ctx, case):
    rng = ctx.rng
    _, ka, kb, _ = case.split(":")
    x = base(ctx)
    if x is None:
        return
    h0, shared = x
    # How many operations are there?
    log = ctx.dir + "/oplog"
    h = clone(h0, "w")
    ca = Cmd(ka, h, shared)
    j = ca.start(core.fault_env(ctx, h.a.root, log=log))
    r = j.finish()
    ops = core.read_oplog(log)
    good = ca.check(r, "alone")
    if ka == "fit" and len(h.a.silo_nums()) == len(h0.a.silo_nums()):
        ctx.stats["fit_appended"] += 1
    h.a.destroy()
    if not good:
        return
    first = next((i for i, o in enumerate(ops) if o.klass() != ".conf"), 0)
    points = range(first + 1, len(ops) + 1)
    for k in points:
        op = ops[k - 1]
        h = clone(h0, "w")
        ca = Cmd(ka, h, shared)
        cb = Cmd(kb, h, shared)
        sched = "%s preempted before operation %s by %s" % (ka, op, kb)
        ja = ca.start(core.fault_env(ctx, h.a.root, at=k, act="stop", log=log))
        stopped = ja.wait_stopped()
        jb = cb.start()
        jg = None
        if stopped:
            ctx.stats["preemptions"] += 1
            ctx.seen("p", ka, kb, op.op, op.klass())
            if wait_or_cont(jb, ja.cont):
                rb = jb.finish()
                if cb.rid is not None and rb.rc == 0 and rng.random() < .5:
                    # already acknowledged
                    jg = core.Job(h.a.argv("get", "-q", cb.rid), dir=ctx.dir)
                    if wait_or_cont(jg, ja.cont):
                        ja.cont()
                else:
                    ja.cont()
            else:
                ctx.stats["blocked"] += 1
                rb = jb.finish()
        else:
            rb = jb.finish()
        ra = ja.finish()
        if jg is not None:
            rg = jg.finish()
            ctx.stats["reads_during"] += 1
            if rg.rc != 0 or rg.out != cb.data:
                h.bad("ack-get", "object %s stored by %s not retrievable [%s]" % (cb.rid, kb, sched), rg)
        core.read_oplog(log)
        ca.check(ra, sched)
        cb.check(rb, sched)
        if not ctx.violations:
            final(ctx, h, [ca, cb], sched)
        h.a.destroy()
        if ctx.violations:
            return
    ctx.sample(dict(pair=(ka, kb), operations=[repr(o) for o in ops[first:first + 30]]))


def double(ctx, case):
    """Both are preempted, and others run in between"""
    rng = ctx.rng
    x = base(ctx)
    if x is None:
        return
    h0, shared = x
    for _ in range(25):
        h = clone(h0, "w")
        kinds = [rng.choice(WRITERS), rng.choice(WRITERS + READERS), rng.choice(WRITERS + READERS)]
        cs = [Cmd(k, h, shared) for k in kinds]
        js, st = [], []
        log = [ctx.dir + "/log%d" % i for i in range(2)]
        at = []
        for i in range(2):
            k = rng.randrange(5, 60)
            at.append(k)
            j = cs[i].start(core.fault_env(ctx, h.a.root, at=k, act="stop", log=log[i]))
            js.append(j)
            # the second one may be waiting for the first one
            t = time.monotonic() + .15
            s = None
            while time.monotonic() < t:
                try:
                    pid, stt = os.waitpid(j.pid, os.WUNTRACED | os.WNOHANG)
                except ChildProcessError:
                    break
                if pid:
                    s = os.WIFSTOPPED(stt)
                    if not s:
                        j.p.returncode = os.waitstatus_to_exitcode(stt)
                    break
                time.sleep(.0005)
            st.append(s)
        j3 = cs[2].start()
        conted = []

        def cont(i):
            if i not in conted:
                conted.append(i)
                # may not have stopped yet, if it was waiting for another one
                if st[i]:
                    js[i].cont()

        wait_or_cont(j3, lambda: None, .1)
        order = [0, 1]
        rng.shuffle(order)
        for i in order:
            cont(i)
            if st[i] is not None:
                continue
        # anything which stops late is continued
        dl = time.monotonic() + core.TIMEOUT
        alljs = js + [j3]
        while any(j.p.returncode is None for j in alljs) and time.monotonic() < dl:
            for j in alljs:
                if j.p.returncode is None:
                    try:
                        pid, stt = os.waitpid(j.pid, os.WUNTRACED | os.WNOHANG)
                    except ChildProcessError:
                        continue
                    if pid and os.WIFSTOPPED(stt):
                        os.kill(j.pid, signal.SIGCONT)
                    elif pid:
                        j.p.returncode = os.waitstatus_to_exitcode(stt)
            time.sleep(.0005)
        rs = [j.finish(.1) if j.p.returncode is None else j.finish() for j in alljs]
        at = [next((repr(o) for o in core.read_oplog(l) if o.fault), "-") for l in log]
        sched = "%s stopped before %s, then %s stopped before %s, then %s, then %s continued first" % (
            kinds[0], at[0], kinds[1], at[1], kinds[2], kinds[order[0]])
        ctx.stats["double"] += 1
        ctx.stats["preemptions"] += 2
        ctx.seen("d", kinds[0], at[0].split(":")[-1].split("(")[0], kinds[1], at[1].split(":")[-1].split("(")[0])
        for c, r in zip(cs, rs):
            c.check(r, sched)
        if not ctx.violations:
            final(ctx, h, cs, sched)
        h.a.destroy()
        if ctx.violations:
            return


def stress(ctx, case):
    rng = ctx.rng
    x = base(ctx)
    if x is None:
        return
    h, shared = x
    for rnd in range(4):
        n = rng.randrange(4, 11)
        kinds = [rng.choice(WRITERS + READERS) for _ in range(n)]
        if rng.random() < .5:
            kinds[:3] = ["hk", "small", "seg"]
        cs = [Cmd(k, h, shared) for k in kinds]
        js = []
        for c in cs:
            js.append(c.start(core.fault_env(ctx, h.a.root,
                delay="%d:%d:%d" % (rng.getrandbits(30), rng.choice([20, 100, 300, 600]), rng.choice([100, 1000, 4000])))))
            if rng.random() < .3:
                time.sleep(rng.random() * .01)
        # What has been acknowledged is read at once
        sched = "stress: " + " ".join(kinds)
        pend = list(zip(cs, js))
        reads = []
        dl = time.monotonic() + core.TIMEOUT
        while pend and time.monotonic() < dl:
            for c, j in list(pend):
                if j.p.poll() is not None:
                    pend.remove((c, j))
                    if c.rid and j.p.returncode == 0:
                        reads.append((c, core.Job(h.a.argv("get", "-q", c.rid), dir=ctx.dir)))
            time.sleep(.001)
        rs = [j.finish() for j in js]
        ctx.stats["stress_commands"] += n
        for c, r in zip(cs, rs):
            c.check(r, sched)
        for c, j in reads:
            rg = j.finish()
            ctx.stats["reads_during"] += 1
            if rg.rc != 0 or rg.out != c.data:
                h.bad("ack-get", "acknowledged object %s (%s) not retrievable [%s]" % (c.rid, c.kind, sched), rg)
        ctx.seen("s", tuple(sorted(kinds)))
        if ctx.violations:
            return
        # duplicates may be there from now on
        shared["dups"] = shared.get("dups") or kinds.count("same") > 1
        allc = cs + shared.setdefault("past", [])
        shared["past"] = allc
        final(ctx, h, allc if shared["dups"] else cs, sched)
        if ctx.violations:
            return
        m = warc.load(h.a)
        shared["old"] = list(h.order)
        shared["next"] = max(m.silos) + 1
        e = idx.expected(m)
        if shared["dups"]:
            e = [y for y in e if not y[1] & idx.F_SEGMENTED]
        shared["entries"] = e
        shared["same"] = gen.rbytes(rng, rng.choice([20, 300, int(h.a.cfg.maxbytes * 1.6)]))
    ctx.sample(dict(commands=kinds, config=h.a.cfg.text("DIR/")))
