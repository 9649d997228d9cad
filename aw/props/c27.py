"""C27 Resource use does not grow with the data"""
import hashlib
import os
import resource
import shutil
import signal
import subprocess
import threading
import time

from .. import core, gen, idx, warc
from .c16 import LOGGER, SHIM
from .c17 import DATA, FILTER, META, frame

VARIANTS = ["plain"]
AUX_SO = {"res": "res.c"}
LEVEL = "exploration"
CPU_LIMIT = 400
TECHNIQUE = ("runtime monitoring: a preloaded accountant of the heap records the peak of every process while the real commands work on "
    "archives, objects, lists, sessions and trees of two or three very different sizes, with only as many descriptors as a small one "
    "needs; the growth from one size to the next is compared with what the property allows, and the session of every command is "
    "searched for processes, temporary files and other things left behind")
NOTE = ("Decided by comparing sizes which differ by a factor of eight and more, so memory used per record shows even when it is small; "
    "bounded by the sizes tried. File mappings (an object on its way from its hold to a silo) are not counted as memory.")
RULE = ("every command; records per archive, silos, size of the object, segments per object, lines of a filter list, requests of a "
    "session, files of a tree; distinct = (command, what grows, how much)")
NEED = {"compared": 110, "limited": 300, "temp_checked": 350, "sessions": 6, "large_requests": 60, "processes": 2400}
ASSUMPTIONS = ["memory is taken from the heap (malloc and friends), or from the stack"]

# What may be used for each thing which has to be kept in memory: a line of a list, a file of a tree, a segment
KEEP = 1024
KEEP_SEG = 4096
FIXED = 4096
# zlib allocates its window when it turns out to need it, qsort(3) a copy of what it sorts
WINDOW = 40 << 10
SORT = 64 << 10
# Nothing needs more than this
MOST = 64 << 20


def cases(tier, seed):
    n = 2 if tier == "quick" else 30
    return ["r%d" % i for i in range(2 * n)] + ["o%d" % i for i in range(3 * n)] + ["g%d" % i for i in range(2 * n)] + \
        ["l%d" % i for i in range(2 * n)] + ["s%d" % i for i in range(3 * n)] + ["t%d" % i for i in range(2 * n)] + \
        ["e%d" % i for i in range(4 * n)] + ["x%d" % i for i in range(n)]


class Use(object):
    """What one process used"""

    def __init__(self, ln):
        (self.pid, self.peak, self.live, self.npeak, self.nlive, self.ncall,
            self.fds, self.rss, self.stack) = (int(x) for x in ln.split())


class Bench(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.tmp = os.path.join(ctx.dir, "tmp")
        os.mkdir(self.tmp)
        self.cwd = os.path.join(ctx.dir, "cwd")
        os.mkdir(self.cwd)

    def env(self, env=None):
        self.n += 1
        self.log = os.path.join(self.ctx.dir, "use%d" % self.n)
        e = {"LD_PRELOAD": self.ctx.aux["res"], "AWR_LOG": self.log, "TMPDIR": self.tmp}
        e.update(env or {})
        return e

    def uses(self):
        try:
            with open(self.log) as f:
                l = [Use(ln) for ln in f]
            os.unlink(self.log)
        except FileNotFoundError:
            l = []
        self.ctx.stats["processes"] += len(l)
        return l

    def left(self, what, pgid, r=None):
        """Nothing may be left behind"""
        t = time.monotonic() + 10
        while True:
            try:
                os.killpg(pgid, 0)
            except ProcessLookupError:
                break
            except PermissionError:
                pass
            if time.monotonic() > t:
                self.ctx.violate("process-left:" + what.split()[0], "%s left a process behind" % what)
                try:
                    os.killpg(pgid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                break
            time.sleep(.02)
        self.clean(what, r)

    def clean(self, what, r=None):
        self.ctx.stats["temp_checked"] += 1
        for d in (self.tmp, self.cwd):
            l = os.listdir(d)
            if l:
                self.ctx.violate("file-left:" + what.split()[0], "%s left %r behind" % (what, l[:5]),
                    result=r.brief() if r else "")
                for x in l:
                    os.unlink(os.path.join(d, x))

    def run(self, a, *args, nofile=16, rc=(0,), stdin=None, out=None, inp=None, env=None, timeout=200):
        """-> (Res, Use of the command) or None"""
        ctx = self.ctx
        ctx.stats["cmd_" + args[0]] += 1
        ctx.stats["evaluations"] += 1

        def limit():
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        ofn = os.path.join(ctx.dir, "out%d" % self.n)
        with open(ofn, "w+b") as fo:
            t0 = time.monotonic_ns()
            fi = open(inp, "rb") if inp else None
            p = subprocess.Popen(a.argv(*args), stdin=fi if fi else subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                stdout=fo, stderr=subprocess.PIPE, env=dict(core.BASE_ENV, **self.env(env)), cwd=self.cwd,
                start_new_session=True, preexec_fn=limit)
            if fi:
                fi.close()
            ofd, err, hung = core._communicate(p, stdin, time.monotonic() + timeout)
            fo.seek(0)
            o = fo.read(1 << 20) if out is None else b""
            if out is not None:
                for b in iter(lambda: fo.read(1 << 20), b""):
                    out(b)
        os.unlink(ofn)
        r = core.Res(a.argv(*args), p.returncode, o, err, hung, t0, time.monotonic_ns())
        if hung:
            raise core.Hung(r.brief())
        what = " ".join(args)[:60]
        self.left(what, p.pid, r)
        u = [x for x in self.uses() if x.pid == p.pid]
        if r.rc not in rc:
            # It worked in any number of other checks, now there are only few descriptors
            r2 = a.cmd(*args, stdin=stdin, stdin_file=open(inp, "rb") if inp else None, env=env)
            ctx.violate("limited:" + args[0], "%s fails with %d descriptors (without a limit: %s)" % (what, nofile, r2.rc),
                result=r.brief())
            return None
        ctx.stats["limited"] += 1
        if len(u) != 1:
            if r.rc >= 0:
                ctx.inconclusive.append("no account of %s" % what)
            return None
        u = u[0]
        if u.peak > MOST:
            ctx.violate("most:" + args[0], "%s used %d bytes of memory" % (what, u.peak), result=r.brief())
        return r, u

    def compare(self, cmd, what, n1, u1, n2, u2, keep=0, fixed=FIXED):
        ctx = self.ctx
        ctx.stats["compared"] += 1
        ctx.seen(cmd, what, n2 // max(n1, 1), u1.peak.bit_length())
        ctx.sample(dict(command=cmd, grows=what, sizes=(n1, n2), peaks=(u1.peak, u2.peak), stacks=(u1.stack, u2.stack),
            fds=(u1.fds, u2.fds)))
        if os.environ.get("AW_TABLE"):
            print("TABLE", cmd, what, n1, n2, u1.peak, u2.peak, "%.1f" % ((u2.peak - u1.peak) / (n2 - n1)), u1.stack, u2.stack, u1.fds, u2.fds, flush=True)
        grown = u2.peak - u1.peak
        may = fixed + keep * (n2 - n1)
        if grown > may:
            ctx.violate("memory:%s:%s" % (cmd, what), "%s uses %d bytes for %d %s and %d for %d" % (
                cmd, u1.peak, n1, what, u2.peak, n2))
        # A deeper call here or there is not what this is about
        if u2.stack - u1.stack > (256 << 10) + may:
            ctx.violate("stack:%s:%s" % (cmd, what), "%s uses %d bytes of stack for %d %s and %d for %d" % (
                cmd, u1.stack, n1, what, u2.stack, n2))
        if u2.fds > u1.fds:
            ctx.violate("fds:%s:%s" % (cmd, what), "%s has %d descriptors open at the end for %d %s and %d for %d" % (
                cmd, u1.fds, n1, what, u2.fds, n2))


def fill(ctx, a, nsilo, per, stem=None):
    """Silos with many small records, after those which are there -> list of (id, body)

    stem: all IDs begin like this (they have been forced)
    """
    rng = ctx.rng
    for x in (b"t" * 50, b"T" * 50):
        r = a.store(x)
        if r.rc != 0:
            raise RuntimeError(r.brief())
    m = warc.load(a)
    n0, recs = sorted(m.silos.items())[0]
    wi = recs[0]
    res = [r for r in recs if r.type == "resource"][0]
    ids = []

    def rec(t, body, rid=None):
        d = hashlib.sha256(body).hexdigest()
        f = []
        for k, v in t.fields:
            k2 = k.lower()
            if k2 == "warc-record-id":
                v = "<%s%s>" % (a.cfg.prefix, rid or d[:a.cfg.idlen])
            elif k2 in ("warc-block-digest", "warc-payload-digest"):
                v = "sha256:" + d
            elif k2 == "content-length":
                v = str(len(body))
            elif k2 == "content-length-gzip":
                v = str(len(warc.member(body, 1)))
            f.append((k, v))
        return warc.record_bytes(f, body, 1)
    for s in range(nsilo):
        fn = a.silo_path(n0 + 1 + s)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        b = [rec(wi, wi.body + b"number: %d\r\n" % s)]
        for i in range(per):
            body = b"%d %d %d" % (s, i, rng.getrandbits(40)) + b"x" * rng.randrange(40)
            rid = a.rid(body) if stem is None else stem + "%0*x" % (a.cfg.idlen - len(stem), s * per + i)
            b.append(rec(res, body, rid))
            ids.append((rid, body))
        with open(fn, "wb") as f:
            f.write(b"".join(b))
    return ids


def archive(ctx, name, **kw):
    return core.Archive(ctx, name, cfg=core.Cfg(**kw))


def records(ctx, case):
    """The same commands on a small archive and on a large one"""
    rng = ctx.rng
    b = Bench(ctx)
    many = int(case[1:]) & 1
    if many:
        sizes = [(6, 20), (rng.randrange(150, 400), rng.randrange(4, 9))]           # silos, records each
    else:
        sizes = [(2, 60), (3, rng.randrange(1000, 3000))]
    what = "silos" if many else "records"
    got = []
    for k, (nsilo, per) in enumerate(sizes):
        a = archive(ctx, "a%d" % k, maxsize="1M", sort_size="64k")
        ids = fill(ctx, a, nsilo, per)
        n = nsilo * per
        use = {}

        def do(nm, *args, **kw):
            r = b.run(a, *args, **kw)
            if r is not None:
                use[nm] = r[1]
                return r[0]
        shutil.rmtree(a.dir + "/index.sorted", ignore_errors=True)
        for x in ("index.sorted", "index.appendix"):
            if os.path.exists(a.dir + x):
                os.unlink(a.dir + x)
        if do("reindex", "reindex") is None:
            return
        r = do("audit", "audit")
        if r is None or b" 0 bad" not in r.out or b"ERROR" in r.out:
            if not ctx.violations:
                ctx.inconclusive.append("audit of a made up archive: %r" % (r and r.out[-300:]))
            return
        lines = [0]

        def count(x):
            lines[0] += x.count(b"\n")
        do("dumpindex", "dumpindex", out=count)
        silos = [p for _, p in sorted(a.silo_nums().items())]
        do("audit silos", "audit", *silos)
        if lines[0] < n:
            ctx.violate("limited:dumpindex", "%d lines of at least %d" % (lines[0], n))
        rid, body = rng.choice(ids)
        r = do("get", "get", rid)
        if r is None or r.out != body:
            ctx.violate("limited:get", "get of %s" % rid, result=r.brief() if r else "")
        do("get -z", "get", "-z", rid)
        do("byid", "byid", rid, rc=(1,))
        do("byid many", "byid", *[i for i, _ in rng.sample(ids, 40)], rc=(40,))
        do("info", "info")
        do("cgi", "cgi", env=dict(PATH_INFO="/" + rid, REQUEST_METHOD="GET", GATEWAY_INTERFACE="CGI/1.1"))
        lst = [i for i, _ in rng.sample(ids, 60)] + ["%032x" % rng.getrandbits(128) for _ in range(60)]
        r = do("filter", "filter", stdin="".join(x + "\n" for x in lst).encode())
        lf = []
        for i in range(40):
            lf.append(os.path.join(ctx.dir, "l%d" % i))
            with open(lf[-1], "w") as f:
                f.write("".join(x + "\n" for x in lst[i * 3:i * 3 + 3]))
        do("filter -s", "filter", "-s", *lf)
        do("filter -v", "filter", "-v", "-r", *lf)
        for x in lf:
            os.unlink(x)
        do("store", "store", stdin=b"new" * 100)
        do("store again", "store", stdin=body)
        do("store -m", "store", "-t", "metadata", "-m", "text/plain", "-r", a.uri(rid), stdin=b"new" * 100)
        do("mksilo", "mksilo", rc=(0, 1))
        do("housekeeping", "housekeeping")
        c = a.clone("c")
        # (rebuild writes new files beside the silos)
        rb = b.run(c, "rebuild")
        if rb is not None:
            use["rebuild"] = rb[1]
        cs = [p for _, p in sorted(c.silo_nums().items())]
        rb = b.run(c, "rebuild", *cs)
        if rb is not None:
            use["rebuild silos"] = rb[1]
        rb = b.run(c, "reindex", *cs)
        if rb is not None:
            use["reindex silos"] = rb[1]
        c.destroy()
        got.append((n, nsilo, use))
        ctx.seen("records", nsilo, per)
        a.destroy()
    (n1, s1, u1), (n2, s2, u2) = got
    for nm in u1:
        if nm not in u2:
            continue
        b.compare(nm, what, n1, u1[nm], n2, u2[nm], 0,
            FIXED + (SORT if nm[:7] in ("houseke", "reindex") else WINDOW if nm[:7] == "rebuild" else 0))


def similar(ctx, case):
    """Many IDs which are the same as far as the index can tell"""
    rng = ctx.rng
    b = Bench(ctx)
    sizes = [30, rng.randrange(500, 800)]
    stem = "%024x" % rng.getrandbits(96)
    got = []
    for k, n in enumerate(sizes):
        a = archive(ctx, "a%d" % k, maxsize="1M", sort_size="64k")
        ids = fill(ctx, a, 2, n // 2, stem)
        use = {}

        def do(nm, *args, **kw):
            r = b.run(a, *args, **kw)
            if r is not None:
                use[nm] = r[1]
                return r[0]
        do("reindex", "reindex")
        rid, body = ids[-1]
        r = do("get", "get", rid)
        if r is None or r.out != body:
            ctx.violate("limited:get", "get of %s" % rid, result=r.brief() if r else "")
        do("get -z", "get", "-z", rid)
        do("get none", "get", stem + "f" * (a.cfg.idlen - 24), rc=(1,))
        do("cgi", "cgi", env=dict(PATH_INFO="/" + rid, REQUEST_METHOD="GET", GATEWAY_INTERFACE="CGI/1.1"))
        do("byid", "byid", rid, rc=range(256))
        do("filter -s", "filter", "-s", stdin="".join(x + "\n" for x, _ in ids[:20]).encode())
        do("store -i", "store", "-t", "metadata", "-m", "text/plain", "-r", a.uri(rid), "-i", stem + "e" * (a.cfg.idlen - 24), stdin=b"another")
        do("store -i again", "store", "-t", "metadata", "-m", "text/plain", "-r", a.uri(rid), "-i", rid, stdin=b"yet another")
        do("store -m", "store", "-t", "metadata", "-m", "text/plain", "-r", a.uri(rid), stdin=b"new" * 100)
        got.append(use)
        a.destroy()
    ctx.seen("similar", sizes[1])
    for nm in got[0]:
        if nm in got[1]:
            b.compare(nm, "similar IDs", sizes[0], got[0][nm], sizes[1], got[1][nm], 0, FIXED + (SORT if nm == "reindex" else 0))


def large(ctx, case):
    """Objects of any size"""
    rng = ctx.rng
    b = Bench(ctx)
    sizes = [300000, rng.randrange(20, 50) * (4000000 if ctx.tier == "thorough" and rng.random() < .2 else 1000000) + rng.randrange(1000)]
    kind = rng.choice(["random", "zero", "mixed"]) if case[1:] != "0" else "random"
    got = []
    for k, size in enumerate(sizes):
        a = archive(ctx, "a%d" % k, maxsize="1G")
        fn = os.path.join(ctx.dir, "obj")
        h = hashlib.sha256()
        with open(fn, "wb") as f:
            left = size
            while left:
                n = min(left, 1 << 20)
                x = rng.randbytes(n) if kind == "random" or kind == "mixed" and rng.random() < .5 else bytes(n)
                h.update(x)
                f.write(x)
                left -= n
        rid = h.hexdigest()[:a.cfg.idlen]
        use = {}

        def do(nm, *args, **kw):
            r = b.run(a, *args, **kw)
            ctx.stats["large_requests"] += 1
            if r is not None:
                use[nm] = r[1]
                return r[0]

        def check(nm, *args, **kw):
            g = hashlib.sha256()
            do(nm, *args, out=g.update, **kw)
            return g.hexdigest()
        do("store", "store", inp=fn)
        do("store again", "store", inp=fn)
        do("store file", "store", fn)
        if check("get", "get", rid) != h.hexdigest():
            ctx.violate("limited:get", "get of %d bytes" % size)
        check("get -z", "get", "-z", rid)
        check("cgi", "cgi", env=dict(PATH_INFO="/" + rid, REQUEST_METHOD="GET", GATEWAY_INTERFACE="CGI/1.1"))
        check("cgi gzip", "cgi", env=dict(PATH_INFO="/" + rid, REQUEST_METHOD="GET", GATEWAY_INTERFACE="CGI/1.1",
            HTTP_ACCEPT_ENCODING="gzip"))
        do("audit", "audit")
        do("reindex", "reindex")
        do("rebuild", "rebuild")
        os.unlink(fn)
        got.append(use)
        a.destroy()
    ctx.seen("large", kind, sizes[1] // 5000000)
    for nm in got[0]:
        if nm in got[1]:
            b.compare(nm, "bytes", sizes[0], got[0][nm], sizes[1], got[1][nm], 0, FIXED + WINDOW)


def segments(ctx, case):
    """Objects of many segments"""
    rng = ctx.rng
    b = Bench(ctx)
    nseg = [12, rng.randrange(120, 260) * (3 if ctx.tier == "thorough" and rng.random() < .3 else 1)]
    got = []
    for k, n in enumerate(nseg):
        a = archive(ctx, "a%d" % k, maxsize="20k", sort_size="64k")
        body = rng.randbytes(19000 * n)
        rid = a.rid(body)
        use = {}

        def do(nm, *args, **kw):
            r = b.run(a, *args, **kw)
            if r is not None:
                use[nm] = r[1]
                return r[0]
        # All of its holds are open until the last one is full
        r = do("store", "store", stdin=body, nofile=2 * n + 40)
        if r is None:
            return
        ns = len(a.silo_nums())
        got.append((ns, use))
        do("store again", "store", stdin=body, nofile=2 * ns + 40)
        # The segments of one object are all open at once
        h = hashlib.sha256()
        do("get", "get", rid, out=h.update, nofile=ns + 20)
        if h.digest() != hashlib.sha256(body).digest():
            ctx.violate("limited:get", "get of %d segments" % ns)
        do("get -z", "get", "-z", rid, out=h.update, nofile=ns + 20)
        do("cgi", "cgi", out=h.update, nofile=ns + 20,
            env=dict(PATH_INFO="/" + rid, REQUEST_METHOD="GET", GATEWAY_INTERFACE="CGI/1.1"))
        do("audit", "audit")
        do("byid", "byid", rid, rc=(1,))
        do("filter", "filter", stdin=rid.encode() + b"\n")
        do("housekeeping", "housekeeping")
        for x in ("index.sorted", "index.appendix"):
            if os.path.exists(a.dir + x):
                os.unlink(a.dir + x)
        do("reindex", "reindex")
        do("get again", "get", rid, nofile=ns + 20)
        do("rebuild", "rebuild")
        a.destroy()
    (n1, u1), (n2, u2) = got
    if n2 < 6 * n1:
        ctx.inconclusive.append("%d and %d segments" % (n1, n2))
    for nm in u1:
        if nm in u2:
            b.compare(nm, "segments", n1, u1[nm], n2, u2[nm], 0 if nm in ("housekeeping", "rebuild") else KEEP_SEG,
                FIXED + WINDOW + SORT)


def lists(ctx, case):
    """Lists of IDs"""
    rng = ctx.rng
    b = Bench(ctx)
    a = archive(ctx, "a", maxsize="1M")
    ids = [i for i, _ in fill(ctx, a, 1, 300)]
    r = b.run(a, "reindex")
    if r is None:
        return
    got = []
    for n in (400, rng.randrange(15000, 30000)):
        l = [rng.choice(ids) if rng.random() < .3 else "%032x" % rng.getrandbits(128) for _ in range(n)]
        r = b.run(a, "filter", stdin="".join(x + "\n" for x in l).encode())
        if r is None:
            return
        got.append((n, r[1]))
    b.compare("filter", "lines", got[0][0], got[0][1], got[1][0], got[1][1], KEEP)
    got = []
    for n in (10, 200):
        r = b.run(a, "byid", *[rng.choice(ids) for _ in range(n)], rc=(n,))
        if r is None:
            return
        got.append((n, r[1]))
    b.compare("byid", "IDs", got[0][0], got[0][1], got[1][0], got[1][1])


def session(ctx, case):
    """A stevedore serves any number of requests"""
    rng = ctx.rng
    b = Bench(ctx)
    kind = ["data", "meta", "filter"][int(case[1:]) % 3]
    got = []
    for k, n in enumerate((20, rng.randrange(400, 600))):
        a = archive(ctx, "a%d" % k, maxsize="1M", sort_size="64k")
        r = a.store(b"the first one")
        if r.rc != 0:
            raise RuntimeError(r.brief())
        rid = a.rid(b"the first one")

        def limit():
            resource.setrlimit(resource.RLIMIT_NOFILE, (24, 24))
        p = subprocess.Popen(a.argv("stevedore"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            env=dict(core.BASE_ENV, **b.env()), cwd=b.cwd, start_new_session=True, preexec_fn=limit)
        ctx.stats["sessions"] += 1
        cnt = [0] * 8
        err = []

        def replies():
            f = p.stdout
            while True:
                c = f.read(1)
                if not c:
                    return
                n = {0: 0, 1: 32}.get(c[0] >> 6)
                if n is None:
                    x = f.read(1 if c[0] >> 6 == 2 else 4)
                    n = int.from_bytes(x, "big")
                f.read(n)
                cnt[c[0] & 7] += 1
        t = [threading.Thread(target=replies), threading.Thread(target=lambda: err.append(p.stderr.read()))]
        for x in t:
            x.start()
        watch = threading.Timer(200, p.kill)
        watch.start()
        try:
            for i in range(n):
                x = b"%d %d" % (i, rng.getrandbits(64))
                if kind == "data":
                    p.stdin.write(frame(DATA, x) + frame(DATA, b""))
                elif kind == "meta":
                    p.stdin.write(frame(META, a.uri(rid)[-len(rid):].encode()) + frame(META, x) + frame(META, b""))
                    if i % 4 == 3:
                        # They are all of them done at once
                        p.stdin.flush()
                        t1 = time.monotonic() + 60
                        while cnt[META] <= i and p.poll() is None and time.monotonic() < t1:
                            time.sleep(.001)
                else:
                    p.stdin.write(frame(FILTER, hashlib.sha256(x).hexdigest()[:len(rid)].encode()) + frame(FILTER, b""))
                if rng.random() < .1:
                    p.stdin.flush()
                if kind == "filter":
                    # or they are all of them queued, as they must
                    time.sleep(.003)
            p.stdin.close()
        except BrokenPipeError:
            pass
        p.wait()
        for x in t:
            x.join()
        dead = watch.finished.is_set()
        watch.cancel()
        want = {"data": DATA, "meta": META, "filter": FILTER}[kind]
        b.left("stevedore", p.pid)
        if dead:
            ctx.violate("session-hung", "a session of %d %s requests does not end" % (n, kind))
            return
        if p.returncode != 0 or cnt[want] < n:
            ctx.violate("limited:stevedore", "session of %d %s requests with 24 descriptors: status %s, %d replies" % (
                n, kind, p.returncode, cnt[want]), err=err[0][-1000:])
            return
        u = [x for x in b.uses() if x.pid == p.pid]
        if len(u) != 1:
            ctx.inconclusive.append("no account of a stevedore")
            return
        got.append((n, u[0]))
        a.destroy()
    # Filters wait in a queue, objects and metadata do not
    b.compare("stevedore", kind, got[0][0], got[0][1], got[1][0], got[1][1], KEEP if kind == "filter" else 0, 2048)


def trees(ctx, case):
    """stow of trees"""
    rng = ctx.rng
    b = Bench(ctx)
    got = []
    for k, n in enumerate((20, 240)):
        a = archive(ctx, "a%d" % k, maxsize="1M", sort_size="64k")
        d = os.path.join(ctx.dir, "tree%d" % k)
        os.makedirs(d + "/sub")
        for i in range(n):
            with open(d + rng.choice(["/", "/sub/"]) + "f%d" % i, "wb") as f:
                f.write(b"%d %d" % (i, rng.getrandbits(64)))
        a.cfg.extra = "stow.j:\n\tdirectory\t%s\n\tcmd\t%s -c %s stevedore\n" % (d, a.argv()[0], a.conf)
        a.write_conf()
        r = b.run(a, "stow", "j", nofile=32, env={"PATH": SHIM + ":" + core.BASE_ENV["PATH"]})
        if r is None:
            return
        got.append((n, r[1]))
        # and once more, when there is nothing left to do
        r = b.run(a, "stow", "j", nofile=32, env={"PATH": SHIM + ":" + core.BASE_ENV["PATH"]})
        if r is None:
            return
        a.destroy()
    b.compare("stow", "files", got[0][0], got[0][1], got[1][0], got[1][1], KEEP)
    # one large file
    got = []
    for k, n in enumerate((100000, rng.randrange(20000000, 30000000))):
        a = archive(ctx, "b%d" % k, maxsize="1G")
        d = os.path.join(ctx.dir, "big%d" % k)
        os.makedirs(d)
        with open(d + "/f", "wb") as f:
            f.write(rng.randbytes(n))
        a.cfg.extra = "stow.j:\n\tdirectory\t%s\n\tcmd\t%s -c %s stevedore\n" % (d, a.argv()[0], a.conf)
        a.write_conf()
        env = {"PATH": SHIM + ":" + core.BASE_ENV["PATH"]}
        r = b.run(a, "stow", "j", nofile=32, env=env)
        if r is None:
            return
        got.append((n, r[1]))
        a.destroy()
        shutil.rmtree(d)
    b.compare("stow", "bytes", got[0][0], got[0][1], got[1][0], got[1][1])


def errors(ctx, case):
    """Commands which fail leave nothing behind either"""
    rng = ctx.rng
    b = Bench(ctx)
    a = archive(ctx, "a", maxsize="20k", resource=("text/x",))
    body = rng.randbytes(70000)
    r = b.run(a, "store", "-m", "text/x", stdin=body, nofile=64)
    if r is None:
        return
    rid = a.rid(body)
    bad = ["store", "-m", "image/x"], ["store", "-r", "nonsense", "-t", "metadata"], ["store", "/nonexistent"], ["store", "a", "b"], \
        ["get"], ["get", "z"], ["get", "0" * len(rid)], ["byid", "0"], ["byid"], ["cgi"], ["audit", "/nonexistent"], ["filter", "-x"], \
        ["reindex", "/nonexistent"], ["rebuild", "/nonexistent"], ["info", "x"], ["mksilo", "x"], ["housekeeping", "x"], ["nonsense"], \
        ["dumpindex", "x"], ["stow", "nojob"], ["stow"], ["store", "-t", "x"]
    for x in rng.sample(bad, 10):
        r = b.run(a, *x, stdin=b"abc", rc=range(-15, 256), nofile=32)
        if r is not None:
            ctx.seen("failed", x[0], r[0].rc)
    # No room for the output
    for x in (["get", rid], ["dumpindex"], ["audit"]):
        with open("/dev/full", "wb") as f:
            r = a.cmd(*x, stdout_file=f, env=b.env(), cwd=b.cwd)
        b.uses()
        b.clean(x[0], r)
    # Nobody to read it
    for x in (["get", rid], ["dumpindex"]):
        rd, wr = os.pipe()
        os.close(rd)
        with os.fdopen(wr, "wb") as f:
            r = a.cmd(*x, stdout_file=f, env=b.env(), cwd=b.cwd)
        b.uses()
        b.clean(x[0], r)
    # No more descriptors
    for n in rng.sample(range(4, 12), 3):
        for x in (["get", rid], ["audit"], ["reindex"], ["filter"]):
            r = b.run(a, *x, stdin=rid.encode() + b"\n", rc=range(-15, 256), nofile=n)
            ctx.seen("nofile", x[0], n, r and r[0].rc)


def run_case(ctx, case):
    {"r": records, "o": large, "g": segments, "l": lists, "s": session, "t": trees, "e": errors, "x": similar}[case[0]](ctx, case)
