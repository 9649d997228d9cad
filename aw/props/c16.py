"""C16 stow archives a whole directory tree"""
import hashlib
import json
import os
import re
import subprocess
import time

from .. import core, gen, hist, idx, warc

VARIANTS = ["plain", "ubsan", "san"]
AUX_SO = {"slow": "slow.c"}
AUX_EXE = {"relay": ("relay.c", ())}
LEVEL = "exploration"
CPU_LIMIT = 150
TECHNIQUE = ("runtime monitoring: the real stow runs against the real stevedore (directly, and through a relay "
    "which fragments, delays and cuts the connection) on generated directory trees; a monitor walks the "
    "file system itself and compares with what the archive delivers, parses the metadata and counts what was sent")
NOTE = ("Each run is decided completely (every file, mtree and metadata record); bounded by the trees, names, "
    "timings and cuts generated. mtree(8) is taken from the system or replayed from generated specifications "
    "in the same format.")
RULE = ("random trees with hostile names, empty and duplicate files, links, devices; several jobs, repeated runs; "
    "generated specifications (long lines, continuation lines, chunked output); files which change meanwhile; "
    "connections cut at random places, stevedores which fail; distinct = (kind, features, outcome)")
NEED = {"files_compared": 4000, "jobs_ok": 300, "failures_reported": 240, "relayed": 120, "mtrees": 300, "changes_recorded": 500, "slow_commands": 1500}

SHIM = "/opt/vp/compat/bin"

STUB = """#!/bin/sh
for last; do :; done
prev=
for a; do
	[ "$prev" = -p ] && dir=$a
	prev=$a
done
exec "$RELAY" $RANDOMSEED ${CHUNK:-100000} ${CDELAY:-0} none:0:0 cat "$dir.spec" </dev/null
"""

# As FreeBSD's and NetBSD's mtree: one which logs what it said, and may change things afterwards
LOGGER = """#!/bin/bash
export PATH=%s:$PATH
out=$(mktemp "%s/mtlog.XXXXXX")
mtree "$@" > "$out"
st=$?
%s
cat "$out"
exit $st
"""


def cases(tier, seed):
    n = 4 if tier == "quick" else 30
    return ["t%d" % i for i in range(24 * n)] + ["s%d" % i for i in range(24 * n)] + \
        ["f%d" % i for i in range(30 * n)] + ["c%d" % i for i in range(10 * n)] + \
        ["r%d" % i for i in range(8 * n)] + ["n%d" % i for i in range(2 * n)]


def name(rng):
    """The name of a file"""
    c = rng.random()
    if c < .35:
        return ("%s%d" % (rng.choice(["f", "file.", "README-", "x_"]), rng.randrange(10000))).encode()
    if c < .5:
        return bytes(rng.choice(b"abc XYZ#\\\"'*?[]=,;~$&|<>()\t%!@^-.") for _ in range(rng.randrange(1, 20)))
    if c < .6:
        return rng.choice(["æøå", "日本語", "..x", ".hidden", "-n", " lead", "trail ", "a\nb", "a\\", "type=dir",
            "/set"[1:], "sha256digest=00", "a\\040b", "\\", "\\\\", "a b c d", "%s%n", "x" * 255, "\x7f\x01",
            "...", "a..", "dir", ".. ", "#"]).encode() + (b"%d" % rng.randrange(3) if rng.random() < .5 else b"")
    while True:
        if c > .95:
            return b"_" * rng.randrange(2) + b"\xaf" + b"%d" % rng.randrange(100)
        b = bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 2, 5, 20, 60, 255])))
        b = b.replace(b"/", b"_")
        if b not in (b".", b".."):
            return b


def tree(ctx, top, nfiles, maxn, depth=4, pool=None):
    """Fill a directory -> {relpath: bytes} of all files"""
    rng = ctx.rng
    files = {}
    dirs = [b""]
    pool = pool if pool is not None else []
    for _ in range(nfiles):
        d = rng.choice(dirs)
        n = name(rng)[:255]
        if n in (b".", b"..", b""):
            continue
        p = d + n
        full = os.path.join(os.fsencode(top), p)
        if os.path.lexists(full) or len(full) > 3500:
            continue
        c = rng.random()
        try:
            if c < .15 and p.count(b"/") < depth and b"\n" not in n:
                # (newlines confuse the comments of the mtree we have)
                os.mkdir(full)
                dirs.append(p + b"/")
                continue
            if c < .20:
                os.symlink(rng.choice([b"nowhere", b"x\\", b".", b"a b", b"\xe5" * rng.choice([10, 1000, 4000])]), full)
                continue
            if c < .22:
                os.mkfifo(full)
                continue
            if c < .25 and files:
                os.link(os.path.join(os.fsencode(top), rng.choice(sorted(files))), full)
                with open(full, "rb") as f:
                    files[p] = f.read()
                continue
        except OSError:
            continue
        if pool and c < .45:
            b = rng.choice(pool)
        else:
            b = gen.content(rng, rng.choice([0, 1, 10, 100, 1000, 4090, 4091, 4092, 5000, 8182, 20000, maxn,
                rng.randrange(1, maxn + 1)]))
            pool.append(b)
        with open(full, "wb") as f:
            f.write(b)
        os.chmod(full, rng.choice([0o644, 0o600, 0o444, 0o755]))
        files[p] = b
    return files


def vis(b):
    o = ""
    for c in b:
        ch = chr(c)
        if ch in " \t\n#\\*?[":
            o += "\\%03o" % c
        elif 33 <= c < 127:
            o += ch
        else:
            o += "\\%03o" % c
    return o


def link_vis(b):
    return "".join("\\\\" if c == 92 else "\\M-%c" % (c & 127) if c > 160 and c < 255 else
        chr(c) if 33 <= c < 127 else "\\%03o" % c for c in b)


def spec(rng, top, files, extra_links=True):
    """A specification of these files, as mtree could have written it"""
    o = []
    root = {}
    for p, b in files.items():
        d = root
        w = p.split(b"/")
        for x in w[:-1]:
            d = d.setdefault(x, {})
        d[w[-1]] = b
    deft = [None]

    def line(indent, nm, kw):
        s = " " * indent + nm
        w = len(s)
        style = rng.randrange(3)
        for k in kw:
            if style == 0 or (style == 1 and w + len(k) < 70):
                s += " " + k
                w += len(k) + 1
            else:
                s += " \\\n" + " " * rng.choice([16, 4, 20]) + k
                w = 16 + len(k)
        o.append(s)

    def setline(t):
        deft[0] = t
        o.append("/set type=%s uid=0 gid=0 mode=0755 nlink=1" % t)

    def one(indent, nm, node):
        if isinstance(node, dict):
            line(indent, nm, ["type=dir"] if deft[0] != "dir" or rng.random() < .5 else ["nlink=2"])
            prev = deft[0]
            if rng.random() < .2:
                setline(rng.choice(["file", "dir"]))
            ents = list(node.items())
            rng.shuffle(ents)
            # mtree lists directories last
            ents.sort(key=lambda e: isinstance(e[1], dict))
            for k, v in ents:
                if extra_links and rng.random() < .08:
                    line(indent + 4, "lnk%d" % rng.randrange(1000), ["type=" + rng.choice(
                        ["link", "fifo", "socket", "block", "char"]), "mode=0777",
                        "link=" + link_vis(rng.choice([b"x", b"x\\", b"\xe5" * rng.choice([100, 2100, 4095])]))])
                one(indent + 4, vis(k), v)
                if rng.random() < .05:
                    o.append("")
                if rng.random() < .03:
                    o.append("    ")
            o.append(" " * indent + "..")
        else:
            kw = ["size=%d" % len(node), "sha256digest=" + hashlib.sha256(node).hexdigest()]
            if deft[0] != "file" or rng.random() < .5:
                kw.insert(rng.randrange(3), "type=file")
            if rng.random() < .3:
                kw.insert(0, "mode=0640")
            if rng.random() < .3:
                kw.append("time=1795123471.340809661")
            line(indent, nm, kw)

    setline(rng.choice(["file", "file", "dir"]))
    one(0, ".", root)
    if rng.random() < .5:
        # NetBSD's does not close the root
        o.pop()
    return "\n".join(o) + "\n"


class Stow(object):
    def __init__(self, ctx):
        rng = self.rng = ctx.rng
        self.ctx = ctx
        cfg = hist.random_cfg(rng, sizes=["20k", "33k", "64k", "100k", "150k", "1M"])
        self.a = core.Archive(ctx, cfg=cfg)
        self.h = hist.Hist(ctx, self.a, VARIANTS)
        self.jobs = {}       # name -> (directory, files)
        self.env = {"PATH": SHIM + ":" + core.BASE_ENV["PATH"]}
        self.bin = os.path.join(ctx.dir, "bin")
        os.makedirs(self.bin)
        self.sv = rng.choice(VARIANTS)
        self.slow = ""
        if rng.random() < .3:
            # the commands the stevedore starts are slow to start and to end
            self.slow = "env LD_PRELOAD=%s AWS_SEED=%d AWS_LOG=%s AWS_SPEC=%s " % (
                ctx.aux["slow"], rng.getrandbits(30), ctx.dir + "/slow.log",
                rng.choice(["0:2000", "0:30000", "0:100000", "3000:3000", "20000:50000"]))

    def add(self, nm, files_fn):
        d = os.path.join(self.ctx.dir, rng_dir(self.rng, len(self.jobs)))
        os.makedirs(d)
        self.jobs[nm] = (d, files_fn(d))
        return d

    def command(self, s):
        """The shell command which is the stevedore"""
        self.cmd = s

    def stevedore(self):
        return "%s%s -c %s stevedore" % (self.slow, self.ctx.bins[self.sv], self.a.conf)

    def relay(self, cut="none:0:0"):
        rng = self.rng
        self.ctx.stats["relayed"] += 1
        return "%s %d %d %d %s %s" % (self.ctx.aux["relay"], rng.getrandbits(30),
            rng.choice(([1, 3, 50] if sum(len(b) for d, f in self.jobs.values() for b in f.values()) < 600000
                else []) + [1000, 5000, 60000, 65536]) if cut == "none:0:0" else rng.choice([50, 5000, 65536]),
            rng.choice([0, 0, 0, 50]), cut, self.stevedore())

    def write(self, **excl):
        self.a.cfg.extra = "".join("stow.%s:\n\tdirectory\t%s\n\tcmd\t%s\n" % (
            n, d, self.cmd) + "".join("\t%s\t%s\n" % kv for kv in excl.items())
            for n, (d, f) in self.jobs.items())
        self.a.write_conf()

    def run(self, names=None, variant=None, **kw):
        names = names or list(self.jobs)
        self.n0 = self.metas()
        r = self.a.cmd("stow", *names, env=self.env, variant=variant or self.rng.choice(VARIANTS),
            reap=True, timeout=120, **kw)
        self.h.log.append("stow %s -> %s" % (" ".join(names), r.rc))
        self.ctx.stats["runs"] += 1
        if os.path.exists(self.ctx.dir + "/slow.log"):
            with open(self.ctx.dir + "/slow.log") as f:
                self.ctx.stats["slow_commands"] += len(f.read().split("\n")) - 1
            os.unlink(self.ctx.dir + "/slow.log")
        return r

    def metas(self):
        return {i for typ, i in self.index() if typ == "metadata"}

    def index(self):
        m = warc.load(self.a)
        self.model = m
        return [(r.type, r.id) for n, r in m.records()]

    def check(self, names, r, specs, changed=()):
        """After exit status zero"""
        ctx, a, h = self.ctx, self.a, self.h
        if r.crashed or r.rc != 0:
            h.bad("stow-failed", "stow %s did not succeed" % names, r)
            return False
        self.index()
        m = self.model
        for k, msg in m.errs:
            h.bad("silo-" + k, msg)
        objs = m.objects()
        for nm in names:
            d, files = self.jobs[nm]
            want = dict(files)
            for p, b in want.items():
                ctx.stats["files_compared"] += 1
                if not b or p in changed:
                    continue
                got = objs.get(a.rid(b))
                if not got or got[0][1] != b:
                    h.bad("file-missing", "job %r: file %r (%d bytes) is not in the archive after exit status 0" % (
                        nm, p, len(b)), r)
                    return False
                if len(got) != 1:
                    h.bad("file-twice", "job %r: file %r is in the archive %d times" % (nm, p, len(got)), r)
                    return False
            # the metadata
            found = None
            for rid, l in objs.items():
                if l[0][0] != "metadata":
                    continue
                try:
                    j = json.loads(l[0][1].decode("utf-8"))
                    if j[0] != "STOW3.0":
                        raise ValueError("no STOW3.0")
                    j = j[1]
                    if j["target"] != nm:
                        continue
                except (ValueError, KeyError, TypeError, IndexError) as e:
                    h.bad("bad-json", "metadata %s is not valid: %s: %r" % (rid, e, l[0][1][:500]), r)
                    return False
                if j["mtree"] == "sha256:" + specs[nm]:
                    found = (rid, j, l[0][2][0][1])
            if found is None:
                h.bad("no-metadata", "no metadata record for job %r naming mtree %s" % (nm, specs[nm]), r)
                return False
            rid, j, rec = found
            if not abs(j.get("time", 0) - time.time()) < 3600:
                h.bad("metadata-time", "time is %r" % j.get("time"))
            mid = specs[nm][:a.cfg.idlen]
            if rec.get("WARC-Refers-To") != "<" + a.uri(mid) + ">":
                h.bad("metadata-ref", "metadata refers to %r, not to the mtree %s" % (
                    rec.get("WARC-Refers-To"), mid), r)
            if rec.get("Content-Type") != "application/aardwarc-stow" and not (rec.get("Content-Type") or "").strip():
                h.bad("metadata-type", "content type of metadata: %r" % rec.get("Content-Type"))
            got = objs.get(mid)
            if not got or hashlib.sha256(got[0][1]).hexdigest() != specs[nm]:
                h.bad("no-mtree", "the mtree of job %r is not in the archive" % nm, r)
                return False
            ctx.stats["mtrees"] += 1
            ctx.stats["jobs_ok"] += 1
            ctx.stats["evaluations"] += 1
            if not b"SEND" in r.out and any(files.values()):
                ctx.stats["nothing_sent"] += 1
        return not ctx.violations

    def gets(self, names, changed=()):
        """Through the index, too"""
        for nm in names:
            d, files = self.jobs[nm]
            l = sorted(p for p in files if files[p] and p not in changed)
            for p in self.rng.sample(l, min(4, len(l))):
                r = self.a.cmd("get", "-q", self.a.rid(files[p]))
                self.ctx.stats["gets"] += 1
                if r.rc != 0 or r.out != files[p]:
                    self.h.bad("get", "file %r can not be retrieved" % p, r)
                    return


def rng_dir(rng, n):
    return "src%d" % n


def sane(s, r, what):
    """The archive must be well whatever happened"""
    m = warc.load(s.a)
    for k, msg in m.errs:
        if k.startswith("segment-"):
            continue
        s.h.bad("silo-" + k, "%s after %s" % (msg, what), r)
    app = set(idx.read_appendix(s.a.dir + "index.appendix"))
    lost = [e for e in idx.expected(m) if e[:4] not in {x[:4] for x in app}]
    if lost and not os.path.exists(s.a.dir + "index.sorted"):
        s.h.ctx.stats["not_indexed"] += len(lost)


def logger(s, action=""):
    """An mtree which keeps what it said, and maybe does something afterwards"""
    fn = os.path.join(s.bin, "mtree")
    with open(fn, "w") as f:
        f.write(LOGGER % (SHIM, s.bin, action))
    os.chmod(fn, 0o755)
    s.env["PATH"] = s.bin + ":" + core.BASE_ENV["PATH"]


def logged(s):
    """What mtree said -> list of sha256 in order of time"""
    l = [os.path.join(s.bin, f) for f in os.listdir(s.bin) if f.startswith("mtlog.")]
    l.sort(key=lambda p: os.stat(p).st_mtime_ns)
    r = [hashlib.sha256(open(p, "rb").read()).hexdigest() for p in l]
    for p in l:
        os.unlink(p)
    return r


def tree_case(ctx, case):
    """Real trees, the system's mtree"""
    rng = ctx.rng
    s = Stow(ctx)
    pool = []
    njobs = rng.choice([1, 1, 2, 3])
    for i in range(njobs):
        nm = "%s%d" % (rng.choice(["job", "j-x.y", "j\"q", "j\\b", "æ"]), i)
        s.add(nm, lambda d: tree(ctx, d, rng.choice([0, 1, 3, 10, 30]), rng.choice([5000, 30000, 300000]), pool=pool))
    logger(s)
    s.command(s.relay() if rng.random() < .4 else s.stevedore())
    s.write()
    # some are there already
    allb = [b for d, f in s.jobs.values() for b in f.values() if b]
    pre = rng.sample(allb, min(len(allb), rng.randrange(4)))
    for b in pre:
        if s.h.store(data=b, mime="application/octet-stream") is None:
            return
    for rnd in range(rng.choice([1, 2])):
        names = list(s.jobs)
        r = s.run(names)
        l = logged(s)
        if r.rc == 0 and len(l) != len(names):
            s.h.bad("mtree-count", "mtree ran %d times for %d jobs" % (len(l), len(names)), r)
            return
        if not s.check(names, r, dict(zip(names, l))):
            return
        if rnd == 1:
            sent = [x for x in r.out.split(b"\n") if x.startswith(b"SEND") and not x.endswith(b"${MTREE}")]
            if sent and not any(b"\n" in p for d, f in s.jobs.values() for p in f):
                s.h.bad("sent-again", "sent although it is in the archive: %r" % sent[:3], r)
        for x in r.out.split(b"\n"):
            if x.startswith(b"SEND") and pre and any(x[5:].startswith(b"./") and
                    s.jobs[names[0]][1].get(x[7:]) == b for b in pre) and njobs == 1:
                s.h.bad("sent-again", "%r was in the archive before" % x, r)
        s.gets(names)
        ctx.seen("tree", njobs, rnd, sum(len(f) for d, f in s.jobs.values()) // 5, "relay" in s.cmd)
        if rng.random() < .5:
            s.h.housekeeping()
        time.sleep(.01)
    ctx.sample(dict(files=[repr(p)[:60] for d, f in s.jobs.values() for p in f][:20], history=s.h.log))


def setup_stub(s, chunk=None):
    fn = os.path.join(s.bin, "mtree")
    with open(fn, "w") as f:
        f.write(STUB)
    os.chmod(fn, 0o755)
    s.env["PATH"] = s.bin + ":" + core.BASE_ENV["PATH"]
    s.env["RELAY"] = s.ctx.aux["relay"]
    s.env["RANDOMSEED"] = str(s.rng.getrandbits(30))
    s.env["CHUNK"] = str(s.rng.choice([1, 7, 100, 1000, 4096, 8191, 65536, 65536]))
    s.env["CDELAY"] = str(s.rng.choice([0, 0, 0, 20]))


def plain_tree(ctx, d, n, maxn):
    """Files whose names can be used in generated specifications"""
    return {p: b for p, b in tree(ctx, d, n, maxn, depth=12).items()}


def spec_case(ctx, case):
    """Generated specifications"""
    rng = ctx.rng
    s = Stow(ctx)
    specs = {}
    for i in range(rng.choice([1, 1, 2])):
        nm = "job%d" % i
        d = s.add(nm, lambda d: plain_tree(ctx, d, rng.choice([3, 10, 40]), rng.choice([100, 5000, 30000])))
        t = spec(rng, d, s.jobs[nm][1])
        with open(d + ".spec", "w") as f:
            f.write(t)
        specs[nm] = hashlib.sha256(t.encode()).hexdigest()
    setup_stub(s)
    s.command(s.relay() if rng.random() < .4 else s.stevedore())
    s.write()
    if rng.random() < .2:
        # the specification is in the archive already
        s.h.store(data=open(s.jobs["job0"][0] + ".spec", "rb").read())
    r = s.run()
    if not s.check(list(s.jobs), r, specs):
        ctx.violations[-1]["spec"] = open(s.jobs["job0"][0] + ".spec").read()[:3000]
        return
    s.gets(s.jobs)
    ctx.seen("spec", s.env["CHUNK"], len(s.jobs), max(len(x) for x in t.split("\n")) // 1000)
    ctx.sample(dict(spec=t[:800], chunk=s.env["CHUNK"]))


def many_case(ctx, case):
    """So many files that filtering happens in batches, nearly all in the archive already"""
    rng = ctx.rng
    s = Stow(ctx)
    base = [gen.rbytes(rng, 50 + i) for i in range(20)]
    for b in base:
        if s.h.store(data=b) is None:
            return
    new = [gen.rbytes(rng, 30 + i) for i in range(12)]
    n = rng.choice([5000, 30000, 42000, 90000])
    files = {}
    at = {rng.randrange(n): b for b in new}
    at[n - 1] = new[0] + b"x"

    def mk(d):
        for i, b in at.items():
            with open("%s/f%d" % (d, i), "wb") as f:
                f.write(b)
            files[b"f%d" % i] = b
        return files
    d = s.add("many", mk)
    hb = [hashlib.sha256(b).hexdigest() for b in base]
    ha = {i: hashlib.sha256(b).hexdigest() for i, b in at.items()}
    t = "/set type=file\n.  type=dir\n" + "".join("  f%d sha256digest=%s\n" % (
        i, ha.get(i) or hb[i % 20]) for i in range(n)) + "..\n"
    with open(d + ".spec", "w") as f:
        f.write(t)
    setup_stub(s)
    s.env["CHUNK"] = "65536"
    s.command(s.stevedore())
    s.sv = "plain"
    s.command(s.stevedore())
    s.write()
    r = s.run(variant=rng.choice(["plain", "ubsan"]))
    if s.check(["many"], r, {"many": hashlib.sha256(t.encode()).hexdigest()}):
        s.gets(["many"])
    ctx.stats["entries_filtered"] += n
    ctx.seen("many", n)


def fail_case(ctx, case):
    """A stevedore which disappears or refuses"""
    rng = ctx.rng
    s = Stow(ctx)
    s.add("job", lambda d: tree(ctx, d, rng.choice([1, 5, 20]), rng.choice([1000, 30000, 300000])))
    if not any(s.jobs["job"][1].values()):
        p = s.jobs["job"][0] + "/zz"
        open(p, "wb").write(b"zz" * 3000)
        s.jobs["job"][1][b"zz"] = b"zz" * 3000
    logger(s)
    for _ in range(4):
        c = rng.randrange(9)
        s.sv = rng.choice(VARIANTS)
        maybe = False
        if c == 0:
            k = "exit"
            s.command("exit %d" % rng.choice([0, 1, 42]))
        elif c == 1:
            k = "sleep-exit"
            s.command("sleep 0.05; exit %d" % rng.choice([0, 3]))
        elif c == 2:
            k = "notfound"
            s.command("/nonexistent/command")
        elif c == 3:
            k = "kill"
            s.command("kill -9 $$")
        elif c == 4:
            k = "no-answer"
            s.command("head -c %d > /dev/null" % rng.choice([1, 30, 60]))
        elif c in (5, 6):
            k = "cut-in"
            n = rng.choice([1, 33, 100, rng.randrange(1, 2000), rng.randrange(1, 40000)])
            s.command(s.relay("in:%d:%d" % (n, rng.choice([0, 0, 7]))))
            maybe = True
        elif c == 7:
            k = "cut-out"
            n = rng.choice([1, 30, 31, rng.randrange(1, 800)])
            s.command(s.relay("out:%d:%d" % (n, rng.choice([0, 0, 7]))))
            maybe = True
        else:
            k = "badconf"
            # It refuses the objects
            c2 = s.a.conf + ".2"
            t = s.a.cfg.text(s.a.dir)
            if rng.random() < .5:
                t = t.replace("resource.mime-types:\n\t*", "resource.mime-types:\n\timage/png")
            else:
                t = t.replace("metadata.mime-types:\n\t*", "metadata.mime-types:\n\timage/png")
            open(c2, "w").write(t)
            s.command(s.stevedore().replace(s.a.conf, c2))
        s.write()
        b = s.a.clone("w")
        s2 = object.__new__(Stow)
        s2.__dict__.update(s.__dict__)
        s2.a = b
        s2.h = object.__new__(hist.Hist)
        s2.h.__dict__.update(s.h.__dict__)
        s2.h.a = b
        # the stevedore works on the clone
        s2.cmd = s.cmd.replace(s.a.root + "/", b.root + "/")
        s2.write()
        if k == "badconf":
            fn = b.conf + ".2"
            t = open(fn).read().replace(s.a.root + "/", b.root + "/")
            open(fn, "w").write(t)
        r = s2.run()
        l = logged(s)
        ctx.stats["evaluations"] += 1
        ctx.seen("fail", k, r.rc, len(r.out) // 200)
        if r.rc == 0:
            if not maybe:
                s2.h.bad("failure-ignored:" + k, "stow exits 0 although the stevedore did `%s'" % s2.cmd[:200], r)
                return
            # It may have been complete by then
            if not s2.check(["job"], r, {"job": l[-1] if l else "?"}):
                ctx.violations[-1]["msg"] += " (connection cut: %s)" % s2.cmd[:300]
                return
            ctx.stats["completed_before_cut"] += 1
        else:
            ctx.stats["failures_reported"] += 1
        sane(s2, r, k)
        b.destroy()
        if ctx.violations:
            return
    ctx.sample(dict(history=s.h.log))


def change_case(ctx, case):
    """Files which change after mtree has seen them"""
    rng = ctx.rng
    s = Stow(ctx)
    s.add("job", lambda d: tree(ctx, d, 20, rng.choice([1000, 30000])))
    d, files = s.jobs["job"]
    # the list of changed files can be long
    many = rng.random() < .4
    n = rng.randrange(60, 300) if many else 4
    for i in range(n):
        open("%s/ch%d" % (d, i), "wb").write(b"before %d" % i + gen.rbytes(rng, 20))
        files[b"ch%d" % i] = open("%s/ch%d" % (d, i), "rb").read()
    kind = rng.choice(["grow", "replace", "shrink"] if many else ["grow", "replace", "shrink", "empty", "remove"])
    if many and kind == "shrink":
        kind = "grow"
    ch = rng.sample(range(n), rng.randrange(50, n + 1) if many else rng.randrange(1, 4))
    act = ""
    after = {}
    for i in ch:
        b = files[b"ch%d" % i]
        if kind == "grow":
            act += "echo more >> %s/ch%d\n" % (d, i)
            after[b"ch%d" % i] = b + b"more\n"
        elif kind == "replace":
            act += "echo 'other content %d' > %s/ch%d\n" % (i, d, i)
            after[b"ch%d" % i] = b"other content %d\n" % i
        elif kind == "shrink":
            act += "truncate -s 5 %s/ch%d\n" % (d, i)
            after[b"ch%d" % i] = b[:5]
        elif kind == "empty":
            act += ": > %s/ch%d\n" % (d, i)
        else:
            act += "rm %s/ch%d\n" % (d, i)
    logger(s, act)
    s.command(s.relay() if rng.random() < .3 else s.stevedore())
    s.write()
    r = s.run()
    l = logged(s)
    ctx.stats["evaluations"] += 1
    ctx.stats["changed_runs"] += 1
    ctx.seen("change", kind, r.rc, len(ch))
    # hard links share what is changed
    names = set(b"ch%d" % i for i in ch)
    links = {p for p, b in files.items() if any(b == files[x] for x in names)}
    if r.rc == 0:
        if kind in ("empty", "remove"):
            # nothing says what should be there instead
            if not s.check(["job"], r, {"job": l[-1]}, changed=links):
                return
            return
        old = {p: files[p] for p in names}
        for p in names:
            files[p] = after[p]
        if not s.check(["job"], r, {"job": l[-1]}, changed=links - names):
            return
        # and the metadata says so
        objs = s.model.objects()
        j = [json.loads(x[0][1])[1] for x in objs.values() if x[0][0] == "metadata"]
        chd = {}
        for x in j:
            chd.update(x.get("changed", {}))
        for p in names:
            k = "sha256:" + hashlib.sha256(old[p]).hexdigest()
            if chd.get(k) not in [("id:" + s.a.rid(after[q])) for q in names if old[q] == old[p]]:
                s.h.bad("changed", "metadata does not say that %r changed: %r" % (p, chd), r)
                return
        ctx.stats["changes_recorded"] += len(names)
    else:
        if kind in ("grow", "replace", "shrink"):
            s.h.bad("change-fails", "stow fails because a file changed (%s)" % kind, r)
            return
        ctx.stats["failures_reported"] += 1
    sane(s, r, kind)


def refuse_case(ctx, case):
    """Jobs which can not work"""
    rng = ctx.rng
    s = Stow(ctx)
    s.add("job", lambda d: tree(ctx, d, 5, 1000))
    logger(s)
    s.command(s.stevedore())
    s.write()
    t = s.a.cfg.text(s.a.dir)
    d = s.jobs["job"][0]
    l = [("nojob", ["nosuchjob"], t), ("one-bad", ["job", "nosuchjob"], t),
        ("nodir", ["job"], t.replace("\tdirectory\t" + d, "\tdirectory\t/nonexistent/dir")),
        ("no-directory", ["job"], t.replace("\tdirectory\t" + d + "\n", "")),
        ("unknown-word", ["job"], t + "\tfrobnicate\tx\n"),
        ("mtree-fails", ["job"], t), ("mtree-none", ["job"], t), ("mtree-killed", ["job"], t)]
    for k, args, text in l:
        with open(s.a.conf, "w") as f:
            f.write(text)
        mt = os.path.join(s.bin, "mtree")
        if k == "mtree-fails":
            open(mt, "w").write("#!/bin/sh\necho '/set type=file'\necho '. type=dir'\nexit 1\n")
        elif k == "mtree-killed":
            open(mt, "w").write("#!/bin/sh\necho '. type=dir'\nkill -9 $$\n")
        elif k == "mtree-none":
            os.unlink(mt)
        s.env["PATH"] = s.bin + ":" + (core.BASE_ENV["PATH"] if k != "mtree-none" else "/nonexistent")
        r = s.run(args)
        ctx.stats["evaluations"] += 1
        ctx.seen("refuse", k, r.rc)
        if r.rc == 0:
            s.h.bad("accepted:" + k, "stow exits 0 (%s)" % k, r)
            return
        ctx.stats["failures_reported"] += 1
        if not os.path.exists(mt):
            logger(s)
        sane(s, r, k)


def run_case(ctx, case):
    return {"t": tree_case, "s": spec_case, "f": fail_case, "c": change_case, "r": refuse_case,
        "n": many_case}[case[0]](ctx, case)
