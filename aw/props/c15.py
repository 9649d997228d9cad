"""C15 Silos are append-only and failed commands change nothing"""
import os
import random
import stat
import time

from .. import core, gen, hist, warc
from . import c12

VARIANTS = ["plain", "ubsan"]
AUX_SO = {"fault": "fault.c"}
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: a monitor keeps every byte every silo ever had and compares after each "
    "operation of random histories and before every single file operation of the writing commands (the "
    "command is stopped there); complete snapshots (names, inodes, modes, times, contents) around commands "
    "which must not change anything")
NOTE = ("Every operation and, for the writing commands, every point between two of their system calls in the "
    "generated histories is checked; bounded by these histories.")
RULE = ("random configurations and histories with write-protected silos; 40 kinds of read-only and refused "
    "commands; every preemption point of 8 writing commands, a foreign silo put in their way there; distinct = (command kind, outcome) or "
    "(writing command, operation)")
NEED = {"silo_comparisons": 40000, "readonly_commands": 1800, "refused_commands": 1200,
    "midpoints": 5000, "protected": 150, "foreign": 60}


def cases(tier, seed):
    n = 3 if tier == "quick" else 50
    return ["m:%s:%d" % (k, i) for i in range(3 * n) for k in c12.WRITERS + ["reindex", "forced", "stow"]] + \
        ["f:%s:%d" % (k, i) for i in range(n) for k in c12.WRITERS if k != "hk"] + \
        ["h%d" % i for i in range(60 * n)] + ["r%d" % i for i in range(40 * n)]


class Monitor(object):
    """Remembers all silos"""

    def __init__(self, h):
        self.h = h
        self.known = {}      # path -> (bytes, mode)
        self.look("start")

    def look(self, what, complete=True):
        """Compare everything with what it was; -> False if violated"""
        a = self.h.a
        ctx = self.h.ctx
        now = a.silo_files()
        for p, (b, mode) in self.known.items():
            ctx.stats["silo_comparisons"] += 1
            if p not in now:
                self.h.bad("silo-gone", "silo %s is gone after %s" % (p, what))
                return False
            m2 = os.stat(now[p]).st_mode
            with open(now[p], "rb") as f:
                b2 = f.read()
            if b2[:len(b)] != b:
                k = "shortened" if len(b2) < len(b) else "changed"
                self.h.bad("silo-" + k, "silo %s was %s by %s (%d bytes, was %d)" % (p, k, what, len(b2), len(b)))
                return False
            if not mode & stat.S_IWUSR and b2 != b:
                self.h.bad("protected", "write-protected silo %s grew from %d to %d bytes by %s" % (
                    p, len(b), len(b2), what))
                return False
            if m2 != mode:
                self.h.bad("mode", "mode of silo %s went from %o to %o by %s" % (p, mode, m2, what))
                return False
            self.known[p] = (b2, m2)
        for p in now:
            if p not in self.known:
                with open(now[p], "rb") as f:
                    self.known[p] = (f.read(), os.stat(now[p]).st_mode)
                ctx.stats["silos"] += 1
        if complete:
            ctx.stats["evaluations"] += 1
            m = warc.load(a)
            for k, msg in m.errs:
                if k.startswith("segment"):
                    continue
                self.h.bad("incomplete-" + k, "%s after %s" % (msg, what))
            j = a.junk()
            if j:
                self.h.bad("junk", "%s left behind after %s" % (j, what))
            return not ctx.violations
        return True

    def protect(self, rng):
        """Write-protect some silo"""
        now = self.h.a.silo_files()
        if not now:
            return
        p = rng.choice(sorted(now))
        mode = os.stat(now[p]).st_mode
        if not mode & stat.S_IWUSR:
            os.chmod(now[p], stat.S_IMODE(mode) | stat.S_IWUSR)
        else:
            os.chmod(now[p], rng.choice([0o444, 0o400, 0o440, 0o555, 0o464]))
            self.h.ctx.stats["protected"] += 1
        self.h.log.append("chmod %o %s" % (os.stat(now[p]).st_mode & 0o777, p))
        self.known[p] = (self.known[p][0], os.stat(now[p]).st_mode)


def snapshot(a):
    """Everything there is to see of the archive"""
    d = {}
    for dp, dn, fn in os.walk(a.dir):
        st = os.stat(dp)
        d[dp] = (st.st_ino, st.st_mode, st.st_mtime_ns, sorted(dn + fn))
        for f in fn:
            p = os.path.join(dp, f)
            st = os.lstat(p)
            with open(p, "rb") as fh:
                b = fh.read()
            d[p] = (st.st_ino, st.st_mode, st.st_mtime_ns, st.st_uid, st.st_nlink, b)
    return d


def compare(h, s0, s1, what, sig, r):
    if s0 == s1:
        return True
    x = sorted(p[len(h.a.dir):] or "./" for p in set(s0) | set(s1) if s0.get(p) != s1.get(p))
    n = [p[len(h.a.dir):] for p in s1 if p not in s0]
    # times alone only count for files
    h.bad(sig, "%s changed the archive: %s%s" % (what, x[:6], " (new: %s)" % n[:4] if n else ""), r)
    return False


def readonly(h, rng):
    """-> (name, args, stdin, env) of a command which only reads"""
    a = h.a
    rid = rng.choice(h.order)
    no = "%0*x" % (a.cfg.idlen, rng.getrandbits(a.cfg.idlen * 4))
    any_ = rng.choice([rid, rid, rid, no, rid[:12], rid[:-1], a.uri(rid), "xyzzy", "", "-", rid + "0"])
    out = os.path.join(a.root, "o%d" % h.ctx.uniq())
    lst = "".join((x + "\n") for x in rng.sample(h.order, min(3, len(h.order))) + [no]).encode()
    cgi = {"PATH_INFO": "/" + a.uri(rng.choice([rid, no])), "REQUEST_METHOD": rng.choice(["GET", "HEAD", "POST"]),
        "GATEWAY_INTERFACE": rng.choice(["CGI/1.1"] * 4 + ["CGI/2.0"])}
    if rng.random() < .3:
        cgi["HTTP_ACCEPT_ENCODING"] = "gzip"
    dev = rng.choice(["/dev/full", "/nonexistent/x", out])
    l = [
        ("get", ["get", any_], b"", {}),
        ("get-q", ["get", "-q", any_], b"", {}),
        ("get-n", ["get", "-n", any_], b"", {}),
        ("get-z", ["get", "-z", any_], b"", {}),
        ("get-o", ["get", "-o", dev, any_], b"", {}),
        ("cgi", ["cgi"], b"", cgi),
        ("byid", ["byid", any_], b"", {}),
        ("byid-e", ["byid", "-e", any_, rid[:rng.randrange(24)]], b"", {}),
        ("byid-none", ["byid"], b"", {}),
        ("dumpindex", ["dumpindex"], b"", {}),
        ("dumpindex-t", ["dumpindex", "-t", rng.choice(["resource", "metadata", "warcinfo", "bogus"])], b"", {}),
        ("dumpindex-id", ["dumpindex", any_], b"", {}),
        ("filter", ["filter"] + rng.choice([[], ["-r"], ["-v"], ["-s"], ["-r", "-v"]]), lst, {}),
        ("filter-bad", ["filter"], lst + any_.encode() + b"\n", {}),
        ("filter-o", ["filter", "-o", dev], lst, {}),
        ("audit", ["audit"], b"", {}),
        ("audit-i", ["audit", "-i", "ignore-metadata-record-id"], b"", {}),
        ("audit-n", ["audit", str(rng.choice(list(a.silo_nums()) + [99, 12345]))], b"", {}),
        ("audit-f", ["audit", rng.choice(list(a.silo_files().values()))], b"", {}),
        ("info", ["info"] + rng.choice([[], ["-j"], ["x"]]), b"", {}),
    ]
    return rng.choice(l)


def refused(h, rng):
    """-> (name, args, stdin, env) of a command which must be refused"""
    a = h.a
    rid = rng.choice(h.order)
    no = "%0*x" % (a.cfg.idlen, rng.getrandbits(a.cfg.idlen * 4))
    b = gen.rbytes(rng, rng.choice([1, 100, 3000, a.cfg.maxbytes * 2]))
    have = sorted(a.silo_nums())
    short = rid[:rng.choice([1, 8, len(rid) - 1])]
    junk = rng.choice(["zz" + rid[2:], rid + "00", short, "file://other/" + rid, "", "x"])
    l = [
        ("mime", ["store", "-m", "image/notconfigured"], b, {}),
        ("mime-long", ["store", "-m", "text/" + "x" * rng.choice([3000, 5000, 100000])], b, {}),
        ("mime-ctl", ["store", "-m", "text/plain" + rng.choice("\r\n\t\x01\x7f")], b, {}),
        ("type", ["store", "-t", rng.choice(["warcinfo", "continuation", "x", ""]), "-m", "text/plain"], b, {}),
        ("empty", ["store", "-m", "text/plain"], b"", {}),
        ("empty-meta", ["store", "-m", "text/plain", "-t", "metadata", "-r", rid], b"", {}),
        ("nofile", ["store", "-m", "text/plain", "/nonexistent/file"], b, {}),
        ("dir", ["store", "-m", "text/plain", a.root], b, {}),
        ("two", ["store", "-m", "text/plain", a.conf, a.conf], b, {}),
        ("opt", ["store", "-x", "-m", "text/plain"], b, {}),
        ("meta-noref", ["store", "-t", "metadata", "-m", "text/plain"], b, {}),
        ("meta-badref", ["store", "-t", "metadata", "-m", "text/plain", "-r", junk], b, {}),
        ("meta-unref", ["store", "-t", "metadata", "-m", "text/plain", "-r", no], b, {}),
        ("meta-badid", ["store", "-t", "metadata", "-m", "text/plain", "-r", rid, "-i", junk], b, {}),
        ("res-ref", ["store", "-m", "text/plain", "-r", rid], b, {}),
        ("res-id", ["store", "-m", "text/plain", "-i", no], b, {}),
        ("mksilo-there", ["mksilo", str(rng.choice(have))], b"", {}),
        ("mksilo-none", ["mksilo"], b"", {}),
        ("unknown", ["frobnicate", rid], b"", {}),
        ("no-command", [], b"", {}),
        ("stow-nojob", ["stow"], b"", {}),
        ("stow-opt", ["stow", "-x"], b"", {}),
        ("rebuild-nofile", ["rebuild", "/nonexistent/silo"], b"", {}),
        ("stevedore-junk", ["stevedore"], bytes([rng.randrange(2) | 0x80, 200]) + b"x" * rng.randrange(100), {}),
        ("stevedore-none", ["stevedore"], b"", {}),
    ]
    return rng.choice(l)


def observe(h, mon, rng):
    """One command which must not change anything"""
    ctx = h.ctx
    a = h.a
    hold = None
    if rng.random() < .55:
        kind = "readonly"
        name, args, stdin, env = readonly(h, rng)
    else:
        kind = "refused"
        name, args, stdin, env = refused(h, rng)
        if rng.random() < .08:
            # A hold makes that silo unavailable
            n = max(a.silo_nums()) + 5
            hold = a.silo_path(n, True)
            os.makedirs(os.path.dirname(hold), exist_ok=True)
            open(hold, "w").close()
            name, args, stdin, env = "mksilo-held", ["mksilo", str(n)], b"", {}
    conf = None
    if kind == "refused" and rng.random() < .1:
        # a good command, but the configuration is not
        name = "config"
        args = rng.choice([["store"], ["housekeeping"], ["reindex"], ["mksilo", "77"]])
        stdin = b"hello" + gen.rbytes(rng, 8)
        conf = a.conf + ".bad"
        t = open(a.conf).read()
        c = rng.randrange(5)
        if c == 0:
            t = t.replace("silo.directory:", "silo.dirctory:")
        elif c == 1:
            t = t.replace("silo.max_size:", "silo.max_size") if "silo.max_size:" in t \
                else t.replace("silo.directory:", "silo.directory")
        elif c == 2:
            t += "silo.max_size:\n\tnonsense\n" if "silo.max_size" not in t else ""
            t = t.replace("silo.max_size:\n\t", "silo.max_size:\n\t-")
        elif c == 3:
            t = t.replace("WARC-Record-ID:\n\t%s" % a.cfg.prefix, "WARC-Record-ID:\n\t%sx" % a.cfg.prefix)
        else:
            t = ""
        assert t != open(a.conf).read()
        open(conf, "w").write(t)
    s0 = snapshot(a)
    argv = a.argv(*args, variant=h.var())
    if conf:
        argv[2] = conf
    r = core.run(argv, stdin=stdin, env=env)
    s1 = snapshot(a)
    what = "%s (%s) rc=%s" % (name, " ".join(args)[:200], r.rc)
    h.log.append(what[:120])
    ctx.stats[kind + "_commands"] += 1
    ctx.stats["evaluations"] += 1
    ctx.seen(kind, name, r.rc)
    if kind == "refused" and not name.startswith("stevedore") and r.rc == 0:
        h.bad("accepted:" + name, "%s should have been refused" % what, r)
    ok = compare(h, s0, s1, what, "%s-%s" % (kind, name), r)
    if hold:
        os.unlink(hold)
    return ok and not ctx.violations


def cfg_for(rng):
    cfg = hist.random_cfg(rng, small=True, sizes=["5k", "6000", "7k", "9k", "15k", "20k", "20k", "33k", "64k", "64k"])
    cfg.resource = ["text/plain", "application/*", "application/octet-stream", "x/y"] + \
        [m.split(";")[0] for m in hist.MIMES]
    return cfg


def history_case(ctx, case):
    rng = ctx.rng
    cfg = cfg_for(rng)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    h.mimes = [m for m in hist.MIMES if " " not in m]
    mon = Monitor(h)
    for step in range(rng.randrange(15, 40)):
        c = rng.random()
        if c < .12:
            mon.protect(rng)
            continue
        if c < .16:
            for f in rng.sample(["index.appendix", "index.sorted"], rng.randrange(1, 3)):
                if os.path.exists(a.dir + f):
                    os.unlink(a.dir + f)
            r = a.cmd("reindex", variant=h.var())
            h.log.append("reindex -> %s" % r.rc)
            if not h.ok(r, "reindex"):
                return
        elif c < .20:
            # the cache is nothing but a hint
            d = (rng.randrange(5)).to_bytes(4, "big") + (rng.randrange(5)).to_bytes(4, "big")
            d = rng.choice([None, b"", d[:3], d, d])
            if d is None:
                if os.path.exists(a.dir + "_.cache"):
                    os.unlink(a.dir + "_.cache")
            else:
                open(a.dir + "_.cache", "wb").write(d)
            h.log.append("cache %r" % d)
            continue
        elif c < .25 and h.order:
            f = "%0*x" % (cfg.idlen, rng.getrandbits(cfg.idlen * 4))
            if h.metadata(forced=f) is None:
                return
        elif c < .5 and h.order:
            if not observe(h, mon, rng):
                return
        else:
            if not h.random_ops(1, p_mksilo=.15):
                return
        if not mon.look(h.log[-1] if h.log else "-"):
            return
    if h.order:
        h.get_all(sample=6)
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:40]))


def readonly_case(ctx, case):
    """Many commands on the same archive"""
    rng = ctx.rng
    a = core.Archive(ctx, cfg=cfg_for(rng))
    h = hist.Hist(ctx, a, VARIANTS)
    h.mimes = [m for m in hist.MIMES if " " not in m]
    mon = Monitor(h)
    if h.store(n=100) is None or not h.random_ops(rng.randrange(4, 14)):
        return
    if rng.random() < .3:
        # Damaged archives are not touched either
        fn = rng.choice(sorted(a.silo_files().values()) + [a.dir + x for x in
            ("index.appendix", "index.sorted", "_.cache") if os.path.exists(a.dir + x)])
        b = bytearray(open(fn, "rb").read())
        if b:
            if rng.random() < .5:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            else:
                del b[rng.randrange(len(b)):]
            open(fn, "wb").write(b)
        damaged = True
    for _ in range(45):
        name_args = observe_ro(h, rng) if 'damaged' in locals() else observe(h, mon, rng)
        if not name_args:
            return


def observe_ro(h, rng):
    """Read-only command on a damaged archive"""
    name, args, stdin, env = readonly(h, rng)
    s0 = snapshot(h.a)
    r = core.run(h.a.argv(*args, variant=h.var()), stdin=stdin, env=env)
    s1 = snapshot(h.a)
    h.ctx.stats["readonly_commands"] += 1
    h.ctx.stats["evaluations"] += 1
    h.ctx.seen("damaged", name, r.rc)
    return compare(h, s0, s1, "%s on a damaged archive (%s)" % (name, " ".join(args)[:200]), "readonly-" + name, r)


def mid_case(ctx, case):
    """Look between any two operations of a command which writes"""
    rng = ctx.rng
    kind = case.split(":")[1]
    cfg = hist.random_cfg(rng, sizes=["5k", "6000", "7k", "9k", "15k"])
    x = c12.base(ctx, cfg=cfg)
    if x is None:
        return
    h0, shared = x
    prot = Monitor(h0)
    if rng.random() < .5:
        prot.protect(rng)
    h = c12.clone(h0, "w")
    a = h.a
    mon = Monitor(h)
    mon.known = {p: (b, m) for p, (b, m) in mon.known.items()}
    stdin = None
    env = {}
    if kind == "reindex":
        for f in rng.sample(["index.appendix", "index.sorted"], rng.randrange(1, 3)):
            if os.path.exists(a.dir + f):
                os.unlink(a.dir + f)
        args = ["reindex"]
    elif kind == "forced":
        args = ["store", "-t", "metadata", "-m", "text/plain", "-r", rng.choice(h.order), "-i",
            "%0*x" % (cfg.idlen, rng.getrandbits(cfg.idlen * 4))]
        stdin = gen.rbytes(rng, 300)
    elif kind == "stow":
        args = ["stevedore"]
        frames = b""
        for i in range(3):
            b = gen.rbytes(rng, rng.randrange(256, 9000))
            frames += bytes([2 | 0xc0]) + len(b).to_bytes(4, "big") + b + bytes([2])
        stdin = frames
    else:
        c = c12.Cmd(kind, h, shared)
        args, stdin, env = c.args, c.stdin, dict(c.env)
    log = ctx.dir + "/oplog"
    e = dict(env)
    if kind == "stow":
        # Several processes, these are watched while they run
        e.update(core.fault_env(ctx, a.root, log=log, delay="%d:500:2000" % rng.getrandbits(30)))
    else:
        e.update(core.fault_env(ctx, a.root, at=1, act="stop", sticky=True, log=log))
    j = core.Job(a.argv(*args, variant=h.var()), stdin=stdin if stdin is not None else b"", env=e, dir=ctx.dir)
    n = 0
    while kind == "stow" and j.p.poll() is None:
        ctx.stats["watched"] += 1
        if time.monotonic_ns() - j.t0 > 50e9:
            break
        if not mon.look("stevedore while storing", complete=False):
            j.kill()
            return
    while kind != "stow" and j.wait_stopped():
        n += 1
        ctx.stats["midpoints"] += 1
        if not mon.look("%s before its operation %d" % (kind, n), complete=False):
            j.kill()
            return
        j.cont()
        if n > 5000:
            h.bad("endless", "%s does not terminate" % kind)
            j.kill()
            return
    r = j.finish()
    ops = core.read_oplog(log)
    for o in ops:
        ctx.seen(kind, o.op, o.klass())
    if r.rc != 0:
        h.bad("fail:" + kind, "%s did not succeed" % kind, r)
        return
    if not mon.look(kind):
        return
    ctx.sample(dict(command=kind, operations=[repr(o) for o in ops[:40]]))


def foreign_case(ctx, case):
    """A silo comes to be while the command is about to make one of that number"""
    rng = ctx.rng
    kind = case.split(":")[1]
    cfg = hist.random_cfg(rng, sizes=["5k", "6000", "7k", "9k", "15k"])
    x = c12.base(ctx, cfg=cfg)
    if x is None:
        return
    h0, shared = x
    foreign = {}

    def get_foreign(p):
        """A proper silo of that name, with something in it if possible"""
        if p not in foreign:
            h = c12.clone(h0, "f")
            for q in h.a.silo_files().values():
                os.chmod(q, 0o444)
            b = h.a.root + p
            r = h.a.cmd("store", "-m", "text/plain", stdin=gen.rbytes(rng, rng.randrange(20, 900)))
            if r.rc == 0 and not os.path.exists(b):
                r = h.a.cmd("mksilo", str(next(n for n in range(1000) if h.a.silo_path(n) == b)))
            if not h.ok(r, "foreign silo"):
                return None
            with open(b, "rb") as f:
                foreign[p] = f.read()
            h.a.destroy()
        return foreign[p]

    log = ctx.dir + "/oplog"
    for full in (1, 0):
        # with no room left in the silos there are, a new one is made
        h = c12.clone(h0, "w")
        if full:
            for p in h.a.silo_files().values():
                os.chmod(p, 0o444)
        c = c12.Cmd(kind, h, shared)
        j = c.start(core.fault_env(ctx, h.a.root, log=log))
        r = j.finish()
        ops = core.read_oplog(log)
        good = c.check(r, "alone")
        h.a.destroy()
        if not good:
            return
        # every operation while there is a hold
        first = next((i for i, o in enumerate(ops) if o.klass() == ".hold"), None)
        if first is None:
            continue
        last = max(i for i, o in enumerate(ops) if o.klass() == ".hold")
        pts = list(range(first + 2, last + 2))
        for k in rng.sample(pts, min(len(pts), 14)):
            h = c12.clone(h0, "w")
            a = h.a
            if full:
                for p in a.silo_files().values():
                    os.chmod(p, 0o444)
            mon = Monitor(h)
            c = c12.Cmd(kind, h, shared)
            j = c.start(core.fault_env(ctx, a.root, at=k, act="stop", log=log))
            put = []
            if j.wait_stopped():
                for p in a.holds():
                    p = p[:-5]
                    if not os.path.exists(p):
                        b = get_foreign(p[len(a.root):])
                        if b is None:
                            j.kill()
                            return
                        with open(p, "wb") as f:
                            f.write(b)
                        put.append(os.path.basename(p))
                what = "%s before its operation %s with a foreign %s" % (kind, ops[k - 1], put)
                if put:
                    ctx.stats["foreign"] += 1
                if not mon.look(what, complete=False):
                    j.kill()
                    return
                j.cont()
            r = j.finish()
            core.read_oplog(log)
            ctx.seen("foreign", kind, ops[k - 1].op, ops[k - 1].klass(), r.rc)
            if put:
                ctx.stats["foreign_rc%s" % ("0" if r.rc == 0 else "+")] += 1
            # The command may give up, but not at the expense of what is there
            if not mon.look(what, complete=r.rc == 0):
                return
            if r.rc == 0 and c.rid is not None:
                h.objs[c.rid] = c.obj
                h.order.append(c.rid)
            elif r.rc == 0 and kind == "mksilo" and not os.path.exists(a.silo_path(c.n)):
                h.bad("mksilo", "no silo %d after %s" % (c.n, what), r)
            h.log.append(what)
            for rid in h.order if r.rc == 0 else rng.sample(h.order, 3):
                if not h.get(rid):
                    return
            a.destroy()


def run_case(ctx, case):
    if case[0] == "f":
        return foreign_case(ctx, case)
    if case[0] == "m":
        return mid_case(ctx, case)
    if case[0] == "h":
        return history_case(ctx, case)
    return readonly_case(ctx, case)
