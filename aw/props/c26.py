"""C26 Encrypted backups of silos are complete and can be decrypted"""
import hashlib
import hmac
import json
import os
import re
import shutil
import subprocess
import sys
import time

from .. import build, core, gen, hist

VARIANTS = ["plain"]
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring: select_silos.py runs over histories of growing sets of silos with an audit hook recording every "
    "change it makes to files and what the staging directory holds just then; an independent oracle decrypts every staged file with "
    "openssl and checks the selection, the digests, the date file and the recorded events; it is killed at events")
NOTE = ("The package cryptography is not installed; a stand-in passes AES-CTR on to libcrypto, so the package itself is not part of "
    "what is checked. Silos have distinct file names, as AardWARC makes them unless configured otherwise.")
RULE = ("sets of silos (made up, with sizes around the block size, and real ones growing by stores), quotas from less than one silo to "
    "all, dates known, unknown or wrong, leftovers of killed runs, silos growing while read, kills before any event; distinct = (how "
    "many silos, how many of them fit, how many grew, leftovers, killed at which kind of event)")
NEED = {"runs": 300, "staged": 600, "partial": 100, "killed": 30, "restored": 40, "grown_while_read": 10}
ASSUMPTIONS = ["openssl and libcrypto are correct", "the stand-in for the package cryptography behaves like the package"]
CPU_LIMIT = 200
NOBODY = 65534


def cases(tier, seed):
    n = 1 if tier == "quick" else 15
    return ["r%d" % i for i in range(24 * n)] + ["m%d" % i for i in range(56 * n)] + ["k%d" % i for i in range(32 * n)]


UTIL = os.path.join(build.REPO, "utilities")
STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "src", "pystub")


class World(object):
    """A directory with silos in it, and one for the backups"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        os.chmod(ctx.dir, 0o755)
        # where an unprivileged user can read them
        for d, to in ((STUB, "stub"), (UTIL, "util")):
            shutil.copytree(d, os.path.join(ctx.dir, to), ignore=shutil.ignore_patterns("__pycache__"))
            for dp, dn, fn in os.walk(os.path.join(ctx.dir, to)):
                os.chmod(dp, 0o755)
                for f in fn:
                    os.chmod(os.path.join(dp, f), 0o644)
        self.stub = os.path.join(ctx.dir, "stub")
        self.script = os.path.join(ctx.dir, "util", "select_silos.py")
        self.root = os.path.join(ctx.dir, "w")
        self.cwd = self.root + "/home"
        self.silodir = self.root + "/silos"
        self.staging = self.root + "/out/Staging"
        for d in (self.root, self.cwd, self.silodir, self.root + "/out"):
            os.mkdir(d)
        self.key = "%064x" % self.rng.getrandbits(256)
        self.skey = "%032x" % self.rng.getrandbits(128)
        self.put(self.cwd + "/secrets.txt", (self.key + self.rng.choice(["\n", " ", "\n\n"]) + self.skey + "\n").encode())
        self.log = []
        self.prev = None            # what was staged, as the last complete run left it
        self.env = {}

    def put(self, fn, b):
        with open(fn, "wb") as f:
            f.write(b)

    def silos(self):
        r = {}
        for dp, dn, fn in os.walk(self.silodir):
            for f in fn:
                if f.endswith(".warc.gz"):
                    r[f] = os.path.join(dp, f)
        return r

    def dates(self):
        d = {}
        try:
            with open(self.cwd + "/silodates.txt") as f:
                for ln in f:
                    n, t, s = ln.split()
                    if n in d:
                        self.bad("dates", "silodates.txt mentions %s twice" % n)
                    d[n] = (float(t), int(s))
        except FileNotFoundError:
            pass
        return d

    def set_dates(self, d):
        self.put(self.cwd + "/silodates.txt", b"".join(b"%s %.3f %d\n" % (n.encode(), t, s) for n, (t, s) in sorted(d.items())))

    def bad(self, sig, msg, r=None):
        self.ctx.violate(sig, msg, history=self.log[-12:], silos={n: os.path.getsize(p) for n, p in self.silos().items()},
            stderr=r.stderr.decode(errors="replace")[-1500:] if r else "")
        return False

    def own(self):
        for dp, dn, fn in os.walk(self.root):
            os.chown(dp, NOBODY, NOBODY)
            for f in fn:
                os.chown(os.path.join(dp, f), NOBODY, NOBODY)

    def look(self, d=None):
        d = d or self.staging
        if not os.path.isdir(d):
            return None
        r = [[".", os.stat(d).st_ino]]
        for f in sorted(os.listdir(d)):
            s = os.lstat(os.path.join(d, f))
            r.append([f, s.st_size, s.st_mtime_ns, s.st_ino])
        return r

    def python(self, argv, env, umask=0o77):
        self.own()
        e = dict(PATH="/usr/bin:/bin", HOME=self.cwd, PYTHONPATH=self.stub, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
        e.update(env)

        def pre():
            os.umask(umask)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        try:
            return subprocess.run([sys.executable] + argv, env=e, cwd=self.cwd, stdin=subprocess.DEVNULL, capture_output=True,
                preexec_fn=pre, timeout=core.TIMEOUT)
        except subprocess.TimeoutExpired:
            raise core.Hung(argv)

    def plain(self, fn, name):
        """Decrypt, without the script"""
        iv = hmac.new(bytes.fromhex(self.skey), name.replace(".bin", "").encode(), "sha256").hexdigest()[:32]
        p = subprocess.run(["openssl", "enc", "-d", "-aes-256-ctr", "-K", self.key, "-iv", iv, "-in", fn], capture_output=True)
        if p.returncode:
            raise RuntimeError("openssl: %r" % p.stderr)
        return p.stdout

    def staged(self, d, before, grow=None):
        """Check what is in the directory -> {name of silo: size}"""
        got = {}
        fs = set(os.listdir(d))
        want = set()
        for f in fs:
            if f.endswith(".warc.gz.bin"):
                want |= {f, f + ".sha256", f + ".hmac"}
        if fs != want:
            self.bad("files", "the staging directory has files %s and lacks %s" % (sorted(fs - want), sorted(want - fs)))
            return None
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not os.stat(p).st_mode & 0o004 or not os.path.isfile(p) or os.path.islink(p):
                self.bad("mode", "%s can not be read by others" % f)
                return None
            if not f.endswith(".bin"):
                continue
            n = f[:-4]
            if n not in before:
                self.bad("unknown", "%s was never a silo" % f)
                return None
            with open(p, "rb") as fh:
                b = fh.read()
            b2 = self.plain(p, n)
            w = before[n]
            ok = b2 == w
            if not ok and grow and n == grow[0] and len(b2) > len(w):
                ok = b2 == w + b"G" * grow[1]
                self.ctx.stats["grown_while_read"] += 1
            if not ok:
                self.bad("decrypt", "%s does not decrypt to the silo (%d bytes, %d wanted)" % (f, len(b2), len(w)))
                return None
            with open(p + ".sha256") as fh:
                x = fh.read()
            if x != "SHA256 (%s) = %s\n" % (f, hashlib.sha256(b).hexdigest()):
                self.bad("sha256", "%s.sha256 says %r" % (f, x))
                return None
            with open(p + ".hmac") as fh:
                x = fh.read()
            if x != hmac.new(bytes.fromhex(self.skey), b, "sha256").hexdigest() + "\n":
                self.bad("hmac", "%s.hmac says %r" % (f, x))
                return None
            got[n] = len(w)
            self.ctx.stats["staged"] += 1
        return got

    def run(self, quota, kill=0, grow=None, growat=0, label=""):
        """One run, and everything about it"""
        ctx = self.ctx
        before = {}
        for n, p in self.silos().items():
            with open(p, "rb") as f:
                before[n] = f.read()
        d0 = self.dates()
        look0 = self.look()
        prev = self.prev
        ev = self.root + "/events"
        if os.path.exists(ev):
            os.unlink(ev)
        env = dict(AA_STAGING=self.staging, AA_SILODIR=self.silodir, AW_EVENTS=ev, AW_WATCH=self.staging, AW_ROOT=self.root,
            AW_KILL=str(kill))
        if quota is not None:
            env["AA_QUOTA"] = str(quota)
        if grow:
            env.update(AW_GROW="%s:%d" % (self.silos()[grow[0]], grow[1]), AW_GROWAT=str(growat))
        t0 = time.time()
        r = self.python([self.script], env)
        t1 = time.time()
        self.log.append("run quota=%s kill=%d grow=%s -> %d %s" % (quota, kill, grow, r.returncode, label))
        ctx.stats["runs"] += 1
        ctx.stats["evaluations"] += 1
        evs = []
        if os.path.exists(ev):
            with open(ev) as f:
                evs = [json.loads(ln) for ln in f]
        ctx.stats["events"] += len(evs)
        self.nevents = len(evs)
        self.evs = evs
        killed = bool(kill) and r.returncode == -9
        if killed:
            ctx.stats["killed"] += 1
            ctx.seen("killed", evs[-1][1] if evs else "?", len(before) if len(before) < 4 else 4)
        elif r.returncode != 0:
            return self.bad("fail", "the run fails: %d" % r.returncode, r)
        # the silos are as they were
        after = {}
        for n, p in self.silos().items():
            with open(p, "rb") as f:
                after[n] = f.read()
        for n in set(before) | set(after):
            w = before.get(n)
            if after.get(n) != w and not (grow and n == grow[0] and after.get(n) == w + b"G" * grow[1]):
                return self.bad("touched", "silo %s is not as it was" % n, r)
        # what anybody saw in the staging directory while it ran
        look1 = self.look()
        seen = []
        for x in [look0] + [e[3] for e in evs] + [look1]:
            if not seen or x != seen[-1]:
                seen.append(x)
        real = [x for x in seen if x is not None]
        ok = [look0, look1] if look0 is not None else [look1]
        if any(x not in ok for x in real) or len(seen) > 3:
            return self.bad("half", "the staging directory held something else for some time: %s" % json.dumps(seen)[:900], r)
        ctx.stats["states"] += len(seen)
        # a killed run has replaced the directory, or not
        if look1 == look0 or look1 is None:
            if not killed:
                return self.bad("nothing", "nothing was staged", r)
            d1 = self.dates()
            if d1 != d0:
                # everything was written, not yet in place
                ctx.stats["killed_late"] += 1
                if set(d1) != set(before) | set(d0):
                    return self.bad("dates", "silodates.txt is about %s after a kill" % sorted(d1), r)
            return True
        got = self.staged(self.staging, before, grow)
        if got is None:
            return False
        if killed:
            ctx.stats["killed_after"] += 1
        for x in (".new", ".old"):
            if not killed and os.path.exists(self.staging + x):
                return self.bad("leftover", "%s is still there" % x, r)
        self.prev = got
        # are they the right ones
        d1 = self.dates()
        err = self.selection({n: len(b) for n, b in before.items()}, set(got), d0, d1, quota, t0, t1)
        if err and grow:
            # it may have grown before the size was looked at
            err2 = self.selection({n: len(b) + (grow[1] if n == grow[0] else 0) for n, b in before.items()}, set(got), d0, d1, quota,
                t0, t1)
            err = err2 and err
        if err:
            return self.bad(err[0], err[1], r)
        if len(got) < len(before):
            ctx.stats["partial"] += 1
        ctx.seen(len(before), len(got), sum(1 for n in before if n in d0 and d0[n][1] != len(before[n])),
            sum(1 for n in before if n not in d0), label)
        return True

    def selection(self, size, got, d0, d1, quota, t0, t1):
        key = {n: (-abs(sz - d0.get(n, (0, 0))[1]), d0.get(n, (0, 0))[0]) for n, sz in size.items()}
        lim = quota if quota is not None else 10 << 30
        q = sum(size[n] for n in got)
        why = json.dumps({x: (key[x], size[x], x in got) for x in size})
        if q > lim:
            return ("quota", "%d bytes staged, the quota is %d" % (q, lim))
        if len(got) < len(size):
            left = min(key[n] for n in size if n not in got)
            for n in got:
                if key[n] > left:
                    return ("order", "%s was staged, though others came before it: %s" % (n, why))
            # one which came next did not fit
            if not any(key[n] == left and q + size[n] > lim for n in size if n not in got):
                return ("less", "%d bytes staged, more would fit in %d: %s" % (q, lim, why))
        if set(d1) != set(size) | set(d0):
            return ("dates", "silodates.txt is wrong about %s" % sorted(set(d1) ^ (set(size) | set(d0))))
        for n, (t, s) in d1.items():
            if n in got:
                if s != size[n] or not t0 - .002 <= t <= t1 + .002:
                    return ("dates", "silodates.txt says %s was %d bytes when staged at %f (%d at %f...%f)" % (
                        n, s, t, size[n], t0, t1))
            elif (n in d0 and (abs(t - d0[n][0]) > .0011 or s != d0[n][1])) or (n not in d0 and (t, s) != (0, 0)):
                return ("dates", "silodates.txt says %s was staged at %f, %d bytes; it was not (%s)" % (n, t, s, d0.get(n)))
        return None

    def restore(self, n, want):
        """Encryption and Decryption is the same operation"""
        out = self.root + "/out/restored.warc.gz"
        r = self.python(["-c", "import sys; sys.path.insert(0, %r); import select_silos; select_silos.Encrypt_File(%r, %r)" % (
            os.path.dirname(self.script), os.path.join(self.staging, n + ".bin"), out)], {})
        if r.returncode:
            return self.bad("restore", "decrypting %s fails" % n, r)
        with open(out, "rb") as f:
            b = f.read()
        for x in ("", ".sha256", ".hmac"):
            if os.path.exists(out + x):
                os.unlink(out + x)
        self.ctx.stats["restored"] += 1
        if b != want:
            return self.bad("restore", "%s decrypts to something else" % n, r)
        return True

    def age(self, by=86400.0):
        """Time passes"""
        rng = self.rng
        d = self.dates()
        # those of one run are a moment apart, in the order they were staged
        o = sorted(d, key=lambda n: d[n][0])
        self.set_dates({n: (d[n][0] - by + (i - len(o)) * 10 if d[n][0] else 0, d[n][1]) for i, n in enumerate(o)})

    def debris(self):
        rng = self.rng
        for x in (".new", ".old"):
            if rng.random() < .5:
                p = self.staging + x
                if not os.path.exists(p):
                    os.mkdir(p)
                self.put(p + "/" + rng.choice(["junk", "00000000.warc.gz.bin", "zzz.warc.gz.bin.hmac"]), b"x")
                if rng.random() < .3 and not os.path.exists(p + "/sub"):
                    os.mkdir(p + "/sub")


SIZES = [0, 1, 2, 15, 16, 17, 100, 1000, 4096, 65535, 65536, 65537, 131072, 131073, 200000]


def made_up(w, n=None):
    """Silos nobody has to read"""
    rng = w.rng
    for i in rng.sample(range(12000), n or rng.randrange(1, 9)):
        d = rng.choice(["", "/0", "/0/%02d" % (i % 100), "/1/%02d/%02d" % (i // 100 % 100, i % 100)])
        os.makedirs(w.silodir + d, exist_ok=True)
        w.put(w.silodir + d + "/%s.warc.gz" % rng.choice(["%08d", "AA_%04d", "x.bin%d", "%d"]) % i, gen.rbytes(rng, rng.choice(SIZES)))
    for x in rng.sample(["index.sorted", "_.cache", "00000009.warc.gz.hold", "x.warc.gz_", "warc.gz", "a.warc"], rng.randrange(4)):
        w.put(w.silodir + "/" + x, b"not a silo")


def quotas(w):
    rng = w.rng
    s = sorted(os.path.getsize(p) for p in w.silos().values())
    k = rng.randrange(8)
    if k == 0:
        return None
    if k == 1:
        return max(1, sum(s))
    if k == 2:
        return max(1, sum(s) - 1)
    if k == 3:
        return max(1, s[-1])
    if k == 4:
        return max(1, s[-1] - 1)
    if k == 5:
        return max(1, sum(rng.sample(s, rng.randrange(1, len(s) + 1))))
    return rng.randrange(1, sum(s) + 2)


def some_dates(w):
    """A past"""
    rng = w.rng
    now = time.time()
    d = {}
    ts = [now - rng.choice([10, 100, 3600, 86400, 1e6, 1e8]) * (1 + rng.random()) for _ in range(4)]
    for n, p in w.silos().items():
        sz = os.path.getsize(p)
        if rng.random() < .7:
            t = round(rng.choice(ts) - rng.choice([0, 0, rng.randrange(5, 5000)]), 3)
            d[n] = (t, rng.choice([sz, sz, sz, max(0, sz - 1), sz // 2, 0, sz + 5]))
    if rng.random() < .15:
        d["gone.warc.gz"] = (round(ts[0], 3), rng.choice([0, 100, 10 ** 9]))
    if d or rng.random() < .5:
        w.set_dates(d)
    w.log.append("dates %s" % json.dumps(d)[:400])


def grow(w):
    rng = w.rng
    for n, p in w.silos().items():
        if rng.random() < .3:
            with open(p, "ab") as f:
                f.write(gen.rbytes(rng, rng.choice([1, 16, 100, 65536])))


def run_case(ctx, case):
    rng = ctx.rng
    w = World(ctx)
    if case[0] == "m":
        made_up(w)
        some_dates(w)
        for k in range(rng.randrange(3, 7)):
            if rng.random() < .2:
                w.debris()
            g = None
            if rng.random() < .25:
                n = rng.choice(sorted(w.silos()))
                g = (n, rng.choice([1, 100, 70000]))
            q = quotas(w)
            if not w.run(q, grow=g, growat=rng.randrange(1, 12), label="made up"):
                return
            if w.prev and rng.random() < .4:
                n = rng.choice(sorted(w.prev))
                with open(w.silos()[n], "rb") as f:
                    b = f.read()
                if not (g and n == g[0]) and not w.restore(n, b):
                    return
            w.age()
            if rng.random() < .6:
                grow(w)
            if rng.random() < .1 and len(w.silos()) > 1:
                os.unlink(rng.choice(sorted(w.silos().values())))
        # nothing grows any more: all are staged eventually
        q = max(1, max(os.path.getsize(p) for p in w.silos().values()) + rng.choice([0, 0, 10, 100000]))
        todo = {n: os.path.getsize(p) for n, p in w.silos().items() if w.dates().get(n, (0, -1))[1] != os.path.getsize(p)}
        for k in range(len(w.silos())):
            if not w.run(q, label="eventually"):
                return
            w.age()
            for n in w.prev:
                todo.pop(n, None)
        if todo:
            w.bad("never", "%s are not staged in %d runs" % (sorted(todo), len(w.silos())))
    elif case[0] == "k":
        made_up(w, rng.randrange(1, 5))
        some_dates(w)
        if rng.random() < .7:
            if not w.run(quotas(w)):
                return
            w.age()
            grow(w)
        q = quotas(w)
        # how many events are there
        shutil.copytree(w.root, ctx.dir + "/copy")
        if not w.run(q, label="trial"):
            return
        n = w.nevents
        prev = w.prev
        ks = list(range(1, n + 1))
        ks = sorted(set(rng.sample(ks, min(len(ks), 4 if ctx.tier == "quick" else 12)) + ks[-6:] if rng.random() < .7 else ks[-6:]))
        for k in ks:
            shutil.rmtree(w.root)
            shutil.copytree(ctx.dir + "/copy", w.root)
            w.log.append("copy")
            if not w.run(q, kill=k):
                return
            if rng.random() < .3:
                w.age()
                grow(w)
            if rng.random() < .2:
                if not w.run(q, kill=rng.randrange(1, n + 1)):
                    return
            if not w.run(q, label="after a kill"):
                return
    else:
        cfg = hist.random_cfg(rng, small=True)
        cfg.basename = rng.choice([None, "%08u.warc.gz", "AA_%04u.warc.gz"])
        a = core.Archive(ctx, cfg=cfg)
        h = hist.Hist(ctx, a)
        backup = {}
        for k in range(rng.randrange(2, 5)):
            for _ in range(rng.randrange(1, 5)):
                h.store(n=rng.choice([1, 100, 2000, 9000]))
            shutil.rmtree(w.silodir)
            shutil.copytree(a.dir, w.silodir)
            if ctx.violations:
                return
            if not w.run(None if rng.random() < .3 else quotas(w), label="real"):
                return
            for n in w.prev:
                backup[n] = w.plain(os.path.join(w.staging, n + ".bin"), n)
            w.age()
        q = max(os.path.getsize(p) for p in w.silos().values())
        for k in range(len(w.silos())):
            if not w.run(q, label="real"):
                return
            for n in w.prev:
                backup[n] = w.plain(os.path.join(w.staging, n + ".bin"), n)
            w.age()
        # what came back from the backup is the archive
        for n, p in w.silos().items():
            rel = os.path.relpath(p, w.silodir)
            w.put(a.dir + rel, backup.get(n, b""))
        ctx.stats["restored"] += 1
        h.get_all()
    ctx.sample(dict(case=case, silos=len(w.silos()), log=w.log[-3:]))
