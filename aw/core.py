"""Common machinery: scratch space, running AardWARC, configurations."""
import hashlib
import json
import os
import random
import re
import selectors
import shutil
import signal
import subprocess
import tempfile
import time

TIMEOUT = float(os.environ.get("AW_TIMEOUT", "60"))

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
        "detect_stack_use_after_return=1:handle_abort=0:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
}

BASE_ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/nonexistent",
    "LC_ALL": "C",
}
BASE_ENV.update(SAN_ENV)

COMPAT_BIN = "/opt/vp/compat/bin"


class Res(object):
    __slots__ = ("args", "rc", "out", "err", "hung", "t0", "t1")

    def __init__(self, args, rc, out, err, hung, t0=0, t1=0):
        self.args = args
        self.rc = rc
        self.out = out
        self.err = err
        self.hung = hung
        self.t0 = t0
        self.t1 = t1

    @property
    def crashed(self):
        return (self.rc is not None and self.rc < 0) or self.sanitizer

    @property
    def sanitizer(self):
        return b"ERROR: AddressSanitizer" in self.err or \
            b"runtime error:" in self.err

    def brief(self, n=1200):
        e = self.err.decode(errors="replace")
        if len(e) > n:
            e = e[:n // 2] + " ... " + e[-n // 2:]
        return "args=%s rc=%s%s out[%d]=%r err=%s" % (
            " ".join(str(a) for a in self.args), self.rc,
            " HUNG" if self.hung else "", len(self.out), self.out[:160], e)


class Hung(Exception):
    """A command did not terminate in time"""


OUT_CAP = 64 << 20


def _communicate(p, stdin, deadline):
    """Like Popen.communicate, but with a limit on the output.

    -> (out, err, hung)
    """
    sel = selectors.DefaultSelector()
    bufs = {}
    for f in (p.stdout, p.stderr):
        if f is not None:
            bufs[f] = []
            sel.register(f, selectors.EVENT_READ)
    view = None
    if p.stdin is not None:
        if stdin:
            view = memoryview(stdin)
            os.set_blocking(p.stdin.fileno(), False)
            sel.register(p.stdin, selectors.EVENT_WRITE)
        else:
            p.stdin.close()
    total = 0
    hung = False
    while sel.get_map():
        left = deadline - time.monotonic()
        if left <= 0 or total > OUT_CAP:
            hung = True
            break
        for key, _ in sel.select(min(left, 5)):
            f = key.fileobj
            if f is p.stdin:
                try:
                    n = os.write(f.fileno(), view[:65536])
                    view = view[n:]
                except BlockingIOError:
                    continue
                except BrokenPipeError:
                    view = view[:0]
                if not len(view):
                    sel.unregister(f)
                    try:
                        f.close()
                    except BrokenPipeError:
                        pass
            else:
                b = os.read(f.fileno(), 262144)
                if not b:
                    sel.unregister(f)
                    f.close()
                else:
                    bufs[f].append(b)
                    total += len(b)
    if not hung:
        try:
            p.wait(max(0.01, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            hung = True
    if hung:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    for f in (p.stdin, p.stdout, p.stderr):
        if f is not None and not f.closed:
            try:
                f.close()
            except OSError:
                pass
    sel.close()
    return (b"".join(bufs.get(p.stdout, ())), b"".join(bufs.get(p.stderr, ())), hung)


def group_alive(pgid):
    """Is any process of this group still running?"""
    try:
        os.killpg(pgid, 0)
    except ProcessLookupError:
        return False
    except PermissionError:
        return True
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    w = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(w[2]) == pgid and w[0] not in "ZX":
                return True
    return False


def reap_group(pgid, grace=5):
    """They may be in the middle of something; only what stays is killed"""
    t = time.monotonic()
    d = .0005
    while group_alive(pgid):
        if time.monotonic() > t + grace:
            try:
                os.killpg(pgid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            if time.monotonic() > t + grace + 5:
                return
        time.sleep(d)
        d = min(d * 1.5, .05)


def run(argv, stdin=None, env=None, timeout=None, cwd=None, stdin_file=None,
        stdout_file=None, preexec=None, replace_env=False, may_hang=False,
        reap=False):
    """Run to completion.  Raises Hung unless may_hang is set.

    reap: also wait for, and then kill, what the command may have left running
    """
    e = {} if replace_env else dict(BASE_ENV)
    if env:
        e.update(env)
    timeout = timeout or TIMEOUT
    t0 = time.monotonic_ns()
    p = subprocess.Popen(argv,
        stdin=stdin_file if stdin_file is not None else
            (subprocess.PIPE if stdin is not None else subprocess.DEVNULL),
        stdout=stdout_file if stdout_file is not None else subprocess.PIPE,
        stderr=subprocess.PIPE, env=e, cwd=cwd,
        start_new_session=True, preexec_fn=preexec)
    out, err, hung = _communicate(p, stdin, time.monotonic() + timeout)
    if reap:
        reap_group(p.pid)
    r = Res(argv, p.returncode, out, err, hung, t0, time.monotonic_ns())
    if hung and not may_hang:
        raise Hung(r.brief())
    return r


class Job(object):
    """A command running in the background, all its I/O through files"""

    def __init__(self, argv, stdin=None, env=None, dir=None, stdin_file=None):
        self.argv = argv
        e = dict(BASE_ENV)
        if env:
            e.update(env)
        self.fo = tempfile.TemporaryFile(dir=dir)
        self.fe = tempfile.TemporaryFile(dir=dir)
        fi = subprocess.DEVNULL
        self.fi = None
        if stdin_file is not None:
            fi = stdin_file
        elif stdin is not None:
            self.fi = fi = tempfile.TemporaryFile(dir=dir)
            fi.write(stdin)
            fi.flush()
            fi.seek(0)
        self.t0 = time.monotonic_ns()
        self.p = subprocess.Popen(argv, stdin=fi, stdout=self.fo, stderr=self.fe,
            env=e, start_new_session=True)
        self.pid = self.p.pid

    def wait_stopped(self, timeout=None):
        """Wait until it stops (True) or ends (False)"""
        dl = time.monotonic() + (timeout or TIMEOUT)
        d = .0002
        while True:
            pid, st = os.waitpid(self.pid, os.WUNTRACED | os.WNOHANG)
            if pid:
                if os.WIFSTOPPED(st):
                    return True
                self.p.returncode = os.waitstatus_to_exitcode(st)
                return False
            if time.monotonic() > dl:
                self.kill()
                raise Hung("waiting for stop: %s" % " ".join(self.argv))
            time.sleep(d)
            d = min(d * 1.3, .02)

    def cont(self):
        os.kill(self.pid, signal.SIGCONT)

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def finish(self, timeout=None, may_hang=False):
        hung = False
        if self.p.returncode is None:
            try:
                self.p.wait(timeout or TIMEOUT)
            except subprocess.TimeoutExpired:
                hung = True
                self.kill()
                self.p.wait()
        t1 = time.monotonic_ns()
        self.fo.seek(0)
        self.fe.seek(0)
        r = Res(self.argv, self.p.returncode, self.fo.read(OUT_CAP), self.fe.read(OUT_CAP),
            hung, self.t0, t1)
        for f in (self.fo, self.fe, self.fi):
            if f is not None:
                f.close()
        if hung and not may_hang:
            raise Hung(r.brief())
        return r


def fault_env(ctx, root, at=None, act=None, log=None, sticky=False, only=None,
        delay=None, stdin=False, stdout=False, frac=None):
    """Environment for the interposer src/fault.c"""
    e = {"LD_PRELOAD": ctx.aux["fault"], "AWF_ROOT": root}
    if at is not None:
        e["AWF_AT"] = str(at)
        e["AWF_ACT"] = act
    if log:
        e["AWF_LOG"] = log
    if sticky:
        e["AWF_STICKY"] = "1"
    if only:
        e["AWF_FROM"] = only
    if delay:
        e["AWF_DELAY"] = delay
    if frac is not None:
        e["AWF_FRAC"] = str(frac)
    if stdin:
        e["AWF_STDIN"] = "1"
    if stdout:
        e["AWF_STDOUT"] = "1"
    return e


class Op(object):
    __slots__ = ("n", "op", "path", "arg", "fault")

    def __init__(self, ln):
        f = ln.split(" ")
        self.fault = "<== FAULT" in ln
        if self.fault:
            f = f[:-2]
        self.n = int(f[0])
        self.op = f[1]
        self.path = " ".join(f[2:-1])
        self.arg = int(f[-1])

    def klass(self):
        """What kind of file"""
        p = self.path
        for s in (".hold", "index.appendix", "index.sorted", "index.housekeep",
                "index.tmp", "_.cache", ".conf", "<stdin>", "<stdout>"):
            if s in p:
                return s
        return "silo" if "/silos/" in p else "other"

    def __repr__(self):
        return "%d:%s(%s)" % (self.n, self.op, self.path)


def read_oplog(fn):
    try:
        with open(fn, errors="replace") as f:
            r = [Op(ln.rstrip("\n")) for ln in f if ln.strip()]
        os.unlink(fn)
        return r
    except FileNotFoundError:
        return []


class Cfg(object):
    """One AardWARC configuration"""

    def __init__(self, prefix="file://example.com/aa/", bits=128,
            maxsize="15k", maxbytes=None, basename="%08u.warc.gz",
            sort_size=None, resource=("*",), metadata=("*",),
            warcinfo=(("operator:", "Test Operator"), ("publisher:", "Pub")),
            extra=""):
        self.prefix = prefix
        self.bits = bits
        self.maxsize = maxsize
        self.maxbytes = maxbytes if maxbytes is not None else parse_size(maxsize)
        self.basename = basename
        self.sort_size = sort_size
        self.resource = resource
        self.metadata = metadata
        self.warcinfo = warcinfo
        self.extra = extra

    @property
    def idlen(self):
        return (self.bits or 128) // 4

    def text(self, silodir):
        t = "WARC-Record-ID:\n\t%s%s\n" % (self.prefix,
            "" if self.bits is None else " %d" % self.bits)
        if self.warcinfo is not None:
            t += "warcinfo.body:\n"
            for k, v in self.warcinfo:
                t += "\t%s\n" % k if v is None else "\t%s\t%s\n" % (k, v)
        t += "silo.directory:\n\t%s\n" % silodir
        if self.maxsize is not None:
            t += "silo.max_size:\n\t%s\n" % self.maxsize
        if self.basename is not None:
            t += "silo.basename:\n\t%s\n" % self.basename
        if self.sort_size is not None:
            t += "index.sort_size:\n\t%s\n" % self.sort_size
        if self.resource:
            t += "resource.mime-types:\n" + "".join("\t%s\n" % m for m in self.resource)
        if self.metadata:
            t += "metadata.mime-types:\n" + "".join("\t%s\n" % m for m in self.metadata)
        return t + self.extra


def parse_size(s):
    if s is None:
        return int(3.5 * (1 << 30))
    s = str(s)
    mul = 1
    if s[-1] in "kK":
        mul, s = 1024, s[:-1]
    elif s[-1] in "mM":
        mul, s = 1 << 20, s[:-1]
    elif s[-1] in "gG":
        mul, s = 1 << 30, s[:-1]
    return int(float(s) * mul)


class Archive(object):
    """An archive in a scratch directory, driven only through the program"""

    def __init__(self, ctx, name="a", cfg=None):
        self.ctx = ctx
        self.cfg = cfg or Cfg()
        self.root = os.path.join(ctx.dir, name)
        self.dir = os.path.join(self.root, "silos") + "/"
        os.makedirs(self.dir)
        self.conf = os.path.join(self.root, "aardwarc.conf")
        self.write_conf()
        self.variant = ctx.default_variant

    def write_conf(self):
        with open(self.conf, "w") as f:
            f.write(self.cfg.text(self.dir))

    def clone(self, name):
        b = object.__new__(Archive)
        b.ctx, b.cfg, b.variant = self.ctx, self.cfg, self.variant
        b.root = os.path.join(self.ctx.dir, name)
        shutil.copytree(self.root, b.root, symlinks=True)
        b.dir = os.path.join(b.root, "silos") + "/"
        b.conf = os.path.join(b.root, "aardwarc.conf")
        b.write_conf()
        return b

    def destroy(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def argv(self, *args, variant=None):
        return [self.ctx.bins[variant or self.variant], "-c", self.conf] + list(args)

    def cmd(self, *args, variant=None, **kw):
        self.ctx.stats["cmd_" + args[0]] += 1
        r = run(self.argv(*args, variant=variant), **kw)
        if r.hung:
            self.ctx.stats["hung"] += 1
        return r

    # -- high level -------------------------------------------------

    def store(self, data, *opts, via="stdin", **kw):
        """via: stdin, dash, file"""
        if via == "file":
            fn = os.path.join(self.root, "_in%d" % self.ctx.uniq())
            with open(fn, "wb") as f:
                f.write(data)
            r = self.cmd("store", *(list(opts) + [fn]), **kw)
            os.unlink(fn)
            return r
        if via == "dash":
            return self.cmd("store", *(list(opts) + ["-"]), stdin=data, **kw)
        return self.cmd("store", *opts, stdin=data, **kw)

    def rid(self, data):
        return hashlib.sha256(data).hexdigest()[:self.cfg.idlen]

    def uri(self, rid):
        return self.cfg.prefix + rid

    def mid(self, ref_uri, body):
        h = hashlib.sha256()
        h.update(b"<" + ref_uri.encode() + b">\n")
        h.update(hashlib.sha256(body).hexdigest().encode() + b"\n")
        return h.hexdigest()[:self.cfg.idlen]

    # -- file system view -------------------------------------------

    def silo_path(self, n, hold=False):
        def numpart(lvl, num):
            if num >= 100:
                s = numpart(lvl + 1, num // 100)
            else:
                s = "%d/" % lvl
            if lvl > 0:
                s += "%02u/" % (num % 100)
            return s
        bn = self.cfg.basename or "%08u.warc.gz"
        return self.dir + numpart(0, n) + (bn % n) + (".hold" if hold else "")

    def tree(self):
        """All files below the silo directory: {relpath: (size, sha256)}"""
        d = {}
        for dp, dn, fn in os.walk(self.dir):
            for f in fn:
                p = os.path.join(dp, f)
                with open(p, "rb") as fh:
                    b = fh.read()
                d[os.path.relpath(p, self.dir)] = (len(b), hashlib.sha256(b).hexdigest())
        return d

    def silo_files(self):
        """{relpath: path} of everything which is not index, cache or hold"""
        d = {}
        for dp, dn, fn in os.walk(self.dir):
            if os.path.samefile(dp, self.dir):
                continue
            for f in fn:
                if f.endswith(".hold"):
                    continue
                p = os.path.join(dp, f)
                d[os.path.relpath(p, self.dir)] = p
        return d

    def silo_nums(self):
        """silo numbers present, from the file names on disk"""
        bn = self.cfg.basename or "%08u.warc.gz"
        x = re.match(r"^(.*)%[0-9]*u(.*)$", bn)
        pat = re.compile(re.escape(x.group(1)) + r"(\d+)" + re.escape(x.group(2)) + "$")
        nums = {}
        for p in self.silo_files().values():
            m = pat.match(os.path.basename(p))
            if m:
                n = int(m.group(1))
                if os.path.abspath(self.silo_path(n)) == os.path.abspath(p):
                    nums[n] = os.path.abspath(p)
        return nums

    def holds(self):
        r = []
        for dp, dn, fn in os.walk(self.dir):
            r += [os.path.join(dp, f) for f in fn if f.endswith(".hold")]
        return r

    def junk(self):
        """Files the program has no business leaving behind"""
        bad = []
        for dp, dn, fn in os.walk(self.dir):
            top = os.path.samefile(dp, self.dir)
            for f in fn:
                rel = os.path.relpath(os.path.join(dp, f), self.dir)
                if f.endswith(".hold") or f.endswith(".tmp"):
                    bad.append(rel)
                elif top and f not in ("index.sorted", "index.appendix", "_.cache"):
                    bad.append(rel)
        return bad


class Ctx(object):
    """What one case sees"""

    def __init__(self, prop, seed, tier, case, scratch, bins):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.case = case
        self.bins = bins
        self.rng = random.Random("%s:%s:%s" % (prop, seed, case))
        self.dir = tempfile.mkdtemp(prefix="case_", dir=scratch)
        self.stats = __import__("collections").Counter()
        self.distinct = set()
        self.violations = []
        self.known_witness = []
        self.inconclusive = []
        self.samples = []
        self.default_variant = "plain"
        self._uniq = 0

    def uniq(self):
        self._uniq += 1
        return self._uniq

    def seen(self, *key):
        """Record that a distinct non-trivial situation was observed"""
        self.distinct.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def violate(self, sig, msg, **details):
        self.violations.append(dict(sig=sig, msg=str(msg)[:3000], case=self.case,
            details={k: str(v)[:2000] for k, v in details.items()}))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def cleanup(self):
        for dp, dn, fn in os.walk(self.dir):
            try:
                os.chmod(dp, 0o700)
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)
