"""C20 Hostile files and input never corrupt memory"""
import mmap
import os
import re
import shutil
import signal
import struct
import subprocess
import zlib

from .. import core, gen, hist, idx, warc

VARIANTS = ["plain", "fuzz", "msan"]
LEVEL = "exploration"
TECHNIQUE = ("coverage guided fuzzing of every input of every command, monitored by AddressSanitizer, "
    "UndefinedBehaviorSanitizer and MemorySanitizer, with watchdogs for termination; aborts must be deliberate")
NOTE = ("Libraries are not instrumented. A bounded number of inputs, structured mutations of real archives and "
    "sessions and random bytes; reads and writes inside the right object are not seen by the sanitizers.")
RULE = ("structured mutations of configuration, silos, indices, cache, protocol streams in both directions, mtree output, "
    "standard input, arguments and environment, kept as seeds when they reach new code; distinct = (kind of input, "
    "command, how it ended: exit status or which assertion)")
NEED = {"executions": 25000, "msan": 5000, "edges": 20000, "assertions": 6000, "kept": 4000}
ASSUMPTIONS = ["libz, libmd, libbsd and libc are correct", "the MemorySanitizer wrappers describe what the libraries write"]
AUX_EXE = {"hostile": ("hostile.c", [])}
CPU_LIMIT = 600

KINDS = ["silo", "silo", "silo", "silo", "index", "index", "config", "config", "stevedore", "stevedore", "stow", "stow",
    "input", "input", "cgi", "cache"]


def cases(tier, seed):
    n = 4 if tier == "quick" else 120
    return ["%s%d" % (k, j * n + i) for i in range(n) for j, k in enumerate(KINDS)]


NOBODY = 65534
SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:"
        "handle_abort=0:max_allocation_size_mb=2048:strict_string_checks=1:"
        "external_symbolizer_path=/usr/bin/llvm-symbolizer",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:external_symbolizer_path=/usr/bin/llvm-symbolizer",
    "MSAN_OPTIONS": "abort_on_error=1:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=2048:"
        "strict_memcmp=0:external_symbolizer_path=/usr/bin/llvm-symbolizer",
    "PATH": "/usr/bin:/bin",
}


class Res(object):
    def __init__(self, argv, st, hung, out, err, cov):
        self.argv = argv
        self.sig = st & 0x7f
        self.rc = -self.sig if self.sig else st >> 8
        self.hung = hung
        self.out = out
        self.err = err
        self.cov = cov


class Server(object):
    """Executes commands as an unprivileged user in a directory"""

    def __init__(self, ctx, variant, root):
        self.root = root
        self.variant = variant
        self.covfn = os.path.join(root, ".cov." + variant)
        with open(self.covfn, "wb") as f:
            f.write(bytes(1 << 16))
        os.chmod(self.covfn, 0o666)
        f = open(self.covfn, "r+b")
        self.map = mmap.mmap(f.fileno(), 1 << 16)
        f.close()
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        env = dict(SAN, AW_FSRV="1", AW_COV=self.covfn, AW_UID=str(NOBODY))

        def pre():
            a, b = os.dup(r1), os.dup(w2)
            os.dup2(a, 198)
            os.dup2(b, 199)
        self.p = subprocess.Popen([ctx.bins[variant]], env=env, cwd=root, preexec_fn=pre, close_fds=False,
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)

    def run(self, argv, env=(), stdin=b"", cpu=10, ms=30000):
        rt = self.root
        with open(rt + "/.in", "wb") as f:
            f.write(stdin)
        for x in (".out", ".err"):
            try:
                os.unlink(rt + "/" + x)
            except FileNotFoundError:
                pass
        av = [a if isinstance(a, bytes) else a.encode("utf-8", "surrogateescape") for a in argv]
        ev = [e if isinstance(e, bytes) else e.encode("utf-8", "surrogateescape") for e in env]
        s = b"".join(x + b"\0" for x in [b".in", b".out", b".err"] + av + ev)
        self.map[:] = bytes(1 << 16)
        os.write(self.w, struct.pack("=IIIII", len(s), len(av), len(ev), cpu, ms) + s)
        b = b""
        while len(b) < 8:
            x = os.read(self.r, 8 - len(b))
            if not x:
                raise RuntimeError("fork server died: %s" % self.p.wait())
            b += x
        st, hung = struct.unpack("=II", b)

        def get(fn, n):
            try:
                with open(rt + "/" + fn, "rb") as f:
                    return f.read(n)
            except FileNotFoundError:
                return b""
        return Res(argv, st, hung, get(".out", 1 << 16), get(".err", 1 << 16), bytes(self.map))

    def close(self):
        os.close(self.w)
        os.close(self.r)
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.map.close()


def sanitizer(err):
    """-> (kind, where) of the first report"""
    m = re.search(rb"(?:ERROR: AddressSanitizer:|WARNING: MemorySanitizer:|runtime error:|ERROR: UndefinedBehaviorSanitizer:"
        rb"|ERROR: MemorySanitizer:|Sanitizer CHECK failed:?) *([^\n]*)", err)
    if m is None:
        return None
    kind = re.sub(r"0x[0-9a-f]+|-?\d+|on address.*|on unknown.*", "", m.group(1).decode(errors="replace"))
    kind = re.sub(r"[^a-zA-Z]+", "-", kind).strip("-")[:50]
    fr = re.findall(rb"#\d+ 0x[0-9a-f]+ in (\w+) ([^\n]*)", err[m.start():])
    where = "?"
    for fn, loc in fr:
        if b".c:" in loc and b"compiler-rt" not in loc and b"sanitizer_common" not in loc and not fn.startswith(b"__"):
            where = fn.decode()
            break
    return (kind, where)


DELIBERATE = re.compile(rb"(Missing error handling code in|Incomplete code in|Wrong turn in|Assert error in) (\w+)\(\), "
    rb"[^\n]*?(?:line \d+:[^\n]*)\n(?:  Condition\(([^\n]*)\) not true)?")


class Fuzz(object):
    def __init__(self, ctx, kind):
        self.ctx = ctx
        self.kind = kind
        self.rng = ctx.rng
        self.root = os.path.join(ctx.dir, "w")
        os.makedirs(self.root + "/a")
        os.chmod(ctx.dir, 0o755)
        os.chown(self.root, NOBODY, NOBODY)
        self.srv = {}
        self.seen = set()
        self.corpus = []
        self.n = 0

    def server(self, v):
        if v not in self.srv:
            self.srv[v] = Server(self.ctx, v, self.root)
        return self.srv[v]

    def close(self):
        for s in self.srv.values():
            s.close()

    def setup(self, files):
        """Exactly these files"""
        for dp, dn, fn in os.walk(self.root, topdown=False):
            for f in fn:
                if not f.startswith(".cov"):
                    os.unlink(os.path.join(dp, f))
            for d in dn:
                p = os.path.join(dp, d)
                if os.path.islink(p):
                    os.unlink(p)
                else:
                    os.rmdir(p)
        made = set()
        for fn, b in files.items():
            p = os.path.join(self.root, fn)
            d = os.path.dirname(p)
            if d not in made:
                os.makedirs(d, exist_ok=True)
                x = d
                while len(x) > len(self.root):
                    os.chown(x, NOBODY, NOBODY)
                    x = os.path.dirname(x)
                made.add(d)
            if b is None:
                os.makedirs(p, exist_ok=True)
                os.chown(p, NOBODY, NOBODY)
                continue
            with open(p, "wb") as f:
                f.write(b)
            os.chown(p, NOBODY, NOBODY)
            if fn.startswith("bin/"):
                os.chmod(p, 0o755)

    def execute(self, inp, variant, **kw):
        self.setup(inp["files"])
        return self.server(variant).run(["aardwarc"] + inp["argv"], inp["env"], inp["stdin"], **kw)

    def judge(self, inp, r, variant):
        ctx = self.ctx
        ctx.stats["executions"] += 1
        ctx.stats["evaluations"] += 1
        if variant == "msan":
            ctx.stats["msan"] += 1
        cmd = inp["cmd"]
        s = sanitizer(r.err)
        how = "exit %d" % r.rc
        bad = None
        if s is not None:
            bad = ("san:%s:%s" % s, "%s in %s" % s)
        elif r.hung or r.sig in (signal.SIGXCPU, signal.SIGKILL):
            r2 = self.execute(inp, variant, cpu=40, ms=100000)
            if r2.hung or r2.sig in (signal.SIGXCPU, signal.SIGKILL):
                bad = ("hang:" + cmd, "%s does not terminate" % cmd)
            else:
                ctx.stats["slow"] += 1
        elif r.sig == signal.SIGABRT:
            m = DELIBERATE.search(r.err)
            if m is None:
                bad = ("abort:" + cmd, "%s aborted without saying why" % cmd)
            else:
                ctx.stats["assertions"] += 1
                how = "%s %s" % (m.group(2).decode(), (m.group(3) or b"").decode(errors="replace"))
        elif r.sig in (signal.SIGXFSZ, signal.SIGPIPE):
            how = "signal %d" % r.sig
        elif r.sig or r.rc >= 120 and r.rc <= 127 and cmd != "byid" and not r.err:
            bad = ("signal:%d:%s" % (r.rc, cmd), "%s ended with status %d" % (cmd, r.rc))
        ctx.seen(self.kind, cmd, how)
        if bad:
            d = {}
            for fn, b in sorted(inp["files"].items()):
                d[fn] = "dir" if b is None else b.hex() if len(b) < 400 else "%d bytes" % len(b)
            ctx.violate(bad[0], bad[1], argv=inp["argv"], env=inp["env"], variant=variant,
                stdin=inp["stdin"][:300].hex(), note=inp.get("note"),
                stderr=r.err[:1800].decode(errors="replace"), files=d)
            fn = os.environ.get("AW_SAVE")
            if fn:
                import pickle
                pickle.dump(inp, open("%s/%s.%s.%d" % (fn, re.sub(r"\W", "_", bad[0]), ctx.case, self.n), "wb"))
        return bad is None

    def one(self, inp):
        self.n += 1
        r = self.execute(inp, "fuzz")
        ok = self.judge(inp, r, "fuzz")
        new = False
        t = r.cov.translate(BUCKET)
        for m in re.finditer(rb"[^\0]", t):
            k = (m.start(), m.group())
            if k not in self.seen:
                self.seen.add(k)
                new = True
        if new:
            self.ctx.stats["kept"] += 1
            self.corpus.append(inp)
        if ok and (new or self.rng.random() < .12) and inp["cmd"] != "stow":
            r = self.execute(inp, "msan")
            ok = self.judge(inp, r, "msan")
        if ok and new and inp["cmd"] == "stow" and self.rng.random() < .3:
            r = self.execute(inp, "msan")
            ok = self.judge(inp, r, "msan")
        return ok


# As AFL does: number of times, roughly
BUCKET = bytes([0, 1, 2, 3] + [4] * 4 + [8] * 8 + [16] * 16 + [32] * 96 + [128] * 128)

INTERESTING = [0, 1, 2, 3, 7, 8, 12, 13, 16, 23, 24, 25, 31, 32, 33, 36, 37, 38, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024,
    4095, 4096, 4097, 8191, 8192, 32767, 32768, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
    (1 << 40) - 1, 1 << 48, (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 24, (1 << 64) - 1, 1 << 64, 10 ** 19, 10 ** 30]

TOKENS = [b"\r\n", b"\n", b"\0", b":", b": ", b"<", b">", b"/", b"%", b"%s", b"%n", b"%u", b"*", b"#", b"\t", b" ", b"\\", b"..", b"-",
    b"WARC/1.1\r\n", b"WARC/1.0\r\n", b"WARC-Record-ID: <", b"WARC-Type: metadata\r\n", b"WARC-Segment-Number: 1\r\n",
    b"WARC-Segment-Number: 2\r\n", b"WARC-Segment-Total-Length: 99999999999999999999\r\n", b"WARC-Segment-Origin-ID: <x>\r\n",
    b"Content-Length: 18446744073709551616\r\n", b"\x1f\x8b\x08\x04", b"Aa\x08\0", b"\xff" * 4, b"\0" * 8, b"\x7f" + b"\xff" * 7, b"\x80",
    b"type=dir", b"type=file", b"/set ", b"sha256digest=", b"\xc0", b"\xf4", b"4294967296", b"-1", b"0x10", b"1e9", b"T", b".5"]


def havoc(rng, b, n=None):
    b = bytearray(b)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.randrange(10)
        p = rng.randrange(len(b) + 1)
        if k == 0 and b:
            p %= len(b)
            b[p] ^= 1 << rng.randrange(8)
        elif k == 1 and b:
            b[p % len(b)] = rng.choice([0, 1, 0x7f, 0x80, 0xff, 0x0a, 0x20, 0x30, rng.randrange(256)])
        elif k == 2:
            b[p:p + rng.choice([0, 0, 1, 4])] = rng.choice(TOKENS)
        elif k == 3:
            del b[p:p + rng.choice([1, 1, 2, 4, 8, 32, 100])]
        elif k == 4:
            q = rng.randrange(len(b) + 1)
            b[p:p] = b[q:q + rng.choice([1, 4, 8, 32, 100, 1000])]
        elif k == 5:
            w = rng.choice([1, 2, 4, 8])
            v = rng.choice(INTERESTING) & ((1 << 8 * w) - 1)
            b[p:p + w] = v.to_bytes(w, rng.choice(["big", "little"]))
        elif k == 6:
            del b[p:]
        elif k == 7:
            # a number in decimal
            m = list(re.finditer(rb"\d+", bytes(b)))
            if m:
                m = rng.choice(m)
                b[m.start():m.end()] = str(rng.choice(INTERESTING) + rng.choice([0, 0, 1, -1])).encode()
        elif k == 8:
            b[p:p] = rng.choice([b"\0", b"A", b"0", b"\xff", b"\n", b" ", b"/", b"9", b"\\"]) * rng.choice([1, 8, 16, 64, 100, 255, 300, 1100,
                4100, 8200])
        else:
            ls = bytes(b).split(b"\n")
            i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
            x = rng.randrange(3)
            if x == 0:
                ls[i], ls[j] = ls[j], ls[i]
            elif x == 1:
                ls.insert(i, ls[j])
            else:
                del ls[i]
            b = bytearray(b"\n".join(ls))
    return bytes(b[:200000])


class Base(object):
    """A small archive, and what is in it"""

    def __init__(self, ctx, fz):
        rng = ctx.rng
        self.rng = rng
        cfg = core.Cfg(prefix=rng.choice([p for p in hist.PREFIXES if p != "/"]), bits=rng.choice([64, 92, 96, 128, 128, 160, 256]),
            maxsize=rng.choice(["5k", "6000", "9k"]), basename=rng.choice(["%08u.warc.gz", "%u", "s%u.gz"]),
            sort_size="4k", warcinfo=(("operator:", "x"),))
        a = core.Archive(ctx, cfg=cfg)
        h = hist.Hist(ctx, a)
        h.store(n=rng.choice([1, 30]))
        h.store(n=rng.choice([100, 1500]))
        if rng.random() < .7:
            h.store(n=int(cfg.maxbytes * rng.choice([1.2, 2.3])), kind="random")
        ref = rng.choice(h.order)
        h.metadata(ref=ref, n=rng.choice([5, 50]))
        if rng.random() < .5:
            h.housekeeping()
        if rng.random() < .6:
            h.store(n=rng.choice([1, 7, 400]))
        if rng.random() < .4:
            h.metadata(ref=ref, n=20, forced="%0*x" % (cfg.idlen, rng.getrandbits(4 * cfg.idlen)))
        if rng.random() < .2:
            h.housekeeping()
        self.cfg = cfg
        self.ids = list(h.order)
        self.data = {i: h.objs[i]["data"] for i in h.order}
        self.conf = cfg.text("a/").encode()
        self.files = {}
        for fn in a.tree():
            with open(a.dir + fn, "rb") as f:
                self.files["a/" + fn] = f.read()
        m = warc.load(a, strict=False)
        self.silos = {}
        rels = {os.path.abspath(p): n for n, p in a.silo_nums().items()}
        self.silofn = {n: "a/" + os.path.relpath(p, a.dir) for p, n in rels.items()}
        for n, recs in m.silos.items():
            raw = self.files[self.silofn[n]]
            self.silos[n] = [dict(hdr=r.raw_hdr, hm=raw[r.off:r.body_off], bm=raw[r.body_off:r.end - 24], tail=raw[r.end - 24:r.end],
                body=r.body) for r in recs]
        exp = idx.expected(m)
        k = 0
        self.index = []
        for n, recs in m.silos.items():
            for j, r in enumerate(recs):
                self.index.append((exp[k], n, j))
                k += 1
        self.allids = [r.id for _, r in m.records()]
        a.destroy()

    def anid(self):
        rng = self.rng
        i = rng.choice(self.ids)
        k = rng.random()
        if k < .75:
            pass
        elif k < .85:
            i = rng.choice(self.allids)
        elif k < .9:
            i = i.upper()
        elif k < .95:
            i = "%0*x" % (len(i), rng.getrandbits(4 * len(i)))
        else:
            i = havoc(rng, i.encode(), 1).replace(b"\0", b"").decode("latin-1")
        if rng.random() < .2:
            i = self.cfg.prefix + i
        return i

    def inp(self, cmd, *argv, env=(), stdin=b"", files=None, conf=None):
        f = dict(self.files if files is None else files)
        f["conf"] = self.conf if conf is None else conf
        return dict(cmd=cmd, argv=["-c", "conf", cmd] + list(argv), env=list(env), stdin=stdin, files=f)

    def reader(self, files=None, conf=None, cmds=None):
        """A random command which looks at the archive"""
        rng = self.rng
        cmd = rng.choice(cmds or ["get"] * 5 + ["audit"] * 3 + ["reindex"] * 3 + ["rebuild"] * 2 + ["cgi"] * 3 + ["filter"] * 2 + ["byid",
            "dumpindex", "store", "store", "housekeeping", "housekeeping", "mksilo", "metadata", "stevedore"])
        kw = dict(files=files, conf=conf)
        if cmd == "get":
            o = rng.choice([[], ["-q"], ["-z"], ["-n"], ["-o", "out"], ["-z", "-o", "out"]])
            return self.inp("get", *o, self.anid(), **kw)
        if cmd == "audit":
            o = rng.choice([[], [], ["-i", "ignore-metadata-record-id"]])
            return self.inp("audit", *o, *self.somesilos(), **kw)
        if cmd == "reindex":
            i = self.inp("reindex", *self.somesilos(), **kw)
            k = rng.random()
            for f in ("index.sorted", "index.appendix"):
                if k < .7 or (k < .8 and rng.random() < .5):
                    i["files"].pop("a/" + f, None)
            return i
        if cmd == "rebuild":
            return self.inp("rebuild", *([] if rng.random() < .5 else
                [rng.choice([str(rng.choice(list(self.silofn))), self.silofn[rng.choice(list(self.silofn))]]) for _ in range(rng.randrange(3))]), **kw)
        if cmd == "cgi":
            return self.inp("cgi", env=self.cgienv(), **kw)
        if cmd == "filter":
            return self.inp("filter", *rng.choice([[], ["-s"], ["-v"], ["-s", "-r"]]), "-", stdin=self.list(), **kw)
        if cmd in ("byid", "dumpindex"):
            i = self.anid()
            return self.inp(cmd, *([] if cmd == "dumpindex" and rng.random() < .5 else [i[:rng.randrange(len(i) + 1)]]), **kw)
        if cmd == "store":
            d = rng.choice([self.data[rng.choice(self.ids)], gen.rbytes(rng, rng.choice([0, 1, 100, 9000]))])
            return self.inp("store", "-m", "text/plain", "-", stdin=d, **kw)
        if cmd == "metadata":
            return self.inp("store", "-t", "metadata", "-m", "text/x", "-r", self.anid(), *rng.choice([[], ["-i", self.anid()]]), "-",
                stdin=gen.rbytes(rng, rng.choice([1, 100])), **kw)
        if cmd == "mksilo":
            return self.inp("mksilo", str(rng.choice([0, 1, 2, 5, 99, 100, 12345])), **kw)
        if cmd == "stevedore":
            return self.inp("stevedore", stdin=self.session(), **kw)
        return self.inp(cmd, **kw)

    def somesilos(self):
        rng = self.rng
        if rng.random() < .6:
            return []
        return [self.silofn[rng.choice(list(self.silofn))] for _ in range(rng.randrange(1, 4))]

    def cgienv(self):
        rng = self.rng
        e = ["GATEWAY_INTERFACE=CGI/1.1", "REQUEST_METHOD=GET", "PATH_INFO=" + rng.choice(["/", "/", ""]) + self.anid()]
        if rng.random() < .5:
            e.append("HTTP_ACCEPT_ENCODING=" + rng.choice(["gzip", "deflate, gzip", "br", ""]))
        return e

    def list(self):
        rng = self.rng
        ls = []
        for _ in range(rng.randrange(8)):
            i = self.anid()
            ls.append(i)
        if rng.random() < .7:
            ls.sort()
        return "".join(i + rng.choice(["\n", "\n", "\n", "\r\n", " \n", "\n\n", ""]) for i in ls).encode("latin-1", "replace")

    def frame(self, cmd, d):
        rng = self.rng
        n = len(d)
        claim = n if rng.random() < .97 else rng.choice(INTERESTING) & 0xffffffff
        f = [bytes([cmd | 0xc0]) + struct.pack(">I", claim)] * 2
        if claim < 256:
            f += [bytes([cmd | 0x80, claim])] * 4
        if claim == 0:
            f += [bytes([cmd])] * 8
        if claim == 32:
            f += [bytes([cmd | 0x40])] * 8
        return rng.choice(f) + d

    def session(self):
        """A client, more or less"""
        rng = self.rng
        o = []
        for _ in range(rng.randrange(1, 6)):
            k = rng.randrange(8)
            if k < 3:
                for _ in range(rng.randrange(1, 5)):
                    i = self.anid().encode("latin-1", "replace") if rng.random() < .5 else rng.choice(self.ids).encode()
                    if rng.random() < .5:
                        i += b"0" * (64 - len(i))
                    if rng.random() < .1:
                        i = havoc(rng, i, 1)
                    o.append(self.frame(1, i[:rng.choice([64, 64, self.cfg.idlen, 65, 66, 67, rng.randrange(70)])]))
                if rng.random() < .8:
                    o.append(self.frame(1, b""))
            elif k < 5:
                for _ in range(rng.randrange(1, 3)):
                    o.append(self.frame(2, gen.rbytes(rng, rng.choice([1, 32, 255, 256, 5000, 9000]))))
                o.append(self.frame(2, b""))
            elif k < 7:
                i = rng.choice([self.anid().encode("latin-1", "replace"), rng.choice(self.ids).encode(), gen.rbytes(rng, 64),
                    b"a" * rng.choice([0, 1, 15, 63, 64, 65, 8189, 8190, 8191, 8192])])
                o.append(self.frame(3, i))
                for _ in range(rng.randrange(3)):
                    o.append(self.frame(3, gen.rbytes(rng, rng.choice([1, 100, 9000]))))
                o.append(self.frame(3, b""))
            else:
                o.append(self.frame(rng.choice([0, 4, 5, 6, 7]), gen.rbytes(rng, rng.choice([0, 3, 32, 300]))))
        if rng.random() < .3:
            rng.shuffle(o)
        b = b"".join(o)
        if rng.random() < .25:
            b = havoc(rng, b)
        return b

    # Silos

    def header(self, hdr):
        """A hostile header"""
        rng = self.rng
        ls = hdr.split(b"\r\n")
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.randrange(14)
            i = rng.randrange(len(ls))
            nm = rng.choice([b"WARC-Segment-Number", b"WARC-Segment-Total-Length", b"Content-Length", b"WARC-Segment-Origin-ID",
                b"WARC-Record-ID", b"WARC-Type", b"WARC-Block-Digest", b"WARC-Payload-Digest", b"WARC-Refers-To", b"Content-Type",
                b"WARC-Warcinfo-ID", b"WARC-Date", b"WARC-Filename", b"WARC-Profile"])
            j = [x for x, l in enumerate(ls) if l.lower().startswith(nm.lower() + b":")]
            if k == 0:
                del ls[i]
            elif k == 1:
                ls.insert(i, ls[rng.randrange(len(ls))])
            elif k < 6:
                p = self.cfg.prefix.encode()
                i = rng.choice(self.allids).encode()
                v = rng.choice([str(rng.choice(INTERESTING)).encode(), str(rng.randrange(6)).encode(), b"", b"-1", b"x", b"1x",
                    b"<" + p + i + b">", b"<" + p + i[:rng.randrange(len(i))] + b">", b"<" + p + b">", b"<>", b"<" + p[:rng.randrange(len(p))],
                    b"<" + p + i, b"<" + i + b">", i, b"<" + p + i + b"0>", b">", b"<", b"<" + p + i + b"> ", b"sha256:", b"sha256:" + i, b"sha25",
                    b"sha1:abc", b"metadata", b"resource", b"warcinfo", b"continuation", b"A" * rng.choice([100, 1024, 1025, 3000, 4000]),
                    b"<" + p + b"z" * len(i) + b">", b"<" + p + i.upper() + b">"])
                ln = nm + b": " + v
                if j and rng.random() < .85:
                    ls[rng.choice(j)] = ln
                elif len(ls) > 2:
                    ls.insert(rng.randrange(1, len(ls) - 1), ln)
            elif k == 6:
                ls[i] = havoc(rng, ls[i], 1)
            elif k == 7 and j:
                del ls[j[0]]
            elif k == 8:
                ls[0] = rng.choice([b"WARC/1.0", b"WARC/1.1", b"WARC/1.2", b"", b"W", b"WARC/1.1 "])
            elif k == 9:
                # size of the member around one page
                r = gen.rbytes(rng, 3500).hex().encode()
                ls.insert(max(1, len(ls) - 2), b"X-Pad: " + r[:rng.choice([2900, 3000, 3200, 3400, 3600, rng.randrange(2500, 4100)])])
            elif k == 13:
                # inflates to around one page, which is what there is room for
                n = rng.choice([4096, 4096, 4096, 8192, 12288]) + rng.choice([0, 0, 0, -1, 1, 2]) - sum(len(l) + 2 for l in ls) - 5 + 2
                if n > 0:
                    ls.insert(max(1, len(ls) - 2), b"X: " + bytes([rng.choice(b"xyz")]) * n)
                break
            elif k == 10:
                return havoc(rng, b"\r\n".join(ls), 2)
            elif k == 11:
                ls = ls[:i]
            else:
                ls.insert(i, rng.choice([b":", b": ", b"a", b"a:", b"a:b", b" : ", b"\xff: \xff", b"\0: \0", b"x: " + b"y" * 500]))
            if not ls:
                ls = [b""]
        return b"\r\n".join(ls)

    def member(self, data, hdr=False):
        """A hostile gzip member"""
        rng = self.rng
        k = rng.randrange(12)
        lvl = rng.choice([0, 1, 9])
        c = zlib.compressobj(lvl, zlib.DEFLATED, -15, 8, rng.choice([0, 0, 2, 4]))
        z = c.compress(data)
        if rng.random() < .7:
            z += c.flush(zlib.Z_SYNC_FLUSH)
        z += c.flush()
        tr = struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)
        n = 24 + len(z) + 8
        head = bytearray(b"\x1f\x8b\x08\x04\0\0\0\0\x02\x03\x0c\0Aa\x08\0" + struct.pack("<Q", n))
        if k < 4:
            pass
        elif k == 4:
            v = rng.choice([n + rng.choice([-1, 1, -8, 8, -13, 13, -14, 24, -24, 1000, 4096]), rng.randrange(60), rng.choice(INTERESTING)])
            head[16:24] = struct.pack("<Q", v & (1 << 64) - 1)
        elif k == 5:
            z = havoc(rng, z)
            if rng.random() < .7:
                head[16:24] = struct.pack("<Q", 24 + len(z) + 8)
        elif k == 6:
            tr = havoc(rng, tr, 1)
        elif k == 7:
            head[rng.randrange(16)] = rng.choice([0, 1, 2, 3, 4, 8, 0xff, rng.randrange(256)])
        elif k == 8:
            # no compression at all, tiny
            z = rng.choice([b"", b"\x03\x00", b"\x01\0\0\xff\xff", b"\x00\0\0\xff\xff\x03\0", b"\x06", b"\0" * rng.randrange(20)])
            head[16:24] = struct.pack("<Q", 24 + len(z) + 8)
        elif k == 9:
            return rng.choice([zlib.compress(data), b"\x78\xbb" + bytes(4) + z, b"\x1f\x8b\x08\0\0\0\0\0\0\3" + z + tr,
                b"\x1f\x8b\x08\x08\0\0\0\0\0\3name\0" + z + tr, bytes(head) + z + tr + bytes(head) + z + tr])
        elif k == 10:
            # exact length around the size of the page
            want = 4096 - rng.randrange(60)
            pad = want - 24 - 8 - 5
            if hdr and len(data) < pad:
                i = data.rfind(b"\r\n\r\n")
                data = data[:i] + b"\r\nX: " + b"y" * (pad - len(data) - 5) + data[i:]
            z = b"\x01" + struct.pack("<HH", len(data) & 0xffff, ~len(data) & 0xffff) + data[:65535]
            tr = struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)
            head[16:24] = struct.pack("<Q", 24 + len(z) + 8)
        else:
            b = bytes(head) + z + tr
            return b[:rng.randrange(len(b))]
        return bytes(head) + z + tr

    def record(self, r):
        rng = self.rng
        hm, bm, tail = r["hm"], r["bm"], r["tail"]
        k = rng.randrange(12)
        if rng.random() < .04:
            # as the earliest versions wrote them, only for small records
            body = rng.choice([r["body"], gen.rbytes(rng, rng.choice([1, 8191, 8192, 8193, 9000, 20000, 70000]))])
            h = [l for l in r["hdr"].split(b"\r\n") if not l.startswith((b"Content-Length", b"WARC-Block-Digest", b"WARC-Payload"))]
            h[2:2] = [b"WARC-record-digest: sha256:" + b"a" * 64, b"Content-Length: %d" % (len(body) + rng.choice([0, 0, 0, 0, -1, 1, 5000]))]
            return warc.member(b"\r\n".join(h), 6) + warc.member(body, 6) + tail
        if k < 6:
            h = self.header(r["hdr"])
            hm = warc.member(h, 6 if len(h) > 4050 else rng.choice([0, 0, 6]))
        elif k == 6:
            hm = self.member(self.header(r["hdr"]) if rng.random() < .3 else r["hdr"], True)
        elif k < 10:
            bm = self.member(rng.choice([r["body"], b"", b"x" * 100, r["body"] * 2, bytes(500000)]))
        elif k == 10:
            tail = rng.choice([b"", havoc(rng, tail), tail[:rng.randrange(24)], tail + tail])
        else:
            return havoc(rng, hm + bm + tail)
        return hm + bm + tail

    def hostile_silos(self):
        """-> files"""
        rng = self.rng
        files = dict(self.files)
        off = {}
        todo = [(n, j) for n in self.silos for j in range(len(self.silos[n]))]
        hit = set(rng.sample(todo, min(len(todo), rng.choice([1, 1, 1, 2, 4]))))
        for n, recs in self.silos.items():
            b = b""
            js = list(range(len(recs)))
            if rng.random() < .05:
                rng.shuffle(js)
            for j in js:
                off[n, j] = len(b)
                r = recs[j]
                b += self.record(r) if (n, j) in hit else r["hm"] + r["bm"] + r["tail"]
            if rng.random() < .06:
                b = havoc(rng, b)
            if rng.random() < .04:
                b += rng.choice([b"\0" * 100, gen.rbytes(rng, 50), b"\x1f\x8b"])
            files[self.silofn[n]] = b
        if rng.random() < .04:
            n = rng.choice(list(self.silofn))
            files.pop(self.silofn[n])
        if rng.random() < .8:
            ents = []
            for (key, flg, silo, _, cont), n, j in self.index:
                if rng.random() < .03:
                    flg = rng.choice([0, 2, 4, 8, 0x14, 0x34, 0x54, 0x74, 0xffffffff, flg ^ 0x10, flg ^ 0x40])
                if rng.random() < .02:
                    cont = rng.choice(self.allids)[:8]
                ents.append(idx.pack(key, flg, silo, off[n, j], cont))
            files.pop("a/index.sorted", None)
            files["a/index.appendix"] = b"".join(ents)
        return files

    def hostile_index(self):
        rng = self.rng
        files = dict(self.files)
        ents = []
        for (key, flg, silo, off, cont), n, j in self.index:
            for _ in range(rng.choice([1] * 9 + [0, 2, 3])):
                f = [key, flg, silo, off, cont]
                if rng.random() < .2:
                    k = rng.randrange(5)
                    if k == 0:
                        f[0] = rng.choice([rng.choice(self.allids)[:24], "0" * 24, "f" * 24, key[:20] + "ffff"])
                    elif k == 1:
                        f[1] = rng.choice([0, 2, 4, 8, 0x10, 0x14, 0x18, 0x34, 0x54, 0x74, 0x78, 0x7e, 0xffffffff, 1, 0x80000000, flg ^ 0x10, flg ^ 0x40])
                    elif k == 2:
                        f[2] = rng.choice([0, 1, 2, 99, 100, 0x7fffffff, 0xffffffff, 10 ** 6])
                    elif k == 3:
                        f[3] = rng.choice([0, off + 1, off - 1 if off else 5, 24, 1 << 20, (1 << 63) - 1, 1 << 62, (1 << 64) - 1, 1 << 63] +
                            [x[0][3] for x in self.index])
                    else:
                        f[4] = rng.choice(["00000000", "ffffffff", key[:8], rng.choice(self.allids)[:8]])
                ents.append(idx.pack(*f))
        k = rng.randrange(5)
        for x in ("index.appendix", "index.sorted", "index.housekeep"):
            files.pop("a/" + x, None)
        if k == 0:
            rng.shuffle(ents)
            files["a/index.appendix"] = b"".join(ents)
        else:
            if rng.random() < .8:
                ents.sort()
            bb = rng.choice([2, 2, 2, 2, 3, 0, 1, 5, 8, 12, 13, 20, 52, 60, 61, 63, 64, 65, 128, 255])
            nrec = rng.choice([len(ents), len(ents), 0, 1, 1 << 20, (1 << 40) - 1])
            nb = 1 << bb if bb < 13 else 4
            bk = [(0x4161 << 48 if rng.random() < .98 else rng.getrandbits(63)) | bb << 40 | nrec]
            for _ in range(1, nb):
                bk.append(rng.choice([1 << 31, 1 << 31, 0, 0, 1, rng.choice(INTERESTING) & (1 << 64) - 1, (1 << 64) - rng.randrange(1, 10),
                    rng.randrange(1 << 31)]))
            half = rng.randrange(len(ents) + 1) if rng.random() < .4 else len(ents)
            files["a/index.sorted"] = b"".join(struct.pack(">Q", x) for x in bk) + b"".join(ents[:half])
            if half < len(ents) or rng.random() < .3:
                files["a/" + rng.choice(["index.appendix", "index.housekeep"])] = b"".join(ents[half:])
        for x in ("index.appendix", "index.sorted"):
            if "a/" + x in files and rng.random() < .15:
                files["a/" + x] = havoc(rng, files["a/" + x])
        if rng.random() < .03:
            files["a/index." + rng.choice(["sorted", "appendix"])] = rng.choice([b"", b"A", b"Aa", bytes(31), None])
        return files

    def hostile_conf(self):
        rng = self.rng
        secs = re.split(r"\n(?=\S)", self.conf.decode().rstrip("\n"))
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(8)
            i = rng.randrange(len(secs))
            if k == 0:
                del secs[i]
            elif k == 1:
                secs.insert(i, rng.choice(secs).upper())
            elif k == 2:
                secs[i] = havoc(rng, secs[i].encode(), 1).decode("latin-1")
            elif k == 3:
                v = rng.choice(["", "%u", "%08u", "%s", "%n", "%99u", "%300u", "%9999999999u", "%*u", "%u%u", "%%u", "%1$u", "%u%", "%lu", "%hhu", "%d",
                    "%c", "%", "x" * 300 + "%u", "a/%u", "%-8u|", "%+u", "%.99u", "%.300u", "%#x"])
                secs = [s for s in secs if not s.startswith("silo.basename")] + ["silo.basename:\n\t" + v]
            elif k == 4:
                v = rng.choice(["", "0", "1", "32", "4095", "4096", "1k", "1e", "99999999999999999999", "8E", "16E", "1.5k", "-1", "1..5", ".", "0.0000001T",
                    "1" * 400, "k", "1b", "9223372036854775807", "9223372036854775808", "1%"])
                s = rng.choice(["silo.max_size", "index.sort_size"])
                secs = [x for x in secs if not x.startswith(s)] + [s + ":\n\t" + v]
            elif k == 5:
                v = rng.choice(["x/ 128", "/", "x", "x/ 64", "x/ 256", "x/ 260", "x/ 63", "x/ 0x80", "x/ 4294967424", "x/ -128", "x/ 128 1", "x" * 300 + "/",
                    "\xff/", "x/ 66", "x/\n\ty/", "%s/ 128", "x" * 5000 + "/"])
                secs = [x for x in secs if not x.startswith("WARC-Record-ID")] + ["WARC-Record-ID:\n\t" + v]
            elif k == 6:
                s = rng.choice(["warcinfo.body", "resource.mime-types", "metadata.mime-types"])
                v = "\n\t".join(rng.choice(["operator: x", "operator:", "x", "*", "text/plain", "text/plain arg", "publisher: " + "x" * 3000,
                    "a b c d", "\xff", "format: y", "software: z", "operator:\x01"]) for _ in range(rng.randrange(4)))
                secs = [x for x in secs if not x.startswith(s)] + [s + ":\n\t" + v]
            else:
                secs.insert(i, rng.choice(["# comment", "x:", "\t", "  a b", "silo.directory:\n\ta/\n\ta/", ":", "a: b", "a\tb:", "\xfe:", "a:\n" * 3, "x" * 5000 + ":"]))
        b = "\n".join(secs).encode("latin-1", "replace") + rng.choice([b"\n", b"\n", b"", b"\n\n#"])
        if rng.random() < .2:
            b = havoc(rng, b, 1)
        return b


def harmless(inp):
    """Nothing leaves the directory"""
    def fix(b):
        b = b.replace(b"..", b"._")
        return re.sub(rb"(^|[^\w.:/%<>-])/", lambda m: m.group(1) + b"_", b)
    f = inp["files"]
    if f.get("conf") is not None and inp["cmd"] != "stow":
        out = []
        for ln in f["conf"].split(b"\n"):
            if b"://" in ln or ln.strip() == b"/":
                out.append(ln.replace(b"..", b"._"))
            else:
                out.append(fix(ln))
        f["conf"] = b"\n".join(out)
        # the directory itself is only ever relative
        f["conf"] = re.sub(rb"(?i)(silo\.directory:[ \t\r\v\f]*\n\s*)/", rb"\1_", f["conf"])
    for n, c in f.items():
        if n.endswith("_.cache") and c is not None and len(c) >= 8:
            # Only a hint, believed: a huge number costs one stat(2) each
            f[n] = struct.pack(">II", *(x if x < 60000 else x % 60000 for x in struct.unpack(">II", c[:8]))) + c[8:]
    av = []
    for a in inp["argv"]:
        b = a if isinstance(a, bytes) else a.encode("utf-8", "surrogateescape")
        b = b.replace(b"\0", b"")[:60000]
        if b"://" not in b:
            b = fix(b)
            if b.startswith(b"-"):
                b = b.replace(b"/", b"_") if not re.match(rb"^-[a-z]?$", b) and b"/plain" not in b else b
        av.append(b)
    inp["argv"] = av
    ev = []
    for e in inp["env"]:
        b = e if isinstance(e, bytes) else e.encode("utf-8", "surrogateescape")
        b = b.replace(b"\0", b"")[:60000]
        if re.match(rb"(GATEWAY_INTERFACE|REQUEST_METHOD|PATH_INFO|HTTP_ACCEPT_ENCODING|HOME|PATH|POSIXLY_CORRECT|COLUMNS|TZ)=", b):
            ev.append(b)
    inp["env"] = ev
    return inp


def mutate(rng, inp, frozen=()):
    """Something similar"""
    n = dict(inp, files=dict(inp["files"]), argv=list(inp["argv"]), env=list(inp["env"]))
    for _ in range(rng.choice([1, 1, 2])):
        what = [f for f, b in n["files"].items() if b is not None and f not in frozen] * 3
        if n["stdin"]:
            what += ["<stdin>"] * 6
        if n["env"]:
            what += ["<env>"] * 3
        what += ["<argv>"]
        w = rng.choice(what)
        if w == "<stdin>":
            n["stdin"] = havoc(rng, n["stdin"])
        elif w == "<env>":
            i = rng.randrange(len(n["env"]))
            e = n["env"][i]
            e = e if isinstance(e, bytes) else e.encode("utf-8", "surrogateescape")
            k = e.find(b"=") + 1
            n["env"][i] = e[:k] + havoc(rng, e[k:])
        elif w == "<argv>":
            if len(n["argv"]) > 3:
                i = rng.randrange(3, len(n["argv"]))
                a = n["argv"][i]
                a = a if isinstance(a, bytes) else a.encode("utf-8", "surrogateescape")
                n["argv"][i] = havoc(rng, a)
        else:
            n["files"][w] = havoc(rng, n["files"][w])
    return n


def g_silo(rng, base):
    return base.reader(files=base.hostile_silos())


def g_index(rng, base):
    return base.reader(files=base.hostile_index())


def g_config(rng, base):
    return base.reader(conf=base.hostile_conf(), cmds=["info", "store", "store", "get", "audit", "byid", "mksilo", "housekeeping", "cgi", "filter",
        "stevedore", "reindex", "rebuild", "metadata"])


def g_stevedore(rng, base):
    i = base.inp("stevedore", stdin=base.session())
    if rng.random() < .1:
        i["files"] = dict(base.hostile_silos() if rng.random() < .5 else base.hostile_index(), conf=base.conf)
    return i


def g_input(rng, base):
    """Arguments and standard input"""
    cmd = rng.choice(["store", "store", "filter", "filter", "get", "byid", "dumpindex", "mksilo", "audit", "reindex", "rebuild", "info",
        "housekeeping", "_testbytes", "nonesuch", "", "stevedore", "cgi"])
    opts = {"store": "himtr", "filter": "horsv", "get": "honqz", "byid": "he", "dumpindex": "ht", "audit": "ih", "_testbytes": "hn"}.get(cmd, "h")
    av = []
    for _ in range(rng.randrange(4)):
        o = rng.choice(opts.replace("h", "") or "h") if rng.random() < .9 else rng.choice("hxyzAc-")
        if o == "o":
            av += ["-o", rng.choice(["out", "out", "a/x", "nonesuch/x", ""])]
        else:
            av.append("-" + o)
            if cmd + o in ("storei", "storem", "storet", "storer", "dumpindext", "auditi", "_testbytesn"):
                av.append(rng.choice([base.anid(), base.anid(), "text/plain", "metadata", "resource", "text/plain; a=\"b\"", "", "x" * 1025, "x/" + "y" * 4000,
                    "t\xc3\xa6/\xff", str(rng.choice(INTERESTING) % 100000), "ignore-metadata-record-id", "warcinfo", "0x10", "-"]))
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        av.append(rng.choice(["-", "-", "obj", "obj", "list", "nonesuch", "a", "", base.anid(), base.anid(), base.silofn[rng.choice(list(base.silofn))],
            str(rng.choice([0, 1, 2, 99, 65535, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 10 ** 25])), "-1", "%n%s", "x" * 5000]))
    sin = rng.choice([base.list, lambda: gen.rbytes(rng, rng.choice([0, 1, 100, 5000])), lambda: b"\n" * 50, base.session])()
    if rng.random() < .4:
        sin = havoc(rng, sin)
    if rng.random() < .1:
        sin = rng.choice([b"a" * 70000, b"a" * 70000 + b"\n", b"0" * 64 + b"\n" + b"f" * 1000])
    files = dict(base.files, obj=gen.rbytes(rng, 300), list=base.list() if rng.random() < .7 else havoc(rng, base.list()))
    i = base.inp(cmd, *av, stdin=sin, files=files)
    i["files"]["conf"] = base.conf
    k = rng.random()
    if k < .04:
        i["argv"] = ["-c", "conf"] + (["-j"] if rng.random() < .5 else ["-h"]) + i["argv"][2:]
    elif k < .08:
        i["argv"] = i["argv"][2:]
        i["env"] = ["HOME=" + rng.choice([".", "nonesuch", "x" * 100, "x" * 9000, ""])]
        i["files"][".aardwarc.conf"] = base.conf
    elif k < .1:
        i["argv"] = ["-c", rng.choice(["a", "nonesuch", "", "obj"])] + i["argv"][2:]
    elif k < .12:
        i["argv"] = i["argv"][:rng.randrange(3)]
    if cmd == "cgi":
        i["env"] += base.cgienv()
    return i


def g_cgi(rng, base):
    e = base.cgienv()
    if rng.random() < .5:
        k = rng.randrange(len(e))
        n, v = e[k].encode("latin-1", "replace").split(b"=", 1)
        e[k] = n + b"=" + rng.choice([havoc(rng, v), b"", v + v, v.upper(), b"/" + v, b"/" * 300, b"x" * 30000])
    if rng.random() < .2:
        rng.shuffle(e)
        e.pop()
    files = base.hostile_silos() if rng.random() < .6 else base.hostile_index() if rng.random() < .5 else None
    return base.inp("cgi", env=e, files=files)


def g_cache(rng, base):
    files = dict(base.files)
    b = struct.pack(">II", *(rng.choice([0, 1, 2, 3, 99, 100, 101, 9999, 10000, 30000]) for _ in range(2)))
    files["a/_.cache"] = rng.choice([b, b, b, b[:rng.randrange(8)], b + b, b"", bytes(4)])
    n = max(base.silofn)
    for _ in range(rng.randrange(3)):
        p = base.silofn[n].replace(str(n), str(n + rng.randrange(3)))
        files[p + ".hold"] = rng.choice([b"", b"junk", gen.rbytes(rng, 100)])
    if rng.random() < .3:
        files[base.silofn[n]] = rng.choice([b"", b"x", gen.rbytes(rng, 200), files[base.silofn[n]][:-5]])
    if rng.random() < .1:
        files["a/0/0d/junk"] = b"x"
    if rng.random() < .1:
        files["a/tmp.123"] = b"x"
    return base.reader(files=files, cmds=["store", "store", "store", "metadata", "mksilo", "get", "housekeeping", "reindex", "audit", "rebuild", "stevedore"])


def g_stow(rng, base):
    """A hostile stevedore and a hostile tree"""
    tree = {"d/f%d" % i: gen.rbytes(rng, rng.choice([0, 1, 50, 5000, 70000])) for i in range(rng.randrange(4))}
    import hashlib
    digs = [hashlib.sha256(b).hexdigest() for b in tree.values() if b]
    mt = [".               type=dir" if rng.random() < .95 else "/set type=file", ]
    if rng.random() < .7:
        mt.insert(0, "/set type=file")
    for fn, b in tree.items():
        mt.append("    %s type=file sha256digest=%s" % (fn[2:], hashlib.sha256(b).hexdigest()))
    if rng.random() < .3:
        mt += ["sub type=dir", "    x type=link link=/etc", ".."]
    mt.append("..")
    for _ in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(len(mt) + 1)
        mt.insert(i, rng.choice(["..", "", "/set", "/set type=dir", "x", "x type=dir", "x sha256digest=", "x sha256digest=abc", "x\\", "x\\\\", " \\",
            "y type=file sha256digest=" + "a" * 64, "z" * rng.choice([300, 5000, 16300, 16385, 40000]) + " type=dir", "a" * 70000, "\xff type=dir",
            "y type=file sha256digest=" + "b" * rng.choice([1, 15, 16, 63, 65, 1000])]))
    if rng.random() < .1:
        # a deep tree
        i = rng.randrange(len(mt) + 1)
        n = rng.choice([2, 4, 10, 70])
        w = rng.choice([16384 // n, 16385 // n, 20000 // n, 4096 // n])
        mt[i:i] = ["%s type=dir" % ("d" * w)] * n + ["x type=file sha256digest=" + "c" * 64] + [".."] * n
    mtree = "\n".join(mt).encode("latin-1", "replace") + b"\n"
    if rng.random() < .15:
        mtree = havoc(rng, mtree)
    digs.append(hashlib.sha256(mtree).hexdigest())
    w = base.cfg.idlen
    chunks = []

    def reply():
        k = rng.randrange(12)
        d = rng.choice(digs)
        if k < 4:
            return base.frame(1, d[:rng.choice([w, w, w, 64, 16, 15, 65, rng.randrange(70)])].encode())
        if k == 4:
            return base.frame(1, b"")
        if k < 7:
            return base.frame(1, struct.pack(">I", rng.choice([0, 1, 1, 2, 3, len(digs), len(digs) + 1, 1 << 31])))
        if k < 9:
            return base.frame(2, (base.cfg.prefix + d[:w]).encode() if rng.random() < .7 else
                rng.choice([b"", b"/", d.encode(), b"x/" + b"0" * 70, gen.rbytes(rng, 40), b"a" * 1023, b"a" * 1024]))
        if k == 9:
            return base.frame(3, (base.cfg.prefix + d[:w]).encode())
        if k == 10:
            return base.frame(0, rng.choice([b"Hi", b"%s%n", b"x" * rng.choice([255, 1022, 1023, 1024, 1025, 5000])]))
        return base.frame(rng.randrange(8), gen.rbytes(rng, rng.choice([0, 4, 16, 32, 64, 65])))
    chunks.append(base.frame(0, b"Hi there"))
    # half a chance to be reasonable
    if rng.random() < .6:
        for d in digs:
            chunks.append(base.frame(1, d[:w].encode()))
        for d in digs:
            chunks.append(base.frame(2, (base.cfg.prefix + d[:w]).encode()))
        chunks.append(base.frame(1, b""))
        chunks.append(base.frame(3, (base.cfg.prefix + digs[0][:w]).encode()))
        for _ in range(rng.choice([0, 1, 1, 2])):
            i = rng.randrange(len(chunks) + 1)
            x = rng.randrange(3)
            if x == 0:
                chunks.insert(i, reply())
            elif x == 1 and i < len(chunks):
                chunks[i] = reply()
            elif i < len(chunks):
                del chunks[i]
    else:
        chunks += [reply() for _ in range(rng.randrange(1, 7))]
    if rng.random() < .1:
        chunks = [havoc(rng, c, 1) for c in chunks]
    if rng.random() < .3:
        chunks = [b"".join(chunks[:2])] + chunks[2:]
    script = b"".join(struct.pack(">I", len(c)) + c for c in chunks)
    conf = base.conf + b"stow.j:\n\tdirectory d\n\tcmd exec ./bin/hostile script 4\n"
    files = dict(tree)
    files["d"] = None
    files = {"d": None}
    files.update(tree)
    files.update({"script": script, "mtree.out": mtree,
        "bin/mtree": b"#!/bin/sh\nexec cat mtree.out\n" if rng.random() < .97 else b"#!/bin/sh\ncat mtree.out\nexit 1\n"})
    i = base.inp("stow", "j", env=["PATH=./bin:/usr/bin:/bin"], files=files, conf=conf)
    return i


GEN = dict(silo=g_silo, index=g_index, config=g_config, stevedore=g_stevedore, stow=g_stow, input=g_input, cgi=g_cgi, cache=g_cache)
# how many, in each case
COUNT = dict(silo=900, index=800, config=800, stevedore=440, stow=280, input=900, cgi=800, cache=500)


def run_case(ctx, case):
    kind = re.match(r"[a-z]+", case).group()
    rng = ctx.rng
    fz = Fuzz(ctx, kind)
    try:
        base = Base(ctx, fz)
        if ctx.violations:
            return
        if kind == "stow":
            with open(ctx.aux["hostile"], "rb") as f:
                hostile = f.read()
        # the real thing works
        i = base.inp("get", "-q", base.ids[0])
        r = fz.execute(harmless(i), "fuzz")
        if r.rc != 0 or (not r.out and base.data[base.ids[0]]):
            if not fz.judge(i, r, "fuzz"):
                return
            ctx.violate("get-fail", "get in the fork server: status %d" % r.rc, stderr=r.err.decode(errors="replace"))
            return
        n = COUNT[kind] * (1 if ctx.tier == "quick" else 3)
        for k in range(n):
            if len(ctx.violations) >= 3:
                return
            if fz.corpus and rng.random() < .4:
                c = rng.choice(fz.corpus[-20:] if rng.random() < .5 else fz.corpus)
                inp = mutate(rng, c, ("conf", "bin/mtree", "bin/hostile", "obj", "d") if kind == "stow" else ())
            else:
                inp = GEN[kind](rng, base)
            if kind == "stow":
                inp["files"]["bin/hostile"] = hostile
            inp = harmless(inp)
            fz.one(inp)
        ctx.stats["edges"] += len({k for k, _ in fz.seen})
        ctx.sample(dict(kind=kind, kept=len(fz.corpus), edges=len({k for k, _ in fz.seen}),
            last=[str(x)[:80] for x in inp["argv"]]))
    finally:
        fz.close()
