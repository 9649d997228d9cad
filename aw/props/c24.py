"""C24 Configuration is interpreted as documented or refused"""
import decimal
import fractions
import json
import os

from .. import core, gen, hist, warc

VARIANTS = ["plain", "ubsan", "san"]
FSIZE_LIMIT = 0
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the real program is run with generated configurations and compared with an independent "
    "reading of them: where segments end and what is appended (sparse silos of up to petabytes), ID widths, refusals "
    "(exit status, untouched archive), and histories in which every command sees a differently spelled configuration")
NOTE = "Every answer is decided completely; bounded by the configurations generated. Locale dependent spellings are not generated."
RULE = ("sizes in all spellings and magnitudes, 40 kinds of errors in every setting, layouts with comments, blank lines, "
    "order, indentation, case and line ends; distinct = (kind, setting or spelling class, command, outcome)")
NEED = {"sizes": 200, "sparse": 150, "exact": 50, "refused": 3500, "layouts": 1500, "infos": 300}


def cases(tier, seed):
    n = 1 if tier == "quick" else 20
    return (["s%d" % i for i in range(70 * n)] + ["x%d" % i for i in range(60 * n)] +
        ["b%d" % i for i in range(150 * n)] + ["o%d" % i for i in range(160 * n)] + ["i%d" % i for i in range(60 * n)])


MULT = {"": 1, "k": 1 << 10, "m": 1 << 20, "g": 1 << 30, "t": 1 << 40, "p": 1 << 50}


def spell(rng, n):
    """Some way of writing n bytes"""
    u = rng.choice(["", "", "k", "m", "g"] if n < 1 << 31 else ["", "k", "m", "g", "t", "p"])
    v = fractions.Fraction(n, MULT[u])
    if v.denominator == 1:
        s = str(v.numerator)
        if rng.random() < .2:
            s = "0" * rng.randrange(1, 4) + s
        if rng.random() < .2:
            s += "." + "0" * rng.randrange(0, 3)
    else:
        # enough digits for rounding to do the rest
        d = decimal.Decimal(v.numerator) / decimal.Decimal(v.denominator)
        s = "%.*f" % (15, d) if v < 10 else "%.*f" % (12, d)
        if abs(fractions.Fraction(s) * MULT[u] - n) > .2 or len(s.replace(".", "").lstrip("0")) > 15:
            # (more than a floating point number can hold)
            u, s = "", str(n)
        if s.startswith("0.") and rng.random() < .4:
            s = s[1:]
    u = rng.choice([u, u.upper()])
    return s + u + rng.choice(["", "", "b", "B"])


def segments(a):
    """(type, size, segment number) of all records, by silo, and sizes"""
    m = warc.load(a)
    return [(n, m.sizes[n], [(r.type, len(r.body), r.segno) for r in m.silos[n]]) for n in sorted(m.silos)]


def s_case(ctx):
    """Where does an object get split?"""
    rng = ctx.rng
    for _ in range(3):
        n = rng.choice([rng.randrange(5000, 20000), rng.randrange(5000, 400000), 1024 * rng.randrange(5, 300),
            65536, 1 << 20, 524288, 100000, rng.randrange(1, 12) * 100000])
        s = spell(rng, n)
        pre = rng.choice(hist.PREFIXES)
        one = core.Archive(ctx, name="one%d" % ctx.uniq(), cfg=core.Cfg(prefix=pre, maxsize=s, maxbytes=n))
        two = core.Archive(ctx, name="two%d" % ctx.uniq(), cfg=core.Cfg(prefix=pre, maxsize=str(n), maxbytes=n))
        d = gen.exact(rng, int(n * rng.choice([1.4, 2.5, 3.5, 1.5])), "random")
        res = []
        h = hist.Hist(ctx, one, VARIANTS)
        for a in (one, two):
            h = hist.Hist(ctx, a, VARIANTS)
            if h.store(data=d, mime="text/plain") is None:
                return
            res.append(segments(a))
        ctx.stats["sizes"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("s", s.lower().rstrip("b")[-1:] if not s[-1].isdigit() else "", "." in s, n.bit_length())
        # (the date is part of compressed headers)
        if len(res[0]) != len(res[1]) or any(abs(x[1] - y[1]) > 60 or abs(x[2][-1][1] - y[2][-1][1]) > 60 * len(res[0])
                for x, y in zip(*res)):
            h.bad("size", "silo.max_size %s makes silos %r, %d makes silos %r" % (s, res[0][:3], n, res[1][:3]))
            return
        big = max(x[1] for x in res[0])
        if big > n or big < n - 5000:
            h.bad("size", "silo.max_size %s (%d): largest silo has %d bytes" % (s, n, big))
            return
        h.get_all()
        one.destroy()
        two.destroy()


def x_case(ctx):
    """Astronomical silos"""
    rng = ctx.rng
    for _ in range(2):
        c = rng.random()
        if c < .15:
            n, s = 7 << 29, None
        else:
            n = rng.choice([rng.randrange(10000, 1 << 31), rng.randrange(1 << 20, 1 << 36), (1 << 32) + rng.choice([-1, 0, 1]),
                1 << 31, rng.randrange(1, 100) << 30, rng.randrange(1, 100) << 40, rng.randrange(1, 4000) << 50, rng.randrange(1 << 46)])
            s = spell(rng, n)
            if n >= 1 << 53:
                # (sizes are kept in floating point)
                n = n >> 50 << 50
                s = "%d%s" % (n >> 50, rng.choice("pP")) if rng.random() < .5 else "%dT" % (n >> 40)
            elif n >= 1 << 40 and "." in s and float(s.rstrip("bB").rstrip("kKmMgGtTpP")) % 1:
                s = str(n)
        a = core.Archive(ctx, name="x%d" % ctx.uniq(), cfg=core.Cfg(maxsize=s, maxbytes=n, prefix=rng.choice(hist.PREFIXES)))
        fn = a.silo_path(0)
        r = a.cmd("mksilo", "0", variant=ctx.rng.choice(VARIANTS))
        if r.rc:
            ctx.violate("mksilo-fail", "mksilo with silo.max_size %s" % s, result=r.brief())
            return
        grow = None
        for step in range(4):
            d = gen.rbytes(rng, 300)
            if grow is None:
                size = n - rng.choice([2000, 5000])
            else:
                size = n - grow + (-12 if step != 2 else 12)
            try:
                os.truncate(fn, size)
            except OSError:
                # (more than this file system can do)
                ctx.stats["too_big"] += 1
                return
            others = a.silo_nums()
            for k in others:
                if k:
                    os.chmod(others[k], 0o444)
            with open(a.dir + "_.cache", "wb") as f:
                f.write((max(others) + 1).to_bytes(4, "big") + bytes(4))
            r = a.store(d, variant=rng.choice(VARIANTS))
            g = os.stat(fn).st_size - size
            ctx.stats["sparse"] += 1
            ctx.stats["evaluations"] += 1
            ctx.seen("x", n.bit_length(), s is None, step)
            if r.rc:
                ctx.violate("store-fail", "store with silo.max_size %s fails (silo 0 has %d)" % (s, size), result=r.brief())
                return
            if bool(g) != (step != 2):
                ctx.violate("limit", "silo.max_size %s (%d): %d bytes were appended to a silo of %d" % (s, n, g, size),
                    grow=grow, result=r.brief())
                return
            if g:
                grow = max(g, grow or 0)
            x = a.cmd("get", "-q", a.rid(d))
            if x.rc or x.out != d:
                ctx.violate("get", "object in a silo at %d of %d is not retrieved" % (size, n), result=x.brief())
                return
        exact(ctx, a, n, s)
        if ctx.violations:
            return
        a.destroy()


def exact(ctx, a, n, s):
    """To the byte: the same record, dated the same, of known size, fits or does not"""
    rng = ctx.rng
    d = gen.rbytes(rng, 300)
    rid = a.rid(d)
    fn = a.silo_path(0)
    var = rng.choice(VARIANTS)

    def put(size):
        for k, p in a.silo_nums().items():
            if k:
                os.unlink(p)
        for f in ("index.appendix", "index.sorted", "_.cache"):
            if os.path.exists(a.dir + f):
                os.unlink(a.dir + f)
        os.truncate(fn, size)
        r = a.store(d, variant=var)
        g = os.stat(fn).st_size - size
        x = a.cmd("get", rid)
        date = [ln for ln in x.err.split(b"\r\n") if ln.lower().startswith(b"warc-date")]
        return g, date, r

    for _ in range(4):
        g0, d0, r0 = put(n - 3000)
        g1, d1, r1 = put(n - g0)
        g2, d2, r2 = put(n - g0 + 1)
        if not d0 or d0 != d1 or d0 != d2:
            # another second
            continue
        ctx.stats["exact"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("e", n.bit_length(), s is None or s[-1])
        if g0 <= 0 or g1 != g0 or g2 != 0:
            ctx.violate("limit-exact", "silo.max_size %s (%d): a record of %d bytes, %d are appended when it just fits, %d when it is one too long" % (
                s, n, g0, g1, g2), result=r1.brief())
        return


# (setting, value) which must be refused
def bad_config(ctx, cfg, d):
    """-> kind, text"""
    rng = ctx.rng
    t = cfg.text(d)
    sizes = ["", "-1", "-5k", "k", "5kk", "5bk", "5x", "5k5", "1..5k", "1.5.5k", "1e", "0x10000", "nan", "inf", "ten", "5k k",
        "1e30", "99999999999999999999999", "9000P", "8192P", "8388608T", "9223372036854775808", "18446744073709551616", "1e400", "5%", "1,5k",
        "k5", "5 k", ".", "-", "5ki", "5kib", "1E", "--5", "5-", "$5", "5k\n\t6k"]
    def setv(sec, val):
        out, skip, done = [], False, False
        for ln in t.split("\n"):
            if ln == sec + ":":
                out.append(ln)
                out.append("\t" + val)
                skip, done = True, True
            elif skip and ln[:1] == "\t":
                pass
            else:
                skip = False
                out.append(ln)
        if not done:
            out = [sec + ":", "\t" + val] + out
        return "\n".join(out)

    k = rng.randrange(14)
    p = cfg.prefix
    if k < 2:
        v = rng.choice(sizes)
        return "max_size", setv("silo.max_size", v)
    if k == 2:
        v = rng.choice(sizes + ["0", "1", "4095", "3k", "100b"])
        return "sort_size", setv("index.sort_size", v)
    if k < 5:
        w = rng.choice([0, 4, 60, 63, 65, 66, 67, 127, 129, 130, 253, 254, 255, 257, 260, 264, 512, 1024, 2 ** 32 + 128, 2 ** 64 + 128, 2 ** 64, 2 ** 32])
        v = rng.choice([str(w), str(w), str(w), "-%d" % rng.choice([128, 64, 2 ** 32 - 128, 2 ** 64 - 128]), "abc", "128x", "x128", "128 5", "1e2", "128.0", "128k", "%d," % 128, "sha256", "128 bits"])
        return "width", setv("WARC-Record-ID", p + " " + v)
    if k == 5:
        v = rng.choice([p.rstrip("/") or "x", p + "x", "foo", "a", "/a", "file://x/y?", p + "\\"])
        return "prefix", setv("WARC-Record-ID", v + rng.choice(["", " 128"]))
    if k == 6:
        return "directory", setv("silo.directory", rng.choice([d.rstrip("/"), d + "x", d[:-1] + " /", d + "\n\t" + d, d + " " + d, "", "."]))
    if k < 9:
        v = rng.choice(["x.gz", "%%", "%", "%5", "%s", "%n", "%p", "%f", "%g", "%lu", "%llu", "%zu", "%ju", "%u%u", "%u%s", "%s%u", "%u%n", "%*u",
            "%u%", "%u/x", "x/%u", "/%u", "%u %u", "", "%08u.warc.gz %08u", "%1$u", "%2$u", "%a", "%u%08u", "a%%u", "%ls", "%.*u", "%v", "%u\n\t%u", "%08u.warc.gz/"])
        return "basename", setv("silo.basename", v)
    if k == 9:
        sec = rng.choice(["WARC-Record-ID", "silo.directory"])
        return "missing", "\n".join(x for x in t.replace(sec + ":", "other.section:").split("\n"))
    if k == 10:
        secs = [x for x in t.split("\n") if x.endswith(":") and x[:1] != "\t"]
        s = rng.choice(secs)
        s2 = rng.choice([s, s, s.upper(), s.lower(), s.title()])
        return "duplicate", rng.choice([t + s2 + "\n\t1\n", s2 + "\n" + t, t + s2 + "\n"])
    if k == 11:
        ln = rng.choice(["junk", "junk: 5", ":x", "silo.max_size 5k", "a:b", "#no\nfoo", "silo.max_size=5k", ": :", "x::"[:2] + "y"])
        ll = t.split("\n")
        ll.insert(rng.randrange(len(ll)), ln)
        return "no-colon", "\n".join(ll)
    if k == 12:
        return "no-section", rng.choice(["\tfoo\n", "   128\n", "\n#x\n\tfoo bar\n"]) + t
    b = rng.choice([b"\0", b"\xc0\x80", b"\xc1", b"\xff", b"\xf5", b"\xfe"])
    i = rng.randrange(len(t))
    t = t.encode()
    return "bytes", t[:i] + b + t[i:]


COMMANDS = [["store"], ["store", "-t", "resource"], ["mksilo", "3"], ["housekeeping"], ["reindex"], ["info"], ["audit"],
    ["get", "0" * 32], ["filter"], ["stevedore"], ["dumpindex"], ["byid", "00"], ["cgi"], ["rebuild"], ["nosuch"], ["-j", "info"]]


def b_case(ctx):
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, ["plain"])
    if not h.random_ops(rng.randrange(1, 4)):
        return
    t0 = a.tree()
    for _ in range(10):
        kind, t = bad_config(ctx, cfg, a.dir)
        fn = os.path.join(a.root, "bad.conf")
        with open(fn, "wb") as f:
            f.write(t.encode() if isinstance(t, str) else t)
        for c in rng.sample(COMMANDS, 3) + [["store"]]:
            home = rng.random() < .1 and not os.path.exists("/etc/aardwarc.conf") and not os.path.exists("/usr/local/etc/aardwarc.conf")
            argv = [ctx.bins[rng.choice(VARIANTS)]]
            env = {}
            if home:
                env = {"HOME": a.root}
                os.rename(fn, a.root + "/.aardwarc.conf")
            else:
                argv += ["-c", fn]
            r = core.run(argv + c, stdin=gen.rbytes(rng, 100), env=env)
            if home:
                os.rename(a.root + "/.aardwarc.conf", fn)
            ctx.stats["refused"] += 1
            ctx.stats["evaluations"] += 1
            ctx.seen("b", kind, c[0], r.crashed, home)
            if r.sanitizer:
                ctx.violate("sanitizer", "%s: sanitizer report" % kind, result=r.brief(), text=t)
                return
            if r.rc == 0:
                ctx.violate("accepted-" + kind, "%s succeeds with a wrong %s" % (c[0], kind), result=r.brief(), text=t)
                return
            if r.rc is not None and r.out and c[0] != "cgi":
                ctx.violate("output-" + kind, "%s prints %r with a wrong %s" % (c[0], r.out[:60], kind), text=t)
                return
            t1 = a.tree()
            if t1 != t0:
                ctx.violate("touched-" + kind, "%s changes the archive with a wrong %s" % (c[0], kind), result=r.brief(), text=t)
                return
    # Files which are none
    for fn in (a.root + "/nosuch.conf", a.root, "/dev/null", a.dir):
        r = core.run([ctx.bins["plain"], "-c", fn, "store"], stdin=b"x")
        if r.rc == 0 or a.tree() != t0:
            ctx.violate("accepted-nofile", "store succeeds with configuration %s" % fn, result=r.brief())
    h.get_all(sample=3)


def layout(rng, t):
    """The same configuration, written differently"""
    secs = []
    for ln in t.split("\n"):
        if not ln:
            continue
        if ln[0] != "\t":
            secs.append([ln])
        else:
            secs[-1].append(ln)
    rng.shuffle(secs)
    out = []

    def noise():
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            out.append(rng.choice(["", "  ", "\t", "# comment", "   # silo.max_size:", "#silo.directory:", "\t#\t/nowhere/", "#", "## : ##",
                "# " + "x" * rng.choice([10, 3000])]))

    ind = rng.choice(["\t", " ", "    ", "\t\t", " \t"])
    for s in secs:
        noise()
        # WARC field names and mime types are data, section names are not
        name = rng.choice([s[0], s[0], s[0].upper(), s[0].lower(), s[0].swapcase()])
        out.append(name + rng.choice(["", "", " ", "\t ", " # what", "#"]))
        for e in s[1:]:
            noise()
            w = e.split(None, 1)
            out.append(rng.choice([ind, "\t", "  "]) + w[0] + ("" if len(w) < 2 else rng.choice([" ", "\t", "  \t "]) + w[1]) +
                rng.choice(["", "", "  ", "\t", " # x", "#y"]))
    noise()
    if rng.random() < .3:
        out.append("unknown.section:\n\tfoo\tbar baz\n\tquux")
    if rng.random() < .2:
        out.insert(0, "another.one:")
    eol = rng.choice(["\n", "\n", "\r\n"])
    return eol.join(out) + rng.choice(["", eol])


class Layouts(core.Archive):
    """Sees another layout in every command"""

    def cmd(self, *args, **kw):
        with open(self.conf, "wb") as f:
            self.last = layout(self.ctx.rng, self.cfg.text(self.dir)).encode()
            f.write(self.last)
        self.ctx.stats["layouts"] += 1
        return core.Archive.cmd(self, *args, **kw)


def o_case(ctx):
    rng = ctx.rng
    cfg = hist.random_cfg(rng, small=True)
    if rng.random() < .4:
        cfg.resource = tuple(rng.sample(hist.MIMES, len(hist.MIMES)))
        cfg.metadata = tuple(rng.sample(hist.MIMES, len(hist.MIMES)))
        # (with arguments, these are more than one word)
        cfg.resource = tuple(x for x in cfg.resource if " " not in x)
        cfg.metadata = tuple(x for x in cfg.metadata if " " not in x)
    a = Layouts(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    h.mimes = [x for x in hist.MIMES if " " not in x]
    if not h.random_ops(rng.randrange(3, 10), p_mksilo=.06):
        return
    h.store(n=rng.choice([1, 100, int(cfg.maxbytes * 1.4)]))
    if ctx.violations:
        return
    h.get_all()
    m = warc.load(a)
    for k, msg in m.errs:
        h.bad("silo-" + k, msg)
    r = a.cmd("audit", variant=h.var())
    if h.ok(r, "audit") and b"ERROR" in r.out:
        h.bad("audit", "audit complains", r)
    if cfg.resource != ("*",) and not ctx.violations:
        t0 = a.tree()
        r = a.store(gen.rbytes(rng, 30), "-m", rng.choice(["text/html", "text", "image/png2", "x", "image/pn"]), variant=h.var())
        if r.rc == 0 or a.tree() != t0:
            h.bad("mime", "mime type which is not configured is accepted", r)
    ctx.stats["evaluations"] += 1
    ctx.seen("o", cfg.bits, cfg.resource == ("*",), cfg.basename)
    ctx.sample(dict(layout=a.last.decode()[:600]))


def i_case(ctx):
    rng = ctx.rng
    for _ in range(6):
        bits = rng.choice([None] + list(range(64, 257, 4)))
        cfg = hist.random_cfg(rng)
        cfg.bits = bits
        a = core.Archive(ctx, name="i%d" % ctx.uniq(), cfg=cfg)
        with open(a.conf, "w", newline="") as f:
            f.write(layout(rng, cfg.text(a.dir)))
        argv = [ctx.bins[rng.choice(VARIANTS)]]
        env = {}
        if rng.random() < .2:
            os.rename(a.conf, a.root + "/.aardwarc.conf")
            env = {"HOME": a.root}
        else:
            argv += ["-c", a.conf]
        js = rng.random() < .5
        r = core.run(argv + (["-j"] if js else []) + ["info"], env=env)
        ctx.stats["infos"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("i", bits, js, bool(env))
        w = cfg.idlen
        try:
            if js:
                j = json.loads(r.out.decode())
                ok = j[:3] == ["AardWARC", "info", "1"] and j[3]["id_size"] == w
            else:
                ok = r.out.decode().split() == ["id_size:", str(w)]
        except (ValueError, LookupError, TypeError):
            ok = False
        if r.rc or not ok:
            ctx.violate("info", "info%s with %s bits reports %r" % (" as JSON" if js else "", bits, r.out), result=r.brief())
            return
        if js or rng.random() < .5:
            # Not JSON: say so, and do nothing
            c = rng.choice([["store"], ["mksilo", "0"], ["housekeeping"], ["audit"], ["get", "0" * w]])
            t0 = a.tree()
            r = core.run(argv + ["-j"] + c, env=env, stdin=b"x")
            if r.rc == 0 or a.tree() != t0:
                ctx.violate("json", "-j %s is accepted" % c[0], result=r.brief())
                return
        d = gen.rbytes(rng, 10)
        r = core.run(argv + ["store"], stdin=d, env=env)
        if r.rc or r.out.decode() != a.uri(a.rid(d)) + "\n":
            ctx.violate("width", "with %s bits store says %r" % (bits, r.out), result=r.brief())
            return
        a.destroy()


def run_case(ctx, case):
    {"s": s_case, "x": x_case, "b": b_case, "o": o_case, "i": i_case}[case[0]](ctx)
