"""C17 stevedore follows its protocol for any client"""
import hashlib
import os
import random
import signal
import struct
import subprocess
import threading
import time

from .. import core, gen, hist, warc

VARIANTS = ["plain", "ubsan", "san"]
AUX_SO = {"slow": "slow.c"}
LEVEL = "exploration"
CPU_LIMIT = 150
TECHNIQUE = ("runtime monitoring: an own client speaks the protocol with the real stevedore, in arbitrary "
    "fragments, delays and interleavings of filter, object and metadata messages, and disconnects at arbitrary "
    "bytes; an online checker of the reply stream decides against the client's own record of what the archive holds")
NOTE = ("Every reply of every session is decided by a specification of the protocol, not sampled; bounded by the "
    "sessions generated. A client which neither reads nor closes is not part of the property.")
RULE = ("random sessions (pipelined and interactive) over archives with resources and metadata; all frame "
    "encodings; batches over 40960 IDs; disconnects at every byte of short sessions and random ones of long ones; "
    "distinct = (kind, messages, replies, end)")
NEED = {"replies": 40000, "sessions": 1500, "acks": 700, "metas": 150, "disconnects": 1500, "woven": 40, "slow_children": 800}

MSG, FILTER, DATA, META = 0, 1, 2, 3


def frame(cmd, d, rng=None):
    n = len(d)
    forms = []
    if n == 0:
        forms.append(bytes([cmd]))
    if n == 32:
        forms.append(bytes([cmd | 0x40]))
    if n < 256:
        forms.append(bytes([cmd | 0x80, n]))
    forms.append(bytes([cmd | 0xc0]) + struct.pack(">I", n))
    h = forms[0]
    if rng is not None and rng.random() < .2:
        # Other ways to say the same, and the reserved bits
        h = rng.choice(forms)
        h = bytes([h[0] | (rng.randrange(8) << 3)]) + h[1:]
    return h + d


def cases(tier, seed):
    n = 6 if tier == "quick" else 60
    return ["p%d" % i for i in range(30 * n)] + ["i%d" % i for i in range(20 * n)] + \
        ["d%d" % i for i in range(24 * n)] + ["x%d" % i for i in range(8 * n)] + \
        ["b%d" % i for i in range(2 * n)] + ["r%d" % i for i in range(8 * n)]


class Gone(Exception):
    pass


class Session(object):
    """One connection to a stevedore"""

    def __init__(self, ctx, arch, variant, conf=None):
        self.ctx = ctx
        argv = arch.argv("stevedore", variant=variant)
        if conf:
            argv[2] = conf
        self.argv = argv
        e = dict(core.BASE_ENV)
        rng = ctx.rng
        self.slow = None
        if "slow" in ctx.aux and rng.random() < .2:
            # its children are slow to start and to end
            self.slow = ctx.dir + "/slow%d" % ctx.uniq()
            e.update({"LD_PRELOAD": ctx.aux["slow"], "AWS_SEED": str(rng.getrandbits(30)), "AWS_LOG": self.slow,
                "AWS_SPEC": rng.choice(["0:2000", "0:30000", "3000:3000", "20000:20000"])})
        self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, env=e, start_new_session=True, bufsize=0)
        ctx.stats["sessions"] += 1
        self.t0 = time.monotonic()
        self.frames = []        # (cmd, data)
        self.buf = b""
        self.eof = False
        self.cond = threading.Condition()
        self.err = []
        self.gone = False       # could not write
        self.sent = 0
        self.wq = []
        self.wclosed = False
        self.frags = None
        self.rt = threading.Thread(target=self.reader, daemon=True)
        self.et = threading.Thread(target=self.ereader, daemon=True)
        self.rt.start()
        self.et.start()

    def reader(self):
        fd = self.p.stdout.fileno()
        while True:
            try:
                b = os.read(fd, 65536)
            except OSError:
                b = b""
            with self.cond:
                if not b:
                    self.eof = True
                    self.cond.notify_all()
                    return
                self.buf += b
                self.parse()
                self.cond.notify_all()

    def parse(self):
        o = 0
        b = self.buf
        while o < len(b):
            t = b[o] >> 6
            if t == 0:
                h, n = 1, 0
            elif t == 1:
                h, n = 1, 32
            elif t == 2:
                if len(b) < o + 2:
                    break
                h, n = 2, b[o + 1]
            else:
                if len(b) < o + 5:
                    break
                h, n = 5, struct.unpack_from(">I", b, o + 1)[0]
            if len(b) < o + h + n:
                break
            self.frames.append((b[o] & 7, b[o + h:o + h + n]))
            o += h + n
        self.buf = b[o:]

    def ereader(self):
        while True:
            b = os.read(self.p.stderr.fileno(), 65536)
            if not b:
                return
            self.err.append(b)

    def write(self, data, rng, maxchunk=None, delay=0):
        """In fragments"""
        fd = self.p.stdin.fileno()
        mv = memoryview(data)
        while len(mv):
            n = len(mv) if maxchunk is None else rng.randrange(1, maxchunk + 1)
            try:
                n = os.write(fd, mv[:n])
            except (BrokenPipeError, OSError):
                self.gone = True
                return False
            mv = mv[n:]
            self.sent += n
            if delay:
                time.sleep(rng.random() * delay)
        return True

    def wait_frames(self, n, timeout=60):
        """Until there are n frames"""
        dl = time.monotonic() + timeout
        with self.cond:
            while len(self.frames) < n and not self.eof:
                left = dl - time.monotonic()
                if left <= 0:
                    self.kill()
                    raise core.Hung("stevedore does not reply: %d of %d frames" % (len(self.frames), n))
                self.cond.wait(left)
            return len(self.frames) >= n

    def close_in(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass

    def close_out(self):
        """Not while the reader thread blocks in it: kill the connection from below"""
        # The reader holds the descriptor; stevedore sees EPIPE only when all are closed
        self.p.stdout.close()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def end(self, timeout=60):
        """Wait until stevedore and its children are gone -> core.Res"""
        dl = time.monotonic() + timeout
        hung = False
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            hung = True
        if not hung:
            # stderr reaches its end when the last child has gone
            self.et.join(max(.01, dl - time.monotonic()))
            hung = self.et.is_alive()
        if hung:
            self.kill()
            self.p.wait()
            self.et.join(5)
        self.rt.join(5)
        self.close_in()
        r = core.Res(self.argv, self.p.returncode, b"", b"".join(self.err), hung,
            int(self.t0 * 1e9), time.monotonic_ns())
        if hung:
            raise core.Hung(r.brief())
        self.p.stdout.close()
        self.p.stderr.close()
        if self.slow and os.path.exists(self.slow):
            with open(self.slow) as f:
                self.ctx.stats["slow_children"] += len(f.read().split("\n")) - 1
            os.unlink(self.slow)
        return r


class Monitor(object):
    """What the replies have to be"""

    def __init__(self, ctx, h):
        self.ctx = ctx
        self.h = h
        self.a = h.a
        self.idlen = self.a.cfg.idlen
        self.present = set(h.objs)      # certainly in the archive
        self.maybe = set()              # being stored
        self.wait = []                  # filter requests: [id or None, certain-present-at-request]
        self.acks = []                  # uris
        self.metas = set()
        self.nmeta = 0
        self.junk = 0
        self.done = 0
        self.bad = None

    # What the client says

    def ask(self, full):
        i = full[:self.idlen].lower()
        # In the archive already, not, or either
        self.wait.append([i, full, "p" if i in self.present else "m" if i in self.maybe else "a"])

    def flush(self):
        self.wait.append([None, None, None])

    def stored(self, data):
        i = self.a.rid(data)
        self.acks.append(i)
        if i not in self.present:
            self.maybe.add(i)
        # Requests under way can go either way
        for w in self.wait:
            if w[0] == i and w[2] == "a":
                w[2] = "m"

    def metadata(self, ref, body):
        i = self.a.mid(self.a.uri(ref[:self.idlen]), body)
        self.metas.add(i)
        self.nmeta += 1
        if i not in self.present:
            self.maybe.add(i)
        for w in self.wait:
            if w[0] == i and w[2] == "a":
                w[2] = "m"

    # What comes back

    def fail(self, msg):
        if not self.bad:
            self.bad = msg

    def pop(self, why):
        """The request is answered with `present'"""
        w = self.wait.pop(0)
        if w[2] == "a":
            self.fail("%s says %s is in the archive, it is not" % (why, w[0]))
        elif w[0] is None:
            self.fail("%s goes past an empty request" % why)

    def reply(self, cmd, d):
        st = self.ctx.stats
        st["replies"] += 1
        if cmd == MSG:
            if d.startswith(b"RX?"):
                self.junk -= 1
                if self.junk < 0:
                    self.fail("complains about a command: %r" % d)
            return
        if cmd == FILTER:
            if len(d) == 0:
                while self.wait and self.wait[0][0] is not None:
                    self.pop("empty reply")
                if not self.wait:
                    self.fail("empty filter reply without request")
                else:
                    self.wait.pop(0)
                    st["flushes"] += 1
            elif len(d) == 4:
                n = struct.unpack(">I", d)[0]
                if n == 0 or n > len(self.wait):
                    return self.fail("filter skips %d of %d requests" % (n, len(self.wait)))
                for _ in range(n):
                    self.pop("count reply")
                st["skipped"] += n
            else:
                i = d.decode("latin-1")
                if len(i) != self.idlen:
                    return self.fail("filter reply %r has the wrong length" % i)
                while self.wait and not (self.wait[0][1] is not None and self.wait[0][1][:self.idlen] == i):
                    self.pop("reply %s" % i)
                if not self.wait:
                    return self.fail("reply %s was not asked for" % i)
                w = self.wait.pop(0)
                if w[2] == "p":
                    self.fail("%s is reported missing, it is in the archive" % i)
                st["missing"] += 1
        elif cmd == DATA:
            if not self.acks:
                return self.fail("acknowledges %r which it did not receive" % d)
            i = self.acks.pop(0)
            if d.decode("latin-1") != self.a.uri(i):
                return self.fail("acknowledges %r instead of %s" % (d, self.a.uri(i)))
            st["acks"] += 1
            self.maybe.discard(i)
            self.present.add(i)
        elif cmd == META:
            u = d.decode("latin-1")
            i = u[len(self.a.cfg.prefix):]
            if u != self.a.uri(i) or i not in self.metas or self.nmeta == 0:
                return self.fail("acknowledges metadata %r" % d)
            self.nmeta -= 1
            st["metas"] += 1
            self.maybe.discard(i)
            self.present.add(i)
        else:
            self.fail("sends command %d" % cmd)

    def eat(self, s, upto=None):
        """-> False when something is wrong"""
        with s.cond:
            l = s.frames[self.done:upto]
        for f in l:
            self.reply(*f)
            self.done += 1
        return self.bad is None

    def outstanding(self):
        """At the end of a complete session"""
        while self.wait and self.wait[0][0] is not None and self.wait[0][2] in "pm":
            # the last ones of a batch need no answer
            self.wait.pop(0)
        l = []
        if self.wait:
            l.append("%d filter requests, first %r" % (len(self.wait), self.wait[0]))
        if self.acks:
            l.append("%d objects" % len(self.acks))
        if self.nmeta:
            l.append("%d metadata" % self.nmeta)
        return ", ".join(l)


class Plan(object):
    """A random valid sequence of messages"""

    def __init__(self, ctx, h, rng, n, big=True):
        self.ctx, self.h, self.rng = ctx, h, rng
        self.a = h.a
        self.msgs = []          # (bytes, function to tell the monitor)
        self.stores = []        # (id, data)
        self.meta = []          # (mid, ref, body)
        self.filters = 0
        self.known = list(h.order)
        self.new = []
        self.big = big
        for _ in range(n):
            self.one()

    def add(self, b, fn=None):
        self.msgs.append((b, fn))

    def full(self, rid):
        """A digest which has this ID"""
        rng = self.rng
        x = rid + "".join(rng.choice("0123456789abcdef") for _ in range(64 - len(rid)))
        x = x[:rng.choice([len(rid), 64, 64, rng.randrange(len(rid), 65)])]
        return x

    def filter_some(self, n=None):
        rng = self.rng
        n = n or rng.choice([1, 1, 2, 5, 20, 100, 400])
        pool = [gen.rbytes(rng, 32).hex() for _ in range(max(1, n // 3))] + self.known + self.new
        mode = rng.choice(["mix", "known", "unknown", "mix"])
        if mode == "known" and self.known:
            pool = self.known
        elif mode == "unknown":
            pool = [gen.rbytes(rng, 32).hex() for _ in range(n)]
        for _ in range(n):
            i = rng.choice(pool)[:self.a.cfg.idlen]
            f = self.full(i)
            if len(f) < 16:
                continue
            self.filters += 1
            self.add(frame(FILTER, f.encode(), rng), lambda m, f=f: m.ask(f))

    def data(self):
        rng = self.rng
        c = rng.random()
        if c < .15 and self.h.order:
            b = self.h.objs[rng.choice(self.h.order)]["data"]
            if len(b) > 400000:
                b = b[:400000]
        else:
            n = gen.size(rng, self.a.cfg.maxbytes) if self.big else rng.randrange(1, 300)
            if rng.random() < .1:
                n = rng.choice([1, 2, 31, 32, 33, 255, 256, 257, 8191, 8192, 8193])
            b = gen.exact(rng, max(1, min(n, 500000)))
        o = 0
        while o < len(b):
            n = rng.choice([1, 2, 31, 32, 33, 100, 255, 256, 257, 4091, 8191, 8192, 8193, 65536, 1 << 20]) \
                if rng.random() < .5 else len(b)
            n = max(n, len(b) // 300)
            self.add(frame(DATA, b[o:o + n], rng))
            o += n
            if rng.random() < .05:
                self.filter_some(rng.choice([1, 3]))
        i = self.a.rid(b)
        self.stores.append((i, b))
        self.new.append(i)
        self.add(frame(DATA, b"", rng), lambda m: m.stored(b))

    def metadata(self):
        rng = self.rng
        # Something which is in the archive when the stevedore reads it
        ref = rng.choice(self.known)
        body = gen.exact(rng, rng.choice([1, 31, 32, 33, 255, 256, 1000, 9000, rng.randrange(1, 20000)]))
        self.add(frame(META, self.full(ref).encode(), rng))
        o = 0
        while o < len(body):
            n = rng.choice([1, 32, 255, 256, 8192, 65536])
            n = max(n, len(body) // 100)
            self.add(frame(META, body[o:o + n], rng))
            o += n
            if rng.random() < .03:
                self.filter_some(rng.choice([1, 3]))
        mid = self.a.mid(self.a.uri(ref), body)
        self.meta.append((mid, ref, body))
        self.add(frame(META, b"", rng), lambda m: m.metadata(ref, body))

    def woven(self):
        """An object and metadata at the same time"""
        keep = self.msgs
        self.msgs = []
        self.metadata()
        x, self.msgs = self.msgs, []
        self.data()
        y, self.msgs = self.msgs, keep
        self.ctx.stats["woven"] += 1
        while x or y:
            if not y or (x and self.rng.random() < .5):
                self.msgs.append(x.pop(0))
            else:
                self.msgs.append(y.pop(0))

    def junk(self):
        rng = self.rng
        d = gen.rbytes(rng, rng.choice([0, 1, 32, 100, 300, 9000]))

        def tell(m):
            m.junk += 1
        self.add(frame(rng.choice([4, 5, 6, 7]), d, rng), tell)

    def one(self):
        rng = self.rng
        c = rng.random()
        if c < .35:
            self.filter_some()
        elif c < .5:
            self.add(frame(FILTER, b"", rng), lambda m: m.flush())
        elif c < .85:
            self.data()
        elif c < .92 and self.known:
            self.metadata()
        elif c < .97 and self.known:
            self.woven()
        elif c > .985:
            self.junk()


def setup(ctx, sizes=None):
    rng = ctx.rng
    a = core.Archive(ctx, cfg=hist.random_cfg(rng, sizes=sizes or ["9k", "20k", "33k", "64k", "100k", "150k", "1M"]))
    h = hist.Hist(ctx, a, VARIANTS)
    for _ in range(rng.choice([0, 1, 3, 6])):
        if h.store() is None:
            return None
        if rng.random() < .3:
            h.metadata(n=rng.randrange(1, 3000))
    if rng.random() < .4:
        h.housekeeping()
    return None if ctx.violations else h


def after(ctx, h, plan, ctxmsg, complete=True, acked=None):
    """All is in the archive, unchanged"""
    a = h.a
    m = warc.load(a)
    for k, msg in m.errs:
        if not complete and k.startswith("segment-"):
            continue
        h.bad("silo-" + k, "%s (%s)" % (msg, ctxmsg))
        return False
    if a.junk():
        if complete:
            h.bad("junk", "left behind: %s (%s)" % (a.junk(), ctxmsg))
            return False
    objs = m.objects()
    for i, b in plan.stores:
        if not complete and i not in acked:
            continue
        got = objs.get(i)
        if not got or not any(g[1] == b for g in got):
            h.bad("object-missing", "object %s (%d bytes) is not in the archive (%s)" % (i, len(b), ctxmsg))
            return False
        if len(got) != 1:
            h.bad("object-twice", "object %s is there %d times (%s)" % (i, len(got), ctxmsg))
            return False
        ctx.stats["objects_checked"] += 1
    for i, ref, b in plan.meta:
        if not complete and i not in acked:
            continue
        got = objs.get(i)
        if not got or got[0][1] != b or got[0][0] != "metadata":
            h.bad("metadata-missing", "metadata %s (%d bytes) is not in the archive (%s)" % (i, len(b), ctxmsg))
            return False
        if got[0][2][0][1].get("WARC-Refers-To") != "<" + a.uri(ref) + ">":
            h.bad("metadata-ref", "metadata %s refers to %r" % (i, got[0][2][0][1].get("WARC-Refers-To")))
            return False
        ctx.stats["objects_checked"] += 1
    # What was there before still is, and nothing which was not sent is there
    allowed = {i for i, b in plan.stores} | {i for i, r, b in plan.meta} | set(h.objs)
    for i, l in objs.items():
        if l[0][0] == "warcinfo":
            continue
        if i in allowed:
            continue
        if not complete:
            # a client which vanished
            if l[0][0] == "resource" and hashlib.sha256(l[0][1]).hexdigest().startswith(i) and \
                    any(b.startswith(l[0][1]) for k, b in plan.stores):
                ctx.stats["truncated_objects"] += 1
                continue
            if l[0][0] == "metadata" and any(b.startswith(l[0][1]) for k, r, b in plan.meta):
                ctx.stats["truncated_objects"] += 1
                continue
        h.bad("object-extra", "%s %s (%d bytes) appeared (%s)" % (l[0][0], i, len(l[0][1]), ctxmsg))
        return False
    for i, o in h.objs.items():
        if i not in objs or objs[i][0][1] != o["data"]:
            h.bad("object-lost", "object %s was lost (%s)" % (i, ctxmsg))
            return False
    # through the index
    l = [x[:1] + x[-1:] for x in plan.stores + plan.meta if complete or x[0] in acked]
    for i, b in ctx.rng.sample(l, min(5, len(l))):
        r = a.cmd("get", "-q", i)
        ctx.stats["gets"] += 1
        if r.rc != 0 or r.out != b:
            h.bad("get", "object %s can not be retrieved after %s" % (i, ctxmsg), r)
            return False
    return True


def bad(ctx, h, s, m, msg, r=None):
    s.kill()
    h.bad("protocol", msg, r, sent=s.sent, replies=[(c, repr(d[:80])) for c, d in s.frames[-8:]],
        err=b"".join(s.err)[-500:].decode(errors="replace"))


def finish(ctx, h, s, m, plan, what):
    """stdin is closed, the session was complete"""
    r = s.end()
    m.eat(s)
    if m.bad:
        return bad(ctx, h, s, m, m.bad, r)
    if r.crashed or r.rc != 0:
        return bad(ctx, h, s, m, "stevedore did not exit 0", r)
    if s.buf:
        return bad(ctx, h, s, m, "ends with an incomplete message %r" % s.buf[:100], r)
    if m.outstanding():
        return bad(ctx, h, s, m, "not answered: %s" % m.outstanding(), r)
    if m.junk:
        return bad(ctx, h, s, m, "unknown commands not reported", r)
    ctx.stats["evaluations"] += 1
    ctx.stats["filters"] += plan.filters
    ctx.seen(what, len(plan.msgs) // 20, len(plan.stores), len(plan.meta), len(s.frames) // 20)
    return after(ctx, h, plan, what)


def pipelined(ctx, case):
    """Everything is sent without waiting for anything"""
    rng = ctx.rng
    h = setup(ctx)
    if h is None:
        return
    plan = Plan(ctx, h, rng, rng.choice([1, 2, 5, 15, 30]))
    m = Monitor(ctx, h)
    tot = sum(len(b) for b, f in plan.msgs)
    chunk = rng.choice([None, None, 1, 3, 40, 1000, 70000])
    delay = rng.choice([0, 0, 0, .0003])
    if tot > 30000 and chunk in (1, 3):
        chunk = 1000
    if tot > 30000 and delay:
        chunk = 70000
    s = Session(ctx, h.a, rng.choice(VARIANTS))
    wr = random.Random(rng.getrandbits(60))

    # The monitor hears everything before: what is stored later is `maybe'
    for b, f in plan.msgs:
        if f:
            f(m)
    ids = {i for i, b in plan.stores} | {i for i, r, b in plan.meta}
    for w in m.wait:
        if w[0] in ids and w[2] == "a":
            w[2] = "m"
    s.write(b"".join(b for b, f in plan.msgs), wr, chunk, delay)
    if rng.random() < .3:
        n = len(plan.stores) + 1
        s.wait_frames(n)
    s.close_in()
    finish(ctx, h, s, m, plan, "pipelined:%s" % chunk)
    ctx.sample(dict(messages=[(b[:1].hex(), len(b)) for b, f in plan.msgs[:40]], chunk=chunk, replies=len(s.frames)))


def interactive(ctx, case):
    """The client waits now and then, and looks whether it is true"""
    rng = ctx.rng
    h = setup(ctx)
    if h is None:
        return
    plan = Plan(ctx, h, rng, rng.choice([5, 15, 30]))
    m = Monitor(ctx, h)
    s = Session(ctx, h.a, rng.choice(VARIANTS))
    data = dict(plan.stores)
    data.update((i, b) for i, r, b in plan.meta)
    nack = 0
    checks = 0
    for b, f in plan.msgs:
        if f:
            f(m)
        chunk = rng.choice([None, None, 1, 7, 1000])
        if chunk and len(b) // chunk > 3000:
            chunk = None
        if not s.write(b, rng, chunk):
            break
        if b[0] & 7 in (DATA, META) and len(b) - (1, 1, 2, 5)[b[0] >> 6] == 0 and rng.random() < .6:
            # an object is complete
            before = (len(m.acks), m.nmeta)
            dl = time.monotonic() + 60
            while (m.acks or m.nmeta) and not m.bad:
                if not s.wait_frames(m.done + 1, dl - time.monotonic()):
                    break
                m.eat(s, m.done + 1)
            if m.bad or s.eof:
                break
            ctx.stats["waited"] += 1
            k = [i for i in data if i in m.present]
            if k and checks < 8:
                checks += 1
                i = k[-1] if rng.random() < .7 else rng.choice(k)
                r = h.a.cmd("get", "-q", i)
                ctx.stats["gets_in_session"] += 1
                if r.rc != 0 or r.out != data[i]:
                    s.kill()
                    s.end()
                    return h.bad("ack-early", "%s was acknowledged, but can not be retrieved" % i, r)
        elif rng.random() < .05 and (b[0] & 7) == FILTER and len(b) == 1:
            # empty request: the answer must come without more input
            dl = time.monotonic() + 60
            while any(w[0] is None for w in m.wait) and not m.bad:
                if not s.wait_frames(m.done + 1, dl - time.monotonic()):
                    break
                m.eat(s, m.done + 1)
            ctx.stats["waited_flush"] += 1
    s.close_in()
    finish(ctx, h, s, m, plan, "interactive")


def disconnect(ctx, case):
    """The client goes away at some byte"""
    rng = ctx.rng
    h = setup(ctx, ["20k", "100k"])
    if h is None:
        return
    small = rng.random() < .5
    plan = Plan(ctx, h, rng, 3 if small else rng.choice([6, 12]), big=not small)
    while not plan.msgs:
        plan.one()
    b = b"".join(x for x, f in plan.msgs)
    # where the messages start
    at = [0]
    for x, f in plan.msgs:
        at.append(at[-1] + len(x))
    for _ in range(6):
        k = rng.choice(["rnd", "start", "middle"])
        if k == "rnd":
            cut = rng.randrange(len(b) + 1)
        elif k == "start":
            cut = rng.choice(at)
        else:
            cut = min(len(b), rng.choice(at) + rng.choice([1, 2, 3, 4, 5, 6, 20]))
        w = h.a.clone("w%d" % ctx.uniq())
        h2 = object.__new__(hist.Hist)
        h2.__dict__.update(h.__dict__)
        h2.a = w
        s = Session(ctx, w, rng.choice(VARIANTS))
        m = Monitor(ctx, h2)
        n = 0
        for x, f in plan.msgs:
            n += len(x)
            if n > cut:
                break
            if f:
                f(m)
        ids = {i for i, d in plan.stores} | {i for i, r, d in plan.meta}
        for q in m.wait:
            if q[0] in ids and q[2] == "a":
                q[2] = "m"
        m.junk = sum(1 for x, f in plan.msgs if x[0] & 7 > 3)
        s.write(b[:cut], rng, rng.choice([None, 1000, 70000]))
        how = rng.choice(["in", "in", "delay", "kill"])
        if how == "delay":
            time.sleep(rng.random() * .03)
        if how == "kill":
            # somebody kills the stevedore, nothing more
            os.kill(s.p.pid, rng.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGHUP]))
        s.close_in()
        r = s.end()
        ctx.stats["disconnects"] += 1
        ctx.stats["evaluations"] += 1
        m.eat(s)
        if m.bad:
            return bad(ctx, h2, s, m, "%s (disconnected after %d of %d bytes)" % (m.bad, cut, len(b)), r)
        # Exit status: 0, 3 in an object, 42 in a header; an assertion is not an answer
        if how != "kill" and (r.crashed or b"Assert" in r.err or b"Missing error" in r.err):
            return bad(ctx, h2, s, m, "stevedore crashes when the client disconnects after %d of %d bytes" % (
                cut, len(b)), r)
        ctx.seen("disconnect", how, k, r.rc, len(s.frames) // 5)
        if not after(ctx, h2, plan, "disconnect at %d of %d" % (cut, len(b)), False, m.present):
            return
        w.destroy()


def everybyte(ctx, case):
    """Disconnect after every byte of a short session"""
    rng = ctx.rng
    h = setup(ctx, ["20k"])
    if h is None:
        return
    plan = Plan(ctx, h, rng, 0, big=False)
    plan.known = plan.known[:2]
    for k in rng.sample(["filter", "flush", "data", "meta"], 3):
        if k == "filter":
            plan.filter_some(1)
        elif k == "flush":
            plan.add(frame(FILTER, b""), lambda m: m.flush())
        elif k == "data":
            d = gen.rbytes(rng, rng.choice([1, 3, 32]))
            plan.add(frame(DATA, d))
            plan.stores.append((h.a.rid(d), d))
            plan.add(frame(DATA, b""), lambda m, d=d: m.stored(d))
        elif k == "meta" and plan.known:
            d = gen.rbytes(rng, 5)
            ref = plan.known[0]
            plan.add(frame(META, plan.full(ref).encode()))
            plan.add(frame(META, d))
            plan.meta.append((h.a.mid(h.a.uri(ref), d), ref, d))
            plan.add(frame(META, b""), lambda m, d=d: m.metadata(ref, d))
    b = b"".join(x for x, f in plan.msgs)
    cuts = list(range(len(b) + 1))
    if len(cuts) > 120:
        cuts = sorted(rng.sample(cuts, 120))
    w = h.a
    var = rng.choice(["plain", "ubsan"])
    everacked = set()
    for cut in cuts:
        s = Session(ctx, w, var)
        m = Monitor(ctx, h)
        m.present |= everacked
        n = 0
        for x, f in plan.msgs:
            n += len(x)
            if n > cut:
                break
            if f:
                f(m)
        # Earlier rounds may have stored it, truncated or not
        for q in m.wait:
            if q[0] is not None and q[2] == "a" and q[0] in {i for i, d in plan.stores} | {i for i, r, d in plan.meta}:
                q[2] = "m"
        s.write(b[:cut], rng)
        s.close_in()
        r = s.end()
        ctx.stats["disconnects"] += 1
        m.eat(s)
        if m.bad or r.crashed or b"Assert" in r.err:
            return bad(ctx, h, s, m, "%s (disconnect after %d of %d)" % (m.bad or "crash", cut, len(b)), r)
        everacked |= m.present - set(h.objs)
        ctx.seen("byte", r.rc, len(s.frames))
    ctx.stats["evaluations"] += 1
    after(ctx, h, plan, "disconnects", False, everacked)


def batch(ctx, case):
    """More IDs than fit in one batch"""
    rng = ctx.rng
    h = setup(ctx, ["64k"])
    if h is None:
        return
    plan = Plan(ctx, h, rng, 0)
    n = rng.choice([40959, 40960, 40961, 60000, 90000, 130000])
    miss = set(rng.sample(range(n), rng.choice([0, 1, 5, 300])))
    if rng.random() < .7:
        miss |= {x for x in (0, 40958, 40959, 40960, 40961, 81919, 81920, n - 1) if x < n and rng.random() < .5}
    known = plan.known or None
    first = []
    for i in range(n):
        if i in miss or not known:
            x = gen.rbytes(rng, 32).hex()
        else:
            x = rng.choice(known)
        f = plan.full(x[:h.a.cfg.idlen])
        plan.filters += 1
        plan.add(frame(FILTER, f.encode()), lambda m, f=f: m.ask(f))
        if rng.random() < .00003:
            plan.add(frame(FILTER, b""), lambda m: m.flush())
    plan.add(frame(FILTER, b""), lambda m: m.flush())
    if rng.random() < .5:
        plan.data()
    m = Monitor(ctx, h)
    s = Session(ctx, h.a, rng.choice(["plain", "ubsan"]))
    for b, f in plan.msgs:
        if f:
            f(m)
    s.write(b"".join(b for b, f in plan.msgs), rng)
    s.close_in()
    finish(ctx, h, s, m, plan, "batch")
    ctx.stats["batched"] += n


def refused(ctx, case):
    """A store which fails is never acknowledged"""
    rng = ctx.rng
    h = setup(ctx, ["20k", "100k"])
    if h is None or not h.order:
        return
    plan = Plan(ctx, h, rng, 0, big=False)
    k = rng.choice(["resource", "metadata", "badref", "stow"])
    conf = h.a.conf + ".2"
    t = h.a.cfg.text(h.a.dir)
    if k == "resource":
        t = t.replace("resource.mime-types:\n\t*", "resource.mime-types:\n\timage/png")
        plan.data()
    elif k in ("metadata", "stow"):
        t = t.replace("metadata.mime-types:\n\t*", "metadata.mime-types:\n\timage/png")
        plan.metadata()
    else:
        plan.known = [gen.rbytes(rng, 32).hex()[:h.a.cfg.idlen]]
        plan.metadata()
    with open(conf, "w") as f:
        f.write(t)
    before = h.a.tree()
    s = Session(ctx, h.a, rng.choice(VARIANTS), conf)
    s.write(b"".join(b for b, f in plan.msgs), rng)
    s.close_in()
    r = s.end()
    ctx.stats["evaluations"] += 1
    ctx.stats["refused"] += 1
    acks = [f for f in s.frames if f[0] in (DATA, META)]
    if k == "badref" and plan.stores:
        acks = [f for f in acks if f[0] == META]
    ctx.seen("refused", k, r.rc)
    if acks:
        return h.bad("false-ack", "acknowledged %r although the store was refused (%s)" % (acks, k), r)
    if r.sanitizer:
        return h.bad("sanitizer", "sanitizer report", r)
    if k != "badref" and h.a.tree() != before:
        return h.bad("refused-changed", "archive changed by refused objects (%s)" % k, r)


def run_case(ctx, case):
    return {"p": pipelined, "i": interactive, "d": disconnect, "x": everybyte, "b": batch,
        "r": refused}[case[0]](ctx, case)
